package main

import (
	"errors"
	"fmt"
	"strings"
	"time"

	goabnf "github.com/pandatix/go-abnf"

	"verif/harness/ref"
)

// constructs bounds the number of nonterminals a lowering of the grammar can
// need: its reachable rules, and every repetition, group and option in them.
// rules alone is the least it can need.
func constructs(g *ref.Grammar, root string) (rules, all int) {
	seen := map[string]bool{}
	var visit func(n string)
	visit = func(n string) {
		k := strings.ToLower(n)
		if seen[k] {
			return
		}
		seen[k] = true
		rules++
		all++
		r := g.Lookup(n)
		if r == nil {
			return
		}
		r.Alt.WalkReps(func(rep ref.Rep) {
			if rep.Min != 1 || rep.Max != 1 {
				all++
			}
			if rep.E.K == ref.KGroup || rep.E.K == ref.KOpt {
				all++
			}
		})
		for _, d := range r.Alt.Refs() {
			visit(d)
		}
	}
	visit(root)
	return rules, all
}

type sized interface {
	forest
	Nodes() int
}

func budgetForest(c *Ctx, cs *Case) {
	g := toImpl(cs.G)
	root := cs.G.Root()
	type engine struct {
		name  string
		exact bool // the budget is compared with Nodes() itself
		parse func(in []byte, o ...goabnf.ForestOption) (sized, error)
	}
	engines := []engine{
		{"ParseForest", false, func(in []byte, o ...goabnf.ForestOption) (sized, error) {
			f, err := goabnf.ParseForest(in, g, root, o...)
			if err != nil {
				return nil, err
			}
			return f, nil
		}},
		{"ParseBSR", true, func(in []byte, o ...goabnf.ForestOption) (sized, error) {
			f, err := goabnf.ParseBSR(in, g, root, o...)
			if err != nil {
				return nil, err
			}
			return f, nil
		}},
	}
	same := func(a, b sized) bool {
		return a.Valid() == b.Valid() && a.NumTrees().Cmp(b.NumTrees()) == 0 && a.Ambiguous() == b.Ambiguous() && a.Nodes() == b.Nodes() && (a.Tree() == nil) == (b.Tree() == nil)
	}
	rules, all := constructs(cs.G, root)
	for ii, in := range cs.Inputs {
		for _, e := range engines {
			k := key(cs.G, in) + " " + e.name
			full, err := e.parse(in)
			if err != nil {
				c.Fail(k, "%s(%q) on %s without a budget: %v", e.name, in, cs.G.Short(), err)
				continue
			}
			if z, err := e.parse(in, goabnf.WithMaxForestNodes(0), goabnf.WithMaxSlots(0)); err != nil || !same(z, full) {
				c.Fail(k, "%s(%q) on %s with budgets 0 (unbounded): %v", e.name, in, cs.G.Short(), err)
			}
			// every node budget up to the first one that suffices, and beyond
			first := 0
			limit := 100000
			for b := 1; b <= limit; b++ {
				f, err := e.parse(in, goabnf.WithMaxForestNodes(b))
				c.Traces++
				var big *goabnf.ErrForestTooLarge
				switch {
				case err == nil:
					if first == 0 {
						first = b
						limit = 2*b + 8
					}
					if f.Nodes() > b {
						c.Fail(k, "%s(%q) on %s holds %d nodes under a budget of %d", e.name, in, cs.G.Short(), f.Nodes(), b)
					}
					if !same(f, full) {
						c.Fail(k, "%s(%q) on %s answers differently under a budget of %d", e.name, in, cs.G.Short(), b)
					}
					if b > first+8 && b < limit-1 {
						b = limit - 1 // and once far above
					}
				case errors.As(err, &big) && big.Max == b:
					if first != 0 {
						c.Fail(k, "%s(%q) on %s: a budget of %d suffices, %d does not", e.name, in, cs.G.Short(), first, b)
					}
				default:
					c.Fail(k, "%s(%q) on %s under a budget of %d: unexpected error %v", e.name, in, cs.G.Short(), b, err)
				}
			}
			if want := max(1, full.Nodes()); e.exact && first != want {
				c.Fail(k, "%s(%q) on %s holds %d nodes; the least budget that suffices is %d", e.name, in, cs.G.Short(), full.Nodes(), first)
			}
			c.Outcome("forest budgets")
			if ii > 0 {
				continue
			}
			// grammar size budgets
			first = 0
			for b := 1; b <= all+3; b++ {
				f, err := e.parse(in, goabnf.WithMaxSlots(b))
				c.Traces++
				var big *goabnf.ErrGrammarTooLarge
				switch {
				case err == nil:
					if first == 0 {
						first = b
					}
					if !same(f, full) {
						c.Fail(k, "%s(%q) on %s answers differently under a slot budget of %d", e.name, in, cs.G.Short(), b)
					}
				case errors.As(err, &big) && big.Max == b:
					if first != 0 {
						c.Fail(k, "%s on %s: a slot budget of %d suffices, %d does not", e.name, cs.G.Short(), first, b)
					}
					if b >= all {
						c.Fail(k, "%s on %s: refused under a budget of %d nonterminals, the grammar has at most %d", e.name, cs.G.Short(), b, all)
					}
				default:
					c.Fail(k, "%s on %s under a slot budget of %d: unexpected error %v", e.name, cs.G.Short(), b, err)
				}
			}
			if first < rules {
				c.Fail(k, "%s on %s: a budget of %d nonterminals suffices for %d rules", e.name, cs.G.Short(), first, rules)
			}
			c.Outcome("slot budgets")
		}
	}
	c.States++
}

func budgetGraph(c *Ctx, cs *Case) {
	root := cs.G.Root()
	if cs.G.Cyclic(root) || cs.G.HasKind(ref.KProse) || semanticallyInvalid(cs.G) || overThreshold(cs.G, root, true, 256) {
		return
	}
	g := toImpl(cs.G)
	for _, o := range tgOptsFor(cs.G, root) {
		k := cs.G.Short() + " " + o.String()
		full, err := g.TransitionGraph(root, o.opts()...)
		if err != nil {
			c.Fail(k, "TransitionGraph of %s %v: %v", cs.G.Short(), o, err)
			continue
		}
		fa, why := readTG(full)
		if why != "" {
			c.Fail(k, "%s", why)
			continue
		}
		first, limit := 0, 20000
		for b := 1; b <= limit; b++ {
			tg, err := g.TransitionGraph(root, append(o.opts(), goabnf.WithMaxNodes(b))...)
			c.Traces++
			var big *goabnf.ErrMaxNodesExceeded
			switch {
			case err == nil:
				a, why := readTG(tg)
				if why != "" {
					c.Fail(k, "%s", why)
					break
				}
				if first == 0 {
					first, limit = b, 2*b+8
				}
				if len(a.nodes) > b {
					c.Fail(k, "TransitionGraph of %s %v has %d nodes under a budget of %d", cs.G.Short(), o, len(a.nodes), b)
				}
				if len(a.nodes) != len(fa.nodes) || len(a.entries) != len(fa.entries) || a.empty != fa.empty {
					c.Fail(k, "TransitionGraph of %s %v is a different graph under a budget of %d", cs.G.Short(), o, b)
				}
				if b > first+4 && b < limit-1 {
					b = limit - 1
				}
			case errors.As(err, &big) && big.Max == b:
				if first != 0 {
					c.Fail(k, "TransitionGraph of %s %v: a budget of %d suffices, %d does not", cs.G.Short(), o, first, b)
				}
			default:
				c.Fail(k, "TransitionGraph of %s %v under a budget of %d: unexpected error %v", cs.G.Short(), o, b, err)
			}
		}
		c.Outcome("graph budgets")
	}
	// the same grammar's regex
	if unsat(cs.G) || maxBound(cs.G) > 1000 {
		return
	}
	re, err := g.Regex(root)
	if err != nil {
		return
	}
	for b := 1; b <= len(re)+2; b++ {
		got, err := g.Regex(root, goabnf.WithMaxRegexLen(b))
		c.Traces++
		var big *goabnf.ErrRegexTooLarge
		if b >= len(re) {
			if err != nil || got != re {
				c.Fail(cs.G.Short(), "Regex of %s is %q (%d bytes); under a budget of %d bytes it is %q, %v", cs.G.Short(), re, len(re), b, got, err)
			}
		} else if !errors.As(err, &big) || big.Max != b {
			c.Fail(cs.G.Short(), "Regex of %s is %q (%d bytes); under a budget of %d bytes it is %q, %v", cs.G.Short(), re, len(re), b, got, err)
		}
	}
	c.Outcome("regex budgets")
}

func budgetGen(c *Ctx, cs *Case) {
	src, err := goabnf.GenerateGoParser(toImpl(cs.G), cs.G.Root(), "gp")
	if err != nil {
		c.Fail("generate "+cs.G.Short(), "GenerateGoParser(%s): %v", cs.G.Short(), err)
		return
	}
	p, err := buildGenerated(src)
	if err != nil {
		reportBuild(c, cs.G, err)
		return
	}
	defer p.close()
	for _, in := range cs.Inputs {
		k := key(cs.G, in) + " generated"
		full, err := p.parse(in, 0)
		if err != nil || full.Status != "OK" {
			c.Fail(k, "generated parser of %s on %q without a budget: %v %v", cs.G.Short(), in, full, err)
			return
		}
		if full.Elements > 400 {
			continue
		}
		for b := 1; b <= full.Elements+3; b++ {
			r, err := p.parse(in, b)
			c.Traces++
			if err != nil {
				c.Fail(k, "generated parser of %s on %q under a budget of %d: %v", cs.G.Short(), in, b, err)
				return
			}
			if b < full.Elements {
				if r.Status != "TOOLARGE" {
					c.Fail(k, "generated parser of %s on %q needs %d elements; under a budget of %d: %s", cs.G.Short(), in, full.Elements, b, r.Status)
				}
			} else if r.Status != "OK" || r.Valid != full.Valid || r.Num != full.Num || r.Amb != full.Amb || r.Elements != full.Elements {
				c.Fail(k, "generated parser of %s on %q needs %d elements; under a budget of %d: %s valid=%v trees=%s", cs.G.Short(), in, full.Elements, b, r.Status, r.Valid, r.Num)
			}
		}
		c.Outcome("generated parser budgets")
	}
}

// adversarial: constructions whose full size is out of reach; a budget must cut
// them short with its own error, quickly.
func budgetAdversarial(yield func(Unit) bool) bool {
	rule := func(n string, a ref.Alt) ref.Rule { return ref.Rule{Name: n, Alt: a} }
	nest := func(depth, k int, e *ref.Elem) ref.Alt {
		a := ref.AE(e)
		for i := 0; i < depth; i++ {
			a = ref.Alt{{ref.R(k, k, ref.Grp(a))}}
		}
		return a
	}
	doubling := func(n int, leaf *ref.Elem) *ref.Grammar {
		g := &ref.Grammar{}
		for i := n; i > 0; i-- {
			d := ref.Ref(fmt.Sprintf("d%d", i-1))
			g.Rules = append(g.Rules, rule(fmt.Sprintf("d%d", i), ref.A(ref.C(d, d))))
		}
		g.Rules = append(g.Rules, rule("d0", ref.AE(leaf)))
		return g
	}
	type adv struct {
		what string
		run  func(b int) error
		bad  func(err error, b int) bool
	}
	isNodes := func(err error, b int) bool {
		var e *goabnf.ErrMaxNodesExceeded
		return errors.As(err, &e) && e.Max == b
	}
	isForest := func(err error, b int) bool {
		var e *goabnf.ErrForestTooLarge
		return errors.As(err, &e) && e.Max == b
	}
	isRegex := func(err error, b int) bool {
		var e *goabnf.ErrRegexTooLarge
		return errors.As(err, &e) && e.Max == b
	}
	var advs []adv
	deflates := []tgOpt{{true, false, false}, {true, true, true}, {true, true, false}, {true, false, true}}
	graph := func(what string, g *ref.Grammar, opts []tgOpt, extra ...goabnf.TGOption) {
		for _, o := range opts {
			o := o
			advs = append(advs, adv{fmt.Sprintf("graph of %s %v", what, o), func(b int) error {
				_, err := toImpl(g).TransitionGraph(g.Root(), append(append(o.opts(), extra...), goabnf.WithMaxNodes(b))...)
				return err
			}, isNodes})
		}
	}
	huge := goabnf.WithRepetitionThreshold(1 << 40)
	for _, d := range []int{3, 4, 6, 12} {
		graph(fmt.Sprintf("%d nested 100-fold repetitions", d), ref.G1("r", nest(d, 100, ref.Ch("a"))), deflates)
		graph(fmt.Sprintf("%d nested 100-fold repetitions of a range", d), ref.G1("r", nest(d, 100, ref.Rng('a', 'z'))), deflates)
	}
	for _, n := range []int{20, 40, 62} {
		graph(fmt.Sprintf("%d-fold doubling", n), doubling(n, ref.Ch("a")), deflates)
		n := n
		advs = append(advs, adv{fmt.Sprintf("regex of %d-fold doubling", n), func(b int) error {
			g := doubling(n, ref.Ch("ab"))
			_, err := toImpl(g).Regex(g.Root(), goabnf.WithMaxRegexLen(b))
			return err
		}, isRegex})
	}
	graph("the whole of Unicode", ref.G1("r", ref.AE(ref.Rng(0, 0x10FFFF))), []tgOpt{{false, true, false}})
	graph("three times the whole of Unicode", ref.G1("r", ref.A(ref.C(ref.Rng(0, 0x10FFFF), ref.Rng(0, 0x10FFFF), ref.Rng(0, 0x10FFFF)))), []tgOpt{{false, true, false}})
	for _, k := range []int{1 << 20, 1 << 31, 1 << 40} {
		graph(fmt.Sprintf("%d\"a\"", k), ref.G1("r", ref.Alt{{ref.R(k, k, ref.Ch("a"))}}), deflates[:2], huge)
		graph(fmt.Sprintf("*%d\"a\"", k), ref.G1("r", ref.Alt{{ref.R(0, k, ref.Ch("a"))}}), deflates[:2], huge)
		graph(fmt.Sprintf("%d*\"a\"", k), ref.G1("r", ref.Alt{{ref.R(k, ref.Inf, ref.Ch("a"))}}), deflates[:2], huge)
		graph(fmt.Sprintf("%d%%x61-7A", k), ref.G1("r", ref.Alt{{ref.R(k, k, ref.Rng('a', 'z'))}}), deflates[:2], huge)
	}
	amb := &ref.Grammar{Rules: []ref.Rule{rule("s", ref.A(ref.C(ref.Ref("s"), ref.Ref("s")), ref.C(ref.Ref("s"), ref.Ref("s"), ref.Ref("s")), ref.C(ref.Ch("a")), ref.C(ref.Ch(""))))}}
	long := []byte(strings.Repeat("a", 3000))
	for _, gr := range []*ref.Grammar{amb,
		ref.G1("s", ref.Alt{{ref.R(0, ref.Inf, ref.Grp(ref.Alt{{ref.R(0, ref.Inf, ref.Grp(ref.AE(ref.Ch("a"), ref.Ch("aa"))))}}))}}),
		ref.G1("s", ref.Alt{{ref.R(0, 9999999999, ref.Grp(ref.AE(ref.Ch("a"), ref.Ch(""))))}}),
		ref.G1("s", ref.Alt{{ref.R(9999999999, 9999999999, ref.Opt(ref.AE(ref.Ch("a"))))}}),
		ref.G1("s", ref.Alt{{ref.R(9999999999, ref.Inf, ref.Opt(ref.AE(ref.Ch("aa"))))}}),
		ref.G1("s", ref.Alt{{ref.R(2, 2, ref.Grp(ref.Alt{{ref.R(99999999, 99999999, ref.Opt(ref.AE(ref.Ch("a"))))}}))}}),
	} {
		gr := gr
		advs = append(advs,
			adv{"forest of " + gr.Short(), func(b int) error {
				_, err := goabnf.ParseForest(long, toImpl(gr), "s", goabnf.WithMaxForestNodes(b))
				return err
			}, isForest},
			adv{"BSR of " + gr.Short(), func(b int) error {
				_, err := goabnf.ParseBSR(long, toImpl(gr), "s", goabnf.WithMaxForestNodes(b))
				return err
			}, isForest})
	}
	for _, r := range [][2]int{{0, 9999999999}, {9999999999, 9999999999}, {9999999999, ref.Inf}} {
		gr := ref.G1("s", ref.Alt{{ref.Rep{Min: r[0], Max: r[1], E: ref.Grp(ref.AE(ref.Ch("a"), ref.Ch("")))}}})
		if !yield(Unit{Desc: func() string { return "adversarial: generated parser of " + gr.Short() }, Run: func(c *Ctx) {
			src, err := goabnf.GenerateGoParser(toImpl(gr), "s", "gp")
			if err != nil {
				c.Fail("generate "+gr.Short(), "GenerateGoParser(%s): %v", gr.Short(), err)
				return
			}
			p, err := buildGenerated(src)
			if err != nil {
				reportBuild(c, gr, err)
				return
			}
			defer p.close()
			for _, b := range []int{1, 10, 1000, 5000} {
				for _, in := range [][]byte{nil, []byte("a"), []byte("b"), long[:300]} {
					r, err := p.parse(in, b)
					c.Traces++
					if err != nil || r.Status != "TOOLARGE" {
						c.Fail(key(gr, in)+" generated", "generated parser of %s on %d bytes under a budget of %d: %v, %v", gr.Short(), len(in), b, r, err)
						return
					}
				}
			}
			c.Outcome("adversarial")
		}}) {
			return false
		}
	}
	for _, a := range advs {
		a := a
		if !yield(Unit{Desc: func() string { return "adversarial: " + a.what }, Run: func(c *Ctx) {
			for _, b := range []int{1, 10, 1000, 5000} {
				t0 := time.Now()
				err := a.run(b)
				c.Traces++
				if !a.bad(err, b) {
					c.Fail(fmt.Sprintf("%s %d", a.what, b), "%s under a budget of %d: %v", a.what, b, err)
				}
				if d := time.Since(t0); d > 30*time.Second {
					c.Fail(fmt.Sprintf("%s %d", a.what, b), "%s under a budget of %d took %v", a.what, b, d.Round(time.Second))
				}
			}
			c.Outcome("adversarial")
		}}) {
			return false
		}
	}
	return true
}

func c16Units(tier string, yield func(Unit) bool) {
	if !budgetAdversarial(yield) {
		return
	}
	thorough := tier == "thorough"
	per := func(run func(*Ctx, *Case), cut int) func(*Case) bool {
		return func(cs *Case) bool {
			if cs.Want != nil {
				return true
			}
			if len(cs.Inputs) > cut {
				s := *cs
				s.Inputs = nil
				for i := 0; i < cut; i++ { // spread over the list, longest included
					s.Inputs = append(s.Inputs, cs.Inputs[(len(cs.Inputs)-1)-i*(len(cs.Inputs)/cut)])
				}
				cs = &s
			}
			return yield(Unit{Desc: cs.Desc, Run: func(c *Ctx) { run(c, cs) }})
		}
	}
	w := 3
	if thorough {
		w = 4
	}
	f := per(budgetForest, 4)
	if !(recCases(1, f) && hiddenCases(1, f) && collideCases(1, f) && repCases(2, 3, inAB3, f) && mixCases(1, f) && structCases(w, w+1, true, f)) {
		return
	}
	gr := per(budgetGraph, 1)
	if !(surrogateCases(gr) && classCases(1, gr) && diamondCases(1, gr) && mixCases(1, gr) && repCases(3, 5, inAB3, gr) && structCases(w+1, w+2, false, gr)) {
		return
	}
	n := 0
	ge := per(budgetGen, 6)
	recCases(0, func(cs *Case) bool {
		n++
		return n <= 10 && ge(cs)
	})
	for _, a := range []ref.Alt{
		{{ref.R(0, ref.Inf, ref.Grp(ref.AE(ref.Ch("a"), ref.Ch("aa"))))}},
		{{ref.R(2, 3, ref.Grp(ref.AE(ref.Ch("a"), ref.Ch(""))))}},
		{{ref.One(ref.Opt(ref.AE(ref.Ch("a")))), ref.R(0, 2, ref.Opt(ref.AE(ref.Ch("a"))))}},
	} {
		if !ge(&Case{G: ref.G1("r", a), Inputs: inAB4, Fam: "solo"}) {
			return
		}
	}
}

func init() {
	register(&Check{
		ID:        "C16",
		Rule:      "for every grammar of the bounded families and every budget from 1 to beyond the least sufficient one: forest nodes, BSR elements, grammar nonterminals, graph nodes, regex bytes and generated-parser elements; plus constructions far beyond any budget, which must be cut short",
		Enumerate: c16Units,
		StuckS:    60,
	})
}
