package main

import (
	"fmt"
	"math/big"

	goabnf "github.com/pandatix/go-abnf"

	"verif/harness/ref"
)

func key(g *ref.Grammar, in []byte) string { return fmt.Sprintf("%s | %q", g.Short(), in) }

// clipS shortens long texts in messages.
func clipS(s string) string {
	if len(s) > 600 {
		return fmt.Sprintf("%s...(%d bytes)...%s", s[:350], len(s), s[len(s)-150:])
	}
	return s
}

// perCase turns a case universe into units: one unit per grammar.
func perCase(enum func(tier string, y func(*Case) bool), run func(c *Ctx, cs *Case)) func(string, func(Unit) bool) {
	return func(tier string, yield func(Unit) bool) {
		enum(tier, func(cs *Case) bool {
			return yield(Unit{Desc: cs.Desc, Run: func(c *Ctx) { run(c, cs) }})
		})
	}
}

func init() {
	register(&Check{
		ID:   "C01",
		Rule: "every grammar of the families term/mix/rep/rec/bigrep/struct, on every input of its alphabet up to the bound; the library's validity verdict is compared with the reference derivability fixpoint",
		Assumptions: []string{
			"grammars and inputs beyond the stated size bounds are not explored",
			"the reference model (harness/ref) states RFC 5234/7405 matching over UTF-8 text",
		},
		Enumerate: perCase(allCases, runC01),
	})
	register(&Check{
		ID:        "C02",
		Rule:      "same universe; shared-packed-forest Valid, NumTrees and Ambiguous are compared with the reference count of derivations (finite number or infinite)",
		Enumerate: perCase(allCases, runC02),
	})
	register(&Check{
		ID:        "C03",
		Rule:      "same universe; binary-subtree-set Valid, NumTrees and Ambiguous are compared with the reference count of derivations",
		Enumerate: perCase(allCases, runC03),
	})
	register(&Check{
		ID:        "C04",
		Rule:      "same universe; for accepted, finitely ambiguous inputs the tree extracted by each engine is replayed as a derivation of the grammar; for infinitely ambiguous ones it must exist and span the input; for rejected ones it must be absent",
		Enumerate: perCase(allCases, runC04),
	})
}

func runC01(c *Ctx, cs *Case) {
	g := toImpl(cs.G)
	m := ref.NewModel(cs.G, cs.G.Root())
	for i, in := range cs.Inputs {
		var want bool
		if cs.Want != nil {
			want = cs.Want[i].Sign() != 0
		} else {
			want = m.Chart(in).Accepts()
		}
		got, err := g.IsValid(cs.G.Root(), in)
		c.Traces++
		if err != nil {
			c.Fail(key(cs.G, in), "IsValid(%q) on %s: error %v", in, cs.G.Short(), err)
			continue
		}
		if got != want {
			c.Fail(key(cs.G, in), "IsValid(%q) on %s = %v, the language says %v", in, cs.G.Short(), got, want)
		}
		c.Outcome(fmt.Sprintf("%s valid=%v", cs.Fam, want))
	}
	c.AddRef(m.St.States, m.St.Transitions)
}

type forest interface {
	Valid() bool
	NumTrees() *big.Int
	Ambiguous() bool
	Tree() *goabnf.ParseTree
}

func countOutcome(n *big.Int, inf bool) string {
	switch {
	case inf:
		return "infinite"
	case n.Sign() == 0:
		return "0"
	case n.IsInt64() && n.Int64() == 1:
		return "1"
	}
	return ">1"
}

func runForest(c *Ctx, cs *Case, what string, parse func(g *goabnf.Grammar, in []byte) (forest, error)) {
	g := toImpl(cs.G)
	m := ref.NewModel(cs.G, cs.G.Root())
	for i, in := range cs.Inputs {
		n, inf := cs.count(m, i)
		f, err := parse(g, in)
		c.Traces++
		if err != nil {
			c.Fail(key(cs.G, in), "%s(%q) on %s: error %v", what, in, cs.G.Short(), err)
			continue
		}
		want := n
		if inf {
			want = big.NewInt(-1)
		}
		valid, num, amb := f.Valid(), f.NumTrees(), f.Ambiguous()
		wantValid := inf || n.Sign() > 0
		wantAmb := inf || n.Cmp(big.NewInt(1)) > 0
		if valid != wantValid || num.Cmp(want) != 0 || amb != wantAmb {
			c.Fail(key(cs.G, in), "%s(%q) on %s: valid=%v trees=%v ambiguous=%v, the grammar gives valid=%v trees=%v ambiguous=%v",
				what, in, cs.G.Short(), valid, num, amb, wantValid, want, wantAmb)
		}
		c.Outcome("trees=" + countOutcome(n, inf))
	}
	c.AddRef(m.St.States, m.St.Transitions)
}

func parseSPPF(root string) func(g *goabnf.Grammar, in []byte) (forest, error) {
	return func(g *goabnf.Grammar, in []byte) (forest, error) {
		f, err := goabnf.ParseForest(in, g, root)
		if err != nil {
			return nil, err
		}
		return f, nil
	}
}

func parseBSR(root string) func(g *goabnf.Grammar, in []byte) (forest, error) {
	return func(g *goabnf.Grammar, in []byte) (forest, error) {
		f, err := goabnf.ParseBSR(in, g, root)
		if err != nil {
			return nil, err
		}
		return f, nil
	}
}

func runC02(c *Ctx, cs *Case) { runForest(c, cs, "ParseForest", parseSPPF(cs.G.Root())) }
func runC03(c *Ctx, cs *Case) { runForest(c, cs, "ParseBSR", parseBSR(cs.G.Root())) }

func runC04(c *Ctx, cs *Case) {
	g := toImpl(cs.G)
	m := ref.NewModel(cs.G, cs.G.Root())
	for i, in := range cs.Inputs {
		n, inf := cs.count(m, i)
		acc := inf || n.Sign() > 0
		for _, eng := range []struct {
			name  string
			parse func(g *goabnf.Grammar, in []byte) (forest, error)
		}{{"ParseForest", parseSPPF(cs.G.Root())}, {"ParseBSR", parseBSR(cs.G.Root())}} {
			f, err := eng.parse(g, in)
			c.Traces++
			if err != nil {
				c.Fail(key(cs.G, in), "%s(%q) on %s: error %v", eng.name, in, cs.G.Short(), err)
				continue
			}
			t := f.Tree()
			if !acc {
				if t != nil {
					c.Fail(key(cs.G, in), "%s(%q) on %s: rejected input has a tree", eng.name, in, cs.G.Short())
				}
				continue
			}
			if t == nil {
				c.Fail(key(cs.G, in), "%s(%q) on %s: accepted input has no tree", eng.name, in, cs.G.Short())
				continue
			}
			if inf {
				if t.Start != 0 || t.End != len(in) || !ref.FoldEq(t.Rule, cs.G.Root()) {
					c.Fail(key(cs.G, in), "%s(%q) on %s: tree root %s[%d,%d]", eng.name, in, cs.G.Short(), t.Rule, t.Start, t.End)
				}
				c.Outcome("infinite")
				continue
			}
			if why := checkTree(cs.G, cs.G.Root(), in, convTree(t)); why != "" {
				c.Fail(key(cs.G, in), "%s(%q) on %s: tree is not a derivation: %s; tree %s", eng.name, in, cs.G.Short(), why, treeStr(convTree(t)))
			}
			c.Outcome("tree")
		}
	}
	c.AddRef(m.St.States, m.St.Transitions)
}

// PT is an engine-independent parse tree.
type PT struct {
	Rule       string `json:"r,omitempty"`
	Start, End int
	Children   []*PT `json:"c,omitempty"`
}

func convTree(t *goabnf.ParseTree) *PT {
	if t == nil {
		return nil
	}
	o := &PT{Rule: t.Rule, Start: t.Start, End: t.End}
	for _, k := range t.Children {
		o.Children = append(o.Children, convTree(k))
	}
	return o
}

func treeStr(t *PT) string {
	s := fmt.Sprintf("%s[%d,%d]", t.Rule, t.Start, t.End)
	if len(t.Children) > 0 {
		s += "("
		for i, k := range t.Children {
			if i > 0 {
				s += " "
			}
			s += treeStr(k)
		}
		s += ")"
	}
	return s
}

// checkTree replays t as a derivation of root over the whole input, and returns
// what is wrong with it, or "".
func checkTree(g *ref.Grammar, root string, in []byte, t *PT) string {
	if t.Start != 0 || t.End != len(in) {
		return fmt.Sprintf("root spans [%d,%d] of %d bytes", t.Start, t.End, len(in))
	}
	return ref.CheckTree(g, root, in, toRefTree(t))
}

func toRefTree(t *PT) *ref.Tree {
	o := &ref.Tree{Rule: t.Rule, Start: t.Start, End: t.End}
	for _, k := range t.Children {
		o.Children = append(o.Children, toRefTree(k))
	}
	return o
}
