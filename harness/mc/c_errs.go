package main

import (
	"errors"
	"fmt"
	"strconv"
	"strings"

	goabnf "github.com/pandatix/go-abnf"

	"verif/harness/ref"
)

// ---- C25: a refusal names its true cause -----------------------------------------
//
// The model computes, per operation, the set of causes for which the grammar has
// to be refused. The implementation must refuse exactly when the set is not
// empty, and with an error that stands for a member of it.

type cause struct{ kind, name string }

// causes of one grammar and root.
type causeSet map[cause]bool

func (s causeSet) String() string {
	var out []string
	for c := range s {
		out = append(out, strings.TrimSpace(c.kind+" "+c.name))
	}
	return "{" + strings.Join(out, ", ") + "}"
}

func lowered(s string) string { // rule names are ASCII
	b := []byte(s)
	for i := range b {
		if b[i] >= 'A' && b[i] <= 'Z' {
			b[i] += 'a' - 'A'
		}
	}
	return string(b)
}

// causeOf reads an error the way a caller would.
func causeOf(err error) cause {
	var (
		nf *goabnf.ErrRuleNotFound
		cy *goabnf.ErrCyclicRule
		dp *goabnf.ErrDependencyNotFound
		sr *goabnf.ErrSemanticRepetition
		nu *goabnf.ErrTooLargeNumeral
	)
	switch {
	case errors.As(err, &nf):
		return cause{"no rule", lowered(nf.Rulename)}
	case errors.As(err, &cy):
		return cause{"cycle", lowered(cy.Rulename)}
	case errors.As(err, &dp):
		return cause{"no dependency", lowered(dp.Rulename)}
	case errors.As(err, &sr):
		return cause{"repetition", fmt.Sprintf("%d*%d", sr.Repetition.Min, sr.Repetition.Max)}
	case errors.As(err, &nu):
		b := map[string]int{"x": 16, "d": 10, "b": 2}[lowered(nu.Base)]
		n, _ := strconv.ParseInt(nu.Value, b, 64)
		return cause{"numeral", fmt.Sprint(n)}
	case errors.Is(err, goabnf.ErrHandlingProseVal):
		return cause{"prose", ""}
	case errors.Is(err, goabnf.ErrProseValInTransitionGraph):
		return cause{"prose in graph", ""}
	case errors.Is(err, goabnf.ErrRepetitionThreshold):
		return cause{"threshold", ""}
	case errors.Is(err, goabnf.ErrRepetitionMinGtMax), errors.Is(err, goabnf.ErrRepetitionMinNotOne):
		return cause{"min over max", ""}
	}
	return cause{"other", ""}
}

// reachNames: the defined rules reachable from n, and the undefined names.
func reachNames(g *ref.Grammar, n string) (def map[string]*ref.Rule, undef map[string]bool) {
	def, undef = map[string]*ref.Rule{}, map[string]bool{}
	var visit func(string)
	visit = func(n string) {
		r := g.Lookup(n)
		if r == nil {
			undef[lowered(n)] = true
			return
		}
		if def[lowered(r.Name)] != nil {
			return
		}
		def[lowered(r.Name)] = r
		for _, d := range r.Alt.Refs() {
			visit(d)
		}
	}
	visit(n)
	return
}

func semvalCauses(g *ref.Grammar) causeSet {
	s := causeSet{}
	for _, r := range g.Rules {
		r.Alt.WalkReps(func(rep ref.Rep) {
			if rep.Max != ref.Inf && rep.Max < rep.Min {
				s[cause{"repetition", fmt.Sprintf("%d*%d", rep.Min, rep.Max)}] = true
			}
			switch rep.E.K {
			case ref.KRef:
				if g.Lookup(rep.E.Text) == nil {
					s[cause{"no dependency", lowered(rep.E.Text)}] = true
				}
			case ref.KRange, ref.KSeries:
				for _, v := range rep.E.Vals {
					if v > 0x10FFFF {
						s[cause{"numeral", fmt.Sprint(v)}] = true
					}
				}
			}
		})
	}
	return s
}

func runC25(c *Ctx, g *ref.Grammar, inputs [][]byte) {
	short := g.Short()
	impl := toImpl(g)
	judgeErr := func(op, root string, err error, want causeSet, nonzero bool) {
		c.Traces++
		switch {
		case err == nil && len(want) > 0:
			c.Fail(short, "%s of %q in %s: no error although %s", op, root, short, want)
		case err != nil && len(want) == 0:
			c.Fail(short, "%s of %q in %s: refused without cause: %v", op, root, short, err)
		case err != nil && !want[causeOf(err)]:
			c.Fail(short, "%s of %q in %s: the error says %s (%v), the causes are %s", op, root, short, causeOf(err).kind+" "+causeOf(err).name, err, want)
		case err != nil && nonzero:
			c.Fail(short, "%s of %q in %s: an answer along with the error %v", op, root, short, err)
		}
		if err == nil {
			c.Outcome("served")
		} else {
			c.Outcome(causeOf(err).kind)
		}
	}
	sem := semvalCauses(g)
	judgeErr("SemvalABNF", "", goabnf.SemvalABNF(impl), sem, false)

	for _, root := range []string{"r", "S", "t", "alpha", "zz", "", "\u017f", "r ", "u"} {
		def, undef := reachNames(g, root)
		gone := causeSet{}
		if g.Lookup(root) == nil {
			gone[cause{"no rule", lowered(root)}] = true
		}
		cyclic := causeSet{}
		prose, deepProse := false, false
		if len(gone) == 0 {
			for n, r := range def {
				if g.Cyclic(r.Name) {
					cyclic[cause{"cycle", n}] = true
				}
				r.Alt.WalkReps(func(rep ref.Rep) {
					if rep.E.K == ref.KProse {
						deepProse = true
						if ref.FoldEq(n, root) {
							prose = true
						}
					}
				})
			}
		}
		only := func(a causeSet, more ...cause) causeSet {
			s := causeSet{}
			for k := range a {
				s[k] = true
			}
			for _, k := range more {
				s[k] = true
			}
			return s
		}
		// recognition and parsing refuse nothing but an unknown rule
		var m *ref.Model
		if len(gone) == 0 {
			m = ref.NewModel(g, root)
		}
		for _, in := range inputs {
			ok, err := impl.IsValid(root, in)
			judgeErr("IsValid", root, err, gone, ok)
			f, err := goabnf.ParseForest(in, impl, root)
			judgeErr("ParseForest", root, err, gone, f != nil)
			b, err2 := goabnf.ParseBSR(in, impl, root)
			judgeErr("ParseBSR", root, err2, gone, b != nil)
			if m != nil && err == nil && err2 == nil {
				want := m.Chart(in).Accepts()
				if ok != want || f.Valid() != want || b.Valid() != want {
					c.Fail(key(g, in), "%q under %q in %s: IsValid %v, forest %v, binary-subtree set %v, the language says %v", in, root, short, ok, f.Valid(), b.Valid(), want)
				}
			}
			if m == nil {
				break
			}
		}
		cyc, err := impl.RuleContainsCycle(root)
		judgeErr("RuleContainsCycle", root, err, gone, cyc)
		if err == nil && cyc != (len(cyclic) > 0) {
			c.Fail(short, "RuleContainsCycle of %q in %s: %v", root, short, cyc)
		}
		src, err := goabnf.GenerateGoParser(impl, root, "gp")
		judgeErr("GenerateGoParser", root, err, gone, src != nil)

		// regular expressions
		re := only(gone)
		for k := range cyclic {
			re[k] = true
		}
		if deepProse {
			re[cause{"prose", ""}] = true
		}
		if !minOverMax(def) {
			s, err := impl.Regex(root)
			judgeErr("Regex", root, err, re, s != "")
		}

		// transition graphs
		for _, o := range []tgOpt{{}, {rules: true}, {rules: true, nums: true, chars: true}} {
			tgc := only(gone)
			for k := range cyclic {
				tgc[k] = true
			}
			if len(gone) == 0 {
				if o.rules {
					for k := range sem {
						tgc[k] = true
					}
				}
				if prose || o.rules && deepProse {
					tgc[cause{"prose in graph", ""}] = true
				}
				for n, r := range def {
					if !o.rules && !ref.FoldEq(n, root) {
						continue
					}
					r.Alt.WalkReps(func(rep ref.Rep) {
						if rep.Max != ref.Inf && rep.Min > rep.Max {
							tgc[cause{"min over max", ""}] = true
						}
						if b := max(rep.Max, rep.Min); b > 256 {
							tgc[cause{"threshold", ""}] = true
						}
					})
				}
			}
			tg, err := impl.TransitionGraph(root, o.opts()...)
			judgeErr("TransitionGraph "+o.String(), root, err, tgc, tg != nil)
		}

		// generators
		if m == nil {
			out, err := impl.Generate(1, root)
			judgeErr("Generate", root, err, gone, out != nil)
			a, err := goabnf.NewASTGenerator(impl, root)
			judgeErr("NewASTGenerator", root, err, gone, a != nil)
			continue
		}
		may := causeSet{}
		for u := range undef {
			may[cause{"no rule", u}] = true
		}
		for k := range cyclic {
			may[k] = true
		}
		if deepProse {
			may[cause{"prose", ""}] = true
		}
		may[cause{"other", ""}] = true
		productive := m.Productive()[0]
		gen := causeSet{}
		if !productive {
			gen = may
		}
		out, err := impl.Generate(1, root, goabnf.WithThreshold(6), goabnf.WithRepMax(2))
		judgeErr("Generate", root, err, gen, out != nil)
		if err == nil && productive && len(out) <= 32 && !m.AcceptsLong(out) {
			c.Fail(short, "Generate of %q in %s gives %q, which the grammar rejects", root, short, out)
		}
		ast := causeSet{}
		for _, p := range m.Productive() {
			if !p {
				ast = may
			}
		}
		if len(undef) > 0 {
			ast = may
		}
		a, err := goabnf.NewASTGenerator(impl, root, goabnf.WithMaxLen(8))
		judgeErr("NewASTGenerator", root, err, ast, a != nil)
		if err == nil && productive {
			for _, tape := range [][]byte{nil, {1}, {1, 1}, {2, 1}, {1, 2, 3}} {
				if w := a.Generate(tape); len(w) <= 32 && !m.AcceptsLong(w) {
					c.Fail(short, "ASTGenerator of %q in %s gives %q, which the grammar rejects", root, short, w)
				}
			}
		}
		c.AddRef(m.St.States, m.St.Transitions)
	}
}

func minOverMax(def map[string]*ref.Rule) bool {
	bad := false
	for _, r := range def {
		r.Alt.WalkReps(func(rep ref.Rep) {
			if rep.Max != ref.Inf && rep.Min > rep.Max {
				bad = true
			}
		})
	}
	return bad
}

func c25Units(tier string, yield func(Unit) bool) {
	a := ref.Ch("a")
	atoms := []ref.Rep{
		ref.One(a), ref.One(ref.Ref("s")), ref.One(ref.Ref("t")), ref.One(ref.Ref("u")), ref.One(ref.Ref("r")), ref.One(ref.Prose("p")),
		ref.R(3, 2, a), ref.R(2, 1, a), ref.R(300, 300, a), ref.One(ref.Ser(0x110000)), ref.One(ref.Opt(ref.AE(ref.Ref("u")))),
		ref.R(0, ref.Inf, ref.Ref("r")), ref.R(0, 0, ref.Prose("p")), ref.R(0, 1, ref.Ref("S")), ref.One(ref.Grp(ref.AE(ref.Ref("u"), a))), ref.One(ref.Rng(0xD800, 0xDFFF)),
		ref.One(ref.Grp(ref.AE(a))), ref.One(ref.Opt(ref.AE(a))), ref.One(ref.Grp(ref.Alt{{ref.R(3, 2, a), ref.One(ref.Ref("s"))}})),
	}
	sdefs := []ref.Rep{atoms[0], atoms[3], atoms[4], atoms[1], atoms[5], atoms[2], atoms[6], atoms[8], atoms[9], ref.One(ref.Opt(ref.AE(ref.Ref("r"))))}
	tdefs := []ref.Rep{atoms[0], atoms[3], atoms[5], atoms[1]}
	if tier == "thorough" {
		sdefs, tdefs = atoms, sdefs
	}
	in := [][]byte{{}, []byte("a"), []byte("aa"), []byte("b")}
	for _, x := range atoms {
		for yi, y := range atoms {
			for si, alt := range []ref.Alt{{{x, y}}, {{x}, {y}}, {{x}}, {{ref.One(ref.Opt(ref.Alt{{x}, {y}}))}}} {
				if si == 2 && yi > 0 {
					continue
				}
				for _, s := range sdefs {
					for _, t := range tdefs {
						g := &ref.Grammar{Rules: []ref.Rule{{Name: "r", Alt: alt}, {Name: "s", Alt: ref.Alt{{s}}}, {Name: "t", Alt: ref.Alt{{t}}}}}
						if !yield(Unit{Desc: g.Short, Run: func(c *Ctx) { runC25(c, g, in) }}) {
							return
						}
					}
				}
			}
		}
	}
}

func init() {
	register(&Check{
		ID:        "C25",
		Rule:      "every grammar r = X Y, X / Y, X, [X / Y] with X, Y of nineteen elements (undefined, cyclic, prose, contradictory or huge repetition, number beyond Unicode, ...), s and t of ten and four, built without validation, x nine names asked for: every operation refuses exactly when the model has a cause for it, and its error stands for one of the causes, with the rule, repetition or number at fault; what is served is right",
		Enumerate: c25Units,
		StuckS:    60,
	})
}
