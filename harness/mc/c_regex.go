package main

import (
	"errors"
	"fmt"
	"regexp"
	"unicode/utf8"

	goabnf "github.com/pandatix/go-abnf"

	"verif/harness/ref"
)

// classCases: every alternation of up to three (thorough: four) character
// classes over a small window of code points, metacharacters of regular
// expressions included, alone and inside repetitions and concatenations.
func classCases(level int, yield func(*Case) bool) bool {
	var pool []*ref.Elem
	for lo := int64('a'); lo <= 'd'; lo++ {
		for hi := lo; hi <= 'd'; hi++ {
			pool = append(pool, ref.Rng(lo, hi))
		}
	}
	pool = append(pool, ref.Ch("a"), ref.Ch("C"), ref.Cs("B"), ref.Ser('b'), ref.Ch("ab"), ref.Ch(""))
	in := ref.Strings([]string{"a", "b", "c", "d"}, 2)
	for _, s := range []string{"A", "B", "C", "D", "e", "`", "aB", "Bc"} {
		in = append(in, []byte(s))
	}
	wrap := func(a ref.Alt) []ref.Alt {
		return []ref.Alt{a, {{ref.R(2, 2, ref.Grp(a))}}, {{ref.One(ref.Grp(a)), ref.R(0, 1, ref.Ch("b"))}}}
	}
	emit := func(a ref.Alt, in [][]byte) bool {
		for _, w := range wrap(a) {
			if !yield(&Case{G: ref.G1("r", w), Inputs: in, Fam: "class"}) {
				return false
			}
		}
		return true
	}
	for i, x := range pool {
		if !emit(ref.AE(x), in) {
			return false
		}
		for j, y := range pool {
			if !emit(ref.AE(x, y), in) {
				return false
			}
			if level >= 2 || (i+j)%2 == 0 {
				for _, z := range pool {
					if !emit(ref.AE(x, y, z), in) {
						return false
					}
				}
			}
		}
	}
	// metacharacters as class bounds and members
	meta := []int64{'!', '$', '(', ')', '*', '+', '-', '.', '?', '[', '\\', ']', '^', '{', '|', '}', 0, 0x7F, '\n', 0xE9, 0x20AC, 0x1F600}
	var min [][]byte
	for _, m := range meta {
		min = append(min, []byte(string(rune(m))), []byte(string(rune(m+1))), []byte(string(rune(m))+"a"))
	}
	min = append(min, nil)
	for _, a := range meta {
		for _, b := range meta {
			if !yield(&Case{G: ref.G1("r", ref.AE(ref.Ser(a), ref.Ser(b))), Inputs: min, Fam: "classmeta"}) {
				return false
			}
			if a <= b {
				if !yield(&Case{G: ref.G1("r", ref.A(ref.Concat{ref.R(1, 2, ref.Grp(ref.AE(ref.Rng(a, b), ref.Ser('a'))))})), Inputs: min, Fam: "classmeta"}) {
					return false
				}
			}
			if !yield(&Case{G: ref.G1("r", ref.A(ref.C(ref.Ser(a, b)))), Inputs: append([][]byte{[]byte(string(rune(a)) + string(rune(b)))}, min...), Fam: "classmeta"}) {
				return false
			}
		}
	}
	return true
}

// diamondCases: acyclic grammars of up to four rules sharing sub-rules, with
// references in different letter case.
func diamondCases(level int, yield func(*Case) bool) bool {
	s, S, t, u := ref.Ref("s"), ref.Ref("S"), ref.Ref("t"), ref.Ref("u")
	a, b := ref.Ch("a"), ref.Ch("b")
	roots := []ref.Alt{
		ref.A(ref.C(s, t)), ref.A(ref.C(s, S)), ref.A(ref.C(s), ref.C(t)), ref.A(ref.C(t, S, t)),
		{{ref.R(0, 2, s), ref.One(t)}}, {{ref.R(2, 2, s)}, {ref.One(s)}}, {{ref.R(0, ref.Inf, ref.Grp(ref.AE(s, t)))}},
		{{ref.One(ref.Opt(ref.AE(s))), ref.One(S)}}, {{ref.R(1, 3, ref.Grp(ref.A(ref.C(s, ref.Opt(ref.AE(t))))))}},
		{{ref.R(0, ref.Inf, s)}, {ref.R(1, ref.Inf, t)}},
	}
	ss := []ref.Alt{ref.AE(a, b), ref.A(ref.C(u, b)), ref.A(ref.C(u), ref.C(a)), {{ref.R(0, ref.Inf, u)}}, {{ref.R(1, 2, u)}}, ref.AE(ref.Opt(ref.AE(u)))}
	ts := []ref.Alt{ref.AE(b), ref.A(ref.C(u, u)), {{ref.R(0, 1, u), ref.One(a)}}, ref.AE(ref.Ref("U"), s), {{ref.R(1, ref.Inf, u), ref.One(s)}}}
	us := []ref.Alt{ref.AE(a), ref.AE(a, ref.Ch("")), ref.A(ref.C(a, b), ref.C(b)), {{ref.R(0, 2, a)}}, {{ref.R(1, ref.Inf, a), ref.R(0, ref.Inf, b)}}}
	for _, r0 := range roots {
		for _, r1 := range ss {
			for _, r2 := range ts {
				for _, r3 := range us {
					g := &ref.Grammar{Rules: []ref.Rule{{Name: "r", Alt: r0}, {Name: "s", Alt: r1}, {Name: "t", Alt: r2}, {Name: "u", Alt: r3}}}
					if !yield(&Case{G: g, Inputs: inAB4, Fam: "diamond"}) {
						return false
					}
				}
			}
		}
	}
	return true
}

// regularCases is the universe of the regex and transition-graph checks: mostly
// acyclic grammars, plus cyclic and prose ones that must be refused.
func regularCases(tier string, yield func(*Case) bool) {
	if tier == "thorough" {
		_ = termCases(2, yield) && mixCases(2, yield) && surrogateCases(yield) && classCases(2, yield) && diamondCases(2, yield) && repCases(7, 10, longRepInputs, yield) &&
			bigRepCases(yield) && recCases(2, yield) && structCases(6, 7, false, yield)
		return
	}
	_ = termCases(2, yield) && mixCases(2, yield) && surrogateCases(yield) && classCases(2, yield) && diamondCases(1, yield) && repCases(4, 6, longRepInputs, yield) &&
		bigRepCases(yield) && recCases(1, yield) && structCases(5, 6, false, yield)
}

func regexCases(tier string, yield func(*Case) bool) {
	more := true
	y := func(cs *Case) bool { more = yield(cs); return more }
	if regularCases(tier, y); more {
		_ = scaleCases(tier, y) && realCases(nil, y)
	}
}

var longRepInputs = append(append([][]byte{}, inAB4...), asOf(13, "a")[5:]...)

// surrogateCases: num-vals around the surrogate block and reversed ranges.
func surrogateCases(yield func(*Case) bool) bool {
	return edgeCases([]int64{0xD7FE, 0xD7FF, 0xD800, 0xDBFF, 0xDFFF, 0xE000, 0xFFFD}, yield) &&
		edgeCases([]int64{0x10FFFE, 0x10FFFF, 0x110000, 0x110061, 0x7FFFFFFF}, yield)
}

// edgeCases: numbers around the edges of what is a character.
func edgeCases(vals []int64, yield func(*Case) bool) bool {
	in := [][]byte{{}, []byte("a"), []byte("b"), []byte("aa"), []byte("ba"), []byte("\uD7FF"), []byte("\uE000"), []byte("\uFFFD"), []byte("a\uFFFD"), []byte("\uFFFDa"), []byte("\uD7FE"), {0xED, 0xA0, 0x80}, []byte("\uFFFD\uFFFD"), []byte("\U0010FFFE"), []byte("\U0010FFFF"), []byte("\U0010FFFFa"), []byte("a\U0010FFFF"), {0xF4, 0x90, 0x80, 0x80}}
	for _, lo := range vals {
		els := []*ref.Elem{ref.Ser(lo), ref.Ser('a', lo)}
		for _, hi := range vals {
			els = append(els, ref.Rng(lo, hi)) // lo > hi: matches nothing
		}
		for _, e := range els {
			for _, a := range []ref.Alt{
				ref.AE(e), ref.AE(e, ref.Ch("a")), ref.AE(ref.Ch("a"), e), ref.A(ref.C(e, ref.Ch("a"))), ref.A(ref.C(ref.Ch("a"), e)), {{ref.R(0, 2, e)}}, {{ref.R(0, ref.Inf, e), ref.One(ref.Ch("a"))}},
				{{ref.R(2, 2, ref.Grp(ref.A(ref.C(e, ref.Ch("a")), ref.C(ref.Ch("a")))))}},
				{{ref.One(ref.Opt(ref.AE(e))), ref.One(ref.Ch("a"))}},
				{{ref.R(1, 2, ref.Grp(ref.A(ref.C(ref.Ch("a"), e), ref.C(ref.Ch("a")))))}},
				ref.A(ref.C(ref.Ch("b"), e), ref.C(ref.Ch("a"))),
				{{ref.R(2, 2, ref.Grp(ref.A(ref.C(ref.Ch("b"), e, ref.Ch("b")), ref.C(ref.Ch("a")))))}},
			} {
				if !yield(&Case{G: ref.G1("r", a), Inputs: in, Fam: "surrogate"}) {
					return false
				}
			}
		}
	}
	return true
}

func maxBound(g *ref.Grammar) int {
	m := 0
	for _, r := range g.Rules {
		r.Alt.WalkReps(func(rep ref.Rep) {
			if rep.Min > m {
				m = rep.Min
			}
			if rep.Max > m {
				m = rep.Max
			}
		})
	}
	return m
}

func unsat(g *ref.Grammar) bool {
	bad := false
	for _, r := range g.Rules {
		r.Alt.WalkReps(func(rep ref.Rep) {
			if rep.Max != ref.Inf && rep.Max < rep.Min {
				bad = true
			}
		})
	}
	return bad
}

func runC06(c *Ctx, cs *Case) {
	g := toImpl(cs.G)
	root := cs.G.Root()
	before := dumpImpl(g)
	re, err := g.Regex(root)
	c.Traces++
	if cs.G.Cyclic(root) {
		var cy *goabnf.ErrCyclicRule
		if !errors.As(err, &cy) {
			c.Fail(cs.G.Short(), "Regex of the cyclic grammar %s: %q, error %v", cs.G.Short(), re, err)
		}
		c.Outcome("cyclic refused")
		return
	}
	if cs.G.HasKind(ref.KProse) {
		if err == nil {
			c.Fail(cs.G.Short(), "Regex of %s, which has a prose-val: %q and no error", cs.G.Short(), re)
		}
		c.Outcome("prose refused")
		return
	}
	if unsat(cs.G) || maxBound(cs.G) > 1000 {
		c.Outcome("outside (unsatisfiable bound, or bound beyond the regex dialect)")
		return
	}
	if err != nil {
		c.Fail(cs.G.Short(), "Regex of %s: %v", cs.G.Short(), err)
		return
	}
	if dumpImpl(g) != before {
		c.Fail(cs.G.Short(), "Regex changed the grammar %s", cs.G.Short())
	}
	rx, err := regexp.Compile(`\A(?:` + re + `)\z`)
	if err != nil {
		c.Fail(cs.G.Short(), "Regex of %s is %q, which does not compile: %v", cs.G.Short(), re, err)
		return
	}
	m := ref.NewModel(cs.G, root)
	for _, in := range cs.Inputs {
		if len(in) > 0 && !utf8.Valid(in) {
			continue
		}
		c.Traces++
		want := m.AcceptsLong(in)
		if got := rx.Match(in); got != want {
			c.Fail(key(cs.G, in), "Regex of %s is %q: matches %q = %v, the language says %v", cs.G.Short(), re, in, got, want)
		}
		c.Outcome(fmt.Sprintf("match=%v", want))
	}
	c.AddRef(m.St.States, m.St.Transitions)
}

func init() {
	register(&Check{
		ID:          "C06",
		Rule:        "every grammar of the regular universe (terminals, classes, metacharacters, shared rules, repetition bounds, all small structures): the regex is compiled and matched, anchored, on every valid UTF-8 input of the case; cyclic and prose grammars must be refused",
		Assumptions: []string{"inputs are valid UTF-8 (regexp decodes malformed bytes as U+FFFD)", "repetition bounds up to 1000, the limit of Go's regexp dialect"},
		Enumerate:   perCase(regexCases, runC06),
	})
}
