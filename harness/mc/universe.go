package main

import (
	"fmt"
	"math/big"

	"verif/harness/ref"
)

// A Case is a grammar, its root and the inputs to run it on.
type Case struct {
	G      *ref.Grammar
	Inputs [][]byte
	Fam    string
	// Want, if set, gives the number of derivations per input in closed form (-1:
	// infinitely many); otherwise the reference model counts them.
	Want []*big.Int
}

// count is the number of derivations of input i.
func (c *Case) count(m *ref.Model, i int) (n *big.Int, inf bool) {
	if c.Want != nil {
		return c.Want[i], c.Want[i].Sign() < 0
	}
	return m.Chart(c.Inputs[i]).Count()
}

func (c *Case) Desc() string {
	return fmt.Sprintf("[%s] %s  (%d inputs)", c.Fam, clipS(c.G.Short()), len(c.Inputs))
}

var (
	repsSmall = [][2]int{{0, ref.Inf}, {1, ref.Inf}, {2, 2}, {0, 2}, {2, 3}}
	inAB4     = ref.Strings([]string{"a", "b"}, 4)
	inAB3     = ref.Strings([]string{"a", "b"}, 3)
	inAB5     = ref.Strings([]string{"a", "b"}, 5)
)

func asOf(n int, ch string) [][]byte {
	var out [][]byte
	cur := ""
	for i := 0; i <= n; i++ {
		out = append(out, []byte(cur))
		cur += ch
	}
	return out
}

// structCases: every one-rule grammar of bounded weight over a small leaf set,
// the rule itself included (recursion), and every two-rule grammar of bounded
// total weight.
func structCases(w1, w2 int, recursive bool, yield func(*Case) bool) bool {
	leaves := []*ref.Elem{ref.Ch("a"), ref.Ch("b"), ref.Ch("aa")}
	if recursive {
		leaves = append(leaves, ref.Ref("r"))
	}
	sp := &ref.Space{Leaves: leaves, Reps: repsSmall, Groups: true, Opts: true}
	for _, a := range sp.UpTo(w1) {
		if !yield(&Case{G: ref.G1("r", a), Inputs: inAB4, Fam: "struct1"}) {
			return false
		}
	}
	// two rules
	l0 := []*ref.Elem{ref.Ch("a"), ref.Ref("s")}
	l1 := []*ref.Elem{ref.Ch("a"), ref.Ch("b")}
	if recursive {
		l0 = append(l0, ref.Ref("r"))
		l1 = append(l1, ref.Ref("r"))
	}
	reps := [][2]int{{0, ref.Inf}, {2, 2}, {1, 2}}
	s0 := &ref.Space{Leaves: l0, Reps: reps, Groups: true, Opts: true}
	s1 := &ref.Space{Leaves: l1, Reps: reps, Groups: true, Opts: true}
	for t := 2; t <= w2; t++ {
		for k := 1; k < t; k++ {
			for _, a := range s0.Alts(k) {
				if !a.UsesRef("s") {
					continue
				}
				for _, b := range s1.Alts(t - k) {
					g := &ref.Grammar{Rules: []ref.Rule{{Name: "r", Alt: a}, {Name: "s", Alt: b}}}
					if !yield(&Case{G: g, Inputs: inAB3, Fam: "struct2"}) {
						return false
					}
				}
			}
		}
	}
	return true
}

// repPool is the set of elements put under every repetition bound.
func repPool() []*ref.Elem {
	e := ref.Ch("")
	return []*ref.Elem{
		ref.Ch("a"), ref.Ch("aa"), ref.Ch("ab"), ref.Rng('a', 'b'), e,
		ref.Grp(ref.AE(ref.Ch("a"), ref.Ch("aa"))),
		ref.Grp(ref.AE(ref.Ch("a"), ref.Ch("b"))),
		ref.Grp(ref.AE(ref.Ch("a"), ref.Ch("aaa"))),
		ref.Grp(ref.AE(ref.Ch("aa"), ref.Ch("aaa"))),
		ref.Grp(ref.AE(ref.Ch("a"), e)),
		ref.Grp(ref.AE(ref.Ch("a"), ref.Ch("a"))),
		ref.Opt(ref.AE(ref.Ch("a"))),
		ref.Opt(ref.AE(ref.Ch("a"), ref.Ch("aa"))),
		ref.Grp(ref.A(ref.Concat{ref.R(0, ref.Inf, ref.Ch("a"))})),
		ref.Grp(ref.A(ref.Concat{ref.R(1, ref.Inf, ref.Ch("a"))})),
		ref.Grp(ref.A(ref.Concat{ref.R(0, 2, ref.Ch("a"))})),
		ref.Grp(ref.A(ref.Concat{ref.R(1, 2, ref.Ch("a"))})),
		ref.Grp(ref.A(ref.Concat{ref.R(2, 2, ref.Ch("a"))})),
		ref.Grp(ref.A(ref.Concat{ref.One(ref.Ch("a")), ref.R(0, 1, ref.Ch("b"))})),
		ref.Grp(ref.A(ref.Concat{ref.R(0, ref.Inf, ref.Ch("b")), ref.One(ref.Ch("a"))})),
		ref.Ref("s"),
	}
}

func repBounds(maxMin, maxMax int) [][2]int {
	var out [][2]int
	for mn := 0; mn <= maxMin; mn++ {
		for mx := mn; mx <= maxMax; mx++ {
			out = append(out, [2]int{mn, mx})
		}
		out = append(out, [2]int{mn, ref.Inf})
	}
	return out
}

// repCases: every bound min*max with min <= maxMin, max <= maxMax or none, on
// every pool element, in every context.
func repCases(maxMin, maxMax int, inputs [][]byte, yield func(*Case) bool) bool {
	sRule := ref.Rule{Name: "s", Alt: ref.A(ref.C(ref.Ch("a")), ref.C(ref.Ch("b"), ref.Ch("a")))}
	for _, b := range repBounds(maxMin, maxMax) {
		for _, e := range repPool() {
			x := ref.Rep{Min: b[0], Max: b[1], E: e}
			ctxs := []ref.Alt{
				{{x}},
				{{x, ref.One(ref.Ch("a"))}},
				{{ref.One(ref.Ch("a")), x}},
				{{x, x}},
				{{x}, ref.C(ref.Ch("ab"))},
				{{ref.R(0, 2, ref.Grp(ref.A(ref.Concat{x})))}},
				{{ref.R(0, ref.Inf, ref.Grp(ref.A(ref.Concat{x, ref.One(ref.Ch("b"))})))}},
				{{ref.One(ref.Opt(ref.A(ref.Concat{x}))), ref.One(ref.Ch("b"))}},
				{{x, ref.R(0, 1, ref.Ch("a")), ref.One(ref.Opt(ref.AE(ref.Ch("b"))))}},
			}
			for _, a := range ctxs {
				g := ref.G1("r", a)
				if a.UsesRef("s") {
					g.Rules = append(g.Rules, sRule)
				}
				if !yield(&Case{G: g, Inputs: inputs, Fam: "rep"}) {
					return false
				}
			}
		}
	}
	return true
}

// recCases: every grammar of nr mutually recursive rules, each with one or two
// alternatives drawn from the symbol sequences of length <= seqLen over
// {rules, "x", "y", [s]/(r "x") wrappers}.
func recCases(level int, yield func(*Case) bool) bool {
	x, y := ref.Ch("x"), ref.Ch("y")
	r, s, t := ref.Ref("r"), ref.Ref("s"), ref.Ref("t")
	inX := ref.Strings([]string{"x", "y"}, 3)

	// (a) one rule, up to three alternatives over rich recursive shapes
	shapes := []ref.Concat{
		ref.C(x), ref.C(y), ref.C(ref.Ch("")),
		ref.C(r), ref.C(r, x), ref.C(x, r), ref.C(r, r), ref.C(r, x, r), ref.C(x, r, y), ref.C(r, r, r),
		ref.C(ref.Grp(ref.A(ref.C(r, x)))), ref.C(ref.Grp(ref.A(ref.C(r, x), ref.C(y)))),
		ref.C(ref.Opt(ref.AE(r)), x), ref.C(ref.Opt(ref.AE(x)), r), ref.C(ref.Opt(ref.A(ref.C(r, x))), y),
		{ref.R(0, ref.Inf, r), ref.One(x)}, {ref.R(0, ref.Inf, x), ref.One(r)}, {ref.R(2, 2, r)}, {ref.R(1, 2, r), ref.One(y)},
		{ref.R(0, 1, r), ref.One(x)}, {ref.R(0, ref.Inf, ref.Grp(ref.A(ref.C(r, x))))},
		{ref.One(ref.Grp(ref.AE(r, y))), ref.One(ref.Grp(ref.AE(r, x)))},
		{ref.R(0, 0, x), ref.One(r), ref.One(x)},
		ref.C(ref.Ch(""), r, y),
	}
	for i := range shapes {
		if !yield(&Case{G: ref.G1("r", ref.A(shapes[i])), Inputs: inX, Fam: "rec1"}) {
			return false
		}
		for j := range shapes {
			if !yield(&Case{G: ref.G1("r", ref.A(shapes[i], shapes[j])), Inputs: inX, Fam: "rec1"}) {
				return false
			}
		}
	}
	if level >= 2 {
		for i := range shapes {
			for j := range shapes {
				for k := range shapes {
					if !yield(&Case{G: ref.G1("r", ref.A(shapes[i], shapes[j], shapes[k])), Inputs: inX, Fam: "rec1x3"}) {
						return false
					}
				}
			}
		}
	}
	// (b) two mutually recursive rules
	sh0 := []ref.Concat{
		ref.C(s), ref.C(s, x), ref.C(r, s), ref.C(s, r), ref.C(x, s), ref.C(x), ref.C(ref.Opt(ref.AE(s)), r),
		ref.C(ref.Grp(ref.A(ref.C(s, x))), y), {ref.R(0, ref.Inf, s), ref.One(x)}, ref.C(s, s), ref.C(ref.Opt(ref.AE(s))),
		{ref.R(2, 3, s)},
	}
	sh1 := []ref.Concat{
		ref.C(r), ref.C(r, y), ref.C(y), ref.C(ref.Ch("")), ref.C(s, y), ref.C(y, r), ref.C(r, s), ref.C(ref.Opt(ref.AE(r)), x),
		ref.C(ref.Grp(ref.AE(r, y))), {ref.R(0, ref.Inf, r), ref.One(y)}, ref.C(s, r), ref.C(x),
	}
	pairs := func(sh []ref.Concat) []ref.Alt {
		var out []ref.Alt
		for i := range sh {
			out = append(out, ref.A(sh[i]))
			for j := range sh {
				if j != i {
					out = append(out, ref.A(sh[i], sh[j]))
				}
			}
		}
		return out
	}
	stride := 5
	if level >= 2 {
		stride = 1
	}
	n := 0
	for _, a := range pairs(sh0) {
		for _, b := range pairs(sh1) {
			n++
			if n%stride != 0 {
				continue
			}
			g := &ref.Grammar{Rules: []ref.Rule{{Name: "r", Alt: a}, {Name: "s", Alt: b}}}
			if !yield(&Case{G: g, Inputs: inX, Fam: "rec2"}) {
				return false
			}
		}
	}
	// (c) three-rule left-corner cycles and chains
	alts3 := func(next *ref.Elem) []ref.Alt {
		return []ref.Alt{
			ref.A(ref.C(next, x), ref.C(y)), ref.A(ref.C(y), ref.C(next, x)),
			ref.A(ref.C(next)), ref.A(ref.C(ref.Opt(ref.AE(y)), next), ref.C(x)),
			ref.A(ref.C(ref.Grp(ref.A(ref.C(next, y))), x), ref.C(x)),
			ref.A(ref.C(x, next), ref.C(ref.Ch(""))),
		}
	}
	for _, nx := range [][3]*ref.Elem{{s, t, r}, {s, r, t}, {s, t, s}, {t, r, s}, {s, s, r}} {
		for _, a := range alts3(nx[0]) {
			for _, b := range alts3(nx[1]) {
				for _, c := range alts3(nx[2]) {
					g := &ref.Grammar{Rules: []ref.Rule{{Name: "r", Alt: a}, {Name: "s", Alt: b}, {Name: "t", Alt: c}}}
					if !yield(&Case{G: g, Inputs: inX, Fam: "rec3"}) {
						return false
					}
				}
			}
		}
	}
	return true
}

// hiddenCases: recursion hidden behind (or in front of) every kind of nullable
// or nearly nullable element, with the nullable rule s defined in every way.
func hiddenCases(level int, yield func(*Case) bool) bool {
	x, r, s := ref.Ch("x"), ref.Ref("r"), ref.Ref("s")
	e := ref.Ch("")
	g := func(a ref.Alt) *ref.Elem { return ref.Grp(a) }
	base := []*ref.Elem{
		x, e, s, ref.Opt(ref.AE(x)), g(ref.AE(x, e)), g(ref.AE(e, x)), g(ref.AE(ref.Opt(ref.AE(x)))), ref.Opt(ref.AE(s)), g(ref.AE(s)),
		g(ref.A(ref.Concat{ref.R(0, ref.Inf, x)})), g(ref.A(ref.C(s, s))), g(ref.A(ref.C(ref.Opt(ref.AE(x)), s))), ref.Opt(ref.AE(r)), g(ref.AE(r, e)), ref.Ref("LWSP"), ref.Ref("DIGIT"),
	}
	var pre []ref.Rep
	for _, b := range [][2]int{{1, 1}, {0, 1}, {0, ref.Inf}, {1, ref.Inf}, {2, 2}, {1, 2}, {2, 3}, {2, ref.Inf}, {0, 0}} {
		for _, el := range base {
			pre = append(pre, ref.R(b[0], b[1], el))
		}
	}
	sdefs := []ref.Alt{
		ref.AE(e), ref.AE(ref.Opt(ref.AE(x))), ref.AE(x, e), ref.A(ref.Concat{ref.R(0, ref.Inf, x)}), ref.AE(x),
		ref.A(ref.C(ref.Opt(ref.AE(x)), ref.Opt(ref.AE(x)))),
	}
	if level >= 2 {
		sdefs = append(sdefs, ref.A(ref.C(s, x), ref.C(e)), ref.AE(ref.Ref("t")), ref.A(ref.Concat{ref.R(2, 2, ref.Ref("t"))}))
	}
	tdef := ref.AE(x, e)
	in := ref.Strings([]string{"x", "y"}, 3)
	blank := append(append([][]byte{}, in...), []byte(" y"), []byte(" yy"), []byte("\t yy"), []byte("y "), []byte("y y"), []byte("\r\n yyy"), []byte("5yy"), []byte("55yyy"), []byte("y5"))
	for _, p := range pre {
		in := in
		if p.E.K == ref.KRef && p.E.Text != "s" {
			in = blank
		}
		a0 := ref.A(ref.Concat{p, ref.One(r), ref.One(ref.Ch("y"))}, ref.C(ref.Ch("y")))
		a1 := ref.A(ref.C(ref.Ch("y")), ref.Concat{p, ref.One(r)})
		a2 := ref.A(ref.Concat{p, ref.One(ref.Grp(ref.A(ref.C(r, ref.Ch("y")), ref.C(ref.Ch("y")))))})
		a3 := ref.A(ref.Concat{ref.One(ref.Ch("y")), p, ref.R(0, 1, r)})
		a4 := ref.A(ref.Concat{ref.One(ref.Opt(ref.A(ref.Concat{p, ref.One(r)}))), ref.One(ref.Ch("y"))})
		for _, a := range []ref.Alt{a0, a1, a2, a3, a4} {
			sd := []ref.Alt{nil}
			if a.UsesRef("s") {
				sd = sdefs
			}
			for _, d := range sd {
				gr := ref.G1("r", a)
				if d != nil {
					gr.Rules = append(gr.Rules, ref.Rule{Name: "s", Alt: d})
					if d.UsesRef("t") {
						gr.Rules = append(gr.Rules, ref.Rule{Name: "t", Alt: tdef})
					}
				}
				if !yield(&Case{G: gr, Inputs: in, Fam: "hidden"}) {
					return false
				}
			}
		}
	}
	return true
}

// collideCases: every ordered pair of near-identical elements (differing in case
// sensitivity, letter case, encoding, base, punctuation inside a literal,
// nesting, bounds or the rule they name) under the same wrapper in one grammar:
// whatever an engine shares or caches must keep them apart.
func collideCases(level int, yield func(*Case) bool) bool {
	ch, cs := ref.Ch, ref.Cs
	g1 := func(es ...*ref.Elem) *ref.Elem { return ref.Grp(ref.A(ref.C(es...))) }
	ga := func(es ...*ref.Elem) *ref.Elem { return ref.Grp(ref.AE(es...)) }
	gr := func(mn, mx int, e *ref.Elem) *ref.Elem { return ref.Grp(ref.A(ref.Concat{ref.R(mn, mx, e)})) }
	num := func(b string, v ...int64) *ref.Elem { return &ref.Elem{K: ref.KSeries, Base: b, Vals: v} }
	pool := []*ref.Elem{
		ch("a"), ch("A"), cs("a"), cs("A"), ch("ab"), ch("a b"), ch(""), ref.Ser('a'), ref.Ser('A'), ref.Ser('a', 'b'), num("d", 'a'), num("b", 'a'), num("d", 61), num("x", 0xa),
		ref.Rng('a', 'a'), ref.Rng('a', 'b'), ref.Rng('A', 'B'), ref.Ser('b'),
		g1(ch("a"), ch("b")), ga(ch("a"), ch("b")), g1(ch("a")), ref.Opt(ref.AE(ch("a"))), ref.Opt(ref.AE(cs("a"))), gr(0, 2, ch("a")), gr(2, 2, ch("a")), gr(0, ref.Inf, ch("a")), gr(1, ref.Inf, ch("a")), gr(1, 2, ch("a")),
		ch("(a)"), ch("a / b"), ref.Prose("a"), ref.Ref("a"), ref.Ref("b"), ref.Ref("A"),
	}
	wrap := []func(*ref.Elem) ref.Rep{
		func(e *ref.Elem) ref.Rep { return ref.One(e) },
		func(e *ref.Elem) ref.Rep { return ref.One(ref.Grp(ref.AE(e))) },
		func(e *ref.Elem) ref.Rep { return ref.One(ref.Opt(ref.AE(e))) },
		func(e *ref.Elem) ref.Rep { return ref.R(0, 1, e) },
		func(e *ref.Elem) ref.Rep { return ref.R(2, 2, e) },
		func(e *ref.Elem) ref.Rep { return ref.R(1, 2, ref.Grp(ref.AE(e))) },
		func(e *ref.Elem) ref.Rep { return ref.One(ref.Grp(ref.A(ref.Concat{ref.R(1, 2, e)}))) },
	}
	in := append(ref.Strings([]string{"a", "A", "b"}, 3), []byte("a b"), []byte("aa b"), []byte("a ba"), []byte("a / b"), []byte("(a)a"), []byte("aabb"), []byte("aaaa"), []byte("abab"), []byte("aAAa"), []byte("="), []byte("\n"), []byte("a="))
	aux := []ref.Rule{{Name: "a", Alt: ref.AE(ch("b"))}, {Name: "b", Alt: ref.AE(ch("a"))}}
	for wi, w := range wrap {
		if level < 2 && wi > 3 {
			break
		}
		for i, x := range pool {
			for j, y := range pool {
				if i == j {
					continue
				}
				gs := []*ref.Grammar{
					{Rules: []ref.Rule{{Name: "r", Alt: ref.Alt{{w(x), w(y)}}}}},
					{Rules: []ref.Rule{{Name: "r", Alt: ref.Alt{{w(x)}, {w(y)}}}}},
					{Rules: []ref.Rule{{Name: "r", Alt: ref.Alt{{w(x), ref.One(ref.Ref("s"))}}}, {Name: "s", Alt: ref.Alt{{w(y)}}}}},
				}
				for _, g := range gs {
					for _, a := range aux {
						for _, rl := range g.Rules {
							if rl.Alt.UsesRef(a.Name) {
								g.Rules = append(g.Rules, a)
								break
							}
						}
					}
					if !yield(&Case{G: g, Inputs: in, Fam: "collide"}) {
						return false
					}
				}
			}
		}
	}
	return true
}

// Interesting runes: both sides of every UTF-8 length boundary and of the
// surrogate gap, ASCII case pairs and their neighbours.
var probeRunes = []rune{
	0, 1, 9, 0xA, 0xD, 0x1F, ' ', '!', '"', '/', '0', '1', '9', ':', '@', 'A', 'B', 'C', 'M', 'Y', 'Z', '[', '^', '_', '`',
	'a', 'b', 'c', 'm', 'y', 'z', '{', '~', 0x7F, 0x80, 0x81, 0xBF, 0xC0, 0xDF, 0xE0, 0xE9, 0xC9, 0xFF, 0x100, 0x101, 0x130, 0x131, 0x17F,
	0x1FF, 0x3FF, 0x400, 0x7FF, 0x800, 0xFFF, 0x1000, 0x212A, 0xD7FF, 0xE000, 0xFFFC, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x1F600, 0x3FFFF, 0x40000, 0x10FFFE, 0x10FFFF,
}

// byteProbes: malformed UTF-8 and byte-level inputs.
var byteProbes = [][]byte{
	{0x80}, {0xBF}, {0xC0}, {0xC1}, {0xC2}, {0xC3}, {0xE0}, {0xED}, {0xEF}, {0xF0}, {0xF4}, {0xF5}, {0xFF},
	{0xC3, 0x28}, {0xC0, 0x80}, {0xE2, 0x82}, {0xED, 0xA0, 0x80}, {0xED, 0xBF, 0xBF}, {0xF0, 0x9F, 0x98}, {0xF4, 0x90, 0x80, 0x80},
	{'a', 0xFF}, {0xFF, 'a'}, {'a', 0xC3}, {0xEF, 0xBF}, {'a', 'b'}, {},
}

func probeInputs() [][]byte {
	var out [][]byte
	for _, r := range probeRunes {
		out = append(out, []byte(string(r)))
	}
	return append(out, byteProbes...)
}

// termCases: single-terminal grammars over the whole ASCII repertoire and the
// Unicode boundaries, in every numeric base, run on every probe character and
// malformed byte sequence (and on every single byte for ASCII terminals).
func termCases(level int, yield func(*Case) bool) bool {
	probes := probeInputs()
	var allBytes [][]byte
	for b := 0; b < 256; b++ {
		allBytes = append(allBytes, []byte{byte(b)})
	}
	asc := append(append([][]byte{}, allBytes...), []byte(""), []byte("aa"), []byte(string(rune(0x130))), []byte(string(rune(0x212A))), []byte(string(rune(0x17F))))
	// every one-character char-val, sensitive or not
	for c := 0x20; c <= 0x7E; c++ {
		if c == '"' {
			continue
		}
		for _, sens := range []bool{false, true} {
			e := &ref.Elem{K: ref.KChar, Text: string(rune(c)), Sens: sens}
			if !yield(&Case{G: ref.G1("r", ref.AE(e)), Inputs: asc, Fam: "char1"}) {
				return false
			}
		}
	}
	// multi-character char-vals on all case variants and near misses
	for _, s := range []string{"", "ab", "aB", "Ab", "a1b", "@a`", "[z{Z", "zZ", "k", "s", "a a"} {
		for _, sens := range []bool{false, true} {
			e := &ref.Elem{K: ref.KChar, Text: s, Sens: sens}
			if !yield(&Case{G: ref.G1("r", ref.AE(e)), Inputs: caseVariants(s), Fam: "charN"}) {
				return false
			}
		}
	}
	// literals with characters beyond ASCII, among them the one that stands for
	// undecodable octets
	odd := append(append([][]byte{}, probes...), []byte("\u00e9A"), []byte("\u00c9a"), []byte("\u00e9a"), []byte("\u00c9A"), []byte("\ufffd"), []byte("\xff"), []byte("\xef\xbf"), []byte("a\ufffd"), []byte("A\ufffd"), []byte("a\xff"), []byte("\ufffda"), []byte("\xffa"), []byte("\u0130"), []byte("i"), []byte("I"), []byte("\u0131"), []byte("\u212a"), []byte("k"), []byte("K"), []byte("K\u212a"), []byte("k\u212a"), []byte("z\u00e9"), []byte("Z\u00e9"), []byte("[\u00e9"), []byte("{\u00e9"), []byte("@\u00e9"), []byte("`\u00e9"))
	for _, s := range []string{"\u00e9A", "\u00c9", "\u00e9", "A\ufffd", "\ufffd", "\ufffda", "\u0130", "\u0131i", "\u212a", "K\u212a", "Z\u00e9", "[\u00e9", "@\u00e9", "`\u00e9", "{\u00e9", "a\u00e9z\u20acZ\U0001F600"} {
		for _, sens := range []bool{false, true} {
			e := &ref.Elem{K: ref.KChar, Text: s, Sens: sens}
			if !yield(&Case{G: ref.G1("r", ref.AE(e)), Inputs: append(caseVariants(s), odd...), Fam: "charU"}) {
				return false
			}
		}
	}
	// single numeric values, all bases
	for _, r := range probeRunes {
		for _, b := range []string{"x", "d", "b"} {
			e := &ref.Elem{K: ref.KSeries, Base: b, Vals: []int64{int64(r)}}
			in := append(append([][]byte{}, probes...), append([]byte(string(r)), string(r)...))
			if !yield(&Case{G: ref.G1("r", ref.AE(e)), Inputs: in, Fam: "num1"}) {
				return false
			}
		}
	}
	// ranges between every pair of probe runes
	step := 4
	if level >= 2 {
		step = 1
	}
	n := 0
	for i, lo := range probeRunes {
		for _, hi := range probeRunes[i:] {
			n++
			if hi < lo || (n%step != 0 && hi != lo && hi > 0x7F) {
				continue
			}
			e := &ref.Elem{K: ref.KRange, Base: []string{"x", "d", "b"}[n%3], Vals: []int64{int64(lo), int64(hi)}}
			in := append([][]byte{}, probes...)
			for _, d := range []rune{lo - 1, lo, lo + 1, hi - 1, hi, hi + 1} {
				if d >= 0 && d <= 0x10FFFF && !(d >= 0xD800 && d <= 0xDFFF) {
					in = append(in, []byte(string(d)))
				}
			}
			in = append(in, append([]byte(string(lo)), string(lo)...))
			if !yield(&Case{G: ref.G1("r", ref.AE(e)), Inputs: in, Fam: "range"}) {
				return false
			}
		}
	}
	// series of two and three
	sv := []int64{'a', 'A', 0x7F, 0x80, 0xE9, 0x7FF, 0x800, 0xFFFD, 0x10000}
	for _, a := range sv {
		for _, b := range sv {
			e := ref.Ser(a, b)
			base := string(rune(a)) + string(rune(b))
			in := [][]byte{{}, []byte(base), []byte(base + "a"), []byte(string(rune(a))), []byte(string(rune(b)) + string(rune(a))), []byte(base[:len(base)-1]), []byte("aA"), []byte("Aa"), []byte("AA"), []byte("aa")}
			if !yield(&Case{G: ref.G1("r", ref.AE(e)), Inputs: in, Fam: "series"}) {
				return false
			}
		}
	}
	if !yield(&Case{G: ref.G1("r", ref.AE(ref.Ser('a', 'b', 'c'))), Inputs: ref.Strings([]string{"a", "b", "c"}, 4), Fam: "series"}) {
		return false
	}
	// numerals spelled with leading zeros or lower-case digits
	for _, sp := range []int{1, 2, 3} {
		for _, b := range []string{"x", "d", "b"} {
			mk := func(k ref.Kind, v ...int64) *ref.Elem { return &ref.Elem{K: k, Base: b, Vals: v, Sp: sp} }
			for _, e := range []*ref.Elem{
				mk(ref.KSeries, 'J'), mk(ref.KSeries, 0), mk(ref.KSeries, 0xEA), mk(ref.KSeries, 'k', 'J', 0x20AC), mk(ref.KSeries, 0x10FFFF), mk(ref.KRange, 'J', 'k'), mk(ref.KRange, 0, 0xAB), mk(ref.KRange, 0xAA, 0x10FFFF), mk(ref.KRange, 'J', 'J'),
			} {
				if !yield(&Case{G: ref.G1("r", ref.A(ref.C(e), ref.C(e, ref.Ch("a")))), Inputs: append(append([][]byte{}, probes...), []byte("Ja"), []byte("kJ\u20ac"), []byte("kJ\u20aca"), []byte("\U0010ffffa")), Fam: "spell"}) {
					return false
				}
			}
		}
	}
	// the core rules
	cin := append(append([][]byte{}, allBytes...), probes...)
	for _, s := range ref.Strings([]string{"\r", "\n", " ", "\t", "a"}, 4) {
		cin = append(cin, s)
	}
	for _, cr := range ref.CoreRules {
		g := ref.G1("root", ref.AE(ref.Ref(cr.Name)))
		if !yield(&Case{G: g, Inputs: cin, Fam: "core"}) {
			return false
		}
	}
	return true
}

func caseVariants(s string) [][]byte {
	vs := []string{""}
	for _, c := range s {
		var nx []string
		alts := []string{string(c)}
		if c >= 'a' && c <= 'z' {
			alts = append(alts, string(c-32))
		} else if c >= 'A' && c <= 'Z' {
			alts = append(alts, string(c+32))
		} else if c < 0x80 {
			alts = append(alts, string(c^0x20))
		}
		for _, v := range vs {
			for _, a := range alts {
				nx = append(nx, v+a)
			}
		}
		vs = nx
	}
	var out [][]byte
	for _, v := range vs {
		out = append(out, []byte(v), []byte(v+"a"))
		if len(v) > 0 {
			out = append(out, []byte(v[:len(v)-1]))
		}
	}
	out = append(out, []byte{0xFF}, []byte(string(rune(0x212A))), []byte(string(rune(0x17F))))
	return out
}

// mixCases: terminals that overlap or differ only in case-sensitivity or
// encoding, combined; prose-vals, undefined references and unsatisfiable
// bounds mixed with alternatives; rule names in different case.
func mixCases(level int, yield func(*Case) bool) bool {
	leaves := []*ref.Elem{ref.Ch("a"), ref.Cs("a"), ref.Cs("A"), ref.Ser('a', 'a'), ref.Rng('A', 'a'), ref.Ch(""), ref.Prose("p")}
	sp := &ref.Space{Leaves: leaves, Reps: [][2]int{{0, ref.Inf}, {2, 2}}, Groups: true, Opts: true}
	in := ref.Strings([]string{"a", "A"}, 3)
	w := 3
	if level >= 2 {
		w = 4
	}
	for _, a := range sp.UpTo(w) {
		if !yield(&Case{G: ref.G1("r", a), Inputs: in, Fam: "mix"}) {
			return false
		}
	}
	// multi-byte characters inside every construct
	ml := []*ref.Elem{ref.Ser(0xE9), ref.Rng(0xE8, 0xEA), ref.Ser(0x20AC, 'a'), ref.Rng(0x7E, 0x81)}
	sp = &ref.Space{Leaves: ml, Reps: [][2]int{{0, ref.Inf}, {1, 2}}, Groups: true, Opts: true}
	for _, a := range sp.UpTo(3) {
		if !yield(&Case{G: ref.G1("r", a), Inputs: ref.Strings([]string{"\u00e9", "\u20ac", "a", "\xe9"}, 2), Fam: "mixU"}) {
			return false
		}
	}
	// unresolved references and unsatisfiable bounds, next to live alternatives
	dead := []*ref.Elem{ref.Ref("nosuch"), ref.Prose("p"), ref.Ser(0x110000), ref.Rng(0x110000, 0x120000)}
	for _, d := range dead {
		for _, b := range [][2]int{{1, 1}, {0, 1}, {0, ref.Inf}, {2, 3}, {0, 0}} {
			x := ref.Rep{Min: b[0], Max: b[1], E: d}
			for _, a := range []ref.Alt{
				{{x}}, {{x}, ref.C(ref.Ch("a"))}, {ref.C(ref.Ch("a")), {x}}, {{x, ref.One(ref.Ch("a"))}}, {{ref.One(ref.Ch("a")), x}},
				{{ref.One(ref.Opt(ref.Alt{{x}})), ref.One(ref.Ch("a"))}}, {{ref.One(ref.Grp(ref.Alt{{x}, ref.C(ref.Ch("a"))}))}},
			} {
				if !yield(&Case{G: ref.G1("r", a), Inputs: inAB3, Fam: "dead"}) {
					return false
				}
			}
		}
	}
	for _, b := range [][2]int{{2, 1}, {1, 0}, {5, 2}} {
		x := ref.Rep{Min: b[0], Max: b[1], E: ref.Ch("a")}
		for _, a := range []ref.Alt{{{x}}, {{x}, ref.C(ref.Ch("a"))}, {{ref.One(ref.Ch("a")), x}}, {{ref.One(ref.Opt(ref.Alt{{x}})), ref.One(ref.Ch("a"))}}} {
			if !yield(&Case{G: ref.G1("r", a), Inputs: inAB3, Fam: "unsat"}) {
				return false
			}
		}
	}
	// references in every letter case, longer inputs, chained rules
	for _, n1 := range []string{"s", "S"} {
		for _, n2 := range []string{"rul-2", "Rul-2", "RUL-2"} {
			g := &ref.Grammar{Rules: []ref.Rule{
				{Name: "Root", Alt: ref.A(ref.C(ref.Ref(n1), ref.Ref(n2)), ref.C(ref.Ref("rOOT"), ref.Ch("b")))},
				{Name: "s", Alt: ref.A(ref.C(ref.Ch("a")), ref.C(ref.Ref("RUl-2"), ref.Ch("a")))},
				{Name: "Rul-2", Alt: ref.A(ref.Concat{ref.R(0, 2, ref.Ch("b"))})},
			}}
			if !yield(&Case{G: g, Inputs: inAB4, Fam: "case"}) {
				return false
			}
		}
	}
	return true
}

// bigRepCases: bounds far beyond the input length, nullable elements included.
func bigRepCases(yield func(*Case) bool) bool {
	els := []*ref.Elem{ref.Ch("a"), ref.Opt(ref.AE(ref.Ch("a"))), ref.Grp(ref.AE(ref.Ch("a"), ref.Ch("aa")))}
	for _, b := range [][2]int{{0, 9}, {0, 1000}, {0, 9999999999}, {5, 9}, {6, 6}, {9, ref.Inf}, {8, 12}, {2, 1000000}} {
		for i, e := range els {
			if i > 0 && b[1] > 1000 {
				continue
			}
			g := ref.G1("r", ref.Alt{{ref.Rep{Min: b[0], Max: b[1], E: e}}})
			if !yield(&Case{G: g, Inputs: asOf(12, "a"), Fam: "bigrep"}) {
				return false
			}
		}
	}
	return true
}

// allCases is the common universe of the parsing engines.
func allCases(tier string, yield func(*Case) bool) {
	if tier == "thorough" {
		_ = termCases(2, yield) && mixCases(2, yield) && repCases(6, 8, ref.Strings([]string{"a", "b"}, 6), yield) &&
			scaleCases(tier, yield) && realCases(nil, yield) && recCases(2, yield) && hiddenCases(2, yield) && collideCases(2, yield) && bigRepCases(yield) && structCases(5, 7, true, yield)
		return
	}
	_ = termCases(2, yield) && mixCases(2, yield) && repCases(3, 5, quickRepInputs, yield) &&
		scaleCases(tier, yield) && realCases(nil, yield) && recCases(2, yield) && hiddenCases(2, yield) && collideCases(2, yield) && bigRepCases(yield) && structCases(4, 5, true, yield)
}

var quickRepInputs = append(append([][]byte{}, inAB3...), asOf(6, "a")[4:]...)
