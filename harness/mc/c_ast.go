package main

import (
	"fmt"
	"math"
	"math/rand"

	goabnf "github.com/pandatix/go-abnf"

	"verif/harness/ref"
)

// ---- C12: recursive-descent generator --------------------------------------------------

type astCfg struct {
	name                  string
	depth, length, repeat int
	setD, setL, setR      bool
}

func (a astCfg) opts() []goabnf.ASTGenOption {
	var o []goabnf.ASTGenOption
	if a.setD {
		o = append(o, goabnf.WithMaxDepth(a.depth))
	}
	if a.setL {
		o = append(o, goabnf.WithMaxLen(a.length))
	}
	if a.setR {
		o = append(o, goabnf.WithMaxRepeat(a.repeat))
	}
	return o
}

var astCfgs = []astCfg{
	{name: "depth<=4,len<=24,repeat<=2", setD: true, depth: 4, setL: true, length: 24, setR: true, repeat: 2},
	{name: "depth<=0", setD: true},
	{name: "depth<=1,repeat<=1", setD: true, depth: 1, setR: true, repeat: 1},
	{name: "len<=0,depth<=5", setL: true, setD: true, depth: 5},
	{name: "len<=2,repeat<=3,depth<=5", setD: true, depth: 5, setL: true, length: 2, setR: true, repeat: 3},
	{name: "repeat<=0,len<=8,depth<=6", setD: true, depth: 6, setR: true, setL: true, length: 8},
	{name: "all -1", setD: true, depth: -1, setL: true, length: -1, setR: true, repeat: -1},
	{name: "default"},
}

// finiteWords: the words (over the case's inputs) of the grammar with every
// unbounded repetition capped at min+k.
func capReps(a ref.Alt, k int) ref.Alt {
	var out ref.Alt
	for _, cc := range a {
		var nc ref.Concat
		for _, r := range cc {
			if r.Max == ref.Inf {
				r.Max = r.Min + k
			}
			if r.E.K == ref.KGroup || r.E.K == ref.KOpt {
				e := *r.E
				e.Alt = capReps(r.E.Alt, k)
				r.E = &e
			}
			nc = append(nc, r)
		}
		out = append(out, nc)
	}
	return out
}

// decisions bounds how many choices one production of the (acyclic) grammar can
// draw, and the widest choice.
func decisions(g *ref.Grammar, a ref.Alt, k int) (n, fan int) {
	for _, cc := range a {
		m := 0
		if len(a) > 1 {
			m, fan = 1, max(fan, len(a))
		}
		for _, r := range cc {
			hi := r.Max
			if hi == ref.Inf {
				hi = r.Min + k
			}
			if hi > r.Min {
				m++
				fan = max(fan, hi-r.Min+1)
			}
			en, ef := 0, 0
			switch r.E.K {
			case ref.KGroup:
				en, ef = decisions(g, r.E.Alt, k)
			case ref.KOpt:
				en, ef = decisions(g, r.E.Alt, k)
				en, ef = en+1, max(ef, 2)
			case ref.KRef:
				if ru := g.Lookup(r.E.Text); ru != nil {
					en, ef = decisions(g, ru.Alt, k)
				}
			case ref.KChar:
				for _, c := range r.E.Text {
					if !r.E.Sens && caseless(string(c)) {
						en, ef = en+1, 2
					}
				}
			case ref.KRange:
				if r.E.Vals[1] > r.E.Vals[0] {
					en, ef = 1, int(min(r.E.Vals[1]-r.E.Vals[0]+1, 1<<20))
				}
			}
			m += hi * en
			fan = max(fan, ef)
			if m > 1000 {
				return 1000, fan
			}
		}
		n = max(n, m)
	}
	return n, fan
}

var tapesAST = append(append([][]byte{nil}, byteTapes([]byte{0, 1, 2, 0xFF}, 3)...), longTapes()...)

func runC12(c *Ctx, cs *Case) {
	root, short := cs.G.Root(), cs.G.Short()
	m := ref.NewModel(cs.G, root)
	prod := m.Productive()
	fine := true
	for i := range prod {
		fine = fine && prod[i]
	}
	if maxBound(cs.G) > 300 {
		c.Outcome("outside (huge repetition)")
		return
	}
	wc := newWordCheck(m)
	g := toImpl(cs.G)
	before := dumpImpl(g)
	for ci, cfg := range astCfgs {
		gen, err := goabnf.NewASTGenerator(g, root, cfg.opts()...)
		c.Traces++
		if (err == nil) != fine {
			c.Fail(short, "NewASTGenerator on %s (%s): error %v; every rule defined and productive: %v", short, cfg.name, err, fine)
			return
		}
		if err != nil {
			c.Outcome("refused")
			return
		}
		gen2, err := goabnf.NewASTGenerator(toImpl(cs.G), root, cfg.opts()...)
		if err != nil {
			c.Fail(short, "NewASTGenerator on %s (%s), second time: %v", short, cfg.name, err)
			return
		}
		longest := 0
		var mine own
		for _, tape := range tapesAST {
			if cfg.name == "default" && len(tape) > 1 {
				continue
			}
			keep := string(tape)
			out := gen.Generate(tape)
			c.Traces++
			longest = max(longest, len(out))
			if why := mine.next(out); why != "" {
				c.Fail(short, "ASTGenerator on %s (%s): %s", short, cfg.name, why)
			}
			if string(tape) != keep {
				c.Fail(short, "ASTGenerator.Generate on %s changed the tape", short)
			}
			if out == nil {
				c.Fail(short, "ASTGenerator.Generate(%q) on %s (%s) gives nil", clip(tape), short, cfg.name)
				break
			}
			if len(out) <= astWordLimit(m) && !wc.ok(out) {
				c.Fail(short, "ASTGenerator.Generate(%q) on %s (%s) gives %q, which the grammar rejects", clip(tape), short, cfg.name, clip(out))
				break
			}
			if again := gen.Generate(tape); string(again) != string(out) {
				c.Fail(short, "ASTGenerator.Generate(%q) on %s (%s) gives %q, then %q", clip(tape), short, cfg.name, clip(out), clip(again))
				break
			}
			if again := gen2.Generate(tape); string(again) != string(out) {
				c.Fail(short, "ASTGenerator.Generate(%q) on %s (%s) gives %q, from a second generator %q", clip(tape), short, cfg.name, clip(out), clip(again))
				break
			}
		}
		c.Outcome("generated")
		if ci != 0 && ci != 2 {
			continue
		}
		// every sequence of choices
		produced := map[string]bool{}
		bad := false
		nd, fan := 1000, 3
		capped := (*ref.Model)(nil)
		if !cs.G.Cyclic(root) {
			nd, fan = 0, 0
			nd, fan = decisions(cs.G, cs.G.Lookup(root).Alt, cfg.repeat)
			cg := &ref.Grammar{}
			seen := map[string]bool{}
			var add func(name string) // core rules included
			add = func(name string) {
				r := cs.G.Lookup(name)
				if r == nil || seen[r.Name] {
					return
				}
				seen[r.Name] = true
				cg.Rules = append(cg.Rules, ref.Rule{Name: r.Name, Alt: capReps(r.Alt, cfg.repeat)})
				for _, d := range r.Alt.Refs() {
					add(d)
				}
			}
			add(root)
			capped = ref.NewModel(cg, root)
		}
		complete := ci == 0 && capped != nil && fan <= 255 && math.Pow(float64(fan), float64(nd)) <= 3000
		depth := 4
		if complete {
			depth = nd
		} else {
			fan = min(max(fan, 2), 3)
		}
		c.Traces += int64(choiceTree(fan, depth, gen.GenerateRand, func(dec, out []byte, _ int) bool {
			produced[string(out)] = true
			if len(out) <= astWordLimit(m) && !wc.ok(out) {
				c.Fail(short, "ASTGenerator.GenerateRand (choices %v) on %s (%s) gives %q, which the grammar rejects", dec, short, cfg.name, clip(out))
				bad = true
			}
			return !bad
		}))
		if complete && !bad {
			// the whole (capped) language is generated, nothing beyond the cap
			for _, in := range cs.Inputs {
				if len(in) > 4 {
					continue
				}
				want := capped.Chart(in).Accepts()
				if want && !produced[string(in)] && depthOK(cs.G) {
					c.Fail(short, "ASTGenerator.GenerateRand on %s (%s): no sequence of choices produces %q; got %d productions", short, cfg.name, in, len(produced))
					break
				}
				c.Outcome(fmt.Sprintf("reachable=%v", want))
			}
			for s := range produced {
				if len(s) <= 24 && !capped.AcceptsLong([]byte(s)) {
					c.Fail(short, "ASTGenerator.GenerateRand on %s (%s) gives %q, which needs more repetitions than the cap", short, cfg.name, s)
					break
				}
			}
		}
	}
	if dumpImpl(g) != before {
		c.Fail(short, "generation changed the grammar %s", short)
	}
	c.AddRef(m.St.States, m.St.Transitions)
}

// depthOK: rule nesting stays below the depth budget of the first configuration.
func depthOK(g *ref.Grammar) bool { return len(g.Rules) <= 3 }

// astWordLimit: the longest production the reference model checks.
func astWordLimit(m *ref.Model) int {
	if m.G.Cyclic(m.G.Root()) {
		return 40
	}
	return 1 << 20
}

// ---- C13: seeded generator ----------------------------------------------------------------

func runC13(c *Ctx, cs *Case) {
	root, short := cs.G.Root(), cs.G.Short()
	if maxBound(cs.G) > 300 {
		c.Outcome("outside (huge repetition)")
		return
	}
	m := ref.NewModel(cs.G, root)
	productive := m.Productive()[0]
	wc := newWordCheck(m)
	g := toImpl(cs.G)
	g2 := toImpl(cs.G)
	before := dumpImpl(g)
	type cfg struct {
		name string
		opts []goabnf.GenerateOption
	}
	cfgs := []cfg{
		{"repmax 2, threshold 12", []goabnf.GenerateOption{goabnf.WithRepMax(2), goabnf.WithThreshold(12)}},
		{"default", nil},
		{"repmax 0", []goabnf.GenerateOption{goabnf.WithRepMax(0)}},
		{"repmax 1, threshold 0", []goabnf.GenerateOption{goabnf.WithRepMax(1), goabnf.WithThreshold(0)}},
		{"negative", []goabnf.GenerateOption{goabnf.WithRepMax(-1), goabnf.WithThreshold(-1)}},
	}
	seeds := []int64{}
	for i := int64(0); i < 10; i++ {
		seeds = append(seeds, i)
	}
	seeds = append(seeds, -1, math.MaxInt64, math.MinInt64)
	distinct := map[string]bool{}
	for ci, cf := range cfgs {
		for _, seed := range seeds {
			if ci > 0 && seed > 2 || ci > 0 && ci < 3 && seed > 1 {
				continue
			}
			out, err := g.Generate(seed, root, cf.opts...)
			c.Traces++
			if (err == nil) != productive {
				c.Fail(short, "Generate(%d) on %s (%s): error %v; the rule derives some string: %v", seed, short, cf.name, err, productive)
				return
			}
			if err != nil {
				c.Outcome("refused")
				return
			}
			distinct[string(out)] = true
			if len(out) <= astWordLimit(m) && !wc.ok(out) {
				c.Fail(short, "Generate(%d) on %s (%s) gives %q, which the grammar rejects", seed, short, cf.name, clip(out))
				break
			}
			if ci > 0 && seed > 0 {
				c.Outcome("generated")
				continue
			}
			if again, _ := g.Generate(seed, root, cf.opts...); string(again) != string(out) {
				c.Fail(short, "Generate(%d) on %s (%s) gives %q, then %q", seed, short, cf.name, clip(out), clip(again))
				break
			}
			if again, _ := g2.Generate(seed, root, cf.opts...); string(again) != string(out) {
				c.Fail(short, "Generate(%d) on %s (%s) gives %q, on an equal grammar %q", seed, short, cf.name, clip(out), clip(again))
				break
			}
			c.Outcome("generated")
		}
	}
	if dumpImpl(g) != before {
		c.Fail(short, "Generate changed the grammar %s", short)
	}
	c.AddRef(m.St.States, m.St.Transitions)
}

// criticalCases: recursion that grows faster than it ends, and rules that derive
// nothing in part.
func criticalCases(yield func(*Case) bool) bool {
	x := []*ref.Elem{ref.Ch("x"), ref.Ch("")}
	a := ref.Ref("a")
	for _, t := range x {
		for _, alt := range []ref.Alt{
			ref.A(ref.C(a, a, a), ref.C(t)), ref.A(ref.C(t), ref.C(a, a, a)), ref.A(ref.C(a, a), ref.C(a, a, a), ref.C(t)),
			{{ref.R(3, 3, a)}, ref.C(t)}, {{ref.R(0, ref.Inf, a), ref.One(t)}}, {{ref.R(0, 3, a), ref.R(0, 3, a)}}, {{ref.R(2, ref.Inf, ref.Opt(ref.AE(a))), ref.One(t)}},
			ref.A(ref.C(ref.Opt(ref.AE(a)), ref.Opt(ref.AE(a)), t)), ref.A(ref.C(ref.Ref("b"), ref.Ref("b")), ref.C(t)),
			{{ref.R(5, 5, ref.Grp(ref.A(ref.C(a, a), ref.C(t))))}},
		} {
			g := &ref.Grammar{Rules: []ref.Rule{{Name: "a", Alt: alt}, {Name: "b", Alt: ref.A(ref.C(a, a), ref.C(a), ref.C(ref.Ch("y")))}}}
			if !yield(&Case{G: g, Inputs: nil, Fam: "critical"}) {
				return false
			}
		}
	}
	// dead parts: prose, no character, unsatisfiable counts, undefined or
	// non-productive rules
	dead := []*ref.Elem{ref.Prose("p"), ref.Ser(0xD800), ref.Ser('a', 0x110000), ref.Rng(0xD800, 0xDFFF), ref.Rng(0x110000, 0x110001), ref.Rng('b', 'a'), ref.Ref("u"), ref.Ref("n"), ref.Grp(ref.AE(ref.Prose("p"), ref.Ser(0xDFFF))), ref.Grp(ref.Alt{{ref.Rep{Min: 3, Max: 2, E: ref.Ch("a")}}})}
	ok := ref.Ch("a")
	for _, d := range dead {
		for _, alt := range []ref.Alt{
			ref.AE(d), ref.AE(d, ok), ref.AE(ok, d), ref.A(ref.C(ok, d), ref.C(ref.Ch("b"))), ref.A(ref.C(d, ok), ref.C(ref.Ch("b")), ref.C(ok, ref.Opt(ref.AE(d)))),
			{{ref.R(0, 2, d), ref.One(ok)}}, {{ref.R(0, ref.Inf, d)}}, {{ref.R(0, 0, d)}}, {{ref.R(1, 2, d)}}, {{ref.One(ref.Opt(ref.AE(d)))}}, {{ref.R(2, 2, ref.Opt(ref.AE(d, ok)))}},
			{{ref.R(0, 2, ref.Grp(ref.AE(d, ok)))}}, {{ref.One(ref.Ref("s")), ref.One(ok)}},
		} {
			g := &ref.Grammar{Rules: []ref.Rule{{Name: "r", Alt: alt}, {Name: "n", Alt: ref.AE(ref.Ref("n"))}, {Name: "s", Alt: ref.A(ref.C(ok, d), ref.C(ok, ref.Ref("s")), ref.C(ok))}}}
			if !yield(&Case{G: g, Inputs: inAB3, Fam: "dead"}) {
				return false
			}
		}
	}
	return true
}

func astCases(tier string, yield func(*Case) bool) {
	if !graphScaleCases([]int{3, 9, 10, 17, 33, 65}, yield) {
		return
	}
	if tier == "thorough" {
		_ = realWalk(9, true, yield) && criticalCases(yield) && surrogateCases(yield) && utf8Cases(yield) && wideCases(yield) && diamondCases(1, yield) && termCases(1, yield) && mixCases(2, yield) && recCases(2, yield) && repCases(3, 4, nil, yield) && structCases(4, 5, true, yield)
		return
	}
	_ = realWalk(9, true, yield) && criticalCases(yield) && surrogateCases(yield) && utf8Cases(yield) && wideCases(yield) && diamondCases(1, yield) && termCases(1, yield) && mixCases(1, yield) && recCases(1, yield) && repCases(1, 2, nil, yield) && structCases(3, 4, true, yield)
}

var _ = rand.New

func init() {
	register(&Check{
		ID:        "C12",
		Rule:      "every grammar of the recursive generator universe x budgets, on every tape over {0,1,2,255} up to 3 octets and patterned long tapes, and on every sequence of random choices (complete for small grammars): construction fails exactly when a reachable rule is undefined or derives nothing, every production terminates and is a word of the language, is reproducible, and small grammars produce their whole language under the repetition cap and nothing else; every choice among n is made by some tape for n around the powers of 256",
		Enumerate: withUnits(func(y func(Unit) bool) bool { return reachUnits(true, y) }, perCase(astCases, runC12)),
		StuckS:    120,
	})
	register(&Check{
		ID:        "C13",
		Rule:      "every grammar of the recursive generator universe x options x seeds 0..9, -1 and the extremes: generation fails exactly when the rule derives nothing, and otherwise terminates with a word of the language, the same for the same seed",
		Enumerate: perCase(astCases, runC13),
		StuckS:    120,
	})
}
