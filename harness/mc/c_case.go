package main

import (
	"errors"
	"fmt"
	"strings"

	goabnf "github.com/pandatix/go-abnf"

	"verif/harness/ref"
)

// caseBases are grammars whose meaning hangs on names being matched: chains,
// diamonds, every kind of recursion, core rules by name and redefined, and
// references in every syntactic position. Names have two letters or more, so
// that they have a mixed spelling.
var caseBases = []string{
	`ab = "a" cd ; cd = "b"`,
	`ab = cd cd ; cd = "a" / "b"`,
	`ab = [cd] ef ; cd = "a" ; ef = cd / "b"`,
	`ab = *cd ; cd = "a" / ("b" ef) ; ef = "a"`,
	`ab = 2cd / (cd "b") ; cd = ["a"]`,
	`ab = ab "a" / "b"`,
	`ab = "a" ab / "b"`,
	`ab = cd "a" / "b" ; cd = ab "b" / "a"`,
	`ab = [cd] ab "a" / "b" ; cd = "a"`,
	`ab = (ab "a") / [ab] "b"`,
	`ab = ab ab / "a" / ""`,
	`ab = cd / "a" ; cd = ab / "b"`,
	`ab = "a" [cd] ; cd = "b" ab`,
	`ab = alpha / digit`,
	`ab = cd alpha ; cd = *digit`,
	`ab = 1*hexdig "-" vchar`,
	`ab = cd ; cd = "a" / alpha ; alpha = "b"`,
	`alpha = "a" / digit ; digit = "b"`,
	`ab = cd / ef ; cd = "a" ef ; ef = "b"`,
	`ab = 1*2(cd / ab-cd) ; cd = "a" ; ab-cd = "b" cd`,
	`ab = cd ; cd = ef ; ef = "a" / ab`,
}

func spell(name string, how int) string {
	switch how {
	case 0:
		return strings.ToLower(name)
	case 1:
		return strings.ToUpper(name)
	}
	// mixed: every second letter
	b := []byte(strings.ToLower(name))
	up := false
	for i := range b {
		if b[i] >= 'a' && b[i] <= 'z' {
			if up {
				b[i] -= 'a' - 'A'
			}
			up = !up
		}
	}
	return string(b)
}

// names visits every occurrence of a rule name in order, definitions included.
func recase(g *ref.Grammar, how func(i int) int) (*ref.Grammar, int) {
	n := 0
	next := func(s string) string { n++; return spell(s, how(n-1)) }
	var alt func(a ref.Alt) ref.Alt
	alt = func(a ref.Alt) ref.Alt {
		var out ref.Alt
		for _, c := range a {
			var cc ref.Concat
			for _, r := range c {
				e := *r.E
				switch e.K {
				case ref.KRef:
					e.Text = next(e.Text)
				case ref.KGroup, ref.KOpt:
					e.Alt = alt(e.Alt)
				}
				cc = append(cc, ref.Rep{Min: r.Min, Max: r.Max, E: &e})
			}
			out = append(out, cc)
		}
		return out
	}
	out := &ref.Grammar{}
	for _, r := range g.Rules {
		out.Rules = append(out.Rules, ref.Rule{Name: next(r.Name), Alt: alt(r.Alt)})
	}
	return out, n
}

// nameCases: the bases under every spelling of every occurrence of a name, and
// of the root as the caller gives it.
func nameCases(spellings int, yield func(*Case) bool) bool {
	for _, b := range caseBases {
		defs, ok := ref.ReadABNF(strings.ReplaceAll(b, " ; ", "\r\n") + "\r\n")
		if !ok {
			panic("base " + b)
		}
		g := &ref.Grammar{}
		for _, d := range defs {
			g.Rules = append(g.Rules, ref.Rule{Name: d.Name, Alt: d.Alt})
		}
		in := inAB3
		if strings.Contains(b, "alpha") || strings.Contains(b, "digit") {
			in = ref.Strings([]string{"a", "1", "G", "-"}, 2)
		}
		_, n := recase(g, func(int) int { return 0 })
		total := 1
		for i := 0; i <= n; i++ { // the occurrences, and the caller's spelling
			total *= spellings
		}
		for v := 0; v < total; v++ {
			x := v / spellings
			digits := make([]int, n)
			for i := range digits {
				digits[i] = x % spellings
				x /= spellings
			}
			r, _ := recase(g, func(i int) int { return digits[i] })
			r.RootAs = spell(g.Rules[0].Name, v%spellings)
			if !yield(&Case{G: r, Inputs: in, Fam: "names"}) {
				return false
			}
		}
	}
	return true
}

// runNames runs every kind of operation on a grammar; each compares the
// implementation with the model, to which case of names means nothing.
func runNames(c *Ctx, cs *Case) {
	runC01(c, cs)
	runC02(c, cs)
	runC03(c, cs)
	runC04(c, cs)
	runC20(c, cs)
	runC06(c, cs)
	runC09(c, cs)
	checkDAG(c, cs.G, 2)
	runNamesText(c, cs)
	root := cs.G.Root()
	m := ref.NewModel(cs.G, root)
	w := newWordCheck(m)
	k := cs.G.Short() + " as " + root
	// generators: accepted exactly when the rule is productive, productions are words
	productive := m.AllProductive()
	ag, err := goabnf.NewASTGenerator(toImpl(cs.G), root)
	if (err == nil) != productive {
		c.Fail(k, "NewASTGenerator(%s) on %s: %v", root, cs.G.Short(), err)
	}
	for seed := int64(0); seed < 8; seed++ {
		c.Traces++
		out, err := toImpl(cs.G).Generate(seed, root)
		if (err == nil) != productive {
			c.Fail(k, "Generate(%d, %s) on %s: %v", seed, root, cs.G.Short(), err)
		} else if err == nil && len(out) <= 64 && !w.ok(out) {
			c.Fail(k, "Generate(%d, %s) on %s produced %q, which is no word", seed, root, cs.G.Short(), clip(out))
		}
		if ag != nil {
			if out := ag.Generate([]byte{byte(seed), byte(seed * 3), 1, 2}); len(out) <= 64 && !w.ok(out) {
				c.Fail(k, "ASTGenerator(%s) on %s produced %q, which is no word", root, cs.G.Short(), clip(out))
			}
		}
	}
	if !cs.G.Cyclic(root) {
		tg, err := toImpl(cs.G).TransitionGraph(root, goabnf.WithDeflateRules(true), goabnf.WithDeflateNumVals(false))
		if err != nil {
			c.Fail(k, "TransitionGraph(%s) on %s: %v", root, cs.G.Short(), err)
			return
		}
		gen, err := goabnf.NewGenerator(tg)
		if err != nil {
			c.Fail(k, "NewGenerator on the graph of %s (%s): %v", cs.G.Short(), root, err)
			return
		}
		for seed := 0; seed < 8; seed++ {
			if out := gen.Generate([]byte{byte(seed), byte(seed * 3), 1, 2}); len(out) <= 64 && !w.ok(out) {
				c.Fail(k, "Generator on %s produced %q, which is no word", cs.G.Short(), clip(out))
			}
		}
	}
	c.AddRef(m.St.States, m.St.Transitions)
}

// runNamesText reads the grammar as text, validation on: names resolve whatever
// their spelling, a second definition under another spelling is a duplicate, and
// an extension under another spelling extends.
func runNamesText(c *Ctx, cs *Case) {
	root := cs.G.Root()
	k := cs.G.Short() + " as " + root
	text := cs.G.Text()
	g, err := goabnf.ParseABNF([]byte(text), goabnf.WithRedefineCoreRules(true))
	c.Traces++
	if err != nil {
		c.Fail(k, "ParseABNF(%q): %v", text, err)
		return
	}
	if err := goabnf.SemvalABNF(g); err != nil {
		c.Fail(k, "SemvalABNF(%q): %v", text, err)
	}
	m := ref.NewModel(cs.G, root)
	for _, in := range cs.Inputs {
		want := m.AcceptsLong(in)
		got, err := g.IsValid(root, in)
		if err != nil || got != want {
			c.Fail(k, "IsValid(%s, %q) on the text %q = %v, %v; the language says %v", root, in, text, got, err, want)
		}
		f, err := goabnf.ParseBSR(in, g, root)
		if err != nil || f.Valid() != want {
			c.Fail(k, "ParseBSR(%q) of %s on the text %q: %v; the language says %v", in, root, text, err, want)
		}
		c.Traces += 2
	}
	_, err = goabnf.ParseABNF([]byte(text+root+" = \"z\"\r\n"), goabnf.WithRedefineCoreRules(true))
	var dup *goabnf.ErrDuplicatedRule
	if !errors.As(err, &dup) || !strings.EqualFold(dup.Rulename, root) {
		c.Fail(k, "a second definition spelled %s after %q: error %v", root, text, err)
	}
	g, err = goabnf.ParseABNF([]byte(text+root+" =/ \"z\"\r\n"), goabnf.WithRedefineCoreRules(true))
	if err != nil {
		c.Fail(k, "an extension spelled %s after %q: %v", root, text, err)
		return
	}
	x := &ref.Grammar{RootAs: root}
	for i, r := range cs.G.Rules {
		if i == 0 {
			r.Alt = append(append(ref.Alt{}, r.Alt...), ref.C(ref.Ch("z")))
		}
		x.Rules = append(x.Rules, r)
	}
	m = ref.NewModel(x, root)
	for _, in := range append([][]byte{[]byte("z"), []byte("za")}, cs.Inputs...) {
		if got, err := g.IsValid(root, in); err != nil || got != m.AcceptsLong(in) {
			c.Fail(k, "IsValid(%s, %q) after an extension spelled %s of %q = %v, %v", root, in, root, text, got, err)
		}
		c.Traces++
	}
}

func c21Units(tier string, yield func(Unit) bool) {
	sp := 2
	if tier == "thorough" {
		sp = 3
	}
	if !nameCases(sp, func(cs *Case) bool {
		return yield(Unit{Desc: cs.Desc, Run: func(c *Ctx) { runNames(c, cs) }})
	}) {
		return
	}
	// mixed spellings of whole grammars, and generated parsers
	var batch []*Case
	flush := func() bool {
		b := batch
		batch = nil
		if len(b) == 0 {
			return true
		}
		return yield(Unit{
			Desc: func() string { return fmt.Sprintf("pack of %d grammars starting with %s", len(b), b[0].Desc()) },
			Run:  func(c *Ctx) { runGenPack(c, b) },
		})
	}
	if !nameCases(2, func(cs *Case) bool {
		batch = append(batch, cs)
		return len(batch) < packSize || flush()
	}) || !flush() {
		return
	}
	// one parser each, for the root's own spelling
	nameCases(2, func(cs *Case) bool {
		d := cs.G.Short()
		lo, _ := recase(cs.G, func(int) int { return 0 })
		up, _ := recase(cs.G, func(int) int { return 1 })
		if d != lo.Short() && d != up.Short() || cs.G.Root() == cs.G.Rules[0].Name {
			return true
		}
		return yield(Unit{Desc: cs.Desc, Run: func(c *Ctx) { runGenSolo(c, cs) }})
	})
}

func init() {
	register(&Check{
		ID:        "C21",
		Rule:      "every spelling (lower, upper; thorough adds mixed) of every occurrence of a rule name in the base grammars, and of the root name the caller passes; every operation runs on each of them and is compared with the models of its own property, to which the spelling of names means nothing",
		Enumerate: c21Units,
		StuckS:    240,
	})
}
