package main

import (
	"bytes"
	"errors"
	"fmt"
	"math/big"

	goabnf "github.com/pandatix/go-abnf"

	"verif/harness/ref"
)

func init() {
	register(&Check{
		ID:   "C05",
		Rule: "every grammar of the generation families (alone or packed by the dozen behind a selecting tag) is turned into Go source, compiled, and run on every input up to the bound; Valid, NumTrees, Ambiguous and Tree are compared with the reference model",
		Assumptions: []string{
			"the installed Go toolchain compiles the emitted file faithfully",
		},
		Enumerate: enumC05,
		StuckS:    240,
	})
}

// genCases is the universe of grammars given to the code generator.
func genCases(tier string, yield func(*Case) bool) {
	if tier == "thorough" {
		allCases("quick", yield)
		return
	}
	_ = scaleCases(tier, yield) && termCases(1, yield) && mixCases(1, yield) && repCases(2, 3, quickRepInputs, yield) &&
		recCases(1, yield) && hiddenCases(1, yield) && bigRepCases(yield) && structCases(3, 4, true, yield) && collideCases(1, yield)
}

// soloCases are compiled on their own, from ABNF text: the root rule is itself
// recursive, nullable or dead, which a pack's root is not.
func soloCases(yield func(*Case) bool) bool {
	n := 0
	ok := true
	recCases(0, func(c *Case) bool {
		n++
		if n > 24 {
			return false
		}
		ok = yield(c)
		return ok
	})
	if !ok {
		return false
	}
	if !realGen(yield) {
		return false
	}
	in := inAB3
	for _, a := range []ref.Alt{
		ref.AE(ref.Prose("p")), ref.AE(ref.Ch("")), ref.AE(ref.Ch("a"), ref.Ch("a")), {{ref.R(2, 2, ref.Ch(""))}},
		{{ref.R(0, ref.Inf, ref.Rng('a', 'b'))}}, ref.AE(ref.Ser(0xE9, 'a')), ref.AE(ref.Ref("ALPHA")), {{ref.R(2, 3, ref.Grp(ref.AE(ref.Ch("a"), ref.Ch(""))))}},
		{{ref.R(0, 9999999999, ref.Ch("a"))}},
	} {
		if !yield(&Case{G: ref.G1("Root-Rule", a), Inputs: in, Fam: "solo"}) {
			return false
		}
	}
	return true
}

// realGen: the grammars of realCases, one parser each.
func realGen(yield func(*Case) bool) bool {
	for i := range realGrammars {
		r := &realGrammars[i]
		var in [][]byte
		for _, w := range r.words {
			in = append(in, edits(w, r.alpha)...)
		}
		if !yield(&Case{G: r.gram(), Inputs: in, Fam: "real:" + r.name}) {
			return false
		}
	}
	return true
}

const packSize = 48

func enumC05(tier string, yield func(Unit) bool) {
	ok := soloCases(func(cs *Case) bool {
		return yield(Unit{Desc: cs.Desc, Run: func(c *Ctx) { runGenSolo(c, cs) }})
	})
	if !ok {
		return
	}
	var batch []*Case
	flush := func() bool {
		if len(batch) == 0 {
			return true
		}
		b := batch
		batch = nil
		return yield(Unit{
			Desc: func() string { return fmt.Sprintf("pack of %d grammars starting with %s", len(b), b[0].Desc()) },
			Run:  func(c *Ctx) { runGenPack(c, b) },
		})
	}
	stop := false
	genCases(tier, func(cs *Case) bool {
		batch = append(batch, cs)
		if len(batch) == packSize {
			if !flush() {
				stop = true
				return false
			}
		}
		return true
	})
	if !stop {
		flush()
	}
}

func runGenSolo(c *Ctx, cs *Case) {
	root := cs.G.Root()
	text := cs.G.Text()
	src, err := goabnf.GenerateGoParserFromABNF([]byte(text), root, "gp", goabnf.WithValidation(false), goabnf.WithRedefineCoreRules(true))
	if err != nil {
		c.Fail("generate "+cs.G.Short(), "GenerateGoParserFromABNF(%s): %v", cs.G.Short(), err)
		return
	}
	src2, err := goabnf.GenerateGoParser(toImpl(cs.G), root, "gp")
	if err != nil {
		c.Fail("generate "+cs.G.Short(), "GenerateGoParser(%s): %v", cs.G.Short(), err)
		return
	}
	if !bytes.Equal(src, src2) {
		c.Fail("source "+cs.G.Short(), "the parser generated from ABNF text and from the grammar value of %s differ", cs.G.Short())
	}
	if _, err := goabnf.GenerateGoParser(toImpl(cs.G), "no-such-rule", "gp"); err == nil {
		c.Fail("unknown root "+cs.G.Short(), "GenerateGoParser accepts an unknown root")
	}
	p, err := buildGenerated(src)
	if err != nil {
		reportBuild(c, cs.G, err)
		return
	}
	defer p.close()
	m := ref.NewModel(cs.G, root)
	for i, in := range cs.Inputs {
		if !checkGen(c, p, cs, m, i, in, func(t *PT) *PT { return t }) {
			break
		}
	}
	c.AddRef(m.St.States, m.St.Transitions)
}

func reportBuild(c *Ctx, g *ref.Grammar, err error) {
	if errors.Is(err, errCompile) {
		c.Fail("compile "+g.Short(), "generated parser of %s: %v", g.Short(), err)
		return
	}
	panic(err)
}

func runGenPack(c *Ctx, b []*Case) {
	var gs []*ref.Grammar
	for _, cs := range b {
		gs = append(gs, cs.G)
	}
	pg := pack(gs)
	src, err := goabnf.GenerateGoParser(toImpl(pg), pg.Root(), "gp")
	if err != nil {
		c.Fail("generate pack "+gs[0].Short(), "GenerateGoParser: %v", err)
		return
	}
	p, err := buildGenerated(src)
	if err != nil {
		reportBuild(c, pg, err)
		return
	}
	defer func() { p.close() }()
	for k, cs := range b {
		m := ref.NewModel(cs.G, cs.G.Root())
		tag := packTag(k)
		for i, in := range cs.Inputs {
			full := append([]byte(tag), in...)
			if !checkGen(c, p, cs, m, i, full, func(t *PT) *PT { return unpackTree(t, k, len(tag)) }) {
				return
			}
		}
		c.AddRef(m.St.States, m.St.Transitions)
	}
}

// checkGen compares one run of a generated parser with the model; false means
// the parser process is gone.
func checkGen(c *Ctx, p *genParser, cs *Case, m *ref.Model, i int, full []byte, sub func(*PT) *PT) bool {
	g, in := cs.G, cs.Inputs[i]
	n, inf := cs.count(m, i)
	r, err := p.parse(full, -1)
	c.Traces++
	if err != nil {
		c.Fail(key(g, in), "generated parser of %s on %q: %v", g.Short(), in, err)
		return false
	}
	want := n
	if inf {
		want = big.NewInt(-1)
	}
	wantValid := inf || n.Sign() > 0
	wantAmb := inf || n.Cmp(big.NewInt(1)) > 0
	c.Outcome("trees=" + countOutcome(n, inf))
	if r.Status != "OK" {
		c.Fail(key(g, in), "generated parser of %s on %q: %s", g.Short(), in, r.Status)
		return true
	}
	if r.Valid != wantValid || r.Num != want.String() || r.Amb != wantAmb {
		c.Fail(key(g, in), "generated parser of %s on %q: valid=%v trees=%s ambiguous=%v, the grammar gives valid=%v trees=%v ambiguous=%v",
			g.Short(), in, r.Valid, r.Num, r.Amb, wantValid, want, wantAmb)
		return true
	}
	if (r.Tree != nil) != wantValid {
		c.Fail(key(g, in), "generated parser of %s on %q: tree present=%v, valid=%v", g.Short(), in, r.Tree != nil, wantValid)
		return true
	}
	if wantValid && !inf {
		t := sub(r.Tree)
		if t == nil {
			c.Fail(key(g, in), "generated parser of %s on %q: tree %s has the wrong shape", g.Short(), in, treeStr(r.Tree))
		} else if why := checkTree(g, g.Root(), in, t); why != "" {
			c.Fail(key(g, in), "generated parser of %s on %q: tree is not a derivation: %s; tree %s", g.Short(), in, why, treeStr(t))
		}
	}
	return true
}
