package main

import (
	goabnf "github.com/pandatix/go-abnf"

	"verif/harness/ref"
)

// proseElems caches prose-val elements, which can only be obtained by parsing.
var proseElems = map[string]goabnf.ElemItf{}

func proseElem(text string) goabnf.ElemItf {
	if e, ok := proseElems[text]; ok {
		return e
	}
	g, err := goabnf.ParseABNF([]byte("p = <" + text + ">\r\n"))
	if err != nil {
		panic("cannot parse a prose-val: " + err.Error())
	}
	e := g.Rulemap["p"].Alternation.Concatenations[0].Repetitions[0].Element
	proseElems[text] = e
	return e
}

// toImpl builds the implementation's grammar value straight from the model's,
// without going through the ABNF text parser (property C07 binds the parser to
// the same model separately).
func toImpl(g *ref.Grammar) *goabnf.Grammar {
	out := &goabnf.Grammar{Rulemap: map[string]*goabnf.Rule{}}
	for _, r := range g.Rules {
		out.Rulemap[r.Name] = &goabnf.Rule{Name: r.Name, Alternation: toAlt(r.Alt)}
	}
	return out
}

func toAlt(a ref.Alt) goabnf.Alternation {
	out := goabnf.Alternation{}
	for _, c := range a {
		cc := goabnf.Concatenation{}
		for _, r := range c {
			cc.Repetitions = append(cc.Repetitions, goabnf.Repetition{Min: r.Min, Max: r.Max, Element: toElem(r.E)})
		}
		out.Concatenations = append(out.Concatenations, cc)
	}
	return out
}

func toElem(e *ref.Elem) goabnf.ElemItf {
	switch e.K {
	case ref.KChar:
		return goabnf.ElemCharVal{Sensitive: e.Sens, Values: []rune(e.Text)}
	case ref.KRange, ref.KSeries:
		st := goabnf.StatSeries
		if e.K == ref.KRange {
			st = goabnf.StatRange
		}
		var el []string
		for _, v := range e.Vals {
			el = append(el, e.Num(v))
		}
		return goabnf.ElemNumVal{Base: e.Base, Status: st, Elems: el}
	case ref.KProse:
		return proseElem(e.Text)
	case ref.KRef:
		return goabnf.ElemRulename{Name: e.Text}
	case ref.KGroup:
		return goabnf.ElemGroup{Alternation: toAlt(e.Alt)}
	case ref.KOpt:
		return goabnf.ElemOption{Alternation: toAlt(e.Alt)}
	}
	panic("kind")
}
