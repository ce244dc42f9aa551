// Package ops is the pool of operations whose histories property C17 explores:
// every operation runs on a World of shared values and returns its answer in a
// canonical form.
package ops

import (
	"crypto/sha256"
	"fmt"
	"math/rand"
	"sort"
	"strings"

	goabnf "github.com/pandatix/go-abnf"
)

// World holds the values an operation history shares.
type World struct {
	G   map[string]*goabnf.Grammar
	TG  map[string]*goabnf.TransitionGraph
	Gen map[string]*goabnf.Generator
	AST map[string]*goabnf.ASTGenerator
	F   map[string]*goabnf.Forest
	B   map[string]*goabnf.BSRForest
}

type gram struct {
	name, text, root string
	opts             []goabnf.ABNFOption
	yes, no          string
	acyclic          bool
}

func crlf(s string) string {
	return strings.ReplaceAll(strings.TrimPrefix(s, "\n"), "\n", "\r\n")
}

var grams = []gram{
	{"plain", crlf(`
r = ALPHA [digits] *("-" / item) / %s"Zz"
digits = 1*2DIGIT
item = %x61.62.63 / %x61-63 / 2("q" / "")
`), "r", nil, "a1-q", "1", true},
	{"expr", crlf(`
e = e "+" t / t
t = "(" e ")" / 1*digit
`), "e", nil, "(1+2)+3", "1+", false},
	{"redef", crlf(`
r = 1*ALPHA digit
ALPHA = "z" / %x79
`), "r", []goabnf.ABNFOption{goabnf.WithRedefineCoreRules(true)}, "zy7", "ab7", true},
	{"extend", crlf(`
r = 2DIGIT Alpha
digit =/ "x"
r =/ "end"
`), "r", []goabnf.ABNFOption{goabnf.WithRedefineCoreRules(true)}, "x4b", "y4b", true},
	{"loose", crlf(`
r = "a" / ghost / <prose> / 3*2"b"
`), "r", []goabnf.ABNFOption{goabnf.WithValidation(false)}, "a", "bbb", true},
	{"amb", crlf(`
s = s s / "a" / [b]
b = "b" s / ""
`), "s", nil, "aba", "c", false},
	{"case", crlf(`
Root = FOO foo %d66
fOO = "Ab" / hexdig
`), "ROOT", nil, "abFB", "abGB", true},
}

func parse(g gram) *goabnf.Grammar {
	p, err := goabnf.ParseABNF([]byte(g.text), g.opts...)
	if err != nil {
		panic(g.name + ": " + err.Error())
	}
	return p
}

var fullDeflate = []goabnf.TGOption{goabnf.WithDeflateRules(true), goabnf.WithDeflateNumVals(true), goabnf.WithDeflateCharVals(true)}

// NewWorld builds fresh values. full adds the stateful objects (generators,
// forests, graphs).
// only limits it to some of the grammars (nil: all).
func NewWorld(full bool, only map[string]bool) *World {
	w := &World{G: map[string]*goabnf.Grammar{}, TG: map[string]*goabnf.TransitionGraph{}, Gen: map[string]*goabnf.Generator{},
		AST: map[string]*goabnf.ASTGenerator{}, F: map[string]*goabnf.Forest{}, B: map[string]*goabnf.BSRForest{}}
	for _, g := range grams {
		if only == nil || only[g.name] {
			w.G[g.name] = parse(g)
		}
	}
	if full {
		w.objects()
	}
	return w
}

func (w *World) objects() {
	for _, g := range grams {
		p := w.G[g.name]
		if p == nil {
			continue
		}
		if g.acyclic && g.name != "loose" {
			tg, err := p.TransitionGraph(g.root, goabnf.WithDeflateRules(true))
			must(err)
			w.TG[g.name] = tg
			gen, err := goabnf.NewGenerator(tg)
			must(err)
			w.Gen[g.name] = gen
		}
		if g.name != "loose" {
			ag, err := goabnf.NewASTGenerator(p, g.root)
			must(err)
			w.AST[g.name] = ag
		}
		f, err := goabnf.ParseForest([]byte(g.yes), p, g.root)
		must(err)
		w.F[g.name] = f
		b, err := goabnf.ParseBSR([]byte(g.yes), p, g.root)
		must(err)
		w.B[g.name] = b
	}
}

// Clone replaces the world's grammars by deep copies of cached ones: cheaper
// than parsing, for the long histories.
var cache = map[string]*goabnf.Grammar{}

func cloneAlt(a goabnf.Alternation) goabnf.Alternation {
	out := goabnf.Alternation{}
	for _, c := range a.Concatenations {
		cc := goabnf.Concatenation{}
		for _, r := range c.Repetitions {
			nr := goabnf.Repetition{Min: r.Min, Max: r.Max, Element: r.Element}
			switch v := r.Element.(type) {
			case goabnf.ElemGroup:
				nr.Element = goabnf.ElemGroup{Alternation: cloneAlt(v.Alternation)}
			case goabnf.ElemOption:
				nr.Element = goabnf.ElemOption{Alternation: cloneAlt(v.Alternation)}
			case goabnf.ElemCharVal:
				nr.Element = goabnf.ElemCharVal{Sensitive: v.Sensitive, Values: append([]rune{}, v.Values...)}
			case goabnf.ElemNumVal:
				nr.Element = goabnf.ElemNumVal{Base: v.Base, Status: v.Status, Elems: append([]string{}, v.Elems...)}
			}
			cc.Repetitions = append(cc.Repetitions, nr)
		}
		out.Concatenations = append(out.Concatenations, cc)
	}
	return out
}

// NewClonedWorld is NewWorld without parsing the grammars again.
func NewClonedWorld(full bool, only map[string]bool) *World {
	w := NewWorld(false, map[string]bool{})
	for _, g := range grams {
		if !only[g.name] {
			continue
		}
		if cache[g.name] == nil {
			cache[g.name] = parse(g)
		}
		c := &goabnf.Grammar{Rulemap: map[string]*goabnf.Rule{}}
		for k, r := range cache[g.name].Rulemap {
			c.Rulemap[k] = &goabnf.Rule{Name: r.Name, Alternation: cloneAlt(r.Alternation)}
		}
		w.G[g.name] = c
	}
	if full {
		w.objects()
	}
	return w
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// Op is one operation.
type Op struct {
	Name string
	Gram string // the grammar it works on
	// Full: it uses the stateful objects of the world.
	Full bool
	// Conc: it only shares grammars and graphs with other operations.
	Conc bool
	// Core: one of the small pool used for the longest histories.
	Core bool
	Run  func(w *World) string
}

func hash(s string) string { return fmt.Sprintf("%x:%d", sha256.Sum256([]byte(s)), len(s)) }

func sortedLines(s string) string {
	l := strings.Split(s, "\n")
	sort.Strings(l)
	return strings.Join(l, "\n")
}

// scribble overwrites a returned slice: the caller owns it.
func scribble(b []byte) string {
	s := fmt.Sprintf("%q", b)
	b = b[:cap(b)]
	for i := range b {
		b[i] = 0xEE
	}
	return s
}

func tree(t *goabnf.ParseTree) string {
	if t == nil {
		return "nil"
	}
	s := fmt.Sprintf("(%s %d %d", t.Rule, t.Start, t.End)
	for _, c := range t.Children {
		s += tree(c)
	}
	return s + ")"
}

func smear(t *goabnf.ParseTree) {
	if t == nil {
		return
	}
	for _, c := range t.Children {
		smear(c)
	}
	t.Rule, t.Start, t.End = "smeared", -1, -1
	for i := range t.Children {
		t.Children[i] = nil
	}
}

type forest interface {
	Valid() bool
	Ambiguous() bool
	Nodes() int
	Tree() *goabnf.ParseTree
}

// shape is the whole tree, also where the input has several: which one is
// extracted does not depend on what else was asked.
func shape(f forest) string {
	t := f.Tree()
	if t == nil {
		return "nil"
	}
	s := tree(t)
	smear(t)
	return s
}

func errs(err error) string {
	if err == nil {
		return "ok"
	}
	return fmt.Sprintf("%T %v", err, err)
}

func drain(r *goabnf.TransitionGraphReader) string {
	var out []string
	for r.Next() && len(out) < 3000 {
		out = append(out, string(r.Scan()))
	}
	sort.Strings(out)
	return hash(strings.Join(out, "\n"))
}

func graph(tg *goabnf.TransitionGraph, err error) string {
	if err != nil {
		return errs(err)
	}
	return drain(tg.Reader(goabnf.WithCoverageMode(goabnf.CoverageCompact)))
}

// unchanged runs f on a private copy of in and reports whether f wrote to it.
func unchanged(in string, f func(b []byte) string) string {
	b := []byte(in)
	s := f(b)
	if string(b) != in {
		s += " INPUT-CHANGED"
	}
	return s
}

// All lists the operations, in a fixed order.
func All() []Op {
	var out []Op
	add := func(o Op) { out = append(out, o) }
	for _, g := range grams {
		g := g
		core := g.name == "plain" || g.name == "redef" || g.name == "extend"
		o := func(name string, isCore bool, f func(w *World, p *goabnf.Grammar) string) {
			add(Op{Name: g.name + "." + name, Gram: g.name, Conc: true, Core: isCore, Run: func(w *World) string { return f(w, w.G[g.name]) }})
		}
		o("ParseABNF", core, func(w *World, _ *goabnf.Grammar) string {
			return unchanged(g.text, func(b []byte) string {
				p, err := goabnf.ParseABNF(b, g.opts...)
				if err != nil {
					return errs(err)
				}
				return DumpGrammar(p)
			})
		})
		o("ParseABNF default options", false, func(w *World, _ *goabnf.Grammar) string {
			p, err := goabnf.ParseABNF([]byte(g.text))
			if err != nil {
				return errs(err)
			}
			return DumpGrammar(p)
		})
		o("IsValid", core, func(w *World, p *goabnf.Grammar) string {
			s := ""
			for _, in := range []string{g.yes, g.no, ""} {
				s += unchanged(in, func(b []byte) string {
					v, err := p.IsValid(g.root, b)
					return fmt.Sprintf("%v %s;", v, errs(err))
				})
			}
			return s
		})
		o("ParseForest", false, func(w *World, p *goabnf.Grammar) string {
			s := ""
			for _, in := range []string{g.yes, g.no} {
				s += unchanged(in, func(b []byte) string {
					f, err := goabnf.ParseForest(b, p, g.root)
					if err != nil {
						return errs(err)
					}
					return fmt.Sprint(f.Valid(), f.NumTrees(), f.Ambiguous(), shape(f), f.ParseError(), ";")
				})
			}
			return s
		})
		o("ParseBSR", false, func(w *World, p *goabnf.Grammar) string {
			s := ""
			for _, in := range []string{g.yes, g.no} {
				s += unchanged(in, func(b []byte) string {
					f, err := goabnf.ParseBSR(b, p, g.root)
					if err != nil {
						return errs(err)
					}
					return fmt.Sprint(f.Valid(), f.NumTrees(), f.Ambiguous(), shape(f), ";")
				})
			}
			return s
		})
		o("Regex", core, func(w *World, p *goabnf.Grammar) string {
			s, err := p.Regex(g.root)
			return s + " " + errs(err)
		})
		o("graph", false, func(w *World, p *goabnf.Grammar) string { return graph(p.TransitionGraph(g.root)) })
		o("graph deflated", core, func(w *World, p *goabnf.Grammar) string { return graph(p.TransitionGraph(g.root, fullDeflate...)) })
		o("Generate", core, func(w *World, p *goabnf.Grammar) string {
			b, err := p.Generate(7, g.root)
			return scribble(b) + errs(err)
		})
		o("graph generator", false, func(w *World, p *goabnf.Grammar) string {
			tg, err := p.TransitionGraph(g.root, goabnf.WithDeflateRules(true))
			if err != nil {
				return errs(err)
			}
			ge, err := goabnf.NewGenerator(tg)
			if err != nil {
				return errs(err)
			}
			n, lab, ok := ge.NearMiss([]byte{3, 1, 4})
			x, acc, ok2 := ge.ExpectedNext([]byte(g.yes))
			return fmt.Sprint(scribble(ge.Generate([]byte{3, 1, 4, 1, 5})), scribble(n), lab, ok, scribble(x), acc, ok2)
		})
		o("AST generator", false, func(w *World, p *goabnf.Grammar) string {
			ag, err := goabnf.NewASTGenerator(p, g.root)
			if err != nil {
				return errs(err)
			}
			return scribble(ag.Generate([]byte{2, 7, 1, 8}))
		})
		o("DependencyGraph", false, func(w *World, p *goabnf.Grammar) string { return sortedLines(p.DependencyGraph().Mermaid()) })
		o("cycles", core && g.name == "extend", func(w *World, p *goabnf.Grammar) string {
			c, err := p.RuleContainsCycle(g.root)
			return fmt.Sprint(p.IsDAG(), c, errs(err))
		})
		o("String", false, func(w *World, p *goabnf.Grammar) string {
			return sortedLines(p.String()) + sortedLines(p.PrettyPrint())
		})
		o("GenerateGoParser", false, func(w *World, p *goabnf.Grammar) string {
			b, err := goabnf.GenerateGoParser(p, g.root, "gp")
			return hash(string(b)) + errs(err)
		})
		o("SemvalABNF", false, func(w *World, p *goabnf.Grammar) string { return errs(goabnf.SemvalABNF(p)) })

		full := func(name string, isCore bool, f func(w *World) string) {
			add(Op{Name: g.name + ".shared " + name, Gram: g.name, Full: true, Core: isCore, Run: f})
		}
		full("forest", false, func(w *World) string {
			f := w.F[g.name]
			n := f.NumTrees()
			s := fmt.Sprint(f.Valid(), n, f.Ambiguous(), f.Nodes(), shape(f))
			n.SetInt64(-77)
			return s
		})
		full("BSR", false, func(w *World) string {
			f := w.B[g.name]
			n := f.NumTrees()
			s := fmt.Sprint(f.Valid(), n, f.Ambiguous(), f.Nodes(), shape(f))
			n.SetInt64(-77)
			return s
		})
		if g.name != "loose" {
			full("AST Generate", false, func(w *World) string {
				return unchanged("\x01\x02\x03\x05", func(b []byte) string { return scribble(w.AST[g.name].Generate(b)) })
			})
			full("AST GenerateRand", false, func(w *World) string {
				return scribble(w.AST[g.name].GenerateRand(rand.New(rand.NewSource(5))))
			})
		}
		if !g.acyclic || g.name == "loose" {
			continue
		}
		full("trails", false, func(w *World) string { return drain(w.TG[g.name].Reader()) })
		full("compact", false, func(w *World) string {
			return drain(w.TG[g.name].Reader(goabnf.WithCoverageMode(goabnf.CoverageCompact)))
		})
		full("NewGenerator", false, func(w *World) string {
			ge, err := goabnf.NewGenerator(w.TG[g.name])
			if err != nil {
				return errs(err)
			}
			return scribble(ge.Generate([]byte{9, 9}))
		})
		full("Mermaid", false, func(w *World) string { return fmt.Sprint(len(w.TG[g.name].ToMermaid())) })
		full("Generate", core, func(w *World) string {
			return unchanged("\x05\x01\x02\x03\x05", func(b []byte) string { return scribble(w.Gen[g.name].Generate(b)) })
		})
		full("GenerateRand", false, func(w *World) string {
			return scribble(w.Gen[g.name].GenerateRand(rand.New(rand.NewSource(5))))
		})
		full("NearMiss", core, func(w *World) string {
			return unchanged("\x05\x01\x02\x03\x05", func(b []byte) string {
				n, lab, ok := w.Gen[g.name].NearMiss(b)
				return fmt.Sprint(scribble(n), lab, ok)
			})
		})
		for k := 0; k <= len(g.yes) && k <= 2; k++ {
			k := k
			full(fmt.Sprintf("ExpectedNext(%q)", g.yes[:k]), core && k < 2, func(w *World) string {
				return unchanged(g.yes[:k], func(b []byte) string {
					x, acc, ok := w.Gen[g.name].ExpectedNext(b)
					return fmt.Sprint(scribble(x), acc, ok)
				})
			})
		}
	}
	// refused and odd texts
	for i, t := range []string{"a = b\r\n", "ALPHA = \"q\"\r\n", "DIGIT =/ \"q\"\r\n", "a = \"x\"\r\na = \"y\"\r\n", "a = 3*2\"x\"\r\n", "a =\n", "a = %xFFFFFFFFF\r\n"} {
		t := t
		add(Op{Name: fmt.Sprintf("refused text %d", i), Conc: true, Core: i == 1 || i == 2, Run: func(w *World) string {
			p, err := goabnf.ParseABNF([]byte(t))
			if err == nil {
				return DumpGrammar(p)
			}
			return errs(err)
		}})
	}
	add(Op{Name: "ABNF.queries", Conc: true, Run: func(w *World) string {
		v, err := goabnf.ABNF.IsValid("rulelist", []byte("a=b\r\n"))
		s, err2 := goabnf.ABNF.Regex("num-val")
		return fmt.Sprint(v, errs(err), s, errs(err2), goabnf.ABNF.IsDAG(), hash(sortedLines(goabnf.ABNF.DependencyGraph().Mermaid())))
	}})
	add(Op{Name: "ABNF.Generate", Conc: true, Run: func(w *World) string {
		b, err := goabnf.ABNF.Generate(3, "num-val")
		return scribble(b) + errs(err)
	}})
	return out
}

// Edit is a change the caller makes to a grammar's exported content between two
// operations: later answers are those of the grammar as it now is.
type Edit struct {
	Name string
	Do   func(g *goabnf.Grammar)
}

// Apply makes the edit to the named grammar of the world.
func (e Edit) Apply(w *World, gram string) { e.Do(w.G[gram]) }

func litAlt(s string) goabnf.Concatenation {
	return goabnf.Concatenation{Repetitions: []goabnf.Repetition{{Min: 1, Max: 1, Element: goabnf.ElemCharVal{Values: []rune(s)}}}}
}

func rootOf(g *goabnf.Grammar) string {
	for _, k := range []string{"r", "e", "s", "Root"} {
		if g.Rulemap[k] != nil {
			return k
		}
	}
	panic("no root")
}

// Edits lists the edits explored.
func Edits() []Edit {
	return []Edit{
		{"a new rule value under the root's name", func(g *goabnf.Grammar) {
			k := rootOf(g)
			r := g.Rulemap[k]
			a := cloneAlt(r.Alternation)
			a.Concatenations = append(a.Concatenations, litAlt("a1"), litAlt("y4b"))
			g.Rulemap[k] = &goabnf.Rule{Name: r.Name, Alternation: a}
		}},
		{"the root rule edited in place", func(g *goabnf.Grammar) {
			r := g.Rulemap[rootOf(g)]
			r.Alternation = goabnf.Alternation{Concatenations: []goabnf.Concatenation{litAlt("1"), litAlt("")}}
		}},
		{"a concatenation overwritten in its slice", func(g *goabnf.Grammar) {
			g.Rulemap[rootOf(g)].Alternation.Concatenations[0] = litAlt("1+")
		}},
		{"a literal overwritten in its slice", func(g *goabnf.Grammar) {
			for _, k := range []string{"r", "e", "s", "Root", "item", "t", "fOO", "b"} {
				r := g.Rulemap[k]
				if r == nil {
					continue
				}
				for _, c := range r.Alternation.Concatenations {
					for i, x := range c.Repetitions {
						if v, ok := x.Element.(goabnf.ElemCharVal); ok && len(v.Values) > 0 {
							v.Values[0] = 'c'
						} else if i == 0 {
							c.Repetitions[i].Min, c.Repetitions[i].Max = 2, 3
						}
					}
				}
			}
		}},
		{"another rule map", func(g *goabnf.Grammar) {
			k := rootOf(g)
			m := map[string]*goabnf.Rule{}
			for n, r := range g.Rulemap {
				m[n] = r
			}
			m[k] = &goabnf.Rule{Name: g.Rulemap[k].Name, Alternation: goabnf.Alternation{Concatenations: []goabnf.Concatenation{litAlt("bbb"), {Repetitions: []goabnf.Repetition{{Min: 0, Max: 2, Element: goabnf.ElemRulename{Name: "DIGIT"}}}}}}}
			g.Rulemap = m
		}},
		{"a core rule's name defined", func(g *goabnf.Grammar) {
			g.Rulemap["DIGIT"] = &goabnf.Rule{Name: "DIGIT", Alternation: goabnf.Alternation{Concatenations: []goabnf.Concatenation{litAlt("c")}}}
			delete(g.Rulemap, "digit")
		}},
	}
}

// ---- dumps ------------------------------------------------------------------

var coreNames = []string{"ALPHA", "BIT", "CHAR", "CR", "CRLF", "CTL", "DIGIT", "DQUOTE", "HEXDIG", "HTAB", "LF", "LWSP", "OCTET", "SP", "VCHAR", "WSP"}

// DumpAlt renders the meaning of an alternation, not its spelling.
func DumpAlt(a goabnf.Alternation) string {
	var alts []string
	for _, c := range a.Concatenations {
		var reps []string
		for _, r := range c.Repetitions {
			e := ""
			switch v := r.Element.(type) {
			case goabnf.ElemGroup:
				e = "(" + DumpAlt(v.Alternation) + ")"
			case goabnf.ElemOption:
				e = "[" + DumpAlt(v.Alternation) + "]"
			case goabnf.ElemRulename:
				e = "@" + v.Name
			case goabnf.ElemCharVal:
				e = fmt.Sprintf("c%v%q", v.Sensitive, string(v.Values))
			case goabnf.ElemNumVal:
				e = fmt.Sprintf("n%d%s%v", v.Status, v.Base, v.Elems)
			default:
				e = fmt.Sprintf("%T%v", v, v)
			}
			reps = append(reps, fmt.Sprintf("%d..%d%s", r.Min, r.Max, e))
		}
		alts = append(alts, strings.Join(reps, " "))
	}
	return strings.Join(alts, " / ")
}

// DumpGrammar renders a grammar's rules.
func DumpGrammar(g *goabnf.Grammar) string {
	var l []string
	for k, r := range g.Rulemap {
		l = append(l, k+":"+r.Name+"="+DumpAlt(r.Alternation))
	}
	sort.Strings(l)
	return strings.Join(l, "\n")
}

// Dump renders everything an operation must leave alone.
func (w *World) Dump() map[string]string {
	out := map[string]string{"ABNF": DumpGrammar(goabnf.ABNF)}
	for k, g := range w.G {
		out[k] = DumpGrammar(g)
	}
	var l []string
	for _, n := range coreNames {
		r := goabnf.GetRule(n, nil)
		if r == nil {
			l = append(l, n+" missing")
			continue
		}
		l = append(l, n+":"+r.Name+"="+DumpAlt(r.Alternation))
	}
	out["core rules"] = strings.Join(l, "\n")
	for k, tg := range w.TG {
		seen := map[*goabnf.Node]int{}
		var ns []string
		var walk func(n *goabnf.Node) int
		walk = func(n *goabnf.Node) int {
			if n == nil {
				return -1
			}
			if i, ok := seen[n]; ok {
				return i
			}
			i := len(seen)
			seen[n] = i
			s := fmt.Sprintf("%d %T%v:", i, n.Elem, n.Elem)
			for _, m := range n.Nexts {
				s += fmt.Sprint(walk(m), ",")
			}
			ns = append(ns, s)
			return i
		}
		s := ""
		for _, e := range tg.Entrypoints {
			s += fmt.Sprint("in", walk(e), ";")
		}
		for _, e := range tg.Endpoints {
			s += fmt.Sprint("out", walk(e), ";")
		}
		out["graph of "+k] = s + strings.Join(ns, "\n")
	}
	return out
}
