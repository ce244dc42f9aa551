package main

import (
	"errors"
	"fmt"
	"sort"
	"strconv"
	"strings"

	goabnf "github.com/pandatix/go-abnf"

	"verif/harness/ref"
)

// ---- structural dumps, so that both ASTs compare exactly ---------------------

func dumpNum(k string, base string, vals []int64) string {
	return fmt.Sprintf("%s%s%v", k, strings.ToLower(base), vals)
}

func dumpRefAlt(a ref.Alt) string {
	var b strings.Builder
	b.WriteString("{")
	for _, c := range a {
		b.WriteString("[")
		for _, r := range c {
			fmt.Fprintf(&b, "%d*%d:", r.Min, r.Max)
			e := r.E
			switch e.K {
			case ref.KChar:
				fmt.Fprintf(&b, "c%v%q", e.Sens, e.Text)
			case ref.KRange:
				b.WriteString(dumpNum("R", e.Base, e.Vals))
			case ref.KSeries:
				b.WriteString(dumpNum("S", e.Base, e.Vals))
			case ref.KProse:
				fmt.Fprintf(&b, "p%q", e.Text)
			case ref.KRef:
				fmt.Fprintf(&b, "r%q", e.Text)
			case ref.KGroup:
				b.WriteString("G" + dumpRefAlt(e.Alt))
			case ref.KOpt:
				b.WriteString("O" + dumpRefAlt(e.Alt))
			}
			b.WriteString(" ")
		}
		b.WriteString("]")
	}
	b.WriteString("}")
	return b.String()
}

func radix(base string) int {
	switch strings.ToLower(base) {
	case "b":
		return 2
	case "d":
		return 10
	}
	return 16
}

func dumpImplAlt(a goabnf.Alternation) string {
	var b strings.Builder
	b.WriteString("{")
	for _, c := range a.Concatenations {
		b.WriteString("[")
		for _, r := range c.Repetitions {
			fmt.Fprintf(&b, "%d*%d:", r.Min, r.Max)
			switch e := r.Element.(type) {
			case goabnf.ElemCharVal:
				fmt.Fprintf(&b, "c%v%q", e.Sensitive, string(e.Values))
			case goabnf.ElemNumVal:
				k := "S"
				if e.Status == goabnf.StatRange {
					k = "R"
				}
				var vs []int64
				for _, s := range e.Elems {
					v, err := strconv.ParseUint(s, radix(e.Base), 64)
					if err != nil || v > ref.NumCap {
						v = ref.NumCap
					}
					vs = append(vs, int64(v))
				}
				b.WriteString(dumpNum(k, e.Base, vs))
			case goabnf.ElemProseVal:
				s := e.String()
				fmt.Fprintf(&b, "p%q", strings.TrimSuffix(strings.TrimPrefix(s, "<"), ">"))
			case goabnf.ElemRulename:
				fmt.Fprintf(&b, "r%q", e.Name)
			case goabnf.ElemGroup:
				b.WriteString("G" + dumpImplAlt(e.Alternation))
			case goabnf.ElemOption:
				b.WriteString("O" + dumpImplAlt(e.Alternation))
			default:
				fmt.Fprintf(&b, "?%T", r.Element)
			}
			b.WriteString(" ")
		}
		b.WriteString("]")
	}
	b.WriteString("}")
	return b.String()
}

func dumpRef(g *ref.Grammar) string {
	var l []string
	for _, r := range g.Rules {
		l = append(l, r.Name+"="+dumpRefAlt(r.Alt))
	}
	sort.Strings(l)
	return strings.Join(l, "\n")
}

func dumpImpl(g *goabnf.Grammar) string {
	var l []string
	for _, r := range g.Rulemap {
		l = append(l, r.Name+"="+dumpImplAlt(r.Alternation))
	}
	sort.Strings(l)
	return strings.Join(l, "\n")
}

// errKind classifies an error of ParseABNF, with the name it carries.
func errKind(err error) (string, string) {
	if err == nil {
		return "ok", ""
	}
	var (
		cm *goabnf.ErrCoreRuleModify
		du *goabnf.ErrDuplicatedRule
		nf *goabnf.ErrRuleNotFound
		dp *goabnf.ErrDependencyNotFound
		sr *goabnf.ErrSemanticRepetition
		nu *goabnf.ErrTooLargeNumeral
		ms *goabnf.ErrMultipleSolutionsFound
	)
	switch {
	case errors.As(err, &cm):
		return "coremod", cm.CoreRulename
	case errors.As(err, &du):
		return "dup", du.Rulename
	case errors.As(err, &nf):
		return "rulenf", nf.Rulename
	case errors.As(err, &dp):
		return "dep", dp.Rulename
	case errors.As(err, &sr):
		return "reps", ""
	case errors.As(err, &nu):
		return "num", ""
	case errors.As(err, &ms):
		return "ambiguous", ""
	case errors.Is(err, goabnf.ErrNoSolutionFound):
		return "syntax", ""
	}
	return "other: " + err.Error(), ""
}

// checkText reads one text with the implementation and with the model.
func checkText(c *Ctx, text string, validate, redefine bool) {
	v, also := ref.Eval(text, validate, redefine)
	g, err := goabnf.ParseABNF([]byte(text), goabnf.WithValidation(validate), goabnf.WithRedefineCoreRules(redefine))
	c.Traces++
	c.States++
	c.Transitions += int64(len(text))
	kind, name := errKind(err)
	k := fmt.Sprintf("%q validate=%v redefine=%v", text, validate, redefine)
	if !validate {
		twoSteps(c, k, text, redefine, g, kind, name)
	}
	c.Outcome("expected " + v.Kind)
	if kind != v.Kind {
		if also != nil && also[kind] {
			return
		}
		c.Fail(k, "ParseABNF(%s): got %s (%v), the text means %s", k, kind, err, v.Kind)
		return
	}
	if v.Names != nil && !v.Names[strings.ToLower(name)] {
		c.Fail(k, "ParseABNF(%s): %s error names %q, expected one of %v", k, kind, name, v.Names)
	}
	if kind == "ok" {
		if a, b := dumpImpl(g), dumpRef(v.Gram); a != b {
			c.Fail(k, "ParseABNF(%s) gives\n%s\nbut the text denotes\n%s", k, a, b)
		}
	} else if g != nil {
		c.Fail(k, "ParseABNF(%s): error %v together with a grammar", k, err)
	}
}

// twoSteps: parsing with the meta-grammar and evaluating the forest is the same as
// reading the text at once.
func twoSteps(c *Ctx, k, text string, redefine bool, g *goabnf.Grammar, kind, name string) {
	f, err := goabnf.Parse([]byte(text), goabnf.ABNF, "rulelist")
	if err != nil {
		c.Fail(k, "Parse(%s) with the meta-grammar: %v", k, err)
		return
	}
	c.Traces++
	g2, err := goabnf.EvaluateABNF([]byte(text), f, goabnf.WithRedefineCoreRules(redefine))
	kind2, name2 := errKind(err)
	switch {
	case kind == "ambiguous":
	case kind2 != kind || name2 != name:
		c.Fail(k, "EvaluateABNF(%s): %s %s (%v), ParseABNF gives %s %s", k, kind2, name2, err, kind, name)
	case err != nil && g2 != nil:
		c.Fail(k, "EvaluateABNF(%s): error %v together with a grammar", k, err)
	case err == nil && dumpImpl(g2) != dumpImpl(g):
		c.Fail(k, "EvaluateABNF(%s) gives\n%s\nParseABNF gives\n%s", k, dumpImpl(g2), dumpImpl(g))
	}
}

var textTokens = []string{
	`a`, `b-1`, `"x"`, `""`, `%s"x"`, `%i"x"`, `%x41`, `%X4a-4B`, `%d65.66`, `%b1`, `<p>`,
	`(`, `)`, `[`, `]`, `/`, ` `, "\t", `*`, `1`, `2*`, `=`, `=/`, "\r\n", "\r\n ", ";c\r\n",
	`;`, `"`, `%`, `x`, `-`, `.`, "\n", "\r", "<", ">", "%s", "\xc3\xa9",
}
var textTokensSmall = []string{`a`, `"x"`, `%x41`, `%d6.6-`, `(`, `)`, `[`, `]`, `/`, ` `, `*`, `1`, "\r\n ", ";c\r\n", "=", "\r\n"}

func tokenSeqs(toks []string, n int, f func(string)) {
	if n == 0 {
		f("")
		return
	}
	for _, t := range toks {
		tokenSeqs(toks, n-1, func(s string) { f(t + s) })
	}
}

// c07Texts: units, each a set of texts.
func c07Units(tier string, yield func(Unit) bool) {
	thorough := tier == "thorough"
	type frame struct{ pre, post string }
	frames := []frame{{"a=", "\r\n"}, {"", ""}, {"a=\"x\"\r\n", "b=\"y\"\r\n"}, {"a=(\"x\"", ")\r\n"}, {"a=1*2", " \"z\"\r\n"}}
	emit := func(desc string, run func(c *Ctx)) bool {
		return yield(Unit{Desc: func() string { return desc }, Run: run})
	}
	for _, fr := range frames {
		fr := fr
		if !emit(fmt.Sprintf("texts %q + 0..1 token + %q", fr.pre, fr.post), func(c *Ctx) {
			checkText(c, fr.pre+fr.post, false, true)
			for _, t := range textTokens {
				checkText(c, fr.pre+t+fr.post, false, true)
			}
		}) {
			return
		}
		for _, t := range textTokens {
			t := t
			if !emit(fmt.Sprintf("texts %q + %q + 1..2 tokens + %q", fr.pre, t, fr.post), func(c *Ctx) {
				for n := 1; n <= 2; n++ {
					tokenSeqs(textTokens, n, func(s string) { checkText(c, fr.pre+t+s+fr.post, false, true) })
				}
			}) {
				return
			}
		}
	}
	deep := 4
	if thorough {
		deep = 5
	}
	for _, fr := range frames[:2] {
		fr := fr
		for _, t := range textTokensSmall {
			for _, u := range textTokensSmall {
				t := t + u
				if !emit(fmt.Sprintf("texts %q + %q + %d tokens + %q", fr.pre, t, deep-2, fr.post), func(c *Ctx) {
					tokenSeqs(textTokensSmall, deep-2, func(s string) { checkText(c, fr.pre+t+s+fr.post, false, true) })
				}) {
					return
				}
			}
		}
	}
	// every single-byte edit of the sample texts
	bytesRep := []byte("aZ0-=/;()[]*1 \t\r\n\"%xsbd.<>,'{\x00\x7f\x80\xc3\xff")
	for _, s := range sampleTexts {
		for p := 0; p <= len(s); p++ {
			s, p := s, p
			if !emit(fmt.Sprintf("edits at byte %d of %q", p, s), func(c *Ctx) {
				for _, b := range bytesRep {
					checkText(c, s[:p]+string([]byte{b})+s[p:], false, true)
					if p < len(s) {
						checkText(c, s[:p]+string([]byte{b})+s[p+1:], false, true)
					}
				}
				for w := 1; w <= 3 && p+w <= len(s); w++ {
					checkText(c, s[:p]+s[p+w:], false, true)
				}
				checkText(c, s[:p], false, true)
				if thorough && p < len(s) {
					for b := 0; b < 256; b++ {
						checkText(c, s[:p]+string([]byte{byte(b)})+s[p+1:], false, true)
					}
				}
			}) {
				return
			}
		}
	}
	// every byte inside quotes, prose and comments
	if !emit("every byte inside quotes, prose-val, comment and rule name", func(c *Ctx) {
		for b := 0; b < 256; b++ {
			x := string([]byte{byte(b)})
			for _, t := range []string{"a=\"" + x + "\"\r\n", "a=%s\"u" + x + "v\"\r\n", "a=<" + x + ">\r\n", "a=\"x\" ;" + x + "\r\n", "a" + x + "=\"x\"\r\n", x + "=\"x\"\r\n", "a=" + x + "1\"x\"\r\n", "a=%" + x + "1\r\n", "a=%x" + x + "\r\n", "a=%b1" + x + "\r\n", "a=%d9-" + x + "\r\n"} {
				checkText(c, t, false, true)
			}
		}
	}) {
		return
	}
	// layouts of model grammars
	layouts := allLayouts(thorough)
	for _, g := range layoutGrammars() {
		g := g
		if !emit("layouts of "+g.Short(), func(c *Ctx) {
			for _, l := range layouts {
				checkText(c, renderLayout(g, l), false, true)
			}
		}) {
			return
		}
	}
	// long texts
	for n := 8; n <= 64; n *= 2 {
		n := n
		if !emit(fmt.Sprintf("texts of %d rules, alternatives, elements, nestings, digits", n), func(c *Ctx) {
			for _, t := range longTexts(n) {
				checkText(c, t, false, true)
			}
		}) {
			return
		}
	}
}

func longTexts(n int) []string {
	var out []string
	var b strings.Builder
	for i := 0; i < n; i++ {
		fmt.Fprintf(&b, "r%d = %d*%d\"v%d\" / r%d\r\n", i, i, i+1, i, (i+1)%n)
	}
	out = append(out, b.String(), strings.TrimSuffix(b.String(), "\n"))
	var cs, es []string
	for i := 0; i < n; i++ {
		cs = append(cs, fmt.Sprintf("%%x%X", i))
		es = append(es, fmt.Sprintf("%d\"e%d\"", i, i))
	}
	out = append(out, "a = "+strings.Join(cs, " / ")+"\r\n", "a = "+strings.Join(es, " ")+"\r\n", "a="+strings.Join(es, "\r\n ")+"\r\n")
	out = append(out, "a="+strings.Repeat("(", n)+"\"x\""+strings.Repeat(")", n)+"\r\n")
	out = append(out, "a="+strings.Repeat("[(", n/2)+"\"x\""+strings.Repeat(")]", n/2)+"\r\n")
	out = append(out, "a="+strings.Repeat("(", n)+"\"x\""+strings.Repeat(")", n-1)+"\r\n")
	out = append(out, "a=%x"+strings.Repeat("0", n)+"41\r\n", "a=%d"+strings.Repeat("9", n)+"\r\n", "a="+strings.Repeat("0", n)+"3*"+strings.Repeat("0", n)+"7\"x\"\r\n")
	out = append(out, "a="+strings.Repeat("9", n)+"*\"x\"\r\n", "a=*"+strings.Repeat("9", n)+"\"x\"\r\n")
	out = append(out, "a=\""+strings.Repeat("q", n)+"\"\r\n", strings.Repeat("n", n)+"=\"x\"\r\n", "a="+strings.Repeat("n", n)+"\r\n")
	out = append(out, "a=\"x\""+strings.Repeat(" ", n)+"\r\n", "a"+strings.Repeat(" ", n)+"=\"x\"\r\n", strings.Repeat("\r\n", n)+"a=\"x\"\r\n", "a=\"x\" ;"+strings.Repeat("c", n)+"\r\n")
	out = append(out, "a=%x1"+strings.Repeat(".2", n)+"\r\n", "a=\"x\"\r\n"+strings.Repeat("a=/\"y\"\r\n", n))
	return out
}

var sampleTexts = []string{
	"a = \"x\" / *b\r\nb=1*2(%x41-5A)[c] ; k\r\n",
	"a=%s\"q\"  <pr>\r\n\t/ 2%d65.66\r\n\r\na=/%i\"\"\r\n",
}

// ---- layouts -----------------------------------------------------------------

type layout struct{ eqL, eqR, sep, slL, slR, inL, inR, trail, eol, head string }

func allLayouts(thorough bool) []layout {
	ws0 := []string{"", " ", "\t ", "\r\n ", " ;=/ \"(\r\n\t", ";\r\n \r\n\t"}
	ws1 := []string{" ", "  ", "\r\n ", "\t;c / d\r\n ", "\r\n \r\n "}
	trail := []string{"", " \t"}
	eol := []string{"\r\n", ";a=/b\r\n", "\r\n \r\n"}
	head := []string{"", ";x\r\n", " \r\n\r\n"}
	base := layout{" ", " ", " ", " ", " ", "", "", "", "\r\n", ""}
	var out []layout
	// every pair of positions, all their values, the others at the default
	set := []func(l *layout, i int) bool{
		func(l *layout, i int) bool { return pickS(&l.eqL, ws0, i) },
		func(l *layout, i int) bool { return pickS(&l.eqR, ws0, i) },
		func(l *layout, i int) bool { return pickS(&l.sep, ws1, i) },
		func(l *layout, i int) bool { return pickS(&l.slL, ws0, i) },
		func(l *layout, i int) bool { return pickS(&l.slR, ws0, i) },
		func(l *layout, i int) bool { return pickS(&l.inL, ws0, i) },
		func(l *layout, i int) bool { return pickS(&l.inR, ws0, i) },
		func(l *layout, i int) bool { return pickS(&l.trail, trail, i) },
		func(l *layout, i int) bool { return pickS(&l.eol, eol, i) },
		func(l *layout, i int) bool { return pickS(&l.head, head, i) },
	}
	for i := range set {
		for j := i + 1; j < len(set); j++ {
			for x := 0; ; x++ {
				l := base
				if !set[i](&l, x) {
					break
				}
				for y := 0; ; y++ {
					m := l
					if !set[j](&m, y) {
						break
					}
					if !thorough {
						out = append(out, m)
						continue
					}
					for k := j + 1; k < len(set); k++ {
						for z := 0; ; z++ {
							n := m
							if !set[k](&n, z) {
								break
							}
							out = append(out, n)
						}
					}
				}
			}
		}
	}
	return out
}

func pickS(dst *string, vals []string, i int) bool {
	if i >= len(vals) {
		return false
	}
	*dst = vals[i]
	return true
}

func layAlt(a ref.Alt, l layout) string {
	var cs []string
	for _, c := range a {
		var rs []string
		for _, r := range c {
			s := ref.RepStr(r.Min, r.Max)
			switch r.E.K {
			case ref.KGroup:
				s += "(" + l.inL + layAlt(r.E.Alt, l) + l.inR + ")"
			case ref.KOpt:
				s += "[" + l.inL + layAlt(r.E.Alt, l) + l.inR + "]"
			default:
				s += r.E.String()
			}
			rs = append(rs, s)
		}
		cs = append(cs, strings.Join(rs, l.sep))
	}
	return strings.Join(cs, l.slL+"/"+l.slR)
}

func renderLayout(g *ref.Grammar, l layout) string {
	var b strings.Builder
	b.WriteString(l.head)
	seen := map[string]bool{}
	for _, r := range g.Rules {
		op := "="
		if seen[r.Name] {
			op = "=/"
		}
		seen[r.Name] = true
		b.WriteString(r.Name + l.eqL + op + l.eqR + layAlt(r.Alt, l) + l.trail + l.eol)
	}
	return b.String()
}

func layoutGrammars() []*ref.Grammar {
	x := ref.Ch("x")
	sp := &ref.Space{Leaves: []*ref.Elem{x, ref.Ref("b-1")}, Reps: [][2]int{{0, ref.Inf}}, Groups: true, Opts: true}
	var out []*ref.Grammar
	for _, a := range sp.UpTo(3) {
		out = append(out, ref.G1("a", a))
	}
	for _, e := range []*ref.Elem{ref.Cs("y"), ref.Ch(""), ref.Ser('a', 'b'), ref.Rng(0, 9), ref.Prose("q"), ref.Prose("")} {
		out = append(out, ref.G1("a", ref.A(ref.C(e, x), ref.C(x, e))))
	}
	// extended rules: the same name twice means =/
	out = append(out,
		&ref.Grammar{Rules: []ref.Rule{{Name: "a", Alt: ref.AE(x)}, {Name: "a", Alt: ref.AE(ref.Ch("y"), ref.Ch("z"))}, {Name: "b", Alt: ref.AE(ref.Ref("a"))}}},
		&ref.Grammar{Rules: []ref.Rule{{Name: "a", Alt: ref.AE(x)}, {Name: "b", Alt: ref.AE(ref.Ref("a"))}, {Name: "a", Alt: ref.A(ref.C(ref.Ref("b"), x))}}},
	)
	return out
}

// ---- C08: rendering ------------------------------------------------------------

func c08Units(tier string, yield func(Unit) bool) {
	w := 3
	if tier == "thorough" {
		w = 4
	}
	emit := func(g *ref.Grammar) bool {
		return yield(Unit{Desc: func() string { return "render " + g.Short() }, Run: func(c *Ctx) { roundTrip(c, g) }})
	}
	var leaves []*ref.Elem
	leaves = append(leaves, ref.Ch("a"), ref.Cs("a"), ref.Ch(""), ref.Cs(""), ref.Ref("s"), ref.Ref("ALPHA"), ref.Ser('a'), ref.Ser(0, 0x10FFFF),
		&ref.Elem{K: ref.KRange, Base: "d", Vals: []int64{0, 9}}, &ref.Elem{K: ref.KSeries, Base: "b", Vals: []int64{5, 6}}, ref.Prose("p q"), ref.Ch("a / b"))
	sp := &ref.Space{Leaves: leaves, Reps: [][2]int{{0, ref.Inf}, {1, ref.Inf}, {0, 1}, {0, 0}, {3, 3}, {2, 5}, {12, ref.Inf}, {0, 1}, {1, 2}}, Groups: true, Opts: true}
	for i := 1; i <= w; i++ {
		for _, a := range sp.Alts(i) {
			if !emit(ref.G1("r", a)) {
				return
			}
		}
	}
	// deeper shapes over a small leaf set
	sp2 := &ref.Space{Leaves: []*ref.Elem{ref.Ch("a"), ref.Ref("s")}, Reps: [][2]int{{0, ref.Inf}, {2, 3}}, Groups: true, Opts: true}
	for _, a := range sp2.Alts(w + 1) {
		if !emit(ref.G1("r", a)) {
			return
		}
	}
	// every character in quotes and prose, every bound
	for ch := 0x20; ch <= 0x7E; ch++ {
		if ch != '"' {
			for _, t := range []string{string(rune(ch)), "a" + string(rune(ch)), string(rune(ch)) + " "} {
				if !emit(ref.G1("r", ref.AE(ref.Ch(t), ref.Cs(t)))) {
					return
				}
			}
		}
		if ch != '>' {
			if !emit(ref.G1("r", ref.AE(ref.Prose(string(rune(ch))), ref.Prose(string(rune(ch))+"x")))) {
				return
			}
		}
	}
	for mn := 0; mn <= 12; mn++ {
		for mx := -1; mx <= 12; mx++ {
			if mx >= 0 && mx < mn {
				continue
			}
			for _, e := range []*ref.Elem{ref.Ch("1"), ref.Ser(1), ref.Opt(ref.AE(ref.Ch("a"))), ref.Grp(ref.AE(ref.Ch("a"), ref.Ch("b"))), ref.Ref("s-1")} {
				if !emit(ref.G1("r", ref.Alt{{ref.R(mn, mx, e), ref.One(ref.Ch("z"))}})) {
					return
				}
			}
		}
	}
	for _, base := range []string{"b", "d", "x"} {
		for _, v := range []int64{0, 1, 9, 10, 15, 16, 0x7F, 0x80, 0xFF, 0x100, 0xABCDE, 0x10FFFF} {
			for _, u := range []int64{0, 1, 0xFFFF, 0x10FFFF} {
				if !emit(ref.G1("r", ref.AE(&ref.Elem{K: ref.KRange, Base: base, Vals: []int64{u, v}}, &ref.Elem{K: ref.KSeries, Base: base, Vals: []int64{u, v, u}}))) {
					return
				}
			}
		}
	}
	// large bounds, and grammars that are long, wide or deep
	big := []int{0, 1, 99, 100, 101, 255, 256, 257, 999, 1000, 1001, 65535, 65536, 1 << 20, 1<<31 - 1}
	for _, mn := range big {
		for _, mx := range append([]int{ref.Inf}, big...) {
			if mx == ref.Inf || mx >= mn {
				if !emit(ref.G1("r", ref.Alt{{ref.R(mn, mx, ref.Ch("1")), ref.R(mn, mx, ref.Grp(ref.AE(ref.Ch("a"), ref.Ch("b"))))}})) {
					return
				}
			}
		}
	}
	if !graphScaleCases([]int{9, 10, 33, 65, 129}, func(cs *Case) bool { return emit(cs.G) }) {
		return
	}
	// several rules, names of different lengths and cases
	names := []string{"a", "Bb", "c-c-1", "a-very-long-rule-name", "ALPHA", "crlf"}
	for i := range names {
		for j := range names {
			for k := range names {
				if i == j || j == k || i == k {
					continue
				}
				g := &ref.Grammar{Rules: []ref.Rule{
					{Name: names[i], Alt: ref.A(ref.C(ref.Ref(names[j]), ref.Ref(strings.ToUpper(names[k]))))},
					{Name: names[j], Alt: ref.AE(ref.Ch("x"), ref.Ref(names[i]))},
					{Name: names[k], Alt: ref.Alt{{ref.R(0, 2, ref.Ref(names[i]))}}}}}
				if !emit(g) {
					return
				}
			}
		}
	}
}

func roundTrip(c *Ctx, g *ref.Grammar) {
	want := dumpRef(g)
	ig := toImpl(g)
	for _, how := range []string{"String", "PrettyPrint"} {
		cur := ig
		for i := 0; i < 2; i++ {
			text := cur.String()
			if how == "PrettyPrint" {
				text = cur.PrettyPrint()
			}
			c.Traces++
			c.States++
			c.Transitions += int64(len(text))
			next, err := goabnf.ParseABNF([]byte(text), goabnf.WithValidation(false), goabnf.WithRedefineCoreRules(true))
			if err != nil {
				c.Fail(g.Short(), "%s of %s is %q, which does not parse: %v", how, g.Short(), text, err)
				break
			}
			if got := dumpImpl(next); got != want {
				c.Fail(g.Short(), "%s of %s is %q, which denotes another grammar:\n%s\nwant\n%s", how, g.Short(), text, got, want)
				break
			}
			if defs, ok := ref.ReadABNF(text); !ok || len(defs) != len(g.Rules) {
				c.Fail(g.Short(), "%s of %s is %q, not ABNF by the model", how, g.Short(), text)
			}
			cur = next
		}
		c.Outcome(how)
	}
}

// ---- C19: definition sequences ----------------------------------------------------

func c19Units(tier string, yield func(Unit) bool) {
	thorough := tier == "thorough"
	opts := [][2]bool{{true, false}, {false, false}, {true, true}, {false, true}}
	emit := func(desc string, texts func(f func(string))) bool {
		return yield(Unit{Desc: func() string { return desc }, Run: func(c *Ctx) {
			texts(func(t string) {
				for _, o := range opts {
					checkText(c, t, o[0], o[1])
				}
			})
		}})
	}
	names := []string{"a", "A", "b", "ALPHA", "alpha", "Crlf"}
	bodies := []string{`"x"`, `b`, `B`, `zz`, `2*1"x"`, `("y" / [3*2DIGIT])`, `[zz] "y"`, `%x110000`, `(%d0-1114112)`, `%x10FFFF`, `digit`, `a`, `1*1"x"`, `[("z" (b zz))]`}
	var defs []string
	for _, n := range names {
		for _, op := range []string{"=", "=/"} {
			for _, b := range bodies {
				defs = append(defs, n+op+b+"\r\n")
			}
		}
	}
	for _, d := range defs {
		d := d
		if !emit(fmt.Sprintf("definitions %q, alone and with every second one", d), func(f func(string)) {
			f(d)
			for _, e := range defs {
				f(d + e)
			}
		}) {
			return
		}
	}
	var small []string
	bs := []string{`"x"`, `b`, `A zz`}
	if thorough {
		bs = append(bs, `2*1"x"`, `DIGIT`)
	}
	for _, n := range []string{"a", "A", "b", "DIGIT", "digit"} {
		for _, op := range []string{"=", "=/"} {
			for _, b := range bs {
				small = append(small, n+op+b+"\r\n")
			}
		}
	}
	for _, d := range small {
		for _, e := range small {
			d, e := d, e
			if !emit(fmt.Sprintf("definitions %q then %q then every third one", d, e), func(f func(string)) {
				for _, h := range small {
					f(d + e + h)
				}
			}) {
				return
			}
		}
	}
	// every core rule, every letter case pattern, both operators
	for _, cr := range ref.CoreRules {
		cr := cr
		if !emit("core rule "+cr.Name, func(f func(string)) {
			for _, n := range []string{cr.Name, strings.ToLower(cr.Name), strings.ToLower(cr.Name[:1]) + cr.Name[1:], cr.Name + "-", cr.Name + "1", "x" + cr.Name} {
				for _, op := range []string{"=", "=/"} {
					for _, b := range []string{`"x"`, cr.Name, "%x41"} {
						f(n + op + b + "\r\n")
						f("a = " + n + "\r\n" + n + op + b + "\r\n")
						f(n + op + b + "\r\n" + n + " =/ \"y\"\r\n" + "b = " + n + "\r\n")
						f(n + op + b + "\r\n" + n + " = \"y\"\r\n")
					}
				}
				f("a = " + n + "\r\n")
			}
		}) {
			return
		}
	}
	// numerals around the Unicode bound, in every base and position
	for _, base := range []string{"b", "d", "x", "B", "D", "X"} {
		base := base
		if !emit("numerals in base "+base, func(f func(string)) {
			for _, v := range boundNumerals(base) {
				for _, z := range []string{"", "0", "000"} {
					f("a = %" + base + z + v + "\r\n")
				}
				f("a = %" + base + "0-" + v + "\r\n")
				f("a = %" + base + v + "-" + v + "\r\n")
				f("a = %" + base + "1." + v + ".1\r\n")
				f("a = \"x\" / [2(%" + base + v + ".0)]\r\n")
			}
		}) {
			return
		}
	}
	// repetition bounds
	if !emit("repetition bounds", func(f func(string)) {
		for mn := 0; mn <= 12; mn++ {
			for mx := 0; mx <= 12; mx++ {
				f(fmt.Sprintf("a = %d*%d\"x\"\r\n", mn, mx))
				f(fmt.Sprintf("a = \"y\" / \"z\" ([\"w\" %d*%db])\r\nb = \"x\"\r\n", mn, mx))
			}
			f(fmt.Sprintf("a = %d*\"x\"\r\na =/ *%d\"x\"\r\n", mn, mn))
			f(fmt.Sprintf("a = %d\"x\"\r\n", mn))
		}
		for _, b := range []string{"100*99", "99*100", "1000*1000", "9223372036854775807*1", "99999999999999999999*99999999999999999999", "10*9", "010*9", "10*010", "18446744073709551617*1"} {
			f("a = " + b + "\"x\"\r\n")
		}
	}) {
		return
	}
}

// boundNumerals: every one-digit change of the largest code point, its
// neighbours, and numerals of every length around it.
func boundNumerals(base string) []string {
	rx := radix(base)
	top := strconv.FormatInt(0x10FFFF, rx)
	set := map[string]bool{}
	var out []string
	add := func(s string) {
		if !set[s] {
			set[s] = true
			out = append(out, s)
		}
	}
	for d := int64(-2); d <= 2; d++ {
		add(strconv.FormatInt(0x10FFFF+d, rx))
	}
	digs := "0123456789abcdefABCDEF"[:map[int]int{2: 2, 10: 10, 16: 22}[rx]]
	for i := range top {
		for _, d := range digs {
			add(top[:i] + string(d) + top[i+1:])
		}
	}
	for n := 1; n <= len(top)+2; n++ {
		for _, d := range digs {
			add(strings.Repeat(string(d), n))
			add("1" + strings.Repeat(string(d), n))
		}
	}
	add(strings.Repeat("1", 64))
	add(strings.Repeat("1", 65))
	add("1" + strings.Repeat("0", 63))
	add("1" + strings.Repeat("0", 64))
	add("1" + strings.Repeat("0", 16))
	add("100000041")
	add("10000000000000041")
	for _, v := range []int64{0, 0x7F, 0x80, 0xD7FF, 0xD800, 0xDFFF, 0xE000, 0xFFFF, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 0x100000000, 0x100000041} {
		add(strconv.FormatInt(v, rx))
	}
	return out
}

func init() {
	register(&Check{
		ID:        "C07",
		Rule:      "all token sequences up to the bound inside five frames, all single-byte edits of sample texts, all bytes in every lexical context, all pairwise layouts of small grammars, long texts: ParseABNF's verdict and AST against an independent character-level ABNF reader",
		Enumerate: c07Units,
	})
	register(&Check{
		ID:        "C08",
		Rule:      "every grammar of the bounded expression space (all element kinds, bounds, bases, characters): String and PrettyPrint parsed back, twice, give the identical AST",
		Enumerate: c08Units,
	})
	register(&Check{
		ID:        "C19",
		Rule:      "all sequences of up to three definitions over a pool of names (case variants, core rules), operators and bodies, under all option combinations; all numerals around the code point bound; all small repetition bounds: verdict, error kind, named rule and AST against the reference evaluator",
		Enumerate: c19Units,
	})
}
