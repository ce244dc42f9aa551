package main

import (
	"errors"
	"fmt"
	"regexp"
	"sort"
	"strings"

	goabnf "github.com/pandatix/go-abnf"

	"verif/harness/ref"
)

// altFromImpl converts an implementation grammar to the model's form.
func altFromImpl(a goabnf.Alternation) ref.Alt {
	var out ref.Alt
	for _, cc := range a.Concatenations {
		var c ref.Concat
		for _, r := range cc.Repetitions {
			var e *ref.Elem
			switch v := r.Element.(type) {
			case goabnf.ElemGroup:
				e = ref.Grp(altFromImpl(v.Alternation))
			case goabnf.ElemOption:
				e = ref.Opt(altFromImpl(v.Alternation))
			case goabnf.ElemProseVal:
				e = ref.Prose("prose")
			default:
				e = elemFromImpl(v)
			}
			if e == nil {
				panic(fmt.Sprintf("unexpected element %T", r.Element))
			}
			c = append(c, ref.Rep{Min: r.Min, Max: r.Max, E: e})
		}
		out = append(out, c)
	}
	return out
}

func gramFromImpl(g *goabnf.Grammar, root string) *ref.Grammar {
	var names []string
	for _, r := range g.Rulemap {
		if r.Name != root {
			names = append(names, r.Name)
		}
	}
	sort.Strings(names)
	out := &ref.Grammar{}
	for _, n := range append([]string{root}, names...) {
		out.Rules = append(out.Rules, ref.Rule{Name: n, Alt: altFromImpl(goabnf.GetRule(n, g.Rulemap).Alternation)})
	}
	return out
}

// wantFound is the documented description of the octet at offset, or EOF.
func wantFound(in []byte, off int) string {
	if off == len(in) {
		return "EOF"
	}
	switch b := in[off]; {
	case b == '\r':
		return "%x0D (CR)"
	case b == '\n':
		return "%x0A (LF)"
	case b == '\t':
		return "%x09 (HTAB)"
	case b == ' ':
		return "%x20 (SP)"
	case b > 0x20 && b < 0x7f:
		return fmt.Sprintf("%q", string(rune(b)))
	default:
		return fmt.Sprintf("%%x%02X", b)
	}
}

var numeral = regexp.MustCompile(`(?i)([bdx.-])0+([0-9a-f])`)

// canonTerm drops leading zeros from the numerals of a num-val.
func canonTerm(s string) string {
	if !strings.HasPrefix(s, "%") || strings.Contains(s, "\"") {
		return s
	}
	return strings.ToUpper(numeral.ReplaceAllString(s, "$1$2"))
}

// checkParseError compares a diagnostic with the model's; want is what the
// model says for this input.
func checkParseError(c *Ctx, k, who string, in []byte, pe *goabnf.ParseError, want ref.Reach) {
	if !errors.Is(pe, goabnf.ErrNoSolutionFound) {
		c.Fail(k, "%s: the error does not match ErrNoSolutionFound", who)
	}
	if pe.Offset != want.Pos {
		c.Fail(k, "%s: offset %d, the furthest offset a derivation reaches is %d", who, pe.Offset, want.Pos)
		return
	}
	set := map[string]bool{}
	for _, e := range want.Want {
		set[canonTerm(toElem(e).(fmt.Stringer).String())] = true
	}
	var ws []string
	for s := range set {
		ws = append(ws, s)
	}
	sort.Strings(ws)
	{
		var got []string
		gs := map[string]bool{}
		for _, s := range pe.Expected {
			if s = canonTerm(s); !gs[s] {
				gs[s] = true
				got = append(got, s)
			}
		}
		sort.Strings(got)
		if strings.Join(got, "\x00") != strings.Join(ws, "\x00") {
			c.Fail(k, "%s: expected %q at offset %d, the grammar allows %q there", who, pe.Expected, pe.Offset, ws)
		}
	}
	line, col := 1, 1
	for _, b := range in[:want.Pos] {
		col++
		if b == '\n' {
			line, col = line+1, 1
		}
	}
	if pe.Line != line || pe.Col != col {
		c.Fail(k, "%s: offset %d is line %d column %d, reported as %d:%d", who, pe.Offset, line, col, pe.Line, pe.Col)
	}
	if f := wantFound(in, want.Pos); pe.Found != f {
		c.Fail(k, "%s: found %q reported at offset %d, it is %s", who, pe.Found, pe.Offset, f)
	}
	bareLF := want.Pos < len(in) && in[want.Pos] == '\n' && (want.Pos == 0 || in[want.Pos-1] != '\r')
	if (pe.Hint != "") != bareLF {
		c.Fail(k, "%s: hint %q at offset %d", who, pe.Hint, pe.Offset)
	}
	msg := pe.Error()
	for _, s := range append([]string{fmt.Sprintf("line %d", line), fmt.Sprintf("column %d", col), pe.Found}, pe.Expected...) {
		if !strings.Contains(msg, s) {
			c.Fail(k, "%s: message %q does not say %q", who, msg, s)
		}
	}
}

func runC20(c *Ctx, cs *Case) {
	if cs.Want != nil {
		return
	}
	g := toImpl(cs.G)
	m := ref.NewModel(cs.G, cs.G.Root())
	for _, in := range cs.Inputs {
		ch := m.Chart(in)
		f, err := goabnf.ParseForest(in, g, cs.G.Root())
		c.Traces++
		k := key(cs.G, in)
		if err != nil {
			c.Fail(k, "ParseForest(%q) on %s: %v", in, cs.G.Short(), err)
			continue
		}
		pe := f.ParseError()
		who := fmt.Sprintf("ParseError(%q) on %s", in, clipS(cs.G.Short()))
		if ch.Accepts() {
			c.Outcome("valid")
			if pe != nil {
				c.Fail(k, "%s: an error for a valid input: %v", who, pe)
			}
			continue
		}
		if pe == nil {
			c.Fail(k, "%s: no error for an invalid input", who)
			continue
		}
		w := ch.Furthest()
		checkParseError(c, k, who, in, pe, w)
		c.Outcome(fmt.Sprintf("stuck eof=%v expected=%v", w.Pos == len(in), len(w.Want) > 0))
	}
	c.AddRef(m.St.States, m.St.Transitions)
}

// lineCases: grammars over line ends and controls, for the line, column, found
// and hint fields.
func lineCases(n int, yield func(*Case) bool) bool {
	inputs := ref.Strings([]string{"a", "\r", "\n", " "}, n)
	odd := ref.Strings([]string{"a", "\n", "\t", "\x00", "\"", "\\", "\x7f", "~", "é", "\xff"}, 3)
	for _, a := range []ref.Alt{
		{{ref.R(0, ref.Inf, ref.Grp(ref.A(ref.Concat{ref.R(0, ref.Inf, ref.Ch("a")), ref.One(ref.Ref("CRLF"))})))}},
		{{ref.R(0, ref.Inf, ref.Grp(ref.A(ref.Concat{ref.R(1, ref.Inf, ref.Ch("a")), ref.One(ref.Ser(13, 10))})))}},
		{{ref.R(0, ref.Inf, ref.Grp(ref.AE(ref.Ch("a"), ref.Ref("LF"), ref.Ref("SP"))))}, {ref.R(2, 3, ref.Ref("CR"))}},
		{{ref.R(0, ref.Inf, ref.Grp(ref.AE(ref.Ref("LF"), ref.Ref("CR")))), ref.One(ref.Ch("a"))}},
	} {
		g := ref.G1("r", a)
		for _, ins := range [][][]byte{inputs, odd} {
			for i := 0; i < len(ins); i += 100 {
				if !yield(&Case{G: g, Inputs: ins[i:min(i+100, len(ins))], Fam: "line"}) {
					return false
				}
			}
		}
	}
	return true
}

func c20Units(tier string, yield func(Unit) bool) {
	n := 5
	if tier == "thorough" {
		n = 7
	}
	ok := true
	unit := func(cs *Case) bool {
		ok = yield(Unit{Desc: cs.Desc, Run: func(c *Ctx) { runC20(c, cs) }})
		return ok
	}
	if !lineCases(n, unit) {
		return
	}
	if !graphScaleCases([]int{9, 10, 17, 33, 65, 129}, func(cs *Case) bool {
		var in [][]byte
		for _, s := range cs.Inputs {
			if len(s) <= 60 {
				in = append(in, s)
			}
		}
		cs.Inputs = in
		return unit(cs)
	}) {
		return
	}
	allCases(tier, func(cs *Case) bool { return cs.Want != nil || unit(cs) })
	if !ok {
		return
	}
	// the ABNF reader's own diagnostics
	for _, base := range sampleTexts {
		for cut := 0; cut <= len(base); cut++ {
			base, cut := base[:min(len(base), 60)], min(cut, 60)
			if !yield(Unit{Desc: func() string { return fmt.Sprintf("ParseABNF on %q, single-octet edits at %d", base, cut) },
				Run: func(c *Ctx) { runAbnfErr(c, base, cut) }}) {
				return
			}
		}
	}
}

func runAbnfErr(c *Ctx, base string, at int) {
	if at > len(base) {
		return
	}
	m := ref.NewModel(gramFromImpl(goabnf.ABNF, "rulelist"), "rulelist")
	var texts []string
	texts = append(texts, base[:at])
	if at < len(base) {
		texts = append(texts, base[:at]+base[at+1:])
	}
	for _, s := range []string{"\n", "\r", " ", "x", "1", "%", "/", "=", "*", "(", "]", "\"", "\x00", "é"} {
		texts = append(texts, base[:at]+s+base[at:])
		if at < len(base) {
			texts = append(texts, base[:at]+s+base[at+1:])
		}
	}
	for _, t := range texts {
		if len(t) > 62 {
			continue
		}
		ch := m.Chart([]byte(t))
		_, err := goabnf.ParseABNF([]byte(t), goabnf.WithValidation(false), goabnf.WithRedefineCoreRules(true))
		c.Traces++
		var pe *goabnf.ParseError
		if is := errors.As(err, &pe); is == ch.Accepts() {
			c.Fail(t, "ParseABNF(%q): %v; is a parse error: %v, is valid ABNF: %v", t, err, is, ch.Accepts())
			continue
		}
		if pe != nil {
			checkParseError(c, t, fmt.Sprintf("ParseABNF(%q)", t), []byte(t), pe, ch.Furthest())
		}
		c.Outcome(fmt.Sprintf("abnf ok=%v", pe == nil))
	}
	c.AddRef(m.St.States, m.St.Transitions)
}

func init() {
	register(&Check{
		ID:        "C20",
		Rule:      "the parsing universe of C01 plus line-end grammars, on every input, and single-octet edits of ABNF texts through the ABNF reader; offset, expected terminals, line, column, found octet, hint and message of the diagnostic are recomputed by a top-down reachability model",
		Enumerate: c20Units,
	})
}
