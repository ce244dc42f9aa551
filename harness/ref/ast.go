// Package ref is the independent reference model of ABNF used by every check:
// a plain AST for grammars, and boring, obviously-correct definitions of
// derivability, derivation counting and viable prefixes over it. It shares no
// code with the implementation under test.
package ref

import (
	"fmt"
	"strconv"
	"strings"
	"unicode/utf8"
)

const Inf = -1

type Kind int

const (
	KChar   Kind = iota // char-val
	KRange              // num-val range
	KSeries             // num-val series
	KProse              // prose-val
	KRef                // rulename
	KGroup
	KOpt
)

// Elem is an ABNF element.
type Elem struct {
	K    Kind
	Text string // KChar: the characters ; KRef: the name ; KProse: the text
	Sens bool   // KChar
	Base string // KRange/KSeries: b, d or x
	Vals []int64
	Sp   int // KRange/KSeries: how numerals are spelled (0 canonical, 1 zero-padded, 2 lower-case hex, 3 padded beyond 64 bits)
	Alt  Alt // KGroup/KOpt
}

type Rep struct {
	Min, Max int
	E        *Elem
}
type Concat []Rep
type Alt []Concat
type Rule struct {
	Name string
	Alt  Alt
}

// Grammar is a list of rules; the first one is the root.
type Grammar struct {
	Rules []Rule
	// RootAs, if set, is how callers spell the root's name.
	RootAs string
}

func (g *Grammar) Root() string {
	if g.RootAs != "" {
		return g.RootAs
	}
	return g.Rules[0].Name
}

func (g *Grammar) Find(name string) *Rule {
	for i := range g.Rules {
		if FoldEq(g.Rules[i].Name, name) {
			return &g.Rules[i]
		}
	}
	return nil
}

func lower(s string) string {
	b := []byte(s)
	for i, c := range b {
		if c >= 'A' && c <= 'Z' {
			b[i] = c + 32
		}
	}
	return string(b)
}

func FoldEq(a, b string) bool { return lower(a) == lower(b) }

// ---- constructors -------------------------------------------------------

func Ch(s string) *Elem      { return &Elem{K: KChar, Text: s} }
func Cs(s string) *Elem      { return &Elem{K: KChar, Text: s, Sens: true} }
func Ref(n string) *Elem     { return &Elem{K: KRef, Text: n} }
func Prose(s string) *Elem   { return &Elem{K: KProse, Text: s} }
func Rng(lo, hi int64) *Elem { return &Elem{K: KRange, Base: "x", Vals: []int64{lo, hi}} }
func Ser(v ...int64) *Elem   { return &Elem{K: KSeries, Base: "x", Vals: v} }
func Grp(a Alt) *Elem        { return &Elem{K: KGroup, Alt: a} }
func Opt(a Alt) *Elem        { return &Elem{K: KOpt, Alt: a} }
func One(e *Elem) Rep        { return Rep{1, 1, e} }
func R(min, max int, e *Elem) Rep {
	return Rep{min, max, e}
}
func C(es ...*Elem) Concat {
	c := Concat{}
	for _, e := range es {
		c = append(c, One(e))
	}
	return c
}
func A(cs ...Concat) Alt { return Alt(cs) }
func AE(es ...*Elem) Alt { // alternation of single elements
	a := Alt{}
	for _, e := range es {
		a = append(a, C(e))
	}
	return a
}
func G1(name string, a Alt) *Grammar { return &Grammar{Rules: []Rule{{name, a}}} }

// ---- rendering as canonical ABNF text ------------------------------------

func (e *Elem) String() string {
	switch e.K {
	case KChar:
		if e.Sens {
			return `%s"` + e.Text + `"`
		}
		return `"` + e.Text + `"`
	case KRange, KSeries:
		sep := "."
		if e.K == KRange {
			sep = "-"
		}
		parts := []string{}
		for _, v := range e.Vals {
			parts = append(parts, e.Num(v))
		}
		return "%" + e.Base + strings.Join(parts, sep)
	case KProse:
		return "<" + e.Text + ">"
	case KRef:
		return e.Text
	case KGroup:
		return "(" + e.Alt.String() + ")"
	case KOpt:
		return "[" + e.Alt.String() + "]"
	}
	panic("kind")
}

// Num spells one of e's values.
func (e *Elem) Num(v int64) string {
	s := NumStr(v, e.Base)
	switch e.Sp {
	case 1:
		return "00" + s
	case 2:
		return lower(s)
	case 3:
		return strings.Repeat("0", 70) + s
	}
	return s
}

func NumStr(v int64, base string) string {
	switch lower(base) {
	case "b":
		return strconv.FormatInt(v, 2)
	case "d":
		return strconv.FormatInt(v, 10)
	}
	return strings.ToUpper(strconv.FormatInt(v, 16))
}

func RepStr(min, max int) string {
	switch {
	case min == 1 && max == 1:
		return ""
	case min == max:
		return strconv.Itoa(min)
	}
	s := ""
	if min != 0 {
		s += strconv.Itoa(min)
	}
	s += "*"
	if max != Inf {
		s += strconv.Itoa(max)
	}
	return s
}

func (r Rep) String() string { return RepStr(r.Min, r.Max) + r.E.String() }

func (c Concat) String() string {
	p := []string{}
	for _, r := range c {
		p = append(p, r.String())
	}
	return strings.Join(p, " ")
}

func (a Alt) String() string {
	p := []string{}
	for _, c := range a {
		p = append(p, c.String())
	}
	return strings.Join(p, " / ")
}

// Text renders the grammar, one rule per line, CRLF.
func (g *Grammar) Text() string {
	var b strings.Builder
	for _, r := range g.Rules {
		fmt.Fprintf(&b, "%s = %s\r\n", r.Name, r.Alt.String())
	}
	return b.String()
}

// Short is a one-line description.
func (g *Grammar) Short() string {
	return strings.TrimSuffix(strings.ReplaceAll(g.Text(), "\r\n", " ; "), " ; ")
}

// Weight counts AST nodes.
func (a Alt) Weight() int {
	n := 0
	for _, c := range a {
		for _, r := range c {
			n++
			if r.E.K == KGroup || r.E.K == KOpt {
				n += r.E.Alt.Weight()
			}
		}
	}
	return n
}

// ---- terminal languages ---------------------------------------------------

// foldB folds an ASCII upper-case letter.
func foldR(r rune) rune {
	if r >= 'A' && r <= 'Z' {
		return r + 32
	}
	return r
}

// decode returns the next character of in, ok=false when in does not start
// with a well-formed UTF-8 character.
func decode(in []byte) (rune, int, bool) {
	if len(in) == 0 {
		return 0, 0, false
	}
	r, sz := utf8.DecodeRune(in)
	if r == utf8.RuneError && sz <= 1 {
		return 0, 0, false
	}
	return r, sz, true
}

// matchTerm returns the end offset when the terminal matches at i, or -1.
func matchTerm(e *Elem, in []byte, i int) int {
	switch e.K {
	case KChar:
		for _, want := range []rune(e.Text) {
			got, sz, ok := decode(in[i:])
			if !ok {
				return -1
			}
			if e.Sens && got != want {
				return -1
			}
			if !e.Sens && foldR(got) != foldR(want) {
				return -1
			}
			i += sz
		}
		return i
	case KRange:
		got, sz, ok := decode(in[i:])
		if !ok || int64(got) < e.Vals[0] || int64(got) > e.Vals[1] {
			return -1
		}
		return i + sz
	case KSeries:
		for _, v := range e.Vals {
			got, sz, ok := decode(in[i:])
			if !ok || int64(got) != v {
				return -1
			}
			i += sz
		}
		return i
	}
	return -1
}

// termProductive: the terminal's language is non-empty.
func termProductive(e *Elem) bool {
	switch e.K {
	case KChar:
		return true
	case KRange:
		lo, hi := e.Vals[0], e.Vals[1]
		if hi > utf8.MaxRune {
			hi = utf8.MaxRune
		}
		for v := lo; v <= hi; v++ {
			if utf8.ValidRune(rune(v)) {
				return true
			}
			if v >= 0xD800 && v < 0xDFFF {
				v = 0xDFFF - 1
			}
		}
		return false
	case KSeries:
		for _, v := range e.Vals {
			if v > utf8.MaxRune || !utf8.ValidRune(rune(v)) {
				return false
			}
		}
		return true
	}
	return false
}

// CoreRules is RFC 5234 appendix B.1, written out by hand as a reference
// grammar.
var CoreRules = []Rule{
	{"ALPHA", AE(Rng(0x41, 0x5A), Rng(0x61, 0x7A))},
	{"BIT", AE(Ch("0"), Ch("1"))},
	{"CHAR", AE(Rng(0x01, 0x7F))},
	{"CR", AE(Ser(0x0D))},
	{"CRLF", A(C(Ref("CR"), Ref("LF")))},
	{"CTL", AE(Rng(0x00, 0x1F), Ser(0x7F))},
	{"DIGIT", AE(Rng(0x30, 0x39))},
	{"DQUOTE", AE(Ser(0x22))},
	{"HEXDIG", AE(Ref("DIGIT"), Ch("A"), Ch("B"), Ch("C"), Ch("D"), Ch("E"), Ch("F"))},
	{"HTAB", AE(Ser(0x09))},
	{"LF", AE(Ser(0x0A))},
	{"LWSP", A(Concat{R(0, Inf, Grp(A(C(Ref("WSP")), C(Ref("CRLF"), Ref("WSP")))))})},
	{"OCTET", AE(Rng(0x00, 0xFF))},
	{"SP", AE(Ser(0x20))},
	{"VCHAR", AE(Rng(0x21, 0x7E))},
	{"WSP", AE(Ref("SP"), Ref("HTAB"))},
}

func coreRule(name string) *Rule {
	for i := range CoreRules {
		if FoldEq(CoreRules[i].Name, name) {
			return &CoreRules[i]
		}
	}
	return nil
}

// Lookup resolves a rule name: the grammar's own rules first, then the core
// rules.
func (g *Grammar) Lookup(name string) *Rule {
	if r := g.Find(name); r != nil {
		return r
	}
	return coreRule(name)
}

// MatchTerm returns the end offset when the terminal matches at i, or -1.
func MatchTerm(e *Elem, in []byte, i int) int { return matchTerm(e, in, i) }

// TermProductive: the terminal's language is non-empty.
func TermProductive(e *Elem) bool { return termProductive(e) }
