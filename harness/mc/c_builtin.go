package main

import (
	"fmt"
	"math/big"
	"regexp"
	"sort"
	"strings"
	"unicode/utf8"

	goabnf "github.com/pandatix/go-abnf"

	"verif/harness/ref"
)

// ---- C26: the built-in grammars are those of the RFCs ------------------------------

// The core rules as RFC 5234 appendix B.1 prints them.
const coreText = `ALPHA          =  %x41-5A / %x61-7A
BIT            =  "0" / "1"
CHAR           =  %x01-7F
CR             =  %x0D
CRLF           =  CR LF
CTL            =  %x00-1F / %x7F
DIGIT          =  %x30-39
DQUOTE         =  %x22
HEXDIG         =  DIGIT / "A" / "B" / "C" / "D" / "E" / "F"
HTAB           =  %x09
LF             =  %x0A
LWSP           =  *(WSP / CRLF WSP)
OCTET          =  %x00-FF
SP             =  %x20
VCHAR          =  %x21-7E
WSP            =  SP / HTAB
`

func mustRead(text string) *ref.Grammar {
	v, _ := ref.Eval(text, false, true)
	if v.Kind != "ok" {
		panic("built-in text: " + v.Kind)
	}
	return v.Gram
}

// sameLanguage compares one built-in rule with the model on one input, in every engine.
func sameLanguage(c *Ctx, m *ref.Model, impl *goabnf.Grammar, rule string, in []byte) {
	ch := m.Chart(in)
	want := ch.Accepts()
	n, inf := big.NewInt(0), false
	if want {
		n, inf = ch.Count()
	}
	k := fmt.Sprintf("%s on %q", rule, in)
	c.Traces++
	ok, err := impl.IsValid(rule, in)
	if err != nil || ok != want {
		c.Fail(k, "IsValid of the built-in rule %s on %q: %v (%v), the RFC says %v", rule, in, ok, err, want)
	}
	for what, parse := range map[string]func() (forest, error){
		"ParseForest": func() (forest, error) { return goabnf.ParseForest(in, impl, rule) },
		"Parse":       func() (forest, error) { return goabnf.Parse(in, impl, rule) },
		"ParseBSR":    func() (forest, error) { return goabnf.ParseBSR(in, impl, rule) },
	} {
		f, err := parse()
		if err != nil {
			c.Fail(k, "%s of the built-in rule %s on %q: %v", what, rule, in, err)
			continue
		}
		got := f.NumTrees()
		if f.Valid() != want || inf != (got.Sign() < 0) || !inf && got.Cmp(n) != 0 {
			c.Fail(k, "%s of the built-in rule %s on %q: valid %v with %v trees, the RFC's rule gives valid %v with %v (infinitely many: %v)", what, rule, in, f.Valid(), got, want, n, inf)
		}
	}
	c.Outcome(fmt.Sprintf("valid=%v", want))
}

// derivedRoutes makes the regular expression and the transition graphs of a built-in rule
// and gives the function that compares them with the model on one input.
func derivedRoutes(c *Ctx, impl *goabnf.Grammar, rule string) func(*ref.Model, []byte) {
	c.Traces++
	re, err := impl.Regex(rule)
	if err != nil {
		c.Fail(rule, "Regex of the built-in rule %s: %v", rule, err)
		return func(*ref.Model, []byte) {}
	}
	rx, err := regexp.Compile(`\A(?:` + re + `)\z`)
	if err != nil {
		c.Fail(rule, "Regex of the built-in rule %s is %q: %v", rule, re, err)
		return func(*ref.Model, []byte) {}
	}
	var autos []*tgAuto
	for _, o := range []tgOpt{{true, true, true}, {true, false, false}, {false, false, false}} {
		c.Traces++
		tg, err := impl.TransitionGraph(rule, o.opts()...)
		if err != nil {
			c.Fail(rule, "TransitionGraph %s of the built-in rule %s: %v", o, rule, err)
			continue
		}
		a, why := readTG(tg)
		if why != "" {
			c.Fail(rule, "TransitionGraph %s of the built-in rule %s: malformed graph: %s", o, rule, why)
			continue
		}
		autos = append(autos, a)
	}
	return func(m *ref.Model, in []byte) {
		ch := m.Chart(in)
		want := ch.Accepts()
		k := fmt.Sprintf("%s on %q", rule, in)
		if utf8.Valid(in) {
			c.Traces++
			if rx.Match(in) != want {
				c.Fail(k, "Regex of the built-in rule %s is %q: matches %q = %v, the RFC says %v", rule, re, in, !want, want)
			}
		}
		for i, a := range autos {
			c.Traces++
			if a.accepts(in, ch) != want {
				c.Fail(k, "TransitionGraph %d of the built-in rule %s: an entry-to-end walk spells %q: %v, the RFC says %v", i, rule, in, !want, want)
			}
		}
	}
}

func c26Units(tier string, yield func(Unit) bool) {
	core := mustRead(crlf(coreText))
	empty := &goabnf.Grammar{Rulemap: map[string]*goabnf.Rule{}}
	var singles [][]byte
	for r := rune(0); r < 0x180; r++ {
		singles = append(singles, []byte(string(r)))
	}
	for b := 0x80; b < 0x100; b++ {
		singles = append(singles, []byte{byte(b)})
	}
	singles = append(singles, []byte("\uFFFD"), []byte("\uFFFF"), []byte("\U0010FFFF"), []byte("\u212A"), nil)
	tokens := []string{"A", "f", "0", "1", "9", " ", "\t", "\r", "\n", "\"", "\x7f", "\u0080", "\u00ff"}
	for _, r := range core.Rules {
		rule := r.Name
		if !yield(Unit{Desc: func() string { return "core rule " + rule }, Run: func(c *Ctx) {
			g := &ref.Grammar{Rules: append([]ref.Rule{}, core.Rules...)}
			m := ref.NewModel(g, rule)
			derived := derivedRoutes(c, empty, rule)
			each := func(in []byte) {
				sameLanguage(c, m, empty, rule, in)
				derived(m, in)
			}
			for _, in := range singles {
				each(in)
			}
			for n := 2; n <= 4; n++ {
				tokenSeqs(tokens, n, func(s string) { each([]byte(s)) })
			}
			// a grammar's own rule of that name takes its place, for what refers to it too
			for _, name := range []string{rule, strings.ToLower(rule)} {
				own := &ref.Grammar{Rules: []ref.Rule{{Name: "top", Alt: ref.AE(ref.Ref(rule))}, {Name: name, Alt: ref.AE(ref.Ch("own"))}}}
				impl := toImpl(own)
				for _, from := range []string{"top", rule, name} {
					om := ref.NewModel(own, from)
					derived := derivedRoutes(c, impl, from)
					for _, in := range append([][]byte{[]byte("own"), []byte("OWN"), []byte("ow"), []byte("\r\n")}, singles[:0x80]...) {
						sameLanguage(c, om, impl, from, in)
						derived(om, in)
					}
				}
			}
			for _, name := range []string{rule, strings.ToLower(rule), strings.ToUpper(rule[:1]) + strings.ToLower(rule[1:])} {
				if r := goabnf.GetRule(name, nil); r == nil || r.Name != rule {
					c.Fail(rule, "core rule %s is not found as %s", rule, name)
				}
			}
			c.AddRef(m.St.States, m.St.Transitions)
		}}) {
			return
		}
	}
	// the meta-grammar: RFC 5234 section 4 with the verified errata, and RFC 7405
	meta := mustRead(dataText("fixed-abnf"))
	toks := []string{"a", "0", "1", "\"", " ", "\t", "\r\n", "\r\n ", ";", "=", "=/", "/", "(", ")", "[", "]", "*", "%", "x", "b", "d", "s", "i", "-", ".", "<", ">", "~", "\x7f", "!", "F", "G", "2", "\n", "\r"}
	small := []string{"a", "1", "\"", " ", "\r\n", ";", "=", "/", "(", ")", "[", "]", "*", "%s", "%x", "-", ".", "<", ">"}
	names := []string{}
	for _, r := range meta.Rules {
		names = append(names, r.Name)
	}
	sort.Strings(names)
	if !yield(Unit{Desc: func() string { return "rules of the meta-grammar" }, Run: func(c *Ctx) {
		c.Traces++
		got := []string{}
		for k, r := range goabnf.ABNF.Rulemap {
			if k != r.Name {
				c.Fail("names", "the meta-grammar keeps rule %s under %s", r.Name, k)
			}
			got = append(got, r.Name)
		}
		sort.Strings(got)
		if strings.Join(got, " ") != strings.Join(names, " ") {
			c.Fail("names", "the meta-grammar has the rules %v, the RFCs have %v", got, names)
		}
		if err := goabnf.SemvalABNF(goabnf.ABNF); err != nil {
			c.Fail("semval", "the meta-grammar does not pass its own validation: %v", err)
		}
		for _, text := range []string{goabnf.ABNF.String(), goabnf.ABNF.PrettyPrint()} {
			g, err := goabnf.ParseABNF([]byte(text))
			if err != nil {
				c.Fail("print", "the printed meta-grammar is not read back: %v", err)
			} else if dumpImpl(g) != dumpImpl(goabnf.ABNF) {
				c.Fail("print", "the printed meta-grammar denotes another grammar")
			}
		}
	}}) {
		return
	}
	deep := 2
	if tier == "thorough" {
		deep = 3
	}
	for _, rule := range names {
		for _, first := range append([]string{""}, toks...) {
			if !yield(Unit{Desc: func() string { return fmt.Sprintf("meta-grammar rule %s, inputs from %q", rule, first) }, Run: func(c *Ctx) {
				m := ref.NewModel(meta, rule)
				if first == "" {
					sameLanguage(c, m, goabnf.ABNF, rule, nil)
					for _, in := range singles {
						sameLanguage(c, m, goabnf.ABNF, rule, in)
						// inside quotes, brackets and comments
						for _, w := range [][2]string{{"\"", "\""}, {"<", ">"}, {";", "\r\n"}, {"a", ""}, {"a=", "\r\n"}} {
							sameLanguage(c, m, goabnf.ABNF, rule, []byte(w[0]+string(in)+w[1]))
						}
					}
					return
				}
				for n := 1; n < deep; n++ {
					tokenSeqs(toks, n, func(s string) { sameLanguage(c, m, goabnf.ABNF, rule, []byte(first+s)) })
				}
				tokenSeqs(small, deep, func(s string) { sameLanguage(c, m, goabnf.ABNF, rule, []byte(first+s)) })
				c.AddRef(m.St.States, m.St.Transitions)
			}}) {
				return
			}
		}
	}
}

func init() {
	register(&Check{
		ID:        "C26",
		Rule:      "every core rule on every character up to U+017F, every stray octet and all sequences of up to four of thirteen characters, by recognition, both parses, regular expression and transition graphs, and with a rule of the grammar's own in its place; every rule of the ABNF meta-grammar on all sequences of up to two of 35 tokens, and of three with the last two of 19 (thorough: one more); validity and number of trees in each engine against the RFCs' own text read by the reference reader",
		Enumerate: c26Units,
	})
}
