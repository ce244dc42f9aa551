package ref

import (
	"math/big"
	"strings"
)

// A direct reader of ABNF text (RFC 5234 section 4 with errata 3076 and
// RFC 7405): recursive descent over the characters, independent of the
// implementation's meta-grammar and parsing engines.

// Def is one rule definition of a rulelist.
type Def struct {
	Name string
	Op   string // "=" or "=/"
	Alt  Alt
}

type reader struct {
	s  string
	p  int
	ok bool
}

// ReadABNF parses text as a rulelist; ok is false when it is not one. Num-val
// elements keep their digits in Digits (see Elem).
func ReadABNF(s string) ([]Def, bool) {
	r := &reader{s: s, ok: true}
	var defs []Def
	n := 0
	for r.ok && r.p < len(s) {
		if isAlpha(s[r.p]) {
			d := r.rule()
			defs = append(defs, d)
		} else {
			for r.wsp() {
			}
			if !r.cnl() {
				return nil, false
			}
		}
		n++
	}
	return defs, r.ok && n > 0
}

func isAlpha(c byte) bool { return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' }
func isDigit(c byte) bool { return c >= '0' && c <= '9' }

func (r *reader) peek() byte {
	if r.p < len(r.s) {
		return r.s[r.p]
	}
	return 0
}
func (r *reader) eat(c byte) bool {
	if r.p < len(r.s) && r.s[r.p] == c {
		r.p++
		return true
	}
	return false
}
func (r *reader) wsp() bool { return r.eat(' ') || r.eat('\t') }
func (r *reader) crlf() bool {
	if strings.HasPrefix(r.s[r.p:], "\r\n") {
		r.p += 2
		return true
	}
	return false
}

// cnl: c-nl = comment / CRLF
func (r *reader) cnl() bool {
	st := r.p
	if r.eat(';') {
		for r.p < len(r.s) && (r.s[r.p] == ' ' || r.s[r.p] == '\t' || r.s[r.p] >= 0x21 && r.s[r.p] <= 0x7E) {
			r.p++
		}
		if r.crlf() {
			return true
		}
		r.p = st
		return false
	}
	return r.crlf()
}

// cwsp: c-wsp = WSP / (c-nl WSP)
func (r *reader) cwsp() bool {
	if r.wsp() {
		return true
	}
	st := r.p
	if r.cnl() && r.wsp() {
		return true
	}
	r.p = st
	return false
}

func (r *reader) name() string {
	st := r.p
	if !isAlpha(r.peek()) {
		r.ok = false
		return ""
	}
	for r.p < len(r.s) && (isAlpha(r.s[r.p]) || isDigit(r.s[r.p]) || r.s[r.p] == '-') {
		r.p++
	}
	return r.s[st:r.p]
}

func (r *reader) rule() Def {
	d := Def{Name: r.name(), Op: "="}
	for r.cwsp() {
	}
	if !r.eat('=') {
		r.ok = false
		return d
	}
	if r.eat('/') {
		d.Op = "=/"
	}
	for r.cwsp() {
	}
	d.Alt = r.alternation()
	for r.wsp() {
	}
	if r.ok && !r.cnl() {
		r.ok = false
	}
	return d
}

func (r *reader) alternation() Alt {
	a := Alt{r.concatenation()}
	for r.ok {
		st := r.p
		for r.cwsp() {
		}
		if !r.eat('/') {
			r.p = st
			break
		}
		for r.cwsp() {
		}
		a = append(a, r.concatenation())
	}
	return a
}

func startsRepetition(c byte) bool {
	return isAlpha(c) || isDigit(c) || c == '*' || c == '(' || c == '[' || c == '"' || c == '%' || c == '<'
}

func (r *reader) concatenation() Concat {
	c := Concat{r.repetition()}
	for r.ok {
		st := r.p
		for r.cwsp() {
		}
		if r.p == st || !startsRepetition(r.peek()) {
			r.p = st
			break
		}
		c = append(c, r.repetition())
	}
	return c
}

func (r *reader) digits(ok func(byte) bool) string {
	st := r.p
	for r.p < len(r.s) && ok(r.s[r.p]) {
		r.p++
	}
	return r.s[st:r.p]
}

// clampInt reads a decimal count, saturating.
func clampInt(s string) int {
	n := 0
	for i := 0; i < len(s); i++ {
		d := int(s[i] - '0')
		if n > (int(^uint(0)>>1)-d)/10 {
			return int(^uint(0) >> 1)
		}
		n = n*10 + d
	}
	return n
}

func (r *reader) repetition() Rep {
	rep := Rep{Min: 1, Max: 1}
	lo := r.digits(isDigit)
	if r.eat('*') {
		hi := r.digits(isDigit)
		rep.Min, rep.Max = 0, Inf
		if lo != "" {
			rep.Min = clampInt(lo)
		}
		if hi != "" {
			rep.Max = clampInt(hi)
		}
	} else if lo != "" {
		rep.Min = clampInt(lo)
		rep.Max = rep.Min
	}
	rep.E = r.element()
	return rep
}

func (r *reader) quoted() string {
	if !r.eat('"') {
		r.ok = false
		return ""
	}
	st := r.p
	for r.p < len(r.s) && r.s[r.p] >= 0x20 && r.s[r.p] <= 0x7E && r.s[r.p] != '"' {
		r.p++
	}
	t := r.s[st:r.p]
	if !r.eat('"') {
		r.ok = false
	}
	return t
}

func (r *reader) element() *Elem {
	bad := &Elem{K: KChar}
	c := r.peek()
	switch {
	case isAlpha(c):
		return Ref(r.name())
	case c == '(' || c == '[':
		r.p++
		for r.cwsp() {
		}
		a := r.alternation()
		for r.cwsp() {
		}
		if c == '(' {
			if !r.eat(')') {
				r.ok = false
			}
			return Grp(a)
		}
		if !r.eat(']') {
			r.ok = false
		}
		return Opt(a)
	case c == '"':
		return Ch(r.quoted())
	case c == '<':
		r.p++
		st := r.p
		for r.p < len(r.s) && r.s[r.p] >= 0x20 && r.s[r.p] <= 0x7E && r.s[r.p] != '>' {
			r.p++
		}
		t := r.s[st:r.p]
		if !r.eat('>') {
			r.ok = false
		}
		return Prose(t)
	case c == '%':
		r.p++
		k := lower(string([]byte{r.peek()}))
		if r.p < len(r.s) {
			r.p++
		}
		switch k {
		case "s":
			return Cs(r.quoted())
		case "i":
			return Ch(r.quoted())
		case "b":
			return r.num(k, 2, func(c byte) bool { return c == '0' || c == '1' })
		case "d":
			return r.num(k, 10, isDigit)
		case "x":
			return r.num(k, 16, func(c byte) bool { return isDigit(c) || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F' })
		}
	}
	r.ok = false
	return bad
}

// NumCap is the value every numeral at or above it is read as.
const NumCap = 1 << 40

func (r *reader) num(base string, radix int, dig func(byte) bool) *Elem {
	e := &Elem{K: KSeries, Base: base}
	one := func() bool {
		d := r.digits(dig)
		if d == "" {
			r.ok = false
			return false
		}
		v, _ := new(big.Int).SetString(d, radix)
		if v.Cmp(big.NewInt(NumCap)) >= 0 {
			v = big.NewInt(NumCap)
		}
		e.Vals = append(e.Vals, v.Int64())
		return true
	}
	if !one() {
		return e
	}
	if r.eat('-') {
		e.K = KRange
		one()
		return e
	}
	for r.ok && r.eat('.') {
		one()
	}
	return e
}

// ---- evaluation of a rulelist into a grammar --------------------------------

// Verdict is what reading a text as a grammar must give.
type Verdict struct {
	Kind  string          // ok | syntax | coremod | dup | rulenf | dep | reps | num
	Names map[string]bool // the names/values an error may carry (lower-cased)
	Gram  *Grammar        // when ok
}

// Eval evaluates the definitions in order, as RFC 5234 section 3.3 and the
// library's documentation say: "=" defines, "=/" extends, core rules are
// protected unless redefine is set. The validation errors (dep, reps, num) are
// reported only when validate is set; when several apply, Kinds in Also may be
// reported instead.
func Eval(text string, validate, redefine bool) (v Verdict, also map[string]bool) {
	defs, ok := ReadABNF(text)
	if !ok {
		return Verdict{Kind: "syntax"}, nil
	}
	g := &Grammar{}
	for _, d := range defs {
		core := coreRule(d.Name)
		if core != nil && !redefine {
			return Verdict{Kind: "coremod", Names: map[string]bool{lower(d.Name): true}}, nil
		}
		own := g.Find(d.Name)
		switch d.Op {
		case "=":
			if own != nil {
				return Verdict{Kind: "dup", Names: map[string]bool{lower(d.Name): true}}, nil
			}
			g.Rules = append(g.Rules, Rule{d.Name, d.Alt})
		case "=/":
			switch {
			case own != nil:
				own.Alt = append(append(Alt{}, own.Alt...), d.Alt...)
			case core != nil:
				g.Rules = append(g.Rules, Rule{core.Name, append(append(Alt{}, core.Alt...), d.Alt...)})
			default:
				return Verdict{Kind: "rulenf", Names: map[string]bool{lower(d.Name): true}}, nil
			}
		}
	}
	if validate {
		deps := map[string]bool{}
		reps, num := false, false
		for _, r := range g.Rules {
			walkElems(r.Alt, func(rep Rep) {
				if rep.Max != Inf && rep.Min > rep.Max {
					reps = true
				}
				e := rep.E
				switch e.K {
				case KRef:
					if g.Lookup(e.Text) == nil {
						deps[lower(e.Text)] = true
					}
				case KRange, KSeries:
					for _, x := range e.Vals {
						if x > 0x10FFFF {
							num = true
						}
					}
				}
			})
		}
		if len(deps) > 0 {
			return Verdict{Kind: "dep", Names: deps}, nil
		}
		if reps || num {
			also = map[string]bool{"reps": reps, "num": num}
			if reps {
				return Verdict{Kind: "reps"}, also
			}
			return Verdict{Kind: "num"}, also
		}
	}
	return Verdict{Kind: "ok", Gram: g}, nil
}

func walkElems(a Alt, f func(Rep)) {
	for _, c := range a {
		for _, r := range c {
			f(r)
			if r.E.K == KGroup || r.E.K == KOpt {
				walkElems(r.E.Alt, f)
			}
		}
	}
}

// WalkReps calls f on every repetition, nested ones included.
func (a Alt) WalkReps(f func(Rep)) { walkElems(a, f) }
