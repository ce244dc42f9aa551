package main

import (
	"fmt"
	"strings"

	goabnf "github.com/pandatix/go-abnf"

	"verif/harness/ref"
)

// ---- every choice is within reach of some tape (C11, C12) -------------------------
//
// A choice among n takes as many tape octets as n needs. For one choice among n,
// with n around every power of 256, the choices at the edges must be made by some
// tape: the obvious encodings are tried first, then all tapes of up to 3 octets.

// sparseChoice: one range of n characters, or n alternatives.
func sparseChoice(n int64, alts bool) (*ref.Grammar, func(v int64) string) {
	const lo = 0x20000 // no gap above
	if n > 0xF0000-lo {
		return ref.G1("r", ref.AE(ref.Rng(0x0, n-1))), func(v int64) string {
			if v >= 0xD800 {
				v += 0x800
			}
			return string(rune(v))
		}
	}
	if !alts {
		return ref.G1("r", ref.AE(ref.Rng(lo, lo+n-1))), func(v int64) string { return string(rune(lo + v)) }
	}
	var a ref.Alt
	for i := int64(0); i < n; i++ {
		a = append(a, ref.C(ref.Ser(lo+i)))
	}
	return ref.G1("r", a), func(v int64) string { return string(rune(lo + v)) }
}

func tapeReach(c *Ctx, desc string, n int64, word func(int64) string, gens map[string]func([]byte) []byte) {
	for name, gen := range gens {
		for _, v := range []int64{0, 1, 127, 128, 254, 255, 256, 257, 511, 512, 65279, 65280, 65535, 65536, 65537, n / 2, n - 2, n - 1} {
			if v < 0 || v >= n {
				continue
			}
			want, found := word(v), false
			try := func(t []byte) bool {
				c.Traces++
				found = found || string(gen(t)) == want
				return found
			}
			for w := 1; w <= 4 && !found; w++ {
				t, u := make([]byte, w), v
				for i := w - 1; i >= 0; i-- {
					t[i], u = byte(u), u>>8
				}
				try(t)
			}
			for w := 1; w <= 3 && !found; w++ {
				for x := 0; x < 1<<(8*w) && !found; x++ {
					t := make([]byte, w)
					for i := range t {
						t[i] = byte(x >> (8 * i))
					}
					try(t)
				}
			}
			if !found {
				c.Fail(fmt.Sprintf("%s %s choice %d", desc, name, v), "%s: no tape of up to 3 octets makes %s choose number %d of %d", desc, name, v, n)
				return
			}
			c.Outcome("choice reached")
		}
	}
}

func reachUnits(recursive bool, yield func(Unit) bool) bool {
	for _, n := range []int64{2, 3, 127, 128, 255, 256, 257, 258, 510, 511, 512, 513, 767, 768, 65279, 65280, 65281, 65534, 65535, 65536, 65537, 65538, 65791, 65792, 65793, 66000, 131072, 0x10F800} {
		for _, alts := range []bool{false, true} {
			if alts && n > 1000 {
				continue
			}
			desc := fmt.Sprintf("one choice among %d (alternatives: %v)", n, alts)
			if !yield(Unit{Desc: func() string { return desc }, Run: func(c *Ctx) {
				g, word := sparseChoice(n, alts)
				if n == 0x10F800 {
					g = ref.G1("r", ref.AE(ref.Rng(0, 0x10FFFF)))
				}
				impl := toImpl(g)
				gens := map[string]func([]byte) []byte{}
				if recursive {
					a, err := goabnf.NewASTGenerator(impl, "r")
					if err != nil {
						c.Fail(desc, "NewASTGenerator on %s: %v", desc, err)
						return
					}
					gens["the recursive generator"] = a.Generate
				} else {
					tg, err := impl.TransitionGraph("r")
					if err != nil {
						c.Fail(desc, "TransitionGraph of %s: %v", desc, err)
						return
					}
					p, err := goabnf.NewGenerator(tg)
					if err != nil {
						c.Fail(desc, "NewGenerator on %s: %v", desc, err)
						return
					}
					s, err := goabnf.NewGenerator(tg, goabnf.WithStableAddressing())
					if err != nil {
						c.Fail(desc, "NewGenerator on %s: %v", desc, err)
						return
					}
					gens["the graph generator"] = p.Generate
					// an entry choice of one takes no slot, so the value is the first
					gens["the graph generator with stable slots"] = s.Generate
				}
				tapeReach(c, desc, n, word, gens)
			}}) {
				return false
			}
		}
	}
	// every casing of a literal
	for _, n := range []int{1, 2, 5, 7, 8, 9, 10, 12, 15} {
		desc := fmt.Sprintf("the casings of a literal of %d letters", n)
		if !yield(Unit{Desc: func() string { return desc }, Run: func(c *Ctx) {
			lit := "abCdeFghijKlmno"[:n]
			impl := toImpl(ref.G1("r", ref.AE(ref.Ch(lit))))
			gens := map[string]func([]byte) []byte{}
			if recursive {
				a, err := goabnf.NewASTGenerator(impl, "r")
				if err != nil {
					c.Fail(desc, "NewASTGenerator on %s: %v", lit, err)
					return
				}
				gens["the recursive generator"] = a.Generate
			} else {
				tg, err := impl.TransitionGraph("r", goabnf.WithDeflateCharVals(false))
				if err != nil {
					c.Fail(desc, "TransitionGraph of %s: %v", lit, err)
					return
				}
				p, err := goabnf.NewGenerator(tg)
				s, err2 := goabnf.NewGenerator(tg, goabnf.WithStableAddressing())
				if err != nil || err2 != nil {
					c.Fail(desc, "NewGenerator on %s: %v %v", lit, err, err2)
					return
				}
				gens["the graph generator"] = p.Generate
				gens["the graph generator with stable slots"] = s.Generate
			}
			for name, gen := range gens {
				got := map[string]bool{}
				try := func(t []byte) {
					c.Traces++
					got[string(gen(t))] = true
				}
				for v := 0; v < 1<<n; v++ {
					bits := make([]byte, n)
					for i := range bits {
						bits[i] = byte(v >> i & 1)
					}
					try(bits)
					try([]byte{byte(v)})
					try([]byte{byte(v >> 8), byte(v)})
					try([]byte{0, 0, byte(v >> 8), byte(v)})
				}
				if len(got) != 1<<n {
					c.Fail(desc+" "+name, "%s makes %d of the %d casings of %q over all tapes of %d bits", name, len(got), 1<<n, lit, n)
				}
				for w := range got {
					if !strings.EqualFold(w, lit) {
						c.Fail(desc+" "+name, "%s makes %q of %q", name, w, lit)
						break
					}
				}
				c.Outcome("casings reached")
			}
		}}) {
			return false
		}
	}
	return true
}

// withUnits puts extra units before those of an enumeration.
func withUnits(extra func(func(Unit) bool) bool, rest func(string, func(Unit) bool)) func(string, func(Unit) bool) {
	return func(tier string, yield func(Unit) bool) {
		if extra(yield) {
			rest(tier, yield)
		}
	}
}

// own watches that an answer stays the caller's own: a later call must not change
// it, and what the caller writes into it must not change a later answer.
type own struct {
	last []byte
	copy string
}

// next hands over the answer of one more call and says what is wrong with the one
// before, which is then written over.
func (o *own) next(b []byte) string {
	bad := ""
	if string(o.last) != o.copy {
		bad = fmt.Sprintf("%q has become %q after a later call", clip([]byte(o.copy)), clip(o.last))
	}
	keep := string(b)
	last := o.last
	for i := range last {
		last[i] ^= 0x55
	}
	if string(b) != keep {
		bad = fmt.Sprintf("writing to one answer changes the next, %q", clip([]byte(keep)))
		copy(b, keep)
	}
	o.last, o.copy = b, keep
	return bad
}
