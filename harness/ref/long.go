package ref

import mbits "math/bits"

// A second, slower chart without the 62-byte limit of Chart.

type bset []uint64

func newBset(n int) bset      { return make(bset, (n+64)/64) }
func (b bset) has(i int) bool { return b[i>>6]>>(uint(i)&63)&1 == 1 }
func (b bset) set(i int)      { b[i>>6] |= 1 << (uint(i) & 63) }
func (b bset) or(o bset) (c bool) {
	for i, v := range o {
		if n := b[i] | v; n != b[i] {
			b[i] = n
			c = true
		}
	}
	return c
}
func (b bset) empty() bool {
	for _, v := range b {
		if v != 0 {
			return false
		}
	}
	return true
}

type longChart struct {
	m    *Model
	in   []byte
	ends [][]bset
}

// AcceptsLong is Chart(in).Accepts() for inputs of any length.
func (m *Model) AcceptsLong(in []byte) bool {
	if m.acyclic == 0 {
		m.acyclic = 1
		if m.G.Cyclic(m.root) {
			m.acyclic = 2
		}
	}
	if len(in) <= 8 || len(in) <= 62 && m.acyclic == 2 {
		return m.Chart(in).Accepts()
	}
	c := &longChart{m: m, in: in}
	n := len(in)
	if m.acyclic == 1 {
		from := newBset(n)
		from.set(0)
		return c.fwdElem(Ref(m.root), from).has(n)
	}
	c.ends = make([][]bset, len(m.rules))
	for i := range c.ends {
		c.ends[i] = make([]bset, n+1)
		for j := range c.ends[i] {
			c.ends[i][j] = newBset(n)
		}
	}
	for changed := true; changed; {
		changed = false
		for ri, r := range m.rules {
			if r == nil {
				continue
			}
			for i := n; i >= 0; i-- {
				if c.ends[ri][i].or(c.alt(r.Alt, i)) {
					changed = true
				}
			}
		}
	}
	m.St.States += int64(len(m.rules) * (n + 1))
	return c.ends[0][0].has(n)
}

func (c *longChart) alt(a Alt, i int) bset {
	out := newBset(len(c.in))
	for _, cc := range a {
		cur := newBset(len(c.in))
		cur.set(i)
		for _, r := range cc {
			next := newBset(len(c.in))
			for p := i; p <= len(c.in); p++ {
				if cur.has(p) {
					next.or(c.rep(r, p))
				}
			}
			cur = next
			if cur.empty() {
				break
			}
		}
		out.or(cur)
	}
	return out
}

func (c *longChart) step(e *Elem, cur bset) bset {
	next := newBset(len(c.in))
	for p := 0; p <= len(c.in); p++ {
		if cur.has(p) {
			c.m.St.Transitions++
			c.elem(e, p, next)
		}
	}
	return next
}

func (c *longChart) rep(r Rep, i int) bset {
	n := len(c.in)
	out := newBset(n)
	if r.Max != Inf && r.Max < r.Min {
		return out
	}
	cur := newBset(n)
	cur.set(i)
	for k := 0; k < r.Min; k++ {
		cur = c.step(r.E, cur)
		if cur.empty() {
			return out
		}
	}
	out.or(cur)
	for k := r.Min; r.Max == Inf || k < r.Max; k++ {
		cur = c.step(r.E, cur)
		if !out.or(cur) {
			break
		}
	}
	return out
}

func (c *longChart) elem(e *Elem, i int, out bset) {
	switch e.K {
	case KRef:
		out.or(c.ends[c.m.idx[lower(e.Text)]][i])
	case KGroup:
		out.or(c.alt(e.Alt, i))
	case KOpt:
		out.set(i)
		out.or(c.alt(e.Alt, i))
	default:
		if j := matchTerm(e, c.in, i); j >= 0 {
			out.set(j)
		}
	}
}

// acyclic grammars need no fixpoint: the set of end positions is pushed forward
// through the grammar in one pass.
func (c *longChart) fwdAlt(a Alt, from bset) bset {
	out := newBset(len(c.in))
	for _, cc := range a {
		cur := from
		for _, r := range cc {
			if cur = c.fwdRep(r, cur); cur.empty() {
				break
			}
		}
		out.or(cur)
	}
	return out
}

func (c *longChart) fwdElem(e *Elem, from bset) bset {
	switch e.K {
	case KRef:
		r := c.m.rules[c.m.idx[lower(e.Text)]]
		if r == nil {
			return newBset(len(c.in))
		}
		return c.fwdAlt(r.Alt, from)
	case KGroup:
		return c.fwdAlt(e.Alt, from)
	case KOpt:
		out := c.fwdAlt(e.Alt, from)
		out.or(from)
		return out
	}
	out := newBset(len(c.in))
	for w, v := range from {
		for ; v != 0; v &= v - 1 {
			c.m.St.Transitions++
			if j := matchTerm(e, c.in, w<<6+mbits.TrailingZeros64(v)); j >= 0 {
				out.set(j)
			}
		}
	}
	return out
}

func (c *longChart) fwdRep(r Rep, from bset) bset {
	n := len(c.in)
	out := newBset(n)
	if r.Max != Inf && r.Max < r.Min {
		return out
	}
	cur := from
	for k := 0; k < r.Min; k++ {
		if cur = c.fwdElem(r.E, cur); cur.empty() {
			return out
		}
	}
	out.or(cur)
	for k := r.Min; r.Max == Inf || k < r.Max; k++ {
		next := c.fwdElem(r.E, cur)
		// only what is new can lead to anything new
		any := false
		for i := range next {
			next[i] &^= out[i]
			any = any || next[i] != 0
		}
		if !any {
			break
		}
		out.or(next)
		cur = next
	}
	return out
}
