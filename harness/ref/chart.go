package ref

import (
	"math/big"
)

// Stats counts the reference model's work: States are chart items (a grammar
// node at an input position), Transitions are the derivation steps evaluated
// over them.
type Stats struct{ States, Transitions int64 }

// Model is the grammar compiled for repeated queries. Rules are resolved once;
// the root is rule 0 of the compiled list.
type Model struct {
	G       *Grammar
	rules   []*Rule
	idx     map[string]int
	root    string
	acyclic int // 0 unknown, 1 yes, 2 no
	St      Stats
}

// NewModel compiles g. root selects the start rule.
func NewModel(g *Grammar, root string) *Model {
	m := &Model{G: g, idx: map[string]int{}, root: root}
	var need func(name string)
	var walk func(a Alt)
	walk = func(a Alt) {
		for _, c := range a {
			for _, r := range c {
				switch r.E.K {
				case KRef:
					need(r.E.Text)
				case KGroup, KOpt:
					walk(r.E.Alt)
				}
			}
		}
	}
	need = func(name string) {
		k := lower(name)
		if _, ok := m.idx[k]; ok {
			return
		}
		r := g.Lookup(name)
		m.idx[k] = len(m.rules)
		m.rules = append(m.rules, r)
		if r != nil {
			walk(r.Alt)
		}
	}
	need(root)
	return m
}

// bits is a set of end offsets; inputs are at most 63 bytes long.
type bits = uint64

// Chart holds derivability for one input: ends[rule][i] is the exact set of
// offsets j such that the rule derives in[i:j].
type Chart struct {
	m    *Model
	in   []byte
	ends [][]bits
}

// Chart computes the least fixpoint of the derivability relation.
func (m *Model) Chart(in []byte) *Chart {
	if len(in) > 62 {
		panic("input too long for the reference model")
	}
	c := &Chart{m: m, in: in}
	c.ends = make([][]bits, len(m.rules))
	for i := range c.ends {
		c.ends[i] = make([]bits, len(in)+1)
	}
	for changed := true; changed; {
		changed = false
		for ri, r := range m.rules {
			if r == nil {
				continue
			}
			for i := len(in); i >= 0; i-- {
				e := c.alt(r.Alt, i)
				if e != c.ends[ri][i] {
					c.ends[ri][i] = e
					changed = true
				}
			}
		}
	}
	m.St.States += int64(len(m.rules) * (len(in) + 1))
	return c
}

func (c *Chart) alt(a Alt, i int) bits {
	var out bits
	for _, cc := range a {
		out |= c.concat(cc, i)
	}
	return out
}

func (c *Chart) concat(cc Concat, i int) bits {
	cur := bits(1) << uint(i)
	for _, r := range cc {
		var next bits
		for p := 0; p <= len(c.in); p++ {
			if cur>>uint(p)&1 == 1 {
				next |= c.rep(r, p)
			}
		}
		cur = next
	}
	return cur
}

func (c *Chart) step(e *Elem, cur bits) bits {
	var next bits
	for p := 0; p <= len(c.in); p++ {
		if cur>>uint(p)&1 == 1 {
			next |= c.elem(e, p)
		}
	}
	return next
}

func (c *Chart) rep(r Rep, i int) bits {
	if r.Max != Inf && r.Max < r.Min {
		return 0
	}
	if r.Min == 1 && r.Max == 1 {
		return c.elem(r.E, i)
	}
	cur := bits(1) << uint(i)
	for k := 0; k < r.Min; k++ {
		nx := c.step(r.E, cur)
		if nx == cur {
			break // stationary from here on
		}
		cur = nx
	}
	// union over 0 <= extra <= max-min
	all := cur
	for k := 0; r.Max == Inf || k < r.Max-r.Min; k++ {
		nx := cur | c.step(r.E, all)
		if nx == all {
			break
		}
		all = nx
	}
	return all
}

func (c *Chart) elem(e *Elem, i int) bits {
	c.m.St.Transitions++
	switch e.K {
	case KRef:
		return c.ends[c.m.idx[lower(e.Text)]][i]
	case KGroup:
		return c.alt(e.Alt, i)
	case KOpt:
		return c.alt(e.Alt, i) | bits(1)<<uint(i)
	}
	if j := matchTerm(e, c.in, i); j >= 0 {
		return bits(1) << uint(j)
	}
	return 0
}

// Accepts reports whether the root derives the whole input.
func (c *Chart) Accepts() bool { return c.ends[0][0]>>uint(len(c.in))&1 == 1 }

// Derives reports whether rule name derives in[i:j].
func (c *Chart) Derives(name string, i, j int) bool {
	ri, ok := c.m.idx[lower(name)]
	return ok && c.ends[ri][i]>>uint(j)&1 == 1
}

// ---------------------------------------------------------------------------
// Derivation counting
// ---------------------------------------------------------------------------

// A derivation chooses, at every rule/group one alternative, at every option
// absence or one alternative, and at every repetition an ordered list of
// between Min and Max element derivations. Count is the number of distinct
// derivations of the whole input; infinite=true when there is no finite number.

type ckey struct {
	node any // *Elem, *Rule or a (concat/rep position) pointer
	sub  int // alternative / symbol index
	cnt  int // repetition count, saturated
	i, j int
}

type counter struct {
	c       *Chart
	memo    map[ckey]*big.Int
	onstack map[ckey]bool
	inf     bool
}

// Count returns the number of derivations, or infinite=true.
func (c *Chart) Count() (n *big.Int, infinite bool) {
	if !c.Accepts() {
		return big.NewInt(0), false
	}
	k := &counter{c: c, memo: map[ckey]*big.Int{}, onstack: map[ckey]bool{}}
	n = k.rule(0, 0, len(c.in))
	c.m.St.States += int64(len(k.memo))
	if k.inf {
		return nil, true
	}
	return n, false
}

func (k *counter) guarded(key ckey, f func() *big.Int) *big.Int {
	if v, ok := k.memo[key]; ok {
		return v
	}
	if k.onstack[key] {
		k.inf = true
		return big.NewInt(1)
	}
	k.onstack[key] = true
	v := f()
	delete(k.onstack, key)
	k.memo[key] = v
	return v
}

func has(b bits, j int) bool { return b>>uint(j)&1 == 1 }

func (k *counter) rule(ri, i, j int) *big.Int {
	r := k.c.m.rules[ri]
	return k.guarded(ckey{node: r, i: i, j: j}, func() *big.Int { return k.alt(r.Alt, i, j) })
}

func (k *counter) alt(a Alt, i, j int) *big.Int {
	t := big.NewInt(0)
	for _, cc := range a {
		if has(k.c.concat(cc, i), j) {
			t.Add(t, k.concat(cc, 0, i, j))
		}
	}
	return t
}

// concat counts derivations of cc[from:] over [i,j]; the caller knows at least
// one exists.
func (k *counter) concat(cc Concat, from, i, j int) *big.Int {
	if from == len(cc) {
		if i == j {
			return big.NewInt(1)
		}
		return big.NewInt(0)
	}
	t := big.NewInt(0)
	first := k.c.rep(cc[from], i)
	for p := i; p <= j; p++ {
		if !has(first, p) || !has(k.c.concat(cc[from+1:], p), j) {
			continue
		}
		l := k.rep(&cc[from], 0, i, p)
		r := k.concat(cc, from+1, p, j)
		t.Add(t, new(big.Int).Mul(l, r))
	}
	return t
}

// repOK: the tail of the repetition, cnt elements already taken, derives [i,j].
func (k *counter) repOK(r *Rep, cnt, i, j int) bool {
	rest := Rep{Min: max(0, r.Min-cnt), Max: r.Max, E: r.E}
	if r.Max != Inf {
		rest.Max = r.Max - cnt
		if rest.Max < 0 {
			return false
		}
		if rest.Max == 0 {
			return i == j && rest.Min == 0
		}
	}
	return has(k.c.rep(rest, i), j)
}

func (k *counter) rep(r *Rep, cnt, i, j int) *big.Int {
	if r.Min == 1 && r.Max == 1 {
		return k.elem(r.E, i, j)
	}
	if r.Max == Inf && cnt > r.Min {
		cnt = r.Min
	}
	return k.guarded(ckey{node: r, sub: 1, cnt: cnt, i: i, j: j}, func() *big.Int {
		t := big.NewInt(0)
		if cnt >= r.Min && i == j {
			t.Add(t, big.NewInt(1))
		}
		if r.Max == Inf || cnt < r.Max {
			es := k.c.elem(r.E, i)
			for p := i; p <= j; p++ {
				if has(es, p) && k.repOK(r, cnt+1, p, j) {
					l := k.elem(r.E, i, p)
					t.Add(t, new(big.Int).Mul(l, k.rep(r, cnt+1, p, j)))
				}
			}
		}
		return t
	})
}

func (k *counter) elem(e *Elem, i, j int) *big.Int {
	k.c.m.St.Transitions++
	switch e.K {
	case KRef:
		return k.rule(k.c.m.idx[lower(e.Text)], i, j)
	case KGroup:
		return k.guarded(ckey{node: e, i: i, j: j}, func() *big.Int { return k.alt(e.Alt, i, j) })
	case KOpt:
		return k.guarded(ckey{node: e, i: i, j: j}, func() *big.Int {
			t := k.alt(e.Alt, i, j)
			if i == j {
				t.Add(t, big.NewInt(1))
			}
			return t
		})
	}
	return big.NewInt(1)
}

// ---------------------------------------------------------------------------
// Productivity, nullability and viable prefixes
// ---------------------------------------------------------------------------

// Productive returns, per compiled rule, whether it derives any string.
func (m *Model) Productive() []bool {
	prod := make([]bool, len(m.rules))
	for changed := true; changed; {
		changed = false
		for i, r := range m.rules {
			if r != nil && !prod[i] && m.prodAlt(prod, r.Alt) {
				prod[i] = true
				changed = true
			}
		}
	}
	return prod
}

func (m *Model) prodAlt(prod []bool, a Alt) bool {
	for _, c := range a {
		if m.prodConcat(prod, c) {
			return true
		}
	}
	return false
}

func (m *Model) prodConcat(prod []bool, c Concat) bool {
	for _, r := range c {
		if !m.prodRep(prod, r) {
			return false
		}
	}
	return true
}

func (m *Model) prodRep(prod []bool, r Rep) bool {
	if r.Max != Inf && r.Max < r.Min {
		return false
	}
	return r.Min == 0 || m.prodElem(prod, r.E)
}

func (m *Model) prodElem(prod []bool, e *Elem) bool {
	switch e.K {
	case KRef:
		return prod[m.idx[lower(e.Text)]]
	case KGroup:
		return m.prodAlt(prod, e.Alt)
	case KOpt:
		return true
	}
	return termProductive(e)
}

// AllProductive: every rule reachable from the root is defined and productive,
// and so is every element on the way (used to delimit generator inputs).
func (m *Model) AllProductive() bool {
	prod := m.Productive()
	var ok func(a Alt) bool
	ok = func(a Alt) bool {
		for _, c := range a {
			for _, r := range c {
				if r.Max != Inf && r.Max < r.Min {
					return false
				}
				if !m.prodElem(prod, r.E) {
					return false
				}
				if r.E.K == KGroup || r.E.K == KOpt {
					if !ok(r.E.Alt) {
						return false
					}
				}
			}
		}
		return true
	}
	for i, r := range m.rules {
		if r == nil || !prod[i] || !ok(r.Alt) {
			return false
		}
	}
	return true
}

// Viable reports whether some word of the root's language starts with p.
func (m *Model) Viable(p []byte) bool {
	c := m.Chart(p)
	prod := m.Productive()
	n := len(p)
	// via[rule][i]: the rule derives some w with p[i:] a prefix of w.
	via := make([][]bool, len(m.rules))
	for i := range via {
		via[i] = make([]bool, n+1)
	}
	var alt func(a Alt, i int) bool
	var concat func(cc Concat, i int) bool
	var rep func(r Rep, i int) bool
	var elem func(e *Elem, i int) bool
	alt = func(a Alt, i int) bool {
		for _, cc := range a {
			if concat(cc, i) {
				return true
			}
		}
		return false
	}
	concat = func(cc Concat, i int) bool {
		// positions reachable after the first k repetitions
		cur := bits(1) << uint(i)
		for k, r := range cc {
			if m.prodConcat(prod, cc[k+1:]) {
				for q := i; q <= n; q++ {
					if has(cur, q) && rep(r, q) {
						return true
					}
				}
			}
			var next bits
			for q := i; q <= n; q++ {
				if has(cur, q) {
					next |= c.rep(r, q)
				}
			}
			cur = next
		}
		return has(cur, n)
	}
	rep = func(r Rep, i int) bool {
		if r.Max != Inf && r.Max < r.Min {
			return false
		}
		if r.Min > 0 && !m.prodElem(prod, r.E) {
			return false
		}
		if i == n && (r.Min == 0 || m.prodElem(prod, r.E)) {
			return true
		}
		if !m.prodElem(prod, r.E) {
			return false
		}
		cur := bits(1) << uint(i)
		limit := r.Max
		if limit == Inf || limit > n+r.Min+2 {
			limit = n + r.Min + 2
		}
		for k := 0; k < limit; k++ { // k elements done, the next one may straddle the end
			for q := i; q <= n; q++ {
				if has(cur, q) && elem(r.E, q) {
					return true
				}
			}
			cur = c.step(r.E, cur)
			if cur == 0 {
				break
			}
		}
		return false
	}
	elem = func(e *Elem, i int) bool {
		m.St.Transitions++
		switch e.K {
		case KRef:
			return via[m.idx[lower(e.Text)]][i]
		case KGroup:
			return alt(e.Alt, i)
		case KOpt:
			return i == n || alt(e.Alt, i)
		}
		return termViable(e, p[i:])
	}
	for changed := true; changed; {
		changed = false
		for ri, r := range m.rules {
			if r == nil {
				continue
			}
			for i := n; i >= 0; i-- {
				if !via[ri][i] && alt(r.Alt, i) {
					via[ri][i] = true
					changed = true
				}
			}
		}
	}
	m.St.States += int64(len(m.rules) * (n + 1))
	return via[0][0]
}

// termViable: some word of the terminal starts with p.
func termViable(e *Elem, p []byte) bool {
	if !termProductive(e) {
		return false
	}
	switch e.K {
	case KChar:
		for _, want := range []rune(e.Text) {
			if len(p) == 0 {
				return true
			}
			if !e.Sens && foldR(want) != want || !e.Sens && want >= 'a' && want <= 'z' {
				if foldR(rune(p[0])) != foldR(want) || p[0] >= 0x80 {
					return false
				}
				p = p[1:]
				continue
			}
			w := []byte(string(want))
			for _, b := range w {
				if len(p) == 0 {
					return true
				}
				if p[0] != b {
					return false
				}
				p = p[1:]
			}
		}
		return len(p) == 0
	case KSeries:
		for _, v := range e.Vals {
			for _, b := range []byte(string(rune(v))) {
				if len(p) == 0 {
					return true
				}
				if p[0] != b {
					return false
				}
				p = p[1:]
			}
		}
		return len(p) == 0
	case KRange:
		if len(p) == 0 {
			return true
		}
		return someRuneStartsWith(e.Vals[0], e.Vals[1], p)
	}
	return false
}

// someRuneStartsWith: some character of lo..hi has an encoding that starts with p.
func someRuneStartsWith(lo, hi int64, p []byte) bool {
	var n int
	var v, least int64
	switch b := p[0]; {
	case b < 0x80:
		n, v, least = 1, int64(b), 0
	case b >= 0xC0 && b < 0xE0:
		n, v, least = 2, int64(b&0x1F), 0x80
	case b >= 0xE0 && b < 0xF0:
		n, v, least = 3, int64(b&0x0F), 0x800
	case b >= 0xF0 && b < 0xF8:
		n, v, least = 4, int64(b&0x07), 0x10000
	default:
		return false
	}
	if len(p) > n {
		return false
	}
	for _, b := range p[1:] {
		if b < 0x80 || b >= 0xC0 {
			return false
		}
		v = v<<6 | int64(b&0x3F)
	}
	rest := uint(6 * (n - len(p)))
	from, to := v<<rest, v<<rest|(1<<rest-1)
	from, to = max(from, least, lo), min(to, 0x10FFFF, hi)
	if from >= 0xD800 && from <= 0xDFFF {
		from = 0xE000
	}
	if to >= 0xD800 && to <= 0xDFFF {
		to = 0xD7FF
	}
	return from <= to
}
