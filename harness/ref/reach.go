package ref

// Reach says where parsing an input top-down gets stuck: Pos is the furthest
// offset some left-to-right derivation of the root reaches over whole
// terminals, Want the terminals that could come next there and do not match.
type Reach struct {
	Pos  int
	Want []*Elem
}

type reacher struct {
	c      *Chart
	seen   map[int]bits // rule -> offsets it has been predicted at
	at     [][]*Elem    // offset -> terminals predicted and failing there
	maxPos int
	work   []struct {
		r *Rule
		i int
	}
}

// Furthest computes Reach for the chart's input.
func (c *Chart) Furthest() Reach {
	w := &reacher{c: c, seen: map[int]bits{}, at: make([][]*Elem, len(c.in)+1)}
	w.rule(c.m.root, 0)
	for len(w.work) > 0 {
		t := w.work[len(w.work)-1]
		w.work = w.work[:len(w.work)-1]
		w.alt(t.r.Alt, bits(1)<<uint(t.i))
	}
	return Reach{Pos: w.maxPos, Want: w.at[w.maxPos]}
}

func (w *reacher) rule(name string, i int) {
	ri := w.c.m.idx[lower(name)]
	if w.seen[ri]>>uint(i)&1 == 1 {
		return
	}
	w.seen[ri] |= bits(1) << uint(i)
	w.c.m.St.States++
	if r := w.c.m.rules[ri]; r != nil {
		w.work = append(w.work, struct {
			r *Rule
			i int
		}{r, i})
	}
}

func (w *reacher) alt(a Alt, from bits) {
	for _, cc := range a {
		cur := from
		for _, r := range cc {
			if cur == 0 {
				break
			}
			cur = w.rep(r, cur)
		}
	}
}

// rep predicts the element wherever another one may start, and returns the
// offsets at which the repetition may end.
func (w *reacher) rep(r Rep, from bits) bits {
	if r.Max != Inf && r.Max < r.Min {
		return 0
	}
	var out, starts bits
	for i := 0; i <= len(w.c.in); i++ {
		if from>>uint(i)&1 == 0 {
			continue
		}
		out |= w.c.rep(r, i)
		cur := bits(1) << uint(i)
		var all bits
		for k := 0; (r.Max == Inf || k < r.Max) && cur != 0; k++ {
			nx := w.c.step(r.E, cur)
			if cur|all == all && nx == cur {
				break
			}
			if r.Max == Inf && cur|all == all && k > len(w.c.in)+1 {
				break
			}
			all |= cur
			cur = nx
		}
		starts |= all
	}
	for i := 0; i <= len(w.c.in); i++ {
		if starts>>uint(i)&1 == 1 {
			w.elem(r.E, i)
		}
	}
	return out
}

func (w *reacher) elem(e *Elem, i int) {
	w.c.m.St.Transitions++
	switch e.K {
	case KRef:
		w.rule(e.Text, i)
		return
	case KGroup, KOpt:
		w.alt(e.Alt, bits(1)<<uint(i))
		return
	}
	if j := matchTerm(e, w.c.in, i); j >= 0 {
		w.maxPos = max(w.maxPos, j)
		return
	}
	w.maxPos = max(w.maxPos, i)
	w.at[i] = append(w.at[i], e)
}
