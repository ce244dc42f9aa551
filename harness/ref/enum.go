package ref

// Bounded-exhaustive enumeration of grammars, simplest first.

// Space describes a finite set of expressions: all alternations whose total
// weight is at most the bound, over the given leaves and repetition bounds.
// A leaf weighs 1, a repetition bound other than exactly-one adds 1, a group or
// option adds 1.
type Space struct {
	Leaves []*Elem
	Reps   [][2]int
	Groups bool
	Opts   bool

	elems   map[int][]*Elem
	reps    map[int][]Rep
	concats map[int][]Concat
	alts    map[int][]Alt
}

func (s *Space) init() {
	if s.elems == nil {
		s.elems, s.reps = map[int][]*Elem{}, map[int][]Rep{}
		s.concats, s.alts = map[int][]Concat{}, map[int][]Alt{}
	}
}

// Elems of weight exactly w.
func (s *Space) Elems(w int) []*Elem {
	s.init()
	if v, ok := s.elems[w]; ok {
		return v
	}
	var out []*Elem
	if w == 1 {
		out = append(out, s.Leaves...)
	}
	if w >= 2 {
		for _, a := range s.Alts(w - 1) {
			if s.Groups && !(len(a) == 1 && len(a[0]) == 1 && a[0][0].Min == 1 && a[0][0].Max == 1) {
				out = append(out, Grp(a))
			}
			if s.Opts {
				out = append(out, Opt(a))
			}
		}
	}
	s.elems[w] = out
	return out
}

func (s *Space) Repsw(w int) []Rep {
	s.init()
	if v, ok := s.reps[w]; ok {
		return v
	}
	var out []Rep
	for _, e := range s.Elems(w) {
		out = append(out, One(e))
	}
	if w >= 2 {
		for _, e := range s.Elems(w - 1) {
			for _, b := range s.Reps {
				out = append(out, Rep{b[0], b[1], e})
			}
		}
	}
	s.reps[w] = out
	return out
}

func (s *Space) Concats(w int) []Concat {
	s.init()
	if v, ok := s.concats[w]; ok {
		return v
	}
	var out []Concat
	for _, r := range s.Repsw(w) {
		out = append(out, Concat{r})
	}
	for k := 1; k < w; k++ {
		for _, r := range s.Repsw(k) {
			for _, rest := range s.Concats(w - k) {
				out = append(out, append(Concat{r}, rest...))
			}
		}
	}
	s.concats[w] = out
	return out
}

// Alts of weight exactly w.
func (s *Space) Alts(w int) []Alt {
	s.init()
	if v, ok := s.alts[w]; ok {
		return v
	}
	var out []Alt
	for _, c := range s.Concats(w) {
		out = append(out, Alt{c})
	}
	for k := 1; k < w; k++ {
		for _, c := range s.Concats(k) {
			for _, rest := range s.Alts(w - k) {
				out = append(out, append(Alt{c}, rest...))
			}
		}
	}
	s.alts[w] = out
	return out
}

// UpTo returns every alternation of weight 1..w.
func (s *Space) UpTo(w int) []Alt {
	var out []Alt
	for i := 1; i <= w; i++ {
		out = append(out, s.Alts(i)...)
	}
	return out
}

// Strings enumerates every string over the alphabet of length 0..n, shortest
// first.
func Strings(alphabet []string, n int) [][]byte {
	out := [][]byte{{}}
	prev := [][]byte{{}}
	for l := 1; l <= n; l++ {
		var cur [][]byte
		for _, p := range prev {
			for _, a := range alphabet {
				cur = append(cur, append(append([]byte{}, p...), a...))
			}
		}
		out = append(out, cur...)
		prev = cur
	}
	return out
}

// UsesRef reports whether the alternation references name.
func (a Alt) UsesRef(name string) bool {
	for _, c := range a {
		for _, r := range c {
			switch r.E.K {
			case KRef:
				if FoldEq(r.E.Text, name) {
					return true
				}
			case KGroup, KOpt:
				if r.E.Alt.UsesRef(name) {
					return true
				}
			}
		}
	}
	return false
}

// Refs lists referenced rule names (lower-case), in order, without duplicates.
func (a Alt) Refs() []string {
	var out []string
	seen := map[string]bool{}
	var w func(Alt)
	w = func(a Alt) {
		for _, c := range a {
			for _, r := range c {
				switch r.E.K {
				case KRef:
					n := lower(r.E.Text)
					if !seen[n] {
						seen[n] = true
						out = append(out, n)
					}
				case KGroup, KOpt:
					w(r.E.Alt)
				}
			}
		}
	}
	w(a)
	return out
}

// Cyclic reports whether a rule reachable from root depends on itself.
func (g *Grammar) Cyclic(root string) bool {
	const (
		white = iota
		grey
		black
	)
	col := map[string]int{}
	var visit func(n string) bool
	visit = func(n string) bool {
		switch col[n] {
		case grey:
			return true
		case black:
			return false
		}
		col[n] = grey
		if r := g.Lookup(n); r != nil {
			for _, d := range r.Alt.Refs() {
				if visit(d) {
					return true
				}
			}
		}
		col[n] = black
		return false
	}
	return visit(lower(root))
}

// HasKind reports whether any element of the grammar has kind k.
func (g *Grammar) HasKind(k Kind) bool {
	var w func(a Alt) bool
	w = func(a Alt) bool {
		for _, c := range a {
			for _, r := range c {
				if r.E.K == k {
					return true
				}
				if w(r.E.Alt) {
					return true
				}
			}
		}
		return false
	}
	for _, r := range g.Rules {
		if w(r.Alt) {
			return true
		}
	}
	return false
}
