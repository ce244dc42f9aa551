package ref

import "fmt"

// Tree is a concrete syntax tree: rule nodes carry a name, leaves do not.
type Tree struct {
	Rule       string
	Start, End int
	Children   []*Tree
}

// CheckTree verifies that t is a derivation of rule name: t carries that name,
// its children tile its span in order, and the sequence of children (rule nodes
// and terminal leaves) is one the rule's definition produces, recursively.
// Zero-width leaves (an empty terminal) may be present or absent. It returns
// what is wrong, or "".
func CheckTree(g *Grammar, name string, in []byte, t *Tree) string {
	if !FoldEq(t.Rule, name) {
		return fmt.Sprintf("node %q where rule %q was expected", t.Rule, name)
	}
	r := g.Lookup(name)
	if r == nil {
		return "undefined rule " + name
	}
	pos := t.Start
	for _, k := range t.Children {
		if k.Start != pos || k.End < k.Start || k.End > t.End {
			return fmt.Sprintf("child [%d,%d] does not continue at %d inside [%d,%d] of %s", k.Start, k.End, pos, t.Start, t.End, t.Rule)
		}
		pos = k.End
	}
	if pos != t.End {
		return fmt.Sprintf("children of %s stop at %d, not %d", t.Rule, pos, t.End)
	}
	// Zero-width leaves carry nothing.
	var kids []*Tree
	for _, k := range t.Children {
		if k.Rule == "" && k.Start == k.End {
			continue
		}
		if k.Rule == "" && len(k.Children) > 0 {
			return "an unnamed node has children"
		}
		kids = append(kids, k)
	}
	m := &treeMatcher{in: in, kids: kids}
	if !m.alt(r.Alt, 1)[len(kids)] {
		return fmt.Sprintf("the children of %s[%d,%d] are not produced by its definition", t.Rule, t.Start, t.End)
	}
	for _, k := range kids {
		if k.Rule != "" {
			if why := CheckTree(g, k.Rule, in, k); why != "" {
				return why
			}
		}
	}
	return ""
}

type treeMatcher struct {
	in   []byte
	kids []*Tree
}

// Each function maps a set of child indices (as a bool slice) to the set
// reachable after the expression; sets are []bool of len(kids)+1.
func (m *treeMatcher) alt(a Alt, from any) []bool {
	set := m.toSet(from)
	out := make([]bool, len(m.kids)+1)
	for _, c := range a {
		cur := append([]bool(nil), set...)
		for _, r := range c {
			cur = m.rep(r, cur)
		}
		or(out, cur)
	}
	return out
}

func (m *treeMatcher) toSet(from any) []bool {
	if s, ok := from.([]bool); ok {
		return s
	}
	s := make([]bool, len(m.kids)+1)
	s[0] = true
	return s
}

func or(dst, src []bool) bool {
	ch := false
	for i, b := range src {
		if b && !dst[i] {
			dst[i] = true
			ch = true
		}
	}
	return ch
}

func empty(s []bool) bool {
	for _, b := range s {
		if b {
			return false
		}
	}
	return true
}

func eq(a, b []bool) bool {
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (m *treeMatcher) rep(r Rep, cur []bool) []bool {
	if r.Max != Inf && r.Max < r.Min {
		return make([]bool, len(m.kids)+1)
	}
	for k := 0; k < r.Min; k++ {
		nx := m.elem(r.E, cur)
		if eq(nx, cur) {
			break
		}
		cur = nx
	}
	all := append([]bool(nil), cur...)
	for k := 0; (r.Max == Inf || k < r.Max-r.Min) && !empty(all); k++ {
		nx := append([]bool(nil), cur...)
		or(nx, m.elem(r.E, all))
		if eq(nx, all) {
			break
		}
		all = nx
	}
	return all
}

func (m *treeMatcher) elem(e *Elem, cur []bool) []bool {
	out := make([]bool, len(m.kids)+1)
	switch e.K {
	case KGroup:
		return m.alt(e.Alt, cur)
	case KOpt:
		or(out, cur)
		or(out, m.alt(e.Alt, cur))
		return out
	}
	for i, b := range cur {
		if !b {
			continue
		}
		if e.K == KChar && e.Text == "" {
			out[i] = true
			continue
		}
		if i == len(m.kids) {
			continue
		}
		k := m.kids[i]
		if e.K == KRef {
			if k.Rule != "" && FoldEq(k.Rule, e.Text) {
				out[i+1] = true
			}
			continue
		}
		if k.Rule == "" && matchTerm(e, m.in[:k.End], k.Start) == k.End {
			out[i+1] = true
		}
	}
	return out
}
