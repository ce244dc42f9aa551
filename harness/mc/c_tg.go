package main

import (
	"errors"
	"fmt"
	"sort"
	"strconv"

	goabnf "github.com/pandatix/go-abnf"

	"verif/harness/ref"
)

// ---- the transition graph as an automaton ---------------------------------------

type tgNode struct {
	n     *goabnf.Node
	e     *ref.Elem // terminal, or KRef
	nexts []int
}

// tgAuto is the graph read through its exported fields only.
type tgAuto struct {
	nodes   []tgNode
	entries []int
	end     []bool
	empty   bool // the empty word
}

func elemFromImpl(e goabnf.ElemItf) *ref.Elem {
	switch v := e.(type) {
	case goabnf.ElemCharVal:
		return &ref.Elem{K: ref.KChar, Text: string(v.Values), Sens: v.Sensitive}
	case goabnf.ElemNumVal:
		o := &ref.Elem{K: ref.KSeries, Base: v.Base}
		if v.Status == goabnf.StatRange {
			o.K = ref.KRange
		}
		for _, s := range v.Elems {
			x, err := strconv.ParseUint(s, radix(v.Base), 64)
			if err != nil || x > ref.NumCap {
				x = ref.NumCap
			}
			o.Vals = append(o.Vals, int64(x))
		}
		return o
	case goabnf.ElemRulename:
		return ref.Ref(v.Name)
	}
	return nil
}

func readTG(tg *goabnf.TransitionGraph) (*tgAuto, string) {
	a := &tgAuto{}
	idx := map[*goabnf.Node]int{}
	ids := map[string]bool{}
	why := ""
	var queue []*goabnf.Node
	see := func(n *goabnf.Node) int {
		if i, ok := idx[n]; ok {
			return i
		}
		i := len(a.nodes)
		idx[n] = i
		if ids[n.ID] {
			why = "two nodes share the ID " + n.ID
		}
		ids[n.ID] = true
		e := elemFromImpl(n.Elem)
		if e == nil {
			why = fmt.Sprintf("node with element %T", n.Elem)
		}
		a.nodes = append(a.nodes, tgNode{n: n, e: e})
		queue = append(queue, n)
		return i
	}
	entEmpty, endEmpty := false, false
	seenE := map[int]bool{}
	for _, n := range tg.Entrypoints {
		if n == nil {
			entEmpty = true
			continue
		}
		i := see(n)
		if !seenE[i] {
			seenE[i] = true
			a.entries = append(a.entries, i)
		}
	}
	for len(queue) > 0 {
		n := queue[0]
		queue = queue[1:]
		i := idx[n]
		seen := map[int]bool{}
		for _, m := range n.Nexts {
			if m == nil {
				why = "a node has the empty node as successor"
				continue
			}
			j := see(m)
			if !seen[j] {
				seen[j] = true
				a.nodes[i].nexts = append(a.nodes[i].nexts, j)
			}
		}
	}
	a.end = make([]bool, len(a.nodes))
	for _, n := range tg.Endpoints {
		if n == nil {
			endEmpty = true
			continue
		}
		if i, ok := idx[n]; ok {
			a.end[i] = true
		}
	}
	a.empty = entEmpty && endEmpty
	return a, why
}

func (a *tgAuto) hasRule() bool {
	for _, n := range a.nodes {
		if n.e.K == ref.KRef {
			return true
		}
	}
	return false
}

// accepts simulates the automaton; ruleEnds resolves a rule node.
func (a *tgAuto) accepts(in []byte, ch *ref.Chart) bool {
	if len(in) == 0 && a.empty {
		return true
	}
	L := len(in)
	done := make([][]bool, L+1) // done[p][n]: node n can be completed at p
	for i := range done {
		done[i] = make([]bool, len(a.nodes))
	}
	type st struct{ n, p int }
	var work []st
	var fire func(n, p int)
	fire = func(n, p int) { // node n starts at p
		e := a.nodes[n].e
		if e.K == ref.KRef {
			for q := p; q <= L; q++ {
				if ch.Derives(e.Text, p, q) && !done[q][n] {
					done[q][n] = true
					work = append(work, st{n, q})
				}
			}
			return
		}
		if q := ref.MatchTerm(e, in, p); q >= 0 && !done[q][n] {
			done[q][n] = true
			work = append(work, st{n, q})
		}
	}
	for _, n := range a.entries {
		fire(n, 0)
	}
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		if s.p == L && a.end[s.n] {
			return true
		}
		for _, m := range a.nodes[s.n].nexts {
			fire(m, s.p)
		}
	}
	return false
}

type tgOpt struct{ rules, nums, chars bool }

func (o tgOpt) String() string {
	return fmt.Sprintf("deflate(rules=%v,nums=%v,chars=%v)", o.rules, o.nums, o.chars)
}

func (o tgOpt) opts() []goabnf.TGOption {
	return []goabnf.TGOption{goabnf.WithDeflateRules(o.rules), goabnf.WithDeflateNumVals(o.nums), goabnf.WithDeflateCharVals(o.chars)}
}

// widestRange is the size of the widest num-val range.
func widestRange(g *ref.Grammar, root string) int64 {
	w := int64(0)
	seen := map[string]bool{}
	var visit func(n string)
	visit = func(n string) {
		r := g.Lookup(n)
		if r == nil || seen[r.Name] {
			return
		}
		seen[r.Name] = true
		r.Alt.WalkReps(func(rep ref.Rep) {
			if rep.E.K == ref.KRange {
				hi := min(rep.E.Vals[1], 0x10FFFF)
				w = max(w, hi-rep.E.Vals[0]+1)
			}
		})
		for _, d := range r.Alt.Refs() {
			visit(d)
		}
	}
	visit(root)
	return w
}

func hasKindReach(g *ref.Grammar, root string, k ref.Kind) bool {
	found := false
	seen := map[string]bool{}
	var visit func(n string)
	visit = func(n string) {
		r := g.Lookup(n)
		if r == nil || seen[r.Name] {
			return
		}
		seen[r.Name] = true
		r.Alt.WalkReps(func(rep ref.Rep) {
			if rep.E.K == k {
				found = true
			}
		})
		for _, d := range r.Alt.Refs() {
			visit(d)
		}
	}
	visit(root)
	return found
}

// tgOptsFor lists the option combinations that make a difference.
func tgOptsFor(g *ref.Grammar, root string) []tgOpt {
	var out []tgOpt
	refs := g.HasKind(ref.KRef)
	nums := hasKindReach(g, root, ref.KRange) || hasKindReach(g, root, ref.KSeries)
	chars := hasKindReach(g, root, ref.KChar)
	if widestRange(g, root) > 300 {
		nums = false
	}
	for _, r := range []bool{false, true} {
		for _, n := range []bool{false, true} {
			for _, c := range []bool{false, true} {
				if (r && !refs) || (n && !nums) || (c && !chars) {
					continue
				}
				out = append(out, tgOpt{r, n, c})
			}
		}
	}
	return out
}

// invalidForDeflate: SemvalABNF refuses the grammar.
func semanticallyInvalid(g *ref.Grammar) bool {
	bad := false
	for _, r := range g.Rules {
		r.Alt.WalkReps(func(rep ref.Rep) {
			if rep.Max != ref.Inf && rep.Max < rep.Min {
				bad = true
			}
			switch rep.E.K {
			case ref.KRef:
				if g.Lookup(rep.E.Text) == nil {
					bad = true
				}
			case ref.KRange, ref.KSeries:
				for _, v := range rep.E.Vals {
					if v > 0x10FFFF {
						bad = true
					}
				}
			}
		})
	}
	return bad
}

// overThreshold: some repetition to expand exceeds k.
func overThreshold(g *ref.Grammar, root string, deep bool, k int) bool {
	over := false
	seen := map[string]bool{}
	var visit func(n string)
	visit = func(n string) {
		r := g.Lookup(n)
		if r == nil || seen[r.Name] {
			return
		}
		seen[r.Name] = true
		r.Alt.WalkReps(func(rep ref.Rep) {
			b := rep.Max
			if b == ref.Inf {
				b = rep.Min
			}
			if b > 1 && b > k || rep.Max == ref.Inf && rep.Min > k {
				over = true
			}
		})
		if deep {
			for _, d := range r.Alt.Refs() {
				visit(d)
			}
		}
	}
	visit(root)
	return over
}

func runC09(c *Ctx, cs *Case) {
	root := cs.G.Root()
	short := cs.G.Short()
	cyc := cs.G.Cyclic(root)
	bad := semanticallyInvalid(cs.G)
	m := ref.NewModel(cs.G, root)
	var charts []*ref.Chart
	accepts := make([]bool, len(cs.Inputs))
	for i, in := range cs.Inputs {
		if len(in) > 62 {
			charts = append(charts, nil)
			accepts[i] = m.AcceptsLong(in)
			continue
		}
		charts = append(charts, m.Chart(in))
		accepts[i] = charts[i].Accepts()
	}
	for _, o := range tgOptsFor(cs.G, root) {
		g := toImpl(cs.G)
		before := dumpImpl(g)
		tg, err := g.TransitionGraph(root, o.opts()...)
		c.Traces++
		if cyc {
			var cy *goabnf.ErrCyclicRule
			if !errors.As(err, &cy) && !(bad && err != nil) {
				c.Fail(short, "TransitionGraph %s of the cyclic grammar %s: error %v", o, short, err)
			}
			c.Outcome("cyclic refused")
			continue
		}
		if cs.G.HasKind(ref.KProse) {
			if err == nil && hasKindReach(cs.G, root, ref.KProse) && len(cs.G.Rules) == 1 {
				c.Fail(short, "TransitionGraph %s of %s, which has a prose-val: no error", o, short)
			}
			c.Outcome("prose refused")
			continue
		}
		if overThreshold(cs.G, root, o.rules, 256) {
			if err == nil {
				c.Fail(short, "TransitionGraph %s of %s: no error beyond the repetition threshold", o, short)
			}
			c.Outcome("threshold refused")
			continue
		}
		if bad && (o.rules || unsat(cs.G)) {
			c.Outcome("invalid grammar")
			continue
		}
		if err != nil {
			c.Fail(short, "TransitionGraph %s of %s: %v", o, short, err)
			continue
		}
		if dumpImpl(g) != before {
			c.Fail(short, "TransitionGraph changed the grammar %s", short)
		}
		a, why := readTG(tg)
		if why != "" {
			c.Fail(short, "TransitionGraph %s of %s: malformed graph: %s", o, short, why)
			continue
		}
		for _, n := range a.nodes {
			switch {
			case n.e.K == ref.KRef && o.rules:
				why = "rule node " + n.e.Text + " left although rules are deflated"
			case o.nums && (n.e.K == ref.KRange || n.e.K == ref.KSeries && len(n.e.Vals) != 1):
				why = "num-val " + n.e.String() + " left although num-vals are deflated"
			case o.chars && n.e.K == ref.KChar && (len([]rune(n.e.Text)) != 1 || !n.e.Sens && caseless(n.e.Text)):
				why = "char-val " + n.e.String() + " left although char-vals are deflated"
			}
		}
		if why != "" {
			c.Fail(short, "TransitionGraph %s of %s: %s", o, short, why)
		}
		for i, in := range cs.Inputs {
			want := accepts[i]
			if charts[i] == nil && a.hasRule() {
				continue // rule nodes are resolved on the chart
			}
			c.Traces++
			if got := a.accepts(in, charts[i]); got != want {
				c.Fail(key(cs.G, in), "TransitionGraph %s of %s: an entry-to-end walk spells %q: %v, the language says %v", o, short, in, got, want)
			}
			c.Outcome(fmt.Sprintf("walk=%v", want))
		}
		if len(a.nodes) <= 200 {
			_ = tg.ToMermaid()
		}
		// thresholds
		for _, k := range []int{2, 4} {
			_, err := toImpl(cs.G).TransitionGraph(root, append(o.opts(), goabnf.WithRepetitionThreshold(k))...)
			if over := overThreshold(cs.G, root, o.rules, k); over != errors.Is(err, goabnf.ErrRepetitionThreshold) || !over && err != nil {
				c.Fail(short, "TransitionGraph %s of %s with threshold %d: error %v, a repetition exceeds it: %v", o, short, k, err, over)
			}
			c.Traces++
		}
	}
	c.AddRef(m.St.States, m.St.Transitions)
}

func caseless(s string) bool {
	for _, r := range s {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' {
			return true
		}
	}
	return false
}

// ---- C10: readers -------------------------------------------------------------------

// variations of a terminal node: every string it can spell, or ok=false when
// there are more than limit.
func variations(e *ref.Elem, limit int) ([]string, bool) {
	switch e.K {
	case ref.KChar:
		out := []string{""}
		for _, r := range e.Text {
			alts := []string{string(r)}
			if !e.Sens && (r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z') {
				alts = []string{string(r | 0x20), string(r &^ 0x20)}
			}
			var nx []string
			for _, p := range out {
				for _, x := range alts {
					nx = append(nx, p+x)
				}
			}
			if len(nx) > limit {
				return nil, false
			}
			out = nx
		}
		return out, true
	case ref.KSeries:
		s := ""
		for _, v := range e.Vals {
			if !ref.TermProductive(ref.Ser(v)) {
				return nil, true
			}
			s += string(rune(v))
		}
		return []string{s}, true
	case ref.KRange:
		var out []string
		for v := e.Vals[0]; v <= e.Vals[1] && v <= 0x10FFFF; v++ {
			if v >= 0xD800 && v <= 0xDFFF {
				continue
			}
			out = append(out, string(rune(v)))
			if len(out) > limit {
				return nil, false
			}
		}
		return out, true
	}
	return nil, true // a rule node spells nothing
}

// viable: nodes that spell something and lead to an endpoint through such nodes.
func (a *tgAuto) viable(vars [][]string) []bool {
	v := make([]bool, len(a.nodes))
	for ch := true; ch; {
		ch = false
		for i, n := range a.nodes {
			if v[i] || len(vars[i]) == 0 {
				continue
			}
			ok := a.end[i]
			for _, m := range n.nexts {
				ok = ok || v[m]
			}
			if ok {
				v[i] = true
				ch = true
			}
		}
	}
	return v
}

// trails collects the strings of every trail and combination of values, with
// their multiplicity, or ok=false beyond limit.
func (a *tgAuto) trails(vars [][]string, via []bool, limit int) (map[string]int, bool) {
	out := map[string]int{}
	if a.empty {
		out[""]++
	}
	used := map[[2]int]bool{}
	steps := 0
	var walk func(n int, prefixes []string) bool
	walk = func(n int, prefixes []string) bool {
		steps++
		if steps > 20*limit {
			return false
		}
		var cur []string
		for _, p := range prefixes {
			for _, v := range vars[n] {
				cur = append(cur, p+v)
			}
		}
		if len(cur) > limit {
			return false
		}
		if a.end[n] {
			for _, s := range cur {
				out[s]++
			}
			if len(out) > limit {
				return false
			}
		}
		for _, m := range a.nodes[n].nexts {
			if !via[m] || used[[2]int{n, m}] {
				continue
			}
			used[[2]int{n, m}] = true
			ok := walk(m, cur)
			delete(used, [2]int{n, m})
			if !ok {
				return false
			}
		}
		return true
	}
	for _, n := range a.entries {
		if via[n] && !walk(n, []string{""}) {
			return nil, false
		}
	}
	return out, true
}

// covers marks, for one produced string, the edges and node values its accepting
// walks can use.
func (a *tgAuto) covers(s string, via []bool, vars [][]string, edges map[[2]int]bool, vals map[string]bool) bool {
	in := []byte(s)
	L := len(in)
	N := len(a.nodes)
	mk := func() [][]bool {
		x := make([][]bool, L+1)
		for i := range x {
			x[i] = make([]bool, N)
		}
		return x
	}
	start, done, good := mk(), mk(), mk()
	endOf := func(n, p int) int { return ref.MatchTerm(a.nodes[n].e, in, p) }
	type st struct{ n, p int }
	var work []st
	push := func(n, p int) {
		if via[n] && !start[p][n] {
			start[p][n] = true
			work = append(work, st{n, p})
		}
	}
	for _, n := range a.entries {
		push(n, 0)
	}
	for len(work) > 0 {
		w := work[len(work)-1]
		work = work[:len(work)-1]
		q := endOf(w.n, w.p)
		if q < 0 {
			continue
		}
		done[q][w.n] = true
		for _, m := range a.nodes[w.n].nexts {
			push(m, q)
		}
	}
	for ch := true; ch; { // good[p][n]: completed at p, can finish
		ch = false
		for p := L; p >= 0; p-- {
			for n := 0; n < N; n++ {
				if !done[p][n] || good[p][n] {
					continue
				}
				ok := p == L && a.end[n]
				for _, m := range a.nodes[n].nexts {
					if via[m] {
						if q := endOf(m, p); q >= 0 && good[q][m] {
							ok = true
						}
					}
				}
				if ok {
					good[p][n] = true
					ch = true
				}
			}
		}
	}
	any := L == 0 && a.empty
	for p := 0; p <= L; p++ {
		for n := 0; n < N; n++ {
			if start[p][n] {
				if q := endOf(n, p); q >= 0 && good[q][n] {
					vals[strconv.Itoa(n)+" "+s[p:q]] = true
					any = true
				}
			}
			if done[p][n] {
				for _, m := range a.nodes[n].nexts {
					if via[m] {
						if q := endOf(m, p); q >= 0 && good[q][m] {
							edges[[2]int{n, m}] = true
						}
					}
				}
			}
		}
	}
	return any
}

func drainReader(r *goabnf.TransitionGraphReader, limit int) ([]string, bool) {
	var out []string
	for r.Next() {
		b := r.Scan()
		out = append(out, string(b))
		if len(out) > limit {
			return out, false
		}
	}
	return out, true
}

const readerLimit = 20000

// readerProtocol runs every sequence of up to four Next and Scan calls on fresh
// readers, then Scan alone to the end: Next never moves the reader, Scan hands
// out the strings in order, as slices of the caller's own, and nil at the end.
func readerProtocol(c *Ctx, short string, open func() *goabnf.TransitionGraphReader, want []string) {
	if len(want) > 400 {
		return
	}
	const depth = 4
	for bits := 0; bits < 1<<depth; bits++ {
		r := open()
		at := 0
		kept := [][]byte{}
		scan := func() {
			b := r.Scan()
			if at >= len(want) {
				if b != nil {
					c.Fail(short, "Reader of %s: Scan gives %q after the end", short, b)
				}
				return
			}
			if b == nil && want[at] != "" || string(b) != want[at] {
				c.Fail(short, "Reader of %s: sequence %04b: Scan number %d gives %q, expected %q", short, bits, at+1, b, want[at])
			}
			kept = append(kept, b)
			at++
		}
		for k := 0; k < depth; k++ {
			if bits>>k&1 == 1 {
				scan()
			} else if r.Next() != (at < len(want)) {
				c.Fail(short, "Reader of %s: sequence %04b: Next says %v after %d of %d strings", short, bits, at >= len(want), at, len(want))
			}
		}
		if bits == 1<<depth-1 || bits == 0 {
			for at < len(want) {
				scan()
			}
			scan()
		}
		for i, b := range kept {
			if string(b) != want[i] {
				c.Fail(short, "Reader of %s: string %d, %q, was overwritten later: %q", short, i+1, want[i], b)
				break
			}
			for j := range b {
				b[j] = 'Z'
			}
		}
		c.Traces++
		if len(c.fails) > 0 {
			return
		}
	}
}

func runC10(c *Ctx, cs *Case) {
	root := cs.G.Root()
	short := cs.G.Short()
	if cs.G.Cyclic(root) || cs.G.HasKind(ref.KProse) || semanticallyInvalid(cs.G) || overThreshold(cs.G, root, true, 256) {
		c.Outcome("outside")
		return
	}
	m := ref.NewModel(cs.G, root)
	for _, o := range tgOptsFor(cs.G, root) {
		g := toImpl(cs.G)
		tg, err := g.TransitionGraph(root, o.opts()...)
		if err != nil {
			c.Fail(short, "TransitionGraph %s of %s: %v", o, short, err)
			continue
		}
		a, why := readTG(tg)
		if why != "" {
			c.Fail(short, "TransitionGraph %s of %s: malformed graph: %s", o, short, why)
			continue
		}
		vars := make([][]string, len(a.nodes))
		big := false
		for i, n := range a.nodes {
			v, ok := variations(n.e, 2100)
			if !ok {
				big = true
			}
			vars[i] = v
		}
		if big {
			c.Outcome("wide terminals")
			continue
		}
		via := a.viable(vars)
		// all trails
		want, small := a.trails(vars, via, 3000)
		if small {
			got, fin := drainReader(tg.Reader(), 200*readerLimit)
			c.Traces++
			if !fin {
				c.Fail(short, "Reader of %s (%s): more than %d strings where %d distinct ones exist", short, o, 200*readerLimit, len(want))
			}
			set, wset, times := map[string]bool{}, map[string]bool{}, map[string]int{}
			for _, s := range got {
				set[s] = true
				times[s]++
			}
			for s := range want {
				wset[s] = true
			}
			if d := setDiff(set, wset); d != "" {
				c.Fail(short, "Reader (all trails) of %s (%s): %s", short, o, d)
			}
			for s, n := range want {
				if times[s] != n {
					c.Fail(short, "Reader (all trails) of %s (%s): %q emitted %d times, for %d trails and values", short, o, s, times[s], n)
					break
				}
			}
			readerProtocol(c, short, func() *goabnf.TransitionGraphReader { return tg.Reader() }, got)
			again, _ := drainReader(tg.Reader(goabnf.WithCoverageMode(goabnf.CoverageAllTrails)), 200*readerLimit)
			if fmt.Sprint(again) != fmt.Sprint(got) {
				c.Fail(short, "Reader (all trails) of %s (%s): two passes differ", short, o)
			}
			checkWords(c, m, set, "Reader (all trails)", short, o.String())
			c.Outcome("all trails")
		} else {
			c.Outcome("too many trails")
		}
		// compact
		got, fin := drainReader(tg.Reader(goabnf.WithCoverageMode(goabnf.CoverageCompact)), readerLimit)
		c.Traces++
		edges, vals := map[[2]int]bool{}, map[string]bool{}
		set := map[string]bool{}
		for _, s := range got {
			set[s] = true
		}
		for s := range set {
			if !a.covers(s, via, vars, edges, vals) {
				c.Fail(short, "Reader (compact) of %s (%s): %q is no walk of the graph", short, o, s)
			}
		}
		// what must be covered: everything on a viable walk from an entrypoint
		reach := make([]bool, len(a.nodes))
		var stack []int
		for _, n := range a.entries {
			if via[n] {
				stack = append(stack, n)
			}
		}
		nedges, nvals := 0, 0
		for len(stack) > 0 {
			n := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			if reach[n] {
				continue
			}
			reach[n] = true
			for _, v := range vars[n] {
				nvals++
				if !vals[strconv.Itoa(n)+" "+v] {
					c.Fail(short, "Reader (compact) of %s (%s): no string uses the value %q of node %s; got %q", short, o, v, a.nodes[n].e, head(got))
				}
			}
			for _, w := range a.nodes[n].nexts {
				if !via[w] {
					continue
				}
				nedges++
				if !edges[[2]int{n, w}] {
					c.Fail(short, "Reader (compact) of %s (%s): no string uses the edge %s -> %s; got %q", short, o, a.nodes[n].e, a.nodes[w].e, head(got))
				}
				stack = append(stack, w)
			}
		}
		if a.empty && !set[""] {
			c.Fail(short, "Reader (compact) of %s (%s): the empty string is missing", short, o)
		}
		if !fin || len(got) > nedges+nvals+len(a.nodes)+1 {
			c.Fail(short, "Reader (compact) of %s (%s): %d strings for %d edges, %d nodes, %d values", short, o, len(got), nedges, len(a.nodes), nvals)
		}
		again, _ := drainReader(tg.Reader(goabnf.WithCoverageMode(goabnf.CoverageCompact)), readerLimit)
		if fmt.Sprint(again) != fmt.Sprint(got) {
			c.Fail(short, "Reader (compact) of %s (%s): two passes differ", short, o)
		}
		checkWords(c, m, set, "Reader (compact)", short, o.String())
		c.Outcome("compact")
		readerProtocol(c, short, func() *goabnf.TransitionGraphReader {
			return tg.Reader(goabnf.WithCoverageMode(goabnf.CoverageCompact))
		}, got)
	}
	c.AddRef(m.St.States, m.St.Transitions)
}

func head(s []string) []string {
	if len(s) > 12 {
		return s[:12]
	}
	return s
}

func setDiff(got, want map[string]bool) string {
	var miss, extra []string
	for s := range want {
		if !got[s] {
			miss = append(miss, s)
		}
	}
	for s := range got {
		if !want[s] {
			extra = append(extra, s)
		}
	}
	if len(miss)+len(extra) == 0 {
		return ""
	}
	sort.Strings(miss)
	sort.Strings(extra)
	return fmt.Sprintf("missing %q, unexpected %q", head(miss), head(extra))
}

// checkWords: every string is a word of the language.
func checkWords(c *Ctx, m *ref.Model, set map[string]bool, who, short, how string) {
	var all []string
	for s := range set {
		if len(s) <= 400 {
			all = append(all, s)
		}
	}
	sort.Slice(all, func(i, j int) bool {
		return len(all[i]) < len(all[j]) || len(all[i]) == len(all[j]) && all[i] < all[j]
	})
	for n, s := range all {
		if n >= 3000 {
			break
		}
		c.Traces++
		if !m.AcceptsLong([]byte(s)) {
			c.Fail(short+" | "+strconv.Quote(s), "%s of %s (%s) produced %q, which the grammar rejects", who, short, how, s)
			return
		}
	}
}

func graphCases(tier string, yield func(*Case) bool) {
	more := true
	y := func(cs *Case) bool { more = yield(cs); return more }
	if regularCases(tier, y); more {
		_ = realWalk(1, false, y) && graphScaleCases([]int{3, 5, 9, 10, 16, 17, 31, 33, 64, 65, 100, 129, 200, 256}, y)
	}
}

func c10Cases(tier string, yield func(*Case) bool) {
	for _, n := range []int{5, 7, 8, 9, 10, 11} { // every casing of a literal
		lit := "abCdeFghijKlmno"[:n]
		for _, a := range []ref.Alt{ref.AE(ref.Ch(lit)), ref.AE(ref.Ch("1"+lit[:n-1]+"-"+lit[n-1:]), ref.Ch(lit[1:])), {{ref.R(0, ref.Inf, ref.Ch(lit))}}} {
			if !yield(&Case{G: ref.G1("r", a), Fam: "casings"}) {
				return
			}
		}
	}
	if !graphScaleCases([]int{3, 5, 9, 10, 16, 17, 33, 65, 129}, yield) {
		return
	}
	if tier == "thorough" {
		_ = surrogateCases(yield) && diamondCases(1, yield) && termCases(1, yield) && mixCases(2, yield) && repCases(4, 5, nil, yield) && structCases(5, 6, false, yield)
		return
	}
	_ = surrogateCases(yield) && diamondCases(1, yield) && termCases(1, yield) && mixCases(1, yield) && repCases(2, 3, nil, yield) && structCases(4, 5, false, yield)
}

func init() {
	register(&Check{
		ID:        "C09",
		Rule:      "every grammar of the regular universe under every combination of deflate options: the graph, read through its exported fields and simulated as an automaton, accepts exactly the words of the language on every input; cyclic and prose grammars and repetitions beyond the threshold are refused; the grammar is left unchanged",
		Enumerate: perCase(graphCases, runC09),
	})
	register(&Check{
		ID:        "C10",
		Rule:      "every grammar of the reader universe under every combination of deflate options: the all-trails reader's output set equals the independently enumerated trails times variations; the compact reader's output stays within its size bound and covers every edge and node value on a viable walk; every string is a word of the language; two passes agree",
		Enumerate: perCase(c10Cases, runC10),
	})
}
