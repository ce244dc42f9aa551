package main

import (
	"fmt"
	"regexp"
	"sort"
	"strings"

	goabnf "github.com/pandatix/go-abnf"

	"verif/harness/ref"
)

// drawing is a Mermaid flowchart read back.
type drawing struct {
	label map[string]string
	entry map[string]bool
	end   map[string]bool
	edges map[[2]string]int
	empty bool
}

var (
	drawNode  = regexp.MustCompile(`^\s*([^\s\[\](){}"]+?)(\(\(\("(.*)"\)\)\)|\["(.*)"\])(:::entrypoint)?\s*$`)
	drawEdge  = regexp.MustCompile(`^\s*(\S+) --> (\S+)\s*$`)
	drawEmpty = regexp.MustCompile(`^\s*emptyNode\(\(\("?\x{2205}"?\)\)\)(:::entrypoint)?\s*$`)
)

// readDrawing reads a flowchart; why says what cannot be read.
func readDrawing(s string) (*drawing, string) {
	d := &drawing{label: map[string]string{}, entry: map[string]bool{}, end: map[string]bool{}, edges: map[[2]string]int{}}
	lines := strings.Split(s, "\n")
	if !strings.HasPrefix(lines[0], "flowchart") {
		return d, "no flowchart header"
	}
	for _, l := range lines[1:] {
		t := strings.TrimSpace(l)
		if t == "" || strings.HasPrefix(t, "classDef ") {
			continue
		}
		if drawEmpty.MatchString(l) {
			if d.empty {
				return d, "the empty node is drawn twice"
			}
			d.empty = true
			continue
		}
		if m := drawEdge.FindStringSubmatch(l); m != nil {
			d.edges[[2]string{m[1], m[2]}]++
			continue
		}
		m := drawNode.FindStringSubmatch(l)
		if m == nil {
			return d, fmt.Sprintf("line %q is no node and no edge", l)
		}
		if _, dup := d.label[m[1]]; dup {
			return d, "node " + m[1] + " is drawn twice"
		}
		d.end[m[1]] = strings.HasPrefix(m[2], "(")
		d.label[m[1]] = m[3] + m[4]
		d.entry[m[1]] = m[5] != ""
		if strings.Contains(d.label[m[1]], `"`) {
			return d, fmt.Sprintf("label %q breaks its quotes", d.label[m[1]])
		}
	}
	return d, ""
}

// labelPattern is what the label of a literal has to look like: its visible
// characters as they are, quotes of either kind replaced by something else. Other
// characters are left open.
func labelPattern(t []rune) *regexp.Regexp {
	p := "^"
	for _, r := range t {
		switch {
		case r == '"' || r == '`':
			p += "[^\"`]+"
		case r > 32 && r < 127:
			p += regexp.QuoteMeta(string(r))
		default:
			p += ".*"
		}
	}
	return regexp.MustCompile(p + "$")
}

// checkDrawing compares a drawing with the graph it shows.
func checkDrawing(tg *goabnf.TransitionGraph, s string) string {
	a, why := readTG(tg)
	if why != "" {
		return "malformed graph: " + why
	}
	d, why := readDrawing(s)
	if why != "" {
		return why
	}
	if len(d.label) != len(a.nodes) {
		return fmt.Sprintf("%d nodes are drawn, the graph has %d", len(d.label), len(a.nodes))
	}
	ent := map[int]bool{}
	for _, i := range a.entries {
		ent[i] = true
	}
	edges := 0
	for i, n := range a.nodes {
		id := n.n.ID
		l, ok := d.label[id]
		if !ok {
			return "node " + id + " is not drawn"
		}
		if d.entry[id] != ent[i] {
			return fmt.Sprintf("node %q is drawn as entry: %v, it is: %v", l, d.entry[id], ent[i])
		}
		if d.end[id] != a.end[i] {
			return fmt.Sprintf("node %q is drawn as end: %v, it is: %v", l, d.end[id], a.end[i])
		}
		switch v := n.n.Elem.(type) {
		case goabnf.ElemRulename:
			if !strings.EqualFold(l, v.Name) {
				return fmt.Sprintf("rule node %s is labelled %q", v.Name, l)
			}
		case goabnf.ElemCharVal:
			if !labelPattern(v.Values).MatchString(l) {
				return fmt.Sprintf("literal %q is labelled %q", string(v.Values), l)
			}
		case goabnf.ElemNumVal:
			at := 0
			for _, x := range v.Elems {
				j := strings.Index(l[at:], x)
				if j < 0 {
					return fmt.Sprintf("num-val %v is labelled %q", v.Elems, l)
				}
				at += j + len(x)
			}
			if (v.Status == goabnf.StatRange) != strings.Contains(l, "-") {
				return fmt.Sprintf("num-val %v (range: %v) is labelled %q", v.Elems, v.Status == goabnf.StatRange, l)
			}
		}
		for _, j := range n.nexts {
			e := [2]string{id, a.nodes[j].n.ID}
			if d.edges[e] != 1 {
				return fmt.Sprintf("edge %q -> %q is drawn %d times", l, d.label[e[1]], d.edges[e])
			}
			edges++
		}
	}
	if len(d.edges) != edges {
		return fmt.Sprintf("%d edges are drawn, the graph has %d", len(d.edges), edges)
	}
	if d.empty != a.empty {
		return fmt.Sprintf("the empty word is drawn: %v, the graph spells it: %v", d.empty, a.empty)
	}
	return ""
}

func runDraw(c *Ctx, cs *Case) {
	root := cs.G.Root()
	short := cs.G.Short()
	for _, o := range tgOptsFor(cs.G, root) {
		g := toImpl(cs.G)
		tg, err := g.TransitionGraph(root, o.opts()...)
		if err != nil {
			c.Outcome("no graph")
			continue
		}
		c.Traces++
		n := 0
		if a, _ := readTG(tg); a != nil {
			c.States += int64(len(a.nodes))
			for i := range a.nodes {
				n += 1 + len(a.nodes[i].nexts)
			}
		}
		if n > 1500 { // the drawing is built by repeated copying
			c.Outcome("large graph skipped")
			continue
		}
		for range 2 { // drawing must not disturb the graph
			if why := checkDrawing(tg, tg.ToMermaid()); why != "" {
				c.Fail(short+" "+o.String(), "drawing of the graph %s of %s: %s", o, short, why)
				break
			}
		}
		c.Outcome("graph drawn")
	}
	checkDepDrawing(c, cs.G)
}

// checkDepDrawing: the dependency drawing has exactly the reference edges of the
// grammar's rules, and of the core rules they use, and spells each rule one way.
func checkDepDrawing(c *Ctx, g *ref.Grammar) {
	short := g.Short()
	k := "depgraph " + short
	dg := toImpl(g).DependencyGraph()
	s := dg.Mermaid()
	c.Traces++
	lines := strings.Split(s, "\n")
	if !strings.HasPrefix(lines[0], "flowchart") {
		c.Fail(k, "dependency drawing of %s has no flowchart header", short)
	}
	spelled := map[string]string{}
	got := map[string]int{}
	for _, l := range lines[1:] {
		if strings.TrimSpace(l) == "" {
			continue
		}
		m := drawEdge.FindStringSubmatch(l)
		if m == nil {
			if f := strings.Fields(l); len(f) != 1 {
				c.Fail(k, "dependency drawing of %s: line %q", short, l)
				return
			}
			continue // a node on its own
		}
		for _, n := range m[1:] {
			lo := strings.ToLower(n)
			if o, ok := spelled[lo]; ok && o != n {
				c.Fail(k, "dependency drawing of %s has %q and %q as different nodes:\n%s", short, o, n, s)
				return
			}
			spelled[lo] = n
		}
		got[strings.ToLower(m[1])+" -> "+strings.ToLower(m[2])]++
	}
	want, seen := depEdges(g)
	var diff []string
	for e := range want {
		if got[e] != 1 {
			diff = append(diff, fmt.Sprintf("%s drawn %d times", e, got[e]))
		}
	}
	for e := range got {
		if !want[e] {
			diff = append(diff, e+" drawn, but not in the grammar")
		}
	}
	sort.Strings(diff)
	if len(diff) > 0 {
		c.Fail(k, "dependency drawing of %s: %s", short, strings.Join(diff, "; "))
	}
	for n := range dg {
		if !seen[strings.ToLower(n)] {
			c.Fail(k, "dependency graph of %s has %s, which it does not use", short, n)
			break
		}
	}
	for n := range seen {
		if dg[n] == nil {
			c.Fail(k, "dependency graph of %s lacks %s", short, n)
		}
	}
	c.Outcome("dependencies drawn")
}

// depEdges lists the reference edges of the grammar's rules and of the core
// rules they use, and those rules, in lower case.
func depEdges(g *ref.Grammar) (want, seen map[string]bool) {
	want, seen = map[string]bool{}, map[string]bool{}
	var visit func(n string)
	visit = func(n string) {
		n = strings.ToLower(n)
		r := g.Lookup(n)
		if seen[n] || r == nil {
			return
		}
		seen[n] = true
		for _, d := range r.Alt.Refs() {
			want[n+" -> "+strings.ToLower(d)] = true
			visit(d)
		}
	}
	for _, r := range g.Rules {
		visit(r.Name)
	}
	return want, seen
}

func c22Units(tier string, yield func(Unit) bool) {
	unit := func(cs *Case) bool {
		return yield(Unit{Desc: cs.Desc, Run: func(c *Ctx) { runDraw(c, cs) }})
	}
	w1, w2, lv := 4, 4, 1
	if tier == "thorough" {
		w1, w2, lv = 5, 6, 2
	}
	if !(graphScaleCases([]int{3, 9, 10, 11, 26, 27, 33, 100, 101, 130, 256}, unit) && nameCases(2, unit) && termCases(lv, unit) && classCases(lv, unit) && diamondCases(lv, unit) && structCases(w1, w2, true, unit) && recCases(lv, unit)) {
		return
	}
	// all digraphs on three rules, in several syntactic positions
	for _, names := range [][]string{{"a", "b", "c"}, {"Ab", "cD", "EF"}, {"ALPHA", "r", "WSP"}} {
		for kind := 0; kind < 3; kind++ {
			for bits := 0; bits < 1<<9; bits++ {
				g := digraphGrammar(names, 3, bits, kind)
				if !yield(Unit{Desc: g.Short, Run: func(c *Ctx) { checkDepDrawing(c, g) }}) {
					return
				}
			}
		}
	}
}

func init() {
	register(&Check{
		ID:        "C22",
		Rule:      "the regular families of C09, rule-name spellings and all digraphs on three rules; the Mermaid text of every transition graph (all option combinations) and dependency graph is parsed back and compared with the graph's exported fields and with the grammar's references",
		Enumerate: c22Units,
	})
}
