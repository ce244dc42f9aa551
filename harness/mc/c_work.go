package main

import (
	"bytes"
	"fmt"
	"os"
	"runtime"
	"sort"
	"strings"

	goabnf "github.com/pandatix/go-abnf"
)

// ---- C24: the work stays polynomial ---------------------------------------------------
//
// Work is observed as memory taken from the allocator (octets and objects): a
// function of what the code does, not of how fast the machine is. What is judged
// is its growth when the input, or the grammar, doubles in size. Work that takes
// no memory is caught by the sizes themselves: an exponential number of steps on
// the largest one does not end.

type work struct{ bytes, objects float64 }

func measure(f func()) work {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	f()
	runtime.ReadMemStats(&b)
	// a floor, below which nothing is judged
	return work{float64(b.TotalAlloc-a.TotalAlloc) + 8192, float64(b.Mallocs-a.Mallocs) + 256}
}

func growth(a, b work) float64 { return max(b.bytes/a.bytes, b.objects/a.objects) }

// judge runs f on sizes n, 2n, 4n. A step of growth beyond limit has to show
// again on the next doubling (one step may hit a reallocation).
func judge(c *Ctx, key, what string, limit float64, n int, f func(n int)) {
	w := []work{}
	at := func(i int) work {
		for len(w) <= i {
			k := n << len(w)
			w = append(w, measure(func() { f(k) }))
			c.Traces++
		}
		return w[i]
	}
	if os.Getenv("MC_WORKLOG") != "" {
		fl, _ := os.OpenFile(fmt.Sprintf("%s.%d", os.Getenv("MC_WORKLOG"), os.Getpid()), os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
		fmt.Fprintf(fl, "%s\t%.2f\t%.2f\t%.0f\t%.0f\t%s\n", what, growth(at(0), at(1)), growth(at(1), at(2)), w[2].bytes, w[2].objects, key)
		fl.Close()
	}
	c.Transitions += 2
	c.States += 3
	if growth(at(0), at(1)) <= limit && growth(at(1), at(2)) <= limit {
		return
	}
	if g := growth(at(1), at(2)); g > 20*limit { // far beyond any polynomial in question
		c.Fail(key, "%s: %s: doubling the size from %d to %d multiplies the work by %.0f", key, what, 2*n, 4*n, g)
		return
	}
	if growth(at(1), at(2)) > limit && growth(at(2), at(3)) > limit || growth(at(0), at(1)) > limit && growth(at(1), at(3)) > limit*limit {
		c.Fail(key, "%s: %s: doubling the size from %d multiplies the work by %.1f, %.1f and %.1f", key, what, n, growth(w[0], w[1]), growth(w[1], w[2]), growth(w[2], w[3]))
	}
}

type workOp struct {
	name string
	run  func(g *goabnf.Grammar, root string, in []byte)
}

var parseOps = []workOp{
	{"IsValid", func(g *goabnf.Grammar, root string, in []byte) { _, _ = g.IsValid(root, in) }},
	{"ParseForest", func(g *goabnf.Grammar, root string, in []byte) {
		if f, err := goabnf.ParseForest(in, g, root); err == nil {
			f.Valid()
			f.Nodes()
			f.ParseError()
			f.Ambiguous()
			f.NumTrees()
			f.Tree()
		}
	}},
	{"ParseBSR", func(g *goabnf.Grammar, root string, in []byte) {
		if f, err := goabnf.ParseBSR(in, g, root); err == nil {
			f.Valid()
			f.Nodes()
			f.Ambiguous()
			f.NumTrees()
			f.Tree()
		}
	}},
}

// cubicLimit: cubic work grows eightfold; the margin is for the steps in which
// maps and slices grow.
const cubicLimit = 14

func workInputs(n int) map[string][]byte {
	return map[string][]byte{
		"a..a":   bytes.Repeat([]byte("a"), n),
		"ab..ab": bytes.Repeat([]byte("ab"), n/2),
		"a..ab":  append(bytes.Repeat([]byte("a"), n-1), 'b'),
		"a..a!":  append(bytes.Repeat([]byte("a"), n-1), '!'),
	}
}

func runC24(c *Ctx, cs *Case) {
	root := cs.G.Root()
	g := toImpl(cs.G)
	for _, e := range parseOps {
		for k := range workInputs(2) {
			judge(c, cs.G.Short(), e.name+" of "+k, cubicLimit, 10, func(n int) { e.run(g, root, workInputs(n)[k]) })
		}
	}
	c.Outcome("input growth")
}

// ---- growth with the grammar -------------------------------------------------------

var grammarOps = append([]workOp{
	{"RuleContainsCycle", func(g *goabnf.Grammar, root string, _ []byte) { _, _ = g.RuleContainsCycle(root) }},
	{"IsDAG", func(g *goabnf.Grammar, _ string, _ []byte) { g.IsDAG() }},
	{"DependencyGraph", func(g *goabnf.Grammar, _ string, _ []byte) { _ = g.DependencyGraph().Mermaid() }},
	{"SemvalABNF", func(g *goabnf.Grammar, _ string, _ []byte) { _ = goabnf.SemvalABNF(g) }},
	{"printing", func(g *goabnf.Grammar, _ string, _ []byte) { _, _ = g.String(), g.PrettyPrint() }},
	{"GenerateGoParser", func(g *goabnf.Grammar, root string, _ []byte) { _, _ = goabnf.GenerateGoParser(g, root, "gp") }},
	{"Generate", func(g *goabnf.Grammar, root string, _ []byte) {
		_, _ = g.Generate(3, root, goabnf.WithThreshold(4), goabnf.WithRepMax(2))
	}},
	{"ASTGenerator.Generate", func(g *goabnf.Grammar, root string, _ []byte) {
		if a, err := goabnf.NewASTGenerator(g, root, goabnf.WithMaxLen(4), goabnf.WithMaxRepeat(2)); err == nil {
			a.Generate(nil)
			a.Generate([]byte{1, 2, 3, 1, 2, 3, 1, 2, 3, 1})
		}
	}},
	{"NewASTGenerator", func(g *goabnf.Grammar, root string, _ []byte) { _, _ = goabnf.NewASTGenerator(g, root) }},
	{"Regex within a length", func(g *goabnf.Grammar, root string, _ []byte) { _, _ = g.Regex(root, goabnf.WithMaxRegexLen(2000)) }},
	{"TransitionGraph", func(g *goabnf.Grammar, root string, _ []byte) { _, _ = g.TransitionGraph(root) }},
	{"TransitionGraph within a node budget", func(g *goabnf.Grammar, root string, _ []byte) {
		_, _ = g.TransitionGraph(root, append([]goabnf.TGOption{goabnf.WithMaxNodes(300)}, fullDeflateOpts...)...)
	}},
}, treeless...)

// treeless: a tree of a ladder may itself be exponential in the grammar, so it is
// not extracted; the number of trees may have exponentially many digits.
var treeless = []workOp{
	parseOps[0],
	{"ParseForest", func(g *goabnf.Grammar, root string, in []byte) {
		if f, err := goabnf.ParseForest(in, g, root); err == nil {
			f.Valid()
			f.Nodes()
			f.ParseError()
			f.Ambiguous()
		}
	}},
	{"ParseBSR", func(g *goabnf.Grammar, root string, in []byte) {
		if f, err := goabnf.ParseBSR(in, g, root); err == nil {
			f.Valid()
			f.Nodes()
			f.Ambiguous()
		}
	}},
	{"NumTrees", func(g *goabnf.Grammar, root string, in []byte) {
		if f, err := goabnf.ParseForest(in, g, root); err == nil {
			f.NumTrees()
		}
		if f, err := goabnf.ParseBSR(in, g, root); err == nil {
			f.NumTrees()
		}
	}},
}

// oneWay: a word needs one occurrence of one other rule per rule, so a derivation
// is no longer than the ladder.
func oneWay(step string) bool {
	switch step {
	case "N", "N / \"x\" N", "N / N", "\"x\" N / \"y\" N", "N / M", "(N / (N / N))", "M / [N] \"x\"", "N / [\"x\"] M":
		return true
	}
	return false
}

var fullDeflateOpts = []goabnf.TGOption{goabnf.WithDeflateRules(true), goabnf.WithDeflateNumVals(true), goabnf.WithDeflateCharVals(true)}

// ladders: rule i refers to rule i+1 in the given way; the last rule is the
// bottom. Sharing makes the number of paths exponential in the size.
var (
	ladderSteps = []string{
		"N", "N / \"x\" N", "N N", "[N] N", "N [N]", "(N / \"y\") N", "N / N", "*1N N", "\"x\" N / \"y\" N", "N M", "N / M", "(N / (N / N))", "[N [N]]", "M / [N] \"x\"", "1*2N", "*N", "2N", "\"x\" [N M]", "N / [\"x\"] M",
	}
	ladderBottoms = []string{"\"a\"", "\"\"", "[\"a\"]", "%x61-63", "TOP", "TOP / \"a\"", "<p>", "SELF", "SELF \"a\" / \"a\"", "\"a\" [TOP]", "undefd"}
)

func ladder(step, bottom string, n int) string {
	var b strings.Builder
	nm := func(i int) string { return fmt.Sprintf("r%d", i) }
	for i := 0; i < n; i++ {
		s := strings.ReplaceAll(step, "M", nm(min(i+2, n)))
		fmt.Fprintf(&b, "%s = %s\r\n", nm(i), strings.ReplaceAll(s, "N", nm(i+1)))
	}
	s := strings.ReplaceAll(strings.ReplaceAll(bottom, "TOP", "r0"), "SELF", nm(n))
	fmt.Fprintf(&b, "%s = %s\r\n", nm(n), s)
	return b.String()
}

// towers: one rule whose text grows.
var towers = map[string]func(n int) string{
	"nested groups":  func(n int) string { return "r = " + strings.Repeat("(", n) + "\"a\"" + strings.Repeat(")", n) + "\r\n" },
	"nested options": func(n int) string { return "r = " + strings.Repeat("[", n) + "\"a\"" + strings.Repeat("]", n) + "\r\n" },
	"nested repetitions": func(n int) string {
		return "r = " + strings.Repeat("*(", n) + "\"a\"" + strings.Repeat(")", n) + "\r\n"
	},
	"nested choices": func(n int) string {
		return "r = " + strings.Repeat("(\"a\" / ", n) + "\"b\"" + strings.Repeat(")", n) + "\r\n"
	},
	"nested suffixes": func(n int) string {
		return "r = " + strings.Repeat("[\"a\" ", n) + "\"b\"" + strings.Repeat("]", n) + "\r\n"
	},
	"alternatives": func(n int) string { return "r = \"a\"" + strings.Repeat(" / \"a\"", n) + "\r\n" },
	"distinct alternatives": func(n int) string {
		s := "r = \"a\""
		for i := range n {
			s += fmt.Sprintf(" / %%x%X", 0x100+i)
		}
		return s + "\r\n"
	},
	"options in a row":     func(n int) string { return "r = \"a\"" + strings.Repeat(" [\"a\"]", n) + "\r\n" },
	"stars in a row":       func(n int) string { return "r = \"a\"" + strings.Repeat(" *\"a\"", n) + "\r\n" },
	"a long concatenation": func(n int) string { return "r = \"a\"" + strings.Repeat(" \"a\"", n) + "\r\n" },
	"a long literal":       func(n int) string { return "r = \"" + strings.Repeat("a", n) + "\"\r\n" },
	"a long series":        func(n int) string { return "r = %x61" + strings.Repeat(".61", n) + "\r\n" },
	"a wide range":         func(n int) string { return fmt.Sprintf("r = %%x61-%X\r\n", 0x62+n) },
	"many rules": func(n int) string {
		s := "r = \"a\"\r\n"
		for i := range n {
			s += fmt.Sprintf("s%d = r\r\n", i)
		}
		return s
	},
	"comments":    func(n int) string { return "r = \"a\"" + strings.Repeat(" ; c\r\n ", n) + "\r\n" },
	"blank lines": func(n int) string { return "r = \"a\"\r\n" + strings.Repeat(" \r\n", n) },
	"spaces":      func(n int) string { return "r = " + strings.Repeat(" ", n) + "\"a\"\r\n" },
	"extensions":  func(n int) string { return "r = \"a\"\r\n" + strings.Repeat("r =/ \"b\"\r\n", n) },
	"all recursive": func(n int) string {
		var b strings.Builder
		for i := range n {
			fmt.Fprintf(&b, "r%d = ", i)
			for j := range n {
				fmt.Fprintf(&b, "r%d / ", j)
			}
			b.WriteString("\"a\"\r\n")
		}
		return strings.Replace(b.String(), "r0 = ", "r = ", 1) + "r0 = r\r\n"
	},
}

// grammarLimit bounds the growth with the grammar: no operation is worse than
// cubic in it either.
const grammarLimit = 20

func runLadder(c *Ctx, name string, text func(n int) string, root string, base int, words bool) {
	grammarLimit := float64(grammarLimit)
	if name == "all recursive" { // its text is quadratic in n
		grammarLimit *= 4
	}
	opt := goabnf.WithValidation(false)
	judge(c, name, "reading the text", grammarLimit, base, func(n int) { _, _ = goabnf.ParseABNF([]byte(text(n)), opt) })
	gs := map[int]*goabnf.Grammar{}
	for k := range 4 {
		g, err := goabnf.ParseABNF([]byte(text(base<<k)), opt)
		if err != nil {
			c.Fail(name, "%s of size %d is refused: %v", name, base<<k, err)
			return
		}
		gs[base<<k] = g
	}
	for _, op := range grammarOps {
		if !words && (strings.HasSuffix(op.name, "Generate") || op.name == "NumTrees") {
			continue
		}
		for _, in := range []string{"a", "", "xxxa", "aaaa", "!", "aaaaaaaaaaaaaaaa"} {
			if in != "a" && !strings.HasPrefix(op.name, "Parse") && op.name != "IsValid" && op.name != "NumTrees" {
				continue
			}
			judge(c, name, op.name, grammarLimit, base, func(n int) { op.run(gs[n], root, []byte(in)) })
		}
	}
	c.Outcome("grammar growth")
}

func c24Units(tier string, yield func(Unit) bool) {
	lad := func(name string, f func(n int) string, root string, base int, words bool) bool {
		return yield(Unit{Desc: func() string { return name }, Run: func(c *Ctx) { runLadder(c, name, f, root, base, words) }})
	}
	for _, s := range ladderSteps {
		for _, b := range ladderBottoms {
			if !lad(fmt.Sprintf("ladder %s over %s", s, b), func(n int) string { return ladder(s, b, n) }, "r0", 10, oneWay(s)) {
				return
			}
		}
	}
	for _, k := range sortedKeys(towers) {
		if !lad(k, towers[k], "r", 8, true) {
			return
		}
	}
	per := perCase(func(tier string, yield func(*Case) bool) {
		if tier == "thorough" {
			_ = recCases(1, yield) && hiddenCases(1, yield) && repCases(3, 4, nil, yield) && structCases(4, 6, true, yield)
			return
		}
		_ = recCases(0, yield) && hiddenCases(0, yield) && repCases(2, 3, nil, yield) && structCases(3, 4, true, yield)
	}, runC24)
	per(tier, yield)
}

func init() {
	register(&Check{
		ID:          "C24",
		Rule:        "every grammar of the recursion, nullability, repetition and structure families x four input shapes of lengths 10, 20, 40: recognition, both parsers and their queries grow at most cubically with the input; every ladder of rules (way of referring to the next x bottom rule) and every tower of nesting of sizes n, 2n, 4n: reading, recognising, parsing, cycle and dependency analysis, printing, parser generation and word generation grow polynomially (at most about cubically) with the grammar",
		Assumptions: []string{"work is observed as memory allocated; work that allocates nothing is only bounded by the watchdog"},
		Enumerate:   c24Units,
		StuckS:      60,
	})
}

func sortedKeys[V any](m map[string]V) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
