package main

import (
	"context"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
	"time"

	goabnf "github.com/pandatix/go-abnf"

	"verif/harness/ops"
)

var (
	histOps  []ops.Op
	histWant []string
	histDump map[string]string
	raceBin  string
)

// histSetup records every operation's answer on a fresh world, before any
// history has run in this process.
func histSetup(string) {
	histOps = ops.All()
	histDump = ops.NewWorld(true, nil).Dump()
	histWant = make([]string, len(histOps))
	for i, o := range histOps {
		histWant[i] = o.Run(ops.NewWorld(o.Full, map[string]bool{o.Gram: true}))
	}
}

func runHistory(c *Ctx, seq []int) {
	full := false
	var names []string
	only := map[string]bool{}
	for _, i := range seq {
		full = full || histOps[i].Full
		names = append(names, histOps[i].Name)
		only[histOps[i].Gram] = true
	}
	h := strings.Join(names, "; ")
	build := ops.NewWorld
	if len(seq) > 2 {
		build = ops.NewClonedWorld
	}
	w := build(full, only)
	check := func(when string) {
		for k, v := range w.Dump() {
			if histDump[k] != v {
				c.Fail(h, "after %s, %s is different:\n%s\nit was\n%s", when, k, v, histDump[k])
			}
		}
	}
	check("building the values anew")
	for n, i := range seq {
		got := histOps[i].Run(w)
		c.Transitions++
		if got != histWant[i] {
			c.Fail(h, "history %q: step %d answers %s, on fresh values it answers %s", h, n+1, clipS(got), clipS(histWant[i]))
		}
		check(fmt.Sprintf("step %d of history %q", n+1, h))
	}
	c.Traces++
	c.States += int64(len(seq) + 1)
	c.Outcome(fmt.Sprintf("history of %d", len(seq)))
}

var editWant = map[[2]int]string{}

// runEdited: operation i, the caller edits the grammar, operation j. j answers
// as it does on a fresh grammar with the same edit.
func runEdited(c *Ctx, i, e, j int) {
	ed := ops.Edits()[e]
	gram := histOps[j].Gram
	h := fmt.Sprintf("%s; caller: %s; %s", histOps[i].Name, ed.Name, histOps[j].Name)
	only := map[string]bool{gram: true}
	want, ok := editWant[[2]int{e, j}]
	if !ok {
		w := ops.NewWorld(false, only)
		ed.Apply(w, gram)
		want = histOps[j].Run(w)
		editWant[[2]int{e, j}] = want
		if want != histWant[j] {
			c.Outcome("edit changes the answer")
		}
	}
	w := ops.NewWorld(false, only)
	if got := histOps[i].Run(w); got != histWant[i] {
		c.Fail(h, "%s answers %s, on fresh values it answers %s", histOps[i].Name, clipS(got), clipS(histWant[i]))
	}
	ed.Apply(w, gram)
	now := ops.DumpGrammar(w.G[gram])
	if got := histOps[j].Run(w); got != want {
		c.Fail(h, "history %q: the last step answers %s, on a fresh grammar with that edit it answers %s", h, clipS(got), clipS(want))
	}
	if ops.DumpGrammar(w.G[gram]) != now {
		c.Fail(h, "history %q: the last step changed the grammar", h)
	}
	for k, v := range w.Dump() {
		if k != gram && histDump[k] != v {
			c.Fail(h, "after history %q, %s is different:\n%s\nit was\n%s", h, k, v, histDump[k])
		}
	}
	c.Traces++
	c.Transitions += 3
	c.States += 4
	c.Outcome("history with an edit")
}

// buildRace builds the concurrent driver once per worker.
func buildRace() (string, error) {
	if raceBin != "" {
		return raceBin, nil
	}
	dir, err := os.MkdirTemp("", "verif-race-")
	if err != nil {
		return "", err
	}
	bin := filepath.Join(dir, "race")
	cmd := exec.Command("go", "build", "-race", "-o", bin, "./race")
	cmd.Dir = filepath.Join(verifDir(), "harness")
	cmd.Env = append(os.Environ(), "CGO_ENABLED=1")
	if out, err := cmd.CombinedOutput(); err != nil {
		return "", fmt.Errorf("building the concurrent driver: %v\n%s", err, out)
	}
	raceBin = bin
	return bin, nil
}

func runRace(c *Ctx, tier string) {
	const parts = 8
	bin, err := buildRace()
	if err != nil {
		panic(err)
	}
	defer func() { os.RemoveAll(filepath.Dir(bin)); raceBin = "" }()
	type ans struct {
		i          int
		out, errs  string
		err        error
		pairs      int64
		last, race string
	}
	res := make(chan ans)
	for i := range parts {
		go func() {
			ctx, cancel := context.WithTimeout(context.Background(), 300*time.Second)
			defer cancel()
			cmd := exec.CommandContext(ctx, bin, strconv.Itoa(i), strconv.Itoa(parts), tier)
			cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66")
			var so, se strings.Builder
			cmd.Stdout, cmd.Stderr = &so, &se
			err := cmd.Run()
			a := ans{i: i, out: so.String(), errs: se.String(), err: err}
			for _, l := range strings.Split(a.errs, "\n") {
				if strings.HasPrefix(l, "PAIR ") {
					a.last = l
					a.pairs++
				}
			}
			res <- a
		}()
	}
	// cold starts: each operation against itself as the first thing its process
	// does, so that nothing it would set up lazily is there already
	all := ops.All()
	cold := make(chan int)
	go func() {
		for i, o := range all {
			if o.Conc {
				cold <- i
			}
		}
		close(cold)
	}()
	var runs int
	for _, o := range all {
		if o.Conc {
			runs++
		}
	}
	for range 8 {
		go func() {
			for i := range cold {
				ctx, cancel := context.WithTimeout(context.Background(), 300*time.Second)
				cmd := exec.CommandContext(ctx, bin, "cold", strconv.Itoa(i))
				cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66")
				var so, se strings.Builder
				cmd.Stdout, cmd.Stderr = &so, &se
				err := cmd.Run()
				cancel()
				res <- ans{i: i, out: so.String(), errs: se.String(), err: err, pairs: 1, last: "cold start, " + all[i].Name + " against itself"}
			}
		}()
	}
	for range parts + runs {
		a := <-res
		c.Traces += a.pairs
		c.Outcomes["concurrent pairs"] += a.pairs
		var ee *exec.ExitError
		switch {
		case a.err == nil:
		case errors.As(a.err, &ee) && (ee.ExitCode() == 66 || ee.ExitCode() == 3 || strings.Contains(a.errs, "concurrent map")):
			at := strings.Index(a.errs, "WARNING: DATA RACE")
			c.Fail(a.last, "concurrent operations on one grammar conflict: %s\n%s%s", a.last, a.out, clipS(a.errs[max(0, at):]))
		case errors.As(a.err, &ee) && strings.Contains(a.errs, "panic:"):
			c.Fail(a.last, "concurrent operations on one grammar panic: %s\n%s", a.last, clipS(a.errs[strings.Index(a.errs, "panic:"):]))
		default:
			panic(fmt.Sprintf("concurrent driver: %v %s", a.err, clipS(a.errs)))
		}
	}
}

// runTwice asks everything of two values built from one grammar: equal
// questions have equal answers, also where several would be right (which of
// an ambiguous input's trees, which sentence for a seed).
func runTwice(c *Ctx, cs *Case) {
	root := cs.G.Root()
	a, b := toImpl(cs.G), toImpl(cs.G)
	same := func(in []byte, what string, f func(g *goabnf.Grammar) any) {
		x := f(a)
		for _, y := range []any{f(b), f(a)} {
			c.Transitions++
			if !reflect.DeepEqual(x, y) {
				c.Fail(key(cs.G, in), "%s on %s (input %q) answers %s and then %s", what, cs.G.Short(), in, clipS(show(x)), clipS(show(y)))
				return
			}
		}
	}
	for _, in := range cs.Inputs {
		same(in, "ParseForest", func(g *goabnf.Grammar) any {
			f, err := goabnf.ParseForest(in, g, root)
			if err != nil {
				return err.Error()
			}
			return []any{f.Tree(), f.NumTrees().String(), f.Nodes(), f.ParseError()}
		})
		same(in, "ParseBSR", func(g *goabnf.Grammar) any {
			f, err := goabnf.ParseBSR(in, g, root)
			if err != nil {
				return err.Error()
			}
			return []any{f.Tree(), f.NumTrees().String(), f.Nodes()}
		})
	}
	same(nil, "Regex", func(g *goabnf.Grammar) any {
		r, err := g.Regex(root)
		return []any{r, fmt.Sprint(err)}
	})
	for seed := int64(0); seed < 4; seed++ {
		same(nil, "Generate", func(g *goabnf.Grammar) any {
			r, err := g.Generate(seed, root)
			return []any{r, fmt.Sprint(err)}
		})
	}
	same(nil, "NewASTGenerator", func(g *goabnf.Grammar) any {
		ag, err := goabnf.NewASTGenerator(g, root)
		if err != nil {
			return err.Error()
		}
		return []any{ag.Generate(nil), ag.Generate([]byte{2, 7, 1, 8})}
	})
	same(nil, "GenerateGoParser", func(g *goabnf.Grammar) any {
		src, err := goabnf.GenerateGoParser(g, root, "gp")
		return []any{src, fmt.Sprint(err)}
	})
	c.Traces++
	c.States += 2
	c.Outcome("asked twice")
}

func show(v any) string {
	if l, ok := v.([]any); ok {
		var out []string
		for _, e := range l {
			if t, ok := e.(*goabnf.ParseTree); ok {
				out = append(out, showTree(t))
				continue
			}
			out = append(out, fmt.Sprintf("%q", fmt.Sprint(e)))
		}
		return strings.Join(out, " ")
	}
	return fmt.Sprint(v)
}

func showTree(t *goabnf.ParseTree) string {
	if t == nil {
		return "no tree"
	}
	s := fmt.Sprintf("(%s %d-%d", t.Rule, t.Start, t.End)
	for _, k := range t.Children {
		s += " " + showTree(k)
	}
	return s + ")"
}

func twiceCases(tier string, yield func(*Case) bool) bool {
	level, w := 1, 3
	if tier == "thorough" {
		level, w = 2, 4
	}
	return mixCases(1, yield) && recCases(level, yield) && hiddenCases(level, yield) && collideCases(level, yield) && structCases(w, w+1, true, yield)
}

func c17Units(tier string, yield func(Unit) bool) {
	all := ops.All()
	hist := func(seq ...int) bool {
		return yield(Unit{
			Desc: func() string {
				var n []string
				for _, i := range seq {
					n = append(n, all[i].Name)
				}
				return "history " + strings.Join(n, "; ")
			},
			Run: func(c *Ctx) { runHistory(c, seq) }})
	}
	if !yield(Unit{Desc: func() string { return "all pairs of grammar operations, concurrently" },
		Run: func(c *Ctx) { runRace(c, tier) }}) {
		return
	}
	for i := range all {
		if !hist(i) {
			return
		}
	}
	stop := false
	perCase(func(tier string, y func(*Case) bool) { twiceCases(tier, y) }, runTwice)(tier, func(u Unit) bool {
		stop = !yield(u)
		return !stop
	})
	if stop {
		return
	}
	for i := range all {
		for j := range all {
			if tier != "thorough" && all[i].Gram != all[j].Gram && !all[i].Core && !all[j].Core {
				continue
			}
			if !hist(i, j) {
				return
			}
		}
	}
	for i := range all {
		for j := range all {
			if all[i].Gram == "" || all[i].Gram != all[j].Gram || all[i].Full || all[j].Full || strings.Contains(all[j].Name, "ParseABNF") {
				continue
			}
			for e, ed := range ops.Edits() {
				if !yield(Unit{
					Desc: func() string {
						return fmt.Sprintf("history %s; caller: %s; %s", all[i].Name, ed.Name, all[j].Name)
					},
					Run: func(c *Ctx) { runEdited(c, i, e, j) }}) {
					return
				}
			}
		}
	}
	var core []int
	for i := range all {
		if all[i].Core {
			core = append(core, i)
		}
	}
	for _, i := range core {
		for _, j := range core {
			for _, k := range core {
				if !hist(i, j, k) {
					return
				}
			}
		}
	}
	if tier != "thorough" {
		return
	}
	for i := range all {
		for j := range all {
			for _, k := range core {
				if !all[i].Core && !hist(i, j, k) {
					return
				}
			}
		}
	}
}

func init() {
	register(&Check{
		ID:        "C17",
		Rule:      "every history of one and two operations over the pool (quick: two operations on different grammars only when one of them is in the pool's core), and of three over its core, on shared grammars, graphs, generators and forests: every answer equals the answer on fresh values, and every grammar, graph, the ABNF grammar and the core rules stay as they were; every question asked three times, of one and of two values built from one grammar, over the grammar families with ambiguity, recursion and hidden structure: equal answers, the chosen tree included; every pair of grammar operations with each kind of edit by the caller between them; every pair of grammar operations run concurrently, on grammars nothing has used before and as cold starts, under a happens-before conflict detector",
		Enumerate: c17Units,
		Setup:     histSetup,
		StuckS:    400,
	})
}
