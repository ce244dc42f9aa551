package main

import (
	"fmt"
	"math/rand"
	"regexp"
	"strconv"
	"unicode/utf8"

	goabnf "github.com/pandatix/go-abnf"

	"verif/harness/ref"
)

// ---- controlled nondeterminism ---------------------------------------------------

// ctlSource is a random source under the explorer's control: draw i returns
// choice dec[i] (0 beyond the end), placed so that Intn(n) yields choice mod n.
type ctlSource struct {
	dec  []byte
	used int
}

func (s *ctlSource) Int63() int64 {
	var k int64
	if s.used < len(s.dec) {
		k = int64(s.dec[s.used])
	}
	s.used++
	return k<<32 | k
}
func (s *ctlSource) Seed(int64) {}

// choiceTree runs gen on every decision sequence over 0..fan-1 up to depth:
// a sequence is extended only at decisions the run actually drew.
func choiceTree(fan, depth int, gen func(*rand.Rand) []byte, visit func(dec []byte, out []byte, drawn int) bool) (runs int) {
	dec := make([]byte, 0, depth)
	var walk func() bool
	walk = func() bool {
		s := &ctlSource{dec: dec}
		out := gen(rand.New(s))
		runs++
		if !visit(dec, out, s.used) {
			return false
		}
		// extend: all longer sequences whose first non-zero choice after dec is at
		// a drawn position
		base := len(dec)
		top := s.used
		if top > depth {
			top = depth
		}
		for p := base; p < top; p++ {
			for k := 1; k < fan; k++ {
				dec = dec[:base]
				for len(dec) < p {
					dec = append(dec, 0)
				}
				dec = append(dec, byte(k))
				if !walk() {
					return false
				}
			}
		}
		dec = dec[:base]
		return true
	}
	walk()
	return runs
}

// wordCheck remembers verdicts of the reference model.
type wordCheck struct {
	m    *ref.Model
	seen map[string]bool
}

func newWordCheck(m *ref.Model) *wordCheck { return &wordCheck{m: m, seen: map[string]bool{}} }

func (w *wordCheck) ok(s []byte) bool {
	if v, ok := w.seen[string(s)]; ok {
		return v
	}
	v := w.m.AcceptsLong(s)
	w.seen[string(s)] = v
	return v
}

// ---- C11: tape generator ------------------------------------------------------------

type genCfg struct {
	name                 string
	length, reps, steps  int
	setL, setR, setS, st bool
}

func (g genCfg) opts() []goabnf.GenOption {
	var o []goabnf.GenOption
	if g.setL {
		o = append(o, goabnf.WithMaxLength(g.length))
	}
	if g.setR {
		o = append(o, goabnf.WithMaxReps(g.reps))
	}
	if g.setS {
		o = append(o, goabnf.WithMaxSteps(g.steps))
	}
	if g.st {
		o = append(o, goabnf.WithStableAddressing())
	}
	return o
}

// limits are the budgets in force, with their documented defaults.
func (g genCfg) limits() (length, reps, steps int) {
	length, reps, steps = 4096, 32, 100000
	if g.setL {
		length = g.length
	}
	if g.setR {
		reps = g.reps
	}
	if g.setS {
		steps = g.steps
	}
	return
}

var genCfgs = []genCfg{
	{name: "length<=40", setL: true, length: 40},
	{name: "default"},
	{name: "stable", st: true},
	{name: "length<=1", setL: true, length: 1},
	{name: "length<=3,stable", setL: true, length: 3, st: true},
	{name: "reps<=1", setR: true, reps: 1},
	{name: "reps<=2", setR: true, reps: 2},
	{name: "steps<=2", setS: true, steps: 2},
	{name: "all 0", setL: true, setR: true, setS: true},
	{name: "all -1", setL: true, setR: true, setS: true, length: -1, reps: -1, steps: -1},
}

// byteTapes: every tape over the alphabet up to n bytes.
func byteTapes(alpha []byte, n int) [][]byte {
	var al []string
	for _, b := range alpha {
		al = append(al, string([]byte{b}))
	}
	return ref.Strings(al, n)
}

var (
	tapesQuick = append(append([][]byte{nil}, byteTapes([]byte{0, 1, 2, 0xFF}, 3)...), longTapes()...)
)

func longTapes() [][]byte {
	var out [][]byte
	for _, pat := range []string{"\x01", "\xff", "\x00\x01", "\x01\x01\x00", "\x02\x01", "\x05\x03\x02"} {
		for _, n := range []int{8, 40, 300} {
			b := make([]byte, n)
			for i := range b {
				b[i] = pat[i%len(pat)]
			}
			out = append(out, b)
		}
	}
	return out
}

// spread encodes each tape byte as one four-byte slot.
func spread(tape []byte) []byte {
	out := make([]byte, 0, 4*len(tape))
	for _, b := range tape {
		out = append(out, 0, 0, 0, b)
	}
	return out
}

// graphSize: bounds used to judge the generator's budgets.
type graphSize struct {
	edges, maxEmit, maxDist, fan int
	refNode                      bool
}

// dists: fewest steps from each node to an end, -1 if there is no way.
func (a *tgAuto) dists() []int {
	dist := make([]int, len(a.nodes))
	for i := range dist {
		dist[i] = -1
		if a.end[i] {
			dist[i] = 0
		}
	}
	for ch := true; ch; {
		ch = false
		for i, nd := range a.nodes {
			for _, m := range nd.nexts {
				if dist[m] >= 0 && (dist[i] < 0 || dist[i] > dist[m]+1) {
					dist[i] = dist[m] + 1
					ch = true
				}
			}
		}
	}
	return dist
}

// explains reports whether some walk of the graph that keeps the budgets spells
// out: free choice while they last, a shortest way to an end once the length or
// the steps are spent, and the nearest way on where every edge is spent.
func (a *tgAuto) explains(out []byte, dist []int, L, R, S int) bool {
	if len(out) == 0 && a.empty {
		return true
	}
	budget := 20000
	visits := map[[2]int]int{}
	var walk func(n, p, k int) bool
	walk = func(n, p, k int) bool {
		if budget--; budget < 0 {
			return true // too ambiguous to tell
		}
		p = ref.MatchTerm(a.nodes[n].e, out, p)
		if p < 0 {
			return false
		}
		over := p >= L || k >= S
		best, capped := -1, true
		for _, m := range a.nodes[n].nexts {
			if dist[m] < 0 {
				continue
			}
			if best < 0 || dist[m] < best {
				best = dist[m]
			}
			if visits[[2]int{n, m}] < R {
				capped = false
			}
		}
		if a.end[n] {
			if p == len(out) {
				return true
			}
			if over || capped {
				return false
			}
		}
		for _, m := range a.nodes[n].nexts {
			if dist[m] < 0 {
				continue
			}
			e := [2]int{n, m}
			if over || capped {
				if dist[m] != best {
					continue
				}
			} else if visits[e] >= R {
				continue
			}
			visits[e]++
			ok := walk(m, p, k+1)
			visits[e]--
			if ok {
				return true
			}
		}
		return false
	}
	for _, e := range a.entries {
		if dist[e] >= 0 && walk(e, 0, 0) {
			return true
		}
	}
	return false
}

func (a *tgAuto) size() graphSize {
	var z graphSize
	z.fan = len(a.entries)
	if a.empty {
		z.fan++
	}
	dist := a.dists()
	for i, nd := range a.nodes {
		z.edges += len(nd.nexts)
		z.maxDist = max(z.maxDist, dist[i])
		z.fan = max(z.fan, len(nd.nexts)+1)
		switch nd.e.K {
		case ref.KRef:
			z.refNode = true
		case ref.KChar:
			z.maxEmit = max(z.maxEmit, len(nd.e.Text))
			k := 0
			for _, r := range nd.e.Text {
				if !nd.e.Sens && caseless(string(r)) {
					k++
				}
			}
			if k > 20 {
				k = 20
			}
			z.fan = max(z.fan, 1<<uint(k))
		case ref.KSeries:
			z.maxEmit = max(z.maxEmit, 4*len(nd.e.Vals))
		case ref.KRange:
			z.maxEmit = max(z.maxEmit, 4)
			z.fan = max(z.fan, int(min(nd.e.Vals[1], 0x10FFFF)-nd.e.Vals[0]+1))
		}
	}
	return z
}

// genGraphOpts: the option combinations worth a generator.
func genGraphOpts(g *ref.Grammar, root string) []tgOpt {
	out := []tgOpt{{rules: true}}
	nums := hasKindReach(g, root, ref.KRange) || hasKindReach(g, root, ref.KSeries)
	if widestRange(g, root) > 300 {
		nums = false
	}
	if nums {
		out = append(out, tgOpt{rules: true, nums: true})
	}
	if hasKindReach(g, root, ref.KChar) {
		out = append(out, tgOpt{rules: true, nums: nums, chars: true})
	}
	return out
}

func genOutside(cs *Case) bool {
	root := cs.G.Root()
	return cs.G.Cyclic(root) || cs.G.HasKind(ref.KProse) || semanticallyInvalid(cs.G) || overThreshold(cs.G, root, true, 256)
}

func runC11(c *Ctx, cs *Case) {
	root, short := cs.G.Root(), cs.G.Short()
	if genOutside(cs) {
		c.Outcome("outside")
		return
	}
	m := ref.NewModel(cs.G, root)
	productive := m.Productive()[0]
	wc := newWordCheck(m)
	g := toImpl(cs.G)
	before := dumpImpl(g)
	// a graph with rule nodes is refused
	if tg, err := g.TransitionGraph(root); err == nil {
		a, _ := readTG(tg)
		if a.size().refNode {
			if _, err := goabnf.NewGenerator(tg); err == nil {
				c.Fail(short, "NewGenerator accepts the graph of %s although it has unexpanded rules", short)
			}
			c.Outcome("unexpanded refused")
		}
	}
	for oi, o := range genGraphOpts(cs.G, root) {
		tg, err := g.TransitionGraph(root, o.opts()...)
		if err != nil {
			c.Fail(short, "TransitionGraph %s of %s: %v", o, short, err)
			continue
		}
		tg2, _ := toImpl(cs.G).TransitionGraph(root, o.opts()...)
		a, _ := readTG(tg)
		z, dist := a.size(), a.dists()
		for ci, cfg := range genCfgs {
			if oi > 0 && ci != 0 && ci != 2 {
				continue // the budgets act on the walk, whatever the nodes carry
			}
			gen, err := goabnf.NewGenerator(tg, cfg.opts()...)
			c.Traces++
			if !productive {
				if err == nil {
					c.Fail(short, "NewGenerator on %s (%s), which derives nothing: no error; it generates %q", short, o, gen.Generate(nil))
				}
				c.Outcome("nothing to generate")
				continue
			}
			if err != nil {
				c.Fail(short, "NewGenerator on %s (%s, %s): %v", short, o, cfg.name, err)
				continue
			}
			gen2, err := goabnf.NewGenerator(tg2, cfg.opts()...)
			if err != nil {
				c.Fail(short, "NewGenerator on a second graph of %s (%s, %s): %v", short, o, cfg.name, err)
				continue
			}
			var plain *goabnf.Generator
			if cfg.st && z.fan <= 256 {
				cfg2 := cfg
				cfg2.st = false
				plain, _ = goabnf.NewGenerator(tg, cfg2.opts()...)
			}
			bound := budgetBound(cfg, z)
			bl, br, bs := cfg.limits()
			explained := map[string]bool{}
			explain := func(out []byte) bool {
				v, ok := explained[string(out)]
				if !ok {
					v = a.explains(out, dist, bl, br, bs)
					explained[string(out)] = v
				}
				return v
			}
			var mine own
			for ti, tape := range tapesQuick {
				if !cfg.setL && (len(tape) > 40 || len(tape) > 3 && z.edges > 4) {
					continue // productions too long for the reference model
				}
				if cfg.st && ti%2 == 1 {
					tape = spread(tape)
				}
				keep := string(tape)
				out := gen.Generate(tape)
				c.Traces++
				if why := mine.next(out); why != "" {
					c.Fail(short, "Generator on %s (%s, %s): %s", short, o, cfg.name, why)
				}
				if string(tape) != keep {
					c.Fail(short, "Generate on %s (%s, %s) changed the tape", short, o, cfg.name)
				}
				if out == nil || !wc.ok(out) {
					c.Fail(short, "Generate(%q) on %s (%s, %s) gives %q, which the grammar rejects", clip(tape), short, o, cfg.name, clip(out))
					break
				}
				if len(out) > bound {
					c.Fail(short, "Generate(%q) on %s (%s, %s) gives %d bytes, beyond the %d its budgets allow", clip(tape), short, o, cfg.name, len(out), bound)
					break
				}
				if !explain(out) {
					c.Fail(short, "Generate(%q) on %s (%s, %s) gives %q: no walk of the graph that keeps its budgets and then takes the nearest way out spells it", clip(tape), short, o, cfg.name, clip(out))
					break
				}
				if again := gen.Generate(tape); string(again) != string(out) {
					c.Fail(short, "Generate(%q) on %s (%s, %s) gives %q, then %q", clip(tape), short, o, cfg.name, clip(out), clip(again))
					break
				}
				if again := gen2.Generate(tape); string(again) != string(out) {
					c.Fail(short, "Generate(%q) on %s (%s, %s) gives %q, on a second build of the graph %q", clip(tape), short, o, cfg.name, clip(out), clip(again))
					break
				}
				if plain != nil && ti%2 == 0 {
					if p, s := plain.Generate(tape), gen.Generate(spread(tape)); string(p) != string(s) {
						c.Fail(short, "on %s (%s): decisions %q read from a plain tape give %q, from stable slots %q", short, o, clip(tape), clip(p), clip(s))
						break
					}
				}
			}
			// the random-source variant, every choice sequence
			if ci == 0 || ci == 6 {
				produced := map[string]bool{}
				fan, depth := min(z.fan, 5), 4
				if ci == 0 && oi == 0 {
					switch {
					case fan <= 2:
						depth = 8
					case fan == 3:
						depth = 6
					}
				}
				bad := false
				c.Traces += int64(choiceTree(fan, depth, gen.GenerateRand, func(dec, out []byte, _ int) bool {
					produced[string(out)] = true
					if !wc.ok(out) {
						c.Fail(short, "GenerateRand (choices %v) on %s (%s, %s) gives %q, which the grammar rejects", dec, short, o, cfg.name, clip(out))
						bad = true
					}
					if len(out) > bound {
						c.Fail(short, "GenerateRand (choices %v) on %s (%s, %s) gives %d bytes, beyond %d", dec, short, o, cfg.name, len(out), bound)
						bad = true
					}
					if !explain(out) {
						c.Fail(short, "GenerateRand (choices %v) on %s (%s, %s) gives %q: no walk of the graph that keeps its budgets spells it", dec, short, o, cfg.name, clip(out))
						bad = true
					}
					return !bad
				}))
				// Short words of small graphs are all produced: one choice for the
				// entry, per character one for its value and one for the way on.
				if ci == 0 && z.fan <= 5 && !bad {
					for _, in := range cs.Inputs {
						if 1+2*len(in) > max(depth, 3) || !wc.ok(in) {
							continue
						}
						if !produced[string(in)] {
							c.Fail(short, "GenerateRand on %s (%s): no sequence of choices produces %q", short, o, in)
						}
						c.Outcome("short word produced")
					}
				}
			}
			c.Outcome("generated")
		}
	}
	if dumpImpl(g) != before {
		c.Fail(short, "generation changed the grammar %s", short)
	}
	c.AddRef(m.St.States, m.St.Transitions)
}

// budgetBound is the most bytes a production can have: a budget that is spent
// leaves one node being emitted and a shortest way to an end.
func budgetBound(cfg genCfg, z graphSize) int {
	tail := (1 + z.maxDist) * z.maxEmit
	l, r, s := cfg.limits()
	b := max(0, l-1) + tail
	b = min(b, (max(0, s)+1)*z.maxEmit+tail)
	// a spent edge budget steers too, and may do so again after each further choice
	return min(b, (max(0, r)*z.edges+1)*tail+tail)
}

func clip(b []byte) []byte {
	if len(b) > 60 {
		return append(append([]byte{}, b[:60]...), "..."...)
	}
	return b
}

// ---- C14: near misses ------------------------------------------------------------------

var (
	reOffset = regexp.MustCompile(`offset (\d+)`)
	reLen    = regexp.MustCompile(`\(len (\d+)\)`)
)

func lcp(a, b []byte) int {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	return i
}

var (
	reBoundary = regexp.MustCompile(`^byte at offset (\d+) is one (below|above) num-val range %([xdb])([0-9a-fA-F]+)-([0-9a-fA-F]+)$`)
	reSubst    = regexp.MustCompile(`^byte at offset (\d+) substituted with 0x([0-9a-f]{2})$`)
	reTrunc    = regexp.MustCompile(`^truncated by (\d+) byte`)
	reTrail    = regexp.MustCompile(`^trailing byte 0x([0-9a-f]{2}) appended$`)
	reDelete   = regexp.MustCompile(`^byte at offset (\d+) deleted$`)
)

// labelWrong re-does the edit a label names. Labels of another form are left to
// the other demands.
func labelWrong(base, out []byte, label string) string {
	num := func(s string, b int) int { n, _ := strconv.ParseInt(s, b, 64); return int(n) }
	cat := func(p ...[]byte) []byte {
		var r []byte
		for _, x := range p {
			r = append(r, x...)
		}
		return r
	}
	var want []byte
	if x := reBoundary.FindStringSubmatch(label); x != nil {
		at, b := num(x[1], 10), map[string]int{"x": 16, "d": 10, "b": 2}[x[3]]
		lo, hi := num(x[4], b), num(x[5], b)
		if at > len(base) {
			return "no such offset"
		}
		r, n := utf8.DecodeRune(base[at:])
		if n == 0 || int(r) < lo || int(r) > hi {
			return "no character of that range is there"
		}
		nb := lo - 1
		if x[2] == "above" {
			nb = hi + 1
		}
		if nb < 0 || !utf8.ValidRune(rune(nb)) {
			return "there is no such character"
		}
		want = cat(base[:at], []byte(string(rune(nb))), base[at+n:])
	} else if x := reSubst.FindStringSubmatch(label); x != nil {
		at := num(x[1], 10)
		if at >= len(base) {
			return "no such offset"
		}
		want = cat(base[:at], []byte{byte(num(x[2], 16))}, base[at+1:])
	} else if x := reTrunc.FindStringSubmatch(label); x != nil {
		k := num(x[1], 10)
		if k > len(base) {
			return "no such length"
		}
		want = base[:len(base)-k]
	} else if x := reTrail.FindStringSubmatch(label); x != nil {
		want = cat(base, []byte{byte(num(x[1], 16))})
	} else if x := reDelete.FindStringSubmatch(label); x != nil {
		at := num(x[1], 10)
		if at >= len(base) {
			return "no such offset"
		}
		want = cat(base[:at], base[at+1:])
	} else {
		return ""
	}
	if string(want) != string(out) {
		return fmt.Sprintf("that edit gives %q", clip(want))
	}
	return ""
}

func runC14(c *Ctx, cs *Case) {
	root, short := cs.G.Root(), cs.G.Short()
	if genOutside(cs) {
		c.Outcome("outside")
		return
	}
	m := ref.NewModel(cs.G, root)
	if !m.Productive()[0] {
		c.Outcome("nothing to generate")
		return
	}
	wc := newWordCheck(m)
	g := toImpl(cs.G)
	for oi, o := range genGraphOpts(cs.G, root) {
		tg, err := g.TransitionGraph(root, o.opts()...)
		if err != nil {
			c.Fail(short, "TransitionGraph %s of %s: %v", o, short, err)
			continue
		}
		gen, err := goabnf.NewGenerator(tg, goabnf.WithMaxLength(24))
		if err != nil {
			c.Fail(short, "NewGenerator on %s (%s): %v", short, o, err)
			continue
		}
		check := func(how string, base, out []byte, label string, ok bool) bool {
			c.Traces++
			if !ok {
				c.Fail(short, "NearMiss(%s) on %s (%s) finds nothing, although an octet that is not UTF-8 never matches", how, short, o)
				return false
			}
			if wc.ok(out) {
				c.Fail(short, "NearMiss(%s) on %s (%s) gives %q (%s), which the grammar accepts", how, short, o, clip(out), label)
				return false
			}
			if label == "" {
				c.Fail(short, "NearMiss(%s) on %s (%s): no label", how, short, o)
				return false
			}
			if base != nil {
				p := lcp(base, out)
				rb, ro := base[p:], out[p:]
				for len(rb) > 0 && len(ro) > 0 && rb[len(rb)-1] == ro[len(ro)-1] {
					rb, ro = rb[:len(rb)-1], ro[:len(ro)-1]
				}
				near := len(rb) <= utf8.UTFMax && len(ro) <= utf8.UTFMax || len(out) < len(base) && p == len(out)
				if !near {
					c.Fail(short, "NearMiss(%s) on %s (%s) gives %q, far from the production %q", how, short, o, clip(out), clip(base))
					return false
				}
				if x := reOffset.FindStringSubmatch(label); x != nil {
					if n, _ := strconv.Atoi(x[1]); n > p {
						c.Fail(short, "NearMiss(%s) on %s (%s) gives %q from %q, labelled %q", how, short, o, clip(out), clip(base), label)
						return false
					}
				}
			}
			if base != nil {
				if why := labelWrong(base, out, label); why != "" {
					c.Fail(short, "NearMiss(%s) on %s (%s) gives %q from %q, labelled %q: %s", how, short, o, clip(out), clip(base), label, why)
					return false
				}
			}
			if x := reLen.FindStringSubmatch(label); x != nil {
				if n, _ := strconv.Atoi(x[1]); n != len(out) {
					c.Fail(short, "NearMiss(%s) on %s (%s) gives %q, labelled %q", how, short, o, clip(out), label)
					return false
				}
			}
			c.Outcome("near miss")
			return true
		}
		var mine own
		for ti, tape := range tapesNear {
			if oi > 0 && ti > 20 {
				break
			}
			how := fmt.Sprintf("%q", clip(tape))
			out, label, ok := gen.NearMiss(tape)
			if why := mine.next(out); why != "" {
				c.Fail(short, "NearMiss on %s (%s): %s", short, o, why)
			}
			if !check(how, gen.Generate(tape), out, label, ok) {
				break
			}
			out2, label2, ok2 := gen.NearMiss(tape)
			if string(out) != string(out2) || label != label2 || ok != ok2 {
				c.Fail(short, "NearMiss(%s) on %s (%s) gives %q (%s), then %q (%s)", how, short, o, out, label, out2, label2)
				break
			}
		}
		for k := byte(0); k < 8; k++ {
			out, label, ok := gen.NearMissRand(rand.New(&ctlSource{dec: []byte{k, k * 3, 255 - k}}))
			if !check(fmt.Sprintf("rand %d", k), nil, out, label, ok) {
				break
			}
		}
	}
	c.AddRef(m.St.States, m.St.Transitions)
}

var tapesNear = byteTapes([]byte{0, 1, 3, 0xFF}, 3)

// ---- C15: expected next octets -----------------------------------------------------------

// usedOctets: every octet some terminal text contains, or all when the grammar
// reaches beyond ASCII.
func usedOctets(g *ref.Grammar, root string) []byte {
	var set [256]bool
	wide := false
	seen := map[string]bool{}
	var visit func(n string)
	visit = func(n string) {
		r := g.Lookup(n)
		if r == nil || seen[r.Name] {
			return
		}
		seen[r.Name] = true
		r.Alt.WalkReps(func(rep ref.Rep) {
			e := rep.E
			switch e.K {
			case ref.KChar:
				for _, b := range []byte(e.Text) {
					set[b] = true
					if b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z' {
						set[b^0x20] = true
					}
				}
			case ref.KSeries:
				for _, v := range e.Vals {
					for _, b := range []byte(string(rune(min(v, 0x110000)))) {
						set[b] = true
					}
				}
			case ref.KRange:
				if e.Vals[1] > 0x7F {
					wide = true
				}
				for v := e.Vals[0]; v <= e.Vals[1] && v < 256; v++ {
					set[v] = true
				}
			}
		})
		for _, d := range r.Alt.Refs() {
			visit(d)
		}
	}
	visit(root)
	var out []byte
	for b := 0; b < 256; b++ {
		if wide || set[b] {
			out = append(out, byte(b))
		}
	}
	return out
}

func runC15(c *Ctx, cs *Case) {
	root, short := cs.G.Root(), cs.G.Short()
	if genOutside(cs) {
		c.Outcome("outside")
		return
	}
	m := ref.NewModel(cs.G, root)
	if !m.Productive()[0] {
		c.Outcome("nothing to generate")
		return
	}
	declined := widestRange(cs.G, root) > 1<<16
	octets := usedOctets(cs.G, root)
	type want struct {
		next    map[byte]bool
		accepts bool
	}
	// prefixes of the inputs, each once
	var prefixes []string
	wants := map[string]want{}
	{
		for _, in := range cs.Inputs {
			for k := 0; k <= min(len(in), 60); k++ {
				p := string(in[:k])
				if _, ok := wants[p]; ok {
					continue
				}
				w := want{next: map[byte]bool{}, accepts: m.Chart(in[:k]).Accepts()}
				if m.Viable(in[:k]) {
					for _, b := range octets {
						if m.Viable(append(append([]byte{}, in[:k]...), b)) {
							w.next[b] = true
						}
					}
				}
				wants[p] = w
				prefixes = append(prefixes, p)
			}
		}
	}
	g := toImpl(cs.G)
	for _, o := range genGraphOpts(cs.G, root) {
		tg, err := g.TransitionGraph(root, o.opts()...)
		if err != nil {
			c.Fail(short, "TransitionGraph %s of %s: %v", o, short, err)
			continue
		}
		gen, err := goabnf.NewGenerator(tg)
		if err != nil {
			c.Fail(short, "NewGenerator on %s (%s): %v", short, o, err)
			continue
		}
		var mine own
		for _, p := range prefixes {
			next, accepts, ok := gen.ExpectedNext([]byte(p))
			c.Traces++
			if why := mine.next(next); why != "" {
				c.Fail(key(cs.G, []byte(p)), "ExpectedNext on %s (%s): %s", short, o, why)
			}
			if !ok {
				if declined { // a range too wide to be followed is said to be
					if len(next) > 0 || accepts {
						c.Fail(key(cs.G, []byte(p)), "ExpectedNext(%q) on %s (%s) declines and answers", p, short, o)
					}
					c.Outcome("declined range")
					continue
				}
				c.Fail(short, "ExpectedNext(%q) on %s (%s) declines", p, short, o)
				break
			}
			w := wants[p]
			if accepts != w.accepts {
				c.Fail(key(cs.G, []byte(p)), "ExpectedNext(%q) on %s (%s): accepts %v, the language says %v", p, short, o, accepts, w.accepts)
			}
			got := map[byte]bool{}
			for _, b := range next {
				got[b] = true
			}
			if len(got) != len(next) {
				c.Fail(key(cs.G, []byte(p)), "ExpectedNext(%q) on %s (%s): repeated octets in %q", p, short, o, next)
			}
			for b := range got {
				if !w.next[b] {
					c.Fail(key(cs.G, []byte(p)), "ExpectedNext(%q) on %s (%s) lists %#02x, but no word starts with %q", p, short, o, b, p+string([]byte{b}))
					break
				}
			}
			for b := range w.next {
				if !got[b] {
					c.Fail(key(cs.G, []byte(p)), "ExpectedNext(%q) on %s (%s) omits %#02x, but some word starts with %q", p, short, o, b, p+string([]byte{b}))
					break
				}
			}
			c.Outcome("frontier")
		}
	}
	c.AddRef(m.St.States, m.St.Transitions)
}

// utf8Cases: ranges and literals beyond ASCII, with prefixes that stop inside a
// character.
func utf8Cases(yield func(*Case) bool) bool {
	mk := func(rs ...rune) (out [][]byte) {
		for _, r := range rs {
			s := string(r)
			out = append(out, []byte(s), []byte("a"+s), []byte(s+"a"), []byte(s+s))
			for k := 1; k < len(s); k++ {
				out = append(out, []byte(s[:k]), []byte(s[:k]+"a"), []byte(s[:k]+"\x80"), []byte(s[:k]+"\xbf"))
			}
		}
		return append(out, []byte("a"), []byte("aa"), []byte{0x80}, []byte{0xC3}, []byte{0xFF})
	}
	in := mk(0x7F, 0x80, 0xE9, 0xFF, 0x100, 0x13F, 0x140, 0x7FF, 0x800, 0xFFF, 0x1000, 0x20AC, 0xFFFF, 0x10000, 0x10FFF, 0x1F600)
	els := []*ref.Elem{
		ref.Rng(0x7E, 0x81), ref.Rng(0xE9, 0x101), ref.Rng(0xBF, 0xC0), ref.Rng(0x13F, 0x140), ref.Rng(0x7FF, 0x801), ref.Rng(0xFFE, 0x1001), ref.Rng(0x20AC, 0x20AC), ref.Rng(0xFFFE, 0x10001), ref.Rng(0x10FFE, 0x11001), ref.Rng(0x40, 0x85), ref.Rng(0xC0, 0x13F), ref.Rng(0x61, 0x900),
		ref.Ser(0xE9), ref.Ser(0x20AC, 0x61), ref.Ser(0x1F600), ref.Ser(0x61, 0x7FF), ref.Ch("\u00e9"), ref.Ch("a\u20ac"), ref.Cs("\u00ffA"), ref.Ch("\U0001F600"),
	}
	for _, e := range els {
		for _, f := range append([]*ref.Elem{ref.Ch("a")}, els[1], els[8], els[12]) {
			for _, a := range []ref.Alt{ref.AE(e), ref.AE(e, f), ref.A(ref.C(e, f)), ref.A(ref.C(f, e)), {{ref.R(1, 2, e)}}, {{ref.R(0, ref.Inf, ref.Grp(ref.AE(e, f)))}}, {{ref.One(ref.Opt(ref.AE(e))), ref.One(f)}}} {
				if !yield(&Case{G: ref.G1("r", a), Inputs: in, Fam: "utf8"}) {
					return false
				}
			}
		}
	}
	return true
}

// wideCases: choices that take more than one tape octet to address.
func wideCases(yield func(*Case) bool) bool {
	in := [][]byte{{}, []byte("a"), []byte("\u0100"), []byte("\u0101"), []byte("\u0161"), []byte("a\u0161"), []byte("ab")}
	for _, n := range []int64{255, 256, 257, 300, 511, 512, 65535, 65536, 65537, 70000} {
		for _, lo := range []int64{0, 0x61, 0x10000} {
			e := ref.Rng(lo, lo+n-1)
			for _, a := range []ref.Alt{ref.AE(e), ref.A(ref.C(e, ref.Ch("a"))), {{ref.R(0, 2, e)}}, ref.AE(ref.Ch("a"), e), ref.A(ref.C(ref.Ch("a"), e)), {{ref.R(0, ref.Inf, ref.Grp(ref.AE(e, ref.Ch("ab"))))}}} {
				if !yield(&Case{G: ref.G1("r", a), Inputs: in, Fam: "wide"}) {
					return false
				}
			}
		}
	}
	for _, hi := range []int64{0x10FFFF, 0x10FFFE} {
		if !yield(&Case{G: ref.G1("r", ref.AE(ref.Rng(0, hi))), Inputs: in, Fam: "wide"}) {
			return false
		}
	}
	// many alternatives: entry choices beyond one octet
	for _, n := range []int{255, 256, 257, 300} {
		var a ref.Alt
		for i := 0; i < n; i++ {
			a = append(a, ref.C(ref.Ser(int64(0x100+i))))
		}
		if !yield(&Case{G: ref.G1("r", a), Inputs: in, Fam: "wide"}) {
			return false
		}
	}
	return true
}

// detourCases: forks whose branches are chains of different lengths, so that the
// nearest way to an end is not the first one found.
func detourCases(yield func(*Case) bool) bool {
	const letters = "bcdefghijklmnopqrstuvwxy"
	at := 0
	chain := func(n int) ref.Concat {
		var c ref.Concat
		for i := 0; i < n; i++ {
			c = append(c, ref.One(ref.Ch(letters[at%len(letters):at%len(letters)+1])))
			at++
		}
		return c
	}
	var branches []func() ref.Concat
	for k := 1; k <= 4; k++ {
		branches = append(branches, func() ref.Concat { return chain(k) })
	}
	for i := 1; i <= 4; i++ {
		for j := 1; j <= 4; j++ {
			if i == j {
				continue
			}
			branches = append(branches, func() ref.Concat {
				return append(chain(1), ref.One(ref.Grp(ref.A(chain(i), chain(j)))))
			})
		}
	}
	in := [][]byte{{}, []byte("a"), []byte("ab")}
	// long branches
	for _, n := range []int{10, 20, 33, 65, 130} {
		for _, d := range []int{-1, 1, 5} {
			at = 0
			fork := ref.Grp(ref.A(chain(n), chain(n+d)))
			for _, a := range []ref.Alt{
				ref.A(ref.C(ref.Ch("a"), fork)),
				{{ref.R(1, ref.Inf, ref.Ch("a")), ref.One(fork)}},
			} {
				if !yield(&Case{G: ref.G1("r", a), Inputs: in, Fam: "detour"}) {
					return false
				}
			}
		}
	}
	for _, x := range branches {
		for _, y := range branches {
			at = 0
			fork := ref.Grp(ref.A(x(), y()))
			at2 := at
			for _, a := range []ref.Alt{
				ref.A(ref.C(ref.Ch("a"), fork)),
				{{ref.R(1, ref.Inf, ref.Ch("a")), ref.One(fork)}},
				{{ref.R(1, ref.Inf, fork), ref.One(ref.Ch("z"))}},
			} {
				at = at2
				if !yield(&Case{G: ref.G1("r", a), Inputs: in, Fam: "detour"}) {
					return false
				}
			}
		}
	}
	return true
}

func walkCases(tier string, yield func(*Case) bool) {
	if !graphScaleCases([]int{3, 9, 10, 17, 33, 65}, yield) {
		return
	}
	if tier == "thorough" {
		_ = realWalk(3, false, yield) && surrogateCases(yield) && utf8Cases(yield) && wideCases(yield) && detourCases(yield) && diamondCases(1, yield) && termCases(1, yield) && mixCases(2, yield) && repCases(4, 5, nil, yield) && structCases(4, 6, false, yield)
		return
	}
	_ = realWalk(5, false, yield) && surrogateCases(yield) && utf8Cases(yield) && wideCases(yield) && detourCases(yield) && diamondCases(1, yield) && termCases(1, yield) && mixCases(1, yield) && repCases(2, 3, nil, yield) && structCases(3, 4, false, yield)
}

func init() {
	register(&Check{
		ID:        "C11",
		Rule:      "every grammar of the generator universe x graph options x budgets, on every tape over {0,1,2,255} up to 3 octets and patterned long tapes, and on every sequence of up to 4 random choices: the production is a word of the language, spelled by a walk that keeps its budgets and takes the nearest way out once they are spent, the same again and on a second build of the graph, plain and stable addressing agree, short words are reachable, every choice among n is made by some tape for n around the powers of 256, and graphs that cannot generate are refused",
		Enumerate: withUnits(func(y func(Unit) bool) bool { return reachUnits(false, y) }, perCase(walkCases, runC11)),
		StuckS:    120,
	})
	register(&Check{
		ID:        "C14",
		Rule:      "every grammar of the generator universe x graph options, on every tape over {0,1,3,255} up to 3 octets: the near miss is rejected by the reference model, is a small edit of the tape's production, carries a label whose offsets and lengths are right, and is the same again",
		Enumerate: perCase(walkCases, runC14),
		StuckS:    120,
	})
	register(&Check{
		ID:        "C15",
		Rule:      "every grammar of the generator universe x graph options, on every prefix of every input: the octets listed are exactly those that extend the prefix to a prefix of some word, and acceptance is exact",
		Enumerate: perCase(walkCases, runC15),
		StuckS:    120,
	})
}
