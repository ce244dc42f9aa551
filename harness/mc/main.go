// Command mc is the bounded model checker: for each property it enumerates a
// finite space of behaviours completely, executes the real implementation on
// every one of them, and compares with the reference model (package ref).
//
//	mc check  <ID> <quick|thorough>      run the check for a property
//	mc worker <ID> <tier> ...            (internal) one shard of a check
//	mc replay <file>                     re-run one recorded violation
//	mc list                              list the checks
package main

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Check is one property's exploration.
type Check struct {
	ID string
	// Enumerate yields the units of the space in a fixed order, simplest first.
	Enumerate func(tier string, yield func(Unit) bool)
	// Rule states the space and the oracle, in words.
	Rule        string
	Assumptions []string
	// Setup runs once in every worker, before the first unit; nil is fine.
	Setup func(tier string)
	// Shards limits the number of worker processes (0: one per core).
	Shards int
	// StuckS overrides the per-unit no-progress limit, in seconds.
	StuckS int
}

// Unit is one element of the space (a grammar, a history, ...).
type Unit struct {
	Desc func() string
	Run  func(*Ctx)
}

// Ctx collects what a unit's run covered and whether it failed.
type Ctx struct {
	States, Transitions, Traces int64
	Outcomes                    map[string]int64
	fails                       []Failure
	verbose                     bool
}

// Failure is one observed violation. Key identifies it in the known-findings
// file.
type Failure struct {
	Key string `json:"key"`
	Msg string `json:"msg"`
}

func (c *Ctx) Outcome(k string) { c.Outcomes[k]++ }

// Fail records a violation.
func (c *Ctx) Fail(key, format string, a ...any) {
	if len(c.fails) < 20 {
		msg := fmt.Sprintf(format, a...)
		if len(msg) > 2500 {
			msg = msg[:2500] + "..."
		}
		c.fails = append(c.fails, Failure{Key: key, Msg: msg})
	}
}

// AddRef accounts for reference-model work.
func (c *Ctx) AddRef(states, transitions int64) {
	c.States += states
	c.Transitions += transitions
}

var checks = map[string]*Check{}

func register(c *Check) { checks[c.ID] = c }

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: mc check|worker|replay|list")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "list":
		var ids []string
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Println(id)
		}
	case "check":
		os.Exit(parent(os.Args[2], os.Args[3]))
	case "worker":
		worker(os.Args[2:])
	case "replay":
		os.Exit(replay(os.Args[2]))
	case "count":
		n := 0
		checks[os.Args[2]].Enumerate(os.Args[3], func(Unit) bool { n++; return true })
		fmt.Println(n)
	default:
		os.Exit(2)
	}
}

// ---------------------------------------------------------------------------
// Worker
// ---------------------------------------------------------------------------

type record struct {
	T       string           `json:"t"` // fail | done | sample
	Unit    int64            `json:"unit"`
	Desc    string           `json:"desc,omitempty"`
	Fails   []Failure        `json:"fails,omitempty"`
	Units   int64            `json:"units,omitempty"`
	States  int64            `json:"states,omitempty"`
	Trans   int64            `json:"trans,omitempty"`
	Traces  int64            `json:"traces,omitempty"`
	Out     map[string]int64 `json:"out,omitempty"`
	Partial bool             `json:"partial,omitempty"`
}

const (
	exitMem = 77
	memCap  = 3 << 30
)

// worker args: ID tier shard nshards progressFile deadlineUnix onlyUnit
func worker(a []string) {
	ck := checks[a[0]]
	tier := a[1]
	shard, _ := strconv.ParseInt(a[2], 10, 64)
	nsh, _ := strconv.ParseInt(a[3], 10, 64)
	pf, err := os.OpenFile(a[4], os.O_RDWR|os.O_CREATE, 0o644)
	if err != nil {
		fmt.Println(err)
		os.Exit(3)
	}
	dl, _ := strconv.ParseInt(a[5], 10, 64)
	only, _ := strconv.ParseInt(a[6], 10, 64)
	start, _ := strconv.ParseInt(a[7], 10, 64)
	deadline := time.Unix(dl, 0)

	debug.SetMaxStack(256 << 20)
	if f := os.Getenv("MC_PROF"); f != "" {
		if w, err := os.Create(f); err == nil {
			_ = pprof.StartCPUProfile(w)
			defer pprof.StopCPUProfile()
		}
	}
	go memWatch()
	if ck.Setup != nil {
		ck.Setup(tier)
	}
	w := bufio.NewWriter(os.Stdout)
	enc := json.NewEncoder(w)
	var tot record
	tot.T, tot.Out = "done", map[string]int64{}
	var buf [8]byte
	idx := int64(-1)
	samples := 0
	lastFlush := time.Now()
	first := "" // mutation campaigns stop all workers at the first failure
	if os.Getenv("MC_FIRST") != "" {
		first = filepath.Join(os.TempDir(), "first")
	}
	ck.Enumerate(tier, func(u Unit) bool {
		idx++
		if only >= 0 {
			if idx < only {
				return true
			}
			if idx > only {
				return false
			}
		} else if mix(idx)%uint64(nsh) != uint64(shard) || idx < start {
			return true
		}
		binary.LittleEndian.PutUint64(buf[:], uint64(idx))
		_, _ = pf.WriteAt(buf[:], 0)
		c := runUnit(u)
		tot.Units++
		tot.States += c.States
		tot.Trans += c.Transitions
		tot.Traces += c.Traces
		for k, v := range c.Outcomes {
			tot.Out[k] += v
		}
		if len(c.fails) > 0 {
			_ = enc.Encode(record{T: "fail", Unit: idx, Desc: u.Desc(), Fails: c.fails})
			w.Flush()
			if first != "" {
				_ = os.WriteFile(first, nil, 0o644)
			}
		} else if samples < 2 && (tot.Units == 1 || tot.Units == 200) {
			samples++
			_ = enc.Encode(record{T: "sample", Unit: idx, Desc: u.Desc()})
		}
		if time.Since(lastFlush) > 2*time.Second {
			w.Flush()
			lastFlush = time.Now()
		}
		if first != "" && only < 0 {
			if _, err := os.Stat(first); err == nil {
				tot.Partial = true
				return false
			}
		}
		if only < 0 && time.Now().After(deadline) {
			tot.Partial = true
			return false
		}
		return true
	})
	_ = enc.Encode(tot)
	w.Flush()
}

func mix(i int64) uint64 {
	x := uint64(i)
	x ^= x >> 33
	x *= 0xff51afd7ed558ccd
	x ^= x >> 33
	x *= 0xc4ceb9fe1a85ec53
	x ^= x >> 33
	return x
}

func runUnit(u Unit) (c *Ctx) {
	c = &Ctx{Outcomes: map[string]int64{}}
	defer func() {
		if r := recover(); r != nil {
			c.Fail("panic", "panic: %v\n%s", r, trimStack(debug.Stack()))
		}
	}()
	u.Run(c)
	return c
}

func trimStack(b []byte) string {
	s := string(b)
	if i := strings.Index(s, "panic("); i >= 0 {
		s = s[i:]
	}
	if len(s) > 1500 {
		s = s[:1500]
	}
	return s
}

func memWatch() {
	for {
		time.Sleep(300 * time.Millisecond)
		b, err := os.ReadFile("/proc/self/statm")
		if err != nil {
			return
		}
		f := strings.Fields(string(b))
		if len(f) > 1 {
			p, _ := strconv.ParseInt(f[1], 10, 64)
			if p*int64(os.Getpagesize()) > memCap {
				fmt.Fprintln(os.Stderr, "memory limit exceeded")
				os.Exit(exitMem)
			}
		}
	}
}

// ---------------------------------------------------------------------------
// Parent
// ---------------------------------------------------------------------------

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

type violation struct {
	Property string    `json:"property"`
	Tier     string    `json:"tier"`
	Unit     int64     `json:"unit"`
	Desc     string    `json:"desc"`
	Fails    []Failure `json:"fails"`
	Replay   string    `json:"replay_cmd"`
}

func parent(id, tier string) int {
	ck := checks[id]
	if ck == nil {
		fmt.Println("unknown property", id)
		return 2
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	begin := time.Now()
	limit := 620 * time.Second
	if tier == "thorough" {
		limit = 4 * 3600 * time.Second
	}
	if s := os.Getenv("VERIF_LIMIT_S"); s != "" {
		n, _ := strconv.Atoi(s)
		limit = time.Duration(n) * time.Second
	}
	deadline := begin.Add(limit)
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	if ck.Shards > 0 && n > ck.Shards {
		n = ck.Shards
	}
	stuck := 120 * time.Second
	if ck.StuckS > 0 {
		stuck = time.Duration(ck.StuckS) * time.Second
	}
	scratch, err := os.MkdirTemp("", "mc-"+id+"-")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer os.RemoveAll(scratch)
	os.Setenv("TMPDIR", scratch) // whatever a worker leaves behind goes with it

	var mu sync.Mutex
	var vs []violation
	var samples []string
	tot := record{Out: map[string]int64{}}
	exhaustive := true
	var wg sync.WaitGroup
	for s := 0; s < n; s++ {
		wg.Add(1)
		go func(s int) {
			defer wg.Done()
			startAt := int64(0)
			crashes := 0
			for { // restarted after a crash, past the crashing unit
				res := runWorker(ck, tier, s, n, filepath.Join(scratch, fmt.Sprintf("p%d", s)), deadline, -1, startAt, stuck)
				mu.Lock()
				for _, r := range res.recs {
					switch r.T {
					case "fail":
						vs = append(vs, violation{Property: id, Tier: tier, Unit: r.Unit, Desc: r.Desc, Fails: r.Fails})
					case "sample":
						if len(samples) < 6 {
							samples = append(samples, r.Desc)
						}
					case "done":
						tot.Units += r.Units
						tot.States += r.States
						tot.Trans += r.Trans
						tot.Traces += r.Traces
						for k, v := range r.Out {
							tot.Out[k] += v
						}
						if r.Partial {
							exhaustive = false
						}
					}
				}
				many := len(vs) > 200
				mu.Unlock()
				if res.ok {
					return
				}
				mu.Lock()
				vs = append(vs, violation{Property: id, Tier: tier, Unit: res.unit, Desc: "(unit " + strconv.FormatInt(res.unit, 10) + ")",
					Fails: []Failure{{Key: res.how, Msg: res.how + ": " + res.detail}}})
				mu.Unlock()
				crashes++
				if many || time.Now().After(deadline) || res.unit < 0 || res.how == "no-progress" || crashes > 4 {
					mu.Lock()
					exhaustive = false
					mu.Unlock()
					return
				}
				startAt = res.unit + 1
			}
		}(s)
	}
	wg.Wait()

	sort.Slice(vs, func(i, j int) bool { return vs[i].Unit < vs[j].Unit })
	known := loadKnown(id)
	printedKnown := map[string]bool{}
	var real []violation
	for _, v := range vs {
		var rest []Failure
		for _, f := range v.Fails {
			if what, ok := known[f.Key]; ok {
				if !printedKnown[f.Key] {
					printedKnown[f.Key] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, what)
				}
				continue
			}
			rest = append(rest, f)
		}
		if len(rest) > 0 {
			v.Fails = rest
			real = append(real, v)
		}
	}

	// Confirm each candidate by re-running it alone; report only what repeats.
	var confirmed []violation
	for i, v := range real {
		if len(confirmed) >= 3 || i >= 12 || (len(confirmed) > 0 && time.Since(begin) > 120*time.Second) || time.Since(begin) > 700*time.Second && tier == "quick" {
			break
		}
		hits, runs := 0, 5
		if v.Desc[0] != '(' {
			runs = 40 // rare outcomes of map order: stop after five unless none has failed
		}
		for k := 0; k < runs; k++ {
			// A worker that stopped for good (crash, no progress, memory) is
			// expensive to repeat; one repeat decides.
			if k >= 1 && v.Desc[0] == '(' || k >= 5 && hits > 0 {
				runs = k
				break
			}
			res := runWorker(ck, tier, 0, 1, filepath.Join(scratch, "confirm"), time.Now().Add(10*time.Minute), v.Unit, 0, stuck)
			if !res.ok {
				hits++
				continue
			}
			for _, r := range res.recs {
				if r.T == "fail" {
					for _, f := range r.Fails {
						if _, ok := known[f.Key]; !ok {
							hits++
							if v.Desc == "" || v.Desc[0] == '(' {
								v.Desc = r.Desc
							}
							break
						}
					}
				}
			}
		}
		if hits > 0 {
			if d := describe(ck, tier, v.Unit); d != "" {
				v.Desc = d
			}
			confirmed = append(confirmed, v)
			if hits < runs {
				fmt.Printf("note: unit %d failed in %d of %d repeats (the implementation is nondeterministic there)\n", v.Unit, hits, runs)
			}
		} else {
			fmt.Printf("note: unit %d failed once and in none of %d repeats; not reported as a violation: %s\n", v.Unit, runs, v.Fails[0].Msg)
			exhaustive = false
		}
	}

	// Evidence.
	wall := time.Since(begin).Seconds()
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": map[string]any{
			"states": tot.States, "transitions": tot.Trans,
			"traces_validated_against_impl": tot.Traces,
			"units":                         tot.Units,
			"outcomes":                      tot.Out,
			"rule":                          ck.Rule,
			"samples":                       samples,
			"exhaustive":                    exhaustive,
		},
		"assumptions": ck.Assumptions,
		"wall_s":      wall,
		"violations":  len(confirmed),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	_ = os.MkdirAll(filepath.Join(verifDir(), "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verifDir(), "evidence", id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println("cannot write evidence:", err)
	}
	fmt.Printf("%s %s: units=%d states=%d transitions=%d traces=%d exhaustive=%v wall=%.1fs\n", id, tier, tot.Units, tot.States, tot.Trans, tot.Traces, exhaustive, wall)
	var ks []string
	for k := range tot.Out {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("  outcome %-28s %d\n", k, tot.Out[k])
	}
	if len(real) > 0 {
		fmt.Printf("%d failing unit(s) observed\n", len(real))
	}
	if len(confirmed) == 0 {
		return 0
	}
	dir := filepath.Join(verifDir(), "replays")
	_ = os.MkdirAll(dir, 0o755)
	for i, v := range confirmed {
		p := filepath.Join(dir, fmt.Sprintf("%s-%d.json", id, i))
		v.Replay = "cd /verif && ./run.sh replay " + p
		b, _ := json.MarshalIndent(v, "", " ")
		_ = os.WriteFile(p, append(b, '\n'), 0o644)
		fmt.Printf("unit %d: %s\n", v.Unit, v.Desc)
		for _, f := range v.Fails {
			fmt.Printf("   %s\n", clipS(f.Msg))
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, p)
	}
	return 1
}

func describe(ck *Check, tier string, unit int64) string {
	i := int64(-1)
	d := ""
	ck.Enumerate(tier, func(u Unit) bool {
		i++
		if i == unit {
			d = u.Desc()
			return false
		}
		return true
	})
	return d
}

type workerResult struct {
	recs   []record
	ok     bool
	unit   int64
	how    string
	detail string
}

func runWorker(ck *Check, tier string, shard, n int, pf string, deadline time.Time, only, startAt int64, stuck time.Duration) workerResult {
	var res workerResult
	res.unit = -1
	_ = os.Remove(pf)
	cmd := exec.Command(os.Args[0], "worker", ck.ID, tier, strconv.Itoa(shard), strconv.Itoa(n), pf,
		strconv.FormatInt(deadline.Unix(), 10), strconv.FormatInt(only, 10), strconv.FormatInt(startAt, 10))
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOTRACEBACK=single")
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	out, _ := cmd.StdoutPipe()
	var errb tailBuffer
	cmd.Stderr = &errb
	if err := cmd.Start(); err != nil {
		res.how, res.detail = "start", err.Error()
		return res
	}
	stop := make(chan struct{})
	killed := make(chan struct{})
	go func() {
		last, since := int64(-2), time.Now()
		for {
			select {
			case <-stop:
				return
			case <-time.After(500 * time.Millisecond):
			}
			if u := readProgress(pf); u != last {
				last, since = u, time.Now()
			}
			if time.Since(since) > stuck {
				close(killed)
				_ = cmd.Process.Kill()
				return
			}
		}
	}()
	sc := bufio.NewScanner(out)
	sc.Buffer(make([]byte, 1<<20), 64<<20)
	done := false
	for sc.Scan() {
		var r record
		if json.Unmarshal(sc.Bytes(), &r) == nil && r.T != "" {
			res.recs = append(res.recs, r)
			if r.T == "done" {
				done = true
			}
		}
	}
	err := cmd.Wait()
	close(stop)
	if err == nil && done {
		res.ok = true
		return res
	}
	res.unit = readProgress(pf)
	select {
	case <-killed:
		res.how, res.detail = "no-progress", fmt.Sprintf("no progress for %s", stuck)
	default:
		res.how, res.detail = "crash", errb.String()
		if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() == exitMem {
			res.how, res.detail = "memory", "worker exceeded its memory limit"
		}
	}
	return res
}

func readProgress(pf string) int64 {
	b, err := os.ReadFile(pf)
	if err != nil || len(b) < 8 {
		return -1
	}
	return int64(binary.LittleEndian.Uint64(b))
}

type tailBuffer struct{ b []byte }

func (t *tailBuffer) Write(p []byte) (int, error) {
	if len(t.b) < 3000 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}
func (t *tailBuffer) String() string {
	if len(t.b) > 3000 {
		return string(t.b[:3000])
	}
	return string(t.b)
}

// loadKnown reads the committed known findings of a property: lines
//
//	known: property=<id> key=<key> :: <what fails>
//
// "fixed:" lines are documentation and suppress nothing.
func loadKnown(id string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(filepath.Join(verifDir(), "known_findings.txt"))
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		rest, ok := strings.CutPrefix(l, "known: property="+id+" key=")
		if !ok {
			continue
		}
		key, what, ok := strings.Cut(rest, " :: ")
		if ok {
			out[key] = what
		}
	}
	return out
}

func replay(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var v violation
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Println(err)
		return 2
	}
	ck := checks[v.Property]
	i := int64(-1)
	rc := 0
	if ck.Setup != nil {
		ck.Setup(v.Tier)
	}
	ck.Enumerate(v.Tier, func(u Unit) bool {
		i++
		if i < v.Unit {
			return true
		}
		fmt.Println(u.Desc())
		c := runUnit(u)
		for _, f := range c.fails {
			fmt.Println("  FAIL", f.Msg)
			rc = 1
		}
		return false
	})
	return rc
}
