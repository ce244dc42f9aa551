package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"

	goabnf "github.com/pandatix/go-abnf"

	"verif/harness/ref"
)

// repoDir is the tree under check, as the harness's go.mod names it.
func repoDir() string {
	b, err := os.ReadFile(filepath.Join(verifDir(), "harness", "go.mod"))
	if err == nil {
		for _, l := range strings.Split(string(b), "\n") {
			if _, to, ok := strings.Cut(l, "github.com/pandatix/go-abnf => "); ok {
				return strings.TrimSpace(to)
			}
		}
	}
	return "/repo"
}

var cliDir string

// cliSetup builds the two programs from the working tree, once per worker.
func cliSetup(string) {
	dir, err := os.MkdirTemp("", "verif-cli-")
	if err != nil {
		panic(err)
	}
	for _, b := range [][2]string{{"pap", "cmd/pap"}, {"abnf-gen", "cmd/abnf-gen"}} {
		cmd := exec.Command("go", "build", "-o", filepath.Join(dir, b[0]), ".")
		cmd.Dir = filepath.Join(repoDir(), b[1])
		cmd.Env = append(os.Environ(), "GOFLAGS=-mod=readonly", "GOWORK=off")
		if out, err := cmd.CombinedOutput(); err != nil {
			panic(fmt.Sprintf("building %s: %v\n%s", b[1], err, out))
		}
	}
	cliDir = dir
}

type cliRun struct {
	code     int
	out, err []byte
}

// run executes a program in a scratch directory.
func cli(dir, prog string, stdin []byte, args ...string) cliRun {
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, filepath.Join(cliDir, prog), args...)
	cmd.Dir = dir
	cmd.Stdin = bytes.NewReader(stdin)
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	err := cmd.Run()
	r := cliRun{out: so.Bytes(), err: se.Bytes()}
	var ee *exec.ExitError
	switch {
	case err == nil:
	case errors.As(err, &ee):
		r.code = ee.ExitCode()
	default:
		panic(err)
	}
	return r
}

// cliTexts are the grammars given to the programs: valid ones of each kind, and
// ones refused at every stage.
var cliTexts = []string{
	"r = \"a\" / 1*2s\r\ns = %x62 / %s\"C\"\r\n",
	"r = *(\"a\" / \"b\") [s]\r\nS = 2DIGIT ALPHA\r\n",
	"r = r \"a\" / \"b\"\r\ns = r\r\n",
	"r = [\"a\"] ; comment\r\n",
	"r = \"\"\r\n",
	"Rule-1 = %d97-99 / r\r\nr = %b1100001.1100010\r\n",
	"r = s\r\n",
	"r = 3*2\"a\"\r\ns = \"b\"\r\n",
	"r = <prose>\r\ns = \"a\"\r\n",
	"r = \"a\"\n",
	"r = %x110000\r\n",
	"",
	"r = \"a\"\r\nr = \"b\"\r\n",
	"r = \"a\"\r\nr =/ \"b\"\r\n",
	"ALPHA = \"a\"\r\n",
	"r \x00= \"a\"\r\n",
	"r = \"a\" \"\"\r\n\r\n",
	"r = 300\"a\"\r\n",
	"r = %x41-5A / %x0 / %xE9 / %x10FFFF\r\ns = \"%s\" \"\\n\"\r\n",
}

// via says how a grammar reaches the program.
var cliVia = []string{"stdin", "dash", "file"}

func (r cliRun) refused(who string) string {
	if r.code != 1 {
		return fmt.Sprintf("%s: exit code %d, the library refuses it", who, r.code)
	}
	if len(r.out) != 0 {
		return fmt.Sprintf("%s: refused, but wrote %q to stdout", who, clip(r.out))
	}
	if len(r.err) == 0 {
		return who + ": refused without a message"
	}
	return ""
}

func (r cliRun) is(who string, want []byte) string {
	if r.code != 0 {
		return fmt.Sprintf("%s: exit code %d (%s), the library answers %q", who, r.code, clip(r.err), clip(want))
	}
	if !bytes.Equal(r.out, want) {
		return fmt.Sprintf("%s: stdout %q, the library answers %q", who, clip(r.out), clip(want))
	}
	return ""
}

// wl canonises a drawing up to the names of its nodes.
func (d *drawing) wl() string {
	col := map[string]string{}
	for n, l := range d.label {
		col[n] = fmt.Sprintf("%q %v %v", l, d.entry[n], d.end[n])
	}
	for range 4 {
		nx := map[string]string{}
		for n := range col {
			var out, in []string
			for e, k := range d.edges {
				if e[0] == n {
					out = append(out, fmt.Sprintf("%d%s", k, col[e[1]]))
				}
				if e[1] == n {
					in = append(in, fmt.Sprintf("%d%s", k, col[e[0]]))
				}
			}
			sort.Strings(out)
			sort.Strings(in)
			nx[n] = fmt.Sprintf("%x", sha256.Sum256([]byte(col[n]+"|"+strings.Join(out, ",")+"|"+strings.Join(in, ","))))
		}
		col = nx
	}
	var all []string
	for _, c := range col {
		all = append(all, c)
	}
	sort.Strings(all)
	return fmt.Sprintf("%v %v", d.empty, all)
}

func runCLI(c *Ctx, text, via, cmd string) {
	dir, err := os.MkdirTemp("", "verif-cli-run-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	file := filepath.Join(dir, "g.abnf")
	if err := os.WriteFile(file, []byte(text), 0o644); err != nil {
		panic(err)
	}
	var stdin []byte
	var base []string
	switch via {
	case "stdin":
		stdin = []byte(text)
	case "dash":
		stdin = []byte(text)
		base = []string{"--input", "-"}
	case "file":
		base = []string{"--input", file}
	}
	try := func(prog string, args []string, judge func(who string, r cliRun) string) {
		r := cli(dir, prog, stdin, args...)
		who := fmt.Sprintf("%s %q on %q (%s)", prog, args, text, via)
		c.Traces++
		if why := judge(who, r); why != "" {
			c.Fail(who, "%s", why)
		}
		c.Outcome(fmt.Sprintf("%s exit=%d", cmd, r.code))
		if b, _ := os.ReadFile(file); string(b) != text {
			c.Fail(who, "%s changed its input file", who)
		}
	}
	lib, libErr := goabnf.ParseABNF([]byte(text))
	_ = lib
	names := []string{"r", "R", "s", "Rule-1", "alpha", "nope", ""}
	pap := func(args ...string) []string {
		return append(append([]string{cmd}, base...), args...)
	}
	switch cmd {
	case "validate":
		for _, f := range [][]string{nil, {"--sem-val"}, {"--sem-val=true"}, {"--sem-val=false"}} {
			g, err := goabnf.ParseABNF([]byte(text), goabnf.WithValidation(len(f) == 0 || f[0] != "--sem-val=false"))
			try("pap", pap(f...), func(who string, r cliRun) string {
				if err != nil {
					return r.refused(who)
				}
				if r.code != 0 {
					return fmt.Sprintf("%s: exit code %d (%s), the grammar is valid", who, r.code, clip(r.err))
				}
				// the pretty print may list rules in any order: read it back
				back, err := goabnf.ParseABNF(bytes.TrimSuffix(r.out, []byte("\n")), goabnf.WithValidation(false), goabnf.WithRedefineCoreRules(true))
				if err != nil || dumpImpl(back) != dumpImpl(g) {
					return fmt.Sprintf("%s: stdout %q is not the grammar (%v)", who, clip(r.out), err)
				}
				return ""
			})
		}
	case "regex":
		for _, n := range names {
			var re string
			err := libErr
			if err == nil {
				re, err = lib.Regex(n)
			}
			try("pap", pap("--rulename", n), func(who string, r cliRun) string {
				if err != nil {
					return r.refused(who)
				}
				return r.is(who, []byte(re+"\n"))
			})
		}
		try("pap", pap(), usage)
	case "transition-graph":
		flag := []string{"", "--deflate-%s", "--deflate-%s=true", "--deflate-%s=false"}
		for _, n := range names {
			for v := 0; v < 4*4*4*3; v++ {
				if via != "stdin" && v%7 != 0 || n != "r" && v%5 != 0 {
					continue
				}
				args := []string{"--rulename", n}
				var opts []goabnf.TGOption
				x := v
				for _, k := range []string{"rules", "charvals", "numvals"} {
					if f := flag[x%4]; f != "" {
						args = append(args, fmt.Sprintf(f, k))
					}
					on := x%4 == 1 || x%4 == 2
					switch k {
					case "rules":
						opts = append(opts, goabnf.WithDeflateRules(on))
					case "charvals":
						opts = append(opts, goabnf.WithDeflateCharVals(on))
					case "numvals":
						opts = append(opts, goabnf.WithDeflateNumVals(on))
					}
					x /= 4
				}
				switch x {
				case 1:
					args = append(args, "--repetition-threshold", "1")
					opts = append(opts, goabnf.WithRepetitionThreshold(1))
				case 2:
					args = append(args, "--repetition-threshold", "400")
					opts = append(opts, goabnf.WithRepetitionThreshold(400))
				}
				var tg *goabnf.TransitionGraph
				err := libErr
				if err == nil {
					tg, err = lib.TransitionGraph(n, opts...)
				}
				try("pap", pap(args...), func(who string, r cliRun) string {
					if err != nil {
						return r.refused(who)
					}
					if r.code != 0 {
						return fmt.Sprintf("%s: exit code %d (%s), the library builds it", who, r.code, clip(r.err))
					}
					got, why := readDrawing(string(r.out))
					if why != "" {
						return who + ": " + why
					}
					want, why := readDrawing(tg.ToMermaid())
					if why != "" {
						return who + ": " + why
					}
					if got.wl() != want.wl() {
						return fmt.Sprintf("%s: draws a graph of %d nodes and %d edges, the library one of %d nodes and %d edges", who, len(got.label), len(got.edges), len(want.label), len(want.edges))
					}
					return ""
				})
			}
		}
		try("pap", pap(), usage)
	case "generate":
		for _, n := range names {
			for _, seed := range []string{"", "0", "1", "-7", "123456789012"} {
				for _, rm := range []string{"", "1", "5"} {
					for _, th := range []string{"", "1", "64"} {
						if via != "stdin" && (rm != "" || th != "") {
							continue
						}
						args := []string{"--rulename", n}
						var opts []goabnf.GenerateOption
						var s, k, t int64
						if seed != "" {
							args = append(args, "--seed="+seed)
							fmt.Sscan(seed, &s)
						}
						if rm != "" {
							args = append(args, "--rep-max", rm)
							fmt.Sscan(rm, &k)
							opts = append(opts, goabnf.WithRepMax(int(k)))
						}
						if th != "" {
							args = append(args, "--threshold", th)
							fmt.Sscan(th, &t)
							opts = append(opts, goabnf.WithThreshold(int(t)))
						}
						var want []byte
						err := libErr
						if err == nil {
							want, err = lib.Generate(s, n, opts...)
						}
						try("pap", pap(args...), func(who string, r cliRun) string {
							if err != nil {
								return r.refused(who)
							}
							if seed != "" {
								return r.is(who, append(append([]byte{}, want...), '\n'))
							}
							if r.code != 0 || !bytes.HasSuffix(r.out, []byte("\n")) {
								return fmt.Sprintf("%s: exit code %d (%s)", who, r.code, clip(r.err))
							}
							w := r.out[:len(r.out)-1]
							if m := ref.NewModel(gramFromImpl(lib, n), n); len(w) < 300 && !m.AcceptsLong(w) {
								return fmt.Sprintf("%s: %q is no word", who, clip(w))
							}
							return ""
						})
					}
				}
			}
		}
		try("pap", pap(), usage)
	case "abnf-gen":
		if via != "file" {
			return
		}
		for _, n := range names {
			for v := 0; v < 12; v++ {
				args := []string{"-in", file}
				if n != "" {
					args = append(args, "-root", n)
				}
				var opts []goabnf.ABNFOption
				switch v % 3 {
				case 1:
					args = append(args, "-no-validate")
					opts = append(opts, goabnf.WithValidation(false))
				case 2:
					args = append(args, "-no-validate=false")
				}
				dst := filepath.Join(dir, "out.go")
				os.Remove(dst)
				pkg := "pk"
				switch v / 3 {
				case 0:
				case 1:
					args = append(args, "-out", "-")
				case 2:
					args = append(args, "-out", dst)
				case 3:
					args = append(args, "-out", dst)
					if err := os.WriteFile(dst, []byte("before"), 0o644); err != nil {
						panic(err)
					}
					pkg = "other"
				}
				args = append(args, "-pkg", pkg)
				want, err := goabnf.GenerateGoParserFromABNF([]byte(text), n, pkg, opts...)
				if n == "" {
					err = errors.New("-root missing")
				}
				try("abnf-gen", args, func(who string, r cliRun) string {
					file, ferr := os.ReadFile(dst)
					if err != nil {
						if v/3 == 3 && string(file) != "before" || v/3 != 3 && ferr == nil {
							return who + ": refused, but wrote the output file"
						}
						return r.refused(who)
					}
					if v/3 < 2 {
						if ferr == nil {
							return who + ": wrote a file unasked"
						}
						return r.is(who, want)
					}
					if r.code != 0 || !bytes.Equal(file, want) {
						return fmt.Sprintf("%s: exit code %d, the output file is not the library's source", who, r.code)
					}
					return ""
				})
			}
		}
		try("abnf-gen", []string{"-root", "r", "-pkg", "pk"}, usage)
		try("abnf-gen", []string{"-in", file, "-root", "r"}, usage)
		try("abnf-gen", []string{"-in", filepath.Join(dir, "missing"), "-root", "r", "-pkg", "pk"}, usage)
		try("abnf-gen", []string{"-in", file, "-root", "r", "-pkg", "pk", "-out", filepath.Join(dir, "no", "such", "dir.go")}, usage)
	}
	if cmd != "abnf-gen" && via == "file" {
		args := []string{cmd, "--input", filepath.Join(dir, "missing")}
		if cmd != "validate" {
			args = append(args, "--rulename", "r")
		}
		try("pap", args, usage)
	}
}

func usage(who string, r cliRun) string {
	if r.code == 0 {
		return who + ": exit code 0"
	}
	return ""
}

func c23Units(tier string, yield func(Unit) bool) {
	for _, cmd := range []string{"validate", "regex", "abnf-gen", "generate", "transition-graph"} {
		for _, text := range cliTexts {
			for _, via := range cliVia {
				if cmd == "abnf-gen" && via != "file" {
					continue
				}
				u := Unit{
					Desc: func() string { return fmt.Sprintf("%s of %q from %s", cmd, text, via) },
					Run:  func(c *Ctx) { runCLI(c, text, via, cmd) },
				}
				if !yield(u) {
					return
				}
			}
		}
	}
}

func init() {
	register(&Check{
		ID:        "C23",
		Rule:      "both programs are built from the working tree and run on every grammar text of a list x way of input x command x every combination of flag values; exit code, stdout, stderr and files are compared with what the library answers to the same request",
		Enumerate: c23Units,
		Setup:     cliSetup,
		StuckS:    240,
	})
}
