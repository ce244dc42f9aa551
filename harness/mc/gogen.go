package main

import (
	"bufio"
	"bytes"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif/harness/ref"
)

// Support for running generated parsers: the source the library emits is
// compiled with the installed toolchain, outside /repo and without touching the
// build cache, linked with a small driver, and driven over a pipe.

var goTools struct {
	once          sync.Once
	compile, link string
	stdcfg        string
	err           error
}

func toolchain() error {
	goTools.once.Do(func() {
		dir, err := exec.Command("go", "env", "GOTOOLDIR").Output()
		if err != nil {
			goTools.err = err
			return
		}
		d := strings.TrimSpace(string(dir))
		goTools.compile, goTools.link = filepath.Join(d, "compile"), filepath.Join(d, "link")
		cmd := exec.Command("go", "list", "-export", "-deps", "-f", "{{if .Export}}packagefile {{.ImportPath}}={{.Export}}{{end}}",
			"errors", "math/big", "unicode/utf8", "bufio", "os", "strconv", "encoding/hex", "strings", "bytes", "unicode", "fmt", "runtime",
			// whatever else a generated parser may come to import
			"sort", "slices", "maps", "cmp", "iter", "math", "math/bits", "math/rand", "container/list", "container/heap", "container/ring",
			"io", "sync", "sync/atomic", "context", "time", "unsafe", "unicode/utf16", "hash/fnv", "hash/maphash", "reflect", "text/tabwriter", "regexp")
		cmd.Dir = filepath.Join(verifDir(), "harness")
		out, err := cmd.Output()
		if err != nil {
			goTools.err = fmt.Errorf("go list -export: %w", err)
			return
		}
		goTools.stdcfg = string(out)
	})
	return goTools.err
}

const genDriver = `package main

import (
	"bufio"
	"encoding/hex"
	"gp"
	"os"
	"strconv"
)

var w = bufio.NewWriter(os.Stdout)

func tree(t *gp.ParseTree) {
	w.WriteString("(" + strconv.Quote(t.Rule) + " " + strconv.Itoa(t.Start) + " " + strconv.Itoa(t.End))
	for _, c := range t.Children {
		w.WriteString(" ")
		tree(c)
	}
	w.WriteString(")")
}

func one(max int, in []byte) {
	defer func() {
		if e := recover(); e != nil {
			w.WriteString("PANIC")
		}
	}()
	old := gp.MaxElements
	if max >= 0 {
		gp.MaxElements = max
		defer func() { gp.MaxElements = old }()
	}
	r, err := gp.Parse(in)
	if err != nil {
		if err == gp.ErrTooLarge {
			w.WriteString("TOOLARGE")
		} else {
			w.WriteString("ERR " + strconv.Quote(err.Error()))
		}
		return
	}
	t := r.Tree()
	w.WriteString("OK " + strconv.FormatBool(r.Valid()) + " " + r.NumTrees().String() + " " + strconv.FormatBool(r.Ambiguous()) + " " + strconv.Itoa(r.Elements()) + " ")
	if t == nil {
		w.WriteString("nil")
	} else {
		tree(t)
	}
}

func main() {
	sc := bufio.NewScanner(os.Stdin)
	sc.Buffer(make([]byte, 1<<20), 1<<24)
	for sc.Scan() {
		l := sc.Text()
		i := 0
		for l[i] != ' ' {
			i++
		}
		max, _ := strconv.Atoi(l[:i])
		in, _ := hex.DecodeString(l[i+1:])
		one(max, in)
		w.WriteString("\n")
		w.Flush()
	}
}
`

// genParser is a compiled generated parser, running as a child process.
type genParser struct {
	dir string
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
}

type genResult struct {
	Status   string // OK, TOOLARGE, ERR ..., PANIC
	Valid    bool
	Num      string
	Amb      bool
	Elements int
	Tree     *PT
}

var errCompile = errors.New("the generated source does not compile")

// buildGenerated compiles src (package gp) with the driver and starts it.
func buildGenerated(src []byte) (*genParser, error) {
	if err := toolchain(); err != nil {
		return nil, err
	}
	dir, err := os.MkdirTemp("", "vgen")
	if err != nil {
		return nil, err
	}
	fail := func(e error) (*genParser, error) { os.RemoveAll(dir); return nil, e }
	w := func(n string, b []byte) { _ = os.WriteFile(filepath.Join(dir, n), b, 0o644) }
	w("std.cfg", []byte(goTools.stdcfg))
	w("gp.go", src)
	w("main.go", []byte(genDriver))
	w("main.cfg", []byte(goTools.stdcfg+"\npackagefile gp="+filepath.Join(dir, "gp.a")+"\n"))
	run := func(a ...string) ([]byte, error) {
		c := exec.Command(a[0], a[1:]...)
		c.Dir = dir
		return c.CombinedOutput()
	}
	if o, err := run(goTools.compile, "-p", "gp", "-complete", "-importcfg", "std.cfg", "-o", "gp.a", "gp.go"); err != nil {
		return fail(fmt.Errorf("%w: %s", errCompile, firstLines(string(o), 3)))
	}
	if o, err := run(goTools.compile, "-p", "main", "-complete", "-importcfg", "main.cfg", "-o", "main.a", "main.go"); err != nil {
		return fail(fmt.Errorf("%w: %s", errCompile, firstLines(string(o), 3)))
	}
	if o, err := run(goTools.link, "-s", "-w", "-importcfg", "main.cfg", "-o", "prog", "main.a"); err != nil {
		return fail(fmt.Errorf("link: %s", firstLines(string(o), 3)))
	}
	p := &genParser{dir: dir, cmd: exec.Command(filepath.Join(dir, "prog"))}
	p.in, _ = p.cmd.StdinPipe()
	so, _ := p.cmd.StdoutPipe()
	p.out = bufio.NewReaderSize(so, 1<<20)
	if err := p.cmd.Start(); err != nil {
		return fail(err)
	}
	return p, nil
}

func (p *genParser) close() {
	p.in.Close()
	done := make(chan struct{})
	go func() { _ = p.cmd.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		_ = p.cmd.Process.Kill()
		<-done
	}
	os.RemoveAll(p.dir)
}

var errHang = errors.New("no answer within 20 s")

// parse runs the generated parser on in; max < 0 leaves MaxElements alone.
func (p *genParser) parse(in []byte, max int) (*genResult, error) {
	if _, err := io.WriteString(p.in, strconv.Itoa(max)+" "+hex.EncodeToString(in)+"\n"); err != nil {
		return nil, fmt.Errorf("the generated parser died: %v", err)
	}
	type ans struct {
		s   string
		err error
	}
	ch := make(chan ans, 1)
	go func() { s, err := p.out.ReadString('\n'); ch <- ans{s, err} }()
	var a ans
	select {
	case a = <-ch:
	case <-time.After(20 * time.Second):
		_ = p.cmd.Process.Kill()
		return nil, errHang
	}
	if a.err != nil {
		return nil, fmt.Errorf("the generated parser died: %v", a.err)
	}
	s := strings.TrimSuffix(a.s, "\n")
	r := &genResult{}
	if !strings.HasPrefix(s, "OK ") {
		r.Status = s
		return r, nil
	}
	r.Status = "OK"
	f := strings.SplitN(s[3:], " ", 5)
	if len(f) != 5 {
		return nil, fmt.Errorf("bad answer %q", s)
	}
	r.Valid, r.Num, r.Amb = f[0] == "true", f[1], f[2] == "true"
	r.Elements, _ = strconv.Atoi(f[3])
	if f[4] != "nil" {
		b := bytes.NewBufferString(f[4])
		r.Tree = readTree(b)
	}
	return r, nil
}

// readTree parses the driver's s-expression form of a tree.
func readTree(b *bytes.Buffer) *PT {
	b.Next(1) // (
	s := b.String()
	q, err := strconv.QuotedPrefix(s)
	if err != nil {
		return &PT{Rule: "<unreadable>", Start: -1, End: -1}
	}
	t := &PT{}
	t.Rule, _ = strconv.Unquote(q)
	b.Next(len(q) + 1)
	num := func() int {
		n := 0
		for {
			c, err := b.ReadByte()
			if err != nil {
				return n
			}
			if c < '0' || c > '9' {
				_ = b.UnreadByte()
				return n
			}
			n = n*10 + int(c-'0')
		}
	}
	t.Start = num()
	b.Next(1)
	t.End = num()
	for {
		c, err := b.ReadByte()
		if err != nil || c == ')' {
			return t
		}
		t.Children = append(t.Children, readTree(b))
	}
}

func firstLines(s string, n int) string {
	l := strings.SplitN(s, "\n", n+1)
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, " | ")
}

// ---------------------------------------------------------------------------
// Packing many grammars into one
// ---------------------------------------------------------------------------

// packTag is the literal selecting grammar k of a pack.
func packTag(k int) string { return fmt.Sprintf("%03d", k) }

func packName(n string, k int) string { return fmt.Sprintf("%s-g%d", n, k) }

// pack builds one grammar whose root selects grammar k by a literal tag, so a
// parser generated once serves a whole batch. Rule names are made disjoint.
func pack(gs []*ref.Grammar) *ref.Grammar {
	out := &ref.Grammar{}
	var rootAlt ref.Alt
	var rules []ref.Rule
	for k, g := range gs {
		rootAlt = append(rootAlt, ref.C(ref.Ch(packTag(k)), ref.Ref(packName(g.Root(), k))))
		for _, r := range g.Rules {
			rules = append(rules, ref.Rule{Name: packName(r.Name, k), Alt: renameAlt(r.Alt, g, k)})
		}
	}
	out.Rules = append([]ref.Rule{{Name: "pack-root", Alt: rootAlt}}, rules...)
	return out
}

func renameAlt(a ref.Alt, g *ref.Grammar, k int) ref.Alt {
	var out ref.Alt
	for _, c := range a {
		var cc ref.Concat
		for _, r := range c {
			e := *r.E
			switch e.K {
			case ref.KRef:
				if !isCoreRef(g, e.Text) {
					e.Text = packName(e.Text, k)
				}
			case ref.KGroup, ref.KOpt:
				e.Alt = renameAlt(e.Alt, g, k)
			}
			cc = append(cc, ref.Rep{Min: r.Min, Max: r.Max, E: &e})
		}
		out = append(out, cc)
	}
	return out
}

func isCoreRef(g *ref.Grammar, name string) bool {
	for _, r := range g.Rules {
		if ref.FoldEq(r.Name, name) {
			return false
		}
	}
	return g.Lookup(name) != nil
}

// unpackTree shifts and renames the subtree of grammar k inside a pack's tree;
// nil when the tree does not have the pack's shape.
func unpackTree(t *PT, k, shift int) *PT {
	if t == nil || len(t.Children) != 2 || t.Children[0].Rule != "" || t.Children[0].End != shift {
		return nil
	}
	return shiftTree(t.Children[1], fmt.Sprintf("-g%d", k), shift)
}

func shiftTree(t *PT, suffix string, shift int) *PT {
	o := &PT{Rule: strings.TrimSuffix(t.Rule, suffix), Start: t.Start - shift, End: t.End - shift}
	for _, c := range t.Children {
		o.Children = append(o.Children, shiftTree(c, suffix, shift))
	}
	return o
}
