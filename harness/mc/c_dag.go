package main

import (
	"fmt"
	"sort"
	"strings"

	"verif/harness/ref"
)

// C18: every labelled digraph on n rules, realised as a grammar.

// edgeElem places a reference in one of several syntactic positions.
func edgeElem(kind int, to string) ref.Rep {
	x := ref.Ref(to)
	switch kind % 6 {
	case 0:
		return ref.One(x)
	case 1:
		return ref.One(ref.Grp(ref.AE(ref.Ch("a"), x)))
	case 2:
		return ref.One(ref.Opt(ref.AE(x)))
	case 3:
		return ref.R(0, ref.Inf, x)
	case 4:
		return ref.R(2, 3, ref.Grp(ref.A(ref.C(ref.Opt(ref.A(ref.C(ref.Ch("b"), x)))))))
	}
	return ref.One(ref.Ref(strings.ToUpper(to)))
}

func digraphGrammar(names []string, n, bits, kind int) *ref.Grammar {
	g := &ref.Grammar{}
	for i := 0; i < n; i++ {
		c := ref.C(ref.Ch("z"))
		alts := ref.Alt{}
		for j := 0; j < n; j++ {
			if bits>>(uint(i*n+j))&1 == 1 {
				if (i+j+kind)%3 == 0 {
					alts = append(alts, ref.Concat{ref.One(ref.Ch("y")), edgeElem(kind+i+j, names[j])})
				} else {
					c = append(c, edgeElem(kind+i+j, names[j]))
				}
			}
		}
		alts = append(alts, c)
		g.Rules = append(g.Rules, ref.Rule{Name: names[i], Alt: alts})
	}
	return g
}

func checkDAG(c *Ctx, g *ref.Grammar, reps int) {
	// the effective graph: own rules and the core rules not overridden
	names := map[string]bool{}
	for _, r := range g.Rules {
		names[strings.ToLower(r.Name)] = true
	}
	for _, r := range ref.CoreRules {
		names[strings.ToLower(r.Name)] = true
	}
	anyCycle := false
	cyc := map[string]bool{}
	for n := range names {
		cyc[n] = g.Cyclic(n)
		anyCycle = anyCycle || cyc[n]
		c.States++
	}
	k := g.Short()
	for rep := 0; rep < reps; rep++ {
		ig := toImpl(g)
		c.Traces++
		if got := ig.IsDAG(); got == anyCycle {
			c.Fail(k, "IsDAG of %s = %v, but a cyclic rule exists: %v", k, got, anyCycle)
		}
		for _, r := range g.Rules {
			for _, n := range []string{r.Name, strings.ToUpper(r.Name)} {
				got, err := ig.RuleContainsCycle(n)
				c.Transitions++
				if err != nil {
					c.Fail(k, "RuleContainsCycle(%s) on %s: %v", n, k, err)
				} else if want := cyc[strings.ToLower(r.Name)]; got != want {
					c.Fail(k, "RuleContainsCycle(%s) on %s = %v, want %v", n, k, got, want)
				}
			}
		}
		if rep == 0 {
			if _, err := ig.RuleContainsCycle("no-such-rule"); err == nil {
				c.Fail(k, "RuleContainsCycle of an undefined rule on %s: no error", k)
			}
			dg := ig.DependencyGraph()
			_, used := depEdges(g)
			for n := range dg {
				if !used[strings.ToLower(n)] {
					c.Fail(k, "DependencyGraph of %s has %s, which it does not use", k, n)
				}
			}
			for n := range used {
				if dg[n] == nil {
					c.Fail(k, "DependencyGraph of %s lacks %s", k, n)
				}
			}
			for _, r := range g.Rules {
				nd := dg[strings.ToLower(r.Name)]
				if nd == nil {
					c.Fail(k, "DependencyGraph of %s lacks %s", k, r.Name)
					continue
				}
				var got []string
				for _, d := range nd.Dependencies {
					got = append(got, strings.ToLower(d))
				}
				want := r.Alt.Refs()
				sort.Strings(got)
				sort.Strings(want)
				if strings.Join(got, ",") != strings.Join(want, ",") {
					c.Fail(k, "DependencyGraph of %s: %s depends on %v, want %v", k, r.Name, got, want)
				}
			}
		}
	}
	c.Outcome(fmt.Sprintf("cycle=%v", anyCycle))
}

func c18Units(tier string, yield func(Unit) bool) {
	nameSets := [][]string{{"a", "b", "c", "d"}, {"WSP", "sp", "d", "LWSP"}, {"x-1", "DIGIT", "Hexdig", "q"}}
	emit := func(names []string, n, from, to, kind, reps int) bool {
		return yield(Unit{
			Desc: func() string {
				return fmt.Sprintf("digraphs %d..%d on rules %v, reference placement %d; the first is %s", from, to-1, names[:n], kind, digraphGrammar(names, n, from, kind).Short())
			},
			Run: func(c *Ctx) {
				for b := from; b < to; b++ {
					checkDAG(c, digraphGrammar(names, n, b, kind), reps)
				}
			}})
	}
	for n := 1; n <= 3; n++ {
		for _, ns := range nameSets {
			for kind := 0; kind < 6; kind++ {
				tot := 1 << uint(n*n)
				for f := 0; f < tot; f += 64 {
					if !emit(ns, n, f, min(f+64, tot), kind, 8) {
						return
					}
				}
			}
		}
	}
	kinds := []int{0}
	if tier == "thorough" {
		kinds = []int{0, 1, 2, 3, 4, 5}
	}
	for _, kind := range kinds {
		for f := 0; f < 1<<16; f += 256 {
			if !emit(nameSets[0], 4, f, f+256, kind, 4) {
				return
			}
		}
	}
	// many references in one rule, one of which leads back, and long chains with a ring at their end
	for _, n := range []int{9, 17, 33, 65, 129, 257, 300} {
		if !yield(Unit{Desc: func() string { return fmt.Sprintf("fans of %d references, chains of %d rules into a ring", n, n) }, Run: func(c *Ctx) {
			name := func(i int) string { return fmt.Sprintf("r%d", i) }
			for _, back := range []int{-1, 0, 1, n / 2, n - 1} {
				fan := &ref.Grammar{Rules: []ref.Rule{{Name: "top", Alt: ref.Alt{{}}}}}
				chain := &ref.Grammar{}
				for i := 0; i < n; i++ {
					fan.Rules[0].Alt[0] = append(fan.Rules[0].Alt[0], ref.One(ref.Ref(name(i))))
					leaf := ref.AE(ref.Ch("x"))
					if i == back {
						leaf = append(leaf, ref.C(ref.Ch("y"), ref.Ref("TOP")))
					}
					fan.Rules = append(fan.Rules, ref.Rule{Name: name(i), Alt: leaf})
					link := ref.AE(ref.Ch("x"))
					switch {
					case i+1 < n:
						link = append(link, ref.C(ref.Opt(ref.AE(ref.Ref(name(i+1))))))
					case back >= 0:
						link = append(link, ref.C(ref.Ref(name(back))))
					}
					chain.Rules = append(chain.Rules, ref.Rule{Name: name(i), Alt: link})
				}
				checkDAG(c, fan, 2)
				checkDAG(c, chain, 2)
			}
		}}) {
			return
		}
	}
	// long chains and rings, with and without a back edge
	for n := 5; n <= 60; n += 5 {
		n := n
		if !yield(Unit{Desc: func() string { return fmt.Sprintf("chains of %d rules with every single back edge", n) }, Run: func(c *Ctx) {
			for back := -1; back < n; back++ {
				g := &ref.Grammar{}
				for i := 0; i < n; i++ {
					a := ref.AE(ref.Ch("x"))
					if i+1 < n {
						a = append(a, ref.C(ref.Ch("y"), ref.Ref(fmt.Sprintf("r%d", i+1))))
					} else if back >= 0 {
						a = append(a, ref.C(ref.Ref(fmt.Sprintf("R%d", back))))
					}
					g.Rules = append(g.Rules, ref.Rule{Name: fmt.Sprintf("r%d", i), Alt: a})
				}
				checkDAG(c, g, 2)
			}
		}}) {
			return
		}
	}
}

func init() {
	register(&Check{
		ID:        "C18",
		Rule:      "every labelled directed graph on up to 4 rules (all 2^(n*n)), references placed in every syntactic position and letter case, core rules overridden; long chains with every back edge: IsDAG, RuleContainsCycle of every rule and DependencyGraph against plain reachability; repeated because the implementation iterates maps in random order",
		Enumerate: c18Units,
	})
}
