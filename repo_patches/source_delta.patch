From 1ca5407440c1f0b54eb504c67517135b4af649ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:57 +0000
Subject: [PATCH 01/38] fix: render case-sensitive char-val with its %s prefix

ElemCharVal.String dropped the RFC 7405 %s marker, so a printed grammar
re-parsed to a different language, and every cache keyed on the rendering
(recognizer memo, slot lowering) conflated "a" with %s"a".
---
 abnf.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/abnf.go b/abnf.go
index 5173714..a8e413f 100644
--- a/abnf.go
+++ b/abnf.go
@@ -151,6 +151,9 @@ func (ecvl ElemCharVal) String() string {
 	for _, val := range ecvl.Values {
 		str += string(val)
 	}
+	if ecvl.Sensitive {
+		return `%s"` + str + `"`
+	}
 	return `"` + str + `"`
 }
 
-- 
2.43.0


From c894f433c39e5a65be12cc40d27f931af15e6b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:49 +0000
Subject: [PATCH 02/38] fix: count repetitions exactly when recognizing a
 minimum

IsValid under-accepted m*n repetitions: it stopped counting at
len(input)+2 occurrences even when Min was larger (3["a"] on ""), and it
stopped as soon as a step revisited a position first reached with too few
occurrences (3*("a"/"aaa") on "aaaa").
---
 recognize.go | 36 +++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/recognize.go b/recognize.go
index 2f18570..97a5825 100644
--- a/recognize.go
+++ b/recognize.go
@@ -1,6 +1,7 @@
 package goabnf
 
 import (
+	"maps"
 	"strconv"
 	"strings"
 	"unicode/utf8"
@@ -76,15 +77,18 @@ func (r *recognizer) reachRep(rep Repetition, index int) map[int]bool {
 
 	// level = positions reachable after exactly c occurrences.
 	level := map[int]bool{index: true}
-	// seen = every position reached at any count so far. reachElem only moves
-	// forward (an end position is >= its start), so once a step introduces no
-	// position outside seen, the reachable set has closed and no later
-	// repetition can add a new end position. Breaking there keeps an unbounded
-	// repetition over an element with large reach-sets (e.g. *(1*ALPHA)) at
-	// O(n^2); the previous len(next)==len(level) test never tripped because
-	// level shrank by one each step ({1..n}, {2..n}, ...), giving O(n^3).
-	seen := map[int]bool{index: true}
-
+	// Once the minimum count is met, a step that introduces no position outside
+	// ends means the end set has closed under one more occurrence, so no later
+	// repetition can add a new end position. (Positions reached with fewer than
+	// Min occurrences must not count: reaching one of them again with enough
+	// occurrences is progress.) Breaking there keeps an unbounded repetition
+	// over an element with large reach-sets (e.g. *(1*ALPHA)) at O(n^2); the
+	// previous len(next)==len(level) test never tripped because level shrank by
+	// one each step ({1..n}, {2..n}, ...), giving O(n^3).
+	//
+	// Below the minimum, a level equal to the previous one is a fixpoint: it is
+	// also the level after exactly Min occurrences. Positions only move forward,
+	// so levels are stationary after at most len(input)+1 occurrences.
 	cap := len(r.input) + 2
 	for c := 1; c <= cap; c++ {
 		if rep.Max != inf && c > rep.Max {
@@ -99,21 +103,23 @@ func (r *recognizer) reachRep(rep Repetition, index int) map[int]bool {
 		if len(next) == 0 {
 			break
 		}
-		if c >= rep.Min {
-			for e := range next {
-				ends[e] = true
+		if c < rep.Min {
+			if maps.Equal(next, level) && (rep.Max == inf || rep.Max >= rep.Min) {
+				return next
 			}
+			level = next
+			continue
 		}
 		grew := false
 		for e := range next {
-			if !seen[e] {
-				seen[e] = true
+			if !ends[e] {
+				ends[e] = true
 				grew = true
 			}
 		}
 		level = next
 		// Reachable set closed and the minimum-count requirement met.
-		if !grew && c >= rep.Min {
+		if !grew {
 			break
 		}
 	}
-- 
2.43.0


From 8645bada0891f74b3d8b274978e9caf85bc35c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:12 +0000
Subject: [PATCH 03/38] fix: do not freeze groups and options while a
 left-recursive seed grows

A group or option on a left-recursive cycle was memoized with the partial
seed of its first evaluation, so IsValid rejected derivable input such as
"yx" under a = (a "x") / "y".
---
 recognize.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/recognize.go b/recognize.go
index 97a5825..332d5f8 100644
--- a/recognize.go
+++ b/recognize.go
@@ -32,6 +32,10 @@ type recognizer struct {
 	// returns the seed instead of recursing.
 	leftRec map[string][]string
 	growing map[string]map[int]bool
+	// epoch changes whenever a live seed does. Groups and options are not rules,
+	// so they may sit on the left-recursive cycle itself: while a seed is live
+	// their result only holds for the epoch it was computed in.
+	epoch int
 }
 
 func cloneSet(s map[int]bool) map[int]bool {
@@ -137,6 +141,12 @@ func (r *recognizer) reachElem(elem ElemItf, index int) map[int]bool {
 	}
 
 	key := elem.String() + "@" + strconv.Itoa(index)
+	if len(r.growing) != 0 {
+		switch elem.(type) {
+		case ElemGroup, ElemOption:
+			key += "#" + strconv.Itoa(r.epoch)
+		}
+	}
 	if cached, ok := r.memo[key]; ok {
 		return cached
 	}
@@ -179,6 +189,7 @@ func (r *recognizer) reachLeftRec(name string, scc []string, index int) map[int]
 		keys[i] = x + sidx
 		r.growing[keys[i]] = map[int]bool{}
 	}
+	r.epoch++
 	for changed := true; changed; {
 		changed = false
 		for i, x := range scc {
@@ -192,6 +203,7 @@ func (r *recognizer) reachLeftRec(name string, scc []string, index int) map[int]
 				if !cur[e] {
 					cur[e] = true
 					changed = true
+					r.epoch++
 				}
 			}
 		}
@@ -202,6 +214,7 @@ func (r *recognizer) reachLeftRec(name string, scc []string, index int) map[int]
 	// r.growing, and strictly lower SCCs, which cannot reference it back), so
 	// they can be memoized unconditionally.
 	var result map[int]bool
+	r.epoch++
 	for i, x := range scc {
 		v := r.growing[keys[i]]
 		delete(r.growing, keys[i])
-- 
2.43.0


From fd7eb33b12c493e764cae86894ef9978de29fb54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:54 +0000
Subject: [PATCH 04/38] fix: number Tarjan nodes from 1 so the first one counts
 as visited

The first visited node got index 0, the unvisited marker, and was entered
again: it could be reported in two components. Depending on map order,
IsValid then panicked on a mutually left-recursive grammar such as
r = s / s s, s = s r / [r] "x".
---
 dag.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dag.go b/dag.go
index 4d004e4..004c2fd 100644
--- a/dag.go
+++ b/dag.go
@@ -186,6 +186,8 @@ type cycle struct {
 }
 
 func (c *cycle) find() {
+	// Index 0 marks an unvisited node, so visited ones are numbered from 1.
+	c.index = max(c.index, 1)
 	for _, v := range c.dg {
 		if v.index == 0 {
 			c.strongconnect(v)
-- 
2.43.0


From 14792fd240a42fe4f8eca5e808ad1270fe9ee806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:03 +0000
Subject: [PATCH 05/38] fix: IsDAG reports a directly self-referencing rule as
 a cycle

IsDAG only looked at components of two rules or more, so a = a / "x" was
reported acyclic while RuleContainsCycle said it is cyclic.
---
 dag.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dag.go b/dag.go
index 004c2fd..b4883c8 100644
--- a/dag.go
+++ b/dag.go
@@ -92,6 +92,12 @@ func (g *Grammar) IsDAG() bool {
 		if len(sccs) > 1 {
 			return false
 		}
+		// A rule that references itself is a cycle of length one.
+		for _, nd := range sccs {
+			if slices.Contains(nd.Dependencies, strings.ToLower(nd.Rulename)) {
+				return false
+			}
+		}
 	}
 	return true
 }
-- 
2.43.0


From d7c5d8387db73bd336e2db916de0b38bdb62d31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:48 +0000
Subject: [PATCH 06/38] fix: keep derivations through different alternates
 apart in the SPPF

Packed nodes were deduplicated on their children alone, so two alternates
deriving the same children (a = "a" / "a", or [""]) merged into one: the
forest reported one unambiguous tree where the BSR engine counts two.
---
 sppf.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/sppf.go b/sppf.go
index 9c4d507..86496d7 100644
--- a/sppf.go
+++ b/sppf.go
@@ -247,11 +247,12 @@ type gnode struct {
 	nt         int // symbol nonterminal id, for gSymbol
 	Start, End int
 	packs      [][]*gnode // each pack has 1 or 2 children; >1 pack == ambiguity
+	packAlts   []int      // alternate each pack derives from
 }
 
-func (n *gnode) addPack(children []*gnode) {
-	for _, p := range n.packs {
-		if len(p) != len(children) {
+func (n *gnode) addPack(alt int, children []*gnode) {
+	for pi, p := range n.packs {
+		if n.packAlts[pi] != alt || len(p) != len(children) {
 			continue
 		}
 		same := true
@@ -266,6 +267,7 @@ func (n *gnode) addPack(children []*gnode) {
 		}
 	}
 	n.packs = append(n.packs, children)
+	n.packAlts = append(n.packAlts, alt)
 }
 
 // ---------------------------------------------------------------------------
@@ -416,9 +418,9 @@ func (p *gllParser) getNodeP(L slot, w, z *gnode) *gnode {
 	}
 	y := p.findNode(k)
 	if w != nil {
-		y.addPack([]*gnode{w, z})
+		y.addPack(L.alt, []*gnode{w, z})
 	} else {
-		y.addPack([]*gnode{z})
+		y.addPack(L.alt, []*gnode{z})
 	}
 	return y
 }
-- 
2.43.0


From 89e5d9a70e421f3fd02f5a3910b344ea2caccfd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:31 +0000
Subject: [PATCH 07/38] fix: carry the repetition count into SPPF and BSR
 derivation nodes

The count of a bounded repetition gates what the parser may do next but was
not part of the recorded node, so derivations reaching one extent at
different counts were merged: 2"" was reported infinitely ambiguous, counts
were wrong for 2*3("a" / ""), and BSRForest.Tree returned trees that are
not derivations (2[%x41-61] on "a").
---
 bsr.go  | 131 +++++++++++++++++++++++++++++++-------------------------
 sppf.go |  21 ++++++---
 2 files changed, 87 insertions(+), 65 deletions(-)

diff --git a/bsr.go b/bsr.go
index 75f3309..586ad6b 100644
--- a/bsr.go
+++ b/bsr.go
@@ -27,9 +27,12 @@ import (
 // bsrElem is one binary subtree element. The slot's dot is "just past" the most
 // recently consumed symbol; that symbol spans [k,r] and the earlier prefix spans
 // [l,k]. A complete production (dot == len) records the nonterminal's extent.
+// Inside a counted repetition, rc is the count the production was entered with:
+// what may follow depends on it, so it is part of the element (0 otherwise).
 type bsrElem struct {
 	slot    slot
 	l, k, r int
+	rc      int
 }
 
 // bsrGNode is a GSS node for the BSR engine. Unlike the SPPF GSS, its edges are
@@ -89,14 +92,14 @@ func (p *bsrParser) gssNodeFor(ret slot, pos, rc int) *bsrGNode {
 // when the consumed prefix has length >= 2 (an intermediate extent) or the
 // production is complete (dot == len). A length-1 prefix is degenerate (l == k)
 // and is reconstructed directly from the single symbol, so it is not stored.
-func (p *bsrParser) record(L slot, l, k, r int) {
+func (p *bsrParser) record(L slot, l, k, r, rc int) {
 	prod := p.sg.nts[L.nt].alts[L.alt]
 	if L.dot >= 2 || L.dot == len(prod) {
 		if p.maxElems > 0 && len(p.set) >= p.maxElems {
 			p.aborted = true
 			return
 		}
-		p.set[bsrElem{L, l, k, r}] = true
+		p.set[bsrElem{L, l, k, r, rc}] = true
 	}
 }
 
@@ -106,7 +109,7 @@ func (p *bsrParser) create(ret slot, u *bsrGNode, i, rc int) *bsrGNode {
 		v.edgeSet[u] = true
 		v.edges = append(v.edges, u)
 		for j := range p.popped[v] {
-			p.record(ret, u.pos, i, j)
+			p.record(ret, u.pos, i, j, rc)
 			p.add(ret, u, j, rc)
 		}
 	}
@@ -122,7 +125,7 @@ func (p *bsrParser) pop(u *bsrGNode, j int) {
 	}
 	p.popped[u][j] = true
 	for _, v := range u.edges {
-		p.record(u.ret, v.pos, u.pos, j)
+		p.record(u.ret, v.pos, u.pos, j, u.rc)
 		p.add(u.ret, v, j, u.rc)
 	}
 }
@@ -240,7 +243,7 @@ func (p *bsrParser) process(d bsrDesc) {
 			return
 		}
 		next := slot{L.nt, L.alt, L.dot + 1}
-		p.record(next, u.pos, i, j)
+		p.record(next, u.pos, i, j, rc)
 		i = j
 		L = next
 	}
@@ -257,7 +260,7 @@ type BSRForest struct {
 	input    []byte
 	rulename string
 	set      map[bsrElem]bool
-	index    map[bsrKey][]int // (slot,l,r) -> pivots k
+	index    map[bsrKey][]int // (slot,l,r,rc) -> pivots k
 	start    int
 	n        int
 }
@@ -265,12 +268,13 @@ type BSRForest struct {
 type bsrKey struct {
 	slot slot
 	l, r int
+	rc   int
 }
 
 func (f *BSRForest) buildIndex() {
 	f.index = make(map[bsrKey][]int, len(f.set))
 	for e := range f.set {
-		k := bsrKey{e.slot, e.l, e.r}
+		k := bsrKey{e.slot, e.l, e.r, e.rc}
 		f.index[k] = append(f.index[k], e.k)
 	}
 }
@@ -280,7 +284,7 @@ func (f *BSRForest) buildIndex() {
 func (f *BSRForest) startElems() (slot, []int, bool) {
 	for ai, prod := range f.sg.nts[f.start].alts {
 		s := slot{f.start, ai, len(prod)}
-		if ks := f.index[bsrKey{s, 0, f.n}]; len(ks) > 0 {
+		if ks := f.index[bsrKey{s, 0, f.n, 0}]; len(ks) > 0 {
 			return s, ks, true
 		}
 	}
@@ -291,7 +295,7 @@ func (f *BSRForest) startElems() (slot, []int, bool) {
 func (f *BSRForest) Valid() bool {
 	for ai, prod := range f.sg.nts[f.start].alts {
 		s := slot{f.start, ai, len(prod)}
-		if len(f.index[bsrKey{s, 0, f.n}]) > 0 {
+		if len(f.index[bsrKey{s, 0, f.n, 0}]) > 0 {
 			return true
 		}
 	}
@@ -307,6 +311,17 @@ type bsrNodeID struct {
 	slot  slot // for intermediate nodes
 	nt    int  // for symbol nodes
 	l, r  int
+	rc    int // repetition count (0 outside a counted repetition)
+}
+
+// childRC returns the repetition count at which symbol s of a production of
+// nonterminal nt, itself at count rc, is entered: the loop reference of a
+// counted repetition continues the chain, any other starts afresh.
+func (f *BSRForest) childRC(nt, rc int, s ssym) int {
+	if s.kind == symNonterm && s.nt == nt && f.sg.nts[nt].isRep {
+		return capRC(rc, f.sg.nts[nt])
+	}
+	return 0
 }
 
 // NumTrees returns the number of distinct parse trees represented, or -1 for
@@ -320,35 +335,35 @@ func (f *BSRForest) NumTrees() *big.Int {
 	onStack := map[bsrNodeID]bool{}
 	infinite := false
 
-	var symWays func(s ssym, a, b int) *big.Int
-	var countSym func(nt, l, r int) *big.Int
-	var countInter func(sl slot, l, r int) *big.Int
-	var countElem func(sl slot, l, k, r int) *big.Int
+	var symWays func(s ssym, a, b, rc int) *big.Int
+	var countSym func(nt, l, r, rc int) *big.Int
+	var countInter func(sl slot, l, r, rc int) *big.Int
+	var countElem func(sl slot, l, k, r, rc int) *big.Int
 
-	symWays = func(s ssym, a, b int) *big.Int {
+	symWays = func(s ssym, a, b, rc int) *big.Int {
 		if s.kind == symNonterm {
-			return countSym(s.nt, a, b)
+			return countSym(s.nt, a, b, rc)
 		}
 		return big.NewInt(1) // terminal / eps leaf
 	}
 
-	countElem = func(sl slot, l, k, r int) *big.Int {
+	countElem = func(sl slot, l, k, r, rc int) *big.Int {
 		prod := f.sg.nts[sl.nt].alts[sl.alt]
-		last := symWays(prod[sl.dot-1], k, r)
+		last := symWays(prod[sl.dot-1], k, r, f.childRC(sl.nt, rc, prod[sl.dot-1]))
 		var pre *big.Int
 		switch sl.dot {
 		case 1: // empty prefix (l == k)
 			pre = big.NewInt(1)
 		case 2: // single-symbol prefix
-			pre = symWays(prod[0], l, k)
+			pre = symWays(prod[0], l, k, f.childRC(sl.nt, rc, prod[0]))
 		default: // intermediate prefix
-			pre = countInter(slot{sl.nt, sl.alt, sl.dot - 1}, l, k)
+			pre = countInter(slot{sl.nt, sl.alt, sl.dot - 1}, l, k, rc)
 		}
 		return new(big.Int).Mul(pre, last)
 	}
 
-	countInter = func(sl slot, l, r int) *big.Int {
-		id := bsrNodeID{inter: true, slot: sl, l: l, r: r}
+	countInter = func(sl slot, l, r, rc int) *big.Int {
+		id := bsrNodeID{inter: true, slot: sl, l: l, r: r, rc: rc}
 		if v, ok := memo[id]; ok {
 			return v
 		}
@@ -358,16 +373,16 @@ func (f *BSRForest) NumTrees() *big.Int {
 		}
 		onStack[id] = true
 		total := big.NewInt(0)
-		for _, k := range f.index[bsrKey{sl, l, r}] {
-			total.Add(total, countElem(sl, l, k, r))
+		for _, k := range f.index[bsrKey{sl, l, r, rc}] {
+			total.Add(total, countElem(sl, l, k, r, rc))
 		}
 		onStack[id] = false
 		memo[id] = total
 		return total
 	}
 
-	countSym = func(nt, l, r int) *big.Int {
-		id := bsrNodeID{nt: nt, l: l, r: r}
+	countSym = func(nt, l, r, rc int) *big.Int {
+		id := bsrNodeID{nt: nt, l: l, r: r, rc: rc}
 		if v, ok := memo[id]; ok {
 			return v
 		}
@@ -379,8 +394,8 @@ func (f *BSRForest) NumTrees() *big.Int {
 		total := big.NewInt(0)
 		for ai, prod := range f.sg.nts[nt].alts {
 			sl := slot{nt, ai, len(prod)}
-			for _, k := range f.index[bsrKey{sl, l, r}] {
-				total.Add(total, countElem(sl, l, k, r))
+			for _, k := range f.index[bsrKey{sl, l, r, rc}] {
+				total.Add(total, countElem(sl, l, k, r, rc))
 			}
 		}
 		onStack[id] = false
@@ -388,7 +403,7 @@ func (f *BSRForest) NumTrees() *big.Int {
 		return total
 	}
 
-	res := countSym(f.start, 0, f.n)
+	res := countSym(f.start, 0, f.n, 0)
 	if infinite {
 		return big.NewInt(-1)
 	}
@@ -402,49 +417,49 @@ func (f *BSRForest) Ambiguous() bool {
 	}
 	visited := map[bsrNodeID]bool{}
 
-	var symAmb func(nt, l, r int) bool
-	var interAmb func(sl slot, l, r int) bool
-	var elemAmb func(sl slot, l, k, r int) bool
+	var symAmb func(nt, l, r, rc int) bool
+	var interAmb func(sl slot, l, r, rc int) bool
+	var elemAmb func(sl slot, l, k, r, rc int) bool
 
-	symOf := func(s ssym, a, b int) bool {
+	symOf := func(s ssym, a, b, rc int) bool {
 		if s.kind == symNonterm {
-			return symAmb(s.nt, a, b)
+			return symAmb(s.nt, a, b, rc)
 		}
 		return false
 	}
-	elemAmb = func(sl slot, l, k, r int) bool {
+	elemAmb = func(sl slot, l, k, r, rc int) bool {
 		prod := f.sg.nts[sl.nt].alts[sl.alt]
-		if symOf(prod[sl.dot-1], k, r) {
+		if symOf(prod[sl.dot-1], k, r, f.childRC(sl.nt, rc, prod[sl.dot-1])) {
 			return true
 		}
 		switch sl.dot {
 		case 1:
 			return false
 		case 2:
-			return symOf(prod[0], l, k)
+			return symOf(prod[0], l, k, f.childRC(sl.nt, rc, prod[0]))
 		default:
-			return interAmb(slot{sl.nt, sl.alt, sl.dot - 1}, l, k)
+			return interAmb(slot{sl.nt, sl.alt, sl.dot - 1}, l, k, rc)
 		}
 	}
-	interAmb = func(sl slot, l, r int) bool {
-		id := bsrNodeID{inter: true, slot: sl, l: l, r: r}
+	interAmb = func(sl slot, l, r, rc int) bool {
+		id := bsrNodeID{inter: true, slot: sl, l: l, r: r, rc: rc}
 		if visited[id] {
 			return false
 		}
 		visited[id] = true
-		ks := f.index[bsrKey{sl, l, r}]
+		ks := f.index[bsrKey{sl, l, r, rc}]
 		if len(ks) > 1 {
 			return true
 		}
 		for _, k := range ks {
-			if elemAmb(sl, l, k, r) {
+			if elemAmb(sl, l, k, r, rc) {
 				return true
 			}
 		}
 		return false
 	}
-	symAmb = func(nt, l, r int) bool {
-		id := bsrNodeID{nt: nt, l: l, r: r}
+	symAmb = func(nt, l, r, rc int) bool {
+		id := bsrNodeID{nt: nt, l: l, r: r, rc: rc}
 		if visited[id] {
 			return false
 		}
@@ -452,7 +467,7 @@ func (f *BSRForest) Ambiguous() bool {
 		packs := 0
 		for ai, prod := range f.sg.nts[nt].alts {
 			sl := slot{nt, ai, len(prod)}
-			ks := f.index[bsrKey{sl, l, r}]
+			ks := f.index[bsrKey{sl, l, r, rc}]
 			packs += len(ks)
 		}
 		if packs > 1 {
@@ -460,15 +475,15 @@ func (f *BSRForest) Ambiguous() bool {
 		}
 		for ai, prod := range f.sg.nts[nt].alts {
 			sl := slot{nt, ai, len(prod)}
-			for _, k := range f.index[bsrKey{sl, l, r}] {
-				if elemAmb(sl, l, k, r) {
+			for _, k := range f.index[bsrKey{sl, l, r, rc}] {
+				if elemAmb(sl, l, k, r, rc) {
 					return true
 				}
 			}
 		}
 		return false
 	}
-	return symAmb(f.start, 0, f.n)
+	return symAmb(f.start, 0, f.n, 0)
 }
 
 // Tree extracts a single parse tree (first element at each extent), or nil if
@@ -490,7 +505,7 @@ func (f *BSRForest) Tree() *ParseTree {
 // complete-production slot sl with pivot k.
 func (f *BSRForest) emitSym(nt int, sl slot, k, l, r int, visited map[bsrNodeID]bool) *ParseTree {
 	var kids []*ParseTree
-	f.collectElem(sl, l, k, r, &kids, visited)
+	f.collectElem(sl, l, k, r, 0, &kids, visited)
 	info := f.sg.nts[nt]
 	if !info.isRule {
 		// synthetic (group/option/rep): splice children into the parent
@@ -501,25 +516,25 @@ func (f *BSRForest) emitSym(nt int, sl slot, k, l, r int, visited map[bsrNodeID]
 
 // collectElem appends the children of element (sl,l,k,r) into out, flattening
 // intermediate extents and synthetic nonterminals.
-func (f *BSRForest) collectElem(sl slot, l, k, r int, out *[]*ParseTree, visited map[bsrNodeID]bool) {
+func (f *BSRForest) collectElem(sl slot, l, k, r, rc int, out *[]*ParseTree, visited map[bsrNodeID]bool) {
 	prod := f.sg.nts[sl.nt].alts[sl.alt]
 	// prefix x_1..x_{dot-1} over [l,k]
 	switch sl.dot {
 	case 1:
 		// empty
 	case 2:
-		f.collectChild(prod[0], l, k, out, visited)
+		f.collectChild(prod[0], l, k, f.childRC(sl.nt, rc, prod[0]), out, visited)
 	default:
 		isl := slot{sl.nt, sl.alt, sl.dot - 1}
-		if ks := f.index[bsrKey{isl, l, k}]; len(ks) > 0 {
-			f.collectElem(isl, l, ks[0], k, out, visited)
+		if ks := f.index[bsrKey{isl, l, k, rc}]; len(ks) > 0 {
+			f.collectElem(isl, l, ks[0], k, rc, out, visited)
 		}
 	}
 	// last symbol x_{dot} over [k,r]
-	f.collectChild(prod[sl.dot-1], k, r, out, visited)
+	f.collectChild(prod[sl.dot-1], k, r, f.childRC(sl.nt, rc, prod[sl.dot-1]), out, visited)
 }
 
-func (f *BSRForest) collectChild(s ssym, a, b int, out *[]*ParseTree, visited map[bsrNodeID]bool) {
+func (f *BSRForest) collectChild(s ssym, a, b, rc int, out *[]*ParseTree, visited map[bsrNodeID]bool) {
 	if s.kind != symNonterm {
 		if s.kind == symEps {
 			return // epsilon contributes no leaf
@@ -527,7 +542,7 @@ func (f *BSRForest) collectChild(s ssym, a, b int, out *[]*ParseTree, visited ma
 		*out = append(*out, &ParseTree{Start: a, End: b})
 		return
 	}
-	id := bsrNodeID{nt: s.nt, l: a, r: b}
+	id := bsrNodeID{nt: s.nt, l: a, r: b, rc: rc}
 	if visited[id] {
 		return
 	}
@@ -535,15 +550,15 @@ func (f *BSRForest) collectChild(s ssym, a, b int, out *[]*ParseTree, visited ma
 	// pick the first complete-production element for this nonterminal extent
 	for ai, prod := range f.sg.nts[s.nt].alts {
 		csl := slot{s.nt, ai, len(prod)}
-		if ks := f.index[bsrKey{csl, a, b}]; len(ks) > 0 {
+		if ks := f.index[bsrKey{csl, a, b, rc}]; len(ks) > 0 {
 			info := f.sg.nts[s.nt]
 			if info.isRule {
 				var kids []*ParseTree
-				f.collectElem(csl, a, ks[0], b, &kids, visited)
+				f.collectElem(csl, a, ks[0], b, rc, &kids, visited)
 				*out = append(*out, &ParseTree{Rule: info.ruleName, Start: a, End: b, Children: kids})
 			} else {
 				// synthetic: splice its children directly into the parent
-				f.collectElem(csl, a, ks[0], b, out, visited)
+				f.collectElem(csl, a, ks[0], b, rc, out, visited)
 			}
 			visited[id] = false
 			return
diff --git a/sppf.go b/sppf.go
index 86496d7..3c99f9d 100644
--- a/sppf.go
+++ b/sppf.go
@@ -321,12 +321,15 @@ type gllParser struct {
 }
 
 // nodeKey interns SPPF nodes without allocating strings. Distinct kinds never
-// collide: symbol nodes key on (kind,nt,start,end); intermediate nodes on
-// (kind,L,start,end); terminal nodes on (kind,start,end).
+// collide: symbol nodes key on (kind,nt,rc,start,end); intermediate nodes on
+// (kind,L,start,end); terminal nodes on (kind,start,end). rc is the repetition
+// count of a counted repetition: what may follow depends on it, so the same
+// extent reached at different counts is a different node (0 otherwise).
 type nodeKey struct {
 	kind       gnodeKind
 	nt         int
 	L          slot
+	rc         int
 	start, end int
 }
 
@@ -362,7 +365,7 @@ func (p *gllParser) create(L slot, u *gssNode, i int, w *gnode, rc int) *gssNode
 		v.edgeSet[e] = true
 		v.edges = append(v.edges, e)
 		for z := range p.popped[v] {
-			y := p.getNodeP(L, w, z)
+			y := p.getNodeP(L, w, z, rc)
 			p.add(L, u, z.End, y, rc)
 		}
 	}
@@ -378,7 +381,7 @@ func (p *gllParser) pop(u *gssNode, i int, z *gnode) {
 	}
 	p.popped[u][z] = true
 	for _, e := range u.edges {
-		y := p.getNodeP(u.ret, e.w, z)
+		y := p.getNodeP(u.ret, e.w, z, u.rc)
 		p.add(u.ret, e.to, i, y, u.rc)
 	}
 }
@@ -399,8 +402,9 @@ func (p *gllParser) getNodeT(start, end int) *gnode {
 	return p.findNode(nodeKey{kind: gTerm, nt: -1, start: start, end: end})
 }
 
-// getNodeP combines left node w (may be nil == $) and right node z under slot L.
-func (p *gllParser) getNodeP(L slot, w, z *gnode) *gnode {
+// getNodeP combines left node w (may be nil == $) and right node z under slot L,
+// in a frame at repetition count rc.
+func (p *gllParser) getNodeP(L slot, w, z *gnode, rc int) *gnode {
 	prod := p.sg.nts[L.nt].alts[L.alt]
 	betaEmpty := L.dot == len(prod)
 	if L.dot == 1 && !betaEmpty {
@@ -413,6 +417,9 @@ func (p *gllParser) getNodeP(L slot, w, z *gnode) *gnode {
 	var k nodeKey
 	if betaEmpty {
 		k = nodeKey{kind: gSymbol, nt: L.nt, start: start, end: z.End}
+		if p.sg.nts[L.nt].isRep {
+			k.rc = rc
+		}
 	} else {
 		k = nodeKey{kind: gInter, nt: -1, L: L, start: start, end: z.End}
 	}
@@ -547,7 +554,7 @@ func (p *gllParser) process(d descriptor) {
 		}
 		cR := p.getNodeT(i, j)
 		next := slot{L.nt, L.alt, L.dot + 1}
-		w = p.getNodeP(next, w, cR)
+		w = p.getNodeP(next, w, cR, rc)
 		i = j
 		L = next
 	}
-- 
2.43.0


From 002f52300d9d5a0e453f6845cb9800415a920e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:52 +0000
Subject: [PATCH 08/38] fix: carry the repetition count in generated parsers
 too

Same defect as in the library engines: a generated parser merged BSR
elements of a counted repetition that differ only by their count, so its
NumTrees, Ambiguous and Tree were wrong for 2"" or 2*3("a" / "").
---
 codegen.go | 144 +++++++++++++++++++++++++++++++----------------------
 1 file changed, 84 insertions(+), 60 deletions(-)

diff --git a/codegen.go b/codegen.go
index 39129e9..570e5f8 100644
--- a/codegen.go
+++ b/codegen.go
@@ -204,12 +204,12 @@ func (c *codegen) emitCall(b *strings.Builder, s sInfo, callee, retID int) {
 
 func (c *codegen) emitTerminal(b *strings.Builder, sym ssym, nextID int) {
 	if sym.kind == symEps {
-		fmt.Fprintf(b, "\t\t\tp.record(%d, u.pos, i, i)\n", nextID)
+		fmt.Fprintf(b, "\t\t\tp.record(%d, u.pos, i, i, rc)\n", nextID)
 		fmt.Fprintf(b, "\t\t\tL = %d\n\t\t\tcontinue\n", nextID)
 		return
 	}
 	c.emitMatch(b, sym) // sets j or returns on failure
-	fmt.Fprintf(b, "\t\t\tp.record(%d, u.pos, i, j)\n", nextID)
+	fmt.Fprintf(b, "\t\t\tp.record(%d, u.pos, i, j, rc)\n", nextID)
 	fmt.Fprintf(b, "\t\t\ti = j\n\t\t\tL = %d\n\t\t\tcontinue\n", nextID)
 }
 
@@ -340,7 +340,11 @@ func (c *codegen) emitMetadata(b *strings.Builder) {
 
 	b.WriteString("var qNTs = []qNT{\n")
 	for _, nt := range c.sg.nts {
-		fmt.Fprintf(b, "\t{isRule: %v, ruleName: %q, alts: ", nt.isRule, nt.ruleName)
+		fmt.Fprintf(b, "\t{isRule: %v, ruleName: %q, ", nt.isRule, nt.ruleName)
+		if nt.isRep {
+			fmt.Fprintf(b, "isRep: true, repMin: %d, repMax: %d, ", nt.repMin, nt.repMax)
+		}
+		b.WriteString("alts: ")
 		if len(nt.alts) == 0 {
 			b.WriteString("nil},\n")
 			continue
@@ -475,11 +479,17 @@ type qNT struct {
 	isRule   bool
 	ruleName string
 	alts     [][]qSym
+	isRep    bool
+	repMin   int
+	repMax   int
 }
 
+// bsrElem is a binary subtree element; inside a counted repetition, rc is the
+// count its production was entered with (0 otherwise).
 type bsrElem struct {
 	sl      int
 	l, k, r int
+	rc      int
 }
 
 type gssKey struct {
@@ -559,14 +569,14 @@ func (p *parser) gssNodeFor(ret, pos, rc int) *gnode {
 
 // record inserts a BSR element, keeping only intermediate (prefix length >= 2)
 // or complete (dot == len) extents.
-func (p *parser) record(L, l, k, r int) {
+func (p *parser) record(L, l, k, r, rc int) {
 	si := slotInfo[L]
 	if si.dot >= 2 || si.dot == si.plen {
 		if MaxElements > 0 && len(p.set) >= MaxElements {
 			p.aborted = true
 			return
 		}
-		p.set[bsrElem{L, l, k, r}] = true
+		p.set[bsrElem{L, l, k, r, rc}] = true
 	}
 }
 
@@ -576,7 +586,7 @@ func (p *parser) create(ret int, u *gnode, i, rc int) *gnode {
 		v.edgeSet[u] = true
 		v.edges = append(v.edges, u)
 		for j := range p.popped[v] {
-			p.record(ret, u.pos, i, j)
+			p.record(ret, u.pos, i, j, rc)
 			p.add(ret, u, j, rc)
 		}
 	}
@@ -592,7 +602,7 @@ func (p *parser) pop(u *gnode, j int) {
 	}
 	p.popped[u][j] = true
 	for _, v := range u.edges {
-		p.record(u.ret, v.pos, u.pos, j)
+		p.record(u.ret, v.pos, u.pos, j, u.rc)
 		p.add(u.ret, v, j, u.rc)
 	}
 }
@@ -612,12 +622,26 @@ type ParseTree struct {
 type bsrKey struct {
 	sl   int
 	l, r int
+	rc   int
 }
 
 type nodeID struct {
 	sl   int // slot id for intermediate nodes; -1 for symbol nodes
 	nt   int // nonterminal id for symbol nodes
 	l, r int
+	rc   int // repetition count (0 outside a counted repetition)
+}
+
+// childRC returns the repetition count at which symbol s of a production of
+// nonterminal nt, itself at count rc, is entered.
+func childRC(nt, rc int, s qSym) int {
+	if s.kind != kNT || s.nt != nt || !qNTs[nt].isRep {
+		return 0
+	}
+	if rc++; qNTs[nt].repMax == inf && rc > qNTs[nt].repMin {
+		rc = qNTs[nt].repMin
+	}
+	return rc
 }
 
 // Result holds the BSR set for a parse and answers queries over it.
@@ -634,7 +658,7 @@ func (r *Result) buildIndex() {
 	}
 	r.index = make(map[bsrKey][]int, len(r.set))
 	for e := range r.set {
-		bk := bsrKey{e.sl, e.l, e.r}
+		bk := bsrKey{e.sl, e.l, e.r, e.rc}
 		r.index[bk] = append(r.index[bk], e.k)
 	}
 }
@@ -643,7 +667,7 @@ func (r *Result) buildIndex() {
 func (r *Result) Valid() bool {
 	r.buildIndex()
 	for _, sl := range ntComplete[gStart] {
-		if len(r.index[bsrKey{sl, 0, r.n}]) > 0 {
+		if len(r.index[bsrKey{sl, 0, r.n, 0}]) > 0 {
 			return true
 		}
 	}
@@ -662,34 +686,34 @@ func (r *Result) NumTrees() *big.Int {
 	onStack := map[nodeID]bool{}
 	infinite := false
 
-	var symWays func(s qSym, a, b int) *big.Int
-	var countSym func(nt, l, rr int) *big.Int
-	var countInter func(sl, l, rr int) *big.Int
-	var countElem func(sl, l, k, rr int) *big.Int
+	var symWays func(s qSym, a, b, rc int) *big.Int
+	var countSym func(nt, l, rr, rc int) *big.Int
+	var countInter func(sl, l, rr, rc int) *big.Int
+	var countElem func(sl, l, k, rr, rc int) *big.Int
 
-	symWays = func(s qSym, a, b int) *big.Int {
+	symWays = func(s qSym, a, b, rc int) *big.Int {
 		if s.kind == kNT {
-			return countSym(s.nt, a, b)
+			return countSym(s.nt, a, b, rc)
 		}
 		return big.NewInt(1)
 	}
-	countElem = func(sl, l, k, rr int) *big.Int {
+	countElem = func(sl, l, k, rr, rc int) *big.Int {
 		si := slotInfo[sl]
 		prod := qNTs[si.nt].alts[si.alt]
-		last := symWays(prod[si.dot-1], k, rr)
+		last := symWays(prod[si.dot-1], k, rr, childRC(si.nt, rc, prod[si.dot-1]))
 		var pre *big.Int
 		switch {
 		case si.dot == 1:
 			pre = big.NewInt(1)
 		case si.dot == 2:
-			pre = symWays(prod[0], l, k)
+			pre = symWays(prod[0], l, k, childRC(si.nt, rc, prod[0]))
 		default:
-			pre = countInter(sl-1, l, k)
+			pre = countInter(sl-1, l, k, rc)
 		}
 		return new(big.Int).Mul(pre, last)
 	}
-	countInter = func(sl, l, rr int) *big.Int {
-		id := nodeID{sl: sl, nt: -1, l: l, r: rr}
+	countInter = func(sl, l, rr, rc int) *big.Int {
+		id := nodeID{sl: sl, nt: -1, l: l, r: rr, rc: rc}
 		if v, ok := memo[id]; ok {
 			return v
 		}
@@ -699,15 +723,15 @@ func (r *Result) NumTrees() *big.Int {
 		}
 		onStack[id] = true
 		total := big.NewInt(0)
-		for _, k := range r.index[bsrKey{sl, l, rr}] {
-			total.Add(total, countElem(sl, l, k, rr))
+		for _, k := range r.index[bsrKey{sl, l, rr, rc}] {
+			total.Add(total, countElem(sl, l, k, rr, rc))
 		}
 		onStack[id] = false
 		memo[id] = total
 		return total
 	}
-	countSym = func(nt, l, rr int) *big.Int {
-		id := nodeID{sl: -1, nt: nt, l: l, r: rr}
+	countSym = func(nt, l, rr, rc int) *big.Int {
+		id := nodeID{sl: -1, nt: nt, l: l, r: rr, rc: rc}
 		if v, ok := memo[id]; ok {
 			return v
 		}
@@ -718,15 +742,15 @@ func (r *Result) NumTrees() *big.Int {
 		onStack[id] = true
 		total := big.NewInt(0)
 		for _, sl := range ntComplete[nt] {
-			for _, k := range r.index[bsrKey{sl, l, rr}] {
-				total.Add(total, countElem(sl, l, k, rr))
+			for _, k := range r.index[bsrKey{sl, l, rr, rc}] {
+				total.Add(total, countElem(sl, l, k, rr, rc))
 			}
 		}
 		onStack[id] = false
 		memo[id] = total
 		return total
 	}
-	res := countSym(gStart, 0, r.n)
+	res := countSym(gStart, 0, r.n, 0)
 	if infinite {
 		return big.NewInt(-1)
 	}
@@ -739,71 +763,71 @@ func (r *Result) Ambiguous() bool {
 		return false
 	}
 	visited := map[nodeID]bool{}
-	var symAmb func(nt, l, rr int) bool
-	var interAmb func(sl, l, rr int) bool
-	var elemAmb func(sl, l, k, rr int) bool
-	var symOf func(s qSym, a, b int) bool
-	symOf = func(s qSym, a, b int) bool {
+	var symAmb func(nt, l, rr, rc int) bool
+	var interAmb func(sl, l, rr, rc int) bool
+	var elemAmb func(sl, l, k, rr, rc int) bool
+	var symOf func(s qSym, a, b, rc int) bool
+	symOf = func(s qSym, a, b, rc int) bool {
 		if s.kind == kNT {
-			return symAmb(s.nt, a, b)
+			return symAmb(s.nt, a, b, rc)
 		}
 		return false
 	}
-	elemAmb = func(sl, l, k, rr int) bool {
+	elemAmb = func(sl, l, k, rr, rc int) bool {
 		si := slotInfo[sl]
 		prod := qNTs[si.nt].alts[si.alt]
-		if symOf(prod[si.dot-1], k, rr) {
+		if symOf(prod[si.dot-1], k, rr, childRC(si.nt, rc, prod[si.dot-1])) {
 			return true
 		}
 		switch {
 		case si.dot == 1:
 			return false
 		case si.dot == 2:
-			return symOf(prod[0], l, k)
+			return symOf(prod[0], l, k, childRC(si.nt, rc, prod[0]))
 		default:
-			return interAmb(sl-1, l, k)
+			return interAmb(sl-1, l, k, rc)
 		}
 	}
-	interAmb = func(sl, l, rr int) bool {
-		id := nodeID{sl: sl, nt: -1, l: l, r: rr}
+	interAmb = func(sl, l, rr, rc int) bool {
+		id := nodeID{sl: sl, nt: -1, l: l, r: rr, rc: rc}
 		if visited[id] {
 			return false
 		}
 		visited[id] = true
-		ks := r.index[bsrKey{sl, l, rr}]
+		ks := r.index[bsrKey{sl, l, rr, rc}]
 		if len(ks) > 1 {
 			return true
 		}
 		for _, k := range ks {
-			if elemAmb(sl, l, k, rr) {
+			if elemAmb(sl, l, k, rr, rc) {
 				return true
 			}
 		}
 		return false
 	}
-	symAmb = func(nt, l, rr int) bool {
-		id := nodeID{sl: -1, nt: nt, l: l, r: rr}
+	symAmb = func(nt, l, rr, rc int) bool {
+		id := nodeID{sl: -1, nt: nt, l: l, r: rr, rc: rc}
 		if visited[id] {
 			return false
 		}
 		visited[id] = true
 		packs := 0
 		for _, sl := range ntComplete[nt] {
-			packs += len(r.index[bsrKey{sl, l, rr}])
+			packs += len(r.index[bsrKey{sl, l, rr, rc}])
 		}
 		if packs > 1 {
 			return true
 		}
 		for _, sl := range ntComplete[nt] {
-			for _, k := range r.index[bsrKey{sl, l, rr}] {
-				if elemAmb(sl, l, k, rr) {
+			for _, k := range r.index[bsrKey{sl, l, rr, rc}] {
+				if elemAmb(sl, l, k, rr, rc) {
 					return true
 				}
 			}
 		}
 		return false
 	}
-	return symAmb(gStart, 0, r.n)
+	return symAmb(gStart, 0, r.n, 0)
 }
 
 // Tree extracts a single parse tree (first element at each extent), or nil if
@@ -813,31 +837,31 @@ func (r *Result) Tree() *ParseTree {
 		return nil
 	}
 	for _, sl := range ntComplete[gStart] {
-		if ks := r.index[bsrKey{sl, 0, r.n}]; len(ks) > 0 {
+		if ks := r.index[bsrKey{sl, 0, r.n, 0}]; len(ks) > 0 {
 			var kids []*ParseTree
-			r.collectElem(sl, 0, ks[0], r.n, &kids, map[nodeID]bool{})
+			r.collectElem(sl, 0, ks[0], r.n, 0, &kids, map[nodeID]bool{})
 			return &ParseTree{Rule: qNTs[gStart].ruleName, Start: 0, End: r.n, Children: kids}
 		}
 	}
 	return nil
 }
 
-func (r *Result) collectElem(sl, l, k, rr int, out *[]*ParseTree, visited map[nodeID]bool) {
+func (r *Result) collectElem(sl, l, k, rr, rc int, out *[]*ParseTree, visited map[nodeID]bool) {
 	si := slotInfo[sl]
 	prod := qNTs[si.nt].alts[si.alt]
 	switch {
 	case si.dot == 1:
 	case si.dot == 2:
-		r.collectChild(prod[0], l, k, out, visited)
+		r.collectChild(prod[0], l, k, childRC(si.nt, rc, prod[0]), out, visited)
 	default:
-		if ks := r.index[bsrKey{sl - 1, l, k}]; len(ks) > 0 {
-			r.collectElem(sl-1, l, ks[0], k, out, visited)
+		if ks := r.index[bsrKey{sl - 1, l, k, rc}]; len(ks) > 0 {
+			r.collectElem(sl-1, l, ks[0], k, rc, out, visited)
 		}
 	}
-	r.collectChild(prod[si.dot-1], k, rr, out, visited)
+	r.collectChild(prod[si.dot-1], k, rr, childRC(si.nt, rc, prod[si.dot-1]), out, visited)
 }
 
-func (r *Result) collectChild(s qSym, a, b int, out *[]*ParseTree, visited map[nodeID]bool) {
+func (r *Result) collectChild(s qSym, a, b, rc int, out *[]*ParseTree, visited map[nodeID]bool) {
 	if s.kind != kNT {
 		if s.kind == kEps {
 			return
@@ -845,19 +869,19 @@ func (r *Result) collectChild(s qSym, a, b int, out *[]*ParseTree, visited map[n
 		*out = append(*out, &ParseTree{Start: a, End: b})
 		return
 	}
-	id := nodeID{sl: -1, nt: s.nt, l: a, r: b}
+	id := nodeID{sl: -1, nt: s.nt, l: a, r: b, rc: rc}
 	if visited[id] {
 		return
 	}
 	visited[id] = true
 	for _, sl := range ntComplete[s.nt] {
-		if ks := r.index[bsrKey{sl, a, b}]; len(ks) > 0 {
+		if ks := r.index[bsrKey{sl, a, b, rc}]; len(ks) > 0 {
 			if qNTs[s.nt].isRule {
 				var kids []*ParseTree
-				r.collectElem(sl, a, ks[0], b, &kids, visited)
+				r.collectElem(sl, a, ks[0], b, rc, &kids, visited)
 				*out = append(*out, &ParseTree{Rule: qNTs[s.nt].ruleName, Start: a, End: b, Children: kids})
 			} else {
-				r.collectElem(sl, a, ks[0], b, out, visited)
+				r.collectElem(sl, a, ks[0], b, rc, out, visited)
 			}
 			visited[id] = false
 			return
-- 
2.43.0


From b947a99cfb182f3a03f35dde78d4e59a92c37108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:03 +0000
Subject: [PATCH 09/38] fix: generated parser reports a budget hit on its last
 step

Parse only looked at the abort flag before the next descriptor, so when the
last one exceeded MaxElements it returned a truncated Result (possibly
Valid()==false for valid input) instead of ErrTooLarge.
---
 codegen.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/codegen.go b/codegen.go
index 570e5f8..b08a1fe 100644
--- a/codegen.go
+++ b/codegen.go
@@ -909,6 +909,9 @@ func Parse(input []byte) (*Result, error) {
 		p.work = p.work[:len(p.work)-1]
 		p.process(d)
 	}
+	if p.aborted {
+		return nil, ErrTooLarge
+	}
 	return &Result{input: input, set: p.set, n: len(input)}, nil
 }
 `
-- 
2.43.0


From 23f3597e5720f756fffacf535ca9f02f15610018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:14 +0000
Subject: [PATCH 10/38] fix: generate compilable parsers for terminals and
 rules that match nothing

A prose-val or a num-val series outside Unicode emitted a bare return
followed by code using an undeclared j; a reference to an undefined rule or
to an unsatisfiable repetition declared v without using it. The generated
file did not compile.
---
 codegen.go | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/codegen.go b/codegen.go
index b08a1fe..94b9c79 100644
--- a/codegen.go
+++ b/codegen.go
@@ -169,8 +169,13 @@ func (c *codegen) emitProcess(b *strings.Builder) {
 }
 
 func (c *codegen) emitCall(b *strings.Builder, s sInfo, callee, retID int) {
-	fmt.Fprintf(b, "\t\t\tv := p.create(%d, u, i, rc)\n", retID)
 	ci := c.sg.nts[callee]
+	if len(ci.alts) == 0 {
+		// derives nothing (undefined rule, or a repetition with max < min)
+		b.WriteString("\t\t\treturn\n")
+		return
+	}
+	fmt.Fprintf(b, "\t\t\tv := p.create(%d, u, i, rc)\n", retID)
 	if ci.isRep {
 		if callee == s.nt {
 			// self-recursion inside the rep's own loop: continue the chain.
@@ -208,11 +213,34 @@ func (c *codegen) emitTerminal(b *strings.Builder, sym ssym, nextID int) {
 		fmt.Fprintf(b, "\t\t\tL = %d\n\t\t\tcontinue\n", nextID)
 		return
 	}
+	if neverMatches(sym) {
+		b.WriteString("\t\t\treturn // matches nothing\n")
+		return
+	}
 	c.emitMatch(b, sym) // sets j or returns on failure
 	fmt.Fprintf(b, "\t\t\tp.record(%d, u.pos, i, j, rc)\n", nextID)
 	fmt.Fprintf(b, "\t\t\ti = j\n\t\t\tL = %d\n\t\t\tcontinue\n", nextID)
 }
 
+// neverMatches reports terminals for which no match code can be emitted: a
+// prose-val, or a num-val series holding a value that is not a character.
+func neverMatches(s ssym) bool {
+	switch v := s.term.(type) {
+	case ElemCharVal:
+		return false
+	case ElemNumVal:
+		if v.Status == StatSeries {
+			for _, e := range v.Elems {
+				if !utf8.ValidRune(numvalToRune(e, v.Base)) {
+					return true
+				}
+			}
+		}
+		return false
+	}
+	return true
+}
+
 // emitMatch emits inline code setting j to the end index on success or return on
 // failure.
 func (c *codegen) emitMatch(b *strings.Builder, s ssym) {
-- 
2.43.0


From 6874014b5240f842e2f8ca744c26ece9564b78a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:42 +0000
Subject: [PATCH 11/38] fix: ignore comments when reading the defined-as
 operator

A comment containing "=/" next to a plain "=" (a = ; x =/ y CRLF WSP "b")
turned the definition into an incremental alternative.
---
 grammar.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/grammar.go b/grammar.go
index 8b3932a..b6358dc 100644
--- a/grammar.go
+++ b/grammar.go
@@ -201,8 +201,11 @@ func (e *feval) rule(t *ParseTree) (*Rule, string, error) {
 		return nil, "", ErrNoSolutionFound
 	}
 	definedAs := "="
-	if strings.Contains(e.span(defNode), "=/") {
-		definedAs = "=/"
+	for _, c := range defNode.Children {
+		// c-wsp children may hold comments; only the bare terminal is the operator
+		if c.Rule == "" && e.span(c) == "=/" {
+			definedAs = "=/"
+		}
 	}
 	altNode := ptFirst(elemsNode, "alternation")
 	if altNode == nil {
-- 
2.43.0


From cd5ca216b9c445dbc28e2b68bb944f44d166d605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:53 +0000
Subject: [PATCH 12/38] fix: extending a core rule with =/ no longer changes it
 globally

With WithRedefineCoreRules(true), ALPHA =/ "_" appended to the shared
core rule itself, so every other grammar of the process, including the ABNF
meta-grammar, accepted the extension from then on.
---
 grammar.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/grammar.go b/grammar.go
index b6358dc..a67e3ea 100644
--- a/grammar.go
+++ b/grammar.go
@@ -186,8 +186,9 @@ func (e *feval) rulelist(t *ParseTree) (*Grammar, error) {
 			if rule == nil {
 				return nil, &ErrRuleNotFound{Rulename: rl.Name}
 			}
-			rule.Alternation.Concatenations = append(rule.Alternation.Concatenations, rl.Alternation.Concatenations...)
-			mp[rule.Name] = rule
+			// Extend a copy: rule may be a core rule, shared by every grammar.
+			ext := append(slices.Clone(rule.Alternation.Concatenations), rl.Alternation.Concatenations...)
+			mp[rule.Name] = &Rule{Name: rule.Name, Alternation: Alternation{Concatenations: ext}}
 		}
 	}
 	return &Grammar{Rulemap: mp}, nil
-- 
2.43.0


From 5a0ed6a2c400a9aa9c15db5f339b17fca4b6d2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:04 +0000
Subject: [PATCH 13/38] fix: report a core rule redefined twice as duplicated

Two definitions of one core rule in a grammar were both kept when their
names differed in case, and which one applied depended on map order; with
the same case the first was silently dropped. Other rules already report
ErrDuplicatedRule.
---
 grammar.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/grammar.go b/grammar.go
index a67e3ea..7599e18 100644
--- a/grammar.go
+++ b/grammar.go
@@ -169,11 +169,10 @@ func (e *feval) rulelist(t *ParseTree) (*Grammar, error) {
 		switch definedAs {
 		case "=":
 			isCoreRule := GetRule(rl.Name, nil) != nil
-			if isCoreRule {
-				if !e.o.redefineCore {
-					return nil, &ErrCoreRuleModify{CoreRulename: rl.Name}
-				}
-			} else if GetRule(rl.Name, mp) != nil {
+			if isCoreRule && !e.o.redefineCore {
+				return nil, &ErrCoreRuleModify{CoreRulename: rl.Name}
+			}
+			if getRuleIn(rl.Name, mp) != nil {
 				return nil, &ErrDuplicatedRule{Rulename: rl.Name}
 			}
 			mp[rl.Name] = rl
-- 
2.43.0


From b7586c54f7833ff021bf6f1dfa41f35514dbe1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:33 +0000
Subject: [PATCH 14/38] fix: an undefined rule matches nothing in a regex

---
 regex.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regex.go b/regex.go
index b3d49b2..718f515 100644
--- a/regex.go
+++ b/regex.go
@@ -134,7 +134,7 @@ func (b *reBuilder) rule(name string) reNode {
 	}
 	r := GetRule(name, b.g.Rulemap)
 	if r == nil {
-		return reEmptyV
+		return reNeverV // an undefined rule derives nothing, as for the recognizer
 	}
 	n := b.alt(r.Alternation)
 	b.memo[key] = n
-- 
2.43.0


From 54031ea6a19f02eaea8c1cfbc888f81b98cfdaba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:20 +0000
Subject: [PATCH 15/38] fix: a lone surrogate in a regex does not match U+FFFD

---
 regex.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/regex.go b/regex.go
index 718f515..92a1980 100644
--- a/regex.go
+++ b/regex.go
@@ -177,6 +177,10 @@ func (b *reBuilder) elem(e ElemItf) reNode {
 			if lo > utf8.MaxRune || lo > hi {
 				return reNeverV
 			}
+			// A lone surrogate is no character: it would render as U+FFFD.
+			if lo == hi && !utf8.ValidRune(lo) {
+				return reNeverV
+			}
 			return &reClass{ranges: []reRange{{lo, hi}}}
 		default: // StatSeries is a CONCATENATION of values (a fixed sequence).
 			parts := make([]reNode, 0, len(v.Elems))
-- 
2.43.0


From d02bbef0835fa2f8995df68d570b53ac94e2bba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:40 +0000
Subject: [PATCH 16/38] fix: a deflated num-val series is a sequence, not a
 choice

---
 transition_graph.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/transition_graph.go b/transition_graph.go
index 12b74d8..c627af7 100644
--- a/transition_graph.go
+++ b/transition_graph.go
@@ -1379,6 +1379,7 @@ func (m *tgmachine) elemGraph(elem ElemItf) (entrypoints []*Node, endpoints []*N
 			}
 
 		case StatSeries:
+			// A series is a sequence: each value follows the previous one.
 			if err := m.reserve(len(v.Elems)); err != nil {
 				return nil, nil, err
 			}
@@ -1388,8 +1389,13 @@ func (m *tgmachine) elemGraph(elem ElemItf) (entrypoints []*Node, endpoints []*N
 					Status: StatSeries,
 					Elems:  []string{s},
 				})
-				entrypoints = append(entrypoints, n)
-				endpoints = append(endpoints, n)
+				if len(entrypoints) == 0 {
+					entrypoints = append(entrypoints, n)
+				}
+				for _, prev := range endpoints {
+					prev.Nexts = append(prev.Nexts, n)
+				}
+				endpoints = []*Node{n}
 			}
 		}
 		return
-- 
2.43.0


From 7d4bf43b0a7d7f6e9f86249b28139a728acf557d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:21 +0000
Subject: [PATCH 17/38] fix: transition graphs leave out num-val values that
 are no character

---
 transition_graph.go | 40 +++++++++++++--------------------
 utils.go            | 55 +++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 71 insertions(+), 24 deletions(-)

diff --git a/transition_graph.go b/transition_graph.go
index c627af7..6f793bb 100644
--- a/transition_graph.go
+++ b/transition_graph.go
@@ -5,7 +5,6 @@ import (
 	"slices"
 	"sort"
 	"strings"
-	"unicode/utf8"
 
 	uuid "github.com/hashicorp/go-uuid"
 )
@@ -921,17 +920,12 @@ func nodeEmit(node *Node, tpos int32) (prod []byte, vtotal int32) {
 			}
 			return prod, 1
 		case StatRange:
-			min, max := numvalToInt32(v.Elems[0], v.Base), numvalToInt32(v.Elems[1], v.Base)
-			// The graph operates over runes; clamp to the Unicode range so an
-			// out-of-range bound cannot overflow the int32 count below.
-			if max > utf8.MaxRune {
-				max = utf8.MaxRune
-			}
-			if min > utf8.MaxRune || min > max {
+			// The graph operates over characters: only those of the range count.
+			first, count := numvalRuneRange(numvalToInt32(v.Elems[0], v.Base), numvalToInt32(v.Elems[1], v.Base))
+			if count == 0 {
 				return nil, 1 // no representable character in this range
 			}
-			r := rune(min + tpos)
-			return []byte(string(r)), max - min + 1
+			return []byte(string(numvalRuneAt(first, tpos))), count
 		}
 	}
 	return nil, 1
@@ -1343,6 +1337,10 @@ func (m *tgmachine) elemGraph(elem ElemItf) (entrypoints []*Node, endpoints []*N
 		return
 
 	case ElemNumVal:
+		// A num-val that matches nothing contributes no node.
+		if !numvalMatchable(v) {
+			return
+		}
 		if !m.options.deflateNumVals {
 			if err := m.reserve(1); err != nil {
 				return nil, nil, err
@@ -1354,25 +1352,19 @@ func (m *tgmachine) elemGraph(elem ElemItf) (entrypoints []*Node, endpoints []*N
 		}
 		switch v.Status {
 		case StatRange:
-			min, max := numvalToInt32(v.Elems[0], v.Base), numvalToInt32(v.Elems[1], v.Base)
-			// One node is enumerated per rune; clamp to the Unicode range so an
-			// out-of-range bound cannot overflow the count (int32) and bypass the
-			// node budget, which would turn this loop into a DoS. A range wholly
-			// above U+10FFFF contributes no node (it matches nothing).
-			if max > utf8.MaxRune {
-				max = utf8.MaxRune
-			}
-			if min > utf8.MaxRune || min > max {
-				return
-			}
-			if err := m.reserve(int(max - min + 1)); err != nil {
+			// One node is enumerated per character. Values that are no
+			// character are left out, so an out-of-range bound cannot overflow
+			// the count (int32) and bypass the node budget, which would turn
+			// this loop into a DoS.
+			first, count := numvalRuneRange(numvalToInt32(v.Elems[0], v.Base), numvalToInt32(v.Elems[1], v.Base))
+			if err := m.reserve(int(count)); err != nil {
 				return nil, nil, err
 			}
-			for i := min; i <= max; i++ {
+			for i := range count {
 				n := newNode(ElemNumVal{
 					Base:   v.Base,
 					Status: StatSeries,
-					Elems:  []string{int32ToNumval(i, v.Base)},
+					Elems:  []string{int32ToNumval(numvalRuneAt(first, i), v.Base)},
 				})
 				entrypoints = append(entrypoints, n)
 				endpoints = append(endpoints, n)
diff --git a/utils.go b/utils.go
index dcc9e6d..8b4dcf7 100644
--- a/utils.go
+++ b/utils.go
@@ -4,6 +4,13 @@ import (
 	"math"
 	"strconv"
 	"strings"
+	"unicode/utf8"
+)
+
+// Bounds of the UTF-16 surrogates, which are not Unicode scalar values.
+const (
+	surrogateMin = 0xD800
+	surrogateMax = 0xDFFF
 )
 
 // int32ToNumval converts an integer value into its numeric-string representation
@@ -75,6 +82,54 @@ func numvalToRune(str, base string) rune {
 	return rune(numvalToInt32(str, base))
 }
 
+// numvalRuneRange narrows the num-val range [min, max] to the characters it
+// contains and reports how many there are. Surrogates and values above U+10FFFF
+// are no characters (no UTF-8 text contains them), so a range may hold fewer
+// characters than values, or none. The i-th character is numvalRuneAt(first, i).
+func numvalRuneRange(min, max int32) (first rune, count int32) {
+	if max > utf8.MaxRune {
+		max = utf8.MaxRune
+	}
+	if min >= surrogateMin && min <= surrogateMax {
+		min = surrogateMax + 1
+	}
+	if max >= surrogateMin && max <= surrogateMax {
+		max = surrogateMin - 1
+	}
+	if min > max {
+		return 0, 0
+	}
+	count = max - min + 1
+	if min < surrogateMin && max > surrogateMax {
+		count -= surrogateMax - surrogateMin + 1
+	}
+	return min, count
+}
+
+// numvalRuneAt returns the i-th character from first on, skipping surrogates.
+func numvalRuneAt(first rune, i int32) rune {
+	r := first + i
+	if first < surrogateMin && r >= surrogateMin {
+		r += surrogateMax - surrogateMin + 1
+	}
+	return r
+}
+
+// numvalMatchable reports whether some text matches the num-val, i.e. whether a
+// range contains a character, or every value of a series is one.
+func numvalMatchable(v ElemNumVal) bool {
+	if v.Status == StatRange {
+		_, n := numvalRuneRange(numvalToInt32(v.Elems[0], v.Base), numvalToInt32(v.Elems[1], v.Base))
+		return n > 0
+	}
+	for _, elem := range v.Elems {
+		if !utf8.ValidRune(numvalToRune(elem, v.Base)) {
+			return false
+		}
+	}
+	return true
+}
+
 // checkBounds enforces the Unicode-range invariant (value <= U+10FFFF). It is
 // the strict-validation path used by SemvalABNF: with validation enabled (the
 // default, and the common textual case) a num-val outside the Unicode range is
-- 
2.43.0


From 3774f7e4de46ed4d0f0c977427431046d2a5e2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:13 +0000
Subject: [PATCH 18/38] fix: cloning a graph does not turn unreachable
 endpoints into the empty node

---
 transition_graph.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/transition_graph.go b/transition_graph.go
index 6f793bb..b942237 100644
--- a/transition_graph.go
+++ b/transition_graph.go
@@ -1219,7 +1219,11 @@ func cloneTransitionGraph(i, o []*Node) (entrypoints []*Node, endpoints []*Node)
 			endpoints = append(endpoints, emptyNode)
 			continue
 		}
-		endpoints = append(endpoints, originToNewNodes[vo.ID].cloned)
+		// An endpoint behind an element that matches nothing is unreachable, so
+		// has no clone (and must not pass for the empty node).
+		if cn, ok := originToNewNodes[vo.ID]; ok {
+			endpoints = append(endpoints, cn.cloned)
+		}
 	}
 	return
 }
-- 
2.43.0


From eb7eabcc6229bbe5af5a508dcbe59249ad0338b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:24 +0000
Subject: [PATCH 19/38] fix: NewGenerator refuses a graph that admits no string

---
 fuzz.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/fuzz.go b/fuzz.go
index e8d79ff..eb90482 100644
--- a/fuzz.go
+++ b/fuzz.go
@@ -1,6 +1,7 @@
 package goabnf
 
 import (
+	"errors"
 	"fmt"
 	"math/rand"
 	"unicode/utf8"
@@ -177,8 +178,9 @@ func WithStableAddressing() GenOption {
 // fully expanded -- build it with WithDeflateRules(true) when the target rule
 // references other rules -- because an unexpanded rule node carries no bytes and
 // could not be turned into a valid production. It returns an error naming the
-// first such node otherwise. (Recursive rules cannot be expanded at all; in that
-// case TransitionGraph itself returns ErrCyclicRule before reaching here.)
+// first such node otherwise, or if the graph admits no string at all. (Recursive
+// rules cannot be expanded at all; in that case TransitionGraph itself returns
+// ErrCyclicRule before reaching here.)
 func NewGenerator(tg *TransitionGraph, opts ...GenOption) (*Generator, error) {
 	g := &Generator{
 		tg:        tg,
@@ -253,6 +255,9 @@ func NewGenerator(tg *TransitionGraph, opts ...GenOption) (*Generator, error) {
 			g.entries = append(g.entries, e)
 		}
 	}
+	if len(g.entries) == 0 {
+		return nil, errors.New("transition graph has no entrypoint->endpoint walk: the rule derives no string")
+	}
 	return g, nil
 }
 
-- 
2.43.0


From 4810922cf433c3c4c912bb88616feff795594886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:50 +0000
Subject: [PATCH 20/38] fix: ExpectedNext is exact inside multi-octet
 characters

---
 fuzz.go | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/fuzz.go b/fuzz.go
index eb90482..7933dc0 100644
--- a/fuzz.go
+++ b/fuzz.go
@@ -562,7 +562,7 @@ func (s octetSet) bytes() []byte {
 
 // emission is one fixed-length alternative of a node's output: pos[j] is the set
 // of octets the node may emit at byte offset j. A node usually has exactly one
-// emission; a num-val range that spans several UTF-8 lengths has one per length.
+// emission; a num-val range of multi-octet characters has one per leading octets.
 type emission struct {
 	pos []octetSet
 }
@@ -653,22 +653,26 @@ func nodeEmissions(n *Node) ([]emission, bool) {
 			if max-min+1 > expectedNextRangeCap {
 				return nil, false
 			}
-			byLen := map[int]*emission{}
+			// Characters that differ in their last octet only share an emission, so
+			// that the octets of an emission combine freely.
+			out := []emission{}
+			byLead := map[string]int{}
 			for r := min; r <= max; r++ {
+				if !utf8.ValidRune(r) {
+					continue
+				}
 				bs := []byte(string(rune(r)))
-				e := byLen[len(bs)]
-				if e == nil {
-					e = &emission{pos: make([]octetSet, len(bs))}
-					byLen[len(bs)] = e
+				last := len(bs) - 1
+				i, ok := byLead[string(bs[:last])]
+				if !ok {
+					i = len(out)
+					byLead[string(bs[:last])] = i
+					out = append(out, emission{pos: make([]octetSet, len(bs))})
 				}
 				for j, b := range bs {
-					e.pos[j].add(b)
+					out[i].pos[j].add(b)
 				}
 			}
-			out := make([]emission, 0, len(byLen))
-			for _, e := range byLen {
-				out = append(out, *e)
-			}
 			return out, true
 		}
 	}
-- 
2.43.0


From 388f47197613c7f512c290d217a7188795157cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:14 +0000
Subject: [PATCH 21/38] fix: ExpectedNext does not list octets that lead to no
 word

---
 fuzz.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fuzz.go b/fuzz.go
index 7933dc0..b68dfbe 100644
--- a/fuzz.go
+++ b/fuzz.go
@@ -709,7 +709,7 @@ func (g *Generator) ExpectedNext(prefix []byte) (next []byte, accepts bool, ok b
 		}
 		return true
 	}
-	for _, e := range g.tg.Entrypoints {
+	for _, e := range g.entries {
 		if e == emptyNode {
 			continue
 		}
@@ -741,7 +741,7 @@ func (g *Generator) ExpectedNext(prefix []byte) (next []byte, accepts bool, ok b
 					lastCompletedEndpoint = true
 				}
 				for _, m := range s.n.Nexts {
-					if m == emptyNode {
+					if m == emptyNode || !g.canReach[tgNodeID(m)] {
 						continue
 					}
 					ems2, o := g.emissions(m)
-- 
2.43.0


From 326437cc7f95ebd4ce9a22ff7742a1c966657941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:12 +0000
Subject: [PATCH 22/38] fix: ASTGenerator never picks a branch that derives
 nothing

---
 ast.go | 56 +++++++++++++++++++++++++++++---------------------------
 1 file changed, 29 insertions(+), 27 deletions(-)

diff --git a/ast.go b/ast.go
index 5b5adc6..8d1740c 100644
--- a/ast.go
+++ b/ast.go
@@ -3,7 +3,6 @@ package goabnf
 import (
 	"fmt"
 	"math/rand"
-	"unicode/utf8"
 )
 
 // Generates strings by recursive descent over the grammar AST, so unlike the*
@@ -190,7 +189,7 @@ func (ag *ASTGenerator) over(out *[]byte, depth int) bool {
 }
 
 func (ag *ASTGenerator) genAlt(src source, out *[]byte, alt Alternation, depth int) {
-	cs := alt.Concatenations
+	cs := ag.productive(alt.Concatenations)
 	if len(cs) == 0 {
 		return
 	}
@@ -212,11 +211,11 @@ func (ag *ASTGenerator) genConcat(src source, out *[]byte, concat Concatenation,
 func (ag *ASTGenerator) genRep(src source, out *[]byte, rep Repetition, depth int) {
 	lo := rep.Min
 	hi := rep.Max
-	if hi == inf || hi < lo { // unbounded: cap the optional unrolling
+	if hi == inf { // unbounded: cap the optional unrolling
 		hi = lo + ag.maxRepeat
 	}
 	n := lo
-	if !ag.over(out, depth) && hi > lo {
+	if !ag.over(out, depth) && hi > lo && ag.costElem(rep.Element) < astUnbounded {
 		n = lo + src.intn(hi-lo+1)
 	}
 	for i := 0; i < n; i++ {
@@ -239,7 +238,7 @@ func (ag *ASTGenerator) genElem(src source, out *[]byte, elem ElemItf, depth int
 		ag.genAlt(src, out, e.Alternation, depth)
 
 	case ElemOption:
-		if !ag.over(out, depth) && src.intn(2) == 1 {
+		if !ag.over(out, depth) && ag.costAlt(e.Alternation) < astUnbounded && src.intn(2) == 1 {
 			ag.genAlt(src, out, e.Alternation, depth)
 		}
 
@@ -255,34 +254,31 @@ func (ag *ASTGenerator) genElem(src source, out *[]byte, elem ElemItf, depth int
 		switch e.Status {
 		case StatSeries:
 			for _, v := range e.Elems {
-				r := numvalToRune(v, e.Base)
-				// Emit only real characters; an out-of-range value cannot appear
-				// in UTF-8 input, so the series would never match anyway.
-				if utf8.ValidRune(r) {
-					*out = append(*out, []byte(string(r))...)
-				}
+				*out = append(*out, []byte(string(numvalToRune(v, e.Base)))...)
 			}
 		case StatRange:
-			min, max := numvalToRune(e.Elems[0], e.Base), numvalToRune(e.Elems[1], e.Base)
-			// Emit within the representable (Unicode) subset of the range.
-			if max > utf8.MaxRune {
-				max = utf8.MaxRune
-			}
-			if min > utf8.MaxRune || min > max {
-				break // nothing representable to emit
-			}
-			span := int(max-min) + 1
-			if span < 1 {
-				span = 1
-			}
-			*out = append(*out, []byte(string(min+rune(src.intn(span))))...)
+			// Emit one of the characters of the range.
+			first, count := numvalRuneRange(numvalToInt32(e.Elems[0], e.Base), numvalToInt32(e.Elems[1], e.Base))
+			*out = append(*out, []byte(string(numvalRuneAt(first, int32(src.intn(int(count))))))...)
 		}
 
-	case ElemProseVal:
-		// prose-val is informal text; nothing mechanical to emit.
+		// A prose-val, or a num-val that contains no character, derives nothing
+		// that could be emitted: it is non-productive, so never chosen.
 	}
 }
 
+// productive returns the concatenations that derive some string. The others (an
+// informal prose-val, a num-val without character, ...) can't be generated.
+func (ag *ASTGenerator) productive(cs []Concatenation) []Concatenation {
+	out := make([]Concatenation, 0, len(cs))
+	for _, c := range cs {
+		if ag.costConcat(c) < astUnbounded {
+			out = append(out, c)
+		}
+	}
+	return out
+}
+
 // cheapestConcat returns the index of the concatenation with the smallest
 // minimum expansion cost -- the fastest way to finish the current alternation.
 func (ag *ASTGenerator) cheapestConcat(cs []Concatenation) int {
@@ -313,6 +309,9 @@ func (ag *ASTGenerator) costAlt(alt Alternation) int {
 func (ag *ASTGenerator) costConcat(concat Concatenation) int {
 	total := 0
 	for _, rep := range concat.Repetitions {
+		if rep.Max != inf && rep.Max < rep.Min {
+			return astUnbounded // unsatisfiable
+		}
 		total = addClamp(total, mulClamp(rep.Min, ag.costElem(rep.Element)))
 	}
 	return total
@@ -340,6 +339,9 @@ func (ag *ASTGenerator) costElem(elem ElemItf) int {
 	case ElemCharVal:
 		return len(string(e.Values))
 	case ElemNumVal:
+		if !numvalMatchable(e) {
+			return astUnbounded // no text matches it
+		}
 		switch e.Status {
 		case StatSeries:
 			n := 0
@@ -351,7 +353,7 @@ func (ag *ASTGenerator) costElem(elem ElemItf) int {
 			return len(string(numvalToRune(e.Elems[0], e.Base)))
 		}
 	case ElemProseVal:
-		return 0
+		return astUnbounded // informal text, nothing mechanical to emit
 	}
 	return 0
 }
-- 
2.43.0


From cd6fffa261b9525dd462c9e6d0e30a2b00427293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:49 +0000
Subject: [PATCH 23/38] fix: bound the work of an ASTGenerator walk

---
 ast.go | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/ast.go b/ast.go
index 8d1740c..4f66f8f 100644
--- a/ast.go
+++ b/ast.go
@@ -176,25 +176,36 @@ func (ag *ASTGenerator) GenerateRand(r *rand.Rand) []byte {
 	return ag.walk(randSource{r: r})
 }
 
+// astMaxSteps is a hard backstop on the number of elements a walk expands. The
+// depth and length budgets alone do not bound it: a rule such as
+// a = a a a / "" expands into 3^depth elements without emitting a byte.
+const astMaxSteps = 100_000
+
+// astSource is the entropy source of one walk, along with its expanded elements.
+type astSource struct {
+	source
+	steps int
+}
+
 func (ag *ASTGenerator) walk(src source) []byte {
 	out := []byte{}
-	ag.genAlt(src, &out, ag.start.Alternation, 0)
+	ag.genAlt(&astSource{source: src}, &out, ag.start.Alternation, 0)
 	return out
 }
 
 // over reports whether we should stop taking expansions for their own sake and
 // steer toward the nearest terminal string.
-func (ag *ASTGenerator) over(out *[]byte, depth int) bool {
-	return depth >= ag.maxDepth || len(*out) >= ag.maxLen
+func (ag *ASTGenerator) over(src *astSource, out *[]byte, depth int) bool {
+	return depth >= ag.maxDepth || len(*out) >= ag.maxLen || src.steps >= astMaxSteps
 }
 
-func (ag *ASTGenerator) genAlt(src source, out *[]byte, alt Alternation, depth int) {
+func (ag *ASTGenerator) genAlt(src *astSource, out *[]byte, alt Alternation, depth int) {
 	cs := ag.productive(alt.Concatenations)
 	if len(cs) == 0 {
 		return
 	}
 	idx := 0
-	if ag.over(out, depth) {
+	if ag.over(src, out, depth) {
 		idx = ag.cheapestConcat(cs) // steer: pick the cheapest-to-finish branch
 	} else if len(cs) > 1 {
 		idx = src.intn(len(cs))
@@ -202,32 +213,33 @@ func (ag *ASTGenerator) genAlt(src source, out *[]byte, alt Alternation, depth i
 	ag.genConcat(src, out, cs[idx], depth)
 }
 
-func (ag *ASTGenerator) genConcat(src source, out *[]byte, concat Concatenation, depth int) {
+func (ag *ASTGenerator) genConcat(src *astSource, out *[]byte, concat Concatenation, depth int) {
 	for _, rep := range concat.Repetitions {
 		ag.genRep(src, out, rep, depth)
 	}
 }
 
-func (ag *ASTGenerator) genRep(src source, out *[]byte, rep Repetition, depth int) {
+func (ag *ASTGenerator) genRep(src *astSource, out *[]byte, rep Repetition, depth int) {
 	lo := rep.Min
 	hi := rep.Max
 	if hi == inf { // unbounded: cap the optional unrolling
 		hi = lo + ag.maxRepeat
 	}
 	n := lo
-	if !ag.over(out, depth) && hi > lo && ag.costElem(rep.Element) < astUnbounded {
+	if !ag.over(src, out, depth) && hi > lo && ag.costElem(rep.Element) < astUnbounded {
 		n = lo + src.intn(hi-lo+1)
 	}
 	for i := 0; i < n; i++ {
 		ag.genElem(src, out, rep.Element, depth)
-		// Stop optional extras once over length, but always emit the mandatory lo.
-		if i+1 >= lo && len(*out) >= ag.maxLen {
+		// Stop optional extras once over budget, but always emit the mandatory lo.
+		if i+1 >= lo && ag.over(src, out, depth) {
 			break
 		}
 	}
 }
 
-func (ag *ASTGenerator) genElem(src source, out *[]byte, elem ElemItf, depth int) {
+func (ag *ASTGenerator) genElem(src *astSource, out *[]byte, elem ElemItf, depth int) {
+	src.steps++
 	switch e := elem.(type) {
 	case ElemRulename:
 		// Guaranteed defined+productive by NewASTGenerator.
@@ -238,7 +250,7 @@ func (ag *ASTGenerator) genElem(src source, out *[]byte, elem ElemItf, depth int
 		ag.genAlt(src, out, e.Alternation, depth)
 
 	case ElemOption:
-		if !ag.over(out, depth) && ag.costAlt(e.Alternation) < astUnbounded && src.intn(2) == 1 {
+		if !ag.over(src, out, depth) && ag.costAlt(e.Alternation) < astUnbounded && src.intn(2) == 1 {
 			ag.genAlt(src, out, e.Alternation, depth)
 		}
 
-- 
2.43.0


From 6caec9d2f334f52f7388bf44cb7aa684374da242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:53 +0000
Subject: [PATCH 24/38] fix: Generate always ends, on a word of the grammar

---
 ast.go      | 62 ++++++++++++++++++++++++---------------------
 generate.go | 72 ++++++++++++++++++++++++++++++++++-------------------
 2 files changed, 79 insertions(+), 55 deletions(-)

diff --git a/ast.go b/ast.go
index 4f66f8f..37ebb4c 100644
--- a/ast.go
+++ b/ast.go
@@ -90,35 +90,7 @@ func NewASTGenerator(g *Grammar, rule string, opts ...ASTGenOption) (*ASTGenerat
 		o.apply(ag)
 	}
 
-	// Least-fixpoint of minimum expansion cost over every rule reachable in
-	// principle -- user rules and the built-in core rules (ALPHA, DIGIT, ...),
-	// which GetRule resolves as a fallback but which are absent from Rulemap.
-	// Keyed by canonical rule name (GetRule is case-insensitive and honors user
-	// overrides of core rules). A rule stuck at the sentinel is non-productive.
-	effective := map[string]*Rule{}
-	for n := range g.Rulemap {
-		if r := GetRule(n, g.Rulemap); r != nil {
-			effective[r.Name] = r
-		}
-	}
-	for n := range coreRules {
-		if r := GetRule(n, g.Rulemap); r != nil {
-			effective[r.Name] = r
-		}
-	}
-	ag.minCost = make(map[string]int, len(effective))
-	for name := range effective {
-		ag.minCost[name] = astUnbounded
-	}
-	for changed := true; changed; {
-		changed = false
-		for name, r := range effective {
-			if c := ag.costAlt(r.Alternation); c < ag.minCost[name] {
-				ag.minCost[name] = c
-				changed = true
-			}
-		}
-	}
+	ag.computeMinCosts()
 
 	// Every rule reachable from start must be defined and productive.
 	seen := map[string]bool{start.Name: true}
@@ -164,6 +136,38 @@ func NewASTGenerator(g *Grammar, rule string, opts ...ASTGenOption) (*ASTGenerat
 	return ag, nil
 }
 
+// computeMinCosts is the least fixpoint of minimum expansion cost over every
+// rule reachable in principle -- user rules and the built-in core rules (ALPHA,
+// DIGIT, ...), which GetRule resolves as a fallback but which are absent from
+// Rulemap. Keyed by canonical rule name (GetRule is case-insensitive and honors
+// user overrides of core rules). A rule stuck at the sentinel is non-productive.
+func (ag *ASTGenerator) computeMinCosts() {
+	effective := map[string]*Rule{}
+	for n := range ag.g.Rulemap {
+		if r := GetRule(n, ag.g.Rulemap); r != nil {
+			effective[r.Name] = r
+		}
+	}
+	for n := range coreRules {
+		if r := GetRule(n, ag.g.Rulemap); r != nil {
+			effective[r.Name] = r
+		}
+	}
+	ag.minCost = make(map[string]int, len(effective))
+	for name := range effective {
+		ag.minCost[name] = astUnbounded
+	}
+	for changed := true; changed; {
+		changed = false
+		for name, r := range effective {
+			if c := ag.costAlt(r.Alternation); c < ag.minCost[name] {
+				ag.minCost[name] = c
+				changed = true
+			}
+		}
+	}
+}
+
 // Generate maps the tape to a production the grammar admits. Total and
 // deterministic: any tape (including nil) yields a valid production; an
 // exhausted tape biases toward the shortest one.
diff --git a/generate.go b/generate.go
index 179db93..7e0044b 100644
--- a/generate.go
+++ b/generate.go
@@ -2,10 +2,10 @@ package goabnf
 
 import (
 	"errors"
+	"fmt"
 	"maps"
 	"math/rand"
 	"strings"
-	"unicode/utf8"
 )
 
 // Generate is an experimental feature that consumes a seed for
@@ -35,32 +35,59 @@ func (g *Grammar) Generate(seed int64, rulename string, opts ...GenerateOption)
 		opt.apply(options)
 	}
 
-	// Generate actual content (rule exists, checked first)
+	// Some rules derive nothing to generate (e.g. a num-val without character)
 	rule := GetRule(rulename, g.Rulemap)
+	steer := &ASTGenerator{g: g}
+	steer.computeMinCosts()
+	if steer.minCost[rule.Name] >= astUnbounded {
+		return nil, fmt.Errorf("rule %q is non-productive (cannot derive any finite string)", rulename)
+	}
+
+	// Generate actual content (rule exists, checked first)
 	out := []byte{}
-	generateAlt(rand, g, &out, rule.Alternation, options)
+	generateAlt(&genSource{Source: rand, steer: steer}, g, &out, rule.Alternation, options)
 	return out, nil
 }
 
-func generateAlt(rand rand.Source, g *Grammar, out *[]byte, alt Alternation, options *genOpts) {
-	// Select any possible path in the alternation
-	cnt := alt.Concatenations[int(rand.Int63())%len(alt.Concatenations)]
+// genSource is the entropy source of one generation, along with the elements it
+// expanded and the minimum costs to steer it to an end.
+type genSource struct {
+	rand.Source
+	steer *ASTGenerator
+	steps int
+}
+
+func generateAlt(rand *genSource, g *Grammar, out *[]byte, alt Alternation, options *genOpts) {
+	// Select any possible path in the alternation, or the cheapest to finish if
+	// it generated enough already
+	cncts := rand.steer.productive(alt.Concatenations)
+	cnt := cncts[int(rand.Int63())%len(cncts)]
+	if len(*out) >= options.threshold || rand.steps >= astMaxSteps {
+		cnt = cncts[rand.steer.cheapestConcat(cncts)]
+	}
 
 	// Travel through all the repetitions
 	for _, rep := range cnt.Repetitions {
 		repmax := rep.Max
 		if repmax == inf {
-			repmax = options.repMax
+			repmax = max(options.repMax, rep.Min)
 		}
 		torep := rep.Min + int(rand.Int63())%(repmax-rep.Min+1)
+		if rand.steer.costElem(rep.Element) >= astUnbounded {
+			torep = 0 // derives nothing, and is optional as the path is productive
+		}
 		for i := 0; generateKeepGoing(i, torep, rep.Min, len(*out), options.threshold); i++ {
+			if i >= rep.Min && rand.steps >= astMaxSteps {
+				break
+			}
+			rand.steps++
 			switch elem := rep.Element.(type) {
 			case ElemRulename:
 				rule := GetRule(elem.Name, g.Rulemap)
 				generateAlt(rand, g, out, rule.Alternation, options)
 
 			case ElemOption:
-				if (rand.Int63() % 2) == 0 {
+				if (rand.Int63()%2) == 0 && rand.steps < astMaxSteps && rand.steer.costAlt(elem.Alternation) < astUnbounded {
 					generateAlt(rand, g, out, elem.Alternation, options)
 				}
 
@@ -70,26 +97,14 @@ func generateAlt(rand rand.Source, g *Grammar, out *[]byte, alt Alternation, opt
 			case ElemNumVal:
 				switch elem.Status {
 				case StatRange:
-					min, max := numvalToRune(elem.Elems[0], elem.Base), numvalToRune(elem.Elems[1], elem.Base)
-					// Generation emits UTF-8 text, so clamp to the representable
-					// (Unicode) subset; a range wholly above U+10FFFF (or with
-					// max < min) yields no character.
-					if max > utf8.MaxRune {
-						max = utf8.MaxRune
-					}
-					if min <= utf8.MaxRune && min <= max {
-						r := min + (rune(rand.Int63()&0x0F) % (max - min + 1)) // mask 0x0F to keep the 32-bit part (rune size)
-						appendPtr(out, r)
-					}
+					// Generation emits UTF-8 text, so picks one of the characters
+					// of the range.
+					first, count := numvalRuneRange(numvalToInt32(elem.Elems[0], elem.Base), numvalToInt32(elem.Elems[1], elem.Base))
+					appendPtr(out, numvalRuneAt(first, int32(rand.Int63()&0x0F)%count)) // mask 0x0F to keep the 32-bit part (rune size)
 
 				case StatSeries:
 					for _, v := range elem.Elems {
-						r := numvalToRune(v, elem.Base)
-						// Skip values that are not real characters; they cannot be
-						// emitted as UTF-8 text.
-						if utf8.ValidRune(r) {
-							appendPtr(out, r)
-						}
+						appendPtr(out, numvalToRune(v, elem.Base))
 					}
 				}
 
@@ -102,7 +117,7 @@ func generateAlt(rand rand.Source, g *Grammar, out *[]byte, alt Alternation, opt
 				}
 			}
 
-			// Prose-val is not covered, checked before to avoid generation
+			// Prose-val is not covered, non-productive so never generated
 		}
 	}
 }
@@ -220,6 +235,11 @@ func checkCanGenerateSafelyConcat(g *Grammar, knownRules map[string]struct{}, co
 				}
 			}
 			rule := GetRule(elem.Name, g.Rulemap)
+			if rule == nil {
+				return &ErrRuleNotFound{
+					Rulename: elem.Name,
+				}
+			}
 			scopeRules[elem.Name] = struct{}{}
 			if err := checkCanGenerateSafelyAlt(g, scopeRules, rule.Alternation); err != nil {
 				if err, ok := err.(*ErrCyclicRule); ok {
-- 
2.43.0


From 871635e5ef4931aff7d5ae5b428bcd29032a2987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:26 +0000
Subject: [PATCH 25/38] fix: ParseError reports the furthest position reached,
 not the furthest mismatch

---
 sppf.go | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/sppf.go b/sppf.go
index 3c99f9d..3a3770d 100644
--- a/sppf.go
+++ b/sppf.go
@@ -311,10 +311,10 @@ type gllParser struct {
 	maxNodes int
 	aborted  bool
 
-	// Furthest-failure diagnostics: maxPos is the deepest input offset at which
-	// a terminal match was attempted and failed; expected collects the terminals
-	// that could have been consumed there (deduplicated via expectedSeen). They
-	// drive ParseError when the parse has no solution.
+	// Furthest-failure diagnostics: maxPos is the deepest input offset reached;
+	// expected collects the terminals that could have been consumed there
+	// (deduplicated via expectedSeen; none when nothing may follow). They drive
+	// ParseError when the parse has no solution.
 	maxPos       int
 	expected     []string
 	expectedSeen map[string]bool
@@ -552,6 +552,7 @@ func (p *gllParser) process(d descriptor) {
 			p.noteFail(i, s)
 			return
 		}
+		p.noteReach(j)
 		cR := p.getNodeT(i, j)
 		next := slot{L.nt, L.alt, L.dot + 1}
 		w = p.getNodeP(next, w, cR, rc)
@@ -560,16 +561,22 @@ func (p *gllParser) process(d descriptor) {
 	}
 }
 
-// noteFail records that a terminal match failed at input offset i. It maintains
-// the furthest such offset and, for that offset only, the set of terminals that
-// could have been consumed -- the classic "furthest-failure" position used to
-// report where parsing got stuck.
-func (p *gllParser) noteFail(i int, s ssym) {
+// noteReach records that the parser got to input offset i. Whatever was
+// expected at a lesser offset is no longer where parsing got stuck.
+func (p *gllParser) noteReach(i int) {
 	if i > p.maxPos {
 		p.maxPos = i
 		p.expected = p.expected[:0]
 		p.expectedSeen = nil
 	}
+}
+
+// noteFail records that a terminal match failed at input offset i. It maintains
+// the furthest offset reached and, for that offset only, the set of terminals
+// that could have been consumed -- the classic "furthest-failure" position used
+// to report where parsing got stuck.
+func (p *gllParser) noteFail(i int, s ssym) {
+	p.noteReach(i)
 	if i != p.maxPos {
 		return
 	}
-- 
2.43.0


From f5d2a5042c3f08cbb08e4f656d6be52a6e49a5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:18 +0000
Subject: [PATCH 26/38] fix: WithMaxRegexLen bounds the work on shared rules
 too

---
 regex.go | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/regex.go b/regex.go
index 92a1980..7f994bc 100644
--- a/regex.go
+++ b/regex.go
@@ -249,13 +249,13 @@ func simplify(n reNode, memo map[reNode]reNode) reNode {
 		never := false
 		for _, p := range v.parts {
 			sp := simplify(p, memo)
-			switch x := sp.(type) {
+			switch sp.(type) {
 			case *reEmpty: // drop: empty in a concatenation contributes nothing
 			case *reNever: // one un-matchable part makes the whole sequence un-matchable
 				never = true
-			case *reConcat:
-				parts = append(parts, x.parts...) // flatten
 			default:
+				// A nested concatenation renders in place, without a group. It is
+				// not copied: shared rules would multiply it at every level.
 				parts = append(parts, sp)
 			}
 		}
@@ -276,10 +276,23 @@ func simplify(n reNode, memo map[reNode]reNode) reNode {
 			if isNever(so) { // a never-matching branch is dead; drop it
 				continue
 			}
-			if x, ok := so.(*reAlt); ok {
-				opts = append(opts, x.opts...) // flatten
-			} else {
+			x, ok := so.(*reAlt)
+			if !ok {
 				opts = append(opts, so)
+				continue
+			}
+			// A nested alternation renders in place, without a group, so only its
+			// class (always its first option) is lifted out, to be merged. The rest
+			// is not copied: shared rules would multiply it at every level.
+			rest := x.opts
+			if c, ok := rest[0].(*reClass); ok {
+				opts = append(opts, c)
+				rest = rest[1:]
+			}
+			if len(rest) == 1 {
+				opts = append(opts, rest[0])
+			} else {
+				opts = append(opts, &reAlt{opts: rest})
 			}
 		}
 		// Fold every class option into a single merged class: turns an
-- 
2.43.0


From c90a4f24fd945a58cd50812f64d48843ebbc079f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:34 +0000
Subject: [PATCH 27/38] fix: a grammar of exactly WithMaxSlots nonterminals is
 within the budget

---
 sppf.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sppf.go b/sppf.go
index 3a3770d..bcaab6a 100644
--- a/sppf.go
+++ b/sppf.go
@@ -100,7 +100,7 @@ type lowerer struct {
 }
 
 func (c *lowerer) budgetExceeded() bool {
-	if c.max > 0 && len(c.sg.nts) >= c.max {
+	if c.max > 0 && len(c.sg.nts) > c.max {
 		c.over = true
 	}
 	return c.over
-- 
2.43.0


From 2a59f2b1cf6e8cb1c772a67efb2d8d98b52cf91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:48 +0000
Subject: [PATCH 28/38] fix: recording a BSR element again does not exceed the
 budget

---
 bsr.go     | 5 +++--
 codegen.go | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/bsr.go b/bsr.go
index 586ad6b..1ebbc2e 100644
--- a/bsr.go
+++ b/bsr.go
@@ -95,11 +95,12 @@ func (p *bsrParser) gssNodeFor(ret slot, pos, rc int) *bsrGNode {
 func (p *bsrParser) record(L slot, l, k, r, rc int) {
 	prod := p.sg.nts[L.nt].alts[L.alt]
 	if L.dot >= 2 || L.dot == len(prod) {
-		if p.maxElems > 0 && len(p.set) >= p.maxElems {
+		e := bsrElem{L, l, k, r, rc}
+		if p.maxElems > 0 && len(p.set) >= p.maxElems && !p.set[e] {
 			p.aborted = true
 			return
 		}
-		p.set[bsrElem{L, l, k, r, rc}] = true
+		p.set[e] = true
 	}
 }
 
diff --git a/codegen.go b/codegen.go
index 94b9c79..ae120a4 100644
--- a/codegen.go
+++ b/codegen.go
@@ -600,11 +600,12 @@ func (p *parser) gssNodeFor(ret, pos, rc int) *gnode {
 func (p *parser) record(L, l, k, r, rc int) {
 	si := slotInfo[L]
 	if si.dot >= 2 || si.dot == si.plen {
-		if MaxElements > 0 && len(p.set) >= MaxElements {
+		e := bsrElem{L, l, k, r, rc}
+		if MaxElements > 0 && len(p.set) >= MaxElements && !p.set[e] {
 			p.aborted = true
 			return
 		}
-		p.set[bsrElem{L, l, k, r, rc}] = true
+		p.set[e] = true
 	}
 }
 
-- 
2.43.0


From 2ea588eb2b1c94d0705e81dd4e7a26b27c1697c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:07:23 +0000
Subject: [PATCH 29/38] fix: node budgets stop a repetition counting up on
 empty elements

---
 bsr.go     |  7 +++++++
 codegen.go | 10 ++++++++++
 sppf.go    |  9 +++++++++
 3 files changed, 26 insertions(+)

diff --git a/bsr.go b/bsr.go
index 1ebbc2e..35ed289 100644
--- a/bsr.go
+++ b/bsr.go
@@ -66,6 +66,7 @@ type bsrParser struct {
 
 	maxElems int
 	aborted  bool
+	idleReps int // see gllParser
 }
 
 func (p *bsrParser) add(L slot, u *bsrGNode, i, rc int) {
@@ -84,6 +85,12 @@ func (p *bsrParser) gssNodeFor(ret slot, pos, rc int) *bsrGNode {
 	}
 	v := &bsrGNode{ret: ret, pos: pos, rc: rc, edgeSet: map[*bsrGNode]bool{}}
 	p.gss[k] = v
+	// See gllParser.gssNodeFor: each of these counts becomes an element.
+	if rc > pos {
+		if p.idleReps++; p.maxElems > 0 && p.idleReps/2 > p.maxElems {
+			p.aborted = true
+		}
+	}
 	return v
 }
 
diff --git a/codegen.go b/codegen.go
index ae120a4..24ba55b 100644
--- a/codegen.go
+++ b/codegen.go
@@ -548,6 +548,8 @@ type parser struct {
 	work    []desc
 	popped  map[*gnode]map[int]bool
 	aborted bool
+
+	idleReps int // stack nodes at a count that empty elements contributed to
 }
 
 func foldB(b byte) byte {
@@ -592,6 +594,14 @@ func (p *parser) gssNodeFor(ret, pos, rc int) *gnode {
 	}
 	v := &gnode{ret: ret, pos: pos, rc: rc, edgeSet: map[*gnode]bool{}}
 	p.gss[k] = v
+	// More elements than input: some matched empty, so every count can end here
+	// and becomes an element of its own. Stop while counting up rather than
+	// after: there are at most two stack nodes per count.
+	if rc > pos {
+		if p.idleReps++; MaxElements > 0 && p.idleReps/2 > MaxElements {
+			p.aborted = true
+		}
+	}
 	return v
 }
 
diff --git a/sppf.go b/sppf.go
index bcaab6a..57e173b 100644
--- a/sppf.go
+++ b/sppf.go
@@ -310,6 +310,7 @@ type gllParser struct {
 
 	maxNodes int
 	aborted  bool
+	idleReps int // stack nodes at a count that empty elements contributed to
 
 	// Furthest-failure diagnostics: maxPos is the deepest input offset reached;
 	// expected collects the terminals that could have been consumed there
@@ -355,6 +356,14 @@ func (p *gllParser) gssNodeFor(ret slot, pos, rc int) *gssNode {
 	}
 	v := &gssNode{ret: ret, pos: pos, rc: rc, edgeSet: map[gssEdge]bool{}}
 	p.gss[k] = v
+	// More elements than input: some matched empty, so every count can end here
+	// and becomes a node of its own. Stop while counting up rather than after:
+	// there are at most two stack nodes per count.
+	if rc > pos {
+		if p.idleReps++; p.maxNodes > 0 && p.idleReps/2 > p.maxNodes {
+			p.aborted = true
+		}
+	}
 	return v
 }
 
-- 
2.43.0


From e403842b4bdb17ef11229e6f68406e63c3609c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:42 +0000
Subject: [PATCH 30/38] fix: the dependency graph includes core rules only if
 necessary

---
 dag.go | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/dag.go b/dag.go
index b4883c8..92523c9 100644
--- a/dag.go
+++ b/dag.go
@@ -22,21 +22,38 @@ type Depgraph map[string]*node
 // It includes core rules only if necessary.
 func (g *Grammar) DependencyGraph() Depgraph {
 	graph := Depgraph{}
-	for _, corerule := range coreRules {
-		graph[strings.ToLower(corerule.Name)] = &node{
-			Rulename:     corerule.Name,
-			Dependencies: getDependencies(corerule.Alternation),
-		}
-	}
 	for _, rule := range g.Rulemap {
 		graph[strings.ToLower(rule.Name)] = &node{
 			Rulename:     rule.Name,
 			Dependencies: getDependencies(rule.Alternation),
 		}
 	}
+	for _, rule := range g.Rulemap {
+		graph.addCoreRules(getDependencies(rule.Alternation))
+	}
 	return graph
 }
 
+// addCoreRules adds the core rules among the dependencies, and those they
+// depend on, unless the grammar redefines them.
+func (dg Depgraph) addCoreRules(deps []string) {
+	for _, dep := range deps {
+		if _, ok := dg[dep]; ok {
+			continue
+		}
+		corerule := getRuleIn(dep, coreRules)
+		if corerule == nil {
+			continue
+		}
+		coredeps := getDependencies(corerule.Alternation)
+		dg[dep] = &node{
+			Rulename:     corerule.Name,
+			Dependencies: coredeps,
+		}
+		dg.addCoreRules(coredeps)
+	}
+}
+
 func getDependencies(alt Alternation) []string {
 	deps := []string{}
 	for _, conc := range alt.Concatenations {
-- 
2.43.0


From 123c47a0332be475a4dc0a498faed6c61b0a5eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:42 +0000
Subject: [PATCH 31/38] fix: the dependency drawing names a rule one way
 throughout

---
 dag.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dag.go b/dag.go
index 92523c9..d0b4bb3 100644
--- a/dag.go
+++ b/dag.go
@@ -86,6 +86,10 @@ func (dg Depgraph) Mermaid() string {
 	out.WriteString("flowchart TD\n")
 	for _, node := range dg {
 		for _, dep := range node.Dependencies {
+			// Name the rule as its own node does, for them to be the same one.
+			if nd, ok := dg[dep]; ok {
+				dep = nd.Rulename
+			}
 			fmt.Fprintf(&out, "\t%s --> %s\n", node.Rulename, dep)
 		}
 		out.WriteString("\n")
-- 
2.43.0


From deb18f50f0ff357467e2b60fc9e2a0c41fe7d510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:42 +0000
Subject: [PATCH 32/38] fix: pap transition-graph honours --deflate-*=false

---
 cmd/pap/commands/transition_graph.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmd/pap/commands/transition_graph.go b/cmd/pap/commands/transition_graph.go
index 616d229..8b3f132 100644
--- a/cmd/pap/commands/transition_graph.go
+++ b/cmd/pap/commands/transition_graph.go
@@ -53,13 +53,13 @@ func transitionGraph(ctx *cli.Context) error {
 	// Build options
 	opts := []goabnf.TGOption{}
 	if ctx.IsSet("deflate-rules") {
-		opts = append(opts, goabnf.WithDeflateRules(true))
+		opts = append(opts, goabnf.WithDeflateRules(ctx.Bool("deflate-rules")))
 	}
 	if ctx.IsSet("deflate-charvals") {
-		opts = append(opts, goabnf.WithDeflateCharVals(true))
+		opts = append(opts, goabnf.WithDeflateCharVals(ctx.Bool("deflate-charvals")))
 	}
 	if ctx.IsSet("deflate-numvals") {
-		opts = append(opts, goabnf.WithDeflateNumVals(true))
+		opts = append(opts, goabnf.WithDeflateNumVals(ctx.Bool("deflate-numvals")))
 	}
 	if ctx.IsSet("repetition-threshold") {
 		opts = append(opts, goabnf.WithRepetitionThreshold(ctx.Int("repetition-threshold")))
-- 
2.43.0


From d9b2bede4555257740d0fe28eb6d5049f86770b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:29 +0000
Subject: [PATCH 33/38] fix: deciding whether a rule can be generated takes
 polynomial time

The check followed every path of references, so a grammar of some tens of
rules that share sub-rules (r0 = r1 / "x" r1, r1 = r2 / "x" r2, ...) kept
Generate busy for ever.
---
 generate.go | 58 ++++++++++++++++++++++-------------------------------
 1 file changed, 24 insertions(+), 34 deletions(-)

diff --git a/generate.go b/generate.go
index 7e0044b..74dc843 100644
--- a/generate.go
+++ b/generate.go
@@ -3,9 +3,7 @@ package goabnf
 import (
 	"errors"
 	"fmt"
-	"maps"
 	"math/rand"
-	"strings"
 )
 
 // Generate is an experimental feature that consumes a seed for
@@ -181,13 +179,26 @@ func checkCanGenerateSafely(g *Grammar, rulename string) error {
 			Rulename: rulename,
 		}
 	}
-	knownRules := map[string]struct{}{
-		rulename: {},
-	}
-	if err := checkCanGenerateSafelyAlt(g, knownRules, rule.Alternation); err != nil {
-		if err, ok := err.(*ErrCyclicRule); ok {
-			return err
+	// Grow the set of rules that can be generated safely until it is stable. A
+	// rule belongs to it if one of its paths only requires rules of it, so each
+	// is visited once per round rather than once per path that leads to it.
+	safeRules := map[string]struct{}{}
+	for changed := true; changed; {
+		changed = false
+		for _, rulemap := range []map[string]*Rule{g.Rulemap, coreRules} {
+			for _, rule := range rulemap {
+				r := GetRule(rule.Name, g.Rulemap)
+				if _, ok := safeRules[r.Name]; ok {
+					continue
+				}
+				if checkCanGenerateSafelyAlt(g, safeRules, r.Alternation) == nil {
+					safeRules[r.Name] = struct{}{}
+					changed = true
+				}
+			}
 		}
+	}
+	if _, ok := safeRules[rule.Name]; !ok {
 		return &ErrCyclicRule{
 			Rulename: rulename,
 		}
@@ -195,10 +206,10 @@ func checkCanGenerateSafely(g *Grammar, rulename string) error {
 	return nil
 }
 
-func checkCanGenerateSafelyAlt(g *Grammar, knownRules map[string]struct{}, alt Alternation) error {
+func checkCanGenerateSafelyAlt(g *Grammar, safeRules map[string]struct{}, alt Alternation) error {
 	errs := make([]error, len(alt.Concatenations))
 	for alti, concat := range alt.Concatenations {
-		errs[alti] = checkCanGenerateSafelyConcat(g, knownRules, concat)
+		errs[alti] = checkCanGenerateSafelyConcat(g, safeRules, concat)
 	}
 	allErrors := true
 	for i := 0; i < len(errs) && allErrors; i++ {
@@ -212,7 +223,7 @@ func checkCanGenerateSafelyAlt(g *Grammar, knownRules map[string]struct{}, alt A
 	return nil
 }
 
-func checkCanGenerateSafelyConcat(g *Grammar, knownRules map[string]struct{}, concat Concatenation) error {
+func checkCanGenerateSafelyConcat(g *Grammar, safeRules map[string]struct{}, concat Concatenation) error {
 	for _, rep := range concat.Repetitions {
 		// If the repetition is not mandatory, we can escape so can
 		// generate safely.
@@ -223,35 +234,20 @@ func checkCanGenerateSafelyConcat(g *Grammar, knownRules map[string]struct{}, co
 		// Deal with the repetition itself then.
 		switch elem := rep.Element.(type) {
 		case ElemRulename:
-			// Copy rules to only focus on rules that made use come here.
-			// If shared with others, the dependency graph can lead to the same rule
-			// from another path without it being a cycle, thus must be handled.
-			scopeRules := duplicateMap(knownRules)
-			for known := range scopeRules {
-				if strings.EqualFold(elem.Name, known) {
-					return &ErrCyclicRule{
-						Rulename: elem.Name,
-					}
-				}
-			}
 			rule := GetRule(elem.Name, g.Rulemap)
 			if rule == nil {
 				return &ErrRuleNotFound{
 					Rulename: elem.Name,
 				}
 			}
-			scopeRules[elem.Name] = struct{}{}
-			if err := checkCanGenerateSafelyAlt(g, scopeRules, rule.Alternation); err != nil {
-				if err, ok := err.(*ErrCyclicRule); ok {
-					return err
-				}
+			if _, ok := safeRules[rule.Name]; !ok {
 				return &ErrCyclicRule{
 					Rulename: elem.Name,
 				}
 			}
 
 		case ElemGroup:
-			if err := checkCanGenerateSafelyAlt(g, knownRules, elem.Alternation); err != nil {
+			if err := checkCanGenerateSafelyAlt(g, safeRules, elem.Alternation); err != nil {
 				return err
 			}
 
@@ -265,9 +261,3 @@ func checkCanGenerateSafelyConcat(g *Grammar, knownRules map[string]struct{}, co
 	}
 	return nil
 }
-
-func duplicateMap[T comparable, V any](m map[T]V) map[T]V {
-	n := make(map[T]V, len(m))
-	maps.Copy(n, m)
-	return n
-}
-- 
2.43.0


From fd97af41285be33a34e379180c24388aab89326d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:24 +0000
Subject: [PATCH 34/38] fix: a near miss is not labelled one past a range where
 no such character exists

---
 fuzz.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fuzz.go b/fuzz.go
index b68dfbe..b2dc4ef 100644
--- a/fuzz.go
+++ b/fuzz.go
@@ -449,7 +449,7 @@ func (g *Generator) nearMissCandidates(src source, base []byte, trace []traceSeg
 			{rune(nv.min - 1), "below"},
 			{rune(nv.max + 1), "above"},
 		} {
-			if b.r < 0 || b.r > 0x10FFFF {
+			if !utf8.ValidRune(b.r) { // no such character (surrogate, out of Unicode)
 				continue
 			}
 			cand := cloneBytes(base)
-- 
2.43.0


From b19b1233fa3664e7078b6cb4eecfb79c1feae6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:26:25 +0000
Subject: [PATCH 35/38] fix: a rule name is only looked up by its ASCII
 letters, whatever their case

---
 utils.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/utils.go b/utils.go
index 8b4dcf7..9f75fc2 100644
--- a/utils.go
+++ b/utils.go
@@ -199,7 +199,9 @@ func GetRule(rulename string, rulemap map[string]*Rule) *Rule {
 
 func getRuleIn(rulename string, rulemap map[string]*Rule) *Rule {
 	for _, rule := range rulemap {
-		if strings.EqualFold(rulename, rule.Name) {
+		// Rule names are ASCII, but Unicode folds other characters to letters: all
+		// of them take more bytes.
+		if len(rulename) == len(rule.Name) && strings.EqualFold(rulename, rule.Name) {
 			return rule
 		}
 	}
-- 
2.43.0


From dc6003651c92da465ffa9a05190ebaf404801b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:27:05 +0000
Subject: [PATCH 36/38] fix: generation does not report a cycle where a
 prose-val or an undefined rule is in the way

---
 generate.go | 32 +++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/generate.go b/generate.go
index 74dc843..52c94c0 100644
--- a/generate.go
+++ b/generate.go
@@ -199,13 +199,39 @@ func checkCanGenerateSafely(g *Grammar, rulename string) error {
 		}
 	}
 	if _, ok := safeRules[rule.Name]; !ok {
-		return &ErrCyclicRule{
-			Rulename: rulename,
-		}
+		return whyCannotGenerate(g, safeRules, rule)
 	}
 	return nil
 }
 
+// whyCannotGenerate tells what makes the rule impossible to generate: a
+// prose-val or an undefined rule it cannot avoid, else a cycle.
+func whyCannotGenerate(g *Grammar, safeRules map[string]struct{}, root *Rule) error {
+	visited := map[string]struct{}{root.Name: {}}
+	for todo := []*Rule{root}; len(todo) > 0; todo = todo[1:] {
+		err := checkCanGenerateSafelyAlt(g, safeRules, todo[0].Alternation)
+		for errs := []error{err}; len(errs) > 0; errs = errs[1:] {
+			switch err := errs[0].(type) {
+			case interface{ Unwrap() []error }:
+				errs = append(errs, err.Unwrap()...)
+
+			case *ErrCyclicRule:
+				rule := GetRule(err.Rulename, g.Rulemap)
+				if _, ok := visited[rule.Name]; !ok {
+					visited[rule.Name] = struct{}{}
+					todo = append(todo, rule)
+				}
+
+			default:
+				return err
+			}
+		}
+	}
+	return &ErrCyclicRule{
+		Rulename: root.Name,
+	}
+}
+
 func checkCanGenerateSafelyAlt(g *Grammar, safeRules map[string]struct{}, alt Alternation) error {
 	errs := make([]error, len(alt.Concatenations))
 	for alti, concat := range alt.Concatenations {
-- 
2.43.0


From f50cb51c48d6cfca6cbbe80e778972e4e4a5b50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:59:30 +0000
Subject: [PATCH 37/38] fix: an ambiguous input gets the same tree from every
 BSR parse

---
 bsr.go     | 6 ++++++
 codegen.go | 7 ++++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/bsr.go b/bsr.go
index 35ed289..916dde1 100644
--- a/bsr.go
+++ b/bsr.go
@@ -2,6 +2,7 @@ package goabnf
 
 import (
 	"math/big"
+	"slices"
 	"unicode/utf8"
 )
 
@@ -285,6 +286,11 @@ func (f *BSRForest) buildIndex() {
 		k := bsrKey{e.slot, e.l, e.r, e.rc}
 		f.index[k] = append(f.index[k], e.k)
 	}
+	// The set has no order: keep the pivots in one, so that Tree extracts the
+	// same tree for the same input.
+	for _, ks := range f.index {
+		slices.Sort(ks)
+	}
 }
 
 // startElems returns, for each production of the start rule, the pivots of the
diff --git a/codegen.go b/codegen.go
index 24ba55b..e1d94a6 100644
--- a/codegen.go
+++ b/codegen.go
@@ -134,7 +134,7 @@ func (c *codegen) scanUTF8() {
 }
 
 func (c *codegen) emitImports(b *strings.Builder) {
-	b.WriteString("import (\n\t\"errors\"\n\t\"math/big\"\n")
+	b.WriteString("import (\n\t\"errors\"\n\t\"math/big\"\n\t\"sort\"\n")
 	if c.usesUTF8 {
 		b.WriteString("\t\"unicode/utf8\"\n")
 	}
@@ -700,6 +700,11 @@ func (r *Result) buildIndex() {
 		bk := bsrKey{e.sl, e.l, e.r, e.rc}
 		r.index[bk] = append(r.index[bk], e.k)
 	}
+	// The set has no order: keep the pivots in one, so that Tree extracts the
+	// same tree for the same input.
+	for _, ks := range r.index {
+		sort.Ints(ks)
+	}
 }
 
 // Valid reports whether the whole input is derivable by the root rule.
-- 
2.43.0


From 8d9160f32c5100168dfa0158e9716008460c7d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:02:13 +0000
Subject: [PATCH 38/38] fix: an ambiguous input gets the same tree from every
 parse

---
 sppf.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sppf.go b/sppf.go
index 57e173b..1fed3dd 100644
--- a/sppf.go
+++ b/sppf.go
@@ -282,6 +282,7 @@ type gssNode struct {
 	rc      int // repetition count carried for native counted repetition (0 otherwise)
 	edges   []gssEdge
 	edgeSet map[gssEdge]bool
+	pops    []*gnode // what has been popped from it, in order
 }
 
 type gssEdge struct {
@@ -373,7 +374,7 @@ func (p *gllParser) create(L slot, u *gssNode, i int, w *gnode, rc int) *gssNode
 	if !v.edgeSet[e] {
 		v.edgeSet[e] = true
 		v.edges = append(v.edges, e)
-		for z := range p.popped[v] {
+		for _, z := range v.pops {
 			y := p.getNodeP(L, w, z, rc)
 			p.add(L, u, z.End, y, rc)
 		}
@@ -388,7 +389,10 @@ func (p *gllParser) pop(u *gssNode, i int, z *gnode) {
 	if p.popped[u] == nil {
 		p.popped[u] = map[*gnode]bool{}
 	}
-	p.popped[u][z] = true
+	if !p.popped[u][z] {
+		p.popped[u][z] = true
+		u.pops = append(u.pops, z)
+	}
 	for _, e := range u.edges {
 		y := p.getNodeP(u.ret, e.w, z, u.rc)
 		p.add(u.ret, e.to, i, y, u.rc)
-- 
2.43.0

