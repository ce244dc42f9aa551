package main

import (
	"bytes"
	"math/big"
	"strings"

	"verif/harness/ref"
)

// scaleCases: grammars and inputs far beyond the exhaustively enumerated sizes,
// along one dimension each (length, offset, nesting, chain, fan-out, bound,
// number of trees), around every power of two an implementation could pack or
// saturate at. The number of derivations is known in closed form.
func scaleCases(tier string, yield func(*Case) bool) bool {
	lens := []int{15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300}
	if tier == "thorough" {
		lens = append(lens, 511, 512, 513, 1000, 1023, 1024, 1025)
	}
	one, zero := big.NewInt(1), big.NewInt(0)
	ch, a := ref.Ch, ref.Ch("a")
	rep := func(s string, n int) string { return strings.Repeat(s, n) }
	ok := true
	var in [][]byte
	var want []*big.Int
	add := func(s string, n *big.Int) {
		in = append(in, []byte(s))
		want = append(want, n)
	}
	flush := func(rules ...ref.Rule) {
		if ok && len(in) > 0 {
			ok = yield(&Case{G: &ref.Grammar{Rules: rules}, Inputs: in, Want: want, Fam: "scale"})
		}
		in, want = nil, nil
	}
	rule := func(n string, al ref.Alt) ref.Rule { return ref.Rule{Name: n, Alt: al} }
	r := ref.Ref("r")

	// words a^n, and the same with one wrong octet first, in the middle, last
	lin := func(count func(n int) *big.Int, ls []int, rules ...ref.Rule) {
		for _, n := range ls {
			add(rep("a", n), count(n))
			add("b"+rep("a", n), zero)
			add(rep("a", n)+"b", zero)
			add(rep("a", n/2)+"b"+rep("a", n-n/2), zero)
		}
		flush(rules...)
	}
	cOne := func(int) *big.Int { return one }
	lin(cOne, lens, rule("r", ref.Alt{{ref.R(0, ref.Inf, a)}}))
	lin(cOne, lens, rule("r", ref.Alt{{ref.R(0, ref.Inf, ref.Grp(ref.AE(a)))}}))
	lin(cOne, lens, rule("r", ref.A(ref.C(a, r), ref.C(ch("")))))
	lin(cOne, lens, rule("r", ref.A(ref.C(r, a), ref.C(ch("")))))
	lin(cOne, lens, rule("r", ref.A(ref.C(ref.Ref("s"), a), ref.C(ch("")))), rule("s", ref.AE(r)))
	lin(cOne, lens, rule("r", ref.A(ref.C(ref.Opt(ref.AE(ch("c"))), r, a), ref.C(a))))
	par := func(want int) func(n int) *big.Int {
		return func(n int) *big.Int {
			if n%2 == want {
				return one
			}
			return zero
		}
	}
	lin(par(0), lens, rule("r", ref.A(ref.C(ch("")), ref.C(a, ref.Ref("s")))), rule("s", ref.AE(ref.Grp(ref.A(ref.C(a, r))))))
	lin(par(1), lens, rule("r", ref.A(ref.C(a), ref.C(a, r, a))))
	// counting
	fib := func(n int) *big.Int {
		x, y := big.NewInt(1), big.NewInt(1)
		for i := 0; i < n; i++ {
			x, y = y, new(big.Int).Add(x, y)
		}
		return x
	}
	pow := func(b int64) func(n int) *big.Int {
		return func(n int) *big.Int { return new(big.Int).Exp(big.NewInt(b), big.NewInt(int64(n)), nil) }
	}
	catalan := func(n int) *big.Int { // trees over n leaves
		c := new(big.Int).Binomial(int64(2*n-2), int64(n-1))
		return c.Div(c, big.NewInt(int64(n)))
	}
	lin(fib, lens, rule("r", ref.A(ref.C(a, r), ref.C(ch("aa"), r), ref.C(ch("")))))
	lin(fib, lens, rule("r", ref.A(ref.C(r, a), ref.C(r, ch("aa")), ref.C(ch("")))))
	lin(fib, lens, rule("r", ref.Alt{{ref.R(0, ref.Inf, ref.Grp(ref.AE(a, ch("aa"))))}}))
	lin(pow(2), lens, rule("r", ref.Alt{{ref.R(0, ref.Inf, ref.Grp(ref.AE(a, a)))}}))
	lin(pow(3), lens, rule("r", ref.Alt{{ref.R(0, ref.Inf, ref.Ref("s"))}}), rule("s", ref.AE(a, ref.Rng('a', 'a'), ref.Cs("a"))))
	lin(func(n int) *big.Int { return big.NewInt(int64(n + 1)) }, lens, rule("r", ref.Alt{{ref.R(0, ref.Inf, a), ref.R(0, ref.Inf, a)}}))
	cl := []int{2, 3, 10, 15, 16, 17, 24, 31, 32, 33, 36, 37, 40}
	if tier == "thorough" {
		cl = append(cl, 63, 64, 65, 80)
	}
	lin(catalan, cl, rule("r", ref.A(ref.C(r, r), ref.C(a))))
	lin(catalan, cl, rule("r", ref.A(ref.C(a), ref.C(ref.Grp(ref.A(ref.C(r, r)))))))
	// k optional parts, n of them present
	for _, k := range []int{10, 33, 64, 67, 100} {
		for _, n := range []int{0, 1, 2, k / 2, k - 1, k, k + 1} {
			w := big.NewInt(0)
			if n <= k {
				w.Binomial(int64(k), int64(n))
			}
			add(rep("a", n), w)
		}
		flush(rule("r", ref.Alt{{ref.Rep{Min: k, Max: k, E: ref.Opt(ref.AE(a))}}}))
	}
	// nesting brackets
	for _, n := range []int{1, 16, 63, 64, 65, 127, 128, 129, 200, 256} {
		add(rep("(", n)+rep(")", n), one)
		add(rep("(", n)+rep(")", n-1), zero)
		add(rep("(", n)+rep(")", n+1), zero)
	}
	flush(rule("r", ref.A(ref.C(ch("("), r, ch(")")), ref.C(ch("")))))
	for _, n := range []int{1, 16, 63, 64, 65, 127, 128, 129, 200, 256} {
		add(rep("[", n)+"x"+rep("]", n), one)
		add(rep("[", n)+"y"+rep("]", n), zero)
	}
	flush(rule("r", ref.A(ref.C(ch("x")), ref.C(ref.Ref("s")))), rule("s", ref.A(ref.C(ch("["), ref.Grp(ref.AE(r)), ch("]")))))
	// bounds
	for _, b := range [][2]int{{15, 17}, {31, 33}, {63, 65}, {64, 64}, {127, 129}, {128, 128}, {255, 257}, {256, 256}, {0, 255}, {0, 256}, {255, ref.Inf}, {256, ref.Inf}, {257, ref.Inf}, {300, 400}} {
		hi := b[1]
		if hi == ref.Inf {
			hi = b[0] + 50
		}
		for _, n := range []int{0, 1, b[0] - 1, b[0], b[0] + 1, hi - 1, hi, hi + 1} {
			if n < 0 {
				continue
			}
			w := zero
			if n >= b[0] && (b[1] == ref.Inf || n <= b[1]) {
				w = one
			}
			add(rep("a", n), w)
		}
		keepIn, keepW := in, want
		flush(rule("r", ref.Alt{{ref.R(b[0], b[1], a)}}))
		in, want = keepIn, keepW
		flush(rule("r", ref.Alt{{ref.R(b[0], b[1], ref.Grp(ref.AE(a, ch("b"))))}}))
		in, want = keepIn, keepW
		flush(rule("r", ref.Alt{{ref.R(b[0], b[1], ref.Ref("s"))}}), rule("s", ref.AE(a)))
	}
	// chains of rules, wide alternations, long concatenations, deep groups
	for _, n := range []int{16, 64, 127, 128, 255, 256, 257, 300} {
		var rs []ref.Rule
		for i := 0; i < n; i++ {
			rs = append(rs, rule("c"+itoa(i), ref.AE(ref.Ref("c"+itoa(i+1)))))
		}
		rs = append(rs, rule("c"+itoa(n), ref.AE(a)))
		add("a", one)
		add("b", zero)
		add("", zero)
		flush(rs...)
		same, diff, cat := ref.Alt{}, ref.Alt{}, ref.Concat{}
		for i := 0; i < n; i++ {
			same = append(same, ref.C(a))
			diff = append(diff, ref.C(ref.Ser(int64(0x400+i))))
			cat = append(cat, ref.One(ref.Ser(int64('a'+i%3))))
			if i%5 != 0 {
				add(string(rune(0x400+i)), one)
			}
		}
		add(string(rune(0x400+n)), zero)
		add(string(rune(0x3FF)), zero)
		flush(rule("r", diff))
		add("a", big.NewInt(int64(n)))
		add("aa", zero)
		flush(rule("r", same))
		word := rep("abc", n/3+1)[:n]
		add(word, one)
		add(word[:n-1], zero)
		add(word+"a", zero)
		add(word[:n-1]+"z", zero)
		flush(rule("r", ref.A(cat)))
		add(word, one)
		add(strings.ToUpper(word), one)
		add(word[:n-1], zero)
		add(word[:n-1]+"z", zero)
		add(word+"a", zero)
		flush(rule("r", ref.AE(ch(word))))
		add(word, one)
		add(strings.ToUpper(word), zero)
		add(strings.ToUpper(word[:1])+word[1:], zero)
		add(word[:n-1]+strings.ToUpper(word[n-1:]), zero)
		flush(rule("r", ref.AE(ref.Cs(word))))
		var vs []int64
		for i := 0; i < n; i++ {
			vs = append(vs, int64(word[i]))
		}
		add(word, one)
		add(word[:n-1], zero)
		add(word[:n-1]+"z", zero)
		add(strings.ToUpper(word), zero)
		flush(rule("r", ref.AE(ref.Ser(vs...))))
		grp, opt := a, a
		for i := 0; i < n; i++ {
			grp = ref.Grp(ref.AE(grp))
			opt = ref.Opt(ref.AE(opt))
		}
		add("a", one)
		add("", zero)
		add("b", zero)
		flush(rule("r", ref.AE(grp)))
		add("a", one)
		add("", big.NewInt(int64(n)))
		add("b", zero)
		flush(rule("r", ref.AE(opt)))
	}
	// recursion hidden behind a long chain of rules that can vanish
	for _, n := range []int{5, 9, 16, 17, 33, 65, 129} {
		var tail []ref.Rule
		for i := 0; i < n; i++ {
			al := ref.AE(ref.Ref("c" + itoa(i+1)))
			if i%3 == 1 {
				al = ref.AE(ref.Grp(ref.AE(ref.Ref("C" + itoa(i+1)))))
			}
			tail = append(tail, rule("c"+itoa(i), al))
		}
		tail = append(tail, rule("c"+itoa(n), ref.AE(ch("b"), ch(""))))
		for _, s := range []string{"a", "aa", "aaaaa", "baa", "bbaaa", "baaa", "abaa"} {
			w := one
			switch s {
			case "abaa":
				w = zero
			case "baaa": // either of two levels takes the b
				w = big.NewInt(2)
			}
			add(s, w)
		}
		add("ba", zero)
		add("b", zero)
		add("", zero)
		flush(append([]ref.Rule{rule("r", ref.A(ref.C(ref.Ref("c0"), r, a), ref.C(a)))}, tail...)...)
		add("xa", one)
		add("xaa", one)
		add("xb", zero)
		add("x", one)
		flush(append([]ref.Rule{rule("r", ref.A(ref.C(ref.Ref("t"), a), ref.C(ch("x")))), rule("t", ref.A(ref.C(ref.Ref("c0"), r)))}, tail...)...)
	}
	// something specific far into the input
	for _, n := range []int{63, 64, 127, 128, 254, 255, 256, 257, 300} {
		p := rep("x", n)
		add(p+"y", big.NewInt(2))
		add(p+"z", one)
		add(p+"w", zero)
		add(p, zero)
	}
	flush(rule("r", ref.Alt{{ref.R(0, ref.Inf, ch("x")), ref.One(ref.Ref("s"))}}), rule("s", ref.AE(ref.Ref("t"), ref.Ref("u"), ch("z"))), rule("t", ref.AE(ch("y"))), rule("u", ref.AE(ch("y"))))
	for _, n := range []int{63, 127, 128, 255, 256, 257} {
		p := rep("x", n)
		add(p+"aaa", big.NewInt(4))
		add(p+"aba", one)
		add(p+"abba", zero)
		add(p+"yy", one)
		add(p+"y\u20ac", one)
		add(p+"y\xe2\x82", zero)
	}
	flush(rule("r", ref.Alt{{ref.R(1, ref.Inf, ref.Rng('x', 'x')), ref.One(ref.Grp(ref.AE(ref.Ref("s"), ref.Ref("t"))))}}),
		rule("s", ref.Alt{{ref.R(0, ref.Inf, a), ref.R(0, ref.Inf, a)}, ref.C(a, ch("b"), a)}), rule("t", ref.A(ref.C(ch("y"), ref.Rng(0x79, 0x20AC)))))
	// multi-octet characters
	for _, c := range []string{"\u00e9", "\u20ac", "\U0001F600"} {
		v := int64([]rune(c)[0])
		for _, n := range []int{1, 21, 22, 64, 86, 128, 256, 300} {
			add(rep(c, n), one)
			add(rep(c, n)+c[:len(c)-1], zero)
			add(c[1:]+rep(c, n), zero)
			add(rep(c, n/2)+"e"+rep(c, n), zero)
		}
		kI, kW := in, want
		flush(rule("r", ref.Alt{{ref.R(0, ref.Inf, ref.Ser(v))}}))
		in, want = kI, kW
		flush(rule("r", ref.A(ref.C(r, ref.Rng(v, v+1)), ref.C(ch("")))))
	}
	// every octet in a long text of octets
	oct := make([]byte, 0, 384)
	for i := 0; i < 256; i++ {
		oct = append(oct, string(rune(i))...)
	}
	add(string(oct), one)
	add(string(oct)+"\u0100", zero)
	add(string(bytes.TrimSuffix(oct, []byte{0xBF})), zero)
	flush(rule("r", ref.Alt{{ref.R(256, 256, ref.Rng(0, 255))}}))
	return ok
}

func itoa(n int) string { return big.NewInt(int64(n)).String() }

// graphScaleCases: regular grammars whose graphs are long, wide, deep or dense,
// one dimension each, around the sizes an implementation could pack, cap or
// switch algorithm at. The inputs are the words of the extreme shapes and words
// one element off them.
func graphScaleCases(sizes []int, yield func(*Case) bool) bool {
	ok := true
	rep := strings.Repeat
	emit := func(in []string, rules ...ref.Rule) {
		if !ok {
			return
		}
		var b [][]byte
		for _, s := range in {
			b = append(b, []byte(s))
		}
		ok = yield(&Case{G: &ref.Grammar{Rules: rules}, Inputs: b, Fam: "graph scale"})
	}
	rule := func(n string, al ref.Alt) ref.Rule { return ref.Rule{Name: n, Alt: al} }
	digit := func(i int) *ref.Elem { return ref.Ser(int64('0' + i%10)) }
	for _, n := range sizes {
		word := rep("0123456789", n/10+1)[:n]
		words := []string{"", word, word[:n-1], word[1:], word + "0", word[:n/2] + "x" + word[n/2+1:], word[:1], word + word}
		// a long concatenation, series and literal, alone and in a loop
		var cat ref.Concat
		var vs []int64
		for i := 0; i < n; i++ {
			cat = append(cat, ref.One(digit(i)))
			vs = append(vs, int64('0'+i%10))
		}
		emit(words, rule("r", ref.A(cat)))
		emit(words, rule("r", ref.AE(ref.Ser(vs...))))
		emit(words, rule("r", ref.AE(ref.Ch(word))))
		emit(words, rule("r", ref.AE(ref.Cs(word))))
		emit(append(words, word+"1"), rule("r", ref.Alt{{ref.R(0, ref.Inf, ref.Ref("s")), ref.R(0, 1, ref.Ch("1"))}}), rule("s", ref.A(cat)))
		// a long concatenation of optional parts, and one optional tail
		var opts ref.Concat
		if n <= 20 {
			for i := 0; i < n; i++ {
				opts = append(opts, ref.One(ref.Opt(ref.AE(digit(i)))))
			}
			emit(append(words, word[n-1:], word[:1]+word[n-1:]), rule("r", ref.A(opts)))
		}
		emit(append(words, word+"z"), rule("r", ref.A(append(append(ref.Concat{}, cat...), ref.One(ref.Opt(ref.AE(ref.Ch("z"))))))))
		// a wide choice, alone, in a loop, before and after something
		var alt, alt2 ref.Alt
		var ones []string
		for i := 0; i < n; i++ {
			alt = append(alt, ref.C(ref.Ser(int64(0x100+i))))
			alt2 = append(alt2, ref.C(ref.Ser(int64(0x100+i)), digit(i)))
			ones = append(ones, string(rune(0x100+i)))
		}
		first, last := ones[0], ones[n-1]
		edge := []string{"", first, last, first + last, last + first, "a" + last, last + "a", "a", string(rune(0x100 + n)), string(rune(0xFF)), last + "0", last + string(word[n-1]), first + "0", last + first + "a"}
		emit(append(edge, ones...), rule("r", alt))
		emit(edge, rule("r", alt2))
		emit(edge, rule("r", ref.A(ref.C(ref.Grp(alt), ref.Ch("a")))))
		emit(edge, rule("r", ref.A(ref.C(ref.Ch("a"), ref.Grp(alt)))))
		emit(edge, rule("r", ref.AE(ref.Rng(0x100, 0x100+int64(n)-1))))
		if n <= 20 {
			emit(edge, rule("r", ref.Alt{{ref.R(0, ref.Inf, ref.Grp(alt))}}))
			emit(edge, rule("r", ref.A(ref.C(ref.Grp(alt), ref.Grp(alt)))))
		}
		// bounds
		as := []string{"", "a", rep("a", n-1), rep("a", n), rep("a", n+1), rep("a", 2*n), rep("a", n-1) + "b", "b" + rep("a", n-1), rep("b", n)}
		for _, b := range [][2]int{{n, n}, {0, n}, {n - 1, n}, {1, n}, {n, ref.Inf}} {
			emit(as, rule("r", ref.Alt{{ref.R(b[0], b[1], ref.Cs("a"))}}))
			if n <= 20 {
				emit(as, rule("r", ref.Alt{{ref.R(b[0], b[1], ref.Grp(ref.AE(ref.Cs("a"), ref.Cs("b"))))}}))
				emit(as, rule("r", ref.Alt{{ref.R(b[0], b[1], ref.Ref("s")), ref.R(0, 1, ref.Cs("b"))}}), rule("s", ref.AE(ref.Cs("a"))))
			}
		}
		// depth: groups, options, chains of rules
		g, o := ref.Cs("a"), ref.Cs("a")
		var rs []ref.Rule
		for i := 0; i < n; i++ {
			g, o = ref.Grp(ref.AE(g)), ref.Opt(ref.AE(o))
			rs = append(rs, rule("c"+itoa(i), ref.AE(ref.Ref("c"+itoa(i+1)))))
		}
		rs = append(rs, rule("c"+itoa(n), ref.AE(ref.Cs("a"), ref.Cs("b"))))
		few := []string{"", "a", "b", "aa", "ab", "A"}
		emit(few, rule("r", ref.AE(g)))
		emit(few, rule("r", ref.AE(o)))
		emit(few, rs...)
		// one rule used in many places
		var uses ref.Concat
		for i := 0; i < n; i++ {
			uses = append(uses, ref.One(ref.Ref([]string{"s", "S"}[i%2])))
		}
		emit(as, rule("r", ref.A(uses)), rule("s", ref.AE(ref.Cs("a"), ref.Cs("b"))))
	}
	return ok
}
