package main

import (
	"embed"
	"strings"

	"verif/harness/ref"
)

//go:embed data/*.abnf
var dataFS embed.FS

// realGrammar is a grammar as found in the wild, with words of its language.
type realGrammar struct {
	name, text string
	words      []string
	alpha      string // what single edits insert
}

func crlf(s string) string {
	s = strings.ReplaceAll(s, "\r\n", "\n")
	return strings.ReplaceAll(strings.TrimLeft(s, "\n"), "\n", "\r\n")
}

func dataText(name string) string {
	b, err := dataFS.ReadFile("data/" + name + ".abnf")
	if err != nil {
		panic(err)
	}
	return crlf(string(b))
}

var realGrammars = []realGrammar{
	{"aftn", dataText("aftn"), []string{"0ABC1234 1\r\nAA ABCDEFGH\r\n123456 ABCDEFGH\r\n0"}, "A1 \r"},
	{"http-auth", dataText("issue189"), []string{"Basic YWI6Yw==", "Digest a=b , c=\"d\\\"e\"", "x", "a b"}, "a=\" ,"},
	{"json", dataText("json"), []string{`{"a":[1,-2.5e+3,"x\n"]}`, " [ ] ", `"\u00e9é"`, "[[null,true],false]"}, "\"1,]\xc3"},
	{"toml", dataText("toml"), []string{"a = 1\n", "[t.x]\nb=\"q\" # c", "d = 1979-05-27T07:32:00Z", "x = [1, 2]"}, "=\n\"1"},
	{"abnf", dataText("fixed-abnf"), []string{"a = \"b\" / 1*2c\r\n", "r=[%x41-5A] ;c\r\n", "a=<p>\r\nb =/ ( %d1.2 )\r\n"}, "a\"/ =\r\n"},
	{"expr", crlf(`
expr = expr "+" term / expr "-" term / term
term = term "*" factor / term "/" factor / factor
factor = "(" expr ")" / 1*DIGIT / "-" factor
`), []string{"1+2*3-4", "((1))", "-(1/2)+-3", "12*(3+45)-6"}, "1+()"},
	{"ambexpr", crlf(`
e = e op e / "(" e ")" / %x61-63
op = "+" / "*" / "+" "+"
`), []string{"a+b*c+a", "a++b+++c", "(a+b)*(c)", "a+b+c+a+b"}, "a+("},
	{"dangling", crlf(`
stmt = "i" stmt / "i" stmt "e" stmt / "x" / block
block = "{" *stmt "}"
`), []string{"iiixexex", "i{xx}e{ix}", "iixex", "{{}x{}}"}, "ixe{}"},
	{"date", crlf(`
date-time = full-date "T" full-time
full-date = 4DIGIT "-" 2DIGIT "-" 2DIGIT
full-time = partial-time time-offset
partial-time = 2DIGIT ":" 2DIGIT ":" 2DIGIT [time-secfrac]
time-secfrac = "." 1*DIGIT
time-offset = "Z" / time-numoffset
time-numoffset = ("+" / "-") 2DIGIT ":" 2DIGIT
`), []string{"1985-04-12t23:20:50.52z", "1990-12-31T23:59:60Z", "1937-01-01T12:00:27.87+00:20"}, "0:-Z"},
	{"uri", crlf(`
URI = scheme ":" hier-part [ "?" query ] [ "#" fragment ]
hier-part = "//" authority path-abempty / path-absolute / path-rootless / path-empty
scheme = ALPHA *( ALPHA / DIGIT / "+" / "-" / "." )
authority = [ userinfo "@" ] host [ ":" port ]
userinfo = *( unreserved / pct-encoded / sub-delims / ":" )
host = IPv4address / reg-name
port = *DIGIT
IPv4address = dec-octet "." dec-octet "." dec-octet "." dec-octet
dec-octet = DIGIT / %x31-39 DIGIT / "1" 2DIGIT / "2" %x30-34 DIGIT / "25" %x30-35
reg-name = *( unreserved / pct-encoded / sub-delims )
path-abempty = *( "/" segment )
path-absolute = "/" [ segment-nz *( "/" segment ) ]
path-rootless = segment-nz *( "/" segment )
path-empty = 0pchar
segment = *pchar
segment-nz = 1*pchar
pchar = unreserved / pct-encoded / sub-delims / ":" / "@"
query = *( pchar / "/" / "?" )
fragment = *( pchar / "/" / "?" )
pct-encoded = "%" HEXDIG HEXDIG
unreserved = ALPHA / DIGIT / "-" / "." / "_" / "~"
sub-delims = "!" / "$" / "&" / "'" / "(" / ")" / "*" / "+" / "," / ";" / "="
`), []string{"http://u:p@a.b:80/c/d?q#f", "ftp://192.168.255.1/x%2F", "mailto:a@b", "x:", "h://25.256.1.12"}, "a:/@%2"},
	{"mail", crlf(`
addr = local "@" domain
local = dot-atom / quoted
dot-atom = 1*atext *("." 1*atext)
atext = ALPHA / DIGIT / "!" / "#"
quoted = [CFWS] DQUOTE *([FWS] qc) [FWS] DQUOTE [CFWS]
qc = %d33 / %d35-91 / %d93-126 / "\" (VCHAR / WSP)
FWS = [*WSP CRLF] 1*WSP
CFWS = 1*([FWS] comment) [FWS] / FWS
comment = "(" *([FWS] ccont) [FWS] ")"
ccont = %d33-39 / %d42-91 / comment
domain = dot-atom / "[" *([FWS] %d33-90) [FWS] "]"
`), []string{"a.b#@c.d", "(x (y) )\"q \\\"\"@[1 2]", " \r\n \"a\"@b"}, "(\" .@"},
	{"palin", crlf(`
p = "a" p "a" / "b" p "b" / "a" / "b" / ""
`), []string{"abbabba", "abab", "aabbaa", "bbbbbbbbb"}, "ab"},
	{"csv", crlf(`
file = [header CRLF] record *(CRLF record) [CRLF]
header = field *("," field)
record = field *("," field)
field = escaped / *textdata
escaped = DQUOTE *(textdata / "," / CR / LF / 2DQUOTE) DQUOTE
textdata = %x20-21 / %x23-2B / %x2D-7E
`), []string{"a,\"b\"\"c\"\r\n1,\r\n", "x", "a\r\n\r\nb", "\"\r\n\",,"}, "\",\r\n"},
	{"sexpr", crlf(`
s = ws (atom / list) ws
list = "(" *s ")"
atom = 1*(%x61-7A / %x80-7FF)
ws = *WSP
`), []string{"(a (b c) ())", "( é(ü) )", "abc"}, "a( )\xc3"},
	{"mutual", crlf(`
a = b "x" / "y"
b = c / a "z"
c = a [c] / "w"
`), []string{"yx", "wx", "yyxx", "yzxzx", "ywxx"}, "xyzw"},
	{"core", crlf(`
msg = 1*line [LWSP]
line = (ALPHA / VCHAR) *(WSP / hexdig / OCTET) CRLF
`), []string{"A 1f\r\n", "x\r\ny \r\n \r\n ", "~\u00ff\r\n"}, "a\r\n \xff"},
}

func (r *realGrammar) gram() *ref.Grammar {
	v, _ := ref.Eval(r.text, true, true)
	if v.Kind != "ok" {
		panic("grammar " + r.name + ": " + v.Kind)
	}
	return v.Gram
}

// edits lists w, all its prefixes, and every single-octet deletion,
// duplication, transposition, and insertion or substitution from alpha.
func edits(w, alpha string) [][]byte {
	seen := map[string]bool{}
	var out [][]byte
	add := func(s string) {
		if len(s) <= 62 && !seen[s] {
			seen[s] = true
			out = append(out, []byte(s))
		}
	}
	add(w)
	for i := 0; i <= len(w); i++ {
		add(w[:i])
		for k := 0; k < len(alpha); k++ {
			add(w[:i] + alpha[k:k+1] + w[i:])
		}
		if i == len(w) {
			break
		}
		add(w[:i] + w[i+1:])
		add(w[:i] + w[i:i+1] + w[i:])
		for k := 0; k < len(alpha); k++ {
			add(w[:i] + alpha[k:k+1] + w[i+1:])
		}
		if i+1 < len(w) {
			add(w[:i] + w[i+1:i+2] + w[i:i+1] + w[i+2:])
		}
	}
	return out
}

// realCases: one case per word of every grammar, on its whole single-edit
// neighbourhood.
func realCases(keep func(*ref.Grammar) bool, yield func(*Case) bool) bool {
	for i := range realGrammars {
		r := &realGrammars[i]
		g := r.gram()
		if keep != nil && !keep(g) {
			continue
		}
		for _, w := range r.words {
			all := edits(w, r.alpha)
			for k := 0; k < len(all); k += 12 {
				if !yield(&Case{G: g, Inputs: all[k:min(k+12, len(all))], Fam: "real:" + r.name}) {
					return false
				}
			}
		}
	}
	return true
}

// realWalk: one case per acyclic grammar small enough to expand, on its words
// and their single-edit neighbourhood (every stride-th).
func realWalk(stride int, cyclic bool, yield func(*Case) bool) bool {
	for i := range realGrammars {
		r := &realGrammars[i]
		g := r.gram()
		if g.Cyclic(g.Root()) && !cyclic || !cyclic && stride > 1 && r.name != "aftn" && r.name != "date" && (stride > 3 || r.name != "http-auth") {
			continue
		}
		var in [][]byte
		for _, w := range r.words {
			for k, e := range edits(w, r.alpha) {
				if k%stride == 0 {
					in = append(in, e)
				}
			}
		}
		if !yield(&Case{G: g, Inputs: in, Fam: "real:" + r.name}) {
			return false
		}
	}
	return true
}
