package zzverif

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
)

// gen writes stylesheets that the parser mostly accepts.
type gen struct {
	h        *H
	b        strings.Builder
	plain    bool // no comments and unusual white space
	depth    int
	noMath   bool
	vars     bool
	customs  bool
	noImport bool
}

func (g *gen) w(s ...string) {
	for _, x := range s {
		g.b.WriteString(x)
	}
}

func (g *gen) n(k int) int { return g.h.rng.Intn(k) }

// few is a small number, and now and then a larger one.
func (g *gen) few(k int) int {
	if g.depth < 3 && g.n(25) == 0 {
		return g.n(12)
	}
	return g.n(k)
}

func (g *gen) space() string {
	if g.plain {
		return " "
	}
	switch g.n(12) {
	case 0:
		return "\n"
	case 1:
		return "\t"
	case 2:
		return "\r\n"
	case 3:
		return " \n  "
	case 4:
		return "\f"
	}
	return " "
}

func (g *gen) comment() string {
	return g.h.one("/**/", "/* x */", "/* } */", "/*\n*/", "/***/", "/* ; */", "/*é*/")
}

// ows is optional white space.
func (g *gen) ows() {
	if g.plain {
		return
	}
	switch g.n(6) {
	case 0:
		g.w(g.space())
	case 1:
		if g.n(3) == 0 {
			g.w(g.comment())
		}
	case 2:
		if g.n(4) == 0 {
			g.w(g.space(), g.comment(), g.space())
		}
	}
}

// ws is needed white space.
func (g *gen) ws() {
	g.w(g.space())
	if !g.plain && g.n(8) == 0 {
		g.w(g.comment(), g.space())
	}
}

func (g *gen) ident() string {
	switch g.n(24) {
	case 0:
		return "é" + g.h.one("a", "1", "-")
	case 1:
		return `\61 b`
	case 2:
		return `a\;b`
	case 3:
		return "--" + g.h.one("x", "y", "")
	case 4:
		return "-" + g.h.one("a", "_b", `\{`)
	case 5:
		return "_u"
	case 6:
		return "日本"
	case 7:
		return `x\000041y`
	}
	return g.h.one("a", "b", "cd", "e-f", "G", "h1", "div", "span", "li", "n", "even", "from", "to", "url", "i", "s", "important", "e3", "E", "not", "and", "or")
}

func (g *gen) name() string { return g.h.one("foo", "bar", "baz", "x1", "some-class", "B", "_z", "ü") }

func (g *gen) str() string {
	m := g.h.one(`"`, `'`)
	o := `'`
	if m == `'` {
		o = `"`
	}
	return m + g.h.one("", "a", "a b", "é", "{", "}", ";", "/*", o, "\\"+m, "\\\n", `\41 `, "a.css", "\\"+o, `\\`, "\t") + m
}

func (g *gen) num() string {
	return g.h.one("0", "1", "2", "10", "1.5", ".5", "+3", "-4", "-.25", "1e3", "2E-2", "1e+2", "007", "100", "33.333")
}

func (g *gen) unit() string {
	return g.h.one("px", "em", "rem", "s", "deg", "e", "é", "n", `\70x`, "fr", "Q", "-x", "x-y")
}

func (g *gen) dimension() string {
	n, u := g.num(), g.unit()
	if u[0] == 'e' && strings.ContainsAny(n, "") {
		u = "em"
	}
	return n + u
}

func (g *gen) hash() string {
	return "#" + g.h.one("fff", "0", "a1b2c3", "-x", "é", `\31 `, "123456")
}

func (g *gen) value() {
	g.depth++
	defer func() { g.depth-- }()
	k := g.n(15)
	if g.depth > 4 && k > 7 {
		k = g.n(7)
	}
	switch k {
	case 0, 1:
		g.w(g.dimension())
	case 2:
		g.w(g.num(), "%")
	case 3:
		g.w(g.num())
	case 4:
		g.w(g.ident())
	case 5:
		g.w(g.hash())
	case 6:
		g.w(g.str())
	case 7:
		g.w(g.h.one("url(", "URL(", "Url("))
		if g.n(2) == 0 {
			g.w(g.h.one("", "", " ", "\n"), g.h.one("a.png", "http://x/y?z", "", `a\)b`, "é", "//a/*b*/", "a;b{}"), g.h.one("", "", " ", "\t "), ")")
		} else {
			g.w(g.h.one("", " "), g.str(), g.h.one("", " "), ")")
		}
	case 8, 9:
		g.w(g.h.one("rgb", "foo", "translate", "attr", "-x", "é", "linear-gradient"), "(")
		g.args()
		g.w(")")
	case 10:
		g.w("[")
		for i := g.few(3); i >= 0; i-- {
			g.ows()
			if g.depth < 4 && g.n(8) == 0 {
				g.value()
			} else {
				g.w(g.h.one("a", "b", "full-start", "1", "'s'", "#f", "2px"))
			}
			g.w(" ")
		}
		g.w("]")
	case 11, 12:
		if g.noMath {
			g.w("auto")
			return
		}
		g.w(g.h.one("calc", "calc", "min", "max", "clamp"), "(")
		g.ows()
		g.sum()
		for g.n(3) == 0 {
			g.w(",")
			g.ows()
			g.sum()
		}
		g.ows()
		g.w(")")
	case 13:
		if g.vars {
			g.w("var(--", g.h.one("x", "y", "z"))
			if g.n(2) == 0 {
				g.w(",")
				g.ows()
				g.value()
			}
			g.w(")")
			return
		}
		g.w(g.dimension())
	case 14:
		g.w(g.dimension(), g.h.one("/", " / ", "="), g.num())
	}
}

func (g *gen) args() {
	g.ows()
	n := g.few(4)
	for i := 0; i < n; i++ {
		if i > 0 {
			if g.n(3) > 0 {
				g.ows()
				g.w(",")
				g.ows()
			} else {
				g.ws()
			}
		}
		if g.n(3) > 0 {
			g.w(g.h.one("1", "2px", "a", "50%", "#fff", "0.5"))
		} else {
			g.depth++
			k := g.n(3)
			if g.depth > 4 {
				k = 1
			}
			switch k {
			case 0:
				g.w("foo(")
				g.args()
				g.w(")")
			case 1:
				g.w(g.str())
			case 2:
				g.w("[a b]")
			}
			g.depth--
		}
	}
	g.ows()
}

func (g *gen) sum() {
	g.product()
	for g.n(2) == 0 {
		g.w(" ", g.h.one("+", "-"), " ")
		g.product()
	}
}

func (g *gen) product() {
	g.operand()
	for g.n(3) == 0 {
		g.ows()
		g.w(g.h.one("*", "/"))
		g.ows()
		g.operand()
	}
}

func (g *gen) operand() {
	g.depth++
	defer func() { g.depth-- }()
	if g.depth < 4 {
		switch g.n(8) {
		case 0:
			g.w("(")
			g.ows()
			g.sum()
			g.ows()
			g.w(")")
			return
		case 1:
			g.w("calc(")
			g.sum()
			g.w(")")
			return
		case 2:
			g.w("var(--x)")
			return
		}
	}
	g.w(g.h.one("1px", "2", "3em", "50%", "0", "0.5", "-1px", "10px", "e", "1e2px", "0.0", "-0", "0px", "00", ".0em", "1e3", "3", "2px"))
}

func (g *gen) declaration() {
	switch g.n(30) {
	case 0: // something that only raw text can hold
		g.w(g.h.one("filter: progid:DXImage.T(a='x', b=2)", "a:b:c", "x: {a:b; c:d}", "color : red ! important ! important", "a:", "width: expression(1 + (2))", "--x: { a }", "{a:b}", "x:(a)", "b: [a,b]", "1:2", "a b:c", "x: a , , b", "--e:", "y: <!-- z"))
		return
	case 1:
		g.w("*")
	}
	g.w(g.h.one("color", "width", "margin", "background", "-moz-x", "grid-area", "--x", "--y", "--z", "é", "font"))
	g.ows()
	g.w(":")
	g.ows()
	n := 1 + g.few(3)
	for i := 0; i < n; i++ {
		if i > 0 {
			if g.n(3) == 0 {
				g.ows()
				g.w(",")
				g.ows()
			} else {
				g.ws()
			}
		}
		g.value()
	}
	if g.n(8) == 0 {
		g.ows()
		g.w("!")
		g.ows()
		g.w(g.h.one("important", "IMPORTANT", "Important"))
	}
	g.ows()
}

func (g *gen) declarations() {
	g.w("{")
	g.ows()
	n := g.few(4)
	if g.n(6) == 0 {
		n = 0
	}
	for i := 0; i < n; i++ {
		g.declaration()
		if i+1 < n || g.n(2) == 0 {
			g.w(";")
			g.ows()
			if g.n(12) == 0 && i+1 == n {
				g.w(";")
			}
		}
	}
	g.w("}")
}

func (g *gen) simple(first bool) {
	k := g.n(14)
	if first && g.n(2) == 0 {
		g.w(g.h.one("a", "div", "*", "li", "é", `\61 b`, "h1"))
		return
	}
	switch k {
	case 0, 1, 2, 3:
		g.w(".", g.name())
	case 4, 5:
		g.w("#", g.name())
	case 6:
		g.w("[")
		g.ows()
		g.w(g.h.one("href", "data-x", "é"))
		g.ows()
		if g.n(3) > 0 {
			g.w(g.h.one("=", "~=", "|=", "^=", "$=", "*="))
			g.ows()
			g.w(g.h.one("a", `"b"`, `'c d'`, `"]"`))
			if g.n(3) == 0 {
				g.w(" ", g.h.one("i", "s"))
			}
			g.ows()
		}
		g.w("]")
	case 7, 8:
		g.w(":", g.h.one("hover", "root", "first-child", "any-link", "link", "visited", "active"))
	case 9:
		g.w("::", g.h.one("before", "after", "-webkit-x"))
	case 10:
		g.w(":", g.h.one("nth-child", "nth-last-child", "nth-of-type", "nth-last-of-type"), "(")
		g.w(g.h.one("even", "odd", "2n+1", "2n", "n", "-n+3", "3", "-2n-1", "n+0", "0n+3", "+3n-2", "2n + 1", "-n - 4", "n", "+5", "1n", "10n-1", "3n+ 2", "-1n+2", "0n", "2n -3", "-5"))
		g.w(")")
	case 11:
		g.depth++
		g.w(g.h.one(":not(", ":is(", ":matches(", "::slotted("))
		if g.depth > 3 {
			g.w(".x")
		} else {
			g.selectorList()
		}
		g.w(")")
		g.depth--
	default:
		g.w(".", g.name())
	}
}

func (g *gen) compound() {
	n := 1 + g.few(3)
	for i := 0; i < n; i++ {
		g.simple(i == 0)
	}
}

func (g *gen) selector() {
	g.compound()
	for g.n(3) == 0 {
		switch g.n(4) {
		case 0, 1:
			g.ws()
		default:
			g.w(g.h.one("", " "), g.h.one(">", "+", "~"), g.h.one("", " ", "\n"))
		}
		g.compound()
	}
}

func (g *gen) selectorList() {
	g.selector()
	for g.n(3) == 0 {
		g.w(g.h.one("", "", " "), ",", g.h.one("", " ", "\n"))
		g.selector()
	}
}

func (g *gen) rule() {
	g.selectorList()
	g.w(g.h.one("", " ", "\n"))
	g.declarations()
}

func (g *gen) feature() {
	g.w("(")
	g.ows()
	switch g.n(6) {
	case 0:
		g.w(g.h.one("color", "hover", "--m", "--n"))
	case 1, 2:
		g.w(g.h.one("min-width", "max-height", "orientation"))
		g.ows()
		g.w(":")
		g.ows()
		g.w(g.h.one("100px", "2", "landscape", "30em", "1.5"))
	default:
		op := g.h.one("<", "<=", ">", ">=")
		v := g.h.one("100px", "30em", "2", "600px", "1.5em")
		switch g.n(3) {
		case 0:
			g.w("width")
			g.ows()
			g.w(op)
			g.ows()
			g.w(v)
		case 1:
			g.w(v)
			g.ows()
			g.w(op)
			g.ows()
			g.w("height")
		default:
			g.w(v)
			g.ows()
			g.w(op)
			g.ows()
			g.w("width")
			g.ows()
			g.w(op)
			g.ows()
			g.w(g.h.one("900px", "10em"))
		}
	}
	g.ows()
	g.w(")")
}

func (g *gen) query() {
	if g.n(2) == 0 {
		if g.n(3) == 0 {
			g.w(g.h.one("not", "only"))
			g.ws()
		}
		g.w(g.h.one("screen", "print", "all"))
		if g.n(2) == 0 {
			return
		}
		g.ws()
		g.w("and")
		g.ws()
	}
	g.feature()
	for g.n(3) == 0 {
		g.ws()
		g.w(g.h.one("and", "and", "or"))
		g.ws()
		g.feature()
	}
}

func (g *gen) queries() {
	g.query()
	for g.n(3) == 0 {
		g.ows()
		g.w(",")
		g.ows()
		g.query()
	}
}

func (g *gen) top() {
	switch g.n(14) {
	case 0:
		if g.noImport {
			g.rule()
			return
		}
		g.w("@import")
		g.ws()
		g.w(g.h.one(`"x.css"`, `url(y.css)`, `url("z.css")`, `'w.css'`, "url( v.css )"))
		if g.n(3) == 0 {
			g.ws()
			g.queries()
		}
		g.ows()
		g.w(";")
	case 1, 2:
		g.w("@media")
		g.ws()
		if g.n(8) > 0 {
			g.queries()
		}
		g.ows()
		g.w("{")
		g.ows()
		for i := g.few(3); i > 0; i-- {
			g.rule()
			g.ows()
		}
		g.w("}")
	case 3:
		g.w(g.h.one("@keyframes", "@-webkit-keyframes", "@-o-keyframes"))
		g.ws()
		g.w(g.h.one("foo", `"bar"`, "é"))
		g.ows()
		g.w("{")
		g.ows()
		for i := g.few(4); i > 0; i-- {
			g.w(g.h.one("from", "to", "50%", "0%", "12.5%"))
			for g.n(4) == 0 {
				g.ows()
				g.w(",")
				g.ows()
				g.w(g.h.one("to", "75%", "10%"))
			}
			g.ows()
			g.declarations()
			g.ows()
		}
		g.w("}")
	case 4:
		g.w(g.h.one("@font-face", "@page", "@viewport", "@-ms-viewport"))
		g.ows()
		g.declarations()
	case 5:
		if g.customs {
			g.w("@custom-media")
			g.ws()
			g.w(g.h.one("--m", "--n"))
			g.ws()
			g.query()
			g.ows()
			g.w(";")
			return
		}
		g.rule()
	case 6:
		if !g.plain {
			g.w(g.h.one("<!--", "-->", ";", g.comment()))
			return
		}
		g.rule()
	default:
		g.rule()
	}
}

func (g *gen) sheet() string {
	g.b.Reset()
	g.depth = 0
	g.ows()
	for i := g.n(5); i >= 0; i-- {
		g.top()
		g.ows()
	}
	return g.b.String()
}

var pieces = []string{
	"a", "b", "{", "}", "{", "}", "(", ")", "[", "]", ":", ";", ",", ".", "#", "@", "+", "-", "*", "/", ">", "<", "=", "~", "|", "^", "$", "!", "\\", "\"", "'", " ", "\n", "\t", "\r", "\f", "\x00", "\x7f", "é", "\xff", "\u2028", "😀",
	"/*", "*/", "<!--", "-->", "@media", "@import", "@keyframes", "@custom-media", "@font-face", "@x", "url(", "calc(", "var(--x)", ":root{", "--x:", ":any-link", ":not(", ":nth-child(", "2n+1", "::", "!important", "1px", "50%", ".5", "1e3", "#fff", "\"x\"", "'y'", "and", "not", "screen", "(width<1px)", "(--m)", "--m", "a{}", "a{b:c}", "\\41 ", "\\\n", "color:red", "min(", "-", "--", "u+0", "0", "1", "from", "to",
}

func (g *gen) soup() string {
	var b strings.Builder
	for i := g.n(25); i >= 0; i-- {
		b.WriteString(pieces[g.n(len(pieces))])
	}
	return b.String()
}

// mutate makes a few random edits.
func (g *gen) mutate(s string) string {
	for i := 1 + g.n(3); i > 0; i-- {
		if len(s) == 0 {
			return s
		}
		p := g.n(len(s) + 1)
		switch g.n(7) {
		case 5, 6:
			// Something that ends or begins a part is most telling between two parts.
			var at []int
			for i := 0; i < len(s); i++ {
				if strings.IndexByte("{};,():[]", s[i]) >= 0 {
					at = append(at, i+1)
				}
			}
			if len(at) > 0 {
				p = at[g.n(len(at))]
				s = s[:p] + pieces[g.n(len(pieces))] + s[p:]
			}
		case 0:
			s = s[:p] + pieces[g.n(len(pieces))] + s[p:]
		case 1:
			q := p + g.n(4)
			if q > len(s) {
				q = len(s)
			}
			s = s[:p] + s[q:]
		case 2:
			s = s[:p]
		case 3:
			q := p + g.n(20)
			if q > len(s) {
				q = len(s)
			}
			s = s[:q] + s[p:q] + s[q:]
		case 4:
			if p < len(s) {
				s = s[:p] + pieces[g.n(len(pieces))] + s[p+1:]
			}
		}
	}
	return s
}

// corpus is the stylesheets of the repository.
func corpus() []string {
	var out []string
	fs, _ := filepath.Glob(filepath.Join(repoDir(), "internal", "testdata", "*.css"))
	for _, f := range fs {
		b, _ := os.ReadFile(f)
		out = append(out, string(b))
	}
	return out
}

func repoDir() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}

var _ = fmt.Sprint
