package zzverif

import (
	"fmt"
	"math"
	"math/big"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"github.com/stephen/cssc/internal/ast"
	"github.com/stephen/cssc/internal/printer"
	"github.com/stephen/cssc/internal/sources"
	"github.com/stephen/cssc/internal/transformer"
	"github.com/stephen/cssc/transforms"
)

// expect compiles text and compares the output's tokens with those of want, with tolerance for numbers.
func (h *H) expect(what, text, want string, opts transforms.Options) *compiled {
	c := h.compile(text, opts)
	if !c.ok {
		h.fail(what+": no output", text, "%v", c.texts())
		return nil
	}
	if d := differ(want, c.out); d != "" {
		h.fail(what, optString(opts)+"\n"+text, "%s\nwant: %s\noutput: %s\n%v", d, want, c.out, c.texts())
		return nil
	}
	return c
}

// differ compares what two texts say.
func differ(want, got string) string {
	w, bad := canonical(want)
	if bad != "" {
		panic("bad expectation: " + bad + "\n" + want)
	}
	o, bad := canonical(got)
	if bad != "" {
		return "the output is not a stylesheet: " + bad
	}
	if len(w.items) == len(o.items) {
		for i := range w.items {
			if w.items[i] != o.items[i] && near(w.items[i], o.items[i]) {
				o.items[i] = w.items[i]
			}
		}
	}
	return w.diff(o)
}

var numeric = regexp.MustCompile(`^([+-]?[0-9]*\.?[0-9]+(?:[eE][+-]?[0-9]+)?)(\|.*|%)?$`)

// near tells whether two numbers with the same unit are equal but for rounding.
func near(a, b string) bool {
	m, n := numeric.FindStringSubmatch(a), numeric.FindStringSubmatch(b)
	if m == nil || n == nil || m[2] != n[2] {
		return false
	}
	x, _ := strconv.ParseFloat(m[1], 64)
	y, _ := strconv.ParseFloat(n[1], 64)
	return x == y || math.Abs(x-y) <= 1e-9*math.Max(math.Abs(x), math.Abs(y))
}

// ---- any-link

type sel struct{ alts []string } // the selectors that replace one

// link writes a random selector and what it becomes. order tells which combinations come first.
type linkGen struct {
	h     *H
	first [2]string
	last  bool // the last occurrence varies slowest
	k     int
}

func (g *linkGen) cross(a, b []string) []string {
	var out []string
	if g.last {
		for _, y := range b {
			for _, x := range a {
				out = append(out, x+y)
			}
		}
		return out
	}
	for _, x := range a {
		for _, y := range b {
			out = append(out, x+y)
		}
	}
	return out
}

// part is a template: a text, or "\x01" for any-link, or a list of templates as arguments.
type part struct {
	text string
	any  bool
	args [][]part
}

func (h *H) linkParts(depth int, links *int) []part {
	var out []part
	n := 1 + h.rng.Intn(4)
	for i := 0; i < n; i++ {
		if i > 0 && h.pick(3) {
			out = append(out, part{text: h.one(" ", ">", "+", "~", " > ")})
			if h.pick(2) {
				out = append(out, part{text: h.one("a", "li", "*")})
			}
		} else if i == 0 && h.pick(2) {
			out = append(out, part{text: h.one("a", "b", "*")})
		}
		switch k := h.rng.Intn(9); {
		case k < 4 && *links > 0:
			*links--
			out = append(out, part{any: true})
		case k == 4 && depth < 2:
			p := part{text: h.one(":not", ":is", "::slotted", ":matches")}
			for j := h.rng.Intn(2); j >= 0; j-- {
				p.args = append(p.args, h.linkParts(depth+1, links))
			}
			out = append(out, p)
		default:
			out = append(out, part{text: h.one(".x", "#y", ":hover", "::before", "[h]", `[h="any-link"]`, ".any-link", ":visited", ":link", ":nth-child(2n+1)", "#any-link", "::any-link-x", `[h=":any-link"]`)})
		}
	}
	return out
}

func source(ps []part) string {
	s := ""
	for _, p := range ps {
		switch {
		case p.any:
			s += ":any-link"
		case p.args != nil:
			var a []string
			for _, x := range p.args {
				a = append(a, source(x))
			}
			s += p.text + "(" + strings.Join(a, ",") + ")"
		default:
			s += p.text
		}
	}
	return s
}

func (g *linkGen) expand(ps []part) []string {
	out := []string{""}
	for _, p := range ps {
		switch {
		case p.any:
			g.k++
			out = g.cross(out, g.first[:])
		case p.args != nil:
			var a []string
			for _, x := range p.args {
				a = append(a, g.expand(x)...)
			}
			out = g.cross(out, []string{p.text + "(" + strings.Join(a, ",") + ")"})
		default:
			out = g.cross(out, []string{p.text})
		}
	}
	return out
}

func init() {
	checks["C08"] = func(h *H) {
		h.Rule = "the stylesheet has at least one :any-link, in rules at the top, in @media or in arguments"
		for h.more() {
			type rule struct {
				sels [][]part
				wrap string
				body string
			}
			var rules []rule
			total := 0
			for i := h.rng.Intn(4); i >= 0; i-- {
				r := rule{wrap: h.one("", "", "@media screen", "@media (width>1px),print"), body: h.one("a:b", "c:d;e:f", "x:y!important")}
				for j := h.rng.Intn(3); j >= 0; j-- {
					links := h.rng.Intn(4)
					l0 := links
					r.sels = append(r.sels, h.linkParts(0, &links))
					total += l0 - links
				}
				rules = append(rules, r)
			}
			write := func(f func(ps []part) string) string {
				s := ""
				for _, r := range rules {
					var l []string
					for _, ps := range r.sels {
						l = append(l, f(ps))
					}
					t := strings.Join(l, ",") + "{" + r.body + "}"
					if r.wrap != "" {
						t = r.wrap + "{" + t + "}"
					}
					s += t
				}
				return s
			}
			text := write(source)
			h.begin(text)
			h.expect("changed although off", text, text, transforms.Options{})
			c := h.compile(text, transforms.Options{AnyLink: transforms.AnyLinkTransform})
			if !c.ok || len(c.errs) > 0 {
				h.fail("no output or a report", text, "%v", c.texts())
				continue
			}
			ok := false
			var d, shown string
			for i := 0; i < 4 && !ok; i++ {
				g := &linkGen{h: h, first: [2]string{":visited", ":link"}, last: i&1 == 1}
				if i&2 == 2 {
					g.first = [2]string{":link", ":visited"}
				}
				want := write(func(ps []part) string { return strings.Join(g.expand(ps), ",") })
				e := differ(want, c.out)
				ok = e == ""
				if i == 0 {
					d, shown = e, want
				}
			}
			if !ok {
				h.fail("the selectors are not the combinations", text, "%s\nwant: %s\noutput: %s", d, shown, c.out)
			}
			if total > 0 {
				h.nontrivial(text)
			}
		}
	}

	checks["C09"] = func(h *H) {
		h.Rule = "the stylesheet has at least one range in a media query"
		os.WriteFile(filepath.Join(h.dir, "e.css"), nil, 0o644)
		num := func(s string, d int64) string {
			r, ok := new(big.Rat).SetString(s)
			if !ok {
				panic(s)
			}
			r.Add(r, big.NewRat(d, 1000))
			return r.FloatString(20)
		}
		for h.more() {
			ranges, bad := 0, 0
			value := func(d int64) (string, string) {
				if h.pick(12) {
					v := h.one("foo", "calc(1px + 2px)", "#fff", `"x"`)
					if v == "foo" {
						v = "f(x)"
					}
					if d != 0 {
						bad++
					}
					return v, v
				}
				n := h.one("0", "1", "600", "100.5", ".5", "-3", "1e3", "0.001", "1200", "33.333", "+7", "16", "0.0015")
				u := h.one("px", "em", "", "", "rem", "dpi", "%")
				if d == 0 {
					return n + u, n + u
				}
				return n + u, num(n, d) + u
			}
			feature := func() (string, string) {
				p := h.one("width", "height", "-x-y", "color", "aspect", "W", "min", "é")
				op := h.one("<", "<=", ">", ">=")
				sp := func() string { return h.one("", " ", "") }
				ranges++
				left, right := "", ""
				lw, rw := "", ""
				kind := h.rng.Intn(3)
				dl, dr := int64(0), int64(0)
				switch op {
				case "<":
					dl, dr = 1, -1
				case ">":
					dl, dr = -1, 1
				}
				lname, rname := "min-", "max-"
				if op[0] == '>' {
					lname, rname = "max-", "min-"
				}
				var want []string
				if kind != 0 {
					left, lw = value(dl)
					want = append(want, "("+lname+p+":"+lw+")")
				}
				if kind != 1 {
					right, rw = value(dr)
					want = append(want, "("+rname+p+":"+rw+")")
				}
				s := "(" + sp()
				if left != "" {
					s += left + sp() + op + sp()
				}
				s += p
				if right != "" {
					s += sp() + op + sp() + right
				}
				return s + sp() + ")", strings.Join(want, " and ")
			}
			queries := func() (string, string) {
				var ss, ww []string
				for i := h.rng.Intn(3); i >= 0; i-- {
					var s, w []string
					add := func(a, b string) { s, w = append(s, a), append(w, b) }
					if h.pick(2) {
						t := h.one("screen", "not print", "only all", "(min-width:3px)", "(color)", "(--m)")
						add(t, t)
					}
					for j := h.rng.Intn(3); j > 0 || len(s) == 0; j-- {
						if len(s) > 0 {
							add("and", "and")
						}
						if h.pick(4) {
							t := h.one("(max-width:1px)", "(hover)", "(orientation:portrait)")
							add(t, t)
						} else {
							add(feature())
						}
					}
					ss, ww = append(ss, strings.Join(s, " ")), append(ww, strings.Join(w, " "))
				}
				return strings.Join(ss, ","), strings.Join(ww, ",")
			}
			text, want := "", ""
			for i := h.rng.Intn(3); i >= 0; i-- {
				s, w := queries()
				switch h.rng.Intn(5) {
				case 0:
					text += "@import './e.css' " + s + ";"
					want += "@import './e.css' " + w + ";"
				default:
					text += "@media " + s + "{a{b:c}}"
					want += "@media " + w + "{a{b:c}}"
				}
			}
			h.begin(text)
			if c := h.expect("changed although off", text, text, transforms.Options{}); c == nil || len(c.errs) > 0 {
				if c != nil {
					h.fail("reports although off", text, "%v", c.texts())
				}
				continue
			}
			c := h.expect("not the range", text, want, transforms.Options{MediaFeatureRanges: transforms.MediaFeatureRangesTransform})
			if c == nil {
				continue
			}
			if (len(c.errs) > 0) != (bad > 0) {
				h.fail("reports are wrong", text, "%d strict bounds are not numeric: %v", bad, c.texts())
			}
			if ranges > 0 {
				h.nontrivial(text)
			}
		}
	}

	checks["C10"] = func(h *H) {
		h.Rule = "the stylesheets define and use at least one custom media query"
		for h.more() {
			defs := map[string]string{}
			uses := 0
			names := []string{"--a", "--b", "--c"}
			query := func(on bool) (string, string) {
				var s, w []string
				n := 1 + h.rng.Intn(3)
				for j := 0; j < n; j++ {
					if j > 0 {
						o := h.one("and", "or")
						s, w = append(s, o), append(w, o)
					}
					switch h.rng.Intn(3) {
					case 0:
						t := h.one("(min-width:1px)", "screen", "(width<=30em)", "(--a:1)", "(color)")
						s, w = append(s, t), append(w, t)
					default:
						nm := h.one(names...)
						s = append(s, "("+nm+")")
						if d, ok := defs[nm]; ok {
							w = append(w, d)
							uses++
						} else {
							w = append(w, "("+nm+")")
						}
					}
				}
				return strings.Join(s, " "), strings.Join(w, " ")
			}
			files := []string{"m0.css"}
			inlined := []bool{}
			var write func(depth int) (string, string)
			write = func(depth int) (string, string) {
				text, want := "", ""
				for i := 1 + h.rng.Intn(4); i >= 0; i-- {
					switch k := h.rng.Intn(6); {
					case k < 2:
						nm := h.one(names...)
						s, w := query(true)
						text += "@custom-media " + nm + " " + s + ";"
						defs[nm] = w
					case k == 2 && depth < 2:
						f := fmt.Sprintf("m%d.css", len(files))
						files = append(files, f)
						s, w := write(depth + 1)
						os.WriteFile(filepath.Join(h.dir, f), []byte(s), 0o644)
						text += "@import './" + f + "';"
						want += w
						inlined = append(inlined, true)
					default:
						var ss, ww []string
						for j := h.rng.Intn(2); j >= 0; j-- {
							s, w := query(true)
							ss, ww = append(ss, s), append(ww, w)
						}
						text += "@media " + strings.Join(ss, ",") + "{a{b:c}}"
						want += "@media " + strings.Join(ww, ",") + "{a{b:c}}"
					}
				}
				return text, want
			}
			text, want := write(0)
			o := transforms.Options{CustomMediaQueries: transforms.CustomMediaQueriesTransform, ImportRules: transforms.ImportRulesInline}
			h.begin(text)
			if c := h.expect("not the definition", text, want, o); c != nil && len(c.errs) > 0 {
				h.fail("reports", text, "%v", c.texts())
			}
			if strings.Contains(want, "@custom-media") {
				h.fail("definitions are kept", text, "%s", want)
			}
			// Off: the uses stay. (Definitions are dropped, which is known.)
			h.expect("changed although off", text, text, transforms.Options{})
			if uses > 0 {
				h.nontrivial(text)
			}
		}
		c := h.compile("@custom-media --a screen;a{b:c}", transforms.Options{})
		if c.ok && !strings.Contains(c.out, "@custom-media") {
			h.known("with custom media lowering off, @custom-media definitions are dropped")
		}
	}

	checks["C11"] = func(h *H) {
		h.Rule = "the stylesheet defines and uses at least one custom property"
		names := []string{"--x", "--y", "--Z"}
		for h.more() {
			defs := map[string]string{}
			unknown, uses := 0, 0
			var value func(depth int) (string, string)
			value = func(depth int) (string, string) {
				k := h.rng.Intn(9)
				if depth > 3 && k > 3 {
					k = 0
				}
				switch k {
				case 4, 5, 6:
					nm := h.one(names...)
					d, ok := defs[nm]
					if h.pick(2) {
						f, fw := value(depth + 1)
						// The fallback is only looked at when it is needed.
						if h.pick(3) {
							g, gw := value(depth + 1)
							sep := h.one(" ", ",")
							f, fw = f+sep+g, fw+sep+gw
						}
						s := "var(" + nm + h.one("", " ") + "," + f + ")"
						if ok {
							uses++
							return s, d
						}
						return s, fw
					}
					if ok {
						uses++
						return "var(" + nm + ")", d
					}
					unknown++
					return "var(" + nm + ")", "var(" + nm + ")"
				case 7:
					s, w := value(depth + 1)
					t, u := value(depth + 1)
					sep := h.one(" ", ",")
					f := h.one("foo", "rgb", "translate", "VAR", "variable")
					return f + "(" + s + sep + t + ")", f + "(" + w + sep + u + ")"
				case 8:
					s, w := value(depth + 1)
					if strings.Contains(s, ",") || strings.Contains(w, ",") {
						return "[q]", "[q]"
					}
					return "[" + s + "]", "[" + w + "]"
				}
				v := h.one("1px", "a", "#fff", `"s"`, "50%", "2", "--x")
				return v, v
			}
			values := func() (string, string) {
				s, w := value(0)
				for h.pick(3) {
					t, u := value(0)
					sep := h.one(" ", ",")
					s, w = s+sep+t, w+sep+u
				}
				return s, w
			}
			body := func(root bool) (string, string) {
				var s, w []string
				for i := h.rng.Intn(4); i >= 0; i-- {
					if h.pick(2) {
						nm := h.one(names...)
						v, vw := values()
						s = append(s, nm+":"+v)
						if root {
							defs[nm] = vw
						} else {
							w = append(w, nm+":"+vw)
						}
						continue
					}
					v, vw := values()
					imp := h.one("", "", "!important")
					p := h.one("color", "margin", "-x")
					s = append(s, p+":"+v+imp)
					w = append(w, p+":"+vw+imp)
				}
				return strings.Join(s, ";"), strings.Join(w, ";")
			}
			text, want := "", ""
			before := unknown
			for i := 1 + h.rng.Intn(5); i >= 0; i-- {
				switch h.rng.Intn(8) {
				case 0, 1, 2:
					// definitions are read before the rest of the rule
					var s, dw []string
					for j := h.rng.Intn(3); j >= 0; j-- {
						nm := h.one(names...)
						v, vw := values()
						s = append(s, nm+":"+v)
						defs[nm] = vw
					}
					r, rw := "", ""
					if h.pick(2) {
						v, vw := values()
						r, rw = "color:"+v, "color:"+vw
						if h.pick(2) {
							s = append([]string{r}, s...)
						} else {
							s = append(s, r)
						}
						dw = append(dw, rw)
					}
					text += h.one(":root", ":root ", " :root", "/**/:root") + "{" + strings.Join(s, ";") + "}"
					want += ":root{" + strings.Join(dw, ";") + "}"
				case 3:
					s, w := body(false)
					sel := h.one(":root.x", ":root,a", "a :root", ":root>a", ":root:hover", "html", ":root(a)", "::root", ":root:root", "a:root", "*:root", ".root", ":Root")
					text += sel + "{" + s + "}"
					want += sel + "{" + w + "}"
				case 4:
					s, w := body(false)
					at := h.one("@media screen", "@media print")
					sel := h.one("a", ":root", "b.c")
					text += at + "{" + sel + "{" + s + "}}"
					want += at + "{" + sel + "{" + w + "}}"
				case 5:
					s, w := body(false)
					text += "@font-face{" + s + "}"
					want += "@font-face{" + w + "}"
				case 6:
					s, w := body(false)
					text += "@keyframes k{from," + "50%{" + s + "}}"
					want += "@keyframes k{from,50%{" + w + "}}"
				default:
					s, w := body(false)
					text += "a{" + s + "}"
					want += "a{" + w + "}"
				}
			}
			_ = before
			h.begin(text)
			if c := h.expect("changed although off", text, text, transforms.Options{}); c == nil || len(c.errs) > 0 {
				if c != nil {
					h.fail("reports although off", text, "%v", c.texts())
				}
				continue
			}
			c := h.expect("not the value", text, want, transforms.Options{CustomProperties: transforms.CustomPropertiesTransformRoot})
			if c == nil {
				continue
			}
			// A var() that stays is reported. (An unused fallback is not looked at.)
			stays := strings.Count(strings.ReplaceAll(want, "VAR(", "_("), "var(")
			if (len(c.errs) > 0) != (stays > 0) {
				// a definition that is never used may hold the one that stays
				if !(len(c.errs) > 0 && unknown > 0) {
					h.fail("reports are wrong", text, "%d var() stay: %v\n%s", stays, c.texts(), want)
				}
			}
			if uses > 0 {
				h.nontrivial(text)
			}
		}
	}

	checks["C12"] = func(h *H) {
		h.Rule = "the stylesheet has a calc() of at least two operands, whose value was computed with exact arithmetic"
		for h.more() {
			e := h.mathExpr(0, h.pick(3), h.pick(3))
			wrapL, wrapR := "", ""
			if h.pick(4) {
				wrapL, wrapR = h.one("f(", "foo(1,"), ")"
			}
			pre := "a{x:" + wrapL
			post := wrapR + h.one("", " 1px", ",b", "!important") + "}"
			text := pre + "calc(" + e.text + ")" + post
			h.begin(text)
			if c := h.expect("changed although off", text, text, transforms.Options{}); c == nil || len(c.errs) > 0 {
				if c != nil {
					h.fail("reports although off", text, "%v", c.texts())
				}
				continue
			}
			c := h.compile(text, transforms.Options{CalcReduction: transforms.CalcReductionReduce})
			if !c.ok {
				h.fail("no output", text, "%v", c.texts())
				continue
			}
			kept := differ(text, c.out) == ""
			if e.ill && len(c.errs) == 0 {
				h.fail("ill-typed operation is not reported", text, "%s", c.out)
			}
			if !e.ill && !e.unknown && len(c.errs) > 0 {
				h.fail("a problem is reported where there is none", text, "%v", c.texts())
			}
			want := ""
			if e.val != nil && !e.ill {
				want = pre + e.val.FloatString(40) + e.unit + post
			}
			if want != "" && e.op {
				d := differ(want, c.out)
				if d == "" {
					h.Counts["reduced"]++
				} else if !kept {
					h.fail("not the value", text, "%s\nwant: %s\noutput: %s", d, want, c.out)
				} else if e.plain {
					h.fail("not reduced", text, "want: %s\noutput: %s\n%v", want, c.out, c.texts())
				}
			} else if !kept && !e.nested {
				h.fail("changed although it has no single value", text, "output: %s\n%v", c.out, c.texts())
			}
			if e.op {
				h.nontrivial(text)
			}
		}
	}

	checks["C17"] = func(h *H) {
		h.Rule = "the stylesheet was accepted and has at least one rule; its tree was compared before and after the transformation"
		cs := corpus()
		for h.more() {
			text := h.newGen().sheet()
			if h.pick(3) {
				text = h.text(cs)
			}
			h.begin(text)
			ss, src, err := parseText(text)
			if err != nil {
				continue
			}
			before, _, _ := parseText(text)
			var r reports
			after := transformer.Transform(ss, transformer.Options{OriginalSource: src, Reporter: &r})
			if len(r.errs) > 0 {
				h.fail("reports although off", text, "%v", r.texts())
			}
			for _, n := range before.Nodes {
				if at, ok := n.(*ast.AtRule); ok && at.Name == "custom-media" {
					h.known("with custom media lowering off, @custom-media definitions are dropped")
				}
			}
			before.Nodes = dropEmpty(before.Nodes)
			if d := treeDiff(reflect.ValueOf(before.Nodes), reflect.ValueOf(after.Nodes), "Nodes"); d != "" {
				h.fail("changed although off", text, "%s", d)
			}
			if len(before.Nodes) > 0 {
				h.nontrivial(text)
			}
			off, err := printer.Print(after, printer.Options{})
			if err != nil {
				continue
			}
			// An option without the constructs that it is about.
			for name, o := range map[string]transforms.Options{
				"any-link": {AnyLink: 1}, "range": {MediaFeatureRanges: 1}, "var": {CustomProperties: 1},
				"custom-media": {CustomMediaQueries: 1}, "calc": {CalcReduction: 1}, "import": {ImportRules: 1},
			} {
				if uses(name, text, before) {
					continue
				}
				one, _, _ := parseText(text)
				var r reports
				t := transformer.Transform(one, transformer.Options{OriginalSource: src, Reporter: &r, Options: o})
				if out, _ := printer.Print(t, printer.Options{}); out != off || len(r.errs) > 0 {
					h.fail("changed by an option that is about something else", text, "%s\noff: %s\non:  %s\n%v", name, off, out, r.texts())
				}
				h.Counts["on: "+name]++
			}
		}
	}
	_ = sort.Strings
	_ = sources.Source{}
}

func uses(name, text string, ss *ast.Stylesheet) bool {
	switch name {
	case "any-link":
		return strings.Contains(text, "any-link")
	case "range":
		return strings.ContainsAny(text, "<>")
	case "var":
		return strings.Contains(text, "--")
	case "custom-media":
		return strings.Contains(text, "(--") || strings.Contains(text, "@custom-media") || strings.Contains(text, "( ") || strings.Contains(text, "--")
	case "calc":
		return strings.Contains(text, "calc")
	}
	return false
}

// dropEmpty removes what passthrough drops.
func dropEmpty(nodes []ast.Node) []ast.Node {
	var out []ast.Node
	for _, n := range nodes {
		switch n := n.(type) {
		case *ast.QualifiedRule:
			if emptyRule(n) {
				continue
			}
		case *ast.AtRule:
			if n.Name == "custom-media" {
				continue
			}
			if b, ok := n.Block.(*ast.QualifiedRuleBlock); ok {
				var rs []*ast.QualifiedRule
				for _, r := range b.Rules {
					if !emptyRule(r) {
						rs = append(rs, r)
					}
				}
				b.Rules = rs
			}
		}
		out = append(out, n)
	}
	return out
}

func emptyRule(r *ast.QualifiedRule) bool {
	if _, ok := r.Prelude.(*ast.SelectorList); !ok {
		return false
	}
	b, ok := r.Block.(*ast.DeclarationBlock)
	return ok && len(b.Declarations) == 0
}

// treeDiff compares trees; a list that is nil is an empty list.
func treeDiff(a, b reflect.Value, path string) string {
	if a.Kind() != b.Kind() {
		return path + ": " + a.Kind().String() + " and " + b.Kind().String()
	}
	switch a.Kind() {
	case reflect.Ptr, reflect.Interface:
		if a.IsNil() || b.IsNil() {
			if a.IsNil() != b.IsNil() {
				return path + ": nil and not nil"
			}
			return ""
		}
		if a.Elem().Type() != b.Elem().Type() {
			return path + ": " + a.Elem().Type().String() + " and " + b.Elem().Type().String()
		}
		return treeDiff(a.Elem(), b.Elem(), path)
	case reflect.Slice:
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s: %d and %d elements", path, a.Len(), b.Len())
		}
		for i := 0; i < a.Len(); i++ {
			if d := treeDiff(a.Index(i), b.Index(i), fmt.Sprintf("%s[%d]", path, i)); d != "" {
				return d
			}
		}
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if d := treeDiff(a.Field(i), b.Field(i), path+"."+a.Type().Field(i).Name); d != "" {
				return d
			}
		}
	default:
		if a.Interface() != b.Interface() {
			return fmt.Sprintf("%s: %v and %v", path, a.Interface(), b.Interface())
		}
	}
	return ""
}

// ---- math

type mexpr struct {
	text    string
	val     *big.Rat
	unit    string
	ill     bool // has an ill-typed operation whose operands are known, and not inside parentheses
	unknown bool // has something whose value is not known
	plain   bool // only numbers and operators
	nested  bool
	op      bool
	prec    int
}

func (h *H) mathNumber() mexpr {
	n := h.one("1", "2", "3", "10", "0.5", ".25", "-4", "100", "7", "1e2", "0", "+6", "2.5", "-0.1", "0.0", "-0", "0e3", "00")
	u := h.one("px", "px", "em", "%", "", "", "", "rem")
	r, _ := new(big.Rat).SetString(n)
	return mexpr{text: n + u, val: r, unit: u, plain: true}
}

func (h *H) mathExpr(depth int, same, nums bool) mexpr {
	left := h.mathProduct(depth, same, nums)
	for n := h.rng.Intn(3); n > 0; n-- {
		right := h.mathProduct(depth, same, nums)
		left = combine(left, right, h.one("+", "-"), " ")
	}
	return left
}

func (h *H) mathProduct(depth int, same, nums bool) mexpr {
	left := h.mathOperand(depth, same, nums)
	for h.pick(3) {
		right := h.mathOperand(depth, same, nums)
		left = combine(left, right, h.one("*", "/"), h.one("", " "))
	}
	return left
}

func (h *H) mathOperand(depth int, same, nums bool) mexpr {
	if !nums && depth < 2 {
		switch h.rng.Intn(9) {
		case 0:
			e := h.mathExpr(depth+1, same, nums)
			e.text = "(" + e.text + ")"
			if e.ill {
				// not looked at
				e.val, e.unknown, e.ill = nil, true, false
			}
			e.plain, e.nested = false, e.nested
			e.unknown = true
			return e
		case 1:
			return mexpr{text: h.one("var(--x)", "e", "foo(1)", "min(1px,2px)"), unknown: true}
		}
	}
	e := h.mathNumber()
	if same && e.unit != "" {
		e.unit = "px"
		e.text = strings.TrimRight(e.text, "pxem%r") + "px"
		e.text = regexp.MustCompile(`[a-z%]+$`).ReplaceAllString(e.text, "px")
		m := numeric.FindStringSubmatch(strings.TrimSuffix(e.text, "px"))
		if m == nil {
			return mexpr{text: "1px", val: big.NewRat(1, 1), unit: "px", plain: true}
		}
	}
	return e
}

// combine is the meaning of one operation under the rules for types in CSS.
func combine(l, r mexpr, op, sp string) mexpr {
	e := mexpr{text: l.text + sp + op + sp + r.text, ill: l.ill || r.ill, unknown: l.unknown || r.unknown, plain: l.plain && r.plain, nested: l.nested || r.nested, op: true}
	if l.val == nil || r.val == nil {
		return e
	}
	here := !l.unknown && !r.unknown
	bad := false
	switch op {
	case "+", "-":
		if l.unit != r.unit {
			bad = l.unit == "" || r.unit == ""
			break
		}
		e.unit = l.unit
		e.val = new(big.Rat)
		if op == "+" {
			e.val.Add(l.val, r.val)
		} else {
			e.val.Sub(l.val, r.val)
		}
	case "*":
		if l.unit != "" && r.unit != "" {
			bad = true
			break
		}
		e.unit = l.unit + r.unit
		e.val = new(big.Rat).Mul(l.val, r.val)
	case "/":
		if r.unit != "" || r.val.Sign() == 0 {
			bad = true
			break
		}
		e.unit = l.unit
		e.val = new(big.Rat).Quo(l.val, r.val)
	}
	if bad && here {
		e.ill = true
	}
	if bad && !here {
		e.unknown = true
	}
	return e
}
