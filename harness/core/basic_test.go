package zzverif

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"path/filepath"
	"reflect"
	"regexp"
	"strings"

	"github.com/stephen/cssc/internal/ast"
	"github.com/stephen/cssc/internal/lexer"
	"github.com/stephen/cssc/internal/logging"
	"github.com/stephen/cssc/internal/parser"
	"github.com/stephen/cssc/internal/printer"
	"github.com/stephen/cssc/internal/sources"
	"github.com/stephen/cssc/internal/transformer"
	"github.com/stephen/cssc/transforms"
)

func (h *H) options() transforms.Options {
	var o transforms.Options
	r := func(n int) int { return h.rng.Intn(n) }
	o.ImportRules = transforms.ImportRules(r(3))
	o.MediaFeatureRanges = transforms.MediaFeatureRanges(r(2))
	o.AnyLink = transforms.AnyLink(r(2))
	o.CustomProperties = transforms.CustomProperties(r(2))
	o.CustomMediaQueries = transforms.CustomMediaQueries(r(2))
	o.CalcReduction = transforms.CalcReduction(r(2))
	return o
}

func optString(o transforms.Options) string {
	return fmt.Sprintf("ImportRules=%d MediaFeatureRanges=%d AnyLink=%d CustomProperties=%d CustomMediaQueries=%d CalcReduction=%d",
		o.ImportRules, o.MediaFeatureRanges, o.AnyLink, o.CustomProperties, o.CustomMediaQueries, o.CalcReduction)
}

func (h *H) newGen() *gen {
	return &gen{h: h, plain: h.pick(3), noMath: h.pick(3), vars: h.pick(2), customs: h.pick(2), noImport: h.pick(2)}
}

// text makes a text that is more or less a stylesheet.
func (h *H) text(cs []string) string {
	g := h.newGen()
	switch h.rng.Intn(8) {
	case 0, 1:
		return g.soup()
	case 2, 3:
		return g.mutate(g.sheet())
	case 4:
		if len(cs) > 0 {
			s := cs[h.rng.Intn(len(cs))]
			if len(s) > 3000 {
				p := h.rng.Intn(len(s) - 2000)
				s = s[p : p+1+h.rng.Intn(1999)]
			}
			return g.mutate(s)
		}
	case 5:
		b := make([]byte, h.rng.Intn(12))
		for i := range b {
			b[i] = byte(h.rng.Intn(256))
		}
		return string(b)
	case 6:
		s := g.sheet()
		return s[:h.rng.Intn(len(s)+1)]
	}
	return g.sheet()
}

func parseText(text string) (ss *ast.Stylesheet, src *sources.Source, err error) {
	src = &sources.Source{Path: "/in.css", Content: text}
	ss, err = parser.Parse(src)
	return ss, src, err
}

func init() {
	checks["C01"] = func(h *H) {
		h.Rule = "a text of at least two tokens was compiled with a choice of options, and gave an output or an error"
		cs := corpus()
		for h.more() {
			o := h.options()
			text := h.text(cs)
			h.begin(optString(o) + "\n" + text)
			c := h.compile(text, o)
			if !c.ok && len(c.errs) == 0 {
				h.fail("neither output nor error", h.cur, "")
			}
			for _, e := range c.errs {
				if e == nil || e.Error() == "" {
					h.fail("empty error", h.cur, "")
				}
			}
			if c.ok {
				h.Counts["output"]++
			} else {
				h.Counts["error"]++
			}
			if len(text) > 2 {
				h.nontrivial(h.cur)
			}
		}
	}

	kinds := map[lexer.Token]string{
		lexer.EOF: "eof", lexer.Whitespace: "whitespace", lexer.Comma: ",", lexer.Colon: ":", lexer.Semicolon: ";",
		lexer.LParen: "(", lexer.RParen: ")", lexer.CDO: "cdo", lexer.CDC: "cdc", lexer.LBracket: "[", lexer.RBracket: "]",
		lexer.LCurly: "{", lexer.RCurly: "}", lexer.Comment: "comment", lexer.URL: "url", lexer.FunctionStart: "function",
		lexer.At: "at", lexer.Hash: "hash", lexer.Number: "number", lexer.Percentage: "percentage", lexer.Dimension: "dimension",
		lexer.String: "string", lexer.Ident: "ident", lexer.Delim: "delim",
	}
	checks["C02"] = func(h *H) {
		h.Rule = "the text has at least two tokens, all of which were compared with the reference tokenizer's"
		cs := corpus()
		one := func(text string) {
			h.begin(text)
			want, bad := tokenize(text)
			var got []tok
			var failed error
			p, stack := guarded(func() {
				src := &sources.Source{Content: ";" + text}
				l := lexer.NewLexer(src)
				l.RetainWhitespace, l.RetainComments = true, true
				for n := 0; ; n++ {
					if n > len(text)+10 {
						panic("too many tokens")
					}
					l.Next()
					sp := l.TokenSpan()
					t := tok{kind: kinds[l.Current], start: sp.Start - 1, end: sp.End - 1}
					if l.TokenEnd() != sp.End {
						panic("TokenEnd and TokenSpan differ")
					}
					switch l.Current {
					case lexer.Number, lexer.Percentage:
						t.num = l.CurrentNumeral
					case lexer.Dimension:
						t.num, t.text = l.CurrentNumeral, l.CurrentString
					case lexer.Comment, lexer.URL, lexer.FunctionStart, lexer.At, lexer.Hash, lexer.String, lexer.Ident, lexer.Delim:
						t.text = l.CurrentString
					}
					got = append(got, t)
					if l.Current == lexer.EOF {
						break
					}
				}
			})
			if p != nil {
				if e, ok := p.(*lexer.Error); ok {
					failed = e
				} else {
					h.fail("the tokenizer panics", q(text), "%v\n%s", p, stack)
					return
				}
			}
			if (failed != nil) != (bad != "") {
				h.fail("text accepted or rejected wrongly", q(text), "the reference says %q, the tokenizer %v", bad, failed)
				return
			}
			// White space between url( and a quote is taken with the function.
			var ref []tok
			for i, t := range want {
				if t.kind == "whitespace" && i > 0 && i+1 < len(want) && want[i-1].kind == "function" && strings.EqualFold(want[i-1].text, "url") && want[i+1].kind == "string" {
					ref[len(ref)-1].end = t.end
					continue
				}
				ref = append(ref, t)
			}
			for i := range ref {
				if i >= len(got) {
					if bad != "" && i == len(ref)-1 && ref[i].kind == "whitespace" && i > 0 && ref[i-1].kind == "function" {
						break // was taken with url(
					}
					h.fail("token missing", q(text), "token %d: want %+v, then %q", i, ref[i], bad)
					return
				}
				r, g := ref[i], got[i]
				if bad != "" && i >= len(ref)-2 && r.kind == "function" && strings.EqualFold(r.text, "url") {
					g.end = r.end
				}
				if r != g {
					h.fail("token differs", q(text), "token %d: want %+v, got %+v", i, r, g)
					return
				}
			}
			if len(got) > len(ref) {
				h.fail("token added", q(text), "%+v", got[len(ref):])
			}
			if len(want) > 2 {
				h.nontrivial(text)
			}

			// Skipping white space and comments changes nothing else.
			if bad == "" {
				p, _ := guarded(func() {
					src := &sources.Source{Content: ";" + text}
					l := lexer.NewLexer(src)
					i := 0
					for {
						rw, rc := h.pick(2), h.pick(2)
						l.RetainWhitespace, l.RetainComments = rw, rc
						l.Next()
						for i < len(ref) && (ref[i].kind == "whitespace" && !rw || ref[i].kind == "comment" && !rc) {
							i++
						}
						if i >= len(ref) || kinds[l.Current] != ref[i].kind || l.TokenSpan().Start-1 != ref[i].start || l.TokenSpan().End-1 != ref[i].end {
							panic(fmt.Sprintf("token %d: got %s at %v (white space kept: %v, comments kept: %v)", i, l.Current, l.TokenSpan(), rw, rc))
						}
						i++
						if l.Current == lexer.EOF {
							break
						}
					}
				})
				if p != nil {
					h.fail("tokens differ without white space or comments", q(text), "%v", p)
				}
			}
		}
		// every short text over the characters that matter
		alpha := []string{"a", "e", "-", "+", ".", "1", "\\", "\n", "/", "*", "u", "(", "\"", " ", "#", "@", "<", "!", ">", "%", "é", "\x00", "g"}
		for _, a := range alpha {
			one(a)
			for _, b := range alpha {
				one(a + b)
				for _, c := range alpha {
					one(a + b + c)
				}
			}
		}
		for _, f := range []string{"url(", "u\\rl(", "URL( ", "url(a", "\"a", "'", "#", "@-", "1e", "1.", "\\6", "--", "/*"} {
			for _, a := range alpha {
				for _, b := range alpha {
					one(f + a + b)
					one(f + a + b + ")")
				}
			}
		}
		for h.more() {
			one(h.text(cs))
		}
	}

	checks["C03"] = func(h *H) {
		h.Rule = "the stylesheet was accepted, and its significant tokens were compared with those of the output"
		cs := corpus()
		// known: a name that ends in an escape, then a comment (and then white space)
		hexEnd := regexp.MustCompile(`\\[0-9a-fA-F]{1,6}/\*`)
		hexName := func(s string) bool { return hexEnd.MatchString(s) }
		one := func(text string) {
			h.begin(text)
			c := h.compile(text, transforms.Options{})
			if !c.ok {
				h.Counts["rejected"]++
				return
			}
			in, bad := canonical(text)
			if bad != "" {
				h.fail("accepted a text that is not a stylesheet", text, "%s\noutput: %s", bad, c.out)
				return
			}
			out, bad := canonical(c.out)
			if bad != "" {
				if hexName(text) || in.mathOp {
					h.Counts["known"]++
					return
				}
				h.fail("the output is not a stylesheet", text, "%s\noutput: %s", bad, c.out)
				return
			}
			if d := in.diff(out); d != "" {
				if hexName(text) {
					h.Counts["known"]++
					return
				}
				h.fail("the output says something else", text, "%s\noutput: %s", d, c.out)
				return
			}
			if len(in.items) > 0 {
				h.nontrivial(text)
			}
		}
		for _, s := range cs {
			one(s)
		}
		for h.more() {
			if h.pick(4) {
				one(h.text(cs))
			} else {
				one(h.newGen().sheet())
			}
		}
		// The operators of math lose their white space, which the repository's own tests ask for.
		c := h.compile("a{b:calc(1px + 2px)}", transforms.Options{})
		if strings.Contains(c.out, "1px+2px") {
			h.known("calc(1px + 2px) is printed as calc(1px+2px), which reads as two numbers")
		}
		c = h.compile(`\61/**/ b{c:d}`, transforms.Options{})
		if strings.Contains(c.out, `\61 b{`) {
			h.known(`\61/**/ b{c:d} is printed as \61 b{c:d}, where the white space ends the escape`)
		}
	}

	checks["C04"] = func(h *H) {
		h.Rule = "the stylesheet was accepted and its tree has at least one rule; the tree was printed alone, again, next to another one, and without locations"
		cs := corpus()
		prev := ""
		prevOut := ""
		for h.more() {
			text := h.newGen().sheet()
			if h.pick(4) {
				text = h.text(cs)
			}
			h.begin(text)
			ss, src, err := parseText(text)
			if err != nil {
				continue
			}
			again, _, _ := parseText(text)
			out, err := printer.Print(ss, printer.Options{})
			if err != nil {
				h.fail("printing fails", text, "%v", err)
				continue
			}
			if !reflect.DeepEqual(ss, again) {
				h.fail("printing alters the tree", text, "")
			}
			if o2, _ := printer.Print(ss, printer.Options{}); o2 != out {
				h.fail("printing again gives another text", text, "%s\n%s", out, o2)
			}
			if want := render(ss); want != out {
				h.fail("the text is not the rendering of the tree", text, "want %s\ngot  %s", want, out)
			}
			m1, err1 := printer.Print(ss, printer.Options{OriginalSource: src})
			m2, err2 := printer.Print(ss, printer.Options{OriginalSource: src})
			if m1 != m2 || err1 != nil || err2 != nil {
				h.fail("printing again gives another source map", text, "%v %v", err1, err2)
			}
			if body, _ := splitMap(m1); body != out {
				h.fail("the text depends on whether there is a source map", text, "%s\n%s", out, body)
			}
			// The same tree at other places.
			strip(reflect.ValueOf(again))
			if o2, err := printer.Print(again, printer.Options{}); o2 != out || err != nil {
				h.fail("the text depends on locations", text, "%s\n%s", out, o2)
			}
			// A rule alone and among others.
			var parts []string
			for _, n := range ss.Nodes {
				o, err := printer.Print(n, printer.Options{})
				if err != nil {
					h.fail("printing a rule alone fails", text, "%v", err)
				}
				parts = append(parts, o)
			}
			if j := strings.Join(parts, ""); j != out {
				h.fail("the text of a rule depends on the rules around it", text, "alone: %s\ntogether: %s", j, out)
			}
			if prev != "" {
				both := prev + "\n" + text
				if ss2, _, err := parseText(both); err == nil {
					if o2, _ := printer.Print(ss2, printer.Options{}); o2 != prevOut+out {
						h.fail("the text of a rule depends on the rules around it", both, "%s\n%s", prevOut+out, o2)
					}
				}
			}
			if len(ss.Nodes) > 0 {
				h.nontrivial(text)
				prev, prevOut = text, out
			}
		}
	}

	checks["C05"] = func(h *H) {
		h.Rule = "a number was encoded, compared with the reference encoding, and decoded with other bytes following it"
		const max = 1<<30 - 1
		one := func(n int) {
			h.Evaluations++
			want := vlq(n)
			got := printer.VLQEncode(int32(n))
			if string(got) != want {
				h.fail("encoding differs", fmt.Sprint(n), "want %s, got %s", want, got)
			}
			for _, tail := range []string{"", "A", "g", want, ";", "/"} {
				v, l := printer.VLQDecode([]byte(want + tail))
				if int(v) != n || int(l) != len(want) {
					h.fail("decoding differs", fmt.Sprint(n), "%s decodes as %d, length %d", want+tail, v, l)
				}
			}
		}
		for n := -70000; n <= 70000; n++ {
			one(n)
		}
		for s := uint(0); s <= 30; s++ {
			for d := -3; d <= 3; d++ {
				if n := 1<<s + d; n <= max && n >= -max {
					one(n)
					one(-n)
				}
			}
		}
		for h.more() {
			n := int(h.rng.Int63()%(2*max+1)) - max
			h.cur = fmt.Sprint(n)
			one(n)
			if h.Evaluations%1000 == 0 {
				h.nontrivial(fmt.Sprint(n))
			}
		}
		h.Nontrivial = h.Evaluations
	}

	checks["C06"] = func(h *H) {
		h.Rule = "the stylesheet was accepted and has at least one rule, whose mapping was compared with where it is in the source and in the output"
		cs := corpus()
		for h.more() {
			text := h.newGen().sheet()
			if h.pick(5) {
				text = h.text(cs)
			}
			o := transforms.Options{}
			if h.pick(3) {
				o.AnyLink, o.CalcReduction, o.MediaFeatureRanges = 1, 1, 1
			}
			h.begin(text)
			c := h.compile(text, o)
			if !c.ok {
				continue
			}
			in, bad := canonical(text)
			out, bad2 := canonical(c.out)
			if bad != "" || bad2 != "" || len(in.starts) != len(out.starts) {
				h.Counts["not comparable"]++
				continue
			}
			es, err := mapping(c)
			if err != "" {
				h.fail("the source map is broken", text, "%s", err)
				continue
			}
			if es.content != jsonText(text) || es.file != c.path {
				h.fail("the source map does not have the original", text, "%q %q", es.file, es.content)
			}
			if len(es.entries) != len(in.starts) {
				// A rule that has nothing but semicolons may be kept or not.
				in, _ = canonicalOf(text, true)
				out, _ = canonicalOf(c.out, true)
			}
			if len(es.entries) != len(in.starts) || len(in.starts) != len(out.starts) {
				h.fail("not one mapping for each rule", text, "%d mappings, %d rules: %v\n%s", len(es.entries), len(in.starts), es.entries, c.out)
				continue
			}
			for i, e := range es.entries {
				ol, oc := position(text, in.starts[i], false)
				gl, gc := position(c.out, out.starts[i], true)
				if w := [4]int{gl, gc, ol, oc}; e != w {
					h.fail("a rule is mapped elsewhere", text, "rule %d: want %v, got %v (generated line, column, original line, column)\n%s", i, w, e, c.out)
					break
				}
			}
			if len(in.starts) > 0 {
				h.nontrivial(text)
			}
		}
	}

	checks["C07"] = func(h *H) {
		h.Rule = "a source of at least two bytes was parsed, and every offset and a choice of spans were located"
		cs := corpus()
		for h.more() {
			text := h.text(cs)
			if h.pick(6) && len(text) > 0 {
				text = strings.ReplaceAll(text, " ", "\n")
			}
			h.begin(text)
			_, src, err := parseText(text)
			ref := lineStarts(text)
			if err == nil {
				if !reflect.DeepEqual(src.Lines, ref) {
					h.fail("the line table is wrong", text, "want %v, got %v", ref, src.Lines)
					continue
				}
			} else {
				if len(src.Lines) > len(ref) || !reflect.DeepEqual(src.Lines, ref[:len(src.Lines)]) {
					h.fail("the line table is wrong", text, "want a prefix of %v, got %v", ref, src.Lines)
					continue
				}
				h.located(text, src, err)
				src = &sources.Source{Path: src.Path, Content: text, Lines: ref}
			}
			for off := 0; off <= len(text); off++ {
				wl, wc := position(text, off, false)
				l, c := src.LineAndCol(ast.Span{Start: off, End: off})
				if int(l) != wl+1 || int(c) != wc+1 {
					h.fail("line or column is wrong", text, "offset %d: want %d:%d, got %d:%d", off, wl+1, wc+1, l, c)
					break
				}
				end := off + strings.IndexByte(text[off:], '\n')
				if end < off {
					end = len(text)
				}
				if f := src.FullLine(ast.Span{Start: off, End: off}); f.Start != ref[wl] || f.End != end {
					h.fail("the line is wrong", text, "offset %d: want %d-%d, got %d-%d", off, ref[wl], end, f.Start, f.End)
					break
				}
			}
			for i := 0; i < 8; i++ {
				s := h.rng.Intn(len(text) + 1)
				e := s + h.rng.Intn(len(text)+1-s)
				if h.pick(2) && e > s+10 {
					e = s + h.rng.Intn(10)
				}
				h.annotation(text, src, ast.Span{Start: s, End: e})
			}
			// Reports of the compilation itself.
			o := h.options()
			o.ImportRules = 0
			c := h.compile(text, o)
			for _, e := range c.errs {
				h.located(text, &sources.Source{Path: c.path, Content: text, Lines: ref}, e)
			}
			if len(text) > 1 {
				h.nontrivial(text)
			}
		}
		// Tabs are shown as two spaces, but the underline is moved by one space for each tab of the whole line.
		src := &sources.Source{Content: "a\tb", Lines: []int{0}}
		if logging.AnnotateSourceSpan(src, ast.Span{Start: 0, End: 1}) == "\ta  b\n\t ~" {
			h.known("the underline of a span is moved for tabs that come after it")
		}
	}
	_ = transformer.Transform
	_ = errors.New
	_ = bytes.NewReader
	_ = filepath.Join
}

func lineStarts(s string) []int {
	out := []int{0}
	for i := 0; i < len(s); i++ {
		if s[i] == '\n' {
			out = append(out, i+1)
		}
	}
	return out
}

// position is the 0-based line and column of an offset, counted in bytes or codepoints.
func position(s string, off int, runes bool) (int, int) {
	line := strings.Count(s[:off], "\n")
	start := strings.LastIndexByte(s[:off], '\n') + 1
	if runes {
		return line, len([]rune(s[start:off]))
	}
	return line, off - start
}

func ascii(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 || s[i] == '\t' {
			return false
		}
	}
	return true
}

func (h *H) annotation(text string, src *sources.Source, sp ast.Span) {
	var got string
	p, stack := guarded(func() { got = logging.LocationErrorf(src, sp, "x%s", "y").Error() })
	if p != nil {
		h.fail("rendering fails", text, "span %v: %v\n%s", sp, p, stack)
		return
	}
	l, c := position(text, sp.Start, false)
	start := sp.Start - c
	end := sp.Start + strings.IndexByte(text[sp.Start:], '\n')
	if end < sp.Start {
		end = len(text)
	}
	line := text[start:end]
	head := fmt.Sprintf("%s:%d:%d\nxy:\n\t%s\n\t", src.Path, l+1, c+1, strings.ReplaceAll(line, "\t", "  "))
	if !strings.HasPrefix(got, head) {
		h.fail("rendering is wrong", text, "span %v: want %q..., got %q", sp, head, got)
		return
	}
	if !ascii(line) {
		return
	}
	n, more := sp.End-sp.Start, ""
	if sp.End > end {
		n, more = end-sp.Start, ">"
	}
	if want := strings.Repeat(" ", c) + strings.Repeat("~", n) + more; got[len(head):] != want {
		h.fail("the underline is wrong", text, "span %v: want %q, got %q", sp, want, got[len(head):])
	}
}

// located checks an error that has a location.
func (h *H) located(text string, src *sources.Source, err error) {
	var l located
	if !errors.As(err, &l) {
		h.Counts["without location"]++
		return
	}
	h.Counts["located"]++
	s, sp := l.Location()
	if s == nil || s.Content != text || s.Path != src.Path {
		h.fail("located in another source", text, "%v", err)
		return
	}
	if sp.Start < 0 || sp.End > len(text) || sp.Start > sp.End {
		h.fail("located outside the source", text, "%v: %v", sp, err)
		return
	}
	ln, c := position(text, sp.Start, false)
	var msg string
	p, stack := guarded(func() { msg = err.Error() })
	if p != nil {
		h.fail("rendering fails", text, "span %v: %v\n%s", sp, p, stack)
		return
	}
	if want := fmt.Sprintf("%s:%d:%d\n", src.Path, ln+1, c+1); !strings.HasPrefix(msg, want) {
		h.fail("line or column is wrong", text, "want %q, got %q", want, msg)
	}
	h.annotation(text, s, sp)
}

const digits64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"

func vlq(n int) string {
	v := n << 1
	if n < 0 {
		v = -n<<1 | 1
	}
	s := ""
	for {
		d := v & 31
		v >>= 5
		if v > 0 {
			d |= 32
		}
		s += digits64[d : d+1]
		if v == 0 {
			return s
		}
	}
}

func unvlq(s string) (out []int, ok bool) {
	v, shift := 0, uint(0)
	for i := 0; i < len(s); i++ {
		d := strings.IndexByte(digits64, s[i])
		if d < 0 || shift > 40 {
			return nil, false
		}
		v |= d & 31 << shift
		shift += 5
		if d&32 == 0 {
			if v&1 == 1 {
				v = -(v >> 1)
			} else {
				v >>= 1
			}
			out = append(out, v)
			v, shift = 0, 0
		}
	}
	return out, shift == 0
}

type smap struct {
	entries [][4]int
	content string
	file    string
}

func jsonText(s string) string { return string([]rune(s)) }

func mapping(c *compiled) (*smap, string) {
	if !strings.HasPrefix(c.smap, mapMark) || !strings.HasSuffix(c.smap, " */\n") {
		return nil, "no source map: " + c.smap
	}
	b, err := base64.StdEncoding.DecodeString(strings.TrimSuffix(c.smap[len(mapMark):], " */\n"))
	if err != nil {
		return nil, err.Error()
	}
	var m struct {
		Version        int
		File           string
		Sources        []string
		SourcesContent []string
		Names          []string
		Mappings       string
	}
	if err := json.Unmarshal(b, &m); err != nil {
		return nil, err.Error() + ": " + string(b)
	}
	if m.Version != 3 || len(m.Sources) != 1 || len(m.SourcesContent) != 1 {
		return nil, "version, sources or sourcesContent: " + string(b)
	}
	s := &smap{content: m.SourcesContent[0], file: m.File}
	var ol, oc, os int
	for gl, line := range strings.Split(m.Mappings, ";") {
		gc := 0
		if line == "" {
			continue
		}
		for _, seg := range strings.Split(line, ",") {
			v, ok := unvlq(seg)
			if !ok || len(v) != 4 {
				return nil, "bad segment " + seg + " in " + m.Mappings
			}
			gc += v[0]
			os += v[1]
			ol += v[2]
			oc += v[3]
			if os != 0 {
				return nil, "segment of another source"
			}
			s.entries = append(s.entries, [4]int{gl, gc, ol, oc})
		}
	}
	return s, ""
}

// strip zeroes every location of a tree.
func strip(v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() {
			strip(v.Elem())
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			strip(v.Index(i))
		}
	case reflect.Struct:
		if _, ok := v.Interface().(ast.Span); ok {
			if v.CanSet() {
				v.Set(reflect.Zero(v.Type()))
			}
			return
		}
		for i := 0; i < v.NumField(); i++ {
			strip(v.Field(i))
		}
	}
}
