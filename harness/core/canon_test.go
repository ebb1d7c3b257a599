package zzverif

import (
	"fmt"
	"regexp"
	"strings"
)

// canon is what a stylesheet's text says, without what passthrough may change.
type canon struct {
	items  []string
	starts []int    // where each rule begins
	kinds  []string // "rule" or the name of the at-rule
	mathOp bool     // has a + or - inside math
}

type canoner struct {
	src   string
	ts    []tok
	i     int
	c     *canon
	err   string
	semis int
	all   bool // keep rules whose block has nothing but semicolons
}

func canonical(src string) (*canon, string) { return canonicalOf(src, false) }

func canonicalOf(src string, all bool) (*canon, string) {
	ts, bad := tokenize(src)
	if bad != "" {
		return nil, bad
	}
	var keep []tok
	for _, t := range ts {
		if t.kind == "comment" || t.kind == "whitespace" && len(keep) > 0 && keep[len(keep)-1].kind == "whitespace" {
			continue
		}
		keep = append(keep, t)
	}
	z := &canoner{src: src, ts: keep, c: &canon{}, all: all}
	z.rules(true, false)
	if z.err != "" {
		return nil, z.err
	}
	return z.c, ""
}

func (z *canoner) cur() tok { return z.ts[z.i] }

func (z *canoner) emit(s ...string) { z.c.items = append(z.c.items, s...) }

func (z *canoner) rules(top, keyframes bool) {
	for z.err == "" {
		t := z.cur()
		switch {
		case t.kind == "whitespace":
			z.i++
		case top && (t.kind == "cdo" || t.kind == "cdc" || t.kind == ";"):
			z.i++
		case t.kind == "eof":
			if !top {
				z.err = "block is not closed"
			}
			return
		case t.kind == "}" && !top:
			return
		case t.kind == "at":
			z.atRule()
		default:
			z.rule(keyframes)
		}
	}
}

// prelude collects tokens up to a { or ; on this level.
func (z *canoner) prelude() []tok {
	var out []tok
	depth := 0
	for {
		t := z.cur()
		switch t.kind {
		case "eof":
			z.err = "rule is not closed"
			return nil
		case "(", "function", "[":
			depth++
		case ")", "]":
			depth--
		case "{", ";":
			if depth <= 0 {
				return out
			}
		}
		out = append(out, t)
		z.i++
	}
}

func (z *canoner) atRule() {
	at := z.cur()
	z.i++
	mark := len(z.c.items)
	z.c.starts = append(z.c.starts, at.start)
	z.c.kinds = append(z.c.kinds, at.text)
	p := z.prelude()
	if z.err != "" {
		return
	}
	z.emit("@" + at.text)
	if at.text == "import" {
		p = importTarget(p)
	}
	z.values(p)
	if z.cur().kind == ";" {
		z.i++
		z.emit(";")
		if at.text == "custom-media" {
			z.c.items = z.c.items[:mark]
			z.c.starts = z.c.starts[:len(z.c.starts)-1]
			z.c.kinds = z.c.kinds[:len(z.c.kinds)-1]
		}
		return
	}
	z.i++
	z.emit("{")
	switch at.text {
	case "media":
		z.rules(false, false)
	case "keyframes", "-webkit-keyframes", "-o-keyframes":
		z.rules(false, true)
	default:
		z.declarations()
	}
	if z.err == "" {
		z.i++
		z.emit("}")
	}
}

func importTarget(p []tok) []tok {
	var out []tok
	for i := 0; i < len(p); i++ {
		switch {
		case len(out) > 0:
		case p[i].kind == "whitespace":
			continue
		case p[i].kind == "url":
			p[i].kind = "string"
		case p[i].kind == "function" && strings.EqualFold(p[i].text, "url"):
			j := i + 1
			for j < len(p) && p[j].kind == "whitespace" {
				j++
			}
			k := j + 1
			for k < len(p) && p[k].kind == "whitespace" {
				k++
			}
			if k < len(p) && p[j].kind == "string" && p[k].kind == ")" {
				out = append(out, p[j])
				i = k
				continue
			}
		}
		out = append(out, p[i])
	}
	return out
}

func (z *canoner) rule(keyframes bool) {
	mark, nmark := len(z.c.items), len(z.c.starts)
	z.c.starts = append(z.c.starts, z.cur().start)
	z.c.kinds = append(z.c.kinds, "rule")
	p := z.prelude()
	if z.err != "" {
		return
	}
	if z.cur().kind != "{" {
		z.err = "rule without a block"
		return
	}
	if keyframes {
		z.values(p)
	} else {
		z.selectors(p)
	}
	z.i++
	z.emit("{")
	before, semis := len(z.c.items), z.semis
	z.declarations()
	if z.err != "" {
		return
	}
	z.i++
	if len(z.c.items) == before && !keyframes && !(z.all && z.semis > semis) {
		z.c.items = z.c.items[:mark]
		z.c.starts = z.c.starts[:nmark]
		z.c.kinds = z.c.kinds[:nmark]
		return
	}
	z.emit("}")
}

func (z *canoner) declarations() {
	for {
		var d []tok
		depth := []string{}
	decl:
		for {
			t := z.cur()
			switch t.kind {
			case "eof":
				z.err = "block is not closed"
				return
			case "{":
				depth = append(depth, "}")
			case "[":
				depth = append(depth, "]")
			case "(", "function":
				depth = append(depth, ")")
			case "}", "]", ")":
				if n := len(depth); n > 0 {
					if depth[n-1] == t.kind {
						depth = depth[:n-1]
					}
				} else if t.kind == "}" {
					break decl
				}
			case ";":
				if len(depth) == 0 {
					break decl
				}
			}
			d = append(d, t)
			z.i++
		}
		mark := len(z.c.items)
		z.values(d)
		if len(z.c.items) > mark {
			z.emit(";")
		}
		if z.cur().kind == "}" {
			return
		}
		z.i++
		z.semis++
	}
}

func repr(t tok) string {
	if t.kind != "string" && t.kind != "url" && t.kind != "delim" {
		t.text = strings.TrimRight(t.text, " \t\n\r\f") // may end a hexadecimal escape
	}
	switch t.kind {
	case "ident":
		return t.text
	case "function":
		if strings.EqualFold(t.text, "url") {
			return "url("
		}
		return t.text + "("
	case "at":
		return "@" + t.text
	case "hash":
		return "#" + t.text
	case "string":
		return "\"" + t.text + "\""
	case "url":
		return "url(" + t.text + ")"
	case "number":
		return t.num
	case "percentage":
		return t.num + "%"
	case "dimension":
		return t.num + "|" + t.text
	case "cdo":
		return "<!--"
	case "cdc":
		return "-->"
	case "delim":
		return t.text
	}
	return t.kind
}

var mathNames = map[string]bool{"calc": true, "min": true, "max": true, "clamp": true}

// values writes tokens without white space.
func (z *canoner) values(p []tok) {
	for i := 0; i < len(p); i++ {
		t := p[i]
		if t.kind == "whitespace" {
			continue
		}
		if t.kind == "function" && mathNames[t.text] {
			j := matching(p, i)
			if j < len(p) {
				z.math(p[i : j+1])
				i = j
				continue
			}
		}
		s := repr(t)
		if t.kind == "ident" && len(z.c.items) > 0 && z.c.items[len(z.c.items)-1] == "!" {
			s = strings.ToLower(s)
		}
		z.emit(s)
	}
}

func matching(p []tok, i int) int {
	depth := 0
	for j := i; j < len(p); j++ {
		switch p[j].kind {
		case "(", "function":
			depth++
		case ")":
			depth--
			if depth == 0 {
				return j
			}
		}
	}
	return len(p)
}

func isOp(t tok) bool { return t.kind == "delim" && strings.Contains("+-*/", t.text) }

// math writes an expression as it is after its operators have lost the space around them.
func (z *canoner) math(p []tok) {
	var b strings.Builder
	for i, t := range p {
		if t.kind == "whitespace" {
			if i > 0 && i+1 < len(p) && !isOp(p[i-1]) && !isOp(p[i+1]) && p[i-1].kind != "," && p[i+1].kind != "," && p[i+1].kind != ")" && p[i-1].kind != "(" && p[i-1].kind != "function" {
				b.WriteByte(' ')
			}
			continue
		}
		if isOp(t) && strings.Contains("+-", t.text) {
			z.c.mathOp = true
		}
		if t.kind == "string" {
			b.WriteString(repr(t)[:len(repr(t))])
			continue
		}
		if t.kind == "url" {
			b.WriteString(repr(t))
			continue
		}
		b.WriteString(z.src[t.start:t.end])
		if i+1 < len(p) && p[i+1].kind != "whitespace" && !isOp(t) && !isOp(p[i+1]) && p[i+1].kind != "," && p[i+1].kind != ")" && t.kind != "(" && t.kind != "function" && t.kind != "," {
			b.WriteByte(' ')
		}
	}
	ts, bad := tokenize(b.String())
	if bad != "" {
		z.emit("bad math " + b.String())
		return
	}
	for _, t := range ts {
		if t.kind != "whitespace" && t.kind != "eof" && t.kind != "comment" {
			z.emit(repr(t))
		}
	}
}

var anb = regexp.MustCompile(`^([+-]?)([0-9]*)n(?:([+-])([0-9]+))?$`)
var justB = regexp.MustCompile(`^([+-]?)([0-9]+)$`)

func trim0(s string) string {
	t := strings.TrimLeft(s, "0")
	if t == "" {
		return "0"
	}
	return t
}

func signed(sign, num string) string {
	n := trim0(num)
	if n == "0" || sign != "-" {
		return n
	}
	return "-" + n
}

// nth gives the canonical form of An+B.
func nth(s string) string {
	if m := anb.FindStringSubmatch(s); m != nil {
		a := m[2]
		if a == "" {
			a = "1"
		}
		b := m[4]
		if b == "" {
			b = "0"
		}
		return signed(m[1], a) + "n+" + signed(m[3], b)
	}
	if m := justB.FindStringSubmatch(s); m != nil {
		return "0n+" + signed(m[1], m[2])
	}
	return ""
}

var nthNames = map[string]bool{"nth-child": true, "nth-last-child": true, "nth-of-type": true, "nth-last-of-type": true}

// selectors writes a prelude; white space is only kept where it is a combinator.
func (z *canoner) selectors(p []tok) {
	inAttr := 0
	for i := 0; i < len(p); i++ {
		t := p[i]
		switch t.kind {
		case "[":
			inAttr++
		case "]":
			inAttr--
		case "whitespace":
			if inAttr > 0 || i == 0 || i+1 >= len(p) || noSpaceAfter(p[i-1]) || noSpaceBefore(p[i+1]) {
				continue
			}
			z.emit(" ")
			continue
		case "function":
			if nthNames[t.text] {
				j := matching(p, i)
				if j < len(p) {
					s := ""
					for _, u := range p[i+1 : j] {
						if u.kind != "whitespace" {
							s += z.src[u.start:u.end]
						}
					}
					if n := nth(s); n != "" {
						z.emit(t.text+"(", n, ")")
						i = j
						continue
					}
				}
			}
		}
		z.emit(repr(t))
	}
}

func noSpaceAfter(t tok) bool {
	switch t.kind {
	case ",", "(", "function":
		return true
	case "delim":
		return strings.Contains("+>~|", t.text)
	}
	return false
}

func noSpaceBefore(t tok) bool {
	switch t.kind {
	case ",", ")":
		return true
	case "delim":
		return strings.Contains("+>~|", t.text)
	}
	return false
}

func (c *canon) String() string { return strings.Join(c.items, " ") }

func (c *canon) diff(o *canon) string {
	for i := range c.items {
		if i >= len(o.items) {
			return fmt.Sprintf("missing from %d on: %s", i, strings.Join(c.items[i:], " "))
		}
		if c.items[i] != o.items[i] {
			lo := i - 4
			if lo < 0 {
				lo = 0
			}
			return fmt.Sprintf("item %d: want %q, got %q (after %s)", i, c.items[i], o.items[i], strings.Join(c.items[lo:i], " "))
		}
	}
	if len(o.items) > len(c.items) {
		return "added: " + strings.Join(o.items[len(c.items):], " ")
	}
	return ""
}
