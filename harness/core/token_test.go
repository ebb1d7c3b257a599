package zzverif

import (
	"strings"
	"unicode/utf8"
)

// A reference tokenizer, written from CSS Syntax Level 3 section 4.

type tok struct {
	kind       string // ident function at hash string url number percentage dimension whitespace comment cdo cdc delim , : ; ( ) [ ] { } eof
	text       string // the name, the string's contents, the url, the unit
	num        string // numeric part
	start, end int
}

type cp struct {
	r   rune
	off int
}

type tokenizer struct {
	src string
	cps []cp
	i   int
}

// tokenize splits a text into tokens. bad is the reason if the text has a bad token.
func tokenize(src string) (ts []tok, bad string) {
	z := &tokenizer{src: src}
	for i := 0; i < len(src); {
		r, n := utf8.DecodeRuneInString(src[i:])
		off := i
		i += n
		switch r {
		case '\r':
			if i < len(src) && src[i] == '\n' {
				i++
			}
			r = '\n'
		case '\f':
			r = '\n'
		case 0:
			r = 0xfffd
		}
		z.cps = append(z.cps, cp{r, off})
	}
	for {
		t, bad := z.next()
		if bad != "" {
			return ts, bad
		}
		ts = append(ts, t)
		if t.kind == "eof" {
			return ts, ""
		}
	}
}

func (z *tokenizer) at(k int) rune {
	if z.i+k >= len(z.cps) {
		return -1
	}
	return z.cps[z.i+k].r
}

func (z *tokenizer) off() int {
	if z.i >= len(z.cps) {
		return len(z.src)
	}
	return z.cps[z.i].off
}

func isWS(r rune) bool   { return r == ' ' || r == '\t' || r == '\n' }
func isDig(r rune) bool  { return '0' <= r && r <= '9' }
func isHexa(r rune) bool { return isDig(r) || 'a' <= r && r <= 'f' || 'A' <= r && r <= 'F' }
func isStart(r rune) bool {
	return 'a' <= r && r <= 'z' || 'A' <= r && r <= 'Z' || r == '_' || r >= 0x80
}
func isName(r rune) bool { return isStart(r) || isDig(r) || r == '-' }

func escapeAt(a, b rune) bool { return a == '\\' && b != '\n' }

func identAt(a, b, c rune) bool {
	if a == '-' {
		return isStart(b) || b == '-' || escapeAt(b, c)
	}
	return isStart(a) || escapeAt(a, b)
}

func numberAt(a, b, c rune) bool {
	if a == '+' || a == '-' {
		return isDig(b) || b == '.' && isDig(c)
	}
	return isDig(a) || a == '.' && isDig(b)
}

func (z *tokenizer) escape() {
	z.i++ // the backslash
	if !isHexa(z.at(0)) {
		if z.i < len(z.cps) {
			z.i++
		}
		return
	}
	for n := 0; n < 6 && isHexa(z.at(0)); n++ {
		z.i++
	}
	if isWS(z.at(0)) {
		z.i++
	}
}

func (z *tokenizer) name() string {
	s := z.off()
	for {
		if isName(z.at(0)) {
			z.i++
		} else if escapeAt(z.at(0), z.at(1)) {
			z.escape()
		} else {
			return z.src[s:z.off()]
		}
	}
}

func (z *tokenizer) number() string {
	s := z.off()
	if c := z.at(0); c == '+' || c == '-' {
		z.i++
	}
	for isDig(z.at(0)) {
		z.i++
	}
	if z.at(0) == '.' && isDig(z.at(1)) {
		z.i++
		for isDig(z.at(0)) {
			z.i++
		}
	}
	if c := z.at(0); c == 'e' || c == 'E' {
		if d := z.at(1); isDig(d) || (d == '+' || d == '-') && isDig(z.at(2)) {
			z.i += 2
			for isDig(z.at(0)) {
				z.i++
			}
		}
	}
	return z.src[s:z.off()]
}

func (z *tokenizer) next() (t tok, bad string) {
	t.start = z.off()
	defer func() {
		if t.end == 0 {
			t.end = z.off()
		}
	}()
	c := z.at(0)
	switch {
	case c == -1:
		t.kind = "eof"
	case c == '/' && z.at(1) == '*':
		z.i += 2
		s := z.off()
		for !(z.at(0) == '*' && z.at(1) == '/') {
			if z.at(0) == -1 {
				return t, "comment is not closed"
			}
			z.i++
		}
		t.kind, t.text = "comment", z.src[s:z.off()]
		z.i += 2
	case isWS(c):
		for isWS(z.at(0)) {
			z.i++
		}
		t.kind = "whitespace"
	case c == '"' || c == '\'':
		z.i++
		s := z.off()
		for z.at(0) != c {
			switch z.at(0) {
			case -1:
				return t, "string is not closed"
			case '\n':
				return t, "newline in string"
			case '\\':
				if z.at(1) == '\n' {
					z.i += 2
				} else if z.at(1) == -1 {
					z.i++
				} else {
					z.escape()
				}
			default:
				z.i++
			}
		}
		t.kind, t.text = "string", z.src[s:z.off()]
		z.i++
	case c == '#':
		z.i++
		if isName(z.at(0)) || escapeAt(z.at(0), z.at(1)) {
			t.kind, t.text = "hash", z.name()
		} else {
			t.kind, t.text = "delim", "#"
		}
	case strings.ContainsRune(",:;()[]{}", c):
		z.i++
		t.kind = string(c)
	case numberAt(c, z.at(1), z.at(2)):
		t.num = z.number()
		if identAt(z.at(0), z.at(1), z.at(2)) {
			t.kind, t.text = "dimension", z.name()
		} else if z.at(0) == '%' {
			z.i++
			t.kind = "percentage"
		} else {
			t.kind = "number"
		}
	case c == '-' && z.at(1) == '-' && z.at(2) == '>':
		z.i += 3
		t.kind = "cdc"
	case c == '<' && z.at(1) == '!' && z.at(2) == '-' && z.at(3) == '-':
		z.i += 4
		t.kind = "cdo"
	case c == '@' && identAt(z.at(1), z.at(2), z.at(3)):
		z.i++
		t.kind, t.text = "at", z.name()
	case identAt(c, z.at(1), z.at(2)):
		t.text = z.name()
		if z.at(0) != '(' {
			t.kind = "ident"
			break
		}
		z.i++
		t.kind = "function"
		if !strings.EqualFold(t.text, "url") || len(t.text) != 3 {
			break
		}
		j := z.i
		for isWS(z.at(0)) {
			z.i++
		}
		if q := z.at(0); q == '"' || q == '\'' {
			z.i = j
			break
		}
		t.kind = "url"
		s := z.off()
		e := s
		for z.at(0) != ')' {
			switch c := z.at(0); {
			case c == -1:
				return t, "url is not closed"
			case isWS(c):
				for isWS(z.at(0)) {
					z.i++
				}
				if z.at(0) != ')' {
					return t, "white space in url"
				}
				continue
			case c == '"' || c == '\'' || c == '(' || c <= 8 || c == 0xb || 0xe <= c && c <= 0x1f || c == 0x7f:
				return t, "bad url"
			case c == '\\':
				if !escapeAt(c, z.at(1)) {
					return t, "bad url"
				}
				z.escape()
			default:
				z.i++
			}
			e = z.off()
		}
		t.text = z.src[s:e]
		z.i++
	case c == '\\':
		return t, "bad escape"
	default:
		z.i++
		t.kind, t.text = "delim", z.src[t.start:z.off()]
	}
	return t, ""
}
