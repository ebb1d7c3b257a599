package lexer

import "github.com/stephen/cssc/internal/verifspec"

// This file is the tokenization part of CSS Syntax Level 3 (section 4), as functions of a text and
// a byte offset in it.

// specCh is the code point at i after preprocessing (3.3), -1 at the end.
func specCh(s string, i int) rune {
	verifspec.Opaque()
	if i < 0 || i >= len(s) {
		return -1
	}
	r := verifspec.RuneAt(s, i)
	if r == '\r' || r == '\f' {
		return '\n'
	}
	if r == 0 {
		return 0xfffd
	}
	return r
}

// specNext is the offset of the code point after the one at i.
func specNext(s string, i int) int {
	verifspec.Opaque()
	if i < 0 || i >= len(s) {
		return i
	}
	if s[i] == '\r' && i+1 < len(s) && s[i+1] == '\n' {
		return i + 2
	}
	return i + verifspec.RuneWidth(s, i)
}

// 4.2 definitions

func specIsDigit(r rune) bool { return '0' <= r && r <= '9' }

func specIsHex(r rune) bool {
	return specIsDigit(r) || 'a' <= r && r <= 'f' || 'A' <= r && r <= 'F'
}

func specIsWhite(r rune) bool { return r == '\n' || r == '\t' || r == ' ' }

func specIsNameStart(r rune) bool {
	return 'a' <= r && r <= 'z' || 'A' <= r && r <= 'Z' || r >= 0x80 || r == '_'
}

func specIsName(r rune) bool { return specIsNameStart(r) || specIsDigit(r) || r == '-' }

func specIsNonPrintable(r rune) bool {
	return 0 <= r && r <= 8 || r == 0x0b || 0x0e <= r && r <= 0x1f || r == 0x7f
}

// 4.3.8: the code points at i are a valid escape.
func specEscapeAt(s string, i int) bool {
	verifspec.Opaque()
	return specCh(s, i) == '\\' && specCh(s, i+1) != '\n'
}

// 4.3.9: they would start an identifier.
func specIdentAt(s string, i int) bool {
	verifspec.Opaque()
	r := specCh(s, i)
	if r == '-' {
		return specCh(s, i+1) == '-' || specIsNameStart(specCh(s, i+1)) || specEscapeAt(s, i+1)
	}
	return specIsNameStart(r) || specEscapeAt(s, i)
}

// 4.3.10: they would start a number.
func specNumberAt(s string, i int) bool {
	verifspec.Opaque()
	r := specCh(s, i)
	if r == '+' || r == '-' {
		return specIsDigit(specCh(s, i+1)) || specCh(s, i+1) == '.' && specIsDigit(specCh(s, i+2))
	}
	if r == '.' {
		return specIsDigit(specCh(s, i+1))
	}
	return specIsDigit(r)
}

// 4.3.7: the end of up to n hex digits.
func specHexEnd(s string, i, n int) int {
	if n <= 0 || i < 0 || i >= len(s) || !specIsHex(specCh(s, i)) {
		return i
	}
	return specHexEnd(s, i+1, n-1)
}

// specEscapeEnd is the end of the escape whose backslash is at i.
func specEscapeEnd(s string, i int) int {
	verifspec.Opaque()
	if !specIsHex(specCh(s, i+1)) {
		return specNext(s, i+1)
	}
	j := specHexEnd(s, i+1, 6)
	if specIsWhite(specCh(s, j)) {
		return specNext(s, j)
	}
	return j
}

// 4.3.11: the end of a name.
func specNameEnd(s string, i int) int {
	if i < 0 || i >= len(s) {
		return i
	}
	if specIsName(specCh(s, i)) {
		return specNameEnd(s, specNext(s, i))
	}
	if specEscapeAt(s, i) {
		return specNameEnd(s, specEscapeEnd(s, i))
	}
	return i
}

func specDigitsEnd(s string, i int) int {
	if i < 0 || i >= len(s) || !specIsDigit(specCh(s, i)) {
		return i
	}
	return specDigitsEnd(s, i+1)
}

// 4.3.12: the end of a number.
func specNumberEnd(s string, i int) int {
	verifspec.Opaque()
	if specCh(s, i) == '+' || specCh(s, i) == '-' {
		i = i + 1
	}
	return specExponentEnd(s, specFractionEnd(s, specDigitsEnd(s, i)))
}

func specFractionEnd(s string, i int) int {
	verifspec.Opaque()
	if specCh(s, i) == '.' && specIsDigit(specCh(s, i+1)) {
		return specDigitsEnd(s, i+2)
	}
	return i
}

func specExponentEnd(s string, i int) int {
	verifspec.Opaque()
	if specCh(s, i) != 'e' && specCh(s, i) != 'E' {
		return i
	}
	if specIsDigit(specCh(s, i+1)) {
		return specDigitsEnd(s, i+2)
	}
	if (specCh(s, i+1) == '+' || specCh(s, i+1) == '-') && specIsDigit(specCh(s, i+2)) {
		return specDigitsEnd(s, i+3)
	}
	return i
}
