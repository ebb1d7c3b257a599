package lexer

import "github.com/stephen/cssc/internal/verifspec"

// 4.3.1, consume a token: the kind of the token at i, its end and its text. Errors have end -1.

// specWhiteEnd is the end of a run of whitespace.
func specWhiteEnd(s string, i int) int {
	if i < 0 || i >= len(s) || !specIsWhite(specCh(s, i)) {
		return i
	}
	return specWhiteEnd(s, specNext(s, i))
}

// specCommentEnd is where the comment that i is in closes.
func specCommentEnd(s string, i int) int {
	if i < 0 || i >= len(s) {
		return -1
	}
	if specCh(s, i) == '*' && specCh(s, i+1) == '/' {
		return i
	}
	return specCommentEnd(s, specNext(s, i))
}

func specCommentAt(s string, i int) bool {
	verifspec.Opaque()
	return specCh(s, i) == '/' && specCh(s, i+1) == '*'
}

// specSkip is the start of the first token to keep at or after i.
func specSkip(s string, i int, white, comments bool) int {
	if i < 0 || i >= len(s) {
		return i
	}
	if !white && specIsWhite(specCh(s, i)) {
		return specSkip(s, specNext(s, i), white, comments)
	}
	if !comments && specCommentAt(s, i) {
		if e := specCommentEnd(s, i+2); e >= 0 {
			return specSkip(s, e+2, white, comments)
		}
	}
	return i
}

// specStringEnd is where the string that i is in closes.
func specStringEnd(s string, i int, mark rune) int {
	if i < 0 || i >= len(s) {
		return -1
	}
	r := specCh(s, i)
	if r == mark {
		return i
	}
	if r == '\n' {
		return -1
	}
	if r == '\\' {
		if specEscapeAt(s, i) {
			return specStringEnd(s, specEscapeEnd(s, i), mark)
		}
		return specStringEnd(s, specNext(s, i+1), mark)
	}
	return specStringEnd(s, specNext(s, i), mark)
}

// specURLTail is the closing parenthesis after whitespace at the end of a url.
func specURLTail(s string, i int) int {
	verifspec.Opaque()
	if j := specWhiteEnd(s, i); specCh(s, j) == ')' {
		return j
	}
	return -1
}

// 4.3.6: the closing parenthesis of the url that i is in.
func specURLClose(s string, i int) int {
	if i < 0 || i >= len(s) {
		return -1
	}
	r := specCh(s, i)
	if r == ')' {
		return i
	}
	if specIsWhite(r) {
		return specURLTail(s, i)
	}
	if specEscapeAt(s, i) {
		return specURLClose(s, specEscapeEnd(s, i))
	}
	if r == '"' || r == '\'' || r == '(' || r == '\\' || specIsNonPrintable(r) {
		return -1
	}
	return specURLClose(s, specNext(s, i))
}

// specURLTextEnd is where the text of the url that i is in ends.
func specURLTextEnd(s string, i int) int {
	if i < 0 || i >= len(s) {
		return i
	}
	r := specCh(s, i)
	if r == ')' || specIsWhite(r) {
		return i
	}
	if specEscapeAt(s, i) {
		return specURLTextEnd(s, specEscapeEnd(s, i))
	}
	return specURLTextEnd(s, specNext(s, i))
}

// 4.3.4: what the identifier-like token at i is.

func specIsURL(s string, i int) bool {
	verifspec.Opaque()
	j := specNameEnd(s, i)
	return j == i+3 && (s[i] == 'u' || s[i] == 'U') && (s[i+1] == 'r' || s[i+1] == 'R') && (s[i+2] == 'l' || s[i+2] == 'L')
}

// specURLStart is where the text of a url would start.
func specURLStart(s string, i int) int {
	verifspec.Opaque()
	return specWhiteEnd(s, specNameEnd(s, i)+1)
}

func specIdentKind(s string, i int) Token {
	verifspec.Opaque()
	if specCh(s, specNameEnd(s, i)) != '(' {
		return Ident
	}
	if specIsURL(s, i) {
		if r := specCh(s, specURLStart(s, i)); r != '"' && r != '\'' {
			return URL
		}
	}
	return FunctionStart
}

func specIdentTokenEnd(s string, i int) int {
	verifspec.Opaque()
	switch specIdentKind(s, i) {
	case Ident:
		return specNameEnd(s, i)
	case URL:
		if e := specURLClose(s, specURLStart(s, i)); e >= 0 {
			return e + 1
		}
		return -1
	}
	if specIsURL(s, i) {
		return specURLStart(s, i)
	}
	return specNameEnd(s, i) + 1
}

func specIdentText(s string, i int) (int, int) {
	if specIdentKind(s, i) == URL {
		k := specURLStart(s, i)
		return k, specURLTextEnd(s, k)
	}
	return i, specNameEnd(s, i)
}

// 4.3.3: what the numeric token at i is.
func specNumericKind(s string, i int) Token {
	verifspec.Opaque()
	j := specNumberEnd(s, i)
	if specIdentAt(s, j) {
		return Dimension
	}
	if specCh(s, j) == '%' {
		return Percentage
	}
	return Number
}

func specNumericEnd(s string, i int) int {
	verifspec.Opaque()
	j := specNumberEnd(s, i)
	switch specNumericKind(s, i) {
	case Dimension:
		return specNameEnd(s, j)
	case Percentage:
		return j + 1
	}
	return j
}
