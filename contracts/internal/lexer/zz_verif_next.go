package lexer

import (
	"github.com/stephen/cssc/internal/ast"
	"github.com/stephen/cssc/internal/sources"
	"github.com/stephen/cssc/internal/verifspec"
)

// specKind is the kind of the token at i.
func specKind(s string, i int) Token {
	verifspec.Opaque()
	r := specCh(s, i)
	switch r {
	case -1:
		return EOF
	case ';':
		return Semicolon
	case ':':
		return Colon
	case ',':
		return Comma
	case '(':
		return LParen
	case ')':
		return RParen
	case '[':
		return LBracket
	case ']':
		return RBracket
	case '{':
		return LCurly
	case '}':
		return RCurly
	case '"', '\'':
		return String
	case '#':
		if specIsName(specCh(s, i+1)) || specEscapeAt(s, i+1) {
			return Hash
		}
		return Delim
	case '@':
		if specIdentAt(s, i+1) {
			return At
		}
		return Delim
	case '<':
		if specCh(s, i+1) == '!' && specCh(s, i+2) == '-' && specCh(s, i+3) == '-' {
			return CDO
		}
		return Delim
	case '/':
		if specCommentAt(s, i) {
			return Comment
		}
		return Delim
	}
	if specNumberAt(s, i) {
		return specNumericKind(s, i)
	}
	if r == '-' && specCh(s, i+1) == '-' && specCh(s, i+2) == '>' {
		return CDC
	}
	if specIdentAt(s, i) {
		return specIdentKind(s, i)
	}
	if specIsWhite(r) {
		return Whitespace
	}
	return Delim
}

// specEnd is the end of the token at i, or -1 for an error.
func specEnd(s string, i int) int {
	verifspec.Opaque()
	switch specKind(s, i) {
	case EOF:
		return i
	case String:
		if e := specStringEnd(s, i+1, specCh(s, i)); e >= 0 {
			return e + 1
		}
		return -1
	case Comment:
		if e := specCommentEnd(s, i+2); e >= 0 {
			return e + 2
		}
		return -1
	case Hash, At:
		return specNameEnd(s, i+1)
	case CDO:
		return i + 4
	case CDC:
		return i + 3
	case Number, Percentage, Dimension:
		return specNumericEnd(s, i)
	case Ident, FunctionStart, URL:
		return specIdentTokenEnd(s, i)
	case Whitespace:
		return specWhiteEnd(s, i)
	case Delim:
		if specCh(s, i) == '\\' {
			return -1
		}
		return specNext(s, i)
	}
	return i + 1
}

func specHasText(s string, i int) bool {
	switch specKind(s, i) {
	case String, Comment, Hash, At, Dimension, Ident, FunctionStart, URL, Delim:
		return true
	}
	return false
}

func specHasNumber(s string, i int) bool {
	k := specKind(s, i)
	return k == Number || k == Percentage || k == Dimension
}

func specText(s string, i int) string {
	switch specKind(s, i) {
	case String:
		return s[i+1 : specEnd(s, i)-1]
	case Comment:
		return s[i+2 : specEnd(s, i)-2]
	case Hash, At:
		return s[i+1 : specEnd(s, i)]
	case Dimension:
		return s[specNumberEnd(s, i):specEnd(s, i)]
	case Delim:
		return s[i:specEnd(s, i)]
	}
	a, b := specIdentText(s, i)
	return s[a:b]
}

func contract_Lexer_Next(l *Lexer) {
	verifspec.Requires(l != nil && specValid(l))
	s, p, q, white, comments := l.source.Content, l.lastPos, l.pos, l.RetainWhitespace, l.RetainComments
	t := specSkip(s, p, white, comments)
	verifspec.Modifies(&l.ch, &l.pos, &l.lastPos, &l.source.Lines, &l.start, &l.Current, &l.CurrentString, &l.CurrentNumeral)
	verifspec.MayPanic()
	verifspec.EnsuresPanic("only for what is not a token", func() bool { return specEnd(s, t) < 0 })
	verifspec.EnsuresPanic("the line table", func() bool { return l.pos >= q && specTable(l) })
	verifspec.Ensures("the lexer is valid", func() bool { return specValid(l) })
	verifspec.Ensures("progress", func() bool { return p <= l.start && (l.lastPos > p || l.Current == EOF) && l.pos >= q })
	verifspec.Ensures("the start of the token", func() bool { return l.start == t })
	verifspec.Ensures("the kind", func() bool { return l.Current == specKind(s, t) })
	verifspec.Ensures("the end", func() bool { return l.lastPos == specEnd(s, t) })
	verifspec.Ensures("the text", func() bool { return verifspec.Implies(specHasText(s, t), l.CurrentString == specText(s, t)) })
	verifspec.Ensures("the number", func() bool {
		return verifspec.Implies(specHasNumber(s, t), l.CurrentNumeral == s[t:specNumberEnd(s, t)])
	})
	verifspec.Invariant(func() bool { return specValid(l) && l.lastPos >= p && l.pos >= q })
	verifspec.Invariant(func() bool { return specSkip(s, l.lastPos, white, comments) == t })
	verifspec.Invariant(func() bool { return l.start >= p })
	verifspec.Invariant(func() bool { return specCommentEnd(s, l.lastPos) == specCommentEnd(s, l.start+2) })
	verifspec.Invariant(func() bool {
		mark := specCh(s, l.start)
		return specStringEnd(s, l.lastPos, mark) == specStringEnd(s, l.start+1, mark)
	})
	verifspec.Invariant(func() bool { return specWhiteEnd(s, l.lastPos) == specWhiteEnd(s, l.start) })
	verifspec.LoopDecreases(func() int { return len(s) - l.lastPos })
}

func contract_Lexer_Expect(l *Lexer, token Token) {
	verifspec.Requires(l != nil && specValid(l))
	s, p, q, white, comments, cur := l.source.Content, l.lastPos, l.pos, l.RetainWhitespace, l.RetainComments, l.Current
	t := specSkip(s, p, white, comments)
	verifspec.Modifies(&l.ch, &l.pos, &l.lastPos, &l.source.Lines, &l.start, &l.Current, &l.CurrentString, &l.CurrentNumeral)
	verifspec.MayPanic()
	verifspec.EnsuresPanic("for another token or what is not one", func() bool { return cur != token || specEnd(s, t) < 0 })
	verifspec.EnsuresPanic("the line table", func() bool { return l.pos >= q && specTable(l) })
	verifspec.Ensures("it was this token", func() bool { return cur == token })
	verifspec.Ensures("the lexer is valid", func() bool { return specValid(l) })
	verifspec.Ensures("progress", func() bool { return p <= l.start && (l.lastPos > p || l.Current == EOF) && l.pos >= q })
	verifspec.Ensures("the next token", func() bool {
		return l.start == t && l.Current == specKind(s, t) && l.lastPos == specEnd(s, t)
	})
	verifspec.Ensures("the text", func() bool { return verifspec.Implies(specHasText(s, t), l.CurrentString == specText(s, t)) })
	verifspec.Ensures("the number", func() bool {
		return verifspec.Implies(specHasNumber(s, t), l.CurrentNumeral == s[t:specNumberEnd(s, t)])
	})
}

func contract_NewLexer(source *sources.Source) {
	verifspec.Requires(source != nil && len(source.Lines) == 0)
	s := source.Content
	t := specSkip(s, 0, false, false)
	verifspec.Fresh()
	verifspec.Modifies(&source.Lines)
	verifspec.MayPanic()
	verifspec.EnsuresPanic("only for what is not a token", func() bool { return specEnd(s, t) < 0 })
	verifspec.Ensures("the lexer is valid", func(l *Lexer) bool { return l.source == source && specValid(l) })
	verifspec.Ensures("the first token", func(l *Lexer) bool {
		return l.start == t && l.Current == specKind(s, t) && l.lastPos == specEnd(s, t)
	})
	verifspec.Ensures("the text", func(l *Lexer) bool {
		return verifspec.Implies(specHasText(s, t), l.CurrentString == specText(s, t))
	})
	verifspec.Ensures("the number", func(l *Lexer) bool {
		return verifspec.Implies(specHasNumber(s, t), l.CurrentNumeral == s[t:specNumberEnd(s, t)])
	})
	verifspec.Ensures("skips what is not kept", func(l *Lexer) bool { return !l.RetainWhitespace && !l.RetainComments })
}

func contract_Lexer_TokenSpan(l *Lexer) {
	verifspec.Requires(l != nil)
	verifspec.Ensures("the token", func(r ast.Span) bool { return r.Start == l.start && r.End == l.lastPos })
}

func contract_Lexer_TokenEnd(l *Lexer) {
	verifspec.Requires(l != nil)
	verifspec.Ensures("the end of the token", func(r int) bool { return r == l.lastPos })
}
