package lexer

import (
	"github.com/stephen/cssc/internal/ast"
	"github.com/stephen/cssc/internal/verifspec"
)

func contract_Lexer_nextDelimToken(l *Lexer) {
	verifspec.Requires(l != nil && specValid(l) && l.lastPos < len(l.source.Content))
	s, p, q := l.source.Content, l.lastPos, l.pos
	verifspec.Modifies(&l.ch, &l.pos, &l.lastPos, &l.source.Lines, &l.Current, &l.CurrentString)
	verifspec.Ensures("the lexer is valid", func() bool { return specValid(l) })
	verifspec.Ensures("a delimiter", func() bool { return l.Current == Delim })
	verifspec.Ensures("of one code point", func() bool { return l.lastPos == specNext(s, p) && l.lastPos > p && l.pos >= q })
	verifspec.Ensures("its text", func() bool { return l.CurrentString == s[p:specNext(s, p)] })
}

func contract_Lexer_nextNumericToken(l *Lexer) {
	verifspec.Requires(l != nil && specValid(l))
	s, p, q := l.source.Content, l.lastPos, l.pos
	verifspec.Requires(specNumberAt(s, p))
	verifspec.Modifies(&l.ch, &l.pos, &l.lastPos, &l.source.Lines, &l.Current, &l.CurrentString, &l.CurrentNumeral)
	text := l.CurrentString
	verifspec.Ensures("the lexer is valid", func() bool { return specValid(l) })
	verifspec.Ensures("the kind", func() bool { return l.Current == specNumericKind(s, p) })
	verifspec.Ensures("the end", func() bool { return l.lastPos == specNumericEnd(s, p) && l.lastPos > p && l.pos >= q })
	verifspec.Ensures("the number", func() bool { return l.CurrentNumeral == s[p:specNumberEnd(s, p)] })
	verifspec.Ensures("the unit", func() bool {
		if l.Current != Dimension {
			return l.CurrentString == text
		}
		return l.CurrentString == s[specNumberEnd(s, p):specNumericEnd(s, p)]
	})
}

func contract_Lexer_nextIdentLikeToken(l *Lexer) {
	verifspec.Requires(l != nil && specValid(l))
	s, p, q := l.source.Content, l.lastPos, l.pos
	verifspec.Requires(specIdentAt(s, p))
	verifspec.Use(lemma_ident(s, p))
	verifspec.Modifies(&l.ch, &l.pos, &l.lastPos, &l.source.Lines, &l.Current, &l.CurrentString)
	verifspec.MayPanic()
	verifspec.EnsuresPanic("only for a bad url", func() bool {
		return specIdentKind(s, p) == URL && specURLClose(s, specURLStart(s, p)) < 0
	})
	verifspec.EnsuresPanic("the line table", func() bool { return l.pos >= q && specTable(l) })
	verifspec.Ensures("the lexer is valid", func() bool { return specValid(l) })
	verifspec.Ensures("the kind", func() bool { return l.Current == specIdentKind(s, p) })
	verifspec.Ensures("the end", func() bool { return l.lastPos == specIdentTokenEnd(s, p) && l.lastPos > p && l.pos >= q })
	verifspec.Ensures("the text", func() bool {
		a, b := specIdentText(s, p)
		return l.CurrentString == s[a:b]
	})
	verifspec.Invariant(func() bool { return specValid(l) && l.lastPos > p && l.pos >= q })
	verifspec.Invariant(func(i int) bool { return i <= l.lastPos })
	verifspec.Invariant(func() bool { return specWhiteEnd(s, l.lastPos) == specURLStart(s, p) })
	verifspec.Invariant(func() bool { return specURLClose(s, l.lastPos) == specURLClose(s, specURLStart(s, p)) })
	verifspec.Invariant(func() bool { return specURLTail(s, l.lastPos) == specURLClose(s, specURLStart(s, p)) })
	verifspec.Invariant(func(urlEnd int) bool {
		k := specURLStart(s, p)
		return k <= urlEnd && urlEnd <= l.lastPos && specURLTextEnd(s, urlEnd) == specURLTextEnd(s, k) &&
			(urlEnd == l.lastPos || l.ch == ')' && specIsWhite(specCh(s, urlEnd)))
	})
	verifspec.LoopDecreases(func() int { return len(s) - l.lastPos })
}

func contract_Lexer_LocationErrorf(l *Lexer, span ast.Span, f string, args []interface{}) {
	verifspec.Requires(l != nil && specValid(l))
	verifspec.Requires(0 <= span.Start && span.Start <= span.End && span.End <= len(l.source.Content) && span.Start <= l.pos)
	verifspec.MayPanic()
	q := l.pos
	verifspec.EnsuresPanic("the line table", func() bool { return l.pos == q && specTable(l) })
	verifspec.Ensures("does not return", func() bool { return false })
}

func contract_Lexer_Errorf(l *Lexer, f string, args []interface{}) {
	verifspec.Requires(l != nil && specValid(l))
	verifspec.MayPanic()
	q := l.pos
	verifspec.EnsuresPanic("the line table", func() bool { return l.pos == q && specTable(l) })
	verifspec.Ensures("does not return", func() bool { return false })
}
