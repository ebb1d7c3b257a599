package lexer

import "github.com/stephen/cssc/internal/verifspec"

// specSame: what the small steps leave alone.
func specFrom(l *Lexer) (string, int) { return l.source.Content, l.lastPos }

func contract_Lexer_nextEscaped(l *Lexer) {
	verifspec.Requires(l != nil && specValid(l))
	s, p, q := l.source.Content, l.lastPos, l.pos
	verifspec.Requires(l.ch == '\\')
	verifspec.Fuel(9)
	verifspec.Modifies(&l.ch, &l.pos, &l.lastPos, &l.source.Lines)
	verifspec.Ensures("the lexer is valid", func() bool { return specValid(l) })
	verifspec.Ensures("the escape is consumed", func() bool { return l.lastPos == specEscapeEnd(s, p) })
	verifspec.Ensures("progress", func() bool { return l.lastPos > p && l.pos >= q })
	verifspec.Invariant(func(i int) bool {
		return i <= 6 && l.lastPos > p && l.pos >= q && specHexEnd(s, l.lastPos, 6-i) == specHexEnd(s, p+1, 6)
	})
	verifspec.Invariant(func() bool { return specValid(l) })
}

func contract_Lexer_nextName(l *Lexer) {
	verifspec.Requires(l != nil && specValid(l))
	s, p, q := l.source.Content, l.lastPos, l.pos
	verifspec.Modifies(&l.ch, &l.pos, &l.lastPos, &l.source.Lines)
	verifspec.Ensures("the lexer is valid", func() bool { return specValid(l) })
	verifspec.Ensures("the name is consumed", func() bool { return l.lastPos == specNameEnd(s, p) })
	verifspec.Ensures("forward", func() bool { return l.lastPos >= p && l.pos >= q })
	verifspec.Invariant(func() bool { return specValid(l) && l.lastPos >= p && l.pos >= q })
	verifspec.Invariant(func() bool { return specNameEnd(s, l.lastPos) == specNameEnd(s, p) })
	verifspec.LoopDecreases(func() int { return len(s) - l.lastPos })
}

func lemma_hexEnd(s string, i, n int) bool {
	verifspec.Decreases(len(s) - i)
	if 0 <= i && i < len(s) {
		verifspec.Use(lemma_hexEnd(s, i+1, n-1))
	}
	return specHexEnd(s, i, n) >= i && (specHexEnd(s, i, n) <= len(s) || i > len(s))
}

func lemma_next(s string, i int) bool {
	if 0 <= i && i < len(s) {
		return specNext(s, i) > i && specNext(s, i) <= len(s)
	}
	return specNext(s, i) == i
}

func lemma_escapeEnd(s string, i int) bool {
	verifspec.Requires(0 <= i && i < len(s))
	verifspec.Use(lemma_next(s, i+1))
	verifspec.Use(lemma_hexEnd(s, i+1, 6))
	verifspec.Use(lemma_next(s, specHexEnd(s, i+1, 6)))
	return specEscapeEnd(s, i) > i && specEscapeEnd(s, i) <= len(s)
}

func lemma_nameEnd(s string, i int) bool {
	verifspec.Requires(0 <= i)
	verifspec.Decreases(len(s) - i)
	if i < len(s) {
		verifspec.Use(lemma_next(s, i))
		verifspec.Use(lemma_escapeEnd(s, i))
		verifspec.Use(lemma_nameEnd(s, specNext(s, i)))
		verifspec.Use(lemma_nameEnd(s, specEscapeEnd(s, i)))
	}
	return specNameEnd(s, i) >= i && (specNameEnd(s, i) <= len(s) || i > len(s))
}

// What starts an identifier has a name.
func lemma_ident(s string, i int) bool {
	verifspec.Requires(0 <= i && specIdentAt(s, i))
	verifspec.Use(lemma_next(s, i))
	verifspec.Use(lemma_escapeEnd(s, i))
	verifspec.Use(lemma_nameEnd(s, specNext(s, i)))
	verifspec.Use(lemma_nameEnd(s, specEscapeEnd(s, i)))
	return specNameEnd(s, i) > i
}

// A run of digits does not end before it starts.
func lemma_digitsEnd(s string, i int) bool {
	verifspec.Decreases(len(s) - i)
	if 0 <= i && i < len(s) {
		verifspec.Use(lemma_digitsEnd(s, i+1))
	}
	return specDigitsEnd(s, i) >= i
}

func lemma_fractionEnd(s string, i int) bool {
	verifspec.Use(lemma_digitsEnd(s, i+2))
	return specFractionEnd(s, i) >= i
}

func lemma_exponentEnd(s string, i int) bool {
	verifspec.Use(lemma_digitsEnd(s, i+2))
	verifspec.Use(lemma_digitsEnd(s, i+3))
	return specExponentEnd(s, i) >= i
}

// A number has at least one code point.
func lemma_number(s string, p int) bool {
	verifspec.Requires(0 <= p && specNumberAt(s, p))
	i := p
	if specCh(s, p) == '+' || specCh(s, p) == '-' {
		i = p + 1
	}
	verifspec.Use(lemma_digitsEnd(s, i))
	verifspec.Use(lemma_digitsEnd(s, i+1))
	j := specDigitsEnd(s, i)
	verifspec.Use(lemma_fractionEnd(s, j))
	verifspec.Use(lemma_digitsEnd(s, j+2))
	verifspec.Use(lemma_exponentEnd(s, specFractionEnd(s, j)))
	return specNumberEnd(s, p) > p
}

func contract_Lexer_nextNumber(l *Lexer) {
	verifspec.Requires(l != nil && specValid(l))
	s, p, q := l.source.Content, l.lastPos, l.pos
	verifspec.Requires(specNumberAt(s, p))
	verifspec.Use(lemma_number(s, p))
	verifspec.Modifies(&l.ch, &l.pos, &l.lastPos, &l.source.Lines)
	verifspec.Ensures("the lexer is valid", func() bool { return specValid(l) })
	verifspec.Ensures("the number is consumed", func() bool { return l.lastPos == specNumberEnd(s, p) })
	verifspec.Ensures("progress", func() bool { return l.lastPos > p && l.pos >= q })
	verifspec.Invariant(func() bool { return specValid(l) && l.lastPos >= p && l.pos >= q })
	verifspec.Invariant(func() bool {
		return specExponentEnd(s, specFractionEnd(s, specDigitsEnd(s, l.lastPos))) == specNumberEnd(s, p)
	})
	verifspec.Invariant(func() bool { return specExponentEnd(s, specDigitsEnd(s, l.lastPos)) == specNumberEnd(s, p) })
	verifspec.Invariant(func() bool { return specDigitsEnd(s, l.lastPos) == specNumberEnd(s, p) })
	verifspec.LoopDecreases(func() int { return len(s) - l.lastPos })
}
