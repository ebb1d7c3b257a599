package lexer

import (
	"github.com/stephen/cssc/internal/sources"
	"github.com/stephen/cssc/internal/verifspec"
)

func specMax(a, b int) int {
	if a > b {
		return a
	}
	return b
}

func specLast(xs []int) int {
	if len(xs) == 0 {
		return 0
	}
	return xs[len(xs)-1]
}

// specLinesOK (see also sources.SpecTable): the line table is that of the text up to the furthest point that was read.
func specLinesOK(s string, lines []int, i int) bool {
	verifspec.Hidden()
	return len(lines) > 0 && specLast(lines) <= len(s) && verifspec.SameInts(lines, sources.SpecLines(s, specMax(i, specLast(lines))))
}

// specValid: the lexer has read the code point at lastPos.
func specValid(l *Lexer) bool {
	s := l.source.Content
	return l.source != nil && Illegal <= l.Current && l.Current <= Delim && 0 <= l.lastPos && l.lastPos <= len(s) &&
		l.ch == specCh(s, l.lastPos) && l.pos == specNext(s, l.lastPos) &&
		l.lastPos <= l.pos && l.pos <= len(s) && 0 <= l.start && l.start <= l.lastPos &&
		specLinesOK(s, l.source.Lines, l.pos)
}

// specTable: the line table is right for where the lexer is.
func specTable(l *Lexer) bool {
	return l.source != nil && l.pos <= len(l.source.Content) && specLinesOK(l.source.Content, l.source.Lines, l.pos)
}

// SpecValid: the lexer is at a token.
func SpecValid(l *Lexer) bool { return specValid(l) }

// SpecTable: the line table is right up to pos, and the lexer is there or further.
func SpecTable(l *Lexer, pos int) bool { return l.pos >= pos && specTable(l) }

// SpecPos is how far the lexer has read.
func SpecPos(l *Lexer) int { return l.pos }

// SpecStart is where the token starts.
func SpecStart(l *Lexer) int { return l.start }

// SpecEnd is where the token ends.
func SpecEnd(l *Lexer) int { return l.lastPos }

// SpecSource is the source of the lexer.
func SpecSource(l *Lexer) *sources.Source { return l.source }

// SpecRank decreases with every token.
func SpecRank(l *Lexer) int {
	r := 2 * (len(l.source.Content) - l.lastPos)
	if l.Current != EOF {
		r++
	}
	return r
}

// Lemma_rewind: the line table stays right for a lexer that goes back.
func Lemma_rewind(l *Lexer, i int) bool {
	verifspec.Reveal("specLinesOK")
	verifspec.Requires(l != nil && l.source != nil)
	s := l.source.Content
	verifspec.Requires(0 <= i && i <= l.pos && l.pos <= len(s) && specLinesOK(s, l.source.Lines, l.pos))
	verifspec.Use(sources.Lemma_flat(s, specMax(i, specLast(l.source.Lines)), specMax(l.pos, specLast(l.source.Lines))))
	return specLinesOK(s, l.source.Lines, i)
}

func contract_Lexer_addLine(l *Lexer, start int) {
	verifspec.Requires(l != nil && l.source != nil)
	verifspec.Modifies(&l.source.Lines)
	old := l.source.Lines
	verifspec.Ensures("the line is in the table once", func() bool {
		if len(old) > 0 && specLast(old) >= start {
			return verifspec.SameInts(l.source.Lines, old)
		}
		return verifspec.SameInts(l.source.Lines, append(old, start))
	})
}

func contract_Lexer_step(l *Lexer) {
	verifspec.Requires(l != nil && l.source != nil && 0 <= l.pos && l.pos <= len(l.source.Content) && Illegal <= l.Current && l.Current <= Delim)
	verifspec.Reveal("specLinesOK")
	s := l.source.Content
	verifspec.Requires(len(l.source.Lines) == 0 && l.pos == 0 || specLinesOK(s, l.source.Lines, l.pos))
	verifspec.Modifies(&l.ch, &l.pos, &l.lastPos, &l.source.Lines)
	pos := l.pos
	verifspec.Ensures("reads the code point at pos", func() bool { return l.lastPos == pos })
	verifspec.Ensures("the lexer is valid", func() bool { return verifspec.Implies(0 <= l.start && l.start <= pos, specValid(l)) })
	verifspec.Fuel(5)
}

func contract_Lexer_peek(l *Lexer, i int) {
	verifspec.Requires(l != nil && l.source != nil && 0 <= l.pos && l.pos <= len(l.source.Content) && 0 <= i)
	p := l.pos + i
	s := l.source.Content
	verifspec.Ensures("the code point there", func(r rune) bool { return r == specCh(s, p) })
}
