package sources

import (
	"github.com/stephen/cssc/internal/ast"
	"github.com/stephen/cssc/internal/verifspec"
)

func contract_Source_LineAndCol(s *Source, loc ast.Span) {
	verifspec.Requires(s != nil && 0 <= loc.Start && loc.Start < 1<<31-2 && len(s.Content) < 1<<31-2)
	n := specMax(loc.Start, specLast(s.Lines))
	verifspec.Requires(SpecTable(s, loc.Start))
	verifspec.Use(lemma_first(s.Content, n))
	verifspec.Use(lemma_linesLen(s.Content, n))
	verifspec.Ensures("the line", func(line, col int32) bool {
		return verifspec.Use(lemma_search(s.Content, n, loc.Start, int(line))) && int(line) == SpecLine(s.Content, loc.Start)
	})
	verifspec.Ensures("the line in the table", func(line, col int32) bool {
		return verifspec.Use(lemma_search(s.Content, n, loc.Start, int(line))) && 1 <= line && int(line) <= len(s.Lines) &&
			s.Lines[int(line)-1] == SpecLineStart(s.Content, loc.Start)
	})
	verifspec.Ensures("the column", func(line, col int32) bool {
		return verifspec.Use(lemma_search(s.Content, n, loc.Start, int(line))) && verifspec.Use(lemma_lineStart(s.Content, loc.Start)) &&
			col >= 1 && int(col) == loc.Start-SpecLineStart(s.Content, loc.Start)+1
	})
	verifspec.Ensures("not past the offset", func(line, col int32) bool {
		return verifspec.Use(lemma_search(s.Content, n, loc.Start, int(line))) && verifspec.Use(lemma_linesLen(s.Content, loc.Start)) &&
			verifspec.Use(lemma_lineStart(s.Content, loc.Start)) && int(line) <= loc.Start+1 && int(col) <= loc.Start+1
	})
}

func contract_Source_FullLine(s *Source, loc ast.Span) {
	verifspec.Requires(s != nil && 0 <= loc.Start && loc.Start <= len(s.Content) && len(s.Content) < 1<<31-2)
	n := specMax(loc.Start, specLast(s.Lines))
	verifspec.Requires(SpecTable(s, loc.Start))
	verifspec.Use(lemma_first(s.Content, n))
	verifspec.Use(lemma_linesLen(s.Content, n))
	verifspec.Ensures("the start of the line", func(r ast.Span) bool {
		return r.Start == SpecLineStart(s.Content, loc.Start)
	})
	verifspec.Ensures("the end of the line", func(r ast.Span) bool { return r.End == SpecLineEnd(s.Content, loc.Start) })
	verifspec.Ensures("has the offset", func(r ast.Span) bool {
		return verifspec.Use(lemma_lineEnd(s.Content, loc.Start)) && verifspec.Use(lemma_lineStart(s.Content, loc.Start)) &&
			0 <= r.Start && r.Start <= loc.Start && loc.Start <= r.End && r.End <= len(s.Content)
	})
	verifspec.Invariant(func(i int) bool { return SpecLineEnd(s.Content, loc.Start+i) == SpecLineEnd(s.Content, loc.Start) })
}

func specMax(a, b int) int {
	if a > b {
		return a
	}
	return b
}
