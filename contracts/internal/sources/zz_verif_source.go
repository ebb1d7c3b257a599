package sources

import (
	"github.com/stephen/cssc/internal/verifspec"
)

// SpecLines is the line starts up to offset i: a line begins at 0 and after every line feed.
func SpecLines(s string, i int) []int {
	if i <= 0 {
		return []int{0}
	}
	if i > len(s) {
		return SpecLines(s, len(s))
	}
	if s[i-1] == '\n' {
		return append(SpecLines(s, i-1), i)
	}
	return SpecLines(s, i-1)
}

func specLast(xs []int) int {
	if len(xs) == 0 {
		return 0
	}
	return xs[len(xs)-1]
}

// specLine is the line that offset i is on: one more than there are line feeds before it.
func SpecLine(s string, i int) int {
	verifspec.Opaque()
	return len(SpecLines(s, i))
}

// SpecLineStart is where that line begins.
func SpecLineStart(s string, i int) int {
	verifspec.Opaque()
	return specLast(SpecLines(s, i))
}

// SpecLineEnd is where the line that i is on ends.
func SpecLineEnd(s string, i int) int {
	if i < 0 || i >= len(s) || s[i] == '\n' {
		return i
	}
	return SpecLineEnd(s, i+1)
}

// Line starts are in the text, and the last one is the start of the line.
func lemma_lines(s string, n, k int) bool {
	verifspec.Requires(0 <= n && 0 <= k && k < len(SpecLines(s, n)))
	verifspec.Decreases(n)
	if n > 0 && k < len(SpecLines(s, n-1)) {
		verifspec.Use(lemma_lines(s, n-1, k))
	}
	return 0 <= SpecLines(s, n)[k] && SpecLines(s, n)[k] <= n
}

func lemma_linesLen(s string, n int) bool {
	verifspec.Decreases(n)
	if n > len(s) {
		verifspec.Use(lemma_linesLen(s, len(s)))
	} else if n > 0 {
		verifspec.Use(lemma_linesLen(s, n-1))
	}
	return len(SpecLines(s, n)) >= 1 && (n < 0 || len(SpecLines(s, n)) <= n+1)
}

// Lemma_flat: the table does not change after its last line starts.
func Lemma_flat(s string, a, b int) bool {
	verifspec.Requires(0 <= a && a <= b && b <= len(s) && specLast(SpecLines(s, b)) <= a)
	verifspec.Decreases(b)
	verifspec.Use(lemma_linesLen(s, b))
	if a < b {
		verifspec.Use(Lemma_flat(s, a, b-1))
	}
	return verifspec.SameInts(SpecLines(s, a), SpecLines(s, b))
}

// The place where an offset falls among the line starts is its line.
func lemma_search(s string, n, i, r int) bool {
	verifspec.Requires(0 <= i && i <= n && 0 <= r && r <= len(SpecLines(s, n)))
	verifspec.Requires(r == 0 || SpecLines(s, n)[r-1] <= i)
	verifspec.Requires(r == len(SpecLines(s, n)) || i < SpecLines(s, n)[r])
	verifspec.Decreases(n)
	verifspec.Use(lemma_linesLen(s, n))
	if r < len(SpecLines(s, n)) {
		verifspec.Use(lemma_lines(s, n, r))
	}
	if r == 0 {
		verifspec.Use(lemma_first(s, n))
	}
	if i < n {
		verifspec.Use(lemma_linesLen(s, n-1))
		if r <= len(SpecLines(s, n-1)) {
			verifspec.Use(lemma_search(s, n-1, i, r))
		}
	}
	return r >= 1 && r == SpecLine(s, i) && SpecLines(s, n)[r-1] == SpecLineStart(s, i)
}

func lemma_first(s string, n int) bool {
	verifspec.Decreases(n)
	verifspec.Use(lemma_linesLen(s, n))
	if n > len(s) {
		verifspec.Use(lemma_first(s, len(s)))
	} else if n > 0 {
		verifspec.Use(lemma_first(s, n-1))
		verifspec.Use(lemma_linesLen(s, n-1))
	}
	return len(SpecLines(s, n)) >= 1 && SpecLines(s, n)[0] == 0
}

func lemma_lineEnd(s string, i int) bool {
	verifspec.Requires(0 <= i && i <= len(s))
	verifspec.Decreases(len(s) - i)
	if i < len(s) {
		verifspec.Use(lemma_lineEnd(s, i+1))
	}
	return i <= SpecLineEnd(s, i) && SpecLineEnd(s, i) <= len(s)
}

func lemma_lineStart(s string, i int) bool {
	verifspec.Requires(0 <= i)
	verifspec.Use(lemma_linesLen(s, i))
	verifspec.Use(lemma_lines(s, i, len(SpecLines(s, i))-1))
	return 0 <= SpecLineStart(s, i) && SpecLineStart(s, i) <= i
}

// SpecTable: the line table is that of the text up to i at least.
func SpecTable(s *Source, i int) bool {
	n := specMax(i, specLast(s.Lines))
	return specLast(s.Lines) <= len(s.Content) && verifspec.SameInts(s.Lines, SpecLines(s.Content, n))
}

// A table of more lines has the same lines where they overlap.
func lemma_table(s string, i, j int) bool {
	verifspec.Requires(0 <= i && i <= j)
	verifspec.Decreases(j)
	verifspec.Use(lemma_lineStart(s, j))
	if j > i {
		verifspec.Use(lemma_table(s, i, j-1))
	}
	return verifspec.SameInts(SpecLines(s, j), SpecLines(s, specMax(i, specLast(SpecLines(s, j)))))
}

// SpecWhole: the line table is that of the whole text.
func SpecWhole(s *Source) bool {
	return verifspec.SameInts(s.Lines, SpecLines(s.Content, len(s.Content)))
}

func Lemma_whole(s *Source, i int) bool {
	verifspec.Requires(s != nil && i >= 0 && SpecWhole(s))
	n := len(s.Content)
	verifspec.Use(lemma_lineStart(s.Content, n))
	verifspec.Use(lemma_first(s.Content, n))
	if i <= n {
		verifspec.Use(lemma_table(s.Content, i, n))
	}
	return SpecTable(s, i)
}
