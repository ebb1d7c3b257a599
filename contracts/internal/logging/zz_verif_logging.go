package logging

import (
	"strconv"
	"strings"

	"github.com/stephen/cssc/internal/ast"
	"github.com/stephen/cssc/internal/sources"
	"github.com/stephen/cssc/internal/verifspec"
)

// specAnnotation is the quoted line and the underlined part of it.
func specAnnotation(source *sources.Source, span ast.Span) string {
	start, end := sources.SpecLineStart(source.Content, span.Start), sources.SpecLineEnd(source.Content, span.Start)
	line := source.Content[start:end]
	indent := strings.Repeat(" ", span.Start-start+strings.Count(line, "\t"))
	if span.End > end {
		return "\t" + strings.ReplaceAll(line, "\t", "  ") + "\n\t" + indent + strings.Repeat("~", end-span.Start) + ">"
	}
	return "\t" + strings.ReplaceAll(line, "\t", "  ") + "\n\t" + indent + strings.Repeat("~", span.End-span.Start)
}

func contract_AnnotateSourceSpan(source *sources.Source, span ast.Span) {
	verifspec.Requires(source != nil && len(source.Content) < 1<<31-2)
	verifspec.Requires(0 <= span.Start && span.Start <= span.End && span.End <= len(source.Content))
	verifspec.Requires(sources.SpecTable(source, span.Start))
	verifspec.Ensures("the annotated line", func(r string) bool { return r == specAnnotation(source, span) })
}

func contract_LocationErrorf(source *sources.Source, span ast.Span, f string, args []interface{}) {
	verifspec.Ensures("the place", func(r error) bool {
		e, ok := r.(*locationError)
		return ok && e.Source == source && e.Span == span && !e.warning && e.inner != nil
	})
}

func contract_LocationWarnf(source *sources.Source, span ast.Span, f string, args []interface{}) {
	verifspec.Ensures("the place", func(r error) bool {
		e, ok := r.(*locationError)
		return ok && e.Source == source && e.Span == span && e.warning && e.inner != nil
	})
}

func contract_locationError_Error(l *locationError) {
	verifspec.Requires(l != nil && l.inner != nil && l.Source != nil && len(l.Source.Content) < 1<<31-2)
	verifspec.Requires(0 <= l.Span.Start && l.Span.Start <= l.Span.End && l.Span.End <= len(l.Source.Content))
	verifspec.Requires(sources.SpecTable(l.Source, l.Span.Start))
	verifspec.Ensures("path, line, column, message and the annotated line", func(r string) bool {
		s := l.Source
		line, col := sources.SpecLine(s.Content, l.Span.Start), l.Span.Start-sources.SpecLineStart(s.Content, l.Span.Start)+1
		return r == s.Path+":"+strconv.Itoa(line)+":"+strconv.Itoa(col)+"\n"+l.inner.Error()+":\n"+specAnnotation(s, l.Span)
	})
}

// SpecErrors is how many problems have been reported.
func SpecErrors(r Reporter) int { return verifspec.Ghost(r, "errors") }

// Reporters are the caller's: this is what is assumed of them.
func contract_Reporter_AddError(r Reporter, err error) {
	verifspec.Requires(err != nil)
	n := SpecErrors(r)
	verifspec.ModifiesField("ghost:errors")
	verifspec.Ensures("counted", func() bool { return SpecErrors(r) == n+1 })
}
