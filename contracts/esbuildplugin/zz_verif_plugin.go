package esbuildplugin

import (
	"errors"

	"github.com/evanw/esbuild/pkg/api"
	"github.com/stephen/cssc/internal/sources"
	"github.com/stephen/cssc/internal/verifspec"
)

// specMessage is what a message says.
type specMessage struct {
	text      string
	located   bool
	file      string
	namespace string
	line      int
	column    int
	length    int
	lineText  string
}

// specWant is the message for an error.
func specWant(err error) specMessage {
	var located locationError
	if !errors.As(err, &located) {
		return specMessage{text: err.Error()}
	}
	source, span := located.Location()
	start, end := sources.SpecLineStart(source.Content, span.Start), sources.SpecLineEnd(source.Content, span.Start)
	length := span.End - span.Start
	if length > end-span.Start {
		length = end - span.Start
	}
	return specMessage{err.Error(), true, source.Path, "", sources.SpecLine(source.Content, span.Start), span.Start - start, length, source.Content[start:end]}
}

// specWants is the messages for errors.
func specWants(errs []error) []specMessage {
	n := len(errs) - 1
	if n < 0 {
		return nil
	}
	return append(specWants(errs[:n]), specWant(errs[n]))
}

// specSaid is what a message says.
func specSaid(m api.Message) specMessage {
	if m.Location == nil {
		return specMessage{text: m.Text}
	}
	l := m.Location
	return specMessage{m.Text, true, l.File, l.Namespace, l.Line, l.Column, l.Length, l.LineText}
}

// specSays is what messages say.
func specSays(ms []api.Message) []specMessage {
	n := len(ms) - 1
	if n < 0 {
		return nil
	}
	return append(specSays(ms[:n]), specSaid(ms[n]))
}

// specReported is the errors that were reported.
func specReported(r *csscReporter) []error { return *r }

// lemma_located is what is assumed of errors with a place: that it is one in their source.
func lemma_located(l locationError) bool {
	verifspec.Trusted("errors with a location have one in their source, up to which it has been lexed")
	source, span := l.Location()
	return source != nil && 0 <= span.Start && span.Start <= span.End && span.End <= len(source.Content) && len(source.Content) < 1<<31-2 &&
		sources.SpecTable(source, span.Start)
}

// lemma_reported is what is assumed of the errors that are reported.
func lemma_reported(err error) bool {
	verifspec.Trusted("the compiler reports no nil errors")
	return err != nil
}

func contract_csscReporter_toEsbuild(r *csscReporter) {
	verifspec.Requires(r != nil)
	errs := specReported(r)
	verifspec.Invariant(func(i int, ms []api.Message) bool {
		return verifspec.Same(specSays(ms), specWants(errs[:i]))
	})
	verifspec.Invariant(func(i int, ms []api.Message) bool {
		return verifspec.Same(specSays(ms), specWants(errs[:i+1]))
	})
	verifspec.Invariant(func(i int) bool {
		return i+1 < 0 || i+1 >= len(errs) || verifspec.Use(lemma_reported(errs[i+1]))
	})
	verifspec.At("LineAndCol", func(l locationError) bool { return lemma_located(l) })
	verifspec.At("FullLine", func(l locationError) bool { return lemma_located(l) })
	verifspec.Ensures("one message for each error, in order, with its place", func(ms []api.Message) bool {
		return verifspec.Same(specSays(ms), specWants(errs))
	})
}

func contract_csscReporter_AddError(r *csscReporter, err error) {
	verifspec.Requires(r != nil)
	old := specReported(r)
	verifspec.Modifies(r)
	verifspec.Ensures("the error is the last one", func() bool { return verifspec.Same(specReported(r), append(old, err)) })
}
