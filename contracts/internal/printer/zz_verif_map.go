package printer

import (
	"encoding/base64"
	"encoding/json"

	"github.com/stephen/cssc/internal/ast"
	"github.com/stephen/cssc/internal/sources"
	"github.com/stephen/cssc/internal/verifspec"
)

// specState is where the mappings are: their text, how much of the output they cover, and the last
// mapping (the column in the output, the line and column in the source, all from 0).
type specState struct {
	text   string
	upTo   int
	column int
	line   int
	source int
}

func specStateOf(p *printer) specState {
	return specState{p.sourceMappings.String(), p.lastWritten, int(p.lastMappingState.generatedColumn), int(p.lastMappingState.originalLine), int(p.lastMappingState.originalColumn)}
}

// specBreaks has a semicolon for every line feed in s from i on.
func specBreaks(s string, i int) string {
	if i < 0 || i >= len(s) {
		return ""
	}
	if verifspec.RuneAt(s, i) == '\n' {
		return ";" + specBreaks(s, i+verifspec.RuneWidth(s, i))
	}
	return specBreaks(s, i+verifspec.RuneWidth(s, i))
}

// specColumn is the column, in code points, at the end of s if it is col at i.
func specColumn(s string, i, col int) int {
	if i < 0 || i >= len(s) {
		return col
	}
	if verifspec.RuneAt(s, i) == '\n' {
		return specColumn(s, i+verifspec.RuneWidth(s, i), 0)
	}
	return specColumn(s, i+verifspec.RuneWidth(s, i), col+1)
}

func specNumber(x int) string { return string(specVLQ(specSigned(x))) }

// specSegment is the mappings after one of the end of the output so far to offset start of source.
func specSegment(source string, start int, output string, st specState) specState {
	verifspec.Opaque()
	rest := output[st.upTo:]
	breaks := specBreaks(rest, 0)
	column := specColumn(rest, 0, st.column)
	before := st.column
	if len(breaks) > 0 {
		before = 0
	}
	line, col := sources.SpecLine(source, start)-1, start-sources.SpecLineStart(source, start)
	text := st.text + breaks
	if len(output) > 0 && text[len(text)-1] != ';' {
		text = text + ","
	}
	text = text + specNumber(column-before) + specNumber(0) + specNumber(line-st.line) + specNumber(col-st.source)
	return specState{text, len(output), column, line, col}
}

const specMost = 1<<30 - 1 // one more than ast.SpecMost

func specStateOK(p *printer) bool {
	s := specStateOf(p)
	return 0 <= s.upTo && s.upTo <= p.s.Len() && 0 <= s.column && s.column <= s.upTo && 0 <= s.line && s.line < specMost && 0 <= s.source && s.source < specMost
}

func contract_printer_addMapping(p *printer, loc ast.Span) {
	verifspec.Requires(p != nil)
	src := p.options.OriginalSource
	verifspec.Requires(src == nil || 0 <= loc.Start && loc.Start < specMost && len(src.Content) < specMost && sources.SpecWhole(src))
	verifspec.Use(src == nil || sources.Lemma_whole(src, loc.Start))
	verifspec.Requires(src == nil || specStateOK(p) && p.s.Len() < specMost && (p.s.Len() == 0 || p.sourceMappings.Len() > 0))
	verifspec.Modifies(&p.sourceMappings, &p.lastWritten, &p.lastMappingState)
	old := specStateOf(p)
	content := src.Content
	out := p.s.String()
	rest := out[old.upTo:]
	verifspec.Ensures("nothing without a source", func() bool { return verifspec.Implies(src == nil, specStateOf(p) == old) })
	verifspec.Ensures("the mapping", func() bool {
		return verifspec.Implies(src != nil, specStateOf(p) == specSegment(content, loc.Start, out, old))
	})
	verifspec.Ensures("valid state", func() bool {
		return verifspec.Implies(src != nil, specStateOK(p))
	})
	verifspec.Ensures("something", func() bool { return verifspec.Implies(src != nil, p.sourceMappings.Len() > 0) })
	verifspec.Invariant(func(i int, n mappingState) bool {
		return specColumn(rest, i, int(n.generatedColumn)) == specColumn(rest, 0, old.column) && n.generatedColumn >= 0 && int(n.generatedColumn) <= old.column+i
	})
	verifspec.Invariant(func(i int) bool {
		return p.sourceMappings.String()+specBreaks(rest, i) == old.text+specBreaks(rest, 0)
	})
	verifspec.Invariant(func(i int) bool {
		g := int(p.lastMappingState.generatedColumn)
		return g == old.column && p.sourceMappings.String() == old.text || g == 0 && p.sourceMappings.Len() > len(old.text)
	})
}


// specFits: text can be printed.
func specFits(p *printer, text string) bool {
	src := p.options.OriginalSource
	return specStateOK(p) && len(src.Content) < specMost && sources.SpecWhole(src) && p.s.Len()+len(text) < specMost &&
		(p.s.Len() == 0 || p.sourceMappings.Len() > 0)
}

func specRule(in ast.Node) bool {
	switch in.(type) {
	case *ast.AtRule, *ast.QualifiedRule:
		return true
	}
	return false
}

// specPlain: there can be no rules inside.
func specPlain(in ast.Node) bool {
	switch in.(type) {
	case *ast.Stylesheet, *ast.AtRule, *ast.QualifiedRule, *ast.QualifiedRuleBlock:
		return false
	}
	return true
}

// specFirst: what is printed begins with a rule.
func specFirst(in ast.Node) bool {
	verifspec.Opaque()
	if n, ok := in.(*ast.Stylesheet); ok {
		return specRules1(n.Nodes, 0)
	}
	return specRule(in)
}

func specRules1(xs []ast.Node, i int) bool {
	return i < 0 || i >= len(xs) || specRule(xs[i]) && specRules1(xs, i+1)
}

func specFirstFrom(in ast.Node, mapped bool, i int) bool {
	if n, ok := in.(*ast.Stylesheet); ok {
		return mapped || specRules1(n.Nodes, i)
	}
	return true
}

// specMapNode is the state after printing a node when output has been printed before and the state
// is st.
func specMapNode(in ast.Node, source, output string, st specState) specState {
	verifspec.ByType()
	switch n := in.(type) {
	case *ast.Stylesheet:
		return specMapNodes(n.Nodes, 0, source, output, st)
	case *ast.AtRule:
		st := specSegment(source, n.Start, output, st)
		if n.Block == nil {
			return st
		}
		if len(n.Preludes) > 0 {
			return specMapNode(n.Block, source, output+"@"+n.Name+" "+specPreludes(n.Preludes, 0)+"{", st)
		}
		return specMapNode(n.Block, source, output+"@"+n.Name+"{", st)
	case *ast.QualifiedRule:
		return specMapNode(n.Block, source, output+specText(n.Prelude)+"{", specSegment(source, n.Start, output, st))
	case *ast.QualifiedRuleBlock:
		return specMapRules(n.Rules, 0, source, output, st)
	}
	return st
}

func specMapNodes(xs []ast.Node, i int, source, output string, st specState) specState {
	if i < 0 || i >= len(xs) {
		return st
	}
	return specMapNodes(xs, i+1, source, output+specText(xs[i]), specMapNode(xs[i], source, output, st))
}

func specMapRules(xs []*ast.QualifiedRule, i int, source, output string, st specState) specState {
	if i < 0 || i >= len(xs) {
		return st
	}
	return specMapRules(xs, i+1, source, output+specText(xs[i]), specMapNode(xs[i], source, output, st))
}

// specMapFrom is the state after printing the elements of the list in a node from the i-th on.
func specMapFrom(in ast.Node, i int, source, output string, st specState) specState {
	switch n := in.(type) {
	case *ast.Stylesheet:
		return specMapNodes(n.Nodes, i, source, output, st)
	case *ast.QualifiedRuleBlock:
		return specMapRules(n.Rules, i, source, output, st)
	}
	return st
}

// specHere is the state after the mapping of the node itself.
func specHere(in ast.Node, source, output string, st specState) specState {
	switch n := in.(type) {
	case *ast.AtRule:
		return specSegment(source, n.Start, output, st)
	case *ast.QualifiedRule:
		return specSegment(source, n.Start, output, st)
	}
	return st
}

// specComment has the source map: the content of the source, and the mappings.
func specComment(src *sources.Source, mappings string) string {
	if src == nil {
		return ""
	}
	path, _ := json.Marshal(src.Path)
	content, _ := json.Marshal(src.Content)
	text := "{\"version\": 3,\"file\":" + string(path) + ",\"sourceRoot\":\"\", \"sources\": [\"source.css\"], \"sourcesContent\":[" +
		string(content) + "],\"names\":[],\"mappings\":\"" + mappings + "\"}"
	return "\n/*# sourceMappingURL=data:application/json;base64," + base64.StdEncoding.EncodeToString([]byte(text)) + " */\n"
}

func contract_printer_printMapping(p *printer) {
	verifspec.Requires(p != nil)
	verifspec.Modifies(&p.s)
	old := p.s.String()
	verifspec.Ensures("the source map", func() bool {
		return p.s.String() == old+specComment(p.options.OriginalSource, p.sourceMappings.String())
	})
}

func contract_Print(in ast.Node, opts Options) {
	src := opts.OriginalSource
	verifspec.Requires(in != nil)
	verifspec.Requires(src == nil || specFirst(in) && len(specText(in)) < specMost && len(src.Content) < specMost && sources.SpecWhole(src))
	verifspec.Ensures("the text of the tree, and the source map", func(output string, err error) bool {
		content := src.Content
		return err == nil && output == specText(in)+specComment(src, specMapNode(in, content, "", specState{}).text)
	})
}

// lemma_fields: the four numbers of a mapping can be read back from where it begins, whatever is
// around it.
func lemma_fields(before []byte, a, b, c, d int, after []byte) bool {
	va, vb, vc, vd := specVLQ(specSigned(a)), specVLQ(specSigned(b)), specVLQ(specSigned(c)), specVLQ(specSigned(d))
	s := append(append(append(append(append(before, va...), vb...), vc...), vd...), after...)
	verifspec.Use(lemma_readWritten(before, specSigned(a), append(append(append(vb, vc...), vd...), after...)))
	verifspec.Use(lemma_readWritten(append(before, va...), specSigned(b), append(append(vc, vd...), after...)))
	verifspec.Use(lemma_readWritten(append(append(before, va...), vb...), specSigned(c), append(vd, after...)))
	verifspec.Use(lemma_readWritten(append(append(append(before, va...), vb...), vc...), specSigned(d), after))
	i := len(before)
	j := i + specReadLen(s, i)
	k := j + specReadLen(s, j)
	l := k + specReadLen(s, k)
	return specUnsigned(specRead(s, i)) == a && specUnsigned(specRead(s, j)) == b && specUnsigned(specRead(s, k)) == c &&
		specUnsigned(specRead(s, l)) == d && l+specReadLen(s, l) == len(s)-len(after)
}
