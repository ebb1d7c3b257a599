package parser

import (
	"github.com/stephen/cssc/internal/ast"
	"github.com/stephen/cssc/internal/lexer"
	"github.com/stephen/cssc/internal/sources"
	"github.com/stephen/cssc/internal/verifspec"
)

// specReady: the parser is at a token of its source.
func specReady(p *parser) bool {
	return p != nil && p.ss != nil && p.source != nil && p.lexer != nil && lexer.SpecSource(p.lexer) == p.source &&
		lexer.SpecValid(p.lexer) && len(p.source.Content) < ast.SpecMost
}

// specReads is what reading tokens changes.
func specReads() {
	verifspec.ModifiesField("lexer.Lexer.ch")
	verifspec.ModifiesField("lexer.Lexer.pos")
	verifspec.ModifiesField("lexer.Lexer.lastPos")
	verifspec.ModifiesField("lexer.Lexer.start")
	verifspec.ModifiesField("lexer.Lexer.Current")
	verifspec.ModifiesField("lexer.Lexer.CurrentString")
	verifspec.ModifiesField("lexer.Lexer.CurrentNumeral")
	verifspec.ModifiesField("sources.Source.Lines")
}

// specParses is what all functions have in common that read tokens. They end because no loop and
// no recursion is without a token (see lexer.SpecRank), they are never behind where they started,
// and give up only with a *lexer.Error.
func specParses(p *parser) {
	verifspec.Requires(specReady(p))
	specReads()
	verifspec.MayPanic()
	pos, end, rank := lexer.SpecPos(p.lexer), lexer.SpecEnd(p.lexer), lexer.SpecRank(p.lexer)
	verifspec.Ensures("at a token", func() bool { return specReady(p) })
	verifspec.Ensures("forward", func() bool {
		return lexer.SpecPos(p.lexer) >= pos && lexer.SpecEnd(p.lexer) >= end && lexer.SpecRank(p.lexer) <= rank
	})
	verifspec.Invariant(func() bool {
		return specReady(p) && lexer.SpecPos(p.lexer) >= pos && lexer.SpecEnd(p.lexer) >= end && lexer.SpecRank(p.lexer) <= rank
	})
	verifspec.Invariant(func() bool { return lexer.SpecRank(p.lexer) < rank })
	verifspec.LoopDecreases(func() int { return lexer.SpecRank(p.lexer) })
}

// specReadsToken: something is read.
func specReadsToken(p *parser) {
	specParses(p)
	rank := lexer.SpecRank(p.lexer)
	verifspec.Ensures("progress", func() bool { return lexer.SpecRank(p.lexer) < rank })
}

// specStops: the line table is that of the source if the function gives up.
func specStops(p *parser) {
	old, pos := p.lexer, lexer.SpecPos(p.lexer)
	verifspec.EnsuresPanic("the line table", func() bool {
		return lexer.SpecSource(old) == p.source && lexer.SpecTable(old, pos)
	})
}

func contract_parser_parseValue(p *parser) {
	specParses(p)
	specStops(p)
	rank, cur := lexer.SpecRank(p.lexer), p.lexer.Current
	verifspec.Decreases(rank, 0)
	verifspec.Ensures("progress", func(r ast.Value) bool { return r == nil || lexer.SpecRank(p.lexer) < rank })
	verifspec.Ensures("an identifier", func(r ast.Value) bool {
		if cur != lexer.Ident {
			return true
		}
		_, ok := r.(*ast.Identifier)
		return ok
	})
}

func contract_parser_parseMathParenthesizedExpression(p *parser) {
	specReadsToken(p)
	specStops(p)
	verifspec.Decreases(lexer.SpecRank(p.lexer), 1)
	verifspec.Ensures("a value", func(r ast.Value) bool { return r != nil })
}

func contract_parser_parseMathProduct(p *parser) {
	specReadsToken(p)
	specStops(p)
	verifspec.Decreases(lexer.SpecRank(p.lexer), 2)
	verifspec.Invariant(func(left ast.Value) bool { return left != nil })
	verifspec.Ensures("a value", func(r ast.Value) bool { return r != nil })
}

func contract_parser_parseMathSum(p *parser) {
	specReadsToken(p)
	specStops(p)
	verifspec.Decreases(lexer.SpecRank(p.lexer), 3)
	verifspec.Invariant(func(left ast.Value) bool { return left != nil })
	verifspec.Ensures("a value", func(r ast.Value) bool { return r != nil })
}

func contract_parser_parseRaw(p *parser) {
	specParses(p)
	verifspec.Fresh()
	start, rank, cur := lexer.SpecStart(p.lexer), lexer.SpecRank(p.lexer), p.lexer.Current
	s := p.source.Content
	verifspec.Invariant(func(raw ast.Raw) bool {
		return raw.Start == start && raw.Start <= raw.End && raw.End <= len(s)
	})
	verifspec.Invariant(func() bool { return p.lexer.Current == cur || lexer.SpecRank(p.lexer) < rank })
	verifspec.Ensures("progress", func(r *ast.Raw) bool {
		return cur == lexer.RCurly || lexer.SpecRank(p.lexer) < rank
	})
}

func contract_parser_parseDeclaration(p *parser) {
	specReadsToken(p)
	specStops(p)
	verifspec.Fresh()
	verifspec.Invariant(func(decl ast.Declaration) bool { return decl.Start >= 0 && decl.Start < ast.SpecMost && decl.End >= 0 && decl.End < ast.SpecMost })
}

func contract_parser_parseDeclarationOrFallback(p *parser) {
	specParses(p)
	verifspec.ModifiesField("parser.parser.lexer")
	l, pos, cur, rank := p.lexer, lexer.SpecPos(p.lexer), p.lexer.Current, lexer.SpecRank(p.lexer)
	verifspec.At("parseRaw", func() bool { return verifspec.Use(lexer.Lemma_rewind(l, pos)) })
	verifspec.Ensures("a declaration", func(r ast.Declarationish) bool { return r != nil })
	verifspec.Ensures("progress", func(r ast.Declarationish) bool {
		return cur == lexer.RCurly || lexer.SpecRank(p.lexer) < rank
	})
}

func contract_parser_parseDeclarationBlock(p *parser) {
	specReadsToken(p)
	verifspec.Requires(p.lexer.Current != lexer.EOF)
	verifspec.ModifiesField("parser.parser.lexer")
	verifspec.Fresh()
}

func contract_parser_parseQualifiedRule(p *parser, isKeyframes bool) {
	specReadsToken(p)
	verifspec.ModifiesField("parser.parser.lexer")
	verifspec.ModifiesField("lexer.Lexer.RetainWhitespace")
	verifspec.Fresh()
	start := lexer.SpecStart(p.lexer)
	verifspec.Ensures("where it begins", func(r *ast.QualifiedRule) bool { return r.Start == start })
}

func contract_parser_parseKeyframeSelectorList(p *parser) {
	specReadsToken(p)
	verifspec.Fresh()
}

func contract_parser_parseSelectorList(p *parser) {
	specReadsToken(p)
	verifspec.ModifiesField("lexer.Lexer.RetainWhitespace")
	verifspec.Decreases(lexer.SpecRank(p.lexer), 1)
	verifspec.Fresh()
}

func contract_parser_parseSelector(p *parser) {
	specReadsToken(p)
	verifspec.ModifiesField("lexer.Lexer.RetainWhitespace")
	verifspec.Decreases(lexer.SpecRank(p.lexer), 0)
	verifspec.Fresh()
	rank := lexer.SpecRank(p.lexer)
	verifspec.Invariant(func(s ast.Selector) bool { return len(s.Parts) == 0 || lexer.SpecRank(p.lexer) < rank })
}

func contract_parser_parseAttributeSelector(p *parser) {
	specReadsToken(p)
	verifspec.Requires(p.lexer.Current == lexer.LBracket)
	verifspec.ModifiesField("lexer.Lexer.RetainWhitespace")
	verifspec.Fresh()
}

func contract_parser_parseANPlusB(p *parser) {
	specReadsToken(p)
	verifspec.ModifiesField("lexer.Lexer.RetainWhitespace")
	verifspec.Fresh()
}

func contract_isDigits(in string) {
	verifspec.Invariant(func(i int) bool { return 0 <= i && i <= len(in) })
	verifspec.LoopDecreases(func(i int) int { return len(in) - i })
	verifspec.Ensures("not empty", func(r bool) bool { return !r || len(in) > 0 })
}

func contract_parser_parseMediaRangeOperator(p *parser) {
	specReadsToken(p)
	verifspec.Requires(p.lexer.Current == lexer.Delim)
	verifspec.Ensures("an operator", func(r string) bool { return r == "<" || r == "<=" || r == ">" || r == ">=" })
}

func contract_parser_parseMediaFeature(p *parser) {
	specReadsToken(p)
	verifspec.Ensures("a feature", func(r ast.MediaFeature) bool { return r != nil })
}

func contract_parser_parseMediaQuery(p *parser) {
	specParses(p)
	rank := lexer.SpecRank(p.lexer)
	verifspec.Invariant(func(q ast.MediaQuery) bool { return len(q.Parts) == 0 || lexer.SpecRank(p.lexer) < rank })
	verifspec.Ensures("progress", func(r *ast.MediaQuery) bool { return r == nil || lexer.SpecRank(p.lexer) < rank })
}

func contract_parser_parseMediaQueryList(p *parser) {
	specParses(p)
}

func specAtRule(p *parser) {
	specReadsToken(p)
	verifspec.Requires(p.lexer.Current == lexer.At)
	verifspec.ModifiesField("ast.Stylesheet.Nodes")
	verifspec.ModifiesField("ast.Stylesheet.Imports")
	verifspec.ModifiesField("parser.parser.lexer")
	verifspec.ModifiesField("lexer.Lexer.RetainWhitespace")
}

func contract_parser_parseAtRule(p *parser) { specAtRule(p) }

func contract_parser_parseImportAtRule(p *parser) {
	specAtRule(p)
	verifspec.Requires(p.lexer.CurrentString == "import")
}

func contract_parser_parseMediaAtRule(p *parser) { specAtRule(p) }

func contract_parser_parseKeyframes(p *parser) {
	specAtRule(p)
	verifspec.Requires(p.lexer.CurrentString != "media")
}

func contract_parser_parseCustomMediaAtRule(p *parser) {
	specAtRule(p)
	verifspec.Requires(p.lexer.CurrentString != "media")
}

func contract_parser_parseGenericAtRule(p *parser) {
	specAtRule(p)
	verifspec.Requires(p.lexer.CurrentString != "media")
}

func contract_parser_parse(p *parser) {
	specParses(p)
	verifspec.ModifiesField("ast.Stylesheet.Nodes")
	verifspec.ModifiesField("ast.Stylesheet.Imports")
	verifspec.ModifiesField("parser.parser.lexer")
	verifspec.ModifiesField("lexer.Lexer.RetainWhitespace")
}

func contract_Parse(source *sources.Source) {
	verifspec.Requires(source != nil && len(source.Lines) == 0 && len(source.Content) < ast.SpecMost)
	specReads()
	verifspec.ModifiesField("lexer.Lexer.RetainWhitespace")
	verifspec.ModifiesField("parser.parser.lexer")
	verifspec.ModifiesField("ast.Stylesheet.Nodes")
	verifspec.ModifiesField("ast.Stylesheet.Imports")
	verifspec.Ensures("a stylesheet or an error", func(ss *ast.Stylesheet, err error) bool { return (ss != nil) == (err == nil) })
}
