package printer

import (
	"github.com/stephen/cssc/internal/ast"
	"github.com/stephen/cssc/internal/verifspec"
)

func specMax(a, b int) int {
	if a > b {
		return a
	}
	return b
}

// specText is what is printed for a node. It depends on nothing but the tree.
func specText(in ast.Node) string {
	verifspec.ByType()
	switch n := in.(type) {
	case *ast.Stylesheet:
		return specNodes(n.Nodes, 0)
	case *ast.AtRule:
		end := ";"
		if n.Block != nil {
			end = "{" + specText(n.Block) + "}"
		}
		if len(n.Preludes) > 0 {
			return "@" + n.Name + " " + specPreludes(n.Preludes, 0) + end
		}
		return "@" + n.Name + end
	case *ast.SelectorList:
		return specSelectors(n.Selectors, 0)
	case *ast.KeyframeSelectorList:
		return specKeyframes(n.Selectors, 0)
	case *ast.QualifiedRule:
		return specText(n.Prelude) + "{" + specText(n.Block) + "}"
	case *ast.QualifiedRuleBlock:
		return specRules(n.Rules, 0)
	case *ast.DeclarationBlock:
		return specDeclarations(n.Declarations, 0)
	case *ast.Declaration:
		if n.Important {
			return n.Property + ":" + specValues(n.Values, 0) + "!important"
		}
		return n.Property + ":" + specValues(n.Values, 0)
	case *ast.Comma:
		return ","
	case *ast.Dimension:
		return n.Value + n.Unit
	case *ast.Percentage:
		return n.Value + "%"
	case *ast.String:
		mark := string(specMark(n.Value, 0))
		return mark + n.Value + mark
	case *ast.Identifier:
		return n.Value
	case *ast.Function:
		return n.Name + "(" + specValues(n.Arguments, 0) + ")"
	case *ast.Brackets:
		return "[" + specSpaced(n.Values, 0) + "]"
	case *ast.MathParenthesizedExpression:
		return "(" + specText(n.Value) + ")"
	case *ast.MathExpression:
		return specText(n.Left) + n.Operator + specText(n.Right)
	case *ast.Whitespace:
		return " "
	case *ast.Selector:
		return specParts(n.Parts, 0)
	case *ast.AttributeSelector:
		if n.Value == nil {
			return "[" + n.Property + "]"
		}
		if n.Modifier != "" {
			return "[" + n.Property + n.PreOperator + "=" + specText(n.Value) + " " + n.Modifier + "]"
		}
		return "[" + n.Property + n.PreOperator + "=" + specText(n.Value) + "]"
	case *ast.TypeSelector:
		return n.Name
	case *ast.ClassSelector:
		return "." + n.Name
	case *ast.IDSelector:
		return "#" + n.Name
	case *ast.CombinatorSelector:
		return n.Operator
	case *ast.PseudoElementSelector:
		return ":" + specText(n.Inner)
	case *ast.HexColor:
		return "#" + n.RGBA
	case *ast.PseudoClassSelector:
		if n.Arguments == nil {
			return ":" + n.Name
		}
		return ":" + n.Name + "(" + specText(n.Arguments) + ")"
	case *ast.ANPlusB:
		return specANPlusB(n)
	case *ast.MediaQueryList:
		return specQueries(n.Queries, 0)
	case *ast.MediaQuery:
		return specMediaParts(n.Parts, 0)
	case *ast.MediaFeaturePlain:
		if n.Value == nil {
			return "(" + specText(n.Property) + ")"
		}
		return "(" + specText(n.Property) + ":" + specText(n.Value) + ")"
	case *ast.MediaFeatureRange:
		left, right := "", ""
		if n.LeftValue != nil {
			left = specText(n.LeftValue) + n.Operator
		}
		if n.RightValue != nil {
			right = n.Operator + specText(n.RightValue)
		}
		return "(" + left + specText(n.Property) + right + ")"
	case *ast.Raw:
		return n.Value
	}
	return ""
}

// specANPlusB is the shortest form: a is left out if it is 1 (or its sign if it is -1), and either
// part if it is 0.
func specANPlusB(n *ast.ANPlusB) string {
	a := n.A
	switch {
	case a == "" || a == "1":
		a = "n"
	case a == "0":
		a = ""
	case a == "-1":
		a = "-n"
	case a[0] == '+':
		a = a[1:] + "n"
	default:
		a = a + "n"
	}
	if n.B == "" || n.B == "0" {
		if a == "" {
			return "0"
		}
		return a
	}
	if a == "" && n.Operator != "-" {
		return n.B
	}
	return a + n.Operator + n.B
}

func specNodes(xs []ast.Node, i int) string {
	if i < 0 || i >= len(xs) {
		return ""
	}
	return specText(xs[i]) + specNodes(xs, i+1)
}

func specPreludes(xs []ast.AtPrelude, i int) string {
	if i < 0 || i >= len(xs) {
		return ""
	}
	if i+1 == len(xs) {
		return specText(xs[i])
	}
	return specText(xs[i]) + " " + specPreludes(xs, i+1)
}

func specSelectors(xs []*ast.Selector, i int) string {
	if i < 0 || i >= len(xs) {
		return ""
	}
	if i+1 == len(xs) {
		return specText(xs[i])
	}
	return specText(xs[i]) + "," + specSelectors(xs, i+1)
}

func specKeyframes(xs []ast.KeyframeSelector, i int) string {
	if i < 0 || i >= len(xs) {
		return ""
	}
	if i+1 == len(xs) {
		return specText(xs[i])
	}
	return specText(xs[i]) + "," + specKeyframes(xs, i+1)
}

func specRules(xs []*ast.QualifiedRule, i int) string {
	if i < 0 || i >= len(xs) {
		return ""
	}
	return specText(xs[i]) + specRules(xs, i+1)
}

func specDeclarations(xs []ast.Declarationish, i int) string {
	if i < 0 || i >= len(xs) {
		return ""
	}
	if i+1 == len(xs) {
		return specText(xs[i])
	}
	return specText(xs[i]) + ";" + specDeclarations(xs, i+1)
}

// specValues: there is a space between two values, except at commas.
func specValues(xs []ast.Value, i int) string {
	if i < 0 || i >= len(xs) {
		return ""
	}
	if i+1 == len(xs) {
		return specText(xs[i])
	}
	_, comma := xs[i].(*ast.Comma)
	_, nextComma := xs[i+1].(*ast.Comma)
	if comma || nextComma {
		return specText(xs[i]) + specValues(xs, i+1)
	}
	return specText(xs[i]) + " " + specValues(xs, i+1)
}

func specSpaced(xs []ast.Value, i int) string {
	if i < 0 || i >= len(xs) {
		return ""
	}
	if i+1 == len(xs) {
		return specText(xs[i])
	}
	return specText(xs[i]) + " " + specSpaced(xs, i+1)
}

// specParts: whitespace at the end of a selector is not printed.
func specParts(xs []ast.SelectorPart, i int) string {
	if i < 0 || i >= len(xs) {
		return ""
	}
	if _, white := xs[i].(*ast.Whitespace); white && i+1 == len(xs) {
		return ""
	}
	return specText(xs[i]) + specParts(xs, i+1)
}

func specQueries(xs []*ast.MediaQuery, i int) string {
	if i < 0 || i >= len(xs) {
		return ""
	}
	if i+1 == len(xs) {
		return specText(xs[i])
	}
	return specText(xs[i]) + "," + specQueries(xs, i+1)
}

func specMediaParts(xs []ast.MediaQueryPart, i int) string {
	if i < 0 || i >= len(xs) {
		return ""
	}
	if i+1 == len(xs) {
		return specText(xs[i])
	}
	return specText(xs[i]) + " " + specMediaParts(xs, i+1)
}

// specMark is the quotation mark that value can be put in.
func specMark(value string, i int) rune {
	if i < 0 || i >= len(value) {
		return '"'
	}
	if value[i] == '\\' {
		return specMark(value, i+2)
	}
	if value[i] == '"' {
		return '\''
	}
	return specMark(value, i+1)
}

func contract_stringMark(value string) {
	verifspec.Ensures("a mark", func(r rune) bool { return r == '"' || r == '\'' })
	verifspec.Ensures("the other one if there is one inside", func(r rune) bool { return r == specMark(value, 0) })
	verifspec.Invariant(func(i int) bool { return i >= 0 && specMark(value, i) == specMark(value, 0) })
	verifspec.LoopDecreases(func(i int) int { return len(value) - i })
}

// specFrom is what is printed for the elements of the list in a node from the i-th on, when before
// has been printed before the list.
func specFrom(in ast.Node, i int) (before, text string) {
	switch n := in.(type) {
	case *ast.Stylesheet:
		return "", specNodes(n.Nodes, i)
	case *ast.AtRule:
		return "@" + n.Name + " ", specPreludes(n.Preludes, i)
	case *ast.SelectorList:
		return "", specSelectors(n.Selectors, i)
	case *ast.KeyframeSelectorList:
		return "", specKeyframes(n.Selectors, i)
	case *ast.QualifiedRuleBlock:
		return "", specRules(n.Rules, i)
	case *ast.DeclarationBlock:
		return "", specDeclarations(n.Declarations, i)
	case *ast.Brackets:
		return "[", specSpaced(n.Values, i)
	case *ast.Selector:
		return "", specParts(n.Parts, i)
	case *ast.MediaQueryList:
		return "", specQueries(n.Queries, i)
	case *ast.MediaQuery:
		return "", specMediaParts(n.Parts, i)
	}
	return "", ""
}

func contract_printer_printValues(p *printer, values []ast.Value) {
	verifspec.Requires(p != nil)
	old := p.s.String()
	src := p.options.OriginalSource
	st := specStateOf(p)
	verifspec.Requires(src == nil || specFits(p, specValues(values, 0)) && p.sourceMappings.Len() > 0)
	verifspec.Modifies(&p.s, &p.sourceMappings, &p.lastWritten, &p.lastMappingState)
	verifspec.Ensures("the text of the values", func() bool { return p.s.String() == old+specValues(values, 0) })
	verifspec.Ensures("no mappings", func() bool { return specStateOf(p) == st })
	verifspec.Invariant(func(i int) bool {
		return specText2(p.s.String(), specValues(values, i+1), old, specValues(values, 0)) && specStateOf(p) == st
	})
	verifspec.Invariant(func(i int) bool {
		return specText2(p.s.String(), specValues(values, i), old, specValues(values, 0)) && specStateOf(p) == st
	})
	verifspec.Decreases(verifspec.Height(values))
}

func contract_printer_print(p *printer, in ast.Node) {
	verifspec.Requires(p != nil && in != nil)
	src := p.options.OriginalSource
	verifspec.Requires(src == nil || specFits(p, specText(in)) && (p.sourceMappings.Len() > 0 || specFirst(in)))
	verifspec.Modifies(&p.s, &p.sourceMappings, &p.lastWritten, &p.lastMappingState)
	old := p.s.String()
	content := src.Content
	st := specStateOf(p)
	mapped := p.sourceMappings.Len() > 0
	verifspec.Ensures("the text of the node", func() bool { return p.s.String() == old+specText(in) })
	verifspec.Ensures("no mappings without a source", func() bool { return verifspec.Implies(src == nil, specStateOf(p) == st) })
	verifspec.Ensures("mappings", func() bool {
		return verifspec.Implies(src != nil, specStateOf(p) == specMapNode(in, content, old, st))
	})
	verifspec.Ensures("none but of rules", func() bool { return verifspec.Implies(specPlain(in), specStateOf(p) == st) })
	verifspec.Ensures("valid state", func() bool { return verifspec.Implies(src != nil, specFits(p, "")) })
	verifspec.Ensures("mapped", func() bool {
		return verifspec.Implies(src != nil && (mapped || specRule(in)), p.sourceMappings.Len() > 0)
	})
	verifspec.Invariant(func(i int) bool {
		before, all := specFrom(in, 0)
		_, left := specFrom(in, i+1)
		return specText2(p.s.String(), left, old+before, all) && specFirstFrom(in, src == nil || mapped, i+1)
	})
	verifspec.Invariant(func(i int) bool {
		before, all := specFrom(in, 0)
		_, left := specFrom(in, i)
		return specText2(p.s.String(), left, old+before, all) && specFirstFrom(in, src == nil || mapped, i)
	})
	verifspec.Invariant(func(i int) bool {
		return verifspec.Implies(src != nil, specMapFrom(in, i+1, content, p.s.String(), specStateOf(p)) == specMapFrom(in, 0, content, old, specHere(in, content, old, st)))
	})
	verifspec.Invariant(func(i int) bool {
		return verifspec.Implies(src != nil, specMapFrom(in, i, content, p.s.String(), specStateOf(p)) == specMapFrom(in, 0, content, old, specHere(in, content, old, st)))
	})
	verifspec.Invariant(func() bool {
		return verifspec.Implies(src != nil, specFits(p, "") && (p.sourceMappings.Len() > 0 || !mapped && specFirst(in)))
	})
	verifspec.Invariant(func() bool { return verifspec.Implies(src == nil, specStateOf(p) == st) })
	verifspec.Decreases(verifspec.Height(in))
}

// specText2: the texts are the same, and nothing is lost at the beginning.
func specText2(s, left, old, all string) bool {
	return s+left == old+all && len(s)+len(left) == len(old)+len(all) && len(s) >= len(old)
}
