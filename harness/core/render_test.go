package zzverif

import (
	"strings"

	"github.com/stephen/cssc/internal/ast"
)

// render is the canonical text of a tree, written independently of the printer.
func render(n ast.Node) string {
	switch n := n.(type) {
	case *ast.Stylesheet:
		s := ""
		for _, c := range n.Nodes {
			s += render(c)
		}
		return s
	case *ast.AtRule:
		s := "@" + n.Name
		for _, p := range n.Preludes {
			s += " " + render(p)
		}
		if n.Block == nil {
			return s + ";"
		}
		return s + "{" + render(n.Block) + "}"
	case *ast.QualifiedRule:
		return render(n.Prelude) + "{" + render(n.Block) + "}"
	case *ast.QualifiedRuleBlock:
		s := ""
		for _, r := range n.Rules {
			s += render(r)
		}
		return s
	case *ast.DeclarationBlock:
		var p []string
		for _, d := range n.Declarations {
			p = append(p, render(d))
		}
		return strings.Join(p, ";")
	case *ast.Declaration:
		s := n.Property + ":" + renderValues(n.Values)
		if n.Important {
			s += "!important"
		}
		return s
	case *ast.SelectorList:
		var p []string
		for _, d := range n.Selectors {
			p = append(p, render(d))
		}
		return strings.Join(p, ",")
	case *ast.KeyframeSelectorList:
		var p []string
		for _, d := range n.Selectors {
			p = append(p, render(d))
		}
		return strings.Join(p, ",")
	case *ast.Selector:
		s := ""
		for i, p := range n.Parts {
			if _, ws := p.(*ast.Whitespace); ws && i == len(n.Parts)-1 {
				break
			}
			s += render(p)
		}
		return s
	case *ast.Whitespace:
		return " "
	case *ast.TypeSelector:
		return n.Name
	case *ast.ClassSelector:
		return "." + n.Name
	case *ast.IDSelector:
		return "#" + n.Name
	case *ast.CombinatorSelector:
		return n.Operator
	case *ast.PseudoElementSelector:
		return ":" + render(n.Inner)
	case *ast.PseudoClassSelector:
		if n.Arguments == nil {
			return ":" + n.Name
		}
		return ":" + n.Name + "(" + render(n.Arguments) + ")"
	case *ast.ANPlusB:
		return renderNth(n)
	case *ast.AttributeSelector:
		s := "[" + n.Property
		if n.Value != nil {
			s += n.PreOperator + "=" + render(n.Value)
			if n.Modifier != "" {
				s += " " + n.Modifier
			}
		}
		return s + "]"
	case *ast.MediaQueryList:
		var p []string
		for _, d := range n.Queries {
			p = append(p, render(d))
		}
		return strings.Join(p, ",")
	case *ast.MediaQuery:
		var p []string
		for _, d := range n.Parts {
			p = append(p, render(d))
		}
		return strings.Join(p, " ")
	case *ast.MediaFeaturePlain:
		s := "(" + n.Property.Value
		if n.Value != nil {
			s += ":" + render(n.Value)
		}
		return s + ")"
	case *ast.MediaFeatureRange:
		s := "("
		if n.LeftValue != nil {
			s += render(n.LeftValue) + n.Operator
		}
		s += n.Property.Value
		if n.RightValue != nil {
			s += n.Operator + render(n.RightValue)
		}
		return s + ")"
	case *ast.Comma:
		return ","
	case *ast.Dimension:
		return n.Value + n.Unit
	case *ast.Percentage:
		return n.Value + "%"
	case *ast.Identifier:
		return n.Value
	case *ast.HexColor:
		return "#" + n.RGBA
	case *ast.Raw:
		return n.Value
	case *ast.String:
		bare := false // a double quote that is not escaped
		for i := 0; i < len(n.Value); i++ {
			if n.Value[i] == '\\' {
				i++
			} else if n.Value[i] == '"' {
				bare = true
			}
		}
		if bare {
			return "'" + n.Value + "'"
		}
		return "\"" + n.Value + "\""
	case *ast.Function:
		return n.Name + "(" + renderValues(n.Arguments) + ")"
	case *ast.Brackets:
		var p []string
		for _, d := range n.Values {
			p = append(p, render(d))
		}
		return "[" + strings.Join(p, " ") + "]"
	case *ast.MathParenthesizedExpression:
		return "(" + render(n.Value) + ")"
	case *ast.MathExpression:
		return render(n.Left) + n.Operator + render(n.Right)
	}
	panic("unknown node")
}

func renderValues(vs []ast.Value) string {
	s := ""
	for i, v := range vs {
		if i > 0 {
			_, c1 := vs[i-1].(*ast.Comma)
			_, c2 := v.(*ast.Comma)
			if !c1 && !c2 {
				s += " "
			}
		}
		s += render(v)
	}
	return s
}

func renderNth(n *ast.ANPlusB) string {
	a := strings.TrimPrefix(n.A, "+")
	b := n.B
	if b == "0" {
		b = ""
	}
	switch {
	case n.A == "0" && b == "":
		return "0"
	case n.A == "0" && n.Operator == "-":
		return "-" + b
	case n.A == "0":
		return b
	}
	switch n.A {
	case "1":
		a = ""
	case "-1":
		a = "-"
	}
	s := a + "n"
	if b != "" {
		s += n.Operator + b
	}
	return s
}
