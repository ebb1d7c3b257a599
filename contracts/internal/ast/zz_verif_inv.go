package ast

import "github.com/stephen/cssc/internal/verifspec"

// Invariants of the syntax tree. They hold of every node that is handed from one function to
// another; there are no nils in lists of nodes.

// SpecMost bounds the places in a text.
const SpecMost = 1<<30 - 2

func invariant_Span(s *Span) bool { return 0 <= s.Start && s.Start < SpecMost && 0 <= s.End && s.End < SpecMost }

// kind_Node: the nodes of a stylesheet are rules.
func kind_Node(n Node) bool {
	switch n.(type) {
	case *AtRule, *QualifiedRule:
		return true
	}
	return false
}

// kind_MediaQueryPart: no other kinds are made.
func kind_MediaQueryPart(n MediaQueryPart) bool {
	switch n.(type) {
	case *Identifier, *MediaFeaturePlain, *MediaFeatureRange:
		return true
	}
	return false
}

func invariant_QualifiedRule(n *QualifiedRule) bool {
	if _, ok := n.Block.(*DeclarationBlock); !ok {
		return false
	}
	switch n.Prelude.(type) {
	case *SelectorList, *KeyframeSelectorList:
	default:
		return false
	}
	return n.Prelude != nil && n.Block != nil && verifspec.Rank(n.Prelude) < verifspec.Rank(n) && verifspec.Rank(n.Block) < verifspec.Rank(n)
}

func invariant_QualifiedRuleBlock(n *QualifiedRuleBlock) bool {
	return verifspec.Rank(n.Rules) < verifspec.Rank(n)
}

func invariant_SelectorList(n *SelectorList) bool {
	return verifspec.Rank(n.Selectors) < verifspec.Rank(n)
}

func invariant_Selector(n *Selector) bool { return verifspec.Rank(n.Parts) < verifspec.Rank(n) }

func invariant_PseudoClassSelector(n *PseudoClassSelector) bool {
	return verifspec.Rank(n.Arguments) < verifspec.Rank(n)
}

func invariant_MathParenthesizedExpression(n *MathParenthesizedExpression) bool { return n.Value != nil }

func invariant_MathExpression(n *MathExpression) bool { return n.Left != nil && n.Right != nil }

func invariant_PseudoElementSelector(n *PseudoElementSelector) bool {
	return n.Inner != nil && verifspec.Rank(n.Inner) < verifspec.Rank(n)
}

func invariant_MediaFeaturePlain(n *MediaFeaturePlain) bool { return n.Property != nil }

func invariant_MediaFeatureRange(n *MediaFeatureRange) bool {
	if n.Operator != "<" && n.Operator != "<=" && n.Operator != ">" && n.Operator != ">=" {
		return false
	}
	return n.Property != nil && (n.LeftValue != nil || n.RightValue != nil)
}

func invariant_AtRule(n *AtRule) bool {
	if verifspec.Rank(n.Block) >= verifspec.Rank(n) {
		return false
	}
	if n.Name != "media" {
		return true
	}
	if len(n.Preludes) == 0 {
		return false
	}
	_, ok := n.Preludes[0].(*MediaQueryList)
	return ok
}
