package transformer

import (
	"github.com/stephen/cssc/internal/ast"
	"github.com/stephen/cssc/internal/logging"
	"github.com/stephen/cssc/internal/verifspec"
	"github.com/stephen/cssc/transforms"
)

// specSelects is what the functions that transform selectors in place have in common.
func specSelects(t *transformer, rank int) {
	verifspec.Requires(t != nil)
	verifspec.ModifiesBelow("ast.Selector.Parts", rank)
	verifspec.ModifiesBelow("ast.SelectorList.Selectors", rank)
}

// Arbitrary nodes of a stylesheet: what is proved of them holds for all.
var (
	anyDeclaration *ast.Declaration
	anyQuery       *ast.MediaQuery
	anySelector    *ast.Selector
	anySelectors   *ast.SelectorList
)

// specAnyLinkOff: the transform of :any-link is off.
func specAnyLinkOff(t *transformer) bool { return t.AnyLink == transforms.AnyLinkPassthrough }

// specSelectorsKept states that with the transform of :any-link off, no selector changes.
func specSelectorsKept(t *transformer) {
	off := specAnyLinkOff(t)
	parts, selectors := anySelector.Parts, anySelectors.Selectors
	verifspec.Invariant(func() bool {
		return !off || verifspec.Same(anySelector.Parts, parts) && verifspec.Same(anySelectors.Selectors, selectors)
	})
	verifspec.Ensures("with the transform off, selectors stay as they are", func() bool {
		return !off || verifspec.Same(anySelector.Parts, parts) && verifspec.Same(anySelectors.Selectors, selectors)
	})
}

// specValuesKept states that with the transforms of values off, the values of declarations
// stay the same.
func specValuesKept(t *transformer) {
	off := specValuesOff(t)
	values := specContents(anyDeclaration.Values)
	verifspec.At("transformValues", func(d *ast.Declaration) bool { return verifspec.Use(lemma_offAll(t, d.Values)) })
	verifspec.Invariant(func() bool { return !off || verifspec.Same(specContents(anyDeclaration.Values), values) })
	verifspec.Ensures("with the transforms off, values stay the same", func() bool {
		return !off || verifspec.Same(specContents(anyDeclaration.Values), values)
	})
}

// specQueriesKept states that with the transforms of media queries off, they stay the same.
func specQueriesKept(t *transformer) {
	off := specMediaOff(t)
	parts := specParts(anyQuery.Parts)
	verifspec.At("transformMediaQueryParts", func(q *ast.MediaQuery) bool { return verifspec.Use(lemma_mediaOff(t, q.Parts)) })
	verifspec.Invariant(func() bool { return !off || verifspec.SameStrings(specParts(anyQuery.Parts), parts) })
	verifspec.Ensures("with the transforms off, queries stay the same", func() bool {
		return !off || verifspec.SameStrings(specParts(anyQuery.Parts), parts)
	})
}

func contract_transformer_transformSelectors(t *transformer, nodes []*ast.Selector) {
	specSelects(t, verifspec.Rank(nodes))
	specSelectorsKept(t)
	off := specAnyLinkOff(t)
	verifspec.Decreases(verifspec.Rank(nodes), 0)
	verifspec.Invariant(func(newNodes []*ast.Selector) bool {
		return verifspec.Rank(newNodes) <= verifspec.Rank(nodes)
	})
	verifspec.Invariant(func(i int, newNodes []*ast.Selector) bool { return !off || verifspec.Same(newNodes, nodes[:i]) })
	verifspec.Invariant(func(i int, newNodes []*ast.Selector) bool { return !off || verifspec.Same(newNodes, nodes[:i+1]) })
	verifspec.Ensures("finite", func(r []*ast.Selector) bool { return verifspec.Rank(r) <= verifspec.Rank(nodes) })
	verifspec.Ensures("with the transform off, the selectors themselves", func(r []*ast.Selector) bool {
		return !off || verifspec.Same(r, nodes)
	})
}

func contract_transformer_transformSelector(t *transformer, n *ast.Selector) {
	verifspec.Requires(n != nil)
	parts := n.Parts
	specSelects(t, verifspec.Rank(parts))
	specSelectorsKept(t)
	off := specAnyLinkOff(t)
	verifspec.Modifies(&n.Parts)
	verifspec.Invariant(func() bool { return verifspec.Same(n.Parts, parts) })
	verifspec.Decreases(verifspec.Rank(parts), len(parts))
	verifspec.Invariant(func(newParts []ast.SelectorPart) bool {
		return verifspec.Rank(newParts) <= verifspec.Rank(parts)
	})
	verifspec.Invariant(func(newNodes []*ast.Selector) bool {
		return verifspec.Rank(newNodes) <= verifspec.Rank(parts)+2
	})
	verifspec.Invariant(func(i int, newParts []ast.SelectorPart) bool { return !off || verifspec.Same(newParts, parts[:i]) })
	verifspec.Invariant(func(i int, newParts []ast.SelectorPart) bool { return !off || verifspec.Same(newParts, parts[:i+1]) })
	verifspec.Ensures("finite", func(r []*ast.Selector) bool {
		return verifspec.Rank(r) <= verifspec.Rank(n)+1 || verifspec.Rank(r) <= verifspec.Rank(parts)+2
	})
	none := specNoLinks(parts)
	number := specSplits(parts)
	verifspec.Invariant(func(i int) bool { return off || number == specSplits(parts[i:]) && none == specNoLinks(parts[i:]) })
	verifspec.Invariant(func(i int) bool { return off || number == specSplits(parts[i+1:]) && none == specNoLinks(parts[i+1:]) })
	verifspec.Invariant(func(i int, newParts []ast.SelectorPart) bool { return verifspec.Same(newParts, parts[:i]) })
	verifspec.Invariant(func(i int, newParts []ast.SelectorPart) bool { return verifspec.Same(newParts, parts[:i+1]) })
	verifspec.Invariant(func(i int, newParts []ast.SelectorPart, newNodes, rest []*ast.Selector) bool {
		return len(newNodes) == i+1
	})
	verifspec.Invariant(func(i int, newParts []ast.SelectorPart, newNodes, rest []*ast.Selector) bool {
		return len(newNodes) == i
	})
	verifspec.Invariant(func(i int, newParts []ast.SelectorPart, newNodes, rest []*ast.Selector) bool {
		return len(newNodes) == len(rest)+i+1
	})
	verifspec.Invariant(func(i int, newParts []ast.SelectorPart, newNodes, rest []*ast.Selector) bool {
		return len(newNodes) == len(rest)+i
	})
	verifspec.Ensures("two selectors for each :any-link", func(r []*ast.Selector) bool {
		return off || len(r) == number
	})
	verifspec.Ensures("without :any-link, the selector itself", func(r []*ast.Selector) bool {
		return !none || verifspec.Same(r, []*ast.Selector{n}) && verifspec.Same(n.Parts, parts)
	})
	verifspec.Ensures("with the transform off, the selector itself", func(r []*ast.Selector) bool {
		return !off || verifspec.Same(r, []*ast.Selector{n})
	})
}

// specAnyLink holds for :any-link.
func specAnyLink(p ast.SelectorPart) bool {
	c, ok := p.(*ast.PseudoClassSelector)
	return ok && c.Name == "any-link" && c.Arguments == nil
}

// specSplits is how many selectors there are with :visited or :link in the place of each :any-link.
func specSplits(ps []ast.SelectorPart) int {
	if len(ps) == 0 {
		return 1
	}
	if specAnyLink(ps[0]) {
		return 2 * specSplits(ps[1:])
	}
	return specSplits(ps[1:])
}

// specNoLinks holds if none of the parts is :any-link.
func specNoLinks(ps []ast.SelectorPart) bool {
	return len(ps) == 0 || !specAnyLink(ps[0]) && specNoLinks(ps[1:])
}

func contract_transformer_transformPseudoClassArguments(t *transformer, part *ast.PseudoClassSelector) {
	specSelects(t, verifspec.Rank(part))
	specSelectorsKept(t)
	verifspec.Requires(part != nil)
	verifspec.Decreases(verifspec.Rank(part), 0)
}

// specTransforms is what the functions that transform parts of a stylesheet in place have in
// common. Nothing is reported if quiet.
func specTransforms(t *transformer, quiet bool) {
	verifspec.Requires(t != nil && t.Reporter != nil)
	n := logging.SpecErrors(t.Reporter)
	verifspec.ModifiesField("ghost:errors")
	verifspec.Invariant(func() bool { return logging.SpecErrors(t.Reporter) >= n })
	verifspec.Ensures("reports", func() bool { return logging.SpecErrors(t.Reporter) >= n })
	specQuiet(t, quiet)
}

func contract_transformer_transformDeclarations(t *transformer, decls []ast.Declarationish) {
	specTransforms(t, specValuesOff(t))
	specValuesKept(t)
	verifspec.ModifiesField("ast.Declaration.Values")
	verifspec.Invariant(func(i int, newDecls []ast.Declarationish) bool {
		return verifspec.Same(newDecls, decls[:i])
	})
	verifspec.Invariant(func(i int, newDecls []ast.Declarationish) bool {
		return verifspec.Same(newDecls, decls[:i+1])
	})
	verifspec.Ensures("the same declarations, in order", func(r []ast.Declarationish) bool { return verifspec.Same(r, decls) })
}

func contract_transformer_transformMediaQueries(t *transformer, queries []*ast.MediaQuery) {
	specTransforms(t, specMediaOff(t))
	specQueriesKept(t)
	verifspec.ModifiesField("ast.MediaQuery.Parts")
	verifspec.Invariant(func(i int, newQueries []*ast.MediaQuery) bool {
		return verifspec.Same(newQueries, queries[:i])
	})
	verifspec.Invariant(func(i int, newQueries []*ast.MediaQuery) bool {
		return verifspec.Same(newQueries, queries[:i+1])
	})
	verifspec.Ensures("the same queries, in order", func(r []*ast.MediaQuery) bool { return verifspec.Same(r, queries) })
}

func specRules(t *transformer, quiet bool) {
	specTransforms(t, quiet)
	specSelectorsKept(t)
	specValuesKept(t)
	verifspec.ModifiesField("ast.Selector.Parts")
	verifspec.ModifiesField("ast.SelectorList.Selectors")
	verifspec.ModifiesField("ast.Declaration.Values")
}

func contract_transformer_transformBlock(t *transformer, block ast.Block) {
	specTransforms(t, specValuesOff(t))
	specValuesKept(t)
	verifspec.Requires(block != nil)
	verifspec.ModifiesField("ast.Declaration.Values")
	declarations, ok := block.(*ast.DeclarationBlock)
	verifspec.Ensures("the block if there is anything in it", func(r ast.Block) bool {
		return (r == nil || r == block) && (!ok || (r == nil) == (len(declarations.Declarations) == 0))
	})
}

// specKeeps holds for rules that are more than a prelude.
func specKeeps(rule *ast.QualifiedRule) bool {
	if _, keyframe := rule.Prelude.(*ast.KeyframeSelectorList); keyframe {
		return true
	}
	block, ok := rule.Block.(*ast.DeclarationBlock)
	return ok && len(block.Declarations) > 0
}

// specKept is the rules that are kept.
func specKept(rules []*ast.QualifiedRule) []*ast.QualifiedRule {
	n := len(rules) - 1
	if n < 0 {
		return nil
	}
	if specKeeps(rules[n]) {
		return append(specKept(rules[:n]), rules[n])
	}
	return specKept(rules[:n])
}

func contract_transformer_transformQualifiedRule(t *transformer, node *ast.QualifiedRule) {
	verifspec.Requires(node != nil)
	specRules(t, specValuesOff(t))
	verifspec.Decreases(verifspec.Rank(node), 0)
	verifspec.Ensures("whether anything is left", func(r bool) bool { return r == specKeeps(node) })
}

func contract_transformer_transformAtRuleBlock(t *transformer, block ast.Block) {
	specRules(t, specValuesOff(t))
	verifspec.Decreases(verifspec.Rank(block), 0)
	rules, ok := block.(*ast.QualifiedRuleBlock)
	if ok {
		list := rules.Rules
		verifspec.Modifies(&rules.Rules)
		verifspec.Invariant(func(newRules []*ast.QualifiedRule) bool {
			return verifspec.Rank(newRules) <= verifspec.Rank(list)
		})
		verifspec.Invariant(func(i int, newRules []*ast.QualifiedRule) bool {
			return verifspec.Same(newRules, specKept(list[:i]))
		})
		verifspec.Invariant(func(i int, newRules []*ast.QualifiedRule) bool {
			return verifspec.Same(newRules, specKept(list[:i+1]))
		})
		verifspec.Ensures("the rules that are more than a prelude", func() bool {
			return verifspec.Same(rules.Rules, specKept(list))
		})
	}
}

// specRoot holds if the parts of a selector are :root and white space.
func specRoot(parts []ast.SelectorPart) bool { return specRoots(parts) == 1 }

// specRoots is the number of times that :root is in a list of parts, or -1 if there is anything
// else but white space.
func specRoots(parts []ast.SelectorPart) int {
	n := len(parts) - 1
	if n < 0 {
		return 0
	}
	before := specRoots(parts[:n])
	if before < 0 {
		return -1
	}
	switch p := parts[n].(type) {
	case *ast.Whitespace:
		return before
	case *ast.PseudoClassSelector:
		if p.Name == "root" && p.Arguments == nil {
			return before + 1
		}
	}
	return -1
}

func lemma_roots(a, b []ast.SelectorPart) bool {
	verifspec.Decreases(len(b))
	n := len(b) - 1
	if n >= 0 {
		verifspec.Use(lemma_roots(a, b[:n]))
	}
	x, y := specRoots(a), specRoots(b)
	if x < 0 || y < 0 {
		return specRoots(append(a, b...)) == -1
	}
	return specRoots(append(a, b...)) == x+y
}

func contract_isRootSelector(selList *ast.SelectorList) {
	verifspec.Requires(selList != nil)
	ok := len(selList.Selectors) == 1
	var parts []ast.SelectorPart
	if ok {
		parts = selList.Selectors[0].Parts
	}
	verifspec.Invariant(func(i int, isRoot bool) bool {
		return specRoots(parts[:i]) == specCount(isRoot)
	})
	verifspec.Invariant(func(i int, isRoot bool) bool {
		return specRoots(parts[:i+1]) == specCount(isRoot)
	})
	verifspec.Ensures(":root and nothing else", func(r bool) bool { return r == (ok && specRoot(parts)) })
}

func specCount(b bool) int {
	if b {
		return 1
	}
	return 0
}

// anyRules is an arbitrary list of rules of a stylesheet.
var anyRules *ast.QualifiedRuleBlock

// specRulesKept states that if custom properties are not transformed, no rules are left out but
// those that are just a prelude.
func specRulesKept(t *transformer) {
	off := t.variables == nil
	rules := anyRules.Rules
	verifspec.At("transformAtRuleBlock", func(node *ast.AtRule) bool { return verifspec.Use(lemma_kept(rules)) })
	verifspec.At("transformNodes", func(node *ast.AtRule) bool { return verifspec.Use(lemma_kept(rules)) })
	verifspec.Invariant(func() bool {
		return !off || verifspec.Same(anyRules.Rules, rules) || verifspec.Same(anyRules.Rules, specKept(rules))
	})
	verifspec.Ensures("the rules of a block, but for those that are just a prelude", func() bool {
		return !off || verifspec.Same(anyRules.Rules, rules) || verifspec.Same(anyRules.Rules, specKept(rules))
	})
}

// lemma_kept: nothing is left out the second time.
func lemma_kept(rules []*ast.QualifiedRule) bool {
	verifspec.Decreases(len(rules))
	n := len(rules) - 1
	if n >= 0 {
		verifspec.Use(lemma_kept(rules[:n]))
		if specKeeps(rules[n]) {
			verifspec.Use(lemma_keptOne(specKept(rules[:n]), rules[n]))
		}
	}
	return verifspec.Same(specKept(specKept(rules)), specKept(rules))
}

func lemma_keptOne(rules []*ast.QualifiedRule, r *ast.QualifiedRule) bool {
	return r == nil || !specKeeps(r) || verifspec.Same(specKept(append(rules, r)), append(specKept(rules), r))
}

// specStylesheet is what the functions that transform a stylesheet in place have in common.
func specStylesheet(t *transformer) {
	specRules(t, specQuietly(t))
	specQueriesKept(t)
	specRulesKept(t)
	if t.variables != nil {
		verifspec.ModifiesField("ast.DeclarationBlock.Declarations")
	}
	verifspec.ModifiesField("ast.QualifiedRuleBlock.Rules")
	verifspec.ModifiesField("ast.MediaQuery.Parts")
	verifspec.Modifies(t.variables, t.customMedia)
	verifspec.Modifies(&t.OriginalSource)
}

// specQuietly: nothing that could report anything is on.
func specQuietly(t *transformer) bool {
	return specValuesOff(t) && specMediaOff(t) && t.ImportReplacements == nil
}

// specLeft is what is left of the rules of a stylesheet if custom properties are not transformed.
func specLeft(imports map[*ast.AtRule]*ast.Stylesheet, nodes []ast.Node) []ast.Node {
	n := len(nodes) - 1
	if n < 0 {
		return nil
	}
	return append(specLeft(imports, nodes[:n]), specRemains(nodes[n], imports)...)
}

// specRemains is what is left of a rule.
func specRemains(node ast.Node, imports map[*ast.AtRule]*ast.Stylesheet) []ast.Node {
	verifspec.ByType()
	switch n := node.(type) {
	case *ast.QualifiedRule:
		if !specKeeps(n) {
			return nil
		}
	case *ast.AtRule:
		switch n.Name {
		case "import":
			if imported, ok := imports[n]; ok {
				return specLeft(imports, imported.Nodes)
			}
		case "custom-media":
			return nil
		}
	}
	return []ast.Node{node}
}

// lemma_imports: imports form no cycle.
func lemma_imports(t *transformer, node *ast.AtRule) bool {
	verifspec.Trusted("the stylesheets that replace imports form no cycle")
	imported, ok := t.ImportReplacements[node]
	return !ok || imported != nil && verifspec.Rank(imported.Nodes) < verifspec.Rank(node)
}

func contract_transformer_transformNodes(t *transformer, nodes []ast.Node) {
	verifspec.Cases(t.variables == nil)
	specStylesheet(t)
	verifspec.Decreases(verifspec.Rank(nodes))
	verifspec.At("transformNodes", func(node *ast.AtRule) bool { return verifspec.Use(lemma_imports(t, node)) })
	importer := t.OriginalSource
	verifspec.Invariant(func() bool { return t.OriginalSource == importer })
	verifspec.Ensures("the source of the importer", func(r []ast.Node) bool { return t.OriginalSource == importer })
	off := t.variables == nil
	verifspec.Invariant(func(i int, newDecls, decls []ast.Declarationish) bool {
		return !off || verifspec.Same(newDecls, decls[:i])
	})
	verifspec.Invariant(func(i int, newDecls, decls []ast.Declarationish) bool {
		return !off || verifspec.Same(newDecls, decls[:i+1])
	})
	verifspec.Invariant(func(i int, rv []ast.Node) bool {
		return !off || verifspec.Same(rv, specLeft(t.ImportReplacements, nodes[:i]))
	})
	verifspec.Invariant(func(i int, rv []ast.Node) bool {
		return !off || verifspec.Same(rv, specLeft(t.ImportReplacements, nodes[:i+1]))
	})
	verifspec.Ensures("what is left", func(r []ast.Node) bool { return !off || verifspec.Same(r, specLeft(t.ImportReplacements, nodes)) })
}

func contract_Transform(s *ast.Stylesheet, opts Options) {
	verifspec.Requires(s != nil)
	verifspec.Cases(opts.CustomProperties == transforms.CustomPropertiesPassthrough)
	verifspec.ModifiesField("ghost:errors")
	verifspec.ModifiesField("ast.Selector.Parts")
	verifspec.ModifiesField("ast.SelectorList.Selectors")
	verifspec.ModifiesField("ast.Declaration.Values")
	if opts.CustomProperties != transforms.CustomPropertiesPassthrough {
		verifspec.ModifiesField("ast.DeclarationBlock.Declarations")
	}
	verifspec.ModifiesField("ast.QualifiedRuleBlock.Rules")
	verifspec.ModifiesField("ast.MediaQuery.Parts")
	verifspec.Modifies(&s.Nodes)
	verifspec.Ensures("the stylesheet", func(r *ast.Stylesheet) bool { return r == s })

	left := specLeft(opts.ImportReplacements, s.Nodes)
	valuesOff := opts.CustomProperties == transforms.CustomPropertiesPassthrough
	verifspec.Ensures("the rules that are left, in order, with those of other stylesheets in the place of imports", func(r *ast.Stylesheet) bool {
		return !valuesOff || verifspec.Same(s.Nodes, left)
	})
	rules := anyRules.Rules
	kept := specKept(rules)
	verifspec.Ensures("the rules of a block, but for those that are just a prelude", func(r *ast.Stylesheet) bool {
		return !valuesOff || verifspec.Same(anyRules.Rules, rules) || verifspec.Same(anyRules.Rules, kept)
	})
	declarations := anyDeclarations.Declarations
	verifspec.Ensures("with custom properties off, the same declarations", func(r *ast.Stylesheet) bool {
		return !valuesOff || verifspec.Same(anyDeclarations.Declarations, declarations)
	})
	values := specContents(anyDeclaration.Values)
	verifspec.Ensures("with custom properties and calc() off, the same values", func(r *ast.Stylesheet) bool {
		return !valuesOff || opts.CalcReduction != transforms.CalcReductionPassthrough || verifspec.Same(specContents(anyDeclaration.Values), values)
	})
	mediaOff := opts.CustomMediaQueries == transforms.CustomMediaQueriesPassthrough && opts.MediaFeatureRanges == transforms.MediaFeatureRangesPassthrough
	parts := specParts(anyQuery.Parts)
	verifspec.Ensures("with custom media and ranges off, the same media queries", func(r *ast.Stylesheet) bool {
		return !mediaOff || verifspec.SameStrings(specParts(anyQuery.Parts), parts)
	})
	compound, selectors := anySelector.Parts, anySelectors.Selectors
	verifspec.Ensures("with :any-link off, the same selectors", func(r *ast.Stylesheet) bool {
		return opts.AnyLink != transforms.AnyLinkPassthrough || verifspec.Same(anySelector.Parts, compound) && verifspec.Same(anySelectors.Selectors, selectors)
	})
	errors := logging.SpecErrors(opts.Reporter)
	verifspec.Ensures("with everything off, nothing is reported", func(r *ast.Stylesheet) bool {
		on := !valuesOff || !mediaOff || opts.CalcReduction != transforms.CalcReductionPassthrough || opts.ImportReplacements != nil || opts.ImportRules == transforms.ImportRulesInline
		return on || opts.Reporter == nil || logging.SpecErrors(opts.Reporter) == errors
	})
}

// anyDeclarations is an arbitrary block of declarations.
var anyDeclarations *ast.DeclarationBlock
