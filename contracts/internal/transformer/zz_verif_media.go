package transformer

import (
	"strconv"
	"strings"

	"github.com/stephen/cssc/internal/ast"
	"github.com/stephen/cssc/internal/logging"
	"github.com/stephen/cssc/internal/verifspec"
	"github.com/stephen/cssc/transforms"
)

// specMoved is a bound moved by diff.
func specMoved(v ast.Value, diff float64) specValue {
	verifspec.ByType()
	if d, is := v.(*ast.Dimension); is {
		if f, err := strconv.ParseFloat(d.Value, 64); err == nil {
			return specDimension(specNumber{true, strconv.FormatFloat(f+diff, 'f', -1, 64), d.Unit})
		}
	}
	return specContent(v)
}

// specMovable: only numbers are.
func specMovable(v ast.Value) bool {
	verifspec.ByType()
	d, ok := v.(*ast.Dimension)
	if !ok {
		return false
	}
	_, err := strconv.ParseFloat(d.Value, 64)
	return err == nil
}

func contract_transformer_addToValue(t *transformer, v ast.Value, diff float64) {
	verifspec.Requires(t != nil && t.Reporter != nil && v != nil)
	verifspec.ModifiesField("ghost:errors")
	n := logging.SpecErrors(t.Reporter)
	verifspec.Ensures("the bound", func(r ast.Value) bool {
		return r != nil && (diff == 0 && r == v && specContent(r) == specContent(v) || diff != 0 && specContent(r) == specMoved(v, diff) && (specMovable(v) || r == v))
	})
	verifspec.Ensures("reports what can not be moved", func(r ast.Value) bool {
		if diff == 0 || specMovable(v) {
			return logging.SpecErrors(t.Reporter) == n
		}
		return logging.SpecErrors(t.Reporter) == n+1
	})
}

// specPart is the content of a part of a media query.
func specPart(p ast.MediaQueryPart) string {
	verifspec.ByType()
	switch p := p.(type) {
	case *ast.Identifier:
		return "identifier " + p.Value
	case *ast.MediaFeaturePlain:
		return specFeature(p.Property.Value, p.Value)
	case *ast.MediaFeatureRange:
		return "range " + specBound(p.LeftValue) + p.Operator + p.Property.Value + p.Operator + specBound(p.RightValue)
	}
	return ""
}

func specBound(v ast.Value) string {
	if v == nil {
		return ""
	}
	return specContent(v).text
}

func specFeature(property string, v ast.Value) string {
	if v == nil {
		return "feature " + property
	}
	return specFeatureOf(property, specContent(v))
}

func specFeatureOf(property string, v specValue) string {
	return "feature " + property + ": " + v.text
}

func specParts(ps []ast.MediaQueryPart) []string {
	n := len(ps) - 1
	if n < 0 {
		return nil
	}
	return append(specParts(ps[:n]), specPart(ps[n]))
}

func lemma_cat_specParts(a, b []ast.MediaQueryPart) bool {
	verifspec.Decreases(len(b))
	n := len(b) - 1
	if n >= 0 {
		verifspec.Use(lemma_cat_specParts(a, b[:n]))
	}
	return verifspec.SameStrings(specParts(append(a, b...)), append(specParts(a), specParts(b)...))
}

// specAtLeast is the feature that means that property is at least v, or greater if strict.
func specAtLeast(property string, v ast.Value, strict bool) string {
	if !strict {
		return specFeatureOf("min-"+property, specContent(v))
	}
	w := specMoved(v, .001)
	return specFeatureOf("min-"+property, w)
}

// specAtMost is the feature that means that property is at most v, or less if strict.
func specAtMost(property string, v ast.Value, strict bool) string {
	if !strict {
		return specFeatureOf("max-"+property, specContent(v))
	}
	w := specMoved(v, -.001)
	return specFeatureOf("max-"+property, w)
}

// specRange is what a range is replaced by.
func specRange(t *transformer, r *ast.MediaFeatureRange) []string {
	if t.MediaFeatureRanges == transforms.MediaFeatureRangesPassthrough {
		return []string{"range " + specBound(r.LeftValue) + r.Operator + r.Property.Value + r.Operator + specBound(r.RightValue)}
	}
	strict := r.Operator == "<" || r.Operator == ">"
	var left, right string
	if r.Operator == "<" || r.Operator == "<=" {
		// left < property < right
		left = specAtLeast(r.Property.Value, r.LeftValue, strict)
		right = specAtMost(r.Property.Value, r.RightValue, strict)
	} else {
		left = specAtMost(r.Property.Value, r.LeftValue, strict)
		right = specAtLeast(r.Property.Value, r.RightValue, strict)
	}
	switch {
	case r.RightValue == nil:
		return []string{left}
	case r.LeftValue == nil:
		return []string{right}
	}
	return []string{left, "identifier and", right}
}

// specUnmovable: a strict bound that can not be moved.
func specUnmovable(r *ast.MediaFeatureRange, v ast.Value) bool {
	return v != nil && (r.Operator == "<" || r.Operator == ">") && !specMovable(v)
}

func contract_transformer_transformMediaFeatureRange(t *transformer, part *ast.MediaFeatureRange) {
	verifspec.Requires(t != nil && t.Reporter != nil && part != nil)
	verifspec.ModifiesField("ghost:errors")
	n := logging.SpecErrors(t.Reporter)
	bad := t.MediaFeatureRanges != transforms.MediaFeatureRangesPassthrough && (specUnmovable(part, part.LeftValue) || specUnmovable(part, part.RightValue))
	verifspec.Ensures("the features", func(r []ast.MediaQueryPart) bool {
		return verifspec.SameStrings(specParts(r), specRange(t, part))
	})
	verifspec.Ensures("with the option off, the range itself", func(r []ast.MediaQueryPart) bool {
		return t.MediaFeatureRanges != transforms.MediaFeatureRangesPassthrough || verifspec.Same(r, []ast.MediaQueryPart{part})
	})
	verifspec.Ensures("what is not numeric is reported", func(r []ast.MediaQueryPart) bool {
		return logging.SpecErrors(t.Reporter) >= n && bad == (logging.SpecErrors(t.Reporter) > n)
	})
}

// specLowered is what a part of a media query is replaced by.
func specLowered(t *transformer, p ast.MediaQueryPart) []string {
	verifspec.ByType()
	switch p := p.(type) {
	case *ast.MediaFeaturePlain:
		if p.Value == nil && strings.HasPrefix(p.Property.Value, "--") && t.customMedia != nil {
			if q, ok := t.customMedia[p.Property.Value]; ok {
				return specParts(q.Parts)
			}
		}
	case *ast.MediaFeatureRange:
		return specRange(t, p)
	}
	return []string{specPart(p)}
}

func specLoweredAll(t *transformer, ps []ast.MediaQueryPart) []string {
	n := len(ps) - 1
	if n < 0 {
		return nil
	}
	return append(specLoweredAll(t, ps[:n]), specLowered(t, ps[n])...)
}

// specMediaOff: the transforms of media queries are off.
func specMediaOff(t *transformer) bool {
	return t.customMedia == nil && t.MediaFeatureRanges == transforms.MediaFeatureRangesPassthrough
}

func lemma_partOff(t *transformer, p ast.MediaQueryPart) bool {
	if t == nil || !specMediaOff(t) {
		return true
	}
	switch p.(type) {
	case *ast.MediaFeatureRange:
		verifspec.Use(lemma_true())
	case *ast.MediaFeaturePlain:
		verifspec.Use(lemma_true())
	case *ast.Identifier:
		verifspec.Use(lemma_true())
	}
	return verifspec.SameStrings(specLowered(t, p), []string{specPart(p)})
}

// lemma_mediaOff: with the transforms off, the parts of a media query are not replaced.
func lemma_mediaOff(t *transformer, ps []ast.MediaQueryPart) bool {
	verifspec.Decreases(len(ps))
	if t == nil || !specMediaOff(t) {
		return true
	}
	if n := len(ps) - 1; n >= 0 {
		verifspec.Use(lemma_mediaOff(t, ps[:n]))
		verifspec.Use(lemma_partOff(t, ps[n]))
	}
	return verifspec.SameStrings(specLoweredAll(t, ps), specParts(ps))
}

func contract_transformer_transformMediaQueryParts(t *transformer, parts []ast.MediaQueryPart) {
	verifspec.Requires(t != nil && t.Reporter != nil)
	verifspec.ModifiesField("ghost:errors")
	n := logging.SpecErrors(t.Reporter)
	verifspec.Invariant(func(i int, newParts []ast.MediaQueryPart) bool {
		return verifspec.SameStrings(specParts(newParts), specLoweredAll(t, parts[:i]))
	})
	verifspec.Invariant(func(i int, newParts []ast.MediaQueryPart) bool {
		return verifspec.SameStrings(specParts(newParts), specLoweredAll(t, parts[:i+1]))
	})
	verifspec.Invariant(func() bool { return logging.SpecErrors(t.Reporter) >= n })
	verifspec.Ensures("the parts", func(r []ast.MediaQueryPart) bool {
		return verifspec.SameStrings(specParts(r), specLoweredAll(t, parts))
	})
	verifspec.Ensures("reports", func(r []ast.MediaQueryPart) bool { return logging.SpecErrors(t.Reporter) >= n })
	specQuiet(t, specMediaOff(t))
}
