package transformer

import (
	"github.com/stephen/cssc/internal/ast"
	"github.com/stephen/cssc/internal/logging"
	"github.com/stephen/cssc/internal/verifspec"
	"github.com/stephen/cssc/transforms"
)

// specValue is the content of a value: everything but where it is.
type specValue struct {
	text string
	math bool // a math expression
	num  specNumber
}

func specDimension(n specNumber) specValue {
	return specValue{"dimension " + n.value + " " + n.unit, false, n}
}

func specFunction(name string, args []specValue) specValue {
	return specValue{text: "function " + name + "(" + specJoin(args) + ")"}
}

func specMath(l, r specValue, op string) specValue {
	return specValue{"math " + op + "(" + l.text + ", " + r.text + ")", true, specReduce(l.num, r.num, op)}
}

func specJoin(vs []specValue) string {
	n := len(vs) - 1
	if n < 0 {
		return ""
	}
	return specJoin(vs[:n]) + vs[n].text + " "
}

// specContent is the content of a value.
func specContent(v ast.Value) specValue {
	verifspec.ByType()
	switch v := v.(type) {
	case *ast.Dimension:
		return specDimension(specNumber{true, v.Value, v.Unit})
	case *ast.Identifier:
		return specValue{text: "identifier " + v.Value}
	case *ast.String:
		return specValue{text: "string " + v.Value}
	case *ast.HexColor:
		return specValue{text: "color " + v.RGBA}
	case *ast.Raw:
		return specValue{text: "raw " + v.Value}
	case *ast.Comma:
		return specValue{text: "comma"}
	case *ast.Brackets:
		return specValue{text: "brackets(" + specJoin(specContents(v.Values)) + ")"}
	case *ast.Function:
		return specFunction(v.Name, specContents(v.Arguments))
	case *ast.MathExpression:
		return specMath(specContent(v.Left), specContent(v.Right), v.Operator)
	case *ast.MathParenthesizedExpression:
		return specValue{text: "parens(" + specContent(v.Value).text + ")"}
	}
	return specValue{}
}

// lemma_any_specContent: only math expressions are, and the content of a value determines what it
// is in calc().
func lemma_any_specContent(v ast.Value) bool {
	verifspec.Decreases(verifspec.Height(v))
	_, ok := v.(*ast.MathExpression)
	switch v := v.(type) {
	case *ast.Dimension, *ast.Identifier, *ast.String, *ast.HexColor, *ast.Raw, *ast.Comma, *ast.Brackets, *ast.Function, *ast.MathParenthesizedExpression:
		verifspec.Use(lemma_true())
	case *ast.MathExpression:
		verifspec.Use(lemma_any_specContent(v.Left))
		verifspec.Use(lemma_any_specContent(v.Right))
	}
	return specContent(v).math == ok && specContent(v).num == specCalc(v)
}

func specContents(vs []ast.Value) []specValue {
	n := len(vs) - 1
	if n < 0 {
		return nil
	}
	return append(specContents(vs[:n]), specContent(vs[n]))
}

func lemma_cat_specContents(a, b []ast.Value) bool {
	verifspec.Decreases(len(b))
	n := len(b) - 1
	if n >= 0 {
		verifspec.Use(lemma_cat_specContents(a, b[:n]))
	}
	return verifspec.Same(specContents(append(a, b...)), append(specContents(a), specContents(b)...))
}

func contract_relocate(value ast.Value, span ast.Span) {
	verifspec.Requires(value != nil && 0 <= span.Start && span.Start < ast.SpecMost && 0 <= span.End && span.End < ast.SpecMost)
	verifspec.Ensures("the same content", func(r ast.Value) bool {
		return r != nil && specContent(r) == specContent(value)
	})
}

// specReplaced is what a value is replaced by.
func specReplaced(t *transformer, value ast.Value) []specValue {
	verifspec.ByType()
	switch v := value.(type) {
	case *ast.Function:
		if v.Name == "var" && t.variables != nil {
			if len(v.Arguments) == 0 {
				break
			}
			name, ok := v.Arguments[0].(*ast.Identifier)
			if !ok {
				break
			}
			if vals, ok := t.variables[name.Value]; ok {
				return specContents(vals)
			}
			if len(v.Arguments) > 2 {
				return specReplacedAll(t, v.Arguments[2:])
			}
			break
		}
		args := specReplacedAll(t, v.Arguments)
		if v.Name == "calc" && t.CalcReduction != transforms.CalcReductionPassthrough && len(args) == 1 && args[0].math && args[0].num.ok {
			return []specValue{specDimension(args[0].num)}
		}
		return []specValue{specFunction(v.Name, args)}
	case *ast.Brackets:
		vs := specReplacedAll(t, v.Values)
		return []specValue{{text: "brackets(" + specJoin(vs) + ")"}}
	case *ast.MathExpression:
		return []specValue{specMath(specOperand(t, v.Left), specOperand(t, v.Right), v.Operator)}
	case *ast.MathParenthesizedExpression:
		return []specValue{{text: "parens(" + specOperand(t, v.Value).text + ")"}}
	}
	return []specValue{specContent(value)}
}

func specReplacedAll(t *transformer, vs []ast.Value) []specValue {
	n := len(vs) - 1
	if n < 0 {
		return nil
	}
	return append(specReplacedAll(t, vs[:n]), specReplaced(t, vs[n])...)
}

// specOperand: operands of math are only replaced by single values.
func specOperand(t *transformer, v ast.Value) specValue {
	r := specReplaced(t, v)
	if len(r) != 1 {
		return specContent(v)
	}
	return r[0]
}

// specValuesOff: the transforms of values are off.
func specValuesOff(t *transformer) bool {
	return t.variables == nil && t.CalcReduction == transforms.CalcReductionPassthrough
}

// lemma_off: with the transforms off, a value is not replaced.
func lemma_off(t *transformer, v ast.Value) bool {
	verifspec.Decreases(verifspec.Height(v), 1)
	if t == nil || !specValuesOff(t) {
		return true
	}
	switch v := v.(type) {
	case *ast.Function:
		verifspec.Use(lemma_offAll(t, v.Arguments))
	case *ast.Brackets:
		verifspec.Use(lemma_offAll(t, v.Values))
	case *ast.MathExpression:
		verifspec.Use(lemma_off(t, v.Left))
		verifspec.Use(lemma_off(t, v.Right))
	case *ast.MathParenthesizedExpression:
		verifspec.Use(lemma_off(t, v.Value))
	}
	return verifspec.Same(specReplaced(t, v), []specValue{specContent(v)})
}

func lemma_offAll(t *transformer, vs []ast.Value) bool {
	verifspec.Decreases(verifspec.Height(vs), 0, len(vs))
	if t == nil || !specValuesOff(t) {
		return true
	}
	if n := len(vs) - 1; n >= 0 {
		verifspec.Use(lemma_offAll(t, vs[:n]))
		verifspec.Use(lemma_off(t, vs[n]))
	}
	return verifspec.Same(specReplacedAll(t, vs), specContents(vs))
}

func contract_transformer_transformValues(t *transformer, values []ast.Value) {
	verifspec.Requires(t != nil && t.Reporter != nil)
	verifspec.Decreases(verifspec.Height(values), 0)
	verifspec.ModifiesField("ghost:errors")
	n := logging.SpecErrors(t.Reporter)
	verifspec.Invariant(func(i int, rv []ast.Value) bool {
		return verifspec.Same(specContents(rv), specReplacedAll(t, values[:i]))
	})
	verifspec.Invariant(func(i int, rv []ast.Value) bool {
		return verifspec.Same(specContents(rv), specReplacedAll(t, values[:i+1]))
	})
	verifspec.Invariant(func(i int, vals, newValues []ast.Value) bool {
		return verifspec.Same(specContents(newValues), specContents(vals[:i]))
	})
	verifspec.Invariant(func(i int, vals, newValues []ast.Value) bool {
		return verifspec.Same(specContents(newValues), specContents(vals[:i+1]))
	})
	verifspec.Invariant(func() bool { return logging.SpecErrors(t.Reporter) >= n })
	verifspec.Ensures("the replaced values", func(r []ast.Value) bool {
		return verifspec.Same(specContents(r), specReplacedAll(t, values))
	})
	verifspec.Ensures("reports", func(r []ast.Value) bool { return logging.SpecErrors(t.Reporter) >= n })
	off := specValuesOff(t)
	verifspec.Invariant(func(i int, rv []ast.Value) bool { return !off || len(rv) == i })
	verifspec.Invariant(func(i int, rv []ast.Value) bool { return !off || len(rv) == i+1 })
	specQuiet(t, off)
	verifspec.Ensures("with the transforms off, as many values", func(r []ast.Value) bool { return !off || len(r) == len(values) })
}

// specQuiet states that nothing is reported if transforms are off.
func specQuiet(t *transformer, off bool) {
	n := logging.SpecErrors(t.Reporter)
	verifspec.Invariant(func() bool { return !off || logging.SpecErrors(t.Reporter) == n })
	verifspec.Ensures("with the transforms off, nothing is reported", func() bool { return !off || logging.SpecErrors(t.Reporter) == n })
}

func contract_transformer_transformMathOperand(t *transformer, operand ast.Value, description string) {
	verifspec.Requires(t != nil && t.Reporter != nil && operand != nil)
	verifspec.Decreases(verifspec.Height(operand)+1, 1)
	verifspec.ModifiesField("ghost:errors")
	n := logging.SpecErrors(t.Reporter)
	verifspec.Ensures("the replaced value", func(r ast.Value) bool {
		return r != nil && specContent(r) == specOperand(t, operand)
	})
	verifspec.Ensures("reports", func(r ast.Value) bool { return logging.SpecErrors(t.Reporter) >= n })
	specQuiet(t, specValuesOff(t))
}

func lemma_true() bool { return true }
