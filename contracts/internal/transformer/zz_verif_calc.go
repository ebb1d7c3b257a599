package transformer

import (
	"math"
	"strconv"

	"github.com/stephen/cssc/internal/ast"
	"github.com/stephen/cssc/internal/logging"
	"github.com/stephen/cssc/internal/verifspec"
)

func contract_transformer_addError(t *transformer, loc ast.Node, f string, args []interface{}) {
	verifspec.Requires(t != nil && t.Reporter != nil && loc != nil)
	n := logging.SpecErrors(t.Reporter)
	verifspec.ModifiesField("ghost:errors")
	verifspec.Ensures("reported", func() bool { return logging.SpecErrors(t.Reporter) == n+1 })
}

func contract_transformer_addWarn(t *transformer, loc ast.Node, f string, args []interface{}) {
	verifspec.Requires(t != nil && t.Reporter != nil && loc != nil)
	n := logging.SpecErrors(t.Reporter)
	verifspec.ModifiesField("ghost:errors")
	verifspec.Ensures("reported", func() bool { return logging.SpecErrors(t.Reporter) == n+1 })
}

// specNumber is a value of calc(): a number or dimension, or none.
type specNumber struct {
	ok          bool
	value, unit string
}

func specReal(s string) (float64, bool) {
	f, err := strconv.ParseFloat(s, 10)
	return f, err == nil
}

// specOp is the arithmetic: none if there is no finite result.
func specOp(left, right, op string) (float64, bool) {
	l, lok := specReal(left)
	r, rok := specReal(right)
	v := 0.0
	switch op {
	case "+":
		v = l + r
	case "-":
		v = l - r
	case "*":
		v = l * r
	case "/":
		if r == 0 {
			return 0, false
		}
		v = l / r
	default:
		return 0, false
	}
	return v, lok && rok && !math.IsInf(v, 0)
}

func specText(f float64) string { return strconv.FormatFloat(f, 'f', -1, 64) }

func contract_transformer_doMath(t *transformer, left, right, op string) {
	verifspec.Ensures("the result or an error", func(v float64, err error) bool {
		w, ok := specOp(left, right, op)
		return (err == nil) == ok && (!ok || specText(v) == specText(w))
	})
}

// specCalc is what a value is in calc(), as far as that is known.
func specCalc(v ast.Value) specNumber {
	verifspec.ByType()
	switch v := v.(type) {
	case *ast.Dimension:
		return specNumber{true, v.Value, v.Unit}
	case *ast.MathExpression:
		return specReduce(specCalc(v.Left), specCalc(v.Right), v.Operator)
	}
	return specNumber{}
}

// specReduce applies an operator, under the type rules of calc().
func specReduce(l, r specNumber, op string) specNumber {
	if !l.ok || !r.ok || specIllTyped(l, r, op) {
		return specNumber{}
	}
	if (op == "+" || op == "-") && l.unit != r.unit {
		return specNumber{}
	}
	unit := l.unit
	if op == "*" && unit == "" {
		unit = r.unit
	}
	v, ok := specOp(l.value, r.value, op)
	if op == "*" && l.unit == "" {
		v, ok = specOp(r.value, l.value, op)
	}
	if !ok {
		return specNumber{}
	}
	return specNumber{true, specText(v), unit}
}

// specIllTyped: a number and a dimension can not be added, two dimensions not multiplied, and
// nothing divided by a dimension.
func specIllTyped(l, r specNumber, op string) bool {
	switch op {
	case "+", "-":
		return (l.unit == "") != (r.unit == "")
	case "*":
		return l.unit != "" && r.unit != ""
	}
	return r.unit != ""
}

// specIll: some operation of an expression on known numbers is ill-typed or has no result.
func specIll(v ast.Value) bool {
	verifspec.ByType()
	if v, ok := v.(*ast.MathExpression); ok {
		return specIll(v.Left) || specIll(v.Right) || specIllOp(specCalc(v.Left), specCalc(v.Right), v.Operator)
	}
	return false
}

func specIllOp(l, r specNumber, op string) bool {
	if !l.ok || !r.ok {
		return false
	}
	if specIllTyped(l, r, op) {
		return true
	}
	if (op == "+" || op == "-") && l.unit != r.unit {
		return false
	}
	_, ok := specOp(l.value, r.value, op)
	if op == "*" && l.unit == "" {
		_, ok = specOp(r.value, l.value, op)
	}
	return !ok
}

func specMax(a, b int) int {
	if a > b {
		return a
	}
	return b
}

func contract_transformer_evaluateMathExpression(t *transformer, l, r ast.Value, op string) {
	verifspec.Requires(t != nil && t.Reporter != nil && l != nil && r != nil)
	verifspec.Decreases(specMax(verifspec.Height(l), verifspec.Height(r)))
	verifspec.ModifiesField("ghost:errors")
	n, want := logging.SpecErrors(t.Reporter), specReduce(specCalc(l), specCalc(r), op)
	ill := specIll(l) || specIll(r) || specIllOp(specCalc(l), specCalc(r), op)
	verifspec.Ensures("the value of the expression", func(v ast.Value) bool {
		d, ok := v.(*ast.Dimension)
		return (v != nil) == want.ok && (v == nil || ok && d.Value == want.value && d.Unit == want.unit)
	})
	verifspec.Ensures("ill-typed operations are reported", func(v ast.Value) bool {
		return logging.SpecErrors(t.Reporter) >= n && (!ill || logging.SpecErrors(t.Reporter) > n)
	})
}
