// Package verifspec has the vocabulary of contracts. Contracts are Go functions that the verifier
// (gocv) interprets symbolically; nothing here is part of the program.
package verifspec

import "unicode/utf8"

// Requires states a precondition.
func Requires(bool) {}

// Ensures states a named postcondition. post is a function of the results; what it captures has
// the value from before the call, what it reads from memory has the value from after it.
func Ensures(name string, post interface{}) {}

// EnsuresPanic states a named postcondition for when the function panics with *lexer.Error.
func EnsuresPanic(name string, post interface{}) {}

// MayPanic allows the function to panic with *lexer.Error (and nothing else).
func MayPanic() {}

// Modifies lists the locations (pointers to fields) or objects (pointers) that may change. Objects
// that the function allocates may always change.
func Modifies(locs ...interface{}) {}

// Invariant states a loop invariant for any loop of the function. Its parameters are bound to the
// variables of that loop in every way that their types allow; the bindings that are not inductive
// are dropped.
func Invariant(inv interface{}) {}

// Decreases states a termination measure of the function, for recursion.
func Decreases(measure ...int) {}

// LoopDecreases states a termination measure for loops, like Invariant.
func LoopDecreases(measure interface{}) {}

// Unroll lets loops be unrolled up to n times; that no more iterations are possible is proved.
func Unroll(n int) {}

// Fuel is how often recursive functions are unfolded in proofs.
func Fuel(n int) {}

// Trusted marks a contract as assumed.
func Trusted(why string) {}

// Fresh states that the function's result is a new object.
func Fresh() {}

// Use applies a lemma, in a postcondition or invariant.
func Use(lemma bool) bool { return lemma }

// Implies is a => b.
func Implies(a, b bool) bool { return !a || b }

// Forall states that p holds for all lo <= i < hi.
func Forall(lo, hi int, p func(i int) bool) bool {
	for i := lo; i < hi; i++ {
		if !p(i) {
			return false
		}
	}
	return true
}

// ModifiesField allows a field, named like "ast.Selector.Parts", to change in any object.
func ModifiesField(field string) {}

// Cases makes the proof of a function treat the cases that cond holds, and that it does not,
// separately. What ModifiesField says under a condition must be decided in each case.
func Cases(cond bool) {}

// ModifiesAny leaves out the check of what is modified; callers may not use the contract.
func ModifiesAny() {}

// Inline keeps callers from using the contract: the body is used, with its loop invariants.
func Inline() {}

// SameBytes is equality of slices.
func SameBytes(a, b []byte) bool { return string(a) == string(b) }

// Split makes a proof treat each value lo <= x < hi separately.
func Split(x, lo, hi int) {}

// Opaque makes proofs treat the specification function that it is called in like a recursive one:
// applications are unfolded in queries.
func Opaque() {}

// RuneAt is the code point that starts at byte i of s.
func RuneAt(s string, i int) rune {
	r, _ := utf8.DecodeRuneInString(s[i:])
	return r
}

// RuneWidth is the number of its bytes.
func RuneWidth(s string, i int) int {
	_, w := utf8.DecodeRuneInString(s[i:])
	return w
}

// SameInts is equality of slices.
func SameInts(a, b []int) bool { return len(a) == len(b) && Forall(0, len(a), func(i int) bool { return a[i] == b[i] }) }

// SameStrings is equality of slices.
func SameStrings(a, b []string) bool {
	return len(a) == len(b) && Forall(0, len(a), func(i int) bool { return a[i] == b[i] })
}

// At uses lemmas before each call of the named function. The parameters of the function stand for
// all values of their types that are at hand.
func At(callee string, lemmas interface{}) {}

// Hidden is like Opaque, but only proofs whose contract reveals the function unfold it.
func Hidden() {}

// Reveal lets the proof of a function unfold the named hidden function.
func Reveal(name string) {}

// Height is the height of a syntax tree, or of a list of them: what a node refers to is lower.
func Height(tree interface{}) int { return 0 }

// ModifiesBelow allows to change a field of the objects of a rank below a bound.
func ModifiesBelow(field string, bound int) {}

// Rank is the rank of a node, or of a list of nodes: a number that does not change, above the ranks
// of what is in the list, and of what the node refers to if its invariant says so.
func Rank(tree interface{}) int { return 0 }

// ID is a number that tells nodes apart.
func ID(node interface{}) int { return 0 }

// ByType is like Opaque; applications are unfolded where the type of the first argument is known.
func ByType() {}

// Ghost is a number that only specifications know, for an object. It changes where
// ModifiesField("ghost:" + name) says so.
func Ghost(object interface{}, name string) int { return 0 }

// Same is equality of sequences of structures.
func Same(a, b interface{}) bool { return false }

// JSON is the string that json.Unmarshal decodes for a key in lower case, which is empty without
// the key.
func JSON(data []byte, key string) string { return "" }

// JSONError is the error of json.Unmarshal.
func JSONError(data []byte) error { return nil }
