package main

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"sync"
)

// Sort is an SMT sort. Go values map to: Int (integers, references, interfaces, maps),
// Bool, Str (strings, also strings.Builder contents), Seq (slices and arrays), Flt (floats).
type Sort string

const (
	SInt  Sort = "Int"
	SBool Sort = "Bool"
	SStr  Sort = "Str"
	SSeq  Sort = "Seq"
	SFlt  Sort = "Flt"
)

// Term is a hash-consed term.
type Term struct {
	id     int
	op     string // "int", "true", "sym", "str", or an operator/function name
	args   []*Term
	sort   Sort
	name   string   // for sym/str/uf
	n      *big.Int // for int
	facts  []*Term  // definitional facts, asserted whenever the term occurs
	stamp  int      // for references: 1 + number of allocations when it came into being
	bound  bool     // contains a bound variable
	htFact bool     // see lower
	rec    *recApp  // recursive spec function application
}

// recApp is how to unfold a recursive spec function application.
type recApp struct {
	unfold func() *Term
	done   bool
	def    *Term
	// for functions that are only unfolded where the type of what they are applied to is known
	subject *Term
	unfoldT func(tag int64) *Term
	defT    map[int64]*Term
	// defN is the unfolding for a type that is none of the types in other
	unfoldN func() (*Term, []int64)
	defN    *Term
	doneN   bool
	other   []int64
	// lemma is what holds for all types
	lemma  func() *Term
	lemmaT *Term
}

// otherType is the tag of a value whose type is none of those that it is compared with.
const otherType = -1 << 40

// Ctx owns terms. One per verified function: no locking on the hot path.
type Ctx struct {
	tab   map[string]*Term
	nid   int
	fresh int
	// compared is what otherType was compared with
	compared []int64
	decls    map[string]decl // uninterpreted functions and symbols
	order    []string
	strs     []*Term
	alloc    int // number of allocations so far
	dix      map[int]int
	dpos     map[string]int
	negs     map[int]*Term
}

type decl struct {
	args []Sort
	res  Sort
}

func newCtx() *Ctx {
	return &Ctx{negs: map[int]*Term{}, tab: map[string]*Term{}, decls: map[string]decl{}}
}

var tidMu sync.Mutex
var tids = map[string]int{}

// typeID numbers dynamic types; stable within a run.
func typeID(s string) int {
	tidMu.Lock()
	defer tidMu.Unlock()
	if n, ok := tids[s]; ok {
		return n
	}
	tids[s] = len(tids) + 1
	return tids[s]
}

func (c *Ctx) mk(op string, sort Sort, name string, n *big.Int, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(string(sort))
	b.WriteByte('|')
	b.WriteString(name)
	if n != nil {
		b.WriteString(n.String())
	}
	for _, a := range args {
		b.WriteByte('|')
		b.WriteString(strconv.Itoa(a.id))
	}
	k := b.String()
	if t, ok := c.tab[k]; ok {
		return t
	}
	c.nid++
	t := &Term{id: c.nid, op: op, sort: sort, name: name, n: n, args: args}
	for _, a := range args {
		if a.bound {
			t.bound = true
		}
	}
	c.tab[k] = t
	return t
}

func (c *Ctx) Int(n int64) *Term    { return c.mk("int", SInt, "", big.NewInt(n)) }
func (c *Ctx) Big(n *big.Int) *Term { return c.mk("int", SInt, "", n) }
func (c *Ctx) True() *Term          { return c.mk("true", SBool, "", nil) }
func (c *Ctx) False() *Term         { return c.mk("false", SBool, "", nil) }
func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.True()
	}
	return c.False()
}

func (c *Ctx) Sym(name string, s Sort) *Term {
	if _, ok := c.decls[name]; !ok {
		c.decls[name] = decl{nil, s}
		c.order = append(c.order, name)
	}
	t := c.mk("sym", s, name, nil)
	c.intrinsicFacts(t)
	return t
}

func (c *Ctx) Fresh(hint string, s Sort) *Term {
	c.fresh++
	t := c.Sym(fmt.Sprintf("%s!%d", clean(hint), c.fresh), s)
	if s == SSeq {
		t.stamp = c.alloc + 1
	}
	return t
}

func clean(s string) string {
	var b strings.Builder
	for _, r := range s {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || strings.ContainsRune("_!.$*/-", r) {
			b.WriteRune(r)
		} else {
			b.WriteByte('_')
		}
	}
	return b.String()
}

// intrinsicFacts adds facts that hold for every term of a sort.
func (c *Ctx) intrinsicFacts(t *Term) {
	if t.facts != nil {
		return
	}
	switch t.sort {
	case SStr:
		if t.op == "sym" || t.op == "uf" || t.op == "ite" {
			t.facts = []*Term{c.mk(">=", SBool, "", nil, c.slenRaw(t), c.Int(0))}
		}
	case SSeq:
		if t.op == "sym" || t.op == "uf" || t.op == "ite" {
			t.facts = []*Term{c.mk(">=", SBool, "", nil, c.mk("uf", SInt, "len", nil, t), c.Int(0))}
			c.declare("len", []Sort{SSeq}, SInt)
		}
	}
}

func (c *Ctx) declare(name string, args []Sort, res Sort) {
	if _, ok := c.decls[name]; !ok {
		c.decls[name] = decl{args, res}
		c.order = append(c.order, name)
	}
}

// UF applies an uninterpreted function.
func (c *Ctx) UF(name string, res Sort, args ...*Term) *Term {
	name = clean(name)
	ss := make([]Sort, len(args))
	for i, a := range args {
		ss[i] = a.sort
	}
	if d, ok := c.decls[name]; ok {
		if len(d.args) != len(ss) || d.res != res {
			panic(fmt.Sprintf("uf %s redeclared: %v %v vs %v %v", name, d.args, d.res, ss, res))
		}
		for i := range ss {
			if ss[i] != d.args[i] {
				panic(fmt.Sprintf("uf %s redeclared: %v vs %v", name, d.args, ss))
			}
		}
	}
	c.declare(name, ss, res)
	t := c.mk("uf", res, name, nil, args...)
	c.intrinsicFacts(t)
	return t
}

func (t *Term) isInt() bool   { return t.op == "int" }
func (t *Term) isTrue() bool  { return t.op == "true" }
func (t *Term) isFalse() bool { return t.op == "false" }
func (t *Term) i64() int64    { return t.n.Int64() }

// ---- booleans

func (c *Ctx) Not(a *Term) *Term {
	switch a.op {
	case "true":
		return c.False()
	case "false":
		return c.True()
	case "not":
		return a.args[0]
	case "and", "or":
		// negation normal form
		if n, ok := c.negs[a.id]; ok {
			return n
		}
		ns := make([]*Term, len(a.args))
		for i, x := range a.args {
			ns[i] = c.Not(x)
		}
		op := "or"
		if a.op == "or" {
			op = "and"
		}
		n := c.mk(op, SBool, "", nil, ns...)
		c.negs[a.id] = n
		c.negs[n.id] = a
		return n
	}
	return c.mk("not", SBool, "", nil, a)
}

func (c *Ctx) And(xs ...*Term) *Term { return c.junction("and", "or", xs) }

func (c *Ctx) Or(xs ...*Term) *Term { return c.junction("or", "and", xs) }

// junction makes a conjunction (or, dually, a disjunction), with unit propagation.
func (c *Ctx) junction(op, dual string, xs []*Term) *Term {
	unit, zero := c.True(), c.False()
	if op == "or" {
		unit, zero = zero, unit
	}
	var out []*Term
	seen := map[int]bool{}
	var add func(xs []*Term)
	add = func(xs []*Term) {
		for _, x := range xs {
			if x.op == op {
				add(x.args)
				continue
			}
			if x == unit || seen[x.id] {
				continue
			}
			seen[x.id] = true
			out = append(out, x)
		}
	}
	add(xs)
	for {
		if seen[zero.id] {
			return zero
		}
		changed := false
		for i, x := range out {
			if x.op != dual {
				if seen[c.Not(x).id] {
					return zero
				}
				continue
			}
			if seen[c.Not(x).id] {
				return zero
			}
			var keep []*Term
			drop := false
			for _, y := range x.args {
				if seen[y.id] {
					drop = true
					break
				}
				if !seen[c.Not(y).id] {
					keep = append(keep, y)
				}
			}
			if !drop && len(keep) == len(x.args) {
				continue
			}
			changed = true
			rest := append(append([]*Term{}, out[:i]...), out[i+1:]...)
			out = nil
			seen = map[int]bool{}
			add(rest[:i])
			if !drop {
				var n *Term
				switch len(keep) {
				case 0:
					return zero
				case 1:
					n = keep[0]
				default:
					n = c.mk(dual, SBool, "", nil, keep...)
				}
				add([]*Term{n})
			}
			add(rest[i:])
			break
		}
		if !changed {
			break
		}
	}
	switch len(out) {
	case 0:
		return unit
	case 1:
		return out[0]
	}
	return c.mk(op, SBool, "", nil, out...)
}

func (c *Ctx) Implies(a, b *Term) *Term { return c.Or(c.Not(a), b) }

func (c *Ctx) Ite(g, a, b *Term) *Term {
	if g.isTrue() || a == b {
		return a
	}
	if g.isFalse() {
		return b
	}
	if a.sort == SBool {
		if a.isTrue() && b.isFalse() {
			return g
		}
		if a.isFalse() && b.isTrue() {
			return c.Not(g)
		}
		if a.isTrue() {
			return c.Or(g, b)
		}
		if a.isFalse() {
			return c.And(c.Not(g), b)
		}
		if b.isTrue() {
			return c.Or(c.Not(g), a)
		}
		if b.isFalse() {
			return c.And(g, a)
		}
	}
	if g.op == "not" {
		return c.Ite(g.args[0], b, a)
	}
	if a.op == "ite" && a.args[0] == g {
		a = a.args[1]
	}
	if b.op == "ite" && b.args[0] == g {
		b = b.args[2]
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("ite sorts %s %s", a.sort, b.sort))
	}
	t := c.mk("ite", a.sort, "", nil, g, a, b)
	c.intrinsicFacts(t)
	return t
}

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.True()
	}
	if a.isInt() && b.isInt() {
		if a.i64() == otherType {
			c.compared = append(c.compared, b.i64())
		} else if b.i64() == otherType {
			c.compared = append(c.compared, a.i64())
		}
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("eq sorts %s:%s %s:%s", show(a), a.sort, show(b), b.sort))
	}
	if a.sort == SBool {
		if a.isTrue() {
			return b
		}
		if b.isTrue() {
			return a
		}
		if a.isFalse() {
			return c.Not(b)
		}
		if b.isFalse() {
			return c.Not(a)
		}
	}
	if a.isInt() && b.isInt() {
		return c.Bool(a.n.Cmp(b.n) == 0)
	}
	if a.sort == SInt {
		if c.apart(a, b) || c.apart(b, a) {
			return c.False()
		}
		d := c.Sub(a, b)
		if d.isInt() {
			return c.Bool(d.n.Sign() == 0)
		}
		if l, ok := c.lower(d); ok && l.Sign() > 0 {
			return c.False()
		}
		if l, ok := c.lower(c.Neg(d)); ok && l.Sign() > 0 {
			return c.False()
		}
		if d.op == "*" && d.args[0].isInt() {
			return c.Eq(d.args[1], c.Int(0))
		}
		if d.op == "+" && len(d.args) == 2 && (d.args[0].op == "*" && d.args[1].isInt() || d.args[1].op == "*" && d.args[0].isInt()) {
			t, k := d.args[0], d.args[1]
			if k.op == "*" {
				t, k = k, t
			}
			if t.args[0].isInt() {
				q, r := new(big.Int).QuoRem(new(big.Int).Neg(k.n), t.args[0].n, new(big.Int))
				if r.Sign() != 0 {
					return c.False()
				}
				a, b = t.args[1], c.Big(q)
			}
		}
	}
	if a.op == "str" && b.op == "str" {
		return c.Bool(a.name == b.name)
	}
	if a.op == "chr" && b.op == "chr" {
		return c.Eq(a.args[0], b.args[0])
	}
	// push equality with a constant into ite
	if isConst(b) && a.op == "ite" && (isConst(a.args[1]) || isConst(a.args[2])) {
		return c.Ite(a.args[0], c.Eq(a.args[1], b), c.Eq(a.args[2], b))
	}
	if isConst(a) && b.op == "ite" && (isConst(b.args[1]) || isConst(b.args[2])) {
		return c.Ite(b.args[0], c.Eq(a, b.args[1]), c.Eq(a, b.args[2]))
	}
	if a.sort == SStr {
		// equality with the empty string or a short constant: compare lengths and bytes
		if b.op == "str" && a.op != "str" {
			return c.strEqConst(a, b)
		}
		if a.op == "str" && b.op != "str" {
			return c.strEqConst(b, a)
		}
		// cancel common suffixes of concatenations
		if a.op == "scat" && b.op == "scat" {
			if a.args[1] == b.args[1] {
				return c.Eq(a.args[0], b.args[0])
			}
			if a.args[0] == b.args[0] && (a.args[1].op == "chr" || b.args[1].op == "chr") {
				return c.Eq(a.args[1], b.args[1])
			}
		}
	}
	if a.op == "sub" && b.op == "snoc" {
		a, b = b, a
	}
	if a.op == "snoc" && b.op == "sub" {
		// the last elements, and the rest
		s, i, j := b.args[0], b.args[1], c.Sub(b.args[2], c.Int(1))
		out := []*Term{c.Le(i, j), c.Eq(a.args[0], c.Sub3(s, i, j))}
		for k, e := range a.args[1:] {
			out = append(out, c.Eq(e, c.At(s, j, k, e.sort)))
		}
		return c.And(out...)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk("=", SBool, "", nil, a, b)
}

// existedAt holds if r is a reference to an object from before stamp n.
func (c *Ctx) existedAt(r *Term, n int) bool {
	if r.isInt() {
		return r.n.Sign() >= 0 || ownAlloc(r) && int(-r.i64()) < n
	}
	return r.stamp > 0 && r.stamp <= n
}

// stampOf bounds when what t refers to came into being.
func (c *Ctx) stampOf(t *Term) (int, bool) {
	if t.sort != SInt && t.sort != SSeq {
		return 0, true
	}
	if t.stamp > 0 {
		return t.stamp, true
	}
	switch t.op {
	case "int":
		if ownAlloc(t) {
			return int(-t.i64()) + 1, true
		}
		return 0, true
	case "lit", "bytes":
		return 0, true
	case "snoc", "cat", "upd", "ite", "sub", "fill":
		args := t.args
		switch t.op {
		case "sub":
			args = args[:1]
		case "ite", "fill":
			args = args[1:]
		case "upd":
			args = append([]*Term{args[0]}, args[2:]...)
		}
		s := 0
		for _, a := range args {
			n, ok := c.stampOf(a)
			if !ok {
				return 0, false
			}
			if n > s {
				s = n
			}
		}
		return s, true
	}
	return 0, false
}

// declIndex is the position in declaration order of the newest symbol in t.
func (c *Ctx) declIndex(t *Term) int {
	if c.dix == nil {
		c.dix = map[int]int{}
		c.dpos = map[string]int{}
	}
	if v, ok := c.dix[t.id]; ok {
		return v
	}
	v := 0
	if t.op == "sym" || t.op == "uf" {
		p, ok := c.dpos[t.name]
		if !ok {
			for i := len(c.dpos); i < len(c.order); i++ {
				c.dpos[c.order[i]] = i
			}
			p = c.dpos[t.name]
		}
		if t.op == "sym" || strings.Contains(t.name, "!h") {
			v = p
		}
	}
	if t.op == "bvar" {
		v = 1 << 30
	}
	for _, a := range t.args {
		if w := c.declIndex(a); w > v {
			v = w
		}
	}
	c.dix[t.id] = v
	return v
}

// apart holds if r is a reference that came into being before the object b was allocated.
func (c *Ctx) apart(r, b *Term) bool {
	return b.isInt() && b.n.Sign() < 0 && r.stamp > 0 && r.stamp-1 < int(-b.i64()) && -b.i64() < allocLimit
}

// lower is a lower bound that is evident from the form of t.
func (c *Ctx) lower(t *Term) (*big.Int, bool) {
	switch t.op {
	case "int":
		return t.n, true
	case "mod":
		return big.NewInt(0), true
	case "uf":
		switch t.name {
		case "len", "slen", "sat":
			return big.NewInt(0), true
		case "chrlen":
			return big.NewInt(1), true
		}
	case "*":
		if t.args[0].n.Sign() > 0 {
			if l, ok := c.lower(t.args[1]); ok {
				return new(big.Int).Mul(l, t.args[0].n), true
			}
		}
	case "+":
		s := big.NewInt(0)
		for _, a := range t.args {
			l, ok := c.lower(a)
			if !ok {
				return nil, false
			}
			s.Add(s, l)
		}
		return s, true
	case "ite":
		a, ok := c.lower(t.args[1])
		b, ok2 := c.lower(t.args[2])
		if ok && ok2 {
			if a.Cmp(b) < 0 {
				return a, true
			}
			return b, true
		}
	}
	return nil, false
}

func isConst(t *Term) bool { return t.isInt() || t.op == "str" }

// ---- integers

func (c *Ctx) Add(a, b *Term) *Term {
	if a.isInt() && b.isInt() {
		return c.Big(new(big.Int).Add(a.n, b.n))
	}
	// normalise to sum of linear terms
	m := map[int]*big.Int{}
	ts := map[int]*Term{}
	k := big.NewInt(0)
	c.lin(a, big.NewInt(1), m, ts, k)
	c.lin(b, big.NewInt(1), m, ts, k)
	return c.fromLin(m, ts, k)
}

func (c *Ctx) lin(t *Term, f *big.Int, m map[int]*big.Int, ts map[int]*Term, k *big.Int) {
	switch {
	case t.isInt():
		k.Add(k, new(big.Int).Mul(f, t.n))
	case t.op == "+":
		for _, a := range t.args {
			c.lin(a, f, m, ts, k)
		}
	case t.op == "*" && t.args[0].isInt():
		c.lin(t.args[1], new(big.Int).Mul(f, t.args[0].n), m, ts, k)
	default:
		if m[t.id] == nil {
			m[t.id] = big.NewInt(0)
			ts[t.id] = t
		}
		m[t.id].Add(m[t.id], f)
	}
}

func (c *Ctx) fromLin(m map[int]*big.Int, ts map[int]*Term, k *big.Int) *Term {
	var ids []int
	for id, f := range m {
		if f.Sign() != 0 {
			ids = append(ids, id)
		}
	}
	sort.Ints(ids)
	var out []*Term
	for _, id := range ids {
		f := m[id]
		if f.Cmp(big.NewInt(1)) == 0 {
			out = append(out, ts[id])
		} else {
			out = append(out, c.mk("*", SInt, "", nil, c.Big(f), ts[id]))
		}
	}
	if k.Sign() != 0 || len(out) == 0 {
		out = append(out, c.Big(k))
	}
	if len(out) == 1 {
		return out[0]
	}
	return c.mk("+", SInt, "", nil, out...)
}

func (c *Ctx) Neg(a *Term) *Term    { return c.MulC(big.NewInt(-1), a) }
func (c *Ctx) Sub(a, b *Term) *Term { return c.Add(a, c.Neg(b)) }

func (c *Ctx) MulC(f *big.Int, a *Term) *Term {
	m := map[int]*big.Int{}
	ts := map[int]*Term{}
	k := big.NewInt(0)
	c.lin(a, f, m, ts, k)
	return c.fromLin(m, ts, k)
}

func (c *Ctx) Mul(a, b *Term) *Term {
	if a.isInt() {
		return c.MulC(a.n, b)
	}
	if b.isInt() {
		return c.MulC(b.n, a)
	}
	return c.UF("nlmul", SInt, a, b)
}

// Div and Mod are floor division and modulus by a positive constant.
func (c *Ctx) Div(a *Term, k int64) *Term {
	if a.isInt() {
		q := new(big.Int)
		m := new(big.Int)
		q.DivMod(a.n, big.NewInt(k), m)
		return c.Big(q)
	}
	if lo, hi, n := tableRange(a); n > 0 && lo >= 0 && hi < 2*k {
		if hi < k {
			return c.Int(0)
		}
		return c.Ite(c.Le(c.Int(k), a), c.Int(1), c.Int(0))
	}
	return c.mk("div", SInt, "", nil, a, c.Int(k))
}

func (c *Ctx) Mod(a *Term, k int64) *Term {
	if a.isInt() {
		q := new(big.Int)
		m := new(big.Int)
		q.DivMod(a.n, big.NewInt(k), m)
		return c.Big(m)
	}
	if lo, hi, n := tableRange(a); n > 0 && lo >= 0 && hi < 2*k {
		if hi < k {
			return a
		}
		return c.Ite(c.Le(c.Int(k), a), c.Sub(a, c.Int(k)), a)
	}
	return c.mk("mod", SInt, "", nil, a, c.Int(k))
}

func (c *Ctx) Le(a, b *Term) *Term {
	d := c.Sub(b, a)
	if d.isInt() {
		return c.Bool(d.n.Sign() >= 0)
	}
	if l, ok := c.lower(d); ok && l.Sign() >= 0 {
		return c.True()
	}
	if l, ok := c.lower(c.Sub(c.Neg(d), c.Int(1))); ok && l.Sign() >= 0 {
		return c.False()
	}
	if b.op == "ite" && isConst(a) && isConst(b.args[1]) && isConst(b.args[2]) {
		return c.Ite(b.args[0], c.Le(a, b.args[1]), c.Le(a, b.args[2]))
	}
	if a.op == "ite" && isConst(b) && isConst(a.args[1]) && isConst(a.args[2]) {
		return c.Ite(a.args[0], c.Le(a.args[1], b), c.Le(a.args[2], b))
	}
	return c.mk("<=", SBool, "", nil, a, b)
}
func (c *Ctx) Lt(a, b *Term) *Term { return c.Le(c.Add(a, c.Int(1)), b) }
func (c *Ctx) Ge(a, b *Term) *Term { return c.Le(b, a) }
func (c *Ctx) Gt(a, b *Term) *Term { return c.Lt(b, a) }

// ---- strings

// Str is a string constant.
func (c *Ctx) Str(s string) *Term {
	return c.mk("str", SStr, s, nil)
}

func (c *Ctx) slenRaw(s *Term) *Term {
	c.declare("slen", []Sort{SStr}, SInt)
	return c.mk("uf", SInt, "slen", nil, s)
}

func (c *Ctx) Slen(s *Term) *Term {
	switch s.op {
	case "str":
		return c.Int(int64(len(s.name)))
	case "scat":
		return c.Add(c.Slen(s.args[0]), c.Slen(s.args[1]))
	case "chr":
		return c.chrLen(s)
	case "uf":
		if s.name == "srepeat" && s.args[0].op == "str" {
			return c.Ite(c.Le(c.Int(0), s.args[1]), c.MulC(big.NewInt(int64(len(s.args[0].name))), s.args[1]), c.Int(0))
		}
	case "ssub":
		return c.Sub(s.args[2], s.args[1])
	case "ite":
		if s.args[1].op == "str" && s.args[2].op == "str" {
			return c.Ite(s.args[0], c.Slen(s.args[1]), c.Slen(s.args[2]))
		}
	}
	return c.slenRaw(s)
}

func (c *Ctx) chrLen(s *Term) *Term {
	if s.args[0].isInt() {
		return c.Int(int64(len(string(rune(s.args[0].i64())))))
	}
	l := c.UF("chrlen", SInt, s.args[0])
	if l.facts == nil {
		l.facts = []*Term{c.Le(c.Int(1), l), c.Le(l, c.Int(4)),
			c.Implies(c.And(c.Le(c.Int(0), s.args[0]), c.Lt(s.args[0], c.Int(128))), c.Eq(l, c.Int(1)))}
	}
	return l
}

// Sat is the byte of s at i.
func (c *Ctx) Sat(s, i *Term) *Term {
	if s.op == "str" && i.isInt() && i.i64() >= 0 && i.i64() < int64(len(s.name)) {
		return c.Int(int64(s.name[i.i64()]))
	}
	if s.op == "ssub" {
		return c.Sat(s.args[0], c.Add(s.args[1], i))
	}
	t := c.UF("sat", SInt, s, i)
	if t.facts == nil {
		f := []*Term{c.Le(c.Int(0), t), c.Le(t, c.Int(255))}
		if s.op == "scat" {
			l := c.Slen(s.args[0])
			f = append(f, c.Eq(t, c.Ite(c.Lt(i, l), c.Sat(s.args[0], i), c.Sat(s.args[1], c.Sub(i, l)))))
		}
		if s.op == "chr" {
			f = append(f, c.Implies(c.And(c.Le(c.Int(0), s.args[0]), c.Lt(s.args[0], c.Int(128)), c.Eq(i, c.Int(0))), c.Eq(t, s.args[0])))
		}
		if s.op == "ite" {
			f = append(f, c.Eq(t, c.Ite(s.args[0], c.Sat(s.args[1], i), c.Sat(s.args[2], i))))
		}
		t.facts = f
	}
	return t
}

// Ssub is s[i:j].
func (c *Ctx) Ssub(s, i, j *Term) *Term {
	if s.op == "str" && i.isInt() && j.isInt() && 0 <= i.i64() && i.i64() <= j.i64() && j.i64() <= int64(len(s.name)) {
		return c.Str(s.name[i.i64():j.i64()])
	}
	if i.isInt() && i.i64() == 0 && j == c.Slen(s) {
		return s
	}
	if s.op == "ssub" {
		return c.Ssub(s.args[0], c.Add(s.args[1], i), c.Add(s.args[1], j))
	}
	if s.op == "uf" && s.name == "srepeat" && s.args[0].op == "str" && len(s.args[0].name) == 1 {
		return c.UF("srepeat", SStr, s.args[0], c.Sub(j, i)) // any part of a repeated character
	}
	return c.mk("ssub", SStr, "", nil, s, i, j)
}

// Scat concatenates; normal form is left-nested with constants split into characters.
func (c *Ctx) Scat(a, b *Term) *Term {
	if a.op == "str" && b.op == "str" {
		return c.Str(a.name + b.name)
	}
	if a.op == "str" && a.name == "" {
		return b
	}
	if b.op == "str" {
		for _, ch := range []byte(b.name) {
			a = c.mk("scat", SStr, "", nil, a, c.Str(string([]byte{ch})))
		}
		return a
	}
	if b.op == "scat" {
		return c.Scat(c.Scat(a, b.args[0]), b.args[1])
	}
	if b.op == "ite" && (b.args[1].op == "str" || b.args[2].op == "str") {
		return c.Ite(b.args[0], c.Scat(a, b.args[1]), c.Scat(a, b.args[2]))
	}
	return c.mk("scat", SStr, "", nil, a, b)
}

// Chr is the string of one code point.
func (c *Ctx) Chr(r *Term) *Term {
	if r.isInt() && r.i64() >= 0 && r.i64() <= 0x10ffff {
		return c.Str(string(rune(r.i64())))
	}
	if r.op == "ite" {
		return c.Ite(r.args[0], c.Chr(r.args[1]), c.Chr(r.args[2]))
	}
	t := c.mk("chr", SStr, "", nil, r)
	t.addFact(c.mk("=", SBool, "", nil, c.slenRaw(t), c.chrLen(t)))
	return t
}

func (c *Ctx) strEqConst(s, k *Term) *Term {
	if s.op == "ite" {
		return c.Ite(s.args[0], c.Eq(s.args[1], k), c.Eq(s.args[2], k))
	}
	if s.op == "chr" {
		rs := []rune(k.name)
		if len(rs) != 1 {
			return c.False()
		}
		return c.Eq(s.args[0], c.Int(int64(rs[0])))
	}
	if s.op == "ssub" {
		cs := []*Term{c.Eq(c.Slen(s), c.Int(int64(len(k.name))))}
		for i := 0; i < len(k.name); i++ {
			cs = append(cs, c.Eq(c.Sat(s, c.Int(int64(i))), c.Int(int64(k.name[i]))))
		}
		return c.And(cs...)
	}
	t := c.mk("=", SBool, "", nil, s, k)
	if t.facts == nil {
		cs := []*Term{c.Eq(c.Slen(s), c.Int(int64(len(k.name))))}
		for i := 0; i < len(k.name); i++ {
			cs = append(cs, c.Eq(c.Sat(s, c.Int(int64(i))), c.Int(int64(k.name[i]))))
		}
		// t <=> same length and bytes
		t.facts = []*Term{c.mk("=", SBool, "", nil, t, c.And(cs...))}
	}
	return t
}

// ---- sequences (immutable list terms). Elements are tuples of leaf values: element k of
// sort s is read by at<k><s>.

func (c *Ctx) Nil() *Term { return c.mk("lit", SSeq, "", nil) }

// Snoc appends one element, given as its leaves.
func (c *Ctx) Snoc(s *Term, leaves ...*Term) *Term {
	return c.mk("snoc", SSeq, "", nil, append([]*Term{s}, leaves...)...)
}

func (c *Ctx) Len(s *Term) *Term {
	switch s.op {
	case "lit":
		return c.Int(0)
	case "snoc":
		return c.Add(c.Len(s.args[0]), c.Int(1))
	case "upd":
		return c.Len(s.args[0])
	case "cat":
		return c.Add(c.Len(s.args[0]), c.Len(s.args[1]))
	case "sub":
		return c.Sub(s.args[2], s.args[1])
	case "fill":
		return s.args[0]
	case "bytes":
		return c.Slen(s.args[0])
	case "ite":
		return c.Ite(s.args[0], c.Len(s.args[1]), c.Len(s.args[2]))
	}
	return c.UF("len", SInt, s)
}

// At reads leaf k of element i.
func (c *Ctx) At(s, i *Term, k int, srt Sort) *Term {
	switch s.op {
	case "snoc":
		l := c.Len(s.args[0])
		e := c.Eq(i, l)
		if e.isTrue() {
			return s.args[1+k]
		}
		if e.isFalse() {
			return c.At(s.args[0], i, k, srt)
		}
		return c.Ite(e, s.args[1+k], c.At(s.args[0], i, k, srt))
	case "upd": // seq, idx, leaves...
		return c.Ite(c.Eq(i, s.args[1]), s.args[2+k], c.At(s.args[0], i, k, srt))
	case "sub":
		return c.At(s.args[0], c.Add(s.args[1], i), k, srt)
	case "fill":
		return s.args[1+k]
	case "cat":
		l := c.Len(s.args[0])
		return c.Ite(c.Lt(i, l), c.At(s.args[0], i, k, srt), c.At(s.args[1], c.Sub(i, l), k, srt))
	case "bytes":
		return c.Sat(s.args[0], i)
	case "ite":
		return c.Ite(s.args[0], c.At(s.args[1], i, k, srt), c.At(s.args[2], i, k, srt))
	}
	return c.UF(fmt.Sprintf("at%d%s", k, srt), srt, s, i)
}

func (c *Ctx) Upd(s, i *Term, leaves ...*Term) *Term {
	if s.op == "snoc" && i.isInt() {
		l := c.Len(s.args[0])
		if l == i {
			return c.Snoc(s.args[0], leaves...)
		}
		if l.isInt() {
			return c.Snoc(c.Upd(s.args[0], i, leaves...), s.args[1:]...)
		}
	}
	return c.mk("upd", SSeq, "", nil, append([]*Term{s, i}, leaves...)...)
}

func (c *Ctx) Sub3(s, i, j *Term) *Term {
	if i.isInt() && i.i64() == 0 && j == c.Len(s) {
		return s
	}
	if s.op == "snoc" && i.isInt() && i.i64() == 0 {
		if c.Len(s.args[0]) == j {
			return s.args[0]
		}
	}
	if i == j {
		return c.Nil()
	}
	if s.op == "cat" && i.isInt() && i.i64() == 0 && c.Len(s.args[0]) == j {
		return s.args[0]
	}
	if s.op == "cat" && i.isInt() && i.i64() == 0 {
		l := c.Len(s.args[0])
		return c.Ite(c.Le(l, j), c.Cat(s.args[0], c.Sub3(s.args[1], i, c.Sub(j, l))), c.Sub3(s.args[0], i, j))
	}
	if s.op == "sub" {
		return c.Sub3(s.args[0], c.Add(s.args[1], i), c.Add(s.args[1], j))
	}
	if s.op == "bytes" {
		if j == c.Add(i, c.Int(1)) {
			return c.Snoc(c.Nil(), c.Sat(s.args[0], i))
		}
		return c.Bytes(c.Ssub(s.args[0], i, j))
	}
	t := c.mk("sub", SSeq, "", nil, s, i, j)
	if t.facts == nil && i.isInt() && i.i64() == 0 {
		t.facts = []*Term{c.Or(c.Not(c.Eq(j, c.Len(s))), c.mk("=", SBool, "", nil, s, t))}
	}
	return t
}

// Fill is n copies of an element.
func (c *Ctx) Fill(n *Term, leaves ...*Term) *Term {
	if n.isInt() && n.i64() >= 0 && n.i64() <= 16 {
		s := c.Nil()
		for i := int64(0); i < n.i64(); i++ {
			s = c.Snoc(s, leaves...)
		}
		return s
	}
	return c.mk("fill", SSeq, "", nil, append([]*Term{n}, leaves...)...)
}

func (c *Ctx) Bytes(s *Term) *Term {
	if s.op == "str" && len(s.name) <= 8 {
		t := c.Nil()
		for i := 0; i < len(s.name); i++ {
			t = c.Snoc(t, c.Int(int64(s.name[i])))
		}
		return t
	}
	return c.mk("bytes", SSeq, "", nil, s)
}

// Cat concatenates sequences.
func (c *Ctx) Cat(a, b *Term) *Term {
	switch {
	case b.op == "lit":
		return a
	case a.op == "lit":
		return b
	case b.op == "snoc":
		return c.Snoc(c.Cat(a, b.args[0]), b.args[1:]...)
	case b.op == "cat":
		return c.Cat(c.Cat(a, b.args[0]), b.args[1])
	}
	return c.mk("cat", SSeq, "", nil, a, b)
}

// ---- printing

func show(t *Term) string { return showN(t, 12) }

func showN(t *Term, d int) string {
	switch t.op {
	case "int":
		return t.n.String()
	case "str":
		return strconv.Quote(t.name)
	case "sym":
		return t.name
	case "true", "false":
		return t.op
	}
	if d == 0 {
		return "…"
	}
	n := t.op
	if n == "uf" {
		n = t.name
	}
	var b strings.Builder
	b.WriteString("(" + n)
	for _, a := range t.args {
		b.WriteString(" " + showN(a, d-1))
	}
	b.WriteString(")")
	return b.String()
}

// ---- heap arrays: a base symbol with a chain of stores

// Base is an unknown heap field.
func (c *Ctx) Base(name string, leaf Sort) *Term {
	t := c.mk("base", Sort("Arr"+string(leaf)), clean(name), nil)
	if t.stamp == 0 {
		t.stamp = c.alloc + 1
	}
	return t
}

func leafOf(arr *Term) Sort { return Sort(strings.TrimPrefix(string(arr.sort), "Arr")) }

// Store writes v at key (one term for fields, two for maps).
func (c *Ctx) Store(arr *Term, v *Term, key ...*Term) *Term {
	if arr.op == "store" && len(arr.args) == 2+len(key) {
		same := true
		for i := range key {
			same = same && arr.args[2+i] == key[i]
		}
		if same {
			return c.Store(arr.args[0], v, key...)
		}
	}
	return c.mk("store", arr.sort, "", nil, append([]*Term{arr, v}, key...)...)
}

// Sel reads the value at key.
func (c *Ctx) Sel(arr *Term, isRef bool, key ...*Term) *Term {
	switch arr.op {
	case "store":
		var es []*Term
		for i := range key {
			es = append(es, c.Eq(key[i], arr.args[2+i]))
		}
		e := c.And(es...)
		if e.isTrue() {
			return arr.args[1]
		}
		if e.isFalse() {
			return c.Sel(arr.args[0], isRef, key...)
		}
		return c.Ite(e, arr.args[1], c.Sel(arr.args[0], isRef, key...))
	case "mclear":
		e := c.Eq(key[0], arr.args[1])
		return c.Ite(e, c.False(), c.Sel(arr.args[0], isRef, key...))
	case "newer": // objects that did not exist at stamp n have unknown values
		if c.existedAt(key[0], int(arr.n.Int64())) {
			return c.Sel(arr.args[0], isRef, key...)
		}
		if len(key) == 1 && key[0].op == "ite" {
			return c.Ite(key[0].args[0], c.Sel(arr, isRef, key[0].args[1]), c.Sel(arr, isRef, key[0].args[2]))
		}
		return c.stampRead(arr, c.UF(arr.name, leafOf(arr), key...), isRef, key)
	case "mhav": // the contents of one map are unknown
		e := c.Eq(key[0], arr.args[1])
		t := c.UF(arr.name, leafOf(arr), key...)
		if isRef {
			c.markRef(t, c.alloc+1)
		} else if t.sort == SSeq && t.stamp == 0 {
			t.stamp = c.alloc + 1
		}
		if e.isFalse() {
			return c.Sel(arr.args[0], isRef, key...)
		}
		return c.Ite(e, t, c.Sel(arr.args[0], isRef, key...))
	case "below": // objects of a rank below a bound have unknown values
		if len(key) == 1 && key[0].op == "ite" {
			return c.Ite(key[0].args[0], c.Sel(arr, isRef, key[0].args[1]), c.Sel(arr, isRef, key[0].args[2]))
		}
		t := c.stampRead(arr, c.UF(arr.name, leafOf(arr), key...), isRef, key)
		return c.Ite(c.Lt(c.rankOf(key[0]), arr.args[1]), t, c.Sel(arr.args[0], isRef, key...))
	case "aite":
		return c.Ite(arr.args[0], c.Sel(arr.args[1], isRef, key...), c.Sel(arr.args[2], isRef, key...))
	}
	if len(key) == 1 && key[0].op == "ite" {
		return c.Ite(key[0].args[0], c.Sel(arr, isRef, key[0].args[1]), c.Sel(arr, isRef, key[0].args[2]))
	}
	return c.stampRead(arr, c.UF(arr.name, leafOf(arr), key...), isRef, key)
}

// stampRead: what an array holds existed when the array or the object did.
func (c *Ctx) stampRead(arr, t *Term, isRef bool, key []*Term) *Term {
	if isRef || t.sort == SSeq && t.stamp == 0 {
		st := arr.stamp
		if arr.op == "newer" && st == 0 {
			st = c.alloc + 1
		}
		for _, k := range key {
			switch {
			case k.stamp > st:
				st = k.stamp
			case ownAlloc(k):
				if n := int(-k.i64()) + 1; n > st {
					st = n
				}
			case k.sort == SInt && k.stamp == 0 && !k.isInt():
				st = c.alloc + 1
			}
		}
		if isRef {
			c.markRef(t, st)
		} else {
			t.stamp = st
		}
	}
	return t
}

// Numbers of references: own allocations are -1, -2, ...; typed nil pointers and interned values
// come below.
const (
	allocLimit = 1000000000000000
	internBase = 2000000000000000
	allocBump  = 1000000 // objects that a call or loop may create
)

// markRef records that t is a reference that exists since the given stamp.
func (c *Ctx) markRef(t *Term, stamp int) {
	if t.stamp != 0 || t.op == "int" || t.op == "ite" {
		return
	}
	t.stamp = stamp
	t.facts = append(t.facts, c.mk("<=", SBool, "", nil, c.Int(int64(-(stamp-1))), t))
}

// Alloc is a new reference, distinct from every reference that exists.
func (c *Ctx) Alloc() *Term {
	c.alloc++
	return c.Int(int64(-c.alloc))
}

// ownAlloc holds for references allocated during this verification.
func ownAlloc(t *Term) bool {
	return t.isInt() && t.n.Sign() < 0 && t.i64() > -allocLimit
}

func (t *Term) addFact(f *Term) {
	for _, g := range t.facts {
		if g == f {
			return
		}
	}
	t.facts = append(t.facts, f)
}
