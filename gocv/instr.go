package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// floatConst is a constant: they are named by their values.
func (x *Exec) floatConst(v constant.Value) *Term {
	f, _ := constant.Float64Val(v)
	return x.c.Sym("flt!"+strconv.FormatFloat(f, 'g', -1, 64), SFlt)
}

// fcmp compares floats: constants by value; otherwise nothing is known.
func (c *Ctx) fcmp(op string, a, b *Term) *Term {
	for _, t := range []*Term{a, b} {
		if t.op == "ite" {
			f := func(v *Term) *Term {
				if t == a {
					return c.fcmp(op, v, b)
				}
				return c.fcmp(op, a, v)
			}
			return c.Ite(t.args[0], f(t.args[1]), f(t.args[2]))
		}
	}
	if a.op == "sym" && b.op == "sym" && strings.HasPrefix(a.name, "flt!") && strings.HasPrefix(b.name, "flt!") {
		x, err := strconv.ParseFloat(a.name[4:], 64)
		y, err2 := strconv.ParseFloat(b.name[4:], 64)
		if err == nil && err2 == nil {
			switch op {
			case "feq":
				return c.Bool(x == y)
			case "flt":
				return c.Bool(x < y)
			case "fle":
				return c.Bool(x <= y)
			}
		}
	}
	return c.UF(op, SBool, a, b)
}

// mach evaluates instructions in a state.
type mach struct {
	x     *Exec
	st    *State
	check func(kind string, cond *Term, in ssa.Instruction)
	spec  bool          // evaluating a specification
	known map[int]int64 // types that the path conditions state
	guard *Term         // condition under which a merged function runs
	depth int
}

func (m *mach) val(env map[ssa.Value]Val, fn *ssa.Function, binds []Val, v ssa.Value) Val {
	x := m.x
	switch v := v.(type) {
	case *ssa.Const:
		return x.constant(v)
	case *ssa.Function:
		return &FnV{fn: v}
	case *ssa.Builtin:
		return &FnV{bi: v}
	case *ssa.Global:
		if _, ok := isStruct(v.Type().(*types.Pointer).Elem()); ok {
			return x.globalRef(v)
		}
		return &AddrV{global: v}
	case *ssa.FreeVar:
		for i, f := range fn.FreeVars {
			if f == v {
				return binds[i]
			}
		}
	}
	r, ok := env[v]
	if !ok {
		panic(unsupported(fmt.Sprintf("undefined register %s in %s", v.Name(), fn)))
	}
	return r
}

// globalRef is the object that a struct-valued global lives in.
func (x *Exec) globalRef(g *ssa.Global) Val {
	if v, ok := x.globals[g]; ok {
		return v
	}
	t := x.c.Sym("global!"+clean(g.String()), SInt)
	t.addFact(x.c.Not(x.c.Eq(t, x.c.Int(0))))
	x.c.markRef(t, 1)
	x.globals[g] = t
	return t
}

func (x *Exec) constant(v *ssa.Const) Val {
	t := v.Type()
	if v.Value == nil {
		return x.zero(t)
	}
	switch v.Value.Kind() {
	case constant.Bool:
		return x.c.Bool(constant.BoolVal(v.Value))
	case constant.String:
		return x.c.Str(constant.StringVal(v.Value))
	case constant.Int:
		if sortOf(t) == SFlt {
			return x.floatConst(v.Value)
		}
		n, _ := new(big.Int).SetString(v.Value.ExactString(), 10)
		return x.c.Big(n)
	case constant.Float:
		if sortOf(t) == SFlt {
			return x.floatConst(v.Value)
		}
		n, _ := new(big.Int).SetString(constant.ToInt(v.Value).ExactString(), 10)
		return x.c.Big(n)
	}
	panic(unsupported("constant " + v.String()))
}

// eval runs one instruction without control flow. handled is false for the ones that need the
// explorer.
func (m *mach) eval(env map[ssa.Value]Val, fn *ssa.Function, binds []Val, in ssa.Instruction) (v Val, handled bool) {
	x, c := m.x, m.x.c
	get := func(v ssa.Value) Val { return m.val(env, fn, binds, v) }
	term := func(v ssa.Value) *Term {
		r := get(v)
		t, ok := r.(*Term)
		if !ok {
			if r == nil {
				panic(unsupported("no value for " + v.Name()))
			}
			return x.intern(r)
		}
		return t
	}
	switch in := in.(type) {
	case *ssa.DebugRef:
		return nil, true

	case *ssa.Alloc:
		t := in.Type().(*types.Pointer).Elem()
		if _, ok := isStruct(t); ok && !(m.spec && localOnly(in)) {
			r := x.allocObj(t)
			x.storeObj(m.st, r, t, nil, x.zero(t))
			return r, true
		}
		x.ncell++
		if m.spec {
			x.specCells[x.ncell] = x.zero(t)
		} else {
			m.st.cells[x.ncell] = x.zero(t)
		}
		return &AddrV{cell: x.ncell}, true

	case *ssa.BinOp:
		return m.binop(in, get(in.X), get(in.Y)), true

	case *ssa.UnOp:
		switch in.Op {
		case token.MUL:
			p := get(in.X)
			m.nonNil(p, in)
			x.assumeInv(m, p)
			return x.load(m.st, p, in.Type()), true
		case token.NOT:
			return c.Not(term(in.X)), true
		case token.SUB:
			if sortOf(in.Type()) == SFlt {
				return c.UF("fneg", SFlt, term(in.X)), true
			}
			return m.wrap(c.Neg(term(in.X)), in.Type()), true
		case token.XOR:
			return m.wrap(c.Sub(c.Neg(term(in.X)), c.Int(1)), in.Type()), true
		}

	case *ssa.ChangeType:
		return get(in.X), true

	case *ssa.ChangeInterface:
		return get(in.X), true

	case *ssa.Convert:
		return m.convert(term(in.X), in.X.Type(), in.Type()), true

	case *ssa.MakeInterface:
		return m.makeInterface(get(in.X), in.X.Type()), true

	case *ssa.MakeClosure:
		f := &FnV{fn: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			f.binds = append(f.binds, get(b))
		}
		return f, true

	case *ssa.MakeMap:
		r := x.allocObj(in.Type())
		mt := in.Type().Underlying().(*types.Map)
		x.mapClear(m.st, r, mt)
		return r, true

	case *ssa.MakeSlice:
		n := term(in.Len)
		m.check("makeslice", c.And(c.Le(c.Int(0), n), c.Le(n, term(in.Cap))), in)
		et := in.Type().Underlying().(*types.Slice).Elem()
		if x.p.noNil(et) && !m.spec {
			m.check("no nils in a slice", c.Eq(n, c.Int(0)), in)
		}
		return c.Fill(n, x.flatten(x.zero(et), et)...), true

	case *ssa.Extract:
		return get(in.Tuple).(TupleV)[in.Index], true

	case *ssa.Field:
		return get(in.X).(*StructV).f[in.Field], true

	case *ssa.FieldAddr:
		p := get(in.X)
		pt := in.X.Type().Underlying().(*types.Pointer).Elem()
		m.nonNil(p, in)
		s := step{field: in.Field, typ: pt}
		switch p := p.(type) {
		case *Term:
			return &AddrV{ref: p, st: pt, path: []step{s}}, true
		case *AddrV:
			return p.extend(s), true
		}

	case *ssa.Index:
		i := term(in.Index)
		switch u := in.X.Type().Underlying().(type) {
		case *types.Basic:
			s := term(in.X)
			m.check("index", c.And(c.Le(c.Int(0), i), c.Lt(i, c.Slen(s))), in)
			return c.Sat(s, i), true
		case *types.Array:
			m.check("index", c.And(c.Le(c.Int(0), i), c.Lt(i, c.Int(u.Len()))), in)
			return x.elem(term(in.X), i, u.Elem()), true
		}

	case *ssa.IndexAddr:
		i := term(in.Index)
		s := step{idx: i, typ: in.X.Type()}
		switch u := in.X.Type().Underlying().(type) {
		case *types.Slice:
			v := get(in.X)
			seq, ok := v.(*Term)
			if !ok {
				panic(unsupported("index of a non-sequence"))
			}
			m.check("index", c.And(c.Le(c.Int(0), i), c.Lt(i, c.Len(seq))), in)
			return &AddrV{seq: seq, path: []step{s}}, true
		case *types.Pointer:
			at := u.Elem()
			n := at.Underlying().(*types.Array).Len()
			m.check("index", c.And(c.Le(c.Int(0), i), c.Lt(i, c.Int(n))), in)
			s.typ = at
			if p, ok := get(in.X).(*AddrV); ok {
				return p.extend(s), true
			}
		}

	case *ssa.Slice:
		return m.slice(in, get), true

	case *ssa.Lookup:
		if b, ok := in.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			s, i := term(in.X), term(in.Index)
			m.check("index", c.And(c.Le(c.Int(0), i), c.Lt(i, c.Slen(s))), in)
			return c.Sat(s, i), true
		}
		mt := in.X.Type().Underlying().(*types.Map)
		v, ok := x.mapGet(m.st, term(in.X), mt, get(in.Index))
		if t, is := v.(*Term); is && x.p.noNil(mt.Elem()) && !m.spec {
			x.assume(m.st, c.Implies(ok, c.Not(c.Eq(t, c.Int(0)))))
		}
		if in.CommaOk {
			return TupleV{v, ok}, true
		}
		return v, true

	case *ssa.TypeAssert:
		return m.typeAssert(in, get(in.X)), true

	case *ssa.Phi:
		panic("phi")

	case *ssa.Store:
		p := get(in.Addr)
		m.nonNil(p, in)
		x.store(m.st, p, in.Addr.Type().Underlying().(*types.Pointer).Elem(), get(in.Val))
		m.stored(p, get(in.Val), in)
		return nil, true

	case *ssa.MapUpdate:
		mt := in.Map.Type().Underlying().(*types.Map)
		r := term(in.Map)
		m.check("nil map", c.Not(c.Eq(r, c.Int(0))), in)
		x.mapSet(m.st, r, mt, get(in.Key), get(in.Value), c.True())
		m.publish(get(in.Key), in)
		m.publish(get(in.Value), in)
		if v, ok := get(in.Value).(*Term); ok && x.p.noNil(mt.Elem()) && !m.spec {
			m.check("no nils in a map", c.Not(c.Eq(v, c.Int(0))), in)
		}
		return nil, true

	case *ssa.Range:
		x.ncell++
		it := &IterV{cell: x.ncell}
		if mt, ok := in.X.Type().Underlying().(*types.Map); ok {
			it.m, it.mt = term(in.X), mt
		} else {
			it.str = term(in.X)
		}
		m.st.cells[it.cell] = c.Int(0)
		return it, true

	case *ssa.Next:
		it := get(in.Iter).(*IterV)
		tt := in.Type().(*types.Tuple)
		if it.str == nil {
			ok := x.fresh("next.ok", types.Typ[types.Bool]).(*Term)
			k := x.fresh("next.key", it.mt.Key())
			v, has := x.mapGet(m.st, it.m, it.mt, k)
			x.assume(m.st, c.Implies(ok, has))
			return TupleV{ok, k, v}, true
		}
		pos := m.st.cells[it.cell].(*Term)
		r, w := x.runeAt(it.str, pos)
		ok := c.Lt(pos, c.Slen(it.str))
		m.st.cells[it.cell] = c.Ite(ok, c.Add(pos, w), pos)
		_ = tt
		return TupleV{ok, pos, r}, true
	}
	return nil, false
}

func (m *mach) nonNil(p Val, in ssa.Instruction) {
	if t, ok := p.(*Term); ok {
		if ownAlloc(t) {
			return
		}
		m.check("nil dereference", m.x.c.Not(m.x.c.Eq(t, m.x.c.Int(0))), in)
	}
}

func (x *Exec) allocObj(t types.Type) *Term {
	r := x.c.Alloc()
	x.allocType[int(-r.i64())] = typeID("*" + types.TypeString(t, nil))
	x.allocT[int(-r.i64())] = t
	return r
}

// tag is the dynamic type of an interface value.
func (x *Exec) tag(r *Term) *Term {
	c := x.c
	if r.isInt() {
		if ownAlloc(r) {
			if id, ok := x.allocType[int(-r.i64())]; ok {
				return c.Int(int64(id))
			}
		}
		if r.i64() == 0 {
			return c.Int(0)
		}
		if r.i64() <= -allocLimit && r.i64() > -internBase {
			return c.Int(-r.i64() - allocLimit)
		}
	}
	if r.op == "ite" {
		return c.Ite(r.args[0], x.tag(r.args[1]), x.tag(r.args[2]))
	}
	if k, ok := x.tagIs[r.id]; ok {
		return c.Int(k)
	}
	t := c.UF("tag", SInt, r)
	if x.tags == nil {
		x.tags = map[int]*Term{}
	}
	if x.tags[r.id] == nil {
		x.tags[r.id] = t
		for _, it := range x.statics[r.id] {
			x.staticFact(r, t, it)
		}
	}
	return t
}

// static records that the type of t is an interface that only types of the program implement.
func (x *Exec) static(t *Term, typ types.Type) {
	nt, ok := typ.(*types.Named)
	if !ok || t.sort != SInt {
		return
	}
	if t.op == "ite" {
		x.static(t.args[1], typ)
		x.static(t.args[2], typ)
		return
	}
	if t.op != "uf" && t.op != "sym" || x.p.implementers(nt) == nil {
		return
	}
	for _, o := range x.statics[t.id] {
		if o == nt {
			return
		}
	}
	if x.statics == nil {
		x.statics = map[int][]*types.Named{}
	}
	x.statics[t.id] = append(x.statics[t.id], nt)
	if tag := x.tags[t.id]; tag != nil {
		x.staticFact(t, tag, nt)
	}
}

func (x *Exec) staticFact(t, tag *Term, nt *types.Named) {
	c := x.c
	or := []*Term{c.Eq(t, c.Int(0))}
	for _, id := range x.p.implementers(nt) {
		or = append(or, c.mk("=", SBool, "", nil, tag, c.Int(id)))
	}
	tag.addFact(c.Or(or...))
}

// implementers is the dynamic types of the values of an interface of an internal package: the types
// that the program converts to some interface.
func (p *Program) implementers(nt *types.Named) []int64 {
	loopMu.Lock()
	defer loopMu.Unlock()
	if ids, ok := p.impls[nt]; ok {
		return ids
	}
	if p.impls == nil {
		p.impls = map[*types.Named][]int64{}
	}
	p.impls[nt] = nil
	it, ok := nt.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	if nt.Obj().Pkg() == nil || !strings.Contains(nt.Obj().Pkg().Path(), "/internal/") || it.NumMethods() == 0 {
		return nil
	}
	ids := []int64{}
	for _, t := range p.made {
		if types.Implements(t, it) {
			ids = append(ids, int64(ptrTag(t)))
		}
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	p.impls[nt] = ids
	return ids
}

func ptrTag(t types.Type) int { return typeID(types.TypeString(t, nil)) }

func (m *mach) makeInterface(v Val, t types.Type) Val {
	x, c := m.x, m.x.c
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		p, ok := v.(*Term)
		if !ok {
			return v // interior pointer
		}
		if _, ok := isStruct(pt.Elem()); ok {
			x.refTypes[p.id] = pt.Elem()
		} else if x.building != nil {
			x.refTypes[p.id] = pt.Elem()
		}
		if ownAlloc(p) {
			return p
		}
		id := int64(ptrTag(t))
		if p.op == "ite" {
			return c.Ite(p.args[0], m.makeInterface(p.args[1], t).(*Term), m.makeInterface(p.args[2], t).(*Term))
		}
		if p.isInt() && p.i64() == 0 {
			return c.Int(-(allocLimit + id))
		}
		// a non-nil *T has tag T
		x.assume(m.st, c.Implies(c.Not(c.Eq(p, c.Int(0))), c.Eq(x.tag(p), c.Int(id))))
		if m.spec || x.provedQuick(m.st, c.Not(c.Eq(p, c.Int(0)))) {
			return p
		}
		return c.Ite(c.Eq(p, c.Int(0)), c.Int(-(allocLimit + id)), p)
	}
	if _, ok := v.(*FnV); ok {
		return v
	}
	// box
	r := c.Alloc()
	x.allocType[int(-r.i64())] = ptrTag(t)
	if p, ok := v.(*Term); ok && m.spec && x.building != nil {
		if _, ok := t.Underlying().(*types.Map); ok {
			x.refTypes[p.id] = t
			x.boxed[r.id] = p
		}
	}
	for i, l := range leavesAt(t, "box:"+typeName(t), nil) {
		m.st.heap[l.key] = c.Store(x.arr(m.st, l.key, l.sort), x.flatten(v, t)[i], r)
	}
	return r
}

func (m *mach) unbox(r *Term, t types.Type) Val {
	x := m.x
	var ts []*Term
	for _, l := range leavesAt(t, "box:"+typeName(t), nil) {
		switch v := x.loadLeaf(m.st, r, l).(type) {
		case *Term:
			ts = append(ts, v)
		default:
			ts = append(ts, x.intern(v))
		}
	}
	return x.unflatten(ts, t)
}

// hasType is whether a non-nil interface value has a dynamic type.
func (x *Exec) hasType(r *Term, t types.Type) *Term {
	c := x.c
	tag := x.tag(r)
	if it, ok := t.Underlying().(*types.Interface); ok {
		if tag.isInt() {
			for s, id := range x.knownTags() {
				if int64(id) == tag.i64() {
					if ty := x.p.typeByString(s); ty != nil {
						return c.Bool(types.Implements(ty, it))
					}
				}
			}
		}
		if it.NumMethods() == 0 {
			return c.True()
		}
		if nt, ok := t.(*types.Named); ok {
			if ids := x.p.implementers(nt); ids != nil {
				var or []*Term
				for _, id := range ids {
					or = append(or, c.mk("=", SBool, "", nil, tag, c.Int(id)))
				}
				return c.Or(or...)
			}
		}
		return c.UF("impl!"+typeName(t), SBool, tag)
	}
	return c.Eq(tag, c.Int(int64(ptrTag(t))))
}

func (x *Exec) knownTags() map[string]int {
	tidMu.Lock()
	defer tidMu.Unlock()
	n := map[string]int{}
	for k, v := range tids {
		n[k] = v
	}
	return n
}

func (m *mach) typeAssert(in *ssa.TypeAssert, v Val) Val {
	x, c := m.x, m.x.c
	r, isTerm := v.(*Term)
	if !isTerm {
		r = x.intern(v)
	}
	ok := c.And(c.Not(c.Eq(r, c.Int(0))), x.hasType(r, in.AssertedType))
	if k := m.knownTag(r); k != 0 {
		if _, isI := in.AssertedType.Underlying().(*types.Interface); !isI {
			ok = c.Bool(k == int64(ptrTag(in.AssertedType)))
		}
	}
	var res Val
	_, isIface := in.AssertedType.Underlying().(*types.Interface)
	_, isPtr := in.AssertedType.Underlying().(*types.Pointer)
	switch {
	case isIface:
		res = r
	case isPtr:
		if r.isInt() && r.i64() <= -allocLimit && r.i64() > -internBase {
			res = c.Int(0)
		} else {
			res = r
		}
	default:
		res = m.unbox(r, in.AssertedType)
	}
	if !in.CommaOk {
		m.check("type assertion", ok, in)
		return res
	}
	if t, isT := res.(*Term); isT && (isIface || isPtr) {
		return TupleV{c.Ite(ok, t, c.Int(0)), ok}
	}
	zero := x.zero(in.AssertedType)
	return TupleV{x.ite(ok, res, zero), ok}
}

// ite merges two values.
func (x *Exec) ite(g *Term, a, b Val) Val {
	if g.isTrue() {
		return a
	}
	if g.isFalse() {
		return b
	}
	switch a := a.(type) {
	case nil:
		return nil
	case *Term:
		bt, ok := b.(*Term)
		if !ok {
			bt = x.intern(b)
		}
		return x.c.Ite(g, a, bt)
	case *StructV:
		bs := b.(*StructV)
		n := &StructV{t: a.t}
		for i := range a.f {
			n.f = append(n.f, x.ite(g, a.f[i], bs.f[i]))
		}
		return n
	case TupleV:
		bs := b.(TupleV)
		var n TupleV
		for i := range a {
			n = append(n, x.ite(g, a[i], bs[i]))
		}
		return n
	case *AddrV:
		if bs, ok := b.(*AddrV); ok && a.cell == bs.cell && a.ref == bs.ref && len(a.path) == 0 && len(bs.path) == 0 && a.global == bs.global && a.seq == bs.seq {
			return a
		}
	case *FnV:
		if bs, ok := b.(*FnV); ok && a.fn == bs.fn && len(a.binds) == 0 {
			return a
		}
	}
	panic(unsupported(fmt.Sprintf("merge %T", a)))
}

func (m *mach) convert(v *Term, from, to types.Type) Val {
	c := m.x.c
	fs, ts := sortOf(from), sortOf(to)
	switch {
	case fs == SInt && ts == SInt:
		return m.wrapFrom(v, from, to)
	case fs == SInt && ts == SStr:
		return c.Chr(v)
	case fs == SStr && ts == SStr:
		return v
	case fs == SStr && ts == SSeq:
		if b, ok := to.Underlying().(*types.Slice).Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			return c.Bytes(v)
		}
		return c.UF("runes", SSeq, v)
	case fs == SSeq && ts == SStr:
		if v.op == "bytes" {
			return v.args[0]
		}
		s := c.UF("seqstr", SStr, v)
		if b, ok := from.Underlying().(*types.Slice).Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			s.addFact(c.Eq(c.Slen(s), c.Len(v)))
		}
		return s
	case fs == SFlt && ts == SFlt:
		return v
	case fs == SInt && ts == SFlt:
		return c.UF("itof", SFlt, v)
	case fs == SFlt && ts == SInt:
		return c.UF("ftoi", SInt, v)
	}
	panic(unsupported("conversion " + from.String() + " to " + to.String()))
}

func (m *mach) wrapFrom(v *Term, from, to types.Type) *Term {
	fb, ok1 := from.Underlying().(*types.Basic)
	tb, ok2 := to.Underlying().(*types.Basic)
	if !ok1 || !ok2 {
		return v
	}
	lo, hi, narrow := intRange(tb)
	if !narrow {
		return v
	}
	if flo, fhi, ok := intRange(fb); ok && flo >= lo && fhi <= hi {
		return v
	}
	return m.wrap(v, to)
}

func (m *mach) binop(in *ssa.BinOp, a, b Val) Val {
	x, c := m.x, m.x.c
	t := in.X.Type()
	srt := sortOf(t)
	if _, ok := isStruct(t); ok {
		eq := c.True()
		as, bs := x.flatten(a, t), x.flatten(b, t)
		for i := range as {
			eq = c.And(eq, c.Eq(as[i], bs[i]))
		}
		if in.Op == token.NEQ {
			return c.Not(eq)
		}
		return eq
	}
	at, aok := a.(*Term)
	bt, bok := b.(*Term)
	if !aok || !bok {
		// a function or interior pointer is never nil
		_, ac := in.X.(*ssa.Const)
		_, bc := in.Y.(*ssa.Const)
		if ac || bc {
			return c.Bool(in.Op == token.NEQ)
		}
		panic(unsupported("comparison of pointers"))
	}
	if srt == SFlt {
		switch in.Op {
		case token.ADD, token.SUB, token.MUL, token.QUO:
			return c.UF("f"+in.Op.String(), SFlt, at, bt)
		case token.EQL:
			return c.fcmp("feq", at, bt)
		case token.NEQ:
			return c.Not(c.fcmp("feq", at, bt))
		case token.LSS:
			return c.fcmp("flt", at, bt)
		case token.GTR:
			return c.fcmp("flt", bt, at)
		case token.LEQ:
			return c.fcmp("fle", at, bt)
		case token.GEQ:
			return c.fcmp("fle", bt, at)
		}
	}
	if srt == SStr {
		switch in.Op {
		case token.ADD:
			return c.Scat(at, bt)
		case token.LSS:
			return c.UF("strlt", SBool, at, bt)
		case token.GTR:
			return c.UF("strlt", SBool, bt, at)
		case token.LEQ:
			return c.Not(c.UF("strlt", SBool, bt, at))
		case token.GEQ:
			return c.Not(c.UF("strlt", SBool, at, bt))
		}
	}
	switch in.Op {
	case token.EQL:
		if srt == SSeq {
			return c.Eq(c.Len(at), c.Int(0)) // only comparison with nil is possible
		}
		return c.Eq(at, bt)
	case token.NEQ:
		if srt == SSeq {
			return c.Not(c.Eq(c.Len(at), c.Int(0)))
		}
		return c.Not(c.Eq(at, bt))
	case token.LSS:
		return c.Lt(at, bt)
	case token.LEQ:
		return c.Le(at, bt)
	case token.GTR:
		return c.Lt(bt, at)
	case token.GEQ:
		return c.Le(bt, at)
	case token.ADD:
		return m.wrap(c.Add(at, bt), in.Type())
	case token.SUB:
		return m.wrap(c.Sub(at, bt), in.Type())
	case token.MUL:
		return m.wrap(c.Mul(at, bt), in.Type())
	case token.QUO, token.REM:
		m.check("division by zero", c.Not(c.Eq(bt, c.Int(0))), in)
		if bt.isInt() && bt.i64() > 0 {
			k := bt.i64()
			q := c.Ite(c.Le(c.Int(0), at), c.Div(at, k), c.Neg(c.Div(c.Neg(at), k)))
			if m.nonneg(at) {
				q = c.Div(at, k)
			}
			if in.Op == token.QUO {
				return q
			}
			if m.nonneg(at) {
				return c.Mod(at, k)
			}
			return c.Sub(at, c.MulC(big.NewInt(k), q))
		}
		return c.UF("nl"+clean(in.Op.String()), SInt, at, bt)
	case token.SHL:
		m.check("negative shift", c.Le(c.Int(0), bt), in)
		if bt.isInt() && bt.i64() < 63 && bt.i64() >= 0 {
			return m.wrap(c.MulC(new(big.Int).Lsh(big.NewInt(1), uint(bt.i64())), at), in.Type())
		}
		return m.wrap(c.UF("shl", SInt, at, bt), in.Type())
	case token.SHR:
		m.check("negative shift", c.Le(c.Int(0), bt), in)
		if bt.isInt() && bt.i64() < 62 && bt.i64() >= 0 {
			return c.Div(at, 1<<uint(bt.i64()))
		}
		return c.UF("shr", SInt, at, bt)
	case token.AND:
		if at.isInt() {
			at, bt = bt, at
		}
		if bt.isInt() {
			return m.andConst(at, bt.n)
		}
	case token.OR:
		if at.isInt() {
			at, bt = bt, at
		}
		if bt.isInt() && bt.n.Sign() >= 0 {
			// x|c = x + c - (x&c)
			return c.Sub(c.Add(at, bt), m.andConst(at, bt.n))
		}
	case token.XOR:
		if at.isInt() {
			at, bt = bt, at
		}
		if bt.isInt() && bt.n.Sign() >= 0 {
			return c.Sub(c.Add(at, bt), c.MulC(big.NewInt(2), m.andConst(at, bt.n)))
		}
	case token.AND_NOT:
		if bt.isInt() && bt.n.Sign() >= 0 {
			return c.Sub(at, m.andConst(at, bt.n))
		}
	}
	return c.UF("bit"+fmt.Sprint(int(in.Op)), SInt, at, bt)
}

func (m *mach) nonneg(t *Term) bool {
	if l, ok := m.x.c.lower(t); ok && l.Sign() >= 0 {
		return true
	}
	v := m.bounds(t)
	return v.lo != nil && v.lo.Sign() >= 0
}

// andConst is x & k for a non-negative k: the sum of the runs of bits of k.
func (m *mach) andConst(v *Term, k *big.Int) *Term {
	c := m.x.c
	if v.isInt() {
		return c.Big(new(big.Int).And(v.n, k))
	}
	if k.Sign() < 0 {
		return c.UF("bitand", SInt, v, c.Big(k))
	}
	if iv := m.bounds(v); iv.lo != nil && iv.hi != nil && iv.lo.Sign() >= 0 {
		// bits that v cannot have
		n := uint(iv.hi.BitLen())
		k = new(big.Int).And(k, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), n), big.NewInt(1)))
		if k.Cmp(new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), n), big.NewInt(1))) == 0 {
			return v
		}
	}
	out := c.Int(0)
	for lo := 0; lo < k.BitLen(); {
		if k.Bit(lo) == 0 {
			lo++
			continue
		}
		hi := lo
		for k.Bit(hi) == 1 {
			hi++
		}
		t := v
		if lo > 0 {
			t = c.Div(t, 1<<uint(lo))
		}
		t = c.Mod(t, 1<<uint(hi-lo))
		out = c.Add(out, c.MulC(new(big.Int).Lsh(big.NewInt(1), uint(lo)), t))
		lo = hi
	}
	return out
}

func (m *mach) slice(in *ssa.Slice, get func(ssa.Value) Val) Val {
	x, c := m.x, m.x.c
	v := get(in.X)
	idx := func(v ssa.Value, d *Term) *Term {
		if v == nil {
			return d
		}
		return get(v).(*Term)
	}
	switch u := in.X.Type().Underlying().(type) {
	case *types.Basic:
		s := v.(*Term)
		lo, hi := idx(in.Low, c.Int(0)), idx(in.High, c.Slen(s))
		m.check("slice bounds", c.And(c.Le(c.Int(0), lo), c.Le(lo, hi), c.Le(hi, c.Slen(s))), in)
		return c.Ssub(s, lo, hi)
	case *types.Slice:
		s := v.(*Term)
		lo, hi := idx(in.Low, c.Int(0)), idx(in.High, c.Len(s))
		// capacity is not modelled: slicing stays within the length
		m.check("slice bounds", c.And(c.Le(c.Int(0), lo), c.Le(lo, hi), c.Le(hi, c.Len(s))), in)
		return c.Sub3(s, lo, hi)
	case *types.Pointer:
		arr := u.Elem()
		s := x.load(m.st, v, arr).(*Term)
		lo, hi := idx(in.Low, c.Int(0)), idx(in.High, c.Len(s))
		m.check("slice bounds", c.And(c.Le(c.Int(0), lo), c.Le(lo, hi), c.Le(hi, c.Len(s))), in)
		if at := arr.Underlying().(*types.Array); x.p.noNil(at.Elem()) && !m.spec {
			for i := int64(0); i < at.Len(); i++ {
				m.check("no nils in a slice", x.kindTerm(at.Elem(), c.At(s, c.Int(i), 0, SInt)), in)
			}
		}
		return c.Sub3(s, lo, hi)
	}
	panic(unsupported("slice"))
}

// ---- maps: key "map:<type>" holds values, "has:<type>" membership, by (map, key)

func mapKeys(mt *types.Map) (string, string) {
	n := typeName(mt)
	return "map:" + n, "has:" + n
}

func (x *Exec) mapKey(mt *types.Map, k Val) []*Term { return x.flatten(k, mt.Key()) }

func (x *Exec) mapGet(st *State, r *Term, mt *types.Map, k Val) (Val, *Term) {
	vk, hk := mapKeys(mt)
	c := x.c
	ks := append([]*Term{r}, x.mapKey(mt, k)...)
	has := c.And(c.Not(c.Eq(r, c.Int(0))), c.Sel(x.arr(st, hk, SBool), false, ks...))
	var ts []*Term
	for _, l := range leavesAt(mt.Elem(), vk, nil) {
		z := x.flatten(x.zero(l.typ), l.typ)[0]
		t := c.Ite(has, c.Sel(x.arr(st, l.key, l.sort), isRefType(l.typ), ks...), z)
		ts = append(ts, t)
	}
	return x.unflatten(ts, mt.Elem()), has
}

func (x *Exec) mapSet(st *State, r *Term, mt *types.Map, k, v Val, has *Term) {
	vk, hk := mapKeys(mt)
	ks := append([]*Term{r}, x.mapKey(mt, k)...)
	st.heap[hk] = x.c.Store(x.arr(st, hk, SBool), has, ks...)
	if v != nil {
		fl := x.flatten(v, mt.Elem())
		for i, l := range leavesAt(mt.Elem(), vk, nil) {
			st.heap[l.key] = x.c.Store(x.arr(st, l.key, l.sort), fl[i], ks...)
		}
	}
}

// mapClear makes a new map empty: membership is false for every key of r.
func (x *Exec) mapClear(st *State, r *Term, mt *types.Map) {
	_, hk := mapKeys(mt)
	st.heap[hk] = x.c.mk("mclear", x.arr(st, hk, SBool).sort, "", nil, x.arr(st, hk, SBool), r)
}

// localOnly holds if a variable is only read and written where it is.
func localOnly(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.FieldAddr:
			if !localOnly(r) {
				return false
			}
		case *ssa.UnOp:
		case *ssa.MakeClosure:
			for i, b := range r.Bindings {
				if b == v && !localOnly(r.Fn.(*ssa.Function).FreeVars[i]) {
					return false
				}
			}
		case *ssa.Store:
			if r.Addr != v {
				return false
			}
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

// knownTag is the type that the path conditions of the state in which a specification is evaluated
// state for a value, or 0.
func (m *mach) knownTag(r *Term) int64 {
	if m.known == nil || r.op != "uf" && r.op != "sym" {
		return 0
	}
	tag := m.x.tag(r)
	if k, ok := m.known[tag.id]; ok {
		return k
	}
	k := int64(0)
	if m.st.pcSet[m.x.c.Not(m.x.c.Eq(r, m.x.c.Int(0))).id] {
		for _, p := range m.st.pc {
			if p.op == "=" {
				for i, a := range p.args {
					if b := p.args[1-i]; a == tag && b.isInt() {
						k = b.i64()
					}
				}
			}
		}
	}
	m.known[tag.id] = k
	return k
}
