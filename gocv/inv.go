package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Object invariants: invariant_T(n *T) in a contract file holds of every object of type T that
// anything but the function that allocates it can refer to. It is assumed of unknown objects and
// obliged when an object is published (passed, returned, stored) and whenever a published object
// is changed. Slices and maps of such objects hold no nils.

// invOf is the invariant of a struct type, or nil.
func (p *Program) invOf(t types.Type) *ssa.Function {
	n, ok := t.(*types.Named)
	if !ok {
		return nil
	}
	return p.invs[n]
}

// noNil holds for the element types of slices and maps that hold no nils: pointers to structs of a
// package with invariants, and its interfaces.
func (p *Program) noNil(t types.Type) bool {
	if pt, ok := t.(*types.Pointer); ok {
		t = pt.Elem()
		if _, ok := isStruct(t); !ok {
			return false
		}
	} else if _, ok := t.Underlying().(*types.Interface); !ok {
		return false
	}
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && p.invPkgs[n.Obj().Pkg()]
}

// hasInv holds if objects of the type are published at all.
func (x *Exec) hasInv(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && x.p.invPkgs[n.Obj().Pkg()]
}

func embedded(t types.Type) []types.Type {
	s, ok := isStruct(t)
	if !ok {
		return nil
	}
	var out []types.Type
	for i := 0; i < s.NumFields(); i++ {
		if f := s.Field(i); f.Embedded() {
			if _, ok := isStruct(f.Type()); ok {
				out = append(out, f.Type())
			}
		}
	}
	return out
}

// invTerm is the invariant of an object in a state.
func (x *Exec) invTerm(st *State, r *Term, t types.Type) *Term {
	c := x.c
	out := c.True()
	if f := x.p.invOf(t); f != nil {
		out = x.specMach(st).callFn(f, []Val{r}, nil, c.True()).(*Term)
	}
	for _, e := range embedded(t) {
		if f := x.p.invOf(e); f != nil {
			out = c.And(out, x.specMach(st).callFn(f, []Val{&AddrV{ref: r, st: e}}, nil, c.True()).(*Term))
		}
	}
	return out
}

// known adds the invariant of an unknown object that is read.
func (x *Exec) invFacts(st *State, r *Term, t types.Type, v Val) {
	if !x.hasInv(t) || ownAlloc(r) || r.op == "ite" && x.iteOwn(r) || r.bound || r.op != "uf" && r.op != "sym" && r.op != "ite" {
		return
	}
	k := fmt.Sprintf("%d/%s", r.id, typeName(t))
	for _, l := range leaves(t) {
		if a, ok := st.heap[l.key]; ok {
			k += fmt.Sprintf("/%d", a.id)
		}
	}
	inv, ok := x.invMemo[k]
	if !ok {
		if x.invMemo == nil {
			x.invMemo = map[string]*Term{}
		}
		x.invMemo[k] = x.c.True()
		inv = x.invTerm(st, r, t)
		x.invMemo[k] = inv
	}
	if inv.isTrue() || inv.bound {
		return
	}
	var add func(v Val)
	add = func(v Val) {
		switch v := v.(type) {
		case *Term:
			if v.op == "uf" {
				v.addFact(inv)
			}
			if v.op == "ite" && !maybeNil(r) {
				add(v.args[1])
				add(v.args[2])
			}
		case *StructV:
			for _, f := range v.f {
				add(f)
			}
		}
	}
	add(v)
}

// maybeNil holds of what a type assertion yields in a specification.
func maybeNil(r *Term) bool {
	return r.op == "ite" && (r.args[1].isInt() || r.args[2].isInt() || maybeNil(r.args[1]) || maybeNil(r.args[2]))
}

// assumeInv states the invariant of an unknown object that the code reads.
func (x *Exec) assumeInv(m *mach, p Val) {
	a, ok := p.(*AddrV)
	if !ok || a.ref == nil || m.spec || ownAlloc(a.ref) || a.ref.bound || !x.hasInv(a.st) {
		return
	}
	if a.ref.op == "ite" && x.iteOwn(a.ref) {
		return
	}
	x.assume(m.st, x.c.Or(x.c.Eq(a.ref, x.c.Int(0)), x.invTerm(m.st, a.ref, a.st)))
}

func (x *Exec) iteOwn(t *Term) bool {
	if t.op == "ite" {
		return x.iteOwn(t.args[1]) || x.iteOwn(t.args[2])
	}
	return ownAlloc(t)
}

// publish obliges the invariants of the objects of the function's own in a value.
func (m *mach) publish(v Val, in ssa.Instruction) {
	m.publishIf(m.x.c.True(), v, in)
}

// publishIf is publish for a value that counts only under a condition.
func (m *mach) publishIf(g *Term, v Val, in ssa.Instruction) {
	x, c := m.x, m.x.c
	if m.spec || x.initing {
		return
	}
	switch v := v.(type) {
	case *Term:
		if v.op == "ite" && v.sort == SInt {
			m.publishIf(c.And(g, v.args[0]), v.args[1], in)
			m.publishIf(c.And(g, c.Not(v.args[0])), v.args[2], in)
			return
		}
		if !ownAlloc(v) || g.isFalse() {
			return
		}
		id := int(-v.i64())
		old := m.st.pub[id]
		t := x.allocT[id]
		if t == nil || old != nil && (old.isTrue() || old == g) {
			return
		}
		m.st.pub[id] = g
		m.publishFields(g, v, t, in)
		if x.hasInv(t) {
			if x.p.ranked(t) {
				when := g
				if old != nil {
					when = c.And(g, c.Not(old))
				}
				x.setRank(m.st, when, v, t)
			}
			m.checkInv(v, t, in)
		}
		if old != nil {
			g = c.Or(old, g)
		}
		m.st.pub[id] = g
	case *FnV:
		for _, f := range v.binds {
			m.publishIf(g, f, in)
		}
	case *StructV:
		for _, f := range v.f {
			m.publishIf(g, f, in)
		}
	case TupleV:
		for _, f := range v {
			m.publishIf(g, f, in)
		}
	case *AddrV:
		if v.ref != nil {
			m.publishIf(g, v.ref, in)
		}
	}
}

// publishFields publishes what an object refers to.
func (m *mach) publishFields(g, r *Term, t types.Type, in ssa.Instruction) {
	x := m.x
	if _, ok := isStruct(t); !ok {
		return
	}
	for _, l := range leaves(t) {
		if isRefType(l.typ) && l.sort == SInt && x.knowsField(m.st, r, l) {
			m.publishIf(g, x.c.Sel(x.arr(m.st, l.key, l.sort), false, r), in)
		}
	}
}

// held holds of objects of the function's own that no other function can refer to: what they
// refer to is published when they are.
func (x *Exec) held(st *State, r *Term) bool {
	if r.op == "ite" {
		return x.held(st, r.args[1]) && x.held(st, r.args[2])
	}
	return ownAlloc(r) && x.allocT[int(-r.i64())] != nil && st.pub[int(-r.i64())] == nil
}

// publishHeld publishes what is referred to by fields of objects of the function's own that a
// loop changes, and the objects that it publishes.
func (x *Exec) publishHeld(st *State, a *loopAttempt) {
	m := x.mach(st)
	in := a.l.header.Instrs[0]
	for _, id := range sortedIDs(a.pubs) {
		m.publish(x.c.Int(int64(-id)), in)
	}
	own := map[int]bool{}
	for id := range x.allocT {
		own[id] = true
	}
	for _, id := range sortedIDs(own) {
		r, t := x.c.Int(int64(-id)), x.allocT[id]
		if _, ok := isStruct(t); !ok || st.pub[id] != nil {
			continue
		}
		for _, l := range leaves(t) {
			if (a.whole[l.key] || a.refs[l.key][r.id] != nil) && isRefType(l.typ) && l.sort == SInt && x.knowsField(st, r, l) {
				m.publish(x.c.Sel(x.arr(st, l.key, l.sort), false, r), in)
			}
		}
	}
}

// checkInv obliges the invariant of an object where it is published.
func (m *mach) checkInv(r *Term, t types.Type, in ssa.Instruction) {
	m.checkInvIf(m.x.c.True(), r, t, in)
}

func (m *mach) checkInvIf(g, r *Term, t types.Type, in ssa.Instruction) {
	x, c := m.x, m.x.c
	if r.op == "ite" && x.iteOwn(r) {
		m.checkInvIf(c.And(g, r.args[0]), r.args[1], t, in)
		m.checkInvIf(c.And(g, c.Not(r.args[0])), r.args[2], t, in)
		return
	}
	if ownAlloc(r) {
		p := m.st.pub[int(-r.i64())]
		if p == nil {
			return
		}
		g = c.And(g, p)
	}
	m.check("invariant of "+typeName(t), c.Implies(g, x.invTerm(m.st, r, t)), in)
}

// stored follows a store: a changed published object must satisfy its invariant, and what is
// stored in an object is published.
func (m *mach) stored(p, v Val, in ssa.Instruction) {
	x := m.x
	if m.spec || x.initing {
		return
	}
	switch a := p.(type) {
	case *Term:
		if _, ref := v.(*Term); !ref || !x.held(m.st, a) {
			m.publish(v, in)
		}
		if pt, ok := x.refType(a, in); ok && x.hasInv(pt) {
			m.checkInv(a, pt, in)
		}
	case *AddrV:
		if _, ref := v.(*Term); a.ref != nil && (!ref || !x.held(m.st, a.ref)) || a.global != nil || a.ref == nil && len(a.path) > 0 && a.path[0].idx != nil {
			m.publish(v, in)
		}
		if a.ref != nil && x.hasInv(a.st) {
			m.checkInv(a.ref, a.st, in)
		}
	}
}

func (x *Exec) refType(r *Term, in ssa.Instruction) (types.Type, bool) {
	if s, ok := in.(*ssa.Store); ok {
		return s.Addr.Type().Underlying().(*types.Pointer).Elem(), true
	}
	return nil, false
}

// publishAll publishes what changes in a loop or differs at a join.
func (x *Exec) publishAll(st *State, vs []Val, in ssa.Instruction) {
	m := x.mach(st)
	for _, v := range vs {
		m.publish(v, in)
	}
}

// findInvariants collects the invariants.
func (p *Program) findInvariants() {
	p.invs = map[*types.Named]*ssa.Function{}
	p.kinds = map[*types.Named]*ssa.Function{}
	p.invPkgs = map[*types.Package]bool{}
	p.ranks = map[*ssa.Function]bool{}
	for _, pk := range p.pkgs {
		for name, m := range pk.Members {
			fn, ok := m.(*ssa.Function)
			if ok && strings.HasPrefix(name, "kind_") {
				if t := pk.Type(strings.TrimPrefix(name, "kind_")); t != nil {
					p.kinds[t.Type().(*types.Named)] = fn
				} else {
					p.dropped[pk.Pkg.Name()+"."+name] = "no such type"
				}
			}
			if !ok || !strings.HasPrefix(name, "invariant_") {
				continue
			}
			if t := pk.Type(strings.TrimPrefix(name, "invariant_")); t != nil {
				p.invs[t.Type().(*types.Named)] = fn
				p.ranks[fn] = callsRank(fn)
				p.invPkgs[pk.Pkg] = true
			} else {
				p.dropped[pk.Pkg.Name()+"."+name] = "no such type"
			}
		}
	}
}

func (p *Program) invNames() []string {
	var out []string
	for n := range p.invs {
		out = append(out, typeName(n))
	}
	sort.Strings(out)
	return out
}

// notNilElem: an element of a slice of objects is one.
func (x *Exec) notNilElem(t *Term, et types.Type) {
	c := x.c
	if t.bound {
		return
	}
	if t.op == "ite" {
		x.notNilElem(t.args[1], et)
		x.notNilElem(t.args[2], et)
		return
	}
	if t.op == "uf" && len(t.args) == 2 && t.args[0].sort == SSeq {
		t.addFact(c.Or(c.Lt(t.args[1], c.Int(0)), c.Le(c.Len(t.args[0]), t.args[1]), x.kindTerm(et, t)))
	}
}

// knows holds if a state has an object of the function's own.
func (x *Exec) knows(st *State, r *Term, t types.Type) bool {
	for _, l := range leaves(t) {
		if x.knowsField(st, r, l) {
			return true
		}
	}
	return false
}

func (x *Exec) knowsField(st *State, r *Term, l leaf) bool {
	var walk func(a *Term) bool
	walk = func(a *Term) bool {
		for {
			if a.op == "store" && len(a.args) == 3 && a.args[2] == r {
				return true
			}
			if a.op == "ite" {
				return walk(a.args[1]) || walk(a.args[2])
			}
			if len(a.args) == 0 {
				return false
			}
			a = a.args[0]
		}
	}
	return walk(x.arr(st, l.key, l.sort))
}

func sortedIDs(m map[int]bool) []int {
	var ks []int
	for k := range m {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	return ks
}

// publishSlots publishes what a loop's variables refer to.
func (x *Exec) publishSlots(st *State, a *loopAttempt) {
	f := st.top()
	var vs []Val
	for _, ph := range a.phis {
		vs = append(vs, f.env[ph])
	}
	for _, id := range sortedCells(st.cells) {
		vs = append(vs, st.cells[id])
	}
	x.publishAll(st, vs, a.l.header.Instrs[0])
}

func sortedCells(m map[int]Val) []int {
	var ks []int
	for k := range m {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	return ks
}

// joinPub publishes in b what is published in a.
func (x *Exec) joinPub(a, b *State) {
	var ids []int
	for id := range a.pub {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		r := x.c.Int(int64(-id))
		if t := x.allocT[id]; t != nil && x.knows(b, r, t) {
			x.mach(b).publishIf(a.pub[id], r, nil)
		}
	}
}

// findMade collects the types of the repository that are converted to an interface somewhere.
func (p *Program) findMade() {
	p.made = map[string]types.Type{}
	for fn := range ssautil.AllFunctions(p.prog) {
		if fn.Pkg == nil || p.pkgs[fn.Pkg.Pkg.Path()] == nil {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				mi, ok := in.(*ssa.MakeInterface)
				if !ok || p.blank(mi) {
					continue
				}
				p.made[types.TypeString(mi.X.Type(), nil)] = mi.X.Type()
			}
		}
	}
}

// blank holds for var _ I = T{}.
func (p *Program) blank(mi *ssa.MakeInterface) bool {
	if mi.Parent().Name() != "init" || mi.Parent().Synthetic == "" {
		return false
	}
	for _, r := range *mi.Referrers() {
		switch r := r.(type) {
		case *ssa.DebugRef:
		case *ssa.Store:
			if g := rootGlobal(r.Addr); g == nil || g.Name() != "_" {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// kindTerm is the restriction on the dynamic types of elements of an interface type.
func (x *Exec) kindTerm(t types.Type, v *Term) *Term {
	c := x.c
	out := c.Not(c.Eq(v, c.Int(0)))
	if n, ok := t.(*types.Named); ok {
		if f := x.p.kinds[n]; f != nil {
			out = c.And(out, x.specMach(x.newState()).callFn(f, []Val{v}, nil, c.True()).(*Term))
		}
	}
	return out
}
