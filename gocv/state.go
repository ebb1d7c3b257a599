package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// State is one path of the symbolic execution.
type State struct {
	pc     []*Term
	pcSet  map[int]bool
	cells  map[int]Val
	heap   map[string]*Term // field key -> array term; absent: as at the start
	frames []*Frame
	// panicking is the value of the panic being unwound.
	panicking Val
	dead      bool
	path      []string
	ghost     map[string]Val
	pub       map[int]*Term // objects of ours that others can refer to, and when
}

// Frame is one function activation on a path.
type Frame struct {
	fn      *ssa.Function
	env     map[ssa.Value]Val
	block   *ssa.BasicBlock
	prev    *ssa.BasicBlock
	pc      int
	defers  []deferred
	binds   []Val
	dest    ssa.Value // caller's register
	isDefer bool      // called because of a defer
	// unwinding: the frame is running its defers because of a panic
	unwinding bool
	loops     []*loopRun
	onReturn  func(st *State, v Val)
	ct        *contractB
}

type deferred struct {
	fn   Val
	args []Val
	call *ssa.CallCommon
	pos  ssa.Instruction
}

type loopRun struct {
	info  *loopInfo
	run   *loopAttempt
	count int // unrolled iterations
}

func (st *State) clone() *State {
	n := *st
	n.pc = st.pc[:len(st.pc):len(st.pc)]
	n.pcSet = make(map[int]bool, len(st.pcSet)+4)
	for k := range st.pcSet {
		n.pcSet[k] = true
	}
	n.cells = make(map[int]Val, len(st.cells))
	for k, v := range st.cells {
		n.cells[k] = v
	}
	n.heap = make(map[string]*Term, len(st.heap))
	for k, v := range st.heap {
		n.heap[k] = v
	}
	n.pub = make(map[int]*Term, len(st.pub))
	for k, g := range st.pub {
		n.pub[k] = g
	}
	n.ghost = make(map[string]Val, len(st.ghost))
	for k, v := range st.ghost {
		n.ghost[k] = v
	}
	n.frames = make([]*Frame, len(st.frames))
	for i, f := range st.frames {
		g := *f
		g.env = make(map[ssa.Value]Val, len(f.env))
		for k, v := range f.env {
			g.env[k] = v
		}
		g.defers = f.defers[:len(f.defers):len(f.defers)]
		g.loops = make([]*loopRun, len(f.loops))
		for j, l := range f.loops {
			ll := *l
			g.loops[j] = &ll
		}
		n.frames[i] = &g
	}
	n.path = st.path[:len(st.path):len(st.path)]
	return &n
}

func (st *State) top() *Frame { return st.frames[len(st.frames)-1] }

// assume adds a fact to the path.
func (x *Exec) assume(st *State, t *Term) {
	switch t.op {
	case "true":
		return
	case "and":
		for _, a := range t.args {
			x.assume(st, a)
		}
		return
	case "false":
		st.dead = true
	}
	if st.pcSet[t.id] {
		return
	}
	if st.pcSet[x.c.Not(t).id] {
		st.dead = true
	}
	st.pcSet[t.id] = true
	st.pc = append(st.pc, t)
}

// ---- heap

func (x *Exec) arr(st *State, key string, s Sort) *Term {
	if a, ok := st.heap[key]; ok {
		return a
	}
	if a, ok := x.bases[key]; ok {
		return a
	}
	a := x.c.Base("f!"+key, s)
	a.stamp = 1 // exists since the start
	x.bases[key] = a
	if x.baseName == nil {
		x.baseName = map[string]bool{}
	}
	x.baseName[a.name] = true
	return a
}

func (x *Exec) loadLeaf(st *State, ref *Term, l leaf) Val {
	t := x.c.Sel(x.arr(st, l.key, l.sort), isRefType(l.typ), ref)
	x.typed2(t, l.typ)
	x.static(t, l.typ)
	if t.sort == SSeq || isRefType(l.typ) {
		x.lower(t)
	}
	return x.unintern(t, l.typ)
}

// typed2 adds integer ranges to loaded values (references are marked by Sel).
func (x *Exec) typed2(t *Term, typ types.Type) {
	if isRefType(typ) || t.op == "ite" {
		return
	}
	x.typed(t, typ)
}

func (x *Exec) storeLeaf(st *State, ref *Term, l leaf, v Val) {
	var t *Term
	switch v := v.(type) {
	case *Term:
		t = v
	default:
		t = x.intern(v)
	}
	if b := x.ct; b != nil && !b.modifiesAny && !ownAlloc(ref) && !b.modifiesKey(l.key) && b.below(l.key) == nil && !b.allowed(x, l.key, ref).isTrue() {
		// the function may only store what is there already
		if now := x.c.Sel(x.arr(st, l.key, l.sort), isRefType(l.typ), ref); now == t || x.infeasible(st, x.c.Not(x.c.Eq(now, t))) {
			return
		}
	}
	a := x.c.Store(x.arr(st, l.key, l.sort), t, ref)
	if a.op == "store" && len(a.args) == 3 && x.c.Sel(a.args[0], isRefType(l.typ), ref) == t {
		a = a.args[0] // what was there before
	}
	st.heap[l.key] = a
}

// loadObj reads part of a heap object.
func (x *Exec) loadObj(st *State, ref *Term, t types.Type, path []int) Val {
	ls := subLeaves(t, path)
	ft := typeAt(t, path)
	if _, ok := isStruct(ft); !ok {
		v := x.loadLeaf(st, ref, ls[0])
		x.invFacts(st, ref, t, v)
		return v
	}
	var ts []*Term
	for _, l := range ls {
		switch v := x.loadLeaf(st, ref, l).(type) {
		case *Term:
			ts = append(ts, v)
		default:
			ts = append(ts, x.intern(v))
		}
	}
	return x.unflatten(ts, ft)
}

func (x *Exec) storeObj(st *State, ref *Term, t types.Type, path []int, v Val) {
	ls := subLeaves(t, path)
	ft := typeAt(t, path)
	for i, tm := range x.flatten(v, ft) {
		x.storeLeaf(st, ref, ls[i], tm)
	}
}

func (a *AddrV) extend(s step) *AddrV {
	n := *a
	n.path = append(append([]step{}, a.path...), s)
	return &n
}

// read walks a value along the rest of a path.
func (x *Exec) read(v Val, path []step, t types.Type) (Val, types.Type) {
	for _, s := range path {
		if s.idx != nil {
			var et types.Type
			switch u := s.typ.Underlying().(type) {
			case *types.Slice:
				et = u.Elem()
			case *types.Array:
				et = u.Elem()
			}
			v = x.elem(v.(*Term), s.idx, et)
			t = et
			continue
		}
		sv := v.(*StructV)
		v = sv.f[s.field]
		st, _ := isStruct(sv.t)
		t = st.Field(s.field).Type()
	}
	return v, t
}

// elem reads an element of a sequence.
func (x *Exec) elem(seq, i *Term, et types.Type) Val {
	var ts []*Term
	for k, l := range leaves(et) {
		t := x.c.At(seq, i, k, l.sort)
		if isRefType(l.typ) {
			if n, ok := x.c.stampOf(seq); ok {
				x.markDeep(t, n)
			} else {
				x.markDeep(t, x.c.alloc+1)
			}
			x.static(t, l.typ)
			x.lower(t)
			if x.p.noNil(l.typ) && len(l.path) == 0 {
				x.notNilElem(t, l.typ)
			}
		} else {
			x.typed2(t, l.typ)
		}
		ts = append(ts, t)
	}
	return x.unflatten(ts, et)
}

func (x *Exec) markDeep(t *Term, stamp int) {
	if t.op == "ite" {
		x.markDeep(t.args[1], stamp)
		x.markDeep(t.args[2], stamp)
		return
	}
	if t.sort == SInt && (t.op == "uf" || t.op == "sym") {
		x.c.markRef(t, stamp)
	}
}

// write gives v with the part at path replaced.
func (x *Exec) write(v Val, path []step, w Val) Val {
	if len(path) == 0 {
		return w
	}
	s := path[0]
	if s.idx != nil {
		var et types.Type
		switch u := s.typ.Underlying().(type) {
		case *types.Slice:
			et = u.Elem()
		case *types.Array:
			et = u.Elem()
		}
		if len(path) > 1 {
			w = x.write(x.elem(v.(*Term), s.idx, et), path[1:], w)
		}
		return x.c.Upd(v.(*Term), s.idx, x.flatten(w, et)...)
	}
	sv := v.(*StructV)
	n := &StructV{t: sv.t, f: append([]Val{}, sv.f...)}
	n.f[s.field] = x.write(sv.f[s.field], path[1:], w)
	return n
}

// load reads through a pointer.
func (x *Exec) load(st *State, p Val, t types.Type) Val {
	switch a := p.(type) {
	case *Term:
		if _, ok := isStruct(t); ok {
			return x.loadObj(st, a, t, nil)
		}
		// pointer to a scalar that came from memory
		l := leaf{typ: t, sort: sortOf(t), key: "cell:" + typeName(t)}
		return x.loadLeaf(st, a, l)
	case *AddrV:
		switch {
		case a.ref != nil:
			fs, rest := splitPath(a.path)
			v := x.loadObj(st, a.ref, a.st, fs)
			v, _ = x.read(v, rest, typeAt(a.st, fs))
			return v
		case a.seq != nil:
			v, _ := x.read(a.seq, a.path, nil)
			return v
		case a.global != nil:
			v, ok := x.globals[a.global]
			if !ok {
				t := a.global.Type().(*types.Pointer).Elem()
				v = x.fresh("global."+a.global.Name(), t)
				x.globals[a.global] = v
			}
			v, _ = x.read(v, a.path, nil)
			return v
		}
		v, ok := st.cells[a.cell]
		if !ok {
			v, ok = x.specCells[a.cell]
		}
		if !ok {
			panic(unsupported("load of unknown cell"))
		}
		v, _ = x.read(v, a.path, nil)
		return v
	}
	panic(unsupported("load"))
}

func splitPath(p []step) (fs []int, rest []step) {
	for i, s := range p {
		if s.idx != nil {
			return fs, p[i:]
		}
		fs = append(fs, s.field)
	}
	return fs, nil
}

// store writes through a pointer.
func (x *Exec) store(st *State, p Val, t types.Type, v Val) {
	switch a := p.(type) {
	case *Term:
		if _, ok := isStruct(t); ok {
			x.storeObj(st, a, t, nil, v)
			return
		}
		x.storeLeaf(st, a, leaf{typ: t, sort: sortOf(t), key: "cell:" + typeName(t)}, v)
		return
	case *AddrV:
		switch {
		case a.ref != nil:
			fs, rest := splitPath(a.path)
			if len(rest) > 0 {
				v = x.write(x.loadObj(st, a.ref, a.st, fs), rest, v)
			}
			x.storeObj(st, a.ref, a.st, fs, v)
			return
		case a.seq != nil:
			panic(unsupported("store to an element of a slice value"))
		case a.global != nil:
			if !x.initing {
				panic(unsupported("store to global " + a.global.Name()))
			}
			old := x.load(st, &AddrV{global: a.global}, nil)
			x.globals[a.global] = x.write(old, a.path, v)
			return
		}
		if old, ok := x.specCells[a.cell]; ok {
			x.specCells[a.cell] = x.write(old, a.path, v)
			return
		}
		if len(a.path) > 0 {
			v = x.write(st.cells[a.cell], a.path, v)
		}
		st.cells[a.cell] = v
		return
	}
	panic(unsupported("store"))
}
