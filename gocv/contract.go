package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type clause struct {
	name string
	fn   *FnV
}

// contractB is a contract evaluated in the state before a call.
type contractB struct {
	cfn          *ssa.Function
	requires     []*Term
	ensures      []clause
	ensuresPanic []clause
	mayPanic     bool
	modifies     []Val
	modifiesAny  bool
	invariants   []*FnV
	loopDec      []*FnV
	decreases    []*Term
	unroll       int
	fuel         int
	reveal       map[string]bool
	hints        map[string][]*FnV // lemmas to use before calls
	trusted      string
	fresh        bool
	inline       bool
	cases        []*Term
}

func constString(v ssa.Value) string {
	if c, ok := v.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String {
		return constant.StringVal(c.Value)
	}
	return "?"
}

func fnArg(v Val, x *Exec) *FnV {
	switch v := v.(type) {
	case *FnV:
		return v
	case *Term:
		if f, ok := x.unintern(v, nil).(*FnV); ok {
			return f
		}
	}
	panic(unsupported("contract clause is not a function"))
}

func (b *contractB) directive(m *mach, name string, args []Val, cc *ssa.CallCommon, guard *Term) {
	x := m.x
	list := func(v Val) []Val {
		var out []Val
		t := v.(*Term)
		for t.op == "snoc" {
			v := x.unintern(t.args[1], nil)
			if u, ok := v.(*Term); ok && x.boxed[u.id] != nil {
				v = x.boxed[u.id]
			}
			out = append([]Val{v}, out...)
			t = t.args[0]
		}
		return out
	}
	switch name {
	case "Requires":
		b.requires = append(b.requires, args[0].(*Term))
	case "Ensures":
		b.ensures = append(b.ensures, clause{constString(cc.Args[0]), fnArg(args[1], x)})
	case "EnsuresPanic":
		b.ensuresPanic = append(b.ensuresPanic, clause{constString(cc.Args[0]), fnArg(args[1], x)})
	case "MayPanic":
		b.mayPanic = true
	case "Modifies":
		b.modifies = append(b.modifies, list(args[0])...)
	case "ModifiesField":
		b.modifies = append(b.modifies, guardedField{constString(cc.Args[0]), guard})
	case "Cases":
		b.cases = append(b.cases, args[0].(*Term))
	case "ModifiesBelow":
		b.modifies = append(b.modifies, belowField{constString(cc.Args[0]), args[1].(*Term)})
	case "ModifiesAny":
		b.modifiesAny = true
	case "Invariant":
		b.invariants = append(b.invariants, fnArg(args[0], x))
	case "LoopDecreases":
		b.loopDec = append(b.loopDec, fnArg(args[0], x))
	case "Decreases":
		for _, v := range list(args[0]) {
			b.decreases = append(b.decreases, v.(*Term))
		}
	case "Unroll":
		b.unroll = int(args[0].(*Term).i64())
	case "Fuel":
		b.fuel = int(args[0].(*Term).i64())
	case "At":
		if b.hints == nil {
			b.hints = map[string][]*FnV{}
		}
		n := constString(cc.Args[0])
		b.hints[n] = append(b.hints[n], fnArg(args[1], x))
	case "Reveal":
		if b.reveal == nil {
			b.reveal = map[string]bool{}
		}
		b.reveal[constString(cc.Args[0])] = true
	case "Trusted":
		b.trusted = constString(cc.Args[0])
	case "Fresh":
		b.fresh = true
	case "Inline":
		b.inline = true
	}
}

// evalContract runs a contract function in a state.
func (x *Exec) evalContract(st *State, cfn *ssa.Function, args []Val) *contractB {
	b := &contractB{cfn: cfn}
	old := x.building
	x.building = b
	defer func() { x.building = old }()
	if len(cfn.Params) != len(args) {
		panic(unsupported(fmt.Sprintf("contract %s has %d parameters, the function %d", cfn.Name(), len(cfn.Params), len(args))))
	}
	x.specMach(st).callFn(cfn, args, nil, x.c.True())
	return b
}

// guardedField is a field that may be modified if the guard holds.
type guardedField struct {
	key   string
	guard *Term
}

// resolve decides the guards of what is modified, in a state where the function is called. What
// can not be decided may be modified.
func (b *contractB) resolve(x *Exec, st *State) *contractB {
	var ms []Val
	for _, m := range b.modifies {
		if g, ok := m.(guardedField); ok {
			if !x.infeasible(st, g.guard) {
				ms = append(ms, wholeField(g.key))
			}
			continue
		}
		ms = append(ms, m)
	}
	b.modifies = ms
	return b
}

// decided is the contract in a case where every guard must be decided.
func (b *contractB) decided(x *Exec, st *State) *contractB {
	o := *b
	o.modifies = nil
	for _, m := range b.modifies {
		g, ok := m.(guardedField)
		if !ok {
			o.modifies = append(o.modifies, m)
			continue
		}
		switch {
		case x.infeasible(st, x.c.Not(g.guard)):
			o.modifies = append(o.modifies, wholeField(g.key))
		case !x.infeasible(st, g.guard):
			panic(unsupported("the condition under which " + g.key + " is modified is not one of the cases"))
		}
	}
	return &o
}

func (b *contractB) modifiesKey(k string) bool {
	for _, m := range b.modifies {
		if w, ok := m.(wholeField); ok && string(w) == k {
			return true
		}
	}
	return false
}

// below is the bound under which objects may have their field k changed, or nil.
func (b *contractB) below(k string) *Term {
	if b == nil || b.modifiesAny || b.modifiesKey(k) {
		return nil
	}
	for _, m := range b.modifies {
		if w, ok := m.(belowField); ok && w.key == k {
			return w.bound
		}
	}
	return nil
}

// allowed: the object r may have its field k changed.
func (b *contractB) allowed(x *Exec, k string, r *Term) *Term {
	out := x.c.False()
	for _, m := range b.modifies {
		switch m := m.(type) {
		case belowField:
			if m.key == k {
				out = x.c.Or(out, x.c.Lt(x.rank(r), m.bound))
			}
		case *AddrV:
			if m.ref == nil {
				continue
			}
			fs, _ := splitPath(m.path)
			for _, l := range subLeaves(m.st, fs) {
				if l.key == k {
					out = x.c.Or(out, x.c.Eq(r, m.ref))
				}
			}
		case *Term:
			t := x.refTypes[m.id]
			if t == nil {
				continue
			}
			if mt, ok := t.Underlying().(*types.Map); ok {
				vk, hk := mapKeys(mt)
				if k == hk || strings.HasPrefix(k, vk) {
					out = x.c.Or(out, x.c.Eq(r, m))
				}
				continue
			}
			for _, l := range cellLeaves(t) {
				if l.key == k {
					out = x.c.Or(out, x.c.Eq(r, m))
				}
			}
		}
	}
	return out
}

// cellLeaves is the leaves of what a pointer points to.
func cellLeaves(t types.Type) []leaf {
	if _, ok := isStruct(t); ok {
		return leaves(t)
	}
	return []leaf{{typ: t, sort: sortOf(t), key: "cell:" + typeName(t)}}
}

// ---- lemmas

// lemmaTerm is the statement of a lemma for some arguments.
func (m *mach) lemmaTerm(f *ssa.Function, args []Val) (*Term, *contractB) {
	x := m.x
	b := &contractB{cfn: f}
	old := x.building
	x.building = b
	x.applying++
	mm := &mach{x: x, st: m.st, spec: true, check: func(string, *Term, ssa.Instruction) {}, depth: m.depth}
	p := mm.callFn(f, args, nil, x.c.True()).(*Term)
	x.applying--
	x.building = old
	return x.c.Implies(x.c.And(b.requires...), p), b
}

// useLemma assumes an instance of a lemma.
func (m *mach) useLemma(f *ssa.Function, args []Val) Val {
	x, c := m.x, m.x.c
	if x.applying > 0 {
		return c.True()
	}
	if automatic(x.lemmaGoal) && f != x.lemmaGoal && f.Name() != "lemma_true" {
		panic(unsupported("lemma " + x.lemmaGoal.Name() + " uses " + f.Name()))
	}
	t, b := m.lemmaTerm(f, args)
	if x.lemmaGoal != nil && x.p.sameSCC(f, x.lemmaGoal) {
		if len(x.lemmaM) == 0 || len(b.decreases) == 0 {
			panic(unsupported("recursive lemma " + f.Name() + " without a measure"))
		}
		t = c.Implies(c.lexLess(b.decreases, x.lemmaM), t)
	}
	x.used[f.Name()] = true
	if t.bound {
		return t
	}
	x.assume(m.st, t)
	return c.True()
}

// verifyLemma proves a lemma for all arguments.
func (x *Exec) verifyLemma(f *ssa.Function) (err error) {
	x.fn = f
	defer x.caught(&err)
	x.initGlobals(f)
	st := x.newState()
	var args []Val
	for _, p := range f.Params {
		args = append(args, x.fresh(p.Name(), p.Type()))
	}
	m := x.specMach(st)
	_, b := m.lemmaTerm(f, args)
	if b.trusted != "" {
		x.ct = b
		return nil
	}
	x.lemmaM = b.decreases
	x.fuel = b.fuel
	x.reveal = b.reveal
	if len(b.decreases) == 0 && x.p.recursive[f] {
		return fmt.Errorf("recursive lemma without a measure")
	}
	for _, r := range b.requires {
		x.assume(st, r)
	}
	if x.infeasible(st, x.c.True()) && len(st.pc) > 0 {
		x.failed("hypotheses are satisfiable", nil, "")
	}
	// run it as a program, so that the cases split; Use adds instances as it goes
	x.lemmaGoal = f
	x.building = &contractB{}
	x.enter(st, f, args, nil, nil)
	st.top().onReturn = func(st *State, v Val) {
		x.oblige(st, "lemma "+f.Name(), v.(*Term), nil)
	}
	x.runAll(st)
	return nil
}

func (x *Exec) caught(err *error) {
	switch r := recover().(type) {
	case nil:
	case unsupportedErr:
		*err = fmt.Errorf("%s", string(r))
	case timeoutErr:
		*err = fmt.Errorf("out of time")
	default:
		if x.debug {
			panic(r)
		}
		*err = fmt.Errorf("verifier fault: %v", r)
	}
}

// verifyFn checks a function against its contract.
func (x *Exec) verifyFn(fn, cfn *ssa.Function, budget time.Duration) (err error) {
	x.fn = fn
	defer x.caught(&err)
	x.initGlobals(fn)
	x.deadline = time.Now().Add(budget)
	st := x.newState()
	var args []Val
	for _, p := range fn.Params {
		v := x.fresh(p.Name(), p.Type())
		args = append(args, v)
	}
	x.c.alloc += 10
	x.frameAlloc = x.c.alloc
	b := x.evalContract(st, cfn, args)
	x.ct = b
	x.fuel = b.fuel
	x.reveal = b.reveal
	if b.trusted != "" {
		return nil
	}
	for _, r := range b.requires {
		x.assume(st, r)
	}
	if len(st.pc) > 0 && x.infeasible(st, x.c.True()) {
		x.failed("precondition is satisfiable", nil, "")
		return nil
	}
	if x.p.recursive[fn] {
		for _, d := range b.decreases {
			x.oblige(st, "measure is not negative", x.c.Le(x.c.Int(0), d), nil)
		}
	}
	x.startAlloc = x.c.alloc
	f := &Frame{fn: fn, env: map[ssa.Value]Val{}, block: fn.Blocks[0], ct: b}
	for i, p := range fn.Params {
		f.env[p] = args[i]
	}
	returns := 0
	f.onReturn = func(st *State, v Val) {
		returns++
		var res []Val
		switch fn.Signature.Results().Len() {
		case 0:
		case 1:
			res = []Val{v}
		default:
			res = []Val(v.(TupleV))
		}
		x.publishAll(st, res, nil)
		if b.fresh {
			t, ok := res[0].(*Term)
			x.oblige(st, "result is a new object", x.c.Bool(ok && newRef(t, x.startAlloc)), nil)
		}
		for _, e := range b.ensures {
			pst := st.clone()
			m := x.specMach(pst)
			g := m.callFn(e.fn.fn, res[:len(e.fn.fn.Params)], e.fn.binds, x.c.True()).(*Term)
			x.oblige(pst, e.name, g, nil)
		}
		x.checkFrame(st)
	}
	sts := []*State{st}
	for _, t := range b.cases {
		var next []*State
		for _, st := range sts {
			for _, t := range []*Term{t, x.c.Not(t)} {
				st := st.clone()
				x.assume(st, t)
				if !st.dead && !x.infeasible(st, x.c.True()) {
					next = append(next, st)
				}
			}
		}
		sts = next
	}
	frame := f
	for _, st := range sts {
		f := *frame
		f.env = map[ssa.Value]Val{}
		for k, v := range frame.env {
			f.env[k] = v
		}
		f.ct = b.decided(x, st)
		x.ct = f.ct
		st.frames = []*Frame{&f}
		x.runAll(st)
	}
	if returns == 0 && !b.mayPanic {
		x.notes = append(x.notes, "no path returns")
	}
	return nil
}

// initGlobals interprets the initialisers of the packages that fn can reach.
func (x *Exec) initGlobals(fn *ssa.Function) {
	for f := fn; ; f = f.Parent() {
		if f.Parent() == nil {
			fn = f
			break
		}
	}
	want := map[string]bool{}
	var walk func(p *types.Package)
	walk = func(p *types.Package) {
		if want[p.Path()] || x.p.pkgs[p.Path()] == nil {
			return
		}
		want[p.Path()] = true
		for _, q := range p.Imports() {
			walk(q)
		}
	}
	walk(fn.Pkg.Pkg)
	var paths []string
	for p := range want {
		paths = append(paths, p)
	}
	sortStrings(paths)
	for _, p := range paths {
		x.initPkg(x.p.pkgs[p])
	}
}

// initPkg runs the straight-line initialiser of a package; what it cannot run stays unknown.
func (x *Exec) initPkg(pk *ssa.Package) {
	ini := pk.Func("init")
	if ini == nil {
		return
	}
	x.initing = true
	defer func() { x.initing = false }()
	st := x.newState()
	m := x.mach(st)
	env := map[ssa.Value]Val{}
	for _, b := range ini.Blocks {
		for _, in := range b.Instrs {
			func() {
				defer func() {
					if r := recover(); r != nil {
						if _, ok := r.(unsupportedErr); !ok {
							if _, ok := in.(*ssa.Store); !ok {
								_ = r
							}
						}
					}
				}()
				switch in := in.(type) {
				case *ssa.Store:
					if g := rootGlobal(in.Addr); g != nil && (g.Name() == "init$guard" || g.Name() == "_") {
						return
					}
				case *ssa.Call:
					if f := in.Call.StaticCallee(); f != nil && f.String() == "errors.New" {
						e := x.c.Sym("error!"+clean(pk.Pkg.Path()+"."+in.Name()), SInt)
						e.addFact(x.c.Not(x.c.Eq(e, x.c.Int(0))))
						x.c.markRef(e, 1)
						env[in] = e
					}
					return
				case *ssa.If, *ssa.Jump, *ssa.Return:
					return
				case *ssa.MakeInterface:
					return
				}
				v, ok := m.eval(env, ini, nil, in)
				if ok {
					if rv, isV := in.(ssa.Value); isV {
						env[rv] = v
					}
				}
			}()
		}
	}
	for k, v := range st.heap {
		x.initHeap[k] = v
	}
}

func rootGlobal(v ssa.Value) *ssa.Global {
	for {
		switch u := v.(type) {
		case *ssa.Global:
			return u
		case *ssa.FieldAddr:
			v = u.X
		case *ssa.IndexAddr:
			v = u.X
		default:
			return nil
		}
	}
}
