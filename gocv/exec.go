package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Exec verifies one function.
type Exec struct {
	tagIs map[int]int64 // types that are assumed while a specification is unfolded

	tags    map[int]*Term
	statics map[int][]*types.Named

	unpub    map[int]map[int]bool // what results of calls can not refer to
	heights  bool                 // heights of trees are used
	baseName map[string]bool
	since    map[string]int // when the contents of arrays became unknown

	c   *Ctx
	p   *Program
	sol *Solver

	interned   []Val
	ncell      int
	specCells  map[int]Val
	globals    map[*ssa.Global]Val
	initing    bool
	bases      map[string]*Term
	allocType  map[int]int
	allocT     map[int]types.Type
	boxed      map[int]*Term // maps that contracts name
	invMemo    map[string]*Term
	refTypes   map[int]types.Type
	pureMemo   map[*ssa.Function]bool
	readMemo   map[*ssa.Function][]string
	nbound     int
	building   *contractB
	applying   int
	lemmaGoal  *ssa.Function
	lemmaM     []*Term
	fn         *ssa.Function
	ct         *contractB
	startAlloc int
	frameAlloc int
	initHeap   map[string]*Term

	obls     []*Obl
	dry      int
	stack    []*State
	parked   []parkedState
	rpoMemo  map[*ssa.Function]map[*ssa.BasicBlock]int
	deadline time.Time
	paths    int
	nfailed  int
	timeout  time.Duration
	fuel     int
	reveal   map[string]bool
	debug    bool
	notes    []string
	used     map[string]bool // contracts and models relied on
	inlined  map[string]bool
}

// Obl is one proof obligation.
type Obl struct {
	Fn     string  `json:"function"`
	Name   string  `json:"obligation"`
	Pos    string  `json:"at"`
	Status string  `json:"status"` // proved, failed
	By     string  `json:"by"`
	Secs   float64 `json:"secs"`
	Detail string  `json:"detail,omitempty"`
}

func newExec(p *Program, sol *Solver) *Exec {
	return &Exec{
		c: newCtx(), p: p, sol: sol,
		specCells: map[int]Val{}, globals: map[*ssa.Global]Val{}, bases: map[string]*Term{},
		allocType: map[int]int{}, allocT: map[int]types.Type{}, boxed: map[int]*Term{}, refTypes: map[int]types.Type{}, pureMemo: map[*ssa.Function]bool{},
		readMemo: map[*ssa.Function][]string{},
		timeout:  10 * time.Second, used: map[string]bool{}, inlined: map[string]bool{},
		initHeap: map[string]*Term{},
	}
}

func sortStrings(s []string) { sort.Strings(s) }

func (x *Exec) newState() *State {
	st := &State{pcSet: map[int]bool{}, cells: map[int]Val{}, heap: map[string]*Term{}, ghost: map[string]Val{}, pub: map[int]*Term{}}
	for k, v := range x.initHeap {
		st.heap[k] = v
	}
	return st
}

func (x *Exec) pos(in ssa.Instruction) string {
	if in == nil {
		return ""
	}
	p := in.Pos()
	if !p.IsValid() {
		if v := in.Parent(); v != nil {
			// nearest instruction with a position
			for _, i := range in.Block().Instrs {
				if i.Pos().IsValid() {
					p = i.Pos()
				}
			}
		}
	}
	if !p.IsValid() {
		return in.Parent().Name()
	}
	q := x.p.fset.Position(p)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(q.Filename, x.p.repo+"/"), q.Line)
}

// ---- solver

func (x *Exec) prove(st *State, goal *Term, timeout time.Duration) (bool, string) {
	if goal.isTrue() || st.dead {
		return true, "simplifier"
	}
	if st.pcSet[goal.id] {
		return true, "simplifier"
	}
	as := append(append([]*Term{}, st.pc...), x.c.Not(goal))
	var scripts []string
	fuels := []int{-2, 1, 2, 4}
	if x.fuel > 0 {
		fuels = []int{-x.fuel, x.fuel, 2, 4}
	}
	for _, fuel := range fuels {
		s := x.c.script(as, fuel)
		if n := len(scripts); n > 0 && scripts[n-1] == s {
			continue
		}
		scripts = append(scripts, s)
	}
	// a little of each first
	final := map[int]bool{}
	for _, part := range []time.Duration{20, 5, 1} {
		for i, s := range scripts {
			if final[i] || part == 1 && i < len(scripts)-2 {
				continue
			}
			switch x.sol.run(s, timeout/part) {
			case "unsat":
				return true, "z3"
			case "saturated", "sat":
				final[i] = true
			}
		}
	}
	if d := os.Getenv("GOCV_DUMP"); d != "" {
		for i, s := range scripts {
			os.WriteFile(fmt.Sprintf("%s/%s-%d-%d.smt2", d, shortKey(x.name()), x.nfailed, i), []byte(s+"(check-sat)\n"), 0o644)
		}
	}
	return false, ""
}

func (x *Exec) infeasible(st *State, t *Term) bool {
	if t.isFalse() || st.dead || st.pcSet[x.c.Not(t).id] {
		return true
	}
	if t.isTrue() || st.pcSet[t.id] {
		return false
	}
	as := append(append([]*Term{}, st.pc...), t)
	if x.fuel > 0 && x.sol.run(x.c.script(as, -x.fuel), 800*time.Millisecond) == "unsat" {
		return true
	}
	return x.sol.run(x.c.script(as, 1), 400*time.Millisecond) == "unsat"
}

func (x *Exec) provedQuick(st *State, t *Term) bool {
	if t.isTrue() || st.pcSet[t.id] {
		return true
	}
	if t.isFalse() || t.op != "not" {
		return false
	}
	return x.infeasible(st, x.c.Not(t))
}

// oblige proves a goal on a path, records the result and assumes the goal.
func (x *Exec) oblige(st *State, name string, goal *Term, in ssa.Instruction) {
	if goal.op == "and" {
		for _, g := range goal.args {
			x.oblige(st, name, g, in)
		}
		return
	}
	if x.dry == 0 && !x.initing {
		t0 := time.Now()
		ok, by := x.prove(st, goal, x.timeout)
		o := &Obl{Fn: shortKey(x.name()), Name: name, Pos: x.pos(in), Status: "proved", By: by, Secs: time.Since(t0).Seconds()}
		if !ok {
			o.Status = "failed"
			o.Detail = "goal " + showN(goal, 9) + "\npath " + strings.Join(st.path, " ")
			if os.Getenv("GOCV_PC") != "" {
				var b strings.Builder
				for _, t := range st.pc {
					b.WriteString("\n   " + showN(t, 8))
				}
				o.Detail += b.String()
			}
		}
		x.obls = append(x.obls, o)
		if !ok {
			x.nfailed++
			if x.nfailed >= 4 {
				panic(unsupported("too many failures"))
			}
		}
	}
	x.assume(st, goal)
}

func (x *Exec) name() string {
	if x.fn == nil {
		return ""
	}
	return key(x.fn)
}

func (x *Exec) failed(name string, in ssa.Instruction, detail string) {
	if x.dry == 0 {
		x.obls = append(x.obls, &Obl{Fn: shortKey(x.name()), Name: name, Pos: x.pos(in), Status: "failed", Detail: detail})
	}
}

// ---- exploring

func (x *Exec) mach(st *State) *mach {
	m := &mach{x: x, st: st}
	m.check = func(kind string, cond *Term, in ssa.Instruction) { x.oblige(st, kind, cond, in) }
	return m
}

func (x *Exec) specMach(st *State) *mach {
	return &mach{x: x, st: st, spec: true, known: map[int]int64{}, check: func(string, *Term, ssa.Instruction) {}}
}

type timeoutErr struct{}

// runAll explores from the given states until every path has ended.
func (x *Exec) runAll(sts ...*State) {
	old, oldParked := x.stack, x.parked
	x.stack = append([]*State{}, sts...)
	x.parked = nil
	for len(x.stack) > 0 || len(x.parked) > 0 {
		if len(x.stack) == 0 {
			x.joinParked()
			continue
		}
		st := x.stack[len(x.stack)-1]
		x.stack = x.stack[:len(x.stack)-1]
		x.runPath(st)
	}
	x.stack, x.parked = old, oldParked
}

func (x *Exec) push(st *State) { x.stack = append(x.stack, st) }

func (x *Exec) runPath(st *State) {
	for !st.dead && len(st.frames) > 0 {
		if !x.deadline.IsZero() && time.Now().After(x.deadline) {
			panic(timeoutErr{})
		}
		if !x.step(st) {
			break
		}
	}
	x.paths++
}

// settle replaces what depends on a condition that now holds.
func settle(f *Frame, g, ng *Term) {
	for k, v := range f.env {
		switch v := v.(type) {
		case *Term:
			if v.op == "ite" && v.args[0] == g {
				f.env[k] = v.args[1]
			} else if v.op == "ite" && v.args[0] == ng {
				f.env[k] = v.args[2]
			}
		case TupleV:
			for i, e := range v {
				if e, ok := e.(*Term); ok && e.op == "ite" && (e.args[0] == g || e.args[0] == ng) {
					n := append(TupleV{}, v...)
					n[i] = e.args[1]
					if e.args[0] == ng {
						n[i] = e.args[2]
					}
					f.env[k], v = n, n
				}
			}
		}
	}
}

// step runs one instruction; false when the path has ended.
func (x *Exec) step(st *State) bool {
	f := st.top()
	in := f.block.Instrs[f.pc]
	m := x.mach(st)
	get := func(v ssa.Value) Val { return m.val(f.env, f.fn, f.binds, v) }
	switch in := in.(type) {
	case *ssa.Phi, *ssa.DebugRef:
		f.pc++
		return true
	case *ssa.Jump:
		return x.jump(st, f.block.Succs[0])
	case *ssa.If:
		g := get(in.Cond).(*Term)
		t, e := f.block.Succs[0], f.block.Succs[1]
		if g.isTrue() || st.pcSet[g.id] {
			return x.jump(st, t)
		}
		if g.isFalse() || st.pcSet[x.c.Not(g).id] {
			return x.jump(st, e)
		}
		ng := x.c.Not(g)
		if x.infeasible(st, g) {
			x.assume(st, ng)
			settle(st.top(), ng, g)
			return x.jump(st, e)
		}
		if x.infeasible(st, ng) {
			x.assume(st, g)
			settle(st.top(), g, ng)
			return x.jump(st, t)
		}
		o := st.clone()
		line := x.pos(in)
		o.path = append(o.path, line+":F")
		st.path = append(st.path, line+":T")
		x.assume(o, ng)
		x.assume(st, g)
		settle(o.top(), ng, g)
		settle(st.top(), g, ng)
		if !o.dead && x.jump(o, e) {
			x.push(o)
		}
		if st.dead {
			return false
		}
		return x.jump(st, t)
	case *ssa.Return:
		var v Val
		switch len(in.Results) {
		case 0:
		case 1:
			v = get(in.Results[0])
		default:
			var t TupleV
			for _, r := range in.Results {
				t = append(t, get(r))
			}
			v = t
		}
		return x.ret(st, v)
	case *ssa.Panic:
		st.panicking = get(in.X)
		f.unwinding = true
		return x.unwind(st)
	case *ssa.RunDefers:
		if len(f.defers) == 0 {
			f.pc++
			return true
		}
		return x.runDefer(st)
	case *ssa.Defer:
		d := deferred{call: &in.Call, pos: in}
		if in.Call.IsInvoke() {
			panic(unsupported("defer of an interface method"))
		}
		d.fn = get(in.Call.Value)
		for _, a := range in.Call.Args {
			d.args = append(d.args, get(a))
		}
		f.defers = append(f.defers, d)
		f.pc++
		return true
	case *ssa.Call:
		f.pc++
		return x.call(st, f, in, &in.Call)
	case *ssa.Go:
		panic(unsupported("go statement"))
	}
	v, ok := m.eval(f.env, f.fn, f.binds, in)
	if !ok {
		panic(unsupported(fmt.Sprintf("%T %s in %s", in, in, f.fn)))
	}
	if rv, isV := in.(ssa.Value); isV {
		f.env[rv] = v
	}
	f.pc++
	return !st.dead
}

// enter pushes a frame.
func (x *Exec) enter(st *State, fn *ssa.Function, args, binds []Val, dest ssa.Value) {
	if len(fn.Blocks) == 0 {
		panic(unsupported("no body: " + fn.String()))
	}
	if len(st.frames) > 60 {
		panic(unsupported("call depth"))
	}
	f := &Frame{fn: fn, env: map[ssa.Value]Val{}, block: fn.Blocks[0], binds: binds, dest: dest}
	for i, p := range fn.Params {
		f.env[p] = args[i]
	}
	if cfn := x.p.contracts[key(fn)]; cfn != nil && fn.Parent() == nil {
		f.ct = x.evalContract(st, cfn, args).resolve(x, st)
	} else if len(st.frames) > 0 {
		// the invariants that are known may also be those of a helper's loops
		f.ct = st.top().ct
	}
	st.frames = append(st.frames, f)
}

func (x *Exec) inDryLoop(f *Frame) bool {
	for _, l := range f.loops {
		if l.run != nil && l.run.dry {
			return true
		}
	}
	return false
}

func (x *Exec) ret(st *State, v Val) bool {
	f := st.top()
	if x.inDryLoop(f) {
		return false
	}
	st.frames = st.frames[:len(st.frames)-1]
	if f.onReturn != nil {
		f.onReturn(st, v)
		return false
	}
	if len(st.frames) == 0 {
		return false
	}
	if f.isDefer {
		if st.top().unwinding {
			return x.unwind(st)
		}
		return true
	}
	if f.dest != nil {
		st.top().env[f.dest] = v
	}
	return true
}

// unwind goes on with a panic: the next deferred call, or the caller.
func (x *Exec) unwind(st *State) bool {
	for {
		f := st.top()
		if len(f.defers) > 0 {
			return x.runDefer(st)
		}
		if st.panicking == nil {
			// recovered
			f.unwinding = false
			if f.fn.Recover != nil {
				f.prev, f.block, f.pc = nil, f.fn.Recover, 0
				return true
			}
			rs := f.fn.Signature.Results()
			switch rs.Len() {
			case 0:
				return x.ret(st, nil)
			case 1:
				return x.ret(st, x.zero(rs.At(0).Type()))
			}
			var t TupleV
			for i := 0; i < rs.Len(); i++ {
				t = append(t, x.zero(rs.At(i).Type()))
			}
			return x.ret(st, t)
		}
		if x.inDryLoop(f) {
			return false
		}
		st.frames = st.frames[:len(st.frames)-1]
		if f.onReturn != nil {
			x.panicked(st)
			return false
		}
		if len(st.frames) == 0 {
			return false
		}
		st.top().unwinding = true
	}
}

func (x *Exec) runDefer(st *State) bool {
	f := st.top()
	d := f.defers[len(f.defers)-1]
	f.defers = f.defers[:len(f.defers)-1]
	fv, ok := d.fn.(*FnV)
	if !ok {
		panic(unsupported("deferred call of unknown function"))
	}
	if fv.bi != nil {
		panic(unsupported("deferred builtin"))
	}
	m := x.mach(st)
	if _, ok := m.lib(fv.fn, d.args, d.call, nil); ok {
		if f.unwinding {
			return x.unwind(st)
		}
		return true
	}
	if cfn := x.p.contracts[key(fv.fn)]; cfn != nil && fv.fn.Parent() == nil {
		if b := x.evalContract(st, cfn, d.args).resolve(x, st); !b.inline {
			was := f.unwinding
			if !x.callContract(st, f, d.pos, nil, fv.fn, b, d.args) {
				return false
			}
			if was {
				return x.unwind(st)
			}
			return true
		}
	}
	x.enter(st, fv.fn, d.args, fv.binds, nil)
	st.top().isDefer = true
	return true
}

func (x *Exec) isLexerError(v Val) *Term {
	t, ok := v.(*Term)
	if !ok {
		return x.c.False()
	}
	return x.c.Eq(x.tag(t), x.c.Int(int64(typeID("*github.com/stephen/cssc/internal/lexer.Error"))))
}

// panicked: a panic leaves the function being verified.
func (x *Exec) panicked(st *State) {
	if x.ct == nil || !x.ct.mayPanic {
		x.oblige(st, "does not panic", x.c.False(), nil)
		return
	}
	x.oblige(st, "panics only with *lexer.Error", x.isLexerError(st.panicking), nil)
	x.checkFrame(st)
	for _, e := range x.ct.ensuresPanic {
		m := x.specMach(st)
		g := m.callFn(e.fn.fn, nil, e.fn.binds, x.c.True()).(*Term)
		x.oblige(st, e.name, g, nil)
	}
}

// ---- calls

func (x *Exec) call(st *State, f *Frame, in *ssa.Call, cc *ssa.CallCommon) bool {
	m := x.mach(st)
	var args []Val
	if cc.IsInvoke() {
		args = append(args, m.val(f.env, f.fn, f.binds, cc.Value))
	}
	for _, a := range cc.Args {
		args = append(args, m.val(f.env, f.fn, f.binds, a))
	}
	set := func(v Val) bool {
		f.env[in] = v
		return !st.dead
	}
	if cc.IsInvoke() {
		if v, ok := m.invoke(cc, args, in); ok {
			return set(v)
		}
		return x.invokeContract(st, f, in, cc, args)
	}
	fv, ok := m.val(f.env, f.fn, f.binds, cc.Value).(*FnV)
	if !ok {
		panic(unsupported("call of unknown function value in " + f.fn.String()))
	}
	if fv.bi != nil {
		if fv.bi.Name() == "recover" {
			v := st.panicking
			st.panicking = nil
			if v == nil {
				v = x.c.Int(0)
			}
			return set(v)
		}
		v, ok := m.builtin(fv.bi, args, cc, in)
		if !ok {
			panic(unsupported("builtin " + fv.bi.Name()))
		}
		return set(v)
	}
	fn := fv.fn
	if fn.Name() == "Split" && fn.Pkg != nil && fn.Pkg.Pkg.Path() == specPath {
		t, lo, hi := args[0].(*Term), args[1].(*Term).i64(), args[2].(*Term).i64()
		x.oblige(st, "cases are complete", x.c.And(x.c.Le(x.c.Int(lo), t), x.c.Lt(t, x.c.Int(hi))), in)
		for k := lo; k < hi; k++ {
			o := st.clone()
			x.assume(o, x.c.Eq(t, x.c.Int(k)))
			if !o.dead {
				for _, fr := range o.frames {
					for v, e := range fr.env {
						if e == Val(t) {
							fr.env[v] = x.c.Int(k)
						}
					}
				}
				x.push(o)
			}
		}
		return false
	}
	if v, ok := m.lib(fn, args, cc, in); ok {
		return set(v)
	}
	if cfn := x.p.contracts[key(fn)]; cfn != nil && fn.Parent() == nil {
		if b := x.evalContract(st, cfn, args).resolve(x, st); !b.inline {
			return x.callContract(st, f, in, in, fn, b, args)
		}
	}
	if x.isSpecFn(fn) && (x.p.recursive[fn] || x.p.opaque(fn)) {
		return set(x.specMach(st).callRec(fn, args, x.c.True()))
	}
	if !x.inRepo(fn) {
		panic(unsupported("external function without a model: " + fn.String()))
	}
	x.inlined[shortKey(key(fn))] = true
	if x.pure(fn) {
		return set(m.callFn(fn, args, fv.binds, x.c.True()))
	}
	for _, g := range st.frames {
		if g.fn == fn {
			panic(unsupported("recursive call without a contract: " + fn.String()))
		}
	}
	x.enter(st, fn, args, fv.binds, in)
	return true
}

// hint uses the lemmas of a hint. A parameter of a hint stands for every value that the function
// has of its type.
func (x *Exec) hint(st *State, h *FnV, args []Val) {
	if len(args) == len(h.fn.Params) {
		x.specMach(st).callFn(h.fn, args, h.binds, x.c.True())
		return
	}
	t := h.fn.Params[len(args)].Type()
	f := st.top()
	var vs []ssa.Value
	for v := range f.env {
		if types.Identical(v.Type(), t) {
			if _, ok := v.(*ssa.Alloc); !ok {
				vs = append(vs, v)
			}
		}
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i].Name() < vs[j].Name() })
	for _, v := range vs {
		if a, ok := f.env[v].(*Term); ok {
			x.hint(st, h, append(args[:len(args):len(args)], a))
		}
	}
}

// callContract replaces a call by the contract of the callee.
func (x *Exec) callContract(st *State, f *Frame, in ssa.Instruction, dest ssa.Value, fn *ssa.Function, b *contractB, args []Val) bool {
	name := shortKey(key(fn))
	x.used[name] = true
	x.publishAll(st, args, in)
	if x.ct != nil {
		for _, h := range x.ct.hints[fn.Name()] {
			x.hint(st, h, nil)
		}
	}
	for _, r := range b.requires {
		x.oblige(st, "precondition of "+name, r, in)
		if st.dead {
			return false
		}
	}
	if x.p.sameSCC(fn, x.fn) {
		x.termination(st, b, in, name)
	}
	return x.applyContract(st, f, dest, fn.Signature.Results(), b, name)
}

func (x *Exec) applyContract(st *State, f *Frame, in ssa.Value, rs *types.Tuple, b *contractB, name string) bool {
	x.c.alloc += allocBump
	if b.mayPanic {
		ps := st.clone()
		x.havocLocs(ps, b.modifies)
		e := x.allocErr(ps)
		for _, q := range b.ensuresPanic {
			m := x.specMach(ps)
			x.assume(ps, m.callFn(q.fn.fn, nil, q.fn.binds, x.c.True()).(*Term))
		}
		ps.panicking = e
		ps.path = append(ps.path, name+":panics")
		ps.top().unwinding = true
		if !ps.dead && x.unwind(ps) {
			x.push(ps)
		}
	}
	x.havocLocs(st, b.modifies)
	var res []Val
	for i := 0; i < rs.Len(); i++ {
		if b.fresh && i == 0 {
			t := rs.At(0).Type().(*types.Pointer).Elem()
			r := x.allocObj(t)
			x.storeObj(st, r, t, nil, x.fresh("new", t))
			if x.hasInv(t) {
				st.pub[int(-r.i64())] = x.c.True()
				x.assume(st, x.invTerm(st, r, t))
			}
			res = append(res, r)
			continue
		}
		v := x.fresh("ret."+name, rs.At(i).Type())
		if t, ok := v.(*Term); ok && (t.sort == SSeq || isRefType(rs.At(i).Type())) {
			if x.unpub == nil {
				x.unpub = map[int]map[int]bool{}
			}
			x.unpub[t.id] = x.unpublished(st)
		}
		res = append(res, v)
	}
	for _, e := range b.ensures {
		m := x.specMach(st)
		x.assume(st, m.callFn(e.fn.fn, res[:len(e.fn.fn.Params)], e.fn.binds, x.c.True()).(*Term))
	}
	var v Val
	switch len(res) {
	case 0:
	case 1:
		v = res[0]
	default:
		v = TupleV(res)
	}
	if in != nil {
		f.env[in] = v
	}
	return !st.dead
}

func (x *Exec) allocErr(st *State) Val {
	r := x.c.Alloc()
	x.allocType[int(-r.i64())] = typeID("*github.com/stephen/cssc/internal/lexer.Error")
	if pk := x.p.pkgs["github.com/stephen/cssc/internal/lexer"]; pk != nil {
		t := pk.Type("Error").Type()
		x.storeObj(st, r, t, nil, x.fresh("err", t))
	}
	return r
}

// termination obliges that the measure at a recursive call is less than at entry.
func (x *Exec) termination(st *State, b *contractB, in ssa.Instruction, name string) {
	c := x.c
	if x.ct == nil || len(x.ct.decreases) == 0 || len(b.decreases) == 0 {
		x.failed("recursion terminates: no measure for call of "+name, in, "")
		return
	}
	x.oblige(st, "recursion decreases at call of "+name, c.lexLess(b.decreases, x.ct.decreases), in)
}

// lexLess: a < b lexicographically, with b's components non-negative.
func (c *Ctx) lexLess(a, b []*Term) *Term {
	out := c.False()
	eq := c.True()
	for i := range a {
		if i >= len(b) {
			break
		}
		out = c.Or(out, c.And(eq, c.Le(c.Int(0), a[i]), c.Lt(a[i], b[i])))
		eq = c.And(eq, c.Eq(a[i], b[i]))
	}
	if len(b) > len(a) {
		return c.Or(out, eq) // shorter is smaller when the common part is equal
	}
	return out
}

// havocLocs forgets the values of locations.
func (x *Exec) havocLocs(st *State, locs []Val) {
	for _, l := range locs {
		switch l := l.(type) {
		case *AddrV:
			if l.ref != nil {
				fs, _ := splitPath(l.path)
				for _, lf := range subLeaves(l.st, fs) {
					x.havocLeaf(st, l.ref, lf)
				}
				continue
			}
			if l.global != nil {
				continue
			}
			old, ok := st.cells[l.cell]
			if !ok {
				panic(unsupported("Modifies of unknown cell"))
			}
			st.cells[l.cell] = x.freshLike(old)
		case *Term:
			t := x.refTypes[l.id]
			if t == nil {
				panic(unsupported("Modifies of " + showVal(l)))
			}
			if mt, ok := t.Underlying().(*types.Map); ok {
				x.havocMap(st, l, mt)
				continue
			}
			for _, lf := range cellLeaves(t) {
				x.havocLeaf(st, l, lf)
			}
		case belowField:
			old := x.arrByKey(st, l.key)
			a := x.havocBelow(l.key, old, l.bound)
			for _, r := range x.ownKept(st, old) {
				a = x.c.Store(a, x.c.Sel(old, false, r), r)
			}
			st.heap[l.key] = a
		case wholeField:
			old := x.arrByKey(st, string(l))
			a := x.newBase(string(l), leafOf(old))
			for _, r := range x.ownKept(st, old) {
				a = x.c.Store(a, x.c.Sel(old, false, r), r)
			}
			st.heap[string(l)] = a
		}
	}
}

type wholeField string

// belowField is a field of all objects of a rank below a bound.
type belowField struct {
	key   string
	bound *Term
}

// havocBelow changes a field of the objects of a rank below a bound.
func (x *Exec) havocBelow(key string, a, bound *Term) *Term {
	c := x.c
	c.fresh++
	t := c.mk("below", a.sort, fmt.Sprintf("f!%s!h%d", clean(key), c.fresh), nil, a, bound)
	t.stamp = c.alloc + 1
	return t
}

// ownKept is the objects of our own with a known value in an array that no other function can
// refer to.
func (x *Exec) ownKept(st *State, a *Term) []*Term {
	var out []*Term
	seen := map[int]bool{}
	var walk func(a *Term)
	walk = func(a *Term) {
		for {
			switch a.op {
			case "store":
				if len(a.args) == 3 {
					if r := a.args[2]; !seen[r.id] && ownAlloc(r) && x.allocT[int(-r.i64())] != nil && st.pub[int(-r.i64())] == nil {
						seen[r.id] = true
						out = append(out, r)
					}
				}
			case "ite":
				walk(a.args[1])
				a = a.args[2]
				continue
			}
			if len(a.args) == 0 {
				return
			}
			a = a.args[0]
		}
	}
	walk(a)
	sort.Slice(out, func(i, j int) bool { return out[i].i64() > out[j].i64() })
	return out
}

func (x *Exec) arrByKey(st *State, key string) *Term {
	if a, ok := st.heap[key]; ok {
		return a
	}
	if a, ok := x.bases[key]; ok {
		return a
	}
	if strings.HasPrefix(key, "ghost:") {
		return x.arr(st, key, SInt)
	}
	l, ok := x.p.leafByKey(key)
	if !ok {
		panic(unsupported("unknown field " + key))
	}
	return x.arr(st, key, l.sort)
}

func (x *Exec) havocLeaf(st *State, ref *Term, l leaf) {
	v := x.fresh(l.key, l.typ).(*Term)
	st.heap[l.key] = x.c.Store(x.arr(st, l.key, l.sort), v, ref)
}

func (x *Exec) havocMap(st *State, ref *Term, mt *types.Map) {
	vk, hk := mapKeys(mt)
	x.c.fresh++
	st.heap[hk] = x.c.mk("mhav", x.arr(st, hk, SBool).sort, fmt.Sprintf("%s!h%d", clean(hk), x.c.fresh), nil, x.arr(st, hk, SBool), ref)
	for _, l := range leavesAt(mt.Elem(), vk, nil) {
		x.c.fresh++
		st.heap[l.key] = x.c.mk("mhav", x.arr(st, l.key, l.sort).sort, fmt.Sprintf("%s!h%d", clean(l.key), x.c.fresh), nil, x.arr(st, l.key, l.sort), ref)
	}
}

func (x *Exec) newBase(key string, s Sort) *Term {
	x.c.fresh++
	b := x.c.Base(fmt.Sprintf("f!%s!h%d", clean(key), x.c.fresh), s)
	b.stamp = x.c.alloc + 1
	return b
}

func (x *Exec) freshLike(v Val) Val {
	switch v := v.(type) {
	case *Term:
		t := x.c.Fresh("cell", v.sort)
		if v.stamp > 0 || ownAlloc(v) {
			x.c.markRef(t, x.c.alloc+1)
		} else if v.sort == SInt {
			t.facts = append(t.facts, x.rangeOf(v, t)...)
		}
		return t
	case *StructV:
		n := &StructV{t: v.t}
		s, _ := isStruct(v.t)
		for i := range v.f {
			n.f = append(n.f, x.fresh("cell", s.Field(i).Type()))
		}
		return n
	}
	panic(unsupported(fmt.Sprintf("variable of kind %T changes in a loop", v)))
}

func (x *Exec) rangeOf(v, t *Term) []*Term { return nil }

// checkFrame obliges that only declared locations have changed.
func (x *Exec) checkFrame(st *State) {
	if x.ct == nil || x.ct.modifiesAny {
		return
	}
	var keys []string
	for k := range st.heap {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		base := x.initHeap[k]
		if base == nil {
			base = x.bases[k]
		}
		if st.heap[k] == base || strings.HasPrefix(k, "box:") {
			continue
		}
		if x.ct.modifiesKey(k) {
			continue
		}
		x.frameOf(st, k, st.heap[k], base)
	}
}

// frameOf obliges that an array has changed only where it may.
func (x *Exec) frameOf(st *State, k string, now, base *Term) {
	x.frameRest(st, k, now, now, base, map[int]bool{})
}

func (x *Exec) frameRest(st *State, k string, now, rest, base *Term, done map[int]bool) {
	seen := map[int]bool{}
	for id := range done {
		seen[id] = true
	}
	name := "modifies only what it may: " + k
	for a := rest; a != base; a = a.args[0] {
		if a.op == "aite" {
			for i, g := range []*Term{a.args[0], x.c.Not(a.args[0])} {
				b := st.clone()
				x.assume(b, g)
				x.frameRest(b, k, now, a.args[1+i], base, seen)
			}
			return
		}
		switch a.op {
		case "store":
			r := a.args[2]
			if seen[r.id] || x.iteNew(r) {
				continue
			}
			seen[r.id] = true
			v, w := x.c.Sel(now, false, a.args[2:]...), x.c.Sel(base, false, a.args[2:]...)
			if v == w {
				continue
			}
			goal := x.ct.allowed(x, k, r)
			if !goal.isTrue() && x.dry == 0 {
				// the value may be as before
				goal = x.c.Or(goal, x.eqAny(v, w))
			}
			x.oblige(st, name, goal, nil)
		case "mhav", "mclear":
			// there is nothing in a nil map
			r := a.args[1]
			if noneOr(r, x.frameAlloc) {
				continue
			}
			x.oblige(st, name, x.ct.allowed(x, k, r), nil)
		case "below":
			most := x.ct.below(k)
			if most == nil {
				x.failed(name, nil, "objects of a lower rank")
				return
			}
			x.oblige(st, name, x.c.Le(a.args[1], most), nil)
		case "newer":
			if int(a.n.Int64()) < x.startAlloc {
				x.failed(name, nil, "")
			}
		default:
			x.failed(name, nil, "unknown object")
			return
		}
		if len(a.args) == 0 {
			break
		}
	}
}

// iteNew holds of objects that the function allocated.
func (x *Exec) iteNew(r *Term) bool {
	return newRef(r, x.frameAlloc)
}

func noneOr(r *Term, since int) bool {
	if r.op == "ite" {
		return noneOr(r.args[1], since) && noneOr(r.args[2], since)
	}
	return r.isInt() && r.i64() == 0 || newRef(r, since)
}

// newRef holds of objects allocated after a point.
func newRef(r *Term, since int) bool {
	if r.op == "ite" {
		return newRef(r.args[1], since) && newRef(r.args[2], since)
	}
	return ownAlloc(r) && int(-r.i64()) > since
}

func (x *Exec) eqAny(a, b *Term) *Term { return x.c.Eq(a, b) }
