package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type loopInfo struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
}

var loopCache = map[*ssa.Function][]*loopInfo{}

func init() { _ = token.ADD }

// loopsOf finds the natural loops of a function.
func loopsOf(fn *ssa.Function) []*loopInfo {
	loopMu.Lock()
	defer loopMu.Unlock()
	if l, ok := loopCache[fn]; ok {
		return l
	}
	byH := map[*ssa.BasicBlock]*loopInfo{}
	var out []*loopInfo
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if !h.Dominates(b) {
				continue
			}
			l := byH[h]
			if l == nil {
				l = &loopInfo{header: h, body: map[*ssa.BasicBlock]bool{h: true}}
				byH[h] = l
				out = append(out, l)
			}
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				k := work[len(work)-1]
				work = work[:len(work)-1]
				if l.body[k] {
					continue
				}
				l.body[k] = true
				work = append(work, k.Preds...)
			}
		}
	}
	loopCache[fn] = out
	return out
}

func loopAt(fn *ssa.Function, b *ssa.BasicBlock) *loopInfo {
	for _, l := range loopsOf(fn) {
		if l.header == b {
			return l
		}
	}
	return nil
}

// cand is a candidate invariant (or measure) with its variables bound.
type cand struct {
	name string
	eval func(st *State, f *Frame) *Term
	tmpl int // template it comes from, or -1
	vars string
}

// loopAttempt is a loop being verified.
type loopAttempt struct {
	l       *loopInfo
	dry     bool
	mark    int // declarations before the loop head
	alloc   int // allocations before the loop head
	cells   map[int]bool
	refs    map[string]map[int]*Term // field key -> objects
	whole   map[string]bool
	newer   map[string]bool
	maps    map[string]map[int]*Term
	phis    []*ssa.Phi
	cands   []*cand
	meas    []*cand
	measV   []*Term // at the head
	head    *State
	backs   []*State
	grew    bool
	entryPh map[*ssa.Phi]Val
	pubs    map[int]bool // what the loop publishes
	below   map[string]bool
}

func (a *loopAttempt) setBelow(k string) {
	if a.below == nil {
		a.below = map[string]bool{}
	}
	a.below[k] = true
}

// belowOf is the bound of the ranks of the objects that a loop of the function may change.
func (x *Exec) belowOf(a *loopAttempt, k string) *Term { return x.ct.below(k) }

// jump goes to a block.
func (x *Exec) jump(st *State, b *ssa.BasicBlock) bool {
	f := st.top()
	m := x.mach(st)
	phis := map[ssa.Value]Val{}
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		for k, p := range b.Preds {
			if p == f.block {
				phis[ph] = m.val(f.env, f.fn, f.binds, ph.Edges[k])
				break
			}
		}
	}
	for k, v := range phis {
		f.env[k] = v
	}
	f.prev, f.block, f.pc = f.block, b, 0
	// leaving loops
	for len(f.loops) > 0 {
		l := f.loops[len(f.loops)-1]
		if l.info.body[b] {
			break
		}
		if l.run != nil && l.run.dry {
			return false
		}
		f.loops = f.loops[:len(f.loops)-1]
	}
	if len(f.loops) > 0 && f.loops[len(f.loops)-1].info.header == b {
		l := f.loops[len(f.loops)-1]
		if l.run != nil {
			x.backEdge(st, l.run)
			return false
		}
		l.count++
		return x.unrolled(st, l)
	}
	if li := loopAt(f.fn, b); li != nil {
		return x.enterLoop(st, li)
	}
	return true
}

// headerDecided tells whether the exit test at the loop head is constant here.
func (x *Exec) headerDecided(st *State, li *loopInfo) bool {
	s := st.clone()
	f := s.top()
	m := &mach{x: x, st: s, check: func(string, *Term, ssa.Instruction) {}}
	ok := false
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, is := r.(unsupportedErr); !is {
					panic(r)
				}
			}
		}()
		for _, in := range li.header.Instrs {
			switch in := in.(type) {
			case *ssa.Phi, *ssa.DebugRef:
				continue
			case *ssa.If:
				g := m.val(f.env, f.fn, f.binds, in.Cond).(*Term)
				ok = g.isTrue() || g.isFalse()
				return
			case *ssa.Call:
				if b, is := in.Call.Value.(*ssa.Builtin); is && b.Name() == "len" {
					v, _ := m.builtin(b, []Val{m.val(f.env, f.fn, f.binds, in.Call.Args[0])}, &in.Call, in)
					f.env[in] = v
					continue
				}
				return
			case *ssa.BinOp, *ssa.UnOp, *ssa.FieldAddr, *ssa.Field, *ssa.Extract:
				v, k := m.eval(f.env, f.fn, f.binds, in)
				if !k {
					return
				}
				f.env[in.(ssa.Value)] = v
			default:
				return
			}
		}
	}()
	return ok
}

func (x *Exec) unrolled(st *State, l *loopRun) bool {
	f := st.top()
	n := 0
	if f.ct != nil {
		n = f.ct.unroll
	}
	if n > 0 {
		if l.count > n {
			x.oblige(st, fmt.Sprintf("loop ends within %d iterations", n), x.c.False(), l.info.header.Instrs[0])
			return false
		}
		return true
	}
	// automatic unrolling of a loop over a literal
	if l.count <= 100 && x.headerDecided(st, l.info) {
		return true
	}
	f.loops = f.loops[:len(f.loops)-1]
	return x.attempt(st, l.info)
}

func (x *Exec) enterLoop(st *State, li *loopInfo) bool {
	f := st.top()
	if f.ct != nil && f.ct.unroll > 0 {
		f.loops = append(f.loops, &loopRun{info: li, count: 1})
		return true
	}
	if x.headerDecided(st, li) {
		f.loops = append(f.loops, &loopRun{info: li, count: 1})
		return true
	}
	x.parked = append(x.parked, parkedState{st, li})
	return false
}

// attempt verifies a loop: which variables and fields change, which candidate invariants hold, and
// then the body and what follows.
func (x *Exec) attempt(entry *State, li *loopInfo) bool {
	c := x.c
	f := entry.top()
	a := &loopAttempt{l: li, cells: map[int]bool{}, refs: map[string]map[int]*Term{}, whole: map[string]bool{}, newer: map[string]bool{}, maps: map[string]map[int]*Term{}, entryPh: map[*ssa.Phi]Val{}}
	for _, in := range li.header.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		a.phis = append(a.phis, ph)
		a.entryPh[ph] = f.env[ph]
	}
	x.publishSlots(entry, a)
	c.alloc += allocBump
	a.alloc = c.alloc
	var cands []*cand
	regen := true
	for round := 0; ; round++ {
		if round > 60 {
			panic(unsupported("loop does not stabilise in " + f.fn.String()))
		}
		if regen {
			cands = x.candidates(entry, a)
			regen = false
			// keep those that hold at entry
			cands = x.filter(entry, cands)
		}
		a.cands = cands
		head := x.loopHead(entry, a)
		if x.infeasible(head, c.True()) {
			// the loop cannot be reached
			return false
		}
		a.dry = true
		a.backs = nil
		a.grew = false
		x.dry++
		body := head.clone()
		bf := body.top()
		bf.loops = append(bf.loops, &loopRun{info: li, run: a})
		x.runAll(body)
		x.dry--
		if a.grew {
			regen = true
			continue
		}
		dropped := false
		for _, b := range a.backs {
			k := x.filter(b, cands)
			if len(k) < len(cands) {
				dropped = true
				cands = k
			}
		}
		if dropped {
			continue
		}
		// measures
		meas := x.measures(a)
		for _, b := range a.backs {
			var keep []*cand
			for _, m := range meas {
				m0 := m.eval(head.clone(), head.top())
				bs := b.clone()
				m1 := m.eval(bs, bs.top())
				if m0 == nil || m1 == nil {
					continue
				}
				if ok, _ := x.prove(bs, c.And(c.Le(c.Int(0), m0), c.Lt(m1, m0)), 2*time.Second); ok {
					keep = append(keep, m)
				}
			}
			meas = keep
		}
		a.meas = meas
		break
	}
	if x.debug && x.dry == 0 {
		var s []string
		for _, k := range a.cands {
			s = append(s, k.name+"("+k.vars+")")
		}
		x.notes = append(x.notes, fmt.Sprintf("loop at %s: invariants %s; measures %d", x.pos(li.header.Instrs[len(li.header.Instrs)-1]), strings.Join(s, ", "), len(a.meas)))
	}
	// final round
	head := x.loopHead(entry, a)
	a.dry = false
	if len(a.backs) > 0 && len(a.meas) == 0 {
		x.failed("loop terminates", li.header.Instrs[len(li.header.Instrs)-1], "no measure decreases on every iteration")
	} else if x.dry == 0 && len(a.backs) > 0 {
		x.obls = append(x.obls, &Obl{Fn: shortKey(x.name()), Name: "loop terminates", Pos: x.pos(li.header.Instrs[len(li.header.Instrs)-1]), Status: "proved", By: "z3"})
	}
	if x.dry == 0 {
		for _, k := range a.cands {
			if k.tmpl >= 0 {
				x.obls = append(x.obls, &Obl{Fn: shortKey(x.name()), Name: "invariant " + k.name + "(" + k.vars + ") holds at entry and is preserved", Pos: x.pos(li.header.Instrs[len(li.header.Instrs)-1]), Status: "proved", By: "z3"})
			}
		}
	}
	hf := head.top()
	hf.loops = append(hf.loops, &loopRun{info: li, run: a})
	x.push(head)
	return false
}

// loopHead is an arbitrary state at the head of the loop.
func (x *Exec) loopHead(entry *State, a *loopAttempt) *State {
	c := x.c
	x.publishHeld(entry, a)
	h := entry.clone()
	f := h.top()
	c.Fresh("mark", SInt)
	a.mark = len(c.order)
	for _, ph := range a.phis {
		switch v := f.env[ph].(type) {
		case *Term:
			t := x.fresh("loop."+ph.Comment, ph.Type()).(*Term)
			_ = v
			f.env[ph] = t
		case *StructV:
			f.env[ph] = x.fresh("loop."+ph.Comment, ph.Type())
		case nil:
		default:
			// functions and local addresses: must not change
			f.env[ph] = v
		}
	}
	var ids []int
	for id := range a.cells {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		h.cells[id] = x.freshLike(entry.cells[id])
	}
	var keys []string
	for k := range a.refs {
		keys = append(keys, k)
	}
	for k := range a.whole {
		keys = append(keys, k)
	}
	for k := range a.newer {
		keys = append(keys, k)
	}
	for k := range a.below {
		keys = append(keys, k)
	}
	for k := range a.maps {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	done := map[string]bool{}
	for _, k := range keys {
		if done[k] {
			continue
		}
		done[k] = true
		arr := x.arrByKeyAny(h, k)
		if a.whole[k] {
			h.heap[k] = x.newBase(k, leafOf(arr))
			continue
		}
		if a.newer[k] {
			c.fresh++
			n := c.mk("newer", arr.sort, fmt.Sprintf("f!%s!h%d", clean(k), c.fresh), bigInt(int64(a.allocAt(x)+1)), arr)
			n.stamp = c.alloc + 1
			if x.since == nil {
				x.since = map[string]int{}
			}
			x.since[n.name] = n.stamp
			arr = n
		}
		if a.below[k] {
			old := arr
			arr = x.havocBelow(k, old, x.belowOf(a, k))
			for _, r := range x.ownKept(entry, old) {
				arr = c.Store(arr, c.Sel(old, false, r), r)
			}
		}
		var rs []int
		for id := range a.refs[k] {
			rs = append(rs, id)
		}
		sort.Ints(rs)
		for _, id := range rs {
			r := a.refs[k][id]
			v := c.Fresh(k, leafOf(arr))
			if l, ok := x.p.leafByKey(k); ok {
				x.typed(v, l.typ)
			} else if v.sort == SInt {
				x.c.markRef(v, c.alloc+1)
			}
			arr = c.Store(arr, v, r)
		}
		rs = nil
		for id := range a.maps[k] {
			rs = append(rs, id)
		}
		sort.Ints(rs)
		for _, id := range rs {
			c.fresh++
			arr = c.mk("mhav", arr.sort, fmt.Sprintf("%s!h%d", clean(k), c.fresh), nil, arr, a.maps[k][id])
			arr.stamp = c.alloc + 1
		}
		h.heap[k] = arr
	}
	for _, k := range a.cands {
		x.assume(h, k.eval(h, h.top()))
	}
	a.head = h.clone()
	return h
}

func (a *loopAttempt) allocAt(x *Exec) int {
	if a.alloc == 0 {
		a.alloc = x.c.alloc
	}
	return a.alloc
}

func (x *Exec) arrByKeyAny(st *State, k string) *Term {
	if t, ok := st.heap[k]; ok {
		return t
	}
	if t, ok := x.bases[k]; ok {
		return t
	}
	return x.arrByKey(st, k)
}

// backEdge handles a path that reaches the loop head again.
func (x *Exec) backEdge(st *State, a *loopAttempt) {
	c := x.c
	x.publishSlots(st, a)
	x.publishHeld(st, a)
	if a.dry {
		if x.grow(st, a) {
			a.grew = true
		}
		a.backs = append(a.backs, st)
		return
	}
	for _, k := range sortedBools(a.below) {
		if !a.whole[k] {
			x.frameOf(st, k, st.heap[k], a.head.heap[k])
		}
	}
	// what changed must have been havocked, and everything was proved in the last dry round, on a
	// state that differs only in names; the proof is repeated here for the record of failures
	for _, k := range a.cands {
		if ok, _ := x.prove(st, k.eval(st, st.top()), x.timeout); !ok && x.dry == 0 {
			x.failed("invariant "+k.name+" is preserved", a.l.header.Instrs[len(a.l.header.Instrs)-1], "")
		}
	}
	_ = c
}

// grow adds what a path changed; true if that is new.
func (x *Exec) grow(st *State, a *loopAttempt) bool {
	c := x.c
	grew := false
	h := a.head
	for id, v := range h.cells {
		w, ok := st.cells[id]
		if !ok || a.cells[id] {
			continue
		}
		if !sameVal(v, w) {
			a.cells[id] = true
			grew = true
		}
	}
	for id := range st.pub {
		if h.pub[id] == nil && id <= a.allocAt(x) && !a.pubs[id] {
			if a.pubs == nil {
				a.pubs = map[int]bool{}
			}
			a.pubs[id] = true
			grew = true
		}
	}
	f, hf := st.top(), h.top()
	for _, ph := range a.phis {
		v, w := f.env[ph], hf.env[ph]
		switch v.(type) {
		case *FnV, *AddrV:
			if !sameVal(v, w) {
				panic(unsupported("a function or local address changes in a loop"))
			}
		}
	}
	for k, arr := range st.heap {
		base, ok := h.heap[k]
		if !ok {
			base = x.bases[k]
		}
		if arr == base || a.whole[k] {
			continue
		}
		set := func(m map[string]map[int]*Term, r *Term) {
			if m[k] == nil {
				m[k] = map[int]*Term{}
			}
			if m[k][r.id] == nil {
				m[k][r.id] = r
				grew = true
			}
		}
		isMap := strings.HasPrefix(k, "map:") || strings.HasPrefix(k, "has:")
		// the store over the base may have been overwritten in place: look for the common part
		common := map[*Term]bool{}
		for t := base; ; t = t.args[0] {
			common[t] = true
			if len(t.args) == 0 || t.op == "ite" {
				break
			}
		}
		note := func(t *Term) {
			if b := x.belowOf(a, k); t.op == "below" && b != nil {
				if !a.below[k] {
					a.setBelow(k)
					grew = true
				}
				return
			}
			if t.op != "store" && t.op != "mhav" && t.op != "mclear" && t.op != "newer" {
				a.whole[k] = true
				grew = true
				return
			}
			var r *Term
			if t.op == "store" {
				r = t.args[2]
			} else if t.op != "newer" {
				r = t.args[1]
			}
			switch {
			case r == nil || ownAlloc(r) && int(-r.i64()) > a.allocAt(x):
				if !a.newer[k] {
					a.newer[k] = true
					grew = true
				}
			case c.declIndex(r) >= a.mark && x.belowOf(a, k) != nil:
				if !a.below[k] {
					a.setBelow(k)
					grew = true
				}
			case c.declIndex(r) >= a.mark:
				a.whole[k] = true
				grew = true
			case isMap:
				set(a.maps, r)
			default:
				if c.Sel(arr, false, r) != c.Sel(base, false, r) {
					set(a.refs, r)
				}
			}
		}
		t := arr
		for !common[t] && !a.whole[k] {
			if note(t); len(t.args) > 0 {
				t = t.args[0]
			}
		}
		for u := base; u != t && !a.whole[k]; {
			if note(u); len(u.args) > 0 {
				u = u.args[0]
			}
		}
	}
	return grew
}

func sameVal(a, b Val) bool {
	switch a := a.(type) {
	case *Term:
		bt, ok := b.(*Term)
		return ok && a == bt
	case *StructV:
		bt, ok := b.(*StructV)
		if !ok {
			return false
		}
		for i := range a.f {
			if !sameVal(a.f[i], bt.f[i]) {
				return false
			}
		}
		return true
	case *FnV:
		bt, ok := b.(*FnV)
		if !ok || a.fn != bt.fn || len(a.binds) != len(bt.binds) {
			return false
		}
		for i := range a.binds {
			if !sameVal(a.binds[i], bt.binds[i]) {
				return false
			}
		}
		return true
	case *AddrV:
		bt, ok := b.(*AddrV)
		return ok && a.cell == bt.cell && a.ref == bt.ref && a.seq == bt.seq && a.global == bt.global && len(a.path) == len(bt.path)
	case *IterV:
		bt, ok := b.(*IterV)
		return ok && a.cell == bt.cell
	}
	return a == nil && b == nil
}

// filter keeps the candidates that hold in a state.
func (x *Exec) filter(st *State, cs []*cand) []*cand {
	s0 := st.clone()
	var terms []*Term
	for _, k := range cs {
		terms = append(terms, k.eval(s0, s0.top()))
	}
	all := x.c.And(terms...)
	if ok, _ := x.prove(s0, all, 3*time.Second); ok {
		return cs
	}
	var keep []*cand
	for i, k := range cs {
		if ok, _ := x.prove(s0, terms[i], 4*time.Second); ok {
			keep = append(keep, k)
		} else if k.tmpl >= 0 && x.debug {
			n := "dropped " + k.name + "(" + k.vars + "): " + showN(terms[i], 6)
			if os.Getenv("GOCV_PC") != "" {
				seen := map[int]bool{}
				var walk func(t *Term, d int)
				walk = func(t *Term, d int) {
					if seen[t.id] || d == 0 {
						return
					}
					seen[t.id] = true
					if t.rec != nil && t.rec.subject == nil {
						def := t.rec.unfold()
						n += "\n  DEF " + showN(t, 9) + " := " + showN(def, 14)
						walk(def, d-1)
					}
					for _, a := range t.args {
						walk(a, d)
					}
				}
				walk(terms[i], 4)
				n += "\n  path " + strings.Join(s0.path, " ")
				for _, t := range s0.pc {
					n += "\n     " + showN(t, 9)
				}
			}
			x.notes = append(x.notes, n)
		}
	}
	return keep
}

// slot is a variable that a template can be bound to.
type slot struct {
	name  string
	typ   types.Type
	get   func(st *State, f *Frame) Val
	limit *Term
	outer bool // what the loop reads and does not change
}

func (x *Exec) slots(entry *State, a *loopAttempt) []slot {
	var out []slot
	for _, ph := range a.phis {
		ph := ph
		out = append(out, slot{ph.Comment, ph.Type(), func(st *State, f *Frame) Val { return f.env[ph] }, nil, false})
	}
	f := entry.top()
	// local variables that live in cells
	for _, b := range f.fn.Blocks {
		for _, in := range b.Instrs {
			al, ok := in.(*ssa.Alloc)
			if !ok {
				continue
			}
			if r, ok := f.env[al].(*Term); ok && x.iteNew(r) {
				// a struct
				t := al.Type().(*types.Pointer).Elem()
				if _, ok := t.Underlying().(*types.Struct); ok {
					out = append(out, slot{al.Comment, t, func(st *State, f *Frame) Val { return x.loadObj(st, r, t, nil) }, nil, false})
				}
			}
			av, ok := f.env[al].(*AddrV)
			if !ok || av.ref != nil || av.global != nil || av.seq != nil {
				continue
			}
			cell := av.cell
			if !a.cells[cell] {
				continue
			}
			out = append(out, slot{al.Comment, al.Type().(*types.Pointer).Elem(), func(st *State, f *Frame) Val { return st.cells[cell] }, nil, false})
		}
	}
	for i, fv := range f.fn.FreeVars {
		if av, ok := f.binds[i].(*AddrV); ok && av.ref == nil && av.global == nil && av.seq == nil && a.cells[av.cell] {
			cell := av.cell
			out = append(out, slot{fv.Name(), fv.Type().(*types.Pointer).Elem(), func(st *State, f *Frame) Val { return st.cells[cell] }, nil, false})
		}
	}
	// lists that the loop reads
	read := map[ssa.Value]bool{}
	for _, b := range f.fn.Blocks {
		if !a.l.body[b] {
			continue
		}
		for _, in := range b.Instrs {
			var v ssa.Value
			switch in := in.(type) {
			case *ssa.IndexAddr:
				v = in.X
			case *ssa.Index:
				v = in.X
			case *ssa.Call:
				if b, ok := in.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && len(in.Call.Args) == 2 {
					v = in.Call.Args[1]
				}
			}
			in, ok := v.(ssa.Instruction)
			if !ok || a.l.body[in.Block()] || read[v] {
				continue
			}
			if _, ok := v.Type().Underlying().(*types.Slice); !ok || f.env[v] == nil {
				continue
			}
			read[v] = true
			out = append(out, slot{v.Name(), v.Type(), func(st *State, f *Frame) Val { return f.env[v] }, nil, true})
		}
	}
	// struct locals (builders) and map iterators
	for _, b := range f.fn.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Range:
				if it, ok := f.env[in].(*IterV); ok && it.str != nil {
					cell := it.cell
					out = append(out, slot{"range", types.Typ[types.Int], func(st *State, f *Frame) Val { return st.cells[cell] }, it.str, false})
				}
			}
		}
	}
	return out
}

// candidates instantiates the templates and adds the automatic ones.
func (x *Exec) candidates(entry *State, a *loopAttempt) []*cand {
	c := x.c
	var out []*cand
	ss := x.slots(entry, a)
	f := entry.top()
	if f.ct != nil {
		for ti, t := range f.ct.invariants {
			out = append(out, x.instances(t, ss, ti, "#"+fmt.Sprint(ti+1))...)
		}
	}
	for _, ph := range a.phis {
		ph := ph
		e, ok := a.entryPh[ph].(*Term)
		if !ok {
			continue
		}
		get := func(f *Frame) *Term { return f.env[ph].(*Term) }
		switch {
		case e.sort == SInt && !isRefType(ph.Type()):
			out = append(out, &cand{name: "not below entry", tmpl: -1, vars: ph.Comment, eval: func(st *State, f *Frame) *Term { return c.Le(e, get(f)) }})
			out = append(out, &cand{name: "not above entry", tmpl: -1, vars: ph.Comment, eval: func(st *State, f *Frame) *Term { return c.Le(get(f), e) }})
			if !e.isInt() || e.i64() > 0 {
				out = append(out, &cand{name: "not negative", tmpl: -1, vars: ph.Comment, eval: func(st *State, f *Frame) *Term { return c.Le(c.Int(0), get(f)) }})
			}
		case e.sort == SInt:
			out = append(out, &cand{name: "not nil", tmpl: -1, vars: ph.Comment, eval: func(st *State, f *Frame) *Term { return c.Not(c.Eq(get(f), c.Int(0))) }})
		case e.sort == SSeq:
			out = append(out, &cand{name: "not shorter", tmpl: -1, vars: ph.Comment, eval: func(st *State, f *Frame) *Term { return c.Le(c.Len(e), c.Len(get(f))) }})
		}
	}
	// integer fields
	var fks []string
	for k := range a.refs {
		fks = append(fks, k)
	}
	sort.Strings(fks)
	for _, k := range fks {
		l, ok := x.p.leafByKey(k)
		if !ok || l.sort != SInt || isRefType(l.typ) || a.whole[k] || strings.Contains(k, ".spec") {
			continue
		}
		if bt, is := l.typ.Underlying().(*types.Basic); !is || bt.Kind() != types.Int {
			continue
		}
		var ids []int
		for id := range a.refs[k] {
			ids = append(ids, id)
		}
		sort.Ints(ids)
		for _, id := range ids {
			k, r := k, a.refs[k][id]
			e := c.Sel(x.arrByKeyAny(entry, k), false, r)
			out = append(out, &cand{name: "not below entry", tmpl: -1, vars: k, eval: func(st *State, f *Frame) *Term {
				return c.Le(e, c.Sel(x.arrByKeyAny(st, k), false, r))
			}})
		}
	}
	// bounds from comparisons with values that the loop does not change
	for _, cmp := range x.comparisons(a, entry) {
		cmp := cmp
		out = append(out, &cand{name: "bounded", tmpl: -1, vars: cmp.v.Name(), eval: func(st *State, f *Frame) *Term {
			return c.Le(f.env[cmp.v].(*Term), c.Add(cmp.bound(st, f), c.Int(cmp.off)))
		}})
	}
	// iterators
	for _, s := range ss {
		s := s
		if s.name == "range" {
			if s.limit != nil {
				out = append(out, &cand{name: "range limit", tmpl: -1, vars: "range", eval: func(st *State, f *Frame) *Term { return c.Le(s.get(st, f).(*Term), c.Slen(s.limit)) }})
			}
			out = append(out, &cand{name: "range position", tmpl: -1, vars: "range", eval: func(st *State, f *Frame) *Term { return c.Le(c.Int(0), s.get(st, f).(*Term)) }})
		}
	}
	return out
}

type comparison struct {
	v     *ssa.Phi
	bound func(st *State, f *Frame) *Term
	off   int64
}

// comparisons finds phi < e in the tests of the loop, with e defined outside it or a length.
func (x *Exec) comparisons(a *loopAttempt, entry *State) []comparison {
	var out []comparison
	phi := map[ssa.Value]int64{}
	ph := map[ssa.Value]*ssa.Phi{}
	for _, p := range a.phis {
		phi[p], ph[p] = 0, p
	}
	for b := range a.l.body {
		for _, in := range b.Instrs {
			if bo, ok := in.(*ssa.BinOp); ok && bo.Op == token.ADD {
				if k, ok := bo.Y.(*ssa.Const); ok && sortOf(bo.Type()) == SInt && k.Value != nil {
					if p, ok := bo.X.(*ssa.Phi); ok && ph[p] == p {
						phi[bo], ph[bo] = k.Int64(), p
					}
				}
			}
		}
	}
	var bl []*ssa.BasicBlock
	for b := range a.l.body {
		bl = append(bl, b)
	}
	sort.Slice(bl, func(i, j int) bool { return bl[i].Index < bl[j].Index })
	for _, b := range bl {
		for _, in := range b.Instrs {
			bo, ok := in.(*ssa.BinOp)
			if !ok || sortOf(bo.X.Type()) != SInt || isRefType(bo.X.Type()) {
				continue
			}
			add := func(v, e ssa.Value) {
				p := ph[v]
				if p == nil {
					return
				}
				bd := x.outside(a, e)
				if bd == nil {
					return
				}
				out = append(out, comparison{p, bd, -phi[v]}, comparison{p, bd, -phi[v] - 1})
				if phi[v] != 0 {
					out = append(out, comparison{p, bd, 0})
				}
			}
			switch bo.Op {
			case token.LSS, token.LEQ, token.NEQ, token.GEQ, token.GTR:
				add(bo.X, bo.Y)
				add(bo.Y, bo.X)
			}
		}
	}
	return out
}

// outside gives the value of e in terms of registers from before the loop.
func (x *Exec) outside(a *loopAttempt, e ssa.Value) func(st *State, f *Frame) *Term {
	switch e := e.(type) {
	case *ssa.Const:
		return func(st *State, f *Frame) *Term { t, _ := x.constant(e).(*Term); return t }
	case *ssa.Call:
		if b, ok := e.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" && a.l.body[e.Block()] {
			arg := e.Call.Args[0]
			if ld, ok := arg.(*ssa.UnOp); ok && ld.Op == token.MUL && a.l.body[ld.Block()] {
				// length of something in memory
				addr := ld.X
				return func(st *State, f *Frame) *Term {
					m := x.specMach(st)
					var p Val
					if fa, ok := addr.(*ssa.FieldAddr); ok && a.l.body[fa.Block()] {
						if in, isI := fa.X.(ssa.Instruction); isI && a.l.body[in.Block()] {
							return x.c.Int(1 << 60)
						}
						v, ok := m.eval(f.env, f.fn, f.binds, fa)
						if !ok {
							return x.c.Int(1 << 60)
						}
						p = v
					} else if fa, ok := addr.(ssa.Instruction); ok && a.l.body[fa.Block()] {
						return x.c.Int(1 << 60)
					} else {
						p = m.val(f.env, f.fn, f.binds, addr)
					}
					v := x.load(st, p, ld.Type())
					t := v.(*Term)
					if t.sort == SStr {
						return x.c.Slen(t)
					}
					return x.c.Len(t)
				}
			}
			if in, isI := arg.(ssa.Instruction); isI && a.l.body[in.Block()] {
				return nil
			}
			return func(st *State, f *Frame) *Term {
				m := x.specMach(st)
				t, ok := m.val(f.env, f.fn, f.binds, arg).(*Term)
				if !ok {
					return x.c.Int(1 << 60)
				}
				if t.sort == SStr {
					return x.c.Slen(t)
				}
				return x.c.Len(t)
			}
		}
	}
	if in, ok := e.(ssa.Instruction); ok && a.l.body[in.Block()] {
		return nil
	}
	switch e.(type) {
	case *ssa.Function, *ssa.Global, *ssa.Builtin:
		return nil
	}
	return func(st *State, f *Frame) *Term {
		t, _ := x.specMach(st).val(f.env, f.fn, f.binds, e).(*Term)
		return t
	}
}

// instances binds the parameters of a template to slots of their types.
func (x *Exec) instances(t *FnV, ss []slot, ti int, name string) []*cand {
	var out []*cand
	n := len(t.fn.Params)
	bound := make([]slot, n)
	var rec func(i int)
	rec = func(i int) {
		if len(out) > 300 {
			return
		}
		if i == n {
			b := append([]slot{}, bound...)
			var vs []string
			for _, s := range b {
				vs = append(vs, s.name)
			}
			out = append(out, &cand{name: name, tmpl: ti, vars: strings.Join(vs, ","), eval: func(st *State, f *Frame) *Term {
				var args []Val
				for _, s := range b {
					args = append(args, s.get(st, f))
				}
				return x.specMach(st).callFn(t.fn, args, t.binds, x.c.True()).(*Term)
			}})
			return
		}
		for _, s := range ss {
			if types.Identical(s.typ, t.fn.Params[i].Type()) {
				used := false
				for j := 0; j < i; j++ {
					used = used || bound[j].name == s.name && bound[j].typ == s.typ
				}
				if s.outer {
					// only next to something that changes
					same := 0
					for _, p := range t.fn.Params {
						if types.Identical(s.typ, p.Type()) {
							same++
						}
					}
					used = used || same < 2 && n < 4
				}
				if n >= 4 {
					// What changes comes first.
					for j := 0; j < i; j++ {
						used = used || bound[j].outer && !s.outer && types.Identical(s.typ, bound[j].typ)
					}
					if s.outer {
						for _, o := range ss {
							if !o.outer && types.Identical(s.typ, o.typ) {
								in := false
								for j := 0; j < i; j++ {
									in = in || bound[j].name == o.name
								}
								used = used || !in
							}
						}
					}
				}
				if used {
					continue
				}
				bound[i] = s
				rec(i + 1)
			}
		}
	}
	rec(0)
	return out
}

// measures are candidates for what decreases.
func (x *Exec) measures(a *loopAttempt) []*cand {
	c := x.c
	var out []*cand
	f := a.head.top()
	ss := x.slots(a.head, a)
	if f.ct != nil {
		for ti, t := range f.ct.loopDec {
			out = append(out, x.instances(t, ss, ti, "measure#"+fmt.Sprint(ti+1))...)
		}
	}
	for _, cmp := range x.comparisons(a, a.head) {
		cmp := cmp
		if cmp.off > 0 {
			continue
		}
		out = append(out, &cand{name: "bound minus variable", tmpl: -1, vars: cmp.v.Name(), eval: func(st *State, f *Frame) *Term {
			return c.Sub(cmp.bound(st, f), f.env[cmp.v].(*Term))
		}})
		out = append(out, &cand{name: "variable minus bound", tmpl: -1, vars: cmp.v.Name(), eval: func(st *State, f *Frame) *Term {
			return c.Sub(f.env[cmp.v].(*Term), cmp.bound(st, f))
		}})
	}
	for _, ph := range a.phis {
		ph := ph
		if sortOf(ph.Type()) == SInt && !isRefType(ph.Type()) {
			out = append(out, &cand{name: "variable", tmpl: -1, vars: ph.Comment, eval: func(st *State, f *Frame) *Term { return f.env[ph].(*Term) }})
		}
	}
	for b := range a.l.body {
		for _, in := range b.Instrs {
			nx, ok := in.(*ssa.Next)
			if !ok {
				continue
			}
			it, ok := f.env[nx.Iter].(*IterV)
			if !ok {
				continue
			}
			if it.str == nil {
				// a map has finitely many entries
				return []*cand{x.mapMeasure(a)}
			}
			out = append(out, &cand{name: "string left", tmpl: -1, eval: func(st *State, f *Frame) *Term {
				return c.Sub(c.Slen(it.str), st.cells[it.cell].(*Term))
			}})
		}
	}
	return out
}

// mapMeasure stands for the number of entries that a range over a map has left (assumed finite).
func (x *Exec) mapMeasure(a *loopAttempt) *cand {
	x.used["range over a map ends"] = true
	return &cand{name: "map entries left", tmpl: -1, eval: func(st *State, f *Frame) *Term {
		if st.top() == f && len(f.loops) > 0 && f.loops[len(f.loops)-1].run == a {
			return x.c.Int(0)
		}
		return x.c.Int(1)
	}}
}

func sortedBools(m map[string]bool) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
