package main

import (
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Paths that arrive at the same loop are joined, so that the loop is verified once.

type parkedState struct {
	st *State
	li *loopInfo
}

// joinParked takes the states parked at the earliest loop, joins them where that is possible, and
// verifies the loop for each.
func (x *Exec) joinParked() {
	best := 0
	for i := range x.parked {
		if x.stackLess(x.parked[i].st, x.parked[best].st) {
			best = i
		}
	}
	b := x.parked[best]
	var group []*State
	var rest []parkedState
	for _, p := range x.parked {
		if p.li == b.li && x.sameStack(p.st, b.st) {
			group = append(group, p.st)
		} else {
			rest = append(rest, p)
		}
	}
	x.parked = rest
	for {
		// the two with the longest common history first
		type pair struct{ i, j, n int }
		var ps []pair
		for i := range group {
			for j := i + 1; j < len(group); j++ {
				n := 0
				for n < len(group[i].pc) && n < len(group[j].pc) && group[i].pc[n] == group[j].pc[n] {
					n++
				}
				ps = append(ps, pair{i, j, n})
			}
		}
		sort.SliceStable(ps, func(a, b int) bool { return ps[a].n > ps[b].n })
		joined := false
		for _, p := range ps {
			if m := x.join(group[p.i], group[p.j], p.n); m != nil {
				group[p.i] = m
				group = append(group[:p.j], group[p.j+1:]...)
				joined = true
				break
			}
		}
		if !joined {
			break
		}
	}
	for _, st := range group {
		x.attempt(st, b.li)
	}
}

func (x *Exec) rpo(b *ssa.BasicBlock) int {
	fn := b.Parent()
	m, ok := x.rpoMemo[fn]
	if !ok {
		m = map[*ssa.BasicBlock]int{}
		var post []*ssa.BasicBlock
		seen := map[*ssa.BasicBlock]bool{}
		var dfs func(b *ssa.BasicBlock)
		dfs = func(b *ssa.BasicBlock) {
			seen[b] = true
			for i := len(b.Succs) - 1; i >= 0; i-- {
				if !seen[b.Succs[i]] {
					dfs(b.Succs[i])
				}
			}
			post = append(post, b)
		}
		dfs(fn.Blocks[0])
		for i, b := range post {
			m[b] = len(post) - i
		}
		if x.rpoMemo == nil {
			x.rpoMemo = map[*ssa.Function]map[*ssa.BasicBlock]int{}
		}
		x.rpoMemo[fn] = m
	}
	return m[b]
}

func (x *Exec) stackLess(a, b *State) bool {
	for i := range a.frames {
		if i >= len(b.frames) {
			return true
		}
		f, g := a.frames[i], b.frames[i]
		if f.fn != g.fn {
			return false
		}
		if r, s := x.rpo(f.block), x.rpo(g.block); r != s {
			return r < s
		}
		if f.pc != g.pc {
			return f.pc < g.pc
		}
	}
	return false
}

func (x *Exec) sameStack(a, b *State) bool {
	if len(a.frames) != len(b.frames) || a.panicking != nil || b.panicking != nil {
		return a == b
	}
	for i, f := range a.frames {
		g := b.frames[i]
		if f.fn != g.fn || f.block != g.block || f.pc != g.pc || f.dest != g.dest || f.isDefer != g.isDefer ||
			f.unwinding || g.unwinding || len(f.loops) != len(g.loops) || len(f.defers) != len(g.defers) || len(f.binds) != len(g.binds) {
			return false
		}
		if (f.onReturn != nil || g.onReturn != nil) && i > 0 {
			return false
		}
		for j, l := range f.loops {
			m := g.loops[j]
			if l.info != m.info || l.run != m.run || l.count != m.count {
				return false
			}
		}
		for j, d := range f.defers {
			e := g.defers[j]
			if d.pos != e.pos || !sameVal(d.fn, e.fn) || len(d.args) != len(e.args) {
				return false
			}
			for k := range d.args {
				if !sameVal(d.args[k], e.args[k]) {
					return false
				}
			}
		}
		for j := range f.binds {
			if !sameVal(f.binds[j], g.binds[j]) {
				return false
			}
		}
	}
	return true
}

// join makes one state of two whose first n facts are the same; nil if they hold values that
// cannot be joined.
func (x *Exec) join(a, b *State, n int) *State {
	c := x.c
	// what tells the two apart
	var g *Term
	in := map[int]bool{}
	for _, t := range b.pc[n:] {
		in[t.id] = true
	}
	for _, t := range a.pc[n:] {
		if in[c.Not(t).id] {
			g = t
			break
		}
	}
	if g == nil {
		g = c.Fresh("join", SBool)
	}
	x.joinPub(a, b)
	x.joinPub(b, a)
	ok := true
	var val func(v, w Val) Val
	val = func(v, w Val) Val {
		if sameVal(v, w) {
			return v
		}
		switch v := v.(type) {
		case *Term:
			if u, is := w.(*Term); is && u.sort == v.sort {
				if ownAlloc(v) {
					x.mach(a).publish(v, nil)
				}
				if ownAlloc(u) {
					x.mach(b).publish(u, nil)
				}
				t := c.Ite(g, v, u)
				if rt := x.refTypes[v.id]; rt != nil && x.refTypes[u.id] == rt {
					x.refTypes[t.id] = rt
				}
				return t
			}
		case *StructV:
			if u, is := w.(*StructV); is && len(u.f) == len(v.f) {
				s := &StructV{t: v.t}
				for i := range v.f {
					s.f = append(s.f, val(v.f[i], u.f[i]))
				}
				return s
			}
		case TupleV:
			if u, is := w.(TupleV); is && len(u) == len(v) {
				var s TupleV
				for i := range v {
					s = append(s, val(v[i], u[i]))
				}
				return s
			}
		}
		ok = false
		return nil
	}
	m := a.clone()
	for r, g := range b.pub {
		if o := m.pub[r]; o != nil {
			g = x.c.Or(o, g)
		}
		m.pub[r] = g
	}
	m.pc = append([]*Term{}, a.pc[:n]...)
	m.pcSet = map[int]bool{}
	for _, t := range m.pc {
		m.pcSet[t.id] = true
	}
	for i, f := range m.frames {
		fb := b.frames[i]
		for k, v := range f.env {
			w, has := fb.env[k]
			if !has {
				delete(f.env, k)
				continue
			}
			if sameVal(v, w) {
				continue
			}
			u := val(v, w)
			if !ok {
				if liveAt(k, f.block, f.pc) {
					return nil
				}
				ok = true
				delete(f.env, k)
				continue
			}
			f.env[k] = u
		}
	}
	for k, w := range b.cells {
		v, has := m.cells[k]
		if !has {
			m.cells[k] = w
			continue
		}
		u := val(v, w)
		if !ok {
			return nil
		}
		m.cells[k] = u
	}
	for k, w := range b.ghost {
		v, has := m.ghost[k]
		if !has {
			return nil
		}
		u := val(v, w)
		if !ok {
			return nil
		}
		m.ghost[k] = u
	}
	if len(m.ghost) != len(b.ghost) {
		return nil
	}
	keys := map[string]bool{}
	for k := range a.heap {
		keys[k] = true
	}
	for k := range b.heap {
		keys[k] = true
	}
	for k := range keys {
		u, w := x.arrByKeyAny(a, k), x.arrByKeyAny(b, k)
		if u == w {
			m.heap[k] = u
			continue
		}
		t := x.joinArr(g, u, w)
		if t == nil {
			return nil
		}
		m.heap[k] = t
	}
	m.path = nil
	for i, p := range a.path {
		if i >= len(b.path) || b.path[i] != p {
			break
		}
		m.path = append(m.path, p)
	}
	m.path = append(m.path, "(joined)")
	for _, t := range a.pc[n:] {
		x.assume(m, c.Implies(g, t))
	}
	for _, t := range b.pc[n:] {
		x.assume(m, c.Implies(c.Not(g), t))
	}
	return m
}

// joinArr joins two arrays that differ by stores over a common one.
func (x *Exec) joinArr(g, u, w *Term) *Term {
	c := x.c
	in := map[*Term]bool{}
	for t := u; ; t = t.args[0] {
		in[t] = true
		if t.op != "store" {
			break
		}
	}
	var refs [][]*Term
	t := w
	for ; !in[t]; t = t.args[0] {
		if t.op != "store" {
			return nil
		}
		refs = append(refs, t.args[2:])
	}
	for v := u; v != t; v = v.args[0] {
		if v.op != "store" {
			return nil
		}
		refs = append(refs, v.args[2:])
	}
	out := t
	seen := map[int]bool{}
	for i := len(refs) - 1; i >= 0; i-- {
		r := refs[i]
		if len(r) == 1 && seen[r[0].id] {
			continue
		}
		seen[r[0].id] = true
		a, b := c.Sel(u, false, r...), c.Sel(w, false, r...)
		out = c.Store(out, c.Ite(g, a, b), r...)
	}
	return out
}

// liveAt holds if v may still be used from here on.
func liveAt(v ssa.Value, b *ssa.BasicBlock, pc int) bool {
	refs := v.Referrers()
	if refs == nil {
		return true
	}
	reach := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		for _, s := range b.Succs {
			if !reach[s] {
				reach[s] = true
				walk(s)
			}
		}
	}
	walk(b)
	for _, r := range *refs {
		if reach[r.Block()] || r.Block() == b {
			return true
		}
	}
	return false
}
