package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// pureInfo says whether a function can be evaluated by merging its paths.
func (x *Exec) pure(fn *ssa.Function) bool {
	if v, ok := x.pureMemo[fn]; ok {
		return v
	}
	x.pureMemo[fn] = false
	v := x.pure1(fn)
	x.pureMemo[fn] = v
	return v
}

func (x *Exec) pure1(fn *ssa.Function) bool {
	if len(fn.Blocks) == 0 || x.p.recursive[fn] || fn.Recover != nil || len(loopsOf(fn)) > 0 {
		return false
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store, *ssa.Panic, *ssa.Defer, *ssa.Go, *ssa.MapUpdate, *ssa.Send, *ssa.Select, *ssa.Alloc, *ssa.MakeMap, *ssa.MakeInterface, *ssa.Next, *ssa.Range, *ssa.MakeClosure, *ssa.MakeSlice:
				return false
			case *ssa.Call:
				if b, ok := in.Call.Value.(*ssa.Builtin); ok {
					if b.Name() == "len" {
						continue
					}
					return false
				}
				f := in.Call.StaticCallee()
				if f == nil {
					if in.Call.IsInvoke() && in.Call.Method.Name() == "Location" {
						continue
					}
					return false
				}
				if pureLib[f.String()] {
					continue
				}
				if x.p.contracts[key(f)] != nil || !x.inRepo(f) || !x.pure(f) {
					return false
				}
			}
		}
	}
	return true
}

var pureLib = map[string]bool{
	"unicode/utf8.DecodeRuneInString": true,
	"strings.HasPrefix":               true,
	"(*strings.Builder).String":       true,
	"(*strings.Builder).Len":          true,
}

func (x *Exec) inRepo(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return fn.Pkg != nil && x.p.pkgs[fn.Pkg.Pkg.Path()] != nil
}

// isSpecFn holds for functions in our overlay files.
func (x *Exec) isSpecFn(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	_, ok := x.p.files[x.p.fset.Position(fn.Pos()).Filename]
	return ok
}

func isReg(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Const, *ssa.Function, *ssa.Builtin, *ssa.Global, *ssa.FreeVar:
		return false
	}
	return true
}

// rpo lists the blocks in reverse postorder.
func rpo(fn *ssa.Function) []*ssa.BasicBlock {
	seen := map[*ssa.BasicBlock]bool{}
	var out []*ssa.BasicBlock
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		if seen[b] {
			return
		}
		seen[b] = true
		for _, s := range b.Succs {
			walk(s)
		}
		out = append(out, b)
	}
	walk(fn.Blocks[0])
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

// callFn evaluates a loop-free function by merging its paths where they join.
func (m *mach) callFn(fn *ssa.Function, args []Val, binds []Val, guard *Term) Val {
	if m.depth > 400 {
		panic(unsupported("specification recursion too deep in " + fn.String()))
	}
	if len(fn.Blocks) == 0 {
		panic(unsupported("no body: " + fn.String()))
	}
	if len(loopsOf(fn)) > 0 {
		panic(unsupported("loop in specification or merged function " + fn.String()))
	}
	x, c := m.x, m.x.c
	m.depth++
	oldCheck := m.check
	oldGuard := m.guard
	defer func() { m.depth--; m.check = oldCheck; m.guard = oldGuard }()
	env := map[ssa.Value]Val{}
	for i, p := range fn.Params {
		env[p] = args[i]
	}
	type edge struct{ from, to *ssa.BasicBlock }
	edges := map[edge]*Term{} // condition of an edge, given its source
	reached := map[*ssa.BasicBlock]bool{}
	// cond is the condition of reaching b from its dominator d
	var cond func(d, b *ssa.BasicBlock) *Term
	type dk struct{ d, b *ssa.BasicBlock }
	memo := map[dk]*Term{}
	cond = func(d, b *ssa.BasicBlock) *Term {
		if d == b {
			return c.True()
		}
		if t, ok := memo[dk{d, b}]; ok {
			return t
		}
		// through the immediate dominator
		if id := b.Idom(); id != d && id != nil && d.Dominates(id) {
			t := c.And(cond(d, id), cond(id, b))
			memo[dk{d, b}] = t
			return t
		}
		if x.p.postDominates(b, d) {
			return c.True()
		}
		t := c.False()
		for _, p := range b.Preds {
			if e, ok := edges[edge{p, b}]; ok && reached[p] {
				t = c.Or(t, c.And(cond(d, p), e))
			}
		}
		memo[dk{d, b}] = t
		return t
	}
	order := rpo(fn)
	reached[order[0]] = true
	for _, b := range order {
		if !reached[b] {
			continue
		}
		g := guard
		if b != order[0] {
			bc := cond(order[0], b)
			if bc.isFalse() {
				reached[b] = false
				continue
			}
			g = c.And(guard, bc)
		}
		m.guard = g
		if oldGuard != nil {
			m.guard = c.And(oldGuard, g)
		}
		if g.isTrue() || m.spec {
			m.check = oldCheck
		} else {
			m.check = func(kind string, cond *Term, in ssa.Instruction) {
				oldCheck(kind, c.Implies(g, cond), in)
			}
		}
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Phi:
				var v Val
				first := true
				id := b.Idom()
				for k := len(b.Preds) - 1; k >= 0; k-- {
					p := b.Preds[k]
					e, ok := edges[edge{p, b}]
					if !ok || !reached[p] {
						continue
					}
					w := m.val(env, fn, binds, in.Edges[k])
					if first {
						v, first = w, false
						continue
					}
					v = x.ite(c.And(cond(id, p), e), w, v)
				}
				env[in] = v
			case *ssa.Return, *ssa.RunDefers:
			case *ssa.Jump:
				edges[edge{b, b.Succs[0]}] = c.True()
				reached[b.Succs[0]] = true
			case *ssa.If:
				t := m.val(env, fn, binds, in.Cond).(*Term)
				if !t.isTrue() && !t.isFalse() && m.spec && m.st != nil {
					if m.st.pcSet[t.id] {
						t = c.True()
					} else if m.st.pcSet[c.Not(t).id] {
						t = c.False()
					}
				}
				add := func(s *ssa.BasicBlock, t *Term) {
					if t.isFalse() {
						return
					}
					if o, ok := edges[edge{b, s}]; ok {
						t = c.Or(o, t)
					}
					edges[edge{b, s}] = t
					reached[s] = true
				}
				add(b.Succs[0], t)
				add(b.Succs[1], c.Not(t))
			case *ssa.Call:
				env[in] = m.callIn(env, fn, binds, &in.Call, in, g)
			default:
				v, ok := m.eval(env, fn, binds, in)
				if !ok {
					panic(unsupported(fmt.Sprintf("%T in merged function %s", in, fn)))
				}
				if rv, isV := in.(ssa.Value); isV {
					env[rv] = v
				}
			}
		}
	}
	m.check = oldCheck
	// the result
	rets := map[*ssa.BasicBlock]Val{}
	var result func(b *ssa.BasicBlock) Val
	result = func(b *ssa.BasicBlock) Val {
		if v, ok := rets[b]; ok {
			return v
		}
		var v Val
		switch in := b.Instrs[len(b.Instrs)-1].(type) {
		case *ssa.Return:
			switch len(in.Results) {
			case 0:
			case 1:
				v = m.val(env, fn, binds, in.Results[0])
			default:
				var t TupleV
				for _, r := range in.Results {
					t = append(t, m.val(env, fn, binds, r))
				}
				v = t
			}
		case *ssa.Jump:
			v = result(b.Succs[0])
		case *ssa.If:
			e0, ok0 := edges[edge{b, b.Succs[0]}]
			_, ok1 := edges[edge{b, b.Succs[1]}]
			switch {
			case ok0 && ok1 && b.Succs[0] != b.Succs[1]:
				v = x.ite(e0, result(b.Succs[0]), result(b.Succs[1]))
			case ok0:
				v = result(b.Succs[0])
			default:
				v = result(b.Succs[1])
			}
		default:
			panic(unsupported("block without end"))
		}
		rets[b] = v
		return v
	}
	return result(order[0])
}

// callIn handles a call from a pure function or a specification.
func (m *mach) callIn(env map[ssa.Value]Val, fn *ssa.Function, binds []Val, cc *ssa.CallCommon, in *ssa.Call, guard *Term) Val {
	x, c := m.x, m.x.c
	var args []Val
	if cc.IsInvoke() {
		args = append(args, m.val(env, fn, binds, cc.Value))
	}
	for _, a := range cc.Args {
		args = append(args, m.val(env, fn, binds, a))
	}
	if cc.IsInvoke() {
		v, ok := m.invoke(cc, args, in)
		if !ok {
			panic(unsupported("interface call " + cc.Method.Name() + " in specification"))
		}
		return v
	}
	fv, ok := m.val(env, fn, binds, cc.Value).(*FnV)
	if !ok {
		panic(unsupported("call of unknown function"))
	}
	if fv.bi != nil {
		v, ok := m.builtin(fv.bi, args, cc, in)
		if !ok {
			panic(unsupported("builtin " + fv.bi.Name()))
		}
		return v
	}
	f := fv.fn
	if f.Pkg != nil && f.Pkg.Pkg.Path() == specPath {
		switch f.Name() {
		case "Implies":
			return c.Implies(args[0].(*Term), args[1].(*Term))
		case "Use", "Split", "Opaque", "Hidden", "ByType":
			return c.True()
		case "Forall":
			return m.forall(args, guard)
		case "Cases", "ModifiesField", "ModifiesBelow", "ModifiesAny", "Inline", "Reveal", "At", "Requires", "Ensures", "EnsuresPanic", "MayPanic", "Modifies", "Invariant", "Decreases", "LoopDecreases", "Unroll", "Fuel", "Trusted", "Fresh":
			if x.building == nil {
				return nil
			}
			if f.Name() == "Requires" {
				args = []Val{c.Implies(guard, args[0].(*Term))}
			}
			x.building.directive(m, f.Name(), args, cc, guard)
			return nil
		}
		if v, ok := m.specIntrinsic(f.Name(), args); ok {
			return v
		}
	}
	if isLemma(f.Name()) {
		return m.useLemma(f, args)
	}
	if v, ok := m.lib(f, args, cc, in); ok {
		return v
	}
	if !m.spec {
		return m.callFn(f, args, fv.binds, guard)
	}
	if (x.p.recursive[f] || x.p.opaque(f)) && f.Parent() == nil {
		return m.callRec(f, args, guard)
	}
	if !x.inRepo(f) {
		panic(unsupported("external call " + f.String() + " in specification"))
	}
	return m.callFn(f, args, fv.binds, guard)
}

// forall makes a quantified formula.
func (m *mach) forall(args []Val, guard *Term) Val {
	x, c := m.x, m.x.c
	lo, hi := args[0].(*Term), args[1].(*Term)
	f := args[2].(*FnV)
	if lo.isInt() && hi.isInt() && hi.i64()-lo.i64() <= 130 {
		out := c.True()
		for i := lo.i64(); i < hi.i64(); i++ {
			out = c.And(out, m.callFn(f.fn, []Val{c.Int(i)}, f.binds, c.True()).(*Term))
		}
		return out
	}
	x.nbound++
	bv := c.mk("bvar", SInt, fmt.Sprintf("q!%d", x.nbound), nil)
	bv.bound = true
	body := m.callFn(f.fn, []Val{bv}, f.binds, c.True()).(*Term)
	// facts of terms with the bound variable
	var facts []*Term
	seen := map[int]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t.id] || !t.bound {
			return
		}
		seen[t.id] = true
		for _, f := range t.facts {
			facts = append(facts, f)
			walk(f)
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(body)
	g := c.And(append([]*Term{c.Le(lo, bv), c.Lt(bv, hi)}, facts...)...)
	t := c.mk("forall", SBool, bv.name, nil, c.Implies(g, body))
	t.bound = false
	for _, other := range freeBound(t.args[0]) {
		if other != bv.name {
			t.bound = true
		}
	}
	return t
}

func freeBound(t *Term) []string {
	seen := map[int]bool{}
	var out []string
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		if t.op == "bvar" {
			out = append(out, t.name)
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(t)
	return out
}

// callRec applies a recursive specification function: an uninterpreted function that can be
// unfolded, or its body right away if an argument has known structure.
func (m *mach) callRec(f *ssa.Function, args []Val, guard *Term) Val {
	x, c := m.x, m.x.c
	var ts []*Term
	for i, a := range args {
		ts = append(ts, x.flatten(a, f.Signature.Params().At(i).Type())...)
	}
	eager := false
	allConst := true
	for _, t := range ts {
		if ownAlloc(t) {
			eager = true
		}
		if !(t.isInt() || t.op == "str" || t.op == "true" || t.op == "false" || t.op == "lit") {
			allConst = false
		}
	}
	if allConst {
		eager = true
	}
	if eager && m.depth < 100 {
		return m.callFn(f, args, nil, c.True())
	}
	rt := f.Signature.Results()
	var resT types.Type = rt
	if rt.Len() == 1 {
		resT = rt.At(0).Type()
	}
	name := "rec!" + f.Name() + x.heapVersion(m.st, f, ts)
	var res []*Term
	i := 0
	var ls []leaf
	if rt.Len() == 1 {
		ls = leaves(resT)
	} else {
		for j := 0; j < rt.Len(); j++ {
			ls = append(ls, leaves(rt.At(j).Type())...)
		}
	}
	for _, l := range ls {
		n := name
		if i > 0 {
			n += fmt.Sprintf("!%d", i)
		}
		t := c.UF(n, l.sort, ts...)
		x.typed2(t, l.typ)
		x.static(t, l.typ)
		res = append(res, t)
		i++
	}
	mkv := func(ts []*Term) Val {
		if rt.Len() == 1 {
			return x.unflatten(ts, resT)
		}
		var out TupleV
		k := 0
		for j := 0; j < rt.Len(); j++ {
			n := len(leaves(rt.At(j).Type()))
			out = append(out, x.unflatten(ts[k:k+n], rt.At(j).Type()))
			k += n
		}
		return out
	}
	hasBound := false
	for _, t := range ts {
		hasBound = hasBound || t.bound
	}
	if res[0].rec == nil && !hasBound {
		st := m.st.clone()
		st.pc, st.pcSet = nil, map[int]bool{}
		args := append([]Val{}, args...)
		unfold := func() *Term {
			if (x.p.hidden(f) || x.foreign(f)) && !x.reveal[f.Name()] {
				return nil
			}
			if t := x.catLemma(st, f, args); t != nil {
				return t
			}
			st := st.clone()
			mm := &mach{x: x, st: st, check: func(string, *Term, ssa.Instruction) {}, spec: true}
			v := mm.callFn(f, args, nil, c.True())
			var body []*Term
			if rt.Len() == 1 {
				body = x.flatten(v, resT)
			} else {
				for j := 0; j < rt.Len(); j++ {
					body = append(body, x.flatten(v.(TupleV)[j], rt.At(j).Type())...)
				}
			}
			var eqs []*Term
			for k := range res {
				if res[k] != body[k] {
					eqs = append(eqs, c.mk("=", SBool, "", nil, res[k], body[k]))
				}
			}
			// assumptions made while unfolding (types of pointers) are universally valid
			return c.And(append(eqs, st.pc...)...)
		}
		res[0].rec = &recApp{unfold: unfold}
		if r := subject(f, ts); x.p.byType(f) && r != nil && !ownAlloc(r) && !r.isInt() {
			x.tag(r)
			tag := c.UF("tag", SInt, r)
			res[0].rec.subject = tag
			res[0].rec.defT = map[int64]*Term{}
			if l, _ := f.Pkg.Members["lemma_any_"+f.Name()].(*ssa.Function); l != nil && !automatic(x.lemmaGoal) {
				res[0].rec.lemma = func() *Term {
					m := x.specMach(st.clone())
					m.st.pc, m.st.pcSet = nil, map[int]bool{}
					t, _ := m.lemmaTerm(l, args)
					x.used[l.Name()] = true
					return x.c.And(append([]*Term{t}, m.st.pc...)...)
				}
			}
			res[0].rec.unfoldT = func(k int64) *Term {
				if x.tagIs == nil {
					x.tagIs = map[int]int64{}
				}
				x.tagIs[r.id] = k
				defer delete(x.tagIs, r.id)
				return c.Implies(c.mk("=", SBool, "", nil, tag, c.Int(k)), unfold())
			}
			res[0].rec.unfoldN = func() (*Term, []int64) {
				if x.tagIs == nil {
					x.tagIs = map[int]int64{}
				}
				x.tagIs[r.id] = otherType
				defer delete(x.tagIs, r.id)
				c.compared = nil
				body := unfold()
				ks := c.compared
				c.compared = nil
				if body == nil {
					return nil, nil
				}
				for _, k := range ks {
					body = c.Or(c.And(c.Not(c.Eq(r, c.Int(0))), c.mk("=", SBool, "", nil, tag, c.Int(k))), body)
				}
				return body, ks
			}
		}
		for _, r := range res[1:] {
			r.rec = res[0].rec
		}
	}
	return mkv(res)
}

// foreign: specification functions that other packages do not export are not unfolded.
func (x *Exec) foreign(f *ssa.Function) bool {
	g := x.fn
	for g != nil && g.Parent() != nil {
		g = g.Parent()
	}
	return g != nil && f.Pkg != g.Pkg && f.Object() != nil && !f.Object().Exported()
}

// subject is the argument whose type a specification function with ByType distinguishes: that of
// the first parameter of an interface type.
func subject(f *ssa.Function, args []*Term) *Term {
	k := 0
	for i := 0; i < f.Signature.Params().Len(); i++ {
		t := f.Signature.Params().At(i).Type()
		if types.IsInterface(t) {
			return args[k]
		}
		k += len(leaves(t))
	}
	return nil
}

// automatic lemmas are used where they apply; their own proofs use no lemmas but themselves.
func automatic(f *ssa.Function) bool {
	return f != nil && (strings.HasPrefix(f.Name(), "lemma_cat_") || strings.HasPrefix(f.Name(), "lemma_any_"))
}

// catLemma is the instance of the lemma about a specification function of concatenations. The
// lemma is named lemma_cat_ and the function; it has two parameters in place of the list.
func (x *Exec) catLemma(st *State, f *ssa.Function, args []Val) *Term {
	l, _ := f.Pkg.Members["lemma_cat_"+f.Name()].(*ssa.Function)
	if l == nil || automatic(x.lemmaGoal) {
		return nil
	}
	var as []Val
	found := false
	for _, a := range args {
		if t, ok := a.(*Term); ok && t.op == "cat" && !found {
			found = true
			as = append(as, t.args[0], t.args[1])
			continue
		}
		as = append(as, a)
	}
	if !found {
		return nil
	}
	m := x.specMach(st.clone())
	m.st.pc, m.st.pcSet = nil, map[int]bool{}
	t, _ := m.lemmaTerm(l, as)
	x.used[l.Name()] = true
	return x.c.And(append([]*Term{t}, m.st.pc...)...)
}

// heapVersion distinguishes applications of a specification function that reads memory when what
// it may read has changed.
func (x *Exec) heapVersion(st *State, f *ssa.Function, args []*Term) string {
	var refs []*Term
	k := 0
	for i := 0; i < f.Signature.Params().Len(); i++ {
		for _, l := range leaves(f.Signature.Params().At(i).Type()) {
			if args[k].sort == SSeq || args[k].sort == SInt && isRefType(l.typ) {
				refs = append(refs, args[k])
			}
			k++
		}
	}
	return x.viewVersion(st, x.readSet(f), refs)
}

// viewVersion identifies what can be read through references: changes of objects that can not be
// reached through them are left out.
func (x *Exec) viewVersion(st *State, keys []string, refs []*Term) string {
	w := &viewer{x: x, st: st, own: map[int]bool{}, seen: map[int]bool{}}
	any := false
	for _, k := range keys {
		if a, ok := st.heap[k]; ok && a != x.bases[k] {
			any = true
			w.stores(a, x.mayRefer(k, a))
		}
	}
	if !any {
		return ""
	}
	for _, r := range refs {
		w.reach(r)
	}
	for n := -1; n != len(w.own)+w.most+w.old; {
		n = len(w.own) + w.most + w.old
		w.expand()
	}
	v := ""
	for _, k := range keys {
		if a, ok := st.heap[k]; ok && a != x.bases[k] {
			if b := w.strip(a); b != x.bases[k] {
				v += fmt.Sprintf("@%d", b.id)
			}
		}
	}
	return v
}

// viewer finds which objects of ours can be reached.
type viewer struct {
	x    *Exec
	st   *State
	keys []*Term // stores: object, value, or 0 and an unknown part
	vals []*Term
	olds []*Term      // unknown parts of arrays of references
	own  map[int]bool // reached
	most int          // what came into being before is reached ...
	old  int          // ... but for objects of ours
	seen map[int]bool
}

// stores collects the stores in an array of references.
func (w *viewer) stores(a *Term, ref bool) {
	for {
		switch a.op {
		case "store":
			if k := a.args[2]; ref || ownAlloc(k) {
				w.keys = append(w.keys, k)
				if ref {
					w.vals = append(w.vals, a.args[1])
				} else {
					w.vals = append(w.vals, nil)
				}
			}
			a = a.args[0]
		case "newer", "mhav", "mclear", "below":
			if ref {
				w.olds = append(w.olds, a)
			}
			if a.op == "newer" {
				a = a.args[0]
			} else {
				a = a.args[0]
			}
		case "aite":
			w.stores(a.args[1], ref)
			a = a.args[2]
		default:
			if ref && a.stamp > 1 {
				w.olds = append(w.olds, a)
			}
			return
		}
	}
}

// reach adds what a value refers to.
func (w *viewer) reach(t *Term) {
	if w.seen[t.id] || t.sort != SInt && t.sort != SSeq {
		return
	}
	w.seen[t.id] = true
	switch t.op {
	case "int":
		if ownAlloc(t) {
			w.own[int(-t.i64())] = true
		}
	case "lit", "bytes", "bvar":
	case "snoc", "cat":
		for _, a := range t.args {
			w.reach(a)
		}
	case "upd", "ite", "fill":
		if t.op == "upd" {
			w.reach(t.args[0])
		}
		for _, a := range t.args[1:] {
			w.reach(a)
		}
	case "sub":
		w.reach(t.args[0])
	default:
		n := t.stamp
		if n == 0 {
			if t.sort == SInt {
				return // a number
			}
			n = 1 << 60
		}
		if not := w.x.excluded(t); not != nil {
			for _, k := range w.keys {
				if ownAlloc(k) && int(-k.i64()) < n && !not[int(-k.i64())] {
					w.own[int(-k.i64())] = true
				}
			}
			if n > w.old {
				w.old = n
			}
			return
		}
		if n > w.most {
			w.most = n
		}
	}
}

// reached holds if an object can be reached.
func (w *viewer) reached(k *Term) bool {
	if !ownAlloc(k) {
		return true
	}
	return w.own[int(-k.i64())] || int(-k.i64()) < w.most
}

func (w *viewer) expand() {
	for i, k := range w.keys {
		if v := w.vals[i]; v != nil && w.reached(k) {
			w.reach(v)
		}
	}
	for _, a := range w.olds {
		if a.op == "newer" {
			// only objects that came into being since are unknown
			n := int(a.n.Int64())
			hit := w.most > n || w.old > n
			for k := range w.own {
				hit = hit || k >= n
			}
			if !hit {
				continue
			}
		}
		n := a.stamp
		if n == 0 {
			n = w.x.c.alloc + 1
		}
		if n > w.most {
			w.most = n
		}
	}
}

// strip leaves out the objects that can not be reached.
func (w *viewer) strip(a *Term) *Term {
	c := w.x.c
	switch a.op {
	case "store":
		b := w.strip(a.args[0])
		if !w.reached(a.args[2]) {
			return b
		}
		if b == a.args[0] {
			return a
		}
		return c.mk("store", a.sort, "", nil, append([]*Term{b}, a.args[1:]...)...)
	case "newer":
		n := int(a.n.Int64())
		hit := w.most > n || w.old > n
		for k := range w.own {
			hit = hit || k >= n
		}
		b := w.strip(a.args[0])
		if !hit {
			return b
		}
		if b == a.args[0] {
			return a
		}
		t := c.mk("newer", a.sort, a.name, a.n, b)
		t.stamp = a.stamp
		return t
	case "mhav", "mclear", "below":
		b := w.strip(a.args[0])
		if b == a.args[0] {
			return a
		}
		t := c.mk(a.op, a.sort, a.name, a.n, append([]*Term{b}, a.args[1:]...)...)
		t.stamp = a.stamp
		return t
	case "aite":
		p, q := w.strip(a.args[1]), w.strip(a.args[2])
		if p == q {
			return p
		}
	}
	return a
}

// excluded is the set of objects of ours that an unknown value can not refer to because they had
// not been published when it came into being; nil if that is not known.
func (x *Exec) excluded(t *Term) map[int]bool {
	switch t.op {
	case "sym":
		return x.unpub[t.id]
	case "uf":
		since := x.since[t.name]
		if !(strings.HasPrefix(t.name, "at") || strings.HasPrefix(t.name, "f!") && x.baseName[t.name] || since > 0) {
			return nil
		}
		var not map[int]bool
		for _, a := range t.args {
			if a.sort == SSeq || a.stamp > 0 {
				if not != nil {
					return nil
				}
				if not = x.excluded(a); not == nil {
					return nil
				}
			}
		}
		if since > 0 {
			// what came into being before may be there
			all := not
			not = map[int]bool{}
			for k := range all {
				if k >= since {
					not[k] = true
				}
			}
		}
		return not
	case "sub":
		return x.excluded(t.args[0])
	}
	return nil
}

// unpublished is the set of our objects that have not been published.
func (x *Exec) unpublished(st *State) map[int]bool {
	out := map[int]bool{}
	for k, t := range x.allocT {
		if x.hasInv(t) && st.pub[k] == nil {
			out[k] = true
		}
	}
	return out
}

// mayRefer holds if what is in an array refers to objects.
func (x *Exec) mayRefer(key string, a *Term) bool {
	switch leafOf(a) {
	case SInt:
		if l, ok := x.p.leafByKey(key); ok {
			return isRefType(l.typ)
		}
		return true
	case SSeq:
		if l, ok := x.p.leafByKey(key); ok {
			if t, ok := l.typ.Underlying().(*types.Slice); ok {
				if _, ok := t.Elem().Underlying().(*types.Basic); ok {
					return false
				}
			}
		}
		return true
	}
	return false
}

// onlyFields holds if an address is only used for the addresses of fields.
func onlyFields(a *ssa.FieldAddr) bool {
	for _, r := range *a.Referrers() {
		if f, ok := r.(*ssa.FieldAddr); !ok || f.X != a {
			return false
		}
	}
	return true
}

// readSet is the fields that a specification function may read.
func (x *Exec) readSet(f *ssa.Function) []string {
	if ks, ok := x.readMemo[f]; ok {
		return ks
	}
	set := map[string]bool{}
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.FieldAddr:
					if onlyFields(in) {
						break
					}
					pt := in.X.Type().Underlying().(*types.Pointer).Elem()
					for _, l := range subLeaves(pt, []int{in.Field}) {
						set[l.key] = true
					}
				case *ssa.UnOp:
					if pt, ok := in.X.Type().Underlying().(*types.Pointer); ok {
						if _, ok := isStruct(pt.Elem()); ok {
							for _, l := range leaves(pt.Elem()) {
								set[l.key] = true
							}
						}
					}
				case *ssa.Lookup:
					if mt, ok := in.X.Type().Underlying().(*types.Map); ok {
						vk, hk := mapKeys(mt)
						set[vk], set[hk] = true, true
					}
				}
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						walk(g)
					}
				}
			}
		}
	}
	walk(f)
	var ks []string
	for k := range set {
		if !strings.Contains(k, ".spec") {
			ks = append(ks, k)
		}
	}
	sortStrings(ks)
	x.readMemo[f] = ks
	return ks
}

// postDominates holds if every path from d to the end of the function goes through b.
func (p *Program) postDominates(b, d *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{b: true}
	work := []*ssa.BasicBlock{d}
	for len(work) > 0 {
		k := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[k] {
			continue
		}
		seen[k] = true
		if len(k.Succs) == 0 {
			return false
		}
		work = append(work, k.Succs...)
	}
	return true
}
