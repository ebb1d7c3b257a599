package main

import (
	"fmt"
	"go/types"
	"math/big"
	"reflect"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

var loopMu sync.Mutex

func bigInt(n int64) *big.Int { return big.NewInt(n) }

// builtin models the built-in functions.
func (m *mach) builtin(b *ssa.Builtin, args []Val, cc *ssa.CallCommon, in *ssa.Call) (Val, bool) {
	x, c := m.x, m.x.c
	switch b.Name() {
	case "len", "cap":
		t, ok := args[0].(*Term)
		if !ok {
			if av, ok := args[0].(*AddrV); ok {
				_ = av
				return c.Int(cc.Args[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()), true
			}
			return nil, false
		}
		switch {
		case t.sort == SStr:
			return c.Slen(t), true
		case t.sort == SSeq:
			return c.Len(t), true
		}
		if _, ok := cc.Args[0].Type().Underlying().(*types.Map); ok {
			v := x.fresh("maplen", types.Typ[types.Int]).(*Term)
			x.assume(m.st, c.Le(c.Int(0), v))
			return v, true
		}
	case "append":
		s, e := args[0].(*Term), args[1].(*Term)
		if e.sort == SStr {
			e = c.Bytes(e)
		}
		return c.Cat(s, e), true
	case "delete":
		mt := cc.Args[0].Type().Underlying().(*types.Map)
		x.mapSet(m.st, args[0].(*Term), mt, args[1], nil, c.False())
		return nil, true
	case "ssa:wrapnilchk":
		m.nonNil(args[0], in)
		return args[0], true
	case "min", "max":
		r := args[0].(*Term)
		for _, a := range args[1:] {
			t := a.(*Term)
			if b.Name() == "min" {
				r = c.Ite(c.Le(r, t), r, t)
			} else {
				r = c.Ite(c.Le(r, t), t, r)
			}
		}
		return r, true
	}
	return nil, false
}

// specIntrinsic models functions of verifspec that a specification can use.
func (m *mach) specIntrinsic(name string, args []Val) (Val, bool) {
	x, c := m.x, m.x.c
	switch name {
	case "RuneAt":
		r, _ := x.runeAt(args[0].(*Term), args[1].(*Term))
		return r, true
	case "RuneWidth":
		_, w := x.runeAt(args[0].(*Term), args[1].(*Term))
		return w, true
	case "SameInts", "SameBytes", "SameStrings":
		return c.Eq(args[0].(*Term), args[1].(*Term)), true
	case "Ghost":
		n := args[1].(*Term)
		if n.op != "str" {
			panic(unsupported("Ghost of an unknown name"))
		}
		return c.Sel(x.arr(m.st, "ghost:"+n.name, SInt), false, args[0].(*Term)), true
	case "Same":
		return c.Eq(m.unboxSeq(args[0].(*Term)), m.unboxSeq(args[1].(*Term))), true
	case "ID":
		return args[0].(*Term), true
	case "Rank":
		return x.rank(m.unboxSeq(args[0].(*Term))), true
	case "JSON":
		return c.UF("json.Unmarshal", SStr, args[0].(*Term), args[1].(*Term), c.Str("")), true
	case "JSONError":
		return c.UF("json.Unmarshal.err", SInt, args[0].(*Term)), true
	case "Height":
		return x.height(m.st, m.unboxSeq(args[0].(*Term))), true
	}
	return nil, false
}

// unboxSeq is the sequence that was made an interface value, or else the value.
func (m *mach) unboxSeq(r *Term) *Term {
	x, c := m.x, m.x.c
	tag := x.tag(r)
	if !ownAlloc(r) || !tag.isInt() {
		return r
	}
	for s, id := range x.knownTags() {
		if int64(id) != tag.i64() || !strings.HasPrefix(s, "[]") {
			continue
		}
		for k, a := range m.st.heap {
			if strings.HasPrefix(k, "box:[]") {
				if v := c.Sel(a, false, r); v.sort == SSeq && !(v.op == "uf" && v.args[0] == r) {
					return v
				}
			}
		}
	}
	return r
}

// height is the height of a tree of the syntax (or of a list of them): trees are finite, so the
// nodes that a node refers to are lower.
func (x *Exec) height(st *State, t *Term) *Term {
	x.heights = true
	var keys []string
	for _, k := range sortedKeys(st.heap) {
		a := st.heap[k]
		if strings.HasPrefix(k, "ast.") && (a.sort == "Arr"+SInt || a.sort == "Arr"+SSeq) {
			keys = append(keys, k)
		}
	}
	v := x.viewVersion(st, keys, []*Term{t})
	n := "height"
	if t.sort == SSeq {
		n = "heights"
	}
	h := x.c.UF(n+v, SInt, t)
	if h.facts == nil {
		x.heightFacts(h, t)
		c := x.c
		switch t.op {
		case "lit":
			h.facts = append(h.facts, c.Eq(h, c.Int(1)))
		case "snoc":
			if len(t.args) == 2 && t.args[1].sort == SInt {
				p, e := c.UF(n+v, SInt, t.args[0]), c.Add(c.UF("height"+v, SInt, t.args[1]), c.Int(1))
				if t.args[0].op == "lit" {
					p = c.Int(1)
				}
				h.facts = append(h.facts, c.Eq(h, c.Ite(c.Le(e, p), p, e)))
			}
		case "sub":
			h.facts = append(h.facts, c.Le(h, c.UF(n+v, SInt, t.args[0])))
		}
	}
	return h
}

func (x *Exec) heightFacts(h, t *Term) {
	c := x.c
	if h.facts != nil {
		return
	}
	if t.sort == SSeq {
		h.facts = []*Term{c.Le(c.Int(1), h)}
		return
	}
	nul := c.Eq(t, c.Int(0))
	h.facts = []*Term{c.Implies(nul, c.Eq(h, c.Int(0))), c.Implies(c.Not(nul), c.Le(c.Int(2), h))}
}

// rank is the rank of a node, or of a list of them: a number that a node has from when other
// functions can refer to it, and that exceeds the ranks of what it refers to, then and later,
// if its invariant says so.
func (x *Exec) rank(t *Term) *Term { return x.c.rankOf(t) }

func (c *Ctx) rankOf(t *Term) *Term {
	max := func(a, b *Term) *Term { return c.Ite(c.Le(a, b), b, a) }
	if t.op == "ite" {
		return c.Ite(t.args[0], c.rankOf(t.args[1]), c.rankOf(t.args[2]))
	}
	if t.sort != SSeq {
		if t.isInt() && t.i64() == 0 {
			return t
		}
		h := c.UF("rank", SInt, t)
		if h.facts == nil {
			nul := c.Eq(t, c.Int(0))
			h.facts = []*Term{c.Implies(nul, c.Eq(h, c.Int(0))), c.Or(nul, c.Le(c.Int(1), h))}
			if t.op == "uf" && strings.HasPrefix(t.name, "at") && len(t.args) == 2 && t.args[0].sort == SSeq {
				h.facts = append(h.facts, c.Or(c.Lt(t.args[1], c.Int(0)), c.Le(c.Len(t.args[0]), t.args[1]), c.Lt(h, c.rankOf(t.args[0]))))
			}
		}
		return h
	}
	switch t.op {
	case "lit":
		return c.Int(0)
	case "snoc":
		if len(t.args) == 2 && t.args[1].sort == SInt {
			return max(c.rankOf(t.args[0]), c.Add(c.rankOf(t.args[1]), c.Int(1)))
		}
	case "cat":
		return max(c.rankOf(t.args[0]), c.rankOf(t.args[1]))
	}
	h := c.UF("ranks", SInt, t)
	if h.facts == nil {
		h.facts = []*Term{c.Le(c.Int(0), h), c.Implies(c.Le(c.Len(t), c.Int(0)), c.Eq(h, c.Int(0)))}
		if t.op == "sub" {
			h.facts = append(h.facts, c.Le(h, c.rankOf(t.args[0])))
		}
	}
	return h
}

// ranked is the type's rank invariant in use: the type's invariant speaks of ranks.
func (p *Program) ranked(t types.Type) bool {
	f := p.invOf(t)
	if f == nil {
		return false
	}
	return p.ranks[f]
}

func callsRank(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if call, ok := in.(*ssa.Call); ok {
				if g := call.Common().StaticCallee(); g != nil && g.Name() == "Rank" {
					return true
				}
			}
		}
	}
	return false
}

func isNodeList(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isNodeRef(s.Elem())
}

func isNodeRef(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		_, ok := isStruct(u.Elem())
		return ok
	case *types.Interface:
		return true
	}
	return false
}

// setRank gives an object of the function's own its rank, when it is published first: one more
// than what it refers to then.
func (x *Exec) setRank(st *State, when, r *Term, t types.Type) {
	c := x.c
	most := c.Int(0)
	for _, l := range leaves(t) {
		v := c.Sel(x.arr(st, l.key, l.sort), false, r)
		if v.sort == SInt && isNodeRef(l.typ) || v.sort == SSeq && isNodeList(l.typ) {
			k := x.rank(v)
			most = c.Ite(c.Le(most, k), k, most)
		}
	}
	x.assume(st, c.Implies(when, c.Eq(x.rank(r), c.Add(most, c.Int(1)))))
}

// lower records that what was read from a field of the syntax tree, or from a list, is lower.
func (x *Exec) lower(t *Term) {
	c := x.c
	if !x.heights || t.htFact {
		return
	}
	if t.op == "ite" {
		t.htFact = true
		x.lower(t.args[1])
		x.lower(t.args[2])
		return
	}
	if t.op != "uf" || len(t.args) == 0 {
		return
	}
	n := "height"
	if t.sort == SSeq {
		n = "heights"
	}
	var of *Term
	switch {
	case strings.HasPrefix(t.name, "f!ast.") && x.baseName[t.name] && len(t.args) == 1 && t.args[0].sort == SInt:
		of = c.UF("height", SInt, t.args[0])
	case strings.HasPrefix(t.name, "at") && len(t.args) == 2 && t.args[0].sort == SSeq:
		of = c.UF("heights", SInt, t.args[0])
	default:
		return
	}
	t.htFact = true
	h := c.UF(n, SInt, t)
	x.heightFacts(h, t)
	x.heightFacts(of, of.args[0])
	if of.args[0].sort == SInt {
		t.facts = append(t.facts, c.Or(c.Eq(of.args[0], c.Int(0)), c.Lt(h, of)))
	} else {
		t.facts = append(t.facts, c.Lt(h, of))
	}
}

func sortedKeys(m map[string]*Term) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// runeAt is the code point of s at byte i and its width.
func (x *Exec) runeAt(s, i *Term) (r, w *Term) {
	c := x.c
	if s.op == "ssub" && s.args[2] == c.Slen(s.args[0]) {
		return x.runeAt(s.args[0], c.Add(s.args[1], i))
	}
	if s.op == "str" && i.isInt() && i.i64() >= 0 && i.i64() < int64(len(s.name)) {
		for k, rr := range s.name[i.i64():] {
			_ = k
			return c.Int(int64(rr)), c.Int(int64(len(string(rr))))
		}
	}
	r = c.UF("runeat", SInt, s, i)
	w = c.UF("runewidth", SInt, s, i)
	if w.facts == nil {
		b := c.Sat(s, i)
		inr := c.And(c.Le(c.Int(0), i), c.Lt(i, c.Slen(s)))
		f := []*Term{
			c.Implies(inr, c.And(c.Le(c.Int(1), w), c.Le(w, c.Int(4)), c.Le(c.Add(i, w), c.Slen(s)))),
			c.Implies(c.Le(c.Slen(s), i), c.And(c.Eq(w, c.Int(0)), c.Eq(r, c.Int(0xfffd)))),
			c.Le(c.Int(0), r), c.Le(r, c.Int(0x10ffff)),
			c.Not(c.And(c.Le(c.Int(0xd800), r), c.Le(r, c.Int(0xdfff)))),
			c.Implies(c.And(inr, c.Lt(b, c.Int(128))), c.And(c.Eq(r, b), c.Eq(w, c.Int(1)))),
			c.Implies(c.And(inr, c.Le(c.Int(128), b)), c.Le(c.Int(128), r)),
			c.Implies(c.And(inr, c.Le(c.Int(128), b), c.Eq(w, c.Int(1))), c.Eq(r, c.Int(0xfffd))),
			c.Implies(c.And(inr, c.Lt(c.Int(1), w)), c.Le(c.Int(128), c.Sat(s, c.Add(i, c.Int(1))))),
			c.Implies(c.And(inr, c.Lt(c.Int(2), w)), c.Le(c.Int(128), c.Sat(s, c.Add(i, c.Int(2))))),
			c.Implies(c.And(inr, c.Lt(c.Int(3), w)), c.Le(c.Int(128), c.Sat(s, c.Add(i, c.Int(3))))),
		}
		w.facts = f
		r.facts = append(r.facts, f...)
	}
	return r, w
}

// invoke models interface methods that have one meaning.
func (m *mach) invoke(cc *ssa.CallCommon, args []Val, in *ssa.Call) (Val, bool) {
	x := m.x
	switch cc.Method.Name() {
	case "Location":
		r, ok := args[0].(*Term)
		if !ok {
			return nil, false
		}
		if sig := cc.Signature(); sig.Results().Len() == 2 { // of an error
			m.nonNil(r, in)
			var t TupleV
			for i := 0; i < 2; i++ {
				rt := sig.Results().At(i).Type()
				if st, ok := isStruct(rt); ok {
					v := &StructV{t: rt}
					for j := 0; j < st.NumFields(); j++ {
						v.f = append(v.f, x.c.UF("Location."+st.Field(j).Name(), sortOf(st.Field(j).Type()), r))
					}
					t = append(t, v)
				} else {
					p := x.c.UF("Location.source", sortOf(rt), r)
					x.c.markRef(p, 1)
					t = append(t, p)
				}
			}
			return t, true
		}
		m.nonNil(r, in)
		pk := x.p.pkgs["github.com/stephen/cssc/internal/ast"]
		if pk == nil {
			return nil, false
		}
		t := pk.Type("Span").Type()
		if m.st == nil {
			return &AddrV{ref: r, st: t}, true
		}
		x.assumeInv(m, &AddrV{ref: r, st: t})
		return x.loadObj(m.st, r, t, nil), true
	case "Error":
		if n := typeName(cc.Value.Type()); n == "error" {
			m.nonNil(args[0], in)
			return x.c.UF("errtext", SStr, args[0].(*Term)), true
		}
	case "String":
		if typeName(cc.Value.Type()) == "reflect.Type" {
			m.nonNil(args[0], in)
			return x.c.UF("rtypename", SStr, args[0].(*Term)), true
		}
	case "IsDir":
		if n := typeName(cc.Value.Type()); strings.HasSuffix(n, "FileInfo") {
			m.nonNil(args[0], in)
			return x.c.UF("isdir", SBool, args[0].(*Term)), true
		}
	case "isNode":
		return nil, true
	}
	return nil, false
}

// invokeContract uses a contract of an interface method, or the method of a known type.
func (x *Exec) invokeContract(st *State, f *Frame, in *ssa.Call, cc *ssa.CallCommon, args []Val) bool {
	r, ok := args[0].(*Term)
	if ok {
		if n, isN := cc.Value.Type().(*types.Named); isN && n.Obj().Pkg() != nil {
			k := n.Obj().Pkg().Path() + "." + n.Obj().Name() + "_" + cc.Method.Name()
			if cfn := x.p.contracts[k]; cfn != nil {
				b := x.evalContract(st, cfn, args).resolve(x, st)
				name := shortKey(k)
				x.used[name] = true
				x.oblige(st, "nil dereference", x.c.Not(x.c.Eq(r, x.c.Int(0))), in)
				x.publishAll(st, args, in)
				for _, q := range b.requires {
					x.oblige(st, "precondition of "+name, q, in)
				}
				return x.applyContract(st, f, in, cc.Signature().Results(), b, name)
			}
		}
		tag := x.tag(r)
		if tag.isInt() {
			for s, id := range x.knownTags() {
				if int64(id) != tag.i64() {
					continue
				}
				ty := x.p.typeByString(s)
				if ty == nil {
					break
				}
				fn := x.p.prog.LookupMethod(ty, cc.Method.Pkg(), cc.Method.Name())
				if fn == nil {
					break
				}
				recv := Val(r)
				if _, isP := ty.Underlying().(*types.Pointer); !isP {
					recv = x.mach(st).unbox(r, ty)
				}
				x.enter(st, fn, append([]Val{recv}, args[1:]...), nil, in)
				return true
			}
		}
	}
	panic(unsupported("interface call " + cc.Method.FullName()))
}

// lib models functions outside the repository.
func (m *mach) lib(fn *ssa.Function, args []Val, cc *ssa.CallCommon, in *ssa.Call) (Val, bool) {
	x, c := m.x, m.x.c
	if fn.Pkg != nil && x.p.pkgs[fn.Pkg.Pkg.Path()] != nil {
		if fn.Pkg.Pkg.Path() == specPath || isLemma(fn.Name()) {
			if m.spec {
				return nil, false
			}
			sm := x.specMach(m.st)
			if isLemma(fn.Name()) {
				return sm.useLemma(fn, args), true
			}
			switch fn.Name() {
			case "Implies":
				return c.Implies(args[0].(*Term), args[1].(*Term)), true
			case "Use":
				return c.True(), true
			case "Forall":
				return sm.forall(args, c.True()), true
			}
			if v, ok := sm.specIntrinsic(fn.Name(), args); ok {
				return v, true
			}
			return nil, true // directives: already taken into account
		}
		return nil, false
	}
	n := fn.String()
	use := func() { x.used["model of "+n] = true }
	str := func(i int) *Term { return args[i].(*Term) }
	bits := func(n *Term) *Term { // ParseFloat only distinguishes 32
		if n.isInt() && n.i64() != 32 {
			return c.Int(64)
		}
		return n
	}
	switch n {
	case "unicode/utf8.DecodeRuneInString":
		use()
		r, w := x.runeAt(str(0), c.Int(0))
		return TupleV{r, w}, true
	case "unicode/utf8.RuneCountInString":
		use()
		t := c.UF("runecount", SInt, str(0))
		if t.facts == nil {
			t.facts = []*Term{c.Le(c.Int(0), t), c.Le(t, c.Slen(str(0)))}
		}
		return t, true
	case "strings.HasPrefix":
		use()
		s, p := str(0), str(1)
		if p.op == "str" {
			cs := []*Term{c.Le(c.Int(int64(len(p.name))), c.Slen(s))}
			for i := 0; i < len(p.name); i++ {
				cs = append(cs, c.Eq(c.Sat(s, c.Int(int64(i))), c.Int(int64(p.name[i]))))
			}
			return c.And(cs...), true
		}
		return c.UF("hasprefix", SBool, s, p), true
	case "strings.HasSuffix", "strings.Contains", "strings.EqualFold":
		use()
		return c.UF(strings.ToLower(strings.Replace(n, ".", "", -1)), SBool, str(0), str(1)), true
	case "strings.ContainsRune":
		use()
		return c.UF("containsrune", SBool, str(0), str(1)), true
	case "strings.Count", "strings.Index", "strings.LastIndex":
		use()
		t := c.UF(clean(n), SInt, str(0), str(1))
		if t.facts == nil {
			if n == "strings.Count" {
				t.facts = []*Term{c.Le(c.Int(0), t)}
			} else {
				t.facts = []*Term{c.Le(c.Int(-1), t), c.Le(c.Add(t, c.Slen(str(1))), c.Slen(str(0)))}
				t.facts[1] = c.Or(c.Lt(t, c.Int(0)), t.facts[1])
			}
		}
		return t, true
	case "strings.Repeat":
		use()
		m.check("strings.Repeat count", c.Le(c.Int(0), str(1)), in)
		t := c.UF("srepeat", SStr, str(0), str(1))
		return t, true
	case "strings.ReplaceAll":
		use()
		return c.UF("sreplaceall", SStr, str(0), str(1), str(2)), true
	case "strings.ToLower", "strings.TrimSpace":
		use()
		return c.UF(clean(n), SStr, str(0)), true
	case "strings.TrimPrefix", "strings.TrimRight", "strings.TrimSuffix", "strings.TrimLeft":
		use()
		return c.UF(clean(n), SStr, str(0), str(1)), true
	case "(*strings.Builder).WriteString":
		use()
		m.builderAdd(args[0], str(1), in)
		return TupleV{c.Slen(str(1)), c.Int(0)}, true
	case "(*strings.Builder).WriteRune":
		use()
		s := c.Chr(str(1))
		m.builderAdd(args[0], s, in)
		return TupleV{c.Slen(s), c.Int(0)}, true
	case "(*strings.Builder).WriteByte":
		use()
		m.builderAdd(args[0], c.Chr(str(1)), in) // bytes below 128 only
		m.check("WriteByte of ASCII", c.Lt(str(1), c.Int(128)), in)
		return c.Int(0), true
	case "(*strings.Builder).Write":
		use()
		m.builderAdd(args[0], m.convert(str(1), types.NewSlice(types.Typ[types.Uint8]), types.Typ[types.String]).(*Term), in)
		return TupleV{c.Len(str(1)), c.Int(0)}, true
	case "(*strings.Builder).String":
		use()
		return m.builderGet(args[0], in), true
	case "(*strings.Builder).Len":
		use()
		return c.Slen(m.builderGet(args[0], in)), true
	case "(*strings.Builder).Grow", "(*strings.Builder).Reset":
		use()
		if n == "(*strings.Builder).Reset" {
			m.builderSet(args[0], c.Str(""), in)
		}
		return nil, true
	case "fmt.Sprintf", "fmt.Errorf", "fmt.Sprint", "fmt.Sprintln", "errors.New", "github.com/samsarahq/go/oops.Wrapf", "github.com/samsarahq/go/oops.Errorf":
		use()
		if n == "fmt.Sprintf" || n == "fmt.Sprint" || n == "fmt.Sprintln" {
			return m.sprintf(args), true
		}
		e := x.fresh("error", fn.Signature.Results().At(0).Type()).(*Term)
		if strings.HasSuffix(n, "Wrapf") {
			x.assume(m.st, c.Eq(c.Eq(e, c.Int(0)), c.Eq(str(0), c.Int(0))))
		} else {
			x.assume(m.st, c.Not(c.Eq(e, c.Int(0))))
		}
		return e, true
	case "strconv.ParseFloat":
		use()
		return TupleV{c.UF("parsefloat", SFlt, str(0), bits(str(1))), c.UF("parsefloaterr", SInt, str(0), bits(str(1)))}, true
	case "strconv.FormatFloat":
		use()
		return c.UF("formatfloat", SStr, str(0), str(1), str(2), str(3)), true
	case "strconv.Itoa":
		use()
		return c.UF("itoa", SStr, str(0)), true
	case "strconv.ParseInt":
		use()
		return x.fresh("parseint", fn.Signature.Results()), true
	case "math.IsInf", "math.IsNaN":
		use()
		as := []*Term{}
		for i := range args {
			as = append(as, str(i))
		}
		return c.UF(clean(n), SBool, as...), true
	case "(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock":
		use()
		return nil, true
	case "reflect.TypeOf":
		use()
		t := x.fresh("rtype", fn.Signature.Results().At(0).Type())
		x.assume(m.st, c.Or(c.Eq(str(0), c.Int(0)), c.Not(c.Eq(t.(*Term), c.Int(0)))))
		return t, true
	case "errors.As":
		// the first error in the chain that implements an interface
		a, ok := args[1].(*AddrV)
		if !ok || a.ref != nil {
			panic(unsupported("errors.As of this target"))
		}
		use()
		old := x.load(m.st, a, nil).(*Term)
		is := c.UF("errors.As", SBool, str(0))
		e := c.UF("errors.As.value", SInt, str(0))
		e.addFact(c.Or(c.Not(is), c.Not(c.Eq(e, c.Int(0)))))
		is.addFact(c.Or(c.Not(is), c.Not(c.Eq(str(0), c.Int(0)))))
		c.markRef(e, 1)
		x.store(m.st, a, nil, c.Ite(is, e, old))
		return is, true
	case "encoding/json.Marshal":
		r := str(0)
		if tag := x.tag(r); tag.isInt() && tag.i64() == int64(ptrTag(types.Typ[types.String])) {
			use()
			s := m.unbox(r, types.Typ[types.String]).(*Term)
			return TupleV{c.UF("json", SSeq, s), c.Int(0)}, true
		}
		use()
		return x.fresh("json.Marshal", resultType(fn)), true
	case "(*encoding/base64.Encoding).EncodeToString":
		use()
		return c.UF("base64", SStr, str(0), str(1)), true
	case "os.Stat":
		// what there is at a path does not change while the function runs
		use()
		info, err := c.UF("os.Stat.info", SInt, str(0)), c.UF("os.Stat.err", SInt, str(0))
		f := c.Eq(c.Eq(err, c.Int(0)), c.Not(c.Eq(info, c.Int(0))))
		info.addFact(f)
		err.addFact(f)
		return TupleV{info, err}, true
	case "os.IsNotExist":
		use()
		return c.And(c.Not(c.Eq(str(0), c.Int(0))), c.UF("os.IsNotExist", SBool, str(0))), true
	case "os.ReadFile", "io/ioutil.ReadFile":
		use()
		return TupleV{c.UF("os.ReadFile", SSeq, str(0)), c.UF("os.ReadFile.err", SInt, str(0))}, true
	case "encoding/json.Unmarshal":
		if r := str(1); ownAlloc(r) {
			if s, ok := isStruct(x.allocT[int(-r.i64())]); ok && m.st != nil {
				use()
				for _, l := range leaves(x.allocT[int(-r.i64())]) {
					name := ""
					for i := 0; i < s.NumFields(); i++ {
						if strings.HasSuffix(l.key, "."+s.Field(i).Name()) {
							name, _, _ = strings.Cut(reflect.StructTag(s.Tag(i)).Get("json"), ",")
							if name == "" {
								name = s.Field(i).Name()
							}
						}
					}
					a := x.arr(m.st, l.key, l.sort)
					if name == "" || l.sort != SStr {
						panic(unsupported("json.Unmarshal into " + l.key))
					}
					// a key that is absent leaves the field as it is
					m.st.heap[l.key] = c.Store(a, c.UF("json.Unmarshal", SStr, str(0), c.Str(strings.ToLower(name)), c.Sel(a, false, r)), r)
				}
				return c.UF("json.Unmarshal.err", SInt, str(0)), true
			}
		}
		panic(unsupported("json.Unmarshal into an unknown object"))
	case "path/filepath.Abs", "path/filepath.Rel", "os.Getwd":
		use()
		v := x.fresh(clean(n), resultType(fn))
		return v, true
	case "path/filepath.Join", "path/filepath.Dir", "path/filepath.Ext", "path/filepath.Base", "path/filepath.Clean", "path.Join":
		use()
		var as []*Term
		for i := range args {
			as = append(as, str(i))
		}
		t := c.UF(clean(n), SStr, as...)
		if n == "path/filepath.Dir" {
			t.addFact(c.Not(c.Eq(t, c.Str(""))))
			t.addFact(c.Or(c.Eq(t, as[0]), c.Eq(t, c.Str(".")), c.Lt(c.Slen(t), c.Slen(as[0]))))
			t.addFact(c.Eq(c.UF(clean(n), SStr, c.Str(".")), c.Str(".")))
		}
		return t, true
	case "path/filepath.IsAbs":
		use()
		return c.UF(clean(n), SBool, str(0)), true
	case "sort.Search":
		use()
		return m.sortSearch(args, in), true
	}
	if fn.Pkg != nil && fn.Signature.Recv() == nil && functions[fn.Pkg.Pkg.Path()] && n != "unicode/utf8.EncodeRune" {
		if v, ok := m.function(fn, n, args); ok {
			use()
			return v, true
		}
	}
	return nil, false
}

// functions are packages whose functions are functions of their arguments alone.
var functions = map[string]bool{"strings": true, "strconv": true, "unicode": true, "unicode/utf8": true, "path": true, "path/filepath": true,
	"errors": true, "math": true, "bytes": true}

// function models a function by its name: that it yields the same for the same.
func (m *mach) function(fn *ssa.Function, n string, args []Val) (Val, bool) {
	x, c := m.x, m.x.c
	var as []*Term
	for i := range args {
		t, ok := args[i].(*Term)
		if !ok {
			return nil, false
		}
		switch u := fn.Signature.Params().At(i).Type().Underlying().(type) {
		case *types.Basic:
		case *types.Slice:
			if _, ok := u.Elem().Underlying().(*types.Basic); !ok {
				return nil, false
			}
		case *types.Interface:
			if typeName(fn.Signature.Params().At(i).Type()) != "error" {
				return nil, false
			}
		default:
			return nil, false
		}
		as = append(as, t)
	}
	var out TupleV
	for i := 0; i < fn.Signature.Results().Len(); i++ {
		t := fn.Signature.Results().At(i).Type()
		switch u := t.Underlying().(type) {
		case *types.Basic:
		case *types.Slice:
			if _, ok := u.Elem().Underlying().(*types.Basic); !ok {
				return nil, false
			}
		default:
			if typeName(t) != "error" {
				return nil, false
			}
		}
		name := clean(n)
		if i > 0 {
			name += fmt.Sprintf(".%d", i)
		}
		r := c.UF(name, sortOf(t), as...)
		if typeName(t) == "error" {
			c.markRef(r, 1)
		} else {
			x.typed(r, t)
		}
		out = append(out, r)
	}
	if len(out) == 1 {
		return out[0], true
	}
	return out, true
}

func resultType(fn *ssa.Function) types.Type {
	rs := fn.Signature.Results()
	if rs.Len() == 1 {
		return rs.At(0).Type()
	}
	return rs
}

// sortSearch: the function is false before the result and true at it (it is assumed monotone where
// the caller's data is sorted; these two facts need no such assumption).
func (m *mach) sortSearch(args []Val, in *ssa.Call) Val {
	x, c := m.x, m.x.c
	n := args[0].(*Term)
	f, ok := args[1].(*FnV)
	if !ok {
		panic(unsupported("sort.Search with unknown function"))
	}
	// the function must be safe for every index
	k := x.fresh("search.k", types.Typ[types.Int]).(*Term)
	st2 := m.st.clone()
	x.assume(st2, c.And(c.Le(c.Int(0), k), c.Lt(k, n)))
	m2 := &mach{x: x, st: st2, spec: false}
	m2.check = func(kind string, cond *Term, in ssa.Instruction) { x.oblige(st2, kind, cond, in) }
	m2.callFn(f.fn, []Val{k}, f.binds, c.True())
	i := x.fresh("search", types.Typ[types.Int]).(*Term)
	x.assume(m.st, c.And(c.Le(c.Int(0), i), c.Le(i, n)))
	sm := x.specMach(m.st)
	prev := sm.callFn(f.fn, []Val{c.Sub(i, c.Int(1))}, f.binds, c.True()).(*Term)
	at := sm.callFn(f.fn, []Val{i}, f.binds, c.True()).(*Term)
	x.assume(m.st, c.Implies(c.Lt(c.Int(0), i), c.Not(prev)))
	x.assume(m.st, c.Implies(c.Lt(i, n), at))
	return i
}

func (m *mach) builderT() types.Type { return m.x.p.builderType }

func (m *mach) builderGet(p Val, in ssa.Instruction) *Term {
	m.nonNil(p, in)
	return m.x.load(m.st, p, m.builderT()).(*Term)
}

func (m *mach) builderSet(p Val, v *Term, in ssa.Instruction) {
	m.nonNil(p, in)
	m.x.store(m.st, p, m.builderT(), v)
}

func (m *mach) builderAdd(p Val, s *Term, in ssa.Instruction) {
	m.builderSet(p, m.x.c.Scat(m.builderGet(p, in), s), in)
}

// sprintf formats: %s, %d and text when the arguments are boxed values of known types.
func (m *mach) sprintf(args []Val) Val {
	x, c := m.x, m.x.c
	f, ok := args[0].(*Term)
	if !ok || f.op != "str" || len(args) < 2 {
		return x.fresh("sprintf", types.Typ[types.String])
	}
	var elems []*Term
	t := args[1].(*Term)
	for t.op == "snoc" {
		elems = append([]*Term{t.args[1]}, elems...)
		t = t.args[0]
	}
	out := c.Str("")
	k := 0
	s := f.name
	for i := 0; i < len(s); i++ {
		if s[i] != '%' || i+1 >= len(s) {
			out = c.Scat(out, c.Str(s[i:i+1]))
			continue
		}
		i++
		if s[i] == '%' {
			out = c.Scat(out, c.Str("%"))
			continue
		}
		if k >= len(elems) {
			return x.fresh("sprintf", types.Typ[types.String])
		}
		e := elems[k]
		k++
		tag := x.tag(e)
		switch {
		case (s[i] == 's' || s[i] == 'v') && tag.isInt() && tag.i64() == int64(typeID("string")):
			out = c.Scat(out, m.unbox(e, types.Typ[types.String]).(*Term))
		case (s[i] == 'd' || s[i] == 'v') && tag.isInt() && tag.i64() == int64(typeID("int")):
			out = c.Scat(out, c.UF("itoa", SStr, m.unbox(e, types.Typ[types.Int]).(*Term)))
		case (s[i] == 'd' || s[i] == 'v') && tag.isInt() && tag.i64() == int64(typeID("int32")):
			out = c.Scat(out, c.UF("itoa", SStr, m.unbox(e, types.Typ[types.Int32]).(*Term)))
		default:
			return x.fresh("sprintf", types.Typ[types.String])
		}
	}
	return out
}
