package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is a symbolic value: *Term, *StructV, TupleV, *FnV, *AddrV, *IterV or nil (no value).
type Val interface{}

// StructV is a struct held by value.
type StructV struct {
	t types.Type
	f []Val
}

// TupleV is a multiple result.
type TupleV []Val

// FnV is a function with its captured variables.
type FnV struct {
	fn    *ssa.Function
	binds []Val
	bi    *ssa.Builtin
}

// AddrV is a pointer to something other than a whole heap object: a local cell or part of an
// object, a cell or a slice.
type AddrV struct {
	cell   int   // local cell, if ref and seq are nil
	ref    *Term // heap object
	st     types.Type
	global *ssa.Global
	seq    *Term // element of a slice value: read only
	path   []step
}

type step struct {
	field int
	idx   *Term
	typ   types.Type // type of what the step is applied to
}

// IterV is a range iterator over a string or map.
type IterV struct {
	cell int
	str  *Term
	m    *Term
	mt   *types.Map
}

type leaf struct {
	path []int
	typ  types.Type
	sort Sort
	key  string
}

func typeName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// opaque struct types are one leaf.
func opaqueSort(t types.Type) (Sort, bool) {
	switch types.TypeString(t, nil) {
	case "strings.Builder":
		return SStr, true
	case "sync.Mutex", "sync.RWMutex", "golang.org/x/sync/errgroup.Group", "sync.WaitGroup", "sync.Once":
		return SInt, true
	}
	return "", false
}

func isStruct(t types.Type) (*types.Struct, bool) {
	if _, ok := opaqueSort(t); ok {
		return nil, false
	}
	s, ok := t.Underlying().(*types.Struct)
	return s, ok
}

func sortOf(t types.Type) Sort {
	if s, ok := opaqueSort(t); ok {
		return s
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return SBool
		case u.Info()&types.IsString != 0:
			return SStr
		case u.Info()&types.IsFloat != 0:
			return SFlt
		}
		return SInt
	case *types.Slice, *types.Array:
		return SSeq
	}
	return SInt
}

func isRefType(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Map, *types.Chan, *types.Signature:
		return true
	}
	return false
}

// leaves flattens a type.
func leaves(t types.Type) []leaf {
	return leavesAt(t, typeName(t), nil)
}

func leavesAt(t types.Type, key string, path []int) []leaf {
	if s, ok := isStruct(t); ok {
		var out []leaf
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			p := append(append([]int{}, path...), i)
			k := key + "." + f.Name()
			if _, isS := isStruct(f.Type()); isS && f.Embedded() {
				k = typeName(f.Type())
			}
			out = append(out, leavesAt(f.Type(), k, p)...)
		}
		return out
	}
	return []leaf{{path, t, sortOf(t), key}}
}

// subLeaves are the leaves of struct type t below path.
func subLeaves(t types.Type, path []int) []leaf {
	var out []leaf
	for _, l := range leaves(t) {
		if len(l.path) >= len(path) {
			ok := true
			for i := range path {
				ok = ok && l.path[i] == path[i]
			}
			if ok {
				out = append(out, l)
			}
		}
	}
	return out
}

func typeAt(t types.Type, path []int) types.Type {
	for _, i := range path {
		s, _ := isStruct(t)
		t = s.Field(i).Type()
	}
	return t
}

// flatten lists the leaf terms of a value.
func (x *Exec) flatten(v Val, t types.Type) []*Term {
	switch v := v.(type) {
	case *StructV:
		s, _ := isStruct(v.t)
		var out []*Term
		for i := range v.f {
			out = append(out, x.flatten(v.f[i], s.Field(i).Type())...)
		}
		return out
	case *Term:
		return []*Term{v}
	case *FnV, *AddrV:
		return []*Term{x.intern(v)}
	}
	panic(unsupported(fmt.Sprintf("flatten %T", v)))
}

func (x *Exec) unflatten(ts []*Term, t types.Type) Val {
	v, rest := x.unflat(ts, t)
	if len(rest) != 0 {
		panic(unsupported("unflatten " + t.String()))
	}
	return v
}

func (x *Exec) unflat(ts []*Term, t types.Type) (Val, []*Term) {
	if s, ok := isStruct(t); ok {
		sv := &StructV{t: t}
		for i := 0; i < s.NumFields(); i++ {
			var f Val
			f, ts = x.unflat(ts, s.Field(i).Type())
			sv.f = append(sv.f, f)
		}
		return sv, ts
	}
	if len(ts) == 0 {
		panic(unsupported("unflat"))
	}
	return x.unintern(ts[0], t), ts[1:]
}

func (x *Exec) intern(v Val) *Term {
	x.interned = append(x.interned, v)
	return x.c.Int(int64(-(internBase + len(x.interned) - 1)))
}

// unintern gives back function values and interior pointers.
func (x *Exec) unintern(t *Term, typ types.Type) Val {
	if t.isInt() && t.i64() <= -internBase {
		if n := int(-t.i64()) - internBase; n < len(x.interned) {
			return x.interned[n]
		}
	}
	return t
}

// zero is the zero value of a type.
func (x *Exec) zero(t types.Type) Val {
	if s, ok := isStruct(t); ok {
		sv := &StructV{t: t}
		for i := 0; i < s.NumFields(); i++ {
			sv.f = append(sv.f, x.zero(s.Field(i).Type()))
		}
		return sv
	}
	if a, ok := t.Underlying().(*types.Array); ok {
		return x.c.Fill(x.c.Int(a.Len()), x.flatten(x.zero(a.Elem()), a.Elem())...)
	}
	switch sortOf(t) {
	case SBool:
		return x.c.False()
	case SStr:
		return x.c.Str("")
	case SSeq:
		return x.c.Nil()
	case SFlt:
		return x.c.Sym("flt!0", SFlt)
	}
	return x.c.Int(0)
}

// fresh is an unknown value of a type.
func (x *Exec) fresh(hint string, t types.Type) Val {
	if tu, ok := t.(*types.Tuple); ok {
		var out TupleV
		for i := 0; i < tu.Len(); i++ {
			out = append(out, x.fresh(hint, tu.At(i).Type()))
		}
		return out
	}
	if s, ok := isStruct(t); ok {
		sv := &StructV{t: t}
		for i := 0; i < s.NumFields(); i++ {
			sv.f = append(sv.f, x.fresh(hint+"."+s.Field(i).Name(), s.Field(i).Type()))
		}
		return sv
	}
	v := x.c.Fresh(hint, sortOf(t))
	x.typed(v, t)
	return v
}

// typed adds the facts that the type of a term gives.
func (x *Exec) typed(v *Term, t types.Type) {
	c := x.c
	if v.sort != SInt || v.isInt() || v.op == "ite" || v.op == "+" {
		return
	}
	if isRefType(t) {
		c.markRef(v, c.alloc+1)
		x.static(v, t)
		return
	}
	if b, ok := t.Underlying().(*types.Basic); ok {
		lo, hi, ok := intRange(b)
		if !ok {
			return
		}
		for _, f := range v.facts {
			if f.op == "<=" && f.args[0] == v {
				return
			}
		}
		v.facts = append(v.facts, c.mk("<=", SBool, "", nil, v, c.Int(hi)), c.mk("<=", SBool, "", nil, c.Int(lo), v))
	}
}

func intRange(b *types.Basic) (lo, hi int64, ok bool) {
	switch b.Kind() {
	case types.Int8:
		return -1 << 7, 1<<7 - 1, true
	case types.Int16:
		return -1 << 15, 1<<15 - 1, true
	case types.Int32, types.UntypedRune:
		return -1 << 31, 1<<31 - 1, true
	case types.Uint8:
		return 0, 1<<8 - 1, true
	case types.Uint16:
		return 0, 1<<16 - 1, true
	case types.Uint32:
		return 0, 1<<32 - 1, true
	}
	return 0, 0, false
}

// wrap reduces a mathematical integer to a type that is narrower than 64 bits.
func (m *mach) wrap(v *Term, t types.Type) *Term {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return v
	}
	lo, hi, ok := intRange(b)
	if !ok {
		return v // 64-bit: mathematical
	}
	c := m.x.c
	if m.within(v, lo, hi, true) {
		return v
	}
	return c.Add(c.Mod(c.Sub(v, c.Int(lo)), hi-lo+1), c.Int(lo))
}

type unsupportedErr string

func unsupported(s string) unsupportedErr { return unsupportedErr(s) }

// showVal is for reports.
func showVal(v Val) string {
	switch v := v.(type) {
	case *Term:
		return showN(v, 5)
	case *StructV:
		var ss []string
		for _, f := range v.f {
			ss = append(ss, showVal(f))
		}
		return "{" + strings.Join(ss, " ") + "}"
	case TupleV:
		var ss []string
		for _, f := range v {
			ss = append(ss, showVal(f))
		}
		return "(" + strings.Join(ss, ", ") + ")"
	case *FnV:
		if v.fn != nil {
			return v.fn.Name()
		}
	}
	return fmt.Sprintf("%T", v)
}
