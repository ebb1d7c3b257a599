package main

import (
	"math/big"
	"time"
)

type ival struct{ lo, hi *big.Int }

// bounds is an interval for t from its form and the facts of the path.
func (m *mach) bounds(t *Term) ival {
	b := &bounder{m: m, atoms: map[int]ival{}, memo: map[int]ival{}}
	if m.st != nil {
		for _, p := range m.st.pc {
			b.learn(p)
		}
	}
	if m.guard != nil {
		b.learn(m.guard)
	}
	return b.of(t)
}

type bounder struct {
	m     *mach
	atoms map[int]ival
	memo  map[int]ival
	depth int
}

func (b *bounder) learn(p *Term) {
	c := b.m.x.c
	switch p.op {
	case "and":
		for _, a := range p.args {
			b.learn(a)
		}
	case "<=":
		b.linear(c.Sub(p.args[1], p.args[0]))
	case "not":
		if q := p.args[0]; q.op == "<=" {
			b.linear(c.Sub(c.Sub(q.args[0], q.args[1]), c.Int(1)))
		}
	case "=":
		if p.args[0].sort == SInt {
			if p.args[0].isInt() {
				b.narrow(p.args[1], p.args[0].n, p.args[0].n)
			} else if p.args[1].isInt() {
				b.narrow(p.args[0], p.args[1].n, p.args[1].n)
			}
		}
	}
}

// linear learns from d >= 0.
func (b *bounder) linear(d *Term) {
	ms := map[int]*big.Int{}
	ts := map[int]*Term{}
	k := big.NewInt(0)
	b.m.x.c.lin(d, big.NewInt(1), ms, ts, k)
	if len(ms) != 1 {
		return
	}
	for id, f := range ms {
		t := ts[id]
		// f*t + k >= 0
		switch f.Sign() {
		case 1:
			// t >= ceil(-k/f)
			q := new(big.Int).Neg(k)
			q = ceilDiv(q, f)
			b.narrow(t, q, nil)
		case -1:
			q := floorDiv(k, new(big.Int).Neg(f))
			b.narrow(t, nil, q)
		}
	}
}

func floorDiv(a, d *big.Int) *big.Int {
	q, r := new(big.Int), new(big.Int)
	q.DivMod(a, d, r)
	return q
}

func ceilDiv(a, d *big.Int) *big.Int {
	return new(big.Int).Neg(floorDiv(new(big.Int).Neg(a), d))
}

func (b *bounder) narrow(t *Term, lo, hi *big.Int) {
	v := b.atoms[t.id]
	b.atoms[t.id] = meet(v, ival{lo, hi})
}

func meet(a, b ival) ival {
	if b.lo != nil && (a.lo == nil || b.lo.Cmp(a.lo) > 0) {
		a.lo = b.lo
	}
	if b.hi != nil && (a.hi == nil || b.hi.Cmp(a.hi) < 0) {
		a.hi = b.hi
	}
	return a
}

func (b *bounder) of(t *Term) ival {
	if v, ok := b.memo[t.id]; ok {
		return v
	}
	b.memo[t.id] = ival{}
	v := b.of1(t)
	v = meet(v, b.atoms[t.id])
	for _, f := range t.facts {
		if f.op == "<=" {
			if f.args[0] == t && f.args[1].isInt() {
				v = meet(v, ival{nil, f.args[1].n})
			}
			if f.args[1] == t && f.args[0].isInt() {
				v = meet(v, ival{f.args[0].n, nil})
			}
		}
	}
	b.memo[t.id] = v
	return v
}

func (b *bounder) of1(t *Term) ival {
	switch t.op {
	case "int":
		return ival{t.n, t.n}
	case "mod":
		v := b.of(t.args[0])
		k := t.args[1].n
		if v.lo != nil && v.hi != nil && v.lo.Sign() >= 0 && v.hi.Cmp(k) < 0 {
			return v
		}
		return ival{big.NewInt(0), new(big.Int).Sub(k, big.NewInt(1))}
	case "div":
		v := b.of(t.args[0])
		var o ival
		if v.lo != nil {
			o.lo = floorDiv(v.lo, t.args[1].n)
		}
		if v.hi != nil {
			o.hi = floorDiv(v.hi, t.args[1].n)
		}
		return o
	case "*":
		v := b.of(t.args[1])
		f := t.args[0].n
		var o ival
		if v.lo != nil {
			o.lo = new(big.Int).Mul(v.lo, f)
		}
		if v.hi != nil {
			o.hi = new(big.Int).Mul(v.hi, f)
		}
		if f.Sign() < 0 {
			o.lo, o.hi = o.hi, o.lo
		}
		return o
	case "+":
		o := ival{big.NewInt(0), big.NewInt(0)}
		for _, a := range t.args {
			v := b.of(a)
			if v.lo == nil {
				o.lo = nil
			}
			if v.hi == nil {
				o.hi = nil
			}
			if o.lo != nil {
				o.lo = new(big.Int).Add(o.lo, v.lo)
			}
			if o.hi != nil {
				o.hi = new(big.Int).Add(o.hi, v.hi)
			}
		}
		return o
	case "ite":
		g := t.args[0]
		if st := b.m.st; st != nil && !g.bound {
			if st.pcSet[g.id] {
				return b.of(t.args[1])
			}
			if st.pcSet[b.m.x.c.Not(g).id] {
				return b.of(t.args[2])
			}
		}
		x, y := b.under(g).of(t.args[1]), b.under(b.m.x.c.Not(g)).of(t.args[2])
		var o ival
		if x.lo != nil && y.lo != nil {
			o.lo = x.lo
			if y.lo.Cmp(x.lo) < 0 {
				o.lo = y.lo
			}
		}
		if x.hi != nil && y.hi != nil {
			o.hi = x.hi
			if y.hi.Cmp(x.hi) > 0 {
				o.hi = y.hi
			}
		}
		return o
	}
	if l, ok := b.m.x.c.lower(t); ok {
		return ival{l, nil}
	}
	return ival{}
}

// within holds if t is surely between lo and hi.
func (m *mach) within(t *Term, lo, hi int64, ask bool) bool {
	v := m.bounds(t)
	if v.lo != nil && v.hi != nil && v.lo.Cmp(big.NewInt(lo)) >= 0 && v.hi.Cmp(big.NewInt(hi)) <= 0 {
		return true
	}
	if !ask || m.spec || m.st == nil || t.bound {
		return false
	}
	x, c := m.x, m.x.c
	st := m.st.clone()
	if m.guard != nil {
		x.assume(st, m.guard)
	}
	g := c.And(c.Le(c.Int(lo), t), c.Le(t, c.Int(hi)))
	return x.sol.run(c.script(append(append([]*Term{}, st.pc...), c.Not(g)), 1), 1500*time.Millisecond) == "unsat"
}

// under is b with g known as well.
func (b *bounder) under(g *Term) *bounder {
	if b.depth > 3 || g.op != "<=" && g.op != "not" && g.op != "and" {
		return b
	}
	n := &bounder{m: b.m, atoms: map[int]ival{}, memo: map[int]ival{}, depth: b.depth + 1}
	for k, v := range b.atoms {
		n.atoms[k] = v
	}
	n.learn(g)
	return n
}
