package main

// Field towers: GF(p^2) over integers (C19), GF(p^6) and GF(p^12) over
// formal GF(p^2) elements (C20).

import (
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

func (h *H) bnField() {
	h.init(bnPkg)
	h.c.p = h.bigGlobal(bnPkg, "P")
	h.in.poolModel()
	h.in.protect = map[int]bool{}
	if !isPrime(h.c.p) || new(big.Int).And(h.c.p, bi(3)).Int64() != 3 {
		panic(undecided{"P is not a prime congruent to 3 modulo 4"})
	}
}

// opCase describes one operation on field elements.
type opCase struct {
	typ    string
	m      string
	n      int    // operands of the element type besides the receiver
	scalar string // "", "k2", "int"
	spec   func(c *Ctx, v [][]*Poly, s *Poly) []*Poly
	need   func(c *Ctx, v [][]*Poly) Bdd // precondition
	noret  bool
}

func (c *Ctx) I() *Poly { return c.atomPoly(c.atoms[c.imagI]) }

func (c *Ctx) kmul(a, b *Poly) *Poly { return c.reduce(c.mul(a, b), c.p) }

func (c *Ctx) xi() *Poly { return add(c.I(), csti(9)) }

// tower arithmetic on coefficient lists; gfP6 objects store x,y,z for
// x t^2 + y t + z, gfP12 objects store x,y for x w + y.
type ring struct {
	deg int // number of gfP2 coordinates: 1, 3, 6
}

func (c *Ctx) rmul(a, b []*Poly) []*Poly {
	switch len(a) {
	case 1:
		return []*Poly{c.kmul(a[0], b[0])}
	case 3:
		// indices: 0 -> t^2, 1 -> t, 2 -> 1
		co := make([]*Poly, 5)
		for i := range co {
			co[i] = &Poly{}
		}
		for i := 0; i < 3; i++ {
			for j := 0; j < 3; j++ {
				k := (2 - i) + (2 - j)
				co[k] = add(co[k], c.mul(a[i], b[j]))
			}
		}
		r := []*Poly{
			co[2],
			add(co[1], c.mul(c.xi(), co[4])),
			add(co[0], c.mul(c.xi(), co[3])),
		}
		for i := range r {
			r[i] = c.reduce(r[i], c.p)
		}
		return r
	case 6:
		ax, ay, bx, by := a[:3], a[3:], b[:3], b[3:]
		xx := c.rmulTau(c.rmul(ax, bx))
		yy := c.rmul(ay, by)
		xy := c.radd(c.rmul(ax, by), c.rmul(ay, bx))
		return append(append([]*Poly(nil), xy...), c.radd(xx, yy)...)
	}
	return nil
}

func (c *Ctx) rmulTau(a []*Poly) []*Poly { // times t in GF(p^6)
	return []*Poly{a[1], a[2], c.kmul(c.xi(), a[0])}
}
func (c *Ctx) radd(a, b []*Poly) []*Poly {
	r := make([]*Poly, len(a))
	for i := range a {
		r[i] = c.reduce(add(a[i], b[i]), c.p)
	}
	return r
}
func (c *Ctx) rsub(a, b []*Poly) []*Poly {
	r := make([]*Poly, len(a))
	for i := range a {
		r[i] = c.reduce(sub(a[i], b[i]), c.p)
	}
	return r
}
func (c *Ctx) rscale(a []*Poly, k *Poly) []*Poly {
	r := make([]*Poly, len(a))
	for i := range a {
		r[i] = c.kmul(a[i], k)
	}
	return r
}
func (c *Ctx) rzero(n int) []*Poly {
	r := make([]*Poly, n)
	for i := range r {
		r[i] = &Poly{}
	}
	return r
}
func (c *Ctx) rone(n int) []*Poly {
	r := c.rzero(n)
	r[n-1] = csti(1)
	return r
}
func (c *Ctx) requal(a, b []*Poly) int {
	for i := range a {
		if !c.equalMod(a[i], b[i], c.p) {
			return i
		}
	}
	return -1
}

// xiPow is xi^k in GF(p^2), k >= 0, as a constant polynomial.
func (c *Ctx) k2Exp(a *Poly, k *big.Int) *Poly {
	r := csti(1)
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = c.kmul(r, r)
		if k.Bit(i) == 1 {
			r = c.kmul(r, a)
		}
	}
	return r
}

// frob is the map a -> a^(p^k) on coefficient lists.
func (c *Ctx) frob(a []*Poly, k int) []*Poly {
	cj := func(x *Poly) *Poly {
		if k%2 == 1 {
			return c.reduce(c.conj(x), c.p)
		}
		return x
	}
	pk := new(big.Int).Exp(c.p, bi(int64(k)), nil)
	pm := new(big.Int).Sub(pk, b1)
	t1 := c.k2Exp(c.xi(), new(big.Int).Div(pm, bi(3))) // t^(p^k-1)
	switch len(a) {
	case 1:
		return []*Poly{cj(a[0])}
	case 3:
		return []*Poly{c.kmul(cj(a[0]), c.kmul(t1, t1)), c.kmul(cj(a[1]), t1), cj(a[2])}
	case 6:
		w1 := c.k2Exp(c.xi(), new(big.Int).Div(pm, bi(6))) // w^(p^k-1)
		x, y := c.frob(a[:3], k), c.frob(a[3:], k)
		return append(c.rscale(x, w1), y...)
	}
	return nil
}

func ringDim(typ string) int { return map[string]int{"gfP2": 1, "gfP6": 3, "gfP12": 6}[typ] }

// fieldCase runs one operation under every aliasing of its operands.
func (h *H) fieldCase(o opCase, mkNum func(string) Val) {
	fn := h.r.w.method(bnPkg, o.typ, o.m)
	if fn == nil || !h.sigOK(fn, o) {
		// not part of the interface: its callers are interpreted through it
		h.sample("%s.%s is not there with this signature", o.typ, o.m)
		return
	}
	pt := h.ptyp(bnPkg, o.typ)
	names := []string{"receiver", "a", "b", "c"}[:o.n+1]
	base := *h.st
	for _, part := range partitions(o.n + 1) {
		*h.st = base
		c := h.c
		objs := map[int]Val{}
		vals := map[int][]*Poly{}
		var args []Val
		var vs [][]*Poly
		for i, g := range part {
			if objs[g] == nil {
				objs[g] = h.mk(pt, names[i], mkNum)
				vals[g] = h.in.k2Of(h.st, objs[g], pt)
			}
			args = append(args, objs[g])
			if i > 0 {
				vs = append(vs, vals[g])
			}
		}
		if o.n == 0 {
			vs = append(vs, vals[0])
		}
		h.in.protect = map[int]bool{}
		prot := map[int][]PtrL{}
		for g, v := range objs {
			prot[g] = h.in.cells(h.st, v, pt)
			for _, p := range prot[g] {
				h.in.protect[p.obj] = true
			}
		}
		var s *Poly
		var sc Val
		switch o.scalar {
		case "k2":
			t2 := h.ptyp(bnPkg, "gfP2")
			sc = h.mk(t2, "s", mkNum)
			s = h.in.k2Of(h.st, sc, t2)[0]
			args = append(args, sc)
		case "int":
			s = c.sym("s", nil, nil)
			sc = h.in.newInt(h.st, s)
			args = append(args, sc)
		case "exp":
			s = c.sym("s", b0, nil)
			sc = h.in.newInt(h.st, s)
			args = append(args, sc)
		}
		if usesPool(fn) {
			args = append(args, h.pool())
		}
		if o.need != nil {
			h.st.pc = c.and(h.st.pc, o.need(c, vs))
		}
		before := map[int][]Val{}
		for g, ps := range prot {
			for _, p := range ps {
				before[g] = append(before[g], h.st.heap.get(p.obj))
			}
		}
		pc0 := h.st.pc
		ret := h.call(fn, args...)
		al := aliasName(part, names)
		where := h.r.w.pos(fn.Pos()) + " " + shortFn(fn)
		if !h.check(h.st.pc == pc0 || c.imp(pc0, h.st.pc), where, "%s does not return for all operands (%s)", o.m, al) {
			continue
		}
		got := h.in.k2Of(h.st, args[0], pt)
		want := o.spec(c, vs, s)
		i := c.requal(got, want)
		if i < 0 {
			h.check(true, where, "")
			h.sample("%s (%s): %s", shortFn(fn), al, fmtPolys(c, want))
		} else {
			h.check(false, where, "%s returns a wrong value (%s): coordinate %d is %s, should be %s", o.m, al, i, c.show(got[i]), c.show(want[i]))
		}
		// the other operands are unchanged
		for g, ps := range prot {
			if g == part[0] {
				continue
			}
			for j, p := range ps {
				h.check(sameVal(before[g][j], h.st.heap.get(p.obj)), where, "%s changes an operand that is not the receiver (%s)", o.m, al)
			}
		}
		if sc != nil && o.scalar != "k2" {
			p, _ := ptr1(sc)
			h.check(sameVal(h.st.heap.get(p.obj), num(s)), where, "%s changes its scalar", o.m)
		}
		// the result shares no number with another operand
		own := map[PtrL]bool{}
		for _, p := range h.in.cells(h.st, args[0], pt) {
			own[p] = true
		}
		for g, ps := range prot {
			if g == part[0] {
				continue
			}
			for _, p := range ps {
				h.check(!own[p], where, "%s: the result shares a number with an operand (%s)", o.m, al)
			}
		}
		if !o.noret && fn.Signature.Results().Len() == 1 {
			h.check(valKey(ret) == valKey(args[0]), where, "%s does not return its receiver", o.m)
		}
	}
	*h.st = base
}

func (h *H) sigOK(fn *ssa.Function, o opCase) bool {
	n := 1 + o.n
	if o.scalar != "" {
		n++
	}
	if usesPool(fn) {
		n++
	}
	return len(fn.Params) == n
}

func usesPool(fn *ssa.Function) bool {
	if fn == nil {
		return false
	}
	for _, p := range fn.Params {
		if pt, ok := p.Type().Underlying().(*types.Pointer); ok && isNamed(pt.Elem(), modPath+"/"+bnPkg+".bnPool") {
			return true
		}
	}
	return false
}

func un(f func(c *Ctx, a []*Poly) []*Poly) func(*Ctx, [][]*Poly, *Poly) []*Poly {
	return func(c *Ctx, v [][]*Poly, _ *Poly) []*Poly { return f(c, v[0]) }
}
func bin(f func(c *Ctx, a, b []*Poly) []*Poly) func(*Ctx, [][]*Poly, *Poly) []*Poly {
	return func(c *Ctx, v [][]*Poly, _ *Poly) []*Poly { return f(c, v[0], v[1]) }
}

func fieldOps(typ string) []opCase {
	d := ringDim(typ)
	ops := []opCase{
		{typ: typ, m: "Set", n: 1, spec: un(func(c *Ctx, a []*Poly) []*Poly { return a })},
		{typ: typ, m: "SetZero", n: 0, spec: un(func(c *Ctx, a []*Poly) []*Poly { return c.rzero(d) })},
		{typ: typ, m: "SetOne", n: 0, spec: un(func(c *Ctx, a []*Poly) []*Poly { return c.rone(d) })},
		{typ: typ, m: "Minimal", n: 0, spec: un(func(c *Ctx, a []*Poly) []*Poly { return a })},
		{typ: typ, m: "Negative", n: 1, spec: un(func(c *Ctx, a []*Poly) []*Poly { return c.rsub(c.rzero(d), a) })},
		{typ: typ, m: "Add", n: 2, spec: bin((*Ctx).radd)},
		{typ: typ, m: "Sub", n: 2, spec: bin((*Ctx).rsub)},
		{typ: typ, m: "Mul", n: 2, spec: bin((*Ctx).rmul)},
		{typ: typ, m: "Square", n: 1, spec: un(func(c *Ctx, a []*Poly) []*Poly { return c.rmul(a, a) })},
	}
	if typ != "gfP12" {
		ops = append(ops, opCase{typ: typ, m: "Double", n: 1, spec: un(func(c *Ctx, a []*Poly) []*Poly { return c.radd(a, a) })})
	}
	switch typ {
	case "gfP2":
		ops = append(ops,
			opCase{typ: typ, m: "Conjugate", n: 1, spec: un(func(c *Ctx, a []*Poly) []*Poly { return []*Poly{c.conj(a[0])} })},
			opCase{typ: typ, m: "MulXi", n: 1, spec: un(func(c *Ctx, a []*Poly) []*Poly { return c.rscale(a, c.xi()) })},
			opCase{typ: typ, m: "MulScalar", n: 1, scalar: "int", spec: func(c *Ctx, v [][]*Poly, s *Poly) []*Poly { return c.rscale(v[0], s) }},
		)
	case "gfP6":
		ops = append(ops,
			opCase{typ: typ, m: "Frobenius", n: 1, spec: un(func(c *Ctx, a []*Poly) []*Poly { return c.frob(a, 1) })},
			opCase{typ: typ, m: "FrobeniusP2", n: 1, spec: un(func(c *Ctx, a []*Poly) []*Poly { return c.frob(a, 2) })},
			opCase{typ: typ, m: "MulTau", n: 1, spec: un(func(c *Ctx, a []*Poly) []*Poly { return c.rmulTau(a) })},
			opCase{typ: typ, m: "MulScalar", n: 1, scalar: "k2", spec: func(c *Ctx, v [][]*Poly, s *Poly) []*Poly { return c.rscale(v[0], s) }},
			opCase{typ: typ, m: "MulGFP", n: 1, scalar: "int", spec: func(c *Ctx, v [][]*Poly, s *Poly) []*Poly { return c.rscale(v[0], s) }},
		)
	case "gfP12":
		ops = append(ops,
			opCase{typ: typ, m: "Conjugate", n: 1, spec: un(func(c *Ctx, a []*Poly) []*Poly {
				return append(c.rsub(c.rzero(3), a[:3]), a[3:]...)
			})},
			opCase{typ: typ, m: "Frobenius", n: 1, spec: un(func(c *Ctx, a []*Poly) []*Poly { return c.frob(a, 1) })},
			opCase{typ: typ, m: "FrobeniusP2", n: 1, spec: un(func(c *Ctx, a []*Poly) []*Poly { return c.frob(a, 2) })},
		)
	}
	return ops
}
