package main

import (
	"fmt"
	"go/types"
	"math/big"
)

func init() {
	props["C19"] = runC19
	props["C20"] = runC20
}

var _ types.Type

func bnType(n string) string { return modPath + "/" + bnPkg + "." + n }

func runC19(r *Run) {
	r.rule("for all operands and every aliasing of receiver and operands the coordinates written by the operation are, modulo P, the coordinates of the field element the operation stands for; operands other than the receiver keep their value; temporaries taken from the pool have unknown content")
	for _, o := range fieldOps("gfP2") {
		o := o
		r.sub("gfP2."+o.m, func(h *H) {
			h.bnField()
			h.fieldCase(o, h.freeNum)
			if o.m == "Mul" || o.m == "Square" {
				h.canonical("gfP2", o)
			}
		})
	}
	r.sub("gfP2.Invert", func(h *H) {
		h.bnField()
		o := opCase{typ: "gfP2", m: "Invert", n: 1, spec: un(func(c *Ctx, a []*Poly) []*Poly { return []*Poly{c.inverseK2(a[0])} }),
			need: func(c *Ctx, v [][]*Poly) Bdd { return c.not(c.zeroNorm(v[0][0])) }}
		h.fieldCase(o, h.freeNum)
		h.canonical("gfP2", o)
	})
	r.sub("gfP2.Exp", func(h *H) {
		h.bnField()
		h.in.views = map[string]*view{bnType("gfP2"): ringView("gfP2")}
		h.fieldCase(opCase{typ: "gfP2", m: "Exp", n: 1, scalar: "exp", spec: func(c *Ctx, v [][]*Poly, s *Poly) []*Poly { return c.ringPow(v[0], s) }}, h.freeNum)
	})
	r.sub("gfP2 Minimal reduces", func(h *H) {
		h.bnField()
		h.reduces("gfP2")
	})
	r.sub("gfP2 tests", func(h *H) {
		h.bnField()
		h.predicates("gfP2")
	})
}

// zeroNorm: x^2+y^2 = 0, i.e. the element is zero (P is 3 mod 4).
func (c *Ctx) zeroNorm(a *Poly) Bdd {
	re, im := c.splitI(a)
	return c.zeroModB(add(c.mul(re, re), c.mul(im, im)), c.p)
}

func (c *Ctx) inverseK2(a *Poly) *Poly {
	if c.hasK2(a) {
		return c.inverse(a, c.p)
	}
	re, im := c.splitI(a)
	n := c.inverse(add(c.mul(re, re), c.mul(im, im)), c.p)
	return c.kmul(sub(re, c.mul(c.I(), im)), n)
}

// canonical: the coordinates written are in [0,P).
func (h *H) canonical(typ string, o opCase) {
	fn := h.r.w.method(bnPkg, typ, o.m)
	if fn == nil || !h.sigOK(fn, o) {
		return
	}
	pt := h.ptyp(bnPkg, typ)
	args := []Val{h.mk(pt, "e", h.freeNum)}
	for i := 0; i < o.n; i++ {
		args = append(args, h.mk(pt, "abc"[i:i+1], h.freeNum))
	}
	if o.need != nil {
		h.st.pc = h.c.and(h.st.pc, o.need(h.c, [][]*Poly{h.in.k2Of(h.st, args[1], pt)}))
	}
	if usesPool(fn) {
		args = append(args, h.pool())
	}
	h.call(fn, args...)
	for i, v := range h.in.numsOf(h.st, args[0], pt) {
		for _, a := range v.(*GV).alts {
			n, ok := a.l.(NumL)
			good := false
			if ok {
				lo, hi := h.c.interval(n.p)
				good = lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(h.c.p) < 0
			}
			h.check(good, h.r.w.pos(fn.Pos())+" "+shortFn(fn), "coordinate %d is not reduced to [0,P)", i)
		}
	}
}

// predicates: IsZero and IsOne on reduced coordinates, in GF(p^12) also on
// coordinates that are not reduced: GT tests what sums and products leave.
func (h *H) predicates(typ string) {
	h.predicatesAt(typ, func(int) int64 { return 0 })
	if typ == "gfP12" {
		for _, k := range []int64{-2, -1, 1, 5} {
			k := k
			h.predicatesAt(typ, func(int) int64 { return k })
			h.predicatesAt(typ, func(i int) int64 { return (int64(i)*k)%4 - 1 })
			for j := 0; j < 12; j++ {
				j := j
				h.predicatesAt(typ, func(i int) int64 {
					if i == j {
						return k
					}
					return 0
				})
			}
		}
	}
}

// reduces: Minimal leaves coordinates in [0,p), whatever they were.
func (h *H) reduces(typ string) {
	pt := h.ptyp(bnPkg, typ)
	fn := h.method(bnPkg, typ, "Minimal")
	p := h.c.p
	for kase, g := range [][2]*big.Int{{nil, bi(-1)}, {b0, subB(p, 1)}, {p, nil}, {p, p}, {addB(p, 1), addB(p, 1)}, {new(big.Int).Neg(p), new(big.Int).Neg(p)}} {
		for j := -1; j < 2*ringDim(typ); j++ {
			i := 0
			a := h.mk(pt, "a", func(n string) Val {
				lo, hi := b0, subB(p, 1)
				if i == j || j < 0 {
					lo, hi = g[0], g[1]
				}
				i++
				if lo != nil && hi != nil && lo.Cmp(hi) == 0 {
					return num(cst(lo))
				}
				return num(h.c.sym(fmt.Sprintf("%s/%d", n, kase), lo, hi))
			})
			ns := h.in.numsOf(h.st, a, pt)
			h.call(fn, a)
			for k, v := range h.in.numsOf(h.st, a, pt) {
				want := h.in.onePoly(ns[k])
				gv, ok := v.(*GV)
				if !ok {
					panic(undecided{"coordinate"})
				}
				for _, al := range gv.alts {
					if h.live(al.g) == bF {
						continue
					}
					q := h.in.numLeaf(al.l)
					lo, hi := h.c.interval(q)
					h.check(lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(p) < 0, h.r.w.pos(fn.Pos())+" "+shortFn(fn), "Minimal leaves coordinate %d at %s, which is not reduced", k, h.c.show(q))
					h.check(h.c.equalMod(q, want, p), shortFn(fn), "Minimal changes the element: coordinate %d is %s", k, h.c.show(q))
				}
			}
		}
	}
}

func addB(x *big.Int, k int64) *big.Int { return new(big.Int).Add(x, bi(k)) }

func (h *H) predicatesAt(typ string, shift func(i int) int64) {
	pt := h.ptyp(bnPkg, typ)
	i := 0
	red := func(n string) Val {
		a := h.c.atom(&atomInfo{kind: aSym, name: n, lo: b0, hi: subB(h.c.p, 1), m: h.c.p})
		k := shift(i)
		i++
		return num(add(h.c.atomPoly(a), cst(new(big.Int).Mul(h.c.p, bi(k)))))
	}
	a := h.mk(pt, "a", red)
	ns := h.in.numsOf(h.st, a, pt)
	st0 := *h.st
	var res []Val
	z, o := bT, bT
	for i, v := range ns {
		p := sub(h.in.onePoly(v), cst(new(big.Int).Mul(h.c.p, bi(shift(i)))))
		z = h.c.and(z, h.c.zeroInt(p))
		res = append(res, num(p))
		if i == len(ns)-1 {
			o = h.c.and(o, h.c.zeroInt(sub(p, csti(1))))
		} else {
			o = h.c.and(o, h.c.zeroInt(p))
		}
	}
	for _, t := range []struct {
		m string
		b Bdd
	}{{"IsZero", z}, {"IsOne", o}} {
		fn := h.method(bnPkg, typ, t.m)
		*h.st = st0
		pc := h.st.pc
		r := h.call(fn, a)
		got, ok := r.(BoolV)
		g := bF
		if ok {
			g = h.c.xor(got.b, t.b)
		}
		h.check(ok && h.st.pc == pc && h.c.and(h.feasible(res), g) == bF, h.r.w.pos(fn.Pos())+" "+shortFn(fn), "%s is wrong when %s", t.m, h.c.showB(g))
		for i, v := range h.in.numsOf(h.st, a, pt) {
			h.check(sameVal(v, ns[i]) || shift(i) != 0 && h.c.equalMod(h.in.onePoly(v), h.in.onePoly(ns[i]), h.c.p), shortFn(fn), "%s changes its operand", t.m)
		}
	}
}

// feasible: a number is not zero and one at the same time.
func (h *H) feasible(ns []Val) Bdd {
	f := bT
	for _, v := range ns {
		p := h.in.onePoly(v)
		f = h.c.and(f, h.c.not(h.c.and(h.c.zeroInt(p), h.c.or(h.c.zeroInt(sub(p, csti(1))), h.c.zeroInt(add(p, csti(1)))))))
	}
	return f
}

func runC20(r *Run) {
	r.rule("as for GF(p^2), over the coordinates in GF(p^2); the Frobenius maps are compared with the p-th powers computed from the defining relations of the tower")
	raw := map[string]bool{}
	_ = raw
	for _, typ := range []string{"gfP6", "gfP12"} {
		for _, o := range fieldOps(typ) {
			o := o
			r.sub(typ+"."+o.m, func(h *H) {
				h.bnField()
				h.fieldCase(o, h.freeNum)
			})
		}
		typ := typ
		r.sub(typ+" tests", func(h *H) {
			h.bnField()
			h.predicates(typ)
		})
		r.sub(typ+" Minimal reduces", func(h *H) {
			h.bnField()
			h.reduces(typ)
		})
	}
}

func init() {
	old := props["C20"]
	props["C20"] = func(r *Run) {
		old(r)
		r.sub("gfP6.Invert", func(h *H) { h.towerInvert("gfP6") })
		r.sub("gfP12.Invert", func(h *H) { h.towerInvert("gfP12") })
		r.sub("gfP12.MulScalar", func(h *H) {
			h.bnField()
			h.mulScalar12()
		})
		r.sub("gfP12.Exp", func(h *H) {
			h.bnField()
			h.k2Mode()
			h.in.views = map[string]*view{bnType("gfP12"): ringView("gfP12")}
			h.fieldCase(opCase{typ: "gfP12", m: "Exp", n: 1, scalar: "exp", spec: func(c *Ctx, v [][]*Poly, s *Poly) []*Poly { return c.ringPow(v[0], s) }}, h.k2Num(""))
		})
	}
}

// k2Mode switches to formal GF(p^2) coordinates.
func (h *H) k2Mode() { h.in.k2Summaries() }

// k2Num makes coordinate cells: x is the imaginary and y the real part of a
// formal element named after the object.
func (h *H) k2Num(variant string) func(string) Val {
	return func(name string) Val {
		i := len(name) - 2
		a := h.c.atom(&atomInfo{kind: aSym, k2: true, name: name[:i]})
		return num(h.c.part(h.c.atomPoly(a), name[i:] == ".x", variant))
	}
}

// towerInvert: a * Invert(a) = 1 for every a whose norm is not zero.
func (h *H) towerInvert(typ string) {
	h.bnField()
	h.k2Mode()
	fn := h.method(bnPkg, typ, "Invert")
	pt := h.ptyp(bnPkg, typ)
	base := *h.st
	for _, alias := range []bool{false, true} {
		*h.st = base
		a := h.mk(pt, "a", h.k2Num("U"))
		e := a
		if !alias {
			e = h.mk(pt, "e", h.k2Num("U"))
		}
		av := h.in.k2Of(h.st, a, pt)
		before := h.in.numsOf(h.st, a, pt)
		args := []Val{e, a}
		if usesPool(fn) {
			args = append(args, h.pool())
		}
		n := len(h.in.events)
		pc := h.st.pc
		h.in.stack = nil
		h.in.callFn(h.st, fn, args, nil, fn.Pos())
		// the inverted norm may be zero only where the element is zero
		var evs []event
		for _, ev := range h.in.events[n:] {
			if ev.kind != "invzero" {
				evs = append(evs, ev)
			}
		}
		h.in.events = append(h.in.events[:n], evs...)
		h.report(n, fn)
		where := h.r.w.pos(fn.Pos()) + " " + shortFn(fn)
		h.check(h.st.pc == pc, where, "Invert does not return")
		ev := h.in.k2Of(h.st, e, pt)
		p := h.c.rmul(av, ev)
		i := h.c.requal(p, h.c.rone(len(av)))
		h.check(i < 0, where, "a*Invert(a) is not one (receiver=a: %v): coordinate %d", alias, i)
		if !alias {
			for i, v := range h.in.numsOf(h.st, a, pt) {
				h.check(sameVal(v, before[i]), where, "Invert changes its operand")
			}
		}
		h.sample("%s: a*Invert(a)=1 (receiver=a: %v)", shortFn(fn), alias)
	}
	*h.st = base
}

func (h *H) mulScalar12() {
	fn := h.method(bnPkg, "gfP12", "MulScalar")
	pt, p6 := h.ptyp(bnPkg, "gfP12"), h.ptyp(bnPkg, "gfP6")
	for _, alias := range []bool{false, true} {
		a := h.mk(pt, "a", h.freeNum)
		e := a
		if !alias {
			e = h.mk(pt, "e", h.freeNum)
		}
		b := h.mk(p6, "b", h.freeNum)
		av, bv := h.in.k2Of(h.st, a, pt), h.in.k2Of(h.st, b, p6)
		args := []Val{e, a, b}
		if usesPool(fn) {
			args = append(args, h.pool())
		}
		h.call(fn, args...)
		want := append(h.c.rmul(av[:3], bv), h.c.rmul(av[3:], bv)...)
		i := h.c.requal(h.in.k2Of(h.st, e, pt), want)
		h.check(i < 0, h.r.w.pos(fn.Pos())+" "+shortFn(fn), "MulScalar returns a wrong value: coordinate %d", i)
		if !alias {
			h.check(h.c.requal(h.in.k2Of(h.st, a, pt), av) < 0, shortFn(fn), "MulScalar changes its operand")
		}
		h.check(h.c.requal(h.in.k2Of(h.st, b, p6), bv) < 0, shortFn(fn), "MulScalar changes its operand")
	}
}
