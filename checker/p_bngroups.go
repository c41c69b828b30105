package main

// C23: the group API of bn256 on top of the point and field arithmetic.

import (
	"fmt"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

func init() { props["C23"] = runBnGroups }

var bnInner = map[string]string{"G1": "curvePoint", "G2": "twistPoint", "GT": "gfP12"}

func (h *H) bnPoints() *absT {
	h.bnField()
	h.k2Mode()
	o := h.in.globalBig(h.st, bnPkg, "Order")
	grp := map[string]*Group{}
	for g, typ := range bnInner {
		grp[typ] = &Group{name: g, order: o, p: h.c.p}
	}
	t := h.in.points(true, grp)
	t.gens(h)
	return t
}

type bnOp struct {
	form string
	e    *Elem
}

func (h *H) bnOps(t *absT, gn string) []bnOp {
	c, g := h.c, t.grp[bnInner[gn]]
	for _, n := range []string{"a", "b"} {
		c.declBase(&baseInfo{name: n, nonzero: true})
	}
	a := c.base(g, "a")
	ops := []bnOp{{"0", zeroElem(g)}, {"a", a}, {"-a", c.eNeg(a)}, {"2a", c.eScale(a, csti(2))}, {"b", c.base(g, "b")}, {"any", c.base(g, "any")}}
	if gn != "GT" {
		ops = append(ops, bnOp{"g", c.base(g, map[string]string{"G1": "g1", "G2": "g2"}[gn])})
	}
	return ops
}

// bnObj makes a *G1, *G2 or *GT; a nil element is a fresh receiver.
func (h *H) bnObj(t *absT, gn, name string, e *Elem) Val {
	p := nilV()
	if e != nil {
		typ := bnInner[gn]
		switch {
		case typ == "gfP12" && len(e.t) == 0:
			i := 0
			p = h.mk(h.in.ptrTo(typ), name, func(string) Val {
				i++
				if i == 12 {
					return numi(1)
				}
				return numi(0)
			})
		default:
			p = t.make(h.st, typ, e, name)
		}
	}
	typ := h.typ(bnPkg, gn)
	s, ok := structOf(typ)
	if !ok || s.NumFields() != 1 {
		panic(undecided{gn + " is not a struct with one field"})
	}
	return h.in.newPtr(h.st, typ, name, &AggV{[]Val{p}})
}

// parts lists the objects an element is made of.
func (h *H) parts(v Val) map[int]bool {
	sub := map[int]bool{}
	if id := ptrID(v); id != 0 {
		sub[id] = true
		h.in.subObjects(h.st, id, sub)
	}
	return sub
}

// bnCall calls fn and checks the receiver.
func (h *H) bnCall(t *absT, gn string, fn *ssa.Function, recv Val, args []Val, want *Elem) {
	h.in.protect = map[int]bool{}
	for _, v := range append([]Val{recv}, args...) {
		for id := range h.parts(v) {
			h.in.protect[id] = true
		}
	}
	ret := h.pureBut(h.parts(recv), fn, append([]Val{recv}, args...)...)
	if fn.Signature.Results().Len() == 1 {
		if _, ok := ret.(*GV); ok {
			h.check(samePtr(ret, recv), shortFn(fn), "the receiver is not returned")
		}
	}
	s, ok := h.in.rd(h.st, recv).(*AggV)
	if !ok {
		panic(undecided{"receiver"})
	}
	h.isElem(t, fn, bnInner[gn], h.in.under(h.st, s.f[0]), want)
	// the result shares no number with an operand
	mine := map[int]bool{}
	for _, p := range h.in.cells(h.st, h.in.under(h.st, s.f[0]), h.in.ptrTo(bnInner[gn])) {
		h.check(!mine[p.obj], shortFn(fn), "two coordinates of the result are one number")
		mine[p.obj] = true
	}
	for _, a := range args {
		if samePtr(a, recv) {
			continue
		}
		for id := range h.parts(a) {
			h.check(!mine[id], shortFn(fn), "the result shares numbers with an operand")
		}
	}
}

func runBnGroups(r *Run) {
	r.facts["level"] = "proof"
	r.rule("each operation of G1, G2 and GT is interpreted with the arithmetic below it summarised (C20 to C22): for the identity, equal, opposite and unrelated operands, the generator, every aliasing, fresh and used receivers and every integer as exponent, the receiver afterwards holds the element of the group law in its own numbers, the receiver is returned and nothing else is written")
	r.rule("RandomG1 and RandomG2 return one number drawn below the order, not zero, from the reader they are given, and that power of the generator; an error when the reader fails")
	r.randomElements()
	for _, gn := range []string{"G1", "G2", "GT"} {
		gn := gn
		exps := func(h *H, t *absT) []*Poly {
			o := t.grp[bnInner[gn]].order
			n := h.c.sym("n", nil, nil)
			out := []*Poly{n, h.c.sym("pos", b0, nil), h.c.sym("neg", nil, bi(-1)), scale(n, o)}
			for _, k := range []*big.Int{b0, b1, b2, bi(-1), bi(-2), subB(o, 1), o, new(big.Int).Neg(o), new(big.Int).Lsh(b1, 300)} {
				out = append(out, cst(k))
			}
			return out
		}
		// olds are the receivers' previous contents
		olds := func(h *H, t *absT) []*Elem {
			g := t.grp[bnInner[gn]]
			h.c.declBase(&baseInfo{name: "old", nonzero: true})
			return []*Elem{nil, h.c.base(g, "old"), zeroElem(g)}
		}
		for _, pa := range partitions(3) {
			pa := pa
			r.sub(gn+".Add "+aliasName(pa, []string{"e", "a", "b"}), func(h *H) {
				t := h.bnPoints()
				fn := h.method(bnPkg, gn, "Add")
				ops := h.bnOps(t, gn)
				for _, x := range ops {
					for _, y := range ops {
						if pa[1] == pa[2] && x.form != y.form {
							continue
						}
						for _, old := range olds(h, t) {
							x, y, old := x, y, old
							h.each(fmt.Sprintf("Add(%s,%s): ", x.form, y.form), func() {
								objs := make([]Val, 3)
								objs[pa[1]] = h.bnObj(t, gn, "a", x.e)
								if pa[2] != pa[1] {
									objs[pa[2]] = h.bnObj(t, gn, "b", y.e)
								}
								if objs[pa[0]] == nil {
									objs[pa[0]] = h.bnObj(t, gn, "receiver", old)
								}
								h.bnCall(t, gn, fn, objs[pa[0]], []Val{objs[pa[1]], objs[pa[2]]}, h.c.eAdd(x.e, y.e))
							})
							if pa[0] == pa[1] || pa[0] == pa[2] {
								break
							}
						}
					}
				}
			})
		}
		uns := []string{"Neg"}
		if gn == "GT" {
			uns = append(uns, "Invert")
		}
		for _, pa := range partitions(2) {
			pa := pa
			an := aliasName(pa, []string{"e", "a"})
			two := func(h *H, t *absT, x bnOp, f func(recv, a Val)) {
				for _, old := range olds(h, t) {
					old := old
					h.each(fmt.Sprintf("(%s): ", x.form), func() {
						a := h.bnObj(t, gn, "a", x.e)
						recv := a
						if pa[0] != pa[1] {
							recv = h.bnObj(t, gn, "receiver", old)
						}
						f(recv, a)
					})
					if pa[0] == pa[1] {
						break
					}
				}
			}
			for _, u := range uns {
				u := u
				r.sub(gn+"."+u+" "+an, func(h *H) {
					t := h.bnPoints()
					fn := h.method(bnPkg, gn, u)
					for _, x := range h.bnOps(t, gn) {
						x := x
						two(h, t, x, func(recv, a Val) { h.bnCall(t, gn, fn, recv, []Val{a}, h.c.eNeg(x.e)) })
					}
				})
			}
			scals := []string{"ScalarMult"}
			if gn == "GT" {
				scals = append(scals, "Exp")
			}
			for _, m := range scals {
				m := m
				r.sub(gn+"."+m+" "+an, func(h *H) {
					t := h.bnPoints()
					fn := h.method(bnPkg, gn, m)
					for _, x := range h.bnOps(t, gn) {
						for _, n := range exps(h, t) {
							x, n := x, n
							two(h, t, x, func(recv, a Val) {
								h.bnCall(t, gn, fn, recv, []Val{a, h.bigV(n)}, h.c.eScale(x.e, n))
							})
						}
					}
				})
			}
		}
		if gn == "GT" {
			r.sub("GT.IsOne", func(h *H) {
				t := h.bnPoints()
				fn := h.method(bnPkg, gn, "IsOne")
				for _, x := range h.bnOps(t, gn) {
					v := h.bnObj(t, gn, "a", x.e)
					got := h.boolB(h.pureBut(h.parts(v), fn, v))
					h.check(h.live(h.c.xor(got, h.c.zeroE(x.e))) == bF, shortFn(fn), "wrong result for %s", x.form)
					h.isElem(t, fn, "gfP12", h.in.rd(h.st, v).(*AggV).f[0], x.e)
				}
			})
			continue
		}
		r.sub(gn+".ScalarBaseMult", func(h *H) {
			t := h.bnPoints()
			fn := h.method(bnPkg, gn, "ScalarBaseMult")
			g := h.c.base(t.grp[bnInner[gn]], map[string]string{"G1": "g1", "G2": "g2"}[gn])
			for _, n := range exps(h, t) {
				for _, old := range olds(h, t) {
					n, old := n, old
					h.each("ScalarBaseMult("+h.c.show(n)+"): ", func() {
						h.bnCall(t, gn, fn, h.bnObj(t, gn, "receiver", old), []Val{h.bigV(n)}, h.c.eScale(g, n))
					})
				}
			}
		})
		r.sub(gn+" identity", func(h *H) {
			t := h.bnPoints()
			for _, m := range []string{"SetInfinity", "SetZero"} {
				f := h.r.w.method(bnPkg, gn, m)
				if f == nil {
					continue
				}
				for _, x := range append(h.bnOps(t, gn), bnOp{"fresh", nil}) {
					if m == "SetZero" && x.e == nil {
						continue
					}
					x := x
					h.each(m+": ", func() {
						h.bnCall(t, gn, f, h.bnObj(t, gn, "receiver", x.e), nil, zeroElem(t.grp[bnInner[gn]]))
					})
				}
			}
			fn := h.method(bnPkg, gn, "IsZero")
			for _, x := range h.bnOps(t, gn) {
				v := h.bnObj(t, gn, "a", x.e)
				got := h.boolB(h.pure(fn, v))
				h.check(h.live(h.c.xor(got, h.c.zeroE(x.e))) == bF, shortFn(fn), "wrong result for %s", x.form)
			}
		})
	}
}
