package main

// C17, C18: secp256k1.

import (
	"fmt"
	"go/token"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

func init() {
	props["C17"] = runP256
	props["C18"] = runSecp
}

const vendorCurve = "github.com/ethereum/go-ethereum/crypto/secp256k1"

// curveSummaries gives the meaning of the operations below the group API.
func (in *Interp) curveSummaries() {
	c := in.c
	pt := func(st *State, x, y Val, what string) Val { // the element with these coordinates
		t := &AggV{[]Val{x, y}}
		v := in.p256Val(st, t).(*GV)
		for _, a := range v.alts {
			if g := c.and(a.g, c.zeroE(a.l.(ElemL).e)); c.and(c.and(g, st.pc), in.care) != bF {
				in.event("panic", c.and(g, st.pc), "%s with coordinates that are not a point", what)
			}
		}
		return v
	}
	coords := func(st *State, v Val, zero Val) Val { // the coordinates of an element
		var xs, ys Val
		for i, a := range v.(*GV).alts {
			e := a.l.(ElemL).e
			z := c.zeroE(e)
			x, y := c.merge(z, zero, in.newInt(st, c.coordX(e))), c.merge(z, zero, in.newInt(st, c.coordY(e)))
			if i == 0 {
				xs, ys = x, y
			} else {
				xs, ys = c.merge(a.g, x, xs), c.merge(a.g, y, ys)
			}
		}
		return tuple(xs, ys)
	}
	mult := func(st *State, e Val, s Val, what string) Val {
		k := in.lift1(st, in.under(st, s), what, func(l Leaf) Leaf {
			ps := normPieces(in.seqPieces(st, l))
			p, ok := in.piecesNum(ps)
			if !ok {
				in.undec("%s by %s", what, piecesKey(ps))
			}
			n := in.piecesLen(ps)
			if _, hi := c.interval(n); hi == nil || hi.Cmp(bi(32)) > 0 {
				// too long where the number is too large, or has leading zeros
				_, ph := c.interval(p)
				if len(ps) != 1 || ps[0].k != "min" || ph == nil || ph.BitLen() > 256 {
					in.event("panic", st.pc, "%s: the factor can have more than 32 bytes", what)
				}
			}
			return NumL{p}
		})
		o := in.secp(st).order
		bad := in.boolOf2(st, k, k, func(x, _ Leaf) Bdd {
			p := in.numLeaf(x)
			return c.or(c.zeroInt(p), c.not(c.negB(sub(p, cst(o)))))
		})
		r := in.lift2(st, e, k, what, func(x, y Leaf) Leaf { return ElemL{c.eScale(x.(ElemL).e, in.numLeaf(y))} })
		t := coords(st, r, nilV()).(*AggV)
		return tuple(c.merge(bad, nilV(), t.f[0]), c.merge(bad, nilV(), t.f[1]))
	}
	in.sums["(*"+vendorCurve+".BitCurve).ScalarMult"] = func(in *Interp, st *State, fn *ssa.Function, a []Val, pos token.Pos) (Val, bool) {
		return mult(st, pt(st, a[1], a[2], "ScalarMult"), a[3], "ScalarMult"), true
	}
	in.sums["(*"+vendorCurve+".BitCurve).ScalarBaseMult"] = func(in *Interp, st *State, fn *ssa.Function, a []Val, pos token.Pos) (Val, bool) {
		return mult(st, leaf(ElemL{c.base(in.secp(st), "g")}), a[1], "ScalarBaseMult"), true
	}
	in.sums["(*"+vendorCurve+".BitCurve).Double"] = func(in *Interp, st *State, fn *ssa.Function, a []Val, pos token.Pos) (Val, bool) {
		e := pt(st, a[1], a[2], "Double")
		return coords(st, in.lift1(st, e, "Double", func(l Leaf) Leaf { return ElemL{c.eScale(l.(ElemL).e, csti(2))} }), nilV()), true
	}
	sum := func(what string, same func(st *State, z Bdd) Val) func(in *Interp, st *State, fn *ssa.Function, a []Val, pos token.Pos) (Val, bool) {
		return func(in *Interp, st *State, fn *ssa.Function, a []Val, pos token.Pos) (Val, bool) {
			p, q := pt(st, a[1], a[2], what), pt(st, a[3], a[4], what)
			eq := in.boolOf2(st, p, q, func(x, y Leaf) Bdd { return c.zeroE(c.eSub(x.(ElemL).e, y.(ElemL).e)) })
			zero := in.newInt(st, &Poly{})
			r := coords(st, in.lift2(st, p, q, what, func(x, y Leaf) Leaf { return ElemL{c.eAdd(x.(ElemL).e, y.(ElemL).e)} }), zero).(*AggV)
			// the chord through equal points does not exist
			return tuple(c.merge(eq, zero, r.f[0]), c.merge(eq, zero, r.f[1])), true
		}
	}
	in.sums[full(p256Pkg, "MyBitCurve", "Add")] = sum("Add", nil)
}

// p256Kit makes operands.
func (h *H) p256Obj(name string, e *Elem, form string) Val {
	t := h.in.w.typ(p256Pkg, "P256")
	var f []Val
	switch form {
	case "nil":
		f = []Val{nilV(), nilV()}
	case "00":
		f = []Val{h.bigV(&Poly{}), h.bigV(&Poly{})}
	default:
		f = []Val{h.bigV(h.c.coordX(e)), h.bigV(h.c.coordY(e))}
	}
	return h.in.newPtr(h.st, t, name, &AggV{f})
}

type p256Op struct {
	form string
	e    *Elem
}

// p256Ops: identity in both forms, a point, minus the point, another point,
// the base point, a multiple.
func (h *H) p256Ops() []p256Op {
	c := h.c
	g := h.in.secp(h.st)
	for _, n := range []string{"a", "b"} {
		c.declBase(&baseInfo{name: n, nonzero: true})
	}
	a := c.base(g, "a")
	return []p256Op{{"nil", zeroElem(g)}, {"00", zeroElem(g)}, {"a", a}, {"-a", c.eNeg(a)}, {"b", c.base(g, "b")}, {"2a", c.eScale(a, csti(2))}, {"g", c.base(g, "g")}}
}

func (h *H) isP256(fn *ssa.Function, what string, v Val, want *Elem) {
	o, ok := ptr1(v)
	if !ok {
		panic(undecided{"result is " + valKeyShort(v)})
	}
	for _, al := range h.in.p256Val(h.st, h.in.rd(h.st, leaf(o)).(*AggV)).(*GV).alts {
		got := al.l.(ElemL).e
		z := h.live(h.c.and(al.g, h.c.not(h.c.zeroE(h.c.eSub(got, want)))))
		h.check(z == bF, shortFn(fn), "%s is %s, not %s%s", what, h.c.showE(got), h.c.showE(want), when(h.c, z))
	}
}

func samePtr(a, b Val) bool {
	p, ok1 := ptr1(a)
	q, ok2 := ptr1(b)
	return ok1 && ok2 && p == q
}

func (h *H) p256Mode() {
	h.init(p256Pkg)
	h.in.curveSummaries()
	h.in.noNil = true
}

func runP256(r *Run) {
	r.facts["level"] = "proof"
	r.rule("each operation of P256 is interpreted with the arithmetic below it summarised (C18 and the library): for identity operands in both representations, equal, opposite and unrelated points, the base point, every aliasing of receiver and operands, any previous content of the receiver and every integer as exponent, the receiver afterwards represents the element of the group law, the receiver is returned, and nothing else is written")
	type bin struct {
		name string
		want func(h *H, x, y *Elem) *Elem
		skip func(x, y p256Op) bool
	}
	bins := []bin{
		{"Multiply", func(h *H, x, y *Elem) *Elem { return h.c.eAdd(x, y) }, nil},
		{"Add", func(h *H, x, y *Elem) *Elem { return h.c.eAdd(x, y) }, func(x, y p256Op) bool {
			return len(x.e.t) > 0 && elemEq(x.e, y.e) // the documentation excludes it
		}},
	}
	for _, b := range bins {
		b := b
		for _, pa := range partitions(3) {
			pa := pa
			r.sub(b.name+" "+aliasName(pa, []string{"p", "a", "b"}), func(h *H) {
				h.p256Mode()
				fn := h.method(p256Pkg, "P256", b.name)
				for _, x := range h.p256Ops() {
					for _, y := range h.p256Ops() {
						if pa[1] == pa[2] && (x.form != y.form) || b.skip != nil && b.skip(x, y) {
							continue
						}
						x, y := x, y
						h.each(fmt.Sprintf("%s(%s,%s): ", b.name, x.form, y.form), func() {
							h.apart(x.e, y.e)
							objs := make([]Val, 3)
							objs[pa[1]] = h.p256Obj("a", x.e, x.form)
							if pa[2] != pa[1] {
								objs[pa[2]] = h.p256Obj("b", y.e, y.form)
							}
							recv := h.recv(objs, pa[0])
							h.binop(fn, recv, []Val{objs[pa[1]], objs[pa[2]]}, b.want(h, x.e, y.e))
						})
					}
				}
			})
		}
	}
	uns := []struct {
		name string
		want func(h *H, x *Elem) *Elem
	}{{"Neg", func(h *H, x *Elem) *Elem { return h.c.eNeg(x) }}, {"Double", func(h *H, x *Elem) *Elem { return h.c.eScale(x, csti(2)) }}}
	for _, u := range uns {
		u := u
		for _, pa := range partitions(2) {
			pa := pa
			r.sub(u.name+" "+aliasName(pa, []string{"p", "a"}), func(h *H) {
				h.p256Mode()
				fn := h.method(p256Pkg, "P256", u.name)
				for _, x := range h.p256Ops() {
					x := x
					h.each(fmt.Sprintf("%s(%s): ", u.name, x.form), func() {
						objs := make([]Val, 2)
						objs[pa[1]] = h.p256Obj("a", x.e, x.form)
						h.binop(fn, h.recv(objs, pa[0]), []Val{objs[pa[1]]}, u.want(h, x.e))
					})
				}
			})
		}
	}
	exps := func(h *H) []*Poly {
		o := h.in.secp(h.st).order
		n := h.c.sym("n", nil, nil)
		out := []*Poly{n, h.c.sym("m", b0, subB(o, 1)), h.c.sym("neg", nil, bi(-1)), scale(n, o)}
		for _, k := range []*big.Int{b0, b1, b2, bi(-1), bi(-2), subB(o, 1), o, new(big.Int).Add(o, b1), new(big.Int).Neg(o), new(big.Int).Mul(o, b2), new(big.Int).Lsh(b1, 256), subB(new(big.Int).Lsh(b1, 256), 1), new(big.Int).Neg(new(big.Int).Lsh(b1, 300))} {
			out = append(out, cst(k))
		}
		return out
	}
	for _, pa := range partitions(2) {
		pa := pa
		r.sub("ScalarMult "+aliasName(pa, []string{"p", "a"}), func(h *H) {
			h.p256Mode()
			fn := h.method(p256Pkg, "P256", "ScalarMult")
			for _, x := range h.p256Ops() {
				for _, n := range exps(h) {
					x, n := x, n
					h.each(fmt.Sprintf("ScalarMult(%s,%s): ", x.form, h.c.show(n)), func() {
						objs := make([]Val, 2)
						objs[pa[1]] = h.p256Obj("a", x.e, x.form)
						h.binop(fn, h.recv(objs, pa[0]), []Val{objs[pa[1]], h.bigV(n)}, h.c.eScale(x.e, n))
					})
				}
			}
		})
	}
	r.sub("ScalarBaseMult", func(h *H) {
		h.p256Mode()
		fn := h.method(p256Pkg, "P256", "ScalarBaseMult")
		for _, n := range exps(h) {
			n := n
			h.each(fmt.Sprintf("ScalarBaseMult(%s): ", h.c.show(n)), func() {
				h.binop(fn, h.recv(make([]Val, 1), 0), []Val{h.bigV(n)}, h.c.eScale(h.c.base(h.in.secp(h.st), "g"), n))
			})
		}
	})
	r.sub("SetInfinity", func(h *H) {
		h.p256Mode()
		fn := h.method(p256Pkg, "P256", "SetInfinity")
		for _, x := range h.p256Ops() {
			x := x
			h.each(x.form, func() {
				h.binop(fn, h.p256Obj("p", x.e, x.form), nil, zeroElem(x.e.g))
			})
		}
	})
	r.sub("IsZero", func(h *H) {
		h.p256Mode()
		fn := h.method(p256Pkg, "P256", "IsZero")
		for _, x := range h.p256Ops() {
			x := x
			h.each("IsZero("+x.form+"): ", func() {
				got := h.boolB(h.pure(fn, h.p256Obj("p", x.e, x.form)))
				want := h.c.zeroE(x.e)
				h.check(h.live(h.c.xor(got, want)) == bF, shortFn(fn), "wrong result for %s", x.form)
			})
		}
		// any coordinates
		x, y := h.c.sym("X", nil, nil), h.c.sym("Y", nil, nil)
		v := h.in.newPtr(h.st, h.in.w.typ(p256Pkg, "P256"), "p", &AggV{[]Val{h.bigV(x), h.bigV(y)}})
		got := h.boolB(h.pure(fn, v))
		h.check(h.live(h.c.xor(got, h.c.and(h.c.zeroInt(x), h.c.zeroInt(y)))) == bF, shortFn(fn), "wrong result for arbitrary coordinates")
	})
}

// each runs f and restores the state afterwards.
func (h *H) each(what string, f func()) {
	st, care := *h.st, h.in.care
	h.guard(what, f)
	*h.st, h.in.care = st, care
}

// apart: bases that are different symbols stand for elements that are
// neither equal nor opposite; those cases are listed separately.
func (h *H) apart(x, y *Elem) {
	if len(x.t) == 0 || len(y.t) == 0 || x.t[0].base == y.t[0].base {
		return
	}
	c := h.c
	h.assume(c.not(c.zeroE(c.eSub(x, y))))
	h.assume(c.not(c.zeroE(c.eAdd(x, y))))
}

// recv is the receiver: one of the operands or an object with other content.
func (h *H) recv(objs []Val, i int) Val {
	if objs[i] == nil {
		g := h.in.secp(h.st)
		h.c.declBase(&baseInfo{name: "old", nonzero: true})
		objs[i] = h.p256Obj("receiver", h.c.base(g, "old"), "old")
	}
	return objs[i]
}

func (h *H) binop(fn *ssa.Function, recv Val, args []Val, want *Elem) {
	v := h.pureBut(ptrOf(recv), fn, append([]Val{recv}, args...)...)
	if v != nil {
		if _, ok := v.(*GV); ok {
			h.check(samePtr(v, recv), shortFn(fn), "the receiver is not returned")
		}
	}
	h.isP256(fn, "the result", recv, want)
}

// ---------- C18 ----------

func runSecp(r *Run) {
	r.facts["level"] = "proof"
	r.rule("with coordinates as symbols of GF(P): for x1 != x2, MyBitCurve.Add returns x3 = l^2-x1-x2 and y3 = l(x1-x3)-y1 with l = (y2-y1)/(x2-x1), reduced; for x1 = x2 and y2 = -y1 it returns (0,0); P256.IsOnCurve holds exactly if y^2 = x^3+7 mod P, for all integers")
	r.rule("the curve parameters are those of SEC 2; P and N are prime, the base point is on the curve and has order N, 7 is not a square mod P so that (0,0) is no point")
	hex := func(s string) *big.Int { x, _ := new(big.Int).SetString(s, 16); return x }
	sec := map[string]*big.Int{
		"P":  hex("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEFFFFFC2F"),
		"N":  hex("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141"),
		"B":  bi(7),
		"Gx": hex("79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798"),
		"Gy": hex("483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8"),

		"BitSize": bi(256),
	}
	r.sub("constants", func(h *H) {
		h.init(p256Pkg, bpPkg)
		for k, v := range sec {
			got := h.in.curveParam(h.st, k)
			h.check(got.Cmp(v) == 0, "p256.CURVE", "%s is %s, not %s", k, got, v)
		}
		P, N := sec["P"], sec["N"]
		h.check(P.ProbablyPrime(64) && N.ProbablyPrime(64), "p256.CURVE", "P or N is not prime")
		gx, gy := h.in.curveParam(h.st, "Gx"), h.in.curveParam(h.st, "Gy")
		y2 := new(big.Int).Mul(gy, gy)
		x3 := new(big.Int).Exp(gx, bi(3), nil)
		x3.Add(x3, bi(7)).Sub(x3, y2).Mod(x3, P)
		h.check(x3.Sign() == 0, "p256.CURVE", "the base point is not on the curve")
		h.check(new(big.Int).ModSqrt(bi(7), P) == nil, "p256.CURVE", "7 is a square")
		f := q2f{P}
		gpt := aff{x: q2{b0, gx}, y: q2{b0, gy}}
		acc := aff{inf: true}
		for i := N.BitLen() - 1; i >= 0; i-- {
			acc = f.addPt(acc, acc)
			if N.Bit(i) == 1 {
				acc = f.addPt(acc, gpt)
			}
		}
		h.check(acc.inf, "p256.CURVE", "the order of the base point is not N")
		o := h.in.globalBig(h.st, bpPkg, "ORDER")
		h.check(o.Cmp(N) == 0, "bulletproofs.ORDER", "ORDER is %s", o)
	})
	add1 := func(h *H, x1, y1, x2, y2 *Poly) (*ssa.Function, *Poly, *Poly) {
		fn := h.method(p256Pkg, "MyBitCurve", "Add")
		recv := h.in.load(h.st, h.in.globalPtr(h.r.w.global(p256Pkg, "CURVE")))
		t := h.pure(fn, recv, h.bigV(x1), h.bigV(y1), h.bigV(x2), h.bigV(y2)).(*AggV)
		return fn, h.narrowNum(t.f[0]), h.narrowNum(t.f[1])
	}
	r.sub("Add, different x", func(h *H) {
		h.init(p256Pkg)
		c, P := h.c, sec["P"]
		m := subB(P, 1)
		x1, y1, y2 := c.sym("x1", b0, m), c.sym("y1", b0, m), c.sym("y2", b0, m)
		d := c.atomPoly(c.atom(&atomInfo{kind: aSym, name: "d", lo: new(big.Int).Neg(m), hi: m, nonzero: true}))
		h.assume(c.not(c.zeroModB(d, P)))
		x2 := add(x1, d)
		fn, x3, y3 := add1(h, x1, y1, x2, y2)
		l := c.mul(sub(y2, y1), c.inverse(d, P))
		wx := sub(sub(c.mul(l, l), x1), x2)
		wy := sub(c.mul(l, sub(x1, wx)), y1)
		h.residue(fn, "x3", x3, wx, P)
		h.residue(fn, "y3", y3, wy, P)
		h.sample("x3 = ((y2-y1)/(x2-x1))^2-x1-x2")
	})
	r.sub("Add, opposite", func(h *H) {
		h.init(p256Pkg)
		c, P := h.c, sec["P"]
		x1, y1 := c.sym("x1", b0, subB(P, 1)), c.sym("y1", b1, subB(P, 1))
		fn, x3, y3 := add1(h, x1, y1, x1, sub(cst(P), y1))
		h.check(x3.isZero() && y3.isZero(), shortFn(fn), "the sum of opposite points is (%s,%s), not (0,0)", c.show(x3), c.show(y3))
	})
	r.sub("IsOnCurve", func(h *H) {
		h.init(p256Pkg)
		c, P := h.c, sec["P"]
		x, y := c.sym("x", nil, nil), c.sym("y", nil, nil)
		fn := h.method(p256Pkg, "P256", "IsOnCurve")
		v := h.in.newPtr(h.st, h.in.w.typ(p256Pkg, "P256"), "p", &AggV{[]Val{h.bigV(x), h.bigV(y)}})
		got := h.boolB(h.pure(fn, v))
		want := c.zeroModB(sub(c.mul(y, y), add(c.mul(c.mul(x, x), x), csti(7))), P)
		h.check(h.live(c.xor(got, want)) == bF, shortFn(fn), "the verdict is not y^2 = x^3+7 mod P%s", when(c, h.live(c.xor(got, want))))
	})
}

// narrowNum is the number behind a pointer, under the path condition.
func (h *H) narrowNum(v Val) *Poly {
	p, ok := h.in.intOf(h.in.under(h.st, h.in.rd(h.st, h.in.under(h.st, v))))
	if !ok {
		panic(undecided{"result is not one number: " + valKeyShort(v)})
	}
	return p
}
