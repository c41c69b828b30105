package main

// C29 to C33: helper functions.

import (
	"fmt"
	"go/token"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

func init() {
	props["C29"] = runVectors
	props["C30"] = runDecompose
	props["C31"] = runBn
	props["C32"] = runBytes
	props["C33"] = runParse
}

// pure calls fn and checks that no object that existed before changes,
// except those in may.
func (h *H) pure(fn *ssa.Function, args ...Val) Val {
	return h.pureBut(nil, fn, args...)
}

func (h *H) pureBut(may map[int]bool, fn *ssa.Function, args ...Val) Val {
	if h.r.aspect == "fail" {
		return h.reported(fn, args...)
	}
	before, mark := h.st.heap, len(h.in.meta)
	v := h.call(fn, args...)
	bad := ""
	for _, id := range diffHeap(before, h.st.heap) {
		if id < mark && !may[id] {
			bad += " " + h.in.meta[id].name
		}
	}
	h.aspect = "pure"
	defer func() { h.aspect = "" }()
	h.r.notePure(fn)
	h.check(bad == "", shortFn(fn), "%s changes%s, which existed before the call", shortFn(fn), bad)
	return v
}

// errB is the condition that an error value is not nil.
func (h *H) errB(v Val) Bdd {
	r := bF
	for _, a := range v.(*GV).alts {
		if _, ok := a.l.(NilL); !ok {
			r = h.c.or(r, a.g)
		}
	}
	return r
}

// live is the part of b that can occur on the paths looked at.
func (h *H) live(b Bdd) Bdd {
	r := h.c.and(h.c.and(b, h.st.pc), h.in.care)
	if r == bF || r == bT || len(h.c.support(r)) > 12 {
		return r
	}
	return h.c.and(r, h.c.feas(r))
}

// possible is live with all axioms.
func (h *H) possible(b Bdd) (r Bdd) {
	r = h.live(b)
	if r == bF || r == bT {
		return r
	}
	max := h.c.maxNodes
	defer func() {
		h.c.maxNodes = max
		if x := recover(); x != nil {
			if _, ok := x.(undecided); !ok {
				panic(x)
			}
		}
	}()
	h.c.maxNodes = len(h.c.nodes) + 500000
	for _, x := range h.c.elemAxioms(r) {
		if r = h.c.and(r, x); r == bF {
			return r
		}
	}
	if len(h.c.support(r)) > 40 {
		return r
	}
	return h.c.and(r, h.c.feas(r))
}

// okErr checks that the error is nil.
func (h *H) okErr(v Val, fn *ssa.Function) bool {
	e := h.live(h.errB(v))
	return h.check(e == bF, shortFn(fn), "%s reports an error%s", shortFn(fn), when(h.c, e))
}

func (h *H) isErr(v Val, fn *ssa.Function, why string) bool {
	e := h.live(h.c.not(h.errB(v)))
	return h.check(e == bF, shortFn(fn), "%s reports no error %s%s", shortFn(fn), why, when(h.c, e))
}

func when(c *Ctx, e Bdd) string {
	if e == bT || e == bF {
		return ""
	}
	return " when " + c.showB(e)
}

// numAt reads the number behind a *big.Int.
func (h *H) numAt(v Val) *Poly {
	return h.in.onePoly(h.in.under(h.st, h.in.load(h.st, h.in.under(h.st, v))))
}

func (h *H) bigV(p *Poly) Val { return h.in.newInt(h.st, p) }

func (h *H) vec(name string, n int) ([]*Poly, Val) {
	var ps []*Poly
	var vs []Val
	for i := 0; i < n; i++ {
		p := h.c.sym(fmt.Sprintf("%s%d", name, i), nil, nil)
		ps = append(ps, p)
		vs = append(vs, h.in.newPtr(h.st, h.in.bigIntT(), fmt.Sprintf("%s[%d]", name, i), num(p)))
	}
	return ps, h.mkSlice(name, vs)
}

// residue checks that got is the canonical residue of want.
func (h *H) residue(fn *ssa.Function, what string, got, want *Poly, m *big.Int) {
	lo, hi := h.c.interval(got)
	h.check(h.c.equalMod(got, want, m), shortFn(fn), "%s is %s, not %s", what, h.c.show(got), h.c.show(h.c.reduce(want, m)))
	h.check(lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(m) < 0, shortFn(fn), "%s is not reduced: %s", what, h.c.show(got))
}

var vecLens = []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 31, 32, 33, 48, 63, 64, 65, 100, 128}

func (h *H) errOnly(fn *ssa.Function, args ...Val) {
	v := h.call(fn, args...)
	t, ok := v.(*AggV)
	if !ok || len(t.f) != 2 {
		h.fail("undecided", shortFn(fn), "%s does not return a value and an error", shortFn(fn))
		return
	}
	h.isErr(t.f[1], fn, "for arguments of different lengths")
}

func runVectors(r *Run) {
	r.facts["level"] = "other"
	r.facts["explanation"] = "Abstract interpretation of the helpers on vectors of symbolic integers and symbolic group elements. All component values are covered (polynomial identities modulo the group order); the lengths are those listed under lengths."
	r.facts["lengths"] = vecLens
	r.rule("for vectors of symbolic integers of every listed length, each result component is the canonical residue of the documented polynomial in the arguments; different lengths give a non-nil error; no argument is written")
	one := []int{1}
	type op struct {
		name string
		f    func(h *H, a, b, k *Poly) *Poly
	}
	two := []op{
		{"VectorAdd", func(h *H, a, b, k *Poly) *Poly { return add(a, b) }},
		{"VectorSub", func(h *H, a, b, k *Poly) *Poly { return sub(a, b) }},
		{"VectorMul", func(h *H, a, b, k *Poly) *Poly { return h.c.mul(a, b) }},
	}
	for _, o := range two {
		o := o
		r.sub(o.name, func(h *H) {
			h.groupLevel(bpPkg)
			fn := h.fn(bpPkg, o.name)
			vecLens := h.r.w.constSizes(vecLens, 1100, one, fn)
			m := h.bigGlobal(bpPkg, "ORDER")
			for _, n := range vecLens {
				a, av := h.vec("a", n)
				b, bv := h.vec("b", n)
				t := h.pure(fn, av, bv).(*AggV)
				h.okErr(t.f[1], fn)
				out := h.in.elems(h.st, t.f[0])
				if !h.check(len(out) == n, shortFn(fn), "%d components for arguments of length %d", len(out), n) {
					return
				}
				for i := range out {
					h.residue(fn, fmt.Sprintf("component %d of %d", i, n), h.numAt(out[i]), o.f(h, a[i], b[i], nil), m)
				}
			}
			h.sample("%s(a,b)[i] for lengths %v", o.name, vecLens)
			for _, p := range [][2]int{{0, 1}, {1, 0}, {1, 2}, {2, 1}, {3, 5}, {5, 3}, {16, 15}, {0, 7}} {
				_, av := h.vec("a", p[0])
				_, bv := h.vec("b", p[1])
				h.errOnly(fn, av, bv)
			}
		})
	}
	r.sub("same vector", func(h *H) {
		h.groupLevel(bpPkg)
		m := h.bigGlobal(bpPkg, "ORDER")
		for _, o := range two {
			fn := h.fn(bpPkg, o.name)
			a, av := h.vec("a", 5)
			t := h.pure(fn, av, av).(*AggV)
			out := h.in.elems(h.st, t.f[0])
			for i := range out {
				h.residue(fn, "component of f(a,a)", h.numAt(out[i]), o.f(h, a[i], a[i], nil), m)
			}
		}
		fn := h.fn(bpPkg, "ScalarProduct")
		a, av := h.vec("a", 5)
		t := h.pure(fn, av, av).(*AggV)
		want := &Poly{}
		for i := range a {
			want = add(want, h.c.mul(a[i], a[i]))
		}
		h.residue(fn, "<a,a>", h.numAt(t.f[0]), want, m)
	})
	r.sub("VectorScalarMul", func(h *H) {
		h.groupLevel(bpPkg)
		fn := h.fn(bpPkg, "VectorScalarMul")
		vecLens := h.r.w.constSizes(vecLens, 1100, one, fn)
		m := h.bigGlobal(bpPkg, "ORDER")
		for _, n := range vecLens {
			a, av := h.vec("a", n)
			k := h.c.sym("k", nil, nil)
			t := h.pure(fn, av, h.bigV(k)).(*AggV)
			h.okErr(t.f[1], fn)
			out := h.in.elems(h.st, t.f[0])
			if !h.check(len(out) == n, shortFn(fn), "%d components for length %d", len(out), n) {
				return
			}
			for i := range out {
				h.residue(fn, fmt.Sprintf("component %d", i), h.numAt(out[i]), h.c.mul(a[i], k), m)
			}
			if n > 0 { // the scalar is one of the components
				t := h.pure(fn, av, h.in.elems(h.st, av)[n-1]).(*AggV)
				for i, o := range h.in.elems(h.st, t.f[0]) {
					h.residue(fn, fmt.Sprintf("component %d", i), h.numAt(o), h.c.mul(a[i], a[n-1]), m)
				}
			}
		}
	})
	r.sub("VectorCopy", func(h *H) {
		h.groupLevel(bpPkg)
		fn := h.fn(bpPkg, "VectorCopy")
		vecLens := h.r.w.constSizes(vecLens, 1100, one, fn)
		for _, n := range vecLens {
			k := h.c.sym("k", nil, nil)
			t := h.pure(fn, h.bigV(k), numi(int64(n))).(*AggV)
			h.okErr(t.f[1], fn)
			out := h.in.elems(h.st, t.f[0])
			if !h.check(len(out) == n, shortFn(fn), "%d components, not %d", len(out), n) {
				return
			}
			for i := range out {
				g := h.numAt(out[i])
				h.check(polyEq(g, k), shortFn(fn), "component %d is %s, not the given number", i, h.c.show(g))
			}
		}
	})
	r.sub("VectorConvertToBig", func(h *H) {
		h.groupLevel(bpPkg)
		fn := h.fn(bpPkg, "VectorConvertToBig")
		vecLens := h.r.w.constSizes(vecLens, 1100, one, fn)
		lo, hi := new(big.Int).Neg(new(big.Int).Lsh(b1, 63)), subB(new(big.Int).Lsh(b1, 63), 1)
		for _, n := range vecLens {
			var vs []Val
			for i := 0; i < n; i++ {
				vs = append(vs, num(h.c.sym(fmt.Sprintf("w%d", i), lo, hi)))
			}
			t := h.pure(fn, h.mkSlice("w", vs), numi(int64(n))).(*AggV)
			h.okErr(t.f[1], fn)
			out := h.in.elems(h.st, t.f[0])
			if !h.check(len(out) == n, shortFn(fn), "%d components, not %d", len(out), n) {
				return
			}
			for i := range out {
				g := h.numAt(out[i])
				h.check(polyEq(g, h.in.onePoly(vs[i])), shortFn(fn), "component %d is %s", i, h.c.show(g))
			}
		}
	})
	r.sub("ScalarProduct", func(h *H) {
		h.groupLevel(bpPkg)
		fn := h.fn(bpPkg, "ScalarProduct")
		vecLens := h.r.w.constSizes(vecLens, 1100, one, fn)
		m := h.bigGlobal(bpPkg, "ORDER")
		for _, n := range vecLens {
			a, av := h.vec("a", n)
			b, bv := h.vec("b", n)
			t := h.pure(fn, av, bv).(*AggV)
			h.okErr(t.f[1], fn)
			want := &Poly{}
			for i := range a {
				want = add(want, h.c.mul(a[i], b[i]))
			}
			h.residue(fn, fmt.Sprintf("<a,b> of length %d", n), h.numAt(t.f[0]), want, m)
		}
		for _, p := range [][2]int{{0, 1}, {1, 0}, {1, 2}, {2, 1}, {3, 5}, {5, 3}, {16, 15}} {
			_, av := h.vec("a", p[0])
			_, bv := h.vec("b", p[1])
			h.errOnly(fn, av, bv)
		}
	})
	r.sub("powerOf", func(h *H) {
		h.groupLevel(bpPkg)
		fn := h.r.w.fn(bpPkg, "powerOf")
		if fn == nil {
			return
		}
		m := h.bigGlobal(bpPkg, "ORDER")
		for _, n := range vecLens {
			x := h.c.sym("x", nil, nil)
			v := h.pure(fn, h.bigV(x), numi(int64(n)))
			out := h.in.elems(h.st, v)
			if !h.check(len(out) == n, shortFn(fn), "%d powers, not %d", len(out), n) {
				return
			}
			want := csti(1)
			for i := range out {
				h.residue(fn, fmt.Sprintf("x^%d", i), h.numAt(out[i]), want, m)
				want = h.c.mul(want, x)
			}
		}
	})
	// group vectors
	pts := func(h *H, name string, n int) ([]*Elem, Val) {
		var es []*Elem
		var vs []Val
		for i := 0; i < n; i++ {
			b := fmt.Sprintf("%s%d", name, i)
			h.c.declBase(&baseInfo{name: b})
			e := h.c.base(h.in.secp(h.st), b)
			es = append(es, e)
			vs = append(vs, h.in.p256New(h.st, e))
		}
		return es, h.mkSlice(name, vs)
	}
	same := func(h *H, fn *ssa.Function, what string, v Val, want *Elem) {
		got := h.in.p256Elem(h.st, v)
		h.check(elemEq(got, want), shortFn(fn), "%s is %s, not %s", what, h.c.showE(got), h.c.showE(want))
	}
	r.sub("VectorExp", func(h *H) {
		h.groupLevel(bpPkg)
		fn := h.fn(bpPkg, "VectorExp")
		vecLens := h.r.w.constSizes(vecLens, 600, one, fn)
		for _, n := range vecLens {
			if n > 33 && n <= 128 {
				continue
			}
			a, av := pts(h, "A", n)
			b, bv := h.vec("b", n)
			t := h.pure(fn, av, bv).(*AggV)
			h.okErr(t.f[1], fn)
			want := zeroElem(h.in.secp(h.st))
			for i := range a {
				want = h.c.eAdd(want, h.c.eScale(a[i], b[i]))
			}
			same(h, fn, fmt.Sprintf("the product of %d powers", n), t.f[0], want)
		}
		for _, p := range [][2]int{{0, 1}, {1, 0}, {1, 2}, {2, 1}, {3, 5}, {5, 3}} {
			_, av := pts(h, "A", p[0])
			_, bv := h.vec("b", p[1])
			h.errOnly(fn, av, bv)
		}
	})
	r.sub("VectorECAdd", func(h *H) {
		h.groupLevel(bpPkg)
		fn := h.fn(bpPkg, "VectorECAdd")
		vecLens := h.r.w.constSizes(vecLens, 600, one, fn)
		for _, n := range vecLens {
			a, av := pts(h, "A", n)
			b, bv := pts(h, "B", n)
			t := h.pure(fn, av, bv).(*AggV)
			h.okErr(t.f[1], fn)
			out := h.in.elems(h.st, t.f[0])
			if !h.check(len(out) == n, shortFn(fn), "%d components, not %d", len(out), n) {
				return
			}
			for i := range out {
				same(h, fn, fmt.Sprintf("component %d", i), out[i], h.c.eAdd(a[i], b[i]))
			}
			if n == 5 {
				t := h.pure(fn, av, av).(*AggV)
				for i, o := range h.in.elems(h.st, t.f[0]) {
					same(h, fn, "component of f(a,a)", o, h.c.eScale(a[i], csti(2)))
				}
			}
		}
		for _, p := range [][2]int{{0, 1}, {1, 0}, {1, 2}, {2, 1}, {3, 5}, {5, 3}} {
			_, av := pts(h, "A", p[0])
			_, bv := pts(h, "B", p[1])
			h.errOnly(fn, av, bv)
		}
	})
	r.sub("vectorScalarExp", func(h *H) {
		h.groupLevel(bpPkg)
		fn := h.r.w.fn(bpPkg, "vectorScalarExp")
		if fn == nil {
			return
		}
		for _, n := range vecLens {
			a, av := pts(h, "A", n)
			k := h.c.sym("k", nil, nil)
			out := h.in.elems(h.st, h.pure(fn, av, h.bigV(k)))
			if !h.check(len(out) == n, shortFn(fn), "%d components, not %d", len(out), n) {
				return
			}
			for i := range out {
				same(h, fn, fmt.Sprintf("component %d", i), out[i], h.c.eScale(a[i], k))
			}
		}
	})
	r.sub("delta", func(h *H) {
		h.groupLevel(bpPkg)
		fn := h.r.w.method(bpPkg, "BulletProofSetupParams", "delta")
		if fn == nil {
			return
		}
		m := h.bigGlobal(bpPkg, "ORDER")
		for _, n := range []int{1, 2, 4, 8, 16, 32} {
			pt := h.typ(bpPkg, "BulletProofSetupParams")
			s := h.in.zero(pt).(*AggV)
			f := append([]Val(nil), s.f...)
			f[h.fieldIx(bpPkg, "BulletProofSetupParams", "N")] = numi(int64(n))
			pv := h.in.newPtr(h.st, pt, "params", &AggV{f})
			y, z := h.c.sym("y", nil, nil), h.c.sym("z", nil, nil)
			got := h.numAt(h.pure(fn, pv, h.bigV(y), h.bigV(z)))
			h.residue(fn, "delta", got, deltaPoly(h.c, y, z, n), m)
		}
	})
}

// deltaPoly is (z-z^2)<1,y^n> - z^3<1,2^n>.
func deltaPoly(c *Ctx, y, z *Poly, n int) *Poly {
	sy, s2 := &Poly{}, &Poly{}
	yp := csti(1)
	for i := 0; i < n; i++ {
		sy = add(sy, yp)
		yp = c.mul(yp, y)
		s2 = add(s2, cst(new(big.Int).Lsh(b1, uint(i))))
	}
	return sub(c.mul(sub(z, c.mul(z, z)), sy), c.mul(c.pow(z, 3), s2))
}

func runDecompose(r *Run) {
	r.facts["level"] = "other"
	us := []int64{2, 3, 4, 5, 7, 8, 10, 16, 57, 100, 255, 256, 257, 1000, 65536, 1 << 20, 1<<31 - 1, 1 << 31, 1<<32 + 1, 1 << 40, 1<<53 + 1, 1 << 62, 1<<63 - 1}
	ls := []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 11, 16, 24, 32, 33, 40, 64, 65, 100, 128}
	r.facts["explanation"] = "Abstract interpretation of Decompose on a symbolic integer x for the listed bases and lengths; every digit has the interval [0,u) and the digit sum differs from x by a multiple of u^l as a polynomial identity over the floor terms."
	r.facts["bases"], r.facts["lengths"] = us, ls
	r.rule("digit i of Decompose(x,u,l) lies in [0,u) and x - sum d_i u^i = u^l floor(x/u^l) for a symbolic integer x")
	for _, u := range us {
		u := u
		r.sub(fmt.Sprintf("base %d", u), func(h *H) {
			h.groupLevel(utilPkg)
			fn := h.fn(utilPkg, "Decompose")
			c := h.c
			for _, l := range ls {
				for _, free := range []bool{true, false} {
					x := c.sym("x", nil, nil)
					ul := new(big.Int).Exp(bi(u), bi(int64(l)), nil)
					if !free {
						if x = csti(0); l > 0 {
							x = c.sym(fmt.Sprintf("xr%d", l), b0, subB(ul, 1))
						}
					}
					t := h.pure(fn, h.in.newPtr(h.st, h.in.bigIntT(), "x", num(x)), numi(u), numi(int64(l))).(*AggV)
					h.okErr(t.f[1], fn)
					out := h.in.elems(h.st, t.f[0])
					if !h.check(len(out) == l, shortFn(fn), "%d digits, not %d", len(out), l) {
						return
					}
					sum := &Poly{}
					w := big.NewInt(1)
					for i, d := range out {
						p := h.in.onePoly(h.in.under(h.st, d))
						lo, hi := c.interval(p)
						h.check(lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(bi(u)) < 0, shortFn(fn), "digit %d of %d in base %d is %s, which is not in [0,%d)", i, l, u, c.show(p), u)
						sum = add(sum, scale(p, w))
						w = new(big.Int).Mul(w, bi(u))
					}
					d := c.applyRelations(sub(x, sum))
					if free {
						d = sub(d, scale(c.div(x, ul), ul))
					}
					h.check(d.isZero(), shortFn(fn), "base %d, %d digits: x minus the digit sum is %s", u, l, c.show(c.applyRelations(sub(x, sum))))
				}
			}
		})
	}
}

// bytesSummaries replaces the conversions by what C32 proves about them.
func (in *Interp) bytesSummaries() {
	in.sums[full(bcPkg, "", "ToByteArray")] = func(in *Interp, st *State, fn *ssa.Function, args []Val, pos token.Pos) (Val, bool) {
		return in.lift1(st, in.under(st, in.rd(st, args[0])), "ToByteArray", func(l Leaf) Leaf {
			p := in.numLeaf(l)
			return SeqL{[]Piece{{k: "tc", key: p.Key(), p: p, n: -1}}}
		}), true
	}
	in.sums[full(bcPkg, "", "FromByteArray")] = func(in *Interp, st *State, fn *ssa.Function, args []Val, pos token.Pos) (Val, bool) {
		l, ok := one(in.under(st, args[0]))
		if !ok {
			in.undec("FromByteArray of alternatives")
		}
		ps := normPieces(in.seqPieces(st, l))
		if len(ps) == 0 {
			return tuple(nilV(), in.errVal("FromByteArray")), true
		}
		if len(ps) == 1 && ps[0].k == "sha" {
			return tuple(in.newInt(st, in.signedHash(ps[0])), nilV()), true
		}
		return nil, false
	}
}

// signedHash is the number that a hash value stands for in two's complement.
func (in *Interp) signedHash(p Piece) *Poly {
	half := new(big.Int).Lsh(b1, 255)
	a := in.c.atom(&atomInfo{kind: aUF, name: "tc(sha:" + p.key + ")", lo: new(big.Int).Neg(half), hi: subB(half, 1), tag: "hash", nonzero: true, data: p})
	return in.c.atomPoly(a)
}

func runBn(r *Run) {
	r.rule("Add, Sub, Multiply are the ring operations; Mod is the residue in [0,m); ModPow and ModInverse are power and inverse modulo a prime, ModPow with negative exponents the inverse of the power; CalculateHash is the two's complement number of SHA-256 over the encodings; arguments are not written")
	const pkg = "util/bn"
	mods := func(h *H) map[string]*big.Int {
		return map[string]*big.Int{"secp256k1 order": h.in.curveParam(h.st, "N"), "secp256k1 prime": h.in.curveParam(h.st, "P"),
			"bn256 order": h.in.globalBig(h.st, bnPkg, "Order"), "bn256 prime": h.in.globalBig(h.st, bnPkg, "P"), "two": bi(2), "57": bi(57), "seven": bi(7)}
	}
	r.sub("ring", func(h *H) {
		h.groupLevel(pkg, utilPkg)
		for _, o := range []struct {
			n string
			f func(a, b *Poly) *Poly
		}{{"Add", add}, {"Sub", sub}, {"Multiply", h.c.mul}} {
			fn := h.fn(pkg, o.n)
			for _, al := range []bool{false, true} {
				x, y := h.c.sym("x", nil, nil), h.c.sym("y", nil, nil)
				xv, yv := h.bigV(x), h.bigV(y)
				if al {
					yv, y = xv, x
				}
				g := h.numAt(h.pure(fn, xv, yv))
				h.check(polyEq(g, o.f(x, y)), shortFn(fn), "%s of x and y is %s", o.n, h.c.show(g))
			}
		}
	})
	r.sub("Mod", func(h *H) {
		h.groupLevel(pkg, utilPkg)
		fn := h.fn(pkg, "Mod")
		for n, m := range mods(h) {
			x := h.c.sym("x", nil, nil)
			g := h.numAt(h.pure(fn, h.bigV(x), h.bigV(cst(m))))
			h.residue(fn, "x mod "+n, g, x, m)
		}
	})
	r.sub("ModInverse", func(h *H) {
		h.groupLevel(pkg, utilPkg)
		fn := h.fn(pkg, "ModInverse")
		for n, m := range mods(h) {
			if !isPrime(m) {
				continue
			}
			x := h.c.atomPoly(h.c.atom(&atomInfo{kind: aSym, name: "x", nonzero: true}))
			g := h.numAt(h.pure(fn, h.bigV(x), h.bigV(cst(m))))
			h.residue(fn, "the inverse modulo "+n, h.c.reduce(h.c.mul(g, x), m), csti(1), m)
			lo, hi := h.c.interval(g)
			h.check(lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(m) < 0, shortFn(fn), "the inverse is not in [0,m)")
		}
	})
	r.sub("ModPow", func(h *H) {
		h.groupLevel(pkg, utilPkg)
		fn := h.fn(pkg, "ModPow")
		for n, m := range mods(h) {
			if !isPrime(m) {
				continue
			}
			x := h.c.atomPoly(h.c.atom(&atomInfo{kind: aSym, name: "x", nonzero: true}))
			for _, e := range []int64{0, 1, 2, 3, 5, 8, 13, -1, -2, -3, -7} {
				g := h.numAt(h.pure(fn, h.bigV(x), h.bigV(csti(e)), h.bigV(cst(m))))
				k := e
				lhs := g
				if e < 0 {
					k = -e
					lhs = h.c.reduce(h.c.mul(g, h.c.powMod(x, int(k), m)), m)
					h.residue(fn, fmt.Sprintf("x^%d * x^%d modulo %s", e, k, n), lhs, csti(1), m)
				} else {
					w := csti(1)
					if k > 0 {
						w = h.c.powMod(x, int(k), m)
					}
					h.residue(fn, fmt.Sprintf("x^%d modulo %s", e, n), lhs, w, m)
				}
			}
			// symbolic exponents
			for _, s := range []string{"negative", "positive"} {
				e := h.c.sym("e"+s, map[string]*big.Int{"negative": nil, "positive": b1}[s], map[string]*big.Int{"negative": bi(-1), "positive": nil}[s])
				xv, ev := h.bigV(x), h.bigV(e)
				g := h.numAt(h.pure(fn, xv, ev, h.bigV(cst(m))))
				ex := e
				if s == "negative" {
					ex = neg(e)
				}
				w := h.in.expNum(x, ex, cst(m))
				if s == "negative" {
					h.check(h.c.equalMod(h.c.mul(g, w), csti(1), m), shortFn(fn), "a power with a negative exponent is %s", h.c.show(g))
				} else {
					h.check(h.c.equalMod(g, w, m), shortFn(fn), "a power with a %s exponent is %s", s, h.c.show(g))
				}
			}
		}
	})
	r.sub("CalculateHash", func(h *H) {
		h.in.bytesSummaries()
		h.groupLevel(pkg, utilPkg)
		fn := h.fn(pkg, "CalculateHash")
		x, y := h.c.sym("x", nil, nil), h.c.sym("y", nil, nil)
		pc := func(p *Poly) Piece { return Piece{k: "tc", key: p.Key(), p: p, n: -1} }
		for _, two := range []bool{true, false} {
			b := nilV()
			ps := []Piece{pc(x)}
			if two {
				b = h.bigV(y)
				ps = append(ps, pc(y))
			}
			t := h.pure(fn, h.bigV(x), b).(*AggV)
			h.okErr(t.f[1], fn)
			g := h.numAt(t.f[0])
			h.check(polyEq(g, h.in.signedHash(h.in.shaPiece(ps))), shortFn(fn), "the hash is %s", h.c.show(g))
		}
	})
}

func runBytes(r *Run) {
	r.facts["level"] = "other"
	maxL := 260
	if r.tier == "thorough" {
		maxL = 600
	}
	r.facts["explanation"] = fmt.Sprintf("Abstract interpretation of the conversions on a symbolic number of every byte length 1 to %d and both signs, split at the bounds where the encoding changes its length, and on byte strings of 0 to %d symbolic bytes, split at the sign bit. Together these cover every number below 2^%d in absolute value.", maxL, maxL, 8*maxL)
	r.rule("ToByteArray(x) has k bytes and big-endian value x or 256^k+x with -2^(8k-1) <= x < 2^(8k-1) and k minimal; FromByteArray(b) is the number whose two's complement encoding is b; the empty string is an error; arguments are not written")
	pow := func(k int) *big.Int { return new(big.Int).Lsh(b1, uint(k)) }
	bcFns := []*ssa.Function{r.w.fn(bcPkg, "ToByteArray"), r.w.fn(bcPkg, "FromByteArray"), r.w.fn(bcPkg, "FlipBytes")}
	var lens []int
	for l := 0; l <= maxL; l++ {
		lens = append(lens, l)
	}
	lens = r.w.constSizes(lens, 2100, []int{1, 8}, bcFns...)
	r.facts["additional_lengths"] = lens[maxL+1:]
	for _, l := range lens {
		if l == 0 {
			continue
		}
		l := l
		r.sub(fmt.Sprintf("encode %d bytes", l), func(h *H) {
			h.init(bcPkg)
			fn := h.fn(bcPkg, "ToByteArray")
			from := h.fn(bcPkg, "FromByteArray")
			lo0 := pow(8 * (l - 1))
			if l == 1 {
				lo0 = b1
			}
			type rg struct{ lo, hi *big.Int }
			rs := []rg{{new(big.Int).Add(lo0, b1), subB(pow(8*l-1), 1)}, {pow(8*l - 1), pow(8*l - 1)}, {new(big.Int).Add(pow(8*l-1), b1), subB(pow(8*l), 1)}, {lo0, lo0}}
			for i, g := range rs {
				for _, sg := range []int64{1, -1} {
					var y *Poly
					if g.lo.Cmp(g.hi) == 0 {
						y = cst(g.lo)
					} else {
						y = h.c.sym(fmt.Sprintf("y%d", i), g.lo, g.hi)
					}
					x := scale(y, bi(sg))
					k := l
					if i == 2 || i == 1 && sg > 0 {
						k++
					}
					h.guard(fmt.Sprintf("sign %d, range %d: ", sg, i), func() {
						v := h.pure(fn, h.bigV(x))
						lf, ok := one(h.in.under(h.st, v))
						if !ok {
							h.in.undec("encoding depends on conditions: %s", valKeyShort(v))
						}
						ps := h.in.seqPieces(h.st, lf)
						n := 0
						if bl, ok := lf.(BytesL); ok {
							n, ok = h.in.byteLen(bl.p)
							if !ok {
								h.in.undec("length of the encoding")
							}
						} else {
							for _, p := range ps {
								if p.n < 0 {
									h.in.undec("length of %s", p.key)
								}
								n += p.n
							}
						}
						if !h.check(n == k, shortFn(fn), "the encoding of %d numbers in [%s,%s] has %d bytes, not %d", sg, g.lo, g.hi, n, k) {
							return
						}
						p, ok := h.in.piecesNum(ps)
						if !ok {
							h.in.undec("value of the encoding")
						}
						want := x
						if sg < 0 {
							want = add(x, cst(pow(8*k)))
						}
						h.check(h.c.applyRelations(sub(p, want)).isZero(), shortFn(fn), "the encoding of a number with sign %d is the number %s, not %s", sg, h.c.show(p), h.c.show(want))
						// decoding gives the number back
						t := h.pure(from, v).(*AggV)
						h.okErr(t.f[1], from)
						bk := h.numAt(t.f[0])
						h.check(h.c.applyRelations(sub(bk, x)).isZero(), shortFn(from), "decoding the encoding of x gives %s", h.c.show(bk))
					})
				}
			}
		})
	}
	r.sub("encode zero", func(h *H) {
		h.init(bcPkg)
		fn := h.fn(bcPkg, "ToByteArray")
		v := h.pure(fn, h.bigV(csti(0)))
		lf, _ := one(v)
		bs, n, ok := h.in.pieceBytes(h.in.seqPieces(h.st, lf))
		h.check(ok && n == 1 && bs[0].isZero(), shortFn(fn), "zero is not encoded as one zero byte")
	})
	for _, n := range lens {
		n := n
		r.sub(fmt.Sprintf("decode %d bytes", n), func(h *H) {
			h.init(bcPkg)
			fn := h.fn(bcPkg, "FromByteArray")
			if n == 0 {
				for _, v := range []Val{h.mkSlice("b", nil), nilV()} {
					t := h.pure(fn, v).(*AggV)
					h.isErr(t.f[1], fn, "for the empty byte string")
				}
				return
			}
			// the value V = 256^n - y of the bytes, split where the shortest
			// encodings of y change their length, and at the sign bit
			type rg struct {
				name   string
				lo, hi *big.Int
			}
			half, all := pow(8*n-1), pow(8*n)
			top := new(big.Int).Mul(bi(255), pow(8*(n-1)))
			rs := []rg{{"positive", b0, subB(half, 1)}, {"lowest", half, half}}
			if n > 1 {
				rs = append(rs, rg{"negative", new(big.Int).Add(half, b1), subB(top, 1)}, rg{"first byte 255", top, top})
				rs = append(rs, rg{"first byte 255, rest not 0", new(big.Int).Add(top, b1), subB(all, 1)})
			} else {
				rs = append(rs, rg{"negative", new(big.Int).Add(half, b1), subB(all, 2)}, rg{"-1", subB(all, 1), subB(all, 1)})
			}
			for i, g := range rs {
				h.guard(g.name+": ", func() {
					var v *Poly
					if g.lo.Cmp(g.hi) == 0 {
						v = cst(g.lo)
					} else {
						v = h.c.sym(fmt.Sprintf("V%d", i), g.lo, g.hi)
					}
					var vs []Val
					for k := n - 1; k >= 0; k-- {
						vs = append(vs, num(h.c.byteOf(v, k)))
					}
					t := h.pure(fn, h.mkSlice("b", vs)).(*AggV)
					h.okErr(t.f[1], fn)
					want := v
					if i > 0 {
						want = sub(v, cst(all))
					}
					gv := h.in.under(h.st, h.in.load(h.st, h.in.under(h.st, t.f[0]))).(*GV)
					for _, a := range gv.alts {
						if h.live(a.g) == bF {
							continue
						}
						d := h.c.applyRelations(sub(h.in.numLeaf(a.l), want))
						h.check(d.isZero(), shortFn(fn), "%d bytes (%s) stand for %s, not %s", n, g.name, h.c.show(h.in.numLeaf(a.l)), h.c.show(want))
					}
				})
			}
		})
	}
}

func runParse(r *Run) {
	r.facts["level"] = "other"
	maxN := 6
	if r.tier == "thorough" {
		maxN = 7
	}
	r.facts["explanation"] = fmt.Sprintf("Abstract interpretation of ParseInput on every sequence of up to %d bytes of the six byte classes comma, minus, digit, below comma, between, above digits, and on long inputs (numbers of 80 digits, up to 20 fields) with any class of byte at any one place, for shorter ones at any two places; the bytes of a class are symbolic.", maxN)
	r.rule("ParseInput returns an error exactly if some field has a byte that is no digit, apart from a leading minus; otherwise one number per field in order, with the value of its digits; a field without digits stands for zero; the input is not written")
	type cl struct {
		n      string
		lo, hi int64
	}
	cls := []cl{{",", 44, 44}, {"-", 45, 45}, {"d", 48, 57}, {"<", 0, 43}, {"/", 46, 47}, {">", 58, 255}}
	var seqs [][]int
	for n := 0; n <= maxN; n++ {
		tot := 1
		for i := 0; i < n; i++ {
			tot *= len(cls)
		}
		for k := 0; k < tot; k++ {
			s := make([]int, n)
			x := k
			for i := range s {
				s[i] = x % len(cls)
				x /= len(cls)
			}
			seqs = append(seqs, s)
		}
	}
	// long inputs: numbers of up to 80 digits, many fields, with and without a
	// minus sign in front, and one or two other bytes at every place
	special := func(base []int, two bool) {
		for i := -1; i < len(base); i++ {
			for c := 0; c < len(cls); c++ {
				if i >= 0 && c == base[i] || i < 0 && c > 0 {
					continue
				}
				s := append([]int{}, base...)
				if i >= 0 {
					s[i] = c
				}
				seqs = append(seqs, s)
				for j := i + 1; two && i >= 0 && j < len(base); j++ {
					for d := 0; d < 3; d++ {
						if d != base[j] {
							s := append([]int{}, s...)
							s[j] = d
							seqs = append(seqs, s)
						}
					}
				}
			}
		}
	}
	shape := func(n, every int, minus bool) []int {
		s := make([]int, n)
		for i := range s {
			s[i] = 2
			if every > 0 && i%every == every-1 {
				s[i] = 0
			}
			if minus && (i == 0 || every > 0 && i%every == 0) {
				s[i] = 1
			}
		}
		return s
	}
	for _, minus := range []bool{false, true} {
		special(shape(80, 0, minus), false)
		special(shape(41, map[bool]int{false: 2, true: 3}[minus], minus), false)
		special(shape(12, 4, minus), true)
		special(shape(11, 0, minus), true)
	}
	if r.tier == "thorough" {
		special(shape(24, 0, false), true)
		special(shape(160, 0, true), false)
		special(shape(120, 20, true), false)
	}
	// sizes a constant in the source stands for: that many digits, that many
	// bytes in fields of one and of ten digits
	parse := []*ssa.Function{r.w.fn(bcPkg, "ParseInput"), r.w.fn(bcPkg, "ConvertToBigInt")}
	for _, n := range r.w.constSizes([]int{0, 1, 2}, 1100, []int{1}, parse...)[3:] {
		for _, minus := range []bool{false, true} {
			seqs = append(seqs, shape(n, 0, minus), shape(2*n-1, 2, false), shape(3*n-1, 3, minus), append(shape(n, 0, minus), 5))
			if n > 4 {
				seqs = append(seqs, append(shape(n-4, 4, minus), 2, 0, 2, 2))
				bad := shape(n, 0, minus)
				bad[n/2] = 5
				seqs = append(seqs, bad)
			}
		}
	}
	r.facts["byte_sequences"] = len(seqs)
	const parts = 16
	for part := 0; part < parts; part++ {
		part := part
		r.sub(fmt.Sprintf("part %d", part), func(h *H) {
			h.init(bcPkg)
			fn := h.fn(bcPkg, "ParseInput")
			st0 := *h.st
			for k := part; k < len(seqs); k += parts {
				*h.st = st0
				s := seqs[k]
				name := ""
				var vs []Val
				var ps []*Poly
				bad := false
				var want []*Poly
				cur, neg1, ln := &Poly{}, false, 0
				flush := func() {
					if neg1 {
						cur = neg(cur)
					}
					want = append(want, cur)
					cur, neg1, ln = &Poly{}, false, 0
				}
				for i, j := range s {
					name += cls[j].n
					var p *Poly
					if cls[j].lo == cls[j].hi {
						p = csti(cls[j].lo)
					} else {
						p = h.c.sym(fmt.Sprintf("%s%d", cls[j].n, i), bi(cls[j].lo), bi(cls[j].hi))
					}
					ps = append(ps, p)
					vs = append(vs, num(p))
					switch cls[j].n {
					case ",":
						flush()
						continue
					case "-":
						if ln > 0 {
							bad = true
						}
						neg1 = true
					case "d":
						cur = add(scale(cur, bi(10)), sub(p, csti(48)))
					default:
						bad = true
					}
					ln++
				}
				flush()
				h.guard(name+": ", func() {
					t := h.pure(fn, h.mkSlice("in", vs)).(*AggV)
					if bad {
						h.isErr(t.f[1], fn, "for the malformed input "+name)
						return
					}
					if !h.okErr(t.f[1], fn) {
						return
					}
					out := h.in.elems(h.st, t.f[0])
					if !h.check(len(out) == len(want), shortFn(fn), "%d numbers for the %d fields of %s", len(out), len(want), name) {
						return
					}
					for i := range out {
						g := h.numAt(out[i])
						h.check(polyEq(g, want[i]), shortFn(fn), "field %d of %s is %s, not %s", i, name, h.c.show(g), h.c.show(want[i]))
					}
				})
			}
		})
	}
}
