package main

// C24: line functions against the affine line, the Miller loop and the final
// exponentiation through divisors and formal exponents.

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { props["C24"] = runPairing }

// fillP makes a twist point with the given coordinates.
func (h *H) twist(name string, q [4]*Poly, variant [4]string) Val {
	c := h.c
	return h.mk(h.ptyp(bnPkg, "twistPoint"), name, func(n string) Val {
		rest := n[len(name)+1:]
		i := map[byte]int{'x': 0, 'y': 1, 'z': 2, 't': 3}[rest[0]]
		return num(c.part(q[i], rest[2:] == "x", variant[i]))
	})
}

func (h *H) k2sym(name string, nz bool) *Poly {
	return h.c.atomPoly(h.c.atom(&atomInfo{kind: aSym, k2: true, name: name, nonzero: nz}))
}

func (h *H) k2Val(v Val) *Poly {
	return h.in.k2Of(h.st, h.in.under(h.st, v), h.ptyp(bnPkg, "gfP2"))[0]
}

// lineOK: (a t + b) w + c is a multiple by a nonzero element of GF(p^2) of
// the line with slope l through (x,y), evaluated at (qx,qy).
func (h *H) lineOK(fn *ssa.Function, k *curveKit, a, b, c2, l, x, y, qx, qy *Poly) {
	c := h.c
	// c = kappa qy
	aq := c.single(qy)
	kappa := c.reduce(c.subst1(c2, aq, csti(1)), c.p)
	z := c.and(k.zero(kappa), c.and(h.st.pc, h.in.care))
	h.check(z == bF, shortFn(fn), "the line is multiplied by a number that can be zero%s", when(c, z))
	h.check(c.equalMod(c2, k.mul(kappa, qy), c.p), shortFn(fn), "the constant coefficient of the line is not a multiple of the y coordinate")
	h.check(c.equalMod(b, neg(k.mul(kappa, l, qx)), c.p), shortFn(fn), "the coefficient b of the line is not -slope times x coordinate")
	h.check(c.equalMod(a, k.mul(kappa, sub(k.mul(l, x), y)), c.p), shortFn(fn), "the coefficient a of the line is not slope*x-y")
}

// newPoint: ro is the finite point (x,y) with t = z^2, as field elements.
func (h *H) newPoint(fn *ssa.Function, k *curveKit, ro Val, x, y *Poly) {
	c := h.c
	j, ok := k.coords(ro, bT)
	if !h.check(ok, shortFn(fn), "the coordinates of the new point depend on conditions") {
		return
	}
	z := c.and(k.zero(j.z), c.and(h.st.pc, h.in.care))
	h.check(z == bF, shortFn(fn), "the new point can be infinite%s", when(c, z))
	h.check(c.equalMod(j.x, k.mul(x, j.z, j.z), c.p), shortFn(fn), "wrong x coordinate of the new point")
	h.check(c.equalMod(j.y, k.mul(y, j.z, j.z, j.z), c.p), shortFn(fn), "wrong y coordinate of the new point")
	h.check(c.equalMod(j.t, k.mul(j.z, j.z), c.p), shortFn(fn), "t of the new point is not z^2")
}

func runPairing(r *Run) {
	r.facts["level"] = "proof"
	r.rule("the line functions, for all points as formal elements of GF(p^2): the new point is the sum, t is z^2, and (a t+b) w + c is, up to a factor in GF(p^2)*, the line through the points evaluated at the image of the G1 point; mulLine multiplies by it")
	r.rule("Pair and PairingCheck are interpreted with line functions as symbols whose divisors are known and GF(p^12) elements as formal products: the result must have the divisor of the optimal ate Miller function, up to vertical lines, with the exponent (p^12-1)/r; identities give one")
	line := func(h *H, name string) (*ssa.Function, *curveKit) {
		h.bnField()
		k := h.curve("twistPoint")
		return h.r.w.lineFn(name), k
	}
	qpt := func(h *H) (Val, *Poly, *Poly) {
		c := h.c
		qx, qy := c.sym("qx", nil, nil), c.sym("qy", nil, nil)
		v := h.mk(h.ptyp(bnPkg, "curvePoint"), "q", func(n string) Val {
			switch n[2:] {
			case "x":
				return num(qx)
			case "y":
				return num(qy)
			}
			return numi(1)
		})
		return v, qx, qy
	}
	vU := [4]string{"U", "U", "Z", "U"}
	out := func(h *H, fn *ssa.Function, v Val) (a, b, c *Poly, rOut Val) {
		t, ok := v.(*AggV)
		if !ok || len(t.f) != 4 {
			panic(undecided{shortFn(fn) + " does not return three coefficients and a point"})
		}
		return h.k2Val(t.f[0]), h.k2Val(t.f[1]), h.k2Val(t.f[2]), t.f[3]
	}
	r.sub("lineFunctionAdd", func(h *H) {
		fn, k := line(h, "lineFunctionAdd")
		if fn == nil {
			return
		}
		c := h.c
		z := h.k2sym("rz", true)
		rj := [4]*Poly{h.k2sym("rx", false), h.k2sym("ry", true), z, k.mul(z, z)}
		px, py := h.k2sym("px", false), h.k2sym("py", true)
		rv := h.twist("r", rj, vU)
		pv := h.twist("p", [4]*Poly{px, py, csti(1), h.k2sym("pt", false)}, [4]string{"U", "U", "", "U"})
		q, qx, qy := qpt(h)
		r2 := h.mk(h.ptyp(bnPkg, "gfP2"), "r2", func(n string) Val { return num(c.part(k.mul(py, py), n == "r2.x", "U")) })
		rx, ry := k.affine(jac{rj[0], rj[1], rj[2], rj[3]})
		h.assume(c.not(k.zero(sub(k.mul(px, z, z), rj[0]))))
		args := []Val{rv, pv, q, r2}
		if usesPool(fn) {
			args = append(args, h.pool())
		}
		k.protect(rv, pv)
		pc := h.st.pc
		a, b, cc, ro := out(h, fn, h.pureBut(map[int]bool{ptrID(args[len(args)-1]): true}, fn, args...))
		h.check(h.st.pc == pc, shortFn(fn), "does not return")
		x3, y3 := k.chord(rx, ry, px, py)
		h.newPoint(fn, k, ro, x3, y3)
		l := k.mul(sub(py, ry), k.inv(sub(px, rx)))
		h.lineOK(fn, k, a, b, cc, l, px, py, qx, qy)
		h.sample("line through R and P, slope (yP-yR)/(xP-xR)")
	})
	r.sub("lineFunctionDouble", func(h *H) {
		fn, k := line(h, "lineFunctionDouble")
		if fn == nil {
			return
		}
		z := h.k2sym("rz", true)
		rj := [4]*Poly{h.k2sym("rx", false), h.k2sym("ry", true), z, k.mul(z, z)}
		rv := h.twist("r", rj, vU)
		q, qx, qy := qpt(h)
		rx, ry := k.affine(jac{rj[0], rj[1], rj[2], rj[3]})
		args := []Val{rv, q}
		if usesPool(fn) {
			args = append(args, h.pool())
		}
		k.protect(rv)
		pc := h.st.pc
		a, b, cc, ro := out(h, fn, h.pureBut(map[int]bool{ptrID(args[len(args)-1]): true}, fn, args...))
		h.check(h.st.pc == pc, shortFn(fn), "does not return")
		x3, y3 := k.tangent(rx, ry)
		h.newPoint(fn, k, ro, x3, y3)
		l := k.mul(csti(3), rx, rx, k.inv(scale(ry, b2)))
		h.lineOK(fn, k, a, b, cc, l, rx, ry, qx, qy)
		h.sample("tangent at R, slope 3x^2/2y")
	})
	r.sub("mulLine", func(h *H) {
		fn, _ := line(h, "mulLine")
		if fn == nil {
			return
		}
		c := h.c
		pt := h.ptyp(bnPkg, "gfP12")
		ret := h.mk(pt, "ret", h.k2Num("U"))
		old := h.in.k2Of(h.st, ret, pt)
		var co []*Poly
		args := []Val{ret}
		for _, n := range []string{"a", "b", "c"} {
			q := h.k2sym(n, false)
			co = append(co, q)
			n := n
			args = append(args, h.mk(h.ptyp(bnPkg, "gfP2"), n, func(m string) Val { return num(c.part(q, m == n+".x", "U")) }))
		}
		may := map[int]bool{}
		for _, p := range h.in.cells(h.st, ret, pt) {
			may[p.obj] = true
		}
		if usesPool(fn) {
			args = append(args, h.pool())
			may[ptrID(args[4])] = true
		}
		for _, v := range args[1:4] {
			for _, p := range h.in.cells(h.st, v, h.ptyp(bnPkg, "gfP2")) {
				h.in.protect[p.obj] = true
			}
		}
		h.pureBut(may, fn, args...)
		want := c.rmul(old, []*Poly{{}, co[0], co[1], {}, {}, co[2]})
		got := h.in.k2Of(h.st, ret, pt)
		i := c.requal(got, want)
		h.check(i < 0, shortFn(fn), "coordinate %d is not that of ret*((a t+b) w+c)", i)
	})
	for _, ca := range []string{"finite", "a=0", "b=0", "both 0"} {
		ca := ca
		r.sub("Pair "+ca, func(h *H) {
			t := h.pairingMode()
			c := h.c
			fn := h.fn(bnPkg, "Pair")
			c.declBase(&baseInfo{name: "P", nonzero: true})
			c.declBase(&baseInfo{name: "Q", nonzero: true})
			p, q := c.base(t.grp["curvePoint"], "P"), c.base(t.grp["twistPoint"], "Q")
			if ca == "a=0" || ca == "both 0" {
				p = zeroElem(p.g)
			}
			if ca == "b=0" || ca == "both 0" {
				q = zeroElem(q.g)
			}
			a, b := h.bnObj(t, "G1", "a", p), h.bnObj(t, "G2", "b", q)
			pc := h.st.pc
			v := h.pure(fn, a, b)
			h.check(h.st.pc == pc, shortFn(fn), "does not return")
			e := h.gtElem(t, v)
			if ca != "finite" {
				h.check(len(e.t) == 0, shortFn(fn), "the pairing with the identity is not one")
				return
			}
			h.millerOK(t, fn, e, map[string]int64{"P,Q": 1})
		})
	}
	for _, n := range r.w.constSizes([]int{0, 1, 2, 3, 4}, 70, []int{1}, r.w.fn(bnPkg, "PairingCheck")) {
		n := n
		r.sub(fmt.Sprintf("PairingCheck %d", n), func(h *H) {
			fn := h.fn(bnPkg, "PairingCheck")
			masks := 1 << uint(2*n)
			if n > 4 {
				masks = 2
			}
			for mask := 0; mask < masks; mask++ {
				if n > 2 && n <= 4 && mask&(mask>>uint(n)) != 0 {
					continue
				}
				if n == 4 && mask&(mask-1) != 0 {
					continue
				}
				mask := mask
				t := h.pairingMode()
				c := h.c
				h.each(fmt.Sprintf("mask %b: ", mask), func() {
					var as, bs []Val
					want := map[string]int64{}
					for i := 0; i < n; i++ {
						pn, qn := fmt.Sprintf("P%d", i), fmt.Sprintf("Q%d", i)
						c.declBase(&baseInfo{name: pn, nonzero: true})
						c.declBase(&baseInfo{name: qn, nonzero: true})
						p, q := c.base(t.grp["curvePoint"], pn), c.base(t.grp["twistPoint"], qn)
						if mask>>uint(i)&1 == 1 {
							p = zeroElem(p.g)
						}
						if mask>>uint(n+i)&1 == 1 {
							q = zeroElem(q.g)
						}
						if len(p.t) > 0 && len(q.t) > 0 {
							want[pn+","+qn] = 1
						}
						as, bs = append(as, h.bnObj(t, "G1", "a", p)), append(bs, h.bnObj(t, "G2", "b", q))
					}
					var tested []*Elem
					t.onTest = func(e *Elem) { tested = append(tested, e) }
					got := h.boolB(h.pure(fn, h.mkSlice("as", as), h.mkSlice("bs", bs)))
					if len(want) == 0 {
						h.check(h.live(c.not(got)) == bF, shortFn(fn), "the empty product is not accepted")
						return
					}
					if !h.check(len(tested) == 1, shortFn(fn), "the verdict is not one comparison with one") {
						return
					}
					h.check(h.live(c.xor(got, c.zeroE(tested[0]))) == bF, shortFn(fn), "the verdict is not that the product is one")
					h.millerOK(t, fn, tested[0], want)
				})
			}
		})
	}
}

func (h *H) gtElem(t *absT, v Val) *Elem {
	s, ok := h.in.rd(h.st, h.in.under(h.st, v)).(*AggV)
	if !ok {
		panic(undecided{"pairing result"})
	}
	l, ok := one(t.read(h.st, h.in.under(h.st, s.f[0]), "gfP12"))
	if !ok {
		panic(undecided{"pairing result depends on conditions"})
	}
	return l.(ElemL).e
}

// millerOK: e is the product of the optimal ate pairings of the listed pairs.
func (h *H) millerOK(t *absT, fn *ssa.Function, e *Elem, want map[string]int64) {
	c := h.c
	o := t.grp["twistPoint"].order
	full := subB(new(big.Int).Exp(c.p, bi(12), nil), 1)
	ex := new(big.Int).Div(full, o)
	// divisors per pair: multiple of Q -> coefficient
	div := map[string]map[string]*big.Int{}
	put := func(pair string, n *big.Int, k *big.Int) {
		n = new(big.Int).Mod(n, o)
		k = new(big.Int).Set(k)
		if n.Sign() == 0 {
			return
		}
		if m := new(big.Int).Sub(o, n); m.Cmp(n) < 0 { // vertical lines vanish
			n, k = m, k.Neg(k)
		}
		d := div[pair]
		if d == nil {
			d = map[string]*big.Int{}
			div[pair] = d
		}
		if d[n.String()] == nil {
			d[n.String()] = new(big.Int)
		}
		x := d[n.String()]
		x.Add(x, k).Mod(x, o)
	}
	for _, tm := range e.t {
		l := t.lines[tm.base]
		k, ok := tm.co.isConst()
		if !h.check(l != nil && ok, shortFn(fn), "the result contains %s, which is no line function", tm.base) {
			return
		}
		if !h.check(new(big.Int).Mod(k, ex).Sign() == 0, shortFn(fn), "the exponent of a line is not a multiple of (p^12-1)/r") {
			return
		}
		k = new(big.Int).Div(k, ex)
		put(l.pair, l.r, k)
		put(l.pair, l.p, k)
		put(l.pair, new(big.Int).Neg(new(big.Int).Add(l.r, l.p)), k)
	}
	p := new(big.Int).Mod(c.p, o)
	p2 := new(big.Int).Mul(p, p)
	u := h.bigGlobal(bnPkg, "u")
	s := new(big.Int).Add(new(big.Int).Mul(u, bi(6)), b2)
	sp := new(big.Int).Add(s, p)
	for pair, m := range want {
		neg := func(x *big.Int) *big.Int { return new(big.Int).Neg(x) }
		k := bi(-m)
		put(pair, b1, new(big.Int).Mul(s, k)) // f_s: s(Q) - ([s]Q)
		put(pair, s, neg(k))
		put(pair, s, k) // line [s]Q, [p]Q
		put(pair, p, k)
		put(pair, neg(sp), k)
		put(pair, sp, k) // line [s+p]Q, -[p^2]Q
		put(pair, neg(p2), k)
		put(pair, neg(new(big.Int).Sub(sp, p2)), k)
	}
	for pair, d := range div {
		if !h.check(want[pair] != 0 || len(d) == 0, shortFn(fn), "the result depends on the pair %s", pair) {
			return
		}
		for n, k := range d {
			if !h.check(k.Sign() == 0, shortFn(fn), "the divisor of the function for %s differs from that of the optimal ate pairing at [%s]Q", pair, n) {
				return
			}
		}
	}
	h.check(true, shortFn(fn), "")
	h.sample("%d line functions, %d pairs", len(e.t), len(want))
}

// pairingMode: G1, G2 of order r, GF(p^12)* with exponents modulo p^12-1.
func (h *H) pairingMode() *absT {
	h.bnField()
	h.k2Mode()
	in, c := h.in, h.c
	o := in.globalBig(h.st, bnPkg, "Order")
	grp := map[string]*Group{
		"curvePoint": {name: "G1", order: o, p: c.p},
		"twistPoint": {name: "G2", order: o, p: c.p},
		"gfP12":      {name: "GF12", order: subB(new(big.Int).Exp(c.p, bi(12), nil), 1), p: c.p},
	}
	t := in.points(true, grp)
	t.gens(h)
	t.frob = true
	for _, typ := range []string{"curvePoint", "twistPoint"} {
		typ := typ
		in.sums[modFull(typ, "MakeAffine")] = func(in *Interp, st *State, fn *ssa.Function, a []Val, pos token.Pos) (Val, bool) {
			t.makeAffine(st, a[0], typ)
			if fn.Signature.Results().Len() == 0 {
				return nil, true
			}
			return a[0], true
		}
	}
	k2of := func(st *State, v Val) *Poly { return in.k2Of(st, in.under(st, v), in.ptrTo("gfP2"))[0] }
	lineRes := func(st *State, base string, sum *Elem) Val {
		var f []Val
		hh := &H{in: in, st: st, c: c}
		for i := 0; i < 3; i++ {
			a := c.atomPoly(c.atom(&atomInfo{kind: aSym, k2: true, name: fmt.Sprintf("%s.%d", base, i), data: &lineRef{base, i}}))
			f = append(f, hh.mk(in.ptrTo("gfP2"), "line", func(n string) Val { return num(c.part(a, n == "line.x", "")) }))
		}
		rep := t.content("twistPoint", sum, true)
		i := 0
		f = append(f, hh.mk(in.ptrTo("twistPoint"), "rOut", func(string) Val { i++; return rep[i-1] }))
		return &AggV{f}
	}
	// operand reads a point that must not depend on conditions.
	operand := func(st *State, v Val, typ string) (e *Elem, affine, tv bool, q []*Poly) {
		js := in.joint(st, in.cells(st, in.under(st, v), in.ptrTo(typ)))
		if len(js) != 1 {
			in.undec("point depends on conditions")
		}
		q = t.coords(typ, js[0].ps)
		e, affine, tv = t.elem(typ, q)
		return
	}
	multiple := func(e *Elem) (string, *big.Int) {
		if len(e.t) == 0 {
			return "", b0
		}
		k, ok := e.t[0].co.isConst()
		if len(e.t) != 1 || !ok {
			in.undec("point %s in a line function", c.showE(e))
		}
		return e.t[0].base, k
	}
	lineSum := func(st *State, rv, pv, qv Val, r2 Val) Val {
		re, _, rtv, _ := operand(st, rv, "twistPoint")
		qe, qaff, _, _ := operand(st, qv, "curvePoint")
		pe := re
		if pv != nil {
			e, aff, _, pq := operand(st, pv, "twistPoint")
			pe = e
			if len(pe.t) > 0 && len(qe.t) > 0 && len(re.t) > 0 {
				if !aff {
					in.event("panic", st.pc, "mixed addition of a point that is not affine")
				}
				if !c.equalMod(k2of(st, r2), c.kmul(pq[1], pq[1]), c.p) {
					in.event("panic", st.pc, "the square of the y coordinate handed to the line function belongs to another point")
				}
			}
		}
		if len(re.t) == 0 || len(pe.t) == 0 || len(qe.t) == 0 { // the result is not used, see the verdict
			t.noLine++
			return lineRes(st, c.freshName("no line"), zeroElem(re.g))
		}
		if !rtv {
			in.event("panic", st.pc, "line function for a point without t = z^2")
		}
		if !qaff {
			in.event("panic", st.pc, "line function evaluated at a point that is not affine")
		}
		rb, rn := multiple(re)
		pb, pn := multiple(pe)
		qb, qn := multiple(qe)
		if rb != pb || qn.Cmp(b1) != 0 {
			in.undec("line through multiples of different points")
		}
		if pv != nil && (rn.Cmp(pn) == 0 || new(big.Int).Add(rn, pn).Cmp(o) == 0) {
			in.event("panic", st.pc, "chord through equal or opposite points")
		}
		base := "line(" + qb + ";" + rb + ":" + rn.Text(62) + "," + pn.Text(62) + ")"
		if t.lines[base] == nil {
			t.lines[base] = &lineInfo{r: rn, p: pn, pair: qb + "," + rb}
			c.declBase(&baseInfo{name: base, nonzero: true})
		}
		return lineRes(st, base, c.eAdd(re, pe))
	}
	lineSums := map[string]Summary{}
	lineSums["lineFunctionAdd"] = func(in *Interp, st *State, fn *ssa.Function, a []Val, pos token.Pos) (Val, bool) {
		return lineSum(st, a[0], a[1], a[2], a[3]), true
	}
	lineSums["lineFunctionDouble"] = func(in *Interp, st *State, fn *ssa.Function, a []Val, pos token.Pos) (Val, bool) {
		return lineSum(st, a[0], nil, a[1], nil), true
	}
	lineSums["mulLine"] = func(in *Interp, st *State, fn *ssa.Function, a []Val, pos token.Pos) (Val, bool) {
		base := ""
		for i := 0; i < 3; i++ {
			q := k2of(st, a[1+i])
			at := c.single(q)
			var r *lineRef
			if at != nil && len(q.t) == 1 && q.t[0].c.Cmp(b1) == 0 {
				r, _ = at.data.(*lineRef)
			}
			if r == nil || r.i != i || base != "" && base != r.base {
				in.undec("coefficients of a line are %s", c.show(q))
			}
			base = r.base
		}
		if t.lines[base] == nil {
			c.declBase(&baseInfo{name: base, nonzero: true})
		}
		x := t.read(st, a[0], "gfP12")
		t.write(st, a[0], "gfP12", in.lift1(st, x, "mulLine", func(l Leaf) Leaf {
			return ElemL{c.eAdd(l.(ElemL).e, c.base(grp["gfP12"], base))}
		}), false)
		if fn.Signature.Results().Len() == 1 {
			return a[0], true
		}
		return nil, true
	}
	for n, s := range lineSums {
		if fn := in.w.lineFn(n); fn != nil {
			in.sums[fn.String()] = s
		}
	}
	return t
}

type lineRef struct {
	base string
	i    int
}

func modFull(typ, m string) string { return full(bnPkg, typ, m) }

// makeAffine: z becomes one; the identity keeps z = 0.
func (t *absT) makeAffine(st *State, v Val, typ string) {
	in := t.in
	cs := in.cells(st, in.under(st, v), in.ptrTo(typ))
	js := in.joint(st, cs)
	if len(js) != 1 {
		in.undec("MakeAffine of a point that depends on conditions")
	}
	q := t.coords(typ, js[0].ps)
	e, affine, _ := t.elem(typ, q)
	var out []Val
	switch {
	case len(e.t) == 0:
		for i := 0; i < 4; i++ {
			if i == 2 {
				out = append(out, t.cellVals(&Poly{}, t.k2(typ), "")...)
			} else {
				out = append(out, t.cellVals(t.coordAtom(typ, e, i, in.c.freshName("inf"), false, false), t.k2(typ), "U")...)
			}
		}
	default:
		x, y := q[0], q[1]
		if !affine {
			x, y = t.affXY(typ, e)
		}
		for _, p := range []*Poly{x, y, csti(1), csti(1)} {
			variant := "U"
			if _, ok := p.isConst(); ok {
				variant = ""
			}
			out = append(out, t.cellVals(p, t.k2(typ), variant)...)
		}
	}
	for i, p := range cs {
		in.wr(st, leaf(p), out[i])
	}
}

// lineFn finds one of the functions of the Miller loop by its name, or by the
// types of its parameters if there is one such function.
func (w *World) lineFn(name string) *ssa.Function {
	if fn := w.fn(bnPkg, name); fn != nil {
		return fn
	}
	shape := map[string]string{
		"lineFunctionAdd":    "twistPoint twistPoint curvePoint gfP2 : gfP2 gfP2 gfP2 twistPoint",
		"lineFunctionDouble": "twistPoint curvePoint : gfP2 gfP2 gfP2 twistPoint",
		"mulLine":            "gfP12 gfP2 gfP2 gfP2 :",
	}[name]
	var found []*ssa.Function
	for _, fn := range w.pkgFns(bnPkg) {
		var l []string
		add := func(t types.Type) {
			p, ok := t.Underlying().(*types.Pointer)
			if !ok {
				l = append(l, t.String())
				return
			}
			if n := namedName(p.Elem()); !strings.HasSuffix(n, ".bnPool") {
				l = append(l, n[strings.LastIndex(n, ".")+1:])
			}
		}
		for _, p := range fn.Params {
			add(p.Type())
		}
		l = append(l, ":")
		rs := fn.Signature.Results()
		if name == "mulLine" && rs.Len() == 1 && len(fn.Params) > 0 && types.Identical(rs.At(0).Type(), fn.Params[0].Type()) {
			rs = types.NewTuple()
		}
		for i := 0; i < rs.Len(); i++ {
			add(rs.At(i).Type())
		}
		if strings.Join(l, " ") == shape {
			found = append(found, fn)
		}
	}
	if len(found) == 1 {
		return found[0]
	}
	return nil
}

// pkgFns lists the functions and methods declared in a package of ours.
func (w *World) pkgFns(pkg string) []*ssa.Function {
	p := w.pkgs[modPath+"/"+pkg]
	var out []*ssa.Function
	if p == nil {
		return nil
	}
	for _, m := range p.Members {
		switch x := m.(type) {
		case *ssa.Function:
			if x.Synthetic == "" {
				out = append(out, x)
			}
		case *ssa.Type:
			n, ok := x.Type().(*types.Named)
			if !ok {
				continue
			}
			for i := 0; i < n.NumMethods(); i++ {
				if fn := w.prog.FuncValue(n.Method(i)); fn != nil {
					out = append(out, fn)
				}
			}
		}
	}
	return out
}
