package main

// C21, C22: Jacobian arithmetic against the affine chord and tangent formulas.

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	props["C21"] = func(r *Run) { runCurve(r, "curvePoint") }
	props["C22"] = func(r *Run) { runCurve(r, "twistPoint") }
}

type curveKit struct {
	h   *H
	typ string
	k2  bool
	pt  types.Type
}

func (h *H) curve(typ string) *curveKit {
	k := &curveKit{h: h, typ: typ, k2: typ == "twistPoint", pt: h.ptyp(bnPkg, typ)}
	if k.k2 {
		h.k2Mode()
	}
	return k
}

// point makes a point object: kind is "inf", "fin" (z is not zero), "aff"
// (z is literally one) or "gen" (not one, not zero).
func (k *curveKit) point(name, kind string) Val {
	h, c := k.h, k.h.c
	return h.mk(k.pt, name, func(n string) Val {
		// n is name.x (curve) or name.x.x (twist)
		rest := n[len(name)+1:]
		co := rest[:1]
		im := k.k2 && rest[2:] == "x"
		if co == "z" && kind == "inf" {
			return numi(0)
		}
		if co == "z" && kind == "aff" {
			if im {
				return numi(0)
			}
			return numi(1)
		}
		nz := co == "z" || co == "y"
		if !k.k2 {
			a := &atomInfo{kind: aSym, name: n, nonzero: nz}
			if co == "z" {
				a.lo = b1
				if kind == "gen" {
					a.lo = b2
				}
			}
			if co == "y" && kind == "inf" {
				a.nonzero = false
			}
			return num(c.atomPoly(c.atom(a)))
		}
		a := c.atom(&atomInfo{kind: aSym, k2: true, name: name + "." + co, nonzero: nz && !(co == "y" && kind == "inf")})
		v := "U"
		if co == "z" {
			v = "Z"
		}
		return num(c.part(c.atomPoly(a), im, v))
	})
}

type jac struct{ x, y, z, t *Poly }

// coords reads the four coordinates where region holds.
func (k *curveKit) coords(p Val, region Bdd) (jac, bool) {
	h := k.h
	st := *h.st
	st.pc = h.c.and(st.pc, region)
	ns := h.in.numsOf(&st, p, k.pt)
	var out []*Poly
	if k.k2 {
		for i := 0; i+1 < len(ns); i += 2 {
			x, ok1 := h.in.k2cell(ns[i])
			y, ok2 := h.in.k2cell(ns[i+1])
			if !ok1 || !ok2 {
				return jac{}, false
			}
			out = append(out, h.c.k2Poly(x, y))
		}
	} else {
		for _, n := range ns {
			x, ok := h.in.k2cell(n)
			if !ok {
				return jac{}, false
			}
			out = append(out, x)
		}
	}
	if len(out) != 4 {
		panic(undecided{"point with other coordinates than x,y,z,t"})
	}
	return jac{out[0], out[1], out[2], out[3]}, true
}

// zInt is the condition that z is zero as the code tests it.
func (k *curveKit) zInt(p Val, region Bdd) Bdd {
	h := k.h
	st := *h.st
	st.pc = h.c.and(st.pc, region)
	ns := h.in.numsOf(&st, p, k.pt)
	r := bT
	zs := ns[2:3]
	if k.k2 {
		zs = ns[4:6]
	}
	for _, z := range zs {
		zz := bF
		for _, a := range z.(*GV).alts {
			zz = h.c.or(zz, h.c.and(a.g, h.c.zeroInt(h.in.numLeaf(a.l))))
		}
		r = h.c.and(r, zz)
	}
	return r
}

func (k *curveKit) zNonneg(p Val, region Bdd) bool {
	h := k.h
	st := *h.st
	st.pc = h.c.and(st.pc, region)
	ns := h.in.numsOf(&st, p, k.pt)
	zs := ns[2:3]
	if k.k2 {
		zs = ns[4:6]
	}
	for _, z := range zs {
		for _, a := range z.(*GV).alts {
			if lo, _ := h.c.interval(h.in.numLeaf(a.l)); lo == nil || lo.Sign() < 0 {
				return false
			}
		}
	}
	return true
}

func (k *curveKit) zero(p *Poly) Bdd {
	if k.k2 {
		return k.h.c.zeroK2(p)
	}
	return k.h.c.zeroModB(p, k.h.c.p)
}
func (k *curveKit) mul(ps ...*Poly) *Poly {
	r := ps[0]
	for _, p := range ps[1:] {
		r = k.h.c.reduce(k.h.c.mul(r, p), k.h.c.p)
	}
	return r
}
func (k *curveKit) inv(p *Poly) *Poly { return k.h.c.inverse(p, k.h.c.p) }

// affine coordinates of a finite point
func (k *curveKit) affine(j jac) (x, y *Poly) {
	zi := k.inv(j.z)
	return k.mul(j.x, zi, zi), k.mul(j.y, zi, zi, zi)
}

func (k *curveKit) chord(x1, y1, x2, y2 *Poly) (*Poly, *Poly) {
	l := k.mul(sub(y2, y1), k.inv(sub(x2, x1)))
	x3 := sub(sub(k.mul(l, l), x1), x2)
	return x3, sub(k.mul(l, sub(x1, x3)), y1)
}
func (k *curveKit) tangent(x, y *Poly) (*Poly, *Poly) {
	l := k.mul(csti(3), x, x, k.inv(scale(y, b2)))
	x3 := sub(k.mul(l, l), scale(x, b2))
	return x3, sub(k.mul(l, sub(x, x3)), y)
}

// same checks that the object is the finite point (x,y) where region holds.
func (k *curveKit) same(p Val, region Bdd, x, y *Poly, where, what string) {
	h := k.h
	if h.c.and(h.st.pc, region) == bF {
		return
	}
	j, ok := k.coords(p, region)
	if !h.check(ok, where, "%s: coordinates depend on further conditions", what) {
		return
	}
	z := h.c.and(k.zInt(p, region), h.c.and(h.st.pc, region))
	if !h.check(z == bF, where, "%s: result is infinite, should be finite, when %s", what, h.c.showB(z)) {
		return
	}
	h.check(h.c.imp(h.c.and(h.st.pc, region), h.c.not(k.zero(j.z))), where, "%s: z may be a multiple of P", what)
	h.check(k.zNonneg(p, region), where, "%s: z may be negative", what)
	h.check(h.c.equalMod(j.x, k.mul(x, j.z, j.z), h.c.p), where, "%s: wrong x coordinate", what)
	h.check(h.c.equalMod(j.y, k.mul(y, j.z, j.z, j.z), h.c.p), where, "%s: wrong y coordinate", what)
}

func (k *curveKit) infinite(p Val, region Bdd, where, what string) {
	h := k.h
	g := h.c.and(h.st.pc, region)
	if g == bF {
		return
	}
	z := k.zInt(p, region)
	bad := h.c.and(g, h.c.not(z))
	h.check(bad == bF, where, "%s: result should be infinite when %s", what, h.c.showB(bad))
}

// snapshot and comparison of operands
func (k *curveKit) snap(p Val) []Val { return k.h.in.numsOf(k.h.st, p, k.pt) }
func (k *curveKit) unchanged(p Val, old []Val, where, what string) {
	for i, v := range k.snap(p) {
		k.h.check(sameVal(v, old[i]), where, "%s changes an operand that is not the receiver", what)
	}
}

func (k *curveKit) protect(ps ...Val) {
	k.h.in.protect = map[int]bool{}
	for _, p := range ps {
		for _, c := range k.h.in.cells(k.h.st, p, k.pt) {
			k.h.in.protect[c.obj] = true
		}
	}
}

func runCurve(r *Run, typ string) {
	r.rule("the Jacobian coordinates written by an operation are those of the point the group law defines: chord for different x, tangent for equal points, infinity for opposite points and copies for infinite operands, under every aliasing; z is never a nonzero multiple of P")
	k2 := typ == "twistPoint"
	_ = k2
	where := func(h *H, m string) (string, []string) {
		fn := h.method(bnPkg, typ, m)
		return h.r.w.pos(fn.Pos()) + " " + shortFn(fn), nil
	}
	names := []string{"receiver", "a", "b"}
	for _, part := range partitions(3) {
		part := part
		al := aliasName(part, names)
		r.sub("Add "+al, func(h *H) {
			h.bnField()
			k := h.curve(typ)
			fn := h.method(bnPkg, typ, "Add")
			wh, _ := where(h, "Add")
			base := *h.st
			for _, ka := range []string{"inf", "fin"} {
				for _, kb := range []string{"inf", "fin"} {
					if part[1] == part[2] && ka != kb {
						continue
					}
					*h.st = base
					objs := map[int]Val{}
					kinds := []string{"fin", ka, kb}
					for i := 2; i >= 0; i-- {
						if objs[part[i]] == nil {
							objs[part[i]] = k.point(names[i]+ka+kb, kinds[i])
						}
					}
					c, a, b := objs[part[0]], objs[part[1]], objs[part[2]]
					k.protect(c, a, b)
					ja, ok1 := k.coords(a, bT)
					jb, ok2 := k.coords(b, bT)
					if !ok1 || !ok2 {
						panic(undecided{"operand"})
					}
					sa, sb := k.snap(a), k.snap(b)
					args := []Val{c, a, b}
					if usesPool(fn) {
						args = append(args, h.pool())
					}
					pc := h.st.pc
					h.call(fn, args...)
					what := fmt.Sprintf("Add (%s; a %s, b %s)", al, ka, kb)
					h.check(h.st.pc == pc, wh, "%s does not return", what)
					switch {
					case ka == "inf" && kb == "inf":
						k.infinite(c, bT, wh, what)
					case ka == "inf":
						x, y := k.affine(jb)
						k.same(c, bT, x, y, wh, what)
					case kb == "inf":
						x, y := k.affine(ja)
						k.same(c, bT, x, y, wh, what)
					case part[1] == part[2]:
						x, y := k.affine(ja)
						x, y = k.tangent(x, y)
						k.same(c, bT, x, y, wh, what)
					default:
						hx := k.zero(sub(k.mul(ja.x, jb.z, jb.z), k.mul(jb.x, ja.z, ja.z)))
						hy := k.zero(sub(k.mul(ja.y, jb.z, jb.z, jb.z), k.mul(jb.y, ja.z, ja.z, ja.z)))
						x1, y1 := k.affine(ja)
						x2, y2 := k.affine(jb)
						x3, y3 := k.chord(x1, y1, x2, y2)
						k.same(c, h.c.not(hx), x3, y3, wh, what+", different x")
						k.infinite(c, h.c.and(hx, h.c.not(hy)), wh, what+", opposite points")
						x4, y4 := k.tangent(x1, y1)
						k.same(c, h.c.and(hx, hy), x4, y4, wh, what+", equal points")
					}
					if part[1] != part[0] {
						k.unchanged(a, sa, wh, what)
					}
					if part[2] != part[0] {
						k.unchanged(b, sb, wh, what)
					}
				}
			}
			h.sample("Add (%s): infinite, opposite, equal and generic operands", al)
		})
	}
	for _, part := range partitions(2) {
		part := part
		al := aliasName(part, names[:2])
		r.sub("unary "+al, func(h *H) {
			h.bnField()
			k := h.curve(typ)
			base := *h.st
			for _, m := range []string{"Double", "Negative", "Set"} {
				fn := h.method(bnPkg, typ, m)
				wh, _ := where(h, m)
				for _, kind := range []string{"inf", "fin", "aff"} {
					*h.st = base
					a := k.point("a"+m+kind, kind)
					c := a
					if part[0] != part[1] {
						c = k.point("c"+m+kind, "fin")
					}
					k.protect(a, c)
					ja, _ := k.coords(a, bT)
					sa := k.snap(a)
					args := []Val{c, a}
					if usesPool(fn) {
						args = append(args, h.pool())
					}
					pc := h.st.pc
					h.call(fn, args...)
					what := fmt.Sprintf("%s (%s; a %s)", m, al, kind)
					h.check(h.st.pc == pc, wh, "%s does not return", what)
					if kind == "inf" {
						k.infinite(c, bT, wh, what)
					} else {
						x, y := k.affine(ja)
						switch m {
						case "Double":
							x, y = k.tangent(x, y)
						case "Negative":
							y = neg(y)
						}
						k.same(c, bT, x, y, wh, what)
					}
					if c != a {
						k.unchanged(a, sa, wh, what)
					}
				}
			}
		})
	}
	r.sub("MakeAffine", func(h *H) {
		h.bnField()
		k := h.curve(typ)
		fn := h.method(bnPkg, typ, "MakeAffine")
		wh, _ := where(h, "MakeAffine")
		base := *h.st
		for _, kind := range []string{"inf", "aff", "gen"} {
			*h.st = base
			a := k.point("a"+kind, kind)
			k.protect(a)
			ja, _ := k.coords(a, bT)
			if kind == "gen" {
				ns := h.in.numsOf(h.st, a, k.pt)
				isOne := h.c.zeroInt(sub(h.in.onePoly(ns[2]), csti(1)))
				if k.k2 {
					isOne = h.c.and(h.c.zeroInt(h.in.onePoly(ns[4])), h.c.zeroInt(sub(h.in.onePoly(ns[5]), csti(1))))
				}
				h.st.pc = h.c.and(h.st.pc, h.c.not(isOne))
			}
			args := []Val{a}
			if usesPool(fn) {
				args = append(args, h.pool())
			}
			pc := h.st.pc
			ret := h.call(fn, args...)
			what := "MakeAffine (" + kind + ")"
			h.check(h.st.pc == pc, wh, "%s does not return", what)
			if fn.Signature.Results().Len() == 1 {
				h.check(valKey(ret) == valKey(a), wh, "%s does not return its receiver", what)
			}
			if kind == "inf" {
				k.infinite(a, bT, wh, what)
				continue
			}
			x, y := k.affine(ja)
			k.same(a, bT, x, y, wh, what)
			if j, ok := k.coords(a, bT); ok {
				h.check(h.c.equalMod(j.z, csti(1), h.c.p), wh, "%s: z is not one", what)
				h.check(h.c.equalMod(j.t, csti(1), h.c.p), wh, "%s: t is not z^2", what)
			}
		}
	})
	for _, part := range partitions(2) {
		part := part
		al := aliasName(part, names[:2])
		r.sub("Mul "+al, func(h *H) {
			h.bnField()
			k := h.curve(typ)
			fn := h.method(bnPkg, typ, "Mul")
			g := &Group{name: typ, p: h.c.p}
			t := h.in.points(false, map[string]*Group{typ: g})
			h.in.views = map[string]*view{bnType(typ): t.pointView(typ)}
			n := h.c.sym("n", b0, nil)
			for _, e := range []*Elem{h.c.base(g, "a"), zeroElem(g)} {
				for _, s := range []*Poly{n, {}, csti(1), csti(6)} {
					e, s := e, s
					h.each("Mul by "+h.c.show(s)+": ", func() {
						a := t.make(h.st, typ, e, "a")
						c := a
						if part[0] != part[1] {
							c = t.make(h.st, typ, h.c.base(g, "old"), "c")
						}
						k.protect(a, c)
						may := map[int]bool{}
						for _, p := range h.in.cells(h.st, c, k.pt) {
							may[p.obj] = true
						}
						args := []Val{c, a, h.bigV(s)}
						if usesPool(fn) {
							args = append(args, h.pool())
							may[ptrID(args[3])] = true
						}
						ret := h.pureBut(may, fn, args...)
						if fn.Signature.Results().Len() == 1 {
							h.check(samePtr(ret, c), shortFn(fn), "Mul does not return its receiver")
						}
						h.isElem(t, fn, typ, c, h.c.eScale(e, s))
					})
				}
			}
			h.sample("Mul (%s): [n]a for every n >= 0", al)
		})
	}
	r.sub("tests", func(h *H) {
		h.bnField()
		k := h.curve(typ)
		a := k.point("a", "aff")
		ja, _ := k.coords(a, bT)
		sa := k.snap(a)
		var bco *Poly
		if k.k2 {
			g := h.r.w.global(bnPkg, "twistB")
			if g == nil {
				panic(undecided{"twistB not found"})
			}
			bco = h.in.k2Of(h.st, h.in.load(h.st, h.in.globalPtr(g)), h.ptyp(bnPkg, "gfP2"))[0]
		} else {
			bco = cst(h.bigGlobal(bnPkg, "curveB"))
		}
		fn := h.method(bnPkg, typ, "IsOnCurve")
		wh, _ := where(h, "IsOnCurve")
		pc := h.st.pc
		v := h.call(fn, a)
		want := k.zero(sub(k.mul(ja.y, ja.y), add(k.mul(ja.x, ja.x, ja.x), bco)))
		b, ok := v.(BoolV)
		h.check(ok && h.c.equiv(b.b, want, pc) && h.st.pc == pc, wh, "IsOnCurve is not y^2 = x^3+b")
		k.unchanged(a, sa, wh, "IsOnCurve")
		for _, kind := range []string{"inf", "fin", "aff"} {
			p := k.point("p"+kind, kind)
			fi := h.method(bnPkg, typ, "IsInfinity")
			v := h.call(fi, p)
			w := bF
			if kind == "inf" {
				w = bT
			}
			b, ok := v.(BoolV)
			h.check(ok && b.b == w, h.r.w.pos(fi.Pos())+" "+shortFn(fi), "IsInfinity is wrong for %s", kind)
			fs := h.method(bnPkg, typ, "SetInfinity")
			h.call(fs, p)
			k.infinite(p, bT, h.r.w.pos(fs.Pos())+" "+shortFn(fs), "SetInfinity")
		}
	})
}

func ptrID(v Val) int { p, _ := ptr1(v); return p.obj }

// isElem: the object holds the element want.
func (h *H) isElem(t *absT, fn *ssa.Function, typ string, v Val, want *Elem) {
	for _, al := range t.read(h.st, v, typ).(*GV).alts {
		got := al.l.(ElemL).e
		z := h.live(h.c.and(al.g, h.c.not(h.c.zeroE(h.c.eSub(got, want)))))
		h.check(z == bF, shortFn(fn), "the result is %s, not %s%s", h.c.showE(got), h.c.showE(want), when(h.c, z))
	}
}
