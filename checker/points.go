package main

// Points and GF(p^12) elements held in coordinate cells: the coordinates of
// an element are formal symbols that name the element and the representation,
// so that code may copy or negate them, test them for zero, or hand them to
// the arithmetic, which is summarised by the group law (C20, C21, C22).

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

type absRef struct {
	e   *Elem
	i   int // coordinate
	rep string
	tv  bool // t = z^2
	typ string
}

type affPt struct {
	typ  string
	x, y *Poly
	e    *Elem
}

type absT struct {
	in    *Interp
	grp   map[string]*Group
	aff   []affPt
	lines map[string]*lineInfo

	frob   bool          // Frobenius images of points are recognised
	onTest func(e *Elem) // comparison of a product with one
	noLine int
}

func (in *Interp) ptrTo(typ string) types.Type { return types.NewPointer(in.w.typ(bnPkg, typ)) }

func (t *absT) k2(typ string) bool { return typ != "curvePoint" }

// value cells for coordinate q; variant as in part.
func (t *absT) cellVals(q *Poly, k2 bool, variant string) []Val {
	c := t.in.c
	if !k2 {
		return []Val{num(q)}
	}
	return []Val{num(c.part(q, true, variant)), num(c.part(q, false, variant))}
}

func (t *absT) coordAtom(typ string, e *Elem, i int, rep string, tv, nz bool) *Poly {
	c := t.in.c
	a := &atomInfo{kind: aSym, k2: t.k2(typ), name: fmt.Sprintf("%s.%d(%s)#%s", typ, i, e.Key(), rep), nonzero: nz, data: &absRef{e, i, rep, tv, typ}}
	if nz && !a.k2 {
		a.lo = b1
	}
	return c.atomPoly(c.atom(a))
}

// content is the list of cell values of a fresh representation of e.
func (t *absT) content(typ string, e *Elem, tv bool) []Val {
	c := t.in.c
	rep := c.freshName("r")
	var out []Val
	if typ == "gfP12" {
		for i := 0; i < 6; i++ {
			out = append(out, t.cellVals(t.coordAtom(typ, e, i, rep, false, false), true, "U")...)
		}
		return out
	}
	z0 := c.zeroE(e)
	for i := 0; i < 4; i++ {
		variant := "U"
		if i == 2 {
			variant = "Z"
			if z0 == bT {
				for range t.cellVals(&Poly{}, t.k2(typ), variant) {
					out = append(out, numi(0))
				}
				continue
			}
		}
		vs := t.cellVals(t.coordAtom(typ, e, i, rep, tv, i == 2), t.k2(typ), variant)
		if i == 2 {
			for k := range vs {
				vs[k] = c.merge(z0, numi(0), vs[k])
			}
		}
		out = append(out, vs...)
	}
	return out
}

// make allocates an object of the type that holds e.
func (t *absT) make(st *State, typ string, e *Elem, name string) Val {
	vs := t.content(typ, e, true)
	i := 0
	h := &H{in: t.in, st: st, c: t.in.c}
	return h.mk(t.in.ptrTo(typ), name, func(string) Val { i++; return vs[i-1] })
}

func (t *absT) write(st *State, v Val, typ string, val Val, tv bool) {
	in := t.in
	cs := in.cells(st, in.under(st, v), in.ptrTo(typ))
	var acc []Val
	for k, a := range val.(*GV).alts {
		vs := t.content(typ, a.l.(ElemL).e, tv)
		if k == 0 {
			acc = vs
			continue
		}
		for i := range vs {
			acc[i] = in.c.merge(a.g, vs[i], acc[i])
		}
	}
	if len(acc) != len(cs) {
		in.undec("%s has other coordinates", typ)
	}
	for i, p := range cs {
		in.wr(st, leaf(p), acc[i])
	}
}

type jointAlt struct {
	g  Bdd
	ps []*Poly
}

// joint lists the combinations of cell values that can occur together.
func (in *Interp) joint(st *State, cells []PtrL) []jointAlt {
	c := in.c
	pc := c.and(st.pc, in.care)
	out := []jointAlt{{bT, nil}}
	for _, p := range cells {
		v, ok := in.under(st, in.loadP(st, p)).(*GV)
		if !ok {
			in.undec("coordinate is no number")
		}
		var nx []jointAlt
		for _, j := range out {
			for _, a := range v.alts {
				g := c.and(j.g, a.g)
				if c.and(g, pc) == bF {
					continue
				}
				nx = append(nx, jointAlt{g, append(append([]*Poly(nil), j.ps...), in.numLeaf(a.l))})
			}
		}
		if len(nx) > 64 {
			in.undec("coordinates depend on too many conditions")
		}
		out = nx
	}
	return in.splitBits(st, out)
}

// splitBits distinguishes the values of the bits that select a combination.
func (in *Interp) splitBits(st *State, js []jointAlt) []jointAlt {
	c := in.c
	pc := c.and(st.pc, in.care)
	for i := 0; i < len(js); i++ {
		var bit *atomInfo
		for _, p := range js[i].ps {
			for _, t := range p.t {
				for k := 0; k+6 <= len(t.m); k += 6 {
					if a := c.atoms[atomOf(t.m[k:])]; bit == nil {
						if _, ok := a.data.(*symBit); ok {
							bit = a
						}
						if a.kind == aReal || a.kind == aImag {
							for _, t := range a.arg.t {
								for k := 0; k+6 <= len(t.m); k += 6 {
									b := c.atoms[atomOf(t.m[k:])]
									if _, ok := b.data.(*symBit); ok {
										bit = b
									}
								}
							}
						}
					}
				}
			}
		}
		if bit == nil {
			continue
		}
		if len(js) > 64 {
			in.undec("coordinates depend on too many bits")
		}
		var two []jointAlt
		z := c.zeroInt(c.atomPoly(bit))
		for k, g := range []Bdd{z, c.not(z)} {
			g = c.and(g, js[i].g)
			if c.and(g, pc) == bF {
				continue
			}
			var ps []*Poly
			for _, p := range js[i].ps {
				ps = append(ps, c.substDeep(p, bit, csti(int64(k))))
			}
			two = append(two, jointAlt{g, ps})
		}
		js = append(append(append([]jointAlt(nil), js[:i]...), two...), js[i+1:]...)
		i--
	}
	// a value that several selections have in common
	var out []jointAlt
	for _, j := range js {
		parts := []Bdd{j.g}
		for _, i := range c.support(j.g) {
			a := i.bin
			if a == nil && i.num != nil && i.mod == nil {
				a = c.single(i.num)
			}
			if a == nil {
				continue
			}
			if _, ok := a.data.(*symBit); !ok {
				continue
			}
			z := c.zeroInt(c.atomPoly(a))
			var nx []Bdd
			for _, g := range parts {
				nx = append(nx, c.and(g, z), c.and(g, c.not(z)))
			}
			parts = nx
		}
		for _, g := range parts {
			if c.and(g, pc) != bF {
				out = append(out, jointAlt{g, j.ps})
			}
		}
	}
	return out
}

// substDeep substitutes also in the coordinates of formal elements.
func (c *Ctx) substDeep(p *Poly, a *atomInfo, v *Poly) *Poly {
	m := map[atomID]*Poly{a.id: v}
	for _, t := range p.t {
		for k := 0; k+6 <= len(t.m); k += 6 {
			b := c.atoms[atomOf(t.m[k:])]
			if b.kind == aReal || b.kind == aImag {
				if n := c.subst1(b.arg, a, v); !polyEq(n, b.arg) {
					m[b.id] = c.part(n, b.kind == aImag, b.data.(string))
				}
			}
		}
	}
	return c.substitute(p, m)
}

// coords are the field elements in a list of cell values.
func (t *absT) coords(typ string, ps []*Poly) []*Poly {
	if !t.k2(typ) {
		return ps
	}
	var out []*Poly
	for i := 0; i+1 < len(ps); i += 2 {
		out = append(out, t.in.c.k2Poly(ps[i], ps[i+1]))
	}
	return out
}

func (t *absT) ref(p *Poly) *absRef {
	c := t.in.c
	if len(p.t) != 1 || p.t[0].c.Cmp(b1) != 0 {
		return nil
	}
	a := c.single(p)
	if a == nil {
		return nil
	}
	r, _ := a.data.(*absRef)
	return r
}

// negMod is the additive inverse of a coordinate.
func (t *absT) negMod(p *Poly) *Poly { return t.in.c.reduce(neg(p), t.in.c.p) }

// refs recognises the coordinates ix of one representation; y may be negated.
func (t *absT) refs(qs []*Poly, ix []int) *absRef {
	var r *absRef
	for k, i := range ix {
		x := t.ref(t.in.c.reduce(qs[k], t.in.c.p))
		if x == nil || x.i != i || r != nil && (x.rep != r.rep || x.e != r.e) {
			return nil
		}
		if r == nil {
			r = x
		}
	}
	return r
}

// elem recognises an element; affine tells that z is literally one, tv that t
// is the square of z.
func (t *absT) elem(typ string, q []*Poly) (e *Elem, affine, tv bool) {
	in, c := t.in, t.in.c
	g := t.grp[typ]
	if typ == "gfP12" {
		one := c.rone(6)
		if c.requal(q, one) < 0 {
			return zeroElem(g), false, false
		}
		if r := t.refs(q, []int{0, 1, 2, 3, 4, 5}); r != nil {
			return r.e, false, false
		}
		n := append([]*Poly{t.negMod(q[0]), t.negMod(q[1]), t.negMod(q[2])}, q[3:]...)
		if r := t.refs(n, []int{0, 1, 2, 3, 4, 5}); r != nil {
			return c.eScale(r.e, cst(new(big.Int).Exp(c.p, bi(6), nil))), false, false
		}
		in.undec("element of GF(p^12) with coordinates %s", fmtPolys(c, q))
	}
	if q[2].isZero() {
		return zeroElem(g), false, false
	}
	if r := t.refs(q[:3], []int{0, 1, 2}); r != nil {
		tr := t.ref(c.reduce(q[3], c.p))
		return r.e, false, r.tv && tr != nil && tr.rep == r.rep && tr.i == 3
	}
	if r := t.refs([]*Poly{q[0], t.negMod(q[1]), q[2]}, []int{0, 1, 2}); r != nil {
		tr := t.ref(c.reduce(q[3], c.p))
		return c.eNeg(r.e), false, r.tv && tr != nil && tr.rep == r.rep && tr.i == 3
	}
	if !polyEq(q[2], csti(1)) {
		in.undec("point with coordinates %s", fmtPolys(c, q))
	}
	return t.affElem(typ, q[0], q[1]), true, polyEq(q[3], csti(1))
}

func (t *absT) affElem(typ string, x, y *Poly) *Elem {
	c := t.in.c
	for _, a := range t.aff {
		if a.typ != typ || !c.equalMod(a.x, x, c.p) {
			continue
		}
		if c.equalMod(a.y, y, c.p) {
			return a.e
		}
		if c.equalMod(a.y, neg(y), c.p) {
			return c.eNeg(a.e)
		}
	}
	if t.frob && typ == "twistPoint" {
		if e := t.frobElem(x, y); e != nil {
			return e
		}
	}
	name := fmt.Sprintf("%s(%s,%s)", typ, c.show(c.reduce(x, c.p)), c.show(c.reduce(y, c.p)))
	if len(name) > 80 {
		name = fmt.Sprintf("%s%d", typ, len(t.aff))
	}
	c.declBase(&baseInfo{name: name, nonzero: true})
	e := c.base(t.grp[typ], name)
	t.aff = append(t.aff, affPt{typ, x, y, e})
	return e
}

// affine coordinates of an element that is not the identity
func (t *absT) affXY(typ string, e *Elem) (*Poly, *Poly) {
	c := t.in.c
	for _, a := range t.aff {
		if a.typ == typ && elemEq(a.e, e) {
			return a.x, a.y
		}
	}
	mk := func(n string) *Poly {
		a := &atomInfo{kind: aSym, k2: t.k2(typ), name: typ + "." + n + "(" + e.Key() + ")"}
		if !a.k2 {
			a.lo, a.hi = b0, subB(c.p, 1)
		}
		return c.atomPoly(c.atom(a))
	}
	x, y := mk("X"), mk("Y")
	t.aff = append(t.aff, affPt{typ, x, y, e})
	return x, y
}

func (t *absT) read(st *State, v Val, typ string) Val {
	in := t.in
	var alts []Alt
	for _, j := range in.joint(st, in.cells(st, in.under(st, v), in.ptrTo(typ))) {
		e, _, _ := t.elem(typ, t.coords(typ, j.ps))
		alts = append(alts, Alt{j.g, ElemL{e}})
	}
	if len(alts) == 0 {
		return leaf(ElemL{zeroElem(t.grp[typ])})
	}
	// the identity, where another element is the identity, is that element
	c := in.c
	for i, a := range alts {
		if len(a.l.(ElemL).e.t) > 0 {
			continue
		}
		for _, b := range alts {
			e := b.l.(ElemL).e
			if len(e.t) > 0 && c.and(c.and(a.g, c.not(c.zeroE(e))), c.and(st.pc, in.care)) == bF {
				alts[i].l = b.l
				break
			}
		}
	}
	return in.c.foldElems(in, st, alts)
}

// points installs the summaries; with mul, scalar multiplication is one step.
func (in *Interp) points(mul bool, grp map[string]*Group) *absT {
	t := &absT{in: in, grp: grp, lines: map[string]*lineInfo{}}
	c := in.c
	sum := func(typ, name string, f func(st *State, a []Val) Val) {
		in.sums[full(bnPkg, typ, name)] = func(in *Interp, st *State, fn *ssa.Function, a []Val, pos token.Pos) (Val, bool) {
			r := f(st, a)
			if fn.Signature.Results().Len() == 0 {
				return nil, true
			}
			return r, true
		}
	}
	el := func(l Leaf) *Elem { return l.(ElemL).e }
	un := func(typ string, f func(e *Elem) *Elem) func(st *State, a []Val) Val {
		return func(st *State, a []Val) Val {
			t.write(st, a[0], typ, in.lift1(st, t.read(st, a[1], typ), "op", func(l Leaf) Leaf { return ElemL{f(el(l))} }), false)
			return a[0]
		}
	}
	bin := func(typ string) func(st *State, a []Val) Val {
		return func(st *State, a []Val) Val {
			x, y := t.read(st, a[1], typ), t.read(st, a[2], typ)
			t.write(st, a[0], typ, in.lift2(st, x, y, "op", func(x, y Leaf) Leaf { return ElemL{c.eAdd(el(x), el(y))} }), false)
			return a[0]
		}
	}
	scal := func(typ string) func(st *State, a []Val) Val {
		return func(st *State, a []Val) Val {
			x, k := t.read(st, a[1], typ), in.under(st, in.rd(st, a[2]))
			for _, al := range k.(*GV).alts {
				if n := c.and(c.and(al.g, c.negB(in.numLeaf(al.l))), c.and(st.pc, in.care)); n != bF {
					if c.and(n, c.feas(n)) != bF {
						in.undec("the bits of a number that may be negative")
					}
				}
			}
			t.write(st, a[0], typ, in.lift2(st, x, k, "op", func(x, y Leaf) Leaf { return ElemL{c.eScale(el(x), in.numLeaf(y))} }), false)
			return a[0]
		}
	}
	for _, typ := range []string{"curvePoint", "twistPoint"} {
		typ := typ
		if grp[typ] == nil {
			continue
		}
		sum(typ, "Add", bin(typ))
		sum(typ, "Double", un(typ, func(e *Elem) *Elem { return c.eScale(e, csti(2)) }))
		if mul {
			sum(typ, "Mul", scal(typ))
		}
	}
	if grp["gfP12"] != nil {
		typ := "gfP12"
		pk := func(k int64) *Poly { return cst(new(big.Int).Exp(c.p, bi(k), nil)) }
		sum(typ, "Mul", bin(typ))
		sum(typ, "Square", un(typ, func(e *Elem) *Elem { return c.eScale(e, csti(2)) }))
		sum(typ, "Invert", un(typ, c.eNeg))
		sum(typ, "Exp", scal(typ))
		sum(typ, "Conjugate", un(typ, func(e *Elem) *Elem { return c.eScale(e, pk(6)) }))
		sum(typ, "Frobenius", un(typ, func(e *Elem) *Elem { return c.eScale(e, pk(1)) }))
		sum(typ, "FrobeniusP2", un(typ, func(e *Elem) *Elem { return c.eScale(e, pk(2)) }))
		sum(typ, "Minimal", func(st *State, a []Val) Val { t.read(st, a[0], typ); return nil })
		sum(typ, "IsOne", func(st *State, a []Val) Val {
			r := bF
			for _, x := range t.read(st, a[0], typ).(*GV).alts {
				r = c.or(r, c.and(x.g, in.zeroOf(el(x.l))))
				if t.onTest != nil {
					t.onTest(el(x.l))
				}
			}
			return BoolV{r}
		})
		sum(typ, "IsZero", func(st *State, a []Val) Val { t.read(st, a[0], typ); return BoolV{bF} })
	}
	return t
}

type lineInfo struct {
	r, p *big.Int // multiples of the base point
	pair string
}

// genPoints registers the generators under their names.
func (t *absT) gens(h *H) {
	c := h.c
	for typ, n := range map[string][2]string{"curvePoint": {"curveGen", "g1"}, "twistPoint": {"twistGen", "g2"}} {
		if t.grp[typ] == nil {
			continue
		}
		g := h.r.w.global(bnPkg, n[0])
		if g == nil {
			panic(undecided{n[0] + " not found"})
		}
		v := h.in.load(h.st, h.in.globalPtr(g))
		js := h.in.joint(h.st, h.in.cells(h.st, v, h.in.ptrTo(typ)))
		if len(js) != 1 {
			panic(undecided{n[0] + " is not constant"})
		}
		q := t.coords(typ, js[0].ps)
		if !polyEq(q[2], csti(1)) {
			panic(undecided{n[0] + " is not affine"})
		}
		c.declBase(&baseInfo{name: n[1], nonzero: true})
		t.aff = append(t.aff, affPt{typ, q[0], q[1], c.base(t.grp[typ], n[1])})
	}
}

// pointView is the algebraic meaning of point objects in loops.
func (t *absT) pointView(typ string) *view {
	return &view{
		group: true,
		read: func(in *Interp, st *State, p PtrL, _ types.Type) (res interface{}, ok bool) {
			defer func() {
				if e := recover(); e != nil {
					if _, un := e.(undecided); !un {
						panic(e)
					}
					res, ok = nil, false
				}
			}()
			e, ok := t.bitElem(t.read(st, leaf(p), typ).(*GV))
			return e, ok
		},
		write: func(in *Interp, st *State, p PtrL, _ types.Type, v interface{}) {
			t.write(st, leaf(p), typ, leaf(ElemL{v.(*Elem)}), false)
		},
		fresh: func(in *Interp, name string) interface{} {
			return in.c.base(t.grp[typ], name)
		},
	}
}

// bitElem joins alternatives that depend on one bit into one formal sum.
func (t *absT) bitElem(v *GV) (*Elem, bool) {
	c := t.in.c
	if len(v.alts) == 1 {
		return v.alts[0].l.(ElemL).e, true
	}
	if len(v.alts) != 2 {
		return nil, false
	}
	for _, a := range c.atoms[1:] {
		if _, ok := a.data.(*symBit); !ok {
			continue
		}
		p := c.atomPoly(a)
		for k := 0; k < 2; k++ {
			if v.alts[k].g == c.zeroInt(p) && v.alts[1-k].g == c.not(c.zeroInt(p)) {
				e0, e1 := v.alts[k].l.(ElemL).e, v.alts[1-k].l.(ElemL).e
				return c.eAdd(e0, c.eScale(c.eSub(e1, e0), p)), true
			}
		}
	}
	return nil, false
}

// frobElem recognises the images of known points under the p^k-Frobenius of
// the curve over GF(p^12), carried to the twist: [p^k] in the group of order r.
func (t *absT) frobElem(x, y *Poly) *Elem {
	c := t.in.c
	for k := 1; k <= 3; k++ {
		pk := new(big.Int).Exp(c.p, bi(int64(k)), nil)
		pm := new(big.Int).Sub(pk, b1)
		cx := c.k2Exp(c.xi(), new(big.Int).Div(pm, bi(3)))
		cy := c.k2Exp(c.xi(), new(big.Int).Div(pm, bi(2)))
		for _, a := range t.aff {
			if a.typ != "twistPoint" {
				continue
			}
			ax, ay := a.x, a.y
			if k%2 == 1 {
				ax, ay = c.conj(ax), c.conj(ay)
			}
			ax, ay = c.kmul(ax, cx), c.kmul(ay, cy)
			if !c.equalMod(x, ax, c.p) {
				continue
			}
			e := c.eScale(a.e, cst(pk))
			if c.equalMod(y, ay, c.p) {
				return e
			}
			if c.equalMod(y, neg(ay), c.p) {
				return c.eNeg(e)
			}
		}
	}
	return nil
}
