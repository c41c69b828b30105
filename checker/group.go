package main

// Summaries of the group layers for the protocol level: points of secp256k1
// and elements of G1, G2 and GT are formal linear combinations of bases. The
// summaries are what C17 and C23, C24, C26 prove about the group methods.

import (
	"go/token"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

const p256Pkg = "crypto/p256"
const bpPkg = "bulletproofs"
const ccsPkg = "ccs08"
const bbPkg = "crypto/bbsignatures"
const utilPkg = "util"
const bcPkg = "util/byteconversion"

func (in *Interp) globalBig(st *State, pkg, name string) *big.Int {
	g := in.w.global(pkg, name)
	if g == nil {
		in.undec("global %s.%s not found", pkg, name)
	}
	k, ok := in.isConstV(st, in.load(st, in.load(st, in.globalPtr(g))))
	if !ok {
		in.undec("global %s is not constant", name)
	}
	return k
}

// ---------- secp256k1 ----------

// curveParam reads a field of the curve object p256.CURVE.
func (in *Interp) curveParam(st *State, name string) *big.Int {
	g := in.w.global(p256Pkg, "CURVE")
	if g == nil {
		in.undec("p256.CURVE not found")
	}
	v := in.load(st, in.load(st, in.globalPtr(g)))
	a, ok := v.(*AggV)
	if !ok {
		in.undec("p256.CURVE has no value yet")
	}
	b, ok := a.f[0].(*AggV)
	if !ok {
		in.undec("p256.CURVE has another shape")
	}
	// fields of secp256k1.BitCurve: P, N, B, Gx, Gy, BitSize
	i := map[string]int{"P": 0, "N": 1, "B": 2, "Gx": 3, "Gy": 4, "BitSize": 5}[name]
	v = b.f[i]
	if i < 5 {
		v = in.load(st, v)
	}
	k, ok := in.isConstV(st, v)
	if !ok {
		in.undec("curve parameter %s is not constant", name)
	}
	return k
}

func (in *Interp) secp(st *State) *Group {
	if g := in.groups["secp"]; g != nil {
		return g
	}
	g := &Group{name: "secp", order: in.curveParam(st, "N"), p: in.curveParam(st, "P")}
	in.groups["secp"] = g
	in.c.declBase(&baseInfo{name: "g", nonzero: true})
	return g
}

// randomE: the coefficients involve randomness or hash values, so that the
// element is the identity only by accident.
func (c *Ctx) randomE(e *Elem) bool {
	for _, t := range e.t {
		if c.tainted(t.co, 0) {
			return true
		}
	}
	return false
}

func (c *Ctx) tainted(p *Poly, d int) bool {
	if p == nil || d > 12 {
		return false
	}
	for _, t := range p.t {
		for i := 0; i+6 <= len(t.m); i += 6 {
			if c.taintA(c.atoms[atomOf(t.m[i:])], d) {
				return true
			}
		}
	}
	return false
}

func (c *Ctx) taintA(a *atomInfo, d int) bool {
	if c.taintMemo == nil {
		c.taintMemo = map[atomID]bool{}
	}
	if v, ok := c.taintMemo[a.id]; ok {
		return v
	}
	r := a.tag == "rand" || a.tag == "hash" || a.arg != nil && c.tainted(a.arg, d+1)
	c.taintMemo[a.id] = r
	return r
}

// zeroOf is zeroE, with accidental identities left out where the harness
// asks for it.
func (in *Interp) zeroOf(e *Elem) Bdd {
	c := in.c
	if in.noIdent && len(e.t) > 0 && c.randomE(e) {
		for _, t := range e.t {
			if !c.zeroMod(t.co, e.g.order) {
				in.idents++
				return bF
			}
		}
		return bT
	}
	return c.zeroE(e)
}

// p256Leaf recognises the point with the given coordinates.
func (in *Interp) p256Leaf(st *State, x, y *Poly) *Elem {
	c := in.c
	g := in.secp(st)
	kx, ok1 := x.isConst()
	ky, ok2 := y.isConst()
	if ok1 && ok2 {
		if kx.Sign() == 0 && ky.Sign() == 0 {
			return zeroElem(g)
		}
		if kx.Cmp(in.curveParam(st, "Gx")) == 0 && ky.Cmp(in.curveParam(st, "Gy")) == 0 {
			return c.base(g, "g")
		}
	}
	if a := c.single(y); a != nil {
		if r, ok := a.data.(*coordRef); ok && r.y && polyEq(c.coordX(r.e), x) {
			return r.e
		}
	}
	n := sub(cst(g.p), y)
	if a := c.single(n); a != nil {
		if r, ok := a.data.(*coordRef); ok && r.y && polyEq(c.coordX(r.e), x) {
			return c.eNeg(r.e)
		}
	}
	if c.ptTab == nil {
		c.ptTab, c.ptCoord = map[string][2]*Poly{}, map[atomID]*coordRef{}
	}
	name := "pt(" + x.Key() + "," + y.Key() + ")"
	if c.single(x) != nil && c.single(y) != nil {
		name = "pt(" + c.show(x) + "," + c.show(y) + ")"
	}
	if c.bases()[name] == nil {
		c.declBase(&baseInfo{name: name, untrusted: true})
		c.ptXY(name, x, y)
		if ax, ay := c.single(x), c.single(y); ax != nil && ay != nil && ax != ay && c.ptCoord[ax.id] == nil && c.ptCoord[ay.id] == nil {
			c.ptCoord[ax.id] = &coordRef{c.base(g, name), false}
			c.ptCoord[ay.id] = &coordRef{c.base(g, name), true}
		}
	}
	return c.base(g, name)
}

func (c *Ctx) ptXY(name string, x, y *Poly) {
	if c.ptTab == nil {
		c.ptTab = map[string][2]*Poly{}
		c.ptCoord = map[atomID]*coordRef{}
	}
	c.ptTab[name] = [2]*Poly{x, y}
}

// p256Read returns the element(s) a *P256 stands for.
func (in *Interp) p256Read(st *State, v Val) Val {
	s, ok := in.load(st, v).(*AggV)
	if !ok {
		return leaf(ElemL{zeroElem(in.secp(st))})
	}
	if len(s.f) != 2 {
		in.undec("P256 has other fields than X and Y")
	}
	return in.p256Val(st, s)
}

func (in *Interp) p256Val(st *State, s *AggV) Val {
	c := in.c
	xs, ys := in.under(st, s.f[0]).(*GV), in.under(st, s.f[1]).(*GV)
	var alts []Alt
	for _, x := range xs.alts {
		for _, y := range ys.alts {
			g := c.and(x.g, y.g)
			if c.and(c.and(g, st.pc), in.care) == bF {
				continue
			}
			px, ok1 := x.l.(PtrL)
			py, ok2 := y.l.(PtrL)
			if !ok1 || !ok2 {
				alts = append(alts, Alt{g, ElemL{zeroElem(in.secp(st))}})
				continue
			}
			nx, ny := in.under(st, in.loadP(st, px)).(*GV), in.under(st, in.loadP(st, py)).(*GV)
			for _, a := range nx.alts {
				for _, b := range ny.alts {
					gg := c.and(g, c.and(a.g, b.g))
					if c.and(c.and(gg, st.pc), in.care) == bF {
						continue
					}
					alts = append(alts, Alt{gg, ElemL{in.p256Leaf(st, in.numLeaf(a.l), in.numLeaf(b.l))}})
				}
			}
		}
	}
	if len(alts) == 0 {
		return leaf(ElemL{zeroElem(in.secp(st))})
	}
	return c.foldElems(in, st, alts)
}

// foldElems joins alternatives that agree where their guards hold.
func (c *Ctx) foldElems(in *Interp, st *State, alts []Alt) Val {
	v := c.mkGV(alts)
	for len(v.alts) > 1 {
		done := true
		n := len(v.alts)
		for i := 0; i < n && done; i++ {
			for j := 0; j < n; j++ {
				if i == j {
					continue
				}
				ei, ok1 := v.alts[i].l.(ElemL)
				ej, ok2 := v.alts[j].l.(ElemL)
				if !ok1 || !ok2 {
					continue
				}
				// where alternative i holds, it equals alternative j
				z := c.zeroE(c.eSub(ei.e, ej.e))
				if c.and(c.and(v.alts[i].g, c.not(z)), c.and(st.pc, in.care)) == bF {
					var nx []Alt
					for k, a := range v.alts {
						if k == i {
							continue
						}
						if k == j {
							a.g = c.or(a.g, v.alts[i].g)
						}
						nx = append(nx, a)
					}
					if len(nx) == 1 {
						nx[0].g = bT
					}
					v = &GV{nx}
					done = false
					break
				}
			}
		}
		if done {
			break
		}
	}
	return v
}

// p256Point makes the content of a P256 object that holds e.
func (in *Interp) p256Content(st *State, e *Elem) *AggV {
	c := in.c
	z := in.zeroOf(e)
	// the accidental identity is out of scope
	if c.and(c.and(z, st.pc), in.care) == bF {
		z = bF
	}
	if z == bT {
		return &AggV{[]Val{nilV(), nilV()}}
	}
	x, y := c.coordX(e), c.coordY(e)
	if len(e.t) == 1 && polyEq(e.t[0].co, csti(1)) {
		if xy, ok := c.ptTab[e.t[0].base]; ok {
			x, y = xy[0], xy[1]
		}
	}
	px, py := in.newInt(st, x), in.newInt(st, y)
	return &AggV{[]Val{c.merge(z, nilV(), px), c.merge(z, nilV(), py)}}
}

func (in *Interp) p256Write(st *State, recv Val, v Val) Val {
	c := in.c
	var content Val
	gv := v.(*GV)
	rest := bF
	for i, a := range gv.alts {
		x := in.p256Content(st, a.l.(ElemL).e)
		if i == 0 {
			content = x
		} else {
			content = c.merge(a.g, x, content)
		}
		rest = c.or(rest, a.g)
	}
	in.ptrs(st, recv, "receiver", func(g Bdd, p PtrL) {
		old := in.readPath(st.heap.get(p.obj), splitPath(p.path))
		in.storeP(st, p, c.merge(g, content, old))
	})
	return recv
}

func (in *Interp) p256Groups() {
	c := in.c
	sum := func(name string, f func(st *State, args []Val) Val) {
		in.sums[full(p256Pkg, "P256", name)] = func(in *Interp, st *State, fn *ssa.Function, args []Val, pos token.Pos) (Val, bool) {
			return f(st, args), true
		}
	}
	el := func(l Leaf) *Elem { return l.(ElemL).e }
	add2 := func(st *State, a, b Val) Val {
		x, y := in.p256Read(st, a), in.p256Read(st, b)
		return in.lift2(st, x, y, "addition", func(x, y Leaf) Leaf { return ElemL{c.eAdd(el(x), el(y))} })
	}
	sum("IsZero", func(st *State, args []Val) Val {
		v := in.p256Read(st, args[0]).(*GV)
		r := bF
		for _, a := range v.alts {
			r = c.or(r, c.and(a.g, in.zeroOf(el(a.l))))
		}
		return BoolV{r}
	})
	sum("Neg", func(st *State, args []Val) Val {
		return in.p256Write(st, args[0], in.lift1(st, in.p256Read(st, args[1]), "Neg", func(l Leaf) Leaf { return ElemL{c.eNeg(el(l))} }))
	})
	sum("Double", func(st *State, args []Val) Val {
		return in.p256Write(st, args[0], in.lift1(st, in.p256Read(st, args[1]), "Double", func(l Leaf) Leaf { return ElemL{c.eScale(el(l), csti(2))} }))
	})
	sum("Multiply", func(st *State, args []Val) Val { return in.p256Write(st, args[0], add2(st, args[1], args[2])) })
	sum("Add", func(st *State, args []Val) Val {
		x, y := in.p256Read(st, args[1]), in.p256Read(st, args[2])
		bad := in.boolOf2(st, x, y, func(x, y Leaf) Bdd {
			return c.and(in.zeroOf(c.eSub(el(x), el(y))), c.and(c.not(in.zeroOf(el(x))), c.not(in.zeroOf(el(y)))))
		})
		if c.and(c.and(bad, st.pc), in.care) != bF {
			in.event("panic", c.and(bad, st.pc), "P256.Add is used on points that may be equal")
		}
		return in.p256Write(st, args[0], add2(st, args[1], args[2]))
	})
	sum("ScalarMult", func(st *State, args []Val) Val {
		a, k := in.p256Read(st, args[1]), in.under(st, in.rd(st, args[2]))
		return in.p256Write(st, args[0], in.lift2(st, a, k, "ScalarMult", func(x, y Leaf) Leaf { return ElemL{c.eScale(el(x), in.numLeaf(y))} }))
	})
	sum("ScalarBaseMult", func(st *State, args []Val) Val {
		k := in.under(st, in.rd(st, args[1]))
		g := c.base(in.secp(st), "g")
		return in.p256Write(st, args[0], in.lift1(st, k, "ScalarBaseMult", func(y Leaf) Leaf { return ElemL{c.eScale(g, in.numLeaf(y))} }))
	})
	sum("IsOnCurve", func(st *State, args []Val) Val {
		v := in.p256Read(st, args[0]).(*GV)
		r := bF
		for _, a := range v.alts {
			e := el(a.l)
			on := c.not(in.zeroOf(e))
			if c.elemUntrusted(e) {
				on = c.and(on, c.onCurve(e))
			}
			r = c.or(r, c.and(a.g, on))
		}
		return BoolV{r}
	})
	in.sums[full(p256Pkg, "", "MapToGroup")] = func(in *Interp, st *State, fn *ssa.Function, args []Val, pos token.Pos) (Val, bool) {
		l, ok := one(in.under(st, args[0]))
		if !ok {
			in.undec("MapToGroup of alternatives")
		}
		s, ok := l.(StrL)
		if !ok {
			in.undec("MapToGroup of %s", l.Key())
		}
		g := in.secp(st)
		name := "H(" + piecesKey(normPieces(s.ps)) + ")"
		if t, ok := s.literal(); ok {
			name = "H(" + t + ")"
		}
		c.declBase(&baseInfo{name: name, nonzero: true})
		t := in.w.typ(p256Pkg, "P256")
		p := in.newPtr(st, t, name, in.p256Content(st, c.base(g, name)))
		return tuple(p, nilV()), true
	}
}

func (c *Ctx) onCurve(e *Elem) Bdd {
	return c.condVar(&condInfo{key: "oncurve:" + e.Key(), desc: c.showE(e) + " is on the curve", onc: e})
}

// p256New allocates a point that holds e.
func (in *Interp) p256New(st *State, e *Elem) Val {
	return in.newPtr(st, in.w.typ(p256Pkg, "P256"), "point", in.p256Content(st, e))
}

// p256Elem is the single element behind a pointer.
func (in *Interp) p256Elem(st *State, v Val) *Elem {
	l, ok := one(in.under(st, in.p256Read(st, v)))
	if !ok {
		in.undec("point depends on conditions")
	}
	return l.(ElemL).e
}

// ---------- bn256 ----------

func (in *Interp) bnGroup(st *State, name string) *Group {
	if g := in.groups[name]; g != nil {
		return g
	}
	g := &Group{name: name, order: in.globalBig(st, bnPkg, "Order"), p: in.globalBig(st, bnPkg, "P")}
	in.groups[name] = g
	switch name {
	case "G1":
		in.c.declBase(&baseInfo{name: "g1", nonzero: true})
	case "G2":
		in.c.declBase(&baseInfo{name: "g2", nonzero: true})
	}
	return g
}

// bnRead returns the elements behind a *G1, *G2 or *GT.
func (in *Interp) bnRead(st *State, v Val, g *Group) Val {
	s, ok := in.load(st, v).(*AggV)
	if !ok || len(s.f) != 1 {
		if st.pc == bF || in.c.and(st.pc, in.care) == bF {
			return leaf(ElemL{zeroElem(g)})
		}
		in.undec("operand of a %s method: %s", g.name, valKeyShort(in.load(st, v)))
	}
	r := in.load(st, in.under(st, s.f[0]))
	if r == nil {
		return leaf(ElemL{zeroElem(g)})
	}
	gv, ok := in.under(st, r).(*GV)
	if !ok {
		in.undec("content of a %s object is used as coordinates", g.name)
	}
	for _, a := range gv.alts {
		if _, ok := a.l.(ElemL); !ok {
			in.undec("%s object holds %s", g.name, a.l.Key())
		}
	}
	return in.c.foldElems(in, st, gv.alts)
}

func (in *Interp) bnWrite(st *State, recv Val, v Val, fresh bool) Val {
	c := in.c
	for _, a := range v.(*GV).alts {
		in.zeroOf(a.l.(ElemL).e)
	}
	in.ptrs(st, recv, "receiver", func(g Bdd, p PtrL) {
		cur := in.readPath(st.heap.get(p.obj), splitPath(p.path)).(*AggV)
		pv := in.under(st, cur.f[0]).(*GV)
		nf := Val(pv)
		for _, a := range pv.alts {
			gg := c.and(g, a.g)
			if c.and(gg, st.pc) == bF {
				continue
			}
			if l, ok := a.l.(PtrL); ok && !fresh {
				old := in.readPath(st.heap.get(l.obj), splitPath(l.path))
				if c.imp(st.pc, gg) {
					in.storeP(st, l, v)
				} else {
					in.storeP(st, l, c.merge(gg, v, old))
				}
				continue
			}
			np := in.newPtr(st, nil, "element", v)
			if c.imp(st.pc, gg) {
				nf = np
			} else {
				nf = c.merge(gg, np, nf)
			}
		}
		in.storeP(st, PtrL{p.obj, joinPath(p.path, 0)}, nf)
	})
	return recv
}

func (in *Interp) bnElem(st *State, v Val, g *Group) *Elem {
	l, ok := one(in.under(st, in.bnRead(st, v, g)))
	if !ok {
		in.undec("element depends on conditions")
	}
	return l.(ElemL).e
}

func (in *Interp) bnNew(st *State, e *Elem) Val {
	p := in.newPtr(st, nil, "element", leaf(ElemL{e}))
	return in.newPtr(st, in.w.typ(bnPkg, e.g.name), "point", &AggV{[]Val{p}})
}

// pairE is the bilinear map on formal sums.
func (in *Interp) pairE(st *State, a, b *Elem) *Elem {
	c := in.c
	gt := in.bnGroup(st, "GT")
	r := zeroElem(gt)
	for _, s := range a.t {
		for _, t := range b.t {
			name := "e(" + s.base + "," + t.base + ")"
			bs, bt := c.bases()[s.base], c.bases()[t.base]
			c.declBase(&baseInfo{name: name, nonzero: bs != nil && bs.nonzero && bt != nil && bt.nonzero,
				pairA: c.base(a.g, s.base), pairB: c.base(b.g, t.base)})
			r = c.eAdd(r, c.eScale(c.base(gt, name), c.redCoef(gt, c.mul(s.co, t.co))))
		}
	}
	return r
}

func (in *Interp) bnGroups() {
	c := in.c
	el := func(l Leaf) *Elem { return l.(ElemL).e }
	for _, gn := range []string{"G1", "G2", "GT"} {
		gn := gn
		sum := func(name string, f func(st *State, g *Group, args []Val) Val) {
			in.sums[full(bnPkg, gn, name)] = func(in *Interp, st *State, fn *ssa.Function, args []Val, pos token.Pos) (Val, bool) {
				return f(st, in.bnGroup(st, gn), args), true
			}
		}
		un := func(f func(e *Elem) *Elem) func(st *State, g *Group, args []Val) Val {
			return func(st *State, g *Group, args []Val) Val {
				return in.bnWrite(st, args[0], in.lift1(st, in.bnRead(st, args[1], g), "unary", func(l Leaf) Leaf { return ElemL{f(el(l))} }), false)
			}
		}
		scal := func(st *State, g *Group, args []Val) Val {
			a, k := in.bnRead(st, args[1], g), in.under(st, in.rd(st, args[2]))
			return in.bnWrite(st, args[0], in.lift2(st, a, k, "ScalarMult", func(x, y Leaf) Leaf { return ElemL{c.eScale(el(x), in.numLeaf(y))} }), false)
		}
		sum("ScalarMult", scal)
		sum("Neg", un(c.eNeg))
		sum("Add", func(st *State, g *Group, args []Val) Val {
			x, y := in.bnRead(st, args[1], g), in.bnRead(st, args[2], g)
			return in.bnWrite(st, args[0], in.lift2(st, x, y, "Add", func(x, y Leaf) Leaf { return ElemL{c.eAdd(el(x), el(y))} }), false)
		})
		zero := func(st *State, g *Group, args []Val) Val {
			v := in.bnRead(st, args[0], g).(*GV)
			r := bF
			for _, a := range v.alts {
				r = c.or(r, c.and(a.g, in.zeroOf(el(a.l))))
			}
			return BoolV{r}
		}
		n := map[string]int{"G1": 64, "G2": 128, "GT": 384}[gn]
		sum("Marshal", func(st *State, g *Group, args []Val) Val {
			return in.lift1(st, in.bnRead(st, args[0], g), "Marshal", func(l Leaf) Leaf {
				return SeqL{[]Piece{{k: "enc", key: el(l).Key(), n: n, e: el(l)}}}
			})
		})
		sum("String", func(st *State, g *Group, args []Val) Val {
			return in.lift1(st, in.bnRead(st, args[0], g), "String", func(l Leaf) Leaf {
				return StrL{[]Piece{{k: "txt", key: el(l).Key(), n: -1, e: el(l)}}}
			})
		})
		sum("Unmarshal", func(st *State, g *Group, args []Val) Val {
			v := in.lift1(st, in.under(st, args[1]), "Unmarshal", func(l Leaf) Leaf {
				s, ok := l.(SeqL)
				if !ok || len(s.ps) != 1 || s.ps[0].k != "enc" || s.ps[0].e.g != g {
					in.undec("%s.Unmarshal of %s", gn, l.Key())
				}
				return ElemL{s.ps[0].e}
			})
			return tuple(in.bnWrite(st, args[0], v, false), BoolV{bT})
		})
		if gn == "GT" {
			sum("Exp", scal)
			sum("Invert", un(c.eNeg))
			sum("IsOne", zero)
			sum("IsZero", func(st *State, g *Group, args []Val) Val { in.bnRead(st, args[0], g); return BoolV{bF} })
			continue
		}
		sum("ScalarBaseMult", func(st *State, g *Group, args []Val) Val {
			k := in.under(st, in.rd(st, args[1]))
			b := c.base(g, map[string]string{"G1": "g1", "G2": "g2"}[gn])
			return in.bnWrite(st, args[0], in.lift1(st, k, "ScalarBaseMult", func(y Leaf) Leaf { return ElemL{c.eScale(b, in.numLeaf(y))} }), false)
		})
		sum("SetInfinity", func(st *State, g *Group, args []Val) Val {
			return in.bnWrite(st, args[0], leaf(ElemL{zeroElem(g)}), true)
		})
		sum("SetZero", func(st *State, g *Group, args []Val) Val {
			in.bnRead(st, args[0], g)
			in.bnWrite(st, args[0], leaf(ElemL{zeroElem(g)}), false)
			return nil
		})
		sum("IsZero", zero)
	}
	in.sums[full(bnPkg, "", "Pair")] = func(in *Interp, st *State, fn *ssa.Function, args []Val, pos token.Pos) (Val, bool) {
		x, y := in.bnRead(st, args[0], in.bnGroup(st, "G1")), in.bnRead(st, args[1], in.bnGroup(st, "G2"))
		v := in.lift2(st, x, y, "Pair", func(x, y Leaf) Leaf { return ElemL{in.pairE(st, el(x), el(y))} })
		p := in.newPtr(st, nil, "element", v)
		return in.newPtr(st, in.w.typ(bnPkg, "GT"), "pairing", &AggV{[]Val{p}}), true
	}
	in.sums[full(bnPkg, "", "PairingCheck")] = func(in *Interp, st *State, fn *ssa.Function, args []Val, pos token.Pos) (Val, bool) {
		as, bs := in.elems(st, args[0]), in.elems(st, args[1])
		acc := zeroElem(in.bnGroup(st, "GT"))
		if len(bs) < len(as) {
			in.panicIf(st, bT, "PairingCheck: index out of range")
			return BoolV{bF}, true
		}
		for i := range as {
			acc = c.eAdd(acc, in.pairE(st, in.bnElem(st, as[i], in.bnGroup(st, "G1")), in.bnElem(st, bs[i], in.bnGroup(st, "G2"))))
		}
		return BoolV{in.zeroOf(acc)}, true
	}
}

// elems lists the elements of a slice.
func (in *Interp) elems(st *State, v Val) []Val {
	l, ok := one(in.under(st, v))
	if !ok {
		in.undec("slice depends on conditions: %s", valKeyShort(v))
	}
	switch s := l.(type) {
	case NilL:
		return nil
	case SliceL:
		a, ok := in.readPath(st.heap.get(s.obj), splitPath(s.path)).(*AggV)
		if !ok {
			in.undec("slice content")
		}
		return append([]Val(nil), a.f[s.off:s.off+s.len]...)
	}
	in.undec("slice is %s", l.Key())
	return nil
}

// mkSlice makes a slice of the given elements.
func (h *H) mkSlice(name string, vs []Val) Val {
	id := h.in.alloc(h.st, nil, name, &AggV{append([]Val(nil), vs...)})
	return leaf(SliceL{id, "", 0, len(vs), len(vs)})
}

// groupLevel installs the group summaries and interprets the initialisers.
func (h *H) groupLevel(pkgs ...string) {
	h.in.p256Groups()
	h.in.bnGroups()
	h.init(pkgs...)
}

// field reads a struct field by name.
func (h *H) fieldIx(pkg, typ, f string) int {
	s, ok := structOf(h.typ(pkg, typ))
	if !ok {
		panic(undecided{pkg + "." + typ + " is not a struct"})
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == f {
			return i
		}
	}
	panic(undecided{"no field " + f + " in " + pkg + "." + typ})
}

func structOf(t types.Type) (*types.Struct, bool) {
	s, ok := t.Underlying().(*types.Struct)
	return s, ok
}
