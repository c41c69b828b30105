package main

// C25: the constants of the pairing, evaluated from the initialisers of the
// package, satisfy their defining equations.

import (
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// small concrete GF(p^2) and curve arithmetic of the checker itself
type q2 struct{ im, re *big.Int }

type q2f struct{ p *big.Int }

func (f q2f) n(x *big.Int) *big.Int { return new(big.Int).Mod(x, f.p) }
func (f q2f) add(a, b q2) q2 {
	return q2{f.n(new(big.Int).Add(a.im, b.im)), f.n(new(big.Int).Add(a.re, b.re))}
}
func (f q2f) neg(a q2) q2 {
	return q2{f.n(new(big.Int).Neg(a.im)), f.n(new(big.Int).Neg(a.re))}
}
func (f q2f) sub(a, b q2) q2 { return f.add(a, f.neg(b)) }
func (f q2f) mul(a, b q2) q2 {
	t := func(x, y *big.Int) *big.Int { return new(big.Int).Mul(x, y) }
	return q2{f.n(new(big.Int).Add(t(a.im, b.re), t(a.re, b.im))), f.n(new(big.Int).Sub(t(a.re, b.re), t(a.im, b.im)))}
}
func (f q2f) exp(a q2, k *big.Int) q2 {
	r := q2{b0, b1}
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = f.mul(r, r)
		if k.Bit(i) == 1 {
			r = f.mul(r, a)
		}
	}
	return r
}
func (f q2f) inv(a q2) q2 {
	d := f.n(new(big.Int).Add(new(big.Int).Mul(a.im, a.im), new(big.Int).Mul(a.re, a.re)))
	d.ModInverse(d, f.p)
	return q2{f.n(new(big.Int).Mul(new(big.Int).Neg(a.im), d)), f.n(new(big.Int).Mul(a.re, d))}
}
func (f q2f) eq(a, b q2) bool {
	d := f.sub(a, b)
	return d.im.Sign() == 0 && d.re.Sign() == 0
}
func (f q2f) zero(a q2) bool { return f.eq(a, q2{b0, b0}) }

type aff struct {
	x, y q2
	inf  bool
}

func (f q2f) addPt(a, b aff) aff {
	if a.inf {
		return b
	}
	if b.inf {
		return a
	}
	var l q2
	if f.eq(a.x, b.x) {
		if !f.eq(a.y, b.y) || f.zero(a.y) {
			return aff{inf: true}
		}
		l = f.mul(f.mul(q2{b0, bi(3)}, f.mul(a.x, a.x)), f.inv(f.add(a.y, a.y)))
	} else {
		l = f.mul(f.sub(b.y, a.y), f.inv(f.sub(b.x, a.x)))
	}
	x := f.sub(f.sub(f.mul(l, l), a.x), b.x)
	return aff{x: x, y: f.sub(f.mul(l, f.sub(a.x, x)), a.y)}
}

func (f q2f) mulPt(a aff, k *big.Int) aff {
	r := aff{inf: true}
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = f.addPt(r, r)
		if k.Bit(i) == 1 {
			r = f.addPt(r, a)
		}
	}
	return r
}

// constCells: constant numbers of a package-level object.
func (h *H) constCells(pkg, name string) ([]*big.Int, string) {
	g := h.r.w.global(pkg, name)
	if g == nil {
		panic(undecided{"package-level constant " + name + " not found"})
	}
	where := h.r.w.pos(g.Pos()) + " " + name
	v := h.in.load(h.st, h.in.globalPtr(g))
	var out []*big.Int
	for _, n := range h.in.numsOf(h.st, v, g.Type().Underlying().(*types.Pointer).Elem()) {
		k, ok := h.in.isConstV(h.st, n)
		if !ok {
			panic(undecided{"constant " + name + " is not constant"})
		}
		out = append(out, k)
	}
	return out, where
}

func (h *H) where1(pkg, name string) string {
	g := h.r.w.global(pkg, name)
	if g == nil {
		return name
	}
	return h.r.w.pos(g.Pos()) + " " + name
}

// nafSum evaluates the signed digits of a []int8 variable.
func (h *H) digits(g *ssa.Global) []int64 {
	v := h.in.load(h.st, h.in.globalPtr(g))
	l, ok := one(v)
	s, ok2 := l.(SliceL)
	if !ok || !ok2 {
		panic(undecided{g.Name() + " is not a constant slice"})
	}
	var out []int64
	for _, p := range h.in.sliceNums(h.st, s) {
		k, ok := p.isConst()
		if !ok {
			panic(undecided{g.Name() + " is not constant"})
		}
		out = append(out, k.Int64())
	}
	return out
}

func init() {
	props["C25"] = func(r *Run) {
		r.rule("the values the initialisers give to the package-level constants satisfy the documented equations in u and xi; primality and point orders are recomputed")
		r.sub("constants", func(h *H) {
			h.init(bnPkg)
			P, u, n := h.bigGlobal(bnPkg, "P"), h.bigGlobal(bnPkg, "u"), h.bigGlobal(bnPkg, "Order")
			ev := func(cs ...int64) *big.Int {
				r := new(big.Int)
				for _, k := range cs {
					r.Mul(r, u)
					r.Add(r, bi(k))
				}
				return r
			}
			h.check(u.Cmp(bi(4965661367192848881)) == 0, h.where1(bnPkg, "u"), "u is %s, documented 4965661367192848881", u)
			h.check(P.Cmp(ev(36, 36, 24, 6, 1)) == 0, h.where1(bnPkg, "P"), "P is not 36u^4+36u^3+24u^2+6u+1")
			h.check(n.Cmp(ev(36, 36, 18, 6, 1)) == 0, h.where1(bnPkg, "Order"), "Order is not 36u^4+36u^3+18u^2+6u+1")
			h.check(P.ProbablyPrime(30), h.where1(bnPkg, "P"), "P is not prime")
			h.check(n.ProbablyPrime(30), h.where1(bnPkg, "Order"), "Order is not prime")
			f := q2f{P}
			xi := q2{b1, bi(9)}
			p1 := subB(P, 1)
			p2 := new(big.Int).Sub(new(big.Int).Mul(P, P), b1)
			k2 := func(name string, e *big.Int) {
				h.guard(name, func() {
					cs, wh := h.constCells(bnPkg, name)
					if !h.check(len(cs) == 2 || len(cs) == 1, wh, "%s has another type", name) {
						return
					}
					v := q2{b0, cs[len(cs)-1]}
					if len(cs) == 2 {
						v.im = cs[0]
					}
					h.check(f.eq(v, f.exp(xi, e)), wh, "%s is not the documented power of i+9", name)
				})
			}
			d := func(a *big.Int, k int64) *big.Int { return new(big.Int).Div(a, bi(k)) }
			k2("xiToPMinus1Over6", d(p1, 6))
			k2("xiToPMinus1Over3", d(p1, 3))
			k2("xiToPMinus1Over2", d(p1, 2))
			k2("xiToPSquaredMinus1Over3", d(p2, 3))
			k2("xiTo2PSquaredMinus2Over3", d(new(big.Int).Lsh(p2, 1), 3))
			k2("xiToPSquaredMinus1Over6", d(p2, 6))
			k2("xiTo2PMinus2Over3", d(new(big.Int).Lsh(p1, 1), 3))
			// xi is neither a square nor a cube: the tower is a field
			one := q2{b0, b1}
			h.check(!f.eq(f.exp(xi, d(p2, 2)), one) && !f.eq(f.exp(xi, d(p2, 3)), one), h.where1(bnPkg, "P"), "X^6-xi is not irreducible")
			// curves
			b := h.bigGlobal(bnPkg, "curveB")
			h.check(b.Cmp(bi(3)) == 0, h.where1(bnPkg, "curveB"), "curveB is %s, should be 3", b)
			tb, wtb := h.constCells(bnPkg, "twistB")
			bt := q2{tb[0], tb[1]}
			h.check(f.eq(f.mul(bt, xi), q2{b0, bi(3)}), wtb, "twistB is not 3/xi")
			cg, wcg := h.constCells(bnPkg, "curveGen")
			pt := aff{x: q2{b0, f.n(cg[0])}, y: q2{b0, f.n(cg[1])}}
			onC := func(a aff, b q2) bool { return f.eq(f.mul(a.y, a.y), f.add(f.mul(a.x, f.mul(a.x, a.x)), b)) }
			h.check(cg[2].Cmp(b1) == 0 && (cg[3].Cmp(b1) == 0), wcg, "curveGen is not in affine form")
			h.check(onC(pt, q2{b0, b}), wcg, "curveGen is not on the curve")
			h.check(f.mulPt(pt, n).inf, wcg, "curveGen does not have order Order")
			h.check(f.eq(pt.x, q2{b0, b1}) && f.eq(pt.y, q2{b0, bi(-2)}), wcg, "curveGen is not (1,-2)")
			tg, wtg := h.constCells(bnPkg, "twistGen")
			tp := aff{x: q2{tg[0], tg[1]}, y: q2{tg[2], tg[3]}}
			h.check(tg[4].Sign() == 0 && tg[5].Cmp(b1) == 0 && tg[6].Sign() == 0 && tg[7].Cmp(b1) == 0, wtg, "twistGen is not in affine form")
			h.check(onC(tp, bt), wtg, "twistGen is not on the twist")
			h.check(f.mulPt(tp, n).inf, wtg, "twistGen does not have order Order")
			h.sample("P, Order and seven Frobenius constants recomputed from u=%s and xi=i+9", u)
		})
		r.sub("loop count", func(h *H) {
			h.init(bnPkg)
			u := h.bigGlobal(bnPkg, "u")
			g := h.r.w.global(bnPkg, "sixuPlus2NAF")
			if g == nil {
				panic(undecided{"sixuPlus2NAF not found"})
			}
			ds := h.digits(g)
			s := new(big.Int)
			ok := true
			for i := len(ds) - 1; i >= 0; i-- {
				s.Lsh(s, 1)
				s.Add(s, bi(ds[i]))
				if ds[i] < -1 || ds[i] > 1 {
					ok = false
				}
			}
			want := new(big.Int).Add(new(big.Int).Mul(u, bi(6)), b2)
			h.check(ok && s.Cmp(want) == 0, h.where1(bnPkg, "sixuPlus2NAF"), "sixuPlus2NAF stands for %s, not for 6u+2", s)
			h.check(len(ds) > 0 && ds[len(ds)-1] == 1, h.where1(bnPkg, "sixuPlus2NAF"), "leading digit of sixuPlus2NAF is not one")
		})
	}
}
