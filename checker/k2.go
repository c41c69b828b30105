package main

// Formal elements of GF(p^2): integer coordinates are the imaginary and real
// part of a polynomial over formal elements and their conjugates.

import (
	"go/token"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

func (c *Ctx) hasK2(p *Poly) bool {
	for _, t := range p.t {
		for i := 0; i+6 <= len(t.m); i += 6 {
			a := c.atoms[atomOf(t.m[i:])]
			if a.k2 && a.id != c.imagI {
				return true
			}
		}
	}
	return false
}

// splitI splits a polynomial without formal GF(p^2) atoms.
func (c *Ctx) splitI(p *Poly) (re, im *Poly) {
	r, m := map[string]*big.Int{}, map[string]*big.Int{}
	for _, t := range p.t {
		hit := false
		var rest []factor
		for _, f := range unpackMono(t.m) {
			if f.a == c.imagI {
				hit = true
			} else {
				rest = append(rest, f)
			}
		}
		if hit {
			m[packMono(rest)] = t.c
		} else {
			r[t.m] = t.c
		}
	}
	return fromMap(r), fromMap(m)
}

// part returns the imaginary (im) or real coordinate of p; variant "" is
// canonical in [0,p), "Z" is nonnegative and zero only if the residue is,
// "U" is any integer of that residue.
func (c *Ctx) part(p *Poly, im bool, variant string) *Poly {
	p = c.reduce(p, c.p)
	if !c.hasK2(p) && variant == "" {
		re, i := c.splitI(p)
		if im {
			re = i
		}
		return c.modRaw(re, c.p)
	}
	a := &atomInfo{kind: aReal, name: "re" + variant + "(" + p.Key() + ")", arg: p, data: variant}
	if im {
		a.kind = aImag
		a.name = "im" + variant + "(" + p.Key() + ")"
	}
	if variant != "U" {
		a.lo = b0
	}
	if variant == "" {
		a.hi = new(big.Int).Sub(c.p, b1)
	}
	return c.atomPoly(c.atom(a))
}

// k2lin recognises an integer combination of imaginary (or of real) parts.
func (c *Ctx) k2lin(p *Poly) (im bool, q *Poly, ok bool) {
	first := true
	q = &Poly{}
	k := b0
	for _, t := range p.t {
		if t.m == "" {
			k = t.c
			continue
		}
		if len(t.m) != 6 {
			return false, nil, false
		}
		f := unpackMono(t.m)[0]
		a := c.atoms[f.a]
		if f.e != 1 || a.kind != aImag && a.kind != aReal {
			return false, nil, false
		}
		isIm := a.kind == aImag
		if !first && isIm != im {
			return false, nil, false
		}
		im, first = isIm, false
		q = add(q, scale(a.arg, t.c))
	}
	if first {
		return false, nil, false
	}
	if k.Sign() != 0 {
		if im {
			q = add(q, scale(c.I(), k))
		} else {
			q = add(q, cst(k))
		}
	}
	return im, c.reduce(q, c.p), true
}

// zeroK2 is the condition that the field element p is zero.
func (c *Ctx) zeroK2(p *Poly) Bdd {
	r := c.reduce(p, c.p)
	if r.isZero() {
		return bT
	}
	n, _ := c.clearInv(r, c.p)
	if n.isZero() {
		return bT
	}
	_, g, q := c.monic(n, c.p)
	res := bF
	za := func(a *atomInfo) Bdd {
		if a.nonzero {
			return bF
		}
		if a.k2 {
			if a.conj != 0 && a.conj < a.id {
				a = c.atoms[a.conj]
			}
			if a.nonzero || c.nonzero["k2:"+c.atomPoly(a).Key()] {
				return bF
			}
			return c.condVar(&condInfo{key: "zeroK2:" + a.name, desc: a.name + "=0", num: c.atomPoly(a), mod: c.p})
		}
		return c.zeroAtomMod(a, c.p)
	}
	for _, f := range g {
		if f.e > 0 {
			res = c.or(res, za(c.atoms[f.a]))
		}
	}
	if len(q.t) == 1 {
		for _, f := range unpackMono(q.t[0].m) {
			if f.a != c.imagI {
				res = c.or(res, za(c.atoms[f.a]))
			}
		}
		return res
	}
	_, _, q2 := c.monic(c.reduce(c.conj(q), c.p), c.p)
	if q2.Key() < q.Key() {
		q = q2
	}
	if c.nonzero["k2:"+q.Key()] {
		return res
	}
	return c.or(res, c.condVar(&condInfo{key: "zeroK2p:" + q.Key(), desc: c.show(q) + "=0", num: q, mod: c.p}))
}

// zeroPart is the condition that a coordinate of p is zero modulo the prime:
// the encoding makes "both are zero" the condition that p is zero.
func (c *Ctx) zeroPart(p *Poly, im bool) Bdd {
	z := c.zeroK2(p)
	if z == bT {
		return bT
	}
	r := c.reduce(p, c.p)
	n, _ := c.clearInv(r, c.p)
	_ = n
	key := r.Key()
	if m := c.reduce(scale(r, bi(-1)), c.p); m.Key() < key {
		key = m.Key()
	}
	vi := c.condVar(&condInfo{key: "im0:" + key, part: r, im: true, desc: "imaginary part of " + c.show(r) + " is zero"})
	if im {
		return c.or(z, c.and(c.not(z), vi))
	}
	vr := c.condVar(&condInfo{key: "re0:" + key, part: r, desc: "real part of " + c.show(r) + " is zero"})
	return c.or(z, c.and(c.not(z), c.and(c.not(vi), vr)))
}

// binAtoms lists the binary atoms of p that occur in nonconstant company.
func (c *Ctx) binAtoms(p *Poly, max int) []*atomInfo {
	seen := map[atomID]bool{}
	var out []*atomInfo
	other := false
	for _, t := range p.t {
		for i := 0; i+6 <= len(t.m); i += 6 {
			id := atomOf(t.m[i:])
			a := c.atoms[id]
			if a.binary {
				if !seen[id] {
					seen[id] = true
					out = append(out, a)
					if len(out) > max {
						return nil
					}
				}
			} else {
				other = true
			}
		}
	}
	if !other {
		return nil
	}
	return out
}

func (c *Ctx) subst1(p *Poly, a *atomInfo, v *Poly) *Poly {
	return c.substitute(p, map[atomID]*Poly{a.id: v})
}

// gfp2 summaries: value-level transfer functions justified by C19.
func (in *Interp) k2Summaries() {
	c := in.c
	rd := func(st *State, v Val) (*Poly, bool) {
		ns := in.numsOf(st, v, in.gfP2T())
		x, ok1 := in.k2cell(ns[0])
		y, ok2 := in.k2cell(ns[1])
		if !ok1 || !ok2 {
			return nil, false
		}
		return c.k2Poly(x, y), true
	}
	wr := func(st *State, v Val, p *Poly) {
		cs := in.cells(st, v, in.gfP2T())
		in.wr(st, leaf(cs[0]), num(c.part(p, true, "")))
		in.wr(st, leaf(cs[1]), num(c.part(p, false, "")))
	}
	touch := func(st *State, v Val) { // reading poisoned operands is reported
		for _, p := range in.cells(st, v, in.gfP2T()) {
			in.loadP(st, p)
		}
	}
	in.sums[full(bnPkg, "gfP2", "Mul")] = func(in *Interp, st *State, fn *ssa.Function, args []Val, pos token.Pos) (Val, bool) {
		touch(st, args[1])
		touch(st, args[2])
		a, ok1 := rd(st, args[1])
		b, ok2 := rd(st, args[2])
		if !ok1 || !ok2 {
			return nil, false
		}
		wr(st, args[0], c.kmul(a, b))
		return args[0], true
	}
	in.sums[full(bnPkg, "gfP2", "Square")] = func(in *Interp, st *State, fn *ssa.Function, args []Val, pos token.Pos) (Val, bool) {
		touch(st, args[1])
		a, ok := rd(st, args[1])
		if !ok {
			return nil, false
		}
		wr(st, args[0], c.kmul(a, a))
		return args[0], true
	}
	in.sums[full(bnPkg, "gfP2", "Invert")] = func(in *Interp, st *State, fn *ssa.Function, args []Val, pos token.Pos) (Val, bool) {
		touch(st, args[1])
		a, ok := rd(st, args[1])
		if !ok {
			return nil, false
		}
		z := in.c.and(c.zeroK2(a), st.pc)
		if in.c.and(z, in.care) != bF {
			in.event("invzero", z, "inverse of a number that may be zero")
		}
		if n, _ := c.clearInv(c.reduce(a, c.p), c.p); n.isZero() {
			wr(st, args[0], c.atomPoly(c.atom(&atomInfo{kind: aSym, k2: true, name: c.freshName("inverse of zero")})))
			return args[0], true
		}
		wr(st, args[0], c.inverse(a, c.p))
		return args[0], true
	}
}

// k2cell: a coordinate cell as one residue.
func (in *Interp) k2cell(v Val) (*Poly, bool) {
	g, ok := v.(*GV)
	if !ok {
		return nil, false
	}
	n, ok := g.alts[0].l.(NumL)
	if !ok {
		return nil, false
	}
	for _, a := range g.alts[1:] {
		m, ok := a.l.(NumL)
		if !ok {
			return nil, false
		}
		if !in.c.equalMod(n.p, m.p, in.c.p) {
			return nil, false
		}
	}
	return n.p, true
}
