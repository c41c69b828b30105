package main

// Axioms that relate the atomic conditions of a formula: order of thresholds
// and residues of integers.

import (
	"math/big"
	"sort"
)

// feas is true for the assignments of the conditions of the given formulas
// that are consistent as far as integers are ordered and a zero integer is
// zero modulo every number.
func (c *Ctx) feas(fs ...Bdd) Bdd {
	type grp struct {
		v *Poly
		t map[string]*big.Int
	}
	groups := map[string]*grp{}
	var keys []string
	mods := map[string]*big.Int{}
	note := func(p *Poly) {
		k := big.NewInt(0)
		v := p
		if len(p.t) > 0 && p.t[0].m == "" {
			k = p.t[0].c
			v = sub(p, cst(k))
		}
		if v.isZero() {
			return
		}
		if v.t[len(v.t)-1].c.Sign() < 0 {
			v, k = neg(v), new(big.Int).Neg(k)
		}
		g := groups[v.Key()]
		if g == nil {
			g = &grp{v, map[string]*big.Int{}}
			groups[v.Key()] = g
			keys = append(keys, v.Key())
		}
		t := new(big.Int).Neg(k)
		g.t[t.String()] = t
	}
	r := bT
	var ims, res []*Poly
	for _, f := range fs {
		for _, i := range c.support(f) {
			switch {
			case i.part != nil && i.im:
				ims = append(ims, i.part)
			case i.part != nil:
				res = append(res, i.part)
			case i.mod != nil:
				mods[i.mod.String()] = i.mod
			case i.negn != nil:
				note(i.negn)
			case i.num != nil && i.bin == nil:
				note(i.num)
			}
		}
	}
	for _, x := range c.elemAxioms(fs...) {
		r = c.and(r, x)
	}
	// both coordinates are zero iff the element is
	for _, a := range ims {
		for _, b := range res {
			for _, s := range []int64{1, -1} {
				va, ia := c.splitConst(a)
				vb, ib := c.splitConst(c.reduce(scale(b, bi(s)), c.p))
				if !polyEq(va, vb) {
					continue
				}
				_, im := c.splitI(ia)
				re, _ := c.splitI(ib)
				full := c.zeroK2(add(va, add(c.mul(c.I(), im), re)))
				x := c.xor(full, c.and(c.zeroPart(a, true), c.zeroPart(b, false)))
				r = c.and(r, c.not(x))
			}
		}
	}
	if c.p != nil {
		mods[c.p.String()] = c.p
	}
	sort.Strings(keys)
	for _, k := range keys {
		g := groups[k]
		var ts []*big.Int
		for _, t := range g.t {
			ts = append(ts, t)
		}
		sort.Slice(ts, func(i, j int) bool { return ts[i].Cmp(ts[j]) < 0 })
		lo, hi := c.interval(g.v)
		lt := func(t *big.Int) Bdd { return c.negB(sub(g.v, cst(t))) }
		eq := func(t *big.Int) Bdd { return c.zeroInt(sub(g.v, cst(t))) }
		imp := func(a, b Bdd) { r = c.and(r, c.or(c.not(a), b)) }
		for i, t := range ts {
			imp(eq(t), c.not(lt(t)))
			if i+1 < len(ts) {
				imp(c.or(lt(t), eq(t)), c.and(lt(ts[i+1]), c.not(eq(ts[i+1]))))
			}
			for _, m := range mods {
				zm := c.zeroModB(sub(g.v, cst(t)), m)
				imp(eq(t), zm)
				// within one period above t only t itself has the residue
				for _, u := range ts[i+1:] {
					if d := new(big.Int).Sub(u, t); d.Cmp(m) <= 0 {
						imp(c.and(c.not(lt(t)), c.and(lt(u), zm)), eq(t))
					}
				}
				if hi != nil && new(big.Int).Sub(hi, t).Cmp(m) < 0 {
					imp(c.and(c.not(lt(t)), zm), eq(t))
				}
				if lo != nil && new(big.Int).Sub(t, lo).Cmp(m) < 0 {
					imp(c.and(lt(t), zm), bF)
				}
			}
		}
	}
	return r
}

// equiv: a and b agree wherever care holds.
func (c *Ctx) equiv(a, b, care Bdd) bool {
	d := c.and(c.xor(a, b), care)
	if d == bF {
		return true
	}
	return c.and(d, c.feas(d, care)) == bF
}

// follows: a implies b.
func (c *Ctx) follows(a, b Bdd) bool {
	d := c.and(a, c.not(b))
	if d == bF {
		return true
	}
	return c.and(d, c.feas(d)) == bF
}

// splitConst separates the terms without formal elements.
func (c *Ctx) splitConst(p *Poly) (v, k *Poly) {
	k = &Poly{}
	for _, t := range p.t {
		if t.m == "" || t.m == c.I().t[0].m {
			k = add(k, &Poly{t: []term{t}})
		}
	}
	return sub(p, k), k
}

// emptyLinear: no integers satisfy b, by elimination of the equalities on
// every path of the diagram.
func (c *Ctx) emptyLinear(b Bdd) bool {
	n := 0
	var walk func(f Bdd, eqs []*Poly) bool
	walk = func(f Bdd, eqs []*Poly) bool {
		if f == bF {
			return true
		}
		if f == bT {
			n++
			return n < 4096 && c.linContra(eqs)
		}
		nd := c.nodes[f]
		i := c.vars[nd.v]
		lo, hi := eqs, eqs
		switch {
		case i.bin != nil:
			x := c.atomPoly(i.bin)
			hi = append(eqs[:len(eqs):len(eqs)], x)
			lo = append(eqs[:len(eqs):len(eqs)], sub(x, csti(1)))
		case i.num != nil && i.mod == nil:
			hi = append(eqs[:len(eqs):len(eqs)], i.num)
		}
		return walk(nd.l, lo) && walk(nd.h, hi)
	}
	return walk(b, nil)
}

// linContra: the numbers cannot all be zero.
func (c *Ctx) linContra(eqs []*Poly) bool {
	var es []*Poly
	for _, e := range eqs {
		for {
			r := c.applyRelations(e)
			if polyEq(r, e) {
				break
			}
			e = r
		}
		es = append(es, e)
	}
	for k := 0; k < len(es); k++ {
		e := es[k]
		lo, hi := c.interval(e)
		if lo != nil && lo.Sign() > 0 || hi != nil && hi.Sign() < 0 {
			return true
		}
		for _, t := range e.t {
			f := unpackMono(t.m)
			if len(f) != 1 || f[0].e != 1 || t.c.CmpAbs(b1) != 0 {
				continue
			}
			a := c.atoms[f[0].a]
			x := c.atomPoly(a)
			s := sub(x, scale(e, new(big.Int).Set(t.c)))
			lo, hi := c.interval(s)
			if a.lo != nil && hi != nil && hi.Cmp(a.lo) < 0 || a.hi != nil && lo != nil && lo.Cmp(a.hi) > 0 {
				return true
			}
			for j := range es {
				if j != k {
					es[j] = c.substitute(es[j], map[atomID]*Poly{f[0].a: s})
				}
			}
			break
		}
	}
	for _, e := range es {
		lo, hi := c.interval(e)
		if lo != nil && lo.Sign() > 0 || hi != nil && hi.Sign() < 0 {
			return true
		}
	}
	return false
}

// elemAxioms relates the conditions that group elements are the identity: a
// sum of identities is one, and elements that differ by an identity are
// identities together.
func (c *Ctx) elemAxioms(fs ...Bdd) (r []Bdd) {
	var es, onc []*Elem
	seen := map[string]bool{}
	for _, f := range fs {
		for _, i := range c.support(f) {
			if i.elem != nil && !seen[i.elem.Key()] {
				seen[i.elem.Key()] = true
				es = append(es, i.elem)
			}
			if i.onc != nil {
				onc = append(onc, i.onc)
			}
		}
	}
	for _, e := range onc { // secp256k1 has no points with x = 0 or y = 0
		if len(e.t) == 1 && polyEq(e.t[0].co, csti(1)) {
			if xy, ok := c.ptTab[e.t[0].base]; ok {
				r = append(r, c.or(c.not(c.onCurve(e)), c.and(c.not(c.zeroInt(xy[0])), c.not(c.zeroInt(xy[1])))))
			}
		}
	}
	if len(es) == 0 || len(es) > 24 {
		return r
	}
	terms := func(e *Elem) Bdd {
		z := bT
		for _, t := range e.t {
			z = c.and(z, c.zeroE(&Elem{g: e.g, t: []eterm{t}}))
		}
		return z
	}
	for i, a := range es {
		za := c.zeroE(a)
		if len(a.t) > 1 && len(a.t) <= 12 {
			for i, t := range a.t {
				rest := &Elem{g: a.g, t: append(append([]eterm{}, a.t[:i]...), a.t[i+1:]...)}
				z := c.zeroE(&Elem{g: a.g, t: []eterm{t}})
				r = append(r, c.or(c.not(terms(rest)), c.not(c.xor(z, za))))
			}
		}
		o := a.g.order
		if o == nil {
			continue
		}
		for _, b := range es[i+1:] {
			if b.g != a.g {
				continue
			}
			zb := c.zeroE(b)
			done := map[string]bool{}
			for _, t := range a.t {
				for _, u := range b.t {
					if t.base != u.base {
						continue
					}
					k := new(big.Int).ModInverse(u.co.t[len(u.co.t)-1].c, o)
					if k == nil {
						continue
					}
					k.Mul(k, t.co.t[len(t.co.t)-1].c).Mod(k, o)
					if done[k.String()] || !c.equalMod(t.co, scale(u.co, k), o) {
						continue
					}
					done[k.String()] = true
					d := c.eSub(a, c.eScale(b, cst(k)))
					if len(d.t) > 12 {
						continue
					}
					x := terms(d)
					if len(d.t) == 1 || seen[c.eMonic(d).Key()] {
						r = append(r, c.or(c.not(c.and(za, zb)), c.zeroE(d)))
					}
					if m := c.eMonic(d); seen[m.Key()] {
						x = c.or(x, c.zeroE(d))
					}
					r = append(r, c.or(c.not(x), c.not(c.xor(za, zb))))
				}
			}
		}
	}
	return r
}
