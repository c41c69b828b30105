package main

// Conditions: reduced ordered binary decision diagrams over canonical atomic
// conditions on abstract numbers and group elements.

import (
	"fmt"
	"math/big"
	"os"
	"strings"
)

// Bdd is an index into the node table; 0 is false, 1 is true.
type Bdd int32

const (
	bF Bdd = 0
	bT Bdd = 1
)

type bddNode struct {
	v    int32
	l, h Bdd
}

type condInfo struct {
	key  string
	desc string
	bin  *atomInfo // set for "binary atom is zero"
	elem *Elem     // set for "group element is the identity"
	onc  *Elem     // set for "point is on the curve"
	num  *Poly     // set for zero(num)
	negn *Poly     // set for num<0
	mod  *big.Int
	part *Poly // set for "a coordinate of part is zero"
	im   bool
}

type bddCore struct {
	maxNodes int // while it is not zero
	nodes    []bddNode
	uniq     map[bddNode]Bdd
	iteC     map[[3]Bdd]Bdd
	conC     map[[2]Bdd]Bdd
	vars     []*condInfo
	varIdx   map[string]int32
}

func (c *bddCore) bddInit() {
	c.nodes = []bddNode{{1 << 30, 0, 0}, {1 << 30, 1, 1}}
	c.uniq = map[bddNode]Bdd{}
	c.iteC = map[[3]Bdd]Bdd{}
	c.conC = map[[2]Bdd]Bdd{}
	c.varIdx = map[string]int32{}
}

func (c *bddCore) mk(v int32, l, h Bdd) Bdd {
	if l == h {
		return l
	}
	n := bddNode{v, l, h}
	if b, ok := c.uniq[n]; ok {
		return b
	}
	if len(c.nodes) > 3000000 && c.maxNodes == 0 || c.maxNodes > 0 && len(c.nodes) > c.maxNodes {
		panic(undecided{"condition too large"})
	}
	b := Bdd(len(c.nodes))
	c.nodes = append(c.nodes, n)
	c.uniq[n] = b
	return b
}

func (c *bddCore) condVar(info *condInfo) Bdd {
	i, ok := c.varIdx[info.key]
	if !ok {
		i = int32(len(c.vars))
		c.vars = append(c.vars, info)
		c.varIdx[info.key] = i
	}
	return c.mk(i, bF, bT)
}

func (c *bddCore) ite(f, g, h Bdd) Bdd {
	if f == bT {
		return g
	}
	if f == bF {
		return h
	}
	if g == h {
		return g
	}
	if g == bT && h == bF {
		return f
	}
	k := [3]Bdd{f, g, h}
	if r, ok := c.iteC[k]; ok {
		return r
	}
	v := c.nodes[f].v
	if x := c.nodes[g].v; x < v {
		v = x
	}
	if x := c.nodes[h].v; x < v {
		v = x
	}
	co := func(b Bdd, hi bool) Bdd {
		n := c.nodes[b]
		if n.v != v {
			return b
		}
		if hi {
			return n.h
		}
		return n.l
	}
	lo := c.ite(co(f, false), co(g, false), co(h, false))
	hi := c.ite(co(f, true), co(g, true), co(h, true))
	r := c.mk(v, lo, hi)
	c.iteC[k] = r
	return r
}

func (c *bddCore) and(a, b Bdd) Bdd { return c.ite(a, b, bF) }
func (c *bddCore) or(a, b Bdd) Bdd  { return c.ite(a, bT, b) }
func (c *bddCore) not(a Bdd) Bdd    { return c.ite(a, bF, bT) }
func (c *bddCore) xor(a, b Bdd) Bdd { return c.ite(a, c.not(b), b) }
func (c *bddCore) imp(a, b Bdd) bool {
	return c.and(a, c.not(b)) == bF
}

// constrain simplifies f, which is only looked at where care holds.
func (c *bddCore) constrain(f, care Bdd) Bdd {
	if care == bT || f <= bT {
		return f
	}
	if care == bF {
		return f
	}
	if f == care {
		return bT
	}
	k := [2]Bdd{f, care}
	if r, ok := c.conC[k]; ok {
		return r
	}
	nf, nc := c.nodes[f], c.nodes[care]
	var r Bdd
	switch {
	case nc.v < nf.v: // variable not in f: quantify it out of care
		r = c.constrain(f, c.or(nc.l, nc.h))
	case nf.v < nc.v:
		r = c.mk(nf.v, c.constrain(nf.l, care), c.constrain(nf.h, care))
	default:
		if nc.l == bF {
			r = c.constrain(nf.h, nc.h)
		} else if nc.h == bF {
			r = c.constrain(nf.l, nc.l)
		} else {
			r = c.mk(nf.v, c.constrain(nf.l, nc.l), c.constrain(nf.h, nc.h))
		}
	}
	c.conC[k] = r
	return r
}

// litVar returns the variable if f is a positive or negative literal.
func (c *bddCore) litVar(f Bdd) (*condInfo, bool, bool) {
	if f <= bT {
		return nil, false, false
	}
	n := c.nodes[f]
	if n.l == bF && n.h == bT {
		return c.vars[n.v], true, true
	}
	if n.l == bT && n.h == bF {
		return c.vars[n.v], false, true
	}
	return nil, false, false
}

// showB prints one satisfying assignment of f.
func (c *bddCore) showB(f Bdd) string {
	if f == bF {
		return "never"
	}
	if f == bT {
		return "always"
	}
	var parts []string
	for f > bT {
		n := c.nodes[f]
		d := c.vars[n.v].desc
		if len(d) > 160 {
			d = d[:160] + ".."
		}
		if n.h != bF {
			parts = append(parts, d)
			f = n.h
		} else {
			parts = append(parts, "not "+d)
			f = n.l
		}
		if len(parts) > 8 && os.Getenv("ZKLONG") == "" {
			parts = append(parts, "...")
			break
		}
	}
	return strings.Join(parts, " and ")
}

func (c *bddCore) support(f Bdd) []*condInfo {
	seen := map[Bdd]bool{}
	vs := map[int32]bool{}
	var walk func(Bdd)
	walk = func(b Bdd) {
		if b <= bT || seen[b] {
			return
		}
		seen[b] = true
		vs[c.nodes[b].v] = true
		walk(c.nodes[b].l)
		walk(c.nodes[b].h)
	}
	walk(f)
	var r []*condInfo
	for v := range vs {
		r = append(r, c.vars[v])
	}
	return r
}

// ---- conditions on numbers ----

// zeroInt is the condition p == 0 for an integer p.
func (c *Ctx) zeroInt(p *Poly) Bdd {
	if q := c.foldDiv(p); q != p {
		return c.zeroInt(q)
	}
	if p.isZero() {
		return bT
	}
	if k, ok := p.isConst(); ok {
		if k.Sign() == 0 {
			return bT
		}
		return bF
	}
	lo, hi := c.interval(p)
	if lo != nil && lo.Sign() > 0 || hi != nil && hi.Sign() < 0 {
		return bF
	}
	if lo != nil && hi != nil && lo.Sign() == 0 && hi.Sign() == 0 {
		return bT
	}
	if len(p.t) == 1 && p.t[0].c.Cmp(b1) != 0 {
		return c.zeroInt(&Poly{t: []term{{m: p.t[0].m, c: b1}}})
	}
	if a := c.single(p); a != nil && a.binary {
		return c.condVar(&condInfo{key: "bin:" + a.name, desc: a.name + "=0", bin: a, num: p})
	}
	if a := c.single(p); a != nil && (a.kind == aImag || a.kind == aReal) && a.data != "U" {
		return c.zeroPart(a.arg, a.kind == aImag)
	}
	if z, ok := c.coordZero(p); ok {
		return z
	}
	if bs := c.binAtoms(p, 3); len(bs) > 0 {
		return c.ite(c.zeroInt(c.atomPoly(bs[0])), c.zeroInt(c.subst1(p, bs[0], &Poly{})), c.zeroInt(c.subst1(p, bs[0], csti(1))))
	}
	// 1-d and d-1 for binary d; residues compared
	if len(p.t) == 2 {
		if a, k, s := c.affineBinary(p); a != nil {
			// p = s*a + k
			if new(big.Int).Add(k, s).Sign() == 0 { // zero iff a=1
				return c.not(c.zeroInt(c.atomPoly(a)))
			}
		}
	}
	// integer in (-m,m) built from residues mod m: zero iff zero mod m
	if m := c.mainModulus(p); m != nil && lo != nil && hi != nil && hi.Cmp(m) < 0 && new(big.Int).Neg(m).Cmp(lo) < 0 {
		return c.zeroModB(p, m)
	}
	q := p
	if q.t[len(q.t)-1].c.Sign() < 0 {
		q = neg(q)
	}
	g := new(big.Int)
	for _, t := range q.t {
		g.GCD(nil, nil, g, new(big.Int).Abs(t.c))
	}
	if g.Cmp(b1) > 0 {
		q, _ = c.exactDivisible(q, g)
		return c.zeroInt(q)
	}
	if len(q.t) == 1 { // monomial: some factor is zero
		r := bF
		for _, f := range unpackMono(q.t[0].m) {
			ap := c.atomPoly(c.atoms[f.a])
			if polyEq(ap, q) {
				r = bF
				break
			}
			r = c.or(r, c.zeroInt(ap))
		}
		if r != bF {
			return r
		}
	}
	if c.nonzero["int:"+q.Key()] {
		return bF
	}
	if a := c.single(q); a != nil && a.nonzero {
		return bF
	}
	return c.condVar(&condInfo{key: "zero:" + q.Key(), desc: c.show(q) + "=0", num: q})
}

// coordZero: conditions on the coordinates of points of a group without
// points of order two and without points with x = 0. The identity has the
// coordinates (0, 0).
func (c *Ctx) coordZero(p *Poly) (Bdd, bool) {
	guard := bT // the untrusted elements are points
	ref := func(m string, two bool) *coordRef {
		if len(m) != 6 {
			return nil
		}
		f := unpackMono(m)
		if f[0].e != 1 {
			return nil
		}
		a := c.atoms[f[0].a]
		if r, ok := c.ptCoord[a.id]; ok && two && a.lo != nil && a.lo.Sign() == 0 && a.hi != nil && a.hi.Cmp(r.e.g.p) < 0 {
			guard = c.and(guard, c.or(c.zeroE(r.e), c.onCurve(r.e)))
			return r
		}
		r, ok := a.data.(*coordRef)
		if !ok || c.elemUntrusted(r.e) {
			return nil
		}
		return r
	}
	if len(p.t) == 1 {
		if r := ref(p.t[0].m, false); r != nil {
			return c.zeroE(r.e), true
		}
	}
	if len(p.t) == 2 && new(big.Int).Add(p.t[0].c, p.t[1].c).Sign() == 0 {
		a, b := ref(p.t[0].m, true), ref(p.t[1].m, true)
		if a != nil && b != nil && a.y == b.y && a.e.g == b.e.g {
			d, s := c.zeroE(c.eSub(a.e, b.e)), c.zeroE(c.eAdd(a.e, b.e))
			points := func(r Bdd) Bdd {
				if guard == bT {
					return r
				}
				q := p
				if q.t[len(q.t)-1].c.Sign() < 0 {
					q = neg(q)
				}
				return c.ite(guard, r, c.condVar(&condInfo{key: "zero:" + q.Key(), desc: c.show(q) + "=0", num: q}))
			}
			if !a.y {
				return points(c.or(d, s)), true
			}
			ka, kb := a.e.Key(), b.e.Key()
			if ka > kb {
				ka, kb = kb, ka
			}
			v := c.condVar(&condInfo{key: "samey:" + ka + "," + kb, desc: "equal y coordinates"})
			return points(c.or(d, c.and(c.not(s), v))), true
		}
	}
	return bF, false
}

func (c *Ctx) affineBinary(p *Poly) (*atomInfo, *big.Int, *big.Int) {
	if p.t[0].m != "" || len(p.t[1].m) != 6 {
		return nil, nil, nil
	}
	f := unpackMono(p.t[1].m)
	a := c.atoms[f[0].a]
	if !a.binary || f[0].e != 1 {
		return nil, nil, nil
	}
	return a, p.t[0].c, p.t[1].c
}

// mainModulus returns m if p contains residues modulo exactly one large m.
func (c *Ctx) mainModulus(p *Poly) *big.Int {
	var m *big.Int
	for _, t := range p.t {
		for _, f := range unpackMono(t.m) {
			a := c.atoms[f.a]
			var am *big.Int
			if a.kind == aMod && a.data == nil {
				am = a.m
			} else if a.m != nil && a.kind == aSym {
				am = a.m // symbol declared as residue
			} else if a.kind == aReal || a.kind == aImag {
				am = c.p
			}
			if am != nil {
				if m != nil && m.Cmp(am) != 0 {
					return nil
				}
				m = am
			}
		}
	}
	return m
}

// zeroModB is the condition p = 0 mod m (m prime).
func (c *Ctx) zeroModB(p *Poly, m *big.Int) Bdd {
	if c.p != nil && m.Cmp(c.p) == 0 {
		if im, q, ok := c.k2lin(p); ok {
			return c.zeroPart(q, im)
		}
	}
	if bs := c.binAtoms(p, 3); len(bs) > 0 {
		return c.ite(c.zeroInt(c.atomPoly(bs[0])), c.zeroModB(c.subst1(p, bs[0], &Poly{}), m), c.zeroModB(c.subst1(p, bs[0], csti(1)), m))
	}
	r := c.reduce(p, m)
	if r.isZero() {
		return bT
	}
	n, _ := c.clearInv(r, m)
	if n.isZero() {
		return bT
	}
	_, g, q := c.monic(n, m)
	res := bF
	for _, f := range g {
		if f.e > 0 {
			res = c.or(res, c.zeroAtomMod(c.atoms[f.a], m))
		}
	}
	if len(q.t) == 1 {
		for _, f := range unpackMono(q.t[0].m) {
			if f.a != c.imagI {
				res = c.or(res, c.zeroAtomMod(c.atoms[f.a], m))
			}
		}
		return res
	}
	if c.nonzero[m.Text(62)+":"+q.Key()] {
		return res
	}
	return c.or(res, c.condVar(&condInfo{key: "zeromod:" + m.Text(62) + ":" + q.Key(), desc: c.show(q) + "=0 mod " + modName(m), num: q, mod: m}))
}

func modName(m *big.Int) string {
	s := m.String()
	if len(s) > 8 {
		return s[:4] + ".." + s[len(s)-2:]
	}
	return s
}

func (c *Ctx) zeroAtomMod(a *atomInfo, m *big.Int) Bdd {
	if a.nonzero {
		return bF
	}
	p := c.atomPoly(a)
	if c.nonzero[m.Text(62)+":"+p.Key()] {
		return bF
	}
	lo, hi := a.lo, a.hi
	if lo != nil && hi != nil && new(big.Int).Neg(m).Cmp(lo) < 0 && hi.Cmp(m) < 0 {
		if lo.Sign() > 0 || hi.Sign() < 0 {
			return bF
		}
		if a.binary {
			return c.zeroInt(p)
		}
	}
	return c.condVar(&condInfo{key: "zeromod:" + m.Text(62) + ":" + p.Key(), desc: c.show(p) + "=0 mod " + modName(m), num: p, mod: m})
}

// assumeNonzero declares p nonzero modulo m.
func (c *Ctx) assumeNonzero(p *Poly, m *big.Int) {
	r := c.reduce(p, m)
	n, _ := c.clearInv(r, m)
	if n.isZero() {
		panic(fmt.Sprintf("contradictory assumption"))
	}
	_, g, q := c.monic(n, m)
	for _, f := range g {
		c.nonzero[m.Text(62)+":"+c.atomPoly(c.atoms[f.a]).Key()] = true
	}
	if _, ok := q.isConst(); !ok {
		c.nonzero[m.Text(62)+":"+q.Key()] = true
	}
}

// negB is the condition p < 0.
func (c *Ctx) negB(p *Poly) Bdd {
	if q := c.foldDiv(p); q != p {
		return c.negB(q)
	}
	if k, ok := p.isConst(); ok {
		if k.Sign() < 0 {
			return bT
		}
		return bF
	}
	lo, hi := c.interval(p)
	if lo != nil && lo.Sign() >= 0 {
		return bF
	}
	if hi != nil && hi.Sign() < 0 {
		return bT
	}
	// binary affine forms
	if len(p.t) == 2 {
		if a, k, s := c.affineBinary(p); a != nil {
			z := c.zeroInt(c.atomPoly(a))
			at0, at1 := bF, bF
			if k.Sign() < 0 {
				at0 = bT
			}
			if new(big.Int).Add(k, s).Sign() < 0 {
				at1 = bT
			}
			return c.ite(z, at0, at1)
		}
	}
	if bs := c.binAtoms(p, 3); len(bs) > 0 {
		return c.ite(c.zeroInt(c.atomPoly(bs[0])), c.negB(c.subst1(p, bs[0], &Poly{})), c.negB(c.subst1(p, bs[0], csti(1))))
	}
	// canonical sign: p<0 for leading coefficient positive; otherwise
	// p<0 iff not(-p<0) and p != 0
	q := p
	flip := q.t[len(q.t)-1].c.Sign() < 0
	if flip {
		q = neg(q)
	}
	g := new(big.Int)
	for _, t := range q.t {
		g.GCD(nil, nil, g, new(big.Int).Abs(t.c))
	}
	if g.Cmp(b1) > 0 {
		q, _ = c.exactDivisible(q, g)
	}
	v := c.condVar(&condInfo{key: "neg:" + q.Key(), desc: c.show(q) + "<0", negn: q})
	z := c.zeroInt(q)
	// v is meant as "q<0 or unused when q=0": encode q<0 as not z and v
	n := c.and(v, c.not(z))
	if !flip {
		return n
	}
	return c.and(c.not(n), c.not(z))
}

// foldDiv replaces d*floor(y/d) by y - (y mod d) where that makes p shorter.
func (c *Ctx) foldDiv(p *Poly) *Poly {
	for _, t := range p.t {
		if len(t.m) != 6 {
			continue
		}
		f := unpackMono(t.m)[0]
		a := c.atoms[f.a]
		if a.kind != aDiv || f.e != 1 {
			continue
		}
		// floor(x/M) = floor(y/d) for y = floor(x/(M/d))
		d := new(big.Int).GCD(nil, nil, new(big.Int).Abs(t.c), a.m)
		if d.Cmp(b1) == 0 {
			continue
		}
		k, y := new(big.Int).Quo(t.c, d), c.div(a.arg, new(big.Int).Quo(a.m, d))
		var m *Poly
		if d.BitLen() <= 64 {
			m = c.modDigit(y, d)
		} else {
			m = c.mod(y, d)
		}
		q := sub(add(p, scale(sub(y, m), k)), &Poly{t: []term{t}})
		if len(q.t) < len(p.t) || len(q.t) == len(p.t) && m.isZero() {
			return q
		}
	}
	return p
}
