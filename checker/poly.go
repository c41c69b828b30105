package main

// Integer-valued abstract numbers: Laurent polynomials with integer
// coefficients over interned atoms. Two numbers are equal if their normal
// forms are equal; residues are compared through reduce.

import (
	"encoding/binary"
	"fmt"
	"math/big"
	"sort"
	"strings"
)

var (
	b0 = big.NewInt(0)
	b1 = big.NewInt(1)
	b2 = big.NewInt(2)
)

func bi(x int64) *big.Int { return big.NewInt(x) }

type atomID int32

type atomKind uint8

const (
	aSym    atomKind = iota
	aMod             // arg mod m (arg canonical mod m)
	aInv             // inverse of arg modulo m
	aDiv             // floor(arg/m)
	aByte            // byte k of arg
	aBit             // bit k of arg
	aBitLen          // bit length of |arg|
	aUF              // uninterpreted
	aImag            // imaginary coordinate of K2 element
	aReal            // real coordinate of K2 element
	aPow             // power arg^exp mod m
)

type atomInfo struct {
	id      atomID
	kind    atomKind
	name    string
	lo, hi  *big.Int // inclusive; nil: unbounded
	arg     *Poly
	m       *big.Int
	k       int
	k2      bool   // element of GF(p^2), not of GF(p)
	conj    atomID // conjugate of a k2 atom
	binary  bool
	nonzero bool // not divisible by the moduli in use (assumption or fact)
	data    interface{}
	tag     string // classification: "rand","hash","secret",...
}

// Ctx is one universe of atoms and conditions.
type Ctx struct {
	atoms  []*atomInfo
	byName map[string]atomID
	imagI  atomID // the square root of -1
	fresh  int
	opaque bool // numbers are not followed, only where they come from
	bddCore
	nonzero   map[string]bool // canonical keys of polys known nonzero mod m
	p         *big.Int        // field prime used at the K2 level
	fr12      bool            // exponents of a formal multiplicative group
	relCache  map[string]*Poly
	ivCache   map[*Poly][2]*big.Int
	notes     map[string]bool
	baseTab   map[string]*baseInfo
	ptTab     map[string][2]*Poly
	ptCoord   map[atomID]*coordRef
	taintMemo map[atomID]bool
}

func newCtx() *Ctx {
	c := &Ctx{byName: map[string]atomID{}, nonzero: map[string]bool{}, ivCache: map[*Poly][2]*big.Int{}, notes: map[string]bool{}}
	c.atoms = append(c.atoms, &atomInfo{name: "?"})
	c.imagI = c.atom(&atomInfo{kind: aSym, name: "I", k2: true}).id
	c.bddInit()
	return c
}

func (c *Ctx) atom(a *atomInfo) *atomInfo {
	if id, ok := c.byName[a.name]; ok {
		return c.atoms[id]
	}
	a.id = atomID(len(c.atoms))
	if a.lo != nil && a.hi != nil && a.lo.Sign() == 0 && a.hi.Cmp(b1) == 0 {
		a.binary = true
	}
	c.atoms = append(c.atoms, a)
	c.byName[a.name] = a.id
	return a
}

func (c *Ctx) sym(name string, lo, hi *big.Int) *Poly {
	return c.atomPoly(c.atom(&atomInfo{kind: aSym, name: name, lo: lo, hi: hi}))
}

func (c *Ctx) freshName(prefix string) string {
	c.fresh++
	return fmt.Sprintf("%s#%d", prefix, c.fresh)
}

type term struct {
	m string // packed monomial
	c *big.Int
}

// Poly is immutable; terms are sorted by monomial.
type Poly struct {
	t   []term
	key string
}

func packMono(fs []factor) string {
	b := make([]byte, 0, 6*len(fs))
	for _, f := range fs {
		var x [6]byte
		binary.BigEndian.PutUint32(x[:4], uint32(f.a))
		binary.BigEndian.PutUint16(x[4:], uint16(int32(f.e)+32768))
		b = append(b, x[:]...)
	}
	return string(b)
}

type factor struct {
	a atomID
	e int
}

func unpackMono(m string) []factor {
	fs := make([]factor, len(m)/6)
	for i := range fs {
		s := m[6*i : 6*i+6]
		fs[i].a = atomID(uint32(s[0])<<24 | uint32(s[1])<<16 | uint32(s[2])<<8 | uint32(s[3]))
		fs[i].e = int(uint16(s[4])<<8|uint16(s[5])) - 32768
	}
	return fs
}

func (c *Ctx) atomPoly(a *atomInfo) *Poly {
	return &Poly{t: []term{{packMono([]factor{{a.id, 1}}), b1}}}
}

func cst(x *big.Int) *Poly {
	if x.Sign() == 0 {
		return &Poly{}
	}
	return &Poly{t: []term{{"", x}}}
}
func csti(x int64) *Poly { return cst(bi(x)) }

func (p *Poly) Key() string {
	if p.key == "" {
		var sb strings.Builder
		sb.WriteByte('{')
		for _, t := range p.t {
			sb.WriteString(t.m)
			sb.WriteByte(':')
			sb.WriteString(t.c.Text(62))
			sb.WriteByte(';')
		}
		sb.WriteByte('}')
		p.key = sb.String()
	}
	return p.key
}

func (p *Poly) isZero() bool { return len(p.t) == 0 }
func (p *Poly) isConst() (*big.Int, bool) {
	if len(p.t) == 0 {
		return b0, true
	}
	if len(p.t) == 1 && p.t[0].m == "" {
		return p.t[0].c, true
	}
	return nil, false
}
func polyEq(a, b *Poly) bool {
	if a == b {
		return true
	}
	if len(a.t) != len(b.t) {
		return false
	}
	for i := range a.t {
		if a.t[i].m != b.t[i].m || a.t[i].c.Cmp(b.t[i].c) != 0 {
			return false
		}
	}
	return true
}

// single returns the atom if p is exactly one atom.
func (c *Ctx) single(p *Poly) *atomInfo {
	if len(p.t) == 1 && len(p.t[0].m) == 6 && p.t[0].c.Cmp(b1) == 0 {
		f := unpackMono(p.t[0].m)
		if f[0].e == 1 {
			return c.atoms[f[0].a]
		}
	}
	return nil
}

func fromMap(m map[string]*big.Int) *Poly {
	p := &Poly{t: make([]term, 0, len(m))}
	for k, v := range m {
		if v.Sign() != 0 {
			p.t = append(p.t, term{k, v})
		}
	}
	sort.Slice(p.t, func(i, j int) bool { return p.t[i].m < p.t[j].m })
	return p
}

func add(a, b *Poly) *Poly { return addScaled(a, b, b1) }
func sub(a, b *Poly) *Poly { return addScaled(a, b, bi(-1)) }
func addScaled(a, b *Poly, s *big.Int) *Poly {
	if len(b.t) == 0 {
		return a
	}
	r := &Poly{t: make([]term, 0, len(a.t)+len(b.t))}
	i, j := 0, 0
	for i < len(a.t) || j < len(b.t) {
		switch {
		case j == len(b.t) || i < len(a.t) && a.t[i].m < b.t[j].m:
			r.t = append(r.t, a.t[i])
			i++
		case i == len(a.t) || b.t[j].m < a.t[i].m:
			r.t = append(r.t, term{b.t[j].m, new(big.Int).Mul(b.t[j].c, s)})
			j++
		default:
			v := new(big.Int).Mul(b.t[j].c, s)
			v.Add(v, a.t[i].c)
			if v.Sign() != 0 {
				r.t = append(r.t, term{a.t[i].m, v})
			}
			i++
			j++
		}
	}
	return r
}
func scale(a *Poly, s *big.Int) *Poly {
	if s.Sign() == 0 {
		return &Poly{}
	}
	if s.Cmp(b1) == 0 {
		return a
	}
	r := &Poly{t: make([]term, len(a.t))}
	for i, t := range a.t {
		r.t[i] = term{t.m, new(big.Int).Mul(t.c, s)}
	}
	return r
}
func neg(a *Poly) *Poly { return scale(a, bi(-1)) }

// mulMono multiplies monomials; sign is -1 if I^2 was folded.
func (c *Ctx) mulMono(a, b string) (string, bool) {
	if a == "" {
		return b, false
	}
	if b == "" {
		return a, false
	}
	fa, fb := unpackMono(a), unpackMono(b)
	r := make([]factor, 0, len(fa)+len(fb))
	neg := false
	i, j := 0, 0
	for i < len(fa) || j < len(fb) {
		switch {
		case j == len(fb) || i < len(fa) && fa[i].a < fb[j].a:
			r = append(r, fa[i])
			i++
		case i == len(fa) || fb[j].a < fa[i].a:
			r = append(r, fb[j])
			j++
		default:
			f := factor{fa[i].a, fa[i].e + fb[j].e}
			if f.e > 30000 || f.e < -30000 {
				panic(undecided{"exponent too large"})
			}
			i++
			j++
			at := c.atoms[f.a]
			if f.a == c.imagI {
				e := ((f.e % 4) + 4) % 4
				if e >= 2 {
					neg = !neg
					e -= 2
				}
				f.e = e
			} else if at.binary && f.e > 1 {
				f.e = 1
			}
			if f.e != 0 {
				r = append(r, f)
			}
		}
	}
	return packMono(r), neg
}

const maxTerms = 400000

func (c *Ctx) mul(a, b *Poly) *Poly {
	if len(a.t) == 0 || len(b.t) == 0 {
		return &Poly{}
	}
	if k, ok := a.isConst(); ok {
		return scale(b, k)
	}
	if k, ok := b.isConst(); ok {
		return scale(a, k)
	}
	if len(a.t)*len(b.t) > 4*maxTerms {
		panic(undecided{"polynomial too large"})
	}
	m := make(map[string]*big.Int, len(a.t)*len(b.t))
	var tmp big.Int
	for _, x := range a.t {
		for _, y := range b.t {
			k, ng := c.mulMono(x.m, y.m)
			tmp.Mul(x.c, y.c)
			v := m[k]
			if v == nil {
				v = new(big.Int)
				m[k] = v
			}
			if ng {
				v.Sub(v, &tmp)
			} else {
				v.Add(v, &tmp)
			}
		}
	}
	return fromMap(m)
}

func (c *Ctx) pow(a *Poly, n int) *Poly {
	r := csti(1)
	for i := 0; i < n; i++ {
		r = c.mul(r, a)
	}
	return r
}

func (c *Ctx) powMod(a *Poly, n int, m *big.Int) *Poly {
	if n < 0 {
		return c.powMod(c.inverse(a, m), -n, m)
	}
	if len(a.t) == 1 { // monomial
		fs := unpackMono(a.t[0].m)
		for i := range fs {
			fs[i].e *= n
		}
		co := new(big.Int).Exp(a.t[0].c, bi(int64(n)), m)
		p := &Poly{t: []term{{"", co}}}
		for _, f := range fs {
			q := &Poly{t: []term{{packMono([]factor{f}), b1}}}
			p = c.mul(p, q)
		}
		return p
	}
	r := csti(1)
	base := a
	for n > 0 {
		if n&1 == 1 {
			r = c.coefMod(c.mul(r, base), m)
		}
		n >>= 1
		if n > 0 {
			base = c.coefMod(c.mul(base, base), m)
		}
	}
	return r
}

func (c *Ctx) coefMod(p *Poly, m *big.Int) *Poly {
	r := &Poly{t: make([]term, 0, len(p.t))}
	for _, t := range p.t {
		v := new(big.Int).Mod(t.c, m)
		if v.Sign() != 0 {
			r.t = append(r.t, term{t.m, v})
		}
	}
	return r
}

// reduce returns the canonical form of p modulo m: residues modulo multiples
// of m are opened, coefficients are in [0,m), denominators D with inv(D) are
// cancelled where a term contains D's canonical inverse explicitly only.
func (c *Ctx) reduce(p *Poly, m *big.Int) *Poly {
	for round := 0; ; round++ {
		need := false
		for _, t := range p.t {
			for i := 0; i+6 <= len(t.m); i += 6 {
				a := c.atoms[atomOf(t.m[i:])]
				if c.opensMod(a, m) || isRoot(a, m) && int(t.m[i+4])<<8+int(t.m[i+5]) > 32768+1 {
					need = true
				}
			}
		}
		if !need {
			return c.coefMod(p, m)
		}
		acc := map[string]*big.Int{}
		// group by the "opened" part to limit the work
		for _, t := range p.t {
			var rest []factor
			q := cst(t.c)
			for _, f := range unpackMono(t.m) {
				a := c.atoms[f.a]
				if c.opensMod(a, m) {
					q = c.coefMod(c.mul(q, c.powMod(c.openMod(a), f.e, m)), m)
				} else if isRoot(a, m) && f.e > 1 { // r^2 = x
					q = c.coefMod(c.mul(q, c.powMod(a.arg, f.e/2, m)), m)
					if f.e%2 == 1 {
						rest = append(rest, factor{f.a, 1})
					}
				} else {
					rest = append(rest, f)
				}
			}
			if len(rest) > 0 {
				q = c.mul(q, &Poly{t: []term{{packMono(rest), b1}}})
			}
			for _, u := range q.t {
				v := acc[u.m]
				if v == nil {
					v = new(big.Int)
					acc[u.m] = v
				}
				v.Add(v, u.c)
			}
			if len(acc) > maxTerms {
				panic(undecided{"polynomial too large"})
			}
		}
		for _, v := range acc {
			v.Mod(v, m)
		}
		p = fromMap(acc)
		if round > 50 {
			panic(undecided{"reduce does not terminate"})
		}
	}
}

// isRoot: the atom is a square root mod m.
func isRoot(a *atomInfo, m *big.Int) bool {
	return a.data == "sqrt" && a.m != nil && a.m.Cmp(m) == 0
}

func atomOf(s string) atomID {
	return atomID(uint32(s[0])<<24 | uint32(s[1])<<16 | uint32(s[2])<<8 | uint32(s[3]))
}

func (c *Ctx) opensMod(a *atomInfo, m *big.Int) bool {
	switch a.kind {
	case aMod:
		return a.m.Cmp(m) == 0 || new(big.Int).Mod(a.m, m).Sign() == 0
	case aReal, aImag:
		return true
	}
	return false
}

func (c *Ctx) openMod(a *atomInfo) *Poly {
	switch a.kind {
	case aMod:
		return a.arg
	case aReal: // (e+conj e)/2
		h := new(big.Int).ModInverse(b2, c.p)
		return scale(add(a.arg, c.conj(a.arg)), h)
	case aImag: // -I(e-conj e)/2
		h := new(big.Int).ModInverse(b2, c.p)
		h.Neg(h)
		return scale(c.mul(c.atomPoly(c.atoms[c.imagI]), sub(a.arg, c.conj(a.arg))), h)
	}
	return a.arg
}

// conj conjugates a GF(p^2) expression.
func (c *Ctx) conj(p *Poly) *Poly {
	r := &Poly{}
	for _, t := range p.t {
		q := cst(t.c)
		for _, f := range unpackMono(t.m) {
			a := c.atoms[f.a]
			var x *Poly
			if f.a == c.imagI {
				x = neg(c.atomPoly(a))
			} else if a.k2 && a.kind == aInv {
				x = c.inverse(c.conj(a.arg), a.m)
			} else if a.k2 {
				if a.conj == 0 {
					b := c.atom(&atomInfo{kind: a.kind, name: a.name + "~", k2: true, nonzero: a.nonzero, tag: a.tag})
					a.conj = b.id
					b.conj = a.id
				}
				x = c.atomPoly(c.atoms[a.conj])
			} else {
				x = c.atomPoly(a)
			}
			if f.e < 0 {
				for i := 0; i < -f.e; i++ {
					q = c.mul(q, &Poly{t: []term{{packMono([]factor{{c.single(x).id, -1}}), b1}}})
				}
			} else {
				for i := 0; i < f.e; i++ {
					q = c.mul(q, x)
				}
			}
		}
		r = add(r, q)
	}
	return r
}

// clearInv multiplies r by the denominators it contains: returns n and d with
// r = n/d modulo m (d a product of arguments of inv atoms).
func (c *Ctx) clearInv(r *Poly, m *big.Int) (num, den *Poly) {
	den = csti(1)
	for round := 0; round < 60; round++ {
		var inv *atomInfo
		maxe := 0
		for _, t := range r.t {
			for i := 0; i+6 <= len(t.m); i += 6 {
				a := c.atoms[atomOf(t.m[i:])]
				if a.kind == aInv && a.m.Cmp(m) == 0 && (inv == nil || a.id > inv.id) {
					inv = a
				}
			}
		}
		if inv == nil {
			return r, den
		}
		for _, t := range r.t {
			for _, f := range unpackMono(t.m) {
				if f.a == inv.id && f.e > maxe {
					maxe = f.e
				}
			}
		}
		pows := make([]*Poly, maxe+1)
		pows[0] = csti(1)
		for i := 1; i <= maxe; i++ {
			pows[i] = c.coefMod(c.mul(pows[i-1], inv.arg), m)
		}
		acc := &Poly{}
		parts := map[int]*Poly{}
		for _, t := range r.t {
			var rest []factor
			e := 0
			for _, f := range unpackMono(t.m) {
				if f.a == inv.id {
					e = f.e
				} else {
					rest = append(rest, f)
				}
			}
			if parts[e] == nil {
				parts[e] = &Poly{}
			}
			parts[e] = add(parts[e], &Poly{t: []term{{packMono(rest), t.c}}})
		}
		for e, q := range parts {
			acc = add(acc, c.mul(q, pows[maxe-e]))
		}
		r = c.reduce(acc, m)
		den = c.coefMod(c.mul(den, pows[maxe]), m)
	}
	panic(undecided{"denominators too deep"})
}

// monomial content: the gcd monomial of all terms (for exponents of any sign).
func (c *Ctx) content(p *Poly) []factor {
	if len(p.t) == 0 {
		return nil
	}
	g := map[atomID]int{}
	for _, f := range unpackMono(p.t[0].m) {
		g[f.a] = f.e
	}
	for _, t := range p.t[1:] {
		have := map[atomID]int{}
		for _, f := range unpackMono(t.m) {
			have[f.a] = f.e
			if _, ok := g[f.a]; !ok && f.e < 0 {
				g[f.a] = 0
			}
		}
		for a, e := range g {
			if h := have[a]; h < e {
				g[a] = h
			}
		}
	}
	// an atom with negative exponent in some term but absent from the first
	var r []factor
	for a, e := range g {
		if e != 0 {
			r = append(r, factor{a, e})
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].a < r[j].a })
	return r
}

func (c *Ctx) divMono(p *Poly, g []factor) *Poly {
	if len(g) == 0 {
		return p
	}
	ng := make([]factor, len(g))
	for i, f := range g {
		ng[i] = factor{f.a, -f.e}
	}
	gm := packMono(ng)
	m := map[string]*big.Int{}
	for _, t := range p.t {
		k, s := c.mulMono(t.m, gm)
		v := t.c
		if s {
			v = new(big.Int).Neg(v)
		}
		m[k] = v
	}
	return fromMap(m)
}

// monic returns (s, g, q) with p = s*mono(g)*q modulo m, q canonical.
func (c *Ctx) monic(p *Poly, m *big.Int) (*big.Int, []factor, *Poly) {
	g := c.content(p)
	// binary atoms and I must stay inside
	var gg []factor
	for _, f := range g {
		if !c.atoms[f.a].binary && f.a != c.imagI {
			gg = append(gg, f)
		}
	}
	q := c.divMono(p, gg)
	lead := q.t[len(q.t)-1].c
	inv := new(big.Int).ModInverse(lead, m)
	if inv == nil {
		return b1, gg, q
	}
	return lead, gg, c.coefMod(scale(q, inv), m)
}

// inverse of p modulo the prime m (p assumed invertible).
func (c *Ctx) inverse(p *Poly, m *big.Int) *Poly {
	r := c.reduce(p, m)
	num, den := c.clearInv(r, m)
	if num.isZero() {
		panic(undecided{"inverse of zero"})
	}
	s, g, q := c.monic(num, m)
	si := new(big.Int).ModInverse(s, m)
	ng := make([]factor, len(g))
	for i, f := range g {
		ng[i] = factor{f.a, -f.e}
	}
	res := &Poly{t: []term{{packMono(ng), si}}}
	if k, ok := q.isConst(); !(ok && k.Cmp(b1) == 0) {
		if len(q.t) == 1 && q.t[0].m == packMono([]factor{{c.imagI, 1}}) {
			res = c.mul(res, neg(c.atomPoly(c.atoms[c.imagI])))
		} else {
			k2 := false
			for _, t := range q.t {
				for _, f := range unpackMono(t.m) {
					if c.atoms[f.a].k2 {
						k2 = true
					}
				}
			}
			a := c.atom(&atomInfo{kind: aInv, name: "inv(" + q.Key() + "%" + m.Text(62) + ")", arg: q, m: m, k2: k2, nonzero: true})
			res = c.mul(res, c.atomPoly(a))
		}
	}
	return c.reduce(c.mul(res, den), m)
}

// normMod is reduce plus removal of denominators that cancel: two equal
// residues may still differ in form if they contain different inv atoms; use
// equalMod for decisions.
func (c *Ctx) equalMod(a, b *Poly, m *big.Int) bool {
	return c.zeroMod(sub(a, b), m)
}

func (c *Ctx) zeroMod(p *Poly, m *big.Int) bool {
	r := c.reduce(p, m)
	if r.isZero() {
		return true
	}
	n, _ := c.clearInv(r, m)
	if n.isZero() {
		return true
	}
	// relations between bytes/bits/digits and their number
	n2 := c.applyRelations(n)
	if n2 != n {
		n2 = c.reduce(n2, m)
		return n2.isZero()
	}
	return false
}

// mod returns the residue of p as a number.
func (c *Ctx) mod(p *Poly, m *big.Int) *Poly {
	lo, hi := c.interval(p)
	if lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(m) < 0 {
		return p
	}
	if m.BitLen() <= 40 {
		return c.digitAtom(p, m)
	}
	if c.p != nil && m.Cmp(c.p) == 0 {
		if im, q, ok := c.k2lin(p); ok {
			return c.part(q, im, "")
		}
	}
	return c.modRaw(p, m)
}

func (c *Ctx) modRaw(p *Poly, m *big.Int) *Poly {
	lo, hi := c.interval(p)
	if lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(m) < 0 {
		return p
	}
	r := c.reduce(p, m)
	if k, ok := r.isConst(); ok {
		return cst(k)
	}
	// p is r up to multiples of m if r is in range
	if !hasNegExp(r) {
		lo, hi = c.interval(r)
		if lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(m) < 0 {
			return r
		}
	}
	if hasInv(c, r, m) {
		// canonical choice: fold denominators into one
		r = c.canonFrac(r, m)
		if k, ok := r.isConst(); ok {
			return cst(k)
		}
	}
	a := c.atom(&atomInfo{kind: aMod, name: "mod(" + r.Key() + "%" + m.Text(62) + ")", arg: r, m: m, lo: b0, hi: new(big.Int).Sub(m, b1)})
	return c.atomPoly(a)
}

func hasInv(c *Ctx, r *Poly, m *big.Int) bool {
	for _, t := range r.t {
		for i := 0; i+6 <= len(t.m); i += 6 {
			a := c.atoms[atomOf(t.m[i:])]
			if a.kind == aInv && a.m.Cmp(m) == 0 {
				return true
			}
		}
	}
	return false
}

// canonFrac: r = n/d; try to divide exactly; otherwise leave as is.
func (c *Ctx) canonFrac(r *Poly, m *big.Int) *Poly {
	n, _ := c.clearInv(r, m)
	if n.isZero() {
		return n
	}
	return r
}

func hasNegExp(p *Poly) bool {
	for _, t := range p.t {
		for _, f := range unpackMono(t.m) {
			if f.e < 0 {
				return true
			}
		}
	}
	return false
}

// interval of an integer valued polynomial.
func (c *Ctx) interval(p *Poly) (lo, hi *big.Int) {
	if iv, ok := c.ivCache[p]; ok {
		return iv[0], iv[1]
	}
	lo, hi = new(big.Int), new(big.Int)
	if len(p.t) > 3000 {
		return nil, nil
	}
	for _, t := range p.t {
		l, h := b1, b1
		for _, f := range unpackMono(t.m) {
			a := c.atoms[f.a]
			if f.e < 0 || a.kind == aInv || a.k2 {
				return nil, nil
			}
			for i := 0; i < f.e; i++ {
				l, h = imul(l, h, a.lo, a.hi)
			}
			if f.e%2 == 0 && l == nil && h == nil {
				l = b0
			}
			if f.e == 2 && (a.lo == nil || a.lo.Sign() < 0) { // square
				if l == nil || l.Sign() < 0 {
					l = b0
				}
			}
		}
		l, h = imul(l, h, t.c, t.c)
		lo = iadd(lo, l)
		hi = iadd(hi, h)
		if lo == nil && hi == nil {
			break
		}
	}
	c.ivCache[p] = [2]*big.Int{lo, hi}
	return
}

func iadd(a, b *big.Int) *big.Int {
	if a == nil || b == nil {
		return nil
	}
	return new(big.Int).Add(a, b)
}

func imul(l1, h1, l2, h2 *big.Int) (*big.Int, *big.Int) {
	if l1 != nil && h1 != nil && l1.Cmp(b1) == 0 && h1.Cmp(b1) == 0 {
		return l2, h2
	}
	if l1 == nil || h1 == nil || l2 == nil || h2 == nil {
		// keep half-bounded information for nonnegative factors and constants
		if l2 != nil && h2 != nil && l2.Cmp(h2) == 0 {
			l1, h1, l2, h2 = l2, h2, l1, h1
		}
		if l1 != nil && h1 != nil && l1.Cmp(h1) == 0 { // constant times half-open
			s := l1.Sign()
			m := func(x *big.Int) *big.Int {
				if x == nil {
					return nil
				}
				return new(big.Int).Mul(x, l1)
			}
			if s >= 0 {
				return m(l2), m(h2)
			}
			return m(h2), m(l2)
		}
		if l1 != nil && l2 != nil && l1.Sign() >= 0 && l2.Sign() >= 0 {
			return new(big.Int).Mul(l1, l2), nil
		}
		return nil, nil
	}
	v := []*big.Int{new(big.Int).Mul(l1, l2), new(big.Int).Mul(l1, h2), new(big.Int).Mul(h1, l2), new(big.Int).Mul(h1, h2)}
	lo, hi := v[0], v[0]
	for _, x := range v[1:] {
		if x.Cmp(lo) < 0 {
			lo = x
		}
		if x.Cmp(hi) > 0 {
			hi = x
		}
	}
	return lo, hi
}

func (c *Ctx) exactDivisible(p *Poly, d *big.Int) (*Poly, bool) {
	r := &Poly{t: make([]term, len(p.t))}
	for i, t := range p.t {
		q, m := new(big.Int).DivMod(t.c, d, new(big.Int))
		if m.Sign() != 0 {
			return nil, false
		}
		r.t[i] = term{t.m, q}
	}
	return r, true
}

// div is floor division by a positive constant.
func (c *Ctx) div(p *Poly, d *big.Int) *Poly {
	if d.Cmp(b1) == 0 {
		return p
	}
	if k, ok := p.isConst(); ok {
		q, _ := new(big.Int).DivMod(k, d, new(big.Int))
		return cst(q)
	}
	if q, ok := c.exactDivisible(p, d); ok {
		return q
	}
	if lo, hi := c.interval(p); lo != nil && hi != nil {
		if ql := new(big.Int).Div(lo, d); ql.Cmp(new(big.Int).Div(hi, d)) == 0 {
			return cst(ql)
		}
	}
	// split off the part divisible by d
	q := &Poly{}
	r := &Poly{}
	for _, t := range p.t {
		k, m := centred(t, d)
		if k.Sign() != 0 {
			q.t = append(q.t, term{t.m, k})
		}
		if m.Sign() != 0 {
			r.t = append(r.t, term{t.m, m})
		}
	}
	if lo, hi := c.interval(r); lo != nil && hi != nil {
		ql := new(big.Int).Div(lo, d)
		qh := new(big.Int).Div(hi, d)
		if ql.Cmp(qh) == 0 {
			return add(q, cst(ql))
		}
	}
	if !q.isZero() {
		return add(q, c.div(r, d))
	}
	// floor((floor(x/m)+k)/d) = floor((x+km)/(md))
	k := b0
	x := p
	for _, t := range p.t {
		if t.m == "" {
			k = t.c
			x = sub(p, cst(k))
		}
	}
	if a := c.single(x); a != nil && a.kind == aDiv {
		return c.div(add(a.arg, cst(new(big.Int).Mul(k, a.m))), new(big.Int).Mul(a.m, d))
	}
	lo, hi := c.interval(p)
	var l2, h2 *big.Int
	if lo != nil {
		l2 = new(big.Int).Div(lo, d)
	}
	if hi != nil {
		h2 = new(big.Int).Div(hi, d)
	}
	if l2 != nil && h2 != nil && l2.Cmp(h2) == 0 {
		return cst(l2)
	}
	return c.atomPoly(c.atom(&atomInfo{kind: aDiv, name: "div(" + p.Key() + "/" + d.Text(62) + ")", arg: p, m: d, lo: l2, hi: h2}))
}

// centred splits a coefficient into a multiple of d and a remainder: of the
// smallest absolute value for a variable, not negative for the constant.
func centred(t term, d *big.Int) (k, m *big.Int) {
	k, m = new(big.Int).DivMod(t.c, d, new(big.Int))
	if t.m != "" && new(big.Int).Lsh(m, 1).Cmp(d) > 0 {
		m.Sub(m, d)
		k.Add(k, b1)
	}
	return k, m
}

// modSmall: residue as x - d*floor(x/d), used for small moduli (digits).
func (c *Ctx) modDigit(p *Poly, d *big.Int) *Poly {
	lo, hi := c.interval(p)
	if lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(d) < 0 {
		return p
	}
	return c.digitAtom(p, d)
}

// digitAtom returns the atom (p mod d) for a number p = floor(x/u); linked to
// the quotient by applyRelations.
func (c *Ctx) digitAtom(p *Poly, d *big.Int) *Poly {
	r := &Poly{}
	for _, t := range p.t {
		if _, m := centred(t, d); m.Sign() != 0 {
			r.t = append(r.t, term{t.m, m})
		}
	}
	if k, ok := r.isConst(); ok {
		return cst(k)
	}
	lo, hi := c.interval(r)
	if lo != nil && hi != nil {
		q := new(big.Int).Div(lo, d)
		if q.Cmp(new(big.Int).Div(hi, d)) == 0 {
			return sub(r, cst(new(big.Int).Mul(q, d)))
		}
	}
	if lo, hi := c.interval(p); lo != nil && hi != nil {
		q := new(big.Int).Div(lo, d)
		if q.Cmp(new(big.Int).Div(hi, d)) == 0 { // one period: p - q*d
			return sub(p, cst(new(big.Int).Mul(q, d)))
		}
	}
	a := c.atom(&atomInfo{kind: aMod, name: "mod(" + r.Key() + "%" + d.Text(62) + ")", arg: r, m: d, lo: b0, hi: new(big.Int).Sub(d, b1), data: "digit"})
	return c.atomPoly(a)
}

// applyRelations rewrites floor(p/d) chains: every atom div(x,c) is replaced
// by (x - mod(x,c))/c when the coefficients allow it. It works on the
// polynomial as an integer identity: multiply out with the least common
// multiple of the divisors.
func (c *Ctx) applyRelations(p *Poly) *Poly {
	// Pick digits mod(div(x,u^i),u) =: d_i; identity div(x,u^i) = d_i + u*div(x,u^(i+1)).
	// Rewrite every digit atom as div(x,u^i) - u*div(x,u^(i+1)).
	subst := map[atomID]*Poly{}
	for _, t := range p.t {
		for _, f := range unpackMono(t.m) {
			a := c.atoms[f.a]
			if _, done := subst[f.a]; done {
				continue
			}
			if a.kind == aMod && a.data == "digit" {
				// mod(y,d) = y - d*floor(y/d)
				subst[f.a] = sub(a.arg, scale(c.div(a.arg, a.m), a.m))
			}
			if a.kind == aByte || a.kind == aBit {
				w := uint(a.k)
				base := int64(2)
				if a.kind == aByte {
					base = 256
					w = 8 * uint(a.k)
				}
				lo := c.div(a.arg, new(big.Int).Lsh(b1, w))
				hi := c.div(a.arg, new(big.Int).Mul(bi(base), new(big.Int).Lsh(b1, w)))
				subst[f.a] = sub(lo, scale(hi, bi(base)))
			}
		}
	}
	if len(subst) == 0 {
		return p
	}
	return c.substitute(p, subst)
}

func (c *Ctx) substitute(p *Poly, s map[atomID]*Poly) *Poly {
	r := &Poly{}
	keep := map[string]*big.Int{}
	for _, t := range p.t {
		hit := false
		fs := unpackMono(t.m)
		for _, f := range fs {
			if s[f.a] != nil {
				hit = true
			}
		}
		if !hit {
			keep[t.m] = t.c
			continue
		}
		q := cst(t.c)
		for _, f := range fs {
			x := s[f.a]
			if x == nil || f.e < 0 {
				x = &Poly{t: []term{{packMono([]factor{f}), b1}}}
				q = c.mul(q, x)
				continue
			}
			for i := 0; i < f.e; i++ {
				q = c.mul(q, x)
			}
		}
		r = add(r, q)
	}
	return add(r, fromMap(keep))
}

// eqInt decides p == q as integers (3-valued: 1 equal, 0 different, -1 unknown).
func (c *Ctx) eqInt(p, q *Poly) int {
	d := sub(p, q)
	if d.isZero() {
		return 1
	}
	if _, ok := d.isConst(); ok {
		return 0
	}
	if lo, hi := c.interval(d); (lo != nil && lo.Sign() > 0) || (hi != nil && hi.Sign() < 0) {
		return 0
	}
	d2 := c.applyRelations(d)
	if d2.isZero() {
		return 1
	}
	if k, ok := d2.isConst(); ok && k.Sign() != 0 {
		return 0
	}
	return -1
}

func (c *Ctx) show(p *Poly) string {
	if len(p.t) == 0 {
		return "0"
	}
	var parts []string
	for i, t := range p.t {
		if i >= 8 {
			parts = append(parts, fmt.Sprintf("... (%d terms)", len(p.t)))
			break
		}
		s := ""
		for _, f := range unpackMono(t.m) {
			n := c.atomShow(c.atoms[f.a])
			if f.e != 1 {
				n += fmt.Sprintf("^%d", f.e)
			}
			if s != "" {
				s += "."
			}
			s += n
		}
		co := t.c.String()
		if len(co) > 12 {
			co = co[:5] + ".." + co[len(co)-4:]
		}
		if s == "" {
			s = co
		} else if co != "1" {
			s = co + "." + s
		}
		parts = append(parts, s)
	}
	return strings.Join(parts, " + ")
}

func (c *Ctx) atomShow(a *atomInfo) string {
	switch a.kind {
	case aMod:
		s := c.show(a.arg)
		if len(s) > 60 {
			s = s[:60] + ".."
		}
		return "(" + s + " mod m)"
	case aInv:
		s := c.show(a.arg)
		if len(s) > 40 {
			s = s[:40] + ".."
		}
		return "1/(" + s + ")"
	case aDiv:
		return "floor(" + c.show(a.arg) + "/" + a.m.String() + ")"
	}
	if len(a.name) > 60 {
		return fmt.Sprintf("%s..@%d", a.name[:40], a.id)
	}
	return a.name
}

type undecided struct{ why string }
