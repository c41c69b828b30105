package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- abelian groups as formal linear combinations ----------

type Group struct {
	name  string
	order *big.Int // nil: coefficients are integers
	p     *big.Int // field prime of the coordinates
}

type eterm struct {
	base string
	co   *Poly
}

// Elem is an element of an abelian group, written additively.
type Elem struct {
	g   *Group
	t   []eterm // sorted by base
	key string
}

type baseInfo struct {
	name      string
	nonzero   bool
	untrusted bool // coordinates may be arbitrary
	pairA     *Elem
	pairB     *Elem
}

func (e *Elem) Key() string {
	if e.key == "" {
		var sb strings.Builder
		sb.WriteString(e.g.name)
		for _, t := range e.t {
			sb.WriteString("|" + t.base + "*" + t.co.Key())
		}
		e.key = sb.String()
	}
	return e.key
}

func elemEq(a, b *Elem) bool { return a.Key() == b.Key() }

func zeroElem(g *Group) *Elem { return &Elem{g: g} }
func (c *Ctx) base(g *Group, name string) *Elem {
	return &Elem{g: g, t: []eterm{{name, csti(1)}}}
}

func (c *Ctx) redCoef(g *Group, p *Poly) *Poly {
	if g.order == nil {
		return p
	}
	return c.reduce(p, g.order)
}

func (c *Ctx) eAdd(a, b *Elem) *Elem {
	r := &Elem{g: a.g}
	i, j := 0, 0
	for i < len(a.t) || j < len(b.t) {
		switch {
		case j == len(b.t) || i < len(a.t) && a.t[i].base < b.t[j].base:
			r.t = append(r.t, a.t[i])
			i++
		case i == len(a.t) || b.t[j].base < a.t[i].base:
			r.t = append(r.t, b.t[j])
			j++
		default:
			s := c.redCoef(a.g, add(a.t[i].co, b.t[j].co))
			if !c.coefZero(a.g, s) {
				r.t = append(r.t, eterm{a.t[i].base, s})
			}
			i++
			j++
		}
	}
	return r
}

func (c *Ctx) coefZero(g *Group, s *Poly) bool {
	if s.isZero() {
		return true
	}
	if g.order == nil {
		return false
	}
	if len(s.t) > 1 && (hasInv(c, s, g.order) || c.hasRel(s)) {
		return c.zeroMod(s, g.order)
	}
	return false
}

func (c *Ctx) hasRel(s *Poly) bool {
	for _, t := range s.t {
		for i := 0; i+6 <= len(t.m); i += 6 {
			a := c.atoms[atomOf(t.m[i:])]
			if a.kind == aByte || a.kind == aBit || a.kind == aDiv || (a.kind == aMod && a.data == "digit") {
				return true
			}
		}
	}
	return false
}

func (c *Ctx) eScale(a *Elem, k *Poly) *Elem {
	r := &Elem{g: a.g}
	k = c.redCoef(a.g, k)
	if k.isZero() {
		return r
	}
	for _, t := range a.t {
		s := c.redCoef(a.g, c.mul(t.co, k))
		if !c.coefZero(a.g, s) {
			r.t = append(r.t, eterm{t.base, s})
		}
	}
	return r
}
func (c *Ctx) eNeg(a *Elem) *Elem    { return c.eScale(a, csti(-1)) }
func (c *Ctx) eSub(a, b *Elem) *Elem { return c.eAdd(a, c.eNeg(b)) }

func (c *Ctx) bases() map[string]*baseInfo {
	if c.baseTab == nil {
		c.baseTab = map[string]*baseInfo{}
	}
	return c.baseTab
}
func (c *Ctx) declBase(b *baseInfo) { c.bases()[b.name] = b }

// normalised: scaled such that E and its multiples by constants agree.
func (c *Ctx) eMonic(e *Elem) *Elem {
	if len(e.t) == 0 {
		return e
	}
	co := e.t[0].co
	lead := co.t[len(co.t)-1].c
	if e.g.order == nil {
		if lead.Sign() < 0 {
			return c.eNeg(e)
		}
		return e
	}
	inv := new(big.Int).ModInverse(lead, e.g.order)
	if inv == nil {
		return e
	}
	return c.eScale(e, cst(inv))
}

// zeroE is the condition that e is the identity.
func (c *Ctx) zeroE(e *Elem) Bdd {
	if len(e.t) == 0 {
		return bT
	}
	if len(e.t) == 1 {
		r := bF
		if e.g.order != nil {
			r = c.zeroModB(e.t[0].co, e.g.order)
		}
		bi := c.bases()[e.t[0].base]
		if e.g.order == nil && !polyEq(e.t[0].co, csti(1)) && !polyEq(e.t[0].co, csti(-1)) {
			m := c.eMonic(e)
			return c.condVar(&condInfo{key: "zeroE:" + m.Key(), desc: c.showE(m) + " is the identity", elem: m})
		}
		if bi != nil && bi.nonzero {
			return r
		}
		if xy, ok := c.ptTab[e.t[0].base]; ok { // given coordinates: (0, 0) is the identity
			return c.or(r, c.and(c.zeroInt(xy[0]), c.zeroInt(xy[1])))
		}
		b := c.base(e.g, e.t[0].base)
		return c.or(r, c.condVar(&condInfo{key: "zeroE:" + b.Key(), desc: c.showE(b) + " is the identity", elem: b}))
	}
	// common factor of the coefficients: zero if it is zero
	m := c.eMonic(e)
	if c.nonzero["E:"+m.Key()] {
		return bF
	}
	return c.condVar(&condInfo{key: "zeroE:" + m.Key(), desc: c.showE(m) + " is the identity", elem: m})
}

func (c *Ctx) assumeElemNonzero(e *Elem) { c.nonzero["E:"+c.eMonic(e).Key()] = true }

func (c *Ctx) showE(e *Elem) string {
	if len(e.t) == 0 {
		return "0"
	}
	var parts []string
	for i, t := range e.t {
		if i > 5 {
			parts = append(parts, fmt.Sprintf("... (%d generators)", len(e.t)))
			break
		}
		s := c.show(t.co)
		if len(s) > 90 {
			s = s[:90] + ".."
		}
		n := t.base
		if len(n) > 50 {
			n = n[:50] + ".."
		}
		if s == "1" {
			parts = append(parts, n)
		} else {
			parts = append(parts, "["+s+"]"+n)
		}
	}
	return strings.Join(parts, " + ")
}

// coordinates of an element
type coordRef struct {
	e *Elem
	y bool
}

func (c *Ctx) coordX(e *Elem) *Poly { return c.coord(e, false) }
func (c *Ctx) coordY(e *Elem) *Poly { return c.coord(e, true) }
func (c *Ctx) coord(e *Elem, y bool) *Poly {
	n := "cx"
	if y {
		n = "cy"
	}
	key := e
	a := &atomInfo{kind: aUF, name: n + "(" + key.Key() + ")", data: &coordRef{e, y}}
	if !c.elemUntrusted(e) {
		a.lo, a.hi, a.m = b0, new(big.Int).Sub(e.g.p, b1), e.g.p
	}
	if !y { // x(-E) = x(E)
		if m := c.eNeg(e); m.Key() < e.Key() {
			a.name = "cx(" + m.Key() + ")"
			a.data = &coordRef{m, false}
		}
	}
	a.kind = aSym
	return c.atomPoly(c.atom(a))
}

func (c *Ctx) elemUntrusted(e *Elem) bool {
	if len(e.t) != 1 || !polyEq(e.t[0].co, csti(1)) {
		return false
	}
	b := c.bases()[e.t[0].base]
	return b != nil && b.untrusted
}

// ---------- values ----------

type Val interface{}

type BoolV struct{ b Bdd }

// AggV is a struct, array or tuple value.
type AggV struct{ f []Val }

type Leaf interface{ Key() string }

type Alt struct {
	g Bdd
	l Leaf
}

// GV is a leaf that depends on conditions; guards are disjoint and cover.
type GV struct{ alts []Alt }

type NumL struct{ p *Poly }
type NilL struct{}
type PtrL struct {
	obj  int
	path string // comma separated indices
}
type SliceL struct {
	obj            int
	path           string
	off, len, cap_ int
}

// SymSliceL is a slice with symbolic start, only good for copy.
type SymSliceL struct {
	obj  int
	path string
	off  *Poly
	end  int
}
type Piece struct {
	k   string // lit, dec, bytes, uf
	lit string
	key string
	p   *Poly
	n   int // length for fixed-width bytes, else -1
	sub []Piece
	e   *Elem // encoded group element
}
type StrL struct{ ps []Piece }
type SeqL struct{ ps []Piece } // immutable bytes
// BytesL is the minimal big-endian encoding of |p|.
type BytesL struct{ p *Poly }
type FuncL struct {
	fn    *ssa.Function
	binds []Val
}
type IfaceL struct {
	typ types.Type
	v   Val
}
type ErrL struct{ id string }
type FloatL struct {
	k string
	f float64
	p *Poly
}
type TopL struct{ why string }
type ElemL struct{ e *Elem }
type RingL struct { // GF(p^2) element with coordinate ranges
	p      *Poly
	lo, hi *big.Int
}
type JacL struct { // curve point content: group element, affine: z is one or the point is infinite
	e      *Elem
	affine bool
	tok    bool // t = z^2 valid
	norm   bool // coordinates in [0,p)
}
type MapL struct{ obj int }
type ModelL struct { // content of modelled library objects
	kind string
	ps   []Piece
}
type PoisonL struct{ where string }
type UninitL struct{}

func (l NumL) Key() string { return "n" + l.p.Key() }
func (l NilL) Key() string { return "nil" }
func (l PtrL) Key() string { return fmt.Sprintf("p%d.%s", l.obj, l.path) }
func (l SliceL) Key() string {
	return fmt.Sprintf("s%d.%s[%d:%d:%d]", l.obj, l.path, l.off, l.len, l.cap_)
}
func (l SymSliceL) Key() string {
	return fmt.Sprintf("S%d.%s[%s:%d]", l.obj, l.path, l.off.Key(), l.end)
}
func piecesKey(ps []Piece) string {
	var sb strings.Builder
	for _, p := range ps {
		switch p.k {
		case "lit":
			sb.WriteString(fmt.Sprintf("L%d:%s", len(p.lit), p.lit))
		default:
			sb.WriteString(fmt.Sprintf("%s(%s/%d)", p.k, p.key, p.n))
		}
	}
	return sb.String()
}
func (l StrL) Key() string   { return "str:" + piecesKey(l.ps) }
func (l SeqL) Key() string   { return "seq:" + piecesKey(l.ps) }
func (l BytesL) Key() string { return "by:" + l.p.Key() }
func (l FuncL) Key() string {
	s := "f" + l.fn.String()
	for _, b := range l.binds {
		s += valKey(b)
	}
	return s
}
func (l IfaceL) Key() string { return "i" + l.typ.String() + ":" + valKey(l.v) }
func (l ErrL) Key() string   { return "err" }
func (l FloatL) Key() string {
	if l.p != nil {
		return "F" + l.k + l.p.Key()
	}
	return fmt.Sprintf("F%s%x", l.k, l.f)
}
func (l TopL) Key() string  { return "top:" + l.why }
func (l ElemL) Key() string { return "e" + l.e.Key() }
func (l RingL) Key() string {
	return fmt.Sprintf("r%s/%v/%v", l.p.Key(), l.lo, l.hi)
}
func (l JacL) Key() string    { return fmt.Sprintf("j%s/%v/%v/%v", l.e.Key(), l.affine, l.tok, l.norm) }
func (l MapL) Key() string    { return fmt.Sprintf("m%d", l.obj) }
func (l ModelL) Key() string  { return "M" + l.kind + piecesKey(l.ps) }
func (l PoisonL) Key() string { return "poison" }
func (l UninitL) Key() string { return "uninit" }

func valKey(v Val) string {
	switch x := v.(type) {
	case nil:
		return "-"
	case BoolV:
		return fmt.Sprintf("b%d", x.b)
	case *GV:
		if len(x.alts) == 1 {
			return x.alts[0].l.Key()
		}
		ks := make([]string, len(x.alts))
		for i, a := range x.alts {
			ks[i] = fmt.Sprintf("%d?%s", a.g, a.l.Key())
		}
		sort.Strings(ks)
		return "(" + strings.Join(ks, "|") + ")"
	case *AggV:
		s := "<"
		for _, f := range x.f {
			s += valKey(f) + ","
		}
		return s + ">"
	}
	return fmt.Sprintf("?%T", v)
}

func leaf(l Leaf) *GV  { return &GV{[]Alt{{bT, l}}} }
func num(p *Poly) *GV  { return leaf(NumL{p}) }
func numi(x int64) *GV { return num(csti(x)) }
func one(v Val) (Leaf, bool) {
	if g, ok := v.(*GV); ok && len(g.alts) == 1 {
		return g.alts[0].l, true
	}
	return nil, false
}

const maxAlts = 300

// mkGV builds a guarded value: alternatives with equal leaves are joined.
func (c *Ctx) mkGV(alts []Alt) *GV {
	var out []Alt
	idx := map[string]int{}
	for _, a := range alts {
		if a.g == bF {
			continue
		}
		k := a.l.Key()
		if i, ok := idx[k]; ok {
			out[i].g = c.or(out[i].g, a.g)
		} else {
			idx[k] = len(out)
			out = append(out, a)
		}
	}
	if len(out) == 0 {
		return leaf(TopL{"no reachable value"})
	}
	if len(out) == 1 {
		out[0].g = bT
		return &GV{out}
	}
	if c.opaque {
		if p := c.blur(out); p != nil {
			return num(p)
		}
	}
	if len(out) > maxAlts {
		return leaf(TopL{"too many alternatives"})
	}
	// tops absorb
	if len(out) == 2 {
		if g := c.collapse(out); g != nil {
			return g
		}
	}
	return &GV{out}
}

// collapseMod: a number reduced only where it is out of range is reduced.
func (c *Ctx) collapseMod(a []Alt) *GV {
	for k := 0; k < 2; k++ {
		nx, ok1 := a[k].l.(NumL)
		ny, ok2 := a[1-k].l.(NumL)
		if !ok1 || !ok2 || len(ny.p.t) != 1 {
			continue
		}
		at := c.single(ny.p)
		if at == nil || ny.p.t[0].c.Cmp(b1) != 0 {
			continue
		}
		var m *big.Int
		switch {
		case at.kind == aMod && at.data == nil:
			m = at.m
		case (at.kind == aReal || at.kind == aImag) && at.data == "":
			m = c.p
		default:
			continue
		}
		if len(nx.p.t) > 8 || !c.equalMod(nx.p, ny.p, m) {
			continue
		}
		if c.and(a[k].g, c.or(c.negB(nx.p), c.not(c.negB(sub(nx.p, cst(m)))))) == bF {
			return leaf(a[1-k].l)
		}
	}
	return nil
}

// collapse folds a two-way choice into one leaf where an algebraic form exists.
func (c *Ctx) collapse(a []Alt) *GV {
	if g := c.collapseMod(a); g != nil {
		return g
	}
	// q is negative ? q+m : q, for q in [-m,m)
	for k := 0; k < 2; k++ {
		nb, ok1 := a[k].l.(NumL)
		ns, ok2 := a[1-k].l.(NumL)
		if !ok1 || !ok2 || len(nb.p.t) > 64 {
			continue
		}
		m, ok := sub(nb.p, ns.p).isConst()
		if !ok || m.Sign() <= 0 || m.BitLen() < 64 {
			continue
		}
		lo, hi := c.interval(ns.p)
		if lo == nil || hi == nil || hi.Cmp(m) >= 0 || new(big.Int).Add(lo, m).Sign() < 0 {
			continue
		}
		if n := c.negB(ns.p); a[k].g == n && a[1-k].g == c.not(n) {
			return num(c.mod(ns.p, m))
		}
	}
	info, pos, ok := c.litVar(a[0].g)
	x, y := a[0], a[1] // x under literal, y otherwise
	if ok && !pos {
		x, y = y, x
	}
	nx, okx := x.l.(NumL)
	ny, oky := y.l.(NumL)
	if ok && info.bin != nil && okx && oky {
		// info: d = 0 -> x else y: x + (y-x) d
		d := c.atomPoly(info.bin)
		return num(add(nx.p, c.mul(sub(ny.p, nx.p), d)))
	}
	ex, okx := x.l.(ElemL)
	ey, oky := y.l.(ElemL)
	if okx && oky {
		if ok && info.bin != nil {
			d := c.atomPoly(info.bin)
			return leaf(ElemL{c.eAdd(ex.e, c.eScale(c.eSub(ey.e, ex.e), d))})
		}
		// under "D is identity" with X - Y a multiple of D
		if ok && info.elem != nil {
			df := c.eSub(ex.e, ey.e)
			if len(df.t) == 0 || elemEq(c.eMonic(df), info.elem) || c.multipleOf(df, info.elem) {
				return leaf(ElemL{ey.e})
			}
		}
		// zero(k) guard: X = Y when k = 0 mod order
		if ok && info.num != nil && ex.e.g.order != nil {
			df := c.eSub(ex.e, ey.e)
			if c.vanishesUnder(df, info) {
				return leaf(ElemL{ey.e})
			}
		}
		// zero(k*B) = zero(k) or zero(B) : general two-way guard
		df := c.eSub(ex.e, ey.e)
		if c.and(a[0].g, c.not(c.zeroE(df))) == bF {
			return leaf(a[1].l)
		}
		if c.and(a[1].g, c.not(c.zeroE(df))) == bF {
			return leaf(a[0].l)
		}
	}
	if okJ := func() bool { _, a1 := x.l.(JacL); _, a2 := y.l.(JacL); return a1 && a2 }(); okJ {
		jx, jy := x.l.(JacL), y.l.(JacL)
		g := c.collapse([]Alt{{x.g, ElemL{jx.e}}, {y.g, ElemL{jy.e}}})
		if g != nil {
			e := g.alts[0].l.(ElemL).e
			return leaf(JacL{e, jx.affine && jy.affine, jx.tok && jy.tok, jx.norm && jy.norm})
		}
	}
	rx, okx2 := x.l.(RingL)
	ry, oky2 := y.l.(RingL)
	if okx2 && oky2 && ok && info.bin != nil {
		d := c.atomPoly(info.bin)
		return leaf(RingL{add(rx.p, c.mul(sub(ry.p, rx.p), d)), minB(rx.lo, ry.lo), maxB(rx.hi, ry.hi)})
	}
	// numbers that agree under the guard
	if nxx, ok1 := a[0].l.(NumL); ok1 {
		if nyy, ok2 := a[1].l.(NumL); ok2 {
			z := c.zeroInt(sub(nxx.p, nyy.p))
			if z != bF {
				if c.and(a[0].g, c.not(z)) == bF {
					return leaf(a[1].l)
				}
				if c.and(a[1].g, c.not(z)) == bF {
					return leaf(a[0].l)
				}
			}
		}
	}
	return nil
}

func (c *Ctx) multipleOf(d, e *Elem) bool {
	if len(d.t) != len(e.t) {
		return false
	}
	// d = k*e for a polynomial k: compare cross products with first coefficient
	for i := range d.t {
		if d.t[i].base != e.t[i].base {
			return false
		}
		if !c.equalMod(c.mul(d.t[i].co, e.t[0].co), c.mul(e.t[i].co, d.t[0].co), e.g.order) {
			return false
		}
	}
	return true
}

func (c *Ctx) vanishesUnder(d *Elem, info *condInfo) bool {
	a := c.single(info.num)
	if a == nil {
		return false
	}
	for _, t := range d.t {
		q := c.reduce(t.co, d.g.order)
		for _, m := range q.t {
			hit := false
			for _, f := range unpackMono(m.m) {
				if f.a == a.id && f.e > 0 {
					hit = true
				}
			}
			if !hit {
				return false
			}
		}
	}
	return true
}

func minB(a, b *big.Int) *big.Int {
	if a == nil || b == nil {
		return nil
	}
	if a.Cmp(b) < 0 {
		return a
	}
	return b
}
func maxB(a, b *big.Int) *big.Int {
	if a == nil || b == nil {
		return nil
	}
	if a.Cmp(b) > 0 {
		return a
	}
	return b
}

// merge joins two values: a where g holds, b elsewhere.
func (c *Ctx) merge(g Bdd, a, b Val) Val {
	if g == bT {
		return a
	}
	if g == bF {
		return b
	}
	switch x := a.(type) {
	case nil:
		return b
	case BoolV:
		if y, ok := b.(BoolV); ok {
			return BoolV{c.ite(g, x.b, y.b)}
		}
	case *AggV:
		if b == nil {
			return a
		}
		if y, ok := b.(*AggV); ok && len(x.f) == len(y.f) {
			if x == y {
				return x
			}
			var r []Val
			for i := range x.f {
				v := c.merge(g, x.f[i], y.f[i])
				if r == nil && !sameVal(v, x.f[i]) {
					r = append(make([]Val, 0, len(x.f)), x.f[:i]...)
				}
				if r != nil {
					r = append(r, v)
				}
			}
			if r == nil {
				return x
			}
			return &AggV{r}
		}
	case *GV:
		if b == nil {
			return a
		}
		if y, ok := b.(*GV); ok {
			if x == y {
				return x
			}
			ng := c.not(g)
			alts := make([]Alt, 0, len(x.alts)+len(y.alts))
			for _, t := range x.alts {
				alts = append(alts, Alt{c.and(g, t.g), t.l})
			}
			for _, t := range y.alts {
				alts = append(alts, Alt{c.and(ng, t.g), t.l})
			}
			return c.mkGV(alts)
		}
	}
	if b == nil {
		return a
	}
	if x, ok := a.(*AggV); ok {
		if y, ok := b.(*AggV); ok {
			if m := c.mergeMaps(g, x, y); m != nil {
				return m
			}
		}
	}
	return leaf(TopL{fmt.Sprintf("merge of %T and %T", a, b)})
}

func sameVal(a, b Val) bool {
	switch x := a.(type) {
	case BoolV:
		y, ok := b.(BoolV)
		return ok && x == y
	case *GV:
		y, ok := b.(*GV)
		if !ok {
			return false
		}
		return x == y || valKey(x) == valKey(y)
	case *AggV:
		y, ok := b.(*AggV)
		return ok && x == y
	case nil:
		return b == nil
	}
	return false
}

// ---------- heap: persistent trie ----------

const hbits = 5

type hnode struct {
	kids [32]*hnode
	vals [32]Val
}

type Heap struct {
	root  *hnode
	depth int
}

func (h *Heap) get(id int) Val {
	if id>>(uint(h.depth+1)*hbits) != 0 || h.root == nil {
		return nil
	}
	n := h.root
	for d := h.depth; d > 0; d-- {
		n = n.kids[(id>>(uint(d)*hbits))&31]
		if n == nil {
			return nil
		}
	}
	return n.vals[id&31]
}

func (h Heap) set(id int, v Val) Heap {
	for id>>(uint(h.depth+1)*hbits) != 0 {
		n := &hnode{}
		n.kids[0] = h.root
		h = Heap{n, h.depth + 1}
	}
	return Heap{setNode(h.root, h.depth, id, v), h.depth}
}

func setNode(n *hnode, d, id int, v Val) *hnode {
	m := &hnode{}
	if n != nil {
		*m = *n
	}
	if d == 0 {
		m.vals[id&31] = v
	} else {
		i := (id >> (uint(d) * hbits)) & 31
		m.kids[i] = setNode(m.kids[i], d-1, id, v)
	}
	return m
}

func (c *Ctx) mergeHeap(g Bdd, a, b Heap) Heap {
	for a.depth < b.depth {
		n := &hnode{}
		n.kids[0] = a.root
		a = Heap{n, a.depth + 1}
	}
	for b.depth < a.depth {
		n := &hnode{}
		n.kids[0] = b.root
		b = Heap{n, b.depth + 1}
	}
	return Heap{c.mergeNode(g, a.root, b.root, a.depth), a.depth}
}

func (c *Ctx) mergeNode(g Bdd, a, b *hnode, d int) *hnode {
	if a == b {
		return a
	}
	if a == nil {
		return b
	}
	if b == nil {
		return a
	}
	m := &hnode{}
	for i := 0; i < 32; i++ {
		if d == 0 {
			if a.vals[i] != nil || b.vals[i] != nil {
				m.vals[i] = c.merge(g, a.vals[i], b.vals[i])
			}
		} else {
			m.kids[i] = c.mergeNode(g, a.kids[i], b.kids[i], d-1)
		}
	}
	return m
}

// diffHeap lists the object ids whose content differs.
func diffHeap(a, b Heap) []int {
	var out []int
	var walk func(x, y *hnode, d, base int)
	walk = func(x, y *hnode, d, base int) {
		if x == y {
			return
		}
		for i := 0; i < 32; i++ {
			if d == 0 {
				var u, v Val
				if x != nil {
					u = x.vals[i]
				}
				if y != nil {
					v = y.vals[i]
				}
				if u != nil && v != nil && !sameVal(u, v) && valKey(u) != valKey(v) {
					out = append(out, base+i)
				}
			} else {
				var u, v *hnode
				if x != nil {
					u = x.kids[i]
				}
				if y != nil {
					v = y.kids[i]
				}
				walk(u, v, d-1, base+i<<(uint(d)*hbits))
			}
		}
	}
	for a.depth < b.depth {
		n := &hnode{}
		n.kids[0] = a.root
		a = Heap{n, a.depth + 1}
	}
	for b.depth < a.depth {
		n := &hnode{}
		n.kids[0] = b.root
		b = Heap{n, b.depth + 1}
	}
	walk(a.root, b.root, a.depth, 0)
	return out
}

// mergeMaps joins two map contents of which one extends the other.
func (c *Ctx) mergeMaps(g Bdd, x, y *AggV) Val {
	if len(x.f) > len(y.f) {
		if m := c.mergeMaps(c.not(g), y, x); m != nil {
			return m
		}
		return nil
	}
	if len(y.f) == 0 {
		return nil
	}
	entry := func(v Val) (*AggV, bool) {
		e, ok := v.(*AggV)
		if !ok || len(e.f) != 3 {
			return nil, false
		}
		_, ok = e.f[1].(BoolV)
		return e, ok
	}
	r := &AggV{}
	for i := range y.f {
		ey, ok := entry(y.f[i])
		if !ok {
			return nil
		}
		if i >= len(x.f) {
			r.f = append(r.f, &AggV{[]Val{ey.f[0], BoolV{c.and(c.not(g), ey.f[1].(BoolV).b)}, ey.f[2]}})
			continue
		}
		ex, ok := entry(x.f[i])
		if !ok || valKey(ex.f[0]) != valKey(ey.f[0]) {
			return nil
		}
		r.f = append(r.f, &AggV{[]Val{ex.f[0], c.merge(g, ex.f[1], ey.f[1]), c.merge(g, ex.f[2], ey.f[2])}})
	}
	return r
}
