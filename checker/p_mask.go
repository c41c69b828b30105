package main

// C13 and C14: what a proof reveals. The proof object that a prover returns
// is a list of values (numbers and group elements) in terms of the draws of
// the prover and of the secret. To first order, at a generic point and for
// fixed challenges, the values move with the draws (matrix Jd) and with the
// secret (matrix Js). Masks that are reused or missing lower the rank of Jd;
// values that give masks away make Js stick out of the span of Jd.

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	props["C13"] = runDraws
	props["C14"] = runSecrets
}

// dual is a number modulo the order with its derivatives.
type dual struct {
	v *big.Int
	d []*big.Int // nil entries are zero
}

// jcb evaluates numbers and group elements as duals.
type jcb struct {
	h     *H
	m     *big.Int
	draws map[atomID]int // column of a mask
	sec   map[atomID]int // column of a secret
	n     int
	vals  map[atomID]*dual
	logs  map[string]*big.Int
	seed  uint64
	used  map[atomID]bool // draws that occur
}

func newJcb(h *H, m *big.Int) *jcb {
	return &jcb{h: h, m: m, draws: map[atomID]int{}, sec: map[atomID]int{}, vals: map[atomID]*dual{}, logs: map[string]*big.Int{}, seed: 88172645463325252, used: map[atomID]bool{}}
}

// rnd is a generic number modulo the order.
func (j *jcb) rnd() *big.Int {
	r := new(big.Int)
	for i := 0; i < 6; i++ {
		j.seed ^= j.seed << 13
		j.seed ^= j.seed >> 7
		j.seed ^= j.seed << 17
		r.Lsh(r, 64)
		r.Add(r, new(big.Int).SetUint64(j.seed))
	}
	return r.Mod(r, j.m)
}

func (j *jcb) column(m map[atomID]int, p *Poly) {
	a := j.h.c.single(p)
	if _, ok := m[a.id]; !ok {
		m[a.id] = j.n
		j.n++
	}
}

func (j *jcb) con(v *big.Int) *dual {
	return &dual{new(big.Int).Mod(v, j.m), make([]*big.Int, j.n)}
}

func (d *dual) flat() bool {
	for _, x := range d.d {
		if x != nil && x.Sign() != 0 {
			return false
		}
	}
	return true
}

func (j *jcb) addTo(r *dual, k *big.Int, x *dual) {
	r.v.Add(r.v, new(big.Int).Mul(k, x.v)).Mod(r.v, j.m)
	for i, g := range x.d {
		if g == nil || g.Sign() == 0 {
			continue
		}
		t := new(big.Int).Mul(k, g)
		if r.d[i] != nil {
			t.Add(t, r.d[i])
		}
		r.d[i] = t.Mod(t, j.m)
	}
}

func (j *jcb) mulD(a, b *dual) *dual {
	r := j.con(new(big.Int).Mul(a.v, b.v))
	for i := range r.d {
		t := new(big.Int)
		if a.d[i] != nil {
			t.Add(t, new(big.Int).Mul(a.d[i], b.v))
		}
		if b.d[i] != nil {
			t.Add(t, new(big.Int).Mul(b.d[i], a.v))
		}
		if t.Sign() != 0 {
			r.d[i] = t.Mod(t, j.m)
		}
	}
	return r
}

func (j *jcb) invD(a *dual) *dual {
	i := new(big.Int).ModInverse(a.v, j.m)
	if i == nil {
		panic(undecided{"accidental zero"})
	}
	r := j.con(i)
	k := new(big.Int).Mul(i, i)
	k.Neg(k).Mod(k, j.m)
	for n, g := range a.d {
		if g != nil {
			r.d[n] = new(big.Int).Mod(new(big.Int).Mul(k, g), j.m)
		}
	}
	return r
}

func (j *jcb) powD(a *dual, e int) *dual {
	if e < 0 {
		return j.powD(j.invD(a), -e)
	}
	r := j.con(b1)
	for ; e > 0; e-- {
		r = j.mulD(r, a)
	}
	return r
}

func (j *jcb) poly(p *Poly) *dual {
	r := j.con(b0)
	for _, t := range p.t {
		m := j.con(b1)
		for _, f := range unpackMono(t.m) {
			m = j.mulD(m, j.powD(j.atom(j.h.c.atoms[f.a]), f.e))
		}
		j.addTo(r, t.c, m)
	}
	return r
}

func (j *jcb) atom(a *atomInfo) *dual {
	if r := j.vals[a.id]; r != nil {
		return r
	}
	r := j.atom1(a)
	j.vals[a.id] = r
	return r
}

func (j *jcb) atom1(a *atomInfo) *dual {
	c := j.h.c
	if i, ok := j.draws[a.id]; ok {
		r := j.con(j.rnd())
		r.d[i] = b1
		j.used[a.id] = true
		return r
	}
	if i, ok := j.sec[a.id]; ok {
		r := j.con(j.rnd())
		if a.hi != nil && a.lo != nil && a.lo.Sign() == 0 {
			r.v.Mod(r.v, new(big.Int).Add(a.hi, b1))
		}
		r.d[i] = b1
		return r
	}
	if a.tag == "hash" || a.kind == aSym {
		return j.con(j.rnd())
	}
	if a.arg != nil {
		switch {
		case a.kind == aMod && a.m != nil && a.m.Cmp(j.m) == 0:
			return j.poly(a.arg)
		case a.kind == aInv && a.m != nil && a.m.Cmp(j.m) == 0:
			return j.invD(j.poly(a.arg))
		}
		if x := j.poly(a.arg); !x.flat() {
			panic(undecided{"a value depends on draws or secrets through " + c.show(c.atomPoly(a))})
		}
		return j.con(j.rnd())
	}
	if d := c.depsOf(c.atomPoly(a)); len(d) > 0 {
		for id := range j.draws {
			if d[c.atoms[id].name] {
				panic(undecided{"a value depends on draws through " + c.show(c.atomPoly(a))})
			}
		}
	}
	return j.con(j.rnd())
}

// log is a generic discrete logarithm of a base.
func (j *jcb) log(b string) *big.Int {
	if r := j.logs[b]; r != nil {
		return r
	}
	var r *big.Int
	if i := j.h.c.bases()[b]; i != nil && i.pairA != nil {
		x, y := j.elem(i.pairA), j.elem(i.pairB)
		if !x.flat() || !y.flat() {
			panic(undecided{"pairing of masked elements as a base"})
		}
		r = new(big.Int).Mul(x.v, y.v)
		r.Mod(r, j.m)
	} else {
		r = j.rnd()
	}
	j.logs[b] = r
	return r
}

func (j *jcb) elem(e *Elem) *dual {
	r := j.con(b0)
	for _, t := range e.t {
		j.addTo(r, j.log(t.base), j.poly(t.co))
	}
	return r
}

func (j *jcb) coeffs(e *Elem) (r []*dual) {
	for _, t := range e.t {
		r = append(r, j.poly(t.co))
	}
	return
}

// shown is one value found in an object.
type shown struct {
	path string
	num  bool
	v    *dual
	co   []*dual // coefficients of an element
	desc string
	p    *Poly // a number
}

// reveal lists the values that can be read from an object.
func (j *jcb) reveal(v Val, t types.Type, path string, out *[]shown, seen map[string]bool) {
	h := j.h
	in := h.in
	add := func(num bool, d *dual, desc string) {
		*out = append(*out, shown{path: path, num: num, v: d, co: []*dual{d}, desc: desc})
	}
	addE := func(e *Elem) {
		*out = append(*out, shown{path: path, v: j.elem(e), co: j.coeffs(e), desc: h.c.showE(e)})
	}
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		switch n.Obj().Pkg().Path() + "." + n.Obj().Name() {
		case "math/big.Int":
			p := in.onePoly(in.under(h.st, v))
			add(true, j.poly(p), h.c.show(p))
			(*out)[len(*out)-1].p = p
			return
		case modPath + "/" + p256Pkg + ".P256":
			a, ok := v.(*AggV)
			if !ok {
				panic(undecided{path + " is not a point"})
			}
			l, ok := one(in.under(h.st, in.p256Val(h.st, a)))
			if !ok {
				panic(undecided{path + " depends on conditions"})
			}
			e := l.(ElemL).e
			addE(e)
			return
		case modPath + "/" + bnPkg + ".G1", modPath + "/" + bnPkg + ".G2", modPath + "/" + bnPkg + ".GT":
			e := in.bnElem(h.st, in.newPtr(h.st, n, "shown", v), in.bnGroup(h.st, n.Obj().Name()))
			addE(e)
			return
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		a, ok := v.(*AggV)
		if !ok {
			panic(undecided{path + " is not a struct value"})
		}
		for i := 0; i < u.NumFields(); i++ {
			j.reveal(a.f[i], u.Field(i).Type(), path+"."+u.Field(i).Name(), out, seen)
		}
	case *types.Array:
		for i, x := range v.(*AggV).f {
			j.reveal(x, u.Elem(), fmt.Sprintf("%s[%d]", path, i), out, seen)
		}
	case *types.Pointer:
		w := in.under(h.st, v)
		l, ok := one(w)
		if !ok {
			panic(undecided{path + " depends on conditions"})
		}
		if _, nil_ := l.(NilL); nil_ {
			return
		}
		if k := path + "=" + l.Key(); seen[k] || len(seen) > 5000 {
			return
		} else {
			seen[k] = true
		}
		j.reveal(in.load(h.st, w), u.Elem(), path, out, seen)
	case *types.Slice:
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			l, ok := one(in.under(h.st, v))
			if !ok {
				panic(undecided{path + " depends on conditions"})
			}
			if _, nil_ := l.(NilL); nil_ {
				return
			}
			j.pieces(in.seqPieces(h.st, l), path, out)
			return
		}
		for i, x := range in.elems(h.st, v) {
			j.reveal(x, u.Elem(), fmt.Sprintf("%s[%d]", path, i), out, seen)
		}
	case *types.Map:
		l, ok := one(in.under(h.st, v))
		if !ok {
			panic(undecided{path + " depends on conditions"})
		}
		m, ok := l.(MapL)
		if !ok {
			return
		}
		for i, e := range h.st.heap.get(m.obj).(*AggV).f {
			kv := e.(*AggV)
			if h.live(kv.f[1].(BoolV).b) == bF {
				continue
			}
			j.reveal(kv.f[0], u.Key(), fmt.Sprintf("%s key %d", path, i), out, seen)
			j.reveal(kv.f[2], u.Elem(), fmt.Sprintf("%s value %d", path, i), out, seen)
		}
	case *types.Basic:
		if b, ok := v.(BoolV); ok {
			if x := h.live(b.b); x != bF && h.live(h.c.not(b.b)) != bF {
				panic(undecided{path + " depends on conditions"})
			}
			return
		}
		w, ok := in.under(h.st, v).(*GV)
		if !ok {
			panic(undecided{path + " has no value"})
		}
		for _, a := range w.alts {
			switch l := a.l.(type) {
			case NumL:
				add(true, j.poly(l.p), h.c.show(l.p))
				(*out)[len(*out)-1].p = l.p
			case StrL:
				j.pieces(l.ps, path, out)
			default:
				panic(undecided{path + " holds " + l.Key()})
			}
		}
	case *types.Interface:
		l, ok := one(in.under(h.st, v))
		if !ok {
			panic(undecided{path + " depends on conditions"})
		}
		if _, nil_ := l.(NilL); nil_ {
			return
		}
		x, ok := l.(IfaceL)
		if !ok {
			panic(undecided{path + " holds " + l.Key()})
		}
		j.reveal(x.v, x.typ, path, out, seen)
	default:
		panic(undecided{path + " has type " + t.String()})
	}
}

func (j *jcb) pieces(ps []Piece, path string, out *[]shown) {
	for _, p := range ps {
		switch {
		case p.p != nil:
			d := j.poly(p.p)
			*out = append(*out, shown{path, true, d, []*dual{d}, j.h.c.show(p.p), p.p})
		case p.e != nil:
			*out = append(*out, shown{path, false, j.elem(p.e), j.coeffs(p.e), j.h.c.showE(p.e), nil})
		case len(p.sub) > 0 && p.k != "uf":
			j.pieces(p.sub, path, out)
		}
	}
}

// rank of the rows restricted to the columns; with basis collects a basis of
// the left kernel applied to others.
func (j *jcb) rank(rows []*dual, cols map[atomID]int) int {
	var m [][]*big.Int
	var cs []int
	for _, i := range cols {
		cs = append(cs, i)
	}
	sort.Ints(cs)
	for _, r := range rows {
		var x []*big.Int
		for _, i := range cs {
			if r.d[i] == nil {
				x = append(x, b0)
			} else {
				x = append(x, r.d[i])
			}
		}
		m = append(m, x)
	}
	rk := 0
	for c := 0; c < len(cs) && rk < len(m); c++ {
		p := -1
		for i := rk; i < len(m); i++ {
			if m[i][c].Sign() != 0 {
				p = i
				break
			}
		}
		if p < 0 {
			continue
		}
		m[rk], m[p] = m[p], m[rk]
		inv := new(big.Int).ModInverse(m[rk][c], j.m)
		for i := rk + 1; i < len(m); i++ {
			if m[i][c].Sign() == 0 {
				continue
			}
			f := new(big.Int).Mul(m[i][c], inv)
			f.Mod(f, j.m)
			for k := c; k < len(cs); k++ {
				t := new(big.Int).Mul(f, m[rk][k])
				m[i][k] = new(big.Int).Mod(t.Sub(m[i][k], t), j.m)
			}
		}
		rk++
	}
	return rk
}

func both(a, b map[atomID]int) map[atomID]int {
	r := map[atomID]int{}
	for k, v := range a {
		r[k] = v
	}
	for k, v := range b {
		r[k] = v
	}
	return r
}

// masks describes what a proof has to reveal.
type masks struct {
	free int // independent masks in the coefficients of all values
	rank int // independent masked values
	leak int // directions of the secret that the equations themselves fix; -1: not looked at
}

// drawsOf are the columns of the draws from index first on.
func (j *jcb) drawsOf(first int) {
	for _, d := range j.h.in.randOf[first:] {
		j.column(j.draws, j.h.c.atomPoly(d.atom))
	}
}

// sources checks where the draws that matter come from.
func (j *jcb) sources(fn *ssa.Function, first int, order *big.Int) {
	h := j.h
	for _, d := range h.in.randOf[first:] {
		if !j.used[d.atom.id] {
			continue
		}
		h.check(len(d.src) > 11 && d.src[:11] == "randReader ", shortFn(fn), "the random number %s does not come from crypto/rand.Reader (%s)", d.atom.name, d.src)
		h.check(new(big.Int).Add(d.atom.hi, b1).Cmp(order) == 0, d.src, "a mask of %s is drawn below %s, not below the group order", shortFn(fn), new(big.Int).Add(d.atom.hi, b1))
	}
}

// judge checks the values of one or more proofs.
func (j *jcb) judge(fn *ssa.Function, out []shown, w masks, leaks bool) {
	h := j.h
	var rows []*dual
	all := both(j.draws, j.sec)
	n := 0
	for _, s := range out {
		if s.v.flat() {
			continue
		}
		n++
		rows = append(rows, s.v)
		if leaks && s.p != nil {
			// a number that is not reduced is not hidden by a mask below the order
			lo, hi := h.c.interval(s.p)
			h.check(lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(j.m) < 0, shortFn(fn), "%s of the proof is not reduced modulo the group order, its size depends on what it should hide: %s", s.path, cut(s.desc, 300))
		}
		masked := false
		for _, i := range j.draws {
			masked = masked || s.v.d[i] != nil && s.v.d[i].Sign() != 0
		}
		h.check(masked, shortFn(fn), "%s of the proof depends on the secret and on no random number: %s", s.path, cut(s.desc, 300))
	}
	var co []*dual
	for _, s := range out {
		co = append(co, s.co...)
	}
	rf := j.rank(co, j.draws)
	h.check(rf >= w.free, shortFn(fn), "the coefficients of the values of the proof contain %d independent random numbers, %d are needed: a mask is missing or used twice", rf, w.free)
	rd := j.rank(rows, j.draws)
	if rd < w.rank {
		h.fail("definite", shortFn(fn), "the %d values of the proof are masked by %d independent random numbers, %d are needed: a mask is missing or used twice", n, rd, w.rank)
	} else if rd > w.rank && leaks {
		h.fail("definite", shortFn(fn), "the proof gives away %d independent combinations of its masks instead of %d: it contains masks, vectors or intermediate values", rd, w.rank)
	} else {
		h.check(true, "", "")
	}
	if w.leak >= 0 && leaks {
		ra := j.rank(rows, all)
		h.check(ra-rd <= w.leak, shortFn(fn), "%d combinations of the values of the proof depend on the secret and on no mask (%d at most are tied to it by the verification equations)", ra-rd, w.leak)
	}
	h.sample("%s: %d values, rank %d, of coefficients %d, in %d draws", shortFn(fn), n, rd, rf, len(j.draws))
}

func cut(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// bits declares a secret by its digits.
func (h *H) digitSecret(name string, u int64, l int) (*Poly, []*Poly) {
	x := csti(0)
	var ds []*Poly
	for i := 0; i < l; i++ {
		d := h.c.sym(fmt.Sprintf("%s%d", name, i), b0, bi(u-1))
		ds = append(ds, d)
		x = add(x, scale(d, pow64(u, i)))
	}
	return x, ds
}

func (h *H) maskBP(n, times int, leaks bool) {
	h.bp()
	h.in.noIdent, h.in.noNil = true, true
	setup, prove := h.fn(bpPkg, "Setup"), h.fn(bpPkg, "Prove")
	t := h.pure(setup, num(cst(new(big.Int).Lsh(b1, uint(n))))).(*AggV)
	h.okErr(t.f[1], setup)
	p := t.f[0]
	x, bs := h.digitSecret("bit", 2, n)
	first := len(h.in.randOf)
	order := h.bigGlobal(bpPkg, "ORDER")
	var ps []Val
	for i := 0; i < times; i++ {
		t = h.pure(prove, h.bigV(x), p).(*AggV)
		h.okErr(t.f[1], prove)
		ps = append(ps, t.f[0])
	}
	j := newJcb(h, order)
	j.drawsOf(first)
	for _, b := range bs {
		j.column(j.sec, b)
	}
	var out []shown
	for i, q := range ps {
		j.reveal(q, h.typ(bpPkg, "BulletProof"), fmt.Sprintf("proof%d", i+1), &out, map[string]bool{})
	}
	rank := bpRank(n)
	w := masks{free: (2*n + 5) * times, rank: rank * times, leak: -1}
	if times == 1 && n >= 4 {
		w.leak = 1
	}
	j.judge(prove, out, w, leaks)
	j.sources(prove, first, order)
}

// maskGeneric: both halves of a generic proof.
func (h *H) maskGeneric(n int) {
	h.bp()
	h.in.noIdent, h.in.noNil = true, true
	prove := h.fn(bpPkg, "ProveGeneric")
	lim := new(big.Int).Lsh(b1, 63)
	A, B := h.c.sym("A", new(big.Int).Neg(lim), subB(lim, 1)), h.c.sym("B", new(big.Int).Neg(lim), subB(lim, 1))
	p := h.bprpOf(A, B, n)
	first := len(h.in.randOf)
	t := h.pure(prove, h.bigV(h.c.sym("x", nil, nil)), p).(*AggV)
	h.okErr(t.f[1], prove)
	j := newJcb(h, h.bigGlobal(bpPkg, "ORDER"))
	j.drawsOf(first)
	var out []shown
	j.reveal(t.f[0], h.typ(bpPkg, "ProofBPRP"), "proof", &out, map[string]bool{})
	j.judge(prove, out, masks{free: 2 * (2*n + 5), rank: 2 * bpRank(n), leak: -1}, true)
	j.sources(prove, first, j.m)
}

// maskSet: proofs of membership for one member.
func (h *H) maskSet(s setCase, i, times int, leaks bool) {
	p := h.setup(h.fn(ccsPkg, "SetupSet"), h.signable(s.s), h.ints(s.s...))
	prove := h.fn(ccsPkg, "ProveSet")
	first := len(h.in.randOf)
	j := newJcb(h, h.order())
	var ps []Val
	for k := 0; k < times; k++ {
		rr := h.c.sym(fmt.Sprintf("r%d", k), nil, nil)
		t := h.pure(prove, num(s.s[i]), h.bigV(rr), p).(*AggV)
		h.assume(h.c.not(h.errB(t.f[1])))
		h.narrowAll(t.f[0])
		ps = append(ps, h.narrow(t.f[0]))
		j.column(j.draws, rr)
	}
	j.drawsOf(first)
	if h.c.single(s.s[i]) != nil {
		j.column(j.sec, s.s[i])
	}
	var out []shown
	for k, q := range ps {
		j.reveal(q, h.typ(ccsPkg, "proofSet"), fmt.Sprintf("proof%d", k+1), &out, map[string]bool{})
	}
	w := masks{free: 5 * times, rank: 5 * times, leak: 0}
	if times > 1 {
		w.leak = -1
	}
	j.judge(prove, out, w, leaks)
	j.sources(prove, first, j.m)
}

func (h *H) maskUL(u int64, l, times int, leaks bool) {
	h.ccs()
	h.symDigits(u)
	p := h.setup(h.fn(ccsPkg, "SetupUL"), h.signable(digitsOf(u)), numi(u), numi(int64(l)))
	prove := h.fn(ccsPkg, "ProveUL")
	first := len(h.in.randOf)
	j := newJcb(h, h.order())
	x, ds := h.digitSecret("digit", u, l)
	var ps []Val
	for k := 0; k < times; k++ {
		rr := h.c.sym(fmt.Sprintf("r%d", k), nil, nil)
		t := h.pure(prove, h.bigV(x), h.bigV(rr), p).(*AggV)
		h.assume(h.c.not(h.errB(t.f[1])))
		h.narrowAll(t.f[0])
		ps = append(ps, h.narrow(t.f[0]))
		j.column(j.draws, rr)
	}
	j.drawsOf(first)
	for _, d := range ds {
		j.column(j.sec, d)
	}
	var out []shown
	for k, q := range ps {
		j.reveal(q, h.typ(ccsPkg, "proofUL"), fmt.Sprintf("proof%d", k+1), &out, map[string]bool{})
	}
	w := masks{free: (3*l + 2) * times, rank: (3*l + 2) * times, leak: 0}
	if times > 1 {
		w.leak = -1
	}
	j.judge(prove, out, w, leaks)
	j.sources(prove, first, j.m)
}

// maskRange: the two halves of an interval proof on signatures.
func (h *H) maskRange(l int, leaks bool) {
	const u = 57
	h.ccs()
	h.symDigits(u)
	p := h.setup(h.fn(ccsPkg, "SetupUL"), h.signable(digitsOf(u)), numi(u), numi(int64(l)))
	prove := h.method(ccsPkg, "ccs08", "Prove")
	// x - a = sum of the digits, x - b + u^l = sum of other digits
	x1, d1 := h.digitSecret("digit", u, l)
	x2, _ := h.digitSecret("Digit", u, l)
	rr := h.c.sym("r", nil, nil)
	a := csti(0)
	b := sub(add(x1, cst(pow64(u, l))), x2)
	pp := h.object(ccsPkg, "params", "params", map[string]Val{"a": num(a), "b": num(b), "p": h.in.newPtr(h.st, h.typ(ccsPkg, "paramsUL"), "ul", p)})
	z := h.object(ccsPkg, "ccs08", "zkrp", map[string]Val{"p": pp, "x": h.bigV(x1), "r": h.bigV(rr)})
	first := len(h.in.randOf)
	e := h.pureBut(ptrOf(z), prove, z)
	h.assume(h.c.not(h.errB(e)))
	h.narrowAll(z)
	q := h.getF(ccsPkg, "ccs08", h.narrow(h.deref(z)), "proof_out")
	j := newJcb(h, h.order())
	j.column(j.draws, rr)
	j.drawsOf(first)
	_ = d1
	var out []shown
	j.reveal(q, h.typ(ccsPkg, "proof"), "proof", &out, map[string]bool{})
	n := 2*(3*l+1) + 1
	j.judge(prove, out, masks{free: n, rank: n, leak: -1}, leaks)
	j.sources(prove, first, j.m)
}

func bpRank(n int) int {
	k := 0
	for 1<<uint(k) < n {
		k++
	}
	rank := 8 + 2*k // V A S T1 T2 taux mu t' a b L R commit, minus the three equations
	if m := 2*n + 5; m < rank {
		rank = m
	}
	return rank
}

// noKey: no number or byte string in the parameters depends on a draw.
func (h *H) noKey(fn *ssa.Function, v Val, t types.Type, first int) {
	j := newJcb(h, h.order())
	j.drawsOf(first)
	var out []shown
	j.reveal(v, t, "params", &out, map[string]bool{})
	masked := 0
	for _, s := range out {
		if s.num {
			h.check(s.v.flat(), shortFn(fn), "%s of the parameters depends on the secret key: %s", s.path, cut(s.desc, 200))
		} else if !s.v.flat() {
			masked++
		}
	}
	h.check(masked > 0, shortFn(fn), "the parameters contain no element that depends on the key")
	h.check(len(j.draws) > 0, shortFn(fn), "no key is drawn")
	h.sample("%s: %d values, %d elements that depend on the key", shortFn(fn), len(out), masked)
}

func runDraws(r *Run) {
	r.facts["level"] = "other"
	r.facts["explanation"] = "The provers are interpreted with symbolic secrets, draws and challenges; the values in the returned proof objects are differentiated with respect to the draws (formal polynomials, evaluated modulo the group order at one generic point, challenges held fixed). The rank of the coefficients over the generators is the number of independent masks. Sizes: range proofs N=1..32, set proofs, digit proofs with 1 to 11 digits, generic and interval proofs."
	r.rule("the draws that reach a proof or a key come from crypto/rand.Reader with the group order as exclusive bound")
	r.rule("rank of the coefficients of all values of a proof in the draws: 2N+5 for a range proof, 5 for a set proof, 3l+2 for a digit proof (the caller's r is counted), twice as many for two proofs in a row")
	for _, n := range []int{1, 2, 4, 8, 16, 32} {
		n := n
		for k := 1; k <= 2 && n*k < 64; k++ {
			k := k
			r.sub(fmt.Sprintf("range proof N=%d, %d times", n, k), func(h *H) { h.maskBP(n, k, false) })
		}
	}
	for _, n := range []int{1, 4} {
		n := n
		r.sub(fmt.Sprintf("generic proof N=%d", n), func(h *H) { h.maskGeneric(n) })
	}
	for k := 1; k <= 2; k++ {
		k := k
		r.maskSets(fmt.Sprintf("%d times, ", k), func(h *H, s setCase, i int) { h.maskSet(s, i, k, false) })
	}
	for l := 1; l <= 11; l++ {
		l := l
		for k := 1; k <= 2; k++ {
			k := k
			r.sub(fmt.Sprintf("digit proof l=%d, %d times", l, k), func(h *H) { h.maskUL(57, l, k, false) })
		}
	}
	for l := 1; l <= 4; l++ {
		l := l
		r.sub(fmt.Sprintf("interval proof l=%d", l), func(h *H) { h.maskRange(l, false) })
	}
	r.sub("keys", func(h *H) {
		h.ccs()
		fn := h.fn(bbPkg, "Keygen")
		var sks []*Poly
		for i := 0; i < 3; i++ {
			t := h.pure(fn).(*AggV)
			sk := h.numAt(h.getF(bbPkg, "Keypair", t.f[0], "Privk"))
			sks = append(sks, sk)
			h.oneDraw(fn, "the private key", sk)
			for _, o := range sks[:i] {
				h.check(!polyEq(o, sk), shortFn(fn), "two keys are the same number")
			}
		}
	})
	for _, k := range []string{"SetupSet", "SetupUL"} {
		k := k
		r.sub("key of "+k, func(h *H) {
			h.ccs()
			fn := h.fn(ccsPkg, k)
			args := []Val{h.ints(csti(3), csti(5))}
			if k == "SetupUL" {
				args = []Val{numi(3), numi(2)}
			}
			var ys []string
			for i := 0; i < 2; i++ {
				p := h.setup(fn, nil, args...)
				typ := map[string]string{"SetupSet": "paramsSet", "SetupUL": "paramsUL"}[k]
				y := h.in.bnElem(h.st, h.getF(bbPkg, "Keypair", h.getF(ccsPkg, typ, p, "kp"), "Pubk"), h.in.bnGroup(h.st, "G1"))
				if h.check(len(y.t) == 1 && y.t[0].base == "g1", shortFn(fn), "the public key is %s", h.c.showE(y)) {
					h.oneDraw(fn, "the signing key", y.t[0].co)
				}
				for _, o := range ys {
					h.check(o != y.Key(), shortFn(fn), "two setups use the same key")
				}
				ys = append(ys, y.Key())
			}
		})
	}
	r.randomElements()
}

// randomElements: RandomG1 and RandomG2 draw one exponent from the reader they
// are given, not zero, and return it with the power of the generator.
func (r *Run) randomElements() {
	for _, g := range []string{"G1", "G2"} {
		g := g
		r.sub("Random"+g, func(h *H) {
			h.ccs()
			fn := h.r.w.fn(bnPkg, "Random"+g)
			if fn == nil {
				return
			}
			base := h.c.base(h.in.bnGroup(h.st, g), map[string]string{"G1": "g1", "G2": "g2"}[g])
			rd := leaf(ModelL{kind: "given reader"})
			for zeros := 0; zeros <= 3; zeros++ {
				n0 := h.in.rands
				h.in.randCase = func(n int) string {
					if n <= n0+zeros {
						return "zero"
					}
					return "nonzero"
				}
				t := h.pure(fn, rd).(*AggV)
				h.okErr(t.f[2], fn)
				k := h.numAt(t.f[0])
				a := h.c.single(k)
				h.check(a != nil && a.tag == "rand" && polyEq(k, h.c.atomPoly(a)) && new(big.Int).Add(a.hi, b1).Cmp(h.order()) == 0, shortFn(fn), "the exponent is %s, not one number drawn below the order", h.c.show(k))
				for _, d := range h.in.randOf {
					if d.atom == a {
						h.check(strings.HasPrefix(d.src, "given reader "), shortFn(fn), "the exponent does not come from the reader that was passed (%s)", d.src)
					}
				}
				h.sameE(fn, "the element", t.f[1], h.c.eScale(base, k))
				h.in.randCase = func(n int) string {
					if n <= n0+zeros {
						return "zero"
					}
					return "fail"
				}
				n0 = h.in.rands
				t = h.pure(fn, rd).(*AggV)
				h.isErr(t.f[2], fn, "when the random source fails")
			}
		})
	}
}

func (r *Run) maskSets(pre string, f func(h *H, s setCase, i int)) {
	h0 := &H{r: r, in: newInterp(r.w)}
	h0.c = h0.in.c
	for n, s := range h0.sets() {
		n := n
		for i := range s.s {
			i := i
			r.sub(fmt.Sprintf("%sset %s, member %d", pre, s.name, i), func(h *H) {
				h.ccs()
				f(h, h.sets()[n], i)
			})
		}
	}
}

// oneDraw: the number is one draw below the order.
func (h *H) oneDraw(fn *ssa.Function, what string, p *Poly) {
	a := h.c.single(p)
	if !h.check(a != nil && a.tag == "rand" && polyEq(p, h.c.atomPoly(a)), shortFn(fn), "%s is %s, not one random number", what, h.c.show(p)) {
		return
	}
	h.check(new(big.Int).Add(a.hi, b1).Cmp(h.order()) == 0, shortFn(fn), "%s is drawn below %s, not below the group order", what, a.hi)
	for _, d := range h.in.randOf {
		if d.atom == a {
			h.check(len(d.src) > 11 && d.src[:11] == "randReader ", shortFn(fn), "%s does not come from crypto/rand.Reader (%s)", what, d.src)
		}
	}
}

func runSecrets(r *Run) {
	r.facts["level"] = "other"
	r.facts["explanation"] = "As for C13. The values of a proof are collapsed to numbers (generic discrete logarithms of the generators), so that the rank counts what an unbounded observer gets; derivatives with respect to the digits of the secret show which combinations are not masked."
	r.rule("every value of a proof that depends on the secret depends on a draw")
	r.rule("the rank of the values in the draws is the number of values minus the number of verification equations: 8+2log2(N) for a range proof (at most 2N+5), 5 for a set proof, 3l+2 for a digit proof; more means that masks, vectors or intermediate values are given away, less that masks are reused")
	r.rule("no combination of the values depends on the secret and on no draw, except the one that forces the bits of a range proof to be bits")
	r.rule("no number or string in the parameters of the signature schemes depends on the key")
	for _, n := range []int{1, 2, 4, 8, 16, 32} {
		n := n
		r.sub(fmt.Sprintf("range proof N=%d", n), func(h *H) { h.maskBP(n, 1, true) })
	}
	for _, n := range []int{1, 4} {
		n := n
		r.sub(fmt.Sprintf("generic proof N=%d", n), func(h *H) { h.maskGeneric(n) })
	}
	r.maskSets("", func(h *H, s setCase, i int) { h.maskSet(s, i, 1, true) })
	for l := 1; l <= 11; l++ {
		l := l
		r.sub(fmt.Sprintf("digit proof l=%d", l), func(h *H) { h.maskUL(57, l, 1, true) })
	}
	for l := 1; l <= 4; l++ {
		l := l
		r.sub(fmt.Sprintf("interval proof l=%d", l), func(h *H) { h.maskRange(l, true) })
	}
	r.sub("parameters for sets", func(h *H) {
		h.ccs()
		fn := h.fn(ccsPkg, "SetupSet")
		first := len(h.in.randOf)
		p := h.setup(fn, nil, h.ints(csti(-2), csti(3), csti(5), csti(8)))
		h.narrowAll(p)
		h.noKey(fn, h.narrow(p), h.typ(ccsPkg, "paramsSet"), first)
	})
	r.sub("parameters for digits", func(h *H) {
		h.ccs()
		fn := h.fn(ccsPkg, "SetupUL")
		first := len(h.in.randOf)
		p := h.setup(fn, nil, numi(5), numi(3))
		h.narrowAll(p)
		h.noKey(fn, h.narrow(p), h.typ(ccsPkg, "paramsUL"), first)
		for _, u := range []int64{0, 1, 2} {
			for _, l := range []int64{0, 1} {
				first := len(h.in.randOf)
				t := h.call(fn, numi(u), numi(l)).(*AggV)
				if h.live(h.c.not(h.errB(t.f[1]))) == bF {
					continue
				}
				h.assume(h.c.not(h.errB(t.f[1])))
				h.narrowAll(t.f[0])
				h.noKey(fn, h.narrow(t.f[0]), h.typ(ccsPkg, "paramsUL"), first)
			}
		}
	})
	r.sub("parameters for intervals", func(h *H) {
		h.ccs()
		fn := h.method(ccsPkg, "ccs08", "Setup")
		first := len(h.in.randOf)
		z := h.object(ccsPkg, "ccs08", "zkrp", nil)
		e := h.pureBut(ptrOf(z), fn, z, numi(10), numi(100))
		h.assume(h.c.not(h.errB(e)))
		h.narrowAll(z)
		h.noKey(fn, h.getF(ccsPkg, "ccs08", h.narrow(h.deref(z)), "p"), types.NewPointer(h.typ(ccsPkg, "params")), first)
	})
}
