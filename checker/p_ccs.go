package main

// C07 to C12, C15, C39: commitments, signatures and the proofs based on them.

import (
	"fmt"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

func init() {
	props["C07"] = runSetComplete
	props["C08"] = runULComplete
	props["C09"] = runCCSVerify
	props["C10"] = runRefuse
	props["C11"] = runCCSRange
	props["C12"] = runBB
	props["C15"] = runCommit
}

// getF reads a struct field by name.
func (h *H) getF(pkg, typ string, v Val, f string) Val {
	a, ok := v.(*AggV)
	if !ok {
		h.in.undec("%s.%s value is %T", pkg, typ, v)
	}
	return a.f[h.fieldIx(pkg, typ, f)]
}

func (h *H) setF(pkg, typ string, v Val, f string, x Val) Val {
	a := v.(*AggV)
	n := &AggV{append([]Val(nil), a.f...)}
	n.f[h.fieldIx(pkg, typ, f)] = x
	return n
}

// object allocates a struct with the given fields.
func (h *H) object(pkg, typ, name string, f map[string]Val) Val {
	t := h.typ(pkg, typ)
	v := h.in.zero(t)
	for k, x := range f {
		v = h.setF(pkg, typ, v, k, x)
	}
	return h.in.newPtr(h.st, t, name, v)
}

func (h *H) deref(v Val) Val { return h.in.under(h.st, h.in.load(h.st, h.in.under(h.st, v))) }

func (h *H) boolB(v Val) Bdd {
	b, ok := v.(BoolV)
	if !ok {
		h.in.undec("verdict is %T", v)
	}
	return b.b
}

// bnBase declares an arbitrary group element.
func (h *H) bnBase(g, name string) (*Elem, Val) {
	h.c.declBase(&baseInfo{name: name})
	e := h.c.base(h.in.bnGroup(h.st, g), name)
	return e, h.in.bnNew(h.st, e)
}

func (h *H) p256Base(name string) (*Elem, Val) {
	h.c.declBase(&baseInfo{name: name})
	e := h.c.base(h.in.secp(h.st), name)
	return e, h.in.p256New(h.st, e)
}

// where narrows the state to the inputs where b holds.
func (h *H) assume(b Bdd) { h.st.pc = h.c.and(h.st.pc, b) }

// sameE checks that the group element behind v is want.
func (h *H) sameE(fn *ssa.Function, what string, v Val, want *Elem) bool {
	var got *Elem
	if want.g.name == "secp" {
		got = h.in.p256Elem(h.st, v)
	} else {
		got = h.in.bnElem(h.st, v, want.g)
	}
	d := h.c.eSub(got, want)
	return h.check(len(d.t) == 0 || h.live(h.c.not(h.c.zeroE(d))) == bF, shortFn(fn), "%s is %s, not %s", what, h.c.showE(got), h.c.showE(want))
}

// holds checks that a verdict is true.
func (h *H) holds(fn *ssa.Function, what string, v Val) bool {
	b := h.live(h.c.not(h.boolB(v)))
	return h.check(b == bF, shortFn(fn), "%s is not accepted%s", what, when(h.c, b))
}

func (h *H) fails(fn *ssa.Function, what string, v Val) bool {
	b := h.live(h.boolB(v))
	return h.check(b == bF, shortFn(fn), "%s is accepted%s", what, when(h.c, b))
}

// exactly checks that a verdict is the conjunction of the given conditions.
type namedB struct {
	name string
	b    Bdd
}

func (h *H) exactly(fn *ssa.Function, what string, got Bdd, conds []namedB) {
	all := bT
	for _, n := range conds {
		b := h.possible(h.c.and(got, h.c.not(n.b)))
		h.check(b == bF, shortFn(fn), "%s is accepted although it does not hold that %s%s", what, n.name, when(h.c, b))
		all = h.c.and(all, n.b)
	}
	h.check(h.live(all) != bF, shortFn(fn), "the conditions for %s cannot hold together", what)
	b := h.possible(h.c.and(all, h.c.not(got)))
	h.check(b == bF, shortFn(fn), "%s is rejected although all equations hold%s", what, when(h.c, b))
}

// ---------- commitments ----------

func runCommit(r *Run) {
	r.rule("Commit(x,r,h) and CommitG1(x,r,h) return the formal sum x.g + r.h for symbolic integers x, r and a symbolic group element h (also r.h = x.g, its inverse, the identity), with every branch of the point addition covered; arguments, the generator and the package-level constants are not written")
	r.sub("Commit", func(h *H) {
		h.groupLevel(utilPkg)
		fn := h.fn(utilPkg, "Commit")
		g2 := h.in.bnGroup(h.st, "G2")
		g := h.c.base(g2, "g2")
		for _, k := range []string{"general", "same", "generator", "inverse", "identity", "zero x", "zero r"} {
			x, rr := h.c.sym("x", nil, nil), h.c.sym("r", nil, nil)
			hh, hv := h.bnBase("G2", "h")
			xv, rv := h.bigV(x), h.bigV(rr)
			switch k {
			case "same":
				rr, rv = x, xv
			case "generator":
				hh = g
				hv = h.in.bnNew(h.st, g)
			case "inverse":
				hh = h.c.eNeg(g)
				hv = h.in.bnNew(h.st, hh)
			case "identity":
				hh = zeroElem(g2)
				hv = h.in.bnNew(h.st, hh)
			case "zero x":
				x, xv = csti(0), h.bigV(csti(0))
			case "zero r":
				rr, rv = csti(0), h.bigV(csti(0))
			}
			t := h.pure(fn, xv, rv, hv).(*AggV)
			h.okErr(t.f[1], fn)
			h.sameE(fn, "the commitment ("+k+")", t.f[0], h.c.eAdd(h.c.eScale(g, x), h.c.eScale(hh, rr)))
		}
		h.sample("Commit(x,r,h) = [x]g2 + [r]h")
	})
	r.sub("CommitG1", func(h *H) {
		h.groupLevel(utilPkg)
		fn := h.fn(utilPkg, "CommitG1")
		gr := h.in.secp(h.st)
		g := h.c.base(gr, "g")
		for _, k := range []string{"general", "same", "generator", "inverse", "identity", "zero x", "zero r"} {
			x, rr := h.c.sym("x", nil, nil), h.c.sym("r", nil, nil)
			hh, hv := h.p256Base("h")
			xv, rv := h.bigV(x), h.bigV(rr)
			switch k {
			case "same":
				rr, rv = x, xv
			case "generator":
				hh = g
				hv = h.in.p256New(h.st, g)
			case "inverse":
				hh = h.c.eNeg(g)
				hv = h.in.p256New(h.st, hh)
			case "identity":
				hh = zeroElem(gr)
				hv = h.in.p256New(h.st, hh)
			case "zero x":
				x, xv = csti(0), h.bigV(csti(0))
			case "zero r":
				rr, rv = csti(0), h.bigV(csti(0))
			}
			t := h.pure(fn, xv, rv, hv).(*AggV)
			h.okErr(t.f[1], fn)
			h.sameE(fn, "the commitment ("+k+")", t.f[0], h.c.eAdd(h.c.eScale(g, x), h.c.eScale(hh, rr)))
		}
		h.sample("CommitG1(x,r,h) = [x]g + [r]h")
	})
}

// ---------- signatures ----------

func (h *H) order() *big.Int { return h.in.globalBig(h.st, bnPkg, "Order") }

// inv(m+sk) g2
func (h *H) sigE(m, sk *Poly) *Elem {
	o := h.order()
	return h.c.eScale(h.c.base(h.in.bnGroup(h.st, "G2"), "g2"), h.c.inverse(h.c.reduce(add(m, sk), o), o))
}

func runBB(r *Run) {
	r.rule("Keygen: Privk is one draw from crypto/rand.Reader below the group order and Pubk the formal element Privk.g1, no error; Sign: the element (m+sk)^-1.g2, an error exactly if m+sk = 0 modulo the order; verify: true exactly if the formal pairing sum m.e(g1,S) + e(Y,S) - e(g1,g2) is zero")
	r.sub("Keygen", func(h *H) {
		h.groupLevel(bbPkg)
		fn := h.fn(bbPkg, "Keygen")
		n := len(h.in.randOf)
		t := h.pure(fn).(*AggV)
		h.okErr(t.f[1], fn)
		sk := h.numAt(h.getF(bbPkg, "Keypair", t.f[0], "Privk"))
		a := h.c.single(sk)
		if h.check(a != nil && a.tag == "rand" && polyEq(sk, h.c.atomPoly(a)), shortFn(fn), "the private key is %s, not one random number", h.c.show(sk)) {
			h.check(new(big.Int).Add(a.hi, b1).Cmp(h.order()) == 0, shortFn(fn), "the private key is drawn below %s, not below the group order", a.hi)
			h.check(len(h.in.randOf) == n+1, shortFn(fn), "%d random numbers are drawn", len(h.in.randOf)-n)
		}
		h.sameE(fn, "the public key", h.getF(bbPkg, "Keypair", t.f[0], "Pubk"), h.c.eScale(h.c.base(h.in.bnGroup(h.st, "G1"), "g1"), sk))
	})
	r.sub("Sign", func(h *H) {
		h.groupLevel(bbPkg)
		fn := h.fn(bbPkg, "Sign")
		m, sk := h.c.sym("m", nil, nil), h.c.sym("sk", nil, nil)
		t := h.pure(fn, h.bigV(m), h.bigV(sk)).(*AggV)
		none := h.c.zeroModB(add(m, sk), h.order())
		e := h.errB(t.f[1])
		d := h.live(h.c.xor(e, none))
		h.check(d == bF, shortFn(fn), "Sign does not report an error exactly for messages without a signature%s", when(h.c, d))
		h.assume(h.c.not(none))
		h.sameE(fn, "the signature", t.f[0], h.sigE(m, sk))
	})
	r.sub("verify", func(h *H) {
		h.groupLevel(bbPkg)
		fn := h.fn(bbPkg, "verify")
		m := h.c.sym("m", nil, nil)
		s, sv := h.bnBase("G2", "S")
		y, yv := h.bnBase("G1", "Y")
		t := h.pure(fn, sv, h.bigV(m), yv).(*AggV)
		h.okErr(t.f[1], fn)
		g1, g2 := h.c.base(h.in.bnGroup(h.st, "G1"), "g1"), h.c.base(h.in.bnGroup(h.st, "G2"), "g2")
		eq := h.c.eSub(h.in.pairE(h.st, h.c.eAdd(h.c.eScale(g1, m), y), s), h.in.pairE(h.st, g1, g2))
		h.exactly(fn, "a signature", h.boolB(t.f[0]), []namedB{{"e(y.g1^m,S) = e(g1,g2)", h.c.zeroE(eq)}})
	})
	r.sub("sign and verify", func(h *H) {
		h.groupLevel(bbPkg)
		key := h.call(h.fn(bbPkg, "Keygen")).(*AggV).f[0]
		kp := h.deref
		_ = kp
		m := h.c.sym("m", nil, nil)
		mv := h.bigV(m)
		skv, pk := h.getF(bbPkg, "Keypair", key, "Privk"), h.getF(bbPkg, "Keypair", key, "Pubk")
		t := h.pure(h.fn(bbPkg, "Sign"), mv, skv).(*AggV)
		h.assume(h.c.not(h.errB(t.f[1])))
		fn := h.fn(bbPkg, "verify")
		v := h.pure(fn, h.in.under(h.st, t.f[0]), mv, pk).(*AggV)
		h.okErr(v.f[1], fn)
		h.holds(fn, "an honest signature", v.f[0])
		// another message is accepted only if it is the same modulo the order
		m2 := h.c.sym("m2", nil, nil)
		v = h.pure(fn, h.in.under(h.st, t.f[0]), h.bigV(m2), pk).(*AggV)
		h.exactly(fn, "the signature on another message", h.boolB(v.f[0]), []namedB{{"the messages agree", h.c.zeroModB(sub(m2, m), h.order())}})
	})
}

// ---------- set membership ----------

// protocol prepares an interpreter for the proofs on signatures.
func (h *H) ccs() {
	h.in.bytesSummaries()
	h.groupLevel(ccsPkg, bbPkg, utilPkg)
	h.in.noIdent = true
}

func (h *H) ints(vs ...*Poly) Val {
	var out []Val
	for _, v := range vs {
		out = append(out, num(v))
	}
	return h.mkSlice("set", out)
}

// setup runs a setup function and continues where it reports no error.
func (h *H) setup(fn *ssa.Function, keyOk func(sk *Poly) Bdd, args ...Val) Val {
	t := h.pure(fn, args...).(*AggV)
	e := h.errB(t.f[1])
	if keyOk != nil {
		sk := h.skOf()
		d := h.live(h.c.and(e, keyOk(sk)))
		h.check(d == bF, shortFn(fn), "setup reports an error%s", when(h.c, d))
	}
	h.assume(h.c.not(e))
	return h.narrow(t.f[0])
}

// narrowAll narrows every object reachable from v.
func (h *H) narrowAll(v Val) Val {
	seen := map[int]bool{}
	var walk func(v Val)
	obj := func(id int) {
		if seen[id] {
			return
		}
		seen[id] = true
		c := h.st.heap.get(id)
		if c == nil {
			return
		}
		n := h.narrow(c)
		h.st.heap = h.st.heap.set(id, n)
		walk(n)
	}
	walk = func(v Val) {
		switch x := v.(type) {
		case *AggV:
			for _, f := range x.f {
				walk(f)
			}
		case *GV:
			for _, a := range x.alts {
				switch l := a.l.(type) {
				case PtrL:
					obj(l.obj)
				case SliceL:
					obj(l.obj)
				case MapL:
					obj(l.obj)
				}
			}
		}
	}
	n := h.narrow(v)
	walk(n)
	return n
}

// narrow drops the alternatives that the current state excludes.
func (h *H) narrow(v Val) Val {
	switch x := v.(type) {
	case *GV:
		return h.in.under(h.st, x)
	case *AggV:
		n := &AggV{}
		for _, f := range x.f {
			n.f = append(n.f, h.narrow(f))
		}
		return n
	}
	return v
}

// skOf is the draw of the private key: the first random number.
func (h *H) skOf() *Poly {
	if len(h.in.randOf) == 0 {
		h.in.undec("setup draws no key")
	}
	return h.c.atomPoly(h.in.randOf[0].atom)
}

func (h *H) signable(ms []*Poly) func(sk *Poly) Bdd {
	return func(sk *Poly) Bdd {
		r := bT
		for _, m := range ms {
			r = h.c.and(r, h.c.not(h.c.zeroModB(add(m, sk), h.order())))
		}
		return r
	}
}

type setCase struct {
	name string
	s    []*Poly
}

func (h *H) sets() []setCase {
	k := func(xs ...int64) []*Poly {
		var r []*Poly
		for _, x := range xs {
			r = append(r, csti(x))
		}
		return r
	}
	y := func(name string, lo, hi int64) *Poly { return h.c.sym(name, bi(lo), bi(hi)) }
	sets := []setCase{
		{"one element", []*Poly{y("s", -1<<63, 1<<63-1)}},
		{"two elements", []*Poly{y("s0", -1<<63, -1), y("s1", 0, 1<<63-1)}},
		{"three elements", []*Poly{y("t0", 1<<40, 1<<63-1), y("t1", -1<<63, -1<<20), y("t2", -5, 1<<39)}},
		{"0", k(0)},
		{"1 2 3 4 5", k(1, 2, 3, 4, 5)},
		{"repeated", k(7, 7, -7, 7)},
		{"extreme", k(-1<<63, 1<<63-1, 0, -1)},
		{"12 42 61 71", k(12, 42, 61, 71)},
		{"ten", k(10, 9, 8, 7, 6, 5, 4, 3, 2, 1)},
		{"sixty", k(many(60)...)},
	}
	for _, n := range h.r.w.constSizes([]int{0, 1, 2, 3, 4, 5, 9, 10, 11, 60}, 300, []int{1}, h.r.w.ccsFns("Set")...)[10:] {
		if n > 11 {
			sets = append(sets, setCase{fmt.Sprintf("%d elements", n), k(many(int64(n))...)})
		}
	}
	return sets
}

// ccsFns are the functions of the set or interval proofs.
func (w *World) ccsFns(suffix string) []*ssa.Function {
	var r []*ssa.Function
	for _, n := range []string{"Setup", "Prove", "Verify"} {
		if f := w.fn(ccsPkg, n+suffix); f != nil {
			r = append(r, f)
		}
	}
	return append(r, w.fn(utilPkg, "Decompose"))
}

// many returns n different numbers of all sizes and both signs.
func many(n int64) []int64 {
	var r []int64
	for i := int64(0); i < n; i++ {
		x := (i + 1) * (i + 3) << uint(i%46)
		if i%3 == 1 {
			x = -x
		}
		r = append(r, x)
	}
	return r
}

func eachSet(r *Run, f func(h *H, s setCase)) {
	h0 := &H{r: r, in: newInterp(r.w)}
	h0.c = h0.in.c
	for i := range h0.sets() {
		i := i
		r.sub("set "+h0.sets()[i].name, func(h *H) {
			h.ccs()
			s := h.sets()[i]
			f(h, s)
		})
	}
}

func runSetComplete(r *Run) {
	r.rule("for symbolic and constant sets, every member x, a symbolic blinding factor, symbolic keys, draws and challenge: SetupSet and ProveSet report no error, and VerifySet returns true because every formal difference of group elements it compares cancels; accidental identities of random elements are left out")
	eachSet(r, func(h *H, s setCase) {
		p := h.setup(h.fn(ccsPkg, "SetupSet"), h.signable(s.s), h.ints(s.s...))
		prove, verify := h.fn(ccsPkg, "ProveSet"), h.fn(ccsPkg, "VerifySet")
		st0, care0 := *h.st, h.in.care
		for i, x := range s.s {
			for _, rr := range []*Poly{h.c.sym("r", nil, nil), csti(0)} {
				*h.st, h.in.care = st0, care0
				t := h.pure(prove, num(x), h.bigV(rr), p).(*AggV)
				h.okErr(t.f[1], prove)
				g2 := h.in.bnGroup(h.st, "G2")
				hE := h.in.bnElem(h.st, h.getF(ccsPkg, "paramsSet", p, "H"), g2)
				h.sameE(prove, "the commitment", h.getF(ccsPkg, "proofSet", t.f[0], "C"), h.c.eAdd(h.c.eScale(h.c.base(g2, "g2"), x), h.c.eScale(hE, rr)))
				pt := h.in.newPtr(h.st, h.typ(ccsPkg, "proofSet"), "proof", t.f[0])
				pp := h.in.newPtr(h.st, h.typ(ccsPkg, "paramsSet"), "params", p)
				for k := 0; k < 2; k++ { // verification can be repeated
					v := h.pure(verify, pt, pp).(*AggV)
					h.okErr(v.f[1], verify)
					h.holds(verify, fmt.Sprintf("the proof for member %d", i), v.f[0])
				}
			}
		}
		h.sample("VerifySet(ProveSet(s[i],r,SetupSet(s))) = true")
	})
}

// symDigits lets a lookup with a symbolic digit find the signature on it,
// if all digits have one.
func (h *H) symDigits(u int64) {
	in := h.in
	in.symMap = func(st *State, content *AggV, k, zero Val) (Val, Bdd) {
		kl, ok := one(k)
		if !ok {
			return nil, bF
		}
		var d *Poly
		switch x := kl.(type) {
		case StrL:
			ps := normPieces(x.ps)
			if len(ps) != 1 || ps[0].k != "dec" {
				return nil, bF
			}
			d = ps[0].p
		case NumL:
			d = x.p
		default:
			return nil, bF
		}
		if _, ok := d.isConst(); ok {
			return nil, bF
		}
		lo, hi := h.c.interval(d)
		if lo == nil || hi == nil || lo.Sign() < 0 || hi.Cmp(bi(u)) >= 0 {
			return nil, bF
		}
		sk := h.skOf()
		g2 := in.bnGroup(st, "G2")
		seen := map[int64]bool{}
		for _, e := range content.f {
			t := e.(*AggV)
			l, ok := one(t.f[0])
			if !ok || !h.c.imp(h.c.and(st.pc, in.care), t.f[1].(BoolV).b) {
				return nil, bF
			}
			var i int64
			switch x := l.(type) {
			case StrL:
				s, ok := x.literal()
				v, ok2 := new(big.Int).SetString(s, 10)
				if !ok || !ok2 || v.String() != s {
					return nil, bF
				}
				i = v.Int64()
			case NumL:
				v, ok := x.p.isConst()
				if !ok {
					return nil, bF
				}
				i = v.Int64()
			}
			v, ok := one(in.under(st, in.bnRead(st, t.f[2], g2)))
			if !ok {
				return nil, bF
			}
			if !elemEq(v.(ElemL).e, h.sigE(csti(i), sk)) {
				return nil, bF
			}
			seen[i] = true
		}
		has, missing := bT, 0
		for i := lo.Int64(); i <= hi.Int64(); i++ {
			if !seen[i] {
				has = h.c.and(has, h.c.not(h.c.zeroInt(sub(d, csti(i)))))
				missing++
			}
		}
		if missing > 2 {
			return nil, bF
		}
		// the signature on the digit; d+sk is not zero since setup succeeded
		h.c.assumeNonzero(add(d, sk), h.order())
		return h.c.merge(has, in.bnNew(st, h.sigE(d, sk)), zero), has
	}
}

func pow64(u int64, l int) *big.Int { return new(big.Int).Exp(bi(u), bi(int64(l)), nil) }

func digitsOf(u int64) []*Poly {
	var r []*Poly
	for i := int64(0); i < u; i++ {
		r = append(r, csti(i))
	}
	return r
}

func runULComplete(r *Run) {
	r.rule("for u=57 and l = 1..11 digits (and small u), a symbolic secret in [0,u^l), symbolic blinding factor, keys, draws and challenge: setup and prover report no error, the commitment is x.g2 + r.H, and VerifyUL returns true because every formal difference it compares cancels using x = sum d_i u^i and (d+sk).(d+sk)^-1 = 1")
	type ul struct {
		u int64
		l int
	}
	var cs []ul
	for l := 1; l <= 11; l++ {
		cs = append(cs, ul{57, l})
	}
	cs = append(cs, ul{2, 5}, ul{10, 5}, ul{16, 3}, ul{2, 12}, ul{255, 2}, ul{57, 16}, ul{2, 32}, ul{3, 20}, ul{300, 4})
	if r.tier == "thorough" {
		cs = append(cs, ul{57, 40}, ul{2, 64}, ul{4, 33})
	}
	ls, us := []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 16, 20, 32}, []int{0, 1, 2, 3, 4, 10, 16, 57, 58, 255, 300}
	for _, l := range r.w.constSizes(ls, 48, []int{1}, r.w.ccsFns("UL")...)[len(ls):] {
		cs = append(cs, ul{57, l})
	}
	for _, u := range r.w.constSizes(us, 700, []int{1}, r.w.ccsFns("UL")...)[len(us):] {
		cs = append(cs, ul{int64(u), 2})
	}
	r.facts["base_and_digits"] = fmt.Sprint(cs)
	for _, k := range cs {
		k := k
		r.sub(fmt.Sprintf("u=%d l=%d", k.u, k.l), func(h *H) {
			h.ccs()
			h.symDigits(k.u)
			p := h.setup(h.fn(ccsPkg, "SetupUL"), h.signable(digitsOf(k.u)), numi(k.u), numi(int64(k.l)))
			prove, verify := h.fn(ccsPkg, "ProveUL"), h.fn(ccsPkg, "VerifyUL")
			x := h.c.sym("x", b0, subB(pow64(k.u, k.l), 1))
			st0, care0 := *h.st, h.in.care
			for _, c := range []struct{ x, r *Poly }{{x, h.c.sym("r", nil, nil)}, {csti(0), csti(0)}, {cst(subB(pow64(k.u, k.l), 1)), h.c.sym("r", nil, nil)}} {
				*h.st, h.in.care = st0, care0
				t := h.pure(prove, h.bigV(c.x), h.bigV(c.r), p).(*AggV)
				h.okErr(t.f[1], prove)
				g2 := h.in.bnGroup(h.st, "G2")
				hE := h.in.bnElem(h.st, h.getF(ccsPkg, "paramsUL", p, "H"), g2)
				h.sameE(prove, "the commitment", h.getF(ccsPkg, "proofUL", t.f[0], "C"), h.c.eAdd(h.c.eScale(h.c.base(g2, "g2"), c.x), h.c.eScale(hE, c.r)))
				pt := h.in.newPtr(h.st, h.typ(ccsPkg, "proofUL"), "proof", t.f[0])
				pp := h.in.newPtr(h.st, h.typ(ccsPkg, "paramsUL"), "params", p)
				for n := 0; n < 2; n++ {
					v := h.pure(verify, pt, pp).(*AggV)
					h.okErr(v.f[1], verify)
					h.holds(verify, "the proof", v.f[0])
				}
			}
		})
	}
}

// ---------- verification equations ----------

// challenge finds the number that the verdict compares with the challenge c
// of the proof.
func (h *H) challenge(verdict Bdd, c *Poly) (*Poly, Bdd) {
	a := h.c.single(c)
	for _, v := range h.c.support(verdict) {
		if v.num == nil {
			continue
		}
		for _, t := range v.num.t {
			f := unpackMono(t.m)
			if len(f) != 1 || f[0].a != a.id || f[0].e != 1 || new(big.Int).Abs(t.c).Cmp(b1) != 0 {
				continue
			}
			x := scale(sub(scale(c, t.c), v.num), t.c) // num = t*(c - x)
			cond := h.c.zeroInt(sub(c, x))
			if h.live(h.c.and(verdict, h.c.not(cond))) == bF {
				return x, cond
			}
		}
	}
	return nil, bF
}

func runCCSVerify(r *Run) {
	r.rule("with every proof field an arbitrary group element or integer, the verdict of VerifySet and VerifyUL implies that the challenge is the recomputed hash, and with that challenge the verdict is exactly the conjunction of V_i not the identity, D = c.C + zr.H + sum u^i zsig_i.g2 and a_i = c.e(y,V_i) - zsig_i.e(g1,V_i) + zv_i.e(g1,g2); lengths different from l are rejected")
	r.sub("set", func(h *H) {
		h.ccs()
		h.in.noIdent = false
		c := h.c
		fn := h.fn(ccsPkg, "VerifySet")
		_, hv := h.bnBase("G2", "H")
		_, yv := h.bnBase("G1", "Y")
		kp := h.setF(bbPkg, "Keypair", h.in.zero(h.typ(bbPkg, "Keypair")), "Pubk", yv)
		pp := h.object(ccsPkg, "paramsSet", "params", map[string]Val{"H": hv, "kp": kp})
		V, Vv := h.bnBase("G2", "V")
		D, Dv := h.bnBase("G2", "D")
		C, Cv := h.bnBase("G2", "C")
		a, av := h.bnBase("GT", "a")
		zs, zv, zr := c.sym("zsig", nil, nil), c.sym("zv", nil, nil), c.sym("zr", nil, nil)
		run := func(ch *Poly) Bdd {
			pr := h.object(ccsPkg, "proofSet", "proof", map[string]Val{"V": Vv, "D": Dv, "C": Cv, "a": av, "zsig": h.bigV(zs), "zv": h.bigV(zv), "zr": h.bigV(zr), "c": h.bigV(ch)})
			t := h.pure(fn, pr, pp).(*AggV)
			h.okErr(t.f[1], fn)
			return h.boolB(t.f[0])
		}
		ch := c.sym("c", nil, nil)
		x, _ := h.challenge(run(ch), ch)
		if !h.check(x != nil, shortFn(fn), "the challenge of the proof is not compared with a recomputed one") {
			return
		}
		h.setEq(fn, "a proof", run(x), h.in.base2("H"), h.in.base1("Y"), []*Elem{V}, D, C, []*Elem{a}, []*Poly{zs}, []*Poly{zv}, zr, x, 1)
	})
	ls := []int{0, 1, 2, 3, 5, 8, 11, 16}
	for _, l := range r.w.constSizes(ls, 48, []int{1}, r.w.fn(ccsPkg, "VerifyUL"))[1:] {
		for _, u := range []int64{57, 10, 2, 1000} {
			if l > 16 && u != 57 {
				continue
			}
			l, u := l, u
			r.sub(fmt.Sprintf("u=%d l=%d", u, l), func(h *H) {
				h.ccs()
				h.in.noIdent = false
				c := h.c
				fn := h.fn(ccsPkg, "VerifyUL")
				_, hv := h.bnBase("G2", "H")
				_, yv := h.bnBase("G1", "Y")
				kp := h.setF(bbPkg, "Keypair", h.in.zero(h.typ(bbPkg, "Keypair")), "Pubk", yv)
				pp := h.object(ccsPkg, "paramsUL", "params", map[string]Val{"H": hv, "kp": kp, "u": numi(u), "l": numi(int64(l))})
				ul := h.ulProof("", l)
				run := func(ch *Poly) Bdd {
					t := h.pure(fn, h.object(ccsPkg, "proofUL", "proof", ul.fields(h, ch)), pp).(*AggV)
					h.okErr(t.f[1], fn)
					return h.boolB(t.f[0])
				}
				ch := c.sym("c", nil, nil)
				x, _ := h.challenge(run(ch), ch)
				if !h.check(x != nil, shortFn(fn), "the challenge of the proof is not compared with a recomputed one") {
					return
				}
				h.setEq(fn, "a proof", run(x), h.in.base2("H"), h.in.base1("Y"), ul.V, ul.D, ul.C, ul.a, ul.zs, ul.zv, ul.zr, x, u)
				// other numbers of digits
				for _, f := range []string{"V", "a", "zsig", "zv", "all"} {
					for _, n := range []int{0, l - 1, l + 1} {
						if n < 0 {
							continue
						}
						o := h.ulProof("", n)
						fs, fo := ul.fields(h, x), o.fields(h, x)
						if f == "all" {
							fs = fo
						} else {
							fs[f] = fo[f]
						}
						h.guard(fmt.Sprintf("%d elements in %s: ", n, f), func() {
							t := h.pure(fn, h.object(ccsPkg, "proofUL", "proof", fs), pp).(*AggV)
							h.fails(fn, fmt.Sprintf("a proof with %d instead of %d elements in %s", n, l, f), t.f[0])
						})
					}
				}
			})
		}
	}
}

func (in *Interp) base2(n string) *Elem { return in.c.base(in.groups["G2"], n) }
func (in *Interp) base1(n string) *Elem { return in.c.base(in.groups["G1"], n) }

type ulP struct {
	V, a   []*Elem
	D, C   *Elem
	zs, zv []*Poly
	zr     *Poly
	Vv, av []Val
	Dv, Cv Val
}

func (h *H) ulProof(pre string, l int) *ulP {
	p := &ulP{}
	for i := 0; i < l; i++ {
		e, v := h.bnBase("G2", fmt.Sprintf("%sV%d", pre, i))
		p.V, p.Vv = append(p.V, e), append(p.Vv, v)
		e, v = h.bnBase("GT", fmt.Sprintf("%sa%d", pre, i))
		p.a, p.av = append(p.a, e), append(p.av, v)
		p.zs = append(p.zs, h.c.sym(fmt.Sprintf("%szsig%d", pre, i), nil, nil))
		p.zv = append(p.zv, h.c.sym(fmt.Sprintf("%szv%d", pre, i), nil, nil))
	}
	p.D, p.Dv = h.bnBase("G2", pre+"D")
	p.C, p.Cv = h.bnBase("G2", pre+"C")
	p.zr = h.c.sym(pre+"zr", nil, nil)
	return p
}

func (p *ulP) fields(h *H, ch *Poly) map[string]Val {
	bs := func(ps []*Poly) Val {
		var vs []Val
		for _, x := range ps {
			vs = append(vs, h.bigV(x))
		}
		return h.mkSlice("z", vs)
	}
	return map[string]Val{"V": h.mkSlice("V", p.Vv), "a": h.mkSlice("a", p.av), "D": p.Dv, "C": p.Cv,
		"zsig": bs(p.zs), "zv": bs(p.zv), "zr": h.bigV(p.zr), "c": h.bigV(ch)}
}

// ulEqs are the conditions for the acceptance of one proof.
func (h *H) ulEqs(pre string, H, Y *Elem, V []*Elem, D, C *Elem, a []*Elem, zs, zv []*Poly, zr, x *Poly, u int64) []namedB {
	c := h.c
	g1, g2 := c.base(h.in.bnGroup(h.st, "G1"), "g1"), c.base(h.in.bnGroup(h.st, "G2"), "g2")
	var conds []namedB
	w := c.eAdd(c.eScale(C, x), c.eScale(H, zr))
	for i := range V {
		w = c.eAdd(w, c.eScale(g2, scale(zs[i], pow64(u, i))))
		conds = append(conds, namedB{fmt.Sprintf("%sV%d is not the identity", pre, i), c.not(c.zeroE(V[i]))})
	}
	conds = append(conds, namedB{pre + "D = C^c.H^zr.g^zsig", c.zeroE(c.eSub(w, D))})
	for i := range V {
		e := c.eScale(h.in.pairE(h.st, Y, V[i]), x)
		e = c.eSub(e, c.eScale(h.in.pairE(h.st, g1, V[i]), zs[i]))
		e = c.eAdd(e, c.eScale(h.in.pairE(h.st, g1, g2), zv[i]))
		conds = append(conds, namedB{fmt.Sprintf("%sa%d = e(y,V)^c.e(g,V)^-zsig.e(g,g)^zv", pre, i), c.zeroE(c.eSub(e, a[i]))})
	}
	return conds
}

func (h *H) setEq(fn *ssa.Function, what string, got Bdd, H, Y *Elem, V []*Elem, D, C *Elem, a []*Elem, zs, zv []*Poly, zr, x *Poly, u int64) {
	h.exactly(fn, what, got, h.ulEqs("", H, Y, V, D, C, a, zs, zv, zr, x, u))
	h.sample("verdict = and of %d conditions", 2*len(V)+1)
}

// ---------- refusing ----------

func runRefuse(r *Run) {
	r.rule("ProveSet returns an error for every symbolic element in the gaps between the members of the set; ProveUL returns an error if the digit at some position has no signature, and Prove then returns an error too")
	eachSet(r, func(h *H, s setCase) {
		p := h.setup(h.fn(ccsPkg, "SetupSet"), nil, h.ints(s.s...))
		prove := h.fn(ccsPkg, "ProveSet")
		st0, care0 := *h.st, h.in.care
		try := func(what string, x *Poly) {
			*h.st, h.in.care = st0, care0
			t := h.pure(prove, num(x), h.bigV(h.c.sym("r", nil, nil)), p).(*AggV)
			h.isErr(t.f[1], prove, "for "+what+", which is not in the set")
		}
		// gaps
		var ks []*big.Int
		for _, e := range s.s {
			if k, ok := e.isConst(); ok {
				ks = append(ks, k)
			}
		}
		if len(ks) == len(s.s) {
			lo := new(big.Int).Neg(new(big.Int).Lsh(b1, 63))
			end := subB(new(big.Int).Lsh(b1, 63), 1)
			for i := range ks {
				for j := i + 1; j < len(ks); j++ {
					if ks[j].Cmp(ks[i]) < 0 {
						ks[i], ks[j] = ks[j], ks[i]
					}
				}
			}
			for i, k := range append(ks, new(big.Int).Add(end, b1)) {
				hi := subB(k, 1)
				if lo.Cmp(hi) == 0 {
					try(lo.String(), cst(lo))
				} else if lo.Cmp(hi) < 0 {
					try(fmt.Sprintf("x in [%s,%s]", lo, hi), h.c.sym(fmt.Sprintf("x%d", i), lo, hi))
				}
				lo = new(big.Int).Add(k, b1)
			}
			return
		}
		// symbolic set: an element that differs from all members
		x := h.c.sym("x", new(big.Int).Neg(new(big.Int).Lsh(b1, 63)), subB(new(big.Int).Lsh(b1, 63), 1))
		for _, e := range s.s {
			h.in.care = h.c.and(h.in.care, h.c.not(h.c.zeroInt(sub(e, x))))
		}
		care0 = h.in.care
		try("x different from all members", x)
	})
	r.sub("empty set", func(h *H) {
		h.ccs()
		p := h.setup(h.fn(ccsPkg, "SetupSet"), nil, h.mkSlice("set", nil))
		prove := h.fn(ccsPkg, "ProveSet")
		x := h.c.sym("x", new(big.Int).Neg(new(big.Int).Lsh(b1, 63)), subB(new(big.Int).Lsh(b1, 63), 1))
		t := h.pure(prove, num(x), h.bigV(h.c.sym("r", nil, nil)), p).(*AggV)
		h.isErr(t.f[1], prove, "for an element of the empty set")
	})
	// parameters without the signature on one digit
	for _, k := range []struct {
		u int64
		l int
	}{{10, 1}, {10, 3}, {57, 4}, {57, 11}} {
		k := k
		r.sub(fmt.Sprintf("digit without signature u=%d l=%d", k.u, k.l), func(h *H) {
			h.ccs()
			h.symDigits(k.u)
			p := h.setup(h.fn(ccsPkg, "SetupUL"), nil, numi(k.u), numi(int64(k.l)))
			prove := h.fn(ccsPkg, "ProveUL")
			st0, care0 := *h.st, h.in.care
			for _, miss := range []int64{0, 1, k.u / 2, k.u - 1} {
				for pos := 0; pos < k.l; pos++ {
					*h.st, h.in.care = st0, care0
					// remove the signature on the digit miss
					h.in.eachMap(h.st, h.in.under(h.st, h.getF(ccsPkg, "paramsUL", p, "signatures")), func(g Bdd, id int) {
						a := h.st.heap.get(id).(*AggV)
						n := &AggV{}
						for _, e := range a.f {
							l, _ := one(e.(*AggV).f[0])
							if s, ok := l.(StrL); ok {
								if t, ok := s.literal(); ok && t == fmt.Sprint(miss) {
									continue
								}
							}
							n.f = append(n.f, e)
						}
						if len(n.f) != len(a.f)-1 {
							h.in.undec("signature on digit %d is not stored under its decimal form", miss)
						}
						h.st.heap = h.st.heap.set(id, n)
					})
					// all other digits are arbitrary
					x := scale(csti(miss), pow64(k.u, pos))
					if pos > 0 {
						x = add(x, h.c.sym(fmt.Sprintf("low%d", pos), b0, subB(pow64(k.u, pos), 1)))
					}
					if pos < k.l-1 {
						x = add(x, scale(h.c.sym(fmt.Sprintf("high%d", pos), b0, subB(pow64(k.u, k.l-1-pos), 1)), pow64(k.u, pos+1)))
					}
					t := h.pure(prove, h.bigV(x), h.bigV(h.c.sym("r", nil, nil)), p).(*AggV)
					h.isErr(t.f[1], prove, fmt.Sprintf("for a secret whose digit %d has no signature", pos))
					if k.u != 57 || pos > 1 || miss > 1 {
						continue
					}
					// the composed prover: a = 0, b such that both secrets are x
					for half := 0; half < 2; half++ {
						bb := h.c.sym("b", b1, bi(1<<20))
						secret := x
						if half == 0 { // x-b+u^l is the secret without signature
							secret = add(sub(x, cst(pow64(k.u, k.l))), bb)
						}
						a, b := csti(0), bb
						pp := h.object(ccsPkg, "params", "params", map[string]Val{"a": num(a), "b": num(b), "p": h.in.newPtr(h.st, h.typ(ccsPkg, "paramsUL"), "ul", p)})
						z := h.object(ccsPkg, "ccs08", "zkrp", map[string]Val{"p": pp, "x": h.bigV(secret), "r": h.bigV(h.c.sym("r", nil, nil))})
						pf := h.method(ccsPkg, "ccs08", "Prove")
						h.isErr(h.pureBut(ptrOf(z), pf, z), pf, fmt.Sprintf("when half %d cannot be proved", half+1))
					}
				}
			}
		})
	}
}

// ---------- [a,b) ----------

func runCCSRange(r *Run) {
	r.rule("Setup with symbolic a,b: l is the number of base-57 digits of b, an error for a>b and for b=1; Prove with a symbolic secret in [a,b) reports no error and Verify accepts; Verify on arbitrary pairs of proofs is exactly the conjunction of the equations of both and of C1 - C2 = (u^l-b+a).g2")
	const u = 57
	m63 := subB(new(big.Int).Lsh(b1, 63), 1)
	for l := 1; l <= 11; l++ {
		l := l
		lo, hi := pow64(u, l-1), subB(pow64(u, l), 1)
		if l == 1 {
			lo = b2
		}
		if hi.Cmp(m63) > 0 {
			hi = m63
		}
		mk := func(h *H) (a, b *Poly, z Val, setup *ssa.Function) {
			h.ccs()
			h.symDigits(u)
			b = h.c.sym("b", lo, hi)
			d := h.c.sym("b-a", b0, hi) // a = b - d
			a = sub(b, d)
			h.in.care = h.c.and(h.in.care, h.c.not(h.c.negB(a)))
			return a, b, h.object(ccsPkg, "ccs08", "zkrp", nil), h.method(ccsPkg, "ccs08", "Setup")
		}
		for _, k := range []string{"symbolic", "constant"} {
			k := k
			r.sub(fmt.Sprintf("l=%d complete, %s bounds", l, k), func(h *H) {
				h.ccs()
				h.symDigits(u)
				setup, prove, verify := h.method(ccsPkg, "ccs08", "Setup"), h.method(ccsPkg, "ccs08", "Prove"), h.method(ccsPkg, "ccs08", "Verify")
				// a = A, x = A + s, b = A + s + 1 + t
				var A, s, t *Poly
				if k == "symbolic" {
					// three shares that keep b in its class
					third := new(big.Int).Div(sub3(hi, lo), bi(3))
					if third.Sign() == 0 {
						return
					}
					A = h.c.sym("A", b0, third)
					s = h.c.sym("s", b0, third)
					t = h.c.sym("t", subB(lo, 1), subB(new(big.Int).Add(lo, third), 1))
					if l == 1 {
						t = h.c.sym("t", b1, bi(18))
					}
				} else {
					A, s, t = csti(0), h.c.sym("s", b0, subB(lo, 1)), nil
					t = sub(cst(subB(lo, 1)), s) // b = lo
				}
				x := add(A, s)
				b := add(add(x, csti(1)), t)
				z := h.object(ccsPkg, "ccs08", "zkrp", nil)
				e := h.pureBut(ptrOf(z), setup, z, num(A), num(b))
				sk := h.skOf()
				d := h.live(h.c.and(h.errB(e), h.signable(digitsOf(u))(sk)))
				h.check(d == bF, shortFn(setup), "setup reports an error%s", when(h.c, d))
				h.assume(h.c.not(h.errB(e)))
				h.narrowAll(z)
				zz := h.deref(z)
				zz = h.setF(ccsPkg, "ccs08", zz, "x", h.bigV(x))
				zz = h.setF(ccsPkg, "ccs08", zz, "r", h.bigV(h.c.sym("r", nil, nil)))
				h.in.store(h.st, z, zz)
				p := ptrOf(z)
				h.okErr(h.pureBut(p, prove, z), prove)
				v := h.pure(verify, z).(*AggV)
				h.okErr(v.f[1], verify)
				h.holds(verify, "an honest proof", v.f[0])
			})
		}
		r.sub(fmt.Sprintf("l=%d verify", l), func(h *H) {
			a, b, z, setup := mk(h)
			h.in.noIdent = false
			e := h.pureBut(ptrOf(z), setup, z, num(a), num(b))
			if d := h.live(h.errB(e)); h.check(d != bT, shortFn(setup), "setup always reports an error") && d != bF {
				d = h.live(h.c.and(d, h.signable(digitsOf(u))(h.skOf())))
				h.check(d == bF, shortFn(setup), "setup reports an error%s", when(h.c, d))
			}
			h.assume(h.c.not(h.errB(e)))
			verify := h.method(ccsPkg, "ccs08", "Verify")
			h.narrowAll(z)
			zz := h.deref(z)
			pv := h.deref(h.getF(ccsPkg, "ccs08", zz, "p"))
			ga, gb := h.in.onePoly(h.in.under(h.st, h.getF(ccsPkg, "params", pv, "a"))), h.in.onePoly(h.in.under(h.st, h.getF(ccsPkg, "params", pv, "b")))
			h.check(polyEq(ga, a) && polyEq(gb, b), shortFn(setup), "setup stores the bounds %s and %s", h.c.show(ga), h.c.show(gb))
			ul := h.deref(h.getF(ccsPkg, "params", pv, "p"))
			gu, gl := h.in.onePoly(h.in.under(h.st, h.getF(ccsPkg, "paramsUL", ul, "u"))), h.in.onePoly(h.in.under(h.st, h.getF(ccsPkg, "paramsUL", ul, "l")))
			uu, ok1 := gu.isConst()
			ll, ok2 := gl.isConst()
			if !h.check(ok1 && ok2 && new(big.Int).Exp(uu, ll, nil).Cmp(hi) > 0, shortFn(setup), "setup chooses u=%s, l=%s for bounds up to %s", h.c.show(gu), h.c.show(gl), hi) {
				return
			}
			H := h.in.bnElem(h.st, h.getF(ccsPkg, "paramsUL", ul, "H"), h.in.bnGroup(h.st, "G2"))
			Y := h.in.bnElem(h.st, h.getF(bbPkg, "Keypair", h.getF(ccsPkg, "paramsUL", ul, "kp"), "Pubk"), h.in.bnGroup(h.st, "G1"))
			n := int(ll.Int64())
			p1, p2 := h.ulProof("p1.", n), h.ulProof("p2.", n)
			run := func(c1, c2 *Poly) Bdd {
				pt := h.in.zero(h.typ(ccsPkg, "proof"))
				mkp := func(p *ulP, c *Poly) Val {
					v := h.in.zero(h.typ(ccsPkg, "proofUL"))
					for k, x := range p.fields(h, c) {
						v = h.setF(ccsPkg, "proofUL", v, k, x)
					}
					return v
				}
				pt = h.setF(ccsPkg, "proof", pt, "p1", mkp(p1, c1))
				pt = h.setF(ccsPkg, "proof", pt, "p2", mkp(p2, c2))
				h.in.store(h.st, z, h.setF(ccsPkg, "ccs08", zz, "proof_out", pt))
				t := h.pure(verify, z).(*AggV)
				h.okErr(t.f[1], verify)
				return h.boolB(t.f[0])
			}
			c1, c2 := h.c.sym("c1", nil, nil), h.c.sym("c2", nil, nil)
			R := run(c1, c2)
			x1, _ := h.challenge(R, c1)
			x2, _ := h.challenge(R, c2)
			if !h.check(x1 != nil && x2 != nil, shortFn(verify), "the challenges of both proofs are not compared with recomputed ones") {
				return
			}
			got := run(x1, x2)
			conds := h.ulEqs("first: ", H, Y, p1.V, p1.D, p1.C, p1.a, p1.zs, p1.zv, p1.zr, x1, uu.Int64())
			conds = append(conds, h.ulEqs("second: ", H, Y, p2.V, p2.D, p2.C, p2.a, p2.zs, p2.zv, p2.zr, x2, uu.Int64())...)
			link := h.c.eSub(h.c.eSub(p1.C, p2.C), h.c.eScale(h.c.base(h.in.bnGroup(h.st, "G2"), "g2"), add(sub(cst(new(big.Int).Exp(uu, ll, nil)), b), a)))
			conds = append(conds, namedB{"C1/C2 = g^(u^l-b+a)", h.c.zeroE(link)})
			h.exactly(verify, "a pair of proofs", got, conds)
		})
	}
	r.sub("rejected bounds", func(h *H) {
		h.ccs()
		setup := h.method(ccsPkg, "ccs08", "Setup")
		min := new(big.Int).Neg(new(big.Int).Lsh(b1, 63))
		st0, care0 := *h.st, h.in.care
		try := func(why string, a, b *Poly) {
			*h.st, h.in.care = st0, care0
			z := h.object(ccsPkg, "ccs08", "zkrp", nil)
			h.isErr(h.pureBut(ptrOf(z), setup, z, num(a), num(b)), setup, why)
		}
		// a > b in all sign combinations: a = b + 1 + d
		for i, k := range []struct{ blo, bhi, dhi *big.Int }{{b0, new(big.Int).Lsh(b1, 62), subB(new(big.Int).Lsh(b1, 62), 2)}, {new(big.Int).Lsh(b1, 61), new(big.Int).Lsh(b1, 61), new(big.Int).Lsh(b1, 62)}, {min, bi(-1), new(big.Int).Lsh(b1, 62)}, {min, bi(-1), m63}} {
			b := cst(k.blo)
			if k.blo.Cmp(k.bhi) < 0 {
				b = h.c.sym(fmt.Sprintf("b%d", i), k.blo, k.bhi)
			}
			try("for a > b", add(add(b, csti(1)), h.c.sym(fmt.Sprintf("d%d", i), b0, k.dhi)), b)
		}
		try("for b = 1", csti(0), csti(1))
		try("for a = b = 1", csti(1), csti(1))
		try("for b = 1", h.c.sym("an", min, bi(-1)), csti(1))
	})
}

func sub3(a, b *big.Int) *big.Int { return new(big.Int).Sub(a, b) }

// ptrOf is the set with the object behind a pointer.
func ptrOf(v Val) map[int]bool {
	if p, ok := ptr1(v); ok {
		return map[int]bool{p.obj: true}
	}
	return nil
}
