package main

// C05, C06, C16, C38, C39: intervals, setup, hash to point.

import (
	"fmt"
	"go/token"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

func init() {
	props["C05"] = runGeneric
	props["C06"] = runSetup
	props["C16"] = runMapToGroup
	props["C38"] = runLink
	props["C39"] = runSecondGen
}

// ---------- C06 ----------

func (h *H) rangeEnd(lo, hi *big.Int) *Poly {
	if lo.Cmp(hi) == 0 {
		return cst(lo)
	}
	return h.c.sym("b", lo, hi)
}

func runSetup(r *Run) {
	r.facts["level"] = "proof"
	r.rule("Setup is interpreted for every 64-bit number, split into the powers of two and the open intervals between them: exactly the powers 2^N, N in {1,2,4,8,16,32}, give no error; then N is the exponent, G is the base point, H and the 2N vector elements are hashes to the curve of pairwise different constant strings")
	good := map[int]bool{1: true, 2: true, 4: true, 8: true, 16: true, 32: true}
	prep := func(h *H) {
		h.bp()
		h.in.noNil = true
	}
	for e := 0; e <= 62; e++ {
		e := e
		r.sub(fmt.Sprintf("2^%d", e), func(h *H) {
			prep(h)
			setup := h.fn(bpPkg, "Setup")
			t := h.pure(setup, num(cst(new(big.Int).Lsh(b1, uint(e))))).(*AggV)
			if !good[e] {
				h.isErr(t.f[1], setup, fmt.Sprintf("for the range end 2^%d", e))
				return
			}
			h.okErr(t.f[1], setup)
			get := func(k string) Val { return h.getF(bpPkg, "BulletProofSetupParams", t.f[0], k) }
			N, ok := h.in.constInt(h.in.under(h.st, get("N")))
			h.check(ok && N == int64(e), shortFn(setup), "N is %d, not %d", N, e)
			G := h.in.p256Elem(h.st, get("G"))
			h.check(elemEq(G, h.c.base(G.g, "g")), shortFn(setup), "G is %s, not the base point", h.c.showE(G))
			all := []*Elem{h.in.p256Elem(h.st, get("H"))}
			g, hh := h.pts(get("Gg")), h.pts(get("Hh"))
			h.check(len(g) == e && len(hh) == e, shortFn(setup), "%d and %d generators instead of %d", len(g), len(hh), e)
			all = append(append(all, g...), hh...)
			seen := map[string]int{}
			for i, x := range all {
				ok := len(x.t) == 1 && polyEq(x.t[0].co, csti(1)) && len(x.t[0].base) > 2 && x.t[0].base[:2] == "H("
				if h.check(ok, shortFn(setup), "generator %d is %s, not the hash of a string", i, h.c.showE(x)) {
					if j, dup := seen[x.t[0].base]; dup {
						h.fail("definite", shortFn(setup), "generators %d and %d are equal", j, i)
					}
					seen[x.t[0].base] = i
				}
			}
			u := "H(" + h.strGlobal(bpPkg, "SEEDU") + ")"
			_, dup := seen[u]
			h.check(!dup, shortFn(setup), "the generator of the inner product is one of the others")
			h.sample("2^%d: %d generators", e, len(all))
		})
	}
	type iv struct{ lo, hi *big.Int }
	var ivs []iv
	min := new(big.Int).Neg(new(big.Int).Lsh(b1, 63))
	ivs = append(ivs, iv{min, min}, iv{new(big.Int).Add(min, b1), bi(-1)}, iv{b0, b0})
	for e := 1; e <= 62; e++ {
		ivs = append(ivs, iv{new(big.Int).Add(new(big.Int).Lsh(b1, uint(e)), b1), subB(new(big.Int).Lsh(b1, uint(e+1)), 1)})
	}
	for _, v := range ivs {
		v := v
		if v.lo.Cmp(v.hi) > 0 {
			continue
		}
		r.sub(fmt.Sprintf("from %s to %s", v.lo, v.hi), func(h *H) {
			prep(h)
			// the decision whether a number is a power of two is proved apart, if there is such a function
			if p2 := h.r.w.fn(bpPkg, "IsPowerOfTwo"); p2 != nil && len(p2.Params) == 1 {
				ans := h.attempt(func() Val { return h.pure(p2, num(h.rangeEnd(v.lo, v.hi))) })
				if bv, ok := ans.(BoolV); ok {
					no := h.live(bv.b)
					if no == bF || h.c.emptyLinear(no) {
						key := h.rangeEnd(v.lo, v.hi).Key()
						h.in.sums[full(bpPkg, "", "IsPowerOfTwo")] = func(in *Interp, st *State, fn *ssa.Function, args []Val, pos token.Pos) (Val, bool) {
							if p, ok := in.intOf(in.under(st, args[0])); ok && p.Key() == key {
								return BoolV{bF}, true
							}
							return nil, false
						}
					}
				}
			}
			setup := h.fn(bpPkg, "Setup")
			t := h.pure(setup, num(h.rangeEnd(v.lo, v.hi))).(*AggV)
			h.isErr(t.f[1], setup, fmt.Sprintf("for range ends from %s to %s", v.lo, v.hi))
		})
	}
	r.sub("SetupGeneric", func(h *H) {
		prep(h)
		fn := h.fn(bpPkg, "SetupGeneric")
		a, b := h.c.sym("a", min, subB(new(big.Int).Lsh(b1, 63), 1)), h.c.sym("b", min, subB(new(big.Int).Lsh(b1, 63), 1))
		t := h.pure(fn, num(a), num(b)).(*AggV)
		h.okErr(t.f[1], fn)
		pp := h.deref(t.f[0])
		for k, want := range map[string]*Poly{"A": a, "B": b} {
			got, ok := h.in.intOf(h.in.under(h.st, h.getF(bpPkg, "bprp", pp, k)))
			h.check(ok && polyEq(got, want), shortFn(fn), "%s is not the end of the interval", k)
		}
		for _, k := range []string{"BP1", "BP2"} {
			N, ok := h.in.constInt(h.in.under(h.st, h.getF(bpPkg, "BulletProofSetupParams", h.getF(bpPkg, "bprp", pp, k), "N")))
			h.check(ok && N == 32, shortFn(fn), "%s is for %d bits", k, N)
		}
	})
}

// ---------- C05 ----------

func runGeneric(r *Run) {
	r.facts["level"] = "other"
	r.facts["explanation"] = "ProveGeneric and Verify are interpreted with symbolic interval ends and secret; the verdict on arbitrary pairs of proofs is compared with the equations of both halves."
	r.rule("for all A<=x<B with B-A<=2^32 as 64-bit numbers: SetupGeneric and ProveGeneric report no error, P1.V commits to x-B+2^32 and P2.V to x-A with fresh randomness, and Verify accepts")
	r.rule("with arbitrary halves the verdict is exactly the conjunction of the equations of both; malformed halves are rejected")
	prove := func(h *H, xa, xb *Poly, A, B *Poly, x *Poly) {
		h.bp()
		h.in.noIdent, h.in.noNil = true, true
		setup, prove, verify := h.fn(bpPkg, "SetupGeneric"), h.fn(bpPkg, "ProveGeneric"), h.method(bpPkg, "ProofBPRP", "Verify")
		t := h.pure(setup, num(A), num(B)).(*AggV)
		h.okErr(t.f[1], setup)
		first := len(h.in.randOf)
		t = h.pure(prove, h.bigV(x), t.f[0]).(*AggV)
		h.okErr(t.f[1], prove)
		for k, s := range map[string]*Poly{"P1": xb, "P2": xa} {
			h.pedersen(prove, h.getF(bpPkg, "BulletProof", h.getF(bpPkg, "ProofBPRP", t.f[0], k), "V"), s, first)
		}
		v := h.pure(verify, h.box(bpPkg, "ProofBPRP", t.f[0])).(*AggV)
		h.okErr(v.f[1], verify)
		h.holds(verify, "an honest proof", v.f[0])
	}
	w := new(big.Int).Lsh(b1, 32)
	lim := new(big.Int).Lsh(b1, 63)
	// x = A+d = B+e-2^32 with d, e in [0,2^32)
	r.sub("complete, by lower end", func(h *H) {
		d, e := h.c.sym("d", b0, subB(w, 1)), h.c.sym("e", b0, subB(w, 1))
		A := h.c.sym("A", new(big.Int).Neg(lim), new(big.Int).Sub(lim, new(big.Int).Lsh(b1, 34)))
		x := add(A, d)
		prove(h, d, e, A, sub(add(x, cst(w)), e), x)
	})
	r.sub("complete, by upper end", func(h *H) {
		d, e := h.c.sym("d", b0, subB(w, 1)), h.c.sym("e", b0, subB(w, 1))
		B := h.c.sym("B", new(big.Int).Sub(new(big.Int).Lsh(b1, 34), lim), subB(lim, 1))
		x := sub(add(B, e), cst(w))
		prove(h, d, e, sub(x, d), B, x)
	})
	pair := func(h *H, p1, p2 Val) Val {
		v := h.in.zero(h.typ(bpPkg, "ProofBPRP"))
		v = h.setF(bpPkg, "ProofBPRP", v, "P1", p1)
		return h.setF(bpPkg, "ProofBPRP", v, "P2", p2)
	}
	for _, nn := range [][2]int{{1, 1}, {2, 2}, {1, 4}, {32, 8}, {32, 32}} {
		nn := nn
		r.sub(fmt.Sprintf("exact N=%d,%d", nn[0], nn[1]), func(h *H) {
			h.bp()
			h.in.noNil = true
			verify := h.method(bpPkg, "ProofBPRP", "Verify")
			f1, f2 := h.bpAnyP("1.", nn[0]), h.bpAnyP("2.", nn[1])
			v := h.pure(verify, h.box(bpPkg, "ProofBPRP", pair(h, f1.val(h), f2.val(h)))).(*AggV)
			got := h.boolB(v.f[0])
			// every half that is not right is enough to reject
			c := h.c
			all := bT
			for i, f := range []*bpF{f1, f2} {
				x := h.ippChallenge(f, got)
				if !h.check(x != nil, shortFn(verify), "the verdict does not depend on the inner product of half %d", i+1) {
					return
				}
				for _, n := range f.conds(h, x) {
					if bad := h.possible(c.and(got, c.not(n.b))); bad != bF {
						h.fail("definite", shortFn(verify), "a proof is accepted although in half %d it does not hold that %s%s", i+1, n.name, when(c, bad))
					} else {
						h.check(true, "", "")
					}
					all = c.and(all, n.b)
				}
			}
			h.check(h.possible(c.and(all, c.not(got))) == bF, shortFn(verify), "two right halves are not accepted")
			h.check(h.live(all) != bF, shortFn(verify), "nothing is accepted")
		})
	}
	r.sub("malformed", func(h *H) {
		h.bp()
		h.in.noNil = true
		verify, one := h.method(bpPkg, "ProofBPRP", "Verify"), h.method(bpPkg, "BulletProof", "Verify")
		for half := 0; half < 2; half++ {
			half := half
			try := func(what string, edit func(f *bpF)) {
				f := [2]*bpF{h.bpAnyP("1.", 2), h.bpAnyP("2.", 2)}
				edit(f[half])
				// the other half is right
				o := h.pure(one, h.box(bpPkg, "BulletProof", f[1-half].val(h))).(*AggV)
				st := *h.st
				defer func() { *h.st = st }()
				h.assume(h.boolB(o.f[0]))
				h.rejected(verify, fmt.Sprintf("%s in half %d", what, half+1), true, func() Val { return h.box(bpPkg, "ProofBPRP", pair(h, f[0].val(h), f[1].val(h))) })
			}
			for _, k := range bpPoints {
				k := k
				h.badPoints(k, func(what string, v Val) { try(what, func(f *bpF) { f.ptv[k] = v }) })
			}
			for _, k := range []string{"Taux", "Mu", "Tprime"} {
				try("no "+k, func(f *bpF) { f.num[k] = nilV() })
			}
			for _, m := range []int64{-1, 0, 3, 33, 64} {
				try(fmt.Sprintf("size %d", m), func(f *bpF) { f.N, f.ipN = m, m })
			}
		}
	})
}

// ippChallenge finds the challenge for the inner product in a verdict.
func (h *H) ippChallenge(f *bpF, got Bdd) *Poly {
	for _, test := range []func(Bdd) Bdd{h.live, h.possible} {
		for _, x := range h.hashOver(0, f.tprime) {
			all := bT
			for _, n := range f.conds(h, x) {
				all = h.c.and(all, n.b)
			}
			if test(h.c.and(got, h.c.not(all))) == bF {
				return x
			}
		}
	}
	if xs := h.hashOver(0, f.tprime); len(xs) > 0 {
		return xs[0]
	}
	return nil
}

// ---------- C16 ----------

func runMapToGroup(r *Run) {
	r.facts["level"] = "proof"
	r.rule("MapToGroup is interpreted for an arbitrary string: the result under 'the hash of counter i is the first with a square x^3+7' has x = hash(i,string) mod P and y a square root of x^3+7; y^2 = x^3+7 mod P follows; the counters are 0 to 255, and an error is returned if none of them gives a point")
	r.rule("F(x) = x^3+7 mod P for every integer")
	r.sub("any string", func(h *H) {
		in, c := h.in, h.c
		in.bytesSummaries()
		h.init(p256Pkg, bpPkg)
		in.noNil = true
		P := in.curveParam(h.st, "P")
		fn := h.fn(p256Pkg, "MapToGroup")
		m := StrL{[]Piece{{k: "txt", key: "m", n: -1}}}
		t := h.pure(fn, leaf(m)).(*AggV)
		none := bT
		seen := 0
		err := h.errB(t.f[1])
		ptr := in.under(h.st, t.f[0])
		for i := 0; i < 256; i++ {
			ps := normPieces(append([]Piece{lit(itoa(i))}, m.ps...))
			x := in.modc(in.signedHash(in.shaPiece(ps)), P)
			fx := c.reduce(add(c.mul(c.mul(x, x), x), csti(7)), P)
			is := c.condVar(&condInfo{key: "square:" + fx.Key() + P.Text(62), desc: c.show(fx) + " is a square"})
			here := c.and(none, is)
			none = c.and(none, c.not(is))
			h.check(h.live(c.and(here, err)) == bF, shortFn(fn), "an error although the hash of counter %d is on the curve", i)
			_ = ptr
			ok := true
			for _, a := range allAlts(ptr) {
				g := h.live(c.and(a.g, here))
				if g == bF {
					continue
				}
				p, isp := a.l.(PtrL)
				if !isp {
					ok = false
					continue
				}
				pt := in.loadP(h.st, p)
				gx := in.under(h.st, h.getF(p256Pkg, "P256", pt, "X"))
				gy := in.under(h.st, h.getF(p256Pkg, "P256", pt, "Y"))
				ok = ok && h.numUnder(gx, g, func(v *Poly, gg Bdd) bool { return polyEq(v, x) })
				ok = ok && h.numUnder(gy, g, func(v *Poly, gg Bdd) bool {
					d := c.reduce(sub(c.mul(v, v), fx), P)
					lo, hi := c.interval(v)
					return d.isZero() && lo != nil && lo.Sign() >= 0 && hi != nil && hi.Cmp(P) < 0
				})
				seen++
			}
			h.check(ok, shortFn(fn), "the point for counter %d is not (hash mod P, root of x^3+7)", i)
		}
		h.check(seen >= 256, shortFn(fn), "only %d counters lead to points", seen)
		h.check(h.live(c.and(none, c.not(err))) == bF, shortFn(fn), "no error although no counter below 256 gives a point")
		h.sample("256 counters")
	})
	r.sub("F", func(h *H) {
		h.init(p256Pkg, bpPkg)
		P := h.in.curveParam(h.st, "P")
		fn := h.fn(p256Pkg, "F")
		x := h.c.sym("x", nil, nil)
		t := h.pure(fn, h.bigV(x)).(*AggV)
		h.okErr(t.f[1], fn)
		h.residue(fn, "F(x)", h.numAt(t.f[0]), add(h.c.mul(h.c.mul(x, x), x), csti(7)), P)
	})
}

// ---------- C38, C39 ----------

func runLink(r *Run) {
	r.facts["level"] = "other"
	r.facts["explanation"] = "Known findings: see DESIGN.md. The verdict on two arbitrary halves is asked for a relation between the two commitments."
	r.rule("the verdict on a generic proof implies that V1 and V2 differ by a multiple of the base point")
	r.rule("both commitments of an honest generic proof contain the same secret, shifted by the ends of the interval: V1 - V2 = [2^32-B+A]g + [r]H")
	r.sub("the prover uses one secret", func(h *H) {
		h.bp()
		h.in.noIdent, h.in.noNil = true, true
		prove := h.fn(bpPkg, "ProveGeneric")
		lim := new(big.Int).Lsh(b1, 63)
		A, B := h.c.sym("A", new(big.Int).Neg(lim), subB(lim, 1)), h.c.sym("B", new(big.Int).Neg(lim), subB(lim, 1))
		t := h.pure(prove, h.bigV(h.c.sym("x", nil, nil)), h.bprpOf(A, B, 1)).(*AggV)
		h.okErr(t.f[1], prove)
		V := func(k string) *Elem {
			return h.in.p256Elem(h.st, h.getF(bpPkg, "BulletProof", h.getF(bpPkg, "ProofBPRP", t.f[0], k), "V"))
		}
		d := h.c.eSub(V("P1"), V("P2"))
		d = h.c.eSub(d, h.c.eScale(h.c.base(d.g, "g"), add(sub(A, B), cst(new(big.Int).Lsh(b1, 32)))))
		ok := true
		for _, x := range d.t {
			ok = ok && x.base == "H("+h.strGlobal(bpPkg, "SEEDH")+")"
		}
		h.check(ok, shortFn(prove), "the commitments differ by %s more than the shift", h.c.showE(d))
	})
	r.sub("the verdict links the two commitments", func(h *H) {
		h.bp()
		h.in.noNil = true
		verify := h.method(bpPkg, "ProofBPRP", "Verify")
		f1, f2 := h.bpAnyP("1.", 1), h.bpAnyP("2.", 1)
		v := h.in.zero(h.typ(bpPkg, "ProofBPRP"))
		v = h.setF(bpPkg, "ProofBPRP", v, "P1", f1.val(h))
		v = h.setF(bpPkg, "ProofBPRP", v, "P2", f2.val(h))
		got := h.boolB(h.pure(verify, h.box(bpPkg, "ProofBPRP", v)).(*AggV).f[0])
		linked := false
		for _, x := range h.c.support(got) {
			if x.elem == nil {
				continue
			}
			n := 0
			for _, t := range x.elem.t {
				if t.base == ptN("1.V") || t.base == ptN("2.V") {
					n++
				}
			}
			linked = linked || n == 2
		}
		h.check(linked, shortFn(verify), "no equation that decides the verdict contains both commitments: the halves may be proofs about different secrets")
	})
}

func (h *H) bprpOf(A, B *Poly, n int) Val {
	setup := h.fn(bpPkg, "Setup")
	bp := func() Val {
		t := h.call(setup, num(cst(pow64(2, n)))).(*AggV)
		h.okErr(t.f[1], setup)
		return t.f[0]
	}
	v := h.in.zero(h.typ(bpPkg, "bprp"))
	for _, f := range []struct {
		k string
		v Val
	}{{"A", num(A)}, {"B", num(B)}, {"BP1", bp()}, {"BP2", bp()}} {
		v = h.setF(bpPkg, "bprp", v, f.k, f.v)
	}
	return h.box(bpPkg, "bprp", v)
}

func runSecondGen(r *Run) {
	r.facts["level"] = "other"
	r.facts["explanation"] = "Known finding: see DESIGN.md (issue 12 in the source)."
	r.rule("the second generator in the parameters of SetupSet and SetupUL is not a known multiple of the first")
	chk := func(h *H, typ string, fn string, keys []*Poly, args ...Val) {
		f := h.fn(ccsPkg, fn)
		p := h.setup(f, h.signable(keys), args...)
		g2 := h.in.bnGroup(h.st, "G2")
		e := h.in.bnElem(h.st, h.getF(ccsPkg, typ, p, "H"), g2)
		known := len(e.t) == 0
		if len(e.t) == 1 && e.t[0].base == "g2" {
			_, known = e.t[0].co.isConst()
		}
		h.check(!known, shortFn(f), "the second generator is %s, a known multiple of the first", h.c.showE(e))
	}
	r.sub("SetupSet", func(h *H) {
		h.ccs()
		chk(h, "paramsSet", "SetupSet", []*Poly{csti(1), csti(2)}, h.ints(csti(1), csti(2)))
	})
	r.sub("SetupUL", func(h *H) {
		h.ccs()
		chk(h, "paramsUL", "SetupUL", digitsOf(3), numi(3), numi(2))
	})
}

func allAlts(v Val) []Alt {
	if g, ok := v.(*GV); ok {
		return g.alts
	}
	return nil
}

// numUnder: every number the pointer can stand for under g satisfies f.
func (h *H) numUnder(v Val, g Bdd, f func(p *Poly, g Bdd) bool) bool {
	n := 0
	for _, a := range allAlts(v) {
		ga := h.c.and(g, a.g)
		if ga == bF {
			continue
		}
		p, ok := a.l.(PtrL)
		if !ok {
			return false
		}
		for _, b := range allAlts(h.in.under(h.st, h.in.loadP(h.st, p))) {
			gb := h.c.and(ga, b.g)
			if gb == bF {
				continue
			}
			l, ok := b.l.(NumL)
			if !ok || !f(l.p, gb) {
				return false
			}
			n++
		}
	}
	return n > 0
}
