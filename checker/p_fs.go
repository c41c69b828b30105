package main

// C04: Fiat-Shamir challenges.

import (
	"fmt"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { props["C04"] = runFS }

// lossy: the value does not determine its argument.
func lossy(a *atomInfo) bool {
	switch a.kind {
	case aDiv, aBit, aBitLen:
		return true
	case aMod:
		return a.m != nil && a.m.BitLen() < 250
	}
	return false
}

// deps collects what a number is computed from: symbols, group elements and
// the coordinates of points. Hashes depend on what they are made from.
func (c *Ctx) deps(p *Poly, out map[string]bool, seen map[string]bool) {
	if p == nil {
		return
	}
	for _, t := range p.t {
		for i := 0; i+6 <= len(t.m); i += 6 {
			c.depsA(c.atoms[atomOf(t.m[i:])], out, seen)
		}
	}
}

func (c *Ctx) depsA(a *atomInfo, out map[string]bool, seen map[string]bool) {
	k := fmt.Sprint("a", a.id)
	if seen[k] {
		return
	}
	seen[k] = true
	if seen["strict"] && lossy(a) {
		return
	}
	if a.arg != nil {
		c.deps(a.arg, out, seen)
	}
	switch d := a.data.(type) {
	case Piece:
		c.depsP(d.sub, out, seen)
		return
	case *coordRef:
		c.depsE(d.e, out, seen)
		out[map[bool]string{false: "X of ", true: "Y of "}[d.y]+d.e.Key()] = true
		return
	}
	if a.kind == aSym {
		out[a.name] = true
	}
}

func (c *Ctx) depsP(ps []Piece, out map[string]bool, seen map[string]bool) {
	for _, x := range ps {
		c.deps(x.p, out, seen)
		if x.e != nil {
			c.depsE(x.e, out, seen)
			out["enc "+x.e.Key()] = true
		}
		c.depsP(x.sub, out, seen)
	}
}

func (c *Ctx) depsE(e *Elem, out map[string]bool, seen map[string]bool) {
	for _, t := range e.t {
		out["base "+t.base] = true
		if xy, ok := c.ptTab[t.base]; ok {
			c.deps(xy[0], out, seen)
			c.deps(xy[1], out, seen)
		}
		c.deps(t.co, out, seen)
	}
}

func (c *Ctx) depsOf(p *Poly) map[string]bool {
	m := map[string]bool{}
	c.deps(p, m, map[string]bool{})
	return m
}

// binds is depsOf without what p depends on only through a lossy operation.
func (c *Ctx) binds(p *Poly) map[string]bool {
	m := map[string]bool{}
	c.deps(p, m, map[string]bool{"strict": true})
	return m
}

// hashesIn adds the hashes that a number is an algebraic expression of.
func (c *Ctx) hashesIn(p *Poly, out map[atomID]bool, seen map[atomID]bool, strict bool) {
	if p == nil {
		return
	}
	for _, t := range p.t {
		for i := 0; i+6 <= len(t.m); i += 6 {
			a := c.atoms[atomOf(t.m[i:])]
			if seen[a.id] {
				continue
			}
			seen[a.id] = true
			if a.tag == "hash" {
				out[a.id] = true
				continue
			}
			if strict && lossy(a) {
				delete(seen, a.id)
				continue
			}
			c.hashesIn(a.arg, out, seen, strict)
		}
	}
}

func (c *Ctx) hashes(ps ...*Poly) []*atomInfo { return c.hashesOf(false, ps...) }

func (c *Ctx) hashesOf(strict bool, ps ...*Poly) []*atomInfo {
	m := map[atomID]bool{}
	for _, p := range ps {
		c.hashesIn(p, m, map[atomID]bool{}, strict)
	}
	var out []*atomInfo
	for _, a := range c.atoms {
		if m[a.id] {
			out = append(out, a)
		}
	}
	return out
}

// challengeSet are the challenges in the equations a verdict depends on.
type challengeSet struct {
	h         *H
	all       []*atomInfo
	dep, bind map[atomID]map[string]bool
	co        map[string][]*atomInfo // by group element
}

// whole: no hash is only used in part.
func (h *H) whole(ps ...*Poly) bool {
	n, m := len(h.c.hashes(ps...)), len(h.c.hashesOf(true, ps...))
	return h.check(n == m, "challenge", "only a part of a hash is used as a challenge, %d of %d hashes are used as a whole", m, n)
}

func (h *H) challengesOf(verdict Bdd) *challengeSet {
	s := &challengeSet{h: h, dep: map[atomID]map[string]bool{}, bind: map[atomID]map[string]bool{}, co: map[string][]*atomInfo{}}
	var ps []*Poly
	by := map[string][]*Poly{}
	for _, v := range h.c.support(verdict) {
		if v.elem == nil {
			continue
		}
		for _, t := range v.elem.t {
			ps = append(ps, t.co)
			by[t.base] = append(by[t.base], t.co)
		}
	}
	s.all = h.c.hashes(ps...)
	h.whole(ps...)
	for k, v := range by {
		s.co[k] = h.c.hashes(v...)
	}
	for _, a := range s.all {
		s.dep[a.id] = h.c.depsOf(h.c.atomPoly(a))
		s.bind[a.id] = h.c.binds(h.c.atomPoly(a))
	}
	return s
}

func xy(names ...string) []string {
	var out []string
	for _, n := range names {
		out = append(out, n+".X", n+".Y")
	}
	return out
}

func missing(d map[string]bool, want []string) []string {
	var out []string
	for _, w := range want {
		if !d[w] {
			out = append(out, w)
		}
	}
	return out
}

func anyOf(d map[string]bool, ns []string) bool { return len(missing(d, ns)) < len(ns) }

// covers: some challenge of the list is computed from all of want and from none of not.
func (s *challengeSet) covers(fn *ssa.Function, what string, as []*atomInfo, want, not []string) []*atomInfo {
	var hit []*atomInfo
	best := want
	for _, a := range as {
		if anyOf(s.dep[a.id], not) {
			continue
		}
		m := missing(s.bind[a.id], want)
		if len(m) == 0 {
			hit = append(hit, a)
		} else if len(m) < len(best) {
			best = m
		}
	}
	s.h.check(len(hit) > 0, shortFn(fn), "%s: no challenge (of %d) is computed from all of %s; missing %s", what, len(as), strings.Join(want, " "), strings.Join(best, " "))
	return hit
}

// each: every challenge that depends on one of trigger is computed from all of want.
func (s *challengeSet) each(fn *ssa.Function, what string, trigger, want []string) {
	for _, a := range s.all {
		if trigger == nil || anyOf(s.dep[a.id], trigger) {
			m := missing(s.bind[a.id], want)
			s.h.check(len(m) == 0, shortFn(fn), "%s: a challenge is not computed from %s", what, strings.Join(m, " "))
		}
	}
}

func runFS(r *Run) {
	r.facts["level"] = "other"
	r.facts["explanation"] = "The equations that decide the verdict are extracted from the source with arbitrary proofs; every hash in their coefficients is traced back to the proof fields in its input."
	r.rule("range proof: every challenge in the verification equations is a hash whose input contains both coordinates of V, A and S; two different such hashes (y,z) multiply the generators; the coefficients of T1 and T2 contain a hash over V,A,S,T1,T2; the coefficient of the generator of the inner product contains a hash over the commitment, the claimed inner product and the generators; the coefficients of L_j and R_j contain a hash over the statement, and L_i, R_i for i<=j")
	r.rule("inner product argument: the challenge of round j contains P, L_i and R_i for i<=j; the first challenge of the prover contains P, the inner product and all generators")
	r.rule("HashBP of k points is computed from both coordinates of all of them, and the two results are different hashes")
	r.rule("signature based proofs: acceptance implies that the challenge equals a hash over all a_i, D, C and V_i")
	r.rule("verifying an honest proof computes no hash that proving did not compute")
	for k := 1; k <= 8; k++ {
		k := k
		r.sub(fmt.Sprintf("HashBP of %d points", k), func(h *H) {
			h.bp()
			h.in.noNil = true
			fn := h.fn(bpPkg, "HashBP")
			es, vs := h.anyPoints("p", k)
			t := h.pure(fn, h.mkSlice("points", vs)).(*AggV)
			var want []string
			for i := range es {
				want = append(want, xy(fmt.Sprintf("p%d", i))...)
			}
			a, b := h.numAt(t.f[0]), h.numAt(t.f[1])
			for i, p := range []*Poly{a, b} {
				m := missing(h.c.binds(p), want)
				h.check(len(m) == 0, shortFn(fn), "result %d does not depend on %s", i, strings.Join(m, " "))
				h.check(len(h.c.hashes(p)) == 1, shortFn(fn), "result %d is not a hash", i)
			}
			ha, hb := h.c.hashes(a), h.c.hashes(b)
			h.check(len(ha) == 1 && len(hb) == 1 && pieceOf(ha[0]) != pieceOf(hb[0]), shortFn(fn), "both results are hashes of the same bytes")
		})
	}
	for _, n := range bpSizes {
		n := n
		r.sub(fmt.Sprintf("range proof N=%d", n), func(h *H) {
			h.bp()
			h.in.noNil = true
			verify := h.method(bpPkg, "BulletProof", "Verify")
			f := h.bpAny(n)
			f.other = "unrelated"
			v := h.pure(verify, h.box(bpPkg, "BulletProof", f.val(h))).(*AggV)
			s := h.challengesOf(h.boolB(v.f[0]))
			first := xy("V", "A", "S")
			later := append(xy("T1", "T2", "Commit"), "Tprime")
			var rounds []string
			for i := 0; i < lg(n); i++ {
				rounds = append(rounds, xy(fmt.Sprintf("L%d", i), fmt.Sprintf("R%d", i))...)
			}
			late := xy("Commit")
			late = append(late, "Tprime")
			late = append(late, rounds...)
			for _, a := range s.all {
				if !anyOf(s.dep[a.id], late) {
					m := missing(s.bind[a.id], first)
					h.check(len(m) == 0, shortFn(verify), "a challenge is not computed from %s", strings.Join(m, " "))
				}
			}
			s.each(verify, "after T1, T2", xy("T1", "T2"), append(xy("T1", "T2"), first...))
			for _, T := range []string{"T1", "T2", "S"} {
				s.covers(verify, "coefficient of "+T, s.co[ptN(T)], append(xy("T1", "T2"), first...), append(append([]string{}, rounds...), "Tprime"))
			}
			s.covers(verify, "coefficient of V", s.co[ptN("V")], first, later)
			if n > 1 {
				var gens []*atomInfo
				for _, k := range sortedK(s.co) {
					if strings.HasPrefix(k, "H(") {
						gens = append(gens, s.co[k]...)
					}
				}
				ids := map[string]bool{}
				for _, a := range s.covers(verify, "generators", gens, first, later) {
					ids[pieceOf(a)] = true
				}
				h.check(len(ids) >= 2, shortFn(verify), "there is only one challenge in place of y and z")
			}
			ip := append(xy("Commit"), "Tprime")
			if n > 1 { // through h'
				ip = append(ip, first...)
			}
			s.each(verify, "inner product", late, ip)
			U := "H(" + h.strGlobal(bpPkg, "SEEDU") + ")"
			s.covers(verify, "coefficient of the generator of the inner product", s.co[U], ip, rounds)
			var gens []string
			G, H, g, hh := h.setupGens(n)
			_, _ = G, H
			for i := range g { // h_0 is the same in both vectors
				gens = append(gens, "base "+g[i].t[0].base, "base "+hh[i].t[0].base)
			}
			s.covers(verify, "coefficient of the generator of the inner product", s.co[U], gens, rounds)
			for j := 0; j < lg(n); j++ {
				for _, k := range []string{"L", "R"} {
					nm := fmt.Sprintf("%s%d", k, j)
					s.covers(verify, "coefficient of "+nm, s.co[ptN(nm)], append(append([]string{}, ip...), rounds[:4*(j+1)]...), rounds[4*(j+1):])
				}
				s.each(verify, nm2("after", j), rounds[4*j:4*(j+1)], append(append([]string{}, ip...), rounds[:4*(j+1)]...))
			}
			h.sample("N=%d: %d challenges, %d group elements with challenges in the coefficient", n, len(s.all), len(s.co))
		})
		r.sub(fmt.Sprintf("inner product N=%d", n), func(h *H) {
			h.bp()
			h.in.noNil = true
			verify := h.method(bpPkg, "InnerProductProof", "Verify")
			f := h.ippAny(n)
			v := h.pure(verify, h.box(bpPkg, "InnerProductProof", f.val(h))).(*AggV)
			s := h.challengesOf(h.boolB(v.f[0]))
			want := xy("P")
			s.each(verify, "all", nil, want)
			for j := 0; j < lg(n); j++ {
				L, R := fmt.Sprintf("L%d", j), fmt.Sprintf("R%d", j)
				want = append(want, xy(L, R)...)
				var rest []string
				for i := j + 1; i < lg(n); i++ {
					rest = append(rest, xy(fmt.Sprintf("L%d", i), fmt.Sprintf("R%d", i))...)
				}
				for _, k := range []string{L, R} {
					s.covers(verify, "coefficient of "+k, s.co[ptN(k)], want, rest)
				}
				s.each(verify, nm2("after", j), xy(L, R), want)
			}
		})
	}
	for _, n := range []int{1, 2, 4} {
		n := n
		r.sub(fmt.Sprintf("inner product prover n=%d", n), func(h *H) {
			h.bp()
			h.in.noNil = true
			setup, prove := h.fn(bpPkg, "setupInnerProduct"), h.fn(bpPkg, "proveInnerProduct")
			_, gv := h.anyPoints("g", n)
			_, hv := h.anyPoints("h", n)
			_, H := h.anyPoint("H")
			cc := h.c.sym("c", nil, nil)
			t := h.pure(setup, H, h.mkSlice("g", gv), h.mkSlice("h", hv), h.bigV(cc), numi(int64(n))).(*AggV)
			h.okErr(t.f[1], setup)
			_, P := h.anyPoint("P")
			_, av := h.vec("a", n)
			_, bv := h.vec("b", n)
			t = h.pure(prove, av, bv, P, t.f[0]).(*AggV)
			want := append(xy("P"), "c")
			for i := 0; i < n; i++ {
				want = append(want, xy(fmt.Sprintf("g%d", i), fmt.Sprintf("h%d", i))...)
			}
			U := h.in.p256Elem(h.st, h.getF(bpPkg, "InnerProductProof", t.f[0], "U"))
			var ps []*Poly
			for _, x := range U.t {
				ps = append(ps, x.co)
			}
			hs := h.c.hashes(ps...)
			if h.check(len(hs) == 1, shortFn(prove), "the generator of the inner product contains %d challenges", len(hs)) {
				m := missing(h.c.binds(h.c.atomPoly(hs[0])), want)
				h.check(len(m) == 0, shortFn(prove), "the first challenge does not depend on %s", strings.Join(m, " "))
			}
		})
	}
	for _, n := range []int{1, 2, 4, 8} {
		n := n
		r.sub(fmt.Sprintf("same hashes N=%d", n), func(h *H) {
			h.bp()
			h.in.noIdent, h.in.noNil = true, true
			setup, prove, verify := h.fn(bpPkg, "Setup"), h.fn(bpPkg, "Prove"), h.method(bpPkg, "BulletProof", "Verify")
			t := h.call(setup, numi(int64(1)<<uint(n))).(*AggV)
			x := h.c.sym("secret", b0, subB(pow64(2, n), 1))
			t = h.call(prove, h.bigV(x), t.f[0]).(*AggV)
			h.noNewHash(verify, func() { h.call(verify, h.box(bpPkg, "BulletProof", t.f[0])) })
		})
	}
	r.sub("same hashes set", func(h *H) {
		h.ccs()
		s := h.sets()[1]
		p := h.setup(h.fn(ccsPkg, "SetupSet"), h.signable(s.s), h.ints(s.s...))
		prove, verify := h.fn(ccsPkg, "ProveSet"), h.fn(ccsPkg, "VerifySet")
		t := h.call(prove, num(s.s[1]), h.bigV(h.c.sym("r", nil, nil)), p).(*AggV)
		h.noNewHash(verify, func() {
			h.call(verify, h.in.newPtr(h.st, h.typ(ccsPkg, "proofSet"), "proof", t.f[0]), h.in.newPtr(h.st, h.typ(ccsPkg, "paramsSet"), "params", p))
		})
	})
	r.sub("same hashes digits", func(h *H) {
		h.ccs()
		h.symDigits(57)
		p := h.setup(h.fn(ccsPkg, "SetupUL"), h.signable(digitsOf(57)), numi(57), numi(3))
		prove, verify := h.fn(ccsPkg, "ProveUL"), h.fn(ccsPkg, "VerifyUL")
		t := h.call(prove, h.bigV(h.c.sym("x", b0, subB(pow64(57, 3), 1))), h.bigV(h.c.sym("r", nil, nil)), p).(*AggV)
		h.noNewHash(verify, func() {
			h.call(verify, h.in.newPtr(h.st, h.typ(ccsPkg, "proofUL"), "proof", t.f[0]), h.in.newPtr(h.st, h.typ(ccsPkg, "paramsUL"), "params", p))
		})
	})
	enc := func(h *H, fn *ssa.Function, x *Poly, es ...*Elem) {
		hs := h.c.hashes(x)
		if !h.check(len(hs) == 1, shortFn(fn), "the challenge is not a hash") || !h.whole(x) {
			return
		}
		d := h.c.binds(h.c.atomPoly(hs[0]))
		for _, e := range es {
			h.check(d["enc "+e.Key()], shortFn(fn), "the challenge is not computed from %s", h.c.showE(e))
		}
	}
	r.sub("set", func(h *H) {
		h.ccs()
		h.in.noIdent = false
		fn := h.fn(ccsPkg, "VerifySet")
		_, hv := h.bnBase("G2", "H")
		_, yv := h.bnBase("G1", "Y")
		kp := h.setF(bbPkg, "Keypair", h.in.zero(h.typ(bbPkg, "Keypair")), "Pubk", yv)
		pp := h.object(ccsPkg, "paramsSet", "params", map[string]Val{"H": hv, "kp": kp})
		V, Vv := h.bnBase("G2", "V")
		D, Dv := h.bnBase("G2", "D")
		C, Cv := h.bnBase("G2", "C")
		a, av := h.bnBase("GT", "a")
		ch := h.c.sym("c", nil, nil)
		n := func(s string) Val { return h.bigV(h.c.sym(s, nil, nil)) }
		pr := h.object(ccsPkg, "proofSet", "proof", map[string]Val{"V": Vv, "D": Dv, "C": Cv, "a": av, "zsig": n("zsig"), "zv": n("zv"), "zr": n("zr"), "c": h.bigV(ch)})
		x, _ := h.challenge(h.boolB(h.pure(fn, pr, pp).(*AggV).f[0]), ch)
		if h.check(x != nil, shortFn(fn), "the challenge of the proof is not compared with a recomputed one") {
			enc(h, fn, x, V, D, C, a)
		}
	})
	for _, l := range r.w.constSizes([]int{1, 2, 3, 5, 8, 11, 12, 16, 20}, 48, []int{1}, r.w.fn(ccsPkg, "VerifyUL"), r.w.fn(utilPkg, "Hash")) {
		if l == 0 {
			continue
		}
		l := l
		r.sub(fmt.Sprintf("digits l=%d", l), func(h *H) {
			h.ccs()
			h.in.noIdent = false
			fn := h.fn(ccsPkg, "VerifyUL")
			_, hv := h.bnBase("G2", "H")
			_, yv := h.bnBase("G1", "Y")
			kp := h.setF(bbPkg, "Keypair", h.in.zero(h.typ(bbPkg, "Keypair")), "Pubk", yv)
			pp := h.object(ccsPkg, "paramsUL", "params", map[string]Val{"H": hv, "kp": kp, "u": numi(57), "l": numi(int64(l))})
			ul := h.ulProof("", l)
			ch := h.c.sym("c", nil, nil)
			x, _ := h.challenge(h.boolB(h.pure(fn, h.object(ccsPkg, "proofUL", "proof", ul.fields(h, ch)), pp).(*AggV).f[0]), ch)
			if h.check(x != nil, shortFn(fn), "the challenge of the proof is not compared with a recomputed one") {
				enc(h, fn, x, append(append([]*Elem{ul.D, ul.C}, ul.V...), ul.a...)...)
			}
		})
	}
}

func ptN(s string) string { return "pt(" + s + ".X," + s + ".Y)" }

func nm2(s string, j int) string { return fmt.Sprintf("%s L%d, R%d", s, j, j) }

func pieceOf(a *atomInfo) string {
	if p, ok := a.data.(Piece); ok {
		return p.key
	}
	return a.name
}

// noNewHash: f computes no hash that was not computed before.
func (h *H) noNewHash(fn *ssa.Function, f func()) {
	old := map[string]bool{}
	for _, a := range h.c.atoms {
		if a.tag == "hash" {
			old[pieceOf(a)] = true
		}
	}
	mark := len(h.c.atoms)
	f()
	n := 0
	for _, a := range h.c.atoms[mark:] {
		if a.tag == "hash" && !old[pieceOf(a)] {
			n++
		}
	}
	h.check(n == 0, shortFn(fn), "verification of an honest proof hashes %d inputs that proving did not hash", n)
	h.check(len(old) > 0, shortFn(fn), "proving hashes nothing")
}

func sortedK(m map[string][]*atomInfo) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
