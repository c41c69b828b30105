package main

// C01 to C06, C16, C38: Bulletproofs.

import (
	"fmt"
	"math/big"
	"sort"

	"golang.org/x/tools/go/ssa"
)

func init() {
	props["C01"] = runBPComplete
	props["C02"] = runBPVerify
	props["C03"] = runIPP
}

// masked declares an integer that is drawn at random as far as accidental
// identities are concerned.
func (h *H) masked(name string) *Poly {
	p := h.c.sym(name, nil, nil)
	h.c.single(p).tag = "rand"
	return p
}

// bp prepares an interpreter for Bulletproofs.
func (h *H) bp() {
	h.in.bytesSummaries()
	h.groupLevel(bpPkg, p256Pkg, utilPkg)
}

// anyPoint declares a point with arbitrary coordinates below the field prime.
func (h *H) anyPoint(name string) (*Elem, Val) {
	c := h.c
	g := h.in.secp(h.st)
	m := new(big.Int).Sub(g.p, b1)
	x, y := c.sym(name+".X", b0, m), c.sym(name+".Y", b0, m)
	v := h.in.newPtr(h.st, h.in.w.typ(p256Pkg, "P256"), name, &AggV{[]Val{h.bigV(x), h.bigV(y)}})
	return h.in.p256Elem(h.st, v), v
}

func (h *H) anyPoints(name string, n int) ([]*Elem, []Val) {
	var es []*Elem
	var vs []Val
	for i := 0; i < n; i++ {
		e, v := h.anyPoint(fmt.Sprintf("%s%d", name, i))
		es, vs = append(es, e), append(vs, v)
	}
	return es, vs
}

// bases declares group elements in general position.
func (h *H) p256Bases(name string, n int) ([]*Elem, []Val) {
	var es []*Elem
	var vs []Val
	for i := 0; i < n; i++ {
		nm := fmt.Sprintf("%s%d", name, i)
		h.c.declBase(&baseInfo{name: nm, nonzero: true})
		e := h.c.base(h.in.secp(h.st), nm)
		es, vs = append(es, e), append(vs, h.in.p256New(h.st, e))
	}
	return es, vs
}

func (h *H) pts(v Val) []*Elem {
	var out []*Elem
	for _, x := range h.in.elems(h.st, v) {
		out = append(out, h.in.p256Elem(h.st, x))
	}
	return out
}

func (h *H) bigVec(name string, ps []*Poly) Val {
	var vs []Val
	for i, p := range ps {
		vs = append(vs, h.in.newPtr(h.st, h.in.bigIntT(), fmt.Sprintf("%s[%d]", name, i), num(p)))
	}
	return h.mkSlice(name, vs)
}

// box puts a struct value into an object of its own.
func (h *H) box(pkg, typ string, v Val) Val { return h.in.newPtr(h.st, h.typ(pkg, typ), typ, v) }

// isPoint: the curve test is passed, or it is the identity.
func (h *H) isPoint(e *Elem) Bdd { return h.c.or(h.c.zeroE(e), h.c.onCurve(e)) }

// hashBP is the first challenge of a list of points.
func (h *H) hashBP(pts ...*Elem) (*Poly, *Poly) {
	var vs []Val
	for _, e := range pts {
		vs = append(vs, h.in.p256New(h.st, e))
	}
	t := h.call(h.fn(bpPkg, "HashBP"), h.mkSlice("points", vs)).(*AggV)
	return h.numAt(t.f[0]), h.numAt(t.f[1])
}

func (h *H) invO(p *Poly, o *big.Int) *Poly { return h.c.inverse(h.c.reduce(p, o), o) }

// ippEq is the equation an inner product proof has to satisfy.
func (h *H) ippEq(g, hh, Ls, Rs []*Elem, P, U *Elem, A, B *Poly) *Elem {
	c := h.c
	o := P.g.order
	for i := range Ls {
		x, _ := h.hashBP(P, Ls[i], Rs[i])
		xi := h.invO(x, o)
		n := len(g) / 2
		var g2, h2 []*Elem
		for j := 0; j < n; j++ {
			g2 = append(g2, c.eAdd(c.eScale(g[j], xi), c.eScale(g[n+j], x)))
			h2 = append(h2, c.eAdd(c.eScale(hh[j], x), c.eScale(hh[n+j], xi)))
		}
		P = c.eAdd(P, c.eAdd(c.eScale(Ls[i], c.mul(x, x)), c.eScale(Rs[i], c.mul(xi, xi))))
		g, hh = g2, h2
	}
	r := c.eAdd(c.eScale(g[0], A), c.eScale(hh[0], B))
	r = c.eAdd(r, c.eScale(U, c.mul(A, B)))
	return c.eSub(P, r)
}

var bpSizes = []int{1, 2, 4, 8, 16, 32}

func lg(n int) int {
	k := 0
	for 1<<k < n {
		k++
	}
	return k
}

func runIPP(r *Run) {
	r.rule("completeness: for vectors of 1 to 32 symbolic numbers and given or default generators, the argument made for P=g^a.h^b and c=<a,b> is accepted because the formal difference of the group elements cancels; soundness: with every field of the argument arbitrary, the verdict is exactly: coordinates on the curve and P.prod(L_i^(x_i^2).R_i^(x_i^-2)) = g'^A.h'^B.U^(A.B) for the folded generators; wrong sizes and missing fields give false and an error, and no panic")
	for _, n := range bpSizes {
		for _, gens := range []string{"default", "given"} {
			n, gens := n, gens
			r.sub(fmt.Sprintf("n=%d complete, %s generators", n, gens), func(h *H) {
				h.bp()
				h.in.noIdent = true
				var a, b []*Poly
				for i := 0; i < n; i++ {
					a = append(a, h.masked(fmt.Sprintf("a%d", i)))
					b = append(b, h.masked(fmt.Sprintf("b%d", i)))
				}
				h.ippComplete(a, b, gens == "given")
			})
		}
		if n <= 4 {
			n := n
			r.sub(fmt.Sprintf("n=%d complete, vectors with zeros", n), func(h *H) {
				h.bp()
				h.in.noIdent, h.in.noNil = true, true
				st, care := *h.st, h.in.care
				for i := 0; i < 1<<(2*n); i++ {
					if n == 4 && i%7 > 1 && i != 1<<(2*n)-1 {
						continue
					}
					*h.st, h.in.care = st, care
					var a, b []*Poly
					for j := 0; j < n; j++ {
						a = append(a, csti(int64(i>>j&1)))
						b = append(b, csti(int64(i>>(n+j)&1)))
					}
					h.ippComplete(a, b, true)
				}
			})
		}
		r.sub(fmt.Sprintf("n=%d exact", n), func(h *H) { h.ippSound(n, nil) })
		if n <= 8 {
			r.sub(fmt.Sprintf("n=%d exact, identities", n), func(h *H) {
				st, care := *h.st, h.in.care
				at := func(f func(f *ippF) (*Elem, *Val)) {
					*h.st, h.in.care = st, care
					h.ippSound(n, f)
				}
				at(func(f *ippF) (*Elem, *Val) { return f.U, &f.uv })
				at(func(f *ippF) (*Elem, *Val) { return f.P, &f.pv })
				at(func(f *ippF) (*Elem, *Val) { return f.G[n-1], &f.gv[n-1] })
				at(func(f *ippF) (*Elem, *Val) { return f.H[0], &f.hv[0] })
				for i := 0; i < lg(n); i++ {
					at(func(f *ippF) (*Elem, *Val) { return f.Ls[i], &f.lv[i] })
					at(func(f *ippF) (*Elem, *Val) { return f.Rs[i], &f.rv[i] })
				}
			})
		}
		r.sub(fmt.Sprintf("n=%d malformed", n), func(h *H) { h.ippMalformed(n) })
	}
}

// ippFields are the arguments of an inner product verification.
type ippF struct {
	G, H, Ls, Rs   []*Elem
	P, U           *Elem
	A, B           *Poly
	gv, hv, lv, rv []Val
	pv, uv, av, bv Val
	n              int64
}

func (h *H) ippAny(n int) *ippF {
	f := &ippF{n: int64(n)}
	f.G, f.gv = h.anyPoints("g", n)
	f.H, f.hv = h.anyPoints("h", n)
	f.Ls, f.lv = h.anyPoints("L", lg(n))
	f.Rs, f.rv = h.anyPoints("R", lg(n))
	f.P, f.pv = h.anyPoint("P")
	f.U, f.uv = h.anyPoint("U")
	f.A, f.B = h.c.sym("A", nil, nil), h.c.sym("B", nil, nil)
	f.av, f.bv = h.bigV(f.A), h.bigV(f.B)
	return f
}

func (f *ippF) val(h *H) Val {
	pp := h.in.zero(h.typ(bpPkg, "InnerProductParams"))
	for k, v := range map[string]Val{"Gg": h.mkSlice("Gg", f.gv), "Hh": h.mkSlice("Hh", f.hv), "P": f.pv, "N": numi(f.n)} {
		pp = h.setF(bpPkg, "InnerProductParams", pp, k, v)
	}
	v := h.in.zero(h.typ(bpPkg, "InnerProductProof"))
	for k, x := range map[string]Val{"N": numi(f.n), "Ls": h.mkSlice("Ls", f.lv), "Rs": h.mkSlice("Rs", f.rv), "U": f.uv, "A": f.av, "B": f.bv, "Params": pp} {
		v = h.setF(bpPkg, "InnerProductProof", v, k, x)
	}
	return v
}

func (f *ippF) conds(h *H) []namedB {
	var out []namedB
	on := func(what string, es ...*Elem) {
		for i, e := range es {
			out = append(out, namedB{fmt.Sprintf("%s%d is a point", what, i), h.isPoint(e)})
		}
	}
	on("U", f.U)
	on("P", f.P)
	on("L", f.Ls...)
	on("R", f.Rs...)
	on("g", f.G...)
	on("h", f.H...)
	return append(out, namedB{"P.prod(L^(x^2).R^(x^-2)) = g^A.h^B.U^AB", h.c.zeroE(h.ippEq(f.G, f.H, f.Ls, f.Rs, f.P, f.U, f.A, f.B))})
}

// ippComplete runs prover and verifier.
func (h *H) ippComplete(a, b []*Poly, given bool) {
	setup, prove := h.fn(bpPkg, "setupInnerProduct"), h.fn(bpPkg, "proveInnerProduct")
	commit, verify := h.fn(bpPkg, "commitInnerProduct"), h.method(bpPkg, "InnerProductProof", "Verify")
	n := len(a)
	c := csti(0)
	for i := range a {
		c = add(c, h.c.mul(a[i], b[i]))
	}
	if n%2 == 0 && given { // as ScalarProduct returns it
		c = h.c.mod(c, h.bigGlobal(bpPkg, "ORDER"))
	}
	H, g, hh := nilV(), nilV(), nilV()
	if given {
		_, H = h.p256Base("H")
		_, gv := h.p256Bases("g", n)
		_, hv := h.p256Bases("h", n)
		g, hh = h.mkSlice("g", gv), h.mkSlice("h", hv)
	}
	t := h.pure(setup, H, g, hh, h.bigV(c), numi(int64(n))).(*AggV)
	h.okErr(t.f[1], setup)
	pp := t.f[0]
	g, hh = h.getF(bpPkg, "InnerProductParams", pp, "Gg"), h.getF(bpPkg, "InnerProductParams", pp, "Hh")
	av, bv := h.bigVec("a", a), h.bigVec("b", b)
	P := h.pure(commit, g, hh, av, bv)
	t = h.pure(prove, av, bv, P, pp).(*AggV)
	h.okErr(t.f[1], prove)
	v := h.pure(verify, h.box(bpPkg, "InnerProductProof", t.f[0])).(*AggV)
	h.okErr(v.f[1], verify)
	h.holds(verify, "an honest argument", v.f[0])
}

// ippSound compares the verdict with the equation; ident selects a point that
// is the identity, without coordinates.
func (h *H) ippSound(n int, ident func(f *ippF) (*Elem, *Val)) {
	h.bp()
	h.in.noNil = true
	verify := h.method(bpPkg, "InnerProductProof", "Verify")
	f := h.ippAny(n)
	if ident != nil {
		e, v := ident(f)
		*e = *zeroElem(e.g)
		*v = h.in.newPtr(h.st, h.in.w.typ(p256Pkg, "P256"), "identity", &AggV{[]Val{nilV(), nilV()}})
	}
	v := h.pure(verify, h.box(bpPkg, "InnerProductProof", f.val(h))).(*AggV)
	got := h.boolB(v.f[0])
	h.exactly(verify, "an argument", got, f.conds(h))
}

// malformed runs a verification on proofs that are not proofs.
func (h *H) rejected(fn *ssa.Function, what string, reported bool, recv func() Val) {
	st, care := *h.st, h.in.care
	h.guard(what+": ", func() {
		v := h.pure(fn, recv()).(*AggV)
		h.fails(fn, "a proof with "+what, v.f[0])
		if reported {
			h.isErr(v.f[1], fn, "for a proof with "+what)
		}
	})
	*h.st, h.in.care = st, care
}

// badPoints calls f with every kind of value that is not a point.
func (h *H) badPoints(name string, f func(what string, v Val)) {
	f("no "+name, nilV())
	p := h.in.secp(h.st).p
	in := [2]*big.Int{b0, subB(p, 1)}
	for i, k := range [][2]*big.Int{{p, nil}, {nil, bi(-1)}} {
		for j, xy := range []string{"X", "Y"} {
			s := [2]*Poly{h.c.sym(name+".X", in[0], in[1]), h.c.sym(name+".Y", in[0], in[1])}
			s[j] = h.c.sym(fmt.Sprintf("%s.bad%s%d", name, xy, i), k[0], k[1])
			f(fmt.Sprintf("%s out of range in %s", xy, name), h.in.newPtr(h.st, h.in.w.typ(p256Pkg, "P256"), name, &AggV{[]Val{h.bigV(s[0]), h.bigV(s[1])}}))
		}
	}
}

func (h *H) ippMalformed(n int) {
	h.bp()
	h.in.noNil = true
	verify := h.method(bpPkg, "InnerProductProof", "Verify")
	try := func(what string, edit func(f *ippF)) {
		f := h.ippAny(n)
		edit(f)
		h.rejected(verify, what, true, func() Val { return h.box(bpPkg, "InnerProductProof", f.val(h)) })
	}
	one := func(name string, at func(f *ippF) *Val) {
		h.badPoints(name, func(what string, v Val) { try(what, func(f *ippF) { *at(f) = v }) })
	}
	one("U", func(f *ippF) *Val { return &f.uv })
	one("P", func(f *ippF) *Val { return &f.pv })
	one("g", func(f *ippF) *Val { return &f.gv[n-1] })
	one("h", func(f *ippF) *Val { return &f.hv[0] })
	if n > 1 {
		one("L", func(f *ippF) *Val { return &f.lv[lg(n)-1] })
		one("R", func(f *ippF) *Val { return &f.rv[0] })
	}
	try("no A", func(f *ippF) { f.av = nilV() })
	try("no B", func(f *ippF) { f.bv = nilV() })
	for _, m := range []int64{0, -1, 1, 2, 3, 4, 5, 8, 16, 31, 32, 33, 64, -int64(n), 1 << 32, 1 << 62, -1 << 63} {
		if m != int64(n) {
			try(fmt.Sprintf("N=%d instead of %d", m, n), func(f *ippF) { f.n = m })
		}
	}
	for _, d := range []int{-1, 1, 2, -lg(n)} {
		vs := []struct {
			name string
			at   func(f *ippF) *[]Val
			n    int
		}{
			{"L", func(f *ippF) *[]Val { return &f.lv }, lg(n)}, {"R", func(f *ippF) *[]Val { return &f.rv }, lg(n)},
			{"g", func(f *ippF) *[]Val { return &f.gv }, n}, {"h", func(f *ippF) *[]Val { return &f.hv }, n},
		}
		for _, v := range vs {
			m := v.n + d
			if m < 0 || d == 0 {
				continue
			}
			v := v
			try(fmt.Sprintf("%d instead of %d elements in %s", m, v.n, v.name), func(f *ippF) { _, *v.at(f) = h.anyPoints(v.name, m) })
		}
		if m := lg(n) + d; m >= 0 && d != 0 {
			try(fmt.Sprintf("%d rounds for %d elements", m, n), func(f *ippF) { _, f.lv = h.anyPoints("L", m); _, f.rv = h.anyPoints("R", m) })
		}
		if m := n + d; m >= 0 && d != 0 {
			try(fmt.Sprintf("%d generators for length %d", m, n), func(f *ippF) { _, f.gv = h.anyPoints("g", m); _, f.hv = h.anyPoints("h", m) })
			// more of everything but the rounds
			try(fmt.Sprintf("length %d for %d rounds", m, lg(n)), func(f *ippF) {
				_, f.gv = h.anyPoints("g", m)
				_, f.hv = h.anyPoints("h", m)
				f.n = int64(m)
			})
		}
	}
}

// ---------- range proofs ----------

func runBPComplete(r *Run) {
	r.rule("for every N and a symbolic secret in [0,2^N): Setup(2^N) and Prove report no error; V in the proof is secret.g + gamma.H for one number gamma drawn by the prover; Verify returns true and no error, because the formal difference of the group elements in every comparison cancels, for all draws and all challenges")
	for _, n := range bpSizes {
		n := n
		r.sub(fmt.Sprintf("N=%d", n), func(h *H) {
			h.bp()
			h.in.noIdent, h.in.noNil = true, true
			setup, prove, verify := h.fn(bpPkg, "Setup"), h.fn(bpPkg, "Prove"), h.method(bpPkg, "BulletProof", "Verify")
			end := new(big.Int).Lsh(b1, uint(n))
			t := h.pure(setup, num(cst(end))).(*AggV)
			h.okErr(t.f[1], setup)
			x := h.c.sym("secret", b0, subB(end, 1))
			first := len(h.in.randOf)
			t = h.pure(prove, h.bigV(x), t.f[0]).(*AggV)
			h.okErr(t.f[1], prove)
			h.pedersen(prove, h.getF(bpPkg, "BulletProof", t.f[0], "V"), x, first)
			v := h.pure(verify, h.box(bpPkg, "BulletProof", t.f[0])).(*AggV)
			h.okErr(v.f[1], verify)
			h.holds(verify, "an honest proof", v.f[0])
		})
	}
}

// pedersen: the point is x.g + r.H for one random number r below the order.
func (h *H) pedersen(fn *ssa.Function, v Val, x *Poly, first int) {
	e := h.in.p256Elem(h.st, v)
	c := h.c
	rest := c.eSub(e, c.eScale(c.base(e.g, "g"), x))
	ok := len(rest.t) == 1 && c.bases()[rest.t[0].base].nonzero && rest.t[0].base != "g"
	if ok {
		a := c.single(rest.t[0].co)
		ok = a != nil && a.tag == "rand" && new(big.Int).Add(a.hi, b1).Cmp(e.g.order) == 0
	}
	h.check(ok, shortFn(fn), "the commitment is %s, not [secret]g + [random]H", c.showE(e))
}

// bpF are the fields of a range proof.
type bpF struct {
	n                      int
	pt                     map[string]*Elem
	ptv                    map[string]Val
	taux, mu, tprime, A, B *Poly
	num                    map[string]Val
	Ls, Rs                 []*Elem
	lv, rv                 []Val
	N, ipN                 int64
	other                  string // what the fields hold that are not to be used
}

var bpPoints = []string{"V", "A", "S", "T1", "T2", "Commit"}

func (h *H) bpAny(n int) *bpF { return h.bpAnyP("", n) }

func (h *H) bpAnyP(pre string, n int) *bpF {
	f := &bpF{n: n, pt: map[string]*Elem{}, ptv: map[string]Val{}, N: int64(n), ipN: int64(n), num: map[string]Val{}}
	for _, k := range bpPoints {
		f.pt[k], f.ptv[k] = h.anyPoint(pre + k)
	}
	n0 := func(k string) *Poly {
		p := h.c.sym(pre+k, nil, nil)
		f.num[k] = h.bigV(p)
		return p
	}
	f.taux, f.mu, f.tprime, f.A, f.B = n0("Taux"), n0("Mu"), n0("Tprime"), n0("A"), n0("B")
	f.Ls, f.lv = h.anyPoints(pre+"L", lg(n))
	f.Rs, f.rv = h.anyPoints(pre+"R", lg(n))
	return f
}

// val builds the proof. Generators, bases and points that verification has to
// compute itself are filled with unrelated points, or missing.
func (f *bpF) val(h *H) Val {
	junk := 0
	pt := func() Val {
		if f.other == "missing" {
			return nilV()
		}
		junk++
		_, v := h.anyPoint(fmt.Sprintf("junk%d", junk))
		return v
	}
	list := func(n int64) Val {
		if f.other == "missing" {
			return nilV()
		}
		var vs []Val
		for i := int64(0); i < n && i < 64; i++ {
			vs = append(vs, pt())
		}
		return h.mkSlice("junk", vs)
	}
	num := func(name string) Val {
		if f.other == "missing" {
			return nilV()
		}
		return h.bigV(h.c.sym("junk."+name, nil, nil))
	}
	ipp := h.in.zero(h.typ(bpPkg, "InnerProductParams"))
	set := func(t string, v Val, m map[string]Val) Val {
		for _, k := range sortedKeys(m) {
			v = h.setF(bpPkg, t, v, k, m[k])
		}
		return v
	}
	ipp = set("InnerProductParams", ipp, map[string]Val{"N": numi(f.ipN), "Cc": num("Cc"), "Uu": pt(), "H": pt(), "Gg": list(f.ipN), "Hh": list(f.ipN), "P": pt()})
	pp := set("BulletProofSetupParams", h.in.zero(h.typ(bpPkg, "BulletProofSetupParams")), map[string]Val{
		"N": numi(f.N), "G": pt(), "H": pt(), "Gg": list(f.N), "Hh": list(f.N), "InnerProductParams": ipp})
	ip := set("InnerProductProof", h.in.zero(h.typ(bpPkg, "InnerProductProof")), map[string]Val{
		"N": numi(f.ipN), "Ls": h.mkSlice("Ls", f.lv), "Rs": h.mkSlice("Rs", f.rv), "U": pt(), "P": pt(), "Gg": pt(), "Hh": pt(), "A": f.num["A"], "B": f.num["B"], "Params": ipp})
	m := map[string]Val{"Taux": f.num["Taux"], "Mu": f.num["Mu"], "Tprime": f.num["Tprime"], "InnerProductProof": ip, "Params": pp}
	for _, k := range bpPoints {
		m[k] = f.ptv[k]
	}
	return set("BulletProof", h.in.zero(h.typ(bpPkg, "BulletProof")), m)
}

// setupGens are the generators that Setup returns.
func (h *H) setupGens(n int) (G, H *Elem, g, hh []*Elem) {
	setup := h.fn(bpPkg, "Setup")
	t := h.call(setup, num(cst(new(big.Int).Lsh(b1, uint(n))))).(*AggV)
	h.okErr(t.f[1], setup)
	get := func(k string) Val { return h.getF(bpPkg, "BulletProofSetupParams", t.f[0], k) }
	return h.in.p256Elem(h.st, get("G")), h.in.p256Elem(h.st, get("H")), h.pts(get("Gg")), h.pts(get("Hh"))
}

// conds are the equations of the paper.
func (f *bpF) conds(h *H, xip *Poly) []namedB {
	c := h.c
	var out []namedB
	for _, k := range bpPoints {
		out = append(out, namedB{k + " is a point", h.isPoint(f.pt[k])})
	}
	for i := range f.Ls {
		out = append(out, namedB{fmt.Sprintf("L%d is a point", i), h.isPoint(f.Ls[i])}, namedB{fmt.Sprintf("R%d is a point", i), h.isPoint(f.Rs[i])})
	}
	G, H, g, hh := h.setupGens(f.n)
	o := G.g.order
	V, A, S, T1, T2, P := f.pt["V"], f.pt["A"], f.pt["S"], f.pt["T1"], f.pt["T2"], f.pt["Commit"]
	x, _ := h.hashBP(V, A, S, T1, T2)
	y, z := h.hashBP(V, A, S)
	sum := func(es ...*Elem) *Elem {
		r := zeroElem(G.g)
		for _, e := range es {
			r = c.eAdd(r, e)
		}
		return r
	}
	// (65) g^t'.h^taux = V^(z^2).g^delta.T1^x.T2^(x^2)
	z2 := c.mul(z, z)
	yn, sumY, sum2 := []*Poly{csti(1)}, csti(0), csti(0)
	for i := 0; i < f.n; i++ {
		if i > 0 {
			yn = append(yn, c.mul(yn[i-1], y))
		}
		sumY = add(sumY, yn[i])
		sum2 = add(sum2, cst(new(big.Int).Lsh(b1, uint(i))))
	}
	delta := sub(c.mul(sub(z, z2), sumY), c.mul(c.mul(z2, z), sum2))
	l := sum(c.eScale(G, f.tprime), c.eScale(H, f.taux))
	r := sum(c.eScale(V, z2), c.eScale(G, delta), c.eScale(T1, x), c.eScale(T2, c.mul(x, x)))
	out = append(out, namedB{"g^t'.h^taux = V^(z^2).g^delta.T1^x.T2^(x^2)", c.zeroE(c.eSub(l, r))})
	// (66), (67) A.S^x.g^-z.h'^(z.y^n+z^2.2^n) = h^mu.P
	yi := h.invO(y, o)
	ypow := csti(1)
	var hp []*Elem
	e := sum(A, c.eScale(S, x))
	for i := 0; i < f.n; i++ {
		if i > 0 {
			ypow = c.mul(ypow, yi)
		}
		hp = append(hp, c.eScale(hh[i], ypow))
		e = c.eSub(e, c.eScale(g[i], z))
		e = c.eAdd(e, c.eScale(hp[i], add(c.mul(z, yn[i]), scale(z2, new(big.Int).Lsh(b1, uint(i))))))
	}
	e = c.eSub(e, sum(c.eScale(H, f.mu), P))
	out = append(out, namedB{"A.S^x.g^-z.h'^(z.y^n+z^2.2^n) = h^mu.P", c.zeroE(e)})
	// the inner product argument for P and t'
	c.declBase(&baseInfo{name: "H(" + h.strGlobal(bpPkg, "SEEDU") + ")", nonzero: true})
	U := c.eScale(c.base(G.g, "H("+h.strGlobal(bpPkg, "SEEDU")+")"), xip)
	out = append(out, namedB{"the inner product argument is right", c.zeroE(h.ippEq(g, hp, f.Ls, f.Rs, sum(P, c.eScale(U, f.tprime)), U, f.A, f.B))})
	return out
}

// strGlobal is the value of a string variable.
func (h *H) strGlobal(pkg, name string) string {
	g := h.r.w.global(pkg, name)
	if g == nil {
		panic(undecided{"global not found: " + pkg + "." + name})
	}
	s, ok := h.in.str1(h.in.under(h.st, h.in.load(h.st, h.in.globalPtr(g))))
	if ok {
		if t, ok := s.literal(); ok {
			return t
		}
	}
	panic(undecided{"global " + name + " is not a constant"})
}

// hashOver lists the numbers made of hashes computed since mark whose input
// contains the given number.
func (h *H) hashOver(mark int, p *Poly) []*Poly {
	var out []*Poly
	for _, a := range h.c.atoms[mark:] {
		if d, ok := a.data.(Piece); ok && a.tag == "hash" && piecesHave(d.sub, p) {
			out = append(out, h.c.atomPoly(a))
		}
	}
	return out
}

func piecesHave(ps []Piece, p *Poly) bool {
	for _, x := range ps {
		if x.p != nil && polyEq(x.p, p) {
			return true
		}
	}
	return false
}

func (h *H) bpExact(f *bpF) {
	verify := h.method(bpPkg, "BulletProof", "Verify")
	v := h.pure(verify, h.box(bpPkg, "BulletProof", f.val(h))).(*AggV)
	got := h.boolB(v.f[0])
	xs := h.hashOver(0, f.tprime)
	if !h.check(len(xs) > 0, shortFn(verify), "no challenge depends on the inner product claimed by the proof") {
		return
	}
	best := xs[0]
search:
	for _, test := range []func(Bdd) Bdd{h.live, h.possible} {
		for _, x := range xs {
			all := bT
			for _, n := range f.conds(h, x) {
				all = h.c.and(all, n.b)
			}
			if test(h.c.xor(all, got)) == bF {
				best = x
				break search
			}
		}
	}
	h.exactly(verify, "a proof", got, f.conds(h, best))
}

func runBPVerify(r *Run) {
	r.rule("every field of the proof is an arbitrary number or arbitrary coordinates: the verdict of Verify is exactly the conjunction of: all points on the curve, equation (65), equations (66/67), the equation of the inner product argument for the commitment and the inner product of the proof, with the generators of Setup, whatever generators the proof contains; proofs with missing fields, coordinates out of range, a wrong number of rounds or an unsupported size give false, and no panic; the proof is not written")
	for _, n := range bpSizes {
		n := n
		for _, o := range []string{"unrelated", "missing"} {
			o := o
			r.sub(fmt.Sprintf("N=%d exact, %s generators", n, o), func(h *H) {
				h.bp()
				h.in.noNil = true
				f := h.bpAny(n)
				f.other = o
				h.bpExact(f)
			})
		}
		r.sub(fmt.Sprintf("N=%d exact, identities", n), func(h *H) {
			st, care := *h.st, h.in.care
			at := func(set func(f *bpF, v Val)) {
				*h.st, h.in.care = st, care
				h.bp()
				h.in.noNil = true
				f := h.bpAny(n)
				set(f, h.in.newPtr(h.st, h.in.w.typ(p256Pkg, "P256"), "identity", &AggV{[]Val{nilV(), nilV()}}))
				h.bpExact(f)
			}
			for _, k := range bpPoints {
				at(func(f *bpF, v Val) { f.pt[k], f.ptv[k] = zeroElem(f.pt[k].g), v })
			}
			for i := 0; i < lg(n); i++ {
				at(func(f *bpF, v Val) { f.Ls[i], f.lv[i] = zeroElem(f.Ls[i].g), v })
				at(func(f *bpF, v Val) { f.Rs[i], f.rv[i] = zeroElem(f.Rs[i].g), v })
			}
		})
		r.sub(fmt.Sprintf("N=%d malformed", n), func(h *H) {
			h.bp()
			h.in.noNil = true
			verify := h.method(bpPkg, "BulletProof", "Verify")
			try := func(what string, edit func(f *bpF)) {
				f := h.bpAny(n)
				edit(f)
				h.rejected(verify, what, false, func() Val { return h.box(bpPkg, "BulletProof", f.val(h)) })
			}
			one := func(name string, at func(f *bpF, v Val)) {
				h.badPoints(name, func(what string, v Val) { try(what, func(f *bpF) { at(f, v) }) })
			}
			for _, k := range bpPoints {
				one(k, func(f *bpF, v Val) { f.ptv[k] = v })
			}
			for i := 0; i < lg(n); i++ {
				one(fmt.Sprintf("L%d", i), func(f *bpF, v Val) { f.lv[i] = v })
				one(fmt.Sprintf("R%d", i), func(f *bpF, v Val) { f.rv[i] = v })
			}
			for _, k := range []string{"Taux", "Mu", "Tprime", "A", "B"} {
				try("no "+k, func(f *bpF) { f.num[k] = nilV() })
			}
			for _, m := range []int{0, lg(n) - 1, lg(n) + 1, lg(n) + 2, 7} {
				if m < 0 || m == lg(n) {
					continue
				}
				try(fmt.Sprintf("%d rounds", m), func(f *bpF) { _, f.lv = h.anyPoints("L", m); _, f.rv = h.anyPoints("R", m) })
				try(fmt.Sprintf("%d elements in L", m), func(f *bpF) { _, f.lv = h.anyPoints("L", m) })
				try(fmt.Sprintf("%d elements in R", m), func(f *bpF) { _, f.rv = h.anyPoints("R", m) })
				if m <= 5 {
					try(fmt.Sprintf("rounds for N=%d", 1<<m), func(f *bpF) { f.N = int64(1) << m })
				}
			}
			for _, m := range []int64{-1 << 63, -64, -32, -1, 0, 3, 5, 6, 7, 12, 24, 31, 33, 62, 63, 64, 65, 128, 1 << 32, 1<<63 - 1} {
				try(fmt.Sprintf("unsupported size %d", m), func(f *bpF) { f.N = m })
				try(fmt.Sprintf("unsupported sizes %d", m), func(f *bpF) { f.N, f.ipN = m, m })
			}
		})
	}
}

func sortedKeys(m map[string]Val) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
