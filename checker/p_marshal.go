package main

// C26: encodings of the pairing groups.

import (
	"fmt"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { props["C26"] = runMarshal }

var encNums = map[string]int{"G1": 2, "G2": 4, "GT": 12}

// bnBox wraps the inner object.
func (h *H) bnBox(gn string, p Val) Val {
	typ := h.typ(bnPkg, gn)
	s, ok := structOf(typ)
	if !ok || s.NumFields() != 1 {
		panic(undecided{gn + " is not a struct with one field"})
	}
	return h.in.newPtr(h.st, typ, gn, &AggV{[]Val{p}})
}

func (h *H) bnUnbox(v Val) Val {
	s, ok := h.in.rd(h.st, v).(*AggV)
	if !ok {
		panic(undecided{"receiver"})
	}
	return h.in.under(h.st, s.f[0])
}

// encoded reads the n 32-byte numbers of an encoding, in groups of w numbers
// that belong together, for every combination that can occur.
func (h *H) encoded(fn *ssa.Function, v Val, n, w int, f func(i int, ps []*Poly)) bool {
	l, ok := one(h.in.under(h.st, v))
	if !h.check(ok, shortFn(fn), "the encoding depends on further conditions") {
		return false
	}
	s, isSlice := l.(SliceL)
	if !isSlice {
		bs, k, ok := h.in.pieceBytes(h.in.seqPieces(h.st, l))
		if !h.check(ok && k == 32*n, shortFn(fn), "the encoding does not have %d bytes", 32*n) {
			return false
		}
		s = h.in.newByteSlice(h.st, bs)
	}
	if !h.check(s.len == 32*n, shortFn(fn), "the encoding has %d bytes, not %d", s.len, 32*n) {
		return false
	}
	for i := 0; i < n; i += w {
		var cells []PtrL
		for j := 0; j < 32*w; j++ {
			cells = append(cells, PtrL{s.obj, joinPath(s.path, s.off+32*i+j)})
		}
		for _, j := range h.in.joint(h.st, cells) {
			var ps []*Poly
			for k := 0; k < w; k++ {
				p, ok := h.in.piecesNum(h.in.packBytes(j.ps[32*k : 32*k+32]))
				if !h.check(ok, shortFn(fn), "number %d of the encoding is not readable", i+k) {
					return false
				}
				lo, hi := h.c.interval(p)
				h.check(lo != nil && lo.Sign() >= 0 && hi != nil && hi.Cmp(h.c.p) < 0, shortFn(fn), "number %d of the encoding is not reduced", i+k)
				ps = append(ps, p)
			}
			f(i, ps)
		}
	}
	return true
}

// texted reads the decimal numbers of a text form, and the text around them.
func (h *H) texted(fn *ssa.Function, v Val, f func(ns []*Poly, lits []string)) {
	g, ok := h.in.under(h.st, v).(*GV)
	if !ok {
		panic(undecided{"text"})
	}
	for _, a := range g.alts {
		if h.c.and(a.g, h.st.pc) == bF {
			continue
		}
		s, ok := a.l.(StrL)
		if !ok {
			panic(undecided{"text " + a.l.Key()})
		}
		f(h.texted1(fn, s))
	}
}

func (h *H) texted1(fn *ssa.Function, s StrL) ([]*Poly, []string) {
	var out []*Poly
	cur := ""
	var lits []string
	for _, p := range normPieces(s.ps) {
		switch p.k {
		case "lit":
			cur += p.lit
		case "dec":
			lits = append(lits, cur)
			cur = ""
			lo, hi := h.c.interval(p.p)
			h.check(lo != nil && lo.Sign() >= 0 && hi != nil && hi.Cmp(h.c.p) < 0, shortFn(fn), "number %d of the text is not reduced", len(out))
			out = append(out, p.p)
		default:
			panic(undecided{"text piece " + p.k})
		}
	}
	return out, append(lits, cur)
}

// text writes the numbers into the literals.
func text(nums []*Poly, lits []string) string {
	s := ""
	for i, l := range lits {
		s += l
		if i < len(nums) {
			if k, ok := nums[i].isConst(); ok {
				s += k.String()
			} else {
				s += "#"
			}
		}
	}
	return s
}

func (h *H) curveOf(gn string) *curveKit {
	h.bnField()
	return h.curve(bnInner[gn])
}

// fieldEls joins encoded numbers to field elements.
func (k *curveKit) fieldEls(ps []*Poly) []*Poly {
	if !k.k2 {
		return ps
	}
	var out []*Poly
	for i := 0; i+1 < len(ps); i += 2 {
		out = append(out, k.h.c.k2Poly(ps[i], ps[i+1]))
	}
	return out
}

// encoding makes the byte slice of n numbers, all below 2^256.
func (h *H) encoding(ps []*Poly) Val {
	var cells []Val
	for _, p := range ps {
		for k := 31; k >= 0; k-- {
			cells = append(cells, num(h.c.byteOf(p, k)))
		}
	}
	return h.mkSlice("m", cells)
}

func (h *H) encSyms(gn string) []*Poly {
	var ps []*Poly
	for i := 0; i < encNums[gn]; i++ {
		ps = append(ps, h.c.sym(fmt.Sprintf("X%d", i), b0, new(big.Int).Sub(new(big.Int).Lsh(b1, 256), b1)))
	}
	return ps
}

func runMarshal(r *Run) {
	r.facts["level"] = "proof"
	r.rule("Marshal and String are interpreted on identity, affine and general representations with formal coordinates: the encoding is 32-byte big-endian numbers, each reduced and equal to the affine coordinate; Unmarshal is interpreted on all lengths up to 400 bytes and on all byte strings of the right length as formal numbers: it accepts exactly the identity's encoding and the points of the curve (G2: annihilated by Order), and the receiver then holds that point")
	for _, gn := range []string{"G1", "G2"} {
		gn := gn
		for _, m := range []string{"Marshal", "String"} {
			m := m
			r.sub(gn+"."+m, func(h *H) {
				k := h.curveOf(gn)
				fn := h.method(bnPkg, gn, m)
				where := h.r.w.pos(fn.Pos()) + " " + shortFn(fn)
				var ref []string
				var infText string
				for _, kind := range []string{"gen", "aff", "inf"} {
					kind := kind
					h.each(kind+" representation: ", func() {
						p := k.point("a", kind)
						k.protect(p)
						if k.k2 && kind == "gen" { // "aff" is the case that z is one
							ns := h.in.numsOf(h.st, p, k.pt)
							im, _ := h.in.intOf(ns[4])
							re, _ := h.in.intOf(ns[5])
							h.assume(h.c.not(h.c.and(h.c.zeroInt(im), h.c.zeroInt(sub(re, csti(1))))))
						}
						var x, y *Poly
						if kind != "inf" {
							j, _ := k.coords(p, bT)
							x, y = k.affine(j)
						}
						res := h.call(fn, h.bnBox(gn, p))
						if kind == "inf" {
							k.infinite(p, bT, where, m+" changes the element")
						} else {
							k.same(p, bT, x, y, where, m+" changes the element")
						}
						w := encNums[gn] / 2
						right := func(i int, ps []*Poly) {
							if kind == "inf" {
								for _, n := range ps {
									_, ok := n.isConst()
									h.check(ok, where, "the identity's form depends on its representation")
								}
								return
							}
							q := k.fieldEls(ps)
							if i == 0 {
								h.check(h.c.equalMod(q[0], x, h.c.p), where, "the first half is not the affine x coordinate")
							} else {
								h.check(h.c.equalMod(q[0], y, h.c.p), where, "the second half is not the affine y coordinate")
							}
						}
						if m == "Marshal" {
							h.encoded(fn, res, encNums[gn], w, right)
							h.sample("%s of the %s representation: %d reduced numbers, the affine coordinates", shortFn(fn), kind, 2*w)
							return
						}
						h.texted(fn, res, func(ns []*Poly, lits []string) {
							if kind == "inf" {
								right(0, ns)
								t := text(ns, lits)
								h.check(infText == "" || t == infText, where, "the text of the identity depends on its representation")
								infText = t
								return
							}
							if !h.check(len(ns) >= 2*w, where, "%d numbers", len(ns)) {
								return
							}
							// a third coordinate is constant
							for i := 2 * w; i < len(ns); i++ {
								n, ok := ns[i].isConst()
								if !h.check(ok, where, "the text depends on the representation") {
									return
								}
								lits[2*w] += n.String() + lits[i+1]
							}
							lits = lits[:2*w+1]
							right(0, ns[:w])
							right(w, ns[w:2*w])
							if ref == nil {
								ref = lits
							}
							h.check(strings.Join(ref, "#") == strings.Join(lits, "#"), where, "equal elements have different text forms")
							h.sample("%s of the %s representation: %d reduced numbers, the affine coordinates", shortFn(fn), kind, 2*w)
						})
					})
				}
			})
		}
	}
	for _, m := range []string{"Marshal", "String"} {
		m := m
		r.sub("GT."+m, func(h *H) {
			h.bnField()
			h.k2Mode()
			fn := h.method(bnPkg, "GT", m)
			where := h.r.w.pos(fn.Pos()) + " " + shortFn(fn)
			pt := h.ptyp(bnPkg, "gfP12")
			p := h.mk(pt, "a", h.k2Num("U"))
			before := h.in.k2Of(h.st, p, pt)
			h.in.protect = map[int]bool{}
			res := h.call(fn, h.bnBox("GT", p))
			h.check(h.c.requal(h.in.k2Of(h.st, p, pt), before) < 0, where, "%s changes the element", m)
			right := func(i int, ps []*Poly) {
				h.check(h.c.equalMod(h.c.k2Poly(ps[0], ps[1]), before[i/2], h.c.p), where, "coordinate %d is not the element's", i/2)
			}
			if m == "Marshal" {
				h.encoded(fn, res, 12, 2, right)
			} else {
				h.texted(fn, res, func(ns []*Poly, _ []string) {
					if h.check(len(ns) == 12, where, "%d numbers instead of 12", len(ns)) {
						for i := 0; i < 12; i += 2 {
							right(i, ns[i:i+2])
						}
					}
				})
			}
			h.sample("%s: 12 reduced numbers, the coordinates", shortFn(fn))
		})
	}
	for _, gn := range []string{"G1", "G2", "GT"} {
		gn := gn
		r.sub(gn+".Unmarshal of other lengths", func(h *H) {
			h.bnField()
			fn := h.method(bnPkg, gn, "Unmarshal")
			n := 0
			for l := 0; l <= 400; l++ {
				if l == 32*encNums[gn] {
					continue
				}
				l := l
				h.each(fmt.Sprintf("%d bytes: ", l), func() {
					var cells []Val
					for i := 0; i < l; i++ {
						cells = append(cells, num(h.c.sym("b", b0, bi(255))))
					}
					res := h.call(fn, h.bnBox(gn, nilV()), h.mkSlice("m", cells)).(*AggV)
					ok := h.boolB(res.f[1])
					h.check(ok == bF, shortFn(fn), "accepted")
					n++
				})
			}
			h.sample("%s: %d wrong lengths rejected", shortFn(fn), n)
		})
	}
	for _, gn := range []string{"G1", "G2"} {
		gn := gn
		r.sub(gn+".Unmarshal", func(h *H) { h.unmarshalPoint(gn) })
	}
	r.sub("GT.Unmarshal", func(h *H) {
		h.bnField()
		h.k2Mode()
		fn := h.method(bnPkg, "GT", "Unmarshal")
		where := h.r.w.pos(fn.Pos()) + " " + shortFn(fn)
		pt := h.ptyp(bnPkg, "gfP12")
		for _, used := range []bool{false, true} {
			used := used
			h.each(fmt.Sprintf("receiver used before: %v: ", used), func() {
				inner := nilV()
				if used {
					inner = h.mk(pt, "old", h.k2Num("U"))
				}
				recv := h.bnBox("GT", inner)
				ps := h.encSyms("GT")
				res := h.call(fn, recv, h.encoding(ps)).(*AggV)
				h.check(h.boolB(res.f[1]) == bT, where, "an encoding of 384 bytes is not accepted")
				h.check(samePtr(res.f[0], recv), where, "the receiver is not returned")
				q := h.in.k2Of(h.st, h.bnUnbox(recv), pt)
				for i := range q {
					h.check(h.c.equalMod(q[i], h.c.k2Poly(ps[2*i], ps[2*i+1]), h.c.p), where, "coordinate %d is not the encoded one", i)
				}
			})
		}
	})
}

func (h *H) unmarshalPoint(gn string) {
	k := h.curveOf(gn)
	fn := h.method(bnPkg, gn, "Unmarshal")
	mar := h.method(bnPkg, gn, "Marshal")
	where := h.r.w.pos(fn.Pos()) + " " + shortFn(fn)
	var t *absT
	if k.k2 {
		t = h.in.points(true, map[string]*Group{"twistPoint": {name: "twist", p: h.c.p}})
	}
	var ident []*big.Int
	h.each("identity: ", func() {
		h.encoded(mar, h.call(mar, h.bnBox(gn, k.point("a", "inf"))), encNums[gn], 1, func(i int, ps []*Poly) {
			if v, ok := ps[0].isConst(); ok {
				ident = append(ident, v)
			}
		})
	})
	if !h.check(len(ident) == encNums[gn], where, "the identity's encoding is not constant") {
		return
	}
	for _, v := range [][]*big.Int{ident, make([]*big.Int, len(ident))} {
		var ps []*Poly
		for _, x := range v {
			if x == nil {
				x = b0
			}
			ps = append(ps, cst(x))
		}
		q := k.fieldEls(ps)
		h.check(k.onCurve(q) == bF, where, "the identity's encoding is that of a point of the curve")
	}
	for _, used := range []string{"", "gen", "inf"} {
		used := used
		recvOf := func() Val {
			inner := nilV()
			if used != "" {
				inner = k.point("old", used)
			}
			return h.bnBox(gn, inner)
		}
		pre := "new receiver, "
		if used != "" {
			pre = "used receiver (" + used + "), "
		}
		// the identity's own encoding
		h.each(pre+"identity: ", func() {
			inf := k.point("a", "inf")
			enc := h.call(mar, h.bnBox(gn, inf))
			recv := recvOf()
			res := h.call(fn, recv, enc).(*AggV)
			if h.check(h.boolB(res.f[1]) == bT, where, "the encoding of the identity is rejected") {
				k.infinite(h.bnUnbox(recv), bT, where, "the encoding of the identity")
				h.check(samePtr(res.f[0], recv), where, "the receiver is not returned")
			}
		})
		h.each(pre+"any numbers: ", func() {
			ps := h.encSyms(gn)
			q := k.fieldEls(ps)
			recv := recvOf()
			pc := h.st.pc
			res := h.call(fn, recv, h.encoding(ps)).(*AggV)
			h.check(h.st.pc == pc, where, "does not return")
			ok := h.boolB(res.f[1])
			on := k.onCurve(q)
			// encodings that stand for the identity
			inf := h.c.and(ok, k.zInt(h.bnUnbox(recv), ok))
			zero := bT
			own := bT
			for i, p := range ps {
				zero = h.c.and(zero, h.c.zeroInt(p))
				own = h.c.and(own, h.c.zeroInt(sub(p, cst(ident[i]))))
			}
			bad := h.c.and(inf, h.c.not(h.c.or(zero, own)))
			h.check(!h.alive(bad), where, "another encoding than the identity's stands for the identity, when %s", h.c.showB(bad))
			fin := h.c.and(ok, h.c.not(inf))
			want := on
			if t != nil {
				e := t.affElem("twistPoint", q[0], q[1])
				want = h.c.and(want, h.c.zeroE(h.c.eScale(e, cst(h.order()))))
			}
			want = h.c.and(want, h.c.not(h.c.or(zero, own))) // these are off the curve, see below
			bad = h.c.and(fin, h.c.not(want))
			h.check(!h.alive(bad), where, "accepted although off the curve or outside the subgroup, when %s", h.c.showB(bad))
			bad = h.c.and(want, h.c.not(ok))
			h.check(!h.alive(bad), where, "a point of the group is rejected when %s", h.c.showB(bad))
			if !h.alive(fin) {
				h.check(false, where, "no point is accepted")
				return
			}
			k.same(h.bnUnbox(recv), fin, q[0], q[1], where, "the unmarshalled point")
			j, okj := k.coords(h.bnUnbox(recv), fin)
			if okj {
				h.check(polyEq(h.c.reduce(j.t, h.c.p), csti(1)) || !polyEq(j.z, csti(1)), where, "the auxiliary coordinate is not z^2")
			}
			h.check(h.c.imp(ok, h.ptrIs(res.f[0], recv)), where, "the receiver is not returned")
			h.sample("%s%s: accepted iff %s", pre, shortFn(fn), h.c.showB(want))
		})
	}
}

// alive tells that the condition is possible.
func (h *H) alive(b Bdd) bool { return h.live(b) != bF }

// ptrIs is the condition that v is the pointer p.
func (h *H) ptrIs(v, p Val) Bdd {
	r := bF
	want, _ := one(p)
	if g, ok := h.in.under(h.st, v).(*GV); ok {
		for _, a := range g.alts {
			if a.l.Key() == want.Key() {
				r = h.c.or(r, a.g)
			}
		}
	}
	return r
}

// onCurve is the curve equation for affine coordinates given as numbers.
func (k *curveKit) onCurve(q []*Poly) Bdd {
	c := k.h.c
	d := sub(k.mul(q[1], q[1]), add(k.mul(q[0], q[0], q[0]), k.b()))
	if !k.k2 {
		return k.zero(d)
	}
	re, im := c.splitI(c.reduce(d, c.p))
	return c.and(c.zeroModB(re, c.p), c.zeroModB(im, c.p))
}

// b is the constant of the curve equation.
func (k *curveKit) b() *Poly {
	h := k.h
	if !k.k2 {
		return cst(h.in.globalBig(h.st, bnPkg, "curveB"))
	}
	g := h.r.w.global(bnPkg, "twistB")
	if g == nil {
		panic(undecided{"twistB not found"})
	}
	ns := h.in.numsOf(h.st, h.in.load(h.st, h.in.globalPtr(g)), h.ptyp(bnPkg, "gfP2"))
	x, ok1 := h.in.k2cell(ns[0])
	y, ok2 := h.in.k2cell(ns[1])
	if !ok1 || !ok2 {
		panic(undecided{"twistB is not constant"})
	}
	return h.c.k2Poly(x, y)
}
