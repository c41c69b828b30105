package main

// Transfer functions of the library functions the code under analysis uses.

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

var primeMemo = map[string]bool{}

var memoMu sync.Mutex

func isPrime(m *big.Int) bool {
	memoMu.Lock()
	defer memoMu.Unlock()
	k := m.Text(62)
	if v, ok := primeMemo[k]; ok {
		return v
	}
	v := m.Sign() > 0 && m.ProbablyPrime(20)
	primeMemo[k] = v
	return v
}

// rd reads a *big.Int operand.
func (in *Interp) rd(st *State, v Val) Val {
	r := in.load(st, v)
	if r == nil {
		return leaf(TopL{"nil"})
	}
	return r
}

// wr writes a *big.Int and returns the pointer.
func (in *Interp) wr(st *State, z Val, v Val) Val {
	in.ptrs(st, z, "big.Int receiver", func(g Bdd, p PtrL) {
		old := in.readPath(st.heap.get(p.obj), splitPath(p.path))
		if og, ok := old.(*GV); ok {
			for _, a := range og.alts {
				if pz, ok := a.l.(PoisonL); ok {
					in.event("poison", in.c.and(st.pc, in.c.and(g, a.g)), "number is written after it was returned to the pool (%s)", pz.where)
				}
			}
		}
		if g == bT || in.c.imp(st.pc, g) {
			in.storeP(st, p, v)
		} else {
			in.storeP(st, p, in.c.merge(g, v, in.unp(old)))
		}
	})
	return z
}

func (in *Interp) unp(v Val) Val {
	g, ok := v.(*GV)
	if !ok {
		return v
	}
	for _, a := range g.alts {
		if _, ok := a.l.(PoisonL); ok {
			var alts []Alt
			for _, b := range g.alts {
				if _, ok := b.l.(PoisonL); ok {
					b.l = NumL{in.c.sym(in.c.freshName("recycled"), nil, nil)}
				}
				alts = append(alts, b)
			}
			return in.c.mkGV(alts)
		}
	}
	return v
}

// under restricts a guarded value to the live alternatives.
func (in *Interp) under(st *State, v Val) Val {
	g, ok := v.(*GV)
	if !ok || len(g.alts) == 1 {
		return v
	}
	var alts []Alt
	pc := in.c.and(st.pc, in.care)
	for _, a := range g.alts {
		if in.c.and(a.g, pc) != bF {
			alts = append(alts, a)
		}
	}
	if len(alts) == len(g.alts) || len(alts) == 0 {
		return v
	}
	// the surviving guards cover the current path
	last := alts[len(alts)-1]
	rest := bF
	for _, a := range alts[:len(alts)-1] {
		rest = in.c.or(rest, a.g)
	}
	last.g = in.c.not(rest)
	alts[len(alts)-1] = last
	return in.c.mkGV(alts)
}

func (in *Interp) bigOp1(st *State, z, x Val, f func(p *Poly) *Poly) Val {
	xv := in.under(st, in.rd(st, x))
	r := in.lift1(st, xv, "big.Int operation", func(l Leaf) Leaf { return NumL{f(in.numLeaf(l))} })
	return in.wr(st, z, r)
}

func (in *Interp) bigOp2(st *State, z, x, y Val, f func(p, q *Poly) *Poly) Val {
	xv := in.under(st, in.rd(st, x))
	yv := in.under(st, in.rd(st, y))
	r := in.lift2(st, xv, yv, "big.Int operation", func(a, b Leaf) Leaf { return NumL{f(in.numLeaf(a), in.numLeaf(b))} })
	return in.wr(st, z, r)
}

func (in *Interp) modNum(p, m *Poly) *Poly {
	k, ok := m.isConst()
	if !ok {
		a := in.c.atom(&atomInfo{kind: aUF, name: "mod(" + p.Key() + "," + m.Key() + ")", lo: b0, arg: p})
		if _, h := in.c.interval(m); h != nil && h.Sign() > 0 {
			a.hi = new(big.Int).Sub(h, b1)
		}
		return in.c.atomPoly(a)
	}
	k = new(big.Int).Abs(k)
	return in.modc(p, k)
}

func (in *Interp) modc(p *Poly, k *big.Int) *Poly {
	if k.Cmp(b1) == 0 {
		return &Poly{}
	}
	if k.BitLen() <= 64 {
		return in.c.modDigit(p, k)
	}
	return in.c.mod(p, k)
}

func (in *Interp) divNum(p, d *Poly) *Poly {
	k, ok := d.isConst()
	if !ok {
		return in.c.atomPoly(in.c.atom(&atomInfo{kind: aUF, name: "div(" + p.Key() + "," + d.Key() + ")", arg: p}))
	}
	if k.Sign() < 0 {
		return neg(in.c.div(p, new(big.Int).Neg(k)))
	}
	return in.c.div(p, k)
}

// quo is truncated division.
func (in *Interp) quoNum(p, d *Poly) *Poly {
	pk, ok1 := p.isConst()
	dk, ok2 := d.isConst()
	if ok1 && ok2 {
		return cst(new(big.Int).Quo(pk, dk))
	}
	if in.c.negB(p) == bF && ok2 && dk.Sign() > 0 {
		return in.c.div(p, dk)
	}
	return in.c.atomPoly(in.c.atom(&atomInfo{kind: aUF, name: "quo(" + p.Key() + "," + d.Key() + ")", arg: p}))
}

// quoRem is truncated division with remainder: where the dividend is negative
// and no multiple, the remainder is the residue less the modulus.
func (in *Interp) quoRem(st *State, x, y Val) (Val, Val) {
	c := in.c
	var qs, rs []Alt
	for _, xa := range x.(*GV).alts {
		for _, ya := range y.(*GV).alts {
			g := c.and(xa.g, ya.g)
			if c.and(g, st.pc) == bF {
				continue
			}
			p, d := in.numLeaf(xa.l), in.numLeaf(ya.l)
			_, pc := p.isConst()
			dk, dc := d.isConst()
			if pc || !dc || dk.Sign() == 0 {
				q := in.quoNum(p, d)
				qs = append(qs, Alt{g, NumL{q}})
				rs = append(rs, Alt{g, NumL{sub(p, c.mul(d, q))}})
				continue
			}
			k := new(big.Int).Abs(dk)
			m, q := in.modc(p, k), c.div(p, k)
			n := c.and(c.negB(p), c.not(c.zeroInt(m)))
			put := func(g Bdd, q, m *Poly) {
				if g == bF {
					return
				}
				if dk.Sign() < 0 {
					q = neg(q)
				}
				qs = append(qs, Alt{g, NumL{q}})
				rs = append(rs, Alt{g, NumL{m}})
			}
			put(c.and(g, c.not(n)), q, m)
			put(c.and(g, n), add(q, csti(1)), sub(m, cst(k)))
		}
	}
	return c.mkGV(qs), c.mkGV(rs)
}

func (in *Interp) expNum(x, y *Poly, m *Poly) *Poly {
	c := in.c
	yk, okY := y.isConst()
	var mk *big.Int
	okM := true
	if m != nil {
		mk, okM = m.isConst()
		if okM && mk.Sign() == 0 {
			mk = nil
		}
		if mk != nil {
			mk = new(big.Int).Abs(mk)
		}
	}
	xk, okX := x.isConst()
	if okX && okY && okM {
		if yk.Sign() < 0 && mk == nil {
			return csti(1)
		}
		if mk == nil && yk.Cmp(bi(100000)) > 0 {
			in.undec("huge power")
		}
		r := new(big.Int).Exp(xk, yk, mk)
		if r != nil {
			return cst(r)
		}
	}
	if okY && okM && mk != nil {
		if yk.Sign() == 0 {
			return cst(new(big.Int).Mod(b1, mk))
		}
		if yk.Sign() > 0 && (yk.Cmp(bi(16)) <= 0 || len(c.reduce(x, mk).t) == 1 && yk.Cmp(bi(4096)) <= 0) {
			return in.modc(c.powMod(c.reduce(x, mk), int(yk.Int64()), mk), mk)
		}
	}
	if okY && mk == nil && okM {
		if yk.Sign() <= 0 {
			return csti(1)
		}
		if yk.Cmp(bi(64)) <= 0 {
			return c.pow(x, int(yk.Int64()))
		}
	}
	// power with a symbolic exponent and constant base 2
	name := "exp(" + x.Key() + "," + y.Key() + ","
	a := &atomInfo{kind: aUF, arg: x}
	if m != nil {
		name += m.Key()
		if okM && mk != nil {
			// residues only
			rx := c.reduce(x, mk)
			if len(rx.t) == 1 && isPrime(mk) {
				fs := unpackMono(rx.t[0].m)
				allNeg := len(fs) > 0
				for _, f := range fs {
					allNeg = allNeg && f.e < 0
				}
				if allNeg { // a power of an inverse is the inverse of the power
					return c.mod(c.inverse(in.expNum(c.inverse(rx, mk), y, m), mk), mk)
				}
			}
			name = "exp(" + rx.Key() + "," + y.Key() + "," + m.Key()
			a.lo, a.hi, a.m = b0, new(big.Int).Sub(mk, b1), mk
			a.kind = aPow
			a.data = &powInfo{rx, y, mk}
		}
	} else {
		if okX && xk.Sign() > 0 {
			a.lo = b1
		}
		a.data = &powInfo{x, y, nil}
	}
	a.name = name + ")"
	return c.atomPoly(c.atom(a))
}

type powInfo struct {
	x, y *Poly
	m    *big.Int
}

func (in *Interp) bitLenNum(p *Poly) *Poly {
	c := in.c
	if k, ok := p.isConst(); ok {
		return csti(int64(k.BitLen()))
	}
	lo, hi := c.interval(p)
	a := &atomInfo{kind: aBitLen, name: "bitlen(" + p.Key() + ")", arg: p, lo: b0}
	if lo != nil && hi != nil {
		m := lo.BitLen()
		if hi.BitLen() > m {
			m = hi.BitLen()
		}
		a.hi = bi(int64(m))
		if lo.Sign() > 0 {
			a.lo = bi(int64(lo.BitLen()))
		}
		if a.lo.Cmp(a.hi) == 0 {
			return cst(a.lo)
		}
	}
	return c.atomPoly(c.atom(a))
}

func (in *Interp) bitNum(p, i *Poly) *Poly {
	c := in.c
	ik, ok := i.isConst()
	if ok {
		if ik.Sign() < 0 {
			in.event("panic", bT, "negative bit index")
			return &Poly{}
		}
		if k, ok := p.isConst(); ok {
			if ik.Cmp(bi(1<<20)) > 0 {
				return &Poly{}
			}
			return csti(int64(k.Bit(int(ik.Int64()))))
		}
		if lo, hi := c.interval(p); lo != nil && lo.Sign() >= 0 && hi != nil && int64(hi.BitLen()) <= ik.Int64() {
			return &Poly{}
		}
		if a := c.single(p); a != nil && a.binary && ik.Sign() == 0 {
			return p
		}
		if lo, _ := c.interval(p); lo != nil && lo.Sign() >= 0 && ik.Cmp(bi(1<<12)) < 0 {
			if r := c.mod(c.div(p, new(big.Int).Lsh(b1, uint(ik.Int64()))), bi(2)); !c.anyAtom(r, func(a *atomInfo) bool { return a.arg != nil }) {
				return r // a digit of the number
			}
		}
		return c.atomPoly(c.atom(&atomInfo{kind: aBit, name: fmt.Sprintf("bit%d(%s)", ik.Int64(), p.Key()), arg: p, k: int(ik.Int64()), lo: b0, hi: b1}))
	}
	return c.atomPoly(c.atom(&atomInfo{kind: aUF, name: fmt.Sprintf("bit[%s](%s)", i.Key(), p.Key()), arg: p, data: &symBit{p, i}, lo: b0, hi: b1}))
}

type symBit struct{ p, i *Poly }

// cmpVal returns -1/0/1 as a guarded number for the sign of p.
func (in *Interp) signVal(p *Poly, base Bdd) []Alt {
	c := in.c
	z := c.zeroInt(p)
	n := c.and(c.negB(p), c.not(z))
	g := c.not(c.or(z, n))
	return []Alt{{c.and(base, n), NumL{csti(-1)}}, {c.and(base, z), NumL{csti(0)}}, {c.and(base, g), NumL{csti(1)}}}
}

func (in *Interp) signOf2(st *State, a, b Val) Val {
	ga, ok1 := in.under(st, a).(*GV)
	gb, ok2 := in.under(st, b).(*GV)
	if !ok1 || !ok2 {
		in.undec("comparison of %s and %s", valKeyShort(a), valKeyShort(b))
	}
	var alts []Alt
	for _, x := range ga.alts {
		for _, y := range gb.alts {
			g := in.c.and(x.g, y.g)
			if in.c.and(g, st.pc) == bF {
				continue
			}
			alts = append(alts, in.signVal(sub(in.numLeaf(x.l), in.numLeaf(y.l)), g)...)
		}
	}
	return in.c.mkGV(alts)
}

func (in *Interp) errVal(id string) Val { return leaf(ErrL{id}) }

func nilV() Val          { return leaf(NilL{}) }
func tuple(v ...Val) Val { return &AggV{v} }

func (in *Interp) isConstV(st *State, v Val) (*big.Int, bool) {
	p, ok := in.intOf(in.under(st, v))
	if !ok {
		return nil, false
	}
	return p.isConst()
}

// fermat is x^(p-2) mod p: the inverse, zero for zero.
func (in *Interp) fermat(st *State, x, y Val, m Leaf) Val {
	c := in.c
	mk, ok := in.numLeaf(m).isConst()
	yk, ok2 := in.isConstV(st, y)
	if !ok || !ok2 || mk.BitLen() < 64 || new(big.Int).Sub(mk, yk).Cmp(bi(2)) != 0 || !isPrime(mk) {
		return nil
	}
	g, ok := in.under(st, x).(*GV)
	if !ok {
		return nil
	}
	var alts []Alt
	for _, a := range g.alts {
		p := in.numLeaf(a.l)
		if _, ok := p.isConst(); ok {
			alts = append(alts, Alt{a.g, NumL{in.expNum(p, cst(yk), cst(mk))}})
			continue
		}
		zb := c.zeroModB(p, mk)
		if w := c.and(a.g, zb); c.and(w, st.pc) != bF {
			alts = append(alts, Alt{w, NumL{csti(0)}})
		}
		if w := c.and(a.g, c.not(zb)); c.and(w, st.pc) != bF {
			alts = append(alts, Alt{w, NumL{c.mod(c.inverse(p, mk), mk)}})
		}
	}
	return c.mkGV(alts)
}

// invPrime computes x^-1 mod n into z; nil where x is 0 mod n.
func (in *Interp) modInverse(st *State, z, x, n Val) Val {
	c := in.c
	nv, ok := in.isConstV(st, in.rd(st, n))
	if !ok {
		// unknown modulus: uninterpreted
		nl, _ := one(in.rd(st, n))
		np := in.numLeaf(nl)
		ok := c.condVar(&condInfo{key: "invertible:" + valKey(in.rd(st, x)) + np.Key(), desc: "number is invertible"})
		xv := in.rd(st, x)
		r := in.lift1(st, xv, "ModInverse", func(l Leaf) Leaf {
			return NumL{c.atomPoly(c.atom(&atomInfo{kind: aUF, name: "modinv(" + in.numLeaf(l).Key() + "," + np.Key() + ")", lo: b0}))}
		})
		in.wr(st, z, c.merge(ok, r, in.rdOld(st, z)))
		return c.merge(ok, z, nilV())
	}
	nv = new(big.Int).Abs(nv)
	xv := in.under(st, in.rd(st, x))
	g, isg := xv.(*GV)
	if !isg {
		in.undec("ModInverse of %s", valKeyShort(xv))
	}
	bad := bF
	var alts []Alt
	for _, a := range g.alts {
		if c.and(a.g, st.pc) == bF {
			continue
		}
		p := in.numLeaf(a.l)
		if k, ok := p.isConst(); ok {
			iv := new(big.Int).ModInverse(k, nv)
			if iv == nil {
				bad = c.or(bad, a.g)
			} else {
				alts = append(alts, Alt{a.g, NumL{cst(iv)}})
			}
			continue
		}
		if !isPrime(nv) {
			in.undec("inverse modulo a composite number")
		}
		zb := c.zeroModB(p, nv)
		bad = c.or(bad, c.and(a.g, zb))
		if zb != bT && c.and(c.and(a.g, c.not(zb)), st.pc) != bF {
			alts = append(alts, Alt{c.and(a.g, c.not(zb)), NumL{c.mod(c.inverse(p, nv), nv)}})
		}
	}
	bad = c.and(bad, st.pc)
	if len(alts) == 0 {
		return nilV()
	}
	good := c.not(bad)
	if bad == bF {
		r := c.mkGV(alts)
		return in.wr(st, z, r)
	}
	old := in.rdOld(st, z)
	v := c.merge(good, c.mkGVpart(alts), old)
	in.wr(st, z, v)
	return c.merge(good, z, nilV())
}

// mkGVpart builds a value from alternatives that cover only part of the space.
func (c *Ctx) mkGVpart(alts []Alt) *GV {
	if len(alts) == 1 {
		return leaf(alts[0].l)
	}
	cov := bF
	for _, a := range alts {
		cov = c.or(cov, a.g)
	}
	last := alts[len(alts)-1]
	last.g = c.or(last.g, c.not(cov))
	out := append(append([]Alt(nil), alts[:len(alts)-1]...), last)
	return c.mkGV(out)
}

func (in *Interp) rdOld(st *State, z Val) Val {
	var r Val
	in.ptrs(st, z, "receiver", func(g Bdd, p PtrL) {
		x := in.unp(in.readPath(st.heap.get(p.obj), splitPath(p.path)))
		if r == nil {
			r = x
		} else {
			r = in.c.merge(g, x, r)
		}
	})
	return r
}

func (in *Interp) newInt(st *State, p *Poly) Val {
	return in.newPtr(st, in.bigIntT(), "int", num(p))
}

func (in *Interp) bigIntT() types.Type {
	if p := in.w.prog.ImportedPackage("math/big"); p != nil {
		return p.Pkg.Scope().Lookup("Int").Type()
	}
	return nil
}

func (in *Interp) str1(v Val) (StrL, bool) {
	l, ok := one(v)
	if !ok {
		return StrL{}, false
	}
	s, ok := l.(StrL)
	return s, ok
}

func decPiece(p *Poly) []Piece {
	if k, ok := p.isConst(); ok {
		return []Piece{lit(k.String())}
	}
	return []Piece{{k: "dec", key: p.Key(), p: p, n: -1}}
}

// intrinsic interprets calls into the standard library.
func (in *Interp) intrinsic(st *State, fn *ssa.Function, key string, args []Val, pos token.Pos) (Val, bool) {
	if in.w.ours(fn) {
		return nil, false
	}
	switch {
	case strings.HasPrefix(key, "(*math/big.Int)."):
		return in.bigInt(st, strings.TrimPrefix(key, "(*math/big.Int)."), args)
	case fn.Name() == "init" && fn.Signature.Params().Len() == 0:
		return nil, true
	}
	c := in.c
	switch key {
	case "math/big.NewInt":
		return in.newPtr(st, in.bigIntT(), "NewInt", args[0]), true
	case "crypto/rand.Int", "(*math/big.Int).Rand":
		return in.randInt(st, args, pos), true
	case "crypto/sha256.New":
		id := in.alloc(st, nil, "sha256", leaf(ModelL{kind: "sha"}))
		return leaf(IfaceL{in.errorType("sha256.digest"), leaf(PtrL{id, ""})}), true
	case "crypto/sha256.Sum256":
		l, ok := one(args[0])
		if !ok {
			in.undec("Sum256 of %s", valKeyShort(args[0]))
		}
		ps := in.seqPieces(st, l)
		a := &AggV{}
		sp := in.shaPiece(ps)
		n, _ := in.piecesNum([]Piece{sp})
		for i := 31; i >= 0; i-- {
			a.f = append(a.f, num(c.byteOf(n, i)))
		}
		return a, true
	case "errors.New":
		return in.errVal(in.w.pos(pos)), true
	case "fmt.Errorf":
		return in.errVal(in.w.pos(pos)), true
	case "bytes.Equal":
		r := in.boolOf2(st, args[0], args[1], func(x, y Leaf) Bdd {
			b, ok := in.piecesEqual(in.seqPieces(st, x), in.seqPieces(st, y))
			if !ok {
				in.undec("bytes.Equal of %s and %s", x.Key(), y.Key())
			}
			return b
		})
		return BoolV{r}, true
	case "bytes.Compare":
		ga, ok1 := args[0].(*GV)
		gb, ok2 := args[1].(*GV)
		if !ok1 || !ok2 {
			in.undec("bytes.Compare")
		}
		var alts []Alt
		for _, x := range ga.alts {
			for _, y := range gb.alts {
				g := c.and(x.g, y.g)
				if c.and(g, st.pc) == bF {
					continue
				}
				eq, ok := in.piecesEqual(in.seqPieces(st, x.l), in.seqPieces(st, y.l))
				if !ok {
					in.undec("bytes.Compare of %s and %s", x.l.Key(), y.l.Key())
				}
				order := c.atomPoly(c.atom(&atomInfo{kind: aSym, name: "order(" + x.l.Key() + "," + y.l.Key() + ")", lo: bi(-1), hi: b1, nonzero: true}))
				alts = append(alts, Alt{c.and(g, eq), NumL{&Poly{}}}, Alt{c.and(g, c.not(eq)), NumL{order}})
			}
		}
		return c.mkGV(alts), true
	case "strconv.FormatInt", "strconv.FormatUint":
		b, ok := in.constInt(args[1])
		if !ok || b != 10 {
			in.undec("FormatInt base")
		}
		return in.lift1(st, args[0], "FormatInt", func(l Leaf) Leaf { return StrL{decPiece(in.numLeaf(l))} }), true
	case "strconv.Itoa":
		return in.lift1(st, args[0], "Itoa", func(l Leaf) Leaf { return StrL{decPiece(in.numLeaf(l))} }), true
	case "math.Log", "math.Log2", "math.Ceil", "math.Floor", "math.Sqrt", "math.Pow", "math.Log10", "math.Trunc", "math.Round":
		return in.mathFn(st, fn.Name(), args), true
	case "math/bits.Len", "math/bits.Len64", "math/bits.Len32":
		return in.lift1(st, args[0], "bits.Len", func(l Leaf) Leaf { return NumL{in.bitLenNum(in.numLeaf(l))} }), true
	case "math/bits.TrailingZeros", "math/bits.TrailingZeros64", "math/bits.OnesCount", "math/bits.OnesCount64":
		return in.lift1(st, args[0], fn.Name(), func(l Leaf) Leaf {
			k, ok := in.numLeaf(l).isConst()
			if !ok {
				p := in.numLeaf(l)
				lo, hi := in.c.interval(p)
				if lo == nil || hi == nil || lo.Sign() < 0 {
					in.undec("%s of a symbol", fn.Name())
				}
				a := &atomInfo{kind: aUF, name: fn.Name() + "(" + p.Key() + ")", lo: b0, hi: bi(int64(hi.BitLen()))}
				if n := lo.BitLen(); lo.Sign() > 0 && strings.HasPrefix(fn.Name(), "Ones") {
					a.lo = b1
					if n == hi.BitLen() && lo.Cmp(new(big.Int).Lsh(b1, uint(n-1))) > 0 {
						a.lo = bi(2) // between two powers of two
					}
				} else if lo.Sign() > 0 {
					a.hi = bi(int64(hi.BitLen() - 1))
				}
				return NumL{in.c.atomPoly(in.c.atom(a))}
			}
			n := 0
			if strings.HasPrefix(fn.Name(), "Ones") {
				for i := 0; i < k.BitLen(); i++ {
					n += int(k.Bit(i))
				}
			} else if k.Sign() == 0 {
				n = 64
			} else {
				n = int(k.TrailingZeroBits())
			}
			return NumL{csti(int64(n))}
		}), true
	case "(*bytes.Buffer).WriteString", "(*strings.Builder).WriteString", "(*bytes.Buffer).Write", "(*strings.Builder).Write":
		l, ok := one(in.under(st, args[1]))
		if !ok {
			in.undec("write of alternatives")
		}
		ps := in.seqPieces(st, l)
		in.bufAppend(st, args[0], ps)
		return tuple(num(in.piecesLen(ps)), nilV()), true
	case "(*bytes.Buffer).WriteByte", "(*strings.Builder).WriteByte":
		p, ok := in.intOf(args[1])
		if !ok {
			in.undec("WriteByte")
		}
		in.bufAppend(st, args[0], in.packBytes([]*Poly{p}))
		return nilV(), true
	case "(*bytes.Buffer).Reset", "(*strings.Builder).Reset":
		in.store(st, args[0], leaf(ModelL{kind: "buf"}))
		return nil, true
	case "(*bytes.Buffer).String", "(*strings.Builder).String":
		return leaf(StrL{in.bufPieces(st, args[0])}.norm()), true
	case "(*bytes.Buffer).Bytes":
		ps := in.bufPieces(st, args[0])
		if bs, _, ok := in.pieceBytes(ps); ok {
			return leaf(in.newByteSlice(st, bs)), true
		}
		return leaf(SeqL{normPieces(ps)}), true
	case "(*bytes.Buffer).Len", "(*strings.Builder).Len":
		return num(in.piecesLen(in.bufPieces(st, args[0]))), true
	case "fmt.Println", "fmt.Printf", "fmt.Print":
		return tuple(numi(0), nilV()), true
	}
	return in.lib(st, fn, key, args, pos)
}

func (in *Interp) bufPieces(st *State, b Val) []Piece {
	l, ok := one(in.under(st, in.load(st, b)))
	if !ok {
		in.undec("buffer with alternatives")
	}
	m, ok := l.(ModelL)
	if !ok {
		in.undec("buffer is %s", l.Key())
	}
	return m.ps
}

func (in *Interp) bufAppend(st *State, b Val, ps []Piece) {
	old := in.bufPieces(st, b)
	in.store(st, b, leaf(ModelL{kind: "buf", ps: normPieces(append(append([]Piece(nil), old...), ps...))}))
}

func (in *Interp) piecesLen(ps []Piece) *Poly {
	acc := &Poly{}
	for _, p := range ps {
		if p.n >= 0 {
			acc = add(acc, csti(int64(p.n)))
		} else if p.k == "min" {
			acc = add(acc, in.byteLenPoly(p.p))
		} else {
			acc = add(acc, in.c.sym("strlen("+p.k+p.key+")", b0, nil))
		}
	}
	return acc
}

func (in *Interp) shaPiece(ps []Piece) Piece {
	ps = normPieces(ps)
	return Piece{k: "sha", key: piecesKey(ps), n: 32, sub: ps}
}

// modelInvoke handles methods of modelled interface values.
func (in *Interp) modelInvoke(st *State, l IfaceL, m *types.Func, args []Val, pos token.Pos) (Val, bool) {
	if !isModelType(l.typ) {
		return nil, false
	}
	p, ok := one(l.v)
	if !ok {
		in.undec("hash object")
	}
	cur := st.heap.get(p.(PtrL).obj)
	ml, ok := one(cur)
	if !ok {
		in.undec("hash state has alternatives")
	}
	mo := ml.(ModelL)
	switch m.Name() {
	case "Write":
		x, ok := one(in.under(st, args[0]))
		if !ok {
			in.undec("hash of alternatives")
		}
		ps := in.seqPieces(st, x)
		st.heap = st.heap.set(p.(PtrL).obj, leaf(ModelL{kind: mo.kind, ps: normPieces(append(append([]Piece(nil), mo.ps...), ps...))}))
		return tuple(num(in.piecesLen(ps)), nilV()), true
	case "Sum":
		x, ok := one(args[0])
		if !ok {
			in.undec("hash prefix")
		}
		pre := in.seqPieces(st, x)
		return leaf(SeqL{append(append([]Piece(nil), pre...), in.shaPiece(mo.ps))}), true
	case "Reset":
		st.heap = st.heap.set(p.(PtrL).obj, leaf(ModelL{kind: mo.kind}))
		return nil, true
	case "Size":
		return numi(32), true
	case "BlockSize":
		return numi(64), true
	}
	return nil, false
}

var modelTypes = map[string]types.Type{}

func (in *Interp) errorType(name string) types.Type {
	memoMu.Lock()
	defer memoMu.Unlock()
	if t, ok := modelTypes[name]; ok {
		return t
	}
	t := types.NewNamed(types.NewTypeName(token.NoPos, nil, "model:"+name, nil), types.NewStruct(nil, nil), nil)
	modelTypes[name] = t
	return t
}

func isModelType(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() == nil && strings.HasPrefix(n.Obj().Name(), "model:")
}

func (in *Interp) mathFn(st *State, name string, args []Val) Val {
	if len(args) == 2 {
		return in.lift2(st, args[0], args[1], name, func(a, b Leaf) Leaf {
			x, y := a.(FloatL), b.(FloatL)
			if x.k == "c" && y.k == "c" {
				return FloatL{k: "c", f: math.Pow(x.f, y.f)}
			}
			return FloatL{k: name + "(" + x.Key() + "," + y.Key() + ")", p: x.p}
		})
	}
	return in.lift1(st, args[0], name, func(a Leaf) Leaf {
		x, ok := a.(FloatL)
		if !ok {
			in.undec("%s of %s", name, a.Key())
		}
		if x.k == "c" {
			f := map[string]func(float64) float64{"Log": math.Log, "Log2": math.Log2, "Ceil": math.Ceil, "Floor": math.Floor, "Sqrt": math.Sqrt, "Log10": math.Log10, "Trunc": math.Trunc, "Round": math.Round}[name]
			return FloatL{k: "c", f: f(x.f)}
		}
		return FloatL{k: name + ":" + x.k, p: x.p}
	})
}

// randInt models crypto/rand.Int.
func (in *Interp) randInt(st *State, args []Val, pos token.Pos) Val {
	c := in.c
	mx, ok := in.isConstV(st, in.rd(st, args[1]))
	src := "other"
	if l, ok := one(args[0]); ok {
		if m, ok := l.(ModelL); ok {
			src = m.kind
		}
	}
	if !ok {
		mp, ok2 := in.intOf(in.rd(st, args[1]))
		if !ok2 {
			in.undec("bound of rand.Int")
		}
		_ = mp
		in.undec("bound of rand.Int is not constant")
	}
	if mx.Sign() <= 0 {
		in.panicIf(st, bT, "rand.Int with bound <= 0")
		return tuple(nilV(), nilV())
	}
	in.rands++
	a := &atomInfo{kind: aSym, name: fmt.Sprintf("rand#%d", in.rands), lo: b0, hi: new(big.Int).Sub(mx, b1), tag: "rand"}
	if in.randName != nil {
		a.name = in.randName(in.rands)
	}
	if isPrime(mx) {
		a.m = mx
	}
	kase := ""
	if in.randCase != nil {
		kase = in.randCase(in.rands)
	}
	if kase == "nonzero" {
		a.lo = b1
	}
	a = c.atom(a)
	in.randOf = append(in.randOf, randDraw{a, st.pc, src + " " + in.w.pos(pos)})
	v := in.newInt(st, c.atomPoly(a))
	switch kase {
	case "zero":
		v = in.newInt(st, csti(0))
	case "fail":
		return tuple(nilV(), in.errVal("rand"))
	}
	if kase != "" || src == "randReader" {
		return tuple(v, nilV())
	}
	bad := c.condVar(&condInfo{key: "randfail:" + a.name, desc: "the random source fails"})
	return tuple(c.merge(bad, nilV(), v), c.merge(bad, in.errVal("rand"), nilV()))
}

func (in *Interp) bigInt(st *State, m string, args []Val) (Val, bool) {
	c := in.c
	z := args[0]
	if c.opaque {
		if v, ok := in.opaqueOp(st, m, args); ok {
			return v, true
		}
	}
	arg := func(i int) Val { return args[i] }
	num1 := func(i int) Val { return in.under(st, in.rd(st, args[i])) }
	shift := func() uint {
		k, ok := in.constInt(in.under(st, args[2]))
		if !ok {
			return 1 << 31
		}
		return uint(k)
	}
	switch m {
	case "Set":
		v := num1(1)
		return in.wr(st, z, v), true
	case "SetInt64", "SetUint64":
		return in.wr(st, z, arg(1)), true
	case "Add":
		return in.bigOp2(st, z, arg(1), arg(2), add), true
	case "Sub":
		return in.bigOp2(st, z, arg(1), arg(2), sub), true
	case "Mul":
		return in.bigOp2(st, z, arg(1), arg(2), c.mul), true
	case "Neg":
		return in.bigOp1(st, z, arg(1), neg), true
	case "Abs":
		xv := num1(1)
		var alts []Alt
		for _, a := range xv.(*GV).alts {
			p := in.numLeaf(a.l)
			n := c.negB(p)
			alts = append(alts, Alt{c.and(a.g, n), NumL{neg(p)}}, Alt{c.and(a.g, c.not(n)), NumL{p}})
		}
		return in.wr(st, z, c.mkGV(alts)), true
	case "Mod":
		in.zeroDiv(st, num1(2))
		return in.bigOp2(st, z, arg(1), arg(2), in.modNum), true
	case "Div":
		in.zeroDiv(st, num1(2))
		return in.bigOp2(st, z, arg(1), arg(2), in.divNum), true
	case "Quo", "Rem", "QuoRem":
		in.zeroDiv(st, num1(2))
		q, r := in.quoRem(st, num1(1), num1(2))
		switch m {
		case "Quo":
			return in.wr(st, z, q), true
		case "Rem":
			return in.wr(st, z, r), true
		}
		in.wr(st, z, q)
		in.wr(st, arg(3), r)
		return tuple(z, arg(3)), true
	case "DivMod":
		in.zeroDiv(st, num1(2))
		x, y := num1(1), num1(2)
		q := in.lift2(st, x, y, "DivMod", func(a, b Leaf) Leaf { return NumL{in.divNum(in.numLeaf(a), in.numLeaf(b))} })
		r := in.lift2(st, x, y, "DivMod", func(a, b Leaf) Leaf { return NumL{in.modNum(in.numLeaf(a), in.numLeaf(b))} })
		in.wr(st, z, q)
		in.wr(st, arg(3), r)
		return tuple(z, arg(3)), true
	case "Exp":
		var mv Val
		if l, ok := one(in.under(st, args[3])); ok {
			if _, isNil := l.(NilL); !isNil {
				mv = num1(3)
			}
		} else {
			in.undec("Exp modulus")
		}
		x, y := num1(1), num1(2)
		var r Val
		if mv == nil {
			r = in.lift2(st, x, y, "Exp", func(a, b Leaf) Leaf { return NumL{in.expNum(in.numLeaf(a), in.numLeaf(b), nil)} })
		} else {
			ml, ok := one(mv)
			if !ok {
				in.undec("Exp modulus")
			}
			if v := in.fermat(st, x, y, ml); v != nil {
				return in.wr(st, z, v), true
			}
			r = in.lift2(st, x, y, "Exp", func(a, b Leaf) Leaf {
				return NumL{in.expNum(in.numLeaf(a), in.numLeaf(b), in.numLeaf(ml))}
			})
		}
		return in.wr(st, z, r), true
	case "ModInverse":
		return in.modInverse(st, z, arg(1), arg(2)), true
	case "ModSqrt":
		return in.modSqrt(st, z, arg(1), arg(2)), true
	case "Sqrt":
		return in.bigOp1(st, z, arg(1), func(p *Poly) *Poly {
			if k, ok := p.isConst(); ok && k.Sign() >= 0 {
				return cst(new(big.Int).Sqrt(k))
			}
			return c.sym("sqrt("+p.Key()+")", b0, nil)
		}), true
	case "Lsh":
		k := shift()
		if k > 4096 {
			in.undec("shift by a variable amount")
		}
		return in.bigOp1(st, z, arg(1), func(p *Poly) *Poly { return scale(p, new(big.Int).Lsh(b1, k)) }), true
	case "Rsh":
		k := shift()
		if k > 4096 {
			in.undec("shift by a variable amount")
		}
		return in.bigOp1(st, z, arg(1), func(p *Poly) *Poly { return c.div(p, new(big.Int).Lsh(b1, k)) }), true
	case "Not":
		return in.bigOp1(st, z, arg(1), func(p *Poly) *Poly { return sub(neg(p), cst(b1)) }), true
	case "And", "Or", "Xor", "AndNot":
		return in.bigOp2(st, z, arg(1), arg(2), func(p, q *Poly) *Poly { return in.bigBits(m, p, q) }), true
	case "Cmp":
		return in.signOf2(st, num1(0), num1(1)), true
	case "CmpAbs":
		f := func(l Leaf) Leaf { return NumL{in.abs(in.numLeaf(l))} }
		return in.signOf2(st, in.lift1(st, num1(0), "CmpAbs", f), in.lift1(st, num1(1), "CmpAbs", f)), true
	case "Sign":
		return in.signOf2(st, num1(0), numi(0)), true
	case "BitLen":
		return in.lift1(st, num1(0), "BitLen", func(l Leaf) Leaf { return NumL{in.bitLenNum(in.numLeaf(l))} }), true
	case "Bit":
		return in.lift2(st, num1(0), in.under(st, args[1]), "Bit", func(a, b Leaf) Leaf { return NumL{in.bitNum(in.numLeaf(a), in.numLeaf(b))} }), true
	case "TrailingZeroBits":
		return in.lift1(st, num1(0), "TrailingZeroBits", func(l Leaf) Leaf {
			k, ok := in.numLeaf(l).isConst()
			if !ok {
				in.undec("TrailingZeroBits")
			}
			return NumL{csti(int64(k.TrailingZeroBits()))}
		}), true
	case "Bits":
		return in.bits(st, num1(0)), true
	case "Bytes":
		return in.lift1(st, num1(0), "Bytes", func(l Leaf) Leaf { return in.bytesOf(st, in.numLeaf(l)) }), true
	case "FillBytes":
		return in.fillBytes(st, num1(0), args[1]), true
	case "SetBytes":
		v := in.lift1(st, in.under(st, args[1]), "SetBytes", func(l Leaf) Leaf {
			ps := in.seqPieces(st, l)
			p, ok := in.piecesNum(ps)
			if !ok {
				in.undec("number of %s", piecesKey(ps))
			}
			return NumL{p}
		})
		return in.wr(st, z, v), true
	case "Int64", "Uint64":
		t := types.Typ[types.Int64]
		if m == "Uint64" {
			t = types.Typ[types.Uint64]
		}
		return in.lift1(st, num1(0), m, func(l Leaf) Leaf {
			p := in.numLeaf(l)
			q := in.wrap(p, t)
			if !polyEq(p, q) {
				lo, hi, _ := rangeOf(t)
				if in.c.imp(c.and(st.pc, in.care), c.and(c.not(c.negB(sub(p, cst(lo)))), c.not(c.negB(sub(cst(hi), p))))) {
					return NumL{p} // known to fit here
				}
			}
			return NumL{q}
		}), true
	case "IsInt64", "IsUint64":
		v := num1(0)
		r := bF
		for _, a := range v.(*GV).alts {
			p := in.numLeaf(a.l)
			lo, hi := new(big.Int).Neg(new(big.Int).Lsh(b1, 63)), new(big.Int).Sub(new(big.Int).Lsh(b1, 63), b1)
			if m == "IsUint64" {
				lo, hi = b0, new(big.Int).Sub(new(big.Int).Lsh(b1, 64), b1)
			}
			ok := c.and(c.not(c.negB(sub(p, cst(lo)))), c.not(c.negB(sub(cst(hi), p))))
			r = c.or(r, c.and(a.g, ok))
			for _, k := range []int64{0, 1} { // small values fit
				in.care = c.and(in.care, c.or(ok, c.not(c.zeroInt(sub(p, csti(k))))))
			}
		}
		return BoolV{r}, true
	case "String", "Text":
		if m == "Text" {
			if b, ok := in.constInt(args[1]); !ok || b != 10 {
				in.undec("Text base")
			}
		}
		g, ok := in.under(st, args[0]).(*GV)
		if !ok {
			in.undec("String")
		}
		var r Val
		for _, a := range g.alts {
			var v Val
			switch l := a.l.(type) {
			case NilL:
				if in.noNil && len(g.alts) > 1 { // a group element that may be the identity
					in.care = c.and(in.care, c.not(c.and(st.pc, a.g)))
					in.idents++
					continue
				}
				v = leaf(StrL{[]Piece{lit("<nil>")}})
			case PtrL:
				v = in.lift1(st, in.under(st, in.loadP(st, l)), "String", func(x Leaf) Leaf { return StrL{decPiece(in.numLeaf(x))} })
			default:
				in.undec("String of %s", l.Key())
			}
			if r == nil {
				r = v
			} else {
				r = c.merge(a.g, v, r)
			}
		}
		return r, true
	case "SetString":
		s, ok := in.str1(in.under(st, args[1]))
		if !ok {
			in.undec("SetString")
		}
		base, ok := in.constInt(args[2])
		if !ok {
			in.undec("SetString base")
		}
		if t, ok := s.literal(); ok {
			x, ok := new(big.Int).SetString(t, int(base))
			if !ok {
				return tuple(nilV(), BoolV{bF}), true
			}
			in.wr(st, z, num(cst(x)))
			return tuple(z, BoolV{bT}), true
		}
		if bs, _, okb := in.pieceBytes(s.ps); okb && base == 10 {
			if p, res := in.digits(bs); res > 0 {
				in.wr(st, z, num(p))
				return tuple(z, BoolV{bT}), true
			} else if res < 0 {
				return tuple(nilV(), BoolV{bF}), true
			}
		}
		if len(s.ps) == 1 && s.ps[0].k == "dec" && base == 10 {
			in.wr(st, z, num(s.ps[0].p))
			return tuple(z, BoolV{bT}), true
		}
		v := c.condVar(&condInfo{key: "parses:" + s.Key() + fmt.Sprint(base), desc: "the text is a number"})
		p := c.sym("parse("+s.Key()+","+fmt.Sprint(base)+")", nil, nil)
		old := in.rdOld(st, z)
		in.wr(st, z, c.merge(v, num(p), old))
		return tuple(c.merge(v, z, nilV()), BoolV{v}), true
	case "ProbablyPrime":
		k, ok := in.isConstV(st, num1(0))
		if !ok {
			in.undec("ProbablyPrime")
		}
		if isPrime(k) {
			return BoolV{bT}, true
		}
		return BoolV{bF}, true
	}
	in.undec("big.Int.%s is not modelled", m)
	return nil, false
}

// digits is the value of a decimal text given by its bytes; the second
// result is 1 for a number, -1 if it certainly is none, 0 if unknown.
func (in *Interp) digits(bs []*Poly) (*Poly, int) {
	negv := false
	if len(bs) > 0 {
		if k, ok := bs[0].isConst(); ok && (k.Int64() == '-' || k.Int64() == '+') {
			negv = k.Int64() == '-'
			bs = bs[1:]
		}
	}
	if len(bs) == 0 {
		return nil, -1
	}
	acc := &Poly{}
	unsure := false
	for i, b := range bs {
		lo, hi := in.c.interval(b)
		switch {
		case lo != nil && hi != nil && lo.Cmp(bi('0')) >= 0 && hi.Cmp(bi('9')) <= 0:
		case lo != nil && lo.Cmp(bi('9')) > 0, hi != nil && hi.Cmp(bi('0')) < 0 && (i > 0 || negv):
			return nil, -1
		default:
			unsure = true
		}
		acc = add(scale(acc, bi(10)), sub(b, csti('0')))
	}
	if unsure {
		return nil, 0
	}
	if negv {
		acc = neg(acc)
	}
	return acc, 1
}

func (in *Interp) zeroDiv(st *State, d Val) {
	g, ok := d.(*GV)
	if !ok {
		return
	}
	for _, a := range g.alts {
		z := in.c.and(a.g, in.c.zeroInt(in.numLeaf(a.l)))
		if in.c.and(z, st.pc) != bF {
			in.panicIf(st, z, "division by zero")
		}
	}
}

func (in *Interp) bytesOf(st *State, p *Poly) Leaf {
	if k, ok := p.isConst(); ok {
		var bs []*Poly
		for _, b := range new(big.Int).Abs(k).Bytes() {
			bs = append(bs, csti(int64(b)))
		}
		return in.newByteSlice(st, bs)
	}
	if n, ok := in.byteLen(p); ok {
		q := in.abs(p)
		var bs []*Poly
		for i := n - 1; i >= 0; i-- {
			bs = append(bs, in.c.byteOf(q, i))
		}
		return in.newByteSlice(st, bs)
	}
	if in.c.negB(p) != bF {
		q := in.c.negB(p)
		if q == bT {
			return BytesL{neg(p)}
		}
	}
	return BytesL{p}
}

func (in *Interp) fillBytes(st *State, v, buf Val) Val {
	p, ok := in.intOf(v)
	l, ok2 := one(buf)
	if !ok || !ok2 {
		in.undec("FillBytes")
	}
	s, ok := l.(SliceL)
	if !ok {
		in.undec("FillBytes buffer")
	}
	_, hi := in.c.interval(p)
	if hi == nil || hi.BitLen() > 8*s.len {
		in.undec("FillBytes may not fit")
	}
	path := splitPath(s.path)
	o := st.heap.get(s.obj)
	for i := 0; i < s.len; i++ {
		o = in.writePath(o, append(append([]int(nil), path...), s.off+i), num(in.c.byteOf(p, s.len-1-i)))
	}
	st.heap = st.heap.set(s.obj, o)
	return buf
}

// bits models (*big.Int).Bits: only the tests "is zero" and "is one" matter.
func (in *Interp) bits(st *State, v Val) Val {
	c := in.c
	var alts []Alt
	wt := types.Typ[types.Uint]
	mkSlice := func(ws ...*Poly) Leaf {
		a := &AggV{}
		for _, w := range ws {
			a.f = append(a.f, num(w))
		}
		id := in.alloc(st, types.NewArray(wt, int64(len(ws))), "words", a)
		return SliceL{id, "", 0, len(ws), len(ws)}
	}
	for _, a := range v.(*GV).alts {
		p := in.numLeaf(a.l)
		if k, ok := p.isConst(); ok {
			k = new(big.Int).Abs(k)
			var ws []*Poly
			m := new(big.Int).Sub(new(big.Int).Lsh(b1, 64), b1)
			for k.Sign() > 0 {
				ws = append(ws, cst(new(big.Int).And(k, m)))
				k = new(big.Int).Rsh(k, 64)
			}
			alts = append(alts, Alt{a.g, mkSlice(ws...)})
			continue
		}
		z := c.zeroInt(p)
		o := c.and(c.not(z), c.or(c.zeroInt(sub(p, csti(1))), c.zeroInt(add(p, csti(1)))))
		rest := c.not(c.or(z, o))
		sm := c.condVar(&condInfo{key: "oneword:" + p.Key(), desc: c.show(p) + " fits one word"})
		if lo, hi := c.interval(p); lo != nil && hi != nil && lo.BitLen() <= 64 && hi.BitLen() <= 64 {
			sm = bT
		}
		max := new(big.Int).Sub(new(big.Int).Lsh(b1, 64), b1)
		w1 := c.sym("word("+p.Key()+")", b2, max)
		w2 := c.sym("word1("+p.Key()+")", b1, max)
		w3 := c.sym("word0("+p.Key()+")", b0, max)
		alts = append(alts, Alt{c.and(a.g, z), mkSlice()}, Alt{c.and(a.g, o), mkSlice(csti(1))})
		if g := c.and(a.g, c.and(rest, sm)); g != bF {
			alts = append(alts, Alt{g, mkSlice(w1)})
		}
		if g := c.and(a.g, c.and(rest, c.not(sm))); g != bF {
			alts = append(alts, Alt{g, mkSlice(w3, w2)})
		}
	}
	return c.mkGV(alts)
}

// modSqrt: nil where x has no root.
func (in *Interp) modSqrt(st *State, z, x, n Val) Val {
	c := in.c
	nv, ok := in.isConstV(st, in.rd(st, n))
	p, ok2 := in.intOf(in.under(st, in.rd(st, x)))
	if !ok || !ok2 {
		in.undec("ModSqrt")
	}
	if k, ok := p.isConst(); ok {
		r := new(big.Int).ModSqrt(k, nv)
		if r == nil {
			return nilV()
		}
		return in.wr(st, z, num(cst(r)))
	}
	rp := c.reduce(p, nv)
	is := c.condVar(&condInfo{key: "square:" + rp.Key() + nv.Text(62), desc: c.show(rp) + " is a square"})
	root := c.atomPoly(c.atom(&atomInfo{kind: aUF, name: "sqrt(" + rp.Key() + ")", arg: rp, m: nv, lo: b0, hi: new(big.Int).Sub(nv, b1), data: "sqrt"}))
	old := in.rdOld(st, z)
	in.wr(st, z, c.merge(is, num(root), old))
	return c.merge(is, z, nilV())
}

func itoa(i int) string { return strconv.Itoa(i) }

// bigBits is x op y for big numbers: both are constants, or the operation is the reduction modulo a power of two.
func (in *Interp) bigBits(m string, p, q *Poly) *Poly {
	x, okx := p.isConst()
	y, oky := q.isConst()
	if okx && oky {
		z := new(big.Int)
		switch m {
		case "And":
			z.And(x, y)
		case "Or":
			z.Or(x, y)
		case "Xor":
			z.Xor(x, y)
		case "AndNot":
			z.AndNot(x, y)
		}
		return cst(z)
	}
	if m == "And" {
		if okx {
			p, y, oky = q, x, true
		}
		if oky && y.Sign() >= 0 {
			n := new(big.Int).Add(y, b1)
			if new(big.Int).And(n, y).Sign() == 0 {
				return in.modNum(p, cst(n))
			}
		}
	}
	in.undec("bit operation %s on big numbers", m)
	return nil
}
