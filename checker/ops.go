package main

// Operators, conversions, strings, byte sequences and builtins.

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const modPath = "github.com/ing-bank/zkrp"

func fnPkg(fn *ssa.Function) string {
	if fn.Origin() != nil {
		fn = fn.Origin()
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		return fn.Object().Pkg().Path()
	}
	if fn.Parent() != nil {
		return fnPkg(fn.Parent())
	}
	return ""
}

func (w *World) oursPath(p string) bool { return p == modPath || strings.HasPrefix(p, modPath+"/") }

func (w *World) ours(fn *ssa.Function) bool {
	p := fnPkg(fn)
	return p == modPath || strings.HasPrefix(p, modPath+"/")
}

func (c *Ctx) hasBitLen(p *Poly) bool {
	for _, t := range p.t {
		for i := 0; i+6 <= len(t.m); i += 6 {
			if c.atoms[atomOf(t.m[i:])].kind == aBitLen {
				return true
			}
		}
	}
	return false
}

// ---------- strings and byte sequences ----------

func lit(s string) Piece { return Piece{k: "lit", lit: s, n: len(s)} }

func normPieces(ps []Piece) []Piece {
	var out []Piece
	for _, p := range ps {
		if p.k == "lit" {
			if p.lit == "" {
				continue
			}
			if len(out) > 0 && out[len(out)-1].k == "lit" {
				out[len(out)-1] = lit(out[len(out)-1].lit + p.lit)
				continue
			}
		}
		out = append(out, p)
	}
	return out
}

func (l StrL) norm() StrL { return StrL{normPieces(l.ps)} }

func (l StrL) literal() (string, bool) {
	ps := normPieces(l.ps)
	if len(ps) == 0 {
		return "", true
	}
	if len(ps) == 1 && ps[0].k == "lit" {
		return ps[0].lit, true
	}
	return "", false
}

// bytes returns the bytes of a string of known length.
func (l StrL) bytes(in *Interp) ([]*Poly, int, bool) {
	return in.pieceBytes(l.ps)
}

func (in *Interp) pieceBytes(ps []Piece) ([]*Poly, int, bool) {
	var out []*Poly
	for _, p := range ps {
		switch {
		case p.k == "lit":
			for i := 0; i < len(p.lit); i++ {
				out = append(out, csti(int64(p.lit[i])))
			}
		case p.k == "num" && p.n >= 0: // fixed width big endian number
			for i := p.n - 1; i >= 0; i-- {
				out = append(out, in.c.byteOf(p.p, i))
			}
		case p.k == "byte":
			out = append(out, p.p)
		default:
			return nil, 0, false
		}
	}
	return out, len(out), true
}

// byteOf is byte k of the number p >= 0.
func (c *Ctx) byteOf(p *Poly, k int) *Poly {
	if v, ok := p.isConst(); ok {
		x := new(big.Int).Rsh(new(big.Int).Abs(v), uint(8*k))
		return cst(new(big.Int).And(x, bi(255)))
	}
	lo, hi := c.interval(p)
	if lo != nil && lo.Sign() >= 0 && hi != nil {
		if new(big.Int).Rsh(hi, uint(8*k)).Sign() == 0 {
			return &Poly{}
		}
		if k == 0 && hi.Cmp(bi(255)) <= 0 {
			return p
		}
	}
	var h *big.Int = bi(255)
	l := b0
	if hi != nil && lo != nil && lo.Sign() >= 0 {
		a, b := new(big.Int).Rsh(lo, uint(8*k)), new(big.Int).Rsh(hi, uint(8*k))
		if new(big.Int).Rsh(a, 8).Cmp(new(big.Int).Rsh(b, 8)) == 0 { // the higher bytes are fixed
			l, h = new(big.Int).And(a, bi(255)), new(big.Int).And(b, bi(255))
		}
	}
	if l.Cmp(h) == 0 {
		return cst(l)
	}
	return c.atomPoly(c.atom(&atomInfo{kind: aByte, name: fmt.Sprintf("byte%d(%s)", k, p.Key()), arg: p, k: k, lo: l, hi: h}))
}

// packBytes turns a list of byte values into pieces.
func (in *Interp) packBytes(bs []*Poly) []Piece {
	c := in.c
	var out []Piece
	for i := 0; i < len(bs); {
		if k, ok := bs[i].isConst(); ok {
			// constant leading bytes of a number whose range fixes them
			if k.Sign() != 0 {
				j := i + 1
				for j < len(bs) && j < i+3 {
					if _, ok := bs[j].isConst(); !ok {
						break
					}
					j++
				}
				if j < len(bs) {
					if a := c.single(bs[j]); a != nil && a.kind == aByte {
						n := j - i + a.k + 1
						if lo, hi := c.interval(a.arg); lo != nil && hi != nil && lo.Sign() >= 0 && hi.BitLen() <= 8*n && i+n <= len(bs) {
							all := true
							for m := 0; m < n && all; m++ {
								all = polyEq(c.byteOf(a.arg, n-1-m), bs[i+m])
							}
							if all {
								out = append(out, Piece{k: "num", key: a.arg.Key(), p: a.arg, n: n})
								i += n
								continue
							}
						}
					}
				}
			}
			out = append(out, lit(string([]byte{byte(k.Int64())})))
			i++
			continue
		}
		a := c.single(bs[i])
		if a != nil && a.kind == aByte {
			// run of bytes of the same number down to byte 0
			j, k := i, a.k
			for j < len(bs) && k >= 0 {
				want := c.byteOf(a.arg, k)
				if !polyEq(want, bs[j]) {
					break
				}
				j++
				k--
			}
			if k < 0 {
				n := a.k + 1
				// absorb preceding zero bytes that complete the number
				if lo, hi := c.interval(a.arg); lo != nil && hi != nil && lo.Sign() >= 0 && hi.BitLen() <= 8*n {
					if h := c.single(a.arg); h != nil && polyEq(a.arg, c.atomPoly(h)) {
						if sp, ok := h.data.(Piece); ok && sp.k == "sha" && sp.n == n && strings.HasPrefix(h.name, "sha:") {
							out = append(out, sp) // the whole of a hash value
							i = j
							continue
						}
					}
					out = append(out, Piece{k: "num", key: a.arg.Key(), p: a.arg, n: n})
					i = j
					continue
				}
			}
		}
		out = append(out, Piece{k: "byte", key: bs[i].Key(), p: bs[i], n: 1})
		i++
	}
	return normPieces(out)
}

func (in *Interp) strOfBytes(bs []*Poly) Leaf { return StrL{in.packBytes(bs)} }

// seqPieces converts any byte sequence value to pieces.
func (in *Interp) seqPieces(st *State, l Leaf) []Piece {
	switch x := l.(type) {
	case NilL:
		return nil
	case StrL:
		return x.ps
	case SeqL:
		return x.ps
	case BytesL:
		if k, ok := x.p.isConst(); ok {
			return normPieces([]Piece{lit(string(new(big.Int).Abs(k).Bytes()))})
		}
		return []Piece{{k: "min", key: x.p.Key(), p: x.p, n: -1}}
	case SliceL:
		return in.packBytes(in.sliceNums(st, x))
	}
	in.undec("bytes of %s", l.Key())
	return nil
}

func (in *Interp) sliceNums(st *State, s SliceL) []*Poly {
	var out []*Poly
	arr, ok := in.readPath(st.heap.get(s.obj), splitPath(s.path)).(*AggV)
	if !ok {
		in.undec("slice content")
	}
	for i := 0; i < s.len; i++ {
		p, ok := in.intOf(arr.f[s.off+i])
		if !ok {
			in.undec("byte %d of a slice is not a single number: %s", i, valKeyShort(arr.f[s.off+i]))
		}
		out = append(out, p)
	}
	return out
}

func (in *Interp) seqByte(l Leaf, k int) Val {
	switch x := l.(type) {
	case SeqL:
		pos := 0
		for _, p := range x.ps {
			if p.n < 0 {
				break
			}
			if k < pos+p.n {
				switch p.k {
				case "lit":
					return numi(int64(p.lit[k-pos]))
				case "byte":
					return num(p.p)
				case "num":
					return num(in.c.byteOf(p.p, p.n-1-(k-pos)))
				}
				in.undec("byte of %s", p.k)
			}
			pos += p.n
		}
	case BytesL:
		if n, ok := in.byteLen(x.p); ok && k < n {
			return num(in.c.byteOf(x.p, n-1-k))
		}
	}
	in.undec("byte %d of %s", k, l.Key())
	return nil
}

// byteLen: number of bytes of |p| if known.
func (in *Interp) byteLen(p *Poly) (int, bool) {
	lo, hi := in.c.interval(p)
	if lo != nil && hi != nil {
		if hi.Sign() <= 0 {
			lo, hi = new(big.Int).Neg(hi), new(big.Int).Neg(lo)
		}
		if lo.Sign() >= 0 {
			a, b := (lo.BitLen()+7)/8, (hi.BitLen()+7)/8
			if a == b {
				return a, true
			}
		}
	}
	return 0, false
}

// byteLenPoly: length of the minimal encoding as a number.
func (in *Interp) byteLenPoly(p *Poly) *Poly {
	if n, ok := in.byteLen(p); ok {
		return csti(int64(n))
	}
	c := in.c
	lo, hi := c.interval(p)
	a := &atomInfo{kind: aUF, name: "bytelen(" + p.Key() + ")", lo: b0, arg: p, data: "bytelen"}
	if lo != nil && hi != nil && lo.Sign() >= 0 {
		a.lo, a.hi = bi(int64((lo.BitLen()+7)/8)), bi(int64((hi.BitLen()+7)/8))
	}
	return c.atomPoly(c.atom(a))
}

func (in *Interp) piecesNum(ps []Piece) (*Poly, bool) {
	// the big endian number a byte string stands for
	c := in.c
	ps = normPieces(ps)
	if len(ps) == 0 {
		return &Poly{}, true
	}
	if len(ps) == 1 && ps[0].k == "min" {
		p := ps[0].p
		if lo, _ := c.interval(p); lo != nil && lo.Sign() >= 0 {
			return p, true
		}
		return nil, false
	}
	acc := &Poly{}
	for _, p := range ps {
		if p.n < 0 && p.k == "min" && acc.isZero() && len(ps) == 1 {
			return p.p, true
		}
		if p.n < 0 {
			return nil, false
		}
		acc = scale(acc, new(big.Int).Lsh(b1, uint(8*p.n)))
		switch p.k {
		case "lit":
			acc = add(acc, cst(new(big.Int).SetBytes([]byte(p.lit))))
		case "num", "byte":
			acc = add(acc, p.p)
		case "sha":
			a := c.atom(&atomInfo{kind: aUF, name: "sha:" + p.key, lo: b0, hi: new(big.Int).Sub(new(big.Int).Lsh(b1, uint(8*p.n)), b1), tag: "hash", nonzero: true, data: p})
			acc = add(acc, c.atomPoly(a))
		default:
			return nil, false
		}
	}
	if len(acc.t) > 2 { // the bytes of a number, perhaps flipped, are that number
		if r := c.applyRelations(acc); len(r.t) < len(acc.t) {
			acc = r
		}
	}
	return acc, true
}

// piecesEqual decides equality of two byte strings as a condition.
func (in *Interp) piecesEqual(a, b []Piece) (Bdd, bool) {
	a, b = normPieces(a), normPieces(b)
	if piecesKey(a) == piecesKey(b) {
		return bT, true
	}
	ba, na, ok1 := in.pieceBytes(a)
	bb, nb, ok2 := in.pieceBytes(b)
	if ok1 && ok2 {
		if na != nb {
			return bF, true
		}
		// compare aligned numbers
		if len(a) == len(b) {
			same := true
			for i := range a {
				if a[i].n != b[i].n || a[i].k == "lit" && b[i].k != "lit" || a[i].k != "lit" && b[i].k == "lit" {
					same = false
				}
			}
			if same {
				r := bT
				for i := range a {
					if a[i].k == "lit" {
						if a[i].lit != b[i].lit {
							return bF, true
						}
						continue
					}
					r = in.c.and(r, in.c.zeroInt(sub(a[i].p, b[i].p)))
				}
				return r, true
			}
		}
		r := bT
		for i := range ba {
			r = in.c.and(r, in.c.zeroInt(sub(ba[i], bb[i])))
		}
		return r, true
	}
	// decimal representations of single numbers
	if len(a) == 1 && len(b) == 1 {
		x, y := a[0], b[0]
		if x.k == "lit" {
			x, y = y, x
		}
		if x.k == "dec" && y.k == "dec" {
			return in.c.zeroInt(sub(x.p, y.p)), true
		}
		if x.k == "dec" && y.k == "lit" {
			v, ok := new(big.Int).SetString(y.lit, 10)
			if !ok || v.String() != y.lit {
				return bF, true
			}
			return in.c.zeroInt(sub(x.p, cst(v))), true
		}
		if (x.k == "enc" || x.k == "txt") && x.k == y.k && x.e.g == y.e.g {
			return in.zeroOf(in.c.eSub(x.e, y.e)), true
		}
		if x.k == "sha" && y.k == "sha" {
			return in.c.condVar(&condInfo{key: "shaeq:" + x.key + "=" + y.key, desc: "hash collision"}), true
		}
		if x.k == "uf" || y.k == "uf" {
			return in.c.condVar(&condInfo{key: "streq:" + piecesKey(a) + "=" + piecesKey(b), desc: "equal texts"}), true
		}
	}
	return bF, false
}

// ---------- equality ----------

func (in *Interp) equal(a, b Val) Bdd {
	c := in.c
	switch x := a.(type) {
	case BoolV:
		if y, ok := b.(BoolV); ok {
			return c.not(c.xor(x.b, y.b))
		}
	case *AggV:
		if y, ok := b.(*AggV); ok && len(x.f) == len(y.f) {
			r := bT
			for i := range x.f {
				r = c.and(r, in.equal(x.f[i], y.f[i]))
			}
			return r
		}
	case *GV:
		if y, ok := b.(*GV); ok {
			r := bF
			for _, s := range x.alts {
				for _, t := range y.alts {
					g := c.and(s.g, t.g)
					if g == bF {
						continue
					}
					r = c.or(r, c.and(g, in.eqLeaf(s.l, t.l)))
				}
			}
			return r
		}
	}
	in.undec("comparison of %s and %s", valKeyShort(a), valKeyShort(b))
	return bF
}

func (in *Interp) eqLeaf(a, b Leaf) Bdd {
	c := in.c
	switch x := a.(type) {
	case NumL:
		if y, ok := b.(NumL); ok {
			return c.zeroInt(sub(x.p, y.p))
		}
	case StrL:
		if y, ok := b.(StrL); ok {
			if r, ok := in.piecesEqual(x.ps, y.ps); ok {
				return r
			}
			return c.condVar(&condInfo{key: "streq:" + x.Key() + "=" + y.Key(), desc: "equal texts"})
		}
	case NilL:
		switch b.(type) {
		case NilL:
			return bT
		case PtrL, SliceL, FuncL, IfaceL, ErrL, MapL, SeqL:
			return bF
		case BytesL: // big.Int.Bytes never returns nil
			return bF
		}
	case PtrL:
		switch y := b.(type) {
		case PtrL:
			if x == y {
				return bT
			}
			return bF
		case NilL:
			return bF
		}
	case SliceL, FuncL, MapL, SeqL, BytesL:
		if _, ok := b.(NilL); ok {
			return bF
		}
	case ErrL:
		switch y := b.(type) {
		case NilL:
			return bF
		case ErrL:
			if x.id != "" && x.id == y.id {
				return bT
			}
			return bF
		case IfaceL:
			return bF
		}
	case IfaceL:
		switch y := b.(type) {
		case NilL, ErrL:
			return bF
		case IfaceL:
			if !types.Identical(x.typ, y.typ) {
				return bF
			}
			return in.equal(x.v, y.v)
		}
	case FloatL:
		if y, ok := b.(FloatL); ok {
			return in.floatCmp(token.EQL, x, y)
		}
	}
	in.undec("comparison of %s and %s", a.Key(), b.Key())
	return bF
}

func (in *Interp) floatCmp(op token.Token, x, y FloatL) Bdd {
	c := in.c
	tr := func(b bool) Bdd {
		if b {
			return bT
		}
		return bF
	}
	if x.k == "c" && y.k == "c" {
		switch op {
		case token.EQL:
			return tr(x.f == y.f)
		case token.LSS:
			return tr(x.f < y.f)
		case token.LEQ:
			return tr(x.f <= y.f)
		case token.GTR:
			return tr(x.f > y.f)
		case token.GEQ:
			return tr(x.f >= y.f)
		}
	}
	if x.k == "c" {
		flip := map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ, token.EQL: token.EQL}
		return in.floatCmp(flip[op], y, x)
	}
	// log(p) against 0
	if (x.k == "Log:int" || x.k == "Log2:int" || x.k == "Log10:int") && y.k == "c" && y.f == 0 {
		lo, hi := c.interval(x.p)
		pos := lo != nil && lo.Cmp(b1) >= 0
		switch {
		case pos && op == token.EQL:
			return c.zeroInt(sub(x.p, csti(1)))
		case pos && op == token.GTR:
			return c.not(c.zeroInt(sub(x.p, csti(1))))
		case pos && op == token.LEQ:
			return c.zeroInt(sub(x.p, csti(1)))
		case pos && op == token.GEQ:
			return bT
		case pos && op == token.LSS:
			return bF
		case hi != nil && hi.Sign() <= 0 && (op == token.EQL || op == token.GTR || op == token.GEQ): // -Inf, NaN
			return bF
		}
	}
	if x.k == "int" && y.k == "c" && y.f == float64(int64(y.f)) {
		d := sub(x.p, csti(int64(y.f)))
		switch op {
		case token.EQL:
			return c.zeroInt(d)
		case token.LSS:
			return c.negB(d)
		case token.GEQ:
			return c.not(c.negB(d))
		case token.GTR:
			return c.negB(neg(d))
		case token.LEQ:
			return c.not(c.negB(neg(d)))
		}
	}
	in.undec("comparison of floating point numbers")
	return bF
}

// ---------- numbers of machine types ----------

func intRange(t types.Type) (bits int, signed bool, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB || b.Info()&types.IsInteger == 0 {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	default:
		return 64, false, true
	}
}

// wrap brings a number into the range of a machine type.
// rangeOf is the smallest and largest value of an integer type.
func rangeOf(t types.Type) (*big.Int, *big.Int, bool) {
	bits, signed, ok := intRange(t)
	if !ok {
		return nil, nil, false
	}
	m := new(big.Int).Lsh(b1, uint(bits))
	if signed {
		h := new(big.Int).Rsh(m, 1)
		return new(big.Int).Neg(h), new(big.Int).Sub(h, b1), true
	}
	return b0, new(big.Int).Sub(m, b1), true
}

func (in *Interp) wrap(p *Poly, t types.Type) *Poly {
	bits, signed, ok := intRange(t)
	if !ok {
		return p
	}
	c := in.c
	m := new(big.Int).Lsh(b1, uint(bits))
	lo, hi, _ := rangeOf(t)
	l, h := c.interval(p)
	if l != nil && h != nil && l.Cmp(lo) >= 0 && h.Cmp(hi) <= 0 {
		return p
	}
	if c.hasBitLen(p) {
		return p // lengths are far below 2^63
	}
	if signed {
		return add(c.modDigit(sub(p, cst(lo)), m), cst(lo))
	}
	return c.modDigit(p, m)
}

func (in *Interp) lift2(st *State, a, b Val, what string, f func(x, y Leaf) Leaf) Val {
	ga, ok1 := a.(*GV)
	gb, ok2 := b.(*GV)
	if !ok1 || !ok2 {
		in.undec("%s of %s and %s", what, valKeyShort(a), valKeyShort(b))
	}
	if len(ga.alts) == 1 && len(gb.alts) == 1 {
		return leaf(f(ga.alts[0].l, gb.alts[0].l))
	}
	var alts []Alt
	for _, x := range ga.alts {
		for _, y := range gb.alts {
			g := in.c.and(x.g, y.g)
			if in.c.and(g, st.pc) == bF {
				continue
			}
			alts = append(alts, Alt{g, f(x.l, y.l)})
		}
	}
	return in.c.mkGV(alts)
}

func (in *Interp) lift1(st *State, a Val, what string, f func(x Leaf) Leaf) Val {
	return in.lift2(st, a, leaf(NilL{}), what, func(x, _ Leaf) Leaf { return f(x) })
}

// boolOf2 computes a condition from two guarded operands.
func (in *Interp) boolOf2(st *State, a, b Val, f func(x, y Leaf) Bdd) Bdd {
	ga, ok1 := a.(*GV)
	gb, ok2 := b.(*GV)
	if !ok1 || !ok2 {
		in.undec("comparison of %s and %s", valKeyShort(a), valKeyShort(b))
	}
	r := bF
	for _, x := range ga.alts {
		for _, y := range gb.alts {
			g := in.c.and(x.g, y.g)
			if in.c.and(g, st.pc) == bF {
				continue
			}
			r = in.c.or(r, in.c.and(g, f(x.l, y.l)))
		}
	}
	return r
}

func (in *Interp) numLeaf(l Leaf) *Poly {
	n, ok := l.(NumL)
	if !ok {
		in.undec("number expected, got %s", l.Key())
	}
	return n.p
}

func (in *Interp) binop(st *State, op token.Token, a, b Val, t, rt types.Type) Val {
	c := in.c
	switch op {
	case token.EQL:
		return BoolV{in.equal(a, b)}
	case token.NEQ:
		return BoolV{c.not(in.equal(a, b))}
	}
	if x, ok := a.(BoolV); ok {
		y, ok := b.(BoolV)
		if ok {
			switch op {
			case token.AND, token.LAND:
				return BoolV{c.and(x.b, y.b)}
			case token.OR, token.LOR:
				return BoolV{c.or(x.b, y.b)}
			case token.XOR:
				return BoolV{c.xor(x.b, y.b)}
			}
		}
		in.undec("operator %s", op)
	}
	switch op {
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		r := in.boolOf2(st, a, b, func(x, y Leaf) Bdd {
			if fx, ok := x.(FloatL); ok {
				return in.floatCmp(op, fx, y.(FloatL))
			}
			if sx, ok := x.(StrL); ok {
				p, ok1 := sx.literal()
				q, ok2 := y.(StrL).literal()
				if !ok1 || !ok2 {
					in.undec("order of strings")
				}
				v := map[token.Token]bool{token.LSS: p < q, token.LEQ: p <= q, token.GTR: p > q, token.GEQ: p >= q}[op]
				if v {
					return bT
				}
				return bF
			}
			d := sub(in.numLeaf(x), in.numLeaf(y))
			switch op {
			case token.LSS:
				return c.negB(d)
			case token.GEQ:
				return c.not(c.negB(d))
			case token.GTR:
				return c.negB(neg(d))
			default:
				return c.not(c.negB(neg(d)))
			}
		})
		return BoolV{r}
	}
	return in.lift2(st, a, b, "operator "+op.String(), func(x, y Leaf) Leaf {
		if fx, ok := x.(FloatL); ok {
			return in.floatOp(op, fx, y.(FloatL))
		}
		if sx, ok := x.(StrL); ok && op == token.ADD {
			sy := y.(StrL)
			return StrL{append(append([]Piece(nil), sx.ps...), sy.ps...)}.norm()
		}
		return NumL{in.wrap(in.intOp(st, op, in.numLeaf(x), in.numLeaf(y), t), rt)}
	})
}

func (in *Interp) floatOp(op token.Token, x, y FloatL) Leaf {
	if x.k == "c" && y.k == "c" {
		switch op {
		case token.ADD:
			return FloatL{k: "c", f: x.f + y.f}
		case token.SUB:
			return FloatL{k: "c", f: x.f - y.f}
		case token.MUL:
			return FloatL{k: "c", f: x.f * y.f}
		case token.QUO:
			return FloatL{k: "c", f: x.f / y.f}
		}
	}
	return TopL{"floating point"}
}

func (in *Interp) intOp(st *State, op token.Token, x, y *Poly, t types.Type) *Poly {
	c := in.c
	switch op {
	case token.ADD:
		return add(x, y)
	case token.SUB:
		return sub(x, y)
	case token.MUL:
		return c.mul(x, y)
	case token.SHL:
		k, ok := y.isConst()
		if !ok {
			in.undec("shift by %s", c.show(y))
		}
		if k.Sign() < 0 {
			in.panicIf(st, bT, "negative shift")
			return x
		}
		if k.Cmp(bi(5000)) > 0 {
			return &Poly{}
		}
		return scale(x, new(big.Int).Lsh(b1, uint(k.Int64())))
	case token.SHR:
		k, ok := y.isConst()
		if !ok {
			in.undec("shift by %s", c.show(y))
		}
		if k.Sign() < 0 {
			in.panicIf(st, bT, "negative shift")
			return x
		}
		return c.div(x, new(big.Int).Lsh(b1, uint(k.Int64())))
	case token.QUO, token.REM:
		d, ok := y.isConst()
		if !ok {
			in.panicIf(st, c.zeroInt(y), "division by zero")
			in.undec("division by %s", c.show(y))
		}
		if d.Sign() == 0 {
			in.panicIf(st, bT, "division by zero")
			return x
		}
		if k, ok := x.isConst(); ok {
			q, r := new(big.Int).QuoRem(k, d, new(big.Int))
			if op == token.QUO {
				return cst(q)
			}
			return cst(r)
		}
		lo, hi := c.interval(x)
		if d.Sign() > 0 && lo != nil && lo.Sign() >= 0 {
			if op == token.QUO {
				return c.div(x, d)
			}
			return c.modDigit(x, d)
		}
		if d.Sign() > 0 && hi != nil && hi.Sign() <= 0 {
			if op == token.QUO {
				return neg(c.div(neg(x), d))
			}
			return neg(c.modDigit(neg(x), d))
		}
		in.undec("division of a number of unknown sign")
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		return in.bitOp(op, x, y, t)
	}
	in.undec("operator %s", op)
	return nil
}

func (in *Interp) bitOp(op token.Token, x, y *Poly, t types.Type) *Poly {
	c := in.c
	kx, okx := x.isConst()
	ky, oky := y.isConst()
	if okx && oky {
		r := new(big.Int)
		switch op {
		case token.AND:
			r.And(kx, ky)
		case token.OR:
			r.Or(kx, ky)
		case token.XOR:
			r.Xor(kx, ky)
		case token.AND_NOT:
			r.AndNot(kx, ky)
		}
		return cst(r)
	}
	if okx && op != token.AND_NOT {
		x, y, kx, ky, okx, oky = y, x, ky, kx, oky, okx
	}
	lo, hi := c.interval(x)
	if oky && op == token.AND && ky.Sign() >= 0 && (lo == nil || lo.Sign() < 0) {
		// two's complement: the lower bits are the residue
		if ky.Sign() == 0 {
			return &Poly{}
		}
		sh := ky.TrailingZeroBits()
		if top := new(big.Int).Rsh(ky, sh); isMask(top) {
			q := c.modDigit(c.div(x, new(big.Int).Lsh(b1, sh)), new(big.Int).Add(top, b1))
			return scale(q, new(big.Int).Lsh(b1, sh))
		}
	}
	if oky && lo != nil && hi != nil && lo.Sign() >= 0 {
		w := hi.BitLen()
		full := new(big.Int).Sub(new(big.Int).Lsh(b1, uint(w)), b1)
		if ky.Sign() >= 0 {
			km := new(big.Int).And(ky, full)
			switch op {
			case token.XOR:
				if ky.Cmp(full) == 0 || ky.BitLen() >= w && isMask(ky) { // complement within the width
					return sub(cst(ky), x)
				}
				if ky.Sign() == 0 {
					return x
				}
			case token.AND:
				if km.Sign() == 0 {
					return &Poly{}
				}
				if km.Cmp(full) == 0 {
					return x
				}
				if isMask(km) {
					return c.modDigit(x, new(big.Int).Add(km, b1))
				}
				// 2^a*(2^n-1) mask
				sh := km.TrailingZeroBits()
				top := new(big.Int).Rsh(km, sh)
				if isMask(top) {
					q := c.div(x, new(big.Int).Lsh(b1, sh))
					q = c.modDigit(q, new(big.Int).Add(top, b1))
					return scale(q, new(big.Int).Lsh(b1, sh))
				}
			case token.AND_NOT:
				if km.Sign() == 0 {
					return x
				}
				if isMask(km) {
					return sub(x, c.modDigit(x, new(big.Int).Add(km, b1)))
				}
			case token.OR:
				if km.Sign() == 0 && ky.Sign() == 0 {
					return x
				}
				// disjoint: low bits of x known zero
				if q, ok := c.exactDivisible(x, new(big.Int).Lsh(b1, uint(ky.BitLen()))); ok && q != nil {
					return add(x, y)
				}
				if ky.TrailingZeroBits() >= uint(w) {
					return add(x, y)
				}
			}
		}
	}
	if s := add(x, y); op == token.AND && s.isZero() { // the lowest bit that is set
		p := x
		if hi != nil && hi.Sign() <= 0 {
			p = y
		}
		if lo, hi := c.interval(p); lo != nil && hi != nil && lo.Sign() > 0 && lo.BitLen() == hi.BitLen() {
			a := &atomInfo{kind: aUF, name: "lowbit(" + p.Key() + ")", lo: b1, hi: new(big.Int).Lsh(b1, uint(lo.BitLen()-1))}
			if lo.Cmp(a.hi) > 0 {
				a.hi = new(big.Int).Rsh(a.hi, 1)
			}
			return c.atomPoly(c.atom(a))
		}
	}
	ly, hy := c.interval(y)
	if lo != nil && hi != nil && ly != nil && hy != nil && lo.Sign() >= 0 && ly.Sign() >= 0 {
		switch op {
		case token.AND:
			// common leading bits
			l, h := commonPrefixAnd(lo, hi, ly, hy)
			if l.Cmp(h) == 0 {
				return cst(l)
			}
			return c.atomPoly(c.atom(&atomInfo{kind: aUF, name: "and(" + x.Key() + "," + y.Key() + ")", lo: l, hi: h}))
		case token.OR, token.XOR:
			if op == token.OR {
				for _, o := range [][2]*Poly{{x, y}, {y, x}} {
					_, h := c.interval(o[1])
					if q, ok := c.exactDivisible(o[0], new(big.Int).Lsh(b1, uint(h.BitLen()))); ok && q != nil {
						return add(x, y)
					}
				}
			}
			w := hi.BitLen()
			if hy.BitLen() > w {
				w = hy.BitLen()
			}
			a, b := x, y
			if b.Key() < a.Key() {
				a, b = b, a
			}
			if op == token.XOR && polyEq(a, b) {
				return &Poly{}
			}
			return c.atomPoly(c.atom(&atomInfo{kind: aUF, name: op.String() + "(" + a.Key() + "," + b.Key() + ")", lo: b0, hi: new(big.Int).Sub(new(big.Int).Lsh(b1, uint(w)), b1)}))
		}
	}
	if op == token.AND && polyEq(x, y) {
		return x
	}
	// negative numbers and a power of two range: x & (x-1) for x <= 0 etc.
	bits, signed, ok := intRange(t)
	if ok {
		m := new(big.Int).Lsh(b1, uint(bits))
		l, h := b0, new(big.Int).Sub(m, b1)
		if signed {
			hf := new(big.Int).Rsh(m, 1)
			l, h = new(big.Int).Neg(hf), new(big.Int).Sub(hf, b1)
		}
		return c.atomPoly(c.atom(&atomInfo{kind: aUF, name: op.String() + "(" + x.Key() + "," + y.Key() + ")", lo: l, hi: h}))
	}
	in.undec("bit operation %s", op)
	return nil
}

func isMask(k *big.Int) bool {
	return k.Sign() > 0 && new(big.Int).And(k, new(big.Int).Add(k, b1)).Sign() == 0
}

// commonPrefixAnd bounds x&y for x in [a,b], y in [c,d].
func commonPrefixAnd(a, b, c, d *big.Int) (lo, hi *big.Int) {
	n := b.BitLen()
	if d.BitLen() > n {
		n = d.BitLen()
	}
	lo = new(big.Int)
	hi = new(big.Int).Set(b)
	if d.Cmp(hi) < 0 {
		hi.Set(d)
	}
	pa, pc := true, true
	for i := n - 1; i >= 0; i-- {
		if pa && a.Bit(i) != b.Bit(i) {
			pa = false
		}
		if pc && c.Bit(i) != d.Bit(i) {
			pc = false
		}
		if !pa || !pc {
			break
		}
		if a.Bit(i) == 1 && c.Bit(i) == 1 {
			lo.SetBit(lo, i, 1)
		}
	}
	return
}

func (in *Interp) unop(st *State, x *ssa.UnOp, v Val) Val {
	c := in.c
	switch x.Op {
	case token.MUL:
		return in.load(st, v)
	case token.NOT:
		b, ok := v.(BoolV)
		if !ok {
			in.undec("negation of %s", valKeyShort(v))
		}
		return BoolV{c.not(b.b)}
	case token.SUB:
		return in.lift1(st, v, "negation", func(l Leaf) Leaf {
			if f, ok := l.(FloatL); ok && f.k == "c" {
				return FloatL{k: "c", f: -f.f}
			}
			return NumL{in.wrap(neg(in.numLeaf(l)), x.Type())}
		})
	case token.XOR: // bitwise complement
		return in.lift1(st, v, "complement", func(l Leaf) Leaf {
			bits, signed, _ := intRange(x.Type())
			if signed {
				return NumL{sub(csti(-1), in.numLeaf(l))}
			}
			m := new(big.Int).Sub(new(big.Int).Lsh(b1, uint(bits)), b1)
			return NumL{sub(cst(m), in.numLeaf(l))}
		})
	}
	in.undec("operator %s", x.Op)
	return nil
}

func isBytes(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func (in *Interp) convert(st *State, v Val, from, to types.Type) Val {
	tb, _ := to.Underlying().(*types.Basic)
	fb, _ := from.Underlying().(*types.Basic)
	switch {
	case tb != nil && tb.Info()&types.IsInteger != 0 && fb != nil && fb.Info()&types.IsInteger != 0:
		return in.lift1(st, v, "conversion", func(l Leaf) Leaf { return NumL{in.wrap(in.numLeaf(l), to)} })
	case tb != nil && tb.Info()&types.IsFloat != 0 && fb != nil && fb.Info()&types.IsInteger != 0:
		return in.lift1(st, v, "conversion", func(l Leaf) Leaf {
			p := in.numLeaf(l)
			if k, ok := p.isConst(); ok {
				f, _ := new(big.Float).SetInt(k).Float64()
				return FloatL{k: "c", f: f}
			}
			return FloatL{k: "int", p: p}
		})
	case tb != nil && tb.Info()&types.IsInteger != 0 && fb != nil && fb.Info()&types.IsFloat != 0:
		return in.lift1(st, v, "conversion", func(l Leaf) Leaf {
			f, ok := l.(FloatL)
			if !ok {
				in.undec("conversion of %s", l.Key())
			}
			if f.k == "c" {
				if f.f != f.f || f.f > 1e18 || f.f < -1e18 {
					return NumL{in.c.sym(in.c.freshName("floatconv"), nil, nil)}
				}
				return NumL{csti(int64(f.f))}
			}
			if f.k == "int" {
				return NumL{f.p}
			}
			return NumL{in.c.sym("int("+f.Key()+")", nil, nil)}
		})
	case tb != nil && tb.Info()&types.IsFloat != 0:
		return v
	case tb != nil && tb.Info()&types.IsString != 0 && fb != nil && fb.Info()&types.IsInteger != 0:
		return in.lift1(st, v, "conversion", func(l Leaf) Leaf {
			k, ok := in.numLeaf(l).isConst()
			if !ok {
				return StrL{[]Piece{{k: "rune", key: in.numLeaf(l).Key(), p: in.numLeaf(l), n: -1}}}
			}
			if !k.IsInt64() || k.Int64() < 0 || k.Int64() > 0x10ffff {
				return StrL{[]Piece{lit("\uFFFD")}}
			}
			return StrL{[]Piece{lit(string(rune(k.Int64())))}}
		})
	case tb != nil && tb.Info()&types.IsString != 0 && isBytes(from):
		return in.lift1(st, v, "conversion", func(l Leaf) Leaf { return StrL{in.seqPieces(st, l)}.norm() })
	case isBytes(to) && fb != nil && fb.Info()&types.IsString != 0:
		return in.lift1(st, v, "conversion", func(l Leaf) Leaf {
			s, ok := l.(StrL)
			if !ok {
				in.undec("conversion of %s", l.Key())
			}
			if bs, _, ok := s.bytes(in); ok {
				return in.newByteSlice(st, bs)
			}
			return SeqL{s.ps}
		})
	case tb != nil && tb.Info()&types.IsString != 0:
		return v
	}
	if _, ok := to.Underlying().(*types.Pointer); ok {
		return v
	}
	if _, ok := to.Underlying().(*types.Slice); ok {
		return v
	}
	in.undec("conversion from %s to %s", from, to)
	return nil
}

func (in *Interp) newByteSlice(st *State, bs []*Poly) SliceL {
	a := &AggV{}
	for _, b := range bs {
		a.f = append(a.f, num(b))
	}
	id := in.alloc(st, types.NewArray(types.Typ[types.Uint8], int64(len(bs))), "bytes", a)
	return SliceL{id, "", 0, len(bs), len(bs)}
}

// ---------- builtins ----------

func (in *Interp) builtin(st *State, b *ssa.Builtin, args []Val, cc *ssa.CallCommon, pos token.Pos) Val {
	switch b.Name() {
	case "len", "cap":
		return in.lift1(st, args[0], b.Name(), func(l Leaf) Leaf {
			switch x := l.(type) {
			case NilL:
				return NumL{&Poly{}}
			case SliceL:
				if b.Name() == "cap" {
					return NumL{csti(int64(x.cap_))}
				}
				return NumL{csti(int64(x.len))}
			case StrL:
				n := 0
				for _, p := range x.ps {
					if p.n < 0 {
						in.undec("length of a string")
					}
					n += p.n
				}
				return NumL{csti(int64(n))}
			case SeqL:
				acc := &Poly{}
				for _, p := range x.ps {
					if p.n < 0 {
						if p.k == "min" {
							acc = add(acc, in.byteLenPoly(p.p))
							continue
						}
						if p.k == "dec" || p.k == "uf" || p.k == "rune" {
							acc = add(acc, in.c.sym("len("+p.k+p.key+")", b1, nil))
							continue
						}
						in.undec("length of bytes")
					}
					acc = add(acc, csti(int64(p.n)))
				}
				return NumL{acc}
			case BytesL:
				return NumL{in.byteLenPoly(x.p)}
			case MapL:
				a, ok := st.heap.get(x.obj).(*AggV)
				if ok {
					for _, e := range a.f {
						if !in.c.imp(in.c.and(st.pc, in.care), e.(*AggV).f[1].(BoolV).b) {
							in.undec("length of a map with conditional entries")
						}
					}
					return NumL{csti(int64(len(a.f)))}
				}
			case PtrL:
				if ar, ok := in.readPath(st.heap.get(x.obj), splitPath(x.path)).(*AggV); ok {
					return NumL{csti(int64(len(ar.f)))}
				}
			}
			in.undec("%s of %s", b.Name(), l.Key())
			return nil
		})
	case "append":
		return in.appendV(st, args[0], args[1], cc)
	case "copy":
		return in.copyV(st, args[0], args[1])
	case "panic":
		in.panicIf(st, bT, "explicit panic")
		return nil
	case "print", "println":
		return nil
	case "delete":
		in.undec("delete")
	case "min", "max":
		return in.lift2(st, args[0], args[1], b.Name(), func(x, y Leaf) Leaf {
			p, q := in.numLeaf(x), in.numLeaf(y)
			n := in.c.negB(sub(p, q))
			if b.Name() == "max" {
				n = in.c.not(n)
			}
			if n == bT {
				return NumL{p}
			}
			if n == bF {
				return NumL{q}
			}
			in.undec("%s", b.Name())
			return nil
		})
	case "ssa:wrapnilchk":
		in.ptrs(st, args[0], "method value", func(Bdd, PtrL) {})
		return args[0]
	}
	in.undec("builtin %s", b.Name())
	return nil
}

func (in *Interp) appendV(st *State, a, b Val, cc *ssa.CallCommon) Val {
	et := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
	_, single := one(a)
	if single {
		_, single = one(b)
	}
	return in.lift2(st, a, b, "append", func(x, y Leaf) Leaf {
		// abstract byte strings
		_, xs := x.(SeqL)
		_, xb := x.(BytesL)
		_, ys := y.(SeqL)
		_, yb := y.(BytesL)
		if ss, ok := y.(StrL); ok {
			if bs, _, ok := ss.bytes(in); ok && !xs && !xb {
				y = in.newByteSlice(st, bs)
			} else {
				ys = true
			}
		}
		if xs || xb || ys || yb {
			return SeqL{normPieces(append(append([]Piece(nil), in.seqPieces(st, x)...), in.seqPieces(st, y)...))}
		}
		var sx, sy SliceL
		switch l := x.(type) {
		case SliceL:
			sx = l
		case NilL:
		default:
			in.undec("append to %s", x.Key())
		}
		switch l := y.(type) {
		case SliceL:
			sy = l
		case NilL:
		default:
			in.undec("append of %s", y.Key())
		}
		var add []Val
		if sy.obj != 0 {
			arr := in.readPath(st.heap.get(sy.obj), splitPath(sy.path)).(*AggV)
			add = append(add, arr.f[sy.off:sy.off+sy.len]...)
		}
		if sx.obj == 0 && len(add) == 0 {
			return x
		}
		if sx.obj != 0 && sx.len+len(add) <= sx.cap_ {
			if !single && len(add) > 0 {
				in.undec("append in place to one of several slices")
			}
			// in place: visible through other slices of the array
			v := st.heap.get(sx.obj)
			for i, e := range add {
				path := append(splitPath(sx.path), sx.off+sx.len+i)
				v = in.writePath(v, path, e)
			}
			st.heap = st.heap.set(sx.obj, v)
			return SliceL{sx.obj, sx.path, sx.off, sx.len + len(add), sx.cap_}
		}
		n := &AggV{}
		if sx.obj != 0 {
			arr := in.readPath(st.heap.get(sx.obj), splitPath(sx.path)).(*AggV)
			n.f = append(n.f, arr.f[sx.off:sx.off+sx.len]...)
		}
		n.f = append(n.f, add...)
		ln := len(n.f)
		capa := growCap(sx.cap_, ln)
		for len(n.f) < capa {
			n.f = append(n.f, in.zero(et))
		}
		id := in.alloc(st, types.NewArray(et, int64(capa)), "slice", n)
		return SliceL{id, "", 0, ln, capa}
	})
}

// growCap: spare capacity makes later appends share the array, the worst
// case for aliasing; Go grows by doubling small slices.
func growCap(old, need int) int {
	if need > 2*old {
		return need
	}
	return 2 * old
}

func (in *Interp) copyV(st *State, a, b Val) Val {
	la, ok1 := one(a)
	lb, ok2 := one(b)
	if ok1 && ok2 {
		return in.copy1(st, la, lb)
	}
	ga, ok1 := a.(*GV)
	gb, ok2 := b.(*GV)
	if !ok1 || !ok2 {
		in.undec("copy of %T", b)
	}
	heap := st.heap
	var n Val
	for _, x := range ga.alts {
		for _, y := range gb.alts {
			g := in.c.and(x.g, y.g)
			if in.c.and(g, in.c.and(st.pc, in.care)) == bF {
				continue
			}
			s := *st
			s.pc = in.c.and(st.pc, g)
			k := in.copy1(&s, x.l, y.l)
			if n == nil {
				n = k
			} else {
				n = in.c.merge(g, k, n)
			}
			heap = in.c.mergeHeap(g, s.heap, heap)
		}
	}
	st.heap = heap
	return n
}

func (in *Interp) copy1(st *State, la, lb Leaf) Val {
	if _, ok := la.(NilL); ok {
		return numi(0)
	}
	switch d := la.(type) {
	case SliceL:
		var vals []Val
		switch s := lb.(type) {
		case NilL:
		case SliceL:
			arr := in.readPath(st.heap.get(s.obj), splitPath(s.path)).(*AggV)
			vals = append(vals, arr.f[s.off:s.off+s.len]...)
		case BytesL:
			n, ok := in.byteLen(s.p)
			if !ok {
				in.undec("copy of a number of unknown length to a fixed place")
			}
			for i := n - 1; i >= 0; i-- {
				vals = append(vals, num(in.c.byteOf(in.abs(s.p), i)))
			}
		case SeqL:
			bs, _, ok := in.pieceBytes(s.ps)
			if !ok {
				in.undec("copy of abstract bytes")
			}
			for _, x := range bs {
				vals = append(vals, num(x))
			}
		case StrL:
			bs, _, ok := in.pieceBytes(s.ps)
			if !ok {
				in.undec("copy of abstract bytes")
			}
			for _, x := range bs {
				vals = append(vals, num(x))
			}
		default:
			in.undec("copy from %s", lb.Key())
		}
		n := len(vals)
		if d.len < n {
			n = d.len
		}
		v := st.heap.get(d.obj)
		for i := 0; i < n; i++ {
			v = in.writePath(v, append(splitPath(d.path), d.off+i), vals[i])
		}
		st.heap = st.heap.set(d.obj, v)
		return numi(int64(n))
	case SymSliceL:
		s, ok := lb.(BytesL)
		if !ok {
			in.undec("copy to a variable place from %s", lb.Key())
		}
		ln := in.byteLenPoly(s.p)
		end, ok := add(d.off, ln).isConst()
		if !ok || !end.IsInt64() || int(end.Int64()) > d.end {
			in.undec("copy to a variable place")
		}
		e := int(end.Int64())
		lo, hi := in.c.interval(s.p)
		if lo == nil || lo.Sign() < 0 || hi == nil {
			in.undec("copy of an unbounded number")
		}
		w := (hi.BitLen() + 7) / 8
		if e-w < 0 {
			in.undec("copy of a number that may be too long")
		}
		v := st.heap.get(d.obj)
		for i := 0; i < w; i++ {
			path := append(splitPath(d.path), e-1-i)
			if p, ok := in.intOf(in.readPath(v, path)); !ok || !p.isZero() {
				in.undec("copy over bytes that are not zero")
			}
			v = in.writePath(v, path, num(in.c.byteOf(s.p, i)))
		}
		st.heap = st.heap.set(d.obj, v)
		return num(ln)
	}
	in.undec("copy to %s", la.Key())
	return nil
}

// abs of a number of known sign.
func (in *Interp) abs(p *Poly) *Poly {
	n := in.c.negB(p)
	if n == bF {
		return p
	}
	if n == bT {
		return neg(p)
	}
	in.undec("sign of %s", in.c.show(p))
	return nil
}
