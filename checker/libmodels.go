package main

// More library calls: formatting, splitting, comparing and locking.

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var writeFunc = types.NewFunc(token.NoPos, nil, "Write", types.NewSignatureType(nil, nil, nil, nil, nil, false))

// lib models calls that intrinsic does not know.
func (in *Interp) lib(st *State, fn *ssa.Function, key string, args []Val, pos token.Pos) (Val, bool) {
	c := in.c
	text := func(i int) []Piece {
		l, ok := one(in.under(st, args[i]))
		if !ok {
			in.undec("%s of alternatives", key)
		}
		return in.seqPieces(st, l)
	}
	octets := func(i int) ([]*Poly, bool) {
		bs, _, ok := in.pieceBytes(text(i))
		return bs, ok
	}
	// is byte p equal to byte q
	same := func(p, q *Poly) int {
		switch c.zeroInt(sub(p, q)) {
		case bT:
			return 1
		case bF:
			return 0
		}
		return -1
	}
	at := func(s []*Poly, sep []*Poly, i int) bool {
		for j := range sep {
			switch same(s[i+j], sep[j]) {
			case 0:
				return false
			case -1:
				in.undec("%s: byte %d may or may not match", key, i+j)
			}
		}
		return true
	}
	find := func(s, sep []*Poly) int {
		for i := 0; i+len(sep) <= len(s); i++ {
			if at(s, sep, i) {
				return i
			}
		}
		return -1
	}
	mustBytes := func(i int) []*Poly {
		bs, ok := octets(i)
		if !ok {
			in.undec("%s of a text of unknown length", key)
		}
		return bs
	}
	inPkg := ""
	if fn.Pkg != nil {
		inPkg = fn.Pkg.Pkg.Path()
	}
	switch key {
	case "io.WriteString":
		ps := text(1)
		in.writeTo(st, args[0], ps, pos)
		return tuple(num(in.piecesLen(ps)), nilV()), true
	case "fmt.Fprint", "fmt.Fprintln":
		ps := in.sprint(st, args[1], key == "fmt.Fprintln", pos)
		in.writeTo(st, args[0], ps, pos)
		return tuple(num(in.piecesLen(ps)), nilV()), true
	case "fmt.Fprintf":
		ps := in.sprintf(st, args[1], args[2], pos)
		in.writeTo(st, args[0], ps, pos)
		return tuple(num(in.piecesLen(ps)), nilV()), true
	case "fmt.Sprintf":
		return leaf(StrL{in.sprintf(st, args[0], args[1], pos)}.norm()), true
	case "fmt.Sprint", "fmt.Sprintln":
		return leaf(StrL{in.sprint(st, args[0], key == "fmt.Sprintln", pos)}.norm()), true
	case "strconv.AppendInt":
		b, ok := in.constInt(args[2])
		p, ok2 := in.intOf(in.under(st, args[1]))
		if !ok || !ok2 || b != 10 {
			in.undec("AppendInt")
		}
		return leaf(SeqL{normPieces(append(append([]Piece(nil), text(0)...), decPiece(p)...))}), true
	case "strings.Join":
		sep := text(1)
		var ps []Piece
		for i, v := range in.sliceVals(st, args[0]) {
			l, ok := one(in.under(st, v))
			if !ok {
				in.undec("Join of alternatives")
			}
			if i > 0 {
				ps = append(ps, sep...)
			}
			ps = append(ps, in.seqPieces(st, l)...)
		}
		return leaf(StrL{ps}.norm()), true
	case "bytes.Join":
		sep := text(1)
		var ps []Piece
		for i, v := range in.sliceVals(st, args[0]) {
			l, ok := one(in.under(st, v))
			if !ok {
				in.undec("Join of alternatives")
			}
			if i > 0 {
				ps = append(ps, sep...)
			}
			ps = append(ps, in.seqPieces(st, l)...)
		}
		return leaf(SeqL{normPieces(ps)}), true
	case "strings.Repeat", "bytes.Repeat":
		n, ok := in.constInt(args[1])
		if !ok || n < 0 || n > 4096 {
			in.undec("Repeat")
		}
		var ps []Piece
		for i := int64(0); i < n; i++ {
			ps = append(ps, text(0)...)
		}
		if inPkg == "bytes" {
			bs, _, ok := in.pieceBytes(ps)
			if !ok {
				in.undec("Repeat")
			}
			return leaf(in.newByteSlice(st, bs)), true
		}
		return leaf(StrL{ps}.norm()), true
	case "strings.Split", "bytes.Split":
		s, sep := mustBytes(0), mustBytes(1)
		if len(sep) == 0 {
			in.undec("Split without separator")
		}
		var out []Val
		emit := func(lo, hi int) {
			if inPkg == "bytes" {
				l, _ := one(in.under(st, args[0]))
				if sl, ok := l.(SliceL); ok { // the parts alias the argument
					out = append(out, leaf(SliceL{sl.obj, sl.path, sl.off + lo, hi - lo, hi - lo}))
					return
				}
				out = append(out, leaf(in.newByteSlice(st, s[lo:hi])))
				return
			}
			out = append(out, leaf(StrL{in.packBytes(s[lo:hi])}.norm()))
		}
		lo := 0
		for i := 0; i+len(sep) <= len(s); {
			if at(s, sep, i) {
				emit(lo, i)
				i += len(sep)
				lo = i
				continue
			}
			i++
		}
		emit(lo, len(s))
		et := fn.Signature.Results().At(0).Type().Underlying().(*types.Slice).Elem()
		id := in.alloc(st, types.NewArray(et, int64(len(out))), "split", &AggV{out})
		return leaf(SliceL{id, "", 0, len(out), len(out)}), true
	case "strings.Index", "bytes.Index":
		return numi(int64(find(mustBytes(0), mustBytes(1)))), true
	case "strings.IndexByte", "bytes.IndexByte":
		p, ok := in.intOf(in.under(st, args[1]))
		if !ok {
			in.undec("IndexByte")
		}
		return numi(int64(find(mustBytes(0), []*Poly{p}))), true
	case "strings.Contains", "bytes.Contains":
		if find(mustBytes(0), mustBytes(1)) >= 0 {
			return BoolV{bT}, true
		}
		return BoolV{bF}, true
	case "strings.Count", "bytes.Count":
		s, sep := mustBytes(0), mustBytes(1)
		if len(sep) == 0 {
			in.undec("Count")
		}
		n := int64(0)
		for i := 0; i+len(sep) <= len(s); {
			if at(s, sep, i) {
				n++
				i += len(sep)
			} else {
				i++
			}
		}
		return numi(n), true
	case "strings.HasPrefix", "bytes.HasPrefix":
		s, sep := mustBytes(0), mustBytes(1)
		r := bT
		if len(sep) > len(s) {
			return BoolV{bF}, true
		}
		for i := range sep {
			r = c.and(r, c.zeroInt(sub(s[i], sep[i])))
		}
		return BoolV{r}, true
	case "crypto/subtle.ConstantTimeCompare":
		r := in.boolOf2(st, args[0], args[1], func(x, y Leaf) Bdd {
			b, ok := in.piecesEqual(in.seqPieces(st, x), in.seqPieces(st, y))
			if !ok {
				in.undec("comparison of %s and %s", x.Key(), y.Key())
			}
			return b
		})
		return c.merge(r, numi(1), numi(0)), true
	case "bytes.NewBufferString", "bytes.NewBuffer":
		id := in.alloc(st, fn.Signature.Results().At(0).Type().(*types.Pointer).Elem(), "buffer", leaf(ModelL{kind: "buf", ps: text(0)}))
		return leaf(PtrL{id, ""}), true
	case "(*bytes.Buffer).Grow", "(*strings.Builder).Grow":
		return nil, true
	case "(*bytes.Buffer).WriteRune", "(*strings.Builder).WriteRune":
		k, ok := in.constInt(args[1])
		if !ok {
			in.undec("WriteRune")
		}
		s := string(rune(k))
		in.bufAppend(st, args[0], []Piece{lit(s)})
		return tuple(numi(int64(len(s))), nilV()), true
	case "(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock",
		"(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock":
		return nil, true // nothing here runs concurrently
	case "(*sync.Once).Do":
		// run unless it is known to have run
		l, ok := one(in.under(st, in.load(st, args[0])))
		if ok {
			if m, ok := l.(ModelL); ok && m.kind == "once" {
				return nil, true
			}
		}
		if a, isAgg := in.load(st, args[0]).(*AggV); !isAgg || !allZeroV(a) {
			in.undec("state of a sync.Once")
		}
		in.store(st, args[0], leaf(ModelL{kind: "once"}))
		in.callValue(st, args[1], nil, nil, pos)
		return nil, true
	case "errors.Is":
		in.undec("errors.Is")
	}
	return nil, false
}

func allZeroV(v Val) bool {
	switch x := v.(type) {
	case *AggV:
		for _, f := range x.f {
			if !allZeroV(f) {
				return false
			}
		}
		return true
	case BoolV:
		return x.b == bF
	case *GV:
		l, ok := one(x)
		if !ok {
			return false
		}
		switch y := l.(type) {
		case NilL:
			return true
		case NumL:
			return y.p.isZero()
		}
	}
	return false
}

// sliceVals lists the elements of a slice.
func (in *Interp) sliceVals(st *State, v Val) []Val {
	l, ok := one(in.under(st, v))
	if !ok {
		in.undec("slice with alternatives")
	}
	switch s := l.(type) {
	case NilL:
		return nil
	case SliceL:
		arr, ok := in.readPath(st.heap.get(s.obj), splitPath(s.path)).(*AggV)
		if !ok {
			in.undec("slice content")
		}
		return arr.f[s.off : s.off+s.len]
	}
	in.undec("elements of %s", l.Key())
	return nil
}

// writeTo appends to a hash or a buffer behind an io.Writer.
func (in *Interp) writeTo(st *State, w Val, ps []Piece, pos token.Pos) {
	l, ok := one(in.under(st, w))
	if !ok {
		in.undec("writer with alternatives")
	}
	i, ok := l.(IfaceL)
	if !ok {
		in.undec("write to %s", l.Key())
	}
	if _, ok := in.modelInvoke(st, i, writeFunc, []Val{leaf(SeqL{ps})}, pos); ok {
		return
	}
	switch i.typ.String() {
	case "*bytes.Buffer", "*strings.Builder":
		in.bufAppend(st, i.v, ps)
		return
	}
	in.undec("write to %s", i.typ)
}

// operand is the text fmt prints for an operand with %v, %s or %d.
func (in *Interp) operand(st *State, v Val, verb byte, pos token.Pos) (ps []Piece, isStr bool) {
	l, ok := one(in.under(st, v))
	if !ok {
		in.undec("fmt of alternatives")
	}
	i, ok := l.(IfaceL)
	if !ok {
		in.undec("fmt of %s", l.Key())
	}
	if b, ok := i.typ.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		isStr = true
	}
	if verb == 'v' || verb == 's' || verb == 'd' && i.typ.String() == "*math/big.Int" {
		ms := in.w.prog.MethodSets.MethodSet(i.typ)
		for k := 0; k < ms.Len(); k++ {
			if f, ok := ms.At(k).Obj().(*types.Func); ok && f.Name() == "String" && f.Type().(*types.Signature).Params().Len() == 0 {
				fn := in.w.prog.MethodValue(ms.At(k))
				r := in.callFn(st, fn, []Val{i.v}, nil, pos)
				x, ok := one(in.under(st, r))
				if !ok {
					in.undec("fmt of alternatives")
				}
				return in.seqPieces(st, x), isStr
			}
		}
	}
	switch b := i.typ.Underlying().(type) {
	case *types.Basic:
		if b.Info()&types.IsString != 0 && verb != 'd' {
			x, ok := one(in.under(st, i.v))
			if !ok {
				in.undec("fmt of alternatives")
			}
			return in.seqPieces(st, x), true
		}
		if b.Info()&types.IsInteger != 0 && verb != 's' {
			p, ok := in.intOf(in.under(st, i.v))
			if !ok {
				in.undec("fmt of a number")
			}
			return decPiece(p), false
		}
	case *types.Slice:
		if e, ok := b.Elem().Underlying().(*types.Basic); ok && e.Kind() == types.Uint8 && verb == 's' {
			x, ok := one(in.under(st, i.v))
			if !ok {
				in.undec("fmt of alternatives")
			}
			return in.seqPieces(st, x), false
		}
	}
	in.undec("fmt of %s with %%%c", i.typ, verb)
	return nil, false
}

func (in *Interp) sprintf(st *State, f, va Val, pos token.Pos) []Piece {
	s, ok := in.str1(in.under(st, f))
	if !ok {
		in.undec("format")
	}
	t, ok := s.literal()
	if !ok {
		in.undec("format")
	}
	ops := in.sliceVals(st, va)
	var ps []Piece
	k := 0
	for i := 0; i < len(t); i++ {
		if t[i] != '%' {
			ps = append(ps, lit(string(t[i])))
			continue
		}
		i++
		if i < len(t) && t[i] == '%' {
			ps = append(ps, lit("%"))
			continue
		}
		if i >= len(t) || !strings.ContainsRune("vsd", rune(t[i])) || k >= len(ops) {
			in.undec("format %q", t)
		}
		q, _ := in.operand(st, ops[k], t[i], pos)
		ps = append(ps, q...)
		k++
	}
	if k != len(ops) {
		in.undec("format %q", t)
	}
	return normPieces(ps)
}

func (in *Interp) sprint(st *State, va Val, ln bool, pos token.Pos) []Piece {
	var ps []Piece
	prev := false
	for i, o := range in.sliceVals(st, va) {
		q, isStr := in.operand(st, o, 'v', pos)
		if i > 0 && (ln || !isStr && !prev) {
			ps = append(ps, lit(" "))
		}
		ps = append(ps, q...)
		prev = isStr
	}
	if ln {
		ps = append(ps, lit("\n"))
	}
	return normPieces(ps)
}
