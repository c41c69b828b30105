package main

// C27: recycled numbers. Typestate of pooled numbers and taint of their
// previous content; the numbers themselves are opaque.

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { props["C27"] = runPool }

func (c *Ctx) stale(p *Poly) bool {
	for _, t := range p.t {
		for i := 0; i+6 <= len(t.m); i += 6 {
			if c.atoms[atomOf(t.m[i:])].tag == "stale" {
				return true
			}
		}
	}
	return false
}

func (c *Ctx) unknown(stale bool, lo, hi *big.Int) *Poly {
	a := &atomInfo{kind: aSym, name: c.freshName("v"), lo: lo, hi: hi}
	if stale {
		a.tag = "stale"
	}
	return c.atomPoly(c.atom(a))
}

// blur joins alternatives of a number that are not all constants.
func (c *Ctx) blur(alts []Alt) *Poly {
	st, consts := false, true
	for _, a := range alts {
		n, ok := a.l.(NumL)
		if !ok {
			return nil
		}
		if _, k := n.p.isConst(); !k {
			consts = false
		}
		st = st || c.stale(n.p)
	}
	if consts && len(alts) < 5 {
		return nil
	}
	return c.unknown(st, nil, nil)
}

func (in *Interp) opaqueOp(st *State, m string, args []Val) (Val, bool) {
	c := in.c
	isStale, allConst := false, true
	read := func(v Val) {
		for _, a := range in.under(st, v).(*GV).alts {
			if p, ok := a.l.(PtrL); ok {
				g, ok := in.loadP(st, p).(*GV)
				if !ok {
					in.undec("number")
				}
				for _, b := range g.alts {
					n := in.numLeaf(b.l)
					isStale = isStale || c.stale(n)
					if _, k := n.isConst(); !k {
						allConst = false
					}
				}
			}
		}
	}
	switch m {
	case "Set", "SetInt64", "SetUint64", "SetBytes", "SetString":
		return nil, false
	case "Add", "Sub", "Mul", "Neg", "Abs", "Mod", "Div", "Quo", "Rem", "DivMod", "Exp", "ModInverse", "ModSqrt", "Sqrt", "Lsh", "Rsh", "And", "Or", "Xor", "AndNot", "Not", "GCD", "QuoRem":
		n := 2
		if m == "Lsh" || m == "Rsh" || m == "Neg" || m == "Abs" || m == "Sqrt" || m == "Not" {
			n = 1
		}
		if m == "Exp" {
			n = 3
		}
		for i := 1; i <= n && i < len(args); i++ {
			read(args[i])
		}
		if m == "Mul" { // zero times anything
			for i := 1; i < 3; i++ {
				if k, ok := in.isConstV(st, in.under(st, in.rd(st, args[i]))); ok && k.Sign() == 0 {
					in.wr(st, args[0], numi(0))
					return args[0], true
				}
			}
		}
		if allConst && m != "DivMod" && m != "GCD" && m != "QuoRem" && m != "ModSqrt" {
			return nil, false
		}
		var lo, hi *big.Int
		switch m {
		case "Mod":
			lo = b0
			if k, ok := in.isConstV(st, in.under(st, in.rd(st, args[2]))); ok && k.Sign() > 0 {
				hi = subB(k, 1)
			}
		case "Abs", "Sqrt":
			lo = b0
		}
		in.wr(st, args[0], num(c.unknown(isStale, lo, hi)))
		if m == "DivMod" || m == "QuoRem" {
			in.wr(st, args[3], num(c.unknown(isStale, nil, nil)))
			return tuple(args[0], args[3]), true
		}
		return args[0], true
	}
	// everything else looks at the numbers
	read(args[0])
	if strings.HasPrefix(m, "Cmp") {
		read(args[1])
	}
	if isStale {
		in.event("stale", st.pc, "%s looks at what a recycled number contained", m)
	}
	return nil, false
}

// staleIn looks for recycled content and returned numbers in a value.
func (h *H) staleIn(v Val, what, where string, seen map[int]bool) {
	switch x := v.(type) {
	case *AggV:
		for _, f := range x.f {
			h.staleIn(f, what, where, seen)
		}
	case *GV:
		for _, a := range x.alts {
			if h.c.and(a.g, h.st.pc) == bF {
				continue
			}
			switch l := a.l.(type) {
			case PtrL:
				if !seen[l.obj] {
					seen[l.obj] = true
					v := h.st.heap.get(l.obj)
					if h.isIdentity(l, v) { // the other coordinates mean nothing
						h.in.poisoned(h, v, what, where)
						for id := range h.parts(leaf(l)) {
							seen[id] = true
						}
						continue
					}
					if t := h.tOf(l, v); t != nil { // valid only where z is one, see MakeAffine
						h.in.poisoned(h, t, what, where)
						for id := range h.parts(t) {
							seen[id] = true
						}
					}
					h.staleIn(v, what, where, seen)
				}
			case SliceL:
				if !seen[l.obj] {
					seen[l.obj] = true
					h.staleIn(h.st.heap.get(l.obj), what, where, seen)
				}
			case PoisonL:
				h.fail("definite", where, "%sa number of %s was returned to the pool (%s)", h.pre(), what, l.where)
			case NumL:
				if h.c.stale(l.p) {
					h.fail("definite", where, "%s%s depends on what a recycled number contained", h.pre(), what)
				}
			}
		}
	}
}

// tOf is the auxiliary coordinate of a point.
func (h *H) tOf(l PtrL, v Val) Val {
	for _, n := range []string{"curvePoint", "twistPoint"} {
		if isNamed(h.in.meta[l.obj].typ, modPath+"/"+bnPkg+"."+n) {
			if a, ok := v.(*AggV); ok {
				if i := h.fieldIx(bnPkg, n, "t"); i >= 0 {
					return a.f[i]
				}
			}
		}
	}
	return nil
}

// isIdentity: a point whose z coordinate is the constant zero.
func (h *H) isIdentity(l PtrL, v Val) bool {
	for _, n := range []string{"curvePoint", "twistPoint"} {
		if !isNamed(h.in.meta[l.obj].typ, modPath+"/"+bnPkg+"."+n) {
			continue
		}
		a, ok := v.(*AggV)
		i := h.fieldIx(bnPkg, n, "z")
		if !ok || i < 0 {
			return false
		}
		zero := true
		var walk func(v Val, d int)
		walk = func(v Val, d int) {
			switch x := v.(type) {
			case *AggV:
				for _, f := range x.f {
					walk(f, d+1)
				}
			case *GV:
				for _, a := range x.alts {
					switch y := a.l.(type) {
					case PtrL:
						walk(h.st.heap.get(y.obj), d+1)
					case NumL:
						zero = zero && y.p.isZero()
					default:
						zero = false
					}
				}
			}
		}
		walk(a.f[i], 0)
		return zero
	}
	return false
}

// poisoned reports numbers that were returned to the pool.
func (in *Interp) poisoned(h *H, v Val, what, where string) {
	switch x := v.(type) {
	case *AggV:
		for _, f := range x.f {
			in.poisoned(h, f, what, where)
		}
	case *GV:
		for _, a := range x.alts {
			switch l := a.l.(type) {
			case PtrL:
				in.poisoned(h, h.st.heap.get(l.obj), what, where)
			case PoisonL:
				h.fail("definite", where, "%sa number of %s was returned to the pool (%s)", h.pre(), what, l.where)
			}
		}
	}
}

// reachesPool tells that fn can call the pool.
func (w *World) reachesPool(fn *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[fn] {
		return false
	}
	seen[fn] = true
	if r := fn.Signature.Recv(); r != nil {
		if p, ok := r.Type().(*types.Pointer); ok && isNamed(p.Elem(), modPath+"/"+bnPkg+".bnPool") {
			return true
		}
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if c, ok := i.(ssa.CallInstruction); ok {
				if f := c.Common().StaticCallee(); f != nil && w.ours(f) && w.reachesPool(f, seen) {
					return true
				}
			}
			if m, ok := i.(*ssa.MakeClosure); ok && w.reachesPool(m.Fn.(*ssa.Function), seen) {
				return true
			}
		}
	}
	return false
}

// poolEntries are the functions whose callers own all operands.
func (w *World) poolEntries() []*ssa.Function {
	var out []*ssa.Function
	pkg := w.prog.ImportedPackage(modPath + "/" + bnPkg)
	if pkg == nil {
		return nil
	}
	keep := func(fn *ssa.Function) {
		if fn == nil || !token.IsExported(fn.Name()) || fn.Name() == "Put" || len(fn.Blocks) == 0 {
			return
		}
		if w.reachesPool(fn, map[*ssa.Function]bool{}) {
			out = append(out, fn)
		}
	}
	for _, m := range pkg.Members {
		switch x := m.(type) {
		case *ssa.Function:
			keep(x)
		case *ssa.Type:
			if x.Name() == "bnPool" {
				continue
			}
			ms := w.prog.MethodSets.MethodSet(types.NewPointer(x.Type()))
			for i := 0; i < ms.Len(); i++ {
				keep(w.prog.MethodValue(ms.At(i)))
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

// poolArg makes an argument of the type; ok is false for other types.
func (h *H) poolArg(t types.Type, name string, variant int) (Val, bool) {
	switch x := t.Underlying().(type) {
	case *types.Pointer:
		n := namedName(x.Elem())
		switch n {
		case modPath + "/" + bnPkg + ".bnPool":
			return h.pool(), true
		case "math/big.Int":
			return h.bigV(csti([]int64{0, 1, 2, 3, 5, 6, 11, 12}[variant%8])), true
		}
		if strings.HasPrefix(n, modPath+"/"+bnPkg+".") {
			return h.mk(t, name, h.freeNum), true
		}
	case *types.Slice:
		if b, ok := x.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			var cells []Val
			for i := 0; i < []int{64, 128, 384, 7}[variant%4]; i++ {
				cells = append(cells, num(h.c.sym(fmt.Sprintf("%s%d", name, i), b0, bi(255))))
			}
			return h.mkSlice(name, cells), true
		}
		if p, ok := x.Elem().Underlying().(*types.Pointer); ok && strings.HasPrefix(namedName(p.Elem()), modPath+"/"+bnPkg+".") {
			var cells []Val
			for i := 0; i < []int{2, 1, 0, 3}[variant%4]; i++ {
				cells = append(cells, h.mk(x.Elem(), fmt.Sprintf("%s%d", name, i), h.freeNum))
			}
			return h.mkSlice(name, cells), true
		}
	case *types.Basic:
		switch {
		case x.Info()&types.IsBoolean != 0:
			return BoolV{[]Bdd{bT, bF}[variant%2]}, true
		case x.Info()&types.IsInteger != 0:
			return numi(int64(variant % 3)), true
		}
	}
	return nil, false
}

func runPool(r *Run) {
	r.facts["level"] = "other"
	r.facts["explanation"] = "typestate and taint analysis by abstract interpretation over the SSA form: all paths of every exported function and method of bn256 that can reach the pool, all aliasings of operands, opaque numbers; scalars and lists have the listed small sizes"
	r.rule("every exported function or method of bn256 from which the pool is reachable is interpreted with opaque numbers, for every aliasing of its operands: no number is read, written or returned to the pool after it was returned to it, no number that existed before the call is returned, neither the results nor the operands contain a returned number afterwards, and nothing that is compared, encoded or left in an operand or result derives from what a recycled number contained. Get and Put themselves are interpreted over all sequences of up to eight calls: a number handed out is not handed out again before it is returned")
	w := r.w
	entries := w.poolEntries()
	r.sub("entries", func(h *H) {
		h.check(len(entries) >= 20, "crypto/bn256", "only %d functions use the pool", len(entries))
	})
	for _, fn := range entries {
		fn := fn
		name := strings.TrimPrefix(shortFn(fn), "crypto/")
		r.sub(name, func(h *H) { h.poolFn(fn) })
	}
	r.sub("bnPool", func(h *H) { h.poolItself() })
}

func (h *H) poolFn(fn *ssa.Function) {
	h.bnField()
	h.c.opaque = true
	where := h.r.w.pos(fn.Pos()) + " " + shortFn(fn)
	// aliasings of the parameters of the same pointer type
	groups := map[string][]int{}
	variants := 1
	for i, p := range fn.Params {
		t := p.Type()
		if _, ok := h.poolArg(t, "probe", 0); !ok {
			h.sample("not analysed: %s has a parameter of type %s", shortFn(fn), t)
			return
		}
		if isNamed(deptr(t), "math/big.Int") {
			variants = 8
			continue
		}
		if _, ok := t.Underlying().(*types.Slice); ok && variants < 4 {
			variants = 4
		}
		if _, ok := t.Underlying().(*types.Basic); ok && variants < 3 {
			variants = 3
		}
		if _, ok := t.Underlying().(*types.Pointer); ok && !isNamed(deptr(t), modPath+"/"+bnPkg+".bnPool") {
			groups[t.String()] = append(groups[t.String()], i)
		}
	}
	aliases := [][]int{make([]int, len(fn.Params))}
	for i := range fn.Params {
		aliases[0][i] = i
	}
	var keys []string
	for k := range groups {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		ix := groups[k]
		var nx [][]int
		for _, a := range aliases {
			for _, p := range partitions(len(ix)) {
				b := append([]int(nil), a...)
				for j := range ix {
					for l := range ix {
						if p[l] == p[j] {
							b[ix[j]] = ix[l]
							break
						}
					}
				}
				nx = append(nx, b)
			}
		}
		aliases = nx
	}
	n := 0
	for _, al := range aliases {
		for v := 0; v < variants; v++ {
			al, v := al, v
			h.each("", func() {
				var args []Val
				for i, p := range fn.Params {
					if al[i] != i {
						args = append(args, args[al[i]])
						continue
					}
					a, _ := h.poolArg(p.Type(), p.Name(), v)
					args = append(args, a)
				}
				h.in.protectBelow = len(h.in.meta)
				ev := len(h.in.events)
				h.in.stack = nil
				res := h.in.callFn(h.st, fn, args, nil, fn.Pos())
				seen := map[string]bool{}
				for _, e := range h.in.events[ev:] {
					switch e.kind {
					case "poison", "stale", "doubleput", "foreignput":
						if h.c.and(e.pc, h.in.care) != bF && !seen[e.kind+e.pos] {
							seen[e.kind+e.pos] = true
							h.fail("definite", e.pos, "%s", e.what)
						}
					}
				}
				ob := map[int]bool{}
				for i, a := range args {
					h.staleIn(a, fn.Params[i].Name(), where, ob)
				}
				if res != nil {
					h.staleIn(res, "the result", where, ob)
				}
				n++
				h.check(true, where, "")
			})
		}
	}
	h.sample("%s: %d aliasings and sizes", shortFn(fn), n)
}

func deptr(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// poolItself: all sequences of calls on a pool with numbers a caller owns.
func (h *H) poolItself() {
	h.init(bnPkg)
	get, put := h.method(bnPkg, "bnPool", "Get"), h.method(bnPkg, "bnPool", "Put")
	where := h.r.w.pos(get.Pos())
	id := func(v Val) int {
		l, ok := one(v)
		if p, isP := l.(PtrL); ok && isP && p.path == "" {
			return p.obj
		}
		panic(undecided{"Get does not return one number"})
	}
	n := 0
	var rec func(pool Val, own []Val, depth int)
	rec = func(pool Val, own []Val, depth int) {
		n++
		if depth == 0 {
			return
		}
		h.each("", func() {
			v := h.call(get, pool)
			for _, o := range own {
				h.check(id(o) != id(v), where, "Get hands out a number that is in use")
			}
			h.check(true, where, "")
			rec(pool, append(append([]Val(nil), own...), v), depth-1)
		})
		for i := range own {
			if i > 0 && i < len(own)-1 {
				continue
			}
			i := i
			h.each("", func() {
				h.call(put, pool, own[i])
				var rest []Val
				for j, o := range own {
					if j != i {
						rest = append(rest, o)
					}
				}
				rec(pool, rest, depth-1)
			})
		}
	}
	rec(h.pool(), nil, 8)
	rec(nilV(), nil, 5)
	h.sample("bnPool: %d sequences of calls", n)
}
