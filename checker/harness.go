package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const bnPkg = "crypto/bn256"

func full(pkg, typ, m string) string {
	if typ == "" {
		return modPath + "/" + pkg + "." + m
	}
	return "(*" + modPath + "/" + pkg + "." + typ + ")." + m
}

func isBigPtr(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	return ok && isNamed(p.Elem(), "math/big.Int")
}

// mk builds an object graph of type t; numbers come from leaf(name).
func (h *H) mk(t types.Type, name string, num1 func(name string) Val) Val {
	in := h.in
	if isBigPtr(t) {
		return in.newPtr(h.st, in.bigIntT(), name, num1(name))
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		v := h.mkv(u.Elem(), name, num1)
		return in.newPtr(h.st, u.Elem(), name, v)
	}
	return h.mkv(t, name, num1)
}

func (h *H) mkv(t types.Type, name string, num1 func(name string) Val) Val {
	if s, ok := t.Underlying().(*types.Struct); ok && !isNamed(t, "math/big.Int") {
		a := &AggV{}
		for i := 0; i < s.NumFields(); i++ {
			a.f = append(a.f, h.mk(s.Field(i).Type(), name+"."+s.Field(i).Name(), num1))
		}
		return a
	}
	if isNamed(t, "math/big.Int") {
		return num1(name)
	}
	return h.in.zero(t)
}

func (h *H) freeNum(name string) Val { return num(h.c.sym(name, nil, nil)) }

// ptr1 is the object behind a definite pointer.
func ptr1(v Val) (PtrL, bool) {
	l, ok := one(v)
	if !ok {
		return PtrL{}, false
	}
	p, ok := l.(PtrL)
	return p, ok
}

// cells lists the number cells reachable from v in field order.
func (in *Interp) cells(st *State, v Val, t types.Type) []PtrL {
	var out []PtrL
	var walk func(v Val, t types.Type, at PtrL)
	walk = func(v Val, t types.Type, at PtrL) {
		if isNamed(t, "math/big.Int") {
			out = append(out, at)
			return
		}
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			p, ok := ptr1(in.under(st, v))
			if !ok {
				in.undec("pointer field is %s", valKeyShort(v))
			}
			walk(in.readPath(st.heap.get(p.obj), splitPath(p.path)), u.Elem(), p)
		case *types.Struct:
			a, ok := v.(*AggV)
			if !ok {
				in.undec("struct is %s", valKeyShort(v))
			}
			for i := 0; i < u.NumFields(); i++ {
				walk(a.f[i], u.Field(i).Type(), PtrL{at.obj, joinPath(at.path, i)})
			}
		}
	}
	walk(v, t, PtrL{})
	return out
}

// nums reads the number cells of an object as single polynomials.
func (in *Interp) numsOf(st *State, v Val, t types.Type) []Val {
	var out []Val
	for _, p := range in.cells(st, v, t) {
		out = append(out, in.under(st, in.readPath(st.heap.get(p.obj), splitPath(p.path))))
	}
	return out
}

// call interprets fn and reports panics and pool misuse as violations.
func (h *H) call(fn *ssa.Function, args ...Val) Val {
	n := len(h.in.events)
	h.in.stack = nil
	v := h.in.callFn(h.st, fn, args, nil, fn.Pos())
	h.report(n, fn)
	return v
}

func (h *H) report(n int, fn *ssa.Function) {
	seen := map[string]bool{}
	for _, e := range h.in.events[n:] {
		if h.c.and(e.pc, h.in.care) == bF {
			continue
		}
		k := e.kind + e.pos + e.what
		if seen[k] {
			continue
		}
		seen[k] = true
		if e.kind == "invzero" || e.kind == "panic" || e.kind == "poison" || e.kind == "stale" || e.kind == "doubleput" || e.kind == "foreignput" {
			h.fail("definite", e.pos, "%s%s: %s when %s", h.pre(), e.kind, e.what, h.c.showB(e.pc))
		}
	}
}

func (h *H) needFn(fn *ssa.Function, what string) *ssa.Function {
	if fn == nil {
		panic(undecided{"function not found: " + what})
	}
	return fn
}

func (h *H) method(pkg, typ, name string) *ssa.Function {
	return h.needFn(h.r.w.method(pkg, typ, name), pkg+"."+typ+"."+name)
}
func (h *H) fn(pkg, name string) *ssa.Function {
	return h.needFn(h.r.w.fn(pkg, name), pkg+"."+name)
}
func (h *H) typ(pkg, name string) types.Type {
	t := h.r.w.typ(pkg, name)
	if t == nil {
		panic(undecided{"type not found: " + pkg + "." + name})
	}
	return t
}
func (h *H) ptyp(pkg, name string) types.Type { return types.NewPointer(h.typ(pkg, name)) }

// constant value of a *big.Int global.
func (h *H) bigGlobal(pkg, name string) *big.Int {
	g := h.r.w.global(pkg, name)
	if g == nil {
		panic(undecided{"global not found: " + pkg + "." + name})
	}
	v := h.in.load(h.st, h.in.load(h.st, h.in.globalPtr(g)))
	k, ok := h.in.isConstV(h.st, v)
	if !ok {
		panic(undecided{"global " + name + " is not constant"})
	}
	return k
}

// ---------- pool ----------

// poolModel: Get returns a number with unknown content, Put takes it back.
func (in *Interp) poolModel() {
	in.sums[full(bnPkg, "bnPool", "Get")] = func(in *Interp, st *State, fn *ssa.Function, args []Val, pos token.Pos) (Val, bool) {
		if l, ok := one(args[0]); ok {
			if _, isNil := l.(NilL); isNil {
				return in.newInt(st, &Poly{}), true
			}
		}
		return in.newPtr(st, in.bigIntT(), "pooled", num(in.c.atomPoly(in.c.atom(&atomInfo{kind: aSym, name: in.c.freshName("stale"), tag: "stale"})))), true
	}
	in.sums[full(bnPkg, "bnPool", "Put")] = func(in *Interp, st *State, fn *ssa.Function, args []Val, pos token.Pos) (Val, bool) {
		if l, ok := one(args[0]); ok {
			if _, isNil := l.(NilL); isNil {
				return nil, true
			}
		}
		in.ptrs(st, args[1], "pool.Put", func(g Bdd, p PtrL) {
			cur := in.readPath(st.heap.get(p.obj), splitPath(p.path))
			if cg, ok := cur.(*GV); ok {
				for _, a := range cg.alts {
					if pz, ok := a.l.(PoisonL); ok {
						in.event("doubleput", in.c.and(st.pc, in.c.and(g, a.g)), "number is returned to the pool twice (first %s)", pz.where)
					}
				}
			}
			if in.protect[p.obj] || p.obj < in.protectBelow {
				in.event("foreignput", in.c.and(st.pc, g), "a number that belongs to an operand is returned to the pool")
			}
			v := leaf(PoisonL{in.w.pos(pos)})
			if g != bT {
				st.heap = st.heap.set(p.obj, in.writePath(st.heap.get(p.obj), splitPath(p.path), in.c.merge(g, v, in.unp(cur))))
				return
			}
			in.storeP(st, p, v)
		})
		return nil, true
	}
}

func (h *H) pool() Val {
	t := h.typ(bnPkg, "bnPool")
	return h.in.newPtr(h.st, t, "pool", h.in.zero(t))
}

// partitions enumerates the aliasings of n operands.
func partitions(n int) [][]int {
	var out [][]int
	var rec func(p []int, m int)
	rec = func(p []int, m int) {
		if len(p) == n {
			out = append(out, append([]int(nil), p...))
			return
		}
		for i := 0; i <= m; i++ {
			mm := m
			if i == m {
				mm++
			}
			rec(append(p, i), mm)
		}
	}
	rec(nil, 0)
	return out
}

func aliasName(p []int, names []string) string {
	g := map[int][]string{}
	mx := 0
	for i, x := range p {
		g[x] = append(g[x], names[i])
		if x > mx {
			mx = x
		}
	}
	var parts []string
	for i := 0; i <= mx; i++ {
		if len(g[i]) > 1 {
			parts = append(parts, strings.Join(g[i], "="))
		}
	}
	if len(parts) == 0 {
		return "distinct"
	}
	return strings.Join(parts, ",")
}

// k2Poly: value of a gfP2 given by its cells x (imaginary), y (real).
func (c *Ctx) k2Poly(x, y *Poly) *Poly {
	return c.reduce(add(y, c.mul(c.atomPoly(c.atoms[c.imagI]), x)), c.p)
}

func (in *Interp) onePoly(v Val) *Poly {
	p, ok := in.intOf(v)
	if !ok {
		in.undec("value depends on conditions: %s", valKeyShort(v))
	}
	return p
}

// k2Of reads K2 values of an object made of gfP2 coordinates.
func (in *Interp) k2Of(st *State, v Val, t types.Type) []*Poly {
	ns := in.numsOf(st, v, t)
	var out []*Poly
	for i := 0; i+1 < len(ns); i += 2 {
		x, ok1 := in.k2cell(ns[i])
		y, ok2 := in.k2cell(ns[i+1])
		if !ok1 || !ok2 {
			in.undec("coordinates depend on conditions: %s", valKeyShort(ns[i]))
		}
		out = append(out, in.c.k2Poly(x, y))
	}
	return out
}

func fmtPolys(c *Ctx, ps []*Poly) string {
	var s []string
	for _, p := range ps {
		s = append(s, c.show(p))
	}
	return "(" + strings.Join(s, ", ") + ")"
}

var _ = fmt.Sprint

func subB(x *big.Int, k int64) *big.Int { return new(big.Int).Sub(x, bi(k)) }

// attempt runs f; nil if it cannot be decided.
func (h *H) attempt(f func() Val) (v Val) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(undecided); !ok {
				panic(e)
			}
			v = nil
		}
	}()
	return f()
}
