package main

// Loops over the bits of a number: the body is interpreted once for generic
// loop variables and the recurrence is recognised (square-and-multiply,
// double-and-add, in either bit order).

import (
	"fmt"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// view gives the algebraic meaning of an object type.
type view struct {
	group bool
	read  func(in *Interp, st *State, p PtrL, t types.Type) (interface{}, bool) // []*Poly or *Elem
	write func(in *Interp, st *State, p PtrL, t types.Type, v interface{})
	fresh func(in *Interp, name string) interface{}
}

func ringView(typ string) *view {
	d := ringDim(typ)
	return &view{
		read: func(in *Interp, st *State, p PtrL, t types.Type) (interface{}, bool) {
			ns := in.numsOf(st, leaf(p), types.NewPointer(t))
			var out []*Poly
			for i := 0; i+1 < len(ns); i += 2 {
				x, ok1 := in.k2cell(ns[i])
				y, ok2 := in.k2cell(ns[i+1])
				if !ok1 || !ok2 {
					return nil, false
				}
				out = append(out, in.c.k2Poly(x, y))
			}
			return out, true
		},
		write: func(in *Interp, st *State, p PtrL, t types.Type, v interface{}) {
			cs := in.cells(st, leaf(p), types.NewPointer(t))
			for i, q := range v.([]*Poly) {
				in.storeP(st, cs[2*i], num(in.c.part(q, true, "")))
				in.storeP(st, cs[2*i+1], num(in.c.part(q, false, "")))
			}
		},
		fresh: func(in *Interp, name string) interface{} {
			var out []*Poly
			for i := 0; i < d; i++ {
				out = append(out, in.c.atomPoly(in.c.atom(&atomInfo{kind: aSym, k2: true, name: fmt.Sprintf("%s[%d]", name, i)})))
			}
			return out
		},
	}
}

type owner struct {
	p PtrL
	t types.Type
	v *view
}

// owners finds the objects with an algebraic view that contain the cells.
func (in *Interp) owners(st *State, cells map[int]bool, mark int) ([]owner, map[int]bool) {
	var out []owner
	covered := map[int]bool{}
	var cand []owner
	sub := map[int]bool{}
	for id := 1; id < mark; id++ {
		t := in.meta[id].typ
		if t == nil {
			continue
		}
		v := in.views[namedName(t)]
		if v == nil || st.heap.get(id) == nil {
			continue
		}
		cand = append(cand, owner{PtrL{id, ""}, t, v})
	}
	// objects that are part of another candidate are not owners
	for _, o := range cand {
		in.subObjects(st, o.p.obj, sub)
	}
	for _, o := range cand {
		if sub[o.p.obj] {
			continue
		}
		hit := false
		var cs []PtrL
		func() {
			defer func() {
				if e := recover(); e != nil {
					if _, ok := e.(undecided); !ok {
						panic(e)
					}
				}
			}()
			cs = in.cells(st, leaf(o.p), types.NewPointer(o.t))
		}()
		for _, c := range cs {
			if cells[c.obj] {
				hit = true
			}
		}
		if hit {
			for _, c := range cs {
				covered[c.obj] = true
			}
			out = append(out, o)
		}
	}
	return out, covered
}

func (in *Interp) subObjects(st *State, id int, sub map[int]bool) {
	var walk func(v Val)
	walk = func(v Val) {
		switch x := v.(type) {
		case *AggV:
			for _, f := range x.f {
				walk(f)
			}
		case *GV:
			for _, a := range x.alts {
				if p, ok := a.l.(PtrL); ok && !sub[p.obj] {
					sub[p.obj] = true
					walk(st.heap.get(p.obj))
				}
			}
		}
	}
	walk(st.heap.get(id))
}

func (f *frame) solveLoop(blk *ssa.BasicBlock, st State, env []Val, phis []*ssa.Phi) {
	in, c := f.in, f.in.c
	h := blk.Index
	body := f.fi.loops[h]
	mark := len(in.meta)
	changed := map[int]bool{}
	in.loopNo++
	tag := fmt.Sprintf("loop%d", in.loopNo)
	idx := c.sym(tag+".i", b0, new(big.Int).Lsh(b1, 40))
	varPhi := map[int]bool{}
	var back State
	var backEnv []Val
	var owns []owner
	var gen State
	var xs []interface{}
	var early []Bdd // conditions under which the header leaves the loop
	for round := 0; ; round++ {
		if round > 5 {
			in.undec("loop variables do not stabilise")
		}
		gen = st
		genv := append([]Val(nil), env...)
		for j := range phis {
			if varPhi[j] {
				genv[f.fi.idx[phis[j]]] = num(idx)
			}
		}
		var cov map[int]bool
		owns, cov = in.owners(&gen, changed, mark)
		xs = nil
		for k, o := range owns {
			x := o.v.fresh(in, fmt.Sprintf("%s.x%d", tag, k))
			xs = append(xs, x)
			o.v.write(in, &gen, o.p, o.t, x)
		}
		for id := range changed {
			if !cov[id] {
				if isIntCell(in.meta[id].typ) { // a counter that a closure uses
					gen.heap = gen.heap.set(id, num(idx))
					continue
				}
				if !isNamed(in.meta[id].typ, "math/big.Int") {
					in.undec("loop changes %s", in.meta[id].name)
				}
				gen.heap = gen.heap.set(id, num(c.sym(c.freshName("loopvar"), nil, nil)))
			}
		}
		nev := len(in.events)
		g := &frame{in: in, fn: f.fn, fi: f.fi, pend: map[int][]pending{}, rec: f.rec, entry: map[int]*headerEntry{}, only: body, header: h, mark: f.mark}
		start := append([]Val(nil), genv...)
		g.exec(blk, gen, start)
		g.run()
		if len(g.back) == 0 {
			in.undec("loop body does not come back")
		}
		back, backEnv = g.back[0].st, g.back[0].env
		for _, b := range g.back[1:] {
			un := c.or(back.pc, b.st.pc)
			gd := c.constrain(back.pc, c.and(un, in.care))
			for i := range backEnv {
				if backEnv[i] != nil || b.env[i] != nil {
					backEnv[i] = c.merge(gd, backEnv[i], b.env[i])
				}
			}
			back.heap = c.mergeHeap(gd, back.heap, b.st.heap)
			back.pc = un
		}
		f.unswap(blk, phis, genv, &back, backEnv)
		early = nil
		for _, e := range g.exits {
			if e.p.pred != h {
				in.undec("loop over the bits of a number is left early")
			}
			early = append(early, e.p.st.pc)
		}
		again := false
		for j, ph := range phis {
			if !varPhi[j] && !sameVal(genv[f.fi.idx[ph]], backEnv[f.fi.idx[ph]]) {
				if b, ok := ph.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
					in.undec("loop variable %s is not understood", ph.Comment)
				}
				varPhi[j] = true
				again = true
			}
		}
		for _, id := range diffHeap(gen.heap, back.heap) {
			if id < mark && !changed[id] {
				changed[id] = true
				again = true
			}
		}
		if !again {
			break
		}
		in.events = in.events[:nev]
	}
	// counter
	cnt, cell, ncnt := -1, -1, len(varPhi)
	for j := range varPhi {
		cnt = j
	}
	for id := range changed {
		if isIntCell(in.meta[id].typ) {
			cell = id
			ncnt++
		}
	}
	if ncnt == 0 {
		in.undec("loop without a counter")
	}
	if ncnt > 1 {
		in.undec("several loop counters")
	}
	var start, next Val
	if cnt >= 0 {
		ci := f.fi.idx[phis[cnt]]
		start, next = env[ci], backEnv[ci]
	} else {
		start, next = st.heap.get(cell), back.heap.get(cell)
	}
	i0, ok := in.intOf(start)
	i1, ok2 := in.intOf(next)
	if !ok || !ok2 {
		in.undec("loop counter")
	}
	step, ok := sub(i1, idx).isConst()
	if !ok || !step.IsInt64() || step.Int64() != 1 && step.Int64() != -1 {
		in.undec("loop counter does not move by one")
	}
	down := step.Int64() == -1
	// header condition
	iff, ok := blk.Instrs[len(blk.Instrs)-1].(*ssa.If)
	if !ok {
		in.undec("loop header without condition")
	}
	// the number whose bits are used
	var s, off *Poly
	var bit *atomInfo
	for _, a := range c.atoms[1:] {
		if sb, ok := a.data.(*symBit); ok && c.uses(sb.i, c.single(idx).id) {
			if bit != nil && bit != a {
				in.undec("loop uses several bits")
			}
			k, ok := sub(sb.i, idx).isConst()
			if !ok {
				in.undec("loop looks at bit %s in round %s", c.show(sb.i), c.show(idx))
			}
			bit, s, off = a, sb.p, cst(k)
		}
	}
	if bit == nil {
		in.undec("loop does not look at bits")
	}
	if c.and(c.negB(s), c.and(st.pc, in.care)) != bF {
		in.undec("bits of a number that may be negative")
	}
	bl := in.bitLenNum(s)
	var exit *Poly
	if down {
		k, ok := sub(add(i0, off), bl).isConst()
		if !ok || k.Cmp(bi(-1)) < 0 {
			in.undec("loop starts at bit %s", c.show(i0))
		}
		exit = sub(csti(-1), off)
	} else {
		if !add(i0, off).isZero() {
			in.undec("loop starts at bit %s", c.show(i0))
		}
		exit = sub(bl, off)
	}
	// the header does not leave the loop before the last bit
	inside := sub(sub(bl, csti(1)), add(idx, off)) // not negative up to the last bit
	if down {
		inside = add(idx, off)
	}
	stays := c.not(c.zeroInt(add(inside, csti(1))))
	for d := int64(0); d < 3; d++ { // as the code may write it
		stays = c.and(stays, c.and(c.not(c.negB(add(inside, csti(d)))), c.negB(sub(csti(-1-d), inside))))
	}
	for _, e := range early {
		if g := c.and(c.and(e, stays), in.care); g != bF {
			in.undec("the loop over the bits of %s can end before the last bit: %s", c.show(s), c.showB(g))
		}
	}
	// evaluate the header condition at the exit
	xenv := append([]Val(nil), env...)
	if cnt >= 0 {
		xenv[f.fi.idx[phis[cnt]]] = num(exit)
	}
	_ = iff
	// recurrences
	at := func(v interface{}, k int64) interface{} {
		switch x := v.(type) {
		case []*Poly:
			var out []*Poly
			for _, p := range x {
				out = append(out, c.substIn(p, bit, csti(k)))
			}
			return out
		case *Elem:
			e := &Elem{g: x.g}
			for _, t := range x.t {
				q := c.redCoef(x.g, c.subst1(t.co, bit, csti(k)))
				if !q.isZero() {
					e.t = append(e.t, eterm{t.base, q})
				}
			}
			return e
		}
		return nil
	}
	fin := st
	for k, o := range owns {
		nv, ok := o.v.read(in, &back, o.p, o.t)
		var res interface{}
		if ok {
			v0, v1 := at(nv, 0), at(nv, 1)
			init, iok := o.v.read(in, &st, o.p, o.t)
			switch x := xs[k].(type) {
			case []*Poly:
				res = in.ringRec(down, x, v0.([]*Poly), v1.([]*Poly), init, iok, s, &back, owns, xs, at, &st, o)
			case *Elem:
				res = in.groupRec(down, x, v0.(*Elem), v1.(*Elem), init, iok, s, &back, owns, xs, at, &st)
			}
		}
		if res == nil {
			res = o.v.fresh(in, c.freshName("after "+tag))
		}
		o.v.write(in, &fin, o.p, o.t, res)
	}
	_, cov := in.owners(&fin, changed, mark)
	for id := range changed {
		if id == cell {
			fin.heap = fin.heap.set(id, num(exit))
		} else if !cov[id] {
			fin.heap = fin.heap.set(id, num(c.sym(c.freshName("after loop"), nil, nil)))
		}
	}
	f.exec(blk, fin, xenv)
}

// unswap undoes an exchange of objects between loop variables: when the
// variables p and q point to the objects a and b before a round and to b and
// a after it, and nothing else in the program points to them, exchanging the
// contents of a and b instead makes no difference.
func (f *frame) unswap(blk *ssa.BasicBlock, phis []*ssa.Phi, genv []Val, back *State, backEnv []Val) {
	in, c := f.in, f.in.c
	var js []int
	var objs []PtrL
	set := map[int]bool{}
	for j, ph := range phis {
		i := f.fi.idx[ph]
		pt, ok := ph.Type().Underlying().(*types.Pointer)
		if !ok || sameVal(genv[i], backEnv[i]) {
			continue
		}
		p, ok := ptr1(genv[i])
		if !ok || p.path != "" || set[p.obj] || p.obj < f.mark || f.mark == 0 || !types.Identical(pt.Elem(), in.meta[p.obj].typ) {
			return
		}
		js, objs = append(js, j), append(objs, p)
		set[p.obj] = true
	}
	if len(js) < 2 {
		return
	}
	// the parts of the objects
	cells := make([][]PtrL, len(js))
	own := map[int]bool{}
	for k, j := range js {
		if !types.Identical(phis[j].Type(), phis[js[0]].Type()) {
			return
		}
		cells[k] = in.cells(back, leaf(objs[k]), phis[j].Type())
		if len(cells[k]) != len(cells[0]) {
			return
		}
		own[objs[k].obj] = true
	}
	for k := range js {
		sub := map[int]bool{objs[k].obj: true}
		in.subObjects(back, objs[k].obj, sub)
		for id := range sub {
			if own[id] && id != objs[k].obj {
				return
			}
			own[id] = true
		}
	}
	// which object each variable points to
	type part struct {
		g  Bdd
		to []int
	}
	parts := []part{{bT, nil}}
	for _, j := range js {
		gv, ok := backEnv[f.fi.idx[phis[j]]].(*GV)
		if !ok {
			return
		}
		var next []part
		for _, q := range parts {
			for _, a := range gv.alts {
				p, ok := a.l.(PtrL)
				if !ok || p.path != "" || !set[p.obj] {
					return
				}
				g := c.and(q.g, a.g)
				if c.and(g, c.and(back.pc, in.care)) == bF {
					continue
				}
				next = append(next, part{g, append(append([]int(nil), q.to...), p.obj)})
			}
		}
		parts = next
	}
	at := map[int]int{}
	for k, p := range objs {
		at[p.obj] = k
	}
	for _, q := range parts {
		seen := map[int]bool{}
		for _, o := range q.to {
			if seen[o] {
				return
			}
			seen[o] = true
		}
	}
	// nothing else points to the objects
	if len(f.defers) > 0 {
		return
	}
	after := map[*ssa.BasicBlock]bool{}
	var reach func(b *ssa.BasicBlock)
	reach = func(b *ssa.BasicBlock) {
		if !after[b] {
			after[b] = true
			for _, n := range b.Succs {
				reach(n)
			}
		}
	}
	reach(blk)
	mine := map[*ssa.Phi]bool{}
	for _, j := range js {
		mine[phis[j]] = true
	}
	for v, i := range f.fi.idx {
		if ph, ok := v.(*ssa.Phi); ok && mine[ph] || genv[i] == nil || !f.pointsTo(genv[i], own) {
			continue
		}
		refs := v.Referrers()
		if refs == nil {
			return
		}
		for _, r := range *refs {
			if ph, ok := r.(*ssa.Phi); ok && mine[ph] {
				continue
			}
			if after[r.Block()] {
				return
			}
		}
	}
	for id := 1; id < len(in.meta); id++ {
		if !own[id] && f.pointsTo(back.heap.get(id), own) {
			return
		}
	}
	// exchange the contents
	type write struct {
		at PtrL
		v  Val
	}
	var ws []write
	for k := range js {
		for i, p := range cells[k] {
			var v Val
			for n, q := range parts {
				src := cells[at[q.to[k]]][i]
				w := in.readPath(back.heap.get(src.obj), splitPath(src.path))
				if n == 0 {
					v = w
				} else {
					v = c.merge(q.g, w, v)
				}
			}
			ws = append(ws, write{p, v})
		}
	}
	for _, w := range ws {
		in.storeP(back, w.at, w.v)
	}
	for k, j := range js {
		backEnv[f.fi.idx[phis[j]]] = leaf(objs[k])
	}
}

// pointsTo says whether the value contains a pointer to one of the objects.
func (f *frame) pointsTo(v Val, objs map[int]bool) bool {
	switch x := v.(type) {
	case *AggV:
		for _, e := range x.f {
			if f.pointsTo(e, objs) {
				return true
			}
		}
	case *GV:
		for _, a := range x.alts {
			switch l := a.l.(type) {
			case PtrL:
				if objs[l.obj] {
					return true
				}
			case SliceL:
				if objs[l.obj] {
					return true
				}
			case FuncL:
				for _, b := range l.binds {
					if f.pointsTo(b, objs) {
						return true
					}
				}
			case IfaceL:
				if f.pointsTo(l.v, objs) {
					return true
				}
			}
		}
	}
	return false
}

func (c *Ctx) anyAtom(p *Poly, f func(*atomInfo) bool) bool {
	for _, t := range p.t {
		for i := 0; i+6 <= len(t.m); i += 6 {
			if f(c.atoms[atomOf(t.m[i:])]) {
				return true
			}
		}
	}
	return false
}

func (c *Ctx) uses(p *Poly, id atomID) bool {
	for _, t := range p.t {
		for i := 0; i+6 <= len(t.m); i += 6 {
			if atomOf(t.m[i:]) == id {
				return true
			}
		}
	}
	return false
}

// substIn substitutes also below residues.
func (c *Ctx) substIn(p *Poly, a *atomInfo, v *Poly) *Poly {
	return c.subst1(c.reduce(p, c.p), a, v)
}

func (in *Interp) ringRec(down bool, x, v0, v1 []*Poly, init interface{}, iok bool, s *Poly, back *State, owns []owner, xs []interface{}, at func(interface{}, int64) interface{}, st *State, self owner) interface{} {
	c := in.c
	if !iok {
		return nil
	}
	i0 := init.([]*Poly)
	one := c.rone(len(x))
	powOf := func(base []*Poly) []*Poly {
		return c.ringPow(base, s)
	}
	if down {
		sq := c.rmul(x, x)
		if c.requal(v0, sq) >= 0 || c.requal(i0, one) >= 0 {
			return nil
		}
		// find the invariant factor
		for id := 1; id < len(in.meta); id++ {
			t := in.meta[id].typ
			if t == nil || in.views[namedName(t)] != self.v || st.heap.get(id) == nil {
				continue
			}
			cv, ok := self.v.read(in, st, PtrL{id, ""}, t)
			if !ok {
				continue
			}
			bv, ok := self.v.read(in, back, PtrL{id, ""}, t)
			if !ok || c.requal(bv.([]*Poly), cv.([]*Poly)) >= 0 {
				continue
			}
			if c.requal(v1, c.rmul(sq, cv.([]*Poly))) < 0 {
				return powOf(cv.([]*Poly))
			}
		}
		return nil
	}
	if c.requal(v0, x) >= 0 {
		return nil
	}
	for k, o := range owns {
		y, ok := xs[k].([]*Poly)
		if !ok || len(y) != len(x) {
			continue
		}
		ny, ok := o.v.read(in, back, o.p, o.t)
		if !ok || c.requal(at(ny, 0).([]*Poly), c.rmul(y, y)) >= 0 || c.requal(at(ny, 1).([]*Poly), c.rmul(y, y)) >= 0 {
			continue
		}
		if c.requal(v1, c.rmul(x, y)) >= 0 {
			continue
		}
		b0v, ok := o.v.read(in, st, o.p, o.t)
		if !ok {
			continue
		}
		p := powOf(b0v.([]*Poly))
		if c.requal(i0, one) < 0 {
			return p
		}
		return c.rmul(i0, p)
	}
	return nil
}

// ringPow is the formal power base^s.
func (c *Ctx) ringPow(base []*Poly, s *Poly) []*Poly {
	key := ""
	for _, b := range base {
		key += c.reduce(b, c.p).Key()
	}
	var out []*Poly
	for i := range base {
		out = append(out, c.atomPoly(c.atom(&atomInfo{kind: aSym, k2: true, name: fmt.Sprintf("pow(%s;%s)[%d]", key, s.Key(), i)})))
	}
	return out
}

func (in *Interp) groupRec(down bool, x, v0, v1 *Elem, init interface{}, iok bool, s *Poly, back *State, owns []owner, xs []interface{}, at func(interface{}, int64) interface{}, st *State) interface{} {
	c := in.c
	if !iok {
		return nil
	}
	e0 := init.(*Elem)
	if down {
		if !elemEq(v0, c.eAdd(x, x)) || len(e0.t) != 0 {
			return nil
		}
		d := c.eSub(v1, v0)
		for _, t := range d.t {
			for _, xt := range x.t {
				if t.base == xt.base {
					return nil
				}
			}
			if len(t.base) > 4 && t.base[:4] == "loop" {
				return nil
			}
		}
		return c.eScale(d, s)
	}
	if !elemEq(v0, x) {
		return nil
	}
	d := c.eSub(v1, v0)
	for k, o := range owns {
		y, ok := xs[k].(*Elem)
		if !ok || !elemEq(d, y) {
			continue
		}
		ny, ok := o.v.read(in, back, o.p, o.t)
		if !ok || !elemEq(at(ny, 0).(*Elem), c.eAdd(y, y)) || !elemEq(at(ny, 1).(*Elem), c.eAdd(y, y)) {
			continue
		}
		b, ok := o.v.read(in, st, o.p, o.t)
		if !ok {
			continue
		}
		return c.eAdd(e0, c.eScale(b.(*Elem), s))
	}
	return nil
}

func isIntCell(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
