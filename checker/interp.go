package main

// Abstract interpretation of go/ssa functions: one merged state per program
// point, loops with known trip counts are followed in place, other loops are
// summarised by their recurrence (loops.go).

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

type State struct {
	pc   Bdd
	heap Heap
}

type objMeta struct {
	typ  types.Type
	name string
}

type event struct {
	kind string // panic, poison, doubleput, ...
	pc   Bdd
	what string
	pos  string
}

type Summary func(in *Interp, st *State, fn *ssa.Function, args []Val, pos token.Pos) (Val, bool)

type Interp struct {
	c            *Ctx
	w            *World
	meta         []objMeta
	globals      map[*ssa.Global]int
	sums         map[string]Summary
	events       []event
	care         Bdd
	stack        []*ssa.Function
	steps        int
	rands        int
	randOf       []randDraw
	funcs        map[*ssa.Function]bool
	lv           map[string]bool // active levels
	groups       map[string]*Group
	binds        []Val
	lastPos      token.Pos
	initPkg      *types.Package
	initMark     int
	views        map[string]*view
	loopNo       int
	protect      map[int]bool
	protectBelow int
	symMap       func(st *State, content *AggV, k, zero Val) (Val, Bdd)
	pools        bool
	matMemo      map[string]int
	traceFns     map[string]int
	noRetry      bool
	fieldM       *big.Int
	randName     func(n int) string
	randCase     func(n int) string // what the n-th draw is: zero, nonzero, fail
	failLog      *[]failure
	inject       func(st *State, fn *ssa.Function) (Val, bool)
	noIdent      bool // leave out accidental identities
	noNil        bool // leave out accidental identities that are hashed
	idents       int
}

type randDraw struct {
	atom *atomInfo
	pc   Bdd
	src  string
}

// World is the loaded program.
type World struct {
	prog  *ssa.Program
	fset  *token.FileSet
	pkgs  map[string]*ssa.Package
	infos map[*ssa.Function]*funcInfo
	imu   sync.Mutex
	root  string
	load  []*packages.Package
}

func newInterp(w *World) *Interp {
	in := &Interp{c: newCtx(), w: w, globals: map[*ssa.Global]int{}, sums: map[string]Summary{}, care: bT,
		funcs: map[*ssa.Function]bool{}, lv: map[string]bool{}, groups: map[string]*Group{}, matMemo: map[string]int{}, traceFns: map[string]int{}}
	in.meta = append(in.meta, objMeta{})
	return in
}

func (in *Interp) undec(f string, a ...interface{}) {
	panic(undecided{fmt.Sprintf(f, a...) + " at " + in.where()})
}

func (in *Interp) where() string {
	s := in.w.pos(in.lastPos)
	if len(in.stack) > 0 {
		s += " in " + shortFn(in.stack[len(in.stack)-1])
	}
	return s
}

func shortFn(f *ssa.Function) string {
	return strings.ReplaceAll(f.String(), "github.com/ing-bank/zkrp/", "")
}

func (w *World) pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	q := w.fset.Position(p)
	r, err := filepath.Rel(w.root, q.Filename)
	if err != nil {
		r = q.Filename
	}
	return fmt.Sprintf("%s:%d", r, q.Line)
}

func (in *Interp) event(kind string, pc Bdd, f string, a ...interface{}) {
	pc = in.c.and(pc, in.care)
	if pc == bF {
		return
	}
	in.events = append(in.events, event{kind, pc, fmt.Sprintf(f, a...), in.where()})
}

// ---------- objects ----------

func (in *Interp) alloc(st *State, t types.Type, name string, v Val) int {
	id := len(in.meta)
	in.meta = append(in.meta, objMeta{t, name})
	st.heap = st.heap.set(id, v)
	return id
}

func (in *Interp) newPtr(st *State, t types.Type, name string, v Val) Val {
	return leaf(PtrL{in.alloc(st, t, name, v), ""})
}

func isNamed(t types.Type, name string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	return n.Obj().Pkg().Path()+"."+n.Obj().Name() == name
}

func namedName(t types.Type) string {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return ""
	}
	return n.Obj().Pkg().Path() + "." + n.Obj().Name()
}

func (in *Interp) zero(t types.Type) Val {
	switch namedName(t) {
	case "math/big.Int":
		return numi(0)
	case "bytes.Buffer", "strings.Builder":
		return leaf(ModelL{kind: "buf"})
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return numi(0)
		case u.Info()&types.IsBoolean != 0:
			return BoolV{bF}
		case u.Info()&types.IsString != 0:
			return leaf(StrL{})
		case u.Info()&types.IsFloat != 0:
			return leaf(FloatL{k: "c", f: 0})
		}
		return leaf(NilL{})
	case *types.Struct:
		a := &AggV{}
		for i := 0; i < u.NumFields(); i++ {
			a.f = append(a.f, in.zero(u.Field(i).Type()))
		}
		return a
	case *types.Array:
		a := &AggV{}
		for i := int64(0); i < u.Len(); i++ {
			a.f = append(a.f, in.zero(u.Elem()))
		}
		return a
	case *types.Tuple:
		a := &AggV{}
		for i := 0; i < u.Len(); i++ {
			a.f = append(a.f, in.zero(u.At(i).Type()))
		}
		return a
	}
	return leaf(NilL{})
}

func splitPath(p string) []int {
	if p == "" {
		return nil
	}
	ss := strings.Split(p, ",")
	r := make([]int, len(ss))
	for i, s := range ss {
		r[i], _ = strconv.Atoi(s)
	}
	return r
}
func joinPath(p string, i int) string {
	if p == "" {
		return strconv.Itoa(i)
	}
	return p + "," + strconv.Itoa(i)
}

func (in *Interp) readPath(v Val, path []int) Val {
	for _, i := range path {
		a, ok := v.(*AggV)
		if !ok {
			in.undec("field of %s", valKeyShort(v))
		}
		if i >= len(a.f) {
			in.undec("index %d out of object", i)
		}
		v = a.f[i]
	}
	return v
}

func valKeyShort(v Val) string {
	s := valKey(v)
	if len(s) > 80 {
		s = s[:80]
	}
	return fmt.Sprintf("%T %q", v, s)
}

func (in *Interp) writePath(v Val, path []int, x Val) Val {
	if len(path) == 0 {
		return x
	}
	a, ok := v.(*AggV)
	if !ok {
		in.undec("store into field of %s", valKeyShort(v))
	}
	n := &AggV{append([]Val(nil), a.f...)}
	n.f[path[0]] = in.writePath(a.f[path[0]], path[1:], x)
	return n
}

func (in *Interp) loadP(st *State, p PtrL) Val {
	v := in.readPath(st.heap.get(p.obj), splitPath(p.path))
	if g, ok := v.(*GV); ok {
		for _, a := range g.alts {
			if pz, ok := a.l.(PoisonL); ok {
				in.event("poison", in.c.and(st.pc, a.g), "number is read after it was returned to the pool (%s)", pz.where)
				return in.unpoison(st, p, g)
			}
		}
	}
	return v
}

func (in *Interp) unpoison(st *State, p PtrL, g *GV) Val {
	var alts []Alt
	for _, a := range g.alts {
		if _, ok := a.l.(PoisonL); ok {
			a.l = NumL{in.c.sym(in.c.freshName("recycled"), nil, nil)}
		}
		alts = append(alts, a)
	}
	v := in.c.mkGV(alts)
	in.storeP(st, p, v)
	return v
}

func (in *Interp) storeP(st *State, p PtrL, v Val) {
	if p.path == "" {
		st.heap = st.heap.set(p.obj, v)
		return
	}
	st.heap = st.heap.set(p.obj, in.writePath(st.heap.get(p.obj), splitPath(p.path), v))
}

// ptrs calls f for every non-nil alternative of a pointer; nil alternatives
// are recorded as panics.
func (in *Interp) ptrs(st *State, v Val, what string, f func(g Bdd, p PtrL)) {
	g, ok := v.(*GV)
	if !ok {
		in.undec("%s: not a pointer: %s", what, valKeyShort(v))
	}
	for _, a := range g.alts {
		switch l := a.l.(type) {
		case PtrL:
			f(a.g, l)
		case NilL:
			in.panicIf(st, a.g, what+": nil pointer")
		case UninitL:
			in.undec("%s: uninitialised pointer", what)
		default:
			in.undec("%s: pointer is %s", what, a.l.Key())
		}
	}
}

func (in *Interp) panicIf(st *State, g Bdd, why string) {
	pc := in.c.and(st.pc, g)
	if in.c.and(pc, in.care) == bF {
		return
	}
	in.event("panic", pc, "%s", why)
	st.pc = in.c.and(st.pc, in.c.not(g))
}

func (in *Interp) load(st *State, v Val) Val {
	var r Val
	first := true
	in.ptrs(st, v, "load", func(g Bdd, p PtrL) {
		x := in.loadP(st, p)
		if first {
			r = x
			first = false
		} else {
			r = in.c.merge(g, x, r)
		}
	})
	if first {
		return nil
	}
	return r
}

func (in *Interp) store(st *State, v Val, x Val) {
	in.ptrs(st, v, "store", func(g Bdd, p PtrL) {
		if g == bT {
			in.storeP(st, p, x)
		} else {
			in.storeP(st, p, in.c.merge(g, x, in.readPath(st.heap.get(p.obj), splitPath(p.path))))
		}
	})
}

// ---------- functions ----------

type funcInfo struct {
	idx    map[ssa.Value]int
	n      int
	order  []int // block -> position
	loops  map[int]map[int]bool
	inLoop []int // innermost header or -1
	live   [][]bool
}

// liveIn marks the registers that the block or its successors read.
func (fi *funcInfo) liveness(fn *ssa.Function) {
	n := len(fn.Blocks)
	fi.live = make([][]bool, n)
	use := make([][]int, n)
	def := make([]map[int]bool, n)
	phiUse := map[[2]int][]int{} // edge -> registers
	for _, b := range fn.Blocks {
		fi.live[b.Index] = make([]bool, fi.n)
		def[b.Index] = map[int]bool{}
		for _, ins := range b.Instrs {
			if ph, ok := ins.(*ssa.Phi); ok {
				for k, e := range ph.Edges {
					if i, ok := fi.idx[e]; ok {
						key := [2]int{b.Preds[k].Index, b.Index}
						phiUse[key] = append(phiUse[key], i)
					}
				}
			} else {
				for _, op := range ins.Operands(nil) {
					if *op == nil {
						continue
					}
					if i, ok := fi.idx[*op]; ok && !def[b.Index][i] {
						use[b.Index] = append(use[b.Index], i)
					}
				}
			}
			if v, ok := ins.(ssa.Value); ok {
				def[b.Index][fi.idx[v]] = true
			}
		}
	}
	for again := true; again; {
		again = false
		for b := n - 1; b >= 0; b-- {
			mark := func(i int) {
				if !def[b][i] && !fi.live[b][i] {
					fi.live[b][i] = true
					again = true
				}
			}
			for _, i := range use[b] {
				if !fi.live[b][i] {
					fi.live[b][i] = true
					again = true
				}
			}
			for _, s := range fn.Blocks[b].Succs {
				for _, i := range phiUse[[2]int{b, s.Index}] {
					mark(i)
				}
				for i, l := range fi.live[s.Index] {
					if l {
						mark(i)
					}
				}
			}
		}
	}
	if fn.Recover != nil { // may run after any block
		for b := range fi.live {
			for i, l := range fi.live[fn.Recover.Index] {
				if l {
					fi.live[b][i] = true
				}
			}
		}
	}
}

func (w *World) info(fn *ssa.Function) *funcInfo {
	w.imu.Lock()
	defer w.imu.Unlock()
	if fi, ok := w.infos[fn]; ok {
		return fi
	}
	fi := &funcInfo{idx: map[ssa.Value]int{}, loops: map[int]map[int]bool{}}
	for _, p := range fn.Params {
		fi.idx[p] = fi.n
		fi.n++
	}
	for _, p := range fn.FreeVars {
		fi.idx[p] = fi.n
		fi.n++
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if v, ok := ins.(ssa.Value); ok {
				fi.idx[v] = fi.n
				fi.n++
			}
		}
	}
	fi.liveness(fn)
	n := len(fn.Blocks)
	fi.inLoop = make([]int, n)
	for i := range fi.inLoop {
		fi.inLoop[i] = -1
	}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				body := fi.loops[s.Index]
				if body == nil {
					body = map[int]bool{s.Index: true}
					fi.loops[s.Index] = body
				}
				var walk func(x *ssa.BasicBlock)
				walk = func(x *ssa.BasicBlock) {
					if body[x.Index] {
						return
					}
					body[x.Index] = true
					for _, p := range x.Preds {
						walk(p)
					}
				}
				walk(b)
			}
		}
	}
	for b := 0; b < n; b++ {
		best := -1
		for h, body := range fi.loops {
			if body[b] && (best < 0 || len(body) < len(fi.loops[best])) {
				best = h
			}
		}
		fi.inLoop[b] = best
	}
	depthOf := func(b int) int {
		d := 0
		for _, body := range fi.loops {
			if body[b] {
				d++
			}
		}
		return d
	}
	// reverse postorder, leaving loops last
	fi.order = make([]int, n)
	seen := make([]bool, n)
	var post []int
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b.Index] = true
		ss := append([]*ssa.BasicBlock(nil), b.Succs...)
		sort.SliceStable(ss, func(i, j int) bool { return depthOf(ss[i].Index) < depthOf(ss[j].Index) })
		for _, s := range ss {
			if !seen[s.Index] {
				dfs(s)
			}
		}
		post = append(post, b.Index)
	}
	if n > 0 {
		dfs(fn.Blocks[0])
		if fn.Recover != nil && !seen[fn.Recover.Index] {
			dfs(fn.Recover)
		}
	}
	for i, b := range post {
		fi.order[b] = len(post) - 1 - i
	}
	w.infos[fn] = fi
	return fi
}

type pending struct {
	st   State
	env  []Val
	pred int
}

type frame struct {
	in     *Interp
	fn     *ssa.Function
	fi     *funcInfo
	pend   map[int][]pending
	rets   []retv
	visits int
	rec    map[int]bool // loops to summarise
	entry  map[int]*headerEntry
	only   map[int]bool // when running a loop body alone
	back   []pending
	exits  []exitEdge
	header int
	defers []deferred
	mark   int // objects from here on were made by the call
}

type headerEntry struct {
	st   State
	phis []Val
	mark int
}

type exitEdge struct {
	p  pending
	to int
}

type deferred struct {
	call *ssa.Defer
	fnv  Val
	args []Val
	pc   Bdd
}

type retv struct {
	st State
	v  Val
}

type needRec struct {
	fn *ssa.Function
	h  int
}

// callFn interprets a call of fn; st is updated.
func (in *Interp) callFn(st *State, fn *ssa.Function, args []Val, binds []Val, pos token.Pos) Val {
	v := in.callFn1(st, fn, args, binds, pos)
	if in.failLog != nil && in.w.ours(fn) {
		if g := in.failed(st, fn, v); g != bF {
			*in.failLog = append(*in.failLog, failure{fn, pos, g, len(in.stack)})
		}
	}
	return v
}

// failure is a call that can report an error or the verdict false.
type failure struct {
	fn    *ssa.Function
	pos   token.Pos
	g     Bdd
	depth int
}

// failed is the condition that the results of a call report a failure: an
// error, or false with no error from functions that return both.
func (in *Interp) failed(st *State, fn *ssa.Function, v Val) Bdd {
	rs := fn.Signature.Results()
	n := rs.Len()
	if n == 0 || v == nil || rs.At(n-1).Type().String() != "error" {
		return bF
	}
	e, first := v, Val(nil)
	if n > 1 {
		a, ok := v.(*AggV)
		if !ok || len(a.f) != n {
			return bF
		}
		e, first = a.f[n-1], a.f[0]
	}
	g, ok := e.(*GV)
	if !ok {
		return bF
	}
	c, r := in.c, bF
	for _, a := range g.alts {
		if _, ok := a.l.(NilL); !ok {
			r = c.or(r, a.g)
		}
	}
	if b, ok := first.(BoolV); ok && n == 2 {
		r = c.or(r, c.not(b.b))
	}
	return c.and(c.and(r, st.pc), in.care)
}

func (in *Interp) callFn1(st *State, fn *ssa.Function, args []Val, binds []Val, pos token.Pos) Val {
	if in.inject != nil {
		if v, ok := in.inject(st, fn); ok {
			return v
		}
	}
	key := fn.String()
	if fn.Origin() != nil {
		key = fn.Origin().String()
	}
	wrapped := strings.HasPrefix(fn.Synthetic, "bound method") || strings.HasPrefix(fn.Synthetic, "thunk")
	if s := in.sums[key]; s != nil && !wrapped {
		if v, ok := s(in, st, fn, args, pos); ok {
			return v
		}
	}
	if !wrapped {
		if v, ok := in.intrinsic(st, fn, key, args, pos); ok {
			return v
		}
	}
	if len(fn.Blocks) == 0 {
		in.undec("call of %s, which has no source here", key)
	}
	if !in.w.ours(fn) && fn.Synthetic == "" {
		in.undec("call of %s is not modelled", key)
	}
	in.funcs[fn] = true
	if len(in.stack) > 600 {
		in.undec("call depth")
	}
	in.stack = append(in.stack, fn)
	defer func() { in.stack = in.stack[:len(in.stack)-1] }()
	rec := map[int]bool{}
	for {
		r, again := in.tryRun(st, fn, args, binds, rec)
		if again < 0 {
			return r
		}
		if rec[again] {
			in.undec("loop of %s", fn)
		}
		rec[again] = true
	}
}

func (in *Interp) tryRun(st *State, fn *ssa.Function, args, binds []Val, rec map[int]bool) (res Val, again int) {
	again = -1
	depth := len(in.stack)
	nev := len(in.events)
	defer func() {
		if r := recover(); r != nil {
			if nr, ok := r.(needRec); ok && nr.fn == fn && len(in.stack) >= depth {
				in.stack = in.stack[:depth]
				in.events = in.events[:nev]
				again = nr.h
				return
			}
			panic(r)
		}
	}()
	fi := in.w.info(fn)
	f := &frame{in: in, fn: fn, fi: fi, pend: map[int][]pending{}, rec: rec, entry: map[int]*headerEntry{}, header: -1, mark: len(in.meta)}
	env := make([]Val, fi.n)
	for i, p := range fn.Params {
		env[fi.idx[p]] = args[i]
	}
	for i, p := range fn.FreeVars {
		env[fi.idx[p]] = binds[i]
	}
	f.pend[0] = []pending{{*st, env, -1}}
	f.run()
	if len(f.rets) == 0 {
		st.pc = bF
		return in.zeroResult(fn), -1
	}
	c := in.c
	acc := f.rets[0]
	for _, r := range f.rets[1:] {
		un := c.or(acc.st.pc, r.st.pc)
		g := c.constrain(acc.st.pc, c.and(un, in.care))
		acc.v = c.merge(g, acc.v, r.v)
		acc.st.heap = c.mergeHeap(g, acc.st.heap, r.st.heap)
		acc.st.pc = un
	}
	*st = acc.st
	return acc.v, -1
}

func (in *Interp) zeroResult(fn *ssa.Function) Val {
	rs := fn.Signature.Results()
	if rs.Len() == 1 {
		return in.zero(rs.At(0).Type())
	}
	return in.zero(rs)
}

func (f *frame) pick() int {
	best := -1
	for b := range f.pend {
		// a header reached by its back edge waits for the rest of its body
		if body, ok := f.fi.loops[b]; ok {
			fromBack := false
			for _, p := range f.pend[b] {
				if p.pred >= 0 && body[p.pred] {
					fromBack = true
				}
			}
			if fromBack {
				wait := false
				for o := range f.pend {
					if o != b && body[o] {
						wait = true
					}
				}
				if wait {
					continue
				}
			}
		}
		if best < 0 || f.fi.order[b] < f.fi.order[best] {
			best = b
		}
	}
	return best
}

func (f *frame) run() {
	for len(f.pend) > 0 {
		b := f.pick()
		if b < 0 {
			f.in.undec("no runnable block")
		}
		ps := f.pend[b]
		delete(f.pend, b)
		f.visits++
		if f.visits > 60000 {
			f.in.undec("loop does not terminate")
		}
		blk := f.fn.Blocks[b]
		st, env, ok := f.join(blk, ps)
		if !ok {
			continue
		}
		f.exec(blk, st, env)
	}
}

// join merges the incoming edges and evaluates the phis.
func (f *frame) join(blk *ssa.BasicBlock, ps []pending) (State, []Val, bool) {
	in, c := f.in, f.in.c
	var phis []*ssa.Phi
	for _, i := range blk.Instrs {
		if p, ok := i.(*ssa.Phi); ok {
			phis = append(phis, p)
		} else {
			break
		}
	}
	type inc struct {
		st  State
		env []Val
		phi []Val
		prd int
	}
	var ins []inc
	for _, p := range ps {
		x := inc{st: p.st, env: p.env, prd: p.pred}
		for _, ph := range phis {
			k := -1
			for i, pr := range blk.Preds {
				if pr.Index == p.pred {
					k = i
				}
			}
			x.phi = append(x.phi, f.val(p.env, ph.Edges[k]))
		}
		ins = append(ins, x)
	}
	body, isHeader := f.fi.loops[blk.Index]
	if isHeader && f.header == blk.Index && f.only != nil && ins[0].prd >= 0 && body[ins[0].prd] {
		// loop body run alone: collect
		for i, p := range ps {
			env := append([]Val(nil), p.env...)
			for j, ph := range phis {
				env[f.fi.idx[ph]] = ins[i].phi[j]
			}
			f.back = append(f.back, pending{p.st, env, p.pred})
		}
		return State{}, nil, false
	}
	acc := ins[0]
	acc.env = append([]Val(nil), acc.env...)
	for _, x := range ins[1:] {
		un := c.or(acc.st.pc, x.st.pc)
		g := c.constrain(acc.st.pc, c.and(un, in.care))
		if c.and(un, in.care) == bF {
			g = bT
		}
		live := f.fi.live[blk.Index]
		for i := range acc.env {
			if !live[i] {
				acc.env[i] = nil
			} else if acc.env[i] != nil || x.env[i] != nil {
				acc.env[i] = c.merge(g, acc.env[i], x.env[i])
			}
		}
		for i := range acc.phi {
			acc.phi[i] = c.merge(g, acc.phi[i], x.phi[i])
		}
		acc.st.heap = c.mergeHeap(g, acc.st.heap, x.st.heap)
		acc.st.pc = un
	}
	if isHeader {
		fromBack := false
		for _, x := range ins {
			if x.prd >= 0 && body[x.prd] {
				fromBack = true
			}
		}
		if !fromBack {
			f.entry[blk.Index] = &headerEntry{acc.st, acc.phi, len(in.meta)}
		} else if e := f.entry[blk.Index]; e != nil && !in.noRetry {
			// memoryless retry: nothing carried around the loop
			same := acc.st.pc != e.st.pc
			for i := range acc.phi {
				if !sameVal(acc.phi[i], e.phis[i]) && !in.deadPhi(phis[i]) {
					same = false
				}
			}
			if same {
				for _, id := range diffHeap(e.st.heap, acc.st.heap) {
					if id < e.mark && !f.rewritten(blk.Index, id) {
						same = false
					}
				}
			}
			if same {
				in.care = c.and(in.care, c.not(acc.st.pc))
				return State{}, nil, false
			}
		}
	}
	for i, ph := range phis {
		acc.env[f.fi.idx[ph]] = acc.phi[i]
	}
	if isHeader && f.rec[blk.Index] && f.only == nil {
		f.solveLoop(blk, acc.st, acc.env, phis)
		return State{}, nil, false
	}
	return acc.st, acc.env, true
}

// deadPhi: the value is not used before it is assigned again.
func (in *Interp) deadPhi(p *ssa.Phi) bool {
	refs := p.Referrers()
	return refs == nil || len(*refs) == 0
}

// rewritten: heap variables of the function itself (address-taken locals)
// which each iteration assigns first are not looked at further.
func (f *frame) rewritten(h, id int) bool { return false }

func (f *frame) push(to int, st State, env []Val, from int) {
	if f.in.c.and(st.pc, f.in.care) == bF {
		return
	}
	if f.only != nil && !f.only[to] {
		f.exits = append(f.exits, exitEdge{pending{st, env, from}, to})
		return
	}
	f.pend[to] = append(f.pend[to], pending{st, env, from})
}

func (f *frame) val(env []Val, v ssa.Value) Val {
	in := f.in
	switch x := v.(type) {
	case *ssa.Const:
		return in.constVal(x)
	case *ssa.Global:
		return in.globalPtr(x)
	case *ssa.Function:
		return leaf(FuncL{fn: x})
	case *ssa.Builtin:
		return nil
	}
	i, ok := f.fi.idx[v]
	if !ok {
		in.undec("value %s", v)
	}
	return env[i]
}

func (in *Interp) constVal(x *ssa.Const) Val {
	if x.Value == nil {
		return in.zero(x.Type())
	}
	switch x.Value.Kind() {
	case constant.Bool:
		if constant.BoolVal(x.Value) {
			return BoolV{bT}
		}
		return BoolV{bF}
	case constant.Int:
		if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			fl, _ := constant.Float64Val(x.Value)
			return leaf(FloatL{k: "c", f: fl})
		}
		i, _ := new(big.Int).SetString(x.Value.ExactString(), 10)
		return num(cst(i))
	case constant.String:
		return leaf(StrL{[]Piece{lit(constant.StringVal(x.Value))}}.norm())
	case constant.Float:
		fl, _ := constant.Float64Val(x.Value)
		if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			return numi(int64(fl))
		}
		return leaf(FloatL{k: "c", f: fl})
	}
	in.undec("constant %s", x)
	return nil
}

func (f *frame) exec(blk *ssa.BasicBlock, st State, env []Val) {
	in, c := f.in, f.in.c
	for _, ins := range blk.Instrs {
		in.steps++
		if in.steps > 40000000 {
			in.undec("too many steps")
		}
		if p := ins.Pos(); p.IsValid() {
			in.lastPos = p
		}
		switch x := ins.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.If:
			b, ok := f.val(env, x.Cond).(BoolV)
			if !ok {
				in.undec("branch on an unknown condition %s", valKeyShort(f.val(env, x.Cond)))
			}
			if h := f.fi.inLoop[blk.Index]; h >= 0 && b.b > bT && !f.rec[h] {
				for _, v := range c.support(b.b) {
					if v.negn != nil && c.hasBitLen(v.negn) || v.num != nil && c.hasBitLen(v.num) {
						// an induction variable runs over the bits of a number
						panic(needRec{f.fn, h})
					}
				}
			}
			t, e := st, st
			t.pc = c.and(st.pc, b.b)
			e.pc = c.and(st.pc, c.not(b.b))
			f.push(blk.Succs[0].Index, t, env, blk.Index)
			if c.and(t.pc, in.care) != bF {
				env = append([]Val(nil), env...)
			}
			f.push(blk.Succs[1].Index, e, env, blk.Index)
			return
		case *ssa.Jump:
			f.push(blk.Succs[0].Index, st, env, blk.Index)
			return
		case *ssa.Return:
			var v Val
			if len(x.Results) == 1 {
				v = f.val(env, x.Results[0])
			} else {
				a := &AggV{}
				for _, r := range x.Results {
					a.f = append(a.f, f.val(env, r))
				}
				v = a
			}
			if f.only != nil {
				// leaving the function from a summarised loop
				in.undec("return inside a loop over the bits of a number")
			}
			f.rets = append(f.rets, retv{st, v})
			return
		case *ssa.Panic:
			in.event("panic", st.pc, "explicit panic")
			return
		case *ssa.RunDefers:
			ds := f.defers
			for i := len(ds) - 1; i >= 0; i-- {
				if ds[i].pc == st.pc || c.imp(c.and(st.pc, in.care), ds[i].pc) {
					in.callValue(&st, ds[i].fnv, ds[i].args, ds[i].call.Common(), x.Pos())
					continue
				}
				a, b := st, st
				a.pc, b.pc = c.and(st.pc, ds[i].pc), c.and(st.pc, c.not(ds[i].pc))
				if c.and(a.pc, in.care) == bF {
					continue // deferred on another path
				}
				in.callValue(&a, ds[i].fnv, ds[i].args, ds[i].call.Common(), x.Pos())
				un := c.or(a.pc, b.pc)
				st.heap = c.mergeHeap(c.constrain(a.pc, c.and(un, in.care)), a.heap, b.heap)
				st.pc = un
			}
		case *ssa.Store:
			in.store(&st, f.val(env, x.Addr), f.val(env, x.Val))
		case *ssa.MapUpdate:
			in.mapUpdate(&st, f.val(env, x.Map), f.val(env, x.Key), f.val(env, x.Value))
		case *ssa.Defer:
			fv, args := f.callArgs(env, x.Common())
			f.defers = append(f.defers, deferred{x, fv, args, st.pc})
		case ssa.Value:
			v := f.eval(x, &st, env)
			env[f.fi.idx[x]] = v
			if c.and(st.pc, in.care) == bF {
				return
			}
		default:
			in.undec("instruction %T", ins)
		}
	}
}

func (f *frame) callArgs(env []Val, cc *ssa.CallCommon) (Val, []Val) {
	var args []Val
	fv := Val(nil)
	if cc.IsInvoke() {
		fv = f.val(env, cc.Value)
	} else if _, ok := cc.Value.(*ssa.Builtin); !ok {
		fv = f.val(env, cc.Value)
	}
	for _, a := range cc.Args {
		args = append(args, f.val(env, a))
	}
	return fv, args
}

func (in *Interp) callValue(st *State, fv Val, args []Val, cc *ssa.CallCommon, pos token.Pos) Val {
	if cc != nil && cc.IsInvoke() {
		return in.invoke(st, fv, cc.Method, args, pos)
	}
	if cc != nil {
		if b, ok := cc.Value.(*ssa.Builtin); ok {
			return in.builtin(st, b, args, cc, pos)
		}
		if fn := cc.StaticCallee(); fn != nil {
			var binds []Val
			if l, ok := one(fv); ok {
				if fl, ok := l.(FuncL); ok {
					binds = fl.binds
				}
			}
			return in.callFn(st, fn, args, binds, pos)
		}
	}
	g, ok := fv.(*GV)
	if !ok {
		in.undec("call of unknown function")
	}
	if len(g.alts) == 1 {
		fl, ok := g.alts[0].l.(FuncL)
		if !ok {
			in.undec("call of %s", g.alts[0].l.Key())
		}
		return in.callFn(st, fl.fn, args, fl.binds, pos)
	}
	// several targets
	var acc *retv
	for _, a := range g.alts {
		fl, ok := a.l.(FuncL)
		if !ok {
			in.panicIf(st, a.g, "call of nil function")
			continue
		}
		s := *st
		s.pc = in.c.and(st.pc, a.g)
		if s.pc == bF {
			continue
		}
		v := in.callFn(&s, fl.fn, args, fl.binds, pos)
		if acc == nil {
			acc = &retv{s, v}
		} else {
			acc.v = in.c.merge(a.g, v, acc.v)
			acc.st.heap = in.c.mergeHeap(a.g, s.heap, acc.st.heap)
			acc.st.pc = in.c.or(acc.st.pc, s.pc)
		}
	}
	if acc == nil {
		st.pc = bF
		return nil
	}
	*st = acc.st
	return acc.v
}

func (in *Interp) invoke(st *State, fv Val, m *types.Func, args []Val, pos token.Pos) Val {
	g, ok := fv.(*GV)
	if !ok {
		in.undec("invoke on %s", valKeyShort(fv))
	}
	for _, a := range g.alts {
		if _, ok := a.l.(NilL); ok {
			in.panicIf(st, a.g, "method call on nil interface")
		}
	}
	var acc *retv
	for _, a := range g.alts {
		if _, ok := a.l.(NilL); ok {
			continue
		}
		s := *st
		s.pc = in.c.and(st.pc, a.g)
		if s.pc == bF {
			continue
		}
		var v Val
		switch l := a.l.(type) {
		case ErrL:
			if m.Name() == "Error" {
				v = leaf(StrL{[]Piece{{k: "uf", key: "errtext", n: -1}}})
			} else {
				in.undec("method %s of an error", m.Name())
			}
		case IfaceL:
			if r, ok := in.modelInvoke(&s, l, m, args, pos); ok {
				v = r
				break
			}
			fn := in.w.prog.LookupMethod(l.typ, m.Pkg(), m.Name())
			if fn == nil {
				in.undec("method %s of %s", m.Name(), l.typ)
			}
			v = in.callFn(&s, fn, append([]Val{l.v}, args...), nil, pos)
		default:
			in.undec("invoke %s on %s", m.Name(), a.l.Key())
		}
		if acc == nil {
			acc = &retv{s, v}
		} else {
			acc.v = in.c.merge(a.g, v, acc.v)
			acc.st.heap = in.c.mergeHeap(a.g, s.heap, acc.st.heap)
			acc.st.pc = in.c.or(acc.st.pc, s.pc)
		}
	}
	if acc == nil {
		st.pc = bF
		return nil
	}
	*st = acc.st
	return acc.v
}

func (f *frame) eval(v ssa.Value, st *State, env []Val) Val {
	in, c := f.in, f.in.c
	get := func(x ssa.Value) Val { return f.val(env, x) }
	switch x := v.(type) {
	case *ssa.Alloc:
		t := x.Type().Underlying().(*types.Pointer).Elem()
		return in.newPtr(st, t, x.Comment, in.zero(t))
	case *ssa.Call:
		fv, args := f.callArgs(env, x.Common())
		return in.callValue(st, fv, args, x.Common(), x.Pos())
	case *ssa.BinOp:
		return in.binop(st, x.Op, get(x.X), get(x.Y), x.X.Type(), x.Type())
	case *ssa.UnOp:
		return in.unop(st, x, get(x.X))
	case *ssa.ChangeType:
		return get(x.X)
	case *ssa.ChangeInterface:
		return get(x.X)
	case *ssa.Convert:
		return in.convert(st, get(x.X), x.X.Type(), x.Type())
	case *ssa.MakeInterface:
		if l, ok := one(get(x.X)); ok {
			if e, ok := l.(ErrL); ok {
				return leaf(e)
			}
		}
		return leaf(IfaceL{x.X.Type(), get(x.X)})
	case *ssa.TypeAssert:
		return in.typeAssert(st, get(x.X), x)
	case *ssa.Extract:
		t, ok := get(x.Tuple).(*AggV)
		if !ok {
			in.undec("extract from %s", valKeyShort(get(x.Tuple)))
		}
		return t.f[x.Index]
	case *ssa.Field:
		a, ok := get(x.X).(*AggV)
		if !ok {
			return in.undecVal("field of %s", valKeyShort(get(x.X)))
		}
		return a.f[x.Field]
	case *ssa.FieldAddr:
		return in.fieldAddr(st, get(x.X), x.Field, "field "+fieldName(x))
	case *ssa.Index:
		return in.index(st, get(x.X), get(x.Index), x.X.Type())
	case *ssa.IndexAddr:
		return in.indexAddr(st, get(x.X), get(x.Index))
	case *ssa.Slice:
		var lo, hi, mx Val
		if x.Low != nil {
			lo = get(x.Low)
		}
		if x.High != nil {
			hi = get(x.High)
		}
		if x.Max != nil {
			mx = get(x.Max)
		}
		return in.slice(st, get(x.X), lo, hi, mx, x.X.Type())
	case *ssa.MakeSlice:
		return in.makeSlice(st, x.Type().Underlying().(*types.Slice).Elem(), get(x.Len), get(x.Cap))
	case *ssa.MakeMap:
		id := in.alloc(st, x.Type(), "map", &AggV{})
		return leaf(MapL{id})
	case *ssa.Lookup:
		return in.lookup(st, get(x.X), get(x.Index), x.CommaOk, x.X.Type())
	case *ssa.MakeClosure:
		var b []Val
		for _, y := range x.Bindings {
			b = append(b, get(y))
		}
		return leaf(FuncL{x.Fn.(*ssa.Function), b})
	case *ssa.Range:
		return get(x.X)
	case *ssa.Next:
		in.undec("iteration over a map or string")
	case *ssa.SliceToArrayPointer:
		in.undec("slice to array conversion")
	}
	_ = c
	in.undec("instruction %T %s", v, v)
	return nil
}

func fieldName(x *ssa.FieldAddr) string {
	st := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
	return st.Field(x.Field).Name()
}

func (in *Interp) undecVal(f string, a ...interface{}) Val {
	in.undec(f, a...)
	return nil
}

func (in *Interp) fieldAddr(st *State, v Val, fld int, what string) Val {
	var alts []Alt
	in.ptrs(st, v, what, func(g Bdd, p PtrL) {
		alts = append(alts, Alt{g, PtrL{p.obj, joinPath(p.path, fld)}})
	})
	if len(alts) == 0 {
		return leaf(TopL{"nil"})
	}
	return in.c.mkGV(alts)
}

func (in *Interp) intOf(v Val) (*Poly, bool) {
	l, ok := one(v)
	if !ok {
		return nil, false
	}
	n, ok := l.(NumL)
	if !ok {
		return nil, false
	}
	return n.p, true
}

func (in *Interp) constInt(v Val) (int64, bool) {
	p, ok := in.intOf(v)
	if !ok {
		return 0, false
	}
	k, ok := p.isConst()
	if !ok || !k.IsInt64() {
		return 0, false
	}
	return k.Int64(), true
}

func (in *Interp) indexAddr(st *State, v, iv Val) Val {
	g, ok := v.(*GV)
	if !ok {
		in.undec("index of %s", valKeyShort(v))
	}
	ig, ok := iv.(*GV)
	if !ok {
		in.undec("index")
	}
	var alts []Alt
	for _, a := range g.alts {
		for _, ia := range ig.alts {
			gg := in.c.and(a.g, ia.g)
			if in.c.and(gg, st.pc) == bF {
				continue
			}
			n, ok := ia.l.(NumL)
			if !ok {
				in.undec("index is %s", ia.l.Key())
			}
			kb, ok := n.p.isConst()
			if !ok {
				in.undec("index is not constant: %s", in.c.show(n.p))
			}
			k := int64(-1)
			if kb.IsInt64() {
				k = kb.Int64()
			}
			switch l := a.l.(type) {
			case SliceL:
				if k < 0 || k >= int64(l.len) {
					in.panicIf(st, gg, fmt.Sprintf("index %v out of range (length %d)", kb, l.len))
					continue
				}
				alts = append(alts, Alt{gg, PtrL{l.obj, joinPath(l.path, l.off+int(k))}})
			case PtrL: // pointer to array
				ar, ok := in.readPath(st.heap.get(l.obj), splitPath(l.path)).(*AggV)
				if !ok {
					in.undec("index of pointer")
				}
				if k < 0 || k >= int64(len(ar.f)) {
					in.panicIf(st, gg, "index out of range")
					continue
				}
				alts = append(alts, Alt{gg, PtrL{l.obj, joinPath(l.path, int(k))}})
			case NilL:
				in.panicIf(st, gg, "index out of range (nil slice)")
			case SeqL, BytesL:
				b := in.seqByte(a.l, int(k))
				id := in.alloc(st, types.Typ[types.Uint8], "byte", b)
				alts = append(alts, Alt{gg, PtrL{id, ""}})
			default:
				in.undec("index of %s", a.l.Key())
			}
		}
	}
	if len(alts) == 0 {
		st.pc = bF
		return leaf(TopL{"index"})
	}
	return in.c.mkGV(alts)
}

func (in *Interp) index(st *State, v, iv Val, t types.Type) Val {
	k, ok := in.constInt(iv)
	if !ok {
		in.undec("index is not constant")
	}
	if a, ok := v.(*AggV); ok {
		if k < 0 || k >= int64(len(a.f)) {
			in.panicIf(st, bT, "index out of range")
			return nil
		}
		return a.f[k]
	}
	if l, ok := one(v); ok {
		if s, ok := l.(StrL); ok {
			b, n, ok2 := s.bytes(in)
			if ok2 {
				if k < 0 || int(k) >= n {
					in.panicIf(st, bT, "index out of range")
					return nil
				}
				return num(b[k])
			}
		}
	}
	in.undec("index of %s", valKeyShort(v))
	return nil
}

func (in *Interp) makeSlice(st *State, et types.Type, l, cp Val) Val {
	n, ok := in.constInt(l)
	if !ok {
		if lp, ok2 := in.intOf(l); ok2 {
			in.undec("make with length %s", in.c.show(lp))
		}
		in.undec("make with unknown length %s", valKeyShort(l))
	}
	k, ok := in.constInt(cp)
	if !ok {
		k = n
	}
	if n < 0 || k < n {
		in.panicIf(st, bT, "make: length out of range")
		return nil
	}
	if k > 100000 {
		in.undec("make of %d elements", k)
	}
	a := &AggV{}
	for i := int64(0); i < k; i++ {
		a.f = append(a.f, in.zero(et))
	}
	id := in.alloc(st, types.NewArray(et, k), "slice", a)
	return leaf(SliceL{id, "", 0, int(n), int(k)})
}

func (in *Interp) slice(st *State, v, lo, hi, mx Val, t types.Type) Val {
	g, ok := v.(*GV)
	if !ok {
		in.undec("slice of %s", valKeyShort(v))
	}
	var alts []Alt
	for _, a := range g.alts {
		if in.c.and(a.g, st.pc) == bF {
			continue
		}
		if l, ok := lo.(*GV); ok && len(l.alts) > 1 {
			for _, b := range l.alts {
				if g := in.c.and(a.g, b.g); in.c.and(g, st.pc) != bF {
					alts = append(alts, in.slice1(st, Alt{g, a.l}, leaf(b.l), hi, mx)...)
				}
			}
			continue
		}
		alts = append(alts, in.slice1(st, a, lo, hi, mx)...)
	}
	if len(alts) == 0 {
		st.pc = bF
		return leaf(TopL{"slice"})
	}
	return in.c.mkGV(alts)
}

func (in *Interp) slice1(st *State, a Alt, lo, hi, mx Val) []Alt {
	var s SliceL
	switch l := a.l.(type) {
	case SliceL:
		s = l
	case PtrL:
		ar, ok := in.readPath(st.heap.get(l.obj), splitPath(l.path)).(*AggV)
		if !ok {
			in.undec("slice of pointer")
		}
		s = SliceL{l.obj, l.path, 0, len(ar.f), len(ar.f)}
	case NilL:
		s = SliceL{0, "", 0, 0, 0}
	case StrL:
		if lo == nil && hi == nil {
			return []Alt{a}
		}
		b, n, ok := l.bytes(in)
		if !ok {
			in.undec("slice of abstract string")
		}
		i, j := int64(0), int64(n)
		if lo != nil {
			if i, ok = in.constInt(lo); !ok {
				in.undec("slice bound")
			}
		}
		if hi != nil {
			if j, ok = in.constInt(hi); !ok {
				in.undec("slice bound")
			}
		}
		if i < 0 || j > int64(n) || i > j {
			in.panicIf(st, a.g, "slice bounds out of range")
			return nil
		}
		return []Alt{{a.g, in.strOfBytes(b[i:j])}}
	case SeqL, BytesL:
		z := lo == nil
		if !z {
			if k, ok := in.constInt(lo); ok && k == 0 {
				z = true
			}
		}
		if z && hi == nil {
			return []Alt{a}
		}
		in.undec("slice of an abstract byte string")
	default:
		in.undec("slice of %s", a.l.Key())
	}
	// bounds may be guarded constants
	i, j, k := 0, s.len, s.cap_
	cb := func(v Val) (int, bool) {
		n, ok := in.constInt(v)
		return int(n), ok
	}
	if hi != nil {
		x, ok := cb(hi)
		if !ok {
			in.undec("slice bound %s", valKeyShort(hi))
		}
		j = x
	}
	if mx != nil {
		x, ok := cb(mx)
		if !ok {
			in.undec("slice bound")
		}
		k = x
	}
	if lo != nil {
		x, ok := cb(lo)
		if !ok {
			if p, ok := in.intOf(lo); ok {
				l, h := in.c.interval(p)
				if l == nil || l.Sign() < 0 || h == nil || h.Cmp(bi(int64(j))) > 0 {
					in.undec("slice bound %s", in.c.show(p))
				}
				return []Alt{{a.g, SymSliceL{s.obj, s.path, add(p, csti(int64(s.off))), s.off + j}}}
			}
			in.undec("slice bound %s", valKeyShort(lo))
		}
		i = x
	}
	if i < 0 || i > j || j > k || k > s.cap_ {
		in.panicIf(st, a.g, fmt.Sprintf("slice bounds out of range [%d:%d:%d] of %d", i, j, k, s.cap_))
		return nil
	}
	if s.obj == 0 {
		return []Alt{{a.g, NilL{}}}
	}
	return []Alt{{a.g, SliceL{s.obj, s.path, s.off + i, j - i, k - i}}}
}

func (in *Interp) typeAssert(st *State, v Val, x *ssa.TypeAssert) Val {
	g, ok := v.(*GV)
	if !ok {
		in.undec("type assertion")
	}
	okB := bF
	var r Val
	for _, a := range g.alts {
		hit := false
		var y Val
		if _, null := a.l.(NilL); !null && types.IsInterface(x.AssertedType) && types.Implements(x.X.Type(), x.AssertedType.Underlying().(*types.Interface)) {
			okB = in.c.or(okB, a.g)
			if r == nil {
				r = leaf(a.l)
			} else {
				r = in.c.merge(a.g, leaf(a.l), r)
			}
			continue
		}
		switch l := a.l.(type) {
		case IfaceL:
			if types.IsInterface(x.AssertedType) {
				if types.Implements(l.typ, x.AssertedType.Underlying().(*types.Interface)) {
					hit, y = true, leaf(l)
				}
			} else if types.Identical(l.typ, x.AssertedType) {
				hit, y = true, l.v
			}
		case ErrL:
			if types.IsInterface(x.AssertedType) {
				hit, y = true, leaf(l)
			}
		}
		if hit {
			okB = in.c.or(okB, a.g)
			if r == nil {
				r = y
			} else {
				r = in.c.merge(a.g, y, r)
			}
		}
	}
	if r == nil {
		r = in.zero(x.AssertedType)
	}
	if x.CommaOk {
		return &AggV{[]Val{r, BoolV{okB}}}
	}
	in.panicIf(st, in.c.not(okB), "type assertion fails")
	return r
}

// ---------- maps ----------
// content of a map object: AggV of (key, present, value) triples with
// distinct constant keys; symbolic maps are ModelL (see models).

func (in *Interp) mapUpdate(st *State, m, k, v Val) {
	in.eachMap(st, m, func(g Bdd, id int) {
		if g != bT {
			in.undec("conditional map")
		}
		a, ok := st.heap.get(id).(*AggV)
		if !ok {
			in.undec("update of symbolic map")
		}
		n := &AggV{append([]Val(nil), a.f...)}
		for i, e := range n.f {
			t := e.(*AggV)
			if valKey(t.f[0]) == valKey(k) {
				n.f[i] = &AggV{[]Val{k, BoolV{bT}, v}}
				st.heap = st.heap.set(id, n)
				return
			}
			if !in.keysDiffer(t.f[0], k) {
				in.undec("map key may be equal to another one")
			}
		}
		n.f = append(n.f, &AggV{[]Val{k, BoolV{bT}, v}})
		st.heap = st.heap.set(id, n)
	})
}

func (in *Interp) keysDiffer(a, b Val) bool {
	e := in.equal(a, b)
	return e == bF
}

func (in *Interp) eachMap(st *State, m Val, f func(g Bdd, id int)) {
	g, ok := m.(*GV)
	if !ok {
		in.undec("map %s", valKeyShort(m))
	}
	for _, a := range g.alts {
		switch l := a.l.(type) {
		case MapL:
			f(a.g, l.obj)
		case NilL:
			in.panicIf(st, a.g, "assignment to entry in nil map")
		default:
			in.undec("map is %s", a.l.Key())
		}
	}
}

func (in *Interp) lookup(st *State, m, k Val, commaOk bool, t types.Type) Val {
	if _, ok := t.Underlying().(*types.Map); !ok {
		return in.index(st, m, k, t)
	}
	vt := t.Underlying().(*types.Map).Elem()
	g, ok := m.(*GV)
	if !ok {
		in.undec("lookup")
	}
	var rv Val
	rok := bF
	first := true
	for _, a := range g.alts {
		v, okB := in.zero(vt), bF
		switch l := a.l.(type) {
		case NilL:
		case MapL:
			switch content := st.heap.get(l.obj).(type) {
			case *AggV:
				if in.symMap != nil && len(content.f) > 1 {
					if sv, sb := in.symMap(st, content, k, v); sv != nil {
						v, okB = sv, sb
						break
					}
				}
				for _, e := range content.f {
					t := e.(*AggV)
					eq := in.equal(t.f[0], k)
					eq = in.c.and(eq, t.f[1].(BoolV).b)
					v = in.c.merge(eq, t.f[2], v)
					okB = in.c.or(okB, eq)
				}
			default:
				v, okB = in.symLookup(st, content, k, v)
			}
		default:
			in.undec("lookup in %s", a.l.Key())
		}
		if first {
			rv, rok, first = v, okB, false
		} else {
			rv = in.c.merge(a.g, v, rv)
			rok = in.c.ite(a.g, okB, rok)
		}
	}
	if commaOk {
		return &AggV{[]Val{rv, BoolV{rok}}}
	}
	return rv
}
