package main

// C35: failures are reported.

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { props["C35"] = runFail }

// reported calls fn and checks that a failure of any call below it is
// reported by fn: as an error, or as the verdict false.
func (h *H) reported(fn *ssa.Function, args ...Val) Val {
	var log []failure
	h.in.failLog = &log
	v := h.call(fn, args...)
	h.in.failLog = nil
	rs := fn.Signature.Results()
	if n := rs.Len(); n == 0 || rs.At(n-1).Type().String() != "error" {
		return v
	}
	h.aspect = "fail"
	defer func() { h.aspect = "" }()
	good := h.c.not(h.in.failed(h.st, fn, v))
	seen := map[string]bool{}
	for _, f := range log {
		if f.fn == fn {
			continue
		}
		bad := h.live(h.c.and(f.g, good))
		k := shortFn(f.fn) + h.in.w.pos(f.pos)
		if bad != bF && seen[k] {
			continue
		}
		seen[k] = true
		h.check(bad == bF, h.in.w.pos(f.pos), "%s succeeds although %s fails%s", shortFn(fn), shortFn(f.fn), cut(when(h.c, bad), 300))
	}
	h.r.noteFail(fn, len(log))
	return v
}

func (r *Run) noteFail(fn *ssa.Function, n int) {
	r.mu.Lock()
	defer r.mu.Unlock()
	m, _ := r.facts["failures_traced"].(map[string]int)
	if m == nil {
		m = map[string]int{}
		r.facts["failures_traced"] = m
	}
	m[shortFn(fn)] += n
}

func runFail(r *Run) {
	r.aspect = "fail"
	keep := map[string]func(string) bool{
		"C01": func(s string) bool { return s != "N=16" && s != "N=32" },
		"C05": func(s string) bool { return !strings.HasPrefix(s, "complete") },
	}
	ids := []string{"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C15", "C16", "C29", "C30", "C31", "C32", "C33"}
	for _, id := range ids {
		r.keep, r.prefix = keep[id], id+" "
		props[id](r)
	}
	r.keep, r.prefix = nil, ""
	r.mu.Lock()
	n := r.facts["failures_traced"]
	r.facts = map[string]interface{}{"level": "other", "failures_traced": n,
		"explanation": "Error flow analysis by abstract interpretation. (1) In the calls that the analyses of " + strings.Join(ids, ", ") + " make, every call below the entry point that can report an error, or the verdict false, under the symbolic inputs is traced to the result of the entry point. (2) Faults: each draw and each of the named steps is made to fail, one call at a time."}
	r.mu.Unlock()
	r.rules = []string{
		"if any call below an entry point returns an error or the verdict false, the entry point returns an error or false: the condition of the failure and that of success exclude each other",
		"if a draw fails during setup or key generation, or one of the steps " + strings.Join(stepNames(), ", ") + " is made to fail, the entry point returns an error or false, or does not return",
	}
	r.faults()
}

type step struct{ pkg, typ, name string }

var steps = []step{
	{bbPkg, "", "Keygen"}, {bbPkg, "", "Sign"},
	{bpPkg, "", "Setup"}, {bpPkg, "", "Prove"}, {bpPkg, "", "setupInnerProduct"},
	{bpPkg, "BulletProof", "Verify"}, {bpPkg, "InnerProductProof", "Verify"},
	{ccsPkg, "", "SetupUL"}, {ccsPkg, "", "ProveUL"}, {ccsPkg, "", "VerifyUL"},
}

func stepNames() (r []string) {
	for _, s := range steps {
		if s.typ != "" {
			r = append(r, s.typ+"."+s.name)
		} else {
			r = append(r, s.name)
		}
	}
	return
}

// isStep: fn is the step, as function, method or wrapper of the method.
func isStep(fn *ssa.Function, s step) bool {
	if fn.Name() != s.name || fn.Synthetic != "" {
		return false
	}
	p := fn.Package()
	if p == nil || p.Pkg.Path() != modPath+"/"+s.pkg {
		return false
	}
	recv := fn.Signature.Recv()
	if s.typ == "" {
		return recv == nil
	}
	return recv != nil && strings.HasSuffix(recv.Type().String(), "."+s.typ)
}

// faults makes steps fail, one call after the other.
func (r *Run) faults() {
	type entry struct {
		name string
		// call runs the entry point once and returns it with its results.
		call func(h *H) (*ssa.Function, Val)
	}
	es := []entry{
		{"Keygen", func(h *H) (*ssa.Function, Val) {
			fn := h.fn(bbPkg, "Keygen")
			return fn, h.call(fn)
		}},
		{"SetupSet", func(h *H) (*ssa.Function, Val) {
			fn := h.fn(ccsPkg, "SetupSet")
			return fn, h.call(fn, h.ints(csti(3), csti(5), csti(9)))
		}},
		{"SetupUL", func(h *H) (*ssa.Function, Val) {
			fn := h.fn(ccsPkg, "SetupUL")
			return fn, h.call(fn, numi(3), numi(2))
		}},
		{"ccs08.Setup", func(h *H) (*ssa.Function, Val) {
			fn := h.method(ccsPkg, "ccs08", "Setup")
			return fn, h.call(fn, h.object(ccsPkg, "ccs08", "zkrp", nil), numi(10), numi(100))
		}},
		{"Setup", func(h *H) (*ssa.Function, Val) {
			fn := h.fn(bpPkg, "Setup")
			return fn, h.call(fn, numi(4))
		}},
		{"SetupGeneric", func(h *H) (*ssa.Function, Val) {
			fn := h.fn(bpPkg, "SetupGeneric")
			return fn, h.call(fn, numi(18), numi(200))
		}},
		{"Prove", func(h *H) (*ssa.Function, Val) {
			fn := h.fn(bpPkg, "Prove")
			p := h.clean(func() Val { return h.call(h.fn(bpPkg, "Setup"), numi(4)).(*AggV).f[0] })
			return fn, h.call(fn, h.bigV(h.c.sym("x", b0, bi(3))), p)
		}},
		{"ProveGeneric", func(h *H) (*ssa.Function, Val) {
			fn := h.fn(bpPkg, "ProveGeneric")
			lim := pow64(2, 62)
			p := h.clean(func() Val { return h.bprpOf(h.c.sym("A", b0, lim), h.c.sym("B", b0, lim), 1) })
			return fn, h.call(fn, h.bigV(h.c.sym("x", nil, nil)), p)
		}},
		{"ProveSet", func(h *H) (*ssa.Function, Val) {
			fn := h.fn(ccsPkg, "ProveSet")
			p := h.clean(func() Val { return h.setup(h.fn(ccsPkg, "SetupSet"), nil, h.ints(csti(3), csti(5))) })
			return fn, h.call(fn, numi(5), h.bigV(h.c.sym("r", nil, nil)), p)
		}},
		{"ProveUL", func(h *H) (*ssa.Function, Val) {
			fn := h.fn(ccsPkg, "ProveUL")
			h.symDigits(57)
			p := h.clean(func() Val { return h.setup(h.fn(ccsPkg, "SetupUL"), h.signable(digitsOf(57)), numi(57), numi(2)) })
			return fn, h.call(fn, h.bigV(h.c.sym("x", b0, bi(57*57-1))), h.bigV(h.c.sym("r", nil, nil)), p)
		}},
		{"ccs08.Prove", func(h *H) (*ssa.Function, Val) {
			fn := h.method(ccsPkg, "ccs08", "Prove")
			return fn, h.call(fn, h.rangeState(false))
		}},
		{"ccs08.Verify", func(h *H) (*ssa.Function, Val) {
			fn := h.method(ccsPkg, "ccs08", "Verify")
			return fn, h.call(fn, h.rangeState(true))
		}},
		{"BulletProof.Verify", func(h *H) (*ssa.Function, Val) {
			fn := h.method(bpPkg, "BulletProof", "Verify")
			return fn, h.call(fn, h.clean(func() Val { return h.box(bpPkg, "BulletProof", h.honest(2)) }))
		}},
		{"ProofBPRP.Verify", func(h *H) (*ssa.Function, Val) {
			fn := h.method(bpPkg, "ProofBPRP", "Verify")
			return fn, h.call(fn, h.clean(func() Val {
				v := h.in.zero(h.typ(bpPkg, "ProofBPRP"))
				v = h.setF(bpPkg, "ProofBPRP", v, "P1", h.honest(1))
				v = h.setF(bpPkg, "ProofBPRP", v, "P2", h.honest(2))
				return h.box(bpPkg, "ProofBPRP", v)
			}))
		}},
	}
	for _, g := range []string{"G1", "G2"} {
		fn := r.w.fn(bnPkg, "Random"+g)
		if fn == nil {
			continue
		}
		es = append(es, entry{fn.Name(), func(h *H) (*ssa.Function, Val) {
			return fn, h.call(fn, leaf(ModelL{kind: "given reader"}))
		}})
	}
	for _, e := range es {
		e := e
		prep := func(h *H) {
			h.fresh()
			if strings.HasPrefix(e.name, "ccs08") || strings.HasSuffix(e.name, "Set") || strings.HasSuffix(e.name, "UL") || e.name == "Keygen" || strings.HasPrefix(e.name, "Random") {
				h.ccs()
			} else {
				h.bp()
				h.in.noIdent, h.in.noNil = true, true
			}
		}
		judge := func(h *H, what string, fn *ssa.Function, v Val) {
			h.aspect = "fail"
			bad := h.live(h.c.not(h.in.failed(h.st, fn, v)))
			h.check(bad == bF, shortFn(fn), "%s succeeds although %s%s", shortFn(fn), what, cut(when(h.c, bad), 300))
			h.aspect = ""
		}
		// a prover that cannot draw does not return (it uses the missing number)
		if strings.HasPrefix(e.name, "Prove") || e.name == "ccs08.Prove" {
			goto next
		}
		r.sub("draws of "+e.name, func(h *H) {
			for k := 1; k <= 40; k++ {
				prep(h)
				n, hit := 0, false
				h.in.randCase = func(int) string {
					if h.cleanRun {
						return ""
					}
					n++
					if n == k {
						hit = true
						return "fail"
					}
					if n < k && strings.HasPrefix(e.name, "Random") {
						return "zero"
					}
					return ""
				}
				fn, v := e.call(h)
				if !hit {
					return
				}
				judge(h, fmt.Sprintf("random number %d cannot be drawn", k), fn, v)
			}
		})
	next:
		if strings.HasPrefix(e.name, "Random") {
			continue // no steps
		}
		for si, s := range steps {
			s := s
			r.sub(stepNames()[si]+" in "+e.name, func(h *H) {
				for _, verdict := range []bool{false, true} {
					for k := 1; k <= 12; k++ {
						prep(h)
						n, hit, depth := 0, false, 0
						h.in.inject = func(st *State, fn *ssa.Function) (Val, bool) {
							if h.cleanRun || !isStep(fn, s) || len(h.in.stack) == depth {
								return nil, false
							}
							n++
							if n != k {
								return nil, false
							}
							rs := fn.Signature.Results()
							if rs.Len() == 0 || rs.At(rs.Len()-1).Type().String() != "error" {
								return nil, false
							}
							hit = true
							var fs []Val
							isB := false
							for i := 0; i < rs.Len()-1; i++ {
								z := h.in.zero(rs.At(i).Type())
								_, b := z.(BoolV)
								isB = isB || b
								fs = append(fs, z)
							}
							if verdict && isB {
								fs = append(fs, nilV())
							} else {
								fs = append(fs, h.in.errVal("injected"))
							}
							if len(fs) == 1 {
								return fs[0], true
							}
							return &AggV{fs}, true
						}
						fn, v := e.call(h)
						if !hit {
							break
						}
						judge(h, fmt.Sprintf("%s fails (call %d)", s.name, k), fn, v)
					}
				}
			})
		}
	}
}

// clean runs f without faults.
func (h *H) clean(f func() Val) Val {
	h.cleanRun = true
	defer func() { h.cleanRun = false }()
	return f()
}

// honest is an honest range proof.
func (h *H) honest(n int) Val {
	t := h.call(h.fn(bpPkg, "Setup"), num(cst(pow64(2, n)))).(*AggV)
	h.nHonest++
	x := h.c.sym(fmt.Sprintf("secret%d", h.nHonest), b0, subB(pow64(2, n), 1))
	return h.call(h.fn(bpPkg, "Prove"), h.bigV(x), t.f[0]).(*AggV).f[0]
}

// rangeState is the object of an interval proof before or after proving.
func (h *H) rangeState(proved bool) Val {
	return h.clean(func() Val {
		const u, l = 57, 2
		h.symDigits(u)
		p := h.setup(h.fn(ccsPkg, "SetupUL"), h.signable(digitsOf(u)), numi(u), numi(l))
		x := h.c.sym("x", bi(100), bi(1000))
		pp := h.object(ccsPkg, "params", "params", map[string]Val{"a": numi(100), "b": numi(1001), "p": h.in.newPtr(h.st, h.typ(ccsPkg, "paramsUL"), "ul", p)})
		z := h.object(ccsPkg, "ccs08", "zkrp", map[string]Val{"p": pp, "x": h.bigV(x), "r": h.bigV(h.c.sym("r", nil, nil))})
		if proved {
			e := h.call(h.method(ccsPkg, "ccs08", "Prove"), z)
			h.assume(h.c.not(h.errB(e)))
			h.narrowAll(z)
		}
		return z
	})
}
