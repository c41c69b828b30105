package main

// C28: functions leave their arguments, the parameters and the package
// variables as they were.

import (
	"fmt"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { props["C28"] = runPure }

// notePure records that the effects of fn were looked at.
func (r *Run) notePure(fn *ssa.Function) {
	if r.aspect != "pure" {
		return
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	m, _ := r.facts["calls_compared"].(map[string]int)
	if m == nil {
		m = map[string]int{}
		r.facts["calls_compared"] = m
	}
	m[shortFn(fn)]++
}

func runPure(r *Run) {
	r.aspect = "pure"
	keep := map[string]func(string) bool{
		"C01": func(s string) bool { return s != "N=16" && s != "N=32" },
		"C05": func(s string) bool { return !strings.HasPrefix(s, "complete") },
	}
	ids := []string{"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C15", "C16", "C17", "C18", "C23", "C24", "C26", "C29", "C30", "C31", "C32", "C33", "C38", "C39"}
	for _, id := range ids {
		if r.only != "" && !strings.HasPrefix(r.only, id) && strings.HasPrefix(r.only, "C") {
			continue
		}
		r.keep, r.prefix = keep[id], id+" "
		props[id](r)
	}
	r.keep, r.prefix = nil, ""
	r.mu.Lock()
	n := r.facts["calls_compared"]
	r.facts = map[string]interface{}{"level": "other", "calls_compared": n,
		"explanation": "Effect analysis by abstract interpretation: the abstract heap (arguments, objects reachable from them, package variables of all packages) before and after each call is compared. Calls: those that the analyses of " + strings.Join(ids, ", ") + " make (symbolic arguments, all sizes listed there; of C01 only N<=8), plus calls with unbounded symbolic secrets."}
	r.mu.Unlock()
	r.rules = []string{"after the call every object that existed before has the same abstract value as before, on every path; exempt are the receivers that a method exists to fill (ccs08.Setup/Prove)"}
	r.sub("any secret N=1", func(h *H) { h.pureProve(1) })
	r.sub("any secret N=2", func(h *H) { h.pureProve(2) })
	r.sub("any secret N=4", func(h *H) { h.pureProve(4) })
	r.sub("Hash", func(h *H) {
		h.ccs()
		for n := 0; n <= 4; n++ {
			var as, ds, rest []Val
			for i := 0; i < n; i++ {
				_, a := h.bnBase("GT", fmt.Sprintf("a%d.%d", n, i))
				_, d := h.bnBase("G2", fmt.Sprintf("D%d.%d", n, i))
				as, ds = append(as, a), append(ds, d)
			}
			rest = append(rest, ds...)
			h.pure(h.fn(utilPkg, "Hash"), h.mkSlice("a", as), h.mkSlice("D", rest))
			if n > 0 {
				h.pure(h.fn(utilPkg, "HashSet"), as[0], h.mkSlice("D", ds))
			}
		}
	})
	r.sub("FlipBytes", func(h *H) {
		h.init(bcPkg)
		for n := 0; n <= 40; n++ {
			var bs []Val
			for i := 0; i < n; i++ {
				bs = append(bs, num(h.c.sym(fmt.Sprintf("b%d.%d", n, i), b0, bi(255))))
			}
			h.pure(h.fn(bcPkg, "FlipBytes"), h.mkSlice("bytes", bs))
			h.pure(h.fn(bcPkg, "ConvertToBigInt"), h.mkSlice("bytes", bs))
		}
	})
}

// pureProve: the prover on an arbitrary integer.
func (h *H) pureProve(n int) {
	h.bp()
	h.in.noIdent, h.in.noNil = true, true
	setup, prove, verify := h.fn(bpPkg, "Setup"), h.fn(bpPkg, "Prove"), h.method(bpPkg, "BulletProof", "Verify")
	t := h.pure(setup, num(cst(new(big.Int).Lsh(b1, uint(n))))).(*AggV)
	p := t.f[0]
	x := h.bigV(h.c.sym("secret", nil, nil))
	for i := 0; i < 2; i++ {
		t = h.pure(prove, x, p).(*AggV)
		h.pure(verify, h.box(bpPkg, "BulletProof", t.f[0]))
	}
}
