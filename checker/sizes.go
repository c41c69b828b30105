package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// constSizes extends the sizes in base by those next to an integer constant in
// the bodies of the functions and of what they call in the same packages: a
// size at which the code could start to behave differently is named by a
// constant in a comparison, a mask, a division or a shift. scale gives the
// sizes a constant stands for (bits and bytes, say). Constants above max are
// left out; the number of added constants is bounded.
func (w *World) constSizes(base []int, max int, scale []int, fns ...*ssa.Function) []int {
	have := map[int]bool{}
	for _, n := range base {
		have[n] = true
	}
	pk := map[*types.Package]bool{}
	seen := map[*ssa.Function]bool{}
	consts := map[int]bool{}
	note := func(v ssa.Value) {
		k, ok := v.(*ssa.Const)
		if !ok || k.Value == nil || k.Value.Kind() != constant.Int {
			return
		}
		n, ok := constant.Int64Val(k.Value)
		if !ok || n <= 0 || n > int64(max)*64 {
			return
		}
		for _, s := range scale {
			if int(n)/s <= max {
				consts[int(n)/s] = true
			}
		}
	}
	var walk func(fn *ssa.Function)
	walk = func(fn *ssa.Function) {
		if fn == nil || seen[fn] || fn.Pkg == nil || !pk[fn.Pkg.Pkg] {
			return
		}
		seen[fn] = true
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				switch x := i.(type) {
				case *ssa.BinOp:
					switch x.Op {
					case token.ADD, token.SUB, token.MUL:
					default:
						note(x.X)
						note(x.Y)
					}
				case ssa.CallInstruction:
					if f := x.Common().StaticCallee(); f != nil {
						walk(f)
						for _, a := range x.Common().Args {
							note(a)
						}
					}
				case *ssa.MakeClosure:
					if f, ok := x.Fn.(*ssa.Function); ok {
						walk(f)
					}
				}
			}
		}
		for _, f := range fn.AnonFuncs {
			walk(f)
		}
	}
	for _, f := range fns {
		if f != nil && f.Pkg != nil {
			pk[f.Pkg.Pkg] = true
		}
	}
	for _, f := range fns {
		walk(f)
	}
	var add []int
	for n := range consts {
		add = append(add, n)
	}
	sort.Ints(add)
	out := append([]int{}, base...)
	left := 8
	for _, n := range add {
		if have[n-1] && have[n] && have[n+1] || left == 0 {
			continue
		}
		left--
		for d := -1; d <= 1; d++ {
			if n+d >= 0 && n+d <= max && !have[n+d] {
				have[n+d] = true
				out = append(out, n+d)
			}
		}
	}
	return out
}
