package main

// Package initialisation and globals.

import (
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

func (in *Interp) globalPtr(g *ssa.Global) Val {
	id, ok := in.globals[g]
	if !ok {
		in.undec("global %s", g)
	}
	return leaf(PtrL{id, ""})
}

// setup allocates the globals and interprets the initialisers of our packages.
func (in *Interp) setup(st *State, roots ...string) {
	st.pc = bT
	st.heap = st.heap.set(0, &AggV{})
	for _, p := range in.w.prog.AllPackages() {
		var ms []*ssa.Global
		for _, m := range p.Members {
			if g, ok := m.(*ssa.Global); ok {
				ms = append(ms, g)
			}
		}
		sort.Slice(ms, func(i, j int) bool { return ms[i].Name() < ms[j].Name() })
		ours := in.w.oursPath(p.Pkg.Path())
		for _, g := range ms {
			t := g.Type().Underlying().(*types.Pointer).Elem()
			name := p.Pkg.Path() + "." + g.Name()
			if ours {
				in.globals[g] = in.alloc(st, t, name, in.zero(t))
			} else if name == "crypto/rand.Reader" {
				in.globals[g] = in.alloc(st, t, name, leaf(ModelL{kind: "randReader"}))
			} else if p.Pkg.Path() == vendorSecp {
				in.globals[g] = in.alloc(st, t, name, in.zero(t))
			}
		}
	}
	done := map[*ssa.Package]bool{}
	var rec func(p *types.Package)
	rec = func(tp *types.Package) {
		p := in.w.prog.Package(tp)
		if p == nil || done[p] {
			return
		}
		done[p] = true
		imps := append([]*types.Package(nil), tp.Imports()...)
		sort.Slice(imps, func(i, j int) bool { return imps[i].Path() < imps[j].Path() })
		for _, i := range imps {
			rec(i)
		}
		if !in.w.oursPath(tp.Path()) {
			return
		}
		if f := p.Func("init"); f != nil {
			in.initPkg = tp
			in.callFn(st, f, nil, nil, f.Pos())
		}
	}
	var ps []*ssa.Package
	for _, p := range in.w.prog.AllPackages() {
		for _, r := range roots {
			if p.Pkg.Path() == modPath+"/"+r {
				ps = append(ps, p)
			}
		}
	}
	sort.Slice(ps, func(i, j int) bool { return ps[i].Pkg.Path() < ps[j].Pkg.Path() })
	for _, p := range ps {
		rec(p.Pkg)
	}
	in.initPkg = nil
	in.initMark = len(in.meta)
}

const vendorSecp = "github.com/ethereum/go-ethereum/crypto/secp256k1"

func (w *World) fn(pkg, name string) *ssa.Function {
	p := w.pkgs[modPath+"/"+pkg]
	if p == nil {
		return nil
	}
	return p.Func(name)
}

// method finds a method of a (pointer to a) named type of ours.
func (w *World) method(pkg, typ, name string) *ssa.Function {
	p := w.pkgs[modPath+"/"+pkg]
	if p == nil {
		return nil
	}
	t := p.Type(typ)
	if t == nil {
		return nil
	}
	for _, ty := range []types.Type{types.NewPointer(t.Type()), t.Type()} {
		ms := w.prog.MethodSets.MethodSet(ty)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == name {
				return w.prog.MethodValue(ms.At(i))
			}
		}
	}
	return nil
}

func (w *World) typ(pkg, name string) types.Type {
	p := w.pkgs[modPath+"/"+pkg]
	if p == nil {
		return nil
	}
	t := p.Type(name)
	if t == nil {
		return nil
	}
	return t.Type()
}

func (w *World) global(pkg, name string) *ssa.Global {
	p := w.pkgs[modPath+"/"+pkg]
	if p == nil {
		return nil
	}
	return p.Var(name)
}

func (in *Interp) symLookup(st *State, content Val, k Val, zero Val) (Val, Bdd) {
	in.undec("lookup in an abstract map")
	return zero, bF
}

func (in *Interp) gfP2T() types.Type { return types.NewPointer(in.w.typ(bnPkg, "gfP2")) }
