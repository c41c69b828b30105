package main

// C34: proofs survive JSON. The image of a proof under encoding/json
// (Marshal, then Unmarshal into a zero value) is computed on abstract values
// from the types: names, tags, embedding, exported fields, nil and empty
// values. Verification has to give the same verdict on the image.

import (
	"fmt"
	"go/types"
	"math/big"
	"reflect"
	"sort"
	"strings"
)

func init() { props["C34"] = runJSON }

type jsonField struct {
	name   string
	path   []int
	typ    types.Type
	tagged bool
	omit   bool
}

// jsonFields lists the fields that encoding/json uses, by its rules.
func jsonFields(t *types.Struct) []jsonField {
	type lvl struct {
		s    *types.Struct
		path []int
		ptr  bool
	}
	var all []jsonField
	cur := []lvl{{t, nil, false}}
	seen := map[*types.Struct]bool{}
	for len(cur) > 0 {
		var next []lvl
		for _, l := range cur {
			if seen[l.s] {
				continue
			}
			seen[l.s] = true
			for i := 0; i < l.s.NumFields(); i++ {
				f := l.s.Field(i)
				path := append(append([]int(nil), l.path...), i)
				tag := reflect.StructTag(l.s.Tag(i)).Get("json")
				if tag == "-" {
					continue
				}
				name, opts := tag, ""
				if k := strings.Index(tag, ","); k >= 0 {
					name, opts = tag[:k], tag[k+1:]
				}
				for _, r := range name {
					if !strings.ContainsRune("!#$%&()*+-./:;<=>?@[]^_{|}~ ", r) && !(r >= '0' && r <= '9' || r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r > 127) {
						name = ""
						break
					}
				}
				ft := f.Type()
				if f.Embedded() {
					u := ft
					if p, ok := u.Underlying().(*types.Pointer); ok {
						u = p.Elem()
					}
					s, isStruct := u.Underlying().(*types.Struct)
					if !f.Exported() && !isStruct {
						continue
					}
					if name == "" && isStruct {
						if _, p := ft.Underlying().(*types.Pointer); p {
							panic(undecided{"embedded pointer " + f.Name()})
						}
						next = append(next, lvl{s, path, false})
						continue
					}
				} else if !f.Exported() {
					continue
				}
				n := name
				if n == "" {
					n = f.Name()
				}
				all = append(all, jsonField{n, path, ft, name != "", strings.Contains(opts, "omit")})
			}
		}
		cur = next
	}
	// of several fields with one name the shallowest wins, then the tagged
	// one; if that leaves two, all are dropped
	by := map[string][]jsonField{}
	var names []string
	for _, f := range all {
		if by[f.name] == nil {
			names = append(names, f.name)
		}
		by[f.name] = append(by[f.name], f)
	}
	var out []jsonField
	for _, n := range names {
		fs := by[n]
		sort.SliceStable(fs, func(i, j int) bool {
			if len(fs[i].path) != len(fs[j].path) {
				return len(fs[i].path) < len(fs[j].path)
			}
			return fs[i].tagged && !fs[j].tagged
		})
		if len(fs) > 1 && len(fs[0].path) == len(fs[1].path) && fs[0].tagged == fs[1].tagged {
			continue
		}
		out = append(out, fs[0])
	}
	return out
}

// image is v after encoding and decoding. addr: the encoder can take the
// address of the value.
func (h *H) image(v Val, t types.Type, path string) Val {
	in := h.in
	isBig := func(t types.Type) bool {
		n, ok := t.(*types.Named)
		return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "math/big" && n.Obj().Name() == "Int"
	}
	for _, m := range []string{"MarshalJSON", "UnmarshalJSON", "MarshalText", "UnmarshalText"} {
		if _, ok := t.Underlying().(*types.Pointer); ok {
			break
		}
		if isBig(t) {
			break
		}
		if o, _, _ := types.LookupFieldOrMethod(t, true, nil, m); o != nil {
			panic(undecided{path + ": " + t.String() + " has its own " + m})
		}
	}
	h.r.noteType(t)
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if isBig(t) {
			// the methods of *big.Int are not used for a value
			panic(undecided{path + " is a big.Int value, which is encoded as {}"})
		}
		out := in.zero(t)
		for _, f := range jsonFields(u) {
			x := v
			for _, i := range f.path {
				x = x.(*AggV).f[i]
			}
			y := h.image(x, f.typ, path+"."+f.name)
			if f.omit {
				if s, ok := f.typ.Underlying().(*types.Slice); ok && len(in.elems(h.st, x)) == 0 {
					_ = s
					y = nilV()
				}
			}
			out = setAt(out, f.path, y)
		}
		return out
	case *types.Pointer:
		g := in.under(h.st, v).(*GV)
		var r Val
		for k := len(g.alts) - 1; k >= 0; k-- {
			a := g.alts[k]
			var w Val
			switch l := a.l.(type) {
			case NilL:
				w = nilV()
			case PtrL:
				c := in.loadP(h.st, l)
				if isBig(u.Elem()) {
					w = in.newPtr(h.st, u.Elem(), "decoded", c)
				} else {
					w = in.newPtr(h.st, u.Elem(), "decoded", h.image(c, u.Elem(), path))
				}
			default:
				panic(undecided{path + " holds " + l.Key()})
			}
			if r == nil {
				r = w
			} else {
				r = h.c.merge(a.g, w, r)
			}
		}
		return r
	case *types.Slice:
		l, ok := one(in.under(h.st, v))
		if !ok {
			panic(undecided{path + " depends on conditions"})
		}
		if _, isNil := l.(NilL); isNil {
			return nilV()
		}
		var vs []Val
		for i, x := range in.elems(h.st, v) {
			vs = append(vs, h.image(x, u.Elem(), fmt.Sprintf("%s[%d]", path, i)))
		}
		return h.mkSlice("decoded", vs)
	case *types.Array:
		var fs []Val
		for i, x := range v.(*AggV).f {
			fs = append(fs, h.image(x, u.Elem(), fmt.Sprintf("%s[%d]", path, i)))
		}
		return &AggV{fs}
	case *types.Basic:
		if u.Info()&(types.IsInteger|types.IsBoolean|types.IsFloat) != 0 {
			return v
		}
		if u.Info()&types.IsString != 0 {
			l, ok := one(in.under(h.st, v))
			if s, ok2 := l.(StrL); ok && ok2 {
				for _, p := range normPieces(s.ps) {
					if p.k != "dec" && !(p.k == "lit" && ascii(p.lit)) {
						panic(undecided{path + " is a string that need not be valid text"})
					}
				}
				return v
			}
		}
	}
	panic(undecided{path + " has type " + t.String() + ", which the decoder does not restore"})
}

func ascii(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= 128 {
			return false
		}
	}
	return true
}

func setAt(v Val, path []int, x Val) Val {
	if len(path) == 0 {
		return x
	}
	a := v.(*AggV)
	n := &AggV{append([]Val(nil), a.f...)}
	n.f[path[0]] = setAt(n.f[path[0]], path[1:], x)
	return n
}

func (r *Run) noteType(t types.Type) {
	n, ok := t.(*types.Named)
	if !ok {
		return
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	m, _ := r.facts["types"].(map[string]int)
	if m == nil {
		m = map[string]int{}
		r.facts["types"] = m
	}
	m[n.Obj().Pkg().Name()+"."+n.Obj().Name()]++
}

// same verdict and error on a proof and on its image.
func (h *H) sameVerdict(typ, what string, v Val) Bdd {
	verify := h.method(bpPkg, typ, "Verify")
	im := h.image(v, h.typ(bpPkg, typ), typ)
	st0 := *h.st
	run := func(x Val) (Bdd, Bdd) {
		*h.st = st0
		t := h.call(verify, h.box(bpPkg, typ, x)).(*AggV)
		return h.c.and(h.boolB(t.f[0]), h.st.pc), h.c.and(h.errB(t.f[1]), h.st.pc)
	}
	a, ea := run(v)
	b, eb := run(im)
	d := h.c.and(h.c.xor(a, b), h.in.care)
	h.check(d == bF, shortFn(verify), "%s: the decoded proof is verified with another result%s", what, cut(when(h.c, d), 300))
	d = h.c.and(h.c.xor(ea, eb), h.in.care)
	h.check(d == bF, shortFn(verify), "%s: the decoded proof gives another error%s", what, cut(when(h.c, d), 300))
	return b
}

func runJSON(r *Run) {
	r.facts["level"] = "other"
	r.facts["explanation"] = "The effect of encoding/json on a proof is computed from the types of the source (exported fields, tags, embedding, name clashes, nil and empty values, own marshalers) and applied to abstract proofs; Verify is interpreted on the proof and on the result. Honest proofs for N=1 to 8 (generic: both halves), arbitrary proofs for N=1 to 32, and malformed ones."
	r.rule("the decoded image of an honest proof is accepted; on arbitrary and malformed proofs Verify gives the same verdict and error for the proof and for its decoded image, on every path")
	r.trusted = append(r.trusted, "encoding/json: numbers of math/big and integers are restored exactly")
	for _, n := range []int{1, 2, 4, 8} {
		n := n
		r.sub(fmt.Sprintf("honest N=%d", n), func(h *H) {
			h.bp()
			h.in.noIdent, h.in.noNil = true, true
			p := h.honest(n)
			b := h.sameVerdict("BulletProof", "an honest proof", p)
			h.check(h.live(h.c.not(b)) == bF, "bulletproofs.BulletProof", "the decoded proof is not accepted")
		})
	}
	for _, nn := range [][2]int{{1, 1}, {4, 2}, {2, 8}} {
		nn := nn
		r.sub(fmt.Sprintf("honest generic N=%d,%d", nn[0], nn[1]), func(h *H) {
			h.bp()
			h.in.noIdent, h.in.noNil = true, true
			v := h.in.zero(h.typ(bpPkg, "ProofBPRP"))
			v = h.setF(bpPkg, "ProofBPRP", v, "P1", h.honest(nn[0]))
			v = h.setF(bpPkg, "ProofBPRP", v, "P2", h.honest(nn[1]))
			b := h.sameVerdict("ProofBPRP", "an honest proof", v)
			h.check(h.live(h.c.not(b)) == bF, "bulletproofs.ProofBPRP", "the decoded proof is not accepted")
		})
	}
	r.sub("ProveGeneric", func(h *H) {
		h.bp()
		h.in.noIdent, h.in.noNil = true, true
		prove := h.fn(bpPkg, "ProveGeneric")
		lim := new(big.Int).Lsh(b1, 62)
		p := h.bprpOf(h.c.sym("A", b0, lim), h.c.sym("B", b0, lim), 2)
		t := h.call(prove, h.bigV(h.c.sym("x", nil, nil)), p).(*AggV)
		h.sameVerdict("ProofBPRP", "a proof for any secret", t.f[0])
	})
	for _, n := range bpSizes {
		n := n
		for _, o := range []string{"unrelated", "missing"} {
			o := o
			r.sub(fmt.Sprintf("any N=%d, %s generators", n, o), func(h *H) {
				h.bp()
				h.in.noNil = true
				f := h.bpAny(n)
				f.other = o
				h.sameVerdict("BulletProof", "an arbitrary proof", f.val(h))
				if n > 4 {
					return
				}
				for _, k := range bpPoints {
					f := h.bpAny(n)
					f.ptv[k] = h.in.p256New(h.st, zeroElem(f.pt[k].g))
					h.sameVerdict("BulletProof", "identity as "+k, f.val(h))
					f = h.bpAny(n)
					f.ptv[k] = nilV()
					h.sameVerdict("BulletProof", "no "+k, f.val(h))
				}
				for _, k := range []string{"Taux", "Mu", "Tprime", "A", "B"} {
					f := h.bpAny(n)
					f.num[k] = nilV()
					h.sameVerdict("BulletProof", "no "+k, f.val(h))
				}
			})
		}
		r.sub(fmt.Sprintf("any generic N=%d", n), func(h *H) {
			h.bp()
			h.in.noNil = true
			v := h.in.zero(h.typ(bpPkg, "ProofBPRP"))
			v = h.setF(bpPkg, "ProofBPRP", v, "P1", h.bpAnyP("1.", n).val(h))
			v = h.setF(bpPkg, "ProofBPRP", v, "P2", h.bpAnyP("2.", n).val(h))
			h.sameVerdict("ProofBPRP", "an arbitrary proof", v)
		})
	}
}
