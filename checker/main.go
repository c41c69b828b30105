package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Violation is one construct of the source that breaks a rule.
type Violation struct {
	Where string `json:"where"`
	What  string `json:"what"`
	Kind  string `json:"kind"` // definite, undecided
	Key   string `json:"key"`
}

// Run collects the obligations of one property.
type Run struct {
	prop    string
	tier    string
	w       *World
	mu      sync.Mutex
	obl     int
	done    int
	viol    []Violation
	fns     map[string]bool
	rules   []string
	samples []string
	facts   map[string]interface{}
	wg      sync.WaitGroup
	sem     chan struct{}
	subs    []*H
	verbose bool
	only    string
	prefix  string
	trusted []string
	aspect  string // if set, only the obligations of this aspect count
	keep    func(name string) bool
}

type propFn func(r *Run)

type propInfo struct {
	run       propFn
	technique string
}

var props = map[string]propFn{}

// H is one sub-analysis: an interpreter with its own symbols.
type H struct {
	r        *Run
	in       *Interp
	c        *Ctx
	st       *State
	name     string
	obl      int
	ok       int
	viol     []Violation
	steps    int
	depOf    string
	samples  []string
	aspect   string
	cleanRun bool
	nHonest  int
	dur      time.Duration
	fnset    map[*ssa.Function]bool
}

func (r *Run) rule(s string) { r.rules = append(r.rules, s) }

// sub runs f in its own goroutine with a fresh interpreter.
func (r *Run) sub(name string, f func(h *H)) {
	if r.only != "" && !strings.Contains(name, r.only) {
		return
	}
	if r.keep != nil && !r.keep(name) {
		return
	}
	h := &H{r: r, name: r.prefix + name, fnset: map[*ssa.Function]bool{}}
	r.subs = append(r.subs, h)
	r.wg.Add(1)
	go func() {
		defer r.wg.Done()
		r.sem <- struct{}{}
		t0 := time.Now()
		defer func() {
			h.dur = time.Since(t0)
			if h.in != nil {
				h.steps = h.in.steps
				for f := range h.in.funcs {
					h.fnset[f] = true
				}
			}
			h.in, h.c, h.st = nil, nil, nil
			<-r.sem
		}()
		h.guard("", func() {
			h.fresh()
			f(h)
		})
	}()
}

func (h *H) fresh() {
	if h.in != nil {
		for f := range h.in.funcs {
			h.fnset[f] = true
		}
	}
	h.in = newInterp(h.r.w)
	h.c = h.in.c
	h.st = &State{pc: bT}
}

// init allocates globals and interprets the initialisers of the packages and
// of what they import.
func (h *H) init(pkgs ...string) {
	h.in.setup(h.st, pkgs...)
	h.in.events = nil
}

// guard runs f and turns "undecided" into a violation.
func (h *H) guard(what string, f func()) {
	defer func() {
		if e := recover(); e != nil {
			if u, ok := e.(undecided); ok {
				h.fail("undecided", h.where(), "%s%s: cannot be decided: %s", h.pre(), what, u.why)
				if h.in != nil {
					h.in.stack = nil
				}
				return
			}
			if nr, ok := e.(needRec); ok {
				h.fail("undecided", shortFn(nr.fn), "%s%s: loop cannot be summarised", h.pre(), what)
				return
			}
			msg := fmt.Sprint(e)
			if h.r.verbose {
				msg += "\n" + string(debug.Stack())
			}
			h.fail("undecided", h.where(), "%s%s: analysis failed: %s", h.pre(), what, msg)
		}
	}()
	f()
}

func (h *H) pre() string {
	if h.name == "" {
		return ""
	}
	return h.name + ": "
}

func (h *H) where() string {
	if h.in == nil {
		return h.name
	}
	return h.in.where()
}

func (h *H) fail(kind, where, f string, a ...interface{}) {
	if h.r.aspect != "" && kind == "definite" && h.aspect != h.r.aspect {
		return
	}
	h.obl++
	h.viol = append(h.viol, Violation{Where: where, What: fmt.Sprintf(f, a...), Kind: kind, Key: h.name})
}

// check is one proof obligation.
func (h *H) check(ok bool, where, f string, a ...interface{}) bool {
	if ok {
		if h.r.aspect == "" || h.aspect == h.r.aspect {
			h.obl++
			h.ok++
		}
		return true
	}
	h.fail("definite", where, "%s%s", h.pre(), fmt.Sprintf(f, a...))
	return false
}

func (h *H) sample(f string, a ...interface{}) {
	if len(h.samples) < 4 {
		h.samples = append(h.samples, fmt.Sprintf(f, a...))
	}
}

func loadWorld(root string) (*World, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax | packages.NeedModule, Dir: root, Tests: false}
	cfg.Mode = packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedModule | packages.NeedDeps
	if os.Getenv("ZK_FULL") == "" {
		cfg.Mode &^= packages.NeedDeps
	}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	for _, p := range ps {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("%s: %v", p.PkgPath, e)
		}
	}
	prog, spkgs := ssautil.Packages(ps, ssa.InstantiateGenerics)
	w := &World{prog: prog, fset: prog.Fset, pkgs: map[string]*ssa.Package{}, infos: map[*ssa.Function]*funcInfo{}, root: root, load: ps}
	for i, p := range spkgs {
		if p == nil {
			return nil, fmt.Errorf("no ssa for %s", ps[i].PkgPath)
		}
		p.Build()
		w.pkgs[p.Pkg.Path()] = p
	}
	return w, nil
}

type finding struct {
	Property string `json:"property"`
	Status   string `json:"status"`
	Key      string `json:"key"`
	Text     string `json:"text"`
}

func loadFindings(path string) []finding {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out []finding
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if l == "" {
			continue
		}
		var f finding
		if json.Unmarshal([]byte(l), &f) == nil {
			out = append(out, f)
		}
	}
	return out
}

func main() {
	prop := flag.String("property", "", "property id")
	repo := flag.String("repo", "/repo", "source tree")
	out := flag.String("out", "/verif", "verif directory")
	verbose := flag.Bool("v", false, "verbose")
	only := flag.String("only", "", "only sub-analyses whose name contains this")
	par := flag.Int("j", runtime.NumCPU(), "parallel sub-analyses")
	flag.Parse()
	debug.SetGCPercent(200)
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	t0 := time.Now()
	f := props[*prop]
	if f == nil {
		var ids []string
		for id := range props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println("known properties:", ids)
		os.Exit(2)
	}
	w, err := loadWorld(*repo)
	if err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		os.Exit(2)
	}
	r := &Run{prop: *prop, tier: tier, w: w, fns: map[string]bool{}, facts: map[string]interface{}{}, sem: make(chan struct{}, *par), verbose: *verbose, only: *only}
	f(r)
	r.wg.Wait()
	var nsteps int
	for _, h := range r.subs {
		r.obl += h.obl
		r.done += h.ok
		r.viol = append(r.viol, h.viol...)
		nsteps += h.steps
		for f := range h.fnset {
			r.fns[shortFn(f)] = true
		}
		if len(r.samples) < 12 {
			r.samples = append(r.samples, h.samples...)
		}
		if *verbose {
			fmt.Printf("  %-40s %d/%d  %v\n", h.name, h.ok, h.obl, h.dur.Round(time.Millisecond))
		}
	}
	known := loadFindings(filepath.Join(*out, "known_findings.jsonl"))
	var fresh []Violation
	printed := map[string]bool{}
	nknown := 0
	for _, v := range r.viol {
		hit := false
		for _, k := range known {
			if k.Property == *prop && k.Status == "known" && k.Key == v.Key && v.Kind == "definite" {
				hit = true
				if !printed[k.Key] {
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, k.Text)
					printed[k.Key] = true
				}
			}
		}
		if hit {
			nknown++
		} else {
			fresh = append(fresh, v)
		}
	}
	var fns []string
	for f := range r.fns {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	cov := map[string]interface{}{
		"obligations":        r.obl,
		"discharged":         r.done,
		"checker_cmd":        "bash checker/check.sh " + *prop,
		"trusted_base":       append([]string{"golang.org/x/tools/go/ssa as the meaning of the source", "the transfer functions of the checker (checker/*.go) for math/big, crypto/sha256, crypto/rand and the other library calls", "the algebraic normal forms of the checker"}, r.trusted...),
		"rules":              r.rules,
		"functions_analysed": fns,
		"sub_analyses":       len(r.subs),
		"instructions":       nsteps,
		"samples":            r.samples,
		"known_findings":     nknown,
	}
	for k, v := range r.facts {
		cov[k] = v
	}
	if len(fresh) > 0 {
		n := len(fresh)
		if n > 50 {
			n = 50
		}
		cov["violations"] = fresh[:n]
	}
	level := "proof"
	if l, ok := r.facts["level"].(string); ok {
		level = l
		delete(cov, "level")
	}
	ev := map[string]interface{}{"property": *prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "wall_s": time.Since(t0).Seconds()}
	if *only == "" {
		os.MkdirAll(filepath.Join(*out, "evidence"), 0o755)
		b, _ := json.MarshalIndent(ev, "", " ")
		if err := os.WriteFile(filepath.Join(*out, "evidence", *prop+".json"), append(b, '\n'), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
	}
	if len(fresh) > 0 {
		rep := filepath.Join(*out, "evidence", *prop+".violations.txt")
		var sb strings.Builder
		for _, v := range fresh {
			fmt.Fprintf(&sb, "%s: [%s] %s\n", v.Where, v.Kind, v.What)
		}
		os.WriteFile(rep, []byte(sb.String()), 0o644)
		lines := strings.Split(sb.String(), "\n")
		if len(lines) > 15 && !*verbose {
			lines = append(lines[:15], "...")
		}
		fmt.Println(strings.Join(lines, "\n"))
		fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, rep)
		os.Exit(1)
	}
	fmt.Printf("%s: %d obligations discharged in %d functions (%.1fs)\n", *prop, r.done, len(fns), time.Since(t0).Seconds())
}

var _ = types.Identical
