// autoref MODE DIR: rewrites all non-test Go files of the module in DIR in a way
// that keeps the behaviour. Used to test that the checks judge what the code does.
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ast/astutil"
	"golang.org/x/tools/go/packages"
)

var (
	mode  string
	count int
	fset  = token.NewFileSet()
	info  *types.Info
	pkg   *types.Package
	fresh int
	used  map[string]bool // identifiers of test files
)

func id(s string) *ast.Ident { return ast.NewIdent(s) }

func main() {
	mode = os.Args[1]
	dir := os.Args[2]
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Fset: fset}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		panic(err)
	}
	used = map[string]bool{}
	for _, p := range ps {
		for _, f := range p.GoFiles {
			d := f[:strings.LastIndex(f, "/")]
			es, _ := os.ReadDir(d)
			for _, e := range es {
				if strings.HasSuffix(e.Name(), "_test.go") {
					t, err := parser.ParseFile(token.NewFileSet(), d+"/"+e.Name(), nil, 0)
					if err == nil {
						ast.Inspect(t, func(n ast.Node) bool {
							if i, ok := n.(*ast.Ident); ok {
								used[i.Name] = true
							}
							return true
						})
					}
				}
			}
		}
	}
	for _, p := range ps {
		info, pkg = p.TypesInfo, p.Types
		for i, f := range p.Syntax {
			name := p.CompiledGoFiles[i]
			if strings.HasSuffix(name, "_test.go") || !strings.HasPrefix(name, dir) {
				continue
			}
			before := count
			f.Comments = nil
			f.Doc = nil
			ast.Inspect(f, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.FuncDecl:
					x.Doc = nil
				case *ast.GenDecl:
					x.Doc = nil
				case *ast.Field:
					x.Doc, x.Comment = nil, nil
				case *ast.ValueSpec:
					x.Doc, x.Comment = nil, nil
				case *ast.TypeSpec:
					x.Doc, x.Comment = nil, nil
				case *ast.ImportSpec:
					x.Doc, x.Comment = nil, nil
				}
				return true
			})
			doFile(f)
			if count == before {
				continue
			}
			var b bytes.Buffer
			// positions of new nodes confuse the printer: print, strip, reparse
			if err := format.Node(&b, token.NewFileSet(), f); err != nil {
				fmt.Println(name, err)
				os.Exit(2)
			}
			b.Write(more.Bytes())
			more.Reset()
			src, err := format.Source(b.Bytes())
			if err != nil {
				fmt.Println(name, err, b.String())
				os.Exit(2)
			}
			os.WriteFile(name, src, 0o644)
		}
	}
	fmt.Println(mode, "sites:", count)
}

func tmp() string { fresh++; return fmt.Sprintf("zq%d", fresh) }

// escapes: control leaves the statements in another way than at their end.
func escapes(n ast.Node) bool {
	r := false
	ast.Inspect(n, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.FuncLit:
			return false
		case *ast.ReturnStmt, *ast.BranchStmt, *ast.DeferStmt, *ast.LabeledStmt:
			r = true
		}
		return !r
	})
	return r
}

func hasContinue(n ast.Node) bool {
	r := false
	ast.Inspect(n, func(n ast.Node) bool {
		if b, ok := n.(*ast.BranchStmt); ok && b.Tok == token.CONTINUE {
			r = true
		}
		return !r
	})
	return r
}

func hasBreak(n ast.Node) bool {
	r := false
	ast.Inspect(n, func(n ast.Node) bool {
		if b, ok := n.(*ast.BranchStmt); ok && b.Tok == token.BREAK {
			r = true
		}
		return !r
	})
	return r
}

func closure(l ...ast.Stmt) ast.Stmt {
	return &ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: l}}}}
}

// lists applies f to every statement list of the function.
func lists(n ast.Node, f func([]ast.Stmt) []ast.Stmt) {
	var all []ast.Node
	ast.Inspect(n, func(n ast.Node) bool {
		all = append(all, n)
		return true
	})
	for i := len(all) - 1; i >= 0; i-- {
		switch x := all[i].(type) {
		case *ast.BlockStmt:
			x.List = f(x.List)
		case *ast.CaseClause:
			x.Body = f(x.Body)
		}
	}
}

func funcs(f *ast.File, g func(*ast.FuncDecl)) {
	for _, d := range f.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil {
			g(fd)
		}
	}
}

func isNew(e ast.Expr) bool {
	for {
		c, ok := e.(*ast.CallExpr)
		if !ok {
			return false
		}
		switch f := c.Fun.(type) {
		case *ast.Ident:
			return strings.HasPrefix(f.Name, "new")
		case *ast.SelectorExpr:
			if f.Sel.Name == "Get" && len(c.Args) == 0 {
				return true
			}
			e = f.X
		default:
			return false
		}
	}
}

func names(n ast.Node) map[string]bool {
	r := map[string]bool{}
	ast.Inspect(n, func(n ast.Node) bool {
		if i, ok := n.(*ast.Ident); ok {
			r[i.Name] = true
		}
		return true
	})
	return r
}

func single(e ast.Expr) bool {
	c, ok := e.(*ast.CallExpr)
	if !ok {
		return false
	}
	if tv, ok := info.Types[c.Fun]; ok && (tv.IsType() || tv.IsBuiltin()) {
		return false
	}
	tv, ok := info.Types[c]
	if !ok || tv.Type == nil || tv.Value != nil {
		return false
	}
	if _, ok := tv.Type.(*types.Tuple); ok {
		return false
	}
	if b, ok := tv.Type.(*types.Basic); ok && b.Kind() == types.Invalid {
		return false
	}
	return true
}

// hoist takes the calls out of an expression, in order of evaluation.
func hoist(e ast.Expr, pre *[]ast.Stmt, top bool) ast.Expr {
	switch x := e.(type) {
	case *ast.CallExpr:
		if tv, ok := info.Types[x.Fun]; ok && tv.IsType() {
			for i := range x.Args {
				x.Args[i] = hoist(x.Args[i], pre, false)
			}
			return x
		}
		if s, ok := x.Fun.(*ast.SelectorExpr); ok {
			s.X = hoist(s.X, pre, false)
		}
		if tv, ok := info.Types[x.Fun]; !ok || !tv.IsBuiltin() {
			for i := range x.Args {
				x.Args[i] = hoist(x.Args[i], pre, false)
			}
		}
		if !top && single(x) {
			n := tmp()
			*pre = append(*pre, &ast.AssignStmt{Lhs: []ast.Expr{id(n)}, Tok: token.DEFINE, Rhs: []ast.Expr{x}})
			count++
			return id(n)
		}
	case *ast.SelectorExpr:
		x.X = hoist(x.X, pre, false)
	case *ast.ParenExpr:
		x.X = hoist(x.X, pre, false)
	}
	return e
}

func doFile(f *ast.File) {
	switch mode {
	case "impl":
		var add []ast.Decl
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil || fd.Name.Name == "init" || fd.Name.Name == "main" || fd.Type.TypeParams != nil {
				continue
			}
			if fd.Recv != nil && (len(fd.Recv.List[0].Names) == 0 || fd.Recv.List[0].Names[0].Name == "_") {
				continue
			}
			c := &ast.CallExpr{}
			bad := false
			for _, p := range fd.Type.Params.List {
				if len(p.Names) == 0 {
					bad = true
				}
				for _, n := range p.Names {
					if n.Name == "_" {
						bad = true
					}
					c.Args = append(c.Args, id(n.Name))
				}
				if _, ok := p.Type.(*ast.Ellipsis); ok {
					c.Ellipsis = 1
				}
			}
			if bad {
				continue
			}
			n := "zimpl" + strings.ToUpper(fd.Name.Name[:1]) + fd.Name.Name[1:]
			if fd.Recv != nil {
				c.Fun = &ast.SelectorExpr{X: id(fd.Recv.List[0].Names[0].Name), Sel: id(n)}
			} else {
				c.Fun = id(n)
			}
			g := &ast.FuncDecl{Recv: fd.Recv, Name: id(n), Type: fd.Type, Body: fd.Body}
			add = append(add, g)
			// the wrapper has unnamed results
			t := &ast.FuncType{Params: fd.Type.Params}
			if fd.Type.Results != nil {
				t.Results = &ast.FieldList{}
				for _, p := range fd.Type.Results.List {
					k := len(p.Names)
					if k == 0 {
						k = 1
					}
					for ; k > 0; k-- {
						t.Results.List = append(t.Results.List, &ast.Field{Type: p.Type})
					}
				}
				fd.Body = &ast.BlockStmt{List: []ast.Stmt{&ast.ReturnStmt{Results: []ast.Expr{c}}}}
			} else {
				fd.Body = &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: c}}}
			}
			fd.Type = t
			count++
		}
		f.Decls = append(f.Decls, add...)
	case "closure", "closure2":
		funcs(f, func(fd *ast.FuncDecl) {
			lists(fd.Body, func(l []ast.Stmt) []ast.Stmt {
				var out, run []ast.Stmt
				k := 2
				if mode == "closure2" {
					k = 1000
				}
				flush := func() {
					if len(run) > 1 {
						count++
						out = append(out, closure(run...))
					} else {
						out = append(out, run...)
					}
					run = nil
				}
				for _, s := range l {
					ok := false
					switch x := s.(type) {
					case *ast.ExprStmt:
						ok = true
						if c, y := x.X.(*ast.CallExpr); y {
							if _, y := c.Fun.(*ast.FuncLit); y {
								ok = false
							}
						}
					case *ast.AssignStmt:
						ok = x.Tok != token.DEFINE
					case *ast.IncDecStmt:
						ok = true
					}
					if ok {
						run = append(run, s)
						if len(run) == k {
							flush()
						}
						continue
					}
					flush()
					out = append(out, s)
				}
				flush()
				return out
			})
		})
	case "while", "forever":
		funcs(f, func(fd *ast.FuncDecl) {
			lists(fd.Body, func(l []ast.Stmt) []ast.Stmt {
				for i, s := range l {
					x, ok := s.(*ast.ForStmt)
					if !ok || x.Cond == nil || hasContinue(x.Body) {
						continue
					}
					if x.Init == nil && mode == "while" {
						continue
					}
					count++
					var out []ast.Stmt
					if x.Init != nil {
						out = append(out, x.Init)
					}
					body := append([]ast.Stmt{}, x.Body.List...)
					// variables of the body must not hide those of the post statement
					if x.Post != nil {
						body = []ast.Stmt{&ast.BlockStmt{List: body}, x.Post}
					}
					if mode == "forever" {
						body = append([]ast.Stmt{&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: x.Cond}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}}}, body...)
						out = append(out, &ast.ForStmt{Body: &ast.BlockStmt{List: body}})
					} else {
						out = append(out, &ast.ForStmt{Cond: x.Cond, Body: &ast.BlockStmt{List: body}})
					}
					l[i] = &ast.BlockStmt{List: out}
				}
				return l
			})
		})
	case "forrange": // for _, v := range x / for i := range x by index
		funcs(f, func(fd *ast.FuncDecl) {
			lists(fd.Body, func(l []ast.Stmt) []ast.Stmt {
				for i, s := range l {
					x, ok := s.(*ast.RangeStmt)
					if !ok || x.Tok != token.DEFINE {
						continue
					}
					if _, ok := info.Types[x.X].Type.Underlying().(*types.Slice); !ok {
						continue
					}
					count++
					sl, k := tmp(), tmp()
					body := []ast.Stmt{}
					if x.Key != nil && x.Key.(*ast.Ident).Name != "_" {
						k = x.Key.(*ast.Ident).Name
					}
					if x.Value != nil && x.Value.(*ast.Ident).Name != "_" {
						body = append(body, &ast.AssignStmt{Lhs: []ast.Expr{x.Value}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.IndexExpr{X: id(sl), Index: id(k)}}})
					}
					body = append(body, x.Body.List...)
					l[i] = &ast.BlockStmt{List: []ast.Stmt{
						&ast.AssignStmt{Lhs: []ast.Expr{id(sl)}, Tok: token.DEFINE, Rhs: []ast.Expr{x.X}},
						&ast.ForStmt{Init: &ast.AssignStmt{Lhs: []ast.Expr{id(k)}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: "0"}}},
							Cond: &ast.BinaryExpr{X: id(k), Op: token.LSS, Y: &ast.CallExpr{Fun: id("len"), Args: []ast.Expr{id(sl)}}},
							Post: &ast.IncDecStmt{X: id(k), Tok: token.INC}, Body: &ast.BlockStmt{List: body}}}}
				}
				return l
			})
		})
	case "flip": // if-else exchanged, conditions negated
		ast.Inspect(f, func(n ast.Node) bool {
			if x, ok := n.(*ast.IfStmt); ok && x.Else != nil {
				b, ok := x.Else.(*ast.BlockStmt)
				if !ok {
					b = &ast.BlockStmt{List: []ast.Stmt{x.Else}}
				}
				count++
				x.Cond = &ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: x.Cond}}
				x.Body, x.Else = b, x.Body
			}
			return true
		})
	case "switch":
		funcs(f, func(fd *ast.FuncDecl) {
			astutil.Apply(fd.Body, nil, func(c *astutil.Cursor) bool {
				x, ok := c.Node().(*ast.IfStmt)
				if !ok || hasBreak(x) {
					return true
				}
				if _, ok := c.Parent().(*ast.IfStmt); ok {
					return true
				}
				count++
				sw := &ast.SwitchStmt{Init: x.Init, Body: &ast.BlockStmt{}}
				sw.Body.List = append(sw.Body.List, &ast.CaseClause{List: []ast.Expr{x.Cond}, Body: x.Body.List})
				if x.Else != nil {
					b, ok := x.Else.(*ast.BlockStmt)
					if !ok {
						b = &ast.BlockStmt{List: []ast.Stmt{x.Else}}
					}
					sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: b.List})
				}
				c.Replace(sw)
				return true
			})
		})
	case "hoist":
		funcs(f, func(fd *ast.FuncDecl) {
			lists(fd.Body, func(l []ast.Stmt) []ast.Stmt {
				var out []ast.Stmt
				for _, s := range l {
					var pre []ast.Stmt
					switch x := s.(type) {
					case *ast.ExprStmt:
						x.X = hoist(x.X, &pre, true)
					case *ast.AssignStmt:
						if len(x.Rhs) == 1 && len(x.Lhs) == 1 {
							x.Rhs[0] = hoist(x.Rhs[0], &pre, true)
						} else if len(x.Rhs) == 1 {
							x.Rhs[0] = hoist(x.Rhs[0], &pre, true)
						}
					case *ast.ReturnStmt:
						for i := range x.Results {
							if len(x.Results) > 1 || single(x.Results[i]) {
								x.Results[i] = hoist(x.Results[i], &pre, false)
							}
						}
					}
					out = append(append(out, pre...), s)
				}
				return out
			})
		})
	case "bigint": // new(big.Int).SetInt64(x) as big.NewInt(x)
		astutil.Apply(f, nil, func(c *astutil.Cursor) bool {
			x, ok := c.Node().(*ast.CallExpr)
			if !ok || len(x.Args) != 1 {
				return true
			}
			s, ok := x.Fun.(*ast.SelectorExpr)
			if !ok {
				return true
			}
			if s.Sel.Name == "SetInt64" {
				if n, ok := s.X.(*ast.CallExpr); ok {
					if i, ok := n.Fun.(*ast.Ident); ok && i.Name == "new" {
						count++
						c.Replace(&ast.CallExpr{Fun: &ast.SelectorExpr{X: id("big"), Sel: id("NewInt")}, Args: x.Args})
					}
				}
			} else if s.Sel.Name == "NewInt" {
				if i, ok := s.X.(*ast.Ident); ok && i.Name == "big" {
					count++
					c.Replace(&ast.CallExpr{Fun: &ast.SelectorExpr{X: &ast.CallExpr{Fun: id("new"), Args: []ast.Expr{&ast.SelectorExpr{X: id("big"), Sel: id("Int")}}}, Sel: id("SetInt64")}, Args: x.Args})
				}
			}
			return true
		})
	case "morgan":
		astutil.Apply(f, nil, func(c *astutil.Cursor) bool {
			x, ok := c.Node().(*ast.BinaryExpr)
			if !ok || x.Op != token.LAND && x.Op != token.LOR {
				return true
			}
			count++
			no := func(e ast.Expr) ast.Expr { return &ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: e}} }
			op := token.LOR
			if x.Op == token.LOR {
				op = token.LAND
			}
			c.Replace(no(&ast.BinaryExpr{X: no(x.X), Op: op, Y: no(x.Y)}))
			return true
		})
	case "nested": // if a && b {A} without else as nested ifs
		ast.Inspect(f, func(n ast.Node) bool {
			x, ok := n.(*ast.IfStmt)
			if !ok || x.Else != nil {
				return true
			}
			if b, ok := x.Cond.(*ast.BinaryExpr); ok && b.Op == token.LAND {
				count++
				x.Cond = b.X
				x.Body = &ast.BlockStmt{List: []ast.Stmt{&ast.IfStmt{Cond: b.Y, Body: x.Body}}}
			}
			return true
		})
	case "compare":
		m := map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ, token.EQL: token.EQL, token.NEQ: token.NEQ}
		ast.Inspect(f, func(n ast.Node) bool {
			if x, ok := n.(*ast.BinaryExpr); ok {
				if o, ok := m[x.Op]; ok {
					count++
					x.X, x.Y, x.Op = x.Y, x.X, o
				}
			}
			return true
		})
	case "noelse": // if c {..return} else {B} as if c {..return}; B
		funcs(f, func(fd *ast.FuncDecl) {
			lists(fd.Body, func(l []ast.Stmt) []ast.Stmt {
				var out []ast.Stmt
				for _, s := range l {
					out = append(out, s)
					x, ok := s.(*ast.IfStmt)
					if !ok || x.Else == nil || len(x.Body.List) == 0 || x.Init != nil {
						continue
					}
					if _, ok := x.Body.List[len(x.Body.List)-1].(*ast.ReturnStmt); !ok {
						continue
					}
					count++
					out = append(out, x.Else)
					x.Else = nil
				}
				return out
			})
		})
	case "named": // named results and bare returns
		funcs(f, func(fd *ast.FuncDecl) {
			r := fd.Type.Results
			if r == nil || len(r.List) == 0 || len(r.List[0].Names) > 0 {
				return
			}
			var ns []ast.Expr
			for _, p := range r.List {
				n := tmp()
				p.Names = []*ast.Ident{id(n)}
				ns = append(ns, id(n))
			}
			count++
			lists(fd.Body, func(l []ast.Stmt) []ast.Stmt {
				var out []ast.Stmt
				for _, s := range l {
					if x, ok := s.(*ast.ReturnStmt); ok && len(x.Results) > 0 {
						out = append(out, &ast.AssignStmt{Lhs: ns, Tok: token.ASSIGN, Rhs: x.Results}, &ast.ReturnStmt{})
					} else {
						out = append(out, s)
					}
				}
				return out
			})
		})
	case "body": // loop bodies as closures
		funcs(f, func(fd *ast.FuncDecl) {
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				var b *ast.BlockStmt
				switch x := n.(type) {
				case *ast.ForStmt:
					b = x.Body
				case *ast.RangeStmt:
					b = x.Body
				}
				if b != nil && !escapes(b) {
					count++
					b.List = []ast.Stmt{closure(b.List...)}
				}
				return true
			})
		})
	case "ifclosure": // branches as closures
		funcs(f, func(fd *ast.FuncDecl) {
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				if x, ok := n.(*ast.IfStmt); ok && !escapes(x.Body) {
					count++
					x.Body.List = []ast.Stmt{closure(x.Body.List...)}
				}
				return true
			})
		})
	case "single": // one return at the end: the body becomes a closure with results
		funcs(f, func(fd *ast.FuncDecl) {
			r := fd.Type.Results
			if r == nil || len(r.List) == 0 || len(r.List[0].Names) > 0 {
				return
			}
			var ns []ast.Expr
			for range r.List {
				ns = append(ns, id(tmp()))
			}
			count++
			t := &ast.FuncType{Params: &ast.FieldList{}, Results: r}
			fd.Body = &ast.BlockStmt{List: []ast.Stmt{
				&ast.AssignStmt{Lhs: ns, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.CallExpr{Fun: &ast.FuncLit{Type: t, Body: fd.Body}}}},
				&ast.ReturnStmt{Results: ns}}}
		})
	case "defer": // a deferred function that does nothing
		funcs(f, func(fd *ast.FuncDecl) {
			count++
			fd.Body.List = append([]ast.Stmt{&ast.DeferStmt{Call: &ast.CallExpr{Fun: &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{}}}}}, fd.Body.List...)
		})
	case "copyargs": // parameters copied to locals
		funcs(f, func(fd *ast.FuncDecl) {
			var pre []ast.Stmt
			for _, p := range fd.Type.Params.List {
				for _, n := range p.Names {
					if n.Name != "_" {
						count++
						m := tmp()
						pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{id(m)}, Tok: token.DEFINE, Rhs: []ast.Expr{id(n.Name)}}, &ast.AssignStmt{Lhs: []ast.Expr{id("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(m)}})
						// use the copy
						obj := info.Defs[n]
						ast.Inspect(fd.Body, func(k ast.Node) bool {
							if i, ok := k.(*ast.Ident); ok && info.Uses[i] == obj && obj != nil {
								i.Name = m
							}
							return true
						})
					}
				}
			}
			fd.Body.List = append(pre, fd.Body.List...)
		})
	case "rename": // local variables and parameters
		ast.Inspect(f, func(n ast.Node) bool {
			i, ok := n.(*ast.Ident)
			if !ok || i.Name == "_" {
				return true
			}
			o := info.Defs[i]
			if o == nil {
				o = info.Uses[i]
			}
			if v, ok := o.(*types.Var); ok && !v.IsField() && v.Parent() != pkg.Scope() && v.Pkg() == pkg && v.Parent() != types.Universe {
				count++
				i.Name = "zr" + i.Name
			}
			return true
		})
		// implicit objects of type switches keep their name
	case "private": // private functions and methods that no test uses
		ast.Inspect(f, func(n ast.Node) bool {
			i, ok := n.(*ast.Ident)
			if !ok {
				return true
			}
			o := info.Defs[i]
			if o == nil {
				o = info.Uses[i]
			}
			if v, ok := o.(*types.Func); ok && v.Pkg() == pkg && !v.Exported() && !used[v.Name()] && v.Name() != "init" && v.Name() != "main" {
				count++
				i.Name = "zp" + i.Name
			}
			return true
		})
	case "extract2", "extract3", "extract5", "extractm": // runs of statements as new private functions (methods for extractm)
		extract(f)
	case "puts": // temporaries are handed back in another order
		funcs(f, func(fd *ast.FuncDecl) {
			isPut := func(s ast.Stmt) bool {
				x, ok := s.(*ast.ExprStmt)
				if !ok {
					return false
				}
				c, ok := x.X.(*ast.CallExpr)
				if !ok {
					return false
				}
				s2, ok := c.Fun.(*ast.SelectorExpr)
				return ok && s2.Sel.Name == "Put"
			}
			lists(fd.Body, func(l []ast.Stmt) []ast.Stmt {
				for i := 0; i < len(l); i++ {
					j := i
					for j < len(l) && isPut(l[j]) {
						j++
					}
					for a, b := i, j-1; a < b; a, b = a+1, b-1 {
						l[a], l[b] = l[b], l[a]
						count++
					}
					if j > i {
						i = j
					}
				}
				return l
			})
		})
	case "swap": // x := new..f(..); y := new..g(..) exchanged if independent
		funcs(f, func(fd *ast.FuncDecl) {
			def := func(s ast.Stmt) (string, ast.Expr) {
				x, ok := s.(*ast.AssignStmt)
				if !ok || x.Tok != token.DEFINE || len(x.Lhs) != 1 || len(x.Rhs) != 1 || !isNew(x.Rhs[0]) {
					return "", nil
				}
				return x.Lhs[0].(*ast.Ident).Name, x.Rhs[0]
			}
			lists(fd.Body, func(l []ast.Stmt) []ast.Stmt {
				for i := 0; i+1 < len(l); i++ {
					a, ea := def(l[i])
					b, eb := def(l[i+1])
					if ea == nil || eb == nil || names(eb)[a] || names(ea)[b] {
						continue
					}
					count++
					l[i], l[i+1] = l[i+1], l[i]
					i++
				}
				return l
			})
		})
	case "method": // x.M(a) as a method value
		funcs(f, func(fd *ast.FuncDecl) {
			lists(fd.Body, func(l []ast.Stmt) []ast.Stmt {
				var out []ast.Stmt
				for _, s := range l {
					if x, ok := s.(*ast.ExprStmt); ok {
						if c, ok := x.X.(*ast.CallExpr); ok {
							if se, ok := c.Fun.(*ast.SelectorExpr); ok {
								if sel := info.Selections[se]; sel != nil && sel.Kind() == types.MethodVal {
									n := tmp()
									count++
									out = append(out, &ast.AssignStmt{Lhs: []ast.Expr{id(n)}, Tok: token.DEFINE, Rhs: []ast.Expr{c.Fun}})
									c.Fun = id(n)
								}
							}
						}
					}
					out = append(out, s)
				}
				return out
			})
		})
	case "iife": // results of calls through a function literal
		funcs(f, func(fd *ast.FuncDecl) {
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				x, ok := n.(*ast.AssignStmt)
				if !ok || len(x.Rhs) != 1 || !single(x.Rhs[0]) {
					return true
				}
				t := info.Types[x.Rhs[0]].Type
				bad := false
				q := func(p *types.Package) string {
					if p == pkg {
						return ""
					}
					if p.Name() != "big" && p.Name() != "bn256" && p.Name() != "p256" {
						bad = true
					}
					return p.Name()
				}
				ts := types.TypeString(t, q)
				e, err := parser.ParseExpr(ts)
				if err != nil || bad || names(f)["util"] {
					return true
				}
				if !imports(f, ts) {
					return true
				}
				count++
				x.Rhs[0] = &ast.CallExpr{Fun: &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}, Results: &ast.FieldList{List: []*ast.Field{{Type: e}}}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ReturnStmt{Results: []ast.Expr{x.Rhs[0]}}}}}}
				return false
			})
		})
	case "ptr": // local numbers through pointers to variables
		funcs(f, func(fd *ast.FuncDecl) {
			lists(fd.Body, func(l []ast.Stmt) []ast.Stmt {
				var out []ast.Stmt
				for _, s := range l {
					out = append(out, s)
					if x, ok := s.(*ast.AssignStmt); ok && x.Tok == token.DEFINE && len(x.Lhs) == 1 {
						if i := x.Lhs[0].(*ast.Ident); i.Name != "_" && info.Defs[i] != nil {
							// use through a pointer once: *(&x) = x
							n := tmp()
							count++
							out = append(out, &ast.AssignStmt{Lhs: []ast.Expr{id(n)}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.UnaryExpr{Op: token.AND, X: id(i.Name)}}},
								&ast.AssignStmt{Lhs: []ast.Expr{&ast.StarExpr{X: id(n)}}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(i.Name)}})
						}
					}
				}
				return out
			})
		})
	default:
		fmt.Println("unknown mode")
		os.Exit(2)
	}
}

func imports(f *ast.File, ts string) bool {
	for _, p := range []string{"big", "hash", "io", "bn256", "p256"} {
		if strings.Contains(ts, p+".") {
			ok := false
			for _, i := range f.Imports {
				if strings.HasSuffix("/"+strings.Trim(i.Path.Value, `"`), "/"+p) && i.Name == nil {
					ok = true
				}
			}
			if !ok {
				return false
			}
		}
	}
	return true
}

// extract moves runs of statements to new functions. Variables that the run
// assigns are results; structs and arrays are handed over by pointer.
func extract(f *ast.File) {
	k := map[string]int{"extract2": 2, "extract3": 3, "extract5": 5, "extractm": 4}[mode]
	var decls []ast.Decl
	qual := func(p *types.Package) string {
		if p == pkg {
			return ""
		}
		return p.Name()
	}
	funcs(f, func(fd *ast.FuncDecl) {
		lists(fd.Body, func(l []ast.Stmt) []ast.Stmt {
			for i := 0; i+k <= len(l); i++ {
				run := l[i : i+k]
				blk := &ast.BlockStmt{List: run}
				if escapes(blk) {
					continue
				}
				bad := false
				for _, s := range run {
					switch s.(type) {
					case *ast.CaseClause, *ast.CommClause:
						bad = true
					}
				}
				inside := map[types.Object]bool{}
				ast.Inspect(blk, func(n ast.Node) bool {
					switch x := n.(type) {
					case *ast.FuncLit:
						bad = true
					case *ast.UnaryExpr:
						if x.Op == token.AND {
							if _, ok := ast.Unparen(x.X).(*ast.CompositeLit); !ok {
								bad = true
							}
						}
					case *ast.Ident:
						if o := info.Defs[x]; o != nil {
							inside[o] = true
						}
						switch o := info.Uses[x].(type) {
						case *types.Const, *types.TypeName:
							if o.Pkg() == pkg && o.Parent() != pkg.Scope() {
								bad = true
							}
						}
						if strings.HasPrefix(x.Name, "zx") || info.Defs[x] == nil && info.Uses[x] == nil && x.Name != "_" {
							bad = true // made by an earlier extraction
						}
					}
					return !bad
				})
				if bad {
					continue
				}
				// declared inside and used later
				ast.Inspect(fd.Body, func(n ast.Node) bool {
					x, ok := n.(*ast.Ident)
					if ok && inside[info.Uses[x]] && (x.Pos() < run[0].Pos() || x.Pos() > run[k-1].End()) {
						bad = true
					}
					return !bad
				})
				// free variables
				var free []*types.Var
				seen := map[types.Object]bool{}
				assigned := map[types.Object]bool{}
				lhs := func(e ast.Expr) {
					if x, ok := ast.Unparen(e).(*ast.Ident); ok && info.Uses[x] != nil {
						assigned[info.Uses[x]] = true
					}
				}
				ast.Inspect(blk, func(n ast.Node) bool {
					switch x := n.(type) {
					case *ast.Ident:
						v, ok := info.Uses[x].(*types.Var)
						if !ok || v.IsField() || v.Parent() == pkg.Scope() || v.Pkg() != pkg || inside[v] || seen[v] {
							return true
						}
						seen[v] = true
						free = append(free, v)
					case *ast.AssignStmt:
						for _, e := range x.Lhs {
							lhs(e)
						}
					case *ast.IncDecStmt:
						lhs(x.X)
					case *ast.RangeStmt:
						if x.Key != nil {
							lhs(x.Key)
						}
						if x.Value != nil {
							lhs(x.Value)
						}
					}
					return true
				})
				n := "zx" + tmp() + fd.Name.Name
				fun := &ast.FuncDecl{Name: id(n), Type: &ast.FuncType{Params: &ast.FieldList{}, Results: &ast.FieldList{}}, Body: blk}
				call := &ast.CallExpr{Fun: id(n)}
				var outs, rets []ast.Expr
				use := func(v *types.Var) *ast.Ident {
					i := &ast.Ident{Name: v.Name(), NamePos: run[0].Pos()}
					info.Uses[i] = v
					return i
				}
				ptr := map[types.Object]bool{}
				for _, v := range free {
					ts := types.TypeString(v.Type(), qual)
					if !imports(f, ts) || strings.Contains(ts, "struct{") || v.Name() == "_" {
						bad = true
						break
					}
					switch v.Type().Underlying().(type) {
					case *types.Struct, *types.Array:
						ptr[v] = true
						ts = "*" + ts
						call.Args = append(call.Args, &ast.UnaryExpr{Op: token.AND, X: use(v)})
					default:
						call.Args = append(call.Args, use(v))
					}
					fun.Type.Params.List = append(fun.Type.Params.List, &ast.Field{Names: []*ast.Ident{id(v.Name())}, Type: id(ts)})
					if assigned[v] && !ptr[v] {
						outs = append(outs, use(v))
						rets = append(rets, id(v.Name()))
						fun.Type.Results.List = append(fun.Type.Results.List, &ast.Field{Type: id(ts)})
					}
				}
				if bad {
					continue
				}
				astutil.Apply(blk, func(c *astutil.Cursor) bool {
					x, ok := c.Node().(*ast.Ident)
					if !ok || !ptr[info.Uses[x]] {
						return true
					}
					if s, ok := c.Parent().(*ast.SelectorExpr); ok && s.X == x {
						return true
					}
					if s, ok := c.Parent().(*ast.IndexExpr); ok && s.X == x {
						return true
					}
					c.Replace(&ast.ParenExpr{X: &ast.StarExpr{X: x}})
					return false
				}, nil)
				var s ast.Stmt = &ast.ExprStmt{X: call}
				if len(outs) > 0 {
					blk.List = append(append([]ast.Stmt(nil), run...), &ast.ReturnStmt{Results: rets})
					s = &ast.AssignStmt{Lhs: append([]ast.Expr(nil), outs...), Tok: token.ASSIGN, Rhs: []ast.Expr{call}}
				} else {
					blk.List = append([]ast.Stmt(nil), run...)
				}
				if mode == "extractm" && len(free) > 0 {
					pt, ok := free[0].Type().(*types.Pointer)
					if ok {
						if nt, ok := pt.Elem().(*types.Named); ok && nt.Obj().Pkg() == pkg {
							fun.Recv = &ast.FieldList{List: fun.Type.Params.List[:1]}
							fun.Type.Params.List = fun.Type.Params.List[1:]
							call.Fun = &ast.SelectorExpr{X: call.Args[0], Sel: id(n)}
							call.Args = call.Args[1:]
						}
					}
				}
				count++
				decls = append(decls, fun)
				l = append(append(append([]ast.Stmt(nil), l[:i]...), s), l[i+k:]...)
			}
			return l
		})
	})
	for _, d := range decls {
		var b bytes.Buffer
		if err := format.Node(&b, token.NewFileSet(), d); err != nil {
			panic(err)
		}
		more.WriteString("\n" + b.String() + "\n")
	}
}

var more bytes.Buffer // new declarations
