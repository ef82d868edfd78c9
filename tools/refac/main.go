// refac rewrites a copy of the repository without changing its behaviour, to see that the checks stay quiet.
// usage: refac DIR TRANSFORMATION [file substring]
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
)

var local = os.Getenv("REFAC_LOCAL") != "" // helpers are functions kept in variables

type rw struct {
	defs  []ast.Stmt
	pkg   *packages.Package
	file  *ast.File
	fset  *token.FileSet
	n     int // sites
	uniq  int
	extra []ast.Decl
	fn    *ast.FuncDecl
}

func main() {
	dir, what := os.Args[1], os.Args[2]
	only := ""
	if len(os.Args) > 3 {
		only = os.Args[3]
	}
	var mu sync.Mutex
	skip := map[string]bool{}
	fset := token.NewFileSet()
	cfg := &packages.Config{Dir: dir, Fset: fset, Mode: packages.NeedName | packages.NeedFiles | packages.NeedSyntax | packages.NeedTypes | packages.NeedTypesInfo | packages.NeedImports | packages.NeedDeps,
		ParseFile: func(fs *token.FileSet, name string, src []byte) (*ast.File, error) {
			if bytes.Contains(src, []byte("//go:")) || bytes.Contains(src, []byte("+build")) || bytes.Contains(src, []byte("import \"C\"")) {
				mu.Lock()
				skip[name] = true
				mu.Unlock()
			}
			return parser.ParseFile(fs, name, src, 0)
		}}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		panic(err)
	}
	total, files := 0, 0
	uniq := 0
	for _, p := range pkgs {
		for k, f := range p.Syntax {
			name := p.CompiledGoFiles
			_ = name
			path := fset.Position(f.Pos()).Filename
			_ = k
			if skip[path] || only != "" && !strings.Contains(path, only) || strings.HasSuffix(path, "_test.go") {
				continue
			}
			r := &rw{pkg: p, file: f, fset: fset, uniq: uniq}
			if strings.HasPrefix(what, "ren") {
				r.rename(what, pkgs, skip)
			} else {
				for _, d := range f.Decls {
					fd, ok := d.(*ast.FuncDecl)
					if !ok || fd.Body == nil || fd.Type.TypeParams != nil {
						continue
					}
					r.fn = fd
					r.apply(what, fd)
					fd.Body.List = append(append([]ast.Stmt{}, r.defs...), fd.Body.List...)
					r.defs = nil
				}
			}
			uniq = r.uniq
			if r.n == 0 {
				continue
			}
			f.Decls = append(f.Decls, r.extra...)
			var b bytes.Buffer
			if err := format.Node(&b, fset, f); err != nil {
				fmt.Println("FORMAT", path, err)
				continue
			}
			if err := os.WriteFile(path, b.Bytes(), 0644); err != nil {
				panic(err)
			}
			total += r.n
			files++
		}
	}
	fmt.Printf("%s: %d sites in %d files\n", what, total, files)
}

func (r *rw) id(p string) *ast.Ident { r.uniq++; return ast.NewIdent(fmt.Sprintf("%sV%d", p, r.uniq)) }

func (r *rw) typ(e ast.Expr) types.Type { return r.pkg.TypesInfo.TypeOf(e) }

// no calls, no function literals, no receives
func pure(e ast.Node) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.CallExpr:
			if id, is := x.Fun.(*ast.Ident); is && (id.Name == "len" || id.Name == "int" || id.Name == "int32" || id.Name == "float32" || id.Name == "float64" || id.Name == "int64") {
				return true
			}
			ok = false
		case *ast.FuncLit:
			ok = false
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				ok = false
			}
		}
		return ok
	})
	return ok
}

func has(n ast.Node, f func(ast.Node) bool) bool {
	res := false
	if n == nil {
		return false
	}
	ast.Inspect(n, func(x ast.Node) bool {
		if x != nil && f(x) {
			res = true
		}
		return !res
	})
	return res
}

func hasLit(n ast.Node) bool {
	return has(n, func(x ast.Node) bool { _, ok := x.(*ast.FuncLit); return ok })
}

// leaves the statements it is in
func jumps(n ast.Node) bool {
	return has(n, func(x ast.Node) bool {
		switch x.(type) {
		case *ast.ReturnStmt, *ast.BranchStmt, *ast.LabeledStmt, *ast.DeferStmt, *ast.GoStmt, *ast.FuncLit, *ast.SelectStmt:
			return true
		}
		return false
	})
}

// all lists of statements of a function
func (r *rw) lists(n ast.Node, f func(l []ast.Stmt, outer bool) []ast.Stmt) {
	ast.Inspect(n, func(x ast.Node) bool {
		switch y := x.(type) {
		case *ast.BlockStmt:
			y.List = f(y.List, false)
		case *ast.CaseClause:
			y.Body = f(y.Body, false)
		case *ast.CommClause:
			y.Body = f(y.Body, false)
		}
		return true
	})
}

func (r *rw) local(o types.Object) bool {
	v, ok := o.(*types.Var)
	return ok && !v.IsField() && o.Parent() != nil && o.Parent() != r.pkg.Types.Scope() && o.Pkg() == r.pkg.Types
}

// variables from outside a node used in it, and of these the ones assigned to
func (r *rw) free(ns []ast.Stmt, e ast.Node) (used []*types.Var, set map[*types.Var]bool, ok bool) {
	set = map[*types.Var]bool{}
	seen := map[*types.Var]bool{}
	var lo, hi token.Pos
	var nodes []ast.Node
	if e != nil {
		nodes = append(nodes, e)
	}
	for _, s := range ns {
		nodes = append(nodes, s)
	}
	lo, hi = nodes[0].Pos(), nodes[len(nodes)-1].End()
	ok = lo.IsValid() && hi.IsValid()
	mark := func(x ast.Expr) {
		for {
			switch y := x.(type) {
			case *ast.ParenExpr:
				x = y.X
				continue
			case *ast.SelectorExpr: // field of a structure variable
				if t := r.typ(y.X); t != nil {
					if _, isP := t.Underlying().(*types.Pointer); !isP {
						x = y.X
						continue
					}
				}
			case *ast.IndexExpr:
				if t := r.typ(y.X); t != nil {
					if _, isA := t.Underlying().(*types.Array); isA {
						x = y.X
						continue
					}
				}
			case *ast.Ident:
				if v, is := r.pkg.TypesInfo.ObjectOf(y).(*types.Var); is {
					set[v] = true
				} else if y.Name != "_" {
					ok = false
				}
			}
			return
		}
	}
	for _, n := range nodes {
		ast.Inspect(n, func(x ast.Node) bool {
			switch y := x.(type) {
			case *ast.Ident:
				o := r.pkg.TypesInfo.ObjectOf(y)
				if v, is := o.(*types.Var); is && r.local(v) && (v.Pos() < lo || v.Pos() >= hi) && !seen[v] {
					seen[v] = true
					used = append(used, v)
				} else if is && r.local(v) && !v.Pos().IsValid() {
					ok = false
				} else if o == nil && y.Name != "_" {
					if y.Obj == nil && strings.Contains(y.Name, "V") {
						ok = false
					}
				}
				if t, is := o.(*types.TypeName); is && t.Parent() != r.pkg.Types.Scope() && t.Pkg() == r.pkg.Types {
					ok = false
				}
			case *ast.AssignStmt:
				for _, l := range y.Lhs {
					mark(l)
				}
			case *ast.IncDecStmt:
				mark(y.X)
			case *ast.RangeStmt:
				if y.Key != nil {
					mark(y.Key)
				}
				if y.Value != nil {
					mark(y.Value)
				}
			case *ast.UnaryExpr:
				if y.Op == token.AND {
					if _, isC := y.X.(*ast.CompositeLit); !isC {
						mark(y.X)
						if id, is := y.X.(*ast.Ident); is && id != nil {
							ok = false
						}
					}
				}
			case *ast.CallExpr: // methods with pointer receivers on variables
				if se, is := y.Fun.(*ast.SelectorExpr); is {
					if sel := r.pkg.TypesInfo.Selections[se]; sel != nil && sel.Kind() == types.MethodVal {
						if sg, is := sel.Obj().Type().(*types.Signature); is && sg.Recv() != nil {
							if _, isP := sg.Recv().Type().(*types.Pointer); isP {
								if _, xP := r.typ(se.X).Underlying().(*types.Pointer); !xP {
									ok = false
								}
							}
						}
					}
				}
			}
			return true
		})
	}
	for v := range set {
		if !seen[v] {
			delete(set, v)
		}
	}
	sort.Slice(used, func(i, j int) bool { return used[i].Pos() < used[j].Pos() })
	return
}

// text of a type in this file
func (r *rw) typeExpr(t types.Type) (ast.Expr, bool) {
	ok := true
	imp := map[string]string{}
	for _, i := range r.file.Imports {
		p := strings.Trim(i.Path.Value, `"`)
		n := ""
		if i.Name != nil {
			n = i.Name.Name
		}
		imp[p] = n
	}
	if r.localType(t, 0) {
		return nil, false
	}
	s := types.TypeString(t, func(p *types.Package) string {
		if p == r.pkg.Types {
			return ""
		}
		n, is := imp[p.Path()]
		if !is {
			ok = false
		}
		if n == "" {
			n = p.Name()
		}
		return n
	})
	if strings.Contains(s, "untyped") {
		return nil, false
	}
	e, err := parser.ParseExpr(s)
	if err != nil {
		return nil, false
	}
	clearPos(e)
	return e, ok
}

// does it mention a type declared in a function
func (r *rw) localType(t types.Type, depth int) bool {
	if depth > 6 {
		return false
	}
	sub := func(ts ...types.Type) bool {
		for _, u := range ts {
			if r.localType(u, depth+1) {
				return true
			}
		}
		return false
	}
	switch x := t.(type) {
	case *types.Named:
		return x.Obj().Pkg() == r.pkg.Types && x.Obj().Parent() != r.pkg.Types.Scope()
	case *types.Alias:
		return x.Obj().Pkg() == r.pkg.Types && x.Obj().Parent() != r.pkg.Types.Scope()
	case *types.Pointer:
		return sub(x.Elem())
	case *types.Slice:
		return sub(x.Elem())
	case *types.Array:
		return sub(x.Elem())
	case *types.Chan:
		return sub(x.Elem())
	case *types.Map:
		return sub(x.Key(), x.Elem())
	}
	return false
}

func clearPos(n ast.Node) {
	ast.Inspect(n, func(x ast.Node) bool {
		switch y := x.(type) {
		case *ast.Ident:
			y.NamePos = token.NoPos
		case *ast.FuncType:
			y.Func = token.NoPos
		}
		return true
	})
}

// a parameter hidden by something of the same name in its type, or a package
func (r *rw) params(vs []*types.Var) (*ast.FieldList, []ast.Expr, bool) {
	fl := &ast.FieldList{}
	var as []ast.Expr
	names := map[string]bool{}
	for _, v := range vs {
		t, ok := r.typeExpr(v.Type())
		if !ok || names[v.Name()] {
			return nil, nil, false
		}
		names[v.Name()] = true
		fl.List = append(fl.List, &ast.Field{Names: []*ast.Ident{ast.NewIdent(v.Name())}, Type: t})
		as = append(as, ast.NewIdent(v.Name()))
	}
	// types using a name of a parameter
	bad := false
	for _, f := range fl.List {
		ast.Inspect(f.Type, func(x ast.Node) bool {
			if id, ok := x.(*ast.Ident); ok && names[id.Name] {
				bad = true
			}
			return true
		})
	}
	return fl, as, !bad
}

func (r *rw) helper(name *ast.Ident, params, results *ast.FieldList, body []ast.Stmt) {
	if local {
		r.defs = append(r.defs, &ast.AssignStmt{Lhs: []ast.Expr{name}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.FuncLit{Type: &ast.FuncType{Params: params, Results: results}, Body: &ast.BlockStmt{List: body}}}})
		return
	}
	r.extra = append(r.extra, &ast.FuncDecl{Name: name, Type: &ast.FuncType{Params: params, Results: results}, Body: &ast.BlockStmt{List: body}})
}

func (r *rw) captured(vs map[*types.Var]bool) bool {
	// also used by a function literal of the function
	res := false
	ast.Inspect(r.fn, func(x ast.Node) bool {
		if fl, ok := x.(*ast.FuncLit); ok {
			ast.Inspect(fl, func(y ast.Node) bool {
				if id, ok := y.(*ast.Ident); ok {
					if v, is := r.pkg.TypesInfo.ObjectOf(id).(*types.Var); is && vs[v] {
						res = true
					}
				}
				return true
			})
			return false
		}
		return true
	})
	return res
}

// statements without jumps into a helper
func (r *rw) extract(prefix string, ss []ast.Stmt) (ast.Stmt, bool) {
	for _, s := range ss {
		bad := has(s, func(x ast.Node) bool {
			switch x.(type) {
			case *ast.ReturnStmt, *ast.LabeledStmt, *ast.DeferStmt, *ast.GoStmt, *ast.FuncLit, *ast.SelectStmt:
				return true
			case *ast.BranchStmt:
				b := x.(*ast.BranchStmt)
				return b.Label != nil || b.Tok == token.GOTO || b.Tok == token.FALLTHROUGH
			}
			return false
		})
		if bad {
			return nil, false
		}
		// declares something used behind
		if _, isD := s.(*ast.DeclStmt); isD {
			return nil, false
		}
		if a, isA := s.(*ast.AssignStmt); isA && a.Tok == token.DEFINE {
			return nil, false
		}
	}
	used, set, ok := r.free(ss, nil)
	if !ok || len(used) == 0 || len(used) > 14 {
		return nil, false
	}
	var outs []*types.Var
	for _, v := range used {
		if set[v] {
			outs = append(outs, v)
		}
	}
	if r.captured(set) || len(outs) > 4 {
		return nil, false
	}
	for _, v := range used {
		if strings.Contains(v.Type().String(), "sync.") {
			return nil, false
		}
	}
	pl, as, ok := r.params(used)
	if !ok {
		return nil, false
	}
	name := r.id(prefix)
	call := &ast.CallExpr{Fun: name, Args: as}
	body := append([]ast.Stmt{}, ss...)
	var st ast.Stmt = &ast.ExprStmt{X: call}
	var rl *ast.FieldList
	if len(outs) > 0 {
		rl = &ast.FieldList{}
		var lhs, ret []ast.Expr
		for _, v := range outs {
			t, ok := r.typeExpr(v.Type())
			if !ok {
				return nil, false
			}
			rl.List = append(rl.List, &ast.Field{Type: t})
			lhs = append(lhs, ast.NewIdent(v.Name()))
			ret = append(ret, ast.NewIdent(v.Name()))
		}
		body = append(body, &ast.ReturnStmt{Results: ret})
		st = &ast.AssignStmt{Lhs: lhs, Tok: token.ASSIGN, Rhs: []ast.Expr{call}}
	}
	r.helper(name, pl, rl, body)
	r.n++
	return st, true
}

func not(e ast.Expr) ast.Expr {
	if b, ok := e.(*ast.BinaryExpr); ok {
		if b.Op == token.EQL {
			return &ast.BinaryExpr{X: b.X, Op: token.NEQ, Y: b.Y}
		}
		if b.Op == token.NEQ {
			return &ast.BinaryExpr{X: b.X, Op: token.EQL, Y: b.Y}
		}
	}
	return &ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: e}}
}

func (r *rw) apply(what string, fd *ast.FuncDecl) {
	switch what {
	case "rangeidx":
		ast.Inspect(fd.Body, func(x ast.Node) bool {
			r.rangeIdx(x)
			return true
		})
	case "invert":
		ast.Inspect(fd.Body, func(x ast.Node) bool {
			if s, ok := x.(*ast.IfStmt); ok && s.Else != nil {
				if b, ok := s.Else.(*ast.BlockStmt); ok {
					s.Cond = not(s.Cond)
					s.Else = s.Body
					s.Body = b
					r.n++
				}
			}
			return true
		})
	case "tmpcond":
		r.lists(fd.Body, func(l []ast.Stmt, _ bool) (o []ast.Stmt) {
			for _, s := range l {
				if i, ok := s.(*ast.IfStmt); ok && i.Init == nil {
					v := r.id("cond")
					o = append(o, &ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.DEFINE, Rhs: []ast.Expr{i.Cond}})
					i.Cond = ast.NewIdent(v.Name)
					r.n++
				}
				o = append(o, s)
			}
			return
		})
	case "opassign":
		ast.Inspect(fd.Body, func(x ast.Node) bool {
			if s, ok := x.(*ast.AssignStmt); ok && len(s.Lhs) == 1 && pure(s.Lhs[0]) {
				ops := map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL, token.QUO_ASSIGN: token.QUO, token.OR_ASSIGN: token.OR}
				if op, ok := ops[s.Tok]; ok {
					s.Tok = token.ASSIGN
					s.Rhs[0] = &ast.BinaryExpr{X: s.Lhs[0], Op: op, Y: &ast.ParenExpr{X: s.Rhs[0]}}
					r.n++
				}
			}
			return true
		})
	case "swapcmp":
		ast.Inspect(fd.Body, func(x ast.Node) bool {
			if b, ok := x.(*ast.BinaryExpr); ok && pure(b.X) && pure(b.Y) {
				sw := map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ, token.EQL: token.EQL, token.NEQ: token.NEQ}
				if op, ok := sw[b.Op]; ok {
					b.X, b.Y, b.Op = b.Y, b.X, op
					r.n++
				}
			}
			return true
		})
	case "swapsum":
		ast.Inspect(fd.Body, func(x ast.Node) bool {
			if b, ok := x.(*ast.BinaryExpr); ok && pure(b.X) && pure(b.Y) && (b.Op == token.ADD || b.Op == token.MUL) {
				if t, ok := r.typ(b).(*types.Basic); ok && t.Info()&types.IsInteger != 0 {
					b.X, b.Y = &ast.ParenExpr{X: b.Y}, &ast.ParenExpr{X: b.X}
					r.n++
				}
			}
			return true
		})
	case "demorgan":
		ast.Inspect(fd.Body, func(x ast.Node) bool {
			if s, ok := x.(*ast.IfStmt); ok {
				if b, ok := s.Cond.(*ast.BinaryExpr); ok && (b.Op == token.LAND || b.Op == token.LOR) {
					op := token.LOR
					if b.Op == token.LOR {
						op = token.LAND
					}
					s.Cond = &ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: &ast.BinaryExpr{X: &ast.ParenExpr{X: not(b.X)}, Op: op, Y: &ast.ParenExpr{X: not(b.Y)}}}}
					r.n++
				}
			}
			return true
		})
	case "splitand":
		ast.Inspect(fd.Body, func(x ast.Node) bool {
			if s, ok := x.(*ast.IfStmt); ok && s.Else == nil {
				if b, ok := s.Cond.(*ast.BinaryExpr); ok && b.Op == token.LAND {
					s.Cond = b.X
					s.Body = &ast.BlockStmt{List: []ast.Stmt{&ast.IfStmt{Cond: b.Y, Body: s.Body}}}
					r.n++
				}
			}
			return true
		})
	case "return":
		r.lists(fd.Body, func(l []ast.Stmt, _ bool) (o []ast.Stmt) {
			for _, s := range l {
				if rs, ok := s.(*ast.ReturnStmt); ok && len(rs.Results) > 0 {
					for k, e := range rs.Results {
						t := r.typ(e)
						if _, isT := t.(*types.Tuple); isT || t == nil {
							continue
						}
						if b, isB := t.(*types.Basic); isB && b.Info()&types.IsUntyped != 0 || r.pkg.TypesInfo.Types[e].Value != nil {
							continue
						}
						if _, isI := e.(*ast.Ident); isI {
							continue
						}
						if hasLit(e) {
							continue
						}
						v := r.id("res")
						o = append(o, &ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.DEFINE, Rhs: []ast.Expr{e}})
						rs.Results[k] = ast.NewIdent(v.Name)
						r.n++
					}
				}
				o = append(o, s)
			}
			return
		})
	case "early":
		if fd.Type.Results == nil && len(fd.Body.List) > 0 {
			if s, ok := fd.Body.List[len(fd.Body.List)-1].(*ast.IfStmt); ok && s.Init == nil && s.Else == nil {
				fd.Body.List = append(fd.Body.List[:len(fd.Body.List)-1], append([]ast.Stmt{&ast.IfStmt{Cond: not(s.Cond), Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ReturnStmt{}}}}}, s.Body.List...)...)
				r.n++
			}
		}
		ast.Inspect(fd.Body, func(x ast.Node) bool {
			var b *ast.BlockStmt
			switch y := x.(type) {
			case *ast.ForStmt:
				b = y.Body
			case *ast.RangeStmt:
				b = y.Body
			}
			if b != nil && len(b.List) > 0 {
				if s, ok := b.List[len(b.List)-1].(*ast.IfStmt); ok && s.Init == nil && s.Else == nil {
					b.List = append(b.List[:len(b.List)-1:len(b.List)-1], append([]ast.Stmt{&ast.IfStmt{Cond: not(s.Cond), Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}}}}, s.Body.List...)...)
					r.n++
				}
			}
			return true
		})
	case "elseflat": // if c {...return} else {...}  -> if c {...return}; ...
		r.lists(fd.Body, func(l []ast.Stmt, _ bool) (o []ast.Stmt) {
			for k, s := range l {
				o = append(o, s)
				if i, ok := s.(*ast.IfStmt); ok && i.Init == nil && i.Else != nil && k == len(l)-1 {
					if eb, ok := i.Else.(*ast.BlockStmt); ok && len(i.Body.List) > 0 {
						if _, isR := i.Body.List[len(i.Body.List)-1].(*ast.ReturnStmt); isR {
							i.Else = nil
							o = append(o, eb.List...)
							r.n++
						}
					}
				}
			}
			return
		})
	case "switch2if":
		r.lists(fd.Body, func(l []ast.Stmt, _ bool) (o []ast.Stmt) {
			for _, s := range l {
				if sw, ok := s.(*ast.SwitchStmt); ok {
					if n, ok := r.switchIf(sw); ok {
						o = append(o, n...)
						r.n++
						continue
					}
				}
				o = append(o, s)
			}
			return
		})
	case "if2switch":
		r.lists(fd.Body, func(l []ast.Stmt, _ bool) (o []ast.Stmt) {
			for _, s := range l {
				if i, ok := s.(*ast.IfStmt); ok && i.Else != nil && !has(i, func(x ast.Node) bool {
					b, ok := x.(*ast.BranchStmt)
					return ok && b.Tok == token.BREAK
				}) {
					sw := &ast.SwitchStmt{Init: i.Init, Body: &ast.BlockStmt{}}
					ok := true
					var cur ast.Stmt = i
					for cur != nil {
						switch y := cur.(type) {
						case *ast.IfStmt:
							if y.Init != nil && y != i {
								ok = false
							}
							sw.Body.List = append(sw.Body.List, &ast.CaseClause{List: []ast.Expr{y.Cond}, Body: y.Body.List})
							cur = y.Else
							continue
						case *ast.BlockStmt:
							sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: y.List})
						}
						cur = nil
					}
					if ok {
						o = append(o, sw)
						r.n++
						continue
					}
				}
				o = append(o, s)
			}
			return
		})
	case "while":
		r.lists(fd.Body, func(l []ast.Stmt, _ bool) (o []ast.Stmt) {
			for _, s := range l {
				if f, ok := s.(*ast.ForStmt); ok && f.Init != nil && f.Post != nil && !hasLit(f) && !has(f.Body, func(x ast.Node) bool {
					b, ok := x.(*ast.BranchStmt)
					return ok && (b.Tok == token.CONTINUE || b.Label != nil)
				}) {
					init := f.Init
					f.Body.List = append(f.Body.List, f.Post)
					f.Init, f.Post = nil, nil
					o = append(o, &ast.BlockStmt{List: []ast.Stmt{init, f}})
					r.n++
					continue
				}
				o = append(o, s)
			}
			return
		})
	case "condfn":
		ast.Inspect(fd.Body, func(x ast.Node) bool {
			if s, ok := x.(*ast.IfStmt); ok && s.Init == nil && !hasLit(s.Cond) {
				used, set, ok := r.free(nil, s.Cond)
				if !ok || len(used) == 0 || len(set) > 0 || !pure(s.Cond) {
					return true
				}
				pl, as, ok := r.params(used)
				if !ok {
					return true
				}
				name := r.id("check")
				r.helper(name, pl, &ast.FieldList{List: []*ast.Field{{Type: ast.NewIdent("bool")}}}, []ast.Stmt{&ast.ReturnStmt{Results: []ast.Expr{s.Cond}}})
				s.Cond = &ast.CallExpr{Fun: ast.NewIdent(name.Name), Args: as}
				r.n++
			}
			return true
		})
	case "loopfn", "loopinner":
		depth := 0
		var walk func(l []ast.Stmt) []ast.Stmt
		walk = func(l []ast.Stmt) (o []ast.Stmt) {
			for _, s := range l {
				isLoop := false
				switch s.(type) {
				case *ast.ForStmt, *ast.RangeStmt:
					isLoop = true
				}
				inner := has(s, func(x ast.Node) bool {
					if x == ast.Node(s) {
						return false
					}
					switch x.(type) {
					case *ast.ForStmt, *ast.RangeStmt:
						return true
					}
					return false
				})
				if isLoop && (what == "loopfn" || !inner) {
					if n, ok := r.extract("loop", []ast.Stmt{s}); ok {
						o = append(o, n)
						continue
					}
				}
				depth++
				switch y := s.(type) {
				case *ast.ForStmt:
					y.Body.List = walk(y.Body.List)
				case *ast.RangeStmt:
					y.Body.List = walk(y.Body.List)
				case *ast.IfStmt:
					y.Body.List = walk(y.Body.List)
					if b, ok := y.Else.(*ast.BlockStmt); ok {
						b.List = walk(b.List)
					}
				}
				depth--
				o = append(o, s)
			}
			return
		}
		fd.Body.List = walk(fd.Body.List)
	case "thenfn":
		ast.Inspect(fd.Body, func(x ast.Node) bool {
			if s, ok := x.(*ast.IfStmt); ok && len(s.Body.List) > 0 && !hasLit(fd) {
				for _, st := range s.Body.List {
					if has(st, func(x ast.Node) bool {
						b, ok := x.(*ast.BranchStmt)
						return ok && b != nil
					}) {
						return true
					}
				}
				if n, ok := r.extract("then", s.Body.List); ok {
					s.Body.List = []ast.Stmt{n}
					return false
				}
			}
			return true
		})
	case "tailfn", "tailfn3":
		b := fd.Body.List
		if len(b) < 4 {
			return
		}
		cut := len(b) / 2
		if what == "tailfn3" {
			cut = len(b) - 2
		}
		tail := b[cut:]
		if fd.Type.Results != nil {
			for _, f := range fd.Type.Results.List {
				for _, n := range f.Names {
					if n.Name != "_" {
						return
					}
				}
			}
		}
		if has(fd.Body, func(x ast.Node) bool {
			switch x.(type) {
			case *ast.DeferStmt, *ast.LabeledStmt:
				return true
			}
			return false
		}) {
			return
		}
		used, set, ok := r.free(tail, nil)
		if !ok || len(used) == 0 {
			return
		}
		if r.captured(set) {
			return
		}
		for _, v := range used {
			if strings.Contains(v.Type().String(), "sync.") {
				return
			}
		}
		pl, as, ok := r.params(used)
		if !ok {
			return
		}
		name := r.id("tail")
		call := &ast.CallExpr{Fun: ast.NewIdent(name.Name), Args: as}
		r.helper(name, pl, fd.Type.Results, append([]ast.Stmt{}, tail...))
		var st ast.Stmt = &ast.ReturnStmt{Results: []ast.Expr{call}}
		if fd.Type.Results == nil {
			st = &ast.ExprStmt{X: call}
		}
		fd.Body.List = append(b[:cut:cut], st)
		r.n++
	case "tmparg":
		r.lists(fd.Body, func(l []ast.Stmt, _ bool) (o []ast.Stmt) {
			for _, s := range l {
				var e ast.Expr
				switch y := s.(type) {
				case *ast.ExprStmt:
					e = y.X
				case *ast.AssignStmt:
					if len(y.Rhs) == 1 {
						e = y.Rhs[0]
					}
				}
				if c, ok := e.(*ast.CallExpr); ok && r.pkg.TypesInfo.Types[c.Fun].IsValue() {
					for k, a := range c.Args {
						switch a.(type) {
						case *ast.BinaryExpr, *ast.SelectorExpr, *ast.IndexExpr, *ast.SliceExpr:
						default:
							continue
						}
						tv := r.pkg.TypesInfo.Types[a]
						if !pure(a) || tv.Value != nil || !tv.IsValue() {
							continue
						}
						v := r.id("arg")
						o = append(o, &ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.DEFINE, Rhs: []ast.Expr{a}})
						c.Args[k] = ast.NewIdent(v.Name)
						r.n++
					}
				}
				o = append(o, s)
			}
			return
		})
	case "noop":
		r.lists(fd.Body, func(l []ast.Stmt, _ bool) (o []ast.Stmt) {
			for _, s := range l {
				o = append(o, s)
			}
			if len(o) > 0 {
				v := r.id("nop")
				o = append([]ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: "0"}}}, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{ast.NewIdent(v.Name)}}}, o...)
				r.n++
			}
			return
		})
	case "field": // fields read several times in a function which never sets them: kept in a variable
		r.fieldVars(fd)
	case "ifinit": // if err := f(); err != nil  ->  block with the statement before
		r.lists(fd.Body, func(l []ast.Stmt, _ bool) (o []ast.Stmt) {
			for _, s := range l {
				if i, ok := s.(*ast.IfStmt); ok && i.Init != nil {
					init := i.Init
					i.Init = nil
					o = append(o, &ast.BlockStmt{List: []ast.Stmt{init, i}})
					r.n++
					continue
				}
				o = append(o, s)
			}
			return
		})
	case "exprfn": // right sides of assignments computed by helpers
		ast.Inspect(fd.Body, func(x ast.Node) bool {
			s, ok := x.(*ast.AssignStmt)
			if !ok || len(s.Rhs) != 1 || len(s.Lhs) != 1 || s.Tok != token.ASSIGN && s.Tok != token.DEFINE {
				return true
			}
			e := s.Rhs[0]
			if _, ok := e.(*ast.BinaryExpr); !ok || !pure(e) || r.pkg.TypesInfo.Types[e].Value != nil {
				return true
			}
			used, _, ok := r.free(nil, e)
			if !ok || len(used) == 0 {
				return true
			}
			pl, as, ok := r.params(used)
			t, ok2 := r.typeExpr(r.typ(e))
			if !ok || !ok2 {
				return true
			}
			name := r.id("calc")
			r.helper(name, pl, &ast.FieldList{List: []*ast.Field{{Type: t}}}, []ast.Stmt{&ast.ReturnStmt{Results: []ast.Expr{e}}})
			s.Rhs[0] = &ast.CallExpr{Fun: ast.NewIdent(name.Name), Args: as}
			r.n++
			return true
		})
	case "vardecl": // x := e  ->  var x T = e
		r.lists(fd.Body, func(l []ast.Stmt, _ bool) (o []ast.Stmt) {
			for _, s := range l {
				if a, ok := s.(*ast.AssignStmt); ok && a.Tok == token.DEFINE && len(a.Lhs) == 1 && len(a.Rhs) == 1 {
					id := a.Lhs[0].(*ast.Ident)
					if o2 := r.pkg.TypesInfo.Defs[id]; o2 != nil {
						if t, ok := r.typeExpr(o2.Type()); ok {
							o = append(o, &ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{id}, Type: t, Values: a.Rhs}}}})
							r.n++
							continue
						}
					}
				}
				o = append(o, s)
			}
			return
		})
	case "varset": // x := e  ->  var x T; x = e
		r.lists(fd.Body, func(l []ast.Stmt, _ bool) (o []ast.Stmt) {
			for _, s := range l {
				if a, ok := s.(*ast.AssignStmt); ok && a.Tok == token.DEFINE && len(a.Lhs) == 1 && len(a.Rhs) == 1 && !hasLit(a.Rhs[0]) {
					id := a.Lhs[0].(*ast.Ident)
					if o2 := r.pkg.TypesInfo.Defs[id]; o2 != nil && !has(a.Rhs[0], func(n ast.Node) bool { q, is := n.(*ast.Ident); return is && q.Name == id.Name }) {
						if t, ok := r.typeExpr(o2.Type()); ok {
							o = append(o, &ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{ast.NewIdent(id.Name)}, Type: t}}}})
							a.Tok = token.ASSIGN
							r.n++
						}
					}
				}
				o = append(o, s)
			}
			return
		})
	case "incop": // i++ -> i += 1
		sub := func(s ast.Stmt) ast.Stmt {
			if x, ok := s.(*ast.IncDecStmt); ok {
				r.n++
				t := token.ADD_ASSIGN
				if x.Tok == token.DEC {
					t = token.SUB_ASSIGN
				}
				return &ast.AssignStmt{Lhs: []ast.Expr{x.X}, Tok: t, Rhs: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: "1"}}}
			}
			return s
		}
		r.lists(fd.Body, func(l []ast.Stmt, _ bool) (o []ast.Stmt) {
			for _, s := range l {
				o = append(o, sub(s))
			}
			return
		})
		ast.Inspect(fd.Body, func(x ast.Node) bool {
			if f, ok := x.(*ast.ForStmt); ok && f.Post != nil {
				f.Post = sub(f.Post)
			}
			return true
		})
	case "elsenest": // if c { ...return }; rest  ->  if c { ...return } else { rest }
		r.lists(fd.Body, func(l []ast.Stmt, _ bool) []ast.Stmt {
			for k := len(l) - 2; k >= 0; k-- {
				i, ok := l[k].(*ast.IfStmt)
				if !ok || i.Else != nil || len(i.Body.List) == 0 {
					continue
				}
				if _, ok := i.Body.List[len(i.Body.List)-1].(*ast.ReturnStmt); !ok {
					continue
				}
				if _, ok := l[len(l)-1].(*ast.ReturnStmt); !ok {
					return l
				}
				if i.Init != nil || has(&ast.BlockStmt{List: l[k+1:]}, func(n ast.Node) bool {
					switch n.(type) {
					case *ast.LabeledStmt:
						return true
					}
					return false
				}) {
					return l
				}
				i.Else = &ast.BlockStmt{List: append([]ast.Stmt{}, l[k+1:]...)}
				l = l[:k+1]
				r.n++
			}
			return l
		})
	case "reorder": // neighbouring definitions which have nothing to do with each other
		r.lists(fd.Body, func(l []ast.Stmt, _ bool) []ast.Stmt {
			o := append([]ast.Stmt{}, l...)
			def := func(s ast.Stmt) (*ast.Ident, ast.Expr) {
				a, ok := s.(*ast.AssignStmt)
				if !ok || len(a.Lhs) != 1 || len(a.Rhs) != 1 || a.Tok != token.DEFINE && a.Tok != token.ASSIGN || !pure(a.Rhs[0]) {
					return nil, nil
				}
				id, ok := a.Lhs[0].(*ast.Ident)
				if !ok || id.Name == "_" || a.Tok == token.ASSIGN && !r.local(r.pkg.TypesInfo.Uses[id]) {
					return nil, nil
				}
				if has(a.Rhs[0], func(n ast.Node) bool { // may panic
					switch x := n.(type) {
					case *ast.IndexExpr, *ast.SliceExpr, *ast.StarExpr, *ast.TypeAssertExpr:
						return true
					case *ast.BinaryExpr:
						return x.Op == token.QUO || x.Op == token.REM
					}
					return false
				}) {
					return nil, nil
				}
				return id, a.Rhs[0]
			}
			names := func(e ast.Expr, n string) bool {
				return has(e, func(x ast.Node) bool { q, is := x.(*ast.Ident); return is && q.Name == n })
			}
			for k := 0; k+1 < len(o); k++ {
				a, e := def(o[k])
				b, f := def(o[k+1])
				if a == nil || b == nil || a.Name == b.Name || names(e, b.Name) || names(f, a.Name) {
					continue
				}
				o[k], o[k+1] = o[k+1], o[k]
				r.n++
				k++
			}
			return o
		})
	case "constlit": // numbers in expressions get a name
		ast.Inspect(fd.Body, func(x ast.Node) bool {
			b, ok := x.(*ast.BinaryExpr)
			if !ok {
				return true
			}
			for _, q := range []*ast.Expr{&b.X, &b.Y} {
				if lit, ok := (*q).(*ast.BasicLit); ok && (lit.Kind == token.INT || lit.Kind == token.FLOAT) {
					name := r.id("konst")
					r.extra = append(r.extra, &ast.GenDecl{Tok: token.CONST, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{name}, Values: []ast.Expr{&ast.BasicLit{Kind: lit.Kind, Value: lit.Value}}}}})
					*q = ast.NewIdent(name.Name)
					r.n++
				}
			}
			return true
		})
	case "structset": // v := &T{a: x}  ->  v := &T{}; v.a = x
		r.lists(fd.Body, func(l []ast.Stmt, _ bool) (o []ast.Stmt) {
			for _, s := range l {
				o = append(o, s)
				a, ok := s.(*ast.AssignStmt)
				if !ok || a.Tok != token.DEFINE || len(a.Lhs) != 1 || len(a.Rhs) != 1 {
					continue
				}
				id := a.Lhs[0].(*ast.Ident)
				e := a.Rhs[0]
				if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.AND {
					e = u.X
				}
				cl, ok := e.(*ast.CompositeLit)
				if !ok || len(cl.Elts) == 0 {
					continue
				}
				if _, ok := cl.Elts[0].(*ast.KeyValueExpr); !ok {
					continue
				}
				if st, ok := r.typ(cl).Underlying().(*types.Struct); !ok || st == nil {
					continue
				}
				if has(cl, func(n ast.Node) bool { q, is := n.(*ast.Ident); return is && q.Name == id.Name }) {
					continue
				}
				for _, kv := range cl.Elts {
					x := kv.(*ast.KeyValueExpr)
					o = append(o, &ast.AssignStmt{Lhs: []ast.Expr{&ast.SelectorExpr{X: ast.NewIdent(id.Name), Sel: ast.NewIdent(x.Key.(*ast.Ident).Name)}}, Tok: token.ASSIGN, Rhs: []ast.Expr{x.Value}})
				}
				cl.Elts = nil
				r.n++
			}
			return
		})
	case "rangeval": // for i, v := range s  ->  for i := range s { v := s[i]
		ast.Inspect(fd.Body, func(x ast.Node) bool {
			f, ok := x.(*ast.RangeStmt)
			if !ok || f.Tok != token.DEFINE || f.Value == nil {
				return true
			}
			if _, ok := r.typ(f.X).Underlying().(*types.Slice); !ok {
				return true
			}
			xid, ok := f.X.(*ast.Ident)
			if !ok {
				return true
			}
			if has(f.Body, func(n ast.Node) bool {
				a, is := n.(*ast.AssignStmt)
				if !is {
					return false
				}
				for _, l := range a.Lhs {
					if ix, is := l.(*ast.IndexExpr); is {
						l = ix.X
					}
					if q, is := l.(*ast.Ident); is && q.Name == xid.Name {
						return true
					}
				}
				return false
			}) {
				return true
			}
			v := f.Value.(*ast.Ident)
			if v.Name == "_" || f.Key.(*ast.Ident).Name == "_" && false || r.pkg.TypesInfo.Defs[v] == nil {
				return true
			}
			if has(f.Body, func(n ast.Node) bool {
				a, is := n.(*ast.AssignStmt)
				if !is || a.Tok != token.DEFINE {
					return false
				}
				for _, l := range a.Lhs {
					if q, is := l.(*ast.Ident); is && q.Name == v.Name {
						return true
					}
				}
				return false
			}) {
				return true
			}
			k := f.Key.(*ast.Ident)
			if k.Name == "_" {
				k = r.id("idx")
				f.Key = k
			}
			f.Value = nil
			f.Body.List = append([]ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(v.Name)}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.IndexExpr{X: ast.NewIdent(xid.Name), Index: ast.NewIdent(k.Name)}}}}, f.Body.List...)
			r.n++
			return true
		})
	case "hoistlen": // for ...; i < len(x); ...  ->  n := len(x) before
		r.lists(fd.Body, func(l []ast.Stmt, _ bool) (o []ast.Stmt) {
			for _, s := range l {
				f, ok := s.(*ast.ForStmt)
				if ok && f.Cond != nil {
					if b, ok := f.Cond.(*ast.BinaryExpr); ok {
						if c, ok := b.Y.(*ast.CallExpr); ok && len(c.Args) == 1 {
							fn, ok := c.Fun.(*ast.Ident)
							x, ok2 := c.Args[0].(*ast.Ident)
							if ok && ok2 && fn.Name == "len" && !has(f.Body, func(n ast.Node) bool {
								a, is := n.(*ast.AssignStmt)
								if !is {
									return false
								}
								for _, l := range a.Lhs {
									if q, is := l.(*ast.Ident); is && q.Name == x.Name {
										return true
									}
								}
								return false
							}) {
								v := r.id("num")
								o = append(o, &ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.DEFINE, Rhs: []ast.Expr{c}})
								b.Y = ast.NewIdent(v.Name)
								r.n++
							}
						}
					}
				}
				o = append(o, s)
			}
			return
		})
	case "closurevar": // loops in a function kept in a variable
		done := map[ast.Stmt]bool{}
		r.lists(fd.Body, func(l []ast.Stmt, _ bool) (o []ast.Stmt) {
			for _, s := range l {
				switch s.(type) {
				case *ast.ForStmt, *ast.RangeStmt:
					if !jumps(s) && !done[s] {
						done[s] = true
						v := r.id("run")
						o = append(o, &ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{s}}}}},
							&ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent(v.Name)}})
						r.n++
						continue
					}
				}
				o = append(o, s)
			}
			return
		})
	case "closurebody": // bodies of loops over i in a function kept in a variable
		ast.Inspect(fd.Body, func(x ast.Node) bool {
			if b, ok := x.(*ast.BlockStmt); ok {
				var o []ast.Stmt
				for _, s := range b.List {
					if f, ok := s.(*ast.ForStmt); ok && f.Init != nil && !jumps(f.Body) {
						if a, ok := f.Init.(*ast.AssignStmt); ok && a.Tok == token.DEFINE && len(a.Lhs) == 1 {
							id := a.Lhs[0].(*ast.Ident)
							ob := r.pkg.TypesInfo.Defs[id]
							if ob != nil && !has(f.Body, func(n ast.Node) bool {
								switch y := n.(type) {
								case *ast.AssignStmt:
									for _, l := range y.Lhs {
										if q, is := l.(*ast.Ident); is && q.Name == id.Name {
											return true
										}
									}
								case *ast.IncDecStmt:
									q, is := y.X.(*ast.Ident)
									return is && q.Name == id.Name
								}
								return false
							}) {
								if t, ok := r.typeExpr(ob.Type()); ok {
									v := r.id("body")
									body := f.Body
									f.Body = &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent(v.Name), Args: []ast.Expr{ast.NewIdent(id.Name)}}}}}
									o = append(o, &ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{List: []*ast.Field{{Names: []*ast.Ident{ast.NewIdent(id.Name)}, Type: t}}}}, Body: body}}})
									r.n++
								}
							}
						}
					}
					o = append(o, s)
				}
				b.List = o
			}
			return true
		})
	case "gofn": // go func() {...}()  ->  go helper(...)
		set := map[types.Object]int{}
		ast.Inspect(fd, func(n ast.Node) bool {
			switch y := n.(type) {
			case *ast.AssignStmt:
				for _, l := range y.Lhs {
					if id, ok := l.(*ast.Ident); ok {
						set[r.pkg.TypesInfo.ObjectOf(id)]++
					}
				}
			case *ast.IncDecStmt:
				if id, ok := y.X.(*ast.Ident); ok {
					set[r.pkg.TypesInfo.ObjectOf(id)] += 2
				}
			case *ast.RangeStmt:
				for _, e := range []ast.Expr{y.Key, y.Value} {
					if id, ok := e.(*ast.Ident); ok {
						set[r.pkg.TypesInfo.ObjectOf(id)] += 2
					}
				}
			case *ast.ForStmt:
				if a, ok := y.Init.(*ast.AssignStmt); ok {
					for _, l := range a.Lhs {
						if id, ok := l.(*ast.Ident); ok {
							set[r.pkg.TypesInfo.ObjectOf(id)] += 2
						}
					}
				}
			}
			return true
		})
		ast.Inspect(fd.Body, func(x ast.Node) bool {
			g, ok := x.(*ast.GoStmt)
			if !ok {
				return true
			}
			lit, ok := g.Call.Fun.(*ast.FuncLit)
			if !ok || lit.Type.Results != nil {
				return true
			}
			used, _, ok := r.free(nil, lit)
			if !ok {
				fmt.Println("gofn: free", r.fset.Position(g.Pos()))
				return true
			}
			for _, v := range used {
				if set[v] > 1 {
					fmt.Println("gofn: changed", v.Name(), r.fset.Position(g.Pos()))
					return true
				}
				switch v.Type().Underlying().(type) {
				case *types.Struct, *types.Array:
					fmt.Println("gofn: struct", v.Name(), r.fset.Position(g.Pos()))
					return true
				}
			}
			pl, as, ok := r.params(used)
			if !ok {
				return true
			}
			name := r.id("worker")
			pl.List = append(pl.List, lit.Type.Params.List...)
			r.helper(name, pl, nil, lit.Body.List)
			g.Call = &ast.CallExpr{Fun: ast.NewIdent(name.Name), Args: append(as, g.Call.Args...)}
			r.n++
			return true
		})
	case "closure": // statements in a function called at once
		done := map[ast.Stmt]bool{}
		r.lists(fd.Body, func(l []ast.Stmt, _ bool) (o []ast.Stmt) {
			for _, s := range l {
				switch s.(type) {
				case *ast.ForStmt, *ast.RangeStmt:
					if !jumps(s) && !done[s] {
						done[s] = true
						o = append(o, &ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{s}}}}})
						r.n++
						continue
					}
				}
				o = append(o, s)
			}
			return
		})
	case "named": // results get names
		if fl := fd.Type.Results; fl != nil && len(fl.List) > 0 && len(fl.List[0].Names) == 0 {
			for _, f := range fl.List {
				f.Names = []*ast.Ident{r.id("out")}
			}
			r.n++
		}
	case "setret": // return e  ->  named result set, bare return
		if fl := fd.Type.Results; fl != nil && len(fl.List) > 0 && len(fl.List[0].Names) == 0 {
			var ns []string
			for _, f := range fl.List {
				v := r.id("out")
				f.Names = []*ast.Ident{v}
				ns = append(ns, v.Name)
			}
			var walk func(l []ast.Stmt) []ast.Stmt
			lits := map[ast.Node]bool{}
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				if fl, ok := n.(*ast.FuncLit); ok {
					ast.Inspect(fl, func(m ast.Node) bool {
						if m != nil {
							lits[m] = true
						}
						return true
					})
				}
				return true
			})
			walk = func(l []ast.Stmt) (o []ast.Stmt) {
				for _, s := range l {
					if rs, ok := s.(*ast.ReturnStmt); ok && len(rs.Results) > 0 && !lits[rs] {
						as := &ast.AssignStmt{Tok: token.ASSIGN, Rhs: rs.Results}
						for _, n := range ns {
							as.Lhs = append(as.Lhs, ast.NewIdent(n))
						}
						o = append(o, as, &ast.ReturnStmt{})
						continue
					}
					o = append(o, s)
				}
				return
			}
			r.lists(fd.Body, func(l []ast.Stmt, _ bool) []ast.Stmt { return walk(l) })
			r.n++
		}
	default:
		panic("unknown transformation")
	}
}

// names of local variables (renlocal), functions and methods which are not exported (renfunc), and fields which are not (renfield)
func (r *rw) rename(what string, pkgs []*packages.Package, skip map[string]bool) {
	keep := map[token.Pos]bool{}
	for _, p := range pkgs {
		for _, f := range p.Syntax {
			if !skip[r.fset.Position(f.Pos()).Filename] {
				continue
			}
			ast.Inspect(f, func(n ast.Node) bool {
				if id, ok := n.(*ast.Ident); ok {
					if o := p.TypesInfo.ObjectOf(id); o != nil {
						keep[o.Pos()] = true
					}
				}
				return true
			})
		}
	}
	want := func(o types.Object) bool {
		if o == nil || o.Pkg() == nil || !strings.HasPrefix(o.Pkg().Path(), "github.com/mlnoga") || keep[o.Pos()] {
			return false
		}
		switch x := o.(type) {
		case *types.Var:
			switch what {
			case "renlocal":
				return !x.IsField() && x.Parent() != x.Pkg().Scope() && x.Name() != "_" && x.Name() != ""
			case "renfield":
				return x.IsField() && !x.Exported() && !x.Embedded()
			case "renglobal":
				return !x.IsField() && x.Parent() == x.Pkg().Scope() && !x.Exported() && x.Name() != "_"
			}
		case *types.Func:
			return what == "renfunc" && !x.Exported() && x.Name() != "main" && x.Name() != "init"
		case *types.TypeName:
			return what == "rentype" && !x.Exported()
		}
		return false
	}
	at := map[token.Pos]bool{}
	for _, m := range []map[*ast.Ident]types.Object{r.pkg.TypesInfo.Defs, r.pkg.TypesInfo.Uses} {
		for _, o := range m {
			if want(o) {
				at[o.Pos()] = true
			}
		}
	}
	for n, o := range r.pkg.TypesInfo.Implicits {
		_ = n
		if want(o) {
			at[o.Pos()] = true
		}
	}
	ast.Inspect(r.file, func(n ast.Node) bool {
		id, ok := n.(*ast.Ident)
		if !ok || id.Name == "_" {
			return true
		}
		p := id.Pos()
		if o := r.pkg.TypesInfo.ObjectOf(id); o != nil {
			p = o.Pos()
			if !want(o) {
				return true
			}
		}
		if at[p] {
			q := r.fset.Position(p)
			h := 0
			for _, c := range q.Filename[strings.LastIndex(q.Filename, "/")+1:] {
				h = (h*31 + int(c)) % 9973
			}
			id.Name = fmt.Sprintf("q%dn%df%d", q.Line, q.Column, h)
			r.n++
		}
		return true
	})
}

func (r *rw) switchIf(sw *ast.SwitchStmt) ([]ast.Stmt, bool) {
	if sw.Init != nil || has(sw.Body, func(x ast.Node) bool {
		b, ok := x.(*ast.BranchStmt)
		return ok && (b.Tok == token.BREAK || b.Tok == token.FALLTHROUGH)
	}) {
		return nil, false
	}
	var pre []ast.Stmt
	tag := sw.Tag
	if tag != nil {
		if !pure(tag) || r.pkg.TypesInfo.Types[tag].Value != nil {
			return nil, false
		}
		v := r.id("tag")
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.DEFINE, Rhs: []ast.Expr{tag}})
		tag = ast.NewIdent(v.Name)
	}
	var first, last *ast.IfStmt
	var def *ast.BlockStmt
	for k, c := range sw.Body.List {
		cc := c.(*ast.CaseClause)
		if cc.List == nil {
			if k != len(sw.Body.List)-1 {
				return nil, false
			}
			def = &ast.BlockStmt{List: cc.Body}
			continue
		}
		var cond ast.Expr
		for _, e := range cc.List {
			q := e
			if tag != nil {
				q = &ast.BinaryExpr{X: tag, Op: token.EQL, Y: e}
			}
			if cond == nil {
				cond = q
			} else {
				cond = &ast.BinaryExpr{X: cond, Op: token.LOR, Y: q}
			}
		}
		i := &ast.IfStmt{Cond: cond, Body: &ast.BlockStmt{List: cc.Body}}
		if first == nil {
			first = i
		} else {
			last.Else = i
		}
		last = i
	}
	if first == nil {
		return nil, false
	}
	if def != nil {
		last.Else = def
	}
	return append(pre, first), true
}

func (r *rw) rangeIdx(x ast.Node) {
	set := func(l *[]ast.Stmt) {
		for k, s := range *l {
			rs, ok := s.(*ast.RangeStmt)
			if !ok || rs.Tok != token.DEFINE || hasLit(rs) || !pure(rs.X) {
				continue
			}
			switch rs.X.(type) {
			case *ast.Ident, *ast.SelectorExpr:
			default:
				continue
			}
			if _, ok := r.typ(rs.X).Underlying().(*types.Slice); !ok {
				continue
			}
			// the list, or its parts, set in the body
			base := rs.X
			root := ""
			for {
				if se, ok := base.(*ast.SelectorExpr); ok {
					base = se.X
					continue
				}
				if id, ok := base.(*ast.Ident); ok {
					root = id.Name
				}
				break
			}
			if root == "" || has(rs.Body, func(n ast.Node) bool {
				as, ok := n.(*ast.AssignStmt)
				if !ok {
					return false
				}
				for _, l := range as.Lhs {
					for {
						switch y := l.(type) {
						case *ast.SelectorExpr:
							l = y.X
							continue
						}
						break
					}
					if id, ok := l.(*ast.Ident); ok && id.Name == root {
						return true
					}
				}
				return false
			}) {
				continue
			}
			var idx *ast.Ident
			if id, ok := rs.Key.(*ast.Ident); ok && id.Name != "_" {
				idx = id
				// the index set in the body
				if has(rs.Body, func(n ast.Node) bool {
					as, ok := n.(*ast.AssignStmt)
					if ok {
						for _, l := range as.Lhs {
							if q, ok := l.(*ast.Ident); ok && q.Name == id.Name {
								return true
							}
						}
					}
					in, ok := n.(*ast.IncDecStmt)
					if ok {
						if q, ok := in.X.(*ast.Ident); ok && q.Name == id.Name {
							return true
						}
					}
					return false
				}) {
					continue
				}
			} else {
				idx = r.id("idx")
			}
			body := rs.Body.List
			if v, ok := rs.Value.(*ast.Ident); ok && v.Name != "_" {
				body = append([]ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.IndexExpr{X: rs.X, Index: ast.NewIdent(idx.Name)}}}}, body...)
			}
			(*l)[k] = &ast.ForStmt{
				Init: &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(idx.Name)}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: "0"}}},
				Cond: &ast.BinaryExpr{X: ast.NewIdent(idx.Name), Op: token.LSS, Y: &ast.CallExpr{Fun: ast.NewIdent("len"), Args: []ast.Expr{rs.X}}},
				Post: &ast.IncDecStmt{X: ast.NewIdent(idx.Name), Tok: token.INC},
				Body: &ast.BlockStmt{List: body},
			}
			r.n++
		}
	}
	switch y := x.(type) {
	case *ast.BlockStmt:
		set(&y.List)
	case *ast.CaseClause:
		set(&y.Body)
	}
}

// p.F of a parameter p never assigned to, F a number never set in the function, which calls nothing that could: only functions without calls
func (r *rw) fieldVars(fd *ast.FuncDecl) {
	if hasLit(fd.Body) {
		return
	}
	if has(fd.Body, func(x ast.Node) bool {
		switch y := x.(type) {
		case *ast.AssignStmt:
			for _, l := range y.Lhs {
				if _, ok := l.(*ast.SelectorExpr); ok {
					return true
				}
			}
		case *ast.IncDecStmt:
			_, ok := y.X.(*ast.SelectorExpr)
			return ok
		}
		return false
	}) {
		return
	}
	params := map[types.Object]bool{}
	lists := []*ast.FieldList{fd.Type.Params}
	if fd.Recv != nil {
		lists = append(lists, fd.Recv)
	}
	for _, fl := range lists {
		for _, f := range fl.List {
			for _, n := range f.Names {
				params[r.pkg.TypesInfo.ObjectOf(n)] = true
			}
		}
	}
	// only fields read in the first statement are known to be safe to read early
	first := map[string]bool{}
	count := map[string]int{}
	text := func(se *ast.SelectorExpr) (string, bool) {
		id, ok := se.X.(*ast.Ident)
		if !ok || !params[r.pkg.TypesInfo.ObjectOf(id)] {
			return "", false
		}
		sel := r.pkg.TypesInfo.Selections[se]
		if sel == nil || sel.Kind() != types.FieldVal {
			return "", false
		}
		if b, ok := sel.Type().Underlying().(*types.Basic); !ok || b.Info()&(types.IsNumeric|types.IsString|types.IsBoolean) == 0 {
			return "", false
		}
		return id.Name + "." + se.Sel.Name, true
	}
	for k, s := range fd.Body.List {
		ast.Inspect(s, func(x ast.Node) bool {
			if se, ok := x.(*ast.SelectorExpr); ok {
				if t, ok := text(se); ok {
					count[t]++
					if k == 0 {
						first[t] = true
					}
				}
			}
			return true
		})
	}
	var pre []ast.Stmt
	names := map[string]string{}
	var ts []string
	for t := range count {
		if count[t] > 1 && first[t] {
			ts = append(ts, t)
		}
	}
	sort.Strings(ts)
	for _, t := range ts {
		v := r.id("val")
		names[t] = v.Name
		p := strings.SplitN(t, ".", 2)
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.SelectorExpr{X: ast.NewIdent(p[0]), Sel: ast.NewIdent(p[1])}}})
		r.n++
	}
	if len(pre) == 0 {
		return
	}
	rep := func(e *ast.Expr) {
		if se, ok := (*e).(*ast.SelectorExpr); ok {
			if t, ok := text(se); ok && names[t] != "" {
				*e = ast.NewIdent(names[t])
			}
		}
	}
	ast.Inspect(fd.Body, func(x ast.Node) bool {
		switch y := x.(type) {
		case *ast.BinaryExpr:
			rep(&y.X)
			rep(&y.Y)
		case *ast.CallExpr:
			for k := range y.Args {
				rep(&y.Args[k])
			}
		case *ast.IndexExpr:
			rep(&y.Index)
		case *ast.ParenExpr:
			rep(&y.X)
		case *ast.UnaryExpr:
			if y.Op != token.AND {
				rep(&y.X)
			}
		case *ast.AssignStmt:
			for k := range y.Rhs {
				rep(&y.Rhs[k])
			}
		}
		return true
	})
	fd.Body.List = append(pre, fd.Body.List...)
}
