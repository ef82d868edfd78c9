package main

// Normalisation, continued: conditions kept in a variable (c := a && b; if c) are put back into the tests which use them. A short-circuit
// operator which is tested is a branch for each of its operands, while one which is kept is a value merged from two ways.

import (
	"go/ast"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/packages"
)

func shortCircuit(e ast.Expr) bool {
	for {
		switch x := e.(type) {
		case *ast.ParenExpr:
			e = x.X
			continue
		case *ast.UnaryExpr:
			if x.Op == token.NOT {
				e = x.X
				continue
			}
		case *ast.BinaryExpr:
			return x.Op == token.LAND || x.Op == token.LOR
		}
		return false
	}
}

// modified after its definition
func reassigned(info *types.Info, body ast.Node, o types.Object) bool {
	hit := false
	is := func(e ast.Expr) bool {
		for {
			p, ok := e.(*ast.ParenExpr)
			if !ok {
				break
			}
			e = p.X
		}
		id, ok := e.(*ast.Ident)
		return ok && info.Uses[id] == o
	}
	ast.Inspect(body, func(x ast.Node) bool {
		switch y := x.(type) {
		case *ast.AssignStmt:
			for _, l := range y.Lhs {
				hit = hit || is(l)
			}
		case *ast.IncDecStmt:
			hit = hit || is(y.X)
		case *ast.UnaryExpr:
			hit = hit || y.Op == token.AND && is(y.X)
		case *ast.RangeStmt:
			for _, e := range []ast.Expr{y.Key, y.Value} {
				if id, ok := e.(*ast.Ident); ok && (info.Uses[id] == o || info.Defs[id] == o) {
					hit = true
				}
			}
		case *ast.ForStmt: // shared by the iterations
			if a, ok := y.Init.(*ast.AssignStmt); ok {
				for _, l := range a.Lhs {
					if id, ok := l.(*ast.Ident); ok && info.Defs[id] == o {
						hit = true
					}
				}
			}
		}
		return !hit
	})
	return hit
}

// conversions may be moved as well
func movable(info *types.Info, e ast.Expr) bool {
	ok := true
	ast.Inspect(e, func(x ast.Node) bool {
		switch y := x.(type) {
		case *ast.CallExpr:
			if tv, is := info.Types[y.Fun]; is && tv.IsType() {
				return true
			}
			if id, is := y.Fun.(*ast.Ident); !is || (id.Name != "len" && id.Name != "cap") {
				ok = false
			}
		case *ast.FuncLit:
			ok = false
		case *ast.UnaryExpr:
			if y.Op == token.ARROW {
				ok = false
			}
		}
		return ok
	})
	return ok
}

func (n *normaliser) conditions() {
	eachDecl(n.ps, func(p *packages.Package, file *ast.File, d *ast.FuncDecl, o *types.Func) {
		if d.Body == nil {
			return
		}
		info := p.TypesInfo
		fname := n.fileOf(p, d.Pos())
		uses := map[types.Object][]*ast.Ident{}
		ast.Inspect(d.Body, func(x ast.Node) bool {
			if id, ok := x.(*ast.Ident); ok {
				if v, ok := info.Uses[id].(*types.Var); ok {
					uses[v] = append(uses[v], id)
				}
			}
			return true
		})
		// conditions, and where they are
		type cond struct {
			s  *ast.IfStmt
			at token.Pos
		}
		var conds []cond
		ast.Inspect(d.Body, func(x ast.Node) bool {
			if i, ok := x.(*ast.IfStmt); ok {
				conds = append(conds, cond{i, i.Pos()})
			}
			return true
		})
		inCond := func(id *ast.Ident) *ast.IfStmt {
			for _, c := range conds {
				if c.s.Cond.Pos() <= id.Pos() && id.End() <= c.s.Cond.End() {
					return c.s
				}
			}
			return nil
		}
		define := func(s ast.Stmt) (*types.Var, ast.Expr) {
			a, ok := s.(*ast.AssignStmt)
			if !ok || a.Tok != token.DEFINE || len(a.Lhs) != 1 || len(a.Rhs) != 1 {
				return nil, nil
			}
			id, ok := a.Lhs[0].(*ast.Ident)
			if !ok {
				return nil, nil
			}
			v, ok := info.Defs[id].(*types.Var)
			if !ok {
				return nil, nil
			}
			if b, ok := v.Type().(*types.Basic); !ok || b.Kind() != types.Bool {
				return nil, nil
			}
			return v, a.Rhs[0]
		}
		list := func(l []ast.Stmt) {
			for k, s := range l {
				v, e := define(s)
				if v == nil || !shortCircuit(e) || len(uses[v]) == 0 || reassigned(info, d.Body, v) {
					continue
				}
				us := uses[v]
				ok := false
				if len(us) == 1 {
					j := k + 1
					for j < len(l) {
						w, x := define(l[j])
						if w == nil || !movable(info, x) {
							break
						}
						j++
					}
					if j < len(l) {
						if i, is := l[j].(*ast.IfStmt); is && i.Init == nil && inCond(us[0]) == i {
							first := i.Cond
							for {
								if b, is := first.(*ast.BinaryExpr); is && (b.Op == token.LAND || b.Op == token.LOR) {
									first = b.X
								} else if q, is := first.(*ast.ParenExpr); is {
									first = q.X
								} else if q, is := first.(*ast.UnaryExpr); is && q.Op == token.NOT {
									first = q.X
								} else {
									break
								}
							}
							ok = movable(info, e) || j == k+1 && first == ast.Expr(us[0])
						}
					}
				}
				if !ok && movable(info, e) {
					// what it depends on never changes
					ok = true
					ast.Inspect(e, func(x ast.Node) bool {
						switch y := x.(type) {
						case *ast.SelectorExpr, *ast.IndexExpr, *ast.StarExpr:
							ok = false
						case *ast.Ident:
							switch w := info.Uses[y].(type) {
							case *types.Var:
								if w.Parent() == p.Types.Scope() || reassigned(info, d.Body, w) {
									ok = false
								}
								for _, u := range us {
									if sc := p.Types.Scope().Innermost(u.Pos()); sc == nil {
										ok = false
									} else if _, q := sc.LookupParent(w.Name(), u.Pos()); q != types.Object(w) {
										ok = false
									}
								}
							case *types.Const, *types.Nil, *types.Builtin, *types.TypeName, *types.PkgName:
							default:
								ok = false
							}
						}
						return ok
					})
					for _, u := range us {
						if inCond(u) == nil {
							ok = false
						}
					}
				}
				if !ok || !n.free(fname, n.off(p, s.Pos()), n.off(p, s.End())) {
					continue
				}
				for _, u := range us {
					if !n.free(fname, n.off(p, u.Pos()), n.off(p, u.End())) {
						ok = false
					}
				}
				if !ok {
					continue
				}
				// one at a time, as conditions may use each other
				for _, x := range l {
					if w, y := define(x); w != nil && w != v {
						for _, id := range uses[w] {
							if e.Pos() <= id.Pos() && id.End() <= e.End() && shortCircuit(y) {
								ok = false
							}
						}
					}
				}
				if !ok {
					continue
				}
				text := n.text(p, e.Pos(), e.End())
				n.add(fname, n.off(p, s.Pos()), n.off(p, s.End()), "")
				for _, u := range us {
					n.add(fname, n.off(p, u.Pos()), n.off(p, u.End()), n.line(p, e.Pos())+"("+text+")"+n.line(p, u.End()))
				}
			}
		}
		ast.Inspect(d.Body, func(x ast.Node) bool {
			switch y := x.(type) {
			case *ast.BlockStmt:
				list(y.List)
			case *ast.CaseClause:
				list(y.Body)
			case *ast.CommClause:
				list(y.Body)
			}
			return true
		})
	})
}
