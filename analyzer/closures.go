package main

// Normalisation, continued: functions without a name which are called where they are written (func() { ... }()), and ones kept in a
// variable which is only called as a statement, are replaced by their bodies.

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/packages"
)

// is there nothing in the body that a block of statements could not do
func plainBody(info *types.Info, b *ast.BlockStmt) bool {
	ok := true
	ast.Inspect(b, func(x ast.Node) bool {
		switch y := x.(type) {
		case *ast.FuncLit:
			return false
		case *ast.ReturnStmt, *ast.DeferStmt, *ast.LabeledStmt:
			ok = false
		case *ast.BranchStmt:
			ok = ok && y.Tok != token.GOTO && y.Label == nil
		case *ast.CallExpr:
			if id, is := y.Fun.(*ast.Ident); is && id.Name == "recover" {
				ok = false
			}
		}
		return ok
	})
	return ok
}

func (n *normaliser) closures() {
	eachDecl(n.ps, func(p *packages.Package, file *ast.File, d *ast.FuncDecl, o *types.Func) {
		if d.Body == nil {
			return
		}
		info := p.TypesInfo
		fname := n.fileOf(p, d.Pos())
		uses := map[types.Object][]*ast.Ident{}
		ast.Inspect(d.Body, func(x ast.Node) bool {
			if id, ok := x.(*ast.Ident); ok {
				if v, ok := info.Uses[id].(*types.Var); ok {
					uses[v] = append(uses[v], id)
				}
			}
			return true
		})
		calls := map[*ast.Ident]*ast.ExprStmt{} // called as a statement
		ast.Inspect(d.Body, func(x ast.Node) bool {
			es, ok := x.(*ast.ExprStmt)
			if !ok {
				return true
			}
			c, ok := es.X.(*ast.CallExpr)
			if !ok || c.Ellipsis.IsValid() {
				return true
			}
			if id, ok := c.Fun.(*ast.Ident); ok {
				calls[id] = es
			}
			lit, ok := c.Fun.(*ast.FuncLit)
			if !ok || len(c.Args) > 0 || lit.Type.Results.NumFields() > 0 || !plainBody(info, lit.Body) {
				return true
			}
			a, b := n.off(p, es.Pos()), n.off(p, lit.Body.Lbrace)
			e, f := n.off(p, lit.Body.Rbrace)+1, n.off(p, es.End())
			if n.free(fname, a, b) && n.free(fname, e, f) {
				n.add(fname, a, b, "")
				n.add(fname, e, f, "")
			}
			return true
		})
		list := func(l []ast.Stmt) {
			for _, s := range l {
				a, ok := s.(*ast.AssignStmt)
				if !ok || a.Tok != token.DEFINE || len(a.Lhs) != 1 || len(a.Rhs) != 1 {
					continue
				}
				lit, ok := a.Rhs[0].(*ast.FuncLit)
				id, ok2 := a.Lhs[0].(*ast.Ident)
				if !ok || !ok2 || lit.Type.Results.NumFields() > 0 || !plainBody(info, lit.Body) {
					continue
				}
				v, _ := info.Defs[id].(*types.Var)
				if v == nil || len(uses[v]) != 1 || reassigned(info, d.Body, v) {
					continue
				}
				u := uses[v][0]
				es := calls[u]
				if es == nil || lit.Pos() <= u.Pos() && u.Pos() < lit.End() {
					continue
				}
				c := es.X.(*ast.CallExpr)
				// names mean the same there
				sc := p.Types.Scope().Innermost(u.Pos())
				same := sc != nil
				ast.Inspect(lit, func(x ast.Node) bool {
					q, ok := x.(*ast.Ident)
					if !ok || !same {
						return same
					}
					w := info.Uses[q]
					if _, isP := w.(*types.PkgName); !isP && w != nil && w.Pkg() != nil && w.Pkg() != p.Types { // qualified
						return true
					}
					if w == nil || w.Parent() == nil || w.Pos().IsValid() && lit.Pos() <= w.Pos() && w.Pos() < lit.End() {
						return true
					}
					if fv, is := w.(*types.Var); is && fv.IsField() {
						return true
					}
					if _, r := sc.LookupParent(q.Name, u.Pos()); r != w {
						same = false
					}
					return same
				})
				if !same {
					continue
				}
				var names, typs []string
				for _, f := range lit.Type.Params.List {
					if _, is := f.Type.(*ast.Ellipsis); is {
						same = false
					}
					t := n.text(p, f.Type.Pos(), f.Type.End())
					if len(f.Names) == 0 {
						names, typs = append(names, "_"), append(typs, t)
					}
					for _, q := range f.Names {
						names, typs = append(names, q.Name), append(typs, t)
					}
				}
				if !same || len(names) != len(c.Args) {
					continue
				}
				var sb strings.Builder
				sb.WriteString("{ ")
				n.count++
				for k, g := range c.Args {
					fmt.Fprintf(&sb, "var arg__%d_%d %s = %s%s; ", n.count, k, typs[k], n.line(p, g.Pos()), n.text(p, g.Pos(), g.End()))
				}
				sb.WriteString("{ ")
				for k, q := range names {
					if q != "_" {
						fmt.Fprintf(&sb, "var %s %s = arg__%d_%d; _ = %s; ", q, typs[k], n.count, k, q)
					} else {
						fmt.Fprintf(&sb, "_ = arg__%d_%d; ", n.count, k)
					}
				}
				body := n.text(p, lit.Body.Lbrace, lit.Body.Rbrace+1)
				sb.WriteString(n.line(p, lit.Body.Lbrace) + body + " }}" + n.line(p, es.End()))
				x, y := n.off(p, s.Pos()), n.off(p, s.End())
				e, f := n.off(p, es.Pos()), n.off(p, es.End())
				if !n.free(fname, x, y) || !n.free(fname, e, f) || x <= e && e < y || e <= x && x < f {
					continue
				}
				n.add(fname, x, y, "")
				n.add(fname, e, f, sb.String())
			}
		}
		ast.Inspect(d.Body, func(x ast.Node) bool {
			switch y := x.(type) {
			case *ast.BlockStmt:
				list(y.List)
			case *ast.CaseClause:
				list(y.Body)
			case *ast.CommClause:
				list(y.Body)
			}
			return true
		})
	})
}

// functions kept in a variable that is only called become functions of the package, which get what they use as arguments
func (n *normaliser) lift() {
	eachDecl(n.ps, func(p *packages.Package, file *ast.File, d *ast.FuncDecl, o *types.Func) {
		if d.Body == nil || d.Type.TypeParams != nil {
			return
		}
		info := p.TypesInfo
		fname := n.fileOf(p, d.Pos())
		called := map[*ast.Ident]*ast.CallExpr{}
		uses := map[types.Object][]*ast.Ident{}
		ast.Inspect(d.Body, func(x ast.Node) bool {
			switch y := x.(type) {
			case *ast.Ident:
				if v, ok := info.Uses[y].(*types.Var); ok {
					uses[v] = append(uses[v], y)
				}
			case *ast.CallExpr:
				if id, ok := y.Fun.(*ast.Ident); ok && !y.Ellipsis.IsValid() {
					called[id] = y
				}
			}
			return true
		})
		try := func(s ast.Stmt) {
			a, ok := s.(*ast.AssignStmt)
			if !ok || a.Tok != token.DEFINE || len(a.Lhs) != 1 || len(a.Rhs) != 1 {
				return
			}
			lit, ok := a.Rhs[0].(*ast.FuncLit)
			id, ok2 := a.Lhs[0].(*ast.Ident)
			if !ok || !ok2 {
				return
			}
			v, _ := info.Defs[id].(*types.Var)
			if v == nil || len(uses[v]) == 0 || reassigned(info, d.Body, v) {
				return
			}
			for _, u := range uses[v] {
				if called[u] == nil || lit.Pos() <= u.Pos() && u.Pos() < lit.End() {
					return
				}
			}
			imports := map[string]string{}
			for _, i := range file.Imports {
				name := ""
				if i.Name != nil {
					name = i.Name.Name
				}
				imports[strings.Trim(i.Path.Value, `"`)] = name
			}
			good := true
			var caps []*types.Var
			seen := map[types.Object]bool{}
			ast.Inspect(lit, func(x ast.Node) bool {
				q, ok := x.(*ast.Ident)
				if !ok {
					return good
				}
				switch w := info.Uses[q].(type) {
				case *types.TypeName:
					if w.Pkg() == p.Types && w.Parent() != p.Types.Scope() {
						good = false
					}
				case *types.Const:
					if w.Pkg() == p.Types && w.Parent() != p.Types.Scope() && (w.Pos() < lit.Pos() || w.Pos() >= lit.End()) {
						good = false
					}
				case *types.Var:
					if w.IsField() || w.Parent() == nil || w.Pkg() != p.Types || w.Parent() == p.Types.Scope() || w.Pos() >= lit.Pos() && w.Pos() < lit.End() || seen[w] {
						return good
					}
					seen[w] = true
					if reassigned(info, lit, w) {
						good = false
					}
					// what is in an array or structure is changed in the copy only
					switch w.Type().Underlying().(type) {
					case *types.Array, *types.Struct:
						good = false
					}
					caps = append(caps, w)
				}
				return good
			})
			if !good {
				return
			}
			var extra, args []string
			for _, w := range caps {
				t := types.TypeString(w.Type(), func(q *types.Package) string {
					if q == p.Types {
						return ""
					}
					name, is := imports[q.Path()]
					if !is || name == "." || name == "_" {
						good = false
					}
					if name == "" {
						name = q.Name()
					}
					return name
				})
				if p.Types.Scope().Lookup(t) == nil && strings.Contains(t, "struct{") {
					good = false
				}
				extra = append(extra, w.Name()+" "+t)
				args = append(args, w.Name())
				for _, u := range uses[v] {
					if sc := p.Types.Scope().Innermost(u.Pos()); sc == nil {
						good = false
					} else if _, r := sc.LookupParent(w.Name(), u.Pos()); r != types.Object(w) {
						good = false
					}
				}
			}
			for _, f := range lit.Type.Params.List {
				if _, is := f.Type.(*ast.Ellipsis); is || len(f.Names) == 0 {
					good = false
				}
			}
			x, y := n.off(p, s.Pos()), n.off(p, s.End())
			if !good || !n.free(fname, x, y) {
				return
			}
			n.count++
			name := fmt.Sprintf("%s__%d", id.Name, n.count)
			for _, w := range caps {
				if w.Name() == name {
					return
				}
			}
			for _, u := range uses[v] {
				c := called[u]
				if !n.free(fname, n.off(p, c.Pos()), n.off(p, c.End())) {
					return
				}
			}
			for _, u := range uses[v] {
				c := called[u]
				n.add(fname, n.off(p, u.Pos()), n.off(p, u.End()), name)
				if len(args) > 0 {
					t := strings.Join(args, ", ")
					if len(c.Args) > 0 {
						t += ", "
					}
					n.add(fname, n.off(p, c.Lparen)+1, n.off(p, c.Lparen)+1, t+n.line(p, c.Lparen+1))
				}
			}
			n.add(fname, x, y, "")
			params := n.text(p, lit.Type.Params.Opening+1, lit.Type.Params.Closing)
			if len(extra) > 0 {
				t := strings.Join(extra, ", ")
				if len(lit.Type.Params.List) > 0 {
					t += ", "
				}
				params = t + params
			}
			res := ""
			if lit.Type.Results != nil {
				res = n.text(p, lit.Type.Results.Pos(), lit.Type.Results.End())
			}
			end := n.off(p, d.End())
			n.add(fname, end, end, "\nfunc "+name+"("+params+") "+res+" "+n.line(p, lit.Body.Lbrace)+n.text(p, lit.Body.Lbrace, lit.Body.Rbrace+1)+n.line(p, d.End()))
		}
		ast.Inspect(d.Body, func(x ast.Node) bool {
			if s, ok := x.(ast.Stmt); ok {
				try(s)
			}
			return true
		})
	})
}
