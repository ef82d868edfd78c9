package main

// Normalisation: functions that are not part of the reference list of function names (a helper somebody extracted) are
// expanded in their callers before the program is analysed, so that rules judge what a function does and not into how
// many pieces it was cut. The expansion happens on source text held in memory; /repo is not touched. If an expansion
// is not possible, or the result does not type-check, the call is left as it is.

import (
	_ "embed"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
)

//go:embed baseline.txt
var baselineText string

func loadTyped(repo string, overlay map[string][]byte) ([]*packages.Package, error) {
	cfg := &packages.Config{Dir: repo, Mode: loadMode, Env: os.Environ(), Overlay: overlay}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	for _, p := range ps {
		for _, e := range p.Errors {
			// the empty blockly submodule makes the web embed pattern unmatched; types are unaffected
			if strings.Contains(e.Msg, "pattern") && strings.Contains(e.Msg, "embed") || strings.Contains(e.Msg, "no matching files") || strings.Contains(e.Msg, "contains no embeddable files") {
				continue
			}
			return nil, fmt.Errorf("%s: %s", p.PkgPath, e)
		}
		if p.Types == nil || p.TypesInfo == nil {
			return nil, fmt.Errorf("%s: no type information", p.PkgPath)
		}
	}
	return ps, nil
}

func sigString(o *types.Func) string {
	sig := o.Type().(*types.Signature)
	var s []string
	for i := 0; i < sig.Params().Len(); i++ {
		s = append(s, types.TypeString(sig.Params().At(i).Type(), nil))
	}
	s = append(s, ">")
	for i := 0; i < sig.Results().Len(); i++ {
		s = append(s, types.TypeString(sig.Results().At(i).Type(), nil))
	}
	return strings.Join(s, ",")
}

func declKey(o *types.Func) string {
	sig := o.Type().(*types.Signature)
	r := ""
	if sig.Recv() != nil {
		if n, ok := deref(sig.Recv().Type()).(*types.Named); ok {
			r = n.Obj().Name() + "."
		}
	}
	return o.Pkg().Path() + "\t" + r + o.Name()
}

func eachDecl(ps []*packages.Package, f func(p *packages.Package, file *ast.File, d *ast.FuncDecl, o *types.Func)) {
	for _, p := range ps {
		for _, file := range p.Syntax {
			for _, d := range file.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Body == nil {
					continue
				}
				if o, ok := p.TypesInfo.Defs[fd.Name].(*types.Func); ok {
					f(p, file, fd, o)
				}
			}
		}
	}
}

func printBaseline(repo string) error {
	ps, err := loadTyped(repo, nil)
	if err != nil {
		return err
	}
	seen := map[string]bool{}
	eachDecl(ps, func(p *packages.Package, file *ast.File, d *ast.FuncDecl, o *types.Func) {
		seen[declKey(o)+"\t"+sigString(o)] = true
	})
	var l []string
	for k := range seen {
		l = append(l, k)
	}
	sort.Strings(l)
	fmt.Println(strings.Join(l, "\n"))
	return nil
}

type helper struct {
	p    *packages.Package
	file *ast.File
	d    *ast.FuncDecl
	o    *types.Func
	key  string
}

type tedit struct {
	a, b int
	s    string
}

type normaliser struct {
	repo    string
	ps      []*packages.Package
	overlay map[string][]byte
	count   int
	labels  map[token.Pos]string
	edits   map[string][]tedit
	notes   []string
	left    map[string]bool // helpers that cannot be expanded everywhere
	base    map[string]string
}

// expanded source of the files of the module, keyed by file name, and the packages type-checked from it
func normalise(repo string) ([]*packages.Package, map[string][]byte, []string, error) {
	ps, err := loadTyped(repo, nil)
	if err != nil {
		return nil, nil, nil, err
	}
	n := &normaliser{repo: repo, ps: ps, overlay: map[string][]byte{}, left: map[string]bool{}, base: map[string]string{}}
	if f := os.Getenv("VERIF_BASELINE"); f != "" { // to try out the expansion itself
		b, _ := os.ReadFile(f)
		baselineText = string(b)
	}
	for _, l := range strings.Split(baselineText, "\n") {
		if f := strings.Split(l, "\t"); len(f) == 3 {
			n.base[f[0]+"\t"+f[1]] = f[2]
		}
	}
	for round := 0; round < 4; round++ {
		n.edits = map[string][]tedit{}
		n.lift()
		if len(n.edits) == 0 {
			break
		}
		over := map[string][]byte{}
		for k, v := range n.overlay {
			over[k] = v
		}
		for file, es := range n.edits {
			over[file] = []byte(applyEdits(n.source(file), es))
		}
		ps, err := loadTyped(repo, over)
		if err != nil {
			n.notes = append(n.notes, "making functions of the package of local ones does not type-check and was dropped: "+err.Error())
			break
		}
		n.ps, n.overlay = ps, over
	}
	for round := 0; round < 12; round++ {
		hs := n.helpers()
		if len(hs) == 0 {
			break
		}
		n.edits = map[string][]tedit{}
		n.labels = map[token.Pos]string{}
		for _, h := range hs {
			n.expandAll(h)
		}
		if len(n.edits) == 0 {
			break
		}
		over := map[string][]byte{}
		for k, v := range n.overlay {
			over[k] = v
		}
		for file, es := range n.edits {
			over[file] = []byte(applyEdits(n.source(file), es))
		}
		ps, err := loadTyped(repo, over)
		if err != nil {
			if os.Getenv("VERIF_INLINE") != "" {
				fmt.Println("inline:", err)
				for k, v := range over {
					os.WriteFile("/tmp/inl_"+filepath.Base(k), v, 0644)
				}
			}
			n.notes = append(n.notes, "an expansion of helper functions does not type-check and was dropped: "+err.Error())
			break
		}
		n.ps, n.overlay = ps, over
	}
	for round := 0; round < 10; round++ {
		n.edits = map[string][]tedit{}
		if round%2 == 0 {
			n.closures()
			if len(n.edits) == 0 {
				n.conditions()
			}
		} else {
			n.conditions()
			if len(n.edits) == 0 {
				n.closures()
			}
		}
		if len(n.edits) == 0 {
			break
		}
		over := map[string][]byte{}
		for k, v := range n.overlay {
			over[k] = v
		}
		for file, es := range n.edits {
			over[file] = []byte(applyEdits(n.source(file), es))
		}
		ps, err := loadTyped(repo, over)
		if err != nil {
			n.notes = append(n.notes, "putting conditions and function literals where they are used does not type-check and was dropped: "+err.Error())
			break
		}
		n.ps, n.overlay = ps, over
	}
	if d := os.Getenv("VERIF_INLINE"); d != "" {
		for k, v := range n.overlay {
			if rel, err := filepath.Rel(repo, k); err == nil && filepath.IsAbs(d) {
				os.WriteFile(filepath.Join(d, rel), v, 0644)
			}
		}
	}
	return n.ps, n.overlay, n.notes, nil
}

func (n *normaliser) source(file string) string {
	if b, ok := n.overlay[file]; ok {
		return string(b)
	}
	b, _ := os.ReadFile(file)
	return string(b)
}

func applyEdits(src string, es []tedit) string {
	sort.SliceStable(es, func(i, j int) bool { return es[i].a < es[j].a })
	var sb strings.Builder
	at := 0
	for _, e := range es {
		if e.a < at {
			continue
		}
		sb.WriteString(src[at:e.a])
		sb.WriteString(e.s)
		at = e.b
	}
	sb.WriteString(src[at:])
	return sb.String()
}

// functions that are not in the reference list, do not call another such function, and are not renamed ones
func (n *normaliser) helpers() []*helper {
	var all []*helper
	present := map[string]bool{}
	eachDecl(n.ps, func(p *packages.Package, file *ast.File, d *ast.FuncDecl, o *types.Func) {
		k := declKey(o)
		present[k] = true
		if _, ok := n.base[k]; ok || o.Name() == "init" || o.Name() == "main" || o.Name() == "_" || n.left[k] {
			return
		}
		all = append(all, &helper{p, file, d, o, k})
	})
	var news []*helper
	isNew := map[types.Object]bool{}
	for _, h := range all {
		renamed := false
		pkg := h.key[:strings.Index(h.key, "\t")]
		recv := h.key[len(pkg)+1:]
		recv = recv[:strings.LastIndex(recv, ".")+1]
		for k, sig := range n.base {
			if !present[k] && strings.HasPrefix(k, pkg+"\t"+recv) && (recv != "" || !strings.Contains(k[len(pkg):], ".")) && sig == sigString(h.o) {
				renamed = true
			}
		}
		if h.o.Type().(*types.Signature).TypeParams() != nil {
			renamed = true
		}
		// an interface method implemented by it may be called through the interface
		if recv != "" && ast.IsExported(h.o.Name()) {
			renamed = true
		}
		if !renamed {
			news = append(news, h)
			isNew[h.o] = true
		}
	}
	var res []*helper
	for _, h := range news {
		leaf := true
		ast.Inspect(h.d.Body, func(x ast.Node) bool {
			if id, ok := x.(*ast.Ident); ok && isNew[h.p.TypesInfo.Uses[id]] {
				leaf = false
			}
			return leaf
		})
		if leaf {
			res = append(res, h)
		}
	}
	return res
}

// ---- one expansion

type expansion struct {
	n      *normaliser
	h      *helper
	src    string
	tf     *token.File
	suffix string
	ids    []tedit // renamed identifiers
}

func (n *normaliser) off(p *packages.Package, pos token.Pos) int {
	return p.Fset.PositionFor(pos, false).Offset
}

func (n *normaliser) fileOf(p *packages.Package, pos token.Pos) string {
	return p.Fset.PositionFor(pos, false).Filename
}

func (n *normaliser) line(p *packages.Package, pos token.Pos) string {
	q := p.Fset.Position(pos)
	c := q.Column
	if c < 1 {
		c = 1
	}
	return fmt.Sprintf("/*line %s:%d:%d*/", q.Filename, q.Line, c)
}

func (n *normaliser) text(p *packages.Package, a, b token.Pos) string {
	return n.source(n.fileOf(p, a))[n.off(p, a):n.off(p, b)]
}

func paramIdents(ft *ast.FuncType) (ids []*ast.Ident, tys []ast.Expr) {
	for _, f := range ft.Params.List {
		if len(f.Names) == 0 {
			ids, tys = append(ids, nil), append(tys, f.Type)
		}
		for _, nm := range f.Names {
			ids, tys = append(ids, nm), append(tys, f.Type)
		}
	}
	return
}

// is the variable assigned to, or its address taken, in the body?
func modified(info *types.Info, body ast.Node, o types.Object) bool {
	hit := false
	is := func(e ast.Expr) bool {
		for {
			if p, ok := e.(*ast.ParenExpr); ok {
				e = p.X
				continue
			}
			break
		}
		id, ok := e.(*ast.Ident)
		return ok && (info.Uses[id] == o || info.Defs[id] == o)
	}
	ast.Inspect(body, func(x ast.Node) bool {
		switch y := x.(type) {
		case *ast.AssignStmt:
			for _, l := range y.Lhs {
				if is(l) {
					hit = true
				}
			}
		case *ast.IncDecStmt:
			if is(y.X) {
				hit = true
			}
		case *ast.UnaryExpr:
			if y.Op == token.AND && is(y.X) {
				hit = true
			}
		case *ast.RangeStmt:
			if y.Key != nil && is(y.Key) || y.Value != nil && is(y.Value) {
				hit = true
			}
		}
		return !hit
	})
	return hit
}

// free identifiers of the helper must mean the same at the place of the call; returns imports to be added
func (n *normaliser) capture(h *helper, p *packages.Package, file *ast.File, at token.Pos) (imports map[string]string, ok bool) {
	imports = map[string]string{}
	scope := p.Types.Scope().Innermost(at)
	if scope == nil {
		return nil, false
	}
	ok = true
	sel := map[*ast.Ident]bool{}
	check := func(id *ast.Ident) {
		o := h.p.TypesInfo.Uses[id]
		if o == nil || sel[id] {
			return
		}
		if pn, is := o.(*types.PkgName); is {
			_, q := scope.LookupParent(id.Name, at)
			if q == nil {
				imports[id.Name] = pn.Imported().Path()
				return
			}
			if qn, is := q.(*types.PkgName); !is || qn.Imported() != pn.Imported() {
				ok = false
			}
			return
		}
		if o.Parent() == h.p.Types.Scope() || o.Parent() == types.Universe {
			_, q := scope.LookupParent(id.Name, at)
			if q != o {
				ok = false
			}
		}
	}
	visit := func(x ast.Node) bool {
		switch y := x.(type) {
		case *ast.SelectorExpr:
			sel[y.Sel] = true
		case *ast.Ident:
			check(y)
		}
		return true
	}
	ast.Inspect(h.d.Type, visit)
	if h.d.Recv != nil {
		ast.Inspect(h.d.Recv, visit)
	}
	ast.Inspect(h.d.Body, visit)
	return imports, ok
}

func (n *normaliser) newExpansion(h *helper, subst map[types.Object]string) *expansion {
	n.count++
	x := &expansion{n: n, h: h, suffix: "__" + strconv.Itoa(n.count)}
	x.src = n.source(n.fileOf(h.p, h.d.Pos()))
	lo, hi := h.d.Pos(), h.d.End()
	info := h.p.TypesInfo
	tsw := map[*ast.Ident]bool{}
	sel := map[*ast.Ident]bool{}
	ast.Inspect(h.d, func(y ast.Node) bool {
		switch z := y.(type) {
		case *ast.TypeSwitchStmt:
			if a, ok := z.Assign.(*ast.AssignStmt); ok {
				if id, ok := a.Lhs[0].(*ast.Ident); ok {
					tsw[id] = true
				}
			}
		case *ast.SelectorExpr:
			sel[z.Sel] = true
		case *ast.KeyValueExpr:
		case *ast.Ident:
			if z == h.d.Name || z.Name == "_" || sel[z] {
				return true
			}
			o := info.Uses[z]
			if o == nil {
				o = info.Defs[z]
			}
			if v, ok := o.(*types.Var); ok && v.IsField() {
				return true
			}
			local := tsw[z] || o != nil && o.Pos() >= lo && o.Pos() < hi
			if _, ok := o.(*types.Func); ok {
				local = false
			}
			if !local {
				return true
			}
			s := z.Name + x.suffix
			if t, ok := subst[o]; ok && o != nil {
				s = t
			}
			a := n.off(h.p, z.Pos())
			x.ids = append(x.ids, tedit{a, a + len(z.Name), s})
		}
		return true
	})
	sort.Slice(x.ids, func(i, j int) bool { return x.ids[i].a < x.ids[j].a })
	return x
}

func (x *expansion) render(a, b token.Pos) string {
	lo, hi := x.n.off(x.h.p, a), x.n.off(x.h.p, b)
	var es []tedit
	for _, e := range x.ids {
		if e.a >= lo && e.b <= hi {
			es = append(es, tedit{e.a - lo, e.b - lo, e.s})
		}
	}
	return applyEdits(x.src[lo:hi], es)
}

func returnsOf(body *ast.BlockStmt) (res []*ast.ReturnStmt) {
	ast.Inspect(body, func(y ast.Node) bool {
		switch z := y.(type) {
		case *ast.FuncLit:
			return false
		case *ast.ReturnStmt:
			res = append(res, z)
		}
		return true
	})
	return
}

func hasDefer(body *ast.BlockStmt) bool {
	hit := false
	ast.Inspect(body, func(y ast.Node) bool {
		switch z := y.(type) {
		case *ast.FuncLit:
			return false
		case *ast.DeferStmt:
			hit = true
		case *ast.CallExpr:
			if id, ok := z.Fun.(*ast.Ident); ok && id.Name == "recover" {
				hit = true
			}
		}
		return true
	})
	return hit
}

// the statements of the helper, every return replaced
func (x *expansion) body(ret func(r *ast.ReturnStmt, last bool) string) string {
	b := x.h.d.Body
	var sb strings.Builder
	at := b.Lbrace + 1
	sb.WriteString(x.n.line(x.h.p, at))
	for _, r := range returnsOf(b) {
		sb.WriteString(x.render(at, r.Pos()))
		last := len(b.List) > 0 && b.List[len(b.List)-1] == ast.Stmt(r)
		sb.WriteString(ret(r, last))
		sb.WriteString(x.n.line(x.h.p, r.End()))
		at = r.End()
	}
	sb.WriteString(x.render(at, b.Rbrace))
	sb.WriteString("\n")
	return sb.String()
}

// ---- the places of use

type useSite struct {
	p     *packages.Package
	file  *ast.File
	id    *ast.Ident
	stack []ast.Node // from the file down to the identifier
}

func (n *normaliser) uses(h *helper) (res []*useSite) {
	for _, p := range n.ps {
		for _, file := range p.Syntax {
			var stack []ast.Node
			ast.Inspect(file, func(x ast.Node) bool {
				if x == nil {
					stack = stack[:len(stack)-1]
					return true
				}
				stack = append(stack, x)
				if id, ok := x.(*ast.Ident); ok && p.TypesInfo.Uses[id] == h.o {
					res = append(res, &useSite{p, file, id, append([]ast.Node{}, stack...)})
				}
				return true
			})
		}
	}
	return
}

func (n *normaliser) add(file string, a, b int, s string) {
	n.edits[file] = append(n.edits[file], tedit{a, b, s})
}

func (n *normaliser) free(file string, a, b int) bool {
	for _, e := range n.edits[file] {
		if a < e.b && e.a < b || e.a == a && e.b > e.a || e.a == e.b && e.a > a && e.a < b {
			return false
		}
	}
	return true
}

func (n *normaliser) expandAll(h *helper) {
	us := n.uses(h)
	if len(us) == 0 {
		// nothing refers to it: not part of the program
		n.remove(h)
		return
	}
	for _, u := range us {
		if u.p != h.p {
			n.left[h.key] = true
			return
		}
		imports, ok := n.capture(h, u.p, u.file, u.id.Pos())
		if !ok {
			n.left[h.key] = true
			return
		}
		done := n.expandUse(h, u)
		switch done {
		case "no":
			n.left[h.key] = true
			if os.Getenv("VERIF_INLINE") != "" {
				fmt.Println("inline: cannot expand", h.key, "at", u.p.Fset.Position(u.id.Pos()))
			}
		case "yes":
			for name, path := range imports {
				a := n.off(u.p, u.file.Name.End())
				s := fmt.Sprintf("; import %s %q", name, path)
				file := n.fileOf(u.p, u.file.Name.End())
				dup := false
				for _, e := range n.edits[file] {
					if e.a == a && e.s == s {
						dup = true
					}
				}
				if !dup {
					n.add(file, a, a, s)
				}
			}
		}
	}
}

// drops the declaration, keeping its imports in use
func (n *normaliser) remove(h *helper) {
	if h.o.Exported() {
		n.left[h.key] = true
		return
	}
	keep := map[string]string{}
	ast.Inspect(h.d, func(x ast.Node) bool {
		s, ok := x.(*ast.SelectorExpr)
		if !ok {
			return true
		}
		id, ok := s.X.(*ast.Ident)
		if !ok {
			return true
		}
		if _, ok := h.p.TypesInfo.Uses[id].(*types.PkgName); ok {
			switch h.p.TypesInfo.Uses[s.Sel].(type) {
			case *types.TypeName:
				keep[id.Name] = "var _ " + id.Name + "." + s.Sel.Name
			default:
				keep[id.Name] = "var _ = " + id.Name + "." + s.Sel.Name
			}
		}
		return true
	})
	var l []string
	for _, v := range keep {
		l = append(l, v)
	}
	sort.Strings(l)
	file := n.fileOf(h.p, h.d.Pos())
	a, b := n.off(h.p, h.d.Pos()), n.off(h.p, h.d.End())
	if n.free(file, a, b) {
		n.add(file, a, b, strings.Join(l, "\n")+"\n"+n.line(h.p, h.d.End()))
	}
}

func stripParens(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func pureExpr(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.Ident, *ast.BasicLit:
		return true
	case *ast.SelectorExpr:
		return pureExpr(x.X)
	case *ast.ParenExpr:
		return pureExpr(x.X)
	case *ast.IndexExpr:
		return pureExpr(x.X) && pureExpr(x.Index)
	case *ast.UnaryExpr:
		return x.Op != token.ARROW && pureExpr(x.X)
	case *ast.StarExpr:
		return pureExpr(x.X)
	case *ast.BinaryExpr:
		return pureExpr(x.X) && pureExpr(x.Y)
	case *ast.CallExpr:
		id, ok := x.Fun.(*ast.Ident)
		return ok && (id.Name == "len" || id.Name == "cap") && len(x.Args) == 1 && pureExpr(x.Args[0])
	}
	return false
}

// parameter declarations and substitutions for a call
func (n *normaliser) bind(h *helper, u *useSite, call *ast.CallExpr, recvX ast.Expr) (subst map[types.Object]string, decls func(x *expansion) string, ok bool) {
	subst = map[types.Object]string{}
	sig := h.o.Type().(*types.Signature)
	if sig.Variadic() || call.Ellipsis.IsValid() {
		return nil, nil, false
	}
	ids, tys := paramIdents(h.d.Type)
	if len(ids) != len(call.Args) {
		return nil, nil, false // f(g()) with several results
	}
	type par struct {
		id  *ast.Ident
		ty  ast.Expr
		arg string
	}
	var ps []par
	one := func(id *ast.Ident, ty ast.Expr, argX ast.Expr, arg string) {
		if id != nil && id.Name != "_" {
			o := h.p.TypesInfo.Defs[id]
			used := false
			ast.Inspect(h.d.Body, func(x ast.Node) bool {
				if y, ok := x.(*ast.Ident); ok && h.p.TypesInfo.Uses[y] == o {
					used = true
				}
				return true
			})
			if o != nil && used && !modified(h.p.TypesInfo, h.d.Body, o) {
				e := stripParens(argX)
				if ai, ok := e.(*ast.Ident); ok && arg == ai.Name {
					ao := u.p.TypesInfo.Uses[ai]
					if v, ok := ao.(*types.Var); ok && types.Identical(v.Type(), o.Type()) && v.Parent() != u.p.Types.Scope() {
						subst[o] = ai.Name
						return
					}
				}
				if ue, ok := e.(*ast.UnaryExpr); ok && ue.Op == token.AND && pureExpr(ue.X) {
					if ai, ok := stripParens(ue.X).(*ast.Ident); ok {
						if _, ok := u.p.TypesInfo.Uses[ai].(*types.Var); ok {
							subst[o] = "(&" + ai.Name + ")"
							return
						}
					}
				}
			}
		}
		ps = append(ps, par{id, ty, arg})
	}
	if sig.Recv() != nil {
		if recvX == nil {
			return nil, nil, false
		}
		f := h.d.Recv.List[0]
		var id *ast.Ident
		if len(f.Names) > 0 {
			id = f.Names[0]
		}
		t := u.p.TypesInfo.TypeOf(recvX)
		arg := n.text(u.p, recvX.Pos(), recvX.End())
		_, isP := t.Underlying().(*types.Pointer)
		_, wantP := sig.Recv().Type().(*types.Pointer)
		switch {
		case isP == wantP:
		case isP:
			arg = "*(" + arg + ")"
		default:
			arg = "&(" + arg + ")"
			if ai, ok := stripParens(recvX).(*ast.Ident); ok && id != nil {
				if o := h.p.TypesInfo.Defs[id]; o != nil && !modified(h.p.TypesInfo, h.d.Body, o) {
					subst[o] = "(&" + ai.Name + ")"
					id = nil
					arg = ""
				}
			}
		}
		if arg != "" {
			one(id, f.Type, recvX, arg)
		}
	}
	for i, id := range ids {
		one(id, tys[i], call.Args[i], n.text(u.p, call.Args[i].Pos(), call.Args[i].End()))
	}
	decls = func(x *expansion) string {
		var sb strings.Builder
		for _, q := range ps {
			ty := n.text(h.p, q.ty.Pos(), q.ty.End())
			name := "_"
			if q.id != nil && q.id.Name != "_" {
				name = q.id.Name + x.suffix
			}
			fmt.Fprintf(&sb, "var %s %s = %s\n", name, ty, q.arg)
			if name != "_" {
				fmt.Fprintf(&sb, "_ = %s\n", name)
			}
		}
		return sb.String()
	}
	return subst, decls, true
}

func resultTypes(h *helper) (tys []ast.Expr, names []*ast.Ident) {
	if h.d.Type.Results == nil {
		return
	}
	for _, f := range h.d.Type.Results.List {
		if len(f.Names) == 0 {
			tys, names = append(tys, f.Type), append(names, nil)
		}
		for _, nm := range f.Names {
			tys, names = append(tys, f.Type), append(names, nm)
		}
	}
	return
}

// values returned by a return statement, as text
func (x *expansion) retExprs(r *ast.ReturnStmt) (texts []string, exprs []ast.Expr) {
	if len(r.Results) == 0 {
		_, names := resultTypes(x.h)
		for _, nm := range names {
			if nm != nil {
				texts = append(texts, nm.Name+x.suffix)
				exprs = append(exprs, nil)
			}
		}
		return
	}
	for _, e := range r.Results {
		texts = append(texts, x.render(e.Pos(), e.End()))
		exprs = append(exprs, e)
	}
	return
}

func (x *expansion) namedResults() string {
	tys, names := resultTypes(x.h)
	s := ""
	for i, nm := range names {
		if nm != nil && nm.Name != "_" {
			s += fmt.Sprintf("var %s %s\n_ = %s\n", nm.Name+x.suffix, x.n.text(x.h.p, tys[i].Pos(), tys[i].End()), nm.Name+x.suffix)
		} else if nm != nil {
			return "?"
		}
	}
	return s
}

// expands the helper where it is used; "yes", "no", or "later"
func (n *normaliser) expandUse(h *helper, u *useSite) string {
	st := u.stack
	k := len(st) - 2 // parent of the identifier
	var fun ast.Expr = u.id
	var recvX ast.Expr
	if s, ok := st[k].(*ast.SelectorExpr); ok && s.Sel == u.id {
		sel := u.p.TypesInfo.Selections[s]
		if sel == nil || len(sel.Index()) != 1 {
			return "no"
		}
		fun, recvX = s, s.X
		k--
	}
	for {
		if p, ok := st[k].(*ast.ParenExpr); ok {
			fun = p
			k--
			continue
		}
		break
	}
	file := n.fileOf(u.p, u.id.Pos())
	call, ok := st[k].(*ast.CallExpr)
	if !ok || call.Fun != fun {
		// used as a value
		if recvX != nil || h.o.Type().(*types.Signature).Recv() != nil {
			return "no"
		}
		return n.replaceExpr(file, u, fun, n.literal(h))
	}
	// is the call the last expression containing the identifier in a statement?
	ci := k
	cond := false
	var stmt ast.Stmt
	si := -1
	for i := ci - 1; i >= 0; i-- {
		if b, ok := st[i].(*ast.BinaryExpr); ok && (b.Op == token.LAND || b.Op == token.LOR) && b.Y == st[i+1] {
			cond = true
		}
		if cc, ok := st[i].(*ast.CaseClause); ok {
			_ = cc
			cond = true
		}
		if s, ok := st[i].(ast.Stmt); ok {
			stmt, si = s, i
			break
		}
		if _, ok := st[i].(*ast.GenDecl); ok {
			continue
		}
		if _, ok := st[i].(*ast.File); ok {
			break
		}
	}
	literal := func() string {
		args := []string{}
		sig := h.o.Type().(*types.Signature)
		if sig.Recv() != nil {
			// receiver becomes the first parameter
			t := u.p.TypesInfo.TypeOf(recvX)
			arg := n.text(u.p, recvX.Pos(), recvX.End())
			_, isP := t.Underlying().(*types.Pointer)
			_, wantP := sig.Recv().Type().(*types.Pointer)
			if isP && !wantP {
				arg = "*(" + arg + ")"
			} else if !isP && wantP {
				arg = "&(" + arg + ")"
			}
			args = append(args, arg)
		}
		for _, a := range call.Args {
			args = append(args, n.text(u.p, a.Pos(), a.End()))
		}
		e := ""
		if call.Ellipsis.IsValid() {
			e = "..."
		}
		lit := n.literal(h)
		if lit == "" {
			return "no"
		}
		return n.replaceExpr(file, u, call, lit+"("+strings.Join(args, ", ")+e+")")
	}
	if stmt == nil {
		return literal() // initialiser of a package variable
	}
	// a single returned expression is substituted
	if subst, ok := n.exprSubst(h, u, call, recvX); ok {
		return n.replaceExpr(file, u, call, subst)
	}
	switch s := stmt.(type) {
	case *ast.GoStmt:
		if s.Call == call {
			if t, ok := n.goLiteral(h, u, call, recvX); ok {
				return n.replaceExpr(file, u, call, t)
			}
			return literal()
		}
	case *ast.DeferStmt:
		if s.Call == call {
			return literal()
		}
	case *ast.ForStmt:
		return literal() // condition
	case *ast.CaseClause, *ast.CommClause:
		return literal()
	}
	if cond || hasDefer(h.d.Body) {
		return literal()
	}
	subst, decls, ok := n.bind(h, u, call, recvX)
	if !ok {
		return literal()
	}
	// another call evaluated before this one in the same statement?
	early := false
	hdr := ast.Node(stmt)
	ast.Inspect(hdr, func(x ast.Node) bool {
		switch y := x.(type) {
		case *ast.BlockStmt, *ast.FuncLit:
			return false
		case *ast.CallExpr:
			if y == call {
				return false
			}
			if y.Pos() < call.Pos() && y.End() <= call.Pos() {
				if id, ok := y.Fun.(*ast.Ident); ok && (id.Name == "len" || id.Name == "cap") {
					return true
				}
				if tv, ok := u.p.TypesInfo.Types[y.Fun]; ok && tv.IsType() {
					return true
				}
				early = true
			}
		}
		return true
	})
	if early {
		return literal()
	}
	// outermost statement in a list to put the expansion in front of
	top, ti := stmt, si
	wrapElse := false
	initOf := false
	for {
		if ti == 0 {
			return literal()
		}
		par := st[ti-1]
		switch p := par.(type) {
		case *ast.BlockStmt, *ast.CaseClause, *ast.CommClause:
			if cc, ok := p.(*ast.CommClause); ok && cc.Comm == top {
				return literal()
			}
		case *ast.LabeledStmt:
			top, ti = p, ti-1
			continue
		case *ast.IfStmt:
			if p.Init == top {
				initOf = true
				top, ti = p, ti-1
				continue
			}
			if p.Else == top {
				wrapElse = true
				break
			}
			return literal()
		case *ast.ForStmt:
			if p.Init == top {
				initOf = true
				top, ti = p, ti-1
				continue
			}
			return literal()
		case *ast.SwitchStmt:
			if p.Init == top {
				initOf = true
				top, ti = p, ti-1
				continue
			}
			return literal()
		case *ast.TypeSwitchStmt:
			top, ti = p, ti-1
			continue
		default:
			return literal()
		}
		break
	}
	// a condition evaluated after an init statement
	switch s := stmt.(type) {
	case *ast.IfStmt:
		if s.Init != nil {
			return literal()
		}
	case *ast.SwitchStmt:
		if s.Init != nil {
			return literal()
		}
	}
	a, b := n.off(u.p, top.Pos()), n.off(u.p, top.End())
	if !n.free(file, a, b) {
		return "later"
	}
	x := n.newExpansion(h, subst)
	named := x.namedResults()
	if named == "?" {
		return literal()
	}
	tys, _ := resultTypes(h)
	pre := decls(x) + named
	back := "\n" + n.line(u.p, top.End())
	// tail call
	if r, ok := stmt.(*ast.ReturnStmt); ok && len(r.Results) == 1 && r.Results[0] == ast.Expr(call) && top == stmt && !wrapElse {
		if n.sameResults(u, si, h) {
			txt := "{\n" + pre + x.body(func(r *ast.ReturnStmt, last bool) string {
				t, _ := x.retExprs(r)
				return "return " + strings.Join(t, ", ")
			}) + "}" + back
			n.add(file, a, b, txt)
			return "yes"
		}
	}
	label := "L" + x.suffix
	if es, ok := stmt.(*ast.ExprStmt); ok && es.X == ast.Expr(call) && top == stmt && !wrapElse {
		used := false
		body := x.body(func(r *ast.ReturnStmt, last bool) string {
			t, _ := x.retExprs(r)
			s := ""
			if len(r.Results) > 0 {
				s = strings.TrimSuffix(strings.Repeat("_, ", len(tys)), ", ") + " = " + strings.Join(t, ", ") + "\n"
			}
			if last {
				return "{\n" + s + "}"
			}
			used = true
			return "{\n" + s + "break " + label + "\n}"
		})
		if used {
			body = label + ":\nswitch {\ndefault:\n" + body + "}\n"
		}
		n.add(file, a, b, "{\n"+pre+body+"}"+back)
		return "yes"
	}
	if len(tys) == 0 {
		return literal()
	}
	if s, done := n.tailDuplicate(h, u, call, stmt, si, top, ti, wrapElse, x, pre); done {
		return s
	}
	// results in temporaries
	var rs []string
	vars := ""
	for i, ty := range tys {
		rs = append(rs, fmt.Sprintf("r%d%s", i, x.suffix))
		vars += fmt.Sprintf("var %s %s\n_ = %s\n", rs[i], n.text(h.p, ty.Pos(), ty.End()), rs[i])
	}
	used := false
	body := x.body(func(r *ast.ReturnStmt, last bool) string {
		t, _ := x.retExprs(r)
		s := strings.Join(rs, ", ") + " = " + strings.Join(t, ", ") + "\n"
		if last {
			return "{\n" + s + "}"
		}
		used = true
		return "{\n" + s + "break " + label + "\n}"
	})
	if used {
		body = label + ":\nswitch {\ndefault:\n" + body + "}\n"
	}
	exp := vars + "{\n" + pre + body + "}\n"
	ca, cb := n.off(u.p, call.Pos()), n.off(u.p, call.End())
	src := n.source(file)
	after := n.line(u.p, call.End()) + src[cb:b]
	txt := exp + n.line(u.p, top.Pos()) + src[a:ca] + strings.Join(rs, ", ") + after
	_ = initOf
	if wrapElse {
		txt = "{\n" + txt + "\n}"
	}
	n.add(file, a, b, txt+n.lineIf(u.p, top.End()))
	return "yes"
}

func (n *normaliser) lineIf(p *packages.Package, pos token.Pos) string { return n.line(p, pos) }

func (n *normaliser) sameResults(u *useSite, si int, h *helper) bool {
	for i := si; i >= 0; i-- {
		var t types.Type
		switch f := u.stack[i].(type) {
		case *ast.FuncLit:
			t = u.p.TypesInfo.TypeOf(f)
		case *ast.FuncDecl:
			if o := u.p.TypesInfo.Defs[f.Name]; o != nil {
				t = o.Type()
			}
		default:
			continue
		}
		s, ok := t.(*types.Signature)
		return ok && s.Results().Len() == h.o.Type().(*types.Signature).Results().Len()
	}
	return false
}

func (n *normaliser) replaceExpr(file string, u *useSite, e ast.Node, s string) string {
	if s == "" {
		return "no"
	}
	a, b := n.off(u.p, e.Pos()), n.off(u.p, e.End())
	if !n.free(file, a, b) {
		return "later"
	}
	n.add(file, a, b, s+n.line(u.p, e.End()))
	return "yes"
}

// the helper as a function literal; a receiver becomes its first parameter
func (n *normaliser) literal(h *helper) string {
	n.count++
	params := n.text(h.p, h.d.Type.Params.Opening+1, h.d.Type.Params.Closing)
	if h.d.Recv != nil {
		f := h.d.Recv.List[0]
		name := "_"
		if len(f.Names) > 0 {
			name = f.Names[0].Name
		}
		r := name + " " + n.text(h.p, f.Type.Pos(), f.Type.End())
		for _, f := range h.d.Type.Params.List {
			if len(f.Names) == 0 {
				return ""
			}
		}
		if strings.TrimSpace(params) == "" {
			params = r
		} else {
			params = r + ", " + params
		}
	}
	res := ""
	if h.d.Type.Results != nil {
		res = n.text(h.p, h.d.Type.Results.Pos(), h.d.Type.Results.End())
	}
	body := n.text(h.p, h.d.Body.Pos(), h.d.Body.End())
	return "func(" + params + ") " + res + " " + n.line(h.p, h.d.Body.Pos()) + body
}

// what a goroutine gets as arguments and would have been the same had it been captured is captured
func (n *normaliser) goLiteral(h *helper, u *useSite, call *ast.CallExpr, recvX ast.Expr) (string, bool) {
	sig := h.o.Type().(*types.Signature)
	if sig.Variadic() || call.Ellipsis.IsValid() {
		return "", false
	}
	var outer *ast.FuncDecl
	for _, x := range u.stack {
		if d, ok := x.(*ast.FuncDecl); ok {
			outer = d
		}
	}
	ids, tys := paramIdents(h.d.Type)
	if outer == nil || len(ids) != len(call.Args) {
		return "", false
	}
	subst := map[types.Object]string{}
	type par struct {
		id  *ast.Ident
		ty  ast.Expr
		arg string
	}
	var rest []par
	one := func(id *ast.Ident, ty, argX ast.Expr, arg string) {
		if id != nil && id.Name != "_" {
			if o := h.p.TypesInfo.Defs[id]; o != nil && !modified(h.p.TypesInfo, h.d.Body, o) {
				e := stripParens(argX)
				if ai, ok := e.(*ast.Ident); ok && arg == n.text(u.p, argX.Pos(), argX.End()) {
					if v, ok := u.p.TypesInfo.Uses[ai].(*types.Var); ok && types.Identical(v.Type(), o.Type()) && v.Parent() != u.p.Types.Scope() && settled(u, outer, v, call) {
						subst[o] = ai.Name
						return
					}
				}
				if ue, ok := e.(*ast.UnaryExpr); ok && ue.Op == token.AND {
					if ai, ok := stripParens(ue.X).(*ast.Ident); ok {
						if v, ok := u.p.TypesInfo.Uses[ai].(*types.Var); ok && v.Parent() != u.p.Types.Scope() {
							subst[o] = "(&" + ai.Name + ")"
							return
						}
					}
				}
			}
		}
		rest = append(rest, par{id, ty, arg})
	}
	if sig.Recv() != nil {
		if recvX == nil {
			return "", false
		}
		f := h.d.Recv.List[0]
		var id *ast.Ident
		if len(f.Names) > 0 {
			id = f.Names[0]
		}
		_, isP := u.p.TypesInfo.TypeOf(recvX).Underlying().(*types.Pointer)
		_, wantP := sig.Recv().Type().(*types.Pointer)
		arg := n.text(u.p, recvX.Pos(), recvX.End())
		if isP && !wantP {
			arg = "*(" + arg + ")"
		} else if !isP && wantP {
			arg = "&(" + arg + ")"
		}
		one(id, f.Type, recvX, arg)
	}
	for i, id := range ids {
		one(id, tys[i], call.Args[i], n.text(u.p, call.Args[i].Pos(), call.Args[i].End()))
	}
	if len(subst) == 0 {
		return "", false
	}
	x := n.newExpansion(h, subst)
	var ps, as []string
	for _, q := range rest {
		name := "_"
		if q.id != nil && q.id.Name != "_" {
			name = x.render(q.id.Pos(), q.id.End())
		}
		ps = append(ps, name+" "+n.text(h.p, q.ty.Pos(), q.ty.End()))
		as = append(as, q.arg)
	}
	res := ""
	if h.d.Type.Results != nil {
		res = x.render(h.d.Type.Results.Pos(), h.d.Type.Results.End())
	}
	return "func(" + strings.Join(ps, ", ") + ") " + res + " " + n.line(h.p, h.d.Body.Pos()) + x.render(h.d.Body.Pos(), h.d.Body.End()) + "(" + strings.Join(as, ", ") + ")", true
}

// is a variable never assigned to once the call has been reached
func settled(u *useSite, outer *ast.FuncDecl, v *types.Var, call *ast.CallExpr) bool {
	info := u.p.TypesInfo
	ok := true
	is := func(e ast.Expr) bool {
		id, is := stripParens(e).(*ast.Ident)
		return is && (info.Uses[id] == types.Object(v) || info.Defs[id] == types.Object(v))
	}
	// the loops around the call that the variable lives longer than
	lo := call.Pos()
	for _, x := range u.stack {
		switch l := x.(type) {
		case *ast.ForStmt, *ast.RangeStmt:
			if !(v.Pos() >= l.Pos() && v.Pos() < l.End()) && l.Pos() < lo {
				lo = l.Pos()
			}
			if f, is := l.(*ast.ForStmt); is && f.Init != nil && v.Pos() >= f.Init.Pos() && v.Pos() < f.Init.End() {
				return false
			}
			if f, is := l.(*ast.RangeStmt); is && v.Pos() >= f.Pos() && v.Pos() < f.Body.Pos() {
				return false
			}
		}
	}
	ast.Inspect(outer.Body, func(x ast.Node) bool {
		at := func(p token.Pos) {
			if p >= lo {
				ok = false
			}
		}
		switch y := x.(type) {
		case *ast.AssignStmt:
			for _, l := range y.Lhs {
				if is(l) && info.Defs[identOf(l)] != types.Object(v) {
					at(y.Pos())
				}
			}
		case *ast.IncDecStmt:
			if is(y.X) {
				at(y.Pos())
			}
		case *ast.UnaryExpr:
			if y.Op == token.AND && is(y.X) {
				ok = false
			}
		case *ast.RangeStmt:
			if y.Key != nil && is(y.Key) || y.Value != nil && is(y.Value) {
				ok = false
			}
		case *ast.ReturnStmt: // sets results which have a name
			if sig := outer.Type.Results; sig != nil && v.Pos() >= sig.Pos() && v.Pos() < sig.End() && len(y.Results) > 0 {
				for k, r := range y.Results {
					if !is(r) && len(y.Results) == sig.NumFields() && nthName(sig, k) == v.Name() && y.Pos() >= lo && y.Pos() < call.Pos() {
						ok = false
					}
				}
			}
		}
		return ok
	})
	return ok
}

func identOf(e ast.Expr) *ast.Ident {
	id, _ := stripParens(e).(*ast.Ident)
	return id
}

func nthName(l *ast.FieldList, k int) string {
	for _, f := range l.List {
		for _, n := range f.Names {
			if k == 0 {
				return n.Name
			}
			k--
		}
	}
	return ""
}

// f(args) where f is { return expr }: expr with the arguments put in
func (n *normaliser) exprSubst(h *helper, u *useSite, call *ast.CallExpr, recvX ast.Expr) (string, bool) {
	if len(h.d.Body.List) != 1 {
		return "", false
	}
	r, ok := h.d.Body.List[0].(*ast.ReturnStmt)
	if !ok || len(r.Results) != 1 {
		return "", false
	}
	sig := h.o.Type().(*types.Signature)
	if sig.Variadic() || sig.Results().Len() != 1 {
		return "", false
	}
	bad := false
	ast.Inspect(r, func(x ast.Node) bool {
		if _, ok := x.(*ast.FuncLit); ok {
			bad = true
		}
		return true
	})
	ids, _ := paramIdents(h.d.Type)
	if bad || len(ids) != len(call.Args) {
		return "", false
	}
	subst := map[types.Object]string{}
	put := func(id *ast.Ident, e ast.Expr, want types.Type, text string) bool {
		if !pureExpr(e) {
			return false
		}
		if id == nil || id.Name == "_" {
			return true
		}
		o := h.p.TypesInfo.Defs[id]
		if o == nil || modified(h.p.TypesInfo, h.d.Body, o) {
			return false
		}
		tv := u.p.TypesInfo.Types[e]
		if tv.Value != nil || !types.Identical(u.p.TypesInfo.TypeOf(e), want) || tv.IsNil() {
			text = "(" + n.typeText(h, id) + ")(" + text + ")"
		}
		subst[o] = "(" + text + ")"
		if _, ok := e.(*ast.Ident); ok {
			subst[o] = text
		}
		return true
	}
	if sig.Recv() != nil {
		if recvX == nil {
			return "", false
		}
		f := h.d.Recv.List[0]
		var id *ast.Ident
		if len(f.Names) > 0 {
			id = f.Names[0]
		}
		if !types.Identical(u.p.TypesInfo.TypeOf(recvX), sig.Recv().Type()) {
			return "", false
		}
		if !put(id, recvX, sig.Recv().Type(), n.text(u.p, recvX.Pos(), recvX.End())) {
			return "", false
		}
	}
	for i, id := range ids {
		if !put(id, call.Args[i], sig.Params().At(i).Type(), n.text(u.p, call.Args[i].Pos(), call.Args[i].End())) {
			return "", false
		}
	}
	x := n.newExpansion(h, subst)
	txt := x.render(r.Results[0].Pos(), r.Results[0].End())
	tv := h.p.TypesInfo.Types[r.Results[0]]
	if tv.Value != nil || tv.IsNil() || !types.Identical(h.p.TypesInfo.TypeOf(r.Results[0]), sig.Results().At(0).Type()) {
		ty, _ := resultTypes(h)
		return "(" + n.text(h.p, ty[0].Pos(), ty[0].End()) + ")(" + txt + ")", true
	}
	return "(" + txt + ")", true
}

func (n *normaliser) typeText(h *helper, id *ast.Ident) string {
	for _, l := range []*ast.FieldList{h.d.Recv, h.d.Type.Params} {
		if l == nil {
			continue
		}
		for _, f := range l.List {
			for _, nm := range f.Names {
				if nm == id {
					return n.text(h.p, f.Type.Pos(), f.Type.End())
				}
			}
		}
	}
	return "?"
}

// call whose result is tested right away: the test is made wherever the helper returns
func (n *normaliser) tailDuplicate(h *helper, u *useSite, call *ast.CallExpr, stmt ast.Stmt, si int, top ast.Stmt, ti int, wrapElse bool, x *expansion, pre string) (string, bool) {
	st := u.stack
	var ifs *ast.IfStmt
	var lhs []ast.Expr
	define := false
	kind := 0
	var tok token.Token
	topEnd := top.End()
	end := top.End()
	switch s := stmt.(type) {
	case *ast.AssignStmt:
		if len(s.Rhs) != 1 || stripParens(s.Rhs[0]) != ast.Expr(call) || s.Tok != token.DEFINE && s.Tok != token.ASSIGN {
			return "", false
		}
		lhs, define, tok = s.Lhs, s.Tok == token.DEFINE, s.Tok
		if par, ok := st[si-1].(*ast.IfStmt); ok && par.Init == stmt {
			ifs, kind = par, 2
			if top != ast.Stmt(par) {
				return "", false
			}
		} else if top == stmt && !wrapElse {
			var list []ast.Stmt
			switch p := st[si-1].(type) {
			case *ast.BlockStmt:
				list = p.List
			case *ast.CaseClause:
				list = p.Body
			case *ast.CommClause:
				list = p.Body
			}
			for i, q := range list {
				if q == stmt && i+1 < len(list) {
					if nx, ok := list[i+1].(*ast.IfStmt); ok && nx.Init == nil {
						ifs, kind = nx, 1
						end = nx.End()
					}
				}
			}
		}
	case *ast.IfStmt:
		if s.Init == nil && top == stmt {
			ifs, kind = s, 3
		}
	}
	_ = tok
	if ifs == nil {
		return "", false
	}
	// the tested variable
	c := stripParens(ifs.Cond)
	pos := true
	isNilTest := false
	var v ast.Expr
	for {
		if ue, ok := c.(*ast.UnaryExpr); ok && ue.Op == token.NOT {
			pos = !pos
			c = stripParens(ue.X)
			continue
		}
		break
	}
	if be, ok := c.(*ast.BinaryExpr); ok && (be.Op == token.NEQ || be.Op == token.EQL) {
		if id, ok := be.Y.(*ast.Ident); ok && id.Name == "nil" {
			isNilTest = true
			if be.Op == token.EQL {
				pos = !pos
			}
			v = stripParens(be.X)
		}
	} else {
		v = c
	}
	if v == nil {
		return "", false
	}
	idx := -1
	if kind == 3 {
		if v != ast.Expr(call) {
			return "", false
		}
		idx = 0
	} else {
		id, ok := v.(*ast.Ident)
		if !ok {
			return "", false
		}
		for i, l := range lhs {
			li, ok := l.(*ast.Ident)
			if !ok {
				return "", false
			}
			if li.Name == id.Name {
				idx = i
			}
		}
		if idx < 0 {
			return "", false
		}
	}
	rets := returnsOf(h.d.Body)
	file := n.fileOf(u.p, u.id.Pos())
	a, b := n.off(u.p, top.Pos()), n.off(u.p, end)
	if !n.free(file, a, b) {
		return "later", true
	}
	if len(rets) > 10 || n.off(u.p, ifs.End())-n.off(u.p, ifs.Pos()) > 3000 {
		return "", false
	}
	// break and continue leaving the branches
	then, ok1 := n.branchText(u, st[:si], ifs.Body)
	els := ""
	if ifs.Else != nil {
		t, ok2 := n.branchText(u, st[:si], ifs.Else)
		if !ok2 {
			return "", false
		}
		els = t
	}
	if !ok1 {
		return "", false
	}
	var names []string
	vars := ""
	tys, _ := resultTypes(h)
	if kind == 3 {
		names = []string{"r0" + x.suffix}
		vars = fmt.Sprintf("var %s %s\n_ = %s\n", names[0], n.text(h.p, tys[0].Pos(), tys[0].End()), names[0])
	} else {
		for i, l := range lhs {
			id := l.(*ast.Ident)
			names = append(names, id.Name)
			if define && id.Name != "_" && u.p.TypesInfo.Defs[id] != nil {
				vars += fmt.Sprintf("var %s %s\n_ = %s\n", id.Name, n.text(h.p, tys[i].Pos(), tys[i].End()), id.Name)
			}
		}
	}
	cond := n.text(u.p, ifs.Cond.Pos(), ifs.Cond.End())
	if kind == 3 {
		cond = names[0]
		if !pos {
			cond = "!" + cond
		}
	}
	label := "L" + x.suffix
	used := false
	info := h.p.TypesInfo
	body := x.body(func(r *ast.ReturnStmt, last bool) string {
		t, es := x.retExprs(r)
		s := strings.Join(names, ", ") + " = " + strings.Join(t, ", ") + "\n"
		known := 0 // 1: v is true / not nil, -1: false / nil
		if len(es) == len(names) && es[idx] != nil {
			e := stripParens(es[idx])
			tv := info.Types[e]
			if isNilTest {
				if tv.IsNil() {
					known = -1
				} else if ce, ok := e.(*ast.CallExpr); ok {
					if f := n.text(h.p, ce.Fun.Pos(), ce.Fun.End()); f == "fmt.Errorf" || f == "errors.New" {
						known = 1
					}
				}
			} else if tv.Value != nil {
				known = -1
				if tv.Value.String() == "true" {
					known = 1
				}
			}
		}
		switch {
		case known == 1 == pos && known != 0:
			s += then + "\n"
		case known != 0:
			s += els + "\n"
		default:
			s += "if " + cond + " " + then
			if els != "" {
				s += " else " + els
			}
			s += "\n"
		}
		used = true
		return "{\n" + s + "break " + label + "\n}"
	})
	if used {
		body = label + ":\nswitch {\ndefault:\n" + body + "}\n"
	}
	txt := vars + "{\n" + pre + body + "}\n"
	if ifs.Else != nil && terminates(ifs) {
		txt += "panic(\"unreachable\")\n"
	}
	if kind == 2 || wrapElse {
		txt = "{\n" + txt + "}"
	}
	_ = topEnd
	n.add(file, a, b, txt+"\n"+n.line(u.p, end))
	return "yes", true
}

func terminates(s ast.Stmt) bool {
	switch x := s.(type) {
	case *ast.ReturnStmt:
		return true
	case *ast.BranchStmt:
		return x.Tok == token.GOTO
	case *ast.BlockStmt:
		return len(x.List) > 0 && terminates(x.List[len(x.List)-1])
	case *ast.IfStmt:
		return x.Else != nil && terminates(x.Body) && terminates(x.Else)
	case *ast.ExprStmt:
		if c, ok := x.X.(*ast.CallExpr); ok {
			if id, ok := c.Fun.(*ast.Ident); ok {
				return id.Name == "panic"
			}
		}
	}
	return false
}

// text of a branch, with break and continue statements that leave it given explicit labels
func (n *normaliser) branchText(u *useSite, stack []ast.Node, b ast.Stmt) (string, bool) {
	var es []tedit
	ok := true
	base := n.off(u.p, b.Pos())
	var walk func(x ast.Node, inLoop, inSwitch bool)
	file := n.fileOf(u.p, b.Pos())
	enclosing := func(loopOnly bool) (ast.Stmt, int) {
		for i := len(stack) - 1; i >= 0; i-- {
			switch s := stack[i].(type) {
			case *ast.FuncLit, *ast.FuncDecl:
				return nil, 0
			case *ast.ForStmt:
				return s, i
			case *ast.RangeStmt:
				return s, i
			case *ast.SwitchStmt:
				if !loopOnly {
					return s, i
				}
			case *ast.TypeSwitchStmt:
				if !loopOnly {
					return s, i
				}
			case *ast.SelectStmt:
				if !loopOnly {
					return s, i
				}
			}
		}
		return nil, 0
	}
	walk = func(x ast.Node, inLoop, inSwitch bool) {
		ast.Inspect(x, func(y ast.Node) bool {
			if y == x {
				return true
			}
			switch z := y.(type) {
			case *ast.FuncLit:
				return false
			case *ast.LabeledStmt:
				ok = false
				return false
			case *ast.ForStmt, *ast.RangeStmt:
				walk(z, true, true)
				return false
			case *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.SelectStmt:
				walk(z, inLoop, true)
				return false
			case *ast.BranchStmt:
				if z.Label != nil || z.Tok == token.GOTO {
					return true
				}
				if z.Tok == token.FALLTHROUGH {
					if !inSwitch {
						ok = false
					}
					return true
				}
				if z.Tok == token.CONTINUE && inLoop || z.Tok == token.BREAK && (inLoop || inSwitch) {
					return true
				}
				s, i := enclosing(z.Tok == token.CONTINUE)
				if s == nil {
					ok = false
					return true
				}
				label := ""
				if i > 0 {
					if l, is := stack[i-1].(*ast.LabeledStmt); is {
						label = l.Label.Name
					}
				}
				if label == "" {
					label = n.labels[s.Pos()]
				}
				if label == "" {
					n.count++
					label = "LP__" + strconv.Itoa(n.count)
					n.labels[s.Pos()] = label
					a := n.off(u.p, s.Pos())
					n.add(file, a, a, label+":\n"+n.line(u.p, s.Pos()))
				}
				a := n.off(u.p, z.End()) - base
				es = append(es, tedit{a, a, " " + label})
			}
			return true
		})
	}
	walk(b, false, false)
	return n.line(u.p, b.Pos()) + applyEdits(n.text(u.p, b.Pos(), b.End()), es), ok
}
