package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"regexp"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// C25: the same engine exists on every supported platform.
//
// The module is loaded and type-checked once per supported operating system and architecture. The exported declarations
// must agree between them, functions without a body must have an assembly routine on that platform, portable variants of a
// function must do what the accelerated one does when the processor lacks the feature, and every use of an assembly routine
// must be guarded by tests for the processor features its instructions need. The assembly routines themselves are
// interpreted over affine forms to find what they require of their arguments to stay inside the arrays, and every call site
// must establish that.

func init() {
	register("C25", "type checking of the module under every supported operating system and architecture, comparison of declarations and portable variants, feature guards of assembly routines, and affine bounds analysis of the assembly with contracts proved at the call sites", runC25)
}

type platform struct{ os, arch string }

var platforms = []platform{{"linux", "amd64"}, {"linux", "arm64"}, {"linux", "arm"}, {"darwin", "amd64"}, {"darwin", "arm64"}, {"windows", "amd64"}}

type platWorld struct {
	pl    platform
	ps    []*packages.Package
	errs  []string
	errAt []string
	fset  *token.FileSet
}

func (p platform) String() string { return p.os + "/" + p.arch }

func loadPlatform(w *World, pl platform) *platWorld {
	pw := &platWorld{pl: pl, fset: token.NewFileSet()}
	env := append(os.Environ(), "GOOS="+pl.os, "GOARCH="+pl.arch, "CGO_ENABLED=0")
	cfg := &packages.Config{Dir: w.Repo, Mode: loadMode, Env: env, Fset: pw.fset}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		pw.errs = append(pw.errs, err.Error())
		pw.errAt = append(pw.errAt, pl.String())
		return pw
	}
	sort.Slice(ps, func(i, j int) bool { return ps[i].PkgPath < ps[j].PkgPath })
	pw.ps = ps
	for _, p := range ps {
		for _, e := range p.Errors {
			if strings.Contains(e.Msg, "pattern") && strings.Contains(e.Msg, "embed") || strings.Contains(e.Msg, "no matching files") || strings.Contains(e.Msg, "contains no embeddable files") {
				continue
			}
			pw.errs = append(pw.errs, e.Msg)
			pw.errAt = append(pw.errAt, strings.TrimPrefix(e.Pos, w.Repo+"/"))
		}
	}
	return pw
}

func runC25(w *World, r *Report) {
	r.rule("typecheck", "every package type-checks on every supported platform", 80)
	r.rule("api", "packages declare the same functions, types, constants and variables everywhere", 80)
	r.rule("body", "functions without a body have an assembly routine on every platform they are declared on", 3)
	r.rule("guard", "assembly routines are only reached after testing for the processor features they need", 3)
	r.rule("same", "without the processor feature, a function does what its portable variant does", 3)
	r.rule("bounds", "assembly routines stay inside the arrays they are given, under the contract their callers establish", 4)
	r.rule("frame", "assembly routines read their arguments and write their results where the caller puts them", 4)
	r.rule("align", "64-bit atomic operations address aligned words on 32-bit processors", 0)
	r.assume("the operating system and the cpuid package report processor features correctly")

	pws := make([]*platWorld, len(platforms))
	var wg sync.WaitGroup
	for i, pl := range platforms {
		wg.Add(1)
		go func(i int, pl platform) {
			defer wg.Done()
			pws[i] = loadPlatform(w, pl)
		}(i, pl)
	}
	wg.Wait()
	usable := true
	for _, pw := range pws {
		seen := map[string]bool{}
		for k, e := range pw.errs {
			if !seen[e] {
				seen[e] = true
				r.bad("typecheck", pw.pl.String()+"|"+c25strip(e), pw.errAt[k], "%s: %s", pw.pl, e)
			}
			usable = false
		}
		if len(pw.errs) == 0 {
			for _, p := range pw.ps {
				r.ob("typecheck", "%s on %s: %d files", strings.TrimPrefix(p.PkgPath, Mod+"/"), pw.pl, len(p.CompiledGoFiles))
			}
		}
	}
	if !usable {
		r.nMin["api"], r.nMin["body"], r.nMin["guard"], r.nMin["same"], r.nMin["bounds"], r.nMin["frame"] = 0, 0, 0, 0, 0, 0
		return
	}
	for _, pw := range pws[1:] {
		c25API(w, r, pws[0], pw)
	}
	for _, pw := range pws {
		c25Bodies(w, r, pw)
	}
	c25Same(w, r, pws[0], pws[1])
	c25Same(w, r, pws[0], pws[2])
	c25Asm(w, r, pws[0])
	c25Align(w, r, pws[2])
}

func c25strip(s string) string { return regexp.MustCompile(`[^ ]*:\d+:\d+`).ReplaceAllString(s, "") }

// ---------------------------------------------------------------- declarations

func c25Decls(p *packages.Package) map[string]string {
	m := map[string]string{}
	q := func(o *types.Package) string { return o.Path() }
	sc := p.Types.Scope()
	for _, n := range sc.Names() {
		o := sc.Lookup(n)
		if !o.Exported() {
			continue
		}
		switch o := o.(type) {
		case *types.Const:
			m[n] = "const " + types.TypeString(o.Type(), q) + " = " + o.Val().ExactString()
		case *types.TypeName:
			m[n] = "type " + types.TypeString(o.Type().Underlying(), q)
			if nt, ok := o.Type().(*types.Named); ok {
				for i := 0; i < nt.NumMethods(); i++ {
					f := nt.Method(i)
					if f.Exported() {
						m[n+"."+f.Name()] = c25sig(f, q)
					}
				}
			}
		case *types.Func:
			m[n] = c25sig(o, q)
		case *types.Var:
			m[n] = "var " + types.TypeString(o.Type(), q)
		}
	}
	return m
}

// signature without parameter names
func c25sig(f *types.Func, q types.Qualifier) string {
	sig := f.Type().(*types.Signature)
	var b []string
	for _, t := range []*types.Tuple{sig.Params(), sig.Results()} {
		var s []string
		for i := 0; i < t.Len(); i++ {
			s = append(s, types.TypeString(t.At(i).Type(), q))
		}
		b = append(b, "("+strings.Join(s, ", ")+")")
	}
	ptr := ""
	if sig.Recv() != nil {
		if _, ok := sig.Recv().Type().(*types.Pointer); ok {
			ptr = "*"
		}
	}
	return "func " + ptr + strings.Join(b, " ")
}

func c25API(w *World, r *Report, a, b *platWorld) {
	byPath := map[string]*packages.Package{}
	for _, p := range b.ps {
		byPath[p.PkgPath] = p
	}
	for _, p := range a.ps {
		short := strings.TrimPrefix(p.PkgPath, Mod+"/")
		q := byPath[p.PkgPath]
		if q == nil {
			r.bad("api", short+"|missing|"+b.pl.String(), short, "package %s has no files on %s", short, b.pl)
			continue
		}
		x, y := c25Decls(p), c25Decls(q)
		diff := 0
		var ks []string
		for k := range x {
			ks = append(ks, k)
		}
		for k := range y {
			if _, ok := x[k]; !ok {
				ks = append(ks, k)
			}
		}
		sort.Strings(ks)
		for _, k := range ks {
			if x[k] == y[k] {
				continue
			}
			diff++
			switch {
			case y[k] == "":
				r.bad("api", short+"."+k+"|"+b.pl.String(), c25pos(w, p, k), "%s.%s is missing on %s", short, k, b.pl)
			case x[k] == "":
				r.bad("api", short+"."+k+"|"+b.pl.String(), c25pos(w, q, k), "%s.%s only exists on %s", short, k, b.pl)
			default:
				r.bad("api", short+"."+k+"|"+b.pl.String(), c25pos(w, q, k), "%s.%s is %q on %s and %q on %s", short, k, x[k], a.pl, y[k], b.pl)
			}
		}
		if diff == 0 {
			r.ob("api", "%s: %d declarations agree between %s and %s", short, len(x), a.pl, b.pl)
		}
	}
}

func c25pos(w *World, p *packages.Package, name string) string {
	if o := p.Types.Scope().Lookup(strings.Split(name, ".")[0]); o != nil {
		ps := p.Fset.Position(o.Pos())
		return fmt.Sprintf("%s:%d", strings.TrimPrefix(ps.Filename, w.Repo+"/"), ps.Line)
	}
	return strings.TrimPrefix(p.PkgPath, Mod+"/")
}

// ---------------------------------------------------------------- assembly routines

func c25AsmFiles(p *packages.Package) (r []*asmFile, err error) {
	for _, f := range p.OtherFiles {
		if strings.HasSuffix(f, ".s") {
			af, e := parseAsm(f)
			if e != nil {
				return nil, e
			}
			r = append(r, af)
		}
	}
	return r, nil
}

func c25Bodyless(p *packages.Package) (r []*ast.FuncDecl) {
	for _, f := range p.Syntax {
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Body == nil {
				linked := false
				if fd.Doc != nil {
					for _, c := range fd.Doc.List {
						if strings.HasPrefix(c.Text, "//go:linkname") {
							linked = true
						}
					}
				}
				if !linked {
					r = append(r, fd)
				}
			}
		}
	}
	return r
}

func c25Bodies(w *World, r *Report, pw *platWorld) {
	for _, p := range pw.ps {
		bl := c25Bodyless(p)
		if len(bl) == 0 {
			continue
		}
		afs, err := c25AsmFiles(p)
		if err != nil {
			r.undecided("%s", err)
			continue
		}
		have := map[string]bool{}
		for _, af := range afs {
			for _, f := range af.funcs {
				have[f.name] = true
			}
		}
		for _, fd := range bl {
			pos := p.Fset.Position(fd.Pos())
			at := fmt.Sprintf("%s:%d", strings.TrimPrefix(pos.Filename, w.Repo+"/"), pos.Line)
			if have[fd.Name.Name] {
				r.ob("body", "%s on %s: in assembly", fd.Name.Name, pw.pl)
			} else {
				r.bad("body", fd.Name.Name+"|"+pw.pl.String(), at, "%s has neither a body nor an assembly routine on %s", fd.Name.Name, pw.pl)
			}
		}
	}
}

var avx2Ops = map[string]bool{"VPERMPS": true, "VPERMPD": true, "VPERMD": true, "VPERMQ": true, "VPERM2I128": true, "VEXTRACTI128": true, "VINSERTI128": true,
	"VPMASKMOVD": true, "VPMASKMOVQ": true, "VPSLLVD": true, "VPSRLVD": true, "VPBLENDD": true, "VBROADCASTI128": true, "VGATHERDPS": true, "VGATHERQPS": true}

var fma = regexp.MustCompile(`^VFN?M(ADD|SUB|ADDSUB|SUBADD)(132|213|231)`)

// processor features an instruction needs beyond the architecture's base level
func asmFeature(in asmInstr) string {
	op := in.op
	if op[0] != 'V' {
		return ""
	}
	y, z := false, false
	for _, a := range in.args {
		if len(a) > 1 && a[0] == 'Y' && a[1] >= '0' && a[1] <= '9' {
			y = true
		}
		if len(a) > 1 && a[0] == 'Z' && a[1] >= '0' && a[1] <= '9' {
			z = true
		}
	}
	switch {
	case z:
		return "AVX512F"
	case fma.MatchString(op):
		return "FMA3"
	case avx2Ops[op], strings.HasPrefix(op, "VPBROADCAST"):
		return "AVX2"
	case y && strings.HasPrefix(op, "VP") && !strings.HasPrefix(op, "VPERM2F128") && !strings.HasPrefix(op, "VPERMIL") && !strings.HasPrefix(op, "VPTEST"):
		return "AVX2"
	case strings.HasPrefix(op, "VBROADCASTS") && len(in.args) > 0 && len(in.args[0]) > 1 && in.args[0][0] == 'X':
		return "AVX2"
	}
	return "AVX"
}

var implied = map[string][]string{"AVX512F": {"AVX512F"}, "AVX2": {"AVX2", "AVX512F"}, "FMA3": {"FMA3", "AVX512F"}, "AVX": {"AVX", "AVX2", "FMA3", "AVX512F"}}

func c25Asm(w *World, r *Report, pw *platWorld) {
	for _, p := range pw.ps {
		bl := c25Bodyless(p)
		if len(bl) == 0 {
			continue
		}
		afs, err := c25AsmFiles(p)
		if err != nil {
			r.undecided("%s", err)
			continue
		}
		sp := w.SSA[p.PkgPath]
		for _, fd := range bl {
			var fn *ssa.Function
			if m, ok := sp.Members[fd.Name.Name].(*ssa.Function); ok {
				fn = m
			}
			for _, af := range afs {
				for _, f := range af.funcs {
					if f.name == fd.Name.Name && fn != nil {
						c25Routine(w, r, p, fn, f, af)
					}
				}
			}
		}
	}
}

func c25Routine(w *World, r *Report, p *packages.Package, fn *ssa.Function, f *asmFunc, af *asmFile) {
	rel := asmRel(w.Repo, f.file)
	ps, res, total := asmLayout(fn.Signature, p.TypesSizes)
	c25Frame(w, r, fn, f, rel, ps, res, total)
	feats := map[string]bool{}
	for _, in := range f.ins {
		if ft := asmFeature(in); ft != "" {
			feats[ft] = true
		}
	}
	var need []string
	for ft := range feats {
		weaker := false
		for o := range feats {
			if o != ft && contains(implied[ft], o) && ft == "AVX" {
				weaker = true
			}
		}
		if !weaker {
			need = append(need, ft)
		}
	}
	sort.Strings(need)
	for _, ft := range need {
		c25Guarded(w, r, fn, ft, 0, map[*ssa.Function]bool{}, fn)
	}
	c, acc, why, known := inferContract(f, af, ps)
	if why != "" {
		if known {
			r.bad("bounds", f.name+"|"+c25strip(regexp.MustCompile(`line \d+`).ReplaceAllString(why, "")), fmt.Sprintf("%s:%d", rel, f.line), "%s: whatever its arguments, %s", f.name, why)
		} else {
			r.undecided("%s: %s", f.name, why)
		}
		return
	}
	r.ob("bounds", "%s: %d memory accesses inside their arrays, given: %s", f.name, acc, c)
	// call sites
	pr := newProver(w, func(v ssa.Value, isLen bool) bool {
		pa, ok := v.(*ssa.Parameter)
		return ok && pa.Parent().Pkg == fn.Pkg
	})
	pr.open = func(f *ssa.Function) bool { return f.Pkg == fn.Pkg && f.Object() != nil && f.Object().Exported() }
	for _, site := range w.calls().callers[fn] {
		g := site.Parent()
		if !w.inMod[g] {
			continue
		}
		b := site.Block()
		args := site.Common().Args
		where := fmt.Sprintf("%s called at %s", f.name, w.ipos(site))
		key := f.name + "|" + fname(g)
		for i, p := range ps {
			if i >= len(args) {
				break
			}
			switch p.kind {
			case "slice":
				n := pr.lenOf(args[i])
				if m := c.mult[p.name]; m > 1 {
					switch multipleOf(pr, b, args[i], n, m) {
					case vProved:
						r.ob("bounds", "%s: length of %s is a multiple of %d", where, p.name, m)
					case vUnknown:
						r.undecided("%s: length of %s is a multiple of %d", where, p.name, m)
					default:
						r.bad("bounds", key+"|mult", w.ipos(site), "%s works on groups of %d values: called with data of any length it reads past the end", f.name, m)
					}
				}
				if m := c.min[p.name]; m > 0 {
					c25Prove(w, r, pr, site, key+"|min", n.add(constPoly(float64(m)), -1), fmt.Sprintf("%s: at least %d values in %s", where, m, p.name), fmt.Sprintf("%s reads at least %d values, but may be called with fewer", f.name, m))
				}
				if rw := c.rows[p.name]; rw[0] > 0 {
					c25Prove(w, r, pr, site, key+"|rows", n.add(pr.lin(args[rw[1]]), -float64(rw[0])), fmt.Sprintf("%s: %s holds %d lines", where, p.name, rw[0]), fmt.Sprintf("%s needs %d lines in %s, but may get fewer", f.name, rw[0], p.name))
				}
			case "int":
				if m := c.low[p.name]; m > -1 {
					c25Prove(w, r, pr, site, key+"|low", pr.lin(args[i]).add(constPoly(float64(m)), -1), fmt.Sprintf("%s: %s at least %d", where, p.name, m), fmt.Sprintf("%s accesses memory before the start of the line if %s is less than %d, which the callers allow", f.name, p.name, m))
				}
			}
		}
	}
}

func c25Prove(w *World, r *Report, pr *prover, site ssa.CallInstruction, key string, goal poly, what, bad string) {
	v := pr.ge0(site.Block(), goal)
	if v == vUnknown && pr.zeroFails(site.Block(), goal) {
		v = vRefuted
	}
	switch v {
	case vProved:
		r.ob("bounds", "%s", what)
	case vUnknown:
		r.undecided("%s", what)
	default:
		r.bad("bounds", key, w.ipos(site), "%s", bad)
	}
}

// a value rounded down to a multiple, of something that may be zero
func (p *prover) zeroFails(b *ssa.BasicBlock, goal poly) bool {
	for t := range goal {
		a := p.atoms[t]
		if a == nil || a.len {
			continue
		}
		bo, ok := a.v.(*ssa.BinOp)
		if !ok || bo.Op != token.AND_NOT {
			continue
		}
		zero := poly{}
		if g, ok := substPoly(goal, t, zero).konst(); !ok || g >= 0 {
			continue
		}
		c := p.facts(b, 0)
		X := p.lin(bo.X)
		z := constraints{ge: []poly{X, poly{}.add(X, -1)}}
		for _, g := range c.ge {
			z.ge = append(z.ge, substPoly(g, t, zero))
		}
		out := false
		for _, n := range c.ne {
			if k, ok := substPoly(n, t, zero).konst(); ok && k == 0 || n.eq(X) || n.eq(poly{}.add(X, -1)) {
				out = true
			}
		}
		if !out && p.satisfiable(z) {
			return true
		}
	}
	return false
}

// is the length of v a multiple of m?
func multipleOf(pr *prover, b *ssa.BasicBlock, v ssa.Value, n poly, m int) verdict {
	if k, ok := n.konst(); ok || len(n) == 0 {
		if int64(k)%int64(m) == 0 {
			return vProved
		}
		return vRefuted
	}
	// x - x%m is a multiple
	for t, c := range n {
		a := pr.atoms[t]
		if a == nil || a.len || c >= 0 {
			continue
		}
		rm, ok := a.v.(*ssa.BinOp)
		if !ok {
			continue
		}
		if k, ok := constInt(rm.Y); ok && (rm.Op == token.REM && k%int64(m) == 0 || rm.Op == token.AND && (k+1)%int64(m) == 0) {
			rest := n.add(poly{t: 1}, -c).add(pr.lin(rm.X), c)
			if len(rest) < len(n) {
				return multipleOf(pr, b, v, rest, m)
			}
		}
	}
	// every term a multiple
	all := true
	for t, c := range n {
		if int64(c)%int64(m) == 0 {
			continue
		}
		if t == "" {
			all = false
			break
		}
		if !pr.termMultiple(t, m) {
			all = false
		}
	}
	if all {
		return vProved
	}
	// a dominating test of the remainder
	if len(n) == 1 {
		for d := b; d != nil; d = d.Idom() {
			id := d.Idom()
			if id == nil {
				break
			}
			iff, ok := id.Instrs[len(id.Instrs)-1].(*ssa.If)
			if !ok {
				continue
			}
			bo, ok := iff.Cond.(*ssa.BinOp)
			if !ok || bo.Op != token.EQL && bo.Op != token.NEQ {
				continue
			}
			k, ok1 := constInt(bo.Y)
			rem, ok2 := bo.X.(*ssa.BinOp)
			if !ok1 || k != 0 || !ok2 {
				continue
			}
			q, ok3 := constInt(rem.Y)
			if !ok3 || rem.Op == token.REM && q%int64(m) != 0 || rem.Op == token.AND && (q+1)%int64(m) != 0 || rem.Op != token.REM && rem.Op != token.AND {
				continue
			}
			if !pr.lin(rem.X).eq(n) {
				continue
			}
			k2 := 0
			if bo.Op == token.NEQ {
				k2 = 1
			}
			if len(id.Succs[k2].Preds) == 1 && id.Succs[k2].Dominates(b) {
				return vProved
			}
		}
	}
	// a length that is simply the caller's
	for t := range n {
		a := pr.atoms[t]
		if a != nil && !a.len && len(n) == 1 && n[t] == 1 {
			// rounded down to something else
			if bo, ok := a.v.(*ssa.BinOp); ok && bo.Op == token.AND_NOT {
				if k, ok := constInt(bo.Y); ok && plainLen(bo.X) {
					for x := int64(0); x < 256; x++ {
						if x&^k%int64(m) != 0 {
							return vRefuted
						}
					}
				}
			}
		}
		if t != "" && (a == nil || !a.free) {
			return vUnknown
		}
	}
	if plainInt(v, true, 0, map[ssa.Value]bool{}) {
		return vRefuted
	}
	return vUnknown
}

// len of something not computed here
func plainLen(v ssa.Value) bool {
	c, ok := stripConv(v).(*ssa.Call)
	if !ok {
		return false
	}
	b, ok := c.Call.Value.(*ssa.Builtin)
	return ok && b.Name() == "len" && plainInt(c.Call.Args[0], true, 0, map[ssa.Value]bool{})
}

func (p *prover) termMultiple(t string, m int) bool {
	for _, n := range strings.Split(t, "*") {
		a := p.atoms[n]
		if a == nil {
			continue
		}
		bo, ok := a.v.(*ssa.BinOp)
		if !ok {
			continue
		}
		k, isK := constInt(bo.Y)
		switch bo.Op {
		case token.AND_NOT:
			if isK && (k+1)%int64(m) == 0 {
				return true
			}
		case token.AND:
			if isK && k%int64(m) == 0 {
				return true
			}
		case token.SHL:
			if isK && (int64(1)<<uint(k))%int64(m) == 0 {
				return true
			}
		case token.MUL:
			if isK && k%int64(m) == 0 {
				return true
			}
		case token.SUB:
			// x - x%m
			if rm, ok := bo.Y.(*ssa.BinOp); ok && p.lin(rm.X).eq(p.lin(bo.X)) {
				if k, ok := constInt(rm.Y); ok && (rm.Op == token.REM && k%int64(m) == 0 || rm.Op == token.AND && (k+1)%int64(m) == 0) {
					return true
				}
			}
		}
	}
	return false
}

// argument and result offsets
func c25Frame(w *World, r *Report, fn *ssa.Function, f *asmFunc, rel string, ps, res []asmParam, total int) {
	good := true
	written := map[int]int{}
	for _, in := range f.ins {
		for k, a := range in.args {
			m := fpRe.FindStringSubmatch(a)
			if m == nil {
				if strings.HasSuffix(a, "(FP)") {
					r.undecided("%s line %d: %s", f.name, in.line, a)
					good = false
				}
				continue
			}
			var off int
			fmt.Sscan(m[2], &off)
			width := asmWidth(in.op, in.args)
			store := k == len(in.args)-1 && len(in.args) > 1
			ok := false
			if store {
				for _, p := range res {
					if off == p.off && width <= p.elem {
						ok = true
						written[off] = width
					}
				}
			} else {
				for _, p := range ps {
					switch {
					case p.kind == "slice":
						ok = ok || (off == p.off || off == p.off+8) && width == 8 // the capacity says nothing
					default:
						ok = ok || off == p.off && width == p.elem
					}
				}
				for _, p := range res {
					ok = ok || off == p.off && written[off] > 0
				}
			}
			if !ok {
				good = false
				what := "reads no argument"
				if store {
					what = "writes no result"
				}
				r.bad("frame", fmt.Sprintf("%s|%s", f.name, a), fmt.Sprintf("%s:%d", rel, in.line), "%s: %s of %d bytes %s of %s", f.name, a, width, what, fn.Signature)
			}
		}
	}
	for _, p := range res {
		if written[p.off] != p.elem && good {
			good = false
			r.bad("frame", fmt.Sprintf("%s|result %d", f.name, p.off), fmt.Sprintf("%s:%d", rel, f.line), "%s does not write its result %s at offset %d", f.name, p.name, p.off)
		}
	}
	if good {
		r.ob("frame", "%s: %d arguments, %d results", f.name, len(ps), len(res))
	}
}

// ---------------------------------------------------------------- feature guards

// name of the processor feature a boolean value tests for
func cpuFeature(v ssa.Value, d int) string {
	if d > 4 {
		return ""
	}
	switch x := v.(type) {
	case *ssa.Call:
		c := x.Call.StaticCallee()
		if c == nil {
			return ""
		}
		if c.Pkg != nil && strings.Contains(c.Pkg.Pkg.Path(), "cpuid") {
			if n := c.Name(); n == "Has" || n == "Supports" {
				return ""
			}
			return c.Name()
		}
		// a helper that returns the test
		if len(c.Blocks) == 1 {
			if rt, ok := c.Blocks[0].Instrs[len(c.Blocks[0].Instrs)-1].(*ssa.Return); ok && len(rt.Results) == 1 {
				return cpuFeature(rt.Results[0], d+1)
			}
		}
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return ""
		}
		switch a := x.X.(type) {
		case *ssa.Global:
			// assigned once
			var val ssa.Value
			n := 0
			if a.Pkg == nil {
				return ""
			}
			if strings.HasPrefix(a.Pkg.Pkg.Path(), Mod) {
				for _, m := range a.Pkg.Members {
					f, ok := m.(*ssa.Function)
					if !ok {
						continue
					}
					for _, b := range f.Blocks {
						for _, i := range b.Instrs {
							if st, ok := i.(*ssa.Store); ok && st.Addr == ssa.Value(a) {
								val = st.Val
								n++
							}
						}
					}
				}
			}
			if n == 1 {
				return cpuFeature(val, d+1)
			}
		case *ssa.FieldAddr:
			if n := fieldName(a.X.Type(), a.Field); strings.HasPrefix(n, "Has") {
				if nt, ok := deref(a.X.Type()).(*types.Named); ok || nt == nil {
					return strings.TrimPrefix(n, "Has")
				}
			}
		}
		if s := singleStore(x.X); s != nil {
			return cpuFeature(s, d+1)
		}
	}
	return ""
}

// does cond having value val imply that the processor has feature ft?
func impliesFeature(cond ssa.Value, val bool, ft string, d int) bool {
	if d > 6 {
		return false
	}
	if val {
		if n := cpuFeature(cond, 0); n != "" && contains(implied[ft], n) {
			return true
		}
	}
	switch x := cond.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return impliesFeature(x.X, !val, ft, d+1)
		}
	case *ssa.BinOp:
		if k, ok := x.Y.(*ssa.Const); ok && (x.Op == token.EQL || x.Op == token.NEQ) && k.Value != nil && k.Value.Kind() == constant.Bool {
			kv := constant.BoolVal(k.Value)
			return impliesFeature(x.X, (x.Op == token.EQL) == (kv == val), ft, d+1)
		}
	case *ssa.Phi:
		// a && b, a || b stored in a variable
		for k, e := range x.Edges {
			if c, ok := e.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Bool && constant.BoolVal(c.Value) != val {
				continue
			}
			if impliesFeature(e, val, ft, d+1) || guardedBy(x.Block().Preds[k], ft, d+1) || edgeFeature(x.Block().Preds[k], x.Block(), ft, d+1) {
				continue
			}
			return false
		}
		return true
	case *ssa.Call:
		// a helper: every return of val happens only with the feature
		c := x.Call.StaticCallee()
		if c == nil || len(c.Blocks) == 0 || d > 3 {
			return false
		}
		for _, b := range c.Blocks {
			rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok || b == c.Recover || len(rt.Results) != 1 {
				continue
			}
			if k, ok := rt.Results[0].(*ssa.Const); ok && k.Value != nil && constant.BoolVal(k.Value) != val {
				continue
			}
			if !impliesFeature(rt.Results[0], val, ft, d+1) && !guardedBy(b, ft, d+1) {
				return false
			}
		}
		return true
	}
	return false
}

func edgeFeature(pred, b *ssa.BasicBlock, ft string, d int) bool {
	iff, ok := pred.Instrs[len(pred.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	for k, s := range pred.Succs {
		if s == b && pred.Succs[1-k] != b {
			return impliesFeature(iff.Cond, k == 0, ft, d)
		}
	}
	return false
}

// is b only reached after the feature was found?
func guardedBy(b *ssa.BasicBlock, ft string, d int) bool {
	if d > 8 {
		return false
	}
	seen := map[*ssa.BasicBlock]bool{}
	var free func(x *ssa.BasicBlock) bool // reachable from the entry without the feature?
	free = func(x *ssa.BasicBlock) bool {
		if seen[x] {
			return false
		}
		seen[x] = true
		if len(x.Preds) == 0 {
			return true
		}
		for _, p := range x.Preds {
			if edgeFeature(p, x, ft, d+1) {
				continue
			}
			if free(p) {
				return true
			}
		}
		return false
	}
	return !free(b)
}

func c25Guarded(w *World, r *Report, fn *ssa.Function, ft string, d int, seen map[*ssa.Function]bool, root *ssa.Function) {
	if seen[fn] {
		return
	}
	seen[fn] = true
	if d > 5 {
		r.undecided("%s: chain of callers", fname(root))
		return
	}
	used := false
	for _, g := range w.Funcs {
		for _, b := range g.Blocks {
			for _, i := range b.Instrs {
				var ops []*ssa.Value
				ref := false
				for _, o := range i.Operands(ops) {
					if *o == ssa.Value(fn) {
						ref = true
					}
				}
				if !ref {
					continue
				}
				used = true
				where := fmt.Sprintf("%s used at %s", fname(fn), w.ipos(i))
				if guardedBy(b, ft, 0) {
					r.ob("guard", "%s: after testing for %s", where, ft)
					continue
				}
				if ph, ok := i.(*ssa.Phi); ok {
					ok2 := true
					for k, e := range ph.Edges {
						if e == ssa.Value(fn) && !guardedBy(b.Preds[k], ft, 0) && !edgeFeature(b.Preds[k], b, ft, 0) {
							ok2 = false
						}
					}
					if ok2 {
						r.ob("guard", "%s: chosen after testing for %s", where, ft)
						continue
					}
				}
				// leave it to the callers
				top := g
				for top.Parent() != nil {
					top = top.Parent()
				}
				callers := w.calls().callers[g]
				if _, isCall := i.(*ssa.Call); isCall && len(callers) > 0 && (top.Object() == nil || !top.Object().Exported()) && top.Name() != "init" {
					c25Guarded(w, r, g, ft, d+1, seen, root)
					continue
				}
				r.bad("guard", fname(root)+"|"+ft+"|"+fname(g), w.ipos(i), "%s uses %s instructions, but %s reaches it without testing that the processor supports them", fname(root), ft, fname(g))
			}
		}
	}
	if !used && d == 0 {
		r.note("%s is not used", fname(fn))
	}
}

// ---------------------------------------------------------------- portable variants

func c25Same(w *World, r *Report, a, b *platWorld) {
	prog, spkgs := ssautil.Packages(b.ps, ssa.InstantiateGenerics)
	files := map[string]bool{}
	for _, p := range a.ps {
		for _, f := range p.CompiledGoFiles {
			files[f] = true
		}
	}
	for k, p := range b.ps {
		special := map[string]bool{}
		for _, f := range p.CompiledGoFiles {
			if !files[f] {
				special[f] = true
			}
		}
		if len(special) == 0 || spkgs[k] == nil {
			continue
		}
		spkgs[k].Build()
		for _, f := range p.Syntax {
			if !special[p.Fset.Position(f.Pos()).Filename] {
				continue
			}
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok {
					continue
				}
				o, _ := p.TypesInfo.Defs[fd.Name].(*types.Func)
				if o == nil {
					continue
				}
				there := prog.FuncValue(o)
				var here *ssa.Function
				if fd.Recv == nil && w.SSA[p.PkgPath] != nil {
					here, _ = w.SSA[p.PkgPath].Members[fd.Name.Name].(*ssa.Function)
				}
				if here == nil || there == nil {
					continue // a helper that only exists there
				}
				if len(here.Blocks) == 0 {
					continue
				}
				where := fmt.Sprintf("%s on %s", fname(here), b.pl)
				x, ok1 := c25Behaviour(here)
				y, ok2 := c25Behaviour(there)
				if !ok1 || !ok2 {
					r.undecided("%s: control flow", where)
					continue
				}
				bad := ""
				for s := range x {
					if !y[s] {
						bad = s
					}
				}
				for s := range y {
					if !x[s] && bad == "" {
						bad = s
					}
				}
				if bad == "" {
					r.ob("same", "%s: %s", where, strings.Join(c25keys(x), " or "))
				} else {
					r.bad("same", fname(here)+"|"+b.pl.arch, w.pos(here.Pos()), "without the processor feature, %s does [%s] on %s, but [%s] on %s", fname(here), strings.Join(c25keys(x), " or "), a.pl, strings.Join(c25keys(y), " or "), b.pl)
				}
			}
		}
	}
}

// what a function does when no processor feature is there: the calls, stores and results on each path
func c25Behaviour(f *ssa.Function) (map[string]bool, bool) {
	res := map[string]bool{}
	ok := true
	var expand func(x *ssa.Call, name func(v ssa.Value) string, trace *[]string, d int) (string, bool)
	var walk func(b, prev *ssa.BasicBlock, trace []string, env map[ssa.Value]string, seen map[*ssa.BasicBlock]bool, n int)
	walk = func(b, prev *ssa.BasicBlock, trace []string, env map[ssa.Value]string, seen map[*ssa.BasicBlock]bool, n int) {
		if seen[b] || n > 30 || len(res) > 20 {
			ok = false
			return
		}
		s2 := map[*ssa.BasicBlock]bool{b: true}
		for k := range seen {
			s2[k] = true
		}
		e2 := map[ssa.Value]string{}
		for k, v := range env {
			e2[k] = v
		}
		var name func(v ssa.Value) string
		name = func(v ssa.Value) string {
			if s, ok := e2[v]; ok {
				return s
			}
			switch x := v.(type) {
			case *ssa.Parameter:
				for i, p := range f.Params {
					if p == x {
						return fmt.Sprintf("arg%d", i)
					}
				}
			case *ssa.Const:
				return x.String()
			case *ssa.Function:
				return x.String()
			case *ssa.Global:
				return x.String()
			case *ssa.Builtin:
				return x.Name()
			}
			return "?" + v.Name()
		}
		for _, i := range b.Instrs {
			switch x := i.(type) {
			case *ssa.Phi:
				for k, p := range b.Preds {
					if p == prev {
						e2[x] = name(x.Edges[k])
					}
				}
			case *ssa.Call:
				if ft := cpuFeature(x, 0); ft != "" {
					e2[x] = "false:bool"
					continue
				}
				if c := x.Call.StaticCallee(); c != nil && isNewHelper(c) {
					s, good := expand(x, name, &trace, 0)
					if !good {
						ok = false
						return
					}
					e2[x] = s
					continue
				}
				var as []string
				for _, a := range x.Call.Args {
					as = append(as, name(a))
				}
				s := name(x.Call.Value) + "(" + strings.Join(as, ",") + ")"
				if bi, isB := x.Call.Value.(*ssa.Builtin); !isB || bi.Name() != "len" && bi.Name() != "cap" {
					trace = append(trace, s)
				}
				e2[x] = s
			case *ssa.Store:
				trace = append(trace, name(x.Addr)+":="+name(x.Val))
			case *ssa.Return:
				var as []string
				for _, a := range x.Results {
					as = append(as, name(a))
				}
				res[strings.Join(trace, "; ")+" => "+strings.Join(as, ",")] = true
				return
			case *ssa.Panic:
				res[strings.Join(trace, "; ")+" panic"] = true
				return
			case *ssa.Jump:
				walk(b.Succs[0], b, trace, e2, s2, n+1)
				return
			case *ssa.If:
				cs := name(x.Cond)
				if ft := cpuFeature(x.Cond, 0); ft != "" {
					cs = "false:bool"
				}
				if !strings.HasPrefix(cs, "false") {
					walk(b.Succs[0], b, append([]string(nil), trace...), e2, s2, n+1)
				}
				if !strings.HasPrefix(cs, "true") {
					walk(b.Succs[1], b, append([]string(nil), trace...), e2, s2, n+1)
				}
				return
			case *ssa.UnOp:
				if x.Op == token.NOT && name(x.X) == "false:bool" {
					e2[x] = "true:bool"
				} else if x.Op == token.MUL && cpuFeature(x, 0) != "" {
					e2[x] = "false:bool"
				} else {
					e2[x] = x.Op.String() + "(" + name(x.X) + ")"
				}
			case *ssa.BinOp:
				e2[x] = "(" + name(x.X) + x.Op.String() + name(x.Y) + ")"
			case *ssa.Convert:
				e2[x] = x.Type().String() + "(" + name(x.X) + ")"
			case *ssa.Extract:
				e2[x] = fmt.Sprintf("%s.%d", name(x.Tuple), x.Index)
			case *ssa.Slice:
				s := name(x.X) + "["
				for _, q := range []ssa.Value{x.Low, x.High, x.Max} {
					if q != nil {
						s += name(q)
					}
					s += ":"
				}
				e2[x] = s + "]"
			case *ssa.FieldAddr:
				e2[x] = fmt.Sprintf("&%s.%d", name(x.X), x.Field)
			case *ssa.IndexAddr:
				e2[x] = fmt.Sprintf("&%s[%s]", name(x.X), name(x.Index))
			case *ssa.Go, *ssa.Defer, *ssa.Send, *ssa.Select:
				ok = false
			case ssa.Value:
				e2[x] = fmt.Sprintf("%T", x)
			}
		}
	}
	// a helper that only passes values on
	expand = func(x *ssa.Call, name func(v ssa.Value) string, trace *[]string, d int) (string, bool) {
		c := x.Call.StaticCallee()
		if len(c.Blocks) != 1 || d > 3 {
			return "", false
		}
		env := map[ssa.Value]string{}
		for i, p := range c.Params {
			env[p] = name(x.Call.Args[i])
		}
		in := func(v ssa.Value) string {
			if s, ok := env[v]; ok {
				return s
			}
			switch y := v.(type) {
			case *ssa.Const, *ssa.Function, *ssa.Global:
				return y.String()
			}
			return "?" + v.Name()
		}
		for _, i := range c.Blocks[0].Instrs {
			switch y := i.(type) {
			case *ssa.Call:
				if cc := y.Call.StaticCallee(); cc != nil && isNewHelper(cc) {
					s, good := expand(y, in, trace, d+1)
					if !good {
						return "", false
					}
					env[y] = s
					continue
				}
				var as []string
				for _, a := range y.Call.Args {
					as = append(as, in(a))
				}
				s := in(y.Call.Value) + "(" + strings.Join(as, ",") + ")"
				*trace = append(*trace, s)
				env[y] = s
			case *ssa.Extract:
				env[y] = fmt.Sprintf("%s.%d", in(y.Tuple), y.Index)
			case *ssa.Return:
				if len(y.Results) == 0 {
					return "", true
				}
				s := in(y.Results[0])
				if len(y.Results) > 1 {
					// only whole results of one call are passed on
					ex, isEx := y.Results[0].(*ssa.Extract)
					if !isEx {
						return "", false
					}
					for k, q := range y.Results {
						if e, ok := q.(*ssa.Extract); !ok || e.Tuple != ex.Tuple || e.Index != k {
							return "", false
						}
					}
					s = in(ex.Tuple)
				}
				return s, true
			case *ssa.DebugRef:
			default:
				return "", false
			}
		}
		return "", false
	}
	if len(f.Blocks) > 0 {
		walk(f.Blocks[0], nil, nil, map[ssa.Value]string{}, map[*ssa.BasicBlock]bool{}, 0)
	}
	return res, ok && len(res) > 0
}

// ---------------------------------------------------------------- atomics

func c25Align(w *World, r *Report, pw *platWorld) {
	sizes := types.SizesFor("gc", "arm")
	for _, f := range w.Funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				c, ok := i.(ssa.CallInstruction)
				if !ok {
					continue
				}
				n := calleeName(c.Common())
				if !strings.HasPrefix(n, "sync/atomic.") || !strings.HasSuffix(n, "64") || len(c.Common().Args) == 0 {
					continue
				}
				off := int64(0)
				v := c.Common().Args[0]
				for {
					fa, ok := v.(*ssa.FieldAddr)
					if !ok {
						break
					}
					st := deref(fa.X.Type()).Underlying().(*types.Struct)
					var fs []*types.Var
					for k := 0; k < st.NumFields(); k++ {
						fs = append(fs, st.Field(k))
					}
					off += sizes.Offsetsof(fs)[fa.Field]
					v = fa.X
				}
				if off%8 != 0 {
					r.bad("align", fname(f)+"|"+n, w.ipos(i), "%s on a field at offset %d, which is not aligned on 32-bit ARM: the operation panics there", n, off)
				} else {
					r.ob("align", "%s: %s at %s", fname(f), n, w.ipos(i))
				}
			}
		}
	}
}

func c25keys(m map[string]bool) (r []string) {
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return
}

// a module function that the baseline does not know: extracted from one it does know
func isNewHelper(f *ssa.Function) bool {
	o, ok := f.Object().(*types.Func)
	if !ok || o.Pkg() == nil || !strings.HasPrefix(o.Pkg().Path(), Mod) {
		return false
	}
	return !strings.Contains(baselineText, "\n"+declKey(o)+"\t") && !strings.HasPrefix(baselineText, declKey(o)+"\t")
}
