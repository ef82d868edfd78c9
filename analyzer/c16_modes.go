package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

// C16: unknown modes are rejected, known modes are implemented.
//
// The value-set analysis runs every function that a mode selects the behaviour of, once for each defined value and for
// values outside of the definition. After an undefined value has been examined, only an error may be returned; for every
// defined value, a successful return is reachable and the decision made on it leads somewhere of its own.

func init() {
	register("C16", "value-set analysis of every mode-selected step for all defined mode values and for representatives of all others: undefined values lead to errors only, defined values succeed and have a branch of their own", runC16)
}

type modeSel struct {
	name   string
	op     string            // operator
	json   string            // its mode setting
	with   map[string]string // other settings
	group  string            // type whose constants define the modes (package, name)
	known  []string          // values, for strings
	bad    []string          // undefined values, for strings
	none   map[string]bool   // constants that are placeholders resolved before the operator is built: may be rejected
	root   string            // method the mode is examined in, if not Apply
	silent map[string]bool   // strings that need not be examined
}

var modeSels = []modeSel{
	{name: "stacking mode", op: "ops/stack.OpStack", json: "mode", group: "internal/ops/stack.StackMode"},
	{name: "weighting", op: "ops/stack.OpStack", json: "weighting", group: "internal/ops/stack.StackWeighting"},
	{name: "histogram matching", op: "ops/post.OpMatchHistogram", json: "mode", group: "internal/ops/post.HistoNormMode", none: map[string]bool{"HNMAuto": true}},
	{name: "out of bounds mode", op: "ops/post.OpAlign", json: "oobMode", group: "internal/ops/post.OutOfBoundsMode"},
	{name: "reference selection target", op: "ops/ref.OpSelectReference", json: "target", group: "internal/ops/ref.SelRefTarget", root: "findReference"},
	{name: "export range", op: "ops.OpSave", json: "saveMode", group: "internal/ops.ExportMode"},
	{name: "output format", op: "ops.OpSave", json: "filePattern", with: map[string]string{"saveMode": "0"},
		known: []string{"x.fits", "x.fit", "x.fts", "x.fits.gz", "x.fit.gz", "x.fts.gz", "x.fits.gzip", "x.tif", "x.tiff", "x.jpg", "x.jpeg", "X.FITS", "X.Tif", "X.JPG"},
		bad:   []string{"x.bmp", "x", "fits", "x.fits.bak", "x.tiffx", "xjpg", "x.png"}},
	{name: "debayered channel", op: "ops/pre.OpDebayer", json: "channel", with: map[string]string{"colorFilterArray": `"RGGB"`}, known: []string{"R", "G", "B", "r", "g", "b"}, bad: []string{"X", "RGB", " "}},
	{name: "colour filter array", op: "ops/pre.OpDebayer", json: "colorFilterArray", with: map[string]string{"channel": `"R"`}, known: []string{"RGGB", "GRBG", "GBRG", "BGGR", "rggb", "grbg", "gbrg", "bggr"}, bad: []string{"X", "RGBG", "RRGB", "Rggb?"}},
	{name: "corrected channel", op: "ops/pre.OpBadPixel", json: "Debayer.channel", with: map[string]string{"sigmaLow": "3", "sigmaHigh": "5", "Debayer.colorFilterArray": `"RGGB"`}, known: []string{"R", "G", "B", "r", "g", "b"}, bad: []string{"X", "RGB"}},
	{name: "corrected colour filter array", op: "ops/pre.OpBadPixel", json: "Debayer.colorFilterArray", with: map[string]string{"sigmaLow": "3", "sigmaHigh": "5", "Debayer.channel": `"G"`}, known: []string{"RGGB", "GRBG", "GBRG", "BGGR", "rggb", "grbg", "gbrg", "bggr"}, bad: []string{"X", "RGBG"}},
}

type c16 struct {
	w *World
	r *Report
}

// constants of an enumeration: those of the type, or of the declaration right after the type if they are untyped
func (w *World) constGroup(path string) []*types.Const {
	k := strings.LastIndex(path, ".")
	var p *packages.Package
	for _, q := range w.Pkgs {
		if q.PkgPath == Mod+"/"+path[:k] {
			p = q
		}
	}
	if p == nil {
		return nil
	}
	tn, ok := p.Types.Scope().Lookup(path[k+1:]).(*types.TypeName)
	if !ok {
		return nil
	}
	if n, ok := tn.Type().(*types.Named); ok {
		if cs := enumConsts(n); len(cs) > 1 {
			sort.Slice(cs, func(i, j int) bool { return constant.Compare(cs[i].Val(), token.LSS, cs[j].Val()) })
			return cs
		}
	}
	for _, f := range p.Syntax {
		found := false
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok {
				found = false
				continue
			}
			if g.Tok == token.TYPE {
				for _, s := range g.Specs {
					if ts, ok := s.(*ast.TypeSpec); ok && ts.Name.Name == path[k+1:] {
						found = true
					}
				}
				continue
			}
			if g.Tok != token.CONST || !found {
				found = false
				continue
			}
			var res []*types.Const
			for _, s := range g.Specs {
				for _, n := range s.(*ast.ValueSpec).Names {
					if c, ok := p.TypesInfo.Defs[n].(*types.Const); ok {
						res = append(res, c)
					}
				}
			}
			return res
		}
	}
	return nil
}

// strings functions on known arguments
func foldCall(ai *AI, fr *aFrame, st *aState, c *ssa.Call) vset {
	n := calleeName(&c.Call)
	var as []string
	for _, a := range c.Call.Args {
		s := ai.val(fr, st, a)
		if len(s) != 1 {
			return nil
		}
		for _, v := range s {
			if v == nil || v.Kind() != constant.String {
				return nil
			}
			as = append(as, constant.StringVal(v))
		}
	}
	switch {
	case n == "strings.ToLower" && len(as) == 1:
		return vstr(strings.ToLower(as[0]))
	case n == "strings.ToUpper" && len(as) == 1:
		return vstr(strings.ToUpper(as[0]))
	case n == "strings.TrimSpace" && len(as) == 1:
		return vstr(strings.TrimSpace(as[0]))
	case n == "strings.HasSuffix" && len(as) == 2:
		return vbool(strings.HasSuffix(as[0], as[1]))
	case n == "strings.HasPrefix" && len(as) == 2:
		return vbool(strings.HasPrefix(as[0], as[1]))
	case n == "strings.Contains" && len(as) == 2:
		return vbool(strings.Contains(as[0], as[1]))
	case n == "strings.EqualFold" && len(as) == 2:
		return vbool(strings.EqualFold(as[0], as[1]))
	case n == "strings.TrimSuffix" && len(as) == 2:
		return vstr(strings.TrimSuffix(as[0], as[1]))
	case (n == "path.Ext" || n == "path/filepath.Ext") && len(as) == 1:
		if k := strings.LastIndex(as[0], "."); k >= 0 {
			return vstr(as[0][k:])
		}
		return vstr("")
	}
	return nil
}

const cmpMark = "#examined"

type modeRun struct {
	ok       []*ssa.Return // successful returns after the mode was examined
	silent   []*ssa.Return // successful returns without
	unclear  []*ssa.Return
	err      int
	examined bool
	lookup   ssa.Instruction
	blocks   map[*ssa.BasicBlock]bool
	tests    map[*ssa.BinOp]vset // tests of the mode for equality with a constant -> outcomes
	over     bool
	calls    map[string][]vset // parameter name of writers -> values
}

func (c *c16) run(f *ssa.Function, mode constant.Value, typ types.Type, depth int, init func(st *aState, key func(p *ssa.Parameter) string)) *modeRun {
	res := &modeRun{blocks: map[*ssa.BasicBlock]bool{}, tests: map[*ssa.BinOp]vset{}, calls: map[string][]vset{}}
	ai := newAI(c.w)
	ai.maxDepth = depth
	isMode := func(s vset, t types.Type) bool {
		if len(s) != 1 || !types.Identical(t, typ) && !types.Identical(t.Underlying(), typ.Underlying()) {
			return false
		}
		for _, v := range s {
			return v != nil && v.Kind() == mode.Kind() && constant.Compare(v, token.EQL, mode)
		}
		return false
	}
	mark := func(st *aState) {
		st.locs[cmpMark] = vbool(true)
		res.examined = true
	}
	ai.fold = func(fr *aFrame, st *aState, cl *ssa.Call) vset {
		if mode.Kind() != constant.String {
			return nil
		}
		r := foldCall(ai, fr, st, cl)
		if r != nil && (r.only("true") || r.only("false")) {
			mark(st)
		}
		return r
	}
	test := func(fr *aFrame, i ssa.Instruction, st *aState) {
		switch x := i.(type) {
		case *ssa.BinOp:
			if !isCmp(x.Op) {
				return
			}
			for side, v := range []ssa.Value{x.X, x.Y} {
				o := []ssa.Value{x.Y, x.X}[side]
				if _, ok := v.(*ssa.Const); ok {
					continue
				}
				if ov := ai.val(fr, st, o); len(ov) == 0 && isMode(ai.val(fr, st, v), v.Type()) {
					res.lookup = i // compared with the entries of a table
					mark(st)
				}
				if _, ok := o.(*ssa.Const); !ok {
					continue
				}
				if isMode(ai.val(fr, st, v), v.Type()) {
					mark(st)
					if x.Op == token.EQL || x.Op == token.NEQ {
						res.tests[x] = vcompare(x.Op, ai.val(fr, st, v), ai.val(fr, st, o))
					}
				}
			}
		case *ssa.Lookup:
			if isMode(ai.val(fr, st, x.Index), x.Index.Type()) {
				res.lookup = x
			}
		case *ssa.IndexAddr:
			if _, basic := deref(x.Type()).Underlying().(*types.Basic); !basic && isMode(ai.val(fr, st, x.Index), x.Index.Type()) {
				if _, ok := x.X.(*ssa.Global); ok {
					res.lookup = x
				} else if u, ok := x.X.(*ssa.UnOp); ok {
					if _, ok := u.X.(*ssa.Global); ok {
						res.lookup = x
					}
				}
			}
		}
	}
	ai.before = test
	ai.visit = func(fr *aFrame, i ssa.Instruction, st *aState) {
		res.blocks[i.Block()] = true
		if ci, ok := i.(ssa.CallInstruction); ok {
			t := ci.Common().StaticCallee()
			if t == nil || !c.w.inMod[t] {
				return
			}
			for _, p := range t.Params {
				if a := argFor(p, t, ci); a != nil {
					k := t.Name() + "." + p.Name()
					res.calls[k] = append(res.calls[k], ai.val(fr, st, a))
				}
			}
		}
	}
	rets := ai.run(f, func(st *aState, key func(p *ssa.Parameter) string) {
		for _, p := range f.Params {
			if _, ok := p.Type().Underlying().(*types.Pointer); ok {
				st.vals[p] = vtag(vNonNil)
			}
		}
		st.locs[cmpMark] = vbool(false)
		init(st, key)
	})
	res.over = ai.over
	for _, rt := range rets {
		var ev vset
		hasErr := false
		for k, v := range rt.vals {
			if isErrT(f.Signature.Results().At(k).Type()) {
				ev, hasErr = v, true
			}
		}
		_, may := rt.st.locs[cmpMark]["true"]
		if rt.st.locs[cmpMark] == nil {
			may = true
		}
		switch {
		case hasErr && ev.only(vNonNil):
			res.err++
		case hasErr && !ev.only(vNil):
			if _, ok := ev[vNil]; ok || c.successPossible(rt.at) {
				if may {
					res.ok = append(res.ok, rt.at)
				} else {
					res.silent = append(res.silent, rt.at)
				}
			} else {
				res.unclear = append(res.unclear, rt.at)
			}
		case may:
			res.ok = append(res.ok, rt.at)
		default:
			res.silent = append(res.silent, rt.at)
		}
	}
	return res
}

// the error of a call is passed on: success is possible as far as this function is concerned
func (c *c16) successPossible(rt *ssa.Return) bool {
	for _, v := range rt.Results {
		if isErrT(v.Type()) && definitelyErr(v, rt.Block(), 0) {
			return false
		}
	}
	return true
}

func runC16(w *World, r *Report) {
	r.rule("rejected", "undefined mode values that only lead to errors once they are examined", 25)
	r.rule("succeeds", "defined mode values with a reachable successful return", 45)
	r.rule("implemented", "defined mode values with a branch of their own in every decision between modes", 15)
	r.rule("dispatch", "calls of functions named after a mode in the branch of that mode", 0)
	r.rule("range", "export ranges whose limits are the ones their name spells out", 3)
	r.rule("estimator", "estimators of location and scale: all implemented, unknown ones never selected", 5)
	c := &c16{w: w, r: r}
	byName := map[string]*opType{}
	for _, o := range w.operators() {
		byName[o.name()] = o
	}
	for _, m := range modeSels {
		c.selector(m, byName[m.op])
	}
	c.estimator()
	c.placeholders(byName)
}

func (c *c16) selector(m modeSel, o *opType) {
	w, r := c.w, c.r
	if o == nil {
		r.undecided("%s: operator %s not found", m.name, m.op)
		return
	}
	f := o.apply
	if m.root != "" {
		f = nil
		for i := 0; i < o.named.NumMethods(); i++ {
			if o.named.Method(i).Name() == m.root {
				f = w.Prog.FuncValue(o.named.Method(i))
			}
		}
	}
	if f == nil || len(f.Blocks) == 0 {
		r.undecided("%s: %s has no function to analyse", m.name, m.op)
		return
	}
	paths := map[string]string{}
	typs := map[string]types.Type{}
	ptrs := map[string]bool{}
	for _, fl := range flatFields(o.st, "") {
		if fl.json != "" {
			paths[fl.json] = fl.path
			typs[fl.json] = fl.v.Type()
		}
		if p, ok := fl.v.Type().(*types.Pointer); ok {
			if s, ok := p.Elem().Underlying().(*types.Struct); ok {
				for _, g := range flatFields(s, "") {
					if g.json != "" {
						paths[fl.v.Name()+"."+g.json] = fl.path + "^" + g.path
						typs[fl.v.Name()+"."+g.json] = g.v.Type()
					}
				}
				ptrs[fl.path] = true
			}
		}
	}
	if paths[m.json] == "" {
		r.undecided("%s: setting %s of %s not found", m.name, m.json, m.op)
		return
	}
	typ := typs[m.json]
	exec := func(v constant.Value) *modeRun {
		return c.run(f, v, typ, 5, func(st *aState, key func(p *ssa.Parameter) string) {
			base := key(f.Params[0])
			for k, x := range m.with {
				if paths[k] != "" {
					cv := parseConst(x)
					if y := convConst(cv, typs[k]); y != nil {
						cv = y
					}
					st.locs[base+paths[k]] = vconst(cv)
				}
			}
			if strings.Contains(m.json, ".") {
				for p := range ptrs {
					st.locs[base+p] = vtag(vNonNil)
				}
			}
			st.locs[base+paths[m.json]] = vconst(v)
			for _, p := range f.Params[1:] {
				if isImageT(p.Type()) {
					st.locs[key(p)+".Stats"] = vtag(vNonNil)
				}
			}
		})
	}
	type val struct {
		name string
		v    constant.Value
		none bool
	}
	var known, bad []val
	if m.group != "" {
		cs := w.constGroup(m.group)
		if len(cs) < 2 {
			r.undecided("%s: constants of %s not found", m.name, m.group)
			return
		}
		lo, hi := int64(1<<40), int64(-1<<40)
		defined := map[int64]bool{}
		for _, k := range cs {
			n, _ := constant.Int64Val(k.Val())
			defined[n] = true
			if n < lo {
				lo = n
			}
			if n > hi {
				hi = n
			}
			known = append(known, val{k.Name(), k.Val(), m.none[k.Name()]})
		}
		cand := []int64{lo - 1, hi + 1, 7777, -7777}
		more := map[int64]bool{}
		for _, f := range w.Funcs { // values the mode is compared with anywhere
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					bo, ok := i.(*ssa.BinOp)
					if !ok || !isCmp(bo.Op) {
						continue
					}
					for _, o := range []ssa.Value{bo.X, bo.Y} {
						if k, ok := o.(*ssa.Const); ok && k.Value != nil && types.Identical(k.Type(), typ) && k.Value.Kind() == constant.Int {
							n, _ := constant.Int64Val(k.Value)
							for _, d := range []int64{n - 1, n, n + 1} {
								if d != lo-1 && d != hi+1 {
									more[d] = true
								}
							}
						}
					}
				}
			}
		}
		for n := range more {
			cand = append(cand, n)
		}
		sort.Slice(cand[4:], func(i, j int) bool { return cand[4+i] < cand[4+j] })
		for _, n := range cand {
			if !defined[n] {
				bad = append(bad, val{fmt.Sprint(n), constant.MakeInt64(n), false})
			}
		}
	}
	for _, s := range m.known {
		known = append(known, val{fmt.Sprintf("%q", s), constant.MakeString(s), false})
	}
	for _, s := range m.bad {
		bad = append(bad, val{fmt.Sprintf("%q", s), constant.MakeString(s), false})
	}
	runs := map[string]*modeRun{}
	for _, b := range bad {
		x := exec(b.v)
		switch {
		case x.over:
			r.undecided("%s %s of %s: analysis did not finish", m.name, b.name, m.op)
		case len(x.ok) > 0 && x.lookup != nil:
			r.undecided("%s %s of %s: looked up in a table at %s", m.name, b.name, m.op, w.ipos(x.lookup))
		case len(x.ok) > 0:
			r.bad("rejected", m.op+"|"+m.json, w.ipos(x.ok[0]), "%s of %s: the undefined value %s is not rejected, %s can return success", m.name, m.op, b.name, fname(f))
		case !x.examined:
			r.undecided("%s of %s: no decision on the value found in %s", m.name, m.op, fname(f))
		default:
			r.ob("rejected", "%s of %s: %s leads to %d error returns only", m.name, m.op, b.name, x.err)
		}
	}
	for _, k := range known {
		x := exec(k.v)
		runs[k.name] = x
		if x.over {
			r.undecided("%s %s of %s: analysis did not finish", m.name, k.name, m.op)
			continue
		}
		if len(x.ok) == 0 {
			switch {
			case k.none:
				r.note("%s %s of %s is only accepted on the command line", m.name, k.name, m.op)
			case len(x.silent) == 0 || x.examined && x.err > 0 && m.json != "filePattern":
				r.bad("succeeds", m.op+"|"+m.json+"|"+k.name, w.pos(f.Pos()), "%s of %s: the defined value %s is always rejected", m.name, m.op, k.name)
			}
			continue
		}
		r.ob("succeeds", "%s of %s: %s can succeed", m.name, m.op, k.name)
	}
	// decisions between modes
	if m.group == "" {
		return
	}
	perFn := map[*ssa.Function]map[string]bool{} // function -> modes that match a test
	seenIn := map[*ssa.Function]map[string]bool{}
	for _, k := range known {
		for t, out := range runs[k.name].tests {
			fn := t.Parent()
			if perFn[fn] == nil {
				perFn[fn], seenIn[fn] = map[string]bool{}, map[string]bool{}
			}
			seenIn[fn][k.name] = true
			want := "true"
			if t.Op == token.NEQ {
				want = "false"
			}
			if _, ok := out[want]; ok {
				perFn[fn][k.name] = true
			}
		}
	}
	// the function that tells most of the modes apart implements them; others merely single some of them out
	most := 0
	for _, match := range perFn {
		if len(match) > most {
			most = len(match)
		}
	}
	for fn, match := range perFn {
		if len(match) < 2 || len(match) < most {
			continue
		}
		c.dispatch(m, fn, match, func(name string) *modeRun { return runs[name] })
		for _, k := range known {
			x := runs[k.name]
			if !seenIn[fn][k.name] || k.none {
				continue
			}
			if match[k.name] {
				r.ob("implemented", "%s %s has its own branch in %s", m.name, k.name, fname(fn))
				continue
			}
			own := false
			for b := range x.blocks {
				if b.Parent() != fn {
					continue
				}
				mine := true
				for _, j := range known {
					if match[j.name] && runs[j.name].blocks[b] {
						mine = false
					}
				}
				if mine && !c.onlyTests(b) {
					own = true
				}
			}
			if own || c.defaultValue(fn, x) {
				r.ob("implemented", "%s %s has its own branch in %s", m.name, k.name, fname(fn))
			} else {
				r.bad("implemented", m.op+"|"+m.json+"|"+k.name, w.pos(fn.Pos()), "%s: %s decides between modes but has no branch for %s", m.name, fname(fn), k.name)
			}
		}
	}
	// names of export ranges spell out the limits
	re := regexp.MustCompile(`^EM(\d+)_(\d+)$`)
	for _, k := range known {
		g := re.FindStringSubmatch(k.name)
		if g == nil {
			continue
		}
		x := runs[k.name]
		n := 0
		for call, vs := range x.calls {
			want := ""
			switch {
			case strings.HasPrefix(call, "Write") && strings.HasSuffix(call, ".min"):
				want = g[1]
			case strings.HasPrefix(call, "Write") && strings.HasSuffix(call, ".max"):
				want = g[2]
			default:
				continue
			}
			for _, v := range vs {
				n++
				if v == nil {
					r.undecided("export range %s: limit passed to %s not known", k.name, call)
					continue
				}
				for s, cv := range v {
					if cv == nil || !constant.Compare(cv, token.EQL, constant.MakeFromLiteral(want, token.INT, 0)) {
						r.bad("range", "range|"+k.name+"|"+call, w.pos(f.Pos()), "export range %s passes %s as %s", k.name, s, call)
					}
				}
			}
		}
		if n > 0 {
			r.ob("range", "%s: limits %s to %s in %d arguments", k.name, g[1], g[2], n)
		}
	}
}

// a branch of one mode that calls the function named after another one
func (c *c16) dispatch(m modeSel, fn *ssa.Function, match map[string]bool, run func(string) *modeRun) {
	prefix := ""
	first := true
	for k := range match {
		if first {
			prefix, first = k, false
		}
		for !strings.HasPrefix(k, prefix) {
			prefix = prefix[:len(prefix)-1]
		}
	}
	if prefix == "" {
		return
	}
	type other struct {
		at   ssa.Instruction
		t    *ssa.Function
		mode string
	}
	follows := map[string]bool{}
	others := map[string][]other{}
	for k := range match {
		for b := range run(k).blocks {
			if b.Parent() != fn {
				continue
			}
			mine := true
			for j := range match {
				if j != k && run(j).blocks[b] {
					mine = false
				}
			}
			if !mine {
				continue
			}
			for _, i := range b.Instrs {
				ci, ok := i.(ssa.CallInstruction)
				if !ok {
					continue
				}
				t := ci.Common().StaticCallee()
				if t == nil || !c.w.inMod[t] {
					continue
				}
				best := ""
				for j := range match {
					s := j[len(prefix):]
					if len(s) >= 3 && len(j) > len(best) && strings.Contains(t.Name(), s) {
						best = j
					}
				}
				switch {
				case best == k:
					follows[k] = true
					c.r.ob("dispatch", "%s %s calls %s", m.name, k, t.Name())
				case best != "":
					others[k] = append(others[k], other{i, t, best})
				}
			}
		}
	}
	if len(match) < 4 || len(follows) < len(match)-1 {
		return // functions are not named after modes
	}
	for k, os := range others {
		for _, o := range os {
			c.r.bad("dispatch", m.op+"|"+m.json+"|"+k, c.w.ipos(o.at), "%s %s calls %s, which implements %s", m.name, k, o.t.Name(), o.mode)
		}
	}
}

// blocks that do nothing but test values
func (c *c16) onlyTests(b *ssa.BasicBlock) bool {
	for _, i := range b.Instrs {
		switch x := i.(type) {
		case *ssa.If, *ssa.Jump, *ssa.BinOp, *ssa.FieldAddr, *ssa.Phi:
		case *ssa.UnOp:
			_ = x
		default:
			return false
		}
	}
	return true
}

// does the path on which no mode matches give a variable a value other than zero?
func (c *c16) defaultValue(fn *ssa.Function, x *modeRun) bool {
	for t, out := range x.tests {
		if t.Parent() != fn || t.Referrers() == nil {
			continue
		}
		for _, r := range *t.Referrers() {
			iff, ok := r.(*ssa.If)
			if !ok {
				continue
			}
			k := 1
			if out.only("true") {
				k = 0
			}
			s := iff.Block().Succs[k]
			for pi, p := range s.Preds {
				if p != iff.Block() {
					continue
				}
				for _, i := range s.Instrs {
					ph, ok := i.(*ssa.Phi)
					if !ok {
						break
					}
					if cst, ok := ph.Edges[pi].(*ssa.Const); ok {
						if cst.Value == nil || cst.Value.Kind() != constant.String && constant.Sign(cst.Value) == 0 {
							continue
						}
					}
					return true
				}
			}
		}
	}
	return false
}

// the global choice of estimator
func (c *c16) estimator() {
	w, r := c.w, c.r
	cs := w.constGroup("internal/stats.LSEstimatorMode")
	p := w.SSA[Mod+"/internal/stats"]
	if len(cs) < 2 || p == nil {
		r.undecided("estimators not found")
		return
	}
	var g *ssa.Global
	var typ types.Type
	for _, mb := range p.Members {
		if x, ok := mb.(*ssa.Global); ok && types.Identical(deref(x.Type()), cs[0].Type()) {
			g = x
			typ = deref(x.Type())
		}
	}
	if g == nil {
		r.undecided("the selected estimator is not a variable any more")
		return
	}
	// functions deciding on it
	for _, f := range w.Funcs {
		tests := false
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if u, ok := i.(*ssa.UnOp); ok && u.X == ssa.Value(g) {
					tests = tests || usedInTest(u)
				}
			}
		}
		if !tests {
			continue
		}
		runs := map[string]*modeRun{}
		matched := map[string]bool{}
		for _, k := range cs {
			x := c.run(f, k.Val(), typ, 1, func(st *aState, key func(p *ssa.Parameter) string) {
				st.locs["g:"+g.String()] = vconst(k.Val())
			})
			runs[k.Name()] = x
			for t, out := range x.tests {
				want := "true"
				if t.Op == token.NEQ {
					want = "false"
				}
				if _, ok := out[want]; ok {
					matched[k.Name()] = true
				}
			}
		}
		if len(matched) < 2 {
			continue
		}
		for _, k := range cs {
			own := matched[k.Name()]
			if !own {
				for b := range runs[k.Name()].blocks {
					mine := b.Parent() == f
					for _, j := range cs {
						if j != k && runs[j.Name()].blocks[b] {
							mine = false
						}
					}
					if mine && !c.onlyTests(b) {
						own = true
					}
				}
			}
			if own {
				r.ob("estimator", "%s has its own branch in %s", k.Name(), fname(f))
			} else {
				r.bad("estimator", "estimator|"+k.Name(), w.pos(f.Pos()), "%s has no branch for the estimator %s", fname(f), k.Name())
			}
		}
	}
	// where it is set
	lo, _ := constant.Int64Val(cs[0].Val())
	hi, _ := constant.Int64Val(cs[len(cs)-1].Val())
	for _, f := range w.Funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				st, ok := i.(*ssa.Store)
				if !ok || st.Addr != ssa.Value(g) {
					continue
				}
				if _, ok := st.Val.(*ssa.Const); ok {
					continue
				}
				var src *ssa.UnOp
				if u, ok := stripAnyConv(st.Val).(*ssa.UnOp); ok && w.flagOf(u) != "" {
					src = u
				}
				if src == nil {
					r.undecided("%s sets the estimator to a value that is not followed", w.ipos(i))
					continue
				}
				lp, uo := src.X.(*ssa.UnOp)
				if !uo {
					r.undecided("%s: option not followed", w.ipos(i))
					continue
				}
				for _, n := range []int64{lo - 1, hi + 1, 7777, -7777} {
					n := n
					reached := false
					ai := newAI(w)
					ai.maxDepth = 1
					ai.load = func(fr *aFrame, u *ssa.UnOp, loc string) vset {
						if v, ok := u.X.(*ssa.UnOp); ok && v.X == lp.X {
							return vint(n)
						}
						return nil
					}
					ai.visit = func(fr *aFrame, x ssa.Instruction, s *aState) {
						if x == i {
							reached = true
						}
					}
					ai.run(f, nil)
					if reached {
						r.bad("estimator", "estimator|unknown", w.ipos(i), "%s selects the unknown location and scale estimator %d given by -%s", fname(f), n, w.flagOf(src))
						break
					}
					r.ob("estimator", "-%s %d never reaches %s", w.flagOf(src), n, w.ipos(i))
				}
			}
		}
	}
}

func usedInTest(v ssa.Value) bool {
	if v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		if b, ok := r.(*ssa.BinOp); ok && isCmp(b.Op) {
			return true
		}
	}
	return false
}

// modes the operator rejects because they are resolved on the command line are resolved for every command that builds it
func (c *c16) placeholders(byName map[string]*opType) {
	w, r := c.w, c.r
	for _, m := range modeSels {
		o := byName[m.op]
		if o == nil || len(m.none) == 0 {
			continue
		}
		for _, k := range w.constGroup(m.group) {
			if !m.none[k.Name()] {
				continue
			}
			for _, ct := range o.ctors {
				for _, site := range w.calls().callers[ct] {
					cl, ok := site.(*ssa.Call)
					if !ok {
						continue
					}
					for _, a := range cl.Call.Args {
						src, ok := stripAnyConv(a).(*ssa.UnOp)
						if !ok || w.flagOf(src) == "" {
							continue
						}
						lp, ok := src.X.(*ssa.UnOp)
						if !ok {
							continue
						}
						f := cl.Parent()
						arrives := false
						seen := false
						ai := newAI(w)
						ai.maxDepth = 1
						// commands with which the operator is built
						for _, cmd := range commandNames(f) {
							cmd := cmd
							ai := newAI(w)
							ai.maxDepth = 1
							stored := false
							ai.load = func(fr *aFrame, u *ssa.UnOp, loc string) vset {
								if v, ok := u.X.(*ssa.UnOp); ok && v.X == lp.X && !stored {
									return vconst(k.Val())
								}
								if ia, ok := u.X.(*ssa.IndexAddr); ok && isFlagArgs(ia.X) {
									return vstr(cmd)
								}
								return nil
							}
							ai.visit = func(fr *aFrame, x ssa.Instruction, st *aState) {
								if x != ssa.Instruction(cl) {
									return
								}
								seen = true
								v := ai.val(fr, st, a)
								if v == nil {
									return
								}
								for _, cv := range v {
									if cv != nil && constant.Compare(cv, token.EQL, k.Val()) {
										arrives = true
										r.bad("rejected", m.op+"|"+m.json+"|"+k.Name()+"|"+cmd, w.ipos(cl), "command %s passes %s on to %s, which does not implement it", cmd, k.Name(), m.op)
									}
								}
							}
							ai.run(f, nil)
						}
						if seen && !arrives {
							r.ob("rejected", "%s: %s is resolved before %s is built", m.name, k.Name(), m.op)
						}
					}
				}
			}
		}
	}
}

// element of flag.Args()
func isFlagArgs(v ssa.Value) bool {
	c, ok := v.(*ssa.Call)
	return ok && calleeName(&c.Call) == "flag.Args"
}

// string constants compared with an element of flag.Args()
func commandNames(f *ssa.Function) (res []string) {
	seen := map[string]bool{}
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			bo, ok := i.(*ssa.BinOp)
			if !ok || bo.Op != token.EQL {
				continue
			}
			u, ok := bo.X.(*ssa.UnOp)
			if !ok {
				continue
			}
			ia, ok := u.X.(*ssa.IndexAddr)
			if !ok || !isFlagArgs(ia.X) {
				continue
			}
			if k, ok := bo.Y.(*ssa.Const); ok {
				if s, ok := constString(k); ok && !seen[s] {
					seen[s] = true
					res = append(res, s)
				}
			}
		}
	}
	return
}
