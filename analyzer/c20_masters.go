package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C20: the masters and reference data published in the execution context stay as they are.
//
// Write effects of every function are computed as access paths (root and fields), re-rooted at every call. A write below
// a field of the context that holds shared data (or below an aligner) modifies shared data. A published object must not
// have another owner that modifies it later: the publishing function, its callers, and code that modifies the same field
// of frames in general are searched. Code processing single frames may publish only what is not published yet.

func init() {
	register("C20", "shared data: access-path write effects of all functions contain no write below the masters and reference data of the execution context; what is published there has no other owner that modifies it; frame processing only publishes what is missing", runC20)
}

type c20 struct {
	w       *World
	r       *Report
	e       *effects
	lazy    map[*ssa.Function]bool
	writes  map[*ssa.Function]map[AP]ssa.Instruction
	stored  map[*ssa.Function][]storedRef
	guarded func(i ssa.Instruction, recv ssa.Value) bool
}

func runC20(w *World, r *Report) {
	r.rule("write", "functions with effects on the execution context or an aligner: none of them modifies the masters or reference data themselves", 10)
	r.rule("publish", "object made available to all frames in the execution context: nobody else modifies it afterwards", 5)
	r.rule("once", "assignment to shared data while processing a single frame: only if it is missing", 2)
	c := &c20{w: w, r: r, e: w.effects(), lazy: map[*ssa.Function]bool{}}
	c.findLazy()
	c.computeWrites()
	ctx := deref(w.typ("internal/ops", "Context"))
	st, _ := ctx.Underlying().(*types.Struct)
	if st == nil {
		r.undecided("ops.Context is not a struct")
		return
	}
	shared := map[string]bool{}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		switch t := f.Type().Underlying().(type) {
		case *types.Pointer:
			shared[f.Name()] = true
		case *types.Slice, *types.Map:
			_ = t
			shared[f.Name()] = true
		}
	}
	// plain values that belong to the reference frame
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if b, ok := f.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			shared[f.Name()] = true
		}
	}
	isShared := func(s step) bool {
		if s.owner == nil {
			return false
		}
		if types.Identical(s.owner, ctx) {
			return shared[s.field]
		}
		return false
	}
	aligner := deref(w.typ("internal/star", "Aligner"))

	// 1. writes below shared fields
	type hit struct{ pos, msg, key string }
	hits := map[string]hit{}
	for _, f := range w.Funcs {
		touches := false
		for a, wit := range c.writes[f] {
			steps := pathSteps(a)
			for k, s := range steps {
				if s.owner != nil && (types.Identical(s.owner, ctx) || types.Identical(s.owner, aligner)) {
					touches = true
				}
				if isShared(s) && k < len(steps)-1 {
					if c.isLazy(wit) {
						continue
					}
					if _, ok := a.Root.(*ssa.Alloc); ok && k == 0 {
						continue
					}
					key := "write|" + fname(wit.Parent()) + "|" + s.field + "|" + steps[len(steps)-1].text
					if o, ok := hits[key]; !ok || o.msg > fname(f) {
						hits[key] = hit{w.ipos(wit), fmt.Sprintf("%s modifies shared data: %s of the execution context is written below (path %s) at %s", fname(f), s.field, a.Path, w.ipos(wit)), key}
					}
				}
				// below an aligner that exists already
				if s.owner != nil && types.Identical(s.owner, aligner) {
					if k == 0 {
						if _, ok := a.Root.(*ssa.Parameter); !ok {
							continue
						}
					}
					key := "aligner|" + fname(wit.Parent()) + "|" + s.field
					if c.freshAligner(f, a, k) {
						continue
					}
					if o, ok := hits[key]; !ok || o.msg > fname(f) {
						hits[key] = hit{w.ipos(wit), fmt.Sprintf("%s modifies the aligner shared by all frames: field %s (path %s) at %s", fname(f), s.field, a.Path, w.ipos(wit)), key}
					}
				}
			}
		}
		if touches {
			r.ob("write", "%s", fname(f))
		}
	}
	var keys []string
	for k := range hits {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		h := hits[k]
		r.bad("write", h.key, h.pos, "%s", h.msg)
	}

	// 2. publication
	perFrame := c.perFrame()
	for _, f := range w.Funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				s, ok := i.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || !types.Identical(deref(fa.X.Type()), ctx) {
					continue
				}
				fn := fieldName(fa.X.Type(), fa.Field)
				if !shared[fn] {
					continue
				}
				if al, ok := fa.X.(*ssa.Alloc); ok && al.Parent() == f {
					continue // a new context
				}
				if perFrame[f] && !c.missing(b, fn, ctx) && !isNilConst(s.Val) && c.tested(b, fn, ctx) {
					r.undecided("%s: condition for publishing %s is not understood", fname(f), fn)
				} else if perFrame[f] && !c.missing(b, fn, ctx) && !isNilConst(s.Val) && !c.once(f) {
					r.bad("once", "once|"+fname(f)+"|"+fn, w.ipos(s), "%s replaces %s of the execution context while processing a single frame, without finding it missing", fname(f), fn)
				} else if perFrame[f] {
					r.ob("once", "%s publishes %s", fname(f), fn)
				}
				if isNilConst(s.Val) || !hasRefs(s.Val.Type(), 0) {
					continue
				}
				before := len(r.Viol)
				for _, a := range c.e.resolve(s.Val) {
					c.owned(f, s, a, fn, 0, map[string]bool{})
				}
				if len(r.Viol) == before {
					r.ob("publish", "%s publishes %s", fname(f), fn)
				}
			}
		}
	}
}

func hasRefs(t types.Type, d int) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Interface, *types.Signature:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields() && d < 4; i++ {
			if hasRefs(u.Field(i).Type(), d+1) {
				return true
			}
		}
	case *types.Array:
		return hasRefs(u.Elem(), d+1)
	}
	return false
}

// ---- access paths with types

type step struct {
	text  string     // ".Data", "[]"
	owner types.Type // struct a field belongs to
	field string
	upTo  string // path including this step
}

func pathSteps(a AP) (r []step) {
	if a.Root == nil {
		return nil
	}
	t := a.Root.Type()
	p := a.Path
	up := ""
	for len(p) > 0 {
		var tok string
		j := strings.IndexAny(p[1:], ".[#")
		if j < 0 {
			tok, p = p, ""
		} else {
			tok, p = p[:j+1], p[j+1:]
		}
		up += tok
		switch {
		case tok[0] == '#':
			if tp, ok := t.(*types.Tuple); ok {
				k := 0
				fmt.Sscan(tok[1:], &k)
				if k < tp.Len() {
					t = tp.At(k).Type()
				}
			}
			continue
		case tok == "[]":
			u := t.Underlying()
			if pt, ok := u.(*types.Pointer); ok {
				u = pt.Elem().Underlying()
			}
			r = append(r, step{text: tok, upTo: up})
			switch x := u.(type) {
			case *types.Slice:
				t = x.Elem()
			case *types.Array:
				t = x.Elem()
			case *types.Map:
				t = x.Elem()
			default:
				return
			}
		default:
			o := t
			for d := 0; d < 3; d++ {
				if pt, ok := o.Underlying().(*types.Pointer); ok {
					o = pt.Elem()
				}
			}
			st, ok := o.Underlying().(*types.Struct)
			if !ok {
				return
			}
			found := false
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == tok[1:] {
					r = append(r, step{text: tok, owner: o, field: tok[1:], upTo: up})
					t = st.Field(i).Type()
					found = true
				}
			}
			if !found {
				return
			}
		}
	}
	return
}

// ---- lazily computed statistics

// A store into statistics counts as lazy if it is only reached while a flag of the same object says that the value has
// not been computed yet
func (c *c20) findLazy() {
	st := deref(c.w.typ("internal/stats", "Stats"))
	guarded := func(i ssa.Instruction, recv ssa.Value) bool {
		for x := i.Block(); x != nil; x = x.Idom() {
			if len(x.Preds) != 1 {
				continue
			}
			p := x.Preds[0]
			iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
			if !ok || p.Succs[0] == p.Succs[1] {
				continue
			}
			v, neg := stripNot(iff.Cond)
			ld, ok := v.(*ssa.UnOp)
			if !ok || ld.Op != token.MUL {
				continue
			}
			fa, ok := ld.X.(*ssa.FieldAddr)
			if ok && (recv == nil || fa.X == recv) && types.Identical(deref(fa.X.Type()), st) && (p.Succs[0] == x) == neg {
				return true
			}
		}
		return false
	}
	// functions whose calls are all guarded
	for changed := true; changed; {
		changed = false
		for _, f := range c.w.Funcs {
			if c.lazy[f] || len(f.Params) == 0 || !types.Identical(deref(f.Params[0].Type()), st) {
				continue
			}
			sites := c.w.calls().callers[f]
			ok := len(sites) > 0
			for _, s := range sites {
				g := s.Parent()
				if !c.w.inMod[g] {
					continue
				}
				if !c.lazy[g] && !guarded(s, nil) {
					ok = false
				}
			}
			if ok {
				c.lazy[f] = true
				changed = true
			}
		}
	}
	c.guarded = guarded
}

func (c *c20) isLazy(i ssa.Instruction) bool {
	st, ok := i.(*ssa.Store)
	if !ok {
		return false
	}
	fa, ok := st.Addr.(*ssa.FieldAddr)
	if !ok || !types.Identical(deref(fa.X.Type()), deref(c.w.typ("internal/stats", "Stats"))) {
		return false
	}
	return c.lazy[i.Parent()] || c.guarded(i, fa.X)
}

// is the aligner at step k of the path created by the same function
func (c *c20) freshAligner(f *ssa.Function, a AP, k int) bool {
	switch a.Root.(type) {
	case *ssa.Alloc, *ssa.Call, *ssa.MakeSlice:
		return true
	}
	return false
}

// ---- publication

// is f executed for single frames while others are processed
func (c *c20) perFrame() map[*ssa.Function]bool {
	res := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	promise := func(t types.Type) bool { return isPromiseT(t) }
	visit = func(f *ssa.Function) {
		if res[f] {
			return
		}
		res[f] = true
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				ci, ok := i.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if !ci.Common().IsInvoke() && ci.Common().StaticCallee() == nil && promise(ci.Common().Value.Type()) {
					continue
				}
				for _, t := range c.w.targets(ci) {
					if t.Name() == "MakePromises" {
						continue
					}
					visit(t)
				}
			}
		}
	}
	for _, f := range c.w.Funcs {
		sig := f.Signature
		if f.Name() != "Apply" || sig.Recv() == nil || sig.Params().Len() != 2 {
			continue
		}
		if pt, ok := sig.Params().At(0).Type().(*types.Pointer); ok && types.Identical(pt.Elem(), deref(c.w.typ("internal/fits", "Image"))) {
			visit(f)
		}
	}
	return res
}

// is the field of the context known to be missing at the start of block b
func (c *c20) missing(b *ssa.BasicBlock, fn string, ctx types.Type) bool {
	var implies func(v ssa.Value, truth bool, d int) bool
	implies = func(v ssa.Value, truth bool, d int) bool {
		if d > 8 {
			return false
		}
		switch x := v.(type) {
		case *ssa.UnOp:
			if x.Op == token.NOT {
				return implies(x.X, !truth, d+1)
			}
			if x.Op == token.MUL {
				if s := singleStore(x.X); s != nil {
					return implies(s, truth, d+1)
				}
				if al, ok := x.X.(*ssa.Alloc); ok && truth {
					n := 0
					for _, rf := range *al.Referrers() {
						if st, ok := rf.(*ssa.Store); ok && st.Addr == ssa.Value(al) {
							if kc, ok := st.Val.(*ssa.Const); ok && kc.Value != nil && kc.Value.ExactString() == "false" {
								continue
							}
							n++
							if !implies(st.Val, truth, d+1) {
								return false
							}
						}
					}
					return n > 0
				}
			}
		case *ssa.Call, *ssa.Extract:
			cl, idx := (*ssa.Call)(nil), 0
			if e, ok := x.(*ssa.Extract); ok {
				cl, _ = e.Tuple.(*ssa.Call)
				idx = e.Index
			} else {
				cl = x.(*ssa.Call)
			}
			if cl == nil {
				return false
			}
			t := cl.Call.StaticCallee()
			if t == nil || !c.w.inMod[t] || len(t.Blocks) == 0 {
				return false
			}
			n := 0
			for _, tb := range t.Blocks {
				rt, ok := tb.Instrs[len(tb.Instrs)-1].(*ssa.Return)
				if !ok || tb == t.Recover || idx >= len(rt.Results) {
					continue
				}
				v := retVal(rt, idx)
				if kc, ok := v.(*ssa.Const); ok && kc.Value != nil && (kc.Value.ExactString() == "true") != truth {
					continue
				}
				n++
				if !implies(v, truth, d+1) && !c.missing(tb, fn, ctx) {
					return false
				}
			}
			return n > 0
		case *ssa.Phi:
			n := 0
			for k, e := range x.Edges {
				if kc, ok := e.(*ssa.Const); ok && kc.Value != nil && (kc.Value.ExactString() == "true") != truth {
					continue
				}
				n++
				if !implies(e, truth, d+1) && !c.missing(x.Block().Preds[k], fn, ctx) {
					return false
				}
			}
			return n > 0
		case *ssa.BinOp:
			op := x.Op
			if !truth {
				op = negOp(op)
			}
			a, k := x.X, x.Y
			if _, ok := a.(*ssa.Const); ok {
				a, k = k, a
			}
			kc, ok := k.(*ssa.Const)
			if !ok || op != token.EQL {
				return false
			}
			if kc.Value != nil {
				if z, ok := constInt(kc); !ok || z != 0 {
					return false
				}
				if cl, ok := a.(*ssa.Call); ok {
					if bt, ok := cl.Call.Value.(*ssa.Builtin); ok && bt.Name() == "len" {
						a = cl.Call.Args[0]
					}
				}
			}
			if s := singleStore(a); s != nil {
				a = s
			}
			ld, ok := a.(*ssa.UnOp)
			if !ok || ld.Op != token.MUL {
				return false
			}
			fa, ok := ld.X.(*ssa.FieldAddr)
			return ok && types.Identical(deref(fa.X.Type()), ctx) && fieldName(fa.X.Type(), fa.Field) == fn
		}
		return false
	}
	for x := b; x != nil; x = x.Idom() {
		if len(x.Preds) != 1 {
			continue
		}
		p := x.Preds[0]
		if iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If); ok && p.Succs[0] != p.Succs[1] && implies(iff.Cond, p.Succs[0] == x, 0) {
			return true
		}
	}
	return false
}

// does some condition that leads to b depend on the field or on the result of a function of the module
func (c *c20) tested(b *ssa.BasicBlock, fn string, ctx types.Type) bool {
	var dep func(v ssa.Value, d int) bool
	dep = func(v ssa.Value, d int) bool {
		if d > 6 {
			return false
		}
		i, ok := v.(ssa.Instruction)
		if !ok {
			return false
		}
		switch x := v.(type) {
		case *ssa.UnOp:
			if fa, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL {
				if types.Identical(deref(fa.X.Type()), ctx) {
					// knowing whether the field is set, but not that it is set
					return fieldName(fa.X.Type(), fa.Field) == fn && d > 1
				}
				return false
			}
			if s := singleStore(x.X); s != nil && x.Op == token.MUL {
				return dep(s, d+1)
			}
		case *ssa.BinOp:
			// the plain comparison is understood elsewhere
			for _, y := range []ssa.Value{x.X, x.Y} {
				if ld, ok := y.(*ssa.UnOp); ok && ld.Op == token.MUL {
					if fa, ok := ld.X.(*ssa.FieldAddr); ok && types.Identical(deref(fa.X.Type()), ctx) {
						return false
					}
				}
			}
		case *ssa.Extract:
			if bt, ok := x.Type().Underlying().(*types.Basic); !ok || bt.Kind() != types.Bool {
				return false
			}
		case *ssa.Call:
			if t := x.Call.StaticCallee(); t != nil && c.w.inMod[t] {
				if _, ok := x.Type().(*types.Tuple); !ok {
					if bt, ok := x.Type().Underlying().(*types.Basic); !ok || bt.Kind() != types.Bool {
						return false
					}
				}
				if len(c.loads(t, fn, ctx)) > 0 {
					return true
				}
			}
		}
		for _, o := range i.Operands(nil) {
			if *o != nil && dep(*o, d+1) {
				return true
			}
		}
		return false
	}
	for x := b; x != nil; x = x.Idom() {
		if len(x.Preds) == 1 {
			if iff, ok := x.Preds[0].Instrs[len(x.Preds[0].Instrs)-1].(*ssa.If); ok && dep(iff.Cond, 0) {
				return true
			}
		}
	}
	return false
}

// reads of the field in f
func (c *c20) loads(f *ssa.Function, fn string, ctx types.Type) map[ssa.Value]bool {
	res := map[ssa.Value]bool{}
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if ld, ok := i.(*ssa.UnOp); ok && ld.Op == token.MUL {
				if fa, ok := ld.X.(*ssa.FieldAddr); ok && types.Identical(deref(fa.X.Type()), ctx) && fieldName(fa.X.Type(), fa.Field) == fn {
					res[ld] = true
				}
			}
		}
	}
	return res
}

// is f only executed once, by means of a sync.Once
func (c *c20) once(f *ssa.Function) bool {
	sites := c.w.calls().callers[f]
	if f.Parent() == nil {
		if len(sites) == 0 {
			return false
		}
		for _, s := range sites {
			if s.Parent() == nil || s.Parent() == f || !c.once(s.Parent()) {
				return false
			}
		}
		return true
	}
	for _, b := range f.Parent().Blocks {
		for _, i := range b.Instrs {
			if ci, ok := i.(ssa.CallInstruction); ok && calleeName(ci.Common()) == "(*sync.Once).Do" {
				if mc, ok := ci.Common().Args[1].(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(f) {
					return true
				}
			}
		}
	}
	return false
}

// The object a of function f is published at instruction at: does anybody else keep and modify it
func (c *c20) owned(f *ssa.Function, at ssa.Instruction, a AP, field string, d int, seen map[string]bool) {
	id := fname(f) + "|" + a.String()
	if d > 6 || seen[id] {
		return
	}
	seen[id] = true
	w := c.w
	ctx := deref(w.typ("internal/ops", "Context"))
	// taken from the context itself
	for _, s := range pathSteps(a) {
		if s.owner != nil && types.Identical(s.owner, ctx) {
			return
		}
	}
	bad := func(pos, key, format string, args ...interface{}) {
		c.r.bad("publish", "publish|"+field+"|"+key, pos, "%s of the execution context is shared by all frames, but "+format, append([]interface{}{field}, args...)...)
	}
	// part of a frame (or another object): code that modifies this part of any such object
	if ss := pathSteps(a); len(ss) > 0 {
		for k := len(ss) - 1; k >= 0; k-- {
			last := ss[k]
			if last.owner == nil {
				continue
			}
			rest := a.Path[len(last.upTo):]
			for _, g := range w.Funcs {
				for _, ow := range c.sorted(g) {
					o, wit := ow.a, ow.wit
					if _, ok := o.Root.(*ssa.Parameter); !ok {
						continue
					}
					for _, s := range pathSteps(o) {
						if s.owner == nil || s.field != last.field || !types.Identical(s.owner, last.owner) {
							continue
						}
						below := o.Path[len(s.upTo):]
						if below == "" || !strings.HasPrefix(below, rest) || below == rest && rest != "" {
							continue
						}
						if c.isLazy(wit) {
							continue
						}
						bad(w.ipos(at), typeShort(last.owner)+"."+last.field, "it is the field %s of a %s that is processed further, and %s modifies what that field refers to (%s)", last.field, typeShort(last.owner), fname(g), w.ipos(wit))
						return
					}
				}
			}
			break
		}
	}
	// modified by this function after publication
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if i == at || !(b == at.Block() && before(at, i) || b != at.Block() && blockReaches(at.Block(), b)) {
				continue
			}
			var ws []AP
			ws = append(ws, c.e.directWrites(i)...)
			if ci, ok := i.(ssa.CallInstruction); ok {
				for x, wit := range c.callWrites(ci) {
					if !c.isLazy(wit) {
						ws = append(ws, x)
					}
				}
			}
			for _, x := range ws {
				if x.Root == a.Root && strings.HasPrefix(x.Path, a.Path) && len(x.Path) > len(a.Path) && !localCell(a) {
					bad(w.ipos(i), fname(f), "%s modifies it after it was published", fname(f))
					return
				}
			}
		}
	}
	// handed on as a result
	if _, isField := a.Root.(*ssa.Parameter); !isField || !hasField(a) {
		for _, b := range f.Blocks {
			if b == f.Recover || len(b.Instrs) == 0 {
				continue
			}
			rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok || !(b == at.Block() || blockReaches(at.Block(), b)) {
				continue
			}
			for k := range rt.Results {
				if !isImageResult(c.w, rt.Results[k].Type()) {
					continue
				}
				for _, x := range c.e.resolve(retVal(rt, k)) {
					if x == a {
						// the caller may only use it as a master
						for _, site := range w.calls().callers[f] {
							g := site.Parent()
							if !w.inMod[g] {
								continue
							}
							if isPromiseBody(f) {
								continue
							}
						}
						if isPromiseBody(f) || f.Name() == "Apply" {
							bad(w.ipos(rt), fname(f)+"|result", "%s also hands it on as its resulting frame, which later steps modify", fname(f))
							return
						}
					}
				}
			}
		}
	}
	// callers
	if p, ok := a.Root.(*ssa.Parameter); ok && p.Parent() == f {
		for _, site := range w.calls().callers[f] {
			g := site.Parent()
			if !w.inMod[g] {
				continue
			}
			for _, x := range c.e.substitute(a, f, site, -1) {
				c.owned(g, site, x, field, d+1, seen)
			}
		}
	}
}

func localCell(a AP) bool { return false }

func hasField(a AP) bool {
	for _, s := range pathSteps(a) {
		if s.owner != nil {
			return true
		}
	}
	return false
}

func isImageResult(w *World, t types.Type) bool {
	img := deref(w.typ("internal/fits", "Image"))
	if types.Identical(deref(t), img) {
		return true
	}
	if s, ok := t.Underlying().(*types.Slice); ok {
		return types.Identical(deref(s.Elem()), img)
	}
	return false
}

func isPromiseBody(f *ssa.Function) bool {
	s := f.Signature
	return f.Parent() != nil && s.Params().Len() == 0 && s.Results().Len() == 2
}

// ---- write effects, seen through references kept in other objects of the same function

type storedRef struct {
	at  AP
	val ssa.Value
}

type apWit struct {
	a   AP
	wit ssa.Instruction
}

func (c *c20) sorted(f *ssa.Function) (r []apWit) {
	for a, wit := range c.writes[f] {
		r = append(r, apWit{a, wit})
	}
	sort.Slice(r, func(i, j int) bool {
		if r[i].a.String() != r[j].a.String() {
			return r[i].a.String() < r[j].a.String()
		}
		return r[i].wit.Pos() < r[j].wit.Pos()
	})
	return
}

// does the rest of a path follow a reference, starting with a value of type t
func follows(t types.Type, rest string) bool {
	for rest != "" {
		switch t.Underlying().(type) {
		case *types.Pointer, *types.Slice, *types.Map, *types.Interface:
			return true
		}
		j := strings.IndexAny(rest[1:], ".[#")
		tok := rest
		if j >= 0 {
			tok, rest = rest[:j+1], rest[j+1:]
		} else {
			rest = ""
		}
		switch u := t.Underlying().(type) {
		case *types.Struct:
			ok := false
			for i := 0; i < u.NumFields(); i++ {
				if u.Field(i).Name() == tok[1:] {
					t, ok = u.Field(i).Type(), true
				}
			}
			if !ok {
				return false
			}
		case *types.Array:
			t = u.Elem()
		default:
			return false
		}
	}
	return false
}

func (c *c20) expand(f *ssa.Function, a AP) []AP {
	r := []AP{a}
	for n := 0; n < len(r) && n < 8; n++ {
		for _, s := range c.stored[f] {
			if s.at.Root != r[n].Root || !strings.HasPrefix(r[n].Path, s.at.Path) {
				continue
			}
			rest := r[n].Path[len(s.at.Path):]
			if rest != "" && rest[0] != '.' && rest[0] != '[' || !follows(s.val.Type(), rest) {
				continue
			}
			for _, o := range c.e.resolve(s.val) {
				x := extend(o, rest)
				dup := false
				for _, y := range r {
					dup = dup || y == x
				}
				if !dup {
					r = append(r, x)
				}
			}
		}
	}
	return r
}

func (c *c20) computeWrites() {
	c.writes = map[*ssa.Function]map[AP]ssa.Instruction{}
	c.stored = map[*ssa.Function][]storedRef{}
	for _, f := range c.w.Funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				st, ok := i.(*ssa.Store)
				if !ok || isNilConst(st.Val) || !hasRefs(st.Val.Type(), 0) {
					continue
				}
				if _, ok := st.Val.Type().Underlying().(*types.Signature); ok {
					continue
				}
				for _, a := range c.e.resolve(st.Addr) {
					switch a.Root.(type) {
					case *ssa.Alloc, *ssa.Call, *ssa.MakeSlice:
						c.stored[f] = append(c.stored[f], storedRef{a, st.Val})
					}
				}
			}
		}
	}
	for _, f := range c.w.Funcs {
		m := map[AP]ssa.Instruction{}
		c.writes[f] = m
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				for _, a := range c.e.directWrites(i) {
					for _, x := range c.expand(f, a) {
						if x.Root != nil {
							m[x] = i
						}
					}
				}
			}
		}
	}
	for changed, n := true, 0; changed && n < 30; n++ {
		changed = false
		for _, f := range c.w.Funcs {
			m := c.writes[f]
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					ci, ok := i.(ssa.CallInstruction)
					if !ok {
						continue
					}
					for a, wit := range c.callWrites(ci) {
						for _, x := range c.expand(f, a) {
							if _, ok := m[x]; !ok && x.Root != nil {
								m[x] = wit
								changed = true
							}
						}
					}
				}
			}
		}
	}
}

func (c *c20) callWrites(ci ssa.CallInstruction) map[AP]ssa.Instruction {
	r := map[AP]ssa.Instruction{}
	for a, wit := range c.e.callWrites(ci) {
		r[a] = wit
	}
	for _, t := range c.w.targets(ci) {
		for a, wit := range c.writes[t] {
			for _, s := range c.e.substitute(a, t, ci, -1) {
				r[s] = wit
			}
		}
	}
	return r
}
