package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C30: dynamically typed values always have the type their user expects.
//
// For every type assertion of the module, the set of dynamic types that can arrive is computed by tracing the operand
// backwards: through local values, captured variables, struct fields (all stores to the field anywhere in the module,
// plus the zero value where a struct may stay unassigned), results of functions, and parameters. A parameter is resolved
// at every call site of its function; for a call through a function value, the function value and the argument are
// resolved together, so that an argument record only counts for the pixel function it is passed along with.

func init() {
	register("C30", "context-sensitive dynamic type sets of every type assertion operand, traced back over the call graph with the function value and its argument record resolved together", runC30)
}

type c30 struct {
	w      *World
	r      *Report
	stores map[string][]*ssa.Store // struct type + field -> stores
}

type c30ctx map[*ssa.Function]ssa.CallInstruction

func (c c30ctx) with(f *ssa.Function, s ssa.CallInstruction) c30ctx {
	n := c30ctx{}
	for k, v := range c {
		n[k] = v
	}
	n[f] = s
	return n
}

// an origin of a dynamic value
type c30leaf struct {
	typ  types.Type // dynamic type, nil interface if typ==nil && isNil
	nil_ bool       // may be nil
	any  string     // may have any type: why
	unk  string     // not resolved: why
	open *ssa.Parameter
	fn   *ssa.Function // function value
	pos  string
}

func runC30(w *World, r *Report) {
	r.rule("assert", "every dynamic type that can arrive at a type assertion is one the assertion accepts", 20)
	r.assume("the type of the value returned by a color model of the standard library is the one its documentation gives")
	c := &c30{w: w, r: r, stores: map[string][]*ssa.Store{}}
	for _, f := range w.Funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if st, ok := i.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
						c.stores[c30field(fa.X.Type(), fa.Field)] = append(c.stores[c30field(fa.X.Type(), fa.Field)], st)
					}
				}
			}
		}
	}
	for _, f := range w.Funcs {
		// assertions that test for success: which types are handled explicitly?
		handled := map[ssa.Value][]types.Type{}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if ta, ok := i.(*ssa.TypeAssert); ok && ta.CommaOk {
					handled[ta.X] = append(handled[ta.X], ta.AssertedType)
				}
			}
		}
		done := map[ssa.Value]bool{}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				ta, ok := i.(*ssa.TypeAssert)
				if !ok || isErrT(ta.X.Type()) {
					continue
				}
				accept := []types.Type{ta.AssertedType}
				soft := false
				if ta.CommaOk {
					used := false
					for _, rf := range *ta.Referrers() {
						if ex, ok := rf.(*ssa.Extract); ok && ex.Index == 1 && len(*ex.Referrers()) > 0 {
							used = true
						}
					}
					if used {
						if done[ta.X] {
							continue
						}
						done[ta.X] = true
						accept = handled[ta.X]
						soft = true
					}
				}
				c.check(f, ta, accept, soft)
			}
		}
	}
}

func c30field(t types.Type, k int) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	return fmt.Sprintf("%s|%d", t.String(), k)
}

func c30accepts(accept []types.Type, t types.Type) bool {
	for _, a := range accept {
		if types.Identical(a, t) {
			return true
		}
		if it, ok := a.Underlying().(*types.Interface); ok && types.Implements(t, it) {
			return true
		}
	}
	return false
}

func (c *c30) check(f *ssa.Function, ta *ssa.TypeAssert, accept []types.Type, soft bool) {
	w, r := c.w, c.r
	where := fmt.Sprintf("%s: %s at %s", fname(f), c30types(accept), w.ipos(ta))
	if c30accepts(accept, ta.X.Type()) {
		r.ob("assert", "%s: guaranteed by the static type %s", where, c30name(ta.X.Type()))
		return
	}
	if soft && c.failsCleanly(f) {
		r.ob("assert", "%s: tested, and the function can report other types as an error", where)
		return
	}
	seenAny := false
	var got []string
	have := map[string]bool{}
	badKeys := map[string]bool{}
	und := map[string]bool{}
	c.solve(nil, ta.X, c30ctx{}, 0, func(l c30leaf) {
		seenAny = true
		switch {
		case l.unk != "":
			if !und[l.unk] {
				und[l.unk] = true
				r.undecided("%s: %s", where, l.unk)
			}
		case l.any != "":
			if soft {
				return
			}
			if !badKeys["any"] {
				badKeys["any"] = true
				r.bad("assert", fname(f)+"|"+c30types(accept)+"|any", w.ipos(ta), "the value converted to %s is %s, which may have another type", c30types(accept), l.any)
			}
		case l.nil_:
			if soft || nonNilHere(ta.X, ta.Block()) {
				return
			}
			k := fname(f) + "|" + c30types(accept) + "|nil"
			if !badKeys[k] {
				badKeys[k] = true
				r.bad("assert", k, w.ipos(ta), "the value converted to %s may be missing (from %s)", c30types(accept), l.pos)
			}
		default:
			if !c30accepts(accept, l.typ) {
				k := fname(f) + "|" + c30types(accept) + "|" + c30name(l.typ)
				if !badKeys[k] {
					badKeys[k] = true
					r.bad("assert", k, w.ipos(ta), "a value of type %s arrives (from %s) where %s is required", c30name(l.typ), l.pos, c30types(accept))
				}
			}
			s := c30name(l.typ) + " from " + l.pos
			if !have[s] {
				have[s] = true
				got = append(got, s)
			}
		}
	})
	if len(badKeys) > 0 || len(und) > 0 {
		return
	}
	if !seenAny {
		r.note("%s: no call of the program reaches it", where)
		r.ob("assert", "%s: not reached by any call of the program", where)
		return
	}
	sort.Strings(got)
	r.ob("assert", "%s: %d origins: %s", where, len(got), strings.Join(got, "; "))
}

// can the function report an unexpected type?
func (c *c30) failsCleanly(f *ssa.Function) bool {
	rs := f.Signature.Results()
	for k := 0; k < rs.Len(); k++ {
		if isErrT(rs.At(k).Type()) {
			return true
		}
	}
	return false
}

func c30types(ts []types.Type) string {
	var s []string
	for _, t := range ts {
		s = append(s, c30name(t))
	}
	return strings.Join(s, "/")
}

func c30name(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

type c30con struct {
	v ssa.Value
	f *ssa.Function
}

// reports every origin of v, over all calling contexts in which the constraints (function value v is function f) may hold
func (c *c30) solve(cons []c30con, v ssa.Value, ctx c30ctx, d int, yield func(c30leaf)) {
	if d > 10 {
		yield(c30leaf{unk: "call chain too deep"})
		return
	}
	var open *ssa.Parameter
	var rest []c30con
	for _, cn := range cons {
		possible, still := false, false
		for _, l := range c.leaves(cn.v, ctx, map[ssa.Value]bool{}, 0) {
			switch {
			case l.open != nil:
				open = l.open
				possible, still = true, true
			case l.fn != nil:
				if l.fn == cn.f || strings.HasPrefix(l.fn.Synthetic, "bound") || strings.HasPrefix(l.fn.Synthetic, "thunk") {
					possible = true
				}
			case l.nil_:
			default:
				possible = true
			}
		}
		if !possible {
			return
		}
		if still {
			rest = append(rest, cn)
		}
	}
	ls := c.leaves(v, ctx, map[ssa.Value]bool{}, 0)
	if open == nil {
		for _, l := range ls {
			if l.open != nil {
				open = l.open
			}
		}
	}
	if open == nil {
		for _, l := range ls {
			yield(l)
		}
		return
	}
	h := open.Parent()
	for _, site := range c.w.calls().callers[h] {
		g := site.Parent()
		if !c.w.inMod[g] {
			// called by code outside the module
			yield(c30leaf{unk: "called from " + g.String()})
			continue
		}
		if ctx[g] != nil && g == h {
			yield(c30leaf{unk: "recursive call of " + fname(h)})
			continue
		}
		cs := append([]c30con(nil), rest...)
		if !site.Common().IsInvoke() && site.Common().StaticCallee() == nil {
			cs = append(cs, c30con{site.Common().Value, h})
		}
		c.solve(cs, v, ctx.with(h, site), d+1, yield)
	}
}

// the origins of a value within the given calling context
func (c *c30) leaves(v ssa.Value, ctx c30ctx, seen map[ssa.Value]bool, d int) []c30leaf {
	if seen[v] {
		return nil
	}
	seen[v] = true
	pos := c.w.pos(v.Pos())
	unk := func(f string, a ...interface{}) []c30leaf {
		return []c30leaf{{unk: fmt.Sprintf(f, a...), pos: pos}}
	}
	if d > 12 {
		return unk("value too deep")
	}
	switch x := v.(type) {
	case *ssa.Function:
		return []c30leaf{{fn: x}}
	case *ssa.MakeClosure:
		return []c30leaf{{fn: x.Fn.(*ssa.Function)}}
	case *ssa.MakeInterface:
		return []c30leaf{{typ: x.X.Type(), pos: c.w.ipos(x)}}
	case *ssa.Const:
		if x.IsNil() {
			return []c30leaf{{nil_: true, pos: "a missing value"}}
		}
		return unk("constant")
	case *ssa.ChangeInterface:
		return c.leaves(x.X, ctx, seen, d+1)
	case *ssa.ChangeType:
		return c.leaves(x.X, ctx, seen, d+1)
	case *ssa.TypeAssert:
		if !x.CommaOk {
			return c.leaves(x.X, ctx, seen, d+1)
		}
	case *ssa.Phi:
		var r []c30leaf
		for _, e := range x.Edges {
			r = append(r, c.leaves(e, ctx, seen, d+1)...)
		}
		return r
	case *ssa.Parameter:
		site := ctx[x.Parent()]
		if site == nil {
			return []c30leaf{{open: x}}
		}
		a := argFor(x, x.Parent(), site)
		if a == nil {
			return unk("argument for %s at %s", x.Name(), c.w.ipos(site))
		}
		return c.leaves(a, ctx, seen, d+1)
	case *ssa.FreeVar:
		if b := freeVarBinding(x); b != nil {
			return c.leaves(b, ctx, seen, d+1)
		}
		return unk("captured variable %s", x.Name())
	case *ssa.UnOp:
		if x.Op != token.MUL {
			break
		}
		if s := singleStore(x.X); s != nil {
			return c.leaves(s, ctx, seen, d+1)
		}
		switch a := x.X.(type) {
		case *ssa.Alloc:
			return c.stored(a, ctx, seen, d)
		case *ssa.FreeVar:
			if b, ok := freeVarBinding(a).(*ssa.Alloc); ok {
				return c.stored(b, ctx, seen, d)
			}
		case *ssa.FieldAddr:
			return c.field(a.X.Type(), a.Field, ctx, seen, d)
		case *ssa.IndexAddr:
			return c.element(a, ctx, seen, d)
		case *ssa.Global:
			return c.global(a, ctx, seen, d)
		}
	case *ssa.Field:
		return c.field(x.X.Type(), x.Field, ctx, seen, d)
	case *ssa.Lookup:
		if _, ok := x.X.Type().Underlying().(*types.Map); ok && !x.CommaOk {
			return []c30leaf{{any: "looked up in a table that need not have it"}}
		}
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.Call:
			return c.result(t, x.Index, ctx, seen, d)
		case *ssa.TypeAssert:
			if x.Index == 0 {
				return c.leaves(t.X, ctx, seen, d+1)
			}
		}
	case *ssa.Call:
		return c.result(x, 0, ctx, seen, d)
	}
	return unk("%T at %s", v, pos)
}

func (c *c30) stored(a *ssa.Alloc, ctx c30ctx, seen map[ssa.Value]bool, d int) []c30leaf {
	var r []c30leaf
	n := 0
	for _, i := range c30uses(a, map[ssa.Value]bool{}) {
		if i == nil {
			return []c30leaf{{unk: "variable at " + c.w.pos(a.Pos()) + " is passed around"}}
		}
		r = append(r, c.leaves(i, ctx, seen, d+1)...)
		n++
	}
	if n == 0 {
		return []c30leaf{{nil_: true, pos: "an unassigned variable"}}
	}
	return r
}

// values stored to a local variable, nil if its address goes elsewhere
func c30uses(a ssa.Value, seen map[ssa.Value]bool) (r []ssa.Value) {
	if seen[a] {
		return nil
	}
	seen[a] = true
	for _, rf := range *a.Referrers() {
		switch x := rf.(type) {
		case *ssa.Store:
			if x.Addr == a {
				r = append(r, x.Val)
			} else {
				r = append(r, nil)
			}
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.MakeClosure:
			for k, b := range x.Bindings {
				if b == a {
					r = append(r, c30uses(x.Fn.(*ssa.Function).FreeVars[k], seen)...)
				}
			}
		default:
			r = append(r, nil)
		}
	}
	return r
}

func (c *c30) global(g *ssa.Global, ctx c30ctx, seen map[ssa.Value]bool, d int) []c30leaf {
	var r []c30leaf
	if g.Pkg == nil || c.w.Pkgs == nil {
		return []c30leaf{{unk: "global " + g.Name()}}
	}
	for _, m := range g.Pkg.Members {
		f, ok := m.(*ssa.Function)
		if !ok {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if st, ok := i.(*ssa.Store); ok && st.Addr == ssa.Value(g) {
					r = append(r, c.leaves(st.Val, ctx, seen, d+1)...)
				}
			}
		}
	}
	if len(r) == 0 {
		return []c30leaf{{unk: "global " + g.Name()}}
	}
	return r
}

// every value that can be in a field: all stores in the module, and the zero value where one can remain
func (c *c30) field(t types.Type, k int, ctx c30ctx, seen map[ssa.Value]bool, d int) []c30leaf {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	key := c30field(t, k)
	sts := c.stores[key]
	if ok && (n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), "github.com/mlnoga/nightlight")) {
		return []c30leaf{{any: "a field of " + n.Obj().Name() + ", filled outside this program"}}
	}
	var r []c30leaf
	for _, st := range sts {
		r = append(r, c.leaves(st.Val, ctx, seen, d+1)...)
	}
	r = append(r, c.zeros(t, k)...)
	if len(r) == 0 {
		return []c30leaf{{nil_: true, pos: "a field that is never assigned"}}
	}
	return r
}

// places where a value of struct type t can exist with field k unassigned
func (c *c30) zeros(t types.Type, k int) (r []c30leaf) {
	w := c.w
	p := newProver(w, nil)
	for _, f := range w.Funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				switch x := i.(type) {
				case *ssa.MakeSlice:
					sl, ok := x.Type().Underlying().(*types.Slice)
					if !ok || !types.Identical(sl.Elem(), t) {
						continue
					}
					r = append(r, c.filled(p, f, x, k)...)
				case *ssa.Alloc:
					el := x.Type().Underlying().(*types.Pointer).Elem()
					if !types.Identical(el, t) {
						if at, ok := el.Underlying().(*types.Array); !ok || !types.Identical(at.Elem(), t) {
							continue
						}
						// make with a constant size
						r = append(r, c.filled(p, f, x, k)...)
						continue
					}
					r = append(r, c.assigned(x, k)...)
				case *ssa.Call:
					for _, a := range x.Call.Args {
						if cn, ok := a.(*ssa.Const); ok && types.Identical(cn.Type(), t) {
							r = append(r, c30leaf{nil_: true, pos: w.ipos(x)})
						}
					}
				case *ssa.Store:
					if cn, ok := x.Val.(*ssa.Const); ok && types.Identical(cn.Type(), t) {
						r = append(r, c30leaf{nil_: true, pos: w.ipos(x)})
					}
				case *ssa.Return:
					if b == f.Recover {
						continue
					}
					for _, a := range x.Results {
						if cn, ok := a.(*ssa.Const); ok && types.Identical(cn.Type(), t) {
							r = append(r, c30leaf{nil_: true, pos: w.ipos(x)})
						}
					}
				case *ssa.Phi:
					for _, a := range x.Edges {
						if cn, ok := a.(*ssa.Const); ok && types.Identical(cn.Type(), t) {
							r = append(r, c30leaf{nil_: true, pos: "an unassigned variable in " + fname(f)})
						}
					}
				}
			}
		}
	}
	return r
}

// a local struct: field k (or all of it) is assigned
func (c *c30) assigned(a *ssa.Alloc, k int) []c30leaf {
	any := false
	escapes := false
	for _, rf := range *a.Referrers() {
		switch x := rf.(type) {
		case *ssa.Store:
			if x.Addr == ssa.Value(a) {
				return nil
			}
			escapes = true
		case *ssa.FieldAddr:
			for _, rr := range *x.Referrers() {
				if st, ok := rr.(*ssa.Store); ok && st.Addr == ssa.Value(x) && x.Field == k {
					return nil
				}
			}
			any = true
		case *ssa.UnOp:
			any = true
		case *ssa.DebugRef:
		default:
			escapes = true
		}
	}
	if any || escapes {
		return []c30leaf{{nil_: true, pos: "the value at " + c.w.pos(a.Pos()) + ", which leaves it unassigned"}}
	}
	return nil
}

// a list of structs: every element is assigned
func (c *c30) filled(p *prover, f *ssa.Function, m ssa.Value, k int) []c30leaf {
	w := c.w
	pos := w.pos(m.Pos())
	var n poly
	if mk, ok := m.(*ssa.MakeSlice); ok {
		n = p.lin(mk.Len)
	} else {
		n = constPoly(float64(m.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()))
	}
	if kk, ok := n.konst(); ok && kk == 0 {
		return nil
	}
	// every alias of the list within the function
	alias := map[ssa.Value]bool{}
	var elems []*ssa.IndexAddr
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if alias[v] {
			return
		}
		alias[v] = true
		if v.Referrers() == nil {
			return
		}
		for _, rf := range *v.Referrers() {
			switch x := rf.(type) {
			case *ssa.ChangeType:
				walk(x)
			case *ssa.Slice:
				walk(x)
			case *ssa.Phi:
				walk(x)
			case *ssa.IndexAddr:
				if x.X == v {
					elems = append(elems, x)
				}
			case *ssa.Store:
				if x.Val == v {
					if al, ok := x.Addr.(*ssa.Alloc); ok {
						for _, rr := range *al.Referrers() {
							if u, ok := rr.(*ssa.UnOp); ok {
								walk(u)
							}
						}
					}
				}
			}
		}
	}
	walk(m)
	stores := 0
	consts := map[int64]bool{}
	for _, ia := range elems {
		for _, rr := range *ia.Referrers() {
			var st *ssa.Store
			switch x := rr.(type) {
			case *ssa.Store:
				if x.Addr == ssa.Value(ia) {
					st = x
				}
			case *ssa.FieldAddr:
				if x.Field == k {
					for _, r3 := range *x.Referrers() {
						if s, ok := r3.(*ssa.Store); ok && s.Addr == ssa.Value(x) {
							st = s
						}
					}
				}
			}
			if st == nil {
				continue
			}
			stores++
			if j, ok := constInt(ia.Index); ok {
				consts[j] = true
				continue
			}
			l, full, why := fullCounter(p, stripConv(p.canon(ia.Index)), n)
			if full && everyIteration(l, st.Block()) {
				return nil
			}
			if full {
				return []c30leaf{{nil_: true, pos: "the list made at " + pos + ", some entries of which are skipped at " + w.ipos(st)}}
			}
			if why != "" {
				return []c30leaf{{nil_: true, pos: "the list made at " + pos + ": the loop that fills it at " + w.ipos(st) + " " + why}}
			}
		}
	}
	if kk, ok := n.konst(); ok && float64(len(consts)) == kk {
		return nil
	}
	if stores == 0 {
		return []c30leaf{{nil_: true, pos: "the list made at " + pos + ", which is not filled"}}
	}
	return []c30leaf{{unk: "whether every entry of the list made at " + pos + " is filled"}}
}

func (c *c30) element(a *ssa.IndexAddr, ctx c30ctx, seen map[ssa.Value]bool, d int) []c30leaf {
	// a list of interface values made and filled here
	return []c30leaf{{unk: "element of a list at " + c.w.pos(a.Pos())}}
}

var c30models = map[string]string{
	"RGBAModel": "RGBA", "RGBA64Model": "RGBA64", "NRGBAModel": "NRGBA", "NRGBA64Model": "NRGBA64",
	"AlphaModel": "Alpha", "Alpha16Model": "Alpha16", "GrayModel": "Gray", "Gray16Model": "Gray16",
	"YCbCrModel": "YCbCr", "NYCbCrAModel": "NYCbCrA", "CMYKModel": "CMYK",
}

func (c *c30) result(x *ssa.Call, k int, ctx c30ctx, seen map[ssa.Value]bool, d int) []c30leaf {
	w := c.w
	if x.Call.IsInvoke() {
		m := x.Call.Method
		if m.Pkg() != nil && m.Pkg().Path() == "image/color" && m.Name() == "Convert" {
			if u, ok := x.Call.Value.(*ssa.UnOp); ok && u.Op == token.MUL {
				if g, ok := u.X.(*ssa.Global); ok && g.Pkg.Pkg.Path() == "image/color" {
					if tn := c30models[g.Name()]; tn != "" {
						return []c30leaf{{typ: g.Pkg.Pkg.Scope().Lookup(tn).Type(), pos: "color." + g.Name()}}
					}
				}
			}
			return []c30leaf{{any: "converted by a color model that is not fixed"}}
		}
	}
	ts := w.targets(x)
	mod := len(ts) > 0
	for _, t := range ts {
		if !w.inMod[t] {
			mod = false
		}
	}
	if !mod {
		return []c30leaf{{any: "the result of " + calleeName(x.Common())}}
	}
	var r []c30leaf
	for _, t := range ts {
		for _, b := range t.Blocks {
			if b == t.Recover {
				continue
			}
			for _, i := range b.Instrs {
				if rt, ok := i.(*ssa.Return); ok && k < len(rt.Results) {
					r = append(r, c.leaves(retVal(rt, k), ctx.with(t, x), seen, d+1)...)
				}
			}
		}
	}
	return r
}
