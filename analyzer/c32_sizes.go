package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C32: images of different dimensions are never combined. Wherever pixels of one image are accessed at positions which go as far
// as another image does, the two are images of the same size by construction, or their dimensions have been compared on every way
// there; requirements of a function on its parameters are followed to all of its callers.

func init() {
	register("C32", "images combined pixel by pixel: for every access to pixels at positions bounded by the size of another image, the two images are followed through parameters, closures, lists and constructors to where their dimensions are compared (must-dataflow over both outcomes of every comparison, full loops for lists)", runC32)
}

type c32 struct {
	w     *World
	r     *Report
	img   string
	done  map[string]bool
	queue []c32need
	facts map[*ssa.Function]*mustFacts
	rel   map[string]bool
	eq    map[*ssa.Function]bool
	sites map[string]string
	asked map[*ssa.Function]map[string]bool
}

// what the size of an array of pixels is determined by
type c32root struct {
	kind string    // "img", "slice", "elem"
	val  ssa.Value // image, slice, or list
	path string    // fields below val
	idx  string    // element, for "elem"; "*" for any
	lo   int64     // part of the list
	hi   int64     // -1: all
}

func (a c32root) key() string {
	s := fmt.Sprintf("%s:%p%s", a.kind, a.val, a.path)
	if a.kind == "elem" {
		s += "[" + a.idx + "]"
	}
	return s
}

func (a c32root) list() string { return fmt.Sprintf("%p%s", a.val, a.path) }

type c32need struct {
	a, b c32root
	at   ssa.Instruction
	what string
	org  string // function combining the pixels
	hop  int
}

func runC32(w *World, r *Report) {
	r.rule("combine", "pixels accessed at positions bounded by the size of another image: both are known to have the same dimensions", 8)
	r.rule("equal", "comparisons of dimensions look at the number of axes and at every axis", 1)
	c := &c32{asked: map[*ssa.Function]map[string]bool{}, w: w, r: r, img: c31image, done: map[string]bool{}, facts: map[*ssa.Function]*mustFacts{}, eq: map[*ssa.Function]bool{}}
	for _, f := range w.Funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				switch x := i.(type) {
				case *ssa.IndexAddr:
					if floatSlice(x.X.Type()) {
						c.site(i, x.X, x.Index)
					}
				case *ssa.Slice:
					if floatSlice(x.X.Type()) && (x.Low != nil || x.High != nil) {
						c.site(i, x.X, x.Low, x.High)
					}
				case *ssa.Call:
					if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "copy" && floatSlice(x.Call.Args[0].Type()) && floatSlice(x.Call.Args[1].Type()) {
						c.pairs(i, c.sliceRoots(x.Call.Args[0], 0), c.sliceRoots(x.Call.Args[1], 0), "copies pixels")
					}
				}
			}
		}
	}
	for len(c.queue) > 0 {
		n := c.queue[0]
		c.queue = c.queue[1:]
		c.settle(n)
	}
}

func floatSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Float32
}

func (c *c32) isImg(t types.Type) bool { return deref(t).String() == c.img }

// ---- where values come from

// the value itself, behind variables, captured variables, conversions and parameters of closures called in one place
func (c *c32) resolve(v ssa.Value) ssa.Value {
	for d := 0; d < 20; d++ {
		switch x := v.(type) {
		case *ssa.ChangeType:
			v = x.X
			continue
		case *ssa.FreeVar:
			if b := freeVarBinding(x); b != nil {
				v = b
				continue
			}
		case *ssa.UnOp:
			if x.Op == token.MUL {
				a := x.X
				if fv, ok := a.(*ssa.FreeVar); ok {
					if b := freeVarBinding(fv); b != nil {
						a = b
					}
				}
				if al, ok := a.(*ssa.Alloc); ok {
					if s := singleStore(al); s != nil {
						v = s
						continue
					}
				}
			}
		case *ssa.Parameter:
			if x.Parent().Parent() != nil {
				if a := c.onlyArg(x); a != nil {
					v = a
					continue
				}
			}
		case *ssa.Phi:
			var one ssa.Value
			for _, e := range x.Edges {
				if k, ok := e.(*ssa.Const); ok && k.IsNil() {
					continue
				}
				if e == ssa.Value(x) {
					continue
				}
				if one != nil && one != e {
					return v
				}
				one = e
			}
			if one != nil {
				v = one
				continue
			}
		}
		return v
	}
	return v
}

func (c *c32) onlyArg(pr *ssa.Parameter) ssa.Value {
	cs := c.w.calls().callers[pr.Parent()]
	if len(cs) != 1 {
		return nil
	}
	return argFor(pr, pr.Parent(), cs[0])
}

// base value and fields of an address or value reached through fields
func (c *c32) pathOf(addr ssa.Value, d int) (ssa.Value, string) {
	if d > 8 {
		return addr, ""
	}
	switch x := addr.(type) {
	case *ssa.FieldAddr:
		b, p := c.pathOf(c.resolve(x.X), d+1)
		return b, p + "." + fieldName(x.X.Type(), x.Field)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if fa, ok := x.X.(*ssa.FieldAddr); ok {
				return c.pathOf(fa, d+1)
			}
		}
	}
	return addr, ""
}

func (c *c32) imageRoot(v ssa.Value, d int) (c32root, bool) {
	v = c.resolve(v)
	if d > 8 {
		return c32root{}, false
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			switch a := x.X.(type) {
			case *ssa.IndexAddr:
				return c.elem(a, d)
			case *ssa.FieldAddr:
				b, p := c.pathOf(a, 0)
				return c32root{kind: "img", val: b, path: p}, true
			}
		}
	case *ssa.Call:
		if rt, ok := c.made(x, 0, d); ok {
			return rt, true
		}
	case *ssa.Extract:
		if cl, ok := x.Tuple.(*ssa.Call); ok {
			if rt, ok := c.made(cl, x.Index, d); ok {
				return rt, true
			}
		}
	case *ssa.Alloc:
		if c.isImg(x.Type()) {
			if n := storedField(x, "Naxisn"); n != nil {
				if rt, ok := c.axesRoot(n, d+1); ok {
					return rt, true
				}
			}
		}
	case *ssa.Const:
		return c32root{}, false
	}
	return c32root{kind: "img", val: v}, true
}

func (c *c32) elem(a *ssa.IndexAddr, d int) (c32root, bool) {
	rt, ok := c.listOf(a.X, d)
	if !ok {
		return c32root{}, false
	}
	rt.kind = "elem"
	if k, ok := constInt(a.Index); ok {
		rt.idx = fmt.Sprint(k + rt.lo)
	} else {
		b, o := baseOffset(a.Index)
		rt.idx = fmt.Sprintf("%p%+d", c.resolve(b), o+rt.lo)
	}
	return rt, true
}

// a list of images or of arrays of pixels, and the part of it a slice of it covers
func (c *c32) listOf(v ssa.Value, d int) (c32root, bool) {
	lo, hi := int64(0), int64(-1)
	for k := 0; k < 8; k++ {
		v = c.resolve(v)
		sl, ok := v.(*ssa.Slice)
		if !ok {
			break
		}
		l := int64(0)
		if sl.Low != nil {
			n, ok := constInt(sl.Low)
			if !ok {
				break
			}
			l = n
		}
		if sl.High != nil {
			n, ok := constInt(sl.High)
			if !ok {
				break
			}
			if hi < 0 {
				hi = n + lo
			}
		}
		lo += l
		if hi >= 0 {
			hi += l
		}
		if _, ok := sl.X.Type().Underlying().(*types.Slice); !ok {
			break
		}
		v = sl.X
	}
	b, p := v, ""
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if fa, ok := u.X.(*ssa.FieldAddr); ok {
			b, p = c.pathOf(fa, 0)
		}
	}
	return c32root{kind: "list", val: b, path: p, lo: lo, hi: hi}, true
}

func storedField(al *ssa.Alloc, name string) ssa.Value {
	var res ssa.Value
	for _, r := range *al.Referrers() {
		if fa, ok := r.(*ssa.FieldAddr); ok && fieldName(fa.X.Type(), fa.Field) == name {
			for _, rr := range *fa.Referrers() {
				if st, ok := rr.(*ssa.Store); ok && st.Addr == ssa.Value(fa) {
					if res != nil {
						return nil
					}
					res = st.Val
				}
			}
		}
	}
	return res
}

// the image whose axes a slice of axes is, or is a copy of
func (c *c32) axesRoot(v ssa.Value, d int) (c32root, bool) {
	v = c.resolve(v)
	if d > 10 {
		return c32root{}, false
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL && c.isImg(fa.X.Type()) && fieldName(fa.X.Type(), fa.Field) == "Naxisn" {
			return c.imageRoot(fa.X, d+1)
		}
	case *ssa.Parameter:
		return c32root{kind: "axes", val: x}, true
	case *ssa.MakeSlice: // filled from other axes, maybe with one more
		for _, r := range *x.Referrers() {
			if cl, ok := r.(*ssa.Call); ok {
				if bi, ok := cl.Call.Value.(*ssa.Builtin); ok && bi.Name() == "copy" && cl.Call.Args[0] == v {
					return c.axesRoot(cl.Call.Args[1], d+1)
				}
			}
		}
	case *ssa.Call:
		if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" && len(x.Call.Args) == 2 {
			if k, ok := x.Call.Args[0].(*ssa.Const); ok && k.IsNil() {
				return c.axesRoot(x.Call.Args[1], d+1)
			}
			if mk, ok := c.resolve(x.Call.Args[0]).(*ssa.MakeSlice); ok {
				if n, ok := constInt(mk.Len); ok && n == 0 {
					return c.axesRoot(x.Call.Args[1], d+1)
				}
			}
		}
	}
	return c32root{}, false
}

// image returned by a call, which has the dimensions of an argument
func (c *c32) made(cl *ssa.Call, k, d int) (res c32root, ok bool) {
	ts := c.w.targets(cl)
	if len(ts) != 1 || ts[0].Blocks == nil || d > 4 {
		return
	}
	n := 0
	for _, b := range ts[0].Blocks {
		rt, isR := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !isR || b == ts[0].Recover || len(rt.Results) <= k {
			continue
		}
		v := retVal(rt, k)
		if v == nil {
			return res, false
		}
		if kc, isC := v.(*ssa.Const); isC && kc.IsNil() {
			continue
		}
		q, has := c.imageRoot(v, d+2)
		if !has {
			return res, false
		}
		s, has := c.outer(q, ts[0], cl, d)
		if !has || len(s) != 1 || n > 0 && s[0].key() != res.key() {
			return res, false
		}
		res = s[0]
		n++
	}
	return res, n > 0
}

// root in a function in terms of the values at a call of it
func (c *c32) outer(q c32root, f *ssa.Function, cl ssa.CallInstruction, d int) (res []c32root, ok bool) {
	pr, isP := q.val.(*ssa.Parameter)
	if !isP || pr.Parent() != f {
		return nil, false
	}
	a := argFor(pr, f, cl)
	if a == nil {
		return nil, false
	}
	switch q.kind {
	case "axes":
		if rt, has := c.axesRoot(a, d+1); has {
			return []c32root{rt}, true
		}
	case "img":
		if q.path == "" {
			if rt, has := c.imageRoot(a, d+1); has {
				return []c32root{rt}, true
			}
			return nil, false
		}
		b, p := c.pathOf(c.resolve(a), 0)
		return []c32root{{kind: "img", val: b, path: p + q.path}}, true
	case "slice":
		rs := c.sliceRoots(a, d+1)
		return rs, len(rs) > 0
	case "elem":
		l, has := c.listOf(a, d+1)
		if !has {
			return nil, false
		}
		if q.path != "" {
			return nil, false
		}
		if rs, made := c.elements(l.val); made {
			return rs, len(rs) > 0
		}
		return []c32root{{kind: "elem", val: l.val, path: l.path, idx: "*", lo: l.lo + q.lo, hi: l.hi}}, true
	}
	return nil, false
}

// what the elements stored in a list made here are bounded by
func (c *c32) elements(l ssa.Value) (rs []c32root, made bool) {
	vs, made := c.contents(l)
	if !made {
		return nil, false
	}
	for _, v := range vs {
		c.add(&rs, c.sizeRoots(v)...)
	}
	return rs, true
}

func (c *c32) sizeRoots(v ssa.Value) (rs []c32root) {
	if c.isImg(v.Type()) {
		if rt, ok := c.imageRoot(v, 1); ok {
			rs = append(rs, rt)
		}
		return rs
	}
	return c.sliceRoots(v, 1)
}

// the values put into a list which is made here
func (c *c32) contents(l ssa.Value) (vs []ssa.Value, made bool) {
	seen := map[ssa.Value]bool{}
	ok := true
	var visit func(v ssa.Value)
	stores := func(v ssa.Value) {
		if v.Referrers() == nil {
			return
		}
		for _, r := range *v.Referrers() {
			if ia, isI := r.(*ssa.IndexAddr); isI && ia.X == v {
				for _, rr := range *ia.Referrers() {
					if st, isS := rr.(*ssa.Store); isS && st.Addr == ssa.Value(ia) {
						vs = append(vs, st.Val)
					}
				}
			}
		}
	}
	visit = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Const:
		case *ssa.MakeSlice:
			made = true
			stores(x)
		case *ssa.Slice:
			if al, isA := x.X.(*ssa.Alloc); isA {
				made = true
				stores(al)
				return
			}
			visit(x.X)
		case *ssa.Phi:
			for _, e := range x.Edges {
				visit(e)
			}
			stores(x)
		case *ssa.Call:
			bi, isB := x.Call.Value.(*ssa.Builtin)
			if !isB || bi.Name() != "append" || len(x.Call.Args) != 2 {
				ok = false
				return
			}
			made = true
			visit(x.Call.Args[0])
			visit(x.Call.Args[1])
			stores(x)
		default:
			if w := c.resolve(v); w != v {
				visit(w)
				return
			}
			ok = false
		}
	}
	visit(l)
	return vs, made && ok
}

func (c *c32) add(rs *[]c32root, q ...c32root) {
	for _, x := range q {
		dup := false
		for _, y := range *rs {
			dup = dup || x.key() == y.key()
		}
		if !dup {
			*rs = append(*rs, x)
		}
	}
}

// what the length of an array of pixels is determined by
func (c *c32) sliceRoots(v ssa.Value, d int) (rs []c32root) {
	return c.sliceRootsS(v, d, map[ssa.Value]bool{})
}

func (c *c32) sliceRootsS(v ssa.Value, d int, seen map[ssa.Value]bool) (rs []c32root) {
	v = c.resolve(v)
	if d > 8 || seen[v] {
		return nil
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return nil
		}
		switch a := x.X.(type) {
		case *ssa.FieldAddr:
			if c.isImg(a.X.Type()) && fieldName(a.X.Type(), a.Field) == "Data" {
				if rt, ok := c.imageRoot(a.X, d); ok {
					return []c32root{rt}
				}
			}
		case *ssa.IndexAddr:
			if rt, ok := c.elem(a, d); ok {
				if rs, made := c.elements(rt.val); made {
					return rs
				}
				return []c32root{rt}
			}
		}
	case *ssa.MakeSlice:
		return c.intRoots(x.Len, d+1, seen)
	case *ssa.Slice:
		if x.High == nil {
			c.add(&rs, c.sliceRootsS(x.X, d+1, seen)...)
		} else {
			c.add(&rs, c.intRoots(x.High, d+1, seen)...)
		}
		if x.Low != nil && len(rs) == 0 {
			c.add(&rs, c.intRoots(x.Low, d+1, seen)...)
		}
	case *ssa.Parameter:
		return []c32root{{kind: "slice", val: x}}
	case *ssa.Phi:
		for _, e := range x.Edges {
			c.add(&rs, c.sliceRootsS(e, d+1, seen)...)
		}
	case *ssa.Call:
		return c.resultRoots(x, 0, d)
	case *ssa.Extract:
		if cl, ok := x.Tuple.(*ssa.Call); ok {
			return c.resultRoots(cl, x.Index, d)
		}
	}
	return rs
}

func (c *c32) resultRoots(cl *ssa.Call, k, d int) (rs []c32root) {
	ts := c.w.targets(cl)
	if len(ts) != 1 || ts[0].Blocks == nil || d > 4 {
		return nil
	}
	for _, b := range ts[0].Blocks {
		rt, isR := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !isR || b == ts[0].Recover || len(rt.Results) <= k {
			continue
		}
		v := retVal(rt, k)
		if v == nil {
			return nil
		}
		for _, q := range c.sliceRoots(v, d+2) {
			s, ok := c.outer(q, ts[0], cl, d)
			if !ok {
				return nil
			}
			c.add(&rs, s...)
		}
	}
	return rs
}

// sizes of images a number is computed from or bounded by
func (c *c32) intRoots(v ssa.Value, d int, seen map[ssa.Value]bool) (rs []c32root) {
	v = c.resolve(stripConv(v))
	if cv := stripConv(v); cv != v {
		v = c.resolve(cv)
	}
	if d > 14 || seen[v] {
		return nil
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.BinOp:
		switch x.Op {
		case token.ADD, token.SUB, token.MUL, token.QUO, token.REM, token.SHL, token.SHR, token.AND, token.AND_NOT, token.OR:
			c.add(&rs, c.intRoots(x.X, d+1, seen)...)
			c.add(&rs, c.intRoots(x.Y, d+1, seen)...)
		}
	case *ssa.Phi:
		for _, l := range loopsOf(x.Parent()) {
			if l.head == x.Block() {
				for _, g := range l.guards() {
					if g.x.phi == x {
						c.add(&rs, c.intRoots(g.bound, d+1, seen)...)
					}
				}
			}
		}
		for _, e := range x.Edges {
			c.add(&rs, c.intRoots(e, d+1, seen)...)
		}
	case *ssa.Call:
		bi, ok := x.Call.Value.(*ssa.Builtin)
		if !ok {
			return nil
		}
		switch bi.Name() {
		case "len", "cap":
			if floatSlice(x.Call.Args[0].Type()) {
				return c.sliceRoots(x.Call.Args[0], d+1)
			}
		case "min", "max":
			for _, a := range x.Call.Args {
				c.add(&rs, c.intRoots(a, d+1, seen)...)
			}
		}
	case *ssa.UnOp:
		if rt, _, ok := c.sizeOf(x, d); ok {
			return []c32root{rt}
		}
	}
	return rs
}

// a number which is a size of an image: number of pixels ("n") or an axis
func (c *c32) sizeOf(v ssa.Value, d int) (rt c32root, what string, ok bool) {
	v = c.resolve(stripConv(v))
	v = stripConv(v)
	if cl, isC := v.(*ssa.Call); isC {
		if bi, isB := cl.Call.Value.(*ssa.Builtin); isB && bi.Name() == "len" {
			a := c.resolve(cl.Call.Args[0])
			if floatSlice(a.Type()) {
				if rs := c.sliceRoots(a, d+1); len(rs) == 1 {
					return rs[0], "n", true
				}
			} else if rt, ok := c.axesRoot(a, d+1); ok && rt.kind != "axes" {
				return rt, "axes", true
			}
		}
		return
	}
	u, isU := v.(*ssa.UnOp)
	if !isU || u.Op != token.MUL {
		return
	}
	switch a := u.X.(type) {
	case *ssa.FieldAddr:
		if c.isImg(a.X.Type()) && fieldName(a.X.Type(), a.Field) == "Pixels" {
			rt, ok = c.imageRoot(a.X, d+1)
			return rt, "n", ok
		}
	case *ssa.IndexAddr:
		if t, isS := a.X.Type().Underlying().(*types.Slice); isS && t.Elem().String() == "int32" {
			if k, isK := constInt(a.Index); isK {
				if rt, ok = c.axesRoot(a.X, d+1); ok && rt.kind != "axes" {
					return rt, fmt.Sprint("ax", k), true
				}
			}
		}
	}
	return c32root{}, "", false
}

// ---- obligations

func (c *c32) site(i ssa.Instruction, x ssa.Value, idx ...ssa.Value) {
	ys := c.sliceRoots(x, 0)
	if len(ys) == 0 {
		return
	}
	var bs []c32root
	for _, v := range idx {
		if v == nil {
			continue
		}
		c.add(&bs, c.intRoots(v, 0, map[ssa.Value]bool{})...)
		// tested against something before the access
		base, _ := baseOffset(v)
		for b := i.Block().Idom(); b != nil; b = b.Idom() {
			iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !ok {
				continue
			}
			bo, _ := stripNot(iff.Cond)
			cmp, ok := bo.(*ssa.BinOp)
			if !ok {
				continue
			}
			for k, s := range []ssa.Value{cmp.X, cmp.Y} {
				if q, _ := baseOffset(s); q == base {
					c.add(&bs, c.intRoots([]ssa.Value{cmp.Y, cmp.X}[k], 0, map[ssa.Value]bool{})...)
				}
			}
		}
	}
	c.pairs(i, ys, bs, "accesses pixels")
}

func (c *c32) pairs(i ssa.Instruction, ys, bs []c32root, what string) {
	for _, y := range ys {
		for _, b := range bs {
			if y.key() == b.key() {
				return
			}
		}
	}
	for _, y := range ys {
		for _, b := range bs {
			c.queue = append(c.queue, c32need{y, b, i, what, fname(i.Parent()), 0})
		}
	}
}

func (c *c32) name(a c32root) string {
	n := ""
	switch v := a.val.(type) {
	case *ssa.Parameter:
		n = v.Name()
	case *ssa.Call:
		n = "result of " + shortCall(&v.Call)
	case *ssa.Extract:
		if cl, ok := v.Tuple.(*ssa.Call); ok {
			n = "result of " + shortCall(&cl.Call)
		}
	case *ssa.Phi:
		n = v.Comment
	case *ssa.Alloc:
		n = v.Comment
	}
	if n == "" {
		n = "image"
	}
	n += a.path
	if a.kind == "elem" {
		n += "[]"
	}
	return n
}

func shortCall(cc *ssa.CallCommon) string {
	n := calleeName(cc)
	if n == "" {
		return "a function value"
	}
	return strings.ReplaceAll(n, Mod+"/internal/", "")
}

// the function the values of a root belong to
func owner(v ssa.Value) *ssa.Function {
	switch x := v.(type) {
	case *ssa.Parameter:
		return x.Parent()
	case ssa.Instruction:
		return x.Parent()
	}
	return nil
}

func (c *c32) settle(n c32need) {
	if n.a.key() == n.b.key() && n.a.idx != "*" {
		return
	}
	if n.hop > 12 {
		return
	}
	f := n.at.Parent()
	// values of the enclosing function: look at the place the closure is created
	for f.Parent() != nil && owner(n.a.val) != f && owner(n.b.val) != f {
		var mc ssa.Instruction
		for _, b := range f.Parent().Blocks {
			for _, i := range b.Instrs {
				if m, ok := i.(*ssa.MakeClosure); ok && m.Fn == ssa.Value(f) {
					mc = m
				}
			}
		}
		if mc == nil {
			return
		}
		n.at, f = mc, f.Parent()
	}
	k := fmt.Sprintf("%s|%s|%d|%s|%p|%s", n.a.key(), n.b.key(), n.a.hi, n.org, n.at.Block(), n.what)
	if c.done[k] {
		return
	}
	c.done[k] = true
	if n.a.kind == "elem" && n.b.kind == "elem" && n.a.list() == n.b.list() {
		c.uniform(n, f)
		return
	}
	for _, x := range []c32root{n.a, n.b} { // one of a list: all of the list are of one size
		if x.kind == "elem" {
			m := n
			m.a, m.b = x, x
			m.a.idx, m.b.idx = "*", "*"
			m.hop++
			c.queue = append(c.queue, m)
		}
	}
	if st := c.related(n.a, n.b, n.at, f); st != "" {
		if st == "count" && !c.countOK(f, n) {
			c.r.bad("combine", fmt.Sprintf("%s/%s and %s", fname(f), c.name(n.a), c.name(n.b)), c.w.ipos(n.at), "%s %s of %s and %s together; only their numbers of pixels are compared, not their dimensions", n.org, n.what, c.name(n.a), c.name(n.b))
			return
		}
		c.r.ob("combine", "%s: %s and %s compared before %s %s", fname(f), c.name(n.a), c.name(n.b), n.org, n.what)
		return
	}
	c.up(n, f)
}

// a requirement on parameters goes to the callers
func (c *c32) up(n c32need, f *ssa.Function) {
	pa, ok1 := n.a.val.(*ssa.Parameter)
	pb, ok2 := n.b.val.(*ssa.Parameter)
	callers := c.w.calls().callers[f]
	if ok1 && ok2 && pa.Parent() == f && pb.Parent() == f && len(callers) > 0 && n.hop < 10 && !c.given(n.a) && !c.given(n.b) {
		for _, cl := range callers {
			if !c.w.inMod[cl.Parent()] {
				continue
			}
			as, oka := c.outer(n.a, f, cl, 0)
			bs, okb := c.outer(n.b, f, cl, 0)
			if !oka || !okb {
				c.r.note("%s: sizes of %s and %s at the call of %s are not known", c.w.ipos(cl), c.name(n.a), c.name(n.b), fname(f))
				continue
			}
			same := false
			for _, a := range as {
				for _, b := range bs {
					same = same || a.key() == b.key() && a.idx != "*"
				}
			}
			if same {
				c.r.ob("combine", "%s: %s and %s of %s are of one size by construction", fname(cl.Parent()), c.name(n.a), c.name(n.b), fname(f))
				continue
			}
			for _, a := range as {
				for _, b := range bs {
					c.queue = append(c.queue, c32need{a, b, cl, n.what, n.org, n.hop + 1})
				}
			}
		}
		return
	}
	if n.a.kind == "slice" || n.b.kind == "slice" {
		if len(callers) == 0 {
			c.r.note("%s: %s and %s of %s, which nothing calls", c.w.ipos(n.at), c.name(n.a), c.name(n.b), fname(f))
			return
		}
		c.r.undecided("%s: sizes of %s and %s in %s", c.w.ipos(n.at), c.name(n.a), c.name(n.b), fname(f))
		return
	}
	if len(callers) == 0 && ok1 && ok2 && f.Signature.Recv() == nil {
		c.r.note("%s: %s and %s of %s, which nothing calls", c.w.ipos(n.at), c.name(n.a), c.name(n.b), fname(f))
		return
	}
	if c.checked(n, f) {
		c.r.undecided("%s: %s and %s in %s may have been compared by a function", c.w.ipos(n.at), c.name(n.a), c.name(n.b), fname(f))
		return
	}
	c.r.bad("combine", fmt.Sprintf("%s/%s and %s", fname(f), c.name(n.a), c.name(n.b)), c.w.ipos(n.at), "%s %s of %s and %s together, but there are ways to get there in %s without comparing their dimensions", n.org, n.what, c.name(n.a), c.name(n.b), fname(f))
}

// a shared frame: different for every caller
func (c *c32) given(a c32root) bool { return a.path != "" }

// was one of the images handed to a function which can fail before?
func (c *c32) checked(n c32need, f *ssa.Function) bool {
	for _, b := range f.Blocks {
		if b != n.at.Block() && !b.Dominates(n.at.Block()) {
			continue
		}
		for _, i := range b.Instrs {
			cl, ok := i.(*ssa.Call)
			if !ok || i == n.at {
				continue
			}
			fails := false
			res := cl.Call.Signature().Results()
			for k := 0; k < res.Len(); k++ {
				if isErrT(res.At(k).Type()) || types.Identical(res.At(k).Type().Underlying(), types.Typ[types.Bool]) {
					fails = true
				}
			}
			if !fails {
				continue
			}
			ina, inb := false, false
			for _, a := range cl.Call.Args {
				var q c32root
				var has bool
				if c.isImg(a.Type()) {
					q, has = c.imageRoot(a, 0)
				} else if _, isS := a.Type().Underlying().(*types.Slice); isS {
					q, has = c.listOf(a, 0)
				}
				if has {
					ina = ina || q.list() == n.a.list()
					inb = inb || q.list() == n.b.list()
				}
			}
			if ina && inb {
				for _, t := range c.w.targets(cl) {
					if c.w.inMod[t] && t.Blocks != nil && comparesAxes(c, t) {
						return true
					}
				}
			}
		}
	}
	return false
}

func comparesAxes(c *c32, f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if bo, ok := i.(*ssa.BinOp); ok && (bo.Op == token.NEQ || bo.Op == token.EQL) {
				if _, _, ok := c.sizeOf(bo.X, 0); ok {
					return true
				}
			}
			if cl, ok := i.(*ssa.Call); ok && c.comparison(cl) {
				return true
			}
		}
	}
	return false
}

// calibration masters with the same number of pixels are documented to be accepted
func (c *c32) countOK(f *ssa.Function, n c32need) bool {
	if n.a.kind == "slice" && n.b.kind == "slice" {
		return true
	}
	rc := f.Signature.Recv()
	return rc != nil && strings.HasSuffix(deref(rc.Type()).String(), ".OpCalibrate")
}

// ---- comparisons

func (c *c32) comparison(cl *ssa.Call) bool {
	if len(cl.Call.Args) != 2 || cl.Call.IsInvoke() {
		return false
	}
	res := cl.Call.Signature().Results()
	if res.Len() != 1 || !types.Identical(res.At(0).Type().Underlying(), types.Typ[types.Bool]) {
		return false
	}
	for _, a := range cl.Call.Args {
		if mi, ok := a.(*ssa.MakeInterface); ok {
			a = mi.X
		}
		t, ok := a.Type().Underlying().(*types.Slice)
		if !ok || t.Elem().String() != "int32" {
			return false
		}
	}
	switch n := calleeName(&cl.Call); n {
	case "reflect.DeepEqual", "slices.Equal":
		return true
	}
	ts := c.w.targets(cl)
	if len(ts) != 1 || !c.w.inMod[ts[0]] || ts[0].Blocks == nil {
		return false
	}
	return c.equality(ts[0])
}

// does a function comparing two slices compare their lengths and all elements?
func (c *c32) equality(f *ssa.Function) bool {
	if r, ok := c.eq[f]; ok {
		return r
	}
	lens, elems, whole := false, false, false
	at := f.Blocks[0].Instrs[0]
	of := func(v ssa.Value, k int) bool {
		u, ok := v.(*ssa.UnOp)
		if !ok || u.Op != token.MUL {
			return false
		}
		ia, ok := u.X.(*ssa.IndexAddr)
		return ok && ia.X == ssa.Value(f.Params[k])
	}
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			bo, ok := i.(*ssa.BinOp)
			if !ok || bo.Op != token.EQL && bo.Op != token.NEQ {
				continue
			}
			is := func(k int) func(v ssa.Value) bool {
				return func(v ssa.Value) bool { return v == ssa.Value(f.Params[k]) }
			}
			if lenOf(bo.X, is(0)) && lenOf(bo.Y, is(1)) || lenOf(bo.X, is(1)) && lenOf(bo.Y, is(0)) {
				lens = true
			}
			if of(bo.X, 0) && of(bo.Y, 1) || of(bo.X, 1) && of(bo.Y, 0) {
				elems = true
				ia := bo.X.(*ssa.UnOp).X.(*ssa.IndexAddr)
				ib := bo.Y.(*ssa.UnOp).X.(*ssa.IndexAddr)
				if iv, ok := induction(ia.Index); ok && ib.Index == ia.Index && iv.step == 1 {
					if k, ok := constInt(iv.init); ok && k+iv.off == 0 {
						for _, g := range iv.l.guards() {
							if g.op == token.LSS && g.x.phi == iv.phi && (lenOf(g.bound, is(0)) || lenOf(g.bound, is(1))) {
								whole = true
							}
						}
					} else if ok {
						elems = false
					}
				} else {
					whole = true // another way to go over the elements
				}
			}
		}
	}
	// equality is only reported where the lengths are the same, and no round goes on after a difference
	is := func(k int) func(v ssa.Value) bool {
		return func(v ssa.Value) bool { return v == ssa.Value(f.Params[k]) }
	}
	edge := func(from *ssa.BasicBlock, k int) []string {
		iff, ok := from.Instrs[len(from.Instrs)-1].(*ssa.If)
		if !ok {
			return nil
		}
		cond, neg := stripNot(iff.Cond)
		bo, ok := cond.(*ssa.BinOp)
		if !ok || (bo.Op == token.EQL) != ((k == 0) != neg) && (bo.Op == token.NEQ) != ((k == 1) != neg) {
			return nil
		}
		if bo.Op != token.EQL && bo.Op != token.NEQ {
			return nil
		}
		if lenOf(bo.X, is(0)) && lenOf(bo.Y, is(1)) || lenOf(bo.X, is(1)) && lenOf(bo.Y, is(0)) {
			return []string{"len"}
		}
		if of(bo.X, 0) && of(bo.Y, 1) || of(bo.X, 1) && of(bo.Y, 0) {
			return []string{"el"}
		}
		return nil
	}
	m := mustFlowEdges(f, func(i ssa.Instruction) []string { return nil }, edge)
	for _, b := range f.Blocks {
		if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && b != f.Recover {
			if k, isC := retVal(rt, 0).(*ssa.Const); isC && k.Value != nil && k.Value.String() == "true" && !m.at(rt)["len"] {
				lens = false
			}
		}
	}
	for _, l := range loopsOf(f) {
		for _, la := range l.latches {
			has := m.at(la.Instrs[len(la.Instrs)-1])["el"]
			for k, s := range la.Succs {
				if s == l.head && !has && !contains(edge(la, k), "el") {
					elems = false
				}
			}
		}
	}
	ok := lens && elems && whole
	c.eq[f] = ok
	if ok {
		c.r.ob("equal", "%s compares the numbers of axes and all axes", fname(f))
	} else {
		c.r.bad("equal", fname(f), c.w.ipos(at), "%s is used to compare dimensions, but does not compare the number of axes and every axis", fname(f))
	}
	return ok
}

// the part of the axes an argument of a comparison covers: at least the first two, or all
func (c *c32) compared(v ssa.Value) (rt c32root, upto int64, ok bool) {
	if mi, isM := v.(*ssa.MakeInterface); isM {
		v = mi.X
	}
	v = c.resolve(v)
	upto = -1
	if sl, isS := v.(*ssa.Slice); isS {
		if sl.Low != nil {
			if k, isK := constInt(sl.Low); !isK || k != 0 {
				return
			}
		}
		if sl.High != nil {
			k, isK := constInt(sl.High)
			if !isK {
				return
			}
			upto = k
		}
		v = sl.X
	}
	rt, ok = c.axesRoot(v, 0)
	return rt, upto, ok && rt.kind != "axes"
}

func relKey(a, b c32root, st string) string {
	x, y := a.key(), b.key()
	if x > y {
		x, y = y, x
	}
	return x + "~" + y + "~" + st
}

func (c *c32) condFacts(v ssa.Value, val bool, d int) (fs []string) {
	v, neg := stripNot(v)
	if neg {
		val = !val
	}
	switch x := v.(type) {
	case *ssa.BinOp:
		if x.Op == token.EQL && val || x.Op == token.NEQ && !val {
			a, wa, ok1 := c.sizeOf(x.X, 0)
			b, wb, ok2 := c.sizeOf(x.Y, 0)
			if ok1 && ok2 && wa == wb {
				fs = append(fs, relKey(a, b, wa))
			}
		}
	case *ssa.Call:
		if val && c.comparison(x) {
			a, na, ok1 := c.compared(x.Call.Args[0])
			b, nb, ok2 := c.compared(x.Call.Args[1])
			if ok1 && ok2 {
				switch {
				case na == 1 || nb == 1:
					fs = append(fs, relKey(a, b, "ax0"))
				case na == 0 || nb == 0:
				case na > 1 && nb > 1: // nothing about the number of axes
					fs = append(fs, relKey(a, b, "ax0"), relKey(a, b, "ax1"))
				default:
					fs = append(fs, relKey(a, b, "dims"))
				}
			}
		}
	case *ssa.Phi:
		if d > 3 {
			return nil
		}
		var rest []int
		for k, e := range x.Edges {
			if kc, ok := e.(*ssa.Const); ok && kc.Value != nil {
				if (kc.Value.String() == "true") != val {
					continue
				}
			}
			rest = append(rest, k)
		}
		if len(rest) == 1 {
			e := x.Edges[rest[0]]
			if _, ok := e.(*ssa.Const); !ok {
				fs = append(fs, c.condFacts(e, val, d+1)...)
			}
			// everything decided on the way to that edge
			p := x.Block().Preds[rest[0]]
			for b := p; b != nil && b.Idom() != nil; b = b.Idom() {
				id := b.Idom()
				if iff, ok := id.Instrs[len(id.Instrs)-1].(*ssa.If); ok && len(b.Preds) == 1 {
					fs = append(fs, c.condFacts(iff.Cond, id.Succs[0] == b, d+1)...)
				}
			}
		}
	}
	return fs
}

func (c *c32) flow(f *ssa.Function) *mustFacts {
	if m, ok := c.facts[f]; ok {
		return m
	}
	all := map[string]bool{}
	for _, b := range f.Blocks {
		if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			for _, s := range append(c.condFacts(iff.Cond, true, 0), c.condFacts(iff.Cond, false, 0)...) {
				all[s] = true
			}
		}
	}
	m := mustFlowEdges(f, func(i ssa.Instruction) []string { return nil }, func(from *ssa.BasicBlock, k int) []string {
		iff, ok := from.Instrs[len(from.Instrs)-1].(*ssa.If)
		if !ok {
			return nil
		}
		fs := c.condFacts(iff.Cond, k == 0, 0)
		// an image which is missing is not accessed, whatever it is compared with
		if bo, ok := iff.Cond.(*ssa.BinOp); ok && (bo.Op == token.EQL && k == 0 || bo.Op == token.NEQ && k == 1) && c.isImg(bo.X.Type()) {
			x, y := bo.X, bo.Y
			if kc, isC := x.(*ssa.Const); isC && kc.IsNil() {
				x, y = y, x
			}
			if kc, isC := y.(*ssa.Const); isC && kc.IsNil() {
				if rt, ok := c.imageRoot(x, 0); ok {
					for s := range all {
						p := strings.Split(s, "~")
						if p[0] == rt.key() || p[1] == rt.key() {
							fs = append(fs, s)
						}
					}
				}
			}
		}
		// both numbers of pixels at least: dimensions imply the number
		for _, s := range fs {
			if strings.HasSuffix(s, "~dims") {
				fs = append(fs, strings.TrimSuffix(s, "dims")+"n")
			}
		}
		return fs
	})
	c.facts[f] = m
	return m
}

// how the sizes of two images were compared on every way to an instruction: "dims", "count" or not at all
func (c *c32) related(a, b c32root, at ssa.Instruction, f *ssa.Function) string {
	has := c.flow(f).at(at)
	if st := c.strength(has, a, b); st != "" {
		return st
	}
	// compared with a common third image
	third := map[string]string{}
	for _, x := range []c32root{a, b} {
		for k := range has {
			p := strings.Split(k, "~")
			o := ""
			if p[0] == x.key() {
				o = p[1]
			} else if p[1] == x.key() {
				o = p[0]
			}
			if o != "" && p[2] == "dims" {
				if x.key() == a.key() {
					third[o] = "a"
				} else if third[o] == "a" {
					return "dims"
				}
			}
		}
	}
	// any element of a list
	for _, x := range [][2]c32root{{a, b}, {b, a}} {
		if x[0].kind != "elem" {
			continue
		}
		for k := range has {
			p := strings.Split(k, "~")
			pre := "elem:" + x[0].list() + "["
			if p[2] == "dims" && (strings.HasPrefix(p[0], pre) && p[1] == x[1].key() || strings.HasPrefix(p[1], pre) && p[0] == x[1].key()) {
				return "dims"
			}
		}
	}
	return ""
}

// images whose number of axes, or third axis, is compared with something in a function
func (c *c32) axesAsked(f *ssa.Function) map[string]bool {
	if m, ok := c.asked[f]; ok {
		return m
	}
	m := map[string]bool{}
	c.asked[f] = m
	for _, g := range append([]*ssa.Function{f}, f.AnonFuncs...) {
		for _, b := range g.Blocks {
			for _, i := range b.Instrs {
				if bo, ok := i.(*ssa.BinOp); ok && negOp(bo.Op) != 0 {
					for _, v := range []ssa.Value{bo.X, bo.Y} {
						if rt, what, ok := c.sizeOf(v, 0); ok && (what == "axes" || what == "ax2") {
							m[rt.key()] = true
						}
					}
				}
			}
		}
	}
	return m
}

func (c *c32) strength(has map[string]bool, a, b c32root) string {
	if has[relKey(a, b, "dims")] {
		return "dims"
	}
	if has[relKey(a, b, "ax0")] && has[relKey(a, b, "ax1")] {
		fa, fb := owner(a.val), owner(b.val)
		if fa != nil && fb != nil && c.axesAsked(fa)[a.key()] && c.axesAsked(fb)[b.key()] {
			return "dims" // the numbers of axes are looked at separately
		}
	}
	if has[relKey(a, b, "n")] {
		return "count"
	}
	return ""
}

// all elements of a list have the same size
func (c *c32) uniform(n c32need, f *ssa.Function) {
	l := n.a.val
	_, isMade := c.contents(l)
	if vs, _ := c.contents(l); isMade && len(vs) > 0 {
		first, same := "", true
		for _, v := range vs {
			s := ""
			for _, x := range c.sizeRoots(v) {
				s += x.key()
			}
			same = same && s != "" && (first == "" || s == first) && c.steady(c.sizeRoots(v))
			first = s
		}
		if same {
			c.r.ob("combine", "%s: elements of the list made here are of one size", fname(f))
			return
		}
	}
	for _, lp := range loopsOf(f) {
		if c.checkLoop(lp, n, f) {
			c.r.ob("combine", "%s: all of %s compared in a loop before %s %s", fname(f), c.name(n.a), n.org, n.what)
			return
		}
	}
	if n.a.hi > n.a.lo && n.a.hi <= 8 { // a few elements, compared one by one
		group := map[int64]int64{}
		for k := n.a.lo; k < n.a.hi; k++ {
			group[k] = k
		}
		has := c.flow(f).at(n.at)
		for i := n.a.lo; i < n.a.hi; i++ {
			for j := i + 1; j < n.a.hi; j++ {
				x, y := n.a, n.a
				x.idx, y.idx = fmt.Sprint(i), fmt.Sprint(j)
				if c.strength(has, x, y) == "dims" {
					old := group[j]
					for k := range group {
						if group[k] == old {
							group[k] = group[i]
						}
					}
				}
			}
		}
		one := true
		for _, g := range group {
			one = one && g == group[n.a.lo]
		}
		if one {
			c.r.ob("combine", "%s: %d of %s compared before %s %s", fname(f), n.a.hi-n.a.lo, c.name(n.a), n.org, n.what)
			return
		}
	}
	n.b = n.a
	n.a.idx, n.b.idx = "*", "*"
	if pr, ok := l.(*ssa.Parameter); ok && n.a.path == "" && pr.Parent() == f && len(c.w.calls().callers[f]) > 0 && n.hop < 10 {
		for _, cl := range c.w.calls().callers[f] {
			if !c.w.inMod[cl.Parent()] {
				continue
			}
			a := argFor(pr, f, cl)
			if a == nil {
				continue
			}
			q, ok := c.listOf(a, 0)
			if !ok {
				continue
			}
			q.kind, q.idx = "elem", "*"
			q.lo += n.a.lo
			c.queue = append(c.queue, c32need{q, q, cl, n.what, n.org, n.hop + 1})
		}
		return
	}
	if isMade {
		c.r.undecided("%s: sizes of the elements of a list made in %s", c.w.ipos(n.at), fname(f))
		return
	}
	if len(c.w.calls().callers[f]) == 0 && f.Signature.Recv() == nil && owner(l) == f {
		if _, ok := l.(*ssa.Parameter); ok {
			c.r.note("%s: %s of %s, which nothing calls", c.w.ipos(n.at), c.name(n.a), fname(f))
			return
		}
	}
	if c.checked(n, f) {
		c.r.undecided("%s: %s in %s may have been compared by a function", c.w.ipos(n.at), c.name(n.a), fname(f))
		return
	}
	c.r.bad("combine", fmt.Sprintf("%s/%s", fname(f), c.name(n.a)), c.w.ipos(n.at), "%s %s of several of %s together, but there are ways to get there in %s without comparing the dimensions of all of them", n.org, n.what, c.name(n.a), fname(f))
}

// sizes which are the same in every round of a loop
func (c *c32) steady(rs []c32root) bool {
	for _, x := range rs {
		if x.kind == "elem" && (strings.HasPrefix(x.idx, "0x") || x.idx == "*") {
			return false
		}
	}
	return true
}

// a loop over the list which only goes on while dimensions are the same, before the instruction
func (c *c32) checkLoop(lp *loop, n c32need, f *ssa.Function) bool {
	at := n.at.Block()
	if lp.body[at] || !lp.head.Dominates(at) {
		return false
	}
	var keys []string
	rounds := map[string]bool{}
	for k, la := range lp.latches {
		has := c.flow(f).at(la.Instrs[len(la.Instrs)-1])
		cur := map[string]bool{}
		for s := range has {
			cur[s] = true
		}
		// facts of the edge to the head itself
		for j, s := range la.Succs {
			if s == lp.head {
				if iff, ok := la.Instrs[len(la.Instrs)-1].(*ssa.If); ok {
					for _, x := range c.condFacts(iff.Cond, j == 0, 0) {
						cur[x] = true
					}
				}
			}
		}
		if k == 0 {
			rounds = cur
		} else {
			for s := range rounds {
				if !cur[s] {
					delete(rounds, s)
				}
			}
		}
	}
	for s := range rounds {
		keys = append(keys, s)
	}
	sort.Strings(keys)
	pre := "elem:" + n.a.list() + "["
	for _, g := range lp.guards() {
		if g.op != token.LSS || g.x.step != 1 {
			continue
		}
		init, ok := constInt(g.x.init)
		if !ok {
			continue
		}
		// the range of elements: accesses to the list with this counter
		for _, b := range f.Blocks {
			if !lp.body[b] {
				continue
			}
			for _, i := range b.Instrs {
				ia, ok := i.(*ssa.IndexAddr)
				if !ok {
					continue
				}
				iv, ok := induction(ia.Index)
				if !ok || iv.phi != g.x.phi {
					continue
				}
				el, ok := c.elem(ia, 0)
				if !ok || el.list() != n.a.list() {
					continue
				}
				lo := el.lo + init + iv.off
				hi := int64(-2)
				bound := stripConv(g.bound)
				if k, ok := constInt(bound); ok {
					hi = k + iv.off - g.x.off + el.lo
				} else if lenOf(bound, func(v ssa.Value) bool {
					q, ok := c.listOf(v, 0)
					return ok && q.list() == el.list() && q.lo == el.lo-0 && q.hi == el.hi
				}) && iv.off >= g.x.off {
					hi = el.hi
				}
				if hi == -2 || hi >= 0 && (n.a.hi < 0 || hi < n.a.hi) {
					continue
				}
				for _, s := range keys {
					p := strings.Split(s, "~")
					if p[2] != "dims" {
						continue
					}
					var other string
					switch {
					case p[0] == el.key() && strings.HasPrefix(p[1], pre):
						other = p[1]
					case p[1] == el.key() && strings.HasPrefix(p[0], pre):
						other = p[0]
					default:
						continue
					}
					if other == el.key() {
						continue
					}
					if lo > n.a.lo && !(lo == n.a.lo+1) {
						continue
					}
					// only left when all were seen
					fine := true
					for _, e := range lp.exits() {
						if e.from.Instrs[len(e.from.Instrs)-1] == ssa.Instruction(g.iff) {
							continue
						}
						s := e.from.Succs[e.k]
						if s == at || blockReaches(s, at) {
							fine = false
						}
					}
					if fine {
						return true
					}
				}
			}
		}
	}
	return false
}
