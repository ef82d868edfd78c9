package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C34: color steps are applied to color images only. Code which takes the pixels of an image as three planes is reached only
// where the image is known to have three of them; code which writes a single plane only where the image has no other.

func init() {
	register("C34", "images taken as three planes: every place dividing the pixels of an image into thirds, or reading the planes behind the first, requires an image with three planes; the requirement is followed from callee to caller through parameters, closures and constructors to a test of the axes on every way there (must-dataflow, tests in helpers summarized), or to an image made with three planes", runC34)
}

type c34 struct {
	c32
	done  map[string]bool
	queue []c34need
	facts map[*ssa.Function]*mustFacts
	sums  map[*ssa.Function]map[string]bool
	busy  map[*ssa.Function]bool
}

type c34need struct {
	img  c32root
	at   ssa.Instruction
	want int // planes
	org  string
	what string
	hop  int
}

func runC34(w *World, r *Report) {
	r.rule("three", "code taking the pixels of an image as three planes is reached only with images which have three: a test of the axes on every way from the entry of an operator, or an image made of three channels", 30)
	r.rule("one", "code writing one plane of an image is reached only with images which have no other", 2)
	r.rule("each", "a function which takes three planes apart takes one of them, or all three", 8)
	c := &c34{c32: c32{w: w, r: r, img: w.typ("internal/fits", "Image").String(), facts: map[*ssa.Function]*mustFacts{}, rel: map[string]bool{}, eq: map[*ssa.Function]bool{}, sites: map[string]string{}},
		done: map[string]bool{}, facts: map[*ssa.Function]*mustFacts{}, sums: map[*ssa.Function]map[string]bool{}, busy: map[*ssa.Function]bool{}}
	c.c32.done = map[string]bool{}
	for _, f := range w.Funcs {
		if w.inMod[f] && f.Blocks != nil {
			c.seeds(f)
			c.each(f)
		}
	}
	for len(c.queue) > 0 {
		n := c.queue[0]
		c.queue = c.queue[1:]
		c.settle34(n)
	}
	r.assume("an image of which the last of three or more axes is 3 holds three color planes")
}

func (c *c34) need(n c34need) { c.queue = append(c.queue, n) }

// size of a slice: image whose pixels it is
func (c *c34) pixelsOf(v ssa.Value) (c32root, bool) {
	v = c.resolve(stripConv(v))
	if b, ok := v.(*ssa.BinOp); ok && b.Op == token.MUL { // 2*n/3
		if _, ok := constInt(b.X); ok {
			return c.pixelsOf(b.Y)
		}
		if _, ok := constInt(b.Y); ok {
			return c.pixelsOf(b.X)
		}
		return c32root{}, false
	}
	if cl, ok := v.(*ssa.Call); ok {
		if bi, ok := cl.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
			return c.dataOf(cl.Call.Args[0])
		}
	}
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if fa, ok := u.X.(*ssa.FieldAddr); ok && c.isImg(fa.X.Type()) && fieldName(fa.X.Type(), fa.Field) == "Pixels" {
			return c.imageRoot(fa.X, 0)
		}
	}
	return c32root{}, false
}

func (c *c34) dataOf(v ssa.Value) (c32root, bool) {
	v = c.resolve(v)
	switch x := v.(type) {
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL && c.isImg(fa.X.Type()) && fieldName(fa.X.Type(), fa.Field) == "Data" {
			return c.imageRoot(fa.X, 0)
		}
	case *ssa.Parameter:
		if floatSlice(x.Type()) {
			return c32root{kind: "slice", val: x}, true
		}
	}
	return c32root{}, false
}

// product of the first two axes of an image
func (c *c34) planeSize(v ssa.Value) (c32root, bool) {
	b, ok := c.resolve(stripConv(v)).(*ssa.BinOp)
	if !ok || b.Op != token.MUL {
		return c32root{}, false
	}
	x, kx, ok1 := c.axisOf(b.X)
	y, ky, ok2 := c.axisOf(b.Y)
	if ok1 && ok2 && x.key() == y.key() && (kx == "0" && ky == "1" || kx == "1" && ky == "0") {
		return x, true
	}
	return c32root{}, false
}

// an axis of an image: its number, or "last"
func (c *c34) axisOf(v ssa.Value) (c32root, string, bool) {
	u, ok := c.resolve(stripConv(v)).(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return c32root{}, "", false
	}
	ia, ok := u.X.(*ssa.IndexAddr)
	if !ok {
		return c32root{}, "", false
	}
	rt, ok := c.axes(ia.X)
	if !ok {
		return c32root{}, "", false
	}
	ix := c.resolve(stripConv(ia.Index))
	if k, ok := constInt(ix); ok {
		return rt, fmt.Sprint(k), true
	}
	if b, off := baseOffset(ix); off == -1 {
		if l, ok := c.axesLen(b); ok && l.key() == rt.key() {
			return rt, "last", true
		}
	}
	return c32root{}, "", false
}

func (c *c34) axes(v ssa.Value) (c32root, bool) {
	v = c.resolve(v)
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if fa, ok := u.X.(*ssa.FieldAddr); ok && c.isImg(fa.X.Type()) && fieldName(fa.X.Type(), fa.Field) == "Naxisn" {
			return c.imageRoot(fa.X, 0)
		}
	}
	if p, ok := v.(*ssa.Parameter); ok && p.Type().String() == "[]int32" {
		return c32root{kind: "axes", val: p}, true
	}
	return c32root{}, false
}

func (c *c34) axesLen(v ssa.Value) (c32root, bool) {
	if cl, ok := c.resolve(stripConv(v)).(*ssa.Call); ok {
		if bi, ok := cl.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
			return c.axes(cl.Call.Args[0])
		}
	}
	return c32root{}, false
}

func (c *c34) seeds(f *ssa.Function) {
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			switch x := i.(type) {
			case *ssa.BinOp:
				if x.Op == token.QUO {
					rt, ok := c.pixelsOf(x.X)
					if !ok || !positions(x, map[ssa.Value]bool{}, 0) {
						continue
					}
					if k, isC := constInt(x.Y); isC && k == 3 {
						c.need(c34need{img: rt, at: x, want: int(k), org: fname(f), what: fmt.Sprintf("divides the pixels by %d", k)})
					} else if p, isP := c.resolve(stripConv(x.Y)).(*ssa.Parameter); isP {
						c.divided(f, rt, p, x, 0)
					}
				}
			case *ssa.IndexAddr:
				if rt, ok := c.dataOf(x.X); ok && c.behind(x.Index, rt, 0) {
					c.need(c34need{img: rt, at: x, want: 3, org: fname(f), what: "reads behind the first plane"})
				}
			case *ssa.Slice:
				if rt, ok := c.dataOf(x.X); ok && x.Low != nil && c.behind(x.Low, rt, 0) {
					c.need(c34need{img: rt, at: x, want: 3, org: fname(f), what: "takes the part behind the first plane"})
				}
			case *ssa.Call:
				if g := x.Call.StaticCallee(); g != nil && g.Pkg != nil && g.Pkg.Pkg.Path() == "image" && strings.HasPrefix(g.Name(), "NewGray") {
					if rt, ok := c.rect(x.Call.Args[0]); ok {
						c.need(c34need{img: rt, at: x, want: 1, org: fname(f), what: "writes one plane"})
					}
				}
			}
		}
	}
}

// does a number become a position among pixels?
func positions(v ssa.Value, seen map[ssa.Value]bool, d int) bool {
	if v == nil || seen[v] || d > 12 || v.Referrers() == nil {
		return false
	}
	seen[v] = true
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.IndexAddr:
			if x.Index == v && floatSlice(x.X.Type()) {
				return true
			}
		case *ssa.Slice:
			if floatSlice(x.X.Type()) && x.X != v {
				return true
			}
		case *ssa.BinOp:
			switch x.Op {
			case token.ADD, token.SUB, token.MUL:
				if positions(x, seen, d+1) {
					return true
				}
			}
		case *ssa.Phi, *ssa.Convert, *ssa.ChangeType:
			if positions(x.(ssa.Value), seen, d+1) {
				return true
			}
		case *ssa.Store:
			if al, ok := x.Addr.(*ssa.Alloc); ok && x.Val == v {
				for _, rr := range *al.Referrers() {
					if u, ok := rr.(*ssa.UnOp); ok && positions(u, seen, d+1) {
						return true
					}
					if mc, ok := rr.(*ssa.MakeClosure); ok {
						for k, bd := range mc.Bindings {
							if bd == ssa.Value(al) {
								for _, fr := range *mc.Fn.(*ssa.Function).FreeVars[k].Referrers() {
									if u, ok := fr.(*ssa.UnOp); ok && positions(u, seen, d+1) {
										return true
									}
								}
							}
						}
					}
				}
			}
		case *ssa.MakeClosure:
			for k, bd := range x.Bindings {
				if bd == v && positions(x.Fn.(*ssa.Function).FreeVars[k], seen, d+1) {
					return true
				}
			}
		}
	}
	return false
}

// number of planes given as a parameter
func (c *c34) divided(f *ssa.Function, rt c32root, p *ssa.Parameter, at ssa.Instruction, d int) {
	q, ok := rt.val.(*ssa.Parameter)
	if !ok || q.Parent() != p.Parent() || d > 4 {
		return
	}
	for _, cl := range c.w.calls().callers[p.Parent()] {
		if !c.w.inMod[cl.Parent()] {
			continue
		}
		n := argFor(p, p.Parent(), cl)
		a := argFor(q, q.Parent(), cl)
		if n == nil || a == nil {
			continue
		}
		var ar c32root
		if rt.kind == "slice" {
			ar, ok = c.dataOf(a)
		} else {
			ar, ok = c.imageRoot(a, 0)
		}
		if !ok {
			c.r.undecided("%s: pixels divided into planes by %s are not those of a known image", c.w.ipos(cl), fname(f))
			continue
		}
		if k, isC := constInt(c.resolve(stripConv(n))); isC {
			if k == 3 {
				c.need(c34need{img: ar, at: cl, want: int(k), org: fname(cl.Parent()), what: fmt.Sprintf("has %s divide the pixels by %d", fname(f), k)})
			}
		} else if pp, isP := c.resolve(stripConv(n)).(*ssa.Parameter); isP {
			c.divided(f, ar, pp, cl, d+1)
		}
	}
}

// does a position lie a multiple of the size of a plane further?
func (c *c34) behind(v ssa.Value, rt c32root, d int) bool {
	v = c.resolve(stripConv(v))
	if d > 8 {
		return false
	}
	if p, ok := c.planeSize(v); ok {
		return p.key() == rt.key()
	}
	if b, ok := v.(*ssa.BinOp); ok && (b.Op == token.ADD || b.Op == token.MUL) {
		if b.Op == token.MUL && (c.anyPlane(b.X) || c.anyPlane(b.Y)) {
			return false
		}
		return c.behind(b.X, rt, d+1) || c.behind(b.Y, rt, d+1)
	}
	return false
}

// the number of a plane, or the one after it, in a loop over as many as there are
func (c *c34) anyPlane(v ssa.Value) bool {
	iv, ok := induction(c.resolve(stripConv(v)))
	if !ok {
		return false
	}
	for _, g := range iv.l.guards() {
		if _, isC := constInt(c.resolve(stripConv(g.bound))); isC {
			return false
		}
	}
	return true
}

// third of the pixels of an image, times what
func (c *c34) third(v ssa.Value, d int) (rt c32root, k int64, ok, plain bool) {
	v = c.resolve(stripConv(v))
	if d > 10 {
		return rt, 0, false, true
	}
	if p, is := c.planeSize(v); is {
		return p, 1, true, true
	}
	if ph, is := v.(*ssa.Phi); is { // counted up from somewhere, in steps which stay in the plane
		var in ssa.Value
		for _, e := range ph.Edges {
			if bb, off := baseOffset(e); bb == ssa.Value(ph) && off != 0 || e == ssa.Value(ph) {
				continue
			}
			if bo, ok := stripConv(e).(*ssa.BinOp); ok && (bo.Op == token.ADD || bo.Op == token.SUB) && (bo.X == ssa.Value(ph) || bo.Y == ssa.Value(ph)) {
				continue
			}
			if in != nil {
				return rt, 0, false, !c.thirdsIn(ph, map[ssa.Value]bool{})
			}
			in = e
		}
		if in == nil {
			return rt, 0, false, true
		}
		return c.third(in, d+1)
	}
	b, is := v.(*ssa.BinOp)
	if !is {
		return rt, 0, false, true
	}
	if b.Op == token.QUO {
		if n, isC := constInt(b.Y); isC && n == 3 {
			if p, is := c.pixelsOf(b.X); is {
				m := int64(1)
				if mb, is := c.resolve(stripConv(b.X)).(*ssa.BinOp); is {
					if n, isC := constInt(mb.X); isC {
						m = n
					} else if n, isC := constInt(mb.Y); isC {
						m = n
					}
				}
				return p, m, true, true
			}
		}
		return rt, 0, false, true
	}
	r1, k1, ok1, p1 := c.third(b.X, d+1)
	r2, k2, ok2, p2 := c.third(b.Y, d+1)
	if !ok1 && !ok2 {
		return rt, 0, false, p1 && p2
	}
	switch b.Op {
	case token.ADD:
		rt = r1
		if !ok1 {
			rt = r2
		}
		return rt, k1 + k2, true, p1 && p2 && (!ok1 || !ok2 || r1.key() == r2.key())
	case token.SUB:
		rt = r1
		if !ok1 {
			rt = r2
		}
		return rt, k1 - k2, true, p1 && p2
	case token.MUL:
		if n, isC := constInt(c.resolve(stripConv(b.Y))); isC && ok1 {
			return r1, k1 * n, true, p1
		}
		if n, isC := constInt(c.resolve(stripConv(b.X))); isC && ok2 {
			return r2, k2 * n, true, p2
		}
	}
	if !ok1 {
		r1 = r2
	}
	return r1, 0, true, false
}

// does a value depend on the size of a plane?
func (c *c34) thirdsIn(v ssa.Value, seen map[ssa.Value]bool) bool {
	v = c.resolve(stripConv(v))
	if seen[v] {
		return false
	}
	seen[v] = true
	if _, ok := c.planeSize(v); ok {
		return true
	}
	switch x := v.(type) {
	case *ssa.Phi:
		for _, e := range x.Edges {
			if c.thirdsIn(e, seen) {
				return true
			}
		}
	case *ssa.BinOp:
		if n, isC := constInt(x.Y); isC && n == 3 && x.Op == token.QUO {
			if _, ok := c.pixelsOf(x.X); ok {
				return true
			}
		}
		return c.thirdsIn(x.X, seen) || c.thirdsIn(x.Y, seen)
	}
	return false
}

// the planes a function takes apart
func (c *c34) each(f *ssa.Function) {
	type use struct {
		ks map[int64]token.Pos
		no bool
	}
	uses := map[string]*use{}
	names := map[string]string{}
	var order []string
	get := func(rt c32root, how string) *use {
		k := rt.key() + " " + how
		if uses[k] == nil {
			uses[k] = &use{ks: map[int64]token.Pos{}}
			names[k] = c.name(rt)
			order = append(order, k)
		}
		return uses[k]
	}
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			var base, idx ssa.Value
			switch x := i.(type) {
			case *ssa.IndexAddr:
				base, idx = x.X, x.Index
			case *ssa.Slice:
				base, idx = x.X, x.Low
				if x.High == nil && x.Low == nil {
					continue
				}
			default:
				continue
			}
			if !floatSlice(base.Type()) {
				continue
			}
			rt, ok := c.dataOf(base)
			if !ok {
				continue
			}
			how := "taken"
			if ia, ok := i.(*ssa.IndexAddr); ok {
				how = "read"
				for _, r := range *ia.Referrers() {
					if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(ia) {
						how = "set"
					}
				}
			}
			u := get(rt, how)
			if idx == nil {
				u.ks[0] = i.Pos()
				continue
			}
			p, k, is, plain := c.third(idx, 0)
			if !plain || is && p.key() != rt.key() {
				u.no = true
			} else {
				u.ks[k] = i.Pos()
			}
		}
	}
	for _, o := range order {
		u := uses[o]
		if len(u.ks) == 1 && u.ks[0] != token.NoPos {
			continue // not taken apart
		}
		if u.no || len(u.ks) == 0 {
			continue
		}
		var ks []string
		var at token.Pos
		bad := false
		for k, p := range u.ks {
			ks = append(ks, fmt.Sprint(k))
			if at == token.NoPos || p > at {
				at = p
			}
			bad = bad || k < 0 || k > 2
		}
		sort.Strings(ks)
		if bad || len(ks) == 2 {
			c.r.bad("each", fname(f)+"/"+names[o], c.w.pos(at), "%s takes planes %s of %s, of three", fname(f), strings.Join(ks, ", "), names[o])
			continue
		}
		c.r.ob("each", "%s: planes %s of %s", fname(f), strings.Join(ks, ", "), names[o])
	}
}

// image whose first axes a rectangle is made of
func (c *c34) rect(v ssa.Value) (res c32root, ok bool) {
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value, d int)
	walk = func(v ssa.Value, d int) {
		if v == nil || seen[v] || d > 12 {
			return
		}
		seen[v] = true
		if rt, k, is := c.axisOf(v); is && (k == "0" || k == "1") {
			res, ok = rt, true
			return
		}
		if al, is := v.(*ssa.Alloc); is {
			var stores func(a ssa.Value)
			stores = func(a ssa.Value) {
				for _, r := range *a.Referrers() {
					switch s := r.(type) {
					case *ssa.Store:
						if s.Addr == a {
							walk(s.Val, d+1)
						}
					case *ssa.FieldAddr:
						stores(s)
					}
				}
			}
			stores(al)
			return
		}
		if in, is := v.(ssa.Instruction); is {
			for _, o := range in.Operands(nil) {
				if *o != nil {
					walk(c.resolve(*o), d+1)
				}
			}
		}
	}
	walk(c.resolve(v), 0)
	return
}

// ---- what is known of the axes

func (c *c34) condFacts34(v ssa.Value, val bool, d int) (fs []string) {
	v, neg := stripNot(v)
	if neg {
		val = !val
	}
	if d > 4 {
		return nil
	}
	switch x := v.(type) {
	case *ssa.BinOp:
		op := x.Op
		a, b := x.X, x.Y
		if _, isC := constInt(a); isC {
			a, b = b, a
			op = flipOp(op)
		}
		// a call which returns an error unless the axes are right
		if isErrT(a.Type()) {
			if k, isC := b.(*ssa.Const); isC && k.IsNil() && (op == token.EQL && val || op == token.NEQ && !val) {
				return c.callFacts(c.resolve(a), d)
			}
			return nil
		}
		k, isC := constInt(b)
		if !isC {
			return nil
		}
		if !val {
			op = negOp(op)
		}
		base, off := baseOffset(c.resolve(stripConv(a)))
		if rt, ok := c.axesLen(base); ok {
			k -= off
			switch op {
			case token.EQL:
				fs = append(fs, fmt.Sprintf("%s~len=%d", rt.key(), k))
				if k >= 3 {
					fs = append(fs, rt.key()+"~len>=3")
				}
			case token.GEQ, token.GTR:
				if op == token.GTR {
					k++
				}
				if k >= 3 {
					fs = append(fs, rt.key()+"~len>=3")
				}
			case token.LSS, token.LEQ:
				if op == token.LSS {
					k--
				}
				if k <= 2 {
					fs = append(fs, rt.key()+"~len=2") // images have two axes at least
				}
			}
		} else if rt, ax, ok := c.axisOf(a); ok && op == token.EQL {
			fs = append(fs, fmt.Sprintf("%s~ax%s=%d", rt.key(), ax, k))
		}
	case *ssa.Call, *ssa.Extract:
		if val {
			return c.callFacts(v, d)
		}
	case *ssa.Phi:
		var rest []int
		for k, e := range x.Edges {
			if kc, ok := e.(*ssa.Const); ok && kc.Value != nil && (kc.Value.String() == "true") != val {
				continue
			}
			rest = append(rest, k)
		}
		if len(rest) != 1 {
			return nil
		}
		if _, ok := x.Edges[rest[0]].(*ssa.Const); !ok {
			fs = append(fs, c.condFacts34(x.Edges[rest[0]], val, d+1)...)
		}
		for b := x.Block().Preds[rest[0]]; b != nil && b.Idom() != nil; b = b.Idom() {
			id := b.Idom()
			if iff, ok := id.Instrs[len(id.Instrs)-1].(*ssa.If); ok && len(b.Preds) == 1 {
				fs = append(fs, c.condFacts34(iff.Cond, id.Succs[0] == b, d+1)...)
			}
		}
	}
	return fs
}

// facts about the arguments of a call which returned true, or no error
func (c *c34) callFacts(v ssa.Value, d int) (fs []string) {
	k := 0
	if ex, ok := v.(*ssa.Extract); ok {
		v, k = ex.Tuple, ex.Index
	}
	cl, ok := v.(*ssa.Call)
	if !ok {
		return nil
	}
	ts := c.w.targets(cl)
	if len(ts) != 1 || ts[0].Blocks == nil || !c.w.inMod[ts[0]] || d > 3 {
		return nil
	}
	g := ts[0]
	res := g.Signature.Results()
	if k >= res.Len() {
		return nil
	}
	for s := range c.summary(g, k) {
		for _, p := range g.Params {
			for _, kind := range []string{"img", "axes"} {
				pre := c32root{kind: kind, val: p}.key() + "~"
				if !strings.HasPrefix(s, pre) {
					continue
				}
				a := argFor(p, g, cl)
				if a == nil {
					continue
				}
				rt, ok := c32root{}, false
				if kind == "img" {
					rt, ok = c.imageRoot(a, 0)
				} else {
					rt, ok = c.axes(a)
				}
				if ok {
					fs = append(fs, rt.key()+"~"+strings.TrimPrefix(s, pre))
				}
			}
		}
	}
	sort.Strings(fs)
	return fs
}

// facts which hold at every return with result k true, or nil
func (c *c34) summary(g *ssa.Function, k int) map[string]bool {
	if s, ok := c.sums[g]; ok {
		return s
	}
	if c.busy[g] {
		return nil
	}
	c.busy[g] = true
	defer delete(c.busy, g)
	flow := c.flow34(g)
	var res map[string]bool
	for _, b := range g.Blocks {
		if b == g.Recover {
			continue
		}
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || k >= len(ret.Results) {
			continue
		}
		v := ret.Results[k]
		var meet func(v ssa.Value, at map[string]bool, d int)
		join := func(have map[string]bool) {
			if res == nil {
				res = map[string]bool{}
				for s := range have {
					res[s] = true
				}
				return
			}
			for s := range res {
				if !have[s] {
					delete(res, s)
				}
			}
		}
		meet = func(v ssa.Value, at map[string]bool, d int) {
			if kc, ok := v.(*ssa.Const); ok {
				if kc.Value != nil && kc.Value.String() == "false" {
					return
				}
				join(at)
				return
			}
			if ph, ok := v.(*ssa.Phi); ok && d < 4 {
				for n, e := range ph.Edges {
					p := ph.Block().Preds[n]
					// what holds on the edge
					have := map[string]bool{}
					for s := range flow.at(p.Instrs[len(p.Instrs)-1]) {
						have[s] = true
					}
					if iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If); ok && p.Succs[0] != p.Succs[1] {
						for _, s := range c.condFacts34(iff.Cond, p.Succs[0] == ph.Block(), 0) {
							have[s] = true
						}
					}
					meet(e, have, d+1)
				}
				return
			}
			if isErrT(v.Type()) {
				if mustFailVal(v) {
					return
				}
			}
			have := map[string]bool{}
			for s := range at {
				have[s] = true
			}
			if isErrT(v.Type()) {
				for _, s := range c.callFacts(c.resolve(v), 1) {
					have[s] = true
				}
			} else {
				for _, s := range c.condFacts34(v, true, 1) {
					have[s] = true
				}
			}
			join(have)
		}
		meet(v, flow.at(ret), 0)
	}
	if res == nil {
		res = map[string]bool{}
	}
	c.sums[g] = res
	return res
}

// an error which is never nil
func mustFailVal(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return true
	case *ssa.Call:
		if g := x.Call.StaticCallee(); g != nil && g.Pkg != nil {
			n := g.Pkg.Pkg.Path() + "." + g.Name()
			return n == "fmt.Errorf" || n == "errors.New"
		}
	}
	return false
}

func (c *c34) flow34(f *ssa.Function) *mustFacts {
	if m, ok := c.facts[f]; ok {
		return m
	}
	m := mustFlowEdges(f, func(i ssa.Instruction) []string { return nil }, func(from *ssa.BasicBlock, k int) []string {
		iff, ok := from.Instrs[len(from.Instrs)-1].(*ssa.If)
		if !ok || from.Succs[0] == from.Succs[1] {
			return nil
		}
		return c.condFacts34(iff.Cond, k == 0, 0)
	})
	c.facts[f] = m
	return m
}

func (c *c34) known(n c34need, f *ssa.Function) bool {
	has := c.flow34(f).at(n.at)
	k := n.img.key()
	if n.want == 1 {
		return has[k+"~len=2"] || has[k+"~len>=3"] && has[k+"~axlast=1"] || has[k+"~len=3"] && has[k+"~ax2=1"]
	}
	p := fmt.Sprint(n.want)
	return has[k+"~len>=3"] && has[k+"~axlast="+p] || has[k+"~len=3"] && has[k+"~ax2="+p]
}

// a function which sets the axes itself describes its own image
func (c *c34) setsAxes(rt c32root, f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if st, ok := i.(*ssa.Store); ok {
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok && c.isImg(fa.X.Type()) && fieldName(fa.X.Type(), fa.Field) == "Naxisn" {
					if x, ok := c.imageRoot(fa.X, 0); ok && x.key() == rt.key() {
						return true
					}
				}
			}
		}
	}
	return false
}

func (c *c34) settle34(n c34need) {
	f := n.at.Parent()
	for f.Parent() != nil && owner(n.img.val) != f {
		var mc ssa.Instruction
		for _, b := range f.Parent().Blocks {
			for _, i := range b.Instrs {
				if m, ok := i.(*ssa.MakeClosure); ok && m.Fn == ssa.Value(f) {
					mc = m
				}
			}
		}
		if mc == nil {
			return
		}
		n.at, f = mc, f.Parent()
	}
	key := fmt.Sprintf("%s|%s|%p|%d", n.img.key(), n.org, n.at.Block(), n.want)
	if c.done[key] || n.hop > 10 {
		return
	}
	c.done[key] = true
	rule := "three"
	if n.want == 1 {
		rule = "one"
	}
	name := c.name(n.img)
	if n.img.kind != "slice" && c.known(n, f) {
		c.r.ob(rule, "%s: axes of %s tested before %s %s", fname(f), name, n.org, n.what)
		return
	}
	if k, ok := c.planesMade(n.img.val); ok {
		if k == n.want {
			c.r.ob(rule, "%s: %s is made with %d planes, %s %s", fname(f), name, k, n.org, n.what)
		} else {
			c.r.bad(rule, fmt.Sprintf("%s/%s", fname(f), n.org), c.w.ipos(n.at), "%s %s of %s, which is made with %d planes in %s", n.org, n.what, name, k, fname(f))
		}
		return
	}
	if n.img.kind == "img" && c.setsAxes(n.img, f) {
		c.r.note("%s %s of %s, whose axes it sets itself (see C33)", n.org, n.what, name)
		return
	}
	p, isP := n.img.val.(*ssa.Parameter)
	callers := c.w.calls().callers[f]
	op := c.operator(f)
	if isP && p.Parent() == f && n.img.path == "" && !op {
		any := false
		for _, cl := range callers {
			if !c.w.inMod[cl.Parent()] {
				continue
			}
			any = true
			a := argFor(p, f, cl)
			if a == nil {
				c.r.undecided("%s: argument of %s", c.w.ipos(cl), fname(f))
				continue
			}
			m := n
			m.at, m.hop = cl, n.hop+1
			ok := false
			if n.img.kind == "slice" {
				m.img, ok = c.dataOf(a)
			} else {
				m.img, ok = c.imageRoot(a, 0)
			}
			if !ok {
				c.r.note("%s: the pixels given to %s are not those of a known image", c.w.ipos(cl), fname(f))
				continue
			}
			c.queue = append(c.queue, m)
		}
		if !any {
			c.r.note("%s %s of %s: nothing calls %s", n.org, n.what, name, fname(f))
		}
		return
	}
	c.r.bad(rule, fmt.Sprintf("%s/%s", fname(f), n.org), c.w.ipos(n.at), "%s %s of %s, but there are ways to get there in %s without testing that the image has %d planes", n.org, n.what, name, fname(f), n.want)
}

// methods of operators are entered with any image
func (c *c34) operator(f *ssa.Function) bool {
	if f.Signature.Recv() == nil {
		return false
	}
	t := f.Signature.Recv().Type()
	iface := c.w.opInterface()
	return iface != nil && (types.Implements(t, iface) || types.Implements(types.NewPointer(deref(t)), iface))
}

// images made of a list of channels of known length
func (c *c34) planesMade(v ssa.Value) (int, bool) {
	cl, ok := v.(*ssa.Call)
	if !ok {
		return 0, false
	}
	g := cl.Call.StaticCallee()
	if g == nil || !c.w.inMod[g] || g.Blocks == nil {
		return 0, false
	}
	// the last axis is the number of elements of a parameter
	for _, p := range g.Params {
		if _, ok := p.Type().Underlying().(*types.Slice); !ok || !c.isImg(p.Type().Underlying().(*types.Slice).Elem()) {
			continue
		}
		isLast := false
		for _, b := range g.Blocks {
			for _, i := range b.Instrs {
				if st, ok := i.(*ssa.Store); ok {
					if ia, ok := st.Addr.(*ssa.IndexAddr); ok && ia.X.Type().String() == "[]int32" && lenOf(stripConv(st.Val), func(v ssa.Value) bool { return v == ssa.Value(p) }) {
						isLast = true
					}
				}
			}
		}
		if !isLast {
			continue
		}
		l, ok := c.listOf(argFor(p, g, cl), 0)
		if ok && l.hi >= 0 {
			return int(l.hi - l.lo), true
		}
	}
	return 0, false
}
