package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C33: the dimensions of an image describe its pixels. Numbers of pixels are polynomials over the axes of images: width N0, height N1,
// and the number of planes R, with N0*N1*R pixels. Wherever axes, number or array of pixels of an image are set, the polynomials agree.

func init() {
	register("C33", "dimensions and pixels: wherever axes, number of pixels or array of pixels of an image are set (constructors, steps changing the size or replacing the pixels), the product of the axes, the number and the length of the array are computed as polynomials over the axes, through helpers, and compared; new images are filled over all of their planes", runC33)
}

type c33 struct {
	c34
	choice map[*ssa.Call]int
	multi  map[*ssa.Call]int // calls with several successful returns met
	subst  map[string]bool   // atoms known to be one
	depth  int
}

type ctx33 struct {
	bind map[*ssa.Parameter]ssa.Value
	up   *ctx33
	fn   *ssa.Function
}

func runC33(w *World, r *Report) {
	r.rule("product", "where axes, number of pixels or array of pixels of an image are set, the product of the axes, the number, and the length of the array are the same polynomial", 10)
	r.rule("given", "axes and pixels given to a constructor of images agree", 2)
	r.rule("fill", "an image made empty and filled pixel by pixel is filled over as many positions as it has", 2)
	cc := c32{w: w, r: r, img: w.typ("internal/fits", "Image").String(), done: map[string]bool{}, facts: map[*ssa.Function]*mustFacts{}, rel: map[string]bool{}, eq: map[*ssa.Function]bool{}, sites: map[string]string{}}
	c := &c33{c34: c34{c32: cc, done: map[string]bool{}, facts: map[*ssa.Function]*mustFacts{}, sums: map[*ssa.Function]map[string]bool{}, busy: map[*ssa.Function]bool{}}}
	for _, f := range w.Funcs {
		if w.inMod[f] && f.Blocks != nil {
			c.function(f)
			c.fills(f)
		}
	}
	r.assume("the axes of every image existing before a function describe its pixels (shown for every place setting them); axes are positive")
}

// ---- atoms

func pixelsPoly(key string) poly {
	return poly{"": 1}.mul(poly{"N0:" + key: 1}).mul(poly{"N1:" + key: 1}).mul(poly{"R:" + key: 1})
}

func rkey(rt c32root) string {
	k := strings.NewReplacer("*", "@", "+", "#").Replace(rt.key())
	return k
}

func (c *c33) simplify(p poly) poly {
	o := poly{}
	for m, k := range p {
		var keep []string
		for _, a := range strings.Split(m, "*") {
			if a != "" && !c.subst[a] {
				keep = append(keep, a)
			}
		}
		sort.Strings(keep)
		o[strings.Join(keep, "*")] += k
	}
	for m, k := range o {
		if k == 0 {
			delete(o, m)
		}
	}
	return o
}

// exact quotient by a single product of atoms
func (c *c33) div(p, q poly) (poly, bool) {
	p, q = c.simplify(p), c.simplify(q)
	if p.eq(q) {
		return constPoly(1), true
	}
	if len(q) != 1 {
		return nil, false
	}
	var qm string
	var qk float64
	for m, k := range q {
		qm, qk = m, k
	}
	o := poly{}
	for m, k := range p {
		have := strings.Split(m, "*")
		for _, a := range strings.Split(qm, "*") {
			if a == "" {
				continue
			}
			at := -1
			for i, h := range have {
				if h == a {
					at = i
				}
			}
			if at < 0 {
				return nil, false
			}
			have = append(append([]string{}, have[:at]...), have[at+1:]...)
		}
		if k/qk != float64(int64(k/qk)) {
			return nil, false
		}
		o[strings.Join(have, "*")] += k / qk
	}
	return o, true
}

func opaque(what string, ps ...poly) poly {
	var s []string
	for _, p := range ps {
		s = append(s, strings.NewReplacer("*", "@", "+", "#").Replace(p.String()))
	}
	return poly{what + "(" + strings.Join(s, ";") + ")": 1}
}

// ---- values

func (x *ctx33) arg(p *ssa.Parameter) (ssa.Value, *ctx33) {
	if x != nil && x.fn == p.Parent() {
		if a := x.bind[p]; a != nil {
			return a, x.up
		}
	}
	return nil, x
}

// behind parameters bound by calls
func (c *c33) res(v ssa.Value, x *ctx33) (ssa.Value, *ctx33) {
	for d := 0; d < 10; d++ {
		v = c.resolve(stripConv(v))
		if p, ok := v.(*ssa.Parameter); ok {
			if a, u := x.arg(p); a != nil {
				v, x = a, u
				continue
			}
		}
		return v, x
	}
	return v, x
}

// image a value is, across bound parameters
func (c *c33) image(v ssa.Value, x *ctx33) (string, ssa.Value, bool) {
	v, _ = c.res(v, x)
	if al, ok := v.(*ssa.Alloc); ok && c.isImg(al.Type()) {
		return rkey(c32root{kind: "img", val: al}), al, true
	}
	if cl, ok := v.(*ssa.Call); ok && c.isImg(cl.Type()) {
		// an image made by a call has its own axes, unless they are those of another one
		if rt, ok := c.made(cl, 0, 0); ok {
			return rkey(rt), v, true
		}
		return rkey(c32root{kind: "img", val: cl}), v, true
	}
	rt, ok := c.imageRoot(v, 0)
	if !ok {
		return "", nil, false
	}
	return rkey(rt), rt.val, true
}

// the value a field of an image has where it is loaded, if this function has set it before
func (c *c33) current(u *ssa.UnOp, key, field string, elem int64) (ssa.Value, bool, bool) {
	f := u.Parent()
	var best *ssa.Store
	maybe := false
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			st, ok := i.(*ssa.Store)
			if !ok {
				continue
			}
			if !c.storesField(st, key, field, elem) {
				continue
			}
			if precedes(st, u) {
				if best == nil || precedes(best, st) {
					best = st
				}
			} else if b != u.Block() && blockReaches(b, u.Block()) || b == u.Block() && inCycle(b) {
				maybe = true
			}
		}
	}
	if best == nil {
		return nil, false, maybe
	}
	return best.Val, true, maybe
}

// is an instruction carried out before another one, whenever the latter is?
func precedes(i, j ssa.Instruction) bool {
	if i.Block() == j.Block() {
		return before(i, j)
	}
	return i.Block().Dominates(j.Block())
}

func (c *c33) storesField(st *ssa.Store, key, field string, elem int64) bool {
	if elem >= 0 {
		ia, ok := st.Addr.(*ssa.IndexAddr)
		if !ok {
			return false
		}
		k, isC := constInt(ia.Index)
		if !isC || k != elem {
			return false
		}
		rt, ok := c.axes(ia.X)
		return ok && rkey(rt) == key
	}
	fa, ok := st.Addr.(*ssa.FieldAddr)
	if !ok || !c.isImg(fa.X.Type()) || fieldName(fa.X.Type(), fa.Field) != field {
		return false
	}
	k, _, ok := c.image(fa.X, nil)
	return ok && k == key
}

// a number as polynomial
func (c *c33) num(v ssa.Value, x *ctx33) poly {
	c.depth++
	defer func() { c.depth-- }()
	v, x = c.res(v, x)
	name := func() poly {
		if k, ok := c.canon(v, 0); ok {
			return poly{"s:" + k: 1}
		}
		return poly{fmt.Sprintf("v%p", v): 1}
	}
	if c.depth > 40 {
		return name()
	}
	if k, ok := constInt(v); ok {
		return constPoly(float64(k))
	}
	switch y := v.(type) {
	case *ssa.Call:
		if bi, ok := y.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
			if floatSlice(y.Call.Args[0].Type()) {
				return c.size(y.Call.Args[0], x)
			}
			a, _ := c.res(y.Call.Args[0], x)
			if u, ok := a.(*ssa.UnOp); ok {
				if fa, ok := u.X.(*ssa.FieldAddr); ok {
					if k, _, ok := c.image(fa.X, x); ok {
						return poly{"len" + fieldName(fa.X.Type(), fa.Field) + ":" + k: 1}
					}
				}
			}
			return poly{fmt.Sprintf("len%p", a): 1}
		}
		return c.called(y, 0, x, false)
	case *ssa.Extract:
		if cl, ok := y.Tuple.(*ssa.Call); ok {
			return c.called(cl, y.Index, x, false)
		}
	case *ssa.UnOp:
		if y.Op != token.MUL {
			return name()
		}
		switch a := y.X.(type) {
		case *ssa.FieldAddr:
			fn := fieldName(a.X.Type(), a.Field)
			if c.isImg(a.X.Type()) && fn == "Pixels" {
				k, _, ok := c.image(a.X, x)
				if !ok {
					return name()
				}
				if sv, has, maybe := c.current(y, k, "Pixels", -1); has {
					return c.num(sv, x)
				} else if maybe {
					return name()
				}
				return c.simplify(pixelsPoly(k))
			}
			if sv, sx, ok := c.built(a, x); ok {
				return c.num(sv, sx)
			}
		case *ssa.IndexAddr:
			k, isC := constInt(a.Index)
			if !isC {
				return name()
			}
			return c.axis(a.X, k, y, x, name)
		}
	case *ssa.BinOp:
		p, q := c.num(y.X, x), c.num(y.Y, x)
		switch y.Op {
		case token.ADD:
			return p.add(q, 1)
		case token.SUB:
			return p.add(q, -1)
		case token.MUL:
			return c.simplify(p.mul(q))
		case token.QUO:
			if o, ok := c.div(p, q); ok {
				return o
			}
		}
		return opaque(y.Op.String(), c.simplify(p), c.simplify(q))
	case *ssa.Phi:
		if a, ax, ok := c.productLoop(y, x); ok {
			return c.prod(a, ax)
		}
		if m, ok := c.productOf(y); ok {
			return poly{fmt.Sprintf("prod%p", m): 1}
		}
		var one poly
		for k, e := range y.Edges {
			if inCycle(y.Block()) {
				return name()
			}
			p := c.num(e, x)
			if k > 0 && !p.eq(one) {
				return name()
			}
			one = p
		}
		return one
	}
	return name()
}

// name of a value taken from outside, or added up in a loop: the same value has the same name
func (c *c33) canon(v ssa.Value, d int) (string, bool) {
	v = c.resolve(stripConv(v))
	if d > 6 {
		return "", false
	}
	switch y := v.(type) {
	case *ssa.Const:
		return strings.NewReplacer("*", "@", "+", "#").Replace(y.String()), true
	case *ssa.Parameter, *ssa.Global, *ssa.FreeVar:
		return fmt.Sprintf("%p", y), true
	case *ssa.Extract:
		if t, ok := y.Tuple.(*ssa.Call); ok {
			s, ok := c.canon(t, d+1)
			return fmt.Sprintf("%s.%d", s, y.Index), ok
		}
	case *ssa.Call:
		n := calleeName(&y.Call)
		if n == "" || c.w.inMod[y.Call.StaticCallee()] {
			return "", false
		}
		if _, isB := y.Call.Value.(*ssa.Builtin); isB {
			return "", false
		}
		args := y.Call.Args
		if y.Call.IsInvoke() {
			args = append([]ssa.Value{y.Call.Value}, args...)
		}
		for _, a := range args {
			s, ok := c.canon(a, d+1)
			if !ok {
				s = fmt.Sprintf("%p", c.resolve(stripConv(a)))
			}
			n += "," + s
		}
		return strings.NewReplacer("*", "@", "+", "#").Replace("(" + n + ")"), true
	case *ssa.Phi:
		// added up
		for _, l := range loopsOf(y.Parent()) {
			if l.head != y.Block() {
				continue
			}
			for k, e := range y.Edges {
				bo, ok := stripConv(e).(*ssa.BinOp)
				if !l.body[y.Block().Preds[k]] || !ok || (bo.Op != token.ADD && bo.Op != token.SUB) {
					continue
				}
				o := bo.Y
				if stripConv(bo.Y) == ssa.Value(y) {
					o = bo.X
				} else if stripConv(bo.X) != ssa.Value(y) {
					continue
				}
				if ld, ok := stripConv(o).(*ssa.UnOp); ok && ld.Op == token.MUL {
					if ia, ok := ld.X.(*ssa.IndexAddr); ok {
						if _, isA := c.axes(ia.X); isA {
							return fmt.Sprintf("sum%p", y), true
						}
					}
				}
			}
		}
	}
	return "", false
}

// element k of a slice of axes
func (c *c33) axis(l ssa.Value, k int64, u *ssa.UnOp, x *ctx33, name func() poly) poly {
	v, vx := c.res(l, x)
	if ld, ok := v.(*ssa.UnOp); ok && ld.Op == token.MUL {
		if fa, ok := ld.X.(*ssa.FieldAddr); ok && c.isImg(fa.X.Type()) && fieldName(fa.X.Type(), fa.Field) == "Naxisn" {
			key, _, ok := c.image(fa.X, vx)
			if !ok {
				return name()
			}
			if u != nil {
				if sv, has, maybe := c.current(u, key, "Naxisn", k); has {
					return c.num(sv, x)
				} else if maybe {
					return name()
				}
			}
			if sv, has, maybe := c.current(ld, key, "Naxisn", -1); has {
				return c.axis(sv, k, nil, vx, name)
			} else if maybe {
				return name()
			}
			return c.axisAtom(key, k)
		}
	}
	if p, ok := v.(*ssa.Parameter); ok {
		return c.axisAtom(rkey(c32root{kind: "axes", val: p}), k)
	}
	if b, bx, ok := c.copied(v, vx); ok {
		return c.axis(b, k, nil, bx, name)
	}
	if _, ok := fixedList(v); ok {
		for _, e := range elementStores(v, c) {
			if n, isC := constInt(e.idx); isC && n == k {
				return c.num(e.val, vx)
			}
		}
	}
	if mk, ok := v.(*ssa.MakeSlice); ok {
		return c.axisAtom(fmt.Sprintf("made%p", mk), k)
	}
	return name()
}

func (c *c33) axisAtom(key string, k int64) poly {
	if k <= 1 {
		return poly{fmt.Sprintf("N%d:%s", k, key): 1}
	}
	return poly{fmt.Sprintf("A%d:%s", k, key): 1}
}

// a slice made here with a constant length
func fixedList(v ssa.Value) (int64, bool) {
	switch y := v.(type) {
	case *ssa.MakeSlice:
		return constInt(y.Len)
	case *ssa.Slice:
		al, ok := y.X.(*ssa.Alloc)
		if !ok || y.Low != nil {
			return 0, false
		}
		at, ok := deref(al.Type()).Underlying().(*types.Array)
		if !ok {
			return 0, false
		}
		if y.High != nil {
			return constInt(y.High)
		}
		return at.Len(), true
	}
	return 0, false
}

type elemStore struct {
	idx, val ssa.Value
	st       *ssa.Store
}

// stores to elements of a slice made here, also through a field it was put into
func elementStores(mk ssa.Value, c *c33) (res []elemStore) {
	var array ssa.Value
	if sl, ok := mk.(*ssa.Slice); ok {
		array = sl.X
	}
	for _, b := range mk.Parent().Blocks {
		for _, i := range b.Instrs {
			st, ok := i.(*ssa.Store)
			if !ok {
				continue
			}
			ia, ok := st.Addr.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			base := c.resolve(ia.X)
			if base != mk && (array == nil || ia.X != array) {
				ld, ok := base.(*ssa.UnOp)
				if !ok || ld.Op != token.MUL {
					continue
				}
				fa, ok := ld.X.(*ssa.FieldAddr)
				if !ok || !c.isImg(fa.X.Type()) {
					continue
				}
				key, _, ok := c.image(fa.X, nil)
				if !ok {
					continue
				}
				sv, has, _ := c.current(ld, key, fieldName(fa.X.Type(), fa.Field), -1)
				if !has || c.resolve(sv) != mk {
					continue
				}
			}
			res = append(res, elemStore{ia.Index, st.Val, st})
		}
	}
	return
}

// slice of axes a slice is a copy of
func (c *c33) copied(v ssa.Value, x *ctx33) (ssa.Value, *ctx33, bool) {
	cl, ok := v.(*ssa.Call)
	if ok {
		bi, ok := cl.Call.Value.(*ssa.Builtin)
		if ok && bi.Name() == "append" && len(cl.Call.Args) == 2 {
			b, _ := c.res(cl.Call.Args[0], x)
			if k, ok := b.(*ssa.Const); ok && k.IsNil() {
				return cl.Call.Args[1], x, true
			}
			if mk, ok := b.(*ssa.MakeSlice); ok {
				if n, ok := constInt(mk.Len); ok && n == 0 {
					return cl.Call.Args[1], x, true
				}
			}
		}
		return nil, nil, false
	}
	if mk, ok := v.(*ssa.MakeSlice); ok {
		for _, r := range *mk.Referrers() {
			if cp, ok := r.(*ssa.Call); ok {
				if bi, ok := cp.Call.Value.(*ssa.Builtin); ok && bi.Name() == "copy" && cp.Call.Args[0] == ssa.Value(mk) {
					n := c.num(mk.Len, x)
					if n.eq(c.lenAxes(cp.Call.Args[1], x)) && len(elementStores(mk, c)) == 0 {
						return cp.Call.Args[1], x, true
					}
				}
			}
		}
	}
	return nil, nil, false
}

func (c *c33) lenAxes(v ssa.Value, x *ctx33) poly {
	a, ax := c.res(v, x)
	if u, ok := a.(*ssa.UnOp); ok {
		if fa, ok := u.X.(*ssa.FieldAddr); ok {
			if k, _, ok := c.image(fa.X, ax); ok {
				return poly{"len" + fieldName(fa.X.Type(), fa.Field) + ":" + k: 1}
			}
		}
	}
	return poly{fmt.Sprintf("len%p", a): 1}
}

// product of axes
func (c *c33) prod(v ssa.Value, x *ctx33) poly {
	c.depth++
	defer func() { c.depth-- }()
	v, x = c.res(v, x)
	unknown := poly{fmt.Sprintf("axes%p", v): 1}
	if c.depth > 40 {
		return unknown
	}
	if b, bx, ok := c.copied(v, x); ok {
		return c.prod(b, bx)
	}
	switch y := v.(type) {
	case *ssa.Parameter:
		return c.simplify(pixelsPoly(rkey(c32root{kind: "axes", val: y})))
	case *ssa.UnOp:
		if fa, ok := y.X.(*ssa.FieldAddr); ok && y.Op == token.MUL && c.isImg(fa.X.Type()) && fieldName(fa.X.Type(), fa.Field) == "Naxisn" {
			key, _, ok := c.image(fa.X, x)
			if !ok {
				return unknown
			}
			if sv, has, maybe := c.current(y, key, "Naxisn", -1); has {
				return c.prod(sv, x)
			} else if maybe {
				return unknown
			}
			return c.simplify(pixelsPoly(key))
		}
	case *ssa.MakeSlice:
		es := elementStores(y, c)
		if n, ok := constInt(y.Len); ok && n <= 8 {
			return c.prodFirst(es, n, x, unknown)
		}
		// copied, and more elements behind
		for _, r := range *y.Referrers() {
			if cp, ok := r.(*ssa.Call); ok {
				if bi, ok := cp.Call.Value.(*ssa.Builtin); ok && bi.Name() == "copy" && cp.Call.Args[0] == ssa.Value(y) {
					n := c.num(y.Len, x)
					l := c.lenAxes(cp.Call.Args[1], x)
					if n.eq(l.add(constPoly(1), 1)) && len(es) == 1 && c.num(es[0].idx, x).eq(l) {
						return c.simplify(c.prod(cp.Call.Args[1], x).mul(c.num(es[0].val, x)))
					}
				}
			}
		}
		// filled in a loop
		if len(es) == 1 && inCycle(es[0].st.Block()) {
			return poly{fmt.Sprintf("prod%p", stripConv(es[0].val)): 1}
		}
	case *ssa.Slice: // the first of a few
		if q, ok := c.partOf(y, x); ok {
			return q
		}
		if n, ok := fixedList(y); ok && n <= 8 {
			return c.prodFirst(elementStores(y, c), n, x, unknown)
		}
		if y.Low == nil && y.High != nil {
			n, ok := constInt(y.High)
			b, bx := c.res(y.X, x)
			if ld, isL := b.(*ssa.UnOp); isL && ld.Op == token.MUL {
				if fa, isF := ld.X.(*ssa.FieldAddr); isF && c.isImg(fa.X.Type()) {
					if key, _, is := c.image(fa.X, bx); is {
						if sv, has, _ := c.current(ld, key, "Naxisn", -1); has {
							b = c.resolve(sv)
						}
					}
				}
			}
			all, isC := fixedList(b)
			if !ok || !isC || all > 8 {
				if p := c.prod(b, bx); ok && !hard(p) && !p.eq(constPoly(1)) {
					return opaque(fmt.Sprintf("first%d", n), p)
				}
				return unknown
			}
			es := elementStores(b, c)
			// axes left out are one
			for k := n; k < all; k++ {
				one := false
				for _, e := range es {
					if i, ok := constInt(e.idx); ok && i == k {
						one = c.isOne(e.val, y)
					}
				}
				if !one {
					return c.prodFirst(es, n, bx, unknown)
				}
			}
			return c.prodFirst(es, all, bx, unknown)
		}
	case *ssa.Call:
		if bi, ok := y.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" && len(y.Call.Args) == 2 {
			p := c.prod(y.Call.Args[0], x)
			if vs, ok := varargs33(y.Call.Args[1]); ok {
				for _, e := range vs {
					p = p.mul(c.num(e, x))
				}
				return c.simplify(p)
			}
		}
	case *ssa.Phi:
		var one poly
		for k, e := range y.Edges {
			if e == ssa.Value(y) || inCycle(y.Block()) {
				return unknown
			}
			p := c.prod(e, x)
			if k > 0 && !p.eq(one) {
				return unknown
			}
			one = p
		}
		return one
	}
	return unknown
}

// product of some of the axes of an image
func (c *c33) partOf(y *ssa.Slice, x *ctx33) (poly, bool) {
	b, bx := c.res(y.X, x)
	var key string
	switch u := b.(type) {
	case *ssa.Parameter:
		if u.Type().String() != "[]int32" {
			return nil, false
		}
		key = rkey(c32root{kind: "axes", val: u})
	case *ssa.UnOp:
		fa, ok := u.X.(*ssa.FieldAddr)
		if !ok || u.Op != token.MUL || !c.isImg(fa.X.Type()) || fieldName(fa.X.Type(), fa.Field) != "Naxisn" {
			return nil, false
		}
		if key, _, ok = c.image(fa.X, bx); !ok {
			return nil, false
		}
		if _, has, maybe := c.current(u, key, "Naxisn", -1); has || maybe {
			return nil, false
		}
	default:
		return nil, false
	}
	lo, hi := int64(0), int64(-1)
	if y.Low != nil {
		k, ok := constInt(y.Low)
		if !ok {
			return nil, false
		}
		lo = k
	}
	if y.High != nil {
		k, ok := constInt(y.High)
		if !ok {
			return nil, false
		}
		hi = k
	}
	if hi > 2 || lo > 2 {
		return nil, false
	}
	p := constPoly(1)
	for k := lo; k < 2 && (hi < 0 || k < hi); k++ {
		p = p.mul(poly{fmt.Sprintf("N%d:%s", k, key): 1})
	}
	if hi < 0 {
		p = p.mul(poly{"R:" + key: 1})
	}
	return c.simplify(p), true
}

// elements of an array literal made for a variadic call
func varargs33(v ssa.Value) (vs []ssa.Value, ok bool) {
	sl, isS := v.(*ssa.Slice)
	if !isS {
		return nil, false
	}
	al, isA := sl.X.(*ssa.Alloc)
	if !isA {
		return nil, false
	}
	at, isT := deref(al.Type()).Underlying().(*types.Array)
	if !isT {
		return nil, false
	}
	vs = make([]ssa.Value, at.Len())
	for _, r := range *al.Referrers() {
		if ia, isI := r.(*ssa.IndexAddr); isI {
			k, isC := constInt(ia.Index)
			if !isC {
				return nil, false
			}
			for _, rr := range *ia.Referrers() {
				if st, isSt := rr.(*ssa.Store); isSt {
					vs[k] = st.Val
				}
			}
		}
	}
	for _, e := range vs {
		if e == nil {
			return nil, false
		}
	}
	return vs, true
}

func (c *c33) prodFirst(es []elemStore, n int64, x *ctx33, unknown poly) poly {
	p := constPoly(1)
	for k := int64(0); k < n; k++ {
		var v ssa.Value
		for _, e := range es {
			i, ok := constInt(e.idx)
			if !ok {
				return unknown
			}
			if i == k {
				v = e.val
			}
		}
		if v == nil {
			return unknown
		}
		p = p.mul(c.num(v, x))
	}
	return c.simplify(p)
}

// has a value been found to be one on every way to an instruction?
func (c *c33) isOne(v ssa.Value, at ssa.Instruction) bool {
	want := c.num(v, nil)
	if k, ok := want.konst(); ok && k == 1 {
		return true
	}
	m := mustFlowEdges(at.Parent(), func(ssa.Instruction) []string { return nil }, func(from *ssa.BasicBlock, k int) []string {
		iff, ok := from.Instrs[len(from.Instrs)-1].(*ssa.If)
		if !ok || from.Succs[0] == from.Succs[1] {
			return nil
		}
		cv, neg := stripNot(iff.Cond)
		bo, ok := cv.(*ssa.BinOp)
		if !ok || (bo.Op != token.EQL && bo.Op != token.NEQ) {
			return nil
		}
		if (bo.Op == token.EQL) != ((k == 0) != neg) {
			return nil
		}
		a, b := bo.X, bo.Y
		if _, isC := constInt(a); isC {
			a, b = b, a
		}
		if n, isC := constInt(b); isC && n == 1 && c.num(a, nil).eq(want) {
			return []string{"one"}
		}
		return nil
	})
	return m.at(at)["one"]
}

// phi accumulating the product over all elements of a slice: the slice
func (c *c33) productLoop(ph *ssa.Phi, x *ctx33) (ssa.Value, *ctx33, bool) {
	var l *loop
	for _, q := range loopsOf(ph.Parent()) {
		if q.head == ph.Block() {
			l = q
		}
	}
	if l == nil {
		return nil, nil, false
	}
	var list ssa.Value
	for k, e := range ph.Edges {
		if !l.body[ph.Block().Preds[k]] {
			if n, ok := constInt(stripConv(e)); !ok || n != 1 {
				return nil, nil, false
			}
			continue
		}
		bo, ok := stripConv(e).(*ssa.BinOp)
		if !ok || bo.Op != token.MUL {
			return nil, nil, false
		}
		o := bo.Y
		if stripConv(bo.Y) == ssa.Value(ph) {
			o = bo.X
		} else if stripConv(bo.X) != ssa.Value(ph) {
			return nil, nil, false
		}
		ld, ok := stripConv(o).(*ssa.UnOp)
		if !ok {
			return nil, nil, false
		}
		ia, ok := ld.X.(*ssa.IndexAddr)
		if !ok || list != nil && list != ia.X {
			return nil, nil, false
		}
		iv, ok := induction(ia.Index)
		if !ok || iv.l != l || iv.step != 1 {
			return nil, nil, false
		}
		init, isC := constInt(iv.init)
		if !isC || init+iv.off != 0 {
			return nil, nil, false
		}
		full := false
		for _, g := range l.guards() {
			if g.op == token.LSS && lenOf(g.bound, func(v ssa.Value) bool { return v == ia.X || c.resolve(v) == c.resolve(ia.X) }) {
				full = true
			}
		}
		if !full {
			return nil, nil, false
		}
		list = ia.X
	}
	if list == nil {
		return nil, nil, false
	}
	return list, x, true
}

// phi accumulating the product of a value computed in each iteration: the value
func (c *c33) productOf(ph *ssa.Phi) (ssa.Value, bool) {
	var l *loop
	for _, q := range loopsOf(ph.Parent()) {
		if q.head == ph.Block() {
			l = q
		}
	}
	if l == nil {
		return nil, false
	}
	var m ssa.Value
	for k, e := range ph.Edges {
		if !l.body[ph.Block().Preds[k]] {
			if n, ok := constInt(stripConv(e)); !ok || n != 1 {
				return nil, false
			}
			continue
		}
		bo, ok := stripConv(e).(*ssa.BinOp)
		if !ok || bo.Op != token.MUL {
			return nil, false
		}
		o := bo.Y
		if stripConv(bo.Y) == ssa.Value(ph) {
			o = bo.X
		} else if stripConv(bo.X) != ssa.Value(ph) {
			return nil, false
		}
		o = stripConv(o)
		if m != nil && m != o {
			return nil, false
		}
		m = o
	}
	return m, m != nil
}

// length of an array of pixels
func (c *c33) size(v ssa.Value, x *ctx33) poly {
	c.depth++
	defer func() { c.depth-- }()
	v, x = c.res(v, x)
	unknown := poly{fmt.Sprintf("size%p", v): 1}
	if c.depth > 40 {
		return unknown
	}
	switch y := v.(type) {
	case *ssa.Parameter:
		return poly{fmt.Sprintf("L%p", y): 1}
	case *ssa.MakeSlice:
		return c.simplify(c.num(y.Len, x))
	case *ssa.UnOp:
		if fa, ok := y.X.(*ssa.FieldAddr); ok && y.Op == token.MUL && c.isImg(fa.X.Type()) && fieldName(fa.X.Type(), fa.Field) == "Data" {
			key, _, ok := c.image(fa.X, x)
			if !ok {
				return unknown
			}
			if sv, has, maybe := c.current(y, key, "Data", -1); has {
				return c.size(sv, x)
			} else if maybe {
				return unknown
			}
			return c.simplify(pixelsPoly(key))
		}
	case *ssa.Slice:
		lo := constPoly(0)
		if y.Low != nil {
			lo = c.num(y.Low, x)
		}
		var hi poly
		if y.High != nil {
			hi = c.num(y.High, x)
		} else {
			hi = c.size(y.X, x)
		}
		return hi.add(lo, -1)
	case *ssa.Call:
		if bi, ok := y.Call.Value.(*ssa.Builtin); ok {
			if bi.Name() == "append" && len(y.Call.Args) == 2 {
				if k, isC := y.Call.Args[0].(*ssa.Const); isC && k.IsNil() {
					return c.size(y.Call.Args[1], x)
				}
			}
			return unknown
		}
		return c.called(y, 0, x, true)
	case *ssa.Extract:
		if cl, ok := y.Tuple.(*ssa.Call); ok {
			return c.called(cl, y.Index, x, true)
		}
	case *ssa.Phi:
		var one poly
		if inCycle(y.Block()) {
			return unknown
		}
		for _, e := range y.Edges {
			if k, ok := e.(*ssa.Const); ok && k.IsNil() {
				continue
			}
			p := c.size(e, x)
			if one != nil && !p.eq(one) {
				return unknown
			}
			one = p
		}
		if one != nil {
			return one
		}
	}
	return unknown
}

// result k of a call: length of an array of pixels, or number
func (c *c33) called(cl *ssa.Call, k int, x *ctx33, size bool) poly {
	unknown := poly{fmt.Sprintf("call%p.%d", cl, k): 1}
	if n, ok := c.canon(cl, 0); ok {
		unknown = poly{fmt.Sprintf("s:%s.%d", n, k): 1}
	}
	ts := c.w.targets(cl)
	if len(ts) != 1 || ts[0].Blocks == nil || !c.w.inMod[ts[0]] || c.depth > 30 {
		return unknown
	}
	g := ts[0]
	rets := goodReturns(g)
	if len(rets) == 0 {
		return unknown
	}
	ci := 0
	if len(rets) > 1 {
		c.multi[cl] = len(rets)
		ci = c.choice[cl]
	}
	if ci >= len(rets) || k >= len(rets[ci].Results) {
		return unknown
	}
	in := &ctx33{bind: map[*ssa.Parameter]ssa.Value{}, up: x, fn: g}
	for _, p := range g.Params {
		in.bind[p] = argFor(p, g, cl)
	}
	v := retVal(rets[ci], k)
	if size {
		return c.size(v, in)
	}
	return c.num(v, in)
}

// returns which do not report an error
func goodReturns(g *ssa.Function) (res []*ssa.Return) {
	for _, b := range g.Blocks {
		if b == g.Recover {
			continue
		}
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		failed := false
		for k, v := range ret.Results {
			if isErrT(v.Type()) {
				e := retVal(ret, k)
				if mustFailVal(e) || nonNilHere(e, b) {
					failed = true
				}
			}
		}
		if !failed {
			res = append(res, ret)
		}
	}
	return
}

// field of a structure made by a constructor, or passed by value
func (c *c33) built(fa *ssa.FieldAddr, x *ctx33) (ssa.Value, *ctx33, bool) {
	v, vx := c.res(fa.X, x)
	name := fieldName(fa.X.Type(), fa.Field)
	for d := 0; d < 6; d++ {
		switch y := v.(type) {
		case *ssa.Alloc:
			if sv := storedField(y, name); sv != nil {
				return sv, vx, true
			}
			// a parameter passed by value, kept in a variable
			if s := wholeStore(y); s != nil {
				v, vx = c.res(s, vx)
				continue
			}
		case *ssa.UnOp:
			if y.Op == token.MUL {
				v, vx = c.res(y.X, vx)
				continue
			}
		case *ssa.Call:
			ts := c.w.targets(y)
			if len(ts) != 1 || ts[0].Blocks == nil || !c.w.inMod[ts[0]] {
				return nil, nil, false
			}
			rets := goodReturns(ts[0])
			if len(rets) != 1 {
				return nil, nil, false
			}
			in := &ctx33{bind: map[*ssa.Parameter]ssa.Value{}, up: vx, fn: ts[0]}
			for _, p := range ts[0].Params {
				in.bind[p] = argFor(p, ts[0], y)
			}
			v, vx = c.res(retVal(rets[0], 0), in)
			continue
		}
		return nil, nil, false
	}
	return nil, nil, false
}

// the value of a structure kept in a variable which is set once and as a whole
func wholeStore(al *ssa.Alloc) (val ssa.Value) {
	for _, r := range *al.Referrers() {
		switch y := r.(type) {
		case *ssa.Store:
			if y.Addr != ssa.Value(al) || val != nil {
				return nil
			}
			val = y.Val
		case *ssa.FieldAddr:
			for _, rr := range *y.Referrers() {
				if u, ok := rr.(*ssa.UnOp); !ok || u.Op != token.MUL {
					return nil
				}
			}
		case *ssa.UnOp, *ssa.DebugRef:
		default:
			return nil
		}
	}
	return val
}

// ---- obligations

// the successful ends of a function, for all combinations of ways through the functions it calls
func (c *c33) combos(run func() []string) (bad []string) {
	c.choice, c.multi = map[*ssa.Call]int{}, map[*ssa.Call]int{}
	for n := 0; n < 16; n++ {
		for _, s := range run() {
			bad = append(bad, s)
		}
		// next combination
		var calls []*ssa.Call
		for cl := range c.multi {
			calls = append(calls, cl)
		}
		sort.Slice(calls, func(i, j int) bool { return calls[i].Pos() < calls[j].Pos() })
		more := false
		for _, cl := range calls {
			c.choice[cl]++
			if c.choice[cl] < c.multi[cl] {
				more = true
				break
			}
			c.choice[cl] = 0
		}
		if !more {
			break
		}
	}
	return
}

func (c *c33) function(f *ssa.Function) {
	type group struct {
		key    string
		val    ssa.Value
		fields map[string][]*ssa.Store
		elems  map[int64][]*ssa.Store
		other  bool
		lit    bool
	}
	groups := map[string]*group{}
	var order []string
	get := func(v ssa.Value) *group {
		key, val, ok := c.image(v, nil)
		if !ok {
			return nil
		}
		if groups[key] == nil {
			_, lit := val.(*ssa.Alloc)
			groups[key] = &group{key: key, val: val, fields: map[string][]*ssa.Store{}, elems: map[int64][]*ssa.Store{}, lit: lit}
			order = append(order, key)
		}
		return groups[key]
	}
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if cl, ok := i.(*ssa.Call); ok {
				c.given(f, cl)
			}
			st, ok := i.(*ssa.Store)
			if !ok {
				continue
			}
			switch a := st.Addr.(type) {
			case *ssa.FieldAddr:
				if !c.isImg(a.X.Type()) {
					continue
				}
				switch n := fieldName(a.X.Type(), a.Field); n {
				case "Data", "Naxisn", "Pixels":
					if k, isC := st.Val.(*ssa.Const); isC && k.IsNil() {
						continue // given away
					}
					if g := get(a.X); g != nil {
						g.fields[n] = append(g.fields[n], st)
					}
				}
			case *ssa.IndexAddr:
				ld, ok := c.resolve(a.X).(*ssa.UnOp)
				if !ok || ld.Op != token.MUL {
					continue
				}
				fa, ok := ld.X.(*ssa.FieldAddr)
				if !ok || !c.isImg(fa.X.Type()) || fieldName(fa.X.Type(), fa.Field) != "Naxisn" {
					continue
				}
				if g := get(fa.X); g != nil {
					if k, isC := constInt(a.Index); isC {
						g.elems[k] = append(g.elems[k], st)
					} else {
						g.other = true
					}
				}
			}
		}
	}
	for _, key := range order {
		g := groups[key]
		if len(g.fields) == 0 && len(g.elems) == 0 && !g.other {
			continue
		}
		what := "an image made here"
		if !g.lit {
			what = c.name(c32root{kind: "img", val: g.val})
		}
		name := fname(f) + "/" + what
		if g.other {
			c.r.undecided("%s: axes of %s set by a computed number", fname(f), what)
			continue
		}
		var at ssa.Instruction
		var last []ssa.Instruction
		for _, n := range []string{"Data", "Naxisn", "Pixels"} {
			for _, s := range g.fields[n] {
				last = append(last, s)
			}
		}
		for _, es := range g.elems {
			for _, s := range es {
				last = append(last, s)
			}
		}
		sort.Slice(last, func(i, j int) bool { return last[i].Pos() < last[j].Pos() })
		at = last[0]
		c.subst = map[string]bool{}
		if c.onePlane(f, g.key, last) {
			c.subst["R:"+g.key] = true
		}
		unknown := ""
		run := func() (bad []string) {
			old := c.simplify(pixelsPoly(g.key))
			var pn, pd, pp poly
			if ss := g.fields["Naxisn"]; len(ss) > 0 {
				for _, s := range ss {
					if !c.lasting(s, ss) {
						continue
					}
					p := c.simplify(c.prod(s.Val, nil))
					if pn != nil && !p.eq(pn) {
						if hard(p) || hard(pn) || c.distinguished(f, p, pn) {
							unknown = "axes set in several places"
							return
						}
						bad = append(bad, fmt.Sprintf("the product of the axes is %s on one way and %s on another", c.show(pn), c.show(p)))
						return
					}
					pn = p
				}
			} else if len(g.elems) > 0 {
				pn = constPoly(1)
				for k := int64(0); k < 2; k++ {
					if ss := g.elems[k]; len(ss) == 1 {
						pn = pn.mul(c.num(ss[0].Val, nil))
					} else if len(ss) > 1 {
						unknown = "axes set in several places"
						return
					} else {
						pn = pn.mul(poly{fmt.Sprintf("N%d:%s", k, g.key): 1})
					}
				}
				for k := range g.elems {
					if k > 1 {
						unknown = "a further axis set alone"
						return
					}
				}
				pn = c.simplify(pn.mul(poly{"R:" + g.key: 1}))
			}
			if ss := g.fields["Data"]; len(ss) > 0 {
				for k, s := range ss {
					var p poly
					if ph, ok := s.Val.(*ssa.Phi); ok { // pixels given, or made
						p = c.givenOr(ph)
					} else {
						p = c.size(s.Val, nil)
					}
					p = c.simplify(p)
					if k > 0 && !p.eq(pd) {
						unknown = "pixels set in several places"
						return
					}
					pd = p
				}
			}
			if ss := g.fields["Pixels"]; len(ss) > 0 {
				if len(ss) == 1 {
					pp = c.simplify(c.num(ss[0].Val, nil))
				} else if m, ok := c.accumulated(ss, g.key); ok {
					pp = poly{fmt.Sprintf("prod%p", m): 1}
				} else {
					unknown = "number of pixels set in several places"
					return
				}
			}
			// what is not set stays as it was
			fresh := g.lit || len(g.fields["Naxisn"]) > 0 && pp != nil
			if pn == nil && !fresh {
				pn = old
			}
			if pp == nil && !fresh {
				pp = old
			}
			if pd == nil && !fresh {
				pd = old
			}
			cmp := func(a, b poly, na, nb string) {
				if a != nil && b != nil && !c.simplify(a).eq(c.simplify(b)) {
					if hard(a) || hard(b) || len(g.fields["Naxisn"]) > 1 && c.distinguished(f, a, b) {
						unknown = na + " " + c.show(a) + ", " + nb + " " + c.show(b)
						return
					}
					bad = append(bad, fmt.Sprintf("%s is %s, but %s is %s", na, c.show(a), nb, c.show(b)))
				}
			}
			cmp(pn, pp, "the product of the axes", "the number of pixels")
			cmp(pn, pd, "the product of the axes", "the length of the array of pixels")
			if pn == nil {
				cmp(pp, pd, "the number of pixels", "the length of the array of pixels")
			}
			return
		}
		bad := c.combos(run)
		c.subst = nil
		switch {
		case len(bad) > 0:
			c.r.bad("product", name, c.w.ipos(at), "%s sets dimensions or pixels of %s: %s", fname(f), what, bad[0])
		case unknown != "":
			c.r.undecided("%s: dimensions of %s: %s", fname(f), what, unknown)
		default:
			c.r.ob("product", "%s: dimensions and pixels of %s agree", fname(f), what)
		}
	}
}

// is what a store sets there at the end, in the combination looked at?
func (c *c33) lasting(s *ssa.Store, all []*ssa.Store) bool {
	if len(all) == 1 {
		return true
	}
	over := func(b *ssa.BasicBlock, from int) bool {
		for _, i := range b.Instrs[from:] {
			for _, o := range all {
				if i == ssa.Instruction(o) {
					return true
				}
			}
		}
		return false
	}
	if !c.feasibleTo(s.Block()) {
		return false
	}
	at := 0
	for k, i := range s.Block().Instrs {
		if i == ssa.Instruction(s) {
			at = k + 1
		}
	}
	if over(s.Block(), at) {
		return false
	}
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock) bool
	walk = func(b *ssa.BasicBlock) bool {
		if len(b.Succs) == 0 {
			return true
		}
		for k, n := range b.Succs {
			if !c.feasible(b, k) || seen[n] {
				continue
			}
			seen[n] = true
			if !over(n, 0) && walk(n) {
				return true
			}
		}
		return false
	}
	return walk(s.Block())
}

// can a block be reached, in the combination looked at?
func (c *c33) feasibleTo(to *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock) bool
	walk = func(b *ssa.BasicBlock) bool {
		if b == to {
			return true
		}
		for k, n := range b.Succs {
			if c.feasible(b, k) && !seen[n] {
				seen[n] = true
				if walk(n) {
					return true
				}
			}
		}
		return false
	}
	return walk(to.Parent().Blocks[0])
}

func (c *c33) feasible(b *ssa.BasicBlock, k int) bool {
	iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return true
	}
	cv, neg := stripNot(iff.Cond)
	bo, ok := cv.(*ssa.BinOp)
	if !ok {
		return true
	}
	if t, ok := bo.X.Type().Underlying().(*types.Basic); !ok || t.Info()&types.IsInteger == 0 {
		return true
	}
	p, ok1 := c.num(bo.X, nil).konst()
	q, ok2 := c.num(bo.Y, nil).konst()
	if !ok1 || !ok2 {
		return true
	}
	var res bool
	switch bo.Op {
	case token.EQL:
		res = p == q
	case token.NEQ:
		res = p != q
	case token.LSS:
		res = p < q
	case token.LEQ:
		res = p <= q
	case token.GTR:
		res = p > q
	case token.GEQ:
		res = p >= q
	default:
		return true
	}
	return (res != neg) == (k == 0)
}

// is a number in which two polynomials differ compared with a constant somewhere?
func (c *c33) distinguished(f *ssa.Function, p, q poly) bool {
	for _, b := range f.Blocks {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		cv, _ := stripNot(iff.Cond)
		bo, ok := cv.(*ssa.BinOp)
		if !ok || (bo.Op != token.EQL && bo.Op != token.NEQ) {
			continue
		}
		for _, v := range []ssa.Value{bo.X, bo.Y} {
			if t, ok := v.Type().Underlying().(*types.Basic); !ok || t.Info()&types.IsInteger == 0 {
				continue
			}
			a := c.num(v, nil)
			if _, is := a.konst(); is || len(a) != 1 {
				continue
			}
			_, inP := c.div(p, a)
			_, inQ := c.div(q, a)
			if inP != inQ {
				return true
			}
		}
	}
	return false
}

// a number which could not be followed
func hard(p poly) bool {
	for m := range p {
		for _, a := range strings.Split(m, "*") {
			for _, pre := range []string{"axes", "size", "call", "v0x"} {
				if strings.HasPrefix(a, pre) {
					return true
				}
			}
		}
	}
	return false
}

func (c *c33) show(p poly) string {
	if p == nil {
		return "?"
	}
	s := p.String()
	for _, pre := range []string{"N0", "N1", "R", "A2"} {
		for {
			k := strings.Index(s, pre+":")
			if k < 0 {
				break
			}
			e := k + len(pre) + 1
			for e < len(s) && s[e] != '*' && s[e] != '+' && s[e] != ')' && s[e] != ';' && s[e] != '@' && s[e] != '#' {
				e++
			}
			nice := map[string]string{"N0": "width", "N1": "height", "R": "planes", "A2": "third axis"}[pre]
			s = s[:k] + nice + s[e:]
		}
	}
	return strings.NewReplacer("@", "*", "#", "+", "1*", "").Replace(s)
}

// pixels which are given as an argument are checked at the callers
func (c *c33) givenOr(ph *ssa.Phi) poly {
	var one poly
	for _, e := range ph.Edges {
		if p, ok := c.resolve(e).(*ssa.Parameter); ok && p.Parent() == ph.Parent() {
			continue
		}
		p := c.size(e, nil)
		if one != nil && !one.eq(p) {
			return poly{fmt.Sprintf("size%p", ph): 1}
		}
		one = p
	}
	return one
}

// the number of pixels computed in the field itself
func (c *c33) accumulated(ss []*ssa.Store, key string) (ssa.Value, bool) {
	var m ssa.Value
	init := false
	for _, s := range ss {
		if k, ok := constInt(stripConv(s.Val)); ok && k == 1 {
			init = true
			continue
		}
		bo, ok := stripConv(s.Val).(*ssa.BinOp)
		if !ok || !inCycle(s.Block()) {
			return nil, false
		}
		isSelf := func(v ssa.Value) bool {
			u, ok := stripConv(v).(*ssa.UnOp)
			if !ok || u.Op != token.MUL {
				return false
			}
			fa, ok := u.X.(*ssa.FieldAddr)
			if !ok || !c.isImg(fa.X.Type()) || fieldName(fa.X.Type(), fa.Field) != "Pixels" {
				return false
			}
			k, _, ok := c.image(fa.X, nil)
			return ok && k == key
		}
		o := bo.Y
		if isSelf(bo.Y) {
			o = bo.X
		} else if !isSelf(bo.X) {
			return nil, false
		}
		if m != nil {
			return nil, false
		}
		m = stripConv(o)
		if bo.Op != token.MUL {
			m = s.Val // not a product
		}
	}
	return m, init && m != nil
}

// axes and pixels given to a function which makes an image of them
func (c *c33) given(f *ssa.Function, cl *ssa.Call) {
	g := cl.Call.StaticCallee()
	if g == nil || !c.w.inMod[g] || g.Blocks == nil || g.Signature.Results().Len() == 0 || !c.isImg(g.Signature.Results().At(0).Type()) {
		return
	}
	var ax, data *ssa.Parameter
	for _, b := range g.Blocks {
		for _, i := range b.Instrs {
			st, ok := i.(*ssa.Store)
			if !ok {
				continue
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok || !c.isImg(fa.X.Type()) {
				continue
			}
			if _, isA := c.resolve(fa.X).(*ssa.Alloc); !isA {
				continue
			}
			switch fieldName(fa.X.Type(), fa.Field) {
			case "Data":
				vs := []ssa.Value{st.Val}
				if ph, ok := st.Val.(*ssa.Phi); ok {
					vs = ph.Edges
				}
				for _, v := range vs {
					if p, ok := c.resolve(v).(*ssa.Parameter); ok {
						data = p
					}
				}
			case "Naxisn":
				if rt, ok := c.axesRoot(st.Val, 0); ok && rt.kind == "axes" {
					ax, _ = rt.val.(*ssa.Parameter)
				}
			}
		}
	}
	if ax == nil || data == nil {
		return
	}
	a, d := argFor(ax, g, cl), argFor(data, g, cl)
	if a == nil || d == nil {
		return
	}
	name := fmt.Sprintf("%s/%s", fname(f), g.Name())
	if k, ok := d.(*ssa.Const); ok && k.IsNil() {
		c.r.ob("given", "%s: %s makes the pixels itself", fname(f), fname(g))
		return
	}
	unknown := ""
	bad := c.combos(func() []string {
		pa, pd := c.prod(a, nil), c.size(d, nil)
		if pa.eq(pd) {
			return nil
		}
		if hard(pa) || hard(pd) {
			unknown = c.show(pa) + " and " + c.show(pd)
			return nil
		}
		return []string{fmt.Sprintf("axes with product %s, but %s pixels", c.show(pa), c.show(pd))}
	})
	if len(bad) > 0 {
		c.r.bad("given", name, c.w.ipos(cl), "%s gives %s %s", fname(f), fname(g), bad[0])
	} else if unknown != "" {
		c.r.undecided("%s: axes and pixels given to %s: %s", fname(f), fname(g), unknown)
	} else {
		c.r.ob("given", "%s: axes and pixels given to %s agree", fname(f), fname(g))
	}
}

// has the image been found to have a single plane, before anything is set?
func (c *c33) onePlane(f *ssa.Function, key string, sets []ssa.Instruction) bool {
	fact := "one"
	m := mustFlowEdges(f, func(ssa.Instruction) []string { return nil }, func(from *ssa.BasicBlock, k int) []string {
		iff, ok := from.Instrs[len(from.Instrs)-1].(*ssa.If)
		if !ok || from.Succs[0] == from.Succs[1] {
			return nil
		}
		for _, s := range c.condFacts34(iff.Cond, k == 0, 0) {
			if strings.NewReplacer("*", "@", "+", "#").Replace(s) == key+"~len=2" {
				return []string{fact}
			}
		}
		cv, neg := stripNot(iff.Cond)
		bo, ok := cv.(*ssa.BinOp)
		if !ok || (bo.Op != token.EQL && bo.Op != token.NEQ) || (bo.Op == token.EQL) != ((k == 0) != neg) {
			return nil
		}
		if b, ok := bo.X.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
			return nil
		}
		save := c.subst
		c.subst = nil
		if c.choice == nil {
			c.choice, c.multi = map[*ssa.Call]int{}, map[*ssa.Call]int{}
		}
		p, q := c.num(bo.X, nil), c.num(bo.Y, nil)
		c.subst = save
		// equal only if there is a single plane
		one := poly{"N0:" + key: 1}.mul(poly{"N1:" + key: 1})
		if p.eq(pixelsPoly(key)) && q.eq(one) || q.eq(pixelsPoly(key)) && p.eq(one) {
			return []string{fact}
		}
		r := poly{"R:" + key: 1}
		if p.eq(r) && q.eq(constPoly(1)) || q.eq(r) && p.eq(constPoly(1)) {
			return []string{fact}
		}
		return nil
	})
	for _, s := range sets {
		if !m.at(s)[fact] {
			return false
		}
	}
	return true
}

// ---- filling new images

func (c *c33) fills(f *ssa.Function) {
	type fill struct {
		key   string
		want  poly
		got   []poly
		where []ssa.Instruction
		hard  bool
		at    ssa.Instruction
		part  bool
	}
	fs := map[string]*fill{}
	var order []string
	c.choice, c.multi = map[*ssa.Call]int{}, map[*ssa.Call]int{}
	// the image an array of pixels belongs to, if it is made here and empty
	newImage := func(v ssa.Value) (fl *fill, part bool) {
		base := c.resolve(v)
		if sl, ok := base.(*ssa.Slice); ok {
			base, part = c.resolve(sl.X), true
		}
		ld, ok := base.(*ssa.UnOp)
		if !ok || ld.Op != token.MUL {
			return nil, part
		}
		fa, ok := ld.X.(*ssa.FieldAddr)
		if !ok || !c.isImg(fa.X.Type()) || fieldName(fa.X.Type(), fa.Field) != "Data" {
			return nil, part
		}
		mk, ok := c.resolve(fa.X).(*ssa.Call)
		if !ok {
			return nil, part
		}
		want, ok := c.madeEmpty(mk)
		if !ok {
			return nil, part
		}
		key := fmt.Sprintf("%p", mk)
		if fs[key] == nil {
			fs[key] = &fill{key: key, want: want, at: mk}
			order = append(order, key)
		}
		return fs[key], part
	}
	// times an instruction is carried out
	times := func(fl *fill, i ssa.Instruction, x *ctx33) poly {
		n := constPoly(1)
		for _, l := range loopsOf(i.Parent()) {
			if l.body[i.Block()] {
				p, ok := c.trips(l, x)
				if !ok {
					fl.hard = true
					break
				}
				n = n.mul(p)
			}
		}
		return c.simplify(n)
	}
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if cl, ok := i.(*ssa.Call); ok {
				// filled by a function called
				g := cl.Call.StaticCallee()
				if g == nil || g.Blocks == nil || !c.w.inMod[g] {
					continue
				}
				for _, p := range g.Params {
					a := argFor(p, g, cl)
					if a == nil || !floatSlice(p.Type()) {
						continue
					}
					fl, _ := newImage(a)
					if fl == nil {
						continue
					}
					in := &ctx33{bind: map[*ssa.Parameter]ssa.Value{}, fn: g}
					for _, q := range g.Params {
						in.bind[q] = argFor(q, g, cl)
					}
					outer := times(fl, cl, nil)
					none := true
					for _, gb := range g.Blocks {
						for _, gi := range gb.Instrs {
							ia, ok := gi.(*ssa.IndexAddr)
							if !ok || c.resolve(ia.X) != ssa.Value(p) || !isStoredTo(ia) {
								continue
							}
							none = false
							fl.got, fl.where = append(fl.got, c.simplify(outer.mul(times(fl, ia, in)))), append(fl.where, cl)
						}
					}
					if none {
						fl.hard = true
					}
				}
				continue
			}
			ia, ok := i.(*ssa.IndexAddr)
			if !ok || !floatSlice(ia.X.Type()) || !isStoredTo(ia) {
				continue
			}
			fl, part := newImage(ia.X)
			if fl == nil {
				continue
			}
			fl.part = fl.part || part
			fl.got, fl.where = append(fl.got, times(fl, ia, nil)), append(fl.where, ia)
		}
	}
	for _, k := range order {
		fl := fs[k]
		ok := false
		for k, g := range fl.got {
			ok = ok || g.eq(fl.want) || c.equalHere(g, fl.want, fl.where[k])
			// dimensions of another image: subject of C32
			fl.hard = fl.hard || hard(g) || !g.eq(fl.want) && anyImage(g) == anyImage(fl.want)
		}
		switch {
		case ok:
			c.r.ob("fill", "%s: %s positions filled", fname(f), c.show(fl.want))
		case fl.hard || fl.part || len(fl.got) > 3:
			c.r.note("%s: how much of a new image is filled is not known", fname(f))
		default:
			c.r.bad("fill", fname(f), c.w.ipos(fl.at), "%s makes an image of %s pixels, but sets %s of them", fname(f), c.show(fl.want), c.show(fl.got[0]))
		}
	}
}

// number of pixels of an image made without pixels
func (c *c33) madeEmpty(cl *ssa.Call) (poly, bool) {
	if !c.isImg(cl.Type()) {
		return nil, false
	}
	g := cl.Call.StaticCallee()
	if g == nil || !c.w.inMod[g] || g.Blocks == nil {
		return nil, false
	}
	hasAlloc := false
	for _, b := range g.Blocks {
		for _, i := range b.Instrs {
			if al, ok := i.(*ssa.Alloc); ok && c.isImg(al.Type()) {
				hasAlloc = true
			}
		}
	}
	if !hasAlloc {
		return nil, false
	}
	if rt, ok := c.made(cl, 0, 0); ok {
		if rt.kind == "axes" {
			return c.prod(rt.val, nil), true
		}
		return pixelsPoly(rkey(rt)), true
	}
	// made of axes computed here
	for k, p := range g.Params {
		if p.Type().String() == "[]int32" && k < len(cl.Call.Args) {
			return c.prod(cl.Call.Args[k], nil), true
		}
	}
	return nil, false
}

// polynomials whatever image their axes belong to
func anyImage(p poly) string {
	var ms []string
	for m, k := range p {
		var as []string
		for _, a := range strings.Split(m, "*") {
			if n := strings.Index(a, ":"); n > 0 && strings.Contains("N0 N1 R", a[:n]) {
				a = a[:n]
			}
			as = append(as, a)
		}
		sort.Strings(as)
		ms = append(ms, fmt.Sprint(k, strings.Join(as, "*")))
	}
	sort.Strings(ms)
	return strings.Join(ms, "+")
}

// have two numbers been found to be equal on every way to an instruction?
func (c *c33) equalHere(a, b poly, at ssa.Instruction) bool {
	d := a.add(b, -1)
	m := mustFlowEdges(at.Parent(), func(ssa.Instruction) []string { return nil }, func(from *ssa.BasicBlock, k int) []string {
		iff, ok := from.Instrs[len(from.Instrs)-1].(*ssa.If)
		if !ok || from.Succs[0] == from.Succs[1] {
			return nil
		}
		cv, neg := stripNot(iff.Cond)
		bo, ok := cv.(*ssa.BinOp)
		if !ok || (bo.Op != token.EQL && bo.Op != token.NEQ) || (bo.Op == token.EQL) != ((k == 0) != neg) {
			return nil
		}
		if t, ok := bo.X.Type().Underlying().(*types.Basic); !ok || t.Info()&types.IsInteger == 0 {
			return nil
		}
		e := c.num(bo.X, nil).add(c.num(bo.Y, nil), -1)
		if e.eq(d) || e.eq(constPoly(0).add(d, -1)) {
			return []string{"eq"}
		}
		return nil
	})
	return m.at(at)["eq"]
}

func isStoredTo(ia *ssa.IndexAddr) bool {
	for _, r := range *ia.Referrers() {
		if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(ia) {
			return true
		}
	}
	return false
}

// number of iterations of a loop
func (c *c33) trips(l *loop, x *ctx33) (poly, bool) {
	for _, g := range l.guards() {
		if g.op != token.LSS && g.op != token.NEQ {
			continue
		}
		start := c.num(g.x.init, x).add(constPoly(float64(g.x.off)), 1)
		n := c.num(g.bound, x).add(start, -1)
		if g.x.inc != nil {
			q, ok := c.div(n, c.num(g.x.inc, x))
			return q, ok
		}
		if g.x.step == 1 {
			return n, true
		}
	}
	return nil, false
}
