package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C31: nothing to work with. Elements selected relative to the start, middle or end of a slice exist: the slice is proved to
// have enough elements where they are accessed, or the requirement is followed to where the slice comes from: arguments of all
// calls, stores to the field, merged and returned values.

func init() {
	register("C31", "selections from the start, middle or end of slices: the minimum length each access needs is inferred, followed through parameters, fields, results and rounds of loops to where the slice is made, and proved there by linear arithmetic", runC31)
}

type c31 struct {
	reach  map[*ssa.Function]bool
	w      *World
	r      *Report
	p      *prover
	fields map[string]int64 // slices in structs assumed to hold at least so many elements when set; checked where they are set
	least  map[string]int64 // there are such with no more elements
	args   map[*ssa.Parameter]int64
	queue  []c31need
	leaf   func(v ssa.Value) bool
	opts   map[string]bool    // options of operators
	axis   map[ssa.Value]bool // slices which become the axes of images
}

type c31need struct {
	b    *ssa.BasicBlock
	x    ssa.Value
	n    int64
	at   ssa.Instruction
	rule string
	what string // what needs it
	hop  int
}

type c31res int

const (
	c31ok c31res = iota
	c31bad
	c31open
)

const c31image = Mod + "/internal/fits.Image"

func runC31(w *World, r *Report) {
	r.rule("access", "elements at the start, middle or end of slices exist, wherever the slice comes from", 150)
	r.rule("field", "slices kept in structs have the elements which are accessed without a test, wherever they are set", 8)
	r.rule("rounds", "positions which grow from round to round of a loop are compared with something in the loop, unless the number of rounds is bounded otherwise", 100)
	r.rule("measured", "positions calculated from floating point numbers are compared before they select elements", 4)
	r.rule("axes", "axes of images have at least one pixel", 4)
	c := &c31{w: w, r: r, fields: map[string]int64{c31image + ".Naxisn": 2, c31image + ".Data": 1}, args: map[*ssa.Parameter]int64{}, axis: map[ssa.Value]bool{}}
	c.p = newProver(w, c.free)
	c.p.given = c.given
	c.p.parts = true
	c.opts = map[string]bool{}
	for _, o := range w.operators() {
		for k := 0; k < o.st.NumFields(); k++ {
			c.opts[o.named.String()+"."+o.st.Field(k).Name()] = true
		}
	}
	c.least = map[string]int64{}
	for k, n := range c.fields {
		c.least[k] = n
	}
	c.axes()
	for _, k := range []string{c31image + ".Naxisn", c31image + ".Data"} {
		c.stores(k, c.fields[k], "images have two axes and a pixel", 0)
	}
	for _, f := range w.Funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				switch x := i.(type) {
				case *ssa.IndexAddr:
					c.access(b, i, x.X, x.Index, nil, true)
				case *ssa.Index:
					c.access(b, i, x.X, x.Index, nil, true)
				case *ssa.Slice:
					if x.Low != nil || x.High != nil {
						c.access(b, i, x.X, x.Low, x.High, false)
					}
				}
			}
		}
	}
	for _, f := range w.Funcs {
		c.rounds(f)
		c.measured(f)
	}
	seen := map[string]bool{}
	for len(c.queue) > 0 {
		n := c.queue[0]
		c.queue = c.queue[1:]
		k := fmt.Sprintf("%p|%p|%d|%s", n.b, n.x, n.n, n.rule)
		if seen[k] {
			continue
		}
		seen[k] = true
		c.settle(n)
	}
}

// ---- what is known

func (c *c31) free(v ssa.Value, isLen bool) bool {
	switch x := v.(type) {
	case *ssa.UnOp:
		switch a := x.X.(type) {
		case *ssa.FieldAddr:
			return isLen || c.opts[fieldKey(a)]
		case *ssa.IndexAddr:
			return !isLen && c.axisLike(a.X)
		}
	case *ssa.Call, *ssa.Extract:
		if cl, k := resultOf(v); cl != nil && !isLen {
			switch calleeName(&cl.Call) {
			case "(image.Rectangle).Dx", "(image.Rectangle).Dy":
				return true
			}
			return lookedUp(cl, k)
		}
	case *ssa.Phi:
		l := loopOf(x.Block())
		if l == nil || l.head != x.Block() {
			return false
		}
		if isLen {
			return someAppended(x, l)
		}
		if !isInt(x.Type()) || !monotone(x, l) {
			return false
		}
		if _, ok := induction(x); ok {
			return false
		}
		return true
	}
	return false
}

// is a result of a call taken from a map
func lookedUp(cl *ssa.Call, k int) bool {
	t := cl.Call.StaticCallee()
	if t == nil {
		return false
	}
	n := 0
	for _, b := range t.Blocks {
		rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || mayFail(rt) || b == t.Recover {
			continue
		}
		v := retVal(rt, k)
		if ex, ok := v.(*ssa.Extract); ok {
			v = ex.Tuple
		}
		if _, ok := v.(*ssa.Lookup); !ok {
			return false
		}
		n++
	}
	return n > 0
}

// a slice which elements are appended to in some rounds only
func someAppended(phi *ssa.Phi, l *loop) bool {
	var walk func(v ssa.Value, seen map[ssa.Value]bool) bool
	skip, add := false, false
	walk = func(v ssa.Value, seen map[ssa.Value]bool) bool {
		if v == ssa.Value(phi) {
			return true
		}
		if seen[v] {
			return true
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Call:
			if calleeName(&x.Call) == "builtin.append" {
				add = true
				return walk(x.Call.Args[0], seen)
			}
		case *ssa.Phi:
			for _, e := range x.Edges {
				if e == ssa.Value(phi) {
					skip = true
				}
				if !walk(e, seen) {
					return false
				}
			}
			return true
		}
		return false
	}
	for k, pr := range phi.Block().Preds {
		if l.body[pr] {
			if phi.Edges[k] == ssa.Value(phi) {
				skip = true
			}
			if !walk(phi.Edges[k], map[ssa.Value]bool{}) {
				return false
			}
		} else if n, ok := phi.Edges[k].(*ssa.Const); !ok || n.Value != nil {
			if s, ok := phi.Edges[k].(*ssa.Slice); !ok || s.High == nil {
				return false
			} else if z, ok := constInt(s.High); !ok || z != 0 {
				return false
			}
		}
	}
	return skip && add
}

func (c *c31) given(a *atomInfo, me poly) (r []poly) {
	if a.len {
		if u, ok := a.v.(*ssa.UnOp); ok && u.Op == token.MUL {
			if fa, ok := u.X.(*ssa.FieldAddr); ok {
				if n := c.fields[fieldKey(fa)]; n > 0 {
					r = append(r, me.add(constPoly(float64(n)), -1))
				}
			}
		}
		if pr, ok := a.v.(*ssa.Parameter); ok {
			if n := c.args[pr]; n > 0 {
				r = append(r, me.add(constPoly(float64(n)), -1))
			}
		}
		return
	}
	switch x := a.v.(type) {
	case *ssa.Call:
		switch calleeName(&x.Call) {
		case "(image.Rectangle).Dx", "(image.Rectangle).Dy":
			r = append(r, me)
		}
	case *ssa.UnOp, *ssa.Phi:
		if c.positive(x, map[ssa.Value]bool{}) {
			r = append(r, me.add(constPoly(1), -1))
		}
	}
	return
}

// does a value follow from sizes of axes, and so is at least one
func (c *c31) positive(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Const:
		k, ok := constInt(x)
		return ok && k >= 1
	case *ssa.Convert:
		return isInt(x.Type()) && isInt(x.X.Type()) && c.positive(x.X, seen)
	case *ssa.BinOp:
		if x.Op == token.MUL && isInt(x.Type()) {
			return c.positive(x.X, seen) && c.positive(x.Y, seen)
		}
	case *ssa.Phi:
		if !isInt(x.Type()) {
			return false
		}
		some := false
		for _, e := range x.Edges {
			if !c.positive(e, seen) {
				return false
			}
			if _, ok := e.(*ssa.Const); !ok {
				some = true
			}
		}
		return some
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return false
		}
		switch a := x.X.(type) {
		case *ssa.FieldAddr:
			return fieldKey(a) == c31image+".Pixels"
		case *ssa.IndexAddr:
			return c.axisLike(a.X)
		}
	default:
		if leaf := c.leaf; leaf != nil && isInt(v.Type()) {
			c.leaf = nil
			defer func() { c.leaf = leaf }()
			return leaf(v)
		}
	}
	return false
}

func (c *c31) axisLike(v ssa.Value) bool {
	if c.axis[v] {
		return true
	}
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if fa, ok := u.X.(*ssa.FieldAddr); ok {
			return c.axisField(fa)
		}
	}
	return false
}

func (c *c31) axisField(fa *ssa.FieldAddr) bool {
	n := fieldName(fa.X.Type(), fa.Field)
	s, ok := deref(fa.Type()).Underlying().(*types.Slice)
	if !ok {
		return false
	}
	if b, ok := s.Elem().Underlying().(*types.Basic); !ok || b.Kind() != types.Int32 {
		return false
	}
	return n == "Naxisn" || n == "AlignNaxisn"
}

// sizes of axes, and the number of pixels, are at least one
func (c *c31) axes() {
	var from func(v ssa.Value)
	from = func(v ssa.Value) {
		if c.axis[v] {
			return
		}
		switch x := v.(type) {
		case *ssa.MakeSlice:
			c.axis[v] = true
		case *ssa.Slice:
			c.axis[v] = true
			from(x.X)
		case *ssa.Alloc:
			c.axis[v] = true
		case *ssa.Phi:
			c.axis[v] = true
			for _, e := range x.Edges {
				from(e)
			}
		case *ssa.Call:
			if calleeName(&x.Call) == "builtin.append" {
				c.axis[v] = true
				for _, a := range x.Call.Args {
					from(a)
				}
			}
		case *ssa.Parameter:
			c.axis[v] = true
			for _, s := range c.w.calls().callers[x.Parent()] {
				if s.Parent() != nil {
					if a := argFor(x, x.Parent(), s); a != nil {
						from(a)
					}
				}
			}
		}
	}
	type st struct {
		f *ssa.Function
		i ssa.Instruction
		v ssa.Value
	}
	var sts []st
	each := func(g func(f *ssa.Function, i ssa.Instruction)) {
		for _, f := range c.w.Funcs {
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					g(f, i)
				}
			}
		}
	}
	each(func(f *ssa.Function, i ssa.Instruction) {
		if s, ok := i.(*ssa.Store); ok {
			if fa, ok := s.Addr.(*ssa.FieldAddr); ok && c.axisField(fa) {
				from(s.Val)
			}
		}
	})
	each(func(f *ssa.Function, i ssa.Instruction) {
		s, ok := i.(*ssa.Store)
		if !ok {
			return
		}
		switch a := s.Addr.(type) {
		case *ssa.FieldAddr:
			if fieldKey(a) == c31image+".Pixels" {
				sts = append(sts, st{f, i, s.Val})
			}
		case *ssa.IndexAddr:
			if c.axisLike(a.X) {
				sts = append(sts, st{f, i, s.Val})
			}
		}
	})
	for _, s := range sts {
		q := c.p.lin(s.v).add(constPoly(1), -1)
		c.leaf = func(v ssa.Value) bool {
			return c.p.ge0(s.i.Block(), c.p.lin(v).add(constPoly(1), -1)) == vProved
		}
		pos := c.positive(s.v, map[ssa.Value]bool{})
		c.leaf = nil
		if pos {
			c.r.ob("axes", "%s: %s sets a size which follows from sizes of axes", c.w.ipos(s.i), fname(s.f))
			continue
		}
		switch c.p.ge0(s.i.Block(), q) {
		case vProved:
			c.r.ob("axes", "%s: %s sets a size of at least one", c.w.ipos(s.i), fname(s.f))
		case vRefuted:
			c.r.bad("axes", fname(s.f), c.w.ipos(s.i), "sets an axis of an image to a size which can be less than one, so there is nothing to work with")
		default:
			if k, ok := q.konst(); ok && k < 0 {
				c.r.bad("axes", fname(s.f), c.w.ipos(s.i), "sets an axis of an image to %g pixels, so there is nothing to work with", k+1)
				continue
			}
			c.r.undecided("%s: %s sets an axis or the number of pixels to a value which is not known to be at least one", c.w.ipos(s.i), fname(s.f))
		}
	}
}

// ---- accesses

// constants, or a length or part of it, plus a constant
func (c *c31) relative(v ssa.Value) bool {
	if v == nil {
		return true
	}
	switch x := stripConv(v).(type) {
	case *ssa.Const:
		return true
	case *ssa.Call:
		return calleeName(&x.Call) == "builtin.len"
	case *ssa.BinOp:
		switch x.Op {
		case token.ADD, token.SUB, token.QUO, token.SHR, token.MUL:
			return c.relative(x.X) && c.relative(x.Y)
		}
	}
	return false
}

func (c *c31) access(b *ssa.BasicBlock, i ssa.Instruction, x, lo, hi ssa.Value, elem bool) {
	if _, ok := x.Type().Underlying().(*types.Slice); !ok || !c.relative(hi) {
		return
	}
	if elem {
		c.afterLoops(b, i, x, lo)
	}
	if !c.relative(lo) {
		return
	}
	L := c.p.lenOf(x)
	var goal []poly
	what := ""
	if elem {
		q := c.p.lin(lo)
		goal = []poly{q, L.add(q, -1).add(constPoly(1), -1)}
		what = "element " + c.p.show(q)
	} else {
		bot := poly{}
		if lo != nil {
			bot = c.p.lin(lo)
			goal = append(goal, bot)
			what = "from " + c.p.show(bot)
		}
		top := L
		if hi != nil {
			top = c.p.lin(hi)
			goal = append(goal, top)
			what += " to " + c.p.show(top)
		}
		goal = append(goal, top.add(bot, -1))
		what = "elements " + strings.TrimSpace(what)
	}
	f := b.Parent()
	if c.all(b, goal, nil) {
		c.r.ob("access", "%s: %s accesses %s, which exists", c.w.ipos(i), fname(f), what)
		return
	}
	for n := int64(1); n <= 9; n++ {
		if c.all(b, goal, []poly{L.add(constPoly(float64(n)), -1)}) {
			c.queue = append(c.queue, c31need{b, x, n, i, "access", fmt.Sprintf("%s accesses %s", fname(f), what), 0})
			return
		}
	}
	c.r.undecided("%s: %s accesses %s", c.w.ipos(i), fname(f), what)
}

// what holds when a loop ends before its first round; also what its variables start with
func (c *c31) noRounds(l *loop, pre *ssa.BasicBlock, k int) (cs constraints, sub func(q poly) poly, possible bool) {
	sub = func(q poly) poly {
		for _, n := range c.p.atomsOf(q) {
			if a := c.p.atoms[n]; a != nil {
				if phi, ok := a.v.(*ssa.Phi); ok && phi.Block() == l.head {
					if a.len {
						q = substPoly(q, n, c.p.lenOf(phi.Edges[k]))
					} else {
						q = substPoly(q, n, c.p.lin(phi.Edges[k]))
					}
				}
			}
		}
		return q
	}
	cs = c.p.facts(pre, 0).plus(c.p.edgeFacts(pre, l.head, 0))
	iff, ok := l.head.Instrs[len(l.head.Instrs)-1].(*ssa.If)
	if !ok || l.body[l.head.Succs[0]] == l.body[l.head.Succs[1]] {
		return cs, sub, false
	}
	out := c.p.cond(iff.Cond, !l.body[l.head.Succs[0]], 0)
	for _, q := range out.ge {
		cs.ge = append(cs.ge, sub(q))
	}
	for _, q := range out.ne {
		cs.ne = append(cs.ne, sub(q))
	}
	return cs, sub, !unsat(c.p.close(cs, constPoly(-1)))
}

// an access after a loop at the position the loop ended with: it exists also if there was no round
func (c *c31) afterLoops(b *ssa.BasicBlock, i ssa.Instruction, x, idx ssa.Value) {
	phi, ok := stripConv(idx).(*ssa.Phi)
	if !ok || !isInt(phi.Type()) {
		return
	}
	l := loopOf(phi.Block())
	if l == nil || l.head != phi.Block() || l.body[b] {
		return
	}
	if y, ok := x.(ssa.Instruction); ok && !y.Block().Dominates(l.head) {
		return
	}
	L := c.p.lenOf(x)
	for k, pre := range l.head.Preds {
		if l.body[pre] {
			continue
		}
		cs, sub, possible := c.noRounds(l, pre, k)
		if !possible {
			continue
		}
		q := sub(c.p.lin(phi))
		goal := sub(L).add(q, -1).add(constPoly(1), -1)
		ok := func(n int64) bool {
			c.p.steps = 0
			e := constraints{append([]poly(nil), cs.ge...), cs.ne}
			if n > 0 {
				e.ge = append(e.ge, L.add(constPoly(float64(n)), -1))
			}
			return c.p.decide(pre, e, goal, 0, nil) == vProved
		}
		if ok(0) {
			c.r.ob("access", "%s: %s accesses the element at which a loop ended, which exists if it ends at once", c.w.ipos(i), fname(b.Parent()))
			continue
		}
		for n := int64(1); n <= 9; n++ {
			if ok(n) {
				c.queue = append(c.queue, c31need{pre, x, n, i, "access", fmt.Sprintf("%s accesses the element at which a loop ended", fname(b.Parent())), 0})
				break
			}
		}
	}
}

func (c *c31) all(b *ssa.BasicBlock, goal []poly, extra []poly) bool {
	for _, q := range goal {
		if c.prove(b, nil, q, extra) != vProved {
			return false
		}
	}
	return true
}

func (c *c31) prove(b, to *ssa.BasicBlock, q poly, extra []poly) verdict {
	c.p.steps = 0
	cs := c.p.facts(b, 0)
	if to != nil {
		cs = cs.plus(c.p.edgeFacts(b, to, 0))
	}
	cs.ge = append(cs.ge, extra...)
	return c.p.decide(b, cs, q, 0, nil)
}

// ---- requirements

func (c *c31) settle(n c31need) {
	f := n.b.Parent()
	switch c.need(n.b, nil, n.x, n.n, nil, 0, n) {
	case c31ok:
		c.r.ob(n.rule, "%s: %s", c.w.ipos(n.at), n.text())
	case c31bad:
		c.r.bad(n.rule, fname(f)+"|"+n.what, c.w.ipos(n.at), "%s, but there may be fewer", n.text())
	default:
		c.r.undecided("%s: %s", c.w.ipos(n.at), n.text())
	}
}

func (n c31need) text() string {
	s := "s"
	if n.n == 1 {
		s = ""
	}
	if n.hop == 0 {
		return fmt.Sprintf("%s, which needs %d element%s", n.what, n.n, s)
	}
	return fmt.Sprintf("%s hands on a slice which needs %d element%s, as %s", fname(n.b.Parent()), n.n, s, n.what)
}

// x has at least n elements at the end of b, or on the way from there to another block
func (c *c31) need(b, to *ssa.BasicBlock, x ssa.Value, n int64, hyp []poly, d int, from c31need) c31res {
	q := c.p.lenOf(x).add(constPoly(float64(n)), -1)
	v := c.prove(b, to, q, hyp)
	if v == vProved {
		return c31ok
	}
	if d > 6 {
		return c31open
	}
	worst := func(a, b c31res) c31res {
		if a == c31bad || b == c31bad {
			return c31bad
		}
		if a == c31open || b == c31open {
			return c31open
		}
		return c31ok
	}
	x = c.p.canon(x)
	switch y := x.(type) {
	case *ssa.Parameter:
		set := nonNilHere(y, b) || to != nil && nonNilEdge(y, b, to)
		return c.arg(y, n, set, from)
	case *ssa.Phi:
		l := loopOf(y.Block())
		if l != nil && l.head == y.Block() {
			hyp = append(append([]poly(nil), hyp...), q)
		}
		res := c31ok
		for k, pr := range y.Block().Preds {
			one := c.need(pr, y.Block(), y.Edges[k], n, hyp, d+1, from)
			if one == c31bad && l != nil && l.head == y.Block() && !l.body[pr] {
				if _, _, ok := c.noRounds(l, pr, k); !ok {
					one = c31open // some rounds are certain
				}
			}
			res = worst(res, one)
		}
		return res
	case *ssa.Slice:
		if _, ok := y.X.Type().Underlying().(*types.Slice); ok && y.Low == nil && y.High == nil {
			return c.need(b, to, y.X, n, hyp, d+1, from)
		}
	case *ssa.ChangeType:
		return c.need(b, to, y.X, n, hyp, d+1, from)
	case *ssa.UnOp:
		if fa, ok := y.X.(*ssa.FieldAddr); ok && y.Op == token.MUL {
			k := fieldKey(fa)
			if s := storedBefore(y, fa); s != nil {
				if res := c.need(b, to, s.Val, n, hyp, d+1, from); res == c31ok {
					return res
				}
			}
			if m := c.least[k]; m > 0 && n > m {
				if v == vRefuted {
					return c31bad
				}
				return c31open
			}
			if c.fields[k] < n && from.hop < 8 {
				if !strings.HasPrefix(k, Mod) {
					return c31open
				}
				c.fields[k] = n
				c.stores(k, n, from.what, from.hop+1)
			}
			return c31ok
		}
	case *ssa.Call, *ssa.Extract:
		cl, k := resultOf(x)
		if cl == nil {
			break
		}
		if calleeName(&cl.Call) == "builtin.append" {
			break
		}
		t := cl.Call.StaticCallee()
		if t == nil || len(t.Blocks) == 0 || !c.w.inMod[t] {
			return c31open
		}
		res := c31ok
		for _, rb := range t.Blocks {
			rt, ok := rb.Instrs[len(rb.Instrs)-1].(*ssa.Return)
			if !ok || mayFail(rt) || rb == t.Recover {
				continue
			}
			res = worst(res, c.need(rb, nil, retVal(rt, k), n, nil, d+1, from))
		}
		if res == c31bad {
			for _, a := range cl.Call.Args {
				if k, ok := a.(*ssa.Const); ok && k.Value == nil {
					return c31open // what it does with this constant may rule it out
				}
			}
		}
		return res
	}
	// as long as another slice, up to a constant
	if as := c.p.atomsOf(q); len(as) == 1 && q[as[0]] == 1 && len(q) <= 2 {
		if a := c.p.atoms[as[0]]; a.len && c.p.canon(a.v) != x {
			if m := -int64(q[""]); m > 0 {
				if _, ok := a.v.(*ssa.Phi); !ok || to == nil {
					return c.need(b, to, a.v, m, hyp, d+1, from)
				}
			}
		}
	}
	// long enough if a parameter is
	for _, pr := range b.Parent().Params {
		if _, ok := pr.Type().Underlying().(*types.Slice); !ok {
			continue
		}
		L := c.p.lenOf(pr)
		for _, m := range []int64{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 16, 20, 32, 50, 64, 100, 128, 200, 256, 1000} {
			if c.prove(b, to, q, append([]poly{L.add(constPoly(float64(m)), -1)}, hyp...)) == vProved {
				return c.arg(pr, m, nonNilHere(pr, b), from)
			}
		}
	}
	if v == vRefuted && len(hyp) == 0 {
		return c31bad
	}
	if k, ok := q.konst(); ok && k < 0 {
		return c31bad
	}
	return c31open
}

// an earlier store to the same field in the same block, with nothing in between which could change it
func storedBefore(u *ssa.UnOp, fa *ssa.FieldAddr) *ssa.Store {
	var last *ssa.Store
	for _, i := range u.Block().Instrs {
		if i == ssa.Instruction(u) {
			return last
		}
		switch x := i.(type) {
		case *ssa.Store:
			if a, ok := x.Addr.(*ssa.FieldAddr); ok && fieldKey(a) == fieldKey(fa) {
				last = nil
				if a.X == fa.X {
					last = x
				}
			}
		case ssa.CallInstruction:
			if b, ok := x.Common().Value.(*ssa.Builtin); !ok || b.Name() != "len" && b.Name() != "cap" {
				last = nil
			}
		}
	}
	return nil
}

// does the way from b to to imply that v is not nil
func nonNilEdge(v ssa.Value, b, to *ssa.BasicBlock) bool {
	for _, u := range condUses(v) {
		for _, iff := range u.ifs {
			k := 0
			if u.op == token.EQL {
				k = 1
			}
			if iff.Block() == b && b.Succs[k] == to && b.Succs[1-k] != to {
				return true
			}
		}
	}
	return false
}

// set: nil is ruled out where it matters
func (c *c31) arg(pr *ssa.Parameter, n int64, set bool, from c31need) c31res {
	if c.args[pr] >= n {
		return c31ok
	}
	f := pr.Parent()
	if from.hop >= 8 || len(c.w.calls().callers[f]) == 0 {
		return c31open
	}
	c.args[pr] = n
	for _, s := range c.w.calls().callers[f] {
		if s.Parent() == nil || s.Parent().Synthetic != "" {
			continue
		}
		if a := argFor(pr, f, s); a != nil {
			if k, ok := a.(*ssa.Const); ok && k.Value == nil && set {
				continue
			}
			c.queue = append(c.queue, c31need{s.Block(), a, n, s, "access", from.what, from.hop + 1})
		}
	}
	return c31ok
}

// the slices stored to a field have n elements
func (c *c31) stores(key string, n int64, what string, hop int) {
	var sts []*ssa.Store
	for _, f := range c.w.Funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if s, ok := i.(*ssa.Store); ok {
					if fa, ok := s.Addr.(*ssa.FieldAddr); ok && fieldKey(fa) == key {
						if k, ok := s.Val.(*ssa.Const); ok && k.Value == nil {
							continue // not there, or given up
						}
						sts = append(sts, s)
					}
				}
			}
		}
	}
	sort.Slice(sts, func(i, j int) bool { return sts[i].Pos() < sts[j].Pos() })
	for _, s := range sts {
		c.queue = append(c.queue, c31need{s.Block(), s.Val, n, s, "field", what, hop + 1})
	}
}
