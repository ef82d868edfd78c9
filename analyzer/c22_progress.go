package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C22: loops make progress.
//
// Every natural loop of the module needs a reason to end: it iterates over a collection; an integer measure that a condition
// evaluated in every iteration bounds moves towards that bound on every path through the body; or an index only moves in one
// direction and is used to access an array. A loop with a path through its body on which nothing changes that its
// conditions to leave depend on, other than random numbers, runs forever for some input.

func init() {
	register("C22", "loop progress: for every natural loop a ranking argument (iteration over a collection; linear measure decreasing on every path through the body, by linear arithmetic; monotone index into an array), and detection of paths through a loop body that leave everything its exit conditions depend on unchanged (SSA)", runC22)
}

type c22 struct {
	asking map[*loop]bool // inner loops skips is looking at
	w      *World
	r      *Report
	p      *prover
	e      *effects
	sums   map[*loop]constraints
	outer  *loop // loop in which inner loops are only passed without an iteration if that is certain
}

func runC22(w *World, r *Report) {
	r.rule("counted", "loops over a collection or with a measure moving towards the bound tested in every iteration", 150)
	r.rule("indexed", "loops with an index that moves in one direction on every path and is used to access an array in every iteration", 0)
	c := &c22{w: w, r: r, p: newProver(w, nil), e: w.effects(), sums: map[*loop]constraints{}}
	for _, f := range w.Funcs {
		ls := append([]*loop(nil), loopsOf(f)...)
		sort.Slice(ls, func(i, j int) bool { return ls[i].head.Index < ls[j].head.Index })
		for _, l := range ls {
			c.loop(f, l)
		}
	}
}

func (c *c22) where(l *loop) string {
	for _, b := range append([]*ssa.BasicBlock{l.head}, l.head.Succs...) {
		for _, i := range b.Instrs {
			if i.Pos().IsValid() {
				return c.w.ipos(i)
			}
		}
	}
	return c.w.pos(l.head.Parent().Pos())
}

func (c *c22) loop(f *ssa.Function, l *loop) {
	if why := c.iterates(l); why != "" {
		c.r.ob("counted", "%s: %s", c.where(l), why)
		return
	}
	if why := c.measured(l); why != "" {
		c.r.ob("counted", "%s: %s", c.where(l), why)
		return
	}
	if why := c.away(l); why != "" {
		c.r.bad("counted", fname(f)+"|away", c.where(l), "%s", why)
		return
	}
	if why := c.indexed(l); why != "" {
		c.r.ob("indexed", "%s: %s", c.where(l), why)
		return
	}
	if why := c.reads(l); why != "" {
		c.r.ob("counted", "%s: %s", c.where(l), why)
		return
	}
	if why := c.linked(l); why != "" {
		c.r.ob("counted", "%s: %s", c.where(l), why)
		return
	}
	if why, ok := c.floats(l); ok {
		c.r.ob("counted", "%s: %s", c.where(l), why)
		return
	} else if why != "" {
		c.r.bad("counted", fname(f)+"|float", c.where(l), "a loop in %s %s: when it is large compared to the step, adding the step no longer changes the counter and the loop never ends", fname(f), why)
		return
	}
	if why := c.worklist(f, l); why != "" {
		if why != "-" {
			c.r.ob("counted", "%s: %s", c.where(l), why)
		}
		return
	}
	if why := c.zeroStep(l); why != "" {
		c.r.bad("counted", fname(f)+"|step", c.where(l), "%s", why)
		return
	}
	if why := c.stuck(l); why != "" {
		c.r.bad("counted", fname(f)+"|stuck", c.where(l), "%s", why)
		return
	}
	c.r.undecided("%s: loop in %s", c.where(l), fname(f))
}

// the measure of the loop changes by a value which does not change within the loop, and nothing shows to be at least one
func (c *c22) zeroStep(l *loop) string {
	qs, _ := c.bounds(l)
	for _, q := range qs {
		if len(c.p.atomsOf(q)) == 0 {
			continue
		}
		for _, la := range l.latches {
			n, known := c.next(l, q, la)
			if !known {
				continue
			}
			g := q.add(n, -1)
			ns := c.p.atomsOf(g)
			invariant, given := len(ns) == 1 && g[ns[0]] != 0 && len(g) == 1, len(ns) > 0 && len(l.exits()) == 1
			for _, n := range ns {
				v := c.p.atoms[n].v
				if _, isPhi := v.(*ssa.Phi); isPhi || variesIn(v, l, map[ssa.Value]bool{}) {
					invariant = false
				}
				if bo, ok := v.(*ssa.BinOp); ok && bo.Op == token.QUO {
					invariant = false
				}
				given = given && !c.p.atoms[n].len && c.fromLibrary(l, v, map[ssa.Value]bool{})
			}
			if !invariant && !given {
				continue
			}
			if c.proved(l, la, g.add(constPoly(1), -1)) {
				continue
			}
			return fmt.Sprintf("a loop in %s continues while %s >= 0, which changes by %s in every iteration, and nothing shows that this is at least 1", fname(l.head.Parent()), c.p.show(q), c.p.show(g))
		}
	}
	return ""
}

// a condition to stay in the loop, on variables of the loop, that remains true once it is
func (c *c22) away(l *loop) string {
	for _, e := range l.exits() {
		iff, ok := e.from.Instrs[len(e.from.Instrs)-1].(*ssa.If)
		if !ok || !everyIteration(l, e.from) {
			continue
		}
		cs := c.p.cond(iff.Cond, e.k == 1, 0)
		if len(cs.ge) == 0 && len(cs.ne) == 1 {
			for _, q := range []poly{cs.ne[0], poly{}.add(cs.ne[0], -1)} {
				up := len(l.latches) > 0
				for _, la := range l.latches {
					n, known := c.next(l, q, la)
					if !known {
						up = false
						break
					}
					k, isK := n.add(q, -1).konst()
					up = up && isK && k > 0
				}
				if up && c.startsAbove(l, q.add(constPoly(1), -1)) {
					return fmt.Sprintf("a loop in %s continues while %s is not 0, which starts above and only increases", fname(l.head.Parent()), c.p.show(q))
				}
			}
			continue
		}
		if len(cs.ge) != 1 || len(cs.ne) > 0 {
			continue
		}
		if v, _ := stripNot(iff.Cond); v != nil {
			c.p.steps = 0
			known := c.p.facts(e.from, 0).plus(c.inner(l))
			if len(c.p.atomsOf(cs.ge[0])) > 0 && c.p.decide(e.from, known, cs.ge[0], 0, nil) == vProved {
				return fmt.Sprintf("a loop in %s continues while %s >= 0, which is always the case", fname(l.head.Parent()), c.p.show(cs.ge[0]))
			}
		}
		q := cs.ge[0]
		varies := false
		for _, n := range c.p.atomsOf(q) {
			ph, ok := c.p.atoms[n].v.(*ssa.Phi)
			varies = varies || ok && ph.Block() == l.head
		}
		all := varies
		for _, la := range l.latches {
			n, known := c.next(l, q, la)
			if !known {
				all = false
				break
			}
			d := n.add(q, -1)
			if k, isK := d.konst(); isK {
				all = all && k >= 0
				continue
			}
			all = all && c.proved(l, la, d)
		}
		if all {
			return fmt.Sprintf("a loop in %s continues while %s >= 0, which never decreases", fname(l.head.Parent()), c.p.show(q))
		}
	}
	return ""
}

// v is what a function outside the module returns for variables of the loop, or a constant instead
func (c *c22) fromLibrary(l *loop, v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Const:
		return true
	case *ssa.Phi:
		if x.Block() == l.head || !l.body[x.Block()] {
			return false
		}
		for _, e := range x.Edges {
			if !c.fromLibrary(l, e, seen) {
				return false
			}
		}
		return true
	case *ssa.Convert:
		return isInt(x.X.Type()) && c.fromLibrary(l, x.X, seen)
	case *ssa.BinOp:
		return (x.Op == token.ADD || x.Op == token.SUB) && c.fromLibrary(l, x.X, seen) && c.fromLibrary(l, x.Y, seen)
	case *ssa.Extract:
		return c.fromLibrary(l, x.Tuple, seen)
	case *ssa.Call:
		t := x.Call.StaticCallee()
		return l.body[x.Block()] && t != nil && !c.w.inMod[t]
	}
	return false
}

// repeats while a pass over the data counts changes: every change replaces a value that is not a number by one that is
func (c *c22) worklist(f *ssa.Function, l *loop) string {
	for _, e := range l.exits() {
		iff, ok := e.from.Instrs[len(e.from.Instrs)-1].(*ssa.If)
		if !ok || !everyIteration(l, e.from) {
			continue
		}
		cs := c.p.cond(iff.Cond, e.k == 1, 0)
		for _, q := range append(append([]poly{}, cs.ge...), cs.ne...) {
			ns := c.p.atomsOf(q)
			if len(ns) != 1 {
				continue
			}
			v := c.p.atoms[ns[0]].v
			if ph, ok := v.(*ssa.Phi); ok && ph.Block() == l.head && !c.p.atoms[ns[0]].len {
				for k, pr := range l.head.Preds {
					if l.body[pr] {
						v = ph.Edges[k]
					}
				}
			}
			cl, k := v, 0
			if ex, ok := v.(*ssa.Extract); ok {
				cl, k = ex.Tuple, ex.Index
			}
			call, ok := cl.(*ssa.Call)
			if !ok || !l.body[call.Block()] {
				continue
			}
			g := call.Call.StaticCallee()
			if g == nil || !c.w.inMod[g] || len(g.Blocks) == 0 {
				continue
			}
			if why := c.consumes(g, k); why != "" {
				return why
			}
		}
	}
	return ""
}

// does every increment of result k of g come with the replacement of a NaN
func (c *c22) consumes(g *ssa.Function, k int) string {
	seen := map[ssa.Value]bool{}
	var incs []*ssa.BinOp
	simple := true
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Const:
			simple = simple && x.Value != nil && x.Int64() == 0
		case *ssa.Phi:
			for _, e := range x.Edges {
				walk(e)
			}
		case *ssa.BinOp:
			if n, ok := constInt(x.Y); ok && x.Op == token.ADD && n == 1 {
				incs = append(incs, x)
				walk(x.X)
				return
			}
			simple = false
		default:
			simple = false
		}
	}
	for _, b := range g.Blocks {
		if b == g.Recover {
			continue
		}
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && k < len(ret.Results) {
			if !isInt(ret.Results[k].Type()) {
				return ""
			}
			walk(ret.Results[k])
		}
	}
	if !simple || len(incs) == 0 {
		return ""
	}
	for _, inc := range incs {
		var st *ssa.Store
		for _, b := range g.Blocks {
			for _, i := range b.Instrs {
				s, ok := i.(*ssa.Store)
				if !ok || !isFloatT(s.Val.Type()) {
					continue
				}
				ia, ok := s.Addr.(*ssa.IndexAddr)
				if !ok {
					continue
				}
				if _, local := stripSlice(ia.X).(*ssa.Alloc); local {
					continue
				}
				if s.Block() != inc.Block() {
					if s.Block().Dominates(inc.Block()) || inc.Block().Dominates(s.Block()) {
						continue
					}
					continue
				}
				st = s
			}
		}
		if st == nil {
			return ""
		}
		old, isNaN := false, false
		for d := inc.Block(); d != nil; d = d.Idom() {
			id := d.Idom()
			if id == nil {
				break
			}
			iff, ok := id.Instrs[len(id.Instrs)-1].(*ssa.If)
			if !ok || len(d.Preds) != 1 {
				continue
			}
			v, neg := stripNot(iff.Cond)
			holds := (id.Succs[0] == d) != neg
			x, is := nanTest(v)
			if x == nil {
				continue
			}
			if is == holds && sameCell(x, st.Addr) {
				old = true
			}
			if is != holds && floatConv(x) == floatConv(st.Val) {
				isNaN = true
			}
		}
		if !old {
			return ""
		}
		if !isNaN {
			c.r.bad("counted", fname(g)+"|repeat", c.w.ipos(inc), "%s counts a change also if the value which replaces one that is not a number is not a number either, and its passes are repeated while there are changes", fname(g))
			return "-"
		}
	}
	return fmt.Sprintf("repeats while %s replaces values which are not a number by numbers", fname(g))
}

func stripSlice(v ssa.Value) ssa.Value {
	for {
		if s, ok := v.(*ssa.Slice); ok {
			v = s.X
			continue
		}
		return v
	}
}

// v tests if the value returned is (true) or is not NaN
func nanTest(v ssa.Value) (ssa.Value, bool) {
	switch x := v.(type) {
	case *ssa.Call:
		if calleeName(&x.Call) == "math.IsNaN" {
			return x.Call.Args[0], true
		}
	case *ssa.BinOp:
		if floatConv(x.X) == floatConv(x.Y) && isFloatT(x.X.Type()) {
			switch x.Op {
			case token.NEQ:
				return x.X, true
			case token.EQL:
				return x.X, false
			}
		}
	}
	return nil, false
}

func sameCell(v ssa.Value, addr ssa.Value) bool {
	u, ok := floatConv(v).(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return false
	}
	a, ok1 := u.X.(*ssa.IndexAddr)
	b, ok2 := addr.(*ssa.IndexAddr)
	return ok1 && ok2 && a.X == b.X && a.Index == b.Index
}

type c22class int

const (
	c22same    c22class = iota // the same in every iteration
	c22random                  // may be the same again: random numbers, and data they select
	c22nan                     // not a number once an operand is not
	c22changes                 // may change
)

// How does a value in an iteration along the given path relate to the iteration before. assumeNaN: floating point variables of
// the loop are not a number
func (c *c22) class(l *loop, v ssa.Value, path []*ssa.BasicBlock, seen map[ssa.Value]bool) c22class {
	if seen[v] {
		return c22same
	}
	seen[v] = true
	i, ok := v.(ssa.Instruction)
	if !ok || i.Block() == nil || !l.body[i.Block()] {
		return c22same
	}
	join := func(vs ...ssa.Value) (r c22class) {
		nan := false
		for _, x := range vs {
			k := c.class(l, x, path, seen)
			nan = nan || k == c22nan && isFloatT(x.Type())
			if k > r {
				r = k
			}
		}
		if nan { // whatever it is combined with
			return c22nan
		}
		return
	}
	switch x := v.(type) {
	case *ssa.Phi:
		if il := loopOf(x.Block()); il != nil && il.head == x.Block() && il.head != l.head && !c.skips(l, il, path) {
			return c22changes
		}
		if x.Block() == l.head {
			if isInt(x.Type()) {
				if e := c.edge(l, x, false, path); e != nil && len(e.add(c.p.lin(x), -1)) == 0 {
					return c22same
				}
			}
			for k, pr := range l.head.Preds {
				if pr == path[len(path)-1] {
					e := c.resolve(x.Edges[k], path)
					if e == ssa.Value(x) {
						return c22same
					}
					switch c.class(l, e, path, seen) {
					case c22random:
						return c22random
					}
				}
			}
			if isFloatT(x.Type()) {
				return c22nan
			}
			return c22changes
		}
		if r := c.resolve(x, path); r != ssa.Value(x) {
			return join(r)
		}
		return c22changes
	case *ssa.BinOp:
		return join(x.X, x.Y)
	case *ssa.Convert:
		if isFloatT(x.X.Type()) && !isFloatT(x.Type()) && join(x.X) == c22nan {
			return c22changes
		}
		return join(x.X)
	case *ssa.ChangeType:
		return join(x.X)
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			if c.storedIn(l, x) {
				return c22changes
			}
			return join(x.X)
		case token.ARROW:
			return c22changes
		}
		return join(x.X)
	case *ssa.IndexAddr:
		return join(x.X, x.Index)
	case *ssa.FieldAddr:
		return join(x.X)
	case *ssa.Field:
		return join(x.X)
	case *ssa.Index:
		return join(x.X, x.Index)
	case *ssa.Slice:
		r := join(x.X)
		for _, y := range []ssa.Value{x.Low, x.High} {
			if y != nil {
				if k := join(y); k > r {
					r = k
				}
			}
		}
		return r
	case *ssa.Extract:
		if _, isCall := x.Tuple.(*ssa.Call); !isCall || !isFloatT(x.Type()) {
			return join(x.Tuple)
		}
		if r := join(x.Tuple); r < c22nan {
			return r
		}
	case *ssa.Call:
		n := calleeName(&x.Call)
		switch {
		case drawsRandom(n):
			return c22random
		case strings.HasPrefix(n, "math.") || n == "builtin.len" || n == "builtin.cap":
			return join(x.Call.Args...)
		}
		if t := x.Call.StaticCallee(); t != nil && c.w.inMod[t] && len(c.e.callWrites(x)) == 0 {
			if r := join(x.Call.Args...); r < c22nan {
				return r
			}
		}
		if isFloatT(x.Type()) {
			return c22nan
		}
	}
	if ex, ok := v.(*ssa.Extract); ok && isFloatT(ex.Type()) {
		return c22nan
	}
	return c22changes
}

// is the inner loop certainly left at once on the path, as its condition is false for values that are not a number
func (c *c22) skips(l, il *loop, path []*ssa.BasicBlock) bool {
	if c.asking[il] {
		return false
	}
	if c.asking == nil {
		c.asking = map[*loop]bool{}
	}
	c.asking[il] = true
	defer delete(c.asking, il)
	for _, e := range il.exits() {
		on := false
		for k, b := range path {
			on = on || b == e.from && k+1 < len(path) && path[k+1] == e.from.Succs[e.k]
		}
		if !on {
			continue
		}
		iff, ok := e.from.Instrs[len(e.from.Instrs)-1].(*ssa.If)
		if !ok || e.from != il.head {
			return false
		}
		v, neg := stripNot(iff.Cond)
		bo, ok := v.(*ssa.BinOp)
		if !ok {
			return false
		}
		if isFloatT(bo.X.Type()) {
			holds := (e.k == 0) != neg
			nan := func(x ssa.Value) bool { return c.class(l, x, path, map[ssa.Value]bool{}) == c22nan }
			return (nan(bo.X) || nan(bo.Y)) && holds == (bo.Op == token.NEQ)
		}
		cs := c.p.cond(bo, (e.k == 0) != neg, 0)
		o := c.outer
		c.outer = nil
		defer func() { c.outer = o }()
		for _, q := range append(append([]poly{}, cs.ge...), cs.ne...) {
			if _, ok := c.along(q, path).konst(); !ok {
				return false
			}
		}
		return len(cs.ge)+len(cs.ne) > 0
	}
	return false
}

// the value merged along the path
func (c *c22) resolve(v ssa.Value, path []*ssa.BasicBlock) ssa.Value {
	for d := 0; d < 20; d++ {
		ph, ok := v.(*ssa.Phi)
		if !ok {
			return v
		}
		found := false
		for k := 1; k < len(path); k++ {
			if path[k] != ph.Block() {
				continue
			}
			for i, pr := range path[k].Preds {
				if pr == path[k-1] {
					v, found = ph.Edges[i], true
				}
			}
		}
		if !found {
			return v
		}
	}
	return v
}

// a path through the body after which all that it depends on is as before
func (c *c22) stuck(l *loop) string {
	for _, path := range c.paths(l, true) {
		if why := c.stuckOn(l, path); why != "" {
			return why
		}
	}
	return ""
}

func (c *c22) stuckOn(l *loop, path []*ssa.BasicBlock) string {
	nan, random := false, false
	c.outer = l
	defer func() { c.outer = nil }()
	var lines []string
	for k, b := range path {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		next := l.head
		if k+1 < len(path) {
			next = path[k+1]
		}
		if b.Succs[0] == b.Succs[1] {
			continue
		}
		taken := b.Succs[0] == next
		inner := false // conditions of inner loops do not matter, the values they calculate are taken as changing
		if il := loopOf(b); il != nil && il.head != l.head && l.body[il.head] {
			if bo, ok := iff.Cond.(*ssa.BinOp); !ok || !isInt(bo.X.Type()) {
				continue
			}
			inner = true
		}
		v, neg := stripNot(iff.Cond)
		holds := taken != neg
		v = c.resolve(v, path)
		if k, ok := v.(*ssa.Const); ok && k.Value != nil {
			if (k.Value.String() == "true") != holds {
				return "" // not feasible
			}
			continue
		}
		// is a constant along this path
		if bo, ok := v.(*ssa.BinOp); ok && isInt(bo.X.Type()) {
			cs := c.p.cond(bo, holds, 0)
			for _, q := range cs.ge {
				if k, ok := c.along(q, path).konst(); ok && k < 0 {
					return ""
				}
			}
			for _, q := range cs.ne {
				if k, ok := c.along(q, path).konst(); ok && k == 0 {
					return ""
				}
			}
			certain := len(cs.ge)+len(cs.ne) > 0
			for _, q := range append(append([]poly{}, cs.ge...), cs.ne...) {
				if _, ok := c.along(q, path).konst(); !ok {
					certain = false
				}
			}
			if certain {
				continue
			}
			if inner {
				continue
			}
			if c.persists(l, cs, path) {
				lines = append(lines, c.w.ipos(iff))
				continue
			}
		}
		switch c.class(l, v, path, map[ssa.Value]bool{}) {
		case c22same:
		case c22random:
			random = true
		case c22nan:
			bo, ok := v.(*ssa.BinOp)
			if !ok || !isFloatT(bo.X.Type()) || holds != (bo.Op == token.NEQ) {
				return ""
			}
			nan = true
		default:
			return ""
		}
		lines = append(lines, c.w.ipos(iff))
	}
	if len(lines) == 0 && len(l.exits()) == 0 {
		return "" // meant to run until the program ends
	}
	if c.p.satisfiableOn(path) == false {
		return ""
	}
	f := fname(l.head.Parent())
	switch {
	case nan:
		return fmt.Sprintf("a loop in %s never ends once the values it calculates are not a number: the conditions at %s are false for them, and nothing else changes", f, strings.Join(lines, ", "))
	case random:
		return fmt.Sprintf("a loop in %s repeats drawing random numbers until they are suitable, which never ends if none is (conditions at %s)", f, strings.Join(lines, ", "))
	}
	return fmt.Sprintf("a loop in %s never ends once an iteration takes the path with the conditions at %s: nothing they depend on changes", f, strings.Join(lines, ", "))
}

func (p *prover) satisfiableOn(path []*ssa.BasicBlock) bool {
	p.steps = 0
	return !unsat(p.close(p.facts(path[len(path)-1], 0), poly{}))
}

// do linear conditions hold again after an iteration along the path
func (c *c22) persists(l *loop, cs constraints, path []*ssa.BasicBlock) bool {
	after := func(q poly) (poly, bool) {
		q = c.along(q, path)
		res := q
		for _, n := range c.p.atomsOf(q) {
			a := c.p.atoms[n]
			ph, ok := a.v.(*ssa.Phi)
			if ok && ph.Block() == l.head {
				e := c.edge(l, ph, a.len, path)
				if e == nil {
					return nil, false
				}
				d := e.add(poly{n: 1}, -1)
				if _, isK := d.konst(); !isK {
					return nil, false
				}
				res = res.add(d, q[n])
				continue
			}
			if c.class(l, a.v, path, map[ssa.Value]bool{}) != c22same {
				return nil, false
			}
		}
		for m := range q {
			if strings.Contains(m, "*") {
				return nil, false
			}
		}
		return res.add(q, -1), true
	}
	if len(cs.ge)+len(cs.ne) == 0 {
		return false
	}
	for _, q := range cs.ge {
		d, ok := after(q)
		if !ok {
			return false
		}
		if k, isK := d.konst(); !isK || k < 0 {
			return false
		}
	}
	for _, q := range cs.ne {
		d, ok := after(q)
		if !ok {
			return false
		}
		k, isK := d.konst()
		if !isK || k < 0 && !c.startsAbove(l, poly{}.add(q, -1).add(constPoly(1), -1)) || k > 0 && !c.startsAbove(l, q.add(constPoly(1), -1)) {
			return false
		}
	}
	return true
}

// a loop over a map, string or channel
func (c *c22) iterates(l *loop) string {
	for b := range l.body {
		if !everyIteration(l, b) {
			continue
		}
		for _, i := range b.Instrs {
			switch x := i.(type) {
			case *ssa.Next:
				if c.leavesOn(l, x) {
					return "iterates over a map or string"
				}
			case *ssa.UnOp:
				if x.Op == token.ARROW && c.leavesOn(l, x) {
					return "receives until the channel is closed"
				}
			}
		}
	}
	return ""
}

// is the loop left when the first or last result of x is false
func (c *c22) leavesOn(l *loop, x ssa.Value) bool {
	for _, e := range l.exits() {
		iff, ok := e.from.Instrs[len(e.from.Instrs)-1].(*ssa.If)
		if !ok || !everyIteration(l, e.from) {
			continue
		}
		v, neg := stripNot(iff.Cond)
		if ex, ok := v.(*ssa.Extract); ok && ex.Tuple == x && (e.k == 1) != neg {
			if b, ok := ex.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
				return true
			}
		}
	}
	return false
}

// stay conditions evaluated in every iteration: q >= 0 while the loop continues
func (c *c22) bounds(l *loop) (qs []poly, at []*ssa.BasicBlock) {
	for _, e := range l.exits() {
		iff, ok := e.from.Instrs[len(e.from.Instrs)-1].(*ssa.If)
		if !ok || !everyIteration(l, e.from) {
			continue
		}
		stay := e.k == 1 // the condition holds while the loop continues
		cs := c.p.cond(iff.Cond, stay, 0)
		for _, q := range cs.ge {
			qs = append(qs, q)
			at = append(at, e.from)
		}
	}
	return
}

func (c *c22) latchFacts(l *loop, la *ssa.BasicBlock) constraints {
	return c.p.edgeFacts(la, l.head, 0).plus(c.inner(l))
}

// q with the values of the variables of the loop at the end of an iteration; false if q involves anything else that changes
func (c *c22) next(l *loop, q poly, la *ssa.BasicBlock) (poly, bool) {
	k := -1
	for i, p := range l.head.Preds {
		if p == la {
			k = i
		}
	}
	subst := map[string]poly{}
	for _, n := range c.p.atomsOf(q) {
		a := c.p.atoms[n]
		if ph, ok := a.v.(*ssa.Phi); ok && ph.Block() == l.head {
			if a.len {
				subst[n] = c.p.lenOf(ph.Edges[k])
			} else {
				subst[n] = c.p.lin(ph.Edges[k])
			}
			continue
		}
		if i, ok := a.v.(ssa.Instruction); ok && l.body[i.Block()] && i.Parent() == l.head.Parent() {
			if u, isU := a.v.(*ssa.UnOp); isU && u.Op == token.MUL {
				if !c.storedIn(l, u) {
					continue
				}
			}
			return nil, false
		}
	}
	// simultaneous substitution
	res := q
	tmp := map[string]string{}
	var ns []string
	for n := range subst {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	for i, n := range ns {
		t := fmt.Sprintf("#%d", i)
		tmp[t] = n
		res = substPoly(res, n, poly{t: 1})
	}
	for i, n := range ns {
		res = substPoly(res, fmt.Sprintf("#%d", i), subst[n])
	}
	return res, true
}

// can what u loads be changed within the loop
func (c *c22) storedIn(l *loop, u *ssa.UnOp) bool {
	if _, ok := c.p.loadKey(u); ok {
		return false
	}
	for b := range l.body {
		for _, i := range b.Instrs {
			switch x := i.(type) {
			case *ssa.Store:
				if types.Identical(x.Val.Type(), u.Type()) {
					return true
				}
			case *ssa.MapUpdate:
				if types.Identical(x.Value.Type(), u.Type()) {
					return true
				}
			case *ssa.Go, *ssa.Defer, *ssa.Send:
				return true
			case *ssa.Call:
				n := calleeName(&x.Call)
				if strings.HasPrefix(n, "math.") || drawsRandom(n) || strings.HasPrefix(n, "fmt.") || strings.HasPrefix(n, "builtin.") && n != "builtin.copy" {
					continue
				}
				if t := x.Call.StaticCallee(); t != nil && c.w.inMod[t] && len(c.e.callWrites(x)) == 0 {
					continue
				}
				return true
			}
		}
	}
	return false
}

// facts about loops within l, from what each path through their bodies does to their variables
func (c *c22) inner(l *loop) (cs constraints) {
	for _, x := range loopsOf(l.head.Parent()) {
		if x.head != l.head && l.body[x.head] {
			cs = cs.plus(c.summary(x))
		}
	}
	return
}

type c22path struct {
	blocks []*ssa.BasicBlock
}

// acyclic paths from the head of l to its latches; nil if there are too many or l contains other loops
func (c *c22) paths(l *loop, nested bool) [][]*ssa.BasicBlock {
	if !nested {
		for _, x := range loopsOf(l.head.Parent()) {
			if x.head != l.head && l.body[x.head] {
				return nil
			}
		}
	}
	var res [][]*ssa.BasicBlock
	over := false
	var walk func(path []*ssa.BasicBlock)
	walk = func(path []*ssa.BasicBlock) {
		if over {
			return
		}
		b := path[len(path)-1]
		for _, s := range b.Succs {
			if s == l.head {
				res = append(res, append([]*ssa.BasicBlock(nil), path...))
				over = len(res) > 200
				continue
			}
			if !l.body[s] {
				continue
			}
			cyc := false
			for _, o := range path {
				cyc = cyc || o == s
			}
			if !cyc {
				walk(append(path, s))
			}
		}
	}
	walk([]*ssa.BasicBlock{l.head})
	if over {
		return nil
	}
	return res
}

// substitute the values merged along a path
func (c *c22) along(q poly, path []*ssa.BasicBlock) poly {
	for k := len(path) - 1; k > 0; k-- {
		for _, n := range c.p.atomsOf(q) {
			a := c.p.atoms[n]
			ph, ok := a.v.(*ssa.Phi)
			if !ok || ph.Block() != path[k] {
				continue
			}
			if c.outer != nil {
				if il := loopOf(ph.Block()); il != nil && il.head == ph.Block() && il.head != c.outer.head && !c.skips(c.outer, il, path) {
					continue
				}
			}
			for i, pr := range path[k].Preds {
				if pr == path[k-1] {
					if a.len {
						q = substPoly(q, n, c.p.lenOf(ph.Edges[i]))
					} else {
						q = substPoly(q, n, c.p.lin(ph.Edges[i]))
					}
				}
			}
		}
	}
	return q
}

// the values of the variables of loop l at the end of a path through its body
func (c *c22) edge(l *loop, ph *ssa.Phi, isLen bool, path []*ssa.BasicBlock) poly {
	for i, pr := range l.head.Preds {
		if pr == path[len(path)-1] {
			if isLen {
				return c.along(c.p.lenOf(ph.Edges[i]), path)
			}
			return c.along(c.p.lin(ph.Edges[i]), path)
		}
	}
	return nil
}

type c22var struct {
	ph    *ssa.Phi
	isLen bool
	me    poly
	init  poly
	step  []float64
}

func (c *c22) summary(l *loop) (cs constraints) {
	if r, ok := c.sums[l]; ok {
		return r
	}
	c.sums[l] = cs
	paths := c.paths(l, false)
	pre := loopPre(l)
	if len(paths) == 0 || pre == nil {
		return
	}
	var vars []c22var
	for _, i := range l.head.Instrs {
		ph, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		v := c22var{ph: ph}
		var in ssa.Value
		for k, pr := range l.head.Preds {
			if pr == pre {
				in = ph.Edges[k]
			}
		}
		if isInt(ph.Type()) {
			v.me, v.init = c.p.lin(ph), c.p.lin(in)
		} else if _, ok := ph.Type().Underlying().(*types.Slice); ok {
			v.isLen = true
			v.me, v.init = c.p.lenOf(ph), c.p.lenOf(in)
		} else {
			continue
		}
		good := true
		for _, pa := range paths {
			e := c.edge(l, ph, v.isLen, pa)
			if e == nil {
				good = false
				break
			}
			k, isK := e.add(v.me, -1).konst()
			if !isK {
				good = false
				break
			}
			v.step = append(v.step, k)
		}
		if good {
			vars = append(vars, v)
		}
	}
	if len(vars) > 7 {
		vars = vars[:7]
	}
	// combinations of up to three variables that stay the same, or only grow
	coef := make([]int, len(vars))
	var try func(k, used int)
	try = func(k, used int) {
		if k == len(vars) {
			if used == 0 {
				return
			}
			lo, hi := 0.0, 0.0
			for j := range paths {
				d := 0.0
				for i, u := range coef {
					d += float64(u) * vars[i].step[j]
				}
				if d < lo {
					lo = d
				}
				if d > hi {
					hi = d
				}
			}
			q := poly{}
			for i, u := range coef {
				q = q.add(vars[i].me, float64(u)).add(vars[i].init, -float64(u))
			}
			if lo >= 0 {
				cs.ge = append(cs.ge, q)
			}
			if hi <= 0 {
				cs.ge = append(cs.ge, poly{}.add(q, -1))
			}
			return
		}
		for _, u := range []int{0, 1, -1} {
			if u != 0 && used >= 3 || used == 0 && u == -1 {
				continue
			}
			coef[k] = u
			n := used
			if u != 0 {
				n++
			}
			try(k+1, n)
		}
		coef[k] = 0
	}
	try(0, 0)
	c.sums[l] = cs
	return
}

func (c *c22) measured(l *loop) string {
	qs, _ := c.bounds(l)
	for _, q := range qs {
		if len(c.p.atomsOf(q)) > 0 && c.decreases(l, q, false) {
			return "continues while " + c.p.show(q) + " >= 0, which decreases in every iteration"
		}
	}
	// the length of a slice
	for _, i := range l.head.Instrs {
		ph, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		if _, ok := ph.Type().Underlying().(*types.Slice); ok && c.decreases(l, c.p.lenOf(ph), false) {
			return "the length of " + ph.Comment + " decreases in every iteration"
		}
	}
	// continues while different: ends when reached in steps of one
	for _, e := range l.exits() {
		iff, ok := e.from.Instrs[len(e.from.Instrs)-1].(*ssa.If)
		if !ok || !everyIteration(l, e.from) {
			continue
		}
		for _, q := range c.p.cond(iff.Cond, e.k == 1, 0).ne {
			for _, q := range []poly{q, poly{}.add(q, -1)} {
				if len(c.p.atomsOf(q)) > 0 && c.decreases(l, q, true) && c.startsAbove(l, q) {
					return "continues while " + c.p.show(q) + " is not 0, which starts above and decreases by one in every iteration"
				}
			}
		}
	}
	return ""
}

// does q decrease on every path through the body
func (c *c22) decreases(l *loop, q poly, byOne bool) bool {
	for _, la := range l.latches {
		n, known := c.next(l, q, la)
		if !known {
			return false
		}
		g := q.add(n, -1).add(constPoly(1), -1)
		if k, isK := g.konst(); isK {
			if k == 0 || k > 0 && !byOne {
				continue
			}
			return false
		}
		if byOne {
			return false
		}
		if !c.proved(l, la, g) {
			return false
		}
	}
	return true
}

func (c *c22) proved(l *loop, la *ssa.BasicBlock, g poly) bool {
	fs := c.latchFacts(l, la)
	c.p.steps = 0
	if c.p.decide(la, fs, g, 0, nil) == vProved {
		return true
	}
	// a quotient is at least one if the dividend is at least the divisor
	if ns := c.p.atomsOf(g); len(ns) == 1 && g[ns[0]] == 1 && g[""] == -1 {
		if bo, ok := c.p.atoms[ns[0]].v.(*ssa.BinOp); ok && bo.Op == token.QUO && isInt(bo.Type()) {
			num, den := c.p.lin(bo.X), c.p.lin(bo.Y)
			c.p.steps = 0
			if c.p.decide(la, fs, den.add(constPoly(1), -1), 0, nil) == vProved {
				c.p.steps = 0
				return c.p.decide(la, fs, num.add(den, -1), 0, nil) == vProved
			}
		}
	}
	return false
}

// is q at least 0 when the loop is entered
func (c *c22) startsAbove(l *loop, q poly) bool {
	for i, pr := range l.head.Preds {
		if l.body[pr] {
			continue
		}
		s := q
		for _, n := range c.p.atomsOf(q) {
			a := c.p.atoms[n]
			if ph, ok := a.v.(*ssa.Phi); ok && ph.Block() == l.head {
				if a.len {
					s = substPoly(s, n, c.p.lenOf(ph.Edges[i]))
				} else {
					s = substPoly(s, n, c.p.lin(ph.Edges[i]))
				}
			}
		}
		c.p.steps = 0
		if c.p.decide(pr, c.p.edgeFacts(pr, l.head, 0), s, 0, nil) != vProved {
			return false
		}
	}
	return true
}

// reads from an input in every iteration, and leaves the loop when that fails
func (c *c22) reads(l *loop) string {
	for b := range l.body {
		if !everyIteration(l, b) {
			continue
		}
		for _, i := range b.Instrs {
			cl, ok := i.(*ssa.Call)
			if !ok {
				continue
			}
			n := calleeName(&cl.Call)
			switch n {
			case "io.ReadFull", "io.ReadAtLeast", "(io.Reader).Read", "encoding/binary.Read", "io.CopyN",
				"(*bufio.Reader).Read", "(*bufio.Reader).ReadByte", "(*bufio.Reader).ReadRune", "(*bufio.Reader).ReadString", "(*bufio.Reader).ReadBytes", "(*bufio.Reader).ReadLine",
				"(*os.File).Read", "(*encoding/json.Decoder).Decode", "(*encoding/json.Decoder).Token", "(*encoding/csv.Reader).Read":
			case "(*bufio.Scanner).Scan":
			default:
				continue
			}
			for _, e := range l.exits() {
				iff, ok := e.from.Instrs[len(e.from.Instrs)-1].(*ssa.If)
				if !ok || !everyIteration(l, e.from) {
					continue
				}
				v, neg := stripNot(iff.Cond)
				if v == ssa.Value(cl) && (e.k == 1) != neg {
					return "reads from the input until its end"
				}
				if bo, ok := v.(*ssa.BinOp); ok && isNilConst(bo.Y) && isErrT(bo.X.Type()) && (bo.Op == token.NEQ) == ((e.k == 0) != neg) {
					x := bo.X
					if ex, ok := x.(*ssa.Extract); ok {
						x = ex.Tuple
					}
					if x == ssa.Value(cl) {
						return "reads from the input in every iteration until that fails"
					}
				}
			}
		}
	}
	return ""
}

// follows the links of a list
func (c *c22) linked(l *loop) string {
	for _, i := range l.head.Instrs {
		ph, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		pt, ok := ph.Type().Underlying().(*types.Pointer)
		if !ok {
			continue
		}
		good := true
		for k, pr := range l.head.Preds {
			if !l.body[pr] {
				continue
			}
			u, ok := ph.Edges[k].(*ssa.UnOp)
			if !ok || u.Op != token.MUL {
				good = false
				break
			}
			fa, ok := u.X.(*ssa.FieldAddr)
			if !ok || fa.X != ssa.Value(ph) || !types.Identical(u.Type(), ph.Type()) {
				good = false
			}
		}
		if !good {
			continue
		}
		for _, e := range l.exits() {
			iff, ok := e.from.Instrs[len(e.from.Instrs)-1].(*ssa.If)
			if !ok || !everyIteration(l, e.from) {
				continue
			}
			v, _ := stripNot(iff.Cond)
			if bo, ok := v.(*ssa.BinOp); ok && isNilConst(bo.Y) && types.Identical(bo.X.Type(), ph.Type()) {
				return "follows the links of a list of " + typeShort(pt.Elem())
			}
		}
	}
	return ""
}

// counts with floating point numbers between constants
func (c *c22) floats(l *loop) (string, bool) {
	for _, e := range l.exits() {
		iff, ok := e.from.Instrs[len(e.from.Instrs)-1].(*ssa.If)
		if !ok || !everyIteration(l, e.from) {
			continue
		}
		v, neg := stripNot(iff.Cond)
		bo, ok := v.(*ssa.BinOp)
		if !ok || !isFloatT(bo.X.Type()) {
			continue
		}
		x, y := bo.X, bo.Y
		ph, ok := x.(*ssa.Phi)
		if !ok || ph.Block() != l.head {
			x, y = y, x
			if ph, ok = x.(*ssa.Phi); !ok || ph.Block() != l.head {
				continue
			}
		}
		_ = neg
		if variesIn(y, l, map[ssa.Value]bool{}) {
			continue
		}
		var step, init float64
		known, counts := true, true
		for k, pr := range l.head.Preds {
			if !l.body[pr] {
				if f, ok := constFloatV(ph.Edges[k]); ok {
					init = f
				} else {
					known = false
				}
				continue
			}
			s, ok := ph.Edges[k].(*ssa.BinOp)
			if !ok || s.Op != token.ADD && s.Op != token.SUB || s.X != ssa.Value(ph) {
				counts = false
				continue
			}
			if f, ok := constFloatV(s.Y); ok {
				step = f
			} else {
				known = false
			}
		}
		if !counts {
			continue
		}
		bound, ok := constFloatV(y)
		if !ok {
			known = false
		}
		if !known {
			return "counts with floating point numbers up to " + valueName(y), false
		}
		m := 1.0
		for _, x := range []float64{init, bound} {
			if x < 0 {
				x = -x
			}
			if x > m {
				m = x
			}
		}
		if step < 0 {
			step = -step
		}
		if step > m/(1<<22) {
			return fmt.Sprintf("counts from %g to %g in steps of %g", init, bound, step), true
		}
		return fmt.Sprintf("counts from %g to %g in steps of %g", init, bound, step), false
	}
	return "", false
}

func constFloatV(v ssa.Value) (float64, bool) {
	if k, ok := v.(*ssa.Const); ok {
		return constFloat(k)
	}
	return 0, false
}

func valueName(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.Parameter:
		return "the parameter " + x.Name()
	case *ssa.Phi:
		if x.Comment != "" {
			return x.Comment
		}
	}
	return "a value that is not constant"
}

// an index moving in one direction, used in every iteration
func (c *c22) indexed(l *loop) string {
	for _, i := range l.head.Instrs {
		ph, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		if !isInt(ph.Type()) {
			continue
		}
		for _, dir := range []float64{1, -1} {
			ok := true
			for _, la := range l.latches {
				q := c.p.lin(ph)
				n, known := c.next(l, q, la)
				if !known {
					ok = false
					break
				}
				g := n.add(q, -1).mul(constPoly(dir)).add(constPoly(1), -1)
				if k, isK := g.konst(); isK {
					ok = ok && k >= 0
					continue
				}
				c.p.steps = 0
				if c.p.decide(la, c.latchFacts(l, la), g, 0, nil) != vProved {
					ok = false
					break
				}
			}
			if !ok {
				continue
			}
			name := ""
			for n := range c.p.lin(ph) {
				name = n
			}
			for b := range l.body {
				if !everyIteration(l, b) {
					continue
				}
				for _, i := range b.Instrs {
					var x, idx ssa.Value
					switch y := i.(type) {
					case *ssa.IndexAddr:
						x, idx = y.X, y.Index
					case *ssa.Index:
						x, idx = y.X, y.Index
					case *ssa.Lookup:
						if _, isS := y.X.Type().Underlying().(*types.Basic); isS {
							x, idx = y.X, y.Index
						}
					}
					if x == nil || variesIn(x, l, map[ssa.Value]bool{}) {
						continue
					}
					q := c.p.lin(idx)
					if _, has := q[name]; !has {
						continue
					}
					good := true
					for _, n := range c.p.atomsOf(q) {
						if n != name && variesIn(c.p.atoms[n].v, l, map[ssa.Value]bool{}) {
							good = false
						}
					}
					for m := range q {
						if strings.Contains(m, "*") && strings.Contains(m, name) {
							good = false
						}
					}
					if good {
						return fmt.Sprintf("%s moves in one direction and is an index in every iteration", ph.Comment)
					}
				}
			}
		}
	}
	return ""
}

func floatConv(v ssa.Value) ssa.Value {
	for {
		x, ok := v.(*ssa.Convert)
		if !ok || !isFloatT(x.X.Type()) || !isFloatT(x.Type()) {
			return v
		}
		v = x.X
	}
}

func drawsRandom(n string) bool {
	return strings.Contains(n, "fastrand.") || strings.Contains(n, "math/rand")
}
