package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C23: repeated runs produce the same files.
//
// Sources of differences between runs are enumerated: iteration over maps, clocks and generators without a fixed seed, and
// the order in which concurrent work completes. For each, the analysis shows that what depends on it is made independent
// again (sorted, indexed by the frame, combined by an operation that does not depend on the order) or only logged.

func init() {
	register("C23", "repeatability: order-sensitivity analysis of every iteration over a map, forward slices of every clock reading and seed, and classification of every shared modification by concurrently processed frames (same value, counter, indexed by the frame, collected and sorted before use)", runC23)
}

type c23 struct {
	w    *World
	r    *Report
	e    *effects
	pure map[*ssa.Function]int
}

func runC23(w *World, r *Report) {
	r.rule("map", "iterations over maps: no output, result or float sum depends on the order of iteration", 5)
	r.rule("clock", "clock readings and similar sources: values only reach the log", 1)
	r.rule("random", "random number generators: seeded with a fixed value before use", 9)
	r.rule("shared", "cells modified by concurrently processed frames: what ends up there does not depend on the order of completion", 8)
	r.rule("collect", "slices collected in the order of completion or map iteration: sorted before use", 1)
	r.rule("channel", "channels fed by several goroutines: what is received is not used in the order of arrival", 1)
	c := &c23{w: w, r: r, e: w.effects(), pure: map[*ssa.Function]int{}}
	c.maps()
	c.clocks()
	c.random()
	c.shared()
	c.channels()
}

// ---------------------------------------------------------------- maps

func (c *c23) maps() {
	for _, f := range c.w.Funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				switch x := i.(type) {
				case *ssa.Range:
					if _, ok := x.X.Type().Underlying().(*types.Map); ok {
						c.mapRange(f, x)
					}
				case ssa.CallInstruction:
					switch n := calleeName(x.Common()); n {
					case "(*sync.Map).Range", "maps.Keys", "maps.Values", "reflect.Value.MapKeys", "reflect.Value.MapRange", "(reflect.Value).MapKeys", "(reflect.Value).MapRange",
						"golang.org/x/exp/maps.Keys", "golang.org/x/exp/maps.Values":
						c.r.undecided("%s: use of %s", c.w.ipos(i), n)
					}
				}
			}
		}
	}
}

func (c *c23) mapRange(f *ssa.Function, rg *ssa.Range) {
	// the loop of the iteration
	var next *ssa.Next
	for _, u := range *rg.Referrers() {
		if n, ok := u.(*ssa.Next); ok {
			next = n
		}
	}
	if next == nil {
		return
	}
	l := loopOf(next.Block())
	if l == nil {
		for _, u := range *next.Referrers() {
			if e, ok := u.(*ssa.Extract); ok && e.Index > 0 && e.Referrers() != nil && len(*e.Referrers()) > 0 {
				c.r.bad("map", fname(f)+"|one", c.w.ipos(rg), "%s uses one arbitrary element of the map %s, which differs between runs", fname(f), c.describe(rg.X))
				return
			}
		}
		c.r.ob("map", "%s: elements are not used", c.w.ipos(rg))
		return
	}
	for l.head != next.Block() { // innermost loop headed by the iteration
		var o *loop
		for _, x := range loopsOf(f) {
			if x.head == next.Block() {
				o = x
			}
		}
		if o == nil {
			c.r.undecided("%s: loop over a map not understood", c.w.ipos(rg))
			return
		}
		l = o
	}
	t := map[ssa.Value]bool{next: true} // values that depend on the current element
	for ch := true; ch; {
		ch = false
		for b := range l.body {
			for _, i := range b.Instrs {
				if st, ok := i.(*ssa.Store); ok && t[st.Val] {
					if al, ok := c.e.rootOf(st.Addr).(*ssa.Alloc); ok && l.body[al.Block()] && !t[al] {
						t[al], ch = true, true
					}
				}
				v, ok := i.(ssa.Value)
				if !ok || t[v] {
					continue
				}
				if p, ok := v.(*ssa.Phi); ok && p.Block() == l.head {
					continue
				}
				for _, o := range i.Operands(nil) {
					if *o != nil && t[*o] {
						t[v], ch = true, true
						break
					}
				}
			}
		}
	}
	what := fmt.Sprintf("%s: iteration over %s", c.w.ipos(rg), c.describe(rg.X))
	ok := true
	fail := func(i ssa.Instruction, kind, text string, a ...interface{}) {
		ok = false
		c.r.bad("map", fname(f)+"|"+kind, c.w.ipos(i), "%s, in the order of iteration over the map %s, which differs between runs", fmt.Sprintf(text, a...), c.describe(rg.X))
	}
	collected := map[ssa.Value]bool{}
	for _, b := range f.Blocks {
		if !l.body[b] {
			continue
		}
		for _, i := range b.Instrs {
			switch x := i.(type) {
			case *ssa.MapUpdate:
				if !t[x.Key] && t[x.Value] {
					fail(x, "mapupdate", "%s keeps the last element", fname(f))
				}
			case *ssa.Send:
				if t[x.X] {
					fail(x, "send", "%s sends elements", fname(f))
				}
			case *ssa.Store:
				if !t[x.Val] {
					continue
				}
				if al, isA := c.e.rootOf(x.Addr).(*ssa.Alloc); isA && l.body[al.Block()] {
					continue
				}
				if ia, isI := x.Addr.(*ssa.IndexAddr); isI {
					if t[ia.Index] {
						continue
					}
					collected[ia.X] = true
					continue
				}
				if ap := appended(x.Val); ap != nil && c.sameCell(ap.Call.Args[0], x.Addr) {
					collected[x.Addr] = true
					continue
				}
				if c.commutative(x.Val, x.Addr) {
					continue
				}
				fail(x, "store", "%s stores elements", fname(f))
			case *ssa.Return:
				for _, v := range x.Results {
					if t[v] && !isErrT(v.Type()) {
						fail(x, "return", "%s returns an element", fname(f))
					}
				}
			case ssa.CallInstruction:
				cc := x.Common()
				used := t[cc.Value]
				for _, a := range cc.Args {
					used = used || c.carries(a, t, 0)
				}
				if !used {
					continue
				}
				if n := calleeName(cc); !c.quiet(x) && n != "builtin.append" {
					fail(i, "call|"+n, "%s calls %s with elements", fname(f), n)
				}
			}
		}
	}
	// values carried from one element to the next
	for _, i := range l.head.Instrs {
		p, isP := i.(*ssa.Phi)
		if !isP {
			break
		}
		for k, e := range p.Edges {
			if !l.body[p.Block().Preds[k]] || e == ssa.Value(p) {
				continue
			}
			c.carried(f, l, p, e, t, collected, fail)
		}
	}
	// an element picked by leaving the loop early
	for b := range l.body {
		for _, i := range b.Instrs {
			v, isV := i.(ssa.Value)
			if !isV || !t[v] || v.Referrers() == nil {
				continue
			}
			for _, u := range *v.Referrers() {
				if !l.body[u.Block()] {
					if _, isR := u.(*ssa.Return); isR {
						if isErrT(v.Type()) {
							continue
						}
					}
					if p, isP := u.(*ssa.Phi); isP && isErrT(p.Type()) {
						continue
					}
					if e, isE := v.(*ssa.Extract); isE && e.Tuple == ssa.Value(next) && e.Index == 0 {
						continue
					}
					if _, isE := u.(*ssa.Extract); isE {
						continue
					}
					if rt, isR := u.(*ssa.Return); isR && len(rt.Results) > 0 {
						fail(u, "return", "%s returns an element", fname(f))
						continue
					}
					if cl, isC := u.(ssa.CallInstruction); isC && c.quiet(cl) {
						continue
					}
					fail(u, "pick", "%s goes on with the element at which it left the loop", fname(f))
				}
			}
		}
	}
	var cs []ssa.Value
	for v := range collected {
		cs = append(cs, v)
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i].Pos() < cs[j].Pos() })
	for _, v := range cs {
		if !c.sortedAfter(f, l, v, "the iteration over the map "+c.describe(rg.X)) {
			ok = false
		}
	}
	if ok {
		c.r.ob("map", "%s", what)
	}
}

func appended(v ssa.Value) *ssa.Call {
	cl, ok := v.(*ssa.Call)
	if ok && calleeName(&cl.Call) == "builtin.append" && len(cl.Call.Args) > 0 {
		return cl
	}
	return nil
}

// is v a load of the cell a
func (c *c23) sameCell(v, a ssa.Value) bool {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return false
	}
	if u.X == a {
		return true
	}
	x, ok1 := u.X.(*ssa.FieldAddr)
	y, ok2 := a.(*ssa.FieldAddr)
	if ok1 && ok2 && x.Field == y.Field {
		return x.X == y.X || c.sameLoad(x.X, y.X)
	}
	return false
}

func (c *c23) sameLoad(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok1 := a.(*ssa.UnOp)
	y, ok2 := b.(*ssa.UnOp)
	if ok1 && ok2 && x.Op == y.Op {
		return c.sameLoad(x.X, y.X)
	}
	p, ok1 := a.(*ssa.FieldAddr)
	q, ok2 := b.(*ssa.FieldAddr)
	return ok1 && ok2 && p.Field == q.Field && c.sameLoad(p.X, q.X)
}

func (e *effects) rootOf(a ssa.Value) ssa.Value {
	for {
		switch x := a.(type) {
		case *ssa.FieldAddr:
			a = x.X
		case *ssa.IndexAddr:
			a = x.X
		case *ssa.Slice:
			a = x.X
		default:
			return a
		}
	}
}

// does an argument contain one of the values
func (c *c23) carries(a ssa.Value, t map[ssa.Value]bool, d int) bool {
	if t[a] {
		return true
	}
	if d > 4 {
		return false
	}
	switch x := a.(type) {
	case *ssa.Slice:
		return c.carries(x.X, t, d+1)
	case *ssa.Alloc:
		if x.Referrers() == nil {
			return false
		}
		for _, u := range *x.Referrers() {
			switch y := u.(type) {
			case *ssa.Store:
				if y.Addr == ssa.Value(x) && t[y.Val] {
					return true
				}
			case *ssa.IndexAddr:
				if c.carries(y, t, d+1) {
					return true
				}
			case *ssa.FieldAddr:
				if c.carries(y, t, d+1) {
					return true
				}
			}
		}
	case *ssa.IndexAddr, *ssa.FieldAddr:
		for _, u := range *x.(ssa.Value).Referrers() {
			if st, ok := u.(*ssa.Store); ok && st.Addr == a && t[st.Val] {
				return true
			}
		}
	}
	return false
}

// x = x op v with an operation that does not depend on the order
func (c *c23) commutative(v ssa.Value, addr ssa.Value) bool {
	b, ok := v.(*ssa.BinOp)
	if !ok {
		return false
	}
	switch b.Op {
	case token.ADD, token.MUL, token.OR, token.AND, token.XOR:
	default:
		return false
	}
	t, ok := b.Type().Underlying().(*types.Basic)
	if !ok || t.Info()&types.IsInteger == 0 {
		return false
	}
	return c.sameCell(b.X, addr) || c.sameCell(b.Y, addr)
}

// a call without an effect other than its result, or one that only logs
func (c *c23) quiet(ci ssa.CallInstruction) bool {
	cc := ci.Common()
	n := calleeName(cc)
	if strings.HasPrefix(n, "builtin.") {
		return n != "builtin.copy" || true
	}
	if strings.HasPrefix(n, "fmt.Fprint") {
		return c.logWriter(cc.Args[0], 0)
	}
	if strings.HasPrefix(n, "fmt.Print") || strings.HasPrefix(n, "log.") {
		return true
	}
	if cc.IsInvoke() {
		return n == "(error).Error"
	}
	ts := c.w.targets(ci)
	if f := cc.StaticCallee(); f != nil {
		ts = []*ssa.Function{f}
	}
	if len(ts) == 0 {
		return false
	}
	for _, t := range ts {
		if !c.isPure(t) {
			return false
		}
	}
	return true
}

func (c *c23) isPure(f *ssa.Function) bool {
	if !c.w.inMod[f] || len(f.Blocks) == 0 {
		if f.Pkg == nil {
			return false
		}
		switch f.Pkg.Pkg.Path() {
		case "strings", "strconv", "math", "unicode", "unicode/utf8", "path", "path/filepath", "errors", "bytes", "sort":
			return true
		case "fmt":
			return strings.HasPrefix(f.Name(), "Sprint") || f.Name() == "Errorf"
		case "time":
			return f.Name() != "Sleep"
		}
		return false
	}
	switch c.pure[f] {
	case 1, 2:
		return true
	case 3:
		return false
	}
	c.pure[f] = 1
	res := true
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			switch x := i.(type) {
			case *ssa.Store:
				if _, ok := c.e.rootOf(x.Addr).(*ssa.Alloc); !ok {
					res = false
				}
			case *ssa.MapUpdate:
				if _, ok := x.Map.(*ssa.MakeMap); !ok {
					res = false
				}
			case *ssa.Send, *ssa.Go:
				res = false
			case ssa.CallInstruction:
				if !c.quiet(x) {
					res = false
				}
			}
		}
	}
	c.pure[f] = 3
	if res {
		c.pure[f] = 2
	}
	return res
}

// the log of the context, standard output, or a combination with a log file
func (c *c23) logWriter(v ssa.Value, d int) bool {
	if d > 8 {
		return false
	}
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return c.logWriter(x.X, d+1)
	case *ssa.ChangeInterface:
		return c.logWriter(x.X, d+1)
	case *ssa.UnOp:
		if g, ok := x.X.(*ssa.Global); ok {
			return g.Pkg.Pkg.Path() == "os" && (g.Name() == "Stdout" || g.Name() == "Stderr")
		}
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			n, isN := deref(fa.X.Type()).(*types.Named)
			return isN && n.Obj().Name() == "Context" && isWriterT(x.Type())
		}
		if al, ok := x.X.(*ssa.Alloc); ok {
			n := 0
			for _, st := range c.e.stores[al] {
				if !c.logWriter(st.Val, d+1) {
					return false
				}
				n++
			}
			return n > 0
		}
		if fv, ok := x.X.(*ssa.FreeVar); ok {
			for _, b := range c.e.bind[fv] {
				al, ok := b.(*ssa.Alloc)
				if !ok {
					return false
				}
				for _, st := range c.e.stores[al] {
					if !c.logWriter(st.Val, d+1) {
						return false
					}
				}
			}
			return len(c.e.bind[fv]) > 0
		}
	case *ssa.Call:
		if calleeName(&x.Call) == "io.MultiWriter" {
			return true
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if e != v && !c.logWriter(e, d+1) {
				return false
			}
		}
		return true
	case *ssa.Parameter:
		cs := c.w.calls().callers[x.Parent()]
		n := 0
		for _, ci := range cs {
			a := argFor(x, x.Parent(), ci)
			if a == nil {
				continue
			}
			if !c.logWriter(a, d+1) {
				return false
			}
			n++
		}
		return n > 0
	}
	return false
}

func (c *c23) carried(f *ssa.Function, l *loop, p *ssa.Phi, e ssa.Value, t map[ssa.Value]bool, collected map[ssa.Value]bool, fail func(ssa.Instruction, string, string, ...interface{})) {
	// does the value depend on the elements at all
	dep := false
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if seen[v] || v == ssa.Value(p) {
			return
		}
		seen[v] = true
		i, ok := v.(ssa.Instruction)
		if !ok || !l.body[i.Block()] {
			return
		}
		if t[v] {
			dep = true
		}
		if ph, ok := v.(*ssa.Phi); ok {
			for k := range ph.Edges { // decided by a condition on the element
				if b := ph.Block().Idom(); b != nil && k == 0 {
					if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok && t[iff.Cond] {
						dep = true
					}
				}
			}
		}
		for _, o := range i.Operands(nil) {
			if *o != nil {
				walk(*o)
			}
		}
	}
	walk(e)
	if !dep {
		return
	}
	if isErrT(p.Type()) {
		return
	}
	// collected into a slice, in part conditionally
	leaves := []ssa.Value{}
	busy := map[ssa.Value]bool{}
	var leaf func(v ssa.Value)
	leaf = func(v ssa.Value) {
		if busy[v] || v == ssa.Value(p) {
			return
		}
		busy[v] = true
		if ph, ok := v.(*ssa.Phi); ok && l.body[ph.Block()] {
			for _, x := range ph.Edges {
				leaf(x)
			}
			return
		}
		leaves = append(leaves, v)
	}
	leaf(e)
	okAll := true
	for _, v := range leaves {
		if ap := appended(v); ap != nil && (ap.Call.Args[0] == ssa.Value(p) || busy[ap.Call.Args[0]]) {
			collected[p] = true
			continue
		}
		if b, ok := v.(*ssa.BinOp); ok {
			bt, isB := b.Type().Underlying().(*types.Basic)
			if isB && bt.Info()&types.IsInteger != 0 && (b.X == ssa.Value(p) || b.Y == ssa.Value(p) || busy[b.X] || busy[b.Y]) {
				switch b.Op {
				case token.ADD, token.MUL, token.OR, token.AND, token.XOR, token.SUB:
					if b.Op != token.SUB || b.X == ssa.Value(p) {
						continue
					}
				}
			}
			if isB && bt.Info()&types.IsBoolean != 0 {
				continue
			}
		}
		if k, ok := v.(*ssa.Const); ok {
			_ = k
			continue // the same value whichever element leads to it
		}
		if t[v] && c.selects(l, p, v) {
			continue
		}
		okAll = false
	}
	if !okAll {
		kind := "carried"
		if isFloatT(p.Type()) {
			fail(p, kind+"|float", "%s accumulates floating point values or picks one", fname(f))
		} else {
			fail(p, kind, "%s accumulates or picks elements", fname(f))
		}
	}
}

// the largest or smallest element is kept: v replaces p under a comparison of v with p
func (c *c23) selects(l *loop, p *ssa.Phi, v ssa.Value) bool {
	for b := range l.body {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		bo, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		switch bo.Op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			if bo.X == v && bo.Y == ssa.Value(p) || bo.X == ssa.Value(p) && bo.Y == v {
				return true
			}
		}
	}
	return false
}

func (c *c23) describe(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.UnOp:
		return c.describe(x.X)
	case *ssa.FieldAddr:
		return typeShort(deref(x.X.Type())) + "." + fieldName(x.X.Type(), x.Field)
	case *ssa.Field:
		return typeShort(x.X.Type()) + "." + fieldName(x.X.Type(), x.Field)
	case *ssa.Global:
		return x.Name()
	case *ssa.Parameter:
		return x.Name()
	case *ssa.Alloc:
		return x.Comment
	}
	return v.Name()
}

func isSortCall(n string) bool {
	switch n {
	case "sort.Strings", "sort.Ints", "sort.Float64s", "sort.Sort", "sort.Stable", "sort.Slice", "sort.SliceStable", "slices.Sort", "slices.SortFunc", "slices.SortStableFunc":
		return true
	}
	return false
}

// is a slice filled in an arbitrary order sorted before anything else is done with it; v is a phi of the loop or the address of
// a local variable
func (c *c23) sortedAfter(f *ssa.Function, l *loop, v ssa.Value, why string) bool {
	vals := map[ssa.Value]bool{v: true} // values that are the slice
	cells := map[ssa.Value]bool{}
	if _, isPtr := v.Type().Underlying().(*types.Pointer); isPtr {
		cells[v] = true
		delete(vals, v)
	}
	part := map[ssa.Value]bool{} // parts of the slice
	var sorts []ssa.Instruction
	var uses []ssa.Instruction
	for ch := true; ch; {
		ch = false
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if st, ok := i.(*ssa.Store); ok && vals[st.Val] && !cells[st.Addr] {
					if _, ok := st.Addr.(*ssa.Alloc); ok {
						cells[st.Addr], ch = true, true
					}
				}
				x, ok := i.(ssa.Value)
				if !ok || vals[x] {
					continue
				}
				hit := false
				switch y := i.(type) {
				case *ssa.Phi:
					for _, e := range y.Edges {
						hit = hit || vals[e]
					}
				case *ssa.UnOp:
					hit = y.Op == token.MUL && (cells[y.X] || c.cellIn(y, cells))
				case *ssa.MakeInterface:
					hit = vals[y.X]
				case *ssa.ChangeType:
					hit = vals[y.X]
				case *ssa.Convert:
					hit = vals[y.X]
				case *ssa.Slice:
					hit = vals[y.X]
				case *ssa.Call:
					if ap := appended(y); ap != nil {
						hit = vals[ap.Call.Args[0]]
					}
				}
				if hit {
					vals[x], ch = true, true
					if sl, ok := x.(*ssa.Slice); ok && (sl.Low != nil || sl.High != nil) {
						part[x] = true
					}
				}
			}
		}
	}
	for ch := true; ch; {
		ch = false
		for x := range vals {
			if part[x] {
				continue
			}
			switch y := x.(type) {
			case *ssa.MakeInterface:
				if part[y.X] {
					part[x], ch = true, true
				}
			case *ssa.ChangeType:
				if part[y.X] {
					part[x], ch = true, true
				}
			case *ssa.Convert:
				if part[y.X] {
					part[x], ch = true, true
				}
			}
		}
	}
	for x := range vals {
		if x.Referrers() == nil {
			continue
		}
		for _, u := range *x.Referrers() {
			if l != nil && l.body[u.Block()] {
				continue
			}
			switch y := u.(type) {
			case *ssa.Phi, *ssa.MakeInterface, *ssa.ChangeType, *ssa.Convert, *ssa.Slice:
				continue
			case ssa.CallInstruction:
				n := calleeName(y.Common())
				if isSortCall(n) {
					if !part[x] && !c.noOrder(y) {
						sorts = append(sorts, u)
					}
					continue
				}
				if n == "builtin.len" || n == "builtin.cap" {
					continue
				}
				if n == "builtin.append" && y.Common().Args[0] == x && c.appendsMore(y, vals) {
					continue
				}
				if t := y.Common().StaticCallee(); t != nil && c.w.inMod[t] && c.sortsParam(t, y, x) {
					sorts = append(sorts, u)
					continue
				}
			case *ssa.Store:
				if y.Val == x && (cells[y.Addr]) {
					continue
				}
			}
			uses = append(uses, u)
		}
	}
	good := true
	for _, u := range uses {
		ok := false
		for _, s := range sorts {
			if s.Block() == u.Block() && c23before(s, u) || s.Block() != u.Block() && s.Block().Dominates(u.Block()) {
				ok = true
			}
		}
		if !ok {
			good = false
			c.r.bad("collect", fname(f)+"|"+c.describe(v), c.w.ipos(u), "%s uses a slice in the order of %s, which differs between runs, without sorting it first", fname(f), why)
			break
		}
	}
	if good {
		c.r.ob("collect", "%s: slice filled in the order of %s is sorted before its %d uses", fname(f), why, len(uses))
	}
	return good
}

// a sort call with a comparison that never orders anything
func (c *c23) noOrder(ci ssa.CallInstruction) bool {
	for _, a := range ci.Common().Args {
		f, _ := a.(*ssa.Function)
		if mc, ok := a.(*ssa.MakeClosure); ok {
			f = mc.Fn.(*ssa.Function)
		}
		if f == nil || len(f.Blocks) == 0 {
			continue
		}
		for _, b := range f.Blocks {
			if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && b != f.Recover {
				for _, v := range rt.Results {
					if _, ok := v.(*ssa.Const); !ok {
						return false
					}
				}
			}
		}
		return true
	}
	return false
}

func (c *c23) appendsMore(y ssa.CallInstruction, vals map[ssa.Value]bool) bool {
	r, ok := y.(ssa.Value)
	return ok && vals[r]
}

func (c *c23) cellIn(u *ssa.UnOp, cells map[ssa.Value]bool) bool {
	for a := range cells {
		if c.sameCell(u, a) {
			return true
		}
	}
	return false
}

// does a helper sort the slice it is given before anything else
func (c *c23) sortsParam(t *ssa.Function, y ssa.CallInstruction, x ssa.Value) bool {
	for _, p := range t.Params {
		if argFor(p, t, y) != x {
			continue
		}
		for _, u := range *p.Referrers() {
			if ci, ok := u.(ssa.CallInstruction); ok && isSortCall(calleeName(ci.Common())) && ci.Block() == t.Blocks[0] {
				return true
			}
			if mi, ok := u.(*ssa.MakeInterface); ok {
				for _, v := range *mi.Referrers() {
					if ci, ok := v.(ssa.CallInstruction); ok && isSortCall(calleeName(ci.Common())) && ci.Block() == t.Blocks[0] {
						return true
					}
				}
			}
		}
	}
	return false
}

func c23before(a, b ssa.Instruction) bool {
	for _, i := range a.Block().Instrs {
		if i == a {
			return true
		}
		if i == b {
			return false
		}
	}
	return false
}

// ---------------------------------------------------------------- clocks

func clockSource(n string) bool {
	switch n {
	case "time.Now", "time.Since", "time.Until", "os.Getpid", "os.Getppid", "os.Hostname", "runtime.NumGoroutine", "runtime.ReadMemStats", "github.com/pbnjay/memory.FreeMemory",
		"os.Environ", "crypto/rand.Read", "crypto/rand.Int", "crypto/rand.Prime", "os.MkdirTemp", "os.CreateTemp", "io/ioutil.TempFile", "io/ioutil.TempDir", "time.After", "time.Tick", "time.NewTimer", "time.NewTicker":
		return true
	}
	return false
}

func (c *c23) clocks() {
	for _, f := range c.w.Funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				cl, ok := i.(*ssa.Call)
				if !ok {
					continue
				}
				n := calleeName(&cl.Call)
				if n == "builtin.len" {
					if _, isC := cl.Call.Args[0].Type().Underlying().(*types.Chan); !isC {
						continue
					}
					n = "len of a channel"
				} else if !clockSource(n) {
					continue
				}
				var start ssa.Value = cl
				if n == "runtime.ReadMemStats" || n == "crypto/rand.Read" {
					start = cl.Call.Args[0]
				}
				s := &c23slice{c: c, seen: map[ssa.Value]bool{}, name: n, from: cl}
				s.follow(start, 0)
				if s.bad == "" {
					c.r.ob("clock", "%s: %s reaches nothing but the log (%d values)", c.w.ipos(cl), n, len(s.seen))
				} else {
					c.r.bad("clock", fname(f)+"|"+n+"|"+s.kind, c.w.ipos(s.at), "the result of %s (%s), which differs between runs, %s", n, c.w.ipos(cl), s.bad)
				}
			}
		}
	}
}

type c23slice struct {
	c    *c23
	seen map[ssa.Value]bool
	name string
	from ssa.Instruction
	bad  string
	kind string
	at   ssa.Instruction
}

func (s *c23slice) fail(i ssa.Instruction, kind, text string) {
	if s.bad == "" {
		s.bad, s.kind, s.at = text, kind, i
	}
}

func (s *c23slice) follow(v ssa.Value, d int) {
	if s.seen[v] || v.Referrers() == nil || s.bad != "" {
		return
	}
	if d > 40 {
		return
	}
	s.seen[v] = true
	c := s.c
	for _, u := range *v.Referrers() {
		switch x := u.(type) {
		case *ssa.If:
			if s.onlyLogs(x) {
				continue
			}
			s.fail(u, "decides", "decides about the processing in "+fname(u.Parent()))
		case *ssa.Store:
			if x.Val != v {
				if ia, ok := x.Addr.(*ssa.IndexAddr); ok && x.Addr == v && s.seen[ia.Index] {
					s.fail(u, "place", "selects where a result is stored in "+fname(u.Parent()))
				}
				continue
			}
			switch r := c.e.rootOf(x.Addr).(type) {
			case *ssa.Alloc:
				s.follow(r, d+1)
			case *ssa.FreeVar:
				s.follow(r, d+1)
			case *ssa.Global:
				s.global(r, u, d)
			default:
				s.fail(u, "stored", "is stored in "+c.describe(x.Addr))
			}
		case *ssa.MapUpdate:
			s.fail(u, "map", "is stored in the map "+c.describe(x.Map))
		case *ssa.Return:
			f := u.Parent()
			for _, ci := range c.w.calls().callers[f] {
				if cv, ok := ci.(ssa.Value); ok {
					s.follow(cv, d+1)
				}
			}
		case *ssa.Send:
			s.fail(u, "sent", "is sent on a channel")
		case *ssa.Panic:
		case *ssa.MakeClosure:
			f := x.Fn.(*ssa.Function)
			for k, b := range x.Bindings {
				if b == v && k < len(f.FreeVars) {
					s.follow(f.FreeVars[k], d+1)
				}
			}
		case ssa.CallInstruction:
			s.call(x, v, d)
		case ssa.Value:
			s.follow(x, d+1)
		}
	}
}

func (s *c23slice) global(g *ssa.Global, at ssa.Instruction, d int) {
	for _, f := range s.c.w.Funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if u, ok := i.(*ssa.UnOp); ok && u.X == ssa.Value(g) {
					s.follow(u, d+1)
				}
			}
		}
	}
}

func (s *c23slice) call(ci ssa.CallInstruction, v ssa.Value, d int) {
	c := s.c
	cc := ci.Common()
	n := calleeName(cc)
	res, _ := ci.(ssa.Value)
	if strings.HasPrefix(n, "fmt.Fprint") {
		if !c.logWriter(cc.Args[0], 0) {
			s.fail(ci, "written", "is written to a file by "+fname(ci.Parent()))
		}
		return
	}
	if strings.HasPrefix(n, "fmt.Print") || strings.HasPrefix(n, "log.") {
		return
	}
	if strings.HasPrefix(n, "builtin.") || clockSource(n) || strings.HasPrefix(n, "(time.") || strings.HasPrefix(n, "(*time.") || strings.HasPrefix(n, "time.") {
		if res != nil {
			s.follow(res, d+1)
		}
		return
	}
	t := cc.StaticCallee()
	if t == nil {
		if cc.IsInvoke() {
			s.fail(ci, "call|"+n, "is passed to "+n)
			return
		}
		for _, x := range c.w.targets(ci) {
			for _, p := range x.Params {
				if argFor(p, x, ci) == v {
					s.follow(p, d+1)
				}
			}
		}
		return
	}
	if c.w.inMod[t] {
		for _, p := range t.Params {
			if argFor(p, t, ci) == v {
				s.follow(p, d+1)
			}
		}
		return
	}
	if c.isPure(t) {
		if res != nil {
			s.follow(res, d+1)
		}
		return
	}
	s.fail(ci, "call|"+n, "is passed to "+n)
}

// a decision that only guards logging
func (s *c23slice) onlyLogs(iff *ssa.If) bool {
	for _, b := range iff.Block().Succs {
		if len(b.Preds) != 1 {
			continue
		}
		for _, o := range iff.Parent().Blocks {
			if !b.Dominates(o) {
				continue
			}
			if blockReaches(o, iff.Block()) {
				continue
			}
			// what follows both branches is not guarded
			for _, i := range o.Instrs {
				switch x := i.(type) {
				case *ssa.Store:
					if _, ok := s.c.e.rootOf(x.Addr).(*ssa.Alloc); !ok {
						return false
					}
				case *ssa.MapUpdate, *ssa.Send, *ssa.Return, *ssa.Go:
					return false
				case ssa.CallInstruction:
					if !s.c.quiet(x) {
						return false
					}
				}
			}
		}
	}
	// values chosen by the decision
	for _, b := range iff.Parent().Blocks {
		for _, i := range b.Instrs {
			p, ok := i.(*ssa.Phi)
			if !ok {
				break
			}
			if b.Idom() == iff.Block() && len(*p.Referrers()) > 0 {
				return false
			}
		}
	}
	return true
}

// ---------------------------------------------------------------- random numbers

func (c *c23) random() {
	old := c.fixedDefaultSeed()
	for _, f := range c.w.Funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				cl, ok := i.(ssa.CallInstruction)
				if !ok {
					continue
				}
				n := calleeName(cl.Common())
				switch {
				case strings.HasPrefix(n, "github.com/valyala/fastrand.") && !strings.HasSuffix(n, ".init"):
					c.r.bad("random", fname(f)+"|"+n, c.w.ipos(i), "%s draws random numbers from %s, whose generators are seeded from the clock", fname(f), n)
				case strings.HasPrefix(n, "(*github.com/valyala/fastrand.RNG).Uint32"):
					c.generator(f, cl, n)
				case strings.HasPrefix(n, "math/rand/v2."):
					if !strings.HasPrefix(n, "math/rand/v2.New") {
						c.r.bad("random", fname(f)+"|"+n, c.w.ipos(i), "%s draws random numbers from %s, which is seeded differently in every run", fname(f), n)
					}
				case strings.HasPrefix(n, "math/rand."):
					switch n {
					case "math/rand.New", "math/rand.NewZipf", "math/rand.init":
						continue
					case "math/rand.NewSource", "math/rand.Seed":
						c.r.ob("random", "%s: %s with a seed that does not depend on the clock", c.w.ipos(i), n)
						continue // a seed taken from the clock is found by following the clock
					}
					if old {
						c.r.ob("random", "%s: %s with the default source, which is seeded with a fixed value at the start", c.w.ipos(i), n)
					} else {
						c.r.bad("random", fname(f)+"|"+n, c.w.ipos(i), "%s draws random numbers from %s, which is seeded differently in every run", fname(f), n)
					}
				}
			}
		}
	}
}

// is the default source of math/rand given a fixed seed when the program starts (since Go 1.20 it is otherwise seeded randomly)
func (c *c23) fixedDefaultSeed() bool {
	for _, f := range c.w.Funcs {
		if f.Pkg == nil || f.Parent() != nil || f.Name() != "main" && !strings.HasPrefix(f.Name(), "init") {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if cl, ok := i.(ssa.CallInstruction); ok && calleeName(cl.Common()) == "math/rand.Seed" && len(cl.Common().Args) == 1 && everyPath(f, b) {
					if _, ok := cl.Common().Args[0].(*ssa.Const); ok {
						return true
					}
				}
			}
		}
	}
	return false
}

func everyPath(f *ssa.Function, b *ssa.BasicBlock) bool {
	for _, o := range f.Blocks {
		if _, ok := o.Instrs[len(o.Instrs)-1].(*ssa.Return); ok && o != f.Recover && !b.Dominates(o) {
			return false
		}
	}
	return true
}

// a generator object: is Seed called on it before the first draw
func (c *c23) generator(f *ssa.Function, draw ssa.CallInstruction, n string) {
	g := draw.Common().Args[0]
	if p, ok := g.(*ssa.Parameter); ok {
		for _, ci := range c.w.calls().callers[f] {
			if a := argFor(p, f, ci); a != nil {
				c.seeded(ci.Parent(), a, ci)
			}
		}
		return
	}
	c.seeded(f, g, draw)
}

func (c *c23) seeded(f *ssa.Function, g ssa.Value, use ssa.Instruction) {
	al, ok := c.e.rootOf(g).(*ssa.Alloc)
	if !ok {
		if p, isP := g.(*ssa.Parameter); isP {
			for _, ci := range c.w.calls().callers[f] {
				if a := argFor(p, f, ci); a != nil && ci.Parent() != f {
					c.seeded(ci.Parent(), a, ci)
				}
			}
			return
		}
		if cl, isC := g.(*ssa.Call); isC { // a helper that makes a generator
			if t := cl.Call.StaticCallee(); t != nil && c.w.inMod[t] {
				for _, b := range t.Blocks {
					if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(rt.Results) > 0 {
						c.seeded(t, rt.Results[0], rt)
					}
				}
				return
			}
		}
		c.r.undecided("%s: the generator used in %s is not known", c.w.ipos(use), fname(f))
		return
	}
	for _, u := range *al.Referrers() {
		var seed ssa.Value
		switch x := u.(type) {
		case ssa.CallInstruction:
			if strings.HasSuffix(calleeName(x.Common()), "fastrand.RNG).Seed") {
				seed = x.Common().Args[1]
			}
		case *ssa.Store: // a copy of a seeded generator
			if x.Addr == ssa.Value(al) {
				if l, ok := x.Val.(*ssa.UnOp); ok && l.Op == token.MUL {
					if src, ok := l.X.(*ssa.Alloc); ok && src != al {
						c.seeded(f, src, x)
						return
					}
				}
				if cl, ok := x.Val.(*ssa.Call); ok {
					if t := cl.Call.StaticCallee(); t != nil && c.w.inMod[t] {
						for _, b := range t.Blocks {
							if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(rt.Results) > 0 {
								if l, ok := rt.Results[0].(*ssa.UnOp); ok {
									c.seeded(t, l.X, rt)
								}
							}
						}
						return
					}
				}
			}
		}
		if seed == nil {
			continue
		}
		if !(u.Block() == use.Block() && c23before(u, use) || u.Block() != use.Block() && u.Block().Dominates(use.Block())) {
			continue
		}
		if k, ok := seed.(*ssa.Const); ok {
			if n, ok := constInt(k); ok && n == 0 {
				c.r.bad("random", fname(f)+"|zero", c.w.ipos(u), "%s seeds the generator with 0, which makes it take a seed from the clock", fname(f))
				return
			}
		}
		c.r.ob("random", "%s: generator seeded before use", c.w.ipos(use))
		return
	}
	c.r.bad("random", fname(f)+"|unseeded", c.w.ipos(use), "%s draws random numbers from a generator without a seed, which takes one from the clock", fname(f))
}

// ---------------------------------------------------------------- concurrent frames

func (c *c23) shared() {
	dummy := newReport("C07", c.w)
	dummy.rule("held", "", 0)
	a := &c07{w: c.w, r: dummy, e: c.e, acc: map[string][]*c07Access{}, sums: map[string]*c07Sum{}, frozen: map[string]bool{}, safeIO: map[string]bool{}}
	a.ctx = deref(c.w.typ("internal/ops", "Context"))
	a.findFrozen()
	a.regions()
	var ps []string
	for p := range a.acc {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	tickets := map[string][]*c07Access{}
	for _, p := range ps {
		if strings.HasSuffix(p, ".mutex") || strings.HasSuffix(p, ".Mutex") {
			continue
		}
		ok, n := true, 0
		count := false
		done := map[ssa.Instruction]bool{}
		for _, x := range a.acc[p] {
			if !x.write || done[x.instr] {
				continue
			}
			if x.index {
				n++
				continue
			}
			kind := c.classify(p, x)
			done[x.instr] = true
			switch kind {
			case "":
				n++
			case "count":
				n++
				count = true
			case "collect":
				n++
				if !c.collected(p, x) {
					ok = false
				}
			case "unclear":
				ok = false
				c.r.undecided("%s: %s is modified in %s in a way that is not understood", c.w.ipos(x.instr), p, fname(x.instr.Parent()))
			default:
				ok = false
				c.r.bad("shared", p+"|"+fname(x.instr.Parent())+"|"+strings.Fields(kind)[0], c.w.ipos(x.instr), "%s %s in %s: the result depends on the order in which concurrently processed frames complete", p, kind, fname(x.instr.Parent()))
			}
		}
		if count {
			for _, x := range a.acc[p] {
				if !x.write {
					tickets[p] = append(tickets[p], x)
				}
			}
		}
		if ok && n > 0 {
			c.r.ob("shared", "%s: %d modifications", p, n)
		}
	}
	// numbers drawn from shared counters
	var ts []string
	for p := range tickets {
		ts = append(ts, p)
	}
	sort.Strings(ts)
	for _, p := range ts {
		seen := map[ssa.Instruction]bool{}
		ok := true
		for _, x := range tickets[p] {
			v, isV := x.instr.(ssa.Value)
			if !isV || seen[x.instr] {
				continue
			}
			seen[x.instr] = true
			if i, what := c.ticket(v, p); what != "" {
				ok = false
				c.r.bad("shared", p+"|ticket|"+fname(i.Parent()), c.w.ipos(i), "the number of frames counted in %s %s in %s: it depends on the order in which concurrently processed frames complete", p, what, fname(i.Parent()))
			}
		}
		if ok {
			c.r.ob("shared", "%s: the count is only compared and counted on", p)
		}
	}
	// atomic counters
	for _, f := range c.w.Funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				cl, ok := i.(*ssa.Call)
				if !ok {
					continue
				}
				n := calleeName(&cl.Call)
				if strings.HasPrefix(n, "sync/atomic.Add") || strings.HasPrefix(n, "(*sync/atomic.") && strings.HasSuffix(n, ").Add") {
					if j, what := c.ticket(cl, "an atomic counter"); what != "" {
						c.r.bad("shared", "atomic|"+fname(f), c.w.ipos(j), "a number drawn from a shared counter %s in %s: it depends on the order in which concurrent work proceeds", what, fname(j.Parent()))
					}
				}
			}
		}
	}
}

// how a shared cell is modified: "" the same whatever the order, "count", "collect", or what is wrong
func (c *c23) classify(p string, x *c07Access) string {
	if strings.HasSuffix(p, "{}") {
		return "" // keyed; iterations over maps are judged separately
	}
	if strings.HasSuffix(p, "!") {
		if x.dep {
			return "receives what belongs to a frame"
		}
		return ""
	}
	st, ok := x.instr.(*ssa.Store)
	if !ok {
		if strings.HasSuffix(p, "[]") {
			return ""
		}
		if a, isC := x.instr.(ssa.CallInstruction); isC && strings.HasPrefix(calleeName(a.Common()), "sync/atomic.") {
			return "count"
		}
		return "unclear"
	}
	if t := deref(st.Addr.Type()); isErrT(t) {
		return "" // which of several errors is reported may differ
	}
	if !x.dep {
		if c.commutative(st.Val, st.Addr) {
			return "count"
		}
		if b, ok := st.Val.(*ssa.BinOp); ok && (c.sameCell(b.X, st.Addr) || c.sameCell(b.Y, st.Addr)) {
			return "count"
		}
		if sl, ok := st.Val.(*ssa.Slice); ok && c.sameCell(sl.X, st.Addr) {
			return "count"
		}
		return ""
	}
	if ap := appended(st.Val); ap != nil && c.sameCell(ap.Call.Args[0], st.Addr) {
		return "collect"
	}
	if c.commutative(st.Val, st.Addr) {
		return "count"
	}
	if b, ok := st.Val.(*ssa.BinOp); ok && (c.sameCell(b.X, st.Addr) || c.sameCell(b.Y, st.Addr)) {
		if isFloatT(b.Type()) {
			return "accumulates floating point values of the frames"
		}
		return "accumulates values of the frames"
	}
	if x.fuzzy {
		return "unclear"
	}
	// kept where it is better than what is there
	for b := st.Block().Idom(); b != nil; b = b.Idom() {
		if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			if bo, ok := iff.Cond.(*ssa.BinOp); ok && (c.sameCell(bo.X, st.Addr) && stripConv(bo.Y) == stripConv(st.Val) || c.sameCell(bo.Y, st.Addr) && stripConv(bo.X) == stripConv(st.Val)) {
				switch bo.Op {
				case token.LSS, token.LEQ, token.GTR, token.GEQ:
					return "count"
				}
			}
		}
	}
	return "is set to what belongs to the frame that comes first or last"
}

// a shared slice that grows in the order of completion: every other function using it sorts it first
func (c *c23) collected(p string, x *c07Access) bool {
	st := x.instr.(*ssa.Store)
	why := "completion of the frames"
	if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
		good := true
		typ := deref(fa.X.Type())
		for _, f := range c.w.Funcs {
			first := true
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					u, ok := i.(*ssa.FieldAddr)
					if !ok || u.Field != fa.Field || !types.Identical(deref(u.X.Type()), typ) {
						continue
					}
					reads := false
					for _, r := range *u.Referrers() {
						if l, ok := r.(*ssa.UnOp); ok && !c.onlyGrows(l, u) {
							reads = true
						}
					}
					if !reads || !first {
						continue
					}
					if c.comparator(f) {
						continue
					}
					first = false
					if !c.sortedAfter(f, nil, u, why) {
						good = false
					}
				}
			}
		}
		return good
	}
	// a variable of the function that started the goroutines
	var cell ssa.Value = st.Addr
	for d := 0; d < 5; d++ {
		fv, ok := cell.(*ssa.FreeVar)
		if !ok {
			break
		}
		b := c.e.bind[fv]
		if len(b) != 1 {
			c.r.undecided("%s: which variable collects %s is not known", c.w.ipos(st), p)
			return false
		}
		cell = b[0]
	}
	al, ok := cell.(*ssa.Alloc)
	if !ok {
		c.r.undecided("%s: which variable collects %s is not known", c.w.ipos(st), p)
		return false
	}
	return c.sortedAfter(al.Parent(), nil, al, why)
}

// loads used only for the append itself, its length, or a comparison with nil
func (c *c23) onlyGrows(l *ssa.UnOp, a *ssa.FieldAddr) bool {
	for _, u := range *l.Referrers() {
		ci, ok := u.(*ssa.Call)
		if ok {
			n := calleeName(&ci.Call)
			if n == "builtin.len" || n == "builtin.cap" {
				continue
			}
			if n == "builtin.append" && ci.Call.Args[0] == ssa.Value(l) {
				same := true
				for _, r := range *ci.Referrers() {
					if st, ok := r.(*ssa.Store); !ok || !c.sameCell(l, st.Addr) {
						same = false
					}
				}
				if same {
					continue
				}
			}
		}
		if b, ok := u.(*ssa.BinOp); ok && (isNilConst(b.X) || isNilConst(b.Y)) {
			continue
		}
		return false
	}
	return true
}

// a function passed to a sort call as the order
func (c *c23) comparator(f *ssa.Function) bool {
	if f.Parent() == nil {
		return f.Name() == "Less" || f.Name() == "Swap" || f.Name() == "Len"
	}
	for _, b := range f.Parent().Blocks {
		for _, i := range b.Instrs {
			mc, ok := i.(*ssa.MakeClosure)
			if !ok || mc.Fn != ssa.Value(f) {
				continue
			}
			for _, u := range *mc.Referrers() {
				if ci, ok := u.(ssa.CallInstruction); !ok || !isSortCall(calleeName(ci.Common())) {
					return false
				}
			}
			return true
		}
	}
	return false
}

// does a number drawn from a shared counter end up in what is produced
func (c *c23) ticket(v ssa.Value, p string) (ssa.Instruction, string) {
	seen := map[ssa.Value]bool{}
	var at ssa.Instruction
	what := ""
	var follow func(v ssa.Value, d int)
	follow = func(v ssa.Value, d int) {
		if seen[v] || what != "" || d > 20 || v.Referrers() == nil {
			return
		}
		seen[v] = true
		for _, u := range *v.Referrers() {
			switch x := u.(type) {
			case *ssa.Store:
				if x.Val != v {
					continue
				}
				if c.sameCellAs(v, x.Addr, seen) {
					continue // counted on
				}
				switch r := c.e.rootOf(x.Addr).(type) {
				case *ssa.Alloc:
					follow(r, d+1)
				default:
					at, what = u, "is stored in "+c.describe(x.Addr)
				}
			case *ssa.MapUpdate:
				at, what = u, "is stored in a map"
			case *ssa.IndexAddr:
				if x.Index == v {
					for _, y := range *x.Referrers() {
						if st, ok := y.(*ssa.Store); ok && st.Addr == ssa.Value(x) {
							at, what = y, "selects the place of a result"
						}
					}
					follow(x, d+1)
					continue
				}
				follow(x, d+1)
			case *ssa.Return:
				for _, ci := range c.w.calls().callers[u.Parent()] {
					if cv, ok := ci.(ssa.Value); ok {
						follow(cv, d+1)
					}
				}
			case ssa.CallInstruction:
				n := calleeName(x.Common())
				if strings.HasPrefix(n, "fmt.Fprint") && c.logWriter(x.Common().Args[0], 0) || strings.HasPrefix(n, "fmt.Print") || strings.HasPrefix(n, "log.") || n == "fmt.Errorf" || n == "errors.New" {
					continue
				}
				if t := x.Common().StaticCallee(); t != nil && c.w.inMod[t] {
					for _, q := range t.Params {
						if argFor(q, t, x) == v {
							follow(q, d+1)
						}
					}
					continue
				}
				if t := x.Common().StaticCallee(); t != nil && c.isPure(t) || strings.HasPrefix(n, "builtin.") {
					if cv, ok := u.(ssa.Value); ok {
						follow(cv, d+1)
					}
					continue
				}
				at, what = u, "is passed to "+n
			case *ssa.If:
				// decides what is done with the frame at hand
				if i := c.guardsFrame(x); i != nil {
					at, what = i, "decides what happens to the frame"
				}
			case ssa.Value:
				follow(x, d+1)
			}
		}
	}
	follow(v, 0)
	return at, what
}

func (c *c23) sameCellAs(v, addr ssa.Value, seen map[ssa.Value]bool) bool {
	if b, ok := v.(*ssa.BinOp); ok {
		return c.sameCell(b.X, addr) || c.sameCell(b.Y, addr)
	}
	return c.sameCell(v, addr)
}

// a store to an image or to data of one under a decision
func (c *c23) guardsFrame(iff *ssa.If) ssa.Instruction {
	for _, b := range iff.Block().Succs {
		if len(b.Preds) != 1 {
			continue
		}
		for _, o := range iff.Parent().Blocks {
			if !b.Dominates(o) {
				continue
			}
			for _, i := range o.Instrs {
				switch x := i.(type) {
				case *ssa.Store:
					if fa, ok := x.Addr.(*ssa.FieldAddr); ok && isImageT(fa.X.Type()) {
						return i
					}
					if ia, ok := x.Addr.(*ssa.IndexAddr); ok && isFloatT(x.Val.Type()) {
						if _, ok := c.e.rootOf(ia).(*ssa.Alloc); !ok {
							return i
						}
					}
				}
			}
		}
	}
	return nil
}

// ---------------------------------------------------------------- channels

func (c *c23) channels() {
	for _, f := range c.w.Funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				switch x := i.(type) {
				case *ssa.UnOp:
					if x.Op == token.ARROW {
						c.receive(f, x, x.X)
					}
				case *ssa.Select:
					if len(x.States) > 1 {
						n := 0
						for _, s := range x.States {
							if s.Dir == types.RecvOnly {
								n++
							}
						}
						if n > 1 {
							c.r.undecided("%s: select among several channels", c.w.ipos(x))
						}
					}
				case *ssa.Range:
				}
			}
		}
	}
}

// do several goroutines send on the channel
func (c *c23) manySenders(ch ssa.Value) bool {
	roots := map[ssa.Value]bool{}
	for _, a := range c.e.resolve(ch) {
		roots[a.Root] = true
	}
	n := 0
	for _, f := range c.w.Funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				s, ok := i.(*ssa.Send)
				if !ok {
					continue
				}
				same := s.Chan == ch
				for _, a := range c.e.resolve(s.Chan) {
					same = same || roots[a.Root]
				}
				if !same {
					continue
				}
				if c.goroutineBody(f) {
					n += 2
				}
			}
		}
	}
	return n > 1
}

func (c *c23) goroutineBody(f *ssa.Function) bool {
	for g := f; g != nil; g = g.Parent() {
		for _, h := range c.w.Funcs {
			for _, b := range h.Blocks {
				for _, i := range b.Instrs {
					if x, ok := i.(*ssa.Go); ok {
						if t := x.Call.StaticCallee(); t == g && inCycle(b) {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

func (c *c23) receive(f *ssa.Function, x *ssa.UnOp, ch ssa.Value) {
	if !c.manySenders(ch) && !(inCycle(x.Block()) && c.goroutineBody(f)) {
		return
	}
	if t, ok := x.Type().(*types.Tuple); ok && t.Len() > 0 && isErrT(t.At(0).Type()) || isErrT(x.Type()) {
		c.r.ob("channel", "%s: errors", c.w.ipos(x))
		return
	}
	used := false
	t := map[ssa.Value]bool{x: true}
	for chg := true; chg; {
		chg = false
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				v, ok := i.(ssa.Value)
				if !ok || t[v] {
					continue
				}
				if _, isPhi := v.(*ssa.Phi); isPhi {
					continue
				}
				for _, o := range i.Operands(nil) {
					if *o != nil && t[*o] {
						t[v], chg = true, true
						break
					}
				}
			}
		}
	}
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			for _, o := range i.Operands(nil) {
				if *o == nil || !t[*o] {
					continue
				}
				used = true
				switch y := i.(type) {
				case *ssa.Phi:
					if isErrT(y.Type()) {
						continue
					}
					l := loopOf(x.Block())
					if l != nil && y.Block() == l.head {
						if ap := appended(*o); ap != nil {
							if c.sortedAfter(f, l, y, "arrival on a channel") {
								continue
							}
							return
						}
						if bo, ok := (*o).(*ssa.BinOp); ok && bo.Op == token.ADD && !isFloatT(bo.Type()) {
							if bt, ok := bo.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsInteger != 0 {
								continue
							}
						}
						c.r.bad("channel", fname(f)+"|carried", c.w.ipos(x), "%s combines values received from several goroutines in the order of arrival", fname(f))
						return
					}
				case *ssa.Store:
					if y.Val != *o {
						continue
					}
					if isErrT(y.Val.Type()) {
						continue
					}
					if ia, ok := y.Addr.(*ssa.IndexAddr); ok && t[ia.Index] {
						continue
					}
					if ap := appended(y.Val); ap != nil {
						if c.sortedAfter(f, loopOf(x.Block()), y.Addr, "arrival on a channel") {
							continue
						}
						return
					}
					if al, ok := c.e.rootOf(y.Addr).(*ssa.Alloc); ok && c.localTo(al, x) {
						continue
					}
					if c.commutative(y.Val, y.Addr) {
						continue
					}
					c.r.bad("channel", fname(f)+"|store", c.w.ipos(y), "%s stores values received from several goroutines in the order of arrival", fname(f))
					return
				case ssa.CallInstruction:
					if n := calleeName(y.Common()); n == "builtin.append" || c.quiet(y) {
						continue
					} else if strings.HasPrefix(n, "fmt.F") || strings.Contains(n, "Write") {
						c.r.bad("channel", fname(f)+"|write", c.w.ipos(y), "%s writes values received from several goroutines in the order of arrival", fname(f))
						return
					}
				}
			}
		}
	}
	if used {
		c.r.ob("channel", "%s: received values are not used in the order of arrival", c.w.ipos(x))
	} else {
		c.r.ob("channel", "%s: what is received is only waited for", c.w.ipos(x))
	}
}

func (c *c23) localTo(al *ssa.Alloc, x ssa.Instruction) bool {
	l := loopOf(x.Block())
	return l == nil || l.body[al.Block()]
}
