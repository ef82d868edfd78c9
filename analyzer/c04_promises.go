package main

// C04: every promise a step receives or creates is evaluated, handed on, or the step fails; none is evaluated twice.
//
// For every promise (or slice of promises) that enters a function - as a parameter, captured variable or call result -
// the paths of the function are followed from there to its returns. A path is fine if it consumes every element
// (evaluates it, passes it on, stores it or returns it) exactly once, or ends in a failing return.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type c04 struct {
	w     *World
	r     *Report
	sum   map[*ssa.Parameter]*c04sum
	busy  map[*ssa.Parameter]bool
	quiet bool
}

// what a function does with a promise parameter on success
type c04sum struct {
	never, always bool
	flag          int    // consumes exactly if it sets field flagField of parameter flag (-1: none)
	flagField     string //
}

func isPromiseT(t types.Type) bool {
	s, ok := t.Underlying().(*types.Signature)
	if !ok || s.Params().Len() != 0 || s.Results().Len() != 2 || !isErrT(s.Results().At(1).Type()) {
		return false
	}
	return strings.HasSuffix(s.Results().At(0).Type().String(), "fits.Image")
}

func isPromisesT(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isPromiseT(s.Elem())
}

// source of tracked promises
type c04src struct {
	v     ssa.Value // parameter, free variable (cell) or result
	start ssa.Instruction
	slice bool
	desc  string
	loop  *loop     // iteration walk: element v[iv] of one iteration of loop
	guard loopGuard //
	lit   int64     // known number of elements, -1 if unknown
}

type pst struct {
	b     *ssa.BasicBlock
	idx   int
	hold  map[ssa.Value]int64  // slice values (and cells) holding the promises from element k on
	elem  map[ssa.Value]string // values holding a single element: its index, or "iv", "?"
	facts map[string]bool      // known boolean fields
	set   map[string]bool      // fields set to true on this path
	whole bool
	fuzzy bool // consumed in a way that does not tell which elements
	mask  uint64
	rest  int64 // elements from here on are consumed, -1 none
	lo    int64 // bounds of the number of elements
	hi    int64
	nils  map[ssa.Value]bool // values known to be nil
	early bool
	via   string // first consumption
}

func (s *pst) clone() *pst {
	n := *s
	n.hold = map[ssa.Value]int64{}
	for k, v := range s.hold {
		n.hold[k] = v
	}
	n.elem = map[ssa.Value]string{}
	for k, v := range s.elem {
		n.elem[k] = v
	}
	n.facts = map[string]bool{}
	for k, v := range s.facts {
		n.facts[k] = v
	}
	n.set = map[string]bool{}
	for k, v := range s.set {
		n.set[k] = v
	}
	n.nils = map[ssa.Value]bool{}
	for k, v := range s.nils {
		n.nils[k] = v
	}
	return &n
}

func (s *pst) key() string {
	var ks []string
	for v, k := range s.hold {
		ks = append(ks, fmt.Sprintf("h%s:%d", v.Name(), k))
	}
	for v, k := range s.elem {
		ks = append(ks, fmt.Sprintf("e%s:%s", v.Name(), k))
	}
	for v, k := range s.facts {
		ks = append(ks, fmt.Sprintf("f%s:%v", v, k))
	}
	for v := range s.set {
		ks = append(ks, "s"+v)
	}
	for v := range s.nils {
		ks = append(ks, "n"+v.Name())
	}
	sort.Strings(ks)
	return fmt.Sprint(s.b.Index, s.idx, s.whole, s.fuzzy, s.mask, s.rest, s.lo, s.hi, s.early, ks)
}

func (s *pst) complete() bool {
	if s.whole || s.fuzzy || s.hi == 0 {
		return true
	}
	n := int64(-1)
	if s.hi >= 0 && s.lo == s.hi {
		n = s.hi
	}
	for k := int64(0); k < 63; k++ {
		if k == n || s.rest >= 0 && k >= s.rest {
			return true
		}
		if s.mask&(1<<uint(k)) == 0 {
			return false
		}
	}
	return false
}

func (s *pst) any() bool { return s.whole || s.fuzzy || s.mask != 0 || s.rest >= 0 }

type c04walk struct {
	c       *c04
	f       *ssa.Function
	src     c04src
	loops   map[*loop][]ssa.Value // element loops over the source: leaving one through its guard consumes all
	forgot  map[ssa.Instruction]string
	doubles map[ssa.Instruction]string
	rets    []c04ret
	gaveUp  bool
	e       *effects
}

type c04ret struct {
	consumed bool
	set      map[string]bool
	ret      ssa.Instruction
}

func runC04(w *World, r *Report) {
	r.rule("consume", "each promise entering a function is consumed on every path to a successful return", 24)
	r.rule("once", "no path consumes the same promise twice", 24)
	r.rule("iterate", "loops over promises cover all elements and consume one in each iteration", 3)
	r.rule("side-output", "promises of optional side outputs are evaluated", 2)
	c := &c04{w: w, r: r, sum: map[*ssa.Parameter]*c04sum{}, busy: map[*ssa.Parameter]bool{}}
	for _, f := range w.Funcs {
		if f.Synthetic != "" {
			continue
		}
		c.check(f)
	}
}

func (c *c04) sources(f *ssa.Function) []c04src {
	var res []c04src
	add := func(v ssa.Value, at ssa.Instruction, t types.Type, desc string) {
		if isPromisesT(t) {
			res = append(res, c04src{v: v, start: at, slice: true, desc: desc, lit: -1})
		} else if isPromiseT(t) {
			res = append(res, c04src{v: v, start: at, desc: desc, lit: -1})
		}
	}
	for i, p := range f.Params {
		_ = i
		add(p, nil, p.Type(), "parameter "+p.Name())
	}
	for _, v := range f.FreeVars {
		if pt, ok := v.Type().Underlying().(*types.Pointer); ok {
			add(v, nil, pt.Elem(), "captured "+v.Name())
		}
	}
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			call, ok := i.(*ssa.Call)
			if !ok || call.Call.IsInvoke() == false && c.isBuiltin(call) {
				continue
			}
			name := calleeName(&call.Call)
			if name == "" {
				name = "call"
			}
			if k := strings.LastIndexAny(name, "./"); k >= 0 {
				name = name[k+1:]
			}
			res0 := len(res)
			switch t := call.Type().(type) {
			case *types.Tuple:
				for k := 0; k < t.Len(); k++ {
					if !isPromisesT(t.At(k).Type()) && !isPromiseT(t.At(k).Type()) {
						continue
					}
					var ex ssa.Value
					for _, r := range *call.Referrers() {
						if e, ok := r.(*ssa.Extract); ok && e.Index == k {
							ex = e
						}
					}
					if ex == nil {
						if returnedWhole(call) {
							continue
						}
						ex = call
					}
					add(ex, call, t.At(k).Type(), "result of "+name)
				}
			default:
				add(call, call, t, "result of "+name)
			}
			for k := res0; k < len(res); k++ {
				// unary steps return as many promises as they are given
				if res[k].slice && c.preservesCount(call) {
					for _, a := range call.Call.Args {
						if isPromisesT(a.Type()) {
							if sl, ok := a.(*ssa.Slice); ok {
								if at, ok := deref(sl.X.Type()).Underlying().(*types.Array); ok && sl.Low == nil && sl.High == nil {
									res[k].lit = at.Len()
								}
							}
						}
					}
				}
			}
		}
	}
	return res
}

func (c *c04) isBuiltin(call *ssa.Call) bool {
	_, ok := call.Call.Value.(*ssa.Builtin)
	return ok
}

// does every target of the call return a slice made with as many elements as the one it is given?
func (c *c04) preservesCount(call *ssa.Call) bool {
	ts := c.w.targets(call)
	p := newProver(c.w, nil)
	p.open = func(f *ssa.Function) bool { return true }
	for _, t := range ts {
		var in *ssa.Parameter
		for _, q := range t.Params {
			if isPromisesT(q.Type()) {
				in = q
			}
		}
		if in == nil || len(t.Blocks) == 0 {
			return false
		}
		for _, b := range t.Blocks {
			rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok || mayFail(rt) || b == t.Recover {
				continue
			}
			for k := range rt.Results {
				if v := retVal(rt, k); isPromisesT(v.Type()) {
					d := p.lenOf(v).add(p.lenOf(in), -1)
					if p.ge0(b, d) != vProved || p.ge0(b, poly{}.add(d, -1)) != vProved {
						return false
					}
				}
			}
		}
	}
	return len(ts) > 0
}

func returnedWhole(call *ssa.Call) bool {
	for _, r := range *call.Referrers() {
		if _, ok := r.(*ssa.Return); ok {
			return true
		}
	}
	return false
}

func (c *c04) check(f *ssa.Function) {
	for _, s := range c.sources(f) {
		if p, ok := s.v.(*ssa.Parameter); ok {
			sm := c.summary(p)
			if sm.never && f.Signature.Recv() != nil && f.Name() == "MakePromises" {
				c.r.bad("consume", fname(f)+"|"+s.desc, c.w.pos(f.Pos()), "%s: the %s are never evaluated or handed on", fname(f), s.desc)
			}
			if sm.never || sm.flag >= 0 {
				continue
			}
		}
		w := c.walk(f, s)
		if w.gaveUp {
			c.r.undecided("%s: %s: too many paths", fname(f), s.desc)
			continue
		}
		c.r.ob("consume", "%s: %s", fname(f), s.desc)
		c.r.ob("once", "%s: %s", fname(f), s.desc)
		if s.lit == 1 {
			c.r.ob("side-output", "%s: %s", fname(f), s.desc)
		}
		for i, m := range w.forgot {
			c.r.bad("consume", fname(f)+"|"+s.desc, c.w.ipos(i), "%s: %s %s", fname(f), s.desc, m)
		}
		for i, m := range w.doubles {
			c.r.bad("once", fname(f)+"|"+s.desc, c.w.ipos(i), "%s: %s %s", fname(f), s.desc, m)
		}
	}
}

func (c *c04) summary(p *ssa.Parameter) *c04sum {
	if s := c.sum[p]; s != nil {
		return s
	}
	if c.busy[p] {
		return &c04sum{always: true, flag: -1}
	}
	c.busy[p] = true
	defer delete(c.busy, p)
	s := &c04sum{flag: -1}
	f := p.Parent()
	w := c.walk(f, c04src{v: p, slice: isPromisesT(p.Type()), desc: "parameter " + p.Name(), lit: -1})
	some, all := false, true
	for _, r := range w.rets {
		if r.consumed {
			some = true
		} else {
			all = false
		}
	}
	s.never, s.always = !some && len(w.rets) > 0, all
	if some && !all {
		// consumed exactly on the paths that set some flag?
		var cand map[string]bool
		for _, r := range w.rets {
			if !r.consumed {
				continue
			}
			if cand == nil {
				cand = map[string]bool{}
				for k := range r.set {
					cand[k] = true
				}
			}
			for k := range cand {
				if !r.set[k] {
					delete(cand, k)
				}
			}
		}
		for _, r := range w.rets {
			if !r.consumed {
				for k := range r.set {
					delete(cand, k)
				}
			}
		}
		for _, k := range keysOf(cand) {
			for i, q := range f.Params {
				if strings.HasPrefix(k, q.Name()+".") {
					s.flag, s.flagField = i, strings.TrimPrefix(k, q.Name())
				}
			}
		}
	}
	c.sum[p] = s
	return s
}

func (c *c04) walk(f *ssa.Function, s c04src) *c04walk {
	w := &c04walk{c: c, f: f, src: s, forgot: map[ssa.Instruction]string{}, doubles: map[ssa.Instruction]string{}, e: c.w.effects()}
	st := &pst{hold: map[ssa.Value]int64{}, elem: map[ssa.Value]string{}, facts: map[string]bool{}, set: map[string]bool{}, rest: -1, lo: 0, hi: -1}
	if s.lit >= 0 {
		st.lo, st.hi = s.lit, s.lit
	}
	if s.slice {
		w.elementLoops()
	}
	if s.slice {
		st.hold[s.v] = 0
	} else {
		st.elem[s.v] = "0"
		st.lo, st.hi = 1, 1
	}
	if s.loop != nil {
		st.hold, st.elem = map[ssa.Value]int64{s.v: 0}, map[ssa.Value]string{}
		st.lo, st.hi = 1, 1
	}
	switch {
	case s.loop != nil:
		st.b = s.guard.iff.Block().Succs[s.guard.stayK]
	case s.start != nil:
		st.b = s.start.Block()
		for k, i := range st.b.Instrs {
			if i == s.start {
				st.idx = k + 1
			}
		}
	default:
		st.b = f.Blocks[0]
	}
	seen := map[string]bool{}
	work := []*pst{st}
	for len(work) > 0 {
		if len(seen) > 30000 {
			w.gaveUp = true
			return w
		}
		x := work[len(work)-1]
		work = work[:len(work)-1]
		if k := x.key(); seen[k] {
			continue
		} else {
			seen[k] = true
		}
		work = append(work, w.run(x)...)
	}
	return w
}

// a value that holds the tracked slice in any state (used to recognise loops)
func (w *c04walk) mayHold(v ssa.Value, d int) bool {
	if v == w.src.v {
		return true
	}
	if d > 8 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Phi:
		for _, e := range x.Edges {
			if w.mayHold(e, d+1) {
				return true
			}
		}
	case *ssa.ChangeType:
		return w.mayHold(x.X, d+1)
	case *ssa.Alloc:
		for _, r := range *x.Referrers() {
			if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(x) && w.mayHold(st.Val, d+1) {
				return true
			}
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			for _, a := range x.Call.Args {
				if sl, ok := a.(*ssa.Slice); ok {
					a = sl.X
				}
				if w.mayHold(a, d+1) {
					return true
				}
			}
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if x.X == w.src.v {
				return true
			}
			if a, ok := x.X.(*ssa.Alloc); ok {
				for _, r := range *a.Referrers() {
					if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(a) && w.mayHold(st.Val, d+1) {
						return true
					}
				}
			}
		}
	}
	return false
}

// loops over the elements of the source: check them, and remember that leaving them consumes everything
func (w *c04walk) elementLoops() {
	if w.src.loop != nil {
		return
	}
	w.loops = map[*loop][]ssa.Value{}
	for _, l := range loopsOf(w.f) {
		accessed := false
		var access ssa.Instruction
		var bases []ssa.Value
		for b := range l.body {
			for _, i := range b.Instrs {
				if w.usesAt(i, l) {
					accessed = true
					access = i
					if ia, ok := i.(*ssa.IndexAddr); ok {
						bases = append(bases, ia.X)
					}
				}
			}
		}
		if !accessed {
			continue
		}
		var g *loopGuard
		for _, x := range l.guards() {
			x := x
			if x.op == token.LSS && lenOf(x.bound, func(v ssa.Value) bool { return w.mayHold(v, 0) }) {
				g = &x
			}
		}
		if g == nil {
			// other shapes: treated as consuming, unless the bound leaves out elements
			w.loops[l] = append(bases, w.src.v)
			for _, x := range l.guards() {
				b, off := baseOffset(x.bound)
				if x.op == token.LSS && off < 0 && lenOf(b, func(v ssa.Value) bool { return w.mayHold(v, 0) }) {
					w.report(access, "are not all covered by the loop: it ends before the last element")
				}
			}
			continue
		}
		init, ok := constInt(g.x.init)
		first := init + g.x.off
		w.loops[l] = append(bases, w.src.v)
		if ok && first > 0 {
			w.report(access, fmt.Sprintf("are not all covered by the loop: it starts at element %d", first))
			continue
		}
		if g.x.step != 1 && g.x.inc == nil {
			w.report(access, "are not all covered by the loop: it skips elements")
			continue
		}
		if w.c.busy == nil {
			continue
		}
		sub := w.c.walk(w.f, c04src{v: w.src.v, slice: false, desc: w.src.desc, loop: l, guard: *g, lit: -1})
		if !w.inSummary() {
			w.c.r.ob("iterate", "%s: loop over %s", fname(w.f), w.src.desc)
		}
		for i, m := range sub.forgot {
			w.report(i, m)
		}
		for i, m := range sub.doubles {
			w.doubles[i] = m
		}
	}
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}

// an index that is an induction variable, or is looked up in a table (a permutation) under one
func elemIndex(v ssa.Value) (indvar, bool) {
	if iv, ok := induction(v); ok {
		return iv, true
	}
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if ia, ok := u.X.(*ssa.IndexAddr); ok {
			return induction(ia.Index)
		}
	}
	return indvar{}, false
}

func (w *c04walk) inSummary() bool { return len(w.c.busy) > 0 }

func (w *c04walk) report(i ssa.Instruction, m string) {
	if i == nil {
		i = w.f.Blocks[0].Instrs[0]
	}
	w.forgot[i] = m
}

// does i access the element of the source selected by the induction variable of l (or hand on the source with that index)?
func (w *c04walk) usesAt(i ssa.Instruction, l *loop) bool {
	switch x := i.(type) {
	case *ssa.IndexAddr:
		if !w.mayHold(x.X, 0) {
			return false
		}
		iv, ok := elemIndex(x.Index)
		return ok && iv.l == l
	case *ssa.MakeClosure:
		return w.indexedClosure(x, l)
	case ssa.CallInstruction:
		return w.indexedHandOn(x.Common(), l)
	}
	return false
}

// a closure made in each iteration of l, which captures the list and its own copy of the index
func (w *c04walk) indexedClosure(mc *ssa.MakeClosure, l *loop) bool {
	list, idx := false, false
	for k, b := range mc.Bindings {
		if w.mayHold(b, 0) && w.closureUses(mc, k) {
			list = true
		}
		if a, ok := b.(*ssa.Alloc); ok && l.body[a.Block()] {
			if v := onlyStore(a); v != nil {
				if iv, ok := elemIndex(v); ok && iv.l == l {
					idx = true
				}
			}
		}
	}
	return list && idx
}

func (w *c04walk) indexedHandOn(cc *ssa.CallCommon, l *loop) bool {
	if _, ok := cc.Value.(*ssa.Builtin); ok {
		return false
	}
	h, idx := false, false
	if mc, ok := cc.Value.(*ssa.MakeClosure); ok && !cc.IsInvoke() {
		if w.indexedClosure(mc, l) {
			return true
		}
		for k, b := range mc.Bindings {
			if w.mayHold(b, 0) && w.closureUses(mc, k) {
				h = true
			}
		}
	}
	for _, a := range cc.Args {
		if w.mayHold(a, 0) {
			h = true
		}
		if iv, ok := induction(a); ok && iv.l == l {
			idx = true
		}
	}
	return h && idx
}

func (w *c04walk) factKey(addr ssa.Value) string {
	fa, ok := addr.(*ssa.FieldAddr)
	if !ok {
		return ""
	}
	for _, a := range w.e.resolve(fa.X) {
		switch a.Root.(type) {
		case *ssa.Parameter, *ssa.FreeVar:
			return a.Root.Name() + a.Path + "." + fieldName(fa.X.Type(), fa.Field)
		}
	}
	return ""
}

// note that elements of the source are consumed
func (w *c04walk) consume(s *pst, i ssa.Instruction, from int64, only string) {
	dup := false
	switch {
	case only == "":
		dup = s.whole || s.rest >= 0 || s.mask>>uint(from) != 0
		if from == 0 {
			s.whole = true
		} else if s.rest < 0 || from < s.rest {
			s.rest = from
		}
	case only == "iv":
		dup = s.whole
		s.whole = true
	case only == "?":
		dup = s.whole && !s.fuzzy && s.hi == 1
		s.fuzzy = true
	default:
		k := int64(0)
		fmt.Sscanf(only, "%d", &k)
		dup = s.whole || s.rest >= 0 && k >= s.rest || s.mask&(1<<uint(k)) != 0
		if k < 63 {
			s.mask |= 1 << uint(k)
		}
	}
	if dup && !s.fuzzy {
		w.doubles[i] = "is evaluated or handed on again, after " + s.via
	}
	if s.via == "" {
		s.via = w.c.w.ipos(i)
	}
}

func (w *c04walk) run(s *pst) []*pst {
	s = s.clone()
	for ; s.idx < len(s.b.Instrs); s.idx++ {
		i := s.b.Instrs[s.idx]
		if w.src.start == i {
			// the call is made again
			for _, a := range i.(ssa.CallInstruction).Common().Args {
				if lo, ok := s.hold[a]; ok {
					w.consume(s, i, lo, "") // and given the promises it returned before
				} else if el, ok := s.elem[a]; ok {
					w.consumeEl(s, i, el)
				}
			}
			if !s.complete() {
				w.forgot[i] = "are not evaluated or handed on before the next iteration"
				if s.any() {
					w.forgot[i] = "are not all evaluated or handed on before the next iteration"
				}
			}
			return nil
		}
		if forks := w.step(s, i); forks != nil {
			for _, x := range forks {
				x.idx++
			}
			return forks
		}
		switch x := i.(type) {
		case *ssa.Return:
			w.atReturn(s, x)
			return nil
		case *ssa.Panic:
			return nil
		}
	}
	var out []*pst
	iff, _ := s.b.Instrs[len(s.b.Instrs)-1].(*ssa.If)
	for k, t := range s.b.Succs {
		if enumExhausted(s.b, k) {
			continue
		}
		n := s.clone()
		n.b, n.idx = t, 0
		if iff != nil && !w.edge(n, iff, k) {
			continue
		}
		// phis
		pi := -1
		for j, p := range t.Preds {
			if p == s.b {
				pi = j
				if len(s.b.Succs) == 2 && s.b.Succs[0] == s.b.Succs[1] {
					break
				}
			}
		}
		nh, ne := map[ssa.Value]int64{}, map[ssa.Value]string{}
		var phis []ssa.Value
		for _, i := range t.Instrs {
			phi, ok := i.(*ssa.Phi)
			if !ok {
				break
			}
			phis = append(phis, phi)
			delete(n.nils, phi)
			if e := phi.Edges[pi]; s.nils[e] || isNilConst(e) {
				n.nils[phi] = true
			}
			if lo, ok := s.hold[phi.Edges[pi]]; ok {
				nh[phi] = lo
			}
			if el, ok := s.elem[phi.Edges[pi]]; ok {
				ne[phi] = el
			}
		}
		for _, p := range phis {
			delete(n.hold, p)
			delete(n.elem, p)
		}
		for v, lo := range nh {
			n.hold[v] = lo
		}
		for v, el := range ne {
			n.elem[v] = el
		}
		if w.src.loop != nil {
			if t == w.src.loop.head {
				if !n.complete() {
					w.forgot[s.b.Instrs[len(s.b.Instrs)-1]] = "are not all consumed: an iteration of the loop neither evaluates nor hands on its element"
				}
				continue
			}
			if !w.src.loop.body[t] && !n.early {
				n.early = true
			}
		} else if len(w.loops) > 0 {
			for l, bases := range w.loops {
				if l.body[s.b] && !l.body[t] {
					// left: all elements consumed (early exits are judged by the iteration walk)
					w.consumeLoop(n, s.b.Instrs[len(s.b.Instrs)-1], bases)
				}
			}
		}
		out = append(out, n)
	}
	return out
}

func (w *c04walk) consumeLoop(n *pst, i ssa.Instruction, bases []ssa.Value) {
	lo, found := int64(0), false
	for _, b := range bases[:len(bases)-1] {
		if u, ok := b.(*ssa.UnOp); ok {
			if l, ok := n.hold[u.X]; ok && (!found || l < lo) {
				lo, found = l, true
			}
		}
		if l, ok := n.hold[b]; ok && (!found || l < lo) {
			lo, found = l, true
		}
	}
	if n.whole || n.rest >= 0 || n.mask>>uint(lo) != 0 {
		w.doubles[i] = "is evaluated or handed on again in a loop, after " + n.via
	}
	if lo == 0 {
		n.whole = true
	} else {
		n.rest = lo
	}
	if n.via == "" {
		n.via = w.c.w.ipos(i)
	}
}

func (w *c04walk) atReturn(s *pst, rt *ssa.Return) {
	if mayFail(rt) {
		return
	}
	if w.src.loop != nil {
		if s.early {
			w.forgot[rt] = "are not all consumed: the loop over them can be left early without failing"
		} else if !s.complete() {
			w.forgot[rt] = "are not all consumed: this return inside the loop over them succeeds"
		}
		return
	}
	for k := range rt.Results {
		v := retVal(rt, k)
		if lo, ok := s.hold[v]; ok {
			w.consume(s, rt, lo, "")
		} else if el, ok := s.elem[v]; ok {
			w.consume(s, rt, 0, el)
		}
	}
	ok := s.complete()
	if !ok && w.memo(rt) {
		ok = true
	}
	w.rets = append(w.rets, c04ret{consumed: ok && s.hi != 0, set: s.set, ret: rt})
	if s.hi == 0 {
		w.rets = w.rets[:len(w.rets)-1]
	}
	if !ok {
		if s.any() {
			w.forgot[rt] = "are only partly evaluated or handed on before this successful return"
		} else {
			w.forgot[rt] = "are neither evaluated nor handed on before this successful return"
		}
	}
}

// is the image returned read from shared memory, where another evaluation has put it?
func (w *c04walk) memo(rt *ssa.Return) bool {
	if len(rt.Results) == 0 {
		return false
	}
	v := retVal(rt, 0)
	if !strings.HasSuffix(v.Type().String(), "fits.Image") {
		return false
	}
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return false
	}
	switch u.X.(type) {
	case *ssa.IndexAddr, *ssa.FieldAddr, *ssa.FreeVar:
		for _, a := range w.e.resolve(u.X) {
			switch a.Root.(type) {
			case *ssa.FreeVar, *ssa.Parameter:
				return true
			}
		}
		if fv, ok := u.X.(*ssa.FreeVar); ok && fv != w.src.v {
			return true
		}
	}
	return false
}

// facts that hold on an edge; false if it cannot be taken
func (w *c04walk) edge(n *pst, iff *ssa.If, k int) bool {
	cond, neg := stripNot(iff.Cond)
	truth := (k == 0) != neg
	if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.MUL {
		if key := w.factKey(u.X); key != "" {
			if v, ok := n.facts[key]; ok {
				return v == truth
			}
			n.facts[key] = truth
		}
		return true
	}
	b, ok := cond.(*ssa.BinOp)
	if !ok {
		return true
	}
	op, x, y := b.Op, b.X, b.Y
	if _, ok := constInt(x); ok {
		x, y, op = y, x, flipOp(op)
	}
	if isNilConst(x) {
		x, y = y, x
	}
	if isNilConst(y) && (op == token.EQL || op == token.NEQ) {
		isNil := (op == token.EQL) == truth
		if ex, ok := x.(*ssa.Extract); ok && w.src.start != nil && ex.Tuple == w.src.start.(ssa.Value) && isErrT(ex.Type()) && !isNil {
			return false // there are no promises if the call failed
		}
		return !n.nils[x] || isNil
	}
	cst, ok := constInt(y)
	if !ok || !lenOf(x, func(v ssa.Value) bool { lo, ok := n.hold[v]; return ok && lo == 0 }) {
		return true
	}
	if !truth {
		op = negOp(op)
	}
	switch op {
	case token.EQL:
		if cst > n.lo {
			n.lo = cst
		}
		if n.hi < 0 || cst < n.hi {
			n.hi = cst
		}
	case token.NEQ:
		if cst == n.lo {
			n.lo++
		}
		if cst == n.hi {
			n.hi--
		}
	case token.LSS:
		if n.hi < 0 || cst-1 < n.hi {
			n.hi = cst - 1
		}
	case token.LEQ:
		if n.hi < 0 || cst < n.hi {
			n.hi = cst
		}
	case token.GTR:
		if cst+1 > n.lo {
			n.lo = cst + 1
		}
	case token.GEQ:
		if cst > n.lo {
			n.lo = cst
		}
	}
	if n.hi >= 0 && n.lo > n.hi {
		return false
	}
	return true
}

// effect of one instruction; may return forked states
func (w *c04walk) step(s *pst, i ssa.Instruction) []*pst {
	held := func(v ssa.Value) (int64, bool) { lo, ok := s.hold[v]; return lo, ok }
	switch x := i.(type) {
	case *ssa.Phi:
	case *ssa.ChangeType:
		if lo, ok := held(x.X); ok {
			s.hold[x] = lo
		}
		if el, ok := s.elem[x.X]; ok {
			s.elem[x] = el
		}
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return nil
		}
		delete(s.hold, x)
		delete(s.elem, x)
		if lo, ok := held(x.X); ok {
			s.hold[x] = lo
		}
		if el, ok := s.elem[x.X]; ok {
			s.elem[x] = el
		}
	case *ssa.Extract:
		if lo, ok := held(x.Tuple); ok && isPromisesT(x.Type()) {
			s.hold[x] = lo
		}
	case *ssa.Slice:
		if lo, ok := held(x.X); ok {
			l := int64(0)
			if x.Low != nil {
				c, ok := constInt(x.Low)
				if !ok {
					w.consume(s, i, 0, "?") // partition into packages is judged elsewhere
					return nil
				}
				l = c
			}
			if x.High != nil && !lenOf(x.High, func(v ssa.Value) bool { return w.mayHold(v, 0) }) {
				c, isC := constInt(x.High)
				if !isC {
					b, off := baseOffset(x.High)
					if off < 0 && lenOf(b, func(v ssa.Value) bool { return w.mayHold(v, 0) }) {
						return nil // last elements cut off: result is not a holder of all
					}
					w.consume(s, i, 0, "?")
					return nil
				}
				if c == 1 && l == 0 {
					// a prefix holding one element
					s.elem[x] = fmt.Sprint(lo)
				}
				return nil
			}
			s.hold[x] = lo + l
		}
		if el, ok := s.elem[x.X]; ok { // slice of a local array holding an element
			s.elem[x] = el
		}
	case *ssa.IndexAddr:
		lo, ok := held(x.X)
		if !ok && w.src.loop != nil {
			ok = w.mayHold(x.X, 0)
		}
		if !ok {
			return nil
		}
		if k, isC := constInt(x.Index); isC {
			s.elem[x] = fmt.Sprint(lo + k)
			return nil
		}
		if iv, is := elemIndex(x.Index); is {
			if w.src.loop != nil && iv.l == w.src.loop && sameIV(iv, w.src.guard.x) {
				s.elem[x] = "iv"
				return nil
			}
			if w.src.loop == nil && w.loops[iv.l] != nil {
				return nil // judged by the iteration walk
			}
		}
		if w.src.loop != nil {
			return nil
		}
		s.elem[x] = "?"
	case *ssa.Store:
		if u, ok := x.Addr.(*ssa.FieldAddr); ok {
			if key := w.factKey(u); key != "" {
				if c, ok := x.Val.(*ssa.Const); ok && c.Value != nil && c.Value.Kind().String() == "Bool" {
					t := c.Value.ExactString() == "true"
					s.facts[key] = t
					if t {
						s.set[key] = true
					}
				} else {
					delete(s.facts, key)
				}
			}
		}
		lo, isH := held(x.Val)
		el, isE := s.elem[x.Val]
		if a, ok := x.Addr.(*ssa.Alloc); ok {
			if isH {
				s.hold[a] = lo
			} else {
				delete(s.hold, a)
			}
			if isE {
				s.elem[a] = el
			} else {
				delete(s.elem, a)
			}
			return nil
		}
		if fv, ok := x.Addr.(*ssa.FreeVar); ok && !isH && !isE {
			delete(s.hold, fv)
			return nil
		}
		if isE {
			// local array of a slice literal or variadic argument?
			if ia, ok := x.Addr.(*ssa.IndexAddr); ok {
				if a, ok := ia.X.(*ssa.Alloc); ok {
					s.elem[a] = el
					return nil
				}
			}
			w.consume(s, i, 0, el)
		} else if isH {
			w.consume(s, i, lo, "")
		}
	case *ssa.MakeClosure:
		if w.src.loop != nil && w.indexedClosure(x, w.src.loop) {
			s.elem[x] = "iv"
			return nil
		}
		if w.src.loop == nil {
			if l := loopOf(i.Block()); l != nil && w.loops[l] != nil && w.indexedClosure(x, l) {
				return nil // judged by the iteration walk
			}
		}
		for k, b := range x.Bindings {
			if lo, ok := held(b); ok {
				// a closure that stands for the promises
				if w.closureUses(x, k) {
					s.elem[x] = fmt.Sprintf("*%d", lo)
				}
			} else if el, ok := s.elem[b]; ok {
				if w.closureUses(x, k) {
					s.elem[x] = el
				}
			}
		}
	case *ssa.MapUpdate:
		if el, ok := s.elem[x.Value]; ok {
			w.consumeEl(s, i, el)
		}
	case *ssa.Send:
		if el, ok := s.elem[x.X]; ok {
			w.consumeEl(s, i, el)
		}
	case *ssa.MakeInterface:
		if lo, ok := held(x.X); ok {
			s.hold[x] = lo
		}
		if el, ok := s.elem[x.X]; ok {
			s.elem[x] = el
		}
	case ssa.CallInstruction:
		return w.call(s, i, x)
	case *ssa.Return:
		for k := range x.Results {
			if el, ok := s.elem[x.Results[k]]; ok && strings.HasPrefix(el, "*") {
				w.consumeEl(s, i, el)
				delete(s.elem, x.Results[k])
			}
		}
	}
	return nil
}

func sameIV(a, b indvar) bool { return a.phi == b.phi && a.off == b.off }

func (w *c04walk) consumeEl(s *pst, i ssa.Instruction, el string) {
	if strings.HasPrefix(el, "*") {
		lo := int64(0)
		fmt.Sscanf(el, "*%d", &lo)
		w.consume(s, i, lo, "")
		return
	}
	w.consume(s, i, 0, el)
}

// does the closure (or one inside it) use captured variable k other than for its length?
func (w *c04walk) closureUses(mc *ssa.MakeClosure, k int) bool {
	fn := mc.Fn.(*ssa.Function)
	if k >= len(fn.FreeVars) {
		return false
	}
	for _, r := range *fn.FreeVars[k].Referrers() {
		u, ok := r.(*ssa.UnOp)
		if !ok {
			return true
		}
		for _, rr := range *u.Referrers() {
			switch y := rr.(type) {
			case *ssa.DebugRef:
			case *ssa.Call:
				if b, ok := y.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
					return true
				}
			default:
				return true
			}
		}
	}
	return false
}

func (w *c04walk) call(s *pst, i ssa.Instruction, ci ssa.CallInstruction) []*pst {
	cc := ci.Common()
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		if b.Name() == "append" {
			v := i.(*ssa.Call)
			for k, a := range cc.Args {
				if lo, ok := s.hold[a]; ok {
					if k == 0 {
						s.hold[v] = lo
					} else {
						s.hold[v] = lo
					}
				} else if el, ok := s.elem[a]; ok {
					// appended to another list: handed on, if that list goes anywhere
					if w.goesAnywhere(v, map[ssa.Value]bool{}) {
						w.consumeEl(s, i, el)
					}
				}
			}
		}
		if b.Name() == "copy" {
			if lo, ok := s.hold[cc.Args[1]]; ok {
				w.consume(s, i, lo, "")
			}
		}
		return nil
	}
	if w.src.loop != nil && w.indexedHandOn(cc, w.src.loop) {
		w.consume(s, i, 0, "iv")
		return nil
	}
	if w.src.loop == nil {
		if l := loopOf(i.Block()); l != nil && w.loops[l] != nil && w.indexedHandOn(cc, l) {
			return nil // judged by the iteration walk
		}
	}
	// evaluation
	if el, ok := s.elem[cc.Value]; ok && !cc.IsInvoke() {
		w.consumeEl(s, i, el)
	}
	var out []*pst
	for k, a := range cc.Args {
		lo, isH := s.hold[a]
		el, isE := s.elem[a]
		if !isH && !isE {
			continue
		}
		if w.src.loop != nil && isH {
			// the whole list handed on in an iteration without its index
			continue
		}
		eff := w.callEffect(ci, k)
		switch {
		case eff == nil || eff.always:
			if isH {
				w.consume(s, i, lo, "")
			} else {
				w.consumeEl(s, i, el)
			}
		case eff.never:
		case eff.flag >= 0:
			n := s.clone()
			if isH {
				w.consume(n, i, lo, "")
			} else {
				w.consumeEl(n, i, el)
			}
			if key := w.argKey(ci, eff.flag); key != "" {
				n.facts[key+eff.flagField] = true
				n.set[key+eff.flagField] = true
			}
			out = append(out, n, s.clone())
		default: // sometimes: reported there
			if isH {
				w.consume(s, i, lo, "")
			} else {
				w.consumeEl(s, i, el)
			}
		}
	}
	return out
}

func (w *c04walk) argKey(ci ssa.CallInstruction, k int) string {
	args := ci.Common().Args
	if k >= len(args) {
		return ""
	}
	for _, a := range w.e.resolve(args[k]) {
		switch a.Root.(type) {
		case *ssa.Parameter, *ssa.FreeVar:
			return a.Root.Name() + a.Path
		}
	}
	return ""
}

// nil: unknown callee, taken to consume
func (w *c04walk) callEffect(ci ssa.CallInstruction, k int) *c04sum {
	cc := ci.Common()
	if cc.IsInvoke() {
		return nil
	}
	callee := cc.StaticCallee()
	if callee == nil {
		return nil
	}
	if !w.c.w.inMod[callee] {
		return &c04sum{never: true, flag: -1}
	}
	if k < len(callee.Params) {
		return w.c.summary(callee.Params[k])
	}
	return nil
}

// is a list returned, stored, or passed on (rather than just measured)?
func (w *c04walk) goesAnywhere(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	if v.Referrers() == nil {
		return true
	}
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.DebugRef:
		case *ssa.Phi:
			if w.goesAnywhere(x, seen) {
				return true
			}
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok {
				if b.Name() == "append" && w.goesAnywhere(x, seen) {
					return true
				}
				continue
			}
			return true
		case *ssa.Return:
			if !mayFail(x) {
				return true
			}
		default:
			return true
		}
	}
	return false
}

func init() {
	register("C04", "Follows every promise that enters a function (parameter, captured variable, call result) along all paths of its SSA control flow to the successful returns, counting evaluations and hand-ons of the list, its single elements and loops over them. Violations name the return, call or loop iteration that forgets or repeats a promise.", runC04)
}
