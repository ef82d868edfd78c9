package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C11: stacking in batches.
//
// A loop that cuts windows out of a slice of frames is a batch loop. The windows are proved adjacent, the first to start
// at zero and the last to end at the end (for counted batches: number times size reaches the number of frames, by
// induction over the loop that evens out the sizes). The slice cut up is followed back to the input of the step: it may
// only be copied as a whole or permuted. Every batch has to be stacked, and weighs as much as it has frames.

func init() {
	register("C11", "batch stacking: windows cut from the list of frames are proved adjacent and complete for every number of frames and batch size (linear arithmetic with division, induction over loops); the list itself is traced to the input as whole copies and permutations only; every batch reaches the sum, weighted by its number of frames", runC11)
}

type batchLoop struct {
	f   *ssa.Function
	l   *loop
	s   *ssa.Slice
	p   *prover
	x   ssa.Value // slice cut up
	bad bool
}

func runC11(w *World, r *Report) {
	r.rule("window", "every batch starts where the previous one ends, the first at the first frame", 1)
	r.rule("complete", "the batches together reach the last frame, and none of them is empty", 1)
	r.rule("permuted", "the list that is cut into batches holds every input frame exactly once", 2)
	r.rule("stacked", "every batch is processed, and every frame made from one is added to the result", 2)
	r.rule("weighted", "a batch weighs as much as it has frames, and the sum is divided by the sum of these weights", 2)
	n := 0
	for _, f := range w.Funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				s, ok := i.(*ssa.Slice)
				if !ok || !isPromisesT(s.Type()) {
					continue
				}
				l := loopOf(b)
				if l == nil {
					continue
				}
				if !variesIn(s.Low, l, map[ssa.Value]bool{}) && !variesIn(s.High, l, map[ssa.Value]bool{}) && !variesIn(s.X, l, map[ssa.Value]bool{}) {
					continue
				}
				n++
				bl := &batchLoop{f: f, l: l, s: s, p: newProver(w, nil), x: s.X}
				if variesIn(s.X, l, map[ssa.Value]bool{}) {
					r.undecided("%s %s: the list of frames changes from batch to batch", fname(f), w.ipos(s))
					continue
				}
				bl.window(w, r)
				c11Source(w, r, bl.p, s.X, f, 0, map[ssa.Value]bool{})
				bl.stacked(w, r)
			}
		}
	}
	if n == 0 {
		r.undecided("no loop cuts a list of frames into batches")
	}
}

func variesIn(v ssa.Value, l *loop, seen map[ssa.Value]bool) bool {
	if v == nil || seen[v] {
		return false
	}
	seen[v] = true
	i, ok := v.(ssa.Instruction)
	if !ok || !l.body[i.Block()] {
		return false
	}
	if ph, ok := v.(*ssa.Phi); ok && ph.Block() == l.head {
		return true
	}
	for _, o := range i.Operands(nil) {
		if *o != nil && variesIn(*o, l, seen) {
			return true
		}
	}
	return false
}

type polyCase struct {
	q poly
	c constraints
}

// the values of q depending on the branches taken inside the loop
func (bl *batchLoop) cases(q poly, c constraints, d int) []polyCase {
	for _, n := range bl.p.atomsOf(q) {
		a := bl.p.atoms[n]
		ph, ok := a.v.(*ssa.Phi)
		if !ok || a.len || ph.Block() == bl.l.head || !bl.l.body[ph.Block()] || d > 4 {
			continue
		}
		if l2 := loopOf(ph.Block()); l2 == nil || l2.head == ph.Block() {
			continue
		}
		var rs []polyCase
		for i, pr := range ph.Block().Preds {
			rs = append(rs, bl.cases(substPoly(q, n, bl.p.lin(ph.Edges[i])), c.plus(bl.p.edgeFacts(pr, ph.Block(), 0)), d+1)...)
		}
		return rs
	}
	return []polyCase{{q, c}}
}

func (bl *batchLoop) window(w *World, r *Report) {
	p, s, l := bl.p, bl.s, bl.l
	where := fmt.Sprintf("%s %s", fname(bl.f), w.ipos(s))
	L := p.lenOf(s.X)
	lo := poly{}
	if s.Low != nil {
		lo = p.lin(s.Low)
	}
	hi := L
	if s.High != nil {
		hi = p.lin(s.High)
	}
	// the variable that moves the window
	var iv indvar
	var ivn string
	for _, n := range p.atomsOf(lo) {
		if ph, ok := p.atoms[n].v.(*ssa.Phi); ok && ph.Block() == l.head {
			if x, ok := induction(ph); ok && ivn == "" {
				iv, ivn = x, n
			} else {
				ivn = "?"
			}
		}
	}
	if ivn == "" || ivn == "?" {
		r.undecided("%s: start of the batches", where)
		return
	}
	inc := constPoly(float64(iv.step))
	if iv.inc != nil {
		inc = p.lin(iv.inc)
	}
	at0 := substPoly(lo, ivn, p.lin(iv.init))
	step := substPoly(lo, ivn, poly{ivn: 1}.add(inc, 1)).add(lo, -1)
	for _, n := range p.atomsOf(step) {
		if n == ivn {
			r.undecided("%s: the distance between batches is not constant", where)
			return
		}
	}
	fact := p.facts(s.Block(), 0)
	key := fname(bl.f)
	if len(at0) != 0 {
		if k, ok := at0.konst(); ok && k != 0 {
			r.bad("window", key+"|first", w.ipos(s), "the first batch starts at frame %g instead of frame 0", k)
		} else if pre := loopPre(l); at0.eq(step) || pre != nil && bl.positive(pre, at0) {
			r.bad("window", key+"|first", w.ipos(s), "the first batch starts at frame %s instead of frame 0", p.show(at0))
		} else {
			r.undecided("%s: start of the first batch", where)
		}
		return
	}
	full, cut := false, false
	for _, c := range bl.cases(hi, constraints{}, 0) {
		cs := constraints{append(append([]poly(nil), fact.ge...), c.c.ge...), append(append([]poly(nil), fact.ne...), c.c.ne...)}
		over := lo.add(step, 1).add(L, -1) // how far a full batch reaches beyond the end
		switch {
		case c.q.eq(lo.add(step, 1)):
			full = true
			if len(c.c.ge) > 0 && !p.quick(cs, poly{}.add(over, -1)) {
				r.bad("window", key+"|end", w.ipos(s), "a full batch is taken although it reaches beyond the last frame")
				return
			}
		case c.q.eq(L):
			cut = true
			if !p.quick(cs, over) {
				r.bad("window", key+"|cut", w.ipos(s), "a batch is extended to the last frame although a full batch ends before it")
				return
			}
		default:
			d := c.q.add(lo, -1).add(step, -1)
			if k, ok := d.konst(); ok && k != 0 {
				r.bad("window", key+"|length", w.ipos(s), "a batch has %+g frames compared to the distance to the next: frames are stacked twice or not at all", k)
				return
			}
			if bl.positive(s.Block(), d) {
				r.bad("window", key+"|overlap", w.ipos(s), "a batch reaches beyond the start of the next one by %s frames: frames are stacked twice", p.show(d))
				return
			}
			if bl.positive(s.Block(), poly{}.add(d, -1)) {
				r.bad("window", key+"|gap", w.ipos(s), "a batch ends %s frames before the next one: frames are left out", p.show(poly{}.add(d, -1)))
				return
			}
			if k, ok := c.q.add(L, -1).konst(); ok && k != 0 {
				r.bad("window", key+"|tail", w.ipos(s), "the last batch ends %+g frames from the end of the list", k)
				return
			}
			r.undecided("%s: end of a batch %s", where, p.show(c.q))
			return
		}
	}
	r.ob("window", "%s: start moves by %s, end is the next start or the end of the list", where, p.show(step))
	if !full || !cut {
		// without a cut the size has to divide the number of frames
		r.undecided("%s: the end of the last batch", where)
		return
	}
	// completeness
	if len(inc) == 1 && inc[""] == 1 && !step.eq(inc) { // counted
		var N poly
		for _, g := range l.guards() {
			if g.x.phi == iv.phi && g.x.off == 0 && g.op == token.LSS && g.iff.Block() == l.head {
				N = p.lin(g.bound)
			} else if g.x.phi == iv.phi && g.x.off == 0 && g.op == token.LEQ && g.iff.Block() == l.head {
				N = p.lin(g.bound).add(constPoly(1), 1)
			}
		}
		if N == nil {
			r.undecided("%s: number of batches", where)
			return
		}
		if k, ok := N.konst(); ok {
			r.undecided("%s: number of batches is %g", where, k)
			return
		}
		pre := loopPre(l)
		if pre == nil {
			r.undecided("%s: number of batches", where)
			return
		}
		goal := N.mul(step).add(L, -1)
		switch v, plain := c11Prove(p, pre, goal, nil, 0); {
		case v:
			r.ob("complete", "%s: number of batches times size reaches the number of frames", where)
		case plain:
			r.bad("complete", key+"|short", w.ipos(s), "number of batches times batch size can be less than the number of frames: the last frames are left out")
		default:
			r.undecided("%s: %s batches of %s", where, p.show(N), p.show(step))
		}
		goal = L.add(N.mul(step), -1).add(step, 1).add(constPoly(1), -1)
		switch v, plain := c11Prove(p, pre, goal, []poly{N.add(constPoly(1), -1)}, 0); {
		case v:
			r.ob("complete", "%s: the last batch has at least one frame", where)
		case plain:
			r.bad("complete", key+"|empty", w.ipos(s), "the last batch can start at or beyond the end of the list")
		default:
			r.undecided("%s: %s batches of %s: last batch", where, p.show(N), p.show(step))
		}
		return
	}
	// moved by its size: stays in the loop while it starts before the end
	for _, g := range l.guards() {
		if g.x.phi != iv.phi || g.x.off != 0 {
			continue
		}
		bnd := p.lin(g.bound)
		if g.op == token.LSS && bnd.eq(L) {
			r.ob("complete", "%s: batches as long as they start before the end", where)
			return
		}
		if d := bnd.add(L, -1); g.op == token.LSS || g.op == token.LEQ {
			if k, ok := d.konst(); ok && (k != 0 || g.op == token.LEQ) {
				r.bad("complete", key+"|last", w.ipos(s), "batches are taken as long as they start before %s, not until the end of the list", p.show(bnd))
				return
			}
			if p.quick(p.facts(g.iff.Block(), 0), d.add(constPoly(1), 1)) || len(d) == 1 {
				r.bad("complete", key+"|last", w.ipos(s), "batches are taken as long as they start before %s, which leaves out the last frames", p.show(bnd))
				return
			}
		}
	}
	r.undecided("%s: when the last batch is reached", where)
}

// q is at least one whenever block b is reached
func (bl *batchLoop) positive(b *ssa.BasicBlock, q poly) bool {
	v, _ := c11Prove(bl.p, b, q.add(constPoly(1), -1), nil, 0)
	return v
}

// the block before a loop
func loopPre(l *loop) *ssa.BasicBlock {
	var pre *ssa.BasicBlock
	for _, pr := range l.head.Preds {
		if !l.body[pr] {
			if pre != nil {
				return nil
			}
			pre = pr
		}
	}
	return pre
}

// goal >= 0 at the end of block b: through returned results, and by induction over loops left before b. The second result
// tells whether the values involved are plain integer arithmetic, so that a failed proof is a counterexample
func c11Prove(p *prover, b *ssa.BasicBlock, goal poly, given []poly, d int) (proved, plain bool) {
	plain = true
	for _, n := range p.atomsOf(goal) {
		if !plainInt(p.atoms[n].v, p.atoms[n].len, 0, map[ssa.Value]bool{}) {
			plain = false
		}
	}
	if p.ge0(b, goal) == vProved {
		return true, plain
	}
	if len(given) > 0 {
		if c := p.facts(b, 0); p.decide(b, constraints{append(append([]poly(nil), c.ge...), given...), c.ne}, goal, 0, nil) == vProved {
			return true, plain
		}
	}
	if d > 6 {
		return false, false
	}
	// results of one call
	var call *ssa.Call
	many := false
	for _, n := range p.atomsOf(goal) {
		if cl, _ := resultOf(p.atoms[n].v); cl != nil {
			if call != nil && call != cl {
				many = true
			}
			call = cl
		}
	}
	if call != nil && !many {
		if t := call.Call.StaticCallee(); t != nil && len(t.Blocks) > 0 && p.w.inMod[t] {
			all, pl := true, true
			n := 0
			for _, tb := range t.Blocks {
				rt, ok := tb.Instrs[len(tb.Instrs)-1].(*ssa.Return)
				if !ok || mayFail(rt) || tb == t.Recover {
					continue
				}
				n++
				inCallee := func(q poly) (poly, bool) {
					for _, n := range p.atomsOf(q) {
						a := p.atoms[n]
						by := func(v ssa.Value) poly {
							if a.len {
								return p.lenOf(v)
							}
							return p.lin(v)
						}
						if cl, k := resultOf(a.v); cl == call {
							q = substPoly(q, n, by(retVal(rt, k)))
							continue
						}
						done := false
						for i, arg := range call.Call.Args {
							if i < len(t.Params) && p.canon(arg) == p.canon(a.v) {
								q = substPoly(q, n, by(t.Params[i]))
								done = true
								break
							}
						}
						if !done {
							return q, false
						}
					}
					return q, true
				}
				q, ok := inCallee(goal)
				if !ok {
					return false, false
				}
				var gs []poly
				for _, g := range given {
					if g, ok := inCallee(g); ok {
						gs = append(gs, g)
					}
				}
				ok1, pl1 := c11Prove(p, tb, q, gs, d+1)
				all = all && ok1
				pl = pl && (pl1 || ok1)
			}
			return all && n > 0, pl
		}
	}
	// the value merged last before b: the list as it was made, or a variable of a loop already left
	var last *ssa.Phi
	for _, n := range p.atomsOf(goal) {
		ph, ok := p.atoms[n].v.(*ssa.Phi)
		if !ok || ph.Parent() != b.Parent() || !ph.Block().Dominates(b) {
			continue
		}
		if l := loopOf(ph.Block()); l != nil && l.head == ph.Block() && l.body[b] {
			continue
		}
		if last == nil || last.Block().Dominates(ph.Block()) {
			last = ph
		}
	}
	if last == nil {
		return false, plain
	}
	exist := func(q poly) bool { // everything else exists by then
		for _, m := range p.atomsOf(q) {
			if i, ok := p.atoms[m].v.(ssa.Instruction); ok && (i.Parent() != b.Parent() || !i.Block().Dominates(last.Block())) {
				return false
			}
		}
		return true
	}
	if !exist(goal) {
		return false, plain
	}
	l := loopOf(last.Block())
	head := l != nil && l.head == last.Block()
	all, pl := true, true
	for i, pr := range last.Block().Preds {
		onPred := func(q poly) poly {
			for _, m := range p.atomsOf(q) {
				if p2, ok := p.atoms[m].v.(*ssa.Phi); ok && p2.Block() == last.Block() {
					by := p.lin
					if p.atoms[m].len {
						by = p.lenOf
					}
					q = substPoly(q, m, by(p2.Edges[i]))
				}
			}
			return q
		}
		q := onPred(goal)
		var gs []poly
		for _, g := range given {
			// what is known after a loop says nothing about the values before its last iteration
			if h := onPred(g); exist(g) && (!head || h.eq(g)) {
				gs = append(gs, h)
			}
		}
		c := p.edgeFacts(pr, last.Block(), 0)
		c.ge = append(append([]poly(nil), c.ge...), gs...)
		if head && l.body[pr] {
			c.ge = append(c.ge, goal) // holds at the start of the iteration
			if p.decide(pr, c, q, 0, nil) != vProved {
				all = false
			}
			continue
		}
		if !head && unsat(c.plus(p.facts(b, 0)).ge) {
			continue
		}
		if p.decide(pr, c, q, 0, nil) == vProved {
			continue
		}
		ok1, pl1 := c11Prove(p, pr, q, gs, d+1)
		all = all && ok1
		pl = pl && (pl1 || ok1)
	}
	return all, pl && plain
}

// computed by integer arithmetic from lengths, parameters and fields only
func plainInt(v ssa.Value, isLen bool, d int, seen map[ssa.Value]bool) bool {
	if isLen || seen[v] {
		return true
	}
	seen[v] = true
	if d > 30 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Const, *ssa.Parameter, *ssa.FreeVar:
		return true
	case *ssa.BinOp:
		return isInt(x.Type()) && plainInt(x.X, false, d+1, seen) && plainInt(x.Y, false, d+1, seen)
	case *ssa.UnOp:
		return x.Op == token.MUL || plainInt(x.X, false, d+1, seen)
	case *ssa.Convert:
		return isInt(x.X.Type()) && plainInt(x.X, false, d+1, seen)
	case *ssa.ChangeType:
		return plainInt(x.X, false, d+1, seen)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !plainInt(e, false, d+1, seen) {
				return false
			}
		}
		return true
	case *ssa.Extract:
		c, ok := x.Tuple.(*ssa.Call)
		return ok && c.Call.StaticCallee() != nil
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			return b.Name() == "len" || b.Name() == "cap"
		}
		switch calleeName(x.Common()) {
		case "runtime.NumCPU", "runtime.GOMAXPROCS":
			return true
		}
	}
	return false
}

// ---- the list of frames

// v holds every frame of the input once
func c11Source(w *World, r *Report, p *prover, v ssa.Value, f *ssa.Function, d int, seen map[ssa.Value]bool) {
	v = p.canon(v)
	if seen[v] || d > 12 {
		return
	}
	seen[v] = true
	where := fmt.Sprintf("%s %s", fname(f), w.pos(v.Pos()))
	key := fname(f)
	switch x := v.(type) {
	case *ssa.Parameter:
		f := x.Parent()
		in := 0
		for _, ci := range w.calls().callers[f] {
			if ci == nil || !w.inMod[ci.Parent()] {
				continue
			}
			if a := argFor(x, f, ci); a != nil && isPromisesT(a.Type()) && ci.Common().StaticCallee() == f {
				in++
				c11Source(w, r, p, a, ci.Parent(), d+1, seen)
			}
		}
		if in == 0 {
			r.ob("permuted", "%s: input of the step", fname(f))
		}
		return
	case *ssa.Phi:
		for _, e := range x.Edges {
			c11Source(w, r, p, e, f, d+1, seen)
		}
		return
	case *ssa.Slice:
		if x.High == nil && (x.Low == nil || isZero(x.Low)) {
			c11Source(w, r, p, x.X, f, d+1, seen)
			return
		}
		lost := p.lenOf(x.X).add(p.lenOf(x), -1)
		if len(lost) == 0 {
			c11Source(w, r, p, x.X, f, d+1, seen)
			return
		}
		if k, ok := lost.konst(); ok && k > 0 {
			r.bad("permuted", key+"|part", w.ipos(x), "only a part of the frames is stacked: %g of them are left out", k)
			return
		}
		r.undecided("%s: part of the list of frames", where)
		return
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			c11Append(w, r, p, x, f, d, seen)
			return
		}
	case *ssa.MakeSlice:
		c11Filled(w, r, p, x, f, d, seen)
		return
	}
	if cl, k := resultOf(v); cl != nil {
		if t := cl.Call.StaticCallee(); t != nil && w.inMod[t] && len(t.Blocks) > 0 {
			for _, b := range t.Blocks {
				if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && !mayFail(rt) && b != t.Recover {
					c11Source(w, r, p, retVal(rt, k), t, d+1, seen)
				}
			}
			return
		}
	}
	r.undecided("%s: where the list of frames comes from (%s)", where, v)
}

func isZero(v ssa.Value) bool { k, ok := constInt(v); return ok && k == 0 }

// append(head, rest...)
func c11Append(w *World, r *Report, p *prover, x *ssa.Call, f *ssa.Function, d int, seen map[ssa.Value]bool) {
	where := fmt.Sprintf("%s %s", fname(f), w.ipos(x))
	key := fname(f)
	head, rest := x.Call.Args[0], x.Call.Args[1]
	n, ok := p.lenOf(head).konst()
	if ok && n == 0 {
		c11Source(w, r, p, rest, f, d+1, seen)
		return
	}
	s, isS := p.canon(rest).(*ssa.Slice)
	if !ok {
		r.undecided("%s: list of frames put together", where)
		return
	}
	k := float64(0)
	src := rest
	if isS {
		if a, okA := s.X.Type().Underlying().(*types.Pointer); okA {
			_ = a // a literal list
			r.undecided("%s: list of frames put together", where)
			return
		}
		if s.High != nil {
			r.undecided("%s: list of frames put together", where)
			return
		}
		if s.Low != nil {
			kk, okk := p.lin(s.Low).konst()
			if !okk {
				r.undecided("%s: list of frames put together", where)
				return
			}
			k, src = kk, s.X
		}
	}
	if k != n {
		r.bad("permuted", key+"|head", w.ipos(x), "%g frames are put before the list without its first %g: frames are stacked twice or not at all", n, k)
		return
	}
	// the frames put first are those cut off
	hs, ok := p.canon(head).(*ssa.Slice)
	if !ok {
		r.undecided("%s: frames put first", where)
		return
	}
	a, ok := hs.X.(*ssa.Alloc)
	if !ok {
		r.undecided("%s: frames put first", where)
		return
	}
	for _, rf := range *a.Referrers() {
		ia, ok := rf.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		idx, okI := constInt(ia.Index)
		for _, rr := range *ia.Referrers() {
			st, ok := rr.(*ssa.Store)
			if !ok {
				continue
			}
			from, ok := c11Origin(p, st.Val, src, map[ssa.Value]bool{})
			switch {
			case !ok || !okI:
				r.undecided("%s: frame put first", where)
			case from != idx:
				r.bad("permuted", key+"|first", w.ipos(st), "frame %d is put at position %d of the list", from, idx)
			default:
				r.ob("permuted", "%s: frame %d replaced by what it evaluated to", where, idx)
			}
		}
	}
	c11Source(w, r, p, src, f, d+1, seen)
}

// index into src of the promise that v hands on
func c11Origin(p *prover, v, src ssa.Value, seen map[ssa.Value]bool) (int64, bool) {
	if seen[v] {
		return 0, false
	}
	seen[v] = true
	v = p.canon(v)
	switch x := v.(type) {
	case *ssa.UnOp:
		if ia, ok := x.X.(*ssa.IndexAddr); ok && x.Op == token.MUL && p.canon(ia.X) == p.canon(src) {
			return constInt(ia.Index)
		}
		if x.Op == token.MUL {
			if a, ok := x.X.(*ssa.Alloc); ok {
				return c11Origin(p, a, src, seen)
			}
		}
	case *ssa.MakeClosure:
		for _, b := range x.Bindings {
			if k, ok := c11Origin(p, b, src, seen); ok {
				return k, true
			}
		}
	case *ssa.Alloc:
		for _, rf := range *x.Referrers() {
			if st, ok := rf.(*ssa.Store); ok && st.Addr == ssa.Value(x) {
				if k, ok := c11Origin(p, st.Val, src, seen); ok {
					return k, true
				}
			}
		}
	case *ssa.ChangeType:
		return c11Origin(p, x.X, src, seen)
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok && c.Call.StaticCallee() == nil && !c.Call.IsInvoke() {
			return c11Origin(p, c.Call.Value, src, seen)
		}
	}
	return 0, false
}

// a counter taking each value from 0 to n-1 once, and the blocks it is counted in
func fullCounter(p *prover, v ssa.Value, n poly) (*loop, bool, string) {
	iv, ok := induction(v)
	if !ok || iv.inc != nil || iv.step != 1 {
		return nil, false, ""
	}
	first := p.lin(iv.init).add(constPoly(float64(iv.off)), 1)
	for _, g := range iv.l.guards() {
		if g.x.phi != iv.phi || g.iff.Block() != iv.l.head && g.iff.Block() != iv.phi.Block() {
			continue
		}
		if len(iv.l.exits()) != 1 {
			return iv.l, false, ""
		}
		last := p.lin(g.bound).add(constPoly(float64(iv.off-g.x.off)), 1) // value at exit
		if g.op == token.LEQ {
			last = last.add(constPoly(1), 1)
		} else if g.op != token.LSS && g.op != token.NEQ {
			return iv.l, false, ""
		}
		if k, ok := first.konst(); ok && k == 0 && last.eq(n) {
			return iv.l, true, ""
		}
		if k, ok := last.add(n, -1).konst(); ok && k != 0 {
			return iv.l, false, fmt.Sprintf("ends %+g from the end", k)
		}
		if k, ok := first.konst(); ok && k != 0 {
			return iv.l, false, fmt.Sprintf("starts at %g", k)
		}
		return iv.l, false, ""
	}
	return iv.l, false, ""
}

func everyIteration(l *loop, b *ssa.BasicBlock) bool {
	for _, pr := range l.head.Preds {
		if l.body[pr] && !b.Dominates(pr) {
			return false
		}
	}
	return true
}

// a new list filled from another
func c11Filled(w *World, r *Report, p *prover, m *ssa.MakeSlice, f *ssa.Function, d int, seen map[ssa.Value]bool) {
	where := fmt.Sprintf("%s %s", fname(f), w.ipos(m))
	key := fname(f)
	done := false
	for _, rf := range *m.Referrers() {
		switch x := rf.(type) {
		case *ssa.IndexAddr:
			for _, rr := range *x.Referrers() {
				st, ok := rr.(*ssa.Store)
				if !ok || st.Addr != ssa.Value(x) {
					continue
				}
				done = true
				ld, ok := p.canon(st.Val).(*ssa.UnOp)
				if !ok || ld.Op != token.MUL {
					r.undecided("%s: element stored at %s", where, w.ipos(st))
					continue
				}
				sa, ok := ld.X.(*ssa.IndexAddr)
				if !ok || !isPromisesT(sa.X.Type()) {
					r.undecided("%s: element stored at %s", where, w.ipos(st))
					continue
				}
				src := p.canon(sa.X)
				n := p.lenOf(src)
				if dl := p.lenOf(m).add(n, -1); len(dl) != 0 {
					if k, ok := dl.konst(); ok {
						r.bad("permuted", key+"|length", w.ipos(m), "the list has %+g entries compared to the frames it is filled from", k)
					} else {
						r.undecided("%s: length of the list", where)
					}
					continue
				}
				c11Fill(w, r, p, st, x.Index, sa.Index, n, f)
				c11Source(w, r, p, src, f, d+1, seen)
			}
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "copy" && x.Call.Args[0] == ssa.Value(m) {
				done = true
				src := x.Call.Args[1]
				if p.lenOf(m).eq(p.lenOf(src)) {
					c11Source(w, r, p, src, f, d+1, seen)
				} else {
					r.undecided("%s: length of the copied list", where)
				}
			} else if calleeName(x.Common()) == "math/rand.Shuffle" {
				continue
			}
		}
	}
	if !done {
		r.undecided("%s: how the list of frames is filled", where)
	}
}

func c11Fill(w *World, r *Report, p *prover, st *ssa.Store, to, from ssa.Value, n poly, f *ssa.Function) {
	where := fmt.Sprintf("%s %s", fname(f), w.ipos(st))
	key := fname(f)
	side := func(v ssa.Value) (ctr ssa.Value, perm ssa.Value, random bool) {
		v = stripConv(p.canon(v))
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
			if ia, ok := u.X.(*ssa.IndexAddr); ok {
				return stripConv(p.canon(ia.Index)), ia.X, false
			}
		}
		if c, ok := v.(*ssa.Call); ok && strings.HasPrefix(calleeName(c.Common()), "math/rand.") {
			return nil, nil, true
		}
		return v, nil, false
	}
	tc, tp, tr := side(to)
	fc, fp, fr := side(from)
	if tr || fr {
		r.bad("permuted", key+"|random", w.ipos(st), "frames are drawn at random one by one: some are drawn repeatedly, others not at all")
		return
	}
	if tp != nil && fp != nil {
		r.undecided("%s: both positions taken from tables", where)
		return
	}
	bt, ot := baseOffset(tc)
	bf, of := baseOffset(fc)
	if bt != bf || ot != of {
		if bt == bf {
			r.bad("permuted", key+"|shift", w.ipos(st), "frames are moved by %d positions: one of them is left out", of-ot)
		} else if isFixed(bt, st) != isFixed(bf, st) {
			r.bad("permuted", key+"|same", w.ipos(st), "one position is the same for every frame: frames are repeated or overwritten")
		} else {
			r.undecided("%s: positions in the lists", where)
		}
		return
	}
	l, ok, why := fullCounter(p, tc, n)
	if !ok {
		if why != "" {
			r.bad("permuted", key+"|range", w.ipos(st), "the loop that fills the list of frames %s", why)
		} else {
			r.undecided("%s: range of the loop", where)
		}
		return
	}
	if !everyIteration(l, st.Block()) {
		r.bad("permuted", key+"|skip", w.ipos(st), "not every iteration fills its entry in the list of frames")
		return
	}
	pm := tp
	if pm == nil {
		pm = fp
	}
	if pm == nil {
		r.ob("permuted", "%s: copied in order", where)
		return
	}
	c11Perm(w, r, p, pm, n, f, map[ssa.Value]bool{})
}

// v is a permutation of 0..n-1
func c11Perm(w *World, r *Report, p *prover, v ssa.Value, n poly, f *ssa.Function, seen map[ssa.Value]bool) {
	v = p.canon(v)
	if seen[v] {
		return
	}
	seen[v] = true
	where := fmt.Sprintf("%s %s", fname(f), w.pos(v.Pos()))
	key := fname(f)
	// changes
	var uses func(v ssa.Value, d int)
	us := map[ssa.Value]bool{}
	identity := false
	mk, _ := v.(*ssa.MakeSlice)
	uses = func(v ssa.Value, d int) {
		if us[v] || v.Referrers() == nil {
			return
		}
		us[v] = true
		for _, rf := range *v.Referrers() {
			switch x := rf.(type) {
			case *ssa.Slice:
				uses(x, d+1)
			case *ssa.ChangeType:
				uses(x, d+1)
			case *ssa.MakeInterface:
				uses(x, d+1)
			case *ssa.IndexAddr:
				for _, rr := range *x.Referrers() {
					st, ok := rr.(*ssa.Store)
					if !ok || st.Addr != ssa.Value(x) {
						continue
					}
					switch {
					case c11Swap(p, st, x):
					case mk != nil && stripConv(p.canon(st.Val)) == stripConv(p.canon(x.Index)):
						if l, ok, why := fullCounter(p, x.Index, n); ok && everyIteration(l, st.Block()) {
							identity = true
						} else if why != "" {
							r.bad("permuted", key+"|identity", w.ipos(st), "the loop that numbers the frames %s", why)
						} else {
							r.undecided("%s: numbering of the frames", where)
						}
					default:
						if c, ok := stripConv(p.canon(st.Val)).(*ssa.Call); ok && strings.HasPrefix(calleeName(c.Common()), "math/rand.") {
							r.bad("permuted", key+"|random", w.ipos(st), "frames are drawn at random one by one: some are drawn repeatedly, others not at all")
						} else if _, ok := p.lin(st.Val).konst(); ok {
							r.bad("permuted", key+"|overwritten", w.ipos(st), "a position in the order of the frames is overwritten")
						} else {
							r.undecided("%s: position stored at %s", where, w.ipos(st))
						}
					}
				}
			case *ssa.Call:
				if b, ok := x.Call.Value.(*ssa.Builtin); ok {
					if b.Name() != "len" && b.Name() != "cap" && !(b.Name() == "copy" && x.Call.Args[0] != v) {
						r.undecided("%s: %s at %s", where, b.Name(), w.ipos(x))
					}
					continue
				}
				switch calleeName(x.Common()) {
				case "sort.Ints", "sort.Slice", "sort.SliceStable", "sort.Sort", "sort.Stable", "sort.IntsAreSorted":
				default:
					if t := x.Call.StaticCallee(); t == nil || w.inMod[t] {
						r.undecided("%s: handed to %s", where, calleeName(x.Common()))
					}
				}
			}
		}
	}
	switch x := v.(type) {
	case *ssa.Phi:
		for _, e := range x.Edges {
			c11Perm(w, r, p, e, n, f, seen)
		}
		uses(v, 0)
		return
	case *ssa.Call:
		nm := calleeName(x.Common())
		if nm == "math/rand.Perm" || nm == "(*math/rand.Rand).Perm" {
			uses(v, 0)
			k := p.lin(x.Call.Args[len(x.Call.Args)-1])
			switch d, ok := k.add(n, -1).konst(); {
			case k.eq(n):
				r.ob("permuted", "%s: random permutation of all frames", where)
			case ok:
				r.bad("permuted", key+"|perm", w.ipos(x), "the permutation has %+g entries compared to the number of frames", d)
			default:
				r.undecided("%s: size of the permutation", where)
			}
			return
		}
	case *ssa.MakeSlice:
		uses(v, 0)
		if identity {
			r.ob("permuted", "%s: positions numbered, then swapped", where)
		} else {
			r.undecided("%s: how the order of the frames is made", where)
		}
		return
	}
	if cl, k := resultOf(v); cl != nil {
		if t := cl.Call.StaticCallee(); t != nil && w.inMod[t] && len(t.Blocks) > 0 {
			uses(v, 0)
			for _, b := range t.Blocks {
				if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && !mayFail(rt) && b != t.Recover {
					c11Perm(w, r, p, retVal(rt, k), n, t, seen)
				}
			}
			return
		}
	}
	r.undecided("%s: how the order of the frames is made", where)
}

// one of the two stores of  a[i], a[j] = a[j], a[i]
func c11Swap(p *prover, st *ssa.Store, ia *ssa.IndexAddr) bool {
	ld, ok := p.canon(st.Val).(*ssa.UnOp)
	if !ok || ld.Op != token.MUL {
		return false
	}
	ja, ok := ld.X.(*ssa.IndexAddr)
	if !ok || p.canon(ja.X) != p.canon(ia.X) {
		return false
	}
	// the other way round, in the same block, loaded before either store
	for _, i := range st.Block().Instrs {
		s2, ok := i.(*ssa.Store)
		if !ok || s2 == st {
			continue
		}
		a2, ok := s2.Addr.(*ssa.IndexAddr)
		if !ok || p.canon(a2.X) != p.canon(ia.X) || !p.lin(a2.Index).eq(p.lin(ja.Index)) {
			continue
		}
		l2, ok := p.canon(s2.Val).(*ssa.UnOp)
		if !ok || l2.Op != token.MUL {
			continue
		}
		b2, ok := l2.X.(*ssa.IndexAddr)
		if !ok || p.canon(b2.X) != p.canon(ia.X) || !p.lin(b2.Index).eq(p.lin(ia.Index)) {
			continue
		}
		first := st
		if before(s2, st) {
			first = s2
		}
		if before(ld, first) && before(l2, first) {
			return true
		}
	}
	return false
}

// ---- what happens to a batch

func (bl *batchLoop) stacked(w *World, r *Report) {
	p, l, s := bl.p, bl.l, bl.s
	where := fmt.Sprintf("%s %s", fname(bl.f), w.ipos(s))
	key := fname(bl.f)
	// the window is handed on
	var use *ssa.Call
	for _, v := range flowsTo(s) {
		if c, ok := v.(*ssa.Call); ok {
			if _, isB := c.Call.Value.(*ssa.Builtin); !isB && l.body[c.Block()] {
				if use == nil || before2(c, use) {
					use = c
				}
			}
		}
	}
	if use == nil {
		r.bad("stacked", key+"|unused", w.ipos(s), "the frames of a batch are not processed")
		return
	}
	if !everyIteration(l, use.Block()) {
		r.bad("stacked", key+"|skipped", w.ipos(use), "some batches are skipped without an error")
		return
	}
	r.ob("stacked", "%s: handed to %s", where, calleeName(use.Common()))
	// the result so far
	var acc *ssa.Phi
	for _, i := range l.head.Instrs {
		if ph, ok := i.(*ssa.Phi); ok && isImageT(ph.Type()) {
			if acc != nil {
				r.undecided("%s: several images carried from batch to batch", where)
				return
			}
			acc = ph
		}
	}
	if acc == nil {
		r.undecided("%s: no image carried from batch to batch", where)
		return
	}
	isBatch := func(v ssa.Value) bool {
		if v == ssa.Value(acc) || !isImageT(v.Type()) {
			return false
		}
		c, _ := resultOf(p.canon(v))
		return c != nil && l.body[c.Block()] && !usesVal(c, acc)
	}
	type leaf struct {
		v    ssa.Value
		pred *ssa.BasicBlock
		at   *ssa.BasicBlock
		env  map[*ssa.BasicBlock]int // edge taken into the blocks where values meet
	}
	var leaves []leaf
	var expand func(v ssa.Value, pred, at *ssa.BasicBlock, env map[*ssa.BasicBlock]int, d int)
	expand = func(v ssa.Value, pred, at *ssa.BasicBlock, env map[*ssa.BasicBlock]int, d int) {
		if ph, ok := v.(*ssa.Phi); ok && ph != acc && l.body[ph.Block()] && d < 8 {
			for i, e := range ph.Edges {
				ne := map[*ssa.BasicBlock]int{ph.Block(): i}
				for k, x := range env {
					ne[k] = x
				}
				expand(e, ph.Block().Preds[i], ph.Block(), ne, d+1)
			}
			return
		}
		leaves = append(leaves, leaf{v, pred, at, env})
	}
	for i, pr := range l.head.Preds {
		if l.body[pr] {
			expand(acc.Edges[i], pr, l.head, map[*ssa.BasicBlock]int{l.head: i}, 0)
		}
	}
	// a value at the end of the iteration on the same way
	along := func(ph *ssa.Phi, env map[*ssa.BasicBlock]int) ssa.Value {
		v := ssa.Value(ph)
		for d := 0; d < 10; d++ {
			x, ok := v.(*ssa.Phi)
			if !ok || x.Block() != l.head && !l.body[x.Block()] || d > 0 && x == ph {
				return v
			}
			k, ok := env[x.Block()]
			if !ok {
				return nil
			}
			v = x.Edges[k]
		}
		return nil
	}
	size := p.lenOf(s)
	var adds []leaf
	var addCalls []*ssa.Call
	skips := false
	for _, lf := range leaves {
		c, _ := resultOf(lf.v)
		switch {
		case lf.v == ssa.Value(acc):
			if onEdge(lf.pred, lf.at, func(cond ssa.Value, val bool) bool {
				b, ok := cond.(*ssa.BinOp)
				if !ok || (b.Op != token.EQL && b.Op != token.NEQ) {
					return false
				}
				x, y := b.X, b.Y
				if isNilConst(x) {
					x, y = y, x
				}
				return isNilConst(y) && isBatch(x) && (b.Op == token.EQL) == val
			}) {
				skips = true
				r.ob("stacked", "%s: batches without a result are passed over", where)
			} else {
				r.bad("stacked", key+"|lost", w.ipos(use), "the result of some batches is not added to the sum")
			}
		case c != nil && usesVal(c, acc):
			has := false
			for _, a := range c.Call.Args {
				if isBatch(a) {
					has = true
				}
			}
			if !has {
				r.bad("stacked", key+"|nobatch", w.ipos(c), "the sum is updated without the result of the batch")
				continue
			}
			r.ob("stacked", "%s: added by %s", where, calleeName(c.Common()))
			adds = append(adds, lf)
			addCalls = append(addCalls, c)
		case isBatch(lf.v):
			// takes the place of the sum: only if there is just one batch
			one := false
			if onEdge(lf.pred, lf.at, func(cond ssa.Value, val bool) bool {
				b, ok := cond.(*ssa.BinOp)
				if !ok {
					return false
				}
				if (b.Op == token.EQL || b.Op == token.NEQ) && (b.X == ssa.Value(acc) && isNilConst(b.Y) || b.Y == ssa.Value(acc) && isNilConst(b.X)) {
					return (b.Op == token.EQL) == val
				}
				return false
			}) {
				one = true
			}
			counted := false
			for _, g := range l.guards() {
				if g.op == token.LSS && g.iff.Block() == l.head {
					counted = counted || g.x.inc == nil && g.x.step == 1
					if p.quick(p.edgeFacts(lf.pred, lf.at, 0), constPoly(1).add(p.lin(g.bound), -1)) {
						one = true
					}
				}
			}
			if one {
				r.ob("stacked", "%s: the only batch is the result", where)
			} else if !counted && !everyIteration(l, lf.pred) {
				r.undecided("%s: when the result of a batch is the sum", where)
			} else {
				r.bad("stacked", key+"|replaced", w.ipos(use), "the result of a batch takes the place of the sum of those before it")
			}
		case isNilConst(lf.v):
			r.bad("stacked", key+"|dropped", w.ipos(use), "the sum of the batches is dropped")
		default:
			r.undecided("%s: image carried to the next batch (%s)", where, lf.v)
		}
	}
	if len(adds) == 0 {
		return
	}
	// weight of the batch
	for _, c := range addCalls {
		var wt ssa.Value
		for _, a := range c.Call.Args {
			if b, ok := a.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsNumeric != 0 {
				wt = a
			}
		}
		if wt == nil {
			r.undecided("%s: weight of the batch", where)
			continue
		}
		q := p.lin(intBelow(wt))
		if q.eq(size) {
			r.ob("weighted", "%s: weight is the number of frames", where)
		} else if okAll := bl.sameCases(q, size); okAll == 1 {
			r.ob("weighted", "%s: weight is the number of frames", where)
		} else if okAll == 2 {
			r.bad("weighted", key+"|weight", w.ipos(c), "the weight of a batch is %s, not the number of its frames", p.show(q))
		} else {
			r.undecided("%s: weight of the batch %s", where, p.show(q))
		}
		c11Adder(w, r, p, c)
	}
	// divided by the sum of the weights
	n := 0
	for _, v := range flowsTo(acc) {
		c, ok := v.(*ssa.Call)
		if !ok || l.body[c.Block()] || c.Parent() != bl.f {
			continue
		}
		var wt ssa.Value
		for _, a := range c.Call.Args {
			if b, ok := a.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsNumeric != 0 {
				wt = a
			}
		}
		if wt == nil {
			continue
		}
		n++
		c11Divider(w, r, p, c)
		tot := p.canon(intBelow(wt))
		ph, ok := tot.(*ssa.Phi)
		if !ok || ph.Block() != l.head {
			if q := p.lin(tot); q.eq(p.lenOf(s.X)) || c11SameLen(p, tot, s.X) {
				if skips {
					r.bad("weighted", key+"|total", w.ipos(c), "the sum is divided by the number of all frames, although batches without a result do not contribute to it")
				} else {
					r.ob("weighted", "%s: divided by the number of frames", where)
				}
			} else if k, ok := q.konst(); ok {
				r.bad("weighted", key+"|total", w.ipos(c), "the sum of the batches is divided by %g", k)
			} else {
				r.undecided("%s: the sum is divided by %s", where, p.show(q))
			}
			continue
		}
		good := true
		for i, pr := range l.head.Preds {
			if !l.body[pr] {
				if k, ok := p.lin(ph.Edges[i]).konst(); !ok || k != 0 {
					good = false
					r.bad("weighted", key+"|start", w.ipos(c), "the sum of the weights does not start at zero")
				}
			}
		}
		for _, lf := range leaves {
			x := along(ph, lf.env)
			if x == nil {
				good = false
				r.undecided("%s: sum of the weights", where)
				continue
			}
			dlt := p.lin(x).add(p.lin(ph), -1)
			cc, _ := resultOf(lf.v)
			switch {
			case lf.v == ssa.Value(acc):
				if len(dlt) != 0 {
					good = false
					r.bad("weighted", key+"|passed", w.ipos(c), "a batch which is passed over counts towards the weights")
				}
			case cc != nil && usesVal(cc, acc):
				if !dlt.eq(size) && bl.sameCases(dlt, size) != 1 {
					good = false
					if bl.sameCases(dlt, size) == 2 {
						r.bad("weighted", key+"|counted", w.ipos(c), "a batch which is added changes the sum of the weights by %s, not by the number of its frames", p.show(dlt))
					} else {
						r.undecided("%s: sum of the weights", where)
					}
				}
			}
		}
		if good {
			r.ob("weighted", "%s: divided by the number of frames stacked", where)
		}
	}
	if n == 0 {
		r.bad("weighted", key+"|undivided", w.ipos(use), "the sum of the batches is not divided by the sum of their weights")
	}
}

// compares two values case by case: 1 same, 2 different, 0 unknown
func (bl *batchLoop) sameCases(a, b poly) int {
	d := a.add(b, -1)
	res := 1
	for _, c := range bl.cases(d, constraints{}, 0) {
		if len(c.q) == 0 {
			continue
		}
		if _, ok := c.q.konst(); ok {
			return 2
		}
		res = 2
		for _, n := range bl.p.atomsOf(c.q) {
			if !plainInt(bl.p.atoms[n].v, bl.p.atoms[n].len, 0, map[ssa.Value]bool{}) {
				return 0
			}
		}
	}
	return res
}

func c11SameLen(p *prover, v ssa.Value, x ssa.Value) bool {
	q := p.lenOf(x)
	if n := p.lin(v); len(n) == 1 && len(q) == 1 {
		return n.eq(q)
	}
	return false
}

// the same for every iteration of the loop around the instruction
func isFixed(v ssa.Value, at ssa.Instruction) bool {
	if v == nil {
		return true
	}
	l := loopOf(at.Block())
	return l != nil && !variesIn(v, l, map[ssa.Value]bool{})
}

// looks through the conversion of a count to a floating point number
func intBelow(v ssa.Value) ssa.Value {
	for d := 0; d < 5; d++ {
		c, ok := v.(*ssa.Convert)
		if !ok {
			break
		}
		v = c.X
	}
	return v
}

func usesVal(c *ssa.Call, v ssa.Value) bool {
	for _, a := range c.Call.Args {
		if a == v {
			return true
		}
	}
	return false
}

func before2(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		return before(a, b)
	}
	return a.Block().Dominates(b.Block())
}

// instructions a value is handed to, through renaming and merging
func flowsTo(v ssa.Value) (r []ssa.Instruction) {
	seen := map[ssa.Value]bool{}
	var rec func(v ssa.Value)
	rec = func(v ssa.Value) {
		if seen[v] || v.Referrers() == nil {
			return
		}
		seen[v] = true
		for _, rf := range *v.Referrers() {
			r = append(r, rf)
			switch x := rf.(type) {
			case *ssa.Phi:
				rec(x)
			case *ssa.ChangeType:
				rec(x)
			case *ssa.MakeInterface:
				rec(x)
			}
		}
	}
	rec(v)
	return
}

// is the edge pred -> b only taken if one of the conditions on the way satisfies want
func onEdge(pred, b *ssa.BasicBlock, want func(cond ssa.Value, val bool) bool) bool {
	test := func(from, to *ssa.BasicBlock) bool {
		iff, ok := from.Instrs[len(from.Instrs)-1].(*ssa.If)
		if !ok || from.Succs[0] == from.Succs[1] {
			return false
		}
		cond, neg := stripNot(iff.Cond)
		return want(cond, (from.Succs[0] == to) != neg)
	}
	if test(pred, b) {
		return true
	}
	for x := pred; x != nil; x = x.Idom() {
		if len(x.Preds) == 1 && test(x.Preds[0], x) {
			return true
		}
	}
	return false
}

// the function that adds a batch to the sum: pixels are multiplied with the weight
func c11Adder(w *World, r *Report, p *prover, c *ssa.Call) {
	t := c.Call.StaticCallee()
	if t == nil || !w.inMod[t] {
		r.undecided("%s: unknown function", w.ipos(c))
		return
	}
	var weight *ssa.Parameter
	for _, x := range t.Params {
		if isFloat1(x.Type()) {
			weight = x
		}
	}
	if weight == nil {
		r.undecided("%s: %s has no weight", w.ipos(c), fname(t))
		return
	}
	for _, b := range t.Blocks {
		for _, i := range b.Instrs {
			st, ok := i.(*ssa.Store)
			if !ok || !isFloat1(st.Val.Type()) {
				continue
			}
			ia, ok := st.Addr.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			v := st.Val
			old := false
			if a, ok := v.(*ssa.BinOp); ok && a.Op == token.ADD {
				for _, o := range [][2]ssa.Value{{a.X, a.Y}, {a.Y, a.X}} {
					if u, ok := o[0].(*ssa.UnOp); ok && u.Op == token.MUL {
						if ja, ok := u.X.(*ssa.IndexAddr); ok && (ja == ia || samePlace(p, ja, ia)) {
							old = true
							v = o[1]
							break
						}
					}
				}
			}
			m, ok := v.(*ssa.BinOp)
			var px ssa.Value
			if ok && m.Op == token.MUL {
				if m.X == ssa.Value(weight) {
					px = m.Y
				} else if m.Y == ssa.Value(weight) {
					px = m.X
				}
			}
			u, isLoad := v.(*ssa.UnOp)
			switch {
			case px != nil:
				ld, ok := px.(*ssa.UnOp)
				if !ok {
					r.undecided("%s: value added", w.ipos(st))
					continue
				}
				ja, ok := ld.X.(*ssa.IndexAddr)
				if !ok || !p.lin(ja.Index).eq(p.lin(ia.Index)) {
					r.undecided("%s: value added", w.ipos(st))
					continue
				}
				if old {
					r.ob("weighted", "%s %s: weighted pixel added to the sum", fname(t), w.ipos(st))
				} else {
					r.ob("weighted", "%s %s: sum starts with the weighted pixel", fname(t), w.ipos(st))
				}
			case isLoad && u.Op == token.MUL:
				r.bad("weighted", fname(t)+"|unweighted", w.ipos(st), "pixels of a batch are added without its weight")
			default:
				r.undecided("%s %s: value added", fname(t), w.ipos(st))
			}
		}
	}
}

func samePlace(p *prover, a, b *ssa.IndexAddr) bool {
	return p.lin(a.Index).eq(p.lin(b.Index)) && p.lenOf(a.X).eq(p.lenOf(b.X))
}

// the function that divides the sum by the weights
func c11Divider(w *World, r *Report, p *prover, c *ssa.Call) {
	t := c.Call.StaticCallee()
	if t == nil || !w.inMod[t] {
		return
	}
	var weight *ssa.Parameter
	for _, x := range t.Params {
		if isFloat1(x.Type()) {
			weight = x
		}
	}
	if weight == nil {
		return
	}
	for _, b := range t.Blocks {
		for _, i := range b.Instrs {
			st, ok := i.(*ssa.Store)
			if !ok || !isFloat1(st.Val.Type()) {
				continue
			}
			if _, ok := st.Addr.(*ssa.IndexAddr); !ok {
				continue
			}
			inverse := func(v ssa.Value) bool {
				q, ok := v.(*ssa.BinOp)
				if !ok || q.Op != token.QUO || stripFloatConv(q.Y) != ssa.Value(weight) {
					return false
				}
				c, ok := q.X.(*ssa.Const)
				if !ok {
					return false
				}
				k, ok := constFloat(c)
				return ok && k == 1
			}
			m, ok := st.Val.(*ssa.BinOp)
			switch {
			case ok && m.Op == token.QUO && m.Y == ssa.Value(weight), ok && m.Op == token.MUL && (inverse(m.Y) || inverse(m.X)):
				r.ob("weighted", "%s %s: divided by the weights", fname(t), w.ipos(st))
			case ok && (m.Op == token.MUL || m.Op == token.QUO) && (m.X == ssa.Value(weight) || m.Y == ssa.Value(weight)):
				r.bad("weighted", fname(t)+"|divide", w.ipos(st), "the sum of the batches is not divided by the sum of the weights")
			default:
				r.undecided("%s %s: how the sum is divided by the weights", fname(t), w.ipos(st))
			}
		}
	}
}
