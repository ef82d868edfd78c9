package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// C08: parallel work.
//
// For every go statement the objects the worker synchronises on are found (slot channels, wait groups, result channels).
// Counting dataflow over the worker shows that it signals exactly once on every path, and does nothing afterwards; counting
// dataflow over the function that starts it shows that a slot is held at each start; the loops that wait are matched with
// the number of workers started or the number of slots; no path from a start to a return or to a read of memory the
// workers write avoids the wait. The number of slots is traced to the limit.

func init() {
	register("C08", "parallel work: for every go statement, counting dataflow over all paths of the worker (exactly one signal, nothing after it) and of the starting function (a slot per start), loops that wait matched with the number of slots or workers, every path from a start to a return or a read of results passes the wait, limits traced to their origin", runC08)
}

const (
	skAcquire = "send"
	skRelease = "receive"
	skGet     = "get"
	skDone    = "done"
	skWait    = "wait"
	skAdd     = "add"
	skClose   = "close"
)

type c08 struct {
	w *World
	r *Report
	p *prover
}

type syncOp struct {
	obj  ssa.Value
	kind string
	arg  ssa.Value // number added
}

type workerEnv map[ssa.Value]ssa.Value // parameters of the worker -> values of the function starting it

func runC08(w *World, r *Report) {
	r.rule("signal", "a worker gives back its slot or reports completion exactly once on every path", 4)
	r.rule("last", "a worker does nothing that others can see after giving back its slot or reporting completion", 4)
	r.rule("acquire", "every worker is started with a slot taken for it, or counted before it starts", 4)
	r.rule("join", "no path from starting a worker to a return avoids waiting for all workers", 4)
	r.rule("results", "memory workers write is not read before all of them are done", 4)
	r.rule("number", "the wait is for as many slots or workers as there are", 4)
	r.rule("limit", "the number of workers running at the same time does not exceed the limit", 4)
	c := &c08{w: w, r: r, p: newProver(w, nil)}
	n := 0
	for _, f := range w.Funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if g, ok := i.(*ssa.Go); ok {
					n++
					c.worker(f, g)
				}
			}
		}
	}
	if n == 0 {
		r.undecided("no goroutines are started")
	}
}

// the object a value denotes
func (c *c08) obj(v ssa.Value, env workerEnv) ssa.Value {
	for d := 0; d < 10; d++ {
		v = c.p.canon(v)
		if x, ok := env[v]; ok {
			v = x
			continue
		}
		switch x := v.(type) {
		case *ssa.ChangeType:
			v = x.X
			continue
		case *ssa.MakeInterface:
			v = x.X
			continue
		}
		return v
	}
	return v
}

// function run by a call, and what its parameters stand for
func (c *c08) callee(cc *ssa.CallCommon, env workerEnv) (*ssa.Function, workerEnv) {
	f := cc.StaticCallee()
	if f == nil {
		v := c.obj(cc.Value, env)
		switch x := v.(type) {
		case *ssa.MakeClosure:
			f = x.Fn.(*ssa.Function)
		case *ssa.Function:
			f = x
		}
	}
	if f == nil || len(f.Blocks) == 0 || !c.w.inMod[f] {
		return nil, nil
	}
	e := workerEnv{}
	for k, v := range env {
		e[k] = v
	}
	for k, p := range f.Params {
		if k < len(cc.Args) {
			e[p] = c.obj(cc.Args[k], env)
		}
	}
	return f, e
}

// synchronisation done by an instruction itself
func (c *c08) sync(i ssa.Instruction, env workerEnv) *syncOp {
	switch x := i.(type) {
	case *ssa.Send:
		return &syncOp{obj: c.obj(x.Chan, env), kind: skAcquire}
	case *ssa.UnOp:
		if x.Op == token.ARROW {
			for _, u := range *x.Referrers() { // receives work or a result
				if _, ok := u.(*ssa.DebugRef); !ok {
					return &syncOp{obj: c.obj(x.X, env), kind: skGet}
				}
			}
			return &syncOp{obj: c.obj(x.X, env), kind: skRelease}
		}
	case ssa.CallInstruction:
		if _, isDefer := i.(*ssa.Defer); isDefer {
			return nil
		}
		return c.syncCall(x.Common(), env)
	}
	return nil
}

func (c *c08) syncCall(cc *ssa.CallCommon, env workerEnv) *syncOp {
	switch calleeName(cc) {
	case "(*sync.WaitGroup).Done":
		return &syncOp{obj: c.obj(cc.Args[0], env), kind: skDone}
	case "(*sync.WaitGroup).Wait":
		return &syncOp{obj: c.obj(cc.Args[0], env), kind: skWait}
	case "(*sync.WaitGroup).Add":
		if k, ok := constInt(cc.Args[1]); ok && k == -1 {
			return &syncOp{obj: c.obj(cc.Args[0], env), kind: skDone}
		}
		return &syncOp{obj: c.obj(cc.Args[0], env), kind: skAdd, arg: cc.Args[1]}
	case "builtin.close":
		return &syncOp{obj: c.obj(cc.Args[0], env), kind: skClose}
	}
	return nil
}

// all synchronisation reachable in f: (object, kind) pairs
func (c *c08) opsOf(f *ssa.Function, env workerEnv, d int, res map[syncOp]bool) {
	for _, b := range f.Blocks {
		if b == f.Recover {
			continue
		}
		for _, i := range b.Instrs {
			if s := c.sync(i, env); s != nil {
				res[syncOp{obj: s.obj, kind: s.kind}] = true
				continue
			}
			if ci, ok := i.(ssa.CallInstruction); ok && d < 4 {
				if _, isGo := i.(*ssa.Go); isGo {
					continue
				}
				if s := c.syncCall(ci.Common(), env); s != nil {
					res[syncOp{obj: s.obj, kind: s.kind}] = true
					continue
				}
				if g, e := c.callee(ci.Common(), env); g != nil {
					c.opsOf(g, e, d+1, res)
				}
			}
		}
	}
}

// how often f performs the operation on its way to a return: set of counts, 2 stands for more. late: by deferred calls
func (c *c08) count(f *ssa.Function, env workerEnv, op syncOp, d int) int {
	if d > 4 {
		return 1
	}
	ofCall := func(cc *ssa.CallCommon) int {
		if s := c.syncCall(cc, env); s != nil {
			if s.obj == op.obj && s.kind == op.kind {
				return 2 // exactly once
			}
			return 1
		}
		if g, e := c.callee(cc, env); g != nil {
			return c.count(g, e, op, d+1)
		}
		return 1
	}
	inc := func(i ssa.Instruction) int {
		if s := c.sync(i, env); s != nil {
			if s.obj == op.obj && s.kind == op.kind {
				return 2
			}
			return 1
		}
		if ci, ok := i.(ssa.CallInstruction); ok {
			if _, isGo := i.(*ssa.Go); !isGo {
				return ofCall(ci.Common())
			}
		}
		return 1
	}
	res := 0
	in := map[*ssa.BasicBlock]int{f.Blocks[0]: 1}
	work := []*ssa.BasicBlock{f.Blocks[0]}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		m := in[b]
		for _, i := range b.Instrs {
			m = addMask(m, inc(i))
		}
		if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			res |= m
		}
		for _, s := range b.Succs {
			if in[s]|m != in[s] {
				in[s] |= m
				work = append(work, s)
			}
		}
	}
	if res == 0 {
		return 1
	}
	return res
}

// sums of counts out of two sets (bit n: count n, bit 2: two or more)
func addMask(a, b int) int {
	r := 0
	for i := uint(0); i < 3; i++ {
		for j := uint(0); j < 3; j++ {
			if a&(1<<i) != 0 && b&(1<<j) != 0 {
				k := i + j
				if k > 2 {
					k = 2
				}
				r |= 1 << k
			}
		}
	}
	return r
}

// something others can see
func (c *c08) visible(i ssa.Instruction, env workerEnv, d int) bool {
	switch x := i.(type) {
	case *ssa.Store:
		a, _ := rootPath(x.Addr)
		if al, ok := a.(*ssa.Alloc); ok && al.Parent() == i.Parent() {
			return al.Heap && false
		}
		return true
	case *ssa.MapUpdate, *ssa.Send, *ssa.Panic:
		return true
	case ssa.CallInstruction:
		if b, ok := x.Common().Value.(*ssa.Builtin); ok {
			return b.Name() == "copy" || b.Name() == "delete" || b.Name() == "close"
		}
		if s := c.syncCall(x.Common(), env); s != nil {
			return false
		}
		switch calleeName(x.Common()) {
		case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RUnlock":
			return false
		}
		if g, e := c.callee(x.Common(), env); g != nil && d < 4 {
			for _, b := range g.Blocks {
				for _, j := range b.Instrs {
					if c.visible(j, e, d+1) {
						return true
					}
				}
			}
			return false
		}
		return true
	}
	return false
}

// does instruction i (or what it calls) perform the operation
func (c *c08) performs(i ssa.Instruction, env workerEnv, op syncOp) bool {
	if s := c.sync(i, env); s != nil {
		return s.obj == op.obj && s.kind == op.kind
	}
	ci, ok := i.(ssa.CallInstruction)
	if !ok {
		return false
	}
	if _, isGo := i.(*ssa.Go); isGo {
		return false
	}
	if s := c.syncCall(ci.Common(), env); s != nil {
		return s.obj == op.obj && s.kind == op.kind
	}
	if g, e := c.callee(ci.Common(), env); g != nil {
		m := map[syncOp]bool{}
		c.opsOf(g, e, 1, m)
		return m[op]
	}
	return false
}

// first thing done by f after the operation that others can see
func (c *c08) afterwards(f *ssa.Function, env workerEnv, op syncOp, d int) ssa.Instruction {
	var defers []*ssa.Defer
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if x, ok := i.(*ssa.Defer); ok {
				defers = append(defers, x)
			}
		}
	}
	for _, b := range f.Blocks {
		for n, i := range b.Instrs {
			if !c.performs(i, env, op) {
				continue
			}
			if ci, ok := i.(ssa.CallInstruction); ok && d < 4 {
				if g, e := c.callee(ci.Common(), env); g != nil {
					if x := c.afterwards(g, e, op, d+1); x != nil {
						return x
					}
				}
			}
			if df, ok := i.(*ssa.Defer); ok {
				// runs before what was deferred earlier
				for _, o := range defers {
					if o != df && (o.Block() == b && before(o, df) || o.Block() != b && blockReaches(o.Block(), b)) && c.visible(o, env, 0) {
						return o
					}
				}
				continue
			}
			for _, j := range b.Instrs[n+1:] {
				if _, isDefer := j.(*ssa.Defer); !isDefer && c.visible(j, env, 0) {
					return j
				}
			}
			seen := map[*ssa.BasicBlock]bool{}
			var rec func(x *ssa.BasicBlock) ssa.Instruction
			rec = func(x *ssa.BasicBlock) ssa.Instruction {
				if seen[x] {
					return nil
				}
				seen[x] = true
				for _, j := range x.Instrs {
					if c.performs(j, env, op) {
						return nil // counted elsewhere
					}
					if _, isDefer := j.(*ssa.Defer); !isDefer && c.visible(j, env, 0) {
						return j
					}
				}
				for _, s := range x.Succs {
					if r := rec(s); r != nil {
						return r
					}
				}
				return nil
			}
			for _, s := range b.Succs {
				if r := rec(s); r != nil {
					return r
				}
			}
			// deferred calls with effects run after it
			for _, o := range defers {
				if c.visible(o, env, 0) {
					return o
				}
			}
		}
	}
	return nil
}

type joinPoint struct {
	i    ssa.Instruction // the wait itself
	l    *loop           // or the loop that waits
	kind string
}

func (c *c08) worker(f *ssa.Function, g *ssa.Go) {
	w, r := c.w, c.r
	where := fmt.Sprintf("%s %s", fname(f), w.ipos(g))
	key := fname(f)
	body, env := c.callee(g.Common(), workerEnv{})
	if body == nil {
		ts := c.w.targets(g)
		for _, t := range ts {
			m := map[syncOp]bool{}
			if len(t.Blocks) == 0 || len(t.FreeVars) > 0 {
				ts = nil
				break
			}
			c.opsOf(t, workerEnv{}, 0, m)
			if len(m) > 0 {
				ts = nil
				break
			}
		}
		if len(ts) > 0 {
			r.bad("join", key+"|never", w.ipos(g), "nothing waits for the worker started here")
			return
		}
		r.undecided("%s: function started", where)
		return
	}
	ops := map[syncOp]bool{}
	c.opsOf(body, env, 0, ops)
	// what f does with these objects
	type fop struct {
		i  ssa.Instruction
		s  *syncOp
		l  *loop
		df bool
	}
	var fops []fop
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if s := c.sync(i, nil); s != nil {
				fops = append(fops, fop{i, s, loopOf(b), false})
			} else if d, ok := i.(*ssa.Defer); ok {
				if s := c.syncCall(d.Common(), nil); s != nil {
					fops = append(fops, fop{i, s, nil, true})
				}
			}
		}
	}
	gl := loopOf(g.Block())
	var outer []*loop
	for _, l := range loopsOf(f) {
		if l.body[g.Block()] {
			outer = append(outer, l)
		}
	}
	inSpawnLoop := func(b *ssa.BasicBlock) bool {
		for _, l := range outer {
			if l.body[b] {
				return true
			}
		}
		return false
	}
	var joins []joinPoint
	limited := false
	found := false
	var order []syncOp
	for _, k := range []string{skRelease, skDone, skAcquire, skClose} {
		var same []syncOp
		for op := range ops {
			if op.kind == k {
				same = append(same, op)
			}
		}
		sort.Slice(same, func(i, j int) bool { return same[i].obj.Pos() < same[j].obj.Pos() })
		order = append(order, same...)
	}
	for _, op := range order {
		switch op.kind {
		case skRelease: // slots: f sends
			var drains []fop
			acq := 0
			for _, o := range fops {
				if o.s.obj == op.obj && o.s.kind == skAcquire {
					if o.l != nil && !o.l.body[g.Block()] && (gl == nil || !c.before(o.i, g)) {
						drains = append(drains, o)
					} else {
						acq++
					}
				}
			}
			other := acq+len(drains) == 0
			if ops[syncOp{obj: op.obj, kind: skAcquire}] {
				r.bad("acquire", key+"|inside", w.ipos(g), "the worker takes its slot after it was started: the number of workers is not bounded, and waiting for the slots does not wait for workers that have not taken theirs yet")
				found = true
				continue
			}
			if other {
				continue // receives work, not slots
			}
			found = true
			c.signal(body, env, op, where, key)
			if acq > 0 {
				c.held(f, g, op.obj, drains == nil, func(i ssa.Instruction) bool {
					for _, d := range drains {
						if d.i == i {
							return true
						}
					}
					return false
				}, where, key)
				limited = true
				c.limit(op.obj, g, where, key)
			}
			for _, d := range drains {
				if c.slots(d.l, d.i, op.obj, where, key) {
					joins = append(joins, joinPoint{l: d.l, kind: "slots"})
				}
			}
		case skDone:
			found = true
			c.signal(body, env, op, where, key)
			var adds []fop
			for _, o := range fops {
				if o.s.obj == op.obj && o.s.kind == skWait {
					joins = append(joins, joinPoint{i: o.i, kind: "group"})
				}
				if o.s.obj == op.obj && o.s.kind == skAdd {
					adds = append(adds, o)
				}
			}
			if ops[syncOp{obj: op.obj, kind: skAdd}] {
				r.bad("acquire", key+"|addinside", w.ipos(g), "the worker counts itself after it was started: the wait can end before it does")
				continue
			}
			if len(adds) == 0 {
				r.bad("acquire", key+"|uncounted", w.ipos(g), "the worker is not counted before it starts: nothing waits for it")
				continue
			}
			if len(adds) > 1 {
				r.undecided("%s: workers counted at several places", where)
				continue
			}
			a := adds[0]
			k, isK := constInt(a.s.arg)
			switch {
			case inSpawnLoop(a.i.Block()) && isK && loopOf(a.i.Block()) == gl:
				if k != 1 {
					r.bad("number", key+"|add", w.ipos(a.i), "each worker is counted as %d", k)
				} else {
					c.held(f, g, op.obj, true, nil, where, key)
					r.ob("number", "%s: counted one by one", where)
				}
			case inSpawnLoop(a.i.Block()) != inSpawnLoop(g.Block()) || !inSpawnLoop(g.Block()):
				if !c.before(a.i, g) {
					r.bad("acquire", key+"|late", w.ipos(a.i), "workers are counted after they have been started")
					continue
				}
				r.ob("acquire", "%s: counted before the first starts", where)
				c.trips(g, gl, a.i, c.p.lin(a.s.arg), "counted", where, key)
			default:
				r.undecided("%s: how workers are counted", where)
			}
		case skAcquire: // results: f receives
			var recv []fop
			for _, o := range fops {
				if o.s.obj == op.obj && (o.s.kind == skRelease || o.s.kind == skGet) {
					recv = append(recv, o)
				}
			}
			if len(recv) == 0 {
				continue
			}
			m := c.count(body, env, op, 0)
			if m != 2 {
				if m&1 != 0 {
					r.bad("signal", key+"|noresult", w.ipos(g), "on some path the worker ends without sending its result: the collection of results waits for ever")
				} else {
					r.bad("signal", key+"|manyresults", w.ipos(g), "the worker sends more than one result, but fewer are collected")
				}
				found = true
				continue
			}
			r.ob("signal", "%s: one result sent on every path", where)
			found = true
			for _, o := range recv {
				if o.l == nil || o.l.body[g.Block()] {
					if gl == nil && o.l == nil {
						joins = append(joins, joinPoint{i: o.i, kind: "result"})
						r.ob("number", "%s: one worker, one result", where)
						continue
					}
					r.undecided("%s: results collected at %s", where, w.ipos(o.i))
					continue
				}
				n, ok := c.tripCount(o.l)
				if !ok || !everyIteration(o.l, o.i.Block()) || len(o.l.exits()) != 1 {
					r.undecided("%s: number of results collected at %s", where, w.ipos(o.i))
					continue
				}
				if c.trips(g, gl, o.i, n, "collected", where, key) {
					if c.afterwards(body, env, op, 0) == nil {
						joins = append(joins, joinPoint{l: o.l, kind: "result"})
					}
					c.capacity(op.obj, g, gl, n, fops != nil && limited, where, key)
				}
			}
		case skClose:
			for _, o := range fops {
				if o.s.obj == op.obj && (o.s.kind == skRelease || o.s.kind == skGet) {
					found = true
					c.signal(body, env, op, where, key)
					if gl == nil {
						joins = append(joins, joinPoint{i: o.i, kind: "closed"})
						r.ob("number", "%s: one worker", where)
					} else {
						r.undecided("%s: channel closed by several workers", where)
					}
				}
			}
		}
	}
	if !found || len(joins) == 0 {
		r.bad("join", key+"|never", w.ipos(g), "nothing waits for the worker started here")
		return
	}
	c.joined(f, g, joins, where, key)
	if !limited && gl != nil {
		c.bounded(g, gl, where, key)
	} else if gl == nil {
		r.ob("limit", "%s: one worker", where)
	}
}

func (c *c08) before(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		return before(a, b)
	}
	return a.Block().Dominates(b.Block())
}

func (c *c08) signal(body *ssa.Function, env workerEnv, op syncOp, where, key string) {
	m := c.count(body, env, op, 0)
	switch {
	case m == 2:
		c.r.ob("signal", "%s: one %s on every path", where, op.kind)
	case m&1 != 0:
		c.r.bad("signal", key+"|unreleased", c.w.pos(body.Pos()), "on some path the worker ends without giving back its slot or reporting that it is done: the function waits for ever, or runs out of slots")
	default:
		c.r.bad("signal", key+"|twice", c.w.pos(body.Pos()), "on some path the worker gives back its slot or reports that it is done more than once: more workers than slots, or the wait ends early")
	}
	if i := c.afterwards(body, env, op, 0); i != nil {
		c.r.bad("last", key+"|after", c.w.ipos(i), "the worker goes on working after giving back its slot or reporting that it is done: results are used before they are complete")
	} else {
		c.r.ob("last", "%s: %s is the last thing the worker does", where, op.kind)
	}
}

// exactly one slot is taken between two starts
func (c *c08) held(f *ssa.Function, g *ssa.Go, obj ssa.Value, _ bool, isDrain func(ssa.Instruction) bool, where, key string) {
	r := c.r
	// counts -1..2 as bits 0..3
	step := func(m int, i ssa.Instruction, fail func(string)) int {
		if i == ssa.Instruction(g) {
			if m&^4 != 0 && fail != nil {
				if m&(1|2) != 0 {
					fail("a worker is started without a slot taken for it, or without being counted")
				} else {
					fail("more than one slot is taken for a worker")
				}
			}
			return 2
		}
		s := c.sync(i, nil)
		if s == nil || s.obj != obj || isDrain != nil && isDrain(i) {
			return m
		}
		switch s.kind {
		case skAcquire, skAdd:
			m <<= 1
		case skRelease:
			m = m >> 1
		}
		if m > 15 {
			m = m&15 | 8
		}
		return m
	}
	in := map[*ssa.BasicBlock]int{f.Blocks[0]: 2}
	work := []*ssa.BasicBlock{f.Blocks[0]}
	for n := 0; len(work) > 0 && n < 2000; n++ {
		b := work[0]
		work = work[1:]
		m := in[b]
		for _, i := range b.Instrs {
			m = step(m, i, nil)
		}
		for _, s := range b.Succs {
			if in[s]|m != in[s] {
				in[s] |= m
				work = append(work, s)
			}
		}
	}
	good := true
	m := in[g.Block()]
	for _, i := range g.Block().Instrs {
		if i == ssa.Instruction(g) {
			step(m, i, func(s string) {
				good = false
				r.bad("acquire", key+"|slot", c.w.ipos(g), "%s", s)
			})
			break
		}
		m = step(m, i, nil)
	}
	if good {
		r.ob("acquire", "%s: one per worker", where)
	}
}

// number of iterations of a counting loop
func (c *c08) tripCount(l *loop) (poly, bool) {
	for _, g := range l.guards() {
		if g.iff.Block() != l.head || g.x.inc != nil || g.x.step != 1 {
			continue
		}
		n := c.p.lin(g.bound).add(c.p.lin(g.x.init), -1).add(constPoly(float64(g.x.off)), -1)
		switch g.op {
		case token.LSS, token.NEQ:
			return n, true
		case token.LEQ:
			return n.add(constPoly(1), 1), true
		}
	}
	for _, g := range l.guards() { // counting down
		if g.iff.Block() != l.head || g.x.inc != nil || g.x.step != -1 {
			continue
		}
		n := c.p.lin(g.x.init).add(constPoly(float64(g.x.off)), 1).add(c.p.lin(g.bound), -1)
		switch g.op {
		case token.GTR, token.NEQ:
			return n, true
		case token.GEQ:
			return n.add(constPoly(1), 1), true
		}
	}
	return nil, false
}

// as many workers are started as are counted or collected
func (c *c08) trips(g *ssa.Go, gl *loop, at ssa.Instruction, n poly, what string, where, key string) bool {
	r, p := c.r, c.p
	if gl == nil {
		if k, ok := n.konst(); ok && k == 1 {
			r.ob("number", "%s: one worker, one %s", where, what)
			return true
		} else if ok {
			r.bad("number", key+"|"+what, c.w.ipos(at), "one worker is started, %g are %s", k, what)
			return false
		}
		r.undecided("%s: number of workers", where)
		return false
	}
	if !everyIteration(gl, g.Block()) {
		r.bad("number", key+"|"+what, c.w.ipos(at), "workers are not started in every iteration, but one is %s for each", what)
		return false
	}
	if len(gl.exits()) != 1 {
		r.undecided("%s: number of workers", where)
		return false
	}
	if t, ok := c.tripCount(gl); ok {
		d := t.add(n, -1)
		if len(d) == 0 {
			r.ob("number", "%s: %s as many as started", where, what)
			return true
		}
		if k, ok := d.konst(); ok {
			r.bad("number", key+"|"+what, c.w.ipos(at), "%+g workers are started compared to those %s", k, what)
			return false
		}
		plain := true
		for _, a := range p.atomsOf(d) {
			plain = plain && plainInt(p.atoms[a].v, p.atoms[a].len, 0, map[ssa.Value]bool{})
		}
		if plain && p.ge0(at.Block(), d) != vProved {
			r.bad("number", key+"|"+what, c.w.ipos(at), "%s workers are started, but %s are %s", p.show(t), p.show(n), what)
			return false
		}
		r.undecided("%s: number of workers", where)
		return false
	}
	// moved by a step
	for _, x := range gl.guards() {
		if x.iff.Block() != gl.head || x.op != token.LSS || x.x.off != 0 {
			continue
		}
		s := constPoly(float64(x.x.step))
		if x.x.inc != nil {
			s = p.lin(x.x.inc)
		}
		if k, ok := p.lin(x.x.init).konst(); !ok || k != 0 {
			break
		}
		L := p.lin(x.bound)
		pre := loopPre(gl)
		if pre == nil {
			break
		}
		a, pa := c11Prove(p, pre, n.mul(s).add(L, -1), nil, 0)
		b, pb := c11Prove(p, pre, L.add(n.mul(s), -1).add(s, 1).add(constPoly(1), -1), nil, 0)
		switch {
		case a && b:
			r.ob("number", "%s: %s as many as started", where, what)
			return true
		case !a && pa || !b && pb:
			r.bad("number", key+"|"+what, c.w.ipos(at), "the number of workers %s can differ from the number started", what)
			return false
		}
		break
	}
	r.undecided("%s: number of workers", where)
	return false
}

// a loop that takes back all slots
func (c *c08) slots(l *loop, i ssa.Instruction, ch ssa.Value, where, key string) bool {
	r, p := c.r, c.p
	mk, ok := ch.(*ssa.MakeChan)
	if !ok {
		r.undecided("%s: slots", where)
		return false
	}
	if !everyIteration(l, i.Block()) || len(l.exits()) != 1 {
		r.bad("number", key+"|drain", c.w.ipos(i), "waiting for the workers can stop before all slots are back")
		return false
	}
	n, ok := c.tripCount(l)
	if !ok {
		r.undecided("%s: number of slots waited for", where)
		return false
	}
	size := p.lin(mk.Size)
	for _, a := range p.atomsOf(n) {
		if cl, ok := p.atoms[a].v.(*ssa.Call); ok {
			if b, ok := cl.Call.Value.(*ssa.Builtin); ok && b.Name() == "cap" && c.obj(cl.Call.Args[0], nil) == ch {
				n = substPoly(n, a, size)
			}
		}
	}
	d := n.add(size, -1)
	if len(d) == 0 {
		r.ob("number", "%s: all slots waited for", where)
		return true
	}
	// both the current limit
	if c.sameLimit(n, size) {
		r.ob("number", "%s: all slots waited for", where)
		return true
	}
	plain := true
	for _, a := range p.atomsOf(d) {
		x := p.atoms[a]
		if cl, ok := x.v.(*ssa.Call); ok && !x.len {
			if b, ok := cl.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				continue
			}
		}
		plain = plain && plainInt(x.v, x.len, 0, map[ssa.Value]bool{})
	}
	if plain {
		r.bad("number", key+"|drain", c.w.ipos(i), "the wait is for %s slots, but there are %s: workers can still be running after it", p.show(n), p.show(size))
	} else {
		r.undecided("%s: number of slots waited for", where)
	}
	return false
}

// two calls of runtime.NumCPU return the same
func (c *c08) sameLimit(a, b poly) bool {
	name := func(q poly) string {
		if len(q) != 1 {
			return ""
		}
		for _, n := range c.p.atomsOf(q) {
			if cl, ok := c.p.atoms[n].v.(*ssa.Call); ok && q[n] == 1 {
				if s := calleeName(cl.Common()); s == "runtime.NumCPU" || s == "runtime.GOMAXPROCS" {
					return s
				}
			}
		}
		return ""
	}
	return name(a) != "" && name(a) == name(b)
}

// results sent while slots are held must not block
func (c *c08) capacity(ch ssa.Value, g *ssa.Go, gl *loop, n poly, slots bool, where, key string) {
	mk, ok := ch.(*ssa.MakeChan)
	if !ok || !slots {
		return
	}
	size := c.p.lin(mk.Size)
	if size.eq(n) {
		c.r.ob("number", "%s: room for all results", where)
		return
	}
	d := size.add(n, -1)
	if k, ok := d.konst(); ok && k > 0 {
		return
	}
	for _, a := range c.p.atomsOf(d) {
		if !plainInt(c.p.atoms[a].v, c.p.atoms[a].len, 0, map[ssa.Value]bool{}) {
			c.r.undecided("%s: room for results", where)
			return
		}
	}
	if c.p.ge0(g.Block(), d) == vProved {
		return
	}
	c.r.bad("number", key+"|room", c.w.ipos(mk), "workers send their results while holding a slot, but there is only room for %s of %s: all of them wait for ever", c.p.show(size), c.p.show(n))
}

// no way from the start of a worker to a return or to a use of results without waiting
func (c *c08) joined(f *ssa.Function, g *ssa.Go, joins []joinPoint, where, key string) {
	w, r := c.w, c.r
	e := w.effects()
	var written []AP
	for a := range e.callWrites(g) {
		if a.Root != nil && (a.Root.Parent() == f || isFreeVarOf(a.Root, f)) {
			written = append(written, a)
		}
	}
	deferred := false
	stop := map[ssa.Instruction]bool{}
	heads := map[*ssa.BasicBlock]*loop{}
	for _, j := range joins {
		if j.i != nil {
			if _, ok := j.i.(*ssa.Defer); ok {
				deferred = true
			} else {
				stop[j.i] = true
			}
		} else {
			heads[j.l.head] = j.l
		}
	}
	overlap := func(as []AP) bool {
		for _, a := range as {
			for _, b := range written {
				if a == b {
					return true
				}
			}
		}
		return false
	}
	under := func(as []AP) bool { // written below one of these
		for _, a := range as {
			for _, b := range written {
				if a.Root == b.Root && len(b.Path) >= len(a.Path) && b.Path[:len(a.Path)] == a.Path {
					return true
				}
			}
		}
		return false
	}
	seen := map[*ssa.BasicBlock]bool{}
	badRead, badRet := ssa.Instruction(nil), ssa.Instruction(nil)
	var walk func(b *ssa.BasicBlock, from int)
	walk = func(b *ssa.BasicBlock, from int) {
		for _, i := range b.Instrs[from:] {
			if stop[i] {
				return
			}
			switch x := i.(type) {
			case *ssa.UnOp:
				if x.Op == token.MUL && overlap(e.resolve(x.X)) && badRead == nil {
					badRead = x
				}
			case *ssa.Go:
				// another worker
			case *ssa.Call:
				if _, ok := x.Call.Value.(*ssa.Builtin); ok {
					break
				}
				if s := c.syncCall(x.Common(), nil); s != nil {
					break
				}
				for _, a := range x.Call.Args {
					switch a.Type().Underlying().(type) {
					case *types.Slice, *types.Pointer, *types.Map:
						if under(e.resolve(a)) && badRead == nil && !isSyncT(a.Type()) {
							badRead = x
						}
					}
				}
			case *ssa.Return:
				if !deferred && badRet == nil {
					badRet = x
				}
			}
		}
		for _, s := range b.Succs {
			if l, ok := heads[s]; ok {
				// waits before it goes on; inside the loop not everything is done yet
				for _, x := range l.head.Succs {
					if l.body[x] && !seen[x] && x != l.head {
						seen[x] = true
						seen[l.head] = true
						walk(x, 0)
					}
				}
				continue
			}
			if !seen[s] {
				seen[s] = true
				walk(s, 0)
			}
		}
	}
	for n, i := range g.Block().Instrs {
		if i == ssa.Instruction(g) {
			walk(g.Block(), n+1)
		}
	}
	if badRet != nil {
		r.bad("join", key+"|return", w.ipos(badRet), "the function can return while the workers started at %s are still running", w.ipos(g))
	} else {
		r.ob("join", "%s: every path to a return waits (%s)", where, joins[0].kind)
	}
	if badRead != nil {
		r.bad("results", key+"|early", w.ipos(badRead), "memory that the workers started at %s write is used before all of them are done", w.ipos(g))
	} else {
		r.ob("results", "%s: %d locations", where, len(written))
	}
}

func isSyncT(t types.Type) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync"
}

func isFreeVarOf(v ssa.Value, f *ssa.Function) bool {
	for _, x := range f.FreeVars {
		if x == v {
			return true
		}
	}
	return false
}

// ---- limits

// the number of slots comes from the limit
func (c *c08) limit(ch ssa.Value, g *ssa.Go, where, key string) {
	mk, ok := ch.(*ssa.MakeChan)
	if !ok {
		c.r.undecided("%s: number of slots", where)
		return
	}
	c.limitValue(mk.Size, mk.Block(), where, key, "number of slots", map[ssa.Value]bool{}, 0)
}

func (c *c08) limitValue(v ssa.Value, b *ssa.BasicBlock, where, key, what string, seen map[ssa.Value]bool, d int) {
	if why, ok := c.limited(v, seen, d); ok {
		c.r.ob("limit", "%s: %s", where, what)
	} else if why != "" {
		c.r.bad("limit", key+"|limit", c.w.pos(b.Instrs[0].Pos()), "%s: the %s is %s, not the configured limit or the number of processors", where, what, why)
	} else {
		c.r.undecided("%s: %s", where, what)
	}
}

// is v at most a limit? Otherwise why not, or "" if unknown
func (c *c08) limited(v ssa.Value, seen map[ssa.Value]bool, d int) (string, bool) {
	v = c.p.canon(stripConv(c.p.canon(v)))
	if seen[v] || d > 12 {
		return "", d <= 12
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Const:
		k, ok := constInt(x)
		if ok && k <= 1 {
			return "", true
		}
		return fmt.Sprintf("the constant %d", k), false
	case *ssa.Call:
		switch calleeName(x.Common()) {
		case "runtime.NumCPU", "runtime.GOMAXPROCS":
			return "", true
		case "builtin.len":
			return "the number of items to process", false
		}
		if t := x.Call.StaticCallee(); t != nil && c.w.inMod[t] && len(t.Blocks) > 0 {
			return c.limitedResult(t, 0, seen, d)
		}
		return "", false
	case *ssa.Extract:
		if cl, ok := x.Tuple.(*ssa.Call); ok {
			if t := cl.Call.StaticCallee(); t != nil && c.w.inMod[t] && len(t.Blocks) > 0 {
				return c.limitedResult(t, x.Index, seen, d)
			}
		}
		return "", false
	case *ssa.Parameter:
		f := x.Parent()
		n := 0
		for _, ci := range c.w.calls().callers[f] {
			if ci == nil || !c.w.inMod[ci.Parent()] {
				continue
			}
			a := argFor(x, f, ci)
			if a == nil {
				return "", false
			}
			n++
			if why, ok := c.limited(a, seen, d+1); !ok {
				if why != "" {
					why += " (passed by " + fname(ci.Parent()) + ")"
				}
				return why, false
			}
		}
		return "", true
	case *ssa.BinOp:
		switch x.Op {
		case token.SUB, token.QUO, token.REM, token.SHR, token.AND:
			if x.Op == token.SUB {
				if k, ok := constInt(x.Y); ok && k < 0 {
					return "more than the limit", false
				}
			}
			return c.limited(x.X, seen, d+1)
		case token.ADD, token.MUL, token.SHL:
			why, a := c.limited(x.X, map[ssa.Value]bool{}, d+1)
			why2, b := c.limited(x.Y, map[ssa.Value]bool{}, d+1)
			if k, ok := constInt(x.Y); ok && (x.Op == token.MUL && k <= 1 || x.Op != token.MUL && k <= 0) {
				return c.limited(x.X, seen, d+1)
			}
			if a || b {
				return "more than the limit", false
			}
			if why == "" {
				why = why2
			}
			return why, false
		}
	case *ssa.Phi:
		for i, e := range x.Edges {
			why, ok := c.limited(e, seen, d+1)
			if ok {
				continue
			}
			// below the limit on this edge
			cs := c.p.edgeFacts(x.Block().Preds[i], x.Block(), 0)
			below := false
			for _, o := range x.Edges {
				if o != e {
					if _, ok := c.limited(o, map[ssa.Value]bool{}, d+1); ok && c.p.quick(cs, c.p.lin(o).add(c.p.lin(e), -1)) {
						below = true
					}
				}
			}
			if !below {
				return why, false
			}
		}
		return "", true
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return "", false
		}
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			// every value stored to the field
			n := 0
			st := fa.X.Type().Underlying().(*types.Pointer).Elem()
			for _, f := range c.w.Funcs {
				for _, b := range f.Blocks {
					for _, i := range b.Instrs {
						s, ok := i.(*ssa.Store)
						if !ok {
							continue
						}
						a, ok := s.Addr.(*ssa.FieldAddr)
						if !ok || a.Field != fa.Field || !types.Identical(a.X.Type().Underlying().(*types.Pointer).Elem(), st) {
							continue
						}
						n++
						if why, ok := c.limited(s.Val, seen, d+1); !ok {
							if why != "" {
								why += " (stored by " + fname(f) + ")"
							}
							return why, false
						}
					}
				}
			}
			return "", n > 0
		}
	}
	return "", false
}

func (c *c08) limitedResult(t *ssa.Function, k int, seen map[ssa.Value]bool, d int) (string, bool) {
	for _, b := range t.Blocks {
		if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && b != t.Recover && !mayFail(rt) {
			if why, ok := c.limited(retVal(rt, k), seen, d+1); !ok {
				return why, false
			}
		}
	}
	return "", true
}

// workers started without slots: their number is bounded by how the work is divided
func (c *c08) bounded(g *ssa.Go, gl *loop, where, key string) {
	r, p := c.r, c.p
	if t, ok := c.tripCount(gl); ok {
		for _, n := range p.atomsOf(t) {
			a := p.atoms[n]
			if len(t) == 1 && t[n] == 1 {
				if a.len {
					r.bad("limit", key+"|unlimited", c.w.ipos(g), "a worker is started for each item, without a limit")
					return
				}
				c.limitValue(a.v, g.Block(), where, key, "number of workers", map[ssa.Value]bool{}, 0)
				return
			}
		}
		if k, ok := t.konst(); ok && k <= 8 {
			r.ob("limit", "%s: %g workers", where, k)
			return
		}
		r.undecided("%s: number of workers", where)
		return
	}
	for _, x := range gl.guards() {
		if x.iff.Block() != gl.head || x.op != token.LSS {
			continue
		}
		if x.x.inc == nil {
			r.bad("limit", key+"|unlimited", c.w.ipos(g), "a worker is started for every %d items, without a limit", x.x.step)
			return
		}
		// the step times the limit reaches the end
		L := p.lin(x.bound)
		s := p.lin(x.x.inc)
		for _, b := range g.Parent().Blocks {
			for _, i := range b.Instrs {
				cl, ok := i.(*ssa.Call)
				if !ok || !(b == gl.head || b.Dominates(gl.head)) {
					continue
				}
				if n := calleeName(cl.Common()); n != "runtime.NumCPU" && n != "runtime.GOMAXPROCS" {
					continue
				}
				if c.reaches(s, p.lin(cl), L, gl) {
					r.ob("limit", "%s: work divided into at most as many parts as processors", where)
					return
				}
			}
		}
		for _, pm := range g.Parent().Params {
			if isInt(pm.Type()) && c.reaches(s, p.lin(pm), L, gl) {
				c.limitValue(pm, g.Block(), where, key, "number of workers", map[ssa.Value]bool{}, 0)
				return
			}
		}
		plain := true
		for _, n := range p.atomsOf(s) {
			plain = plain && plainInt(p.atoms[n].v, p.atoms[n].len, 0, map[ssa.Value]bool{})
		}
		if plain {
			r.bad("limit", key+"|unlimited", c.w.ipos(g), "the work can be divided into more parts than the limit, each processed by a worker of its own")
		} else {
			r.undecided("%s: number of workers", where)
		}
		return
	}
	r.bad("limit", key+"|unlimited", c.w.ipos(g), "workers are started in a loop without a limit")
}

func (c *c08) reaches(s, k, L poly, gl *loop) bool {
	pre := loopPre(gl)
	if pre == nil {
		return false
	}
	v, _ := c11Prove(c.p, pre, s.mul(k).add(L, -1), nil, 0)
	return v
}
