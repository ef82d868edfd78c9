package main

// C19: operators reject a wrong number of inputs.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type c19 struct {
	w  *World
	r  *Report
	p  *prover
	mk map[*ssa.Function]bool // implementations of MakePromises
}

func runC19(w *World, r *Report) {
	r.rule("index", "every access to an element of the inputs, of evaluated inputs or of promised outputs is within the number present", 5)
	r.rule("too few", "an operator that uses its inputs fails when there are none", 3)
	r.rule("too many", "an operator that only uses certain inputs, or none, fails when given more", 3)
	r.rule("positions", "inputs told apart by position are all present, none was dropped", 1)
	r.assume("lengths do not overflow")
	c := &c19{w: w, r: r, mk: map[*ssa.Function]bool{}}
	for _, o := range w.operators() {
		if o.make != nil {
			c.mk[o.make] = true
		}
	}
	for _, f := range w.Funcs {
		if f.Name() == "MakePromises" && f.Synthetic == "" {
			c.mk[f] = true
		}
	}
	c.p = newProver(w, c.free)
	c.p.open = func(f *ssa.Function) bool { return c.mk[f] }
	for _, f := range w.Funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				switch x := i.(type) {
				case *ssa.IndexAddr:
					if c.frames(x.X.Type()) {
						c.index(f, i, x.X, x.Index, nil)
					}
				case *ssa.Slice:
					if c.frames(x.X.Type()) {
						c.index(f, i, x.X, nil, x)
					}
				}
			}
		}
		if c.mk[f] {
			c.inputs(f)
		}
		c.surplus(f)
	}
}

// slices of promises or images
func (c *c19) frames(t types.Type) bool {
	if _, ok := t.Underlying().(*types.Slice); !ok {
		return false
	}
	return isPromisesT(t) || isImages(t)
}

// unconstrained: the inputs of an operator, the outputs of another operator, and the evaluated frames left after dropping
func (c *c19) free(v ssa.Value, isLen bool) bool {
	switch x := v.(type) {
	case *ssa.Parameter:
		return isLen && c.freeParam(x, 0)
	case *ssa.Extract:
		if cl, ok := x.Tuple.(*ssa.Call); ok && !isLen && strings.HasPrefix(calleeName(&cl.Call), "strconv.") {
			return true
		}
		if cl, ok := x.Tuple.(*ssa.Call); ok && isLen {
			return c.external(cl)
		}
	case *ssa.Call:
		return isLen && c.external(x)
	case *ssa.UnOp:
		// fields of a decoded operator
		if _, ok := x.X.(*ssa.FieldAddr); ok {
			r, _ := rootPath(x.X)
			if pr, ok := r.(*ssa.Parameter); ok {
				return isOperatorPtr(c.w, pr.Type())
			}
		}
	}
	return false
}

func (c *c19) freeParam(x *ssa.Parameter, d int) bool {
	if c.mk[x.Parent()] || len(c.w.calls().callers[x.Parent()]) == 0 {
		return true
	}
	if d > 4 {
		return false
	}
	for _, s := range c.w.calls().callers[x.Parent()] {
		if a := argFor(x, x.Parent(), s); a != nil {
			if q, ok := c.p.canon(a).(*ssa.Parameter); ok && c.freeParam(q, d+1) {
				return true
			}
		}
	}
	return false
}

func isOperatorPtr(w *World, t types.Type) bool {
	n, ok := deref(t).(*types.Named)
	if !ok {
		return false
	}
	for _, o := range w.operators() {
		if o.named == n {
			return true
		}
	}
	return false
}

func (c *c19) external(cl *ssa.Call) bool {
	if cl.Call.IsInvoke() {
		return cl.Call.Method.Name() == "MakePromises"
	}
	t := cl.Call.StaticCallee()
	if t == nil {
		return false
	}
	return c.compacts(t) || c.delegates(t, map[*ssa.Function]bool{})
}

// functions returning what an arbitrary operator promises
func (c *c19) delegates(t *ssa.Function, busy map[*ssa.Function]bool) bool {
	if busy[t] || t.Signature.Results().Len() == 0 || !isPromisesT(t.Signature.Results().At(0).Type()) {
		return false
	}
	busy[t] = true
	for _, b := range t.Blocks {
		rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || mayFail(rt) || b == t.Recover {
			continue
		}
		if cl, _ := resultOf(retVal(rt, 0)); cl != nil {
			if cl.Call.IsInvoke() && cl.Call.Method.Name() == "MakePromises" {
				return true
			}
			s := cl.Call.StaticCallee()
			if s == nil {
				continue
			}
			if c.delegates(s, busy) {
				return true
			}
			// hands its own argument on
			for _, q := range s.Params {
				if isPromisesT(q.Type()) {
					if a := argFor(q, s, cl); a != nil {
						if ic, _ := resultOf(a); ic != nil && ic.Call.IsInvoke() && ic.Call.Method.Name() == "MakePromises" {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

// functions returning only the frames that are there
func (c *c19) compacts(t *ssa.Function) bool {
	if t.Signature.Results().Len() == 0 || !isImages(t.Signature.Results().At(0).Type()) {
		return false
	}
	n := fname(t)
	return strings.HasSuffix(n, "ops.MaterializeAll") || strings.HasSuffix(n, "ops.RemoveNils")
}

func (c *c19) index(f *ssa.Function, i ssa.Instruction, x, idx ssa.Value, sl *ssa.Slice) {
	n := c.p.lenOf(x)
	one := constPoly(1)
	var goals []poly
	if sl == nil {
		k := c.p.lin(idx)
		goals = []poly{k, n.add(k, -1).add(one, -1)}
	} else {
		lo, hi := poly{}, n
		if sl.Low != nil {
			lo = c.p.lin(sl.Low)
		}
		if sl.High != nil {
			hi = c.p.lin(sl.High)
		}
		goals = []poly{lo, hi.add(lo, -1), n.add(hi, -1)}
	}
	all := true
	for _, g := range goals {
		switch c.p.ge0(i.Block(), g) {
		case vRefuted:
			c.r.bad("index", fname(f)+"|"+c.p.show(g), c.w.ipos(i), "%s accesses an input or result that may not be there: nothing ensures %s >= 0", fname(f), c.p.show(g))
			return
		case vUnknown:
			all = false
		}
	}
	if all {
		c.r.ob("index", "%s %s", fname(f), c.w.ipos(i))
	} else {
		c.r.undecided("%s %s: bounds not decided", fname(f), c.w.ipos(i))
	}
}

// ---- how an operator uses its inputs

func (c *c19) insParam(f *ssa.Function) *ssa.Parameter {
	for _, q := range f.Params {
		if isPromisesT(q.Type()) {
			return q
		}
	}
	return nil
}

type usage struct {
	any      bool // elements used
	whole    bool // elements at arbitrary positions used, or handed to something that does
	max      int64
	delegate bool // handed to another operator
	at       ssa.Instruction
}

// uses of a slice of frames, in f, its closures and the functions it is handed to
func (c *c19) usage(v ssa.Value, u *usage, seen map[ssa.Value]bool, d int) {
	if seen[v] || v.Referrers() == nil || d > 6 {
		return
	}
	seen[v] = true
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.IndexAddr:
			if x.X != v {
				continue
			}
			u.any = true
			if k, ok := constInt(x.Index); ok {
				if k > u.max {
					u.max, u.at = k, x
				}
			} else {
				u.whole = true
			}
		case *ssa.Slice:
			if x.X != v {
				continue
			}
			u.any = true
			if x.High == nil {
				c.usage(x, u, seen, d)
				u.whole = true // rest of the inputs
			} else if k, ok := constInt(x.High); ok {
				if k-1 > u.max {
					u.max, u.at = k-1, x
				}
			} else {
				u.whole = true
			}
		case *ssa.MakeClosure:
			fn := x.Fn.(*ssa.Function)
			for k, b := range x.Bindings {
				if b == v {
					c.usage(fn.FreeVars[k], u, seen, d)
				}
			}
		case *ssa.Store:
			if x.Val == v {
				if al, ok := x.Addr.(*ssa.Alloc); ok {
					for _, rr := range *al.Referrers() {
						switch y := rr.(type) {
						case *ssa.UnOp:
							c.usage(y, u, seen, d)
						case *ssa.MakeClosure:
							fn := y.Fn.(*ssa.Function)
							for k, b := range y.Bindings {
								if b == ssa.Value(al) {
									for _, l := range *fn.FreeVars[k].Referrers() {
										if lu, ok := l.(*ssa.UnOp); ok {
											c.usage(lu, u, seen, d)
										}
									}
								}
							}
						}
					}
				} else {
					u.any, u.whole = true, true
				}
			}
		case *ssa.Range, *ssa.Phi, *ssa.Return:
			u.any, u.whole = true, true
		case ssa.CallInstruction:
			cc := x.Common()
			if b, ok := cc.Value.(*ssa.Builtin); ok {
				if b.Name() != "len" && b.Name() != "cap" {
					u.any, u.whole = true, true
				}
				continue
			}
			if cc.IsInvoke() && cc.Method.Name() == "MakePromises" {
				u.delegate = true
				continue
			}
			ts := c.w.targets(x)
			if len(ts) == 0 {
				u.any, u.whole = true, true
			}
			for _, t := range ts {
				if c.mk[t] {
					u.delegate = true
					continue
				}
				for i, a := range cc.Args {
					if a == v && i < len(t.Params) {
						c.usage(t.Params[i], u, seen, d+1)
					}
				}
			}
		case *ssa.DebugRef:
		default:
			u.any, u.whole = true, true
		}
	}
}

func (c *c19) successes(f *ssa.Function, do func(rt *ssa.Return)) {
	for _, b := range f.Blocks {
		if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && !mayFail(rt) && b != f.Recover {
			do(rt)
		}
	}
}

func (c *c19) inputs(f *ssa.Function) {
	ins := c.insParam(f)
	if ins == nil {
		return
	}
	u := &usage{max: -1}
	c.usage(ins, u, map[ssa.Value]bool{}, 0)
	n := c.p.lenOf(ins)
	switch {
	case !u.any && !u.delegate:
		c.r.ob("too many", "%s uses no inputs", fname(f))
		c.successes(f, func(rt *ssa.Return) {
			if c.p.ge0(rt.Block(), poly{}.add(n, -1)) != vProved {
				c.r.bad("too many", fname(f)+"|ignored", c.w.ipos(rt), "%s ignores the inputs it is given instead of failing", fname(f))
			}
		})
	case u.any && !u.delegate:
		c.r.ob("too few", "%s uses its inputs", fname(f))
		c.successes(f, func(rt *ssa.Return) {
			if forwards(rt, ins) {
				return
			}
			switch c.p.ge0(rt.Block(), n.add(constPoly(1), -1)) {
			case vRefuted:
				c.r.bad("too few", fname(f)+"|none", c.w.ipos(rt), "%s does not fail without inputs", fname(f))
			case vUnknown:
				c.r.undecided("%s: minimal number of inputs not decided", fname(f))
			}
		})
	}
	if u.any && !u.whole {
		c.limit(f, ins, u)
	}
}

func forwards(rt *ssa.Return, ins ssa.Value) bool {
	for k := range rt.Results {
		if retVal(rt, k) == ins {
			return true
		}
	}
	return false
}

// functions using only certain frames of those they are given must be given no more than those
func (c *c19) surplus(f *ssa.Function) {
	if c.mk[f] {
		return
	}
	for _, q := range f.Params {
		if !c.frames(q.Type()) {
			continue
		}
		u := &usage{max: -1}
		c.usage(q, u, map[ssa.Value]bool{}, 0)
		if u.any && !u.whole {
			c.limit(f, q, u)
		}
	}
	// evaluated inputs
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			cl, ok := i.(*ssa.Call)
			if !ok || cl.Call.StaticCallee() == nil || !c.compacts(cl.Call.StaticCallee()) || len(cl.Call.Args) == 0 {
				continue
			}
			var v ssa.Value = cl
			if cl.Call.Signature().Results().Len() > 1 {
				v = nil
				for _, r := range *cl.Referrers() {
					if e, ok := r.(*ssa.Extract); ok && e.Index == 0 {
						v = e
					}
				}
				if v == nil {
					continue
				}
			}
			u := &usage{max: -1}
			c.usage(v, u, map[ssa.Value]bool{}, 0)
			if !u.any || u.max < 1 {
				continue
			}
			// told apart by position: everything handed in must still be there
			c.r.ob("positions", "%s %s", fname(f), c.w.ipos(cl))
			in := c.p.lenOf(cl.Call.Args[0])
			have := c.p.lenOf(v)
			for _, use := range c.usePoints(v) {
				if c.p.ge0(use.Block(), have.add(in, -1)) != vProved {
					c.r.bad("positions", fname(f)+"|dropped", c.w.ipos(use), "%s tells frames apart by position without ensuring that none of its inputs was dropped", fname(f))
				}
			}
		}
	}
}

func (c *c19) usePoints(v ssa.Value) (r []ssa.Instruction) {
	for _, x := range *v.Referrers() {
		switch y := x.(type) {
		case *ssa.IndexAddr, *ssa.Slice:
			r = append(r, x)
		case ssa.CallInstruction:
			if _, ok := y.Common().Value.(*ssa.Builtin); !ok {
				r = append(r, x)
			}
		}
	}
	return
}

func (c *c19) limit(f *ssa.Function, q *ssa.Parameter, u *usage) {
	c.r.ob("too many", "%s uses at most %d of %s", fname(f), u.max+1, q.Name())
	n := c.p.lenOf(q)
	c.successes(f, func(rt *ssa.Return) {
		g := constPoly(float64(u.max+1)).add(n, -1)
		switch c.p.ge0(rt.Block(), g) {
		case vRefuted:
			c.r.bad("too many", fname(f)+"|surplus", c.w.ipos(rt), "%s uses only %d of the frames it is given and ignores any others", fname(f), u.max+1)
		case vUnknown:
			c.r.undecided("%s: maximal number of frames not decided", fname(f))
		}
	})
}

func init() {
	register("C19", "Every access to input promises, evaluated frames and promised results is an obligation on slice lengths, discharged by linear arithmetic over dominating checks (across calls and closures); operators are classified by which inputs they use, and the number of inputs at every successful return is bounded accordingly", runC19)
}
