package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Incremental updates of cached statistics (UpdateCachedWith(m,o)) are only right if exactly the transformation d -> m*d+o
// has been applied to every pixel.
func (c *c01) linearUpdates(funcs []*ssa.Function) {
	w, r := c.w, c.r
	r.rule("linear-update", "cached statistics are updated incrementally only for the very linear transformation that was applied to all pixels", 2)
	for _, f := range funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok || call.Call.StaticCallee() == nil {
					continue
				}
				upd := false
				for _, ev := range c.class[call.Call.StaticCallee()] {
					upd = upd || ev == evUpdate
				}
				var fl []ssa.Value
				for _, a := range call.Call.Args {
					if isFloatT(a.Type()) {
						fl = append(fl, a)
					}
				}
				if !upd || len(fl) != 2 {
					continue
				}
				for _, k := range c.statsKeys(call.Call.Args[0]) {
					r.ob("linear-update", "%s at %s", fname(f), w.ipos(in))
					msg, und := c.linearApplied(f, k, call, fl[0], fl[1])
					if msg != "" {
						r.bad("linear-update", fname(f), w.ipos(in), "%s updates the cached statistics incrementally, but %s", fname(f), msg)
					} else if und != "" {
						r.undecided("linear-update", "%s: %s", fname(f), und)
					}
				}
			}
		}
	}
}

func (c *c01) linearApplied(f *ssa.Function, k AP, upd *ssa.Call, m, o ssa.Value) (msg, und string) {
	n := 0
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch i := in.(type) {
			case *ssa.Store:
				ia, ok := i.Addr.(*ssa.IndexAddr)
				if !ok || !c.elemOf(ia, k) {
					continue
				}
				n++
				env := newPolyEnv(c.w, nil)
				env.atom = func(v ssa.Value) (poly, bool) {
					if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
						if ia2, ok := u.X.(*ssa.IndexAddr); ok && c.elemOf(ia2, k) && sameIndex(ia, ia2) {
							return poly{"d": 1}, true
						}
					}
					return nil, false
				}
				if msg := checkLinear(env, i.Val, env.of(m), env.of(o)); msg != "" {
					return msg, ""
				}
				if sl, ok := ia.X.(*ssa.Slice); ok && (sl.Low != nil || sl.High != nil) && !inCycle(sl.Block()) {
					return fmt.Sprintf("only a part of the pixels is transformed (%s)", c.w.ipos(in)), ""
				}
			case *ssa.Call:
				if i == upd {
					continue
				}
				wr := false
				for _, ke := range c.events(f, i) {
					wr = wr || ke.ev == evWrite && ke.key == k
				}
				for _, t := range c.w.targets(i) {
					if s := c.sum[t]; s != nil {
						for a := range c.e.writes[t] {
							for _, x := range c.e.substitute(a, t, i, -1) {
								if kk, ok := hasSuffixKey(x, ".Data[]"); ok && kk == k {
									wr = true
								}
							}
						}
					}
				}
				if !wr {
					continue
				}
				n++
				ms, ud := c.pixelFuncLinear(f, i, m, o)
				if ms != "" {
					return ms, ""
				}
				if ud != "" {
					und = ud
				}
			}
		}
	}
	if n == 0 {
		und = "no modification of the pixels found in the same function"
	}
	return "", und
}

func (c *c01) elemOf(ia *ssa.IndexAddr, k AP) bool {
	for _, a := range c.e.resolve(ia) {
		if kk, ok := hasSuffixKey(a, ".Data[]"); ok && kk == k {
			return true
		}
	}
	return false
}

func sameIndex(a, b *ssa.IndexAddr) bool {
	if a.Index == b.Index {
		return true
	}
	// data[i] of one slice and sub[i] of another are told apart by their bounds only; compare index forms
	e := newPolyEnv(nil, nil)
	return e.of(a.Index).eq(e.of(b.Index))
}

func checkLinear(env *polyEnv, val ssa.Value, m, o poly) string {
	got := env.of(val)
	want := m.mul(poly{"d": 1}).add(o, 1)
	if got.eq(want) {
		return ""
	}
	return "the transformation applied to the pixels is not the one given (multiplier*pixel+offset)"
}

// a call like img.ApplyPixelFunction(pf, args)
func (c *c01) pixelFuncLinear(f *ssa.Function, call *ssa.Call, m, o ssa.Value) (msg, und string) {
	var pf *ssa.Function
	var args ssa.Value
	pfi := -1
	for k, a := range call.Call.Args {
		v := a
		if ct, ok := v.(*ssa.ChangeType); ok {
			v = ct.X
		}
		switch v := v.(type) {
		case *ssa.Function:
			pf = v
			pfi = k
		case *ssa.MakeInterface:
			args = v.X
		}
	}
	t := call.Call.StaticCallee()
	if pf == nil || t == nil || len(pf.Params) < 1 {
		return "", "pixels are modified by a call that is not a pixel function"
	}
	n := 0
	for _, b := range pf.Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			ia, ok := st.Addr.(*ssa.IndexAddr)
			if !ok || ia.X != ssa.Value(pf.Params[0]) {
				continue
			}
			n++
			outer := newPolyEnv(c.w, nil)
			env := &polyEnv{w: c.w, names: outer.names}
			env.atom = func(v ssa.Value) (poly, bool) {
				if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
					if ia2, ok := u.X.(*ssa.IndexAddr); ok && ia2.X == ssa.Value(pf.Params[0]) && sameIndex(ia, ia2) {
						return poly{"d": 1}, true
					}
				}
				if fld, ok := assertedField(v); ok && args != nil {
					if x := fieldOf(args, fld); x != nil {
						return outer.of(x), true
					}
				}
				return nil, false
			}
			if msg := checkLinear(env, st.Val, outer.of(m), outer.of(o)); msg != "" {
				return msg, ""
			}
		}
	}
	if n == 0 {
		return "", "pixel function without direct stores"
	}
	// does the driver hand all pixels to the function?
	if pfi < len(t.Params) {
		if sl := c.partialSlice(t, t.Params[pfi]); sl != nil {
			return fmt.Sprintf("%s applies the transformation only to a part of the pixels (%s)", fname(t), c.w.ipos(sl)), ""
		}
	}
	return "", ""
}

// field index when v is a field of the asserted parameters: params.(T).F, or of a local copy of params.(T)
func assertedField(v ssa.Value) (int, bool) {
	switch x := v.(type) {
	case *ssa.Field:
		if _, ok := x.X.(*ssa.TypeAssert); ok {
			return x.Field, true
		}
		if ex, ok := x.X.(*ssa.Extract); ok {
			if _, ok := ex.Tuple.(*ssa.TypeAssert); ok {
				return x.Field, true
			}
		}
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return 0, false
		}
		fa, ok := x.X.(*ssa.FieldAddr)
		if !ok {
			return 0, false
		}
		if al, ok := fa.X.(*ssa.Alloc); ok {
			if v := onlyStoreLoose(al); v != nil {
				if _, ok := v.(*ssa.TypeAssert); ok {
					return fa.Field, true
				}
			}
		}
	}
	return 0, false
}

// the only whole value stored to a local struct variable that is otherwise only read by fields
func onlyStoreLoose(a *ssa.Alloc) ssa.Value {
	var val ssa.Value
	for _, r := range *a.Referrers() {
		switch r := r.(type) {
		case *ssa.Store:
			if r.Addr != ssa.Value(a) || val != nil {
				return nil
			}
			val = r.Val
		case *ssa.FieldAddr:
			for _, rr := range *r.Referrers() {
				if _, ok := rr.(*ssa.UnOp); !ok {
					if _, ok := rr.(*ssa.DebugRef); !ok {
						return nil
					}
				}
			}
		case *ssa.UnOp, *ssa.DebugRef:
		default:
			return nil
		}
	}
	return val
}

// a slice expression with bounds outside of any loop of t that limits what the function parameter pf is applied to
func (c *c01) partialSlice(t *ssa.Function, pf *ssa.Parameter) ssa.Instruction {
	var res ssa.Instruction
	var fns []*ssa.Function
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		fns = append(fns, f)
		for _, a := range f.AnonFuncs {
			walk(a)
		}
	}
	walk(t)
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				sl, ok := in.(*ssa.Slice)
				if !ok || (sl.Low == nil && sl.High == nil) || inCycle(b) || f != t {
					continue
				}
				if _, ok := sl.X.Type().Underlying().(*types.Slice); !ok {
					continue
				}
				for _, a := range c.e.resolve(sl.X) {
					if strings.HasSuffix(a.Path, ".Data") {
						res = sl
					}
				}
			}
		}
	}
	return res
}
