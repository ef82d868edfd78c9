package main

// Context-sensitive evaluation of SSA values: parameters and captured variables are resolved to what the chain of calls
// that leads to a function passes for them.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type cenv struct {
	id     int
	f      *ssa.Function
	params map[ssa.Value]cx // parameters and captured variables (addresses) of f
	up     *cenv
	depth  int
}

type cx struct {
	v ssa.Value
	e *cenv
}

type ceval struct {
	w      *World
	known  func(c cx) (constant.Value, bool) // values fixed from outside
	n      int
	stable bool // fields of objects do not change during what is analysed
	names  map[string]string
	info   map[string]cx
	units  map[string]*unitInfo

	busy   map[cx]bool
	consts map[cx]constant.Value // nil: not a constant
}

type unitInfo struct { // iteration number of a loop
	l    *loop
	e    *cenv
	iv   indvar
	step int64
}

func newCeval(w *World) *ceval {
	return &ceval{w: w, names: map[string]string{}, info: map[string]cx{}, units: map[string]*unitInfo{}}
}

func (c *ceval) root(f *ssa.Function) *cenv {
	c.n++
	return &cenv{id: c.n, f: f, params: map[ssa.Value]cx{}}
}

// environment of a call to t from site in e
func (c *ceval) call(t *ssa.Function, site ssa.CallInstruction, e *cenv, mc *cx) *cenv {
	c.n++
	n := &cenv{id: c.n, f: t, params: map[ssa.Value]cx{}, up: e, depth: e.depth + 1}
	for _, p := range t.Params {
		if a := argFor(p, t, site); a != nil {
			n.params[p] = cx{a, e}
		}
	}
	if mc != nil {
		if m, ok := mc.v.(*ssa.MakeClosure); ok {
			for k, fv := range t.FreeVars {
				if k < len(m.Bindings) {
					n.params[fv] = cx{m.Bindings[k], mc.e}
				}
			}
		}
	}
	return n
}

// follow parameters, captured variables, single assignments and renaming conversions
func (c *ceval) strip(x cx) cx {
	for d := 0; d < 40; d++ {
		switch v := x.v.(type) {
		case *ssa.Parameter, *ssa.FreeVar:
			if x.e != nil {
				if r, ok := x.e.params[v]; ok {
					x = r
					continue
				}
			}
			if fv, ok := v.(*ssa.FreeVar); ok {
				if b := freeVarBinding(fv); b != nil {
					// the enclosing function's environment, if it is on the chain
					for e := x.e; e != nil; e = e.up {
						if e.f == b.Parent() {
							x = cx{b, e}
							break
						}
					}
					if x.v == b {
						continue
					}
					return cx{b, nil}
				}
			}
			return x
		case *ssa.ChangeType:
			x.v = v.X
			continue
		case *ssa.UnOp:
			if v.Op == token.MUL {
				a := c.strip(cx{v.X, x.e})
				if al, ok := a.v.(*ssa.Alloc); ok {
					if s := singleStore(al); s != nil {
						x = cx{s, a.e}
						continue
					}
				}
				if fa, ok := a.v.(*ssa.FieldAddr); ok {
					if s := singleStore(fa); s != nil {
						x = cx{s, a.e}
						continue
					}
				}
			}
			return x
		case *ssa.Extract:
			if cl, ok := v.Tuple.(*ssa.Call); ok {
				if r, ok := c.result(cl, v.Index, x.e); ok {
					x = r
					continue
				}
			}
			return x
		case *ssa.Call:
			if r, ok := c.result(v, 0, x.e); ok && v.Call.Signature().Results().Len() == 1 {
				x = r
				continue
			}
			return x
		}
		return x
	}
	return x
}

// the k-th result of a call to a function with a single return
func (c *ceval) result(cl *ssa.Call, k int, e *cenv) (cx, bool) {
	t, mc := c.callee(cl, e)
	if t == nil || len(t.Blocks) == 0 || e != nil && e.depth > 8 || !c.w.inMod[t] {
		return cx{}, false
	}
	var rt *ssa.Return
	for _, b := range t.Blocks {
		if b == t.Recover {
			continue
		}
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			if rt != nil {
				return cx{}, false
			}
			rt = r
		}
	}
	if rt == nil || k >= len(rt.Results) {
		return cx{}, false
	}
	if e == nil {
		e = c.root(cl.Parent())
	}
	return cx{retVal(rt, k), c.env(t, cl, e, mc)}, true
}

// environments are shared per call site and calling environment
func (c *ceval) env(t *ssa.Function, site ssa.CallInstruction, e *cenv, mc *cx) *cenv {
	k := fmt.Sprintf("env %p %p %d", t, site, e.id)
	if x, ok := c.info[k]; ok {
		return x.e
	}
	n := c.call(t, site, e, mc)
	c.info[k] = cx{nil, n}
	return n
}

// the function called, if it is known in this context
func (c *ceval) callee(ci ssa.CallInstruction, e *cenv) (*ssa.Function, *cx) {
	com := ci.Common()
	if com.IsInvoke() {
		return nil, nil
	}
	x := c.strip0(cx{com.Value, e})
	switch v := x.v.(type) {
	case *ssa.Function:
		return v, nil
	case *ssa.MakeClosure:
		f := v.Fn.(*ssa.Function)
		if strings.HasSuffix(f.Name(), "$bound") {
			return nil, nil
		}
		return f, &x
	}
	return nil, nil
}

// strip without looking into calls
func (c *ceval) strip0(x cx) cx {
	for d := 0; d < 40; d++ {
		switch v := x.v.(type) {
		case *ssa.Parameter, *ssa.FreeVar:
			if x.e != nil {
				if r, ok := x.e.params[v]; ok {
					x = r
					continue
				}
			}
			return x
		case *ssa.ChangeType:
			x.v = v.X
			continue
		case *ssa.UnOp:
			if v.Op == token.MUL {
				a := c.strip0(cx{v.X, x.e})
				if al, ok := a.v.(*ssa.Alloc); ok {
					if s := singleStore(al); s != nil {
						x = cx{s, a.e}
						continue
					}
				}
			}
			return x
		}
		return x
	}
	return x
}

func (c *ceval) constOf(x cx) (constant.Value, bool) { return c.constD(x, 0) }

func (c *ceval) constD(x cx, d int) (constant.Value, bool) {
	if c.busy == nil {
		c.busy = map[cx]bool{}
	}
	if d > 20 || c.busy[x] || len(c.busy) > 200 {
		return nil, false
	}
	if c.consts == nil {
		c.consts = map[cx]constant.Value{}
	}
	if k, ok := c.consts[x]; ok {
		return k, k != nil
	}
	c.busy[x] = true
	k, ok := c.constE(x, d)
	delete(c.busy, x)
	if !ok {
		k = nil
	}
	if ok || len(c.busy) == 0 {
		c.consts[x] = k
	}
	return k, ok
}

func (c *ceval) constE(x cx, d int) (constant.Value, bool) {
	if c.known != nil {
		if k, ok := c.known(x); ok {
			return k, true
		}
	}
	x = c.strip(x)
	if c.known != nil {
		if k, ok := c.known(x); ok {
			return k, true
		}
	}
	switch v := x.v.(type) {
	case *ssa.Const:
		if v.Value != nil {
			return v.Value, true
		}
	case *ssa.Convert:
		if k, ok := c.constD(cx{v.X, x.e}, d+1); ok {
			if r := convConst(k, v.Type()); r != nil {
				return r, true
			}
		}
	case *ssa.UnOp:
		if v.Op == token.SUB || v.Op == token.XOR || v.Op == token.NOT {
			if k, ok := c.constD(cx{v.X, x.e}, d+1); ok {
				return constant.UnaryOp(v.Op, k, 0), true
			}
		}
	case *ssa.BinOp:
		a, ok1 := c.constD(cx{v.X, x.e}, d+1)
		b, ok2 := c.constD(cx{v.Y, x.e}, d+1)
		if ok1 && ok2 {
			if isCmp(v.Op) {
				if a.Kind() == b.Kind() || a.Kind() != constant.String && b.Kind() != constant.String && a.Kind() != constant.Bool {
					return constant.MakeBool(constant.Compare(a, v.Op, b)), true
				}
				return nil, false
			}
			if r := foldBin(v, a, b); r != nil {
				return r, true
			}
		}
	case *ssa.Call:
		if b, ok := v.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			if k, ok := c.constD(cx{v.Call.Args[0], x.e}, d+1); ok && k.Kind() == constant.String {
				return constant.MakeInt64(int64(len(constant.StringVal(k)))), true
			}
		}
	case *ssa.Phi:
		// the edges that can be taken
		var res constant.Value
		for i, p := range v.Block().Preds {
			if !c.edgeOpen(p, v.Block(), x.e) {
				continue
			}
			k, ok := c.constD(cx{v.Edges[i], x.e}, d+4)
			if !ok || res != nil && (res.Kind() != k.Kind() || !constant.Compare(res, token.EQL, k)) {
				return nil, false
			}
			res = k
		}
		return res, res != nil
	}
	return nil, false
}

func (c *ceval) edgeOpen(p, b *ssa.BasicBlock, e *cenv) bool {
	for q, n := p, 0; len(q.Preds) == 1 && n < 6; q, n = q.Preds[0], n+1 {
		if !c.edgeOpen1(q.Preds[0], q, e) {
			return false
		}
	}
	return c.edgeOpen1(p, b, e)
}

func (c *ceval) edgeOpen1(p, b *ssa.BasicBlock, e *cenv) bool {
	iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
	if !ok {
		return true
	}
	if _, isPhi := iff.Cond.(*ssa.Phi); isPhi {
		return true
	}
	k, ok := c.constD(cx{iff.Cond, e}, 12)
	if !ok || k.Kind() != constant.Bool {
		return true
	}
	for n, s := range p.Succs {
		if s == b && constant.BoolVal(k) == (n == 0) {
			return true
		}
	}
	return false
}

// blocks of a function that can be reached in this context
func (c *ceval) reach(e *cenv) map[*ssa.BasicBlock]bool {
	res := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		if res[b] {
			return
		}
		res[b] = true
		if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			if k, ok := c.constOf(cx{iff.Cond, e}); ok && k.Kind() == constant.Bool {
				if constant.BoolVal(k) {
					walk(b.Succs[0])
				} else {
					walk(b.Succs[1])
				}
				return
			}
		}
		for _, s := range b.Succs {
			walk(s)
		}
	}
	walk(e.f.Blocks[0])
	return res
}

func (c *ceval) atom(x cx) poly {
	id := 0
	if x.e != nil {
		id = x.e.id
	}
	k := fmt.Sprintf("%p/%d", x.v, id)
	n, ok := c.names[k]
	if !ok {
		n = fmt.Sprintf("v%d", len(c.names))
		c.names[k] = n
		c.info[n] = x
	}
	return poly{n: 1}
}

// named atom
func (c *ceval) named(key string) poly {
	n, ok := c.names[key]
	if !ok {
		n = fmt.Sprintf("v%d", len(c.names))
		c.names[key] = n
	}
	return poly{n: 1}
}

// whole multiples of n in a non-negative quantity
func (c *ceval) quot(p poly, n float64) poly {
	r, rest := poly{}, poly{}
	for m, f := range p {
		q := f / n
		if q == float64(int64(q)) {
			r[m] = q
		} else {
			rest[m] = f
		}
	}
	if len(rest) == 0 {
		return r
	}
	if k, ok := rest.konst(); ok {
		return r.add(constPoly(math.Floor(k/n)), 1)
	}
	return r.add(c.named(fmt.Sprintf("%g|%s", n, rest)), 1)
}

// linear form of an integer; induction variables become start plus step times the iteration number of their loop
func (c *ceval) lin(x cx) poly { return c.linD(x, 0) }

func (c *ceval) linD(x cx, d int) poly {
	if d > 24 {
		return c.atom(x)
	}
	if k, ok := c.constOf(x); ok {
		if f, ok := constant.Float64Val(constant.ToFloat(k)); ok && k.Kind() == constant.Int {
			return constPoly(f)
		}
	}
	x = c.strip(x)
	switch v := x.v.(type) {
	case *ssa.Convert:
		if isInt(v.Type()) && isInt(v.X.Type()) {
			return c.linD(cx{v.X, x.e}, d+1)
		}
	case *ssa.UnOp:
		if v.Op == token.SUB {
			return poly{}.add(c.linD(cx{v.X, x.e}, d+1), -1)
		}
	case *ssa.BinOp:
		if !isInt(v.Type()) {
			break
		}
		a := func() poly { return c.linD(cx{v.X, x.e}, d+1) }
		b := func() poly { return c.linD(cx{v.Y, x.e}, d+1) }
		switch v.Op {
		case token.ADD:
			return a().add(b(), 1)
		case token.SUB:
			return a().add(b(), -1)
		case token.MUL:
			return a().mul(b())
		case token.SHL:
			if k, ok := b().konst(); ok && k >= 0 && k < 62 {
				return a().mul(constPoly(float64(int64(1) << uint(k))))
			}
		case token.QUO, token.SHR:
			if k, ok := b().konst(); ok && k > 0 && k < 1<<40 && (k < 62 || v.Op == token.QUO) {
				n := k
				if v.Op == token.SHR {
					n = float64(int64(1) << uint(k))
				}
				return c.quot(a(), n)
			}
		case token.REM:
			if k, ok := b().konst(); ok && k > 0 {
				p := a()
				return p.add(c.quot(p, k), -k)
			}
		case token.AND, token.AND_NOT:
			if k, ok := b().konst(); ok && k > 0 && k < 1<<40 && int64(k)&int64(k+1) == 0 {
				p := a()
				q := c.quot(p, k+1).mul(constPoly(k + 1))
				if v.Op == token.AND {
					return p.add(q, -1)
				}
				return q
			}
		}
	case *ssa.Call:
		if n := calleeName(v.Common()); n == "runtime.NumCPU" {
			return c.named(n)
		}
		if b, ok := v.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			y := c.strip(cx{v.Call.Args[0], x.e})
			if sl, ok := y.v.(*ssa.Slice); ok && sl.High != nil {
				p := c.linD(cx{sl.High, y.e}, d+1)
				if sl.Low != nil {
					p = p.add(c.linD(cx{sl.Low, y.e}, d+1), -1)
				}
				return p
			}
			if mk, ok := y.v.(*ssa.MakeSlice); ok {
				return c.linD(cx{mk.Len, y.e}, d+1)
			}
			return c.lenAtom(y)
		}
	case *ssa.Phi:
		if iv, ok := induction(v); ok && iv.phi == v && iv.inc == nil {
			return c.linD(cx{iv.init, x.e}, d+1).add(c.unit(iv, x.e, iv.step), float64(iv.step))
		} else if ok && iv.phi == v {
			if k, ok := c.constOf(cx{iv.inc, x.e}); ok {
				if n, ok := constant.Int64Val(k); ok && n != 0 {
					return c.linD(cx{iv.init, x.e}, d+1).add(c.unit(iv, x.e, n), float64(n))
				}
			}
		}
	}
	return c.atom(x)
}

func (c *ceval) lenAtom(y cx) poly {
	if c.stable {
		return c.named("len " + c.place(y, 0))
	}
	id := 0
	if y.e != nil {
		id = y.e.id
	}
	return c.named(fmt.Sprintf("len %p/%d", y.v, id))
}

// identity of a slice or pointer; with c.stable, loads of the same field of the same object are the same
func (c *ceval) place(x cx, d int) string {
	x = c.strip(x)
	if c.stable && d < 8 {
		switch v := x.v.(type) {
		case *ssa.UnOp:
			if v.Op == token.MUL {
				switch a := v.X.(type) {
				case *ssa.FieldAddr:
					return c.place(cx{a.X, x.e}, d+1) + "." + fieldName(a.X.Type(), a.Field)
				case *ssa.IndexAddr:
					return c.place(cx{a.X, x.e}, d+1) + "[" + c.lin(cx{a.Index, x.e}).String() + "]"
				}
			}
		case *ssa.FieldAddr:
			return c.place(cx{v.X, x.e}, d+1) + "." + fieldName(v.X.Type(), v.Field)
		}
	}
	id := 0
	if x.e != nil {
		id = x.e.id
	}
	return fmt.Sprintf("%p/%d", x.v, id)
}

func (c *ceval) unit(iv indvar, e *cenv, step int64) poly {
	id := 0
	if e != nil {
		id = e.id
	}
	p := c.named(fmt.Sprintf("iteration %p/%d", iv.l, id))
	for n := range p {
		if c.units[n] == nil {
			c.units[n] = &unitInfo{iv.l, e, iv, step}
		}
	}
	return p
}

// base buffer and offset of a slice value
func (c *ceval) buffer(x cx) (cx, poly) {
	off := poly{}
	for d := 0; d < 20; d++ {
		x = c.strip(x)
		s, ok := x.v.(*ssa.Slice)
		if !ok {
			return x, off
		}
		if s.Low != nil {
			off = off.add(c.lin(cx{s.Low, x.e}), 1)
		}
		x = cx{s.X, x.e}
	}
	return x, off
}

func sameCx(a, b cx) bool { return a.v == b.v }

// all calls, stores and returns reachable from f in context, each with its environment
type cvisit struct {
	i ssa.Instruction
	e *cenv
}

func (c *ceval) explore(e *cenv, visit func(i ssa.Instruction, e *cenv)) (unresolved []ssa.Instruction) {
	seen := map[*cenv]bool{}
	var walk func(e *cenv)
	walk = func(e *cenv) {
		if seen[e] || e.depth > 8 {
			return
		}
		seen[e] = true
		rb := c.reach(e)
		for _, b := range e.f.Blocks {
			if !rb[b] {
				continue
			}
			for _, i := range b.Instrs {
				visit(i, e)
				ci, ok := i.(ssa.CallInstruction)
				if !ok {
					continue
				}
				t, mc := c.callee(ci, e)
				if t == nil {
					if _, isB := ci.Common().Value.(*ssa.Builtin); !isB && !ci.Common().IsInvoke() {
						unresolved = append(unresolved, i)
					}
					continue
				}
				if c.w.inMod[t] && len(t.Blocks) > 0 {
					rec := false
					for x := e; x != nil; x = x.up {
						rec = rec || x.f == t
					}
					if !rec {
						walk(c.env(t, ci, e, mc))
					}
				}
			}
		}
	}
	walk(e)
	return
}

func isByteSlice(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		b, ok := u.Elem().Underlying().(*types.Basic)
		return ok && b.Kind() == types.Uint8
	case *types.Pointer:
		if a, ok := u.Elem().Underlying().(*types.Array); ok {
			b, ok := a.Elem().Underlying().(*types.Basic)
			return ok && b.Kind() == types.Uint8
		}
	}
	return false
}
