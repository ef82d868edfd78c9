package main

// Linear integer facts at program points, from dominating branch conditions, induction variables and the definitions of the
// values involved, and a decision procedure for linear goals (elimination of variables). Overflow is not modelled.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type verdict int

const (
	vUnknown verdict = iota
	vProved
	vRefuted // some input admitted by the checks made leads to a violation
)

type atomInfo struct {
	v    ssa.Value
	len  bool // length of v
	free bool // can take any value of its type
}

type prover struct {
	w      *World
	atoms  map[string]*atomInfo
	ids    map[interface{}]string
	free   func(v ssa.Value, isLen bool) bool // which atoms are unconstrained inputs
	depth  int
	mutMem map[*ssa.Function]map[string][]ssa.Instruction
	open   func(f *ssa.Function) bool // can be called with any arguments
	steps  int
	parts  bool                              // parts of free values are free as well
	given  func(a *atomInfo, me poly) []poly // further facts about values
}

func newProver(w *World, free func(v ssa.Value, isLen bool) bool) *prover {
	return &prover{w: w, atoms: map[string]*atomInfo{}, ids: map[interface{}]string{}, free: free, mutMem: map[*ssa.Function]map[string][]ssa.Instruction{}}
}

func (p *prover) id(key interface{}, info *atomInfo) poly {
	n, ok := p.ids[key]
	if !ok {
		n = fmt.Sprintf("a%d", len(p.ids))
		p.ids[key] = n
		p.atoms[n] = info
	}
	return poly{n: 1}
}

// canonical representative of a value: looks through conversions between integers, single-assignment variables and captures
func (p *prover) canon(v ssa.Value) ssa.Value {
	for d := 0; d < 20; d++ {
		switch x := v.(type) {
		case *ssa.ChangeType:
			v = x.X
			continue
		case *ssa.FreeVar:
			if b := freeVarBinding(x); b != nil {
				if _, ptr := b.Type().Underlying().(*types.Pointer); !ptr || true {
					v = b
					continue
				}
			}
		case *ssa.UnOp:
			if x.Op == token.MUL {
				if s := singleStore(x.X); s != nil {
					v = s
					continue
				}
				if fa, ok := x.X.(*ssa.FieldAddr); ok {
					// the only store to the field in this function, before the load and to the same object
					if sts := p.stored(x.Parent())[fieldKey(fa)]; len(sts) == 1 {
						st := sts[0].(*ssa.Store)
						ra, pa := rootPath(st.Addr)
						rb, pb := rootPath(x.X)
						if ra == rb && pa == pb && !p.storesField(x, fieldKey(fa)) {
							v = st.Val
							continue
						}
					}
				}
			}
		case *ssa.Phi:
			// all edges the same value
			var one ssa.Value
			same := true
			for _, e := range x.Edges {
				if e == ssa.Value(x) {
					continue
				}
				if one != nil && one != e {
					same = false
				}
				one = e
			}
			if same && one != nil {
				v = one
				continue
			}
		}
		return v
	}
	return v
}

type fieldLoad struct {
	root ssa.Value
	path string
}

// a load whose address is a field path of a canonical root that the function does not store to
func (p *prover) loadKey(u *ssa.UnOp) (fieldLoad, bool) {
	path := ""
	a := u.X
	for d := 0; d < 10; d++ {
		switch x := a.(type) {
		case *ssa.FieldAddr:
			path = "." + fieldName(x.X.Type(), x.Field) + path
			if p.storesField(u, fieldKey(x)) {
				return fieldLoad{}, false
			}
			a = x.X
			continue
		case *ssa.UnOp:
			if x.Op == token.MUL {
				if c := p.canon(x); c != ssa.Value(x) {
					a = c
					continue
				}
				if k, ok := p.loadKey(x); ok {
					return fieldLoad{k.root, k.path + ".*" + path}, true
				}
			}
		case *ssa.IndexAddr:
			if k, ok := constInt(x.Index); ok {
				if p.storesElem(u.Parent(), x) {
					return fieldLoad{}, false
				}
				path = fmt.Sprintf("[%d]%s", k, path)
				a = x.X
				continue
			}
			return fieldLoad{}, false
		case *ssa.ChangeType, *ssa.FreeVar:
			if c := p.canon(x); c != ssa.Value(x) {
				a = c
				continue
			}
		}
		break
	}
	if path == "" {
		if _, ok := a.(*ssa.Global); !ok {
			return fieldLoad{}, false
		}
		if p.storesField(u, a.Name()) {
			return fieldLoad{}, false
		}
	}
	return fieldLoad{a, path}, true
}

func (p *prover) stored(f *ssa.Function) map[string][]ssa.Instruction {
	m := p.mutMem[f]
	if m == nil {
		m = map[string][]ssa.Instruction{}
		p.mutMem[f] = m
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if st, ok := i.(*ssa.Store); ok {
					switch a := st.Addr.(type) {
					case *ssa.FieldAddr:
						if _, local := a.X.(*ssa.Alloc); !local {
							m[fieldKey(a)] = append(m[fieldKey(a)], st)
						}
					case *ssa.Global:
						m[a.Name()] = append(m[a.Name()], st)
					case *ssa.IndexAddr:
						k := "elem:" + a.X.Type().Underlying().String()
						m[k] = append(m[k], st)
					}
				}
			}
		}
	}
	return m
}

// may a store come between loads that see the same value as u
func (p *prover) storesField(u *ssa.UnOp, key string) bool {
	for _, st := range p.stored(u.Parent())[key] {
		// stores before the load are no problem: all loads after them agree
		if st.Block() == u.Block() && before(st, u) || st.Block() != u.Block() && st.Block().Dominates(u.Block()) {
			continue
		}
		return true
	}
	return false
}
func (p *prover) storesElem(f *ssa.Function, x *ssa.IndexAddr) bool {
	return len(p.stored(f)["elem:"+x.X.Type().Underlying().String()]) > 0
}

// value as a linear (polynomial) expression over atoms
func (p *prover) lin(v ssa.Value) poly { return p.linD(v, 0) }

func (p *prover) linD(v ssa.Value, d int) poly {
	v = p.canon(v)
	if d > 24 {
		return p.id(v, &atomInfo{v: v})
	}
	switch x := v.(type) {
	case *ssa.Const:
		if f, ok := constFloat(x); ok && f == math.Trunc(f) {
			return constPoly(f)
		}
	case *ssa.Convert:
		if isInt(x.Type()) && isInt(x.X.Type()) {
			return p.linD(x.X, d+1)
		}
	case *ssa.UnOp:
		if x.Op == token.SUB {
			return poly{}.add(p.linD(x.X, d+1), -1)
		}
		if x.Op == token.MUL {
			if k, ok := p.loadKey(x); ok {
				return p.id(k, &atomInfo{v: x, free: p.isFree(x, false)})
			}
		}
	case *ssa.BinOp:
		if !isInt(x.Type()) {
			break
		}
		switch x.Op {
		case token.ADD:
			return p.linD(x.X, d+1).add(p.linD(x.Y, d+1), 1)
		case token.SUB:
			return p.linD(x.X, d+1).add(p.linD(x.Y, d+1), -1)
		case token.MUL:
			return p.linD(x.X, d+1).mul(p.linD(x.Y, d+1))
		case token.SHL:
			if k, ok := constInt(x.Y); ok && k >= 0 && k < 62 {
				return p.linD(x.X, d+1).mul(constPoly(float64(int64(1) << uint(k))))
			}
		case token.QUO, token.REM, token.SHR, token.AND:
			// same operation on the same operands is the same atom
			k := fmt.Sprintf("%s|%s|%s", x.Op, p.linD(x.X, d+1), p.linD(x.Y, d+1))
			return p.id(k, &atomInfo{v: x, free: p.parts && (x.Op == token.QUO || x.Op == token.SHR) && p.freeOperand(x)})
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") {
			return p.lenD(x.Call.Args[0], b.Name() == "cap", d+1)
		}
		if n := calleeName(x.Common()); n == "runtime.NumCPU" {
			return p.id(n, &atomInfo{v: v}) // does not change while the process runs
		}
	}
	return p.id(v, &atomInfo{v: v, free: p.isFree(v, false)})
}

// a part of a value which is free itself
func (p *prover) freeOperand(x *ssa.BinOp) bool {
	if k, ok := constInt(x.Y); !ok || k <= 0 {
		return false
	}
	for _, n := range p.atomsOf(p.lin(x.X)) {
		if a := p.atoms[n]; a == nil || !a.free {
			return false
		}
	}
	return true
}

func (p *prover) isFree(v ssa.Value, l bool) bool { return p.free != nil && p.free(v, l) }

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

type lenKey struct {
	k   interface{}
	cap bool
}

func (p *prover) lenOf(v ssa.Value) poly { return p.lenD(v, false, 0) }

func (p *prover) lenD(v ssa.Value, isCap bool, d int) poly {
	v = p.canon(v)
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return poly{}
		}
		if s, ok := constString(x); ok {
			return constPoly(float64(len(s)))
		}
	case *ssa.MakeSlice:
		if isCap {
			return p.linD(x.Cap, d+1)
		}
		return p.linD(x.Len, d+1)
	case *ssa.MakeChan:
		if isCap {
			return p.linD(x.Size, d+1)
		}
	case *ssa.Slice:
		if isCap {
			break
		}
		lo := poly{}
		if x.Low != nil {
			lo = p.linD(x.Low, d+1)
		}
		if x.High != nil {
			return p.linD(x.High, d+1).add(lo, -1)
		}
		var full poly
		if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			if at, ok := pt.Elem().Underlying().(*types.Array); ok {
				full = constPoly(float64(at.Len()))
			}
		} else {
			full = p.lenD(x.X, false, d+1)
		}
		if full != nil {
			return full.add(lo, -1)
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && !isCap && d < 12 {
			n := p.lenD(x.Call.Args[0], false, d+1)
			if len(x.Call.Args) > 1 {
				return n.add(p.lenD(x.Call.Args[1], false, d+1), 1)
			}
			return n
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if k, ok := p.loadKey(x); ok {
				return p.id(lenKey{k, isCap}, &atomInfo{v: x, len: true, free: p.isFree(x, true)})
			}
		}
	}
	if cl, k := resultOf(v); cl != nil && !isCap && d < 12 {
		if q, ok := p.lenSummary(cl, k, d); ok {
			return q
		}
	}
	if at, ok := v.Type().Underlying().(*types.Array); ok {
		return constPoly(float64(at.Len()))
	}
	return p.id(lenKey{v, isCap}, &atomInfo{v: v, len: true, free: p.isFree(v, true)})
}

// length of a call's result, if it is the same function of the lengths of the arguments on every successful return
func (p *prover) lenSummary(cl *ssa.Call, k, d int) (poly, bool) {
	t := cl.Call.StaticCallee()
	if t == nil || !p.w.inMod[t] || len(t.Params) != len(cl.Call.Args) {
		return nil, false
	}
	var res poly
	for _, b := range t.Blocks {
		rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || mayFail(rt) || b == t.Recover {
			continue
		}
		q := p.lenD(retVal(rt, k), false, d+4)
		for _, n := range p.atomsOf(q) {
			a := p.atoms[n]
			pr, ok := a.v.(*ssa.Parameter)
			if !ok || pr.Parent() != t {
				return nil, false
			}
			for i, x := range t.Params {
				if x == pr {
					if a.len {
						q = substPoly(q, n, p.lenD(cl.Call.Args[i], false, d+1))
					} else {
						q = substPoly(q, n, p.linD(cl.Call.Args[i], d+1))
					}
				}
			}
		}
		if res != nil && !res.eq(q) {
			return nil, false
		}
		res = q
	}
	return res, res != nil
}

// ---- constraints

type constraints struct {
	ge []poly // each >= 0
	ne []poly // each != 0
}

func (c constraints) plus(o constraints) constraints {
	return constraints{append(append([]poly(nil), c.ge...), o.ge...), append(append([]poly(nil), c.ne...), o.ne...)}
}

// constraints implied by cond being val
func (p *prover) cond(cond ssa.Value, val bool, d int) (c constraints) {
	if d > 8 {
		return
	}
	switch x := p.canon(cond).(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return p.cond(x.X, !val, d+1)
		}
	case *ssa.BinOp:
		if !isInt(x.X.Type()) {
			if isErrT(x.X.Type()) && isNilConst(x.Y) && val == (x.Op == token.EQL) {
				c = c.plus(p.validated(x.X, d))
			}
			// nil test of a slice: nil has length 0
			if val == (x.Op == token.EQL) && (x.Op == token.EQL || x.Op == token.NEQ) && isNilConst(x.Y) {
				if _, ok := x.X.Type().Underlying().(*types.Slice); ok {
					c.ge = append(c.ge, poly{}.add(p.lenOf(x.X), -1))
				}
			}
			return
		}
		op := x.Op
		if !val {
			op = negOp(op)
		}
		a, b := p.lin(x.X), p.lin(x.Y)
		switch op {
		case token.LSS:
			c.ge = append(c.ge, b.add(a, -1).add(constPoly(1), -1))
		case token.LEQ:
			c.ge = append(c.ge, b.add(a, -1))
		case token.GTR:
			c.ge = append(c.ge, a.add(b, -1).add(constPoly(1), -1))
		case token.GEQ:
			c.ge = append(c.ge, a.add(b, -1))
		case token.EQL:
			c.ge = append(c.ge, a.add(b, -1), b.add(a, -1))
		case token.NEQ:
			c.ne = append(c.ne, a.add(b, -1))
		}
	case *ssa.Phi:
		// short-circuit: only edges that can deliver val
		k := -1
		for i, e := range x.Edges {
			if cv, ok := e.(*ssa.Const); ok && cv.Value != nil {
				if (cv.Value.String() == "true") != val {
					continue
				}
			}
			if k >= 0 {
				return
			}
			k = i
		}
		if k >= 0 {
			c = p.edgeFacts(x.Block().Preds[k], x.Block(), d+1)
			return c.plus(p.cond(x.Edges[k], val, d+1))
		}
	}
	return
}

// facts established by a call that returned the nil error v
func (p *prover) validated(v ssa.Value, d int) (c constraints) {
	cl, k := resultOf(v)
	if cl == nil || d > 4 {
		return
	}
	t := cl.Call.StaticCallee()
	if t == nil || !p.w.inMod[t] || len(t.Params) != len(cl.Call.Args) {
		return
	}
	_ = k
	var ret *ssa.Return
	for _, b := range t.Blocks {
		if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && !mayFail(rt) && b != t.Recover {
			if ret != nil {
				return
			}
			ret = rt
		}
	}
	if ret == nil {
		return
	}
	in := p.facts(ret.Block(), d+1)
	conv := func(q poly) (poly, bool) {
		for _, n := range p.atomsOf(q) {
			a := p.atoms[n]
			pr, ok := a.v.(*ssa.Parameter)
			if !ok || pr.Parent() != t {
				return nil, false
			}
			for i, x := range t.Params {
				if x == pr {
					if a.len {
						q = substPoly(q, n, p.lenOf(cl.Call.Args[i]))
					} else {
						q = substPoly(q, n, p.lin(cl.Call.Args[i]))
					}
				}
			}
		}
		return q, true
	}
	for _, q := range in.ge {
		if r, ok := conv(q); ok {
			c.ge = append(c.ge, r)
		}
	}
	for _, q := range in.ne {
		if r, ok := conv(q); ok {
			c.ne = append(c.ne, r)
		}
	}
	return
}

// facts on the edge pred -> b (which includes those at the end of pred)
func (p *prover) edgeFacts(pred, b *ssa.BasicBlock, d int) constraints {
	c := p.facts(pred, d)
	if iff, ok := pred.Instrs[len(pred.Instrs)-1].(*ssa.If); ok && pred.Succs[0] != pred.Succs[1] {
		c = c.plus(p.cond(iff.Cond, pred.Succs[0] == b, d+1))
	}
	return c
}

// facts from branches dominating b
func (p *prover) facts(b *ssa.BasicBlock, d int) (c constraints) {
	for x := b; x != nil; x = x.Idom() {
		if len(x.Preds) == 1 {
			pr := x.Preds[0]
			if iff, ok := pr.Instrs[len(pr.Instrs)-1].(*ssa.If); ok && pr.Succs[0] != pr.Succs[1] {
				c = c.plus(p.cond(iff.Cond, pr.Succs[0] == x, d+1))
			}
		}
	}
	// inside a closure: facts where it is created, as far as they are about values that do not change
	f := b.Parent()
	if par := f.Parent(); par != nil && d < 6 {
		var at *ssa.BasicBlock
		n := 0
		for _, pb := range par.Blocks {
			for _, i := range pb.Instrs {
				if mc, ok := i.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(f) {
					at = pb
					n++
				}
				if ci, ok := i.(ssa.CallInstruction); ok && ci.Common().Value == ssa.Value(f) {
					at = pb
					n++
				}
			}
		}
		if n == 1 {
			c = c.plus(p.facts(at, d+1))
		}
	}
	return
}

// constraints that follow from how an atom is computed
func (p *prover) inherent(name string) (c constraints, more []string) {
	a := p.atoms[name]
	if a == nil {
		return
	}
	me := poly{name: 1}
	if p.given != nil {
		c.ge = append(c.ge, p.given(a, me)...)
	}
	if a.len {
		c.ge = append(c.ge, me)
		c.ge = append(c.ge, p.grown(a.v, me)...)
		return
	}
	if b, ok := a.v.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
		c.ge = append(c.ge, me)
		if b.Kind() == types.Uint8 {
			c.ge = append(c.ge, constPoly(255).add(me, -1))
		}
	}
	switch x := a.v.(type) {
	case *ssa.BinOp:
		if !isInt(x.Type()) {
			return
		}
		y := p.lin(x.Y)
		k, isK := y.konst()
		X := p.lin(x.X)
		switch x.Op {
		case token.SHR:
			if isK && k >= 0 && k < 62 {
				k = float64(int64(1) << uint(k))
				c.ge = append(c.ge, X.add(me, -k), me.mul(constPoly(k)).add(X, -1).add(constPoly(k-1), 1))
			}
		case token.QUO:
			if isK && k > 0 {
				// |X - k*q| <= k-1, sharpened for X>=0 by the caller via the sign fact
				c.ge = append(c.ge, X.add(me, -k).add(constPoly(k-1), 1), me.mul(constPoly(k)).add(X, -1).add(constPoly(k-1), 1))
				if p.quick(constraints{ge: p.sign(X)}, X) {
					c.ge = append(c.ge, me, X.add(me, -k))
				}
			} else if p.positive(x.Block(), x.Y) && p.nonneg(x.Block(), x.X) {
				c.ge = append(c.ge, me, X.add(me, -1))
				// q*y <= X and q*y >= X-y+1
				q := me.mul(y)
				c.ge = append(c.ge, X.add(q, -1), q.add(X, -1).add(y, 1).add(constPoly(1), -1))
			}
		case token.REM:
			// remainder and quotient of the same operands
			if q, ok := p.ids[fmt.Sprintf("%s|%s|%s", token.QUO, X, y)]; ok {
				e := X.add(y.mul(poly{q: 1}), -1).add(me, -1)
				c.ge = append(c.ge, e, poly{}.add(e, -1))
			}
			if p.nonneg(x.Block(), x.X) {
				c.ge = append(c.ge, me)
			}
			if isK && k > 0 {
				c.ge = append(c.ge, constPoly(k-1).add(me, -1))
			} else if p.positive(x.Block(), x.Y) {
				c.ge = append(c.ge, y.add(me, -1).add(constPoly(1), -1))
			}
		case token.AND_NOT:
			// X with some bits cleared
			if isK && k >= 0 && p.quick(constraints{ge: p.sign(X)}, X) {
				c.ge = append(c.ge, me, X.add(me, -1), me.add(X, -1).add(constPoly(k), 1))
			}
		case token.AND:
			if isK && k >= 0 {
				c.ge = append(c.ge, me, constPoly(k).add(me, -1))
			}
		}
	case *ssa.Phi:
		if l := loopOf(x.Block()); l != nil && l.head == x.Block() && isInt(x.Type()) {
			// never less than at the start if no round makes it less
			if _, ok := induction(x); !ok && monotone(x, l) {
				n, at := 0, 0
				for k, pr := range x.Block().Preds {
					if !l.body[pr] {
						n++
						at = k
					}
				}
				if n == 1 {
					c.ge = append(c.ge, me.add(p.lin(x.Edges[at]), -1))
				}
			}
		}
		if iv, ok := induction(x); ok && iv.phi == x {
			init := p.lin(iv.init)
			if iv.inc == nil && iv.step > 0 || iv.inc != nil && p.nonneg(x.Block(), iv.inc) {
				c.ge = append(c.ge, me.add(init, -1))
			} else if iv.inc == nil && iv.step < 0 {
				c.ge = append(c.ge, init.add(me, -1))
			}
			// upper bound from the condition to continue, if left only there
			if iv.inc == nil && iv.step == 1 {
				for _, g := range iv.l.guards() {
					if g.iff.Block() != iv.l.head || g.x.phi != x {
						continue
					}
					bnd := p.lin(g.bound)
					if g.op == token.LSS {
						// phi+off <= max(bound, init+off): only if init+off <= bound
						off := constPoly(float64(g.x.off))
						goal := bnd.add(init, -1).add(off, -1)
						cs := p.facts(x.Block().Idom(), 0)
						cs.ge = append(cs.ge, p.sign(bnd)...)
						if len(p.atomsOf(bnd)) <= 2 && p.quick(cs, goal) {
							c.ge = append(c.ge, bnd.add(me, -1).add(off, -1))
						}
					}
				}
			}
		}
	case *ssa.Call:
		switch calleeName(x.Common()) {
		case "runtime.NumCPU", "runtime.GOMAXPROCS":
			c.ge = append(c.ge, me.add(constPoly(1), -1))
		case "copy":
			c.ge = append(c.ge, me)
		}
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "copy" {
			c.ge = append(c.ge, me)
		}
	}
	return
}

// do all rounds of a loop leave a value at least as large as before
func monotone(phi *ssa.Phi, l *loop) bool {
	var least func(v ssa.Value, seen map[ssa.Value]bool) (int64, bool)
	least = func(v ssa.Value, seen map[ssa.Value]bool) (int64, bool) {
		if v == ssa.Value(phi) {
			return 0, true
		}
		if seen[v] {
			return 0, false
		}
		seen[v] = true
		defer delete(seen, v)
		switch x := v.(type) {
		case *ssa.BinOp:
			if k, ok := constInt(x.Y); ok && (x.Op == token.ADD || x.Op == token.SUB) {
				d, ok := least(x.X, seen)
				if x.Op == token.SUB {
					k = -k
				}
				return d + k, ok
			}
		case *ssa.Phi:
			in := loopOf(x.Block())
			if in != nil && in.head == x.Block() && in != l {
				// an inner loop which does not make it less either
				if !monotone(x, in) {
					return 0, false
				}
				best, first := int64(0), true
				for k, pr := range x.Block().Preds {
					if in.body[pr] {
						continue
					}
					d, ok := least(x.Edges[k], seen)
					if !ok {
						return 0, false
					}
					if first || d < best {
						best, first = d, false
					}
				}
				return best, !first
			}
			best, first := int64(0), true
			for _, e := range x.Edges {
				d, ok := least(e, seen)
				if !ok {
					return 0, false
				}
				if first || d < best {
					best, first = d, false
				}
			}
			return best, !first
		}
		return 0, false
	}
	for k, pr := range phi.Block().Preds {
		if l.body[pr] {
			if d, ok := least(phi.Edges[k], map[ssa.Value]bool{}); !ok || d < 0 {
				return false
			}
		}
	}
	return true
}

// a slice appended to once per iteration grows along with the loop counter
func (p *prover) grown(v ssa.Value, me poly) (r []poly) {
	phi, ok := v.(*ssa.Phi)
	if !ok {
		return
	}
	var l *loop
	for _, x := range loopsOf(phi.Parent()) {
		if x.head == phi.Block() {
			l = x
		}
	}
	if l == nil {
		return
	}
	var init ssa.Value
	n := int64(-1)
	for i, pr := range phi.Block().Preds {
		e := phi.Edges[i]
		if !l.body[pr] {
			if init != nil && init != e {
				return
			}
			init = e
			continue
		}
		k := int64(0)
		for e != ssa.Value(phi) {
			ap, ok := e.(*ssa.Call)
			if !ok {
				return
			}
			b, ok := ap.Call.Value.(*ssa.Builtin)
			if !ok || b.Name() != "append" {
				return
			}
			if len(ap.Call.Args) > 1 {
				c, ok := p.lenOf(ap.Call.Args[1]).konst()
				if !ok {
					return
				}
				k += int64(c)
			}
			e = ap.Call.Args[0]
		}
		if n >= 0 && n != k {
			return
		}
		n = k
	}
	if init == nil || n < 0 {
		return
	}
	grow := me.add(p.lenOf(init), -1)
	r = append(r, grow)
	for _, i := range phi.Block().Instrs {
		q, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		iv, ok := induction(q)
		if !ok || iv.phi != q || iv.inc != nil || iv.step == 0 || !isInt(q.Type()) {
			continue
		}
		// step*(len-len0) == n*(q-init)
		d := grow.mul(constPoly(float64(iv.step))).add(p.lin(q).add(p.lin(iv.init), -1), -float64(n))
		r = append(r, d, poly{}.add(d, -1))
	}
	return
}

func (p *prover) atomsOf(q poly) []string {
	m := map[string]bool{}
	for k := range q {
		if k != "" {
			for _, s := range strings.Split(k, "*") {
				m[s] = true
			}
		}
	}
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// sums and products of lengths are not negative
func (p *prover) sign(q poly) (r []poly) {
	for _, n := range p.atomsOf(q) {
		if a := p.atoms[n]; a != nil && a.len {
			r = append(r, poly{n: 1})
		}
	}
	return
}

func (p *prover) positive(b *ssa.BasicBlock, v ssa.Value) bool {
	return p.side(b, p.lin(v).add(constPoly(1), -1))
}
func (p *prover) nonneg(b *ssa.BasicBlock, v ssa.Value) bool { return p.side(b, p.lin(v)) }

// auxiliary goals inside the derivation of other facts; bounded
func (p *prover) side(b *ssa.BasicBlock, q poly) bool {
	if p.depth > 3 {
		return false
	}
	p.depth++
	defer func() { p.depth-- }()
	return p.ge0(b, q) == vProved
}

func (p *prover) quick(c constraints, q poly) bool { return unsat(append(c.ge, negGoal(q))) }

func negGoal(q poly) poly { return poly{}.add(q, -1).add(constPoly(1), -1) }

// is the conjunction of all polys >= 0 impossible (over the rationals, products taken as variables)
func unsat(cs []poly) bool {
	set := map[string]poly{}
	for _, c := range cs {
		set[c.String()] = c
	}
	var list []poly
	for _, c := range set {
		list = append(list, c)
	}
	for round := 0; round < 24; round++ {
		count := map[string][2]int{}
		for _, c := range list {
			if k, ok := c.konst(); ok && k < 0 {
				return true
			}
			for m, co := range c {
				if m == "" {
					continue
				}
				x := count[m]
				if co > 0 {
					x[0]++
				} else {
					x[1]++
				}
				count[m] = x
			}
		}
		if len(count) == 0 {
			return false
		}
		best, cost := "", 1<<30
		var ms []string
		for m := range count {
			ms = append(ms, m)
		}
		sort.Strings(ms)
		for _, m := range ms {
			if c := count[m][0] * count[m][1]; c < cost {
				best, cost = m, c
			}
		}
		if cost > 400 {
			return false
		}
		var pos, neg, rest []poly
		for _, c := range list {
			switch co := c[best]; {
			case co > 0:
				pos = append(pos, c)
			case co < 0:
				neg = append(neg, c)
			default:
				rest = append(rest, c)
			}
		}
		seen := map[string]bool{}
		for _, c := range rest {
			seen[c.String()] = true
		}
		for _, a := range pos {
			for _, b := range neg {
				r := a.mul(constPoly(-b[best])).add(b, a[best])
				delete(r, best)
				r = normPoly(r)
				if s := r.String(); !seen[s] {
					seen[s] = true
					rest = append(rest, r)
				}
			}
		}
		list = rest
		if len(list) > 600 {
			return false
		}
	}
	return false
}

// divide by the common factor of integral coefficients, rounding the constant down (integers)
func normPoly(p poly) poly {
	g := int64(0)
	for m, c := range p {
		if math.Abs(c) > 1e15 || c != math.Trunc(c) {
			return p
		}
		if m == "" {
			continue
		}
		a := int64(math.Abs(c))
		for a != 0 {
			g, a = a, g%a
		}
	}
	if g <= 1 {
		return p
	}
	o := poly{}
	for m, c := range p {
		if m == "" {
			c = math.Floor(c / float64(g))
		} else {
			c /= float64(g)
		}
		if c != 0 {
			o[m] = c
		}
	}
	return o
}

// q >= 0 at the end of block b
func (p *prover) ge0(b *ssa.BasicBlock, q poly) verdict {
	p.steps = 0
	return p.decide(b, p.facts(b, 0), q, 0, nil)
}

// q != 0 at b
func (p *prover) ne0(b *ssa.BasicBlock, q poly) verdict {
	c := p.facts(b, 0)
	for _, n := range c.ne {
		if n.eq(q) || n.eq(poly{}.add(q, -1)) {
			return vProved
		}
	}
	a := p.ge0(b, q.add(constPoly(1), -1))
	if a == vProved {
		return a
	}
	z := p.ge0(b, poly{}.add(q, -1).add(constPoly(1), -1))
	if z == vProved {
		return z
	}
	// zero possible: adding q==0 leaves the constraints satisfiable
	if a == vRefuted && z == vRefuted && p.satisfiable(constraints{append(append([]poly(nil), c.ge...), q, poly{}.add(q, -1)), c.ne}) {
		return vRefuted
	}
	return vUnknown
}

func (p *prover) close(c constraints, q poly) []poly {
	cs := append([]poly(nil), c.ge...)
	done := map[string]bool{}
	for round := 0; round < 4; round++ {
		names := map[string]bool{}
		for _, x := range append(append(append([]poly(nil), cs...), c.ne...), q) {
			for _, n := range p.atomsOf(x) {
				names[n] = true
			}
		}
		grew := false
		var ns []string
		for n := range names {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		for _, n := range ns {
			if !done[n] {
				done[n] = true
				in, _ := p.inherent(n)
				if len(in.ge) > 0 {
					cs = append(cs, in.ge...)
					grew = true
				}
			}
		}
		if !grew {
			break
		}
	}
	// products of non-negative values are not negative
	products := map[string]bool{}
	for _, x := range append(append([]poly(nil), cs...), q) {
		for m := range x {
			if strings.Contains(m, "*") {
				all := true
				for _, n := range strings.Split(m, "*") {
					if !unsat(append(relevant(cs, poly{n: 1}), negGoal(poly{n: 1}))) {
						all = false
					}
				}
				if all {
					cs = append(cs, poly{m: 1})
					products[m] = true
				}
			}
		}
	}
	// strengthen with disequalities
	for r := 0; r < 2; r++ {
		for _, n := range c.ne {
			if unsat(append(relevant(cs, n), negGoal(n))) {
				cs = append(cs, n.add(constPoly(1), -1))
			} else if m := (poly{}).add(n, -1); unsat(append(relevant(cs, m), negGoal(m))) {
				cs = append(cs, m.add(constPoly(1), -1))
			}
		}
	}
	// a positive product has positive factors
	for m := range products {
		if pos := (poly{m: 1}).add(constPoly(1), -1); unsat(append(relevant(cs, pos), negGoal(pos))) {
			for _, n := range strings.Split(m, "*") {
				cs = append(cs, poly{n: 1, "": -1})
			}
		}
	}
	return cs
}

// constraints sharing variables with q, transitively
func relevant(cs []poly, q poly) []poly {
	vars := map[string]bool{}
	for m := range q {
		if m != "" {
			vars[m] = true
		}
	}
	in := make([]bool, len(cs))
	for ch := true; ch; {
		ch = false
		for i, c := range cs {
			if in[i] {
				continue
			}
			hit := len(c) == 0
			for m := range c {
				if vars[m] {
					hit = true
				}
			}
			if k, ok := c.konst(); ok && k < 0 {
				hit = true
			}
			if hit {
				in[i] = true
				ch = true
				for m := range c {
					if m != "" {
						vars[m] = true
					}
				}
			}
		}
	}
	var r []poly
	for i, c := range cs {
		if in[i] {
			r = append(r, c)
		}
	}
	return r
}

// blocks on the way to b where several branches meet, whose conditions are not known from dominance
func (p *prover) joins(b *ssa.BasicBlock, stop *ssa.BasicBlock) (r []*ssa.BasicBlock) {
	for x := b; x != nil && x != stop; x = x.Idom() {
		if len(x.Preds) < 2 {
			continue
		}
		loop := false
		for _, pr := range x.Preds {
			if x.Dominates(pr) {
				loop = true
			}
		}
		if !loop {
			r = append(r, x)
		}
	}
	return
}

// atoms appearing in the conditions between the immediate dominator of x and x
func (p *prover) region(x *ssa.BasicBlock) (conds []ssa.Value) {
	d := x.Idom()
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		if seen[b] {
			return
		}
		seen[b] = true
		if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			conds = append(conds, iff.Cond)
		}
		if b == d {
			return
		}
		for _, q := range b.Preds {
			walk(q)
		}
	}
	for _, q := range x.Preds {
		walk(q)
	}
	return
}

func (p *prover) decide(b *ssa.BasicBlock, c constraints, q poly, d int, split map[string]bool) verdict {
	pend := p.joins(b, nil)
	if par := b.Parent().Parent(); par != nil {
		if at := creation(b.Parent()); at != nil {
			pend = append(pend, p.joins(at, nil)...)
		}
	}
	return p.decideJ(b, c, q, d, map[*ssa.BasicBlock]bool{}, pend, nil)
}

func creation(f *ssa.Function) *ssa.BasicBlock {
	var at *ssa.BasicBlock
	for _, pb := range f.Parent().Blocks {
		for _, i := range pb.Instrs {
			if mc, ok := i.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(f) {
				if at != nil {
					return nil
				}
				at = pb
			}
		}
	}
	return at
}

func (p *prover) decideJ(b *ssa.BasicBlock, c constraints, q poly, d int, done map[*ssa.BasicBlock]bool, pend []*ssa.BasicBlock, opaque []ssa.Value) verdict {
	p.steps++
	if p.steps > 600 {
		return vUnknown
	}
	if k, ok := q.konst(); ok && k >= 0 {
		return vProved
	}
	cs := p.close(c, q)
	rel := relevant(cs, q)
	if unsat(append(append([]poly(nil), rel...), negGoal(q))) {
		return vProved
	}
	names := map[string]bool{}
	for _, x := range append([]poly{q}, rel...) {
		for _, n := range p.atomsOf(x) {
			names[n] = true
		}
	}
	// case split where branches meet: values merged there, or conditions about the values involved
	var at *ssa.BasicBlock
	var ns []string
	for n := range names {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	for _, n := range ns {
		a := p.atoms[n]
		phi, ok := a.v.(*ssa.Phi)
		if !ok || done[phi.Block()] {
			continue
		}
		loop := false
		for _, pr := range phi.Block().Preds {
			if phi.Block().Dominates(pr) {
				loop = true
			}
		}
		if !loop {
			at = phi.Block()
			break
		}
	}
	if at == nil {
	find:
		for _, x := range pend {
			if done[x] {
				continue
			}
			for _, cv := range p.region(x) {
				in := p.cond(cv, true, 0)
				for _, y := range append(in.ge, in.ne...) {
					for _, n := range p.atomsOf(y) {
						if names[n] {
							at = x
							break find
						}
					}
				}
				if len(in.ge)+len(in.ne) == 0 && p.depends(cv, names, map[ssa.Value]bool{}, 0) {
					at = x
					break find
				}
			}
		}
	}
	if at != nil && d < 6 {
		dn := map[*ssa.BasicBlock]bool{at: true}
		for k := range done {
			dn[k] = true
		}
		all, refuted := true, false
		for i, pr := range at.Preds {
			nc := constraints{append([]poly(nil), c.ge...), append([]poly(nil), c.ne...)}
			qq := q
			for _, n := range ns {
				a := p.atoms[n]
				phi, ok := a.v.(*ssa.Phi)
				if !ok || phi.Block() != at {
					continue
				}
				var by poly
				if a.len {
					by = p.lenOf(phi.Edges[i])
				} else {
					by = p.lin(phi.Edges[i])
				}
				for k := range nc.ge {
					nc.ge[k] = substPoly(nc.ge[k], n, by)
				}
				for k := range nc.ne {
					nc.ne[k] = substPoly(nc.ne[k], n, by)
				}
				qq = substPoly(qq, n, by)
			}
			np := append(append([]*ssa.BasicBlock(nil), pend...), p.joins(pr, at.Idom())...)
			v := p.decideJ(b, nc.plus(p.edgeFacts(pr, at, 0)), qq, d+1, dn, np, opaque)
			if v == vRefuted {
				refuted = true
			}
			if v != vProved {
				all = false
			}
		}
		if all {
			return vProved
		}
		if refuted {
			return vRefuted
		}
		return vUnknown
	}
	// parameters: the same question at every call
	if v := p.atCallers(b, q, d); v != vUnknown {
		return v
	}
	// results of calls: the same question at every successful return
	if v := p.atReturns(c, q, d); v == vProved {
		return v
	}
	if at != nil {
		return vUnknown
	}
	// conditions on the way that are not understood but depend on the values involved
	for x := b; x != nil; x = x.Idom() {
		if len(x.Preds) != 1 {
			continue
		}
		iff, ok := x.Preds[0].Instrs[len(x.Preds[0].Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		if in := p.cond(iff.Cond, x.Preds[0].Succs[0] == x, 0); len(in.ge)+len(in.ne) == 0 && p.depends(iff.Cond, names, map[ssa.Value]bool{}, 0) {
			return vUnknown
		}
	}
	neg := constraints{append(p.unlooped(rel, b), negGoal(q)), c.ne}
	if p.satisfiable(neg) {
		return vRefuted
	}
	return vUnknown
}

// may a call fail depending on one of the atoms handed to it
func (p *prover) validates(cl *ssa.Call, names map[string]bool, seen map[ssa.Value]bool, d int) bool {
	t := cl.Call.StaticCallee()
	if t == nil || !p.w.inMod[t] || len(t.Params) != len(cl.Call.Args) {
		return false
	}
	for _, b := range t.Blocks {
		rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || !mayFail(rt) {
			continue
		}
		for _, x := range append([]*ssa.BasicBlock{b}, p.joins(b, nil)...) {
			for _, cv := range p.region2(x) {
				for k, pr := range t.Params {
					if reachesParam(cv, pr, map[ssa.Value]bool{}, 0) && p.depends(cl.Call.Args[k], names, seen, d+1) {
						return true
					}
				}
			}
		}
	}
	return false
}

// conditions on all ways to x
func (p *prover) region2(x *ssa.BasicBlock) (conds []ssa.Value) {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		if seen[b] {
			return
		}
		seen[b] = true
		for _, q := range b.Preds {
			if iff, ok := q.Instrs[len(q.Instrs)-1].(*ssa.If); ok {
				conds = append(conds, iff.Cond)
			}
			walk(q)
		}
	}
	walk(x)
	return
}

func reachesParam(v ssa.Value, pr *ssa.Parameter, seen map[ssa.Value]bool, d int) bool {
	if v == ssa.Value(pr) {
		return true
	}
	if seen[v] || d > 8 {
		return false
	}
	seen[v] = true
	i, ok := v.(ssa.Instruction)
	if !ok {
		return false
	}
	if cl, _ := resultOf(v); cl != nil && isErrT(v.Type()) {
		return false
	}
	for _, o := range i.Operands(nil) {
		if *o != nil && reachesParam(*o, pr, seen, d+1) {
			return true
		}
	}
	return false
}

// may the value of v depend on one of the atoms
func (p *prover) depends(v ssa.Value, names map[string]bool, seen map[ssa.Value]bool, d int) bool {
	if v == nil || seen[v] || d > 12 {
		return false
	}
	seen[v] = true
	cv := p.canon(v)
	for n := range names {
		a := p.atoms[n]
		if cv == a.v || v == a.v {
			return true
		}
		if u, ok := a.v.(*ssa.UnOp); ok {
			// a field of an object handed to a function, or another load of it
			r, _ := rootPath(u.X)
			if _, isPtr := cv.Type().Underlying().(*types.Pointer); isPtr && (cv == r || cv == p.canon(r)) {
				return true
			}
			if o, ok := v.(*ssa.UnOp); ok {
				if x, isF := o.X.(*ssa.FieldAddr); isF {
					if y, isF := u.X.(*ssa.FieldAddr); isF && fieldKey(x) == fieldKey(y) {
						return true
					}
				}
			}
		}
	}
	if cv != v && p.depends(cv, names, seen, d+1) {
		return true
	}
	i, ok := v.(ssa.Instruction)
	if !ok {
		return false
	}
	if isErrT(v.Type()) {
		if cl, _ := resultOf(v); cl != nil {
			return p.validates(cl, names, seen, d)
		}
	}
	if _, isLoad := v.(*ssa.UnOp); isLoad && d > 0 {
		if fa, ok := v.(*ssa.UnOp).X.(*ssa.FieldAddr); ok {
			_ = fa
			return false // another field
		}
	}
	for _, o := range i.Operands(nil) {
		if *o != nil && p.depends(*o, names, seen, d+1) {
			return true
		}
	}
	return false
}

func substPoly(x poly, n string, by poly) poly {
	o := poly{}
	for m, c := range x {
		t := constPoly(c)
		if m != "" {
			for _, s := range strings.Split(m, "*") {
				if s == n {
					t = t.mul(by)
				} else {
					t = t.mul(poly{s: 1})
				}
			}
		}
		o = o.add(t, 1)
	}
	return o
}

// constraints without those about the variables of loops already left: they do not restrict the inputs
func (p *prover) unlooped(cs []poly, b *ssa.BasicBlock) (r []poly) {
	for _, c := range cs {
		keep := true
		for _, n := range p.atomsOf(c) {
			if phi, ok := p.atoms[n].v.(*ssa.Phi); ok {
				for _, l := range loopsOf(phi.Parent()) {
					if l.head == phi.Block() && (phi.Parent() != b.Parent() || !l.body[b]) {
						keep = false
					}
				}
			}
		}
		if keep {
			r = append(r, c)
		}
	}
	return
}

// all atoms are unconstrained inputs, and the constraints can be met
func (p *prover) satisfiable(c constraints) bool {
	for _, x := range c.ge {
		for m := range x {
			if m == "" {
				continue
			}
			if strings.Contains(m, "*") {
				return false
			}
			if a := p.atoms[m]; a == nil || !a.free && !counter(a) {
				return false
			}
		}
	}
	return !unsat(c.ge)
}

// counter of a loop that runs until the counter ends it: takes every value in between
func counter(a *atomInfo) bool {
	phi, ok := a.v.(*ssa.Phi)
	if !ok || a.len {
		return false
	}
	iv, ok := induction(phi)
	if !ok || iv.phi != phi || iv.inc != nil || iv.step != 1 && iv.step != -1 {
		return false
	}
	for _, e := range iv.l.exits() {
		if e.from == iv.l.head {
			continue
		}
		if !onlyFails(e.from.Succs[e.k], nil) {
			return false
		}
	}
	for _, g := range iv.l.guards() {
		if g.iff.Block() == iv.l.head && g.x.phi == phi {
			return true
		}
	}
	return false
}

func (p *prover) atCallers(b *ssa.BasicBlock, q poly, d int) verdict {
	if p.depth > 4 || d > 3 {
		return vUnknown
	}
	f := b.Parent()
	if p.open != nil && p.open(f) {
		return vUnknown
	}
	params := false
	for _, n := range p.atomsOf(q) {
		a := p.atoms[n]
		root := a.v
		if u, ok := root.(*ssa.UnOp); ok {
			r, _ := rootPath(u.X)
			root = p.canon(r)
		}
		pr, ok := root.(*ssa.Parameter)
		if !ok {
			return vUnknown
		}
		if pr.Parent() != f {
			return vUnknown
		}
		if a.v != ssa.Value(pr) {
			return vUnknown // fields of parameters: not followed
		}
		params = true
	}
	if !params || len(p.w.calls().callers[f]) == 0 {
		return vUnknown
	}
	p.depth++
	defer func() { p.depth-- }()
	for _, site := range p.w.calls().callers[f] {
		if site.Parent() == nil || site.Parent().Synthetic != "" {
			return vUnknown
		}
		qq := q
		for _, n := range p.atomsOf(q) {
			a := p.atoms[n]
			arg := argFor(a.v.(*ssa.Parameter), f, site)
			if arg == nil {
				return vUnknown
			}
			if a.len {
				qq = substPoly(qq, n, p.lenOf(arg))
			} else {
				qq = substPoly(qq, n, p.lin(arg))
			}
		}
		if v := p.decide(site.Block(), p.facts(site.Block(), 0), qq, d+1, nil); v != vProved {
			return v
		}
	}
	return vProved
}

func (p *prover) atReturns(c constraints, q poly, d int) verdict {
	if p.depth > 4 || d > 3 {
		return vUnknown
	}
	// a single call whose results appear in q
	var call *ssa.Call
	for _, n := range p.atomsOf(q) {
		cl, _ := resultOf(p.atoms[n].v)
		if cl == nil {
			continue
		}
		if call != nil && call != cl {
			return vUnknown
		}
		call = cl
	}
	if call == nil {
		return vUnknown
	}
	t := call.Call.StaticCallee()
	if t == nil || len(t.Blocks) == 0 || !p.w.inMod[t] {
		return vUnknown
	}
	p.depth++
	defer func() { p.depth-- }()
	for _, b := range t.Blocks {
		rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || mayFail(rt) || b == t.Recover {
			continue
		}
		qq := q
		for _, n := range p.atomsOf(q) {
			a := p.atoms[n]
			if cl, k := resultOf(a.v); cl == call {
				if a.len {
					qq = substPoly(qq, n, p.lenOf(retVal(rt, k)))
				} else {
					qq = substPoly(qq, n, p.lin(retVal(rt, k)))
				}
			} else {
				// an argument of the call
				done := false
				for i, arg := range call.Call.Args {
					if p.canon(arg) == p.canon(a.v) && i < len(t.Params) {
						if a.len {
							qq = substPoly(qq, n, p.lenOf(t.Params[i]))
						} else {
							qq = substPoly(qq, n, p.lin(t.Params[i]))
						}
						done = true
					}
				}
				if !done {
					return vUnknown
				}
			}
		}
		if v := p.decide(b, p.facts(b, 0), qq, d+1, nil); v != vProved {
			return vUnknown
		}
	}
	return vProved
}

func resultOf(v ssa.Value) (*ssa.Call, int) {
	switch x := v.(type) {
	case *ssa.Call:
		return x, 0
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return c, x.Index
		}
	}
	return nil, 0
}

// explain a goal
func (p *prover) show(q poly) string {
	s := q.String()
	var ns []string
	for _, n := range p.atomsOf(q) {
		ns = append(ns, n)
	}
	sort.Sort(sort.Reverse(sort.StringSlice(ns)))
	for _, n := range ns {
		a := p.atoms[n]
		d := a.v.Name()
		if u, ok := a.v.(*ssa.UnOp); ok {
			_, path := rootPath(u.X)
			d = strings.TrimPrefix(path, ".")
		}
		if a.len {
			d = "len(" + d + ")"
		}
		s = strings.ReplaceAll(s, n, d)
	}
	return s
}

func constString(c *ssa.Const) (string, bool) {
	if c.Value == nil || c.Value.Kind() != constant.String {
		return "", false
	}
	return constant.StringVal(c.Value), true
}
