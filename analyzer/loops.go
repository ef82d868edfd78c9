package main

// Natural loops and induction variables of SSA functions.

import (
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type loop struct {
	head    *ssa.BasicBlock
	body    map[*ssa.BasicBlock]bool
	latches []*ssa.BasicBlock
}

// an edge leaving a loop
type loopExit struct {
	from *ssa.BasicBlock
	k    int
}

func (l *loop) exits() []loopExit {
	var r []loopExit
	for _, b := range l.head.Parent().Blocks {
		if !l.body[b] {
			continue
		}
		for k, s := range b.Succs {
			if !l.body[s] {
				r = append(r, loopExit{b, k})
			}
		}
	}
	return r
}

var loopMemo = map[*ssa.Function][]*loop{}

func loopsOf(f *ssa.Function) []*loop {
	if r, ok := loopMemo[f]; ok {
		return r
	}
	var res []*loop
	byHead := map[*ssa.BasicBlock]*loop{}
	for _, n := range f.Blocks {
		for _, h := range n.Succs {
			if !h.Dominates(n) {
				continue
			}
			l := byHead[h]
			if l == nil {
				l = &loop{head: h, body: map[*ssa.BasicBlock]bool{h: true}}
				byHead[h] = l
				res = append(res, l)
			}
			l.latches = append(l.latches, n)
			st := []*ssa.BasicBlock{n}
			for len(st) > 0 {
				x := st[len(st)-1]
				st = st[:len(st)-1]
				if l.body[x] {
					continue
				}
				l.body[x] = true
				st = append(st, x.Preds...)
			}
		}
	}
	loopMemo[f] = res
	return res
}

// innermost loop containing block b, nil if none
func loopOf(b *ssa.BasicBlock) *loop {
	var best *loop
	for _, l := range loopsOf(b.Parent()) {
		if l.body[b] && (best == nil || len(l.body) < len(best.body)) {
			best = l
		}
	}
	return best
}

// v = phi + off where phi is an induction variable of l: starts at init, and each iteration adds step
type indvar struct {
	l    *loop
	phi  *ssa.Phi
	init ssa.Value
	step int64
	inc  ssa.Value // step if it is not a constant (then step is 0)
	off  int64
}

func constInt(v ssa.Value) (int64, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
		return 0, false
	}
	return constant.Int64Val(c.Value)
}

func stripConv(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.Convert:
			if b, ok := x.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
				return v
			}
			if b, ok := x.X.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
				return v
			}
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		default:
			return v
		}
	}
}

// split v into base + constant
func baseOffset(v ssa.Value) (ssa.Value, int64) {
	off := int64(0)
	for d := 0; d < 16; d++ {
		v = stripConv(v)
		bo, ok := v.(*ssa.BinOp)
		if !ok {
			break
		}
		if bo.Op == token.ADD {
			if c, ok := constInt(bo.Y); ok {
				off += c
				v = bo.X
				continue
			}
			if c, ok := constInt(bo.X); ok {
				off += c
				v = bo.Y
				continue
			}
		}
		if bo.Op == token.SUB {
			if c, ok := constInt(bo.Y); ok {
				off -= c
				v = bo.X
				continue
			}
		}
		break
	}
	return v, off
}

func induction(v ssa.Value) (indvar, bool) {
	base, off := baseOffset(v)
	phi, ok := base.(*ssa.Phi)
	if !ok {
		return indvar{}, false
	}
	var l *loop
	for _, x := range loopsOf(phi.Parent()) {
		if x.head == phi.Block() {
			l = x
		}
	}
	if l == nil {
		return indvar{}, false
	}
	iv := indvar{l: l, phi: phi, off: off}
	first := true
	for i, p := range phi.Block().Preds {
		e := phi.Edges[i]
		if !l.body[p] {
			if iv.init != nil && iv.init != e {
				return indvar{}, false
			}
			iv.init = e
			continue
		}
		b, o := baseOffset(e)
		if b == ssa.Value(phi) && o != 0 {
			if !first && (iv.step != o || iv.inc != nil) {
				return indvar{}, false
			}
			iv.step = o
			first = false
			continue
		}
		if bo, ok := stripConv(e).(*ssa.BinOp); ok && bo.Op == token.ADD {
			var inc ssa.Value
			if stripConv(bo.X) == ssa.Value(phi) {
				inc = bo.Y
			} else if stripConv(bo.Y) == ssa.Value(phi) {
				inc = bo.X
			}
			if inc != nil {
				if !first && iv.inc != inc {
					return indvar{}, false
				}
				iv.inc = inc
				first = false
				continue
			}
		}
		return indvar{}, false
	}
	if iv.init == nil || first {
		return indvar{}, false
	}
	return iv, true
}

// the test under which a loop is left at block b: stays in the loop while  x op bound
type loopGuard struct {
	iff   *ssa.If
	stayK int
	x     indvar
	op    token.Token
	bound ssa.Value
}

// guards of l on induction variables of l
func (l *loop) guards() []loopGuard {
	var res []loopGuard
	for _, e := range l.exits() {
		iff, ok := e.from.Instrs[len(e.from.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		bo, neg := stripNot(iff.Cond)
		b, ok := bo.(*ssa.BinOp)
		if !ok {
			continue
		}
		op := b.Op
		x, y := b.X, b.Y
		iv, ok := induction(x)
		if !ok || iv.l != l {
			iv, ok = induction(y)
			if !ok || iv.l != l {
				continue
			}
			x, y = y, x
			op = flipOp(op)
		}
		stay := 1 - e.k
		if (stay == 1) != neg {
			op = negOp(op)
		}
		res = append(res, loopGuard{iff, stay, iv, op, y})
	}
	return res
}

func negOp(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GEQ
	case token.LEQ:
		return token.GTR
	case token.GTR:
		return token.LEQ
	case token.GEQ:
		return token.LSS
	case token.EQL:
		return token.NEQ
	case token.NEQ:
		return token.EQL
	}
	return token.ILLEGAL
}

// is v the length of a slice held by one of the values accepted by is?
func lenOf(v ssa.Value, is func(ssa.Value) bool) bool {
	v = stripConv(v)
	c, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	b, ok := c.Call.Value.(*ssa.Builtin)
	return ok && b.Name() == "len" && is(c.Call.Args[0])
}
