package main

import (
	"go/token"

	"golang.org/x/tools/go/ssa"
)

// positions which grow from round to round of a loop, and select elements of a slice the loop does not change, are compared with
// something in the loop, or the number of rounds is bounded, or the loop looks for an element; if the loop only ends by
// counting something which is not counted in every round, nothing keeps the position within the slice
func (c *c31) rounds(f *ssa.Function) {
	for _, l := range loopsOf(f) {
		for _, i := range l.head.Instrs {
			phi, ok := i.(*ssa.Phi)
			if !ok || !isInt(phi.Type()) {
				continue
			}
			der := stepsOf(phi, l)
			moves := false
			for k, p := range l.head.Preds {
				if l.body[p] {
					e := stripConv(phi.Edges[k])
					moves = moves || der[e] && e != ssa.Value(phi)
				}
			}
			if !moves {
				continue
			}
			// the elements it selects
			var at ssa.Instruction
			for _, b := range f.Blocks {
				if !l.body[b] {
					continue
				}
				for _, j := range b.Instrs {
					if ia, ok := j.(*ssa.IndexAddr); ok && der[stripConv(ia.Index)] && outside(ia.X, l) {
						if base, _ := baseOffset(ia.Index); base == ssa.Value(phi) {
							at = j
						}
					}
				}
			}
			if at == nil {
				continue
			}
			switch c.ends(l, der) {
			case "compared":
				c.r.ob("rounds", "%s: position %s in a loop of %s is compared", c.w.ipos(at), phi.Comment, fname(f))
			case "never":
				c.r.bad("rounds", fname(f)+"|"+phi.Comment, c.w.ipos(at), "%s selects elements of a slice at a position (%s) which grows from round to round and is compared with nothing, in a loop which only ends when something else was counted which is not counted in every round: the slice may end before", fname(f), phi.Comment)
			}
		}
	}
}

func outside(v ssa.Value, l *loop) bool {
	i, ok := v.(ssa.Instruction)
	return !ok || !l.body[i.Block()]
}

// what is calculated from a variable in a loop
func stepsOf(phi *ssa.Phi, l *loop) map[ssa.Value]bool {
	res := map[ssa.Value]bool{phi: true}
	work := []ssa.Value{phi}
	for len(work) > 0 {
		v := work[0]
		work = work[1:]
		rs := v.Referrers()
		if rs == nil {
			continue
		}
		for _, r := range *rs {
			if !l.body[r.Block()] {
				continue
			}
			var n ssa.Value
			switch x := r.(type) {
			case *ssa.BinOp:
				if negOp(x.Op) == token.ILLEGAL || x.Op == token.ADD {
					n = x
				}
			case *ssa.Phi:
				n = x
			case *ssa.Convert:
				n = x
			case *ssa.ChangeType:
				n = x
			}
			if n != nil && !res[n] {
				res[n] = true
				work = append(work, n)
			}
		}
	}
	return res
}

// how a loop ends: "compared" with what is derived, after "never" enough rounds for sure, or in other ways ("")
func (c *c31) ends(l *loop, der map[ssa.Value]bool) string {
	for b := range l.body {
		for _, i := range b.Instrs {
			if bo, ok := i.(*ssa.BinOp); ok && negOp(bo.Op) != token.ILLEGAL && isInt(bo.X.Type()) {
				if der[stripConv(bo.X)] || der[stripConv(bo.Y)] {
					return "compared"
				}
			}
			if cl, ok := i.(ssa.CallInstruction); ok {
				for _, a := range cl.Common().Args {
					if der[a] {
						return ""
					}
				}
			}
		}
	}
	n := 0
	for _, e := range l.exits() {
		iff, ok := e.from.Instrs[len(e.from.Instrs)-1].(*ssa.If)
		if !ok {
			return ""
		}
		cond, _ := stripNot(iff.Cond)
		bo, ok := cond.(*ssa.BinOp)
		if !ok || !isInt(bo.X.Type()) {
			return ""
		}
		for _, v := range []ssa.Value{bo.X, bo.Y} {
			base, _ := baseOffset(v)
			base = stripConv(base)
			if outside(base, l) {
				continue
			}
			if cl, ok := base.(*ssa.Call); ok && calleeName(&cl.Call) == "builtin.len" && outside(cl.Call.Args[0], l) {
				continue
			}
			phi, ok := base.(*ssa.Phi)
			if !ok || phi.Block() != l.head {
				return ""
			}
			// counted in some rounds only
			some := false
			for k, p := range l.head.Preds {
				if l.body[p] && !sometimes(phi.Edges[k], phi, l, 0, &some) {
					return ""
				}
			}
			if !some {
				return ""
			}
			n++
		}
	}
	if n > 0 {
		return "never"
	}
	return ""
}

// is v the variable of the loop, or one more; some: not one more on every way
func sometimes(v ssa.Value, phi *ssa.Phi, l *loop, d int, some *bool) bool {
	v = stripConv(v)
	if v == ssa.Value(phi) {
		*some = true
		return true
	}
	if d > 6 {
		return false
	}
	if x, ok := v.(*ssa.Phi); ok && l.body[x.Block()] {
		for _, e := range x.Edges {
			if !sometimes(e, phi, l, d+1, some) {
				return false
			}
		}
		return true
	}
	base, off := baseOffset(v)
	if base == ssa.Value(phi) && off != 0 {
		return true
	}
	return false
}
