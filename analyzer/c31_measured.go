package main

import (
	"go/token"

	"golang.org/x/tools/go/ssa"
)

// positions calculated from measured values: floating point numbers, which may be anything, also not a number. Before such a
// position selects an element, it is compared with something on every way there (or limited before it is converted)
func (c *c31) measured(f *ssa.Function) {
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			ia, ok := i.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			cvs := map[ssa.Value]bool{}
			floatsIn(ia.Index, cvs, map[ssa.Value]bool{}, 0)
			if len(cvs) == 0 {
				continue
			}
			for cv := range cvs {
				x := cv.(*ssa.Convert)
				if constFloatOnly(x.X, 0) {
					continue
				}
				if c.limited(x, b, ia.Index) {
					c.r.ob("measured", "%s: %s compares a calculated position before it selects an element", c.w.ipos(i), fname(f))
				} else if !c.live(f) {
					c.r.note("%s: %s selects an element at a calculated position, but no operator gets there", c.w.ipos(i), fname(f))
				} else {
					c.r.bad("measured", fname(f), c.w.ipos(i), "%s selects an element at a position calculated from floating point numbers (%s) which is compared with nothing on the way there: it may be outside, or not a number", fname(f), c.w.ipos(x))
				}
			}
		}
	}
}

// conversions of floating point numbers an integer is calculated from
func floatsIn(v ssa.Value, out, seen map[ssa.Value]bool, d int) {
	if seen[v] || d > 12 {
		return
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Convert:
		if isFloatT(x.X.Type()) {
			out[x] = true
			return
		}
		floatsIn(x.X, out, seen, d+1)
	case *ssa.ChangeType:
		floatsIn(x.X, out, seen, d+1)
	case *ssa.BinOp:
		if x.Op == token.REM || x.Op == token.AND {
			return
		}
		floatsIn(x.X, out, seen, d+1)
		floatsIn(x.Y, out, seen, d+1)
	case *ssa.Phi:
		for _, e := range x.Edges {
			floatsIn(e, out, seen, d+1)
		}
	}
}

// calculated from integers which are bounded, and constants only
func constFloatOnly(v ssa.Value, d int) bool {
	if d > 8 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Const:
		return true
	case *ssa.Convert:
		return !isFloatT(x.X.Type()) || constFloatOnly(x.X, d+1)
	case *ssa.BinOp:
		return constFloatOnly(x.X, d+1) && constFloatOnly(x.Y, d+1)
	case *ssa.Call:
		switch calleeName(&x.Call) {
		case "math.Floor", "math.Ceil", "math.Round", "math.Trunc", "math.Sqrt", "math.Min", "math.Max", "math.Abs":
			for _, a := range x.Call.Args {
				if !constFloatOnly(a, d+1) {
					return false
				}
			}
			return true
		}
	}
	return false
}

// is something derived from a conversion, or what was converted, compared on every way to a block?
func (c *c31) limited(cv *ssa.Convert, b *ssa.BasicBlock, idx ssa.Value) bool {
	rel := map[ssa.Value]bool{}
	var fwd func(v ssa.Value, d int)
	fwd = func(v ssa.Value, d int) {
		if rel[v] || d > 12 {
			return
		}
		rel[v] = true
		if v.Referrers() == nil {
			return
		}
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.BinOp:
				if negOp(x.Op) == token.ILLEGAL {
					fwd(x, d+1)
				}
			case *ssa.Phi:
				fwd(x, d+1)
			case *ssa.Convert:
				fwd(x, d+1)
			}
		}
	}
	var back func(v ssa.Value, d int)
	back = func(v ssa.Value, d int) {
		if d > 8 {
			return
		}
		switch x := v.(type) {
		case *ssa.Const:
			return
		case *ssa.BinOp:
			back(x.X, d+1)
			back(x.Y, d+1)
		case *ssa.Convert:
			back(x.X, d+1)
		case *ssa.Phi:
			if !rel[x] {
				fwd(x, 0)
				for _, e := range x.Edges {
					back(e, d+1)
				}
			}
			return
		case *ssa.Call:
			for _, a := range x.Call.Args {
				back(a, d+1)
			}
		}
		fwd(v, 0)
	}
	fwd(cv, 0)
	back(cv.X, 0)
	for d := b; d != nil; d = d.Idom() {
		if len(d.Instrs) == 0 {
			continue
		}
		iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok || d == b {
			continue
		}
		var asks func(v ssa.Value, k int) bool
		asks = func(v ssa.Value, k int) bool {
			if k > 4 {
				return false
			}
			v, _ = stripNot(v)
			switch y := v.(type) {
			case *ssa.BinOp:
				return rel[y.X] || rel[y.Y]
			case *ssa.Phi:
				for _, e := range y.Edges {
					if asks(e, k+1) {
						return true
					}
				}
			case *ssa.Call:
				for _, a := range y.Call.Args {
					if rel[a] {
						return true
					}
				}
			}
			return false
		}
		if asks(iff.Cond, 0) {
			return true
		}
	}
	return false
}

func (c *c31) live(f *ssa.Function) bool {
	if c.reach == nil {
		c.reach = (&c18{w: c.w}).reachable()
	}
	return c.reach[f]
}
