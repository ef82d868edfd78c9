package main

// Interval analysis of floating point values with missing values (NaN) and branch refinement.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"

	"golang.org/x/tools/go/ssa"
)

// abstract number: any value in [lo,hi], possibly NaN. lo>hi: no number
type fv struct {
	lo, hi float64
	nan    bool
	vague  bool // over-approximated: not everything in here need be possible
	fl     bool // an integer obtained from a floating point number
}

func (a fv) empty() bool { return a.lo > a.hi && !a.nan }

var fvNone = fv{lo: math.Inf(1), hi: math.Inf(-1)}

func fvAll(vague bool) fv { return fv{lo: math.Inf(-1), hi: math.Inf(1), nan: true, vague: vague} }

func (a fv) String() string {
	s := fmt.Sprintf("[%g,%g]", a.lo, a.hi)
	if a.lo > a.hi {
		s = "[]"
	}
	if a.nan {
		s += " or NaN"
	}
	if a.vague {
		s += " (approximate)"
	}
	return s
}

func (a fv) join(b fv) fv {
	if a.empty() {
		return b
	}
	if b.empty() {
		return a
	}
	return fv{math.Min(a.lo, b.lo), math.Max(a.hi, b.hi), a.nan || b.nan, a.vague || b.vague, a.fl || b.fl}
}

func fvHull(xs ...float64) fv {
	r := fvNone
	for _, x := range xs {
		if math.IsNaN(x) {
			r.nan = true
			continue
		}
		r.lo, r.hi = math.Min(r.lo, x), math.Max(r.hi, x)
	}
	return r
}

// truth of a condition
type tri struct{ t, f bool }

type fstate map[ssa.Value]fv

func (s fstate) clone() fstate {
	r := make(fstate, len(s))
	for k, v := range s {
		r[k] = v
	}
	return r
}

type fctx struct {
	f      *ssa.Function
	params map[ssa.Value]fv
	up     *fctx
	mc     *ssa.MakeClosure // creation of f, in mcx
	mcx    *fctx
	final  fstate // values at the end of the defining block (not refined)
	depth  int
}

type fAnalysis struct {
	w       *World
	onConv  func(c *fctx, x *ssa.Convert, v fv)
	descend func(f *ssa.Function) bool
	input   func(u ssa.Value) bool // an unconstrained input rather than an approximation
}

func isNum(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&(types.IsInteger|types.IsFloat) != 0
}

func roundTo(t types.Type, v fv) fv {
	if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.Float32 && v.lo <= v.hi {
		v.lo, v.hi = float64(float32(v.lo)), float64(float32(v.hi))
	}
	return v
}

func nextUp(t types.Type, x float64, up bool) float64 {
	to := math.Inf(1)
	if !up {
		to = math.Inf(-1)
	}
	b, ok := t.Underlying().(*types.Basic)
	if ok && b.Info()&types.IsInteger != 0 {
		if up {
			return math.Floor(x) + 1
		}
		return math.Ceil(x) - 1
	}
	if ok && b.Kind() == types.Float32 {
		return float64(math.Nextafter32(float32(x), float32(to)))
	}
	return math.Nextafter(x, to)
}

// analyse f with the given parameter values; returns the values of its results
func (a *fAnalysis) run(c *fctx) []fv {
	f := c.f
	in := map[*ssa.BasicBlock]fstate{}
	visits := map[*ssa.BasicBlock]int{}
	in[f.Blocks[0]] = fstate{}
	work := []*ssa.BasicBlock{f.Blocks[0]}
	res := make([]fv, f.Signature.Results().Len())
	for i := range res {
		res[i] = fvNone
	}
	c.final = fstate{}
	for n := 0; len(work) > 0 && n < 4000; n++ {
		b := work[0]
		work = work[1:]
		st := in[b].clone()
		for _, i := range b.Instrs {
			a.step(c, st, i, false)
		}
		for v, x := range st {
			if i, ok := v.(ssa.Instruction); ok && i.Block() == b {
				c.final[v] = x
			}
		}
		for k, s := range b.Succs {
			out := a.edge(c, st, b, k)
			if out == nil {
				continue
			}
			a.flow(c, in, visits, b, s, out, &work, 0)
		}
	}
	// report with the fixed point
	for _, b := range f.Blocks {
		if in[b] == nil {
			continue
		}
		st := in[b].clone()
		for _, i := range b.Instrs {
			a.step(c, st, i, true)
			if rt, ok := i.(*ssa.Return); ok {
				for k, v := range rt.Results {
					if isNum(v.Type()) {
						res[k] = res[k].join(a.val(c, st, v))
					} else {
						res[k] = fvAll(true)
					}
				}
			}
		}
	}
	return res
}

// state st flows from b to s
func (a *fAnalysis) flow(c *fctx, in map[*ssa.BasicBlock]fstate, visits map[*ssa.BasicBlock]int, b, s *ssa.BasicBlock, out fstate, work *[]*ssa.BasicBlock, d int) {
	// phi nodes
	type pv struct {
		p *ssa.Phi
		v ssa.Value
		x fv
	}
	var ps []pv
	only := true
	for _, i := range s.Instrs {
		switch p := i.(type) {
		case *ssa.Phi:
			for k, pr := range s.Preds {
				if pr == b {
					x := fv{}
					if isNum(p.Type()) {
						x = a.val(c, out, p.Edges[k])
					}
					ps = append(ps, pv{p, p.Edges[k], x})
					break
				}
			}
		case *ssa.If, *ssa.DebugRef:
		default:
			only = false
		}
	}
	nst := out.clone()
	for _, p := range ps {
		if isNum(p.p.Type()) {
			nst[p.p] = p.x
		}
	}
	// a block that merely branches on a merged condition: continue separately for each predecessor
	if ifi, ok := s.Instrs[len(s.Instrs)-1].(*ssa.If); ok && only && d < 6 {
		for _, p := range ps {
			if ifi.Cond == ssa.Value(p.p) {
				for k, ss := range s.Succs {
					o := a.refine(c, nst.clone(), p.v, k == 0, 0)
					if o != nil {
						a.flow(c, in, visits, s, ss, o, work, d+1)
					}
				}
				return
			}
		}
	}
	old := in[s]
	if old == nil {
		in[s] = nst
		*work = append(*work, s)
		return
	}
	visits[s]++
	changed := false
	for v, x := range nst {
		o, ok := old[v]
		if !ok {
			o = fvNone
			if i, isI := v.(ssa.Instruction); isI && !i.Block().Dominates(s) {
				continue
			}
			if _, isI := v.(ssa.Instruction); !isI {
				continue // refined on one path only
			}
		}
		j := o.join(x)
		if j != o {
			if visits[s] > 12 {
				if j.lo < o.lo {
					j.lo = math.Inf(-1)
				}
				if j.hi > o.hi {
					j.hi = math.Inf(1)
				}
				j.vague = true
			}
			old[v] = j
			changed = true
		}
	}
	for v := range old {
		if _, ok := nst[v]; !ok {
			if i, isI := v.(ssa.Instruction); !isI || !i.Block().Dominates(s) {
				delete(old, v)
				changed = true
			}
		}
	}
	if changed {
		*work = append(*work, s)
	}
}

func (a *fAnalysis) edge(c *fctx, st fstate, b *ssa.BasicBlock, k int) fstate {
	ifi, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return st.clone()
	}
	return a.refine(c, st.clone(), ifi.Cond, k == 0, 0)
}

// the value of an operand
func (a *fAnalysis) val(c *fctx, st fstate, v ssa.Value) fv {
	if x, ok := st[v]; ok {
		return x
	}
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return fvAll(true)
		}
		switch v.Value.Kind() {
		case constant.Int, constant.Float:
			f, _ := constant.Float64Val(v.Value)
			return roundTo(v.Type(), fv{lo: f, hi: f})
		}
	case *ssa.Parameter:
		if x, ok := c.params[v]; ok {
			return x
		}
		return a.typed(v.Type(), false)
	}
	return a.typed(v.Type(), true)
}

// everything a type can hold
func (a *fAnalysis) typed(t types.Type, vague bool) fv {
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
		r := fv{lo: math.Inf(-1), hi: math.Inf(1), vague: vague}
		if b.Info()&types.IsUnsigned != 0 {
			r.lo = 0
		}
		switch b.Kind() {
		case types.Uint8:
			r.hi = 255
		case types.Uint16:
			r.hi = 65535
		case types.Int8:
			r.lo, r.hi = -128, 127
		case types.Int16:
			r.lo, r.hi = -32768, 32767
		}
		return r
	}
	return fvAll(vague)
}

func fvAdd(x, y fv) fv {
	r := fv{nan: x.nan || y.nan}
	if x.lo > x.hi || y.lo > y.hi {
		r.lo, r.hi = math.Inf(1), math.Inf(-1)
		return r
	}
	inf := func(v fv, s int) bool { return s > 0 && math.IsInf(v.hi, 1) || s < 0 && math.IsInf(v.lo, -1) }
	if inf(x, 1) && inf(y, -1) || inf(x, -1) && inf(y, 1) {
		r.nan = true
	}
	r.lo, r.hi = x.lo+y.lo, x.hi+y.hi
	if math.IsNaN(r.lo) {
		r.lo = math.Inf(-1)
	}
	if math.IsNaN(r.hi) {
		r.hi = math.Inf(1)
	}
	return r
}

func fvNeg(x fv) fv { x.lo, x.hi = -x.hi, -x.lo; return x }

func fvMul(x, y fv) fv {
	r := fvNone
	r.nan = x.nan || y.nan
	if x.lo > x.hi || y.lo > y.hi {
		return r
	}
	hasZero := func(v fv) bool { return v.lo <= 0 && v.hi >= 0 }
	hasInf := func(v fv) bool { return math.IsInf(v.lo, 0) || math.IsInf(v.hi, 0) }
	if hasZero(x) && hasInf(y) || hasZero(y) && hasInf(x) {
		r.nan = true
	}
	for _, p := range []float64{x.lo, x.hi} {
		for _, q := range []float64{y.lo, y.hi} {
			m := p * q
			if math.IsNaN(m) {
				m = 0
			}
			r.lo, r.hi = math.Min(r.lo, m), math.Max(r.hi, m)
		}
	}
	return r
}

func fvDiv(x, y fv) fv {
	r := fvNone
	r.nan = x.nan || y.nan
	if x.lo > x.hi || y.lo > y.hi {
		return r
	}
	if y.lo <= 0 && y.hi >= 0 {
		r.lo, r.hi = math.Inf(-1), math.Inf(1)
		r.nan = r.nan || x.lo <= 0 && x.hi >= 0
		if (math.IsInf(x.lo, 0) || math.IsInf(x.hi, 0)) && (math.IsInf(y.lo, 0) || math.IsInf(y.hi, 0)) {
			r.nan = true
		}
		return r
	}
	if (math.IsInf(x.lo, 0) || math.IsInf(x.hi, 0)) && (math.IsInf(y.lo, 0) || math.IsInf(y.hi, 0)) {
		r.nan = true
	}
	for _, p := range []float64{x.lo, x.hi} {
		for _, q := range []float64{y.lo, y.hi} {
			m := p / q
			if math.IsNaN(m) {
				r.lo, r.hi = math.Min(r.lo, 0), math.Max(r.hi, 0)
				if (p > 0) == (q > 0) {
					r.hi = math.Inf(1)
				} else {
					r.lo = math.Inf(-1)
				}
				continue
			}
			r.lo, r.hi = math.Min(r.lo, m), math.Max(r.hi, m)
		}
	}
	return r
}

func fvPow(x, y fv) fv {
	if x.nan || y.nan || x.lo < 0 || x.lo > x.hi || y.lo > y.hi {
		r := fvAll(false)
		if x.lo >= 0 && x.lo <= x.hi && y.lo <= y.hi {
			q := fvPow(fv{lo: x.lo, hi: x.hi}, fv{lo: y.lo, hi: y.hi})
			r.lo, r.hi = math.Min(q.lo, 1), math.Max(q.hi, 1) // NaN**0 and 1**NaN are one
		}
		return r
	}
	r := fvHull(math.Pow(x.lo, y.lo), math.Pow(x.lo, y.hi), math.Pow(x.hi, y.lo), math.Pow(x.hi, y.hi))
	if y.lo <= 0 && y.hi >= 0 || x.lo <= 1 && x.hi >= 1 {
		r = r.join(fv{lo: 1, hi: 1})
	}
	return r
}

func (a *fAnalysis) step(c *fctx, st fstate, i ssa.Instruction, obs bool) {
	v, ok := i.(ssa.Value)
	if !ok {
		return
	}
	switch x := i.(type) {
	case *ssa.Phi:
		return
	case *ssa.Convert:
		if isNum(x.X.Type()) && isNum(x.Type()) {
			r := a.val(c, st, x.X)
			if obs && a.onConv != nil {
				a.onConv(c, x, r)
			}
			st[x] = a.conv(x, r)
			return
		}
	case *ssa.Call:
		if rs := a.call(c, st, x, obs); rs != nil && len(rs) == 1 && isNum(x.Type()) {
			st[x] = roundTo(x.Type(), rs[0])
			return
		}
	}
	if !isNum(v.Type()) {
		return
	}
	st[v] = a.eval(c, st, v)
}

func (a *fAnalysis) conv(x *ssa.Convert, r fv) fv {
	from, to := x.X.Type().Underlying().(*types.Basic), x.Type().Underlying().(*types.Basic)
	fromF, toF := from.Info()&types.IsFloat != 0, to.Info()&types.IsFloat != 0
	if toF {
		r.fl = false
		return roundTo(x.Type(), r)
	}
	lim := a.typed(x.Type(), false)
	if fromF {
		n := fv{lo: math.Trunc(r.lo), hi: math.Trunc(r.hi), vague: r.vague, fl: true}
		if r.nan || n.lo > n.hi || n.lo < lim.lo || n.hi > lim.hi {
			lim.fl, lim.vague = true, r.vague
			return lim
		}
		return n
	}
	if r.lo < lim.lo || r.hi > lim.hi {
		lim.fl, lim.vague = r.fl, true
		return lim
	}
	return r
}

func (a *fAnalysis) eval(c *fctx, st fstate, v ssa.Value) fv {
	switch x := v.(type) {
	case *ssa.ChangeType:
		return a.val(c, st, x.X)
	case *ssa.BinOp:
		p, q := a.val(c, st, x.X), a.val(c, st, x.Y)
		var r fv
		isInt := false
		if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			isInt = true
		}
		switch x.Op {
		case token.ADD:
			r = fvAdd(p, q)
		case token.SUB:
			r = fvAdd(p, fvNeg(q))
		case token.MUL:
			r = fvMul(p, q)
		case token.QUO:
			if isInt && (q.lo <= 0 && q.hi >= 0) {
				return a.typed(x.Type(), true)
			}
			r = fvDiv(p, q)
			if isInt {
				r.lo, r.hi = math.Trunc(r.lo), math.Trunc(r.hi)
			}
		default:
			r = a.typed(x.Type(), true)
		}
		r.vague = p.vague || q.vague || r.vague
		r.fl = p.fl || q.fl
		if isInt {
			r.nan = false
			lim := a.typed(x.Type(), false)
			if r.lo < lim.lo || r.hi > lim.hi {
				r.lo, r.hi, r.vague = lim.lo, lim.hi, true
			}
		}
		return roundTo(x.Type(), r)
	case *ssa.UnOp:
		switch x.Op {
		case token.SUB:
			return fvNeg(a.val(c, st, x.X))
		case token.MUL:
			return a.load(c, st, x)
		}
	case *ssa.Field, *ssa.Lookup, *ssa.Index:
		return a.typed(v.Type(), true)
	}
	return a.typed(v.Type(), true)
}

func (a *fAnalysis) load(c *fctx, st fstate, u *ssa.UnOp) fv {
	if v := singleStore(u.X); v != nil {
		// value of the variable's only assignment, possibly in an enclosing function
		if v.Parent() == c.f {
			return a.val(c, st, v)
		}
		for e := c; e != nil; e = e.mcx {
			if e.f == v.Parent() {
				if x, ok := e.final[v]; ok {
					return x
				}
				return a.val(e, e.final, v)
			}
		}
		return a.typed(u.Type(), true)
	}
	if a.input != nil && a.input(u) {
		return a.typed(u.Type(), false)
	}
	return a.typed(u.Type(), true)
}

func (a *fAnalysis) call(c *fctx, st fstate, x *ssa.Call, obs bool) []fv {
	cm := x.Common()
	if b, ok := cm.Value.(*ssa.Builtin); ok && (b.Name() == "min" || b.Name() == "max") && len(cm.Args) > 0 && isNum(x.Type()) {
		r := a.val(c, st, cm.Args[0])
		for _, g := range cm.Args[1:] {
			r = fvMinMax(r, a.val(c, st, g), b.Name() == "min")
		}
		return []fv{r}
	}
	callee := cm.StaticCallee()
	if callee == nil {
		if mc, ok := cm.Value.(*ssa.MakeClosure); ok {
			callee = mc.Fn.(*ssa.Function)
		}
	}
	var mc *ssa.MakeClosure
	if callee == nil {
		// a closure held in a local variable
		if u, ok := cm.Value.(*ssa.UnOp); ok && u.Op == token.MUL {
			if s, ok := singleStore(u.X).(*ssa.MakeClosure); ok {
				mc = s
			}
			if s, ok := singleStore(u.X).(*ssa.Function); ok {
				callee = s
			}
		}
	} else if m, ok := cm.Value.(*ssa.MakeClosure); ok {
		mc = m
	}
	if mc != nil {
		callee = mc.Fn.(*ssa.Function)
	}
	if callee == nil {
		return nil
	}
	if callee.Pkg != nil && callee.Pkg.Pkg.Path() == "math" && len(cm.Args) > 0 && isNum(x.Type()) {
		arg := func(k int) fv { return a.val(c, st, cm.Args[k]) }
		v := arg(0)
		mono := func(f func(float64) float64) []fv {
			r := v
			if v.lo <= v.hi {
				r.lo, r.hi = f(v.lo), f(v.hi)
			}
			return []fv{r}
		}
		switch callee.Name() {
		case "Pow":
			r := fvPow(v, arg(1))
			r.vague = v.vague || arg(1).vague
			return []fv{r}
		case "Min", "Max":
			return []fv{fvMinMax(v, arg(1), callee.Name() == "Min")}
		case "Round", "RoundToEven", "Floor", "Ceil", "Trunc":
			return mono(map[string]func(float64) float64{"Round": math.Round, "RoundToEven": math.RoundToEven, "Floor": math.Floor, "Ceil": math.Ceil, "Trunc": math.Trunc}[callee.Name()])
		case "Sqrt":
			r := v
			if v.lo < 0 {
				r.nan = true
			}
			r.lo, r.hi = math.Sqrt(math.Max(0, v.lo)), math.Sqrt(math.Max(0, v.hi))
			if v.lo > v.hi {
				r.lo, r.hi = v.lo, v.hi
			}
			return []fv{r}
		case "Abs":
			if v.lo > v.hi {
				return []fv{v}
			}
			r := v
			r.hi = math.Max(math.Abs(v.lo), math.Abs(v.hi))
			r.lo = math.Min(math.Abs(v.lo), math.Abs(v.hi))
			if v.lo <= 0 && v.hi >= 0 {
				r.lo = 0
			}
			return []fv{r}
		case "Inf":
			if v.lo > 0 {
				return []fv{{lo: math.Inf(1), hi: math.Inf(1)}}
			}
			return []fv{{lo: math.Inf(-1), hi: math.Inf(1), vague: true}}
		}
		return nil
	}
	if !a.w.inMod[callee] || c.depth > 6 || len(callee.Blocks) == 0 || a.descend != nil && !a.descend(callee) {
		return nil
	}
	for e := c; e != nil; e = e.up {
		if e.f == callee {
			return nil
		}
	}
	n := &fctx{f: callee, params: map[ssa.Value]fv{}, up: c, mc: mc, depth: c.depth + 1}
	if callee.Parent() != nil {
		for e := c; e != nil; e = e.up {
			if e.f == callee.Parent() {
				n.mcx = e
				break
			}
		}
	}
	for k, p := range callee.Params {
		if k < len(cm.Args) && isNum(p.Type()) {
			n.params[p] = a.val(c, st, cm.Args[k])
		}
	}
	sub := *a
	if !obs {
		sub.onConv = nil
	}
	return sub.run(n)
}

func fvMinMax(p, q fv, min bool) fv {
	r := fv{nan: p.nan || q.nan, vague: p.vague || q.vague, fl: p.fl || q.fl}
	if p.lo > p.hi || q.lo > q.hi {
		r.lo, r.hi = math.Inf(1), math.Inf(-1)
		return r
	}
	if min {
		r.lo, r.hi = math.Min(p.lo, q.lo), math.Min(p.hi, q.hi)
	} else {
		r.lo, r.hi = math.Max(p.lo, q.lo), math.Max(p.hi, q.hi)
	}
	return r
}

// the value and everything it is a conversion of take part in a comparison
func (a *fAnalysis) meet(c *fctx, st fstate, v ssa.Value, lo, hi float64, noNaN, onlyNaN, vague bool) bool {
	for d := 0; d < 6; d++ {
		if _, ok := v.(*ssa.Const); ok {
			return true
		}
		x := a.val(c, st, v)
		if onlyNaN {
			x.lo, x.hi = math.Inf(1), math.Inf(-1)
		} else {
			x.lo, x.hi = math.Max(x.lo, lo), math.Min(x.hi, hi)
			if x.lo > x.hi {
				x.lo, x.hi = math.Inf(1), math.Inf(-1)
			}
			if noNaN {
				x.nan = false
			}
		}
		x.vague = x.vague || vague
		if x.empty() {
			return false
		}
		st[v] = x
		// loads of the same place
		switch y := v.(type) {
		case *ssa.Convert:
			if isFloatT(y.X.Type()) && isFloatT(y.Type()) {
				v = y.X
				continue
			}
		case *ssa.ChangeType:
			v = y.X
			continue
		}
		return true
	}
	return true
}

// the state in which cond has the given truth, nil if impossible
func (a *fAnalysis) refine(c *fctx, st fstate, cond ssa.Value, truth bool, d int) fstate {
	switch x := cond.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.Bool && constant.BoolVal(x.Value) != truth {
			return nil
		}
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return a.refine(c, st, x.X, !truth, d+1)
		}
	case *ssa.Call:
		callee := x.Call.StaticCallee()
		if callee == nil || callee.Pkg == nil || callee.Pkg.Pkg.Path() != "math" {
			break
		}
		switch callee.Name() {
		case "IsNaN":
			if !a.meet(c, st, x.Call.Args[0], math.Inf(-1), math.Inf(1), !truth, truth, false) {
				return nil
			}
		case "IsInf":
			sign := a.val(c, st, x.Call.Args[1])
			if !truth {
				lo, hi := math.Inf(-1), math.Inf(1)
				if sign.lo >= 0 {
					hi = math.MaxFloat64
				}
				if sign.hi <= 0 {
					lo = -math.MaxFloat64
				}
				if !a.meet(c, st, x.Call.Args[0], lo, hi, false, false, false) {
					return nil
				}
			} else if !a.meet(c, st, x.Call.Args[0], math.Inf(-1), math.Inf(1), true, false, true) {
				return nil
			}
		}
	case *ssa.BinOp:
		if !isCmp(x.Op) || !isNum(x.X.Type()) {
			break
		}
		op := x.Op
		p, q := a.val(c, st, x.X), a.val(c, st, x.Y)
		if x.X == x.Y {
			if op == token.NEQ && truth || op == token.EQL && !truth {
				if !a.meet(c, st, x.X, 0, 0, false, true, false) {
					return nil
				}
			} else if op == token.NEQ || op == token.EQL {
				if !a.meet(c, st, x.X, math.Inf(-1), math.Inf(1), true, false, false) {
					return nil
				}
			}
			break
		}
		// comparisons with NaN are false, except !=
		ordered := truth != (op == token.NEQ)
		if !truth {
			op = negOp(op)
		}
		if !ordered && (p.nan || q.nan) {
			// NaN may explain the outcome: only the other side of a NaN-free operand can be narrowed
			vague := false
			lim := func(v ssa.Value, o fv, op token.Token, other fv) bool {
				lo, hi := bounds(v.Type(), op, other)
				return a.meet(c, st, v, lo, hi, false, false, vague)
			}
			if !q.nan && op != token.NEQ {
				if !lim(x.X, p, op, q) {
					return nil
				}
			}
			if !p.nan && op != token.NEQ {
				if !lim(x.Y, q, flipOp(op), p) {
					return nil
				}
			}
			break
		}
		if p.lo > p.hi || q.lo > q.hi {
			if ordered {
				return nil
			}
			break
		}
		if op == token.NEQ {
			if p.lo == p.hi && q.lo == q.hi && p.lo == q.lo && !p.nan && !q.nan {
				return nil
			}
			// an excluded end point
			cut := func(v ssa.Value, p, q fv) {
				if q.lo == q.hi && !q.nan {
					lo, hi := math.Inf(-1), math.Inf(1)
					if p.lo == q.lo {
						lo = nextUp(v.Type(), q.lo, true)
					}
					if p.hi == q.lo {
						hi = nextUp(v.Type(), q.lo, false)
					}
					a.meet(c, st, v, lo, hi, false, false, false)
				}
			}
			cut(x.X, p, q)
			cut(x.Y, q, p)
			break
		}
		lo, hi := bounds(x.X.Type(), op, q)
		vq, vp := q.lo != q.hi, p.lo != p.hi
		if !a.meet(c, st, x.X, lo, hi, ordered, false, vq) {
			return nil
		}
		lo, hi = bounds(x.Y.Type(), flipOp(op), p)
		if !a.meet(c, st, x.Y, lo, hi, ordered, false, vp) {
			return nil
		}
	}
	return st
}

// v op other: limits of v
func bounds(t types.Type, op token.Token, o fv) (lo, hi float64) {
	lo, hi = math.Inf(-1), math.Inf(1)
	if o.lo > o.hi {
		return
	}
	switch op {
	case token.LSS:
		hi = nextUp(t, o.hi, false)
	case token.LEQ:
		hi = o.hi
	case token.GTR:
		lo = nextUp(t, o.lo, true)
	case token.GEQ:
		lo = o.lo
	case token.EQL:
		lo, hi = o.lo, o.hi
	}
	return
}
