package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C13: missing samples never contaminate a stacked pixel.
//
// For every function that combines the samples of several frames pixel by pixel:
//
//	skip      a sample is only used where it is known to be a number
//	count     what is counted or added up per pixel starts over for each pixel, and only takes valid samples
//	buffer    of a buffer filled with valid samples, only the part filled for this pixel is looked at
//	fallback  with all samples of a pixel missing, the fallback value is stored and nothing is computed
//	nonempty  what survives rejection is not empty wherever an average or median of it is taken
//	pixel     the result is stored for the pixel the samples were taken from
func init() {
	register("C13", "dataflow over every stacking kernel: sample uses dominated by the not-a-number test, counters and buffers per pixel, emptiness analysis of the sample sets, and reachability with all samples missing", runC13)
}

type c13 struct {
	w       *World
	r       *Report
	f       *ssa.Function
	lights  *ssa.Parameter
	samples map[*ssa.UnOp]string
	guards  map[string][][2]*ssa.BasicBlock // sample -> edges on which it is a number
}

func runC13(w *World, r *Report) {
	r.rule("skip", "uses of samples that are dominated by the test for missing values", 8)
	r.rule("count", "per-pixel counters and sums that start over and only take valid samples", 8)
	r.rule("buffer", "looks at sample buffers that are limited to the samples gathered for the pixel", 6)
	r.rule("fallback", "kernels that store the fallback value if all samples are missing", 8)
	r.rule("nonempty", "averages and medians of samples that cannot be empty", 10)
	r.rule("pixel", "results stored for the pixel the samples were taken from", 8)
	r.rule("designated", "fallback values that are the designated one at the calls of the kernels", 8)
	n := 0
	var fallbacks []c13fallback
	for _, f := range w.Funcs {
		if len(f.Blocks) == 0 || f.Parent() != nil {
			continue
		}
		var lights *ssa.Parameter
		for _, p := range f.Params {
			if isFloats2(p.Type()) {
				lights = p
			}
		}
		if lights == nil {
			continue
		}
		c := &c13{w: w, r: r, f: f, lights: lights, samples: map[*ssa.UnOp]string{}, guards: map[string][][2]*ssa.BasicBlock{}}
		if fb, ok := c.kernel(); ok {
			n++
			fallbacks = append(fallbacks, fb...)
		}
	}
	if n < 8 {
		r.undecided("only %d functions combining samples of several frames found", n)
	}
	// the value handed to the kernels
	votes := map[string]int{}
	type use struct {
		fb   c13fallback
		site ssa.CallInstruction
		path string
	}
	var uses []use
	for _, fb := range fallbacks {
		for _, site := range w.calls().callers[fb.f] {
			a := argFor(fb.p, fb.f, site)
			if a == nil {
				continue
			}
			path := "value"
			switch x := stripAnyConv(a).(type) {
			case *ssa.UnOp:
				if fa, ok := x.X.(*ssa.FieldAddr); ok {
					path = fieldKey(fa)
				}
			case *ssa.Const:
				path = "constant " + x.String()
			}
			votes[path]++
			uses = append(uses, use{fb, site, path})
		}
	}
	best := ""
	for p, k := range votes {
		if k > votes[best] || k == votes[best] && p > best {
			best = p
		}
	}
	for _, u := range uses {
		switch {
		case u.path == best:
			r.ob("designated", "%s: fallback of %s is %s", w.ipos(u.site), fname(u.fb.f), best)
		case strings.HasPrefix(u.path, "constant"), u.path != "value":
			r.bad("designated", "designated|"+fname(u.fb.f), w.ipos(u.site), "%s is given %s as fallback for missing pixels, other modes use %s", fname(u.fb.f), u.path, best)
		default:
			r.undecided("%s: fallback for missing pixels of %s not followed", w.ipos(u.site), fname(u.fb.f))
		}
	}
}

type c13fallback struct {
	f *ssa.Function
	p *ssa.Parameter
}

// rows of the samples: elements of the lights parameter
func (c *c13) row(v ssa.Value, d int) (ssa.Value, bool) {
	if d > 6 {
		return nil, false
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return nil, false
		}
		if ia, ok := x.X.(*ssa.IndexAddr); ok && c.isLights(ia.X, 0) {
			return ia.Index, true
		}
		if s := singleStore(x.X); s != nil {
			return c.row(s, d+1)
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if i, ok := c.row(e, d+1); ok {
				return i, true
			}
		}
	}
	return nil, false
}

func (c *c13) isLights(v ssa.Value, d int) bool {
	if d > 6 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Parameter:
		return x == c.lights
	case *ssa.Slice:
		return c.isLights(x.X, d+1)
	case *ssa.UnOp:
		if s := singleStore(x.X); s != nil {
			return c.isLights(s, d+1)
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if c.isLights(e, d+1) {
				return true
			}
		}
	}
	return false
}

func isFloat1(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

// float value behind conversions between float types
func stripFloatConv(v ssa.Value) ssa.Value {
	for {
		c, ok := v.(*ssa.Convert)
		if !ok || !isFloat1(c.Type()) || !isFloat1(c.X.Type()) {
			return v
		}
		v = c.X
	}
}

// cond tests whether a sample is not a number: the sample and the outcome that says it is one
func (c *c13) nanTest(cond ssa.Value, d int) (key string, number bool, ok bool) {
	switch x := cond.(type) {
	case *ssa.Call:
		if calleeName(&x.Call) == "math.IsNaN" {
			if u, is := stripFloatConv(x.Call.Args[0]).(*ssa.UnOp); is && c.samples[u] != "" {
				return c.samples[u], false, true
			}
		}
	case *ssa.UnOp:
		if x.Op == token.NOT && d < 4 {
			k, n, ok := c.nanTest(x.X, d+1)
			return k, !n, ok
		}
	case *ssa.BinOp:
		a, ok1 := stripFloatConv(x.X).(*ssa.UnOp)
		b, ok2 := stripFloatConv(x.Y).(*ssa.UnOp)
		if ok1 && ok2 && c.samples[a] != "" && c.samples[a] == c.samples[b] {
			switch x.Op {
			case token.NEQ:
				return c.samples[a], false, true
			case token.EQL:
				return c.samples[a], true, true
			}
		}
	}
	return "", false, false
}

func (c *c13) kernel() (fbs []c13fallback, found bool) {
	type ld struct {
		u        *ssa.UnOp
		row, pix ssa.Value
	}
	var loads []ld
	for _, b := range c.f.Blocks {
		for _, i := range b.Instrs {
			u, ok := i.(*ssa.UnOp)
			if !ok || u.Op != token.MUL || !isFloat1(u.Type()) {
				continue
			}
			ia, ok := u.X.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			if ri, ok := c.row(ia.X, 0); ok {
				loads = append(loads, ld{u, ri, ia.Index})
				c.samples[u] = fmt.Sprintf("%p/%p", ri, stripConv(ia.Index))
			}
		}
	}
	if len(loads) == 0 {
		return nil, false
	}
	r, w, f := c.r, c.w, c.f
	for _, b := range f.Blocks {
		if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			if k, num, ok := c.nanTest(iff.Cond, 0); ok {
				e := 0
				if !num {
					e = 1
				}
				c.guards[k] = append(c.guards[k], [2]*ssa.BasicBlock{b, b.Succs[e]})
			}
		}
	}
	// results are stored into the parameters and come out of nothing else
	type resStore struct {
		st  *ssa.Store
		idx ssa.Value
	}
	var stores []resStore
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if st, ok := i.(*ssa.Store); ok && isFloat1(st.Val.Type()) {
				if ia, ok := st.Addr.(*ssa.IndexAddr); ok {
					if p, ok := rootSlice(ia.X).(*ssa.Parameter); ok && isFloats(p.Type()) {
						stores = append(stores, resStore{st, ia.Index})
					}
				}
			}
		}
	}
	if len(stores) == 0 {
		return nil, false
	}
	// buffers the samples are gathered in
	buffers := map[ssa.Value]*ssa.Phi{}
	bufStore := map[*ssa.Store]bool{}
	for _, l := range loads {
		for _, u := range usesThroughConv(l.u) {
			st, ok := u.(*ssa.Store)
			if !ok {
				continue
			}
			if ia, ok := st.Addr.(*ssa.IndexAddr); ok {
				root := rootSlice(ia.X)
				if ph, ok := stripConv(ia.Index).(*ssa.Phi); ok {
					buffers[root] = ph
					bufStore[st] = true
				}
			}
		}
	}
	// skip
	for _, l := range loads {
		nm := c.samples[l.u]
		bad, n := 0, 0
		for _, u := range usesThroughConv(l.u) {
			if v, ok := u.(ssa.Value); ok {
				if _, _, ok := c.nanTest(v, 0); ok {
					continue
				}
			}
			if st, ok := u.(*ssa.Store); ok && bufStore[st] {
				continue // only counts once the counter moves on
			}
			n++
			if ph, ok := u.(*ssa.Phi); ok {
				for k, e := range ph.Edges {
					if stripFloatConv(e) == ssa.Value(l.u) && !c.onEdge(nm, ph.Block().Preds[k], ph.Block()) {
						bad++
						r.bad("skip", "skip|"+fname(f), w.ipos(l.u), "%s uses a sample without checking that it is not missing", fname(f))
					}
				}
				continue
			}
			if !c.valid(nm, u.Block()) {
				bad++
				r.bad("skip", "skip|"+fname(f), w.ipos(u), "%s uses a sample without checking that it is not missing", fname(f))
			}
		}
		if bad == 0 {
			r.ob("skip", "%s: all %d uses of the sample loaded at %s", fname(f), n, w.ipos(l.u))
		}
	}
	// count: values carried around the loop over the frames
	seen := map[*ssa.Phi]bool{}
	for _, l := range loads {
		lp := loopOf(l.u.Block())
		if lp == nil {
			r.undecided("%s: samples are not taken in a loop", w.ipos(l.u))
			continue
		}
		for _, i := range lp.head.Instrs {
			ph, ok := i.(*ssa.Phi)
			if !ok {
				break
			}
			if seen[ph] || !(isInt(ph.Type()) || isFloat1(ph.Type()) || isFloats(ph.Type())) {
				continue
			}
			seen[ph] = true
			if ph == stripConv(l.row) || isLoopCounter(ph, lp) {
				continue
			}
			role := c.role(ph, buffers)
			if role == "" {
				continue
			}
			c.counter(ph, lp, role)
		}
	}
	// buffers
	for root, n := range buffers {
		c.buffer(root, n)
	}
	pl := loopOf(loads[0].u.Block())
	for _, l := range loopsOf(f) {
		if l.body[loads[0].u.Block()] && len(l.body) > len(pl.body) {
			pl = l
		}
	}
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if mk, ok := i.(*ssa.MakeSlice); ok && isFloats(mk.Type()) && buffers[mk] == nil {
				c.scratch(mk, pl)
			}
		}
	}
	// divisors of sums
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			q, ok := i.(*ssa.BinOp)
			if !ok || q.Op != token.QUO || !isFloat1(q.Type()) {
				continue
			}
			num, ok := stripFloatConv(q.X).(*ssa.Phi)
			if !ok || !seen[num] {
				continue
			}
			den := stripAnyConv(q.Y)
			if ph, ok := den.(*ssa.Phi); ok && seen[ph] {
				r.ob("count", "%s: sum of samples divided by what was counted along with it", w.ipos(q))
				continue
			}
			if c.dependsOnFrames(den, 0) {
				r.bad("count", "divisor|"+fname(f), w.ipos(q), "%s divides the sum of the valid samples by the number of frames, missing samples count as zero", fname(f))
			} else if k, ok := den.(*ssa.Call); ok && calleeName(&k.Call) == "builtin.len" {
				r.ob("count", "%s: sum of samples divided by a number of samples", w.ipos(q))
			} else {
				r.undecided("%s: divisor of the sum of samples not followed", w.ipos(q))
			}
		}
	}
	// pixel
	for _, s := range stores {
		match, off := false, false
		pr := newProver(w, nil)
		for _, l := range loads {
			d := pr.lin(s.idx).add(pr.lin(l.pix), -1)
			if k, ok := d.konst(); !ok || k != 0 {
				for m := range pr.lin(l.pix) {
					if m != "" && pr.lin(s.idx)[m] != 0 {
						off = true
					}
				}
			}
			b1, o1 := baseOffset(s.idx)
			b2, o2 := baseOffset(l.pix)
			if b1 == b2 {
				if o1 == o2 {
					match = true
				} else {
					off = true
				}
			}
		}
		switch {
		case match:
			r.ob("pixel", "%s: result stored for the pixel of the samples", w.ipos(s.st))
		case off:
			r.bad("pixel", "pixel|"+fname(f), w.ipos(s.st), "%s stores the result for another pixel than the one the samples belong to", fname(f))
		default:
			r.undecided("%s: pixel of the result not related to the pixel of the samples", w.ipos(s.st))
		}
	}
	// emptiness
	e := newEmptiness(f)
	e.run(nil)
	for _, b := range f.Blocks {
		if _, ok := e.at[b]; !ok {
			continue
		}
		env := e.clone(e.at[b])
		for k, i := range b.Instrs {
			if k > 0 {
				e.step(env, b.Instrs[k-1])
			}
			switch x := i.(type) {
			case *ssa.Call:
				t := x.Call.StaticCallee()
				if t == nil || !w.inMod[t] || x.Type() == nil || x.Referrers() == nil || len(*x.Referrers()) == 0 {
					continue
				}
				for _, a := range x.Call.Args {
					if !isFloats(a.Type()) || c.whole(a) {
						continue
					}
					s := e.size(env, a)
					switch {
					case s&szU != 0:
						r.undecided("%s: number of samples given to %s not known", w.ipos(x), t.Name())
					case s&(szZ|szN) != 0:
						r.bad("nonempty", "nonempty|"+fname(f)+"|"+t.Name(), w.ipos(x), "%s calls %s on a set of samples that can be empty", fname(f), t.Name())
					default:
						r.ob("nonempty", "%s: %s of at least one sample", w.ipos(x), t.Name())
					}
				}
			}
		}
	}
	// results of empty computations that are stored
	for _, s := range stores {
		for src := range e.tainted(s.st.Val, s.st.Block()) {
			if src.undecided {
				r.undecided("%s: number of samples averaged not known", w.ipos(src.at))
			} else {
				r.bad("nonempty", "average|"+fname(f), w.ipos(src.at), "%s stores an average of samples that can be empty", fname(f))
			}
		}
		r.ob("nonempty", "%s: stored value does not come from an empty average", w.ipos(s.st))
	}
	// all samples missing
	m := newEmptiness(f)
	m.test = func(cond ssa.Value) (bool, bool) {
		if _, num, ok := c.nanTest(cond, 0); ok {
			return !num, true
		}
		return false, false
	}
	m.run(nil)
	nfb, nbad := 0, 0
	for _, s := range stores {
		if _, ok := m.at[s.st.Block()]; !ok {
			continue
		}
		v := stripFloatConv(s.st.Val)
		if p, ok := v.(*ssa.Parameter); ok {
			nfb++
			fbs = append(fbs, c13fallback{f, p})
			continue
		}
		nbad++
		if m.imprecise {
			r.undecided("%s: decision on the number of valid samples not followed", w.ipos(s.st))
		} else {
			r.bad("fallback", "fallback|"+fname(f), w.ipos(s.st), "%s stores a computed value instead of the fallback for a pixel all samples of which are missing", fname(f))
		}
	}
	if nbad == 0 {
		if nfb == 0 {
			if m.imprecise {
				r.undecided("%s: decision on the number of valid samples not followed", fname(f))
			} else {
				r.bad("fallback", "fallback|"+fname(f), w.pos(f.Pos()), "%s stores no fallback for a pixel all samples of which are missing", fname(f))
			}
		} else if at := c.skipped(m, func(b *ssa.BasicBlock) bool {
			for _, s := range stores {
				if s.st.Block() == b {
					return true
				}
			}
			return false
		}, loads[0].u); at != nil {
			r.bad("fallback", "fallback|"+fname(f), w.ipos(at), "%s can go on to the next pixel without storing the fallback for a pixel all samples of which are missing", fname(f))
		} else {
			r.ob("fallback", "%s stores %s for a pixel without valid samples", fname(f), fbs[len(fbs)-1].p.Name())
		}
	}
	return fbs, true
}

// a way around the loop over the pixels on which no result is stored
func (c *c13) skipped(m *emptiness, stores func(b *ssa.BasicBlock) bool, sample *ssa.UnOp) ssa.Instruction {
	// outermost loop around the sample that contains a store
	var pl *loop
	for _, l := range loopsOf(c.f) {
		has := false
		for b := range l.body {
			if stores(b) {
				has = true
			}
		}
		if has && l.body[sample.Block()] && (pl == nil || len(l.body) < len(pl.body)) {
			pl = l
		}
	}
	if pl == nil {
		return nil
	}
	seen := map[*ssa.BasicBlock]bool{}
	var visit func(b *ssa.BasicBlock) ssa.Instruction
	visit = func(b *ssa.BasicBlock) ssa.Instruction {
		if seen[b] || stores(b) {
			return nil
		}
		seen[b] = true
		for k, s := range b.Succs {
			if !m.feasible[[2]*ssa.BasicBlock{b, s}] || !pl.body[s] {
				continue
			}
			_ = k
			if s == pl.head {
				return b.Instrs[len(b.Instrs)-1]
			}
			if i := visit(s); i != nil {
				return i
			}
		}
		return nil
	}
	return visit(pl.head)
}

func rootSlice(v ssa.Value) ssa.Value {
	for d := 0; d < 12; d++ {
		switch x := v.(type) {
		case *ssa.Slice:
			v = x.X
			continue
		case *ssa.UnOp:
			if s := singleStore(x.X); s != nil {
				v = s
				continue
			}
		case *ssa.ChangeType:
			v = x.X
			continue
		}
		return v
	}
	return v
}

// instructions using v, looking through conversions between float types
func usesThroughConv(v ssa.Value) (res []ssa.Instruction) {
	if v.Referrers() == nil {
		return
	}
	for _, u := range *v.Referrers() {
		if c, ok := u.(*ssa.Convert); ok && isFloat1(c.Type()) {
			res = append(res, usesThroughConv(c)...)
			continue
		}
		if _, ok := u.(*ssa.DebugRef); ok {
			continue
		}
		res = append(res, u)
	}
	return
}

// the sample is a number wherever block b runs
func (c *c13) valid(key string, b *ssa.BasicBlock) bool {
	for _, g := range c.guards[key] {
		if edgeDominates(g[0], g[1], b) {
			return true
		}
	}
	return false
}

func (c *c13) onEdge(key string, from, to *ssa.BasicBlock) bool {
	if c.valid(key, from) {
		return true
	}
	for _, g := range c.guards[key] {
		if g[0] == from && g[1] == to && g[0].Succs[0] != g[0].Succs[1] {
			return true
		}
	}
	return false
}

// every way to b goes along the edge from -> to
func edgeDominates(from, to, b *ssa.BasicBlock) bool {
	if from.Succs[0] == from.Succs[len(from.Succs)-1] {
		return false
	}
	if !to.Dominates(b) {
		return false
	}
	for _, p := range to.Preds {
		if p != from && !to.Dominates(p) {
			return false
		}
	}
	return true
}

// what a value carried around the loop over the frames is used for
func (c *c13) role(ph *ssa.Phi, buffers map[ssa.Value]*ssa.Phi) string {
	for _, n := range buffers {
		if n == ph {
			return "number of samples gathered"
		}
	}
	if ph.Referrers() == nil {
		return ""
	}
	for _, u := range *ph.Referrers() {
		switch x := u.(type) {
		case *ssa.Slice:
			if x.High == ssa.Value(ph) {
				return "number of samples gathered"
			}
			if x.X == ssa.Value(ph) {
				return "gathered samples"
			}
		case *ssa.BinOp:
			if x.Op == token.QUO && isFloat1(x.Type()) {
				if x.X == ssa.Value(ph) {
					return "sum of samples"
				}
				return "sum of weights"
			}
		case *ssa.Convert:
			if isFloat1(x.Type()) {
				for _, v := range *x.Referrers() {
					if q, ok := v.(*ssa.BinOp); ok && q.Op == token.QUO && stripAnyConv(q.Y) == ssa.Value(ph) {
						return "number of samples"
					}
					if q, ok := v.(*ssa.BinOp); ok && q.Op == token.QUO && stripAnyConv(q.X) == ssa.Value(ph) {
						return "sum of samples"
					}
				}
			}
		case *ssa.Call:
			if isFloats(ph.Type()) {
				return "gathered samples"
			}
		}
	}
	return ""
}

// variable the loop is controlled by
func isLoopCounter(ph *ssa.Phi, l *loop) bool {
	for _, g := range l.guards() {
		if b, _ := baseOffset(g.x.phi); b == ssa.Value(ph) {
			return true
		}
	}
	return false
}

func (c *c13) counter(ph *ssa.Phi, lp *loop, role string) {
	r, w, f := c.r, c.w, c.f
	good := true
	for k, e := range ph.Edges {
		if lp.body[ph.Block().Preds[k]] {
			continue
		}
		switch x := e.(type) {
		case *ssa.Const:
			if x.Value == nil && isFloats(ph.Type()) {
				continue
			}
			if n, ok := constInt(x); ok && n == 0 {
				continue
			}
			if isFloat1(x.Type()) && x.Float64() == 0 {
				continue
			}
			good = false
			r.bad("count", "count|"+fname(f)+"|"+role, w.ipos(ph), "%s: %s does not start at zero for each pixel", fname(f), role)
			continue
		case *ssa.Slice:
			if h, ok := constInt(x.High); ok && h == 0 {
				continue
			}
		case *ssa.MakeSlice:
			if h, ok := constInt(x.Len); ok && h == 0 {
				continue
			}
		}
		if p, ok := e.(*ssa.Phi); ok && inPhiCycle(p, ph) {
			good = false
			r.bad("count", "count|"+fname(f)+"|"+role, w.ipos(ph), "%s: %s is carried over from one pixel to the next", fname(f), role)
			continue
		}
		good = false
		r.undecided("%s: start value of the %s in %s not followed", w.ipos(ph), role, fname(f))
	}
	// additions
	for _, a := range cycleOps(ph, lp) {
		valid := false
		for _, k := range c.samples {
			if c.valid(k, a.Block()) {
				valid = true
			}
		}
		if valid {
			continue
		}
		good = false
		b, isBin := a.(*ssa.BinOp)
		if isBin && (isInt(ph.Type())) {
			if _, ok := constInt(b.Y); !ok {
				r.undecided("%s: increment of the %s not followed", w.ipos(a), role)
				continue
			}
		}
		r.bad("count", "count|"+fname(f)+"|"+role, w.ipos(a), "%s: missing samples are included in the %s", fname(f), role)
	}
	if good {
		r.ob("count", "%s: %s starts over for each pixel and takes valid samples only", fname(f), role)
	}
}

// does p take the value of ph at some later iteration
func inPhiCycle(p, ph *ssa.Phi) bool {
	seen := map[ssa.Value]bool{}
	var rec func(v ssa.Value) bool
	rec = func(v ssa.Value) bool {
		if seen[v] {
			return false
		}
		seen[v] = true
		if v == ssa.Value(ph) {
			return true
		}
		switch x := v.(type) {
		case *ssa.Phi:
			for _, e := range x.Edges {
				if rec(e) {
					return true
				}
			}
		case *ssa.BinOp:
			return rec(x.X) || rec(x.Y)
		case *ssa.Slice:
			return rec(x.X)
		case *ssa.Call:
			if calleeName(&x.Call) == "builtin.append" {
				return rec(x.Call.Args[0])
			}
		}
		return false
	}
	for _, e := range p.Edges {
		if rec(e) {
			return true
		}
	}
	return false
}

// operations that change ph on its way around the loop
func cycleOps(ph *ssa.Phi, lp *loop) (res []ssa.Instruction) {
	seen := map[ssa.Value]bool{}
	var rec func(v ssa.Value)
	rec = func(v ssa.Value) {
		if seen[v] || v == ssa.Value(ph) {
			return
		}
		seen[v] = true
		i, ok := v.(ssa.Instruction)
		if !ok || !lp.body[i.Block()] {
			return
		}
		switch x := v.(type) {
		case *ssa.Phi:
			for _, e := range x.Edges {
				rec(e)
			}
		case *ssa.BinOp:
			res = append(res, x)
			rec(x.X)
		case *ssa.Convert:
			rec(x.X)
		case *ssa.Call:
			res = append(res, x)
		}
	}
	for k, e := range ph.Edges {
		if lp.body[ph.Block().Preds[k]] {
			rec(e)
		}
	}
	return
}

// is v computed from the number of frames, rather than of valid samples
func (c *c13) dependsOnFrames(v ssa.Value, d int) bool {
	if d > 8 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Call:
		if calleeName(&x.Call) == "builtin.len" {
			a := x.Call.Args[0]
			if c.isLights(a, 0) {
				return true
			}
			if mk, ok := rootSlice(a).(*ssa.MakeSlice); ok && mk == a {
				return c.dependsOnFrames(mk.Len, d+1)
			}
		}
	case *ssa.Convert:
		return c.dependsOnFrames(x.X, d+1)
	case *ssa.BinOp:
		return c.dependsOnFrames(x.X, d+1) || c.dependsOnFrames(x.Y, d+1)
	}
	return false
}

// slices that are not samples of a pixel: complete rows and buffers filled before
func (c *c13) whole(a ssa.Value) bool {
	if _, ok := c.row(a, 0); ok {
		return true
	}
	_, p := a.(*ssa.Parameter)
	return p
}

// uses of a buffer the valid samples are gathered in
func (c *c13) buffer(root ssa.Value, n *ssa.Phi) {
	r, w, f := c.r, c.w, c.f
	if _, ok := root.(*ssa.MakeSlice); !ok {
		r.undecided("%s: buffer for samples of %s not followed", w.ipos(n), fname(f))
		return
	}
	counts := func(v ssa.Value) bool {
		b, o := baseOffset(v)
		if o != 0 {
			return false
		}
		if b == ssa.Value(n) {
			return true
		}
		if ph, ok := b.(*ssa.Phi); ok {
			for _, e := range ph.Edges {
				if stripConv(e) == ssa.Value(n) {
					return true
				}
			}
		}
		return false
	}
	lp := loopOf(n.Block())
	var check func(v ssa.Value, d int)
	check = func(v ssa.Value, d int) {
		if v.Referrers() == nil || d > 4 {
			return
		}
		for _, u := range *v.Referrers() {
			switch x := u.(type) {
			case *ssa.Slice:
				switch {
				case x.High == nil:
					if x.Low == nil {
						check(x, d+1)
						continue
					}
					r.bad("buffer", "buffer|"+fname(f), w.ipos(x), "%s looks at samples of other pixels left in the buffer", fname(f))
				case counts(x.High):
					r.ob("buffer", "%s: only what was gathered for the pixel", w.ipos(x))
				default:
					b, o := baseOffset(x.High)
					if k, ok := constInt(x.High); ok && k == 0 {
						continue
					}
					if b == ssa.Value(n) && o != 0 || c.dependsOnFrames(x.High, 0) {
						r.bad("buffer", "buffer|"+fname(f), w.ipos(x), "%s looks at another part of the buffer than the samples gathered for the pixel", fname(f))
					} else {
						r.undecided("%s: part of the sample buffer not related to the number gathered", w.ipos(x))
					}
				}
			case *ssa.IndexAddr:
				for _, y := range *x.Referrers() {
					if ld, ok := y.(*ssa.UnOp); ok && ld.Op == token.MUL {
						if lp != nil && lp.body[ld.Block()] && counts(x.Index) {
							continue
						}
						if c.overFrames(x.Index) {
							r.bad("buffer", "buffer|"+fname(f), w.ipos(ld), "%s goes through the whole buffer, which includes samples of other pixels", fname(f))
							continue
						}
						r.undecided("%s: index into the sample buffer not followed", w.ipos(ld))
					}
				}
			case *ssa.Call:
				if n := calleeName(&x.Call); n == "builtin.len" || n == "builtin.cap" {
					continue
				}
				r.bad("buffer", "buffer|"+fname(f), w.ipos(x), "%s gives the whole buffer to %s, which includes samples of other pixels", fname(f), strings.TrimPrefix(calleeName(&x.Call), Mod+"/internal/"))
			case *ssa.Phi, *ssa.Store, *ssa.DebugRef:
			}
		}
	}
	check(root, 0)
}

// an index that runs over all frames
func (c *c13) overFrames(v ssa.Value) bool {
	b, _ := baseOffset(v)
	ph, ok := b.(*ssa.Phi)
	if !ok {
		return false
	}
	l := loopOf(ph.Block())
	if l == nil {
		return false
	}
	for _, g := range l.guards() {
		if gb, _ := baseOffset(g.x.phi); gb == ssa.Value(ph) && c.dependsOnFrames(stripConv(g.bound), 0) {
			return true
		}
	}
	return false
}

// other buffers that are filled anew for each pixel
func (c *c13) scratch(root *ssa.MakeSlice, pl *loop) {
	if pl == nil || pl.body[root.Block()] || !c.dependsOnFrames(root.Len, 0) {
		return
	}
	var slices []*ssa.Slice
	var calls []*ssa.Call
	written := false
	var walk func(v ssa.Value, d int)
	walk = func(v ssa.Value, d int) {
		if v.Referrers() == nil || d > 5 {
			return
		}
		for _, u := range *v.Referrers() {
			if !pl.body[u.Block()] {
				continue
			}
			switch x := u.(type) {
			case *ssa.Slice:
				if v == ssa.Value(root) {
					slices = append(slices, x)
				}
				walk(x, d+1)
			case *ssa.IndexAddr:
				for _, y := range *x.Referrers() {
					if st, ok := y.(*ssa.Store); ok && st.Addr == ssa.Value(x) {
						written = true
					}
				}
			case *ssa.Call:
				if calleeName(&x.Call) == "builtin.copy" && x.Call.Args[0] == v {
					written = true
				} else if t := x.Call.StaticCallee(); t != nil && c.w.inMod[t] && v == ssa.Value(root) {
					calls = append(calls, x)
				}
			}
		}
	}
	walk(root, 0)
	if !written {
		return
	}
	for _, s := range slices {
		if s.High == nil && s.Low == nil {
			continue
		}
		if s.High == nil || c.dependsOnFrames(s.High, 0) {
			c.r.bad("buffer", "scratch|"+fname(c.f), c.w.ipos(s), "%s looks at a part of a buffer that is left over from other pixels", fname(c.f))
		}
	}
	for _, x := range calls {
		c.r.bad("buffer", "scratch|"+fname(c.f), c.w.ipos(x), "%s gives a whole buffer to %s, which is left over from other pixels in part", fname(c.f), x.Call.StaticCallee().Name())
	}
}

// ---- emptiness: signs of integers and lengths of slices

const (
	szZ = 1 << iota // zero
	szP             // positive
	szN             // negative
	szU             // not followed
)

type szEnv map[ssa.Value]int

type emptiness struct {
	f         *ssa.Function
	at        map[*ssa.BasicBlock]szEnv
	feasible  map[[2]*ssa.BasicBlock]bool
	test      func(cond ssa.Value) (val, known bool)
	imprecise bool // a branch on a quantity that is not followed was taken both ways
}

func newEmptiness(f *ssa.Function) *emptiness {
	return &emptiness{f: f, at: map[*ssa.BasicBlock]szEnv{}, feasible: map[[2]*ssa.BasicBlock]bool{}}
}

func (e *emptiness) clone(s szEnv) szEnv {
	r := szEnv{}
	for k, v := range s {
		r[k] = v
	}
	return r
}

// sign of an integer, or of the length of a slice
func (e *emptiness) size(env szEnv, v ssa.Value) int {
	if s, ok := env[v]; ok {
		return s
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return szZ
		}
		if n, ok := constInt(x); ok {
			switch {
			case n == 0:
				return szZ
			case n > 0:
				return szP
			}
			return szN
		}
	case *ssa.Parameter:
		if _, ok := x.Type().Underlying().(*types.Slice); ok {
			return szZ | szP | szU
		}
	}
	return szZ | szP | szN | szU
}

func (e *emptiness) step(env szEnv, i ssa.Instruction) {
	v, ok := i.(ssa.Value)
	if !ok {
		return
	}
	switch x := i.(type) {
	case *ssa.Phi:
		return // on edges
	case *ssa.Slice:
		switch {
		case x.High != nil && x.Low == nil:
			env[v] = e.size(env, x.High) &^ szN
		case x.High != nil:
			if n, ok := constInt(x.Low); ok && n == 0 {
				env[v] = e.size(env, x.High) &^ szN
			} else {
				env[v] = szZ | szP | szU
			}
		case x.Low == nil:
			env[v] = e.size(env, x.X)
		default:
			env[v] = szZ | szP | szU
			if e.differs(x.Block(), x.Low, x.X) {
				env[v] = szP
			} else if e.size(env, x.Low) == szZ {
				env[v] = e.size(env, x.X)
			} else if s := e.size(env, x.Low); s&szU == 0 {
				env[v] = szZ | szP
			}
		}
	case *ssa.MakeSlice:
		env[v] = e.size(env, x.Len) &^ szN
	case *ssa.UnOp:
		if s := singleStore(x.X); x.Op == token.MUL && s != nil {
			env[v] = e.size(env, s)
		}
	case *ssa.ChangeType:
		env[v] = e.size(env, x.X)
	case *ssa.Convert:
		if isInt(x.Type()) && isInt(x.X.Type()) || isFloat1(x.Type()) && isInt(x.X.Type()) {
			env[v] = e.size(env, x.X)
		}
	case *ssa.Call:
		switch calleeName(&x.Call) {
		case "builtin.len":
			env[v] = e.size(env, x.Call.Args[0]) &^ szN
			if _, ok := x.Call.Args[0].Type().Underlying().(*types.Slice); !ok {
				env[v] = szZ | szP | szU
			}
		case "builtin.append":
			s := e.size(env, x.Call.Args[0])
			if len(x.Call.Args) > 1 {
				t := e.size(env, x.Call.Args[1])
				if sl, ok := x.Call.Args[1].(*ssa.Slice); ok {
					if al, ok := sl.X.(*ssa.Alloc); ok {
						if at, ok := deref(al.Type()).(*types.Array); ok && at.Len() > 0 && sl.High == nil {
							t = szP
						}
					}
				}
				if t&szZ == 0 && t&szU == 0 {
					s = szP
				} else {
					s |= t
				}
			}
			env[v] = s
		}
	case *ssa.BinOp:
		if !isInt(x.Type()) {
			return
		}
		a, b := e.size(env, x.X), e.size(env, x.Y)
		k, isK := constInt(x.Y)
		r := szZ | szP | szN | (a|b)&szU
		switch x.Op {
		case token.ADD:
			switch {
			case (a|b)&szU != 0:
			case a == szZ:
				r = b
			case b == szZ:
				r = a
			case (a|b)&szN == 0 && (a == szP || b == szP):
				r = szP
			case (a|b)&szN == 0:
				r = szZ | szP
			}
		case token.SUB:
			switch {
			case a&szU != 0 || b&szU != 0:
			case b == szZ:
				r = a
			case isK && k == 1 && a == szP:
				r = szZ | szP
			}
		case token.MUL:
			if (a|b)&(szN|szU) == 0 {
				r = 0
				if (a|b)&szZ != 0 {
					r |= szZ
				}
				if a&b&szP != 0 {
					r |= szP
				}
			}
		case token.QUO, token.SHR:
			if a&(szN|szU) == 0 {
				r = szZ | szP
			}
		}
		env[v] = r
	}
}

// low differs from the length of x on all ways to b
func (e *emptiness) differs(b *ssa.BasicBlock, low, x ssa.Value) bool {
	isLen := func(v ssa.Value) bool {
		c, ok := v.(*ssa.Call)
		return ok && calleeName(&c.Call) == "builtin.len" && c.Call.Args[0] == x
	}
	for _, p := range e.f.Blocks {
		iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		bo, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		op := bo.Op
		l, r := bo.X, bo.Y
		if isLen(l) {
			l, r = r, l
			op = flipOp(op)
		}
		if !(stripConv(l) == stripConv(low) && isLen(stripConv(r))) {
			continue
		}
		k := -1
		switch op {
		case token.EQL, token.GEQ:
			k = 1
		case token.NEQ, token.LSS:
			k = 0
		}
		if k >= 0 && edgeDominates(p, p.Succs[k], b) {
			return true
		}
	}
	return false
}

// refine env by cond being val; false if that is impossible
func (e *emptiness) refine(env szEnv, cond ssa.Value, val bool) bool {
	if e.test != nil {
		if v, known := e.test(cond); known {
			return v == val
		}
	}
	switch x := cond.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return e.refine(env, x.X, !val)
		}
	case *ssa.Const:
		if x.Value != nil && types.Identical(x.Type().Underlying(), types.Typ[types.Bool]) {
			return (x.Value.String() == "true") == val
		}
	case *ssa.BinOp:
		if !isCmp(x.Op) || !isInt(x.X.Type()) {
			return true
		}
		op := x.Op
		if !val {
			op = negOp(op)
		}
		return e.narrow(env, op, x.X, x.Y) && e.narrow(env, flipOp(op), x.Y, x.X)
	}
	return true
}

// a op b holds: narrow a
func (e *emptiness) narrow(env szEnv, op token.Token, a, b ssa.Value) bool {
	s := e.size(env, a)
	keep := szZ | szP | szN
	t := e.size(env, b)
	k, isK := constInt(b)
	switch op {
	case token.EQL:
		if t&szU == 0 {
			keep = t
		}
	case token.NEQ:
		if isK && k == 0 || t == szZ {
			keep = szP | szN
		}
	case token.LSS:
		if t&(szP|szU) == 0 {
			keep = szN
		} else if isK && k == 1 {
			keep = szZ | szN
		}
	case token.LEQ:
		if t&(szP|szU) == 0 {
			keep = szZ | szN
			if t == szN {
				keep = szN
			}
		}
	case token.GTR:
		if t&(szN|szU) == 0 {
			keep = szP
		} else if isK && k == -1 {
			keep = szZ | szP
		}
	case token.GEQ:
		if t&(szN|szU) == 0 {
			keep = szZ | szP
			if t == szP {
				keep = szP
			}
		}
	}
	n := s & keep
	if n == 0 {
		return false
	}
	if s&szU != 0 && !(keep == szP || keep == szZ) {
		n |= szU
	}
	e.assign(env, a, n)
	return true
}

func (e *emptiness) assign(env szEnv, v ssa.Value, n int) {
	env[v] = n
	switch x := v.(type) {
	case *ssa.Call:
		if calleeName(&x.Call) == "builtin.len" {
			a := x.Call.Args[0]
			e.assign(env, a, n)
			// other calls of len on the same slice
			if a.Referrers() != nil {
				for _, u := range *a.Referrers() {
					if c, ok := u.(*ssa.Call); ok && c != x && calleeName(&c.Call) == "builtin.len" {
						env[c] = n
					}
				}
			}
		}
	case *ssa.Slice:
		if x.High != nil && x.Low == nil {
			if _, ok := env[x.High]; ok {
				env[x.High] = env[x.High] & (n | szU)
				if n == szP || n == szZ {
					env[x.High] = n
				}
			}
		}
	case *ssa.Convert:
		if isInt(x.X.Type()) {
			e.assign(env, x.X, n)
		}
	}
}

func (e *emptiness) run(init szEnv) {
	f := e.f
	if init == nil {
		init = szEnv{}
	}
	e.at[f.Blocks[0]] = init
	work := []*ssa.BasicBlock{f.Blocks[0]}
	for n := 0; len(work) > 0 && n < 20000; n++ {
		b := work[0]
		work = work[1:]
		env := e.clone(e.at[b])
		for _, i := range b.Instrs {
			e.step(env, i)
		}
		for k, s := range b.Succs {
			out := e.clone(env)
			if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
				if !e.refine(out, iff.Cond, k == 0) {
					continue
				}
			}
			e.feasible[[2]*ssa.BasicBlock{b, s}] = true
			// merged values
			pi := -1
			for j, p := range s.Preds {
				if p == b && (pi < 0 || k == 1 && b.Succs[0] == b.Succs[len(b.Succs)-1]) {
					pi = j
				}
			}
			vals := map[*ssa.Phi]int{}
			for _, i := range s.Instrs {
				ph, ok := i.(*ssa.Phi)
				if !ok {
					break
				}
				_, sl := ph.Type().Underlying().(*types.Slice)
				if isInt(ph.Type()) || sl {
					vals[ph] = e.size(out, ph.Edges[pi])
				}
			}
			for ph, v := range vals {
				out[ph] = v
			}
			old, ok := e.at[s]
			if !ok {
				e.at[s] = out
				work = append(work, s)
				continue
			}
			changed := false
			for v, a := range old {
				b, ok := out[v]
				if !ok {
					if _, ok := v.(*ssa.Const); !ok {
						b = e.size(szEnv{}, v)
					}
				}
				if a|b != a {
					old[v] = a | b
					changed = true
				}
			}
			if changed {
				work = append(work, s)
			}
		}
	}
	// branches on quantities that are not followed, outside of loop conditions
	for b, env := range e.at {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		bo, ok := iff.Cond.(*ssa.BinOp)
		if !ok || !isInt(bo.X.Type()) {
			continue
		}
		l := loopOf(b)
		if l != nil && (!l.body[b.Succs[0]] || !l.body[b.Succs[1]]) && l.head == b {
			continue
		}
		x := e.clone(env)
		for _, i := range b.Instrs {
			e.step(x, i)
		}
		if e.size(x, bo.X)&szU != 0 || e.size(x, bo.Y)&szU != 0 {
			e.imprecise = true
		}
	}
}

// the slice whose length bounds the loop in which ph adds up values, starting from zero
func summedSlice(ph *ssa.Phi) ssa.Value {
	l := loopOf(ph.Block())
	if l == nil || l.head != ph.Block() {
		return nil
	}
	for k, e := range ph.Edges {
		if !l.body[ph.Block().Preds[k]] {
			if cst, ok := e.(*ssa.Const); !ok || cst.Value == nil || cst.Float64() != 0 {
				return nil
			}
		}
	}
	for _, g := range l.guards() {
		if c, ok := stripConv(g.bound).(*ssa.Call); ok && calleeName(&c.Call) == "builtin.len" && isFloats(c.Call.Args[0].Type()) {
			return c.Call.Args[0]
		}
	}
	return nil
}

type szSource struct {
	at        ssa.Instruction
	undecided bool
}

// divisions by a number of samples that can be zero whose result arrives at v
func (e *emptiness) tainted(v ssa.Value, at *ssa.BasicBlock) map[szSource]bool {
	res := map[szSource]bool{}
	type key struct {
		v  ssa.Value
		at *ssa.BasicBlock
		to *ssa.BasicBlock
	}
	seen := map[key]bool{}
	var rec func(v ssa.Value, envs []func() szEnv, k key)
	envAt := func(b *ssa.BasicBlock) szEnv {
		env := e.clone(e.at[b])
		for _, i := range b.Instrs {
			e.step(env, i)
		}
		return env
	}
	rec = func(v ssa.Value, envs []func() szEnv, k key) {
		if seen[k] {
			return
		}
		seen[k] = true
		switch x := v.(type) {
		case *ssa.Convert:
			rec(x.X, envs, key{x.X, k.at, k.to})
		case *ssa.Phi:
			for j, ed := range x.Edges {
				p := x.Block().Preds[j]
				if !e.feasible[[2]*ssa.BasicBlock{p, x.Block()}] {
					continue
				}
				b := x.Block()
				onEdge := func() szEnv {
					env := envAt(p)
					if iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If); ok && p.Succs[0] != p.Succs[1] {
						e.refine(env, iff.Cond, p.Succs[0] == b)
					}
					return env
				}
				ne := append(append([]func() szEnv(nil), envs...), onEdge)
				if len(ne) > 6 {
					ne = ne[len(ne)-6:]
				}
				rec(ed, ne, key{ed, p, b})
			}
		case *ssa.BinOp:
			if x.Op == token.QUO && isFloat1(x.Type()) {
				if cv, ok := stripFloatConv(x.Y).(*ssa.Convert); ok && isInt(cv.X.Type()) {
					s := szZ | szP | szN | szU
					if _, ok := e.at[x.Block()]; ok {
						s = e.size(envAt(x.Block()), cv.X)
					}
					for _, en := range envs {
						if t, ok := en()[cv.X]; ok && t == szP {
							s = t
						}
					}
					if s != szP {
						res[szSource{x, s&szU != 0}] = true
					}
				}
			}
			if x.Op == token.QUO && isFloat1(x.Type()) {
				// sum over the elements of a slice
				if ph, ok := stripFloatConv(x.Y).(*ssa.Phi); ok {
					if sl := summedSlice(ph); sl != nil {
						s := e.size(envAt(x.Block()), sl)
						for _, en := range envs {
							if t, ok := en()[sl]; ok && t == szP {
								s = t
							}
						}
						if s != szP {
							res[szSource{x, s&szU != 0}] = true
						}
					}
				}
			}
			rec(x.X, envs, key{x.X, k.at, k.to})
			rec(x.Y, envs, key{x.Y, k.at, k.to})
		}
	}
	rec(v, []func() szEnv{func() szEnv { return envAt(at) }}, key{v, at, nil})
	return res
}
