package main

// C12: weights stay with the frame they were computed for.
//
// Weights are traced from the function that computes them. Wherever a weight multiplies a sample, the two must come from
// parallel positions: the buffers holding them have to be filled, moved, cut and permuted in lockstep.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type c12 struct {
	w    *World
	r    *Report
	e    *effects
	src  map[ssa.Value]bool     // results of calls that compute weights
	wpar map[ssa.Value]bool     // parameters that receive weights
	spar map[ssa.Value]bool     // []float32 parameters that receive samples along with weights
	enum *types.Named           // weighting modes
	work []*ssa.Function        // functions receiving weights
	from map[*ssa.Function]bool // functions computing weights
}

func isFloats(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isFloatT(s.Elem())
}

func isFloats2(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isFloats(s.Elem())
}

func isImages(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && strings.HasSuffix(s.Elem().String(), "fits.Image")
}

func runC12(w *World, r *Report) {
	r.rule("own-frame", "the weight stored for a frame is computed from that frame, for every frame", 2)
	r.rule("pairing", "a weight only multiplies a sample held at the parallel position of a buffer kept in lockstep", 3)
	r.rule("lockstep", "every store, cut and permutation of samples is matched by one of their weights", 4)
	r.rule("normalised", "a weighted sum is divided by the sum of the same weights", 2)
	r.rule("applied", "whenever a weighting is requested, every stacking mode either uses the weights or fails", 6)
	c := &c12{w: w, r: r, e: w.effects(), src: map[ssa.Value]bool{}, wpar: map[ssa.Value]bool{}, spar: map[ssa.Value]bool{}, from: map[*ssa.Function]bool{}}
	if t := w.typ("internal/ops/stack", "StackWeighting"); t != nil {
		c.enum, _ = t.(*types.Named)
	}
	if c.enum == nil {
		r.bad("coverage", "StackWeighting", "-", "type stack.StackWeighting not found")
		return
	}
	c.findSources()
	for f := range c.from {
		c.ownFrame(f)
	}
	c.propagate()
	for _, f := range c.work {
		c.function(f)
	}
	c.applied()
}

// calls that turn a weighting mode into weights
func (c *c12) findSources() {
	for _, f := range c.w.Funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				call, ok := i.(*ssa.Call)
				if !ok {
					continue
				}
				t := call.Call.StaticCallee()
				if t == nil || !c.w.inMod[t] {
					continue
				}
				mode, imgs := false, false
				for _, p := range t.Params {
					if types.Identical(p.Type(), c.enum) {
						mode = true
					}
					if isImages(p.Type()) {
						imgs = true
					}
				}
				if !mode || !imgs {
					continue
				}
				for k := 0; k < t.Signature.Results().Len(); k++ {
					if isFloats(t.Signature.Results().At(k).Type()) {
						c.from[t] = true
						if t.Signature.Results().Len() == 1 {
							c.src[call] = true
							continue
						}
						for _, rr := range *call.Referrers() {
							if ex, ok := rr.(*ssa.Extract); ok && ex.Index == k {
								c.src[ex] = true
							}
						}
					}
				}
			}
		}
	}
}

// element loads an expression is computed from, not looking through reductions
func (c *c12) elemLoads(v ssa.Value, seen map[ssa.Value]bool, out *[]*ssa.UnOp, d int) {
	if seen[v] || d > 30 {
		return
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if ia, ok := x.X.(*ssa.IndexAddr); ok {
				*out = append(*out, x)
				c.elemLoads(ia.X, seen, out, d+1)
				return
			}
			if a, ok := x.X.(*ssa.Alloc); ok {
				if s := onlyStore(a); s != nil {
					c.elemLoads(s, seen, out, d+1)
				}
				return
			}
			if fa, ok := x.X.(*ssa.FieldAddr); ok {
				c.elemLoads(fa.X, seen, out, d+1)
				return
			}
			return
		}
		c.elemLoads(x.X, seen, out, d+1)
	case *ssa.BinOp:
		c.elemLoads(x.X, seen, out, d+1)
		c.elemLoads(x.Y, seen, out, d+1)
	case *ssa.Convert:
		c.elemLoads(x.X, seen, out, d+1)
	case *ssa.ChangeType:
		c.elemLoads(x.X, seen, out, d+1)
	case *ssa.Extract:
		c.elemLoads(x.Tuple, seen, out, d+1)
	case *ssa.FieldAddr:
		c.elemLoads(x.X, seen, out, d+1)
	case *ssa.Slice:
		c.elemLoads(x.X, seen, out, d+1)
	case *ssa.Call:
		for _, a := range x.Call.Args {
			c.elemLoads(a, seen, out, d+1)
		}
		if x.Call.IsInvoke() {
			c.elemLoads(x.Call.Value, seen, out, d+1)
		}
	case *ssa.Phi:
		// a choice between values, unless it carries a value around a loop
		for _, l := range loopsOf(x.Parent()) {
			if l.head == x.Block() {
				return
			}
		}
		for _, e := range x.Edges {
			c.elemLoads(e, seen, out, d+1)
		}
	}
}

func loadIdx(u *ssa.UnOp) (base, idx ssa.Value) {
	ia := u.X.(*ssa.IndexAddr)
	return ia.X, ia.Index
}

// weights[i] must be computed from frame i, for all i
func (c *c12) ownFrame(f *ssa.Function) {
	env := newPolyEnv(c.w, nil)
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			st, ok := i.(*ssa.Store)
			if !ok {
				continue
			}
			ia, ok := st.Addr.(*ssa.IndexAddr)
			if !ok || !isFloats(ia.X.Type()) {
				continue
			}
			var loads []*ssa.UnOp
			c.elemLoads(st.Val, map[ssa.Value]bool{}, &loads, 0)
			k := env.of(ia.Index)
			for _, u := range loads {
				base, idx := loadIdx(u)
				if !isImages(base.Type()) {
					continue
				}
				c.r.ob("own-frame", "%s: weight stored at %s", fname(f), c.w.ipos(st))
				if !env.of(idx).eq(k) {
					c.r.bad("own-frame", fname(f)+"|index", c.w.ipos(st), "%s: the weight stored for one frame is computed from another frame (%s vs %s)", fname(f), k, env.of(idx))
				}
			}
			// coverage of all frames
			if iv, ok := induction(ia.Index); ok {
				init, isC := constInt(iv.init)
				if isC && init+iv.off > 0 {
					c.r.bad("own-frame", fname(f)+"|start", c.w.ipos(st), "%s: the loop storing the weights starts at frame %d", fname(f), init+iv.off)
				}
				if iv.inc == nil && iv.step != 1 {
					c.r.bad("own-frame", fname(f)+"|step", c.w.ipos(st), "%s: the loop storing the weights skips frames", fname(f))
				}
				for _, g := range iv.l.guards() {
					bb, off := baseOffset(g.bound)
					if lenOf(bb, func(v ssa.Value) bool { return isImages(v.Type()) || isFloats(v.Type()) }) && g.op == token.LSS && off < 0 {
						c.r.bad("own-frame", fname(f)+"|end", c.w.ipos(st), "%s: the loop storing the weights ends before the last frame", fname(f))
					}
				}
			}
		}
	}
}

// the slice values a slice value is cut from
func chainRoots(v ssa.Value, out map[ssa.Value]bool, seen map[ssa.Value]bool) {
	if seen[v] {
		return
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Slice:
		chainRoots(x.X, out, seen)
		return
	case *ssa.ChangeType:
		chainRoots(x.X, out, seen)
		return
	case *ssa.Phi:
		for _, e := range x.Edges {
			chainRoots(e, out, seen)
		}
		return
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			chainRoots(x.Call.Args[0], out, seen)
			if isNilConst(x.Call.Args[0]) {
				out[x] = true
			}
			return
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if s := singleStore(x.X); s != nil {
				chainRoots(s, out, seen)
				return
			}
		}
	case *ssa.Const:
		return
	}
	out[v] = true
}

func rootsOf(v ssa.Value) map[ssa.Value]bool {
	out := map[ssa.Value]bool{}
	chainRoots(v, out, map[ssa.Value]bool{})
	return out
}

func (c *c12) weightRoot(v ssa.Value) bool {
	for r := range rootsOf(v) {
		if c.src[r] || c.wpar[r] {
			return true
		}
	}
	return false
}

// buffers of f into which weights are copied
func (c *c12) wbuffers(f *ssa.Function) map[ssa.Value]bool {
	res := map[ssa.Value]bool{}
	isW := func(v ssa.Value) bool {
		for r := range rootsOf(v) {
			if c.src[r] || c.wpar[r] || res[r] {
				return true
			}
		}
		return false
	}
	for n := 0; n < 5; n++ {
		before := len(res)
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				switch x := i.(type) {
				case *ssa.Store:
					ia, ok := x.Addr.(*ssa.IndexAddr)
					if !ok || !isFloats(ia.X.Type()) {
						continue
					}
					var loads []*ssa.UnOp
					c.elemLoads(x.Val, map[ssa.Value]bool{}, &loads, 0)
					w, other := false, false
					for _, u := range loads {
						base, _ := loadIdx(u)
						if isW(base) {
							w = true
						} else if isFloats(base.Type()) {
							other = true
						}
					}
					if w && !other {
						for r := range rootsOf(ia.X) {
							res[r] = true
						}
					}
				case *ssa.Call:
					b, ok := x.Call.Value.(*ssa.Builtin)
					if !ok {
						continue
					}
					if b.Name() == "copy" && isFloats(x.Call.Args[0].Type()) && isW(x.Call.Args[1]) {
						for r := range rootsOf(x.Call.Args[0]) {
							res[r] = true
						}
					}
					if b.Name() == "append" && isFloats(x.Type()) && len(x.Call.Args) == 2 {
						for _, el := range variadicElems(x.Call.Args[1]) {
							if u, ok := el.(*ssa.UnOp); ok {
								if ia, ok := u.X.(*ssa.IndexAddr); ok && isW(ia.X) {
									for r := range rootsOf(x) {
										res[r] = true
									}
								}
							}
						}
					}
				}
			}
		}
		if len(res) == before {
			break
		}
	}
	return res
}

// parameters that receive weights, and samples along with them
func (c *c12) propagate() {
	seen := map[*ssa.Function]bool{}
	for changed, n := true, 0; changed && n < 10; n++ {
		changed = false
		for _, f := range c.w.Funcs {
			wb := c.wbuffers(f)
			isW := func(v ssa.Value) bool {
				for r := range rootsOf(v) {
					if c.src[r] || c.wpar[r] || wb[r] {
						return true
					}
				}
				return false
			}
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					ci, ok := i.(ssa.CallInstruction)
					if !ok {
						continue
					}
					cc := ci.Common()
					anyW := false
					for _, a := range cc.Args {
						if isFloats(a.Type()) && isW(a) {
							anyW = true
						}
					}
					if !anyW {
						continue
					}
					for _, t := range c.w.targets(ci) {
						if !seen[t] {
							seen[t] = true
							c.work = append(c.work, t)
						}
						for _, p := range t.Params {
							a := argFor(p, t, ci)
							if a == nil || !isFloats(p.Type()) {
								continue
							}
							if isW(a) && !c.wpar[p] {
								c.wpar[p] = true
								changed = true
							}
						}
					}
				}
			}
		}
	}
}

// ---- lockstep analysis of one function

type c12fn struct {
	*c12
	f    *ssa.Function
	wr   map[ssa.Value]bool // weight roots
	busy map[[2]ssa.Value]bool
	env  *polyEnv
	und  bool
}

func (c *c12) function(f *ssa.Function) {
	x := &c12fn{c12: c, f: f, wr: c.wbuffers(f), busy: map[[2]ssa.Value]bool{}}
	for _, p := range f.Params {
		if c.wpar[p] {
			x.wr[p] = true
		}
	}
	x.env = newPolyEnv(c.w, x.atom)
	products := 0
	pairs := map[[2]ssa.Value]bool{}
	type prod struct {
		v ssa.Value
		w *ssa.UnOp
	}
	var prods []prod
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			mul, ok := i.(*ssa.BinOp)
			if !ok || mul.Op != token.MUL || !isFloatT(mul.Type()) {
				continue
			}
			for side := 0; side < 2; side++ {
				a, o := mul.X, mul.Y
				if side == 1 {
					a, o = o, a
				}
				wl := x.elemLoad(a)
				if wl == nil {
					continue
				}
				wbase, widx := loadIdx(wl)
				if !x.isW(wbase) {
					continue
				}
				sl := x.elemLoad(o)
				if sl == nil {
					continue
				}
				sbase, sidx := loadIdx(sl)
				if x.isW(sbase) {
					continue
				}
				products++
				prods = append(prods, prod{mul, wl})
				c.r.ob("pairing", "%s: product of sample and weight at %s", fname(f), c.w.ipos(mul))
				if msg := x.parallelElem(sbase, sidx, wbase, widx, pairs); msg != "" {
					c.r.bad("pairing", fname(f)+"|product", c.w.ipos(mul), "%s: the sample and the weight multiplied here do not belong to the same frame: %s", fname(f), msg)
				}
				break
			}
		}
	}
	passed := false
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			ci, ok := i.(ssa.CallInstruction)
			if !ok {
				continue
			}
			for _, t := range c.w.targets(ci) {
				for _, p := range t.Params {
					if c.wpar[p] {
						passed = true
						if a := argFor(p, t, ci); a != nil && x.isW(a) {
							x.handOn(ci, t, a, pairs)
						}
					}
				}
			}
		}
	}
	if products == 0 && !passed {
		c.r.bad("pairing", fname(f)+"|unused", c.w.pos(f.Pos()), "%s receives weights but multiplies no sample with them", fname(f))
	}
	done := map[[2]ssa.Value]bool{}
	for n := 0; n < 4; n++ {
		var todo [][2]ssa.Value
		for p := range pairs {
			if !done[p] {
				todo = append(todo, p)
			}
		}
		for _, p := range todo {
			done[p] = true
			x.lockstep(p[0], p[1], pairs)
		}
	}
	for _, p := range prods {
		x.normalised(p.v, p.w)
	}
}

// a call that is handed weights: the samples given to it have to be parallel to them
func (x *c12fn) handOn(ci ssa.CallInstruction, t *ssa.Function, wv ssa.Value, pairs map[[2]ssa.Value]bool) {
	for _, p := range t.Params {
		a := argFor(p, t, ci)
		if a == nil || !isFloats(p.Type()) || x.wpar[p] || !x.multiplied(t, p) {
			continue
		}
		x.r.ob("pairing", "%s: samples and weights handed to %s", fname(x.f), fname(t))
		if msg := x.par(a, wv, pairs); msg != "" {
			x.r.bad("pairing", fname(x.f)+"|handed to "+fname(t), x.w.ipos(ci), "%s: the samples and weights handed to %s are not parallel: %s", fname(x.f), fname(t), msg)
		}
	}
}

// does t multiply elements of parameter p with weights?
func (x *c12fn) multiplied(t *ssa.Function, p *ssa.Parameter) bool {
	for _, b := range t.Blocks {
		for _, i := range b.Instrs {
			if mul, ok := i.(*ssa.BinOp); ok && mul.Op == token.MUL {
				for _, s := range []ssa.Value{mul.X, mul.Y} {
					if u := x.elemLoad(s); u != nil {
						base, _ := loadIdx(u)
						if rootsOf(base)[p] {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

func (x *c12fn) isW(v ssa.Value) bool {
	for r := range rootsOf(v) {
		if x.src[r] || x.wr[r] || x.wpar[r] {
			return true
		}
	}
	return false
}

// v is an element of a slice of floats, possibly converted
func (x *c12fn) elemLoad(v ssa.Value) *ssa.UnOp {
	for {
		switch y := v.(type) {
		case *ssa.Convert:
			v = y.X
			continue
		case *ssa.ChangeType:
			v = y.X
			continue
		case *ssa.UnOp:
			if y.Op != token.MUL {
				return nil
			}
			if ia, ok := y.X.(*ssa.IndexAddr); ok && isFloats(ia.X.Type()) {
				return y
			}
			if s := singleStore(y.X); s != nil {
				v = s
				continue
			}
		}
		return nil
	}
}

// names of lengths of parallel slices coincide
func (x *c12fn) atom(v ssa.Value) (poly, bool) {
	c, ok := v.(*ssa.Call)
	if !ok {
		return nil, false
	}
	b, ok := c.Call.Value.(*ssa.Builtin)
	if !ok || b.Name() != "len" || !isFloats(c.Call.Args[0].Type()) {
		return nil, false
	}
	return x.lenPoly(c.Call.Args[0], 0), true
}

func (x *c12fn) lenPoly(v ssa.Value, d int) poly {
	if d < 10 {
		switch y := v.(type) {
		case *ssa.Slice:
			var hi poly
			if y.High != nil {
				hi = x.env.of(y.High)
			} else {
				hi = x.lenPoly(y.X, d+1)
			}
			if y.Low != nil {
				hi = hi.add(x.env.of(y.Low), -1)
			}
			return hi
		case *ssa.ChangeType:
			return x.lenPoly(y.X, d+1)
		case *ssa.MakeSlice:
			return x.env.of(y.Len)
		case *ssa.Phi:
			// the phi of the parallel weights in the same block gives the name
			for _, i := range y.Block().Instrs {
				p, ok := i.(*ssa.Phi)
				if !ok {
					break
				}
				if p != y && isFloats(p.Type()) && x.isW(p) && !x.isW(y) && x.par(y, p, nil) == "" {
					return poly{"len " + p.Name(): 1}
				}
			}
		case *ssa.Parameter:
			if isFloats(y.Type()) && !x.isW(y) {
				for _, p := range x.f.Params {
					if x.wpar[p] && x.multiplied(x.f, y) {
						return poly{"len " + p.Name(): 1}
					}
				}
			}
		}
	}
	return poly{"len " + v.Name(): 1}
}

// "" if slices s and w hold samples and weights of the same frames in the same order
func (x *c12fn) par(s, w ssa.Value, pairs map[[2]ssa.Value]bool) string {
	k := [2]ssa.Value{s, w}
	if x.busy[k] {
		return ""
	}
	x.busy[k] = true
	defer delete(x.busy, k)
	loaded := func(v ssa.Value) ssa.Value {
		for {
			switch y := v.(type) {
			case *ssa.ChangeType:
				v = y.X
				continue
			case *ssa.UnOp:
				if y.Op == token.MUL {
					if st := singleStore(y.X); st != nil {
						v = st
						continue
					}
				}
			}
			return v
		}
	}
	s, w = loaded(s), loaded(w)
	same := func(a, b ssa.Value) bool {
		if a == nil || b == nil {
			z := func(v ssa.Value) bool { c, ok := constInt2(v); return v == nil || ok && c == 0 }
			return z(a) && z(b)
		}
		return x.env.of(a).eq(x.env.of(b))
	}
	sp, sok := s.(*ssa.Phi)
	wp, wok := w.(*ssa.Phi)
	if sok && wok && sp.Block() == wp.Block() {
		for i := range sp.Edges {
			// on one way the samples were cut, their weights carried on as they are, or the other way around
			a, b := loaded(sp.Edges[i]), loaded(wp.Edges[i])
			_, ca := a.(*ssa.Slice)
			_, cb := b.(*ssa.Slice)
			_, pa := a.(*ssa.Phi)
			_, pb := b.(*ssa.Phi)
			if ca && pb || cb && pa {
				return "one of them is cut without the other"
			}
			if m := x.par(sp.Edges[i], wp.Edges[i], pairs); m != "" {
				return m
			}
		}
		return ""
	}
	ss, sok := s.(*ssa.Slice)
	ws, wok := w.(*ssa.Slice)
	if sok && wok {
		hiS, hiW := ss.High, ws.High
		if !same(ss.Low, ws.Low) {
			return "the samples and the weights are cut differently"
		}
		if (hiS == nil) != (hiW == nil) || hiS != nil && !same(hiS, hiW) {
			if hiS != nil && hiW != nil {
				return "the samples and the weights are cut differently"
			}
		}
		return x.par(ss.X, ws.X, pairs)
	}
	if sok && ss.Low == nil && !wok {
		return x.par(ss.X, w, pairs)
	}
	if wok && ws.Low == nil && !sok {
		return x.par(s, ws.X, pairs)
	}
	sc, sok2 := s.(*ssa.Call)
	wc, wok2 := w.(*ssa.Call)
	if sok2 && wok2 && sc.Block() == wc.Block() && calleeName(&sc.Call) == "builtin.append" && calleeName(&wc.Call) == "builtin.append" {
		if m := x.par(sc.Call.Args[0], wc.Call.Args[0], pairs); m != "" {
			return m
		}
		if len(sc.Call.Args) == 2 && len(wc.Call.Args) == 2 {
			a, b := variadicElems(sc.Call.Args[1]), variadicElems(wc.Call.Args[1])
			if len(a) == 1 && len(b) == 1 {
				return x.parallelValue(a[0], b[0], pairs)
			}
			return x.par(sc.Call.Args[1], wc.Call.Args[1], pairs)
		}
		return ""
	}
	if isNilConst(s) && isNilConst(w) {
		return ""
	}
	_, sm := s.(*ssa.MakeSlice)
	_, wm := w.(*ssa.MakeSlice)
	spm, spo := s.(*ssa.Parameter)
	_, wpo := w.(*ssa.Parameter)
	switch {
	case sm && (wm || wpo), spo && (wm || wpo):
		_ = spm
		if pairs != nil {
			pairs[[2]ssa.Value{s, w}] = true
		}
		return ""
	}
	if phiOrSlice(s) != phiOrSlice(w) {
		return "one of them is cut or moved without the other"
	}
	x.und = true
	return ""
}

func phiOrSlice(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Phi, *ssa.Slice:
		return true
	}
	return false
}

func constInt2(v ssa.Value) (int64, bool) {
	if v == nil {
		return 0, false
	}
	return constInt(v)
}

// is s[si] the sample of the frame whose weight is w[wi]?
func (x *c12fn) parallelElem(s, si, w, wi ssa.Value, pairs map[[2]ssa.Value]bool) string {
	// element of a matrix of samples, one row per frame
	if u, ok := s.(*ssa.UnOp); ok && u.Op == token.MUL {
		if ia, ok := u.X.(*ssa.IndexAddr); ok && (isFloats2(ia.X.Type())) {
			for r := range rootsOf(w) {
				if !x.wpar[r] && !x.src[r] {
					return "the weight is taken from a buffer of selected weights, the sample from the list of all frames"
				}
			}
			if !x.env.of(ia.Index).eq(x.env.of(wi)) {
				return fmt.Sprintf("frame index %s vs %s", x.env.of(ia.Index), x.env.of(wi))
			}
			return ""
		}
	}
	if !x.env.of(si).eq(x.env.of(wi)) {
		return fmt.Sprintf("index %s vs %s", x.env.of(si), x.env.of(wi))
	}
	// selected samples with the list of all weights?
	sbuf, wall := true, true
	for r := range rootsOf(s) {
		if _, ok := r.(*ssa.Parameter); ok {
			sbuf = false
		}
	}
	for r := range rootsOf(w) {
		if !x.wpar[r] && !x.src[r] {
			wall = false
		}
	}
	if sbuf && wall && x.compacted(s) {
		return "samples are selected into a buffer, but the weights are taken from the list of all frames"
	}
	return x.par(s, w, pairs)
}

// is the buffer filled at positions other than the frame index?
func (x *c12fn) compacted(s ssa.Value) bool {
	roots := rootsOf(s)
	for _, b := range x.f.Blocks {
		for _, i := range b.Instrs {
			st, ok := i.(*ssa.Store)
			if !ok {
				continue
			}
			ia, ok := st.Addr.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			hit := false
			for r := range rootsOf(ia.X) {
				if roots[r] {
					hit = true
				}
			}
			if !hit {
				continue
			}
			if fi := x.frameIndex(st.Val); fi != nil && !x.env.of(fi).eq(x.env.of(ia.Index)) {
				return true
			}
		}
	}
	return false
}

// index of the frame a sample is read from directly
func (x *c12fn) frameIndex(v ssa.Value) ssa.Value {
	u := x.elemLoad(v)
	if u == nil {
		return nil
	}
	base, _ := loadIdx(u)
	if uu, ok := base.(*ssa.UnOp); ok && uu.Op == token.MUL {
		if ia, ok := uu.X.(*ssa.IndexAddr); ok && isFloats2(ia.X.Type()) {
			return ia.Index
		}
	}
	return nil
}

func (x *c12fn) parallelValue(sv, wv ssa.Value, pairs map[[2]ssa.Value]bool) string {
	su, wu := x.elemLoad(sv), x.elemLoad(wv)
	if su == nil || wu == nil {
		return ""
	}
	sb, si := loadIdx(su)
	wb, wi := loadIdx(wu)
	return x.parallelElem(sb, si, wb, wi, pairs)
}

// all changes to a buffer of samples and its buffer of weights go together
func (x *c12fn) lockstep(sr, wr ssa.Value, pairs map[[2]ssa.Value]bool) {
	c := x.c12
	in := func(v, root ssa.Value) bool { return rootsOf(v)[root] }
	type elst struct {
		st  *ssa.Store
		ia  *ssa.IndexAddr
		mov *ssa.UnOp // the element stored, if it is one
	}
	var ss, ws []elst
	var scopy, wcopy []*ssa.Call
	for _, b := range x.f.Blocks {
		for _, i := range b.Instrs {
			if st, ok := i.(*ssa.Store); ok {
				if ia, ok := st.Addr.(*ssa.IndexAddr); ok && isFloats(ia.X.Type()) {
					e := elst{st, ia, x.elemLoad(st.Val)}
					if in(ia.X, wr) {
						ws = append(ws, e)
					} else if in(ia.X, sr) {
						ss = append(ss, e)
					}
				}
				continue
			}
			ci, ok := i.(ssa.CallInstruction)
			if !ok {
				continue
			}
			cc := ci.Common()
			if b, ok := cc.Value.(*ssa.Builtin); ok {
				if b.Name() == "copy" {
					if in(cc.Args[0], wr) {
						wcopy = append(wcopy, ci.(*ssa.Call))
					} else if in(cc.Args[0], sr) {
						scopy = append(scopy, ci.(*ssa.Call))
					}
				}
				continue
			}
			// calls that rearrange one of the two
			for k, root := range []ssa.Value{sr, wr} {
				what := []string{"samples", "weights"}[k]
				hit, both := false, false
				for _, a := range cc.Args {
					if isFloats(a.Type()) && in(a, root) {
						hit = true
					}
					if isFloats(a.Type()) && in(a, []ssa.Value{wr, sr}[k]) {
						both = true
					}
				}
				if !hit || both && len(c.w.targets(ci)) > 0 {
					continue
				}
				wr := x.rewrites(ci, root)
				c.r.ob("lockstep", "%s: call of %s with the %s", fname(x.f), calleeName(cc), what)
				if wr {
					c.r.bad("lockstep", fname(x.f)+"|"+what+" rearranged by "+calleeName(cc), c.w.ipos(ci), "%s: %s reorders or changes the %s, which are used with weights in parallel", fname(x.f), calleeName(cc), what)
				}
			}
		}
	}
	moved := func(e elst, k int) bool { // does the store bring in an element of another position?
		if e.mov == nil {
			return false
		}
		b, _ := loadIdx(e.mov)
		if k == 0 {
			return !x.isW(b)
		}
		return x.isW(b)
	}
	match := func(a, b elst, aIsS bool) (string, bool) {
		s, w := a, b
		if !aIsS {
			s, w = b, a
		}
		if !x.env.of(s.ia.Index).eq(x.env.of(w.ia.Index)) {
			return "stored at different positions", false
		}
		if m := x.par(s.ia.X, w.ia.X, pairs); m != "" {
			return m, false
		}
		if s.mov == nil || w.mov == nil {
			return "", true
		}
		sb, si := loadIdx(s.mov)
		wb, wi := loadIdx(w.mov)
		if m := x.parallelElem(sb, si, wb, wi, pairs); m != "" {
			return m, false
		}
		return "", true
	}
	identity := func(e elst) bool {
		fi := x.frameIndex(e.st.Val)
		return fi != nil && x.env.of(fi).eq(x.env.of(e.ia.Index))
	}
	check := func(a []elst, b []elst, aIsS bool, what, other string) {
		for _, e := range a {
			k := 0
			if !aIsS {
				k = 1
			}
			if !moved(e, k) {
				continue
			}
			c.r.ob("lockstep", "%s: store to the %s at %s", fname(x.f), what, c.w.ipos(e.st))
			if aIsS && identity(e) && len(wcopy) > 0 || !aIsS && len(scopy) > 0 {
				continue
			}
			ok, msg, elsewhere := false, "", false
			for _, o := range b {
				if o.st.Block() != e.st.Block() {
					if o.st.Block().Dominates(e.st.Block()) || e.st.Block().Dominates(o.st.Block()) {
						if _, is := match(e, o, aIsS); is {
							elsewhere = true
						}
					}
					continue
				}
				m, is := match(e, o, aIsS)
				if is {
					ok = true
				} else if msg == "" {
					msg = m
				}
			}
			if ok {
				continue
			}
			if elsewhere {
				c.r.undecided("%s: %s: matching store of the %s in another block", fname(x.f), c.w.ipos(e.st), other)
				continue
			}
			if !aIsS && x.wpar[wr] {
				msg = "the list of all weights is overwritten"
			}
			if msg == "" {
				msg = "the " + other + " are left as they are"
			}
			c.r.bad("lockstep", fname(x.f)+"|"+what+" moved", c.w.ipos(e.st), "%s: an element of the %s is moved here without moving the %s along: %s", fname(x.f), what, other, msg)
		}
	}
	check(ss, ws, true, "samples", "weights")
	check(ws, ss, false, "weights", "samples")
	for _, cp := range scopy {
		c.r.ob("lockstep", "%s: copy to the samples", fname(x.f))
		if m := x.par(cp.Call.Args[1], wr, pairs); m != "" {
			// copied from another buffer of samples: parallel to the same weights?
			ok := false
			for p := range pairs {
				if rootsOf(cp.Call.Args[1])[p[0]] && p[1] == wr {
					ok = true
				}
			}
			if !ok {
				x.undecidedAt(cp, m)
			}
		}
	}
}

func (x *c12fn) undecidedAt(i ssa.Instruction, m string) {
	x.r.undecided("%s: %s: %s", fname(x.f), x.w.ipos(i), m)
}

// does the call write elements of the slice rooted at root that it is given?
func (x *c12fn) rewrites(ci ssa.CallInstruction, root ssa.Value) bool {
	for a := range x.e.callWrites(ci) {
		if strings.HasSuffix(a.Path, "[]") && a.Root == root {
			return true
		}
	}
	for _, a := range x.e.directWrites(ci) {
		if a.Root == root {
			return true
		}
	}
	return false
}

// leaves of a sum accumulated in a loop
func addends(v ssa.Value, out map[ssa.Value]bool, seen map[ssa.Value]bool) {
	if seen[v] {
		return
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Phi:
		for _, e := range x.Edges {
			addends(e, out, seen)
		}
		return
	case *ssa.BinOp:
		if x.Op == token.ADD {
			addends(x.X, out, seen)
			addends(x.Y, out, seen)
			return
		}
	case *ssa.Convert:
		if isFloatT(x.X.Type()) {
			addends(x.X, out, seen)
			return
		}
	case *ssa.Const:
		return
	}
	out[v] = true
}

// quotients of a sum of products with weights: the divisor sums up the same weights
func (x *c12fn) normalised(prod ssa.Value, wl *ssa.UnOp) {
	wb, wi := loadIdx(wl)
	for _, b := range x.f.Blocks {
		for _, i := range b.Instrs {
			q, ok := i.(*ssa.BinOp)
			if !ok || q.Op != token.QUO || !isFloatT(q.Type()) {
				continue
			}
			num := map[ssa.Value]bool{}
			addends(q.X, num, map[ssa.Value]bool{})
			if !num[prod] {
				continue
			}
			x.r.ob("normalised", "%s: %s", fname(x.f), x.w.ipos(q))
			den := map[ssa.Value]bool{}
			addends(q.Y, den, map[ssa.Value]bool{})
			good := len(den) > 0
			for d := range den {
				u := x.elemLoad(d)
				if u == nil {
					good = false
					continue
				}
				db, di := loadIdx(u)
				if !x.isW(db) || !sameRoots(db, wb) || !x.env.of(di).eq(x.env.of(wi)) {
					good = false
				}
				// added whenever the product is added
				if u.Block() != prod.(ssa.Instruction).Block() && !u.Block().Dominates(prod.(ssa.Instruction).Block()) {
					good = false
				}
			}
			if len(num) != len(den) {
				good = false
			}
			if !good {
				if _, isCall := q.Y.(*ssa.Call); isCall {
					x.r.undecided("%s: divisor computed by a call at %s", fname(x.f), x.w.ipos(q))
					continue
				}
				x.r.bad("normalised", fname(x.f)+"|divisor", x.w.ipos(q), "%s: the weighted sum is not divided by the sum of the same weights", fname(x.f))
			}
		}
	}
}

func sameRoots(a, b ssa.Value) bool {
	x, y := rootsOf(a), rootsOf(b)
	for r := range x {
		if y[r] {
			return true
		}
	}
	return false
}

// ---- every mode uses the weights, or fails

func (c *c12) applied() {
	for _, f := range c.w.Funcs {
		var srcCall *ssa.Call
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if call, ok := i.(*ssa.Call); ok && call.Call.StaticCallee() != nil && c.from[call.Call.StaticCallee()] {
					srcCall = call
				}
			}
		}
		if srcCall == nil || f.Signature.Recv() == nil {
			continue
		}
		st, ok := deref(f.Params[0].Type()).Underlying().(*types.Struct)
		if !ok {
			continue
		}
		// fields of the operator holding modes
		wfield := ""
		var mfields []string
		var mtypes []*types.Named
		for k := 0; k < st.NumFields(); k++ {
			if types.Identical(st.Field(k).Type(), c.enum) {
				wfield = st.Field(k).Name()
			} else if n, ok := st.Field(k).Type().(*types.Named); ok && len(enumConsts(n)) > 1 {
				mfields = append(mfields, st.Field(k).Name())
				mtypes = append(mtypes, n)
			}
		}
		if wfield == "" || len(mfields) != 1 {
			c.r.undecided("%s: operator fields selecting modes not recognised", fname(f))
			continue
		}
		// does the image list change after the weights were computed, or rows get mixed up?
		for _, wk := range enumConsts(c.enum) {
			if c.givesNone(srcCall.Call.StaticCallee(), wk) {
				continue
			}
			for _, mk := range enumConsts(mtypes[0]) {
				c.appliedFor(f, wfield, wk, mfields[0], mk)
			}
		}
		c.rows(f)
	}
}

// does the weighting mode stand for no weights?
func (c *c12) givesNone(t *ssa.Function, k *types.Const) bool {
	ai := newAI(c.w)
	ai.maxDepth = 1
	rets := ai.run(t, func(st *aState, key func(p *ssa.Parameter) string) {
		for _, p := range t.Params {
			if types.Identical(p.Type(), c.enum) {
				st.vals[p] = vconst(k.Val())
			}
		}
	})
	for _, r := range rets {
		for j, v := range r.vals {
			if isFloats(t.Signature.Results().At(j).Type()) && !v.only(vNil) {
				return false
			}
		}
	}
	return true
}

func (c *c12) appliedFor(f *ssa.Function, wfield string, wk *types.Const, mfield string, mk *types.Const) {
	ai := newAI(c.w)
	recv := f.Params[0]
	reported := map[ssa.Instruction]bool{}
	kernels := 0
	ai.visit = func(fr *aFrame, i ssa.Instruction, st *aState) {
		ci, ok := i.(ssa.CallInstruction)
		if !ok {
			return
		}
		cc := ci.Common()
		rows := false
		for _, a := range cc.Args {
			if isFloats2(a.Type()) {
				rows = true
			}
		}
		if !rows || len(c.w.targets(ci)) == 0 {
			return
		}
		if _, ok := cc.Value.(*ssa.MakeClosure); ok {
			return
		}
		kernels++
		for _, a := range cc.Args {
			if isFloats(a.Type()) && c.weightRoot(a) {
				return
			}
		}
		// passes the weights on in another way?
		for _, t := range c.w.targets(ci) {
			for _, p := range t.Params {
				if types.Identical(p.Type(), c.enum) {
					return
				}
			}
		}
		if !reported[i] {
			reported[i] = true
			c.r.bad("applied", fmt.Sprintf("%s|%s with %s", fname(f), wk.Name(), mk.Name()), c.w.ipos(i), "%s: with weighting %s and mode %s, %s is called without the weights, which are silently ignored", fname(f), wk.Name(), mk.Name(), calleeName(cc))
		}
	}
	ai.run(f, func(st *aState, key func(p *ssa.Parameter) string) {
		st.vals[recv] = vtag(vNonNil)
		st.locs[key(recv)+"."+wfield] = vconst(wk.Val())
		st.locs[key(recv)+"."+mfield] = vconst(mk.Val())
	})
	if ai.over {
		c.r.undecided("%s: analysis of mode %s did not finish", fname(f), mk.Name())
	}
	c.r.ob("applied", "%s: weighting %s with mode %s: %d calls of stacking functions reachable", fname(f), wk.Name(), mk.Name(), kernels)
}

// the rows of the sample matrix are in the order of the frames the weights were computed for
func (c *c12) rows(f *ssa.Function) {
	fs := []*ssa.Function{f}
	fs = append(fs, f.AnonFuncs...)
	for _, g := range fs {
		env := newPolyEnv(c.w, nil)
		for _, b := range g.Blocks {
			for _, i := range b.Instrs {
				st, ok := i.(*ssa.Store)
				if !ok {
					continue
				}
				ia, ok := st.Addr.(*ssa.IndexAddr)
				if !ok || !isFloats2(ia.X.Type()) {
					continue
				}
				var loads []*ssa.UnOp
				c.elemLoads(st.Val, map[ssa.Value]bool{}, &loads, 0)
				for _, u := range loads {
					base, idx := loadIdx(u)
					if !isImages(base.Type()) {
						continue
					}
					c.r.ob("own-frame", "%s: row of samples at %s", fname(g), c.w.ipos(st))
					if !env.of(idx).eq(env.of(ia.Index)) {
						c.r.bad("own-frame", fname(g)+"|rows", c.w.ipos(st), "%s: the samples of a frame are stored at the position of another frame", fname(g))
					}
				}
			}
		}
		for _, b := range g.Blocks {
			for _, i := range b.Instrs {
				// reordering of the frames after computing their weights
				var hit bool
				switch x := i.(type) {
				case *ssa.Store:
					if ia, ok := x.Addr.(*ssa.IndexAddr); ok && isImages(ia.X.Type()) {
						if _, fresh := ia.X.(*ssa.MakeSlice); !fresh {
							hit = true
						}
					}
				case ssa.CallInstruction:
					for a := range c.e.callWrites(x) {
						if p, ok := a.Root.(*ssa.Parameter); ok && isImages(p.Type()) && a.Path == "[]" && p.Parent() == f {
							hit = true
						}
					}
				}
				if hit && c.afterWeights(f, g, i) {
					c.r.bad("own-frame", fname(g)+"|frames reordered", c.w.ipos(i), "%s: the list of frames is changed after the weights were computed", fname(g))
				}
			}
		}
	}
}

func (c *c12) afterWeights(f, g *ssa.Function, i ssa.Instruction) bool {
	if f != g {
		return true
	}
	for v := range c.src {
		vi := v.(ssa.Instruction)
		if vi.Parent() != f {
			continue
		}
		if vi.Block() == i.Block() {
			for _, x := range i.Block().Instrs {
				if x == vi {
					return true
				}
				if x == i {
					break
				}
			}
		} else if vi.Block().Dominates(i.Block()) {
			return true
		}
	}
	return false
}

var _ = constant.MakeBool

func init() {
	register("C12", "Traces weights from the function computing them to every product with a sample. Buffers of samples and weights must be filled, moved and cut in lockstep, no call may permute one of them alone, sums are divided by the sum of the same weights, and a value-set analysis of the stacking operator for each combination of weighting and stacking mode shows that the weights reach the stacking function or the operator fails.", runC12)
}
