package main

import (
	"fmt"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C27: splitting an image into work packages.
//
// For every goroutine started in a loop, the parts of buffers it is given (slices taken at the start of the goroutine
// or inside it, ranges of an inner loop) are expressed as linear forms over the loop variable. Each package has to start
// where the previous one ended, the first at the start of the region, the last has to end at its end, regions of the
// same buffer have to be adjacent and cover it, and the step from package to package has to be proved positive.

func init() {
	register("C27", "parallel decomposition: for every goroutine started per work package, the packages are proved adjacent (end of one is start of the next), complete (first starts at zero, last is cut at the total), regions of a buffer adjacent and covering it, and the package size positive for every image size", runC27)
}

type pkgRange struct {
	buf   cx
	key   string // identity of buf
	off   poly   // offset of the sliced value in its buffer
	low   poly
	high  cx
	pos   string
	write bool
	inst  ssa.Instruction
}

func runC27(w *World, r *Report) {
	r.rule("adjacent", "a work package ends where the next one starts", 5)
	r.rule("complete", "the first package starts at the start and the last ends at the end of the data", 5)
	r.rule("regions", "the regions of one buffer handed to a goroutine are adjacent, distinct and together the whole buffer", 4)
	r.rule("progress", "the package size is positive whatever the size of the image", 5)
	for _, f := range w.Funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				g, ok := i.(*ssa.Go)
				if !ok {
					continue
				}
				c27Go(w, r, f, g)
			}
		}
	}
}

func c27Go(w *World, r *Report, f *ssa.Function, g *ssa.Go) {
	l := loopOf(g.Block())
	if l == nil {
		return
	}
	where := fname(f)
	ce := newCeval(w)
	ce.stable = true
	root := ce.root(f)
	t, mc := ce.callee(g, root)
	var ps []*pkgRange
	// induction variables of the loops around the goroutine
	loops := map[*loop]bool{}
	for x := l; x != nil; x = loopOuter(x) {
		loops[x] = true
	}
	varying := func(p poly) *ssa.Phi {
		for m := range p {
			for _, n := range strings.Split(m, "*") {
				if u := ce.units[n]; u != nil && loops[u.l] && u.e == root {
					return u.iv.phi
				}
				if x, ok := ce.info[n]; ok {
					if ph, ok := x.v.(*ssa.Phi); ok && x.e == root {
						if iv, ok := induction(ph); ok && loops[iv.l] {
							return ph
						}
					}
				}
			}
		}
		return nil
	}
	add := func(s *ssa.Slice, e *cenv) {
		if s.Low == nil && s.High == nil {
			return
		}
		low := poly{}
		if s.Low != nil {
			low = ce.lin(cx{s.Low, e})
		}
		var hp poly
		if s.High != nil {
			hp = ce.lin(cx{s.High, e})
		}
		if varying(low) == nil && varying(hp) == nil {
			return
		}
		buf, off := ce.buffer(cx{s.X, e})
		p := &pkgRange{buf: buf, off: off, low: low, pos: w.ipos(s), inst: s}
		if s.High != nil {
			p.high = cx{s.High, e}
		}
		ps = append(ps, p)
	}
	// slices taken when the goroutine is started
	for _, b := range f.Blocks {
		if !l.body[b] {
			continue
		}
		for _, i := range b.Instrs {
			if s, ok := i.(*ssa.Slice); ok {
				if st, ok := s.Type().Underlying().(*types.Slice); ok && isNum(st.Elem()) {
					add(s, root)
				}
			}
		}
	}
	if t != nil && w.inMod[t] && len(t.Blocks) > 0 {
		env := ce.env(t, g, root, mc)
		ce.explore(env, func(i ssa.Instruction, e *cenv) {
			if s, ok := i.(*ssa.Slice); ok {
				add(s, e)
			}
			// inner loop over a range of the data
			ph, ok := i.(*ssa.Phi)
			if !ok {
				return
			}
			iv, ok := induction(ph)
			if !ok || iv.phi != ph || iv.inc != nil || iv.step != 1 {
				return
			}
			low := ce.lin(cx{iv.init, e})
			if varying(low) == nil {
				return
			}
			for _, gd := range iv.l.guards() {
				if gd.x.phi == ph && gd.op == token.LSS && gd.x.off == 0 {
					p := &pkgRange{low: low, high: cx{gd.bound, e}, off: poly{}, pos: w.ipos(gd.iff), inst: ph}
					// what it indexes
					for _, rf := range *ph.Referrers() {
						if ix, ok := rf.(*ssa.IndexAddr); ok && ix.Index == ssa.Value(ph) {
							p.buf, p.off = ce.buffer(cx{ix.X, e})
							for _, rr := range *ix.Referrers() {
								if st, ok := rr.(*ssa.Store); ok && st.Addr == ssa.Value(ix) {
									p.write = true
								}
							}
							if p.write {
								break
							}
						}
					}
					ps = append(ps, p)
				}
			}
		})
	}
	if len(ps) == 0 {
		return
	}
	type region struct {
		offs map[string]poly
		n    poly
		pos  string
	}
	regions := map[string]*region{}
	var keys []string
	matched := false
	for _, p := range ps {
		if p.buf.v != nil {
			p.key = ce.place(p.buf, 0)
		}
	}
	for k, p := range ps {
		key := fmt.Sprintf("%s|%d", where, k)
		ph := varying(p.low)
		if ph == nil {
			if kk, ok := p.low.konst(); ok && kk == 0 && p.high.v != nil {
				continue // a growing prefix: not a package
			}
			r.undecided("%s %s: start of the work package", where, p.pos)
			continue
		}
		iv, _ := induction(ph)
		phip := poly{}
		for m := range p.low {
			for _, n := range strings.Split(m, "*") {
				if x, ok := ce.info[n]; ok && x.v == ssa.Value(ph) {
					phip = poly{n: 1}
				}
				if u := ce.units[n]; u != nil && u.iv.phi == ph {
					phip = poly{n: float64(u.step)}
				}
			}
		}
		// step of the loop variable
		var S poly
		var sv cx
		if iv.inc != nil {
			S = ce.lin(cx{iv.inc, root})
			sv = cx{iv.inc, root}
		} else {
			S = constPoly(float64(iv.step))
		}
		init := ce.lin(cx{iv.init, root})
		if len(phip) == 1 {
			for n := range phip {
				if ce.units[n] == nil {
					init = poly{}.add(init, 1)
				} else {
					init = ce.lin(cx{iv.init, root})
				}
			}
		}
		// package start = factor * loop variable + rest
		rest := p.low.add(phip, -1)
		factor := constPoly(1)
		if varying(rest) != nil {
			// a multiple of the package number
			var fac poly
			rest, fac = poly{}, poly{}
			bad := false
			for m, c := range p.low {
				ns := strings.Split(m, "*")
				hit := -1
				for j, n := range ns {
					if phip[n] != 0 {
						if hit >= 0 {
							bad = true
						}
						hit = j
					}
				}
				if hit < 0 {
					rest[m] = c
					continue
				}
				o := append(append([]string{}, ns[:hit]...), ns[hit+1:]...)
				fac[strings.Join(o, "*")] += c / phip[ns[hit]]
			}
			if bad || len(fac) == 0 {
				r.undecided("%s %s: start of the work package %s", where, p.pos, c27Show(ce, w, p.low))
				continue
			}
			factor = fac
		}
		step := S.mul(factor)
		if len(phip) == 1 {
			for n := range phip {
				if ce.units[n] != nil {
					// the unit counts iterations; its coefficient is the step
					rest = rest.add(init, -1)
				}
			}
		}
		if p.high.v == nil {
			r.undecided("%s %s: end of the work package", where, p.pos)
			continue
		}
		U, caps, ok := c27End(ce, p.high, p.low, step)
		if !ok {
			r.undecided("%s %s: end of the work package", where, p.pos)
			continue
		}
		// adjacency
		if d := U.add(p.low, -1).add(step, -1); len(d) != 0 {
			if c27Definite(ce, d) {
				r.bad("adjacent", key, p.pos, "a work package starts %s after the previous one but is %s long: pixels are processed twice or not at all", c27Show(ce, w, step), c27Show(ce, w, U.add(p.low, -1)))
			} else {
				r.undecided("%s %s: package length %s, step %s", where, p.pos, c27Show(ce, w, U.add(p.low, -1)), c27Show(ce, w, step))
			}
			continue
		}
		r.ob("adjacent", "%s %s: length equals the step", where, p.pos)
		// completeness
		N, ok := c27Bound(ce, iv, phip, init, root)
		if !ok {
			r.undecided("%s %s: bound of the loop variable", where, p.pos)
			continue
		}
		byCount := len(factor) != 1 || factor[""] != 1
		if !byCount {
			if kk, ok := init.konst(); ok && kk != 0 {
				r.bad("complete", key+"|first", p.pos, "the first work package starts at %g, not at zero", kk)
				continue
			} else if !ok {
				r.undecided("%s %s: start of the first package", where, p.pos)
				continue
			}
			if len(caps) == 0 {
				if !c27Multiple(N, step) {
					r.bad("complete", key+"|last", p.pos, "the last work package is not cut at the end of the data: it ends beyond it unless the size is a multiple of %s", c27Show(ce, w, step))
					continue
				}
			}
			fail := false
			for _, c := range caps {
				d := c.cap.add(rest, -1).add(N, -1)
				if len(d) != 0 {
					fail = true
					if c27Definite(ce, d) || c27Const(d) || c27OfStep(d, step) {
						r.bad("complete", key+"|last", p.pos, "work packages run as long as they start before %s, but the last is cut at %s", c27Show(ce, w, N), c27Show(ce, w, c.cap.add(rest, -1)))
					} else {
						r.undecided("%s %s: packages up to %s, cut at %s", where, p.pos, c27Show(ce, w, N), c27Show(ce, w, c.cap.add(rest, -1)))
					}
					continue
				}
				if c.wrong != "" {
					fail = true
					r.bad("complete", key+"|cut", p.pos, "%s", c.wrong)
				}
			}
			if fail {
				continue
			}
		} else {
			// package number below a count
			if kk, ok := init.konst(); !ok || kk != 0 {
				r.undecided("%s %s: numbering of the packages", where, p.pos)
				continue
			}
			// total: what the end is cut at, or, if it is not cut, the length of the buffer
			if len(caps) == 0 {
				r.undecided("%s %s: packages counted up to %s are not cut at the end of the data", where, p.pos, c27Show(ce, w, N))
				continue
			}
			cnt := N
			N = caps[0].cap.add(rest, -1)
			if last := caps[0].last; last {
				r.ob("complete", "%s %s: the last package extends to the end", where, p.pos)
			} else if c27Floor(ce, factor, N, cnt) {
				r.bad("complete", key+"|rest", p.pos, "%s packages of the rounded down size %s do not reach the end of the data", c27Show(ce, w, cnt), c27Show(ce, w, factor))
				continue
			} else {
				r.undecided("%s %s: %s packages of %s cover the data", where, p.pos, c27Show(ce, w, cnt), c27Show(ce, w, factor))
				continue
			}
		}
		r.ob("complete", "%s %s: from zero to %s", where, p.pos, c27Show(ce, w, N))
		// progress
		if sv.v != nil && !byCount {
			ok, definite := c27Positive(w, ce, sv, g.Block(), 0)
			switch {
			case ok:
				r.ob("progress", "%s: step %s", where, c27Show(ce, w, S))
			case definite, c27Witness(sv.v):
				r.bad("progress", where+"|step", p.pos, "the package size %s is zero (or undefined) for small images: the loop never ends", c27Show(ce, w, S))
			default:
				r.undecided("%s %s: package size %s positive", where, p.pos, c27Show(ce, w, S))
			}
		} else if k, ok := S.konst(); ok && k > 0 {
			r.ob("progress", "%s: step %g", where, k)
		}
		// regions
		if p.buf.v != nil {
			rg := regions[p.key]
			if rg == nil {
				rg = &region{offs: map[string]poly{}, n: N, pos: p.pos}
				regions[p.key] = rg
				keys = append(keys, p.key)
			}
			if _, isS := p.inst.(*ssa.Slice); !isS && len(N) == 1 {
				// an index range up to the length of some data
				for m := range N {
					for k, n := range ce.names {
						if n == m && strings.HasPrefix(k, "len ") {
							matched = true
						}
					}
				}
			}
			if !rg.n.eq(N) {
				r.undecided("%s %s: packages of one buffer from different totals", where, p.pos)
			}
			if _, dup := rg.offs[rest.String()]; dup && p.inst.Parent() == f {
				r.bad("regions", where+"|"+c27Show(ce, w, rest), p.pos, "the same part of the data is handed to a goroutine twice")
			}
			rg.offs[rest.String()] = rest
		}
	}
	for _, kv := range keys {
		rg := regions[kv]
		// length of the buffer
		var Ls []poly
		for _, p := range ps {
			if p.key == kv {
				Ls = c27Len(ce, p)
				break
			}
		}
		var offs []float64
		odd := false
		n, _ := c27Ratio(rg.n, rg.n)
		_ = n
		for _, o := range rg.offs {
			if len(o) == 0 {
				offs = append(offs, 0)
				continue
			}
			q, ok := c27Ratio(o, rg.n)
			if !ok {
				odd = true
				if c27Const(o) {
					r.bad("regions", where+"|offset", rg.pos, "work packages start at an offset of %s into the data", c27Show(ce, w, o))
				}
				continue
			}
			offs = append(offs, q)
		}
		if odd {
			r.undecided("%s %s: regions of the buffer", where, rg.pos)
			continue
		}
		sort.Float64s(offs)
		k := float64(len(offs))
		gap := false
		for j, o := range offs {
			if o != float64(j) {
				gap = true
			}
		}
		if gap {
			r.bad("regions", where+"|gap", rg.pos, "the regions handed to a goroutine start at multiples %v of the region size: not adjacent from the start of the data", offs)
			continue
		}
		// total
		hit := false
		for _, L := range Ls {
			if k == 1 && L.eq(rg.n) || ce.quot(L, k).eq(rg.n) {
				hit = true
			}
		}
		if hit {
			matched = true
			r.ob("regions", "%s %s: %d region(s) of %s", where, rg.pos, len(offs), c27Show(ce, w, rg.n))
			continue
		}
		for _, L := range Ls {
			// another rounding of the same length
			for j := 1.0; j <= 8; j++ {
				if j != k && ce.quot(L, j).eq(rg.n) {
					r.bad("regions", where+"|total", rg.pos, "the packages cover %g region(s) of %s, but the data consists of %g", k, c27Show(ce, w, rg.n), j)
				}
			}
			if c27Const(L.add(rg.n, -k)) {
				r.bad("regions", where+"|total", rg.pos, "the packages cover %s of %s pixels", c27Show(ce, w, rg.n), c27Show(ce, w, L))
			}
		}
	}
	if !matched && len(keys) > 0 {
		r.undecided("%s: the total of the packages is the length of a buffer", where)
	}
	// the part of the image the packages are taken from
	done := map[string]bool{}
	for _, p := range ps {
		if len(p.off) == 0 || done[p.off.String()] {
			continue
		}
		done[p.off.String()] = true
		for _, kv := range keys {
			if kv != p.key {
				continue
			}
			if _, ok := c27Factor(p.off, regions[kv].n); ok {
				r.ob("regions", "%s %s: part of the buffer at %s", where, p.pos, c27Show(ce, w, p.off))
			} else {
				o, n := p.off, regions[kv].n.add(poly{}, 1)
				if n[""] != 0 {
					delete(n, "")
					if _, ok := c27Factor(o, n); ok && len(n) > 0 {
						o = poly{"": 1}
					}
				}
				for x := range o {
					if x == "" {
						r.bad("regions", where+"|part", p.pos, "the data processed starts at %s, which is not a multiple of its length %s", c27Show(ce, w, p.off), c27Show(ce, w, regions[kv].n))
					}
				}
			}
		}
	}
}

type c27Cap struct {
	cap   poly
	wrong string
	last  bool // chosen for the last package number
}

// the loop goes on while the loop variable is less than the result
func c27Bound(ce *ceval, iv indvar, phip, init poly, root *cenv) (poly, bool) {
	var N poly
	for _, e := range iv.l.exits() {
		iff, ok := e.from.Instrs[len(e.from.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		c, neg := stripNot(iff.Cond)
		b, ok := c.(*ssa.BinOp)
		if !ok || !isInt(b.X.Type()) {
			continue
		}
		op := b.Op
		if neg {
			op = negOp(op)
		}
		if e.k == 0 {
			op = negOp(op)
		}
		// X-Y op 0, stays in the loop
		d := ce.lin(cx{b.X, root}).add(ce.lin(cx{b.Y, root}), -1)
		pos, minus := d.add(phip, -1), d.add(phip, 1)
		if sharesAtom(pos, phip) {
			pos = nil
		}
		if sharesAtom(minus, phip) {
			minus = nil
		}
		var n poly
		switch {
		case pos != nil: // v + pos op 0
			n = poly{}.add(pos, -1)
		case minus != nil: // minus - v op 0
			n = minus
			op = flipOp(op)
		default:
			continue
		}
		switch op {
		case token.LSS, token.NEQ:
		case token.LEQ:
			n = n.add(constPoly(1), 1)
		default:
			return nil, false
		}
		if len(phip) == 1 {
			for a := range phip {
				if ce.units[a] != nil {
					n = n.add(init, 1)
				}
			}
		}
		if N != nil {
			return nil, false
		}
		N = n
	}
	return N, N != nil
}

// only the package size is in the way
func c27OfStep(d, step poly) bool {
	if len(d) == 0 {
		return false
	}
	n := 0
	for m := range d {
		if m == "" {
			continue
		}
		n++
		if step[m] == 0 {
			return false
		}
	}
	return n > 0
}

// is the package size zero, or its computation impossible, for some small image
func c27Witness(v ssa.Value) bool {
	for n := int64(1); n <= 6; n++ {
		for _, cpu := range []int64{1, 2, 4, 8} {
			x, ok, div0 := c27Fold(v, n, cpu, 0)
			if ok && x <= 0 || div0 {
				return true
			}
		}
	}
	return false
}

// value of an expression for data of the given length and number of processors
func c27Fold(v ssa.Value, n, cpu int64, d int) (x int64, ok, div0 bool) {
	if d > 30 {
		return 0, false, false
	}
	if k, ok := constInt(v); ok {
		return k, true, false
	}
	switch y := v.(type) {
	case *ssa.Convert:
		if isInt(y.X.Type()) && isInt(y.Type()) {
			return c27Fold(y.X, n, cpu, d+1)
		}
	case *ssa.UnOp:
		if y.Op == token.MUL {
			if s := singleStore(y.X); s != nil {
				return c27Fold(s, n, cpu, d+1)
			}
		}
	case *ssa.Call:
		if b, ok := y.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			return n, true, false
		}
		switch calleeName(y.Common()) {
		case "runtime.NumCPU", "runtime.GOMAXPROCS":
			return cpu, true, false
		}
	case *ssa.BinOp:
		a, ok1, z1 := c27Fold(y.X, n, cpu, d+1)
		b, ok2, z2 := c27Fold(y.Y, n, cpu, d+1)
		if z1 || z2 {
			return 0, false, true
		}
		if !ok1 || !ok2 {
			return 0, false, false
		}
		switch y.Op {
		case token.ADD:
			return a + b, true, false
		case token.SUB:
			return a - b, true, false
		case token.MUL:
			return a * b, true, false
		case token.QUO:
			if b == 0 {
				return 0, false, true
			}
			return a / b, true, false
		case token.SHR:
			return a >> uint(b), true, false
		case token.SHL:
			return a << uint(b), true, false
		}
	case *ssa.Phi:
		// a test with two outcomes
		b := y.Block()
		id := b.Idom()
		if id == nil || len(y.Edges) != 2 || loopOf(b) != nil && loopOf(b).head == b {
			break
		}
		iff, isIf := id.Instrs[len(id.Instrs)-1].(*ssa.If)
		if !isIf {
			break
		}
		c, neg := stripNot(iff.Cond)
		bo, isB := c.(*ssa.BinOp)
		if !isB || !isInt(bo.X.Type()) {
			break
		}
		p, ok1, z1 := c27Fold(bo.X, n, cpu, d+1)
		q, ok2, z2 := c27Fold(bo.Y, n, cpu, d+1)
		if z1 || z2 {
			return 0, false, true
		}
		if !ok1 || !ok2 {
			break
		}
		truth := map[token.Token]bool{token.LSS: p < q, token.LEQ: p <= q, token.GTR: p > q, token.GEQ: p >= q, token.EQL: p == q, token.NEQ: p != q}[bo.Op] != neg
		k := 1
		if truth {
			k = 0
		}
		for j, pr := range b.Preds {
			if pr == id && id.Succs[k] == b || id.Succs[k] == pr && len(pr.Preds) == 1 {
				return c27Fold(y.Edges[j], n, cpu, d+1)
			}
		}
	}
	return 0, false, false
}

// an end of a package, possibly offset from the end of another
func c27End(ce *ceval, x cx, low, step poly) (U poly, caps []c27Cap, ok bool) {
	q := ce.lin(x)
	for m, c := range q {
		i, found := ce.info[m]
		if !found || c != 1 {
			continue
		}
		if _, isPhi := i.v.(*ssa.Phi); !isPhi && !strings.HasPrefix(fmt.Sprintf("%T", i.v), "*ssa.Call") {
			continue
		}
		rest := q.add(poly{m: 1}, -1)
		U, caps, ok := c27Min(ce, i, low.add(rest, -1), step, 0)
		if !ok {
			return nil, nil, false
		}
		if len(caps) == 0 {
			continue
		}
		for k := range caps {
			caps[k].cap = caps[k].cap.add(rest, 1)
		}
		return U.add(rest, 1), caps, true
	}
	return c27Min(ce, x, low, step, 0)
}

// an end of a package: low+step, possibly cut
func c27Min(ce *ceval, x cx, low, step poly, d int) (U poly, caps []c27Cap, ok bool) {
	x = ce.strip(x)
	ph, isPhi := x.v.(*ssa.Phi)
	if !isPhi || loopOf(ph.Block()) != nil && loopOf(ph.Block()).head == ph.Block() {
		if cl, ok := x.v.(*ssa.Call); ok {
			if b, ok := cl.Call.Value.(*ssa.Builtin); ok && b.Name() == "min" && len(cl.Call.Args) == 2 {
				a, b := ce.lin(cx{cl.Call.Args[0], x.e}), ce.lin(cx{cl.Call.Args[1], x.e})
				if b.add(low, -1).eq(step) {
					a, b = b, a
				}
				return a, []c27Cap{{cap: b}}, true
			}
		}
		return ce.lin(x), nil, true
	}
	if len(ph.Edges) != 2 || d > 2 {
		return nil, nil, false
	}
	// diamond or triangle with a single test
	b := ph.Block()
	id := b.Idom()
	iff, isIf := id.Instrs[len(id.Instrs)-1].(*ssa.If)
	if !isIf {
		return nil, nil, false
	}
	side := func(p *ssa.BasicBlock) int {
		for k, s := range id.Succs {
			if p == id && s == b || s == p && len(s.Preds) == 1 && s != b {
				return k
			}
		}
		return -1
	}
	k0, k1 := side(b.Preds[0]), side(b.Preds[1])
	if k0 < 0 || k1 < 0 || k0 == k1 {
		return nil, nil, false
	}
	val := [2]poly{}
	val[k0], val[k1] = ce.lin(cx{ph.Edges[0], x.e}), ce.lin(cx{ph.Edges[1], x.e})
	// which one is low+step
	u := -1
	for k := 0; k < 2; k++ {
		if val[k].add(low, -1).eq(step) {
			u = k
		}
	}
	cond, neg := stripNot(iff.Cond)
	bo, isB := cond.(*ssa.BinOp)
	if !isB {
		return nil, nil, false
	}
	op := bo.Op
	if neg {
		op = negOp(op)
	}
	X, Y := ce.lin(cx{bo.X, x.e}), ce.lin(cx{bo.Y, x.e})
	if u < 0 {
		// neither: the one that takes part in the comparison
		for k := 0; k < 2; k++ {
			if val[k].eq(X) || val[k].eq(Y) {
				if !val[1-k].eq(X) && !val[1-k].eq(Y) {
					u = k
				}
			}
		}
		if u < 0 {
			// the one depending on the start of the package
			for k := 0; k < 2; k++ {
				if sharesAtom(val[k], low) && !sharesAtom(val[1-k], low) {
					u = k
				}
			}
		}
		if u < 0 {
			return nil, nil, false
		}
	}
	U = val[u]
	c := c27Cap{cap: val[1-u]}
	// condition under which the cap is chosen, as  U op T
	capOp := op
	if u == 0 {
		capOp = negOp(op)
	}
	T := Y
	switch {
	case X.add(U, -1).eq(poly{}):
	case Y.add(U, -1).eq(poly{}):
		T = X
		capOp = flipOp(capOp)
	default:
		// by package number
		if capOp == token.EQL && (sharesAtom(X, low) || sharesAtom(Y, low)) {
			c.last = true
			return U, []c27Cap{c}, true
		}
		if capOp == token.EQL || capOp == token.NEQ {
			return nil, nil, false
		}
		// e.g. lower+size compared in another arrangement
		d := X.add(Y, -1) // X-Y op 0
		if d.add(U, -1).add(c.cap, 1).eq(poly{}) {
			T = c.cap
		} else if d.add(U, 1).add(c.cap, -1).eq(poly{}) {
			T = c.cap
			capOp = flipOp(capOp)
		} else {
			return nil, nil, false
		}
	}
	diff := T.add(c.cap, -1)
	switch capOp {
	case token.GTR: // cut if U > T
		if k, ok := diff.konst(); ok && (k == 0 || k == -1) {
		} else if ok && k > 0 {
			c.wrong = "the end of a work package is only cut if it lies beyond the end of the data by some pixels"
		} else if ok {
			c.wrong = "the end of a work package is moved to the end of the data although the package ends before it: pixels are processed twice"
		} else {
			return nil, nil, false
		}
	case token.GEQ:
		if k, ok := diff.konst(); ok && (k == 0 || k == 1) {
		} else if ok {
			c.wrong = "the end of a work package is cut under a condition that does not match the end of the data"
		} else {
			return nil, nil, false
		}
	case token.LSS, token.LEQ:
		if k, ok := diff.konst(); ok && k == 0 {
			c.wrong = "the later instead of the earlier of package end and end of data is chosen"
		} else {
			return nil, nil, false
		}
	default:
		return nil, nil, false
	}
	return U, []c27Cap{c}, true
}

func sharesAtom(p, q poly) bool {
	in := map[string]bool{}
	for m := range p {
		for _, n := range strings.Split(m, "*") {
			in[n] = true
		}
	}
	for m := range q {
		for _, n := range strings.Split(m, "*") {
			if n != "" && in[n] {
				return true
			}
		}
	}
	return false
}

func c27Const(d poly) bool { k, ok := d.konst(); return ok && k != 0 }

// a difference that cannot vanish for all inputs: a number, or a quantity all of whose parts are sizes
func c27Definite(ce *ceval, d poly) bool {
	if c27Const(d) {
		return true
	}
	// the sum of parts of one sign
	pos, neg := 0, 0
	for _, c := range d {
		if c > 0 {
			pos++
		} else {
			neg++
		}
	}
	return pos == 0 || neg == 0
}

// is n a multiple of s by construction
func c27Multiple(n, s poly) bool {
	if k, ok := s.konst(); ok && k == 1 {
		return true
	}
	if len(s) != 1 {
		return false
	}
	for m := range s {
		for x := range n {
			has := false
			for _, a := range strings.Split(x, "*") {
				if a == m {
					has = true
				}
			}
			if !has {
				return false
			}
		}
	}
	return len(n) > 0
}

// o as a constant multiple of n
func c27Ratio(o, n poly) (float64, bool) {
	for m, c := range n {
		q := o[m] / c
		if q != 0 && o.add(n, -q).eq(poly{}) {
			return q, true
		}
		return 0, false
	}
	return 0, false
}

// o as a multiple of n by some quantity
func c27Factor(o, n poly) (poly, bool) {
	if len(n) != 1 {
		if q, ok := c27Ratio(o, n); ok {
			return constPoly(q), true
		}
		// x*n for an atom x of o
		for m := range o {
			for _, a := range strings.Split(m, "*") {
				if a != "" && o.eq(n.mul(poly{a: 1})) {
					return poly{a: 1}, true
				}
			}
		}
		return nil, false
	}
	return nil, c27Multiple(o, n)
}

func c27Len(ce *ceval, p *pkgRange) (r []poly) {
	// the sliced value itself
	x := p.buf
	switch v := x.v.(type) {
	case *ssa.MakeSlice:
		r = append(r, ce.lin(cx{v.Len, x.e}))
	}
	if s, ok := p.inst.(*ssa.Slice); ok {
		// s.X may be a part of the buffer
		y := cx{s.X, p.high.e}
		y = ce.strip(y)
		if sl, ok := y.v.(*ssa.Slice); ok {
			if sl.High == nil {
				return nil
			}
			q := ce.lin(cx{sl.High, y.e})
			if sl.Low != nil {
				q = q.add(ce.lin(cx{sl.Low, y.e}), -1)
			}
			return []poly{q}
		}
	}
	if x.e == nil {
		return
	}
	if _, ok := x.v.Type().Underlying().(*types.Slice); !ok {
		return
	}
	return append(r, ce.lenAtom(x))
}

// floor(total/count), so that count packages of this size may be too small
func c27Floor(ce *ceval, size, total, count poly) bool {
	for m, c := range size {
		if len(size) != 1 || c != 1 {
			return false
		}
		x, ok := ce.info[m]
		if !ok {
			return false
		}
		q, ok := x.v.(*ssa.BinOp)
		return ok && q.Op == token.QUO && ce.lin(cx{q.X, x.e}).eq(total) && ce.lin(cx{q.Y, x.e}).eq(count)
	}
	return false
}

// x >= 1 whenever the loop around block at is entered
func c27Positive(w *World, ce *ceval, x cx, at *ssa.BasicBlock, d int) (ok, definite bool) {
	if d > 4 {
		return false, false
	}
	p := newProver(w, func(v ssa.Value, isLen bool) bool { return isLen })
	x = ce.strip(x)
	if x.v.Parent() != at.Parent() {
		if k, ok := x.v.(*ssa.Const); ok {
			n, ok := constInt(k)
			return ok && n > 0, ok && n <= 0
		}
		return false, false
	}
	switch p.ge0(at, p.lin(x.v).add(constPoly(1), -1)) {
	case vProved:
		return true, false
	}
	switch v := x.v.(type) {
	case *ssa.Convert:
		return c27Positive(w, ce, cx{v.X, x.e}, at, d+1)
	case *ssa.Phi:
		ok, definite = true, false
		for k, e := range v.Edges {
			// facts of the edge, valid with those at the loop
			pr := v.Block().Preds[k]
			c := p.facts(at, 0)
			c = c.plus(p.edgeFacts(pr, v.Block(), 0)).plus(p.facts(pr, 0))
			goal := p.lin(e).add(constPoly(1), -1)
			if p.quick(constraints{ge: p.close(c, goal)}, goal) {
				continue
			}
			if cst, isC := constInt(e); isC {
				if cst <= 0 {
					return false, true
				}
				continue
			}
			o, df := c27Positive(w, ce, cx{e, x.e}, pr, d+1)
			if !o {
				ok = false
				definite = definite || df && d == 0 && false
			}
		}
		return
	case *ssa.BinOp:
		if v.Op != token.QUO {
			return false, false
		}
		// numerator at least the divisor
		num, den := p.lin(v.X), p.lin(v.Y)
		c := p.facts(at, 0)
		goal := num.add(den, -1)
		denOK := p.quick(constraints{ge: p.close(p.facts(v.Block(), 0), den)}, den.add(constPoly(1), -1))
		if denOK && p.quick(constraints{ge: p.close(c, goal)}, goal) {
			return true, false
		}
		if !denOK && p.ge0(v.Block(), den.add(constPoly(1), -1)) == vProved {
			denOK = true
			if p.ge0(at, goal) == vProved {
				return true, false
			}
		}
		// total divided by the number of workers, rounded down
		if denOK {
			if k, isK := den.konst(); isK && k == 1 {
				return false, false
			}
			// size below the divisor is possible if the numerator is the size itself (with less than divisor-1 added)
			if len(num) == 1 && len(den) >= 1 && !sharesAtom(num, den) {
				return false, true
			}
			return false, false
		}
		return false, false
	}
	return false, false
}

var c27Re = regexp.MustCompile(`v[0-9]+`)

func c27Show(ce *ceval, w *World, p poly) string {
	byName := map[string]string{}
	for k, n := range ce.names {
		if strings.HasPrefix(k, "len ") {
			byName[n] = "length"
		}
	}
	return c27Re.ReplaceAllStringFunc(p.String(), func(n string) string {
		if v := ce.info[n].v; v != nil {
			if ph, ok := v.(*ssa.Phi); ok && ph.Comment != "" {
				return ph.Comment
			}
			return v.Name()
		}
		if s, ok := byName[n]; ok {
			return s
		}
		return n
	})
}
