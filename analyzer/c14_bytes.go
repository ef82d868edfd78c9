package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C14: byte layout of FITS pixels.
//
// For every sample type of the standard, the decoder it leads to is found by evaluating the dispatch with that sample
// type, and each pixel it stores is evaluated symbolically: which byte lanes of the input it is assembled from, with
// which shifts, signedness and arithmetic. The same for the bytes the writer produces.

func init() {
	register("C14", "FITS byte layout: for each sample type, every pixel stored is the big-endian value of the right bytes with the right signedness, scaled and offset by the header's values exactly once, other sample types fail; written pixels are big-endian 32 bit floats as declared", runC14)
}

type lane struct {
	shift int64
	off   poly // position in the buffer
	key   string
}

type lanes struct {
	ls     []lane
	signed bool // passed through a signed type of exactly its size
	bits   int  // narrowest type passed through after assembly
	buf    cx
}

type c14 struct {
	w  *World
	r  *Report
	ce *ceval
}

func (c *c14) lanesOf(x cx, d int) (l lanes, ok bool) {
	if d > 30 {
		return
	}
	x = c.ce.strip(x)
	switch v := x.v.(type) {
	case *ssa.Convert:
		l, ok = c.lanesOf(cx{v.X, x.e}, d+1)
		if !ok {
			return
		}
		b, isB := v.Type().Underlying().(*types.Basic)
		if !isB || b.Info()&types.IsInteger == 0 {
			return lanes{}, false
		}
		n := int(c.w.Pkgs[0].TypesSizes.Sizeof(b)) * 8
		if n < len(l.ls)*8 {
			l.bits = n
		}
		if b.Info()&types.IsUnsigned == 0 && n == len(l.ls)*8 {
			l.signed = true
		} else if b.Info()&types.IsUnsigned != 0 && n == len(l.ls)*8 {
			l.signed = false
		}
		return l, true
	case *ssa.UnOp:
		if v.Op != token.MUL {
			return
		}
		ia, isI := v.X.(*ssa.IndexAddr)
		if !isI || !isByteSlice(ia.X.Type()) {
			return
		}
		buf, off := c.ce.buffer(cx{ia.X, x.e})
		off = off.add(c.ce.lin(cx{ia.Index, x.e}), 1)
		return lanes{ls: []lane{{0, off, off.String()}}, bits: 64, buf: buf}, true
	case *ssa.BinOp:
		switch v.Op {
		case token.SHL:
			l, ok = c.lanesOf(cx{v.X, x.e}, d+1)
			k, kok := c.ce.lin(cx{v.Y, x.e}).konst()
			if !ok || !kok {
				return lanes{}, false
			}
			n := lanes{bits: l.bits, buf: l.buf}
			sz := c.w.Pkgs[0].TypesSizes.Sizeof(v.Type()) * 8
			for _, a := range l.ls {
				if a.shift+int64(k) < sz {
					n.ls = append(n.ls, lane{a.shift + int64(k), a.off, a.key})
				}
			}
			return n, true
		case token.MUL:
			for k := 0; k < 2; k++ {
				a, b := v.X, v.Y
				if k == 1 {
					a, b = b, a
				}
				m, kok := c.ce.lin(cx{b, x.e}).konst()
				if !kok || m < 1 || math.Exp2(math.Round(math.Log2(m))) != m {
					continue
				}
				if l, ok = c.lanesOf(cx{a, x.e}, d+1); ok {
					n := lanes{bits: l.bits, buf: l.buf}
					for _, q := range l.ls {
						n.ls = append(n.ls, lane{q.shift + int64(math.Round(math.Log2(m))), q.off, q.key})
					}
					return n, true
				}
			}
		case token.OR, token.ADD, token.XOR:
			a, ok1 := c.lanesOf(cx{v.X, x.e}, d+1)
			b, ok2 := c.lanesOf(cx{v.Y, x.e}, d+1)
			if !ok1 || !ok2 || !sameCx(a.buf, b.buf) {
				return lanes{}, false
			}
			n := lanes{ls: append(append([]lane{}, a.ls...), b.ls...), bits: 64, buf: a.buf}
			return n, true
		}
	case *ssa.Phi:
		return c.accumulated(v, x.e, d)
	case *ssa.Call:
		name := calleeName(&v.Call)
		i := strings.Index(name, "Endian).Uint")
		if strings.HasPrefix(name, "(encoding/binary.") && i > 0 {
			n := 0
			fmt.Sscanf(name[i+len("Endian).Uint"):], "%d", &n)
			buf, off := c.ce.buffer(cx{v.Call.Args[len(v.Call.Args)-1], x.e})
			big := strings.Contains(name, "bigEndian")
			l := lanes{bits: 64, buf: buf}
			for k := 0; k < n/8; k++ {
				o := off.add(constPoly(float64(k)), 1)
				s := int64(8 * k)
				if big {
					s = int64(8 * (n/8 - 1 - k))
				}
				l.ls = append(l.ls, lane{s, o, o.String()})
			}
			return l, true
		}
	}
	return lanes{}, false
}

// val = val<<8 | byte in a loop over a fixed number of bytes
func (c *c14) accumulated(ph *ssa.Phi, e *cenv, d int) (l lanes, ok bool) {
	lp := loopOf(ph.Block())
	if lp == nil || lp.head != ph.Block() {
		return
	}
	var next ssa.Value
	for i, p := range ph.Block().Preds {
		if lp.body[p] {
			if next != nil {
				return
			}
			next = ph.Edges[i]
		} else if k, isK := constInt(ph.Edges[i]); !isK || k != 0 {
			return
		}
	}
	// number of iterations
	trip := int64(-1)
	for _, g := range lp.guards() {
		lo, ok1 := c.ce.lin(cx{g.x.init, e}).konst()
		hi, ok2 := c.ce.lin(cx{g.bound, e}).konst()
		if ok1 && ok2 && g.x.step == 1 && g.op == token.LSS {
			trip = int64(hi - lo - float64(g.x.off))
		}
	}
	bo, isB := stripConv(next).(*ssa.BinOp)
	if !isB || (bo.Op != token.OR && bo.Op != token.ADD) || trip < 1 || trip > 8 {
		return
	}
	for k := 0; k < 2; k++ {
		a, b := stripConv(bo.X), bo.Y
		if k == 1 {
			a, b = stripConv(bo.Y), bo.X
		}
		sh, isS := a.(*ssa.BinOp)
		if !isS || stripConv(sh.X) != ssa.Value(ph) {
			continue
		}
		n, nok := c.ce.lin(cx{sh.Y, e}).konst()
		if !nok || !(sh.Op == token.SHL && n == 8 || sh.Op == token.MUL && n == 256) {
			continue
		}
		t, tok := c.lanesOf(cx{b, e}, d+1)
		if !tok || len(t.ls) != 1 || t.ls[0].shift != 0 {
			continue
		}
		// the iteration number of this loop in the position
		res := lanes{bits: 64, buf: t.buf}
		for it := int64(0); it < trip; it++ {
			o := poly{}
			for m, f := range t.ls[0].off {
				if u := c.ce.units[m]; u != nil && u.l == lp {
					o = o.add(constPoly(f*float64(it)), 1)
				} else {
					o = o.add(poly{m: f}, 1)
				}
			}
			res.ls = append(res.ls, lane{8 * (trip - 1 - it), o, o.String()})
		}
		return res, true
	}
	return
}

// polynomial of a pixel over the raw sample and the header's scale and offset
func (c *c14) value(x cx, raw func(x cx, kind string, l lanes) poly, d int) (poly, bool) {
	if d > 30 {
		return nil, false
	}
	x = c.ce.strip(x)
	switch v := x.v.(type) {
	case *ssa.Const:
		if f, ok := constFloat(v); ok {
			return constPoly(f), true
		}
	case *ssa.Convert:
		if isFloatT(v.Type()) && isFloatT(v.X.Type()) {
			return c.value(cx{v.X, x.e}, raw, d+1)
		}
		if isFloatT(v.Type()) {
			if l, ok := c.lanesOf(cx{v.X, x.e}, 0); ok {
				// the sign of the type converted from
				if b, isB := c.typeOf(cx{v.X, x.e}).(*types.Basic); isB {
					n := int(c.w.Pkgs[0].TypesSizes.Sizeof(b)) * 8
					kind := "unsigned"
					if b.Info()&types.IsUnsigned == 0 && (l.signed || n == len(l.ls)*8) {
						kind = "signed"
					}
					return raw(x, kind, l), true
				}
			}
		}
	case *ssa.Call:
		switch calleeName(&v.Call) {
		case "math.Float32frombits", "math.Float64frombits":
			if l, ok := c.lanesOf(cx{v.Call.Args[0], x.e}, 0); ok {
				return raw(x, calleeName(&v.Call)[len("math."):len("math.")+len("Float32")], l), true
			}
		}
	case *ssa.UnOp:
		switch v.Op {
		case token.SUB:
			if p, ok := c.value(cx{v.X, x.e}, raw, d+1); ok {
				return poly{}.add(p, -1), true
			}
		case token.MUL:
			a := c.ce.strip(cx{v.X, x.e})
			if fa, ok := a.v.(*ssa.FieldAddr); ok {
				if n := fieldName(fa.X.Type(), fa.Field); n == "Bscale" || n == "Bzero" {
					return poly{n: 1}, true
				}
			}
		}
	case *ssa.BinOp:
		a, ok1 := c.value(cx{v.X, x.e}, raw, d+1)
		b, ok2 := c.value(cx{v.Y, x.e}, raw, d+1)
		if ok1 && ok2 {
			switch v.Op {
			case token.ADD:
				return a.add(b, 1), true
			case token.SUB:
				return a.add(b, -1), true
			case token.MUL:
				return a.mul(b), true
			case token.QUO:
				if k, ok := b.konst(); ok && k != 0 {
					return a.mul(constPoly(1 / k)), true
				}
				return poly{"quotient": 1}, true
			}
		}
	}
	return nil, false
}

func (c *c14) typeOf(x cx) types.Type { return x.v.Type().Underlying() }

func runC14(w *World, r *Report) {
	r.rule("sample type", "every pixel of this sample type is assembled from its bytes as the standard says", 4)
	r.rule("scaling", "every pixel is the raw sample times the scale plus the offset of the header", 4)
	r.rule("placement", "consecutive samples of the file become consecutive pixels", 4)
	r.rule("chunks", "each chunk of samples continues where the previous one ended", 1)
	r.rule("unknown", "any other sample type is rejected", 1)
	r.rule("once", "scale and offset count as applied after the pixels were read, and not before", 1)
	r.rule("written", "written pixels are big-endian 32 bit floats", 1)
	r.rule("declared", "the sample type and scale declared in the header describe the written pixels", 1)

	// dispatch: functions comparing the sample type
	var disp []*ssa.Function
	for _, f := range w.Funcs {
		n := 0
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				bo, ok := i.(*ssa.BinOp)
				if !ok || bo.Op != token.EQL {
					continue
				}
				if k, ok := constInt(bo.Y); ok && (k == -32 || k == 16 || k == -64 || k == 64) && isFieldLoad(bo.X, "Bitpix") {
					n++
				}
			}
		}
		if n > 1 {
			disp = append(disp, f)
		}
	}
	if len(disp) == 0 {
		// take every function that reads it
		r.undecided("no function dispatches on the sample type by comparing it to constants")
		for _, id := range []string{"sample type", "scaling", "placement", "chunks", "unknown", "once"} {
			r.Rules[id] += " (dispatch not recognised)"
			r.nMin[id] = 0
		}
	}
	for _, f := range disp {
		for _, bp := range []int64{8, 16, 32, 64, -32, -64} {
			c14Type(w, r, f, bp)
		}
		for _, bp := range []int64{0, 1, -1, 7, -8, -16, 24, -24, 128, -128, 12, 33} {
			c14Unknown(w, r, f, bp)
		}
		r.ob("unknown", "%s: sample types other than the six of the standard", fname(f))
	}
	c14Once(w, r)
	c14Written(w, r)
}

func isFieldLoad(v ssa.Value, name string) bool {
	for {
		if cv, ok := v.(*ssa.Convert); ok {
			v = cv.X
			continue
		}
		break
	}
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return false
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	return ok && fieldName(fa.X.Type(), fa.Field) == name
}

func bitpixIs(k int64) func(c cx) (constant.Value, bool) {
	return func(x cx) (constant.Value, bool) {
		if u, ok := x.v.(*ssa.UnOp); ok && isFieldLoad(u, "Bitpix") {
			return constant.MakeInt64(k), true
		}
		return nil, false
	}
}

func c14Type(w *World, r *Report, f *ssa.Function, bp int64) {
	ce := newCeval(w)
	ce.known = bitpixIs(bp)
	c := &c14{w, r, ce}
	type st struct {
		s *ssa.Store
		e *cenv
	}
	var sts []st
	unres := ce.explore(ce.root(f), func(i ssa.Instruction, e *cenv) {
		s, ok := i.(*ssa.Store)
		if !ok {
			return
		}
		ia, ok := s.Addr.(*ssa.IndexAddr)
		if !ok || !isFloats(ia.X.Type()) {
			return
		}
		sts = append(sts, st{s, e})
	})
	if len(sts) == 0 {
		if len(unres) > 0 {
			r.undecided("%s: sample type %d: calls of unknown functions", fname(f), bp)
			return
		}
		r.bad("sample type", fmt.Sprintf("%s|%d", fname(f), bp), w.pos(f.Pos()), "sample type %d of the standard is not decoded", bp)
		return
	}
	n := int(math.Abs(float64(bp))) / 8
	want := "signed"
	switch bp {
	case 8:
		want = "unsigned"
	case -32:
		want = "Float32"
	case -64:
		want = "Float64"
	}
	for _, s := range sts {
		where := fname(s.s.Parent())
		key := fmt.Sprintf("%s|%d", where, bp)
		var got []lanes
		var kinds []string
		p, ok := c.value(cx{s.s.Val, s.e}, func(x cx, kind string, l lanes) poly {
			got = append(got, l)
			kinds = append(kinds, kind)
			return poly{"raw": 1}
		}, 0)
		if !ok || len(got) == 0 {
			r.undecided("%s %s: value of a pixel of sample type %d", where, w.ipos(s.s), bp)
			continue
		}
		want1 := poly{"Bscale*raw": 1, "Bzero": 1}
		if !p.eq(want1) {
			r.bad("scaling", key, w.ipos(s.s), "a pixel of sample type %d becomes %s instead of raw*Bscale+Bzero", bp, p)
		} else {
			r.ob("scaling", "%s %s: sample type %d", where, w.ipos(s.s), bp)
		}
		for k, l := range got {
			sort.Slice(l.ls, func(i, j int) bool { return l.ls[i].shift > l.ls[j].shift })
			var probs []string
			if len(l.ls) != n {
				probs = append(probs, fmt.Sprintf("it is assembled from %d bytes instead of %d", len(l.ls), n))
			} else {
				for j, a := range l.ls {
					if a.shift != int64(8*(n-1-j)) {
						probs = append(probs, fmt.Sprintf("byte lanes are shifted by %s", shiftsOf(l)))
						break
					}
					if !a.off.add(l.ls[0].off, -1).eq(constPoly(float64(j))) {
						dd := a.off.add(l.ls[0].off, -1)
						probs = append(probs, fmt.Sprintf("the byte with weight 2^%d is %s positions after the one with weight 2^%d instead of %d", a.shift, dd, l.ls[0].shift, j))
						break
					}
				}
			}
			if l.bits < n*8 {
				probs = append(probs, fmt.Sprintf("it is truncated to %d bits", l.bits))
			}
			if kinds[k] != want {
				probs = append(probs, fmt.Sprintf("it is interpreted as %s instead of %s", strings.ToLower(kinds[k]), strings.ToLower(want)))
			}
			if len(probs) > 0 {
				r.bad("sample type", key, w.ipos(s.s), "for a pixel of sample type %d, %s", bp, strings.Join(probs, "; "))
			} else {
				r.ob("sample type", "%s %s: sample type %d, %d big-endian bytes, %s", where, w.ipos(s.s), bp, n, want)
			}
			if len(l.ls) == n {
				c.placement(s.s, s.e, l, n, bp)
				c.chunks(s.s, s.e, l, n, bp)
			}
		}
	}
}

func shiftsOf(l lanes) string {
	var s []string
	for _, a := range l.ls {
		s = append(s, fmt.Sprint(a.shift))
	}
	return strings.Join(s, ",")
}

// pixel number and position in the buffer advance together
func (c *c14) placement(s *ssa.Store, e *cenv, l lanes, n int, bp int64) {
	r, w := c.r, c.w
	ia := s.Addr.(*ssa.IndexAddr)
	_, off := c.ce.buffer(cx{ia.X, e})
	dst := off.add(c.ce.lin(cx{ia.Index, e}), 1)
	src := l.ls[0].off
	where := fname(s.Parent())
	for m, k := range src {
		if c.ce.units[m] == nil {
			continue
		}
		if m2, ok := dst[m]; ok {
			if k == float64(n)*m2 {
				r.ob("placement", "%s %s: sample type %d, %d bytes per pixel", where, w.ipos(s), bp, n)
			} else {
				r.bad("placement", fmt.Sprintf("%s|%d", where, bp), w.ipos(s), "advances %g pixels and %g bytes at a time for samples of %d bytes", m2, k, n)
			}
			return
		}
	}
	r.undecided("%s %s: relation between pixel number and position in the buffer", where, w.ipos(s))
}

// The pixels are decoded in chunks: the first pixel of the next chunk follows the last one of this chunk, and bytes that
// do not make up a pixel are moved from behind the last pixel to the start of the buffer.
func (c *c14) chunks(s *ssa.Store, e *cenv, l lanes, n int, bp int64) {
	r, w := c.r, c.w
	where := fname(s.Parent())
	ia := s.Addr.(*ssa.IndexAddr)
	_, off := c.ce.buffer(cx{ia.X, e})
	dst := off.add(c.ce.lin(cx{ia.Index, e}), 1)
	inner := loopOf(s.Block())
	if inner == nil {
		return
	}
	// number of pixels of a chunk
	var trip poly
	for _, g := range inner.guards() {
		if g.op != token.LSS && g.op != token.NEQ {
			continue
		}
		step := float64(g.x.step)
		if g.x.inc != nil {
			k, ok := c.ce.constOf(cx{g.x.inc, e})
			if !ok {
				continue
			}
			step, _ = constant.Float64Val(constant.ToFloat(k))
		}
		if step <= 0 {
			continue
		}
		span := c.ce.lin(cx{g.bound, e}).add(c.ce.lin(cx{g.x.init, e}), -1).add(constPoly(float64(g.x.off)), -1)
		t := poly{}
		for m, f := range span {
			t[m] = f / step
		}
		if trip != nil {
			return // more than one way to end
		}
		trip = t
	}
	if trip == nil {
		r.undecided("%s %s: number of pixels of a chunk", where, w.ipos(s))
		return
	}
	var unit float64
	for m, k := range dst {
		if u := c.ce.units[m]; u != nil && u.l == inner {
			unit = k
		}
	}
	for m, k := range dst {
		x, ok := c.ce.info[m]
		if !ok || k != 1 {
			continue
		}
		ph, ok := x.v.(*ssa.Phi)
		if !ok {
			continue
		}
		outer := loopOf(ph.Block())
		if outer == nil || outer.head != ph.Block() || !outer.body[s.Block()] {
			continue
		}
		for i, p := range ph.Block().Preds {
			if !outer.body[p] {
				if z, ok := c.ce.lin(cx{ph.Edges[i], x.e}).konst(); ok && z != 0 {
					r.bad("chunks", fmt.Sprintf("%s|%d|first", where, bp), w.ipos(s), "the first pixel decoded is pixel %g", z)
				}
				continue
			}
			adv := c.ce.lin(cx{ph.Edges[i], x.e}).add(poly{m: 1}, -1)
			want := trip.mul(constPoly(unit))
			if adv.eq(want) {
				r.ob("chunks", "%s %s: sample type %d", where, w.ipos(s), bp)
			} else {
				r.bad("chunks", fmt.Sprintf("%s|%d", where, bp), w.ipos(s), "the next chunk of samples starts at another pixel than the one after the last pixel of this chunk")
			}
		}
	}
	// bytes carried over
	for _, b := range s.Parent().Blocks {
		for _, i := range b.Instrs {
			st, ok := i.(*ssa.Store)
			if !ok {
				continue
			}
			ta, ok := st.Addr.(*ssa.IndexAddr)
			if !ok || !isByteSlice(ta.X.Type()) {
				continue
			}
			ld, ok := st.Val.(*ssa.UnOp)
			if !ok || ld.Op != token.MUL {
				continue
			}
			fa, ok := ld.X.(*ssa.IndexAddr)
			if !ok || !isByteSlice(fa.X.Type()) {
				continue
			}
			b1, o1 := c.ce.buffer(cx{ta.X, e})
			b2, o2 := c.ce.buffer(cx{fa.X, e})
			if !sameCx(b1, b2) || !sameCx(b1, l.buf) {
				continue
			}
			dist := o2.add(c.ce.lin(cx{fa.Index, e}), 1).add(o1, -1).add(c.ce.lin(cx{ta.Index, e}), -1)
			want := trip.mul(constPoly(float64(n)))
			if dist.eq(want) {
				r.ob("chunks", "%s %s: remaining bytes moved", where, w.ipos(st))
			} else {
				r.bad("chunks", fmt.Sprintf("%s|%d|rest", where, bp), w.ipos(st), "the bytes kept for the next chunk are not the ones following the last complete sample")
			}
		}
	}
}

func c14Unknown(w *World, r *Report, f *ssa.Function, bp int64) {
	ce := newCeval(w)
	ce.known = bitpixIs(bp)
	stored := false
	e := ce.root(f)
	unres := ce.explore(e, func(i ssa.Instruction, e *cenv) {
		if s, ok := i.(*ssa.Store); ok {
			if ia, ok := s.Addr.(*ssa.IndexAddr); ok && isFloats(ia.X.Type()) {
				stored = true
			}
		}
	})
	if len(unres) > 0 {
		r.undecided("%s: unknown sample type %d: calls of unknown functions", fname(f), bp)
		return
	}
	key := fname(f) + "|" + fmt.Sprint(bp)
	if stored {
		r.bad("unknown", key, w.pos(f.Pos()), "sample type %d, which the standard does not define, is decoded as if it were another one", bp)
		return
	}
	rb := ce.reach(e)
	for _, b := range f.Blocks {
		if !rb[b] || b == f.Recover {
			continue
		}
		rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		n := len(rt.Results)
		if n == 0 || !isErrT(rt.Results[n-1].Type()) {
			r.undecided("%s: how an unknown sample type is reported", fname(f))
			continue
		}
		if k, ok := retVal(rt, n-1).(*ssa.Const); ok && k.Value == nil {
			// only if no failing call comes before it
			r.bad("unknown", key, w.ipos(rt), "sample type %d, which the standard does not define, is accepted without an error", bp)
		}
	}
}

// after decoding, scale and offset are reset; never before
func c14Once(w *World, r *Report) {
	for _, f := range w.Funcs {
		var loads []ssa.Instruction
		reset := map[string][]ssa.Instruction{}
		touches := false
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				switch x := i.(type) {
				case *ssa.UnOp:
					if isFieldLoad(x, "Bscale") || isFieldLoad(x, "Bzero") {
						loads = append(loads, x)
						// used in arithmetic?
						if x.Referrers() != nil {
							for _, u := range *x.Referrers() {
								if _, ok := u.(*ssa.BinOp); ok {
									touches = true
								}
							}
						}
					}
				case *ssa.Store:
					if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
						n := fieldName(fa.X.Type(), fa.Field)
						want := -1.0
						if n == "Bscale" {
							want = 1
						} else if n == "Bzero" {
							want = 0
						} else {
							continue
						}
						if k, ok := x.Val.(*ssa.Const); ok {
							v, _ := constFloat(k)
							if v == want {
								reset[n] = append(reset[n], x)
							} else {
								r.bad("once", fname(f)+"|"+n, w.ipos(x), "sets %s to %g instead of the neutral value %g", n, v, want)
							}
						}
					}
				}
			}
		}
		if !touches {
			continue
		}
		fl := mustFlow(f, func(i ssa.Instruction) []string {
			var g []string
			for n, rs := range reset {
				for _, x := range rs {
					if x == i {
						g = append(g, n)
					}
				}
			}
			// a helper that does it
			if ci, ok := i.(ssa.CallInstruction); ok {
				if t := ci.Common().StaticCallee(); t != nil && w.inMod[t] {
					for _, b := range t.Blocks {
						for _, j := range b.Instrs {
							if s, ok := j.(*ssa.Store); ok && b.Dominates(t.Blocks[len(t.Blocks)-1]) {
								if fa, ok := s.Addr.(*ssa.FieldAddr); ok {
									if n := fieldName(fa.X.Type(), fa.Field); n == "Bscale" || n == "Bzero" {
										if _, isK := s.Val.(*ssa.Const); isK {
											g = append(g, n)
										}
									}
								}
							}
						}
					}
				}
			}
			return g
		})
		for _, b := range f.Blocks {
			rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok || b == f.Recover || fl.in[b] == nil {
				continue
			}
			if mayFail(rt) {
				continue
			}
			facts := fl.at(rt)
			for _, n := range []string{"Bscale", "Bzero"} {
				if !facts[n] {
					if c14ResetByCallers(w, f, n) {
						r.ob("once", "%s: %s, reset by the callers", fname(f), n)
					} else if !writesPixels(f) {
						r.undecided("%s: resetting %s", fname(f), n)
					} else {
						r.bad("once", fname(f)+"|"+n+"|kept", w.ipos(rt), "applies %s to the pixels, but leaves its value in place, so that it is applied again when the image is saved and read back", n)
					}
				} else {
					r.ob("once", "%s %s: %s reset after use", fname(f), w.ipos(rt), n)
				}
			}
		}
		for n, rs := range reset {
			for _, s := range rs {
				for _, l := range loads {
					if !isFieldLoad(l.(ssa.Value), n) {
						continue
					}
					if s.Block() == l.Block() && before(s, l) || s.Block() != l.Block() && blockReaches(s.Block(), l.Block()) || s.Block() == l.Block() && inCycle(s.Block()) {
						r.bad("once", fname(f)+"|"+n+"|early", w.ipos(s), "resets %s before all pixels were scaled with it", n)
					}
				}
			}
		}
	}
}

func writesPixels(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if s, ok := i.(*ssa.Store); ok {
				if ia, ok := s.Addr.(*ssa.IndexAddr); ok && isFloats(ia.X.Type()) {
					return true
				}
			}
		}
	}
	return false
}

func c14ResetByCallers(w *World, f *ssa.Function, n string) bool {
	cs := w.calls().callers[f]
	if len(cs) == 0 {
		return false
	}
	for _, site := range cs {
		ok := false
		g := site.Parent()
		for _, b := range g.Blocks {
			for _, i := range b.Instrs {
				if s, isS := i.(*ssa.Store); isS {
					if fa, isF := s.Addr.(*ssa.FieldAddr); isF && fieldName(fa.X.Type(), fa.Field) == n {
						if _, isK := s.Val.(*ssa.Const); isK && (blockReaches(site.Block(), b) || site.Block() == b && before(site, i)) {
							ok = true
						}
					}
				}
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

// the writer
func c14Written(w *World, r *Report) {
	ce := newCeval(w)
	var roots []*ssa.Function
	// functions that put bytes of floats into a buffer
	for _, f := range w.Funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if cl, ok := i.(*ssa.Call); ok {
					if n := calleeName(&cl.Call); n == "math.Float32bits" || n == "math.Float64bits" {
						if len(roots) == 0 || roots[len(roots)-1] != f {
							roots = append(roots, f)
						}
					}
				}
			}
		}
	}
	type put struct {
		lane int64
		off  poly
		i    ssa.Instruction
	}
	nw := 0
	for _, f := range roots {
		e := ce.root(f)
		bits := map[*ssa.Call][]put{}
		bufs := map[*ssa.Call]ssa.Value{}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				switch x := i.(type) {
				case *ssa.Store:
					ia, ok := x.Addr.(*ssa.IndexAddr)
					if !ok || !isByteSlice(ia.X.Type()) {
						continue
					}
					v := x.Val
					sh := int64(0)
					for d := 0; d < 10; d++ {
						if cvt, ok := v.(*ssa.Convert); ok {
							v = cvt.X
							continue
						}
						if bo, ok := v.(*ssa.BinOp); ok {
							if k, ok := ce.lin(cx{bo.Y, e}).konst(); ok {
								if bo.Op == token.SHR {
									sh += int64(k)
									v = bo.X
									continue
								}
								if bo.Op == token.AND && int64(k)&255 == 255 {
									v = bo.X
									continue
								}
							}
						}
						break
					}
					cl, ok := ce.strip0(cx{v, e}).v.(*ssa.Call)
					if !ok || !strings.HasSuffix(calleeName(&cl.Call), "bits") {
						continue
					}
					buf, off := ce.buffer(cx{ia.X, e})
					off = off.add(ce.lin(cx{ia.Index, e}), 1)
					bits[cl] = append(bits[cl], put{sh, off, x})
					bufs[cl] = buf.v
				case *ssa.Call:
					n := calleeName(&x.Call)
					if k := strings.Index(n, "Endian).PutUint"); strings.HasPrefix(n, "(encoding/binary.") && k > 0 {
						sz := int64(0)
						fmt.Sscanf(n[k+len("Endian).PutUint"):], "%d", &sz)
						na := len(x.Call.Args)
						cl, ok := ce.strip0(cx{x.Call.Args[na-1], e}).v.(*ssa.Call)
						if !ok {
							continue
						}
						buf, off := ce.buffer(cx{x.Call.Args[na-2], e})
						for j := int64(0); j < sz/8; j++ {
							s := 8 * j
							if strings.Contains(n, "bigEndian") {
								s = sz - 8 - 8*j
							}
							bits[cl] = append(bits[cl], put{s, off.add(constPoly(float64(j)), 1), x})
						}
						bufs[cl] = buf.v
					}
				}
			}
		}
		for cl, ps := range bits {
			if len(ps) == 0 {
				continue
			}
			n := 4
			if calleeName(&cl.Call) == "math.Float64bits" {
				n = 8
			}
			nw++
			where := fname(f)
			sort.Slice(ps, func(i, j int) bool { return ps[i].lane > ps[j].lane })
			var prob string
			if len(ps) != n {
				prob = fmt.Sprintf("%d bytes are written for samples of %d bytes", len(ps), n)
			} else {
				for j, p := range ps {
					if p.lane != int64(8*(n-1-j)) {
						prob = "a byte of the sample is missing or written twice"
						break
					}
					if dd := p.off.add(ps[0].off, -1); !dd.eq(constPoly(float64(j))) {
						prob = fmt.Sprintf("the byte with weight 2^%d is written %s positions after the one with weight 2^%d instead of %d", p.lane, dd, ps[0].lane, j)
						break
					}
				}
			}
			if prob != "" {
				r.bad("written", where, w.ipos(ps[0].i), "%s", prob)
				continue
			}
			// the sample number and the position advance together
			src := c14Source(ce, cx{cl.Call.Args[0], e}, 0)
			if src == nil {
				r.undecided("%s %s: which pixel is written", where, w.ipos(cl))
			} else {
				matched := false
				for m, k := range ps[0].off {
					if ce.units[m] == nil {
						continue
					}
					matched = true
					if k != float64(n)*src[m] {
						r.bad("written", where+"|stride", w.ipos(ps[0].i), "advances %g bytes and %g pixels at a time for samples of %d bytes", k, src[m], n)
					}
				}
				if !matched {
					r.undecided("%s %s: relation between pixel number and position in the buffer", where, w.ipos(cl))
				}
			}
			r.ob("written", "%s %s: %d big-endian bytes per pixel", where, w.ipos(cl), n)
			if src != nil {
				c14WrittenAll(w, r, ce, e, cl, ps[0].i, src, bufs[cl], n)
			}
			c14Declared(w, r, n)
		}
	}
	if nw == 0 {
		r.undecided("how pixels are turned into bytes for writing")
		r.nMin["written"], r.nMin["declared"] = 0, 0
	}
}

// every pixel is written, in order: the chunks follow each other without gap or overlap, and all bytes of a chunk are
// handed to the output
func c14WrittenAll(w *World, r *Report, ce *ceval, e *cenv, cl *ssa.Call, at ssa.Instruction, src poly, buf ssa.Value, n int) {
	f := cl.Parent()
	where := fname(f)
	inner := loopOf(cl.Block())
	if inner == nil {
		return
	}
	var trip poly
	var bound ssa.Value
	var base float64
	for _, g := range inner.guards() {
		if g.op != token.LSS && g.op != token.NEQ || g.x.step != 1 {
			continue
		}
		bound = g.bound
		trip = ce.lin(cx{g.bound, e}).add(ce.lin(cx{g.x.init, e}), -1).add(constPoly(float64(g.x.off)), -1)
		base, _ = ce.lin(cx{g.x.init, e}).konst()
		base += float64(g.x.off)
	}
	if trip == nil || base != 0 {
		r.undecided("%s %s: number of pixels written per chunk", where, w.ipos(cl))
		return
	}
	// the chunk
	for outer := loopOuter(inner); outer != nil; outer = loopOuter(outer) {
		for _, g := range outer.guards() {
			if g.op != token.LSS {
				continue
			}
			var step float64
			k := ""
			for m, u := range ce.units {
				if u.l == outer {
					k, step = m, float64(u.step)
				}
			}
			p := ce.lin(cx{g.x.phi, e})
			for m := range p {
				if u := ce.units[m]; u != nil && u.l == outer {
					k, step = m, float64(u.step)
				}
			}
			if k == "" || step <= 0 {
				continue
			}
			if src[k] != step {
				r.bad("written", where+"|chunk", w.ipos(at), "the chunks advance by %g pixels, but the pixels written advance by %g", step, src[k])
				return
			}
			if z := src[""]; z != 0 {
				r.bad("written", where+"|first", w.ipos(at), "the first pixel written is pixel %g", z)
			}
			// size of the chunk: the rest, at most the distance between chunks
			total := ce.lin(cx{g.bound, e}).add(p, -1)
			caps, rest := c14Min(ce, cx{bound, e}, 0)
			if caps == nil {
				r.undecided("%s %s: number of pixels written per chunk", where, w.ipos(cl))
				break
			}
			okRest := false
			for _, q := range rest {
				if q.eq(total) {
					okRest = true
				}
			}
			if !okRest {
				if len(rest) > 0 {
					r.bad("written", where+"|rest", w.ipos(at), "the last chunk has %s pixels instead of the %s remaining ones", rest[0], total)
				} else {
					r.undecided("%s %s: size of the last chunk", where, w.ipos(cl))
				}
			}
			for _, q := range caps {
				if q != step {
					r.bad("written", where+"|size", w.ipos(at), "chunks of %g pixels are written at distances of %g pixels", q, step)
				}
			}
			r.ob("written", "%s %s: chunks of %g pixels follow each other", where, w.ipos(cl), step)
		}
		// bytes handed over
		for b := range outer.body {
			for _, i := range b.Instrs {
				ci, ok := i.(ssa.CallInstruction)
				if !ok || !strings.HasSuffix(calleeName(ci.Common()), "Write") {
					continue
				}
				for _, a := range ci.Common().Args {
					if !isByteSlice(a.Type()) {
						continue
					}
					bb, lo := ce.buffer(cx{a, e})
					if bb.v != buf {
						continue
					}
					sl, ok := ce.strip(cx{a, e}).v.(*ssa.Slice)
					if !ok || sl.High == nil {
						r.undecided("%s %s: number of bytes written", where, w.ipos(i))
						continue
					}
					hi := ce.lin(cx{sl.High, e})
					want := trip.mul(constPoly(float64(n)))
					if k, ok := lo.konst(); !ok || k != 0 {
						r.bad("written", where+"|bytes", w.ipos(i), "bytes before position %s are not written", lo)
					} else if !hi.eq(want) {
						r.bad("written", where+"|bytes", w.ipos(i), "%s bytes are written for %s pixels of %d bytes", hi, trip, n)
					} else {
						r.ob("written", "%s %s: all bytes of the pixels are written", where, w.ipos(i))
					}
				}
			}
		}
	}
}

func loopOuter(l *loop) *loop {
	var best *loop
	for _, o := range loopsOf(l.head.Parent()) {
		if o.head != l.head && o.body[l.head] && (best == nil || len(o.body) < len(best.body)) {
			best = o
		}
	}
	return best
}

// the constants and the other values a minimum is taken of
func c14Min(ce *ceval, x cx, d int) (caps []float64, rest []poly) {
	x = ce.strip(x)
	ph, ok := x.v.(*ssa.Phi)
	if !ok || d > 3 || loopOf(ph.Block()) != nil && loopOf(ph.Block()).head == ph.Block() {
		p := ce.lin(x)
		if k, ok := p.konst(); ok {
			return []float64{k}, nil
		}
		return nil, []poly{p}
	}
	for _, ed := range ph.Edges {
		a, b := c14Min(ce, cx{ed, x.e}, d+1)
		caps, rest = append(caps, a...), append(rest, b...)
	}
	return
}

// index of the pixel a value is loaded from
func c14Source(ce *ceval, x cx, d int) poly {
	if d > 12 {
		return nil
	}
	x = ce.strip(x)
	switch v := x.v.(type) {
	case *ssa.Convert:
		return c14Source(ce, cx{v.X, x.e}, d+1)
	case *ssa.Phi:
		for _, ed := range v.Edges {
			if p := c14Source(ce, cx{ed, x.e}, d+1); p != nil {
				return p
			}
		}
	case *ssa.UnOp:
		if ia, ok := v.X.(*ssa.IndexAddr); ok && v.Op == token.MUL {
			_, off := ce.buffer(cx{ia.X, x.e})
			return off.add(ce.lin(cx{ia.Index, x.e}), 1)
		}
		// variable assigned several times
		if a, ok := v.X.(*ssa.Alloc); ok && v.Op == token.MUL {
			for _, rr := range *a.Referrers() {
				if s, ok := rr.(*ssa.Store); ok && s.Addr == ssa.Value(a) {
					if p := c14Source(ce, cx{s.Val, x.e}, d+1); p != nil {
						return p
					}
				}
			}
		}
	}
	return nil
}

// the BITPIX record written by the function that writes the header
func c14Declared(w *World, r *Report, n int) {
	found := false
	for _, f := range w.Funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				ci, ok := i.(ssa.CallInstruction)
				if !ok {
					continue
				}
				t := ci.Common().StaticCallee()
				if t == nil || !w.inMod[t] {
					continue
				}
				for k, a := range ci.Common().Args {
					c, ok := a.(*ssa.Const)
					if !ok {
						continue
					}
					if s, ok := constString(c); !ok || s != "BITPIX" || k+1 >= len(ci.Common().Args) {
						continue
					}
					v := stripConv(ci.Common().Args[k+1])
					if !isInt(v.Type()) {
						continue
					}
					found = true
					d, isK := constInt(v)
					if !isK {
						if isFieldLoad(v, "Bitpix") {
							r.bad("declared", fname(f), w.ipos(i), "declares the sample type the image was read with, although %d bit floats are written", n*8)
						} else {
							r.undecided("%s %s: sample type declared", fname(f), w.ipos(i))
						}
						continue
					}
					if d == int64(-8*n) {
						r.ob("declared", "%s %s: BITPIX is %d", fname(f), w.ipos(i), d)
					} else {
						r.bad("declared", fname(f), w.ipos(i), "declares sample type %d although %d bit floats are written", d, n*8)
					}
				}
			}
		}
	}
	if !found {
		r.undecided("where the sample type is declared")
		r.nMin["declared"] = 0
	}
}
