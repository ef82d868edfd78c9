package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C17: conversion of pixels to the samples of integer output formats.
//
// Interval analysis with NaN tracking: at every conversion from a floating point number to an 8 or 16 bit integer
// (directly or through a wider integer) the value must be a number inside the range of the integer type, whatever the
// pixels, export range and gamma are. All conversions to the same sample type must produce the same interval, each
// component must be computed from the sample of its own plane, and all components from the same settings.

func init() {
	register("C17", "exported samples: interval analysis with missing values proves every floating point number inside the range of the 8 or 16 bit sample it is converted to, for all pixels, export ranges and gamma values; components and mono/colour variants use the same transformation of their own plane", runC17)
}

func smallInt(t types.Type) (name string, lo, hi float64) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return "", 0, 0
	}
	switch b.Kind() {
	case types.Uint8:
		return "uint8", 0, 255
	case types.Uint16:
		return "uint16", 0, 65535
	case types.Int8:
		return "int8", -128, 127
	case types.Int16:
		return "int16", -32768, 32767
	}
	return "", 0, 0
}

func runC17(w *World, r *Report) {
	r.rule("range", "value converted to a sample is a number within the range of the sample type, for all inputs", 8)
	r.rule("same", "all conversions to the same sample type produce the same interval", 2)
	r.rule("plane", "each colour component is computed from the pixel of its own plane, and all components from the same settings", 8)
	r.rule("args", "mono and colour output of the same format are given the same export range and gamma", 4)

	// functions from which a conversion is reachable by static calls
	has := map[*ssa.Function]bool{}
	for _, f := range w.Funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if c, ok := i.(*ssa.Convert); ok {
					if n, _, _ := smallInt(c.Type()); n != "" && isFloatT(c.X.Type()) {
						has[f] = true
					} else if n != "" && isNum(c.X.Type()) && fromFloat(c.X, 0) {
						has[f] = true
					}
				}
			}
		}
	}
	called := map[*ssa.Function]bool{}
	for _, f := range w.Funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if ci, ok := i.(ssa.CallInstruction); ok {
					if t := ci.Common().StaticCallee(); t != nil && t != f {
						called[t] = true
					}
				}
			}
		}
	}
	// roots: exported functions, and helpers only if nothing calls them
	exported := func(f *ssa.Function) bool { return f.Parent() == nil && token.IsExported(f.Name()) }
	isRoot := func(f *ssa.Function) bool { return f.Parent() == nil && (exported(f) || !called[f]) }
	roots := map[*ssa.Function]bool{}
	var up func(f *ssa.Function, seen map[*ssa.Function]bool)
	up = func(f *ssa.Function, seen map[*ssa.Function]bool) {
		if seen[f] {
			return
		}
		seen[f] = true
		if isRoot(f) {
			roots[f] = true
			return
		}
		if f.Parent() != nil {
			up(f.Parent(), seen)
		}
		for _, g := range w.calls().callers[f] {
			up(g.Parent(), seen)
		}
	}
	for f := range has {
		up(f, map[*ssa.Function]bool{})
	}
	var rl []*ssa.Function
	for f := range roots {
		rl = append(rl, f)
	}
	sort.Slice(rl, func(i, j int) bool { return rl[i].String() < rl[j].String() })
	type got struct {
		v   fv
		pos string
		f   string
	}
	samples := map[string][]got{}
	seenConv := map[*ssa.Convert]bool{}
	for _, f := range rl {
		a := &fAnalysis{w: w,
			descend: func(t *ssa.Function) bool { return !roots[t] },
			input: func(v ssa.Value) bool {
				switch rootAddr(v.(*ssa.UnOp).X).(type) {
				case *ssa.Alloc, *ssa.Global, *ssa.FreeVar:
					return false
				}
				return true
			}}
		k := map[string]int{}
		a.onConv = func(c *fctx, x *ssa.Convert, v fv) {
			n, lo, hi := smallInt(x.Type())
			if n == "" || !isFloatT(x.X.Type()) && !v.fl {
				return
			}
			if v.empty() {
				return // cannot be reached
			}
			seenConv[x] = true
			k[n]++
			key := fmt.Sprintf("%s|%s#%d", fname(f), n, k[n])
			if !v.nan && v.lo > lo-1 && v.hi < hi+1 && v.lo <= v.hi {
				r.ob("range", "%s: %s of %s at %s", fname(f), n, v, w.pos(x.Pos()))
				if !v.vague {
					samples[n] = append(samples[n], got{v, w.pos(x.Pos()), fname(f)})
				}
				return
			}
			if v.vague {
				r.undecided("%s: range of the value converted to %s at %s: %s", fname(f), n, w.pos(x.Pos()), v)
				return
			}
			what := fmt.Sprintf("any value in [%g, %g]", v.lo, v.hi)
			if v.nan {
				what += " or NaN"
			}
			r.bad("range", key, w.pos(x.Pos()), "a value that may be %s is converted to %s in %s: samples outside %g..%g wrap around", what, n, fname(f), lo, hi)
		}
		a.run(&fctx{f: f, params: map[ssa.Value]fv{}})
	}
	for f := range has {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if c, ok := i.(*ssa.Convert); ok && isFloatT(c.X.Type()) && !seenConv[c] {
					if n, _, _ := smallInt(c.Type()); n != "" {
						r.undecided("%s: conversion at %s not reached by the analysis", fname(f), w.pos(c.Pos()))
					}
				}
			}
		}
	}
	for _, n := range []string{"uint8", "uint16"} {
		ss := samples[n]
		for _, s := range ss {
			if s.v.lo == ss[0].v.lo && s.v.hi == ss[0].v.hi {
				r.ob("same", "%s samples in %s cover %s", n, s.f, s.v)
			} else {
				r.bad("same", n+"|"+s.f, s.pos, "%s samples of %s lie in %s, those of %s in %s", n, s.f, s.v, ss[0].f, ss[0].v)
			}
		}
	}
	c17Planes(w, r)
	c17Args(w, r)
}

func fromFloat(v ssa.Value, d int) bool {
	if d > 8 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Convert:
		return isFloatT(x.X.Type()) || fromFloat(x.X, d+1)
	case *ssa.ChangeType:
		return fromFloat(x.X, d+1)
	case *ssa.BinOp:
		return fromFloat(x.X, d+1) || fromFloat(x.Y, d+1)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if e != v && fromFloat(e, d+3) {
				return true
			}
		}
	}
	return false
}

func rootAddr(v ssa.Value) ssa.Value {
	for d := 0; d < 30; d++ {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Slice:
			v = x.X
		case *ssa.UnOp:
			if x.Op == token.MUL {
				// through a pointer or slice held somewhere: what it points to is not the local itself
				if s := singleStore(x.X); s != nil {
					v = s
					continue
				}
				if al, ok := x.X.(*ssa.Alloc); ok {
					return al
				}
				if fv, ok := x.X.(*ssa.FreeVar); ok {
					return fv
				}
				v = x.X
				continue
			}
			return v
		case *ssa.ChangeType:
			v = x.X
		default:
			return v
		}
	}
	return v
}

// what a value is computed from: samples read and settings used
type c17Deps struct {
	samples map[string]poly // index of each pixel read
	forms   map[string]bool // what the component is as a function of the sample, along the different paths
	names   map[string]bool // parameters of the root function and fields
	unclear bool
}

func c17Planes(w *World, r *Report) {
	type comp struct {
		f    *ssa.Function
		name string
		d    *c17Deps
		pos  string
	}
	type group struct {
		fam  string
		f    *ssa.Function
		cs   []comp
		mono bool
	}
	var groups []group
	for _, f := range w.Funcs {
		if f.Parent() != nil {
			continue
		}
		found := false
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if al, ok := i.(*ssa.Alloc); ok && colorType(deref(al.Type())) != "" {
					found = true
				}
			}
		}
		if !found {
			continue
		}
		ce := newCeval(w)
		root := ce.root(f)
		byAlloc := map[*ssa.Alloc]*group{}
		var order []*ssa.Alloc
		ce.explore(root, func(i ssa.Instruction, e *cenv) {
			st, ok := i.(*ssa.Store)
			if !ok {
				return
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok {
				return
			}
			al, ok := fa.X.(*ssa.Alloc)
			if !ok {
				return
			}
			ct := colorType(deref(al.Type()))
			if ct == "" {
				return
			}
			g := byAlloc[al]
			if g == nil {
				fam := "8 bit"
				if strings.HasSuffix(ct, "64") || strings.HasSuffix(ct, "16") {
					fam = "16 bit"
				}
				g = &group{fam: fam, f: f, mono: strings.HasPrefix(ct, "Gray")}
				byAlloc[al] = g
				order = append(order, al)
			}
			d := &c17Deps{samples: map[string]poly{}, names: map[string]bool{}}
			c17Collect(ce, cx{st.Val, e}, f, d, map[cx]bool{}, 0)
			if fs, ok := c17Forms(ce, cx{st.Val, e}, 0); ok {
				d.forms = map[string]bool{}
				for _, p := range fs {
					if strings.Contains(p.String(), "SAMPLE") {
						d.forms[p.String()] = true
					}
				}
			}
			g.cs = append(g.cs, comp{f, fieldName(al.Type(), fa.Field), d, w.pos(st.Pos())})
		})
		for _, al := range order {
			groups = append(groups, *byAlloc[al])
		}
	}
	// settings used, per group
	var ref map[string]bool
	var refF string
	forms := map[string]comp{}
	for _, g := range groups {
		pixel := false
		for _, c := range g.cs {
			if len(c.d.samples) > 0 {
				pixel = true
			}
		}
		if !pixel {
			continue
		}
		idx := map[string]poly{}
		for _, c := range g.cs {
			if c.name == "A" {
				continue
			}
			if c.d.unclear {
				r.undecided("%s: component %s at %s is computed in a way that is not followed", fname(c.f), c.name, c.pos)
				continue
			}
			if len(c.d.samples) != 1 {
				if len(c.d.samples) == 0 {
					r.bad("plane", fname(c.f)+"|"+c.name, c.pos, "component %s of the exported pixel does not depend on any pixel of the image", c.name)
				} else {
					r.bad("plane", fname(c.f)+"|"+c.name, c.pos, "component %s of the exported pixel is computed from %d different pixels of the image", c.name, len(c.d.samples))
				}
				continue
			}
			for _, p := range c.d.samples {
				idx[c.name] = p
			}
			if ref == nil {
				ref, refF = c.d.names, fname(c.f)
			}
			var diff []string
			for n := range ref {
				if !c.d.names[n] {
					diff = append(diff, "not "+n)
				}
			}
			for n := range c.d.names {
				if !ref[n] {
					diff = append(diff, n+" in addition")
				}
			}
			sort.Strings(diff)
			if len(diff) > 0 {
				r.bad("plane", fname(c.f)+"|"+c.name+"|settings", c.pos, "component %s in %s is computed from other settings than in %s: %s", c.name, fname(c.f), refF, strings.Join(diff, ", "))
				continue
			}
			if o, ok := forms[g.fam]; !ok && c.d.forms != nil {
				forms[g.fam] = c
			} else if ok && c.d.forms != nil {
				var only, other []string
				for k := range c.d.forms {
					if !o.d.forms[k] {
						only = append(only, k)
					}
				}
				for k := range o.d.forms {
					if !c.d.forms[k] {
						other = append(other, k)
					}
				}
				sort.Strings(only)
				sort.Strings(other)
				if len(only) > 0 && len(other) > 0 {
					r.bad("plane", fname(c.f)+"|"+c.name+"|formula", c.pos, "component %s in %s is computed as %s, component %s in %s as %s", c.name, fname(c.f), only[0], o.name, fname(o.f), other[0])
					continue
				}
				if len(only)+len(other) > 0 {
					r.undecided("%s: component %s takes paths that %s in %s does not: %v %v", fname(c.f), c.name, o.name, fname(o.f), only, other)
				}
			}
			r.ob("plane", "%s: %s from one pixel and %d settings", fname(c.f), c.name, len(c.d.names))
		}
		if !g.mono && len(idx) == 3 {
			d1, d2 := idx["G"].add(idx["R"], -1), idx["B"].add(idx["G"], -1)
			switch {
			case len(d1) == 0 || len(d2) == 0:
				r.bad("plane", fname(g.f)+"|planes", g.cs[0].pos, "two colour components of %s are read from the same plane", fname(g.f))
			case !d1.eq(d2):
				if len(d1) == 1 && len(d2) == 1 && sameAtoms(d1, d2) {
					r.bad("plane", fname(g.f)+"|planes", g.cs[0].pos, "colour planes of %s are at unequal distances: %s and %s", fname(g.f), d1, d2)
				} else {
					r.undecided("%s: distance of the colour planes: %s and %s", fname(g.f), d1, d2)
				}
			default:
				r.ob("plane", "%s: planes in equal distance", fname(g.f))
			}
		}
	}
}

func sameAtoms(a, b poly) bool {
	for k := range a {
		if _, ok := b[k]; !ok {
			return false
		}
	}
	return true
}

// RGBA, Gray, ... of image/color
func colorType(t types.Type) string {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != "image/color" {
		return ""
	}
	switch n.Obj().Name() {
	case "RGBA", "RGBA64", "NRGBA", "NRGBA64", "Gray", "Gray16":
		return n.Obj().Name()
	}
	return ""
}

// polynomials take their atoms apart at operators, so compound atoms are written with others
func c17Atom(s string) string { return strings.NewReplacer("*", "·", "+", "﹢").Replace(s) }

// the possible formulas of a value: rational functions of the sample and the settings, one per path
func c17Forms(ce *ceval, x cx, depth int) (r []poly, ok bool) {
	x = ce.strip(x)
	if depth > 40 {
		return nil, false
	}
	rec := func(v ssa.Value) ([]poly, bool) { return c17Forms(ce, cx{v, x.e}, depth+1) }
	union := func(vs []ssa.Value) ([]poly, bool) {
		seen := map[string]bool{}
		for _, v := range vs {
			ps, ok := rec(v)
			if !ok {
				return nil, false
			}
			for _, p := range ps {
				if !seen[p.String()] {
					seen[p.String()] = true
					r = append(r, p)
				}
			}
		}
		return r, len(r) <= 16
	}
	cross := func(a, b ssa.Value, f func(p, q poly) poly) ([]poly, bool) {
		ps, ok1 := rec(a)
		qs, ok2 := rec(b)
		if !ok1 || !ok2 || len(ps)*len(qs) > 32 {
			return nil, false
		}
		seen := map[string]bool{}
		for _, p := range ps {
			for _, q := range qs {
				if m := f(p, q); !seen[m.String()] {
					seen[m.String()] = true
					r = append(r, m)
				}
			}
		}
		return r, true
	}
	switch v := x.v.(type) {
	case *ssa.Const:
		if f, ok := constFloat(v); ok {
			return []poly{constPoly(f)}, true
		}
	case *ssa.Parameter:
		return []poly{{c17Setting(ce.w, v): 1}}, true
	case *ssa.Phi:
		return union(v.Edges)
	case *ssa.Convert:
		return rec(v.X)
	case *ssa.BinOp:
		switch v.Op {
		case token.ADD:
			return cross(v.X, v.Y, func(p, q poly) poly { return p.add(q, 1) })
		case token.SUB:
			return cross(v.X, v.Y, func(p, q poly) poly { return p.add(q, -1) })
		case token.MUL:
			return cross(v.X, v.Y, func(p, q poly) poly { return p.mul(q) })
		case token.QUO:
			return cross(v.X, v.Y, func(p, q poly) poly {
				if k, ok := q.konst(); ok && k != 0 {
					return p.mul(constPoly(1 / k))
				}
				return p.mul(poly{c17Atom("1/(" + q.String() + ")"): 1})
			})
		}
	case *ssa.UnOp:
		if v.Op == token.SUB {
			ps, ok := rec(v.X)
			for i := range ps {
				ps[i] = ps[i].mul(constPoly(-1))
			}
			return ps, ok
		}
		if v.Op != token.MUL {
			return nil, false
		}
		switch a := v.X.(type) {
		case *ssa.IndexAddr:
			if sl, ok := a.X.Type().Underlying().(*types.Slice); ok && isFloatT(sl.Elem()) {
				return []poly{{"SAMPLE": 1}}, true
			}
		case *ssa.FieldAddr:
			return []poly{{"." + fieldName(a.X.Type(), a.Field): 1}}, true
		}
	case *ssa.Call:
		if b, ok := v.Call.Value.(*ssa.Builtin); ok && (b.Name() == "min" || b.Name() == "max") {
			return union(v.Call.Args)
		}
		t, mc := ce.callee(v, x.e)
		if t == nil {
			return nil, false
		}
		if t.Pkg != nil && t.Pkg.Pkg.Path() == "math" {
			switch t.Name() {
			case "Min", "Max":
				return union(v.Call.Args)
			case "Pow":
				return cross(v.Call.Args[0], v.Call.Args[1], func(p, q poly) poly {
					return poly{c17Atom("pow(" + p.String() + "; " + q.String() + ")"): 1}
				})
			}
			return nil, false
		}
		if !ce.w.inMod[t] || len(t.Blocks) == 0 || x.e.depth > 6 {
			return nil, false
		}
		env := ce.env(t, v, x.e, mc)
		for _, b := range t.Blocks {
			if b == t.Recover {
				continue
			}
			if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(rt.Results) == 1 {
				ps, ok := c17Forms(ce, cx{retVal(rt, 0), env}, depth+1)
				if !ok {
					return nil, false
				}
				r = append(r, ps...)
			}
		}
		return r, len(r) <= 16
	}
	return nil, false
}

func c17Collect(ce *ceval, x cx, root *ssa.Function, d *c17Deps, seen map[cx]bool, depth int) {
	x = ce.strip(x)
	if seen[x] {
		return
	}
	seen[x] = true
	if depth > 60 {
		d.unclear = true
		return
	}
	rec := func(v ssa.Value) { c17Collect(ce, cx{v, x.e}, root, d, seen, depth+1) }
	switch v := x.v.(type) {
	case *ssa.Const:
	case *ssa.Parameter:
		if v.Parent() == root {
			d.names[c17Setting(ce.w, v)] = true
		} else {
			d.unclear = true
		}
	case *ssa.Phi:
		for _, e := range v.Edges {
			rec(e)
		}
	case *ssa.BinOp:
		rec(v.X)
		rec(v.Y)
	case *ssa.Convert:
		rec(v.X)
	case *ssa.UnOp:
		if v.Op != token.MUL {
			rec(v.X)
			return
		}
		switch a := v.X.(type) {
		case *ssa.IndexAddr:
			if sl, ok := a.X.Type().Underlying().(*types.Slice); ok && isFloatT(sl.Elem()) {
				p := ce.lin(cx{a.Index, x.e})
				_, off := ce.buffer(cx{a.X, x.e})
				p = p.add(off, 1)
				d.samples[p.String()] = p
				return
			}
			d.unclear = true
		case *ssa.FieldAddr:
			d.names["."+fieldName(a.X.Type(), a.Field)] = true
		default:
			d.unclear = true
		}
	case *ssa.Call:
		if b, ok := v.Call.Value.(*ssa.Builtin); ok && (b.Name() == "min" || b.Name() == "max") {
			for _, g := range v.Call.Args {
				rec(g)
			}
			return
		}
		t, mc := ce.callee(v, x.e)
		if t != nil && t.Pkg != nil && t.Pkg.Pkg.Path() == "math" {
			for _, g := range v.Call.Args {
				rec(g)
			}
			return
		}
		if t == nil || !ce.w.inMod[t] || len(t.Blocks) == 0 || x.e.depth > 6 {
			d.unclear = true
			return
		}
		env := ce.env(t, v, x.e, mc)
		for _, b := range t.Blocks {
			if b == t.Recover {
				continue
			}
			if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(rt.Results) == 1 {
				c17Collect(ce, cx{retVal(rt, 0), env}, root, d, seen, depth+1)
			}
		}
	default:
		d.unclear = true
	}
}

// callers of a mono and the corresponding colour writer pass the same settings
func c17Args(w *World, r *Report) {
	for _, f := range w.Funcs {
		type call struct {
			ci ssa.CallInstruction
			t  *ssa.Function
		}
		byName := map[string][]call{}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				ci, ok := i.(ssa.CallInstruction)
				if !ok {
					continue
				}
				t := ci.Common().StaticCallee()
				if t == nil || !c17Writer(w, t) {
					continue
				}
				byName[strings.Replace(t.Name(), "Mono", "", 1)] = append(byName[strings.Replace(t.Name(), "Mono", "", 1)], call{ci, t})
			}
		}
		for n, cs := range byName {
			for _, c := range cs {
				// writers that only pass on their own parameters
				for k, p := range c.t.Params {
					if !isFloatT(p.Type()) {
						continue
					}
					arg := c.ci.Common().Args[k]
					if q, ok := arg.(*ssa.Parameter); ok {
						if c17Setting(w, q) != c17Setting(w, p) && hasParam(w, f, c17Setting(w, p)) {
							r.bad("args", fname(f)+"|"+p.Name(), w.ipos(c.ci), "%s passes its %s as the %s of %s", fname(f), q.Name(), p.Name(), fname(c.t))
						} else {
							r.ob("args", "%s hands %s to %s", fname(f), p.Name(), fname(c.t))
						}
						continue
					}
					if c == cs[0] {
						continue
					}
					// the same setting as the counterpart
					var other ssa.Value
					for j, q := range cs[0].t.Params {
						if c17Setting(w, q) == c17Setting(w, p) {
							other = cs[0].ci.Common().Args[j]
						}
					}
					if other == nil {
						continue
					}
					if a, b := c17Key(arg, 0), c17Key(other, 0); a != b && a != "" && b != "" {
						r.bad("args", fname(f)+"|"+n+"|"+p.Name(), w.ipos(c.ci), "%s and %s are given different values for %s", fname(c.t), fname(cs[0].t), p.Name())
					} else {
						r.ob("args", "%s: same %s for %s and %s", fname(f), p.Name(), fname(c.t), fname(cs[0].t))
					}
				}
			}
		}
	}
}

func hasParam(w *World, f *ssa.Function, n string) bool {
	for _, p := range f.Params {
		if c17Setting(w, p) == n {
			return true
		}
	}
	return false
}

func c17Writer(w *World, t *ssa.Function) bool {
	return w.inMod[t] && t.Parent() == nil && strings.HasPrefix(t.Name(), "Write") && (strings.Contains(t.Name(), "JPG") || strings.Contains(t.Name(), "TIFF"))
}

// the setting a parameter stands for: its name, or its place among the numbers given to a writer where they have different names
func c17Setting(w *World, p *ssa.Parameter) string {
	f := p.Parent()
	if !isFloatT(p.Type()) || !c17Writer(w, f) {
		return p.Name()
	}
	names := func(t *ssa.Function) (l []string) {
		for _, q := range t.Params {
			if isFloatT(q.Type()) {
				l = append(l, q.Name())
			}
		}
		return
	}
	own := names(f)
	set := append([]string{}, own...)
	sort.Strings(set)
	for _, t := range w.Funcs {
		if !c17Writer(w, t) {
			continue
		}
		other := names(t)
		if len(other) != len(own) {
			continue
		}
		sort.Strings(other)
		if strings.Join(other, " ") != strings.Join(set, " ") {
			for k, n := range own {
				if n == p.Name() {
					return fmt.Sprintf("setting %d", k+1)
				}
			}
		}
	}
	return p.Name()
}

func c17Key(v ssa.Value, d int) string {
	if d > 6 {
		return ""
	}
	switch x := v.(type) {
	case *ssa.Const:
		f, _ := constFloat(x)
		return fmt.Sprint("const ", f)
	case *ssa.Convert:
		return c17Key(x.X, d+1)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if fa, ok := x.X.(*ssa.FieldAddr); ok {
				return "field " + fieldName(fa.X.Type(), fa.Field) + " of " + c17Key(fa.X, d+1)
			}
			if al, ok := x.X.(*ssa.Alloc); ok {
				return fmt.Sprintf("%p", al)
			}
		}
	}
	return fmt.Sprintf("%p", v)
}
