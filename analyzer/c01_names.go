package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// which statistic a value is: determined from the getter it was read with, the named result of the function that computed it, or
// the parameter it arrived in. "" when unknown.
var statNames = map[string]string{"min": "min", "max": "max", "mean": "mean", "stddev": "stdDev", "location": "location", "loc": "location", "scale": "scale", "noise": "noise",
	"minimum": "min", "maximum": "max", "average": "mean", "sigma": "", "width": ""}

func (c *c01) kindOfStat(v ssa.Value, d int) string {
	if d > 4 {
		return ""
	}
	switch x := v.(type) {
	case *ssa.Convert:
		return c.kindOfStat(x.X, d+1)
	case *ssa.Parameter:
		if x.Parent().Pkg == c.w.pkg("internal/stats") {
			return statNames[strings.ToLower(x.Name())]
		}
	case *ssa.Extract:
		if call, ok := x.Tuple.(*ssa.Call); ok {
			if t := call.Call.StaticCallee(); t != nil && t.Pkg == c.w.pkg("internal/stats") {
				return statNames[strings.ToLower(t.Signature.Results().At(x.Index).Name())]
			}
		}
	case *ssa.Call:
		t := x.Call.StaticCallee()
		if t == nil || t.Pkg != c.w.pkg("internal/stats") {
			return ""
		}
		if len(t.Params) == 1 && c.isStats(t.Params[0].Type()) {
			return statNames[strings.ToLower(t.Name())]
		}
		n := strings.ToLower(t.Name())
		if strings.Contains(n, "noise") {
			return "noise"
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if fa, ok := x.X.(*ssa.FieldAddr); ok && c.isStats(fa.X.Type()) {
				return statNames[strings.ToLower(fieldName(fa.X.Type(), fa.Field))]
			}
		}
	}
	return ""
}

// location and scale may be defined as mean and standard deviation
func statCompatible(want, got string) bool {
	return want == "" || got == "" || want == got || want == "location" && got == "mean" || want == "scale" && got == "stdDev"
}

func (c *c01) statKinds() {
	w, r := c.w, c.r
	r.rule("stat-kind", "each cached statistic is filled, supplied and returned as the statistic it is named after", 20)
	sp := w.pkg("internal/stats")
	for _, f := range w.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch i := in.(type) {
				case *ssa.Store:
					fa, ok := i.Addr.(*ssa.FieldAddr)
					if !ok || !c.isStats(fa.X.Type()) || !isFloatT(i.Val.Type()) {
						continue
					}
					fld := statNames[strings.ToLower(fieldName(fa.X.Type(), fa.Field))]
					got := c.kindOfStat(i.Val, 0)
					if fld == "" || got == "" {
						continue
					}
					if c.class[f] != nil && anyEv(c.class[f], evUpdate) {
						continue // judged by cache-update
					}
					r.ob("stat-kind", "%s stores %s as %s", fname(f), got, fld)
					if !statCompatible(fld, got) {
						r.bad("stat-kind", fname(f)+"|"+fld, w.ipos(i), "%s stores the %s as the cached %s", fname(f), got, fld)
					}
				case *ssa.Return:
					if f.Pkg != sp || len(f.Params) != 1 || !c.isStats(f.Params[0].Type()) || len(i.Results) != 1 {
						continue
					}
					want := statNames[strings.ToLower(f.Name())]
					got := c.kindOfStat(i.Results[0], 0)
					if want == "" || got == "" {
						continue
					}
					r.ob("stat-kind", "%s returns %s", fname(f), got)
					if got != want {
						r.bad("stat-kind", fname(f)+"|return", w.ipos(i), "%s returns the cached %s", fname(f), got)
					}
				case ssa.CallInstruction:
					t := i.Common().StaticCallee()
					if t == nil || t.Pkg != sp {
						continue
					}
					for k, p := range t.Params {
						if k >= len(i.Common().Args) || !isFloatT(p.Type()) {
							continue
						}
						want, got := statNames[strings.ToLower(p.Name())], c.kindOfStat(i.Common().Args[k], 0)
						if want == "" || got == "" {
							continue
						}
						r.ob("stat-kind", "%s passes %s to parameter %s of %s", fname(f), got, p.Name(), fname(t))
						ok := want == got || want == "location" && (got == "mean" || got == "location")
						if !ok {
							r.bad("stat-kind", fname(f)+"|"+fname(t)+"|"+p.Name(), w.ipos(i), "%s passes the %s as %s to %s", fname(f), got, want, fname(t))
						}
					}
				}
			}
		}
	}
	// statistics objects of an image describe the whole image and its row length
	r.rule("whole-image", "statistics attached to an image are created for its whole pixel buffer and its row length", 8)
	for _, f := range w.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok || c.imgFieldAddr(st.Addr, "Stats") == nil {
					continue
				}
				call, ok := st.Val.(*ssa.Call)
				if !ok || call.Call.StaticCallee() == nil {
					continue
				}
				t := call.Call.StaticCallee()
				if _, ok := c.ctor[t]; !ok {
					continue
				}
				r.ob("whole-image", "%s at %s", fname(f), w.ipos(st))
				if c.storesPart(t) {
					r.bad("whole-image", fname(f)+"|part", w.ipos(st), "%s gives the image statistics of a part of its pixels (%s)", fname(f), fname(t))
				}
				for k, p := range t.Params {
					if b, ok := p.Type().Underlying().(*types.Basic); !ok || b.Kind() != types.Int32 || k >= len(call.Call.Args) {
						continue
					}
					if bad := c.notWidth(call.Call.Args[k]); bad != "" && strings.Contains(strings.ToLower(p.Name()), "w") {
						r.bad("whole-image", fname(f)+"|width", w.ipos(st), "%s creates statistics with %s instead of the row length", fname(f), bad)
					}
				}
			}
		}
	}
}

func anyEv(m map[int]statsEvent, ev statsEvent) bool {
	for _, e := range m {
		if e == ev {
			return true
		}
	}
	return false
}

func (c *c01) storesPart(t *ssa.Function) bool {
	for _, b := range t.Blocks {
		for _, in := range b.Instrs {
			if st, ok := in.(*ssa.Store); ok {
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok && c.isData(fa) {
					if sl, ok := st.Val.(*ssa.Slice); ok && (sl.Low != nil || sl.High != nil) {
						return true
					}
				}
			}
		}
	}
	return false
}

func (c *c01) notWidth(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.Convert:
		return c.notWidth(x.X)
	case *ssa.Const:
		return "constant " + x.Value.String()
	case *ssa.UnOp:
		if ia, ok := x.X.(*ssa.IndexAddr); ok && x.Op == token.MUL {
			if k, ok := ia.Index.(*ssa.Const); ok && k.Int64() != 0 {
				return "axis " + k.Value.String()
			}
		}
	}
	return ""
}
