package main

// Polynomial normal forms of SSA expressions: sums of products of atoms. Used to compare arithmetic independent of how it
// is written.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type poly map[string]float64 // monomial (sorted atoms joined by *) -> coefficient

type polyEnv struct {
	w     *World
	atom  func(v ssa.Value) (poly, bool) // overrides for particular values
	names map[ssa.Value]string
	depth int
	bad   bool // met something that is not a polynomial (kept as an atom)
}

func constPoly(c float64) poly {
	if c == 0 {
		return poly{}
	}
	return poly{"": c}
}

func (p poly) add(q poly, k float64) poly {
	o := poly{}
	for m, c := range p {
		o[m] += c
	}
	for m, c := range q {
		o[m] += c * k
	}
	for m, c := range o {
		if c == 0 {
			delete(o, m)
		}
	}
	return o
}

func (p poly) mul(q poly) poly {
	o := poly{}
	for m, c := range p {
		for n, d := range q {
			var parts []string
			if m != "" {
				parts = append(parts, strings.Split(m, "*")...)
			}
			if n != "" {
				parts = append(parts, strings.Split(n, "*")...)
			}
			sort.Strings(parts)
			o[strings.Join(parts, "*")] += c * d
		}
	}
	for m, c := range o {
		if c == 0 {
			delete(o, m)
		}
	}
	return o
}

func (p poly) eq(q poly) bool { return len(p.add(q, -1)) == 0 }

func (p poly) konst() (float64, bool) {
	if len(p) == 0 {
		return 0, true
	}
	c, ok := p[""]
	return c, ok && len(p) == 1
}

func (p poly) String() string {
	var ms []string
	for m := range p {
		ms = append(ms, m)
	}
	sort.Strings(ms)
	var b []string
	for _, m := range ms {
		if m == "" {
			b = append(b, fmt.Sprintf("%g", p[m]))
		} else {
			b = append(b, fmt.Sprintf("%g*%s", p[m], m))
		}
	}
	if len(b) == 0 {
		return "0"
	}
	return strings.Join(b, "+")
}

func newPolyEnv(w *World, atom func(v ssa.Value) (poly, bool)) *polyEnv {
	return &polyEnv{w: w, atom: atom, names: map[ssa.Value]string{}}
}

func (e *polyEnv) name(v ssa.Value) string {
	if n, ok := e.names[v]; ok {
		return n
	}
	n := fmt.Sprintf("v%d", len(e.names))
	e.names[v] = n
	return n
}

func constFloat(c *ssa.Const) (float64, bool) {
	if c.Value == nil {
		return 0, false
	}
	v := constant.ToFloat(c.Value)
	if v.Kind() != constant.Float && v.Kind() != constant.Int {
		return 0, false
	}
	f, _ := constant.Float64Val(v)
	return f, true
}

func (e *polyEnv) of(v ssa.Value) poly {
	if e.atom != nil {
		if p, ok := e.atom(v); ok {
			return p
		}
	}
	switch x := v.(type) {
	case *ssa.Const:
		if f, ok := constFloat(x); ok {
			return constPoly(f)
		}
	case *ssa.Convert:
		if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsNumeric != 0 {
			return e.of(x.X)
		}
	case *ssa.ChangeType:
		return e.of(x.X)
	case *ssa.UnOp:
		if x.Op == token.SUB {
			return poly{}.add(e.of(x.X), -1)
		}
		if x.Op == token.MUL {
			if p := e.load(x); p != nil {
				return p
			}
		}
	case *ssa.BinOp:
		switch x.Op {
		case token.ADD:
			return e.of(x.X).add(e.of(x.Y), 1)
		case token.SUB:
			return e.of(x.X).add(e.of(x.Y), -1)
		case token.MUL:
			return e.of(x.X).mul(e.of(x.Y))
		case token.QUO:
			if isFloatT(x.Type()) {
				if k, ok := e.of(x.Y).konst(); ok && k != 0 {
					return e.of(x.X).mul(constPoly(1 / k))
				}
			}
		case token.SHL:
			if k, ok := e.of(x.Y).konst(); ok && k >= 0 && k < 62 {
				return e.of(x.X).mul(constPoly(float64(int64(1) << uint(k))))
			}
		}
	case *ssa.Call:
		// a helper that computes a single expression
		if t := x.Call.StaticCallee(); t != nil && len(t.Blocks) == 1 && e.depth < 4 && t.Signature.Results().Len() == 1 {
			if rt, ok := t.Blocks[0].Instrs[len(t.Blocks[0].Instrs)-1].(*ssa.Return); ok {
				args := map[ssa.Value]ssa.Value{}
				for i, p := range t.Params {
					args[p] = x.Call.Args[i]
				}
				inner := &polyEnv{w: e.w, names: e.names, depth: e.depth + 1}
				inner.atom = func(v ssa.Value) (poly, bool) {
					if a, ok := args[v]; ok {
						return e.of(a), true
					}
					return nil, false
				}
				return inner.of(rt.Results[0])
			}
		}
	}
	return poly{e.name(v): 1}
}

// a load of a local variable or struct field that is assigned only once
func (e *polyEnv) load(u *ssa.UnOp) poly {
	if v := singleStore(u.X); v != nil {
		return e.of(v)
	}
	return nil
}

// the only value ever stored to a local address (variable, captured variable or field of a local struct), if there is one
func singleStore(addr ssa.Value) ssa.Value {
	switch a := addr.(type) {
	case *ssa.Alloc:
		return onlyStore(a)
	case *ssa.FieldAddr:
		al, ok := a.X.(*ssa.Alloc)
		if !ok {
			return nil
		}
		var val ssa.Value
		n := 0
		for _, r := range *al.Referrers() {
			switch r := r.(type) {
			case *ssa.FieldAddr:
				for _, rr := range *r.Referrers() {
					switch rr := rr.(type) {
					case *ssa.Store:
						if rr.Addr == ssa.Value(r) && r.Field == a.Field {
							val = rr.Val
							n++
						} else if rr.Val == ssa.Value(r) {
							return nil
						}
					case *ssa.UnOp, *ssa.DebugRef:
					default:
						return nil
					}
				}
			case *ssa.Store:
				if r.Addr == ssa.Value(al) {
					// whole struct assigned
					if n > 0 {
						return nil
					}
					val = fieldOf(r.Val, a.Field)
					n++
					if val == nil {
						return nil
					}
				} else {
					return nil
				}
			case *ssa.UnOp, *ssa.DebugRef, *ssa.MakeInterface:
			default:
				return nil
			}
		}
		if n == 1 {
			return val
		}
	case *ssa.FreeVar:
		if b := freeVarBinding(a); b != nil {
			return singleStore(b)
		}
	}
	return nil
}

func onlyStore(a *ssa.Alloc) ssa.Value {
	var val ssa.Value
	for _, r := range *a.Referrers() {
		switch r := r.(type) {
		case *ssa.Store:
			if r.Addr != ssa.Value(a) {
				return nil
			}
			if u, ok := r.Val.(*ssa.UnOp); ok && u.Op == token.MUL && u.X == ssa.Value(a) {
				continue // stored back unchanged, as when returning a named result
			}
			if val != nil {
				return nil
			}
			val = r.Val
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.MakeClosure:
			// captured: written inside?
			fn := r.Fn.(*ssa.Function)
			for k, b := range r.Bindings {
				if b == ssa.Value(a) && writesFreeVar(fn, k, 0) {
					return nil
				}
			}
		default:
			return nil
		}
	}
	return val
}

func writesFreeVar(fn *ssa.Function, k int, d int) bool {
	fv := fn.FreeVars[k]
	for _, r := range *fv.Referrers() {
		switch r := r.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.MakeClosure:
			in := r.Fn.(*ssa.Function)
			for j, b := range r.Bindings {
				if b == ssa.Value(fv) && (d > 4 || writesFreeVar(in, j, d+1)) {
					return true
				}
			}
		default:
			return true
		}
	}
	return false
}

// the value bound to a free variable, if its closure is created at a single place
func freeVarBinding(fv *ssa.FreeVar) ssa.Value {
	fn := fv.Parent()
	idx := -1
	for i, v := range fn.FreeVars {
		if v == fv {
			idx = i
		}
	}
	p := fn.Parent()
	if p == nil || idx < 0 {
		return nil
	}
	var res ssa.Value
	for _, b := range p.Blocks {
		for _, i := range b.Instrs {
			if mc, ok := i.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(fn) {
				if res != nil && res != mc.Bindings[idx] {
					return nil
				}
				res = mc.Bindings[idx]
			}
		}
	}
	return res
}

// the value of field k of struct value v, if v is a composite assembled locally
func fieldOf(v ssa.Value, k int) ssa.Value {
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return fieldOf(x.X, k)
	case *ssa.ChangeType:
		return fieldOf(x.X, k)
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return nil
		}
		al, ok := x.X.(*ssa.Alloc)
		if !ok {
			return nil
		}
		var val ssa.Value
		n := 0
		for _, r := range *al.Referrers() {
			switch r := r.(type) {
			case *ssa.FieldAddr:
				if r.Field != k {
					continue
				}
				for _, rr := range *r.Referrers() {
					if st, ok := rr.(*ssa.Store); ok && st.Addr == ssa.Value(r) {
						val = st.Val
						n++
					}
				}
			case *ssa.Store:
				if r.Addr == ssa.Value(al) {
					val = fieldOf(r.Val, k)
					n++
				}
			}
		}
		if n == 1 {
			return val
		}
	}
	return nil
}
