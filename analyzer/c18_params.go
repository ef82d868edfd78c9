package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C18: job parameters cannot crash the process.
//
// Values which depend on numeric parameters of operators are followed through arithmetic, calls, results, fields and loop
// bounds. Where such a value divides, sizes an allocation, or selects an element or range, linear arithmetic over the
// conditions on the way must show that it is valid.

func init() {
	register("C18", "job parameters: values depending on operator parameters (interprocedural, through arithmetic, fields and loop bounds) are proved valid by linear arithmetic where they divide, allocate, index or slice; no deliberate panic or exit reachable from operators; pointers which JSON can leave nil are tested before use", runC18)
}

type c18 struct {
	w       *World
	r       *Report
	p       *prover
	taint   map[ssa.Value]string // why: the parameter it depends on
	fields  map[string]string    // fields holding such values
	params  map[string]bool
	strings map[string]bool
	nodes   []ssa.Value
	implied map[ssa.Value][]ssa.Value // counters to values which decide when their loop ends
	parsed  map[ssa.Value]string      // numbers parsed from parameters which are strings
	stores  map[string][]*ssa.Store
}

// fields of operators set from JSON: key to description
func (c *c18) parameters() {
	var add func(t types.Type, d int)
	seen := map[string]bool{}
	add = func(t types.Type, d int) {
		st, ok := deref(t).Underlying().(*types.Struct)
		if !ok || d > 5 || seen[t.String()] {
			return
		}
		seen[t.String()] = true
		for i := 0; i < st.NumFields(); i++ {
			v := st.Field(i)
			if !v.Exported() || strings.Contains(st.Tag(i), `json:"-"`) {
				continue
			}
			b, ok := v.Type().Underlying().(*types.Basic)
			if ok && b.Info()&types.IsNumeric != 0 {
				c.params[deref(t).String()+"."+v.Name()] = true
				continue
			}
			if ok && b.Info()&types.IsString != 0 {
				c.strings[deref(t).String()+"."+v.Name()] = true
			}
			if _, ok := deref(v.Type()).Underlying().(*types.Struct); ok {
				if n, ok := deref(v.Type()).(*types.Named); ok && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), Mod) {
					add(v.Type(), d+1)
				}
			}
		}
	}
	for _, o := range c.w.operators() {
		add(o.named, 0)
	}
}

func (c *c18) mark(v ssa.Value, why string) {
	if v == nil {
		return
	}
	if _, ok := c.taint[v]; ok {
		return
	}
	switch t := v.Type().Underlying().(type) {
	case *types.Basic:
		if t.Info()&types.IsNumeric == 0 {
			return
		}
	case *types.Tuple, *types.Pointer:
	case *types.Slice: // of its length
	default:
		return
	}
	c.taint[v] = why
	c.nodes = append(c.nodes, v)
}

func (c *c18) spread() {
	// sources
	loads := map[string][]ssa.Value{}
	for _, f := range c.w.Funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				switch x := i.(type) {
				case *ssa.UnOp:
					if fa, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL {
						loads[fieldKey(fa)] = append(loads[fieldKey(fa)], x)
					}
				case *ssa.Store:
					if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
						c.stores[fieldKey(fa)] = append(c.stores[fieldKey(fa)], x)
					}
				case *ssa.Field:
					k := x.X.Type().String() + "." + fieldName(x.X.Type(), x.Field)
					loads[k] = append(loads[k], x)
				}
			}
		}
	}
	c.parsed = map[ssa.Value]string{}
	for _, f := range c.w.Funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				cl, ok := i.(*ssa.Call)
				if !ok {
					continue
				}
				switch calleeName(&cl.Call) {
				case "strconv.Atoi", "strconv.ParseInt", "strconv.ParseUint", "strconv.ParseFloat":
				default:
					continue
				}
				fa := loadedField(cl.Call.Args[0])
				if fa == nil || !c.strings[fieldKey(fa)] {
					continue
				}
				for _, ri := range *cl.Referrers() {
					if ex, ok := ri.(*ssa.Extract); ok && ex.Index == 0 {
						c.parsed[ex] = fieldKey(fa)
						c.mark(ex, fieldKey(fa))
					}
				}
			}
		}
	}
	var ks []string
	for k := range c.params {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		for _, v := range loads[k] {
			c.mark(v, k)
		}
	}
	for len(c.nodes) > 0 {
		v := c.nodes[0]
		c.nodes = c.nodes[1:]
		why := c.taint[v]
		if v.Referrers() == nil {
			continue
		}
		for _, i := range *v.Referrers() {
			switch x := i.(type) {
			case *ssa.BinOp:
				switch x.Op {
				case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
					// bounds a counter
					if l := loopOf(x.Block()); l != nil {
						for _, e := range l.exits() {
							iff, ok := e.from.Instrs[len(e.from.Instrs)-1].(*ssa.If)
							if !ok {
								continue
							}
							cv, _ := stripNot(iff.Cond)
							if cv != ssa.Value(x) {
								continue
							}
							for _, o := range []ssa.Value{x.X, x.Y} {
								o = stripConv(o)
								if ph, ok := o.(*ssa.Phi); ok && ph.Block() == l.head && isInt(ph.Type()) {
									c.mark(ph, why)
								}
							}
							// or how often others are stepped
							for _, pi := range l.head.Instrs {
								if ph, ok := pi.(*ssa.Phi); ok && isInt(ph.Type()) && !counts(l, ph) && stepped(l, ph) && computedFrom(x, ph, 0) {
									c.mark(ph, why)
									c.implied[ph] = append(c.implied[ph], v)
								}
							}
						}
					}
				default:
					c.mark(x, why)
				}
			case *ssa.MakeSlice:
				if x.Len == v {
					c.mark(x, why)
				}
			case *ssa.Convert:
				c.mark(x, why)
			case *ssa.ChangeType:
				c.mark(x, why)
			case *ssa.Phi:
				c.mark(x, why)
			case *ssa.Extract:
				c.mark(x, why)
			case *ssa.UnOp:
				if x.Op == token.SUB || x.Op == token.XOR {
					c.mark(x, why)
				} else if x.Op == token.MUL {
					c.mark(x, why)
				}
			case *ssa.Store:
				if x.Val != v {
					continue
				}
				if _, ok := v.Type().Underlying().(*types.Slice); ok {
					continue
				}
				if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
					k := fieldKey(fa)
					if _, done := c.fields[k]; !done && strings.HasPrefix(strings.TrimPrefix(k, "*"), Mod) {
						c.fields[k] = why
						for _, l := range loads[k] {
							c.mark(l, why)
						}
					}
				}
				if al, ok := x.Addr.(*ssa.Alloc); ok {
					c.mark(al, why)
				}
				if fv, ok := x.Addr.(*ssa.FreeVar); ok {
					c.mark(fv, why)
				}
			case *ssa.MakeClosure:
				fn := x.Fn.(*ssa.Function)
				for k, b := range x.Bindings {
					if b == v {
						c.mark(fn.FreeVars[k], why)
					}
				}
			case *ssa.Return:
				f := x.Parent()
				for k, res := range x.Results {
					if res != v {
						continue
					}
					for _, s := range c.w.calls().callers[f] {
						if cv, ok := s.(*ssa.Call); ok {
							if f.Signature.Results().Len() == 1 {
								c.mark(cv, why)
							} else if cv.Referrers() != nil {
								for _, ri := range *cv.Referrers() {
									if ex, ok := ri.(*ssa.Extract); ok && ex.Index == k {
										c.mark(ex, why)
									}
								}
							}
						}
					}
				}
			case ssa.CallInstruction:
				n := calleeName(x.Common())
				if strings.HasPrefix(n, "math.") || n == "builtin.min" || n == "builtin.max" || n == "builtin.len" || n == "builtin.cap" {
					if cv, ok := x.(*ssa.Call); ok {
						c.mark(cv, why)
					}
					continue
				}
				for _, t := range c.w.calls().callees[x] {
					if !c.w.inMod[t] {
						continue
					}
					for _, pr := range t.Params {
						if argFor(pr, t, x) == v {
							c.mark(pr, why)
						}
					}
				}
			}
		}
	}
}

func runC18(w *World, r *Report) {
	r.rule("divide", "integer divisions by values depending on parameters", 1)
	r.rule("allocate", "allocations sized by values depending on parameters", 1)
	r.rule("index", "element accesses with indices depending on parameters", 1)
	r.rule("panic", "deliberate panics and exits in functions reachable from operators", 1)
	r.rule("nil", "uses of pointers which a job can leave null", 1)
	c := &c18{w: w, r: r, taint: map[ssa.Value]string{}, implied: map[ssa.Value][]ssa.Value{}, fields: map[string]string{}, params: map[string]bool{}, strings: map[string]bool{}, stores: map[string][]*ssa.Store{}}
	c.parameters()
	c.spread()
	c.p = newProver(w, nil)
	for _, f := range w.Funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				c.instr(f, b, i)
			}
		}
	}
	c.panics()
	c.pointers()
}

func (c *c18) instr(f *ssa.Function, b *ssa.BasicBlock, i ssa.Instruction) {
	switch x := i.(type) {
	case *ssa.BinOp:
		if (x.Op == token.QUO || x.Op == token.REM) && isInt(x.Type()) {
			if _, ok := c.taint[x.Y]; ok {
				c.sink("divide", f, i, "divides by "+c.name(x.Y), x.Y, c18Need{nonzero: true}, func() bool { return c.p.ne0(b, c.p.lin(x.Y)) == vProved })
			}
		}
		if x.Op == token.SHL || x.Op == token.SHR {
			if _, ok := c.taint[x.Y]; ok && !isUnsigned(x.Y.Type()) {
				c.sink("divide", f, i, "shifts by "+c.name(x.Y), x.Y, c18Need{lower: true}, func() bool { return c.p.ge0(b, c.p.lin(x.Y)) == vProved })
			}
		}
	case *ssa.MakeSlice:
		for _, n := range []ssa.Value{x.Len, x.Cap} {
			if _, ok := c.taint[n]; ok {
				c.sink("allocate", f, i, "allocates "+c.name(n)+" elements", n, c18Need{lower: true, upper: true}, func() bool { return false })
				break
			}
		}
	case *ssa.IndexAddr:
		c.elem(f, b, i, x.X, x.Index)
	case *ssa.Index:
		c.elem(f, b, i, x.X, x.Index)
	case *ssa.Lookup:
		if _, ok := x.X.Type().Underlying().(*types.Basic); ok {
			c.elem(f, b, i, x.X, x.Index)
		}
	case *ssa.Slice:
		for k, n := range []ssa.Value{x.Low, x.High, x.Max} {
			if _, ok := c.taint[n]; ok {
				q := c.p.lin(n)
				what := []string{"slices from ", "slices up to ", "slices up to "}[k]
				c.sink("index", f, i, what+c.name(n), n, c18Need{lower: true, upper: true}, func() bool {
					return c.p.ge0(b, q) == vProved && c.p.ge0(b, c.p.lenOf(x.X).add(q, -1)) == vProved
				})
			}
		}
	case *ssa.Call:
		switch calleeName(&x.Call) {
		case "strings.Repeat", "bytes.Repeat", "math/rand.Intn", "math/rand.Int31n", "math/rand.Int63n", "time.NewTicker":
			n := x.Call.Args[len(x.Call.Args)-1]
			if _, ok := c.taint[n]; ok {
				c.sink("allocate", f, i, "calls "+calleeName(&x.Call)+" with "+c.name(n), n, c18Need{lower: true, upper: true}, func() bool { return false })
			}
		}
	}
}

func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

func (c *c18) elem(f *ssa.Function, b *ssa.BasicBlock, i ssa.Instruction, x, idx ssa.Value) {
	if _, ok := c.taint[idx]; !ok {
		return
	}
	q := c.p.lin(idx)
	c.sink("index", f, i, "accesses element "+c.name(idx), idx, c18Need{lower: true, upper: true}, func() bool {
		return c.p.ge0(b, q) == vProved && c.p.ge0(b, c.p.lenOf(x).add(q, -1).add(constPoly(1), -1)) == vProved
	})
}

func (c *c18) name(v ssa.Value) string { return c.p.show(c.p.lin(v)) }

// what has to be known about a value
type c18Need struct {
	lower, upper, nonzero bool
}

func (n c18Need) none() bool { return !n.lower && !n.upper && !n.nonzero }

func (n c18Need) String() string {
	var s []string
	if n.nonzero {
		s = append(s, "is not zero")
	}
	if n.lower {
		s = append(s, "is not negative")
	}
	if n.upper {
		s = append(s, "is not too large")
	}
	return strings.Join(s, " and ")
}

func (c *c18) sink(rule string, f *ssa.Function, i ssa.Instruction, what string, v ssa.Value, need c18Need, proof func() bool) {
	if proof() {
		c.r.ob(rule, "%s: %s %s, proved valid", c.w.ipos(i), fname(f), what)
		return
	}
	q := &c18query{c: c, missing: map[string]c18Need{}, seen: map[string]bool{}}
	q.walk(v, i.Block(), nil, need, 0)
	if len(q.missing) == 0 {
		if q.lost != "" {
			c.r.undecided("%s: %s %s: %s", c.w.ipos(i), fname(f), what, q.lost)
			return
		}
		c.r.ob(rule, "%s: %s %s, which depends on parameters checked before", c.w.ipos(i), fname(f), what)
		return
	}
	var ps []string
	for p := range q.missing {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	for _, p := range ps {
		short := strings.TrimPrefix(p, Mod+"/internal/")
		c.r.bad(rule, fname(f)+"|"+short, c.w.ipos(i), "%s %s, which depends on the parameter %s, and nothing checks that it %s", fname(f), what, short, q.missing[p])
	}
}

type c18query struct {
	c       *c18
	missing map[string]c18Need
	seen    map[string]bool
	lost    string
}

// is what is needed established by conditions for v at block b, when the edge to next is taken if that is given
func (q *c18query) walk(v ssa.Value, b *ssa.BasicBlock, next *ssa.BasicBlock, need c18Need, d int) {
	c := q.c
	if _, ok := c.taint[v]; !ok || need.none() {
		return
	}
	nb := -1
	if next != nil {
		nb = next.Index
	}
	key := fmt.Sprintf("%p %p %d %v", v, b, nb, need)
	if q.seen[key] {
		return
	}
	q.seen[key] = true
	if d > 60 {
		q.lost = "too deep"
		return
	}
	need = q.reduce(v, b, next, need)
	if need.none() {
		return
	}
	switch x := v.(type) {
	case *ssa.Parameter:
		f := x.Parent()
		found := false
		for _, s := range c.w.calls().callers[f] {
			if a := argFor(x, f, s); a != nil {
				found = true
				q.walk(a, s.Block(), nil, need, d+1)
			}
		}
		_ = found
	case *ssa.FreeVar:
		if bd := freeVarBinding(x); bd != nil {
			q.walk(bd, b, next, need, d+1)
		}
	case *ssa.Alloc:
		for _, r := range *x.Referrers() {
			if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(x) {
				q.walk(st.Val, st.Block(), nil, need, d+1)
			}
		}
	case *ssa.Phi:
		l := loopOf(x.Block())
		counter := l != nil && l.head == x.Block()
		for k, e := range x.Edges {
			pr := x.Block().Preds[k]
			if counter && l.body[pr] {
				// steps of the counter
				if bo, ok := e.(*ssa.BinOp); ok && (bo.Op == token.ADD || bo.Op == token.SUB) && bo.X == ssa.Value(x) {
					continue
				}
			}
			q.walk(e, pr, x.Block(), need, d+1)
		}
		if counter {
			// bounded by the conditions of the loop
			for _, o := range q.loopBounds(l, x) {
				n := need
				n.lower, n.nonzero = false, false
				q.walk(o, l.head, nil, n, d+1)
			}
			for _, o := range q.c.implied[x] {
				q.walk(o, l.head, nil, c18Need{upper: need.upper}, d+1)
			}
		}
	case *ssa.BinOp:
		switch x.Op {
		case token.REM:
			q.walk(x.X, b, next, c18Need{lower: need.lower}, d+1)
			return
		case token.AND:
			if _, ok := c.taint[x.Y]; !ok {
				return
			}
			if _, ok := c.taint[x.X]; !ok {
				return
			}
		case token.QUO:
			if _, ok := c.taint[x.X]; !ok && isInt(x.Type()) {
				q.walk(x.Y, b, next, c18Need{lower: need.lower, nonzero: need.nonzero, upper: need.nonzero}, d+1)
				return
			}
		case token.SUB:
			q.walk(x.X, b, next, need, d+1)
			n := c18Need{lower: need.upper, upper: need.lower || need.nonzero, nonzero: false}
			q.walk(x.Y, b, next, n, d+1)
			return
		case token.SHR:
			q.walk(x.X, b, next, need, d+1)
			return
		}
		q.walk(x.X, b, next, need, d+1)
		q.walk(x.Y, b, next, need, d+1)
	case *ssa.MakeSlice:
		need.lower = false // lengths are not negative
		q.walk(x.Len, x.Block(), nil, need, d+1)
	case *ssa.Convert:
		q.walk(x.X, b, next, need, d+1)
	case *ssa.ChangeType:
		q.walk(x.X, b, next, need, d+1)
	case *ssa.Extract:
		if k := c.parsed[x]; k != "" {
			m := q.missing[k]
			m.lower, m.upper, m.nonzero = m.lower || need.lower, m.upper || need.upper, m.nonzero || need.nonzero
			q.missing[k] = m
			return
		}
		if cl, ok := x.Tuple.(*ssa.Call); ok {
			q.results(cl, x.Index, need, d)
		}
	case *ssa.Call:
		n := calleeName(&x.Call)
		if n == "builtin.min" || n == "builtin.max" {
			var untainted bool
			for _, a := range x.Call.Args {
				if _, ok := c.taint[a]; !ok {
					untainted = true
				}
			}
			if untainted && n == "builtin.min" {
				need.upper = false
			}
			if untainted && n == "builtin.max" {
				need.lower, need.nonzero = false, false
			}
		}
		if strings.HasPrefix(n, "math.") || strings.HasPrefix(n, "builtin.") {
			for _, a := range x.Call.Args {
				q.walk(a, b, next, need, d+1)
			}
			return
		}
		q.results(x, 0, need, d)
	case *ssa.UnOp:
		if x.Op != token.MUL {
			q.walk(x.X, b, next, c18Need{lower: need.upper, upper: need.lower, nonzero: need.nonzero}, d+1)
			return
		}
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			q.field(fieldKey(fa), need, d)
			return
		}
		q.walk(x.X, b, next, need, d+1)
	case *ssa.Field:
		q.field(x.X.Type().String()+"."+fieldName(x.X.Type(), x.Field), need, d)
	}
}

// is a value compared in a condition which ends the loop
func counts(l *loop, ph *ssa.Phi) bool {
	for _, e := range l.exits() {
		iff, ok := e.from.Instrs[len(e.from.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		v, _ := stripNot(iff.Cond)
		if bo, ok := v.(*ssa.BinOp); ok && (stripConv(bo.X) == ssa.Value(ph) || stripConv(bo.Y) == ssa.Value(ph)) {
			return true
		}
	}
	return false
}

// does a value depend on another by arithmetic and calls
func computedFrom(v, from ssa.Value, d int) bool {
	if v == from {
		return true
	}
	if d > 10 {
		return false
	}
	switch x := v.(type) {
	case *ssa.BinOp:
		return computedFrom(x.X, from, d+1) || computedFrom(x.Y, from, d+1)
	case *ssa.Convert:
		return computedFrom(x.X, from, d+1)
	case *ssa.UnOp:
		return x.Op != token.MUL && computedFrom(x.X, from, d+1)
	case *ssa.Call:
		for _, a := range x.Call.Args {
			if computedFrom(a, from, d+1) {
				return true
			}
		}
	}
	return false
}

// is a value changed by a constant in every round
func stepped(l *loop, ph *ssa.Phi) bool {
	for k, e := range ph.Edges {
		if !l.body[ph.Block().Preds[k]] {
			continue
		}
		bo, ok := e.(*ssa.BinOp)
		if !ok || bo.Op != token.ADD && bo.Op != token.SUB || bo.X != ssa.Value(ph) {
			return false
		}
	}
	return true
}

func (q *c18query) field(k string, need c18Need, d int) {
	if q.c.params[k] {
		m := q.missing[k]
		m.lower, m.upper, m.nonzero = m.lower || need.lower, m.upper || need.upper, m.nonzero || need.nonzero
		q.missing[k] = m
		return
	}
	for _, st := range q.c.stores[k] {
		q.walk(st.Val, st.Block(), nil, need, d+1)
	}
}

func (q *c18query) results(cl *ssa.Call, k int, need c18Need, d int) {
	for _, t := range q.c.w.calls().callees[cl] {
		if !q.c.w.inMod[t] {
			continue
		}
		for _, b := range t.Blocks {
			if b == t.Recover {
				continue
			}
			if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && k < len(rt.Results) && !mayFail(rt) {
				q.walk(rt.Results[k], b, nil, need, d+1)
			}
		}
	}
}

// other sides of the conditions under which the loop continues
func (q *c18query) loopBounds(l *loop, ph *ssa.Phi) (vs []ssa.Value) {
	for _, e := range l.exits() {
		iff, ok := e.from.Instrs[len(e.from.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		v, _ := stripNot(iff.Cond)
		bo, ok := v.(*ssa.BinOp)
		if !ok {
			continue
		}
		if stripConv(bo.X) == ssa.Value(ph) {
			vs = append(vs, bo.Y)
		} else if stripConv(bo.Y) == ssa.Value(ph) {
			vs = append(vs, bo.X)
		}
	}
	return
}

// take away what conditions on all ways to the end of b establish
func (q *c18query) reduce(v ssa.Value, b, next *ssa.BasicBlock, need c18Need) c18Need {
	// float comparisons which are false say nothing about values which are not a number, unless another one is true
	type state struct {
		plain, ordered c18Need
		isOrdered      bool
	}
	edge := func(s state, from, to *ssa.BasicBlock) state {
		iff, ok := from.Instrs[len(from.Instrs)-1].(*ssa.If)
		if !ok || from.Succs[0] == from.Succs[1] {
			return s
		}
		cv, neg := stripNot(iff.Cond)
		holds := (from.Succs[0] == to) != neg
		q.test(cv, holds, v, &s.plain, false, 0)
		q.test(cv, holds, v, &s.ordered, true, 0)
		if q.comparesTrue(cv, holds, v) {
			s.isOrdered = true
		}
		if s.isOrdered {
			s.plain = s.ordered
		}
		return s
	}
	or := func(a, b c18Need) c18Need {
		return c18Need{a.lower || b.lower, a.upper || b.upper, a.nonzero || b.nonzero}
	}
	start := state{plain: need, ordered: need}
	memo := map[*ssa.BasicBlock]*state{}
	var at func(x *ssa.BasicBlock) state
	at = func(x *ssa.BasicBlock) state {
		if m := memo[x]; m != nil {
			return *m
		}
		memo[x] = &start
		res := start
		first := true
		for _, p := range x.Preds {
			if x.Dominates(p) {
				continue // once more around a loop
			}
			s := edge(at(p), p, x)
			if first {
				res, first = s, false
			} else {
				res = state{or(res.plain, s.plain), or(res.ordered, s.ordered), res.isOrdered && s.isOrdered}
			}
		}
		memo[x] = &res
		return res
	}
	s := at(b)
	if next != nil {
		s = edge(s, b, next)
	}
	return s.plain
}

// is a condition a comparison with v which has to be true
func (q *c18query) comparesTrue(cv ssa.Value, holds bool, v ssa.Value) bool {
	bo, ok := cv.(*ssa.BinOp)
	if !ok || !holds || !q.scaled(bo.X, v) && !q.scaled(bo.Y, v) {
		return false
	}
	switch bo.Op {
	case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL:
		return true
	}
	return false
}

// v, or v times a positive constant
func (q *c18query) scaled(a, v ssa.Value) bool {
	if q.same(a, v) {
		return true
	}
	if bo, ok := stripConv(a).(*ssa.BinOp); ok && (bo.Op == token.MUL || bo.Op == token.QUO) {
		if k, ok := constNumber(bo.Y); ok && k > 0 && q.scaled(bo.X, v) {
			return true
		}
		if k, ok := constNumber(bo.X); ok && k > 0 && bo.Op == token.MUL && q.scaled(bo.Y, v) {
			return true
		}
	}
	return false
}

// what the success of a function called with v says about it
func (q *c18query) checked(cl *ssa.Call, v ssa.Value, need *c18Need) {
	ts := q.c.w.calls().callees[cl]
	if len(ts) == 0 {
		return
	}
	var worst *c18Need
	for _, t := range ts {
		if !q.c.w.inMod[t] || len(t.Blocks) == 0 {
			return
		}
		var best *c18Need
		for _, pr := range t.Params {
			a := argFor(pr, t, cl)
			if a == nil || !q.scaled(a, v) {
				continue
			}
			// at all its successful returns
			all := c18Need{}
			n := 0
			for _, b := range t.Blocks {
				if b == t.Recover {
					continue
				}
				rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
				if !ok || mayFail(rt) {
					continue
				}
				n++
				left := q.reduce(pr, b, nil, *need)
				all.lower, all.upper, all.nonzero = all.lower || left.lower, all.upper || left.upper, all.nonzero || left.nonzero
			}
			if n > 0 {
				best = &all
			}
		}
		if best == nil {
			return
		}
		if worst == nil {
			worst = &c18Need{}
		}
		worst.lower, worst.upper, worst.nonzero = worst.lower || best.lower, worst.upper || best.upper, worst.nonzero || best.nonzero
	}
	if worst != nil {
		*need = *worst
	}
}

// is x only reached from id through its successor s
func reachesOnly(s, x, id *ssa.BasicBlock) bool {
	other := id.Succs[0]
	if other == s {
		other = id.Succs[1]
	}
	// the other side never gets to x without passing id again
	seen := map[*ssa.BasicBlock]bool{id: true}
	var walk func(b *ssa.BasicBlock) bool
	walk = func(b *ssa.BasicBlock) bool {
		if b == x {
			return true
		}
		if seen[b] {
			return false
		}
		seen[b] = true
		for _, n := range b.Succs {
			if walk(n) {
				return true
			}
		}
		return false
	}
	return !walk(other)
}

// what does a condition say about v
func (q *c18query) test(cv ssa.Value, holds bool, v ssa.Value, need *c18Need, ordered bool, d int) {
	if d > 6 {
		return
	}
	switch x := cv.(type) {
	case *ssa.Phi:
		// conjunction or disjunction: the value is constant on all edges but the last
		for k, e := range x.Edges {
			kc, ok := e.(*ssa.Const)
			if !ok || kc.Value == nil {
				continue
			}
			_ = k
			if (kc.Value.String() == "true") == holds {
				return
			}
		}
		for k, e := range x.Edges {
			if _, ok := e.(*ssa.Const); ok {
				continue
			}
			n, neg := stripNot(e)
			q.test(n, holds != neg, v, need, ordered, d+1)
			*need = q.reduceFrom(v, x.Block().Preds[k], *need)
		}
	case *ssa.BinOp:
		op := x.Op
		a, o := x.X, x.Y
		if k, ok := o.(*ssa.Const); ok && k.Value == nil && (op == token.EQL) == holds {
			switch y := a.(type) {
			case *ssa.Call:
				q.checked(y, v, need)
				return
			case *ssa.Extract:
				if cl, ok := y.Tuple.(*ssa.Call); ok && y.Type().String() == "error" {
					q.checked(cl, v, need)
				}
				return
			}
		}
		if !q.scaled(a, v) {
			if !q.scaled(o, v) {
				return
			}
			a, o = o, a
			switch op {
			case token.LSS:
				op = token.GTR
			case token.LEQ:
				op = token.GEQ
			case token.GTR:
				op = token.LSS
			case token.GEQ:
				op = token.LEQ
			}
		}
		float := isFloatT(a.Type())
		if !holds {
			switch op {
			case token.LSS:
				op = token.GEQ
			case token.LEQ:
				op = token.GTR
			case token.GTR:
				op = token.LEQ
			case token.GEQ:
				op = token.LSS
			case token.EQL:
				op = token.NEQ
			case token.NEQ:
				op = token.EQL
			}
			if float && op != token.EQL && !ordered {
				return // also taken if it is not a number
			}
		}
		k, isK := constNumber(o)
		switch op {
		case token.EQL:
			need.lower, need.upper = false, false
			if isK && k != 0 {
				need.nonzero = false
			}
		case token.NEQ:
			if isK && k == 0 {
				need.nonzero = false
			}
		case token.LSS, token.LEQ:
			need.upper = false
		case token.GTR:
			if !isK || k >= -1 && !float || k >= 0 {
				need.lower = false
			}
			if !isK || k >= 0 {
				need.nonzero = false
			}
		case token.GEQ:
			if !isK || k >= 0 {
				need.lower = false
			}
			if !isK || k > 0 {
				need.nonzero = false
			}
		}
	}
}

func (q *c18query) reduceFrom(v ssa.Value, b *ssa.BasicBlock, need c18Need) c18Need {
	return q.reduce(v, b, nil, need)
}

func constNumber(v ssa.Value) (float64, bool) {
	if n, ok := constInt(v); ok {
		return float64(n), true
	}
	if k, ok := v.(*ssa.Const); ok {
		return constFloat(k)
	}
	return 0, false
}

// the same value, or loads of the same field of the same object
func (q *c18query) same(a, v ssa.Value) bool {
	strip := func(x ssa.Value) ssa.Value {
		for {
			if cv, ok := x.(*ssa.Convert); ok {
				x = cv.X
				continue
			}
			return q.c.p.canon(x)
		}
	}
	a, v = strip(a), strip(v)
	if a == v {
		return true
	}
	ua, ok1 := a.(*ssa.UnOp)
	uv, ok2 := v.(*ssa.UnOp)
	if ok1 && ok2 && ua.Op == token.MUL && uv.Op == token.MUL {
		fa, ok1 := ua.X.(*ssa.FieldAddr)
		fv, ok2 := uv.X.(*ssa.FieldAddr)
		if ok1 && ok2 && fieldKey(fa) == fieldKey(fv) {
			ra, pa := rootPath(ua.X)
			rv, pv := rootPath(uv.X)
			return pa == pv && q.c.p.canon(ra) == q.c.p.canon(rv)
		}
	}
	return false
}

// functions reachable from operators: applying, promising and decoding
func (c *c18) reachable() map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || seen[f] || !c.w.inMod[f] {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if ci, ok := i.(ssa.CallInstruction); ok {
					for _, t := range c.w.calls().callees[ci] {
						visit(t)
					}
				}
				if mc, ok := i.(*ssa.MakeClosure); ok {
					visit(mc.Fn.(*ssa.Function))
				}
				for _, o := range i.Operands(nil) {
					if fn, ok := (*o).(*ssa.Function); ok {
						visit(fn)
					}
				}
			}
		}
	}
	for _, o := range c.w.operators() {
		for _, f := range []*ssa.Function{o.apply, o.make, o.decode} {
			visit(f)
		}
	}
	return seen
}

func endsProcess(i ssa.Instruction) string {
	switch x := i.(type) {
	case *ssa.Panic:
		return "panics"
	case ssa.CallInstruction:
		n := calleeName(x.Common())
		switch {
		case n == "os.Exit" || n == "syscall.Exit" || n == "runtime.Goexit":
			return "calls " + n
		case strings.HasPrefix(n, "log.Fatal") || strings.HasPrefix(n, "log.Panic") || strings.HasPrefix(n, "(*log.Logger).Fatal") || strings.HasPrefix(n, "(*log.Logger).Panic"):
			return "calls " + n
		}
	}
	return ""
}

func (c *c18) panics() {
	reach := c.reachable()
	for _, f := range c.w.Funcs {
		if !reach[f] {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				what := endsProcess(i)
				if what == "" {
					continue
				}
				if b == f.Recover {
					continue
				}
				if c.neverReached(f, b, reach) {
					c.r.ob("panic", "%s: %s %s, which no caller's arguments lead to", c.w.ipos(i), fname(f), what)
					continue
				}
				ok, decided := c.freedOnly(f, b, i, what)
				if decided {
					if ok {
						c.r.ob("panic", "%s: %s %s on data given up, which no object reaches", c.w.ipos(i), fname(f), what)
					}
					continue
				}
				c.r.bad("panic", fname(f), c.w.ipos(i), "%s %s, and operators of a job reach it", fname(f), what)
			}
		}
	}
	c.r.ob("panic", "%d functions reachable from operators", len(reach))
}

// with the constants its callers pass, is a block never reached?
func (c *c18) neverReached(f *ssa.Function, b *ssa.BasicBlock, reach map[*ssa.Function]bool) bool {
	cs := c.w.calls().callers[f]
	n := 0
	for _, s := range cs {
		if !reach[s.Parent()] {
			continue
		}
		n++
		var eval func(v ssa.Value, d int) (int64, bool)
		eval = func(v ssa.Value, d int) (int64, bool) {
			if d > 10 {
				return 0, false
			}
			if k, ok := constInt(v); ok {
				return k, true
			}
			if pr, ok := v.(*ssa.Parameter); ok {
				if a := argFor(pr, f, s); a != nil {
					return constInt(a)
				}
			}
			if bo, ok := v.(*ssa.BinOp); ok {
				x, ok1 := eval(bo.X, d+1)
				y, ok2 := eval(bo.Y, d+1)
				if !ok1 || !ok2 {
					return 0, false
				}
				is := func(t bool) (int64, bool) {
					if t {
						return 1, true
					}
					return 0, true
				}
				switch bo.Op {
				case token.ADD:
					return x + y, true
				case token.SUB:
					return x - y, true
				case token.MUL:
					return x * y, true
				case token.LSS:
					return is(x < y)
				case token.LEQ:
					return is(x <= y)
				case token.GTR:
					return is(x > y)
				case token.GEQ:
					return is(x >= y)
				case token.EQL:
					return is(x == y)
				case token.NEQ:
					return is(x != y)
				}
			}
			return 0, false
		}
		seen := map[*ssa.BasicBlock]bool{}
		var walk func(x *ssa.BasicBlock) bool
		walk = func(x *ssa.BasicBlock) bool {
			if x == b {
				return true
			}
			if seen[x] {
				return false
			}
			seen[x] = true
			if iff, ok := x.Instrs[len(x.Instrs)-1].(*ssa.If); ok {
				cv, neg := stripNot(iff.Cond)
				if k, ok := eval(cv, 0); ok {
					if (k != 0) != neg {
						return walk(x.Succs[0])
					}
					return walk(x.Succs[1])
				}
			}
			for _, s := range x.Succs {
				if walk(s) {
					return true
				}
			}
			return false
		}
		if walk(f.Blocks[0]) {
			return false
		}
	}
	return n > 0
}

// a panic on data of the receiver being nil while a flag is not set: objects without data need to have the flag set
func (c *c18) freedOnly(f *ssa.Function, b *ssa.BasicBlock, at ssa.Instruction, what string) (ok, decided bool) {
	if f.Signature.Recv() == nil {
		return false, false
	}
	recv := f.Params[0]
	st, isS := deref(recv.Type()).Underlying().(*types.Struct)
	if !isS {
		return false, false
	}
	var dataField string
	var flags []string
	for x := b; x.Idom() != nil; x = x.Idom() {
		id := x.Idom()
		iff, ok := id.Instrs[len(id.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		cv, neg := stripNot(iff.Cond)
		holds := id.Succs[0] == x
		if bo, ok := cv.(*ssa.BinOp); ok && (bo.Op == token.EQL || bo.Op == token.NEQ) {
			if k, ok := bo.Y.(*ssa.Const); ok && k.Value == nil {
				if fa := loadedField(bo.X); fa != nil && fa.X == ssa.Value(recv) && (bo.Op == token.EQL) == (holds != neg) {
					dataField = fieldKey(fa)
				}
			}
			continue
		}
		if fa := loadedField(cv); fa != nil && fa.X == ssa.Value(recv) && holds == neg {
			flags = append(flags, fieldKey(fa))
		}
	}
	if dataField == "" || len(flags) == 0 {
		return false, false
	}
	_ = st
	// methods setting a flag
	sets := map[*ssa.Function]map[string]bool{}
	clears := map[*ssa.Function]map[string]bool{}
	needs := map[*ssa.Function]bool{f: true}
	var methods []*ssa.Function
	for _, g := range c.w.Funcs {
		if g.Signature.Recv() != nil && types.Identical(g.Signature.Recv().Type(), recv.Type()) {
			methods = append(methods, g)
			sets[g], clears[g] = map[string]bool{}, map[string]bool{}
		}
	}
	for round := 0; round < 5; round++ {
		for _, g := range methods {
			for _, gb := range g.Blocks {
				for _, i := range gb.Instrs {
					switch x := i.(type) {
					case *ssa.Store:
						if fa, ok := x.Addr.(*ssa.FieldAddr); ok && fa.X == ssa.Value(g.Params[0]) {
							if k, ok := x.Val.(*ssa.Const); ok && k.Value != nil && k.Value.String() == "true" {
								sets[g][fieldKey(fa)] = true
							} else {
								clears[g][fieldKey(fa)] = true
							}
						}
					case *ssa.Call:
						t := x.Call.StaticCallee()
						if t != nil && sets[t] != nil && len(x.Call.Args) > 0 && x.Call.Args[0] == ssa.Value(g.Params[0]) {
							for k := range sets[t] {
								sets[g][k] = true
							}
							for k := range clears[t] {
								clears[g][k] = true
							}
							if needs[t] {
								needs[g] = true
							}
						}
					}
				}
			}
		}
	}
	ok, decided = true, true
	bad := func(pos, format string, a ...interface{}) {
		ok = false
		c.r.bad("panic", fname(f)+"|"+fieldShort(dataField), pos, "%s %s at %s, reached by operators: %s", fname(f), what, c.w.ipos(at), fmt.Sprintf(format, a...))
	}
	hasAll := func(m map[string]bool) bool {
		for _, k := range flags {
			if m[k] {
				return true // one set is enough not to get there
			}
		}
		return false
	}
	// objects without data and the flag: calls on them must not need it
	check := func(o ssa.Value, from string, flagSet bool) {
		seen := map[ssa.Value]bool{}
		seenF := map[string]bool{}
		var flow func(v ssa.Value)
		flow = func(v ssa.Value) {
			if v == nil || seen[v] || v.Referrers() == nil {
				return
			}
			seen[v] = true
			for _, i := range *v.Referrers() {
				switch x := i.(type) {
				case *ssa.Phi:
					flow(x)
				case *ssa.Extract:
					flow(x)
				case *ssa.Return:
					for k, rv := range x.Results {
						if rv != v {
							continue
						}
						for _, s := range c.w.calls().callers[x.Parent()] {
							cv, isC := s.(*ssa.Call)
							if !isC {
								continue
							}
							if x.Parent().Signature.Results().Len() == 1 {
								flow(cv)
							} else if cv.Referrers() != nil {
								for _, ri := range *cv.Referrers() {
									if ex, ok := ri.(*ssa.Extract); ok && ex.Index == k {
										flow(ex)
									}
								}
							}
						}
					}
				case *ssa.Store:
					if fa, ok := x.Addr.(*ssa.FieldAddr); ok && x.Val == v && !seenF[fieldKey(fa)] {
						k := fieldKey(fa)
						seenF[k] = true
						for _, g := range c.w.Funcs {
							for _, gb := range g.Blocks {
								for _, gi := range gb.Instrs {
									if u, ok := gi.(*ssa.UnOp); ok && u.Op == token.MUL {
										if lf, ok := u.X.(*ssa.FieldAddr); ok && fieldKey(lf) == k {
											flow(u)
										}
									}
								}
							}
						}
					}
				case ssa.CallInstruction:
					for _, t := range c.w.calls().callees[x] {
						if !c.w.inMod[t] {
							continue
						}
						if sets[t] != nil && len(t.Params) > 0 && argFor(t.Params[0], t, x) == v {
							if needs[t] && !flagSet {
								bad(c.w.ipos(x), "%s is called on an object without data from %s", fname(t), from)
							}
							if flagSet {
								for _, k := range flags {
									if clears[t][k] && !sets[t][dataField] && !clears[t][dataField] {
										bad(c.w.ipos(x), "%s, called on an object without data from %s, forgets its values", fname(t), from)
									}
								}
							}
							continue
						}
						for _, pr := range t.Params {
							if argFor(pr, t, x) == v {
								flow(pr)
							}
						}
					}
				}
			}
		}
		flow(o)
	}
	for _, g := range c.w.Funcs {
		for _, gb := range g.Blocks {
			for _, i := range gb.Instrs {
				switch x := i.(type) {
				case *ssa.Alloc:
					if !types.Identical(x.Type(), recv.Type()) {
						continue
					}
					stored := map[string]bool{}
					data := false
					for _, u := range *x.Referrers() {
						fa, ok := u.(*ssa.FieldAddr)
						if !ok {
							continue
						}
						for _, s := range *fa.Referrers() {
							if sv, ok := s.(*ssa.Store); ok && sv.Addr == ssa.Value(fa) {
								k, isK := sv.Val.(*ssa.Const)
								if fieldKey(fa) == dataField && !(isK && k.Value == nil) {
									data = true
								}
								if isK && k.Value != nil && k.Value.String() == "true" {
									stored[fieldKey(fa)] = true
								}
							}
						}
					}
					if !data {
						check(x, fname(g), hasAll(stored))
					}
				case *ssa.Call:
					t := x.Call.StaticCallee()
					if t == nil || sets[t] == nil || !storesNil(t, dataField) {
						continue
					}
					v := x.Call.Args[0]
					stored := map[string]bool{}
					for _, u := range *v.Referrers() {
						if cl, ok := u.(*ssa.Call); ok && cl != x && before(cl, x) {
							if m := cl.Call.StaticCallee(); m != nil && sets[m] != nil && cl.Call.Args[0] == v {
								for k := range sets[m] {
									stored[k] = true
								}
							}
						}
					}
					check(v, fname(g)+", which gives it up", hasAll(stored))
				}
			}
		}
	}
	return
}

func fieldShort(k string) string { return k[strings.LastIndex(k, ".")+1:] }

func loadedField(v ssa.Value) *ssa.FieldAddr {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if fa, ok := u.X.(*ssa.FieldAddr); ok {
			return fa
		}
	}
	return nil
}

// a method which stores nil in a field of its receiver
func storesNil(f *ssa.Function, field string) bool {
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if st, ok := i.(*ssa.Store); ok {
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok && fieldKey(fa) == field && fa.X == ssa.Value(f.Params[0]) {
					if k, ok := st.Val.(*ssa.Const); ok && k.Value == nil {
						return true
					}
				}
			}
		}
	}
	return false
}

// pointers JSON may leave nil: their uses need a test before
func (c *c18) pointers() {
	fields := map[string]bool{}
	for _, o := range c.w.operators() {
		st, ok := deref(o.named).Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for i := 0; i < st.NumFields(); i++ {
			v := st.Field(i)
			if !v.Exported() || strings.Contains(st.Tag(i), `json:"-"`) || v.Embedded() {
				continue
			}
			switch v.Type().Underlying().(type) {
			case *types.Pointer, *types.Interface, *types.Map:
				fields[deref(o.named).String()+"."+v.Name()] = true
			}
		}
	}
	q := &c18query{c: c}
	n := 0
	for _, f := range c.w.Funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				v, ok := i.(ssa.Value)
				if !ok {
					continue
				}
				fa := loadedField(v)
				if fa == nil || !fields[fieldKey(fa)] {
					continue
				}
				for _, u := range *v.Referrers() {
					what := ""
					switch x := u.(type) {
					case *ssa.FieldAddr:
						what = "accesses field " + fieldName(deref(v.Type()), x.Field)
					case *ssa.UnOp:
						if x.Op == token.MUL {
							what = "dereferences it"
						}
					case *ssa.MapUpdate:
						if x.Map == v {
							what = "adds to it"
						}
					case ssa.CallInstruction:
						cm := x.Common()
						if cm.IsInvoke() && cm.Value == v || !cm.IsInvoke() && len(cm.Args) > 0 && cm.Args[0] == v && cm.StaticCallee() != nil && cm.StaticCallee().Signature.Recv() != nil {
							what = "calls " + calleeName(cm)
						}
					}
					if what == "" {
						continue
					}
					n++
					if c.notNil(q, v, u.Block()) {
						c.r.ob("nil", "%s: %s %s after testing %s", c.w.ipos(u), fname(f), what, fieldShort(fieldKey(fa)))
						continue
					}
					c.r.bad("nil", fname(f)+"|"+fieldShort(fieldKey(fa)), c.w.ipos(u), "%s %s, where a job can leave %s null, and nothing tests that before", fname(f), what, fieldShort(fieldKey(fa)))
				}
			}
		}
	}
}

// does a condition before b establish that v, or another load of the same field, is not nil
func (c *c18) notNil(q *c18query, v ssa.Value, b *ssa.BasicBlock) bool {
	for x := b; x.Idom() != nil; x = x.Idom() {
		id := x.Idom()
		iff, ok := id.Instrs[len(id.Instrs)-1].(*ssa.If)
		if !ok || id.Succs[0] == id.Succs[1] {
			continue
		}
		cv, neg := stripNot(iff.Cond)
		bo, ok := cv.(*ssa.BinOp)
		if !ok || bo.Op != token.EQL && bo.Op != token.NEQ {
			continue
		}
		k, ok := bo.Y.(*ssa.Const)
		o := bo.X
		if !ok {
			k, ok = bo.X.(*ssa.Const)
			o = bo.Y
		}
		if !ok || k.Value != nil || !q.same(o, v) {
			continue
		}
		for n, s := range id.Succs {
			if reachesOnly(s, x, id) && (n == 0) == ((bo.Op == token.NEQ) != neg) {
				return true
			}
		}
	}
	return false
}
