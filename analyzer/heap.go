package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/callgraph"
	"golang.org/x/tools/go/callgraph/cha"
	"golang.org/x/tools/go/callgraph/vta"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// ---------------------------------------------------------------- call resolution

type callInfo struct {
	g       *callgraph.Graph
	callees map[ssa.CallInstruction][]*ssa.Function
	callers map[*ssa.Function][]ssa.CallInstruction
}

func (w *World) calls() *callInfo {
	if w.cg != nil {
		return w.cg
	}
	fns := ssautil.AllFunctions(w.Prog)
	g := vta.CallGraph(fns, cha.CallGraph(w.Prog))
	ci := &callInfo{g: g, callees: map[ssa.CallInstruction][]*ssa.Function{}, callers: map[*ssa.Function][]ssa.CallInstruction{}}
	var add func(site ssa.CallInstruction, f *ssa.Function, depth int)
	add = func(site ssa.CallInstruction, f *ssa.Function, depth int) {
		for _, o := range ci.callees[site] {
			if o == f {
				return
			}
		}
		ci.callees[site] = append(ci.callees[site], f)
		ci.callers[f] = append(ci.callers[f], site)
	}
	for _, n := range g.Nodes {
		for _, e := range n.Out {
			if e.Site == nil {
				continue
			}
			add(e.Site, e.Callee.Func, 0)
		}
	}
	for s := range ci.callees {
		fs := ci.callees[s]
		sort.Slice(fs, func(i, j int) bool { return fs[i].String() < fs[j].String() })
	}
	w.cg = ci
	return ci
}

// module functions a call may invoke, looking through synthetic wrappers (bound methods, promoted methods)
func (w *World) targets(c ssa.CallInstruction) []*ssa.Function {
	var res []*ssa.Function
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function, d int)
	visit = func(f *ssa.Function, d int) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		if w.inMod[f] {
			res = append(res, f)
			return
		}
		if f.Synthetic != "" && d < 4 {
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					if c, ok := i.(ssa.CallInstruction); ok {
						if t := c.Common().StaticCallee(); t != nil {
							visit(t, d+1)
						}
					}
				}
			}
		}
	}
	if f := c.Common().StaticCallee(); f != nil {
		visit(f, 0)
		return res
	}
	for _, f := range w.calls().callees[c] {
		visit(f, 0)
	}
	return res
}

// full name of statically called function or interface method ("os.OpenFile", "(*os.File).Close", "(io.Reader).Read"), "" if dynamic
func calleeName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return c.Method.FullName()
	}
	if f := c.StaticCallee(); f != nil {
		if f.Origin() != nil {
			f = f.Origin()
		}
		if o := f.Object(); o != nil {
			if fo, ok := o.(*types.Func); ok {
				return fo.FullName()
			}
		}
		return f.String()
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return "builtin." + b.Name()
	}
	return ""
}

// ---------------------------------------------------------------- access paths

type AP struct {
	Root ssa.Value
	Path string
}

const maxPath = 6

func extend(a AP, s string) AP {
	if strings.Count(a.Path, ".")+strings.Count(a.Path, "[") >= maxPath {
		return a
	}
	return AP{a.Root, a.Path + s}
}

func (a AP) String() string {
	n := "?"
	if a.Root != nil {
		n = a.Root.Name()
		if p := a.Root.Parent(); p != nil {
			n = fname(p) + "/" + n
		}
	}
	return n + a.Path
}

type effects struct {
	w      *World
	memo   map[ssa.Value][]AP
	busy   map[ssa.Value]bool
	rets   map[*ssa.Function][][]AP
	retBsy map[*ssa.Function]bool
	stores map[ssa.Value][]*ssa.Store // by base alloc/global: all stores into it (any field)
	bind   map[*ssa.FreeVar][]ssa.Value
	writes map[*ssa.Function]map[AP]ssa.Instruction // transitive write effects with a witness
}

func (w *World) effects() *effects {
	if w.eff != nil {
		return w.eff
	}
	e := &effects{w: w, memo: map[ssa.Value][]AP{}, busy: map[ssa.Value]bool{}, rets: map[*ssa.Function][][]AP{}, retBsy: map[*ssa.Function]bool{},
		stores: map[ssa.Value][]*ssa.Store{}, bind: map[*ssa.FreeVar][]ssa.Value{}, writes: map[*ssa.Function]map[AP]ssa.Instruction{}}
	w.eff = e
	for _, f := range w.Funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if mc, ok := i.(*ssa.MakeClosure); ok {
					fn := mc.Fn.(*ssa.Function)
					for k, fv := range fn.FreeVars {
						e.bind[fv] = append(e.bind[fv], mc.Bindings[k])
					}
				}
			}
		}
	}
	for _, f := range w.Funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if st, ok := i.(*ssa.Store); ok {
					base, _ := e.base(st.Addr)
					if base != nil {
						e.stores[base] = append(e.stores[base], st)
					}
				}
			}
		}
	}
	e.computeWrites()
	return e
}

// base variable (alloc, global) and field path of an address computed from it, without going through loads
func (e *effects) base(addr ssa.Value) (ssa.Value, string) {
	path := ""
	for d := 0; d < 20; d++ {
		switch a := addr.(type) {
		case *ssa.Alloc, *ssa.Global:
			return a, path
		case *ssa.FreeVar:
			bs := e.bind[a]
			if len(bs) != 1 {
				return nil, ""
			}
			addr = bs[0]
		case *ssa.FieldAddr:
			path = "." + fieldName(a.X.Type(), a.Field) + path
			addr = a.X
		case *ssa.IndexAddr:
			if _, ok := a.X.Type().Underlying().(*types.Pointer); !ok {
				return nil, ""
			}
			path = "[]" + path
			addr = a.X
		default:
			return nil, ""
		}
	}
	return nil, ""
}

func fieldName(t types.Type, i int) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok || i >= s.NumFields() {
		return fmt.Sprint(i)
	}
	return s.Field(i).Name()
}

func uniq(as []AP) []AP {
	seen := map[AP]bool{}
	var r []AP
	for _, a := range as {
		if !seen[a] {
			seen[a] = true
			r = append(r, a)
		}
	}
	return r
}

// abstract objects a value (pointer, slice, struct, ...) may denote
func (e *effects) resolve(v ssa.Value) []AP {
	if v == nil {
		return nil
	}
	if r, ok := e.memo[v]; ok {
		return r
	}
	if e.busy[v] {
		return nil
	}
	e.busy[v] = true
	r := uniq(e.resolve1(v))
	delete(e.busy, v)
	if len(e.busy) == 0 || !hasPhiBusy(e.busy) {
		e.memo[v] = r
	}
	return r
}

func hasPhiBusy(m map[ssa.Value]bool) bool {
	for v := range m {
		if _, ok := v.(*ssa.Phi); ok {
			return true
		}
	}
	return false
}

func ext(as []AP, s string) []AP {
	r := make([]AP, len(as))
	for i, a := range as {
		r[i] = extend(a, s)
	}
	return r
}

func (e *effects) resolve1(v ssa.Value) []AP {
	switch v := v.(type) {
	case *ssa.Parameter, *ssa.Global, *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan, *ssa.MakeClosure:
		return []AP{{v, ""}}
	case *ssa.FreeVar:
		var r []AP
		for _, b := range e.bind[v] {
			r = append(r, e.resolve(b)...)
		}
		if len(r) == 0 {
			r = []AP{{v, ""}}
		}
		return r
	case *ssa.FieldAddr:
		return ext(e.resolve(v.X), "."+fieldName(v.X.Type(), v.Field))
	case *ssa.Field:
		return ext(e.resolve(v.X), "."+fieldName(v.X.Type(), v.Field))
	case *ssa.IndexAddr:
		return ext(e.resolve(v.X), "[]")
	case *ssa.Index:
		return ext(e.resolve(v.X), "[]")
	case *ssa.Lookup:
		return ext(e.resolve(v.X), "[]")
	case *ssa.Slice:
		return e.resolve(v.X)
	case *ssa.ChangeType:
		return e.resolve(v.X)
	case *ssa.Convert:
		return e.resolve(v.X)
	case *ssa.ChangeInterface:
		return e.resolve(v.X)
	case *ssa.MakeInterface:
		return e.resolve(v.X)
	case *ssa.TypeAssert:
		return e.resolve(v.X)
	case *ssa.SliceToArrayPointer:
		return e.resolve(v.X)
	case *ssa.Phi:
		var r []AP
		for _, x := range v.Edges {
			r = append(r, e.resolve(x)...)
		}
		return r
	case *ssa.UnOp:
		if v.Op.String() != "*" {
			return nil
		}
		// load: variable cells are followed through their stores, fields keep their symbolic name
		base, path := e.base(v.X)
		if base != nil {
			var r []AP
			found := false
			for _, st := range e.stores[base] {
				_, sp := e.base(st.Addr)
				if sp == path {
					found = true
					r = append(r, e.resolve(st.Val)...)
				} else if strings.HasPrefix(path, sp) {
					found = true
					r = append(r, ext(e.resolve(st.Val), path[len(sp):])...)
				}
			}
			sym := ext(e.resolve(base), path)
			if path != "" || !found {
				r = append(r, sym...)
			}
			return r
		}
		return e.resolve(v.X)
	case *ssa.Extract:
		switch t := v.Tuple.(type) {
		case *ssa.Call:
			return e.callResult(t, v.Index)
		case *ssa.TypeAssert:
			return e.resolve(t.X)
		case *ssa.Lookup:
			return ext(e.resolve(t.X), "[]")
		case *ssa.Next:
			return []AP{{v, ""}}
		}
		return []AP{{v, ""}}
	case *ssa.Call:
		return e.callResult(v, 0)
	}
	return nil
}

func (e *effects) callResult(c *ssa.Call, idx int) []AP {
	if b, ok := c.Call.Value.(*ssa.Builtin); ok {
		if b.Name() == "append" {
			return append(e.resolve(c.Call.Args[0]), AP{c, ""})
		}
		return nil
	}
	ts := e.w.targets(c)
	if len(ts) == 0 || len(ts) > 12 || !c.Call.IsInvoke() && c.Call.StaticCallee() == nil && isPromiseT(c.Call.Value.Type()) {
		// unknown, or a promise, which gives its frame away
		return []AP{{c, fmt.Sprintf("#%d", idx)}}
	}
	var r []AP
	for _, t := range ts {
		for _, a := range e.retSummary(t, idx) {
			r = append(r, e.substitute(a, t, c, idx)...)
		}
	}
	return r
}

// re-root a callee access path at a call site
func (e *effects) substitute(a AP, callee *ssa.Function, site ssa.CallInstruction, idx int) []AP {
	if p, ok := a.Root.(*ssa.Parameter); ok && p.Parent() == callee {
		arg := argFor(p, callee, site)
		if arg == nil {
			return []AP{a}
		}
		var r []AP
		for _, b := range e.resolve(arg) {
			r = append(r, extend(b, a.Path))
		}
		return r
	}
	if a.Root != nil && a.Root.Parent() == callee {
		// callee-local object: fresh at the call site
		if c, ok := site.(*ssa.Call); ok && idx >= 0 {
			path := a.Path
			if strings.HasPrefix(path, "#") {
				path = strings.TrimLeft(path[1:], "0123456789")
			}
			return []AP{{c, fmt.Sprintf("#%d", idx) + path}}
		}
		return nil
	}
	return []AP{a}
}

// argument value bound to a callee parameter at a call site
func argFor(p *ssa.Parameter, callee *ssa.Function, site ssa.CallInstruction) ssa.Value {
	cc := site.Common()
	k := -1
	for i, q := range callee.Params {
		if q == p {
			k = i
		}
	}
	if k < 0 {
		return nil
	}
	args := cc.Args
	if cc.IsInvoke() {
		if k == 0 {
			return cc.Value
		}
		k--
	} else if st := cc.StaticCallee(); st != nil && st != callee {
		// wrapper: bound method closures capture the receiver, thunks pass it through
		off := len(callee.Params) - len(args)
		if off == 1 {
			if k == 0 {
				return nil
			}
			k--
		}
	} else if cc.StaticCallee() == nil {
		off := len(callee.Params) - len(args)
		if off == 1 {
			if k == 0 {
				return nil
			}
			k--
		}
	}
	if k < len(args) {
		return args[k]
	}
	return nil
}

func (e *effects) retSummary(f *ssa.Function, idx int) []AP {
	if r, ok := e.rets[f]; ok {
		if idx < len(r) {
			return r[idx]
		}
		return nil
	}
	if e.retBsy[f] {
		return nil
	}
	e.retBsy[f] = true
	n := f.Signature.Results().Len()
	res := make([][]AP, n)
	for _, b := range f.Blocks {
		if len(b.Instrs) == 0 {
			continue
		}
		if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			for i, x := range rt.Results {
				if i < n {
					res[i] = uniq(append(res[i], e.resolve(x)...))
				}
			}
		}
	}
	delete(e.retBsy, f)
	e.rets[f] = res
	if idx < n {
		return res[idx]
	}
	return nil
}

// direct writes of one instruction
func (e *effects) directWrites(i ssa.Instruction) []AP {
	switch i := i.(type) {
	case *ssa.Store:
		if a, ok := i.Addr.(*ssa.Alloc); ok && !a.Heap {
			return nil
		}
		return e.resolve(i.Addr)
	case *ssa.MapUpdate:
		return ext(e.resolve(i.Map), "[]")
	case ssa.CallInstruction:
		cc := i.Common()
		switch n := calleeName(cc); n {
		case "builtin.copy":
			return ext(e.resolve(cc.Args[0]), "[]")
		case "builtin.delete", "builtin.clear":
			return ext(e.resolve(cc.Args[0]), "[]")
		case "sort.Slice", "sort.Ints", "sort.Float64s", "sort.Strings", "sort.Sort", "sort.SliceStable", "slices.Sort", "slices.SortFunc", "slices.Reverse":
			return ext(e.resolve(cc.Args[0]), "[]")
		case "io.ReadFull", "io.ReadAtLeast":
			return ext(e.resolve(cc.Args[1]), "[]")
		case "(io.Reader).Read", "(*os.File).Read", "(*bufio.Reader).Read":
			return ext(e.resolve(cc.Args[len(cc.Args)-1]), "[]")
		}
	}
	return nil
}

// effects of a call, re-rooted into the caller
func (e *effects) callWrites(c ssa.CallInstruction) map[AP]ssa.Instruction {
	r := map[AP]ssa.Instruction{}
	ts := e.w.targets(c)
	for _, t := range ts {
		for a, wit := range e.writes[t] {
			for _, s := range e.substitute(a, t, c, -1) {
				r[s] = wit
			}
		}
	}
	// assembly bodies (functions without blocks) taking slices: assume the first slice parameter named like an output is written
	if f := c.Common().StaticCallee(); f != nil && f.Pkg != nil && e.w.SSA[f.Pkg.Pkg.Path()] == f.Pkg && len(f.Blocks) == 0 && f.Synthetic == "" {
		ps := f.Signature.Params()
		n := 0
		for k := 0; k < ps.Len(); k++ {
			if _, ok := ps.At(k).Type().Underlying().(*types.Slice); ok {
				n++
			}
		}
		if n > 1 && f.Signature.Results().Len() == 0 {
			for _, a := range ext(e.resolve(c.Common().Args[0]), "[]") {
				r[a] = c
			}
		}
	}
	return r
}

func (e *effects) computeWrites() {
	w := e.w
	for _, f := range w.Funcs {
		e.writes[f] = map[AP]ssa.Instruction{}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				for _, a := range e.directWrites(i) {
					if e.visible(a, f) {
						e.writes[f][a] = i
					}
				}
			}
		}
	}
	for changed, n := true, 0; changed && n < 30; n++ {
		changed = false
		for _, f := range w.Funcs {
			m := e.writes[f]
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					c, ok := i.(ssa.CallInstruction)
					if !ok {
						continue
					}
					for a, wit := range e.callWrites(c) {
						if !e.visible(a, f) {
							continue
						}
						if _, ok := m[a]; !ok {
							m[a] = wit
							changed = true
						}
					}
				}
			}
		}
	}
}

// does a write to this location matter outside f (or to objects of f itself that we track)?
func (e *effects) visible(a AP, f *ssa.Function) bool {
	return a.Root != nil
}

func (e *effects) describe(f *ssa.Function) string {
	var s []string
	for a := range e.writes[f] {
		s = append(s, a.String())
	}
	sort.Strings(s)
	return strings.Join(s, " ")
}
