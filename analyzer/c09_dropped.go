package main

// C09: a dropped frame (nil image) is never dereferenced by a later step.

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// nullness of pointers of one type
type nilness struct {
	w      *World
	is     func(t types.Type) bool          // the pointer types looked at
	source func(v ssa.Value) (string, bool) // values that may be nil for reasons outside the code
	flows  map[*ssa.Function]*mustFacts
	ret    map[*ssa.Function]map[int]int // 1 busy, 2 no, 3 yes
	der    map[*ssa.Parameter]int
	why    map[*ssa.Parameter]ssa.Instruction
	stores map[string][]*ssa.Store // by field
}

func newNilness(w *World, is func(types.Type) bool) *nilness {
	n := &nilness{w: w, is: is, flows: map[*ssa.Function]*mustFacts{}, ret: map[*ssa.Function]map[int]int{}, der: map[*ssa.Parameter]int{}, why: map[*ssa.Parameter]ssa.Instruction{}}
	return n
}

func nilTestOf(cond ssa.Value) (v ssa.Value, eq bool) {
	bo, ok := cond.(*ssa.BinOp)
	if !ok || bo.Op != token.EQL && bo.Op != token.NEQ {
		return nil, false
	}
	if isNilConst(bo.Y) {
		return bo.X, bo.Op == token.EQL
	}
	if isNilConst(bo.X) {
		return bo.Y, bo.Op == token.EQL
	}
	return nil, false
}

// address of a local variable or field a value was loaded from
func addrKey(v ssa.Value) string {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return ""
	}
	return addrName(u.X)
}

func addrName(a ssa.Value) string {
	path := ""
	for {
		switch x := a.(type) {
		case *ssa.FieldAddr:
			path = "." + fieldName(x.X.Type(), x.Field) + path
			a = x.X
			continue
		case *ssa.UnOp:
			if x.Op == token.MUL {
				path = ".*" + path
				a = x.X
				continue
			}
		case *ssa.IndexAddr:
			// element at a position held in one value
			idx := x.Index.Name()
			if c, ok := x.Index.(*ssa.Const); ok {
				idx = c.String()
			}
			path = "[" + idx + "]" + path
			a = x.X
			continue
		case *ssa.ChangeType:
			a = x.X
			continue
		}
		break
	}
	return "@" + a.Name() + path
}

func (n *nilness) facts(f *ssa.Function) *mustFacts {
	if m := n.flows[f]; m != nil {
		return m
	}
	var condFacts func(cond ssa.Value, val bool, d int) []string
	condFacts = func(cond ssa.Value, val bool, d int) (r []string) {
		if d > 6 {
			return
		}
		switch x := cond.(type) {
		case *ssa.UnOp:
			if x.Op == token.NOT {
				return condFacts(x.X, !val, d+1)
			}
			if x.Op == token.MUL {
				if s := singleStore(x.X); s != nil {
					return condFacts(s, val, d+1)
				}
			}
		case *ssa.Phi:
			// short-circuit: the edges that can deliver val
			k := -1
			for i, e := range x.Edges {
				if c, ok := e.(*ssa.Const); ok && c.Value != nil && (c.Value.String() == "true") != val {
					continue
				}
				if k >= 0 {
					return
				}
				k = i
			}
			if k < 0 {
				return
			}
			r = condFacts(x.Edges[k], val, d+1)
			// and the conditions leading to that edge
			for b := x.Block().Preds[k]; b != nil && b != x.Block().Idom(); b = b.Idom() {
				if len(b.Preds) != 1 {
					break
				}
				if iff, ok := b.Preds[0].Instrs[len(b.Preds[0].Instrs)-1].(*ssa.If); ok && iff.Cond != cond {
					r = append(r, condFacts(iff.Cond, b.Preds[0].Succs[0] == b, d+1)...)
				}
			}
			return
		}
		if v, eq := nilTestOf(cond); v != nil && eq != val && n.is(v.Type()) {
			r = append(r, "nn:"+v.Name())
			if k := addrKey(v); k != "" {
				r = append(r, "nn:"+k)
			}
			// tested through a copy
			for d := 0; d < 3; d++ {
				p, ok := v.(*ssa.ChangeType)
				if !ok {
					break
				}
				v = p.X
				r = append(r, "nn:"+v.Name())
			}
		}
		return
	}
	gen := func(i ssa.Instruction) (r []string) {
		switch x := i.(type) {
		case *ssa.Store:
			if n.is(x.Val.Type()) && n.mayNil(x.Val, x, map[ssa.Value]bool{}) == "" {
				r = append(r, "nn:"+addrName(x.Addr))
			}
		case *ssa.FieldAddr:
			if n.is(x.X.Type()) {
				r = append(r, "nn:"+x.X.Name()) // dereferenced already
				if k := addrKey(x.X); k != "" {
					r = append(r, "nn:"+k)
				}
			}
		}
		return
	}
	kill := func(i ssa.Instruction) (r []string) {
		if x, ok := i.(*ssa.Store); ok && n.is(x.Val.Type()) {
			r = append(r, "nn:"+addrName(x.Addr))
		}
		return
	}
	m := mustFlowFull(f, gen, kill, func(from *ssa.BasicBlock, k int) []string {
		iff, ok := from.Instrs[len(from.Instrs)-1].(*ssa.If)
		if !ok {
			return nil
		}
		return condFacts(iff.Cond, k == 0, 0)
	})
	n.flows[f] = m
	return m
}

func (n *nilness) known(v ssa.Value, at ssa.Instruction) bool {
	m := n.flows[at.Parent()]
	if m == nil {
		m = n.facts(at.Parent())
	}
	fs := m.at(at)
	if fs == nil {
		return true // unreachable
	}
	if fs["nn:"+v.Name()] {
		return true
	}
	k := addrKey(v)
	return k != "" && fs["nn:"+k]
}

func (n *nilness) knownOnEdge(v ssa.Value, from, to *ssa.BasicBlock) bool {
	last := from.Instrs[len(from.Instrs)-1]
	if n.known(v, last) {
		return true
	}
	if iff, ok := last.(*ssa.If); ok && from.Succs[0] != from.Succs[1] {
		if t, eq := nilTestOf(iff.Cond); t == v && (from.Succs[0] == to) != eq {
			return true
		}
	}
	return false
}

// "" if v cannot be nil at instruction at, else where nil comes from
func (n *nilness) mayNil(v ssa.Value, at ssa.Instruction, seen map[ssa.Value]bool) string {
	if seen[v] {
		return ""
	}
	seen[v] = true
	if at != nil && n.flows[at.Parent()] != nil && n.known(v, at) {
		return ""
	}
	if s, ok := n.source(v); ok {
		return s
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return "nil"
		}
	case *ssa.ChangeType:
		return n.mayNil(x.X, at, seen)
	case *ssa.Call, *ssa.Extract:
		cl, k := resultOf(x)
		if cl == nil {
			return ""
		}
		for _, t := range n.w.targets(cl) {
			if n.retMayNil(t, k) {
				return "result of " + fname(t)
			}
		}
	case *ssa.Phi:
		for i, e := range x.Edges {
			if n.knownOnEdgeSafe(e, x.Block().Preds[i], x.Block()) {
				continue
			}
			if s := n.mayNil(e, nil, seen); s != "" {
				return s
			}
		}
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return ""
		}
		switch a := x.X.(type) {
		case *ssa.IndexAddr:
			return n.elems(a.X, map[ssa.Value]bool{})
		case *ssa.Alloc:
			return n.variable(a, seen)
		case *ssa.FreeVar:
			if b := freeVarBinding(a); b != nil {
				if al, ok := b.(*ssa.Alloc); ok {
					return n.variable(al, seen)
				}
				if fv, ok := b.(*ssa.FreeVar); ok {
					if c := freeVarBinding(fv); c != nil {
						if al, ok := c.(*ssa.Alloc); ok {
							return n.variable(al, seen)
						}
					}
				}
			}
		}
	case *ssa.FreeVar:
		if b := freeVarBinding(x); b != nil {
			// value captured before go 1.22 style: known at creation?
			return n.mayNil(b, nil, seen)
		}
	}
	return ""
}

func (n *nilness) knownOnEdgeSafe(v ssa.Value, from, to *ssa.BasicBlock) bool {
	if n.flows[from.Parent()] == nil {
		// facts under construction: tests only
		if iff, ok := from.Instrs[len(from.Instrs)-1].(*ssa.If); ok && from.Succs[0] != from.Succs[1] {
			if t, eq := nilTestOf(iff.Cond); t == v && (from.Succs[0] == to) != eq {
				return true
			}
		}
		return nonNilHere(v, from)
	}
	return n.knownOnEdge(v, from, to)
}

func (n *nilness) variable(al *ssa.Alloc, seen map[ssa.Value]bool) string {
	for _, st := range storesTo(al) {
		if s := n.mayNil(st.Val, nil, seen); s != "" {
			if nonNilHere(st.Val, st.Block()) {
				continue
			}
			return s
		}
	}
	return ""
}

// stores to a local variable, in its function and the closures capturing it
func storesTo(al *ssa.Alloc) (r []*ssa.Store) {
	var walk func(v ssa.Value, d int)
	walk = func(v ssa.Value, d int) {
		if v.Referrers() == nil || d > 4 {
			return
		}
		for _, x := range *v.Referrers() {
			switch y := x.(type) {
			case *ssa.Store:
				if y.Addr == v {
					r = append(r, y)
				}
			case *ssa.MakeClosure:
				for k, b := range y.Bindings {
					if b == v {
						walk(y.Fn.(*ssa.Function).FreeVars[k], d+1)
					}
				}
			}
		}
	}
	walk(al, 0)
	return
}

func (n *nilness) retMayNil(f *ssa.Function, k int) bool {
	if len(f.Blocks) == 0 || f.Signature.Results().Len() <= k || !n.is(f.Signature.Results().At(k).Type()) {
		return false
	}
	if n.ret[f] == nil {
		n.ret[f] = map[int]int{}
	}
	switch n.ret[f][k] {
	case 1, 2:
		return false
	case 3:
		return true
	}
	n.ret[f][k] = 1
	n.facts(f)
	res := 2
	for _, b := range f.Blocks {
		rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || mayFail(rt) || b == f.Recover {
			continue
		}
		v := retVal(rt, k)
		if n.mayNil(v, rt, map[ssa.Value]bool{}) != "" && !n.failsWith(rt, v) {
			res = 3
		}
	}
	n.ret[f][k] = res
	return res == 3
}

// value returned along with the error of the same call
func (n *nilness) failsWith(rt *ssa.Return, v ssa.Value) bool { return false }

// may elements of slice v be nil: where from
func (n *nilness) elems(v ssa.Value, seen map[ssa.Value]bool) string {
	if seen[v] {
		return ""
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Parameter:
		for _, s := range n.w.calls().callers[x.Parent()] {
			if a := argFor(x, x.Parent(), s); a != nil && s.Parent() != nil {
				if r := n.elems(a, seen); r != "" {
					return r
				}
			}
		}
	case *ssa.Call, *ssa.Extract:
		cl, k := resultOf(x)
		if cl == nil {
			return ""
		}
		if b, ok := cl.Call.Value.(*ssa.Builtin); ok {
			if b.Name() == "append" {
				for _, a := range cl.Call.Args {
					if r := n.elems(a, seen); r != "" {
						return r
					}
				}
			}
			return ""
		}
		for _, t := range n.w.targets(cl) {
			if n.compacted(t, k) {
				continue
			}
			for _, b := range t.Blocks {
				if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && !mayFail(rt) && b != t.Recover && k < len(rt.Results) {
					if r := n.elems(retVal(rt, k), seen); r != "" {
						return r
					}
				}
			}
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if r := n.elems(e, seen); r != "" {
				return r
			}
		}
	case *ssa.Slice:
		if al, ok := x.X.(*ssa.Alloc); ok {
			return n.elemStores(al, seen)
		}
		return n.elems(x.X, seen)
	case *ssa.MakeSlice:
		return n.elemStores(x, seen)
	case *ssa.ChangeType:
		return n.elems(x.X, seen)
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return ""
		}
		a := x.X
		if fv, ok := a.(*ssa.FreeVar); ok {
			if b := freeVarBinding(fv); b != nil {
				a = b
			}
		}
		switch y := a.(type) {
		case *ssa.Alloc:
			for _, st := range storesTo(y) {
				if r := n.elems(st.Val, seen); r != "" {
					return r
				}
			}
		case *ssa.FieldAddr:
			if n.stores == nil {
				n.stores = map[string][]*ssa.Store{}
				for _, f := range n.w.Funcs {
					for _, b := range f.Blocks {
						for _, i := range b.Instrs {
							if st, ok := i.(*ssa.Store); ok {
								if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
									n.stores[fieldKey(fa)] = append(n.stores[fieldKey(fa)], st)
								}
							}
						}
					}
				}
			}
			for _, st := range n.stores[fieldKey(y)] {
				if r := n.elems(st.Val, seen); r != "" {
					return r
				}
			}
		}
	case *ssa.FreeVar:
		if b := freeVarBinding(x); b != nil {
			return n.elems(b, seen)
		}
	}
	return ""
}

// values stored into the elements of a slice or array: through any alias in the function and its closures
func (n *nilness) elemStores(made ssa.Value, seen map[ssa.Value]bool) string {
	root := made.(ssa.Instruction).Parent()
	for root.Parent() != nil {
		root = root.Parent()
	}
	res := ""
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				st, ok := i.(*ssa.Store)
				if !ok || !n.is(st.Val.Type()) {
					continue
				}
				ia, ok := st.Addr.(*ssa.IndexAddr)
				if !ok || !n.aliases(ia.X, made, map[ssa.Value]bool{}) {
					continue
				}
				if nonNilHere(st.Val, b) {
					continue
				}
				if r := n.mayNil(st.Val, nil, map[ssa.Value]bool{}); r != "" && res == "" {
					res = r
				}
			}
		}
		for _, a := range f.AnonFuncs {
			visit(a)
		}
	}
	visit(root)
	return res
}

func (n *nilness) aliases(v, made ssa.Value, seen map[ssa.Value]bool) bool {
	if v == made {
		return true
	}
	if seen[v] {
		return false
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Slice:
		return n.aliases(x.X, made, seen)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if n.aliases(e, made, seen) {
				return true
			}
		}
	case *ssa.UnOp:
		a := x.X
		if fv, ok := a.(*ssa.FreeVar); ok {
			if b := freeVarBinding(fv); b != nil {
				a = b
			}
		}
		if al, ok := a.(*ssa.Alloc); ok {
			for _, st := range storesTo(al) {
				if n.aliases(st.Val, made, seen) {
					return true
				}
			}
		}
	case *ssa.FreeVar:
		if b := freeVarBinding(x); b != nil {
			return n.aliases(b, made, seen)
		}
	}
	return false
}

// does the function return only non-nil elements: those stored (or appended) under a test, cut off at their number
func (n *nilness) compacted(f *ssa.Function, k int) bool {
	n.facts(f)
	rets := 0
	for _, b := range f.Blocks {
		rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || b == f.Recover || k >= len(rt.Results) {
			continue
		}
		v := retVal(rt, k)
		if isNilConst(v) {
			continue
		}
		if mayFail(rt) {
			continue
		}
		if cl, kk := resultOf(v); cl != nil {
			if bi, ok := cl.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "append" {
				for _, t := range n.w.targets(cl) {
					if !n.compacted(t, kk) {
						return false
					}
				}
				rets++
				continue
			}
		}
		if n.filtered(v, map[ssa.Value]bool{}) {
			rets++
			continue
		}
		sl, ok := v.(*ssa.Slice)
		if !ok || sl.High == nil || sl.Low != nil {
			return false
		}
		if !n.counted(sl) {
			return false
		}
		rets++
	}
	return rets > 0
}

// built by appending non-nil values only
func (n *nilness) filtered(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Const:
		return x.Value == nil
	case *ssa.MakeSlice:
		c, ok := constInt(x.Len)
		return ok && c == 0
	case *ssa.Slice:
		if c, ok := constInt2(x.High); ok && c == 0 {
			return true
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !n.filtered(e, seen) {
				return false
			}
		}
		return true
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && len(x.Call.Args) == 2 {
			if !n.filtered(x.Call.Args[0], seen) {
				return false
			}
			for _, e := range variadicElems(x.Call.Args[1]) {
				if !n.known(e, x) && n.mayNil(e, x, map[ssa.Value]bool{}) != "" {
					return false
				}
			}
			return true
		}
	}
	return false
}

// s[:o] where elements are stored at o only if not nil, and o counts exactly these
func (n *nilness) counted(sl *ssa.Slice) bool {
	phi, ok := stripConv(sl.High).(*ssa.Phi)
	if !ok {
		return false
	}
	// all values o takes
	vals := map[ssa.Value]bool{}
	var collect func(v ssa.Value) bool
	incs := map[*ssa.BinOp]bool{}
	collect = func(v ssa.Value) bool {
		if vals[v] {
			return true
		}
		vals[v] = true
		switch x := v.(type) {
		case *ssa.Phi:
			for _, e := range x.Edges {
				if !collect(e) {
					return false
				}
			}
			return true
		case *ssa.Const:
			c, ok := constInt(x)
			return ok && c == 0
		case *ssa.BinOp:
			if c, ok := constInt(x.Y); ok && x.Op == token.ADD && c == 1 {
				incs[x] = true
				return collect(x.X)
			}
		}
		return false
	}
	if !collect(phi) || len(incs) == 0 {
		return false
	}
	for inc := range incs {
		ok := false
		for _, i := range inc.Block().Instrs {
			st, is := i.(*ssa.Store)
			if !is {
				continue
			}
			ia, is := st.Addr.(*ssa.IndexAddr)
			if is && ia.X == sl.X && stripConv(ia.Index) == inc.X && (n.known(st.Val, st) || n.mayNil(st.Val, st, map[ssa.Value]bool{}) == "") {
				ok = true
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

// ---- dereferences

// instruction dereferencing v in a way that fails for nil, nil if every use is fine
func (n *nilness) derefOf(v ssa.Value, i ssa.Instruction) bool {
	switch x := i.(type) {
	case *ssa.FieldAddr:
		return x.X == v
	case *ssa.UnOp:
		return x.Op == token.MUL && x.X == v
	case *ssa.Store:
		return x.Addr == v
	}
	return false
}

// does f dereference its parameter on some path without a check
func (n *nilness) derefs(p *ssa.Parameter) bool {
	switch n.der[p] {
	case 1, 2:
		return false
	case 3:
		return true
	}
	n.der[p] = 1
	res := n.unguarded(p, nil)
	n.der[p] = 2
	if len(res) > 0 {
		n.der[p] = 3
		n.why[p] = res[0]
	}
	return len(res) > 0
}

// uses of v that fail if it is nil and are not protected by a check
func (n *nilness) unguarded(v ssa.Value, from ssa.Instruction) (res []ssa.Instruction) {
	if v.Referrers() == nil {
		return
	}
	for _, i := range *v.Referrers() {
		if i.Parent() == nil {
			continue
		}
		switch {
		case n.derefOf(v, i):
			if !n.knownBefore(v, i) {
				res = append(res, i)
			}
		default:
			ci, ok := i.(ssa.CallInstruction)
			if ok {
				if n.knownBefore(v, i) {
					continue
				}
				for _, t := range n.w.targets(ci) {
					for _, q := range t.Params {
						if argFor(q, t, ci) == v && n.derefs(q) {
							res = append(res, i)
						}
					}
				}
				continue
			}
			if mc, ok := i.(*ssa.MakeClosure); ok && !n.knownBefore(v, i) {
				for k, b := range mc.Bindings {
					if b == v {
						res = append(res, n.unguarded(mc.Fn.(*ssa.Function).FreeVars[k], nil)...)
					}
				}
			}
			if st, ok := i.(*ssa.Store); ok && st.Val == v {
				// copied to a variable captured elsewhere
				if al, ok := st.Addr.(*ssa.Alloc); ok && singleStore(al) == v && !n.knownBefore(v, i) {
					res = append(res, n.loads(al)...)
				}
			}
		}
	}
	return
}

// unguarded uses of the loads of a variable
func (n *nilness) loads(al ssa.Value) (res []ssa.Instruction) {
	if al.Referrers() == nil {
		return
	}
	for _, i := range *al.Referrers() {
		switch x := i.(type) {
		case *ssa.UnOp:
			res = append(res, n.unguarded(x, nil)...)
		case *ssa.MakeClosure:
			for k, b := range x.Bindings {
				if b == al {
					fv := x.Fn.(*ssa.Function).FreeVars[k]
					// checked before the closure is made?
					if fs := n.facts(x.Parent()).at(x); fs != nil && fs["nn:"+addrName(al)] {
						continue
					}
					res = append(res, n.loads(fv)...)
				}
			}
		}
	}
	return
}

// known not to be nil just before i (not counting i itself)
func (n *nilness) knownBefore(v ssa.Value, i ssa.Instruction) bool {
	n.facts(i.Parent())
	return n.known(v, i)
}

func isImagePtr(t types.Type) bool {
	_, ok := t.Underlying().(*types.Pointer)
	return ok && strings.HasSuffix(t.String(), "fits.Image")
}

func runC09(w *World, r *Report) {
	r.rule("deref", "an image that may be missing is only dereferenced after a check", 8)
	r.rule("collections", "collections of frames either contain no missing ones or their elements are checked", 3)
	n := newNilness(w, isImagePtr)
	n.source = func(v ssa.Value) (string, bool) {
		// result of evaluating a promise
		cl, k := resultOf(v)
		if cl != nil && k == 0 && cl.Call.StaticCallee() == nil && !cl.Call.IsInvoke() && isPromiseT(cl.Call.Value.Type()) {
			return "the result of evaluating a promise", true
		}
		// frames shared through the context are there only if they have been loaded
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
			if fa, ok := u.X.(*ssa.FieldAddr); ok && strings.HasSuffix(deref(fa.X.Type()).String(), "ops.Context") {
				return "the context's " + fieldName(fa.X.Type(), fa.Field), true
			}
		}
		return "", false
	}
	for _, f := range w.Funcs {
		n.facts(f)
	}
	for _, f := range w.Funcs {
		check := func(v ssa.Value) {
			if !isImagePtr(v.Type()) {
				return
			}
			if _, ok := v.(*ssa.Const); ok {
				return
			}
			why := n.mayNil(v, nil, map[ssa.Value]bool{})
			if why == "" {
				return
			}
			r.ob("deref", "%s: %s", fname(f), why)
			for _, i := range n.unguarded(v, nil) {
				r.bad("deref", fname(f)+"|"+why, w.ipos(i), "%s: %s may be missing and is used without a check", fname(f), why)
			}
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if v, ok := i.(ssa.Value); ok {
					check(v)
				}
				ci, ok := i.(ssa.CallInstruction)
				if !ok {
					continue
				}
				// nil handed to a function that dereferences it
				for _, t := range w.targets(ci) {
					for _, q := range t.Params {
						if !isImagePtr(q.Type()) {
							continue
						}
						a := argFor(q, t, ci)
						if a != nil && isNilConst(a) && n.derefs(q) {
							r.bad("deref", fname(f)+"|nil", w.ipos(i), "%s hands no image to %s, which uses it", fname(f), fname(t))
						}
					}
				}
			}
		}
	}
	for _, f := range w.Funcs {
		for k := 0; k < f.Signature.Results().Len(); k++ {
			if isImages(f.Signature.Results().At(k).Type()) && f.Synthetic == "" {
				if n.compacted(f, k) {
					r.ob("collections", "%s returns no missing frames", fname(f))
				} else {
					r.ob("collections", "%s may return missing frames", fname(f))
				}
			}
		}
	}
}

func init() {
	register("C09", "Nullness of images is propagated from promises and optional shared frames through variables, collections, calls and merges; every dereference (direct, in callees via summaries, in closures) of an image that may be missing needs a dominating check, found by a must-dataflow", runC09)
}
