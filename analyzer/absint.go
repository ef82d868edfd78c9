package main

// Value-set analysis: a forward dataflow analysis that tracks small sets of constants (and nil-ness) for variables, fields
// and SSA values, refines them on branches, and follows calls into module functions and closures. Used to decide which
// code is reachable for a given setting of an operator.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// set of constants; nil map means any value
type vset map[string]constant.Value

const (
	vNil    = "nil"
	vNonNil = "nonnil"
	vMax    = 24
)

func vconst(c constant.Value) vset { return vset{c.ExactString(): c} }
func vint(k int64) vset            { return vconst(constant.MakeInt64(k)) }
func vflt(k float64) vset          { return vconst(constant.MakeFloat64(k)) }
func vstr(s string) vset           { return vconst(constant.MakeString(s)) }
func vbool(b bool) vset            { return vconst(constant.MakeBool(b)) }
func vtag(t string) vset           { return vset{t: nil} }

func (a vset) union(b vset) vset {
	if a == nil || b == nil {
		return nil
	}
	r := vset{}
	for k, v := range a {
		r[k] = v
	}
	for k, v := range b {
		r[k] = v
	}
	if len(r) > vMax {
		return nil
	}
	return r
}

func (a vset) eq(b vset) bool {
	if (a == nil) != (b == nil) || len(a) != len(b) {
		return false
	}
	for k := range a {
		if _, ok := b[k]; !ok {
			return false
		}
	}
	return true
}

func (a vset) only(k string) bool { _, ok := a[k]; return ok && len(a) == 1 }

func (a vset) String() string {
	if a == nil {
		return "*"
	}
	var ks []string
	for k := range a {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return "{" + strings.Join(ks, " ") + "}"
}

// may the set contain true / false
func (a vset) truth() (mayT, mayF bool) {
	if a == nil {
		return true, true
	}
	_, mayT = a["true"]
	_, mayF = a["false"]
	return
}

type aState struct {
	locs  map[string]vset
	vals  map[ssa.Value]vset
	src   map[ssa.Value]string   // location an unmodified value was loaded from
	alts  map[ssa.Value][][]vset // results of a call, per return statement of the callee
	widen bool                   // joins keep only what does not change any more
}

func newState() *aState {
	return &aState{locs: map[string]vset{}, vals: map[ssa.Value]vset{}, src: map[ssa.Value]string{}, alts: map[ssa.Value][][]vset{}}
}

func (s *aState) clone() *aState {
	n := newState()
	for k, v := range s.locs {
		n.locs[k] = v
	}
	for k, v := range s.vals {
		n.vals[k] = v
	}
	for k, v := range s.src {
		n.src[k] = v
	}
	for k, v := range s.alts {
		n.alts[k] = v
	}
	return n
}

// join o into s; reports change
func (s *aState) join(o *aState) bool {
	ch := false
	for k, v := range s.locs {
		x := v.union(o.locs[k])
		if x == nil || s.widen && !x.eq(v) {
			delete(s.locs, k)
			ch = true
		} else if !x.eq(v) {
			s.locs[k] = x
			ch = true
		}
	}
	for k, v := range s.vals {
		x := v.union(o.vals[k])
		if x == nil || s.widen && !x.eq(v) {
			delete(s.vals, k)
			ch = true
		} else if !x.eq(v) {
			s.vals[k] = x
			ch = true
		}
	}
	for k, v := range s.src {
		if o.src[k] != v {
			delete(s.src, k)
			ch = true
		}
	}
	for k, v := range s.alts {
		if x, ok := o.alts[k]; !ok || !sameAlts(x, v) {
			delete(s.alts, k)
			ch = true
		}
	}
	return ch
}

func sameAlts(a, b [][]vset) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		for j := range a[i] {
			if !a[i][j].eq(b[i][j]) {
				return false
			}
		}
	}
	return true
}

func (s *aState) kill(prefix string) {
	for k := range s.locs {
		if k == prefix || strings.HasPrefix(k, prefix) && strings.ContainsAny(k[len(prefix):len(prefix)+1], ".^[") {
			delete(s.locs, k)
		}
	}
	for v, k := range s.src {
		if k == prefix || strings.HasPrefix(k, prefix) && strings.ContainsAny(k[len(prefix):len(prefix)+1], ".^[") {
			delete(s.src, v)
		}
	}
}

func (s *aState) killField(name string) {
	suf := "." + name
	hit := func(k string) bool {
		return strings.HasSuffix(k, suf) || strings.Contains(k, suf+".") || strings.Contains(k, suf+"^")
	}
	for k := range s.locs {
		if hit(k) {
			delete(s.locs, k)
		}
	}
	for v, k := range s.src {
		if hit(k) {
			delete(s.src, v)
		}
	}
}

type aFrame struct {
	f      *ssa.Function
	parent *aFrame
	site   ssa.CallInstruction
	id     string
	ptr    map[ssa.Value]string // locations of pointer parameters and captured variables
	depth  int
}

type aRet struct {
	at   *ssa.Return
	vals []vset
	st   *aState
}

type AI struct {
	w        *World
	e        *effects
	visit    func(fr *aFrame, i ssa.Instruction, st *aState)
	load     func(fr *aFrame, u *ssa.UnOp, loc string) vset       // values of loads that are not known otherwise
	result   func(fr *aFrame, c *ssa.Call) vset                   // values of calls that are not known otherwise
	before   func(fr *aFrame, i ssa.Instruction, st *aState)      // called on every pass over an instruction, may add to the state
	fold     func(fr *aFrame, st *aState, c *ssa.Call) vset       // results of calls with known arguments
	enterIf  func(f *ssa.Function) bool                           // functions to look into, instead of those where constants are known
	opaque   func(fr *aFrame, ci ssa.CallInstruction, st *aState) // calls that are not looked into
	maxDepth int
	steps    int
	over     bool
	enterMC  bool // analyse closures where they are created, too
}

func newAI(w *World) *AI { return &AI{w: w, e: w.effects(), maxDepth: 4} }

// analyse f from an entry state given in terms of its parameters; returns the reachable returns
func (ai *AI) run(f *ssa.Function, init func(st *aState, key func(p *ssa.Parameter) string)) []aRet {
	fr := &aFrame{f: f, id: "", ptr: map[ssa.Value]string{}}
	st := newState()
	if init != nil {
		init(st, func(p *ssa.Parameter) string { return ai.loc(fr, p) })
	}
	return ai.analyse(fr, st, ai.visit != nil)
}

// location a pointer value points to, "" if not tracked
func (ai *AI) loc(fr *aFrame, v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.Alloc:
		return fr.id + "a:" + x.Name()
	case *ssa.Global:
		return "g:" + x.String()
	case *ssa.Parameter, *ssa.FreeVar:
		if l, ok := fr.ptr[v]; ok {
			return l
		}
		return fr.id + "p:" + v.Name()
	case *ssa.FieldAddr:
		if b := ai.loc(fr, x.X); b != "" {
			return b + "." + fieldName(x.X.Type(), x.Field)
		}
	case *ssa.ChangeType:
		return ai.loc(fr, x.X)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if a, ok := x.X.(*ssa.Alloc); ok {
				if v := onlyStore(a); v != nil {
					return ai.loc(fr, v)
				}
			}
			if fv, ok := x.X.(*ssa.FreeVar); ok {
				if l, ok := fr.ptr[fv]; ok {
					return l + "^"
				}
			}
			if b := ai.loc(fr, x.X); b != "" {
				return b + "^"
			}
		}
	case *ssa.Call, *ssa.Extract, *ssa.MakeInterface:
		return fr.id + "v:" + v.Name()
	}
	return ""
}

func (ai *AI) val(fr *aFrame, st *aState, v ssa.Value) vset {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			if _, ok := x.Type().Underlying().(*types.Struct); ok {
				return nil
			}
			return vtag(vNil)
		}
		return vconst(x.Value)
	case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan, *ssa.MakeClosure, *ssa.Function, *ssa.Global, *ssa.FieldAddr, *ssa.IndexAddr:
		return vtag(vNonNil)
	case *ssa.MakeInterface:
		return vtag(vNonNil)
	}
	return st.vals[v]
}

func (ai *AI) set(st *aState, v ssa.Value, s vset) {
	if s == nil {
		delete(st.vals, v)
	} else {
		st.vals[v] = s
	}
}

func vcompare(op token.Token, x, y vset) vset {
	if x == nil || y == nil || len(x)*len(y) > 600 {
		return nil
	}
	r := vset{}
	for a, av := range x {
		for b, bv := range y {
			var t, f bool
			switch {
			case av != nil && bv != nil:
				if av.Kind() != bv.Kind() && (av.Kind() == constant.String || bv.Kind() == constant.String || av.Kind() == constant.Bool || bv.Kind() == constant.Bool) {
					return nil
				}
				t = constant.Compare(av, op, bv)
				f = !t
			case a == vNil && b == vNil:
				t, f = op == token.EQL, op != token.EQL
			case a == vNil || b == vNil:
				t, f = op == token.NEQ, op != token.NEQ
			default:
				t, f = true, true
			}
			if t {
				r["true"] = constant.MakeBool(true)
			}
			if f {
				r["false"] = constant.MakeBool(false)
			}
		}
	}
	return r
}

func isCmp(op token.Token) bool {
	switch op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		return true
	}
	return false
}

func (ai *AI) analyse(fr *aFrame, entry *aState, observe bool) []aRet {
	f := fr.f
	in := map[*ssa.BasicBlock]*aState{f.Blocks[0]: entry.clone()}
	visits := map[*ssa.BasicBlock]int{}
	work := []*ssa.BasicBlock{f.Blocks[0]}
	queued := map[*ssa.BasicBlock]bool{f.Blocks[0]: true}
	var rets map[*ssa.BasicBlock]aRet
	exec := func(b *ssa.BasicBlock, obs bool) *aState {
		st := in[b].clone()
		for _, i := range b.Instrs {
			if ai.before != nil {
				ai.before(fr, i, st)
			}
			if obs && ai.visit != nil {
				ai.visit(fr, i, st)
			}
			if !ai.step(fr, st, i, obs) {
				return nil // does not continue
			}
			if rt, ok := i.(*ssa.Return); ok {
				r := aRet{at: rt, st: st}
				for _, x := range rt.Results {
					v := ai.val(fr, st, x)
					if v == nil && isErrT(x.Type()) && definitelyErr(x, b, 0) {
						v = vtag(vNonNil)
					}
					r.vals = append(r.vals, v)
				}
				rets[b] = r
			}
		}
		return st
	}
	rets = map[*ssa.BasicBlock]aRet{}
	for len(work) > 0 {
		ai.steps++
		if ai.steps > 400000 {
			ai.over = true
			break
		}
		b := work[0]
		work = work[1:]
		queued[b] = false
		st := exec(b, false)
		if st == nil {
			continue
		}
		for k, s := range b.Succs {
			es := ai.edge(fr, st, b, k)
			if es == nil {
				continue
			}
			// phis
			pi := -1
			seen := 0
			for j, p := range s.Preds {
				if p == b {
					if len(b.Succs) == 2 && b.Succs[0] == b.Succs[1] && seen != k {
						seen++
						continue
					}
					pi = j
					break
				}
			}
			type pv struct {
				p *ssa.Phi
				v vset
				s string
			}
			var ps []pv
			for _, i := range s.Instrs {
				p, ok := i.(*ssa.Phi)
				if !ok {
					break
				}
				ps = append(ps, pv{p, ai.val(fr, es, p.Edges[pi]), es.src[p.Edges[pi]]})
			}
			for _, x := range ps {
				ai.set(es, x.p, x.v)
				if x.s != "" {
					es.src[x.p] = x.s
				} else {
					delete(es.src, x.p)
				}
			}
			ch := false
			if old := in[s]; old == nil {
				in[s] = es
				ch = true
			} else {
				visits[s]++
				old.widen = visits[s] > 12
				ch = old.join(es)
				old.widen = false
			}
			if ch && !queued[s] {
				queued[s] = true
				work = append(work, s)
			}
		}
	}
	rets = map[*ssa.BasicBlock]aRet{}
	var res []aRet
	for _, b := range f.Blocks {
		if in[b] != nil {
			exec(b, observe)
			if r, ok := rets[b]; ok {
				res = append(res, r)
			}
		}
	}
	return res
}

// state on the k-th outgoing edge of b, nil if it cannot be taken
func (ai *AI) edge(fr *aFrame, st *aState, b *ssa.BasicBlock, k int) *aState {
	iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return st.clone()
	}
	t, f := ai.val(fr, st, iff.Cond).truth()
	if k == 0 && !t || k == 1 && !f {
		return nil
	}
	n := st.clone()
	if !ai.refine(fr, n, iff.Cond, k == 0) {
		return nil
	}
	return n
}

func (ai *AI) assign(fr *aFrame, st *aState, v ssa.Value, s vset) {
	for {
		ai.set1(st, v, s)
		ai.correlate(fr, st, v, s)
		if c, ok := v.(*ssa.ChangeType); ok {
			v = c.X
			continue
		}
		return
	}
}

func (ai *AI) set1(st *aState, v ssa.Value, s vset) {
	ai.set(st, v, s)
	if l := st.src[v]; l != "" && s != nil {
		st.locs[l] = s
		// other values equal to what is stored there
		for o, ol := range st.src {
			if ol == l {
				ai.set(st, o, s)
			}
		}
	}
}

// knowing one result of a call restricts the others
func (ai *AI) correlate(fr *aFrame, st *aState, v ssa.Value, s vset) {
	if s == nil {
		return
	}
	var exs []*ssa.Extract
	if ex, ok := v.(*ssa.Extract); ok {
		exs = append(exs, ex)
	}
	if l := st.src[v]; l != "" {
		for o, ol := range st.src {
			if ex, ok := o.(*ssa.Extract); ok && ol == l && o != v {
				exs = append(exs, ex)
			}
		}
	}
	for _, ex := range exs {
		alts := st.alts[ex.Tuple]
		if alts == nil {
			continue
		}
		var left [][]vset
		for _, a := range alts {
			x := a[ex.Index]
			ok := x == nil
			for k := range x {
				if _, has := s[k]; has {
					ok = true
				}
			}
			if ok {
				left = append(left, a)
			}
		}
		if len(left) == len(alts) || len(left) == 0 {
			continue
		}
		st.alts[ex.Tuple] = left
		for k := range left[0] {
			if k == ex.Index {
				continue
			}
			u := left[0][k]
			for _, a := range left[1:] {
				u = u.union(a[k])
			}
			if u == nil {
				continue
			}
			st.locs[fr.id+"t:"+ex.Tuple.Name()+fmt.Sprint("#", k)] = u
			for _, r := range *ex.Tuple.Referrers() {
				if o, ok := r.(*ssa.Extract); ok && o.Index == k {
					if _, has := st.src[o]; has || st.vals[o] != nil {
						ai.set1(st, o, u)
					}
				}
			}
		}
	}
}

// assume cond has the given truth value; false if impossible
func (ai *AI) refine(fr *aFrame, st *aState, cond ssa.Value, truth bool) bool {
	cond, neg := stripNot(cond)
	truth = truth != neg
	if bo, ok := cond.(*ssa.BinOp); ok && isCmp(bo.Op) {
		op := bo.Op
		if !truth {
			op = negOp(op)
		}
		for side := 0; side < 2; side++ {
			x, y, o := bo.X, bo.Y, op
			if side == 1 {
				x, y, o = bo.Y, bo.X, flipOp(op)
			}
			if _, ok := x.(*ssa.Const); ok {
				continue
			}
			xs, ys := ai.val(fr, st, x), ai.val(fr, st, y)
			if ys == nil {
				continue
			}
			if xs == nil {
				if o == token.EQL {
					ai.assign(fr, st, x, ys)
				}
				if o == token.NEQ && ys.only(vNil) {
					ai.assign(fr, st, x, vtag(vNonNil))
				}
				continue
			}
			r := vset{}
			for k, v := range xs {
				if t, _ := vcompare(o, vset{k: v}, ys).truth(); t {
					r[k] = v
				}
			}
			if len(r) == 0 {
				return false
			}
			ai.assign(fr, st, x, r)
		}
		return true
	}
	ai.assign(fr, st, cond, vbool(truth))
	return true
}

// effect of an instruction; false if control does not continue
func (ai *AI) step(fr *aFrame, st *aState, i ssa.Instruction, obs bool) bool {
	switch x := i.(type) {
	case *ssa.Phi:
	case *ssa.Alloc:
		l := ai.loc(fr, x)
		st.kill(l)
		if b, ok := deref(x.Type()).Underlying().(*types.Basic); ok {
			st.locs[l] = zeroOf(b)
			if st.locs[l] == nil {
				delete(st.locs, l)
			}
		} else {
			switch deref(x.Type()).Underlying().(type) {
			case *types.Pointer, *types.Slice, *types.Map, *types.Interface, *types.Signature, *types.Chan:
				st.locs[l] = vtag(vNil)
			}
		}
	case *ssa.UnOp:
		delete(st.vals, x)
		delete(st.src, x)
		switch x.Op {
		case token.MUL:
			l := ai.loc(fr, x.X)
			var v vset
			if l != "" {
				v = st.locs[l]
			}
			if v == nil && ai.load != nil {
				v = ai.load(fr, x, l)
				if v != nil && l != "" {
					st.locs[l] = v
				}
			}
			ai.set(st, x, v)
			if l != "" {
				st.src[x] = l
			}
		case token.NOT:
			if a := ai.val(fr, st, x.X); a != nil {
				r := vset{}
				for k := range a {
					if k == "true" {
						r["false"] = constant.MakeBool(false)
					} else {
						r["true"] = constant.MakeBool(true)
					}
				}
				ai.set(st, x, r)
			}
		case token.SUB:
			if a := ai.val(fr, st, x.X); a != nil {
				r := vset{}
				for _, v := range a {
					if v == nil {
						return true
					}
					n := constant.UnaryOp(token.SUB, v, 0)
					r[n.ExactString()] = n
				}
				ai.set(st, x, r)
			}
		}
	case *ssa.BinOp:
		delete(st.vals, x)
		a, b := ai.val(fr, st, x.X), ai.val(fr, st, x.Y)
		if isCmp(x.Op) {
			if a == nil && b == nil || a == nil || b == nil {
				break
			}
			ai.set(st, x, vcompare(x.Op, a, b))
			break
		}
		if a == nil || b == nil || len(a)*len(b) > 64 {
			break
		}
		r := vset{}
		for _, av := range a {
			for _, bv := range b {
				v := foldBin(x, av, bv)
				if v == nil {
					return true
				}
				r[v.ExactString()] = v
			}
		}
		if len(r) <= 8 {
			ai.set(st, x, r)
		}
	case *ssa.ChangeType:
		ai.set(st, x, ai.val(fr, st, x.X))
		delete(st.src, x)
		if l := st.src[x.X]; l != "" {
			st.src[x] = l
		}
	case *ssa.Convert:
		delete(st.vals, x)
		if a := ai.val(fr, st, x.X); a != nil {
			r := vset{}
			for _, v := range a {
				v = convConst(v, x.Type())
				if v == nil {
					return true
				}
				r[v.ExactString()] = v
			}
			ai.set(st, x, r)
		}
	case *ssa.Slice:
		ai.set(st, x, nil)
		if a := ai.val(fr, st, x.X); a != nil && x.Low == nil {
			ai.set(st, x, a)
		} else if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			ai.set(st, x, vtag(vNonNil))
		}
	case *ssa.Store:
		l := ai.loc(fr, x.Addr)
		v := ai.val(fr, st, x.Val)
		if l == "" {
			if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
				st.killField(fieldName(fa.X.Type(), fa.Field))
			}
			return true
		}
		if fa, ok := x.Addr.(*ssa.FieldAddr); ok && strings.Contains(l, "^") {
			st.killField(fieldName(fa.X.Type(), fa.Field)) // may alias another pointer
		}
		st.kill(l)
		if v != nil {
			st.locs[l] = v
		}
		if _, ok := x.Val.(*ssa.Extract); ok {
			st.src[x.Val] = l
		}
	case *ssa.Extract:
		delete(st.vals, x)
		delete(st.src, x)
		switch t := x.Tuple.(type) {
		case *ssa.Call:
			if v := st.locs[fr.id+"t:"+t.Name()+fmt.Sprint("#", x.Index)]; v != nil {
				ai.set(st, x, v)
			}
		}
	case *ssa.Panic:
		return false
	case *ssa.MakeClosure:
		if ai.enterMC {
			ai.closure(fr, st, x, nil, obs)
		}
	case *ssa.Call:
		return ai.call(fr, st, x, obs)
	case *ssa.Go:
		ai.call(fr, st, x, obs)
	case *ssa.Defer:
		ai.call(fr, st, x, obs)
	case ssa.Value:
		delete(st.vals, x)
		delete(st.src, x)
	}
	return true
}

func zeroOf(b *types.Basic) vset {
	switch {
	case b.Info()&types.IsBoolean != 0:
		return vbool(false)
	case b.Info()&types.IsString != 0:
		return vstr("")
	case b.Info()&types.IsNumeric != 0 && b.Info()&types.IsComplex == 0:
		return vint(0)
	}
	return nil
}

func convConst(v constant.Value, t types.Type) constant.Value {
	b, ok := t.Underlying().(*types.Basic)
	if !ok || v == nil {
		return nil
	}
	switch {
	case b.Info()&types.IsInteger != 0:
		n := constant.ToInt(v)
		if n.Kind() == constant.Int {
			return n
		}
	case b.Info()&types.IsFloat != 0:
		n := constant.ToFloat(v)
		if n.Kind() == constant.Float || n.Kind() == constant.Int {
			return n
		}
	case b.Info()&types.IsString != 0 && v.Kind() == constant.String:
		return v
	}
	return nil
}

func foldBin(x *ssa.BinOp, a, b constant.Value) (r constant.Value) {
	if a == nil || b == nil {
		return nil
	}
	defer func() {
		if recover() != nil {
			r = nil
		}
	}()
	isInt := false
	if bt, ok := x.Type().Underlying().(*types.Basic); ok {
		isInt = bt.Info()&types.IsInteger != 0
	}
	op := x.Op
	switch op {
	case token.ADD, token.SUB, token.MUL, token.AND, token.OR, token.XOR, token.AND_NOT, token.REM:
		if op == token.REM && constant.Sign(b) == 0 {
			return nil
		}
	case token.QUO:
		if constant.Sign(b) == 0 {
			return nil
		}
		if isInt {
			op = token.QUO_ASSIGN
		}
	case token.SHL, token.SHR:
		s, ok := constant.Uint64Val(b)
		if !ok || s > 62 {
			return nil
		}
		return constant.Shift(a, op, uint(s))
	default:
		return nil
	}
	v := constant.BinaryOp(a, op, b)
	if v.Kind() == constant.Unknown {
		return nil
	}
	return v
}

// bind arguments and captured variables to the parameters of a callee
func (ai *AI) enter(fr *aFrame, st *aState, callee *ssa.Function, site ssa.CallInstruction, mc *ssa.MakeClosure) (*aFrame, *aState) {
	nf := &aFrame{f: callee, parent: fr, site: site, ptr: map[ssa.Value]string{}, depth: fr.depth + 1}
	nm := "mc"
	if site != nil {
		if v, ok := site.(ssa.Value); ok {
			nm = v.Name()
		} else {
			nm = fmt.Sprint("s", site.Pos())
		}
	}
	nf.id = fr.id + nm + "/"
	ns := newState()
	for k, v := range st.locs {
		ns.locs[k] = v
	}
	bindTo := func(p, a ssa.Value) {
		if v := ai.val(fr, st, a); v != nil {
			ns.vals[p] = v
		}
		if _, ok := a.Type().Underlying().(*types.Pointer); ok {
			if l := ai.loc(fr, a); l != "" {
				nf.ptr[p] = l
			}
		}
	}
	if site != nil {
		for _, p := range callee.Params {
			if a := argFor(p, callee, site); a != nil {
				bindTo(p, a)
			}
		}
	}
	if mc != nil {
		for k, fv := range callee.FreeVars {
			if k < len(mc.Bindings) {
				b := mc.Bindings[k]
				if l := ai.loc(fr, b); l != "" {
					nf.ptr[fv] = l
				}
			}
		}
	}
	return nf, ns
}

func (ai *AI) closure(fr *aFrame, st *aState, mc *ssa.MakeClosure, site ssa.CallInstruction, obs bool) []aRet {
	fn := mc.Fn.(*ssa.Function)
	if fr.depth >= ai.maxDepth || len(fn.Blocks) == 0 {
		return nil
	}
	nf, ns := ai.enter(fr, st, fn, site, mc)
	return ai.analyse(nf, ns, obs)
}

func (ai *AI) recursive(fr *aFrame, f *ssa.Function) bool {
	for x := fr; x != nil; x = x.parent {
		if x.f == f {
			return true
		}
	}
	return false
}

func (ai *AI) call(fr *aFrame, st *aState, ci ssa.CallInstruction, obs bool) bool {
	cc := ci.Common()
	v, isVal := ci.(ssa.Value)
	if isVal {
		delete(st.vals, v)
		delete(st.src, v)
		delete(st.alts, v)
		st.kill(fr.id + "v:" + v.Name())
		for k := 0; k < 5; k++ {
			delete(st.locs, fr.id+"t:"+v.Name()+fmt.Sprint("#", k))
		}
	}
	setRes := func(k, n int, s vset) {
		if !isVal || s == nil {
			return
		}
		if n == 1 {
			ai.set(st, v, s)
		} else {
			st.locs[fr.id+"t:"+v.Name()+fmt.Sprint("#", k)] = s
		}
	}
	switch calleeName(cc) {
	case "fmt.Errorf", "errors.New":
		setRes(0, 1, vtag(vNonNil))
		return true
	case "os.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln", "log.Panic", "log.Panicf":
		return false
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "len":
			if s := ai.val(fr, st, cc.Args[0]); s != nil {
				r := vset{}
				for k, c := range s {
					switch {
					case c != nil && c.Kind() == constant.String:
						n := constant.MakeInt64(int64(len(constant.StringVal(c))))
						r[n.ExactString()] = n
					case k == vNil:
						r["0"] = constant.MakeInt64(0)
					default:
						return true
					}
				}
				setRes(0, 1, r)
			}
		case "append":
			if len(cc.Args) == 2 {
				if sl, ok := cc.Args[1].(*ssa.Slice); ok {
					if _, ok := sl.X.(*ssa.Alloc); ok {
						setRes(0, 1, vtag(vNonNil))
					}
				}
			}
		}
		return true
	}
	if isVal && ai.fold != nil {
		if c, ok := ci.(*ssa.Call); ok {
			if s := ai.fold(fr, st, c); s != nil {
				setRes(0, 1, s)
				return true
			}
		}
	}
	if isVal && ai.result != nil {
		if c, ok := ci.(*ssa.Call); ok {
			if s := ai.result(fr, c); s != nil {
				setRes(0, 1, s)
				return true
			}
		}
	}
	var callee *ssa.Function
	var mc *ssa.MakeClosure
	switch x := cc.Value.(type) {
	case *ssa.MakeClosure:
		if !cc.IsInvoke() {
			mc = x
			callee = x.Fn.(*ssa.Function)
		}
	}
	if callee == nil {
		if ts := ai.w.targets(ci); len(ts) == 1 {
			callee = ts[0]
			if cc.StaticCallee() != callee && cc.StaticCallee() != nil {
				callee = nil // through a wrapper
			}
		}
	}
	if callee != nil && ai.w.inMod[callee] && fr.depth < ai.maxDepth && !ai.recursive(fr, callee) && ai.wanted(fr, st, callee, ci, mc) {
		nf, ns := ai.enter(fr, st, callee, ci, mc)
		rets := ai.analyse(nf, ns, obs)
		if _, ok := ci.(*ssa.Defer); ok {
			return true
		}
		if len(rets) == 0 {
			return false // never returns
		}
		var out *aState
		n := callee.Signature.Results().Len()
		res := make([]vset, n)
		for k, r := range rets {
			if out == nil {
				out = r.st.clone()
			} else {
				out.join(r.st)
			}
			for j := 0; j < n; j++ {
				if k == 0 {
					res[j] = r.vals[j]
				} else {
					res[j] = res[j].union(r.vals[j])
				}
			}
		}
		st.locs = map[string]vset{}
		for k, v := range out.locs {
			if !strings.HasPrefix(k, nf.id) {
				st.locs[k] = v
			}
		}
		for v, l := range st.src { // values loaded before the call from places it changed
			if !st.locs[l].eq(st.vals[v]) {
				delete(st.src, v)
			}
		}
		for j := 0; j < n; j++ {
			setRes(j, n, res[j])
		}
		if isVal && n > 1 {
			var alts [][]vset
			for _, r := range rets {
				alts = append(alts, r.vals)
			}
			st.alts[v] = alts
		}
		return true
	}
	if obs && ai.opaque != nil {
		ai.opaque(fr, ci, st)
	}
	// forget what the callee may change
	for _, t := range ai.w.targets(ci) {
		for a := range ai.e.writes[t] {
			if k := strings.LastIndex(a.Path, "."); k >= 0 {
				nm := a.Path[k+1:]
				if j := strings.IndexByte(nm, '['); j >= 0 {
					continue
				}
				st.killField(nm)
			}
		}
	}
	for _, a := range cc.Args {
		if _, ok := a.Type().Underlying().(*types.Pointer); ok {
			if al, ok := a.(*ssa.Alloc); ok {
				if _, isB := deref(al.Type()).Underlying().(*types.Struct); !isB {
					st.kill(ai.loc(fr, al))
				}
			}
		}
	}
	if mc != nil {
		for _, b := range mc.Bindings {
			if a, ok := b.(*ssa.Alloc); ok {
				st.kill(ai.loc(fr, a))
			}
		}
	}
	return true
}

func (ai *AI) wanted(fr *aFrame, st *aState, callee *ssa.Function, ci ssa.CallInstruction, mc *ssa.MakeClosure) bool {
	if ai.enterIf != nil {
		return len(callee.Blocks) > 0 && ai.enterIf(callee)
	}
	return ai.worthwhile(fr, st, callee, ci, mc)
}

// is anything about the callee known that would make looking into it useful?
func (ai *AI) worthwhile(fr *aFrame, st *aState, callee *ssa.Function, ci ssa.CallInstruction, mc *ssa.MakeClosure) bool {
	if len(callee.Blocks) == 0 {
		return false
	}
	if mc != nil {
		return true
	}
	for k := 0; k < callee.Signature.Results().Len(); k++ {
		t := callee.Signature.Results().At(k).Type()
		if isErrT(t) {
			return true
		}
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&(types.IsBoolean|types.IsInteger) != 0 && len(callee.Blocks) < 30 {
			return true
		}
	}
	for _, a := range ci.Common().Args {
		if _, ok := a.(*ssa.Const); ok {
			continue
		}
		if s := ai.val(fr, st, a); s != nil && !s.only(vNonNil) {
			return true
		}
		if _, ok := a.Type().Underlying().(*types.Pointer); ok {
			if l := ai.loc(fr, a); l != "" {
				for k := range st.locs {
					if strings.HasPrefix(k, l+".") {
						return true
					}
				}
			}
		}
	}
	return false
}
