package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C07: shared state of concurrently processed frames.
//
// Concurrent regions are the bodies of goroutines started in loops, the Apply methods of operators (run for many frames
// at the same time), and promises created once per frame. Every region is traversed through static calls and closures,
// with an environment telling which parameters denote shared objects; loads and stores of shared cells are collected as
// access paths, together with the locks held (dataflow within functions, inherited over calls). A cell that is written
// somewhere in a region needs one lock held at all of its accesses, unless every access is indexed by something that
// belongs to the individual frame. Lock pairing is checked by enumerating the lock states of all paths in all functions.

func init() {
	register("C07", "shared state: access-path lockset analysis over the code that runs concurrently for different frames (Apply methods, per-frame promises, goroutine bodies): every shared cell written has a lock held at all accesses or a per-frame index; lock state enumeration over all paths of all functions: released at every return, never taken twice, acyclic lock order; closures do not capture variables that change after their creation", runC07)
}

const c07Mod = Mod

type c07Access struct {
	path   string
	write  bool
	whole  bool // writes the whole struct
	index  bool // indexed by something individual
	fuzzy  bool // index not understood
	dep    bool // what is written belongs to the individual frame
	locks  map[string]bool
	instr  ssa.Instruction
	region string
}

type c07Env struct {
	shared map[ssa.Value][]string // parameters: labels of the shared objects they denote
	vary   map[ssa.Value]bool     // parameters that belong to the individual frame
	known  bool
}

type c07 struct {
	w      *World
	r      *Report
	e      *effects
	ctx    types.Type
	acc    map[string][]*c07Access // by path
	sums   map[string]*c07Sum
	cur    *c07Sum
	root   *ssa.Function // region being traversed
	rname  string
	inLoop map[*ssa.Alloc]bool // captured cells that exist once per instance
	frozen map[string]bool     // context paths of flags known to be set
	safeIO map[string]bool
}

func runC07(w *World, r *Report) {
	r.rule("paired", "function that takes locks: each is released on every path to a return, none is taken twice or released without being held", 10)
	r.rule("order", "locks taken while holding another one: never in opposite orders", 1)
	r.rule("held", "shared cell modified while frames are processed concurrently: one lock is held at all accesses, or each frame has its own element", 8)
	r.rule("region", "code running concurrently for different frames, traversed for accesses to shared state", 30)
	r.rule("capture", "variables captured by the code of a single frame do not change after its creation", 5)
	r.rule("atomic", "shared cell modified depending on what was read from it: a lock is held from the read to the modification", 3)
	r.rule("writer", "output streams shared by concurrently processed frames serialise what is written", 1)
	c := &c07{w: w, r: r, e: w.effects(), acc: map[string][]*c07Access{}, sums: map[string]*c07Sum{}, frozen: map[string]bool{}, safeIO: map[string]bool{}}
	c.ctx = deref(w.typ("internal/ops", "Context"))
	c.findFrozen()
	c.regions()
	c.judge()
	c.pairing()
	c.order()
}

// ---------------------------------------------------------------- labels

func (c *c07) opType(t types.Type) *types.Named {
	n, ok := deref(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), Mod+"/internal/ops") {
		return nil
	}
	if types.Identical(n, c.ctx) {
		return nil
	}
	if _, ok := n.Underlying().(*types.Struct); !ok {
		return nil
	}
	ms := types.NewMethodSet(types.NewPointer(n))
	for k := 0; k < ms.Len(); k++ {
		if ms.At(k).Obj().Name() == "MakePromises" {
			return n
		}
	}
	return nil
}

// the label of a parameter of the code starting the region, judged by its type
func (c *c07) paramLabel(p *ssa.Parameter) string {
	t := deref(p.Type())
	if types.Identical(t, c.ctx) {
		return "c"
	}
	if n := c.opType(p.Type()); n != nil {
		return n.Obj().Name()
	}
	return fname(p.Parent()) + "/" + p.Name()
}

func isAncestor(a, f *ssa.Function) bool {
	for p := f.Parent(); p != nil; p = p.Parent() {
		if p == a {
			return true
		}
	}
	return false
}

// labelled shared paths a value denotes inside the region
func (c *c07) paths(v ssa.Value, env *c07Env) []string {
	var r []string
	seen := map[string]bool{}
	add := func(s string) {
		if !seen[s] {
			seen[s] = true
			r = append(r, s)
		}
	}
	for _, a := range c.e.resolve(v) {
		for _, s := range c.label(a, env) {
			add(s)
		}
	}
	sort.Strings(r)
	return r
}

func (c *c07) label(a AP, env *c07Env) []string {
	path := a.Path
	switch x := a.Root.(type) {
	case *ssa.Global:
		if x.Pkg == nil || !strings.HasPrefix(x.Pkg.Pkg.Path(), Mod) {
			return nil
		}
		return []string{x.Pkg.Pkg.Name() + "." + x.Name() + path}
	case *ssa.Parameter:
		if ls, ok := env.shared[x]; ok {
			var r []string
			for _, l := range ls {
				r = append(r, c07Join(l, path))
			}
			return r
		}
		if env.vary[x] {
			return nil
		}
		if isAncestor(x.Parent(), c.root) {
			return []string{c07Join(c.paramLabel(x), path)}
		}
		return nil
	case *ssa.Alloc:
		if x.Parent() != nil && isAncestor(x.Parent(), c.root) && !c.inLoop[x] {
			n := x.Comment
			if n == "" {
				n = x.Name()
			}
			return []string{c07Join(fname(x.Parent())+"/"+n, path)}
		}
		return nil
	case nil:
		return nil
	default:
		if x.Parent() != nil && isAncestor(x.Parent(), c.root) {
			if i, ok := x.(ssa.Instruction); ok && c.perInstance(i) {
				return nil
			}
			return []string{c07Join(fname(x.Parent())+"/"+x.Name(), path)}
		}
	}
	return nil
}

// paths are cut where they become too long
func c07Join(l, p string) string {
	s := l + p
	n := 0
	for k := 0; k < len(s); k++ {
		if s[k] == '.' || s[k] == '[' {
			n++
			if n > 7 {
				return s[:k]
			}
		}
	}
	return s
}

// does an instruction of an enclosing function run once per instance of the region?
func (c *c07) perInstance(i ssa.Instruction) bool {
	for l := loopOf(i.Block()); l != nil; l = nil {
		if c.loopOfRegion() != nil && c.loopOfRegion().body[i.Block()] {
			return true
		}
	}
	return false
}

var c07RegionLoop *loop

func (c *c07) loopOfRegion() *loop { return c07RegionLoop }

// ---------------------------------------------------------------- what belongs to the individual frame

func (c *c07) varies(v ssa.Value, env *c07Env, seen map[ssa.Value]bool) bool {
	if v == nil || seen[v] {
		return false
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Const, *ssa.Function, *ssa.Builtin:
		return false
	case *ssa.Global:
		return false
	case *ssa.Parameter:
		return env.vary[x]
	case *ssa.FreeVar:
		for _, b := range c.e.bind[x] {
			if a, ok := b.(*ssa.Alloc); ok && isAncestor(a.Parent(), c.root) {
				if c.inLoop[a] {
					return true
				}
				// cell holding a parameter of the enclosing function
				for _, st := range c.e.stores[a] {
					if p, ok := st.Val.(*ssa.Parameter); ok && env.vary[p] {
						return true
					}
				}
				continue
			}
			if c.varies(b, env, seen) {
				return true
			}
		}
		return false
	case *ssa.Alloc:
		for _, st := range c.e.stores[x] {
			if c.varies(st.Val, env, seen) {
				return true
			}
		}
		return c.inLoop[x]
	case *ssa.UnOp:
		if x.Op == token.ARROW {
			return true
		}
	case *ssa.Call:
		if n := calleeName(&x.Call); strings.HasPrefix(n, "sync/atomic.Add") || strings.HasPrefix(n, "(*sync/atomic.") && strings.HasSuffix(n, ").Add") {
			return true
		}
	}
	i, ok := v.(ssa.Instruction)
	if !ok {
		return false
	}
	if isAncestor(i.Parent(), c.root) {
		return c.perInstance(i)
	}
	for _, o := range i.Operands(nil) {
		if *o != nil && c.varies(*o, env, seen) {
			return true
		}
	}
	return false
}

func (c *c07) individual(v ssa.Value, env *c07Env) bool {
	return c.varies(v, env, map[ssa.Value]bool{})
}

// is the memory a value points to selected by something that belongs to the individual frame?
func (c *c07) isolated(v ssa.Value, env *c07Env, d int) bool {
	if d > 12 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Slice:
		if x.Low != nil && c.individual(x.Low, env) {
			return true
		}
		return c.isolated(x.X, env, d+1)
	case *ssa.IndexAddr:
		return c.individual(x.Index, env) || c.isolated(x.X, env, d+1)
	case *ssa.Index:
		return c.individual(x.Index, env) || c.isolated(x.X, env, d+1)
	case *ssa.FieldAddr:
		return c.isolated(x.X, env, d+1)
	case *ssa.Field:
		return c.isolated(x.X, env, d+1)
	case *ssa.UnOp:
		if x.Op == token.ARROW {
			return true
		}
		if s := singleStore(x.X); s != nil && x.Op == token.MUL {
			return c.isolated(s, env, d+1)
		}
		return c.isolated(x.X, env, d+1)
	case *ssa.ChangeType:
		return c.isolated(x.X, env, d+1)
	case *ssa.Convert:
		return c.isolated(x.X, env, d+1)
	case *ssa.MakeInterface:
		return c.isolated(x.X, env, d+1)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if e == v || isNilConst(e) {
				continue
			}
			if !c.isolated(e, env, d+1) {
				return false
			}
		}
		return len(x.Edges) > 0
	case *ssa.FreeVar:
		for _, b := range c.e.bind[x] {
			if a, ok := b.(*ssa.Alloc); ok && c.inLoop[a] {
				return true
			}
		}
	}
	return false
}

// ---------------------------------------------------------------- flags known to be set

// flags of objects published in the context that are set at the time of publication
func (c *c07) findFrozen() {
	set := map[string]int{}
	pubs := map[string]int{}
	for _, f := range c.w.Funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				s, ok := i.(*ssa.Store)
				if !ok || isNilConst(s.Val) {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || !types.Identical(deref(fa.X.Type()), c.ctx) {
					continue
				}
				if _, ok := s.Val.Type().Underlying().(*types.Pointer); !ok {
					continue
				}
				fn := fieldName(fa.X.Type(), fa.Field)
				pubs[fn]++
				// a call of a function returning a new object
				var al *ssa.Alloc
				switch x := stripAnyConv(s.Val).(type) {
				case *ssa.Call:
					g := x.Call.StaticCallee()
					if g == nil || !c.w.inMod[g] {
						continue
					}
					n := 0
					for _, gb := range g.Blocks {
						if rt, ok := gb.Instrs[len(gb.Instrs)-1].(*ssa.Return); ok && gb != g.Recover {
							n++
							if a, ok := retVal(rt, 0).(*ssa.Alloc); ok {
								al = a
							}
						}
					}
					if n != 1 {
						al = nil
					}
				case *ssa.Alloc:
					al = x
				}
				if al == nil {
					continue
				}
				for _, u := range *al.Referrers() {
					fa, ok := u.(*ssa.FieldAddr)
					if !ok {
						continue
					}
					for _, u2 := range *fa.Referrers() {
						if st, ok := u2.(*ssa.Store); ok && st.Addr == fa {
							if k, ok := st.Val.(*ssa.Const); ok && k.Value != nil && k.Value.ExactString() == "true" {
								set[fn+"."+fieldName(fa.X.Type(), fa.Field)]++
							}
						}
					}
				}
			}
		}
	}
	for k, n := range set {
		if n == pubs[strings.SplitN(k, ".", 2)[0]] {
			c.frozen["c."+k] = true
		}
	}
}

// successor that cannot be reached because a flag is known to be set
func (c *c07) dead(b *ssa.BasicBlock, k int, env *c07Env) bool {
	iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	v, neg := stripNot(iff.Cond)
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return false
	}
	ps := c.paths(u.X, env)
	if len(ps) == 0 {
		return false
	}
	// every object the value can denote, private ones included, must be known
	if len(ps) != len(c.e.resolve(u.X)) {
		return false
	}
	for _, p := range ps {
		if !c.frozen[p] {
			return false
		}
	}
	val := !neg
	return val != (k == 0)
}

func (c *c07) live(f *ssa.Function, env *c07Env) map[*ssa.BasicBlock]bool {
	r := map[*ssa.BasicBlock]bool{}
	if len(f.Blocks) == 0 {
		return r
	}
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		if r[b] {
			return
		}
		r[b] = true
		for k, s := range b.Succs {
			if c.dead(b, k, env) {
				continue
			}
			walk(s)
		}
	}
	walk(f.Blocks[0])
	return r
}

// ---------------------------------------------------------------- locks

// locks taken or given back by an instruction: label paths. Read locks end in "#r"
func c07LockOp(i ssa.Instruction) (v ssa.Value, take, read, ok bool) {
	var cc *ssa.CallCommon
	switch x := i.(type) {
	case *ssa.Call:
		cc = &x.Call
	case *ssa.Defer:
		cc = &x.Call
	default:
		return
	}
	n := calleeName(cc)
	switch n {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(sync.Locker).Lock":
		take = true
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(sync.Locker).Unlock":
	case "(*sync.RWMutex).RLock":
		take, read = true, true
	case "(*sync.RWMutex).RUnlock":
		read = true
	default:
		return
	}
	if cc.IsInvoke() {
		return cc.Value, take, read, true
	}
	if len(cc.Args) == 0 {
		return
	}
	return cc.Args[0], take, read, true
}

func lockSuffix(read bool) string {
	if read {
		return "#r"
	}
	return ""
}

func (c *c07) lockFlow(f *ssa.Function, env *c07Env, inherited map[string]bool) func(i ssa.Instruction) map[string]bool {
	keys := func(v ssa.Value, read bool) []string {
		ps := c.paths(v, env)
		if len(ps) != 1 {
			return nil // not a definite lock
		}
		return []string{ps[0] + lockSuffix(read)}
	}
	m := mustFlowFull(f, func(i ssa.Instruction) []string {
		if _, isDefer := i.(*ssa.Defer); isDefer {
			return nil
		}
		if v, take, read, ok := c07LockOp(i); ok && take {
			return keys(v, read)
		}
		if x, ok := i.(*ssa.Call); ok && calleeName(&x.Call) == "(*sync.Once).Do" {
			for _, p := range c.paths(x.Call.Args[0], env) {
				return []string{p + "#r"}
			}
		}
		return nil
	}, func(i ssa.Instruction) []string {
		if _, isDefer := i.(*ssa.Defer); isDefer {
			return nil
		}
		if v, take, read, ok := c07LockOp(i); ok && !take {
			var r []string
			for _, p := range c.paths(v, env) {
				r = append(r, p+lockSuffix(read))
			}
			return r
		}
		return nil
	}, nil)
	return func(i ssa.Instruction) map[string]bool {
		s := m.at(i)
		for k := range inherited {
			s[k] = true
		}
		return s
	}
}

// ---------------------------------------------------------------- regions

func (c *c07) regions() {
	promiseMade := map[*ssa.Function]bool{}
	for _, f := range c.w.Funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				switch x := i.(type) {
				case *ssa.Go:
					c.goRegion(f, x)
				case *ssa.MakeClosure:
					g := x.Fn.(*ssa.Function)
					if isPromiseSig(g.Signature) && !promiseMade[g] && len(g.Blocks) > 0 {
						if c.promiseRegion(f, x, g) {
							promiseMade[g] = true
						}
					}
				}
			}
		}
		if f.Name() == "Apply" && f.Signature.Recv() != nil && len(f.Params) == 3 && isImageT(f.Params[1].Type()) && types.Identical(deref(f.Params[2].Type()), c.ctx) && len(f.Blocks) > 0 && f.Synthetic == "" {
			c.applyRegion(f)
		}
	}
}

func isPromiseSig(s *types.Signature) bool {
	if s.Params().Len() != 0 || s.Results().Len() != 2 || s.Recv() != nil {
		return false
	}
	return isImageT(s.Results().At(0).Type()) && isErrT(s.Results().At(1).Type())
}

func (c *c07) begin(root *ssa.Function, name string, l *loop) {
	c.root, c.rname = root, name
	c07RegionLoop = l
	c.inLoop = map[*ssa.Alloc]bool{}
	if l == nil {
		return
	}
	for _, b := range l.head.Parent().Blocks {
		if !l.body[b] {
			continue
		}
		for _, i := range b.Instrs {
			if a, ok := i.(*ssa.Alloc); ok {
				c.inLoop[a] = true
			}
		}
	}
}

func (c *c07) applyRegion(f *ssa.Function) {
	c.begin(f, fname(f), nil)
	env := &c07Env{shared: map[ssa.Value][]string{}, vary: map[ssa.Value]bool{}}
	n := "?"
	if o := c.opType(f.Params[0].Type()); o != nil {
		n = o.Obj().Name()
	}
	env.shared[f.Params[0]] = []string{n}
	env.shared[f.Params[2]] = []string{"c"}
	env.vary[f.Params[1]] = true
	c.r.ob("region", "%s", fname(f))
	c.visit(f, env, nil, 0)
}

// the innermost loop around an instruction, outermost loops included
func c07Loop(i ssa.Instruction) *loop {
	l := loopOf(i.Block())
	return l
}

func (c *c07) promiseRegion(f *ssa.Function, mc *ssa.MakeClosure, g *ssa.Function) bool {
	if l := c07Loop(mc); l != nil {
		c.begin(g, fname(g), l)
		env := &c07Env{shared: map[ssa.Value][]string{}, vary: map[ssa.Value]bool{}}
		c.r.ob("region", "promise %s, created once per frame", fname(g))
		c.visit(g, env, nil, 0)
		c.captures(f, mc, l, g, env, false)
		return true
	}
	// created by a function called once per frame
	for _, call := range c.callers(f) {
		l := c07Loop(call)
		if l == nil {
			continue
		}
		c.begin(g, fname(g), nil)
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if a, ok := i.(*ssa.Alloc); ok {
					// the function runs once per frame; cells holding its parameters are judged by the argument
					c.inLoop[a] = true
					for _, st := range c.e.stores[a] {
						if _, ok := st.Val.(*ssa.Parameter); ok {
							c.inLoop[a] = false
						}
					}
				}
			}
		}
		env := &c07Env{shared: map[ssa.Value][]string{}, vary: map[ssa.Value]bool{}}
		for _, p := range f.Params {
			a := argFor(p, f, call)
			if a != nil && variesIn(a, l, map[ssa.Value]bool{}) {
				env.vary[p] = true
				for _, b := range f.Blocks {
					for _, i := range b.Instrs {
						if al, ok := i.(*ssa.Alloc); ok {
							for _, st := range c.e.stores[al] {
								if st.Val == p {
									c.inLoop[al] = true
								}
							}
						}
					}
				}
			} else {
				env.shared[p] = []string{c.paramLabel(p)}
			}
		}
		c.r.ob("region", "promise %s, created by a function called once per frame", fname(g))
		c.visit(g, env, nil, 0)
		c.r.ob("capture", "%s: variables belong to the call of %s that creates the promise", fname(g), fname(f))
		return true
	}
	return false
}

func (c *c07) callers(f *ssa.Function) (r []ssa.CallInstruction) {
	for _, g := range c.w.Funcs {
		for _, b := range g.Blocks {
			for _, i := range b.Instrs {
				if call, ok := i.(ssa.CallInstruction); ok && call.Common().StaticCallee() == f {
					r = append(r, call)
				}
			}
		}
	}
	return
}

func (c *c07) goRegion(f *ssa.Function, g *ssa.Go) {
	body := g.Call.StaticCallee()
	if body == nil {
		ts := c.w.targets(g)
		if len(ts) == 1 {
			body = ts[0]
		}
	}
	l := c07Loop(g)
	if body == nil || !c.w.inMod[body] || len(body.Blocks) == 0 {
		c.r.undecided("%s: code of the goroutine is not known", fname(f))
		return
	}
	c.begin(body, fname(body), l)
	env := &c07Env{shared: map[ssa.Value][]string{}, vary: map[ssa.Value]bool{}}
	for k, p := range body.Params {
		if k >= len(g.Call.Args) {
			continue
		}
		a := g.Call.Args[k]
		if l != nil && variesIn(a, l, map[ssa.Value]bool{}) {
			env.vary[p] = true
			continue
		}
		for _, ap := range c.e.resolve(a) {
			env.shared[p] = append(env.shared[p], c.outer(ap))
		}
	}
	c.r.ob("region", "goroutine %s", fname(body))
	c.visit(body, env, nil, 0)
	if mc, ok := g.Call.Value.(*ssa.MakeClosure); ok && l != nil {
		c.captures(f, mc, l, body, env, true)
	}
}

// label of an object of the function starting a goroutine
func (c *c07) outer(a AP) string {
	switch x := a.Root.(type) {
	case *ssa.Parameter:
		return c07Join(c.paramLabel(x), a.Path)
	case *ssa.Global:
		if x.Pkg != nil {
			return c07Join(x.Pkg.Pkg.Name()+"."+x.Name(), a.Path)
		}
	case *ssa.Alloc:
		n := x.Comment
		if n == "" {
			n = x.Name()
		}
		return c07Join(fname(x.Parent())+"/"+n, a.Path)
	}
	if a.Root != nil && a.Root.Parent() != nil {
		return c07Join(fname(a.Root.Parent())+"/"+a.Root.Name(), a.Path)
	}
	return "?"
}

// captured variables that the creating loop changes after the closure exists
func (c *c07) captures(f *ssa.Function, mc *ssa.MakeClosure, l *loop, g *ssa.Function, env *c07Env, isGo bool) {
	bad := false
	for k, b := range mc.Bindings {
		a, ok := b.(*ssa.Alloc)
		if !ok || l.body[a.Block()] {
			continue // a new variable for each instance
		}
		fv := g.FreeVars[k]
		if !c07Reads(fv, 0) {
			continue
		}
		for _, st := range c.e.stores[a] {
			if st.Addr != a || st.Parent() != f || !l.body[st.Block()] {
				continue
			}
			// the variable gets a new value in every iteration
			if !isGo && !(st.Block() == l.head || st.Block().Dominates(mc.Block()) || c07Steps(st, a)) {
				continue
			}
			bad = true
			c.r.bad("capture", fname(g)+"|"+a.Comment, c.w.ipos(mc), "%s captures %s, which the loop creating it changes afterwards (%s): frames processed later or at the same time see the value of another one", fname(g), a.Comment, c.w.ipos(st))
			break
		}
	}
	if !bad {
		c.r.ob("capture", "%s: no captured variable is changed by the loop creating it", fname(g))
	}
}

// x++ and the like
func c07Steps(st *ssa.Store, a *ssa.Alloc) bool {
	bo, ok := st.Val.(*ssa.BinOp)
	if !ok {
		return false
	}
	u, ok := bo.X.(*ssa.UnOp)
	return ok && u.X == a && blockReaches(st.Block(), st.Block())
}

func c07Reads(fv ssa.Value, d int) bool {
	if fv == nil || fv.Referrers() == nil {
		return false
	}
	for _, u := range *fv.Referrers() {
		switch x := u.(type) {
		case *ssa.UnOp:
			return true
		case *ssa.FieldAddr, *ssa.IndexAddr:
			return true
		case *ssa.MakeClosure:
			g := x.Fn.(*ssa.Function)
			for k, b := range x.Bindings {
				if b == fv && d < 4 && c07Reads(g.FreeVars[k], d+1) {
					return true
				}
			}
		case ssa.CallInstruction:
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------- traversal

// cells read and written by a piece of code
type c07Sum struct{ reads, writes map[string]bool }

func newC07Sum() *c07Sum { return &c07Sum{map[string]bool{}, map[string]bool{}} }

func (s *c07Sum) join(o *c07Sum) {
	if o == nil {
		return
	}
	for k := range o.reads {
		s.reads[k] = true
	}
	for k := range o.writes {
		s.writes[k] = true
	}
}

func (c *c07) visit(f *ssa.Function, env *c07Env, locks map[string]bool, depth int) *c07Sum {
	if depth > 14 || len(f.Blocks) == 0 {
		return nil
	}
	key := c.key(f, env, locks)
	if s, ok := c.sums[key]; ok {
		return s
	}
	sum := newC07Sum()
	c.sums[key] = sum
	by := map[ssa.Instruction]*c07Sum{}
	note := func(i ssa.Instruction, s *c07Sum) {
		if s == nil || len(s.reads)+len(s.writes) == 0 {
			return
		}
		if by[i] == nil {
			by[i] = newC07Sum()
		}
		by[i].join(s)
		sum.join(s)
	}
	live := c.live(f, env)
	at := c.lockFlow(f, env, locks)
	for _, b := range f.Blocks {
		if !live[b] || b == f.Recover {
			continue
		}
		for _, i := range b.Instrs {
			c.cur = newC07Sum()
			c.access(f, i, env, at)
			note(i, c.cur)
			call, ok := i.(ssa.CallInstruction)
			if !ok {
				continue
			}
			if _, isGo := i.(*ssa.Go); isGo {
				continue
			}
			cc := call.Common()
			if calleeName(cc) == "(*sync.Once).Do" {
				held := at(i)
				for _, p := range c.paths(cc.Args[0], env) {
					held[p] = true
				}
				for _, t := range c.fnValues(cc.Args[1]) {
					note(i, c.visit(t, c.closureEnv(t, env), held, depth+1))
				}
				continue
			}
			if cc.StaticCallee() == nil && !cc.IsInvoke() {
				if isPromiseT(cc.Value.Type()) {
					continue // processing of another step, a region of its own
				}
				if s, ok := cc.Value.Type().Underlying().(*types.Signature); ok && s.Params().Len() == 2 && types.Identical(deref(s.Params().At(1).Type()), c.ctx) {
					continue // Apply of some operator
				}
			}
			ts := c.w.targets(call)
			if len(ts) > 12 {
				continue
			}
			for _, t := range ts {
				if !c.w.inMod[t] || len(t.Blocks) == 0 || t.Name() == "init" && t.Signature.Recv() == nil {
					continue
				}
				ne := c.closureEnv(t, env)
				for _, p := range t.Params {
					a := argFor(p, t, call)
					if a == nil {
						continue
					}
					if c.individual(a, env) || c.isolated(a, env, 0) {
						ne.vary[p] = true
						if c.isolated(a, env, 0) || len(c.paths(a, env)) == 0 {
							continue
						}
						if _, isPtr := a.Type().Underlying().(*types.Pointer); !isPtr {
							continue
						}
					}
					if ls := c.paths(a, env); len(ls) > 0 {
						ne.shared[p] = ls
					}
				}
				note(i, c.visit(t, ne, at(i), depth+1))
			}
		}
	}
	if len(sum.writes) > 0 {
		c.atomic(f, env, locks, by, at)
	}
	return sum
}

// A cell that is modified depending on what was read from it before: a lock must be held all the time from the read to the
// modification, otherwise another frame does the same in between
func (c *c07) atomic(f *ssa.Function, env *c07Env, locks map[string]bool, by map[ssa.Instruction]*c07Sum, at func(ssa.Instruction) map[string]bool) {
	for w, ws := range by {
		for p := range ws.writes {
			if strings.HasSuffix(p, "]") || strings.HasSuffix(p, "!") || strings.HasSuffix(p, "}") {
				continue
			}
			for rd, rs := range by {
				v, ok := rd.(ssa.Value)
				if !ok || rd == w || !rs.reads[p] || !c.decides(v, w) {
					continue
				}
				if len(locks) > 0 {
					c.r.ob("atomic", "%s: %s tested and modified with locks of the caller held", fname(f), p)
					continue
				}
				excl := false
				for l := range at(rd) {
					if !strings.HasSuffix(l, "#r") && !c.releasedBetween(rd, w, l, env) {
						excl = true
					}
				}
				if excl {
					c.r.ob("atomic", "%s: %s tested and modified in one critical section", fname(f), p)
				} else {
					c.r.bad("atomic", fname(f)+"|"+p, c.w.ipos(w), "%s modifies %s here depending on what it read at %s, with no lock held in between: another frame can do the same at the same time", fname(f), p, c.w.ipos(rd))
				}
			}
		}
	}
}

// is there a path from one instruction to another, not through the first again, on which a lock is given back?
func (c *c07) releasedBetween(rd, w ssa.Instruction, lock string, env *c07Env) bool {
	type node struct {
		b   *ssa.BasicBlock
		rel bool
	}
	seen := map[node]bool{}
	var walk func(b *ssa.BasicBlock, from int, rel bool) bool
	walk = func(b *ssa.BasicBlock, from int, rel bool) bool {
		for k := from; k < len(b.Instrs); k++ {
			i := b.Instrs[k]
			if i == w {
				if rel {
					return true
				}
			}
			if i == rd {
				return false
			}
			if _, isDefer := i.(*ssa.Defer); isDefer {
				continue
			}
			if lv, take, read, ok := c07LockOp(i); ok && !take {
				for _, q := range c.paths(lv, env) {
					if q+lockSuffix(read) == lock {
						rel = true
					}
				}
			}
		}
		for _, t := range b.Succs {
			n := node{t, rel}
			if seen[n] {
				continue
			}
			seen[n] = true
			if walk(t, 0, rel) {
				return true
			}
		}
		return false
	}
	for k, i := range rd.Block().Instrs {
		if i == rd {
			return walk(rd.Block(), k+1, false)
		}
	}
	return false
}

// is an instruction executed depending on a value?
func (c *c07) decides(v ssa.Value, w ssa.Instruction) bool {
	for b := w.Block(); b != nil; b = b.Idom() {
		if b == w.Block() {
			continue
		}
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || !derived(iff.Cond, v, 0) {
			continue
		}
		for _, s := range b.Succs {
			if s == w.Block() && len(s.Preds) == 1 || s.Dominates(w.Block()) && len(s.Preds) == 1 {
				return true
			}
		}
		// the other branch leaves
		for k, s := range b.Succs {
			if !blockReaches(s, w.Block()) && s != w.Block() && b.Succs[1-k] != s {
				return true
			}
		}
	}
	return false
}

// is a condition computed from a value, short-circuit forms included?
func derived(x, v ssa.Value, d int) bool {
	if x == v {
		return true
	}
	if d > 6 {
		return false
	}
	switch y := x.(type) {
	case *ssa.BinOp:
		return derived(y.X, v, d+1) || derived(y.Y, v, d+1)
	case *ssa.UnOp:
		if y.Op == token.MUL {
			return false
		}
		return derived(y.X, v, d+1)
	case *ssa.Extract:
		return derived(y.Tuple, v, d+1)
	case *ssa.Phi:
		for k, e := range y.Edges {
			if derived(e, v, d+1) {
				return true
			}
			p := y.Block().Preds[k]
			if iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If); ok && derived(iff.Cond, v, d+1) {
				return true
			}
		}
	}
	return false
}

func (c *c07) fnValues(v ssa.Value) (r []*ssa.Function) {
	switch x := stripAnyConv(v).(type) {
	case *ssa.MakeClosure:
		return []*ssa.Function{x.Fn.(*ssa.Function)}
	case *ssa.Function:
		return []*ssa.Function{x}
	}
	return nil
}

// closures see the parameters of the functions around them
func (c *c07) closureEnv(t *ssa.Function, env *c07Env) *c07Env {
	ne := &c07Env{shared: map[ssa.Value][]string{}, vary: map[ssa.Value]bool{}}
	if t.Parent() != nil || t == c.root {
		for k, v := range env.shared {
			ne.shared[k] = v
		}
		for k, v := range env.vary {
			ne.vary[k] = v
		}
		return ne
	}
	for k, v := range env.shared {
		if isAncestor(k.Parent(), c.root) {
			ne.shared[k] = v
		}
	}
	for k, v := range env.vary {
		if isAncestor(k.Parent(), c.root) {
			ne.vary[k] = v
		}
	}
	return ne
}

func (c *c07) key(f *ssa.Function, env *c07Env, locks map[string]bool) string {
	var s []string
	for k, v := range env.shared {
		s = append(s, fmt.Sprintf("%s/%s=%s", fname(k.Parent()), k.Name(), strings.Join(v, ",")))
	}
	for k := range env.vary {
		s = append(s, fmt.Sprintf("%s/%s~", fname(k.Parent()), k.Name()))
	}
	for k := range locks {
		s = append(s, "L"+k)
	}
	sort.Strings(s)
	return c.rname + "|" + fname(f) + "|" + strings.Join(s, ";")
}

func (c *c07) add(path string, a c07Access) {
	a.path = path
	x := a
	c.acc[path] = append(c.acc[path], &x)
	if c.cur != nil {
		if a.write {
			c.cur.writes[path] = true
		} else {
			c.cur.reads[path] = true
		}
	}
}

func (c *c07) access(f *ssa.Function, i ssa.Instruction, env *c07Env, at func(ssa.Instruction) map[string]bool) {
	rec := func(addr ssa.Value, write bool, locks map[string]bool) {
		ps := c.paths(addr, env)
		if len(ps) == 0 {
			return
		}
		idx := false
		if ia, ok := addr.(*ssa.IndexAddr); ok && c.individual(ia.Index, env) {
			idx = true
		}
		if c.isolated(addr, env, 0) {
			idx = true
		}
		whole := false
		if write {
			_, whole = deref(addr.Type()).Underlying().(*types.Struct)
		}
		fuzzy := false
		if ia, ok := addr.(*ssa.IndexAddr); ok && !idx {
			if _, isC := ia.Index.(*ssa.Const); !isC {
				fuzzy = c.guardedByIndividual(i, env)
			}
		}
		if locks == nil {
			locks = at(i)
		}
		dep := false
		if st, ok := i.(*ssa.Store); ok && write {
			dep = c.individual(st.Val, env) || c.isolated(st.Val, env, 0)
		}
		for _, p := range ps {
			c.add(p, c07Access{write: write, whole: whole, index: idx, fuzzy: fuzzy, dep: dep, locks: locks, instr: i, region: c.rname})
		}
	}
	switch x := i.(type) {
	case *ssa.Store:
		rec(x.Addr, true, nil)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			rec(x.X, false, nil)
		}
	case *ssa.MapUpdate:
		for _, p := range c.paths(x.Map, env) {
			if !c.isolated(x.Map, env, 0) {
				c.add(p+"{}", c07Access{write: true, locks: at(i), instr: i, region: c.rname})
			}
		}
	case *ssa.Lookup:
		if _, ok := x.X.Type().Underlying().(*types.Map); ok {
			for _, p := range c.paths(x.X, env) {
				if !c.isolated(x.X, env, 0) {
					c.add(p+"{}", c07Access{locks: at(i), instr: i, region: c.rname})
				}
			}
		}
	case *ssa.Range:
		if _, ok := x.X.Type().Underlying().(*types.Map); ok {
			for _, p := range c.paths(x.X, env) {
				c.add(p+"{}", c07Access{locks: at(i), instr: i, region: c.rname})
			}
		}
	case ssa.CallInstruction:
		cc := x.Common()
		n := calleeName(cc)
		if _, isDefer := i.(*ssa.Defer); isDefer && strings.HasPrefix(n, "(*sync.") {
			return
		}
		switch {
		case n == "builtin.delete" || n == "builtin.clear":
			for _, p := range c.paths(cc.Args[0], env) {
				c.add(p+"{}", c07Access{write: true, locks: at(i), instr: i, region: c.rname})
			}
		case n == "builtin.copy", strings.HasPrefix(n, "sort."), strings.HasPrefix(n, "slices.Sort"), n == "slices.Reverse":
			if len(cc.Args) > 0 && !c.isolated(cc.Args[0], env, 0) {
				if _, ok := stripAnyConv(cc.Args[0]).Type().Underlying().(*types.Slice); ok {
					for _, p := range c.paths(cc.Args[0], env) {
						c.add(p+"[]", c07Access{write: true, locks: at(i), instr: i, region: c.rname})
					}
				}
			}
		case strings.HasPrefix(n, "sync/atomic."):
			if len(cc.Args) > 0 {
				for _, p := range c.paths(cc.Args[0], env) {
					l := at(i)
					l["atomic"] = true
					c.add(p, c07Access{write: !strings.Contains(n, ".Load"), locks: l, instr: i, region: c.rname})
				}
			}
		default:
			c.objectUse(i, cc, n, env, at)
		}
	}
}

// is the instruction executed under a condition that belongs to the individual frame?
func (c *c07) guardedByIndividual(i ssa.Instruction, env *c07Env) bool {
	for b := i.Block().Idom(); b != nil; b = b.Idom() {
		if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok && c.individual(iff.Cond, env) {
			for _, s := range b.Succs {
				if len(s.Preds) == 1 && (s == i.Block() || s.Dominates(i.Block())) {
					return true
				}
			}
		}
	}
	return false
}

// types of other packages whose objects must not be used by several goroutines at a time
func unsafeObject(t types.Type) bool {
	n, ok := deref(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	switch n.Obj().Pkg().Path() + "." + n.Obj().Name() {
	case "bufio.Writer", "bufio.Reader", "bufio.ReadWriter", "bufio.Scanner", "bytes.Buffer", "bytes.Reader", "strings.Builder", "strings.Reader",
		"encoding/csv.Writer", "encoding/json.Encoder", "encoding/gob.Encoder", "math/rand.Rand", "compress/gzip.Writer", "compress/gzip.Reader",
		"container/list.List", "github.com/valyala/fastrand.RNG", "text/tabwriter.Writer", "github.com/gin-gonic/gin.ResponseWriter", "net/http.ResponseWriter":
		return true
	}
	return false
}

// calls that use the state of an object from another package
func (c *c07) objectUse(i ssa.Instruction, cc *ssa.CallCommon, n string, env *c07Env, at func(ssa.Instruction) map[string]bool) {
	f := cc.StaticCallee()
	if f != nil && c.w.inMod[f] {
		return
	}
	args := cc.Args
	if cc.IsInvoke() {
		args = append([]ssa.Value{cc.Value}, args...)
	}
	for k, a := range args {
		if c.isolated(a, env, 0) {
			continue
		}
		x := stripAnyConv(a)
		if unsafeObject(x.Type()) {
			if k > 0 && !isWriterT(a.Type()) {
				continue
			}
			for _, p := range c.paths(x, env) {
				c.add(p+"!", c07Access{write: true, dep: c.anyIndividual(args, k, env), locks: at(i), instr: i, region: c.rname})
			}
			continue
		}
		if isWriterT(x.Type()) && (strings.HasPrefix(n, "fmt.Fp") || n == "io.WriteString" || cc.IsInvoke()) {
			for _, p := range c.paths(x, env) {
				if _, done := c.safeIO[p]; !done {
					c.safeIO[p] = c.writerSafe(p, x)
				}
				if !c.safeIO[p] {
					c.add(p+"!", c07Access{write: true, dep: c.anyIndividual(args, k, env), locks: at(i), instr: i, region: c.rname})
				}
			}
		}
	}
}

func (c *c07) anyIndividual(args []ssa.Value, skip int, env *c07Env) bool {
	for k, a := range args {
		if k == skip {
			continue
		}
		if c.individual(a, env) || c.isolated(a, env, 0) {
			return true
		}
		// the arguments of a formatting call
		if sl, ok := a.(*ssa.Slice); ok {
			if al, ok := sl.X.(*ssa.Alloc); ok && al.Referrers() != nil {
				for _, u := range *al.Referrers() {
					if ia, ok := u.(*ssa.IndexAddr); ok {
						for _, st := range c.e.stores[ia] {
							if c.individual(st.Val, env) || c.isolated(st.Val, env, 0) {
								return true
							}
						}
						for _, v := range *ia.Referrers() {
							if st, ok := v.(*ssa.Store); ok && st.Addr == ssa.Value(ia) && (c.individual(st.Val, env) || c.isolated(st.Val, env, 0)) {
								return true
							}
						}
					}
				}
			}
		}
	}
	return false
}

func isWriterT(t types.Type) bool {
	it, ok := t.Underlying().(*types.Interface)
	if !ok {
		return false
	}
	for k := 0; k < it.NumMethods(); k++ {
		if it.Method(k).Name() == "Write" {
			return true
		}
	}
	return false
}

// do all values an output stream of the context can have serialise concurrent output?
func (c *c07) writerSafe(path string, v ssa.Value) bool {
	if !strings.HasPrefix(path, "c.") {
		return false
	}
	field := path[2:]
	n := 0
	for _, f := range c.w.Funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				s, isS := i.(*ssa.Store)
				if !isS {
					continue
				}
				fa, isF := s.Addr.(*ssa.FieldAddr)
				if !isF || !types.Identical(deref(fa.X.Type()), c.ctx) || fieldName(fa.X.Type(), fa.Field) != field {
					continue
				}
				n++
				if !c.serial(s.Val, map[ssa.Value]bool{}) {
					c.r.bad("writer", field+"|"+fname(f), c.w.ipos(s), "%s gives the execution context an output stream (%s) that does not serialise the output of concurrently processed frames", fname(f), field)
				} else {
					c.r.ob("writer", "%s: %s", fname(f), field)
				}
			}
		}
	}
	if n == 0 {
		return false
	}
	return true
}

// values of output streams that can be used concurrently
func (c *c07) serial(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Const:
		return x.IsNil()
	case *ssa.MakeInterface:
		return c.serialType(x.X.Type())
	case *ssa.ChangeInterface:
		return c.serial(x.X, seen)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !c.serial(e, seen) {
				return false
			}
		}
		return true
	case *ssa.UnOp:
		if g, ok := x.X.(*ssa.Global); ok && g.Pkg != nil && (g.Pkg.Pkg.Path() == "os" || g.Pkg.Pkg.Path() == "io" && g.Name() == "Discard") {
			return true
		}
		if s := singleStore(x.X); s != nil {
			return c.serial(s, seen)
		}
		base, path := c.e.base(x.X)
		if base == nil {
			return false
		}
		n := 0
		for _, st := range c.e.stores[base] {
			if _, sp := c.e.base(st.Addr); sp == path {
				n++
				if !c.serial(st.Val, seen) {
					return false
				}
			}
		}
		return n > 0
	case *ssa.Call:
		if calleeName(&x.Call) == "io.MultiWriter" {
			// one write to each of the streams in turn
			return c.variadicSerial(x.Call.Args[0], seen)
		}
		f := x.Call.StaticCallee()
		if f == nil || !c.w.inMod[f] {
			return false
		}
		for _, b := range f.Blocks {
			if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && b != f.Recover {
				if !c.serial(retVal(rt, 0), seen) {
					return false
				}
			}
		}
		return true
	case *ssa.Parameter:
		n := 0
		for _, call := range c.callers(x.Parent()) {
			n++
			a := argFor(x, x.Parent(), call)
			if a == nil || !c.serial(a, seen) {
				return false
			}
		}
		return n > 0
	}
	return false
}

func (c *c07) variadicSerial(v ssa.Value, seen map[ssa.Value]bool) bool {
	sl, ok := v.(*ssa.Slice)
	if !ok {
		return false
	}
	a, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return false
	}
	n := 0
	for _, st := range c.e.stores[a] {
		n++
		if !c.serial(st.Val, seen) {
			return false
		}
	}
	return n > 0
}

func (c *c07) serialType(t types.Type) bool {
	n, ok := deref(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	if n.Obj().Pkg().Path() == "os" && n.Obj().Name() == "File" {
		return true
	}
	if n.Obj().Pkg().Path() == "io" && strings.HasSuffix(n.Obj().Name(), "PipeWriter") {
		return true
	}
	if !strings.HasPrefix(n.Obj().Pkg().Path(), Mod) {
		return false
	}
	// own type: everything Write does to the object happens with a lock of the object held
	var f *ssa.Function
	for _, g := range c.w.Funcs {
		if g.Name() == "Write" && g.Signature.Recv() != nil && types.Identical(deref(g.Signature.Recv().Type()), n) {
			f = g
		}
	}
	if f == nil {
		return false
	}
	if _, isPtr := f.Signature.Recv().Type().(*types.Pointer); !isPtr {
		return false // a copy of the lock
	}
	m := mustFlowFull(f, func(i ssa.Instruction) []string {
		if _, d := i.(*ssa.Defer); d {
			return nil
		}
		if v, take, read, ok := c07LockOp(i); ok && take && !read {
			for _, a := range c.e.resolve(v) {
				if a.Root == ssa.Value(f.Params[0]) {
					return []string{"held"}
				}
			}
		}
		return nil
	}, func(i ssa.Instruction) []string {
		if _, d := i.(*ssa.Defer); d {
			return nil
		}
		if _, take, _, ok := c07LockOp(i); ok && !take {
			return []string{"held"}
		}
		return nil
	}, nil)
	for _, b := range f.Blocks {
		if b == f.Recover {
			continue
		}
		for _, i := range b.Instrs {
			used := false
			switch x := i.(type) {
			case *ssa.Store:
				for _, a := range c.e.resolve(x.Addr) {
					used = used || a.Root == ssa.Value(f.Params[0])
				}
			case ssa.CallInstruction:
				if _, _, _, ok := c07LockOp(i); !ok {
					cc := x.Common()
					vs := cc.Args
					if cc.IsInvoke() {
						vs = append([]ssa.Value{cc.Value}, vs...)
					}
					for _, v := range vs {
						for _, a := range c.e.resolve(v) {
							used = used || a.Root == ssa.Value(f.Params[0])
						}
					}
				}
			}
			if used && !m.at(i)["held"] {
				return false
			}
		}
	}
	return true
}

// ---------------------------------------------------------------- verdicts

func (c *c07) judge() {
	var ps []string
	for p := range c.acc {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	for _, p := range ps {
		if strings.HasSuffix(p, ".mutex") || strings.HasSuffix(p, ".Mutex") {
			continue
		}
		as := append([]*c07Access(nil), c.acc[p]...)
		// whole objects this cell is a part of
		for q := p; ; {
			k := strings.LastIndexAny(q, ".[")
			if k <= 0 {
				break
			}
			q = q[:k]
			for _, a := range c.acc[q] {
				if a.whole {
					as = append(as, a)
				}
			}
		}
		var writes, bare []*c07Access
		for _, a := range as {
			if a.write {
				writes = append(writes, a)
			}
		}
		if len(writes) == 0 {
			continue
		}
		for _, a := range as {
			if !a.index {
				bare = append(bare, a)
			}
		}
		if len(bare) == 0 {
			c.r.ob("held", "%s: every frame has its own element", p)
			continue
		}
		wIdx := true
		for _, a := range writes {
			wIdx = wIdx && a.index
		}
		// a common lock
		var common map[string]bool
		for _, a := range as {
			cur := map[string]bool{}
			for l := range a.locks {
				b := strings.TrimSuffix(l, "#r")
				if a.write && b != l {
					continue
				}
				cur[b] = true
			}
			if common == nil {
				common = cur
			} else {
				for l := range common {
					if !cur[l] {
						delete(common, l)
					}
				}
			}
		}
		// a lock in the operator does not protect the context shared by all operators
		if strings.HasPrefix(p, "c.") {
			for l := range common {
				if !strings.HasPrefix(l, "c.") && !strings.Contains(l, ".") {
					delete(common, l)
				}
				if !strings.HasPrefix(l, "c.") && l != "atomic" && !c07GlobalLock(l) {
					delete(common, l)
				}
			}
		}
		if len(common) > 0 {
			var ls []string
			for l := range common {
				ls = append(ls, l)
			}
			sort.Strings(ls)
			c.r.ob("held", "%s: %s held at all %d accesses", p, strings.Join(ls, ", "), len(as))
			continue
		}
		// witness: an access without the lock most accesses have
		cnt := map[string]int{}
		for _, a := range as {
			for l := range a.locks {
				cnt[strings.TrimSuffix(l, "#r")]++
			}
		}
		best, bn := "", 0
		for l, n := range cnt {
			if n > bn || n == bn && l < best {
				best, bn = l, n
			}
		}
		wit := writes[0]
		found := false
		for _, pass := range []bool{true, false} {
			for _, a := range as {
				if a.write == pass && !a.locks[best] && !(a.locks[best+"#r"] && !a.write) && !found {
					wit, found = a, true
				}
			}
		}
		fz := true
		for _, a := range bare {
			fz = fz && a.fuzzy
		}
		if fz {
			c.r.undecided("%s: index of the element accessed in %s is not understood", p, fname(wit.instr.Parent()))
			continue
		}
		what := "read"
		if wit.write {
			what = "modified"
		}
		with := "no lock"
		if best != "" {
			with = "no lock in common; most accesses hold " + best
		}
		c.r.bad("held", p+"|"+fname(wit.instr.Parent()), c.w.ipos(wit.instr), "%s is shared by concurrently processed frames (%s); it is %s here with %s (written at %s)", p, wit.region, what, with, c.w.ipos(writes[0].instr))
	}
}

func c07GlobalLock(l string) bool {
	// package.variable
	k := strings.Index(l, ".")
	return k > 0 && l[:1] == strings.ToLower(l[:1]) && !strings.Contains(l, "/")
}

// ---------------------------------------------------------------- pairing

type lockState struct {
	held, deferred string // sorted, separated by |
}

func addLock(s, k string) string {
	var l []string
	if s != "" {
		l = strings.Split(s, "|")
	}
	l = append(l, k)
	sort.Strings(l)
	return strings.Join(l, "|")
}

func hasLock(s, k string) bool {
	for _, x := range strings.Split(s, "|") {
		if x == k {
			return true
		}
	}
	return false
}

func delLock(s, k string) (string, bool) {
	l := strings.Split(s, "|")
	for j, x := range l {
		if x == k && s != "" {
			l = append(append([]string(nil), l[:j]...), l[j+1:]...)
			return strings.Join(l, "|"), true
		}
	}
	return s, false
}

// locks a closure gives back
func (c *c07) closureUnlocks(f *ssa.Function) (r []string) {
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if v, take, read, ok := c07LockOp(i); ok && !take {
				r = append(r, c.lockKey(v)+lockSuffix(read))
			}
		}
	}
	return
}

func (c *c07) lockKey(v ssa.Value) string {
	as := c.e.resolve(v)
	if len(as) == 1 {
		return as[0].String()
	}
	return v.Name()
}

func (c *c07) pairing() {
	for _, f := range c.w.Funcs {
		uses := false
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if _, take, _, ok := c07LockOp(i); ok && take {
					uses = true
				}
				if _, isDefer := i.(*ssa.Defer); isDefer {
					if _, take, _, ok := c07LockOp(i); ok && take {
						c.r.bad("paired", "deferred|"+fname(f), c.w.ipos(i), "%s takes a lock when it returns and never gives it back", fname(f))
					}
				}
			}
		}
		if !uses {
			continue
		}
		before := len(c.r.Viol)
		for _, asg := range assignments(f) {
			c.pairFn(f, asg)
		}
		if len(c.r.Viol) == before {
			c.r.ob("paired", "%s", fname(f))
		}
	}
}

func (c *c07) pairFn(f *ssa.Function, asg assignment) {
	type node struct {
		b *ssa.BasicBlock
		s lockState
	}
	seen := map[node]bool{}
	work := []node{{f.Blocks[0], lockState{}}}
	short := func(k string) string {
		if j := strings.LastIndex(k, "/"); j >= 0 {
			k = k[j+1:]
		}
		return k
	}
	for len(work) > 0 {
		n := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[n] || len(seen) > 4000 {
			continue
		}
		seen[n] = true
		s := n.s
		stop := false
		for _, i := range n.b.Instrs {
			if stop {
				break
			}
			if d, isDefer := i.(*ssa.Defer); isDefer {
				if v, take, read, ok := c07LockOp(i); ok && !take {
					s.deferred = addLock(s.deferred, c.lockKey(v)+lockSuffix(read))
				} else if g := d.Call.StaticCallee(); g != nil && c.w.inMod[g] {
					for _, k := range c.closureUnlocks(g) {
						s.deferred = addLock(s.deferred, k)
					}
				}
				continue
			}
			if v, take, read, ok := c07LockOp(i); ok {
				k := c.lockKey(v) + lockSuffix(read)
				if take {
					if !read && (hasLock(s.held, k) || hasLock(s.held, k+"#r")) || read && hasLock(s.held, strings.TrimSuffix(k, "#r")) {
						c.r.bad("paired", "twice|"+fname(f)+"|"+short(k), c.w.ipos(i), "%s takes %s on a path where it already holds it, and waits for itself forever", fname(f), short(k))
						stop = true
						continue
					}
					s.held = addLock(s.held, k)
				} else {
					h, had := delLock(s.held, k)
					if !had {
						c.r.bad("paired", "unheld|"+fname(f)+"|"+short(k), c.w.ipos(i), "%s gives back %s on a path where it does not hold it", fname(f), short(k))
						stop = true
						continue
					}
					s.held = h
				}
			}
		}
		if stop {
			continue
		}
		last := n.b.Instrs[len(n.b.Instrs)-1]
		if _, ok := last.(*ssa.Return); ok && n.b != f.Recover {
			h := s.held
			if s.deferred != "" {
				for _, k := range strings.Split(s.deferred, "|") {
					var had bool
					if h, had = delLock(h, k); !had {
						c.r.bad("paired", "deferred|"+fname(f)+"|"+short(k), c.w.ipos(last), "%s gives back %s when it returns here, but does not hold it any more", fname(f), short(k))
					}
				}
			}
			if h != "" {
				for _, k := range strings.Split(h, "|") {
					c.r.bad("paired", "leak|"+fname(f)+"|"+short(k), c.w.ipos(last), "%s returns here without giving back %s: everybody else waits for it forever", fname(f), short(k))
				}
			}
			continue
		}
		for k, t := range n.b.Succs {
			if asg.infeasible(n.b, k) {
				continue
			}
			work = append(work, node{t, s})
		}
	}
}

// ---------------------------------------------------------------- lock order

// type and field of a lock
func lockClass(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.FieldAddr:
		if n, ok := deref(x.X.Type()).(*types.Named); ok {
			return n.Obj().Name() + "." + fieldName(x.X.Type(), x.Field)
		}
	case *ssa.Global:
		return x.Name()
	case *ssa.Alloc:
		return fname(x.Parent()) + "/" + x.Comment
	case *ssa.FreeVar:
		return "/" + x.Name()
	case *ssa.UnOp:
		return lockClass(x.X)
	}
	return ""
}

func (c *c07) order() {
	// locks a function may take, with the calls it makes; frames of other steps are processed by promises
	takes := map[*ssa.Function]map[string]bool{}
	runs := map[*ssa.Function]bool{}
	for _, f := range c.w.Funcs {
		takes[f] = map[string]bool{}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if v, take, _, ok := c07LockOp(i); ok && take {
					if k := lockClass(v); k != "" {
						takes[f][k] = true
					}
				}
				if call, ok := i.(*ssa.Call); ok && call.Call.StaticCallee() == nil && !call.Call.IsInvoke() && isPromiseT(call.Call.Value.Type()) {
					runs[f] = true
				}
			}
		}
	}
	direct := func(call ssa.CallInstruction) []*ssa.Function {
		cc := call.Common()
		if cc.StaticCallee() == nil && !cc.IsInvoke() {
			if isPromiseT(cc.Value.Type()) {
				return nil
			}
			if s, ok := cc.Value.Type().Underlying().(*types.Signature); ok && s.Params().Len() == 2 && types.Identical(deref(s.Params().At(1).Type()), c.ctx) {
				return nil
			}
		}
		ts := c.w.targets(call)
		if len(ts) > 12 {
			return nil
		}
		return ts
	}
	for changed := true; changed; {
		changed = false
		for _, f := range c.w.Funcs {
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					call, ok := i.(ssa.CallInstruction)
					if !ok {
						continue
					}
					for _, t := range direct(call) {
						for k := range takes[t] {
							if !takes[f][k] {
								takes[f][k] = true
								changed = true
							}
						}
						if runs[t] && !runs[f] {
							runs[f] = true
							changed = true
						}
					}
				}
			}
		}
	}
	type edge struct{ a, b string }
	edges := map[edge]ssa.Instruction{}
	for _, f := range c.w.Funcs {
		any := false
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if _, take, _, ok := c07LockOp(i); ok && take {
					any = true
				}
			}
		}
		if !any {
			continue
		}
		val := map[string]ssa.Value{}
		m := mustFlowFull(f, func(i ssa.Instruction) []string {
			if _, d := i.(*ssa.Defer); d {
				return nil
			}
			if v, take, _, ok := c07LockOp(i); ok && take && lockClass(v) != "" {
				val[lockClass(v)] = v
				return []string{lockClass(v)}
			}
			return nil
		}, func(i ssa.Instruction) []string {
			if _, d := i.(*ssa.Defer); d {
				return nil
			}
			if v, take, _, ok := c07LockOp(i); ok && !take {
				return []string{lockClass(v)}
			}
			return nil
		}, nil)
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				call, ok := i.(ssa.CallInstruction)
				if !ok {
					continue
				}
				held := m.at(i)
				if len(held) == 0 {
					continue
				}
				if v, take, _, ok := c07LockOp(i); ok {
					if take {
						for h := range held {
							if k := lockClass(v); k != "" && k != h {
								edges[edge{h, k}] = i
							}
						}
					}
					continue
				}
				cc := call.Common()
				promise := cc.StaticCallee() == nil && !cc.IsInvoke() && isPromiseT(cc.Value.Type())
				for _, t := range direct(call) {
					promise = promise || runs[t]
					for k := range takes[t] {
						for h := range held {
							if k != h {
								edges[edge{h, k}] = i
							} else if c.sameLock(val[h], t, call, h) {
								c.r.bad("order", "again|"+fname(f)+"|"+h, c.w.ipos(i), "%s calls %s while holding %s, which that takes again: it waits for itself forever", fname(f), fname(t), h)
							}
						}
					}
				}
				if promise {
					for h := range held {
						if strings.HasPrefix(h, "Context.") || !strings.Contains(h, ".") {
							c.r.bad("order", "promise|"+fname(f)+"|"+h, c.w.ipos(i), "%s processes frames while holding %s, which processing them needs", fname(f), h)
						}
					}
				}
			}
		}
	}
	// cycles
	adj := map[string][]string{}
	var es []edge
	for e := range edges {
		es = append(es, e)
	}
	sort.Slice(es, func(i, j int) bool { return es[i].a+es[i].b < es[j].a+es[j].b })
	for _, e := range es {
		adj[e.a] = append(adj[e.a], e.b)
	}
	reaches := func(a, b string) bool {
		seen := map[string]bool{}
		st := []string{a}
		for len(st) > 0 {
			x := st[len(st)-1]
			st = st[:len(st)-1]
			if x == b {
				return true
			}
			if seen[x] {
				continue
			}
			seen[x] = true
			st = append(st, adj[x]...)
		}
		return false
	}
	for _, e := range es {
		if reaches(e.b, e.a) {
			i := edges[e]
			c.r.bad("order", "cycle|"+e.a+"|"+e.b, c.w.ipos(i), "%s takes %s while holding %s; elsewhere they are taken in the opposite order", fname(i.Parent()), e.b, e.a)
		} else {
			c.r.ob("order", "%s before %s", e.a, e.b)
		}
	}
}

// does a called function take exactly the lock held?
func (c *c07) sameLock(v ssa.Value, t *ssa.Function, call ssa.CallInstruction, class string) bool {
	if v == nil {
		return false
	}
	held := c.e.resolve(v)
	if len(held) != 1 {
		return false
	}
	return c.takesLock(t, call, held[0], class, 0)
}

func (c *c07) takesLock(t *ssa.Function, call ssa.CallInstruction, held AP, class string, d int) bool {
	for _, b := range t.Blocks {
		for _, i := range b.Instrs {
			if v, take, _, ok := c07LockOp(i); ok && take && lockClass(v) == class {
				for _, a := range c.e.resolve(v) {
					for _, s := range c.e.substitute(a, t, call, -1) {
						if s == held {
							return true
						}
					}
				}
			}
			if x, ok := i.(*ssa.Call); ok && d < 3 {
				if g := x.Call.StaticCallee(); g != nil && c.w.inMod[g] && g != t {
					// translate the lock held into the callee's terms
					for k, p := range t.Params {
						_ = k
						a := argFor(p, t, call)
						for _, r := range c.e.resolve(a) {
							if r.Root == held.Root && strings.HasPrefix(held.Path, r.Path) {
								if c.takesLock(g, x, AP{p, held.Path[len(r.Path):]}, class, d+1) {
									return true
								}
							}
						}
					}
				}
			}
		}
	}
	return false
}
