package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C24: the server confines itself before it serves.
//
// A typestate simulation over SSA: starting from main, all paths are followed with the confinement requests fixed to
// representative values, success and failure of every confinement call are both explored, and the values of errors are
// tracked up to the tests that look at them. Where the server starts to listen, the process must have changed its root,
// moved into it and given up its user id, in this order, all of them successfully.

func init() {
	register("C24", "confinement before serving: on every path from the program start to the start of the HTTP server on which confinement was requested, the root directory is changed, the process moves into it and then gives up its user id, and no failed step leads to serving", runC24)
}

// ---- command line flags

// the name of the command line flag whose value v is, if v is a load of one
func (w *World) flagOf(v ssa.Value) string {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return ""
	}
	if g, ok := u.X.(*ssa.Global); ok { // flag.StringVar(&g, ...)
		return w.flagVars()[g]
	}
	u2, ok := u.X.(*ssa.UnOp)
	if !ok || u2.Op != token.MUL {
		return ""
	}
	g, ok := u2.X.(*ssa.Global)
	if !ok {
		return ""
	}
	return w.flagVars()[g]
}

type flagDef struct {
	name string
	g    *ssa.Global
	call *ssa.Call
	ptr  bool // g holds a pointer to the value
}

var flagCache = map[*World][]flagDef{}

func (w *World) flagDefs() []flagDef {
	if r, ok := flagCache[w]; ok {
		return r
	}
	var res []flagDef
	for _, f := range w.Funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				c, ok := i.(*ssa.Call)
				if !ok {
					continue
				}
				n := calleeName(&c.Call)
				if !strings.HasPrefix(n, "flag.") && !strings.HasPrefix(n, "(*flag.FlagSet).") {
					continue
				}
				args := c.Call.Args
				if c.Call.Signature().Recv() != nil {
					args = args[1:]
				}
				base := n[strings.LastIndex(n, ".")+1:]
				isVar := strings.HasSuffix(base, "Var")
				switch strings.TrimSuffix(base, "Var") {
				case "String", "Int", "Int64", "Uint", "Uint64", "Float64", "Bool", "Duration":
				default:
					continue
				}
				k := 0
				if isVar {
					k = 1
				}
				if len(args) <= k {
					continue
				}
				cn, ok := args[k].(*ssa.Const)
				if !ok {
					continue
				}
				name, ok := constString(cn)
				if !ok {
					continue
				}
				d := flagDef{name: name, call: c}
				if isVar {
					if g, ok := args[0].(*ssa.Global); ok {
						d.g = g
					}
				} else {
					for _, r := range *c.Referrers() {
						if st, ok := r.(*ssa.Store); ok && st.Val == ssa.Value(c) {
							if g, ok := st.Addr.(*ssa.Global); ok {
								d.g, d.ptr = g, true
							}
						}
					}
				}
				res = append(res, d)
			}
		}
	}
	flagCache[w] = res
	return res
}

// the value of a flag that is not given, if nothing else sets it
func (w *World) flagDefault(name string) constant.Value {
	for _, d := range w.flagDefs() {
		if d.name != name || d.g == nil || !d.ptr || len(d.call.Call.Args) < 2 {
			continue
		}
		k, ok := d.call.Call.Args[len(d.call.Call.Args)-2].(*ssa.Const)
		if !ok || k.Value == nil {
			return nil
		}
		for _, f := range w.Funcs {
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					u, ok := i.(*ssa.UnOp)
					if !ok || u.X != ssa.Value(d.g) || u.Referrers() == nil {
						continue
					}
					for _, r := range *u.Referrers() {
						if l, ok := r.(*ssa.UnOp); !ok || l.Op != token.MUL {
							return nil
						}
					}
				}
			}
		}
		return k.Value
	}
	return nil
}

func (w *World) flagVars() map[*ssa.Global]string {
	m := map[*ssa.Global]string{}
	for _, d := range w.flagDefs() {
		if d.g != nil {
			m[d.g] = d.name
		}
	}
	return m
}

// ---- simulation

type c24val struct {
	c    constant.Value // known constant, or
	nil_ int8           // 1 nil, 2 not nil
}

func (v c24val) known() bool { return v.c != nil || v.nil_ != 0 }
func (v c24val) String() string {
	if v.c != nil {
		return v.c.ExactString()
	}
	return fmt.Sprint("n", v.nil_)
}

const (
	evNot  = '-'
	evDone = 'y'
	evFail = 'x'
)

type c24State struct {
	chroot, chdir, uid byte
	cwd                string // directory moved to before the change of root
	opaque             bool   // took a branch on a value that could carry the request but cannot be followed
	misordered         string
	vals               map[ssa.Value]c24val
}

func (s *c24State) clone() *c24State {
	n := *s
	n.vals = map[ssa.Value]c24val{}
	for k, v := range s.vals {
		n.vals[k] = v
	}
	return &n
}

func (s *c24State) key(names map[ssa.Value]int) string {
	var vs []string
	for k, v := range s.vals {
		id, ok := names[k]
		if !ok {
			id = len(names)
			names[k] = id
		}
		vs = append(vs, fmt.Sprint(id, "=", v))
	}
	sort.Strings(vs)
	return fmt.Sprintf("%c%c%c%s|%v|%s|%s", s.chroot, s.chdir, s.uid, s.cwd, s.opaque, s.misordered, strings.Join(vs, ","))
}

type c24Ret struct {
	st  *c24State
	res []c24val
}

type c24 struct {
	w      *World
	r      *Report
	root   string
	uid    int64
	has    map[*ssa.Function]bool // functions containing confinement or serving events, directly or in callees
	names  map[ssa.Value]int
	serves map[ssa.Instruction]bool
	undec  map[string]bool
	told   map[string]bool
	steps  int
}

var c24Events = map[string]string{
	"syscall.Chroot": "chroot", "golang.org/x/sys/unix.Chroot": "chroot",
	"os.Chdir": "chdir", "syscall.Chdir": "chdir", "golang.org/x/sys/unix.Chdir": "chdir",
	"syscall.Setuid": "uid", "golang.org/x/sys/unix.Setuid": "uid",
	"syscall.Setreuid": "uid2", "syscall.Setresuid": "uid3",
}

func c24Event(c *ssa.CallCommon) string {
	n := calleeName(c)
	if e, ok := c24Events[n]; ok {
		return e
	}
	switch {
	case strings.HasPrefix(n, "net/http.ListenAndServe"), strings.HasPrefix(n, "net/http.Serve") && n != "net/http.ServeContent" && n != "net/http.ServeFile",
		strings.HasPrefix(n, "(*net/http.Server).ListenAndServe"), strings.HasPrefix(n, "(*net/http.Server).Serve"),
		strings.HasPrefix(n, "(*github.com/gin-gonic/gin.Engine).Run"):
		return "serve"
	}
	return ""
}

func runC24(w *World, r *Report) {
	r.rule("serve", "where the HTTP server starts, the requested confinement is complete, in the right order, and no step of it failed", 1)
	r.rule("request", "each confinement step acts on the value given on the command line", 3)
	has := map[*ssa.Function]bool{}
	var main *ssa.Function
	for _, f := range w.Funcs {
		if f.Pkg != nil && f.Pkg.Pkg.Name() == "main" && f.Name() == "main" && f.Parent() == nil {
			main = f
		}
	}
	if main == nil {
		r.bad("serve", "main", "-", "there is no program entry")
		return
	}
	mark := func() (n int) {
		for _, f := range w.Funcs {
			if has[f] {
				continue
			}
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					ci, ok := i.(ssa.CallInstruction)
					if !ok || has[f] {
						continue
					}
					hit := c24Event(ci.Common()) != ""
					for _, t := range w.targets(ci) {
						hit = hit || has[t]
					}
					if hit {
						has[f] = true
						n++
					}
				}
			}
		}
		return n
	}
	for mark() > 0 {
	}
	serves := map[ssa.Instruction]bool{}
	undec, told := map[string]bool{}, map[string]bool{}
	for _, root := range []string{"/srv/nightlight", "data", ""} {
		for _, uid := range []int64{1, 1000, 65534, -1} {
			if root == "" && uid < 0 {
				continue
			}
			c := &c24{w: w, r: r, root: root, uid: uid, has: has, names: map[ssa.Value]int{}, serves: serves, undec: undec, told: told}
			st := &c24State{chroot: evNot, chdir: evNot, uid: evNot, vals: map[ssa.Value]c24val{}}
			c.run(main, st, nil, 0)
		}
	}
	for i := range serves {
		r.ob("serve", "%s %s", fname(i.Parent()), w.ipos(i))
	}
	for u := range undec {
		r.undecided("%s", u)
	}
	if len(serves) == 0 {
		r.note("no path starts an HTTP server")
	}
	r.assume("confinement is requested by a non-empty -chroot and a non-negative -setuid; analysed for the build target of this machine (the change of root does not exist on Windows)")
}

func (c *c24) eval(st *c24State, v ssa.Value, d int) c24val {
	if d > 30 {
		return c24val{}
	}
	if x, ok := st.vals[v]; ok {
		return x
	}
	switch n := c.w.flagOf(v); n {
	case "":
	default:
		if dv := c.w.flagDefault(n); dv != nil {
			return c24val{c: dv}
		}
	case "chroot":
		return c24val{c: constant.MakeString(c.root)}
	case "setuid":
		return c24val{c: constant.MakeInt64(c.uid)}
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return c24val{nil_: 1}
		}
		return c24val{c: x.Value}
	case *ssa.Convert:
		y := c.eval(st, x.X, d+1)
		if y.c != nil {
			return c24val{c: convConst(y.c, x.Type())}
		}
	case *ssa.ChangeType:
		return c.eval(st, x.X, d+1)
	case *ssa.MakeInterface:
		return c24val{nil_: 2}
	case *ssa.ChangeInterface:
		return c.eval(st, x.X, d+1)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if a, ok := c24addr(x.X); ok {
				if y, ok := st.vals[a]; ok {
					return y
				}
			}
			return c24val{}
		}
		y := c.eval(st, x.X, d+1)
		if x.Op == token.NOT && y.c != nil {
			return c24val{c: constant.MakeBool(!constant.BoolVal(y.c))}
		}
		if x.Op == token.SUB && y.c != nil {
			return c24val{c: constant.UnaryOp(token.SUB, y.c, 0)}
		}
	case *ssa.BinOp:
		a, b := c.eval(st, x.X, d+1), c.eval(st, x.Y, d+1)
		if a.c != nil && b.c != nil {
			if isCmp(x.Op) {
				if a.c.Kind() == b.c.Kind() || (a.c.Kind() != constant.String && b.c.Kind() != constant.String) {
					return c24val{c: constant.MakeBool(constant.Compare(a.c, x.Op, b.c))}
				}
			} else if k := foldBin(x, a.c, b.c); k != nil {
				return c24val{c: k}
			}
		}
		if a.nil_ != 0 && b.nil_ != 0 && (a.nil_ == 1 || b.nil_ == 1) {
			eq := a.nil_ == b.nil_
			switch x.Op {
			case token.EQL:
				return c24val{c: constant.MakeBool(eq)}
			case token.NEQ:
				return c24val{c: constant.MakeBool(!eq)}
			}
		}
	case *ssa.Lookup:
		return c.char(c.eval(st, x.X, d+1), c.eval(st, x.Index, d+1))
	case *ssa.Index:
		return c.char(c.eval(st, x.X, d+1), c.eval(st, x.Index, d+1))
	case *ssa.Call:
		var args []constant.Value
		for _, a := range x.Call.Args {
			y := c.eval(st, a, d+1)
			if y.c == nil {
				return c24nonNil(x, x.Type())
			}
			args = append(args, y.c)
		}
		str := func(k int) (string, bool) {
			if k < len(args) && args[k].Kind() == constant.String {
				return constant.StringVal(args[k]), true
			}
			return "", false
		}
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			if s, ok := str(0); ok {
				return c24val{c: constant.MakeInt64(int64(len(s)))}
			}
			return c24val{}
		}
		s0, ok := str(0)
		if !ok {
			return c24nonNil(x, x.Type())
		}
		s1, _ := str(1)
		switch calleeName(&x.Call) {
		case "strings.HasPrefix":
			return c24val{c: constant.MakeBool(strings.HasPrefix(s0, s1))}
		case "strings.HasSuffix":
			return c24val{c: constant.MakeBool(strings.HasSuffix(s0, s1))}
		case "strings.Contains":
			return c24val{c: constant.MakeBool(strings.Contains(s0, s1))}
		case "strings.TrimSpace":
			return c24val{c: constant.MakeString(strings.TrimSpace(s0))}
		case "path/filepath.Clean", "path.Clean":
			return c24val{c: constant.MakeString(filepath.Clean(s0))}
		case "path/filepath.IsAbs", "path.IsAbs":
			return c24val{c: constant.MakeBool(filepath.IsAbs(s0))}
		}
		return c24nonNil(x, x.Type())
	}
	return c24val{}
}

func c24nonNil(cl *ssa.Call, t types.Type) c24val {
	if isErrT(t) {
		switch calleeName(&cl.Call) {
		case "fmt.Errorf", "errors.New":
			return c24val{nil_: 2}
		}
	}
	return c24val{}
}

func (c *c24) char(a, b c24val) c24val {
	if a.c != nil && b.c != nil && a.c.Kind() == constant.String {
		s := constant.StringVal(a.c)
		if k, ok := constant.Int64Val(b.c); ok && k >= 0 && k < int64(len(s)) {
			return c24val{c: constant.MakeInt64(int64(s[k]))}
		}
	}
	return c24val{}
}

// a stable name for a variable or field of a local variable
func c24addr(v ssa.Value) (ssa.Value, bool) {
	switch x := v.(type) {
	case *ssa.Alloc:
		return x, true
	case *ssa.FieldAddr:
		// the first field address of the same variable and field stands for all of them
		a, ok := x.X.(*ssa.Alloc)
		if !ok || a.Referrers() == nil {
			return nil, false
		}
		for _, r := range *a.Referrers() {
			if f, ok := r.(*ssa.FieldAddr); ok && f.Field == x.Field {
				return f, true
			}
		}
	}
	return nil, false
}

// could the condition carry the request in a way that was not followed?
func (c *c24) opaque(v ssa.Value, d int, seen map[ssa.Value]bool) bool {
	if d > 12 || seen[v] {
		return false
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Parameter:
		return true
	case *ssa.FreeVar:
		return true
	case *ssa.UnOp:
		if x.Op == token.MUL {
			switch a := x.X.(type) {
			case *ssa.FieldAddr:
				return true
			case *ssa.Global:
				return false
			case *ssa.UnOp:
				if _, ok := a.X.(*ssa.Global); ok {
					return false
				}
				return true
			case *ssa.Alloc:
				return true
			case *ssa.FreeVar:
				return true
			}
			return false
		}
		return c.opaque(x.X, d+1, seen)
	case *ssa.Field, *ssa.Lookup:
		return true
	case *ssa.Phi:
		return true
	case *ssa.Call:
		if isErrT(x.Type()) {
			return false
		}
		for _, a := range x.Call.Args {
			if c.opaque(a, d+1, seen) {
				return true
			}
		}
		return false
	case *ssa.Extract:
		if isErrT(x.Type()) {
			return false
		}
		return c.opaque(x.Tuple, d+1, seen)
	case ssa.Instruction:
		for _, op := range x.Operands(nil) {
			if *op != nil && c.opaque(*op, d+1, seen) {
				return true
			}
		}
	}
	return false
}

func recovers(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			d, ok := i.(*ssa.Defer)
			if !ok {
				continue
			}
			var g *ssa.Function
			switch x := d.Call.Value.(type) {
			case *ssa.MakeClosure:
				g, _ = x.Fn.(*ssa.Function)
			case *ssa.Function:
				g = x
			}
			if g == nil {
				continue
			}
			for _, b2 := range g.Blocks {
				for _, j := range b2.Instrs {
					if cl, ok := j.(*ssa.Call); ok {
						if bi, ok := cl.Call.Value.(*ssa.Builtin); ok && bi.Name() == "recover" {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

func (c *c24) run(f *ssa.Function, entry *c24State, env map[ssa.Value]c24val, depth int) (rets []c24Ret) {
	if depth > 8 || len(f.Blocks) == 0 {
		return []c24Ret{{st: entry}}
	}
	// values of other functions stay with the caller
	start := entry.clone()
	start.vals = map[ssa.Value]c24val{}
	for k, v := range env {
		start.vals[k] = v
	}
	rec := recovers(f)
	type item struct {
		b  *ssa.BasicBlock
		st *c24State
	}
	work := []item{{f.Blocks[0], start}}
	seen := map[string]bool{}
	retSeen := map[string]bool{}
	ret := func(st *c24State, res []c24val) {
		k := st.key(c.names) + fmt.Sprint(res)
		if !retSeen[k] {
			retSeen[k] = true
			rets = append(rets, c24Ret{st, res})
		}
	}
	panicked := func(st *c24State) {
		if rec {
			ret(st, nil)
		}
	}
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		k := fmt.Sprint(it.b.Index, "/", it.st.key(c.names))
		if seen[k] {
			continue
		}
		seen[k] = true
		c.steps++
		if c.steps > 300000 {
			c.undec["too many paths"] = true
			return
		}
		// run the block; calls may fork
		states := []*c24State{it.st}
		for _, i := range it.b.Instrs {
			var next []*c24State
			for _, st := range states {
				next = append(next, c.step(i, st, depth, panicked)...)
			}
			states = next
			if len(states) == 0 {
				break
			}
		}
		last := it.b.Instrs[len(it.b.Instrs)-1]
		for _, st := range states {
			switch x := last.(type) {
			case *ssa.Return:
				var res []c24val
				for _, v := range x.Results {
					res = append(res, c.eval(st, v, 0))
				}
				ret(st, res)
			case *ssa.Panic:
				panicked(st)
			case *ssa.If:
				v := c.eval(st, x.Cond, 0)
				for n, s := range it.b.Succs {
					if v.c != nil && v.c.Kind() == constant.Bool && constant.BoolVal(v.c) != (n == 0) {
						continue
					}
					ns := st
					if v.c == nil {
						ns = st.clone()
						if c.opaque(x.Cond, 0, map[ssa.Value]bool{}) {
							ns.opaque = true
						}
						if refs := x.Cond.Referrers(); refs != nil && len(*refs) > 1 {
							ns.vals[x.Cond] = c24val{c: constant.MakeBool(n == 0)}
						}
					}
					work = append(work, item{s, c.phis(it.b, s, ns)})
				}
			case *ssa.Jump:
				work = append(work, item{it.b.Succs[0], c.phis(it.b, it.b.Succs[0], st)})
			}
		}
	}
	return rets
}

func (c *c24) phis(from, to *ssa.BasicBlock, st *c24State) *c24State {
	n := st.clone()
	for _, i := range to.Instrs {
		ph, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		for k, p := range to.Preds {
			if p == from {
				v := c.eval(st, ph.Edges[k], 0)
				if v.known() {
					n.vals[ph] = v
				} else {
					delete(n.vals, ph)
				}
			}
		}
	}
	// conditions and other values computed again in a loop
	if to.Dominates(from) {
		for v := range n.vals {
			if in, ok := v.(ssa.Instruction); ok && in.Block() != nil && to.Dominates(in.Block()) {
				if _, isPhi := v.(*ssa.Phi); isPhi && in.Block() == to {
					continue
				}
				if _, isA := v.(*ssa.Alloc); isA {
					continue
				}
				delete(n.vals, v)
			}
		}
	}
	return n
}

// the successor states of one instruction; none if it does not continue
func (c *c24) step(i ssa.Instruction, st *c24State, depth int, panicked func(*c24State)) []*c24State {
	one := []*c24State{st}
	switch x := i.(type) {
	case *ssa.Store:
		if a, ok := c24addr(x.Addr); ok {
			n := st.clone()
			if v := c.eval(st, x.Val, 0); v.known() {
				n.vals[a] = v
			} else {
				delete(n.vals, a)
			}
			return []*c24State{n}
		}
		return one
	}
	ci, ok := i.(ssa.CallInstruction)
	if !ok {
		return one
	}
	if _, ok := i.(*ssa.Defer); ok {
		return one
	}
	com := ci.Common()
	name := calleeName(com)
	if name == "os.Exit" || name == "runtime.Goexit" || strings.HasPrefix(name, "log.Fatal") || strings.HasPrefix(name, "(*log.Logger).Fatal") || name == "syscall.Exit" {
		return nil
	}
	if strings.HasPrefix(name, "log.Panic") || strings.HasPrefix(name, "(*log.Logger).Panic") {
		panicked(st)
		return nil
	}
	ev := c24Event(com)
	val, _ := i.(ssa.Value)
	switch ev {
	case "serve":
		c.serve(i, st)
		n := st.clone()
		return []*c24State{n}
	case "chroot", "chdir", "uid", "uid2", "uid3":
		ok, bad := st.clone(), st.clone()
		c.event(i, ev, com, ok, bad)
		if val != nil {
			ok.vals[val] = c24val{nil_: 1}
			bad.vals[val] = c24val{nil_: 2}
		}
		return []*c24State{ok, bad}
	}
	var out []*c24State
	follow := false
	if _, isGo := i.(*ssa.Go); isGo {
		out = append(out, st.clone()) // runs alongside
	}
	for _, t := range c.w.targets(ci) {
		if !c.has[t] || len(t.Blocks) == 0 {
			continue
		}
		follow = true
		env := map[ssa.Value]c24val{}
		for _, p := range t.Params {
			if a := argFor(p, t, ci); a != nil {
				if v := c.eval(st, a, 0); v.known() {
					env[p] = v
				}
			}
		}
		if mc, ok := com.Value.(*ssa.MakeClosure); ok {
			for k, fv := range t.FreeVars {
				if k < len(mc.Bindings) {
					if a, ok := c24addr(mc.Bindings[k]); ok {
						if v, ok := st.vals[a]; ok {
							env[fv] = v
						}
					}
				}
			}
		}
		for _, rt := range c.run(t, st, env, depth+1) {
			n := rt.st.clone()
			n.vals = map[ssa.Value]c24val{}
			for k, v := range st.vals {
				n.vals[k] = v
			}
			if _, isGo := i.(*ssa.Go); isGo {
				continue
			} else if val != nil {
				if len(rt.res) == 1 {
					if rt.res[0].known() {
						n.vals[val] = rt.res[0]
					}
				} else if refs := val.Referrers(); refs != nil {
					for _, r := range *refs {
						if e, ok := r.(*ssa.Extract); ok && e.Index < len(rt.res) && rt.res[e.Index].known() {
							n.vals[e] = rt.res[e.Index]
						}
					}
				}
			}
			out = append(out, n)
		}
	}
	if follow {
		return out
	}
	return one
}

func (c *c24) event(i ssa.Instruction, ev string, com *ssa.CallCommon, ok, bad *c24State) {
	w, r := c.w, c.r
	arg := func(k int) c24val { return c.eval(ok, com.Args[k], 0) }
	where := fname(i.Parent())
	switch ev {
	case "chroot":
		v := arg(0)
		s := ""
		if v.c != nil && v.c.Kind() == constant.String {
			s = constant.StringVal(v.c)
		} else {
			c.undec[fmt.Sprintf("%s %s: directory of the change of root", where, w.ipos(i))] = true
			s = c.root
		}
		switch {
		case s == c.root && (ok.cwd == "" || filepath.IsAbs(s)):
			c.once("%s %s: changes the root to the value given", where, w.ipos(i))
		case s == "." && ok.cwd == c.root:
			c.once("%s %s: changes the root to the directory moved to before", where, w.ipos(i))
		default:
			r.bad("request", where+"|chroot", w.ipos(i), "changes the root directory to %q (after moving to %q) when %q was requested", s, ok.cwd, c.root)
		}
		ok.chroot, bad.chroot = evDone, evFail
		ok.chdir = evNot
		if ok.cwd == c.root && (s == "." || s == c.root && filepath.IsAbs(s)) && bad.chdir == evDone {
			ok.chdir = evDone // already inside
		}
		if ok.uid != evNot {
			ok.misordered = "the user id is given up before the root directory is changed"
		}
	case "chdir":
		v := arg(0)
		s, known := "", false
		if v.c != nil && v.c.Kind() == constant.String {
			s, known = constant.StringVal(v.c), true
		}
		if ok.chroot == evNot {
			if known {
				ok.cwd = s
			}
			ok.chdir, bad.chdir = evDone, evFail
			if known && s != c.root {
				ok.chdir = evNot
			}
			return
		}
		if ok.uid != evNot {
			ok.misordered = "the user id is given up before moving into the new root"
		}
		if !known {
			c.undec[fmt.Sprintf("%s %s: directory moved to after the change of root", where, w.ipos(i))] = true
			s = "/"
		}
		if filepath.IsAbs(s) && filepath.Clean(s) == "/" {
			c.once("%s %s: moves to the top of the new root", where, w.ipos(i))
			ok.chdir, bad.chdir = evDone, evFail
			return
		}
		if filepath.IsAbs(s) {
			r.bad("request", where+"|chdir", w.ipos(i), "after changing the root to %q, moves to %q below it instead of its top", c.root, s)
			ok.chdir, bad.chdir = evDone, evFail
			return
		}
		r.bad("request", where+"|chdir", w.ipos(i), "after changing the root to %q, moves to %q relative to the old working directory, which is outside of the new root", c.root, s)
		ok.chdir, bad.chdir = evDone, evFail
	case "uid", "uid2", "uid3":
		for k := range com.Args {
			v := arg(k)
			if v.c == nil || v.c.Kind() != constant.Int {
				c.undec[fmt.Sprintf("%s %s: user id", where, w.ipos(i))] = true
				continue
			}
			n, _ := constant.Int64Val(v.c)
			if n != c.uid {
				r.bad("request", where+"|setuid", w.ipos(i), "sets the user id to %d when %d was requested", n, c.uid)
			} else {
				c.once("%s %s: sets the user id given", where, w.ipos(i))
			}
		}
		ok.uid, bad.uid = evDone, evFail
	}
}

func (c *c24) once(format string, a ...interface{}) {
	s := fmt.Sprintf(format, a...)
	if !c.told[s] {
		c.told[s] = true
		c.r.ob("request", "%s", s)
	}
}

func (c *c24) serve(i ssa.Instruction, st *c24State) {
	c.serves[i] = true
	where := fname(i.Parent())
	var why []string
	part := func(b byte, what string) {
		switch b {
		case evNot:
			why = append(why, "it has not "+what)
		case evFail:
			why = append(why, "it failed to have "+what)
		}
	}
	if c.root != "" {
		part(st.chroot, "changed its root directory")
		part(st.chdir, "moved into the new root directory")
	}
	if c.uid >= 0 {
		part(st.uid, "given up its user id")
	}
	if st.misordered != "" && c.root != "" && c.uid >= 0 {
		why = append(why, st.misordered)
	}
	if len(why) == 0 {
		return
	}
	if st.opaque {
		c.undec[fmt.Sprintf("%s %s: reached without complete confinement on a path whose conditions could not be followed", where, c.w.ipos(i))] = true
		return
	}
	c.r.bad("serve", where+"|"+strings.Join(why, ", "), c.w.ipos(i), "the HTTP server can start with confinement requested although %s", strings.Join(why, " and "))
}
