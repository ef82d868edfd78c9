package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C10: image files are only opened by checked names.
//
// Backwards interprocedural flow analysis from every place in the engine that opens a file for reading: each origin of
// the file name (field of an operator, wildcard match, element of a list, constant) has to pass, on every path to the
// opening, conditions that exclude absolute names and names with a parent directory component. Conditions inside
// functions that validate names count through summaries of what their result implies about their argument.

func init() {
	register("C10", "path confinement: from every opening of a file for reading in the engine, every origin of the file name is followed backwards through parameters, closures and operator fields to a dominating check that excludes absolute names and parent directories", runC10)
}

type c10 struct {
	w     *World
	r     *Report
	flows map[*ssa.Function]*mustFacts
	sums  map[string]map[string]bool
	memo  map[string]string
	oblig int
}

func runC10(w *World, r *Report) {
	r.rule("open", "file opened for reading in the engine: every origin of its name passes a check for absolute names and parent directories", 2)
	r.rule("check", "origins of file names that pass a sufficient check on the way to the opening", 1)
	c := &c10{w: w, r: r, flows: map[*ssa.Function]*mustFacts{}, sums: map[string]map[string]bool{}}
	for _, f := range w.Funcs {
		if f.Pkg == nil {
			continue
		}
		p := f.Pkg.Pkg.Path()
		if !strings.HasPrefix(p, Mod+"/internal/") || p == Mod+"/internal/rest" {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				ci, ok := i.(ssa.CallInstruction)
				if !ok {
					continue
				}
				n := calleeName(ci.Common())
				arg := -1
				switch n {
				case "os.Open", "os.ReadFile", "io/ioutil.ReadFile", "os.ReadDir":
					arg = 0
				case "os.OpenFile":
					arg = 0
					if k, ok := constInt(ci.Common().Args[1]); ok && k&3 == 1 {
						arg = -1 // write only
					}
				case "syscall.Open":
					arg = 0
				}
				if arg < 0 {
					continue
				}
				c.memo = map[string]string{}
				before := len(r.Viol) + len(r.Undec)
				c.demand(ci.Common().Args[arg], i, 3, i, nil, 0)
				if len(r.Viol)+len(r.Undec) == before {
					r.ob("open", "%s: %s at %s", fname(f), n, w.ipos(i))
				}
			}
		}
	}
	r.Count["check"] = c.oblig
}

// ---- facts about names

// identity of a name within a function
func (c *c10) key(v ssa.Value, d int) string {
	if d > 12 {
		return fmt.Sprintf("%p", v)
	}
	switch x := v.(type) {
	case *ssa.ChangeType:
		return c.key(x.X, d+1)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if fa, ok := x.X.(*ssa.FieldAddr); ok {
				if s := singleStore(fa); s != nil && s.Parent() == v.Parent() {
					return c.key(s, d+1)
				}
				return c.key(fa.X, d+1) + "." + fieldName(fa.X.Type(), fa.Field)
			}
			if s := singleStore(x.X); s != nil && s.Parent() == v.Parent() {
				return c.key(s, d+1)
			}
			if fv, ok := x.X.(*ssa.FreeVar); ok {
				return fmt.Sprintf("%p*", fv)
			}
		}
	case *ssa.FieldAddr:
		return c.key(x.X, d+1) + "." + fieldName(x.X.Type(), x.Field)
	case *ssa.Call:
		// the same name in another spelling
		switch calleeName(x.Common()) {
		case "path/filepath.ToSlash", "path/filepath.FromSlash":
			return c.key(x.Call.Args[0], d+1)
		}
	}
	return fmt.Sprintf("%p", v)
}

func (c *c10) flow(f *ssa.Function) *mustFacts {
	if m := c.flows[f]; m != nil {
		return m
	}
	c.flows[f] = &mustFacts{f: f, in: map[*ssa.BasicBlock]map[string]bool{}, gen: func(ssa.Instruction) []string { return nil }}
	m := mustFlowFull(f, func(ssa.Instruction) []string { return nil },
		func(i ssa.Instruction) []string {
			if st, ok := i.(*ssa.Store); ok {
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok && isStringT(st.Val.Type()) {
					k := c.key(fa, 0)
					return []string{"abs|" + k, "par|" + k, "wabs|" + k, "wpar|" + k}
				}
			}
			return nil
		},
		func(from *ssa.BasicBlock, k int) []string {
			iff, ok := from.Instrs[len(from.Instrs)-1].(*ssa.If)
			if !ok {
				return nil
			}
			var res []string
			for x := range c.cond(iff.Cond, k == 0, 0) {
				res = append(res, x)
			}
			return res
		})
	c.flows[f] = m
	return m
}

// what the truth of a condition says about names
func (c *c10) cond(v ssa.Value, truth bool, d int) map[string]bool {
	res := map[string]bool{}
	if d > 10 {
		return res
	}
	put := func(kind string, x ssa.Value) { res[kind+"|"+c.key(x, 0)] = true }
	// the argument and, if it is the cleaned form of another name, that name
	clean := func(x ssa.Value) (ssa.Value, bool) {
		if cl, ok := x.(*ssa.Call); ok {
			switch calleeName(cl.Common()) {
			case "path/filepath.Clean", "path.Clean":
				return cl.Call.Args[0], true
			case "path/filepath.ToSlash", "path/filepath.FromSlash":
				if in, ok := cl.Call.Args[0].(*ssa.Call); ok {
					switch calleeName(in.Common()) {
					case "path/filepath.Clean", "path.Clean":
						return in.Call.Args[0], true
					}
				}
			}
		}
		return x, false
	}
	both := func(kind string, x ssa.Value) {
		put(kind, x)
		if y, ok := clean(x); ok {
			put(kind, y)
		}
	}
	switch x := v.(type) {
	case *ssa.Const:
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return c.cond(x.X, !truth, d+1)
		}
	case *ssa.Phi:
		first := true
		for k, e := range x.Edges {
			if kc, ok := e.(*ssa.Const); ok && kc.Value != nil && (kc.Value.ExactString() == "true") != truth {
				continue
			}
			cur := c.cond(e, truth, d+1)
			for y := range c.dominating(x.Block().Preds[k], x.Block(), d+1) {
				cur[y] = true
			}
			if first {
				res = cur
				first = false
				continue
			}
			for y := range res {
				if !cur[y] {
					delete(res, y)
				}
			}
		}
	case *ssa.Call:
		args := x.Call.Args
		switch n := calleeName(x.Common()); n {
		case "path/filepath.IsAbs", "path.IsAbs":
			if !truth {
				both("abs", args[0])
			}
		case "path/filepath.IsLocal":
			if truth {
				both("abs", args[0])
				both("par", args[0])
			}
		case "strings.Contains", "strings.HasPrefix", "strings.HasSuffix":
			k, isC := args[1].(*ssa.Const)
			if !isC || truth {
				break
			}
			s, _ := constString(k)
			name, cleaned := clean(args[0])
			switch {
			case n == "strings.Contains" && s == "..", n == "strings.Contains" && s == ".":
				both("par", args[0])
			case n == "strings.Contains" && (s == "../" || s == "..\\"):
				both("wpar", args[0])
			case n == "strings.HasPrefix" && cleaned && (s == ".." || s == "../"):
				put("par", name)
				put("par", args[0])
			case (n == "strings.HasPrefix" || n == "strings.Contains") && (s == "/" || s == string(filepath.Separator)):
				both("abs", args[0])
			}
		default:
			// a validating function of the module
			t := x.Call.StaticCallee()
			if t != nil && c.w.inMod[t] && len(t.Blocks) > 0 {
				for kind, ps := range c.summary(t, 0, truth, false) {
					for _, p := range ps {
						if p < len(args) {
							put(kind, args[p])
						}
					}
				}
			}
		}
	case *ssa.BinOp:
		op := x.Op
		if !truth {
			op = negOp(op)
		}
		a, b := x.X, x.Y
		if _, ok := a.(*ssa.Const); ok {
			a, b = b, a
			op = flipOp(op)
		}
		k, isC := b.(*ssa.Const)
		if !isC {
			break
		}
		if isErrT(a.Type()) && k.Value == nil {
			if op != token.EQL {
				break
			}
			var cl *ssa.Call
			idx := 0
			switch y := a.(type) {
			case *ssa.Call:
				cl = y
			case *ssa.Extract:
				cl, _ = y.Tuple.(*ssa.Call)
				idx = y.Index
			}
			if cl == nil {
				break
			}
			t := cl.Call.StaticCallee()
			if t != nil && c.w.inMod[t] && len(t.Blocks) > 0 {
				for kind, ps := range c.summary(t, idx, true, true) {
					for _, p := range ps {
						if p < len(cl.Call.Args) {
							put(kind, cl.Call.Args[p])
						}
					}
				}
				// what became of fields of the receiver
				for y := range c.fieldSummary(t, idx, cl) {
					res[y] = true
				}
			}
			break
		}
		if s, ok := constString(k); ok && isStringT(a.Type()) {
			if s == "" && op == token.EQL {
				put("abs", a)
				put("par", a)
			}
			break
		}
		if n, ok := constInt(k); ok {
			if cl, isCall := a.(*ssa.Call); isCall {
				switch calleeName(cl.Common()) {
				case "strings.Index", "strings.Count", "strings.LastIndex":
					kk, isK := cl.Call.Args[1].(*ssa.Const)
					s := ""
					if isK {
						s, _ = constString(kk)
					}
					none := false
					if calleeName(cl.Common()) == "strings.Count" {
						none = op == token.EQL && n == 0 || op == token.LSS && n == 1 || op == token.LEQ && n == 0
					} else {
						none = op == token.EQL && n == -1 || op == token.LSS && n == 0 || op == token.LEQ && n == -1
					}
					if none && s == ".." {
						both("par", cl.Call.Args[0])
					}
				}
				if bt, ok := cl.Call.Value.(*ssa.Builtin); ok && bt.Name() == "len" && isStringT(cl.Call.Args[0].Type()) && (op == token.EQL && n == 0 || op == token.LSS && n == 1 || op == token.LEQ && n == 0) {
					put("abs", cl.Call.Args[0])
					put("par", cl.Call.Args[0])
				}
			}
			// first character
			var str, idx ssa.Value
			switch y := a.(type) {
			case *ssa.Lookup:
				str, idx = y.X, y.Index
			case *ssa.Index:
				str, idx = y.X, y.Index
			}
			if str != nil && isStringT(str.Type()) {
				if z, ok := constInt(idx); ok && z == 0 && op == token.NEQ && n == '/' {
					put("abs", str)
				}
			}
		}
	}
	return res
}

// facts that hold when control passes from p to s
func (c *c10) dominating(p, s *ssa.BasicBlock, d int) map[string]bool {
	res := map[string]bool{}
	if d > 10 {
		return res
	}
	add := func(from *ssa.BasicBlock, k int) {
		if iff, ok := from.Instrs[len(from.Instrs)-1].(*ssa.If); ok {
			for y := range c.cond(iff.Cond, k == 0, d+1) {
				res[y] = true
			}
		}
	}
	if s != nil && len(p.Succs) == 2 && p.Succs[0] != p.Succs[1] {
		for k := range p.Succs {
			if p.Succs[k] == s {
				add(p, k)
			}
		}
	}
	for b := p; b != nil; b = b.Idom() {
		if len(b.Preds) == 1 {
			q := b.Preds[0]
			for k := range q.Succs {
				if q.Succs[k] == b && q.Succs[0] != q.Succs[len(q.Succs)-1] {
					add(q, k)
				}
			}
		}
	}
	return res
}

// which parameters of t have passed which checks if result idx has the given truth (or, for errors, is nil)
func (c *c10) summary(t *ssa.Function, idx int, truth, isErr bool) map[string][]int {
	k := fmt.Sprintf("%p %d %v %v", t, idx, truth, isErr)
	facts, ok := c.sums[k]
	if !ok {
		c.sums[k] = map[string]bool{}
		facts = c.atReturn(t, idx, truth, isErr)
		c.sums[k] = facts
	}
	res := map[string][]int{}
	for _, kind := range []string{"abs", "par", "wabs", "wpar"} {
		for n, p := range t.Params {
			if isStringT(p.Type()) && facts[kind+"|"+c.key(p, 0)] {
				res[kind] = append(res[kind], n)
			}
		}
	}
	// a comparison of parts of the name with "..": not followed
	for _, b := range t.Blocks {
		for _, i := range b.Instrs {
			bo, ok := i.(*ssa.BinOp)
			if !ok || bo.Op != token.EQL && bo.Op != token.NEQ {
				continue
			}
			x, y := bo.X, bo.Y
			if _, ok := x.(*ssa.Const); ok {
				x, y = y, x
			}
			kc, ok := y.(*ssa.Const)
			if !ok {
				continue
			}
			if s, _ := constString(kc); s != ".." {
				continue
			}
			if _, ok := x.(*ssa.Parameter); ok {
				continue
			}
			for n, p := range t.Params {
				if isStringT(p.Type()) {
					res["wpar"] = append(res["wpar"], n)
				}
			}
		}
	}
	return res
}

func (c *c10) atReturn(t *ssa.Function, idx int, truth, isErr bool) map[string]bool {
	m := c.flow(t)
	var res map[string]bool
	for _, b := range t.Blocks {
		if b == t.Recover || m.in[b] == nil {
			continue
		}
		rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || idx >= len(rt.Results) {
			continue
		}
		v := retVal(rt, idx)
		if isErr {
			if definitelyErr(v, b, 0) || c.nonNilAt(v, b) {
				continue
			}
		} else if k, ok := v.(*ssa.Const); ok && k.Value != nil && (k.Value.ExactString() == "true") != truth {
			continue
		}
		cur := m.at(rt)
		if !isErr {
			for x := range c.cond(v, truth, 1) {
				cur[x] = true
			}
		}
		if res == nil {
			res = cur
			continue
		}
		for x := range res {
			if !cur[x] {
				delete(res, x)
			}
		}
	}
	if res == nil {
		res = map[string]bool{}
	}
	return res
}

func (c *c10) nonNilAt(v ssa.Value, b *ssa.BasicBlock) bool {
	if cl, ok := v.(*ssa.Call); ok {
		switch calleeName(cl.Common()) {
		case "errors.New", "fmt.Errorf":
			return true
		}
	}
	for x := b; x != nil; x = x.Idom() {
		if len(x.Preds) != 1 {
			continue
		}
		p := x.Preds[0]
		iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		bo, ok := iff.Cond.(*ssa.BinOp)
		if ok && bo.X == v {
			if k, ok := bo.Y.(*ssa.Const); ok && k.Value == nil && (bo.Op == token.NEQ) == (p.Succs[0] == x) {
				return true
			}
		}
	}
	return false
}

// facts about fields of an argument established by a call that returns without an error
func (c *c10) fieldSummary(t *ssa.Function, idx int, cl *ssa.Call) map[string]bool {
	k := fmt.Sprintf("%p %d %v %v", t, idx, true, true)
	if c.sums[k] == nil {
		c.sums[k] = map[string]bool{}
		c.sums[k] = c.atReturn(t, idx, true, true)
	}
	res := map[string]bool{}
	for n, p := range t.Params {
		if _, ok := p.Type().Underlying().(*types.Pointer); !ok || n >= len(cl.Call.Args) {
			continue
		}
		pk := c.key(p, 0) + "."
		for x := range c.sums[k] {
			j := strings.Index(x, "|")
			if strings.HasPrefix(x[j+1:], pk) {
				res[x[:j+1]+c.key(cl.Call.Args[n], 0)+"."+x[j+1+len(pk):]] = true
			}
		}
	}
	return res
}

// ---- demands

const (
	needAbs = 1
	needPar = 2
)

func describeNeed(need int) string {
	var s []string
	if need&needAbs != 0 {
		s = append(s, "absolute names")
	}
	if need&needPar != 0 {
		s = append(s, "parent directories")
	}
	return strings.Join(s, " and ")
}

func (c *c10) reduce(k string, at ssa.Instruction, need int) (rest int, weak int) {
	fs := c.flow(at.Parent()).at(at)
	if fs["abs|"+k] {
		need &^= needAbs
	}
	if fs["par|"+k] {
		need &^= needPar
	}
	if fs["wabs|"+k] {
		weak |= needAbs
	}
	if fs["wpar|"+k] {
		weak |= needPar
	}
	return need, weak
}

func (c *c10) fail(what string, at, sink ssa.Instruction, need, weak int) {
	w := c.w
	if need&^weak == 0 {
		c.r.undecided("%s %s: the check of %s is not understood", fname(at.Parent()), w.ipos(at), what)
		return
	}
	key := fmt.Sprintf("%s|%s|%s", fname(sink.Parent()), fname(at.Parent()), what)
	c.r.bad("open", key, w.ipos(at), "%s reaches the opening of a file in %s (%s) without a check that excludes %s", what, fname(sink.Parent()), w.ipos(sink), describeNeed(need&^weak))
}

// the name v, used at instruction at, must have the properties in need
func (c *c10) demand(v ssa.Value, at ssa.Instruction, need int, sink ssa.Instruction, path []string, d int) {
	if at == nil || need == 0 {
		return
	}
	if c10Debug {
		fmt.Printf("demand %s %v at %s need %d\n", fname(at.Parent()), v, c.w.ipos(at), need)
	}
	k := c.key(v, 0)
	need, weak := c.reduce(k, at, need)
	if need == 0 {
		c.oblig++
		return
	}
	id := fmt.Sprintf("%p|%s|%d", at, k, need)
	if _, ok := c.memo[id]; ok {
		return
	}
	c.memo[id] = ""
	if d > 40 {
		c.r.undecided("%s: origin of the file name is too deep", fname(at.Parent()))
		return
	}
	if need&^weak == 0 {
		c.fail("a file name", at, sink, need, weak)
		return
	}
	up := func(x ssa.Value, i ssa.Instruction) { c.demand(x, i, need&^weak, sink, path, d+1) }
	switch x := v.(type) {
	case *ssa.Const:
		s, _ := constString(x)
		if need&needAbs != 0 && filepath.IsAbs(s) || need&needPar != 0 && strings.Contains(s, "..") {
			c.fail(fmt.Sprintf("the constant %q", s), at, sink, need, 0)
		}
		return
	case *ssa.ChangeType:
		up(x.X, at)
		return
	case *ssa.Phi:
		for k, e := range x.Edges {
			p := x.Block().Preds[k]
			// facts of the edge itself
			n := need &^ weak
			fs := c.dominating(p, x.Block(), 0)
			ek := c.key(e, 0)
			if fs["abs|"+ek] {
				n &^= needAbs
			}
			if fs["par|"+ek] {
				n &^= needPar
			}
			if n == 0 {
				c.oblig++
				continue
			}
			c.demand(e, p.Instrs[len(p.Instrs)-1], n, sink, path, d+1)
		}
		return
	case *ssa.Parameter:
		c.callers(x, at, func(arg ssa.Value, site ssa.Instruction) { up(arg, site) }, need, sink)
		return
	case *ssa.BinOp:
		if x.Op == token.ADD {
			n := need &^ weak
			if k, ok := x.X.(*ssa.Const); ok {
				if s, _ := constString(k); s != "" && !filepath.IsAbs(s) && !strings.HasSuffix(s, ".") {
					n &^= needAbs
				}
				c.demand(x.X, at, need&^weak, sink, path, d+1)
				if n != 0 {
					c.demand(x.Y, at, n, sink, path, d+1)
				}
				return
			}
			c.demand(x.X, at, n, sink, path, d+1)
			c.demand(x.Y, at, n&needPar, sink, path, d+1)
			return
		}
	case *ssa.Call:
		args := x.Call.Args
		switch calleeName(x.Common()) {
		case "path/filepath.Clean", "path.Clean", "path/filepath.ToSlash", "path/filepath.FromSlash", "strings.ToLower", "strings.ToUpper":
			up(args[0], at)
			return
		case "path/filepath.Base", "path.Base":
			return // a single component
		}
		t := x.Call.StaticCallee()
		if t != nil && c.w.inMod[t] && len(t.Blocks) > 0 {
			for _, b := range t.Blocks {
				if b == t.Recover {
					continue
				}
				if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(rt.Results) > 0 {
					up(retVal(rt, 0), rt)
				}
			}
			return
		}
		c.fail("a name computed by "+calleeName(x.Common()), at, sink, need, weak)
		return
	case *ssa.Extract:
		if cl, ok := x.Tuple.(*ssa.Call); ok {
			t := cl.Call.StaticCallee()
			if t != nil && c.w.inMod[t] && len(t.Blocks) > 0 {
				for _, b := range t.Blocks {
					if b == t.Recover {
						continue
					}
					if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && x.Index < len(rt.Results) {
						up(retVal(rt, x.Index), rt)
					}
				}
				return
			}
			c.fail("a name returned by "+calleeName(cl.Common()), at, sink, need, weak)
			return
		}
	case *ssa.UnOp:
		if x.Op != token.MUL {
			break
		}
		switch a := x.X.(type) {
		case *ssa.Alloc:
			n := 0
			for _, rf := range *a.Referrers() {
				if st, ok := rf.(*ssa.Store); ok && st.Addr == ssa.Value(a) {
					if st.Val == v {
						continue
					}
					n++
					up(st.Val, st)
				}
			}
			if n > 0 {
				return
			}
		case *ssa.FreeVar:
			c.captured(a, func(b ssa.Value, mc ssa.Instruction) {
				if al, ok := b.(*ssa.Alloc); ok {
					if s := singleStore(al); s != nil {
						up(s, mc)
						return
					}
					for _, rf := range *al.Referrers() {
						if st, ok := rf.(*ssa.Store); ok && st.Addr == ssa.Value(al) {
							up(st.Val, st)
						}
					}
				} else if fv, ok := b.(*ssa.FreeVar); ok {
					// captured again
					c.captured(fv, func(b2 ssa.Value, mc2 ssa.Instruction) {
						if s := singleStore(b2); s != nil {
							up(s, mc2)
						}
					})
				} else {
					up(b, mc)
				}
			})
			return
		case *ssa.FieldAddr:
			fn := fieldName(a.X.Type(), a.Field)
			for _, st := range c.stores(at.Parent(), a) {
				up(st.Val, st)
			}
			for _, st := range c.fieldStores(a.X.Type(), fn) {
				up(st.Val, st)
			}
			c.field(a.X, a.X.Type(), fn, at, need&^weak, sink, d+1)
			return
		case *ssa.IndexAddr:
			c.fail("an element of "+c.describe(a.X), at, sink, need, weak)
			return
		}
	}
	c.fail(c.describe(v), at, sink, need, weak)
}

// assignments to a field of objects that exist already
func (c *c10) fieldStores(t types.Type, fn string) (r []*ssa.Store) {
	for _, f := range c.w.Funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				st, ok := i.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || !isStringT(st.Val.Type()) || fieldName(fa.X.Type(), fa.Field) != fn || !types.Identical(fa.X.Type(), t) {
					continue
				}
				if _, ok := fa.X.(*ssa.Alloc); !ok {
					r = append(r, st)
				}
			}
		}
	}
	return
}

// assignments to the same field of the same object in f
func (c *c10) stores(f *ssa.Function, a *ssa.FieldAddr) (r []*ssa.Store) {
	k := c.key(a, 0)
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if st, ok := i.(*ssa.Store); ok {
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok && c.key(fa, 0) == k {
					r = append(r, st)
				}
			}
		}
	}
	return
}

// the field fn of base, used at at
func (c *c10) field(base ssa.Value, bt types.Type, fn string, at ssa.Instruction, need int, sink ssa.Instruction, d int) {
	if c10Debug {
		fmt.Printf("field %s %v.%s at %s need %d\n", fname(at.Parent()), base, fn, c.w.ipos(at), need)
	}
	k := c.key(base, 0) + "." + fn
	need, weak := c.reduce(k, at, need)
	if need == 0 {
		c.oblig++
		return
	}
	id := fmt.Sprintf("F%p|%s|%d", at, k, need)
	if _, ok := c.memo[id]; ok {
		return
	}
	c.memo[id] = ""
	src := "field " + fn + " of " + strings.TrimPrefix(typeShort(bt), "*")
	if need&^weak == 0 || d > 40 {
		c.fail(src, at, sink, need, weak)
		return
	}
	need &^= weak
	switch x := base.(type) {
	case *ssa.Parameter:
		if len(c.w.calls().callers[x.Parent()]) > 0 {
			c.callers(x, at, func(arg ssa.Value, site ssa.Instruction) {
				c.field(arg, bt, fn, site, need, sink, d+1)
			}, need, sink)
		}
		return // never called otherwise
	case *ssa.MakeInterface:
		c.field(x.X, bt, fn, at, need, sink, d+1)
		return
	case *ssa.ChangeType:
		c.field(x.X, bt, fn, at, need, sink, d+1)
		return
	case *ssa.Alloc:
		n := 0
		for _, rf := range *x.Referrers() {
			if fa, ok := rf.(*ssa.FieldAddr); ok && fieldName(fa.X.Type(), fa.Field) == fn {
				for _, rr := range *fa.Referrers() {
					if st, ok := rr.(*ssa.Store); ok && st.Addr == ssa.Value(fa) {
						n++
						c.demand(st.Val, st, need, sink, nil, d+1)
					}
				}
			}
		}
		if n > 0 {
			return
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if fv, ok := x.X.(*ssa.FreeVar); ok {
				c.captured(fv, func(b ssa.Value, mc ssa.Instruction) {
					if s := singleStore(b); s != nil {
						c.field(s, bt, fn, mc, need, sink, d+1)
					} else {
						c.fail(src, at, sink, need, 0)
					}
				})
				return
			}
			if s := singleStore(x.X); s != nil && s.Parent() == x.Parent() {
				c.field(s, bt, fn, at, need, sink, d+1)
				return
			}
		}
	case *ssa.FreeVar:
		c.captured(x, func(b ssa.Value, mc ssa.Instruction) { c.field(b, bt, fn, mc, need, sink, d+1) })
		return
	case *ssa.Call:
		// a constructor
		t := x.Call.StaticCallee()
		if t != nil && c.w.inMod[t] && len(t.Blocks) > 0 {
			for _, b := range t.Blocks {
				if b == t.Recover {
					continue
				}
				if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(rt.Results) == 1 {
					c.field(retVal(rt, 0), bt, fn, rt, need, sink, d+1)
				}
			}
			return
		}
	case *ssa.Phi:
		for k, e := range x.Edges {
			p := x.Block().Preds[k]
			c.field(e, bt, fn, p.Instrs[len(p.Instrs)-1], need, sink, d+1)
		}
		return
	}
	c.fail(src, at, sink, need, weak)
}

func typeShort(t types.Type) string {
	return strings.NewReplacer(Mod+"/internal/", "", Mod+"/", "").Replace(t.String())
}

func (c *c10) describe(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			return "field " + fieldName(fa.X.Type(), fa.Field) + " of " + strings.TrimPrefix(typeShort(fa.X.Type()), "*")
		}
	case *ssa.Extract:
		if cl, ok := x.Tuple.(*ssa.Call); ok {
			return "the result of " + calleeName(cl.Common())
		}
	case *ssa.Call:
		return "the result of " + calleeName(x.Common())
	case *ssa.Parameter:
		return "parameter " + x.Name()
	}
	return "a value of type " + typeShort(v.Type())
}

// where the parameter comes from
func (c *c10) callers(p *ssa.Parameter, at ssa.Instruction, visit func(arg ssa.Value, site ssa.Instruction), need int, sink ssa.Instruction) {
	f := p.Parent()
	sites := c.w.calls().callers[f]
	n := 0
	for _, s := range sites {
		g := s.Parent()
		if g == nil {
			continue
		}
		if !c.w.inMod[g] {
			// wrapper: its callers
			if g.Synthetic != "" {
				idx := -1
				for j, q := range f.Params {
					if q == p {
						idx = j
					}
				}
				for _, s2 := range c.w.calls().callers[g] {
					if !c.w.inMod[s2.Parent()] {
						continue
					}
					a := wrapperArg(s2, g, idx, len(f.Params))
					if a != nil {
						n++
						visit(a, s2)
					}
				}
			}
			continue
		}
		a := argFor(p, f, s)
		if a == nil {
			c.r.undecided("%s: argument for %s at %s", fname(f), p.Name(), c.w.ipos(s))
			continue
		}
		n++
		visit(a, s)
	}
	_ = n
}

func wrapperArg(s ssa.CallInstruction, g *ssa.Function, idx, total int) ssa.Value {
	cm := s.Common()
	if cm.IsInvoke() {
		if idx == 0 {
			return cm.Value
		}
		if idx-1 < len(cm.Args) {
			return cm.Args[idx-1]
		}
		return nil
	}
	if len(cm.Args) == total && idx < len(cm.Args) {
		return cm.Args[idx]
	}
	if len(cm.Args) == total-1 { // bound method
		if idx == 0 {
			if mc, ok := cm.Value.(*ssa.MakeClosure); ok && len(mc.Bindings) == 1 {
				return mc.Bindings[0]
			}
			return nil
		}
		return cm.Args[idx-1]
	}
	return nil
}

// the places where a captured variable is bound
func (c *c10) captured(fv *ssa.FreeVar, visit func(b ssa.Value, mc ssa.Instruction)) {
	fn := fv.Parent()
	idx := -1
	for i, v := range fn.FreeVars {
		if v == fv {
			idx = i
		}
	}
	if fn.Parent() == nil || idx < 0 {
		return
	}
	for _, b := range fn.Parent().Blocks {
		for _, i := range b.Instrs {
			if mc, ok := i.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(fn) {
				visit(mc.Bindings[idx], mc)
			}
		}
	}
}

var c10Debug = os.Getenv("C10_DEBUG") != ""
