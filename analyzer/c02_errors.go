package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C02: errors never get lost. For every call that can fail, all paths on which it failed are followed to the exits of the
// calling function: the function must return an error there, hand the error to somebody (channel, shared state, response)
// or terminate. Path states are the sets of error values known to be non-nil.

type c02 struct {
	w    *World
	e    *effects
	r    *Report
	ioFn map[*ssa.Function]bool
}

func isErrT(t types.Type) bool { return t != nil && t.String() == "error" }

func errIndex(sig *types.Signature) int {
	n := sig.Results().Len()
	if n > 0 && isErrT(sig.Results().At(n-1).Type()) {
		return n - 1
	}
	return -1
}

// error results that carry no information about input or output: writers that cannot fail, console logging, buffered writers
// with sticky errors (their Flush is checked)
func (c *c02) exempt(i ssa.CallInstruction) string {
	cc := i.Common()
	n := calleeName(cc)
	switch {
	case strings.HasPrefix(n, "(*strings.Builder)."), strings.HasPrefix(n, "(*bytes.Buffer)."):
		return "cannot fail"
	case strings.HasPrefix(n, "fmt.Print"), strings.HasPrefix(n, "fmt.Fprint"):
		// only a print directly into a file counts as output
		if strings.HasPrefix(n, "fmt.Fprint") {
			if mi, ok := cc.Args[0].(*ssa.MakeInterface); ok && mi.X.Type().String() == "*os.File" {
				if u, ok := mi.X.(*ssa.UnOp); ok {
					if g, ok := u.X.(*ssa.Global); ok && g.Pkg != nil && g.Pkg.Pkg.Path() == "os" {
						return "console"
					}
				}
				return ""
			}
		}
		return "log or sticky writer"
	case strings.HasPrefix(n, "fmt.S"):
		return "parsing helper"
	case n == "(*bufio.Writer).Write", n == "(*bufio.Writer).WriteString", n == "(*bufio.Writer).WriteRune", n == "(*bufio.Writer).WriteByte":
		return "sticky, reported by Flush"
	}
	return ""
}

// does the function (transitively) perform input/output or evaluate frames?
func (c *c02) computeIO() {
	c.ioFn = map[*ssa.Function]bool{}
	for ch := true; ch; {
		ch = false
		for _, f := range c.w.Funcs {
			if c.ioFn[f] {
				continue
			}
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					call, ok := i.(ssa.CallInstruction)
					if !ok {
						continue
					}
					if c.isIO(call) && !c.ioFn[f] {
						c.ioFn[f] = true
						ch = true
					}
				}
			}
		}
	}
}

var ioPkgs = []string{"os.", "(*os.", "io.", "(io.", "bufio.", "(*bufio.", "(*compress/gzip.", "compress/gzip.", "encoding/json.", "(*encoding/json.", "image/jpeg.", "golang.org/x/image/tiff.", "path/filepath.Glob", "syscall.", "net/http.", "(*net/http.", "(*github.com/gin-gonic/gin."}

func (c *c02) isIO(i ssa.CallInstruction) bool {
	cc := i.Common()
	n := calleeName(cc)
	if c.exempt(i) != "" {
		return false
	}
	for _, p := range ioPkgs {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	for _, t := range c.w.targets(i) {
		if c.ioFn[t] {
			return true
		}
	}
	// dynamic step or promise
	if cc.StaticCallee() == nil && errIndex(cc.Signature()) >= 0 {
		if _, ok := cc.Value.(*ssa.Builtin); !ok {
			return true
		}
	}
	return false
}

// is this a Close of something that was only read?
func (c *c02) closesReadOnly(i ssa.CallInstruction) bool {
	cc := i.Common()
	n := calleeName(cc)
	if !strings.HasSuffix(n, ".Close") {
		return false
	}
	var recv ssa.Value
	if cc.IsInvoke() {
		recv = cc.Value
	} else if len(cc.Args) > 0 {
		recv = cc.Args[0]
	}
	if recv == nil {
		return false
	}
	if strings.Contains(recv.Type().String(), "gzip.Reader") || strings.Contains(recv.Type().String(), "http.Response") {
		return true
	}
	aps := c.e.resolve(recv)
	if len(aps) == 0 {
		return false
	}
	for _, a := range aps {
		call, ok := a.Root.(*ssa.Call)
		if !ok {
			return false
		}
		switch calleeName(&call.Call) {
		case "os.Open", "compress/gzip.NewReader", "(io/fs.FS).Open", "(embed.FS).Open":
		default:
			return false
		}
	}
	return true
}

type errSrc struct {
	val  ssa.Value // error value, nil if discarded
	ins  ssa.Instruction
	desc string
	io   bool
	call ssa.CallInstruction
}

func (c *c02) sources(f *ssa.Function) []errSrc {
	var res []errSrc
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			switch i := i.(type) {
			case ssa.CallInstruction:
				cc := i.Common()
				k := errIndex(cc.Signature())
				if k < 0 {
					continue
				}
				if _, ok := cc.Value.(*ssa.Builtin); ok {
					continue
				}
				n := calleeName(cc)
				if n == "fmt.Errorf" || n == "errors.New" || strings.HasPrefix(n, "errors.") || c.exempt(i) != "" {
					continue
				}
				if n == "" {
					n = "dynamic call of " + cc.Value.Name()
				}
				s := errSrc{ins: i, desc: n, io: c.isIO(i), call: i}
				if v, ok := i.(*ssa.Call); ok {
					if cc.Signature().Results().Len() == 1 {
						if refs := v.Referrers(); refs != nil && len(*refs) > 0 {
							s.val = v
						}
					} else if refs := v.Referrers(); refs != nil {
						for _, rr := range *refs {
							if ex, ok := rr.(*ssa.Extract); ok && ex.Index == k {
								if er := ex.Referrers(); er != nil && len(*er) > 0 {
									s.val = ex
								}
							} else if _, ok := rr.(*ssa.Return); ok {
								s.val = v
							}
						}
					}
				}
				res = append(res, s)
			case *ssa.UnOp:
				if i.Op == token.ARROW {
					t := i.X.Type().Underlying().(*types.Chan).Elem()
					if isErrT(t) && !i.CommaOk {
						s := errSrc{ins: i, desc: "error received from channel", io: true}
						if refs := i.Referrers(); refs != nil && len(*refs) > 0 {
							s.val = i
						}
						res = append(res, s)
					}
				}
			}
		}
	}
	return res
}

func runC02(w *World, r *Report) {
	c := &c02{w: w, e: w.effects(), r: r}
	c.computeIO()
	r.rule("error-used", "the error result of every fallible call is used, not discarded", 60)
	r.rule("error-path", "no path on which a fallible call failed reaches a successful return", 50)
	for _, f := range w.Funcs {
		if f.Synthetic != "" {
			continue
		}
		for _, s := range c.sources(f) {
			r.ob("error-used", "%s: %s", fname(f), s.desc)
			key := fname(f) + "|" + s.desc
			if s.val == nil {
				if s.call != nil && c.closesReadOnly(s.call) {
					continue
				}
				if !s.io && s.call != nil {
					// result only matters for what is computed; report only discarded errors of module functions
					ts := w.targets(s.call)
					if len(ts) == 0 {
						continue
					}
				}
				if s.call != nil && c.rechecked(f, s.call) {
					continue
				}
				if s.call != nil && isCleanup(s.call) && c.onlyOnFailure(f, s.ins) {
					continue
				}
				r.bad("error-used", key, w.ipos(s.ins), "%s discards the error of %s", fname(f), s.desc)
				continue
			}
			if !s.io {
				continue // lookups and numerical helpers: the caller may choose a default
			}
			r.ob("error-path", "%s: %s", fname(f), s.desc)
			if msg, pos := c.follow(f, s); msg != "" {
				r.bad("error-path", key, pos, "%s: after %s (%s) failed, %s", fname(f), s.desc, w.ipos(s.ins), msg)
			}
		}
	}
	r.assume("errors printed by functions without an error result (program entry points, HTTP handlers) count as reported")
	r.assume("errors sent on a channel or stored in shared state are checked by their receiver; receives of errors are obligations of their own")
}

func isCleanup(i ssa.CallInstruction) bool {
	n := calleeName(i.Common())
	return strings.HasSuffix(n, ".Close") || n == "os.Remove"
}

// a clean-up call whose every continuation returns an error
func (c *c02) onlyOnFailure(f *ssa.Function, i ssa.Instruction) bool {
	if _, ok := i.(*ssa.Defer); ok {
		return false
	}
	seen := map[*ssa.BasicBlock]bool{}
	ok := true
	var visit func(b *ssa.BasicBlock)
	visit = func(b *ssa.BasicBlock) {
		if seen[b] {
			return
		}
		seen[b] = true
		if rt, isR := b.Instrs[len(b.Instrs)-1].(*ssa.Return); isR {
			if !mayFail(rt) {
				ok = false
			}
		}
		for _, s := range b.Succs {
			visit(s)
		}
	}
	visit(i.Block())
	return ok
}

// the same operation on the same object is performed elsewhere in f with its error checked (deferred safety net)
func (c *c02) rechecked(f *ssa.Function, d ssa.CallInstruction) bool {
	if _, ok := d.(*ssa.Defer); !ok {
		return false
	}
	n := calleeName(d.Common())
	if !strings.HasSuffix(n, ".Close") {
		return false
	}
	recv := func(i ssa.CallInstruction) ssa.Value {
		if i.Common().IsInvoke() {
			return i.Common().Value
		}
		if len(i.Common().Args) > 0 {
			return i.Common().Args[0]
		}
		return nil
	}
	my := c.e.resolve(recv(d))
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			call, ok := i.(*ssa.Call)
			if !ok || calleeName(&call.Call) != n || call.Referrers() == nil || len(*call.Referrers()) == 0 {
				continue
			}
			for _, a := range c.e.resolve(recv(call)) {
				for _, m := range my {
					if a == m {
						return true
					}
				}
			}
		}
	}
	return false
}

type pathState struct {
	b    *ssa.BasicBlock
	prev *ssa.BasicBlock
	nn   map[ssa.Value]bool // error values and cells known non-nil
	rep  bool               // reported (only counts in functions without an error result)
}

func (p pathState) key() string {
	var s []string
	for v := range p.nn {
		s = append(s, fmt.Sprintf("%p", v))
	}
	sort.Strings(s)
	pi := -1
	if p.prev != nil {
		pi = p.prev.Index
	}
	return fmt.Sprint(p.b.Index, pi, p.rep, s)
}

// follow all paths on which source s failed; returns a description of a bad end
func (c *c02) follow(f *ssa.Function, s errSrc) (string, string) {
	hasErr := errIndex(f.Signature) >= 0
	var defBlock *ssa.BasicBlock
	start := 0
	defBlock = s.ins.Block()
	for k, i := range defBlock.Instrs {
		if i == s.ins {
			start = k + 1
		}
	}
	seen := map[string]bool{}
	st := pathState{b: defBlock, nn: map[ssa.Value]bool{}}
	if ex, ok := s.val.(*ssa.Extract); ok {
		st.nn[ex] = true
	} else {
		st.nn[s.val] = true
	}
	type item struct {
		st    pathState
		start int
	}
	work := []item{{st, start}}
	n := 0
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		n++
		if n > 20000 {
			c.r.undecided("%s: too many paths after %s", fname(f), s.desc)
			return "", ""
		}
		p := it.st
		if it.start == 0 {
			k := p.key()
			if seen[k] {
				continue
			}
			seen[k] = true
		}
		nn := map[ssa.Value]bool{}
		for v := range p.nn {
			nn[v] = true
		}
		rep := p.rep
		// phis first, simultaneously
		if it.start == 0 && p.prev != nil {
			upd := map[ssa.Value]bool{}
			for _, i := range p.b.Instrs {
				ph, ok := i.(*ssa.Phi)
				if !ok {
					break
				}
				if !isErrT(ph.Type()) {
					continue
				}
				for k, pr := range p.b.Preds {
					if pr == p.prev {
						upd[ph] = nn[ph.Edges[k]] || definitelyErr(ph.Edges[k], p.prev, 3)
					}
				}
			}
			for v, b := range upd {
				if b {
					nn[v] = true
				} else {
					delete(nn, v)
				}
			}
		}
		done := false
		derived := func(v ssa.Value) bool { return derivedFrom(v, nn, 0) }
		for k := it.start; k < len(p.b.Instrs) && !done; k++ {
			i := p.b.Instrs[k]
			switch i := i.(type) {
			case *ssa.Phi:
			case *ssa.Store:
				if !isErrT(deref(i.Addr.Type())) {
					if derived(i.Val) && i.Val.Type().String() != "string" {
						// stored in some structure
						if _, ok := i.Addr.(*ssa.IndexAddr); !ok {
							done = true
						}
					}
					continue
				}
				if al, ok := i.Addr.(*ssa.Alloc); ok {
					if nn[i.Val] || definitelyErr(i.Val, p.b, 0) {
						nn[al] = true
					} else {
						delete(nn, al)
					}
				} else if nn[i.Val] {
					done = true // handed to shared state
				}
			case *ssa.UnOp:
				if i.Op == token.MUL {
					if nn[i.X] {
						nn[i] = true
					} else {
						delete(nn, i)
					}
				} else if i.Op == token.ARROW && i != s.val {
					delete(nn, i)
				}
				if ssa.Value(i) == s.val {
					delete(nn, i)
				}
			case *ssa.Send:
				if derived(i.X) {
					done = true
				}
			case *ssa.Panic:
				done = true
			case ssa.CallInstruction:
				cn := calleeName(i.Common())
				if cn == "os.Exit" || strings.HasPrefix(cn, "log.Fatal") || strings.HasPrefix(cn, "log.Panic") || strings.HasPrefix(cn, "(*log.Logger).Fatal") || strings.HasPrefix(cn, "(*log.Logger).Panic") || c.neverReturns(i) {
					done = true
					break
				}
				if !hasErr {
					for _, a := range i.Common().Args {
						if derived(a) {
							rep = true
						}
					}
				}
				if cl, ok := i.(*ssa.Call); ok {
					delete(nn, cl)
				}
			case *ssa.Extract:
				if ssa.Value(i) == s.val && it.start > 0 {
					nn[i] = true
				} else {
					delete(nn, i) // another value, or executed again: a new outcome
				}
			case *ssa.Return:
				done = true
				if hasErr {
					res := i.Results[len(i.Results)-1]
					if call, ok := s.val.(*ssa.Call); ok && res == ssa.Value(call) {
						break
					}
					if ex, ok := res.(*ssa.Extract); ok && s.ins == ex.Tuple.(ssa.Instruction) {
						break
					}
					if nn[res] || definitelyErr(res, p.b, 0) || mayFail(i) {
						break
					}
					return fmt.Sprintf("it can still return success at %s", c.w.ipos(i)), c.w.ipos(s.ins)
				}
				if f.Parent() == nil && f.Name() == "main" || rep {
					break
				}
				if !rep {
					return fmt.Sprintf("it returns at %s without reporting the failure", c.w.ipos(i)), c.w.ipos(s.ins)
				}
			case *ssa.If:
				tk := -1
				cond, neg := stripNot(i.Cond)
				handled := -1 // branch on which a benign sentinel was recognised
				if bo, ok := cond.(*ssa.BinOp); ok && (bo.Op == token.EQL || bo.Op == token.NEQ) {
					x, y := bo.X, bo.Y
					if cs, ok := x.(*ssa.Const); ok && cs.Value == nil {
						x, y = y, x
					}
					cs, isC := y.(*ssa.Const)
					eq := bo.Op == token.EQL
					if neg {
						eq = !eq
					}
					if isC && cs.Value == nil && isErrT(x.Type()) {
						if nn[x] {
							if eq {
								tk = 1
							} else {
								tk = 0
							}
						} else {
							// learn on the non-nil branch
							for b, sc := range p.b.Succs {
								m := nn
								if (b == 0) != eq {
									m = copyNN(nn)
									m[x] = true
									if u, ok := x.(*ssa.UnOp); ok && u.Op == token.MUL {
										if al, ok := u.X.(*ssa.Alloc); ok {
											m[al] = true
										}
									}
								}
								work = append(work, item{pathState{sc, p.b, m, rep}, 0})
							}
							done = true
							break
						}
					} else if isErrT(x.Type()) && (nn[x] || nn[y]) {
						// comparison with a sentinel
						if eq {
							handled = 0
						} else {
							handled = 1
						}
					}
				} else if call, ok := cond.(*ssa.Call); ok {
					n := calleeName(&call.Call)
					if n == "errors.Is" || n == "errors.As" || strings.HasPrefix(n, "os.Is") {
						for _, a := range call.Call.Args {
							if derived(a) {
								handled = 0
								if neg {
									handled = 1
								}
							}
						}
					}
				}
				for b, sc := range p.b.Succs {
					if tk >= 0 && b != tk || b == handled || enumExhausted(p.b, b) {
						continue
					}
					work = append(work, item{pathState{sc, p.b, copyNN(nn), rep}, 0})
				}
				done = true
			case *ssa.Jump:
				work = append(work, item{pathState{p.b.Succs[0], p.b, copyNN(nn), rep}, 0})
				done = true
			}
		}
	}
	return "", ""
}

func copyNN(m map[ssa.Value]bool) map[ssa.Value]bool {
	r := map[ssa.Value]bool{}
	for k := range m {
		r[k] = true
	}
	return r
}

// is v built from one of the failed errors (wrapping, message text, boxing, variadic slices)?
func derivedFrom(v ssa.Value, nn map[ssa.Value]bool, d int) bool {
	if nn[v] {
		return true
	}
	if d > 8 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Call:
		if x.Call.IsInvoke() && derivedFrom(x.Call.Value, nn, d+1) {
			return true
		}
		for _, a := range x.Call.Args {
			if derivedFrom(a, nn, d+1) {
				return true
			}
		}
	case *ssa.MakeInterface:
		return derivedFrom(x.X, nn, d+1)
	case *ssa.ChangeInterface:
		return derivedFrom(x.X, nn, d+1)
	case *ssa.BinOp:
		return derivedFrom(x.X, nn, d+1) || derivedFrom(x.Y, nn, d+1)
	case *ssa.Convert:
		return derivedFrom(x.X, nn, d+1)
	case *ssa.Slice:
		return derivedFrom(x.X, nn, d+1)
	case *ssa.MakeMap:
		for _, r := range *x.Referrers() {
			if mu, ok := r.(*ssa.MapUpdate); ok && derivedFrom(mu.Value, nn, d+1) {
				return true
			}
		}
	case *ssa.Alloc:
		for _, r := range *x.Referrers() {
			switch r := r.(type) {
			case *ssa.IndexAddr:
				for _, rr := range *r.Referrers() {
					if st, ok := rr.(*ssa.Store); ok && st.Addr == ssa.Value(r) && derivedFrom(st.Val, nn, d+1) {
						return true
					}
				}
			case *ssa.FieldAddr:
				for _, rr := range *r.Referrers() {
					if st, ok := rr.(*ssa.Store); ok && st.Addr == ssa.Value(r) && derivedFrom(st.Val, nn, d+1) {
						return true
					}
				}
			}
		}
	}
	return false
}

// module helpers that always end the program
func (c *c02) neverReturns(i ssa.CallInstruction) bool {
	f := i.Common().StaticCallee()
	if f == nil || !c.w.inMod[f] {
		return false
	}
	for _, b := range f.Blocks {
		if len(b.Instrs) == 0 {
			continue
		}
		if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			fatal := false
			for d := b; d != nil; d = d.Idom() {
				for _, j := range d.Instrs {
					if call, ok := j.(*ssa.Call); ok {
						n := calleeName(&call.Call)
						if n == "os.Exit" || strings.HasPrefix(n, "log.Fatal") || strings.HasPrefix(n, "log.Panic") {
							fatal = true
						}
					}
				}
			}
			if !fatal {
				return false
			}
		}
	}
	return true
}

func init() {
	register("C02", "error flow: for every fallible call in every function all failing paths are enumerated over the control flow graph with the set of errors known to be non-nil; a path reaching a successful return, or a discarded error of an input/output or processing call, is a violation", runC02)
}
