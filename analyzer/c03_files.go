package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C03: typestate of output files. A function that opens a file for writing must, on every path on which it reports success,
// have finished every buffering or compressing writer on top of it after the last write to that writer, inner before outer,
// and have closed the file after that.

type c03 struct {
	w *World
	r *Report
	// functions handing a created file or writer to their caller: result index -> kind
	maker map[*ssa.Function]map[int]string
	fins  map[*ssa.Function]map[int]bool
	// writers and files kept in struct fields: "Type.field" -> kind
	fields map[string]string
	under  map[string]string // field key of a writer -> field key of the file or writer below
}

const (
	kFile = "file"
	kBuf  = "buffered writer"
	kZip  = "compressing writer"
)

// the resource created by a call, and the writer it is layered on
func c03Creates(cc *ssa.CallCommon) (kind string, below ssa.Value) {
	switch calleeName(cc) {
	case "os.Create", "os.CreateTemp":
		return kFile, nil
	case "os.OpenFile":
		if k, ok := cc.Args[1].(*ssa.Const); ok && k.Value != nil && k.Int64()&3 == 0 {
			return "", nil
		}
		return kFile, nil
	case "bufio.NewWriter", "bufio.NewWriterSize":
		return kBuf, cc.Args[0]
	case "compress/gzip.NewWriter", "compress/gzip.NewWriterLevel", "compress/zlib.NewWriter", "compress/flate.NewWriter":
		return kZip, cc.Args[0]
	}
	return "", nil
}

func c03Finish(cc *ssa.CallCommon) (kind string, obj ssa.Value) {
	n := calleeName(cc)
	switch n {
	case "(*os.File).Close":
		return kFile, cc.Args[0]
	case "(*bufio.Writer).Flush":
		return kBuf, cc.Args[0]
	case "(*compress/gzip.Writer).Close", "(*compress/zlib.Writer).Close", "(*compress/flate.Writer).Close":
		return kZip, cc.Args[0]
	}
	if cc.IsInvoke() && cc.Method.Name() == "Close" {
		return "any", cc.Value
	}
	return "", nil
}

func c03IsWriterT(t types.Type) bool {
	switch t.String() {
	case "*os.File", "*bufio.Writer", "*compress/gzip.Writer", "*compress/zlib.Writer", "*compress/flate.Writer":
		return true
	}
	if _, ok := t.Underlying().(*types.Interface); ok {
		ms := types.NewMethodSet(t)
		return ms.Lookup(nil, "Write") != nil
	}
	return false
}

// identities of a writer value: creating calls (as ssa.Value) or field keys
func (c *c03) ids(v ssa.Value, seen map[ssa.Value]bool) []string {
	if seen[v] {
		return nil
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return c.ids(x.X, seen)
	case *ssa.ChangeInterface:
		return c.ids(x.X, seen)
	case *ssa.ChangeType:
		return c.ids(x.X, seen)
	case *ssa.TypeAssert:
		return c.ids(x.X, seen)
	case *ssa.Phi:
		var r []string
		for _, e := range x.Edges {
			r = append(r, c.ids(e, seen)...)
		}
		return r
	case *ssa.Extract:
		if call, ok := x.Tuple.(*ssa.Call); ok {
			if k, _ := c03Creates(&call.Call); k != "" && x.Index == 0 {
				return []string{c03id(call, 0)}
			}
			if t := call.Call.StaticCallee(); t != nil && c.maker[t][x.Index] != "" {
				return []string{c03id(call, x.Index)}
			}
		}
	case *ssa.Call:
		if k, _ := c03Creates(&x.Call); k != "" {
			return []string{c03id(x, 0)}
		}
		if calleeName(&x.Call) == "io.MultiWriter" {
			var r []string
			for _, a := range variadicElems(x.Call.Args[0]) {
				r = append(r, c.ids(a, seen)...)
			}
			return r
		}
		if t := x.Call.StaticCallee(); t != nil && c.maker[t][0] != "" && t.Signature.Results().Len() == 1 {
			return []string{c03id(x, 0)}
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			switch a := x.X.(type) {
			case *ssa.FieldAddr:
				return []string{"field " + fieldKey(a)}
			case *ssa.Alloc, *ssa.FreeVar:
				return c.addrIds(a, seen)
			}
		}
	case *ssa.Parameter:
		return []string{"param " + x.Name()}
	case *ssa.FreeVar:
		if b := freeVarBinding(x); b != nil {
			return c.ids(b, seen)
		}
	}
	return nil
}

func (c *c03) addrIds(a ssa.Value, seen map[ssa.Value]bool) []string {
	if seen[a] {
		return nil
	}
	seen[a] = true
	var r []string
	if fv, ok := a.(*ssa.FreeVar); ok {
		if b := freeVarBinding(fv); b != nil {
			return c.addrIds(b, seen)
		}
		return nil
	}
	if refs := a.Referrers(); refs != nil {
		for _, u := range *refs {
			if st, ok := u.(*ssa.Store); ok && st.Addr == a {
				r = append(r, c.ids(st.Val, seen)...)
			}
		}
	}
	return r
}

func c03id(call ssa.Instruction, idx int) string {
	f := call.Parent()
	for _, b := range f.Blocks {
		for k, i := range b.Instrs {
			if i == call {
				return fmt.Sprintf("%p.%d.%d.%d", f, b.Index, k, idx)
			}
		}
	}
	return ""
}

func fieldKey(fa *ssa.FieldAddr) string {
	t := deref(fa.X.Type())
	return t.String() + "." + fieldName(fa.X.Type(), fa.Field)
}

// values of the elements of a variadic argument slice assembled at the call
func variadicElems(v ssa.Value) []ssa.Value {
	sl, ok := v.(*ssa.Slice)
	if !ok {
		return nil
	}
	var r []ssa.Value
	if refs := sl.X.Referrers(); refs != nil {
		for _, u := range *refs {
			if ia, ok := u.(*ssa.IndexAddr); ok {
				for _, uu := range *ia.Referrers() {
					if st, ok := uu.(*ssa.Store); ok && st.Addr == ssa.Value(ia) {
						r = append(r, st.Val)
					}
				}
			}
		}
	}
	return r
}

type c03res struct {
	id, kind string
	at       ssa.Instruction
	below    []string
}

func (c *c03) resources(f *ssa.Function) []c03res {
	var res []c03res
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			call, ok := i.(*ssa.Call)
			if !ok {
				continue
			}
			if k, below := c03Creates(&call.Call); k != "" {
				r := c03res{id: c03id(call, 0), kind: k, at: call}
				if below != nil {
					r.below = c.ids(below, map[ssa.Value]bool{})
				}
				res = append(res, r)
			} else if t := call.Call.StaticCallee(); t != nil {
				for idx, k := range c.maker[t] {
					res = append(res, c03res{id: c03id(call, idx), kind: k, at: call})
				}
			}
		}
	}
	return res
}

func runC03(w *World, r *Report) {
	c := &c03{w: w, r: r, maker: map[*ssa.Function]map[int]string{}, fields: map[string]string{}, under: map[string]string{}}
	r.rule("truncate", "files opened for writing are truncated to the new content", 4)
	r.rule("finish", "on every path reporting success, writers are finished inner before outer after the last write, and the file is closed last", 5)
	r.rule("compression", "the file name suffixes written compressed are the ones read compressed", 1)
	r.assume("a file handed to io.MultiWriter as a log destination of the process, which exits afterwards, needs no close")

	// makers
	for ch := true; ch; {
		ch = false
		for _, f := range w.Funcs {
			for _, b := range f.Blocks {
				rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
				if !ok {
					continue
				}
				for k, v := range rt.Results {
					if c.maker[f][k] != "" || !c03IsWriterT(v.Type()) {
						continue
					}
					for _, id := range c.ids(v, map[ssa.Value]bool{}) {
						for _, x := range c.resources(f) {
							if x.id == id {
								if c.maker[f] == nil {
									c.maker[f] = map[int]string{}
								}
								c.maker[f][k] = x.kind
								ch = true
							}
						}
					}
				}
			}
		}
	}
	// fields holding writers
	for _, f := range w.Funcs {
		rs := c.resources(f)
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				st, ok := i.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || !c03IsWriterT(st.Val.Type()) {
					continue
				}
				for _, id := range c.ids(st.Val, map[ssa.Value]bool{}) {
					for _, x := range rs {
						if x.id == id {
							c.fields[fieldKey(fa)] = x.kind
							for _, u := range x.below {
								c.under["field "+fieldKey(fa)] = u
							}
						}
					}
				}
			}
		}
	}
	// below links expressed by creating call ids -> field keys
	c.fieldBelow()
	c.fins = map[*ssa.Function]map[int]bool{}
	for n := 0; n < 4; n++ {
		for _, f := range w.Funcs {
			for k, p := range f.Params {
				if c03IsWriterT(p.Type()) && len(f.Blocks) > 0 && c.finishesParam(f, "param "+p.Name()) {
					if c.fins[f] == nil {
						c.fins[f] = map[int]bool{}
					}
					c.fins[f][k] = true
				}
			}
		}
	}

	for _, f := range w.Funcs {
		for _, x := range c.resources(f) {
			call := x.at.(*ssa.Call)
			if calleeName(&call.Call) == "os.OpenFile" {
				fl, ok := call.Call.Args[1].(*ssa.Const)
				if !ok || fl.Value == nil || fl.Value.Kind() != constant.Int {
					r.undecided("%s opens a file with flags that are not constant", fname(f))
				} else {
					r.ob("truncate", "%s opens with flags %#x", fname(f), fl.Int64())
					const trunc, excl, app = 0x200, 0x80, 0x400
					if fl.Int64()&trunc == 0 && fl.Int64()&excl == 0 {
						r.bad("truncate", fname(f), w.ipos(x.at), "%s opens an output file without truncating it: bytes of a longer existing file survive", fname(f))
					}
				}
			} else if x.kind == kFile {
				r.ob("truncate", "%s creates its output with %s", fname(f), calleeName(&call.Call))
			}
		}
	}
	for _, f := range w.Funcs {
		c.check(f)
	}
	c.fieldsClosed()
	c.compression()
}

func (c *c03) fieldBelow() {
	// a writer field created on top of a value that is itself kept in a field
	for k, u := range c.under {
		if strings.HasPrefix(u, "field ") {
			continue
		}
		for _, f := range c.w.Funcs {
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					if st, ok := i.(*ssa.Store); ok {
						if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
							for _, id := range c.ids(st.Val, map[ssa.Value]bool{}) {
								if id == u {
									c.under[k] = "field " + fieldKey(fa)
								}
							}
						}
					}
				}
			}
		}
	}
}

// events of an instruction: finished ids, written ids
func (c *c03) evs(i ssa.Instruction) (fin, wr []string) {
	call, ok := i.(ssa.CallInstruction)
	if !ok {
		return nil, nil
	}
	cc := call.Common()
	if _, isDefer := i.(*ssa.Defer); isDefer {
		return nil, nil
	}
	return c.callEvs(cc)
}

func (c *c03) callEvs(cc *ssa.CallCommon) (fin, wr []string) {
	if k, obj := c03Finish(cc); k != "" {
		return c.ids(obj, map[ssa.Value]bool{}), nil
	}
	if k, _ := c03Creates(cc); k != "" {
		return nil, nil
	}
	if _, ok := cc.Value.(*ssa.Builtin); ok {
		return nil, nil
	}
	if strings.HasPrefix(calleeName(cc), "io.MultiWriter") {
		return nil, nil
	}
	t := cc.StaticCallee()
	if t != nil {
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
			// a literal called (or deferred): its body
			fn := mc.Fn.(*ssa.Function)
			for _, b := range fn.Blocks {
				for _, i := range b.Instrs {
					if call, ok := i.(ssa.CallInstruction); ok {
						f2, w2 := c.callEvs(call.Common())
						fin, wr = append(fin, f2...), append(wr, w2...)
					}
				}
			}
			return
		}
	}
	for k, a := range cc.Args {
		if !c03IsWriterT(a.Type()) {
			continue
		}
		ids := c.ids(a, map[ssa.Value]bool{})
		if t != nil && c.fins[t][k] {
			fin = append(fin, ids...)
		} else {
			wr = append(wr, ids...)
		}
	}
	if cc.IsInvoke() && c03IsWriterT(cc.Value.Type()) {
		wr = append(wr, c.ids(cc.Value, map[ssa.Value]bool{})...)
	}
	return
}

func (c *c03) successReturns(f *ssa.Function) []*ssa.Return {
	var rs []*ssa.Return
	for _, b := range f.Blocks {
		if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && !mayFail(rt) {
			rs = append(rs, rt)
		}
	}
	return rs
}

// does f finish the writer it is given as parameter on every successful path?
func (c *c03) finishesParam(f *ssa.Function, id string) bool {
	rs := c.successReturns(f)
	if len(rs) == 0 {
		return false
	}
	m := mustFlowFull(f, func(i ssa.Instruction) []string {
		fin, _ := c.evs(i)
		if contains(fin, id) {
			return []string{"fin"}
		}
		if d, ok := i.(*ssa.Defer); ok {
			if fin, _ := c.callEvs(&d.Call); contains(fin, id) {
				return []string{"def"}
			}
		}
		return nil
	}, func(i ssa.Instruction) []string {
		_, wr := c.evs(i)
		if contains(wr, id) {
			return []string{"fin"}
		}
		return nil
	}, nil)
	for _, rt := range rs {
		if m.in[rt.Block()] == nil {
			continue
		}
		s := m.at(rt)
		if !s["fin"] && !s["def"] {
			return false
		}
	}
	return true
}

func (c *c03) check(f *ssa.Function) {
	w, r := c.w, c.r
	rs := c.resources(f)
	byID := map[string]c03res{}
	for _, x := range rs {
		byID[x.id] = x
	}
	hasFile := false
	for _, x := range rs {
		if x.kind == kFile {
			hasFile = true
		}
	}
	if !hasFile {
		// writers on top of something of the caller must still be finished, unless handed on
		if len(rs) == 0 {
			return
		}
	}
	// handed on: returned, stored in a field, or kept as log destination
	escaped := map[string]bool{}
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			switch i := i.(type) {
			case *ssa.Store:
				if _, ok := i.Addr.(*ssa.FieldAddr); ok && c03IsWriterT(i.Val.Type()) {
					for _, id := range c.ids(i.Val, map[ssa.Value]bool{}) {
						escaped[id] = true
					}
				}
			case *ssa.Return:
				for _, v := range i.Results {
					if c03IsWriterT(v.Type()) {
						for _, id := range c.ids(v, map[ssa.Value]bool{}) {
							escaped[id] = true
						}
					}
				}
			case *ssa.Call:
				if calleeName(&i.Call) == "io.MultiWriter" && f.Name() == "main" {
					for _, a := range variadicElems(i.Call.Args[0]) {
						for _, id := range c.ids(a, map[ssa.Value]bool{}) {
							if byID[id].kind == kFile {
								escaped[id] = true
							}
						}
					}
				}
			}
		}
	}
	owned := map[string]c03res{}
	for id, x := range byID {
		if !escaped[id] {
			owned[id] = x
		}
	}
	if len(owned) == 0 {
		return
	}
	belowOf := func(id string) []string { return byID[id].below }
	inner := func(id string) []string { // resources layered on top of id
		var t []string
		for _, x := range rs {
			if contains(x.below, id) {
				t = append(t, x.id)
			}
		}
		return t
	}
	var allBelow func(id string, seen map[string]bool)
	allBelow = func(id string, seen map[string]bool) {
		for _, b := range belowOf(id) {
			if !seen[b] {
				seen[b] = true
				allBelow(b, seen)
			}
		}
	}
	// fact ok:id = not created on this path, or finished since the last write; d:id = a deferred finish is pending
	initial := map[string]bool{}
	for id := range owned {
		initial["ok:"+id] = true
		initial["d:"+id] = true
	}
	created := map[ssa.Instruction][]string{}
	for id, x := range owned {
		created[x.at] = append(created[x.at], id)
	}
	first := f.Blocks[0].Instrs[0]
	gen := func(i ssa.Instruction) []string {
		var g []string
		if i == first {
			for k := range initial {
				g = append(g, k)
			}
			if len(created[i]) > 0 {
				for _, id := range created[i] {
					g = removeS(removeS(g, "ok:"+id), "d:"+id)
				}
			}
		}
		fin, _ := c.evs(i)
		for _, id := range fin {
			g = append(g, "ok:"+id)
			if owned[id].kind == kFile {
				g = append(g, "c:"+id) // certainly closed
			}
		}
		if d, ok := i.(*ssa.Defer); ok {
			fin, _ := c.callEvs(&d.Call)
			for _, id := range fin {
				g = append(g, "d:"+id)
			}
		}
		return g
	}
	kill := func(i ssa.Instruction) []string {
		var k []string
		for _, id := range created[i] {
			k = append(k, "ok:"+id, "d:"+id)
		}
		fin, wr := c.evs(i)
		for _, id := range wr {
			seen := map[string]bool{id: true}
			allBelow(id, seen)
			for x := range seen {
				k = append(k, "ok:"+x)
			}
		}
		for _, id := range fin {
			if owned[id].kind == kFile {
				continue
			}
			seen := map[string]bool{}
			allBelow(id, seen) // finishing writes to the layers below
			for x := range seen {
				k = append(k, "ok:"+x)
			}
		}
		return k
	}
	// creation fails: the resource does not exist on the error edge
	edge := func(from *ssa.BasicBlock, k int) []string {
		iff, ok := from.Instrs[len(from.Instrs)-1].(*ssa.If)
		if !ok {
			return nil
		}
		bo, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			return nil
		}
		var g []string
		for id, x := range owned {
			call := x.at.(*ssa.Call)
			for _, u := range *call.Referrers() {
				ex, ok := u.(*ssa.Extract)
				if !ok || !isErrT(ex.Type()) {
					continue
				}
				if (bo.X == ssa.Value(ex) || bo.Y == ssa.Value(ex)) && (bo.Op == token.NEQ && k == 0 || bo.Op == token.EQL && k == 1) {
					g = append(g, "ok:"+id, "d:"+id)
				}
			}
		}
		return g
	}
	m := mustFlowFull(f, gen, kill, edge)
	names := map[string]string{}
	for id, x := range owned {
		names[id] = x.kind
	}
	for id, x := range owned {
		r.ob("finish", "%s owns a %s created at %s", fname(f), x.kind, w.ipos(x.at))
		_ = id
	}
	var defers []*ssa.Defer
	for _, b := range f.DomPreorder() {
		for _, i := range b.Instrs {
			if d, ok := i.(*ssa.Defer); ok {
				defers = append(defers, d)
			}
		}
	}
	reported := map[string]bool{}
	late := func(file, id string, at ssa.Instruction, s map[string]bool) {
		if s["c:"+file] && !reported["late"] {
			reported["late"] = true
			r.bad("finish", fname(f)+"|late", w.ipos(at), "%s finishes the %s created at %s only after the file below it has been closed", fname(f), byID[id].kind, w.ipos(byID[id].at))
		}
	}
	for _, b := range f.Blocks {
		if m.in[b] == nil {
			continue
		}
		for _, i := range b.Instrs {
			fin, wr := c.evs(i)
			if len(fin)+len(wr) == 0 {
				continue
			}
			s := m.at(i)
			for _, id := range append(fin, wr...) {
				if owned[id].kind == kFile || contains(fin, id) && s["ok:"+id] {
					continue
				}
				seen := map[string]bool{}
				allBelow(id, seen)
				for x := range seen {
					late(x, id, i, s)
				}
			}
		}
	}
	for _, rt := range c.successReturns(f) {
		if m.in[rt.Block()] == nil {
			continue
		}
		s := m.at(rt)
		// deferred calls run last to first
		for k := len(defers) - 1; k >= 0; k-- {
			fin, wr := c.callEvs(&defers[k].Call)
			for _, id := range wr {
				seen := map[string]bool{id: true}
				allBelow(id, seen)
				for x := range seen {
					delete(s, "ok:"+x)
				}
			}
			for _, id := range fin {
				if !s["d:"+id] {
					continue
				}
				was := s["ok:"+id]
				if owned[id].kind != kFile && !was {
					seen := map[string]bool{}
					allBelow(id, seen)
					for x := range seen {
						late(x, id, defers[k], s)
						delete(s, "ok:"+x)
					}
				}
				s["ok:"+id] = true
			}
		}
		var miss []string
		for id, x := range owned {
			if !s["ok:"+id] {
				why := "is not finished"
				if x.kind == kFile {
					why = "is not closed"
					if len(inner(id)) > 0 {
						why = "is not closed after its writers were finished"
					}
				}
				miss = append(miss, fmt.Sprintf("the %s created at %s %s", x.kind, w.ipos(x.at), why))
			}
		}
		sort.Strings(miss)
		for _, ms := range miss {
			kind := strings.Fields(ms)[1]
			if !reported[kind] {
				reported[kind] = true
				r.bad("finish", fname(f)+"|"+kind, w.ipos(rt), "%s can report success although %s", fname(f), ms)
			}
		}
	}
}

func removeS(a []string, x string) []string {
	var r []string
	for _, y := range a {
		if y != x {
			r = append(r, y)
		}
	}
	return r
}

// writers kept in fields must be finished in order in some function, which is called
func (c *c03) fieldsClosed() {
	w, r := c.w, c.r
	var keys []string
	for k := range c.fields {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		id := "field " + k
		kind := c.fields[k]
		done := false
		for _, f := range w.Funcs {
			if c.finishesParam(f, id) && c.called(f) {
				done = true
				// order within that function
				if u := c.under[id]; u != "" {
					m := mustFlow(f, func(i ssa.Instruction) []string {
						if fin, _ := c.evs(i); contains(fin, id) {
							return []string{"inner"}
						}
						return nil
					})
					for _, b := range f.Blocks {
						for _, i := range b.Instrs {
							if fin, _ := c.evs(i); contains(fin, u) && !m.at(i)["inner"] {
								r.bad("finish", fname(f)+"|order", w.ipos(i), "%s closes the file before finishing the %s on top of it", fname(f), kind)
							}
						}
					}
				}
			}
		}
		r.ob("finish", "%s %s is finished: %v", kind, k, done)
		if !done {
			r.bad("finish", "field|"+k, "-", "the %s kept in %s is not finished on every successful path of any function that is called", kind, k)
		}
	}
}

func (c *c03) called(f *ssa.Function) bool {
	for _, g := range c.w.Funcs {
		for _, b := range g.Blocks {
			for _, i := range b.Instrs {
				if call, ok := i.(ssa.CallInstruction); ok {
					for _, t := range c.w.targets(call) {
						if t == f {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

// suffixes guarding gzip readers and writers
func (c *c03) compression() {
	w, r := c.w, c.r
	sets := map[string]map[string]bool{"reader": {}, "writer": {}}
	where := map[string]string{}
	for _, f := range w.Funcs {
		uses := ""
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if call, ok := i.(*ssa.Call); ok {
					switch calleeName(&call.Call) {
					case "compress/gzip.NewReader":
						uses = "reader"
					case "compress/gzip.NewWriter", "compress/gzip.NewWriterLevel":
						uses = "writer"
					}
				}
			}
		}
		if uses == "" {
			continue
		}
		where[uses] = w.pos(f.Pos())
		for s := range suffixConsts(w, f) {
			if strings.Contains(s, "gz") {
				sets[uses][s] = true
			}
		}
	}
	if len(sets["reader"]) == 0 || len(sets["writer"]) == 0 {
		r.undecided("suffixes selecting compression not recognised")
		r.ob("compression", "not recognised")
		return
	}
	r.ob("compression", "reader %v writer %v", keysOf(sets["reader"]), keysOf(sets["writer"]))
	if !sameSet(sets["reader"], sets["writer"]) {
		r.bad("compression", "suffixes", where["writer"], "file names ending in %v are written compressed, but names ending in %v are read compressed", keysOf(sets["writer"]), keysOf(sets["reader"]))
	}
}

func keysOf(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// string constants that values are compared with in f and the helpers it calls directly
func suffixConsts(w *World, f *ssa.Function) map[string]bool {
	res := map[string]bool{}
	var visit func(f *ssa.Function, d int)
	visit = func(f *ssa.Function, d int) {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				switch i := i.(type) {
				case *ssa.BinOp:
					if i.Op == token.EQL || i.Op == token.NEQ {
						for _, o := range []ssa.Value{i.X, i.Y} {
							if k, ok := o.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
								res[strings.TrimPrefix(constant.StringVal(k.Value), ".")] = true
							}
						}
					}
				case *ssa.Call:
					if calleeName(&i.Call) == "strings.HasSuffix" {
						if k, ok := i.Call.Args[1].(*ssa.Const); ok {
							res[strings.TrimPrefix(constant.StringVal(k.Value), ".")] = true
						}
					}
					if t := i.Call.StaticCallee(); t != nil && d == 0 && w.inMod[t] && t.Signature.Results().Len() == 1 && t.Signature.Results().At(0).Type().String() == "bool" {
						visit(t, d+1)
					}
				}
			}
		}
	}
	visit(f, 0)
	return res
}

func init() {
	register("C03", "typestate analysis of output files: every file opened for writing is truncated; on every path reporting success each buffering or compressing writer is finished after its last write, inner before outer, and the file closed after that, following writers through variables, interfaces, fields, helper functions and deferred calls.", runC03)
}
