package main

// C05: every operator can be submitted by its JSON type and behaves as submitted.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type c05 struct {
	w *World
	r *Report
}

func runC05(w *World, r *Report) {
	r.rule("registered", "every operator type is registered by exactly one factory, under a type name no other operator has", 20)
	r.rule("constructors", "every constructor sets the registered type name and binds the processing method to the new object", 20)
	r.rule("tags", "the JSON names of an operator's parameters are present and pairwise distinct", 20)
	r.rule("decode", "decoding starts from the registered defaults, takes over every decoded parameter and binds the processing method to the decoded object", 20)
	r.rule("dispatch", "operators are created by the factory registered for the submitted type name; an unknown type name is an error", 1)
	c := &c05{w, r}
	ops := w.operators()
	if len(ops) == 0 {
		r.bad("coverage", "operators", "-", "no operator types found")
		return
	}
	types_ := map[string]*opType{}
	for _, o := range ops {
		r.ob("registered", "%s", o.name())
		if len(o.factory) == 0 {
			r.bad("registered", o.name()+"|none", w.pos(o.named.Obj().Pos()), "%s is not registered: no job can use it", o.name())
			continue
		}
		if len(o.factory) > 1 {
			r.bad("registered", o.name()+"|several", w.ipos(o.regAt[1]), "%s is registered %d times", o.name(), len(o.factory))
		}
		obj := w.construct(o.factory[0], nil, 0)
		if obj == nil {
			// an object living longer than the call would be shared by all jobs
			if c.global(o.factory[0], 0) {
				r.bad("registered", o.name()+"|shared", w.pos(o.factory[0].Pos()), "the factory of %s returns the same object for every job", o.name())
			} else {
				r.undecided("%s: construction of the default object not recognised", o.name())
			}
			continue
		}
		if par := obj.root.Parent(); par != nil && par.Name() == "init" {
			r.bad("registered", o.name()+"|shared", w.pos(obj.root.Pos()), "the factory of %s returns the same object for every job", o.name())
		}
		name, ok := c.typeName(obj)
		if !ok {
			r.undecided("%s: type name is not a constant", o.name())
			continue
		}
		if name == "" {
			r.bad("registered", o.name()+"|empty", w.pos(o.factory[0].Pos()), "%s is registered under the empty type name", o.name())
		}
		if p := types_[name]; p != nil {
			r.bad("registered", o.name()+"|duplicate", w.ipos(o.regAt[0]), "%s and %s are both registered as %q", p.name(), o.name(), name)
		}
		types_[name] = o
		for _, f := range o.ctors {
			c.ctor(o, f, name)
		}
		c.tags(o)
		c.decoder(o, obj)
	}
	c.dispatch()
}

func (c *c05) global(f *ssa.Function, d int) bool {
	for _, b := range f.Blocks {
		if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(rt.Results) > 0 {
			for _, a := range c.w.effects().resolve(rt.Results[0]) {
				if _, ok := a.Root.(*ssa.Global); ok {
					return true
				}
				if al, ok := a.Root.(*ssa.Alloc); ok && al.Parent() != f && (al.Parent().Name() == "init" || f.Parent() == al.Parent()) {
					return true
				}
			}
		}
	}
	return false
}

func (c *c05) typeName(o *object) (string, bool) {
	n := 0
	var name string
	for p, vs := range o.fields {
		if p == ".Type" || strings.HasSuffix(p, ".OpBase.Type") {
			for _, v := range vs {
				k, ok := v.konst()
				if !ok || k == nil || k.Kind() != constant.String {
					return "", false
				}
				name = constant.StringVal(k)
				n++
			}
		}
	}
	if n == 0 {
		return "", true
	}
	return name, n == 1
}

func (c *c05) ctor(o *opType, f *ssa.Function, name string) {
	obj := c.w.construct(f, nil, 0)
	if obj == nil {
		c.r.undecided("%s: constructor not recognised", fname(f))
		return
	}
	c.r.ob("constructors", "%s builds %q", fname(f), name)
	if n, ok := c.typeName(obj); ok && n != name {
		c.r.bad("constructors", fname(f)+"|type", c.w.pos(f.Pos()), "%s builds an operator of type %q, but %s is registered as %q", fname(f), n, o.name(), name)
	}
	if !o.unary || o.apply == nil {
		return
	}
	// only where the object is built
	if obj.root.Parent() != f {
		return
	}
	bound := false
	for p, vs := range obj.fields {
		if !strings.HasSuffix(p, ".Apply") {
			continue
		}
		last := vs[len(vs)-1]
		if boundTo(last.v, o.apply, obj.root) {
			bound = true
		} else {
			c.r.bad("constructors", fname(f)+"|bound", c.w.pos(last.v.Pos()), "%s binds the processing of the new operator to another object or method", fname(f))
			return
		}
	}
	if !bound {
		c.r.bad("constructors", fname(f)+"|bound", c.w.pos(f.Pos()), "%s does not bind the processing method of the new operator", fname(f))
	}
}

func (c *c05) tags(o *opType) {
	seen := map[string]string{}
	params := map[string]bool{} // fields set from a constructor parameter
	for _, f := range o.ctors {
		if obj := c.w.construct(f, nil, 0); obj != nil {
			for p, vs := range obj.fields {
				for _, v := range vs {
					if _, ok := v.strip().v.(*ssa.Parameter); ok {
						params[p] = true
					}
				}
			}
		}
	}
	raw := map[string]bool{}
	for _, f := range flatFields(o.st, "") {
		if strings.HasSuffix(f.v.Type().String(), "json.RawMessage") {
			raw[f.json] = true
		}
	}
	for _, f := range flatFields(o.st, "") {
		if f.embed {
			continue
		}
		c.r.ob("tags", "%s%s as %q", o.name(), f.path, f.json)
		pos := c.w.pos(f.v.Pos())
		if f.json == "" {
			if params[f.path] && plainData(f.v.Type()) {
				c.r.bad("tags", o.name()+f.path+"|hidden", pos, "parameter %s of %s cannot be set by a job", f.path[1:], o.name())
			}
			continue
		}
		k := strings.ToLower(f.json)
		if p, dup := seen[k]; dup {
			c.r.bad("tags", o.name()+f.path+"|duplicate", pos, "parameters %s and %s of %s share the JSON name %q", p[1:], f.path[1:], o.name(), f.json)
		}
		seen[k] = f.path
		for _, opt := range strings.Split(f.opts, ",") {
			if opt == "string" {
				c.r.bad("tags", o.name()+f.path+"|string", pos, "parameter %s of %s is only accepted as a quoted string", f.path[1:], o.name())
			}
		}
	}
}

func plainData(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return true
	case *types.Slice:
		return plainData(u.Elem())
	}
	return false
}

// ---- decoding

func isUnmarshal(c *ssa.CallCommon) bool {
	n := calleeName(c)
	return n == "encoding/json.Unmarshal" || n == "(*encoding/json.Decoder).Decode"
}

// object decoded into by a call, as a pointer value
func decodeTarget(ci ssa.CallInstruction) ssa.Value {
	args := ci.Common().Args
	v := args[len(args)-1]
	for {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
			continue
		case *ssa.ChangeType:
			v = x.X
			continue
		case *ssa.Convert:
			v = x.X
			continue
		}
		break
	}
	return v
}

func (c *c05) decoder(o *opType, def *object) {
	if o.decode == nil {
		// decoded in place, into the object of the factory
		c.r.ob("decode", "%s is decoded in place", o.name())
		return
	}
	f := o.decode
	op := ssa.Value(f.Params[0])
	var leaves []opField
	for _, fl := range flatFields(o.st, "") {
		if !fl.embed && fl.json != "" {
			leaves = append(leaves, fl)
		}
	}
	// decoded objects of the same underlying type
	targets := map[ssa.Value]bool{}
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if ci, ok := i.(ssa.CallInstruction); ok && isUnmarshal(ci.Common()) {
				t := decodeTarget(ci)
				if s, ok := deref(t.Type()).Underlying().(*types.Struct); ok && types.Identical(s, o.st) {
					targets[t] = true
				}
			}
		}
	}
	if len(targets) == 0 {
		c.r.undecided("%s: decoding not recognised", fname(f))
		return
	}
	c.r.ob("decode", "%s takes over %d parameters", fname(f), len(leaves))
	for t := range targets {
		if t != op {
			c.defaults(o, f, t, def)
		}
	}
	// facts: "in:<path>" parameter taken over, "bound"
	fieldsBelow := func(path string) (res []string) {
		for _, l := range leaves {
			if l.path == path || strings.HasPrefix(l.path, path+".") || path == "" {
				res = append(res, "in:"+l.path)
			}
		}
		return
	}
	srcOf := func(v ssa.Value) (ssa.Value, string) {
		for {
			switch x := v.(type) {
			case *ssa.ChangeType:
				v = x.X
				continue
			case *ssa.UnOp:
				if x.Op == token.MUL {
					return rootPath(x.X)
				}
			case *ssa.Field:
				r, p := (ssa.Value)(nil), ""
				if u, ok := x.X.(*ssa.UnOp); ok {
					r, p = rootPath(u.X)
				}
				return r, p + "." + fieldName(x.X.Type(), x.Field)
			}
			return nil, ""
		}
	}
	cross := map[ssa.Instruction]string{}
	gen := func(i ssa.Instruction) (res []string) {
		switch x := i.(type) {
		case *ssa.Store:
			r, p := rootPath(x.Addr)
			if r != op {
				return nil
			}
			if strings.HasSuffix(p, ".Apply") {
				if o.apply != nil && boundTo(x.Val, o.apply, op) {
					return []string{"bound"}
				}
				return nil
			}
			s, sp := srcOf(x.Val)
			if targets[s] {
				if sp == p {
					return fieldsBelow(p)
				}
				cross[i] = fmt.Sprintf("%s of %s is overwritten with the submitted %s", strings.TrimPrefix(p, "."), o.name(), strings.TrimPrefix(sp, "."))
			}
		case ssa.CallInstruction:
			if isUnmarshal(x.Common()) && decodeTarget(x) == op {
				return append(fieldsBelow(""), "bound")
			}
		}
		return nil
	}
	kill := func(i ssa.Instruction) (res []string) {
		st, ok := i.(*ssa.Store)
		if !ok {
			return nil
		}
		r, p := rootPath(st.Addr)
		if r != op || normalises(st, r, p, targets) {
			return nil
		}
		if strings.HasSuffix(p, ".Apply") || p == "" || p == ".OpUnaryBase" {
			res = append(res, "bound")
		}
		return append(res, fieldsBelow(p)...)
	}
	m := mustFlowFull(f, gen, kill, nil)
	raw := map[string]bool{}
	for _, b := range f.Blocks {
		rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || mayFail(rt) {
			continue
		}
		facts := m.at(rt)
		if facts == nil {
			continue
		}
		for _, l := range leaves {
			if facts["in:"+l.path] || raw[l.path] {
				continue
			}
			if l.v.Type().String() == "[]encoding/json.RawMessage" {
				continue // handled element by element, see dispatch
			}
			c.r.bad("decode", o.name()+l.path+"|dropped", c.w.ipos(rt), "decoding %s does not take over the submitted value of %s", o.name(), l.path[1:])
		}
		if o.unary && o.apply != nil && !facts["bound"] {
			c.r.bad("decode", o.name()+"|bound", c.w.ipos(rt), "after decoding, the processing of %s is not bound to the decoded object, so submitted values have no effect", o.name())
		}
	}
	// submitted values replaced by unrelated ones after decoding
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			st, ok := i.(*ssa.Store)
			if !ok {
				continue
			}
			t, p := rootPath(st.Addr)
			if !targets[t] || t == op || normalises(st, t, p, nil) {
				continue
			}
			after := false
			for _, bb := range f.Blocks {
				for _, j := range bb.Instrs {
					if ci, ok := j.(ssa.CallInstruction); ok && isUnmarshal(ci.Common()) && decodeTarget(ci) == t {
						if (bb == b && before(j, i)) || (bb != b && blockReaches(bb, b)) {
							after = true
						}
					}
				}
			}
			if !after {
				continue
			}
			for _, l := range leaves {
				if l.v.Type().String() == "[]encoding/json.RawMessage" {
					continue // handled element by element, see dispatch
				}
				if p == l.path || p == "" || strings.HasPrefix(l.path, p+".") {
					c.r.bad("decode", o.name()+l.path+"|overwritten", c.w.ipos(i), "decoding %s replaces the submitted value of %s", o.name(), l.path[1:])
				}
			}
		}
	}
	for i, msg := range cross {
		c.r.bad("decode", o.name()+"|crossed "+msg, c.w.ipos(i), "decoding %s: %s", o.name(), msg)
	}
}

// is j after i in the same block
func before(i, j ssa.Instruction) bool {
	for _, k := range i.Block().Instrs {
		if k == i {
			return true
		}
		if k == j {
			return false
		}
	}
	return false
}

// a store to root.path that depends on the value already there (clamping, converting units)
func normalises(st *ssa.Store, root ssa.Value, path string, same map[ssa.Value]bool) bool {
	seen := map[ssa.Value]bool{}
	var uses func(v ssa.Value) bool
	uses = func(v ssa.Value) bool {
		if v == nil || seen[v] {
			return false
		}
		seen[v] = true
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
			if r, p := rootPath(u.X); (r == root || same[r]) && (p == path || strings.HasPrefix(p, path+".") || path != "" && strings.HasPrefix(path, p+".")) {
				return path != ""
			}
		}
		i, ok := v.(ssa.Instruction)
		if !ok {
			return false
		}
		for _, o := range i.Operands(nil) {
			if *o != nil && uses(*o) {
				return true
			}
		}
		return false
	}
	if uses(st.Val) {
		return true
	}
	for b := st.Block().Idom(); b != nil; b = b.Idom() {
		if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok && uses(iff.Cond) {
			return true
		}
	}
	return false
}

// base pointer and field path of an address
func rootPath(a ssa.Value) (ssa.Value, string) {
	path := ""
	for {
		switch x := a.(type) {
		case *ssa.FieldAddr:
			path = "." + fieldName(x.X.Type(), x.Field) + path
			a = x.X
			continue
		case *ssa.ChangeType:
			a = x.X
			continue
		}
		return a, path
	}
}

// the decoded object starts out as the object the factory creates
func (c *c05) defaults(o *opType, f *ssa.Function, t ssa.Value, def *object) {
	var init *object
	found := false
	if refs := t.Referrers(); refs != nil {
		for _, r := range *refs {
			st, ok := r.(*ssa.Store)
			if !ok || st.Addr != t {
				continue
			}
			found = true
			v := st.Val
			for {
				if ct, ok := v.(*ssa.ChangeType); ok {
					v = ct.X
					continue
				}
				break
			}
			if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
				x := u.X
				if s, ok := x.(*ssa.UnOp); ok {
					if q := singleStore(s.X); q != nil {
						x = q
					}
				}
				init = c.w.objectOf(cval{v: x}, 0)
			}
		}
	}
	if !found {
		init = &object{root: t, fields: map[string][]cval{}}
		c.w.stores(t, "", nil, init.fields, 0)
		if call, ok := t.(*ssa.Call); ok {
			init = c.w.objectOf(cval{v: call}, 0)
		}
	}
	if init == nil {
		c.r.undecided("%s: initial value of the decoded object not recognised", fname(f))
		return
	}
	for _, l := range flatFields(o.st, "") {
		if l.embed || l.json == "" || strings.HasSuffix(l.path, ".Type") || l.v.Type().String() == "[]encoding/json.RawMessage" {
			continue
		}
		a, oka := defaultOf(def, l.path)
		b, okb := defaultOf(init, l.path)
		if oka && okb && a != b {
			c.r.bad("decode", o.name()+l.path+"|default", c.w.ipos(f.Blocks[0].Instrs[0]), "a job that omits %s of %s gets %s instead of the default %s", l.path[1:], o.name(), b, a)
		} else if !oka || !okb {
			// not constants: must come from the same construction
			c.r.ob("decode", "%s%s has a computed default", o.name(), l.path)
			if oka != okb {
				c.r.bad("decode", o.name()+l.path+"|default", c.w.ipos(f.Blocks[0].Instrs[0]), "a job that omits %s of %s does not get the default of the operator", l.path[1:], o.name())
			}
		}
	}
}

// constant held by a field of a new object
func defaultOf(o *object, path string) (string, bool) {
	vs := o.fields[path]
	if len(vs) == 0 {
		for p := range o.fields {
			if p != "" && strings.HasPrefix(path, p+".") {
				return "", false
			}
		}
		return "zero", true
	}
	k, ok := vs[len(vs)-1].konst()
	if !ok {
		return "", false
	}
	if k == nil || zeroConst(k) {
		return "zero", true
	}
	// compare as the type stored
	if k.Kind() == constant.Int || k.Kind() == constant.Float {
		f, _ := constant.Float64Val(constant.ToFloat(k))
		return fmt.Sprint(float32(f)), true
	}
	return k.ExactString(), true
}

func zeroConst(k constant.Value) bool {
	switch k.Kind() {
	case constant.String:
		return constant.StringVal(k) == ""
	case constant.Bool:
		return !constant.BoolVal(k)
	case constant.Int, constant.Float:
		return constant.Sign(k) == 0
	}
	return false
}

// ---- dispatch on the type name

func (c *c05) dispatch() {
	ft := c.w.typ("internal/ops", "OperatorFactory")
	iface := c.w.opInterface()
	isFactory := func(t types.Type) bool {
		if ft != nil && types.Identical(t, ft) {
			return true
		}
		sig, ok := t.Underlying().(*types.Signature)
		return ok && sig.Params().Len() == 0 && sig.Results().Len() == 1 && types.Identical(sig.Results().At(0).Type().Underlying(), iface)
	}
	for _, f := range c.w.Funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				// stores to the registry: under the name of the operator made by the factory
				if mu, ok := i.(*ssa.MapUpdate); ok && isFactory(mu.Value.Type()) {
					c.r.ob("dispatch", "%s: registry entry", fname(f))
					if !c.keyIsType(mu.Key, mu.Value, 0) {
						c.r.bad("dispatch", fname(f)+"|registry key", c.w.ipos(i), "%s registers a factory under a name that is not the type name of the operators it makes", fname(f))
					}
				}
				ci, ok := i.(*ssa.Call)
				if !ok || ci.Call.StaticCallee() != nil || ci.Call.IsInvoke() || !isFactory(ci.Call.Value.Type()) {
					continue
				}
				v := ci.Call.Value
				var src ssa.Value = v
				if ct, ok := src.(*ssa.ChangeType); ok {
					src = ct.X
				}
				switch s := src.(type) {
				case *ssa.Call:
				case *ssa.Lookup:
				case *ssa.Extract:
					if _, ok := s.Tuple.(*ssa.Lookup); !ok {
						if _, ok := s.Tuple.(*ssa.Call); !ok {
							continue
						}
					}
				default:
					continue // a factory handed in, as when registering it
				}
				c.r.ob("dispatch", "%s: operator created at %s", fname(f), c.w.ipos(ci))
				c.unknownRejected(f, src, ci)
				c.madeDecoded(f, ci)
			}
		}
	}
}

// key is x.GetType() where x is the result of calling value
func (c *c05) keyIsType(key, value ssa.Value, d int) bool {
	key = cval{v: key}.strip().v
	switch x := key.(type) {
	case *ssa.Call:
		if x.Call.IsInvoke() && x.Call.Method.Name() == "GetType" {
			if mk, ok := (cval{v: x.Call.Value}).strip().v.(*ssa.Call); ok {
				return sameObj(mk.Call.Value, value)
			}
			return false
		}
		return true
	}
	return true
}

func (c *c05) unknownRejected(f *ssa.Function, v ssa.Value, call *ssa.Call) {
	if nonNilHere(v, call.Block()) {
		// the other branch has to fail
		for _, u := range condUses(v) {
			for _, iff := range u.ifs {
				k := 1
				if u.op == token.EQL {
					k = 0
				}
				if !onlyFails(iff.Block().Succs[k], iff.Block()) {
					c.r.bad("dispatch", fname(f)+"|unknown", c.w.ipos(iff), "%s: an unknown operator type is not rejected with an error", fname(f))
				}
			}
		}
		return
	}
	if ex, ok := v.(*ssa.Extract); ok {
		// value, ok
		for _, r := range *ex.Tuple.Referrers() {
			if o, is := r.(*ssa.Extract); is && o.Index == 1 {
				for _, rr := range *o.Referrers() {
					iff, cond := rr.(*ssa.If)
					neg := false
					if u, isU := rr.(*ssa.UnOp); isU && u.Op == token.NOT {
						for _, q := range *u.Referrers() {
							if qi, ok := q.(*ssa.If); ok {
								iff, cond, neg = qi, true, true
							}
						}
					}
					if !cond {
						continue
					}
					yes, no := iff.Block().Succs[0], iff.Block().Succs[1]
					if neg {
						yes, no = no, yes
					}
					if yes.Dominates(call.Block()) {
						if !onlyFails(no, iff.Block()) {
							c.r.bad("dispatch", fname(f)+"|unknown", c.w.ipos(iff), "%s: an unknown operator type is not rejected with an error", fname(f))
						}
						return
					}
				}
			}
		}
	}
	c.r.bad("dispatch", fname(f)+"|unchecked", c.w.ipos(call), "%s calls the factory of an operator type that may be unknown", fname(f))
}

// every way from b leads to a failing return, without coming back to from
func onlyFails(b, from *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock) bool
	walk = func(b *ssa.BasicBlock) bool {
		if b == from {
			return false
		}
		if seen[b] {
			return true
		}
		seen[b] = true
		switch t := b.Instrs[len(b.Instrs)-1].(type) {
		case *ssa.Return:
			return mayFail(t)
		case *ssa.Panic:
			return true
		}
		for _, s := range b.Succs {
			if !walk(s) {
				return false
			}
		}
		return true
	}
	return walk(b)
}

// the new operator is decoded from the same message the type name was taken from, and then used
func (c *c05) madeDecoded(f *ssa.Function, call *ssa.Call) {
	flows := map[ssa.Value]bool{call: true}
	for n := 0; n < 6; n++ {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				switch x := i.(type) {
				case *ssa.Phi:
					for _, e := range x.Edges {
						if flows[e] {
							flows[x] = true
						}
					}
				case *ssa.ChangeInterface:
					if flows[x.X] {
						flows[x] = true
					}
				case *ssa.MakeInterface:
					if flows[x.X] {
						flows[x] = true
					}
				case *ssa.TypeAssert:
					if flows[x.X] {
						flows[x] = true
					}
				case *ssa.UnOp:
					if x.Op == token.MUL {
						if s := singleStore(x.X); s != nil && flows[s] {
							flows[x] = true
						}
					}
				}
			}
		}
	}
	decoded, used := false, false
	var data ssa.Value
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			switch x := i.(type) {
			case ssa.CallInstruction:
				if isUnmarshal(x.Common()) {
					if flows[x.Common().Args[len(x.Common().Args)-1]] || flows[decodeTarget(x)] {
						decoded = true
						if len(x.Common().Args) == 2 {
							data = x.Common().Args[0]
						}
					}
					continue
				}
				for _, a := range x.Common().Args {
					if flows[a] {
						used = true
					}
				}
			case *ssa.Store:
				if flows[x.Val] {
					used = true
				}
			case *ssa.Return:
				for _, a := range x.Results {
					if flows[a] {
						used = true
						if len(f.Blocks) > 0 && !decoded {
							decoded = true // decoded by the caller
						}
					}
				}
			}
		}
	}
	if !decoded {
		c.r.bad("dispatch", fname(f)+"|not decoded", c.w.ipos(call), "%s creates an operator but does not decode the submitted values into it", fname(f))
	}
	if !used {
		c.r.bad("dispatch", fname(f)+"|not used", c.w.ipos(call), "%s creates an operator but does not use it", fname(f))
	}
	// the type name used for the lookup is decoded from the same data
	if data == nil {
		return
	}
	var keys []ssa.Value
	switch s := call.Call.Value.(type) {
	case *ssa.Call:
		keys = s.Call.Args
	case *ssa.Lookup:
		keys = []ssa.Value{s.Index}
	}
	for _, k := range keys {
		r, ok := k.(*ssa.UnOp)
		if !ok {
			continue
		}
		root, _ := rootPath(r.X)
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if ci, ok := i.(ssa.CallInstruction); ok && isUnmarshal(ci.Common()) && decodeTarget(ci) == root && len(ci.Common().Args) == 2 {
					if !sameObj(ci.Common().Args[0], data) {
						c.r.bad("dispatch", fname(f)+"|other message", c.w.ipos(ci), "%s takes the operator type from another message than its parameters", fname(f))
					}
				}
			}
		}
	}
}

func init() {
	register("C05", "Enumerates all operator types, their registrations, constructors, struct tags and JSON decoders. Construction is evaluated symbolically to obtain type names and defaults; a must-dataflow over each decoder shows that every parameter is taken over and the processing method is rebound to the decoded object on every successful path", runC05)
}
