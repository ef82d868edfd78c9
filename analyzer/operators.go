package main

// Model of the operators: which types there are, how they are registered, constructed and decoded.

import (
	"go/constant"
	"go/token"
	"go/types"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type opType struct {
	named   *types.Named
	st      *types.Struct
	unary   bool            // embeds the base type of unary operators
	factory []*ssa.Function // registered factories
	regAt   []ssa.Instruction
	ctors   []*ssa.Function // functions that create one
	decode  *ssa.Function   // UnmarshalJSON
	apply   *ssa.Function
	make    *ssa.Function // MakePromises declared on the type itself
}

func (o *opType) name() string {
	return strings.TrimPrefix(o.named.Obj().Pkg().Path(), Mod+"/internal/") + "." + o.named.Obj().Name()
}

type opField struct {
	path   string // Go path from the operator, e.g. .OpUnaryBase.OpBase.Type
	json   string // name, "" if not decoded
	tagged bool
	opts   string
	v      *types.Var
	embed  bool
}

// all fields including those of embedded structs
func flatFields(st *types.Struct, prefix string) (res []opField) {
	for i := 0; i < st.NumFields(); i++ {
		v := st.Field(i)
		tag, has := reflect.StructTag(st.Tag(i)).Lookup("json")
		name, opts := tag, ""
		if k := strings.Index(tag, ","); k >= 0 {
			name, opts = tag[:k], tag[k+1:]
		}
		if v.Embedded() && !has {
			if s, ok := deref(v.Type()).Underlying().(*types.Struct); ok {
				res = append(res, opField{path: prefix + "." + v.Name(), v: v, embed: true})
				res = append(res, flatFields(s, prefix+"."+v.Name())...)
				continue
			}
		}
		f := opField{path: prefix + "." + v.Name(), v: v, tagged: has && name != "", opts: opts}
		switch {
		case name == "-" && opts == "" && has:
		case !v.Exported():
		case name != "":
			f.json = name
		default:
			f.json = v.Name()
		}
		res = append(res, f)
	}
	return
}

func (w *World) opInterface() *types.Interface {
	t := w.typ("internal/ops", "Operator")
	if t == nil {
		return nil
	}
	i, _ := t.Underlying().(*types.Interface)
	return i
}

// functions a function value may be, statically
func funcsOf(v ssa.Value) []*ssa.Function {
	switch x := v.(type) {
	case *ssa.Function:
		return []*ssa.Function{x}
	case *ssa.MakeClosure:
		return []*ssa.Function{x.Fn.(*ssa.Function)}
	case *ssa.ChangeType:
		return funcsOf(x.X)
	case *ssa.MakeInterface:
		return funcsOf(x.X)
	case *ssa.Phi:
		var r []*ssa.Function
		for _, e := range x.Edges {
			r = append(r, funcsOf(e)...)
		}
		return r
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if s := singleStore(x.X); s != nil {
				return funcsOf(s)
			}
		}
	}
	return nil
}

func (w *World) operators() []*opType {
	if w.ops != nil {
		return w.ops
	}
	iface := w.opInterface()
	if iface == nil {
		return nil
	}
	byNamed := map[*types.TypeName]*opType{}
	for _, p := range w.Pkgs {
		sc := p.Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			named, ok := tn.Type().(*types.Named)
			if !ok {
				continue
			}
			st, ok := named.Underlying().(*types.Struct)
			if !ok || !types.Implements(types.NewPointer(named), iface) {
				continue
			}
			o := &opType{named: named, st: st}
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Embedded() && strings.HasSuffix(st.Field(i).Type().String(), "ops.OpUnaryBase") {
					o.unary = true
				}
			}
			if tn.Name() == "OpUnaryBase" || tn.Name() == "OpBase" {
				continue
			}
			for i := 0; i < named.NumMethods(); i++ {
				f := w.Prog.FuncValue(named.Method(i))
				switch named.Method(i).Name() {
				case "UnmarshalJSON":
					o.decode = f
				case "Apply":
					o.apply = f
				case "MakePromises":
					o.make = f
				}
			}
			byNamed[tn] = o
			w.ops = append(w.ops, o)
		}
	}
	sort.Slice(w.ops, func(i, j int) bool { return w.ops[i].name() < w.ops[j].name() })
	find := func(t types.Type) *opType {
		if n, ok := deref(t).(*types.Named); ok {
			return byNamed[n.Obj()]
		}
		return nil
	}
	for _, f := range w.Funcs {
		// constructors: allocate an operator and return it
		if f.Signature.Results().Len() > 0 {
			if o := find(f.Signature.Results().At(0).Type()); o != nil {
				if _, isPtr := f.Signature.Results().At(0).Type().(*types.Pointer); isPtr && f.Parent() == nil {
					o.ctors = append(o.ctors, f)
				}
			}
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				ci, ok := i.(ssa.CallInstruction)
				if !ok || len(ci.Common().Args) != 1 {
					continue
				}
				callee := ci.Common().StaticCallee()
				if callee == nil || !w.inMod[callee] || callee.Signature.Params().Len() != 1 {
					continue
				}
				sig, ok := callee.Signature.Params().At(0).Type().Underlying().(*types.Signature)
				if !ok || sig.Params().Len() != 0 || sig.Results().Len() != 1 || !types.Identical(sig.Results().At(0).Type().Underlying(), iface) {
					continue
				}
				for _, ff := range funcsOf(ci.Common().Args[0]) {
					if o := find(w.factoryType(ff, 0)); o != nil {
						o.factory = append(o.factory, ff)
						o.regAt = append(o.regAt, i)
					}
				}
			}
		}
	}
	return w.ops
}

// dynamic type of the operator a factory returns
func (w *World) factoryType(f *ssa.Function, d int) types.Type {
	for _, b := range f.Blocks {
		if len(b.Instrs) == 0 {
			continue
		}
		rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || len(rt.Results) == 0 {
			continue
		}
		switch x := rt.Results[0].(type) {
		case *ssa.MakeInterface:
			return x.X.Type()
		case *ssa.ChangeInterface:
		case *ssa.Call:
			if t := x.Call.StaticCallee(); t != nil && d < 4 {
				return w.factoryType(t, d+1)
			}
		}
	}
	return types.Typ[types.Invalid]
}

// ---- symbolic construction

type cval struct {
	v   ssa.Value
	env map[*ssa.Parameter]cval
}

func (c cval) konst() (constant.Value, bool) {
	v := c.strip().v
	if k, ok := v.(*ssa.Const); ok {
		if k.Value == nil {
			return nil, true
		}
		return k.Value, true
	}
	return nil, false
}

func (c cval) strip() cval {
	for d := 0; d < 20; d++ {
		switch x := c.v.(type) {
		case *ssa.Parameter:
			if r, ok := c.env[x]; ok {
				c = r
				continue
			}
		case *ssa.Convert:
			c.v = x.X
			continue
		case *ssa.ChangeType:
			c.v = x.X
			continue
		case *ssa.UnOp:
			if x.Op == token.MUL {
				if s := singleStore(x.X); s != nil {
					c.v = s
					continue
				}
			}
		}
		break
	}
	return c
}

type object struct {
	root   ssa.Value
	fields map[string][]cval // path -> values stored, in program order
}

// the object the k-th result of f points to, with the values of its fields; nil if not a single freshly built object
func (w *World) construct(f *ssa.Function, env map[*ssa.Parameter]cval, d int) *object {
	if d > 6 {
		return nil
	}
	var res *object
	for _, b := range f.Blocks {
		if len(b.Instrs) == 0 {
			continue
		}
		rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || len(rt.Results) == 0 {
			continue
		}
		if res != nil {
			return nil
		}
		res = w.objectOf(cval{retVal(rt, 0), env}, d)
		if res == nil {
			return nil
		}
	}
	return res
}

func (w *World) objectOf(c cval, d int) *object {
	c = c.strip()
	switch x := c.v.(type) {
	case *ssa.MakeInterface:
		return w.objectOf(cval{x.X, c.env}, d)
	case *ssa.Call:
		t := x.Call.StaticCallee()
		if t == nil || !w.inMod[t] {
			return nil
		}
		env := map[*ssa.Parameter]cval{}
		for _, p := range t.Params {
			if a := argFor(p, t, x); a != nil {
				env[p] = cval{a, c.env}
			}
		}
		o := w.construct(t, env, d+1)
		if o != nil {
			// further assignments by the caller
			w.stores(x, "", c.env, o.fields, d)
		}
		return o
	case *ssa.Alloc:
		o := &object{root: x, fields: map[string][]cval{}}
		w.stores(x, "", c.env, o.fields, d)
		return o
	}
	return nil
}

// values stored to the fields of the object at address v
func (w *World) stores(v ssa.Value, path string, env map[*ssa.Parameter]cval, out map[string][]cval, d int) {
	refs := v.Referrers()
	if refs == nil || d > 8 {
		return
	}
	for _, r := range *refs {
		switch r := r.(type) {
		case *ssa.FieldAddr:
			if r.X == v {
				w.stores(r, path+"."+fieldName(r.X.Type(), r.Field), env, out, d)
			}
		case *ssa.Store:
			if r.Addr != v {
				continue
			}
			if u, ok := r.Val.(*ssa.UnOp); ok && u.Op == token.MUL {
				if _, isS := deref(u.X.Type()).Underlying().(*types.Struct); isS {
					if al, ok := u.X.(*ssa.Alloc); ok {
						w.stores(al, path, env, out, d+1)
						continue
					}
				}
			}
			if cl, ok := r.Val.(*ssa.Call); ok {
				if t := cl.Call.StaticCallee(); t != nil && w.inMod[t] {
					if _, isS := cl.Type().Underlying().(*types.Struct); isS {
						e2 := map[*ssa.Parameter]cval{}
						for _, p := range t.Params {
							if a := argFor(p, t, cl); a != nil {
								e2[p] = cval{a, env}
							}
						}
						for _, b := range t.Blocks {
							if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
								if u, ok := rt.Results[0].(*ssa.UnOp); ok && u.Op == token.MUL {
									w.stores(u.X, path, e2, out, d+1)
								}
							}
						}
						continue
					}
				}
			}
			out[path] = append(out[path], cval{r.Val, env})
		}
	}
}

// is v the method Apply bound to the object at obj?
func boundTo(v ssa.Value, m *ssa.Function, obj ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.ChangeType:
		return boundTo(x.X, m, obj)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if s := singleStore(x.X); s != nil {
				return boundTo(s, m, obj)
			}
		}
	case *ssa.MakeClosure:
		fn := x.Fn.(*ssa.Function)
		if strings.HasSuffix(fn.Name(), "$bound") {
			return fn.Object() == m.Object() && len(x.Bindings) == 1 && sameObj(x.Bindings[0], obj)
		}
		// func(f, c) { return op.Apply(f, c) }
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				if ci, ok := i.(ssa.CallInstruction); ok && ci.Common().StaticCallee() == m {
					recv := ci.Common().Args[0]
					if u, ok := recv.(*ssa.UnOp); ok && u.Op == token.MUL {
						recv = u.X
					}
					if fv, ok := recv.(*ssa.FreeVar); ok {
						for k, q := range fn.FreeVars {
							if q == fv {
								bnd := x.Bindings[k]
								if sameObj(bnd, obj) {
									return true
								}
								if s := singleStore(bnd); s != nil && sameObj(s, obj) {
									return true
								}
							}
						}
					}
				}
			}
		}
	}
	return false
}

func sameObj(a, b ssa.Value) bool {
	a, b = cval{v: a}.strip().v, cval{v: b}.strip().v
	return a == b
}
