package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

// C29: every setting of an operator has its own effect.
//
// Forward slices from every read of a decoded field of an operator, through calls, closures and argument structures,
// decide whether the value ends up in a computation or decision. Settings are followed by name through constructors,
// call arguments and argument structures: two settings of the same type must not change places, and one setting must not
// be given for two different ones.

func init() {
	register("C29", "settings: forward slices from every decoded field of every operator to the computations and decisions it influences; pairing of names at constructors, calls and argument structures shows settings that changed places or stand in for another", runC29)
}

type c29 struct {
	w     *World
	r     *Report
	live  map[ssa.Value]int // 1 busy, 2 dead, 3 live
	liveD map[ssa.Value]int
	data  bool
	reads map[string][]ssa.Instruction // struct type and field -> loads and field extractions
	named map[ssa.Value]string         // values that carry a setting, with its name there
	why   map[ssa.Value]string
	skip  map[*ssa.Function]bool
	pures map[*ssa.Function]bool
}

func runC29(w *World, r *Report) {
	r.rule("effect", "decoded fields of operators that influence the processing", 80)
	r.rule("own", "numeric settings whose value (not only a comparison with a constant) enters a computation", 50)
	r.rule("param", "parameters and argument fields that receive a setting and use it", 60)
	r.rule("construct", "parameters of constructors that end up in the field of the same meaning", 60)
	r.rule("pass", "calls and argument structures that receive settings: none changed places, none given twice", 40)
	r.rule("active", "settings away from the off position that reach code changing the image", 25)
	activeSettings(w, r)
	c := &c29{w: w, r: r, live: map[ssa.Value]int{}, liveD: map[ssa.Value]int{}, reads: map[string][]ssa.Instruction{},
		named: map[ssa.Value]string{}, why: map[ssa.Value]string{}, skip: map[*ssa.Function]bool{}, pures: map[*ssa.Function]bool{}}
	opsOf := map[string]*opType{}
	for _, o := range w.operators() {
		opsOf[o.named.String()] = o
		for _, f := range o.ctors {
			c.skip[f] = true
		}
		if o.decode != nil {
			c.skip[o.decode] = true
		}
	}
	for _, f := range w.Funcs {
		switch f.Name() {
		case "MarshalJSON", "UnmarshalJSON", "String":
			c.skip[f] = true
		}
	}
	// reads of fields
	for _, f := range w.Funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				switch x := i.(type) {
				case *ssa.FieldAddr:
					k := deref(x.X.Type()).String() + "." + fieldName(x.X.Type(), x.Field)
					c.reads[k] = append(c.reads[k], x)
				case *ssa.Field:
					k := x.X.Type().String() + "." + fieldName(x.X.Type(), x.Field)
					c.reads[k] = append(c.reads[k], x)
				}
			}
		}
	}

	for _, o := range w.operators() {
		tags := map[string]string{}
		for _, f := range flatFields(o.st, "") {
			if f.json == "" || f.embed || strings.HasSuffix(f.v.Type().String(), "json.RawMessage") {
				continue // the last is decoded in another step
			}
			if p := tags[f.json]; p != "" && strings.Count(p, ".") == strings.Count(f.path, ".") {
				r.bad("effect", "tag|"+o.name()+"|"+f.json, w.pos(f.v.Pos()), "%s: fields %s and %s have the same JSON name %s, so neither can be set", o.name(), p, f.path, f.json)
			}
			tags[f.json] = f.path
			if strings.HasSuffix(f.path, ".OpBase.Type") {
				continue
			}
			c.setting(o, f)
		}
		c.constructors(o)
	}
	c.spread()
	c.pairs()
	c.localNames()
}

func (c *c29) setting(o *opType, f opField) {
	w, r := c.w, c.r
	name := o.name() + "." + f.v.Name()
	var owner types.Type = o.named
	if k := strings.LastIndex(f.path, "."); k > 0 {
		// in an embedded structure
		p := strings.Split(strings.TrimPrefix(f.path, "."), ".")
		var st types.Type = o.named
		for _, q := range p[:len(p)-1] {
			s := deref(st).Underlying().(*types.Struct)
			for i := 0; i < s.NumFields(); i++ {
				if s.Field(i).Name() == q {
					st = s.Field(i).Type()
				}
			}
		}
		owner = deref(st)
	}
	var uses []ssa.Instruction
	for _, i := range c.reads[owner.String()+"."+f.v.Name()] {
		if !c.skip[i.Parent()] {
			uses = append(uses, i)
		}
	}
	isLive := func(data bool) bool {
		c.data = data
		for _, i := range uses {
			if c.useLive(i) {
				return true
			}
		}
		return false
	}
	if !isLive(false) {
		r.bad("effect", "effect|"+name, w.pos(f.v.Pos()), "setting %s (JSON name %s) has no effect: its value reaches no computation or decision", name, f.json)
		return
	}
	r.ob("effect", "%s", name)
	if b, ok := f.v.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsNumeric != 0 {
		if isLive(true) {
			r.ob("own", "%s", name)
		} else if b.Info()&types.IsFloat != 0 {
			r.bad("own", "own|"+name, w.pos(f.v.Pos()), "setting %s (JSON name %s) is only compared with constants, its value has no effect", name, f.json)
		} else if _, ok := f.v.Type().(*types.Named); !ok && len(c.constsCompared(uses)) < 2 {
			r.bad("own", "own|"+name, w.pos(f.v.Pos()), "setting %s (JSON name %s) is only compared with a constant, its value has no effect", name, f.json)
		}
	}
	// overwritten
	for _, i := range c.reads[owner.String()+"."+f.v.Name()] {
		fa, ok := i.(*ssa.FieldAddr)
		if !ok || c.skip[i.Parent()] {
			continue
		}
		if _, ok := fa.X.(*ssa.Alloc); ok {
			continue // an operator created here
		}
		for _, rf := range *fa.Referrers() {
			st, ok := rf.(*ssa.Store)
			if !ok || st.Addr != ssa.Value(fa) {
				continue
			}
			if _, isC := st.Val.(*ssa.Const); isC && !c.guardedByField(st, fa) && c.onReceiver(fa) {
				r.bad("effect", "overwritten|"+name+"|"+fname(i.Parent()), w.ipos(st), "setting %s is replaced by a constant in %s", name, fname(i.Parent()))
			}
		}
	}
}

func (c *c29) onReceiver(fa *ssa.FieldAddr) bool {
	f := fa.Parent()
	return f.Signature.Recv() != nil && len(f.Params) > 0 && fa.X == ssa.Value(f.Params[0])
}

// is the store only executed after a decision about the same field
func (c *c29) guardedByField(st *ssa.Store, fa *ssa.FieldAddr) bool {
	for x := st.Block(); x != nil; x = x.Idom() {
		if len(x.Preds) != 1 {
			continue
		}
		p := x.Preds[0]
		if iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If); ok && dependsOnField(iff.Cond, fa, 0) {
			return true
		}
	}
	return false
}

func dependsOnField(v ssa.Value, fa *ssa.FieldAddr, d int) bool {
	if d > 8 {
		return false
	}
	if x, ok := v.(*ssa.FieldAddr); ok && x.Field == fa.Field && types.Identical(x.X.Type(), fa.X.Type()) {
		return true
	}
	i, ok := v.(ssa.Instruction)
	if !ok {
		return false
	}
	for _, o := range i.Operands(nil) {
		if *o != nil && dependsOnField(*o, fa, d+1) {
			return true
		}
	}
	return false
}

func (c *c29) constsCompared(uses []ssa.Instruction) map[string]bool {
	res := map[string]bool{}
	for _, i := range uses {
		v, ok := i.(ssa.Value)
		if !ok || v.Referrers() == nil {
			continue
		}
		for _, rf := range *v.Referrers() {
			ld, ok := rf.(*ssa.UnOp)
			if !ok {
				continue
			}
			for _, r2 := range *ld.Referrers() {
				if bo, ok := r2.(*ssa.BinOp); ok {
					for _, o := range []ssa.Value{bo.X, bo.Y} {
						if k, ok := o.(*ssa.Const); ok && k.Value != nil {
							res[k.Value.ExactString()] = true
						}
					}
				}
			}
		}
	}
	return res
}

// ---- forward slices

// does the result of reading a field (address or extraction) have an effect
func (c *c29) useLive(i ssa.Instruction) bool {
	switch x := i.(type) {
	case *ssa.FieldAddr:
		return c.addrLive(x, 0)
	case *ssa.Field:
		return c.valLive(x)
	}
	return false
}

func logging(n string) bool {
	return strings.HasPrefix(n, "fmt.") && n != "fmt.Sscanf" || strings.HasPrefix(n, "log.") || n == "(error).Error" || n == "errors.New"
}

func (c *c29) addrLive(a ssa.Value, d int) bool {
	if d > 12 || a.Referrers() == nil {
		return d > 12
	}
	for _, rf := range *a.Referrers() {
		switch x := rf.(type) {
		case *ssa.UnOp:
			if x.Op == token.MUL && c.valLive(x) {
				return true
			}
		case *ssa.FieldAddr:
			if x.X == a && c.addrLive(x, d+1) {
				return true
			}
		case *ssa.IndexAddr:
			if x.X == a && c.addrLive(x, d+1) {
				return true
			}
		case *ssa.Slice:
			if c.valLive(x) {
				return true
			}
		case *ssa.MakeClosure:
			fn := x.Fn.(*ssa.Function)
			for k, b := range x.Bindings {
				if b == a && k < len(fn.FreeVars) && c.addrLive(fn.FreeVars[k], d+1) {
					return true
				}
			}
		case ssa.CallInstruction:
			if c.argLive(x, a, d) {
				return true
			}
		case *ssa.MakeInterface:
			if c.valLive(x) {
				return true
			}
		case *ssa.Store:
			if x.Val == a {
				return true
			}
		case *ssa.Phi:
			if c.valLive(x) {
				return true
			}
		}
	}
	return false
}

func (c *c29) argLive(ci ssa.CallInstruction, v ssa.Value, d int) bool {
	cm := ci.Common()
	if bt, ok := cm.Value.(*ssa.Builtin); ok {
		switch bt.Name() {
		case "len", "cap", "append", "copy", "min", "max", "complex", "real", "imag":
			if r, ok := ci.(*ssa.Call); ok && bt.Name() != "copy" {
				return c.valLive(r)
			}
		case "print", "println":
			return false
		}
		return true
	}
	ts := c.w.targets(ci)
	if cm.StaticCallee() != nil && !c.w.inMod[cm.StaticCallee()] && len(ts) == 0 {
		n := calleeName(cm)
		if logging(n) {
			if r, ok := ci.(*ssa.Call); ok && strings.HasPrefix(n, "fmt.Sprint") {
				return c.valLive(r)
			}
			return false
		}
		if r, ok := ci.(*ssa.Call); ok && (strings.HasPrefix(n, "math.") || strings.HasPrefix(n, "strings.")) {
			return c.valLive(r)
		}
		return true
	}
	if len(ts) == 0 {
		return true
	}
	for _, t := range ts {
		if len(t.Blocks) == 0 {
			return true
		}
		if cl, ok := ci.(*ssa.Call); ok && c.pure(t) {
			// only the result matters
			if tp, ok := cl.Type().(*types.Tuple); ok {
				used := false
				for _, r2 := range *cl.Referrers() {
					if e, ok := r2.(*ssa.Extract); ok && tp.Len() > e.Index && c.valLive(e) {
						used = true
					}
				}
				if !used {
					continue
				}
			} else if !c.valLive(cl) {
				continue
			}
		}
		for _, p := range t.Params {
			if argFor(p, t, ci) == v {
				if _, isP := v.Type().Underlying().(*types.Pointer); isP {
					if c.valLive(p) || c.addrLive(p, d+1) {
						return true
					}
				} else if c.valLive(p) {
					return true
				}
			}
		}
	}
	if cm.Value == v {
		return true
	}
	return false
}

// does the function only compute its results
func (c *c29) pure(t *ssa.Function) bool {
	if r, ok := c.pures[t]; ok {
		return r
	}
	c.pures[t] = true
	res := t.Signature.Results().Len() > 0
	for a := range c.w.effects().writes[t] {
		switch a.Root.(type) {
		case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap, *ssa.Call:
			if a.Root.Parent() == t {
				continue
			}
		}
		res = false
	}
	for _, b := range t.Blocks {
		for _, i := range b.Instrs {
			switch x := i.(type) {
			case *ssa.Go, *ssa.Defer, *ssa.Send, *ssa.Panic:
				res = false
			case *ssa.Call:
				if _, ok := x.Call.Value.(*ssa.Builtin); ok {
					continue
				}
				g := x.Call.StaticCallee()
				if g == nil {
					res = false
				} else if c.w.inMod[g] {
					res = res && (len(g.Blocks) == 0 || c.pure(g) || g == t)
				} else if n := calleeName(x.Common()); !strings.HasPrefix(n, "math.") && !logging(n) && !strings.HasPrefix(n, "strings.") {
					res = false
				}
			}
		}
	}
	c.pures[t] = res
	return res
}

func (c *c29) valLive(v ssa.Value) bool {
	m := c.live
	if c.data {
		m = c.liveD
	}
	switch m[v] {
	case 1, 2:
		return false
	case 3:
		return true
	}
	m[v] = 1
	res := c.valLive1(v)
	if res {
		m[v] = 3
	} else {
		m[v] = 2
	}
	return res
}

func (c *c29) valLive1(v ssa.Value) bool {
	if v.Referrers() == nil {
		return false
	}
	for _, rf := range *v.Referrers() {
		switch x := rf.(type) {
		case *ssa.If, *ssa.Panic, *ssa.Send, *ssa.Go, *ssa.Defer, *ssa.RunDefers:
			if _, ok := x.(*ssa.If); ok {
				return true
			}
			if ci, ok := rf.(ssa.CallInstruction); ok {
				if c.argLive(ci, v, 0) {
					return true
				}
				continue
			}
			return true
		case *ssa.Call:
			if c.argLive(x, v, 0) {
				return true
			}
		case *ssa.Return:
			f := x.Parent()
			for k, rv := range x.Results {
				if rv != v {
					continue
				}
				sites := c.w.calls().callers[f]
				if len(sites) == 0 {
					return true
				}
				for _, s := range sites {
					cl, ok := s.(*ssa.Call)
					if !ok {
						continue
					}
					if !c.w.inMod[cl.Parent()] {
						return true
					}
					if len(x.Results) == 1 {
						if c.valLive(cl) {
							return true
						}
						continue
					}
					for _, r2 := range *cl.Referrers() {
						if e, ok := r2.(*ssa.Extract); ok && e.Index == k && c.valLive(e) {
							return true
						}
					}
				}
			}
		case *ssa.Store:
			if x.Val != v {
				continue
			}
			switch a := x.Addr.(type) {
			case *ssa.Alloc:
				if c.addrLive(a, 0) {
					return true
				}
			case *ssa.FieldAddr:
				k := deref(a.X.Type()).String() + "." + fieldName(a.X.Type(), a.Field)
				for _, rd := range c.reads[k] {
					if rd != ssa.Instruction(a) && !c.skip[rd.Parent()] && c.useLive(rd) {
						return true
					}
				}
				// the structure as a whole leaves the module
			case *ssa.IndexAddr:
				if al, ok := a.X.(*ssa.Alloc); ok {
					if c.addrLive(al, 0) {
						return true
					}
				} else {
					return true
				}
			case *ssa.FreeVar:
				if c.addrLive(a, 0) {
					return true
				}
				// and in the enclosing function
				f := a.Parent()
				for k, fv := range f.FreeVars {
					if fv != a || f.Parent() == nil {
						continue
					}
					for _, b := range f.Parent().Blocks {
						for _, i := range b.Instrs {
							if mc, ok := i.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(f) && c.addrLive(mc.Bindings[k], 1) {
								return true
							}
						}
					}
				}
			default:
				return true
			}
		case *ssa.BinOp:
			if c.data {
				switch x.Op {
				case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
					o := x.X
					if o == v {
						o = x.Y
					}
					if _, ok := o.(*ssa.Const); ok {
						continue
					}
				}
			}
			if c.valLive(x) {
				return true
			}
		case *ssa.MakeClosure:
			fn := x.Fn.(*ssa.Function)
			for k, b := range x.Bindings {
				if b == v && k < len(fn.FreeVars) && c.valLive(fn.FreeVars[k]) {
					return true
				}
			}
		case *ssa.IndexAddr:
			if x.Index == v {
				return true
			}
			if c.addrLive(x, 1) {
				return true
			}
		case *ssa.FieldAddr:
			if c.addrLive(x, 1) {
				return true
			}
		case ssa.Value:
			if c.valLive(x) {
				return true
			}
		case *ssa.MapUpdate:
			return true
		}
	}
	return false
}

// ---- names

func tokens(s string) (r []string) {
	cur := ""
	flush := func() {
		if cur != "" {
			r = append(r, strings.ToLower(cur))
			cur = ""
		}
	}
	rs := []rune(s)
	for k, ch := range rs {
		if ch == '_' {
			flush()
			continue
		}
		if unicode.IsUpper(ch) && (k > 0 && !unicode.IsUpper(rs[k-1]) || k+1 < len(rs) && k > 0 && unicode.IsLower(rs[k+1])) {
			flush()
		}
		cur += string(ch)
	}
	flush()
	return
}

// replaces consecutive tokens of one name by an abbreviation made of their initials that the other contains
func acronyms(a, b []string) ([]string, []string) {
	try := func(x, y []string) []string {
		for _, ab := range y {
			n := len(ab)
			if n < 2 || n > 3 {
				continue
			}
			for k := 0; k+n <= len(x); k++ {
				in := ""
				for _, t := range x[k : k+n] {
					in += t[:1]
				}
				if in == ab {
					r := append([]string{}, x[:k]...)
					r = append(r, ab)
					return append(r, x[k+n:]...)
				}
			}
		}
		return x
	}
	return try(a, b), try(b, a)
}

// similarity of two names, 0 to 2
func similar(a, b string) float64 {
	if strings.EqualFold(a, b) {
		return 2
	}
	ta, tb := acronyms(tokens(a), tokens(b))
	n := 0.0
	used := map[int]bool{}
	for _, x := range ta {
		best, at := 0.0, -1
		for k, y := range tb {
			if used[k] {
				continue
			}
			s := 0.0
			if x == y {
				s = 1
			} else if len(x) >= 2 && strings.HasPrefix(y, x) || len(y) >= 2 && strings.HasPrefix(x, y) {
				s = 0.7
			}
			if s > best {
				best, at = s, k
			}
		}
		if at >= 0 {
			used[at] = true
			n += best
		}
	}
	la, lb := strings.ToLower(a), strings.ToLower(b)
	if n == 0 && (len(la) >= 3 && strings.HasSuffix(lb, la) || len(lb) >= 3 && strings.HasSuffix(la, lb)) {
		n = 0.6
	}
	m := len(ta)
	if len(tb) > m {
		m = len(tb)
	}
	if m == 0 {
		return 0
	}
	return 2 * n / float64(m) * 0.9
}

// did two settings change places: a is given for p and b for q
func swapped(a, p, b, q string) bool {
	if a == b || p == q {
		return false
	}
	return similar(a, q)+similar(b, p) > similar(a, p)+similar(b, q)+0.55
}

func (c *c29) constructors(o *opType) {
	w, r := c.w, c.r
	for _, f := range o.ctors {
		if len(f.Params) == 0 {
			continue
		}
		obj := w.construct(f, nil, 0)
		if obj == nil {
			continue
		}
		to := map[*ssa.Parameter][]string{}
		var paths []string
		for p := range obj.fields {
			paths = append(paths, p)
		}
		sort.Strings(paths)
		for _, p := range paths {
			for _, cv := range obj.fields[p] {
				if q, ok := cv.strip().v.(*ssa.Parameter); ok && q.Parent() == f {
					to[q] = append(to[q], p[strings.LastIndex(p, ".")+1:])
				}
			}
		}
		for k, p := range f.Params {
			if len(to[p]) == 0 {
				c.data = false
				if !c.valLive(p) {
					r.bad("construct", "unused|"+fname(f)+"|"+p.Name(), w.pos(p.Pos()), "parameter %s of %s ends up in no field", p.Name(), fname(f))
				}
				continue
			}
			ok := true
			if len(to[p]) > 1 {
				// given for two different settings, of which another parameter would be the better source of one
				for _, q := range f.Params {
					if q == p || !types.Identical(q.Type(), p.Type()) || len(to[q]) > 0 {
						continue
					}
					ok = false
					r.bad("construct", "twice|"+fname(f)+"|"+p.Name(), w.pos(p.Pos()), "parameter %s of %s is used for the fields %v, %s for none", p.Name(), fname(f), to[p], q.Name())
				}
			}
			for _, q := range f.Params[k+1:] {
				if len(to[q]) != 1 || len(to[p]) != 1 || !types.Identical(p.Type(), q.Type()) {
					continue
				}
				if swapped(p.Name(), to[p][0], q.Name(), to[q][0]) {
					ok = false
					r.bad("construct", "swap|"+fname(f)+"|"+p.Name()+"|"+q.Name(), w.pos(f.Pos()), "%s stores its parameter %s in field %s and %s in field %s: they changed places", fname(f), p.Name(), to[p][0], q.Name(), to[q][0])
				}
			}
			if ok {
				r.ob("construct", "%s: %s to %s", fname(f), p.Name(), strings.Join(to[p], ", "))
			}
		}
	}
}

// follow settings through calls and argument structures
func (c *c29) spread() {
	w := c.w
	isOp := map[string]map[string]bool{}
	for _, o := range w.operators() {
		m := map[string]bool{}
		for _, f := range flatFields(o.st, "") {
			if f.json != "" && !f.embed {
				m[f.v.Name()] = true
			}
		}
		isOp[o.named.String()] = m
	}
	for _, f := range w.Funcs {
		if c.skip[f] {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				ld, ok := i.(*ssa.UnOp)
				if !ok || ld.Op != token.MUL {
					continue
				}
				if fa, ok := ld.X.(*ssa.FieldAddr); ok {
					n := fieldName(fa.X.Type(), fa.Field)
					if isOp[deref(fa.X.Type()).String()][n] {
						if _, isStr := ld.Type().Underlying().(*types.Pointer); !isStr {
							c.named[ld] = n
							c.why[ld] = typeShort(deref(fa.X.Type())) + "." + n
						}
					}
				}
			}
		}
	}
	// parameters and fields of argument structures
	for changed, n := true, 0; changed && n < 12; n++ {
		changed = false
		for _, f := range w.Funcs {
			if c.skip[f] {
				continue
			}
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					switch x := i.(type) {
					case ssa.CallInstruction:
						for _, t := range w.targets(x) {
							if len(t.Blocks) == 0 || c.skip[t] {
								continue
							}
							for _, p := range t.Params {
								a := argFor(p, t, x)
								if a == nil || c.named[p] != "" {
									continue
								}
								if src, ok := c.name(a); ok && p.Name() != "_" {
									c.named[p] = p.Name()
									c.why[p] = src
									changed = true
								}
							}
						}
					case *ssa.Field:
						// of a structure that was filled with settings
						if c.named[x] == "" && c.argField(x.X.Type(), x.Field) != "" {
							c.named[x] = fieldName(x.X.Type(), x.Field)
							c.why[x] = c.argField(x.X.Type(), x.Field)
							changed = true
						}
					case *ssa.UnOp:
						if fa, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL && c.named[x] == "" && c.argField(deref(fa.X.Type()), fa.Field) != "" {
							c.named[x] = fieldName(fa.X.Type(), fa.Field)
							c.why[x] = c.argField(deref(fa.X.Type()), fa.Field)
							changed = true
						}
					case *ssa.Store:
						fa, ok := x.Addr.(*ssa.FieldAddr)
						if !ok {
							continue
						}
						if src, ok := c.name(x.Val); ok && c.isArgStruct(deref(fa.X.Type())) {
							k := deref(fa.X.Type()).String() + "." + fieldName(fa.X.Type(), fa.Field)
							if c.argFields()[k] == "" {
								c.argFields()[k] = src
								changed = true
							}
						}
					}
				}
			}
		}
	}
	// parameters that receive a setting and ignore it
	var ps []*ssa.Parameter
	for v := range c.named {
		if p, ok := v.(*ssa.Parameter); ok {
			ps = append(ps, p)
		}
	}
	sort.Slice(ps, func(i, j int) bool {
		return ps[i].String()+fname(ps[i].Parent()) < ps[j].String()+fname(ps[j].Parent())
	})
	for _, p := range ps {
		c.data = false
		if !c.valLive(p) {
			c.r.bad("param", "param|"+fname(p.Parent())+"|"+p.Name(), w.pos(p.Pos()), "%s ignores its parameter %s, which carries the setting %s", fname(p.Parent()), p.Name(), c.why[p])
		} else {
			c.r.ob("param", "%s: %s (%s)", fname(p.Parent()), p.Name(), c.why[p])
		}
	}
	var ks []string
	for k := range c.argFields() {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		ok := false
		c.data = false
		for _, rd := range c.reads[k] {
			if c.useLive(rd) {
				ok = true
			}
		}
		if ok {
			c.r.ob("param", "%s (%s)", strings.TrimPrefix(k, Mod+"/internal/"), c.argFields()[k])
		} else {
			c.r.bad("param", "field|"+strings.TrimPrefix(k, Mod+"/internal/"), "-", "the argument field %s carries the setting %s, but nothing uses it", strings.TrimPrefix(k, Mod+"/internal/"), c.argFields()[k])
		}
	}
}

var c29fields = map[string]string{}

func (c *c29) argFields() map[string]string { return c29fields }
func (c *c29) argField(t types.Type, k int) string {
	return c29fields[t.String()+"."+fieldName(t, k)]
}

// local structure types that only carry arguments: not operators, not exported objects with methods
func (c *c29) isArgStruct(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok {
		_, isS := t.Underlying().(*types.Struct)
		return isS
	}
	if n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), Mod) || n.NumMethods() > 0 {
		return false
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if _, ok := st.Field(i).Type().Underlying().(*types.Basic); !ok {
			return false
		}
	}
	return true
}

// the setting a value is, through conversions only
func (c *c29) name(v ssa.Value) (string, bool) {
	u := c.derived(v)
	if u == nil {
		return "", false
	}
	return c.why[u], true
}

func (c *c29) origin(v ssa.Value) ssa.Value {
	for d := 0; d < 6; d++ {
		if c.named[v] != "" {
			return v
		}
		switch x := v.(type) {
		case *ssa.Convert:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return nil
			}
			s := singleStore(x.X)
			if s == nil {
				return nil
			}
			v = s
		default:
			return nil
		}
	}
	return nil
}

// the single setting a value is computed from
func (c *c29) derived(v ssa.Value) ssa.Value {
	if u := c.origin(v); u != nil {
		return u
	}
	var res ssa.Value
	ok := true
	seen := map[ssa.Value]bool{}
	var visit func(v ssa.Value, d int)
	visit = func(v ssa.Value, d int) {
		if seen[v] || !ok {
			return
		}
		seen[v] = true
		if d > 8 {
			ok = false
			return
		}
		if u := c.origin(v); u != nil {
			if res != nil && !(c.named[res] == c.named[u] && c.why[res] == c.why[u]) {
				ok = false
			}
			res = u
			return
		}
		switch x := v.(type) {
		case *ssa.BinOp:
			switch x.Op {
			case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
				return
			}
			visit(x.X, d+1)
			visit(x.Y, d+1)
		case *ssa.Convert:
			visit(x.X, d+1)
		case *ssa.ChangeType:
			visit(x.X, d+1)
		case *ssa.UnOp:
			if x.Op == token.SUB {
				visit(x.X, d+1)
			} else if s := singleStore(x.X); s != nil && x.Op == token.MUL {
				visit(s, d+1)
			}
		case *ssa.Phi:
			for _, e := range x.Edges {
				visit(e, d+1)
			}
		}
	}
	visit(v, 0)
	if !ok {
		return nil
	}
	return res
}

type given struct {
	from, to string
	v        ssa.Value
	t        types.Type
	direct   bool
}

func (c *c29) pairs() {
	w := c.w
	for _, f := range w.Funcs {
		if c.skip[f] {
			continue
		}
		structs := map[ssa.Value][]given{}
		var order []ssa.Value
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				switch x := i.(type) {
				case ssa.CallInstruction:
					ts := w.targets(x)
					if len(ts) != 1 || ts[0] == f {
						continue
					}
					t := ts[0]
					var gs []given
					for _, p := range t.Params {
						a := argFor(p, t, x)
						if a == nil {
							continue
						}
						if u := c.derived(a); u != nil {
							gs = append(gs, given{c.named[u], p.Name(), u, p.Type(), c.origin(a) != nil})
						}
					}
					c.judge(f, x, fname(t), gs)
				case *ssa.Store:
					fa, ok := x.Addr.(*ssa.FieldAddr)
					if !ok {
						continue
					}
					if u := c.derived(x.Val); u != nil {
						if structs[fa.X] == nil {
							order = append(order, fa.X)
						}
						structs[fa.X] = append(structs[fa.X], given{c.named[u], fieldName(fa.X.Type(), fa.Field), u, x.Val.Type(), c.origin(x.Val) != nil})
					}
				case *ssa.BinOp:
					c.repeated(f, x)
				}
			}
		}
		for _, o := range order {
			i, _ := o.(ssa.Instruction)
			c.judge(f, i, typeShort(deref(o.Type())), structs[o])
		}
	}
}

func (c *c29) judge(f *ssa.Function, at ssa.Instruction, what string, gs []given) {
	if len(gs) == 0 {
		return
	}
	pos := "-"
	if at != nil {
		pos = c.w.ipos(at)
	}
	ok := true
	for k, a := range gs {
		for _, b := range gs[k+1:] {
			if !types.Identical(a.t, b.t) || a.to == b.to {
				continue
			}
			if a.direct && b.direct && a.from == b.from && sameSource(a.v, b.v) {
				ok = false
				c.r.bad("pass", fmt.Sprintf("twice|%s|%s|%s|%s", fname(f), what, a.to, b.to), pos, "%s gives the same setting %s for both %s and %s of %s", fname(f), a.from, a.to, b.to, what)
			} else if swapped(a.from, a.to, b.from, b.to) {
				ok = false
				c.r.bad("pass", fmt.Sprintf("swap|%s|%s|%s|%s", fname(f), what, a.to, b.to), pos, "%s gives %s for %s and %s for %s of %s: they changed places", fname(f), a.from, a.to, b.from, b.to, what)
			}
		}
	}
	if ok {
		var s []string
		for _, g := range gs {
			s = append(s, g.from+" for "+g.to)
		}
		c.r.ob("pass", "%s to %s: %s", fname(f), what, strings.Join(s, ", "))
	}
}

func sameSource(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok1 := a.(*ssa.UnOp)
	y, ok2 := b.(*ssa.UnOp)
	if !ok1 || !ok2 {
		return false
	}
	p, ok1 := x.X.(*ssa.FieldAddr)
	q, ok2 := y.X.(*ssa.FieldAddr)
	return ok1 && ok2 && p.Field == q.Field && sameBase(p.X, q.X)
}

func sameBase(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok1 := a.(*ssa.UnOp)
	y, ok2 := b.(*ssa.UnOp)
	return ok1 && ok2 && x.Op == token.MUL && y.Op == token.MUL && x.X == y.X
}

// the same comparison of the same setting twice in a condition
func (c *c29) repeated(f *ssa.Function, x *ssa.BinOp) {
	u := c.origin(x.X)
	k, isC := x.Y.(*ssa.Const)
	if u == nil || !isC || k.Value == nil {
		return
	}
	b := x.Block()
	if len(b.Preds) != 1 {
		return
	}
	iff, ok := b.Preds[0].Instrs[len(b.Preds[0].Instrs)-1].(*ssa.If)
	if !ok {
		return
	}
	y, ok := iff.Cond.(*ssa.BinOp)
	if !ok || y.Op != x.Op {
		return
	}
	v := c.origin(y.X)
	k2, isC2 := y.Y.(*ssa.Const)
	if v == nil || !isC2 || k2.Value == nil {
		return
	}
	if k2.Value.ExactString() != k.Value.ExactString() {
		// x == a && x == b, x != a || x != b
		onTrue := b.Preds[0].Succs[0] == b
		if sameSource(u, v) && (x.Op == token.EQL && onTrue || x.Op == token.NEQ && !onTrue) {
			c.r.bad("pass", "contradiction|"+fname(f)+"|"+c.named[u], c.w.ipos(x), "%s requires %s to have two values at once: another setting is meant", fname(f), c.named[u])
		}
		return
	}
	if sameSource(u, v) {
		c.r.bad("pass", "repeated|"+fname(f)+"|"+c.named[u], c.w.ipos(x), "%s makes the same comparison of %s twice: another setting is meant", fname(f), c.named[u])
	}
}

// settings kept in local variables: names of variables and fields
func (c *c29) localNames() {
	w := c.w
	known := map[string]bool{} // structure and field
	for k := range c.argFields() {
		known[k] = true
	}
	for _, o := range w.operators() {
		for _, f := range flatFields(o.st, "") {
			if f.json != "" && !f.embed && strings.Count(f.path, ".") == 1 {
				known[o.named.String()+"."+f.v.Name()] = true
			}
		}
	}
	params := map[types.Object]bool{}
	for v := range c.named {
		if q, ok := v.(*ssa.Parameter); ok && q.Object() != nil {
			params[q.Object()] = true
		}
	}
	for _, p := range w.Pkgs {
		for _, file := range p.Syntax {
			for _, dcl := range file.Decls {
				fd, ok := dcl.(*ast.FuncDecl)
				if !ok || fd.Body == nil {
					continue
				}
				type ent struct {
					name, field, typ string
					t                types.Type
					pos              token.Pos
				}
				var es []ent
				add := func(l, r ast.Expr) {
					id, ok := l.(*ast.Ident)
					if !ok || id.Name == "_" {
						return
					}
					var sels []*ast.SelectorExpr
					var ids []*ast.Ident
					ast.Inspect(r, func(n ast.Node) bool {
						if s, ok := n.(*ast.SelectorExpr); ok {
							if sel := p.TypesInfo.Selections[s]; sel != nil && sel.Kind() == types.FieldVal && known[deref(sel.Recv()).String()+"."+s.Sel.Name] {
								sels = append(sels, s)
							}
						}
						if s, ok := n.(*ast.Ident); ok && params[p.TypesInfo.Uses[s]] {
							ids = append(ids, s)
						}
						return true
					})
					if len(ids) == 1 && len(sels) == 0 {
						es = append(es, ent{id.Name, ids[0].Name, "parameter", p.TypesInfo.TypeOf(ids[0]), l.Pos()})
						return
					}
					if len(ids) > 0 || len(sels) != 1 || p.TypesInfo.TypeOf(l) == nil {
						return
					}
					sel := p.TypesInfo.Selections[sels[0]]
					es = append(es, ent{id.Name, sels[0].Sel.Name, deref(sel.Recv()).String(), p.TypesInfo.TypeOf(sels[0]), l.Pos()})
				}
				ast.Inspect(fd.Body, func(n ast.Node) bool {
					switch x := n.(type) {
					case *ast.AssignStmt:
						if len(x.Lhs) == len(x.Rhs) {
							for k := range x.Lhs {
								add(x.Lhs[k], x.Rhs[k])
							}
						}
					case *ast.ValueSpec:
						if len(x.Names) == len(x.Values) {
							for k := range x.Names {
								add(x.Names[k], x.Values[k])
							}
						}
					}
					return true
				})
				for k, a := range es {
					for _, b := range es[k+1:] {
						if a.typ == b.typ && types.Identical(a.t, b.t) && similar(a.field, b.name) > 0 && similar(b.field, a.name) > 0 && swapped(a.field, a.name, b.field, b.name) {
							c.r.bad("pass", "local|"+fd.Name.Name+"|"+a.name+"|"+b.name, w.pos(b.pos), "%s keeps %s in %s and %s in %s: they changed places", fd.Name.Name, a.field, a.name, b.field, b.name)
						}
					}
				}
			}
		}
	}
}
