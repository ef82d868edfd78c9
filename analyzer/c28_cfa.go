package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C28: colour filter array patterns.
//
// Abstract interpretation over SSA with a congruence domain: every integer is a linear form over the (symbolic) image
// width with coefficients known exactly or modulo two. For each pattern and channel, every access to sensor data must
// be to a row and column whose parities denote a photosite of that colour in that pattern. Where positions are known
// exactly, the values written to the output are followed back to the photosites they are interpolated from, whose
// centre must be the position of the output pixel.

func init() {
	register("C28", "colour filter array: for every supported pattern and channel, every access to sensor data in debayering and cosmetic correction is to a photosite of that colour as spelled out by the pattern name, and interpolated pixels are centred on their photosites", runC28)
}

type num struct {
	k byte // 0 unknown, 1 exact, 2 parity
	v int64
}

func exact(v int64) num { return num{1, v} }

func (a num) parity() (int64, bool) {
	if a.k == 0 {
		return 0, false
	}
	return a.v & 1, true
}

func (a num) op(b num, f func(x, y int64) int64) num {
	switch {
	case a.k == 1 && b.k == 1:
		return exact(f(a.v, b.v))
	case a.k != 0 && b.k != 0:
		return num{2, f(a.v&1, b.v&1) & 1}
	}
	return num{}
}

func (a num) String() string {
	switch a.k {
	case 1:
		return fmt.Sprint(a.v)
	case 2:
		if a.v == 1 {
			return "odd"
		}
		return "even"
	}
	return "?"
}

type site struct{ y, x int64 }

type cv struct {
	k      byte           // 'T' unknown, 'I' integer, 'S' string, 'B' boolean, 'P' buffer, 'E' element address, 'F' float, 'N' nil, 'X' not nil, 'R' struct
	lin    map[string]num // 'I': coefficients of symbols, "" is the constant; 'E': the index
	s      string         // 'S': text; 'P','E': buffer
	b      bool
	comb   map[site]float64 // 'F': weights of photosites
	konst  float64          // 'F': added constant
	fields []cv
}

var cvTop = cv{k: 'T'}

func cvInt(v int64) cv { return cv{k: 'I', lin: map[string]num{"": exact(v)}} }

func linString(l map[string]num) string {
	var ks []string
	for k, v := range l {
		ks = append(ks, v.String()+"*"+k)
	}
	sort.Strings(ks)
	return strings.Join(ks, "+")
}

func (c cv) String() string {
	switch c.k {
	case 'I':
		return linString(c.lin)
	case 'S':
		return fmt.Sprintf("%q", c.s)
	case 'B':
		return fmt.Sprint(c.b)
	case 'P':
		return "buf " + c.s
	case 'E':
		return "&" + c.s + "[" + linString(c.lin) + "]"
	case 'F':
		var ks []string
		for k, v := range c.comb {
			ks = append(ks, fmt.Sprintf("%.4g@%d,%d", v, k.y, k.x))
		}
		sort.Strings(ks)
		return "f" + strings.Join(ks, "+") + fmt.Sprintf("+%g", c.konst)
	case 'R':
		return fmt.Sprint(c.fields)
	}
	return string(c.k)
}

func (c cv) exactInt() (int64, bool) {
	if c.k != 'I' {
		return 0, false
	}
	for s, n := range c.lin {
		if s != "" && !(n.k == 1 && n.v == 0) {
			return 0, false
		}
	}
	n, ok := c.lin[""]
	if !ok {
		return 0, true
	}
	return n.v, n.k == 1
}

func (c cv) pureParity() (int64, bool) {
	if c.k != 'I' {
		return 0, false
	}
	for s, n := range c.lin {
		if s != "" && !(n.k == 1 && n.v == 0) {
			return 0, false
		}
	}
	n, ok := c.lin[""]
	if !ok {
		return 0, true
	}
	return n.parity()
}

func linAdd(a, b map[string]num, sub bool) map[string]num {
	r := map[string]num{}
	for k := range a {
		r[k] = num{}
	}
	for k := range b {
		r[k] = num{}
	}
	get := func(m map[string]num, k string) num {
		if n, ok := m[k]; ok {
			return n
		}
		return exact(0)
	}
	for k := range r {
		r[k] = get(a, k).op(get(b, k), func(x, y int64) int64 {
			if sub {
				return x - y
			}
			return x + y
		})
		if k != "" && r[k] == exact(0) {
			delete(r, k)
		}
	}
	return r
}

func linScale(a map[string]num, n num) map[string]num {
	r := map[string]num{}
	for k, v := range a {
		x := v.op(n, func(x, y int64) int64 { return x * y })
		if k == "" || x != exact(0) {
			r[k] = x
		}
	}
	return r
}

func (c cv) scalar() (num, bool) { // an integer without symbols
	if c.k != 'I' {
		return num{}, false
	}
	for s := range c.lin {
		if s != "" {
			return num{}, false
		}
	}
	if n, ok := c.lin[""]; ok {
		return n, true
	}
	return exact(0), true
}

// ---- interpreter

type cState struct {
	vals map[ssa.Value]cv
	mem  map[string]cv
}

func (s *cState) clone() *cState {
	n := &cState{map[ssa.Value]cv{}, map[string]cv{}}
	for k, v := range s.vals {
		n.vals[k] = v
	}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	return n
}

type cEvent struct {
	i     ssa.Instruction
	y, x  num
	known bool
}

type cOut struct { // a value written to an output buffer
	i    ssa.Instruction
	pos  site
	comb map[site]float64
	kst  float64
}

type cInterp struct {
	w      *World
	names  map[ssa.Value]int
	access map[string]cEvent
	outs   map[string]cOut
	memo   map[string][][]cv
	steps  int
	over   bool
	rel    map[*ssa.Function]map[ssa.Value]bool
	tables map[*ssa.Global]map[string]constant.Value
	undec  map[string]bool
}

func (c *cInterp) id(v ssa.Value) int {
	n, ok := c.names[v]
	if !ok {
		n = len(c.names)
		c.names[v] = n
	}
	return n
}

func (c *cInterp) key(s *cState) string {
	var vs []string
	for k, v := range s.vals {
		vs = append(vs, fmt.Sprint(c.id(k), "=", v))
	}
	for k, v := range s.mem {
		vs = append(vs, k+"="+v.String())
	}
	sort.Strings(vs)
	return strings.Join(vs, ";")
}

// values that positions and results depend on
func (c *cInterp) relevant(f *ssa.Function) map[ssa.Value]bool {
	if r, ok := c.rel[f]; ok {
		return r
	}
	r := map[ssa.Value]bool{}
	var add func(v ssa.Value)
	add = func(v ssa.Value) {
		if v == nil || r[v] {
			return
		}
		r[v] = true
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
			// values stored to the variable
			if a := c.rootAlloc(u.X); a != nil {
				c.storesTo(a, add)
			}
		}
		if i, ok := v.(ssa.Instruction); ok {
			for _, op := range i.Operands(nil) {
				if *op != nil {
					add(*op)
				}
			}
		}
	}
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			switch x := i.(type) {
			case *ssa.IndexAddr:
				base := x.X
				for {
					if s, ok := base.(*ssa.Slice); ok {
						base = s.X
						continue
					}
					break
				}
				if _, ok := base.(*ssa.Alloc); !ok {
					add(x.Index)
				}
			case *ssa.Return:
				for _, v := range x.Results {
					add(v)
				}
			case *ssa.Store:
				if _, ok := x.Addr.(*ssa.IndexAddr); ok && isFloatT(x.Val.Type()) {
					add(x.Val)
				}
			case ssa.CallInstruction:
				if t := x.Common().StaticCallee(); t != nil && c.w.inMod[t] {
					for _, a := range x.Common().Args {
						add(a)
					}
				}
			}
		}
	}
	c.rel[f] = r
	return r
}

func (c *cInterp) rootAlloc(v ssa.Value) *ssa.Alloc {
	for d := 0; d < 6; d++ {
		switch x := v.(type) {
		case *ssa.Alloc:
			return x
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		default:
			return nil
		}
	}
	return nil
}

func (c *cInterp) storesTo(a *ssa.Alloc, add func(ssa.Value)) {
	var walk func(v ssa.Value, d int)
	walk = func(v ssa.Value, d int) {
		if v.Referrers() == nil || d > 4 {
			return
		}
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.Store:
				if x.Addr == v {
					add(x.Val)
				}
			case *ssa.FieldAddr:
				walk(x, d+1)
			case *ssa.IndexAddr:
				walk(x, d+1)
			}
		}
	}
	walk(a, 0)
}

// constants a package variable is initialised with, if nothing changes it; keys like "[3].1"
func (w *World) globalTable(g *ssa.Global) map[string]constant.Value {
	res := map[string]constant.Value{}
	init := g.Pkg.Func("init")
	if init == nil {
		return nil
	}
	var walk func(v ssa.Value, path string, d int)
	walk = func(v ssa.Value, path string, d int) {
		if v.Referrers() == nil && d > 0 {
			return
		}
		var refs []ssa.Instruction
		if _, ok := v.(*ssa.Global); ok {
			for _, b := range init.Blocks {
				for _, i := range b.Instrs {
					for _, op := range i.Operands(nil) {
						if *op == v {
							refs = append(refs, i)
						}
					}
				}
			}
		} else {
			refs = *v.Referrers()
		}
		for _, r := range refs {
			switch x := r.(type) {
			case *ssa.Store:
				if x.Addr != v {
					continue
				}
				if k, ok := x.Val.(*ssa.Const); ok && k.Value != nil {
					res[path] = k.Value
				} else if s, ok := x.Val.(*ssa.Slice); ok && path == "" {
					walk(s.X, "", d+1)
					if p, ok := s.X.Type().Underlying().(*types.Pointer); ok {
						if a, ok := p.Elem().Underlying().(*types.Array); ok {
							res["len"] = constant.MakeInt64(a.Len())
						}
					}
				} else if u, ok := x.Val.(*ssa.UnOp); ok && u.Op == token.MUL {
					walk(u.X, path, d+1)
				}
			case *ssa.IndexAddr:
				if k, ok := constInt(x.Index); ok && x.X == v {
					walk(x, fmt.Sprintf("%s[%d]", path, k), d+1)
				}
			case *ssa.FieldAddr:
				walk(x, fmt.Sprintf("%s.%d", path, x.Field), d+1)
			}
		}
	}
	walk(g, "", 0)
	if p, ok := g.Type().Underlying().(*types.Pointer); ok {
		if a, ok := p.Elem().Underlying().(*types.Array); ok {
			res["len"] = constant.MakeInt64(a.Len())
		}
	}
	if len(res) == 0 {
		return nil
	}
	// changed elsewhere?
	for _, f := range w.Funcs {
		if f == init {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				st, ok := i.(*ssa.Store)
				if !ok {
					continue
				}
				a := st.Addr
				for d := 0; d < 8; d++ {
					switch x := a.(type) {
					case *ssa.IndexAddr:
						a = x.X
						continue
					case *ssa.FieldAddr:
						a = x.X
						continue
					case *ssa.UnOp:
						a = x.X
						continue
					}
					break
				}
				if a == ssa.Value(g) {
					return nil
				}
			}
		}
	}
	return res
}

func (c *cInterp) table(g *ssa.Global) map[string]constant.Value {
	if t, ok := c.tables[g]; ok {
		return t
	}
	t := c.w.globalTable(g)
	c.tables[g] = t
	return t
}

func cvConst(k constant.Value) cv {
	switch k.Kind() {
	case constant.Int:
		if v, ok := constant.Int64Val(k); ok {
			return cvInt(v)
		}
	case constant.String:
		return cv{k: 'S', s: constant.StringVal(k)}
	case constant.Bool:
		return cv{k: 'B', b: constant.BoolVal(k)}
	case constant.Float:
		f, _ := constant.Float64Val(k)
		return cv{k: 'F', konst: f}
	}
	return cvTop
}

func (c *cInterp) tableAt(g *ssa.Global, path string, t types.Type) cv {
	tb := c.table(g)
	if tb == nil {
		return cvTop
	}
	if st, ok := t.Underlying().(*types.Struct); ok {
		r := cv{k: 'R'}
		for i := 0; i < st.NumFields(); i++ {
			r.fields = append(r.fields, c.tableAt(g, fmt.Sprintf("%s.%d", path, i), st.Field(i).Type()))
		}
		return r
	}
	if k, ok := tb[path]; ok {
		return cvConst(k)
	}
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
		return cvInt(0)
	}
	return cvTop
}

// name of a local memory cell
func (c *cInterp) cell(st *cState, v ssa.Value) (string, bool) {
	switch x := v.(type) {
	case *ssa.Alloc:
		return fmt.Sprint("a", c.id(x)), true
	case *ssa.FieldAddr:
		if b, ok := c.cell(st, x.X); ok {
			return fmt.Sprintf("%s.%d", b, x.Field), true
		}
	case *ssa.IndexAddr:
		if b, ok := c.cell(st, x.X); ok {
			if k, ok := c.eval(st, x.Index, 0).exactInt(); ok {
				return fmt.Sprintf("%s[%d]", b, k), true
			}
		}
	}
	return "", false
}

func (c *cInterp) loadCell(st *cState, cell string, t types.Type) cv {
	if v, ok := st.mem[cell]; ok {
		return v
	}
	if s, ok := t.Underlying().(*types.Struct); ok {
		r := cv{k: 'R'}
		for i := 0; i < s.NumFields(); i++ {
			r.fields = append(r.fields, c.loadCell(st, fmt.Sprintf("%s.%d", cell, i), s.Field(i).Type()))
		}
		return r
	}
	return cvTop
}

func (c *cInterp) storeCell(st *cState, cell string, v cv) {
	for k := range st.mem {
		if k == cell || strings.HasPrefix(k, cell+".") || strings.HasPrefix(k, cell+"[") {
			delete(st.mem, k)
		}
	}
	if v.k == 'R' {
		for i, f := range v.fields {
			c.storeCell(st, fmt.Sprintf("%s.%d", cell, i), f)
		}
		return
	}
	if v.k != 'T' {
		st.mem[cell] = v
	}
}

// address of a table element: global and path
func (c *cInterp) tableAddr(st *cState, v ssa.Value) (*ssa.Global, string, bool) {
	switch x := v.(type) {
	case *ssa.Global:
		return x, "", true
	case *ssa.UnOp: // slice held in a global
		if g, ok := x.X.(*ssa.Global); ok && x.Op == token.MUL {
			return g, "", true
		}
	case *ssa.IndexAddr:
		if g, p, ok := c.tableAddr(st, x.X); ok {
			if k, ok := c.eval(st, x.Index, 0).exactInt(); ok {
				return g, fmt.Sprintf("%s[%d]", p, k), true
			}
		}
	case *ssa.FieldAddr:
		if g, p, ok := c.tableAddr(st, x.X); ok {
			return g, fmt.Sprintf("%s.%d", p, x.Field), true
		}
	}
	return nil, "", false
}

func (c *cInterp) eval(st *cState, v ssa.Value, d int) cv {
	if r, ok := st.vals[v]; ok {
		return r
	}
	if d > 60 {
		return cvTop
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return cv{k: 'N'}
		}
		if isFloatT(x.Type()) {
			f, _ := constFloat(x)
			return cv{k: 'F', konst: f}
		}
		return cvConst(x.Value)
	case *ssa.Global:
		return cvTop
	case *ssa.ChangeType:
		return c.eval(st, x.X, d+1)
	case *ssa.Convert:
		y := c.eval(st, x.X, d+1)
		if y.k == 'I' && isFloatT(x.Type()) {
			if k, ok := y.exactInt(); ok {
				return cv{k: 'F', konst: float64(k)}
			}
			return cvTop
		}
		if y.k == 'F' && !isFloatT(x.Type()) {
			if len(y.comb) == 0 && y.konst == math.Trunc(y.konst) {
				return cvInt(int64(y.konst))
			}
			return cvTop
		}
		return y
	case *ssa.MakeInterface:
		return cv{k: 'X'}
	case *ssa.Slice:
		y := c.eval(st, x.X, d+1)
		if y.k == 'P' && x.Low == nil {
			return y
		}
		if y.k == 'P' {
			if k, ok := c.eval(st, x.Low, d+1).exactInt(); ok && k == 0 {
				return y
			}
		}
		return cvTop
	case *ssa.MakeSlice:
		l := c.eval(st, x.Len, d+1)
		if l.k == 'I' && linString(l.lin) == linString(map[string]num{"": exact(0), "len": exact(1)}) || l.k == 'I' && linString(l.lin) == linString(map[string]num{"len": exact(1)}) {
			return cv{k: 'P', s: fmt.Sprint("same", c.id(x))}
		}
		return cv{k: 'P', s: fmt.Sprint("out", c.id(x))}
	case *ssa.Field:
		y := c.eval(st, x.X, d+1)
		if y.k == 'R' && x.Field < len(y.fields) {
			return y.fields[x.Field]
		}
		return cvTop
	case *ssa.Extract:
		return cvTop
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			if ia, ok := x.X.(*ssa.IndexAddr); ok {
				b := c.eval(st, ia.X, d+1)
				if b.k == 'P' && (b.s == "data") {
					idx := c.eval(st, ia.Index, d+1)
					if y, xx, ok := c.position(idx, "width"); ok && y.k == 1 && xx.k == 1 {
						return cv{k: 'F', comb: map[site]float64{{y.v, xx.v}: 1}}
					}
					return cvTop
				}
				if b.k == 'P' {
					return cvTop
				}
			}
			if cell, ok := c.cell(st, x.X); ok {
				return c.loadCell(st, cell, x.Type())
			}
			if g, p, ok := c.tableAddr(st, x.X); ok && p != "" {
				return c.tableAt(g, p, x.Type())
			}
			return cvTop
		case token.SUB:
			y := c.eval(st, x.X, d+1)
			if y.k == 'I' {
				return cv{k: 'I', lin: linScale(y.lin, exact(-1))}
			}
			if y.k == 'F' {
				return c.fscale(y, -1)
			}
		case token.NOT:
			y := c.eval(st, x.X, d+1)
			if y.k == 'B' {
				return cv{k: 'B', b: !y.b}
			}
		}
		return cvTop
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			y := c.eval(st, x.Call.Args[0], d+1)
			if y.k == 'P' && (y.s == "data" || strings.HasPrefix(y.s, "same")) {
				return cv{k: 'I', lin: map[string]num{"len": exact(1)}}
			}
			if y.k == 'S' {
				return cvInt(int64(len(y.s)))
			}
			if g, p, ok := c.tableAddr(st, x.Call.Args[0]); ok && p == "" {
				if tb := c.table(g); tb != nil {
					if k, ok := tb["len"]; ok {
						return cvConst(k)
					}
				}
			}
			if y.k == 'P' {
				return cv{k: 'I', lin: map[string]num{"len " + y.s: exact(1)}}
			}
			return cvTop
		}
		switch calleeName(&x.Call) {
		case "errors.New", "fmt.Errorf":
			return cv{k: 'X'}
		case "strings.ToUpper", "strings.ToLower":
			y := c.eval(st, x.Call.Args[0], d+1)
			if y.k == 'S' {
				if strings.HasSuffix(calleeName(&x.Call), "Upper") {
					return cv{k: 'S', s: strings.ToUpper(y.s)}
				}
				return cv{k: 'S', s: strings.ToLower(y.s)}
			}
		case "strings.Index", "strings.IndexByte":
			y, z := c.eval(st, x.Call.Args[0], d+1), c.eval(st, x.Call.Args[1], d+1)
			if y.k == 'S' && z.k == 'S' {
				return cvInt(int64(strings.Index(y.s, z.s)))
			}
			if k, ok := z.exactInt(); ok && y.k == 'S' {
				return cvInt(int64(strings.IndexByte(y.s, byte(k))))
			}
		}
		return cvTop
	case *ssa.Index, *ssa.Lookup:
		var sx, ix ssa.Value
		if a, ok := x.(*ssa.Index); ok {
			sx, ix = a.X, a.Index
		} else {
			a := x.(*ssa.Lookup)
			sx, ix = a.X, a.Index
		}
		y := c.eval(st, sx, d+1)
		if k, ok := c.eval(st, ix, d+1).exactInt(); ok && y.k == 'S' && k >= 0 && k < int64(len(y.s)) {
			return cvInt(int64(y.s[k]))
		}
		return cvTop
	case *ssa.BinOp:
		return c.binop(x, c.eval(st, x.X, d+1), c.eval(st, x.Y, d+1))
	}
	return cvTop
}

func (c *cInterp) fscale(a cv, k float64) cv {
	r := cv{k: 'F', comb: map[site]float64{}, konst: a.konst * k}
	for s, w := range a.comb {
		r.comb[s] = w * k
	}
	return r
}

func (c *cInterp) binop(x *ssa.BinOp, a, b cv) cv {
	if a.k == 'S' && b.k == 'S' {
		if isCmp(x.Op) {
			return cv{k: 'B', b: constant.Compare(constant.MakeString(a.s), x.Op, constant.MakeString(b.s))}
		}
		if x.Op == token.ADD {
			return cv{k: 'S', s: a.s + b.s}
		}
		return cvTop
	}
	if (a.k == 'N' || a.k == 'X') && (b.k == 'N' || b.k == 'X') && (a.k == 'N' || b.k == 'N') {
		switch x.Op {
		case token.EQL:
			return cv{k: 'B', b: a.k == b.k}
		case token.NEQ:
			return cv{k: 'B', b: a.k != b.k}
		}
	}
	if a.k == 'B' && b.k == 'B' {
		switch x.Op {
		case token.EQL:
			return cv{k: 'B', b: a.b == b.b}
		case token.NEQ:
			return cv{k: 'B', b: a.b != b.b}
		}
	}
	if a.k == 'F' && b.k == 'F' {
		switch x.Op {
		case token.ADD, token.SUB:
			k := 1.0
			if x.Op == token.SUB {
				k = -1
			}
			r := cv{k: 'F', comb: map[site]float64{}, konst: a.konst + k*b.konst}
			for s, w := range a.comb {
				r.comb[s] += w
			}
			for s, w := range b.comb {
				r.comb[s] += k * w
			}
			return r
		case token.MUL:
			if len(a.comb) == 0 {
				return c.fscale(b, a.konst)
			}
			if len(b.comb) == 0 {
				return c.fscale(a, b.konst)
			}
		case token.QUO:
			if len(b.comb) == 0 && b.konst != 0 {
				return c.fscale(a, 1/b.konst)
			}
		}
		return cvTop
	}
	if a.k != 'I' || b.k != 'I' {
		return cvTop
	}
	sym := func() cv {
		return cv{k: 'I', lin: map[string]num{fmt.Sprintf("(%s)%s(%s)", linString(a.lin), x.Op, linString(b.lin)): exact(1)}}
	}
	av, aok := a.exactInt()
	bv, bok := b.exactInt()
	if isCmp(x.Op) {
		if aok && bok {
			return cv{k: 'B', b: constant.Compare(constant.MakeInt64(av), x.Op, constant.MakeInt64(bv))}
		}
		ap, ok1 := a.pureParity()
		bp, ok2 := b.pureParity()
		if ok1 && ok2 && ap != bp {
			switch x.Op {
			case token.EQL:
				return cv{k: 'B', b: false}
			case token.NEQ:
				return cv{k: 'B', b: true}
			}
		}
		return cvTop
	}
	switch x.Op {
	case token.ADD, token.SUB:
		return cv{k: 'I', lin: linAdd(a.lin, b.lin, x.Op == token.SUB)}
	case token.MUL:
		if n, ok := a.scalar(); ok {
			return cv{k: 'I', lin: linScale(b.lin, n)}
		}
		if n, ok := b.scalar(); ok {
			return cv{k: 'I', lin: linScale(a.lin, n)}
		}
		return sym()
	case token.SHL:
		if bok && bv >= 0 && bv < 40 {
			return cv{k: 'I', lin: linScale(a.lin, exact(int64(1)<<uint(bv)))}
		}
	case token.AND, token.REM:
		if bok && (x.Op == token.AND && bv == 1 || x.Op == token.REM && bv == 2) {
			if p, ok := a.pureParity(); ok && (x.Op == token.AND || !aok || av >= 0) {
				return cvInt(p)
			}
			return cvTop // not known
		}
		if aok && bok && !(x.Op == token.REM && bv == 0) {
			if x.Op == token.AND {
				return cvInt(av & bv)
			}
			return cvInt(av % bv)
		}
		return sym()
	case token.XOR:
		if aok && bok {
			return cvInt(av ^ bv)
		}
		if n, ok := a.scalar(); ok && bok {
			return cv{k: 'I', lin: map[string]num{"": n.op(exact(bv), func(x, y int64) int64 { return x ^ y })}}
		}
	case token.QUO, token.SHR:
		if aok && bok && bv > 0 {
			if x.Op == token.SHR && bv < 60 {
				return cvInt(av >> uint(bv))
			}
			return cvInt(av / bv)
		}
		return sym()
	case token.AND_NOT:
		if aok && bok {
			return cvInt(av &^ bv)
		}
		return sym()
	}
	return cvTop
}

// row and column of an index into a buffer with the given stride
func (c *cInterp) position(idx cv, stride string) (y, x num, ok bool) {
	if idx.k != 'I' {
		return
	}
	y, x = exact(0), exact(0)
	for s, n := range idx.lin {
		switch s {
		case "":
			x = n
		case stride:
			y = n
		default:
			return num{}, num{}, false
		}
	}
	return y, x, true
}

const cHorizon = 3

// is the phi a loop counter compared to a value known exactly?
func (c *cInterp) bounded(st *cState, ph *ssa.Phi) bool {
	b := ph.Block()
	ok := false
	var look func(v ssa.Value, d int)
	look = func(v ssa.Value, d int) {
		if d > 3 || v.Referrers() == nil {
			return
		}
		for _, r := range *v.Referrers() {
			if bo, isB := r.(*ssa.BinOp); isB {
				if isCmp(bo.Op) {
					other := bo.X
					if other == v {
						other = bo.Y
					}
					if k, e := c.eval(st, other, 0).exactInt(); e && k <= 64 && k >= -64 {
						for _, u := range *bo.Referrers() {
							if _, isIf := u.(*ssa.If); isIf && u.Block() == b {
								ok = true
							}
						}
					}
				} else if bo.Op == token.ADD || bo.Op == token.SUB {
					look(bo, d+1)
				}
			}
		}
	}
	look(ph, 0)
	return ok
}

func (c *cInterp) edge(from, to *ssa.BasicBlock, st *cState) *cState {
	n := st.clone()
	rel := c.relevant(to.Parent())
	for _, i := range to.Instrs {
		ph, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		for k, p := range to.Preds {
			if p != from {
				continue
			}
			v := cvTop
			if rel[ph] {
				v = c.eval(st, ph.Edges[k], 0)
			}
			if v.k == 'I' && inCycle(to) {
				keep := int64(cHorizon)
				if c.bounded(st, ph) {
					keep = 70
				}
				l := map[string]num{}
				for s, x := range v.lin {
					if x.k == 1 && (x.v > keep || x.v < -keep) {
						x = num{2, x.v & 1}
					}
					l[s] = x
				}
				v = cv{k: 'I', lin: l}
			}
			if v.k == 'T' {
				delete(n.vals, ph)
			} else {
				n.vals[ph] = v
			}
		}
	}
	// forget what is out of scope
	for v := range n.vals {
		if in, ok := v.(ssa.Instruction); ok && in.Block() != nil {
			if _, isPhi := v.(*ssa.Phi); isPhi && in.Block() == to {
				continue
			}
			if !in.Block().Dominates(to) || (to.Dominates(in.Block()) && to != in.Block()) || (to == in.Block()) {
				delete(n.vals, v)
			}
		}
	}
	return n
}

func (c *cInterp) run(f *ssa.Function, args map[ssa.Value]cv, depth int) [][]cv {
	if depth > 6 || c.over {
		return nil
	}
	start := &cState{map[ssa.Value]cv{}, map[string]cv{}}
	var ks []string
	for k, v := range args {
		if v.k != 'T' {
			start.vals[k] = v
			ks = append(ks, fmt.Sprint(c.id(k), "=", v))
		}
	}
	sort.Strings(ks)
	mk := fmt.Sprint(f, strings.Join(ks, ";"))
	if r, ok := c.memo[mk]; ok {
		return r
	}
	c.memo[mk] = nil
	type item struct {
		b  *ssa.BasicBlock
		st *cState
	}
	var rets [][]cv
	retSeen := map[string]bool{}
	work := []item{{f.Blocks[0], start}}
	seen := map[string]bool{}
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		k := fmt.Sprint(it.b.Index, "/", c.key(it.st))
		if seen[k] {
			continue
		}
		seen[k] = true
		c.steps++
		if c.steps > 400000 {
			c.over = true
			return rets
		}
		states := []*cState{it.st}
		for _, i := range it.b.Instrs {
			var next []*cState
			for _, st := range states {
				next = append(next, c.step(i, st, depth)...)
			}
			states = next
		}
		last := it.b.Instrs[len(it.b.Instrs)-1]
		for _, st := range states {
			switch x := last.(type) {
			case *ssa.Return:
				var res []cv
				for _, v := range x.Results {
					res = append(res, c.eval(st, v, 0))
				}
				if s := fmt.Sprint(res); !retSeen[s] {
					retSeen[s] = true
					rets = append(rets, res)
				}
			case *ssa.If:
				v := c.eval(st, x.Cond, 0)
				for n, s := range it.b.Succs {
					if v.k == 'B' && v.b != (n == 0) {
						continue
					}
					work = append(work, item{s, c.edge(it.b, s, st)})
				}
			case *ssa.Jump:
				work = append(work, item{it.b.Succs[0], c.edge(it.b, it.b.Succs[0], st)})
			}
		}
	}
	c.memo[mk] = rets
	return rets
}

func (c *cInterp) step(i ssa.Instruction, st *cState, depth int) []*cState {
	one := []*cState{st}
	switch x := i.(type) {
	case *ssa.IndexAddr:
		b := c.eval(st, x.X, 0)
		if b.k != 'P' || !isFloats(x.X.Type()) {
			return one
		}
		if b.s == "data" || strings.HasPrefix(b.s, "same") {
			idx := c.eval(st, x.Index, 0)
			y, xx, ok := c.position(idx, "width")
			if ok {
				_, a := y.parity()
				_, b := xx.parity()
				ok = a && b
			}
			e := cEvent{x, y, xx, ok}
			k := fmt.Sprint(c.id(x), ok)
			if ok {
				yp, _ := y.parity()
				xp, _ := xx.parity()
				k += fmt.Sprint(yp, xp)
			}
			c.access[k] = e
		}
	case *ssa.Store:
		if ia, ok := x.Addr.(*ssa.IndexAddr); ok {
			b := c.eval(st, ia.X, 0)
			if b.k == 'P' {
				if strings.HasPrefix(b.s, "out") && isFloats(ia.X.Type()) {
					c.output(st, x, ia, b)
				}
				return one
			}
		}
		if cell, ok := c.cell(st, x.Addr); ok {
			n := st.clone()
			c.storeCell(n, cell, c.eval(st, x.Val, 0))
			return []*cState{n}
		}
	case *ssa.Call:
		t := x.Call.StaticCallee()
		if t == nil || !c.w.inMod[t] || len(t.Blocks) == 0 {
			return one
		}
		args := map[ssa.Value]cv{}
		use := false
		for k, p := range t.Params {
			v := c.eval(st, x.Call.Args[k], 0)
			args[p] = v
			use = use || v.k == 'P' || v.k == 'S' || v.k == 'I'
		}
		if !use {
			return one
		}
		rets := c.run(t, args, depth+1)
		if len(rets) == 0 {
			return one
		}
		var out []*cState
		seen := map[string]bool{}
		for _, rt := range rets {
			n := st.clone()
			if len(rt) == 1 {
				if rt[0].k != 'T' {
					n.vals[x] = rt[0]
				}
			} else {
				for _, r := range *x.Referrers() {
					if e, ok := r.(*ssa.Extract); ok && rt[e.Index].k != 'T' {
						n.vals[e] = rt[e.Index]
					}
				}
			}
			if k := c.key(n); !seen[k] {
				seen[k] = true
				out = append(out, n)
			}
		}
		return out
	}
	return one
}

func (c *cInterp) output(st *cState, x *ssa.Store, ia *ssa.IndexAddr, b cv) {
	v := c.eval(st, x.Val, 0)
	idx := c.eval(st, ia.Index, 0)
	if v.k != 'F' || idx.k != 'I' || len(v.comb) == 0 {
		return
	}
	stride := ""
	for s := range idx.lin {
		if s != "" {
			if stride != "" {
				return
			}
			stride = s
		}
	}
	if stride == "" {
		return // first row: the stride cannot be told
	}
	y, xx, ok := c.position(idx, stride)
	if !ok || y.k != 1 || xx.k != 1 {
		return
	}
	o := cOut{x, site{y.v, xx.v}, v.comb, v.konst}
	c.outs[fmt.Sprint(c.id(ia), idx, v)] = o
}

// ---- the check

var cfaPatterns = []string{"RGGB", "GRBG", "GBRG", "BGGR"}

func runC28(w *World, r *Report) {
	r.rule("photosite", "accesses to sensor data only touch photosites of the selected colour", 8)
	r.rule("centred", "an interpolated pixel is the average, centred on its position, of the photosites it is made from", 4)
	r.rule("supported", "every pattern is supported for every channel, in both steps", 1)

	// where the parameters of a job enter
	type entry struct {
		f    *ssa.Function
		site ssa.CallInstruction
		bind map[*ssa.Parameter]string // "channel", "cfa", "data", "width"
	}
	var entries []entry
	done := map[*ssa.Function]bool{}
	role := func(v ssa.Value) string {
		u, ok := v.(*ssa.UnOp)
		if !ok || u.Op != token.MUL {
			return ""
		}
		if ia, ok := u.X.(*ssa.IndexAddr); ok {
			if k, ok := constInt(ia.Index); ok && k == 0 {
				if u2, ok := ia.X.(*ssa.UnOp); ok {
					if fa, ok := u2.X.(*ssa.FieldAddr); ok && fieldName(fa.X.Type(), fa.Field) == "Naxisn" {
						return "width"
					}
				}
			}
			return ""
		}
		fa, ok := u.X.(*ssa.FieldAddr)
		if !ok {
			return ""
		}
		switch n := fieldName(fa.X.Type(), fa.Field); {
		case n == "Data" && isFloats(u.Type()):
			return "data"
		case n == "Channel" && types.Identical(u.Type(), types.Typ[types.String]):
			return "channel"
		case n == "ColorFilterArray":
			return "cfa"
		}
		return ""
	}
	for _, f := range w.Funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				ci, ok := i.(ssa.CallInstruction)
				if !ok {
					continue
				}
				t := ci.Common().StaticCallee()
				if t == nil || !w.inMod[t] || done[t] {
					continue
				}
				bind := map[*ssa.Parameter]string{}
				has := map[string]bool{}
				for k, p := range t.Params {
					if ro := role(ci.Common().Args[k]); ro != "" {
						bind[p] = ro
						has[ro] = true
					}
				}
				if has["cfa"] && has["data"] {
					done[t] = true
					entries = append(entries, entry{t, ci, bind})
				}
			}
		}
	}
	if len(entries) == 0 {
		r.undecided("no function takes sensor data together with a colour filter array pattern")
	}
	centredSeen := map[string]bool{}
	// other spellings of a name are interpreted like the name, or rejected
	patterns, channels := cfaPatterns, []string{"R", "G", "B"}
	for _, p := range cfaPatterns {
		patterns = append(patterns, strings.ToLower(p))
	}
	for _, e := range entries {
		for k := 0; k < len(patterns)*len(channels)*2; k++ {
			{
				pat, ch := patterns[k%len(patterns)], channels[k/len(patterns)%len(channels)]
				lower := pat != strings.ToUpper(pat)
				if k/len(patterns)/len(channels) == 1 {
					if lower {
						continue
					}
					lower, ch = true, strings.ToLower(ch)
				}
				c := &cInterp{w: w, names: map[ssa.Value]int{}, access: map[string]cEvent{}, outs: map[string]cOut{}, memo: map[string][][]cv{},
					rel: map[*ssa.Function]map[ssa.Value]bool{}, tables: map[*ssa.Global]map[string]constant.Value{}, undec: map[string]bool{}}
				args := map[ssa.Value]cv{}
				for p, ro := range e.bind {
					switch ro {
					case "data":
						args[p] = cv{k: 'P', s: "data"}
					case "width":
						args[p] = cv{k: 'I', lin: map[string]num{"width": exact(1)}}
					case "channel":
						args[p] = cv{k: 'S', s: ch}
					case "cfa":
						args[p] = cv{k: 'S', s: pat}
					}
				}
				rets := c.run(e.f, args, 0)
				if c.over {
					r.undecided("%s: channel %s of %s: too many states", fname(e.f), ch, pat)
					continue
				}
				okRet := false
				for _, rt := range rets {
					if n := len(rt); n > 0 && rt[n-1].k != 'X' {
						okRet = true
					}
				}
				if !okRet && len(rets) > 0 {
					if lower {
						continue
					}
					r.bad("supported", fname(e.f)+"|"+pat+"|"+ch, w.pos(e.f.Pos()), "always fails for channel %s of pattern %s", ch, pat)
					continue
				}
				nk := 0
				var keys []string
				for k := range c.access {
					keys = append(keys, k)
				}
				sort.Strings(keys)
				und := map[string]bool{}
				for _, k := range keys {
					a := c.access[k]
					where := fmt.Sprintf("%s %s", fname(a.i.Parent()), w.ipos(a.i))
					if !a.known {
						if !und[where] {
							und[where] = true
							r.undecided("%s: position accessed for channel %s of %s", where, ch, pat)
						}
						continue
					}
					nk++
					y, _ := a.y.parity()
					x, _ := a.x.parity()
					col := strings.ToUpper(string(pat[2*y+x]))
					if col == strings.ToUpper(ch) {
						r.ob("photosite", "%s: channel %s of %s at (%s,%s)", where, ch, pat, a.x, a.y)
					} else {
						r.bad("photosite", fname(a.i.Parent())+"|"+pat+"|"+ch+"|"+col, w.ipos(a.i), "for channel %s of pattern %s, accesses a photosite in column %s and row %s (counting from 0), which is %s", ch, pat, a.x, a.y, col)
					}
				}
				if nk > 0 {
					r.ob("supported", "%s: channel %s of %s", fname(e.f), ch, pat)
				} else if len(c.access) == 0 && okRet && !lower {
					r.bad("supported", fname(e.f)+"|"+pat+"|"+ch, w.pos(e.f.Pos()), "touches no sensor data for channel %s of pattern %s", ch, pat)
				}
				c.centred(r, pat, ch, centredSeen)
			}
		}
	}
	r.assume("images are addressed row by row with the width as stride; the width is taken to be arbitrary")
}

func (c *cInterp) centred(r *Report, pat, ch string, told map[string]bool) {
	w := c.w
	// origin of the output: offset between an output pixel and the photosite copied to it unchanged
	type ok struct {
		i   ssa.Instruction
		pos site
	}
	best := map[ok][]cOut{}
	for _, o := range c.outs {
		sum := o.kst
		for _, x := range o.comb {
			sum += x
		}
		if math.Abs(sum-1) > 1e-4 || o.kst != 0 {
			r.bad("centred", fname(o.i.Parent())+"|weights|"+pat+"|"+ch, w.ipos(o.i), "for channel %s of pattern %s, the photosites making up a pixel have weights that sum up to %.4g instead of one", ch, pat, sum)
			continue
		}
		if o.pos.x < 2 || o.pos.y < 2 {
			continue // at the border, photosites are missing
		}
		k := ok{o.i, o.pos}
		n := len(o.comb)
		switch {
		case len(best[k]) == 0 || n > len(best[k][0].comb):
			best[k] = []cOut{o}
		case n == len(best[k][0].comb):
			best[k] = append(best[k], o)
		}
	}
	// the origin is given by the pattern: offset of its RGGB cell
	red := strings.Index(strings.ToUpper(pat), "R")
	cellX, cellY := int64(red%2), int64(red/2)
	for k, os := range best {
		for _, o := range os {
			var cy, cx float64
			for s, x := range o.comb {
				cy += x * float64(s.y)
				cx += x * float64(s.x)
			}
			dy, dx := cy-float64(k.pos.y+cellY), cx-float64(k.pos.x+cellX)
			dy0, dx0 := cy-float64(k.pos.y), cx-float64(k.pos.x)
			if math.Abs(dy) < 1e-3 && math.Abs(dx) < 1e-3 || math.Abs(dy0) < 1e-3 && math.Abs(dx0) < 1e-3 {
				t := fmt.Sprintf("%s %s: channel %s of %s, %d photosites", fname(o.i.Parent()), w.ipos(o.i), ch, pat, len(o.comb))
				if !told[t] {
					told[t] = true
					r.ob("centred", "%s", t)
				}
				continue
			}
			r.bad("centred", fname(o.i.Parent())+"|centre|"+pat+"|"+ch, w.ipos(o.i), "for channel %s of pattern %s, the pixel in column %d and row %d of the output is interpolated from photosites centred on column %.2f and row %.2f of the sensor", ch, pat, k.pos.x, k.pos.y, cx, cy)
		}
	}
}
