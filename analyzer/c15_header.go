package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C15: written FITS headers.
//
// The length of everything put into the header is computed symbolically from the formats, slices and repetitions it is made
// of; the lengths along every path of a record writer have to add up to multiples of 80 for all inputs. Padding is evaluated
// for every remainder. Names and order of records come from evaluating the writer in context, and are compared to what the
// reader interprets.

func init() {
	register("C15", "FITS headers: symbolic record lengths, padding for every remainder, position of the END record, order and values of the mandatory records, agreement of the names written with the names read, no duplicate records", runC15)
}

type emitted struct {
	call ssa.CallInstruction
	to   ssa.Value // destination
	kind string    // format, string, char, bytes
	fmts string
	args []ssa.Value
	data ssa.Value
}

func emission(i ssa.Instruction) *emitted {
	ci, ok := i.(ssa.CallInstruction)
	if !ok {
		return nil
	}
	c := ci.Common()
	if c.IsInvoke() {
		if len(c.Args) != 1 {
			return nil
		}
		switch c.Method.Name() {
		case "Write":
			return &emitted{call: ci, to: c.Value, kind: "bytes", data: c.Args[0]}
		case "WriteString":
			return &emitted{call: ci, to: c.Value, kind: "string", data: c.Args[0]}
		case "WriteByte", "WriteRune":
			return &emitted{call: ci, to: c.Value, kind: "char", data: c.Args[0]}
		}
		return nil
	}
	n := calleeName(c)
	switch n {
	case "fmt.Fprintf":
		e := &emitted{call: ci, to: c.Args[0], kind: "format"}
		k, ok := c.Args[1].(*ssa.Const)
		if !ok {
			return &emitted{call: ci, to: c.Args[0], kind: "?"}
		}
		e.fmts, _ = constString(k)
		if len(c.Args) > 2 {
			e.args = variadicElems(c.Args[2])
		}
		return e
	case "fmt.Fprint", "fmt.Fprintln":
		return &emitted{call: ci, to: c.Args[0], kind: "?"}
	case "io.WriteString":
		return &emitted{call: ci, to: c.Args[0], kind: "string", data: c.Args[1]}
	}
	for _, p := range []string{"(*strings.Builder).", "(*bytes.Buffer).", "(*bufio.Writer)."} {
		if strings.HasPrefix(n, p) && len(c.Args) == 2 {
			switch n[len(p):] {
			case "Write":
				return &emitted{call: ci, to: c.Args[0], kind: "bytes", data: c.Args[1]}
			case "WriteString":
				return &emitted{call: ci, to: c.Args[0], kind: "string", data: c.Args[1]}
			case "WriteByte", "WriteRune":
				return &emitted{call: ci, to: c.Args[0], kind: "char", data: c.Args[1]}
			}
		}
	}
	return nil
}

// contents of a builder handed on
func (e *emitted) transfer() bool {
	if e.kind != "bytes" && e.kind != "string" {
		return false
	}
	v := e.data
	if cv, ok := v.(*ssa.Convert); ok {
		v = cv.X
	}
	cl, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	n := calleeName(&cl.Call)
	return n == "(*strings.Builder).String" || n == "(*bytes.Buffer).Bytes" || n == "(*bytes.Buffer).String"
}

type fmtVerb struct {
	text  string // constant text before
	width int
	star  bool
	verb  byte
	left  bool
	prec  int
}

func parseFormat(f string) (vs []fmtVerb, tail string, ok bool) {
	text := ""
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			text += f[i : i+1]
			continue
		}
		i++
		if i < len(f) && f[i] == '%' {
			text += "%"
			continue
		}
		v := fmtVerb{text: text, prec: -1}
		text = ""
		for i < len(f) && strings.IndexByte("-+ #0", f[i]) >= 0 {
			if f[i] == '-' {
				v.left = true
			} else if f[i] != '0' {
				return nil, "", false
			}
			i++
		}
		for i < len(f) && f[i] >= '0' && f[i] <= '9' {
			v.width = v.width*10 + int(f[i]-'0')
			i++
		}
		if i < len(f) && f[i] == '*' {
			v.star = true
			i++
		}
		if i < len(f) && f[i] == '.' {
			v.prec = 0
			i++
			for i < len(f) && f[i] >= '0' && f[i] <= '9' {
				v.prec = v.prec*10 + int(f[i]-'0')
				i++
			}
		}
		if i >= len(f) {
			return nil, "", false
		}
		v.verb = f[i]
		vs = append(vs, v)
	}
	return vs, text, true
}

// longest printed form of a number
func numberLen(t types.Type, v fmtVerb) int {
	b, ok := t.Underlying().(*types.Basic)
	if !ok || v.prec >= 0 {
		return -1
	}
	switch v.verb {
	case 'd', 'v':
		switch b.Kind() {
		case types.Int8, types.Uint8:
			return 4
		case types.Int16, types.Uint16:
			return 6
		case types.Int32:
			return 11
		case types.Uint32:
			return 10
		case types.Int64, types.Int, types.Uint64, types.Uint:
			return 20
		}
	case 'e', 'g', 'G', 'E':
	default:
		return -1
	}
	switch b.Kind() {
	case types.Float32:
		return 15
	case types.Float64:
		return 24
	}
	return -1
}

type textLen struct {
	p    *prover
	viol string
	und  string
}

func (t *textLen) strLen(v ssa.Value, b *ssa.BasicBlock, d int) poly {
	if x, ok := v.(*ssa.MakeInterface); ok {
		v = x.X
	}
	if d > 8 {
		return nil
	}
	switch x := v.(type) {
	case *ssa.Convert:
		if isByteSlice(x.Type()) || isStringT(x.Type()) {
			return t.strLen(x.X, b, d+1)
		}
	case *ssa.BinOp:
		if x.Op == token.ADD && isStringT(x.Type()) {
			l, r := t.strLen(x.X, b, d+1), t.strLen(x.Y, b, d+1)
			if l == nil || r == nil {
				return nil
			}
			return l.add(r, 1)
		}
	case *ssa.Call:
		switch calleeName(&x.Call) {
		case "strings.Repeat", "bytes.Repeat":
			if k, ok := t.strLen(x.Call.Args[0], b, d+1).konst(); ok {
				n := t.p.lin(x.Call.Args[1])
				t.need(b, n, "a negative number of repetitions")
				return n.mul(constPoly(k))
			}
			return nil
		case "fmt.Sprintf":
			if f, ok := x.Call.Args[0].(*ssa.Const); ok {
				s, _ := constString(f)
				var args []ssa.Value
				if len(x.Call.Args) > 1 {
					args = variadicElems(x.Call.Args[1])
				}
				return t.fmtLen(s, args, b, d+1)
			}
			return nil
		}
	}
	return t.p.lenOf(v)
}

func isStringT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (t *textLen) need(b *ssa.BasicBlock, q poly, what string) bool {
	switch t.p.ge0(b, q) {
	case vProved:
		return true
	case vRefuted:
		if t.viol == "" {
			t.viol = what
		}
	default:
		if t.und == "" {
			t.und = what + ": " + t.p.show(q) + " >= 0"
		}
	}
	return false
}

func (t *textLen) fmtLen(f string, args []ssa.Value, b *ssa.BasicBlock, d int) poly {
	vs, tail, ok := parseFormat(f)
	if !ok || len(vs) != len(args) {
		return nil
	}
	sum := constPoly(float64(len(tail)))
	for k, v := range vs {
		if v.star {
			return nil
		}
		sum = sum.add(constPoly(float64(len(v.text))), 1)
		a := args[k]
		if x, ok := a.(*ssa.MakeInterface); ok {
			a = x.X
		}
		if isStringT(a.Type()) && (v.verb == 's' || v.verb == 'v') {
			l := t.strLen(a, b, d+1)
			if l == nil {
				return nil
			}
			if v.prec >= 0 {
				if v.prec == v.width {
					sum = sum.add(constPoly(float64(v.width)), 1)
					continue
				}
				if v.width == 0 || v.prec > v.width {
					return nil
				}
				sum = sum.add(constPoly(float64(v.width)), 1)
				continue
			}
			if v.width == 0 {
				sum = sum.add(l, 1)
				continue
			}
			if k, ok := l.konst(); ok && int(k) > v.width {
				sum = sum.add(l, 1)
				continue
			}
			if !t.atMost(a, b, v.width, 0) {
				return nil
			}
			sum = sum.add(constPoly(float64(v.width)), 1)
			continue
		}
		n := numberLen(a.Type(), v)
		if k, ok := a.(*ssa.Const); ok && n >= 0 {
			if z, isI := constInt(k); isI && (v.verb == 'd' || v.verb == 'v') {
				m := len(strconv.FormatInt(z, 10))
				if m < v.width {
					m = v.width
				}
				sum = sum.add(constPoly(float64(m)), 1)
				continue
			}
		}
		if n < 0 || v.width == 0 {
			return nil
		}
		if n > v.width {
			if t.viol == "" {
				t.viol = fmt.Sprintf("a value that can take %d characters in a column of %d", n, v.width)
			}
			return nil
		}
		sum = sum.add(constPoly(float64(v.width)), 1)
	}
	return sum
}

// is a string never longer than n?
func (t *textLen) atMost(v ssa.Value, b *ssa.BasicBlock, n, d int) bool {
	what := fmt.Sprintf("a text that can be longer than its column of %d characters", n)
	if ph, ok := v.(*ssa.Phi); ok && d < 6 && (loopOf(ph.Block()) == nil || loopOf(ph.Block()).head != ph.Block()) {
		for i, ed := range ph.Edges {
			if k, ok := ed.(*ssa.Const); ok {
				if s, ok := constString(k); ok && len(s) <= n {
					continue
				}
			}
			q := constPoly(float64(n)).add(t.p.lenOf(ed), -1)
			pred := ph.Block().Preds[i]
			if x, ok := ed.(*ssa.Phi); ok && x.Block() == pred {
				if !t.atMost(ed, pred, n, d+1) {
					return false
				}
				continue
			}
			// what is known on this edge
			if k, ok := q.konst(); ok {
				if k < 0 {
					t.viol = what
					return false
				}
				continue
			}
			cs := t.p.facts(pred, 0).plus(t.p.edgeFacts(pred, ph.Block(), 0))
			if t.p.quick(cs, q) {
				continue
			}
			if !t.need(pred, q, what) {
				return false
			}
		}
		return true
	}
	return t.need(b, constPoly(float64(n)).add(t.p.lenOf(v), -1), what)
}

// length of one emission
func (t *textLen) of(e *emitted) poly {
	b := e.call.Block()
	switch e.kind {
	case "format":
		return t.fmtLen(e.fmts, e.args, b, 0)
	case "string", "bytes":
		return t.strLen(e.data, b, 0)
	case "char":
		if k, ok := constInt(e.data); ok && k < 128 {
			return constPoly(1)
		}
	}
	return nil
}

// does an instruction depend on the block size of 2880?
func blockSized(i ssa.Instruction) bool {
	seen := map[ssa.Value]bool{}
	var dep func(v ssa.Value, d int) bool
	dep = func(v ssa.Value, d int) bool {
		if v == nil || seen[v] || d > 12 {
			return false
		}
		seen[v] = true
		if k, ok := constInt(v); ok && (k == 2880 || k == 2879) {
			return true
		}
		if x, ok := v.(ssa.Instruction); ok {
			for _, o := range x.Operands(nil) {
				if *o != nil && dep(*o, d+1) {
					return true
				}
			}
			if sl, ok := v.(*ssa.Slice); ok {
				_ = sl
			}
		}
		return false
	}
	for _, o := range i.Operands(nil) {
		if *o != nil {
			if _, isG := (*o).(*ssa.Global); !isG && dep(*o, 0) {
				return true
			}
		}
	}
	// controlling conditions
	for b := i.Block(); b != nil; b = b.Idom() {
		d := b.Idom()
		if d == nil {
			break
		}
		if iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If); ok {
			if len(b.Preds) == 1 || loopOf(b) != nil {
				if dep(iff.Cond, 0) {
					return true
				}
			}
		}
	}
	return false
}

type c15 struct {
	w    *World
	r    *Report
	root *ssa.Function
	evs  []*c15ev

	unclear bool // texts of unknown content are written
}

type c15ev struct {
	at     ssa.Instruction // in the root function
	key    string          // constant key, prefix ending in #, "END", or "" for any key
	kx     cx              // the key
	val    cx              // the value
	call   ssa.CallInstruction
	env    *cenv
	format string
	open   bool // the value follows
}

func runC15(w *World, r *Report) {
	r.rule("record length", "every record is a multiple of 80 characters long for all keys, values and comments", 6)
	r.rule("padding", "header and data are padded to multiples of 2880 bytes, whatever their length", 2)
	r.rule("end", "the END record follows all others and precedes padding and data", 1)
	r.rule("mandatory", "SIMPLE, BITPIX, NAXIS and the NAXISn come first, in this order, with the right values", 4)
	r.rule("read back", "geometry, scaling and exposure are written under names the reader stores in the same fields", 4)
	r.rule("unique", "a record written explicitly does not occur among the other header entries as well", 4)
	r.rule("entries", "entries the reader keeps are written, each kind under its own keys", 5)
	r.rule("grammar", "the reader's grammar accepts every record written", 4)

	c := &c15{w: w, r: r}
	// the function that writes the header
	for _, f := range w.Funcs {
		if !mentions(f, "SIMPLE") {
			continue
		}
		c.root = f
		c.evs = nil
		c.collect()
		ok := false
		for _, e := range c.evs {
			if e.key == "SIMPLE" {
				ok = true
			}
		}
		if ok {
			break
		}
		c.root = nil
		c.evs = nil
	}
	if c.root == nil {
		r.undecided("the function that writes the header")
		return
	}
	c.lengths()
	c.padding()
	c.order()
	c.names()
	c.entries()
	c.grammar()
}

func mentions(f *ssa.Function, s string) bool {
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			for _, o := range i.Operands(nil) {
				if k, ok := (*o).(*ssa.Const); ok {
					if x, ok := constString(k); ok && x == s {
						return true
					}
				}
			}
		}
	}
	return false
}

// records written by the root function, with their keys
func (c *c15) collect() {
	ce := newCeval(c.w)
	re := ce.root(c.root)
	for _, b := range c.root.Blocks {
		for _, i := range b.Instrs {
			note := func(j ssa.Instruction, e *cenv) {
				em := emission(j)
				if em == nil || em.transfer() {
					return
				}
				c.event(ce, i, em, e)
			}
			note(i, re)
			ci, ok := i.(ssa.CallInstruction)
			if !ok {
				continue
			}
			t, mc := ce.callee(ci, re)
			if t == nil || !c.w.inMod[t] || len(t.Blocks) == 0 {
				continue
			}
			ce.explore(ce.env(t, ci, re, mc), note)
		}
	}
}

func (c *c15) event(ce *ceval, at ssa.Instruction, em *emitted, e *cenv) {
	ev := &c15ev{at: at, call: em.call, env: e, format: em.fmts}
	if blockSized(em.call) {
		return
	}
	// text written after the name of a record
	if n := len(c.evs); n > 0 && c.evs[n-1].open {
		l := c.evs[n-1]
		l.open = l.env == e
		if l.open {
			switch em.kind {
			case "string", "bytes":
				l.val = cx{em.data, e}
			case "format":
				if len(em.args) > 0 {
					l.val = cx{unbox(em.args[0]), e}
				}
			}
			l.open = false
			return
		}
	}
	text := ""
	if em.kind == "string" || em.kind == "bytes" {
		v := em.data
		if cv, ok := v.(*ssa.Convert); ok {
			v = cv.X
		}
		text = leadText(ce, cx{v, e}, 0)
		if text == "" && em.kind == "string" {
			c.unclear = true
		}
	} else if vs, tail, ok := parseFormat(em.fmts); ok {
		switch {
		case len(vs) == 0:
			text = tail
		case vs[0].text != "":
			text = vs[0].text
		case len(em.args) > 0 && isStringT(unbox(em.args[0]).Type()):
			text = leadText(ce, cx{unbox(em.args[0]), e}, 0)
			if strings.HasPrefix(text, "END") && !(len(vs) == 1 && tail == "" || len(vs) > 1 && strings.TrimSpace(vs[1].text) == "") {
				text = ""
			}
		}
	}
	if strings.HasPrefix(text, "END") && strings.TrimSpace(text[3:]) == "" {
		ev.key = "END"
		c.evs = append(c.evs, ev)
		return
	}
	if em.kind != "format" {
		return
	}
	vs, tail, ok := parseFormat(em.fmts)
	if !ok || len(vs) == 0 || len(vs) != len(em.args) {
		return
	}
	if vs[0].text != "" {
		// constant key
		if k := strings.IndexByte(vs[0].text, '='); k > 0 {
			ev.key = strings.TrimSpace(vs[0].text[:k])
			ev.val = cx{unbox(em.args[0]), e}
			c.evs = append(c.evs, ev)
		}
		return
	}
	next := tail
	if len(vs) > 1 {
		next = vs[1].text
	}
	if !strings.HasPrefix(strings.TrimLeft(next, " "), "=") {
		return
	}
	ev.kx = cx{unbox(em.args[0]), e}
	if len(vs) > 1 {
		ev.val = cx{unbox(em.args[1]), e}
	} else {
		ev.open = true
	}
	if k, ok := ce.constOf(ev.kx); ok && k.Kind() == constant.String {
		ev.key = constant.StringVal(k)
	} else if p := leadText(ce, ev.kx, 0); p != "" {
		ev.key = p + "#"
		if _, ok := c.keyNumber(ce, ev.kx, 0); !ok {
			ev.key = p
		}
	}
	c.evs = append(c.evs, ev)
}

// the value a text was formatted from
func (c *c15) formatted(ce *ceval, x cx) cx {
	for d := 0; d < 8; d++ {
		x = ce.strip(x)
		x.v = stripConv(x.v)
		cl, ok := x.v.(*ssa.Call)
		if !ok {
			if mi, ok := x.v.(*ssa.MakeInterface); ok {
				x.v = mi.X
				continue
			}
			y := ce.strip(x)
			if y == x {
				return x
			}
			x = y
			continue
		}
		switch calleeName(&cl.Call) {
		case "fmt.Sprintf":
			a := variadicElems(cl.Call.Args[1])
			if len(a) == 0 {
				return x
			}
			x.v = unbox(a[0])
		case "strconv.FormatFloat", "strconv.FormatInt", "strconv.Itoa", "strconv.FormatBool":
			x.v = cl.Call.Args[0]
		default:
			return x
		}
	}
	return x
}

func unbox(v ssa.Value) ssa.Value {
	if x, ok := v.(*ssa.MakeInterface); ok {
		return x.X
	}
	return v
}

// constant text a string begins with
func leadText(ce *ceval, x cx, d int) string {
	if k, ok := ce.constOf(x); ok && k.Kind() == constant.String {
		return constant.StringVal(k)
	}
	x = ce.strip(x)
	if d > 6 {
		return ""
	}
	switch v := x.v.(type) {
	case *ssa.BinOp:
		if v.Op == token.ADD {
			return leadText(ce, cx{v.X, x.e}, d+1)
		}
	case *ssa.Phi:
		// shortened versions of the same text
		for _, ed := range v.Edges {
			if t := leadText(ce, cx{ed, x.e}, d+1); t != "" {
				return t
			}
		}
	case *ssa.Slice:
		if v.Low == nil {
			return leadText(ce, cx{v.X, x.e}, d+1)
		}
		if z, ok := constInt(v.Low); ok && z == 0 {
			return leadText(ce, cx{v.X, x.e}, d+1)
		}
	case *ssa.Call:
		if calleeName(&v.Call) == "fmt.Sprintf" {
			if f, ok := v.Call.Args[0].(*ssa.Const); ok {
				s, _ := constString(f)
				if vs, tail, ok := parseFormat(s); ok {
					if len(vs) == 0 {
						return tail
					}
					return vs[0].text
				}
			}
		}
	}
	return ""
}

// ---- lengths

func (c *c15) lengths() {
	w, r := c.w, c.r
	// functions that write records
	fns := map[*ssa.Function]bool{}
	ce := newCeval(w)
	ce.explore(ce.root(c.root), func(i ssa.Instruction, e *cenv) {
		if em := emission(i); em != nil && !em.transfer() {
			fns[i.Parent()] = true
		}
	})
	var list []*ssa.Function
	for f := range fns {
		list = append(list, f)
	}
	sort.Slice(list, func(i, j int) bool { return fname(list[i]) < fname(list[j]) })
	for _, f := range list {
		c.pathLengths(f)
	}
	_ = r
}

func (c *c15) pathLengths(f *ssa.Function) {
	r, w := c.r, c.w
	p := newProver(w, func(v ssa.Value, isLen bool) bool {
		switch v.(type) {
		case *ssa.Parameter, *ssa.Extract, *ssa.UnOp, *ssa.Call:
			return isLen && isStringT(v.Type())
		}
		if lk, ok := v.(*ssa.Lookup); ok {
			return isLen && isStringT(v.Type()) && headerMap(lk.X) != ""
		}
		return false
	})
	isHeader := func(em *emitted) bool {
		// text goes into the header, pixels do not
		switch em.kind {
		case "bytes":
			return strings.Contains(fmt.Sprint(em.data.Type()), "string")
		}
		return true
	}
	lens := map[ssa.Instruction]poly{}
	single := true
	type em1 struct {
		e   *emitted
		len poly
		t   *textLen
	}
	var all []em1
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			em := emission(i)
			if em == nil || em.transfer() || !isHeader(em) || blockSized(i) {
				continue
			}
			t := &textLen{p: p}
			l := t.of(em)
			lens[i] = l
			all = append(all, em1{em, l, t})
			if t.viol != "" {
				r.bad("record length", fname(f)+"|"+em.fmts, w.ipos(i), "writes %s", t.viol)
				return
			}
			if l == nil || t.und != "" {
				if t.und == "" {
					t.und = "text of unknown length"
				}
				r.undecided("%s %s: %s", fname(f), w.ipos(i), t.und)
				return
			}
			if !c.multiple(p, b, l) {
				single = false
			}
		}
	}
	if len(all) == 0 {
		return
	}
	if single {
		for _, e := range all {
			r.ob("record length", "%s %s: %s", fname(f), w.ipos(e.e.call), p.show(e.len))
		}
		return
	}
	// along all paths
	type state struct {
		b   *ssa.BasicBlock
		sum poly
	}
	n := 0
	okAll := true
	heads := map[*ssa.BasicBlock]bool{}
	for _, l := range loopsOf(f) {
		heads[l.head] = true
	}
	check := func(sum poly, at *ssa.BasicBlock, where ssa.Instruction) {
		if sum.eq(poly{}) || c.multiple(p, at, sum) {
			return
		}
		if where == nil {
			return
		}
		okAll = false
		refuted := false
		if k, ok := sum.konst(); ok {
			_ = k
			refuted = true
		} else {
			near := 80.0
			if p.ge0(at, sum.add(constPoly(81), -1)) == vProved {
				near = 160
			}
			refuted = p.ge0(at, sum.add(constPoly(near), -1)) == vRefuted || p.ge0(at, constPoly(near).add(sum, -1)) == vRefuted
		}
		if refuted {
			r.bad("record length", fname(f), w.ipos(where), "the texts written here make a record of %s characters instead of 80", p.show(sum))
		} else {
			r.undecided("%s %s: length of a record, %s", fname(f), w.ipos(where), p.show(sum))
		}
	}
	onPath := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, sum poly, last ssa.Instruction)
	walk = func(b *ssa.BasicBlock, sum poly, last ssa.Instruction) {
		if n++; n > 2000 || !okAll {
			return
		}
		at := b
		if last != nil {
			at = last.Block()
		}
		if heads[b] {
			check(sum, at, last)
			sum, last = poly{}, nil
		}
		if onPath[b] {
			return
		}
		onPath[b] = true
		for _, i := range b.Instrs {
			if l, ok := lens[i]; ok {
				sum = sum.add(l, 1)
				last = i
			}
		}
		if len(b.Succs) == 0 {
			if last != nil {
				at = last.Block()
			}
			check(sum, at, last)
		}
		for _, s := range b.Succs {
			walk(s, sum, last)
		}
		delete(onPath, b)
	}
	walk(f.Blocks[0], poly{}, nil)
	if okAll {
		for _, e := range all {
			r.ob("record length", "%s %s: part of a record", fname(f), w.ipos(e.e.call))
		}
	}
}

func (c *c15) multiple(p *prover, b *ssa.BasicBlock, l poly) bool {
	if k, ok := l.konst(); ok {
		return k > 0 && int(k)%80 == 0
	}
	for _, k := range []float64{80, 160, 240} {
		d := l.add(constPoly(k), -1)
		if p.ge0(b, d) == vProved && p.ge0(b, poly{}.add(d, -1)) == vProved {
			return true
		}
	}
	return false
}

// ---- padding

func (c *c15) padding() {
	w, r := c.w, c.r
	type res struct {
		total int
		ok    bool
		char  string
		at    ssa.Instruction
	}
	run := func(h, l int64) (res res) {
		res.ok = true
		ce := newCeval(w)
		delta := int64(0)
		ce.known = func(x cx) (constant.Value, bool) {
			switch v := x.v.(type) {
			case *ssa.Call:
				switch calleeName(&v.Call) {
				case "(*strings.Builder).Len", "(*bytes.Buffer).Len":
					return constant.MakeInt64(h + delta), true
				}
				if b, ok := v.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
					a := v.Call.Args[0]
					if isFloats(a.Type()) {
						return constant.MakeInt64(l), true
					}
					if cv, ok := a.(*ssa.Convert); ok {
						a = cv.X
					}
					if cl, ok := a.(*ssa.Call); ok {
						switch calleeName(&cl.Call) {
						case "(*strings.Builder).String", "(*bytes.Buffer).String", "(*bytes.Buffer).Bytes":
							return constant.MakeInt64(h), true
						}
					}
				}
			case *ssa.UnOp:
				if isFieldLoad(v, "Pixels") {
					return constant.MakeInt64(l), true
				}
			}
			return nil, false
		}
		ce.explore(ce.root(c.root), func(i ssa.Instruction, e *cenv) {
			em := emission(i)
			if em == nil || em.transfer() || !blockSized(i) {
				return
			}
			n := int64(0)
			switch em.kind {
			case "char":
				n = 1
				if k, ok := constInt(em.data); ok {
					res.char = string(rune(k))
				}
			case "string", "bytes":
				k, ok := evalLen(ce, cx{em.data, e}, 0)
				if !ok {
					if !blockSizedData(em) {
						return
					}
					res.ok = false
					res.at = i
					return
				}
				n = k
			default:
				res.ok = false
				res.at = i
				return
			}
			// number of times
			for l := loopOf(i.Block()); l != nil; l = loopOuter(l) {
				t := int64(-1)
				for _, g := range l.guards() {
					step := g.x.step
					if g.x.inc != nil {
						if k, ok := ce.constOf(cx{g.x.inc, e}); ok {
							step, _ = constant.Int64Val(k)
						}
					}
					lo, ok1 := ce.constOf(cx{g.x.init, e})
					hi, ok2 := ce.constOf(cx{g.bound, e})
					if !ok1 || !ok2 || step == 0 {
						continue
					}
					a, _ := constant.Int64Val(lo)
					b, _ := constant.Int64Val(hi)
					t = 0
					a += g.x.off
					for t < 20000 && cmp64(a, g.op, b) {
						t++
						a += step
					}
				}
				if t < 0 {
					// until the length is right
					for _, ex := range l.exits() {
						iff, ok := ex.from.Instrs[len(ex.from.Instrs)-1].(*ssa.If)
						if !ok {
							continue
						}
						for try := int64(0); try <= 2880 && t < 0; try++ {
							ce.consts, ce.busy = nil, nil
							delta = try * n
							k, ok := ce.constOf(cx{iff.Cond, e})
							if !ok {
								break
							}
							if constant.BoolVal(k) == (ex.k == 0) {
								t = try
							}
						}
						delta = 0
						ce.consts, ce.busy = nil, nil
					}
				}
				if t < 0 {
					res.ok = false
					res.at = i
					return
				}
				n *= t
			}
			res.total += int(n)
			res.at = i
		})
		return
	}
	okH, okD := true, true
	for m := int64(0); m < 2880 && okH; m += 80 {
		x := run(5760+m, 1440)
		if !x.ok {
			r.undecided("%s: amount of padding of the header", fname(c.root))
			okH, okD = false, false
			break
		}
		if (5760+int(m)+x.total)%2880 != 0 {
			okH = false
			at := w.pos(c.root.Pos())
			if x.at != nil {
				at = w.ipos(x.at)
			}
			r.bad("padding", "header", at, "a header of %d bytes is padded by %d bytes to %d, which is not a multiple of 2880", 5760+m, x.total, 5760+int(m)+x.total)
		}
	}
	if okH {
		r.ob("padding", "%s: header, all 36 remainders", fname(c.root))
	}
	for m := int64(0); m < 720 && okD; m++ {
		x := run(5760, 1440+m)
		if !x.ok {
			r.undecided("%s: amount of padding of the data", fname(c.root))
			okD = false
			break
		}
		if (4*int(m)+x.total)%2880 != 0 {
			okD = false
			at := w.pos(c.root.Pos())
			if x.at != nil {
				at = w.ipos(x.at)
			}
			r.bad("padding", "data", at, "data of %d bytes is padded by %d bytes to %d, which is not a multiple of 2880", 4*(1440+m), x.total, 4*(1440+int(m))+x.total)
		}
	}
	if okD {
		r.ob("padding", "%s: data, all 720 remainders", fname(c.root))
	}
}

func blockSizedData(em *emitted) bool {
	if em.data == nil {
		return false
	}
	x, ok := em.data.(ssa.Instruction)
	if !ok {
		return false
	}
	for _, o := range x.Operands(nil) {
		if y, ok := (*o).(ssa.Instruction); ok {
			for _, p := range y.Operands(nil) {
				if k, ok := constInt(*p); ok && k == 2880 {
					return true
				}
			}
		}
	}
	return false
}

func cmp64(a int64, op token.Token, b int64) bool {
	return constant.Compare(constant.MakeInt64(a), op, constant.MakeInt64(b))
}

// length of a text as a number
func evalLen(ce *ceval, x cx, d int) (int64, bool) {
	if d > 8 {
		return 0, false
	}
	if k, ok := ce.constOf(x); ok && k.Kind() == constant.String {
		return int64(len(constant.StringVal(k))), true
	}
	x = ce.strip(x)
	num := func(v ssa.Value) (int64, bool) {
		k, ok := ce.constOf(cx{v, x.e})
		if !ok || k.Kind() != constant.Int {
			return 0, false
		}
		n, ok := constant.Int64Val(k)
		return n, ok
	}
	switch v := x.v.(type) {
	case *ssa.Convert:
		return evalLen(ce, cx{v.X, x.e}, d+1)
	case *ssa.MakeSlice:
		return num(v.Len)
	case *ssa.Slice:
		lo := int64(0)
		if v.Low != nil {
			n, ok := num(v.Low)
			if !ok {
				return 0, false
			}
			lo = n
		}
		if v.High == nil {
			if pt, ok := v.X.Type().Underlying().(*types.Pointer); ok {
				if at, ok := pt.Elem().Underlying().(*types.Array); ok {
					return at.Len() - lo, true
				}
			}
			n, ok := evalLen(ce, cx{v.X, x.e}, d+1)
			return n - lo, ok
		}
		n, ok := num(v.High)
		return n - lo, ok
	case *ssa.BinOp:
		if v.Op == token.ADD {
			a, ok1 := evalLen(ce, cx{v.X, x.e}, d+1)
			b, ok2 := evalLen(ce, cx{v.Y, x.e}, d+1)
			return a + b, ok1 && ok2
		}
	case *ssa.Call:
		switch calleeName(&v.Call) {
		case "strings.Repeat", "bytes.Repeat":
			a, ok1 := evalLen(ce, cx{v.Call.Args[0], x.e}, d+1)
			b, ok2 := num(v.Call.Args[1])
			return a * b, ok1 && ok2
		}
	}
	return 0, false
}

// ---- order

func (c *c15) order() {
	r, w := c.r, c.w
	first := map[string]*c15ev{}
	for _, e := range c.evs {
		if first[e.key] == nil {
			first[e.key] = e
		}
	}
	anchor := func(e *c15ev) *ssa.BasicBlock {
		b := e.at.Block()
		for l := loopOf(b); l != nil; l = loopOuter(l) {
			b = l.head
		}
		return b
	}
	comesBefore := func(a, b *c15ev) bool {
		if a.at == b.at {
			return true
		}
		if a.at.Block() == b.at.Block() {
			return before(a.at, b.at)
		}
		return anchor(a).Dominates(b.at.Block()) && !blockReaches(b.at.Block(), a.at.Block())
	}
	// END
	end := first["END"]
	if end == nil && c.unclear {
		r.undecided("%s: which of the texts is the END record", fname(c.root))
	} else if end == nil {
		r.bad("end", "missing", w.pos(c.root.Pos()), "no END record is written")
	} else {
		ok := true
		for _, e := range c.evs {
			if e != end && e.key != "END" && !(e.at.Block() == end.at.Block() && before(e.at, end.at) || e.at.Block() != end.at.Block() && !blockReaches(end.at.Block(), e.at.Block())) {
				ok = false
				r.bad("end", "order", w.ipos(e.at), "record %s is written after the END record", e.name())
			}
		}
		// hand over to the output
		for _, b := range c.root.Blocks {
			for _, i := range b.Instrs {
				em := emission(i)
				if em == nil || !em.transfer() {
					if em == nil || !blockSized(i) {
						continue
					}
				}
				if !(end.at.Block() == b && before(end.at, i) || end.at.Block() != b && end.at.Block().Dominates(b)) {
					ok = false
					r.bad("end", "before", w.ipos(i), "the header is padded or written out before its END record was added")
				}
			}
		}
		if ok {
			r.ob("end", "%s %s: END after %d other kinds of records", fname(c.root), w.ipos(end.at), len(c.evs)-1)
		}
	}
	// mandatory
	want := []string{"SIMPLE", "BITPIX", "NAXIS", "NAXIS#"}
	for k, name := range want {
		e := first[name]
		if e == nil {
			dyn := false
			for _, x := range c.evs {
				if x.key == "" && x.env.up == nil {
					dyn = true
				}
			}
			if dyn {
				r.undecided("%s: mandatory record %s", fname(c.root), name)
			} else {
				r.bad("mandatory", name, w.pos(c.root.Pos()), "mandatory record %s is not written", strings.Replace(name, "#", "n", 1))
			}
			continue
		}
		for _, x := range c.evs {
			early := false
			for _, n := range want[:k+1] {
				if x.key == n {
					early = true
				}
			}
			if !early && !comesBefore(e, x) {
				r.bad("mandatory", name+"|order", w.ipos(e.at), "mandatory record %s does not come before %s on every path", strings.Replace(name, "#", "n", 1), x.name())
				break
			}
		}
		c.mandatoryValue(name, e)
	}
}

func (e *c15ev) name() string {
	if e.key == "" {
		return "of other header entries"
	}
	return strings.Replace(e.key, "#", "n", 1)
}

func (c *c15) mandatoryValue(name string, e *c15ev) {
	r, w := c.r, c.w
	ce := newCeval(c.w)
	val := e.val
	bad := func(f string, a ...interface{}) { r.bad("mandatory", name+"|value", w.ipos(e.at), f, a...) }
	switch name {
	case "SIMPLE":
		k, ok := ce.constOf(val)
		if !ok {
			k, ok = ce.constOf(c.formatted(ce, val))
		}
		if ok && (k.Kind() == constant.String && constant.StringVal(k) == "T" || k.Kind() == constant.Bool && constant.BoolVal(k)) {
			r.ob("mandatory", "%s: SIMPLE is T", w.ipos(e.at))
		} else if ok {
			bad("SIMPLE is written as %s", k)
		} else {
			r.undecided("%s: value of SIMPLE", w.ipos(e.at))
		}
	case "BITPIX":
		r.ob("mandatory", "%s: BITPIX (value checked under C14)", w.ipos(e.at))
	case "NAXIS":
		v := c.formatted(ce, val)
		if cl, ok := v.v.(*ssa.Call); ok {
			if b, ok := cl.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				if isFieldLoad(ce.strip(cx{cl.Call.Args[0], v.e}).v, "Naxisn") {
					r.ob("mandatory", "%s: NAXIS is the number of axes", w.ipos(e.at))
					return
				}
			}
		}
		if k, ok := ce.constOf(val); ok {
			bad("NAXIS is always %s, whatever the number of axes of the image", k)
			return
		}
		if isFieldLoad(stripConv(v.v), "Pixels") || isFieldLoad(stripConv(v.v), "Bitpix") {
			bad("NAXIS is not the number of axes")
			return
		}
		r.undecided("%s: value of NAXIS", w.ipos(e.at))
	case "NAXIS#":
		kp, ok := c.keyNumber(ce, e.kx, 0)
		if !ok {
			r.undecided("%s: number in NAXISn", w.ipos(e.at))
			return
		}
		v := c.formatted(ce, val)
		ld, ok := v.v.(*ssa.UnOp)
		var ix poly
		if ok && ld.Op == token.MUL {
			if ia, ok := ld.X.(*ssa.IndexAddr); ok && isFieldLoad(ce.strip(cx{ia.X, v.e}).v, "Naxisn") {
				ix = ce.lin(cx{ia.Index, v.e})
			}
		}
		if ix == nil {
			r.undecided("%s: value of NAXISn", w.ipos(e.at))
			return
		}
		d := kp.add(ix, -1)
		if !d.eq(constPoly(1)) {
			bad("NAXISn is written with the length of another axis than axis n")
			return
		}
		// all axes
		if z := ix[""]; z != 0 {
			bad("the first axis is left out")
			return
		}
		for m, k := range ix {
			u := ce.units[m]
			if u == nil {
				continue
			}
			if k != 1 {
				bad("axes are left out")
				return
			}
			for _, g := range u.l.guards() {
				if g.op != token.LSS {
					continue
				}
				hi := ce.strip(cx{stripConv(g.bound), v.e})
				if cl, ok := stripConv(hi.v).(*ssa.Call); ok {
					if b, ok := cl.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" && isFieldLoad(ce.strip(cx{cl.Call.Args[0], hi.e}).v, "Naxisn") {
						r.ob("mandatory", "%s: NAXISn for every axis", w.ipos(e.at))
						return
					}
				}
				if kk, ok := ce.constOf(cx{g.bound, v.e}); ok {
					bad("NAXISn is written for %s axes, whatever the number of axes", kk)
					return
				}
				if bo, ok := stripConv(hi.v).(*ssa.BinOp); ok && (bo.Op == token.SUB || bo.Op == token.ADD) {
					bad("NAXISn is not written for every axis")
					return
				}
			}
		}
		r.undecided("%s: number of NAXISn records", w.ipos(e.at))
	}
}

// number a key such as NAXISn ends with
func (c *c15) keyNumber(ce *ceval, x cx, d int) (poly, bool) {
	if d > 6 {
		return nil, false
	}
	x = ce.strip(x)
	switch v := x.v.(type) {
	case *ssa.Phi:
		for _, ed := range v.Edges {
			if p, ok := c.keyNumber(ce, cx{ed, x.e}, d+1); ok {
				return p, true
			}
		}
	case *ssa.Slice:
		return c.keyNumber(ce, cx{v.X, x.e}, d+1)
	case *ssa.BinOp:
		if v.Op == token.ADD {
			return c.keyNumber(ce, cx{v.Y, x.e}, d+1)
		}
	case *ssa.Call:
		switch calleeName(&v.Call) {
		case "fmt.Sprintf":
			if len(v.Call.Args) == 2 {
				if a := variadicElems(v.Call.Args[1]); len(a) > 0 {
					y := unbox(a[len(a)-1])
					if isInt(y.Type()) {
						return ce.lin(cx{y, x.e}), true
					}
				}
			}
		case "strconv.Itoa", "strconv.FormatInt":
			return ce.lin(cx{v.Call.Args[0], x.e}), true
		}
	}
	return nil, false
}

// ---- names

type readKey struct {
	key  string
	maps map[string]bool // header maps searched
	dels map[string]bool // ... and removed from
	at   ssa.Instruction
}

func (c *c15) names() {
	r, w := c.r, c.w
	// what the reader stores where
	read := map[string][]readKey{}
	defaults := map[string][]float64{}
	removed, kept := map[string]bool{}, map[string]bool{}
	for _, f := range w.Funcs {
		if f.Pkg != c.root.Pkg || f == c.root || !readsHeader(w, f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				switch x := i.(type) {
				case *ssa.Store:
					name := ""
					if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
						name = fieldName(fa.X.Type(), fa.Field)
					} else if ia, ok := x.Addr.(*ssa.IndexAddr); ok {
						if u, ok := ia.X.(*ssa.UnOp); ok {
							if fa, ok := u.X.(*ssa.FieldAddr); ok {
								name = fieldName(fa.X.Type(), fa.Field) + "[]"
							}
						}
					}
					if name == "" {
						continue
					}
					for _, k := range c.keysInto(x.Val, map[ssa.Value]bool{}) {
						read[name] = append(read[name], k)
					}
					collectConsts(x.Val, map[ssa.Value]bool{}, func(v float64) { defaults[name] = append(defaults[name], v) })
				case *ssa.Call:
					if k := c.popKey(x); k != nil {
						all := true
						for m := range k.maps {
							all = all && k.dels[m]
						}
						if all && !kept[k.key] {
							removed[k.key] = true
						} else if !all {
							kept[k.key] = true
							delete(removed, k.key)
						}
					}
					if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "delete" {
						if k, ok := x.Call.Args[1].(*ssa.Const); ok {
							if s, ok := constString(k); ok {
								removed[s] = true
							}
						}
					}
				}
			}
		}
	}
	if len(read) == 0 {
		r.undecided("which header entries the reader interprets")
		return
	}
	ce := newCeval(w)
	// removed by the writer before the other entries
	ce.explore(ce.root(c.root), func(i ssa.Instruction, e *cenv) {
		x, ok := i.(*ssa.Call)
		if !ok {
			return
		}
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "delete" {
			if k, ok := ce.constOf(cx{x.Call.Args[1], e}); ok && k.Kind() == constant.String {
				removed[constant.StringVal(k)] = true
			}
		}
	})
	dynamic := false
	for _, e := range c.evs {
		if e.key == "" {
			dynamic = true
		}
	}
	seen := map[string]bool{}
	for _, e := range c.evs {
		if e.key == "" || e.key == "END" || seen[e.key] {
			if e.key != "" && seen[e.key] && e.key != "END" && !strings.HasSuffix(e.key, "#") {
				for _, o := range c.evs {
					if o != e && o.key == e.key && o.at != e.at && blockReaches(o.at.Block(), e.at.Block()) {
						r.bad("unique", e.key+"|twice", w.ipos(e.at), "record %s is written twice", e.key)
						break
					}
				}
			}
			continue
		}
		seen[e.key] = true
		if dynamic {
			k := e.key
			if strings.HasSuffix(k, "#") {
				if removed[k] {
					r.ob("unique", "%s: %s removed from the other entries", w.ipos(e.at), e.name())
				} else {
					r.bad("unique", k, w.ipos(e.at), "record %s is written explicitly, but entries of these names read from a file are kept and written as well", e.name())
				}
			} else if removed[k] {
				r.ob("unique", "%s: %s removed from the other entries", w.ipos(e.at), k)
			} else {
				r.bad("unique", k, w.ipos(e.at), "record %s is written explicitly, but an entry of this name read from a file is kept and written as well", k)
			}
		}
	}
	// fields
	fields := []struct{ field, what string }{{"Bzero", "zero offset"}, {"Bscale", "scale"}, {"Exposure", "exposure"}}
	for _, fd := range fields {
		keys := map[string]*c15ev{}
		for _, e := range c.evs {
			if e.val.v == nil {
				continue
			}
			v := c.formatted(ce, e.val)
			if isFieldLoad(v.v, fd.field) {
				keys[e.key] = e
			}
		}
		rk := read[fd.field]
		if len(rk) == 0 {
			r.undecided("where the reader gets %s from", fd.field)
			continue
		}
		if len(keys) == 0 {
			hidden := false
			for _, e := range c.evs {
				for _, k := range rk {
					if e.key == k.key {
						v := c.formatted(ce, e.val)
						if _, ok := v.v.(*ssa.Const); !ok && !c.isField(v.v) {
							hidden = true
						}
					}
				}
			}
			if hidden {
				r.undecided("value written for %s", fd.field)
				continue
			}
			r.bad("read back", fd.field+"|missing", w.pos(c.root.Pos()), "the %s of the image is not written to the header", fd.what)
			continue
		}
		for k, e := range keys {
			var hit *readKey
			for j := range rk {
				if rk[j].key == k {
					hit = &rk[j]
				}
			}
			if hit == nil {
				if k == "" || strings.HasSuffix(k, "#") {
					r.undecided("%s: name under which %s is written", w.ipos(e.at), fd.field)
					continue
				}
				r.bad("read back", fd.field, w.ipos(e.at), "the %s is written as %s, which the reader does not interpret as such", fd.what, k)
				continue
			}
			// read by others
			for other, ks := range read {
				for _, o := range ks {
					if other != fd.field && o.key == k {
						r.bad("read back", fd.field+"|other", w.ipos(o.at), "the reader stores %s in %s as well", k, other)
					}
				}
			}
			if !hit.maps["Floats"] || !hit.maps["Ints"] {
				r.bad("read back", fd.field+"|kind", w.ipos(hit.at), "%s is written as a decimal number, but only looked up among %s", k, mapNames(hit.maps))
				continue
			}
			// conditions
			if cond := c.condition(e); cond != nil {
				dflt := map[float64]bool{}
				for _, d := range defaults[fd.field] {
					dflt[d] = true
				}
				bo, neg := stripNot(cond.Cond)
				b, ok := bo.(*ssa.BinOp)
				var kv float64
				okC := false
				if ok && isFieldLoad(b.X, fd.field) {
					if kc, isK := b.Y.(*ssa.Const); isK {
						kv, okC = constFloat(kc)
					}
				}
				stayTrue := cond.Block().Succs[0].Dominates(e.at.Block())
				op := token.ILLEGAL
				if ok {
					op = b.Op
					if !stayTrue != neg {
						op = negOp(op)
					}
				}
				switch {
				case !okC:
					r.undecided("%s: when %s is written", w.ipos(e.at), k)
				case op == token.EQL:
					r.bad("read back", fd.field+"|condition", w.ipos(e.at), "%s is only written when it is %g", k, kv)
				case !dflt[kv]:
					r.bad("read back", fd.field+"|condition", w.ipos(e.at), "%s is not written when it is %g, but the reader takes another value if it is missing", k, kv)
				default:
					r.ob("read back", "%s: %s as %s unless %g", w.ipos(e.at), fd.field, k, kv)
				}
				continue
			}
			r.ob("read back", "%s: %s as %s", w.ipos(e.at), fd.field, k)
		}
	}
	// values for missing entries
	for f, std := range map[string]float64{"Bzero": 0, "Bscale": 1, "Exposure": 0} {
		for _, d := range defaults[f] {
			if d != std {
				r.bad("read back", f+"|default", w.pos(c.root.Pos()), "the reader sets %s to %g instead of %g when the file does not state it", f, d, std)
			}
		}
	}
	// geometry
	geo := false
	for _, k := range read["Naxisn[]"] {
		if k.key == "NAXIS#" {
			geo = true
		}
	}
	if geo {
		r.ob("read back", "axes as NAXISn")
	} else {
		r.undecided("names under which the reader finds the axes")
	}
}

func (c *c15) isField(v ssa.Value) bool {
	u, ok := v.(*ssa.UnOp)
	if !ok {
		return false
	}
	_, ok = u.X.(*ssa.FieldAddr)
	return ok
}

func mapNames(m map[string]bool) string {
	var s []string
	for k := range m {
		s = append(s, k)
	}
	sort.Strings(s)
	return strings.Join(s, ", ")
}

// the branch that decides whether a record is written, if it is not always written
func (c *c15) condition(e *c15ev) *ssa.If {
	end := e.at.Block()
	for _, b := range c.root.Blocks {
		rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || b == c.root.Recover {
			continue
		}
		if end.Dominates(rt.Block()) {
			continue
		}
		for d := end; d != nil; d = d.Idom() {
			i := d.Idom()
			if i == nil {
				break
			}
			if iff, ok := i.Instrs[len(i.Instrs)-1].(*ssa.If); ok && i.Dominates(rt.Block()) && !d.Dominates(rt.Block()) {
				return iff
			}
		}
	}
	return nil
}

func readsHeader(w *World, f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if cl, ok := i.(*ssa.Call); ok {
				for _, a := range cl.Call.Args {
					if k, ok := a.(*ssa.Const); ok {
						if s, ok := constString(k); ok && (s == "BITPIX" || s == "BSCALE" || s == "BZERO" || s == "NAXIS" || s == "EXPOSURE") {
							return true
						}
					}
				}
			}
			if lk, ok := i.(*ssa.Lookup); ok {
				if k, ok := lk.Index.(*ssa.Const); ok {
					if s, ok := constString(k); ok && (s == "BITPIX" || s == "BSCALE" || s == "BZERO" || s == "NAXIS" || s == "EXPOSURE") {
						return true
					}
				}
			}
		}
	}
	return false
}

// a call that takes a header entry
func (c *c15) popKey(x *ssa.Call) *readKey {
	t := x.Call.StaticCallee()
	if t == nil || !c.w.inMod[t] {
		return nil
	}
	ce := newCeval(c.w)
	for k, a := range x.Call.Args {
		if !isStringT(a.Type()) || k >= len(t.Params) {
			continue
		}
		key := ""
		if kk, ok := a.(*ssa.Const); ok {
			key, _ = constString(kk)
		} else if s := leadText(ce, cx{a, nil}, 0); s != "" {
			key = s + "#"
		}
		if key == "" {
			continue
		}
		rk := &readKey{key: key, maps: map[string]bool{}, dels: map[string]bool{}, at: x}
		// maps searched with it
		var scan func(f *ssa.Function, p ssa.Value, d int)
		scan = func(f *ssa.Function, p ssa.Value, d int) {
			if d > 3 {
				return
			}
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					switch y := i.(type) {
					case *ssa.Lookup:
						if y.Index == p {
							if m := headerMap(y.X); m != "" {
								rk.maps[m] = true
							}
						}
					case *ssa.Call:
						if bi, ok := y.Call.Value.(*ssa.Builtin); ok && bi.Name() == "delete" && y.Call.Args[1] == p {
							rk.dels[headerMap(y.Call.Args[0])] = true
						}
						if t2 := y.Call.StaticCallee(); t2 != nil && c.w.inMod[t2] {
							for k2, a2 := range y.Call.Args {
								if a2 == p && k2 < len(t2.Params) {
									scan(t2, t2.Params[k2], d+1)
								}
							}
						}
					}
				}
			}
		}
		scan(t, t.Params[k], 0)
		if len(rk.maps) > 0 {
			return rk
		}
	}
	return nil
}

func headerMap(v ssa.Value) string {
	u, ok := v.(*ssa.UnOp)
	if !ok {
		return ""
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	if !ok {
		return ""
	}
	return fieldName(fa.X.Type(), fa.Field)
}

// header entries a value comes from
func (c *c15) keysInto(v ssa.Value, seen map[ssa.Value]bool) (r []readKey) {
	if seen[v] || len(seen) > 40 {
		return
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Extract:
		return c.keysInto(x.Tuple, seen)
	case *ssa.Call:
		if k := c.popKey(x); k != nil {
			return []readKey{*k}
		}
	case *ssa.Convert:
		return c.keysInto(x.X, seen)
	case *ssa.Phi:
		for _, e := range x.Edges {
			r = append(r, c.keysInto(e, seen)...)
		}
	case *ssa.UnOp:
		if a, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
			for _, u := range *a.Referrers() {
				if s, ok := u.(*ssa.Store); ok && s.Addr == ssa.Value(a) {
					r = append(r, c.keysInto(s.Val, seen)...)
				}
			}
		}
	case *ssa.Lookup:
		if k, ok := x.Index.(*ssa.Const); ok {
			if s, ok := constString(k); ok {
				r = append(r, readKey{key: s, maps: map[string]bool{headerMap(x.X): true}, at: x})
			}
		}
	}
	return
}

func collectConsts(v ssa.Value, seen map[ssa.Value]bool, f func(float64)) {
	if seen[v] {
		return
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Const:
		if k, ok := constFloat(x); ok {
			f(k)
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			collectConsts(e, seen, f)
		}
	}
}
