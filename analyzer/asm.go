package main

// Bounds of memory accesses in the assembly routines: an affine abstract interpretation of pointer registers.
//
// Integer registers hold affine forms over the arguments (pointers, lengths and integers), loops are accelerated when all
// registers advance by constants, and branch conditions add linear constraints. Every memory operand then yields two
// obligations: not below the start, and not past the end of the array its address is based on. Whatever the routine needs
// from its caller for that (a minimal width, a length divisible by the vector size) is inferred as its contract.

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

type asmInstr struct {
	op   string
	args []string
	line int
}

type asmFunc struct {
	name   string
	file   string
	line   int
	ins    []asmInstr
	labels map[string]int
	frame  int // argument size given
}

type asmFile struct {
	funcs []*asmFunc
	syms  map[string]int // size of data symbols
}

func parseAsm(path string) (*asmFile, error) {
	raw, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	af := &asmFile{syms: map[string]int{}}
	macros := map[string]string{}
	var cur *asmFunc
	lblRe := regexp.MustCompile(`^([A-Za-z_][A-Za-z_0-9]*):\s*(.*)$`)
	txtRe := regexp.MustCompile(`^TEXT\s+(?:[\w∕./]*)·(\w+)(?:<>)?\(SB\)\s*,(.*)$`)
	for n, l := range strings.Split(strings.ReplaceAll(string(raw), "\r", ""), "\n") {
		if k := strings.Index(l, "//"); k >= 0 {
			l = l[:k]
		}
		l = strings.TrimSpace(l)
		if l == "" {
			continue
		}
		if strings.HasPrefix(l, "#") {
			if f := strings.Fields(l); f[0] == "#define" && len(f) >= 3 && !strings.Contains(f[1], "(") {
				macros[f[1]] = strings.Join(f[2:], " ")
			} else if f[0] != "#include" {
				return nil, fmt.Errorf("%s:%d: unsupported directive %s", path, n+1, f[0])
			}
			continue
		}
		for _, l := range strings.Split(l, ";") {
			l = strings.TrimSpace(l)
			if m := txtRe.FindStringSubmatch(l); m != nil {
				cur = &asmFunc{name: m[1], file: path, line: n + 1, labels: map[string]int{}, frame: -1}
				if k := strings.LastIndex(m[2], "$"); k >= 0 {
					p := strings.Split(strings.TrimSpace(m[2][k+1:]), "-")
					if len(p) == 2 {
						cur.frame, _ = strconv.Atoi(p[1])
					}
				}
				af.funcs = append(af.funcs, cur)
				continue
			}
			f := strings.Fields(l)
			if len(f) == 0 {
				continue
			}
			if f[0] == "DATA" || f[0] == "GLOBL" {
				if f[0] == "GLOBL" {
					name := strings.Split(strings.Split(f[1], "(")[0], "<")[0]
					name = strings.TrimPrefix(name, "·")
					if k := strings.LastIndex(l, "$"); k >= 0 {
						af.syms[name], _ = strconv.Atoi(strings.TrimSpace(l[k+1:]))
					}
				}
				continue
			}
			if cur == nil {
				return nil, fmt.Errorf("%s:%d: instruction outside of a routine", path, n+1)
			}
			if m := lblRe.FindStringSubmatch(l); m != nil {
				cur.labels[m[1]] = len(cur.ins)
				l = strings.TrimSpace(m[2])
				if l == "" {
					continue
				}
				f = strings.Fields(l)
			}
			in := asmInstr{op: f[0], line: n + 1}
			rest := strings.TrimSpace(l[len(f[0]):])
			depth, start := 0, 0
			for i, c := range rest {
				switch c {
				case '(':
					depth++
				case ')':
					depth--
				case ',':
					if depth == 0 {
						in.args = append(in.args, strings.TrimSpace(rest[start:i]))
						start = i + 1
					}
				}
			}
			if s := strings.TrimSpace(rest[start:]); s != "" {
				in.args = append(in.args, s)
			}
			for i, a := range in.args {
				for k := 0; k < 4; k++ {
					if m, ok := macros[a]; ok {
						a = m
					}
				}
				in.args[i] = a
			}
			cur.ins = append(cur.ins, in)
		}
	}
	return af, nil
}

var asmRegs = map[string]bool{"AX": true, "BX": true, "CX": true, "DX": true, "SI": true, "DI": true, "BP": true,
	"R8": true, "R9": true, "R10": true, "R11": true, "R12": true, "R13": true, "R14": true, "R15": true}

var memRe = regexp.MustCompile(`^(-?[0-9x*+<()-]*?)\(([A-Z0-9]+)\)(?:\(([A-Z0-9]+)\*([1248])\))?$`)
var fpRe = regexp.MustCompile(`^(\w+)\+(\d+)\(FP\)$`)
var sbRe = regexp.MustCompile(`^·?(\w+)(?:<>)?(?:\+(0x[0-9a-fA-F]+|\d+))?\(SB\)$`)

// value of an integer constant expression of +, -, *, << over numbers
func asmConst(s string) (int64, bool) {
	s = strings.ReplaceAll(s, " ", "")
	pos := 0
	var expr, shift, term, atom func() (int64, bool)
	atom = func() (int64, bool) {
		if pos < len(s) && s[pos] == '(' {
			pos++
			v, ok := expr()
			if !ok || pos >= len(s) || s[pos] != ')' {
				return 0, false
			}
			pos++
			return v, true
		}
		if pos < len(s) && s[pos] == '-' {
			pos++
			v, ok := atom()
			return -v, ok
		}
		j := pos
		for j < len(s) && (s[j] >= '0' && s[j] <= '9' || s[j] == 'x' || s[j] >= 'a' && s[j] <= 'f' || s[j] >= 'A' && s[j] <= 'F') {
			j++
		}
		v, err := strconv.ParseInt(s[pos:j], 0, 64)
		pos = j
		return v, err == nil
	}
	shift = func() (int64, bool) {
		v, ok := atom()
		for ok && pos < len(s) && (s[pos] == '*' || strings.HasPrefix(s[pos:], "<<")) {
			m := s[pos] == '*'
			if m {
				pos++
			} else {
				pos += 2
			}
			var w int64
			w, ok = atom()
			if m {
				v *= w
			} else {
				v <<= uint(w)
			}
		}
		return v, ok
	}
	term = shift
	expr = func() (int64, bool) {
		v, ok := term()
		for ok && pos < len(s) && (s[pos] == '+' || s[pos] == '-') {
			neg := s[pos] == '-'
			pos++
			var w int64
			w, ok = term()
			if neg {
				w = -w
			}
			v += w
		}
		return v, ok
	}
	if s == "" {
		return 0, true
	}
	v, ok := expr()
	return v, ok && pos == len(s)
}

// ---------------------------------------------------------------- contracts

type asmParam struct {
	name string
	off  int
	kind string // slice, int, other
	elem int    // element size
}

// argument layout of a Go function (stack based calling convention)
func asmLayout(sig *types.Signature, sz types.Sizes) (ps []asmParam, results []asmParam, total int) {
	off := 0
	place := func(v *types.Var, i int, res bool) {
		t := v.Type()
		a, s := int(sz.Alignof(t)), int(sz.Sizeof(t))
		off = (off + a - 1) / a * a
		p := asmParam{name: v.Name(), off: off, kind: "other"}
		if p.name == "" {
			p.name = fmt.Sprintf("arg%d", i)
		}
		switch u := t.Underlying().(type) {
		case *types.Slice:
			p.kind, p.elem = "slice", int(sz.Sizeof(u.Elem()))
		case *types.Basic:
			if u.Info()&types.IsInteger != 0 {
				p.kind = "int"
			}
			p.elem = s
		default:
			p.elem = s
		}
		if res {
			results = append(results, p)
		} else {
			ps = append(ps, p)
		}
		off += s
	}
	for i := 0; i < sig.Params().Len(); i++ {
		place(sig.Params().At(i), i, false)
	}
	w := int(sz.Sizeof(types.Typ[types.Uintptr]))
	off = (off + w - 1) / w * w
	for i := 0; i < sig.Results().Len(); i++ {
		place(sig.Results().At(i), i, true)
	}
	return ps, results, (off + w - 1) / w * w
}

type asmContract struct {
	mult map[string]int    // slice -> length divisible by
	min  map[string]int    // slice -> minimal length
	rows map[string][2]int // slice -> rows, index of the int parameter
	low  map[string]int    // int -> minimal value
}

func (c asmContract) String() string {
	var s []string
	for k, v := range c.mult {
		if v > 1 {
			s = append(s, fmt.Sprintf("len(%s) divisible by %d", k, v))
		}
	}
	for k, v := range c.min {
		if v > 0 {
			s = append(s, fmt.Sprintf("len(%s)>=%d", k, v))
		}
	}
	for k, v := range c.rows {
		if v[0] > 0 {
			s = append(s, fmt.Sprintf("len(%s)>=%d*argument %d", k, v[0], v[1]))
		}
	}
	for k, v := range c.low {
		if v > -1 {
			s = append(s, fmt.Sprintf("%s>=%d", k, v))
		}
	}
	sort.Strings(s)
	if len(s) == 0 {
		return "none"
	}
	return strings.Join(s, ", ")
}

type asmState struct {
	regs map[string]poly
	cons []poly
	cmp  [2]poly // operands of the last comparison
	ok   bool
}

func (s *asmState) clone() *asmState {
	n := &asmState{regs: map[string]poly{}, cmp: s.cmp, ok: s.ok}
	for k, v := range s.regs {
		n.regs[k] = v
	}
	n.cons = append([]poly(nil), s.cons...)
	return n
}

type asmRun struct {
	f       *asmFunc
	af      *asmFile
	ps      []asmParam
	c       asmContract
	base    []poly
	fresh   int
	fail    map[string]string // access -> reason
	checked map[string]bool
	unk     string
	heads   map[int]bool
	seen    map[int][]*asmState
	steps   int
}

func atom(n string) poly { return poly{n: 1} }

func (r *asmRun) newAtom(p string) poly {
	r.fresh++
	return atom(fmt.Sprintf("%s#%d", p, r.fresh))
}

func (r *asmRun) lenPoly(p asmParam) poly {
	if m := r.c.mult[p.name]; m > 1 {
		return poly{"len/" + p.name: float64(m)}
	}
	return atom("len/" + p.name)
}

func (r *asmRun) holds(s *asmState, q poly) bool {
	cs := append([]poly(nil), r.base...)
	cs = append(cs, s.cons...)
	cs = append(cs, negGoal(q))
	for i := range cs {
		cs[i] = normPoly(cs[i])
	}
	return unsat(cs)
}

func (r *asmRun) dead(s *asmState) bool {
	cs := append([]poly(nil), r.base...)
	cs = append(cs, s.cons...)
	for i := range cs {
		cs[i] = normPoly(cs[i])
	}
	return unsat(cs)
}

func analyseAsm(f *asmFunc, af *asmFile, ps []asmParam, c asmContract) *asmRun {
	r := &asmRun{f: f, af: af, ps: ps, c: c, fail: map[string]string{}, checked: map[string]bool{}, heads: map[int]bool{}, seen: map[int][]*asmState{}}
	for _, p := range ps {
		switch p.kind {
		case "slice":
			r.base = append(r.base, r.lenPoly(p))
			if m := c.min[p.name]; m > 0 {
				r.base = append(r.base, r.lenPoly(p).add(constPoly(float64(m)), -1))
			}
			if rw := c.rows[p.name]; rw[0] > 0 {
				r.base = append(r.base, r.lenPoly(p).add(atom("int/"+ps[rw[1]].name), -float64(rw[0])))
			}
		case "int":
			if m := c.low[p.name]; m >= 0 {
				r.base = append(r.base, atom("int/"+p.name).add(constPoly(float64(m)), -1))
			}
		}
	}
	// loop heads: targets of backward edges in a depth first search
	state := map[int]int{}
	var dfs func(i int)
	dfs = func(i int) {
		state[i] = 1
		for _, n := range r.succ(i) {
			if state[n] == 1 {
				r.heads[n] = true
			} else if state[n] == 0 {
				dfs(n)
			}
		}
		state[i] = 2
	}
	dfs(0)
	s := &asmState{regs: map[string]poly{}}
	for x := range asmRegs {
		s.regs[x] = r.newAtom(x)
	}
	r.exec(0, s, nil)
	return r
}

func asmJump(op string) (cond string, ok bool) {
	switch op {
	case "JMP", "JL", "JLT", "JLE", "JG", "JGT", "JGE", "JE", "JEQ", "JNE", "JB", "JCS", "JBE", "JLS", "JA", "JHI", "JAE", "JCC", "JHS", "JLO", "JZ", "JNZ", "JS", "JMI", "JNS", "JPL", "JC", "JNC":
		return op, true
	}
	return "", false
}

func (r *asmRun) succ(i int) []int {
	if i >= len(r.f.ins) {
		return nil
	}
	in := r.f.ins[i]
	if in.op == "RET" {
		return nil
	}
	if c, ok := asmJump(in.op); ok {
		t, ok := r.f.labels[in.args[0]]
		if !ok {
			r.unk = "jump to " + in.args[0]
			return nil
		}
		if c == "JMP" {
			return []int{t}
		}
		return []int{t, i + 1}
	}
	return []int{i + 1}
}

// executes from instruction i; heads on the current path have been accelerated
func (r *asmRun) exec(i int, s *asmState, path []int) {
	for {
		r.steps++
		if r.unk != "" {
			return
		}
		if r.steps > 4000 {
			r.unk = "too many paths"
			return
		}
		if i >= len(r.f.ins) {
			return
		}
		if r.heads[i] {
			if r.covered(i, s) {
				return
			}
			if len(r.seen[i]) > 8 {
				r.unk = "loop whose registers do not advance by constants"
				return
			}
			if a := r.accelerate(i, s); a != nil {
				s = a
			}
			r.seen[i] = append(r.seen[i], s.clone())
		}
		in := r.f.ins[i]
		if in.op == "RET" {
			return
		}
		if c, ok := asmJump(in.op); ok {
			t := r.f.labels[in.args[0]]
			if c == "JMP" {
				i = t
				continue
			}
			yes, no := s.clone(), s
			if s.ok {
				d := s.cmp[0].add(s.cmp[1], -1) // a - b
				minus := poly{}.add(d, -1)
				one := constPoly(1)
				switch c {
				case "JL", "JLT", "JMI":
					yes.cons = append(yes.cons, minus.add(one, -1))
					no.cons = append(no.cons, d)
				case "JLE":
					yes.cons = append(yes.cons, minus)
					no.cons = append(no.cons, d.add(one, -1))
				case "JG", "JGT":
					yes.cons = append(yes.cons, d.add(one, -1))
					no.cons = append(no.cons, minus)
				case "JGE", "JPL":
					yes.cons = append(yes.cons, d)
					no.cons = append(no.cons, minus.add(one, -1))
				case "JE", "JEQ", "JZ":
					yes.cons = append(yes.cons, d, minus)
				case "JNE", "JNZ":
					no.cons = append(no.cons, d, minus)
				case "JB", "JCS", "JLO", "JC": // unsigned: addresses and sizes
					if r.holds(s, s.cmp[1]) || r.isAddr(s.cmp[1]) {
						yes.cons = append(yes.cons, minus.add(one, -1))
					}
					if r.isAddr(s.cmp[0]) {
						no.cons = append(no.cons, d)
					}
				case "JA", "JHI":
					if r.isAddr(s.cmp[0]) {
						yes.cons = append(yes.cons, d.add(one, -1))
						no.cons = append(no.cons, minus)
					}
				case "JAE", "JCC", "JHS":
					if r.isAddr(s.cmp[0]) {
						yes.cons = append(yes.cons, d)
						no.cons = append(no.cons, minus.add(one, -1))
					}
				case "JBE", "JLS":
					if r.isAddr(s.cmp[1]) {
						yes.cons = append(yes.cons, minus)
						no.cons = append(no.cons, d.add(one, -1))
					}
				}
			}
			if !r.dead(yes) {
				r.exec(t, yes, path)
			}
			if r.dead(no) {
				return
			}
			s = no
			i++
			continue
		}
		r.step(in, s)
		i++
	}
}

func (r *asmRun) isAddr(q poly) bool {
	for _, p := range r.ps {
		if q["ptr/"+p.name] == 1 {
			return true
		}
	}
	return false
}

// the state is an instance of one already explored at this loop head
func (r *asmRun) covered(i int, s *asmState) bool {
	for _, o := range r.seen[i] {
		// o may have a loop counter k: match s to o with k := some affine form
		sub := map[string]poly{}
		ok := true
		for x := range asmRegs {
			a, b := o.regs[x], s.regs[x]
			if a.eq(b) {
				continue
			}
			if asmScratch(a) {
				continue // anything
			}
			k := ""
			for m := range a {
				if strings.HasPrefix(m, "k#") {
					k = m
				}
			}
			if k == "" {
				ok = false
				break
			}
			// b - (a without k) must be a multiple of the stride
			rest := poly{}
			for m, c := range a {
				if m != k {
					rest[m] = c
				}
			}
			d := b.add(rest, -1)
			stride := a[k]
			v := poly{}
			for m, c := range d {
				if q := c / stride; q == float64(int64(q)) {
					v[m] = q
				} else {
					ok = false
				}
			}
			if prev, has := sub[k]; has && !prev.eq(v) {
				ok = false
			}
			sub[k] = v
			if !ok {
				break
			}
		}
		if !ok {
			continue
		}
		all := true
		for _, v := range sub {
			if !r.holds(s, v) {
				all = false
			}
		}
		if !all {
			continue
		}
		// the constraints of o must hold in s
		for _, c := range o.cons {
			cc := c
			for k, v := range sub {
				cc = substPoly(cc, k, v)
			}
			if !r.holds(s, cc) {
				all = false
				break
			}
		}
		if all {
			return true
		}
	}
	return false
}

func asmScratch(p poly) bool {
	if len(p) != 1 {
		return false
	}
	for m, c := range p {
		return c == 1 && strings.Contains(m, "#") && !strings.HasPrefix(m, "k#")
	}
	return false
}

// if every way around the loop that comes back with constant changes makes the same change, the state after k rounds
func (r *asmRun) accelerate(h int, s *asmState) *asmState {
	probe := &asmRun{f: r.f, af: r.af, ps: r.ps, c: r.c, base: r.base, fresh: r.fresh + 100, fail: map[string]string{}, checked: map[string]bool{}, heads: map[int]bool{}, seen: map[int][]*asmState{}}
	t := s.clone()
	t.ok = false
	var outs []*asmState
	probe.walk(h, t, h, true, &outs, 0)
	if probe.unk != "" || len(outs) == 0 {
		return nil
	}
	var delta map[string]float64
	for _, o := range outs {
		d := map[string]float64{}
		constant := true
		for x := range asmRegs {
			df := o.regs[x].add(s.regs[x], -1)
			if k, ok := df.konst(); ok {
				d[x] = k
			} else if !r.rewritten(x) {
				constant = false
			}
		}
		if !constant {
			continue
		}
		nz := false
		for _, k := range d {
			if k != 0 {
				nz = true
			}
		}
		if !nz {
			continue
		}
		if delta == nil {
			delta = d
		} else {
			for x, k := range d {
				if delta[x] != k {
					return nil
				}
			}
		}
	}
	if delta == nil {
		return nil
	}
	n := s.clone()
	n.ok = false
	k := "k#" + fmt.Sprint(r.fresh+1)
	r.fresh++
	for x := range asmRegs {
		d, has := delta[x]
		if !has {
			n.regs[x] = r.newAtom(x) // recomputed in the loop
			continue
		}
		if d != 0 {
			n.regs[x] = s.regs[x].add(atom(k), d)
		}
	}
	n.cons = append(n.cons, atom(k))
	return n
}

// registers that only hold intermediate results
func (r *asmRun) rewritten(x string) bool {
	return x == "AX" || x == "BX" || x == "CX" || x == "R8" || x == "R9"
}

// all states that come back to instruction h
func (r *asmRun) walk(i int, s *asmState, h int, first bool, outs *[]*asmState, d int) {
	if d > 20 {
		r.unk = "deep"
		return
	}
	for {
		r.steps++
		if r.steps > 3000 || r.unk != "" {
			r.unk = "steps"
			return
		}
		if i >= len(r.f.ins) || r.f.ins[i].op == "RET" {
			return
		}
		if i == h && !first {
			*outs = append(*outs, s)
			return
		}
		first = false
		in := r.f.ins[i]
		if c, ok := asmJump(in.op); ok {
			t := r.f.labels[in.args[0]]
			if c == "JMP" {
				i = t
				continue
			}
			r.walk(t, s.clone(), h, false, outs, d+1)
			i++
			continue
		}
		r.step(in, s)
		i++
	}
}

func asmWidth(op string, args []string) int {
	if strings.HasPrefix(op, "VCVTPS2PD") || strings.HasPrefix(op, "VCVTDQ2PD") {
		for _, a := range args {
			if strings.HasPrefix(a, "Y") {
				return 16
			}
		}
		return 8
	}
	switch {
	case strings.HasPrefix(op, "VBROADCASTSS"), strings.HasSuffix(op, "SS"):
		return 4
	case strings.HasPrefix(op, "VBROADCASTSD"), strings.HasSuffix(op, "SD") && !strings.HasPrefix(op, "VPERM"):
		return 8
	case op == "VBROADCASTF128":
		return 16
	}
	for _, a := range args {
		if len(a) > 1 && a[0] == 'Z' && a[1] >= '0' && a[1] <= '9' {
			return 64
		}
	}
	for _, a := range args {
		if len(a) > 1 && a[0] == 'Y' && a[1] >= '0' && a[1] <= '9' {
			return 32
		}
	}
	for _, a := range args {
		if len(a) > 1 && a[0] == 'X' && a[1] >= '0' && a[1] <= '9' {
			return 16
		}
	}
	switch op[len(op)-1] {
	case 'Q':
		return 8
	case 'L':
		return 4
	case 'W':
		return 2
	case 'B':
		return 1
	}
	return 8
}

func (r *asmRun) val(a string, s *asmState) (poly, bool) {
	if asmRegs[a] {
		return s.regs[a], true
	}
	if strings.HasPrefix(a, "$") {
		if v, ok := asmConst(a[1:]); ok {
			return constPoly(float64(v)), true
		}
		return nil, false
	}
	if m := fpRe.FindStringSubmatch(a); m != nil {
		off, _ := strconv.Atoi(m[2])
		for _, p := range r.ps {
			switch {
			case p.kind == "slice" && off == p.off:
				return atom("ptr/" + p.name), true
			case p.kind == "slice" && off == p.off+8:
				return r.lenPoly(p), true
			case p.kind == "int" && off == p.off:
				return atom("int/" + p.name), true
			}
		}
	}
	return nil, false
}

func (r *asmRun) step(in asmInstr, s *asmState) {
	// memory operands
	for k, a := range in.args {
		if m := sbRe.FindStringSubmatch(a); m != nil && in.op != "LEAQ" && in.op != "CALL" {
			off, _ := strconv.ParseInt(m[2], 0, 64)
			if sz, ok := r.af.syms[m[1]]; ok {
				key := fmt.Sprintf("%s line %d: %s", r.f.name, in.line, a)
				r.checked[key] = true
				if int(off)+asmWidth(in.op, in.args) > sz {
					r.fail[key] = "reads past the end of the constant"
				}
			}
			continue
		}
		m := memRe.FindStringSubmatch(a)
		if m == nil || m[2] == "FP" || m[2] == "SB" || m[2] == "SP" {
			continue
		}
		if !asmRegs[m[2]] {
			continue
		}
		off, ok := asmConst(m[1])
		addr := s.regs[m[2]].add(constPoly(float64(off)), 1)
		if m[3] != "" {
			sc, _ := strconv.Atoi(m[4])
			addr = addr.add(s.regs[m[3]], float64(sc))
		}
		if in.op == "LEAQ" {
			if k == 0 && len(in.args) == 2 && asmRegs[in.args[1]] {
				s.regs[in.args[1]] = addr
			}
			return
		}
		if !ok {
			r.unk = "address " + a
			return
		}
		r.access(in, a, addr, asmWidth(in.op, in.args), s)
	}
	n := len(in.args)
	if in.op == "CMPQ" && n == 2 {
		a, ok1 := r.val(in.args[0], s)
		b, ok2 := r.val(in.args[1], s)
		s.ok = ok1 && ok2
		if s.ok {
			s.cmp = [2]poly{a, b}
		}
		return
	}
	if n == 0 {
		return
	}
	dst := in.args[n-1]
	if !asmRegs[dst] {
		if strings.HasPrefix(in.op, "TEST") || strings.HasPrefix(in.op, "CMP") || strings.Contains(in.op, "PTEST") || strings.Contains(in.op, "COMIS") {
			s.ok = false
		}
		return
	}
	old := s.regs[dst]
	var src poly
	ok := false
	if n >= 2 {
		src, ok = r.val(in.args[0], s)
	}
	set := func(p poly) {
		s.regs[dst] = p
		s.ok = false
		if in.op == "SUBQ" || in.op == "DECQ" || in.op == "ADDQ" {
			s.ok = true
			s.cmp = [2]poly{p, {}} // flags compare the result with zero
		}
	}
	switch in.op {
	case "MOVQ":
		if ok {
			s.regs[dst] = src
			return
		}
	case "LEAQ":
		if m := sbRe.FindStringSubmatch(in.args[0]); m != nil {
			off, _ := strconv.ParseInt(m[2], 0, 64)
			s.regs[dst] = atom("sym/"+m[1]).add(constPoly(float64(off)), 1)
			return
		}
	case "ADDQ":
		if ok {
			set(old.add(src, 1))
			return
		}
	case "SUBQ":
		if ok {
			set(old.add(src, -1))
			return
		}
	case "INCQ":
		set(old.add(constPoly(1), 1))
		return
	case "DECQ":
		set(old.add(constPoly(1), -1))
		return
	case "SHLQ":
		if k, isK := src.konst(); ok && isK && n == 2 {
			m := 1.0
			for j := 0; j < int(k); j++ {
				m *= 2
			}
			set(poly{}.add(old, m))
			return
		}
	case "XORQ":
		if in.args[0] == dst {
			set(poly{})
			return
		}
	case "IMULQ", "IMUL3Q":
		if k, isK := src.konst(); ok && isK && n == 2 {
			set(poly{}.add(old, k))
			return
		}
	case "ANDQ":
		if k, isK := src.konst(); ok && isK && n == 2 && k < 0 {
			// rounded down to a multiple
			m := -k
			q := r.newAtom("q")
			v := poly{}.add(q, m)
			s.cons = append(s.cons, old.add(v, -1), v.add(old, -1).add(constPoly(m-1), 1))
			set(v)
			return
		}
	}
	if strings.HasPrefix(in.op, "PUSH") || strings.HasPrefix(in.op, "TEST") {
		s.ok = false
		return
	}
	s.regs[dst] = r.newAtom("x")
	s.ok = false
}

func (r *asmRun) access(in asmInstr, a string, addr poly, width int, s *asmState) {
	key := fmt.Sprintf("%s line %d: %s", r.f.name, in.line, a)
	r.checked[key] = true
	if r.fail[key] != "" {
		return
	}
	for m := range addr {
		if strings.Contains(m, "#") && !strings.HasPrefix(m, "k#") && !strings.HasPrefix(m, "q#") {
			r.unk = fmt.Sprintf("line %d: address %s", in.line, a)
			return
		}
	}
	for _, p := range r.ps {
		if p.kind != "slice" || addr["ptr/"+p.name] != 1 {
			continue
		}
		d := addr.add(atom("ptr/"+p.name), -1)
		if !r.holds(s, d) {
			r.fail[key] = "may lie before the start of " + p.name
			return
		}
		end := poly{}.add(r.lenPoly(p), float64(p.elem)).add(d, -1).add(constPoly(float64(width)), -1)
		if !r.holds(s, end) {
			r.fail[key] = "may reach past the end of " + p.name
		}
		return
	}
	for sym, sz := range r.af.syms {
		if addr["sym/"+sym] != 1 {
			continue
		}
		d := addr.add(atom("sym/"+sym), -1)
		if !r.holds(s, d) || !r.holds(s, constPoly(float64(sz-width)).add(d, -1)) {
			r.fail[key] = "may lie outside the constant " + sym
		}
		return
	}
	r.fail[key] = "address not based on an argument"
}

func (r *asmRun) failure() string {
	if r.unk != "" {
		return r.unk
	}
	var ks []string
	for k := range r.fail {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	if len(ks) == 0 {
		return ""
	}
	return ks[0] + " " + r.fail[ks[0]]
}

// the weakest contract of the form above under which all accesses stay inside their arrays
func inferContract(f *asmFunc, af *asmFile, ps []asmParam) (c asmContract, acc int, why string, known bool) {
	c = asmContract{map[string]int{}, map[string]int{}, map[string][2]int{}, map[string]int{}}
	var ints []int
	for i, p := range ps {
		if p.kind == "int" {
			ints = append(ints, i)
			c.low[p.name] = 64
		}
	}
	for _, p := range ps {
		if p.kind == "slice" {
			c.mult[p.name], c.min[p.name] = 16, 16
			if len(ints) > 0 {
				c.mult[p.name], c.min[p.name] = 1, 0
				c.rows[p.name] = [2]int{4, ints[len(ints)-1]}
			}
		}
	}
	run := func() *asmRun { return analyseAsm(f, af, ps, c) }
	r := run()
	if w := r.failure(); w != "" {
		return c, len(r.checked), w, r.unk == ""
	}
	acc = len(r.checked)
	good := func() bool { return run().failure() == "" }
	for _, p := range ps {
		switch p.kind {
		case "slice":
			if len(ints) > 0 {
				old := c.rows[p.name]
				for old[0] > 0 {
					c.rows[p.name] = [2]int{old[0] - 1, old[1]}
					if !good() {
						c.rows[p.name] = old
						break
					}
					old[0]--
				}
				continue
			}
			for m := c.mult[p.name]; m > 1; m /= 2 {
				c.mult[p.name] = m / 2
				if !good() {
					c.mult[p.name] = m
					break
				}
			}
			for _, m := range []int{0, 1, 2, 4, 8} {
				old := c.min[p.name]
				c.min[p.name] = m
				if good() {
					break
				}
				c.min[p.name] = old
			}
		case "int":
			for _, m := range []int{-1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 24, 32} {
				old := c.low[p.name]
				c.low[p.name] = m
				if good() {
					break
				}
				c.low[p.name] = old
			}
		}
	}
	return c, acc, "", true
}

func asmRel(repo, path string) string {
	if s, err := filepath.Rel(repo, path); err == nil {
		return s
	}
	return path
}
