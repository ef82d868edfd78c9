package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C26: every documented command and option takes effect.
//
// The command word is followed through the dispatching function: for every documented command, and for a word that is none
// of them, the comparisons of the word with constants are decided and the reachable part of the function computed. The
// value of every option is followed forward through constructors, argument lists and operator fields to what the run does.

func init() {
	register("C26", "command line: per command, the part of the program reachable with that command word (comparisons with constants decided) and forward slices of every option from its surviving reads to the actions of the run; documented commands and options parsed from the usage text and README", runC26)
}

type c26 struct {
	w      *World
	r      *Report
	fn     *ssa.Function
	flags  map[*ssa.Global]string
	names  map[string][]string // documented command -> where
	desc   map[string]string
	impure map[*ssa.Function]int
	reads  map[string]bool // struct fields read outside constructors and decoders
	busy   map[ssa.Value]bool
	memo   map[ssa.Value][2]bool
	in     map[*ssa.BasicBlock]bool
	opaque bool
}

func runC26(w *World, r *Report) {
	r.rule("command", "documented command words: dispatched, and not treated like an unknown word", 6)
	r.rule("unknown", "command words that are not documented or dispatched: every way through the program ends in failure without running anything", 1)
	r.rule("option", "command line options whose given value survives to the run and reaches an action under at least one command", 60)
	r.rule("documented", "options the documentation lists: defined by the program", 40)
	r.rule("pair", "calls that receive several options: none changed places, none given twice", 10)
	r.rule("files", "input file arguments handed on: the command word is not among them", 1)
	c := &c26{w: w, r: r, flags: w.flagVars(), names: map[string][]string{}, desc: map[string]string{}, impure: map[*ssa.Function]int{}, reads: map[string]bool{}}
	for _, f := range w.Funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if x, ok := i.(*ssa.BinOp); ok && x.Op == token.EQL && c.isCommand(x.X) {
					if c.fn != nil && c.fn != f {
						r.undecided("the command word is compared in %s and %s", fname(c.fn), fname(f))
					}
					c.fn = f
				}
			}
		}
	}
	if c.fn == nil {
		r.undecided("no function compares the first argument of the command line with constants")
		return
	}
	c.fieldReads()
	c.documentation()
	known := map[string]bool{}
	for _, n := range commandNames(c.fn) {
		known[n] = true
	}
	c.checkOpaque()
	unknown := c.reach("\x00none")
	c.unknown(unknown)
	var all []string
	for n := range c.names {
		all = append(all, n)
	}
	for n := range known {
		if c.names[n] == nil {
			all = append(all, n)
		}
	}
	sort.Strings(all)
	var real []string
	common := map[*ssa.BasicBlock]bool{} // reached whatever the command
	first := true
	for n := range known {
		in := c.reach(n)
		for _, b := range c.fn.Blocks {
			if first || !in[b] {
				common[b] = first && in[b]
			}
		}
		first = false
	}
	for _, n := range all {
		in := c.reach(n)
		where := strings.Join(c.names[n], " and ")
		if where == "" {
			where = "the program itself"
		}
		work, ret := 0, false
		acts := false
		for b := range in {
			if unknown[b] || common[b] {
				continue
			}
			for _, i := range b.Instrs {
				ci, ok := i.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if _, ok := ci.Common().Value.(*ssa.Builtin); ok {
					continue
				}
				work++
				if c.acts(ci) {
					acts = true
				}
			}
		}
		ret = c.returns(in)
		info := regexp.MustCompile(`(?i)licen[sc]e|version|usage`).MatchString(c.desc[n]) || c.names[n] == nil && !acts
		switch {
		case work == 0 && c.opaque:
			r.undecided("command %s: the command word is used for more than comparisons with constants", n)
		case work == 0:
			r.bad("command", n, w.pos(c.fn.Pos()), "the command %s, listed in %s, does nothing an unknown word would not do: it is not dispatched", n, where)
		case !ret && !acts:
			r.bad("command", n, w.pos(c.fn.Pos()), "the command %s, listed in %s, always ends in failure", n, where)
		case !info && !acts:
			r.bad("command", n+"|idle", w.pos(c.fn.Pos()), "the command %s, listed in %s, starts no processing", n, where)
		default:
			real = append(real, n)
			r.ob("command", "%s (listed in %s): %d calls of its own in %s", n, where, work, fname(c.fn))
		}
	}
	c.options(real)
	c.defaults()
	c.pairs()
	c.files()
}

func (c *c26) argsValue(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Call:
		return isFlagArgs(x)
	case *ssa.Slice:
		if x.Low != nil {
			if k, ok := constInt(x.Low); !ok || k != 0 {
				return false
			}
		}
		return c.argsValue(x.X)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !c.argsValue(e) {
				return false
			}
		}
		return len(x.Edges) > 0
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if s := singleStore(x.X); s != nil {
				return c.argsValue(s)
			}
		}
	}
	return false
}

// the first word after the options
func (c *c26) isCommand(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Call:
		n := calleeName(&x.Call)
		if n == "flag.Arg" {
			k, ok := constInt(x.Call.Args[0])
			return ok && k == 0
		}
		if n == "strings.ToLower" || n == "strings.TrimSpace" {
			return c.isCommand(x.Call.Args[0])
		}
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return false
		}
		if ia, ok := x.X.(*ssa.IndexAddr); ok {
			k, ok := constInt(ia.Index)
			return ok && k == 0 && c.argsValue(ia.X)
		}
		if s := singleStore(x.X); s != nil {
			return c.isCommand(s)
		}
	case *ssa.Phi:
		if len(x.Edges) > 4 {
			return false
		}
		for _, e := range x.Edges {
			if _, ok := e.(*ssa.Phi); ok || !c.isCommand(e) {
				return false
			}
		}
		return true
	}
	return false
}

func (c *c26) checkOpaque() {
	for _, b := range c.fn.Blocks {
		for _, i := range b.Instrs {
			v, ok := i.(ssa.Value)
			if !ok || !c.isCommand(v) || v.Referrers() == nil {
				continue
			}
			for _, u := range *v.Referrers() {
				switch x := u.(type) {
				case *ssa.Lookup:
					c.opaque = true
				case ssa.CallInstruction:
					if t := x.Common().StaticCallee(); t != nil && c.w.inMod[t] {
						c.opaque = true
					}
				}
			}
		}
	}
}

// 1 the condition is true for the word, -1 false, 0 open
func (c *c26) decide(v ssa.Value, word string) int {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.Bool {
			if constant.BoolVal(x.Value) {
				return 1
			}
			return -1
		}
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return -c.decide(x.X, word)
		}
	case *ssa.BinOp:
		a, b := x.X, x.Y
		if c.isCommand(b) {
			a, b = b, a
		}
		if k, ok := b.(*ssa.Const); ok && c.isCommand(a) {
			if s, ok := constString(k); ok {
				eq := s == word
				switch x.Op {
				case token.EQL:
				case token.NEQ:
					eq = !eq
				default:
					return 0
				}
				if eq {
					return 1
				}
				return -1
			}
		}
		// at least one word was given
		if c.argCount(x.X) {
			if n, ok := constInt(x.Y); ok {
				switch {
				case x.Op == token.LSS && n <= 1, x.Op == token.LEQ && n <= 0, x.Op == token.EQL && n <= 0:
					return -1
				case x.Op == token.GEQ && n <= 1, x.Op == token.GTR && n <= 0, x.Op == token.NEQ && n <= 0:
					return 1
				}
			}
		}
	}
	return 0
}

func (c *c26) argCount(v ssa.Value) bool {
	cl, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	if bi, ok := cl.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
		return c.argsValue(cl.Call.Args[0])
	}
	return calleeName(&cl.Call) == "flag.NArg"
}

// the blocks of the dispatching function a command word can reach
func (c *c26) reach(word string) map[*ssa.BasicBlock]bool {
	in := map[*ssa.BasicBlock]bool{}
	var visit func(b, from *ssa.BasicBlock)
	type edge struct{ a, b *ssa.BasicBlock }
	done := map[edge]bool{}
	visit = func(b, from *ssa.BasicBlock) {
		if done[edge{from, b}] {
			return
		}
		done[edge{from, b}] = true
		in[b] = true
		for _, i := range b.Instrs {
			if ci, ok := i.(*ssa.Call); ok && neverReturns(ci) {
				return
			}
		}
		if f, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			v := f.Cond
			if p, ok := v.(*ssa.Phi); ok && p.Block() == b && from != nil { // && and || as values
				for k, q := range b.Preds {
					if q == from {
						v = p.Edges[k]
					}
				}
				if k, ok := v.(*ssa.Const); ok && k.Value != nil {
					if k.Value.String() == "true" {
						visit(b.Succs[0], b)
					} else {
						visit(b.Succs[1], b)
					}
					return
				}
			}
			switch c.decide(v, word) {
			case 1:
				visit(b.Succs[0], b)
				return
			case -1:
				visit(b.Succs[1], b)
				return
			}
		}
		for _, s := range b.Succs {
			visit(s, b)
		}
	}
	visit(c.fn.Blocks[0], nil)
	return in
}

func neverReturns(ci *ssa.Call) bool {
	switch n := calleeName(&ci.Call); n {
	case "os.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln", "log.Panic", "log.Panicf", "runtime.Goexit", "syscall.Exit":
		return true
	}
	return false
}

func (c *c26) returns(in map[*ssa.BasicBlock]bool) bool {
	for b := range in {
		if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && b != c.fn.Recover {
			dead := false
			for _, i := range b.Instrs {
				if ci, ok := i.(*ssa.Call); ok && neverReturns(ci) {
					dead = true
				}
			}
			if !dead {
				return true
			}
		}
	}
	return false
}

func (c *c26) unknown(in map[*ssa.BasicBlock]bool) {
	if c.opaque {
		c.r.undecided("unknown command words: the word is used for more than comparisons with constants")
		return
	}
	ok := true
	var blocks []*ssa.BasicBlock
	for _, b := range c.fn.Blocks {
		if in[b] && b != c.fn.Recover {
			blocks = append(blocks, b)
		}
	}
	exits := 0
	for _, b := range blocks {
		for _, i := range b.Instrs {
			switch x := i.(type) {
			case *ssa.Return:
				if f := c.failing(x); f {
					exits++
					continue
				}
				if b == c.fn.Recover {
					continue
				}
				ok = false
				c.r.bad("unknown", "accepted", c.w.ipos(x), "%s returns as after a successful run when the command word is unknown", fname(c.fn))
			case *ssa.Call:
				if n := calleeName(&x.Call); n == "os.Exit" {
					k, isK := constInt(x.Call.Args[0])
					if isK && k == 0 {
						ok = false
						c.r.bad("unknown", "exit", c.w.ipos(x), "%s ends with exit code 0 when the command word is unknown", fname(c.fn))
					} else {
						exits++
					}
				} else if c.acts(x) {
					ok = false
					c.r.bad("unknown", "runs|"+n, c.w.ipos(x), "%s calls %s although the command word is unknown", fname(c.fn), n)
				}
			}
			if ci, isC := i.(*ssa.Call); isC && neverReturns(ci) {
				break
			}
		}
	}
	if ok {
		c.r.ob("unknown", "%s: with an unknown word, %d reachable blocks, no return and no processing, %d failing exits", fname(c.fn), len(blocks), exits)
	}
}

// a helper that returns the failure as an error
func (c *c26) failing(rt *ssa.Return) bool {
	for _, v := range rt.Results {
		if isErrT(v.Type()) {
			if k, ok := v.(*ssa.Const); ok && k.IsNil() {
				return false
			}
			return true
		}
	}
	return false
}

// does the call start processing: a function of the module that reaches the operating system, the network or a promise
func (c *c26) acts(ci ssa.CallInstruction) bool {
	com := ci.Common()
	if com.IsInvoke() {
		return c.w.opInterface() != nil && types.Implements(com.Value.Type(), c.w.opInterface())
	}
	t := com.StaticCallee()
	if t == nil || !c.w.inMod[t] {
		return false
	}
	return c.active(t)
}

func (c *c26) active(f *ssa.Function) bool {
	switch c.impure[f] {
	case 1, 2:
		return false
	case 3:
		return true
	}
	c.impure[f] = 1
	res := false
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			switch x := i.(type) {
			case *ssa.Go:
				res = true
			case ssa.CallInstruction:
				com := x.Common()
				if com.IsInvoke() {
					if m := com.Method.Name(); m == "MakePromises" || m == "ServeHTTP" {
						res = true
					}
					continue
				}
				t := com.StaticCallee()
				if t == nil {
					continue
				}
				if c.w.inMod[t] {
					if c.active(t) {
						res = true
					}
					continue
				}
				if t.Pkg != nil {
					switch p := t.Pkg.Pkg.Path(); {
					case p == "os", p == "syscall", strings.HasPrefix(p, "net"), strings.HasPrefix(p, "github.com/gin-gonic/"):
						res = true
					}
				}
			}
		}
	}
	if res {
		c.impure[f] = 3
	} else {
		c.impure[f] = 2
	}
	return res
}

// ---- documentation

func (c *c26) documentation() {
	add := func(n, where, desc string) {
		for _, o := range c.names[n] {
			if o == where {
				where = ""
			}
		}
		if where != "" {
			c.names[n] = append(c.names[n], where)
		}
		if desc != "" && c.desc[n] == "" {
			c.desc[n] = desc
		}
	}
	syntax := regexp.MustCompile(`\(([a-zA-Z0-9?]+(?:\|[a-zA-Z0-9?]+)+)\)`)
	entry := regexp.MustCompile(`^\s+([a-z][a-zA-Z0-9]*)\s{2,}(\S.*)$`)
	found := false
	for _, f := range c.w.Funcs {
		if c.fn.Pkg != f.Pkg && (f.Parent() == nil || f.Parent().Pkg != c.fn.Pkg) {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				for _, op := range i.Operands(nil) {
					if *op == nil {
						continue
					}
					k, ok := (*op).(*ssa.Const)
					if !ok {
						continue
					}
					s, ok := constString(k)
					if !ok || !strings.Contains(s, "Usage:") {
						continue
					}
					found = true
					inCmd := false
					for _, l := range strings.Split(s, "\n") {
						l = strings.TrimRight(l, "\r")
						if strings.Contains(l, "Usage:") {
							for _, m := range syntax.FindAllStringSubmatch(l, -1) {
								for _, n := range strings.Split(m[1], "|") {
									add(n, "the usage line", "")
								}
							}
						}
						if strings.HasPrefix(strings.TrimSpace(l), "Commands") {
							inCmd = true
							continue
						}
						if m := entry.FindStringSubmatch(l); inCmd && m != nil {
							add(m[1], "the list of commands in the usage text", m[2])
						} else if inCmd && strings.TrimSpace(l) != "" && !strings.HasPrefix(l, " ") {
							inCmd = false
						}
					}
				}
			}
		}
	}
	if !found {
		c.r.undecided("no usage text found in %s", c.fn.Pkg.Pkg.Path())
	}
	data, err := os.ReadFile(filepath.Join(c.w.Repo, "README.md"))
	if err != nil {
		c.r.undecided("README.md cannot be read")
		return
	}
	defs := map[string]bool{}
	for _, d := range c.w.flagDefs() {
		defs[d.name] = true
	}
	table := ""
	row := regexp.MustCompile(`^\|\s*` + "`?" + `-?([A-Za-z0-9_]+)` + "`?" + `\s*\|(.*)$`)
	for n, l := range strings.Split(string(data), "\n") {
		l = strings.TrimRight(l, "\r")
		if t := strings.TrimSpace(l); strings.HasPrefix(t, "nightlight ") && strings.Contains(t, "[") {
			for _, m := range syntax.FindAllStringSubmatch(l, -1) {
				for _, n := range strings.Split(m[1], "|") {
					add(n, "the syntax line of README.md", "")
				}
			}
		}
		m := row.FindStringSubmatch(l)
		if m == nil {
			if !strings.HasPrefix(l, "|") {
				table = ""
			}
			continue
		}
		if table == "" {
			table = m[1]
			continue
		}
		switch table {
		case "Command":
			add(m[1], "the table of commands in README.md", strings.Trim(m[2], "| "))
		case "Flag":
			if defs[m[1]] {
				c.r.ob("documented", "README.md:%d: -%s", n+1, m[1])
			} else {
				c.r.bad("documented", m[1], fmt.Sprintf("README.md:%d", n+1), "README.md documents the option -%s, which the program does not have", m[1])
			}
		}
	}
}

// ---- options

func (c *c26) fieldReads() {
	for _, f := range c.w.Funcs {
		if f.Name() == "UnmarshalJSON" || f.Name() == "MarshalJSON" {
			continue
		}
		var made types.Type
		if f.Signature.Recv() == nil && f.Signature.Results().Len() == 1 {
			made = deref(f.Signature.Results().At(0).Type())
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				switch x := i.(type) {
				case *ssa.FieldAddr:
					t := deref(x.X.Type())
					if made != nil && types.Identical(made, t) {
						continue
					}
					for _, u := range *x.Referrers() {
						if st, ok := u.(*ssa.Store); ok && st.Addr == ssa.Value(x) {
							continue
						}
						c.reads[fmt.Sprintf("%s#%d", t, x.Field)] = true
					}
				case *ssa.Field:
					c.reads[fmt.Sprintf("%s#%d", x.X.Type(), x.Field)] = true
				case *ssa.UnOp: // the structure copied or converted as a whole
					if x.Op == token.MUL {
						if _, ok := x.Type().Underlying().(*types.Struct); ok {
							if _, ok := x.X.(*ssa.Alloc); !ok {
								c.reads[x.Type().String()+"#all"] = true
							}
						}
					}
				}
			}
		}
	}
}

func (c *c26) options(cmds []string) {
	w, r := c.w, c.r
	ins := map[string]map[*ssa.BasicBlock]bool{}
	for _, n := range cmds {
		ins[n] = c.reach(n)
	}
	for _, d := range w.flagDefs() {
		if d.g == nil {
			r.undecided("the variable of option -%s is not known", d.name)
			continue
		}
		var loads []*ssa.UnOp
		escaped := false
		for _, f := range w.Funcs {
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					u, ok := i.(*ssa.UnOp)
					if !ok || u.Op != token.MUL {
						continue
					}
					if w.flagOf(u) == d.name && c.flagGlobal(u) == d.g {
						loads = append(loads, u)
					}
				}
			}
		}
		var by, lost []string
		outside := false
		for _, u := range loads {
			if u.Parent() != c.fn && !c.closureOf(u.Parent()) {
				c.in = nil
				c.busy, c.memo = map[ssa.Value]bool{}, map[ssa.Value][2]bool{}
				if inf, ret := c.live(u, 0); inf || ret {
					outside = true
				}
			}
		}
		for _, n := range cmds {
			hit, killed := false, false
			for _, u := range loads {
				if hit {
					break
				}
				if u.Parent() == c.fn {
					if !ins[n][u.Block()] {
						continue
					}
					c.in = ins[n]
					c.busy, c.memo = map[ssa.Value]bool{}, map[ssa.Value][2]bool{}
					if inf, _ := c.live(u, 0); !inf {
						continue
					}
					if !c.survives(d, u, ins[n], n) {
						killed = true
						continue
					}
					hit = true
				} else if c.closureOf(u.Parent()) {
					c.in = nil
					c.busy, c.memo = map[ssa.Value]bool{}, map[ssa.Value][2]bool{}
					if inf, ret := c.live(u, 0); inf || ret {
						hit = true
					}
				}
			}
			if hit {
				by = append(by, n)
			} else if killed {
				lost = append(lost, n)
			}
		}
		for _, n := range lost {
			if len(by) > 0 {
				r.bad("option", d.name+"|overwritten|"+n, w.ipos(d.call), "the option -%s has no effect with %s: its value is always overwritten before it is used", d.name, n)
			}
		}
		for _, n := range c.scope(d) {
			found := false
			for _, m := range by {
				found = found || n == m
			}
			if !found && len(by) > 0 && hasWord(cmds, n) {
				r.bad("option", d.name+"|scope|"+n, w.ipos(d.call), "the option -%s is described as %q, but has no effect with the command %s", d.name, c.usage(d), n)
			}
		}
		switch {
		case len(by) > 0:
			r.ob("option", "-%s takes effect with %s", d.name, strings.Join(by, ", "))
		case outside:
			r.ob("option", "-%s takes effect outside %s", d.name, fname(c.fn))
		case escaped:
			r.undecided("option -%s: its address is passed on", d.name)
		case len(lost) > 0:
			r.bad("option", d.name+"|overwritten", w.ipos(d.call), "the option -%s never takes effect: its value is overwritten before it is used with %s", d.name, strings.Join(lost, ", "))
		case len(loads) == 0:
			r.bad("option", d.name, w.ipos(d.call), "the option -%s is defined, but nothing reads it", d.name)
		default:
			r.bad("option", d.name, w.ipos(d.call), "the option -%s is read, but its value reaches no action of any command", d.name)
		}
	}
}

func hasWord(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func (c *c26) usage(d flagDef) string {
	args := d.call.Call.Args
	if len(args) == 0 {
		return ""
	}
	k, ok := args[len(args)-1].(*ssa.Const)
	if !ok {
		return ""
	}
	s, _ := constString(k)
	return s
}

// the commands the description of an option speaks of
func (c *c26) scope(d flagDef) (res []string) {
	s := strings.ToLower(c.usage(d))
	for _, x := range []struct{ word, cmd string }{{"stacking", "stack"}, {"stacked", "stack"}, {"serving", "serve"}, {"json job", "run"}, {"when stretching", "stretch"}} {
		if strings.Contains(s, x.word) && !hasWord(res, x.cmd) {
			res = append(res, x.cmd)
		}
	}
	return
}

// an option is replaced by a default only where it was left at a value that stands for "not given"
func (c *c26) defaults() {
	enum := regexp.MustCompile(`(?:^|[\s,.(])(-?\d+)\s*[=:]`)
	for _, d := range c.w.flagDefs() {
		def := c.w.flagInitial(d)
		if d.g == nil || def == nil {
			continue
		}
		var listed []constant.Value
		for _, m := range enum.FindAllStringSubmatch(c.usage(d), -1) {
			listed = append(listed, constant.MakeFromLiteral(strings.TrimPrefix(m[1], "-"), token.INT, 0))
			if m[1][0] == '-' {
				listed[len(listed)-1] = constant.UnaryOp(token.SUB, listed[len(listed)-1], 0)
			}
		}
		for _, b := range c.fn.Blocks {
			f, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !ok {
				continue
			}
			for k, s := range b.Succs {
				if !c.setsOnly(s, d) {
					continue
				}
				cond, pos := f.Cond, k == 0
				for {
					if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
						cond, pos = u.X, !pos
						continue
					}
					break
				}
				bo, ok := cond.(*ssa.BinOp)
				if !ok || c.w.flagOf(bo.X) != d.name {
					continue
				}
				lim, ok := bo.Y.(*ssa.Const)
				if !ok || lim.Value == nil {
					continue
				}
				holds := func(v constant.Value) bool {
					defer func() { recover() }()
					return constant.Compare(v, bo.Op, lim.Value) == pos
				}
				try := listed
				if len(listed) < 2 && (def.Kind() == constant.Int || def.Kind() == constant.Float) && constant.Sign(def) < 0 {
					for _, x := range []float64{0, 0.5, 1, 3, 5, 10, 100} {
						try = append(try, constant.MakeFloat64(x))
					}
				}
				bad := ""
				for _, v := range try {
					if holds(v) && !constant.Compare(v, token.EQL, def) {
						bad = v.String()
						break
					}
				}
				if bad != "" {
					c.r.bad("option", d.name+"|replaced", c.w.ipos(f), "the option -%s is replaced by a default also when it is given as %s", d.name, bad)
				} else {
					c.r.ob("option", "-%s is replaced only where it stands at %s", d.name, def)
				}
			}
		}
	}
}

// a block that does nothing but store to the option
func (c *c26) setsOnly(b *ssa.BasicBlock, d flagDef) bool {
	n := 0
	for _, i := range b.Instrs {
		switch y := i.(type) {
		case *ssa.Store:
			if l, ok := y.Addr.(*ssa.UnOp); !ok || l.X != ssa.Value(d.g) {
				if y.Addr != ssa.Value(d.g) {
					return false
				}
			}
			n++
		case *ssa.UnOp, *ssa.Jump, *ssa.BinOp, *ssa.Convert:
		default:
			return false
		}
	}
	return n > 0
}

// the default an option is declared with
func (w *World) flagInitial(d flagDef) constant.Value {
	args := d.call.Call.Args
	if len(args) < 2 {
		return nil
	}
	k, ok := args[len(args)-2].(*ssa.Const)
	if !ok {
		return nil
	}
	return k.Value
}

func (c *c26) flagGlobal(u *ssa.UnOp) *ssa.Global {
	if g, ok := u.X.(*ssa.Global); ok {
		return g
	}
	if l, ok := u.X.(*ssa.UnOp); ok {
		g, _ := l.X.(*ssa.Global)
		return g
	}
	return nil
}

func (c *c26) closureOf(f *ssa.Function) bool {
	for p := f.Parent(); p != nil; p = p.Parent() {
		if p == c.fn {
			return true
		}
	}
	return false
}

// can the value given on the command line still be in place when u reads it
func (c *c26) survives(d flagDef, u *ssa.UnOp, in map[*ssa.BasicBlock]bool, word string) bool {
	addrIs := func(a ssa.Value) bool {
		if g, ok := a.(*ssa.Global); ok {
			return g == d.g && !d.ptr
		}
		l, ok := a.(*ssa.UnOp)
		return ok && d.ptr && l.X == ssa.Value(d.g)
	}
	seen := map[*ssa.BasicBlock]bool{}
	work := []*ssa.BasicBlock{c.fn.Blocks[0]}
	seen[c.fn.Blocks[0]] = true
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		dead := false
		for _, i := range b.Instrs {
			if i == ssa.Instruction(u) {
				return true
			}
			switch x := i.(type) {
			case *ssa.Store:
				if addrIs(x.Addr) && !dependsOn(x.Val, u, d, c) {
					dead = true
				}
			case *ssa.Call:
				if neverReturns(x) {
					dead = true
				}
				t := x.Call.StaticCallee()
				if t == nil || !c.w.inMod[t] {
					continue
				}
				for k, a := range x.Call.Args {
					if k < len(t.Params) && addrIs(a) && alwaysStores(t, t.Params[k]) {
						dead = true
					}
				}
			}
			if dead {
				break
			}
		}
		if dead {
			continue
		}
		next := b.Succs
		if f, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			switch c.decide(f.Cond, word) {
			case 1:
				next = next[:1]
			case -1:
				next = next[1:]
			}
		}
		for _, s := range next {
			if in[s] && !seen[s] {
				seen[s] = true
				work = append(work, s)
			}
		}
	}
	return false
}

// is the value stored computed from the option itself
func dependsOn(v ssa.Value, u *ssa.UnOp, d flagDef, c *c26) bool {
	seen := map[ssa.Value]bool{}
	var visit func(v ssa.Value) bool
	visit = func(v ssa.Value) bool {
		if seen[v] || len(seen) > 40 {
			return false
		}
		seen[v] = true
		if l, ok := v.(*ssa.UnOp); ok && c.w.flagOf(l) == d.name {
			return true
		}
		i, ok := v.(ssa.Instruction)
		if !ok {
			return false
		}
		for _, op := range i.Operands(nil) {
			if *op != nil && visit(*op) {
				return true
			}
		}
		return false
	}
	return visit(v)
}

func alwaysStores(f *ssa.Function, p *ssa.Parameter) bool {
	if len(f.Blocks) == 0 {
		return false
	}
	seen := map[*ssa.BasicBlock]bool{f.Blocks[0]: true}
	work := []*ssa.BasicBlock{f.Blocks[0]}
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		st := false
		for _, i := range b.Instrs {
			switch x := i.(type) {
			case *ssa.Store:
				st = st || x.Addr == ssa.Value(p)
			case *ssa.Return:
				if !st {
					return false
				}
			}
		}
		if st {
			continue
		}
		for _, s := range b.Succs {
			if !seen[s] {
				seen[s] = true
				work = append(work, s)
			}
		}
	}
	return true
}

// does the value reach an action; ret: is it part of what the function returns
func (c *c26) live(v ssa.Value, d int) (inf, ret bool) {
	if m, ok := c.memo[v]; ok {
		return m[0], m[1]
	}
	if c.busy[v] || d > 60 || v.Referrers() == nil {
		return false, false
	}
	c.busy[v] = true
	defer func() {
		delete(c.busy, v)
		if len(c.busy) == 0 || inf || ret { // an answer obtained while others are open may be incomplete
			c.memo[v] = [2]bool{inf, ret}
		}
	}()
	for _, u := range *v.Referrers() {
		if c.in != nil && u.Parent() == c.fn && !c.in[u.Block()] {
			continue
		}
		i, r := c.use(u, v, d)
		inf, ret = inf || i, ret || r
		if inf {
			return
		}
	}
	return
}

func (c *c26) use(u ssa.Instruction, v ssa.Value, d int) (inf, ret bool) {
	switch x := u.(type) {
	case *ssa.Return:
		return false, true
	case *ssa.If:
		if c.onlyDefaults(x) {
			return false, false
		}
		return true, false
	case *ssa.Store:
		if x.Val != v {
			return false, false
		}
		return c.stored(x.Addr, d)
	case *ssa.MapUpdate:
		return c.live(x.Map, d+1)
	case *ssa.Send:
		return true, false
	case *ssa.Panic:
		return false, false
	case *ssa.MakeClosure:
		f := x.Fn.(*ssa.Function)
		for k, b := range x.Bindings {
			if b == v && k < len(f.FreeVars) {
				i, r := c.live(f.FreeVars[k], d+1)
				if i {
					return true, false
				}
				_ = r
			}
		}
		return c.live(x, d+1)
	case ssa.CallInstruction:
		return c.call(x, v, d)
	case ssa.Value:
		switch y := u.(type) {
		case *ssa.IndexAddr:
			if y.Index == v {
				return c.live(y, d+1)
			}
			return c.live(y, d+1)
		}
		return c.live(x, d+1)
	}
	return false, false
}

// a value is stored at an address: follow the object it becomes part of
func (c *c26) stored(a ssa.Value, d int) (inf, ret bool) {
	for {
		switch x := a.(type) {
		case *ssa.FieldAddr:
			t := deref(x.X.Type())
			if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), Mod) {
				if !c.reads[fmt.Sprintf("%s#%d", t, x.Field)] && !c.reads[t.String()+"#all"] {
					return false, false
				}
			}
			a = x.X
			continue
		case *ssa.IndexAddr:
			a = x.X
			continue
		case *ssa.Global:
			if c.flags[x] != "" {
				return false, false
			}
			for _, f := range c.w.Funcs {
				for _, b := range f.Blocks {
					for _, i := range b.Instrs {
						if l, ok := i.(*ssa.UnOp); ok && l.X == ssa.Value(x) {
							return true, false
						}
					}
				}
			}
			return false, false
		case *ssa.UnOp:
			if c.w.flagVars() != nil {
				if g, ok := x.X.(*ssa.Global); ok && c.flags[g] != "" {
					return false, false // another option: it is followed by itself
				}
			}
			return c.live(a, d+1)
		case *ssa.Parameter:
			return false, false
		}
		return c.live(a, d+1)
	}
}

func (c *c26) call(ci ssa.CallInstruction, v ssa.Value, d int) (inf, ret bool) {
	com := ci.Common()
	res, _ := ci.(ssa.Value)
	if bi, ok := com.Value.(*ssa.Builtin); ok {
		switch bi.Name() {
		case "print", "println", "len", "cap":
			if res != nil && bi.Name() != "print" && bi.Name() != "println" {
				return c.live(res, d+1)
			}
			return false, false
		}
		if res != nil {
			return c.live(res, d+1)
		}
		return false, false
	}
	if com.IsInvoke() {
		return true, false
	}
	n := calleeName(com)
	t := com.StaticCallee()
	if t == nil {
		return true, false
	}
	if !c.w.inMod[t] {
		if strings.HasPrefix(n, "fmt.Print") || strings.HasPrefix(n, "fmt.Fprint") || strings.HasPrefix(n, "log.") {
			return false, false
		}
		if t.Pkg != nil {
			switch t.Pkg.Pkg.Path() {
			case "strings", "strconv", "path", "path/filepath", "math", "bytes", "sort", "unicode", "fmt":
				if res != nil {
					return c.live(res, d+1)
				}
				return false, false
			}
		}
		return true, false
	}
	for _, p := range t.Params {
		if argFor(p, t, ci) != v {
			continue
		}
		if c.active(t) && t.Signature.Results().Len() != 1 {
			if i, r := c.live(p, d+1); i || r {
				return true, false
			}
			continue
		}
		i, r := c.live(p, d+1)
		if i && c.active(t) {
			return true, false
		}
		if (i || r) && res != nil {
			// decisions inside a function without actions of its own matter through what it returns
			if x, y := c.live(res, d+1); x || y {
				inf, ret = inf || x, ret || y
			}
		}
	}
	return
}

// a decision that only fills in a default for an option
func (c *c26) onlyDefaults(x *ssa.If) bool {
	n := 0
	for _, s := range x.Block().Succs {
		plain := len(s.Preds) == 1
		stores := 0
		for _, i := range s.Instrs {
			switch y := i.(type) {
			case *ssa.Store:
				l, ok := y.Addr.(*ssa.UnOp)
				g, _ := y.Addr.(*ssa.Global)
				if ok {
					g, _ = l.X.(*ssa.Global)
				}
				if g == nil || c.flags[g] == "" {
					plain = false
				}
				stores++
			case *ssa.UnOp, *ssa.Jump, *ssa.BinOp, *ssa.Convert:
			default:
				plain = false
			}
		}
		if plain && stores > 0 && len(s.Succs) == 1 {
			n++
		}
	}
	return n > 0
}

// ---- wiring

// the single option a value is computed from
func (c *c26) optionOf(v ssa.Value, d int) string {
	if d > 8 {
		return ""
	}
	if n := c.w.flagOf(v); n != "" {
		return n
	}
	switch x := v.(type) {
	case *ssa.Convert:
		return c.optionOf(x.X, d+1)
	case *ssa.ChangeType:
		return c.optionOf(x.X, d+1)
	case *ssa.BinOp:
		if _, ok := x.Y.(*ssa.Const); ok {
			return c.optionOf(x.X, d+1)
		}
		if _, ok := x.X.(*ssa.Const); ok {
			return c.optionOf(x.Y, d+1)
		}
	case *ssa.UnOp:
		if x.Op == token.SUB {
			return c.optionOf(x.X, d+1)
		}
		if x.Op == token.MUL {
			if s := singleStore(x.X); s != nil {
				return c.optionOf(s, d+1)
			}
		}
	}
	return ""
}

func (c *c26) pairs() {
	type wired struct {
		flag, par string
		t         types.Type
	}
	type site struct {
		ci *ssa.Call
		f  *ssa.Function
		ps []wired
	}
	var sites []site
	judge := func(what, pos string, ps []wired) {
		ok := true
		for i, a := range ps {
			for _, b := range ps[i+1:] {
				if !types.Identical(a.t, b.t) || a.par == b.par {
					continue
				}
				if a.flag == b.flag {
					ok = false
					c.r.bad("pair", fmt.Sprintf("twice|%s|%s|%s", what, a.par, b.par), pos, "the option -%s is given for both %s and %s of %s", a.flag, a.par, b.par, what)
				} else if swapped(a.flag, a.par, b.flag, b.par) {
					ok = false
					c.r.bad("pair", fmt.Sprintf("swap|%s|%s|%s", what, a.par, b.par), pos, "the option -%s is given for %s and -%s for %s of %s: they changed places", a.flag, a.par, b.flag, b.par, what)
				}
			}
		}
		if ok {
			var s []string
			for _, p := range ps {
				s = append(s, "-"+p.flag+" for "+p.par)
			}
			c.r.ob("pair", "%s: %s", what, strings.Join(s, ", "))
		}
	}
	for _, b := range c.fn.Blocks {
		for _, i := range b.Instrs {
			ci, ok := i.(*ssa.Call)
			if !ok {
				continue
			}
			t := ci.Call.StaticCallee()
			if t == nil || !c.w.inMod[t] {
				continue
			}
			s := site{ci: ci, f: t}
			for k, a := range ci.Call.Args {
				if k >= len(t.Params) {
					break
				}
				if n := c.optionOf(a, 0); n != "" {
					s.ps = append(s.ps, wired{n, t.Params[k].Name(), t.Params[k].Type()})
				}
				// a structure literal
				if l, ok := a.(*ssa.UnOp); ok && l.Op == token.MUL {
					if al, ok := l.X.(*ssa.Alloc); ok && al.Referrers() != nil {
						var ps []wired
						for _, u := range *al.Referrers() {
							fa, ok := u.(*ssa.FieldAddr)
							if !ok {
								continue
							}
							if v := singleStore(fa); v != nil {
								if n := c.optionOf(v, 0); n != "" {
									ps = append(ps, wired{n, fieldName(fa.X.Type(), fa.Field), v.Type()})
								}
							}
						}
						if len(ps) > 1 {
							judge(fmt.Sprintf("%s of %s", t.Params[k].Name(), fname(t)), c.w.ipos(ci), ps)
						}
						for _, p := range ps {
							s.ps = append(s.ps, wired{p.flag, t.Params[k].Name() + p.par, p.t})
						}
					}
				}
			}
			if len(s.ps) == 0 {
				continue
			}
			sites = append(sites, s)
			if len(s.ps) > 1 {
				judge(fname(t), c.w.ipos(ci), s.ps)
			}
		}
	}
	// sibling operators with the same parameters
	for i, a := range sites {
		for _, b := range sites[i+1:] {
			if a.f == b.f || a.f.Signature.String() != b.f.Signature.String() || len(a.ps) != len(b.ps) {
				continue
			}
			na, nb := strings.TrimPrefix(a.f.Name(), "NewOp"), strings.TrimPrefix(b.f.Name(), "NewOp")
			for k := range a.ps {
				if k < len(b.ps) && a.ps[k].par == b.ps[k].par && a.ps[k].flag != b.ps[k].flag &&
					initials(a.ps[k].flag, nb)+initials(b.ps[k].flag, na) > initials(a.ps[k].flag, na)+initials(b.ps[k].flag, nb)+0.55 {
					c.r.bad("pair", fmt.Sprintf("sibling|%s|%s|%s", na, nb, a.ps[k].par), c.w.ipos(a.ci), "the option -%s goes to %s and -%s to %s: they changed places", a.ps[k].flag, na, b.ps[k].flag, nb)
				}
			}
		}
	}
}

// similarity of two names in which single letters stand for words they begin
func initials(a, b string) float64 {
	n := 0.0
	used := map[int]bool{}
	ta, tb := tokens(a), tokens(b)
	for _, x := range ta {
		for k, y := range tb {
			if !used[k] && (strings.HasPrefix(x, y) || strings.HasPrefix(y, x)) {
				used[k] = true
				n++
				break
			}
		}
	}
	m := len(ta)
	if len(tb) > m {
		m = len(tb)
	}
	if m == 0 {
		return 0
	}
	return 2 * n / float64(m)
}

func (c *c26) files() {
	for _, f := range c.w.Funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				ci, ok := i.(ssa.CallInstruction)
				if !ok {
					continue
				}
				t := ci.Common().StaticCallee()
				if t == nil || !c.w.inMod[t] {
					continue
				}
				for _, a := range ci.Common().Args {
					if c.argsValue(a) {
						c.r.bad("files", fname(t), c.w.ipos(i), "%s receives the command word as the first of the file arguments", fname(t))
					} else if s, ok := a.(*ssa.Slice); ok && s.Low != nil && c.argsValue(s.X) {
						if k, ok := constInt(s.Low); ok && k == 1 {
							c.r.ob("files", "%s: the words after the command go to %s", c.w.ipos(i), fname(t))
						} else if ok {
							c.r.bad("files", fname(t)+"|skip", c.w.ipos(i), "%s receives the words from number %d on: file arguments are left out", fname(t), k)
						} else {
							c.r.undecided("%s: which words %s receives is not known", c.w.ipos(i), fname(t))
						}
					}
				}
			}
		}
	}
}
