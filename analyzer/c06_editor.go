package main

import (
	"bytes"
	_ "embed"
	"encoding/json"
	"fmt"
	"go/constant"
	"go/types"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

// C06: jobs made by the web block editor. The scripts are abstractly interpreted (jobs.js) to obtain every block, every
// toolbox entry and the shape of every job object a generator can emit; these are compared with the operator types of
// the engine, their JSON names and the Go types of their parameters.

//go:embed jobs.js
var jobsScript []byte

func init() {
	register("C06", "abstract interpretation of the editor's scripts: the shape of every job object each block can emit, compared with the operator registry, JSON names and parameter types of the engine", runC06)
}

type jsShape struct {
	K       string              `json:"k"`
	V       interface{}         `json:"v"`
	Undef   bool                `json:"undef"`
	Name    string              `json:"name"`
	Conv    string              `json:"conv"`
	Changed string              `json:"changed"`
	Of      *jsShape            `json:"of"`
	E       []*jsShape          `json:"e"`
	P       map[string]*jsShape `json:"p"`
	Open    bool                `json:"open"`
	Pos     string              `json:"pos"`
	Why     string              `json:"why"`
}

type jsField struct {
	Type      string          `json:"type"`
	Name      string          `json:"name"`
	Value     *float64        `json:"value"`
	Min       *float64        `json:"min"`
	Max       *float64        `json:"max"`
	Precision *float64        `json:"precision"`
	Options   [][]interface{} `json:"options"`
}

type jsBlock struct {
	Type   string             `json:"type"`
	Pos    string             `json:"pos"`
	Open   bool               `json:"open"`
	Fields map[string]jsField `json:"fields"`
	Inputs map[string]string  `json:"inputs"`
}

type jsJobs struct {
	Blocks  []jsBlock `json:"blocks"`
	Toolbox []struct{ Type, Pos string }
	Offered bool
	Gens    []struct {
		Type, Pos string
		Results   []*jsShape
		Reads     []string
	}
	Seq     []*jsShape
	Fetches []struct {
		URL    *string `json:"url"`
		Method *string
		Body   string
		Pos    string
	}
	Pages     []string
	Missing   []string
	Refs      []string
	Undecided []string
	Syntax    []struct{ Pos, Msg string }
}

func loadJobs(w *World) (*jsJobs, error) {
	cmd := exec.Command("node", "-", filepath.Join(w.Repo, "web"))
	cmd.Stdin = bytes.NewReader(jobsScript)
	var eb bytes.Buffer
	cmd.Stderr = &eb
	o, err := cmd.Output()
	if err != nil {
		return nil, fmt.Errorf("%v %s", err, eb.String())
	}
	j := &jsJobs{}
	return j, json.Unmarshal(o, j)
}

type c06 struct {
	w     *World
	r     *Report
	j     *jsJobs
	ops   map[string]*opType
	block map[string]*jsBlock
}

func runC06(w *World, r *Report) {
	r.rule("offered", "every block the editor offers is defined and has a code generator", 20)
	r.rule("type", "every job object names an operator type the engine accepts", 20)
	r.rule("key", "every name used in a job object is a parameter of the named operator", 20)
	r.rule("source", "values are taken from fields and inputs the block has", 20)
	r.rule("used", "what the user enters in a block is part of the job", 20)
	r.rule("kind", "the value emitted for a parameter is of a kind the parameter accepts", 20)
	r.rule("choice", "every choice offered for a mode is a value the engine defines, and the one the label describes", 5)
	r.rule("single", "a job or nested step list consisting of one block is decoded as that block", 1)
	r.rule("page", "the page loads the scripts and submits jobs to the route that runs them", 1)
	j, err := loadJobs(w)
	if err != nil {
		fmt.Fprintln(os.Stderr, "jobs.js:", err)
		r.undecided("the editor's scripts could not be analysed: %v", err)
		r.bad("page", "scripts", "web/js", "the editor's scripts cannot be analysed: %v", err)
		return
	}
	c := &c06{w, r, j, map[string]*opType{}, map[string]*jsBlock{}}
	for _, u := range j.Undecided {
		if !strings.HasPrefix(u, "web/index.html:") {
			r.undecided("editor: %s", u)
		}
	}
	for _, s := range j.Syntax {
		r.bad("page", "syntax|"+filepath.Base(strings.Split(s.Pos, ":")[0]), s.Pos, "the script cannot be parsed: %s", s.Msg)
	}
	h := &c05{w, r}
	for _, o := range w.operators() {
		if len(o.factory) == 0 {
			continue
		}
		if obj := w.construct(o.factory[0], nil, 0); obj != nil {
			if n, ok := h.typeName(obj); ok && n != "" {
				c.ops[n] = o
			}
		}
	}
	for i := range j.Blocks {
		b := &j.Blocks[i]
		if p := c.block[b.Type]; p != nil {
			r.bad("offered", b.Type+"|twice", b.Pos, "block %s is defined twice", b.Type)
		}
		c.block[b.Type] = b
	}
	gens := map[string]bool{}
	for _, g := range j.Gens {
		gens[g.Type] = true
	}
	if !j.Offered {
		r.undecided("editor: the toolbox handed to the editor was not found")
	}
	// what the toolbox offers
	for _, t := range j.Toolbox {
		r.ob("offered", "%s", t.Type)
		if c.block[t.Type] == nil && !c.openBlocks() {
			r.bad("offered", t.Type+"|undefined", t.Pos, "the toolbox offers block %s, which is not defined", t.Type)
		}
		if !gens[t.Type] {
			r.bad("offered", t.Type+"|no generator", t.Pos, "the toolbox offers block %s, which has no code generator: a job containing it cannot be created", t.Type)
		}
	}
	for _, b := range j.Blocks {
		if !gens[b.Type] {
			r.bad("offered", b.Type+"|no generator", b.Pos, "block %s has no code generator", b.Type)
		}
	}
	for _, g := range j.Gens {
		b := c.block[g.Type]
		if b == nil && c.openBlocks() {
			continue
		}
		if b != nil {
			read := map[string]bool{}
			for _, n := range g.Reads {
				read[n] = true
			}
			for _, s := range g.Results {
				if s.K == "stop" || s.K == "unk" {
					read["?"] = true
				}
			}
			var names []string
			for n := range b.Fields {
				names = append(names, n)
			}
			for n := range b.Inputs {
				names = append(names, n)
			}
			sort.Strings(names)
			for _, n := range names {
				r.ob("used", "%s: %s", g.Type, n)
				if !read[n] && !read["?"] {
					r.bad("used", g.Type+"|"+n, g.Pos, "what is entered for %q in block %s does not reach the job", n, g.Type)
				}
			}
		}
		for _, s := range g.Results {
			pos := g.Pos
			switch {
			case s.K == "jsonstr" && s.Of.K == "obj":
				c.object(g.Type, pos, s.Of, b, 0)
			case s.K == "jsonstr" && (s.Of.K == "const" || s.Of.K == "arr" || s.Of.K == "field"), s.K == "obj", s.K == "const" && s.V != "":
				r.bad("type", g.Type+"|no object", pos, "the generator of %s does not produce a job object in text form", g.Type)
			case s.K == "const":
			default:
				r.undecided("editor: job object of %s: %s %s", g.Type, s.K, s.Why)
			}
		}
	}
	c.sequence()
	c.page()
}

func (c *c06) openBlocks() bool {
	for _, u := range c.j.Undecided {
		if strings.Contains(u, "block") {
			return true
		}
	}
	return false
}

func (c *c06) object(gen, pos string, o *jsShape, b *jsBlock, d int) {
	t := o.P["type"]
	if t == nil || t.K != "const" {
		if o.Open || t != nil && (t.K == "unk" || t.K == "field") {
			c.r.undecided("editor: type of the job object of %s", gen)
			return
		}
		c.r.bad("type", gen+"|none", pos, "the job object of %s names no operator type", gen)
		return
	}
	name, _ := t.V.(string)
	c.r.ob("type", "%s emits %q", gen, name)
	op := c.ops[name]
	if op == nil {
		c.r.bad("type", gen+"|"+name, pos, "block %s emits a job with operator type %q, which the engine does not know", gen, name)
		return
	}
	fields := map[string]opField{}
	for _, f := range flatFields(op.st, "") {
		if f.json != "" && !f.embed {
			fields[strings.ToLower(f.json)] = f
		}
	}
	keys := []string{}
	for k := range o.P {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		v := o.P[k]
		if k == "type" {
			continue
		}
		c.r.ob("key", "%s: %s of %s", gen, k, op.name())
		f, ok := fields[strings.ToLower(k)]
		if !ok {
			c.r.bad("key", gen+"|"+k, pos, "block %s sets %q, which the operator %q does not read", gen, k, name)
			continue
		}
		c.value(gen, pos, k, v, f.v.Type(), op, b, d)
	}
}

func isInteger(b *types.Basic) bool { return b.Info()&types.IsInteger != 0 }

func whole(p *float64) bool { return p == nil || *p == math.Trunc(*p) }

// decodes itself in some way of its own
func customDecode(t types.Type) bool {
	for _, x := range []types.Type{t, types.NewPointer(t)} {
		ms := types.NewMethodSet(x)
		for i := 0; i < ms.Len(); i++ {
			if n := ms.At(i).Obj().Name(); n == "UnmarshalJSON" || n == "UnmarshalText" {
				return true
			}
		}
	}
	return false
}

func (c *c06) value(gen, pos, k string, v *jsShape, t types.Type, op *opType, b *jsBlock, d int) {
	bad := func(rule, key, f string, a ...interface{}) { c.r.bad(rule, gen+"|"+k+"|"+key, pos, f, a...) }
	bt, basic := t.Underlying().(*types.Basic)
	custom := customDecode(t)
	isOp := types.Implements(types.NewPointer(deref(t)), c.w.opInterface()) && !types.IsInterface(t)
	switch v.K {
	case "const":
		c.r.ob("kind", "%s: %s is constant", gen, k)
		switch x := v.V.(type) {
		case string:
			if basic && bt.Info()&types.IsString == 0 && !custom {
				bad("kind", "const", "block %s sets %s of %s to a text, but it is %s", gen, k, op.name(), t)
			}
		case float64:
			if basic && (bt.Info()&types.IsNumeric == 0 || isInteger(bt) && x != math.Trunc(x)) && !custom {
				bad("kind", "const", "block %s sets %s of %s to %v, but it is %s", gen, k, op.name(), x, t)
			}
			if basic && isInteger(bt) {
				c.enum(gen, pos, k, strconv.FormatFloat(x, 'f', -1, 64), "", t)
			}
		case bool:
			if basic && bt.Info()&types.IsBoolean == 0 && !custom {
				bad("kind", "const", "block %s sets %s of %s to a truth value, but it is %s", gen, k, op.name(), t)
			}
		}
	case "arr":
		c.r.ob("kind", "%s: %s is a list", gen, k)
		switch u := t.Underlying().(type) {
		case *types.Slice:
			for _, e := range v.E {
				c.value(gen, pos, k, e, u.Elem(), op, b, d+1)
			}
		case *types.Array:
			for _, e := range v.E {
				c.value(gen, pos, k, e, u.Elem(), op, b, d+1)
			}
		default:
			if !custom {
				bad("kind", "list", "block %s sets %s of %s to a list, but it is %s", gen, k, op.name(), t)
			}
		}
	case "obj":
		c.r.ob("kind", "%s: %s is an object", gen, k)
		if basic && !custom {
			bad("kind", "object", "block %s sets %s of %s to an object, but it is %s", gen, k, op.name(), t)
		} else if _, typed := v.P["type"]; typed && d < 3 {
			c.object(gen, pos, v, b, d+1)
		}
	case "stmtstr":
		bad("kind", "text", "block %s sets %s of %s to the text of a job instead of the job", gen, k, op.name())
	case "stmt":
		c.r.ob("kind", "%s: %s is a nested job", gen, k)
		if b != nil && !b.Open {
			c.r.ob("source", "%s: input %s", gen, v.Name)
			if _, ok := b.Inputs[v.Name]; !ok {
				bad("source", "input "+v.Name, "block %s takes nested steps from the input %q, which it does not have", gen, v.Name)
			}
		}
		if !isOp && !types.IsInterface(t) && !custom {
			bad("kind", "job", "block %s sets %s of %s to a nested job, but it is %s", gen, k, op.name(), t)
		}
	case "field":
		var f jsField
		known := false
		if b != nil {
			if f, known = b.Fields[v.Name]; !known && !b.Open {
				bad("source", "field "+v.Name, "block %s takes %s from the field %q, which it does not have: the parameter is never set", gen, k, v.Name)
				return
			}
		}
		if !known {
			return
		}
		c.r.ob("source", "%s: field %s", gen, v.Name)
		c.field(gen, pos, k, v, f, t, custom, op, bad)
	default:
		c.r.undecided("editor: value of %s set by %s", k, gen)
	}
}

// value kinds of the editor's fields
func (c *c06) field(gen, pos, k string, v *jsShape, f jsField, t types.Type, custom bool, op *opType, bad func(rule, key, f string, a ...interface{})) {
	c.r.ob("kind", "%s: %s of %s from %s", gen, k, op.name(), f.Type)
	bt, basic := t.Underlying().(*types.Basic)
	kind := "?"
	switch f.Type {
	case "field_input", "field_multilinetext", "field_dropdown", "field_colour", "field_checkbox", "field_label_serializable", "field_date":
		kind = "text"
	case "field_slider", "field_number":
		kind = "float"
		if f.Precision != nil && *f.Precision != 0 && whole(f.Precision) && whole(f.Min) && whole(f.Value) {
			kind = "int"
		}
	case "field_angle":
		kind = "int"
	default:
		c.r.undecided("editor: kind of field %s of %s", f.Type, gen)
		return
	}
	numeric := func(s string, integer bool) bool {
		if integer {
			m := regexp.MustCompile(`^\s*[-+]?\d+`).FindString(s)
			return m != ""
		}
		_, err := strconv.ParseFloat(strings.TrimSpace(s), 64)
		return err == nil
	}
	if kind == "text" && (v.Conv == "int" || v.Conv == "float") {
		switch f.Type {
		case "field_dropdown":
			for _, o := range f.Options {
				if len(o) == 2 {
					if s, ok := o[1].(string); ok && !numeric(s, v.Conv == "int") {
						bad("kind", "number", "block %s converts the choice %q for %s to a number, which it is not", gen, s, k)
					}
				}
			}
		case "field_input", "field_multilinetext", "field_checkbox":
			bad("kind", "number", "block %s converts the text entered for %s to a number", gen, k)
		}
		kind = v.Conv
		if kind == "float" && f.Type == "field_dropdown" {
			kind = "int"
			for _, o := range f.Options {
				if len(o) == 2 {
					if s, ok := o[1].(string); ok {
						if x, err := strconv.ParseFloat(s, 64); err == nil && x != math.Trunc(x) {
							kind = "float"
						}
					}
				}
			}
		}
	} else if v.Conv == "int" {
		if kind == "float" && basic && bt.Info()&types.IsFloat != 0 {
			bad("kind", "truncated", "block %s cuts off the digits after the decimal point of %s", gen, k)
		}
		kind = "int"
	} else if v.Conv == "string" {
		kind = "text"
	}
	if custom || types.IsInterface(t) {
		return
	}
	if !basic {
		bad("kind", "kind", "block %s sets %s of %s from a field, but it is %s", gen, k, op.name(), t)
		return
	}
	switch {
	case bt.Info()&types.IsString != 0:
		if kind != "text" {
			bad("kind", "kind", "block %s sets %s of %s to a number, but it is a text: the engine rejects the job", gen, k, op.name())
		}
		c.words(gen, pos, k, f, op)
	case isInteger(bt):
		if kind == "text" {
			bad("kind", "kind", "block %s sets %s of %s to a text, but it is a whole number: the engine rejects the job", gen, k, op.name())
		} else if kind == "float" {
			bad("kind", "kind", "block %s can set %s of %s to a number with decimals, but it is a whole number: the engine rejects the job", gen, k, op.name())
		}
		if bt.Info()&types.IsUnsigned != 0 && f.Min != nil && *f.Min < 0 {
			bad("kind", "sign", "block %s can set %s of %s to a negative number, which it cannot hold", gen, k, op.name())
		}
		if f.Type == "field_dropdown" {
			var labels [][2]string
			for _, o := range f.Options {
				if len(o) == 2 {
					l, _ := o[0].(string)
					s, _ := o[1].(string)
					c.enum(gen, pos, k, s, l, t)
					labels = append(labels, [2]string{l, s})
				}
			}
		}
	case bt.Info()&types.IsFloat != 0:
		if kind == "text" {
			bad("kind", "kind", "block %s sets %s of %s to a text, but it is a number: the engine rejects the job", gen, k, op.name())
		}
	case bt.Info()&types.IsBoolean != 0:
		if f.Type != "field_checkbox" || v.Conv != "" {
			bad("kind", "kind", "block %s sets %s of %s from a %s, but it is a truth value", gen, k, op.name(), f.Type)
		} else {
			bad("kind", "kind", "block %s sets %s of %s to a text, but it is a truth value: the engine rejects the job", gen, k, op.name())
		}
	}
}

// texts a choice offers, for parameters that accept certain texts only
func (c *c06) words(gen, pos, k string, f jsField, op *opType) {
	if f.Type != "field_dropdown" {
		return
	}
	for _, m := range modeSels {
		if m.op != op.name() || m.json != k || len(m.known) == 0 {
			continue
		}
		ok := map[string]bool{"": true}
		for _, s := range m.known {
			ok[s] = true
		}
		for _, o := range f.Options {
			if s, is := o[len(o)-1].(string); is {
				c.r.ob("choice", "%s: %s %q", gen, k, s)
				if !ok[s] {
					c.r.bad("choice", gen+"|"+k+"|"+s, pos, "block %s offers %q for %s of %s, which the engine does not accept", gen, s, k, op.name())
				}
			}
		}
	}
}

func camelWords(s string) (res []string) {
	cur := ""
	rs := []rune(s)
	for i, r := range rs {
		if unicode.IsUpper(r) && cur != "" && (!unicode.IsUpper(rs[i-1]) || i+1 < len(rs) && unicode.IsLower(rs[i+1])) {
			res = append(res, strings.ToLower(cur))
			cur = ""
		}
		if r == '_' {
			continue
		}
		cur += string(r)
	}
	if cur != "" {
		res = append(res, strings.ToLower(cur))
	}
	return
}

// a mode value: one of the constants, and the one whose name the label mentions
func (c *c06) enum(gen, pos, k, val, label string, t types.Type) {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return
	}
	cs := c.w.constGroup(strings.TrimPrefix(n.Obj().Pkg().Path(), Mod+"/") + "." + n.Obj().Name())
	if len(cs) < 2 {
		return
	}
	c.r.ob("choice", "%s: %s=%s", gen, k, val)
	var mine *types.Const
	for _, x := range cs {
		if i, ok := constant.Int64Val(constant.ToInt(x.Val())); ok && strconv.FormatInt(i, 10) == strings.TrimSpace(val) {
			mine = x
		}
	}
	if mine == nil {
		c.r.bad("choice", gen+"|"+k+"|"+val, pos, "block %s offers %s=%s (%s), which is not among the values of %s", gen, k, val, label, n.Obj().Name())
		return
	}
	if label == "" {
		return
	}
	// words of the constants' names without their common prefix
	pre := cs[0].Name()
	for _, x := range cs {
		for !strings.HasPrefix(x.Name(), pre) {
			pre = pre[:len(pre)-1]
		}
	}
	lw := strings.FieldsFunc(strings.ToLower(label), func(r rune) bool { return !unicode.IsLetter(r) && !unicode.IsDigit(r) })
	score := func(x *types.Const) float64 {
		ws := camelWords(strings.TrimPrefix(x.Name(), pre))
		hit := 0
		for _, w := range ws {
			for _, l := range lw {
				if len(w) >= 3 && strings.HasPrefix(l, w) || len(l) >= 3 && strings.HasPrefix(w, l) {
					hit++
					break
				}
			}
		}
		if len(ws) == 0 {
			return 0
		}
		return float64(hit) / float64(len(ws))
	}
	my := score(mine)
	for _, x := range cs {
		if s := score(x); s == 1 && my < 0.5 {
			c.r.bad("choice", gen+"|"+k+"|"+val+"|label", pos, "block %s: the choice %q sets %s to %s (%s), but describes %s", gen, label, k, val, mine.Name(), x.Name())
			return
		}
	}
}

// how several blocks become one job, and one block alone
func (c *c06) sequence() {
	if len(c.j.Seq) == 0 {
		c.r.undecided("editor: no rule for turning consecutive blocks into a job was found")
		return
	}
	alone := false // one block is handed over as it is
	for _, s := range c.j.Seq {
		switch {
		case s.K == "stmtstr":
			alone = true
		case s.K == "jsonstr" && s.Of.K == "obj":
			c.object("consecutive blocks", s.Of.Pos, s.Of, nil, 0)
			if st := s.Of.P["steps"]; st != nil && st.K == "arr" && len(st.E) == 0 {
				c.r.bad("single", "steps|empty", s.Of.Pos, "the job of a block contains no steps")
			}
		default:
			c.r.undecided("editor: job made of consecutive blocks: %s %s", s.K, s.Why)
		}
	}
	if !alone {
		c.r.ob("single", "every job is a sequence")
		return
	}
	// then whatever decodes a sequence has to accept the single operator
	op := c.ops["seq"]
	if op == nil || op.decode == nil {
		return
	}
	c.r.ob("single", "a job of one block")
	f := op.decode
	var data *ssa.Parameter
	for _, p := range f.Params[1:] {
		data = p
	}
	ok := false
	seen := map[ssa.Value]bool{}
	var from func(v ssa.Value, d int) bool
	from = func(v ssa.Value, d int) bool {
		if v == nil || seen[v] || d > 14 {
			return false
		}
		seen[v] = true
		if v == data {
			return true
		}
		switch x := v.(type) {
		case *ssa.ChangeType:
			return from(x.X, d+1)
		case *ssa.Convert:
			return from(x.X, d+1)
		case *ssa.Phi:
			for _, e := range x.Edges {
				if from(e, d+1) {
					return true
				}
			}
		case *ssa.Slice:
			return from(x.X, d+1)
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				return from(x.Call.Args[0], d+1) || from(x.Call.Args[1], d+1)
			}
			for _, a := range x.Call.Args {
				if from(a, d+1) {
					return true
				}
			}
		case *ssa.UnOp:
			return from(x.X, d+1)
		case *ssa.Extract:
			return from(x.Tuple, d+1)
		case *ssa.IndexAddr, *ssa.FieldAddr, *ssa.Alloc, *ssa.Field, *ssa.Index:
			var base ssa.Value
			switch y := v.(type) {
			case *ssa.IndexAddr:
				base = y.X
			case *ssa.FieldAddr:
				base = nil
				// stores to the same field of the same object
				r0, p0 := rootPath(y)
				for _, b := range y.Parent().Blocks {
					for _, i := range b.Instrs {
						if st, ok := i.(*ssa.Store); ok {
							if r1, p1 := rootPath(st.Addr); r1 == r0 && p1 == p0 && from(st.Val, d+1) {
								return true
							}
						}
					}
				}
			case *ssa.Field:
				base = y.X
			case *ssa.Index:
				base = y.X
			case *ssa.Alloc:
				for _, rf := range *y.Referrers() {
					if st, ok := rf.(*ssa.Store); ok && st.Addr == y && from(st.Val, d+1) {
						return true
					}
					if ia, ok := rf.(*ssa.IndexAddr); ok {
						for _, r2 := range *ia.Referrers() {
							if st, ok := r2.(*ssa.Store); ok && st.Addr == ia && from(st.Val, d+1) {
								return true
							}
						}
					}
				}
			}
			return base != nil && from(base, d+1)
		case *ssa.Parameter:
			for _, s := range c.w.calls().callers[x.Parent()] {
				if a := argFor(x, x.Parent(), s); a != nil && s.Parent().Pkg == f.Pkg && from(a, d+1) {
					return true
				}
			}
		}
		return false
	}
	found := false
	for _, g := range c.reach(f) {
		for _, b := range g.Blocks {
			for _, i := range b.Instrs {
				ci, is := i.(ssa.CallInstruction)
				if !is || !isUnmarshal(ci.Common()) {
					continue
				}
				t := ci.Common().Args[len(ci.Common().Args)-1]
				if mi, is := t.(*ssa.MakeInterface); is {
					t = mi.X
				}
				dyn := types.IsInterface(t.Type())
				if ct, is := t.(*ssa.ChangeInterface); is {
					dyn = dyn || types.IsInterface(ct.X.Type())
				}
				if !dyn {
					continue
				}
				found = true
				seen = map[ssa.Value]bool{}
				if from(ci.Common().Args[0], 0) {
					ok = true
				}
			}
		}
	}
	if !found {
		c.r.undecided("decoding of a sequence's steps was not recognised")
		return
	}
	if !ok {
		c.r.bad("single", fname(f)+"|alone", c.w.pos(f.Pos()), "the editor submits a single block as an operator on its own, but %s decodes it as a sequence without steps: the job, or the nested step list, does nothing", fname(f))
	}
}

// the page: where jobs go
func (c *c06) page() {
	for _, m := range c.j.Missing {
		c.r.bad("page", "script|"+m, "web/index.html", "the page loads the script %s, which does not exist", m)
	}
	type route struct{ method, path string }
	var routes []route
	prefix := map[ssa.Value]string{}
	var base func(v ssa.Value, d int) (string, bool)
	base = func(v ssa.Value, d int) (string, bool) {
		if p, ok := prefix[v]; ok {
			return p, true
		}
		if d > 8 {
			return "", false
		}
		switch x := v.(type) {
		case *ssa.Call:
			if n := calleeName(&x.Call); strings.HasSuffix(n, ".Group") && len(x.Call.Args) >= 2 {
				s, ok := strOf(x.Call.Args[1])
				p, ok2 := base(x.Call.Args[0], d+1)
				return p + s, ok && ok2
			}
			return "", true
		case *ssa.FieldAddr:
			return base(x.X, d+1)
		case *ssa.UnOp:
			if s := singleStore(x.X); s != nil {
				return base(s, d+1)
			}
			return base(x.X, d+1)
		}
		return "", false
	}
	complete := true
	for _, f := range c.w.Funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				ci, ok := i.(*ssa.Call)
				if !ok || ci.Call.StaticCallee() == nil || ci.Call.StaticCallee().Pkg == nil || ci.Call.StaticCallee().Pkg.Pkg.Name() != "gin" || len(ci.Call.Args) < 3 {
					continue
				}
				m := ci.Call.StaticCallee().Name()
				switch m {
				case "GET", "POST", "PUT", "Any", "StaticFS", "Static", "StaticFile":
				default:
					continue
				}
				p, ok1 := base(ci.Call.Args[0], 0)
				s, ok2 := strOf(ci.Call.Args[1])
				if !ok1 || !ok2 {
					complete = false
					continue
				}
				routes = append(routes, route{m, p + s})
			}
		}
	}
	if len(routes) == 0 {
		c.r.undecided("routes of the server were not found")
		return
	}
	n := 0
	for _, f := range c.j.Fetches {
		if f.URL == nil || f.Method == nil {
			c.r.undecided("editor: address of the request at %s", f.Pos)
			continue
		}
		p := regexp.MustCompile(`^https?://[^/]*`).ReplaceAllString(*f.URL, "")
		p = strings.SplitN(p, "?", 2)[0]
		if f.Body != "code" {
			continue
		}
		n++
		c.r.ob("page", "%s %s", *f.Method, p)
		ok := false
		for _, rt := range routes {
			if rt.path == p && (rt.method == *f.Method || rt.method == "Any") {
				ok = true
			}
		}
		if !ok && complete {
			c.r.bad("page", "submit", f.Pos, "jobs are submitted by %s to %s, which the server does not handle", *f.Method, p)
		}
	}
	if n == 0 {
		c.r.undecided("editor: the request submitting a job was not recognised")
	}
	for _, ref := range c.j.Refs {
		if strings.Contains(ref, ":") {
			continue
		}
		p := "/" + strings.TrimPrefix(ref, "/")
		ok := false
		for _, rt := range routes {
			if rt.path == p || strings.HasPrefix(rt.method, "Static") && strings.HasPrefix(p, rt.path+"/") {
				ok = true
			}
		}
		c.r.ob("page", "%s", p)
		if !ok && complete {
			c.r.bad("page", "ref|"+p, "web/index.html", "the page refers to %s, which the server does not provide", p)
		}
	}
}

func strOf(v ssa.Value) (string, bool) {
	if k, ok := v.(*ssa.Const); ok {
		return constString(k)
	}
	return "", false
}

func (c *c06) reach(f *ssa.Function) (res []*ssa.Function) {
	seen := map[*ssa.Function]bool{f: true}
	res = []*ssa.Function{f}
	for k := 0; k < len(res) && k < 200; k++ {
		for _, b := range res[k].Blocks {
			for _, i := range b.Instrs {
				if ci, ok := i.(ssa.CallInstruction); ok {
					if g := ci.Common().StaticCallee(); g != nil && !seen[g] && c.w.inMod[g] {
						seen[g] = true
						res = append(res, g)
					}
				}
			}
		}
	}
	return
}
