package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// forward must-analysis over string facts

type mustFacts struct {
	f    *ssa.Function
	in   map[*ssa.BasicBlock]map[string]bool
	out  map[*ssa.BasicBlock]map[string]bool
	gen  func(ssa.Instruction) []string
	kill func(ssa.Instruction) []string
}

func mustFlow(f *ssa.Function, gen func(ssa.Instruction) []string) *mustFacts {
	return mustFlowFull(f, gen, nil, nil)
}

func mustFlowEdges(f *ssa.Function, gen func(ssa.Instruction) []string, edge func(from *ssa.BasicBlock, k int) []string) *mustFacts {
	return mustFlowFull(f, gen, nil, edge)
}

// conditions tested several times have the same outcome each time: analyzed separately, what holds in all cases is kept
func mustFlowFull(f *ssa.Function, gen, kill func(ssa.Instruction) []string, edge func(from *ssa.BasicBlock, k int) []string) *mustFacts {
	as := assignments(f)
	if len(as) <= 1 {
		return mustFlowCase(f, nil, gen, kill, edge)
	}
	var res *mustFacts
	meet := func(x, y map[*ssa.BasicBlock]map[string]bool) {
		for b, s := range y {
			if x[b] == nil {
				x[b] = s
				continue
			}
			for k := range x[b] {
				if !s[k] {
					delete(x[b], k)
				}
			}
		}
	}
	for _, a := range as {
		m := mustFlowCase(f, a, gen, kill, edge)
		if res == nil {
			res = m
			continue
		}
		meet(res.in, m.in)
		meet(res.out, m.out)
	}
	return res
}

func mustFlowCase(f *ssa.Function, a assignment, gen, kill func(ssa.Instruction) []string, edge func(from *ssa.BasicBlock, k int) []string) *mustFacts {
	m := &mustFacts{f: f, in: map[*ssa.BasicBlock]map[string]bool{}, out: map[*ssa.BasicBlock]map[string]bool{}, gen: gen, kill: kill}
	for n, changed := 0, true; changed && n < 1000; n++ {
		changed = false
		for _, b := range f.Blocks {
			var in map[string]bool // nil = unreached (top)
			if b.Index == 0 {
				in = map[string]bool{}
			}
			for _, p := range b.Preds {
				po := m.out[p]
				if po == nil {
					continue
				}
				// an edge may be taken several times (both branches); intersect over all of them
				for k, s := range p.Succs {
					if s != b || a.infeasible(p, k) {
						continue
					}
					cur := map[string]bool{}
					for x := range po {
						cur[x] = true
					}
					if edge != nil {
						for _, x := range edge(p, k) {
							cur[x] = true
						}
					}
					if in == nil {
						in = cur
					} else {
						for x := range in {
							if !cur[x] {
								delete(in, x)
							}
						}
					}
				}
			}
			if in == nil {
				continue
			}
			out := map[string]bool{}
			for x := range in {
				out[x] = true
			}
			for _, i := range b.Instrs {
				m.step(out, i)
			}
			if m.in[b] == nil || !sameSet(m.in[b], in) || !sameSet(m.out[b], out) {
				m.in[b], m.out[b] = in, out
				changed = true
			}
		}
	}
	return m
}

func (m *mustFacts) step(s map[string]bool, i ssa.Instruction) {
	if m.kill != nil {
		for _, x := range m.kill(i) {
			delete(s, x)
		}
	}
	for _, x := range m.gen(i) {
		s[x] = true
	}
}

func sameSet(a, b map[string]bool) bool {
	if len(a) != len(b) {
		return false
	}
	for x := range a {
		if !b[x] {
			return false
		}
	}
	return true
}

// facts holding just before instruction i
func (m *mustFacts) at(i ssa.Instruction) map[string]bool {
	s := map[string]bool{}
	for x := range m.in[i.Block()] {
		s[x] = true
	}
	for _, j := range i.Block().Instrs {
		if j == i {
			break
		}
		m.step(s, j)
	}
	return s
}

// ---- infeasible edges

// the false edge of the last comparison of a switch over an enumerated type with all of its constants
func enumExhausted(b *ssa.BasicBlock, k int) bool {
	iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok || k != 1 {
		return false
	}
	bo, ok := iff.Cond.(*ssa.BinOp)
	if !ok || bo.Op != token.EQL {
		return false
	}
	x := bo.X
	n, ok := x.Type().(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	seen := map[string]bool{}
	for d := 0; d < 64; d++ {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			break
		}
		bo, ok := iff.Cond.(*ssa.BinOp)
		if !ok || bo.Op != token.EQL || bo.X != x {
			break
		}
		c, ok := bo.Y.(*ssa.Const)
		if !ok || c.Value == nil {
			break
		}
		seen[c.Value.ExactString()] = true
		if len(b.Preds) != 1 || len(b.Preds[0].Succs) != 2 || b.Preds[0].Succs[1] != b {
			break
		}
		b = b.Preds[0]
	}
	all := enumConsts(n)
	if len(all) < 2 {
		return false
	}
	for _, c := range all {
		if !seen[c.Val().ExactString()] {
			return false
		}
	}
	return true
}

// the constants declared with a named basic type in its package, in order of value
func enumConsts(n *types.Named) []*types.Const {
	var res []*types.Const
	if n.Obj().Pkg() == nil {
		return nil
	}
	if _, ok := n.Underlying().(*types.Basic); !ok {
		return nil
	}
	sc := n.Obj().Pkg().Scope()
	for _, name := range sc.Names() {
		if c, ok := sc.Lookup(name).(*types.Const); ok && types.Identical(c.Type(), n) {
			res = append(res, c)
		}
	}
	return res
}

// an assignment of truth values to conditions that are tested several times in a function on the same unchanging operands
type assignment map[*ssa.If]bool

func (a assignment) infeasible(b *ssa.BasicBlock, k int) bool {
	if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
		if v, ok := a[iff]; ok {
			return v != (k == 0)
		}
	}
	return enumExhausted(b, k)
}

func inCycle(b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var st []*ssa.BasicBlock
	st = append(st, b.Succs...)
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		if x == b {
			return true
		}
		if seen[x] {
			continue
		}
		seen[x] = true
		st = append(st, x.Succs...)
	}
	return false
}

var asgMemo = map[*ssa.Function][]assignment{}

func assignments(f *ssa.Function) []assignment {
	if r, ok := asgMemo[f]; ok {
		return r
	}
	stable := func(v ssa.Value) bool {
		switch x := v.(type) {
		case *ssa.Const, *ssa.Parameter, *ssa.FreeVar:
			return true
		case ssa.Instruction:
			return !inCycle(x.Block())
		}
		return false
	}
	valKey := func(v ssa.Value) string {
		if c, ok := v.(*ssa.Const); ok {
			return c.String()
		}
		return v.Name()
	}
	groups := map[string]map[*ssa.If]bool{} // condition -> if -> polarity
	for _, b := range f.Blocks {
		if len(b.Instrs) == 0 {
			continue
		}
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		c, neg := stripNot(iff.Cond)
		key := ""
		pol := !neg
		if bo, ok := c.(*ssa.BinOp); ok && stable(bo.X) && stable(bo.Y) {
			op := bo.Op
			switch op {
			case token.NEQ:
				op, pol = token.EQL, !pol
			case token.LEQ:
				op, pol = token.GTR, !pol
			case token.GEQ:
				op, pol = token.LSS, !pol
			}
			if isFloatT(bo.X.Type()) && (bo.Op == token.LEQ || bo.Op == token.GEQ) {
				continue // not complementary for NaN
			}
			key = fmt.Sprintf("%s %s %s", valKey(bo.X), op, valKey(bo.Y))
		} else if stable(c) {
			key = valKey(c)
		}
		if key == "" {
			continue
		}
		if groups[key] == nil {
			groups[key] = map[*ssa.If]bool{}
		}
		groups[key][iff] = pol
	}
	var keys []string
	for k, g := range groups {
		if len(g) > 1 {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	if len(keys) > 4 {
		keys = keys[:4]
	}
	var res []assignment
	for m := 0; m < 1<<uint(len(keys)); m++ {
		a := assignment{}
		for j, k := range keys {
			val := m&(1<<uint(j)) != 0
			for iff, pol := range groups[k] {
				a[iff] = val == pol
			}
		}
		res = append(res, a)
	}
	asgMemo[f] = res
	return res
}

func isFloatT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

// is there a path with at least one edge
func blockReaches(from, to *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock) bool
	walk = func(b *ssa.BasicBlock) bool {
		for _, s := range b.Succs {
			if s == to {
				return true
			}
			if !seen[s] {
				seen[s] = true
				if walk(s) {
					return true
				}
			}
		}
		return false
	}
	return walk(from)
}
