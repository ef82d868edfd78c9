package main

import (
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// the other entries of the header: those the reader keeps are written as well, and each is looked up with keys of its own kind
func (c *c15) entries() {
	reach := map[*ssa.Function]bool{c.root: true}
	work := []*ssa.Function{c.root}
	for len(work) > 0 {
		f := work[0]
		work = work[1:]
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if ci, ok := i.(ssa.CallInstruction); ok {
					for _, t := range c.w.targets(ci) {
						if c.w.inMod[t] && !reach[t] {
							reach[t] = true
							work = append(work, t)
						}
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			if !reach[a] {
				reach[a] = true
				work = append(work, a)
			}
		}
	}
	isMap := func(v ssa.Value) string {
		if _, ok := v.Type().Underlying().(*types.Map); !ok {
			return ""
		}
		u, ok := v.(*ssa.UnOp)
		if !ok || u.Op != token.MUL {
			return ""
		}
		fa, ok := u.X.(*ssa.FieldAddr)
		if !ok || deref(fa.X.Type()).String() != Mod+"/internal/fits.Header" {
			return ""
		}
		return fieldName(fa.X.Type(), fa.Field)
	}
	kept, ranged, unclear := map[string]bool{}, map[string]bool{}, map[string]bool{}
	for _, f := range c.w.Funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				switch x := i.(type) {
				case *ssa.MapUpdate:
					if m := isMap(x.Map); m != "" {
						if _, isK := x.Key.(*ssa.Const); !isK {
							kept[m] = true
						}
					}
				case *ssa.Range:
					if m := isMap(x.X); m != "" && reach[f] {
						ranged[m] = true
					}
				case *ssa.Phi, *ssa.MakeInterface, *ssa.Store, *ssa.ChangeType:
					if reach[f] {
						for _, o := range i.Operands(nil) {
							if m := isMap(*o); m != "" {
								unclear[m] = true
							}
						}
					}
				case ssa.CallInstruction:
					if n := calleeName(x.Common()); n == "builtin.delete" || n == "builtin.len" {
						continue
					}
					if reach[f] {
						for _, a := range x.Common().Args {
							if m := isMap(a); m != "" {
								unclear[m] = true
							}
						}
					}
				}
			}
		}
	}
	var ms []string
	for m := range kept {
		ms = append(ms, m)
	}
	sort.Strings(ms)
	for _, m := range ms {
		switch {
		case ranged[m]:
			c.r.ob("entries", "the %s of the header are written", m)
		case unclear[m]:
			c.r.undecided("are the %s of the header written", m)
		default:
			c.r.bad("entries", m, c.w.pos(c.root.Pos()), "header entries the reader keeps as %s are not written: %s goes over them nowhere, so they are lost when an image is saved", m, fname(c.root))
		}
	}
	// keys used to look entries up
	for _, f := range c.w.Funcs {
		if !reach[f] {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				lk, ok := i.(*ssa.Lookup)
				if !ok || lk.CommaOk || isMap(lk.X) == "" {
					continue
				}
				u, ok := lk.Index.(*ssa.UnOp)
				if !ok || u.Op != token.MUL {
					continue
				}
				ia, ok := u.X.(*ssa.IndexAddr)
				if !ok {
					continue
				}
				from, open := map[string]bool{}, false
				entryKeys(ia.X, isMap, map[ssa.Value]bool{}, from, &open)
				m := isMap(lk.X)
				var other []string
				for k := range from {
					if k != m {
						other = append(other, k)
					}
				}
				sort.Strings(other)
				if len(other) > 0 {
					c.r.bad("entries", fname(f)+"|keys|"+m, c.w.ipos(i), "%s writes %s of the header under keys which may be those of its %s: such records are written twice, with values which are not theirs", fname(f), m, other[0])
				} else if !open && from[m] {
					c.r.ob("entries", "%s: %s written under their own keys", c.w.ipos(i), m)
				}
			}
		}
	}
}

// the maps whose keys a list may contain
func entryKeys(v ssa.Value, isMap func(ssa.Value) string, seen map[ssa.Value]bool, from map[string]bool, open *bool) {
	if seen[v] {
		return
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Const, *ssa.MakeSlice:
		return
	case *ssa.Phi:
		for _, e := range x.Edges {
			entryKeys(e, isMap, seen, from, open)
		}
		return
	case *ssa.Slice:
		if x.High != nil {
			if k, ok := constInt(x.High); ok && k == 0 {
				return
			}
		}
		if al, ok := x.X.(*ssa.Alloc); ok {
			if at, ok := deref(al.Type()).Underlying().(*types.Array); ok && at.Len() == 0 {
				return
			}
			if al.Comment == "varargs" || al.Comment == "slicelit" {
				for _, e := range variadicElems(x) {
					keyFrom(e, isMap, from, open)
				}
				return
			}
			*open = true
			return
		}
		entryKeys(x.X, isMap, seen, from, open)
		return
	case *ssa.Call:
		if calleeName(&x.Call) == "builtin.append" && len(x.Call.Args) == 2 {
			entryKeys(x.Call.Args[0], isMap, seen, from, open)
			entryKeys(x.Call.Args[1], isMap, seen, from, open)
			return
		}
	}
	*open = true
}

func keyFrom(v ssa.Value, isMap func(ssa.Value) string, from map[string]bool, open *bool) {
	if ex, ok := v.(*ssa.Extract); ok && ex.Index == 1 {
		if nx, ok := ex.Tuple.(*ssa.Next); ok {
			if rg, ok := nx.Iter.(*ssa.Range); ok {
				if m := isMap(rg.X); m != "" {
					from[m] = true
					return
				}
			}
		}
	}
	*open = true
}
