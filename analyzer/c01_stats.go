package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C01: cached statistics of an image are never stale.
//
// Abstract state per image: C = statistics may be cached, D = cached statistics do not match the content any more,
// B = the statistics object describes another pixel buffer, W = the image width changed since the statistics object was made.
// States are propagated forwards through every function; function summaries map entry states to exit states.

const (
	sC = 1
	sD = 2
	sB = 4
	sW = 8
	sN = 16 // there is no statistics object yet
	nS = 32
)

type stateSet uint32 // set of the 32 combinations

func mapSet(s stateSet, f func(int) int) stateSet {
	var r stateSet
	for i := 0; i < nS; i++ {
		if s&(1<<uint(i)) != 0 {
			r |= 1 << uint(f(i))
		}
	}
	return r
}

func anyState(s stateSet, f func(int) bool) bool {
	for i := 0; i < nS; i++ {
		if s&(1<<uint(i)) != 0 && f(i) {
			return true
		}
	}
	return false
}

type statsEvent int

const (
	evNone statsEvent = iota
	evWrite
	evBuffer // Data field replaced
	evWidth  // Naxisn changed
	evNew    // Stats replaced by one describing the current buffer
	evNewMMM // same, with cached values supplied
	evNil
	evForeign // Stats replaced by something else
	evClear
	evSetData
	evUpdate
	evGet
	evGetNoise
)

func (ev statsEvent) apply(s int) int {
	switch ev {
	case evWrite:
		if s&sC != 0 {
			s |= sD
		}
	case evBuffer:
		s |= sB
	case evWidth:
		if s&sN == 0 {
			s |= sW
		}
	case evNew:
		s = 0
	case evNewMMM:
		s = sC
	case evForeign:
		s = sC | sB
	case evNil:
		s = sN
	case evClear:
		s &^= sC | sD
	case evSetData:
		s &^= sC | sD | sB
	case evUpdate:
		s &^= sD
	case evGet, evGetNoise:
		s |= sC
	}
	return s
}

func (ev statsEvent) wrong(s int) string {
	if ev != evGet && ev != evGetNoise || s&sN != 0 {
		return ""
	}
	switch {
	case s&sD != 0:
		return "statistics are read although the pixels were modified after they were last computed"
	case s&sB != 0:
		return "statistics are read although the image now holds another pixel buffer than the one they describe"
	case s&sW != 0 && ev == evGetNoise:
		return "the noise statistic is read although the image width changed after the statistics object was created"
	}
	return ""
}

type c01 struct {
	w        *World
	e        *effects
	r        *Report
	img      types.Type
	stats    types.Type
	class    map[*ssa.Function]map[int]statsEvent // stats package functions: effect on the k-th parameter (a *Stats)
	ctor     map[*ssa.Function]int                // functions returning fresh *Stats: index of the data parameter; mmm flag
	ctorMMM  map[*ssa.Function]bool
	sum      map[*ssa.Function]*c01sum
	changed  bool
	report   bool
	witness  map[string]bool
	nGet     int
	nWrite   int
	nRefresh int
}

type keyTab map[AP][nS]stateSet

type c01sum struct {
	exit keyTab              // key -> entry state -> exit states on returns that may be successful
	viol map[AP][nS]string   // key -> entry state -> description of a wrong read inside
	ret  map[int]stateSet    // result index -> states of fresh images returned
	pass map[int]map[AP]bool // result index -> parameter rooted images returned
}

func (c *c01) isImg(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	return ok && types.Identical(p.Elem(), c.img)
}
func (c *c01) isStats(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	return ok && types.Identical(p.Elem(), c.stats)
}

func hasSuffixKey(a AP, suf string) (AP, bool) {
	if strings.HasSuffix(a.Path, suf) {
		return AP{a.Root, a.Path[:len(a.Path)-len(suf)]}, true
	}
	return a, false
}

// the struct type whose field an address expression of the form x.Field denotes must be fits.Image: check via the addressing instruction
func (c *c01) imgFieldAddr(v ssa.Value, field string) []AP {
	fa, ok := v.(*ssa.FieldAddr)
	if !ok || fieldName(fa.X.Type(), fa.Field) != field || !c.isImg(fa.X.Type()) {
		return nil
	}
	return c.e.resolve(fa.X)
}

// keys of the images whose Stats field a *Stats value is read from, or the value itself
func (c *c01) statsKeys(v ssa.Value) []AP {
	var r []AP
	for _, a := range c.e.resolve(v) {
		if k, ok := hasSuffixKey(a, ".Stats"); ok {
			r = append(r, k)
		} else if p, ok := a.Root.(*ssa.Parameter); ok && a.Path == "" && c.isStats(p.Type()) {
			r = append(r, a)
		}
	}
	return r
}

type kev struct {
	key AP
	ev  statsEvent
}

// ---- classification of the stats package

func (c *c01) classify() {
	w := c.w
	sp := w.pkg("internal/stats")
	c.class = map[*ssa.Function]map[int]statsEvent{}
	c.ctor = map[*ssa.Function]int{}
	c.ctorMMM = map[*ssa.Function]bool{}
	st := c.stats.Underlying().(*types.Struct)
	var haves, nums []string
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if b, ok := f.Type().Underlying().(*types.Basic); ok {
			if b.Kind() == types.Bool {
				haves = append(haves, f.Name())
			} else if b.Info()&types.IsFloat != 0 {
				nums = append(nums, f.Name())
			}
		}
	}
	c.r.rule("cache-clear", "every validity flag of the statistics cache is reset by Clear-like methods", 1)
	for pass := 0; pass < 4; pass++ {
		for _, f := range w.Funcs {
			if f.Pkg != sp {
				continue
			}
			for k, p := range f.Params {
				if !c.isStats(p.Type()) {
					continue
				}
				reset := map[string]bool{}
				storesData, readsData, readsCached, writesCached, noise := false, false, false, false, false
				callClear, callSet := false, false
				for _, b := range f.Blocks {
					for _, i := range b.Instrs {
						switch i := i.(type) {
						case *ssa.Store:
							if fa, ok := i.Addr.(*ssa.FieldAddr); ok && fa.X == ssa.Value(p) {
								n := fieldName(fa.X.Type(), fa.Field)
								if c.isData(fa) {
									if cst, ok := i.Val.(*ssa.Const); !ok || cst.Value != nil {
										storesData = true
									}
								}
								if cst, ok := i.Val.(*ssa.Const); ok && cst.Value != nil && cst.Value.Kind() == constant.Bool {
									if constant.BoolVal(cst.Value) {
										readsCached = true
									} else if dominatesExits(f, b) {
										reset[n] = true
									}
								}
								if contains(nums, n) {
									writesCached = true
								}
							}
						case *ssa.UnOp:
							if fa, ok := i.X.(*ssa.FieldAddr); ok && i.Op == token.MUL && fa.X == ssa.Value(p) {
								n := fieldName(fa.X.Type(), fa.Field)
								if c.isData(fa) {
									readsData = true
								}
								if t, ok := deref(fa.X.Type()).Underlying().(*types.Struct).Field(fa.Field).Type().Underlying().(*types.Basic); ok && t.Info()&types.IsInteger != 0 {
									noise = true
								}
								if contains(nums, n) || contains(haves, n) {
									readsCached = true
								}
							}
						case ssa.CallInstruction:
							for _, t := range w.targets(i) {
								m := c.class[t]
								for kk, q := range t.Params {
									if a := argFor(q, t, i); a == ssa.Value(p) && m != nil {
										switch m[kk] {
										case evClear:
											if dominatesExits(f, b) {
												callClear = true
											}
										case evSetData:
											if dominatesExits(f, b) {
												callSet = true
											}
										case evGet, evGetNoise:
											readsCached, readsData = true, true
											if m[kk] == evGetNoise {
												noise = true
											}
										}
									}
								}
							}
						}
					}
				}
				ev := evNone
				allReset := len(haves) > 0
				for _, h := range haves {
					if !reset[h] {
						allReset = false
					}
				}
				switch {
				case callSet || (storesData && (allReset || callClear)):
					ev = evSetData
				case allReset || callClear:
					ev = evClear
				case readsData && noise:
					ev = evGetNoise
				case readsData:
					ev = evGet
				case writesCached:
					ev = evUpdate
				case readsCached:
					ev = evGet
				}
				if c.class[f] == nil {
					c.class[f] = map[int]statsEvent{}
				}
				c.class[f][k] = ev
				if pass == 0 && len(reset) > 0 && !readsData && f.Signature.Results().Len() == 0 {
					c.r.ob("cache-clear", "%s resets %d of %d validity flags", fname(f), len(reset), len(haves))
					if !allReset {
						var miss []string
						for _, h := range haves {
							if !reset[h] {
								miss = append(miss, h)
							}
						}
						c.r.bad("cache-clear", fname(f), w.pos(f.Pos()), "%s invalidates some cached statistics but leaves %s valid", fname(f), strings.Join(miss, ", "))
					}
				}
			}
		}
	}
	// constructors
	for _, f := range w.Funcs {
		if f.Pkg != sp || f.Signature.Results().Len() != 1 || !c.isStats(f.Signature.Results().At(0).Type()) {
			continue
		}
		for k, p := range f.Params {
			if s, ok := p.Type().Underlying().(*types.Slice); ok && types.Identical(s.Elem(), types.Typ[types.Float32]) {
				c.ctor[f] = k
			}
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if s, ok := i.(*ssa.Store); ok {
					if cst, ok := s.Val.(*ssa.Const); ok && cst.Value != nil && cst.Value.Kind() == constant.Bool && constant.BoolVal(cst.Value) {
						c.ctorMMM[f] = true
					}
				}
			}
		}
	}
	c.cacheDiscipline(haves, nums)
}

func contains(ss []string, s string) bool {
	for _, x := range ss {
		if x == s {
			return true
		}
	}
	return false
}

// does block b dominate every return of f?
func dominatesExits(f *ssa.Function, b *ssa.BasicBlock) bool {
	any := false
	for _, o := range f.Blocks {
		if len(o.Instrs) == 0 {
			continue
		}
		if _, ok := o.Instrs[len(o.Instrs)-1].(*ssa.Return); ok {
			any = true
			if !b.Dominates(o) {
				return false
			}
		}
	}
	return any
}

// the cache itself: a cached value is only returned when its flag is known to be set or it was just computed,
// and a flag is only set once every value it covers has been computed
func (c *c01) cacheDiscipline(haves, nums []string) {
	w, r := c.w, c.r
	r.rule("cache-getter", "a cached statistic is returned only where its validity flag holds or it has just been computed", 7)
	r.rule("cache-flag", "a validity flag is only set where every statistic it covers has been stored", 4)
	sp := w.pkg("internal/stats")
	covers := map[string]map[string]bool{}
	type getter struct {
		f    *ssa.Function
		fld  string
		load *ssa.UnOp
		flag string
		ok   bool
	}
	isField := func(v ssa.Value, p ssa.Value) string {
		fa, ok := v.(*ssa.FieldAddr)
		if !ok || fa.X != p {
			return ""
		}
		return fieldName(fa.X.Type(), fa.Field)
	}
	// fields (transitively) stored by a function on its k-th parameter on every path to exit
	var mustStore func(f *ssa.Function, p ssa.Value, d int) map[string]bool
	mustStore = func(f *ssa.Function, p ssa.Value, d int) map[string]bool {
		res := map[string]bool{}
		if d > 3 {
			return res
		}
		fl := mustFlow(f, func(i ssa.Instruction) []string { return c.storedFields(i, p, d, mustStore) })
		first := true
		for _, b := range f.Blocks {
			if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				o := fl.out[b]
				if first {
					for k := range o {
						res[k] = true
					}
					first = false
				} else {
					for k := range res {
						if !o[k] {
							delete(res, k)
						}
					}
				}
			}
		}
		return res
	}
	var gs []getter
	for _, f := range w.Funcs {
		if f.Pkg != sp || len(f.Params) == 0 || !c.isStats(f.Params[0].Type()) || f.Signature.Recv() == nil {
			continue
		}
		p := ssa.Value(f.Params[0])
		for _, b := range f.Blocks {
			rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok {
				continue
			}
			for _, x := range rt.Results {
				var visit func(x ssa.Value, d int)
				visit = func(x ssa.Value, d int) {
					if ph, ok := x.(*ssa.Phi); ok && d < 4 {
						for _, y := range ph.Edges {
							visit(y, d+1)
						}
						return
					}
					ld, ok := x.(*ssa.UnOp)
					if !ok || ld.Op != token.MUL {
						return
					}
					n := isField(ld.X, p)
					if !contains(nums, n) {
						return
					}
					// flags known true along edges into blocks: forward must analysis over facts "have:X" and "stored:Y"
					fl := mustFlowEdges(f, func(i ssa.Instruction) []string {
						var res []string
						for _, s := range c.storedFields(i, p, 0, mustStore) {
							res = append(res, s)
						}
						return res
					}, func(from *ssa.BasicBlock, k int) []string {
						iff, ok := from.Instrs[len(from.Instrs)-1].(*ssa.If)
						if !ok {
							return nil
						}
						cond, neg := stripNot(iff.Cond)
						u, ok := cond.(*ssa.UnOp)
						if !ok || u.Op != token.MUL {
							return nil
						}
						h := isField(u.X, p)
						if !contains(haves, h) {
							return nil
						}
						if (k == 0) != neg {
							return []string{"have:" + h}
						}
						return nil
					})
					facts := fl.at(ld)
					// flag tested anywhere in the getter
					flag := ""
					for _, bb := range f.Blocks {
						if iff, ok := bb.Instrs[len(bb.Instrs)-1].(*ssa.If); ok {
							cond, _ := stripNot(iff.Cond)
							if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.MUL {
								if h := isField(u.X, p); contains(haves, h) {
									flag = h
								}
							}
						}
					}
					// merge: at the join, one edge gives have:flag, the other stored n. evaluate path-sensitively with a disjunctive fact
					ok2 := facts["store:"+n] || facts["have:"+flag] || disjunctive(f, ld, n, flag, p, c, mustStore)
					gs = append(gs, getter{f, n, ld, flag, ok2})
				}
				visit(x, 0)
			}
		}
	}
	for _, g := range gs {
		if g.flag == "" {
			if !g.ok {
				r.undecided("%s returns cached field %s without testing a validity flag itself", fname(g.f), g.fld)
			}
			continue
		}
		if covers[g.flag] == nil {
			covers[g.flag] = map[string]bool{}
		}
		covers[g.flag][g.fld] = true
		r.ob("cache-getter", "%s returns %s guarded by %s", fname(g.f), g.fld, g.flag)
		if !g.ok {
			r.bad("cache-getter", fname(g.f)+"|"+g.fld, w.ipos(g.load), "%s can return the cached %s although %s is not set and it was not computed", fname(g.f), g.fld, g.flag)
		}
	}
	// cached fields must be guarded by one flag each
	byField := map[string]string{}
	for flag, fs := range covers {
		for fl := range fs {
			if o, ok := byField[fl]; ok && o != flag {
				r.bad("cache-getter", "flag|"+fl, "-", "cached statistic %s is guarded by both %s and %s", fl, o, flag)
			}
			byField[fl] = flag
		}
	}
	for _, f := range w.Funcs {
		if f.Pkg != sp {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				s, ok := i.(*ssa.Store)
				if !ok {
					continue
				}
				cst, ok := s.Val.(*ssa.Const)
				if !ok || cst.Value == nil || cst.Value.Kind() != constant.Bool || !constant.BoolVal(cst.Value) {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || !types.Identical(deref(fa.X.Type()), c.stats) {
					continue
				}
				flag := fieldName(fa.X.Type(), fa.Field)
				need := covers[flag]
				if len(need) == 0 {
					continue
				}
				fl := mustFlow(f, func(i ssa.Instruction) []string { return c.storedFields(i, fa.X, 0, mustStore) })
				have := fl.at(s)
				// stores later in the same block are fine too (struct literals)
				after := false
				for _, j := range b.Instrs {
					if j == i {
						after = true
					}
					if after {
						for _, x := range c.storedFields(j, fa.X, 0, mustStore) {
							have[x] = true
						}
					}
				}
				r.ob("cache-flag", "%s sets %s after storing what it covers", fname(f), flag)
				var miss []string
				for n := range need {
					if !have["store:"+n] {
						miss = append(miss, n)
					}
				}
				sort.Strings(miss)
				if len(miss) > 0 {
					r.bad("cache-flag", fname(f)+"|"+flag, w.ipos(s), "%s marks %s valid without storing %s on every path", fname(f), flag, strings.Join(miss, ", "))
				}
			}
		}
	}
	c.updateForms(nums)
}

func disjunctive(f *ssa.Function, ld *ssa.UnOp, n, flag string, p ssa.Value, c *c01, ms func(*ssa.Function, ssa.Value, int) map[string]bool) bool {
	fl := mustFlowEdges(f, func(i ssa.Instruction) []string {
		for _, s := range c.storedFields(i, p, 0, ms) {
			if s == "store:"+n {
				return []string{"good"}
			}
		}
		return nil
	}, func(from *ssa.BasicBlock, k int) []string {
		iff, ok := from.Instrs[len(from.Instrs)-1].(*ssa.If)
		if !ok {
			return nil
		}
		cond, neg := stripNot(iff.Cond)
		u, ok := cond.(*ssa.UnOp)
		if !ok || u.Op != token.MUL {
			return nil
		}
		fa, ok := u.X.(*ssa.FieldAddr)
		if !ok || fa.X != p || fieldName(fa.X.Type(), fa.Field) != flag {
			return nil
		}
		if (k == 0) != neg {
			return []string{"good"}
		}
		return nil
	})
	return fl.at(ld)["good"]
}

func stripNot(v ssa.Value) (ssa.Value, bool) {
	neg := false
	for {
		u, ok := v.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			return v, neg
		}
		neg = !neg
		v = u.X
	}
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// fields of *p stored by an instruction, including through calls
func (c *c01) storedFields(i ssa.Instruction, p ssa.Value, d int, ms func(*ssa.Function, ssa.Value, int) map[string]bool) []string {
	switch i := i.(type) {
	case *ssa.Store:
		if fa, ok := i.Addr.(*ssa.FieldAddr); ok && fa.X == p {
			return []string{"store:" + fieldName(fa.X.Type(), fa.Field)}
		}
	case *ssa.Call:
		var res []string
		for _, t := range c.w.targets(i) {
			for _, q := range t.Params {
				if argFor(q, t, i) == p {
					for k := range ms(t, q, d+1) {
						res = append(res, k)
					}
				}
			}
		}
		return res
	}
	return nil
}

// UpdateCachedWith-like methods: every cached statistic must be transformed consistently with pixels -> m*pixel+o
func (c *c01) updateForms(nums []string) {
	w, r := c.w, c.r
	r.rule("cache-update", "updating cached statistics for a linear pixel transformation covers every statistic with the right form", 7)
	for f, m := range c.class {
		for k, ev := range m {
			if ev != evUpdate || len(f.Params) < k+3 {
				continue
			}
			p, mul, off := ssa.Value(f.Params[k]), ssa.Value(f.Params[k+1]), ssa.Value(f.Params[k+2])
			kind := map[string]string{"min": "loc", "max": "loc", "mean": "loc", "location": "loc", "stdDev": "scale", "scale": "scale", "noise": "scale"}
			for _, sign := range []int{1, -1} {
				env := runLinear(f, p, mul, off, sign, nums)
				if env == nil {
					r.undecided("%s: control flow beyond tests of the multiplier's sign", fname(f))
					continue
				}
				for _, n := range nums {
					want := ""
					switch kind[n] {
					case "loc":
						src := n
						if sign < 0 && n == "min" {
							src = "max"
						} else if sign < 0 && n == "max" {
							src = "min"
						}
						want = fmt.Sprintf("%d*m*%s+o", 1, src)
					case "scale":
						want = fmt.Sprintf("%d*m*%s", sign, n)
					default:
						r.undecided("%s: unknown cached statistic %s", fname(f), n)
						continue
					}
					got, ok := env[n]
					r.ob("cache-update", "%s: %s becomes %s for %s multiplier", fname(f), n, got, map[int]string{1: "positive", -1: "negative"}[sign])
					if !ok {
						r.bad("cache-update", fname(f)+"|"+n, w.pos(f.Pos()), "%s does not update the cached %s", fname(f), n)
					} else if strings.HasPrefix(got, "?") {
						r.undecided("%s: form of %s not recognised", fname(f), n)
					} else if got != want {
						s := "positive"
						if sign < 0 {
							s = "negative"
						}
						r.bad("cache-update", fname(f)+"|"+n, w.pos(f.Pos()), "%s turns the cached %s into %s for a %s multiplier m, but the statistic of the transformed pixels is %s (1*m meaning +m, -1*m meaning the absolute value)", fname(f), n, got, s, want)
					}
				}
			}
		}
	}
}

// abstract evaluation of straight-line field updates: values are c*m^a*field + d*o
type lin struct {
	ok    bool
	c     int
	m     int
	fld   string
	o     int
	konst bool // plain multiplier or offset or constant without field
	zero  bool
}

func (l lin) String() string {
	if !l.ok {
		return "?"
	}
	s := fmt.Sprint(l.c)
	for i := 0; i < l.m; i++ {
		s += "*m"
	}
	if l.fld != "" {
		s += "*" + l.fld
	}
	if l.o == 1 {
		s += "+o"
	} else if l.o != 0 {
		s += fmt.Sprintf("%+d*o", l.o)
	}
	return s
}

func runLinear(f *ssa.Function, p, mul, off ssa.Value, sign int, nums []string) map[string]string {
	fields := map[string]lin{}
	for _, n := range nums {
		fields[n] = lin{ok: true, c: 1, fld: n}
	}
	touched := map[string]bool{}
	vals := map[ssa.Value]lin{}
	var ev func(v ssa.Value) lin
	ev = func(v ssa.Value) lin {
		if x, ok := vals[v]; ok {
			return x
		}
		switch v {
		case mul:
			return lin{ok: true, c: 1, m: 1}
		case off:
			return lin{ok: true, o: 1, zero: true}
		}
		switch v := v.(type) {
		case *ssa.Convert:
			return ev(v.X)
		case *ssa.Const:
			if v.Value == nil {
				return lin{}
			}
			if x, ok := constant.Int64Val(constant.ToInt(v.Value)); ok {
				return lin{ok: true, c: int(x), zero: x == 0}
			}
		}
		return lin{}
	}
	mulL := func(a, b lin) lin {
		if !a.ok || !b.ok || a.o != 0 && b.c != 1 || b.o != 0 && a.c != 1 || (a.fld != "" && b.fld != "") || a.o != 0 || b.o != 0 {
			return lin{}
		}
		return lin{ok: true, c: a.c * b.c, m: a.m + b.m, fld: a.fld + b.fld}
	}
	addL := func(a, b lin) lin {
		if !a.ok || !b.ok {
			return lin{}
		}
		if a.zero && a.c == 0 {
			return lin{ok: true, c: b.c, m: b.m, fld: b.fld, o: a.o + b.o}
		}
		if b.zero && b.c == 0 {
			return lin{ok: true, c: a.c, m: a.m, fld: a.fld, o: a.o + b.o}
		}
		return lin{}
	}
	b := f.Blocks[0]
	var prev *ssa.BasicBlock
	for steps := 0; steps < 200; steps++ {
		var next *ssa.BasicBlock
		for _, i := range b.Instrs {
			switch i := i.(type) {
			case *ssa.Phi:
				for k, pr := range b.Preds {
					if pr == prev {
						vals[i] = ev(i.Edges[k])
					}
				}
			case *ssa.UnOp:
				if i.Op == token.MUL {
					if fa, ok := i.X.(*ssa.FieldAddr); ok && fa.X == p {
						if l, ok := fields[fieldName(fa.X.Type(), fa.Field)]; ok {
							vals[i] = l
						}
					}
				} else if i.Op == token.SUB {
					vals[i] = mulL(lin{ok: true, c: -1}, ev(i.X))
				}
			case *ssa.BinOp:
				x, y := ev(i.X), ev(i.Y)
				switch i.Op {
				case token.MUL:
					vals[i] = mulL(x, y)
				case token.ADD:
					vals[i] = addL(x, y)
				default:
					vals[i] = lin{}
				}
			case *ssa.Call:
				n := calleeName(&i.Call)
				if n == "math.Abs" {
					x := ev(i.Call.Args[0])
					if x.ok && x.fld == "" && x.m == 1 && x.o == 0 {
						c := x.c
						if c < 0 {
							c = -c
						}
						vals[i] = lin{ok: true, c: c * sign, m: 1}
						continue
					}
				}
				vals[i] = lin{}
			case *ssa.Store:
				if fa, ok := i.Addr.(*ssa.FieldAddr); ok && fa.X == p {
					n := fieldName(fa.X.Type(), fa.Field)
					if _, ok := fields[n]; ok {
						fields[n] = ev(i.Val)
						touched[n] = true
					}
				}
			case *ssa.If:
				bo, ok := i.Cond.(*ssa.BinOp)
				if !ok {
					return nil
				}
				op := bo.Op
				x, y := bo.X, bo.Y
				if cst, ok := x.(*ssa.Const); ok && cst.Value != nil {
					x, y = y, x
					op = flipOp(op)
				}
				cst, ok := y.(*ssa.Const)
				xl := ev(x)
				if !ok || cst.Value == nil || constant.Sign(cst.Value) != 0 || !xl.ok || xl.m != 1 || xl.fld != "" || xl.o != 0 {
					return nil
				}
				s := sign * xl.c
				var t bool
				switch op {
				case token.LSS, token.LEQ:
					t = s < 0
				case token.GTR, token.GEQ:
					t = s > 0
				case token.NEQ:
					t = true
				case token.EQL:
					t = false
				default:
					return nil
				}
				if t {
					next = b.Succs[0]
				} else {
					next = b.Succs[1]
				}
			case *ssa.Jump:
				next = b.Succs[0]
			case *ssa.Return:
				res := map[string]string{}
				for n := range touched {
					res[n] = fields[n].String()
				}
				return res
			}
		}
		if next == nil {
			return nil
		}
		prev, b = b, next
	}
	return nil
}

func flipOp(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GTR
	case token.GTR:
		return token.LSS
	case token.LEQ:
		return token.GEQ
	case token.GEQ:
		return token.LEQ
	}
	return op
}

// the pixels a statistics object describes
func (c *c01) isData(fa *ssa.FieldAddr) bool {
	st, ok := deref(fa.X.Type()).Underlying().(*types.Struct)
	if !ok || !c.isStats(fa.X.Type()) {
		return false
	}
	sl, ok := st.Field(fa.Field).Type().Underlying().(*types.Slice)
	return ok && isFloatT(sl.Elem())
}

// ---- events of one instruction in function f

func (c *c01) events(f *ssa.Function, i ssa.Instruction) []kev {
	var evs []kev
	e := c.e
	switch i := i.(type) {
	case *ssa.Store:
		if ks := c.imgFieldAddr(i.Addr, "Data"); ks != nil {
			for _, k := range ks {
				evs = append(evs, kev{k, evBuffer})
			}
			return evs
		}
		if ks := c.imgFieldAddr(i.Addr, "Naxisn"); ks != nil {
			for _, k := range ks {
				evs = append(evs, kev{k, evWidth})
			}
			return evs
		}
		if ks := c.imgFieldAddr(i.Addr, "Stats"); ks != nil {
			for _, k := range ks {
				ev := evForeign
				if call, ok := i.Val.(*ssa.Call); ok {
					if t := call.Call.StaticCallee(); t != nil {
						if di, ok := c.ctor[t]; ok {
							if c.describes(k, call.Call.Args[di], f) {
								ev = evNew
								if c.ctorMMM[t] {
									ev = evNewMMM
								}
							}
						}
					}
				}
				if cst, ok := i.Val.(*ssa.Const); ok && cst.Value == nil {
					ev = evNil // nil statistics: reading them fails loudly, they describe nothing wrongly
				}
				evs = append(evs, kev{k, ev})
			}
			return evs
		}
		if ks := c.e.resolve(i.Addr); len(ks) > 0 {
			for _, a := range ks {
				if k, ok := hasSuffixKey(a, ".Data[]"); ok {
					evs = append(evs, kev{k, evWrite})
				} else if k, ok := hasSuffixKey(a, ".Naxisn[]"); ok {
					if ia, ok := i.Addr.(*ssa.IndexAddr); ok {
						if cst, ok := ia.Index.(*ssa.Const); ok && cst.Int64() != 0 {
							continue
						}
					}
					evs = append(evs, kev{k, evWidth})
				}
			}
		}
	case *ssa.MakeInterface:
		if c.isStats(i.X.Type()) {
			for _, k := range c.statsKeys(i.X) {
				evs = append(evs, kev{k, evGet})
			}
		}
	case ssa.CallInstruction:
		ts := c.w.targets(i)
		for _, t := range ts {
			if m := c.class[t]; m != nil {
				for k, ev := range m {
					if ev == evNone || k >= len(t.Params) {
						continue
					}
					a := argFor(t.Params[k], t, i)
					if a == nil {
						continue
					}
					for _, key := range c.statsKeys(a) {
						ev2 := ev
						if ev == evSetData {
							// must be given the image's own buffer
							ok := false
							for _, arg := range i.Common().Args {
								if _, isSl := arg.Type().Underlying().(*types.Slice); isSl && c.describes(key, arg, f) {
									ok = true
								}
							}
							if !ok {
								ev2 = evForeign
							}
						}
						evs = append(evs, kev{key, ev2})
					}
				}
			}
		}
		// plain slice writes in callees, seen from here
		seen := map[AP]bool{}
		add := func(a AP) {
			if k, ok := hasSuffixKey(a, ".Data[]"); ok && !seen[k] {
				seen[k] = true
				evs = append(evs, kev{k, evWrite})
			}
		}
		for _, t := range ts {
			for a := range e.writes[t] {
				if strings.Contains(a.Path, ".Data[]") {
					continue // handled by the callee's summary
				}
				for _, s := range e.substitute(a, t, i, -1) {
					add(s)
				}
			}
		}
		if len(ts) == 0 {
			for a := range e.callWrites(i) {
				add(a)
			}
			for _, a := range e.directWrites(i) {
				add(a)
			}
		}
	}
	return evs
}

// may the slice value d be the current pixel buffer of image key k in f?
func (c *c01) describes(k AP, d ssa.Value, f *ssa.Function) bool {
	ds := c.e.resolve(d)
	for _, a := range ds {
		if kk, ok := hasSuffixKey(a, ".Data"); ok && kk == k {
			return true
		}
	}
	// values stored into k.Data anywhere in f
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if st, ok := i.(*ssa.Store); ok {
				for _, kk := range c.imgFieldAddr(st.Addr, "Data") {
					if kk != k {
						continue
					}
					for _, x := range c.e.resolve(st.Val) {
						for _, a := range ds {
							if a == x {
								return true
							}
						}
					}
					if st.Val == d {
						return true
					}
				}
			}
		}
	}
	return false
}

// dynamic calls of steps and promises: images go in and come out consistent, by the very property checked for every such function
func (c *c01) contractCall(i ssa.CallInstruction) bool {
	cc := i.Common()
	if cc.StaticCallee() != nil {
		return false
	}
	if _, ok := cc.Value.(*ssa.Builtin); ok {
		return false
	}
	sig := cc.Signature()
	for k := 0; k < sig.Results().Len(); k++ {
		t := sig.Results().At(k).Type()
		if c.isImg(t) || strings.HasSuffix(t.String(), "ops.Promise") {
			return true
		}
		if s, ok := t.Underlying().(*types.Slice); ok && (c.isImg(s.Elem()) || strings.HasSuffix(s.Elem().String(), "ops.Promise")) {
			return true
		}
	}
	return false
}

func fresh(k AP, f *ssa.Function) bool {
	switch r := k.Root.(type) {
	case *ssa.Alloc:
		return r.Parent() == f && k.Path == ""
	case *ssa.Call:
		return r.Parent() == f
	}
	return false
}

// the k-th value returned; functions with deferred calls return through a local variable
func retVal(rt *ssa.Return, k int) ssa.Value {
	v := rt.Results[k]
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return v
	}
	a, ok := u.X.(*ssa.Alloc)
	if !ok {
		return v
	}
	var val ssa.Value
	for _, i := range rt.Block().Instrs {
		if st, ok := i.(*ssa.Store); ok && st.Addr == ssa.Value(a) {
			val = st.Val
		}
	}
	if val != nil {
		return val
	}
	return v
}

func mayFail(rt *ssa.Return) (fails bool) {
	// definitely returns a non-nil error: last result is an error built by a call or MakeInterface, not a constant nil / phi / loaded value
	if len(rt.Results) == 0 {
		return false
	}
	last := retVal(rt, len(rt.Results)-1)
	if last.Type().String() != "error" {
		return false
	}
	return definitelyErr(last, rt.Block(), 0)
}

// v is certainly a non-nil error in block b
func definitelyErr(v ssa.Value, b *ssa.BasicBlock, d int) bool {
	if d > 5 {
		return false
	}
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return true
	case *ssa.Call:
		switch calleeName(&x.Call) {
		case "fmt.Errorf", "errors.New":
			return true
		}
	case *ssa.Phi:
		for _, y := range x.Edges {
			if !definitelyErr(y, b, d+1) {
				return nonNilHere(v, b)
			}
		}
		return len(x.Edges) > 0
	}
	return nonNilHere(v, b)
}

// is b dominated by the true branch of a test v != nil?
func nonNilHere(v ssa.Value, b *ssa.BasicBlock) bool {
	for _, u := range condUses(v) {
		for _, iff := range u.ifs {
			blk := iff.Block()
			k := 0
			if u.op == token.EQL {
				k = 1
			}
			s := blk.Succs[k]
			if len(s.Preds) == 1 && s.Dominates(b) {
				return true
			}
		}
	}
	return false
}

type nilTest struct {
	op  token.Token
	ifs []*ssa.If
}

func condUses(v ssa.Value) []nilTest {
	var res []nilTest
	if v.Referrers() == nil {
		return nil
	}
	for _, r := range *v.Referrers() {
		bo, ok := r.(*ssa.BinOp)
		if !ok || bo.Op != token.EQL && bo.Op != token.NEQ {
			continue
		}
		o := bo.Y
		if o == v {
			o = bo.X
		}
		cst, ok := o.(*ssa.Const)
		if !ok || cst.Value != nil {
			continue
		}
		t := nilTest{op: bo.Op}
		for _, rr := range *bo.Referrers() {
			if iff, ok := rr.(*ssa.If); ok {
				t.ifs = append(t.ifs, iff)
			}
		}
		res = append(res, t)
	}
	return res
}

// ---- dataflow of one function for one uniform entry state

type c01flow map[AP]stateSet

func (c *c01) analyse(f *ssa.Function, entry int) (exit c01flow, viol map[AP]string, ret map[int]stateSet) {
	exit, viol, ret = c01flow{}, map[AP]string{}, map[int]stateSet{}
	for _, asg := range assignments(f) {
		e, v, r := c.analyse1(f, entry, asg)
		for k, x := range e {
			exit[k] |= x
		}
		for k, x := range v {
			if _, ok := viol[k]; !ok {
				viol[k] = x
			}
		}
		for k, x := range r {
			ret[k] |= x
		}
	}
	return
}

func (c *c01) analyse1(f *ssa.Function, entry int, asg assignment) (exit c01flow, viol map[AP]string, ret map[int]stateSet) {
	in := make([]c01flow, len(f.Blocks))
	exit, viol, ret = c01flow{}, map[AP]string{}, map[int]stateSet{}
	get := func(fl c01flow, k AP) stateSet {
		if s, ok := fl[k]; ok {
			return s
		}
		if al, ok := k.Root.(*ssa.Alloc); ok && al.Parent() == f && k.Path == "" {
			return 1 << sN
		}
		if cl, ok := k.Root.(*ssa.Call); ok && cl.Parent() == f {
			if len(c.w.targets(cl)) > 0 && !c.contractCall(cl) {
				return 0 // not reached yet
			}
			// result of a call not summarised: contract says consistent
			return 1<<0 | 1<<sC
		}
		return 1 << uint(entry)
	}
	step := func(fl c01flow, i ssa.Instruction, rec bool) {
		if al, ok := i.(*ssa.Alloc); ok && types.Identical(al.Type().Underlying().(*types.Pointer).Elem(), c.img) {
			fl[AP{al, ""}] = 1 << sN
			return
		}
		if call, ok := i.(ssa.CallInstruction); ok {
			ts := c.w.targets(call)
			if c.contractCall(call) {
				for _, a := range call.Common().Args {
					if !c.isImg(a.Type()) {
						continue
					}
					for _, k := range c.e.resolve(a) {
						st := get(fl, k)
						if rec && anyState(st, func(s int) bool { return s&(sD|sB|sW) != 0 }) {
							if _, ok := viol[k]; !ok {
								viol[k] = c.w.ipos(i) + "@an image is handed to the next step although its statistics do not describe its current pixels"
							}
						}
						fl[k] = 1<<0 | 1<<sC
					}
				}
				if cl, ok := i.(*ssa.Call); ok {
					for _, k := range c.e.resolve(cl) {
						if k.Root == ssa.Value(cl) {
							fl[k] = 1<<0 | 1<<sC
						}
					}
				}
				return
			}
			// image level summaries, joined over targets
			keys := map[AP]bool{}
			type app struct {
				k   AP
				tab [nS]stateSet
				vi  [nS]string
			}
			per := map[*ssa.Function][]app{}
			inDefer := false
			if _, ok := i.(*ssa.Defer); ok {
				inDefer = true
			}
			for _, t := range ts {
				if c.class[t] != nil || inDefer {
					continue
				}
				s := c.sum[t]
				if s == nil {
					continue
				}
				for k, tab := range s.exit {
					for _, kk := range c.e.substitute(k, t, call, -1) {
						kk := c.strip(kk)
						per[t] = append(per[t], app{kk, tab, s.viol[k]})
						keys[kk] = true
					}
				}
			}
			for k := range keys {
				old := get(fl, k)
				var res stateSet
				for _, t := range ts {
					hit := false
					for _, a := range per[t] {
						if a.k != k {
							continue
						}
						hit = true
						for s := 0; s < nS; s++ {
							if old&(1<<uint(s)) != 0 {
								res |= a.tab[s]
								if a.vi[s] != "" && rec && s&(sD|sB|sW) != 0 {
									if _, ok := viol[k]; !ok {
										viol[k] = fmt.Sprintf("%s@%s", c.w.ipos(i), "in call of "+fname(t)+": "+cut(a.vi[s]))
									}
								}
							}
						}
					}
					if !hit {
						res |= old
					}
				}
				if len(ts) == 0 {
					res = old
				}
				fl[k] = res
			}
			// fresh images returned
			if cl, ok := i.(*ssa.Call); ok {
				for _, t := range ts {
					s := c.sum[t]
					if s == nil {
						continue
					}
					for idx, st := range s.ret {
						k := AP{cl, fmt.Sprintf("#%d", idx)}
						fl[k] = st
					}
				}
			}
		}
		for _, ke := range c.events(f, i) {
			old := get(fl, ke.key)
			if rec {
				for s := 0; s < nS; s++ {
					if old&(1<<uint(s)) != 0 {
						if m := ke.ev.wrong(s); m != "" {
							if _, ok := viol[ke.key]; !ok {
								viol[ke.key] = c.w.ipos(i) + "@" + m
							}
						}
					}
				}
			}
			fl[ke.key] = mapSet(old, ke.ev.apply)
		}
	}
	in[0] = c01flow{}
	work := []*ssa.BasicBlock{f.Blocks[0]}
	inW := map[*ssa.BasicBlock]bool{f.Blocks[0]: true}
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		inW[b] = false
		fl := c01flow{}
		for k, v := range in[b.Index] {
			fl[k] = v
		}
		for _, i := range b.Instrs {
			step(fl, i, false)
		}
		for si, s := range b.Succs {
			if asg.infeasible(b, si) {
				continue
			}
			ch := false
			if in[s.Index] == nil {
				in[s.Index] = c01flow{}
				for k, v := range fl {
					in[s.Index][k] = v
				}
				ch = true
			} else {
				t := in[s.Index]
				for k, v := range fl {
					o, ok := t[k]
					if !ok {
						o = get(t, k)
					}
					if n := o | v; !ok || n != o {
						t[k] = n
						ch = true
					}
				}
				for k, o := range t {
					if _, ok := fl[k]; !ok {
						if n := o | get(fl, k); n != o {
							t[k] = n
							ch = true
						}
					}
				}
			}
			if ch && !inW[s] {
				inW[s] = true
				work = append(work, s)
			}
		}
	}
	for _, b := range f.Blocks {
		if in[b.Index] == nil {
			continue
		}
		fl := c01flow{}
		for k, v := range in[b.Index] {
			fl[k] = v
		}
		for _, i := range b.Instrs {
			if rt, ok := i.(*ssa.Return); ok && !mayFail(rt) {
				for k, v := range fl {
					exit[k] |= v
				}
				// keys not mentioned on this path keep the entry state
				for k := range exit {
					if _, ok := fl[k]; !ok {
						exit[k] |= get(fl, k)
					}
				}
				for idx, x := range rt.Results {
					if !c.isImg(x.Type()) {
						continue
					}
					if n := len(rt.Results); rt.Results[n-1].Type().String() != "error" && c.report {
						continue // helper without an error result: its callers are judged by what they hand on
					}
					for _, k := range c.e.resolve(x) {
						if fresh(k, f) {
							ret[idx] |= get(fl, k)
						}
						if c.report && (entry == 0 || entry == sC) {
							st := get(fl, k)
							if anyState(st, func(s int) bool { return s&(sD|sB|sW) != 0 }) {
								what := "pixels were modified after its statistics were last computed"
								if anyState(st, func(s int) bool { return s&sB != 0 }) {
									what = "its statistics object describes another pixel buffer"
								} else if !anyState(st, func(s int) bool { return s&sD != 0 }) {
									what = "its width changed after its statistics object was created"
								}
								c.r.bad("return-fresh", fname(f), c.w.ipos(rt), "%s hands on an image (%s) although %s", fname(f), k, what)
							}
						}
					}
				}
			}
			step(fl, i, true)
		}
	}
	return exit, viol, ret
}

func cut(s string) string {
	if i := strings.Index(s, "@"); i >= 0 {
		return s[i+1:] + " at " + s[:i]
	}
	return s
}

// a key that denotes the Stats field of an image is the image
func (c *c01) strip(k AP) AP {
	if kk, ok := hasSuffixKey(k, ".Stats"); ok {
		return kk
	}
	return k
}

func (c *c01) paramRooted(k AP, f *ssa.Function) bool {
	if k.Root == nil {
		return false
	}
	return !fresh(k, f)
}

func runC01(w *World, r *Report) {
	c := &c01{w: w, e: w.effects(), r: r, sum: map[*ssa.Function]*c01sum{}}
	c.img, c.stats = w.typ("internal/fits", "Image"), w.typ("internal/stats", "Stats")
	if c.img == nil || c.stats == nil {
		r.bad("model", "types", "-", "fits.Image or stats.Stats not found")
		return
	}
	r.rule("read-fresh", "statistics are never read between a modification of the pixels and a refresh", 45)
	r.rule("return-fresh", "every image handed on by a function returning images has statistics that describe its pixels", 40)
	r.rule("modify", "functions that modify pixels, pixel buffers or statistics (analysed for staleness)", 40)
	c.classify()
	sp := w.pkg("internal/stats")
	var funcs []*ssa.Function
	for _, f := range w.Funcs {
		if f.Pkg != sp {
			funcs = append(funcs, f)
		}
	}
	for n := 0; n < 12; n++ {
		changed := false
		for _, f := range funcs {
			s := c.sum[f]
			if s == nil {
				s = &c01sum{exit: keyTab{}, viol: map[AP][nS]string{}, ret: map[int]stateSet{}}
				c.sum[f] = s
			}
			for entry := 0; entry < nS; entry++ {
				ex, vi, ret := c.analyse(f, entry)
				for k, v := range ex {
					if !c.paramRooted(k, f) {
						continue
					}
					t, ok := s.exit[k]
					if !ok || t[entry]|v != t[entry] {
						t[entry] |= v
						s.exit[k] = t
						changed = true
					}
				}
				for k, m := range vi {
					if !c.paramRooted(k, f) {
						continue
					}
					t := s.viol[k]
					if t[entry] == "" {
						t[entry] = m
						s.viol[k] = t
						changed = true
					}
				}
				for idx, v := range ret {
					if s.ret[idx]|v != s.ret[idx] {
						s.ret[idx] |= v
						changed = true
					}
				}
				if len(ex) == 0 && len(vi) == 0 {
					break // no image handled here
				}
			}
		}
		if !changed {
			break
		}
	}
	c.report = true
	for _, f := range funcs {
		hasImg, writes := false, false
		for k := 0; k < f.Signature.Results().Len(); k++ {
			if c.isImg(f.Signature.Results().At(k).Type()) {
				hasImg = true
			}
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				for _, ke := range c.events(f, i) {
					switch ke.ev {
					case evGet, evGetNoise:
						r.ob("read-fresh", "%s reads statistics at %s", fname(f), w.ipos(i))
					default:
						writes = true
					}
				}
			}
		}
		if writes {
			r.ob("modify", "%s", fname(f))
		}
		if hasImg && f.Signature.Results().At(f.Signature.Results().Len()-1).Type().String() == "error" {
			r.ob("return-fresh", "%s", fname(f))
		}
		for _, entry := range []int{0, sC} {
			_, vi, _ := c.analyse(f, entry)
			for k, m := range vi {
				p := "-"
				msg := m
				if i := strings.Index(m, "@"); i >= 0 {
					p, msg = m[:i], m[i+1:]
				}
				r.bad("read-fresh", fname(f), p, "%s: %s (image %s)", fname(f), msg, k)
			}
		}
	}
	r.assume("distinct access paths denote distinct images; elements of one slice of images are treated uniformly")
	r.assume("assembly kernels write only their first slice argument")
	c.linearUpdates(funcs)
	c.statKinds()
	c.mmm()
}

// values given to a statistics constructor as minimum, maximum and mean must be accumulated from the values stored into the buffer
func (c *c01) mmm() {
	w, r := c.w, c.r
	r.rule("supplied-mmm", "minimum, maximum and mean supplied when creating statistics are accumulated from exactly the values stored as pixels", 6)
	for _, f := range w.Funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				call, ok := i.(*ssa.Call)
				if !ok {
					continue
				}
				t := call.Call.StaticCallee()
				if t == nil || !c.ctorMMM[t] {
					continue
				}
				di := c.ctor[t]
				data := c.e.resolve(call.Call.Args[di])
				stored := map[ssa.Value]bool{}
				for _, bb := range f.Blocks {
					for _, j := range bb.Instrs {
						st, ok := j.(*ssa.Store)
						if !ok {
							continue
						}
						for _, a := range c.e.resolve(st.Addr) {
							for _, d := range data {
								if a.Root == d.Root && a.Path == d.Path+"[]" {
									stored[st.Val] = true
								}
							}
						}
					}
				}
				r.ob("supplied-mmm", "%s", fname(f))
				if len(stored) == 0 {
					r.undecided("%s: pixels described by the supplied statistics are written elsewhere", fname(f))
					continue
				}
				// the accumulators: phis/values reachable from the arguments; collect compared values
				for k, a := range call.Call.Args {
					if k == di {
						continue
					}
					bt, ok := a.Type().Underlying().(*types.Basic)
					if !ok || bt.Info()&types.IsFloat == 0 {
						continue
					}
					leaves := map[ssa.Value]bool{}
					c.accLeaves(a, leaves, map[ssa.Value]bool{}, 0)
					good := map[ssa.Value]bool{}
					other := ""
					for l := range leaves {
						if stored[l] {
							good[l] = true
						} else if u, ok := l.(*ssa.UnOp); ok && u.Op == token.MUL && c.isElem(u.X, data) {
							for v := range stored {
								good[v] = true
							}
						} else if unknownLeaf(l) {
							r.undecided("%s: accumulation through %s", fname(f), l.Name())
							for v := range stored {
								good[v] = true
							}
						} else {
							other = l.String()
						}
					}
					pname := fmt.Sprint(k)
					if k < len(t.Params) {
						pname = t.Params[k].Name()
					}
					if len(leaves) == 0 {
						continue
					}
					if other != "" {
						r.bad("supplied-mmm", fname(f)+"|"+pname, w.ipos(call), "%s supplies %s accumulated from a value (%s) that is not the value stored as pixel", fname(f), pname, other)
					} else if len(good) < len(stored) {
						r.bad("supplied-mmm", fname(f)+"|"+pname, w.ipos(call), "%s supplies %s accumulated from only some of the values stored as pixels", fname(f), pname)
					}
				}
			}
		}
	}
}

func (c *c01) isElem(addr ssa.Value, data []AP) bool {
	for _, a := range c.e.resolve(addr) {
		for _, d := range data {
			if a.Root == d.Root && a.Path == d.Path+"[]" {
				return true
			}
		}
	}
	return false
}

func unknownLeaf(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Extract, *ssa.Call, *ssa.Parameter, *ssa.FreeVar, *ssa.Lookup:
		return true
	}
	return false
}

// leaves of an accumulation: values that flow through phis, sums, conversions and divisions by counts
func (c *c01) accLeaves(v ssa.Value, out, seen map[ssa.Value]bool, d int) {
	if seen[v] || d > 40 {
		return
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Phi:
		for _, e := range x.Edges {
			c.accLeaves(e, out, seen, d+1)
		}
		return
	case *ssa.Const:
		return
	case *ssa.UnOp:
		// element of a local array or slice literal
		if ia, ok := x.X.(*ssa.IndexAddr); ok && x.Op == token.MUL {
			for _, a := range c.e.resolve(ia.X) {
				if al, ok := a.Root.(*ssa.Alloc); ok {
					if _, ok := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array); ok && a.Path == "" {
						for _, st := range c.e.stores[al] {
							c.accLeaves(st.Val, out, seen, d+1)
						}
						return
					}
				}
			}
		}
	case *ssa.Convert:
		if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			c.accLeaves(x.X, out, seen, d+1)
		}
		return
	case *ssa.BinOp:
		if x.Op == token.QUO {
			c.accLeaves(x.X, out, seen, d+1)
			return
		}
		if x.Op == token.ADD {
			// accumulator + element: only if one side is the running phi
			if reaches(x.X, x, map[ssa.Value]bool{}) || reaches(x.Y, x, map[ssa.Value]bool{}) {
				c.accLeaves(x.X, out, seen, d+1)
				c.accLeaves(x.Y, out, seen, d+1)
				return
			}
		}
	case *ssa.Call:
		switch calleeName(&x.Call) {
		case "math.Min", "math.Max", "builtin.min", "builtin.max":
			for _, a := range x.Call.Args {
				c.accLeaves(a, out, seen, d+1)
			}
			return
		}
	}
	out[v] = true
}

func reaches(from, to ssa.Value, seen map[ssa.Value]bool) bool {
	if from == to {
		return true
	}
	if seen[from] {
		return false
	}
	seen[from] = true
	switch x := from.(type) {
	case *ssa.Phi:
		for _, e := range x.Edges {
			if reaches(e, to, seen) {
				return true
			}
		}
	case *ssa.Convert:
		return reaches(x.X, to, seen)
	}
	return false
}

func init() {
	register("C01", "typestate dataflow: for every function and every image it touches, pixel writes (through aliases, slices, goroutines, pixel functions and callees), buffer replacement, statistics creation, invalidation and reads are propagated over all paths with function summaries; a statistics read or a hand-on of an image in a stale state is a violation", runC01)
}
