package main

import (
	"fmt"
	"go/constant"
	"regexp/syntax"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Does the reader's grammar accept every record the writer can produce? Both are turned into automata, and their product is
// searched for a record accepted by the writer's automaton only.

func (c *c15) grammar() {
	r, w := c.r, c.w
	ce := newCeval(w)
	pat := ""
	var at ssa.Instruction
	for _, f := range w.Funcs {
		if f.Pkg != c.root.Pkg {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if cl, ok := i.(*ssa.Call); ok {
					switch calleeName(&cl.Call) {
					case "regexp.MustCompile", "regexp.Compile":
						if k, ok := ce.constOf(cx{cl.Call.Args[0], nil}); ok && k.Kind() == constant.String && strings.Contains(constant.StringVal(k), "END") {
							pat = constant.StringVal(k)
							at = i
						}
					}
				}
			}
		}
	}
	if pat == "" {
		r.undecided("the reader's grammar of header records")
		return
	}
	done := map[string]bool{}
	for _, e := range c.evs {
		var lang, what string
		if e.key == "END" {
			lang, what = "END {77}", "the END record"
		} else {
			vs, tail, ok := parseFormat(e.format)
			if !ok || len(vs) < 2 {
				continue
			}
			em := emission(e.call.(ssa.Instruction))
			ok = true
			for k, v := range vs {
				lang += regexpQuote(v.text)
				l := ""
				a := unbox(em.args[k])
				switch {
				case isBlanks(a):
					l = " *"
				case k == 0 && e.kx.v != nil:
					l, what = "[A-Z0-9_-]", "records"
					l = fmt.Sprintf("%s{1,%d}", l, v.width)
				case isStringT(a.Type()) && k == 1 && e.kx.v != nil && strings.HasSuffix(v.text, "'"):
					l = "[ -&(-~]*"
					what = "string records"
				case isStringT(a.Type()) && k == 1 && e.kx.v != nil:
					l, what = "[TF]", "boolean records"
				case isStringT(a.Type()):
					l = "[ -~]*"
				case isFloatT(a.Type()):
					l, what = "-?[0-9](?:\\.[0-9]+)?e[+-][0-9][0-9]+|-?[0-9]+(?:\\.[0-9]+)?", "floating point records"
				case isInt(a.Type()):
					l, what = "-?[0-9]+", "integer records"
				default:
					ok = false
				}
				switch {
				case v.width > 0 && v.left:
					lang += "(?:" + l + ") *"
				case v.width > 0:
					lang += " *(?:" + l + ")"
				default:
					lang += "(?:" + l + ")"
				}
			}
			lang += regexpQuote(tail)
			if !ok || what == "" {
				continue
			}
		}
		if done[lang] {
			continue
		}
		done[lang] = true
		wit, ok, err := included(lang, pat)
		if err != "" {
			r.undecided("grammar of %s: %s", what, err)
		} else if !ok {
			r.bad("grammar", what, w.ipos(at), "%s such as %q, which are written at %s, do not match the reader's grammar", what, wit, w.ipos(e.call.(ssa.Instruction)))
		} else {
			r.ob("grammar", "%s: %s as written at %s", w.ipos(at), what, w.ipos(e.call.(ssa.Instruction)))
		}
	}
}

func isBlanks(v ssa.Value) bool {
	cl, ok := v.(*ssa.Call)
	if !ok || calleeName(&cl.Call) != "strings.Repeat" {
		return false
	}
	k, ok := cl.Call.Args[0].(*ssa.Const)
	if !ok {
		return false
	}
	s, ok := constString(k)
	return ok && strings.Trim(s, " ") == ""
}

func regexpQuote(s string) string {
	var b strings.Builder
	for _, c := range s {
		if strings.ContainsRune(`\.+*?()|[]{}^$`, c) {
			b.WriteByte('\\')
		}
		b.WriteRune(c)
	}
	return b.String()
}

// is every printable line of language a in language b (which is anchored)? If not, an example.
func included(a, b string) (string, bool, string) {
	pa, err := syntax.Parse("^(?:"+a+")$", syntax.Perl)
	if err != nil {
		return "", false, err.Error()
	}
	pb, err := syntax.Parse(b, syntax.Perl)
	if err != nil {
		return "", false, err.Error()
	}
	ca, err := syntax.Compile(pa.Simplify())
	if err != nil {
		return "", false, err.Error()
	}
	cb, err := syntax.Compile(pb.Simplify())
	if err != nil {
		return "", false, err.Error()
	}
	closure := func(p *syntax.Prog, in []uint32, begin, end bool) (set []uint32, match bool) {
		seen := map[uint32]bool{}
		st := append([]uint32(nil), in...)
		for len(st) > 0 {
			k := st[len(st)-1]
			st = st[:len(st)-1]
			if seen[k] {
				continue
			}
			seen[k] = true
			i := p.Inst[k]
			switch i.Op {
			case syntax.InstAlt, syntax.InstAltMatch:
				st = append(st, i.Out, i.Arg)
			case syntax.InstCapture, syntax.InstNop:
				st = append(st, i.Out)
			case syntax.InstEmptyWidth:
				f := syntax.EmptyOp(i.Arg)
				ok := true
				if f&(syntax.EmptyBeginLine|syntax.EmptyBeginText) != 0 && !begin {
					ok = false
				}
				if f&(syntax.EmptyEndLine|syntax.EmptyEndText) != 0 && !end {
					ok = false
				}
				if f&(syntax.EmptyWordBoundary|syntax.EmptyNoWordBoundary) != 0 {
					ok = false
				}
				if ok {
					st = append(st, i.Out)
				}
			case syntax.InstMatch:
				match = true
			case syntax.InstRune, syntax.InstRune1, syntax.InstRuneAny, syntax.InstRuneAnyNotNL:
				set = append(set, k)
			}
		}
		sort.Slice(set, func(i, j int) bool { return set[i] < set[j] })
		return
	}
	step := func(p *syntax.Prog, set []uint32, c rune) (out []uint32) {
		for _, k := range set {
			if p.Inst[k].MatchRune(c) {
				out = append(out, p.Inst[k].Out)
			}
		}
		sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
		return
	}
	type node struct {
		a, b []uint32
		from int
		c    rune
		beg  bool
	}
	q := []node{{[]uint32{uint32(ca.Start)}, []uint32{uint32(cb.Start)}, -1, 0, true}}
	seen := map[string]bool{}
	for n := 0; n < len(q); n++ {
		if n > 200000 {
			return "", false, "too many states"
		}
		x := q[n]
		_, ma := closure(ca, x.a, x.beg, true)
		_, mb := closure(cb, x.b, x.beg, true)
		if ma && !mb {
			var s []rune
			for k := n; q[k].from >= 0; k = q[k].from {
				s = append([]rune{q[k].c}, s...)
			}
			return string(s), false, ""
		}
		sa, _ := closure(ca, x.a, x.beg, false)
		sb, _ := closure(cb, x.b, x.beg, false)
		for c := rune(32); c < 127; c++ {
			na := step(ca, sa, c)
			if len(na) == 0 {
				continue
			}
			nb := step(cb, sb, c)
			k := fmt.Sprint(na, nb)
			if !seen[k] {
				seen[k] = true
				q = append(q, node{na, nb, n, c, false})
			}
		}
	}
	return "", true, ""
}
