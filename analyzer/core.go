// Static verification of nightlight: shared infrastructure.
//
// Loads and type-checks every package of the repository (nothing is executed),
// builds SSA, and provides reporting, known findings and evidence output.
package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const Mod = "github.com/mlnoga/nightlight"

type World struct {
	Repo   string
	Pkgs   []*packages.Package
	ByPath map[string]*packages.Package
	Prog   *ssa.Program
	SSA    map[string]*ssa.Package
	Fset   *token.FileSet
	Funcs  []*ssa.Function // all source functions of the module, incl. methods and closures, deterministic order
	inMod  map[*ssa.Function]bool
	anonIn map[*ssa.Function]*ssa.MakeClosure
	cg     *callInfo
	eff    *effects
	ops    []*opType

	Overlay map[string][]byte // files in which helper functions were expanded
	Notes   []string
}

const loadMode = packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
	packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule

func loadWorld(repo string) (*World, error) {
	ps, over, notes, err := normalise(repo)
	if err != nil {
		return nil, err
	}
	w := &World{Repo: repo, ByPath: map[string]*packages.Package{}, SSA: map[string]*ssa.Package{}, inMod: map[*ssa.Function]bool{}, Overlay: over, Notes: notes}
	for _, p := range ps {
		w.Pkgs = append(w.Pkgs, p)
		w.ByPath[p.PkgPath] = p
		w.Fset = p.Fset
	}
	if len(w.Pkgs) == 0 {
		return nil, fmt.Errorf("no packages found in %s", repo)
	}
	sort.Slice(w.Pkgs, func(i, j int) bool { return w.Pkgs[i].PkgPath < w.Pkgs[j].PkgPath })
	prog, spkgs := ssautil.Packages(w.Pkgs, ssa.InstantiateGenerics)
	prog.Build()
	w.Prog = prog
	for i, sp := range spkgs {
		if sp == nil {
			return nil, fmt.Errorf("%s: no SSA", w.Pkgs[i].PkgPath)
		}
		w.SSA[w.Pkgs[i].PkgPath] = sp
	}
	all := ssautil.AllFunctions(prog)
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || w.inMod[f] || len(f.Blocks) == 0 {
			return
		}
		w.inMod[f] = true
		w.Funcs = append(w.Funcs, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for f := range all {
		if f.Pkg == nil || w.SSA[f.Pkg.Pkg.Path()] != f.Pkg {
			continue
		}
		if f.Synthetic != "" && f.Name() != "init" {
			continue
		}
		add(f)
	}
	// AllFunctions only includes reachable-ish functions; make sure every declared one is there
	for _, sp := range w.SSA {
		for _, m := range sp.Members {
			switch m := m.(type) {
			case *ssa.Function:
				if m.Synthetic == "" || m.Name() == "init" {
					add(m)
				}
			case *ssa.Type:
				for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					ms := prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						f := prog.MethodValue(ms.At(i))
						if f != nil && f.Synthetic == "" && f.Pkg == sp {
							add(f)
						}
					}
				}
			}
		}
	}
	sort.Slice(w.Funcs, func(i, j int) bool {
		a, b := w.Funcs[i], w.Funcs[j]
		if a.String() != b.String() {
			return a.String() < b.String()
		}
		return a.Pos() < b.Pos()
	})
	for _, f := range w.Funcs {
		canonical(f)
	}
	return w, nil
}

// comparisons have constants on the right, and are otherwise of the less-than kind
func canonical(f *ssa.Function) {
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			bo, ok := i.(*ssa.BinOp)
			if !ok {
				continue
			}
			_, cx := bo.X.(*ssa.Const)
			_, cy := bo.Y.(*ssa.Const)
			switch bo.Op {
			case token.GTR, token.GEQ:
				if cy {
					continue
				}
			case token.LSS, token.LEQ, token.EQL, token.NEQ:
				if !cx || cy {
					continue
				}
			default:
				continue
			}
			bo.X, bo.Y, bo.Op = bo.Y, bo.X, flipOp(bo.Op)
		}
	}
}

// short name of a function for reports and finding keys
func fname(f *ssa.Function) string {
	return strings.NewReplacer(Mod+"/internal/", "", Mod+"/", "").Replace(f.String())
}

func (w *World) pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	ps := w.Fset.Position(p)
	rel, err := filepath.Rel(w.Repo, ps.Filename)
	if err != nil {
		rel = ps.Filename
	}
	return fmt.Sprintf("%s:%d", rel, ps.Line)
}

// position of an instruction, falling back to neighbours
func (w *World) ipos(i ssa.Instruction) string {
	if i == nil {
		return "?"
	}
	if i.Pos().IsValid() {
		return w.pos(i.Pos())
	}
	if b := i.Block(); b != nil {
		for _, o := range b.Instrs {
			if o.Pos().IsValid() {
				return w.pos(o.Pos())
			}
		}
	}
	if f := i.Parent(); f != nil {
		return w.pos(f.Pos())
	}
	return "?"
}

func (w *World) pkg(rel string) *ssa.Package { return w.SSA[Mod+"/"+rel] }

// named type in package, e.g. ("internal/fits","Image")
func (w *World) typ(rel, name string) types.Type {
	p := w.SSA[Mod+"/"+rel]
	if p == nil {
		return nil
	}
	o := p.Pkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	return o.Type()
}

// ---------------------------------------------------------------- reporting

type Violation struct {
	Rule string `json:"rule"`
	Key  string `json:"key"` // stable identity: rule + construct, no line numbers
	Pos  string `json:"pos"` // file:line
	Msg  string `json:"msg"`
}

type Report struct {
	Prop   string
	W      *World
	Viol   []Violation
	Count  map[string]int      // obligations checked per rule
	Sample map[string][]string // a few written out obligations per rule
	Notes  []string
	Undec  []string // undecided obligations (not claimed)
	Rules  map[string]string
	Assume []string
	nMin   map[string]int
}

func newReport(prop string, w *World) *Report {
	return &Report{Prop: prop, W: w, Count: map[string]int{}, Sample: map[string][]string{}, Rules: map[string]string{}, nMin: map[string]int{}}
}

// declare a rule with its meaning and the minimum number of instances expected
func (r *Report) rule(id, text string, min int) {
	r.Rules[id] = text
	r.nMin[id] = min
	r.Count[id] += 0
}

func (r *Report) ob(rule, format string, a ...interface{}) {
	r.Count[rule]++
	if len(r.Sample[rule]) < 6 {
		r.Sample[rule] = append(r.Sample[rule], fmt.Sprintf(format, a...))
	}
}

func (r *Report) bad(rule, key, pos, format string, a ...interface{}) {
	v := Violation{Rule: rule, Key: rule + "|" + key, Pos: pos, Msg: fmt.Sprintf(format, a...)}
	for _, o := range r.Viol {
		if o.Key == v.Key && o.Pos == v.Pos {
			return
		}
	}
	r.Viol = append(r.Viol, v)
}

func (r *Report) undecided(format string, a ...interface{}) {
	r.Undec = append(r.Undec, fmt.Sprintf(format, a...))
}
func (r *Report) note(format string, a ...interface{}) {
	r.Notes = append(r.Notes, fmt.Sprintf(format, a...))
}
func (r *Report) assume(format string, a ...interface{}) {
	r.Assume = append(r.Assume, fmt.Sprintf(format, a...))
}

type known struct{ prop, key, text string }

// known findings: lines "finding: property=C02 key=<key> :: <text>" ; "fixed:" lines suppress nothing
func loadKnown(path string) ([]known, error) {
	b, err := os.ReadFile(path)
	if os.IsNotExist(err) {
		return nil, nil
	}
	if err != nil {
		return nil, err
	}
	var res []known
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "finding:") {
			continue
		}
		rest := strings.TrimSpace(strings.TrimPrefix(l, "finding:"))
		parts := strings.SplitN(rest, " :: ", 2)
		if len(parts) != 2 {
			return nil, fmt.Errorf("bad known finding line: %s", l)
		}
		k := known{text: parts[1]}
		i := strings.Index(parts[0], " key=")
		if !strings.HasPrefix(parts[0], "property=") || i < 0 {
			return nil, fmt.Errorf("bad known finding line: %s", l)
		}
		k.prop = parts[0][len("property="):i]
		k.key = parts[0][i+len(" key="):]
		res = append(res, k)
	}
	return res, nil
}

type Evidence struct {
	Property    string                 `json:"property"`
	Tier        string                 `json:"tier"`
	Seed        int                    `json:"seed"`
	Level       string                 `json:"level"`
	Coverage    map[string]interface{} `json:"coverage"`
	WallS       float64                `json:"wall_s"`
	Violations  []Violation            `json:"violations,omitempty"`
	Assumptions []string               `json:"assumptions,omitempty"`
}

func (r *Report) finish(verif string, t0 time.Time, ck *Check) int {
	r.Notes = append(r.Notes, r.W.Notes...)
	for f := range r.W.Overlay {
		rel, _ := filepath.Rel(r.W.Repo, f)
		r.note("helper functions unknown to the reference list were expanded in %s", rel)
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed := 1
	fmt.Sscanf(os.Getenv("VERIF_SEED"), "%d", &seed)
	unclear := len(r.Undec) > 0 || len(r.Viol) > 0
	for id, m := range r.nMin {
		if r.Count[id] == 0 && m > 0 && unclear {
			r.undecided("rule %s matched no instance", id)
			continue
		}
		if r.Count[id] < m && r.Count[id] > 0 {
			r.undecided("rule %s matched %d instances, fewer than the %d confirmed by hand on the reference tree", id, r.Count[id], m)
		} else if r.Count[id] < m {
			r.bad("coverage", id, "-", "rule %s (%s) matched %d instances, at least %d were confirmed by hand: the analysed constructs have disappeared or are no longer recognised", id, r.Rules[id], r.Count[id], m)
		}
	}
	kn, err := loadKnown(filepath.Join(verif, "known_findings.txt"))
	if err != nil {
		fmt.Println("error:", err)
		return 2
	}
	var fresh, old []Violation
	var oldText []string
	for _, v := range r.Viol {
		hit := ""
		for _, k := range kn {
			if k.prop == r.Prop && k.key == v.Key {
				hit = k.text
			}
		}
		if hit != "" {
			old = append(old, v)
			oldText = append(oldText, hit)
		} else {
			fresh = append(fresh, v)
		}
	}
	sort.Slice(fresh, func(i, j int) bool { return fresh[i].Key+fresh[i].Pos < fresh[j].Key+fresh[j].Pos })
	nf, ni := 0, 0
	for _, f := range r.W.Funcs {
		nf++
		for _, b := range f.Blocks {
			ni += len(b.Instrs)
		}
	}
	total := 0
	for _, c := range r.Count {
		total += c
	}
	var samples []string
	for id := range r.Rules {
		for _, x := range r.Sample[id] {
			samples = append(samples, id+": "+x)
		}
	}
	sort.Strings(samples)
	cov := map[string]interface{}{
		"explanation":               ck.Explain,
		"rules":                     r.Rules,
		"obligations_by_rule":       r.Count,
		"obligations":               total,
		"samples":                   samples,
		"packages_analysed":         len(r.W.Pkgs),
		"functions_analysed":        nf,
		"ssa_instructions_analysed": ni,
		"undecided":                 r.Undec,
		"notes":                     r.Notes,
		"known_findings_present":    old,
	}
	ev := Evidence{Property: r.Prop, Tier: tier, Seed: seed, Level: "other", Coverage: cov, WallS: time.Since(t0).Seconds(), Violations: fresh, Assumptions: r.Assume}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
	if err := os.WriteFile(filepath.Join(verif, "evidence", r.Prop+".json"), b, 0644); err != nil {
		fmt.Println("error:", err)
		return 2
	}
	ids := []string{}
	for id := range r.Rules {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	fmt.Printf("%s: %d functions, %d instructions in %d packages\n", r.Prop, nf, ni, len(r.W.Pkgs))
	for _, id := range ids {
		fmt.Printf("  rule %-22s %4d instances  %s\n", id, r.Count[id], r.Rules[id])
	}
	if os.Getenv("VERIF_VERBOSE") != "" {
		for id, ss := range r.Sample {
			for _, s := range ss {
				fmt.Printf("    e.g. %s: %s\n", id, s)
			}
		}
		for _, n := range r.Notes {
			fmt.Println("  note:", n)
		}
	}
	for _, u := range r.Undec {
		fmt.Println("  undecided:", u)
	}
	seen := map[string]bool{}
	for i, v := range old {
		if !seen[v.Key] {
			fmt.Printf("KNOWN-FINDING: property=%s %s [%s] (%s)\n", r.Prop, v.Key, v.Pos, oldText[i])
			seen[v.Key] = true
		}
	}
	if len(fresh) > 0 {
		rp := filepath.Join(verif, "evidence", r.Prop+".replay.json")
		b, _ := json.MarshalIndent(fresh, "", " ")
		os.WriteFile(rp, b, 0644)
		for _, v := range fresh {
			fmt.Printf("  %s: [%s] %s\n      key: %s\n", v.Pos, v.Rule, v.Msg, v.Key)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.Prop, rp)
		return 1
	}
	fmt.Printf("%s: OK, %d obligations hold, %d known findings\n", r.Prop, total, len(seen))
	return 0
}

type Check struct {
	ID      string
	Explain string
	Run     func(w *World, r *Report)
}

var checks = map[string]*Check{}

func register(id, explain string, run func(w *World, r *Report)) {
	checks[id] = &Check{id, explain, run}
}
