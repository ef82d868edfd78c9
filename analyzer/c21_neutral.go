package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C21: neutral settings leave the pixels untouched.
//
// For every operator with a setting that is documented to switch it off, the value-set analysis decides which code the
// operator can still reach with that setting: nothing that writes the pixels of the image, no failure, and only the image
// itself as the result.

func init() {
	register("C21", "value-set analysis of every operator's processing for its documented neutral settings: no write to the pixels, the dimensions or the sample format is reachable, no error is returned, and the result is the image itself", runC21)
}

type neutral struct {
	op     string            // package and type
	set    map[string]string // JSON name -> constant
	ident  bool              // the pixel computation is itself the identity for this setting
	noFail bool
}

var neutrals = []neutral{
	{op: "ops.OpSave", set: map[string]string{"filePattern": `""`}},
	{op: "ops/pre.OpCalibrate", set: map[string]string{"dark": `""`, "flat": `""`}},
	{op: "ops/pre.OpBadPixel", set: map[string]string{"sigmaLow": "0"}},
	{op: "ops/pre.OpBadPixel", set: map[string]string{"sigmaHigh": "0"}},
	{op: "ops/pre.OpDebayer", set: map[string]string{"channel": `""`}},
	{op: "ops/pre.OpScaleOffset", set: map[string]string{"scale": "1", "offset": "0"}, ident: true},
	{op: "ops/pre.OpBin", set: map[string]string{"binSize": "0"}},
	{op: "ops/pre.OpBin", set: map[string]string{"binSize": "1"}},
	{op: "ops/pre.OpBackExtract", set: map[string]string{"gridSize": "0"}},
	{op: "ops/pre.OpStarDetect", set: map[string]string{"radius": "0"}},
	{op: "ops/pre.OpStarDetect", set: map[string]string{"sigma": "0"}},
	{op: "ops/pre.OpDebandHoriz", set: map[string]string{"percentile": "0"}},
	{op: "ops/pre.OpDebandHoriz", set: map[string]string{"window": "0"}},
	{op: "ops/pre.OpDebandVert", set: map[string]string{"percentile": "0"}},
	{op: "ops/pre.OpDebandVert", set: map[string]string{"window": "0"}},
	{op: "ops/ref.OpExportStats", set: map[string]string{"fileName": `""`}},
	{op: "ops/ref.OpFilter", set: map[string]string{"minStars": "0"}},
	{op: "ops/post.OpMatchHistogram", set: map[string]string{"mode": "0"}},
	{op: "ops/post.OpAlign", set: map[string]string{"k": "0"}},
	{op: "ops/stretch.OpStretchIterative", set: map[string]string{"location": "0", "scale": "0"}},
	{op: "ops/stretch.OpMidtones", set: map[string]string{"mid": "0"}},
	{op: "ops/stretch.OpGamma", set: map[string]string{"gamma": "1"}, ident: true},
	{op: "ops/stretch.OpGammaPP", set: map[string]string{"gamma": "1"}},
	{op: "ops/stretch.OpScaleBlack", set: map[string]string{"location": "0"}},
	{op: "ops/stretch.OpGaussianBlur", set: map[string]string{"sigma": "0"}},
	{op: "ops/stretch.OpUnsharpMask", set: map[string]string{"sigma": "0"}},
	{op: "ops/stretch.OpUnsharpMask", set: map[string]string{"gain": "0"}},
	{op: "ops/hsl.OpHSLScaleOffsetChannel", set: map[string]string{"scale": "1", "offset": "0"}, ident: true},
	{op: "ops/hsl.OpHSLNeutralizeBackground", set: map[string]string{"sigmaLow": "-1", "sigmaHigh": "-1"}},
	{op: "ops/hsl.OpHSLSaturationGamma", set: map[string]string{"gamma": "1"}},
	{op: "ops/hsl.OpHSLSelectiveSaturation", set: map[string]string{"factor": "1"}, ident: true},
	{op: "ops/hsl.OpHSLRotateHue", set: map[string]string{"offset": "0"}},
	{op: "ops/hsl.OpHSLSCNR", set: map[string]string{"factor": "0"}},
	{op: "ops/hsl.OpHSLMidtones", set: map[string]string{"mid": "0"}},
	{op: "ops/hsl.OpHSLGamma", set: map[string]string{"gamma": "1"}, ident: true},
	{op: "ops/hsl.OpHSLGammaPP", set: map[string]string{"gamma": "1"}},
	{op: "ops/hsl.OpHSLUnsharpMask", set: map[string]string{"sigma": "0"}},
	{op: "ops/hsl.OpHSLUnsharpMask", set: map[string]string{"gain": "0"}},
	{op: "ops/hsl.OpHSLScaleBlack", set: map[string]string{"location": "0"}},
	{op: "ops/hsl.OpHSLStretchIterative", set: map[string]string{"location": "0", "scale": "0"}},
}

// settings that must take effect: with them, the processing is reachable
var active = []neutral{
	{op: "ops/pre.OpScaleOffset", set: map[string]string{"scale": "1", "offset": "0.5"}},
	{op: "ops/pre.OpScaleOffset", set: map[string]string{"scale": "2", "offset": "0"}},
	{op: "ops/pre.OpBadPixel", set: map[string]string{"sigmaLow": "3", "sigmaHigh": "5"}},
	{op: "ops/pre.OpDebayer", set: map[string]string{"channel": `"R"`, "colorFilterArray": `"RGGB"`}},
	{op: "ops/pre.OpBin", set: map[string]string{"binSize": "2"}},
	{op: "ops/pre.OpBackExtract", set: map[string]string{"gridSize": "256"}},
	{op: "ops/pre.OpDebandHoriz", set: map[string]string{"percentile": "50", "window": "128"}},
	{op: "ops/pre.OpDebandVert", set: map[string]string{"percentile": "50", "window": "128"}},
	{op: "ops/post.OpMatchHistogram", set: map[string]string{"mode": "1"}},
	{op: "ops/post.OpMatchHistogram", set: map[string]string{"mode": "2"}},
	{op: "ops/post.OpMatchHistogram", set: map[string]string{"mode": "3"}},
	{op: "ops/post.OpAlign", set: map[string]string{"k": "20"}},
	{op: "ops/stretch.OpStretchIterative", set: map[string]string{"location": "0.1", "scale": "0.4"}},
	{op: "ops/stretch.OpMidtones", set: map[string]string{"mid": "0.5"}},
	{op: "ops/stretch.OpGamma", set: map[string]string{"gamma": "2"}},
	{op: "ops/stretch.OpGammaPP", set: map[string]string{"gamma": "2"}},
	{op: "ops/stretch.OpScaleBlack", set: map[string]string{"location": "0.1"}},
	{op: "ops/stretch.OpGaussianBlur", set: map[string]string{"sigma": "1.5"}},
	{op: "ops/stretch.OpUnsharpMask", set: map[string]string{"sigma": "1.5", "gain": "1"}},
	{op: "ops/hsl.OpHSLScaleOffsetChannel", set: map[string]string{"scale": "1", "offset": "0.5"}},
	{op: "ops/hsl.OpHSLScaleOffsetChannel", set: map[string]string{"scale": "2", "offset": "0"}},
	{op: "ops/hsl.OpHSLNeutralizeBackground", set: map[string]string{"sigmaLow": "1", "sigmaHigh": "2"}},
	{op: "ops/hsl.OpHSLSaturationGamma", set: map[string]string{"gamma": "2"}},
	{op: "ops/hsl.OpHSLSelectiveSaturation", set: map[string]string{"factor": "0.5"}},
	{op: "ops/hsl.OpHSLSelectiveSaturation", set: map[string]string{"factor": "-1"}},
	{op: "ops/hsl.OpHSLRotateHue", set: map[string]string{"offset": "-30"}},
	{op: "ops/hsl.OpHSLSCNR", set: map[string]string{"factor": "1"}},
	{op: "ops/hsl.OpHSLMidtones", set: map[string]string{"mid": "0.5"}},
	{op: "ops/hsl.OpHSLGamma", set: map[string]string{"gamma": "2"}},
	{op: "ops/hsl.OpHSLGammaPP", set: map[string]string{"gamma": "2"}},
	{op: "ops/hsl.OpHSLUnsharpMask", set: map[string]string{"sigma": "1.5", "gain": "1"}},
	{op: "ops/hsl.OpHSLScaleBlack", set: map[string]string{"location": "0.1"}},
	{op: "ops/hsl.OpHSLStretchIterative", set: map[string]string{"location": "0.1", "scale": "0.4"}},
}

func (n neutral) String() string {
	var ks []string
	for k := range n.set {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var s []string
	for _, k := range ks {
		s = append(s, k+"="+n.set[k])
	}
	return strings.Join(s, ", ")
}

func parseConst(s string) constant.Value {
	if s[0] == '"' {
		return constant.MakeString(s[1 : len(s)-1])
	}
	neg := false
	if s[0] == '-' {
		neg = true
		s = s[1:]
	}
	k := token.INT
	if strings.Contains(s, ".") {
		k = token.FLOAT
	}
	v := constant.MakeFromLiteral(s, k, 0)
	if neg {
		v = constant.UnaryOp(token.SUB, v, 0)
	}
	return v
}

// what an operator can do with the image it is given, for a setting
type reachResult struct {
	writes  map[string]ssa.Instruction // path of the image written -> where
	fails   []*ssa.Return
	drops   []*ssa.Return
	other   []*ssa.Return // returns something else
	perhaps []*ssa.Return
	returns int
	instrs  int
	over    bool
	mixed   bool // may return something else
}

// fields of an image that make up its pixels and their meaning
func pixelPath(p string) bool {
	for _, f := range []string{".Data", ".Naxisn", ".Pixels", ".Bitpix", ".Bzero", ".Bscale"} {
		if p == f || strings.HasPrefix(p, f) && strings.ContainsAny(p[len(f):len(f)+1], ".[") {
			return true
		}
	}
	return p == "" || p == "[]"
}

type c21 struct {
	w *World
	r *Report
}

func (c *c21) apply(o *opType, n neutral, depth int) (*reachResult, string) {
	f := o.apply
	if f == nil || len(f.Params) < 2 {
		return nil, "no processing function"
	}
	paths := map[string]string{}
	types_ := map[string]types.Type{}
	for _, fl := range flatFields(o.st, "") {
		if fl.json != "" {
			paths[fl.json] = fl.path
			types_[fl.json] = fl.v.Type()
		}
	}
	img := f.Params[1]
	if !isImageT(img.Type()) {
		return nil, "its first parameter is not an image"
	}
	res := &reachResult{writes: map[string]ssa.Instruction{}}
	ai := newAI(c.w)
	ai.maxDepth = depth
	e := ai.e
	onWrite := func(fr *aFrame, as []AP, at ssa.Instruction) {
		for _, a := range as {
			for _, x := range c.toRoot(e, fr, a, 0) {
				if x.Root == ssa.Value(img) && pixelPath(x.Path) {
					if _, ok := res.writes[x.Path]; !ok {
						res.writes[x.Path] = at
					}
				}
			}
		}
	}
	ai.visit = func(fr *aFrame, i ssa.Instruction, st *aState) {
		res.instrs++
		onWrite(fr, e.directWrites(i), i)
	}
	ai.opaque = func(fr *aFrame, ci ssa.CallInstruction, st *aState) {
		for a := range e.callWrites(ci) {
			onWrite(fr, []AP{a}, ci)
		}
	}
	ai.enterIf = c.relevant
	missing := ""
	rets := ai.run(f, func(st *aState, key func(p *ssa.Parameter) string) {
		for _, p := range f.Params {
			if _, ok := p.Type().Underlying().(*types.Pointer); ok {
				st.vals[p] = vtag(vNonNil)
			}
		}
		for k, v := range n.set {
			if paths[k] == "" {
				missing = k
				continue
			}
			cv := parseConst(v)
			if x := convConst(cv, types_[k]); x != nil {
				cv = x
			}
			st.locs[key(f.Params[0])+paths[k]] = vconst(cv)
		}
		// frames handed to operators carry statistics
		st.locs[key(img)+".Stats"] = vtag(vNonNil)
	})
	if missing != "" {
		return nil, "setting " + missing + " not found"
	}
	res.over = ai.over
	for _, rt := range rets {
		res.returns++
		if len(rt.vals) != 2 {
			return nil, "unexpected results"
		}
		if !rt.vals[1].only(vNil) {
			if rt.vals[1].only(vNonNil) {
				res.fails = append(res.fails, rt.at)
			} else {
				res.perhaps = append(res.perhaps, rt.at)
			}
			continue
		}
		if rt.vals[0].only(vNil) {
			res.drops = append(res.drops, rt.at)
			continue
		}
		same, others := false, false
		for _, a := range e.resolve(rt.at.Results[0]) {
			if a.Root == ssa.Value(img) && a.Path == "" {
				same = true
			} else if k, ok := a.Root.(*ssa.Const); !ok || !k.IsNil() {
				others = true
			}
		}
		if others {
			res.mixed = true
		}
		if !same && others {
			res.other = append(res.other, rt.at)
		}
	}
	return res, ""
}

// functions that can write an image they are given, or fail, are looked into
func (c *c21) relevant(f *ssa.Function) bool {
	for k := 0; k < f.Signature.Results().Len(); k++ {
		if isErrT(f.Signature.Results().At(k).Type()) {
			return true
		}
	}
	if b, ok := f.Signature.Results(), f.Signature.Results().Len() > 0; ok && len(f.Blocks) < 12 {
		if t, ok := b.At(0).Type().Underlying().(*types.Basic); ok && t.Info()&(types.IsBoolean|types.IsInteger) != 0 {
			return true
		}
	}
	for a := range c.w.effects().writes[f] {
		if a.Root.Parent() == f && !isParam(a.Root) {
			continue
		}
		if strings.HasSuffix(a.Path, "[]") || strings.Contains(a.Path, ".Data") || strings.Contains(a.Path, ".Naxisn") {
			return true
		}
	}
	return false
}

func isParam(v ssa.Value) bool {
	_, ok := v.(*ssa.Parameter)
	return ok
}

// express a location of a nested frame in terms of the outermost function
func (c *c21) toRoot(e *effects, fr *aFrame, a AP, d int) []AP {
	if fr.parent == nil || d > 8 {
		return []AP{a}
	}
	p, ok := a.Root.(*ssa.Parameter)
	if !ok || p.Parent() != fr.f {
		// captured variables are resolved to the variables of an enclosing function already
		for x := fr.parent; x != nil; x = x.parent {
			if a.Root.Parent() == x.f {
				return c.toRoot(e, x, a, d+1)
			}
		}
		return []AP{a}
	}
	if fr.site == nil {
		return []AP{a}
	}
	arg := argFor(p, fr.f, fr.site)
	if arg == nil {
		return []AP{a}
	}
	var r []AP
	for _, b := range e.resolve(arg) {
		r = append(r, c.toRoot(e, fr.parent, AP{b.Root, b.Path + a.Path}, d+1)...)
	}
	return r
}

func isImageT(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := p.Elem().(*types.Named)
	return ok && n.Obj().Name() == "Image" && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), "internal/fits")
}

func runC21(w *World, r *Report) {
	r.rule("untouched", "operators with neutral settings that reach no write to the image's pixels", 35)
	r.rule("success", "operators with neutral settings that return the image without failing", 35)
	r.rule("documented", "command line options with a documented off value that reach an operator with such a setting", 8)
	c := &c21{w: w, r: r}
	byName := map[string]*opType{}
	for _, o := range w.operators() {
		byName[o.name()] = o
	}
	for _, n := range neutrals {
		o := byName[n.op]
		if o == nil {
			r.undecided("operator %s not found", n.op)
			continue
		}
		res, why := c.apply(o, n, 6)
		if why != "" {
			r.undecided("%s with %s: %s", n.op, n, why)
			continue
		}
		if res.over {
			if res, why = c.apply(o, n, 2); why != "" || res.over {
				r.undecided("%s with %s: analysis did not finish", n.op, n)
				continue
			}
		}
		if res.returns == 0 {
			r.bad("success", n.op+"|"+n.String()+"|never", w.pos(o.apply.Pos()), "%s with %s never returns", n.op, n)
			continue
		}
		key := n.op + "|" + n.String()
		if len(res.writes) > 0 {
			var ps []string
			for p := range res.writes {
				ps = append(ps, p)
			}
			sort.Strings(ps)
			at := res.writes[ps[0]]
			if n.ident {
				r.undecided("%s with %s runs its pixel computation (identity for this setting)", n.op, n)
			} else {
				r.bad("untouched", key, w.ipos(at), "%s with the neutral setting %s still writes image%s at %s", n.op, n, ps[0], w.ipos(at))
			}
		} else {
			r.ob("untouched", "%s with %s: %d reachable instructions, no write to the pixels", n.op, n, res.instrs)
		}
		bad := false
		for _, rt := range res.fails {
			bad = true
			r.bad("success", key+"|fails", w.ipos(rt), "%s with the neutral setting %s can fail", n.op, n)
		}
		for _, rt := range res.drops {
			bad = true
			r.bad("success", key+"|drops", w.ipos(rt), "%s with the neutral setting %s can drop the image", n.op, n)
		}
		for _, rt := range res.other {
			bad = true
			r.bad("success", key+"|other", w.ipos(rt), "%s with the neutral setting %s returns another image than the one given", n.op, n)
		}
		for _, rt := range res.perhaps {
			bad = true
			r.undecided("%s with %s: not clear whether %s returns an error", n.op, n, w.ipos(rt))
		}
		if !bad {
			r.ob("success", "%s with %s: %d reachable returns hand the image on", n.op, n, res.returns)
		}
	}
	c.documented(byName)
}

// off values documented for command line options must be neutral settings of the operators built from them
func (c *c21) documented(byName map[string]*opType) {
	w, r := c.w, c.r
	for _, d := range w.flagDefs() {
		args := d.call.Call.Args
		doc := ""
		if k, ok := args[len(args)-1].(*ssa.Const); ok {
			doc, _ = constString(k)
		}
		v := offValue(doc)
		if v == "" {
			continue
		}
		for _, o := range w.operators() {
			for _, fl := range c.fieldsFrom(o, d.name) {
				found := false
				for _, n := range neutrals {
					if n.op != o.name() || n.set[fl] == "" {
						continue
					}
					if constant.Compare(parseConst(n.set[fl]), token.EQL, parseConst(v)) {
						found = true
					}
				}
				if found {
					r.ob("documented", "-%s: %s is documented as off; setting %s of %s", d.name, v, fl, o.name())
				}
			}
		}
	}
}

func offValue(doc string) string {
	for _, s := range []string{"=off", "=no op", " = no op", "=no binning", "=don't", ": keep linear", "=do not normalize"} {
		if k := strings.Index(doc, s); k > 0 {
			j := k
			for j > 0 && strings.ContainsRune("0123456789.-<", rune(doc[j-1])) {
				j--
			}
			v := strings.TrimSuffix(doc[j:k], ".0")
			if v == "<0" {
				return "-1"
			}
			if v != "" {
				return v
			}
		}
	}
	if strings.Contains(doc, "blank for no op") {
		return `""`
	}
	return ""
}

// fields of an operator that receive the value of an option
func (c *c21) fieldsFrom(o *opType, flag string) (res []string) {
	w := c.w
	seen := map[string]bool{}
	for _, f := range o.ctors {
		for _, ci := range w.calls().callers[f] {
			for _, p := range f.Params {
				a := argFor(p, f, ci)
				if a == nil || w.flagOf(stripAnyConv(a)) != flag {
					continue
				}
				for _, fl := range flatFields(o.st, "") {
					if fl.json != "" && !seen[fl.json] && c.stored(f, p, fl.v) {
						seen[fl.json] = true
						res = append(res, fl.json)
					}
				}
			}
		}
	}
	return
}

func stripAnyConv(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.Convert:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		default:
			return v
		}
	}
}

// settings away from the off position reach the processing (part of C29)
func activeSettings(w *World, r *Report) {
	c := &c21{w: w, r: r}
	byName := map[string]*opType{}
	for _, o := range w.operators() {
		byName[o.name()] = o
	}
	for _, n := range active {
		o := byName[n.op]
		if o == nil {
			r.undecided("operator %s not found", n.op)
			continue
		}
		res, why := c.apply(o, n, 1)
		switch {
		case why != "":
			r.undecided("%s with %s: %s", n.op, n, why)
		case len(res.writes) > 0 || res.mixed:
			r.ob("active", "%s with %s: %d reachable instructions, changes the image", n.op, n, res.instrs)
		case res.over:
			r.undecided("%s with %s: analysis did not finish", n.op, n)
		default:
			r.bad("active", n.op+"|"+n.String(), w.pos(o.apply.Pos()), "%s with %s cannot reach any code that changes the image", n.op, n)
		}
	}
}

// does f store its parameter p in field v of an object?
func (c *c21) stored(f *ssa.Function, p *ssa.Parameter, v *types.Var) bool {
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			st, ok := i.(*ssa.Store)
			if !ok || stripAnyConv(st.Val) != ssa.Value(p) {
				continue
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok {
				continue
			}
			if s, ok := deref(fa.X.Type()).Underlying().(*types.Struct); ok && s.Field(fa.Field) == v {
				return true
			}
		}
	}
	return false
}
