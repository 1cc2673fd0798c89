package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C19", Title: "Pages reference exactly the image files that are produced",
		Rule: "for each kind of file and each combination of conversion settings, both sides are evaluated symbolically: the path a page's image element gets (file in the image cache plus what is appended) equals the file the post-processing leaves (the downloaded file, or the output of a conversion that is passed on every successful path unless its output exists); both start from the same name (the name in the page's element and in the list of images to download are one value, the way from there to the name within the cache only removes the namespace and replaces spaces) in the same directory with the same sanitizing; a formula's image is a file that was downloaded or converted on this path; the path is escaped and relative to the directory the book is made in",
		Run:  runC19})
}

type converter struct{ in, out, tmpl int }

type imgCheck struct {
	p     *Program
	r     *Report
	convs map[*ssa.Function]converter
	dir   string
	// settings deciding about conversions
	fields []string
	// function sanitizing names within the cache
	san *ssa.Function
	// names given to the functions looked at
	bound map[*ssa.Parameter]wikiName
}

// a situation: kind of file and settings
type imgCase struct {
	name string // a file name with the extension in question
	env  setEnv
}

func (c imgCase) String() string {
	var on []string
	for n, v := range c.env {
		if constant.StringVal(v) != "" {
			on = append(on, n)
		}
	}
	sort.Strings(on)
	if len(on) == 0 {
		return "*" + filepath.Ext(c.name) + " without conversions"
	}
	return "*" + filepath.Ext(c.name) + " with " + strings.Join(on, ", ")
}

func runC19(p *Program, r *Report) {
	c := &imgCheck{p: p, r: r, convs: map[*ssa.Function]converter{}}
	c.converters()
	c.dir = c.constOf("cache", "ImageCacheDirName")
	if c.dir == "" || len(c.convs) == 0 {
		r.Undecided("state", "-", "the directory of images or the functions converting images were not found")
		return
	}
	c.sanitizer()
	c.images()
	c.parsed()
	c.formulas()
	c.drivers()
	c.imageSources()
	r.AtLeast("functions starting converters", 2)
	r.AtLeast("situations compared", 40)
	r.AtLeast("image elements of pages", 2)
	r.AtLeast("images to download", 1)
	r.AtLeast("names of image elements", 2)
	r.AtLeast("files of formulas", 2)
}

func (c *imgCheck) bad(key string, in ssa.Instruction, format string, args ...any) {
	at := "-"
	if in != nil {
		at = c.p.At(in)
	}
	c.r.Bad(key, at, format, args...)
}

// constOf is the text of a constant of the repository.
func (c *imgCheck) constOf(pkg, name string) string {
	for _, fn := range c.p.Funcs {
		if !inPkg(fn, pkg) || fn.Pkg == nil {
			continue
		}
		if k, ok := fn.Pkg.Pkg.Scope().Lookup(name).(*types.Const); ok && k.Val().Kind() == constant.String {
			return constant.StringVal(k.Val())
		}
	}
	return ""
}

// --- converters ---

func (c *imgCheck) converters() {
	inP, outP := c.constOf("config", "InputPlaceholder"), c.constOf("config", "OutputPlaceholder")
	for _, fn := range c.p.Funcs {
		for _, call := range CallSites(fn) {
			cc := call.Common()
			if CalleeKey(cc) != "wiki2book/util.ExecuteCommandWithArgs" {
				continue
			}
			vs := variadicArgs(cc.Args[len(cc.Args)-1])
			cv := converter{-1, -1, -1}
			idx := func(v ssa.Value) int {
				for i, q := range fn.Params {
					if c.p.localValue(v) == ssa.Value(q) {
						return i
					}
				}
				return -1
			}
			cv.tmpl = idx(cc.Args[0])
			for i := 0; i+1 < len(vs); i += 2 {
				switch constText(vs[i]) {
				case inP:
					cv.in = idx(vs[i+1])
				case outP:
					cv.out = idx(vs[i+1])
				}
			}
			c.r.Count("functions starting converters", 1)
			if cv.in < 0 || cv.out < 0 || cv.tmpl < 0 {
				c.bad("converter:"+fn.String(), call, "undecided: which file %s reads and which it writes", fn.Name())
				continue
			}
			c.convs[fn] = cv
		}
	}
}

// conversion: the call converts or processes a file.
func (c *imgCheck) conversion(call *ssa.CallCommon) (in, out, tmpl ssa.Value, ok bool) {
	for _, f := range c.p.Callees(call) {
		cv, is := c.convs[f]
		if !is {
			continue
		}
		args := call.Args
		if call.IsInvoke() {
			args = append([]ssa.Value{call.Value}, args...)
		}
		if cv.in < len(args) && cv.out < len(args) && cv.tmpl < len(args) {
			return args[cv.in], args[cv.out], args[cv.tmpl], true
		}
	}
	return nil, nil, nil, false
}

// sanitizer finds the function cleaning names within the path of cache files.
func (c *imgCheck) sanitizer() {
	for _, fn := range c.p.Funcs {
		if !inPkg(fn, "cache") {
			continue
		}
		for _, call := range CallSites(fn) {
			if CalleeKey(call.Common()) != "path/filepath.Join" {
				continue
			}
			vs := variadicArgs(call.Common().Args[0])
			if len(vs) != 3 {
				continue
			}
			if fv := settingField(c.p.localValue(vs[0])); fv == nil || fv.Name() != "CacheDir" {
				continue
			}
			if s, ok := vs[2].(*ssa.Call); ok && s.Call.StaticCallee() != nil && len(fn.Params) == 2 && s.Call.Args[0] == ssa.Value(fn.Params[1]) {
				c.san = s.Call.StaticCallee()
			}
		}
	}
	if c.san == nil {
		c.bad("sanitizer", nil, "undecided: how names are made file names within the cache")
	}
}

// --- what is known about file names ---

// suffixer evaluates conditions about the extension of the file name.
func (c *imgCheck) suffixer(lv *setLiveness, name string, base func(v ssa.Value, fr *shapeFrame) bool) func(v ssa.Value, fr *shapeFrame, d int) constant.Value {
	var sfx func(v ssa.Value, fr *shapeFrame, d int) (string, bool)
	sfx = func(v ssa.Value, fr *shapeFrame, d int) (string, bool) {
		if d > 30 {
			return "", false
		}
		if base(v, fr) {
			return name, true
		}
		switch u := v.(type) {
		case *ssa.Const:
			if t := constText(u); t != "\x00" {
				return t, true
			}
			return "", false
		case *ssa.Parameter:
			if a, up, ok := frameArg(u, fr); ok {
				return sfx(a, up, d+1)
			}
		case *ssa.BinOp:
			if u.Op == token.ADD {
				x, ok1 := sfx(u.X, fr, d+1)
				y, ok2 := sfx(u.Y, fr, d+1)
				if ok1 && ok2 {
					return x + y, true
				}
			}
			return "", false
		case *ssa.Phi:
			out, n := "", 0
			lb := lv.of(u.Parent(), fr)
			for i, e := range u.Edges {
				if !lb.edges[[2]*ssa.BasicBlock{u.Block().Preds[i], u.Block()}] {
					continue
				}
				t, ok := sfx(e, fr, d+1)
				if !ok || n > 0 && t != out {
					return "", false
				}
				out = t
				n++
			}
			return out, n > 0
		case *ssa.Call:
			switch CalleeKey(&u.Call) {
			case "strings.ToLower":
				t, ok := sfx(u.Call.Args[0], fr, d+1)
				return strings.ToLower(t), ok
			case "strings.ToUpper":
				t, ok := sfx(u.Call.Args[0], fr, d+1)
				return strings.ToUpper(t), ok
			case "path/filepath.Base", "path/filepath.Clean", "path.Base", "path.Clean", "path/filepath.ToSlash", "strings.TrimSpace":
				return sfx(u.Call.Args[0], fr, d+1)
			case "path/filepath.Join", "path.Join":
				if vs := variadicArgs(u.Call.Args[0]); len(vs) > 0 && vs[len(vs)-1] != nil {
					return sfx(vs[len(vs)-1], fr, d+1)
				}
				return "", false
			}
			f := u.Call.StaticCallee()
			if f == nil || !c.p.IsRepoFn(f) || f.Signature.Results().Len() != 1 {
				return "", false
			}
			n := &shapeFrame{call: u, fn: f, up: fr}
			if ret := onlyReturn(f); ret != nil && len(ret.Results) == 1 && !recurses(fr, f) {
				return sfx(ret.Results[0], n, d+1)
			}
			return "", false
		}
		if n := c.p.resolveStep(v); n != nil && n != v {
			return sfx(n, fr, d+1)
		}
		return "", false
	}
	return func(v ssa.Value, fr *shapeFrame, d int) constant.Value {
		u, ok := v.(*ssa.Call)
		if !ok {
			return nil
		}
		switch CalleeKey(&u.Call) {
		case "path/filepath.Ext", "path.Ext":
			if t, ok := sfx(u.Call.Args[0], fr, 0); ok {
				return constant.MakeString(filepath.Ext(t))
			}
		case "strings.HasSuffix":
			t, ok := sfx(u.Call.Args[0], fr, 0)
			k := lv.val(u.Call.Args[1], fr, d+1)
			if ok && k != nil && k.Kind() == constant.String {
				return constant.MakeBool(strings.HasSuffix(t, constant.StringVal(k)))
			}
		case "strings.EqualFold":
			x, y := lv.val(u.Call.Args[0], fr, d+1), lv.val(u.Call.Args[1], fr, d+1)
			if x != nil && y != nil && x.Kind() == constant.String && y.Kind() == constant.String {
				return constant.MakeBool(strings.EqualFold(constant.StringVal(x), constant.StringVal(y)))
			}
		case "strings.TrimPrefix", "strings.TrimLeft":
			x, y := lv.val(u.Call.Args[0], fr, d+1), lv.val(u.Call.Args[1], fr, d+1)
			if x != nil && y != nil && x.Kind() == constant.String && y.Kind() == constant.String && len(constant.StringVal(y)) == 1 {
				return constant.MakeString(strings.TrimPrefix(constant.StringVal(x), constant.StringVal(y)))
			}
		}
		return nil
	}
}

func recurses(fr *shapeFrame, f *ssa.Function) bool {
	for x := fr; x != nil; x = x.up {
		if x.fn == f {
			return true
		}
	}
	return false
}

// cases lists all kinds of files and combinations of settings.
func (c *imgCheck) cases() (out []imgCase) {
	envs := []setEnv{{}}
	for _, f := range c.fields {
		var next []setEnv
		for _, e := range envs {
			for _, v := range []string{"", "convert {INPUT} {OUTPUT}"} {
				n := setEnv{f: constant.MakeString(v)}
				for k, x := range e {
					n[k] = x
				}
				next = append(next, n)
			}
		}
		envs = next
	}
	for _, e := range []string{"/N.pdf", "/N.PDF", "/N.svg", "/N.Svg", "/N.webp", "/N.WEBP", "/N.png", "/N.jpg", "/N.tif", "/N", "/N.svg.png", "/Npdf"} {
		for _, env := range envs {
			out = append(out, imgCase{e, env})
		}
	}
	return
}

// --- images of articles ---

// writer is a function in which a downloaded image is at hand.
type imgWriter struct {
	fn    *ssa.Function
	base  ssa.Value
	fresh ssa.Value
}

func (c *imgCheck) images() {
	var writers []imgWriter
	for _, fn := range c.p.Funcs {
		for _, site := range CallSites(fn) {
			call, ok := site.(*ssa.Call)
			if !ok || !strings.HasSuffix(CalleeKey(&call.Call), ").DownloadAndCache") {
				continue
			}
			args := call.Call.Args
			dir, name := args[len(args)-2], args[len(args)-1]
			if constText(c.p.resolve(dir)) != c.dir {
				continue
			}
			sh := &shaper{p: c.p}
			math := false
			for _, s := range sh.eval(name) {
				if len(s) > 1 && s[len(s)-1].v == nil {
					math = true
				}
			}
			if math {
				continue
			}
			c.r.Count("images to download", 1)
			c.nameWithin(call, name)
			b := extractOf(call, 0)
			if b == nil {
				c.bad("download:"+fn.Name(), call, "the path of a downloaded image is not used")
				continue
			}
			if ws := c.writersOf(fn, b, extractOf(call, 1), 0); len(ws) > 0 {
				writers = append(writers, ws...)
			} else {
				c.bad("writer:"+fn.Name(), call, "undecided: no conversion of downloaded images was found")
			}
		}
	}
	if len(writers) == 0 {
		return
	}
	// the settings deciding
	set := map[string]bool{}
	for _, w := range writers {
		lv := newSetLiveness(c.p, setEnv{})
		lv.calls(w.fn, nil, func(call *ssa.Call, fr *shapeFrame) bool {
			in, out, tmpl, ok := c.conversion(&call.Call)
			if !ok {
				return true
			}
			if c.p.vkey(in) != c.p.vkey(out) {
				sh := &shaper{p: c.p}
				for _, s := range sh.ev2(tmpl, fr) {
					for _, q := range s {
						if fv := settingField(q.v); q.v != nil && fv != nil {
							set[fv.Name()] = true
						}
					}
				}
			}
			return false
		})
	}
	for n := range set {
		c.fields = append(c.fields, n)
	}
	sort.Strings(c.fields)
	if len(c.fields) > 6 || len(c.fields) < 1 {
		c.bad("settings", nil, "undecided: %d settings decide about conversions", len(c.fields))
		return
	}
	rds := c.readers()
	for _, cs := range c.cases() {
		want := map[string]bool{}
		for _, w := range writers {
			for _, s := range c.produced(w, cs) {
				want[s] = true
			}
		}
		if len(want) != 1 {
			c.bad("produced:"+cs.String(), writers[0].base.(ssa.Instruction), "undecided: which file remains for %s", cs)
			continue
		}
		var file string
		for s := range want {
			file = s
		}
		for _, rd := range rds {
			c.r.Count("situations compared", 1)
			got, ok := c.referred(rd, cs)
			if !ok {
				continue
			}
			if got != file {
				c.bad("file:"+rd.fn.Name()+":"+cs.String(), rd.at, "for %s a page refers to the file with %q appended, but the file produced has %q appended", cs, got, file)
			}
		}
	}
}

func extractOf(call *ssa.Call, i int) ssa.Value {
	for _, rf := range *call.Referrers() {
		if e, ok := rf.(*ssa.Extract); ok && e.Index == i {
			return e
		}
	}
	return nil
}

// writersOf follows the path of a downloaded image to where it is converted.
// Whether it was downloaded just now is known from fresh.
func (c *imgCheck) writersOf(fn *ssa.Function, b, fresh ssa.Value, depth int) (out []imgWriter) {
	found := false
	lv := newSetLiveness(c.p, setEnv{})
	lv.calls(fn, nil, func(call *ssa.Call, fr *shapeFrame) bool {
		in, o, _, ok := c.conversion(&call.Call)
		if !ok {
			return true
		}
		if c.p.vkey(in) == c.p.vkey(o) {
			return false
		}
		sh := &shaper{p: c.p, leaf: func(v ssa.Value) bool { return v == b }}
		for _, s := range sh.ev2(in, fr) {
			if len(s) == 1 && s[0].v == b {
				found = true
			}
		}
		return false
	})
	if found {
		return []imgWriter{{fn, b, fresh}}
	}
	if depth > 5 {
		return nil
	}
	// returned to the callers
	for _, blk := range fn.Blocks {
		ret, ok := blk.Instrs[len(blk.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		for i := range ret.Results {
			if c.p.resolve(resultOf(ret, i)) != b {
				continue
			}
			sites, known := c.p.sitesOf(fn)
			if !known {
				return nil
			}
			for _, s := range sites {
				call, ok := s.(*ssa.Call)
				if !ok {
					continue
				}
				var v ssa.Value = call
				if len(ret.Results) > 1 {
					v = extractOf(call, i)
				}
				if v == nil {
					c.bad("download:"+s.Parent().Name(), s, "the path of a downloaded image is not used")
					continue
				}
				var now ssa.Value
				for j := range ret.Results {
					if fresh != nil && c.p.resolve(resultOf(ret, j)) == fresh {
						now = extractOf(call, j)
					}
				}
				ws := c.writersOf(s.Parent(), v, now, depth+1)
				if len(ws) == 0 {
					c.bad("writer:"+s.Parent().Name(), s, "an image downloaded here is never converted")
				}
				out = append(out, ws...)
			}
		}
	}
	return
}

// produced tells what the names of the files remaining have appended.
func (c *imgCheck) produced(w imgWriter, cs imgCase) []string {
	base := func(v ssa.Value, fr *shapeFrame) bool { return v == w.base }
	lv := newSetLiveness(c.p, cs.env)
	lv.hook = c.suffixer(lv, cs.name, base)
	leaf := func(v ssa.Value) bool { return v == w.base }
	sh := &shaper{p: c.p, leaf: leaf, live: lv.edge}
	suffixes := func(v ssa.Value, fr *shapeFrame) (out []string, ok bool) {
		seen := map[string]bool{}
		for _, s := range sh.ev2(v, fr) {
			if len(s) == 0 || s[0].v != w.base || len(s) > 2 || len(s) == 2 && s[1].v != nil {
				return nil, false
			}
			t := ""
			if len(s) == 2 {
				t = s[1].lit
			}
			if !seen[t] {
				seen[t] = true
				out = append(out, t)
			}
		}
		return out, true
	}
	res := map[string]bool{}
	var convCalls []*ssa.Call
	type proc struct {
		call *ssa.Call
		in   []string
	}
	var procs []proc
	lv.calls(w.fn, nil, func(call *ssa.Call, fr *shapeFrame) bool {
		in, out, tmpl, ok := c.conversion(&call.Call)
		if !ok {
			return true
		}
		ins, ok1 := suffixes(in, fr)
		outs, ok2 := suffixes(out, fr)
		if !ok1 || !ok2 {
			c.bad("convert:"+call.Parent().Name(), call, "undecided: which file is converted or written for %s", cs)
			return false
		}
		if c.p.vkey(in) == c.p.vkey(out) {
			procs = append(procs, proc{call, ins})
			return false
		}
		if len(ins) != 1 || ins[0] != "" {
			c.bad("convert:"+call.Parent().Name(), call, "not the downloaded file but another one is converted for %s", cs)
		}
		if t := lv.val(tmpl, fr, 0); t == nil || t.Kind() != constant.String || constant.StringVal(t) == "" {
			c.bad("command:"+call.Parent().Name(), call, "undecided: no command is set for the conversion of %s", cs)
		}
		convCalls = append(convCalls, call)
		for _, o := range outs {
			if o == "" {
				c.bad("convert:"+call.Parent().Name(), call, "the downloaded file itself is overwritten by its conversion for %s", cs)
			}
			res[o] = true
		}
		return false
	})
	if len(convCalls) == 0 {
		res[""] = true
	} else {
		// passed whenever the download succeeded
		isConv := map[ssa.Instruction]bool{}
		for _, k := range convCalls {
			isConv[k] = true
		}
		hit := func(in ssa.Instruction, fr *shapeFrame) bool {
			return isConv[in]
		}
		// as long as the result of the conversion does not exist
		lm := newSetLiveness(c.p, cs.env)
		lm.hook = func(v ssa.Value, fr *shapeFrame, d int) constant.Value {
			if call, ok := v.(*ssa.Call); ok && CalleeKey(&call.Call) == "wiki2book/util.PathExists" {
				if ss, ok := suffixes(call.Call.Args[0], fr); ok && len(ss) == 1 && res[ss[0]] {
					return constant.MakeBool(false)
				}
			}
			return lv.hook(v, fr, d)
		}
		if w.fresh != nil {
			// also when there is a result of the conversion, but of an older original
			lf := newSetLiveness(c.p, cs.env)
			lf.hook = func(v ssa.Value, fr *shapeFrame, d int) constant.Value {
				if v == w.fresh {
					return constant.MakeBool(true)
				}
				if call, ok := v.(*ssa.Call); ok && CalleeKey(&call.Call) == "wiki2book/util.PathExists" {
					if ss, ok := suffixes(call.Call.Args[0], fr); ok && len(ss) == 1 && res[ss[0]] {
						return constant.MakeBool(true)
					}
				}
				return lv.hook(v, fr, d)
			}
			if !c.mustAfter(w, lf, hit) {
				c.bad("outdated:"+w.fn.Name(), convCalls[0], "the result of an earlier conversion is kept for %s although the original was downloaded again", cs)
			}
		} else {
			c.bad("outdated:"+w.fn.Name(), convCalls[0], "undecided: whether the result of an earlier conversion is outdated")
		}
		if !c.mustAfter(w, lm, hit) {
			c.bad("skipped:"+w.fn.Name(), convCalls[0], "the conversion of %s is skipped in some cases although a page refers to its result", cs)
		}
	}
	var out []string
	for s := range res {
		out = append(out, s)
	}
	for _, q := range procs {
		for _, s := range q.in {
			if !res[s] {
				c.bad("process:"+q.call.Parent().Name(), q.call, "for %s the file with %q appended is processed further, the page refers to another one", cs, s)
			}
		}
	}
	sort.Strings(out)
	return out
}

// mustAfter: from the successful download on, each way not ending with an error passes a hit.
func (c *imgCheck) mustAfter(w imgWriter, lv *setLiveness, hit func(in ssa.Instruction, fr *shapeFrame) bool) bool {
	at := w.base.(ssa.Instruction)
	var call ssa.Instruction = at
	var errV ssa.Value
	if e, ok := w.base.(*ssa.Extract); ok {
		call = e.Tuple.(*ssa.Call)
		n := e.Tuple.Type().(*types.Tuple).Len()
		errV = extractOf(e.Tuple.(*ssa.Call), n-1)
	}
	lb := lv.of(w.fn, nil)
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, from int) bool
	walk = func(b *ssa.BasicBlock, from int) bool {
		for i := from; i < len(b.Instrs); i++ {
			in := b.Instrs[i]
			if hit(in, nil) {
				return true
			}
			switch u := in.(type) {
			case *ssa.Call:
				if ssa.Instruction(u) == call {
					return true // the next download
				}
				if f := u.Call.StaticCallee(); f != nil && c.p.IsRepoFn(f) && len(f.Blocks) > 0 && f != w.fn {
					_, end := lv.reach(f, &shapeFrame{call: u, fn: f}, hit, nil, 0)
					if !end {
						return true
					}
				}
			case *ssa.Return:
				return errorReturn(u)
			}
		}
		iff, _ := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		for i, s := range b.Succs {
			if !lb.edges[[2]*ssa.BasicBlock{b, s}] || seen[s] {
				continue
			}
			if iff != nil && errV != nil {
				if bo, ok := iff.Cond.(*ssa.BinOp); ok && (bo.Op == token.NEQ || bo.Op == token.EQL) {
					x, y := c.p.localValue(bo.X), c.p.localValue(bo.Y)
					if k, ok := y.(*ssa.Const); ok && k.IsNil() && x == errV && (bo.Op == token.NEQ) == (i == 0) {
						continue // failed
					}
				}
			}
			seen[s] = true
			if !walk(s, 0) {
				return false
			}
		}
		return true
	}
	return walk(call.Block(), indexIn(call)+1)
}

// --- pages ---

// an imgReader is a place at which the path of an image becomes part of a page.
type imgReader struct {
	fn *ssa.Function
	v  ssa.Value
	fr *shapeFrame
	at ssa.Instruction
}

// readers finds the addresses of images in pages.
func (c *imgCheck) readers() (out []imgReader) {
	for _, rd := range c.sources() {
		math := false
		sh := &shaper{p: c.p}
		for _, s := range sh.ev2(rd.v, rd.fr) {
			for _, q := range s {
				if e, ok := q.v.(*ssa.Extract); ok {
					if call, ok := e.Tuple.(*ssa.Call); ok && (strings.HasSuffix(CalleeKey(&call.Call), ".RenderMath") || CalleeKey(&call.Call) == "path/filepath.Rel") {
						math = true
					}
				}
			}
		}
		if !math {
			c.r.Count("image elements of pages", 1)
			out = append(out, rd)
		}
	}
	return
}

// sources lists what is put into the src attribute of images, without the escaping.
func (c *imgCheck) sources() (out []imgReader) {
	type place struct {
		v    ssa.Value
		call *ssa.Call
	}
	have := map[place]bool{}
	for _, fn := range c.p.Funcs {
		if !inPkg(fn, "generator") || fn.Signature.Results().Len() == 0 {
			continue
		}
		if b, ok := fn.Signature.Results().At(0).Type().Underlying().(*types.Basic); !ok || b.Kind() != types.String {
			continue
		}
		for _, b := range fn.Blocks {
			ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok || errorReturn(ret) {
				continue
			}
			sh := &shaper{p: c.p, leaf: func(v ssa.Value) bool {
				call, ok := v.(*ssa.Call)
				return ok && c.escapes(call)
			}}
			for _, s := range sh.ev2(resultOf(ret, 0), nil) {
				for i, q := range s {
					if i == 0 || q.v == nil || s[i-1].v != nil {
						continue
					}
					_, attrs, isImg := cutLast(s[i-1].lit, "<img")
					_, dir, isSrc := cutLast(attrs, `src="`)
					if !isImg || !isSrc || strings.ContainsAny(dir, `">`) {
						continue
					}
					pl := place{v: q.v}
					if q.fr != nil {
						pl.call = q.fr.call
					}
					if have[pl] {
						continue
					}
					have[pl] = true
					x := q.v
					fr := q.fr
					n := 0
					for d := 0; d < 10; d++ {
						if call, ok := x.(*ssa.Call); ok && c.escapes(call) {
							x = call.Call.Args[0]
							n++
							continue
						}
						if pq, ok := x.(*ssa.Parameter); ok {
							if a, up, ok := frameArg(pq, fr); ok {
								x, fr = a, up
								continue
							}
						}
						if u := c.p.localValue(x); u != x {
							x = u
							continue
						}
						break
					}
					at, _ := q.v.(ssa.Instruction)
					if at == nil {
						at = ret
					}
					if dir != "" && dir != "./" {
						c.bad("dir:"+fn.Name(), at, "the path of an image within a page starts with %q, but the images are not there", dir)
					}
					if n != 1 {
						c.bad("escape:"+fn.Name(), at, "the path of an image is put into a page without being escaped exactly once: names with special characters refer to another file")
					}
					out = append(out, imgReader{fn, x, fr, at})
				}
			}
		}
	}
	return
}

func cutLast(s, sep string) (before, after string, found bool) {
	if i := strings.LastIndex(s, sep); i >= 0 {
		return s[:i], s[i+len(sep):], true
	}
	return s, "", false
}

// escapes: the call escapes each part of a path.
func (c *imgCheck) escapes(call *ssa.Call) bool {
	f := call.Call.StaticCallee()
	if f == nil || !c.p.IsRepoFn(f) || len(f.Params) != 1 {
		return false
	}
	if b, ok := f.Params[0].Type().Underlying().(*types.Basic); !ok || b.Kind() != types.String {
		return false
	}
	fns := append([]*ssa.Function{f}, f.AnonFuncs...)
	for _, g := range fns {
		for _, cs := range CallSites(g) {
			switch CalleeKey(cs.Common()) {
			case "net/url.QueryEscape", "net/url.PathEscape":
				if c.p.resolve(cs.Common().Args[0]) == ssa.Value(f.Params[0]) {
					c.bad("escape:"+f.Name(), cs, "the separators of paths are escaped as well")
				}
				return true
			case "(*net/url.URL).EscapedPath":
				return true
			}
		}
	}
	ret := onlyReturn(f)
	if ret == nil {
		return false
	}
	if k, ok := c.p.localValue(ret.Results[0]).(*ssa.Call); ok && len(k.Call.Args) == 1 && c.p.localValue(k.Call.Args[0]) == ssa.Value(f.Params[0]) {
		return c.escapes(k)
	}
	return false
}

// referred is what the path within the page has appended to the file within the cache.
func (c *imgCheck) referred(rd imgReader, cs imgCase) (string, bool) {
	base := func(v ssa.Value, fr *shapeFrame) bool {
		if call, ok := v.(*ssa.Call); ok && (CalleeKey(&call.Call) == "path/filepath.Join" || CalleeKey(&call.Call) == "path.Join") {
			return true
		}
		return c.isFilename(v)
	}
	lv := newSetLiveness(c.p, cs.env)
	lv.hook = c.suffixer(lv, cs.name, base)
	sh := &shaper{p: c.p, live: lv.edge}
	sufs := map[string]bool{}
	for _, s := range sh.ev2(rd.v, rd.fr) {
		t := ""
		ok := len(s) > 0 && s[0].v != nil
		for i, q := range s {
			if i > 0 && q.v != nil {
				ok = false
			}
			t += q.lit
		}
		if !ok {
			c.bad("path:"+rd.fn.Name(), rd.at, "undecided: which file a page refers to")
			return "", false
		}
		if !c.inCache(rd, s[0]) {
			return "", false
		}
		sufs[t] = true
	}
	if len(sufs) != 1 {
		c.bad("path:"+rd.fn.Name()+":"+cs.String(), rd.at, "which file a page refers to is not decided by the kind of file and the settings for %s", cs)
		return "", false
	}
	for s := range sufs {
		return s, true
	}
	return "", false
}

// isFilename: the name of an image token.
func (c *imgCheck) isFilename(v ssa.Value) bool {
	switch u := v.(type) {
	case *ssa.UnOp:
		if fa, ok := u.X.(*ssa.FieldAddr); ok && u.Op == token.MUL {
			return c.nameField(fieldVar(fa.X.Type(), fa.Field))
		}
	case *ssa.Field:
		return c.nameField(fieldVar(u.X.Type(), u.Field))
	}
	return false
}

func (c *imgCheck) nameField(fv *types.Var) bool {
	return fv != nil && fv.Name() == "Filename" && fv.Pkg() != nil && strings.HasSuffix(fv.Pkg().Path(), "/parser")
}

// inCache: the part is the path of the file within the image directory, relative to the cache.
func (c *imgCheck) inCache(rd imgReader, q strPart) bool {
	call, ok := q.v.(*ssa.Call)
	if !ok || CalleeKey(&call.Call) != "path/filepath.Join" && CalleeKey(&call.Call) != "path.Join" {
		c.bad("path:"+rd.fn.Name(), rd.at, "undecided: the path of an image in a page is not made from the directory and name")
		return false
	}
	vs := variadicArgs(call.Call.Args[0])
	sh := &shaper{p: c.p}
	text := func(v ssa.Value) string {
		ss := sh.ev2(v, q.fr)
		if len(ss) != 1 || len(ss[0]) > 1 || len(ss[0]) == 1 && ss[0][0].v != nil {
			return "\x00"
		}
		if len(ss[0]) == 0 {
			return ""
		}
		return ss[0][0].lit
	}
	for len(vs) > 2 && (text(vs[0]) == "." || text(vs[0]) == "") {
		vs = vs[1:]
	}
	if len(vs) != 2 || text(vs[0]) != c.dir {
		c.bad("dir:"+rd.fn.Name(), rd.at, "the path of an image in a page is not relative to the cache within the directory of images")
		return false
	}
	v, fr := vs[1], q.fr
	sanitized := false
	for d := 0; d < 20; d++ {
		if k, ok := v.(*ssa.Call); ok && k.Call.StaticCallee() == c.san && c.san != nil {
			sanitized = true
			v = k.Call.Args[0]
			continue
		}
		if pq, ok := v.(*ssa.Parameter); ok {
			if a, up, ok := frameArg(pq, fr); ok {
				v, fr = a, up
				continue
			}
		}
		if c.isFilename(v) {
			break
		}
		n := c.p.resolveStep(v)
		if n == nil || n == v {
			break
		}
		v = n
	}
	if !sanitized {
		c.bad("sanitized:"+rd.fn.Name(), rd.at, "the name of an image is not cleaned in the page in the same way as within the cache")
	}
	if !c.isFilename(v) {
		c.bad("name:"+rd.fn.Name(), rd.at, "the name of the file in the page is not the name of the image")
	}
	return true
}

// --- names ---

// A wikiName is a title of which only the namespace (including the colon) is known.
type wikiName struct {
	ns   string // "?" if there is one
	ok   bool
	orig bool // the name itself is unchanged
}

// nameWithin: the name within the cache is the name of the image.
func (c *imgCheck) nameWithin(call *ssa.Call, name ssa.Value) {
	n := c.nameOf(name, 0, map[ssa.Value]bool{})
	switch {
	case !n.ok:
		c.bad("stored:"+call.Parent().Name(), call, "undecided: an image is stored with another name than the one the page refers to")
	case n.ns != "":
		c.bad("stored:"+call.Parent().Name(), call, "an image is stored with its namespace as part of the name")
	}
}

func (c *imgCheck) nameOf(v ssa.Value, d int, busy map[ssa.Value]bool) (out wikiName) {
	if d > 40 || busy[v] {
		return
	}
	busy[v] = true
	defer delete(busy, v)
	if x := c.afterColon(v); x != nil {
		n := c.nameOf(x, d+1, busy)
		if n.ns == "" {
			return wikiName{} // would cut the name itself
		}
		n.ns = ""
		return n
	}
	switch u := v.(type) {
	case *ssa.BinOp:
		if u.Op == token.ADD {
			if t := constText(u.X); strings.HasSuffix(t, ":") && strings.Count(t, ":") == 1 {
				n := c.nameOf(u.Y, d+1, busy)
				if n.ok && n.ns == "" {
					n.ns = t
					return n
				}
			}
		}
		return
	case *ssa.Call:
		switch CalleeKey(&u.Call) {
		case "strings.ReplaceAll":
			if constText(u.Call.Args[1]) == " " && constText(u.Call.Args[2]) == "_" {
				return c.nameOf(u.Call.Args[0], d+1, busy)
			}
			return
		case "fmt.Sprintf":
			vs := variadicArgs(u.Call.Args[1])
			if t := constText(u.Call.Args[0]); strings.HasSuffix(t, ":%s") && strings.Count(t, "%") == 1 && len(vs) == 1 {
				n := c.nameOf(unboxed(vs[0]), d+1, busy)
				if n.ok && n.ns == "" {
					n.ns = strings.TrimSuffix(t, "%s")
					return n
				}
			}
			return
		}
		// a function removing the namespace, if there is one
		f := u.Call.StaticCallee()
		if f == nil || !c.p.IsRepoFn(f) || len(f.Blocks) == 0 || f.Signature.Results().Len() != 1 {
			return
		}
		if n, ok := c.withoutNamespace(u, f, d, busy); ok {
			return n
		}
		// any other function
		bound := map[*ssa.Parameter]wikiName{}
		for i, pq := range f.Params {
			if _, ok := c.bound[pq]; ok {
				return
			}
			if b, ok := pq.Type().Underlying().(*types.Basic); ok && b.Kind() == types.String && i < len(u.Call.Args) {
				bound[pq] = c.nameOf(u.Call.Args[i], d+1, busy)
			}
		}
		if c.bound == nil {
			c.bound = map[*ssa.Parameter]wikiName{}
		}
		for pq, n := range bound {
			c.bound[pq] = n
		}
		first := true
		for _, b := range f.Blocks {
			ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok {
				continue
			}
			n := c.nameOf(ret.Results[0], d+1, busy)
			if !first && (n.ns != out.ns || n.ok != out.ok) {
				n = wikiName{}
			}
			out, first = n, false
		}
		for pq := range bound {
			delete(c.bound, pq)
		}
		return
	case *ssa.Parameter:
		if n, ok := c.bound[u]; ok {
			return n
		}
		// all callers
		sites, known := c.p.sitesOf(u.Parent())
		if !known || len(sites) == 0 {
			return
		}
		for i, s := range sites {
			a := siteArg(s, u)
			if a == nil {
				return
			}
			n := c.nameOf(a, d+1, busy)
			if !n.ok || i > 0 && n.ns != out.ns {
				return wikiName{}
			}
			out = n
		}
		return
	case *ssa.Phi:
		for i, e := range u.Edges {
			n := c.nameOf(e, d+1, busy)
			if !n.ok || i > 0 && n.ns != out.ns {
				return wikiName{}
			}
			out = n
		}
		return
	case *ssa.UnOp:
		if u.Op != token.MUL {
			return
		}
		// an element of the list of images
		if ia, ok := u.X.(*ssa.IndexAddr); ok {
			if c.isImageList(ia.X, 0) {
				return wikiName{ns: "?", ok: true, orig: true}
			}
			return
		}
		// a field filled by the function that made the record
		if fa, ok := u.X.(*ssa.FieldAddr); ok {
			return c.fieldName(fa, d, busy)
		}
	}
	if n := c.p.resolveStep(v); n != nil && n != v {
		return c.nameOf(n, d+1, busy)
	}
	return
}

// withoutNamespace: the function removes the namespace, if there is one.
func (c *imgCheck) withoutNamespace(u *ssa.Call, f *ssa.Function, d int, busy map[ssa.Value]bool) (wikiName, bool) {
	if len(f.Params) != 1 {
		return wikiName{}, false
	}
	cuts := 0
	for _, b := range f.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		for _, x := range phiEdges(ret.Results[0]) {
			x = c.p.localValue(x)
			if y := c.afterColon(x); y == ssa.Value(f.Params[0]) {
				cuts++
			} else if x != ssa.Value(f.Params[0]) {
				return wikiName{}, false
			}
		}
	}
	n := c.nameOf(u.Call.Args[0], d+1, busy)
	if cuts > 0 {
		if n.ns == "" {
			return wikiName{}, true
		}
		n.ns = ""
	}
	return n, true
}

func phiEdges(v ssa.Value) []ssa.Value {
	if ph, ok := v.(*ssa.Phi); ok {
		return ph.Edges
	}
	return []ssa.Value{v}
}

// afterColon: the value is what follows the first colon of another one.
func (c *imgCheck) afterColon(v ssa.Value) ssa.Value {
	switch u := v.(type) {
	case *ssa.Extract:
		if call, ok := u.Tuple.(*ssa.Call); ok && u.Index == 1 && CalleeKey(&call.Call) == "strings.Cut" && constText(call.Call.Args[1]) == ":" {
			return call.Call.Args[0]
		}
	case *ssa.UnOp:
		ia, ok := u.X.(*ssa.IndexAddr)
		if !ok || u.Op != token.MUL {
			return nil
		}
		call, ok := c.p.localValue(ia.X).(*ssa.Call)
		if !ok || CalleeKey(&call.Call) != "strings.SplitN" || constText(call.Call.Args[1]) != ":" {
			return nil
		}
		n, ok1 := constInt(call.Call.Args[2])
		i, ok2 := constInt(ia.Index)
		if ok1 && ok2 && n == 2 && i == 1 {
			return call.Call.Args[0]
		}
	case *ssa.Slice:
		if u.High != nil {
			return nil
		}
		x, k, ok := sumOf(u.Low)
		if !ok {
			return nil
		}
		if n, isN := constInt(k); !isN || n != 1 {
			return nil
		}
		if call, ok := x.(*ssa.Call); ok && CalleeKey(&call.Call) == "strings.Index" && constText(call.Call.Args[1]) == ":" && c.p.vkey(call.Call.Args[0]) == c.p.vkey(u.X) {
			return u.X
		}
	}
	return nil
}

// fieldName is the name held by a field of a record another function returned.
func (c *imgCheck) fieldName(fa *ssa.FieldAddr, d int, busy map[ssa.Value]bool) wikiName {
	var path []int
	var x ssa.Value = fa
	for {
		if f, ok := x.(*ssa.FieldAddr); ok {
			path = append([]int{f.Field}, path...)
			x = f.X
			continue
		}
		break
	}
	x = c.p.localValue(x)
	e, ok := x.(*ssa.Extract)
	if !ok {
		return wikiName{}
	}
	call, ok := e.Tuple.(*ssa.Call)
	if !ok {
		return wikiName{}
	}
	var out wikiName
	n := 0
	for _, f := range c.p.Callees(&call.Call) {
		if !c.p.IsRepoFn(f) || len(f.Blocks) == 0 || strings.Contains(c.p.Pos(f.Pos()), "mock") {
			continue
		}
		// the store to the field
		var st *ssa.Store
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				var sp []int
				var y ssa.Value = s.Addr
				for {
					if g, ok := y.(*ssa.FieldAddr); ok {
						sp = append([]int{g.Field}, sp...)
						y = g.X
						continue
					}
					break
				}
				if len(sp) == 0 || fmt.Sprint(sp) != fmt.Sprint(path) || !types.Identical(y.Type(), x.Type()) {
					continue
				}
				if st != nil {
					return wikiName{}
				}
				st = s
			}
		}
		if st == nil {
			return wikiName{}
		}
		for _, b := range f.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && !errorReturn(ret) && !st.Block().Dominates(b) && !errEnd(b, nil) {
				return wikiName{}
			}
		}
		q, ok := c.p.localValue(st.Val).(*ssa.Parameter)
		if !ok {
			return wikiName{}
		}
		var a ssa.Value
		args := call.Call.Args
		if call.Call.IsInvoke() {
			args = append([]ssa.Value{call.Call.Value}, args...)
		}
		for i, r := range f.Params {
			if r == q && i < len(args) {
				a = args[i]
			}
		}
		if a == nil {
			return wikiName{}
		}
		m := c.nameOf(a, d+1, busy)
		if !m.ok || n > 0 && m.ns != out.ns {
			return wikiName{}
		}
		out = m
		n++
	}
	return out
}

// isImageList: the list is the one of the article's images.
func (c *imgCheck) isImageList(v ssa.Value, d int) bool {
	if d > 10 {
		return false
	}
	v = c.p.localValue(v)
	if q, ok := v.(*ssa.Parameter); ok {
		sites, known := c.p.sitesOf(q.Parent())
		if !known || len(sites) == 0 {
			return false
		}
		for _, s := range sites {
			a := siteArg(s, q)
			if a == nil || !c.isImageList(a, d+1) {
				return false
			}
		}
		return true
	}
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if fa, ok := u.X.(*ssa.FieldAddr); ok {
			fv := fieldVar(fa.X.Type(), fa.Field)
			return fv != nil && fv.Name() == "Images" && strings.HasSuffix(fv.Pkg().Path(), "/parser")
		}
	}
	n := c.p.resolveStep(v)
	return n != nil && n != v && c.isImageList(n, d+1)
}

// --- names in the parser ---

func (c *imgCheck) parsed() {
	// functions remembering an image for the download, and returning its specification
	reg := map[*ssa.Function]bool{}
	for _, fn := range c.p.Funcs {
		if !inPkg(fn, "parser") {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				fv := fieldVar(fa.X.Type(), fa.Field)
				if fv == nil || fv.Name() != "images" {
					continue
				}
				call, ok := st.Val.(*ssa.Call)
				if !ok || CalleeKey(&call.Call) != "builtin.append" {
					continue
				}
				c.r.Count("lists of images", 1)
				els := variadicArgs(call.Call.Args[1])
				if len(els) != 1 {
					c.bad("list:"+fn.Name(), in, "undecided: which image is added to the images to download")
					continue
				}
				// within the functions that know the name
				var lift func(fn *ssa.Function, at ssa.Instruction, e ssa.Value, d int)
				lift = func(fn *ssa.Function, at ssa.Instruction, e ssa.Value, d int) {
					if q, ok := c.p.localValue(e).(*ssa.Parameter); ok && d < 5 && fn.Signature.Results().Len() == 0 {
						if sites, known := c.p.sitesOf(fn); known && len(sites) > 0 {
							for _, cs := range sites {
								if a := siteArg(cs, q); a != nil {
									lift(cs.Parent(), cs, a, d+1)
								}
							}
							return
						}
					}
					reg[fn] = true
					c.registered(fn, at, e)
				}
				lift(fn, st, els[0], 0)
			}
		}
	}
	// the names in the elements
	for _, fn := range c.p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || !c.nameField(fieldVar(fa.X.Type(), fa.Field)) {
					continue
				}
				c.r.Count("names of image elements", 1)
				if !c.fromSpec(st.Val, reg, 0) {
					c.bad("element:"+fn.Name(), in, "the name of an image element is not the name in the specification that was remembered for the download")
				}
			}
		}
	}
}

// fromSpec: the value is what follows the namespace in the first segment of the specification a registering function returned.
func (c *imgCheck) fromSpec(v ssa.Value, reg map[*ssa.Function]bool, d int) bool {
	if d > 20 {
		return false
	}
	v = c.p.localValue(v)
	if q, ok := v.(*ssa.Parameter); ok {
		sites, known := c.p.sitesOf(q.Parent())
		if !known || len(sites) == 0 {
			return false
		}
		for _, s := range sites {
			if a := siteArg(s, q); a == nil || !c.fromSpec(a, reg, d+1) {
				return false
			}
		}
		return true
	}
	x := c.afterColon(v)
	if x == nil {
		if n := c.p.resolveStep(v); n != nil && n != v {
			return c.fromSpec(n, reg, d+1)
		}
		return false
	}
	x = c.firstSegment(x)
	if x == nil {
		return false
	}
	call, ok := c.p.resolve(x).(*ssa.Call)
	return ok && reg[call.Call.StaticCallee()]
}

// firstSegment: the value is what comes before the first "|" of another one.
func (c *imgCheck) firstSegment(v ssa.Value) ssa.Value {
	for d := 0; d < 10; d++ {
		switch u := v.(type) {
		case *ssa.Extract:
			if call, ok := u.Tuple.(*ssa.Call); ok && u.Index == 0 && CalleeKey(&call.Call) == "strings.Cut" && constText(call.Call.Args[1]) == "|" {
				return call.Call.Args[0]
			}
		case *ssa.UnOp:
			if ia, ok := u.X.(*ssa.IndexAddr); ok && u.Op == token.MUL {
				call, ok := c.p.resolve(ia.X).(*ssa.Call)
				if !ok || !strings.HasPrefix(CalleeKey(&call.Call), "strings.Split") || constText(call.Call.Args[1]) != "|" {
					return nil
				}
				if i, ok := constInt(ia.Index); ok && i == 0 {
					return call.Call.Args[0]
				}
				return nil
			}
		}
		n := c.p.resolveStep(v)
		if n == nil || n == v {
			return nil
		}
		v = n
	}
	return nil
}

// registered: the image remembered is a namespace and a name without spaces, and the specification returned starts with it.
func (c *imgCheck) registered(fn *ssa.Function, at ssa.Instruction, e ssa.Value) {
	sh := &shaper{p: c.p, leaf: func(v ssa.Value) bool {
		_, isPhi := v.(*ssa.Phi)
		return isPhi
	}}
	for _, s := range sh.eval(e) {
		colon := -1
		for i, q := range s {
			if q.v == nil && strings.Contains(q.lit, ":") {
				colon = i
				break
			}
		}
		if colon < 0 || !strings.HasSuffix(s[colon].lit, ":") || strings.Count(s[colon].lit, ":") != 1 || colon > 1 || colon+1 >= len(s) {
			c.bad("list:"+fn.Name(), at, "undecided: the image to download is not a namespace, a colon and a name")
			continue
		}
		if colon == 1 && !c.colonFree(s[0].v, 0) {
			c.bad("list:"+fn.Name(), at, "the namespace of an image to download may contain a colon, so that its name gets lost")
		}
		for _, q := range s[colon+1:] {
			if q.v == nil && !strings.Contains(q.lit, " ") {
				continue
			}
			if q.v == nil || !c.spaceFree(q.v, 0) {
				c.bad("spaces:"+fn.Name(), at, "the name of an image may contain spaces, which are replaced in the name of the file but not in the page")
			}
		}
	}
	for _, b := range fn.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || len(ret.Results) != 1 {
			continue
		}
		if !at.Block().Dominates(b) {
			if constText(ret.Results[0]) != "" {
				c.bad("unlisted:"+fn.Name(), ret, "an image is used without being added to the images to download")
			}
			continue
		}
		if !c.startsWith(ret.Results[0], e) {
			c.bad("spec:"+fn.Name(), ret, "the specification of an image doesn't contain the name that is remembered for the download")
		}
	}
}

// startsWith: the text is e, or segments separated by "|" of which e is the first.
func (c *imgCheck) startsWith(v, e ssa.Value) bool {
	v = c.p.localValue(v)
	if v == e {
		return true
	}
	switch u := v.(type) {
	case *ssa.BinOp:
		if u.Op == token.ADD {
			if u.X == e {
				t := constText(u.Y)
				if b, ok := u.Y.(*ssa.BinOp); ok {
					t = constText(b.X)
				}
				return strings.HasPrefix(t, "|")
			}
			if b, ok := u.X.(*ssa.BinOp); ok && b.X == e {
				return strings.HasPrefix(constText(b.Y), "|")
			}
			return c.startsWith(u.X, e)
		}
	case *ssa.Phi:
		for _, x := range u.Edges {
			if !c.startsWith(x, e) {
				return false
			}
		}
		return true
	case *ssa.Call:
		if CalleeKey(&u.Call) == "strings.Join" && constText(u.Call.Args[1]) == "|" {
			// the last store to the first segment
			list := u.Call.Args[0]
			good := false
			if ap, ok := list.(*ssa.Call); ok && CalleeKey(&ap.Call) == "builtin.append" {
				els := variadicArgs(ap.Call.Args[0])
				return len(els) > 0 && els[0] == e
			}
			if els := variadicArgs(list); len(els) > 0 && els[0] == e {
				return true
			}
			refs := list.Referrers()
			if refs == nil {
				return false
			}
			for _, rf := range *refs {
				ia, ok := rf.(*ssa.IndexAddr)
				if !ok {
					continue
				}
				i, isK := constInt(ia.Index)
				for _, rr := range *ia.Referrers() {
					st, ok := rr.(*ssa.Store)
					if !ok || st.Addr != ssa.Value(ia) {
						continue
					}
					if !isK || i != 0 {
						continue
					}
					if c.p.localValue(st.Val) == e && st.Block().Dominates(u.Block()) {
						good = true
					} else if st.Val != e {
						return false
					}
				}
			}
			return good
		}
	}
	return false
}

// colonFree: the text contains no colon.
func (c *imgCheck) colonFree(v ssa.Value, d int) bool {
	if d > 20 || v == nil {
		return false
	}
	if t := constText(v); t != "\x00" {
		return !strings.Contains(t, ":")
	}
	switch u := v.(type) {
	case *ssa.Phi:
		for _, e := range u.Edges {
			if !c.colonFree(e, d+1) {
				return false
			}
		}
		return true
	case *ssa.Extract:
		if call, ok := u.Tuple.(*ssa.Call); ok && CalleeKey(&call.Call) == "strings.Cut" && u.Index == 0 {
			return constText(call.Call.Args[1]) == ":"
		}
	case *ssa.UnOp:
		if ia, ok := u.X.(*ssa.IndexAddr); ok && u.Op == token.MUL {
			if call, ok := c.p.localValue(ia.X).(*ssa.Call); ok && strings.HasPrefix(CalleeKey(&call.Call), "strings.Split") {
				i, isK := constInt(ia.Index)
				return constText(call.Call.Args[1]) == ":" && isK && i == 0
			}
		}
	case *ssa.Call:
		switch CalleeKey(&u.Call) {
		case "strings.TrimSpace", "strings.ToLower", "strings.ToUpper":
			return c.colonFree(u.Call.Args[0], d+1)
		}
	}
	if n := c.p.resolveStep(v); n != nil && n != v {
		return c.colonFree(n, d+1)
	}
	return false
}

// spaceFree: the text contains no spaces.
func (c *imgCheck) spaceFree(v ssa.Value, d int) bool {
	if d > 30 || v == nil {
		return false
	}
	if t := constText(v); t != "\x00" {
		return !strings.Contains(t, " ")
	}
	switch u := v.(type) {
	case *ssa.Phi:
		for _, e := range u.Edges {
			if e != v && !c.spaceFree(e, d+1) {
				return false
			}
		}
		return true
	case *ssa.BinOp:
		return u.Op == token.ADD && c.spaceFree(u.X, d+1) && c.spaceFree(u.Y, d+1)
	case *ssa.Convert:
		return c.spaceFree(u.X, d+1)
	case *ssa.Slice:
		return c.spaceFree(u.X, d+1)
	case *ssa.Index:
		return c.spaceFree(u.X, d+1)
	case *ssa.UnOp:
		if ia, ok := u.X.(*ssa.IndexAddr); ok && u.Op == token.MUL {
			return c.spaceFree(ia.X, d+1)
		}
	case *ssa.Call:
		switch CalleeKey(&u.Call) {
		case "strings.ReplaceAll":
			to := constText(u.Call.Args[2])
			if to == "\x00" || strings.Contains(to, " ") {
				return false
			}
			return constText(u.Call.Args[1]) == " " || c.spaceFree(u.Call.Args[0], d+1)
		case "strings.ToUpper", "strings.ToLower", "strings.Title", "unicode.ToUpper", "strings.TrimSpace":
			return c.spaceFree(u.Call.Args[0], d+1)
		case "(*strings.Replacer).Replace":
			if nr, ok := c.p.resolve(u.Call.Args[0]).(*ssa.Call); ok && CalleeKey(&nr.Call) == "strings.NewReplacer" {
				vs := variadicArgs(nr.Call.Args[0])
				for i := 0; i+1 < len(vs); i += 2 {
					if constText(vs[i]) == " " && !strings.Contains(constText(vs[i+1]), " ") {
						return true
					}
				}
			}
			return false
		}
		if f := u.Call.StaticCallee(); f != nil && c.p.IsRepoFn(f) && f.Signature.Results().Len() == 1 {
			for _, b := range f.Blocks {
				if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && !c.spaceFree(ret.Results[0], d+1) {
					return false
				}
			}
			return true
		}
		return false
	case *ssa.Parameter:
		sites, known := c.p.sitesOf(u.Parent())
		if !known || len(sites) == 0 {
			return false
		}
		for _, s := range sites {
			if a := siteArg(s, u); a == nil || !c.spaceFree(a, d+1) {
				return false
			}
		}
		return true
	}
	if n := c.p.resolveStep(v); n != nil && n != v {
		return c.spaceFree(n, d+1)
	}
	return false
}

// --- formulas ---

// notEmpty leaves out what happens with empty names.
func notEmpty(pred, b *ssa.BasicBlock, _ *shapeFrame) bool {
	if pred == nil {
		for x := b; x.Idom() != nil; x = x.Idom() {
			if len(x.Preds) == 1 && !notEmpty(x.Preds[0], x, nil) {
				return false
			}
		}
		return true
	}
	iff, ok := pred.Instrs[len(pred.Instrs)-1].(*ssa.If)
	if !ok || pred.Succs[0] == pred.Succs[1] {
		return true
	}
	bo, ok := iff.Cond.(*ssa.BinOp)
	if !ok || bo.Op != token.EQL && bo.Op != token.NEQ || constText(bo.Y) != "" && constText(bo.X) != "" {
		return true
	}
	return (bo.Op == token.EQL) != (pred.Succs[0] == b)
}

func (c *imgCheck) formulas() {
	sites := map[*ssa.Call]map[int]bool{}
	for _, rd := range c.sources() {
		sh := &shaper{p: c.p, live: notEmpty}
		for _, s := range sh.ev2(rd.v, rd.fr) {
			for _, q := range s {
				e, ok := q.v.(*ssa.Extract)
				if !ok {
					continue
				}
				call, ok := e.Tuple.(*ssa.Call)
				if !ok {
					continue
				}
				relative := false
				if CalleeKey(&call.Call) == "path/filepath.Rel" {
					relative = true
					base, target := call.Call.Args[0], call.Call.Args[1]
					b, _ := c.down(base, q.fr)
					if fv := settingField(b); fv == nil || fv.Name() != "CacheDir" {
						c.bad("relative:"+rd.fn.Name(), rd.at, "the path of a formula's image in a page is not relative to the cache")
					}
					v, _ := c.down(target, q.fr)
					if e, ok = v.(*ssa.Extract); !ok {
						continue
					}
					if call, ok = e.Tuple.(*ssa.Call); !ok {
						continue
					}
				}
				if strings.HasSuffix(CalleeKey(&call.Call), ".RenderMath") {
					if !relative || len(s) != 1 {
						c.bad("relative:"+rd.fn.Name(), rd.at, "the path of a formula's image in a page is not the path of the file relative to the cache")
					}
					if sites[call] == nil {
						sites[call] = map[int]bool{}
					}
					sites[call][e.Index] = true
				} else {
					c.bad("formula:"+rd.fn.Name(), rd.at, "undecided: which file a formula refers to")
				}
			}
		}
	}
	if len(sites) == 0 {
		c.bad("formula", nil, "undecided: the images of formulas were not found in pages")
	}
	for call, idx := range sites {
		for _, f := range c.p.Callees(&call.Call) {
			if len(f.Blocks) == 0 || !c.p.IsRepoFn(f) || strings.Contains(c.p.Pos(f.Pos()), "mock") {
				continue
			}
			for i := range idx {
				c.rendered(f, i)
			}
			// the file of which the size is read
			for _, cs := range CallSites(call.Parent()) {
				k := CalleeKey(cs.Common())
				if strings.HasPrefix(k, "wiki2book/image.") && len(cs.Common().Args) == 1 {
					if e, ok := c.p.resolve(cs.Common().Args[0]).(*ssa.Extract); ok && e.Tuple == ssa.Value(call) {
						c.vector(f, e.Index, cs)
					}
				}
			}
		}
	}
}

// down follows parameters to the arguments of the frame.
func (c *imgCheck) down(v ssa.Value, fr *shapeFrame) (ssa.Value, *shapeFrame) {
	for d := 0; d < 20; d++ {
		if q, ok := v.(*ssa.Parameter); ok {
			if a, up, ok := frameArg(q, fr); ok {
				v, fr = a, up
				continue
			}
			return v, fr
		}
		if settingField(v) != nil {
			return v, fr
		}
		n := c.p.resolveStep(v)
		if n == nil || n == v {
			return v, fr
		}
		v = n
	}
	return v, fr
}

// files lists what a result of the function can be on success.
func (c *imgCheck) files(f *ssa.Function, i int, visit func(ret *ssa.Return, v ssa.Value)) {
	for _, b := range f.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || errorReturn(ret) || i >= len(ret.Results) {
			continue
		}
		for _, v := range phiEdges(resultOf(ret, i)) {
			visit(ret, c.p.localValue(v))
		}
	}
}

// download: the value is the path of a file downloaded into the image directory; its name is returned.
func (c *imgCheck) download(v ssa.Value, f *ssa.Function, depth int) (ssa.Value, *ssa.Call) {
	e, ok := v.(*ssa.Extract)
	if !ok {
		return nil, nil
	}
	call, ok := e.Tuple.(*ssa.Call)
	if !ok || e.Index != 0 || !strings.HasSuffix(CalleeKey(&call.Call), ").DownloadAndCache") {
		return nil, nil
	}
	args := call.Call.Args
	if constText(c.p.resolve(args[len(args)-2])) != c.dir {
		return nil, nil
	}
	return args[len(args)-1], call
}

func (c *imgCheck) ending(name ssa.Value) string {
	sh := &shaper{p: c.p}
	out := ""
	for i, s := range sh.eval(name) {
		if len(s) < 2 || s[len(s)-1].v != nil {
			return ""
		}
		if i > 0 && s[len(s)-1].lit != out {
			return ""
		}
		out = s[len(s)-1].lit
	}
	return out
}

// rendered: the result is a file produced on the way to it.
func (c *imgCheck) rendered(f *ssa.Function, i int) {
	c.files(f, i, func(ret *ssa.Return, v ssa.Value) {
		c.r.Count("files of formulas", 1)
		if name, dl := c.download(v, f, 0); dl != nil {
			if !dl.Block().Dominates(ret.Block()) && len(phiEdges(resultOf(ret, i))) == 1 {
				c.bad("rendered:"+f.Name(), ret, "the image of a formula is not downloaded in each case")
			}
			if end := c.ending(name); end != ".svg" && end != ".png" {
				c.bad("rendered:"+f.Name(), ret, "the image of a formula is stored without its type")
			}
			for _, site := range CallSites(f) {
				call, ok := site.(*ssa.Call)
				if !ok || !call.Block().Dominates(ret.Block()) {
					continue
				}
				if in, out, _, ok := c.conversion(&call.Call); ok && c.p.vkey(out) != c.p.vkey(v) {
					if _, from := c.download(c.p.localValue(in), f, 0); from == dl {
						c.bad("rendered:"+f.Name(), ret, "a page refers to the image of a formula from before its conversion")
					}
				}
			}
			return
		}
		// written by a conversion
		for _, site := range CallSites(f) {
			call, ok := site.(*ssa.Call)
			if !ok {
				continue
			}
			in, out, _, ok := c.conversion(&call.Call)
			if !ok || c.p.vkey(out) != c.p.vkey(v) || !call.Block().Dominates(ret.Block()) {
				continue
			}
			if _, dl := c.download(c.p.localValue(in), f, 0); dl == nil {
				c.bad("rendered:"+f.Name(), ret, "undecided: from which file the image of a formula is made")
			}
			if c.p.vkey(in) == c.p.vkey(out) {
				c.bad("rendered:"+f.Name(), ret, "the image of a formula is overwritten by its own conversion")
			}
			return
		}
		c.bad("rendered:"+f.Name(), ret, "a page refers to an image of a formula that is not produced")
	})
}

// vector: the result is the vector image.
func (c *imgCheck) vector(f *ssa.Function, i int, at ssa.Instruction) {
	c.files(f, i, func(ret *ssa.Return, v ssa.Value) {
		name, dl := c.download(v, f, 0)
		if dl == nil || c.ending(name) != ".svg" {
			c.bad("vector:"+f.Name(), at, "the size of a formula is read from a file that is not its vector image")
		}
	})
}

// --- where pages are resolved ---

func (c *imgCheck) drivers() {
	n := 0
	for _, fn := range c.p.Funcs {
		if !inPkg(fn, "generator") {
			continue
		}
		for _, site := range CallSites(fn) {
			cc := site.Common()
			switch k := CalleeKey(cc); {
			case k == "wiki2book/util.Execute":
				n++
				if fv := settingField(c.p.localValue(cc.Args[1])); fv == nil || fv.Name() != "CacheDir" {
					c.bad("resolved:"+fn.Name(), site, "the program making the book doesn't run in the cache directory, to which the images of pages are relative")
				}
			case strings.HasSuffix(k, ".Epub).EmbedImages"):
				n++
				chdir := false
				for _, s2 := range CallSites(fn) {
					if CalleeKey(s2.Common()) == "os.Chdir" && s2.Block().Dominates(site.Block()) {
						fv := settingField(c.p.localValue(s2.Common().Args[0]))
						chdir = chdir || fv != nil && fv.Name() == "CacheDir"
					}
				}
				if !chdir {
					c.bad("resolved:EmbedImages", site, "the images of pages are searched relative to the working directory although they are relative to the cache directory")
				}
			}
		}
	}
	c.r.Count("programs making books", n)
	c.r.AtLeast("programs making books", 1)
}
