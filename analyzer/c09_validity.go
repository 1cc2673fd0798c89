package main

import (
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C09", Title: "invalid settings are rejected before any work starts",
		Rule: "per documented range or set of values, over all paths of the validation: a path that does not end in the error handler has facts that put the setting into its documented values, and every call of the error handler is on paths whose facts exclude a documented value of some setting; the error handler ends the program; on every path of every command the validation of the effective settings follows the last merge and precedes the first use",
		Run:  runC09})
}

type validSpec struct {
	fields []string
	enums  [][]string // allowed values (or combinations) of the fields
	lo, hi *int64
	tmpl   string // "optional", "mandatory"
}

func i64(v int64) *int64 { return &v }

func validSpecs() []validSpec {
	return []validSpec{
		{fields: []string{"OutputType", "OutputDriver"}, enums: [][]string{{"epub2", "pandoc"}, {"epub3", "pandoc"}, {"epub3", "internal"}, {"stats-json", "internal"}, {"stats-txt", "internal"}}},
		{fields: []string{"MathConverter"}, enums: [][]string{{"none"}, {"wikimedia"}, {"template"}}},
		{fields: []string{"CacheEvictionStrategy"}, enums: [][]string{{"none"}, {"lru"}, {"largest"}}},
		{fields: []string{"TocDepth"}, lo: i64(0), hi: i64(6)},
		{fields: []string{"WorkerThreads"}, lo: i64(1)},
		{fields: []string{"CacheMaxSize"}, lo: i64(1)},
		{fields: []string{"CacheMaxAge"}, lo: i64(1)},
		{fields: []string{"CommandTemplateSvgToPng"}, tmpl: "optional"},
		{fields: []string{"CommandTemplateMathSvgToPng"}, tmpl: "mandatory"},
		{fields: []string{"CommandTemplateImageProcessing"}, tmpl: "optional"},
		{fields: []string{"CommandTemplatePdfToPng"}, tmpl: "optional"},
		{fields: []string{"CommandTemplateWebpToPng"}, tmpl: "optional"},
	}
}

// possible values of an enumerated setting in a state: nil means not restricted to known values.
func possibleValues(s *State, v *Term) (map[string]bool, map[string]bool) {
	ts := s.e.TS
	not := map[string]bool{}
	var in map[string]bool
	if x, ok := v.StrVal(); ok {
		return map[string]bool{x: true}, not
	}
	for f, b := range s.facts {
		switch {
		case f.op == "==" && (f.args[0] == v || f.args[1] == v):
			o := f.args[0]
			if o == v {
				o = f.args[1]
			}
			if x, ok := o.StrVal(); ok {
				if b {
					in = map[string]bool{x: true}
				} else {
					not[x] = true
				}
			}
		case f.op == "inset" && f.args[0] == v:
			set := map[string]bool{}
			all := true
			for _, a := range f.args[1:] {
				x, ok := a.StrVal()
				all = all && ok
				set[x] = true
			}
			if all && b && in == nil {
				in = set
			} else if all && !b {
				for x := range set {
					not[x] = true
				}
			}
		}
	}
	_ = ts
	return in, not
}

type verdict int

const (
	vValid verdict = iota
	vInvalid
	vUnknown
)

// judge decides from the facts of a state whether the settings of the group are inside their documented values.
func (sp validSpec) judge(s *State, vals []*Term) verdict {
	ts := s.e.TS
	switch {
	case sp.enums != nil:
		var ins, nots []map[string]bool
		for _, v := range vals {
			in, not := possibleValues(s, v)
			ins, nots = append(ins, in), append(nots, not)
		}
		fits := func(combo []string) bool {
			for i, x := range combo {
				if ins[i] != nil && !ins[i][x] || nots[i][x] {
					return false
				}
			}
			return true
		}
		anyValid := false
		for _, c := range sp.enums {
			anyValid = anyValid || fits(c)
		}
		if !anyValid {
			return vInvalid
		}
		// all possible combinations allowed?
		for i := range vals {
			if ins[i] == nil {
				return vUnknown
			}
		}
		allowed := map[string]bool{}
		for _, c := range sp.enums {
			allowed[strings.Join(c, "|")] = true
		}
		combos := []string{""}
		for i := range vals {
			var next []string
			for x := range ins[i] {
				if nots[i][x] {
					continue
				}
				for _, c := range combos {
					if i > 0 {
						next = append(next, c+"|"+x)
					} else {
						next = append(next, x)
					}
				}
			}
			combos = next
		}
		for _, c := range combos {
			if !allowed[c] {
				return vUnknown
			}
		}
		return vValid
	case sp.tmpl != "":
		v := vals[0]
		if s.Known(s.e.Eq(v, ts.Str("")), true) {
			if sp.tmpl == "optional" {
				return vValid
			}
			return vInvalid
		}
		nonEmpty := sp.tmpl == "mandatory" || s.Known(s.e.Eq(v, ts.Str("")), false)
		ok := true
		for _, ph := range []string{"{INPUT}", "{OUTPUT}"} {
			switch s.decide(ts.mk("call", "strings.Contains", nil, nil, nil, v, ts.Str(ph))) {
			case 0:
				if nonEmpty {
					return vInvalid
				}
				ok = false
			case -1:
				ok = false
			}
		}
		if ok {
			return vValid
		}
		return vUnknown
	default:
		lo, hi, hasLo, hasHi := s.bounds(vals[0])
		if x, ok := vals[0].IntVal(); ok {
			lo, hi, hasLo, hasHi = x, x, true, true
		}
		if sp.lo != nil && hasHi && hi < *sp.lo || sp.hi != nil && hasLo && lo > *sp.hi {
			return vInvalid
		}
		if (sp.lo == nil || hasLo && lo >= *sp.lo) && (sp.hi == nil || hasHi && hi <= *sp.hi) {
			return vValid
		}
		return vUnknown
	}
}

func runC09(p *Program, r *Report) {
	r.Assume = []string{"sigolo.FatalCheck ends the program for an error that is not nil"}
	ci := configOf(p, r)
	if ci == nil {
		return
	}
	idx := map[string]int{}
	for i := 0; i < ci.st.NumFields(); i++ {
		idx[ci.st.Field(i).Name()] = i
	}
	// the handler of invalid settings ends the program
	type siteInfo struct {
		at                string
		invalid, otherwis map[int]bool
		loop              bool
		example           string
	}
	sites := map[string]*siteInfo{}
	for gi, sp := range validSpecs() {
		gi, sp := gi, sp
		var fs []int
		for _, n := range sp.fields {
			i, ok := idx[n]
			if !ok {
				r.Undecided("setting:"+n, "-", "the setting %s was not found", n)
				return
			}
			fs = append(fs, i)
		}
		name := strings.Join(sp.fields, "+")
		e := NewEngine(p)
		c := e.TS.Sym("$c")
		var vals []*Term
		for _, i := range fs {
			vals = append(vals, e.TS.mk("deref", "", nil, nil, nil, ci.fieldAddr(e, c, i)))
		}
		mentions := func(t *Term) bool {
			for _, i := range fs {
				if ci.mentionsField(t, i) {
					return true
				}
			}
			return t.Any(func(x *Term) bool { return x.op == "res" })
		}
		e.Inline = func(fn *ssa.Function) bool {
			return fnPkg(fn) == ci.typ.Obj().Pkg() || fn.Parent() != nil || smallPure(fn)
		}
		e.KeepFact = mentions
		e.PinFact = func(s *State, t *Term) bool {
			for _, i := range fs {
				if ci.mentionsField(t, i) {
					return true
				}
			}
			return false
		}
		e.OnCall = func(ev *CallEv) ([]*Term, bool) {
			if strings.HasPrefix(ev.Key, "slices.Contains") && !strings.HasPrefix(ev.Key, "slices.ContainsFunc") {
				if els, ok := e.Elements(ev.S, ev.Args[0]); ok {
					return []*Term{e.TS.App("inset", append([]*Term{ev.Args[1]}, els...)...)}, true
				}
			}
			return nil, false
		}
		e.OnReturn = func(s *State, rs []*Term, ret *ssa.Return) {
			r.Count("accepting_paths", 1)
			if v := sp.judge(s, vals); v != vValid {
				r.Bad("accepted:"+name, p.At(ret), "the validation can accept a value of %s outside its documented values (%s); path %s", name, factsOf(s, mentions), s.PathString())
			}
		}
		e.OnEnd = func(s *State, kind string, in ssa.Instruction) {
			if kind != "fatal" && kind != "panic" {
				return
			}
			var k []string
			loop := false
			at := ""
			for d, f := range s.frames {
				pos := f.pc
				if pos >= len(f.block.Instrs) {
					pos = len(f.block.Instrs) - 1
				}
				x := f.block.Instrs[pos]
				if d == 0 {
					at = p.At(x)
				}
				k = append(k, p.At(x)+"#"+itoa(e.iid(x)))
				if inLoop(f.block) {
					loop = true
				}
			}
			key := strings.Join(k[:1], ">")
			if len(k) > 1 {
				key = strings.Join(k, ">")
			}
			// identify by position so that runs of different settings agree
			key = stripIDs(key)
			si := sites[key]
			if si == nil {
				si = &siteInfo{at: at, invalid: map[int]bool{}, otherwis: map[int]bool{}, loop: loop}
				sites[key] = si
			}
			r.Count("rejecting_states", 1)
			if sp.judge(s, vals) == vInvalid {
				si.invalid[gi] = true
			} else {
				si.otherwis[gi] = true
				si.example = s.PathString()
			}
		}
		e.Run(ci.assert, map[string]*Term{ci.assert.Params[0].Name(): c}, nil)
		r.EngineStats(e, name)
		r.Count("validated_groups", 1)
	}
	var keys []string
	for k := range sites {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		si := sites[k]
		r.Count("rejections", 1)
		ok := si.loop
		for g := range si.invalid {
			if !si.otherwis[g] {
				ok = true
			}
		}
		if !ok {
			r.Bad("rejected:"+si.at, si.at, "the validation rejects settings on a path on which no setting is known to be outside its documented values; path %s", si.example)
		}
	}
	r.AtLeast("rejections", 8)
	r.AtLeast("accepting_paths", 12)
	ci.checkFlow(p, r, "C09")
	ci.checkNamedFiles(p, r)
}

func stripIDs(k string) string {
	parts := strings.Split(k, ">")
	for i, x := range parts {
		parts[i], _, _ = strings.Cut(x, "#")
	}
	return strings.Join(parts, ">")
}

func inLoop(b *ssa.BasicBlock) bool {
	// b can reach itself
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(x *ssa.BasicBlock) bool
	walk = func(x *ssa.BasicBlock) bool {
		for _, s := range x.Succs {
			if s == b {
				return true
			}
			if !seen[s] {
				seen[s] = true
				if walk(s) {
					return true
				}
			}
		}
		return false
	}
	return walk(b)
}

func factsOf(s *State, keep func(*Term) bool) string {
	var fs []string
	for f, v := range s.facts {
		if !keep(f) {
			continue
		}
		if v {
			fs = append(fs, f.String())
		} else {
			fs = append(fs, "not "+f.String())
		}
	}
	sort.Strings(fs)
	return strings.Join(fs, ", ")
}
