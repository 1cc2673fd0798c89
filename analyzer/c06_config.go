package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C06", Title: "settings: project over configuration file over default, command line on top",
		Rule: "per setting, over all paths of the merge function: the effective value is replaced by the merged one if and only if the latter differs from the default, and by nothing else; the configuration file is decoded into the effective settings, a project file into defaults; on every path of every command the project is merged before the command line, both before the first use of a setting; nothing else writes settings",
		Run:  runC06})
	register(&Check{ID: "C07", Title: "every setting can be set in the file and on the command line, and has an effect",
		Rule: "bijection between the fields of the settings, their JSON names and the flags bound to exactly this field with its own default, on the flag set shared by all commands; every field is compared in the merge and read by code reachable from the commands outside the settings package",
		Run:  runC07})
	register(&Check{ID: "C08", Title: "relative paths mean the same file no matter where and how they are given",
		Rule: "value terms of every path setting after loading and merging: resolved against the directory of the file it came from (identity on empty and absolute paths), for the command line against the working directory at start; the project's settings are merged in the project's directory; no other setting is changed by a path operation",
		Run:  runC08})
}

// order-sensitive list settings: the documented meaning depends on the order
var orderedSettings = map[string]bool{"WikipediaImageArticleHosts": true}

// settings holding paths, documented as relative to the file they are given in
var pathSettings = map[string]bool{"CacheDir": true, "StyleFile": true, "CoverImage": true, "PandocDataDir": true, "FontFiles": true}

// settings holding a program: a path only if it contains a separator
var programSettings = map[string]bool{"PandocExecutable": true}

type configInfo struct {
	typ    *types.Named
	st     *types.Struct
	merge  *ssa.Function
	load   *ssa.Function
	loadPr *ssa.Function
	assert *ssa.Function
	newDef *ssa.Function
	cur    *ssa.Global
	def    *ssa.Global
	cli    *ssa.Global
}

func configOf(p *Program, r *Report) *configInfo {
	ci := &configInfo{}
	pkg := p.Pkg("config")
	if pkg == nil {
		r.Undecided("anchor:config", "-", "package config not found")
		return nil
	}
	if t := pkg.Type("Configuration"); t != nil {
		ci.typ = t.Type().(*types.Named)
		ci.st, _ = ci.typ.Underlying().(*types.Struct)
	}
	ci.merge, ci.load, ci.loadPr, ci.newDef = p.Func("config", "MergeIntoCurrentConfig"), p.Func("config", "LoadConfig"), p.Func("config", "LoadProject"), p.Func("config", "NewDefaultConfig")
	if ci.typ != nil {
		ci.assert = p.Func("config", "Configuration.AssertValidity")
		if ci.assert == nil {
			ci.assert = p.methodOf(types.NewPointer(ci.typ), pkg.Pkg, "AssertValidity")
		}
	}
	for _, g := range []struct {
		dst **ssa.Global
		rel string
	}{{&ci.cur, "config"}, {&ci.cli, ""}} {
		sp := p.Pkg(g.rel)
		for _, m := range sp.Members {
			gl, ok := m.(*ssa.Global)
			if !ok || !isConfigPtr(gl.Type().(*types.Pointer).Elem(), ci) {
				continue
			}
			if g.rel == "config" && m.Object().Exported() || g.rel == "" {
				*g.dst = gl
			} else if g.rel == "config" {
				ci.def = gl
			}
		}
	}
	if ci.st == nil || ci.merge == nil || ci.load == nil || ci.loadPr == nil || ci.assert == nil || ci.newDef == nil || ci.cur == nil || ci.def == nil || ci.cli == nil {
		r.Undecided("anchor:config", "-", "the settings type, its merge, load, validity or default function or one of its three instances was not found")
		return nil
	}
	return ci
}

func isConfigPtr(t types.Type, ci *configInfo) bool {
	p, ok := types.Unalias(t).(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := types.Unalias(p.Elem()).(*types.Named)
	return ok && n == ci.typ
}

func globalTerm(e *Engine, g *ssa.Global) *Term { return e.val(nil, g) }

func (ci *configInfo) fieldAddr(e *Engine, base *Term, i int) *Term {
	return e.TS.mk("field&", ci.st.Field(i).Name()+"#"+itoa(i), nil, nil, nil, base)
}

// mentionsField: the term reads field i of one of the settings objects.
func (ci *configInfo) mentionsField(t *Term, i int) bool {
	n := ci.st.Field(i).Name() + "#" + itoa(i)
	return t.Any(func(x *Term) bool {
		return (x.op == "field&" || x.op == "field") && x.name == n || x.op == "sym" && (x.name == "$file."+ci.st.Field(i).Name() || x.name == "$old."+ci.st.Field(i).Name())
	})
}

// configModels gives the path helpers and list comparisons symbolic results.
func configModels(e *Engine, ev *CallEv) ([]*Term, bool) {
	ts := e.TS
	switch strings.TrimPrefix(ev.Key, modPath+"/") {
	case "util.ToAbsolutePath":
		return []*Term{ts.App("abs", ev.Args[0]), e.freshResults(ev.S, ev, 1)[0]}, true
	case "util.ToAbsolutePaths":
		return []*Term{ts.App("abs", ev.Args[0]), e.freshResults(ev.S, ev, 1)[0]}, true
	case "util.ToAbsolutePathWithBasedir":
		return []*Term{ts.App("absIn", ev.Args[0], ev.Args[1]), e.freshResults(ev.S, ev, 1)[0]}, true
	case "strings.Contains":
		// an absolute path contains a separator
		if a := ev.Args[0]; (a.op == "abs" || a.op == "absIn") && ev.Args[1] == ts.Str("/") {
			return []*Term{ts.Bool(true)}, true
		}
	case "slices.Equal", "reflect.DeepEqual":
		return []*Term{ts.App("samelist", stripIface(ev.Args[0]), stripIface(ev.Args[1]))}, true
	}
	if strings.HasPrefix(ev.Key, "slices.Equal[") {
		return []*Term{ts.App("samelist", ev.Args[0], ev.Args[1])}, true
	}
	if strings.HasPrefix(ev.Key, modPath+"/util.EqualsInAnyOrder") {
		return []*Term{ts.App("sameset", ev.Args[0], ev.Args[1])}, true
	}
	return nil, false
}

func stripAbs(t *Term) *Term {
	for {
		t = stripIface(t)
		switch t.op {
		case "abs":
			t = t.args[0]
		case "absIn":
			t = t.args[1]
		default:
			return t
		}
	}
}

type mergeFact struct {
	val      *Term // effective value at the return
	same     int   // merged value equals default: 1, 0, -1 unknown
	at       string
	path     string
	elems    string // element-wise changes of a list: "abs"
	validity bool   // checked after the last change
	facts    string
}

// mergeRun analyses the merge function for one setting.
func (ci *configInfo) mergeRun(p *Program, r *Report, i int) (out []mergeFact, wrongCompare string, cF, oldF *Term) {
	e := NewEngine(p)
	cur, def, c := e.TS.Sym("$Current"), e.TS.Sym("$Default"), e.TS.Sym("$c")
	name := ci.st.Field(i).Name()
	cAddr, dAddr, curAddr := ci.fieldAddr(e, c, i), ci.fieldAddr(e, def, i), ci.fieldAddr(e, cur, i)
	typ := ci.st.Field(i).Type()
	isConfigCall := func(fn *ssa.Function) bool { return fnPkg(fn) == ci.typ.Obj().Pkg() && fn != ci.assert }
	e.Inline = func(fn *ssa.Function) bool { return isConfigCall(fn) || fn.Parent() != nil || smallPure(fn) }
	e.KeepFact = func(t *Term) bool { return ci.mentionsField(t, i) }
	e.PinFact = func(s *State, t *Term) bool { return ci.mentionsField(t, i) }
	e.KeepStore = func(a *Term) bool {
		root := rootOf(a)
		if root == cur || root.Contains(cur) {
			return a == curAddr || isSubAddr(a, curAddr) || root != cur
		}
		return true
	}
	e.OnCall = func(ev *CallEv) ([]*Term, bool) {
		if ev.Callee == ci.assert {
			if len(ev.Args) > 0 && ev.Args[0] == cur {
				ev.S.auto["valid"] = "1"
			}
			return nil, true
		}
		if strings.HasSuffix(ev.Key, ".Print") && len(ev.Args) == 1 {
			return nil, true
		}
		return configModels(e, ev)
	}
	e.OnStore = func(s *State, addr, val *Term, in ssa.Instruction) {
		if rootOf(addr) == cur || addr.Contains(cur) {
			s.auto["valid"] = ""
		}
		if addr == curAddr {
			s.auto["elems"] = ""
		}
		if rootOf(addr) == c || rootOf(addr) == def {
			r.Bad("source-changed:"+fieldName(addr.name), p.At(in), "merging changes the settings that are merged or the defaults (%s)", addr)
		}
		if addr.op == "index&" && ci.mentionsField(addr, i) {
			v := stripAbs(val)
			if (v.op == "deref" || v.op == "derefv" || v.op == "index") && elemOf(v, addr) {
				s.auto["elems"] = "abs"
				if val.op != "abs" {
					s.auto["elems"] = val.op
				}
			} else {
				r.Bad("element:"+name, p.At(in), "an element of %s is replaced by %s, which is not the same element as a path", name, val)
			}
		}
	}
	e.OnReturn = func(s *State, rs []*Term, ret *ssa.Return) {
		if s.top().fn != ci.merge && len(s.frames) > 1 {
			return
		}
		v := e.load(s, curAddr, typ)
		a, b := e.load(s, cAddr, typ), e.load(s, dAddr, typ)
		cF, oldF = a, e.TS.mk("deref", "", nil, nil, nil, curAddr)
		same := -1
		eqs := []*Term{e.Eq(a, b), e.TS.App("samelist", a, b), e.TS.App("samelist", b, a), e.TS.App("sameset", a, b), e.TS.App("sameset", b, a)}
		for k, q := range eqs {
			if d := s.decide(q); d >= 0 {
				same = d
				if k >= 3 && orderedSettings[name] {
					wrongCompare = "without regard to the order"
				}
			}
		}
		var fs []string
		for f, v := range s.facts {
			if v {
				fs = append(fs, f.String())
			} else {
				fs = append(fs, "!"+f.String())
			}
		}
		sort.Strings(fs)
		out = append(out, mergeFact{val: v, same: same, at: p.At(ret), path: s.PathString(), elems: s.auto["elems"], validity: s.auto["valid"] == "1", facts: strings.Join(fs, " && ")})
	}
	e.Run(ci.merge, map[string]*Term{ci.merge.Params[0].Name(): c}, func(s *State) {
		s.mem[globalTerm(e, ci.cur)] = cur
		s.mem[globalTerm(e, ci.def)] = def
	})
	r.EngineStats(e, "merge")
	return
}

func elemOf(v, addr *Term) bool {
	if v.op == "index" {
		return len(v.args) == 2 && v.args[1] == addr.args[1]
	}
	x := v.args[0]
	return x.op == "index&" && x.args[1] == addr.args[1] && (x.args[0] == addr.args[0] || fieldOfAddr(x) != "" && fieldOfAddr(x) == fieldOfAddr(addr))
}

func fieldOfAddr(a *Term) string {
	n := ""
	a.Any(func(x *Term) bool {
		if x.op == "field&" && n == "" {
			n = x.name
		}
		return false
	})
	return n
}

func runC06(p *Program, r *Report) {
	r.Assume = []string{"a value equal to the default counts as not given (documented at MergeIntoCurrentConfig)", "encoding/json sets exactly the fields named in the input; cobra runs PersistentPreRun before Run and pflag sets only flags that are given"}
	ci := configOf(p, r)
	if ci == nil {
		return
	}
	for i := 0; i < ci.st.NumFields(); i++ {
		name := ci.st.Field(i).Name()
		facts, wrong, cF, oldF := ci.mergeRun(p, r, i)
		r.Count("settings", 1)
		if len(facts) == 0 {
			r.Undecided("merge:"+name, "-", "no path of the merge function returns")
		}
		if wrong != "" {
			r.Bad("compare:"+name, p.Pos(ci.merge.Pos()), "%s is compared with its default %s, so a differently ordered list is not taken over although its order matters", name, wrong)
		}
		taken, kept := false, false
		for _, f := range facts {
			r.Count("merge_paths", 1)
			v := stripAbs(f.val)
			switch {
			case v == cF && f.same == 0:
				taken = true
			case v == oldF && f.same == 1:
				kept = true
			case v == cF && f.same == 1:
				r.Bad("override:"+name, f.at, "the effective %s is overwritten although the merged value is the default; path %s", name, f.path)
			case v == cF:
				r.Bad("override:"+name, f.at, "the effective %s is overwritten on a path where the merged value is not known to differ from the default (%s); path %s", name, f.facts, f.path)
			case v == oldF && f.same == 0:
				r.Bad("ignored:"+name, f.at, "the merged %s is not taken over on a path where it differs from the default (%s); path %s", name, f.facts, f.path)
			case v == oldF:
				r.Bad("ignored:"+name, f.at, "the merged %s is not taken over on a path where it is not known to be the default (%s); path %s", name, f.facts, f.path)
			default:
				r.Bad("value:"+name, f.at, "after merging, %s has the value %s instead of its own former or merged value; path %s", name, f.val, f.path)
			}
		}
		if len(facts) > 0 && (!taken || !kept) {
			r.Bad("never:"+name, p.Pos(ci.merge.Pos()), "%s is taken over on %v and kept on %v path", name, taken, kept)
		}
	}
	r.AtLeast("settings", 34)
	ci.checkDefaults(p, r)
	ci.checkLoads(p, r, false)
	ci.checkWriters(p, r)
	ci.checkFlow(p, r, "C06")
	ci.checkOutput(p, r)
	r.AtLeast("output files chosen", 2)
}

// checkLoads analyses decoding of the configuration and the project file. paths: judge the path settings (C08) instead of the sources.
func (ci *configInfo) checkLoads(p *Program, r *Report, paths bool) {
	for i := 0; i < ci.st.NumFields(); i++ {
		i := i
		f := ci.st.Field(i)
		name := f.Name()
		for _, fn := range []*ssa.Function{ci.load, ci.loadPr} {
			fn := fn
			e := NewEngine(p)
			cur := e.TS.Sym("$Current")
			curAddr := ci.fieldAddr(e, cur, i)
			file := e.TS.Sym("$file." + name)
			e.Inline = func(c *ssa.Function) bool {
				return fnPkg(c) == ci.typ.Obj().Pkg() && c != ci.assert && c != ci.newDef && c != ci.merge || c.Parent() != nil || smallPure(c)
			}
			e.KeepFact = func(t *Term) bool {
				return ci.mentionsField(t, i) || t.Any(func(x *Term) bool { return x.op == "extract" || x.op == "res" })
			}
			e.KeepStore = func(a *Term) bool {
				if rootOf(a) == cur {
					return a == curAddr || isSubAddr(a, curAddr)
				}
				return true
			}
			e.OnCall = func(ev *CallEv) ([]*Term, bool) {
				s := ev.S
				switch {
				case ev.Callee == ci.newDef:
					return []*Term{e.TS.Sym("$D")}, true
				case ev.Callee == ci.assert:
					if len(ev.Args) > 0 && ev.Args[0] == cur {
						s.auto["valid"] = "1"
					}
					return nil, true
				case ev.Callee == ci.merge:
					return nil, true
				case ev.Key == "encoding/json.Unmarshal" || methodName(ev.Key) == "Decode":
					dst := stripIface(ev.Args[len(ev.Args)-1])
					rs := e.freshResults(s, ev, 1)
					if dst == cur {
						s.mem[curAddr] = file
						s.auto["decoded"] = "current"
						s.auto["valid"] = ""
						return rs, true
					}
					// a project: its embedded settings
					if st := structOf(projectPtr(ci)); st != nil {
						for k := 0; k < st.NumFields(); k++ {
							if types.Identical(st.Field(k).Type(), ci.typ) {
								emb := e.TS.mk("field&", st.Field(k).Name()+"#"+itoa(k), nil, nil, nil, dst)
								a := ci.fieldAddr(e, emb, i)
								old := e.load(s, a, f.Type())
								s.regs["old"] = old
								s.regs["proj"] = a
								for m := range s.mem {
									if m == emb {
										delete(s.mem, m)
									}
								}
								s.mem[a] = file
								s.auto["decoded"] = "project"
							}
						}
					}
					return rs, true
				}
				return configModels(e, ev)
			}
			e.OnStore = func(s *State, addr, val *Term, in ssa.Instruction) {
				if addr.op == "index&" && (addr.args[0] == file || addr.Contains(file)) {
					v := stripAbs(val)
					if elemOf(v, addr) || v.op == "index" {
						s.regs["elem"] = val
					} else if paths {
						r.Bad("element:"+name, p.At(in), "an element of %s is replaced by %s, which is not the same element as a path", name, val)
					}
				}
			}
			e.OnReturn = func(s *State, rs []*Term, ret *ssa.Return) {
				if s.KnownNonNil(rs[len(rs)-1]) {
					return
				}
				r.Count("load_paths", 1)
				if fn == ci.load {
					v := e.load(s, curAddr, f.Type())
					if !paths {
						if s.auto["decoded"] != "current" {
							r.Bad("load-target", p.At(ret), "the configuration file is not decoded into the effective settings")
						} else if stripAbs(v) != file {
							r.Bad("load:"+name, p.At(ret), "after loading the configuration file %s is %s instead of the value of the file (or its default)", name, v)
						}
						return
					}
					ci.judgeFilePath(p, r, s, fn, name, f, v, file, ret)
					return
				}
				if paths {
					return
				}
				if s.auto["decoded"] != "project" {
					r.Bad("project-target", p.At(ret), "the project file is not decoded into the returned project")
					return
				}
				if old := s.regs["old"]; !(old.op == "deref" && old.args[0] == ci.fieldAddr(e, e.TS.Sym("$D"), i)) {
					r.Bad("project-default:"+name, p.At(ret), "the project file is decoded into settings whose %s is %s instead of its default, so it would override the configuration file although it is not given", name, old)
				}
				if v := e.load(s, s.regs["proj"], f.Type()); stripAbs(v) != file {
					r.Bad("project-value:"+name, p.At(ret), "the loaded project has %s for %s instead of the value of its file", v, name)
				}
			}
			e.Run(fn, nil, func(s *State) { s.mem[globalTerm(e, ci.cur)] = cur })
			r.EngineStats(e, FnName(fn))
		}
	}
}

func projectPtr(ci *configInfo) types.Type {
	o := ci.typ.Obj().Pkg().Scope().Lookup("Project")
	if o == nil {
		return types.NewPointer(ci.typ)
	}
	return types.NewPointer(o.Type())
}

// judgeFilePath: a path setting of the configuration file is resolved against the directory of this file.
func (ci *configInfo) judgeFilePath(p *Program, r *Report, s *State, fn *ssa.Function, name string, f *types.Var, v, file *Term, ret *ssa.Return) {
	dirOK := func(d *Term) bool {
		d0 := d
		if d.op != "call" || d.name != "path/filepath.Dir" {
			return false
		}
		_ = d0
		x := d.args[0]
		return x.op == "abs" && x.args[0].op == "sym" && x.args[0].name == "$"+fn.Params[0].Name()
	}
	isList := false
	if _, ok := f.Type().Underlying().(*types.Slice); ok {
		isList = true
	}
	switch {
	case pathSettings[name] && isList:
		el := s.regs["elem"]
		if v.op == "absIn" && dirOK(v.args[0]) && v.args[1] == file {
			r.Count("file_paths_resolved", 1)
			r.Count("list_elements_resolved:"+name, 1)
			return
		}
		if v != file {
			r.Bad("file-path:"+name, p.At(ret), "%s of the configuration file becomes %s", name, v)
			return
		}
		if el != nil {
			if el.op != "absIn" || !dirOK(el.args[0]) {
				r.Bad("file-path:"+name, p.At(ret), "an element of %s of the configuration file becomes %s instead of being resolved (if relative) against the directory of this file", name, el)
			}
			r.Count("file_paths_resolved", 1)
			r.Count("list_elements_resolved:"+name, 1)
		}
	case pathSettings[name]:
		if v.op != "absIn" || !dirOK(v.args[0]) || v.args[1] != file {
			r.Bad("file-path:"+name, p.At(ret), "%s of the configuration file becomes %s instead of being resolved (if relative) against the directory of this file; path %s", name, v, s.PathString())
			return
		}
		r.Count("file_paths_resolved", 1)
	case programSettings[name]:
		has := s.decide(s.e.TS.mk("call", "strings.Contains", nil, nil, nil, file, s.e.TS.Str("/")))
		if v == file && has == 1 || v == file && has < 0 {
			r.Bad("file-program:"+name, p.At(ret), "%s of the configuration file stays relative although it may contain a path, so it depends on the working directory", name)
		} else if v != file && (has != 1 || v.op != "absIn" || !dirOK(v.args[0])) {
			r.Bad("file-program:"+name, p.At(ret), "%s of the configuration file becomes %s", name, v)
		} else {
			r.Count("file_paths_resolved", 1)
		}
	default:
		if v != file {
			r.Bad("file-value:"+name, p.At(ret), "%s is no path but becomes %s", name, v)
		}
	}
}

// checkWriters: nothing but defaults, decoding, merging and path resolution writes settings.
func (ci *configInfo) checkWriters(p *Program, r *Report) {
	for _, fn := range p.Funcs {
		inConfig := fnPkg(fn) == ci.typ.Obj().Pkg()
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				if g, ok := st.Addr.(*ssa.Global); ok && (g == ci.cur || g == ci.def || g == ci.cli) {
					r.Count("instance_stores", 1)
					if !isInit(fn) || !isCallOf(st.Val, ci.newDef) {
						r.Bad("instance:"+g.Name(), p.At(in), "%s is replaced in %s by something other than fresh default settings", g.Name(), FnName(fn))
					}
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || !isConfigPtr(fa.X.Type(), ci) {
					continue
				}
				r.Count("setting_stores", 1)
				if !inConfig {
					r.Bad("writer:"+FnName(fn)+":"+ci.st.Field(fa.Field).Name(), p.At(in), "%s changes the setting %s past the order of the sources", FnName(fn), ci.st.Field(fa.Field).Name())
				}
			}
		}
	}
	r.AtLeast("instance_stores", 3)
	// functions of the settings package that change settings are only used by loading, merging and defaults
	for _, fn := range p.Funcs {
		if fnPkg(fn) != ci.typ.Obj().Pkg() || fn == ci.merge || fn == ci.load || fn == ci.loadPr || fn == ci.newDef || fn.Parent() != nil {
			continue
		}
		if !writesSettings(fn, ci) {
			continue
		}
		for _, c := range p.CallersOf(fn) {
			par := c.Parent()
			if fnPkg(par) == ci.typ.Obj().Pkg() {
				continue
			}
			// outside: only on the command line settings, before they are merged (C08)
			if a := c.Common().Args; len(a) > 0 {
				if u, ok := a[0].(*ssa.UnOp); ok && u.X == ssa.Value(ci.cli) {
					continue
				}
				if par.Params != nil && onlyCalledWithCli(p, par, a[0], ci) {
					continue
				}
			}
			r.Bad("writer:"+FnName(par)+":"+fn.Name(), p.At(c), "%s changes settings with %s past the order of the sources", FnName(par), fn.Name())
		}
	}
}

// onlyCalledWithCli: v is a parameter of fn that every caller fills with the command line settings.
func onlyCalledWithCli(p *Program, fn *ssa.Function, v ssa.Value, ci *configInfo) bool {
	for i, prm := range fn.Params {
		if ssa.Value(prm) != v {
			continue
		}
		cs := p.CallersOf(fn)
		for _, c := range cs {
			u, ok := c.Common().Args[i].(*ssa.UnOp)
			if !ok || u.X != ssa.Value(ci.cli) {
				return false
			}
		}
		return len(cs) > 0
	}
	return false
}

func writesSettings(fn *ssa.Function, ci *configInfo) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if st, ok := in.(*ssa.Store); ok {
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok && isConfigPtr(fa.X.Type(), ci) {
					return true
				}
			}
		}
	}
	return false
}

func isInit(fn *ssa.Function) bool {
	return fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#")
}

func isCallOf(v ssa.Value, fn *ssa.Function) bool {
	c, ok := v.(*ssa.Call)
	return ok && c.Common().StaticCallee() == fn
}

// commandFns are the functions stored into the given fields of a cobra command.
func commandFns(p *Program, fields ...string) (out []*ssa.Function) {
	want := map[string]bool{}
	for _, f := range fields {
		want[f] = true
	}
	seen := map[*ssa.Function]bool{}
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				pt, ok := fa.X.Type().Underlying().(*types.Pointer)
				if !ok {
					continue
				}
				n, ok := types.Unalias(pt.Elem()).(*types.Named)
				if !ok || n.Obj().Name() != "Command" || n.Obj().Pkg() == nil || !strings.HasSuffix(n.Obj().Pkg().Path(), "spf13/cobra") {
					continue
				}
				if !want[n.Underlying().(*types.Struct).Field(fa.Field).Name()] {
					continue
				}
				var t *ssa.Function
				switch v := st.Val.(type) {
				case *ssa.MakeClosure:
					t = v.Fn.(*ssa.Function)
				case *ssa.Function:
					t = v
				}
				if t != nil && !seen[t] {
					seen[t] = true
					out = append(out, t)
				}
			}
		}
	}
	return
}

// readsSettings: fn itself or something it calls outside the settings package uses an effective setting.
func (ci *configInfo) readsSettings(p *Program, memo map[*ssa.Function]bool, fn *ssa.Function) bool {
	if v, ok := memo[fn]; ok {
		return v
	}
	for f := range p.Reach(fn) {
		if fnPkg(f) == ci.typ.Obj().Pkg() || !p.IsRepoFn(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if u, ok := in.(*ssa.UnOp); ok && u.X == ssa.Value(ci.cur) {
					memo[fn] = true
					return true
				}
			}
		}
	}
	memo[fn] = false
	return false
}

// checkFlow follows every command: order of the sources (C06), validation before use (C09), working directory (C08).
func (ci *configInfo) checkFlow(p *Program, r *Report, id string) {
	cmds := commandFns(p, "Run", "RunE")
	pre := commandFns(p, "PersistentPreRun", "PersistentPreRunE", "PreRun", "PreRunE")
	if len(cmds) == 0 || len(pre) == 0 {
		r.Undecided("commands", "-", "no functions of commands found")
		return
	}
	mergeValidates := true
	if id == "C09" {
		facts, _, _, _ := ci.mergeRun(p, r, 0)
		for _, f := range facts {
			if !f.validity {
				mergeValidates = false
			}
		}
	}
	memo := map[*ssa.Function]bool{}
	for _, fn := range append(append([]*ssa.Function{}, pre...), cmds...) {
		fn := fn
		isCmd := false
		for _, c := range cmds {
			isCmd = isCmd || c == fn
		}
		name := FnName(fn)
		e := NewEngine(p)
		curLoad := e.TS.mk("deref", "", nil, nil, nil, globalTerm(e, ci.cur))
		cliLoad := e.TS.mk("deref", "", nil, nil, nil, globalTerm(e, ci.cli))
		e.Inline = func(c *ssa.Function) bool {
			if fnPkg(c) == ci.typ.Obj().Pkg() {
				return false
			}
			if fnPkg(c).Path() != modPath {
				return smallPure(c)
			}
			// stop at the functions that already work with the settings
			return p.Reach(c)[ci.merge] || p.Reach(c)[ci.load] || p.Reach(c)[ci.loadPr] || c.Parent() != nil || smallPure(c) || callsKey(p, c, "os.Chdir") || writesSettingsOf(p, c, ci)
		}
		use := func(s *State, at, what string) {
			if !isCmd || s.auto["used"] != "" {
				return
			}
			s.auto["used"] = "1"
			r.Count("first_uses", 1)
			switch id {
			case "C06":
				if s.auto["cli"] == "" {
					r.Bad("use-before-merge:"+name, at, "a command uses a setting (%s) before the command line settings were merged; path %s", what, s.PathString())
				}
				if p.Reach(fn)[ci.loadPr] && s.auto["project"] == "" {
					r.Bad("use-before-project:"+name, at, "a command uses a setting (%s) before the settings of the project were merged; path %s", what, s.PathString())
				}
			case "C09":
				if s.auto["valid"] == "" {
					r.Bad("use-before-validation:"+name, at, "a command uses a setting (%s) before the effective settings were validated; path %s", what, s.PathString())
				}
			}
		}
		e.OnCall = func(ev *CallEv) ([]*Term, bool) {
			s := ev.S
			at := p.At(ev.Instr)
			if ev.Callee != nil && p.IsRepoFn(ev.Callee) && fnPkg(ev.Callee) == ci.typ.Obj().Pkg() {
				switch ev.Callee {
				case ci.load:
					r.Count("config_file_loads", 1)
					if id == "C06" && (s.auto["cli"] != "" || s.auto["project"] != "" || isCmd) {
						r.Bad("load-late:"+name, at, "the configuration file is loaded after settings of higher priority were merged, which it overrides; path %s", s.PathString())
					}
					s.auto["loaded"] = "1"
					s.auto["valid"] = ""
				case ci.merge:
					a := ev.Args[0]
					s.auto["valid"] = ""
					if mergeValidates {
						s.auto["valid"] = "1"
					}
					switch {
					case a == cliLoad:
						r.Count("cli_merges", 1)
						s.auto["cli"] = "1"
						if id == "C08" && s.auto["chdir"] != "" && s.auto["cliabs"] == "" {
							r.Bad("cli-path:"+name, at, "paths of the command line are resolved after the working directory was changed, so they are not relative to where the program was started; path %s", s.PathString())
						}
					case a.op == "field&" && fieldName(a.name) == ci.typ.Obj().Name():
						r.Count("project_merges", 1)
						s.auto["project"] = "1"
						if id == "C06" && s.auto["cli"] != "" {
							r.Bad("project-late:"+name, at, "the project is merged after the command line, which it overrides; path %s", s.PathString())
						}
						if id == "C08" && s.auto["dirok"] == "" {
							r.Bad("project-dir:"+name, at, "the project's settings are merged on a path where the working directory is not known to be the directory of the project file, so its relative paths mean other files; path %s", s.PathString())
						}
					default:
						if id == "C06" {
							r.Bad("unknown-source:"+name, at, "settings of an unknown source %s are merged", a)
						}
					}
				case ci.loadPr:
					rs := e.freshResults(s, ev, 2)
					a := ev.Args[0]
					// the directory part was split off: empty or entered
					if dir := splitFile(e, a); dir != nil {
						if s.Known(e.Eq(dir, e.TS.Str("")), true) || s.regs["cwd"] == dir && s.auto["chdirok"] != "n" {
							s.auto["dirok"] = "1"
						}
					}
					return rs, true
				case ci.assert:
					if ev.Args[0] == curLoad {
						s.auto["valid"] = "1"
					}
				default:
					if len(ev.Args) > 0 && ev.Args[0] == cliLoad && writesSettings(ev.Callee, ci) {
						if id == "C08" {
							ci.absRun(p, r, ev.Callee)
						}
						s.auto["cliabs"] = "1"
						if s.auto["chdir"] != "" && id == "C08" {
							r.Bad("cli-path:"+name, at, "paths of the command line are resolved after the working directory was changed; path %s", s.PathString())
						}
					}
				}
				n := ev.Common.Signature().Results().Len()
				return e.freshResults(s, ev, n), true
			}
			if ev.Key == "path/filepath.Split" || ev.Key == "path.Split" {
				return []*Term{e.TS.App("dirpart", ev.Args[0]), e.TS.App("filepart", ev.Args[0])}, true
			}
			if ev.Key == "os.Chdir" {
				s.auto["chdir"] = "1"
				s.regs["cwd"] = ev.Args[0]
				r.Count("chdirs", 1)
			}
			if ev.Callee != nil && p.IsRepoFn(ev.Callee) && !e.Inline(ev.Callee) && ci.readsSettings(p, memo, ev.Callee) {
				use(s, at, "in "+FnName(ev.Callee))
			}
			return nil, false
		}
		e.OnInstr = func(s *State, in ssa.Instruction, operand func(ssa.Value) *Term) {
			if fa, ok := in.(*ssa.FieldAddr); ok && isConfigPtr(fa.X.Type(), ci) {
				if t := operand(fa.X); t == curLoad {
					use(s, p.At(in), ci.st.Field(fa.Field).Name())
				}
			}
		}
		e.OnReturn = func(s *State, rs []*Term, ret *ssa.Return) {
			r.Count("command_paths", 1)
			if id == "C06" && isCmd && s.auto["cli"] == "" {
				r.Bad("cli-ignored:"+name, p.At(ret), "a command returns without having merged the command line settings; path %s", s.PathString())
			}
			if id == "C08" && !isCmd {
				if s.auto["cliabs"] == "" {
					preAbs = false
				}
			}
			if id == "C06" && !isCmd && s.auto["loaded"] == "" && ci.fileGiven(e, s) {
				r.Bad("file-ignored:"+name, p.At(ret), "a configuration file may be given without being loaded; path %s", s.PathString())
			}
		}
		e.Run(fn, nil, func(s *State) {
			if isCmd && id == "C08" && preAbs {
				s.auto["cliabs"] = "1"
			}
		})
		r.EngineStats(e, name)
	}
	r.AtLeast("command_paths", 1)
	r.AtLeast("first_uses", 3)
	r.AtLeast("cli_merges", 3)
	r.AtLeast("project_merges", 1)
	r.AtLeast("config_file_loads", 1)
}

var preAbs = true

// fileGiven: no fact of the path says that the name of the configuration file is empty.
func (ci *configInfo) fileGiven(e *Engine, s *State) bool {
	for f, v := range s.facts {
		if v && f.op == "==" && (f.args[0] == e.TS.Str("") || f.args[1] == e.TS.Str("")) && strings.Contains(strings.ToLower(f.String()), "config") {
			return false
		}
	}
	return true
}

// splitFile: the directory belonging to the last element of a path.
func splitFile(e *Engine, t *Term) *Term {
	switch {
	case t.op == "filepart":
		return e.TS.App("dirpart", t.args[0])
	case t.op == "call" && (t.name == "path/filepath.Base" || t.name == "path.Base"):
		return e.TS.mk("call", "path/filepath.Dir", nil, nil, nil, t.args[0])
	}
	return nil
}

func callsKey(p *Program, fn *ssa.Function, key string) bool {
	return p.ReachesCall(fn, func(c *ssa.CallCommon) bool { return CalleeKey(c) == key })
}

func writesSettingsOf(p *Program, fn *ssa.Function, ci *configInfo) bool {
	for f := range p.Reach(fn) {
		if fnPkg(f) == ci.typ.Obj().Pkg() && writesSettings(f, ci) && f != ci.newDef {
			return true
		}
	}
	return false
}

// ---- C07 ----

func kebab(s string) string {
	var b strings.Builder
	for i, c := range s {
		if c >= 'A' && c <= 'Z' {
			if i > 0 {
				b.WriteByte('-')
			}
			c += 'a' - 'A'
		}
		b.WriteRune(c)
	}
	return b.String()
}

func runC07(p *Program, r *Report) {
	r.Assume = []string{"pflag registers a flag for exactly the variable it is given; flags of PersistentFlags of the root command apply to every command"}
	ci := configOf(p, r)
	if ci == nil {
		return
	}
	tags := map[string]int{}
	for i := 0; i < ci.st.NumFields(); i++ {
		f := ci.st.Field(i)
		tag, _, _ := strings.Cut(reflect.StructTag(ci.st.Tag(i)).Get("json"), ",")
		r.Count("settings", 1)
		if tag == "" || tag == "-" {
			r.Bad("json-name:"+f.Name(), p.Pos(f.Pos()), "the setting %s cannot be set in a file: it has no JSON name", f.Name())
			continue
		}
		if !f.Exported() {
			r.Bad("json-name:"+f.Name(), p.Pos(f.Pos()), "the setting %s cannot be set in a file: it is not exported", f.Name())
		}
		if tag != kebab(f.Name()) {
			r.Bad("json-name:"+f.Name(), p.Pos(f.Pos()), "the setting %s has the JSON name %s instead of %s", f.Name(), tag, kebab(f.Name()))
		}
		if j, dup := tags[strings.ToLower(tag)]; dup {
			r.Bad("json-name:"+f.Name(), p.Pos(f.Pos()), "the JSON name %s names both %s and %s, so neither is set", tag, ci.st.Field(j).Name(), f.Name())
		}
		tags[strings.ToLower(tag)] = i
	}
	// names of the project must not hide settings
	if st := structOf(projectPtr(ci)); st != nil {
		for k := 0; k < st.NumFields(); k++ {
			if st.Field(k).Embedded() {
				continue
			}
			tag, _, _ := strings.Cut(reflect.StructTag(st.Tag(k)).Get("json"), ",")
			if i, dup := tags[strings.ToLower(tag)]; dup {
				r.Bad("json-hidden:"+ci.st.Field(i).Name(), p.Pos(st.Field(k).Pos()), "the entry %s of a project hides the setting of the same name", tag)
			}
			r.Count("project_entries", 1)
			if want := kebab(st.Field(k).Name()); tag != want {
				r.Bad("json-name:"+st.Field(k).Name(), p.Pos(st.Field(k).Pos()), "the project entry %s has the JSON name %q instead of %q", st.Field(k).Name(), tag, want)
			}
		}
	}
	// flags
	flagOf := map[int]string{}
	used := map[string]string{}
	for _, fn := range p.Funcs {
		for _, c := range CallSites(fn) {
			k := CalleeKey(c.Common())
			if !strings.HasPrefix(k, "(*github.com/spf13/pflag.FlagSet).") {
				continue
			}
			m := methodName(k)
			if !strings.Contains(m, "Var") {
				continue
			}
			args := c.Common().Args
			if len(args) < 3 {
				continue
			}
			fname := ""
			if cn, ok := args[2].(*ssa.Const); ok && cn.Value != nil && cn.Value.Kind() == constant.String {
				fname = constant.StringVal(cn.Value)
			}
			if fname != "" {
				if prev, dup := used[fname]; dup {
					r.Bad("flag-twice:"+fname, p.At(c), "the flag --%s is registered twice (also at %s), which ends the program at its start", fname, prev)
				}
				used[fname] = p.At(c)
			}
			fa, ok := args[1].(*ssa.FieldAddr)
			if !ok || !isConfigPtr(fa.X.Type(), ci) {
				continue
			}
			r.Count("flags", 1)
			f := ci.st.Field(fa.Field)
			if !isLoadOf(fa.X, ci.cli) {
				r.Bad("flag-target:"+f.Name(), p.At(c), "the flag --%s sets %s of settings that are not the merged command line settings", fname, f.Name())
			}
			tag, _, _ := strings.Cut(reflect.StructTag(ci.st.Tag(fa.Field)).Get("json"), ",")
			if fname != tag {
				r.Bad("flag-name:"+f.Name(), p.At(c), "the flag --%s sets the setting %s, which is called %s", fname, f.Name(), tag)
			}
			if prev, dup := flagOf[fa.Field]; dup {
				r.Bad("flag-field:"+f.Name(), p.At(c), "two flags (--%s and --%s) set %s", prev, fname, f.Name())
			}
			flagOf[fa.Field] = fname
			if !persistentSet(args[0]) {
				r.Bad("flag-set:"+f.Name(), p.At(c), "the flag --%s is not registered for all commands", fname)
			}
			// the default handed to the flag is written into the setting: it must be its own default
			di := 3
			if strings.HasSuffix(m, "VarP") {
				di = 4
			}
			if di < len(args) {
				ok := false
				if u, isU := args[di].(*ssa.UnOp); isU {
					if dfa, isF := u.X.(*ssa.FieldAddr); isF && isConfigPtr(dfa.X.Type(), ci) && dfa.Field == fa.Field && (isLoadOf(dfa.X, ci.cli) || isLoadOf(dfa.X, ci.def)) {
						ok = true
					}
				}
				if !ok {
					r.Bad("flag-default:"+f.Name(), p.At(c), "the flag --%s has a default other than the default of %s, which then overrides the files", fname, f.Name())
				}
			}
			// a list flag must not split values at commas only for some settings
			if _, isList := f.Type().Underlying().(*types.Slice); isList && strings.Contains(m, "StringSlice") {
				r.Bad("flag-list:"+f.Name(), p.At(c), "--%s splits its values at commas unlike the files", fname)
			}
		}
	}
	reads := ci.settingReads(p)
	for i := 0; i < ci.st.NumFields(); i++ {
		f := ci.st.Field(i)
		if _, ok := flagOf[i]; !ok {
			r.Bad("no-flag:"+f.Name(), p.Pos(f.Pos()), "no flag sets %s", f.Name())
		}
		r.Count("setting_reads", reads[i])
		if reads[i] == 0 {
			r.Bad("no-effect:"+f.Name(), p.Pos(f.Pos()), "%s has no effect: nothing reachable from the commands reads it", f.Name())
		}
	}
	r.AtLeast("settings", 34)
	r.AtLeast("flags", 34)
	// every setting takes part in merging
	for i := 0; i < ci.st.NumFields(); i++ {
		f := ci.st.Field(i)
		facts, _, cF, oldF := ci.mergeRun(p, r, i)
		taken := false
		for _, m := range facts {
			taken = taken || stripAbs(m.val) == cF
			if stripAbs(m.val) == oldF && m.same != 1 {
				r.Bad("not-merged:"+f.Name(), m.at, "%s given in a project or on the command line is not taken over in some cases; path %s", f.Name(), m.path)
			}
		}
		if !taken {
			r.Bad("not-merged:"+f.Name(), p.Pos(ci.merge.Pos()), "%s given in a project or on the command line is never taken over", f.Name())
		}
	}
}

func isLoadOf(v ssa.Value, g *ssa.Global) bool {
	u, ok := v.(*ssa.UnOp)
	return ok && u.X == ssa.Value(g)
}

// persistentSet: the flag set is the result of PersistentFlags().
func persistentSet(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Call:
		return methodName(CalleeKey(x.Common())) == "PersistentFlags"
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !persistentSet(e) {
				return false
			}
		}
		return true
	case *ssa.Parameter:
		return true
	}
	return false
}

// settingReads counts, per setting, the places outside the settings package (or in its query methods called from
// there) that read it from the effective settings and are reachable from a command.
func (ci *configInfo) settingReads(p *Program) map[int]int {
	out := map[int]int{}
	reach := map[*ssa.Function]bool{}
	for _, fn := range commandFns(p, "Run", "RunE") {
		for f := range p.Reach(fn) {
			reach[f] = true
		}
		reach[fn] = true
	}
	skip := map[*ssa.Function]bool{ci.merge: true, ci.load: true, ci.loadPr: true, ci.assert: true, ci.newDef: true}
	for _, fn := range p.Funcs {
		if !reach[fn] || skip[fn] || writesSettings(fn, ci) || strings.HasPrefix(fn.Name(), "Assert") || fn.Name() == "Print" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok || !isConfigPtr(fa.X.Type(), ci) {
					continue
				}
				for _, u := range *fa.Referrers() {
					if l, ok := u.(*ssa.UnOp); ok && !onlyLogged(p, l) {
						out[fa.Field]++
					}
				}
			}
		}
	}
	return out
}

func onlyLogged(p *Program, v ssa.Value) bool {
	if len(*v.Referrers()) == 0 {
		return true
	}
	return diagnosticUse(p, v, map[ssa.Value]bool{}) && !comparedAnywhere(v, map[ssa.Value]bool{})
}

func comparedAnywhere(v ssa.Value, seen map[ssa.Value]bool) bool {
	for _, u := range *v.Referrers() {
		switch x := u.(type) {
		case *ssa.BinOp:
			return true
		case ssa.CallInstruction:
			if !isLogCall(CalleeKey(x.Common())) && !isErrWrap(CalleeKey(x.Common())) && !nonNilResult(CalleeKey(x.Common())) {
				return true
			}
		case *ssa.If:
			return true
		}
	}
	return false
}

// ---- C08 ----

func runC08(p *Program, r *Report) {
	r.Assume = []string{"path/filepath implements path resolution as documented; os.Chdir changes the working directory"}
	ci := configOf(p, r)
	if ci == nil {
		return
	}
	preAbs = true
	ci.checkPathHelpers(p, r)
	for i := 0; i < ci.st.NumFields(); i++ {
		name := ci.st.Field(i).Name()
		facts, _, cF, _ := ci.mergeRun(p, r, i)
		for _, f := range facts {
			r.Count("merge_paths", 1)
			if stripAbs(f.val) != cF {
				continue
			}
			switch {
			case pathSettings[name]:
				if f.val.op != "abs" && f.elems != "abs" {
					r.Bad("merge-path:"+name, f.at, "a relative %s stays relative when it is taken over (%s); path %s", name, f.val, f.path)
				}
				r.Count("merged_paths_resolved", 1)
			case programSettings[name]:
				has := strings.Contains(f.facts, "strings.Contains(") && !strings.Contains(f.facts, "!call.strings.Contains(")
				if has != (f.val.op == "abs") {
					r.Bad("merge-program:"+name, f.at, "%s is taken over as %s on a path with %s; path %s", name, f.val, f.facts, f.path)
				}
			default:
				if f.val != cF {
					r.Bad("merge-value:"+name, f.at, "%s is no path but taken over as %s", name, f.val)
				}
			}
		}
	}
	r.AtLeast("merged_paths_resolved", 5)
	ci.checkLoads(p, r, true)
	r.AtLeast("file_paths_resolved", 5)
	for i := 0; i < ci.st.NumFields(); i++ {
		if _, isList := ci.st.Field(i).Type().Underlying().(*types.Slice); isList && pathSettings[ci.st.Field(i).Name()] {
			if n := ci.st.Field(i).Name(); r.Counts["list_elements_resolved:"+n] == 0 {
				r.Bad("file-path:"+n, p.Pos(ci.load.Pos()), "the elements of %s of a configuration file are never resolved against the directory of this file", n)
			}
		}
	}
	ci.checkElementLoops(p, r)
	ci.checkFlow(p, r, "C08")
}

// absRun: the method makes every path setting of its receiver absolute and changes nothing else.
func (ci *configInfo) absRun(p *Program, r *Report, fn *ssa.Function) {
	for i := 0; i < ci.st.NumFields(); i++ {
		i := i
		f := ci.st.Field(i)
		name := f.Name()
		e := NewEngine(p)
		c := e.TS.Sym("$" + fn.Params[0].Name())
		addr := ci.fieldAddr(e, c, i)
		old := e.TS.mk("deref", "", nil, nil, nil, addr)
		elem := ""
		e.Inline = func(g *ssa.Function) bool { return fnPkg(g) == ci.typ.Obj().Pkg() || smallPure(g) }
		e.KeepFact = func(t *Term) bool { return ci.mentionsField(t, i) }
		e.PinFact = func(s *State, t *Term) bool { return ci.mentionsField(t, i) }
		e.KeepStore = func(a *Term) bool { return rootOf(a) != c || a == addr }
		e.OnCall = func(ev *CallEv) ([]*Term, bool) { return configModels(e, ev) }
		e.OnStore = func(s *State, a, val *Term, in ssa.Instruction) {
			if a.op == "index&" && ci.mentionsField(a, i) {
				if v := stripAbs(val); val.op == "abs" && elemOf(v, a) {
					elem = "abs"
				} else {
					r.Bad("element:"+name, p.At(in), "an element of %s is replaced by %s, which is not the same element as an absolute path", name, val)
				}
			}
		}
		e.OnReturn = func(s *State, rs []*Term, ret *ssa.Return) {
			v := e.load(s, addr, f.Type())
			r.Count("command_line_paths", 1)
			has := s.decide(e.TS.mk("call", "strings.Contains", nil, nil, nil, old, e.TS.Str("/")))
			_, isList := f.Type().Underlying().(*types.Slice)
			ok := false
			switch {
			case stripAbs(v) != old:
			case pathSettings[name] && isList:
				ok = true
			case pathSettings[name]:
				ok = v.op == "abs"
			case programSettings[name]:
				ok = has >= 0 && (has == 1) == (v.op == "abs")
			default:
				ok = v == old
			}
			if !ok {
				r.Bad("cli-value:"+name, p.At(ret), "%s given on the command line becomes %s when its paths are made absolute; path %s", name, v, s.PathString())
			}
		}
		e.Run(fn, nil, nil)
		if _, isList := f.Type().Underlying().(*types.Slice); isList && pathSettings[name] && elem != "abs" {
			r.Bad("cli-value:"+name, p.Pos(fn.Pos()), "the elements of %s given on the command line are not made absolute", name)
		}
		r.EngineStats(e, FnName(fn))
	}
}

// checkPathHelpers proves the meaning used for the path helpers: identity on empty and absolute paths, else filepath.Abs.
func (ci *configInfo) checkPathHelpers(p *Program, r *Report) {
	for _, n := range []string{"ToAbsolutePath", "ToAbsolutePathWithBasedir"} {
		fn := p.Func("util", n)
		if fn == nil {
			r.Undecided("anchor:"+n, "-", "util.%s not found", n)
			continue
		}
		e := NewEngine(p)
		path := e.TS.Sym("$" + fn.Params[len(fn.Params)-1].Name())
		e.Inline = func(*ssa.Function) bool { return true }
		e.OnCall = func(ev *CallEv) ([]*Term, bool) {
			if ev.Key == "path/filepath.Abs" {
				return []*Term{e.TS.App("fpabs", ev.Args[0]), e.freshResults(ev.S, ev, 1)[0]}, true
			}
			return nil, false
		}
		e.OnReturn = func(s *State, rs []*Term, ret *ssa.Return) {
			if s.KnownNonNil(rs[1]) {
				return
			}
			r.Count("helper_paths", 1)
			isAbs := s.decide(e.TS.mk("call", "path/filepath.IsAbs", nil, nil, nil, path))
			empty := s.decide(e.Eq(path, e.TS.Str("")))
			v := rs[0]
			if v == path {
				if isAbs != 1 && empty != 1 {
					r.Bad("helper:"+n, p.At(ret), "%s leaves a path unchanged that may be relative; path %s", n, s.PathString())
				}
				return
			}
			in := path
			if len(fn.Params) == 2 {
				in = e.TS.mk("call", "path/filepath.Join", nil, nil, nil, e.TS.Sym("$"+fn.Params[0].Name()), path)
			}
			if v.op != "fpabs" || v.args[0] != in {
				r.Bad("helper:"+n, p.At(ret), "%s returns %s", n, v)
			} else if isAbs != 0 || empty != 0 {
				r.Bad("helper:"+n, p.At(ret), "%s changes a path that may be empty or absolute; path %s", n, s.PathString())
			}
		}
		e.Run(fn, nil, nil)
		r.EngineStats(e, n)
	}
	fn := p.Func("util", "ToAbsolutePaths")
	if fn == nil {
		r.Undecided("anchor:ToAbsolutePaths", "-", "util.ToAbsolutePaths not found")
		return
	}
	e := NewEngine(p)
	in := e.TS.Sym("$" + fn.Params[0].Name())
	e.OnCall = func(ev *CallEv) ([]*Term, bool) { return configModels(e, ev) }
	e.OnStore = func(s *State, addr, val *Term, ins ssa.Instruction) {
		if addr.op != "index&" {
			return
		}
		v := stripAbs(val)
		if val.op != "abs" || !(v.op == "deref" || v.op == "derefv" || v.op == "index") || !elemOfAny(v, addr) {
			r.Bad("helper:ToAbsolutePaths", p.At(ins), "an element of the result is %s instead of the absolute path of the same element", val)
		}
		r.Count("list_helper_stores", 1)
	}
	_ = in
	e.Run(fn, nil, nil)
	r.AtLeast("helper_paths", 4)
}

func elemOfAny(v, addr *Term) bool {
	if v.op == "index" {
		return v.args[1] == addr.args[1]
	}
	return v.args[0].op == "index&" && v.args[0].args[1] == addr.args[1]
}

// documentedDefaults are the defaults given in the documentation of the settings; lists are written with spaces.
// Settings whose default depends on the system are left out.
var documentedDefaults = map[string]string{
	"ForceRegenerateHtml": "false", "SvgSizeToViewbox": "false", "OutputType": "epub2", "OutputDriver": "pandoc",
	"CacheMaxSize": "100000000", "CacheMaxAge": "40320", "CacheEvictionStrategy": "lru", "CoverImage": "",
	"CommandTemplateSvgToPng":        "rsvg-convert -o {OUTPUT} {INPUT}",
	"CommandTemplateImageProcessing": "magick {INPUT} -resize 600x600> -quality 75 -define PNG:compression-level=9 -define PNG:compression-filter=0 -colorspace gray {OUTPUT}",
	"CommandTemplatePdfToPng":        "magick -density 300 {INPUT} {OUTPUT}", "CommandTemplateWebpToPng": "magick {INPUT} {OUTPUT}",
	"PandocExecutable": "pandoc", "PandocDataDir": "", "FontFiles": "[]", "IgnoredTemplates": "[]", "TrailingTemplates": "[]", "IgnoredImageParams": "[]",
	"IgnoredMediaTypes": "[gif mp3 mp4 pdf oga ogg ogv wav webm]", "WikipediaInstance": "en", "WikipediaHost": "wikipedia.org",
	"WikipediaImageHost": "upload.wikimedia.org", "WikipediaImageArticleHosts": "[commons.wikimedia.org en.wikipedia.org]",
	"WikipediaMathRestApi": "https://wikimedia.org/api/rest_v1/media/math", "FilePrefixes": "[file image media]", "AllowedLinkPrefixes": "[arxiv doi]",
	"CategoryPrefixes": "[category]", "MathConverter": "wikimedia", "TocDepth": "2", "WorkerThreads": "5",
	"UserAgentTemplate": "wiki2book {{VERSION}} (https://github.com/hauke96/wiki2book)",
}

// checkDefaults compares the values of a fresh settings object with the documented defaults.
func (ci *configInfo) checkDefaults(p *Program, r *Report) {
	e := NewEngine(p)
	e.Inline = func(fn *ssa.Function) bool { return fnPkg(fn) == ci.typ.Obj().Pkg() }
	e.OnReturn = func(s *State, rs []*Term, ret *ssa.Return) {
		for i := 0; i < ci.st.NumFields(); i++ {
			name := ci.st.Field(i).Name()
			want, ok := documentedDefaults[name]
			if !ok {
				continue
			}
			v := e.load(s, ci.fieldAddr(e, rs[0], i), ci.st.Field(i).Type())
			got, known := ci.literal(p, e, s, v)
			if !known {
				r.Undecided("default:"+name, p.At(ret), "the default of %s is %s, which is not a constant", name, v)
				continue
			}
			r.Count("defaults_compared", 1)
			if _, isList := ci.st.Field(i).Type().Underlying().(*types.Slice); isList && !orderedSettings[name] {
				got, want = sortWords(got), sortWords(want)
			}
			if got != want {
				r.Bad("default:"+name, p.At(ret), "the default of %s is %q, documented is %q", name, got, want)
			}
		}
	}
	e.Run(ci.newDef, nil, nil)
	r.AtLeast("defaults_compared", 30)
}

func sortWords(s string) string {
	w := strings.Fields(strings.Trim(s, "[]"))
	sort.Strings(w)
	return strings.Join(w, " ")
}

// literal renders a constant term; variables that are never assigned after their initialisation count as constants.
func (ci *configInfo) literal(p *Program, e *Engine, s *State, v *Term) (string, bool) {
	if v.IsConst() {
		if x, ok := v.StrVal(); ok {
			return x, true
		}
		return v.c.ExactString(), true
	}
	if v.IsNilConst() {
		return "[]", true
	}
	if els, ok := e.Elements(s, v); ok {
		var out []string
		for _, x := range els {
			w, ok := ci.literal(p, e, s, x)
			if !ok {
				return "", false
			}
			out = append(out, w)
		}
		return "[" + strings.Join(out, " ") + "]", true
	}
	if v.op == "deref" && v.args[0].op == "global" {
		for _, m := range p.Pkg("config").Members {
			if g, ok := m.(*ssa.Global); ok && globalTerm(e, g) == v.args[0] {
				st := p.GlobalStores(g)
				if len(st) == 1 {
					if c, ok := st[0].Val.(*ssa.Const); ok && c.Value != nil {
						return ci.literal(p, e, s, e.TS.Const(c.Value))
					}
				}
			}
		}
	}
	return "", false
}

// checkElementLoops: a loop storing the elements of a list of paths stores each of them.
func (ci *configInfo) checkElementLoops(p *Program, r *Report) {
	for _, fn := range p.Funcs {
		if fnPkg(fn) != ci.typ.Obj().Pkg() {
			continue
		}
		for _, l := range loopsOf(fn) {
			stores := map[*ssa.BasicBlock]*ssa.Store{}
			for b := range l.blocks {
				for _, in := range b.Instrs {
					st, ok := in.(*ssa.Store)
					if !ok {
						continue
					}
					ia, ok := st.Addr.(*ssa.IndexAddr)
					if !ok {
						continue
					}
					if u, ok := ia.X.(*ssa.UnOp); ok && u.Op == token.MUL {
						if fa, ok := u.X.(*ssa.FieldAddr); ok && pathSettings[fieldVar(fa.X.Type(), fa.Field).Name()] && isConfigPtr(fa.X.Type(), ci) {
							stores[b] = st
						}
					}
				}
			}
			if len(stores) == 0 {
				continue
			}
			r.Count("element_loops", 1)
			at := ""
			for _, st := range stores {
				at = p.At(st)
			}
			if w := skipsRound(l, func(b *ssa.BasicBlock) bool { return stores[b] != nil }); w != nil {
				r.Bad("element-skipped:"+FnName(fn), at, "not every path of the list is made absolute: a round of the loop in %s (or the rest of the loop) is left out at %s", FnName(fn), p.At(w))
			}
		}
	}
}

// skipsRound: the end of a block from which a round of the loop ends (or the loop is left) without passing a wanted
// block, although the element is neither empty nor an absolute path.
func skipsRound(l *natLoop, want func(*ssa.BasicBlock) bool) ssa.Instruction {
	seen := map[*ssa.BasicBlock]bool{}
	var bad ssa.Instruction
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		if seen[b] || want(b) {
			return
		}
		seen[b] = true
		last := b.Instrs[len(b.Instrs)-1]
		for i, t := range b.Succs {
			if iff, ok := last.(*ssa.If); ok && b.Succs[0] != b.Succs[1] && needsNoPath(iff.Cond, i == 0) {
				continue
			}
			if !l.blocks[t] && b != l.head && !endsProgram(t, map[*ssa.BasicBlock]bool{}) {
				bad = last
				continue
			}
			if t == l.head && b != l.head {
				bad = last
				continue
			}
			if l.blocks[t] {
				walk(t)
			}
		}
	}
	walk(l.head)
	return bad
}

// needsNoPath: with this outcome of the decision a text is empty or an absolute path, so there is nothing to resolve.
func needsNoPath(cond ssa.Value, val bool) bool {
	switch x := cond.(type) {
	case *ssa.UnOp:
		return x.Op == token.NOT && needsNoPath(x.X, !val)
	case *ssa.Call:
		return val && (CalleeKey(&x.Call) == "path/filepath.IsAbs" || CalleeKey(&x.Call) == "path.IsAbs")
	case *ssa.BinOp:
		for _, o := range []ssa.Value{x.X, x.Y} {
			if k, ok := o.(*ssa.Const); ok && k.Value != nil && k.Value.ExactString() == `""` {
				return x.Op == token.EQL && val || x.Op == token.NEQ && !val
			}
		}
	}
	return false
}
