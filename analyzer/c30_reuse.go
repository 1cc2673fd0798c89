package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C30", Title: "finished pages are reused exactly when that is allowed",
		Rule: "symbolic execution of the commands and the workers: where the path of a page is put into the list of pages of a book, the page was generated on this path, or it is known that this very file exists, that regeneration is not forced and that the output is no statistics; where a page is generated, it is known that regeneration is forced, the output is a statistics, or the file could not be found",
		Run:  runC30})
}

func runC30(p *Program, r *Report) {
	r.Assume = []string{"os.Stat returns no error exactly if the file exists"}
	isGen := func(c *ssa.Function) string {
		if c == nil || !inPkg(c, "generator") || c.Name() != "Generate" || c.Signature.Recv() == nil {
			return ""
		}
		if strings.Contains(c.Signature.Recv().Type().String(), "Html") {
			return "page"
		}
		return "other"
	}
	reaches := func(fn *ssa.Function) bool {
		for g := range p.Reach(fn) {
			if isGen(g) == "page" {
				return true
			}
		}
		return false
	}
	// the commands and what runs beside them
	roots := append([]*ssa.Function{}, commandFns(p, "Run", "RunE")...)
	for _, fn := range p.Funcs {
		if fnPkg(fn).Path() != modPath {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if g, ok := in.(*ssa.Go); ok {
					roots = append(roots, p.repoCallees(&g.Call)...)
					roots = append(roots, dynamicClosures(nil, &g.Call)...)
				}
			}
		}
	}
	done := map[*ssa.Function]bool{}
	for _, fn := range roots {
		if done[fn] || !reaches(fn) {
			continue
		}
		done[fn] = true
		reuseRun(p, r, fn, isGen, reaches)
	}
	r.AtLeast("pages put into a book", 2)
	r.AtLeast("finished pages reused", 2)
	r.AtLeast("pages generated", 2)
}

func reuseRun(p *Program, r *Report, fn *ssa.Function, isGen func(*ssa.Function) string, reaches func(*ssa.Function) bool) {
	name := FnName(fn)
	e := NewEngine(p)
	setting := func(t *Term, field string) bool {
		return (t.op == "deref" || t.op == "derefv") && t.args[0].op == "field&" && fieldName(t.args[0].name) == field && isCurrent(t.args[0].args[0])
	}
	looks := func(c *ssa.Function) bool {
		return p.ReachesCall(c, func(cc *ssa.CallCommon) bool {
			k := CalleeKey(cc)
			return k == "os.Stat" || k == "os.Lstat" || methodName(k) == "Stat"
		})
	}
	e.Inline = func(c *ssa.Function) bool {
		if fnPkg(c).Path() != modPath && !(inPkg(c, "util") && strings.Contains(strings.ToLower(c.Name()), "exist")) {
			return smallPure(c)
		}
		if reaches(c) || c.Parent() != nil || smallPure(c) {
			return true
		}
		// decisions about files
		res := c.Signature.Results()
		return looks(c) && res.Len() > 0 && (res.At(0).Type().String() == "bool" || isErrorType(res.At(0).Type()))
	}
	page := func(t *Term) bool {
		return t.Any(func(x *Term) bool { s, ok := x.StrVal(); return ok && strings.HasSuffix(s, ".html") })
	}
	about := func(t *Term) bool {
		return t.Any(func(x *Term) bool {
			return x.op == "staterr" || setting(x, "ForceRegenerateHtml") || setting(x, "OutputType")
		})
	}
	e.KeepFact = about
	e.PinFact = func(s *State, t *Term) bool { return about(t) }
	noStats := func(s *State) bool {
		isnt := map[string]bool{}
		for f, v := range s.facts {
			if f.op != "==" {
				continue
			}
			for i, a := range f.args {
				if setting(a, "OutputType") {
					if k, ok := f.args[1-i].StrVal(); ok {
						if v && strings.HasPrefix(k, "epub") {
							return true
						}
						if !v {
							isnt[k] = true
						}
					}
				}
			}
		}
		return isnt["stats-json"] && isnt["stats-txt"]
	}
	forced := func(s *State) int {
		for f, v := range s.facts {
			if setting(f, "ForceRegenerateHtml") {
				return b2i(v)
			}
		}
		return -1
	}
	e.OnCall = func(ev *CallEv) ([]*Term, bool) {
		s := ev.S
		switch {
		case ev.Key == "os.Stat" || ev.Key == "os.Lstat" || methodName(ev.Key) == "Stat" && len(ev.Args) > 0 && ev.Common.Signature().Params().Len() == 1:
			a := ev.Args[len(ev.Args)-1]
			rs := e.freshResults(s, ev, 2)
			return []*Term{rs[0], e.TS.App("staterr", a)}, true
		case ev.Callee != nil && isGen(ev.Callee) == "page":
			r.Count("pages generated", 1)
			missing := false
			for f, v := range s.facts {
				if f.Any(func(x *Term) bool { return x.op == "staterr" && page(x.args[0]) }) {
					if f.op == "==" && !v || f.op == "call" && v || f.op != "==" && f.op != "call" && v {
						missing = true
					}
				}
			}
			if s.auto["round"] == "" && forced(s) != 1 && !missing && noStats(s) {
				r.Bad("needless:"+name, p.At(ev.Instr), "a page is generated although it is neither forced nor known that there is none yet; path %s", s.PathString())
			}
			return []*Term{e.TS.App("generated", e.TS.Str(p.At(ev.Instr))), e.freshResults(s, ev, 2)[1]}, true
		case ev.Callee != nil && p.IsRepoFn(ev.Callee) && inPkg(ev.Callee, "cache") && ev.Common.Signature().Results().Len() == 1 && ev.Common.Signature().Results().At(0).Type().String() == "string":
			return []*Term{e.TS.App("cachefile:"+ev.Callee.Name(), ev.Args...)}, true
		}
		return nil, false
	}
	e.OnStore = func(s *State, a, v *Term, in ssa.Instruction) {
		if a.op != "index&" || v == nil {
			return
		}
		if s.auto["round"] != "" {
			return // each round does the same; what is known in later ones is forgotten sometimes
		}
		if v.op == "generated" {
			s.auto["round"] = "done"
			r.Count("pages put into a book", 1)
			return
		}
		if !page(v) {
			return
		}
		s.auto["round"] = "done"
		r.Count("pages put into a book", 1)
		r.Count("finished pages reused", 1)
		at := p.At(in)
		if !s.KnownNil(e.TS.App("staterr", v)) {
			r.Bad("missing:"+name, at, "a page is taken over without knowing that its file exists (%s); path %s", v, s.PathString())
		}
		if forced(s) != 0 {
			r.Bad("forced:"+name, at, "an old page is used although regenerating it may be forced; path %s", s.PathString())
		}
		if !noStats(s) {
			r.Bad("statistics:"+name, at, "an old page is used although the output may be a statistics; path %s", s.PathString())
		}
	}
	e.Run(fn, nil, nil)
	r.EngineStats(e, name)
}
