package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// checkOutput: the output file of a project is the one of the command line if it was given there, else the one from the
// project file.
func (ci *configInfo) checkOutput(p *Program, r *Report) {
	// the variables the option is stored in
	names := map[string]bool{}
	for v := range outputVars(p) {
		switch x := v.(type) {
		case *ssa.Alloc:
			names[x.Comment] = true
		case *ssa.Global:
			names[x.Name()], names[globalTerm(NewEngine(p), x).String()] = true, true
		}
	}
	if len(names) == 0 {
		r.Undecided("output", "-", "no option for the output file was found")
	}
	for _, fn := range commandFns(p, "Run", "RunE") {
		if !p.Reach(fn)[ci.loadPr] {
			continue
		}
		fn := fn
		name := FnName(fn)
		e := NewEngine(p)
		st := structOf(projectPtr(ci))
		if st == nil {
			return
		}
		field := -1
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == "OutputFile" {
				field = i
			}
		}
		if field < 0 {
			r.Undecided("output:"+name, p.Pos(fn.Pos()), "a project has no output file")
			return
		}
		uses := func(c *ssa.Function) bool {
			return p.ReachesCall(c, func(cc *ssa.CallCommon) bool {
				k := CalleeKey(cc)
				return k == "os.MkdirAll" || k == "os.Create" || strings.HasPrefix(k, "(*os/exec.Cmd).")
			})
		}
		e.Inline = func(c *ssa.Function) bool {
			if fnPkg(c).Path() != modPath {
				return smallPure(c)
			}
			return c.Parent() != nil || p.Reach(c)[ci.loadPr] || callsKey(p, c, "os.Chdir") || smallPure(c) || !uses(c) || p.Reach(c)[ci.merge]
		}
		changed := func(t *Term) bool {
			if t.op != "call" || !strings.HasSuffix(t.name, ".Changed") {
				return false
			}
			k, ok := t.args[len(t.args)-1].StrVal()
			return !ok || k == "output"
		}
		isCli := func(t *Term) bool {
			return t.op == "deref" && names[strings.TrimPrefix(t.args[0].String(), "&")]
		}
		e.PinFact = func(s *State, t *Term) bool { return t.Any(changed) || t.Any(isCli) }
		e.OnCall = func(ev *CallEv) ([]*Term, bool) {
			s := ev.S
			if rs, ok := configModels(e, ev); ok {
				return rs, true
			}
			if ev.Callee == ci.loadPr {
				rs := e.freshResults(s, ev, 2)
				s.regs["project"] = rs[0]
				s.regs["file"] = e.load(s, e.fieldAddr(rs[0], projectPtr(ci), field), types.Typ[types.String])
				return rs, true
			}
			if strings.HasSuffix(ev.Key, ".Changed") {
				return []*Term{e.TS.mk("call", ev.Key, nil, nil, nil, ev.Args...)}, true
			}
			if ev.Callee == nil || !p.IsRepoFn(ev.Callee) || fnPkg(ev.Callee).Path() != modPath || e.Inline(ev.Callee) || s.regs["file"] == nil {
				return nil, false
			}
			v := stripAbs(e.load(s, e.fieldAddr(s.regs["project"], projectPtr(ci), field), types.Typ[types.String]))
			for _, a := range ev.Args {
				if a := stripAbs(a); isCli(a) || a == s.regs["file"] {
					v = a
				}
			}
			given := -1
			empty := false
			for f, val := range s.facts {
				if changed(f) {
					given = 0
					if val {
						given = 1
					}
				}
				if f.op == "==" && val && (isCli(f.args[0]) || isCli(f.args[1])) && (f.args[0] == e.TS.Str("") || f.args[1] == e.TS.Str("")) {
					empty = true
				}
			}
			r.Count("output files chosen", 1)
			at := p.At(ev.Instr)
			switch {
			case given == 1 && empty:
			case given == 1 && !isCli(v):
				r.Bad("output-cli:"+name, at, "the output file given on the command line is not used for a project, but %s; path %s", v, s.PathString())
			case given != 1 && v != s.regs["file"]:
				r.Bad("output-file:"+name, at, "the output file of the project is not used although none was given on the command line, but %s; path %s", v, s.PathString())
			}
			return nil, false
		}
		e.Run(fn, nil, nil)
		r.EngineStats(e, name)
	}
}
