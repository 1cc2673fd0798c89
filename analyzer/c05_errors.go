package main

import (
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C05", Title: "a failed step is never reported as success",
		Rule: "per function, over every path: each error returned by a fallible call is, when the function returns, known nil, or part of the returned error (which is then non-nil), or handed to another goroutine or owner, or the path ended the program with a failure; an error that was never looked at, overwritten, only logged, or replaced by nil is a violation. Closing, clean-up removal of temporary files and access-time updates may fail silently",
		Run:  runC05})
}

var errorType = types.Universe.Lookup("error").Type()

func isErrorType(t types.Type) bool { return types.Identical(t, errorType) }

// errResults lists the indexes of error results of a call.
func errResults(c *ssa.CallCommon) []int {
	var out []int
	rs := c.Signature().Results()
	for i := 0; i < rs.Len(); i++ {
		if isErrorType(rs.At(i).Type()) {
			out = append(out, i)
		}
	}
	return out
}

// neverFails: calls whose error result is always nil, whose failure is an ordinary answer, or which make errors.
func neverFails(k string) bool {
	switch {
	case isLogCall(k), isErrWrap(k), nonNilResult(k):
		return true
	case strings.HasPrefix(k, "strconv."), strings.HasPrefix(k, "errors."), strings.HasPrefix(k, "github.com/pkg/errors."):
		return true
	case strings.HasPrefix(k, "(*strings.Builder)."), strings.HasPrefix(k, "(*bytes.Buffer).Write"), strings.HasPrefix(k, "iface(hash.Hash)."), strings.HasPrefix(k, "regexp."), strings.HasPrefix(k, "fmt.Fprint"):
		return true
	}
	return false
}

// mayFailSilently: clean-up whose failure does not change what the user gets.
func mayFailSilently(ev *CallEv) bool {
	name := methodName(ev.Key)
	switch name {
	case "Close":
		return true
	case "Chtimes":
		return true
	case "GetSizeInBytes": // no size: nothing is replaced
		return true
	case "MakeSvgSizeAbsolute": // documented: images that are no well-formed XML are kept as they are
		return true
	case "Remove", "RemoveAll":
		return ev.Defer || tempPathArg(ev)
	case "Write", "WriteString", "Copy": // into a hash or buffer
		if len(ev.Args) > 0 {
			t := ev.Args[0]
			return strings.HasPrefix(t.String(), "call.crypto/") || strings.Contains(t.String(), "crypto/sha1.New") || strings.Contains(t.String(), "crypto/sha256.New")
		}
	}
	return false
}

func methodName(k string) string { return k[strings.LastIndexByte(k, '.')+1:] }

// tempPathArg: the path handed to a removal was made by CreateTemp/MkdirTemp in this run.
func tempPathArg(ev *CallEv) bool {
	for _, a := range ev.Args {
		if a.Any(func(t *Term) bool {
			return t.op == "res" && (strings.Contains(t.name, "CreateTemp") || strings.Contains(t.name, "MkdirTemp")) || isTempDirName(t)
		}) {
			return true
		}
	}
	return false
}

func isTempDirName(t *Term) bool {
	v, ok := t.StrVal()
	return ok && v == ".tmp"
}

func runC05(p *Program, r *Report) {
	r.Assume = []string{"every fallible external call reports its failure through its error result", "failures of Close, of access-time updates and of the removal of temporary files change nothing the user gets"}
	fns := append([]*ssa.Function(nil), p.Funcs...)
	sort.Slice(fns, func(i, j int) bool { return FuncKey(fns[i]) < FuncKey(fns[j]) })
	for _, fn := range fns {
		if fnPkg(fn).Path() == modPath+"/test" {
			continue
		}
		n := fallibleSites(fn)
		if n == 0 {
			continue
		}
		if diagnosticOnly(p, fn) {
			r.Count("diagnostic_functions", 1)
			continue
		}
		r.Count("functions_analysed", 1)
		r.Count("fallible_call_sites", n)
		checkErrors(p, r, fn)
	}
	r.AtLeast("functions_analysed", 40)
	r.AtLeast("fallible_call_sites", 100)
}

// fallibleSites counts the calls in fn that may fail.
func fallibleSites(fn *ssa.Function) int {
	n := 0
	for _, c := range CallSites(fn) {
		if len(errResults(c.Common())) > 0 && !neverFails(CalleeKey(c.Common())) {
			n++
		}
	}
	return n
}

func isErrTest(x *Term) bool {
	return x.op == "call" && (x.name == "os.IsNotExist" || x.name == "os.IsExist" || x.name == "errors.Is" || x.name == "github.com/pkg/errors.Is")
}

// diagnosticOnly: every use of every result of fn ends in a log message or in the text of an error.
func diagnosticOnly(p *Program, fn *ssa.Function) bool {
	res := fn.Signature.Results()
	if res.Len() == 0 || fn.Parent() != nil {
		return false
	}
	for i := 0; i < res.Len(); i++ {
		if isErrorType(res.At(i).Type()) {
			return false
		}
	}
	sites := p.CallersOf(fn)
	if len(sites) == 0 {
		return false
	}
	for _, c := range sites {
		v := c.Value()
		if v == nil || !diagnosticUse(p, v, map[ssa.Value]bool{}) {
			return false
		}
	}
	return true
}

func diagnosticUse(p *Program, v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	for _, u := range *v.Referrers() {
		switch x := u.(type) {
		case *ssa.DebugRef:
		case *ssa.MakeInterface:
			if !diagnosticUse(p, x, seen) {
				return false
			}
		case *ssa.Phi:
			if !diagnosticUse(p, x, seen) {
				return false
			}
		case *ssa.Slice:
			if !diagnosticUse(p, x, seen) {
				return false
			}
		case *ssa.Store:
			ia, ok := x.Addr.(*ssa.IndexAddr)
			if !ok || x.Val != v {
				return false
			}
			if al, ok := ia.X.(*ssa.Alloc); !ok || al.Comment != "varargs" || !diagnosticUse(p, al, seen) {
				return false
			}
		case *ssa.IndexAddr:
		case *ssa.BinOp:
			// a comparison: only a decision depends on the value
			if b, ok := x.Type().Underlying().(*types.Basic); !ok || b.Kind() != types.Bool {
				if !diagnosticUse(p, x, seen) {
					return false
				}
			}
		case *ssa.Return:
			fn := x.Parent()
			if fn.Signature.Results().Len() != 1 {
				return false
			}
			for _, c := range p.CallersOf(fn) {
				if c.Value() == nil || !diagnosticUse(p, c.Value(), seen) {
					return false
				}
			}
		case ssa.CallInstruction:
			k := CalleeKey(x.Common())
			if v := x.Value(); v != nil && isPureExternal(k) && !isLogCall(k) && !isErrWrap(k) && !nonNilResult(k) {
				if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
					continue
				}
				if !diagnosticUse(p, v, seen) {
					return false
				}
				continue
			}
			if callee := x.Common().StaticCallee(); callee != nil && p.IsRepoFn(callee) && len(callee.Params) == len(x.Common().Args) {
				for i, a := range x.Common().Args {
					if a == v && !diagnosticUse(p, callee.Params[i], seen) {
						return false
					}
				}
				continue
			}
			if !isLogCall(k) && !isErrWrap(k) && !nonNilResult(k) && !strings.HasPrefix(k, sigolo) {
				if k != "fmt.Sprintf" || x.Value() == nil || !diagnosticUse(p, x.Value(), seen) {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

// isQuery: the call only asks whether something exists; its answer is its error.
func isQuery(ev *CallEv) bool {
	switch ev.Key {
	case "os.Stat", "os.Lstat":
	default:
		if methodName(ev.Key) != "Stat" || !ev.Common.IsInvoke() {
			return false
		}
	}
	v := ev.Instr.Value()
	if v == nil {
		return false
	}
	for _, u := range *v.Referrers() {
		if x, ok := u.(*ssa.Extract); ok && x.Index == 0 && len(*x.Referrers()) > 0 {
			return false
		}
	}
	return true
}

// takesError: helpers that decide something about an error are analysed in their caller's context.
func takesError(fn *ssa.Function) bool {
	if fn.Signature.Recv() != nil && strings.Contains(fn.Signature.Recv().Type().String(), "Mock") {
		return false
	}
	for i := 0; i < fn.Signature.Params().Len(); i++ {
		if isErrorType(fn.Signature.Params().At(i).Type()) {
			return true
		}
	}
	return false
}

func checkErrors(p *Program, r *Report, fn *ssa.Function) {
	e := NewEngine(p)
	e.MaxStates = 60000
	e.FreshErr, e.Coarse = true, true
	e.Inline = func(f *ssa.Function) bool {
		if f == fn {
			return false
		}
		return smallPure(f) && (takesError(f) || fallibleSites(f) == 0) || f.Parent() != nil && f.Parent() == fn
	}
	e.KeepStore = func(addr *Term) bool {
		o := rootOf(addr).op
		return o == "alloc" || o == "sym"
	}
	e.KeepFact = func(t *Term) bool {
		return t.Any(func(x *Term) bool { return x.op == "const" && x.name == "nil" || isErrTest(x) })
	}
	name := FnName(fn)
	// judge a pending error at a point where it is given up
	settled := func(s *State, t *Term, rets []*Term) bool {
		if s.KnownNil(t) {
			return true
		}
		for _, m := range []string{"os.IsExist", "os.IsNotExist"} {
			if s.Known(e.TS.mk("call", m, nil, nil, nil, t), true) {
				return true
			}
		}
		isNil := e.Eq(t, e.TS.Nil())
		for _, x := range rets {
			if x == t || e.Eq(x, e.TS.Nil()) == isNil || x.Contains(t) && s.KnownNonNil(x) || x.op != "const" && x.Contains(t) && x.op != "call" {
				return true
			}
		}
		return false
	}
	e.OnCall = func(ev *CallEv) ([]*Term, bool) {
		s := ev.S
		if ev.Key == "os.Exit" {
			if c, ok := ev.Args[0].IntVal(); ok && c == 0 {
				for k, t := range s.regs {
					if strings.HasPrefix(k, "e|") && s.KnownNonNil(t) {
						r.Bad("exit0:"+name, p.At(ev.Instr), "%s ends the program with a success status although %s failed; path %s", name, strings.SplitN(k, "|", 3)[1], s.PathString())
					}
				}
			}
			return nil, false
		}
		idx := errResults(ev.Common)
		if len(idx) == 0 || ev.Go {
			return nil, false
		}
		if neverFails(ev.Key) {
			return nil, false
		}
		for _, i := range idx {
			k := "e|" + short(ev.Key) + "|" + ev.Site + "|" + strconv.Itoa(i)
			if old := s.regs[k]; old != nil && !old.hasOld && !settled(s, old, nil) && !handed(s, e, old) {
				if s.KnownNonNil(old) {
					s.auto["f|"+k] = "n"
				} else {
					r.Bad("ignored:"+name+":"+short(ev.Key), p.At(ev.Instr), "%s calls %s again although the error of the previous call was never looked at; path %s", name, short(ev.Key), s.PathString())
				}
			}
			delete(s.regs, k)
		}
		return nil, false
	}
	e.AfterCall = func(ev *CallEv, rs []*Term) {
		s := ev.S
		idx := errResults(ev.Common)
		if len(idx) == 0 || neverFails(ev.Key) || ev.Go {
			return
		}
		if c, ok := ev.Instr.(*ssa.Call); ok && ssa.WasDeferred[c] {
			return
		}
		if mayFailSilently(ev) || isQuery(ev) {
			r.Count("tolerated_sites", 1)
			return
		}
		for _, i := range idx {
			if i >= len(rs) || rs[i] == nil || rs[i].op == "const" {
				continue
			}
			s.regs["e|"+short(ev.Key)+"|"+ev.Site+"|"+strconv.Itoa(i)] = rs[i]
		}
	}
	e.OnInstr = func(s *State, in ssa.Instruction, operand func(ssa.Value) *Term) {
		if x, ok := in.(*ssa.Send); ok {
			v := operand(x.X)
			for k, t := range s.regs {
				if strings.HasPrefix(k, "e|") && v.Contains(t) {
					s.regs["h|"+k] = t
				}
			}
		}
	}
	e.OnStore = func(s *State, addr, val *Term, in ssa.Instruction) {
		root := rootOf(addr)
		if root.op == "alloc" {
			return
		}
		for k, t := range s.regs {
			if strings.HasPrefix(k, "e|") && val.Contains(t) {
				s.regs["h|"+k] = t
			}
		}
	}
	e.OnReturn = func(s *State, rs []*Term, ret *ssa.Return) {
		r.Count("paths_to_return", 1)
		var errs []*Term
		res := fn.Signature.Results()
		for i := 0; i < res.Len() && i < len(rs); i++ {
			if isErrorType(res.At(i).Type()) {
				errs = append(errs, rs[i])
			}
		}
		for _, x := range errs {
			if s.KnownNonNil(x) {
				return
			}
		}
		var keys []string
		for k := range s.regs {
			if strings.HasPrefix(k, "e|") {
				keys = append(keys, k)
			}
		}
		for k := range s.auto {
			if strings.HasPrefix(k, "f|") {
				keys = append(keys, k)
			}
		}
		sort.Strings(keys)
		for _, k := range keys {
			var t *Term
			callee := ""
			if strings.HasPrefix(k, "f|") {
				// a failed attempt: fine when a later attempt of the same call succeeded
				callee = strings.SplitN(k, "|", 4)[2]
				recovered := false
				for k2, t2 := range s.regs {
					if strings.HasPrefix(k2, "e|"+callee+"|") && (s.KnownNil(t2) || settled(s, t2, errs)) {
						recovered = true
					}
				}
				if recovered {
					continue
				}
				r.Bad("swallowed:"+name+":"+callee, p.At(ret), "%s can return success although %s failed in an earlier iteration; path %s", name, callee, s.PathString())
				continue
			}
			t = s.regs[k]
			callee = strings.SplitN(k, "|", 3)[1]
			if settled(s, t, errs) || handed(s, e, t) {
				continue
			}
			if s.KnownNonNil(t) {
				ok := false
				for k2, t2 := range s.regs {
					if k2 != k && strings.HasPrefix(k2, "e|"+callee+"|") && s.KnownNil(t2) {
						ok = true
					}
				}
				if ok {
					continue
				}
				r.Bad("swallowed:"+name+":"+callee, p.At(ret), "%s can return without an error although %s failed; path %s", name, callee, s.PathString())
			} else {
				r.Bad("ignored:"+name+":"+callee, p.At(ret), "%s can return without an error and without having looked at the error of %s; path %s", name, callee, s.PathString())
			}
		}
	}
	e.Run(fn, nil, nil)
	r.EngineStats(e, name)
}

// handed: the error was stored where another owner sees it.
func handed(s *State, e *Engine, t *Term) bool {
	for k, x := range s.regs {
		if strings.HasPrefix(k, "h|") && x == t {
			return true
		}
	}
	return false
}
