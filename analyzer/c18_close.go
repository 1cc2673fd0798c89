package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C18", Title: "opened resources are closed on every path",
		Rule: "ownership typestate over every path of every function: a value with a Close method, or an HTTP response, obtained from a call is owned by the function; on every return it was closed, is handed to the caller together with a possibly nil error, or was stored in an object that outlives the function; it is not used or handed on after it was closed and is closed before the same call opens the next one",
		Run:  runC18})
}

// isCloser: an interface or pointer type with the method Close() error or Close().
func isCloser(t types.Type) bool {
	if t == nil {
		return false
	}
	obj, _, _ := types.LookupFieldOrMethod(t, true, nil, "Close")
	f, ok := obj.(*types.Func)
	if !ok {
		return false
	}
	sig := f.Type().(*types.Signature)
	return sig.Params().Len() == 0 && sig.Results().Len() <= 1
}

func isResponse(t types.Type) bool {
	if p, ok := types.Unalias(t).(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == "Response" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "net/http"
}

func isResource(t types.Type) bool { return isResponse(t) || isCloser(t) }

// opensNothing: constructors of closers that hold no resource.
func opensNothing(k string) bool {
	switch k {
	case "io.NopCloser", "io.Pipe", "net/http.NewRequest", "net/http.NewRequestWithContext":
		return true
	}
	return false
}

func takesResource(fn *ssa.Function) bool {
	for _, p := range fn.Params {
		if isResource(p.Type()) {
			return true
		}
	}
	return false
}

func givesResource(sig *types.Signature) bool {
	for i := 0; i < sig.Results().Len(); i++ {
		if isResource(sig.Results().At(i).Type()) {
			return true
		}
	}
	return false
}

func runC18(p *Program, r *Report) {
	r.Assume = []string{"a call returning a non-nil error returns no open resource (checked for the repository's own functions, trusted for libraries)", "the end of the process releases everything"}
	for _, fn := range p.Funcs {
		if fn.Blocks == nil {
			continue
		}
		opens := false
		for _, c := range CallSites(fn) {
			if _, ok := c.(*ssa.Go); !ok && givesResource(c.Common().Signature()) && !opensNothing(CalleeKey(c.Common())) {
				opens = true
				r.Count("opening_call_sites", 1)
			}
		}
		if !opens {
			continue
		}
		if fn.Parent() != nil && !calledAsync(fn) && enclosingOnlyCalls(p, fn) {
			continue // analysed as part of the enclosing function
		}
		r.Count("functions_analysed", 1)
		checkClose(p, r, fn)
	}
	r.AtLeast("opening_call_sites", 8)
	r.AtLeast("closed_on_return", 5)
}

func calledAsync(fn *ssa.Function) bool { return false }

// enclosingOnlyCalls: the closure is only called or deferred by the function defining it (so it is inlined there).
func enclosingOnlyCalls(p *Program, fn *ssa.Function) bool {
	par := fn.Parent()
	for _, b := range par.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			if mc, ok := c.Common().Value.(*ssa.MakeClosure); ok && mc.Fn == fn {
				if _, isGo := in.(*ssa.Go); !isGo {
					return true
				}
			}
			if c.Common().Value == ssa.Value(fn) {
				if _, isGo := in.(*ssa.Go); !isGo {
					return true
				}
			}
		}
	}
	return false
}

func stripIface(t *Term) *Term {
	for t != nil && (t.op == "iface" || t.op == "unbox") {
		t = t.args[0]
	}
	return t
}

func checkClose(p *Program, r *Report, fn *ssa.Function) {
	name := FnName(fn)
	e := NewEngine(p)
	e.FreshErr = true
	e.Coarse = true
	e.Inline = func(c *ssa.Function) bool {
		if c.Parent() != nil {
			return true
		}
		return takesResource(c) || smallPure(c) && !givesResource(c.Signature)
	}
	// regs: "r|<site>" the resource, "e|<site>" the error of opening it; auto "s|<site>": "" owned, closed, escaped
	owns := func(t, res *Term) bool {
		t = stripIface(t)
		return t == res || t.Contains(res) && t.op != "nameof"
	}
	each := func(s *State, f func(site string, res *Term)) {
		var ks []string
		for k := range s.regs {
			if strings.HasPrefix(k, "r|") {
				ks = append(ks, k[2:])
			}
		}
		sort.Strings(ks)
		for _, k := range ks {
			f(k, s.regs["r|"+k])
		}
	}
	live := func(s *State, site string) bool {
		if s.auto["s|"+site] != "" {
			return false
		}
		if er := s.regs["e|"+site]; er != nil && s.KnownNonNil(er) {
			return false
		}
		res := s.regs["r|"+site]
		if s.KnownNil(res) {
			return false
		}
		if st := s.auto["t|"+site]; st == "response" {
			// a response without a body holds nothing
			for f, v := range s.facts {
				if v && f.op == "==" && (f.args[0].IsNilConst() && isBodyOf(f.args[1], res) || f.args[1].IsNilConst() && isBodyOf(f.args[0], res)) {
					return false
				}
			}
		}
		return true
	}
	e.PinFact = func(s *State, t *Term) bool {
		pin := false
		if t.op == "==" {
			for k, res := range s.regs {
				if strings.HasPrefix(k, "r|") && s.auto["t|"+k[2:]] == "response" && (isBodyOf(t.args[0], res) || isBodyOf(t.args[1], res)) {
					pin = true
				}
			}
		}
		return pin
	}
	callName := func(site string) string { return s2(site) }
	e.OnCall = func(ev *CallEv) ([]*Term, bool) {
		s := ev.S
		m := methodName(ev.Key)
		if m == "Close" && len(ev.Args) == 1 {
			hit := false
			each(s, func(site string, res *Term) {
				if owns(ev.Args[0], res) {
					hit = true
					if s.auto["s|"+site] == "" {
						s.auto["s|"+site] = "closed"
						r.Count("closes", 1)
					}
				}
			})
			if hit {
				return nil, false
			}
		}
		// use after close
		if ev.Callee == nil || !p.IsRepoFn(ev.Callee) {
			if m != "Close" && m != "Name" && !isLogCall(ev.Key) {
				each(s, func(site string, res *Term) {
					if s.auto["s|"+site] != "closed" {
						return
					}
					for i, a := range ev.Args {
						if usesOpen(ev, i, a, res) {
							r.Bad("use-after-close:"+name+":"+callName(site), p.At(ev.Instr), "%s uses the result of %s in a call of %s after it was closed; path %s", name, callName(site), short(ev.Key), s.PathString())
						}
					}
				})
			}
		}
		if keepsArgument(ev.Key) {
			each(s, func(site string, res *Term) {
				for _, a := range ev.Args {
					if owns(a, res) && s.auto["s|"+site] == "" {
						s.auto["s|"+site] = "escaped"
					}
				}
			})
		}
		if ev.Go || opensNothing(ev.Key) || !givesResource(ev.Common.Signature()) {
			return nil, false
		}
		if ev.Callee != nil && p.IsRepoFn(ev.Callee) && e.Inline(ev.Callee) {
			return nil, false
		}
		sig := ev.Common.Signature()
		n := sig.Results().Len()
		site := short(ev.Key) + "|" + ev.Site
		if old := s.regs["r|"+site]; old != nil && live(s, site) {
			r.Bad("leak-loop:"+name+":"+short(ev.Key), p.At(ev.Instr), "%s calls %s again while the result of the previous call is still open; path %s", name, short(ev.Key), s.PathString())
		}
		rs := e.freshResults(s, ev, n)
		delete(s.auto, "s|"+site)
		delete(s.regs, "e|"+site)
		for i := 0; i < n; i++ {
			t := sig.Results().At(i).Type()
			if isResource(t) {
				s.regs["r|"+site] = rs[i]
				if isResponse(t) {
					s.auto["t|"+site] = "response"
				}
			} else if isErrorType(t) {
				s.regs["e|"+site] = rs[i]
			}
		}
		return rs, true
	}
	e.OnStore = func(s *State, addr, val *Term, in ssa.Instruction) {
		if rootOf(addr).op == "alloc" {
			return
		}
		each(s, func(site string, res *Term) {
			if owns(val, res) && s.auto["s|"+site] == "" {
				s.auto["s|"+site] = "escaped"
			}
		})
	}
	e.OnInstr = func(s *State, in ssa.Instruction, operand func(ssa.Value) *Term) {
		var vs []ssa.Value
		switch x := in.(type) {
		case *ssa.Send:
			vs = append(vs, x.X)
		case *ssa.MapUpdate:
			vs = append(vs, x.Value)
		case *ssa.Go:
			vs = append(vs, x.Call.Args...)
			vs = append(vs, x.Call.Value)
		}
		for _, v := range vs {
			if v == nil {
				continue
			}
			t := operand(v)
			each(s, func(site string, res *Term) {
				if t != nil && owns(t, res) && s.auto["s|"+site] == "" {
					s.auto["s|"+site] = "escaped"
				}
			})
		}
	}
	e.OnReturn = func(s *State, rs []*Term, ret *ssa.Return) {
		sig := fn.Signature.Results()
		failed := false
		for i := 0; i < sig.Len() && i < len(rs); i++ {
			if isErrorType(sig.At(i).Type()) && s.KnownNonNil(rs[i]) {
				failed = true
			}
		}
		each(s, func(site string, res *Term) {
			r.Count("resources_at_return", 1)
			given := false
			for i := 0; i < sig.Len() && i < len(rs); i++ {
				if holdsResource(sig.At(i).Type()) && reaches(s, rs[i], res, 0) {
					given = true
				}
			}
			if s.auto["s|"+site] == "closed" {
				r.Count("closed_on_return", 1)
				if given && !failed {
					r.Bad("closed-returned:"+name+":"+callName(site), p.At(ret), "%s hands the result of %s to its caller after closing it; path %s", name, callName(site), s.PathString())
				}
				return
			}
			if !live(s, site) {
				return
			}
			if given && !failed {
				r.Count("handed_to_caller", 1)
				return
			}
			r.Bad("leak:"+name+":"+callName(site), p.At(ret), "%s can return without closing the result of %s; path %s", name, callName(site), s.PathString())
		})
	}
	e.Run(fn, nil, nil)
	r.EngineStats(e, name)
}

func s2(site string) string { return strings.SplitN(site, "|", 2)[0] }

// holdsResource: a value of the type can carry an open resource (closers, readers and structs with such fields).
func holdsResource(t types.Type) bool {
	if isResource(t) {
		return true
	}
	if isErrorType(t) {
		return false
	}
	switch u := types.Unalias(t).Underlying().(type) {
	case *types.Interface:
		return true
	case *types.Pointer, *types.Struct, *types.Slice, *types.Map:
		return true
	case *types.Signature:
		_ = u
		return true
	}
	return false
}

// reaches: the resource is the value, a part of it, or is stored in the local object it points to.
func reaches(s *State, v, res *Term, depth int) bool {
	v = stripIface(v)
	if v.Contains(res) {
		return true
	}
	if depth > 3 {
		return false
	}
	for a, x := range s.mem {
		if rootOf(a) == v && reaches(s, x, res, depth+1) {
			return true
		}
	}
	return false
}

// usesOpen: argument i of the call reads from or writes to the resource.
func usesOpen(ev *CallEv, i int, a, res *Term) bool {
	a = stripIface(a)
	if a != res && !(a.op == "deref" && a.Contains(res)) {
		return false
	}
	switch methodName(ev.Key) {
	case "Read", "Write", "WriteString", "ReadAll", "Copy", "CopyN", "ReadFrom", "WriteTo", "Seek", "Sync", "Decode", "Fprintf", "Fprint", "Fprintln", "NewDecoder", "NewReader", "NewScanner", "NewWriter", "ReaderToString":
		return true
	}
	return false
}

func short(k string) string { return k[strings.LastIndexByte(k, '/')+1:] }

// isBodyOf: the term reads the body of the response.
func isBodyOf(t, res *Term) bool {
	t = stripIface(t)
	return t.op != "extract" && t != res && t.Contains(res) && t.Any(func(x *Term) bool { return x.op == "field&" && fieldName(x.name) == "Body" })
}

// keepsArgument: library calls that go on using the writer until the program ends.
func keepsArgument(k string) bool {
	return k == "runtime/pprof.StartCPUProfile" || k == "runtime/trace.Start"
}
