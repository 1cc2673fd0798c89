package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C29", Title: "the result is written to the output file asked for",
		Rule: "backward dataflow from every place that names the file to write (pandoc's output option, the EPUB library, the combined statistics): each value it can be made from is the option of the command line, the output file of the project, or a default name chosen because of the output type; on the way the path is only made absolute or joined with such a default name; a project's own file is used exactly if the option was not given (symbolic execution of the command)",
		Run:  runC29})
}

func runC29(p *Program, r *Report) {
	r.Assume = []string{"pandoc and the EPUB library write to the path they get", "cobra stores the value of an option in the variable it was registered with"}
	ci := configOf(p, r)
	if ci == nil {
		return
	}
	ci.checkOutput(p, r)
	r.AtLeast("output files chosen", 2)
	bound := outputVars(p)
	for _, fn := range p.Funcs {
		if !inPkg(fn, "generator") {
			continue
		}
		for _, s := range writeTargets(fn) {
			if s.val == nil {
				continue
			}
			r.Count("places naming the file to write", 1)
			traceOutput(p, r, fn, s, bound)
		}
	}
	r.AtLeast("places naming the file to write", 3)
	r.AtLeast("sources of the path", 3)
}

type outputSink struct {
	val  ssa.Value
	at   ssa.Instruction
	what string
}

func writeTargets(fn *ssa.Function) (out []outputSink) {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if cc := callOf(in); cc != nil {
				k := CalleeKey(cc)
				args := cc.Args
				switch m := methodName(k); {
				case strings.Contains(k, "go-epub") && m == "Write" && len(args) > 1:
					out = append(out, outputSink{args[1], in, "the EPUB library"})
				case k == "os.Create" || k == "os.WriteFile" || k == "os.OpenFile":
					out = append(out, outputSink{args[0], in, k})
				case cc.IsInvoke() && (m == "Create" || m == "WriteFile" || m == "OpenFile") && isText(args[0]):
					out = append(out, outputSink{args[0], in, "the file system"})
				}
			}
			st, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			ia, ok := st.Addr.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			if bo, ok := st.Val.(*ssa.BinOp); ok && bo.Op == token.ADD {
				if t, ok := textConst(bo.X); ok && (t == "--output=" || t == "-o") {
					out = append(out, outputSink{bo.Y, in, "pandoc"})
				}
			}
			t, ok := textConst(st.Val)
			k, ok2 := ia.Index.(*ssa.Const)
			if !ok || !ok2 || t != "-o" && t != "--output" {
				continue
			}
			for _, ref := range *ia.X.Referrers() {
				ib, ok := ref.(*ssa.IndexAddr)
				if !ok {
					continue
				}
				if k2, ok := ib.Index.(*ssa.Const); !ok || k2.Int64() != k.Int64()+1 {
					continue
				}
				for _, r2 := range *ib.Referrers() {
					if s2, ok := r2.(*ssa.Store); ok && s2.Addr == ssa.Value(ib) {
						out = append(out, outputSink{s2.Val, s2, "pandoc"})
					}
				}
			}
		}
	}
	return
}

func isText(v ssa.Value) bool {
	b, ok := v.Type().Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func textConst(v ssa.Value) (string, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.String {
		return "", false
	}
	return constant.StringVal(c.Value), true
}

func traceOutput(p *Program, r *Report, fn *ssa.Function, s outputSink, bound map[ssa.Value]bool) {
	at := p.At(s.at)
	key := FnName(fn) + ":" + s.what
	bad := func(format string, args ...any) {
		r.Bad("path:"+key, at, "the path %s gets to write the result to "+format, append([]any{s.what}, args...)...)
	}
	o := &origins{p: p}
	abs := func(c *ssa.Call) bool {
		switch strings.TrimPrefix(CalleeKey(&c.Call), modPath+"/") {
		case "util.ToAbsolutePath", "path/filepath.Abs", "path/filepath.Clean", "path.Clean":
			return true
		}
		return false
	}
	// guarded: a name chosen because of the type of the output
	guarded := func(b *ssa.BasicBlock) bool {
		seen := map[*ssa.BasicBlock]bool{}
		var free func(x *ssa.BasicBlock) bool
		free = func(x *ssa.BasicBlock) bool {
			if x == b {
				return true
			}
			if seen[x] {
				return false
			}
			seen[x] = true
			iff, ok := x.Instrs[len(x.Instrs)-1].(*ssa.If)
			for i, t := range x.Succs {
				if ok && aboutType(iff.Cond, i == 0, 0) {
					continue
				}
				if free(t) {
					return true
				}
			}
			return false
		}
		return !free(b.Parent().Blocks[0])
	}
	o.stop = func(v ssa.Value, via []ssa.Value) bool {
		switch u := v.(type) {
		case *ssa.Const:
			t, ok := textConst(u)
			if !ok || t == "" {
				return true
			}
			r.Count("sources of the path", 1)
			if len(via) > 0 {
				switch w := via[len(via)-1].(type) {
				case *ssa.Phi:
					fine := true
					for i, e := range w.Edges {
						if e == v {
							fine = fine && guarded(w.Block().Preds[i])
						}
					}
					if fine {
						return true
					}
				case *ssa.Call:
					if guarded(w.Block()) {
						return true
					}
				}
			}
			bad("can be the fixed name %q, whatever output file was asked for", t)
			return true
		case *ssa.BinOp:
			bad("is put together at %s", p.At(u))
			return true
		case *ssa.Slice:
			bad("is cut at %s", p.At(u))
			return true
		case *ssa.Extract:
			if c, ok := u.Tuple.(*ssa.Call); ok && abs(c) && u.Index == 0 {
				o.walk(c.Call.Args[0], append(via[:len(via):len(via)], c))
				return true
			}
		case *ssa.Call:
			if abs(u) {
				o.walk(u.Call.Args[0], append(via[:len(via):len(via)], u))
				return true
			}
			if k := CalleeKey(&u.Call); k == "path.Join" || k == "path/filepath.Join" {
				els := variadicArgs(u.Call.Args[0])
				if len(els) == 2 {
					if _, ok := textConst(els[1]); ok && guarded(u.Block()) {
						o.walk(els[0], append(via[:len(via):len(via)], u))
						return true
					}
				}
				bad("is joined with something else at %s", p.At(u))
				return true
			}
		case *ssa.UnOp:
			if u.Op != token.MUL {
				break
			}
			if bound[u.X] || boundCell(p, u.X, bound) {
				r.Count("sources of the path", 1)
			}
		}
		return false
	}
	o.leaf = func(v ssa.Value, via []ssa.Value) {
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
			if fa, ok := u.X.(*ssa.FieldAddr); ok && fieldVar(fa.X.Type(), fa.Field).Name() == "OutputFile" {
				r.Count("sources of the path", 1)
				return
			}
			if bound[u.X] || boundCell(p, u.X, bound) {
				return
			}
		}
		what := v.String()
		if in, ok := v.(ssa.Instruction); ok {
			what += " at " + p.At(in)
		}
		bad("can be something else than the output file asked for: %s", what)
	}
	o.walk(s.val, nil)
}

// aboutType: with this outcome of the decision the output has a certain type, or the path is a folder.
func aboutType(v ssa.Value, val bool, d int) bool {
	if d > 6 {
		return false
	}
	switch u := v.(type) {
	case *ssa.Call:
		return val && methodName(CalleeKey(&u.Call)) == "IsDir"
	case *ssa.UnOp:
		return u.Op == token.NOT && aboutType(u.X, !val, d+1)
	case *ssa.BinOp:
		if u.Op == token.EQL && val || u.Op == token.NEQ && !val {
			return isTypeSetting(u.X) || isTypeSetting(u.Y)
		}
	case *ssa.Phi:
		// each way to this outcome
		for i, e := range u.Edges {
			if k, ok := e.(*ssa.Const); ok {
				if constant.BoolVal(k.Value) == val {
					pr := u.Block().Preds[i]
					iff, ok := pr.Instrs[len(pr.Instrs)-1].(*ssa.If)
					if !ok || !aboutType(iff.Cond, pr.Succs[0] == u.Block(), d+1) {
						return false
					}
				}
				continue
			}
			// the other part of a conjunction
			pr := u.Block().Preds[i]
			fine := aboutType(e, val, d+1)
			for _, pp := range pr.Preds {
				if iff, ok := pp.Instrs[len(pp.Instrs)-1].(*ssa.If); ok && len(pr.Preds) == 1 {
					fine = fine || aboutType(iff.Cond, pp.Succs[0] == pr, d+1)
				}
			}
			if !fine {
				return false
			}
		}
		return true
	}
	return false
}

func isTypeSetting(v ssa.Value) bool {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return false
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	return ok && fieldVar(fa.X.Type(), fa.Field).Name() == "OutputType"
}

func boundCell(p *Program, a ssa.Value, bound map[ssa.Value]bool) bool {
	fv, ok := a.(*ssa.FreeVar)
	return ok && bound[p.binding(fv)]
}

// outputVars: the variables the option for the output file is stored in.
func outputVars(p *Program) map[ssa.Value]bool {
	out := map[ssa.Value]bool{}
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				cc := callOf(in)
				if cc == nil || !strings.HasPrefix(methodName(CalleeKey(cc)), "StringVar") || len(cc.Args) < 3 {
					continue
				}
				for _, a := range cc.Args[2:] {
					t, ok := textConst(a)
					if !ok {
						t, ok = textConst(p.resolve(a))
					}
					if ok && (t == "output" || t == "o") {
						out[cc.Args[1]] = true
					}
				}
			}
		}
	}
	return out
}
