package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// checkNamedFiles: the files and directories named by settings are looked up, with an error if one doesn't exist, before
// a command downloads, converts or generates anything.
func (ci *configInfo) checkNamedFiles(p *Program, r *Report) {
	fc := &fileCheck{p: p, ci: ci, work: map[*ssa.Function]bool{}, memo: map[string]fileState{}, busy: map[string]bool{}, at: map[string]string{}}
	for _, fn := range p.Funcs {
		if p.ReachesCall(fn, isWork) {
			fc.work[fn] = true
		}
		if p.ReachesCall(fn, func(c *ssa.CallCommon) bool { return isStat(p, c) }) {
			if fc.stats == nil {
				fc.stats = map[*ssa.Function]bool{}
			}
			fc.stats[fn] = true
		}
	}
	var names []string
	for i := 0; i < ci.st.NumFields(); i++ {
		if n := ci.st.Field(i).Name(); pathSettings[n] {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	for _, cmd := range commandFns(p, "Run", "RunE") {
		for _, n := range names {
			fc.field = n
			r.Count("files of settings per command", 1)
			st := fc.run(cmd, false)
			if st.bad != "" {
				r.Bad("file:"+n+":"+FnName(cmd), st.bad, "%s starts working (%s) before it is known that the file or directory of the setting %s exists", FnName(cmd), st.what, n)
			}
		}
	}
	r.AtLeast("files of settings per command", 12)
}

type fileState struct {
	checked   bool // on every way to a return
	bad, what string
}

type fileCheck struct {
	p           *Program
	ci          *configInfo
	field       string
	work, stats map[*ssa.Function]bool
	memo        map[string]fileState
	busy        map[string]bool
	at          map[string]string
}

func isWork(c *ssa.CallCommon) bool {
	k := CalleeKey(c)
	return strings.HasPrefix(k, "(*net/http.Client).") || strings.HasPrefix(k, "(*os/exec.Cmd).") && (strings.HasSuffix(k, ".Run") || strings.HasSuffix(k, ".Start") || strings.HasSuffix(k, "Output"))
}

func isStat(p *Program, c *ssa.CallCommon) bool {
	k := CalleeKey(c)
	return k == "os.Stat" || k == "os.Open" || k == "os.Lstat" || k == "os.ReadDir" || strings.HasSuffix(k, "Filesystem).Stat") || c.IsInvoke() && (c.Method.Name() == "Stat" || c.Method.Name() == "Exists")
}

func ends(p *Program, fn *ssa.Function) bool {
	return p.ReachesCall(fn, func(c *ssa.CallCommon) bool {
		k := CalleeKey(c)
		return k == "os.Exit" || strings.Contains(k, "sigolo") && strings.Contains(k, ".Fatal") || k == "log.Fatal" || k == "log.Fatalf"
	}) || p.ReachesCall(fn, func(c *ssa.CallCommon) bool {
		// the handler of invalid settings, which is a variable
		return c.StaticCallee() == nil && !c.IsInvoke() && c.Signature().Params().Len() == 1 && isError(c.Signature().Params().At(0).Type())
	}) || fn.Signature.Results().Len() > 0 && isError(fn.Signature.Results().At(fn.Signature.Results().Len()-1).Type())
}

func isError(t types.Type) bool { return types.Identical(t, types.Universe.Lookup("error").Type()) }

// ofField: the value is the setting, or one of its elements.
func (fc *fileCheck) ofField(v ssa.Value, d int) bool {
	if d > 8 {
		return false
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return fc.ofField(x.X, d+1)
		}
	case *ssa.FieldAddr:
		f := fieldVar(x.X.Type(), x.Field)
		return f != nil && f.Name() == fc.field && isConfigPtr(x.X.Type(), fc.ci)
	case *ssa.Field:
		if st, ok := x.X.Type().Underlying().(*types.Struct); ok && types.Identical(x.X.Type(), fc.ci.typ) {
			return st.Field(x.Field).Name() == fc.field
		}
	case *ssa.IndexAddr:
		return fc.ofField(x.X, d+1) || fc.listOf(x.X, d+1)
	case *ssa.Index:
		return fc.ofField(x.X, d+1)
	case *ssa.Alloc:
		if s := soleStored(x); s != nil {
			return fc.ofField(s, d+1)
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if fc.ofField(e, d+1) {
				return true
			}
		}
	case *ssa.Extract:
		if n, ok := x.Tuple.(*ssa.Next); ok {
			if rg, ok := n.Iter.(*ssa.Range); ok {
				return fc.ofField(rg.X, d+1) || fc.listOf(rg.X, d+1)
			}
		}
	case *ssa.Slice:
		return fc.ofField(x.X, d+1) || fc.listOf(x.X, d+1)
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return fc.listOf(x, d+1)
		}
		for _, a := range x.Call.Args {
			if fc.ofField(a, d+1) {
				return true
			}
		}
	}
	return false
}

// listOf: the list holds the setting.
func (fc *fileCheck) listOf(v ssa.Value, d int) bool {
	if d > 12 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Slice:
		return fc.listOf(x.X, d+1)
	case *ssa.Alloc:
		for _, u := range *x.Referrers() {
			ia, ok := u.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			for _, w := range *ia.Referrers() {
				if st, ok := w.(*ssa.Store); ok && st.Addr == ia && fc.ofField(st.Val, d+1) {
					return true
				}
			}
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if fc.listOf(e, d+1) {
				return true
			}
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			for _, a := range x.Call.Args {
				if fc.listOf(a, d+1) || fc.ofField(a, d+1) {
					return true
				}
			}
		}
	}
	return false
}

// looksUp: the call finds out whether the file exists, with an error if it doesn't.
func (fc *fileCheck) looksUp(in ssa.Instruction) bool {
	cc := callOf(in)
	if cc == nil {
		return false
	}
	is := isStat(fc.p, cc)
	fatal := ends(fc.p, in.Parent())
	for _, t := range fc.p.repoCallees(cc) {
		is = is || fc.stats[t]
		fatal = fatal || ends(fc.p, t)
	}
	if !is || !fatal {
		return false
	}
	for _, a := range cc.Args {
		if fc.ofField(a, 0) || fc.listOf(a, 0) {
			return true
		}
	}
	return false
}

// single: the call looks up one element of a list only.
func (fc *fileCheck) single(in ssa.Instruction) bool {
	for i := 0; i < fc.ci.st.NumFields(); i++ {
		f := fc.ci.st.Field(i)
		if f.Name() != fc.field {
			continue
		}
		if _, isList := f.Type().Underlying().(*types.Slice); !isList {
			return false
		}
	}
	cc := callOf(in)
	if cc == nil {
		return false
	}
	for _, a := range cc.Args {
		if _, isList := a.Type().Underlying().(*types.Slice); isList && (fc.ofField(a, 0) || fc.listOf(a, 0)) {
			return false
		}
	}
	return true
}

// eachLookedUp: every round of the loop looks up the file of its element, unless it is empty.
func (fc *fileCheck) eachLookedUp(l *natLoop) bool {
	some, avoid := false, false
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		if seen[b] || !l.blocks[b] {
			return
		}
		seen[b] = true
		for _, in := range b.Instrs {
			if fc.looksUp(in) {
				some = true
				return
			}
		}
		for _, t := range l.latches {
			avoid = avoid || t == b
		}
		for i, t := range b.Succs {
			if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok && b.Succs[0] != b.Succs[1] && t != l.head && fc.emptyOn(iff.Cond, i == 0) {
				continue
			}
			if !l.blocks[t] && b != l.head && !endsProgram(t, map[*ssa.BasicBlock]bool{}) {
				avoid = true // the remaining ones aren't looked up
			}
			walk(t)
		}
	}
	walk(l.head)
	// left after looking up an element: only because of what was found
	for b := range l.blocks {
		if seen[b] && b == l.head {
			continue
		}
		for _, t := range b.Succs {
			if l.blocks[t] || endsProgram(t, map[*ssa.BasicBlock]bool{}) {
				continue
			}
			iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !ok || !fc.dependsOnLookup(iff.Cond, 0) {
				avoid = true
			}
		}
	}
	return some && !avoid
}

// dependsOnLookup: the value is computed from the outcome of looking up a file.
func (fc *fileCheck) dependsOnLookup(v ssa.Value, d int) bool {
	if d > 8 {
		return false
	}
	in, ok := v.(ssa.Instruction)
	if !ok {
		return false
	}
	if fc.looksUp(in) {
		return true
	}
	for _, o := range in.Operands(nil) {
		if *o != nil && fc.dependsOnLookup(*o, d+1) {
			return true
		}
	}
	return false
}

// run follows the function: whether the file is looked up on each way to its end, and whether it works before.
func (fc *fileCheck) run(fn *ssa.Function, before bool) (out fileState) {
	key := fc.field + " " + FnName(fn)
	if before {
		return fileState{checked: true}
	}
	if st, ok := fc.memo[key]; ok {
		return st
	}
	if fc.busy[key] || len(fn.Blocks) == 0 {
		return fileState{}
	}
	fc.busy[key] = true
	defer func() { delete(fc.busy, key); fc.memo[key] = out }()
	// loops over the elements of a list looking up each of them
	loopDone := map[*ssa.BasicBlock]bool{}
	for _, l := range loopsOf(fn) {
		if fc.eachLookedUp(l) {
			loopDone[l.head] = true
		}
	}
	inS := map[*ssa.BasicBlock]int{} // 0 unknown, 1 not looked up, 2 looked up
	inS[fn.Blocks[0]] = 1
	all := true
	for round := 0; round < 2; round++ {
		changed := true
		for changed {
			changed = false
			for _, b := range fn.Blocks {
				s := inS[b]
				if s == 0 {
					continue
				}
				done := s == 2 || loopDone[b]
				for _, in := range b.Instrs {
					if done {
						break
					}
					if !fc.single(in) && fc.looksUp(in) {
						done = true
						break
					}
					cc := callOf(in)
					if cc == nil {
						continue
					}
					if _, isDefer := in.(*ssa.Defer); isDefer {
						continue
					}
					must := true
					ts := fc.p.repoCallees(cc)
					for _, t := range ts {
						st := fc.run(t, false)
						if st.bad != "" && round == 1 && out.bad == "" {
							out.bad, out.what = st.bad, st.what
						}
						must = must && st.checked
					}
					if len(ts) > 0 && must {
						done = true
						break
					}
					if isWork(cc) && round == 1 && out.bad == "" {
						out.bad, out.what = fc.p.At(in), CalleeKey(cc)
					}
				}
				last := b.Instrs[len(b.Instrs)-1]
				if _, isRet := last.(*ssa.Return); isRet && !done && round == 1 {
					all = false
				}
				for i, t := range b.Succs {
					d := done
					if iff, ok := last.(*ssa.If); ok && !d && b.Succs[0] != b.Succs[1] && fc.emptyOn(iff.Cond, i == 0) {
						d = true
					}
					v := 1
					if d {
						v = 2
					}
					if inS[t] == 0 || inS[t] == 2 && v == 1 {
						inS[t] = v
						changed = true
					}
				}
			}
		}
	}
	out.checked = all
	return
}

// emptyOn: with this outcome of the decision the setting is empty, so there is no file.
func (fc *fileCheck) emptyOn(cond ssa.Value, val bool) bool {
	switch x := cond.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return fc.emptyOn(x.X, !val)
		}
	case *ssa.BinOp:
		var o ssa.Value
		k, ok := x.Y.(*ssa.Const)
		o = x.X
		if !ok {
			k, ok = x.X.(*ssa.Const)
			o = x.Y
		}
		if !ok || k.Value == nil {
			return false
		}
		zero := k.Value.ExactString() == `""` || k.Value.ExactString() == "0"
		if call, isC := o.(*ssa.Call); isC {
			if b, isB := call.Call.Value.(*ssa.Builtin); !isB || b.Name() != "len" {
				if CalleeKey(&call.Call) != "strings.TrimSpace" {
					return false
				}
			}
			o = call.Call.Args[0]
		}
		if !zero || !fc.ofField(o, 0) {
			return false
		}
		return x.Op == token.EQL && val || x.Op == token.NEQ && !val || x.Op == token.GTR && o != x.Y && !val || x.Op == token.LEQ && val
	}
	return false
}
