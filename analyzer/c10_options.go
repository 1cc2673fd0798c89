package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C10", Title: "Every accepted option value is implemented by every feature depending on it",
		Rule: "for every accepted combination of enumerated settings, interprocedural conditional constant propagation leaves no failing branch decided by a setting, no dispatch with an empty branch, an output file on every successful way, and the documented method for each value",
		Run:  runC10})
}

type combo map[string]string

func (c combo) String() string {
	var ks []string
	for k := range c {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var out []string
	for _, k := range ks {
		out = append(out, k+"="+c[k])
	}
	return strings.Join(out, " ")
}

// optionCombos lists all documented combinations of the enumerated settings.
func optionCombos() []combo {
	combos := []combo{{}}
	for _, sp := range validSpecs() {
		if sp.enums == nil {
			continue
		}
		var next []combo
		for _, c := range combos {
			for _, vals := range sp.enums {
				n := combo{}
				for k, v := range c {
					n[k] = v
				}
				for i, f := range sp.fields {
					n[f] = vals[i]
				}
				next = append(next, n)
			}
		}
		combos = next
	}
	return combos
}

// optionValues lists the documented values of each enumerated setting.
func optionValues() map[string]map[string]bool {
	out := map[string]map[string]bool{}
	for _, sp := range validSpecs() {
		for _, vals := range sp.enums {
			for i, f := range sp.fields {
				if out[f] == nil {
					out[f] = map[string]bool{}
				}
				out[f][vals[i]] = true
			}
		}
	}
	return out
}

func (ci *configInfo) comboEnv(c combo) func(fv *types.Var) (constant.Value, bool) {
	fields := map[*types.Var]constant.Value{}
	for i := 0; i < ci.st.NumFields(); i++ {
		if v, ok := c[ci.st.Field(i).Name()]; ok {
			fields[ci.st.Field(i)] = constant.MakeString(v)
		}
	}
	return func(fv *types.Var) (constant.Value, bool) {
		v, ok := fields[fv]
		return v, ok
	}
}

// postDoms: for each block the set of blocks on every path from it to an exit, over the static control flow graph.
func postDoms(fn *ssa.Function, succs func(b *ssa.BasicBlock) []*ssa.BasicBlock) map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool {
	all := map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		all[b] = true
	}
	pd := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		if len(succs(b)) == 0 {
			pd[b] = map[*ssa.BasicBlock]bool{b: true}
		} else {
			m := map[*ssa.BasicBlock]bool{}
			for k := range all {
				m[k] = true
			}
			pd[b] = m
		}
	}
	for changed := true; changed; {
		changed = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			ss := succs(b)
			if len(ss) == 0 {
				continue
			}
			n := map[*ssa.BasicBlock]bool{}
			for k := range pd[ss[0]] {
				in := true
				for _, s := range ss[1:] {
					in = in && pd[s][k]
				}
				if in {
					n[k] = true
				}
			}
			n[b] = true
			if len(n) != len(pd[b]) {
				pd[b] = n
				changed = true
			}
		}
	}
	return pd
}

func staticSuccs(b *ssa.BasicBlock) []*ssa.BasicBlock { return b.Succs }

// freshError: v is an error made here (not one handed on from a failed call).
func freshError(v ssa.Value, depth int) bool {
	if depth > 4 {
		return false
	}
	switch u := v.(type) {
	case *ssa.MakeInterface:
		return freshError(u.X, depth+1)
	case *ssa.Call:
		k := CalleeKey(&u.Call)
		if isErrWrap(k) {
			return freshError(u.Call.Args[0], depth+1)
		}
		switch k {
		case "github.com/pkg/errors.New", "github.com/pkg/errors.Errorf", "errors.New":
			return true
		case "fmt.Errorf":
			// with a wrapped error among the arguments it hands that one on
			return true
		}
	case *ssa.Phi:
		for _, e := range u.Edges {
			if !freshError(e, depth+1) {
				return false
			}
		}
		return true
	}
	return false
}

// failsHere: the block ends the program or returns an error it made itself.
func failsHere(b *ssa.BasicBlock) (ssa.Instruction, bool) {
	for _, in := range b.Instrs {
		switch i := in.(type) {
		case *ssa.Call:
			k := CalleeKey(&i.Call)
			switch noReturn(k) {
			case "always":
				return in, true
			case "iferr":
				if len(i.Call.Args) > 0 && freshError(i.Call.Args[0], 0) {
					return in, true
				}
			}
		case *ssa.Panic:
			return in, true
		case *ssa.Return:
			for n := range i.Results {
				v := retVal(i, n)
				if isErrorType(v.Type()) && freshError(v, 0) {
					return in, true
				}
			}
		}
	}
	return nil, false
}

// optionTest: the block is (only) a comparison of an enumerated setting with a documented value.
type optionTest struct {
	field, value string
	eq           bool
}

func runC10(p *Program, r *Report) {
	ci := configOf(p, r)
	if ci == nil {
		return
	}
	values := optionValues()
	for f := range values {
		found := false
		for i := 0; i < ci.st.NumFields(); i++ {
			found = found || ci.st.Field(i).Name() == f
		}
		if !found {
			r.Undecided("no-option:"+f, "", "the setting %s was not found", f)
		}
	}
	cmds := commandFns(p, "Run", "RunE")
	roots := append([]*ssa.Function{}, cmds...)
	if m := p.Func("", "main"); m != nil {
		roots = append(roots, m)
	}
	pdCache := map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	pds := func(fn *ssa.Function) map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool {
		if pdCache[fn] == nil {
			pdCache[fn] = postDoms(fn, staticSuccs)
		}
		return pdCache[fn]
	}
	outside := func(fn *ssa.Function) bool {
		pk := fnPkg(fn)
		return pk != nil && pk != p.Pkg("config").Pkg && !isInit(fn)
	}
	type perCombo struct {
		c combo
		x *SCCP
	}
	var runs []perCombo
	for _, c := range optionCombos() {
		x := p.RunSCCP(roots, ci.comboEnv(c))
		runs = append(runs, perCombo{c, x})
		r.Count("combinations of settings", 1)
		for fn := range x.fns {
			if !outside(fn) {
				continue
			}
			r.Count("functions x combinations", 1)
			for _, b := range fn.Blocks {
				if !x.blocks[b] {
					continue
				}
				iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
				if !ok || x.deadIn(b) {
					continue
				}
				l := x.get(iff.Cond)
				if l.k != latConst || !l.opt {
					continue
				}
				r.Count("decisions", 1)
				taken := b.Succs[1]
				if constant.BoolVal(l.c) {
					taken = b.Succs[0]
				}
				// everything that necessarily follows the decision because of the decision
				pd := pds(fn)
				for t := range pd[taken] {
					if pd[b][t] && t != b {
						continue
					}
					if in, bad := failsHere(t); bad && x.Live(in) && !failsAnyway(p, x, b, t, pd) {
						opt := optionOf(iff.Cond, ci)
						r.Bad("fails:"+FnName(fn)+":"+opt+"="+c[opt], p.At(in), "with the accepted combination %s, %s ends with an internal error (%s)", c, FnName(fn), p.At(iff))
					}
				}
			}
		}
	}
	silent := map[string]bool{}
	for _, rc := range runs {
		for fn := range rc.x.fns {
			if outside(fn) {
				checkChains(p, r, ci, rc.c, rc.x, fn, values, pds(fn), silent)
			}
		}
	}
	checkOutput(p, r, ci, cmds)
	for _, rc := range runs {
		checkFeatures(p, r, ci, rc.c, rc.x)
	}
	r.AtLeast("decisions", 40)
}

// failsAnyway: the failing block is also what follows when the decision goes the other way.
func failsAnyway(p *Program, x *SCCP, b, t *ssa.BasicBlock, pd map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool) bool {
	return pd[b.Succs[0]][t] && pd[b.Succs[1]][t]
}

// optionOf names the setting a condition is about.
func optionOf(v ssa.Value, ci *configInfo) string {
	seen := map[ssa.Value]bool{}
	out := ""
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if v == nil || seen[v] || out != "" {
			return
		}
		seen[v] = true
		if fa, ok := v.(*ssa.FieldAddr); ok && fieldIsSetting(fa.X.Type(), fa.Field, ci) {
			out = fieldVar(fa.X.Type(), fa.Field).Name()
			return
		}
		if in, ok := v.(ssa.Instruction); ok {
			for _, op := range in.Operands(nil) {
				if op != nil && *op != nil {
					walk(*op)
				}
			}
		}
	}
	walk(v)
	if out == "" {
		out = "option"
	}
	return out
}

func fieldIsSetting(t types.Type, i int, ci *configInfo) bool {
	fv := fieldVar(t, i)
	if fv == nil {
		return false
	}
	for k := 0; k < ci.st.NumFields(); k++ {
		if ci.st.Field(k) == fv {
			return true
		}
	}
	return false
}

// testOf: the condition of a block compares a setting with a constant (through loads only).
func testOf(b *ssa.BasicBlock, ci *configInfo) (optionTest, bool) {
	iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return optionTest{}, false
	}
	bo, ok := iff.Cond.(*ssa.BinOp)
	if !ok || bo.Op != token.EQL && bo.Op != token.NEQ {
		return optionTest{}, false
	}
	for _, pr := range [][2]ssa.Value{{bo.X, bo.Y}, {bo.Y, bo.X}} {
		c, ok := pr[1].(*ssa.Const)
		if !ok || c.Value == nil || c.Value.Kind() != constant.String {
			continue
		}
		if f := settingValue(pr[0], ci, 0); f != "" {
			return optionTest{f, constant.StringVal(c.Value), bo.Op == token.EQL}, true
		}
	}
	return optionTest{}, false
}

// settingValue: v is the value of a setting (loaded from the configuration, directly or through a parameter).
func settingValue(v ssa.Value, ci *configInfo, depth int) string {
	switch u := v.(type) {
	case *ssa.UnOp:
		if fa, ok := u.X.(*ssa.FieldAddr); ok && fieldIsSetting(fa.X.Type(), fa.Field, ci) {
			return fieldVar(fa.X.Type(), fa.Field).Name()
		}
	case *ssa.Field:
		if fieldIsSetting(u.X.Type(), u.Field, ci) {
			return fieldVar(u.X.Type(), u.Field).Name()
		}
	}
	return ""
}

func onlyTest(b *ssa.BasicBlock, ci *configInfo) bool {
	for _, in := range b.Instrs {
		switch i := in.(type) {
		case *ssa.FieldAddr, *ssa.BinOp, *ssa.If, *ssa.DebugRef:
		case *ssa.UnOp:
			if i.Op != token.MUL {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// checkChains looks at each maximal chain of comparisons of one setting (switch, if-else-if): a value whose exit is the
// join point of the chain although nearly all other values have a branch of their own is silently ignored.
func checkChains(p *Program, r *Report, ci *configInfo, c combo, x *SCCP, fn *ssa.Function, values map[string]map[string]bool, pd map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool, silent map[string]bool) {
	inner := map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		if !x.blocks[b] {
			continue
		}
		t, ok := testOf(b, ci)
		if !ok || values[t.field] == nil || inner[b] {
			continue
		}
		// follow the chain
		chain := map[*ssa.BasicBlock]bool{b: true}
		compared := map[string]bool{t.value: true}
		for work := []*ssa.BasicBlock{b}; len(work) > 0; {
			q := work[0]
			work = work[1:]
			for _, s := range q.Succs {
				if chain[s] {
					continue
				}
				if t2, ok := testOf(s, ci); ok && t2.field == t.field && onlyTest(s, ci) && allPredsIn(s, chain, b) {
					chain[s] = true
					inner[s] = true
					compared[t2.value] = true
					work = append(work, s)
				}
			}
		}
		need := len(values[t.field]) - 1
		if need < 2 {
			need = 2
		}
		n := 0
		for v := range compared {
			if values[t.field][v] {
				n++
			}
		}
		if n < need || c[t.field] == "none" {
			continue
		}
		r.Count("option dispatches", 1)
		// exit under this combination
		q := b
		for i := 0; chain[q] && i < 50; i++ {
			l := x.get(q.Instrs[len(q.Instrs)-1].(*ssa.If).Cond)
			if l.k != latConst {
				break
			}
			if constant.BoolVal(l.c) {
				q = q.Succs[0]
			} else {
				q = q.Succs[1]
			}
		}
		if chain[q] {
			continue
		}
		// skip empty blocks
		for len(q.Instrs) == 1 && len(q.Succs) == 1 && !pd[b][q] {
			q = q.Succs[0]
		}
		if pd[b][q] && q != b && len(pd[b]) > 1 {
			key := "ignored:" + FnName(fn) + ":" + t.field + "=" + c[t.field]
			if !silent[key] && !onlyChecks(b, q, pd) {
				silent[key] = true
				r.Bad(key, p.At(b.Instrs[len(b.Instrs)-1]), "%s does nothing for the accepted value %s of %s, although it handles other values", FnName(fn), c[t.field], t.field)
			}
		}
	}
}

// onlyChecks: all branches of the dispatch end in failures (a validity check, which accepts by doing nothing).
func onlyChecks(b, join *ssa.BasicBlock, pd map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool) bool {
	seen := map[*ssa.BasicBlock]bool{join: true}
	work := []*ssa.BasicBlock{b}
	any := false
	for len(work) > 0 {
		q := work[0]
		work = work[1:]
		if seen[q] {
			continue
		}
		seen[q] = true
		if _, bad := failsHere(q); bad {
			any = true
			continue
		}
		for _, in := range q.Instrs {
			switch in.(type) {
			case *ssa.Call, *ssa.Store, *ssa.Return, *ssa.MapUpdate:
				return false
			}
		}
		work = append(work, q.Succs...)
	}
	return any
}

func allPredsIn(s *ssa.BasicBlock, chain map[*ssa.BasicBlock]bool, head *ssa.BasicBlock) bool {
	for _, q := range s.Preds {
		if !chain[q] {
			return false
		}
	}
	return true
}

// --- the output file -------------------------------------------------------------------------------------------------

// outputSinks are the calls in fn that write a file given by path or run a program.
func outputSinks(p *Program, x *SCCP, fn *ssa.Function) (out []ssa.CallInstruction) {
	for _, c := range CallSites(fn) {
		if x != nil && !x.Live(c) {
			continue
		}
		if isOutputSink(p, c.Common()) {
			out = append(out, c)
		}
	}
	return
}

func isOutputSink(p *Program, c *ssa.CallCommon) bool {
	k := CalleeKey(c)
	switch k {
	case "(*github.com/go-shiori/go-epub.Epub).Write", "os.WriteFile", "(*os/exec.Cmd).Run", "(*os/exec.Cmd).Output", "(*os/exec.Cmd).CombinedOutput", "(*os/exec.Cmd).Start", "io.Copy", "io.WriteString", "(*os.File).Write", "(*os.File).WriteString", "fmt.Fprint", "fmt.Fprintf", "fmt.Fprintln", "(*bufio.Writer).Write", "(*bufio.Writer).WriteString":
		return true
	}
	if c.IsInvoke() && (c.Method.Name() == "Write" || c.Method.Name() == "WriteFile") {
		return true
	}
	return false
}

// derives: v is computed from src (through calls, literals and local variables).
func derives(v ssa.Value, src func(ssa.Value) bool, seen map[ssa.Value]bool) bool {
	if v == nil || seen[v] {
		return false
	}
	seen[v] = true
	if src(v) {
		return true
	}
	if al, ok := v.(*ssa.Alloc); ok {
		return storedDerives(al, src, seen)
	}
	if fv, ok := v.(*ssa.FreeVar); ok {
		fn := fv.Parent()
		if fn.Parent() == nil {
			return false
		}
		for k, f := range fn.FreeVars {
			if f != fv {
				continue
			}
			for _, b := range fn.Parent().Blocks {
				for _, in := range b.Instrs {
					if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == fn && derives(mc.Bindings[k], src, seen) {
						return true
					}
				}
			}
		}
		return false
	}
	if pt, ok := v.Type().Underlying().(*types.Pointer); ok && v.Referrers() != nil {
		if _, ok := pt.Elem().Underlying().(*types.Struct); ok && storedDerives(v, src, seen) {
			return true
		}
	}
	in, ok := v.(ssa.Instruction)
	if !ok {
		return false
	}
	for _, op := range in.Operands(nil) {
		if op != nil && *op != nil && derives(*op, src, seen) {
			return true
		}
	}
	return false
}

func storedDerives(a ssa.Value, src func(ssa.Value) bool, seen map[ssa.Value]bool) bool {
	for _, r := range *a.Referrers() {
		switch u := r.(type) {
		case *ssa.Store:
			if u.Addr == a && derives(u.Val, src, seen) {
				return true
			}
		case *ssa.IndexAddr:
			if u.X == a && storedDerives(u, src, seen) {
				return true
			}
		case *ssa.FieldAddr:
			if u.X == a && storedDerives(u, src, seen) {
				return true
			}
		}
	}
	return false
}

type mustKey struct {
	fn    *ssa.Function
	param int
}

// mustProduce: on every way to a successful return, fn gives what it got in a parameter to something that writes it.
type mustProduce struct {
	p    *Program
	x    *SCCP
	memo map[mustKey]bool
	miss map[mustKey]ssa.Instruction
}

func (m *mustProduce) must(fn *ssa.Function, param int) bool {
	k := mustKey{fn, param}
	if v, ok := m.memo[k]; ok {
		return v
	}
	m.memo[k] = false
	if param >= len(fn.Params) {
		return false
	}
	good := func(b *ssa.BasicBlock) bool {
		for _, in := range b.Instrs {
			c, ok := in.(ssa.CallInstruction)
			if !ok || !m.x.Live(in) {
				continue
			}
			if m.covers(c, fn.Params[param]) {
				return true
			}
		}
		return false
	}
	// forward search over paths without a producing call
	ok := true
	seen := map[*ssa.BasicBlock]bool{}
	work := []*ssa.BasicBlock{fn.Blocks[0]}
	for len(work) > 0 && ok {
		b := work[0]
		work = work[1:]
		if seen[b] || !m.x.blocks[b] || good(b) {
			continue
		}
		seen[b] = true
		last := b.Instrs[len(b.Instrs)-1]
		if ret, isRet := last.(*ssa.Return); isRet && m.x.Live(ret) {
			if !errorReturn(ret) {
				ok = false
				m.miss[k] = ret
			}
			continue
		}
		work = append(work, m.x.succs(b)...)
	}
	m.memo[k] = ok
	return ok
}

func (m *mustProduce) covers(c ssa.CallInstruction, src ssa.Value) bool {
	cc := c.Common()
	from := func(v ssa.Value) bool {
		return derives(v, func(w ssa.Value) bool { return w == src }, map[ssa.Value]bool{})
	}
	if isOutputSink(m.p, cc) {
		for _, a := range cc.Args {
			if from(a) {
				return true
			}
		}
		if cc.IsInvoke() && from(cc.Value) {
			return true
		}
		return false
	}
	for _, callee := range m.x.callees(cc) {
		if len(callee.Blocks) == 0 || !m.p.IsRepoFn(callee) || !m.x.fns[callee] {
			continue
		}
		args := cc.Args
		if cc.IsInvoke() {
			args = append([]ssa.Value{cc.Value}, cc.Args...)
		}
		for i, a := range args {
			if from(a) && m.must(callee, i) {
				return true
			}
		}
	}
	return false
}

// retVal is the value a return hands on; in functions with deferred calls results pass through a local variable.
func retVal(ret *ssa.Return, i int) ssa.Value {
	u, ok := ret.Results[i].(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return ret.Results[i]
	}
	al, ok := u.X.(*ssa.Alloc)
	if !ok {
		return ret.Results[i]
	}
	var last ssa.Value
	for _, in := range ret.Block().Instrs {
		if in == ssa.Instruction(u) {
			break
		}
		if st, ok := in.(*ssa.Store); ok && st.Addr == al {
			last = st.Val
		}
	}
	if last != nil {
		return last
	}
	return ret.Results[i]
}

// errorReturn: the return hands on an error that is certainly not nil.
func errorReturn(ret *ssa.Return) bool {
	for i := range ret.Results {
		v := retVal(ret, i)
		if isErrorType(v.Type()) && certainError(v, ret.Block(), 0) {
			return true
		}
	}
	return false
}

func certainError(v ssa.Value, at *ssa.BasicBlock, depth int) bool {
	if depth > 5 {
		return false
	}
	if freshError(v, 0) {
		return true
	}
	if c, ok := v.(*ssa.Call); ok && isErrWrap(CalleeKey(&c.Call)) {
		return certainError(c.Call.Args[0], at, depth+1)
	}
	if ph, ok := v.(*ssa.Phi); ok {
		all := true
		for i, e := range ph.Edges {
			if !certainError(e, ph.Block().Preds[i], depth+1) {
				all = false
			}
		}
		if all {
			return true
		}
	}
	// dominated by v != nil
	for d := at; d != nil; d = d.Idom() {
		id := d.Idom()
		if id == nil {
			break
		}
		iff, ok := id.Instrs[len(id.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		bo, ok := iff.Cond.(*ssa.BinOp)
		if !ok || bo.Op != token.EQL && bo.Op != token.NEQ {
			continue
		}
		var other ssa.Value
		if bo.X == v {
			other = bo.Y
		} else if bo.Y == v {
			other = bo.X
		} else {
			continue
		}
		if cst, ok := other.(*ssa.Const); !ok || cst.Value != nil {
			continue
		}
		side := 0
		if bo.Op == token.EQL {
			side = 1
		}
		if id.Succs[side] == d && len(d.Preds) == 1 {
			return true
		}
	}
	return false
}

// checkOutput: every command that produces a file produces it for every accepted combination of output type and driver.
func checkOutput(p *Program, r *Report, ci *configInfo, cmds []*ssa.Function) {
	seen := map[string]bool{}
	for _, c := range optionCombos() {
		short := c["OutputType"] + "/" + c["OutputDriver"]
		if seen[short] {
			continue
		}
		seen[short] = true
		env := ci.comboEnv(c)
		for _, cmd := range cmds {
			x := p.RunSCCP([]*ssa.Function{cmd}, env)
			m := &mustProduce{p: p, x: x, memo: map[mustKey]bool{}, miss: map[mustKey]ssa.Instruction{}}
			// the functions that take the output file: called by the command with a path and reaching a sink
			any := false
			for fn := range x.Reached(cmd) {
				for i, q := range fn.Params {
					if outputParam(p, ci, fn, i, q) {
						any = true
						r.Count("output obligations", 1)
						r.Sample("output file %s of %s, with %s", q.Name(), FnName(fn), short)
						if !m.must(fn, i) {
							at := p.Pos(fn.Pos())
							if in := m.miss[mustKey{fn, i}]; in != nil {
								at = p.At(in)
							}
							r.Bad("no-output:"+FnName(fn)+":"+short, at, "with output type and driver %s, %s can end successfully without having produced its output file", short, FnName(fn))
						}
					}
				}
			}
			if any {
				r.Count("producing commands", 1)
			}
		}
	}
	r.AtLeast("output obligations", 10)
	r.AtLeast("producing commands", 15)
}

// outputParam: the parameter is the output file of a function that produces the book.
func outputParam(p *Program, ci *configInfo, fn *ssa.Function, i int, q *ssa.Parameter) bool {
	if fnPkg(fn) == nil || fnPkg(fn).Name() != "main" || fn.Parent() != nil {
		return false
	}
	return flowsToBook(p, fn, i, map[mustKey]bool{})
}

// flowsToBook: the parameter becomes the name of the file the book is written to.
func flowsToBook(p *Program, fn *ssa.Function, i int, seen map[mustKey]bool) bool {
	k := mustKey{fn, i}
	if seen[k] || i >= len(fn.Params) {
		return false
	}
	seen[k] = true
	from := func(v ssa.Value) bool {
		return derives(v, func(w ssa.Value) bool { return w == fn.Params[i] }, map[ssa.Value]bool{})
	}
	for _, c := range CallSites(fn) {
		cc := c.Common()
		if CalleeKey(cc) == "(*github.com/go-shiori/go-epub.Epub).Write" {
			if from(cc.Args[1]) {
				return true
			}
			continue
		}
		for _, callee := range append(p.Callees(cc), dynamicClosures(nil, cc)...) {
			if len(callee.Blocks) == 0 || !p.IsRepoFn(callee) || !reachesWriter(p, callee) {
				continue
			}
			args := cc.Args
			if cc.IsInvoke() {
				args = append([]ssa.Value{cc.Value}, cc.Args...)
			}
			for j, a := range args {
				if from(a) && flowsToBook(p, callee, j, seen) {
					return true
				}
			}
		}
	}
	return false
}

// reachesWriter: the function reaches the functions of the generator package that write a file themselves.
func reachesWriter(p *Program, fn *ssa.Function) bool {
	for f := range p.Reach(fn) {
		for _, c := range CallSites(f) {
			k := CalleeKey(c.Common())
			if k == "(*github.com/go-shiori/go-epub.Epub).Write" {
				return true
			}
		}
	}
	return false
}

// --- what each value stands for --------------------------------------------------------------------------------------

// reaches: a live call satisfying pred is reachable from fn.
func (x *SCCP) reaches(fn *ssa.Function, pred func(c *ssa.CallCommon) bool) bool {
	for f := range x.Reached(fn) {
		for _, c := range CallSites(f) {
			if x.Live(c) && pred(c.Common()) {
				return true
			}
		}
	}
	return false
}

func keyIn(ks ...string) func(c *ssa.CallCommon) bool {
	return func(c *ssa.CallCommon) bool {
		k := CalleeKey(c)
		for _, w := range ks {
			if k == w {
				return true
			}
		}
		return false
	}
}

var runsProgram = keyIn("(*os/exec.Cmd).Run", "(*os/exec.Cmd).Output", "(*os/exec.Cmd).CombinedOutput", "(*os/exec.Cmd).Start")

// mustCall: on every way to a successful return, fn makes a call satisfying pred (itself or in a callee that must).
func (x *SCCP) mustCall(fn *ssa.Function, pred func(c *ssa.CallCommon) bool, memo map[*ssa.Function]bool) (bool, ssa.Instruction) {
	return x.mustCallIf(fn, pred, memo, func(ret *ssa.Return) bool { return errorReturn(ret) })
}

func (x *SCCP) mustCallIf(fn *ssa.Function, pred func(c *ssa.CallCommon) bool, memo map[*ssa.Function]bool, exempt func(ret *ssa.Return) bool) (bool, ssa.Instruction) {
	if v, ok := memo[fn]; ok {
		return v, nil
	}
	memo[fn] = false
	good := func(b *ssa.BasicBlock) bool {
		for _, in := range b.Instrs {
			c, ok := in.(ssa.CallInstruction)
			if !ok || !x.Live(in) {
				continue
			}
			if pred(c.Common()) {
				return true
			}
			cs := x.callees(c.Common())
			all := len(cs) > 0
			for _, callee := range cs {
				if len(callee.Blocks) == 0 || !x.p.IsRepoFn(callee) {
					all = false
					continue
				}
				v, _ := x.mustCall(callee, pred, memo)
				all = all && v
			}
			if all {
				return true
			}
		}
		return false
	}
	seen := map[*ssa.BasicBlock]bool{}
	work := []*ssa.BasicBlock{fn.Blocks[0]}
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		if seen[b] || !x.blocks[b] || good(b) {
			continue
		}
		seen[b] = true
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && x.Live(ret) {
			if !exempt(ret) {
				return false, ret
			}
			continue
		}
		work = append(work, x.succs(b)...)
	}
	memo[fn] = true
	return true, nil
}

// readsField: fn itself reads the setting.
func readsField(fn *ssa.Function, name string, ci *configInfo) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if fa, ok := in.(*ssa.FieldAddr); ok && fieldIsSetting(fa.X.Type(), fa.Field, ci) && fieldVar(fa.X.Type(), fa.Field).Name() == name {
				return true
			}
		}
	}
	return false
}

// checkFeatures compares what is reachable under each value with what the value is documented to do.
func checkFeatures(p *Program, r *Report, ci *configInfo, c combo, x *SCCP) {
	isEpub := c["OutputType"] == "epub2" || c["OutputType"] == "epub3"
	epubWrite := keyIn("(*github.com/go-shiori/go-epub.Epub).Write")
	jsonWrite := keyIn("encoding/json.Marshal", "encoding/json.MarshalIndent", "(*encoding/json.Encoder).Encode")
	for fn := range x.fns {
		pk := fnPkg(fn)
		if pk == nil || fn.Parent() != nil {
			continue
		}
		at := p.Pos(fn.Pos())
		// output driver: functions of the generator that can make the book with both drivers
		if pk.Name() == "generator" && p.ReachesCall(fn, epubWrite) && p.ReachesCall(fn, runsProgram) {
			r.Count("driver dispatches", 1)
			bad := ""
			switch c["OutputDriver"] {
			case "pandoc":
				if ok, _ := x.mustCall(fn, runsProgram, map[*ssa.Function]bool{}); !ok || x.reaches(fn, epubWrite) {
					bad = "pandoc is not run, or the internal library is used"
				}
			case "internal":
				if ok, _ := x.mustCall(fn, epubWrite, map[*ssa.Function]bool{}); !ok || x.reaches(fn, runsProgram) {
					bad = "the internal library does not write the book, or pandoc is run"
				}
			}
			if isEpub && bad != "" {
				r.Bad("driver:"+FnName(fn)+":"+c["OutputDriver"], at, "with %s, %s: %s", c, FnName(fn), bad)
			}
		}
		// stats: the function reading the statistics of the articles and writing the combined ones
		if pk.Name() == "generator" && !isEpub && callsOwn(fn, keyIn("encoding/json.Unmarshal", "(*encoding/json.Decoder).Decode"), p) && takesStrings(fn) {
			r.Count("statistics dispatches", 1)
			isJson := c["OutputType"] == "stats-json"
			if isJson {
				if ok, in := x.mustCall(fn, jsonWrite, map[*ssa.Function]bool{}); !ok {
					if in != nil {
						at = p.At(in)
					}
					r.Bad("stats-json:"+FnName(fn), at, "with %s, %s can write statistics that are not encoded as JSON", c, FnName(fn))
				}
			} else if x.reaches(fn, jsonWrite) {
				r.Bad("stats-txt:"+FnName(fn), at, "with %s, %s encodes the combined statistics as JSON", c, FnName(fn))
			}
		}
		// math: the function that decides by the converter
		if readsField(fn, "MathConverter", ci) && pk.Name() != "config" && pk.Name() != "main" {
			r.Count("math dispatches", 1)
			run := x.reaches(fn, runsProgram)
			switch c["MathConverter"] {
			case "template":
				if ok, _ := x.mustCall(fn, runsProgram, map[*ssa.Function]bool{}); !ok {
					r.Bad("math-template:"+FnName(fn), at, "with %s, %s can succeed without running the conversion command", c, FnName(fn))
				}
				if !readsField(fn, "CommandTemplateMathSvgToPng", ci) {
					r.Bad("math-command:"+FnName(fn), at, "%s does not use the command template for formulas", FnName(fn))
				}
			case "wikimedia", "none":
				if run {
					r.Bad("math-"+c["MathConverter"]+":"+FnName(fn), at, "with %s, %s runs a conversion command", c, FnName(fn))
				}
			}
			need := map[string]int{"none": 0, "template": 0, "wikimedia": 1}[c["MathConverter"]]
			if n := pngRequests(p, x, fn); n != need {
				r.Bad("math-png:"+FnName(fn)+":"+c["MathConverter"], at, "with %s, %s requests %d PNG files of a formula from the server instead of %d", c, FnName(fn), n, need)
			}
		}
		// eviction
		if pk.Name() == "cache" && fn.Signature.Recv() == nil {
			checkEvictionFeature(p, r, c, x, fn)
		}
	}
	if c["OutputType"] == "epub2" {
		r.AtLeast("driver dispatches", 1)
		r.AtLeast("math dispatches", 1)
	}
	if !isEpub {
		r.AtLeast("statistics dispatches", 1)
	}
}

func callsOwn(fn *ssa.Function, pred func(c *ssa.CallCommon) bool, p *Program) bool {
	for f := range p.Reach(fn) {
		for _, c := range CallSites(f) {
			if pred(c.Common()) {
				return true
			}
		}
	}
	return false
}

func takesStrings(fn *ssa.Function) bool {
	for _, q := range fn.Params {
		if s, ok := q.Type().Underlying().(*types.Slice); ok {
			if b, ok := s.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.String {
				return len(fn.Params) >= 2
			}
		}
	}
	return false
}

// pngRequests counts the live calls in fn that request something of which the address names a PNG.
func pngRequests(p *Program, x *SCCP, fn *ssa.Function) int {
	n := 0
	net := func(c *ssa.CallCommon) bool {
		k := CalleeKey(c)
		return strings.Contains(k, "net/http.Client).") || strings.HasPrefix(k, "net/http.") || c.IsInvoke() && strings.Contains(k, "HttpClient")
	}
	for f := range x.Reached(fn) {
		if fnPkg(f) != fnPkg(fn) {
			continue
		}
		for _, c := range CallSites(f) {
			if !x.Live(c) {
				continue
			}
			hits := false
			for _, callee := range p.Callees(c.Common()) {
				if fnPkg(callee) != fnPkg(fn) && p.IsRepoFn(callee) && len(callee.Blocks) > 0 && p.ReachesCall(callee, net) {
					hits = true
				}
			}
			if !hits {
				continue
			}
			for _, a := range c.Common().Args {
				if derives(a, func(v ssa.Value) bool {
					k, ok := v.(*ssa.Const)
					return ok && k.Value != nil && k.Value.Kind() == constant.String && strings.Contains(constant.StringVal(k.Value), "/png")
				}, map[ssa.Value]bool{}) {
					n++
					break
				}
			}
		}
	}
	return n
}

// checkEvictionFeature: lru removes by time of use and keeps that time current, largest removes by size, none removes nothing.
func checkEvictionFeature(p *Program, r *Report, c combo, x *SCCP, fn *ssa.Function) {
	strategy := c["CacheEvictionStrategy"]
	walks := func(c *ssa.CallCommon) bool { return strings.HasPrefix(CalleeKey(c), "path/filepath.Walk") }
	// what selects the victim: functions walking the cache from which a file path is returned
	selects := func(byTime bool) bool {
		for f := range x.Reached(fn) {
			if !p.ReachesCall(f, walks) || !returnsString(f) {
				continue
			}
			usesTime := p.ReachesCall(f, func(c *ssa.CallCommon) bool { return strings.HasSuffix(CalleeKey(c), ".ModTime") })
			if usesTime == byTime && directWalk(f) {
				return true
			}
		}
		return false
	}
	evictsAny := false
	for f := range p.Reach(fn) {
		if directWalk(f) && returnsString(f) {
			evictsAny = true
		}
	}
	if evictsAny {
		r.Count("evicting functions", 1)
		t, s := selects(true), selects(false)
		exported := fn.Object() != nil && fn.Object().Exported()
		switch {
		case strategy == "none" && exported && (t || s):
			r.Bad("evict-none:"+FnName(fn), p.Pos(fn.Pos()), "without eviction, %s still selects cache files to be removed", FnName(fn))
		case strategy == "lru" && (s || exported && !t):
			r.Bad("evict-lru:"+FnName(fn), p.Pos(fn.Pos()), "with the strategy lru, %s does not select the least recently used file", FnName(fn))
		case strategy == "largest" && (t || exported && !s):
			r.Bad("evict-largest:"+FnName(fn), p.Pos(fn.Pos()), "with the strategy largest, %s does not select the largest file", FnName(fn))
		}
	}
	// the lookup keeps the time of use
	if strategy == "lru" && fn.Object() != nil && fn.Object().Exported() {
		res := fn.Signature.Results()
		bi := -1
		hasErr := false
		for i := 0; i < res.Len(); i++ {
			if b, ok := res.At(i).Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
				bi = i
			}
			hasErr = hasErr || isErrorType(res.At(i).Type())
		}
		if bi >= 0 && hasErr {
			r.Count("lookups", 1)
			touch := func(c *ssa.CallCommon) bool { return strings.HasSuffix(CalleeKey(c), ".Chtimes") }
			ok, in := x.mustCallIf(fn, touch, map[*ssa.Function]bool{}, func(ret *ssa.Return) bool {
				if errorReturn(ret) {
					return true
				}
				cst, ok := retVal(ret, bi).(*ssa.Const)
				return ok && !constant.BoolVal(cst.Value)
			})
			if !ok {
				at := p.Pos(fn.Pos())
				if in != nil {
					at = p.At(in)
				}
				r.Bad("lru-touch:"+FnName(fn), at, "with the strategy lru, %s can report a cached file without recording its use", FnName(fn))
			}
		}
	}
}

func returnsString(f *ssa.Function) bool {
	for i := 0; i < f.Signature.Results().Len(); i++ {
		if b, ok := f.Signature.Results().At(i).Type().Underlying().(*types.Basic); ok && b.Kind() == types.String {
			return true
		}
	}
	return false
}

func directWalk(f *ssa.Function) bool {
	for _, c := range CallSites(f) {
		if strings.HasPrefix(CalleeKey(c.Common()), "path/filepath.Walk") {
			return true
		}
	}
	return false
}
