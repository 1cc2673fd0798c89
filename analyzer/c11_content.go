package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID:    "C11",
		Title: "no parsed content is lost when a page or its statistics are generated",
		Rule:  "the dispatcher of the generators has a case for each kind of element the parser makes (anything else is an error); in every handler each text the parser tokenised and each nested element is expanded on every path to a success (unless it is empty), exactly once, all elements of lists in order; what rendering handlers expanded flows into what they return",
		Run:   runC11,
	})
}

type contentCheck struct {
	p        *Program
	r        *Report
	memo     map[string]int // 1 in progress or complete, 2 incomplete
	tok      map[*types.Var]bool
	handlers []*types.Named
	iface    *types.Interface
	disp     map[*ssa.Function]bool
	simple   map[*ssa.Function]bool // implementations of the expansion of plain text
	reported map[string]bool
}

func runC11(p *Program, r *Report) {
	c := &contentCheck{p: p, r: r, memo: map[string]int{}, tok: map[*types.Var]bool{}, disp: map[*ssa.Function]bool{}, simple: map[*ssa.Function]bool{}, reported: map[string]bool{}}
	if !c.findHandlers() {
		r.Undecided("handlers", "-", "no interface with handlers for the parser's elements found in the generator package")
		return
	}
	c.findDispatchers()
	c.dispatch()
	c.handlerMethods()
	c.shared()
	c.partition()
	c.rawFields()
	c.roots()
	r.AtLeast("handlers", 2)
	r.AtLeast("kinds of elements", 10)
	r.AtLeast("nested contents", 15)
}

// isElement: a structure of the parser package that is an element of the parsed text.
func isElement(t types.Type) *types.Named {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != modPath+"/parser" {
		return nil
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if f.Embedded() && types.IsInterface(f.Type()) {
			return n
		}
	}
	return nil
}

func (c *contentCheck) findHandlers() bool {
	p := c.p
	gen := p.Prog.ImportedPackage(modPath + "/generator")
	if gen == nil {
		return false
	}
	best := 0
	for _, n := range gen.Pkg.Scope().Names() {
		tn, ok := gen.Pkg.Scope().Lookup(n).(*types.TypeName)
		if !ok || !types.IsInterface(tn.Type()) {
			continue
		}
		it := tn.Type().Underlying().(*types.Interface)
		k := 0
		for i := 0; i < it.NumMethods(); i++ {
			if c.elementParam(it.Method(i).Type().(*types.Signature)) >= 0 {
				k++
			}
		}
		if k > best {
			best, c.iface = k, it
		}
	}
	if c.iface == nil {
		return false
	}
	for _, n := range gen.Pkg.Scope().Names() {
		tn, ok := gen.Pkg.Scope().Lookup(n).(*types.TypeName)
		if !ok || types.IsInterface(tn.Type()) || isMockFile(p.Fset.Position(tn.Pos()).Filename) {
			continue
		}
		if nm, ok := tn.Type().(*types.Named); ok && types.Implements(types.NewPointer(nm), c.iface) {
			c.handlers = append(c.handlers, nm)
			c.r.Count("handlers", 1)
		}
	}
	return len(c.handlers) > 0
}

// elementParam: the index (in the signature) of the parameter that is an element, or -1.
func (c *contentCheck) elementParam(sig *types.Signature) int {
	for i := 0; i < sig.Params().Len(); i++ {
		if isElement(sig.Params().At(i).Type()) != nil {
			return i
		}
	}
	return -1
}

// contentField: the field holds text the parser tokenised or nested elements.
func (c *contentCheck) contentField(f *types.Var) bool {
	if f.Embedded() {
		return false
	}
	if b, ok := f.Type().Underlying().(*types.Basic); ok && b.Kind() == types.String {
		v, ok := c.tok[f]
		if !ok {
			v = c.tokenised(f)
			c.tok[f] = v
		}
		return v
	}
	return c.content(f.Type())
}

// content: values of the type contain text or elements.
func (c *contentCheck) content(t types.Type) bool {
	if n := isElement(t); n != nil {
		st := n.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if sl, ok := st.Field(i).Type().Underlying().(*types.Slice); ok && isElement(sl.Elem()) == n {
				return true
			}
			if c.contentField(st.Field(i)) {
				return true
			}
		}
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return isElement(u.Elem()) != nil && c.content(u.Elem()) || c.elementIface(u.Elem())
	case *types.Interface:
		return c.elementIface(t)
	}
	return false
}

func (c *contentCheck) elementIface(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && types.IsInterface(t) && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == modPath+"/parser"
}

// tokenised: a text stored in the field comes from the function tokenising nested content.
func (c *contentCheck) tokenised(f *types.Var) bool {
	found := false
	o := &origins{p: c.p, noFields: true}
	o.pass = func(k string, call *ssa.CallCommon) []ssa.Value {
		// a part cut out of a tokenised text (e.g. the name in the text of an image) is data, not content
		if strings.HasPrefix(k, "strings.") && !strings.Contains(k, "Split") && !strings.Contains(k, "Cut") && !strings.Contains(k, "Fields") {
			return call.Args
		}
		return nil
	}
	maps := map[string]bool{}
	o.stop = func(v ssa.Value, via []ssa.Value) bool {
		if q, ok := v.(*ssa.Parameter); ok {
			return c.step(q.Parent())
		}
		if lk, ok := v.(*ssa.Lookup); ok && !maps[lk.X.Type().String()] {
			// what is put into such maps
			maps[lk.X.Type().String()] = true
			for _, fn := range c.p.Funcs {
				if !inPkg(fn, "parser") {
					continue
				}
				for _, b := range fn.Blocks {
					for _, in := range b.Instrs {
						if mu, ok := in.(*ssa.MapUpdate); ok && types.Identical(mu.Map.Type(), lk.X.Type()) {
							o.walk(mu.Value, nil)
						}
					}
				}
			}
		}
		call, ok := v.(*ssa.Call)
		if !ok {
			return false
		}
		if ld, ok := call.Call.Value.(*ssa.UnOp); ok {
			if fa, ok := ld.X.(*ssa.FieldAddr); ok {
				if fv := fieldVar(fa.X.Type(), fa.Field); fv != nil && strings.Contains(strings.ToLower(fv.Name()), "tokenize") {
					found = true
					return true
				}
			}
		}
		if fn := call.Call.StaticCallee(); fn != nil && strings.Contains(strings.ToLower(fn.Name()), "tokenizecontent") {
			found = true
			return true
		}
		return false
	}
	o.leaf = func(ssa.Value, []ssa.Value) {}
	for _, st := range c.p.fieldStores(f) {
		o.walk(st, nil)
	}
	return found
}

// step: the function tokenising contents or one of the steps it consists of. The text such a function gets is the whole
// content of an element, not a part of one which has been tokenised.
func (c *contentCheck) step(fn *ssa.Function) bool {
	name := func(f *ssa.Function) bool { return strings.Contains(strings.ToLower(f.Name()), "tokenizecontent") }
	if name(fn) {
		return true
	}
	for _, cs := range c.p.CallersOf(fn) {
		if name(cs.Parent()) {
			return true
		}
	}
	return false
}

// access describes a value as a part of another one.
type access struct {
	root ssa.Value
	path string
	idx  []ssa.Value
}

func (c *contentCheck) access(v ssa.Value) (a access) {
	return c.accessN(v, 0)
}

func (c *contentCheck) accessN(v ssa.Value, n int) (a access) {
	if n > 30 {
		return access{root: v}
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return c.accessN(x.X, n+1)
		}
	case *ssa.FieldAddr:
		a = c.accessN(x.X, n+1)
		a.path += "." + strconv.Itoa(x.Field)
		return
	case *ssa.Field:
		a = c.accessN(x.X, n+1)
		a.path += "." + strconv.Itoa(x.Field)
		return
	case *ssa.IndexAddr:
		a = c.accessN(x.X, n+1)
		a.path += "[]"
		a.idx = append(append([]ssa.Value{}, a.idx...), x.Index)
		return
	case *ssa.Alloc:
		var st ssa.Value
		for _, r := range *x.Referrers() {
			if s, ok := r.(*ssa.Store); ok && s.Addr == ssa.Value(x) {
				if st != nil {
					return access{root: v}
				}
				st = s.Val
			}
		}
		if st != nil {
			return c.accessN(st, n+1)
		}
	case *ssa.MakeInterface:
		return c.accessN(x.X, n+1)
	case *ssa.ChangeInterface:
		return c.accessN(x.X, n+1)
	case *ssa.ChangeType:
		return c.accessN(x.X, n+1)
	case *ssa.TypeAssert:
		return c.accessN(x.X, n+1)
	case *ssa.Slice:
		if x.Low == nil && x.High == nil {
			return c.accessN(x.X, n+1)
		}
	case *ssa.Extract:
		if ta, ok := x.Tuple.(*ssa.TypeAssert); ok && x.Index == 0 {
			return c.accessN(ta.X, n+1)
		}
	case *ssa.Call:
		if CalleeKey(&x.Call) == "strings.TrimSpace" {
			return c.accessN(x.Call.Args[0], n+1)
		}
	}
	return access{root: v}
}

// callees with their parameters matching the arguments of the call.
func (c *contentCheck) callees(cc *ssa.CallCommon) []*ssa.Function {
	return c.p.repoCallees(cc)
}

func argsOf(cc *ssa.CallCommon) []ssa.Value {
	if cc.IsInvoke() {
		return append([]ssa.Value{cc.Value}, cc.Args...)
	}
	return cc.Args
}

// complete: the function expands all content of its i-th parameter.
func (c *contentCheck) complete(fn *ssa.Function, i int) bool {
	if i >= len(fn.Params) || len(fn.Blocks) == 0 {
		return false
	}
	key := fn.String() + "#" + strconv.Itoa(i)
	switch c.memo[key] {
	case 1:
		return true
	case 2:
		return false
	}
	c.memo[key] = 1
	q := fn.Params[i]
	ok := c.takes(q.Type()) && inPkg(fn, "generator")
	if ok {
		switch {
		case c.simple[fn] || c.callsSimple(fn):
		case c.disp[fn]:
		default:
			ok = len(c.missing(fn, q)) == 0
		}
	}
	if !ok {
		c.memo[key] = 2
	}
	return ok
}

// takes: a parameter of this type can carry content.
func (c *contentCheck) takes(t types.Type) bool {
	if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.String {
		return true
	}
	if isElement(t) != nil {
		return true
	}
	if it, ok := t.Underlying().(*types.Interface); ok && (it.NumMethods() == 0) {
		return true
	}
	return c.content(t)
}

// callsSimple: the function expands texts with placeholders (it hands the parts between them to the handler).
func (c *contentCheck) callsSimple(fn *ssa.Function) bool {
	return c.simpleCalls(fn) > 0
}

func (c *contentCheck) simpleCalls(fn *ssa.Function) (n int) {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if cc := callOf(in); cc != nil && cc.IsInvoke() {
				for _, t := range c.p.repoCallees(cc) {
					if c.simple[t] {
						n++
					}
				}
			}
		}
	}
	return
}

// missing lists the parts of the parameter that are not expanded on every path to a success.
func (c *contentCheck) missing(fn *ssa.Function, q *ssa.Parameter) []string {
	return c.unexpanded(fn, nil, q, "", q.Type(), q.Name())
}

// unexpanded lists the parts of a value that may not be expanded in the scope (a loop or the whole function).
func (c *contentCheck) unexpanded(fn *ssa.Function, scope *natLoop, q ssa.Value, path string, t types.Type, name string) []string {
	pts := map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		if scope != nil && !scope.blocks[b] {
			continue
		}
		for _, in := range b.Instrs {
			if c.expands(in, q, path) {
				pts[b] = true
			}
		}
	}
	if sl, ok := t.Underlying().(*types.Slice); ok {
		loops := loopsOf(fn)
		for _, l := range loops {
			if scope != nil && (!scope.blocks[l.head] || l.head == scope.head) {
				continue
			}
			if c.wholeLoop(fn, l, q, path) && len(c.unexpanded(fn, l, q, path+"[]", sl.Elem(), "element of "+name)) == 0 {
				pts[l.head] = true
			}
		}
	}
	if !c.avoidable(fn, scope, pts, q, path, t) {
		return nil
	}
	n := isElement(t)
	if n == nil {
		return []string{name}
	}
	var out []string
	st := n.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if c.contentField(f) {
			out = append(out, c.unexpanded(fn, scope, q, path+"."+strconv.Itoa(i), f.Type(), name+"."+f.Name())...)
		}
	}
	return out
}

// expands: the instruction is a call expanding the given part of q.
func (c *contentCheck) expands(in ssa.Instruction, q ssa.Value, path string) bool {
	cc := callOf(in)
	if cc == nil {
		return false
	}
	if _, isCall := in.(*ssa.Call); !isCall {
		return false
	}
	for i, a := range argsOf(cc) {
		if _, isStr := a.Type().Underlying().(*types.Basic); isStr && !c.takes(a.Type()) {
			continue
		}
		ac := c.access(a)
		if ac.root != q || ac.path != path {
			continue
		}
		ts := c.callees(cc)
		if len(ts) == 0 {
			continue
		}
		all := true
		for _, t := range ts {
			if !inPkg(t, "generator") || !c.complete(t, i) {
				all = false
			}
		}
		if all {
			return true
		}
	}
	return false
}

// wholeLoop: the loop runs over all elements of the list.
func (c *contentCheck) wholeLoop(fn *ssa.Function, l *natLoop, q ssa.Value, path string) bool {
	cl := countingOf(l)
	if cl == nil {
		return false
	}
	ln, ok := cl.bound.(*ssa.Call)
	if !ok {
		return false
	}
	if b, ok := ln.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
		return false
	}
	a := c.access(ln.Call.Args[0])
	if a.root != q || a.path != path {
		return false
	}
	for _, e := range l.exits() {
		if !cl.regular(e) && !c.failsFrom(e[0], e[1], nil) {
			return false
		}
	}
	return true
}

// avoidable: there is a way to a success (or to the next iteration) without passing any of the blocks, the part not being empty.
func (c *contentCheck) avoidable(fn *ssa.Function, scope *natLoop, pts map[*ssa.BasicBlock]bool, q ssa.Value, path string, t types.Type) bool {
	start := fn.Blocks[0]
	if scope != nil {
		start = scope.head
	}
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock) bool
	walk = func(b *ssa.BasicBlock) bool {
		if seen[b] || pts[b] && !(scope != nil && b == scope.head) {
			return false
		}
		seen[b] = true
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			return scope == nil && !c.failing(ret)
		}
		for i, s := range b.Succs {
			if scope != nil {
				if s == scope.head {
					return true
				}
				if !scope.blocks[s] {
					continue
				}
			}
			if c.emptyEdge(b, i, q, path, t) {
				continue
			}
			if walk(s) {
				return true
			}
		}
		return false
	}
	return walk(start)
}

// emptyEdge: taking the i-th way out of the block means that the part is empty.
func (c *contentCheck) emptyEdge(b *ssa.BasicBlock, i int, q ssa.Value, path string, t types.Type) bool {
	iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	cond, onTrue := iff.Cond, i == 0
	for {
		u, ok := cond.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			break
		}
		cond, onTrue = u.X, !onTrue
	}
	bo, ok := cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	x, y, op := bo.X, bo.Y, bo.Op
	if _, isC := x.(*ssa.Const); isC {
		x, y = y, x
		switch op {
		case token.LSS:
			op = token.GTR
		case token.GTR:
			op = token.LSS
		case token.LEQ:
			op = token.GEQ
		case token.GEQ:
			op = token.LEQ
		}
	}
	cst, ok := y.(*ssa.Const)
	if !ok || cst.Value == nil {
		return false
	}
	if cst.Value.Kind() == constant.String {
		if constant.StringVal(cst.Value) != "" || !c.partIs(x, q, path, t) {
			return false
		}
		return op == token.EQL && onTrue || op == token.NEQ && !onTrue
	}
	ln, ok := x.(*ssa.Call)
	if !ok {
		return false
	}
	if bi, ok := ln.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "len" {
		return false
	}
	if !c.partIs(ln.Call.Args[0], q, path, t) {
		return false
	}
	n, _ := constInt(cst)
	switch op {
	case token.EQL:
		return n == 0 && onTrue
	case token.NEQ:
		return n == 0 && !onTrue
	case token.GTR:
		return n == 0 && !onTrue
	case token.GEQ:
		return n == 1 && !onTrue
	case token.LSS:
		return n == 1 && onTrue
	case token.LEQ:
		return n == 0 && onTrue
	}
	return false
}

// partIs: the value is the part, or the only content in it.
func (c *contentCheck) partIs(v ssa.Value, q ssa.Value, path string, t types.Type) bool {
	a := c.access(v)
	if a.root != q {
		return false
	}
	if a.path == path {
		return true
	}
	for n := isElement(t); n != nil; {
		st := n.Underlying().(*types.Struct)
		k := -1
		for i := 0; i < st.NumFields(); i++ {
			if c.contentField(st.Field(i)) {
				if k >= 0 {
					return false
				}
				k = i
			}
		}
		if k < 0 {
			return false
		}
		path += "." + strconv.Itoa(k)
		if a.path == path {
			return true
		}
		n = isElement(st.Field(k).Type())
	}
	return false
}

// failing: the function reports an error with this return.
func (c *contentCheck) failing(ret *ssa.Return) bool {
	if len(ret.Results) == 0 {
		return false
	}
	e := ret.Results[len(ret.Results)-1]
	if !isErrorType(e.Type()) {
		return false
	}
	if v := returnedValue(ret, len(ret.Results)-1); v != nil {
		e = v
	}
	return nonNilErr(e, ret.Block(), map[ssa.Value]bool{})
}

// nonNilErr: the error is known to be one in the block.
func nonNilErr(e ssa.Value, b *ssa.BasicBlock, seen map[ssa.Value]bool) bool {
	if seen[e] {
		return false
	}
	seen[e] = true
	for x := b; x != nil; x = x.Idom() {
		if x.Idom() == nil {
			break
		}
		d := x.Idom()
		iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		bo, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		o := bo.X
		if k, ok := o.(*ssa.Const); ok && k.Value == nil {
			o = bo.Y
		} else if k, ok := bo.Y.(*ssa.Const); !ok || k.Value != nil {
			continue
		}
		if o != e {
			continue
		}
		var in *ssa.BasicBlock
		switch bo.Op {
		case token.NEQ:
			in = d.Succs[0]
		case token.EQL:
			in = d.Succs[1]
		default:
			continue
		}
		if in.Dominates(b) && len(in.Preds) == 1 {
			return true
		}
	}
	switch x := e.(type) {
	case *ssa.Call:
		k := CalleeKey(&x.Call)
		switch {
		case strings.HasSuffix(k, "errors.Errorf"), strings.HasSuffix(k, "errors.New"), k == "fmt.Errorf":
			return true
		case strings.Contains(k, "errors.W"):
			return nonNilErr(x.Call.Args[0], b, seen)
		}
	case *ssa.MakeInterface:
		return true
	case *ssa.ChangeInterface:
		return nonNilErr(x.X, b, seen)
	case *ssa.Phi:
		for i, v := range x.Edges {
			if !nonNilErr(v, x.Block().Preds[i], seen) {
				return false
			}
		}
		return true
	}
	return false
}

// failsFrom: going from one block to the other, the function can only end with an error.
func (c *contentCheck) failsFrom(from, to *ssa.BasicBlock, env map[ssa.Value]ssa.Value) bool {
	seen := map[[2]*ssa.BasicBlock]bool{}
	var walk func(from, to *ssa.BasicBlock, env map[ssa.Value]ssa.Value) bool
	walk = func(from, to *ssa.BasicBlock, env map[ssa.Value]ssa.Value) bool {
		if seen[[2]*ssa.BasicBlock{from, to}] {
			return true
		}
		seen[[2]*ssa.BasicBlock{from, to}] = true
		ne := map[ssa.Value]ssa.Value{}
		for k, v := range env {
			ne[k] = v
		}
		for _, in := range to.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			for i, pr := range to.Preds {
				if pr == from {
					v := ph.Edges[i]
					if w, ok := env[v]; ok {
						v = w
					}
					ne[ph] = v
				}
			}
		}
		sub := func(v ssa.Value) ssa.Value {
			if w, ok := ne[v]; ok {
				return w
			}
			return v
		}
		switch x := to.Instrs[len(to.Instrs)-1].(type) {
		case *ssa.Return:
			if len(x.Results) == 0 || !isErrorType(x.Results[len(x.Results)-1].Type()) {
				return false
			}
			e := x.Results[len(x.Results)-1]
			if v := returnedValue(x, len(x.Results)-1); v != nil {
				e = v
			}
			return nonNilErr(sub(e), to, map[ssa.Value]bool{}) || nonNilErr(e, to, map[ssa.Value]bool{})
		case *ssa.If:
			if bo, ok := x.Cond.(*ssa.BinOp); ok && (bo.Op == token.NEQ || bo.Op == token.EQL) {
				if k, ok := bo.Y.(*ssa.Const); ok && k.Value == nil && nonNilErr(sub(bo.X), to, map[ssa.Value]bool{}) {
					if bo.Op == token.NEQ {
						return walk(to, to.Succs[0], ne)
					}
					return walk(to, to.Succs[1], ne)
				}
			}
		case *ssa.Panic:
			return true
		}
		if endsProgram(to, map[*ssa.BasicBlock]bool{}) {
			return true
		}
		for _, s := range to.Succs {
			if !walk(to, s, ne) {
				return false
			}
		}
		return len(to.Succs) > 0
	}
	return walk(from, to, env)
}

// findDispatchers: functions with a case for (nearly) each kind of element.
func (c *contentCheck) findDispatchers() {
	p := c.p
	for _, h := range c.handlers {
		for i := 0; i < c.iface.NumMethods(); i++ {
			m := c.iface.Method(i)
			sig := m.Type().(*types.Signature)
			if sig.Params().Len() == 1 && sig.Results().Len() == 1 && types.Identical(sig.Params().At(0).Type(), types.Typ[types.String]) && types.Identical(sig.Results().At(0).Type(), types.Typ[types.String]) && !strings.Contains(m.Name(), "Marker") {
				if f := p.methodOf(types.NewPointer(h), m.Pkg(), m.Name()); f != nil {
					c.simple[f] = true
				}
			}
		}
	}
	for _, fn := range p.Funcs {
		if !inPkg(fn, "generator") {
			continue
		}
		n := map[string]bool{}
		for _, ta := range typeCases(fn) {
			n[ta.AssertedType.String()] = true
		}
		if len(n) >= 3 {
			c.disp[fn] = true
			continue
		}
		// text or element
		if len(n) >= 1 {
			for _, ta := range typeCases(fn) {
				if c.elementIface(ta.AssertedType) {
					c.disp[fn] = true
				}
			}
		}
	}
}

// typeCases: the cases of type switches over a parameter.
func typeCases(fn *ssa.Function) (out []*ssa.TypeAssert) {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			ta, ok := in.(*ssa.TypeAssert)
			if !ok || !ta.CommaOk {
				continue
			}
			x := ta.X
			if ci, ok := x.(*ssa.ChangeInterface); ok {
				x = ci.X
			}
			if _, ok := x.(*ssa.Parameter); ok {
				out = append(out, ta)
			}
		}
	}
	return
}

// dispatch: each kind of element has a case handing it to a handler, anything else is an error.
func (c *contentCheck) dispatch() {
	p, r := c.p, c.r
	kinds := map[*types.Named]ssa.Instruction{}
	for _, fn := range p.Funcs {
		if !inPkg(fn, "parser") && !inPkg(fn, "generator") {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				mi, ok := in.(*ssa.MakeInterface)
				if !ok {
					continue
				}
				n := isElement(mi.X.Type())
				if n == nil || diagnosticUse(p, mi, map[ssa.Value]bool{}) {
					continue
				}
				if kinds[n] == nil {
					kinds[n] = in
				}
			}
		}
	}
	covered := map[*types.Named]bool{}
	var main *ssa.Function
	var fns []*ssa.Function
	for fn := range c.disp {
		fns = append(fns, fn)
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	for _, fn := range fns {
		var last *ssa.TypeAssert
		tas := typeCases(fn)
		for _, ta := range tas {
			if main == nil || len(tas) > len(typeCases(main)) {
				main = fn
			}
			ok := c.caseHandled(fn, ta)
			if n := isElement(ta.AssertedType); n != nil {
				covered[n] = covered[n] || ok
			} else if !ok {
				r.Bad("case:"+FnName(fn)+":"+ta.AssertedType.String(), p.At(ta), "%s does not expand values of type %s", FnName(fn), ta.AssertedType)
			}
			last = ta
		}
		// anything else
		if last != nil {
			if iff := okTest(last); iff != nil {
				if !c.failsFrom(iff.Block(), iff.Block().Succs[1], nil) {
					r.Bad("default:"+FnName(fn), p.At(last), "%s silently ignores elements it has no case for, instead of reporting an error", FnName(fn))
				}
			} else {
				r.Undecided("default:"+FnName(fn), p.At(last), "the case after the last one of %s was not found", FnName(fn))
			}
		}
	}
	var names []*types.Named
	for n := range kinds {
		names = append(names, n)
	}
	sort.Slice(names, func(i, j int) bool { return names[i].Obj().Name() < names[j].Obj().Name() })
	for _, n := range names {
		r.Count("kinds of elements", 1)
		if !covered[n] {
			r.Bad("kind:"+n.Obj().Name(), p.At(kinds[n]), "elements of type %s are made here, but no generator has a (complete) case for them", n.Obj().Name())
		}
	}
}

// okTest: the decision about a case.
func okTest(ta *ssa.TypeAssert) *ssa.If {
	for _, u := range *ta.Referrers() {
		if ex, ok := u.(*ssa.Extract); ok && ex.Index == 1 {
			for _, w := range *ex.Referrers() {
				if iff, ok := w.(*ssa.If); ok {
					return iff
				}
			}
		}
	}
	return nil
}

// caseHandled: in the case the value is handed to a function expanding all of its content, with the result returned.
func (c *contentCheck) caseHandled(fn *ssa.Function, ta *ssa.TypeAssert) bool {
	iff := okTest(ta)
	if iff == nil {
		return false
	}
	inCase := iff.Block().Succs[0]
	expanded := func(is func(v ssa.Value) bool) bool {
		for _, b := range fn.Blocks {
			if !inCase.Dominates(b) {
				continue
			}
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				for i, a := range argsOf(&call.Call) {
					if !is(a) {
						continue
					}
					ts := c.callees(&call.Call)
					all := len(ts) > 0
					for _, t := range ts {
						all = all && (c.complete(t, i) || c.handlerMethod(t))
					}
					if all && c.mustPass(inCase, b) && c.keeps(call) {
						return true
					}
				}
			}
		}
		return false
	}
	if expanded(func(v ssa.Value) bool { return c.fromCase(v, ta) }) {
		return true
	}
	// or the contents of the element are expanded one by one
	n := isElement(ta.AssertedType)
	if n == nil {
		return false
	}
	parts := 0
	st := n.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if !c.contentField(st.Field(i)) {
			continue
		}
		parts++
		if !expanded(func(v ssa.Value) bool { return c.fieldOfCase(v, ta, i) }) {
			return false
		}
	}
	return parts > 0
}

// fieldOfCase: the value is the given field of the value of the case.
func (c *contentCheck) fieldOfCase(v ssa.Value, ta *ssa.TypeAssert, i int) bool {
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return c.fieldOfCase(x.X, ta, i)
	case *ssa.Field:
		return x.Field == i && c.fromCase(x.X, ta)
	case *ssa.UnOp:
		fa, ok := x.X.(*ssa.FieldAddr)
		if !ok || x.Op != token.MUL || fa.Field != i {
			return false
		}
		if al, ok := fa.X.(*ssa.Alloc); ok {
			st := soleStored(al)
			return st != nil && c.fromCase(st, ta)
		}
	}
	return false
}

// handlerMethod: a method of a handler, its completeness is judged on its own.
func (c *contentCheck) handlerMethod(fn *ssa.Function) bool {
	for _, h := range c.handlers {
		for i := 0; i < c.iface.NumMethods(); i++ {
			m := c.iface.Method(i)
			if c.p.methodOf(types.NewPointer(h), m.Pkg(), m.Name()) == fn {
				return true
			}
		}
	}
	return false
}

// fromCase: the value is the one of the case.
func (c *contentCheck) fromCase(v ssa.Value, ta *ssa.TypeAssert) bool {
	switch x := v.(type) {
	case *ssa.Extract:
		if x.Tuple == ssa.Value(ta) {
			return true
		}
		// content.(T) again
		if t2, ok := x.Tuple.(*ssa.TypeAssert); ok {
			return t2.X == ta.X && types.Identical(t2.AssertedType, ta.AssertedType)
		}
	case *ssa.TypeAssert:
		return x.X == ta.X && types.Identical(x.AssertedType, ta.AssertedType)
	case *ssa.UnOp:
		if al, ok := x.X.(*ssa.Alloc); ok {
			if st := soleStored(al); st != nil {
				return c.fromCase(st, ta)
			}
		}
	case *ssa.MakeInterface:
		return c.fromCase(x.X, ta)
	case *ssa.ChangeInterface:
		return c.fromCase(x.X, ta)
	case *ssa.ChangeType:
		return c.fromCase(x.X, ta)
	}
	return false
}

func soleStored(al *ssa.Alloc) (v ssa.Value) {
	for _, r := range *al.Referrers() {
		if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(al) {
			if v != nil {
				return nil
			}
			v = st.Val
		}
	}
	return
}

// mustPass: every way from the start that does not fail passes the block.
func (c *contentCheck) mustPass(start, b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(x *ssa.BasicBlock) bool
	walk = func(x *ssa.BasicBlock) bool {
		if x == b || seen[x] {
			return true
		}
		seen[x] = true
		if ret, ok := x.Instrs[len(x.Instrs)-1].(*ssa.Return); ok {
			return c.failing(ret)
		}
		for _, s := range x.Succs {
			if !walk(s) {
				return false
			}
		}
		return true
	}
	return walk(start)
}

// returned: the text made by the call flows into what the function returns.
func (c *contentCheck) keeps(call *ssa.Call) bool {
	kind, _ := c.resultKept(call, true, nil)
	return kind == ""
}

func flowsFrom(v, src ssa.Value, seen map[ssa.Value]bool) bool {
	if v == nil {
		return false
	}
	if v == src {
		return true
	}
	if seen[v] {
		return false
	}
	seen[v] = true
	if ex, ok := v.(*ssa.Extract); ok && ex.Tuple == src {
		return ex.Index == 0
	}
	if al, ok := v.(*ssa.Alloc); ok {
		// everything put into it
		var put func(a ssa.Value) bool
		put = func(a ssa.Value) bool {
			for _, r := range *a.Referrers() {
				switch x := r.(type) {
				case *ssa.Store:
					if x.Addr == a && flowsFrom(x.Val, src, seen) {
						return true
					}
				case *ssa.IndexAddr:
					if put(x) {
						return true
					}
				case *ssa.FieldAddr:
					if put(x) {
						return true
					}
				case ssa.CallInstruction:
					for _, o := range argsOf(x.Common()) {
						if o != a && flowsFrom(o, src, seen) {
							return true
						}
					}
				case *ssa.MakeInterface:
					for _, r2 := range *x.Referrers() {
						if cc := callOf(r2); cc != nil {
							for _, o := range argsOf(cc) {
								if o != ssa.Value(x) && flowsFrom(o, src, seen) {
									return true
								}
							}
						}
					}
				}
			}
			return false
		}
		if put(al) {
			return true
		}
		return false
	}
	in, ok := v.(ssa.Instruction)
	if !ok {
		return false
	}
	for _, o := range in.Operands(nil) {
		if o != nil && *o != nil && flowsFrom(*o, src, seen) {
			return true
		}
	}
	// slices that are filled by index
	if ms, ok := v.(*ssa.MakeSlice); ok {
		for _, r := range *ms.Referrers() {
			if ia, ok := r.(*ssa.IndexAddr); ok {
				for _, r2 := range *ia.Referrers() {
					if st, ok := r2.(*ssa.Store); ok && flowsFrom(st.Val, src, seen) {
						return true
					}
				}
			}
		}
	}
	return false
}

// renders: what is expanded with the handler is used by its users.
func (c *contentCheck) renders(h *types.Named) bool {
	for _, fn := range c.p.Funcs {
		if !inPkg(fn, "generator") {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok || c.handlerMethod(fn) {
					continue
				}
				args := argsOf(&call.Call)
				if len(args) == 0 {
					continue
				}
				mi, ok := args[0].(*ssa.MakeInterface)
				if !ok || !types.Identical(mi.X.Type(), types.NewPointer(h)) {
					continue
				}
				for _, u := range *call.Referrers() {
					if ex, ok := u.(*ssa.Extract); ok && ex.Index == 0 && len(*ex.Referrers()) > 0 {
						return true
					}
				}
			}
		}
	}
	return false
}

// handlerMethods: every handler expands all content of its element, once.
func (c *contentCheck) handlerMethods() {
	p := c.p
	for _, h := range c.handlers {
		renders := c.renders(h)
		for i := 0; i < c.iface.NumMethods(); i++ {
			m := c.iface.Method(i)
			fn := p.methodOf(types.NewPointer(h), m.Pkg(), m.Name())
			if fn == nil || len(fn.Blocks) == 0 {
				continue
			}
			c.method(fn, renders)
		}
	}
}

func (c *contentCheck) method(fn *ssa.Function, renders bool) {
	p, r := c.p, c.r
	for _, q := range fn.Params[1:] {
		elem := isElement(q.Type()) != nil
		if sl, ok := q.Type().Underlying().(*types.Slice); ok && isElement(sl.Elem()) != nil {
			elem = true
		}
		if !elem {
			continue
		}
		r.Count("handler methods", 1)
		for _, what := range c.missing(fn, q) {
			r.Bad("lost:"+FnName(fn)+":"+what, p.Pos(fn.Pos()), "%s can succeed without expanding %s: its content is missing in the result", FnName(fn), what)
		}
		c.once(fn, q, renders)
		if renders && !c.dependsOn(fn, q) {
			r.Bad("unused:"+FnName(fn), p.Pos(fn.Pos()), "what %s returns does not depend on the element", FnName(fn))
		}
		r.Count("nested contents", c.leaves(q.Type(), 0))
		r.Sample("%s(%s): every content expanded once on every way to success", FnName(fn), types.TypeString(q.Type(), nil))
	}
}

func (c *contentCheck) leaves(t types.Type, depth int) (n int) {
	if depth > 3 {
		return 1
	}
	if sl, ok := t.Underlying().(*types.Slice); ok {
		t = sl.Elem()
	}
	nm := isElement(t)
	if nm == nil {
		return 1
	}
	st := nm.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if c.contentField(st.Field(i)) {
			n++
		}
	}
	return
}

// dependsOn: the returned text is made of (parts of) the parameter on every success.
func (c *contentCheck) dependsOn(fn *ssa.Function, q *ssa.Parameter) bool {
	// with content to expand an empty element can lead to a fixed text
	some, hasContent := false, c.content(q.Type())
	for _, b := range fn.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || c.failing(ret) {
			continue
		}
		if flowsFrom(ret.Results[0], q, map[ssa.Value]bool{}) {
			some = true
		} else if !hasContent {
			return false
		}
	}
	return some || !hasContent
}

// once: no part is expanded twice, lists in order, and the results are returned.
func (c *contentCheck) once(fn *ssa.Function, q *ssa.Parameter, renders bool) {
	p, r := c.p, c.r
	type site struct {
		call *ssa.Call
		path string
		idx  []ssa.Value
	}
	var sites []site
	loops := loopsOf(fn)
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			call, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			for _, a := range argsOf(&call.Call) {
				ac := c.access(a)
				if ac.root != ssa.Value(q) || !c.expands(in, q, ac.path) {
					continue
				}
				sites = append(sites, site{call, ac.path, ac.idx})
				break
			}
		}
	}
	for _, s := range sites {
		c.kept(s.call, s.path, renders, nil)
		n := 0
		for _, l := range loops {
			if l.blocks[s.call.Block()] {
				n++
			}
		}
		if n > strings.Count(s.path, "[]") {
			r.Bad("twice:"+FnName(fn)+":"+s.path, p.At(s.call), "%s can expand the same content several times", FnName(fn))
		}
		for _, t := range sites {
			if t.call != s.call && (strings.HasPrefix(t.path, s.path) || strings.HasPrefix(s.path, t.path)) && runsAfter(s.call, t.call) && !overlapsOnly(s.path, t.path) {
				r.Bad("twice:"+FnName(fn)+":"+s.path, p.At(t.call), "%s can expand the same content several times", FnName(fn))
			}
		}
		if renders {
			c.inOrder(fn, s.call)
		}
	}
}

// overlapsOnly: one path merely starts with the same digits as the other (".1" and ".10").
// kept: the result of the call is part of what its function returns and its error is not ignored.
func (c *contentCheck) kept(call *ssa.Call, what string, renders bool, passed func(*ssa.CallCommon) bool) {
	fn := call.Parent()
	kind, at := c.resultKept(call, renders, passed)
	key := kind + ":" + FnName(fn) + ":" + what
	switch kind {
	case "dropped":
		c.r.Bad(key, c.p.At(call), "%s expands content, but what it returns at %s does not contain the result", FnName(fn), c.p.At(at))
	case "swallowed":
		c.r.Bad(key, c.p.At(call), "%s expands content, but the error may be ignored (%s), the content is missing then", FnName(fn), c.p.At(at))
	case "undecided":
		c.r.Undecided(key, c.p.At(call), "too many ways from the call to the end of %s", FnName(fn))
	}
}

func overlapsOnly(a, b string) bool {
	if len(a) > len(b) {
		a, b = b, a
	}
	return len(b) > len(a) && b[len(a)] != '.' && b[len(a)] != '['
}

// reaches: the second call can be run after the first one without starting the function again.
func runsAfter(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		for _, in := range a.Block().Instrs {
			if in == a {
				return true
			}
			if in == b {
				return false
			}
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(x *ssa.BasicBlock) bool
	walk = func(x *ssa.BasicBlock) bool {
		if x == b.Block() {
			return true
		}
		if seen[x] {
			return false
		}
		seen[x] = true
		for _, s := range x.Succs {
			if walk(s) {
				return true
			}
		}
		return false
	}
	for _, s := range a.Block().Succs {
		if walk(s) {
			return true
		}
	}
	return false
}

// inOrder: results of a loop are put behind those of the previous iterations.
func (c *contentCheck) inOrder(fn *ssa.Function, call *ssa.Call) {
	p, r := c.p, c.r
	loops := loopsOf(fn)
	l := innermost(loops, call.Block())
	if l == nil {
		return
	}
	isAcc := func(v ssa.Value) bool {
		ph, ok := v.(*ssa.Phi)
		return ok && ph.Block() == l.head
	}
	for b := range l.blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.BinOp:
				if x.Op == token.ADD && types.Identical(x.Type().Underlying(), types.Typ[types.String]) && isAcc(x.Y) && flowsFrom(x.X, call, map[ssa.Value]bool{x.Y: true}) {
					r.Bad("order:"+FnName(fn), p.At(x), "%s puts later parts in front of earlier ones", FnName(fn))
				}
			case *ssa.Call:
				bi, ok := x.Call.Value.(*ssa.Builtin)
				if ok && bi.Name() == "append" && isAcc(x.Call.Args[1]) && flowsFrom(x.Call.Args[0], call, map[ssa.Value]bool{x.Call.Args[1]: true}) {
					r.Bad("order:"+FnName(fn), p.At(x), "%s puts later parts in front of earlier ones", FnName(fn))
				}
			}
		}
	}
}

// shared: the functions expanding texts with placeholders return every part, and fail for unknown placeholders.
func (c *contentCheck) shared() {
	p, r := c.p, c.r
	for _, fn := range p.Funcs {
		if !inPkg(fn, "generator") || !c.callsSimple(fn) {
			continue
		}
		r.Count("functions expanding texts", 1)
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				for _, t := range c.callees(&call.Call) {
					isExp := c.simple[t] || c.disp[t]
					for i, a := range argsOf(&call.Call) {
						if c.takes(a.Type()) && inPkg(t, "generator") && t.Signature.Results().Len() == 2 && c.complete(t, i) {
							isExp = true
						}
					}
					if isExp {
						c.kept(call, FnName(t), true, nil)
						break
					}
				}
				// placeholders without element
				if call.Call.IsInvoke() && call.Call.Signature().Results().Len() == 2 && c.elementIface(call.Call.Signature().Results().At(0).Type()) {
					for _, u := range *call.Referrers() {
						ex, ok := u.(*ssa.Extract)
						if !ok || ex.Index != 1 {
							continue
						}
						tested := false
						for _, w := range *ex.Referrers() {
							var iff *ssa.If
							miss := 1
							switch y := w.(type) {
							case *ssa.If:
								iff = y
							case *ssa.UnOp:
								miss = 0
								for _, z := range *y.Referrers() {
									if k, ok := z.(*ssa.If); ok {
										iff = k
									}
								}
							}
							if iff == nil {
								continue
							}
							tested = true
							if !c.failsFrom(iff.Block(), iff.Block().Succs[miss], nil) {
								r.Bad("unknown:"+FnName(fn), p.At(call), "%s can silently skip a placeholder without element", FnName(fn))
							}
						}
						if !tested {
							r.Bad("unknown:"+FnName(fn), p.At(call), "%s does not test whether a placeholder has an element", FnName(fn))
						}
					}
				}
			}
		}
	}
}

// rawFields: texts that are not tokenised (names, addresses, formulas) are used by a generator.
func (c *contentCheck) rawFields() {
	p, r := c.p, c.r
	used := map[*types.Var]bool{}
	for _, fn := range p.Funcs {
		if !inPkg(fn, "generator") {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.FieldAddr:
					for _, u := range *x.Referrers() {
						if ld, ok := u.(*ssa.UnOp); ok && !diagnosticUse(p, ld, map[ssa.Value]bool{}) {
							used[fieldVar(x.X.Type(), x.Field)] = true
						}
					}
				case *ssa.Field:
					if st, ok := x.X.Type().Underlying().(*types.Struct); ok {
						used[st.Field(x.Field)] = true
					}
				}
			}
		}
	}
	seen := map[*types.Named]bool{}
	for i := 0; i < c.iface.NumMethods(); i++ {
		sig := c.iface.Method(i).Type().(*types.Signature)
		k := c.elementParam(sig)
		if k < 0 {
			continue
		}
		n := isElement(sig.Params().At(k).Type())
		if seen[n] {
			continue
		}
		seen[n] = true
		st := n.Underlying().(*types.Struct)
		for j := 0; j < st.NumFields(); j++ {
			f := st.Field(j)
			if b, ok := f.Type().Underlying().(*types.Basic); !ok || b.Kind() != types.String || c.contentField(f) {
				continue
			}
			r.Count("plain texts of elements", 1)
			if !used[f] {
				r.Bad("raw:"+n.Obj().Name()+"."+f.Name(), p.Pos(f.Pos()), "%s.%s is not used by any generator", n.Obj().Name(), f.Name())
			}
		}
	}
}

// roots: the text of an article is expanded, and for rendering handlers the result is passed on.
func (c *contentCheck) roots() {
	p, r := c.p, c.r
	for _, h := range c.handlers {
		found := false
		for _, fn := range p.Funcs {
			if !inPkg(fn, "generator") || c.handlerMethod(fn) {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					call, ok := in.(*ssa.Call)
					if !ok {
						continue
					}
					args := argsOf(&call.Call)
					if len(args) < 2 {
						continue
					}
					mi, ok := args[0].(*ssa.MakeInterface)
					if !ok || !types.Identical(mi.X.Type(), types.NewPointer(h)) {
						continue
					}
					ac := c.access(args[1])
					q, isParam := ac.root.(*ssa.Parameter)
					if !isParam || ac.path == "" {
						continue
					}
					if pt, ok := q.Type().Underlying().(*types.Pointer); !ok || isElement(pt.Elem()) != nil {
						if nm, ok := q.Type().(*types.Named); !ok || isElement(nm) != nil {
							continue // a part of an element, see missing
						}
					}
					found = true
					r.Count("articles expanded", 1)
					// on every success
					pts := map[*ssa.BasicBlock]bool{call.Block(): true}
					if c.avoidable(fn, nil, pts, q, ac.path, types.Typ[types.String]) {
						r.Bad("root:"+FnName(fn), p.At(call), "%s can succeed without expanding the article", FnName(fn))
					}
					if c.renders(h) {
						c.kept(call, ac.path, true, func(cc *ssa.CallCommon) bool {
							return len(c.callees(cc)) > 0 || strings.HasPrefix(CalleeKey(cc), "os.")
						})
					} else {
						c.kept(call, ac.path, false, nil)
					}
				}
			}
		}
		if !found {
			r.Undecided("root:"+h.Obj().Name(), "-", "no place found where %s expands the text of an article", h.Obj().Name())
		}
	}
}
