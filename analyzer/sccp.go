package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Interprocedural conditional constant propagation: given constants for some settings, which blocks, calls and
// results remain possible in everything reachable from a set of root functions.

type latKind int

const (
	latTop latKind = iota
	latConst
	latNil
	latNonNil
	latBottom
)

// lat is a lattice value; opt tells that it was computed from one of the given settings.
type lat struct {
	k   latKind
	c   constant.Value
	opt bool
}

func (a lat) same(b lat) bool {
	if a.k != b.k || a.opt != b.opt {
		return false
	}
	return a.k != latConst || constant.Compare(a.c, token.EQL, b.c) && a.c.Kind() == b.c.Kind()
}

func joinLat(a, b lat) lat {
	switch {
	case a.k == latTop:
		b.opt = b.opt || a.opt
		return b
	case b.k == latTop:
		a.opt = a.opt || b.opt
		return a
	case a.k == b.k && (a.k != latConst || a.c.Kind() == b.c.Kind() && constant.Compare(a.c, token.EQL, b.c)):
		a.opt = a.opt || b.opt
		return a
	}
	return lat{k: latBottom}
}

type blockEdge struct{ from, to *ssa.BasicBlock }

// SCCP is one run of the propagation.
type SCCP struct {
	p       *Program
	env     func(fv *types.Var) (constant.Value, bool)
	vals    map[ssa.Value]lat
	tuples  map[ssa.Value][]lat
	rets    map[*ssa.Function][]lat
	edges   map[blockEdge]bool
	blocks  map[*ssa.BasicBlock]bool
	dead    map[ssa.Instruction]bool // nothing after this call is executed
	fns     map[*ssa.Function]bool
	over    map[ssa.Value]constant.Value // values assumed to be constant
	changed bool
}

func (p *Program) RunSCCP(roots []*ssa.Function, env func(fv *types.Var) (constant.Value, bool)) *SCCP {
	return p.RunSCCPWith(roots, env, nil)
}

// RunSCCPWith propagates constants, assuming the given values to be constant.
func (p *Program) RunSCCPWith(roots []*ssa.Function, env func(fv *types.Var) (constant.Value, bool), over map[ssa.Value]constant.Value) *SCCP {
	x := &SCCP{p: p, over: over, env: env, vals: map[ssa.Value]lat{}, tuples: map[ssa.Value][]lat{}, rets: map[*ssa.Function][]lat{}, edges: map[blockEdge]bool{}, blocks: map[*ssa.BasicBlock]bool{}, dead: map[ssa.Instruction]bool{}, fns: map[*ssa.Function]bool{}}
	for _, f := range roots {
		x.enter(f)
		for _, q := range f.Params {
			x.set(q, lat{k: latBottom})
		}
	}
	for {
		x.changed = false
		var list []*ssa.Function
		for f := range x.fns {
			list = append(list, f)
		}
		for _, f := range list {
			for _, b := range f.Blocks {
				if x.blocks[b] {
					x.block(b)
				}
			}
		}
		if !x.changed {
			return x
		}
	}
}

func (x *SCCP) enter(f *ssa.Function) {
	if len(f.Blocks) == 0 || !x.p.IsRepoFn(f) {
		return
	}
	if !x.fns[f] {
		x.fns[f] = true
		x.blocks[f.Blocks[0]] = true
		x.changed = true
	}
}

func (x *SCCP) set(v ssa.Value, l lat) {
	o := x.vals[v]
	n := joinLat(o, l)
	if !n.same(o) {
		x.vals[v] = n
		x.changed = true
	}
}

func (x *SCCP) get(v ssa.Value) lat {
	if c, ok := x.over[v]; ok {
		return lat{k: latConst, c: c}
	}
	switch c := v.(type) {
	case *ssa.Const:
		if c.Value == nil {
			return lat{k: latNil}
		}
		return lat{k: latConst, c: c.Value}
	case *ssa.Function, *ssa.MakeClosure, *ssa.Global, *ssa.Builtin:
		return lat{k: latNonNil}
	case *ssa.FreeVar:
		if pf := c.Parent().Parent(); pf == nil || !x.fns[pf] {
			return lat{k: latBottom}
		}
	}
	return x.vals[v]
}

func (x *SCCP) edge(from, to *ssa.BasicBlock) {
	e := blockEdge{from, to}
	if !x.edges[e] {
		x.edges[e] = true
		x.changed = true
	}
	if !x.blocks[to] {
		x.blocks[to] = true
		x.changed = true
	}
}

func (x *SCCP) block(b *ssa.BasicBlock) {
	for _, in := range b.Instrs {
		x.instr(b, in)
		if x.dead[in] {
			return
		}
	}
}

func (x *SCCP) escape(v ssa.Value) {
	switch f := v.(type) {
	case *ssa.Function:
		x.enter(f)
		for _, q := range f.Params {
			x.set(q, lat{k: latBottom})
		}
	case *ssa.MakeClosure:
		fn := f.Fn.(*ssa.Function)
		x.enter(fn)
		for _, q := range fn.Params {
			x.set(q, lat{k: latBottom})
		}
	}
}

func (x *SCCP) instr(b *ssa.BasicBlock, in ssa.Instruction) {
	bot := lat{k: latBottom}
	switch i := in.(type) {
	case *ssa.MakeClosure:
		fn := i.Fn.(*ssa.Function)
		for k, bv := range i.Bindings {
			if k < len(fn.FreeVars) {
				x.set(fn.FreeVars[k], x.get(bv))
			}
		}
		x.set(i, lat{k: latNonNil})
	case *ssa.Phi:
		for k, e := range i.Edges {
			if x.edges[blockEdge{b.Preds[k], b}] {
				x.set(i, x.get(e))
			}
		}
	case *ssa.BinOp:
		x.set(i, x.binop(i))
	case *ssa.UnOp:
		switch i.Op {
		case token.NOT:
			l := x.get(i.X)
			if l.k == latConst {
				x.set(i, lat{k: latConst, c: constant.UnaryOp(token.NOT, l.c, 0), opt: l.opt})
			} else if l.k == latBottom {
				x.set(i, bot)
			}
		case token.MUL:
			x.set(i, x.load(i.X))
		default:
			x.set(i, bot)
		}
	case *ssa.Field:
		if fv := fieldVar(i.X.Type(), i.Field); fv != nil {
			if c, ok := x.env(fv); ok {
				x.set(i, lat{k: latConst, c: c, opt: true})
				return
			}
		}
		x.set(i, bot)
	case *ssa.ChangeType:
		x.set(i, x.get(i.X))
	case *ssa.Convert:
		l := x.get(i.X)
		if l.k == latConst && l.c.Kind() != constant.String {
			l = bot
		}
		if bt, ok := i.Type().Underlying().(*types.Basic); !ok || bt.Info()&types.IsString == 0 {
			if l.k == latConst {
				l = bot
			}
		}
		x.set(i, l)
	case *ssa.MakeInterface:
		x.set(i, lat{k: latNonNil})
	case *ssa.Alloc, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan:
		x.set(i.(ssa.Value), lat{k: latNonNil})
	case *ssa.Lookup:
		x.lookup(i)
	case *ssa.Extract:
		if t, ok := x.tuples[i.Tuple]; ok {
			if i.Index < len(t) && t[i.Index].k != latTop {
				x.set(i, t[i.Index])
			}
		} else {
			switch i.Tuple.(type) {
			case *ssa.Call, *ssa.Lookup:
			default:
				x.set(i, bot)
			}
		}
	case *ssa.Call:
		x.call(i, i)
	case *ssa.Go:
		x.call(i, nil)
	case *ssa.Defer:
		x.call(i, nil)
	case *ssa.Return:
		r := x.rets[b.Parent()]
		if r == nil {
			r = make([]lat, len(i.Results))
		}
		for k, v := range i.Results {
			n := joinLat(r[k], x.get(v))
			if !n.same(r[k]) {
				r[k] = n
				x.changed = true
			}
		}
		x.rets[b.Parent()] = r
	case *ssa.If:
		l := x.get(i.Cond)
		switch l.k {
		case latTop:
		case latConst:
			if constant.BoolVal(l.c) {
				x.edge(b, b.Succs[0])
			} else {
				x.edge(b, b.Succs[1])
			}
		default:
			x.edge(b, b.Succs[0])
			x.edge(b, b.Succs[1])
		}
	case *ssa.Jump:
		x.edge(b, b.Succs[0])
	case *ssa.Panic:
	case ssa.Value:
		x.set(i, bot)
	}
	for _, op := range in.Operands(nil) {
		if _, ok := in.(ssa.CallInstruction); ok && *op != nil {
			x.escapeArg(in.(ssa.CallInstruction), *op)
			continue
		}
		if st, ok := in.(*ssa.Store); ok && *op == st.Val {
			x.escape(*op)
		}
		if _, ok := in.(*ssa.MakeInterface); ok {
			x.escape(*op)
		}
		if _, ok := in.(*ssa.Return); ok && *op != nil {
			x.escape(*op)
		}
		if mu, ok := in.(*ssa.MapUpdate); ok && *op != nil {
			if _, lit := mapLiteral(mu.Map); !lit {
				x.escape(*op)
			}
		}
		if _, ok := in.(*ssa.Phi); ok && *op != nil {
			x.escape(*op)
		}
	}
}

func (x *SCCP) escapeArg(c ssa.CallInstruction, v ssa.Value) {
	if c.Common().Value == v && !c.Common().IsInvoke() {
		return
	}
	x.escape(v)
}

func (x *SCCP) load(a ssa.Value) lat {
	bot := lat{k: latBottom}
	switch u := a.(type) {
	case *ssa.FieldAddr:
		if fv := fieldVar(u.X.Type(), u.Field); fv != nil {
			if c, ok := x.env(fv); ok {
				return lat{k: latConst, c: c, opt: true}
			}
		}
	case *ssa.Global:
		return bot
	case *ssa.Alloc, *ssa.FreeVar:
		return x.cell(a, map[ssa.Value]bool{})
	}
	return bot
}

// cell joins everything stored to a local variable captured by closures.
func (x *SCCP) cell(a ssa.Value, seen map[ssa.Value]bool) lat {
	if seen[a] {
		return lat{}
	}
	seen[a] = true
	bot := lat{k: latBottom}
	if fv, ok := a.(*ssa.FreeVar); ok {
		fn := fv.Parent()
		out := lat{}
		for k, f := range fn.FreeVars {
			if f != fv {
				continue
			}
			if fn.Parent() == nil {
				return bot
			}
			for _, b := range fn.Parent().Blocks {
				for _, in := range b.Instrs {
					if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == fn {
						out = joinLat(out, x.cell(mc.Bindings[k], seen))
					}
				}
			}
		}
		return out
	}
	al, ok := a.(*ssa.Alloc)
	if !ok {
		return bot
	}
	switch al.Type().(*types.Pointer).Elem().Underlying().(type) {
	case *types.Struct, *types.Array:
		return bot
	}
	out := lat{}
	var visit func(v ssa.Value) bool
	stores := 0
	visit = func(v ssa.Value) bool {
		for _, r := range *v.Referrers() {
			switch u := r.(type) {
			case *ssa.Store:
				if u.Val == v {
					return false
				}
				stores++
				if !x.fns[u.Parent()] {
					out = bot
				} else if x.blocks[u.Block()] {
					out = joinLat(out, x.get(u.Val))
				}
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.MakeClosure:
				fn := u.Fn.(*ssa.Function)
				for k, bv := range u.Bindings {
					if bv == v && k < len(fn.FreeVars) {
						if !visit(fn.FreeVars[k]) {
							return false
						}
					}
				}
			default:
				return false
			}
		}
		return true
	}
	if !visit(al) || stores == 0 {
		return bot
	}
	if stores > 1 {
		// the zero value may be read before or between the assignments
		switch out.k {
		case latConst, latNil:
		default:
			return bot
		}
	}
	return out
}

func (x *SCCP) binop(i *ssa.BinOp) lat {
	a, b := x.get(i.X), x.get(i.Y)
	if a.k == latTop || b.k == latTop {
		return lat{}
	}
	opt := a.opt || b.opt
	if i.Op == token.EQL || i.Op == token.NEQ {
		eq := func(v bool) lat {
			return lat{k: latConst, c: constant.MakeBool(v == (i.Op == token.EQL)), opt: opt}
		}
		switch {
		case a.k == latConst && b.k == latConst && a.c.Kind() == b.c.Kind():
			return eq(constant.Compare(a.c, token.EQL, b.c))
		case a.k == latNil && b.k == latNil:
			return eq(true)
		case a.k == latNil && b.k == latNonNil, a.k == latNonNil && b.k == latNil:
			return eq(false)
		}
		return lat{k: latBottom}
	}
	if a.k == latConst && b.k == latConst && a.c.Kind() == b.c.Kind() {
		switch i.Op {
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			return lat{k: latConst, c: constant.MakeBool(constant.Compare(a.c, i.Op, b.c)), opt: opt}
		case token.ADD:
			if a.c.Kind() == constant.String {
				return lat{k: latConst, c: constant.BinaryOp(a.c, token.ADD, b.c), opt: opt}
			}
		}
	}
	return lat{k: latBottom}
}

// constElems lists the constant elements of a slice or array literal.
func constElems(v ssa.Value) ([]constant.Value, bool) {
	if sl, ok := v.(*ssa.Slice); ok {
		v = sl.X
	}
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if g, ok := u.X.(*ssa.Global); ok {
			// a package variable holding a literal, only assigned by init
			var val ssa.Value
			n := 0
			for _, m := range g.Pkg.Members {
				fn, ok := m.(*ssa.Function)
				if !ok {
					continue
				}
				for _, b := range fn.Blocks {
					for _, in := range b.Instrs {
						if st, ok := in.(*ssa.Store); ok && st.Addr == g {
							n++
							if isInit(fn) {
								val = st.Val
							}
						}
					}
				}
			}
			if n == 1 && val != nil {
				return constElems(val)
			}
			return nil, false
		}
	}
	al, ok := v.(*ssa.Alloc)
	if !ok {
		return nil, false
	}
	at, ok := al.Type().(*types.Pointer).Elem().Underlying().(*types.Array)
	if !ok {
		return nil, false
	}
	var out []constant.Value
	for _, r := range *al.Referrers() {
		switch u := r.(type) {
		case *ssa.IndexAddr:
			for _, r2 := range *u.Referrers() {
				st, ok := r2.(*ssa.Store)
				if !ok || st.Addr != u {
					return nil, false
				}
				c, ok := st.Val.(*ssa.Const)
				if !ok || c.Value == nil {
					return nil, false
				}
				out = append(out, c.Value)
			}
		case *ssa.Slice, *ssa.DebugRef:
		default:
			return nil, false
		}
	}
	return out, int64(len(out)) == at.Len()
}

// mapLiteral lists the constant keys and the values of a map literal.
func mapLiteral(v ssa.Value) (map[string]ssa.Value, bool) {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if g, ok := u.X.(*ssa.Global); ok {
			var val ssa.Value
			n := 0
			for _, m := range g.Pkg.Members {
				fn, ok := m.(*ssa.Function)
				if !ok {
					continue
				}
				for _, b := range fn.Blocks {
					for _, in := range b.Instrs {
						if st, ok := in.(*ssa.Store); ok && st.Addr == g {
							n++
							if isInit(fn) {
								val = st.Val
							}
						}
					}
				}
			}
			if n == 1 && val != nil {
				return mapLiteral(val)
			}
		}
		return nil, false
	}
	mm, ok := v.(*ssa.MakeMap)
	if !ok {
		return nil, false
	}
	out := map[string]ssa.Value{}
	for _, r := range *mm.Referrers() {
		switch u := r.(type) {
		case *ssa.MapUpdate:
			if u.Map != mm {
				return nil, false
			}
			c, ok := u.Key.(*ssa.Const)
			if !ok || c.Value == nil {
				return nil, false
			}
			out[c.Value.ExactString()] = u.Value
		case *ssa.Lookup, *ssa.DebugRef, *ssa.Range, *ssa.Store:
		default:
			return nil, false
		}
	}
	return out, true
}

func (x *SCCP) lookup(i *ssa.Lookup) {
	bot := lat{k: latBottom}
	l := x.get(i.Index)
	if l.k == latTop {
		return
	}
	res := []lat{bot, bot}
	if m, ok := mapLiteral(i.X); ok && l.k == latConst {
		v, has := m[l.c.ExactString()]
		res[1] = lat{k: latConst, c: constant.MakeBool(has), opt: l.opt}
		if has {
			if c, ok := v.(*ssa.Const); ok && c.Value != nil {
				res[0] = lat{k: latConst, c: c.Value, opt: l.opt}
			} else {
				res[0] = lat{k: latNonNil, opt: l.opt}
				if _, isf := v.Type().Underlying().(*types.Signature); !isf {
					res[0] = bot
				}
			}
		} else if z, ok := zeroLat(i.X.Type()); ok {
			z.opt = l.opt
			res[0] = z
		}
	}
	if !i.CommaOk {
		x.set(i, res[0])
		return
	}
	x.setTuple(i, res)
}

func zeroLat(t types.Type) (lat, bool) {
	m, ok := t.Underlying().(*types.Map)
	if !ok {
		return lat{}, false
	}
	switch e := m.Elem().Underlying().(type) {
	case *types.Basic:
		switch {
		case e.Info()&types.IsBoolean != 0:
			return lat{k: latConst, c: constant.MakeBool(false)}, true
		case e.Info()&types.IsString != 0:
			return lat{k: latConst, c: constant.MakeString("")}, true
		}
	case *types.Signature, *types.Pointer, *types.Slice, *types.Map, *types.Interface:
		return lat{k: latNil}, true
	}
	return lat{}, false
}

func (x *SCCP) setTuple(v ssa.Value, n []lat) {
	o := x.tuples[v]
	if o == nil {
		o = make([]lat, len(n))
		x.changed = true
	}
	for k := range n {
		j := joinLat(o[k], n[k])
		if !j.same(o[k]) {
			o[k] = j
			x.changed = true
		}
	}
	x.tuples[v] = o
}

func (x *SCCP) result(v *ssa.Call, res []lat) {
	if v == nil {
		return
	}
	if t, ok := v.Type().(*types.Tuple); ok {
		n := make([]lat, t.Len())
		for k := range n {
			n[k] = lat{k: latBottom}
			if k < len(res) {
				n[k] = res[k]
			}
		}
		x.setTuple(v, n)
		return
	}
	if len(res) > 0 {
		x.set(v, res[0])
	} else {
		x.set(v, lat{k: latBottom})
	}
}

func (x *SCCP) call(ci ssa.CallInstruction, v *ssa.Call) {
	c := ci.Common()
	k := CalleeKey(c)
	if nr := noReturn(k); nr != "" {
		die := true
		if nr == "iferr" && len(c.Args) > 0 {
			l := x.get(c.Args[0])
			die = l.k == latNonNil || l.k == latTop
		}
		if _, isCall := ci.(*ssa.Call); isCall {
			x.setDead(ci, die)
		}
		x.result(v, nil)
		return
	}
	bot := lat{k: latBottom}
	if callees := x.p.Callees(c); len(callees) > 0 {
		var res []lat
		ext := false
		for _, f := range callees {
			if len(f.Blocks) == 0 || !x.p.IsRepoFn(f) {
				ext = true
				continue
			}
			x.enter(f)
			args := c.Args
			if c.IsInvoke() {
				args = append([]ssa.Value{c.Value}, c.Args...)
			}
			for n, q := range f.Params {
				if n < len(args) {
					l := x.get(args[n])
					if l.k != latTop {
						x.set(q, l)
					}
				} else {
					x.set(q, bot)
				}
			}
			r := x.rets[f]
			for n := range r {
				if n >= len(res) {
					res = append(res, lat{})
				}
				res[n] = joinLat(res[n], r[n])
			}
		}
		if !ext {
			if res != nil {
				x.result(v, res)
			} else if v != nil && v.Call.Signature().Results().Len() == 0 {
				x.result(v, nil)
			}
			// a callee that never returns leaves the rest unexecuted until it does
			ret := false
			for _, f := range callees {
				if x.returns(f) {
					ret = true
				}
			}
			if _, isCall := ci.(*ssa.Call); isCall {
				x.setDead(ci, !ret)
			}
			return
		}
	} else if mc := dynamicClosures(x, c); len(mc) > 0 {
		for _, f := range mc {
			x.enter(f)
			for _, q := range f.Params {
				x.set(q, bot)
			}
		}
	}
	x.result(v, x.external(k, c))
}

// callees resolves a call like Program.Callees, and calls of local function values and of tables of functions as well.
func (x *SCCP) callees(c *ssa.CallCommon) []*ssa.Function {
	if out := x.p.Callees(c); len(out) > 0 {
		return out
	}
	return dynamicClosures(x, c)
}

// dynamicClosures: the functions a call through a local value or a map of functions may reach.
func dynamicClosures(x *SCCP, c *ssa.CallCommon) (out []*ssa.Function) {
	if c.IsInvoke() || c.StaticCallee() != nil {
		return nil
	}
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		switch u := v.(type) {
		case *ssa.Function:
			out = append(out, u)
		case *ssa.MakeClosure:
			out = append(out, u.Fn.(*ssa.Function))
		case *ssa.Phi:
			for _, e := range u.Edges {
				walk(e)
			}
		case *ssa.Extract:
			walk(u.Tuple)
		case *ssa.Lookup:
			if m, ok := mapLiteral(u.X); ok {
				if x != nil {
					if l := x.get(u.Index); l.k == latConst {
						walk(m[l.c.ExactString()])
						return
					}
				}
				for _, w := range m {
					walk(w)
				}
			}
		case *ssa.UnOp:
			if a, ok := u.X.(*ssa.Alloc); ok {
				for _, r := range *a.Referrers() {
					if st, ok := r.(*ssa.Store); ok && st.Addr == a {
						walk(st.Val)
					}
				}
			}
		}
	}
	walk(c.Value)
	return
}

func (x *SCCP) setDead(in ssa.Instruction, d bool) {
	if x.dead[in] != d {
		x.dead[in] = d
		x.changed = true
	}
}

// returns: some return of f is executable.
func (x *SCCP) returns(f *ssa.Function) bool {
	if len(f.Blocks) == 0 || !x.p.IsRepoFn(f) {
		return true
	}
	for _, b := range f.Blocks {
		if x.blocks[b] {
			if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && !x.deadIn(b) {
				return true
			}
		}
	}
	return false
}

func (x *SCCP) deadIn(b *ssa.BasicBlock) bool {
	for _, in := range b.Instrs {
		if x.dead[in] {
			return true
		}
	}
	return false
}

func (x *SCCP) external(k string, c *ssa.CallCommon) []lat {
	bot := lat{k: latBottom}
	if nonNilResult(k) {
		n := c.Signature().Results().Len()
		out := make([]lat, n)
		for i := range out {
			out[i] = bot
		}
		if n == 1 {
			out[0] = lat{k: latNonNil}
		}
		return out
	}
	if isErrWrap(k) && len(c.Args) > 0 {
		l := x.get(c.Args[0])
		if l.k == latNil || l.k == latNonNil || l.k == latTop {
			return []lat{l}
		}
		return []lat{bot}
	}
	var av []lat
	opt := false
	for _, a := range c.Args {
		l := x.get(a)
		if l.k == latTop {
			return []lat{{}}
		}
		opt = opt || l.opt
		av = append(av, l)
	}
	str := func(i int) (string, bool) {
		if i < len(av) && av[i].k == latConst && av[i].c.Kind() == constant.String {
			return constant.StringVal(av[i].c), true
		}
		return "", false
	}
	b := func(v bool) []lat { return []lat{{k: latConst, c: constant.MakeBool(v), opt: opt}} }
	s := func(v string) []lat { return []lat{{k: latConst, c: constant.MakeString(v), opt: opt}} }
	a0, ok0 := str(0)
	a1, ok1 := str(1)
	switch k {
	case "slices.Contains":
		if el, ok := constElems(c.Args[0]); ok && av[1].k == latConst {
			for _, e := range el {
				if e.Kind() == av[1].c.Kind() && constant.Compare(e, token.EQL, av[1].c) {
					opt = true
					return b(true)
				}
			}
			opt = opt || av[1].opt
			return b(false)
		}
	case "strings.HasPrefix":
		if ok0 && ok1 {
			return b(strings.HasPrefix(a0, a1))
		}
	case "strings.HasSuffix":
		if ok0 && ok1 {
			return b(strings.HasSuffix(a0, a1))
		}
	case "strings.Contains":
		if ok0 && ok1 {
			return b(strings.Contains(a0, a1))
		}
	case "strings.EqualFold":
		if ok0 && ok1 {
			return b(strings.EqualFold(a0, a1))
		}
	case "strings.ToLower":
		if ok0 {
			return s(strings.ToLower(a0))
		}
	case "strings.ReplaceAll":
		if a2, ok := str(2); ok && ok0 && ok1 {
			return s(strings.ReplaceAll(a0, a1, a2))
		}
	case "strings.Trim":
		if ok0 && ok1 {
			return s(strings.Trim(a0, a1))
		}
	case "strings.Count":
		if ok0 && ok1 {
			return []lat{{k: latConst, c: constant.MakeInt64(int64(strings.Count(a0, a1))), opt: opt}}
		}
	case "strings.Repeat":
		if ok0 && len(av) > 1 && av[1].k == latConst {
			if n, ok := constant.Int64Val(av[1].c); ok && n >= 0 && n < 1000 {
				return s(strings.Repeat(a0, int(n)))
			}
		}
	case "strings.TrimPrefix":
		if ok0 && ok1 {
			return s(strings.TrimPrefix(a0, a1))
		}
	case "strings.TrimSpace":
		if ok0 {
			return s(strings.TrimSpace(a0))
		}
	case "builtin.len":
		if ok0 {
			return []lat{{k: latConst, c: constant.MakeInt64(int64(len(a0))), opt: opt}}
		}
	}
	out := make([]lat, c.Signature().Results().Len())
	for i := range out {
		out[i] = bot
	}
	return out
}

// live tells whether an instruction can be executed.
func (x *SCCP) Live(in ssa.Instruction) bool {
	b := in.Block()
	if !x.blocks[b] {
		return false
	}
	for _, i := range b.Instrs {
		if i == in {
			return true
		}
		if x.dead[i] {
			return false
		}
	}
	return true
}

// succs are the possible successors of a block (none after a call that does not return).
func (x *SCCP) succs(b *ssa.BasicBlock) (out []*ssa.BasicBlock) {
	if x.deadIn(b) {
		return nil
	}
	for _, s := range b.Succs {
		if x.edges[blockEdge{b, s}] {
			out = append(out, s)
		}
	}
	return
}

// Reached is the set of functions that can be called from f in this run (f included).
func (x *SCCP) Reached(f *ssa.Function) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{f: true}
	work := []*ssa.Function{f}
	for len(work) > 0 {
		g := work[len(work)-1]
		work = work[:len(work)-1]
		add := func(h *ssa.Function) {
			if h != nil && !seen[h] && x.fns[h] {
				seen[h] = true
				work = append(work, h)
			}
		}
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if !x.Live(in) {
					continue
				}
				if c, ok := in.(ssa.CallInstruction); ok {
					for _, h := range x.p.Callees(c.Common()) {
						add(h)
					}
					for _, h := range dynamicClosures(x, c.Common()) {
						add(h)
					}
				}
				if mu, ok := in.(*ssa.MapUpdate); ok {
					if _, lit := mapLiteral(mu.Map); lit {
						continue
					}
				}
				for _, op := range in.Operands(nil) {
					switch v := (*op).(type) {
					case *ssa.Function:
						add(v)
					case *ssa.MakeClosure:
						add(v.Fn.(*ssa.Function))
					}
				}
			}
		}
	}
	return seen
}
