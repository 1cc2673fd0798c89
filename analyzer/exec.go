package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (e *Engine) push(s *State) { e.work = append(e.work, s) }

// exec runs a state until it forks, ends or meets a known state.
func (e *Engine) exec(s *State) {
	for {
		if e.Overflow {
			return
		}
		f := s.top()
		if f.pc >= len(f.block.Instrs) {
			return
		}
		in := f.block.Instrs[f.pc]
		e.Transit++
		if e.OnInstr != nil {
			e.OnInstr(s, in, func(v ssa.Value) *Term { return e.val(s, v) })
		}
		switch x := in.(type) {
		case *ssa.If:
			c := e.val(s, x.Cond)
			d := s.decide(c)
			if d == 1 {
				if !e.enter(s, f.block.Succs[0]) {
					return
				}
				continue
			}
			if d == 0 {
				if !e.enter(s, f.block.Succs[1]) {
					return
				}
				continue
			}
			n := s.clone()
			n.assume(c, false)
			s.assume(c, true)
			if p := instrPos(x); p.IsValid() {
				n.trace = append(n.trace, p)
				s.trace = append(s.trace, p)
			}
			if e.enter(n, n.top().block.Succs[1]) {
				e.push(n)
			}
			if !e.enter(s, f.block.Succs[0]) {
				return
			}
			continue
		case *ssa.Jump:
			if !e.enter(s, f.block.Succs[0]) {
				return
			}
			continue
		case *ssa.Return:
			var rs []*Term
			for _, r := range x.Results {
				rs = append(rs, e.val(s, r))
			}
			if e.OnFnRet != nil {
				e.OnFnRet(s, f.fn, rs, x)
			}
			if len(s.frames) == 1 {
				if e.OnReturn != nil {
					e.OnReturn(s, rs, x)
				}
				return
			}
			s.frames = s.frames[:len(s.frames)-1]
			c := s.top()
			if _, ok := c.block.Instrs[c.pc].(*ssa.RunDefers); ok {
				// a deferred call came back: continue with the remaining ones
				continue
			}
			if f.dest != nil {
				switch len(rs) {
				case 0:
				case 1:
					c.env[f.dest] = rs[0]
				default:
					c.env[f.dest] = e.TS.App("tuple", rs...)
				}
			}
			c.pc++
			if e.seen(s) {
				return
			}
			continue
		case *ssa.Panic:
			if e.OnEnd != nil {
				e.OnEnd(s, "panic", in)
			}
			return
		case *ssa.RunDefers:
			if len(f.defers) == 0 {
				f.pc++
				continue
			}
			d := f.defers[len(f.defers)-1]
			f.defers = f.defers[:len(f.defers)-1]
			if !e.doCall(s, d.call, d.fnT, d.args, nil, true) {
				return
			}
			continue
		case *ssa.Defer:
			fnT, args := e.callOperands(s, x.Common())
			f.defers = append(f.defers, deferred{call: x, fnT: fnT, args: args})
			f.pc++
			continue
		case *ssa.Go:
			e.goCall(s, x)
			f.pc++
			continue
		case *ssa.Call:
			fnT, args := e.callOperands(s, x.Common())
			if !e.doCall(s, x, fnT, args, x, false) {
				return
			}
			continue
		default:
			e.step(s, f, in)
			f.pc++
		}
	}
}

// enter moves the top frame to block b, evaluating its phis. False: the state is already known.
func (e *Engine) enter(s *State, b *ssa.BasicBlock) bool {
	f := s.top()
	prev := f.block
	f.prev = prev
	pi := -1
	for i, p := range b.Preds {
		if p == prev {
			pi = i
			break
		}
	}
	// when both edges of an If lead to the same block the phi edges are equal by construction
	back := b.Dominates(prev)
	type asg struct {
		ph *ssa.Phi
		t  *Term
	}
	var as []asg
	n := 0
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		n++
		var t *Term
		if pi >= 0 {
			t = e.val(s, ph.Edges[pi])
		} else {
			t = e.TS.mk("old", "phi?", nil, nil, nil)
		}
		as = append(as, asg{ph, t})
	}
	if back {
		det := e.loopDetermined(s, b)
		for i := range as {
			a := &as[i]
			site := e.site(f, a.ph, a.ph.Comment+"@"+f.fn.Name())
			prevT := f.env[a.ph]
			grow := false
			if bt, ok := a.ph.Type().Underlying().(*types.Basic); e.Coarse && !isErrorType(a.ph.Type()) && (!ok || bt.Kind() != types.Bool) {
				grow = true
			} else if !det {
				if a.t.IsConst() && a.t.c.Kind() != constant.Bool && a.t.c.Kind() != constant.String && prevT != a.t {
					// a counter; enumerations assigned directly in the loop keep their value
					if _, direct := a.ph.Edges[pi].(*ssa.Const); !direct {
						grow = true
					}
				}
				if prevT != nil && a.t != prevT && a.t.depth > prevT.depth && a.t.Contains(prevT) {
					grow = true
				}
				if b, ok := a.ph.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsNumeric != 0 && len(a.t.args) > 0 && a.t.op != "extract" && a.t.op != "call" && a.t.op != "len" && a.t.op != "deref" && a.t.op != "field" {
					grow = true
				}
				if a.t.depth > f.phi0[a.ph]+3 {
					grow = true
				}
				if a.t.hasLeaf(site) && a.t.op != "phi" {
					grow = true
				}
				if a.t.IsConst() && a.t.c.Kind() == constant.String {
					if _, direct := a.ph.Edges[pi].(*ssa.Const); !direct && prevT != nil && prevT.IsConst() && prevT != a.t {
						grow = true
					}
				}
			}
			if grow {
				t := e.TS.mk("phi", site, nil, nil, nil)
				for j := range as {
					as[j].t = e.TS.Subst(as[j].t, site, map[*Term]*Term{})
				}
				s.refresh(site)
				a.t = t
			}
		}
	}
	for _, a := range as {
		f.env[a.ph] = a.t
		if !back {
			np := make(map[*ssa.Phi]int, len(f.phi0)+1)
			for k, v := range f.phi0 {
				np[k] = v
			}
			np[a.ph] = a.t.depth
			f.phi0 = np
		}
	}
	f.block = b
	f.pc = n
	return !e.seen(s)
}

// loopDetermined: the loop header's exit test compares an induction variable with a bound that is a constant in the
// current state, so the loop runs a known, small number of times and can be followed exactly.
func (e *Engine) loopDetermined(s *State, b *ssa.BasicBlock) bool {
	f := s.top()
	iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	bin, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	isInd := func(v ssa.Value) bool {
		if ph, ok := v.(*ssa.Phi); ok && ph.Block() == b {
			return true
		}
		if bo, ok := v.(*ssa.BinOp); ok && bo.Block() == b {
			if ph, ok := bo.X.(*ssa.Phi); ok && ph.Block() == b {
				_, c := bo.Y.(*ssa.Const)
				return c
			}
		}
		return false
	}
	constant64 := func(v ssa.Value) bool {
		if c, ok := v.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Int {
			n := c.Int64()
			return n <= 64 && n >= -64
		}
		if t, ok := f.env[v]; ok {
			n, ok := t.IntVal()
			return ok && n <= 64 && n >= -64
		}
		// len(x) evaluated in the header
		if c, ok := v.(*ssa.Call); ok && c.Block() == b {
			if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
				if n, ok := e.length(s, e.val(s, c.Call.Args[0]), c.Call.Args[0].Type()).IntVal(); ok {
					return n <= 64
				}
			}
		}
		return false
	}
	return isInd(bin.X) && constant64(bin.Y) || isInd(bin.Y) && constant64(bin.X)
}

func (e *Engine) length(s *State, t *Term, typ types.Type) *Term {
	if str, ok := t.StrVal(); ok {
		return e.TS.Int(int64(len(str)))
	}
	if t.IsNilConst() {
		return e.TS.Int(0)
	}
	if t.op == "slice" && len(t.args) == 3 && t.args[1].IsNilConst() && t.args[2].IsNilConst() && t.name != "" {
		if n, err := strconv.Atoi(t.name); err == nil {
			return e.TS.Int(int64(n))
		}
	}
	if t.op == "makeslice" && t.args[0].IsConst() {
		return t.args[0]
	}
	if t.op == "append" {
		if n, ok := e.length(s, t.args[0], typ).IntVal(); ok && t.name != "..." {
			return e.TS.Int(n + int64(len(t.args)-1))
		}
	}
	kind := ""
	if b, ok := typ.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		kind = "string"
	}
	return e.TS.mk("len", kind, nil, nil, nil, t)
}

func (e *Engine) set(s *State, v ssa.Value, t *Term) { s.top().env[v] = t }

func (e *Engine) step(s *State, f *Frame, in ssa.Instruction) {
	switch x := in.(type) {
	case *ssa.Alloc:
		site := e.site(f, x, f.fn.Name()+"."+x.Comment) + "!"
		t := s.fresh("alloc", site, -1)
		for a := range s.mem {
			if rootOf(a) == t {
				delete(s.mem, a)
			}
		}
		e.set(s, x, t)
	case *ssa.Store:
		e.store(s, e.val(s, x.Addr), e.val(s, x.Val), x)
	case *ssa.UnOp:
		v := e.val(s, x.X)
		switch x.Op {
		case token.MUL:
			e.set(s, x, e.load(s, v, x.Type()))
		case token.NOT:
			e.set(s, x, e.Not(v))
		case token.ARROW:
			t := s.fresh("res", e.site(f, x, "recv@"+f.fn.Name()), -1)
			if x.CommaOk {
				e.set(s, x, e.TS.App("tuple", e.TS.mk("extract", "0", nil, nil, nil, t), e.TS.mk("extract", "1", nil, nil, nil, t)))
			} else {
				e.set(s, x, t)
			}
		default:
			if v.IsConst() {
				e.set(s, x, e.TS.Const(constant.UnaryOp(x.Op, v.c, 0)))
			} else {
				e.set(s, x, e.TS.App("u"+x.Op.String(), v))
			}
		}
	case *ssa.BinOp:
		e.set(s, x, e.binop(x.Op, e.val(s, x.X), e.val(s, x.Y), x.X.Type()))
	case *ssa.FieldAddr:
		e.set(s, x, e.fieldAddr(e.val(s, x.X), x.X.Type(), x.Field))
	case *ssa.Field:
		e.set(s, x, e.field(e.val(s, x.X), x.Field, fieldVar(x.X.Type(), x.Field)))
	case *ssa.IndexAddr:
		e.set(s, x, e.indexAddr(e.val(s, x.X), e.val(s, x.Index)))
	case *ssa.Index:
		e.set(s, x, e.TS.App("index", e.val(s, x.X), e.val(s, x.Index)))
	case *ssa.Lookup:
		if _, ok := x.X.Type().Underlying().(*types.Map); ok {
			m, k := e.val(s, x.X), e.val(s, x.Index)
			t := e.TS.mk("lookup", "", nil, nil, nil, s.fresh("res", e.site(f, x, "map@"+f.fn.Name()), -1), m, k)
			if x.CommaOk {
				e.set(s, x, e.TS.App("tuple", t, e.TS.App("has", t)))
			} else {
				e.set(s, x, t)
			}
		} else {
			e.set(s, x, e.TS.App("index", e.val(s, x.X), e.val(s, x.Index)))
		}
	case *ssa.Slice:
		opt := func(v ssa.Value) *Term {
			if v == nil {
				return e.TS.Nil()
			}
			return e.val(s, v)
		}
		b := e.val(s, x.X)
		lo, hi := opt(x.Low), opt(x.High)
		name := ""
		if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			if at, ok := pt.Elem().Underlying().(*types.Array); ok {
				name = strconv.FormatInt(at.Len(), 10)
			}
		}
		if name == "" && lo.IsNilConst() && hi.IsNilConst() {
			e.set(s, x, b)
		} else {
			e.set(s, x, e.TS.mk("slice", name, nil, nil, nil, b, lo, hi))
		}
	case *ssa.MakeInterface:
		e.set(s, x, e.TS.mk("iface", "", nil, x.X.Type(), nil, e.val(s, x.X)))
	case *ssa.ChangeInterface:
		e.set(s, x, e.val(s, x.X))
	case *ssa.ChangeType:
		e.set(s, x, e.val(s, x.X))
	case *ssa.Convert:
		v := e.val(s, x.X)
		fb, ok1 := x.X.Type().Underlying().(*types.Basic)
		tb, ok2 := x.Type().Underlying().(*types.Basic)
		if ok1 && ok2 && (fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0 || fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0) {
			e.set(s, x, v)
		} else {
			e.set(s, x, e.TS.mk("conv", "", nil, x.Type(), nil, v))
		}
	case *ssa.MultiConvert:
		e.set(s, x, e.TS.mk("conv", "", nil, x.Type(), nil, e.val(s, x.X)))
	case *ssa.SliceToArrayPointer:
		e.set(s, x, e.TS.App("toarr", e.val(s, x.X)))
	case *ssa.TypeAssert:
		v := e.val(s, x.X)
		var is, res *Term
		if v.op == "iface" {
			ok := types.Identical(v.typ, x.AssertedType)
			if it, isI := x.AssertedType.Underlying().(*types.Interface); isI {
				ok = types.Implements(v.typ, it)
				res = v
			} else {
				res = v.args[0]
			}
			is = e.TS.Bool(ok)
		} else {
			is = e.TS.mk("is", "", nil, x.AssertedType, nil, v)
			res = e.TS.mk("assert", "", nil, x.AssertedType, nil, v)
			if types.IsInterface(x.AssertedType) {
				res = v
			}
		}
		if x.CommaOk {
			e.set(s, x, e.TS.App("tuple", res, is))
		} else {
			s.assume(is, true)
			e.set(s, x, res)
		}
	case *ssa.Extract:
		t := e.val(s, x.Tuple)
		if t.op == "tuple" && x.Index < len(t.args) {
			e.set(s, x, t.args[x.Index])
		} else {
			e.set(s, x, e.TS.mk("extract", strconv.Itoa(x.Index), nil, nil, nil, t))
		}
	case *ssa.MakeSlice:
		n := e.val(s, x.Len)
		if n.IsConst() {
			e.set(s, x, e.TS.mk("makeslice", strconv.Itoa(f.ctx)+":"+strconv.Itoa(e.iid(x)), nil, nil, nil, n))
		} else {
			e.set(s, x, s.fresh("alloc", e.site(f, x, "make@"+f.fn.Name()), -1))
		}
	case *ssa.MakeMap:
		e.set(s, x, s.fresh("alloc", e.site(f, x, "makemap@"+f.fn.Name()), -1))
	case *ssa.MakeChan:
		e.set(s, x, s.fresh("alloc", e.site(f, x, "makechan@"+f.fn.Name()), -1))
	case *ssa.MakeClosure:
		var bs []*Term
		for _, b := range x.Bindings {
			bs = append(bs, e.val(s, b))
		}
		e.set(s, x, e.TS.mk("closure", "", nil, nil, x.Fn.(*ssa.Function), bs...))
	case *ssa.Range:
		e.set(s, x, e.TS.App("range", e.val(s, x.X)))
	case *ssa.Next:
		t := s.fresh("res", e.site(f, x, "next@"+f.fn.Name()), -1)
		r := e.val(s, x.Iter)
		e.set(s, x, e.TS.App("tuple", e.TS.mk("extract", "0", nil, nil, nil, t), e.TS.mk("key", "", nil, nil, nil, t, r), e.TS.mk("elem", "", nil, nil, nil, t, r)))
	case *ssa.Select:
		t := s.fresh("res", e.site(f, x, "select@"+f.fn.Name()), -1)
		e.set(s, x, t)
	case *ssa.MapUpdate, *ssa.Send, *ssa.DebugRef:
	case *ssa.Phi:
	default:
		if v, ok := in.(ssa.Value); ok {
			e.set(s, v, s.fresh("res", e.site(f, in, "instr"), -1))
		}
	}
}

func (e *Engine) concat(a, b *Term) *Term {
	var parts []*Term
	add := func(t *Term) {
		if t.op == "concat" {
			parts = append(parts, t.args...)
		} else {
			parts = append(parts, t)
		}
	}
	add(a)
	add(b)
	return e.mkConcat(parts)
}

func (e *Engine) mkConcat(parts []*Term) *Term {
	var out []*Term
	for _, p := range parts {
		if v, ok := p.StrVal(); ok {
			if v == "" {
				continue
			}
			if len(out) > 0 {
				if w, ok := out[len(out)-1].StrVal(); ok {
					out[len(out)-1] = e.TS.Str(w + v)
					continue
				}
			}
		}
		out = append(out, p)
	}
	if len(out) == 0 {
		return e.TS.Str("")
	}
	if len(out) == 1 {
		return out[0]
	}
	return e.TS.App("concat", out...)
}

func (e *Engine) binop(op token.Token, a, b *Term, typ types.Type) *Term {
	isStr := false
	if bt, ok := typ.Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
		isStr = true
	}
	switch op {
	case token.EQL:
		return e.Eq(a, b)
	case token.NEQ:
		return e.Not(e.Eq(a, b))
	case token.LSS:
		return e.Lt(a, b)
	case token.GTR:
		return e.Lt(b, a)
	case token.LEQ:
		return e.Not(e.Lt(b, a))
	case token.GEQ:
		return e.Not(e.Lt(a, b))
	}
	if isStr && op == token.ADD {
		return e.concat(a, b)
	}
	if a.IsConst() && b.IsConst() && a.c.Kind() == constant.Int && b.c.Kind() == constant.Int {
		switch op {
		case token.ADD, token.SUB, token.MUL, token.AND, token.OR, token.XOR:
			return e.TS.Const(constant.BinaryOp(a.c, op, b.c))
		case token.QUO:
			if constant.Sign(b.c) != 0 {
				return e.TS.Const(constant.BinaryOp(a.c, token.QUO_ASSIGN, b.c))
			}
		case token.REM:
			if constant.Sign(b.c) != 0 {
				return e.TS.Const(constant.BinaryOp(a.c, op, b.c))
			}
		}
	}
	if n, ok := b.IntVal(); ok && n == 0 && (op == token.ADD || op == token.SUB) {
		return a
	}
	if n, ok := a.IntVal(); ok && n == 0 && op == token.ADD {
		return b
	}
	// (x + c1) + c2
	if n, ok := b.IntVal(); ok && (op == token.ADD || op == token.SUB) {
		if op == token.SUB {
			n = -n
		}
		base := a
		if a.op == "+" {
			if m, ok := a.args[1].IntVal(); ok {
				base = a.args[0]
				n += m
			}
		}
		if n == 0 {
			return base
		}
		return e.TS.App("+", base, e.TS.Int(n))
	}
	if op == token.ADD && a.IsConst() {
		return e.binop(op, b, a, typ)
	}
	if (op == token.ADD || op == token.MUL) && a.id > b.id {
		a, b = b, a
	}
	return e.TS.App(op.String(), a, b)
}

// ---- calls ----

func (e *Engine) callOperands(s *State, c *ssa.CallCommon) (*Term, []*Term) {
	var args []*Term
	fnT := e.val(s, c.Value)
	if c.IsInvoke() {
		args = append(args, fnT)
	}
	for _, a := range c.Args {
		args = append(args, e.val(s, a))
	}
	return fnT, args
}

// resolve finds the function a call enters, and adapts the receiver of interface calls.
func (e *Engine) resolve(s *State, c *ssa.CallCommon, fnT *Term, args []*Term) (*ssa.Function, []*Term, []*Term) {
	if c.IsInvoke() {
		recv := args[0]
		if recv.op == "iface" {
			var pk *types.Package
			if c.Method.Pkg() != nil {
				pk = c.Method.Pkg()
			}
			if m := e.P.methodOf(recv.typ, pk, c.Method.Name()); m != nil {
				na := append([]*Term{recv.args[0]}, args[1:]...)
				return m, na, nil
			}
		}
		impl := e.P.implementers(c)
		if len(impl) == 1 {
			na := append([]*Term{e.TS.mk("unbox", "", nil, nil, nil, recv)}, args[1:]...)
			return impl[0], na, nil
		}
		return nil, args, nil
	}
	switch fnT.op {
	case "func":
		return fnT.fn, args, nil
	case "closure":
		return fnT.fn, args, fnT.args
	}
	if f := c.StaticCallee(); f != nil {
		return f, args, nil
	}
	if cs := e.P.Callees(c); len(cs) == 1 && len(cs[0].FreeVars) == 0 {
		return cs[0], args, nil
	}
	return nil, args, nil
}

const defaultInlineInstrs = 40

func (e *Engine) defaultInline(fn *ssa.Function) bool {
	if e.Inline != nil {
		return e.Inline(fn)
	}
	n := 0
	for _, b := range fn.Blocks {
		n += len(b.Instrs)
		for _, su := range b.Succs {
			if su.Dominates(b) {
				return false
			}
		}
	}
	return n <= defaultInlineInstrs
}

// doCall models a call. False: the state ended or was handed to the worklist.
func (e *Engine) doCall(s *State, instr ssa.CallInstruction, fnT *Term, args []*Term, dest ssa.Value, isDefer bool) bool {
	f := s.top()
	c := instr.Common()
	e.CallsSeen[instr] = true
	next := func() {
		if !isDefer {
			f.pc++
		}
	}
	setRes := func(rs []*Term) {
		if dest == nil {
			return
		}
		switch len(rs) {
		case 0:
		case 1:
			f.env[dest] = rs[0]
		default:
			f.env[dest] = e.TS.App("tuple", rs...)
		}
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		ev := &CallEv{S: s, E: e, Instr: instr, Common: c, Key: "builtin." + b.Name(), Args: args, Defer: isDefer, Site: e.site(f, instr, b.Name())}
		if e.OnCall != nil {
			if rs, h := e.OnCall(ev); h {
				setRes(rs)
				next()
				return true
			}
		}
		r := e.builtin(s, f, instr, b.Name(), args)
		if r != nil && dest != nil {
			f.env[dest] = r
		}
		next()
		return true
	}
	callee, cargs, bindings := e.resolve(s, c, fnT, args)
	key := CalleeKey(c)
	if callee != nil {
		key = FuncKey(callee)
	}
	ev := &CallEv{S: s, E: e, Instr: instr, Common: c, Callee: callee, Key: key, Args: cargs, Defer: isDefer, Site: e.site(f, instr, key)}
	if callee == nil && e.Resolve != nil {
		if r := e.Resolve(ev); r != nil {
			callee = r
			ev.Callee = r
			ev.Key = FuncKey(r)
			if c.IsInvoke() {
				cargs = append([]*Term{e.TS.mk("unbox", "", nil, nil, nil, args[0])}, args[1:]...)
				ev.Args = cargs
			}
		}
	}
	nres := c.Signature().Results().Len()
	if e.OnCall != nil {
		rs, h := e.OnCall(ev)
		if ev.Key == "!end" {
			return false
		}
		if h {
			if rs == nil {
				rs = e.freshResults(s, ev, nres)
			}
			setRes(rs)
			if e.AfterCall != nil {
				e.AfterCall(ev, rs)
			}
			next()
			return true
		}
	}
	// no-return and conditional no-return calls
	if k := noReturn(ev.Key); k != "" {
		if k == "always" {
			if e.OnEnd != nil {
				e.OnEnd(s, "fatal", instr)
			}
			return false
		}
		err := cargs[0]
		cond := e.Eq(err, e.TS.Nil())
		switch s.decide(cond) {
		case 0:
			if e.OnEnd != nil {
				e.OnEnd(s, "fatal", instr)
			}
			return false
		case -1:
			if e.OnEnd != nil {
				n := s.clone()
				n.assume(cond, false)
				e.OnEnd(n, "fatal", instr)
			}
			s.assume(cond, true)
		}
		next()
		return true
	}
	if callee != nil && len(callee.Blocks) > 0 && e.P.IsRepoFn(callee) {
		depth := 0
		for _, fr := range s.frames {
			if fr.fn == callee {
				depth++
			}
		}
		if depth == 0 && len(s.frames) < e.MaxDepth && e.defaultInline(callee) {
			ctxKey := strconv.Itoa(f.ctx) + "/" + strconv.Itoa(e.iid(instr))
			id, ok := e.ctxID[ctxKey]
			if !ok {
				id = len(e.ctxID) + 1
				e.ctxID[ctxKey] = id
			}
			nf := &Frame{fn: callee, ctx: id, env: map[ssa.Value]*Term{}, block: callee.Blocks[0], dest: dest}
			for i, p := range callee.Params {
				if i < len(cargs) {
					nf.env[p] = cargs[i]
				}
			}
			for i, fv := range callee.FreeVars {
				if i < len(bindings) {
					nf.env[fv] = bindings[i]
				}
			}
			e.Entered[callee] = true
			s.frames = append(s.frames, nf)
			if e.seen(s) {
				return false
			}
			return true
		}
		// opaque repository function
		eff := e.P.Effects(callee)
		var rs []*Term
		pure := !eff.Impure && !eff.Elems && len(eff.Fields) == 0 && len(eff.Globals) == 0 && len(eff.FreeVars) == 0 && bindings == nil && !(e.FreshErr && len(errResults(c)) > 0)
		if pure {
			rs = e.pureResults(ev, nres)
		} else {
			rs = e.freshResults(s, ev, nres)
			why := e.TS.mk("res", ev.Site, nil, nil, nil)
			e.havocEffects(s, eff, why)
			if fnT.op == "closure" {
				e.havoc(s, fnT, why)
			}
			for _, a := range cargs {
				if a.op == "closure" || a.op == "alloc" || a.op == "slice" || a.op == "iface" && a.args[0].op == "alloc" {
					if a.op == "alloc" && strings.HasSuffix(a.name, "!") && !e.mayWriteParam(eff) {
						continue
					}
					e.havoc(s, a, why)
				}
			}
		}
		setRes(rs)
		if e.AfterCall != nil {
			e.AfterCall(ev, rs)
		}
		next()
		return true
	}
	// external or unresolved
	if callee == nil && !c.IsInvoke() {
		e.unresolved[e.P.At(instr)] = true
	}
	rs := e.external(s, ev, nres)
	setRes(rs)
	if e.AfterCall != nil {
		e.AfterCall(ev, rs)
	}
	next()
	return true
}

func (e *Engine) mayWriteParam(eff *Effects) bool {
	return eff.Elems || len(eff.Fields) > 0 || eff.Impure
}

func (e *Engine) pureResults(ev *CallEv, n int) []*Term {
	rs := make([]*Term, n)
	args := make([]*Term, 0, len(ev.Args))
	for _, a := range ev.Args {
		args = append(args, e.flat(ev.S, a)...)
	}
	for i := range rs {
		name := ev.Key
		if n > 1 {
			name += "#" + strconv.Itoa(i)
		}
		rs[i] = e.TS.mk("call", name, nil, nil, nil, args...)
	}
	return rs
}

func (e *Engine) freshResults(s *State, ev *CallEv, n int) []*Term {
	t := s.fresh("res", ev.Site, -1)
	if n <= 1 {
		return []*Term{t}[:n]
	}
	rs := make([]*Term, n)
	for i := range rs {
		rs[i] = e.TS.mk("extract", strconv.Itoa(i), nil, nil, nil, t)
	}
	return rs
}

// flat expands a slice literal (variadic arguments) into its element terms, unboxed.
func (e *Engine) flat(s *State, a *Term) []*Term {
	if els, ok := e.Elements(s, a); ok {
		var out []*Term
		for _, x := range els {
			if x.op == "iface" {
				x = x.args[0]
			}
			out = append(out, x)
		}
		return out
	}
	return []*Term{a}
}

// Elements returns the element values of a slice literal.
func (e *Engine) Elements(s *State, a *Term) ([]*Term, bool) {
	if a.op == "append" && a.name != "..." {
		base, ok := e.Elements(s, a.args[0])
		if !ok {
			return nil, false
		}
		return append(append([]*Term(nil), base...), a.args[1:]...), true
	}
	if a.IsNilConst() {
		return nil, true
	}
	if a.op != "slice" || a.name == "" || !a.args[1].IsNilConst() || !a.args[2].IsNilConst() || a.args[0].op != "alloc" {
		return nil, false
	}
	n, err := strconv.Atoi(a.name)
	if err != nil {
		return nil, false
	}
	var out []*Term
	for i := 0; i < n; i++ {
		v, ok := s.mem[e.TS.mk("index&", "", nil, nil, nil, a.args[0], e.TS.Int(int64(i)))]
		if !ok {
			// a struct element stored field by field stays an address
			v = e.TS.mk("index&", "", nil, nil, nil, a.args[0], e.TS.Int(int64(i)))
		}
		out = append(out, v)
	}
	return out, true
}

func (e *Engine) builtin(s *State, f *Frame, instr ssa.CallInstruction, name string, args []*Term) *Term {
	switch name {
	case "len":
		return e.length(s, args[0], instr.Common().Args[0].Type())
	case "cap":
		return e.TS.App("cap", args[0])
	case "append":
		if els, ok := e.Elements(s, args[1]); ok {
			base := args[0]
			if len(els) == 0 {
				return base
			}
			return e.TS.App("append", append([]*Term{base}, els...)...)
		}
		return e.TS.mk("append", "...", nil, nil, nil, args[0], args[1])
	case "min", "max":
		return e.TS.App(name, args...)
	case "copy", "delete", "close", "clear", "print", "println":
		if v, ok := instr.(ssa.Value); ok && v.Type() != nil {
			return s.fresh("res", e.site(f, instr, name), -1)
		}
		return nil
	case "ssa:wrapnilchk":
		return args[0]
	}
	return s.fresh("res", e.site(f, instr, name), -1)
}

func (e *Engine) external(s *State, ev *CallEv, n int) []*Term {
	k := ev.Key
	if isLogCall(k) {
		rs := make([]*Term, n)
		for i := range rs {
			rs[i] = e.TS.Nil()
		}
		return rs
	}
	switch k {
	case "fmt.Sprintf":
		if t := e.sprintf(s, ev.Args); t != nil {
			return []*Term{t}
		}
	case "strings.Join":
		if els, ok := e.Elements(s, ev.Args[0]); ok {
			if sep, ok := ev.Args[1].StrVal(); ok {
				var parts []*Term
				for i, x := range els {
					if i > 0 {
						parts = append(parts, e.TS.Str(sep))
					}
					parts = append(parts, x)
				}
				return []*Term{e.mkConcat(parts)}
			}
		}
	case "path.Join":
		return []*Term{e.TS.mk("call", "path/filepath.Join", nil, nil, nil, e.joinArgs(s, ev.Args)...)}
	case "path/filepath.Join":
		return []*Term{e.TS.mk("call", "path/filepath.Join", nil, nil, nil, e.joinArgs(s, ev.Args)...)}
	case "strings.ReplaceAll":
		return []*Term{e.TS.mk("call", k, nil, nil, nil, ev.Args...)}
	case "strings.Replace":
		if m, ok := ev.Args[3].IntVal(); ok && m < 0 {
			return []*Term{e.TS.mk("call", "strings.ReplaceAll", nil, nil, nil, ev.Args[:3]...)}
		}
	case "strings.NewReplacer":
		return []*Term{e.TS.mk("call", k, nil, nil, nil, e.flat(s, ev.Args[0])...)}
	case "slices.Contains", "slices.Index", "slices.Equal":
	}
	if isPureExternal(k) && !(e.FreshErr && len(errResults(ev.Common)) > 0 && !isErrWrap(k) && !nonNilResult(k) && !strings.HasPrefix(k, "errors.")) {
		return e.pureResults(ev, n)
	}
	rs := e.freshResults(s, ev, n)
	why := e.TS.mk("res", ev.Site, nil, nil, nil)
	for _, a := range ev.Args {
		e.havoc(s, a, why)
		if els, ok := e.Elements(s, a); ok {
			for _, x := range els {
				if x.op == "iface" && x.args[0].op == "alloc" {
					e.havoc(s, x, why)
				}
			}
		}
	}
	return rs
}

// joinArgs flattens nested filepath.Join calls: Join(Join(a,b),c) = Join(a,b,c).
func (e *Engine) joinArgs(s *State, args []*Term) []*Term {
	var out []*Term
	for _, a := range args {
		for _, x := range e.flat(s, a) {
			if x.op == "call" && x.name == "path/filepath.Join" {
				out = append(out, x.args...)
			} else {
				out = append(out, x)
			}
		}
	}
	return out
}

// sprintf turns Sprintf with a constant format of plain verbs into a concatenation.
func (e *Engine) sprintf(s *State, args []*Term) *Term {
	format, ok := args[0].StrVal()
	if !ok {
		return nil
	}
	els, ok := e.Elements(s, args[1])
	if !ok {
		return nil
	}
	var parts []*Term
	ai := 0
	lit := strings.Builder{}
	flush := func() {
		if lit.Len() > 0 {
			parts = append(parts, e.TS.Str(lit.String()))
			lit.Reset()
		}
	}
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			lit.WriteByte(format[i])
			continue
		}
		j := i + 1
		for j < len(format) && strings.IndexByte("+-# 0123456789.", format[j]) >= 0 {
			j++
		}
		if j >= len(format) {
			return nil
		}
		verb := format[j]
		if verb == '%' {
			lit.WriteByte('%')
			i = j
			continue
		}
		if ai >= len(els) {
			return nil
		}
		flush()
		x := els[ai]
		ai++
		isStr := false
		if x.op == "iface" {
			if b, ok := x.typ.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
				isStr = true
			}
			x = x.args[0]
		}
		if isStr && j == i+1 && (verb == 's' || verb == 'v') {
			parts = append(parts, x)
		} else {
			parts = append(parts, e.TS.mk("fmt", format[i:j+1], nil, nil, nil, x))
		}
		i = j
	}
	flush()
	return e.mkConcat(parts)
}

func (e *Engine) goCall(s *State, x *ssa.Go) {
	fnT, args := e.callOperands(s, x.Common())
	callee, cargs, _ := e.resolve(s, x.Common(), fnT, args)
	key := CalleeKey(x.Common())
	if callee != nil {
		key = FuncKey(callee)
	}
	ev := &CallEv{S: s, E: e, Instr: x, Common: x.Common(), Callee: callee, Key: key, Args: cargs, Site: e.site(s.top(), x, key), Go: true}
	if e.OnCall != nil {
		if _, h := e.OnCall(ev); h {
			return
		}
	}
	why := s.fresh("res", ev.Site, -1)
	if fnT.op == "closure" {
		e.havoc(s, fnT, why)
	}
	if callee != nil && e.P.IsRepoFn(callee) {
		e.havocEffects(s, e.P.Effects(callee), why)
	}
}
