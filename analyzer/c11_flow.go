package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// resultKept follows every way from a call expanding content to the end of its function. It answers what is wrong: the
// result may be missing in what the function returns ("dropped"), or the error may be ignored ("swallowed").
//
// On each way the values which contain the result are tracked (concatenations, joined lists, formatted texts, buffers),
// as well as the values which are the error of the call. Ways on which the result is known to be empty are fine. With
// needResult unset only errors are regarded. The function passed decides whether handing the result to a call is enough.
func (c *contentCheck) resultKept(call *ssa.Call, needResult bool, passed func(*ssa.CallCommon) bool) (string, ssa.Instruction) {
	type state struct {
		has, err, wrap map[ssa.Value]bool
		failed         int // 0: unknown, 1: no error, 2: error
		done           bool
	}
	clone := func(m map[ssa.Value]bool) map[ssa.Value]bool {
		n := make(map[ssa.Value]bool, len(m))
		for k := range m {
			n[k] = true
		}
		return n
	}
	key := func(m map[ssa.Value]bool) string {
		var s []string
		for k := range m {
			s = append(s, k.Name())
		}
		sort.Strings(s)
		return strings.Join(s, ",")
	}
	set := func(m map[ssa.Value]bool, v ssa.Value, b bool) {
		if b {
			m[v] = true
		} else {
			delete(m, v)
		}
	}
	hasErr := false
	if tup, ok := call.Type().(*types.Tuple); ok {
		hasErr = tup.Len() > 1 && isErrorType(tup.At(tup.Len()-1).Type())
	}
	seen := map[string]bool{}
	var badKind string
	var badAt ssa.Instruction
	bad := func(kind string, at ssa.Instruction) bool {
		badKind, badAt = kind, at
		return false
	}
	// run executes the instructions of a block from the given index, then continues with its successors.
	var run func(b *ssa.BasicBlock, from int, st state) bool
	enter := func(b, to *ssa.BasicBlock, st state) bool {
		ns := state{clone(st.has), clone(st.err), clone(st.wrap), st.failed, st.done}
		for _, in := range to.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			for i, pr := range to.Preds {
				if pr == b {
					set(ns.has, ph, st.has[ph.Edges[i]])
					set(ns.err, ph, st.err[ph.Edges[i]])
					set(ns.wrap, ph, st.wrap[ph.Edges[i]])
					break
				}
			}
		}
		k := fmt.Sprint(to.Index, "|", key(ns.has), "|", key(ns.err), "|", key(ns.wrap), "|", ns.failed, ns.done)
		if seen[k] {
			return true
		}
		if len(seen) > 50000 {
			return bad("undecided", call)
		}
		seen[k] = true
		return run(to, 0, ns)
	}
	run = func(b *ssa.BasicBlock, from int, st state) bool {
		for _, in := range b.Instrs[from:] {
			switch x := in.(type) {
			case *ssa.Phi, *ssa.DebugRef, *ssa.Jump:
			case *ssa.Return:
				last := ssa.Value(nil)
				if len(x.Results) > 0 {
					last = x.Results[len(x.Results)-1]
				}
				ownErr := last != nil && (st.err[last] || st.wrap[last])
				fails := c.failing(x)
				if st.failed == 2 {
					if !ownErr && !fails {
						return bad("swallowed", x)
					}
					return true
				}
				if fails {
					return true
				}
				if hasErr && st.failed == 0 && !ownErr {
					return bad("swallowed", x)
				}
				if needResult && !st.done && (len(x.Results) == 0 || !st.has[x.Results[0]]) {
					return bad("dropped", x)
				}
				return true
			case *ssa.Panic:
				return true
			case *ssa.If:
				return c.branch(x, func(i int, v ssa.Value, isNil bool) (bool, bool) {
					ns := st
					if v != nil && (st.err[v]) {
						want := 2
						if isNil {
							want = 1
						}
						if st.failed != 0 && st.failed != want {
							return true, true
						}
						ns.failed = want
					}
					return enter(b, b.Succs[i], ns), false
				}, func(v ssa.Value) bool { return st.has[v] })
			case *ssa.Store:
				base := storeBase(x.Addr)
				if st.has[x.Val] {
					st.has[base] = true
				} else if _, ok := x.Addr.(*ssa.Alloc); ok {
					delete(st.has, x.Addr)
				}
				if _, ok := x.Addr.(*ssa.Alloc); ok {
					set(st.err, x.Addr, st.err[x.Val])
					set(st.wrap, x.Addr, st.wrap[x.Val])
				} else if st.err[x.Val] || st.wrap[x.Val] {
					st.wrap[base] = true
				}
			case *ssa.MapUpdate:
				if st.has[x.Value] {
					st.has[x.Map] = true
				}
			case *ssa.Call:
				switch noReturn(CalleeKey(&x.Call)) {
				case "always":
					return true
				case "":
				default:
					// ends the program if there is an error
					for _, a := range x.Call.Args {
						if st.err[a] || st.wrap[a] {
							if st.failed == 2 {
								return true
							}
							st.failed = 1
						}
					}
					continue
				}
				if x == call {
					if st.failed == 2 {
						return bad("swallowed", x)
					}
					// another part: what was collected is kept, the values of the former call are replaced
					delete(st.has, x)
					delete(st.err, x)
					if hasErr && st.failed == 0 {
						return bad("swallowed", x)
					}
					continue
				}
				any := false
				args := argsOf(&x.Call)
				for _, a := range args {
					any = any || st.has[a]
				}
				if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
					any = false
				}
				if isLogCall(CalleeKey(&x.Call)) {
					any = false
				}
				if any && losesText(x, func(v ssa.Value) bool { return st.has[v] }) {
					any = false
				}
				if any && passed != nil && passed(&x.Call) {
					st.done = true
				}
				bt, isB := x.Type().Underlying().(*types.Basic)
				set(st.has, x, any && !(isB && bt.Info()&(types.IsBoolean|types.IsNumeric) != 0))
				if any {
					for _, a := range args {
						if mi, ok := a.(*ssa.MakeInterface); ok {
							a = mi.X
						}
						if _, ok := a.Type().Underlying().(*types.Pointer); ok {
							st.has[storeBase(a)] = true
						}
					}
				}
				wr := false
				for _, a := range args {
					wr = wr || st.err[a] || st.wrap[a]
				}
				set(st.wrap, x, wr && isErrorType(x.Type()))
			case *ssa.Extract:
				if x.Tuple == ssa.Value(call) {
					set(st.has, x, st.has[call] && x.Index == 0)
					set(st.err, x, st.has[call] && isErrorType(x.Type()))
				} else {
					set(st.has, x, st.has[x.Tuple] && !isErrorType(x.Type()))
				}
			case *ssa.Alloc:
				delete(st.has, x)
				delete(st.err, x)
				delete(st.wrap, x)
			default:
				v, ok := in.(ssa.Value)
				if !ok {
					continue
				}
				any := false
				for _, o := range in.Operands(nil) {
					any = any || *o != nil && st.has[*o]
				}
				switch y := in.(type) {
				case *ssa.BinOp:
					any = any && y.Op == token.ADD
				case *ssa.Slice:
					set(st.wrap, v, st.wrap[y.X])
					// parts of a text
					if bt, ok := y.X.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
						any = any && y.Low == nil && y.High == nil
					}
					// parts of a list
					if _, ok := y.X.Type().Underlying().(*types.Slice); ok {
						k, isK := y.Low.(*ssa.Const)
						any = any && y.High == nil && (y.Low == nil || isK && k.Int64() == 0)
					}
				case *ssa.UnOp:
					if y.Op == token.MUL {
						set(st.err, v, st.err[y.X])
						set(st.wrap, v, st.wrap[y.X])
					}
				case *ssa.ChangeInterface:
					set(st.err, v, st.err[y.X])
					set(st.wrap, v, st.wrap[y.X])
				case *ssa.MakeInterface:
					// an argument of a function wrapping errors
					set(st.wrap, v, st.err[y.X] || st.wrap[y.X])
				}
				set(st.has, v, any)
			}
		}
		for _, s := range b.Succs {
			if !enter(b, s, st) {
				return false
			}
		}
		return true
	}
	st := state{has: map[ssa.Value]bool{call: true}, err: map[ssa.Value]bool{}, wrap: map[ssa.Value]bool{}}
	if !hasErr {
		st.failed = 1
	}
	at := 0
	for i, in := range call.Block().Instrs {
		if in == ssa.Instruction(call) {
			at = i + 1
		}
	}
	if run(call.Block(), at, st) {
		return "", nil
	}
	return badKind, badAt
}

// branch visits both sides of a decision. The visitor gets the value compared with nil, if there is one, and whether it is
// nil on this side. Sides on which a value with the result is empty are skipped.
func (c *contentCheck) branch(x *ssa.If, visit func(i int, v ssa.Value, isNil bool) (ok, skip bool), has func(ssa.Value) bool) bool {
	cond, neg := x.Cond, false
	for {
		u, ok := cond.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			break
		}
		cond, neg = u.X, !neg
	}
	for i := 0; i < 2; i++ {
		onTrue := (i == 0) != neg
		var v ssa.Value
		isNil := false
		if bo, ok := cond.(*ssa.BinOp); ok {
			a, k := bo.X, bo.Y
			op := bo.Op
			if _, isC := a.(*ssa.Const); isC {
				a, k = k, a
				op = map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ, token.EQL: token.EQL, token.NEQ: token.NEQ}[op]
			}
			if cst, ok := k.(*ssa.Const); ok {
				switch {
				case cst.Value == nil:
					v = a
					isNil = (op == token.EQL) == onTrue
				case cst.Value.Kind() == constant.String && constant.StringVal(cst.Value) == "":
					if has(a) && (op == token.EQL && onTrue || op == token.NEQ && !onTrue) {
						continue
					}
				default:
					ln, ok := a.(*ssa.Call)
					if !ok || len(ln.Call.Args) != 1 || !has(ln.Call.Args[0]) {
						break
					}
					if bi, ok := ln.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "len" {
						break
					}
					n, _ := constInt(cst)
					holds := false // the length is 0 on this side
					switch op {
					case token.EQL:
						holds = n == 0 && onTrue
					case token.NEQ:
						holds = n == 0 && !onTrue
					case token.GTR:
						holds = n == 0 && !onTrue
					case token.GEQ:
						holds = n == 1 && !onTrue
					case token.LSS:
						holds = n == 1 && onTrue
					case token.LEQ:
						holds = n == 0 && onTrue
					}
					if holds {
						continue
					}
				}
			}
		}
		if ok, _ := visit(i, v, isNil); !ok {
			return false
		}
	}
	return true
}

func storeBase(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.Slice:
			v = x.X
		default:
			return v
		}
	}
}

// losesText: the function removes or changes a part of the text (other than white space around it and the markers of the
// parser).
func losesText(call *ssa.Call, has func(ssa.Value) bool) bool {
	k := CalleeKey(&call.Call)
	args := call.Call.Args
	lit := func(i int) (string, bool) {
		if i >= len(args) {
			return "", false
		}
		c, ok := args[i].(*ssa.Const)
		if !ok || c.Value == nil || c.Value.Kind() != constant.String {
			return "", false
		}
		return constant.StringVal(c.Value), true
	}
	if len(args) == 0 || !has(args[0]) {
		return false
	}
	switch k {
	case "strings.Trim", "strings.TrimLeft", "strings.TrimRight", "strings.TrimPrefix", "strings.TrimSuffix":
		t, ok := lit(1)
		return !ok || strings.TrimSpace(t) != ""
	case "strings.TrimFunc", "strings.TrimLeftFunc", "strings.TrimRightFunc", "strings.Map":
		return true
	case "strings.Replace", "strings.ReplaceAll":
		old, ok := lit(1)
		if !ok {
			return false
		}
		if strings.TrimSpace(old) == "" || strings.Contains(old, "MARKER") {
			return false
		}
		by, ok := lit(2)
		// escaped, or something added to it
		return ok && !strings.Contains(by, old) && !strings.Contains(by, "&") && !strings.Contains(by, "%")
	}
	return false
}
