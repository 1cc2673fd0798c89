package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// sources checks the loops asking the configured sources for an image: an image missing at one source is looked for at
// the next one, until the last one was asked, and no source is left out.
func (c *imgCheck) imageSources() {
	for _, fn := range c.p.Funcs {
		if !inPkg(fn, "wikipedia") {
			continue
		}
		loops := loopsOf(fn)
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok || call.Call.StaticCallee() == nil || !c.p.IsRepoFn(call.Call.StaticCallee()) || !givesError(call) {
					continue
				}
				list, cut := sourceList(call)
				if list == nil {
					continue
				}
				l := innermost(loops, b)
				if l == nil {
					continue
				}
				c.r.Count("loops asking sources of images", 1)
				if cut {
					c.bad("source-skipped:"+fn.Name(), call, "only some of the sources of images are asked")
					continue
				}
				c.sourceLoop(fn, l, call, list)
			}
		}
	}
}

func givesError(call *ssa.Call) bool {
	res := call.Call.Signature().Results()
	return res.Len() > 0 && isErrorType(res.At(res.Len()-1).Type())
}

// sourceList: the field of the service with the list of texts of which one is given to the call.
func sourceList(call *ssa.Call) (*ssa.FieldAddr, bool) {
	for _, a := range call.Call.Args {
		u, ok := a.(*ssa.UnOp)
		if !ok || u.Op != token.MUL {
			continue
		}
		ia, ok := u.X.(*ssa.IndexAddr)
		if !ok || !stringType(u.Type()) {
			continue
		}
		x := ia.X
		sl, cut := x.(*ssa.Slice)
		if cut {
			x = sl.X
		}
		if f := listField(x); f != nil && !isConfigType(f.X.Type()) {
			return f, cut && (sl.Low != nil || sl.High != nil)
		}
	}
	return nil, false
}

func listField(v ssa.Value) *ssa.FieldAddr {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return nil
	}
	f, _ := u.X.(*ssa.FieldAddr)
	return f
}

func (c *imgCheck) sourceLoop(fn *ssa.Function, l *natLoop, call *ssa.Call, list *ssa.FieldAddr) {
	isErr := func(v ssa.Value) bool { return errorFrom(v, call, 0) }
	// success: the way of a condition known to be taken only if the call succeeded (or not known to be about it)
	success := func(b *ssa.BasicBlock, i int) bool {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || b.Succs[0] == b.Succs[1] {
			return false
		}
		cond, want := iff.Cond, i == 0
		for {
			u, ok := cond.(*ssa.UnOp)
			if !ok || u.Op != token.NOT {
				break
			}
			cond, want = u.X, !want
		}
		if bo, ok := cond.(*ssa.BinOp); ok && (bo.Op == token.EQL || bo.Op == token.NEQ) {
			for j, x := range []ssa.Value{bo.X, bo.Y} {
				o := []ssa.Value{bo.Y, bo.X}[j]
				if k, ok := o.(*ssa.Const); ok && k.IsNil() && isErr(x) {
					return want == (bo.Op == token.EQL)
				}
			}
		}
		return fromCall(cond, call, 0)
	}
	seen := map[*ssa.BasicBlock]bool{}
	var bad *ssa.BasicBlock
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		if seen[b] {
			return
		}
		seen[b] = true
		for i, t := range b.Succs {
			if success(b, i) {
				continue
			}
			if l.blocks[t] {
				walk(t)
			} else if !aboutLength(b, i, list) && !c.lastKnown(l, b, list) && !endsProgram(t, map[*ssa.BasicBlock]bool{}) {
				bad = b
			}
		}
	}
	walk(l.head)
	if bad != nil {
		c.bad("gives-up:"+fn.Name(), bad.Instrs[len(bad.Instrs)-1], "the sources of images aren't asked any more although none had the image and there may be further ones")
	}
	if at := skipsRound(l, func(b *ssa.BasicBlock) bool { return b == call.Block() }); at != nil && bad == nil {
		if !leavesAtEnd(l, at, list) {
			c.bad("source-skipped:"+fn.Name(), at, "a source of images is left out in some cases")
		}
	}
}

// lastKnown: the block is only reached if a condition about the length of the list held.
func (c *imgCheck) lastKnown(l *natLoop, b *ssa.BasicBlock, list *ssa.FieldAddr) bool {
	for x := range controlling(b) {
		if x != l.head && l.blocks[x] && aboutLen(x.Instrs[len(x.Instrs)-1].(*ssa.If).Cond, list, 0) {
			return true
		}
	}
	return false
}

func leavesAtEnd(l *natLoop, at ssa.Instruction, list *ssa.FieldAddr) bool {
	iff, ok := at.(*ssa.If)
	return ok && aboutLen(iff.Cond, list, 0)
}

func aboutLength(b *ssa.BasicBlock, _ int, list *ssa.FieldAddr) bool {
	iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	return ok && aboutLen(iff.Cond, list, 0)
}

// aboutLen: the value depends on the length of the list in the field.
func aboutLen(v ssa.Value, list *ssa.FieldAddr, d int) bool {
	if d > 6 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Call:
		if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
			f := listField(x.Call.Args[0])
			return f != nil && f.Field == list.Field && types.Identical(f.X.Type(), list.X.Type())
		}
	case *ssa.BinOp:
		return aboutLen(x.X, list, d+1) || aboutLen(x.Y, list, d+1)
	case *ssa.UnOp:
		return aboutLen(x.X, list, d+1)
	case *ssa.Phi:
		if bt, ok := x.Type().Underlying().(*types.Basic); ok && bt.Kind() == types.Bool {
			for _, e := range x.Edges {
				if aboutLen(e, list, d+1) {
					return true
				}
			}
		}
	}
	return false
}

// errorOf: the value is the error of the call.
func errorFrom(v ssa.Value, call *ssa.Call, d int) bool {
	if d > 4 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Call:
		return x == call && call.Call.Signature().Results().Len() == 1
	case *ssa.Extract:
		return x.Tuple == call && isErrorType(x.Type())
	case *ssa.UnOp:
		if al, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
			for _, u := range *al.Referrers() {
				if st, ok := u.(*ssa.Store); ok && st.Addr == al && errorFrom(st.Val, call, d+1) {
					return true
				}
			}
		}
	}
	return false
}

// fromCall: the value depends on another result of the call than its error.
func fromCall(v ssa.Value, call *ssa.Call, d int) bool {
	if d > 6 {
		return false
	}
	if x, ok := v.(*ssa.Extract); ok && x.Tuple == call {
		return !isErrorType(x.Type())
	}
	if v == ssa.Value(call) {
		return !isErrorType(v.Type())
	}
	in, ok := v.(ssa.Instruction)
	if !ok {
		return false
	}
	if phi, ok := v.(*ssa.Phi); ok {
		if bt, ok := phi.Type().Underlying().(*types.Basic); !ok || bt.Kind() != types.Bool {
			return false
		}
	}
	for _, o := range in.Operands(nil) {
		if *o != nil && fromCall(*o, call, d+1) {
			return true
		}
	}
	return false
}
