package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// listed checks the sorted lists of the statistics: they are read from their first element on, one after the other, and
// the number of elements given for a map is the number it has.
func (c *statCheck) listed() {
	for _, fn := range c.p.Funcs {
		if !inPkg(fn, "generator") {
			continue
		}
		sorted := map[ssa.Value]bool{}
		for _, s := range CallSites(fn) {
			k := CalleeKey(s.Common())
			if !strings.HasPrefix(k, "sort.S") && !strings.HasPrefix(k, "slices.Sort") || len(s.Common().Args) == 0 {
				continue
			}
			v := s.Common().Args[0]
			if mi, ok := v.(*ssa.MakeInterface); ok {
				v = mi.X
			}
			sorted[c.p.resolve(v)] = true
			sorted[v] = true
			if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
				sorted[u.X] = true // a variable used by the comparison
			}
		}
		if len(sorted) == 0 {
			continue
		}
		is := func(v ssa.Value) bool {
			if sorted[v] || sorted[c.p.resolve(v)] {
				return true
			}
			u, ok := v.(*ssa.UnOp)
			return ok && u.Op == token.MUL && sorted[u.X]
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.IndexAddr:
					if !is(x.X) {
						continue
					}
					c.r.Count("sorted lists read", 1)
					c.firstOn(x)
				case *ssa.Slice:
					if !is(x.X) || x.Low == nil {
						continue
					}
					if k, ok := x.Low.(*ssa.Const); !ok || k.Int64() != 0 {
						c.bad("left-out:"+FnName(fn), x, "a sorted list is not shown from its first element on")
					}
				}
			}
		}
	}
	for _, fn := range c.p.Funcs {
		if !inPkg(fn, "generator") {
			continue
		}
		for _, s := range CallSites(fn) {
			k := CalleeKey(s.Common())
			if k != "strconv.Itoa" && k != "strconv.FormatInt" {
				continue
			}
			bo, ok := s.Common().Args[0].(*ssa.BinOp)
			if !ok {
				continue
			}
			for i, v := range []ssa.Value{bo.X, bo.Y} {
				call, ok := v.(*ssa.Call)
				if !ok {
					continue
				}
				bi, ok := call.Call.Value.(*ssa.Builtin)
				if !ok || bi.Name() != "len" {
					continue
				}
				_, isMap := call.Call.Args[0].Type().Underlying().(*types.Map)
				o, isK := []ssa.Value{bo.Y, bo.X}[i].(*ssa.Const)
				if isMap && isK && o.Int64() != 0 {
					c.bad("total:"+FnName(fn), bo, "the number given for a map is not the number of its elements")
				}
			}
		}
	}
}

// firstOn: the place in a list begins with 0 and moves on by 1.
func (c *statCheck) firstOn(x *ssa.IndexAddr) {
	ix, add := x.Index, int64(0)
	if bo, ok := ix.(*ssa.BinOp); ok && bo.Op == token.ADD {
		if k, ok := bo.Y.(*ssa.Const); ok {
			ix, add = bo.X, k.Int64()
		}
	}
	ph, ok := ix.(*ssa.Phi)
	if !ok {
		return
	}
	for i, p := range ph.Block().Preds {
		e := ph.Edges[i]
		if ph.Block().Dominates(p) {
			if bo, ok := e.(*ssa.BinOp); ok && bo.Op == token.ADD && bo.X == ssa.Value(ph) {
				if k, ok := bo.Y.(*ssa.Const); ok && k.Int64() != 1 {
					c.bad("left-out:"+FnName(x.Parent()), x, "elements of a sorted list are left out")
				}
			}
			continue
		}
		if k, ok := e.(*ssa.Const); ok && k.Value != nil && k.Int64()+add != 0 {
			c.bad("left-out:"+FnName(x.Parent()), x, "a sorted list is not shown from its first element on")
		}
	}
}
