package main

import (
	"go/token"

	"golang.org/x/tools/go/ssa"
)

// A listItem is a part of a list: one element, all elements of a list that isn't known further, or elements added in a loop.
type listItem struct {
	v    ssa.Value // one element
	fr   *shapeFrame
	list ssa.Value // elements of this list, from index "from" on
	from int
	rep  [][]listItem // what one iteration of a loop may add
	loop *ssa.BasicBlock
	rec  *ssa.Phi // the list before this iteration
	skip bool     // the loop might be left early or the iteration might not add anything
}

// A lister computes of which elements lists consist, in all ways they can be built.
type lister struct {
	p    *Program
	leaf func(v ssa.Value) bool
	// enter says whether to follow a parameter to all callers
	enter func(q *ssa.Parameter) bool
	// live says whether an edge of the control flow graph may be taken (pred is nil: whether the block is reached)
	live     func(pred, b *ssa.BasicBlock, fr *shapeFrame) bool
	max      int
	overflow bool
	busy     map[listAt]int
}

type listAt struct {
	v  ssa.Value
	fr *shapeFrame
}

func (l *lister) eval(v ssa.Value, fr *shapeFrame) [][]listItem {
	if l.max == 0 {
		l.max = 4096
	}
	if l.busy == nil {
		l.busy = map[listAt]int{}
	}
	return l.ev(v, fr, 0)
}

func (l *lister) concat(a, b [][]listItem) (out [][]listItem) {
	for _, x := range a {
		for _, y := range b {
			out = append(out, append(append([]listItem{}, x...), y...))
			if len(out) > l.max {
				l.overflow = true
				return out
			}
		}
	}
	return out
}

func (l *lister) ev(v ssa.Value, fr *shapeFrame, d int) [][]listItem {
	opaque := [][]listItem{{{list: v, fr: fr}}}
	if d > 200 || l.busy[listAt{v, fr}] > 0 {
		return opaque
	}
	if l.leaf != nil && l.leaf(v) {
		return opaque
	}
	l.busy[listAt{v, fr}]++
	defer func() { l.busy[listAt{v, fr}]-- }()
	switch u := v.(type) {
	case *ssa.Const:
		if u.IsNil() {
			return [][]listItem{{}}
		}
	case *ssa.ChangeType:
		return l.ev(u.X, fr, d+1)
	case *ssa.Slice:
		if els := variadicArgs(u); els != nil && u.Low == nil && u.High == nil {
			if al, ok := u.X.(*ssa.Alloc); ok && l.storedVia(u, al) {
				return opaque
			}
			var out []listItem
			for _, e := range els {
				if e == nil {
					return opaque
				}
				out = append(out, listItem{v: e, fr: fr})
			}
			return [][]listItem{out}
		}
		if al, ok := u.X.(*ssa.Alloc); ok {
			if n, isC := constIntOrNil(u.High); isC && n == 0 && u.Low == nil {
				_ = al
				return [][]listItem{{}} // make([]T, 0, n)
			}
			return opaque
		}
		if u.High != nil {
			if n, ok := constInt(u.High); ok && n == 0 && u.Low == nil {
				return [][]listItem{{}}
			}
			return opaque
		}
		n := int64(0)
		if u.Low != nil {
			k, ok := constInt(u.Low)
			if !ok {
				return opaque
			}
			n = k
		}
		var out [][]listItem
		for _, alt := range l.ev(u.X, fr, d+1) {
			k := int(n)
			alt = append([]listItem{}, alt...)
			for k > 0 && len(alt) > 0 && alt[0].v != nil {
				alt, k = alt[1:], k-1
			}
			if k > 0 {
				if len(alt) == 0 || alt[0].list == nil && alt[0].rep == nil {
					return opaque
				}
				alt[0].from += k
			}
			out = append(out, alt)
		}
		return out
	case *ssa.MakeSlice:
		if n, ok := constInt(u.Len); ok && n == 0 {
			return [][]listItem{{}}
		}
	case *ssa.Phi:
		var out [][]listItem
		var back [][]listItem
		for i, e := range u.Edges {
			if e == v {
				if l.live == nil || l.live(u.Block().Preds[i], u.Block(), fr) {
					back = append(back, nil)
				}
				continue
			}
			pred := u.Block().Preds[i]
			if l.live != nil && !l.live(pred, u.Block(), fr) {
				continue
			}
			if u.Block().Dominates(pred) {
				for _, alt := range l.evLoop(e, u, fr, d+1) {
					if len(alt) == 0 || alt[0].rec != u {
						return opaque
					}
					back = append(back, alt[1:])
				}
				continue
			}
			out = append(out, l.ev(e, fr, d+1)...)
			if len(out) > l.max {
				l.overflow = true
				return out
			}
		}
		some := false
		for _, b := range back {
			some = some || len(b) > 0
		}
		if some {
			return l.concat(out, [][]listItem{{{rep: back, loop: u.Block(), fr: fr}}})
		}
		return out
	case *ssa.Parameter:
		for f := fr; f != nil; f = f.up {
			if f.fn == u.Parent() {
				for i, r := range f.fn.Params {
					if r == u && i < len(f.call.Call.Args) {
						return l.ev(f.call.Call.Args[i], f.up, d+1)
					}
				}
			}
		}
		if l.enter != nil && l.enter(u) {
			sites, ok := l.p.sitesOf(u.Parent())
			if !ok || len(sites) == 0 {
				return opaque
			}
			var out [][]listItem
			for _, site := range sites {
				if a := siteArg(site, u); a != nil {
					out = append(out, l.ev(a, nil, d+1)...)
				}
			}
			return out
		}
	case *ssa.UnOp:
		if u.Op == token.MUL {
			if n := l.p.resolveStep(v); n != nil && n != v {
				return l.ev(n, fr, d+1)
			}
			if g, ok := u.X.(*ssa.Global); ok {
				if st := l.p.GlobalStores(g); len(st) == 1 {
					return l.ev(st[0].Val, nil, d+1)
				}
			}
		}
	case *ssa.Extract:
		if c, ok := u.Tuple.(*ssa.Call); ok {
			if out := l.call(c, u.Index, fr, d); out != nil {
				return out
			}
		}
	case *ssa.Call:
		if b, ok := u.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			a := l.ev(u.Call.Args[0], fr, d+1)
			if len(u.Call.Args) == 1 {
				return a
			}
			return l.concat(a, l.ev(u.Call.Args[1], fr, d+1))
		}
		switch CalleeKey(&u.Call) {
		case "slices.Clone":
			return l.ev(u.Call.Args[0], fr, d+1)
		case "slices.Concat":
			out := [][]listItem{{}}
			els := variadicArgs(u.Call.Args[0])
			if els == nil {
				return opaque
			}
			for _, e := range els {
				out = l.concat(out, l.ev(e, fr, d+1))
			}
			return out
		}
		if out := l.call(u, 0, fr, d); out != nil {
			return out
		}
	}
	return opaque
}

// evLoop is ev with the list at the start of the iteration given by the phi.
func (l *lister) evLoop(v ssa.Value, phi *ssa.Phi, fr *shapeFrame, d int) [][]listItem {
	if v == ssa.Value(phi) {
		return [][]listItem{{{rec: phi}}}
	}
	if d > 200 {
		return nil
	}
	switch u := v.(type) {
	case *ssa.Phi:
		if l.busy[listAt{v, fr}] > 0 {
			return [][]listItem{{{list: v, fr: fr}}}
		}
		l.busy[listAt{v, fr}]++
		defer func() { l.busy[listAt{v, fr}]-- }()
		// a loop inside of the loop
		var out, back [][]listItem
		for i, e := range u.Edges {
			if l.live != nil && !l.live(u.Block().Preds[i], u.Block(), fr) {
				continue
			}
			if e == v {
				back = append(back, nil)
				continue
			}
			if u.Block().Dominates(u.Block().Preds[i]) {
				for _, alt := range l.evLoop(e, u, fr, d+1) {
					if len(alt) == 0 || alt[0].rec != u {
						return [][]listItem{{{list: v, fr: fr}}}
					}
					back = append(back, alt[1:])
				}
				continue
			}
			out = append(out, l.evLoop(e, phi, fr, d+1)...)
		}
		for _, b := range back {
			if len(b) > 0 {
				return l.concat(out, [][]listItem{{{rep: back, loop: u.Block(), fr: fr}}})
			}
		}
		return out
	case *ssa.Call:
		if b, ok := u.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			a := l.evLoop(u.Call.Args[0], phi, fr, d+1)
			if len(u.Call.Args) == 1 {
				return a
			}
			return l.concat(a, l.ev(u.Call.Args[1], fr, d+1))
		}
		f := u.Call.StaticCallee()
		if f != nil && l.p.IsRepoFn(f) && len(f.Blocks) > 0 && f.Signature.Results().Len() == 1 {
			n := &shapeFrame{call: u, fn: f, up: fr}
			var out [][]listItem
			for _, b := range f.Blocks {
				if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && b != f.Recover && (l.live == nil || l.live(nil, b, n)) {
					out = append(out, l.ev(resultOf(ret, 0), n, d+1)...)
				}
			}
			// the list handed over stays as it is at the beginning
			for i := range out {
				if len(out[i]) > 0 && out[i][0].list == ssa.Value(phi) && out[i][0].from == 0 {
					out[i] = append([]listItem{{rec: phi}}, out[i][1:]...)
				}
			}
			return out
		}
	}
	return l.ev(v, fr, d+1)
}

func (l *lister) call(c *ssa.Call, idx int, fr *shapeFrame, d int) (out [][]listItem) {
	f := c.Call.StaticCallee()
	if f == nil || !l.p.IsRepoFn(f) || len(f.Blocks) == 0 || idx >= f.Signature.Results().Len() {
		return nil
	}
	for x := fr; x != nil; x = x.up {
		if x.fn == f {
			return nil
		}
	}
	n := &shapeFrame{call: c, fn: f, up: fr}
	for _, b := range f.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || b == f.Recover || errorReturn(ret) || l.live != nil && !l.live(nil, b, n) {
			continue
		}
		out = append(out, l.ev(resultOf(ret, idx), n, d+1)...)
		if len(out) > l.max {
			l.overflow = true
			return out
		}
	}
	return out
}

// storedVia: elements of the list are overwritten through this slice.
func (l *lister) storedVia(s *ssa.Slice, al *ssa.Alloc) bool {
	for _, rf := range *s.Referrers() {
		if ia, ok := rf.(*ssa.IndexAddr); ok {
			for _, rr := range *ia.Referrers() {
				if st, isS := rr.(*ssa.Store); isS && st.Addr == ssa.Value(ia) {
					return true
				}
			}
		}
	}
	return false
}

func constIntOrNil(v ssa.Value) (int64, bool) {
	if v == nil {
		return 0, false
	}
	return constInt(v)
}

// siteArg is the argument for the parameter at a call.
func siteArg(site ssa.CallInstruction, q *ssa.Parameter) ssa.Value {
	args := site.Common().Args
	if site.Common().IsInvoke() {
		args = append([]ssa.Value{site.Common().Value}, args...)
	}
	for i, r := range q.Parent().Params {
		if r == q && i < len(args) {
			return args[i]
		}
	}
	return nil
}

// frameArg is what a parameter stands for within the frame.
func frameArg(q *ssa.Parameter, fr *shapeFrame) (ssa.Value, *shapeFrame, bool) {
	for f := fr; f != nil; f = f.up {
		if f.fn == q.Parent() {
			for i, r := range f.fn.Params {
				if r == q && i < len(f.call.Call.Args) {
					return f.call.Call.Args[i], f.up, true
				}
			}
		}
	}
	return nil, nil, false
}
