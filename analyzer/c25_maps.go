package main

import (
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Writing into a map that does not exist ends the program, reading from it does not.

type mapState int

const (
	mapMissing mapState = iota // it may be missing where it's written to
	mapThere
	mapOfRecord // kept in a record or variable of the package
)

func (a mapState) and(b mapState) mapState {
	if a == mapMissing || b == mapMissing {
		return mapMissing
	}
	if a == mapOfRecord || b == mapOfRecord {
		return mapOfRecord
	}
	return mapThere
}

// mapExists tells whether a map is there when the end of the block (before the instruction at) is reached.
func (c *boundCheck) mapExists(v ssa.Value, b *ssa.BasicBlock, at int, seen map[ssa.Value]bool) mapState {
	if seen[v] {
		return mapThere
	}
	seen[v] = true
	defer delete(seen, v)
	if c.notNilAt(v, b) {
		return mapThere
	}
	switch u := v.(type) {
	case *ssa.MakeMap:
		return mapThere
	case *ssa.Const:
		return mapMissing
	case *ssa.ChangeType:
		return c.mapExists(u.X, b, at, seen)
	case *ssa.Phi:
		out := mapThere
		for i, e := range u.Edges {
			p := u.Block().Preds[i]
			out = out.and(c.mapExists(e, p, len(p.Instrs), seen))
		}
		return out
	case *ssa.Parameter:
		fn := u.Parent()
		sites, ok := c.p.sitesOf(fn)
		if !ok || len(sites) == 0 {
			return mapMissing
		}
		out := mapThere
		for _, s := range sites {
			a := siteArg(s, u)
			if a == nil {
				return mapMissing
			}
			out = out.and(c.mapExists(a, s.Block(), indexOf(s), seen))
		}
		return out
	case *ssa.FreeVar:
		if x := c.p.resolve(u); x != ssa.Value(u) {
			if _, isAlloc := x.(*ssa.Alloc); !isAlloc {
				return c.mapExists(x, b, at, seen)
			}
		}
		return mapMissing
	case *ssa.Extract:
		if l, ok := u.Tuple.(*ssa.Lookup); ok && u.Index == 0 {
			return c.entryExists(l, seen)
		}
		if k, ok := u.Tuple.(*ssa.Call); ok {
			return c.resultExists(k, u.Index, seen)
		}
	case *ssa.Call:
		return c.resultExists(u, 0, seen)
	case *ssa.Lookup:
		return c.entryExists(u, seen)
	case *ssa.UnOp:
		if u.Op != token.MUL {
			return mapMissing
		}
		switch a := u.X.(type) {
		case *ssa.FieldAddr, *ssa.Global:
			return mapOfRecord
		case *ssa.Alloc, *ssa.FreeVar:
			// a variable shared with a closure: each of its values
			var al *ssa.Alloc
			if x, ok := a.(*ssa.Alloc); ok {
				al = x
			} else if x, ok := c.p.resolve(a).(*ssa.Alloc); ok {
				al = x
			}
			if al == nil {
				return mapMissing
			}
			n, out := 0, mapThere
			for _, f := range withClosures(al.Parent()) {
				for _, bb := range f.Blocks {
					for _, in := range bb.Instrs {
						st, ok := in.(*ssa.Store)
						if !ok || st.Addr != ssa.Value(al) && c.p.resolve(st.Addr) != ssa.Value(al) {
							continue
						}
						n++
						out = out.and(c.mapExists(st.Val, bb, indexOf(st), seen))
					}
				}
			}
			if n == 0 {
				return mapMissing
			}
			return out
		}
	case *ssa.Field:
		return mapOfRecord
	}
	return mapMissing
}

func indexOf(in ssa.Instruction) int {
	for i, x := range in.Block().Instrs {
		if x == in {
			return i
		}
	}
	return -1
}

// resultExists: a function of the program never returns a missing map there.
func (c *boundCheck) resultExists(k *ssa.Call, i int, seen map[ssa.Value]bool) mapState {
	f := k.Call.StaticCallee()
	if f == nil || len(f.Blocks) == 0 || !c.p.IsRepoFn(f) {
		return mapMissing
	}
	out := mapThere
	for _, b := range f.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && i < len(r.Results) {
			out = out.and(c.mapExists(r.Results[i], b, len(b.Instrs), seen))
		}
	}
	return out
}

// notNilAt: the block is reached only if v isn't nil.
func (c *boundCheck) notNilAt(v ssa.Value, b *ssa.BasicBlock) bool {
	for d := b; d != nil; d = d.Idom() {
		up := d.Idom()
		if up == nil || len(d.Preds) != 1 || d.Preds[0] != up {
			continue
		}
		i, ok := up.Instrs[len(up.Instrs)-1].(*ssa.If)
		if !ok || up.Succs[0] == up.Succs[1] {
			continue
		}
		if x, op := nilTest(i.Cond); x == v && x != nil && (op == token.NEQ) == (up.Succs[0] == d) {
			return true
		}
	}
	return false
}

func nilTest(cond ssa.Value) (ssa.Value, token.Token) {
	o, ok := cond.(*ssa.BinOp)
	if !ok || o.Op != token.EQL && o.Op != token.NEQ {
		return nil, 0
	}
	if k, ok := o.Y.(*ssa.Const); ok && k.Value == nil {
		return o.X, o.Op
	}
	return nil, 0
}

// entryExists: the entry has been looked up in a map of maps on each way to which it was stored or tested before, and
// no missing map is ever stored in it.
func (c *boundCheck) entryExists(l *ssa.Lookup, seen map[ssa.Value]bool) mapState {
	// none of the maps of its type has missing entries, and entries are not removed
	for _, fn := range c.p.Funcs {
		for _, b := range fn.Blocks {
			for i, in := range b.Instrs {
				switch u := in.(type) {
				case *ssa.MapUpdate:
					if types.Identical(u.Map.Type(), l.X.Type()) && c.mapExists(u.Value, b, i, seen) != mapThere {
						return mapMissing
					}
				case *ssa.Call:
					if k := CalleeKey(&u.Call); (k == "builtin.delete" || k == "builtin.clear") && types.Identical(u.Call.Args[0].Type(), l.X.Type()) {
						return mapMissing
					}
				}
			}
		}
	}
	same := func(a, b ssa.Value) bool {
		if a == b {
			return true
		}
		x, ok1 := a.(*ssa.Const)
		y, ok2 := b.(*ssa.Const)
		return ok1 && ok2 && x.Value != nil && y.Value != nil && constant.Compare(x.Value, token.EQL, y.Value)
	}
	isEntry := func(v ssa.Value) bool {
		if e, ok := v.(*ssa.Extract); ok && e.Index == 0 {
			v = e.Tuple
		}
		o, ok := v.(*ssa.Lookup)
		return ok && same(o.X, l.X) && same(o.Index, l.Index)
	}
	visited := map[*ssa.BasicBlock]bool{}
	var there func(b *ssa.BasicBlock, at int) bool
	there = func(b *ssa.BasicBlock, at int) bool {
		for i := at - 1; i >= 0; i-- {
			in := b.Instrs[i]
			if u, ok := in.(*ssa.MapUpdate); ok && same(u.Map, l.X) && same(u.Key, l.Index) {
				return true
			}
			// a new round of a loop may look for another entry
			if v, ok := in.(ssa.Value); ok && (v == l.Index || v == l.X) {
				return false
			}
		}
		if visited[b] {
			return true
		}
		visited[b] = true
		if len(b.Preds) == 0 {
			return false
		}
		for _, p := range b.Preds {
			if i, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If); ok && p.Succs[0] != p.Succs[1] {
				if x, op := nilTest(i.Cond); x != nil && isEntry(x) && (op == token.NEQ) == (p.Succs[0] == b) {
					continue
				}
				if e, ok := i.Cond.(*ssa.Extract); ok && e.Index == 1 && p.Succs[0] == b {
					if o, ok := e.Tuple.(*ssa.Lookup); ok && isEntry(o) {
						continue
					}
				}
			}
			if !there(p, len(p.Instrs)) {
				return false
			}
		}
		return true
	}
	if there(l.Block(), indexOf(l)) {
		return mapThere
	}
	return mapMissing
}
