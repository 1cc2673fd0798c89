package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// origins walks backwards from a value to everything it can be made from, across functions, local variables, fields of
// the repository's structures (all assignments to the field), and the elements of lists and maps.
type origins struct {
	p *Program
	// stop decides about a value first; true: it is handled and not followed any further
	stop func(v ssa.Value, via []ssa.Value) bool
	// pass lists the arguments an external call's result is made from; nil: the result is a leaf
	pass func(k string, c *ssa.CallCommon) []ssa.Value
	// leaf gets what cannot be followed any further
	leaf func(v ssa.Value, via []ssa.Value)
	// noFields: values loaded from fields are leaves
	noFields bool
	seen     map[ssa.Value]bool
}

func (o *origins) walk(v ssa.Value, via []ssa.Value) {
	if o.seen == nil {
		o.seen = map[ssa.Value]bool{}
	}
	if v == nil || o.seen[v] {
		return
	}
	o.seen[v] = true
	if o.stop != nil && o.stop(v, via) {
		return
	}
	via = append(via[:len(via):len(via)], v)
	p := o.p
	switch u := v.(type) {
	case *ssa.Const, *ssa.Function, *ssa.Builtin:
		o.leaf(v, via)
	case *ssa.Phi:
		for _, e := range u.Edges {
			o.walk(e, via)
		}
	case *ssa.ChangeType:
		o.walk(u.X, via)
	case *ssa.Convert:
		o.walk(u.X, via)
	case *ssa.MakeInterface:
		o.walk(u.X, via)
	case *ssa.ChangeInterface:
		o.walk(u.X, via)
	case *ssa.TypeAssert:
		o.walk(u.X, via)
	case *ssa.BinOp:
		o.walk(u.X, via)
		o.walk(u.Y, via)
	case *ssa.Slice:
		o.walk(u.X, via)
	case *ssa.FreeVar:
		b := p.binding(u)
		if b == nil {
			o.leaf(v, via)
			return
		}
		o.walk(b, via)
	case *ssa.Parameter:
		o.param(u, via)
	case *ssa.Extract:
		o.extract(u, via)
	case *ssa.Call:
		o.call(u, 0, via)
	case *ssa.UnOp:
		switch u.Op {
		case token.MUL:
			o.load(u.X, v, via)
		case token.ARROW:
			o.received(u.X, via)
		default:
			o.walk(u.X, via)
		}
	case *ssa.Field:
		o.field(u.X.Type(), u.Field, u.X, v, via)
	case *ssa.Index:
		o.walk(u.X, via)
	case *ssa.Lookup:
		o.elements(u.X, via)
	case *ssa.Next:
		o.leaf(v, via)
	case *ssa.MakeSlice, *ssa.MakeMap, *ssa.Alloc:
		o.elements(v, via)
	case *ssa.Global:
		o.load(u, v, via)
	default:
		o.leaf(v, via)
	}
}

func (o *origins) param(q *ssa.Parameter, via []ssa.Value) {
	fn := q.Parent()
	idx := -1
	for i, r := range fn.Params {
		if r == q {
			idx = i
		}
	}
	found := false
	for _, site := range o.p.CallersOf(fn) {
		c := site.Common()
		args := c.Args
		if c.IsInvoke() {
			args = append([]ssa.Value{c.Value}, args...)
		}
		if idx < len(args) {
			found = true
			o.walk(args[idx], via)
		}
	}
	// closures called in place
	if sites, ok := o.p.sitesOf(fn); ok && !found {
		for _, site := range sites {
			args := site.Common().Args
			if idx < len(args) {
				found = true
				o.walk(args[idx], via)
			}
		}
	}
	if !found {
		o.leaf(q, via)
	}
}

func (o *origins) extract(ex *ssa.Extract, via []ssa.Value) {
	switch t := ex.Tuple.(type) {
	case *ssa.Call:
		o.call(t, ex.Index, via)
	case *ssa.UnOp:
		if t.Op == token.ARROW {
			o.received(t.X, via)
			return
		}
		o.leaf(ex, via)
	case *ssa.Lookup:
		if ex.Index == 0 {
			o.elements(t.X, via)
		}
	case *ssa.TypeAssert:
		if ex.Index == 0 {
			o.walk(t.X, via)
		}
	case *ssa.Next:
		if r, ok := t.Iter.(*ssa.Range); ok {
			if ex.Index == 2 {
				o.elements(r.X, via)
			} else if ex.Index == 1 {
				o.keys(r.X, via)
			}
			return
		}
		o.leaf(ex, via)
	default:
		o.leaf(ex, via)
	}
}

func (o *origins) received(ch ssa.Value, via []ssa.Value) {
	k := o.p.vkey(ch)
	found := false
	for _, fn := range o.p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Send); ok && o.p.vkey(s.Chan) == k {
					found = true
					o.walk(s.X, via)
				}
			}
		}
	}
	if !found {
		o.leaf(ch, via)
	}
}

func (o *origins) call(c *ssa.Call, i int, via []ssa.Value) {
	p := o.p
	if b, ok := c.Call.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			for _, a := range c.Call.Args {
				o.walk(a, via)
			}
			return
		case "len", "cap":
			o.leaf(c, via)
			return
		}
		for _, a := range c.Call.Args {
			o.walk(a, via)
		}
		return
	}
	repo := p.repoCallees(&c.Call)
	if len(repo) == 0 {
		for _, f := range dynamicClosures(nil, &c.Call) {
			if p.IsRepoFn(f) && len(f.Blocks) > 0 {
				repo = append(repo, f)
			}
		}
	}
	if len(repo) > 0 {
		for _, t := range repo {
			for _, b := range t.Blocks {
				if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					if v := retVal(ret, i); v != nil {
						o.walk(v, via)
					}
				}
			}
		}
		return
	}
	if o.pass != nil {
		if args := o.pass(CalleeKey(&c.Call), &c.Call); args != nil {
			for _, a := range args {
				o.walk(a, via)
			}
			return
		}
	}
	o.leaf(c, via)
}

func (o *origins) load(a ssa.Value, v ssa.Value, via []ssa.Value) {
	p := o.p
	switch u := a.(type) {
	case *ssa.Global:
		st := p.GlobalStores(u)
		if len(st) == 0 {
			o.leaf(v, via)
		}
		for _, s := range st {
			o.walk(s.Val, via)
		}
	case *ssa.Alloc:
		o.cell(u, v, via)
	case *ssa.FreeVar:
		b := p.binding(u)
		if al, ok := b.(*ssa.Alloc); ok {
			o.cell(al, v, via)
			return
		}
		o.leaf(v, via)
	case *ssa.FieldAddr:
		o.field(u.X.Type(), u.Field, u.X, v, via)
	case *ssa.IndexAddr:
		o.walk(u.X, via)
	case *ssa.Parameter:
		// a pointer handed in
		o.walk(u, via)
	default:
		o.leaf(v, via)
	}
}

// cell follows everything stored to a local variable.
func (o *origins) cell(al *ssa.Alloc, v ssa.Value, via []ssa.Value) {
	n := 0
	o.p.addrUses(al, func(in ssa.Instruction, a ssa.Value) bool {
		switch i := in.(type) {
		case *ssa.Store:
			if i.Addr == a {
				n++
				o.walk(i.Val, via)
			}
		case ssa.CallInstruction:
			// filled by a call
			if i.Common().StaticCallee() == nil || !o.p.IsRepoFn(i.Common().StaticCallee()) {
				n++
				o.leaf(v, via)
			}
		}
		return true
	})
	if n == 0 {
		switch al.Type().(*types.Pointer).Elem().Underlying().(type) {
		case *types.Struct, *types.Array:
			o.elements(al, via)
		}
	}
}

func (o *origins) field(t types.Type, idx int, base ssa.Value, v ssa.Value, via []ssa.Value) {
	fv := fieldVar(t, idx)
	if fv == nil || o.noFields {
		o.leaf(v, via)
		return
	}
	st := o.p.fieldStores(fv)
	if len(st) == 0 {
		o.leaf(v, via)
		return
	}
	for _, s := range st {
		o.walk(s, via)
	}
}

// elements follows the values put into a list, array, map or structure.
func (o *origins) elements(c ssa.Value, via []ssa.Value) {
	switch u := c.(type) {
	case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap:
		n := 0
		seen := map[ssa.Value]bool{}
		var refs func(v ssa.Value)
		refs = func(v ssa.Value) {
			if seen[v] || v.Referrers() == nil {
				return
			}
			seen[v] = true
			for _, r := range *v.Referrers() {
				switch i := r.(type) {
				case *ssa.IndexAddr:
					for _, s := range *i.Referrers() {
						if st, ok := s.(*ssa.Store); ok && st.Addr == ssa.Value(i) {
							n++
							o.walk(st.Val, via)
						}
					}
				case *ssa.FieldAddr:
					for _, s := range *i.Referrers() {
						if st, ok := s.(*ssa.Store); ok && st.Addr == ssa.Value(i) {
							n++
							o.walk(st.Val, via)
						}
					}
				case *ssa.Store:
					if i.Addr == v {
						n++
						o.walk(i.Val, via)
					} else if al, ok := i.Addr.(*ssa.Alloc); ok {
						for _, x := range *al.Referrers() {
							if ld, ok := x.(*ssa.UnOp); ok && ld.Op == token.MUL {
								refs(ld)
							}
						}
					}
				case *ssa.MapUpdate:
					if i.Map == v {
						n++
						o.walk(i.Value, via)
					}
				case *ssa.Slice:
					refs(i)
				}
			}
		}
		refs(c)
		if n == 0 {
			o.leaf(c, via)
		}
	default:
		_ = u
		o.walk(c, via)
	}
}

func (o *origins) keys(c ssa.Value, via []ssa.Value) {
	if _, ok := c.Type().Underlying().(*types.Map); ok {
		if m, ok := o.p.resolve(c).(*ssa.MakeMap); ok {
			for _, r := range *m.Referrers() {
				if mu, ok := r.(*ssa.MapUpdate); ok {
					o.walk(mu.Key, via)
				}
			}
			return
		}
	}
	o.leaf(c, via)
}

// fieldStores lists all values assigned to a field of a structure of the repository.
func (p *Program) fieldStores(fv *types.Var) []ssa.Value {
	if p.fieldStoresOf == nil {
		p.fieldStoresOf = map[*types.Var][]ssa.Value{}
		for _, fn := range p.Funcs {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if st, ok := in.(*ssa.Store); ok {
						if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
							if f := fieldVar(fa.X.Type(), fa.Field); f != nil {
								p.fieldStoresOf[f] = append(p.fieldStoresOf[f], st.Val)
							}
						}
					}
				}
			}
		}
	}
	return p.fieldStoresOf[fv]
}
