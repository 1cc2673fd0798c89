package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// resolve follows a value to where it comes from: through parameters of functions called at one place, captured
// variables, local variables assigned once and values received from a channel that is sent to at one place.
func (p *Program) resolve(v ssa.Value) ssa.Value {
	seen := map[ssa.Value]bool{}
	for v != nil && !seen[v] {
		seen[v] = true
		n := p.resolveStep(v)
		if n == nil {
			return v
		}
		v = n
	}
	return v
}

func (p *Program) resolveStep(v ssa.Value) ssa.Value {
	switch u := v.(type) {
	case *ssa.ChangeType:
		return u.X
	case *ssa.MakeInterface:
		return u.X
	case *ssa.FreeVar:
		return p.binding(u)
	case *ssa.Parameter:
		return p.argOf(u)
	case *ssa.UnOp:
		if u.Op == token.MUL {
			a := p.resolve(u.X)
			if s := p.onlyStore(a); s != nil {
				return s
			}
			// a field of a struct built once
			if fa, ok := u.X.(*ssa.FieldAddr); ok {
				base := p.resolve(fa.X)
				if s := p.onlyFieldStore(base, fa.Field); s != nil {
					return s
				}
				// of a copy of such a struct
				if s := p.onlyStore(base); s != nil {
					if ld, ok := p.resolve(s).(*ssa.UnOp); ok && ld.Op == token.MUL {
						if s := p.onlyFieldStore(p.resolve(ld.X), fa.Field); s != nil {
							return s
						}
					}
				}
			}
		}
	case *ssa.Field:
		if ld, ok := p.resolve(u.X).(*ssa.UnOp); ok && ld.Op == token.MUL {
			if s := p.onlyFieldStore(p.resolve(ld.X), u.Field); s != nil {
				return s
			}
		}
		if ld, ok := u.X.(*ssa.UnOp); ok && ld.Op == token.MUL {
			if s := p.onlyFieldStore(p.resolve(ld.X), u.Field); s != nil {
				return s
			}
		}
	case *ssa.Phi:
		var one ssa.Value
		for _, e := range u.Edges {
			if e == ssa.Value(u) {
				continue
			}
			if one != nil && one != e {
				return nil
			}
			one = e
		}
		return one
	case *ssa.Extract:
		if ld, ok := u.Tuple.(*ssa.UnOp); ok && ld.Op == token.ARROW && u.Index == 0 {
			if s := p.onlySend(ld.X); s != nil {
				return s.X
			}
		}
	case *ssa.Call:
		// the result of a function called once, if it returns at one place
		fn := u.Call.StaticCallee()
		if fn == nil || !p.IsRepoFn(fn) || len(fn.Blocks) == 0 || fn.Signature.Results().Len() != 1 {
			return nil
		}
		if sites, ok := p.sitesOf(fn); !ok || len(sites) != 1 {
			return nil
		}
		var out ssa.Value
		for _, b := range fn.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				if out != nil {
					return nil
				}
				out = ret.Results[0]
			}
		}
		if ld, ok := out.(*ssa.UnOp); ok && ld.Op == token.MUL {
			if st := p.onlyStore(ld.X); st != nil {
				out = st
			}
		}
		switch out.(type) {
		case *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan, *ssa.Alloc:
			return out
		}
		return nil
	case *ssa.Slice:
		if u.Low == nil && u.High == nil && u.Max == nil {
			if _, ok := u.X.Type().Underlying().(*types.Slice); ok {
				return u.X
			}
		}
	}
	if ld, ok := v.(*ssa.UnOp); ok && ld.Op == token.ARROW && !ld.CommaOk {
		if s := p.onlySend(ld.X); s != nil {
			return s.X
		}
	}
	return nil
}

// binding is the value captured for a free variable (closures are created at one place).
func (p *Program) binding(fv *ssa.FreeVar) ssa.Value {
	fn := fv.Parent()
	if fn.Parent() == nil {
		return nil
	}
	var out ssa.Value
	for k, f := range fn.FreeVars {
		if f != fv {
			continue
		}
		for _, b := range fn.Parent().Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == fn {
					if out != nil && out != mc.Bindings[k] {
						return nil
					}
					out = mc.Bindings[k]
				}
			}
		}
	}
	return out
}

// sitesOf lists all calls of fn, calls of closures created in place included; ok is false if fn is used in other ways.
func (p *Program) sitesOf(fn *ssa.Function) (out []ssa.CallInstruction, ok bool) {
	ok = true
	out = append(out, p.CallersOf(fn)...)
	have := map[ssa.CallInstruction]bool{}
	for _, c := range out {
		have[c] = true
	}
	if fn.Parent() != nil {
		for _, b := range fn.Parent().Blocks {
			for _, in := range b.Instrs {
				mc, isMc := in.(*ssa.MakeClosure)
				if !isMc || mc.Fn != fn {
					continue
				}
				for _, r := range *mc.Referrers() {
					if c, isC := r.(ssa.CallInstruction); isC && c.Common().Value == ssa.Value(mc) {
						if !have[c] {
							have[c] = true
							out = append(out, c)
						}
					} else if _, isD := r.(*ssa.DebugRef); !isD {
						ok = false
					}
				}
			}
		}
	}
	return out, ok
}

func (p *Program) argOf(q *ssa.Parameter) ssa.Value {
	fn := q.Parent()
	sites, ok := p.sitesOf(fn)
	if !ok || len(sites) != 1 {
		return nil
	}
	for i, r := range fn.Params {
		if r == q {
			c := sites[0].Common()
			args := c.Args
			if c.IsInvoke() {
				args = append([]ssa.Value{c.Value}, c.Args...)
			}
			if i < len(args) {
				return args[i]
			}
		}
	}
	return nil
}

// addrUses visits every use of a local variable's address, in closures too; visit returns false to give up.
func (p *Program) addrUses(a ssa.Value, visit func(in ssa.Instruction, a ssa.Value) bool) bool {
	if a.Referrers() == nil {
		return false
	}
	for _, r := range *a.Referrers() {
		if mc, ok := r.(*ssa.MakeClosure); ok {
			fn := mc.Fn.(*ssa.Function)
			for k, b := range mc.Bindings {
				if b == a && !p.addrUses(fn.FreeVars[k], visit) {
					return false
				}
			}
			continue
		}
		if !visit(r, a) {
			return false
		}
	}
	return true
}

// onlyStore is the value of a local variable that is assigned exactly once.
func (p *Program) onlyStore(a ssa.Value) ssa.Value {
	al, ok := a.(*ssa.Alloc)
	if !ok {
		return nil
	}
	switch al.Type().(*types.Pointer).Elem().Underlying().(type) {
	case *types.Struct, *types.Array:
		// whole-value stores of struct variables are handled here as well
	}
	var val ssa.Value
	n := 0
	good := p.addrUses(al, func(in ssa.Instruction, a ssa.Value) bool {
		switch u := in.(type) {
		case *ssa.Store:
			if u.Addr == a {
				n++
				val = u.Val
				return true
			}
			return false
		case *ssa.UnOp, *ssa.DebugRef:
			return true
		case *ssa.FieldAddr:
			for _, r := range *u.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == u {
					return false
				}
			}
			return true
		case *ssa.IndexAddr:
			for _, r := range *u.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == u {
					return false
				}
			}
			return true
		case ssa.CallInstruction:
			return p.onlyReads(u, a, 0)
		}
		return false
	})
	if good && n == 1 {
		return val
	}
	return nil
}

// onlyReads: the called function only reads what the pointer a points to.
func (p *Program) onlyReads(site ssa.CallInstruction, a ssa.Value, depth int) bool {
	if _, isGo := site.(*ssa.Go); isGo || depth > 4 {
		return false
	}
	f := site.Common().StaticCallee()
	if f == nil || len(f.Blocks) == 0 || len(f.Params) != len(site.Common().Args) || site.Common().Value == a {
		return false
	}
	for i, arg := range site.Common().Args {
		if arg != a {
			continue
		}
		for _, rf := range *f.Params[i].Referrers() {
			switch u := rf.(type) {
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.FieldAddr:
				for _, rr := range *u.Referrers() {
					switch w := rr.(type) {
					case *ssa.UnOp, *ssa.DebugRef:
						_ = w
					default:
						return false
					}
				}
			case ssa.CallInstruction:
				if !p.onlyReads(u, f.Params[i], depth+1) {
					return false
				}
			default:
				return false
			}
		}
	}
	return true
}

// onlyFieldStore is the value of a struct variable's field that is assigned exactly once.
func (p *Program) onlyFieldStore(a ssa.Value, field int) ssa.Value {
	al, ok := a.(*ssa.Alloc)
	if !ok {
		return nil
	}
	var val ssa.Value
	n := 0
	p.addrUses(al, func(in ssa.Instruction, a ssa.Value) bool {
		switch u := in.(type) {
		case *ssa.Store:
			if u.Addr == a {
				n += 2
			}
		case *ssa.FieldAddr:
			if u.Field == field {
				for _, r := range *u.Referrers() {
					if st, ok := r.(*ssa.Store); ok && st.Addr == u {
						n++
						val = st.Val
					}
				}
			}
		}
		return true
	})
	if n == 1 {
		return val
	}
	return nil
}

// onlySend is the one send to a channel, if there is just one in the program.
func (p *Program) onlySend(ch ssa.Value) *ssa.Send {
	c := p.vkey(ch)
	var out *ssa.Send
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Send); ok && p.vkey(s.Chan) == c {
					if out != nil {
						return nil
					}
					out = s
				}
			}
		}
	}
	return out
}

// vkey names a value such that equal names mean equal values (within one iteration of the loops around them).
func (p *Program) vkey(v ssa.Value) string { return p.vkeyD(v, 0) }

func (p *Program) vkeyD(v ssa.Value, d int) string {
	if v == nil {
		return "nil"
	}
	if d > 12 {
		return fmt.Sprintf("deep:%p", v)
	}
	v = p.resolve(v)
	switch u := v.(type) {
	case *ssa.Const:
		return "const:" + u.String()
	case *ssa.Global:
		return "global:" + u.String()
	case *ssa.Function:
		return "func:" + u.String()
	case *ssa.UnOp:
		if u.Op == token.MUL {
			return "*" + p.vkeyD(u.X, d+1)
		}
	case *ssa.FieldAddr:
		if fv := fieldVar(u.X.Type(), u.Field); fv != nil {
			return p.vkeyD(u.X, d+1) + "." + fv.Name()
		}
	case *ssa.Field:
		if fv := fieldVar(u.X.Type(), u.Field); fv != nil {
			base := p.vkeyD(u.X, d+1)
			if len(base) > 0 && base[0] == '*' {
				return "*" + base[1:] + "." + fv.Name()
			}
			return base + "." + fv.Name()
		}
	case *ssa.IndexAddr:
		return p.vkeyD(u.X, d+1) + "[" + p.vkeyD(u.Index, d+1) + "]"
	case *ssa.BinOp:
		return "(" + p.vkeyD(u.X, d+1) + u.Op.String() + p.vkeyD(u.Y, d+1) + ")"
	case *ssa.Convert:
		return p.vkeyD(u.X, d+1)
	case *ssa.Index:
		return p.vkeyD(u.X, d+1) + "[" + p.vkeyD(u.Index, d+1) + "]"
	case *ssa.Lookup:
		if b, ok := u.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return p.vkeyD(u.X, d+1) + "[" + p.vkeyD(u.Index, d+1) + "]"
		}
	case *ssa.Call:
		if b, ok := u.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") {
			return b.Name() + "(" + p.vkeyD(u.Call.Args[0], d+1) + ")"
		}
	}
	return fmt.Sprintf("%s:%p", v.Name(), v)
}
