package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A strPart is a part of a string: literal text or a value that is not known.
type strPart struct {
	lit  string
	v    ssa.Value
	fr   *shapeFrame
	verb string   // how the value is formatted, if by a format verb other than %s
	ops  []string // escaping applied, innermost first
	at   ssa.Instruction
}

type shape []strPart

// A shapeFrame is the call through which a function is looked at.
type shapeFrame struct {
	call *ssa.Call
	fn   *ssa.Function
	up   *shapeFrame
}

// A shaper computes of which parts strings consist.
type shaper struct {
	p *Program
	// op names a call that changes its argument as a whole (escaping); the argument's index is returned too
	op func(k string) (string, int, bool)
	// field says whether to follow a field to the values assigned to it
	field func(fv *types.Var) bool
	// leaf: do not look into this value
	leaf func(v ssa.Value) bool
	// params: follow parameters to all callers
	params bool
	// live says whether an edge of the control flow graph may be taken (pred is nil: whether the block is reached)
	live     func(pred, b *ssa.BasicBlock, fr *shapeFrame) bool
	max      int
	overflow bool
	busy     map[ssa.Value]int
}

func (s *shaper) eval(v ssa.Value) []shape {
	if s.max == 0 {
		s.max = 256
	}
	s.busy = map[ssa.Value]int{}
	return s.ev(v, nil, 0)
}

// ev2 is eval within a call.
func (s *shaper) ev2(v ssa.Value, fr *shapeFrame) []shape {
	if s.max == 0 {
		s.max = 256
	}
	s.busy = map[ssa.Value]int{}
	return s.ev(v, fr, 0)
}

func (s *shaper) concat(a, b []shape) []shape {
	var out []shape
	for _, x := range a {
		for _, y := range b {
			n := append(append(shape{}, x...), y...)
			out = append(out, n)
			if len(out) > s.max {
				s.overflow = true
				return out
			}
		}
	}
	return out
}

func litShape(t string) []shape {
	if t == "" {
		return []shape{{}}
	}
	return []shape{{{lit: t}}}
}

func (s *shaper) ev(v ssa.Value, fr *shapeFrame, d int) []shape {
	opaque := []shape{{{v: v, fr: fr}}}
	if d > 60 || s.busy[v] > 1 {
		return opaque
	}
	if s.leaf != nil && s.leaf(v) {
		return opaque
	}
	s.busy[v]++
	defer func() { s.busy[v]-- }()
	switch u := v.(type) {
	case *ssa.Const:
		if u.Value != nil && u.Value.Kind() == constant.String {
			return litShape(constant.StringVal(u.Value))
		}
	case *ssa.ChangeType:
		return s.ev(u.X, fr, d+1)
	case *ssa.MakeInterface:
		return s.ev(u.X, fr, d+1)
	case *ssa.Convert:
		if b, ok := u.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return s.ev(u.X, fr, d+1)
		}
	case *ssa.BinOp:
		if u.Op == token.ADD {
			return s.concat(s.ev(u.X, fr, d+1), s.ev(u.Y, fr, d+1))
		}
	case *ssa.Phi:
		var out []shape
		for i, e := range u.Edges {
			if e == v || s.live != nil && !s.live(u.Block().Preds[i], u.Block(), fr) {
				continue
			}
			if s.busy[e] > 0 {
				out = append(out, shape{{v: v, fr: fr}})
				continue
			}
			out = append(out, s.ev(e, fr, d+1)...)
			if len(out) > s.max {
				s.overflow = true
				return out
			}
		}
		return out
	case *ssa.FreeVar, *ssa.Parameter:
		if q, ok := v.(*ssa.Parameter); ok {
			for f := fr; f != nil; f = f.up {
				if f.fn == q.Parent() {
					for i, r := range f.fn.Params {
						if r == q && i < len(f.call.Call.Args) {
							return s.ev(f.call.Call.Args[i], f.up, d+1)
						}
					}
				}
			}
			if s.params {
				sites, ok := s.p.sitesOf(q.Parent())
				if !ok || len(sites) == 0 {
					return opaque
				}
				var out []shape
				for _, site := range sites {
					args := site.Common().Args
					if site.Common().IsInvoke() {
						args = append([]ssa.Value{site.Common().Value}, args...)
					}
					for i, r := range q.Parent().Params {
						if r == q && i < len(args) {
							out = append(out, s.ev(args[i], nil, d+1)...)
						}
					}
					if len(out) > s.max {
						s.overflow = true
						return out
					}
				}
				return out
			}
		}
		if n := s.p.resolveStep(v); n != nil && n != v {
			return s.ev(n, fr, d+1)
		}
	case *ssa.UnOp:
		if u.Op == token.MUL {
			if n := s.p.resolveStep(v); n != nil && n != v {
				return s.ev(n, fr, d+1)
			}
			switch a := u.X.(type) {
			case *ssa.Global:
				st := s.p.GlobalStores(a)
				if len(st) == 1 {
					return s.ev(st[0].Val, nil, d+1)
				}
			case *ssa.FieldAddr:
				fv := fieldVar(a.X.Type(), a.Field)
				if fv != nil && s.field != nil && s.field(fv) {
					var out []shape
					for _, x := range s.p.fieldStores(fv) {
						out = append(out, s.ev(x, nil, d+1)...)
					}
					if len(out) > 0 {
						return out
					}
				}
			}
		}
	case *ssa.Field:
		fv := fieldVar(u.X.Type(), u.Field)
		if fv != nil && s.field != nil && s.field(fv) {
			var out []shape
			for _, x := range s.p.fieldStores(fv) {
				out = append(out, s.ev(x, nil, d+1)...)
			}
			if len(out) > 0 {
				return out
			}
		}
	case *ssa.Extract:
		if c, ok := u.Tuple.(*ssa.Call); ok {
			if out := s.call(c, u.Index, fr, d); out != nil {
				return out
			}
		}
	case *ssa.Call:
		if out := s.call(u, 0, fr, d); out != nil {
			return out
		}
	}
	return opaque
}

func (s *shaper) call(c *ssa.Call, idx int, fr *shapeFrame, d int) []shape {
	k := CalleeKey(&c.Call)
	if s.op != nil {
		if name, i, ok := s.op(k); ok {
			in := s.ev(c.Call.Args[i], fr, d+1)
			// the escaped value is one part, whatever it consists of
			one := strPart{v: c.Call.Args[i], fr: fr, at: c}
			for _, sh := range in {
				for _, q := range sh {
					if len(q.ops) > 0 {
						one.ops = append(one.ops, q.ops...)
					}
				}
				if len(one.ops) > 0 {
					break
				}
			}
			one.ops = append(one.ops, name)
			return []shape{{one}}
		}
	}
	switch k {
	case "fmt.Sprintf":
		f, ok := c.Call.Args[0].(*ssa.Const)
		if !ok {
			fs := s.ev(c.Call.Args[0], fr, d+1)
			if len(fs) != 1 || len(fs[0]) > 1 || len(fs[0]) == 1 && fs[0][0].v != nil {
				return nil
			}
			t := ""
			if len(fs[0]) == 1 {
				t = fs[0][0].lit
			}
			return s.format(c, t, fr, d)
		}
		if f.Value == nil || f.Value.Kind() != constant.String {
			return nil
		}
		return s.format(c, constant.StringVal(f.Value), fr, d)
	case "strings.Join":
		sep := s.ev(c.Call.Args[1], fr, d+1)
		els := variadicArgs(c.Call.Args[0])
		if els == nil {
			return nil
		}
		out := litShape("")
		for i, e := range els {
			if e == nil {
				return nil
			}
			if i > 0 {
				out = s.concat(out, sep)
			}
			out = s.concat(out, s.ev(e, fr, d+1))
		}
		return out
	}
	f := c.Call.StaticCallee()
	if f == nil || !s.p.IsRepoFn(f) || len(f.Blocks) == 0 || idx >= f.Signature.Results().Len() {
		return nil
	}
	for x := fr; x != nil; x = x.up {
		if x.fn == f {
			return nil // recursion
		}
	}
	var out []shape
	n := &shapeFrame{call: c, fn: f, up: fr}
	for _, b := range f.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || b == f.Recover || errorReturn(ret) || s.live != nil && !s.live(nil, b, n) {
			continue
		}
		out = append(out, s.ev(resultOf(ret, idx), n, d+1)...)
		if len(out) > s.max {
			s.overflow = true
			return out
		}
	}
	return out
}

// format splits a format string at its verbs.
func (s *shaper) format(c *ssa.Call, f string, fr *shapeFrame, d int) []shape {
	var args []ssa.Value
	if len(c.Call.Args) > 1 {
		args = variadicArgs(c.Call.Args[1])
	}
	out := litShape("")
	lit := ""
	n := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			lit += string(f[i])
			continue
		}
		j := i + 1
		for j < len(f) && strings.IndexByte("+-# 0123456789.", f[j]) >= 0 {
			j++
		}
		if j >= len(f) || f[j] == '*' || f[j] == '[' {
			return nil
		}
		verb := f[i : j+1]
		i = j
		if verb == "%%" {
			lit += "%"
			continue
		}
		if n >= len(args) || args[n] == nil {
			return nil
		}
		out = s.concat(out, litShape(lit))
		lit = ""
		a := args[n]
		n++
		x := a
		if mi, ok := x.(*ssa.MakeInterface); ok {
			x = mi.X
		}
		b, isB := x.Type().Underlying().(*types.Basic)
		if (verb == "%s" || verb == "%v") && isB && b.Info()&types.IsString != 0 {
			out = s.concat(out, s.ev(x, fr, d+1))
		} else {
			out = s.concat(out, []shape{{{v: x, fr: fr, verb: verb}}})
		}
	}
	return s.concat(out, litShape(lit))
}

// variadicArgs lists the values of a variadic argument or slice literal written out in place.
func variadicArgs(v ssa.Value) []ssa.Value {
	sl, ok := v.(*ssa.Slice)
	if !ok {
		if c, isC := v.(*ssa.Const); isC && c.IsNil() {
			return []ssa.Value{}
		}
		return nil
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	at, ok := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
	if !ok {
		return nil
	}
	out := make([]ssa.Value, at.Len())
	for _, rf := range *al.Referrers() {
		ia, isIA := rf.(*ssa.IndexAddr)
		if !isIA {
			continue
		}
		n, isC := constInt(ia.Index)
		if !isC {
			return nil
		}
		for _, rr := range *ia.Referrers() {
			if st, isS := rr.(*ssa.Store); isS && st.Addr == ssa.Value(ia) {
				if out[n] != nil {
					return nil
				}
				out[n] = st.Val
			}
		}
	}
	return out
}
