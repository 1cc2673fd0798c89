package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A setEnv gives values of settings: constants for strings, numbers and booleans. For lists the constant is their length.
// A value that is unknown but not empty is the text notEmpty or the number of this many.
type setEnv map[string]constant.Value

// A setLiveness tells which blocks of functions are reached for given values of settings, separately for each way a function
// is called.
type setLiveness struct {
	p   *Program
	env setEnv
	// fixed gives values of other things, by their key
	fixed map[string]constant.Value
	// hook is asked first
	hook func(v ssa.Value, fr *shapeFrame, d int) constant.Value
	got  map[*shapeFrame]map[*ssa.Function]*liveBlocks
}

type liveBlocks struct {
	blocks map[*ssa.BasicBlock]bool
	edges  map[[2]*ssa.BasicBlock]bool
}

func newSetLiveness(p *Program, env setEnv) *setLiveness {
	return &setLiveness{p: p, env: env, got: map[*shapeFrame]map[*ssa.Function]*liveBlocks{}}
}

// settingField is the field of the configuration a value is loaded from.
func settingField(v ssa.Value) *types.Var {
	var fv *types.Var
	switch u := v.(type) {
	case *ssa.UnOp:
		if fa, ok := u.X.(*ssa.FieldAddr); ok && u.Op == token.MUL {
			fv = fieldVar(fa.X.Type(), fa.Field)
		}
	case *ssa.Field:
		fv = fieldVar(u.X.Type(), u.Field)
	}
	if fv != nil && fv.Pkg() != nil && strings.HasSuffix(fv.Pkg().Path(), "/config") {
		return fv
	}
	return nil
}

func (l *setLiveness) of(fn *ssa.Function, fr *shapeFrame) *liveBlocks {
	// only the frame in which the function itself is called matters
	if m := l.got[fr]; m != nil && m[fn] != nil {
		return m[fn]
	}
	out := &liveBlocks{blocks: map[*ssa.BasicBlock]bool{}, edges: map[[2]*ssa.BasicBlock]bool{}}
	if l.got[fr] == nil {
		l.got[fr] = map[*ssa.Function]*liveBlocks{}
	}
	l.got[fr][fn] = out
	// values of phis depend on the edges found so far: repeat until nothing is added
	for n := -1; n != len(out.edges); {
		n = len(out.edges)
		seen := map[*ssa.BasicBlock]bool{}
		work := []*ssa.BasicBlock{}
		if len(fn.Blocks) > 0 {
			work = append(work, fn.Blocks[0])
		}
		for len(work) > 0 {
			b := work[len(work)-1]
			work = work[:len(work)-1]
			if seen[b] {
				continue
			}
			seen[b] = true
			out.blocks[b] = true
			succs := b.Succs
			if endsProgramIn(b) {
				succs = nil
			}
			if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok && len(succs) == 2 {
				if c := l.val(iff.Cond, fr, 0); c != nil && c.Kind() == constant.Bool {
					if constant.BoolVal(c) {
						succs = succs[:1]
					} else {
						succs = succs[1:]
					}
				}
			}
			for _, s := range succs {
				out.edges[[2]*ssa.BasicBlock{b, s}] = true
			}
			for _, s := range b.Succs {
				if out.edges[[2]*ssa.BasicBlock{b, s}] {
					work = append(work, s)
				}
			}
		}
	}
	return out
}

func endsProgramIn(b *ssa.BasicBlock) bool {
	for _, in := range b.Instrs {
		if c, ok := in.(*ssa.Call); ok && noReturn(CalleeKey(&c.Call)) == "always" {
			return true
		}
	}
	return false
}

// edge is usable as "live" of shaper and lister.
func (l *setLiveness) edge(pred, b *ssa.BasicBlock, fr *shapeFrame) bool {
	// the frame of the function the block is in
	for f := fr; f != nil; f = f.up {
		if f.fn == b.Parent() {
			fr = f
			break
		}
	}
	lb := l.of(b.Parent(), fr)
	if pred == nil {
		return lb.blocks[b]
	}
	return lb.edges[[2]*ssa.BasicBlock{pred, b}]
}

// val is the constant a value has for the given settings, or nil.
func (l *setLiveness) val(v ssa.Value, fr *shapeFrame, d int) constant.Value {
	if d > 30 {
		return nil
	}
	if l.hook != nil {
		if c := l.hook(v, fr, d); c != nil {
			return c
		}
	}
	if _, conv := v.(*ssa.Convert); l.fixed != nil && !conv {
		if c, ok := l.fixed[l.p.vkey(v)]; ok {
			return c
		}
	}
	if fv := settingField(v); fv != nil {
		if c, ok := l.env[fv.Name()]; ok {
			return c
		}
		return nil
	}
	switch u := v.(type) {
	case *ssa.Const:
		return u.Value
	case *ssa.Convert:
		c := l.val(u.X, fr, d+1)
		if b, ok := u.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 && c != nil && c.Kind() == constant.Int {
			n, _ := constant.Int64Val(c)
			return constant.MakeString(string(rune(n)))
		}
		return c
	case *ssa.ChangeType:
		return l.val(u.X, fr, d+1)
	case *ssa.Parameter:
		if a, up, ok := frameArg(u, fr); ok {
			return l.val(a, up, d+1)
		}
		return nil
	case *ssa.UnOp:
		if u.Op == token.NOT {
			if c := l.val(u.X, fr, d+1); c != nil && c.Kind() == constant.Bool {
				return constant.MakeBool(!constant.BoolVal(c))
			}
			return nil
		}
	case *ssa.BinOp:
		x, y := l.val(u.X, fr, d+1), l.val(u.Y, fr, d+1)
		if x == nil || y == nil || x.Kind() != y.Kind() {
			return nil
		}
		switch u.Op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			return constant.MakeBool(constant.Compare(x, u.Op, y))
		case token.ADD, token.SUB:
			return constant.BinaryOp(x, u.Op, y)
		}
		return nil
	case *ssa.Lookup:
		if !u.CommaOk {
			val, _ := l.lookup(u, fr, d)
			return val
		}
	case *ssa.Extract:
		if lk, ok := u.Tuple.(*ssa.Lookup); ok {
			val, found := l.lookup(lk, fr, d)
			if u.Index == 0 {
				return val
			}
			return found
		}
	case *ssa.Phi:
		var out constant.Value
		lb := l.of(u.Parent(), fr)
		for i, e := range u.Edges {
			if !lb.edges[[2]*ssa.BasicBlock{u.Block().Preds[i], u.Block()}] {
				continue
			}
			c := l.val(e, fr, d+1)
			if c == nil || out != nil && (c.Kind() != out.Kind() || !constant.Compare(c, token.EQL, out)) {
				return nil
			}
			out = c
		}
		return out
	case *ssa.Call:
		if b, ok := u.Call.Value.(*ssa.Builtin); ok {
			if b.Name() == "len" {
				c := l.val(u.Call.Args[0], fr, d+1)
				switch {
				case c == nil:
				case c.Kind() == constant.String:
					return constant.MakeInt64(int64(len(constant.StringVal(c))))
				case c.Kind() == constant.Int:
					return c
				}
			}
			return nil
		}
		switch CalleeKey(&u.Call) {
		case "strings.TrimSpace", "strings.ToLower":
			c := l.val(u.Call.Args[0], fr, d+1)
			if c != nil && c.Kind() == constant.String {
				if CalleeKey(&u.Call) == "strings.ToLower" {
					return constant.MakeString(strings.ToLower(constant.StringVal(c)))
				}
				return constant.MakeString(strings.TrimSpace(constant.StringVal(c)))
			}
			return nil
		}
		f := u.Call.StaticCallee()
		if f == nil || !l.p.IsRepoFn(f) || len(f.Blocks) == 0 || f.Signature.Results().Len() != 1 {
			return nil
		}
		for x := fr; x != nil; x = x.up {
			if x.fn == f {
				return nil
			}
		}
		n := &shapeFrame{call: u, fn: f, up: fr}
		lb := l.of(f, n)
		var out constant.Value
		for _, b := range f.Blocks {
			ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok || !lb.blocks[b] {
				continue
			}
			x := resultOf(ret, 0)
			if x == nil {
				return nil
			}
			c := l.val(x, n, d+1)
			if c == nil || out != nil && !constant.Compare(c, token.EQL, out) {
				return nil
			}
			out = c
		}
		return out
	}
	if n := l.p.resolveStep(v); n != nil && n != v {
		return l.val(n, fr, d+1)
	}
	return nil
}

// readOnlyMap: what the variable contains is only looked up.
func (p *Program) readOnlyMap(g *ssa.Global) bool {
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ld, ok := in.(*ssa.UnOp)
				if !ok || ld.X != ssa.Value(g) {
					continue
				}
				for _, r := range *ld.Referrers() {
					switch x := r.(type) {
					case *ssa.Lookup, *ssa.Range, *ssa.DebugRef:
					case *ssa.Call:
						if CalleeKey(&x.Call) != "builtin.len" {
							return false
						}
					default:
						return false
					}
				}
			}
		}
	}
	return true
}

// lookup is what a map that is filled once contains.
func (l *setLiveness) lookup(u *ssa.Lookup, fr *shapeFrame, d int) (val, found constant.Value) {
	mk, ok := l.p.resolve(u.X).(*ssa.MakeMap)
	if !ok || d > 20 {
		return nil, nil
	}
	key := l.val(u.Index, fr, d+1)
	if key == nil {
		return nil, nil
	}
	for _, r := range *mk.Referrers() {
		switch x := r.(type) {
		case *ssa.MapUpdate:
			if x.Map != ssa.Value(mk) || x.Block() != mk.Block() {
				return nil, nil
			}
			k := l.val(x.Key, fr, d+1)
			if k == nil || k.Kind() != key.Kind() {
				return nil, nil
			}
			if constant.Compare(k, token.EQL, key) {
				if val = l.val(x.Value, fr, d+1); val == nil {
					return nil, nil
				}
				found = constant.MakeBool(true)
			}
		case *ssa.Lookup, *ssa.DebugRef:
		case *ssa.Store:
			g, ok := x.Addr.(*ssa.Global)
			if !ok || !l.p.readOnlyMap(g) {
				return nil, nil
			}
		default:
			return nil, nil
		}
	}
	if found != nil {
		return val, found
	}
	b, ok := mk.Type().Underlying().(*types.Map).Elem().Underlying().(*types.Basic)
	switch {
	case !ok:
	case b.Info()&types.IsString != 0:
		val = constant.MakeString("")
	case b.Info()&types.IsBoolean != 0:
		val = constant.MakeBool(false)
	case b.Info()&types.IsInteger != 0:
		val = constant.MakeInt64(0)
	}
	return val, constant.MakeBool(false)
}

// calls visits the calls that may be made for the settings, in the function and the functions of the repository it calls.
func (l *setLiveness) calls(fn *ssa.Function, fr *shapeFrame, visit func(c *ssa.Call, fr *shapeFrame) bool) {
	for x := fr; x != nil; x = x.up {
		if x.up != nil && x.up.fn == fn {
			return
		}
	}
	lb := l.of(fn, fr)
	for _, b := range fn.Blocks {
		if !lb.blocks[b] {
			continue
		}
		for _, in := range b.Instrs {
			c, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			if !visit(c, fr) {
				continue
			}
			if f := c.Call.StaticCallee(); f != nil && l.p.IsRepoFn(f) && len(f.Blocks) > 0 {
				rec := false
				for x := fr; x != nil; x = x.up {
					rec = rec || x.fn == f
				}
				if !rec {
					l.calls(f, &shapeFrame{call: c, fn: f, up: fr}, visit)
				}
			}
		}
	}
}

// always: each way through the function that doesn't end with an error passes an instruction accepted by hit, possibly
// within a function it calls, before one accepted by stop.
func (l *setLiveness) always(fn *ssa.Function, fr *shapeFrame, hit, stop func(in ssa.Instruction, fr *shapeFrame) bool) bool {
	stopped, end := l.reach(fn, fr, hit, stop, 0)
	return !stopped && !end
}

// reach tells whether a stop and whether the regular end are reached without a hit.
func (l *setLiveness) reach(fn *ssa.Function, fr *shapeFrame, hit, stop func(in ssa.Instruction, fr *shapeFrame) bool, d int) (stopped, end bool) {
	if d > 8 {
		return false, true
	}
	lb := l.of(fn, fr)
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		if seen[b] {
			return
		}
		seen[b] = true
		for _, in := range b.Instrs {
			if hit(in, fr) {
				return
			}
			if stop != nil && stop(in, fr) {
				stopped = true
				return
			}
			switch u := in.(type) {
			case *ssa.Call:
				f := u.Call.StaticCallee()
				if f == nil || !l.p.IsRepoFn(f) || len(f.Blocks) == 0 {
					continue
				}
				rec := false
				for x := fr; x != nil; x = x.up {
					rec = rec || x.fn == f
				}
				if rec {
					continue
				}
				st, e := l.reach(f, &shapeFrame{call: u, fn: f, up: fr}, hit, stop, d+1)
				stopped = stopped || st
				if !e {
					return
				}
			case *ssa.Return:
				if !errorReturn(u) {
					end = true
				}
				return
			}
		}
		for _, s := range b.Succs {
			if lb.edges[[2]*ssa.BasicBlock{b, s}] {
				walk(s)
			}
		}
	}
	if len(fn.Blocks) > 0 {
		walk(fn.Blocks[0])
	}
	return
}
