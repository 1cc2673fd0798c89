package main

import (
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// comments checks the removal of comments: the line break before a comment is only removed with it if the comment has
// its line for itself, so that two lines are never joined.
func comments(p *Program, r *Report) {
	for _, fn := range p.Funcs {
		if !inPkg(fn, "parser") || !usesText(fn, "-->") {
			continue
		}
		r.Count("functions removing comments", 1)
		for f := range p.Reach(fn) {
			if f != fn && (!inPkg(f, "parser") || !smallPure(f)) {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					x := withoutEnd(in)
					if x == nil {
						continue
					}
					r.Count("line breaks removed with a comment", 1)
					if !knowsNext(p, in, x) {
						r.Bad("joined:"+FnName(fn), p.At(in), "the line break before a comment is removed although text may follow the comment, so that two lines are joined")
					}
				}
			}
		}
	}
}

func usesText(fn *ssa.Function, text string) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			for _, o := range in.Operands(nil) {
				if equalsText(*o, text) {
					return true
				}
			}
		}
	}
	return false
}

func equalsText(v ssa.Value, text string) bool {
	k, ok := v.(*ssa.Const)
	return ok && k.Value != nil && k.Value.Kind() == constant.String && constant.StringVal(k.Value) == text
}

// withoutEnd: the text whose last letter or line break is cut off.
func withoutEnd(in ssa.Instruction) ssa.Value {
	switch x := in.(type) {
	case *ssa.Slice:
		bo, ok := x.High.(*ssa.BinOp)
		if !ok || bo.Op != token.SUB || !stringType(x.X.Type()) {
			return nil
		}
		if k, ok := bo.Y.(*ssa.Const); !ok || k.Value == nil || k.Int64() != 1 {
			return nil
		}
		if c, ok := bo.X.(*ssa.Call); ok {
			if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" && c.Call.Args[0] == x.X {
				return x.X
			}
		}
	case *ssa.Call:
		switch CalleeKey(&x.Call) {
		case "strings.TrimSuffix", "strings.TrimRight":
			if equalsText(x.Call.Args[1], "\n") {
				return x.Call.Args[0]
			}
		}
	}
	return nil
}

// knowsNext: something on the way depends on a line break at the start of another text.
func knowsNext(p *Program, in ssa.Instruction, x ssa.Value) bool {
	seen := map[ssa.Value]bool{}
	var about func(v ssa.Value, d int) bool
	inside := func(f *ssa.Function, d int) bool {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if v, ok := i.(ssa.Value); ok && about(v, d+1) {
					return true
				}
			}
		}
		return false
	}
	about = func(v ssa.Value, d int) bool {
		if v == nil || d > 6 || seen[v] {
			return false
		}
		seen[v] = true
		switch c := v.(type) {
		case *ssa.Call:
			k := CalleeKey(&c.Call)
			if (k == "strings.HasPrefix" || k == "strings.CutPrefix") && equalsText(c.Call.Args[1], "\n") && c.Call.Args[0] != x {
				return true
			}
			if f := c.Call.StaticCallee(); f != nil && p.IsRepoFn(f) && inside(f, d) {
				return true
			}
			for _, a := range c.Call.Args {
				if about(a, d+1) {
					return true
				}
			}
		case *ssa.Extract:
			return about(c.Tuple, d+1)
		case *ssa.BinOp:
			for i, o := range []ssa.Value{c.X, c.Y} {
				k, ok := o.(*ssa.Const)
				if !ok || k.Value == nil || k.Value.Kind() != constant.Int || k.Int64() != '\n' {
					continue
				}
				l := []ssa.Value{c.Y, c.X}[i]
				if ix, ok := l.(*ssa.Lookup); ok && ix.X != x {
					if k, ok := ix.Index.(*ssa.Const); ok && k.Int64() == 0 {
						return true
					}
				}
				if ix, ok := l.(*ssa.Index); ok && ix.X != x {
					if k, ok := ix.Index.(*ssa.Const); ok && k.Int64() == 0 {
						return true
					}
				}
			}
			return about(c.X, d+1) || about(c.Y, d+1)
		case *ssa.UnOp:
			return about(c.X, d+1)
		case *ssa.Phi:
			if bt, ok := c.Type().Underlying().(*types.Basic); !ok || bt.Kind() != types.Bool {
				return false
			}
			for i, e := range c.Edges {
				if about(e, d+1) {
					return true
				}
				// a condition joined by && or ||
				q := c.Block().Preds[i]
				for _, q := range append([]*ssa.BasicBlock{q}, q.Preds...) {
					if iff, ok := q.Instrs[len(q.Instrs)-1].(*ssa.If); ok && about(iff.Cond, d+1) {
						return true
					}
				}
			}
		}
		return false
	}
	for c := range controlling(in.Block()) {
		if about(c.Instrs[len(c.Instrs)-1].(*ssa.If).Cond, 0) {
			return true
		}
	}
	return false
}

// controlling: the blocks whose conditions decide whether the block is run.
func controlling(b *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	out := map[*ssa.BasicBlock]bool{}
	work := []*ssa.BasicBlock{b}
	for len(work) > 0 {
		x := work[0]
		work = work[1:]
		for _, c := range b.Parent().Blocks {
			if _, ok := c.Instrs[len(c.Instrs)-1].(*ssa.If); !ok || out[c] {
				continue
			}
			if alwaysPasses(c.Succs[0], x) != alwaysPasses(c.Succs[1], x) {
				out[c] = true
				work = append(work, c)
			}
		}
	}
	return out
}

// alwaysPasses: every way from s to the end of the function runs through x.
func alwaysPasses(s, x *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{x: true}
	var escapes func(b *ssa.BasicBlock) bool
	escapes = func(b *ssa.BasicBlock) bool {
		if seen[b] {
			return false
		}
		seen[b] = true
		if len(b.Succs) == 0 {
			return true
		}
		for _, y := range b.Succs {
			if escapes(y) {
				return true
			}
		}
		return false
	}
	return !escapes(s)
}
