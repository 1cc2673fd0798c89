package main

import (
	"go/constant"
	"go/token"

	"golang.org/x/tools/go/ssa"
)

// natLoop is a natural loop of the control flow graph.
type natLoop struct {
	head    *ssa.BasicBlock
	blocks  map[*ssa.BasicBlock]bool
	latches []*ssa.BasicBlock
}

// loopsOf finds the natural loops of a function, by header.
func loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]*natLoop {
	out := map[*ssa.BasicBlock]*natLoop{}
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if !h.Dominates(b) {
				continue
			}
			l := out[h]
			if l == nil {
				l = &natLoop{head: h, blocks: map[*ssa.BasicBlock]bool{h: true}}
				out[h] = l
			}
			l.latches = append(l.latches, b)
			var add func(x *ssa.BasicBlock)
			add = func(x *ssa.BasicBlock) {
				if l.blocks[x] {
					return
				}
				l.blocks[x] = true
				for _, q := range x.Preds {
					add(q)
				}
			}
			add(b)
		}
	}
	return out
}

// innermost is the smallest loop containing the block.
func innermost(loops map[*ssa.BasicBlock]*natLoop, b *ssa.BasicBlock) (best *natLoop) {
	for _, l := range loops {
		if l.blocks[b] && (best == nil || len(l.blocks) < len(best.blocks)) {
			best = l
		}
	}
	return
}

// everyIteration: the block is run in each iteration of the loop that is finished (comes back to the header).
func (l *natLoop) everyIteration(b *ssa.BasicBlock) bool {
	for _, t := range l.latches {
		if !b.Dominates(t) {
			return false
		}
	}
	return l.blocks[b]
}

// exits lists the edges leaving the loop, except those into blocks that end the program.
func (l *natLoop) exits() (out [][2]*ssa.BasicBlock) {
	for b := range l.blocks {
		for _, s := range b.Succs {
			if !l.blocks[s] {
				out = append(out, [2]*ssa.BasicBlock{b, s})
			}
		}
	}
	return
}

// counting is a loop running an index over 0, 1, ..., n-1.
type counting struct {
	*natLoop
	index ssa.Value       // the value inside of the body
	bound ssa.Value       // n
	body  *ssa.BasicBlock // first block of the body
	after *ssa.BasicBlock // where the loop ends regularly
	test  *ssa.BasicBlock // the block deciding about the end
}

// regular: the edge is the regular end of the loop.
func (c *counting) regular(e [2]*ssa.BasicBlock) bool { return e[0] == c.test && e[1] == c.after }

// countingOf finds the counter of a loop.
func countingOf(l *natLoop) *counting {
	if l == nil {
		return nil
	}
	for _, in := range l.head.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if c := countingLoop(phi); c != nil {
			return c
		}
		for _, e := range phi.Edges {
			if c := countingLoop(e); c != nil && c.head == l.head {
				return c
			}
		}
	}
	return nil
}

func constInt(v ssa.Value) (int64, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
		return 0, false
	}
	return c.Int64(), true
}

// countingLoop recognises the loop that v is the index of: "for i := 0; i < n; i++", "for i := range x", "for i := range n".
func countingLoop(v ssa.Value) *counting {
	var phi *ssa.Phi
	index := v
	switch u := v.(type) {
	case *ssa.Phi:
		phi = u
	case *ssa.BinOp: // range loops: the index is phi+1, and phi starts at -1
		if q, ok := u.X.(*ssa.Phi); ok && u.Op == token.ADD && u.Block() == q.Block() {
			phi = q
		}
	}
	if phi == nil {
		return nil
	}
	l := loopsOf(phi.Parent())[phi.Block()]
	if l == nil {
		return nil
	}
	start, okS := int64(0), false
	var next ssa.Value
	for i, e := range phi.Edges {
		if l.blocks[phi.Block().Preds[i]] {
			if next != nil && next != e {
				return nil
			}
			next = e
			continue
		}
		n, ok := constInt(e)
		if !ok || okS && n != start {
			return nil
		}
		start, okS = n, true
	}
	inc, ok := next.(*ssa.BinOp)
	if !ok || !okS || inc.Op != token.ADD || inc.X != ssa.Value(phi) {
		return nil
	}
	if n, ok := constInt(inc.Y); !ok || n != 1 {
		return nil
	}
	if index == ssa.Value(inc) && start != -1 || index == ssa.Value(phi) && start != 0 {
		return nil
	}
	if index != ssa.Value(inc) && index != ssa.Value(phi) {
		return nil
	}
	if start == 0 && len(l.latches) == 1 {
		// "for i := range n": the test is at the end of the body, and before the loop
		t := l.latches[0]
		if iff, ok := t.Instrs[len(t.Instrs)-1].(*ssa.If); ok && t.Succs[0] == l.head {
			if cmp, ok := iff.Cond.(*ssa.BinOp); ok && cmp.Op == token.LSS && cmp.X == ssa.Value(inc) && !l.blocks[t.Succs[1]] {
				for i, q := range l.head.Preds {
					if l.blocks[l.head.Preds[i]] {
						continue
					}
					guard, ok := q.Instrs[len(q.Instrs)-1].(*ssa.If)
					if !ok || q.Succs[0] != l.head {
						return nil
					}
					g, ok := guard.Cond.(*ssa.BinOp)
					if !ok {
						return nil
					}
					zero, bound := g.X, g.Y
					if g.Op == token.GTR {
						zero, bound = bound, zero
					} else if g.Op != token.LSS {
						return nil
					}
					if n, ok := constInt(zero); !ok || n != 0 || bound != cmp.Y {
						return nil
					}
				}
				return &counting{natLoop: l, index: index, bound: cmp.Y, body: l.head, after: t.Succs[1], test: t}
			}
		}
	}
	iff, ok := l.head.Instrs[len(l.head.Instrs)-1].(*ssa.If)
	if !ok {
		return nil
	}
	cmp, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return nil
	}
	c := &counting{natLoop: l, index: index, test: l.head}
	body, after := l.head.Succs[0], l.head.Succs[1]
	switch {
	case cmp.Op == token.LSS && cmp.X == index, cmp.Op == token.NEQ && cmp.X == index:
		c.bound, c.body, c.after = cmp.Y, body, after
	case cmp.Op == token.GTR && cmp.Y == index, cmp.Op == token.NEQ && cmp.Y == index:
		c.bound, c.body, c.after = cmp.X, body, after
	case cmp.Op == token.GEQ && cmp.X == index, cmp.Op == token.EQL && cmp.X == index:
		c.bound, c.body, c.after = cmp.Y, after, body
	default:
		return nil
	}
	if !l.blocks[c.body] || l.blocks[c.after] {
		return nil
	}
	return c
}

// endsProgram: every way from the block ends the program (a fatal log message, os.Exit, panic).
func endsProgram(b *ssa.BasicBlock, seen map[*ssa.BasicBlock]bool) bool {
	if seen[b] {
		return true
	}
	seen[b] = true
	for _, in := range b.Instrs {
		switch i := in.(type) {
		case *ssa.Panic:
			return true
		case *ssa.Call:
			if noReturn(CalleeKey(&i.Call)) == "always" {
				return true
			}
		case *ssa.Return:
			return false
		}
	}
	for _, s := range b.Succs {
		if !endsProgram(s, seen) {
			return false
		}
	}
	return len(b.Succs) > 0
}
