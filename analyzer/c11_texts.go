package main

import (
	"golang.org/x/tools/go/ssa"
)

// partition: the functions which expand texts with placeholders cut them into the placeholders and the texts between
// them. Each of these texts is handed on unless it is empty, each placeholder is looked up, and what is behind the last
// placeholder is handed on as well: no character gets lost at a cut.
func (c *contentCheck) partition() {
	var bounds *boundCheck
	for _, fn := range c.p.Funcs {
		if !inPkg(fn, "generator") || !c.callsSimple(fn) || len(fn.Blocks) == 0 {
			continue
		}
		if bounds == nil {
			bounds = newBounds(c.p, c.r)
		}
		for _, l := range loopsOf(fn) {
			c.cuts(fn, l, bounds)
		}
	}
}

// a piece of the text, handed to a function
type textPiece struct {
	call *ssa.Call
	sl   *ssa.Slice
}

func (c *contentCheck) cuts(fn *ssa.Function, l *natLoop, bc *boundCheck) {
	p, r := c.p, c.r
	// the pieces
	var plain, keys []textPiece
	var handed []*ssa.BasicBlock
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			call, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			isPlain, isKey := false, false
			for _, t := range p.repoCallees(&call.Call) {
				isPlain = isPlain || c.simple[t]
			}
			if call.Call.IsInvoke() && call.Call.Signature().Results().Len() == 2 && c.elementIface(call.Call.Signature().Results().At(0).Type()) && len(call.Call.Args) == 1 {
				isKey = true
			}
			if !isPlain && !isKey {
				continue
			}
			if isPlain {
				handed = append(handed, b)
			}
			for _, a := range call.Call.Args {
				if sl, ok := p.resolve(a).(*ssa.Slice); ok {
					if isPlain {
						plain = append(plain, textPiece{call, sl})
					} else if l.blocks[b] {
						keys = append(keys, textPiece{call, sl})
					}
				}
			}
		}
	}
	if len(keys) != 1 || keys[0].sl.Low == nil || keys[0].sl.High == nil {
		return
	}
	key := keys[0]
	text := key.sl.X
	// the place up to which the text has been dealt with
	var pos *ssa.Phi
	var gaps, tails []textPiece
	for _, t := range plain {
		if !bc.sameValue(t.sl.X, text) {
			continue
		}
		if ph, ok := t.sl.Low.(*ssa.Phi); ok && ph.Block() == l.head {
			if pos != nil && pos != ph {
				return
			}
			pos = ph
			if l.blocks[t.call.Block()] {
				gaps = append(gaps, t)
			} else {
				tails = append(tails, t)
			}
		}
	}
	if pos == nil || len(gaps) == 0 || len(tails) == 0 {
		return
	}
	r.Count("texts cut at placeholders", 1)
	same := func(x, y ssa.Value, b *ssa.BasicBlock) bool {
		d := bc.intOf(x).add(bc.intOf(y), -1)
		return bc.prove(d, b, len(b.Instrs)) && bc.prove(d.add(d, -2), b, len(b.Instrs))
	}
	name := FnName(fn)
	start := bc.intOf(pos)
	// each round
	if !l.everyIteration(key.call.Block()) {
		r.Bad("skipped:"+name, p.At(key.call), "%s does not look up every placeholder of the text", name)
	}
	for _, g := range gaps {
		if g.sl.High == nil || !same(g.sl.High, key.sl.Low, g.call.Block()) {
			r.Bad("gap:"+name, p.At(g.call), "the text handed on before a placeholder does not reach up to it")
		}
	}
	for _, lt := range l.latches {
		for i, e := range pos.Edges {
			if l.head.Preds[i] == lt && !same(e, key.sl.High, lt) {
				r.Bad("cut:"+name, p.At(key.call), "%s does not go on directly behind the placeholder", name)
			}
		}
	}
	stop := map[*ssa.BasicBlock]bool{}
	for _, g := range gaps {
		stop[g.call.Block()] = true
	}
	empty := func(end lsum) func(from, to *ssa.BasicBlock) bool {
		return func(from, to *ssa.BasicBlock) bool {
			g := end.add(start, -1)
			f := bc.onEdge(from, to)
			q := &boundProof{c: bc, steps: 4000, open: map[string]int64{}, failed: map[string]int64{}}
			return q.holds(g, f, from, 0)
		}
	}
	isLatch := func(b *ssa.BasicBlock) bool {
		for _, lt := range l.latches {
			if lt == b {
				return true
			}
		}
		return false
	}
	if w := c.around(l.head, stop, func(b *ssa.BasicBlock) bool { return l.blocks[b] }, isLatch, empty(bc.intOf(key.sl.Low))); w != nil {
		r.Bad("between:"+name, p.At(gaps[0].call), "%s can leave out the text before a placeholder although it isn't empty", name)
	}
	// behind the last one
	stop = map[*ssa.BasicBlock]bool{}
	for _, t := range tails {
		if t.sl.High == nil {
			stop[t.call.Block()] = true
		} else if d := bc.lenOf(text).add(bc.intOf(t.sl.High), -1); bc.prove(d, t.call.Block(), indexOf(t.call)) {
			stop[t.call.Block()] = true
		}
	}
	success := func(b *ssa.BasicBlock) bool {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		return ok && !c.failing(ret)
	}
	for _, e := range l.exits() {
		if e[0] != l.head {
			if !c.failsFrom(e[0], e[1], nil) {
				r.Bad("early:"+name, p.At(key.call), "%s can stop before the last placeholder", name)
			}
			continue
		}
		edge := empty(bc.lenOf(text))
		if stop[e[1]] || edge(e[0], e[1]) {
			continue
		}
		if w := c.around(e[1], stop, func(b *ssa.BasicBlock) bool { return !l.blocks[b] }, success, edge); w != nil {
			r.Bad("tail:"+name, p.At(tails[0].call), "%s can leave out the text behind the last placeholder although it isn't empty", name)
		}
	}
	// texts without placeholders
	stop = map[*ssa.BasicBlock]bool{l.head: true}
	for _, b := range handed {
		stop[b] = true
	}
	whole := func(from, to *ssa.BasicBlock) bool {
		f := bc.onEdge(from, to)
		q := &boundProof{c: bc, steps: 4000, open: map[string]int64{}, failed: map[string]int64{}}
		return q.holds(bc.lenOf(text), f, from, 0)
	}
	if w := c.around(fn.Blocks[0], stop, func(*ssa.BasicBlock) bool { return true }, success, whole); w != nil {
		r.Bad("plain:"+name, p.At(key.call), "%s can leave out a text without placeholders", name)
	}
}

// around finds a way through the blocks from the start to a goal that avoids the stops and the edges which are fine.
func (c *contentCheck) around(start *ssa.BasicBlock, stop map[*ssa.BasicBlock]bool, in, goal func(*ssa.BasicBlock) bool, fine func(from, to *ssa.BasicBlock) bool) *ssa.BasicBlock {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock) *ssa.BasicBlock
	walk = func(b *ssa.BasicBlock) *ssa.BasicBlock {
		if seen[b] || stop[b] || !in(b) {
			return nil
		}
		seen[b] = true
		if goal(b) {
			return b
		}
		for _, s := range b.Succs {
			if len(b.Succs) > 1 && in(s) && fine(b, s) {
				continue
			}
			if w := walk(s); w != nil {
				return w
			}
		}
		return nil
	}
	return walk(start)
}

// sameValue: the values are the same one.
func (c *boundCheck) sameValue(x, y ssa.Value) bool {
	return x == y || c.ident(x) == c.ident(y)
}
