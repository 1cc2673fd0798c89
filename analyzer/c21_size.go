package main

import (
	"go/token"

	"golang.org/x/tools/go/ssa"
)

// cacheSize checks the functions measuring the cache: every file counts with its size, whatever its size, name or kind.
func (e *evictCheck) cacheSize() {
	p := e.p
	for _, fn := range p.Funcs {
		if fn.Name() != "DirSizeInBytes" || len(fn.Blocks) == 0 {
			continue
		}
		f := fn
		var walk *ssa.Call
		for d := 0; d < 4 && f != nil; d++ {
			var into *ssa.Function
			for _, s := range CallSites(f) {
				c, ok := s.(*ssa.Call)
				if !ok {
					continue
				}
				if isWalkCall(&c.Call) {
					walk = c
				} else if g := c.Call.StaticCallee(); g != nil && p.IsRepoFn(g) && p.ReachesCall(g, isWalkCall) {
					into = g
				}
			}
			if walk != nil {
				break
			}
			f = into
		}
		if walk == nil {
			continue
		}
		k := CalleeKey(&walk.Call)
		if k != "path/filepath.Walk" && k != "path/filepath.WalkDir" {
			continue
		}
		w := &walkCheck{e: e, rep: e.r, fn: fn, sub: map[ssa.Value]ssa.Value{}, best: map[*ssa.Alloc]string{}}
		switch c := w.res(walk.Call.Args[1]).(type) {
		case *ssa.MakeClosure:
			w.cb = c.Fn.(*ssa.Function)
		case *ssa.Function:
			w.cb = c
		}
		if w.cb == nil || len(w.cb.Params) != 3 {
			continue
		}
		w.path, w.info, w.cbErr = w.cb.Params[0], w.cb.Params[1], w.cb.Params[2]
		e.r.Count("functions measuring the cache", 1)
		w.measures()
	}
}

func (w *walkCheck) measures() {
	p := w.e.p
	isRet := func(b *ssa.BasicBlock) bool {
		_, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		return ok && b != w.cb.Recover
	}
	done := false
	fail := func(at ssa.Instruction, key, format string, args ...any) {
		if !done {
			w.bad(key, p.At(at), format, args...)
		}
		done = true
	}
	p.eachPath(w.cb.Blocks[0], -1, allSuccs, isRet, func(c *cfgPath) {
		if done || !c.feasible() {
			return
		}
		facts := map[string]int{}
		for _, f := range c.facts() {
			fs, _ := w.fact(c, f, 0) // an unknown condition decides nothing
			for _, x := range fs {
				n := -1
				if x.val {
					n = 1
				}
				if facts[x.what] == -n {
					return
				}
				facts[x.what] = n
			}
		}
		adds, other := 0, false
		for i, b := range c.blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				al := w.cell(st.Addr)
				if al == nil || !intType(st.Val.Type()) {
					continue
				}
				v, _ := c.val(st.Val, i)
				bo, ok := v.(*ssa.BinOp)
				if !ok || bo.Op != token.ADD {
					other = true
					continue
				}
				x, y := bo.X, bo.Y
				if w.cell2(y) == al {
					x, y = y, x
				}
				if w.cell2(x) != al {
					other = true
				} else if v, _ := c.val(y, i); w.isSize(v) {
					adds++
				} else {
					other = true
				}
			}
		}
		ret := c.last().Instrs[len(c.last().Instrs)-1].(*ssa.Return)
		rv, _ := c.val(resultOf(ret, 0), len(c.blocks)-1)
		if ld, ok := rv.(*ssa.UnOp); ok && ld.Op == token.MUL {
			if g, ok := ld.X.(*ssa.Global); ok && (g.Name() == "SkipDir" || g.Name() == "SkipAll") {
				fail(ret, "size-skips", "files are left out when measuring the cache")
				return
			}
		}
		if k, ok := rv.(*ssa.Const); !ok || !k.IsNil() || facts["err"] == 1 || facts["infoerr"] == 1 {
			return
		}
		w.rep.Count("ways through the measuring of a file", 1)
		switch {
		case other:
			return // summed up in a way that isn't known
		case facts["dir"] == 1:
		case adds == 0:
			fail(ret, "size-misses", "a file may be left out when measuring the cache, which then grows beyond its limit")
		case adds > 1:
			fail(ret, "size-twice", "a file counts more than once when measuring the cache")
		}
	})
}

// cell2 is the variable that a value is loaded from.
func (w *walkCheck) cell2(v ssa.Value) *ssa.Alloc {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		return w.cell(u.X)
	}
	return nil
}
