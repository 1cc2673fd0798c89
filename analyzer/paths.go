package main

import (
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// A cfgPath is a path through the blocks of one function. Values are read along it: a phi has the value of the edge
// the path took, a condition the outcome the path chose.
type cfgPath struct {
	p      *Program
	blocks []*ssa.BasicBlock
	// start: index in the first block after which the path begins
	start int
}

// eachPath visits all paths without repeated blocks from a block to a block accepted by goal; live gives the
// successors. It returns false if there are too many.
func (p *Program) eachPath(from *ssa.BasicBlock, start int, live func(b *ssa.BasicBlock) []*ssa.BasicBlock, goal func(b *ssa.BasicBlock) bool, visit func(w *cfgPath)) bool {
	n := 0
	ok := true
	on := map[*ssa.BasicBlock]bool{}
	var path []*ssa.BasicBlock
	var walk func(b *ssa.BasicBlock, first bool)
	walk = func(b *ssa.BasicBlock, first bool) {
		if !ok {
			return
		}
		n++
		if n > 200000 {
			ok = false
			return
		}
		path = append(path, b)
		defer func() { path = path[:len(path)-1] }()
		if !first && goal(b) {
			visit(&cfgPath{p: p, blocks: append([]*ssa.BasicBlock{}, path...), start: start})
			return
		}
		if on[b] {
			return
		}
		on[b] = true
		for _, in := range b.Instrs {
			if c, isC := in.(*ssa.Call); isC && noReturn(CalleeKey(&c.Call)) == "always" {
				on[b] = false
				return
			}
		}
		if first && goal(b) && len(b.Succs) == 0 {
			visit(&cfgPath{p: p, blocks: append([]*ssa.BasicBlock{}, path...), start: start})
		}
		for _, s := range live(b) {
			if s == from && goal(from) {
				path = append(path, s)
				visit(&cfgPath{p: p, blocks: append([]*ssa.BasicBlock{}, path...), start: start})
				path = path[:len(path)-1]
				continue
			}
			if !on[s] || goal(s) {
				walk(s, false)
			}
		}
		on[b] = false
	}
	walk(from, true)
	return ok
}

func allSuccs(b *ssa.BasicBlock) []*ssa.BasicBlock { return b.Succs }

// at is the last position of a block on the path up to position i, or -1.
func (w *cfgPath) at(b *ssa.BasicBlock, i int) int {
	for ; i >= 0; i-- {
		if w.blocks[i] == b {
			return i
		}
	}
	return -1
}

// val is the value of v as seen at position i of the path: phis are replaced by what the path chose. j is the
// position at which the result is to be read.
func (w *cfgPath) val(v ssa.Value, i int) (ssa.Value, int) {
	for {
		switch u := v.(type) {
		case *ssa.Phi:
			j := w.at(u.Block(), i)
			if j <= 0 {
				return v, i
			}
			e := -1
			for k, pr := range u.Block().Preds {
				if pr == w.blocks[j-1] {
					e = k
				}
			}
			if e < 0 {
				return v, i
			}
			v, i = u.Edges[e], j-1
			continue
		case *ssa.ChangeType:
			v = u.X
			continue
		case *ssa.MakeInterface:
			v = u.X
			continue
		case *ssa.ChangeInterface:
			v = u.X
			continue
		case *ssa.UnOp:
			if u.Op == token.MUL {
				if s, j, ok := w.stored(u, i); ok {
					v, i = s, j
					continue
				}
			}
		}
		return v, i
	}
}

// stored: the value a load of a local variable gives, from the last store on the path before it.
func (w *cfgPath) stored(u *ssa.UnOp, i int) (ssa.Value, int, bool) {
	al, ok := u.X.(*ssa.Alloc)
	if !ok || al.Referrers() == nil {
		return nil, 0, false
	}
	for _, r := range *al.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Addr != ssa.Value(al) {
				return nil, 0, false
			}
		case *ssa.UnOp, *ssa.DebugRef:
		default:
			return nil, 0, false
		}
	}
	j := w.at(u.Block(), i)
	if j < 0 {
		return nil, 0, false
	}
	before := false
	for k := j; k >= 0; k-- {
		b := w.blocks[k]
		for n := len(b.Instrs) - 1; n >= 0; n-- {
			if k == j && b.Instrs[n] == ssa.Instruction(u) {
				before = true
				continue
			}
			if k == j && !before {
				continue
			}
			if st, isS := b.Instrs[n].(*ssa.Store); isS && st.Addr == ssa.Value(al) {
				return st.Val, k, true
			}
		}
	}
	return nil, 0, false
}

// A pathFact is a condition with the outcome chosen by the path.
type pathFact struct {
	cond ssa.Value
	at   int
	val  bool
}

func (w *cfgPath) facts() (out []pathFact) {
	for i := 0; i+1 < len(w.blocks); i++ {
		b := w.blocks[i]
		br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || b.Succs[0] == b.Succs[1] {
			continue
		}
		c, j := w.val(br.Cond, i)
		v := b.Succs[0] == w.blocks[i+1]
		for {
			n, isN := c.(*ssa.UnOp)
			if !isN || n.Op != token.NOT {
				break
			}
			c, j = w.val(n.X, j)
			v = !v
		}
		out = append(out, pathFact{c, j, v})
	}
	return
}

// feasible is false if the path contradicts itself: a constant condition taken the wrong way, or the same comparison
// of the same values decided in two ways.
func (w *cfgPath) feasible() bool {
	seen := map[ssa.Value]bool{}
	nils := map[ssa.Value]bool{}
	for _, f := range w.facts() {
		if c, ok := f.cond.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Bool && constant.BoolVal(c.Value) != f.val {
			return false
		}
		if v, ok := seen[f.cond]; ok && v != f.val {
			if in, isIn := f.cond.(ssa.Instruction); isIn && !w.twice(in.Block()) {
				return false
			}
		}
		seen[f.cond] = f.val
		if b, ok := f.cond.(*ssa.BinOp); ok && (b.Op == token.EQL || b.Op == token.NEQ) {
			x, _ := w.val(b.X, f.at)
			y, _ := w.val(b.Y, f.at)
			xc, isX := x.(*ssa.Const)
			yc, isY := y.(*ssa.Const)
			if isX && isY && xc.Value != nil && yc.Value != nil && xc.Value.Kind() == yc.Value.Kind() &&
				constant.Compare(xc.Value, b.Op, yc.Value) != f.val {
				return false
			}
		}
		if x, isNil, ok := w.nilTest(f); ok {
			if c, isC := x.(*ssa.Const); isC {
				if c.IsNil() != isNil {
					return false
				}
				continue
			}
			if v, ok := nils[x]; ok && v != isNil {
				if in, isIn := x.(ssa.Instruction); isIn && !w.twice(in.Block()) {
					return false
				}
			}
			nils[x] = isNil
		}
	}
	return true
}

func (w *cfgPath) twice(b *ssa.BasicBlock) bool {
	n := 0
	for _, x := range w.blocks {
		if x == b {
			n++
		}
	}
	return n > 1
}

// nilTest: the fact says that a value is nil or not.
func (w *cfgPath) nilTest(f pathFact) (ssa.Value, bool, bool) {
	b, ok := f.cond.(*ssa.BinOp)
	if !ok || b.Op != token.EQL && b.Op != token.NEQ {
		return nil, false, false
	}
	x, _ := w.val(b.X, f.at)
	y, _ := w.val(b.Y, f.at)
	if c, isC := x.(*ssa.Const); isC && c.IsNil() {
		x, y = y, x
	}
	if c, isC := y.(*ssa.Const); !isC || !c.IsNil() {
		return nil, false, false
	}
	return x, (b.Op == token.EQL) == f.val, true
}

// isNil tells what the path knows about an error or pointer: 1 nil, -1 not nil, 0 unknown.
func (w *cfgPath) isNil(v ssa.Value, i int) int {
	v, i = w.val(v, i)
	if c, ok := v.(*ssa.Const); ok && c.IsNil() {
		return 1
	}
	for _, f := range w.facts() {
		if x, n, ok := w.nilTest(f); ok && x == v {
			if n {
				return 1
			}
			return -1
		}
	}
	if c, ok := v.(*ssa.Call); ok {
		k := CalleeKey(&c.Call)
		switch {
		case isErrWrap(k):
			return w.isNil(c.Call.Args[0], i)
		case isNewError(k):
			return -1
		}
	}
	return 0
}

// rootError follows an error through wrapping.
func (w *cfgPath) rootError(v ssa.Value, i int) ssa.Value {
	for {
		v, i = w.val(v, i)
		c, ok := v.(*ssa.Call)
		if !ok || !isErrWrap(CalleeKey(&c.Call)) {
			return v
		}
		v = c.Call.Args[0]
	}
}

func isNewError(k string) bool {
	switch k {
	case "errors.New", "fmt.Errorf", "github.com/pkg/errors.New", "github.com/pkg/errors.Errorf":
		return true
	}
	return false
}

// calls visits the calls on the path in order (those after the start in the first block).
func (w *cfgPath) calls(visit func(c *ssa.Call, at int)) {
	for i, b := range w.blocks {
		for n, in := range b.Instrs {
			if i == 0 && n <= w.start {
				continue
			}
			if c, ok := in.(*ssa.Call); ok {
				visit(c, i)
			}
		}
	}
}

func (w *cfgPath) last() *ssa.BasicBlock { return w.blocks[len(w.blocks)-1] }

// errorOf is the error result of a call.
func errorOf(c *ssa.Call) ssa.Value {
	if isErrorType(c.Type()) {
		return c
	}
	t, ok := c.Type().(*types.Tuple)
	if !ok {
		return nil
	}
	for _, r := range *c.Referrers() {
		if ex, isEx := r.(*ssa.Extract); isEx && isErrorType(t.At(ex.Index).Type()) {
			return ex
		}
	}
	return nil
}

func hasErrorResult(c *ssa.CallCommon) bool {
	res := c.Signature().Results()
	for i := 0; i < res.Len(); i++ {
		if isErrorType(res.At(i).Type()) {
			return true
		}
	}
	return false
}
