package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C25", Title: "Malformed wikitext never crashes the program",
		Rule: "each access to a list, string or match result is within its bounds: shown from linear inequalities over integers and lengths, which follow from conditions on the way to the access, definitions, earlier accesses and what functions return, by induction over loops; each assertion of a type is tested or follows from the way the value was made; no division by zero, negative count or write to a missing map",
		Run:  runC25})
}

// --- linear inequalities ---

// A bnode is an integer: a value, the length of a value or an entry of a match result.
type bnode struct {
	kind byte // 'v', 'l', 'i'
	v    ssa.Value
	k    int
	key  string
}

// A lsum is the sum of nodes times factors, plus a constant.
type lsum struct {
	c int64
	t map[string]int64
}

func sumConst(c int64) lsum { return lsum{c: c} }

func (a lsum) add(b lsum, f int64) lsum {
	out := lsum{c: a.c + f*b.c, t: map[string]int64{}}
	for k, v := range a.t {
		out.t[k] = v
	}
	for k, v := range b.t {
		if n := out.t[k] + f*v; n == 0 {
			delete(out.t, k)
		} else {
			out.t[k] = n
		}
	}
	return out
}

func (a lsum) vars() string {
	var ks []string
	for k, v := range a.t {
		ks = append(ks, fmt.Sprintf("%+d*%s", v, k))
	}
	sort.Strings(ks)
	return strings.Join(ks, " ")
}

func (a lsum) String() string { return fmt.Sprintf("%s %+d", a.vars(), a.c) }

// facts at a place of a function
type boundFacts struct {
	le      []lsum // each <= 0
	ne      []lsum // each != 0
	present map[string]bool
	// texts and the patterns or texts they contain
	match map[string]bool
	holds map[string][]string
	// truth values decided on the way
	conds map[ssa.Value]bool
}

type boundCheck struct {
	p     *Program
	r     *Report
	place *placeCheck
	nodes map[string]bnode
	steps int
	// facts about results of functions
	sums      map[string]*boundSummary
	busy      map[*ssa.Function]bool
	facts     map[*ssa.BasicBlock]*boundFacts
	ids       map[ssa.Value]int
	unchanged map[string]bool
	calls     map[string]bool
	// bounds of results being shown
	least    map[string]int64
	closings map[*ssa.Function]*closing
	trying   map[string]*boundSummary
	assumed  int
	depth    int
	trace    bool
}

func newBounds(p *Program, r *Report) *boundCheck {
	c := &boundCheck{p: p, r: r, nodes: map[string]bnode{}, sums: map[string]*boundSummary{}, busy: map[*ssa.Function]bool{}, facts: map[*ssa.BasicBlock]*boundFacts{}, ids: map[ssa.Value]int{}, unchanged: map[string]bool{}, calls: map[string]bool{}, trying: map[string]*boundSummary{}, least: map[string]int64{}, closings: map[*ssa.Function]*closing{}}
	c.place = &placeCheck{p: p, r: r, sh: &shaper{p: p, max: 512}}
	return c
}

func runC25(p *Program, r *Report) {
	c := newBounds(p, r)
	for _, fn := range p.Funcs {
		if len(fn.Blocks) == 0 || fn.Synthetic != "" {
			continue
		}
		c.function(fn)
	}
	r.AtLeast("accesses by index", 60)
	r.AtLeast("parts taken", 60)
}

func (c *boundCheck) id(v ssa.Value) string {
	n, ok := c.ids[v]
	if !ok {
		n = len(c.ids) + 1
		c.ids[v] = n
	}
	return fmt.Sprintf("%s#%d", v.Name(), n)
}

func (c *boundCheck) node(kind byte, v ssa.Value, k int) lsum {
	key := fmt.Sprintf("%c%d:%s", kind, k, c.ident(v))
	if _, ok := c.nodes[key]; !ok {
		c.nodes[key] = bnode{kind: kind, v: v, k: k, key: key}
	}
	return lsum{t: map[string]int64{key: 1}}
}

// ident names a value; equal fields of the same unchanged variable get the same name.
func (c *boundCheck) ident(v ssa.Value) string {
	switch u := v.(type) {
	case *ssa.Const:
		if t := constText(u); t != "\x00" {
			return fmt.Sprintf("%q", t)
		}
	case *ssa.BinOp:
		if b, ok := u.Type().Underlying().(*types.Basic); ok && u.Op == token.ADD && b.Info()&types.IsString != 0 {
			return "(" + c.ident(u.X) + "+" + c.ident(u.Y) + ")"
		}
	}
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		switch a := u.X.(type) {
		case *ssa.FieldAddr:
			if base := c.stable(a, u.Parent(), 0); base != "" {
				return base
			}
		case *ssa.Global:
			if len(c.p.GlobalStores(a)) <= 1 {
				return "global:" + a.String()
			}
		case *ssa.Alloc:
			if c.final(a, u) {
				return "final:" + c.id(a)
			}
		case *ssa.IndexAddr:
			if c.elementsUnchanged(u.Parent(), u.Type()) {
				return c.ident(a.X) + "[" + c.intOf(a.Index).String() + "]"
			}
		}
	}
	if u, ok := v.(*ssa.Field); ok {
		return c.ident(u.X) + "." + fmt.Sprint(u.Field)
	}
	return c.id(v)
}

// stable names a field that isn't changed in the function.
func (c *boundCheck) stable(a *ssa.FieldAddr, fn *ssa.Function, d int) string {
	fv := fieldVar(a.X.Type(), a.Field)
	if fv == nil || d > 5 {
		return ""
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if st, ok := in.(*ssa.Store); ok {
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok && fieldVar(fa.X.Type(), fa.Field) == fv {
					return ""
				}
			}
		}
	}
	switch x := a.X.(type) {
	case *ssa.FieldAddr:
		if s := c.stable(x, fn, d+1); s != "" {
			return s + "." + fv.Name()
		}
	case *ssa.Alloc:
		n := 0
		for _, r := range *x.Referrers() {
			switch u := r.(type) {
			case *ssa.Store:
				if u.Addr != ssa.Value(x) {
					return ""
				}
				n++
			case *ssa.FieldAddr, *ssa.UnOp, *ssa.DebugRef:
			default:
				return ""
			}
		}
		if n <= 1 {
			return c.id(x) + "." + fv.Name()
		}
	case *ssa.Parameter:
		// a pointer: callees may change what it points to
		if !c.storedWithin(fn, fv) {
			return c.id(x) + "." + fv.Name()
		}
	}
	return ""
}

// storedWithin: the function or one it calls sets the field.
func (c *boundCheck) storedWithin(fn *ssa.Function, fv *types.Var) bool {
	key := fmt.Sprintf("%p %p", fn, fv)
	if v, ok := c.unchanged[key]; ok {
		return v
	}
	found := false
	check := func(f *ssa.Function) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok && fieldVar(fa.X.Type(), fa.Field) == fv {
						found = true
					}
				}
			}
		}
	}
	check(fn)
	for f := range c.p.Reach(fn) {
		if c.p.IsRepoFn(f) {
			check(f)
		}
	}
	c.unchanged[key] = found
	return found
}

// final: all stores to the variable happened before it's read.
func (c *boundCheck) final(a *ssa.Alloc, at *ssa.UnOp) bool {
	var stores []*ssa.Store
	for _, r := range *a.Referrers() {
		switch u := r.(type) {
		case *ssa.Store:
			if u.Addr != ssa.Value(a) {
				return false
			}
			stores = append(stores, u)
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.MakeClosure:
			g := u.Fn.(*ssa.Function)
			for i, b := range u.Bindings {
				if b != ssa.Value(a) {
					continue
				}
				for _, q := range *g.FreeVars[i].Referrers() {
					switch q.(type) {
					case *ssa.UnOp, *ssa.DebugRef:
					default:
						return false
					}
				}
			}
		default:
			return false
		}
	}
	if at.Parent() != a.Parent() {
		return false
	}
	after := map[*ssa.BasicBlock]bool{}
	var visit func(b *ssa.BasicBlock)
	visit = func(b *ssa.BasicBlock) {
		for _, s := range b.Succs {
			if !after[s] {
				after[s] = true
				visit(s)
			}
		}
	}
	visit(at.Block())
	if after[a.Block()] {
		return false
	}
	for _, st := range stores {
		if after[st.Block()] {
			return false
		}
		if st.Block() == at.Block() {
			for _, in := range st.Block().Instrs {
				if in == ssa.Instruction(at) {
					return false
				}
				if in == ssa.Instruction(st) {
					break
				}
			}
		}
	}
	return true
}

// elementsUnchanged: the function and what it calls don't change elements of lists of such a type.
func (c *boundCheck) elementsUnchanged(fn *ssa.Function, t types.Type) bool {
	key := fmt.Sprintf("%p %s", fn, t)
	if v, ok := c.unchanged[key]; ok {
		return v
	}
	reach := c.p.Reach(fn)
	ok := true
	check := func(f *ssa.Function) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, isSt := in.(*ssa.Store); isSt {
					if ia, isIa := st.Addr.(*ssa.IndexAddr); isIa && types.Identical(st.Val.Type(), t) {
						if _, isArr := deref(ia.X.Type()).Underlying().(*types.Array); !isArr {
							ok = false
						}
					}
				}
				if k, isCall := in.(*ssa.Call); isCall {
					switch CalleeKey(&k.Call) {
					case "sort.Strings", "sort.Slice", "slices.Sort", "sort.Sort", "builtin.copy", "slices.Reverse", "slices.Delete", "slices.Insert":
						ok = false
					case "builtin.append":
						if _, part := k.Call.Args[0].(*ssa.Slice); part && types.Identical(listElem(k.Call.Args[0].Type()), t) {
							ok = false
						}
					}
				}
			}
		}
	}
	check(fn)
	if ok {
		for f := range reach {
			if c.p.IsRepoFn(f) {
				check(f)
			}
		}
	}
	c.unchanged[key] = ok
	return ok
}

func listElem(t types.Type) types.Type {
	if l, ok := t.Underlying().(*types.Slice); ok {
		return l.Elem()
	}
	return types.Typ[types.Invalid]
}

func isTextOrList(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Slice, *types.Array:
		return true
	case *types.Basic:
		return u.Info()&types.IsString != 0
	case *types.Pointer:
		_, ok := u.Elem().Underlying().(*types.Array)
		return ok
	}
	return false
}

func isInteger(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// lenOf is the length of a text or list.
func (c *boundCheck) lenOf(v ssa.Value) lsum { return c.lenD(v, 0) }

func (c *boundCheck) lenD(v ssa.Value, d int) lsum {
	if d > 20 {
		return c.node('l', v, 0)
	}
	if at, ok := deref(v.Type()).Underlying().(*types.Array); ok {
		return sumConst(at.Len())
	}
	switch u := v.(type) {
	case *ssa.Const:
		if u.Value == nil {
			return sumConst(0)
		}
		if u.Value.Kind() == constant.String {
			return sumConst(int64(len(constant.StringVal(u.Value))))
		}
	case *ssa.Slice:
		lo, hi := sumConst(0), c.lenD(u.X, d+1)
		if u.Low != nil {
			lo = c.intOf(u.Low)
		}
		if u.High != nil {
			hi = c.intOf(u.High)
		}
		return hi.add(lo, -1)
	case *ssa.BinOp:
		if u.Op == token.ADD {
			return c.lenD(u.X, d+1).add(c.lenD(u.Y, d+1), 1)
		}
	case *ssa.UnOp:
		if g, ok := u.X.(*ssa.Global); ok && u.Op == token.MUL {
			if st := c.p.GlobalStores(g); len(st) == 1 {
				if x := c.lenD(st[0].Val, d+1); len(x.t) == 0 {
					return x
				}
			}
		}
	case *ssa.ChangeType:
		return c.lenD(u.X, d+1)
	case *ssa.Convert:
		if isTextOrList(u.X.Type()) && byteLike(u.X.Type()) && byteLike(u.Type()) {
			return c.lenD(u.X, d+1)
		}
	case *ssa.MakeSlice:
		return c.intOf(u.Len)
	case *ssa.Call:
		switch CalleeKey(&u.Call) {
		case "builtin.append":
			out := c.lenD(u.Call.Args[0], d+1)
			if len(u.Call.Args) > 1 {
				out = out.add(c.lenD(u.Call.Args[1], d+1), 1)
			}
			return out
		case "encoding/hex.EncodeToString":
			return sumConst(0).add(c.lenD(u.Call.Args[0], d+1), 2)
		case "strings.Clone", "slices.Clone":
			return c.lenD(u.Call.Args[0], d+1)
		case "strings.Replace":
			// a part of the text is replaced once
			if k, ok := u.Call.Args[3].(*ssa.Const); ok && k.Value != nil && k.Value.ExactString() == "1" {
				if sl, ok := u.Call.Args[1].(*ssa.Slice); ok && sl.X == u.Call.Args[0] {
					return c.lenD(u.Call.Args[0], d+1).add(c.lenD(sl, d+1), -1).add(c.lenD(u.Call.Args[2], d+1), 1)
				}
			}
		}
	}
	if n := c.p.resolveStep(v); n != nil && n != v && !isParam(v) && sameFn(n, v) && c.storedBefore(v) {
		return c.lenD(n, d+1)
	}
	if n := c.captured(v); n != nil {
		return c.lenD(n, d+1)
	}
	return c.node('l', v, 0)
}

// storedBefore: if the value is read from a variable, then what is stored there was stored before on all ways.
func (c *boundCheck) storedBefore(v ssa.Value) bool {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return true
	}
	a, ok := u.X.(*ssa.Alloc)
	if !ok {
		return false
	}
	n := 0
	for _, r := range *a.Referrers() {
		st, ok := r.(*ssa.Store)
		if !ok {
			continue
		}
		if n++; st.Addr != ssa.Value(a) || n > 1 {
			return false
		}
		if st.Block() == u.Block() {
			for _, in := range u.Block().Instrs {
				if in == ssa.Instruction(u) {
					return false
				}
				if in == ssa.Instruction(st) {
					break
				}
			}
		} else if !st.Block().Dominates(u.Block()) {
			return false
		}
	}
	return n == 1
}

func isParam(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Parameter, *ssa.FreeVar:
		return true
	}
	return false
}

func sameFn(a, b ssa.Value) bool {
	x, ok1 := a.(interface{ Parent() *ssa.Function })
	y, ok2 := b.(interface{ Parent() *ssa.Function })
	if _, ok := a.(*ssa.Const); ok {
		return true
	}
	return ok1 && ok2 && x.Parent() == y.Parent()
}

// byteLike: the length is counted in bytes.
func byteLike(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0
	case *types.Slice:
		b, ok := u.Elem().Underlying().(*types.Basic)
		return ok && b.Kind() == types.Byte
	}
	return false
}

// intOf is an integer as sum of nodes.
func (c *boundCheck) intOf(v ssa.Value) lsum { return c.intD(v, 0) }

func (c *boundCheck) intD(v ssa.Value, d int) lsum {
	if d > 20 {
		return c.node('v', v, 0)
	}
	switch u := v.(type) {
	case *ssa.Const:
		if n, ok := constInt(u); ok {
			return sumConst(n)
		}
	case *ssa.BinOp:
		switch u.Op {
		case token.ADD:
			return c.intD(u.X, d+1).add(c.intD(u.Y, d+1), 1)
		case token.SUB:
			return c.intD(u.X, d+1).add(c.intD(u.Y, d+1), -1)
		case token.MUL:
			if n, ok := constInt(u.Y); ok {
				return sumConst(0).add(c.intD(u.X, d+1), n)
			}
			if n, ok := constInt(u.X); ok {
				return sumConst(0).add(c.intD(u.Y, d+1), n)
			}
		}
	case *ssa.Convert:
		if isInteger(u.X.Type()) && isInteger(u.Type()) {
			return c.intD(u.X, d+1)
		}
	case *ssa.ChangeType:
		return c.intD(u.X, d+1)
	case *ssa.Call:
		if CalleeKey(&u.Call) == "builtin.len" && isTextOrList(u.Call.Args[0].Type()) {
			return c.lenOf(u.Call.Args[0])
		}
		if CalleeKey(&u.Call) == "unicode/utf8.RuneCountInString" {
			break
		}
	case *ssa.UnOp:
		if u.Op == token.SUB {
			return sumConst(0).add(c.intD(u.X, d+1), -1)
		}
		if g, ok := u.X.(*ssa.Global); ok && u.Op == token.MUL {
			if st := c.p.GlobalStores(g); len(st) == 1 {
				if x := c.intD(st[0].Val, d+1); len(x.t) == 0 {
					return x
				}
			}
		}
		if ia, ok := u.X.(*ssa.IndexAddr); ok && u.Op == token.MUL {
			if n, ok := constInt(ia.Index); ok && c.isMatch(ia.X, map[ssa.Value]bool{}) {
				return c.node('i', ia.X, int(n))
			}
		}
	}
	if n := c.p.resolveStep(v); n != nil && n != v && !isParam(v) && sameFn(n, v) && c.storedBefore(v) {
		return c.intD(n, d+1)
	}
	return c.node('v', v, 0)
}

// isMatch: the value is the positions of a match.
func (c *boundCheck) isMatch(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch u := v.(type) {
	case *ssa.Phi:
		for _, e := range u.Edges {
			if !c.isMatch(e, seen) {
				return false
			}
		}
		return true
	case *ssa.Const:
		return u.IsNil()
	case *ssa.Call:
		switch CalleeKey(&u.Call) {
		case "(*regexp.Regexp).FindStringIndex", "(*regexp.Regexp).FindStringSubmatchIndex", "(*regexp.Regexp).FindIndex":
			return true
		}
	case *ssa.UnOp:
		return c.matchList(v) != nil
	}
	return false
}

// matchList: the value is an element of a list of matches; the result is the call giving the list.
func (c *boundCheck) matchList(v ssa.Value) *ssa.Call {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return nil
	}
	ia, ok := u.X.(*ssa.IndexAddr)
	if !ok {
		return nil
	}
	k, ok := c.p.resolve(ia.X).(*ssa.Call)
	if !ok || !strings.HasPrefix(CalleeKey(&k.Call), "(*regexp.Regexp).FindAll") {
		return nil
	}
	return k
}

// --- facts ---

// known collects what holds at the start of a block (and on the edge to it, if given).
func (c *boundCheck) known(b *ssa.BasicBlock) *boundFacts {
	if f, ok := c.facts[b]; ok {
		return f
	}
	f := &boundFacts{present: map[string]bool{}, match: map[string]bool{}, holds: map[string][]string{}, conds: map[ssa.Value]bool{}}
	c.facts[b] = f
	for x := b; x != nil; x = x.Idom() {
		d := x.Idom()
		if d == nil {
			break
		}
		c.accesses(f, d, len(d.Instrs))
		if len(x.Preds) == 1 && x.Preds[0] == d {
			c.edge(f, d, x)
		}
	}
	return f
}

func (f *boundFacts) clone() *boundFacts {
	n := &boundFacts{le: append([]lsum{}, f.le...), ne: append([]lsum{}, f.ne...), present: map[string]bool{}, match: map[string]bool{}, holds: map[string][]string{}, conds: map[ssa.Value]bool{}}
	for k := range f.present {
		n.present[k] = true
	}
	for k := range f.match {
		n.match[k] = true
	}
	for k, v := range f.holds {
		n.holds[k] = append([]string{}, v...)
	}
	for k, v := range f.conds {
		n.conds[k] = v
	}
	return n
}

// onEdge: what holds when a block is left for the other one.
func (c *boundCheck) onEdge(from, to *ssa.BasicBlock) *boundFacts {
	f := c.known(from).clone()
	c.accesses(f, from, len(from.Instrs))
	c.edge(f, from, to)
	return f
}

func (c *boundCheck) edge(f *boundFacts, from, to *ssa.BasicBlock) {
	br, ok := from.Instrs[len(from.Instrs)-1].(*ssa.If)
	if !ok || from.Succs[0] == from.Succs[1] {
		return
	}
	c.condition(f, br.Cond, from.Succs[0] == to, 0)
}

// accesses: indexes used successfully before are valid.
func (c *boundCheck) accesses(f *boundFacts, b *ssa.BasicBlock, n int) {
	for _, in := range b.Instrs[:n] {
		for _, g := range c.obligations(in) {
			f.le = append(f.le, g.le)
		}
	}
}

// condition adds what follows from a condition.
func (c *boundCheck) condition(f *boundFacts, v ssa.Value, val bool, d int) {
	if d > 10 {
		return
	}
	switch u := v.(type) {
	case *ssa.UnOp:
		if u.Op == token.NOT {
			c.condition(f, u.X, !val, d+1)
		}
	case *ssa.Phi:
		f.conds[u] = val
		// "a && b" and "a || b"
		var last ssa.Value
		at := -1
		for i, e := range u.Edges {
			if k, ok := e.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Bool && constant.BoolVal(k.Value) != val {
				continue
			}
			if last != nil {
				return
			}
			last, at = e, i
		}
		if last == nil {
			return
		}
		pred := u.Block().Preds[at]
		if loopsOf(u.Parent())[u.Block()] != nil {
			return
		}
		o := c.known(pred)
		f.le = append(f.le, o.le...)
		f.ne = append(f.ne, o.ne...)
		for k := range o.present {
			f.present[k] = true
		}
		for k := range o.match {
			f.match[k] = true
		}
		for k, v := range o.holds {
			f.holds[k] = append(f.holds[k], v...)
		}
		c.accesses(f, pred, len(pred.Instrs))
		c.edge(f, pred, u.Block())
		c.condition(f, last, val, d+1)
	case *ssa.BinOp:
		c.comparison(f, u, val)
	case *ssa.Call:
		c.predicate(f, u, val, d)
	case *ssa.Extract:
		if r, ok := u.Tuple.(*ssa.UnOp); ok && r.Op == token.ARROW && u.Index == 1 && val {
			f.present["received "+c.id(r)] = true
		}
		if k, ok := u.Tuple.(*ssa.Call); ok && u.Index == 1 && val {
			switch CalleeKey(&k.Call) {
			case "strings.CutPrefix", "strings.CutSuffix":
				f.le = append(f.le, c.lenOf(k.Call.Args[1]).add(c.lenOf(k.Call.Args[0]), -1))
			}
		}
	}
}

func (c *boundCheck) comparison(f *boundFacts, u *ssa.BinOp, val bool) {
	op := u.Op
	if !val {
		switch op {
		case token.EQL:
			op = token.NEQ
		case token.NEQ:
			op = token.EQL
		case token.LSS:
			op = token.GEQ
		case token.GEQ:
			op = token.LSS
		case token.GTR:
			op = token.LEQ
		case token.LEQ:
			op = token.GTR
		default:
			return
		}
	}
	t := u.X.Type().Underlying()
	if isInteger(t) {
		x, y := c.intOf(u.X), c.intOf(u.Y)
		switch op {
		case token.EQL:
			f.le = append(f.le, x.add(y, -1), y.add(x, -1))
		case token.NEQ:
			f.ne = append(f.ne, x.add(y, -1))
		case token.LSS:
			g := x.add(y, -1)
			g.c++
			f.le = append(f.le, g)
		case token.LEQ:
			f.le = append(f.le, x.add(y, -1))
		case token.GTR:
			g := y.add(x, -1)
			g.c++
			f.le = append(f.le, g)
		case token.GEQ:
			f.le = append(f.le, y.add(x, -1))
		}
		return
	}
	if b, ok := t.(*types.Basic); ok && b.Info()&types.IsString != 0 {
		x, y := c.lenOf(u.X), c.lenOf(u.Y)
		if op == token.EQL {
			f.le = append(f.le, x.add(y, -1), y.add(x, -1))
			c.sameText(f, u.X, u.Y)
		}
		if op == token.NEQ {
			// not empty
			for _, o := range [][2]ssa.Value{{u.X, u.Y}, {u.Y, u.X}} {
				if constText(o[1]) == "" {
					f.ne = append(f.ne, c.lenOf(o[0]))
				}
			}
		}
		return
	}
	for _, o := range [][2]ssa.Value{{u.X, u.Y}, {u.Y, u.X}} {
		if k, ok := o[1].(*ssa.Const); ok && k.IsNil() {
			if op == token.NEQ {
				f.present[c.ident(o[0])] = true
			}
			if op == token.EQL && isTextOrList(o[0].Type()) {
				f.le = append(f.le, c.lenOf(o[0]))
			}
		}
	}
}

// sameText: a part of a text is a fixed text, the text contains it.
func (c *boundCheck) sameText(f *boundFacts, x, y ssa.Value) {
	if constText(x) != "\x00" {
		x, y = y, x
	}
	t := constText(y)
	if t == "\x00" {
		return
	}
	if sl, ok := x.(*ssa.Slice); ok {
		f.holds[c.ident(sl.X)] = append(f.holds[c.ident(sl.X)], t)
	}
	f.holds[c.ident(x)] = append(f.holds[c.ident(x)], t)
}

func (c *boundCheck) predicate(f *boundFacts, k *ssa.Call, val bool, d int) {
	args := k.Call.Args
	key := CalleeKey(&k.Call)
	switch key {
	case "strings.HasPrefix", "strings.HasSuffix", "strings.Contains", "bytes.HasPrefix", "bytes.HasSuffix", "strings.EqualFold":
		if val && key != "strings.EqualFold" {
			f.le = append(f.le, c.lenOf(args[1]).add(c.lenOf(args[0]), -1))
			if t := constText(c.p.resolve(args[1])); t != "\x00" {
				f.holds[c.ident(args[0])] = append(f.holds[c.ident(args[0])], t)
			} else {
				f.holds[c.ident(args[0])] = append(f.holds[c.ident(args[0])], "\x00"+c.ident(args[1]))
			}
		}
		return
	case "(*regexp.Regexp).MatchString":
		if val {
			f.match[c.rid(args[0])+"/"+c.ident(args[1])] = true
			if re := c.place.regexpOf(args[0]); re != nil {
				if n := minLen(re); n > 0 {
					f.le = append(f.le, sumConst(n).add(c.lenOf(args[1]), -1))
				}
			}
		}
		return
	}
	// functions of the repository telling something about their arguments
	fn := k.Call.StaticCallee()
	if fn == nil || len(fn.Blocks) == 0 || !c.p.IsRepoFn(fn) || d > 3 || fn.Signature.Results().Len() != 1 || c.busy[fn] {
		return
	}
	c.busy[fn] = true
	defer delete(c.busy, fn)
	s := c.returning(fn, val, d)
	if s == nil {
		return
	}
	sub := func(l lsum) (lsum, bool) { return c.toArgs(l, fn, k) }
	for _, l := range s.le {
		for _, o := range c.project(l, fn, 2) {
			if a, ok := sub(o); ok {
				f.le = append(f.le, a)
			}
		}
	}
	for _, l := range s.ne {
		if a, ok := sub(l); ok {
			f.ne = append(f.ne, a)
		}
	}
}

// project gives inequalities over parameters which follow from one.
func (c *boundCheck) project(l lsum, fn *ssa.Function, d int) []lsum {
	var bad string
	for k := range l.t {
		if q, ok := c.nodes[k].v.(*ssa.Parameter); (!ok || q.Parent() != fn) && (bad == "" || k < bad) {
			bad = k
		}
	}
	if bad == "" {
		return []lsum{l}
	}
	if d == 0 {
		return nil
	}
	var out []lsum
	n := l.t[bad]
	for _, a := range c.about(bad, &boundFacts{}) {
		m := a.t[bad]
		if m == 0 || (m > 0) == (n > 0) {
			continue
		}
		// |m| * l + |n| * a
		x := sumConst(0).add(l, max(m, -m)).add(a, max(n, -n))
		out = append(out, c.project(x, fn, d-1)...)
	}
	return out
}

// returning: what holds whenever the function returns the given truth value.
func (c *boundCheck) returning(fn *ssa.Function, val bool, d int) *boundFacts {
	var all *boundFacts
	add := func(f *boundFacts) {
		if all == nil {
			all = f.clone()
			return
		}
		// only what holds in all cases
		var le []lsum
		for _, l := range all.le {
			for _, m := range f.le {
				if l.vars() == m.vars() {
					if m.c < l.c {
						l.c = m.c
					}
					le = append(le, l)
					break
				}
			}
		}
		all.le = le
		all.ne = nil
	}
	for _, b := range fn.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || len(ret.Results) != 1 {
			continue
		}
		v := ret.Results[0]
		if k, ok := v.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Bool {
			if constant.BoolVal(k.Value) == val {
				f := c.known(b).clone()
				c.accesses(f, b, len(b.Instrs))
				add(f)
			}
			continue
		}
		if phi, ok := v.(*ssa.Phi); ok && phi.Block() == b {
			for i, e := range phi.Edges {
				k, isC := e.(*ssa.Const)
				if isC && k.Value != nil && constant.BoolVal(k.Value) != val {
					continue
				}
				f := c.onEdge(b.Preds[i], b)
				if !isC {
					c.condition(f, e, val, d+1)
				}
				add(f)
			}
			continue
		}
		f := c.known(b).clone()
		c.accesses(f, b, len(b.Instrs))
		c.condition(f, v, val, d+1)
		add(f)
	}
	return all
}

// toArgs expresses an inequality over the parameters of a function by the arguments of a call.
func (c *boundCheck) toArgs(l lsum, fn *ssa.Function, k *ssa.Call) (lsum, bool) {
	out := sumConst(l.c)
	for key, n := range l.t {
		nd := c.nodes[key]
		i := -1
		for j, q := range fn.Params {
			if ssa.Value(q) == nd.v {
				i = j
			}
		}
		if i < 0 || i >= len(k.Call.Args) || nd.kind == 'i' {
			return lsum{}, false
		}
		if nd.kind == 'l' {
			out = out.add(c.lenOf(k.Call.Args[i]), n)
		} else {
			out = out.add(c.intOf(k.Call.Args[i]), n)
		}
	}
	return out, true
}

// rid names a regular expression.
func (c *boundCheck) rid(v ssa.Value) string {
	if re := c.place.regexpOf(v); re != nil {
		return re.String()
	}
	return c.ident(v)
}

// minLen is the least length of texts a pattern matches.
func minLen(re *regexp.Regexp) int64 { return minLenOf(parseRegexp(re)) }

// --- definitions ---

// about gives what follows from the way a node was made, given what is known.
func (c *boundCheck) about(key string, f *boundFacts) (out []lsum) {
	nd := c.nodes[key]
	self := lsum{t: map[string]int64{key: 1}}
	le := func(a, b lsum) { out = append(out, a.add(b, -1)) } // a <= b
	switch nd.kind {
	case 'l':
		le(sumConst(0), self)
		c.aboutLen(nd.v, self, f, le)
	case 'i':
		c.aboutMatch(nd, self, le)
	case 'v':
		c.aboutInt(nd.v, self, f, le)
	}
	return
}

func (c *boundCheck) aboutLen(v ssa.Value, self lsum, f *boundFacts, le func(a, b lsum)) {
	if k := c.matchList(v); k != nil {
		if re := c.place.regexpOf(k.Call.Args[0]); re != nil {
			n := int64(re.NumSubexp() + 1)
			switch key := CalleeKey(&k.Call); {
			case strings.HasSuffix(key, "SubmatchIndex"):
				le(sumConst(2*n), self)
				le(self, sumConst(2*n))
			case strings.HasSuffix(key, "Submatch"):
				le(sumConst(n), self)
				le(self, sumConst(n))
			case strings.HasSuffix(key, "Index"):
				le(sumConst(2), self)
				le(self, sumConst(2))
			}
		}
		return
	}
	if cv, ok := v.(*ssa.Convert); ok && isTextOrList(cv.X.Type()) {
		// runes of a text
		x := c.lenOf(cv.X)
		le(self, x)
		le(x, sumConst(0).add(self, 4))
		return
	}
	if q, ok := v.(*ssa.Parameter); ok {
		if n := c.commandArgs(q); n > 0 {
			le(sumConst(n), self)
		}
		return
	}
	if phi, ok := v.(*ssa.Phi); ok && (f.present[c.ident(v)] || c.positive(self, f)) {
		if n := c.matchWidth(phi, map[ssa.Value]bool{}); n > 0 {
			le(sumConst(n), self)
			le(self, sumConst(n))
		}
		return
	}
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if ia, ok := u.X.(*ssa.IndexAddr); ok {
			if n := c.leastElement(ia.X); n > 0 {
				le(sumConst(n), self)
			}
			return
		}
	}
	k, ok := v.(*ssa.Call)
	if !ok {
		if e, isE := v.(*ssa.Extract); isE {
			if k, ok := e.Tuple.(*ssa.Call); ok {
				switch CalleeKey(&k.Call) {
				case "strings.Cut", "strings.CutPrefix", "strings.CutSuffix":
					if e.Index < 2 {
						le(self, c.lenOf(k.Call.Args[0]))
					}
				}
			}
		}
		return
	}
	args := k.Call.Args
	key := CalleeKey(&k.Call)
	switch key {
	case "strings.Split", "strings.SplitN", "strings.SplitAfter", "strings.SplitAfterN":
		sep := c.lenOf(args[1])
		if !c.nonEmpty(sep, f) {
			return
		}
		n := int64(-1)
		if len(args) > 2 {
			var ok bool
			if n, ok = constInt(args[2]); !ok || n == 0 {
				return
			}
		}
		le(sumConst(1), self)
		if n > 0 {
			le(self, sumConst(n))
		}
		if n < 0 || n > 1 {
			if c.splits(args[0], args[1], f) {
				le(sumConst(2), self)
			}
			st := constText(c.p.resolve(args[1]))
			for _, t := range f.holds[c.ident(args[0])] {
				if st != "\x00" && strings.Contains(t, st) || t == "\x00"+c.ident(args[1]) {
					le(sumConst(2), self)
				}
			}
		}
	case "(*regexp.Regexp).FindStringSubmatch", "(*regexp.Regexp).FindStringIndex", "(*regexp.Regexp).FindStringSubmatchIndex":
		re := c.place.regexpOf(args[0])
		if re == nil && key != "(*regexp.Regexp).FindStringIndex" {
			return
		}
		n := int64(2)
		switch key {
		case "(*regexp.Regexp).FindStringSubmatch":
			n = int64(re.NumSubexp() + 1)
		case "(*regexp.Regexp).FindStringSubmatchIndex":
			n = int64(2*re.NumSubexp() + 2)
		}
		le(self, sumConst(n))
		if c.matched(k, re) || f.present[c.ident(v)] || c.nonEmpty(self, f) || f.match[c.rid(args[0])+"/"+c.ident(args[1])] {
			le(sumConst(n), self)
		}
	case "strings.TrimSpace", "strings.Trim", "strings.TrimLeft", "strings.TrimRight", "strings.TrimPrefix", "strings.TrimSuffix", "strings.TrimFunc":
		le(self, c.lenOf(args[0]))
		// what is left: at most the cut text is missing
		if key == "strings.TrimPrefix" || key == "strings.TrimSuffix" {
			le(c.lenOf(args[0]).add(c.lenOf(args[1]), -1), self)
		}
	case "strings.ReplaceAll":
		x := c.lenOf(args[0])
		old, by := constText(c.p.resolve(args[1])), constText(c.p.resolve(args[2]))
		if old == "\x00" || by == "\x00" || old == "" {
			return
		}
		if len(by) <= len(old) {
			le(self, x)
		}
		if len(by) >= len(old) {
			le(x, self)
		} else if len(by) > 0 {
			le(x, sumConst(0).add(self, int64(len(old))))
		}
	case "strings.ToLower", "strings.ToUpper":
		x := c.lenOf(args[0])
		le(self, sumConst(0).add(x, 3))
		le(x, sumConst(0).add(self, 4))
	case "(*regexp.Regexp).FindString":
		le(self, c.lenOf(args[1]))
	case "fmt.Sprintf":
		if t := constText(args[0]); t != "\x00" {
			n := int64(len(verbPattern.ReplaceAllString(t, "")))
			// each byte of an array as two digits
			if va := variadicArgs(args[len(args)-1]); len(va) == 1 && strings.Count(t, "%") == 1 && strings.Contains(t, "%x") {
				if mi, ok := va[0].(*ssa.MakeInterface); ok {
					if at, ok := mi.X.Type().Underlying().(*types.Array); ok {
						n += 2 * at.Len()
						le(self, sumConst(n))
					}
				}
			}
			if n > 0 {
				le(sumConst(n), self)
			}
		}
	case "strconv.Itoa", "strconv.FormatInt":
		le(sumConst(1), self)
	case "strings.Repeat":
		if t := constText(args[0]); t != "\x00" && len(t) == 1 {
			x := c.intOf(args[1])
			le(self, x)
			le(x, self)
		}
	case "invoke hash.Hash.Sum", "(hash.Hash).Sum":
		if mk, ok := c.p.resolve(k.Call.Value).(*ssa.Call); ok {
			if n := map[string]int64{"crypto/md5.New": 16, "crypto/sha1.New": 20, "crypto/sha256.New": 32, "crypto/sha512.New": 64}[CalleeKey(&mk.Call)]; n > 0 {
				x := c.lenOf(args[len(args)-1])
				x.c += n
				le(x, self)
				le(self, x)
			}
		}
	}
}

var verbPattern = regexp.MustCompile(`%[-+# 0]*[0-9]*(\.[0-9]+)?[a-zA-Z%]`)

// nonEmpty: the sum is known not to be zero although it can't be negative.
func (c *boundCheck) nonEmpty(x lsum, f *boundFacts) bool {
	if len(x.t) == 0 {
		return x.c > 0
	}
	v := x.vars()
	for _, l := range f.ne {
		if l.vars() == v && l.c == x.c || sumConst(0).add(l, -1).vars() == v && -l.c == x.c {
			return true
		}
	}
	neg := sumConst(1).add(x, -1) // 1 - x <= 0
	nv := neg.vars()
	for _, l := range f.le {
		if l.vars() == nv && l.c >= neg.c {
			return true
		}
	}
	return c.everyCall(neg)
}

// everyCall: an inequality over parameters holds for each call of the function.
func (c *boundCheck) everyCall(g lsum) bool {
	var fn *ssa.Function
	for k := range g.t {
		q, ok := c.nodes[k].v.(*ssa.Parameter)
		if !ok || fn != nil && q.Parent() != fn {
			return false
		}
		fn = q.Parent()
	}
	if fn == nil || c.depth > 2 || len(fn.Blocks) == 0 {
		return false
	}
	key := fmt.Sprintf("%p %s", fn, g)
	if v, ok := c.calls[key]; ok {
		return v
	}
	before := c.assumed
	c.calls[key] = false
	c.depth++
	q := &boundProof{c: c, steps: 500, open: map[string]int64{}, failed: map[string]int64{}}
	ok := q.callers(g, fn.Blocks[0], boundDepth-4)
	c.depth--
	if delete(c.calls, key); c.assumed == before {
		c.calls[key] = ok
	}
	return ok
}

// matched: the pattern occurs in every text.
func (c *boundCheck) matched(k *ssa.Call, re *regexp.Regexp) bool {
	return re != nil && minLen(re) == 0 && matchesAlways(parseRegexp(re))
}

// leastElement is the least length of the elements of a list built in the function.
func (c *boundCheck) leastElement(list ssa.Value) int64 {
	key := "elements " + c.id(list)
	if n, ok := c.least[key]; ok {
		return n
	}
	c.least[key] = 0
	var adds []*ssa.Call
	seen := map[ssa.Value]bool{}
	ok := true
	var visit func(v ssa.Value)
	visit = func(v ssa.Value) {
		if seen[v] || !ok {
			return
		}
		seen[v] = true
		switch u := v.(type) {
		case *ssa.Const:
			ok = ok && u.IsNil()
		case *ssa.Phi:
			for _, e := range u.Edges {
				visit(e)
			}
		case *ssa.Slice:
			visit(u.X)
		case *ssa.MakeSlice:
			if n, isC := constInt(u.Len); !isC || n != 0 {
				ok = false
			}
		case *ssa.Call:
			if CalleeKey(&u.Call) != "builtin.append" || len(u.Call.Args) != 2 {
				ok = false
				return
			}
			visit(u.Call.Args[0])
			adds = append(adds, u)
		default:
			ok = false
		}
	}
	visit(list)
	if !ok {
		return 0
	}
	// nobody changes elements in place
	for v := range seen {
		refs := v.Referrers()
		if refs == nil {
			continue
		}
		for _, r := range *refs {
			if ia, isIa := r.(*ssa.IndexAddr); isIa {
				for _, q := range *ia.Referrers() {
					if _, isSt := q.(*ssa.Store); isSt {
						return 0
					}
				}
			}
		}
	}
	for _, k := range adds {
		vals := variadicArgs(k.Call.Args[1])
		if len(vals) == 0 {
			return 0
		}
		n := 0
		for i, in := range k.Block().Instrs {
			if in == ssa.Instruction(k) {
				n = i
			}
		}
		for _, e := range vals {
			if !c.prove(sumConst(1).add(c.lenOf(e), -1), k.Block(), n) {
				return 0
			}
		}
	}
	c.least[key] = 1
	return 1
}

// matchWidth is the number of positions (or parts) of matches a value may be, 0 if not known.
func (c *boundCheck) matchWidth(v ssa.Value, seen map[ssa.Value]bool) int64 {
	if seen[v] {
		return -1
	}
	seen[v] = true
	switch u := v.(type) {
	case *ssa.Phi:
		n := int64(-1)
		for _, e := range u.Edges {
			if k, ok := e.(*ssa.Const); ok && k.IsNil() {
				continue
			}
			m := c.matchWidth(e, seen)
			if m == -1 {
				continue
			}
			if m == 0 || n != -1 && n != m {
				return 0
			}
			n = m
		}
		return n
	case *ssa.Call:
		switch CalleeKey(&u.Call) {
		case "(*regexp.Regexp).FindStringIndex", "(*regexp.Regexp).FindIndex":
			return 2
		case "(*regexp.Regexp).FindStringSubmatch", "(*regexp.Regexp).FindStringSubmatchIndex":
			if re := c.place.regexpOf(u.Call.Args[0]); re != nil {
				n := int64(re.NumSubexp() + 1)
				if strings.HasSuffix(CalleeKey(&u.Call), "Index") {
					n *= 2
				}
				return n
			}
		}
	}
	return 0
}

// positive: known not to be zero, from facts only.
func (c *boundCheck) positive(x lsum, f *boundFacts) bool {
	v, nv := x.vars(), sumConst(0).add(x, -1).vars()
	for _, l := range f.ne {
		if (l.vars() == v || l.vars() == nv) && l.c == 0 && x.c == 0 {
			return true
		}
	}
	for _, l := range f.le {
		if l.vars() == nv && l.c >= 1-x.c {
			return true
		}
	}
	return false
}

func (c *boundCheck) aboutMatch(nd bnode, self lsum, le func(a, b lsum)) {
	if _, ok := nd.v.(*ssa.Phi); ok {
		return
	}
	text := func() (ssa.Value, bool, *regexp.Regexp) {
		if k := c.matchList(nd.v); k != nil {
			return k.Call.Args[1], strings.HasSuffix(CalleeKey(&k.Call), "SubmatchIndex"), c.place.regexpOf(k.Call.Args[0])
		}
		if k, ok := nd.v.(*ssa.Call); ok {
			return k.Call.Args[1], strings.HasSuffix(CalleeKey(&k.Call), "SubmatchIndex"), c.place.regexpOf(k.Call.Args[0])
		}
		return nil, false, nil
	}
	t, sub, re := text()
	if t == nil || nd.k > 1 && sub {
		return
	}
	other := c.node('i', nd.v, 1-nd.k)
	n := int64(0)
	if re != nil {
		n = minLen(re)
	}
	if nd.k == 0 {
		le(sumConst(0), self)
		x := self
		x = x.add(sumConst(n), 1)
		le(x, other)
		le(x, c.lenOf(t))
	} else {
		le(self, c.lenOf(t))
		le(other.add(sumConst(n), 1), self)
		le(sumConst(n), self)
	}
}

func (c *boundCheck) aboutInt(v ssa.Value, self lsum, f *boundFacts, le func(a, b lsum)) {
	switch u := v.(type) {
	case *ssa.Parameter:
		c.aboutLess(u, self, le)
	case *ssa.Extract:
		if nx, ok := u.Tuple.(*ssa.Next); ok && u.Index == 1 {
			if rg, ok := nx.Iter.(*ssa.Range); ok && isTextOrList(rg.X.Type()) {
				le(sumConst(0), self)
				le(self.add(sumConst(1), 1), c.lenOf(rg.X))
			}
		}
		if k, ok := u.Tuple.(*ssa.Call); ok {
			c.aboutResult(k, u.Index, self, f, le)
		}
	case *ssa.BinOp:
		switch u.Op {
		case token.REM:
			if n, ok := constInt(u.Y); ok && n > 0 {
				le(self, sumConst(n-1))
			}
		case token.QUO:
			x := c.intOf(u.X)
			if n, ok := constInt(u.Y); ok && n > 0 && len(x.t) == 1 {
				for key := range x.t {
					if c.nodes[key].kind == 'l' && x.c >= 0 {
						le(self, x)
						le(sumConst(0), self)
					}
				}
			}
		}
	case *ssa.Convert:
		// a number made from other ones
		if alts, isMax := c.choice(u); isMax {
			for _, a := range alts {
				le(a, self)
			}
		}
		if k, ok := u.X.(*ssa.Call); ok && CalleeKey(&k.Call) == "math.Min" {
			lows := true
			for _, a := range k.Call.Args {
				if cv, ok := a.(*ssa.Convert); ok && isInteger(cv.X.Type()) {
					x := c.intOf(cv.X)
					le(self, x)
					lows = lows && c.notNegative(x)
				} else if cs, ok := a.(*ssa.Const); ok && cs.Value != nil {
					n, _ := constant.Int64Val(constant.ToInt(cs.Value))
					le(self, sumConst(n))
					lows = lows && n >= 0
				} else {
					lows = false
				}
			}
			if lows {
				le(sumConst(0), self)
			}
		}
		if isInteger(u.Type()) {
			if b, ok := u.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
				le(sumConst(0), self)
			}
		}
	case *ssa.Call:
		c.aboutResult(u, 0, self, f, le)
	}
	if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
		le(sumConst(0), self)
	}
}

// aboutLess: the positions a comparison function of sort.Slice gets.
func (c *boundCheck) aboutLess(q *ssa.Parameter, self lsum, le func(a, b lsum)) {
	fn := q.Parent()
	if fn.Parent() == nil {
		return
	}
	for _, b := range fn.Parent().Blocks {
		for _, in := range b.Instrs {
			mc, ok := in.(*ssa.MakeClosure)
			if !ok || mc.Fn != ssa.Value(fn) {
				continue
			}
			var list ssa.Value
			for _, r := range *mc.Referrers() {
				switch u := r.(type) {
				case *ssa.DebugRef:
				case *ssa.Call:
					switch CalleeKey(&u.Call) {
					case "sort.Slice", "sort.SliceStable":
						if mi, ok := u.Call.Args[0].(*ssa.MakeInterface); ok && list == nil {
							list = mi.X
							continue
						}
					}
					return
				default:
					return
				}
			}
			if list == nil {
				return
			}
			le(sumConst(0), self)
			ld, ok := list.(*ssa.UnOp)
			if !ok {
				return
			}
			for i, x := range mc.Bindings {
				if x != ld.X {
					continue
				}
				reads := []ssa.Value{}
				for _, r := range *fn.FreeVars[i].Referrers() {
					switch u := r.(type) {
					case *ssa.UnOp:
						reads = append(reads, u)
					case *ssa.DebugRef:
					default:
						return
					}
				}
				for _, r := range reads {
					le(self.add(sumConst(1), 1), c.lenOf(r))
				}
			}
		}
	}
}

// choice gives the integers of which a value is the largest or the smallest one.
func (c *boundCheck) choice(v ssa.Value) (alts []lsum, isMax bool) {
	if cv, ok := v.(*ssa.Convert); ok && isInteger(cv.Type()) {
		v = cv.X
	}
	k, ok := v.(*ssa.Call)
	if !ok {
		return nil, false
	}
	key := CalleeKey(&k.Call)
	switch key {
	case "math.Min", "math.Max", "builtin.min", "builtin.max":
	default:
		return nil, false
	}
	for _, a := range k.Call.Args {
		if cv, ok := a.(*ssa.Convert); ok && isInteger(cv.X.Type()) {
			a = cv.X
		}
		if isInteger(a.Type()) {
			alts = append(alts, c.intOf(a))
		} else if cs, ok := a.(*ssa.Const); ok && cs.Value != nil {
			if i := constant.ToInt(cs.Value); i.Kind() == constant.Int {
				n, _ := constant.Int64Val(i)
				alts = append(alts, sumConst(n))
				continue
			}
			return nil, false
		} else {
			return nil, false
		}
	}
	return alts, strings.HasSuffix(strings.ToLower(key), "max")
}

// notNegative: a length, possibly with something added.
func (c *boundCheck) notNegative(x lsum) bool {
	for key, n := range x.t {
		if n < 0 || c.nodes[key].kind != 'l' {
			return false
		}
	}
	return x.c >= 0
}

// aboutResult: integers given by calls.
func (c *boundCheck) aboutResult(k *ssa.Call, idx int, self lsum, f *boundFacts, le func(a, b lsum)) {
	args := k.Call.Args
	key := CalleeKey(&k.Call)
	found := func() bool {
		// at least 0
		one := sumConst(1).add(self, 1) // self + 1 != 0
		for _, l := range f.ne {
			if l.vars() == one.vars() && l.c == one.c || l.vars() == sumConst(0).add(one, -1).vars() && l.c == -one.c {
				return true
			}
		}
		neg := sumConst(0).add(self, -1)
		for _, l := range f.le {
			if l.vars() == neg.vars() && l.c >= 0 {
				return true
			}
		}
		return false
	}
	switch key {
	case "strings.Index", "strings.LastIndex", "bytes.Index", "bytes.LastIndex":
		le(sumConst(-1), self)
		sub := c.lenOf(args[1])
		if c.nonEmpty(sub, f) {
			le(self.add(sumConst(1), 1), c.lenOf(args[0]))
		} else {
			le(self, c.lenOf(args[0]))
		}
		if found() {
			le(sumConst(0), self)
			le(self.add(sub, 1), c.lenOf(args[0]))
		}
		return
	case "strings.IndexByte", "strings.IndexRune", "strings.IndexAny", "strings.LastIndexByte", "strings.LastIndexAny", "strings.IndexFunc", "strings.LastIndexFunc", "bytes.IndexByte":
		le(sumConst(-1), self)
		le(self.add(sumConst(1), 1), c.lenOf(args[0]))
		return
	case "builtin.min":
		for _, a := range args {
			le(self, c.intOf(a))
		}
		low := true
		for _, a := range args {
			low = low && c.notNegative(c.intOf(a))
		}
		if low {
			le(sumConst(0), self)
		}
		return
	case "builtin.max":
		for _, a := range args {
			le(c.intOf(a), self)
		}
		return
	case "strings.Count", "unicode/utf8.RuneCountInString", "strings.Compare":
		if key != "strings.Compare" {
			le(sumConst(0), self)
		}
		if key == "unicode/utf8.RuneCountInString" {
			le(self, c.lenOf(args[0]))
		}
		return
	case "unicode/utf8.DecodeLastRuneInString", "unicode/utf8.DecodeRuneInString":
		if idx == 1 {
			le(sumConst(0), self)
			le(self, c.lenOf(args[0]))
		}
		return
	case "slices.Index", "slices.IndexFunc":
		le(sumConst(-1), self)
		le(self.add(sumConst(1), 1), c.lenOf(args[0]))
		return
	}
	fn := k.Call.StaticCallee()
	if fn == nil || len(fn.Blocks) == 0 || !c.p.IsRepoFn(fn) {
		return
	}
	s := c.summary(fn, idx)
	if s == nil {
		return
	}
	apply := func(ls []lsum) {
		for _, l := range ls {
			// the result is the node "result"
			n := l.t[resultKey]
			o := lsum{c: l.c, t: map[string]int64{}}
			for key, m := range l.t {
				if key != resultKey {
					o.t[key] = m
				}
			}
			if a, ok := c.toArgs(o, fn, k); ok {
				le(a.add(self, n), sumConst(0))
			}
		}
	}
	apply(s.always)
	if found() {
		apply(s.found)
	}
}

// --- results of functions ---

const resultKey = "result"

// A boundSummary is what holds for an integer a function returns.
type boundSummary struct {
	always []lsum // over the parameters and "result"
	found  []lsum // if the result isn't negative
}

func (c *boundCheck) summary(fn *ssa.Function, idx int) *boundSummary {
	id := fmt.Sprintf("%p %d", fn, idx)
	if s, ok := c.sums[id]; ok {
		return s
	}
	if a := c.trying[id]; a != nil {
		// recursion: by induction over the calls
		c.assumed++
		return a
	}
	if c.busy[fn] || c.depth > 3 {
		return nil
	}
	c.busy[fn] = true
	before := c.assumed
	defer delete(c.busy, fn)
	defer delete(c.trying, id)
	s := &boundSummary{}
	type result struct {
		v ssa.Value
		b *ssa.BasicBlock
	}
	var rets []result
	for _, b := range fn.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && idx < len(ret.Results) {
			rets = append(rets, result{resultOf(ret, idx), b})
		}
	}
	// results[i] <= bound, or bound <= results[i], in every case
	res := lsum{t: map[string]int64{resultKey: 1}}
	all := func(lower bool, bound lsum, onlyFound bool) bool {
		try := &boundSummary{}
		l := res.add(bound, -1)
		if lower {
			l = bound.add(res, -1)
		}
		if onlyFound {
			try.found = []lsum{l}
		} else {
			try.always = []lsum{l}
		}
		c.trying[id] = try
		for _, r := range rets {
			if r.v == nil || !isInteger(r.v.Type()) {
				return false
			}
			v := c.intOf(r.v)
			if len(v.t) == 0 && v.c < 0 && onlyFound {
				continue
			}
			g := v.add(bound, -1)
			if lower {
				g = bound.add(v, -1)
			}
			var more []lsum
			if onlyFound {
				more = append(more, sumConst(0).add(v, -1))
			}
			if !c.prove(g, r.b, len(r.b.Instrs), more...) {
				return false
			}
		}
		return true
	}
	var lists, ints []lsum
	for _, q := range fn.Params {
		if isTextOrList(q.Type()) {
			lists = append(lists, c.lenOf(q))
		}
		if isInteger(q.Type()) {
			ints = append(ints, c.intOf(q))
		}
	}
	note := func(to *[]lsum, lower bool, bound lsum) {
		if lower {
			*to = append(*to, bound.add(res, -1))
		} else {
			*to = append(*to, res.add(bound, -1))
		}
	}
	for _, onlyFound := range []bool{false, true} {
		to := &s.always
		if onlyFound {
			to = &s.found
		}
		lows := []lsum{sumConst(1), sumConst(0), sumConst(-1)}
		for _, l := range lows {
			if all(true, l, onlyFound) {
				note(to, true, l)
				break
			}
		}
		for _, q := range ints {
			for _, k := range []int64{1, 0, -1} {
				l := q.add(sumConst(k), 1)
				if all(true, l, onlyFound) {
					note(to, true, l)
					break
				}
			}
		}
		for _, q := range lists {
			done := false
			// room for another argument behind it
			for _, o := range lists {
				if o.vars() == q.vars() {
					continue
				}
				l := q.add(o, -1)
				if all(false, l, onlyFound) {
					note(to, false, l)
				}
			}
			for _, k := range []int64{-2, -1, 0} {
				if l := q.add(sumConst(k), 1); !done && all(false, l, onlyFound) {
					note(to, false, l)
					done = true
				}
			}
		}
	}
	if c.assumed == before || len(c.busy) == 1 {
		c.sums[id] = s
	}
	if os.Getenv("C25_TRACE") != "" {
		fmt.Fprintln(os.Stderr, "formatting sum", fn, idx, s)
	}
	return s
}
