package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID:    "C13",
		Title: "the same input gives the same output",
		Rule:  "no value depending on the order in which a map is iterated, on which worker is faster, on the clock, on random numbers, on names of temporary files or on process properties reaches a generated file: loops over maps (and over channels fed by several goroutines) only have effects that are the same in every order, lists collected in such a loop are sorted by something that tells all elements apart before they are used, and values of clocks, random sources, temporary files and shared counters do not flow into contents or names of files",
		Run:   runC13,
	})
}

type orderFree struct {
	p       *Program
	r       *Report
	keyed   map[string][]string // type of a map to the fields of the values which are always the key
	done    map[ssa.Value]bool
	loops   map[*ssa.Function]map[*ssa.BasicBlock]*natLoop
	depth   int
	sorting map[string]int
}

func runC13(p *Program, r *Report) {
	o := &orderFree{p: p, r: r, done: map[ssa.Value]bool{}, loops: map[*ssa.Function]map[*ssa.BasicBlock]*natLoop{}, sorting: map[string]int{}}
	starts := goStarts(p)
	for _, fn := range p.Funcs {
		if mockFn(p, fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Next:
					if !x.IsString {
						r.Count("loops over maps", 1)
						o.mapLoop(fn, x)
					}
				case *ssa.UnOp:
					if x.Op == token.ARROW && o.concurrent(fn, starts) {
						if l := innermost(o.loopsOf(fn), b); l != nil {
							r.Count("loops over channels", 1)
							o.loop(&unordered{fn: fn, l: l, what: "the order in which goroutines are scheduled", elem: x, channel: true})
						}
					}
				case *ssa.Select:
					if x.Blocking && len(x.States) > 1 || !x.Blocking {
						r.Count("selects", 1)
					}
				case *ssa.Call:
					o.iterator(fn, x)
				}
			}
		}
	}
	o.sources(starts)
	r.AtLeast("loops over maps", 1)
	r.AtLeast("sources of arbitrary values", 2)
}

func (o *orderFree) loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]*natLoop {
	if l, ok := o.loops[fn]; ok {
		return l
	}
	l := loopsOf(fn)
	o.loops[fn] = l
	return l
}

// concurrent: the function runs as goroutine or collects from goroutines.
func (o *orderFree) concurrent(fn *ssa.Function, starts []goStart) bool { return len(starts) > 0 }

// unordered is a loop whose iterations come in an arbitrary order.
type unordered struct {
	fn      *ssa.Function
	l       *natLoop
	what    string
	key     ssa.Value // distinct in each iteration
	val     ssa.Value
	elem    ssa.Value // the received or loaded element
	mapType types.Type
	channel bool
	lists   []ssa.Value        // variables in memory elements are appended to
	params  map[ssa.Value]bool // parameters of called functions which are distinct in each iteration
}

func (o *orderFree) mapLoop(fn *ssa.Function, n *ssa.Next) {
	u := &unordered{fn: fn, what: "the order in which a map is iterated"}
	for _, l := range o.loopsOf(fn) {
		if l.head == n.Block() {
			u.l = l
		}
	}
	if rg, ok := n.Iter.(*ssa.Range); ok {
		u.mapType = rg.X.Type()
	}
	for _, r := range *n.Referrers() {
		if ex, ok := r.(*ssa.Extract); ok {
			switch ex.Index {
			case 1:
				u.key = ex
			case 2:
				u.val = ex
			}
		}
	}
	if u.l == nil {
		// no second iteration: the first element is an arbitrary one
		if u.key != nil && len(*u.key.Referrers()) > 0 || u.val != nil && len(*u.val.Referrers()) > 0 {
			o.r.Bad("first:"+FnName(fn), o.p.At(n), "%s uses an arbitrary element of a map", FnName(fn))
		}
		return
	}
	o.loop(u)
}

func (o *orderFree) bad(u *unordered, kind string, at ssa.Instruction, format string, args ...any) {
	o.r.Bad(kind+":"+FnName(u.fn), o.p.At(at), "%s: %s, which depends on %s", FnName(u.fn), fmt.Sprintf(format, args...), u.what)
}

// distinct: the value is another one in each iteration.
func (o *orderFree) distinct(u *unordered, v ssa.Value, n int) bool {
	if v == nil || n > 10 {
		return false
	}
	if v == u.key || v == u.elem || u.params[v] {
		return true
	}
	switch x := v.(type) {
	case *ssa.ChangeType:
		return o.distinct(u, x.X, n+1)
	case *ssa.MakeInterface:
		return o.distinct(u, x.X, n+1)
	case *ssa.Convert:
		return o.distinct(u, x.X, n+1)
	case *ssa.Extract:
		if x.Index == 0 && x.Tuple == u.elem {
			return true
		}
	case *ssa.BinOp:
		if x.Op == token.ADD {
			return o.distinct(u, x.X, n+1) && o.outside(u, x.Y) || o.distinct(u, x.Y, n+1) && o.outside(u, x.X)
		}
	case *ssa.Call:
		if CalleeKey(&x.Call) == "fmt.Sprintf" && len(x.Call.Args) == 2 {
			return o.holds(x.Call.Args[1], func(e ssa.Value) bool { return o.distinct(u, e, n+1) })
		}
		if f := x.Call.StaticCallee(); f != nil && o.p.IsRepoFn(f) && len(f.Blocks) > 0 && f.Signature.Results().Len() == 1 {
			sub := *u
			sub.params = map[ssa.Value]bool{}
			sub.fn = f
			for i, a := range x.Call.Args {
				if i < len(f.Params) && o.distinct(u, a, n+1) {
					sub.params[f.Params[i]] = true
				}
			}
			for _, b := range f.Blocks {
				if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && !o.distinct(&sub, ret.Results[0], n+1) {
					return false
				}
			}
			return len(sub.params) > 0
		}
	case *ssa.Field:
		return o.keyField(u, x.X, x.Field)
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return false
		}
		if al, ok := x.X.(*ssa.Alloc); ok {
			st := soleStored(al)
			return st != nil && o.distinct(u, st, n+1)
		}
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			return o.keyField(u, fa.X, fa.Field)
		}
	}
	return false
}

// keyField: the field of the value of the map holds its key.
func (o *orderFree) keyField(u *unordered, base ssa.Value, field int) bool {
	if al, ok := base.(*ssa.Alloc); ok {
		base = soleStored(al)
	}
	if base == nil {
		return false
	}
	if u.channel {
		if ex, ok := base.(*ssa.Extract); ok && ex.Tuple == u.elem {
			return true
		}
		return base == u.elem
	}
	if base != u.val || u.mapType == nil {
		return false
	}
	return o.mapKeyedBy(u.mapType, field)
}

// mapKeyedBy: whatever is put into maps of the type has its key in the field.
func (o *orderFree) mapKeyedBy(t types.Type, field int) bool {
	found := false
	for _, fn := range o.p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				mu, ok := in.(*ssa.MapUpdate)
				if !ok || !types.Identical(mu.Map.Type(), t) {
					continue
				}
				found = true
				ld, ok := mu.Key.(*ssa.UnOp)
				if !ok {
					return false
				}
				fa, ok := ld.X.(*ssa.FieldAddr)
				if !ok || fa.Field != field || fa.X != mu.Value {
					return false
				}
			}
		}
	}
	return found
}

// holds: an element of the argument list fulfils the condition.
func (o *orderFree) holds(list ssa.Value, ok func(ssa.Value) bool) bool {
	sl, is := list.(*ssa.Slice)
	if !is {
		return false
	}
	al, is := sl.X.(*ssa.Alloc)
	if !is {
		return false
	}
	for _, r := range *al.Referrers() {
		if ia, is := r.(*ssa.IndexAddr); is {
			for _, r2 := range *ia.Referrers() {
				if st, is := r2.(*ssa.Store); is && st.Addr == ssa.Value(ia) && ok(st.Val) {
					return true
				}
			}
		}
	}
	return false
}

// outside: the value is the same in all iterations.
func (o *orderFree) outside(u *unordered, v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.FreeVar, *ssa.Builtin:
		return true
	case *ssa.Parameter:
		return x.Parent() == u.fn && !u.params[v]
	case ssa.Instruction:
		return x.Parent() == u.fn && !u.l.blocks[x.Block()]
	}
	return false
}

// loop decides whether the effects of the iterations are the same in each order.
func (o *orderFree) loop(u *unordered) {
	own := map[ssa.Value]bool{} // what is carried from one iteration to the next, with all values it is made of
	var lists []ssa.Value
	carriedState := ssa.Instruction(nil)
	onlyFlags := true
	for _, in := range u.l.head.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if diagnosticUse(o.p, ph, map[ssa.Value]bool{}) {
			continue
		}
		kind, members, why := o.carried(u, ph)
		if kind == "" {
			o.bad(u, "order", firstIn(u.l, ph), "%s", why)
			continue
		}
		for m := range members {
			own[m] = true
		}
		if kind != "flag" {
			onlyFlags = false
			carriedState = ph
		}
		if kind == "list" {
			lists = append(lists, ph)
		}
		// inside of the loop nothing else may depend on it
		if kind == "same" {
			continue
		}
		for m := range members {
			for _, use := range *m.Referrers() {
				if !u.l.blocks[use.Block()] {
					continue
				}
				if v, ok := use.(ssa.Value); ok && members[v] {
					continue
				}
				switch x := use.(type) {
				case *ssa.DebugRef:
					continue
				case *ssa.BinOp:
					if kind == "extreme" {
						continue
					}
				case *ssa.Call:
					if isLogCall(CalleeKey(&x.Call)) {
						continue
					}
					if kind == "text" && strings.HasPrefix(CalleeKey(&x.Call), "strings.Contains") {
						continue
					}
				case *ssa.MakeInterface:
					if diagnosticUse(o.p, x, map[ssa.Value]bool{}) {
						continue
					}
				}
				o.bad(u, "order", use, "what happens in one iteration of the loop is decided by what was collected in former ones")
			}
		}
	}
	effects := o.effects(u, u.fn, u.l.blocks, own, 0)
	// leaving before all elements were seen
	for _, e := range u.l.exits() {
		if e[0] == u.l.head || u.channel || onlyErrorsOrEnd(e[1]) {
			continue
		}
		if !onlyFlags || effects {
			at := carriedState
			if at == nil {
				at = e[0].Instrs[len(e[0].Instrs)-1]
			}
			o.bad(u, "part", e[0].Instrs[len(e[0].Instrs)-1], "the loop can end early, so that a part of the elements is regarded")
			break
		}
		o.valuesAt(u, e)
	}
	for b := range u.l.blocks {
		for _, in := range b.Instrs {
			v, ok := in.(ssa.Value)
			if !ok || v.Referrers() == nil || u.channel {
				continue
			}
			if _, isPhi := in.(*ssa.Phi); isPhi && b == u.l.head {
				continue
			}
			for _, use := range *v.Referrers() {
				if u.l.blocks[use.Block()] || use.Block() == nil {
					continue
				}
				if _, isPhi := use.(*ssa.Phi); isPhi {
					continue // see valuesAt
				}
				if ret, ok := use.(*ssa.Return); ok {
					o.returned(u, ret)
					continue
				}
				if _, isCall := use.(*ssa.Call); isCall && onlyErrorsOrEnd(use.Block()) {
					continue
				}
				if _, dbg := use.(*ssa.DebugRef); dbg || diagnosticUse(o.p, v, map[ssa.Value]bool{}) || onlyErrorsOrEnd(use.Block()) {
					continue
				}
				o.bad(u, "order", use, "a value of the element the loop ended with is used")
			}
		}
	}
	for b := range u.l.blocks {
		for _, s := range b.Succs {
			if u.l.blocks[s] {
				continue
			}
			if ret, ok := s.Instrs[len(s.Instrs)-1].(*ssa.Return); ok && b != u.l.head {
				o.returned(u, ret)
			}
		}
	}
	for _, l := range append(lists, u.lists...) {
		o.list(u, l, map[ssa.Value]bool{})
	}
	o.r.Sample("%s: loop over %s", FnName(u.fn), u.what)
}

func firstIn(l *natLoop, ph *ssa.Phi) ssa.Instruction {
	for i, e := range ph.Edges {
		if in, ok := e.(ssa.Instruction); ok && l.blocks[ph.Block().Preds[i]] && instrPos(in).IsValid() {
			return in
		}
	}
	return ph
}

// returned: a result that depends on the iteration.
func (o *orderFree) returned(u *unordered, ret *ssa.Return) {
	if (&contentCheck{p: o.p}).failing(ret) {
		return
	}
	for _, v := range ret.Results {
		if isErrorType(v.Type()) || o.outside(u, v) {
			continue
		}
		if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
			if ph, ok := v.(*ssa.Phi); ok && allConst(ph) {
				continue
			}
		}
		if in, ok := v.(ssa.Instruction); ok && u.l.blocks[in.Block()] {
			if ph, ok := v.(*ssa.Phi); ok && ph.Block() == u.l.head {
				continue
			}
			o.bad(u, "order", ret, "the result belongs to the first fitting element")
		}
	}
}

func allConst(ph *ssa.Phi) bool {
	for _, e := range ph.Edges {
		if _, ok := e.(*ssa.Const); !ok {
			return false
		}
	}
	return true
}

// valuesAt: values merged where the loop is left early.
func (o *orderFree) valuesAt(u *unordered, e [2]*ssa.BasicBlock) {
	for _, in := range e[1].Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		for i, pr := range e[1].Preds {
			if pr != e[0] {
				continue
			}
			v := ph.Edges[i]
			if o.outside(u, v) || isErrorType(v.Type()) {
				continue
			}
			if w, ok := v.(*ssa.Phi); ok && w.Block() == u.l.head {
				continue
			}
			if diagnosticUse(o.p, ph, map[ssa.Value]bool{}) {
				continue
			}
			o.bad(u, "order", e[0].Instrs[len(e[0].Instrs)-1], "a value of the element the loop ended with is used")
		}
	}
}

func onlyErrorsOrEnd(b *ssa.BasicBlock) bool {
	return onlyErrors(b, map[*ssa.BasicBlock]bool{}) || endsProgram(b, map[*ssa.BasicBlock]bool{})
}

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// carried classifies what a variable is after the loop: "number" (a sum and the like), "list" (with all elements in
// arbitrary order), "flag" (set to the same value by each iteration doing so), "extreme", "text" (placeholders replaced
// until there are none left), "same".
func (o *orderFree) carried(u *unordered, ph *ssa.Phi) (string, map[ssa.Value]bool, string) {
	members := map[ssa.Value]bool{ph: true}
	var leaves []ssa.Value
	var expand func(v ssa.Value)
	seen := map[ssa.Value]bool{ph: true}
	expand = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		if q, ok := v.(*ssa.Phi); ok && u.l.blocks[q.Block()] {
			members[q] = true
			for _, e := range q.Edges {
				expand(e)
			}
			return
		}
		leaves = append(leaves, v)
	}
	for i, e := range ph.Edges {
		if u.l.blocks[ph.Block().Preds[i]] {
			expand(e)
		}
	}
	if len(leaves) == 0 {
		return "same", members, ""
	}
	kind := ""
	set := func(k string) bool {
		if kind != "" && kind != k {
			return false
		}
		kind = k
		return true
	}
	var constant0 ssa.Value
	for i := 0; i < len(leaves); i++ {
		v := leaves[i]
		fail := func() (string, map[ssa.Value]bool, string) {
			return "", nil, fmt.Sprintf("%s is built up from element to element", nameOf(ph))
		}
		switch x := v.(type) {
		case *ssa.BinOp:
			switch x.Op {
			case token.ADD, token.MUL, token.AND, token.OR, token.XOR, token.SUB:
			default:
				return fail()
			}
			if !isInt(x.Type()) || x.Op == token.SUB && !o.inSelf(u, x.X, ph, seen) {
				return fail()
			}
			a, b := o.inSelf(u, x.X, ph, seen), o.inSelf(u, x.Y, ph, seen)
			if a == b || !set("number") {
				return fail()
			}
			members[x] = true
			for _, side := range []ssa.Value{x.X, x.Y} {
				if !seen[side] && o.inSelf(u, side, ph, seen) {
					leaves = append(leaves, side)
					seen[side] = true
				}
			}
		case *ssa.Call:
			bi, isB := x.Call.Value.(*ssa.Builtin)
			switch {
			case isB && bi.Name() == "append":
				if !o.inSelf(u, x.Call.Args[0], ph, seen) || !set("list") {
					return fail()
				}
				members[x] = true
				if a := x.Call.Args[0]; !seen[a] {
					leaves = append(leaves, a)
					seen[a] = true
				}
			case isB && (bi.Name() == "min" || bi.Name() == "max"):
				if !isInt(x.Type()) || !set("extreme") {
					return fail()
				}
				members[x] = true
			case CalleeKey(&x.Call) == "strings.ReplaceAll":
				if !o.inSelf(u, x.Call.Args[0], ph, seen) || !o.distinct(u, x.Call.Args[1], 0) || !o.untilNoneLeft(u, ph) || !set("text") {
					return fail()
				}
				members[x] = true
				if a := x.Call.Args[0]; !seen[a] {
					leaves = append(leaves, a)
					seen[a] = true
				}
			default:
				return fail()
			}
		default:
			if o.outside(u, v) {
				if constant0 != nil && !sameConst(constant0, v) || !set("flag") {
					return fail()
				}
				constant0 = v
				continue
			}
			// the greatest or smallest number
			if isInt(v.Type()) && o.comparedWith(u, v, members) {
				if !set("extreme") {
					return fail()
				}
				continue
			}
			return fail()
		}
	}
	return kind, members, ""
}

func nameOf(v ssa.Value) string {
	if ph, ok := v.(*ssa.Phi); ok && ph.Comment != "" {
		return ph.Comment
	}
	return "a value"
}

func sameConst(a, b ssa.Value) bool {
	x, ok1 := a.(*ssa.Const)
	y, ok2 := b.(*ssa.Const)
	if !ok1 || !ok2 {
		return a == b
	}
	if x.Value == nil || y.Value == nil {
		return x.Value == y.Value
	}
	return constant.Compare(x.Value, token.EQL, y.Value)
}

// inSelf: the operand is the former value of the variable (possibly changed in this iteration).
func (o *orderFree) inSelf(u *unordered, v ssa.Value, ph *ssa.Phi, seen map[ssa.Value]bool) bool {
	return derivesPhi(u, v, ph, map[ssa.Value]bool{})
}

func derivesPhi(u *unordered, v ssa.Value, ph *ssa.Phi, seen map[ssa.Value]bool) bool {
	if v == ssa.Value(ph) {
		return true
	}
	if seen[v] {
		return false
	}
	seen[v] = true
	in, ok := v.(ssa.Instruction)
	if !ok || !u.l.blocks[in.Block()] {
		return false
	}
	switch x := v.(type) {
	case *ssa.Phi:
		for _, e := range x.Edges {
			if derivesPhi(u, e, ph, seen) {
				return true
			}
		}
	case *ssa.BinOp:
		return derivesPhi(u, x.X, ph, seen) || derivesPhi(u, x.Y, ph, seen)
	case *ssa.Call:
		if len(x.Call.Args) > 0 {
			if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" || CalleeKey(&x.Call) == "strings.ReplaceAll" {
				return derivesPhi(u, x.Call.Args[0], ph, seen)
			}
		}
	}
	return false
}

func (o *orderFree) comparedWith(u *unordered, v ssa.Value, members map[ssa.Value]bool) bool {
	if v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		bo, ok := r.(*ssa.BinOp)
		if !ok || !u.l.blocks[bo.Block()] {
			continue
		}
		switch bo.Op {
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			if members[bo.X] || members[bo.Y] {
				return true
			}
		}
	}
	return false
}

// untilNoneLeft: the loop is repeated until a text is no longer contained in the variable or until nothing was replaced
// any more, so that the order in which placeholders were replaced does not matter.
func (o *orderFree) untilNoneLeft(u *unordered, ph *ssa.Phi) bool {
	for _, l := range o.loopsOf(u.fn) {
		if l == u.l || !l.blocks[u.l.head] {
			continue
		}
		none := false
		for _, e := range l.exits() {
			iff, ok := e[0].Instrs[len(e[0].Instrs)-1].(*ssa.If)
			if !ok {
				return false
			}
			if o.nothingReplaced(u, ph, l, iff.Cond, e[0].Succs[0] == e[1]) {
				continue
			}
			cond := iff.Cond
			for {
				n, ok := cond.(*ssa.UnOp)
				if !ok || n.Op != token.NOT {
					break
				}
				cond = n.X
			}
			call, ok := cond.(*ssa.Call)
			if !ok || CalleeKey(&call.Call) != "strings.Contains" {
				return false
			}
			v := call.Call.Args[0]
			if q, ok := v.(*ssa.Phi); ok && v != ssa.Value(ph) {
				has := false
				for _, x := range q.Edges {
					has = has || x == ssa.Value(ph)
				}
				if !has {
					return false
				}
			}
			none = true
		}
		return none
	}
	return false
}

// nothingReplaced: the condition being "want" says that the text went through the inner loop unchanged.
func (o *orderFree) nothingReplaced(u *unordered, text *ssa.Phi, outer *natLoop, cond ssa.Value, want bool) bool {
	for {
		n, ok := cond.(*ssa.UnOp)
		if !ok || n.Op != token.NOT {
			break
		}
		cond, want = n.X, !want
	}
	if cmp, ok := cond.(*ssa.BinOp); ok && (cmp.Op == token.EQL && want || cmp.Op == token.NEQ && !want) {
		// the text compared with what it was before
		for _, pair := range [][2]ssa.Value{{cmp.X, cmp.Y}, {cmp.Y, cmp.X}} {
			if pair[0] != ssa.Value(text) {
				continue
			}
			for i, e := range text.Edges {
				if !u.l.blocks[text.Block().Preds[i]] && e == pair[1] {
					return true
				}
			}
		}
	}
	flag, ok := cond.(*ssa.Phi)
	if !ok {
		return false
	}
	if flag.Block() == outer.head {
		// checked at the start of the next round
		var in ssa.Value
		for i, e := range flag.Edges {
			if outer.blocks[flag.Block().Preds[i]] {
				if in != nil && in != e {
					return false
				}
				in = e
			} else if b, ok := boolConst(e); !ok || b == want {
				return false
			}
		}
		if flag, ok = in.(*ssa.Phi); !ok {
			return false
		}
	}
	if flag.Block() != u.l.head || text.Block() != flag.Block() {
		return false
	}
	var together func(t, f ssa.Value, d int) bool
	together = func(t, f ssa.Value, d int) bool {
		if b, ok := boolConst(f); ok && b != want {
			return true
		}
		if t == ssa.Value(text) && f == ssa.Value(flag) {
			return true
		}
		tp, ok1 := t.(*ssa.Phi)
		fp, ok2 := f.(*ssa.Phi)
		if !ok1 || !ok2 || tp.Block() != fp.Block() || d > 8 {
			return false
		}
		for i := range tp.Edges {
			if !together(tp.Edges[i], fp.Edges[i], d+1) {
				return false
			}
		}
		return true
	}
	for i := range flag.Edges {
		if !u.l.blocks[flag.Block().Preds[i]] {
			continue
		}
		if !together(text.Edges[i], flag.Edges[i], 0) {
			return false
		}
	}
	return true
}

// boolConst gives the value of a constant.
func boolConst(v ssa.Value) (val, ok bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.Bool {
		return false, false
	}
	return constant.BoolVal(c.Value), true
}

// effects checks what the iterations do to memory that lives longer, and whom they call. It answers whether there is
// such an effect.
func (o *orderFree) effects(u *unordered, fn *ssa.Function, blocks map[*ssa.BasicBlock]bool, own map[ssa.Value]bool, depth int) (any bool) {
	local := func(a ssa.Value) bool {
		base := storeBase(a)
		if al, ok := base.(*ssa.Alloc); ok {
			return blocks[al.Block()]
		}
		if ms, ok := base.(*ssa.MakeSlice); ok {
			return blocks[ms.Block()]
		}
		if mm, ok := base.(*ssa.MakeMap); ok {
			return blocks[mm.Block()]
		}
		return false
	}
	for _, b := range fn.Blocks {
		if !blocks[b] || onlyErrorsOrEnd(b) {
			continue
		}
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if local(x.Addr) {
					continue
				}
				any = true
				if ia, ok := x.Addr.(*ssa.IndexAddr); ok && (o.distinct(u, ia.Index, 0) || u.channel) {
					continue
				}
				if o.outside(u, x.Val) && fn == u.fn {
					continue
				}
				if o.ownUpdate(u, fn, x.Addr, x.Val) {
					continue
				}
				// a variable that lives in memory
				if ap, ok := x.Val.(*ssa.Call); ok {
					if bi, ok := ap.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" && loadFrom(ap.Call.Args[0], x.Addr) {
						if al, ok := x.Addr.(*ssa.Alloc); ok {
							u.lists = append(u.lists, al)
							continue
						}
					}
				}
				if u.channel {
					continue // see C14 and C15
				}
				o.bad(u, "order", in, "something that outlives the iteration is written")
			case *ssa.MapUpdate:
				if local(x.Map) {
					continue
				}
				any = true
				if o.distinct(u, x.Key, 0) || o.outside(u, x.Value) || u.channel {
					continue
				}
				if o.sumOfEntry(x) {
					continue
				}
				o.bad(u, "order", in, "an entry of a map is written that later elements may write as well")
			case *ssa.Send:
				any = true
				if !u.channel {
					o.bad(u, "order", in, "elements are sent")
				}
			case ssa.CallInstruction:
				if u.channel {
					continue
				}
				cc := x.Common()
				k := CalleeKey(cc)
				if bi, ok := cc.Value.(*ssa.Builtin); ok {
					if bi.Name() == "copy" || bi.Name() == "clear" {
						o.bad(u, "order", in, "elements are copied")
					}
					continue
				}
				if isLogCall(k) || isPureExternal(k) || noReturn(k) != "" {
					continue
				}
				cals := o.p.repoCallees(cc)
				if len(cals) == 0 {
					any = true
					if strings.Contains(k, "errors.") {
						continue
					}
					o.bad(u, "order", in, "%s is called for the elements one after the other", k)
					continue
				}
				for _, t := range cals {
					e := o.p.Effects(t)
					if !e.Impure && !e.Elems && len(e.Fields) == 0 && len(e.Globals) == 0 && len(e.FreeVars) == 0 {
						continue
					}
					any = true
					if depth > 3 || len(loopsOf(t)) > 0 && e.Impure {
						o.bad(u, "order", in, "%s is called for the elements one after the other", FnName(t))
						continue
					}
					sub := *u
					sub.params = map[ssa.Value]bool{}
					for i, a := range argsOf(cc) {
						if i < len(t.Params) && o.distinct(u, a, 0) {
							sub.params[t.Params[i]] = true
						}
					}
					all := map[*ssa.BasicBlock]bool{}
					for _, tb := range t.Blocks {
						all[tb] = true
					}
					o.effects(&sub, t, all, own, depth+1)
				}
			}
		}
	}
	return
}

// ownUpdate: x = x + n for numbers.
func (o *orderFree) ownUpdate(u *unordered, fn *ssa.Function, addr, val ssa.Value) bool {
	bo, ok := val.(*ssa.BinOp)
	if !ok || !isInt(bo.Type()) {
		return false
	}
	same := func(v ssa.Value) bool {
		ld, ok := v.(*ssa.UnOp)
		return ok && ld.Op == token.MUL && sameAddr(ld.X, addr)
	}
	switch bo.Op {
	case token.ADD, token.MUL, token.AND, token.OR, token.XOR:
		return same(bo.X) != same(bo.Y)
	case token.SUB:
		return same(bo.X) && !same(bo.Y)
	}
	return false
}

func loadFrom(v, addr ssa.Value) bool {
	ld, ok := v.(*ssa.UnOp)
	return ok && ld.Op == token.MUL && sameAddr(ld.X, addr)
}

func sameAddr(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok1 := a.(*ssa.FieldAddr)
	y, ok2 := b.(*ssa.FieldAddr)
	if ok1 && ok2 {
		return x.Field == y.Field && sameAddr(x.X, y.X)
	}
	l, ok1 := a.(*ssa.UnOp)
	m, ok2 := b.(*ssa.UnOp)
	if ok1 && ok2 && l.Op == token.MUL && m.Op == token.MUL {
		return sameAddr(l.X, m.X)
	}
	return false
}

// sumOfEntry: m[k] = m[k] + n.
func (o *orderFree) sumOfEntry(mu *ssa.MapUpdate) bool {
	bo, ok := mu.Value.(*ssa.BinOp)
	if !ok || bo.Op != token.ADD || !isInt(bo.Type()) {
		return false
	}
	is := func(v ssa.Value) bool {
		lk, ok := v.(*ssa.Lookup)
		return ok && (lk.X == mu.Map || sameAddr(lk.X, mu.Map)) && (lk.Index == mu.Key || sameAddr(lk.Index, mu.Key))
	}
	return is(bo.X) != is(bo.Y)
}

// iterator: maps.Keys and the like.
func (o *orderFree) iterator(fn *ssa.Function, call *ssa.Call) {
	k := CalleeKey(&call.Call)
	switch k {
	case "maps.Keys", "maps.Values", "maps.All":
	case "(reflect.Value).MapKeys", "(reflect.Value).MapRange", "(*sync.Map).Range":
		o.r.Bad("iterator:"+FnName(fn), o.p.At(call), "%s iterates a map by %s", FnName(fn), k)
		return
	default:
		return
	}
	o.r.Count("loops over maps", 1)
	u := &unordered{fn: fn, l: &natLoop{blocks: map[*ssa.BasicBlock]bool{}}, what: "the order in which a map is iterated"}
	for _, use := range *call.Referrers() {
		c, ok := use.(*ssa.Call)
		if ok {
			switch CalleeKey(&c.Call) {
			case "slices.Sorted":
				continue
			case "slices.SortedFunc", "slices.SortedStableFunc":
				if o.total(c.Call.Args[1], nil, u, c, k == "maps.Keys") {
					continue
				}
			case "slices.Collect":
				u.key = c // the elements are keys
				o.list(u, c, map[ssa.Value]bool{})
				continue
			case "maps.Collect", "maps.Insert":
				continue
			}
		}
		if _, dbg := use.(*ssa.DebugRef); dbg {
			continue
		}
		o.r.Bad("iterator:"+FnName(fn), o.p.At(use), "%s uses the elements of a map in the order of the iteration", FnName(fn))
	}
}

// list checks the uses of a list with elements in arbitrary order.
func (o *orderFree) list(u *unordered, l ssa.Value, seen map[ssa.Value]bool) {
	// all names of the list
	alias := map[ssa.Value]bool{}
	var sorts []ssa.Instruction
	var uses []ssa.Instruction
	via := map[ssa.Instruction]ssa.Value{}
	var collect func(v ssa.Value)
	inLoop := func(in ssa.Instruction) bool { return u.l != nil && u.l.blocks[in.Block()] && in.Parent() == u.fn }
	collect = func(v ssa.Value) {
		if alias[v] {
			return
		}
		alias[v] = true
		for _, use := range *v.Referrers() {
			if inLoop(use) {
				if _, ok := use.(*ssa.Phi); ok && use.Block() == u.l.head {
					collect(use.(ssa.Value))
				}
				continue
			}
			switch x := use.(type) {
			case *ssa.Phi:
				collect(x)
			case *ssa.ChangeType:
				collect(x)
			case *ssa.Convert:
				collect(x)
			case *ssa.MakeInterface:
				collect(x)
			case *ssa.Store:
				if al, ok := x.Addr.(*ssa.Alloc); ok && x.Val == v {
					collect(al)
					continue
				}
				uses = append(uses, use)
				via[use] = v
			case *ssa.UnOp:
				if x.Op == token.MUL {
					collect(x)
				}
			case *ssa.MakeClosure:
				// the comparing function of a sort
			default:
				uses = append(uses, use)
				via[use] = v
			}
		}
	}
	collect(l)
	for _, use := range uses {
		if cc := callOf(use); cc != nil && o.sortedBy(u, cc, alias) {
			sorts = append(sorts, use)
		}
	}
	after := func(use ssa.Instruction) bool {
		for _, s := range sorts {
			if s == use {
				return true
			}
			if s.Parent() != use.Parent() {
				continue
			}
			if s.Block() == use.Block() {
				for _, in := range s.Block().Instrs {
					if in == s {
						return true
					}
					if in == use {
						break
					}
				}
			} else if s.Block().Dominates(use.Block()) {
				return true
			}
		}
		return false
	}
	for _, use := range uses {
		if after(use) {
			continue
		}
		switch x := use.(type) {
		case *ssa.DebugRef:
			continue
		case *ssa.Return:
			// whoever gets the list has to sort it
			fn := x.Parent()
			for i, res := range x.Results {
				if !alias[res] {
					continue
				}
				for _, cs := range o.p.CallersOf(fn) {
					v := cs.Value()
					if v == nil || seen[v] {
						continue
					}
					seen[v] = true
					if fn.Signature.Results().Len() == 1 {
						o.list(&unordered{fn: cs.Parent(), what: u.what, key: u.key, val: u.val, mapType: u.mapType, channel: u.channel, l: &natLoop{blocks: map[*ssa.BasicBlock]bool{}}}, v, seen)
						continue
					}
					for _, r := range *v.Referrers() {
						if ex, ok := r.(*ssa.Extract); ok && ex.Index == i {
							o.list(&unordered{fn: cs.Parent(), what: u.what, key: u.key, val: u.val, mapType: u.mapType, channel: u.channel, l: &natLoop{blocks: map[*ssa.BasicBlock]bool{}}}, ex, seen)
						}
					}
				}
			}
			continue
		case *ssa.BinOp:
			continue // compared with nil
		case *ssa.IndexAddr:
			// a loop over the list that does not mind the order either
			if lp := innermost(o.loopsOf(use.Parent()), use.Block()); lp != nil && o.elementLoop(u, x, lp) {
				continue
			}
		case ssa.CallInstruction:
			cc := x.Common()
			if bi, ok := cc.Value.(*ssa.Builtin); ok && (bi.Name() == "len" || bi.Name() == "cap") {
				continue
			}
			if isLogCall(CalleeKey(cc)) {
				continue
			}
			if ts := o.p.repoCallees(cc); len(ts) > 0 {
				for _, t := range ts {
					for i, a := range argsOf(cc) {
						if alias[a] && i < len(t.Params) && !seen[t.Params[i]] {
							seen[t.Params[i]] = true
							o.list(&unordered{fn: t, what: u.what, key: u.key, val: u.val, mapType: u.mapType, channel: u.channel, l: &natLoop{blocks: map[*ssa.BasicBlock]bool{}}}, t.Params[i], seen)
						}
					}
				}
				continue
			}
			if strings.HasPrefix(CalleeKey(cc), "slices.Contains") {
				continue
			}
		}
		if v, ok := use.(ssa.Value); ok && diagnosticUse(o.p, v, map[ssa.Value]bool{}) {
			continue
		}
		msg := "a list is used without having been sorted by something telling all elements apart; its order"
		o.r.Bad("unsorted:"+FnName(use.Parent()), o.p.At(use), "%s: %s depends on %s", FnName(use.Parent()), msg, u.what)
		return
	}
}

// elementLoop: the list is only read by an index loop with effects that are the same in every order.
func (o *orderFree) elementLoop(u *unordered, ia *ssa.IndexAddr, l *natLoop) bool {
	if o.done[ia] {
		return true
	}
	o.done[ia] = true
	var elem ssa.Value
	for _, r := range *ia.Referrers() {
		if ld, ok := r.(*ssa.UnOp); ok && ld.Op == token.MUL {
			elem = ld
		}
	}
	if elem == nil {
		return false
	}
	sub := &unordered{fn: ia.Parent(), l: l, what: u.what, key: elem, elem: elem, mapType: u.mapType, val: elem}
	// the index itself must not be used otherwise
	for _, in := range l.head.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if ph == ia.Index || derivesPhi(sub, ia.Index, ph, map[ssa.Value]bool{}) {
			for b := range l.blocks {
				for _, x := range b.Instrs {
					if x == ssa.Instruction(ia) || b == l.head {
						continue
					}
					for _, op := range x.Operands(nil) {
						if *op == ia.Index {
							if bo, ok := x.(*ssa.BinOp); ok && bo.Op == token.ADD {
								continue
							}
							return false
						}
					}
				}
			}
			continue
		}
	}
	o.loopOverElements(sub, ia.Index)
	return true
}

func (o *orderFree) loopOverElements(u *unordered, index ssa.Value) {
	own := map[ssa.Value]bool{}
	for _, in := range u.l.head.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if ph == index || derivesPhi(u, index, ph, map[ssa.Value]bool{}) {
			continue
		}
		kind, _, why := o.carried(u, ph)
		switch kind {
		case "":
			o.bad(u, "order", firstIn(u.l, ph), "%s", why)
		case "list":
			o.list(u, ph, map[ssa.Value]bool{})
		}
	}
	o.effects(u, u.fn, u.l.blocks, own, 0)
	for _, e := range u.l.exits() {
		if e[0] != u.l.head && !onlyErrorsOrEnd(e[1]) {
			o.bad(u, "part", e[0].Instrs[len(e[0].Instrs)-1], "the loop can end early, so that a part of the elements is regarded")
			break
		}
	}
}

// sortedBy: the call sorts the list so that the result is always the same.
func (o *orderFree) sortedBy(u *unordered, cc *ssa.CallCommon, alias map[ssa.Value]bool) bool {
	if len(cc.Args) == 0 {
		return false
	}
	if !cc.IsInvoke() && alias[cc.Args[0]] {
		switch k := CalleeKey(cc); k {
		case "sort.Strings", "sort.Ints", "slices.Sort":
			return true
		case "sort.Slice", "sort.SliceStable", "slices.SortFunc", "slices.SortStableFunc":
			return o.total(cc.Args[1], alias, u, nil, false)
		}
	}
	// or a function doing so
	ts := o.p.repoCallees(cc)
	if len(ts) == 0 {
		return false
	}
	for _, t := range ts {
		ok := false
		for i, a := range argsOf(cc) {
			if !alias[a] || i >= len(t.Params) || len(t.Blocks) == 0 {
				continue
			}
			pa := map[ssa.Value]bool{t.Params[i]: true}
			for _, r := range *t.Params[i].Referrers() {
				switch x := r.(type) {
				case *ssa.MakeInterface:
					pa[x] = true
				case *ssa.Store:
					if al, ok := x.Addr.(*ssa.Alloc); ok {
						pa[al] = true
						for _, r2 := range *al.Referrers() {
							if ld, ok := r2.(*ssa.UnOp); ok {
								pa[ld] = true
								for _, r3 := range *ld.Referrers() {
									if mi, ok := r3.(*ssa.MakeInterface); ok {
										pa[mi] = true
									}
								}
							}
						}
					}
				}
			}
			for _, b := range t.Blocks {
				for _, in := range b.Instrs {
					if c2 := callOf(in); c2 != nil && o.depth < 4 {
						o.depth++
						if o.sortedBy(u, c2, pa) && dominatesReturns(t, b) {
							ok = true
						}
						o.depth--
					}
				}
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

// total: the comparing function tells all elements of the list apart, i.e. it (also) compares what is distinct.
func (o *orderFree) total(f ssa.Value, alias map[ssa.Value]bool, u *unordered, at ssa.Instruction, keys bool) bool {
	fn, ok := f.(*ssa.Function)
	if !ok {
		if mc, isC := f.(*ssa.MakeClosure); isC {
			fn, ok = mc.Fn.(*ssa.Function)
		}
	}
	if !ok || fn == nil {
		if ct, isC := f.(*ssa.ChangeType); isC {
			return o.total(ct.X, alias, u, at, keys)
		}
		return false
	}
	switch FuncKey(fn) {
	case "strings.Compare", "cmp.Compare", "cmp.Less":
		return true
	}
	if len(fn.Blocks) == 0 || len(fn.Params) != 2 {
		return false
	}
	type part struct {
		side int
		path string
		typ  types.Type
	}
	// which part of which of the two elements a value is
	var partOf func(v ssa.Value, n int) (part, bool)
	partOf = func(v ssa.Value, n int) (part, bool) {
		if n > 12 {
			return part{}, false
		}
		switch x := v.(type) {
		case *ssa.Parameter:
			if x.Parent() == fn && !isInt2(fn, x) {
				for i, q := range fn.Params {
					if q == x {
						return part{i, "", x.Type()}, true
					}
				}
			}
		case *ssa.UnOp:
			if x.Op == token.MUL {
				return partOf(x.X, n+1)
			}
		case *ssa.Alloc:
			if st := soleStored(x); st != nil {
				return partOf(st, n+1)
			}
		case *ssa.FieldAddr:
			pt, ok := partOf(x.X, n+1)
			pt.path += fmt.Sprint(".", x.Field)
			return pt, ok
		case *ssa.Field:
			pt, ok := partOf(x.X, n+1)
			pt.path += fmt.Sprint(".", x.Field)
			return pt, ok
		case *ssa.IndexAddr:
			for i, q := range fn.Params {
				if x.Index == ssa.Value(q) && isInt(q.Type()) {
					return part{i, "", nil}, true
				}
			}
		}
		return part{}, false
	}
	check := func(a, b, res ssa.Value) bool {
		x, ok1 := partOf(a, 0)
		y, ok2 := partOf(b, 0)
		if !ok1 || !ok2 || x.side == y.side || x.path != y.path {
			return false
		}
		if _, basic := a.Type().Underlying().(*types.Basic); !basic || !o.distinctPart(u, x.path, alias, a.Type()) {
			return false
		}
		// decides or is returned
		for _, blk := range fn.Blocks {
			switch t := blk.Instrs[len(blk.Instrs)-1].(type) {
			case *ssa.If:
				if t.Cond == res || flowsFrom(t.Cond, res, map[ssa.Value]bool{}) {
					return true
				}
			case *ssa.Return:
				if len(t.Results) == 1 && flowsFrom(t.Results[0], res, map[ssa.Value]bool{}) {
					return true
				}
			}
		}
		return false
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.BinOp:
				switch x.Op {
				case token.LSS, token.GTR, token.LEQ, token.GEQ:
					if check(x.X, x.Y, x) {
						return true
					}
				}
			case *ssa.Call:
				switch CalleeKey(&x.Call) {
				case "cmp.Compare", "cmp.Less", "strings.Compare":
					if check(x.Call.Args[0], x.Call.Args[1], x) {
						return true
					}
				}
			}
		}
	}
	return false
}

func mockFn(p *Program, fn *ssa.Function) bool {
	return inPkg(fn, "test") || isMockFile(p.Fset.Position(fn.Pos()).Filename)
}

// isInt2: the function gets two positions instead of two elements.
func isInt2(fn *ssa.Function, q *ssa.Parameter) bool {
	r := fn.Signature.Results()
	return r.Len() == 1 && types.Identical(r.At(0).Type().Underlying(), types.Typ[types.Bool]) && isInt(q.Type())
}

// distinctPart: the part of the elements of the list differs between the elements, or elements with the same part are
// interchangeable.
func (o *orderFree) distinctPart(u *unordered, path string, alias map[ssa.Value]bool, t types.Type) bool {
	if path == "" || u.channel {
		return true
	}
	if u.val != nil && strings.Count(path, ".") == 1 {
		// elements which are the values of the map
		var f int
		fmt.Sscanf(path, ".%d", &f)
		if u.mapType != nil && o.mapKeyedBy(u.mapType, f) {
			return true
		}
	}
	// structures built in the loop
	if u.key == nil {
		return false
	}
	kin, ok := u.key.(ssa.Instruction)
	if !ok {
		return false
	}
	for _, b := range kin.Parent().Blocks {
		for _, in := range b.Instrs {
			fa, ok := in.(*ssa.FieldAddr)
			if !ok || fmt.Sprint(".", fa.Field) != path {
				continue
			}
			for _, r := range *fa.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(fa) && o.distinct(u, st.Val, 0) {
					return true
				}
			}
		}
	}
	return false
}

// sources: values of clocks, random numbers and the like do not reach generated files.
func (o *orderFree) sources(starts []goStart) {
	p, r := o.p, o.r
	t := &spread{p: p, from: map[ssa.Value]ssa.Value{}, field: map[*types.Var]ssa.Value{}, what: map[ssa.Value]string{}}
	add := func(v ssa.Value, what string) {
		if v == nil {
			return
		}
		r.Count("sources of arbitrary values", 1)
		t.what[v] = what
		t.add(v, v)
	}
	for _, fn := range p.Funcs {
		if mockFn(p, fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				cc := callOf(in)
				if cc == nil {
					continue
				}
				v, _ := in.(ssa.Value)
				k := CalleeKey(cc)
				switch {
				case k == "time.Now" || k == "time.Since" || k == "time.Until":
					add(v, "the current time")
				case strings.HasPrefix(k, "math/rand") || strings.HasPrefix(k, "(*math/rand") || strings.HasPrefix(k, "crypto/rand") || strings.HasPrefix(k, "hash/maphash") || strings.HasPrefix(k, "(*hash/maphash"):
					add(v, "random numbers")
					for _, a := range cc.Args {
						if _, isSl := a.Type().Underlying().(*types.Slice); isSl {
							add(a, "random numbers")
						}
					}
				case k == "os.Getpid" || k == "os.Getppid" || k == "os.Hostname" || k == "runtime.NumGoroutine":
					add(v, "properties of the process")
				case strings.HasSuffix(k, ".ModTime") || strings.HasSuffix(k, ").ModTime"):
					add(v, "the age of files")
				case strings.HasPrefix(k, "fmt.") && printsAddress(cc):
					add(v, "the address of a value in memory")
				case strings.HasSuffix(k, ".CreateTemp") || strings.HasSuffix(k, ".MkdirTemp"):
					add(v, "the random name of a temporary file")
				case strings.HasPrefix(k, "sync/atomic.Add") || strings.HasPrefix(k, "(*sync/atomic.") && strings.HasSuffix(k, ").Add"):
					add(v, "the order in which goroutines are scheduled")
				}
			}
		}
	}
	// which of several goroutines it is, if they share their work
	for _, g := range starts {
		fn := g.fn
		if fn == nil {
			continue
		}
		recv := false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if u, ok := in.(*ssa.UnOp); ok && u.Op == token.ARROW {
					recv = true
				}
			}
		}
		if !recv {
			continue
		}
		for _, q := range fn.Params {
			if isInt(q.Type()) {
				add(q, "the order in which goroutines are scheduled")
			}
		}
	}
	// numbers counted up by several goroutines
	inWorker := map[*ssa.Function]bool{}
	for _, g := range starts {
		if g.fn != nil {
			for f := range p.Reach(g.fn) {
				inWorker[f] = true
			}
		}
	}
	for fn := range inWorker {
		if mockFn(p, fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok || !isInt(st.Val.Type()) {
					continue
				}
				gl, ok := storeBase(st.Addr).(*ssa.Global)
				if !ok {
					continue
				}
				for _, f2 := range p.Funcs {
					for _, b2 := range f2.Blocks {
						for _, in2 := range b2.Instrs {
							if ld, ok := in2.(*ssa.UnOp); ok && ld.Op == token.MUL && storeBase(ld.X) == ssa.Value(gl) && sameAddr(ld.X, st.Addr) {
								add(ld, "the order in which goroutines are scheduled")
							}
						}
					}
				}
			}
		}
	}
	t.run()
	var bad []string
	for s := range t.sinks {
		bad = append(bad, s)
	}
	sort.Strings(bad)
	for _, s := range bad {
		k := t.sinks[s]
		r.Bad("arbitrary:"+s, p.At(k.at), "%s writes %s (%s) into a generated file or its name", FnName(k.at.Parent()), t.what[k.src], p.Pos(k.src.Pos()))
	}
}

// spread follows values forward through the program.
type spread struct {
	p     *Program
	from  map[ssa.Value]ssa.Value // tainted value to its source
	field map[*types.Var]ssa.Value
	what  map[ssa.Value]string
	queue []ssa.Value
	sinks map[string]sinkAt
}

type sinkAt struct {
	at  ssa.Instruction
	src ssa.Value
}

func (t *spread) add(v, src ssa.Value) {
	if v == nil || t.from[v] != nil || isErrorType(v.Type()) {
		return
	}
	if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
		return // decisions
	}
	t.from[v] = src
	t.queue = append(t.queue, v)
}

func (t *spread) run() {
	t.sinks = map[string]sinkAt{}
	for len(t.queue) > 0 {
		v := t.queue[0]
		t.queue = t.queue[1:]
		t.uses(v)
	}
}

func (t *spread) uses(v ssa.Value) {
	src := t.from[v]
	if v.Referrers() == nil {
		return
	}
	for _, use := range *v.Referrers() {
		switch x := use.(type) {
		case *ssa.DebugRef, *ssa.If:
		case *ssa.Store:
			if x.Val != v {
				continue
			}
			switch a := x.Addr.(type) {
			case *ssa.FieldAddr:
				fv := fieldVar(a.X.Type(), a.Field)
				if fv != nil && t.field[fv] == nil {
					t.field[fv] = src
					t.loads(fv, src)
				}
				t.add(storeBase(a.X), src)
			default:
				t.add(storeBase(x.Addr), src)
			}
		case *ssa.MapUpdate:
			if x.Value == v || x.Key == v {
				t.add(x.Map, src)
			}
		case *ssa.IndexAddr:
			if x.X == v {
				t.add(x, src)
			}
		case *ssa.Index:
			if x.X == v {
				t.add(x, src)
			}
		case *ssa.Lookup:
			if x.X == v {
				t.add(x, src)
			}
		case *ssa.FieldAddr:
			// other fields of a structure are not concerned
			if _, ok := v.(*ssa.Alloc); !ok {
				t.add(x, src)
			}
		case *ssa.Return:
			fn := x.Parent()
			for i, res := range x.Results {
				if res != v {
					continue
				}
				for _, cs := range t.p.CallersOf(fn) {
					cv := cs.Value()
					if cv == nil {
						continue
					}
					if fn.Signature.Results().Len() == 1 {
						t.add(cv, src)
						continue
					}
					for _, r := range *cv.Referrers() {
						if ex, ok := r.(*ssa.Extract); ok && ex.Index == i {
							t.add(ex, src)
						}
					}
				}
			}
		case *ssa.MakeClosure:
			if fn, ok := x.Fn.(*ssa.Function); ok {
				for i, b := range x.Bindings {
					if b == v && i < len(fn.FreeVars) {
						t.add(fn.FreeVars[i], src)
					}
				}
			}
		case ssa.CallInstruction:
			t.call(x, v, src)
		case *ssa.Send:
			if x.X == v {
				t.add(x.Chan, src)
			}
		case ssa.Value:
			t.add(x, src)
		}
	}
}

func (t *spread) loads(fv *types.Var, src ssa.Value) {
	for _, fn := range t.p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.FieldAddr:
					if fieldVar(x.X.Type(), x.Field) == fv {
						t.add(x, src)
					}
				case *ssa.Field:
					if fieldVar(x.X.Type(), x.Field) == fv {
						t.add(x, src)
					}
				}
			}
		}
	}
}

func (t *spread) call(x ssa.CallInstruction, v, src ssa.Value) {
	cc := x.Common()
	k := CalleeKey(cc)
	if isLogCall(k) || noReturn(k) != "" || strings.Contains(k, "errors.") || k == "fmt.Errorf" {
		return
	}
	if bi, ok := cc.Value.(*ssa.Builtin); ok {
		switch bi.Name() {
		case "append", "min", "max":
			t.add(x.Value(), src)
		case "copy":
			if cc.Args[1] == v {
				t.add(storeBase(cc.Args[0]), src)
			}
		}
		return
	}
	name := k
	if i := strings.LastIndex(name, "."); i >= 0 {
		name = name[i+1:]
	}
	if cc.IsInvoke() {
		name = cc.Method.Name()
	}
	pos := -1
	for i, a := range argsOf(cc) {
		if a == v {
			pos = i
		}
	}
	bad := func() {
		key := FnName(x.Parent()) + ":" + name
		if _, ok := t.sinks[key]; !ok {
			t.sinks[key] = sinkAt{x, src}
		}
	}
	ts := t.p.repoCallees(cc)
	isFile := false
	if cc.IsInvoke() && len(cc.Args) >= 0 {
		isFile = true
	}
	switch name {
	case "Write", "WriteString", "WriteByte", "WriteRune", "Fprintf", "Fprint", "Fprintln", "WriteFile":
		if pos > 0 {
			bad()
		}
		return
	case "Copy", "CopyBuffer", "CopyN":
		if pos == 1 {
			bad()
		}
		return
	case "Rename":
		// the second path is the name which remains
		if pos == len(argsOf(cc))-1 {
			bad()
		}
		return
	case "Create", "OpenFile":
		if isFile || strings.HasPrefix(k, "os.") {
			if pos >= 0 && len(ts) == 0 || isFile && pos > 0 {
				bad()
			}
			return
		}
	case "CreateTemp", "MkdirTemp", "Remove", "RemoveAll", "Stat", "Open", "Close", "Sub", "Before", "After", "Equal", "Compare", "Chtimes", "Sleep", "Done", "Add", "ReadFile", "Read", "ReadAll", "Sync", "Chmod", "Exists":
		if name == "Sub" || name == "Add" && strings.Contains(k, "time.") {
			t.add(x.Value(), src)
		}
		return
	case "Seed", "NewSource", "New":
		t.add(x.Value(), src)
		return
	case "Command", "CommandContext":
		return // names of files to work on; their contents are what counts
	}
	if strings.Contains(k, "epub") && len(ts) == 0 {
		bad()
		return
	}
	if len(ts) > 0 {
		for _, f := range ts {
			if pos >= 0 && pos < len(f.Params) {
				t.add(f.Params[pos], src)
			}
		}
		return
	}
	// library functions: the result depends on the argument, and so may what is pointed to
	if rv := x.Value(); rv != nil {
		if tup, ok := rv.Type().(*types.Tuple); ok {
			for _, r := range *rv.Referrers() {
				if ex, ok := r.(*ssa.Extract); ok && ex.Index < tup.Len() {
					t.add(ex, src)
				}
			}
		} else {
			t.add(rv, src)
		}
	}
}

// printsAddress: a call of fmt's printing functions, which prints where a
// value lies in memory: by the verb %p, or by printing a pointer, channel or
// function, or a value which holds one below its top level, that doesn't say
// itself how to print it.
func printsAddress(cc *ssa.CallCommon) bool {
	f := cc.StaticCallee()
	if f == nil || len(cc.Args) == 0 {
		return false
	}
	n := f.Name()
	switch n {
	case "Sprintf", "Sprint", "Sprintln", "Fprintf", "Fprint", "Fprintln", "Errorf", "Appendf", "Append", "Appendln":
	default:
		return false
	}
	if strings.HasSuffix(n, "f") && len(cc.Args) >= 2 {
		if c, ok := cc.Args[len(cc.Args)-2].(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String {
			s := constant.StringVal(c.Value)
			for i := 0; i < len(s); i++ {
				if s[i] != '%' {
					continue
				}
				for i++; i < len(s) && strings.IndexByte("+-# 0123456789.*[]", s[i]) >= 0; i++ {
				}
				if i < len(s) && s[i] == 'p' {
					return true
				}
				if i < len(s) && s[i] == 'T' {
					return false // type names only: no need to look at the values
				}
			}
		}
	}
	for _, a := range variadicArgs(cc.Args[len(cc.Args)-1]) {
		t := a.Type()
		if mi, ok := a.(*ssa.MakeInterface); ok {
			t = mi.X.Type()
		}
		if addressInside(t, 0, map[types.Type]bool{}) {
			return true
		}
	}
	return false
}

func addressInside(t types.Type, depth int, seen map[types.Type]bool) bool {
	for _, m := range []string{"String", "Error", "Format", "GoString"} {
		if obj, _, _ := types.LookupFieldOrMethod(t, false, nil, m); obj != nil {
			if _, isFn := obj.(*types.Func); isFn {
				return false
			}
		}
	}
	if seen[t] {
		return false
	}
	seen[t] = true
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		switch u.Elem().Underlying().(type) {
		case *types.Struct, *types.Map, *types.Slice, *types.Array:
			if depth == 0 {
				return addressInside(u.Elem(), 1, seen)
			}
		}
		return true
	case *types.Chan, *types.Signature:
		return true
	case *types.Slice:
		return addressInside(u.Elem(), depth+1, seen)
	case *types.Array:
		return addressInside(u.Elem(), depth+1, seen)
	case *types.Map:
		return addressInside(u.Elem(), depth+1, seen) || addressInside(u.Key(), depth+1, seen)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if addressInside(u.Field(i).Type(), depth+1, seen) {
				return true
			}
		}
	}
	return false
}
