package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Bold and italic text: the parser searches for the positions at which markers are to be inserted. The search keeps a
// list of items; it is interpreted with lists known by the elements open at their end.

var tagPattern = regexp.MustCompile(`^<(/?)([a-zA-Z][a-zA-Z0-9]*)>$`)

// markers: what the markers the parser inserts are replaced by.
func (c *markupCheck) markers() {
	c.place.pairs = map[string]map[string]bool{}
	for _, fn := range c.p.Funcs {
		sig := fn.Signature
		if !inPkg(fn, "generator") || sig.Recv() == nil || !c.ofPage(sig.Recv().Type()) || sig.Results().Len() != 1 || !isStringType(sig.Results().At(0).Type()) {
			continue
		}
		c.place.replaces(fn, map[string]bool{})
	}
	c.tag = map[string]string{}
	for m, at := range c.place.inserted() {
		bys := c.place.pairs[m]
		if len(bys) == 0 {
			// decided by C26
			continue
		}
		c.r.Count("markers of formatting", 1)
		if len(bys) > 1 {
			c.bad("marker:"+m, at, "the marker %s is replaced by different texts", m)
			continue
		}
		for by := range bys {
			if t := tagPattern.FindStringSubmatch(by); t != nil {
				c.tag[m] = t[1] + t[2]
				continue
			}
			c.judge(at.Parent(), at, markText{{lit: by}}, &cfgPath{p: c.p}, map[string]bool{})
		}
	}
}

func (c *markupCheck) ofPage(t types.Type) bool {
	if q, ok := t.(*types.Pointer); ok {
		t = q.Elem()
	}
	n, ok := t.(*types.Named)
	return ok && n.Obj() == c.page.Obj()
}

// --- values ---

type fmtUnknown struct {
	src ssa.Value
	new bool
}

// fmtInt is the value of sym plus a constant.
type fmtInt struct {
	sym ssa.Value
	off int64
}
type fmtBool bool
type fmtStr string
type fmtStruct []any
type fmtTuple []any
type fmtPtr struct {
	al   *ssa.Alloc
	path string
}
type fmtSlice struct {
	al *ssa.Alloc
	n  int
}
type fmtElem struct {
	st   *fmtStack
	last bool
}
type fmtField struct {
	el fmtElem
	f  int
}
type fmtLen struct {
	st  *fmtStack
	off int
}

// a fmtStack is a list of items known by what is open at its end.
type fmtStack struct {
	opens  string // types of the open items, innermost last, like ",0,2"
	last   string // type of the last item
	some   int    // 1: has items, -1: has none
	end    any    // end of the last item: fmtInt or nil
	bad    string
	failed bool // of a search without success
}

func (s *fmtStack) key() string {
	return fmt.Sprintf("%s/%s/%d/%v/%v", s.opens, s.last, s.some, s.failed, s.bad)
}

type fmtState struct {
	env     map[ssa.Value]any
	mem     map[string]any
	decided map[ssa.Value]bool
	sigs    map[*ssa.BasicBlock][]string
	wide    map[ssa.Value]fmtInt
}

func (s *fmtState) clone() *fmtState {
	n := &fmtState{env: map[ssa.Value]any{}, mem: map[string]any{}, decided: map[ssa.Value]bool{}, sigs: map[*ssa.BasicBlock][]string{}, wide: map[ssa.Value]fmtInt{}}
	for k, v := range s.env {
		n.env[k] = v
	}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	for k, v := range s.decided {
		n.decided[k] = v
	}
	for k, v := range s.sigs {
		n.sigs[k] = v
	}
	for k, v := range s.wide {
		n.wide[k] = v
	}
	return n
}

func newFmtState() *fmtState { return (&fmtState{}).clone() }

type fmtFrame struct {
	fn *ssa.Function
	up *fmtFrame
	k  func(st *fmtState, rets []any)
	// where a run of a part of a loop ends
	head *ssa.BasicBlock
	end  func(st *fmtState, prev *ssa.BasicBlock)
	// where the loop is left
	loop *counting
}

type fmtSearch struct {
	c    *markupCheck
	item *types.Named
	// fields
	typ int
	// functions searching
	fns   map[*ssa.Function]bool
	steps int
	elem  any // while looking for what is inserted: the type of the items
	cur   any // type of the item a loop is at
	mark  map[string]bool
	// what the types of items stand for
	tag  map[string]string
	todo []fmtCall
	seen map[string]bool
}

type fmtCall struct {
	fn   *ssa.Function
	args []any
	from ssa.Instruction
}

func (e *fmtSearch) isList(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && types.Identical(s.Elem(), e.item)
}

// formatting judges the search for bold and italic texts.
func (c *markupCheck) formatting() {
	e := &fmtSearch{c: c, fns: map[*ssa.Function]bool{}, mark: map[string]bool{}, tag: map[string]string{}, seen: map[string]bool{}}
	// functions calling themselves which give a list of items and whether there is one
	for _, fn := range c.p.Funcs {
		if !inPkg(fn, "parser") || len(fn.Blocks) == 0 || !c.recursive(fn) {
			continue
		}
		res := fn.Signature.Results()
		bools := 0
		var item *types.Named
		for i := 0; i < res.Len(); i++ {
			t := res.At(i).Type()
			if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
				bools++
			}
			if s, ok := t.Underlying().(*types.Slice); ok {
				if n, _ := namedStruct(s.Elem()); n != nil {
					item = n
				}
			}
		}
		if res.Len() != 2 || bools != 1 || item == nil || e.item != nil && e.item != item {
			continue
		}
		e.item = item
		e.fns[fn] = true
	}
	if e.item == nil {
		c.r.Undecided("search", "-", "the search for bold and italic text was not found")
		return
	}
	_, st := namedStruct(e.item)
	e.typ = -1
	for i := 0; i < st.NumFields(); i++ {
		_, ok := st.Field(i).Type().(*types.Named)
		if b, isB := st.Field(i).Type().Underlying().(*types.Basic); ok && isB && b.Info()&(types.IsInteger|types.IsString) != 0 {
			e.typ = i
		}
	}
	if e.typ < 0 {
		c.r.Undecided("items", "-", "the type of items was not found")
		return
	}
	// what is inserted for each type of items
	kind := st.Field(e.typ).Type().(*types.Named)
	scope := kind.Obj().Pkg().Scope()
	var kinds []string
	for _, n := range scope.Names() {
		if k, ok := scope.Lookup(n).(*types.Const); ok && types.Identical(k.Type(), kind) {
			kinds = append(kinds, k.Val().ExactString())
		}
	}
	sort.Strings(kinds)
	users := map[*ssa.Function]bool{}
	climbed := map[*ssa.Function]bool{}
	var climb func(fn *ssa.Function)
	climb = func(fn *ssa.Function) {
		if climbed[fn] {
			return
		}
		climbed[fn] = true
		sites, _ := c.p.sitesOf(fn)
		for _, s := range sites {
			f := s.Parent()
			if !e.fns[f] && !e.concerns(f.Signature) {
				users[f] = true
				continue
			}
			climb(f)
		}
	}
	for fn := range e.fns {
		climb(fn)
	}
	for _, k := range kinds {
		e.mark = map[string]bool{}
		e.elem = fmtInt{off: mustInt(k)}
		for f := range users {
			e.start(f, nil)
		}
		var ms []string
		for m := range e.mark {
			ms = append(ms, m)
		}
		if len(ms) == 1 && c.tag[ms[0]] != "" {
			e.tag[k] = c.tag[ms[0]]
			c.r.Count("kinds of formatting", 1)
			continue
		}
		sort.Strings(ms)
		e.tag[k] = "?" + strings.Join(ms, " ")
	}
	e.elem = nil
	// the search itself
	for n := 0; n < len(e.todo); n++ {
		if n > 400 {
			c.r.Undecided("search", "-", "too many states of the search for formatting")
			return
		}
		t := e.todo[n]
		c.r.Count("states of the search for formatting", 1)
		e.activation(t)
	}
}

func mustInt(s string) int64 {
	v := constant.MakeFromLiteral(s, token.INT, 0)
	n, _ := constant.Int64Val(v)
	return n
}

// start interprets a function using the search.
func (e *fmtSearch) start(f *ssa.Function, args []any) {
	st := newFmtState()
	for _, q := range f.Params {
		st.env[q] = fmtUnknown{}
	}
	e.steps = 0
	e.run(&fmtFrame{fn: f, k: func(*fmtState, []any) {}}, f.Blocks[0], nil, 0, st)
}

// activation interprets the search, called in the given state.
func (e *fmtSearch) activation(t fmtCall) {
	st := newFmtState()
	for i, q := range t.fn.Params {
		a := t.args[i]
		if s, ok := a.(*fmtStack); ok {
			n := *s
			n.end = nil
			for _, p := range t.fn.Params {
				if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
					n.end = fmtInt{sym: p}
				}
			}
			a = &n
		}
		if b, ok := q.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			a = fmtInt{sym: q}
		}
		st.env[q] = a
	}
	e.steps = 0
	e.run(&fmtFrame{fn: t.fn, k: func(st *fmtState, rets []any) {
		var ok any
		var list *fmtStack
		for _, r := range rets {
			switch x := r.(type) {
			case *fmtStack:
				list = x
			case fmtBool, fmtUnknown:
				ok = x
			}
		}
		if b, is := ok.(fmtBool); is && !bool(b) {
			return
		}
		at := t.fn.Blocks[0].Instrs[0]
		switch {
		case list == nil:
			e.c.bad("result:"+t.fn.Name(), at, "undecided: the list of items found is not known")
		case list.failed:
			e.c.bad("result:"+t.fn.Name(), at, "a search without success is taken as successful")
		case list.bad != "":
			e.c.bad("nesting:"+t.fn.Name(), at, "%s", list.bad)
		case list.opens != "":
			e.c.bad("open:"+t.fn.Name(), at, "the search may succeed although %s is still open", e.open(list))
		}
	}}, t.fn.Blocks[0], nil, 0, st)
}

func (e *fmtSearch) open(s *fmtStack) (out string) {
	for _, k := range strings.Split(strings.TrimPrefix(s.opens, ","), ",") {
		out += "<" + e.tag[k] + ">"
	}
	return
}

// le: a is not behind b.
func (st *fmtState) le(a, b any) bool {
	x, ok1 := a.(fmtInt)
	y, ok2 := b.(fmtInt)
	if !ok1 || !ok2 {
		return false
	}
	for d := 0; d < 5; d++ {
		if x.sym == y.sym {
			return x.off <= y.off
		}
		w, ok := st.wide[y.sym]
		if !ok {
			return false
		}
		y = fmtInt{w.sym, w.off + y.off}
	}
	return false
}

// push adds an item to a list.
func (e *fmtSearch) push(s *fmtStack, it any, at ssa.Instruction, st *fmtState) *fmtStack {
	n := *s
	x, ok := it.(fmtStruct)
	if !ok {
		n.bad = "undecided: an item not known is added to the list"
		return &n
	}
	k, ok := x[e.typ].(fmtInt)
	if !ok || k.sym != nil {
		n.bad = "undecided: an item of a type not known is added to the list"
		return &n
	}
	key := fmt.Sprint(k.off)
	tag := e.tag[key]
	n.some, n.last = 1, key
	name := at.Parent().Name()
	switch {
	case tag == "" || strings.HasPrefix(tag, "?"):
		if e.elem == nil {
			e.c.bad("inserted:"+key, at, "for items of type %s, added here, not exactly one opening or closing marker is inserted (%s)", key, strings.TrimPrefix(tag, "?"))
		}
	case strings.HasPrefix(tag, "/"):
		i := strings.LastIndex(n.opens, ",")
		if i < 0 {
			n.bad = "</" + tag[1:] + "> is inserted where nothing is open"
		} else if o := e.tag[n.opens[i+1:]]; o != tag[1:] {
			n.bad = "</" + tag[1:] + "> is inserted while the innermost open element is <" + o + ">"
		} else {
			n.opens = n.opens[:i]
		}
	default:
		n.opens += "," + key
		if strings.Count(n.opens, ",") > 4 {
			n.bad = "undecided: elements are opened without end"
		}
	}
	if s.bad != "" {
		n.bad = s.bad
	}
	var pos, length any
	for i, v := range x {
		if i == e.typ {
			continue
		}
		if q, ok := v.(fmtInt); ok {
			if q.sym == nil {
				length = q
			} else {
				pos = q
			}
		}
	}
	if pos == nil || length == nil || e.elem != nil {
		n.end = nil
		return &n
	}
	if s.end != nil && !st.le(s.end, pos) {
		e.c.bad("order:"+name, at, "an item is placed before the end of the item in front of it")
	}
	l := length.(fmtInt).off
	p := pos.(fmtInt)
	n.end = fmtInt{p.sym, p.off + l}
	if l > 0 {
		e.marks(at, st, p, l, tag)
	}
	return &n
}

var formatTags = map[int64][]string{2: {"i", "em"}, 3: {"b", "strong"}}

// marks: the characters an item stands for are the apostrophes of its kind.
func (e *fmtSearch) marks(at ssa.Instruction, st *fmtState, pos fmtInt, n int64, tag string) {
	if tag != "" && !strings.HasPrefix(tag, "?") {
		if l := formatTags[n]; !contains(l, strings.TrimPrefix(tag, "/")) {
			e.c.bad("length:"+at.Parent().Name(), at, "%d apostrophes become <%s>", n, tag)
		}
	}
	compared := false
	for v, b := range st.decided {
		in, ok := v.(ssa.Instruction)
		if !ok || in.Parent() != at.Parent() {
			continue
		}
		p, m, ok := e.compares(v, st)
		if !ok {
			continue
		}
		compared = true
		if q, ok := p.(fmtInt); ok && b && m >= n && q == pos {
			return
		}
	}
	if compared {
		e.c.bad("apostrophes:"+at.Parent().Name(), at, "%d characters are replaced without having found that they are apostrophes", n)
	}
}

// compares: the condition is whether there are m apostrophes at a position.
func (e *fmtSearch) compares(v ssa.Value, st *fmtState) (any, int64, bool) {
	quotes := func(x ssa.Value) int64 {
		t := constText(e.c.p.resolve(x))
		if t != "\x00" && t != "" && strings.Trim(t, "'") == "" {
			return int64(len(t))
		}
		return 0
	}
	var sl *ssa.Slice
	m := int64(0)
	switch u := v.(type) {
	case *ssa.BinOp:
		if u.Op != token.EQL {
			return nil, 0, false
		}
		x, y := u.X, u.Y
		if quotes(x) > 0 {
			x, y = y, x
		}
		m = quotes(y)
		sl, _ = e.c.p.resolve(x).(*ssa.Slice)
	case *ssa.Call:
		if CalleeKey(&u.Call) == "strings.HasPrefix" {
			m = quotes(u.Call.Args[1])
			sl, _ = e.c.p.resolve(u.Call.Args[0]).(*ssa.Slice)
		}
	}
	if sl == nil || m == 0 || sl.Low == nil {
		return nil, 0, false
	}
	return e.get(sl.Low, st), m, true
}

func (e *fmtSearch) get(v ssa.Value, st *fmtState) any {
	switch u := v.(type) {
	case *ssa.Const:
		if u.Value == nil {
			if e.isList(u.Type()) {
				return &fmtStack{some: -1}
			}
			return fmtUnknown{}
		}
		switch u.Value.Kind() {
		case constant.Bool:
			return fmtBool(constant.BoolVal(u.Value))
		case constant.Int:
			n, _ := constant.Int64Val(u.Value)
			return fmtInt{off: n}
		case constant.String:
			return fmtStr(constant.StringVal(u.Value))
		}
		return fmtUnknown{}
	case *ssa.Global:
		return fmtUnknown{}
	}
	if x, ok := st.env[v]; ok {
		return x
	}
	return fmtUnknown{src: v}
}

// used notes the markers used by an instruction.
func (e *fmtSearch) used(in ssa.Instruction, st *fmtState) {
	if e.cur == nil {
		return
	}
	var ops []*ssa.Value
	for _, o := range in.Operands(ops) {
		if o == nil || *o == nil {
			continue
		}
		if _, ok := in.(*ssa.Phi); ok {
			continue
		}
		if s, ok := e.get(*o, st).(fmtStr); ok {
			for _, m := range markerPattern.FindAllString(string(s), -1) {
				e.mark[m] = true
			}
		}
	}
}

// run interprets a block.
func (e *fmtSearch) run(fr *fmtFrame, b, prev *ssa.BasicBlock, pc int, st *fmtState) {
	if e.steps++; e.steps > 200000 {
		e.c.many = true
		return
	}
	if pc == 0 {
		if fr.loop != nil && prev == fr.loop.test && b == fr.loop.after {
			return
		}
		if fr.head == b && prev != nil && fr.end != nil {
			fr.end(st, prev)
			return
		}
		if !e.enter(fr, b, prev, st) {
			return
		}
		for pc < len(b.Instrs) {
			if _, ok := b.Instrs[pc].(*ssa.Phi); !ok {
				break
			}
			pc++
		}
	}
	for ; pc < len(b.Instrs); pc++ {
		in := b.Instrs[pc]
		e.used(in, st)
		if v, ok := in.(ssa.Value); ok {
			delete(st.decided, v)
		}
		switch u := in.(type) {
		case *ssa.If:
			x := e.get(u.Cond, st)
			if v, ok := x.(fmtBool); ok {
				i := 1
				if v {
					i = 0
				}
				e.run(fr, b.Succs[i], b, 0, st)
				return
			}
			for i, val := range []bool{true, false} {
				n := st.clone()
				e.decide(u.Cond, val, n)
				e.run(fr, b.Succs[i], b, 0, n)
			}
			return
		case *ssa.Jump:
			e.run(fr, b.Succs[0], b, 0, st)
			return
		case *ssa.Return:
			var rets []any
			for _, r := range u.Results {
				rets = append(rets, e.get(r, st))
			}
			fr.k(st, rets)
			return
		case *ssa.Panic:
			return
		case *ssa.Store:
			e.store(e.get(u.Addr, st), e.get(u.Val, st), st)
		case *ssa.Call:
			if e.call(fr, b, pc, u, st) {
				return
			}
		case ssa.Value:
			st.env[u] = e.eval(u, st)
		}
	}
}

// decide: the condition is known from here on.
func (e *fmtSearch) decide(v ssa.Value, val bool, st *fmtState) {
	for d := 0; d < 10 && v != nil; d++ {
		x, has := st.env[v]
		st.env[v] = fmtBool(val)
		st.decided[v] = val
		if n, ok := v.(*ssa.UnOp); ok && n.Op == token.NOT {
			v, val = n.X, !val
			continue
		}
		u, ok := x.(fmtUnknown)
		if !has || !ok || u.src == v {
			return
		}
		v = u.src
	}
}

// enter evaluates the phis of a block; false if everything from here on is known already.
func (e *fmtSearch) enter(fr *fmtFrame, b, prev *ssa.BasicBlock, st *fmtState) bool {
	i := -1
	for k, q := range b.Preds {
		if q == prev {
			i = k
		}
	}
	vals := map[ssa.Value]any{}
	if i >= 0 {
		for _, in := range b.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			vals[phi] = e.get(phi.Edges[i], st)
		}
	}
	l := loopsOf(b.Parent())[b]
	if l == nil || prev == nil {
		for v, x := range vals {
			st.env[v] = x
			delete(st.decided, v)
		}
		return true
	}
	back := l.blocks[prev]
	if !back {
		delete(st.sigs, b)
		for v, x := range vals {
			st.env[v] = x
			delete(st.wide, v)
		}
		return e.fold(fr, l, prev, st)
	}
	for v, x := range vals {
		old := st.env[v]
		n, ok := x.(fmtInt)
		o, ok2 := old.(fmtInt)
		switch {
		case ok && ok2 && n == o:
		case ok && ok2 && n.sym == o.sym && n.off >= o.off:
			if n.sym != v {
				st.wide[v] = o
			}
			x = fmtInt{sym: v}
		case ok && ok2:
			x = fmtUnknown{src: v}
			delete(st.wide, v)
		}
		if q, ok := x.(fmtUnknown); ok && q.src != nil {
			x = fmtUnknown{src: v}
		}
		st.env[v] = x
		delete(st.decided, v)
	}
	sig := ""
	for _, in := range b.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		sig += fmtKey(st.env[phi]) + ";"
	}
	for _, s := range st.sigs[b] {
		if s == sig {
			return false
		}
	}
	if len(st.sigs[b]) > 6 {
		e.c.many = true
		return false
	}
	st.sigs[b] = append(append([]string{}, st.sigs[b]...), sig)
	return true
}

func fmtKey(x any) string {
	switch u := x.(type) {
	case *fmtStack:
		return u.key()
	case fmtInt:
		if u.sym != nil {
			return fmt.Sprintf("%s%+d", u.sym.Name(), u.off)
		}
		return fmt.Sprint(u.off)
	case fmtBool, fmtStr:
		return fmt.Sprint(u)
	case fmtUnknown:
		return "?"
	}
	return fmt.Sprintf("%T", x)
}

// fold runs a loop over the items of a list; true if the loop is none.
func (e *fmtSearch) fold(fr *fmtFrame, l *natLoop, prev *ssa.BasicBlock, st *fmtState) bool {
	ct := countingOf(l)
	if ct == nil {
		return true
	}
	k, ok := e.c.p.resolve(ct.bound).(*ssa.Call)
	if !ok || CalleeKey(&k.Call) != "builtin.len" || !e.isList(k.Call.Args[0].Type()) {
		return true
	}
	list, ok := e.get(k.Call.Args[0], st).(*fmtStack)
	if !ok {
		e.c.bad("list:"+fr.fn.Name(), k, "undecided: the list of items is not known")
		return false
	}
	if list.failed {
		e.c.bad("failed:"+fr.fn.Name(), k, "the items of a search without success are used")
		return false
	}
	if ct.after == nil {
		return true
	}
	var phis []*ssa.Phi
	for _, in := range l.head.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			phis = append(phis, p)
		}
	}
	if list.some >= 0 {
		e.effects(fr, l, ct, list, phis, st)
	}
	// values of the last run of a loop testing at its end
	for i, q := range l.head.Preds {
		if q != ct.test {
			continue
		}
		for _, p := range phis {
			if _, isC := p.Edges[i].(*ssa.Const); !isC {
				st.env[p.Edges[i]] = st.env[p]
			}
		}
	}
	e.run(fr, ct.after, ct.test, 0, st)
	return false
}

// effects sets the variables of a loop over a list to what they are after it.
func (e *fmtSearch) effects(fr *fmtFrame, l *natLoop, ct *counting, list *fmtStack, phis []*ssa.Phi, st *fmtState) {
	symbol := func(p *ssa.Phi) any {
		if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			return fmtInt{sym: p}
		}
		return fmtUnknown{src: p}
	}
	// what an item of a type does
	effect := map[string]map[*ssa.Phi]any{}
	var ks []any
	if e.elem != nil {
		ks = append(ks, e.elem)
	} else {
		for t := range e.tag {
			ks = append(ks, fmtInt{off: mustInt(t)})
		}
	}
	old := e.cur
	for _, t := range ks {
		ef := map[*ssa.Phi]any{}
		n := st.clone()
		for _, p := range phis {
			n.env[p] = symbol(p)
		}
		e.cur = t
		pc, from := 0, ct.test
		if ct.body == l.head {
			pc, from = len(phis), nil
		}
		e.run(&fmtFrame{fn: fr.fn, up: fr.up, k: fr.k, loop: ct, head: l.head, end: func(s *fmtState, prev *ssa.BasicBlock) {
			for i, q := range l.head.Preds {
				if q != prev {
					continue
				}
				for _, p := range phis {
					x := e.get(p.Edges[i], s)
					if o, ok := ef[p]; ok && fmtSame(o, x) != nil {
						x = fmtUnknown{src: p, new: true}
					}
					ef[p] = x
				}
			}
		}}, ct.body, from, pc, n)
		effect[fmtKey(t)] = ef
	}
	e.cur = old
	for _, p := range phis {
		unchanged := true
		for _, ef := range effect {
			if x, ok := ef[p]; ok && fmtSame(x, symbol(p)) != nil {
				unchanged = false
			}
		}
		if unchanged {
			continue
		}
		initial, ok := st.env[p].(fmtInt)
		st.env[p] = fmtUnknown{src: p}
		if !ok || e.elem != nil {
			continue
		}
		// opening and closing cancel each other out
		delta := map[string]int64{}
		sum := map[string]map[int64]bool{}
		for t, ef := range effect {
			x, isInt := ef[p].(fmtInt)
			if !isInt || x.sym != ssa.Value(p) {
				ok = false
				continue
			}
			delta[t] = x.off
			g := e.tag[t]
			d := x.off
			if strings.HasPrefix(g, "/") {
				g, d = g[1:], -d
			}
			if sum[g] == nil {
				sum[g] = map[int64]bool{}
			}
			sum[g][d] = true
		}
		for _, ds := range sum {
			if len(ds) > 1 {
				ok = false
			}
		}
		if !ok || list.bad != "" {
			continue
		}
		for _, t := range strings.Split(list.opens, ",") {
			initial.off += delta[t]
		}
		st.env[p] = initial
	}
}

// fmtSame: nil if both values are the same.
func fmtSame(a, b any) error {
	if x, ok := a.(fmtUnknown); ok {
		if y, ok := b.(fmtUnknown); ok && x.src != nil && x == y && !x.new {
			return nil
		}
		return fmt.Errorf("unknown")
	}
	if fmtKey(a) != fmtKey(b) {
		return fmt.Errorf("different")
	}
	return nil
}

// asList gives the list a value is.
func (e *fmtSearch) asList(x any, at ssa.Instruction, st *fmtState) *fmtStack {
	switch u := x.(type) {
	case *fmtStack:
		return u
	case fmtSlice:
		s := &fmtStack{some: -1}
		for i := 0; i < u.n; i++ {
			s = e.push(s, e.load(fmtPtr{u.al, fmt.Sprintf("/%d", i)}, e.item, st), at, st)
		}
		return s
	}
	return nil
}

// call interprets a call; true if the rest of the block has been run.
func (e *fmtSearch) call(fr *fmtFrame, b *ssa.BasicBlock, pc int, k *ssa.Call, st *fmtState) bool {
	args := k.Call.Args
	key := CalleeKey(&k.Call)
	st.env[k] = fmtUnknown{src: k}
	switch {
	case key == "builtin.len":
		switch x := e.get(args[0], st).(type) {
		case *fmtStack:
			st.env[k] = fmtLen{x, 0}
		case fmtSlice:
			st.env[k] = fmtInt{off: int64(x.n)}
		case fmtStr:
			st.env[k] = fmtInt{off: int64(len(x))}
		}
		return false
	case key == "builtin.append" && e.isList(k.Type()):
		s := e.asList(e.get(args[0], st), k, st)
		if s == nil {
			st.env[k] = &fmtStack{bad: "undecided: items are added to a list not known"}
			return false
		}
		if len(args) > 1 {
			switch x := e.get(args[1], st).(type) {
			case fmtSlice:
				for i := 0; i < x.n; i++ {
					s = e.push(s, e.load(fmtPtr{x.al, fmt.Sprintf("/%d", i)}, e.item, st), k, st)
				}
			case *fmtStack:
				if s.some < 0 {
					s = x
				} else if x.some >= 0 {
					n := *s
					n.bad = "undecided: a list not known is added to another one"
					s = &n
				}
			default:
				n := *s
				n.bad = "undecided: items not known are added to the list"
				s = &n
			}
		}
		st.env[k] = s
		return false
	case strings.HasPrefix(key, "slices.Clone") || strings.HasPrefix(key, "slices.Clip"):
		st.env[k] = e.get(args[0], st)
		return false
	case key == "builtin.copy":
		return false
	}
	f := k.Call.StaticCallee()
	if f == nil || len(f.Blocks) == 0 || !e.c.p.IsRepoFn(f) {
		return false
	}
	if e.fns[f] {
		t := fmtCall{fn: f, from: k}
		id := f.String()
		for i, a := range args {
			x := e.get(a, st)
			if e.isList(f.Params[i].Type()) {
				s := e.asList(x, k, st)
				switch {
				case s == nil:
					s = &fmtStack{bad: "undecided: the list of items is not known"}
				case s.failed:
					s = &fmtStack{bad: "the items of a search without success are used"}
				}
				if s.bad != "" {
					e.c.bad("nesting:"+k.Parent().Name(), k, "%s", s.bad)
					return true
				}
				x = s
			} else if _, isB := x.(fmtBool); !isB {
				x = fmtUnknown{}
			}
			t.args = append(t.args, x)
			id += " " + fmtKey(x)
		}
		// the search goes on behind the last item
		for i, a := range args {
			if bt, ok := f.Params[i].Type().Underlying().(*types.Basic); !ok || bt.Info()&types.IsInteger == 0 {
				continue
			}
			for _, x := range t.args {
				if s, ok := x.(*fmtStack); ok && s.end != nil && !st.le(s.end, e.get(a, st)) {
					e.c.bad("order:"+k.Parent().Name(), k, "the search goes on in front of the end of the last item")
				}
			}
		}
		if !e.seen[id] {
			e.seen[id] = true
			e.todo = append(e.todo, t)
		}
		res := f.Signature.Results()
		for _, ok := range []bool{true, false} {
			n := st.clone()
			var out fmtTuple
			for i := 0; i < res.Len(); i++ {
				if e.isList(res.At(i).Type()) {
					if ok {
						out = append(out, &fmtStack{})
					} else {
						out = append(out, &fmtStack{failed: true})
					}
				} else {
					out = append(out, fmtBool(ok))
				}
			}
			n.env[k] = out
			e.run(fr, b, nil, pc+1, n)
		}
		return true
	}
	if !e.concerns(f.Signature) {
		return false
	}
	for x := fr; x != nil; x = x.up {
		if x.fn == f {
			return false
		}
	}
	for i, q := range f.Params {
		if i < len(args) {
			st.env[q] = e.get(args[i], st)
		}
	}
	if mc, ok := k.Call.Value.(*ssa.MakeClosure); ok {
		for i, q := range f.FreeVars {
			st.env[q] = e.get(mc.Bindings[i], st)
		}
	}
	e.run(&fmtFrame{fn: f, up: fr, k: func(n *fmtState, rets []any) {
		n = n.clone()
		switch len(rets) {
		case 0:
		case 1:
			n.env[k] = rets[0]
			if u, ok := rets[0].(fmtUnknown); ok && u.src == nil {
				n.env[k] = fmtUnknown{src: k}
			}
		default:
			n.env[k] = fmtTuple(rets)
		}
		e.run(fr, b, nil, pc+1, n)
	}}, f.Blocks[0], nil, 0, st)
	return true
}

// concerns: the function has to do with items.
func (e *fmtSearch) concerns(sig *types.Signature) bool {
	is := func(t types.Type) bool {
		if q, ok := t.(*types.Pointer); ok {
			t = q.Elem()
		}
		if b, ok := t.Underlying().(*types.Basic); ok {
			_, named := t.(*types.Named)
			return named && b.Info()&types.IsInteger != 0
		}
		return types.Identical(t, e.item) || e.isList(t)
	}
	for _, t := range []*types.Tuple{sig.Params(), sig.Results()} {
		for i := 0; i < t.Len(); i++ {
			if is(t.At(i).Type()) {
				return true
			}
		}
	}
	return false
}

func fmtAddr(p fmtPtr) string { return fmt.Sprintf("%p%s", p.al, p.path) }

// load reads a variable.
func (e *fmtSearch) load(p fmtPtr, t types.Type, st *fmtState) any {
	if s, ok := t.Underlying().(*types.Struct); ok {
		var out fmtStruct
		for i := 0; i < s.NumFields(); i++ {
			out = append(out, e.load(fmtPtr{p.al, fmt.Sprintf("%s/%d", p.path, i)}, s.Field(i).Type(), st))
		}
		return out
	}
	if x, ok := st.mem[fmtAddr(p)]; ok {
		return x
	}
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch {
		case b.Info()&types.IsInteger != 0:
			return fmtInt{}
		case b.Info()&types.IsBoolean != 0:
			return fmtBool(false)
		case b.Info()&types.IsString != 0:
			return fmtStr("")
		}
	}
	if e.isList(t) {
		return &fmtStack{some: -1}
	}
	return fmtUnknown{}
}

func (e *fmtSearch) store(addr, x any, st *fmtState) {
	p, ok := addr.(fmtPtr)
	if !ok {
		return
	}
	if s, ok := x.(fmtStruct); ok {
		for i, v := range s {
			e.store(fmtPtr{p.al, fmt.Sprintf("%s/%d", p.path, i)}, v, st)
		}
		return
	}
	st.mem[fmtAddr(p)] = x
}

// eval evaluates an instruction.
func (e *fmtSearch) eval(v ssa.Value, st *fmtState) any {
	unknown := fmtUnknown{src: v}
	switch u := v.(type) {
	case *ssa.Alloc:
		p := fmtPtr{al: u}
		for k := range st.mem {
			if strings.HasPrefix(k, fmtAddr(p)) {
				delete(st.mem, k)
			}
		}
		return p
	case *ssa.UnOp:
		x := e.get(u.X, st)
		switch u.Op {
		case token.NOT:
			if b, ok := x.(fmtBool); ok {
				return !b
			}
			return unknown
		case token.SUB:
			if n, ok := x.(fmtInt); ok && n.sym == nil {
				return fmtInt{off: -n.off}
			}
			return unknown
		case token.MUL:
			switch p := x.(type) {
			case fmtPtr:
				return e.load(p, u.Type(), st)
			case fmtElem:
				return e.element(p, u)
			case fmtField:
				if s, ok := e.element(p.el, u).(fmtStruct); ok && p.f < len(s) {
					return s[p.f]
				}
			case fmtStr:
				return p
			}
		}
		return unknown
	case *ssa.BinOp:
		return e.binary(u, st)
	case *ssa.FieldAddr:
		switch p := e.get(u.X, st).(type) {
		case fmtPtr:
			return fmtPtr{p.al, fmt.Sprintf("%s/%d", p.path, u.Field)}
		case fmtElem:
			return fmtField{p, u.Field}
		}
	case *ssa.Field:
		if s, ok := e.get(u.X, st).(fmtStruct); ok && u.Field < len(s) {
			return s[u.Field]
		}
	case *ssa.IndexAddr:
		i := e.get(u.Index, st)
		n, known := i.(fmtInt)
		known = known && n.sym == nil
		switch x := e.get(u.X, st).(type) {
		case fmtPtr:
			if known {
				return fmtPtr{x.al, fmt.Sprintf("%s/%d", x.path, n.off)}
			}
		case fmtSlice:
			if known {
				return fmtPtr{x.al, fmt.Sprintf("/%d", n.off)}
			}
		case *fmtStack:
			if l, ok := i.(fmtLen); ok && l.off == -1 && l.st.key() == x.key() {
				return fmtElem{st: x, last: true}
			}
			return fmtElem{st: x}
		}
		if known {
			if t, ok := e.tableEntry(u.X, n.off); ok {
				return t
			}
		}
	case *ssa.Index:
		if n, ok := e.get(u.Index, st).(fmtInt); ok && n.sym == nil {
			if ld, ok := u.X.(*ssa.UnOp); ok {
				if t, ok := e.tableEntry(ld.X, n.off); ok {
					return t
				}
			}
		}
	case *ssa.Lookup:
		n, ok := e.get(u.Index, st).(fmtInt)
		if ok && n.sym == nil {
			if x, found := e.mapEntry(u.X, n.off); found {
				if u.CommaOk {
					return fmtTuple{x, fmtBool(true)}
				}
				return x
			}
		}
	case *ssa.Extract:
		if t, ok := e.get(u.Tuple, st).(fmtTuple); ok && u.Index < len(t) {
			return t[u.Index]
		}
	case *ssa.ChangeType:
		return e.get(u.X, st)
	case *ssa.Convert:
		return e.get(u.X, st)
	case *ssa.MakeInterface:
		return e.get(u.X, st)
	case *ssa.MakeSlice:
		if e.isList(u.Type()) {
			switch n := e.get(u.Len, st).(type) {
			case fmtInt:
				if n.sym == nil && n.off == 0 {
					return &fmtStack{some: -1}
				}
			case fmtLen:
				// filled by copying
				if n.off == 0 {
					return n.st
				}
			}
			return &fmtStack{bad: "undecided: a list of items is made in a way not known"}
		}
	case *ssa.Slice:
		switch x := e.get(u.X, st).(type) {
		case fmtPtr:
			if at, ok := deref(u.X.Type()).Underlying().(*types.Array); ok && u.Low == nil && u.High == nil {
				return fmtSlice{x.al, int(at.Len())}
			}
		case *fmtStack:
			if u.Low != nil {
				if n, ok := constInt(u.Low); !ok || n != 0 {
					return &fmtStack{bad: "undecided: items are taken off the list"}
				}
			}
			if u.High == nil {
				return x
			}
			if n, ok := constInt(u.High); ok && n == 0 {
				return &fmtStack{some: -1}
			}
			if l, ok := e.get(u.High, st).(fmtLen); ok && l.off == 0 && l.st.key() == x.key() {
				return x
			}
			return &fmtStack{bad: "undecided: items are taken off the list"}
		}
	}
	return unknown
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// element is an item of a list.
func (e *fmtSearch) element(el fmtElem, at ssa.Instruction) any {
	_, s := namedStruct(e.item)
	out := make(fmtStruct, s.NumFields())
	for i := range out {
		out[i] = fmtUnknown{}
	}
	if el.st.failed {
		e.c.bad("failed:"+at.Parent().Name(), at, "the items of a search without success are used")
	}
	switch {
	case el.last && el.st.last != "":
		out[e.typ] = fmtInt{off: mustInt(el.st.last)}
	case !el.last && e.cur != nil:
		out[e.typ] = e.cur
	}
	return out
}

// tableEntry is an entry of a fixed list.
func (e *fmtSearch) tableEntry(x ssa.Value, n int64) (any, bool) {
	var base ssa.Value
	switch u := x.(type) {
	case *ssa.Global:
		base = u
		if sts := e.c.p.GlobalStores(u); len(sts) == 1 {
			if ld, ok := sts[0].Val.(*ssa.UnOp); ok && ld.Op == token.MUL {
				base = ld.X
			}
		}
	case *ssa.UnOp:
		if g, ok := u.X.(*ssa.Global); ok {
			if sts := e.c.p.GlobalStores(g); len(sts) == 1 {
				if sl, ok := sts[0].Val.(*ssa.Slice); ok {
					base = sl.X
				}
			}
		}
	}
	if base == nil || base.Referrers() == nil && !isGlobal(base) {
		return nil, false
	}
	for _, fn := range e.c.p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ia, ok := in.(*ssa.IndexAddr)
				if !ok || ia.X != base {
					continue
				}
				if m, ok := constInt(ia.Index); !ok || m != n {
					continue
				}
				for _, r := range *ia.Referrers() {
					if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(ia) {
						if t := constText(st.Val); t != "\x00" {
							return fmtStr(t), true
						}
					}
				}
			}
		}
	}
	return nil, false
}

func isGlobal(v ssa.Value) bool {
	_, ok := v.(*ssa.Global)
	return ok
}

// mapEntry is an entry of a fixed map.
func (e *fmtSearch) mapEntry(x ssa.Value, n int64) (any, bool) {
	m := e.c.p.resolve(x)
	if ld, ok := m.(*ssa.UnOp); ok {
		if g, ok := ld.X.(*ssa.Global); ok && e.c.p.readOnlyMap(g) {
			if sts := e.c.p.GlobalStores(g); len(sts) == 1 {
				m = e.c.p.resolve(sts[0].Val)
			}
		}
	}
	mk, ok := m.(*ssa.MakeMap)
	if !ok {
		return nil, false
	}
	for _, r := range *mk.Referrers() {
		if mu, ok := r.(*ssa.MapUpdate); ok {
			k, ok := constInt(mu.Key)
			if !ok {
				return nil, false
			}
			if k == n {
				return e.get(mu.Value, newFmtState()), true
			}
		}
	}
	return nil, false
}

func (e *fmtSearch) binary(u *ssa.BinOp, st *fmtState) any {
	x, y := e.get(u.X, st), e.get(u.Y, st)
	op := u.Op
	if _, ok := y.(fmtLen); ok {
		x, y = y, x
		switch op {
		case token.LSS:
			op = token.GTR
		case token.GTR:
			op = token.LSS
		case token.LEQ:
			op = token.GEQ
		case token.GEQ:
			op = token.LEQ
		}
	}
	switch a := x.(type) {
	case fmtLen:
		n, ok := y.(fmtInt)
		if !ok || n.sym != nil {
			break
		}
		if op == token.SUB && u.Op == op {
			return fmtLen{a.st, a.off - int(n.off)}
		}
		// whether there are items
		k := n.off - int64(a.off)
		var some bool
		switch {
		case op == token.GTR && k == 0, op == token.NEQ && k == 0, op == token.GEQ && k == 1:
			some = true
		case op == token.EQL && k == 0, op == token.LEQ && k == 0, op == token.LSS && k == 1:
		default:
			return fmtUnknown{src: u}
		}
		if a.st.some == 0 {
			return fmtUnknown{src: u}
		}
		return fmtBool(some == (a.st.some > 0))
	case fmtInt:
		b, ok := y.(fmtInt)
		if !ok {
			break
		}
		switch op {
		case token.ADD:
			if a.sym == nil {
				a, b = b, a
			}
			if b.sym == nil {
				return fmtInt{a.sym, a.off + b.off}
			}
		case token.SUB:
			if b.sym == nil {
				return fmtInt{a.sym, a.off - b.off}
			}
			if a.sym == b.sym {
				return fmtInt{off: a.off - b.off}
			}
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			if a.sym == b.sym {
				return fmtBool(constant.Compare(constant.MakeInt64(a.off), op, constant.MakeInt64(b.off)))
			}
		case token.MUL:
			if a.sym == nil && b.sym == nil {
				return fmtInt{off: a.off * b.off}
			}
		}
	case fmtBool:
		b, ok := y.(fmtBool)
		if ok && op == token.EQL {
			return fmtBool(a == b)
		}
		if ok && op == token.NEQ {
			return fmtBool(a != b)
		}
	case fmtStr:
		if b, ok := y.(fmtStr); ok {
			switch op {
			case token.ADD:
				return a + b
			case token.EQL:
				return fmtBool(a == b)
			case token.NEQ:
				return fmtBool(a != b)
			}
		}
	}
	return fmtUnknown{src: u}
}

// recursive: the function may call itself.
func (c *markupCheck) recursive(fn *ssa.Function) bool {
	return c.p.ReachesCall(fn, func(k *ssa.CallCommon) bool { return k.StaticCallee() == fn })
}
