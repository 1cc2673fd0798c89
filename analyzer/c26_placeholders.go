package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C26", Title: "Every placeholder in parsed text has its own element",
		Rule: "each key of the element map contains the parser's counter, clearly separated from the rest of the key, and the counter only ever grows, on every path of the function making the key; the parser is never copied and its map is only filled; on every path from making a key to using it, a (not nil) element is stored under the key, once; all kinds of keys match the pattern rendering searches for, markers never match it; each kind of output replaces every marker the parser inserts before searching for placeholders, looks up exactly the matched text, and uses the elements of the article it renders",
		Run:  runC26})
}

type placeCheck struct {
	// pairs: what texts are replaced by
	pairs map[string]map[string]bool
	p     *Program
	r     *Report
	// the parser's state
	t       *types.Named
	mapIdx  int
	article *types.Named
	artIdx  int
	counter *types.Var
	// registering functions: parameter holding the key, and the element
	reg     map[*ssa.Function][2]int
	pattern []*regexp.Regexp
	sh      *shaper
}

func runC26(p *Program, r *Report) {
	c := &placeCheck{p: p, r: r, reg: map[*ssa.Function][2]int{}}
	c.sh = &shaper{p: p, max: 512}
	if !c.findState() {
		r.Undecided("state", "-", "the parser's map of elements was not found")
		return
	}
	c.rendering()
	c.registrations()
	c.state()
	c.markers()
	c.sameArticle()
	r.AtLeast("places making placeholders", 8)
	r.AtLeast("kinds of placeholders", 10)
	r.AtLeast("markers", 5)
	r.AtLeast("renderers of text", 1)
	r.AtLeast("replacements of markers", 10)
}

func (c *placeCheck) bad(key string, in ssa.Instruction, format string, args ...any) {
	at := "-"
	if in != nil {
		at = c.p.At(in)
	}
	c.r.Bad(key, at, format, args...)
}

func elementMap(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	if !ok {
		return false
	}
	b, ok := m.Key().Underlying().(*types.Basic)
	return ok && b.Kind() == types.String && types.IsInterface(m.Elem())
}

func namedStruct(t types.Type) (*types.Named, *types.Struct) {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok {
		return nil, nil
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return nil, nil
	}
	return n, st
}

// findState finds the structures with the map of elements: the one of the article, and the one of the parser it is taken from.
func (c *placeCheck) findState() bool {
	for _, fn := range c.p.Funcs {
		if !inPkg(fn, "parser") {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				n, s := namedStruct(fa.X.Type())
				if n == nil || !elementMap(s.Field(fa.Field).Type()) {
					continue
				}
				// taken from another structure
				v := st.Val
				for d := 0; d < 10; d++ {
					if call, ok := v.(*ssa.Call); ok && call.Call.StaticCallee() != nil {
						f := call.Call.StaticCallee()
						var one ssa.Value
						for _, q := range f.Blocks {
							if ret, ok := q.Instrs[len(q.Instrs)-1].(*ssa.Return); ok && len(ret.Results) == 1 {
								one = ret.Results[0]
							}
						}
						if one != nil {
							v = one
							continue
						}
					}
					if nv := c.p.resolveStep(v); nv != nil && nv != v {
						v = nv
						continue
					}
					break
				}
				if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
					if src, ok := u.X.(*ssa.FieldAddr); ok {
						m, ms := namedStruct(src.X.Type())
						if m != nil && m != n && elementMap(ms.Field(src.Field).Type()) {
							c.t, c.mapIdx, c.article, c.artIdx = m, src.Field, n, fa.Field
							return true
						}
					}
				}
			}
		}
	}
	return false
}

func (c *placeCheck) isMap(v ssa.Value) bool {
	for d := 0; d < 10; d++ {
		switch u := v.(type) {
		case *ssa.UnOp:
			if fa, ok := u.X.(*ssa.FieldAddr); ok && u.Op == token.MUL {
				n, _ := namedStruct(fa.X.Type())
				return n == c.t && fa.Field == c.mapIdx
			}
		case *ssa.Field:
			n, _ := namedStruct(u.X.Type())
			return n == c.t && u.Field == c.mapIdx
		}
		nv := c.p.resolveStep(v)
		if nv == nil || nv == v {
			return false
		}
		v = nv
	}
	return false
}

// --- rendering: the pattern ---

func (c *placeCheck) rendering() {
	for _, fn := range c.p.Funcs {
		if !inPkg(fn, "generator") {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok || !c.isLookup(&call.Call) {
					continue
				}
				c.r.Count("renderers of text", 1)
				arg := call.Call.Args[len(call.Call.Args)-1]
				re, text := c.matched(arg, 0)
				if re == nil {
					c.bad("lookup", in, "the element of a placeholder is not looked up by the text the placeholders' pattern matched")
					continue
				}
				c.pattern = append(c.pattern, re)
				c.replacedBefore(in, text)
			}
		}
	}
	// each renderer returns the element of the key
	for _, fn := range c.p.Funcs {
		if !inPkg(fn, "generator") || fn.Signature.Recv() == nil || !lookupSignature(fn.Signature) {
			continue
		}
		good := false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if lk, ok := in.(*ssa.Lookup); ok && elementMap(lk.X.Type()) && len(fn.Params) == 2 && c.p.localValue(lk.Index) == ssa.Value(fn.Params[1]) {
					good = true
				}
			}
		}
		c.r.Count("lookups of elements", 1)
		if !good {
			c.bad("lookup:"+fn.String(), fn.Blocks[0].Instrs[0], "%s does not look up the element of the placeholder it is given", fn.Name())
		}
	}
}

func lookupSignature(sig *types.Signature) bool {
	if sig.Params().Len() != 1 || sig.Results().Len() != 2 {
		return false
	}
	b, ok := sig.Params().At(0).Type().Underlying().(*types.Basic)
	r, ok2 := sig.Results().At(1).Type().Underlying().(*types.Basic)
	return ok && ok2 && b.Kind() == types.String && r.Kind() == types.Bool && types.IsInterface(sig.Results().At(0).Type())
}

// isLookup: the call gets the element of a placeholder from the handler.
func (c *placeCheck) isLookup(call *ssa.CallCommon) bool {
	if !call.IsInvoke() {
		return false
	}
	return lookupSignature(call.Method.Type().(*types.Signature))
}

// matched: the value is a part of the text found by a pattern.
func (c *placeCheck) matched(v ssa.Value, d int) (*regexp.Regexp, ssa.Value) {
	if d > 10 {
		return nil, nil
	}
	switch u := v.(type) {
	case *ssa.Slice:
		lo, li := c.matchIndex(u.Low)
		hi, hj := c.matchIndex(u.High)
		if lo == nil || lo != hi || li != 0 || hj != 1 || c.p.vkey(lo.Call.Args[1]) != c.p.vkey(u.X) {
			return nil, nil
		}
		return c.regexpOf(lo.Call.Args[0]), lo.Call.Args[1]
	case *ssa.Call:
		if strings.HasPrefix(CalleeKey(&u.Call), "(*regexp.Regexp).FindString") && !strings.Contains(CalleeKey(&u.Call), "Index") {
			return c.regexpOf(u.Call.Args[0]), u.Call.Args[1]
		}
	case *ssa.UnOp:
		if ia, ok := u.X.(*ssa.IndexAddr); ok && u.Op == token.MUL {
			if call, ok := c.p.resolve(ia.X).(*ssa.Call); ok && CalleeKey(&call.Call) == "(*regexp.Regexp).FindAllString" && unlimited(call) {
				return c.regexpOf(call.Call.Args[0]), call.Call.Args[1]
			}
		}
	}
	if n := c.p.resolveStep(v); n != nil && n != v {
		return c.matched(n, d+1)
	}
	return nil, nil
}

// unlimited: the call finds all matches.
func unlimited(call *ssa.Call) bool {
	n, ok := constInt(call.Call.Args[len(call.Call.Args)-1])
	return ok && n < 0
}

// matchIndex: the value is the n-th number of a match's position.
func (c *placeCheck) matchIndex(v ssa.Value) (*ssa.Call, int64) {
	for d := 0; d < 10 && v != nil; d++ {
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
			if ia, ok := u.X.(*ssa.IndexAddr); ok {
				n, isN := constInt(ia.Index)
				if !isN {
					return nil, 0
				}
				m := c.p.resolve(ia.X)
				if call, ok := m.(*ssa.Call); ok && CalleeKey(&call.Call) == "(*regexp.Regexp).FindStringIndex" {
					return call, n
				}
				if mu, ok := m.(*ssa.UnOp); ok {
					if mi, ok := mu.X.(*ssa.IndexAddr); ok {
						if call, ok := c.p.resolve(mi.X).(*ssa.Call); ok && CalleeKey(&call.Call) == "(*regexp.Regexp).FindAllStringIndex" && unlimited(call) {
							return call, n
						}
					}
				}
				return nil, 0
			}
		}
		n := c.p.resolveStep(v)
		if n == nil || n == v {
			return nil, 0
		}
		v = n
	}
	return nil, 0
}

// regexpOf is the pattern of a global variable or of a call compiling it.
func (c *placeCheck) regexpOf(v ssa.Value) *regexp.Regexp {
	v = c.p.resolve(v)
	if u, ok := v.(*ssa.UnOp); ok {
		if g, ok := u.X.(*ssa.Global); ok {
			ss := c.p.storesTo[g]
			if len(ss) != 1 || c.p.addrTaken[g] {
				return nil
			}
			v = c.p.resolve(ss[0].Val)
		}
	}
	call, ok := v.(*ssa.Call)
	if !ok || CalleeKey(&call.Call) != "regexp.MustCompile" {
		return nil
	}
	shs := c.sh.eval(call.Call.Args[0])
	if len(shs) != 1 {
		return nil
	}
	t := ""
	for _, q := range shs[0] {
		if q.v != nil {
			return nil
		}
		t += q.lit
	}
	re, err := regexp.Compile(t)
	if err != nil {
		return nil
	}
	return re
}

// --- making and storing placeholders ---

// mapUpdates lists the places filling the map.
func (c *placeCheck) registrations() {
	type site struct {
		fn  *ssa.Function
		in  ssa.Instruction
		key ssa.Value
		val ssa.Value
	}
	var sites []site
	work := []site{}
	for _, fn := range c.p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch u := in.(type) {
				case *ssa.MapUpdate:
					if c.isMap(u.Map) {
						work = append(work, site{fn, in, u.Key, u.Value})
					}
				case *ssa.Call:
					if b, ok := u.Call.Value.(*ssa.Builtin); ok && (b.Name() == "delete" || b.Name() == "clear") && c.isMap(u.Call.Args[0]) {
						c.bad("deleted", in, "elements are removed from the parser's map, their placeholders remain in the text")
					}
				}
			}
		}
	}
	seen := map[*ssa.Function]bool{}
	for len(work) > 0 {
		s := work[0]
		work = work[1:]
		q, ok := c.p.localValue(s.key).(*ssa.Parameter)
		if !ok {
			sites = append(sites, s)
			continue
		}
		if seen[s.fn] {
			c.bad("register:"+s.fn.Name(), s.in, "more than one element is stored under the same placeholder")
			continue
		}
		seen[s.fn] = true
		ki, vi := -1, -1
		for i, x := range s.fn.Params {
			if x == q {
				ki = i
			}
			if c.p.localValue(unboxed(s.val)) == ssa.Value(x) {
				vi = i
			}
		}
		if !passedAlways(c.p, s.fn, s.in.Block()) || innermost(loopsOf(s.fn), s.in.Block()) != nil {
			c.bad("register:"+s.fn.Name(), s.in, "%s does not store the element in each case", s.fn.Name())
		}
		c.reg[s.fn] = [2]int{ki, vi}
		cs, known := c.p.sitesOf(s.fn)
		if !known {
			c.bad("register:"+s.fn.Name(), s.in, "the calls of %s are not known", s.fn.Name())
		}
		for _, x := range cs {
			args := x.Common().Args
			v := s.val
			if vi >= 0 {
				v = args[vi]
			}
			work = append(work, site{x.Parent(), x.(ssa.Instruction), args[ki], v})
		}
	}
	// where the keys come from
	keys := map[ssa.Value]bool{}
	byKey := map[ssa.Value][]ssa.Instruction{}
	for _, s := range sites {
		k := c.p.localValue(s.key)
		byKey[k] = append(byKey[k], s.in)
		keys[k] = true
		c.element(s.fn, s.in, k, s.val)
	}
	// sources: functions returning a key that isn't stored yet
	src := map[*ssa.Function]int{}
	var calls []*ssa.Call
	for k := range keys {
		v, idx := k, 0
		if e, ok := v.(*ssa.Extract); ok {
			v, idx = e.Tuple, e.Index
		}
		call, ok := v.(*ssa.Call)
		if !ok {
			if in, ok := k.(ssa.Instruction); ok && in.Parent() != nil {
				c.shape(k, in, nil)
				c.r.Count("places making placeholders", 1)
			} else {
				c.bad("key", byKey[k][0], "an element is stored under a key that is not made for it")
			}
			continue
		}
		if f := call.Call.StaticCallee(); f != nil && inPkg(f, "parser") && len(f.Blocks) > 0 {
			src[f] = idx
		} else {
			c.shape(k, call, nil)
			c.r.Count("places making placeholders", 1)
		}
	}
	// all calls of sources, also through functions passing on new keys
	for n := -1; n != len(src); {
		n = len(src)
		for f, idx := range src {
			for _, b := range f.Blocks {
				if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && idx < len(ret.Results) {
					if call, ok := c.p.localValue(ret.Results[idx]).(*ssa.Call); ok {
						if g := call.Call.StaticCallee(); g != nil && inPkg(g, "parser") && len(g.Blocks) > 0 && len(byKey[ssa.Value(call)]) == 0 {
							src[g] = 0
						}
					}
				}
			}
		}
	}
	var fs []*ssa.Function
	for f := range src {
		fs = append(fs, f)
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].String() < fs[j].String() })
	for _, f := range fs {
		cs, known := c.p.sitesOf(f)
		if !known {
			c.bad("source:"+f.Name(), nil, "the calls of %s are not known", f.Name())
		}
		for _, x := range cs {
			call, ok := x.(*ssa.Call)
			if !ok {
				c.bad("source:"+f.Name(), x.(ssa.Instruction), "a placeholder is made whose value is lost")
				continue
			}
			calls = append(calls, call)
			var k ssa.Value = call
			if f.Signature.Results().Len() > 1 {
				k = nil
				for _, rf := range *call.Referrers() {
					if e, ok := rf.(*ssa.Extract); ok && e.Index == src[f] {
						k = e
					}
				}
			}
			if k == nil {
				continue
			}
			c.r.Count("places making placeholders", 1)
			c.stored(call, k, byKey[k], src)
			if _, passes := src[call.Parent()]; !passes {
				c.shape(k, call, nil)
			}
		}
	}
}

// passedAlways: each path through the function passes the block.
func passedAlways(p *Program, fn *ssa.Function, b *ssa.BasicBlock) bool {
	for _, q := range fn.Blocks {
		if _, ok := q.Instrs[len(q.Instrs)-1].(*ssa.Return); ok && q != fn.Recover && !b.Dominates(q) {
			return false
		}
	}
	return true
}

// resolveLocal follows a value within its function.
func (p *Program) localValue(v ssa.Value) ssa.Value {
	for d := 0; d < 20; d++ {
		switch u := v.(type) {
		case *ssa.ChangeType:
			v = u.X
			continue
		case *ssa.UnOp:
			if al, ok := u.X.(*ssa.Alloc); ok && u.Op == token.MUL {
				if s := p.onlyStore(al); s != nil {
					v = s
					continue
				}
			}
		}
		break
	}
	return v
}

// stored: from making the key on, an element is stored under it before the function ends or makes the next one.
func (c *placeCheck) stored(call *ssa.Call, k ssa.Value, hits []ssa.Instruction, src map[*ssa.Function]int) {
	fn := call.Parent()
	isHit := map[ssa.Instruction]bool{}
	for _, h := range hits {
		if h.Parent() == fn {
			isHit[h] = true
		}
	}
	uses := map[ssa.Instruction]bool{}
	var addUses func(v ssa.Value, d int)
	addUses = func(v ssa.Value, d int) {
		if v.Referrers() == nil || d > 3 {
			return
		}
		for _, rf := range *v.Referrers() {
			if _, ok := rf.(*ssa.DebugRef); ok || isHit[rf] {
				continue
			}
			if st, ok := rf.(*ssa.Store); ok && st.Val == v {
				if al, isA := st.Addr.(*ssa.Alloc); isA && c.p.onlyStore(al) == v {
					for _, ar := range *al.Referrers() {
						if ld, isL := ar.(*ssa.UnOp); isL {
							addUses(ld, d+1)
						}
					}
					continue
				}
			}
			uses[rf] = true
		}
	}
	addUses(k, 0)
	_, passes := src[fn]
	type state struct {
		b    *ssa.BasicBlock
		used bool
		hit  bool
	}
	seen := map[state]bool{}
	reported := false
	var walk func(s state, from int)
	walk = func(s state, from int) {
		if from == 0 {
			if seen[s] {
				return
			}
			seen[s] = true
		}
		for i := from; i < len(s.b.Instrs); i++ {
			in := s.b.Instrs[i]
			if in == ssa.Instruction(call) {
				if !s.hit && s.used && !reported {
					reported = true
					c.bad("unstored:"+fn.Name(), call, "a placeholder is used for which no element is stored before the next one is made")
				}
				return
			}
			if isHit[in] {
				if s.hit && !reported {
					reported = true
					c.bad("twice:"+fn.Name(), in, "several elements are stored under the same placeholder, only the last one remains")
				}
				s.hit = true
			}
			if uses[in] {
				s.used = true
			}
			if ret, ok := in.(*ssa.Return); ok && !s.hit && s.used && !reported {
				if errorReturn(ret) {
					return
				}
				if passes {
					return // its callers store the element
				}
				reported = true
				c.bad("unstored:"+fn.Name(), call, "a placeholder is used for which no element is stored")
			}
		}
		for _, n := range s.b.Succs {
			walk(state{n, s.used, s.hit}, 0)
		}
	}
	walk(state{call.Block(), false, false}, indexIn(call)+1)
}

// element: what is stored is an element in each case.
func (c *placeCheck) element(fn *ssa.Function, in ssa.Instruction, k, v ssa.Value) {
	kind := c.kindArg(k)
	c.elementAt(fn, in, k, kind, kind, v, 0)
}

// elementAt: leaf is the kind as the function making the key gets it, kind what it is here. A v of nil is not checked.
func (c *placeCheck) elementAt(fn *ssa.Function, in ssa.Instruction, k, leaf, kind, v ssa.Value, depth int) {
	if q, ok := kind.(*ssa.Parameter); ok && q.Parent() == fn && depth < 5 {
		if sites, known := c.p.sitesOf(fn); known && len(sites) > 0 {
			for _, s := range sites {
				var vv ssa.Value
				if vq, ok := v.(*ssa.Parameter); ok && vq.Parent() == fn {
					vv = siteArg(s, vq)
				}
				if a := siteArg(s, q); a != nil {
					c.r.Count("places making placeholders", 1)
					c.elementAt(s.Parent(), s, k, leaf, a, vv, depth+1)
				} else {
					c.bad("kind:"+fn.Name(), s, "the placeholder may contain text of the article or other unknown parts")
				}
			}
			if _, ok := v.(*ssa.Parameter); ok {
				return
			}
			kind = nil
			leaf = nil
		}
	}
	// parameters whose possible values are known
	type fix struct {
		key  string
		vals []constant.Value
	}
	var fixes []fix
	for _, q := range fn.Params {
		if vals := c.valuesOf(q); vals != nil {
			fixes = append(fixes, fix{c.p.vkey(q), vals})
		}
	}
	envs := []map[string]constant.Value{{}}
	for _, f := range fixes {
		var next []map[string]constant.Value
		for _, e := range envs {
			for _, x := range f.vals {
				m := map[string]constant.Value{f.key: x}
				for a, b := range e {
					m[a] = b
				}
				next = append(next, m)
			}
		}
		if len(next) > 256 {
			break
		}
		envs = next
	}
	for _, env := range envs {
		lv := newSetLiveness(c.p, setEnv{})
		lv.fixed = env
		lb := lv.of(fn, nil)
		if !lb.blocks[in.Block()] {
			continue
		}
		start := c.commonStart(in.Block(), v, kind)
		live := func(b *ssa.BasicBlock) (out []*ssa.BasicBlock) {
			for _, s := range b.Succs {
				if lb.edges[[2]*ssa.BasicBlock{b, s}] {
					out = append(out, s)
				}
			}
			return
		}
		visit := func(w *cfgPath) {
			if !w.feasible() {
				return
			}
			last := len(w.blocks) - 1
			if v != nil && w.isNil(unboxed(v), last) == 1 {
				c.bad("element:"+fn.Name(), in, "there are cases in which no element is stored under a placeholder")
			}
			if kind != nil {
				x, _ := w.val(kind, last)
				c.kind(fn, in, k, leaf, x, lv)
			} else if depth == 0 && c.kindArg(k) == nil {
				c.kind(fn, in, k, nil, nil, lv)
			}
		}
		if start == in.Block() {
			visit(&cfgPath{p: c.p, blocks: []*ssa.BasicBlock{start}})
			continue
		}
		if !c.p.eachPath(start, 0, live, func(b *ssa.BasicBlock) bool { return b == in.Block() }, visit) {
			c.bad("paths:"+fn.Name(), in, "undecided: too many paths")
		}
	}
}

// commonStart is a block before all decisions about the values.
func (c *placeCheck) commonStart(at *ssa.BasicBlock, vs ...ssa.Value) *ssa.BasicBlock {
	start := at
	seen := map[ssa.Value]bool{}
	var up func(v ssa.Value)
	up = func(v ssa.Value) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		switch u := v.(type) {
		case *ssa.MakeInterface:
			up(u.X)
		case *ssa.ChangeInterface:
			up(u.X)
		case *ssa.ChangeType:
			up(u.X)
		case *ssa.Phi:
			if u.Block().Dominates(at) {
				for !start.Dominates(u.Block()) {
					start = start.Idom()
				}
				if d := u.Block().Idom(); d != nil {
					for start != d && !start.Dominates(d) {
						start = start.Idom()
					}
				}
			}
			for _, e := range u.Edges {
				up(e)
			}
		}
	}
	for _, v := range vs {
		up(v)
	}
	return start
}

// kindArg is the argument of the call making the key, if there is exactly one text.
func (c *placeCheck) kindArg(k ssa.Value) ssa.Value {
	v := k
	if e, ok := v.(*ssa.Extract); ok {
		v = e.Tuple
	}
	call, ok := v.(*ssa.Call)
	if !ok {
		return nil
	}
	var out ssa.Value
	for _, a := range call.Call.Args {
		if b, ok := a.Type().Underlying().(*types.Basic); ok && b.Kind() == types.String {
			if out != nil {
				return nil
			}
			out = a
		}
	}
	return out
}

// kind checks that the key matches the pattern; x is what the kind is on the path.
func (c *placeCheck) kind(fn *ssa.Function, in ssa.Instruction, k, kind, x ssa.Value, lv *setLiveness) {
	sh := &shaper{p: c.p, max: 512, live: lv.edge}
	if _, isC := kind.(*ssa.Const); kind != nil && !isC && kind != k {
		sh.leaf = func(v ssa.Value) bool { return v == kind }
	}
	keys := sh.ev2(k, nil)
	sh.leaf = nil
	for _, s := range keys {
		texts := []string{""}
		add := func(ts []string) {
			var next []string
			for _, a := range texts {
				for _, b := range ts {
					next = append(next, a+b)
				}
			}
			texts = next
		}
		unknown := false
		for _, q := range s {
			switch {
			case q.v == nil:
				add([]string{q.lit})
			case c.isCounter(q.v):
				add([]string{"0", "7", "10", "123456"})
			case kind != nil && (q.v == kind || c.isParamOf(q, k)):
				var ts []string
				for _, ks := range sh.ev2(x, nil) {
					t := ""
					for _, kp := range ks {
						if kp.v != nil {
							if cv := lv.val(kp.v, kp.fr, 0); cv != nil && cv.Kind() == constant.String {
								t += constant.StringVal(cv)
							} else {
								unknown = true
							}
							continue
						}
						t += kp.lit
					}
					ts = append(ts, t)
				}
				add(ts)
			default:
				if cv := lv.val(q.v, q.fr, 0); cv != nil && cv.Kind() == constant.String {
					add([]string{constant.StringVal(cv)})
				} else {
					unknown = true
				}
			}
		}
		if unknown {
			c.bad("kind:"+fn.Name(), in, "the placeholder may contain text of the article or other unknown parts")
			continue
		}
		for _, t := range texts {
			c.r.Count("kinds of placeholders", 1)
			for _, re := range c.pattern {
				if m := re.FindString("a" + t + "b"); m != t {
					c.bad("pattern:"+fn.Name()+":"+strings.TrimRight(t, "$0123456789"), in, "the placeholder %s is not found by the pattern %s used for rendering", t, re)
				}
			}
		}
	}
}

// isParamOf: the part is the parameter of the function making the key.
func (c *placeCheck) isParamOf(q strPart, k ssa.Value) bool {
	_, ok := q.v.(*ssa.Parameter)
	return ok && q.fr != nil && (ssa.Value(q.fr.call) == k)
}

// valuesOf lists the possible values of a parameter, nil if they are not known.
func (c *placeCheck) valuesOf(q *ssa.Parameter) []constant.Value {
	b, ok := q.Type().Underlying().(*types.Basic)
	if !ok || b.Kind() != types.String {
		return nil
	}
	sites, known := c.p.sitesOf(q.Parent())
	if !known || len(sites) == 0 {
		return nil
	}
	set := map[string]bool{}
	for _, s := range sites {
		a := c.p.localValue(siteArg(s, q))
		switch u := a.(type) {
		case *ssa.Const:
			if u.Value == nil || u.Value.Kind() != constant.String {
				return nil
			}
			set[constant.StringVal(u.Value)] = true
		case *ssa.Parameter:
			if u != q {
				return nil
			}
		case *ssa.Convert:
			xb, ok := u.X.Type().Underlying().(*types.Basic)
			if !ok || xb.Kind() != types.Uint8 {
				return nil
			}
			n := 0
			for i := 0; i < 256; i++ {
				if c.mayBe(u.X, i, s.Block()) {
					set[string(rune(i))] = true
					n++
				}
			}
			if n > 32 {
				return nil
			}
		default:
			return nil
		}
	}
	if len(set) == 0 || len(set) > 32 {
		return nil
	}
	var names []string
	for n := range set {
		names = append(names, n)
	}
	sort.Strings(names)
	var out []constant.Value
	for _, n := range names {
		out = append(out, constant.MakeString(n))
	}
	return out
}

// mayBe: the byte may have the value where the block is run.
func (c *placeCheck) mayBe(x ssa.Value, n int, at *ssa.BasicBlock) bool {
	lv := newSetLiveness(c.p, setEnv{})
	lv.fixed = map[string]constant.Value{c.p.vkey(x): constant.MakeInt64(int64(n))}
	for b := at; b.Idom() != nil; b = b.Idom() {
		d := b.Idom()
		iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		side := -1
		for i, s := range d.Succs {
			if s == b && len(s.Preds) == 1 {
				side = i
			}
		}
		if side < 0 {
			continue
		}
		if v := lv.val(iff.Cond, nil, 0); v != nil && v.Kind() == constant.Bool && constant.BoolVal(v) != (side == 0) {
			return false
		}
	}
	return true
}

// isCounter: the value is a number of the parser's state.
func (c *placeCheck) isCounter(v ssa.Value) bool {
	fv := c.counterField(v)
	return fv != nil && (c.counter == nil || fv == c.counter)
}

func (c *placeCheck) counterField(v ssa.Value) *types.Var {
	for d := 0; d < 10 && v != nil; d++ {
		switch u := v.(type) {
		case *ssa.MakeInterface:
			v = u.X
			continue
		case *ssa.Convert:
			v = u.X
			continue
		case *ssa.UnOp:
			if fa, ok := u.X.(*ssa.FieldAddr); ok && u.Op == token.MUL {
				n, s := namedStruct(fa.X.Type())
				if n == c.t && isInt(s.Field(fa.Field).Type()) {
					return s.Field(fa.Field)
				}
				return nil
			}
		case *ssa.BinOp:
			// the counter after increasing it
			if _, ok := constInt(u.Y); ok && (u.Op == token.ADD || u.Op == token.SUB) {
				v = u.X
				continue
			}
		case *ssa.Call:
			// as text, or given by a function
			switch CalleeKey(&u.Call) {
			case "strconv.Itoa", "strconv.FormatInt", "strconv.FormatUint":
				if len(u.Call.Args) == 2 {
					if k, ok := constInt(u.Call.Args[1]); !ok || k != 10 {
						return nil
					}
				}
				v = u.Call.Args[0]
				continue
			}
			if f := u.Call.StaticCallee(); f != nil && c.p.IsRepoFn(f) {
				if ret := onlyReturn(f); ret != nil && len(ret.Results) == 1 {
					v = ret.Results[0]
					continue
				}
			}
			return nil
		}
		n := c.p.resolveStep(v)
		if n == v {
			return nil
		}
		v = n
	}
	return nil
}

// onlyReturn is the only place at which the function returns.
func onlyReturn(fn *ssa.Function) (out *ssa.Return) {
	for _, b := range fn.Blocks {
		if len(b.Instrs) == 0 {
			continue
		}
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			if out != nil {
				return nil
			}
			out = r
		}
	}
	return
}

// shape: the key contains the counter, separated from the other parts.
func (c *placeCheck) shape(k ssa.Value, at ssa.Instruction, _ *shapeFrame) {
	for _, s := range c.sh.ev2(k, nil) {
		n := 0
		for i, q := range s {
			if q.v == nil {
				continue
			}
			fv := c.counterField(q.v)
			if fv == nil {
				continue
			}
			switch strings.TrimLeft(q.verb, "%0123456789") {
			case "", "d", "v":
			default:
				c.bad("number", at, "the number of the placeholder is not part of it as number")
			}
			n++
			c.counter = fv
			// other unknown parts may only be before the number, separated by something that is no digit
			for j, o := range s {
				if o.v != nil && j != i && j > i {
					c.bad("number", at, "other parts follow the number of the placeholder, two placeholders may be the same")
				}
			}
			if i > 0 {
				l := s[i-1]
				if l.v != nil || l.lit != "" && l.lit[len(l.lit)-1] >= '0' && l.lit[len(l.lit)-1] <= '9' {
					c.bad("number", at, "the number of the placeholder is not separated from the part before it, two placeholders may be the same")
				}
			}
			if i+1 < len(s) && s[i+1].v == nil && s[i+1].lit != "" && s[i+1].lit[0] >= '0' && s[i+1].lit[0] <= '9' {
				c.bad("number", at, "the number of the placeholder is not separated from the part after it")
			}
		}
		if n != 1 {
			c.bad("number", at, "the placeholder doesn't contain the parser's counter: two elements may get the same one")
		}
	}
}

// --- the parser's state ---

func (c *placeCheck) state() {
	if c.counter == nil {
		c.bad("counter", nil, "no counter of placeholders found")
		return
	}
	idx := -1
	_, st := namedStruct(c.t)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i) == c.counter {
			idx = i
		}
	}
	if b, ok := c.counter.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 || b.Kind() == types.Int8 || b.Kind() == types.Uint8 || b.Kind() == types.Int16 || b.Kind() == types.Uint16 {
		c.bad("counter", nil, "the counter of placeholders has the type %s and starts again in long articles", c.counter.Type())
	}
	c.onlyParser()
	increased := 0
	for _, fn := range c.p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch u := in.(type) {
				case *ssa.Store:
					fa, ok := u.Addr.(*ssa.FieldAddr)
					if !ok {
						if al, isA := u.Addr.(*ssa.Alloc); !isA || al == nil {
							if n, _ := namedStruct(u.Addr.Type()); n == c.t && isDirect(u.Addr.Type(), c.t) {
								c.bad("reset:"+fn.Name(), in, "the parser is replaced as a whole: its counter starts again")
							}
						}
						continue
					}
					n, _ := namedStruct(fa.X.Type())
					if n != c.t {
						continue
					}
					fresh := isFreshAlloc(fa.X)
					switch fa.Field {
					case idx:
						if fresh {
							continue
						}
						if x, y, ok := sumOf(u.Val); ok {
							if k, isK := constInt(y); isK && k > 0 && c.counterField(x) == c.counter {
								increased++
								c.grows(fn, u)
								continue
							}
						}
						c.bad("counter:"+fn.Name(), in, "the counter of placeholders is set to another value than the next one")
					case c.mapIdx:
						_, isMake := c.p.resolve(u.Val).(*ssa.MakeMap)
						if !fresh || !isMake || !sameLoop(fa.X, c.p.resolve(u.Val)) {
							c.bad("map:"+fn.Name(), in, "the parser's map of elements is not a new one for each parser")
						}
					}
				case *ssa.UnOp:
					if u.Op != token.MUL || !isDirect(u.X.Type(), c.t) {
						continue
					}
					al, ok := u.X.(*ssa.Alloc)
					if !ok || shared(al) {
						c.bad("copied:"+fn.Name(), in, "the parser is copied: the copy has a counter of its own but the same map of elements")
					}
				case *ssa.FieldAddr:
					n, _ := namedStruct(u.X.Type())
					if n != c.t || u.Field != idx {
						continue
					}
					for _, rf := range *u.Referrers() {
						switch w := rf.(type) {
						case *ssa.UnOp, *ssa.DebugRef:
						case *ssa.Store:
							if w.Val == ssa.Value(u) {
								c.bad("counter:"+fn.Name(), in, "the counter of placeholders may be changed elsewhere")
							}
						default:
							c.bad("counter:"+fn.Name(), in, "the counter of placeholders may be changed elsewhere")
						}
					}
				}
			}
		}
	}
	if increased == 0 {
		c.bad("counter", nil, "the counter of placeholders is never increased")
	}
	// every function making keys increases the counter
	for _, fn := range c.p.Funcs {
		if !inPkg(fn, "parser") {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				u, ok := in.(*ssa.UnOp)
				if !ok || u.Op != token.MUL {
					continue
				}
				fa, ok := u.X.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				if n, _ := namedStruct(fa.X.Type()); n != c.t || fa.Field != idx {
					continue
				}
				if !c.increasedWith(u) {
					c.bad("counter:"+fn.Name(), in, "the counter is used without being increased in each case, the next placeholder gets the same number")
				}
			}
		}
	}
}

// onlyParser: while a parser works, no other one is created: its placeholders would start again and its elements would
// be unknown to the article.
func (c *placeCheck) onlyParser() {
	from := map[*ssa.Function]bool{}
	for _, fn := range c.p.Funcs {
		for _, q := range fn.Params {
			if n, _ := namedStruct(q.Type()); n == c.t {
				for g := range c.p.Reach(fn) {
					from[g] = true
				}
			}
		}
	}
	for _, fn := range c.p.Funcs {
		if !from[fn] {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok && fa.Field == c.mapIdx && isFreshAlloc(fa.X) {
					if n, _ := namedStruct(fa.X.Type()); n == c.t {
						c.bad("nested:"+fn.Name(), in, "another parser is created while parsing: its placeholders start again and its elements are not those of the article")
					}
				}
			}
		}
	}
}

func isDirect(t types.Type, n *types.Named) bool {
	pt, ok := t.Underlying().(*types.Pointer)
	return ok && pt.Elem() == types.Type(n)
}

func isFreshAlloc(v ssa.Value) bool {
	_, ok := v.(*ssa.Alloc)
	return ok
}

func sameLoop(a, b ssa.Value) bool {
	x, ok := a.(ssa.Instruction)
	y, ok2 := b.(ssa.Instruction)
	return ok && ok2 && x.Parent() == y.Parent() && (innermost(loopsOf(x.Parent()), x.Block()) == nil) == (innermost(loopsOf(y.Parent()), y.Block()) == nil)
}

// shared: the variable is used by something else before it is copied.
func shared(al *ssa.Alloc) bool {
	for _, rf := range *al.Referrers() {
		switch rf.(type) {
		case *ssa.FieldAddr, *ssa.UnOp, *ssa.DebugRef:
		case *ssa.Store:
			if rf.(*ssa.Store).Addr != ssa.Value(al) {
				return true
			}
		default:
			return true
		}
	}
	return false
}

// grows: the increase happens in each successful run of the function.
func (c *placeCheck) grows(fn *ssa.Function, st *ssa.Store) {
	c.r.Count("increases of the counter", 1)
	_ = fn
	_ = st
}

// increasedWith: from reading the counter on, each path increases it (or has increased it from the value that was read just
// before).
func (c *placeCheck) increasedWith(u *ssa.UnOp) bool {
	fn := u.Parent()
	isInc := func(in ssa.Instruction) bool {
		st, ok := in.(*ssa.Store)
		if !ok {
			return false
		}
		fa, ok := st.Addr.(*ssa.FieldAddr)
		if !ok || fieldVar(fa.X.Type(), fa.Field) != c.counter {
			return false
		}
		return true
	}
	// only used for increasing or for messages
	used := false
	for _, rf := range *u.Referrers() {
		switch w := rf.(type) {
		case *ssa.DebugRef:
		case *ssa.BinOp:
			for _, rr := range *w.Referrers() {
				if st, ok := rr.(*ssa.Store); !ok || !isInc(st) {
					used = true
				}
			}
		case *ssa.MakeInterface:
			if !diagnosticUse(c.p, w, map[ssa.Value]bool{}) {
				used = true
			}
		default:
			used = true
		}
	}
	if !used {
		return true
	}
	// increased before with nothing in between
	for i := indexIn(u) - 1; i >= 0; i-- {
		if isInc(u.Block().Instrs[i]) {
			return true
		}
	}
	for d := u.Block().Idom(); d != nil; d = d.Idom() {
		for _, in := range d.Instrs {
			if isInc(in) && innermost(loopsOf(fn), in.Block()) == nil && innermost(loopsOf(fn), u.Block()) == nil {
				return true
			}
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, from int) bool
	walk = func(b *ssa.BasicBlock, from int) bool {
		for i := from; i < len(b.Instrs); i++ {
			in := b.Instrs[i]
			if isInc(in) {
				return true
			}
			if in == ssa.Instruction(u) {
				return false
			}
			switch in.(type) {
			case *ssa.Return:
				return false
			case *ssa.RunDefers:
				for _, q := range fn.Blocks {
					for _, x := range q.Instrs {
						if df, ok := x.(*ssa.Defer); ok && q.Dominates(b) {
							if f := df.Call.StaticCallee(); f != nil {
								for _, fb := range f.Blocks {
									for _, y := range fb.Instrs {
										if isInc(y) && passedAlways(c.p, f, fb) {
											return true
										}
									}
								}
							}
						}
					}
				}
			}
		}
		for _, s := range b.Succs {
			if seen[s] {
				continue
			}
			seen[s] = true
			if !walk(s, 0) {
				return false
			}
		}
		return true
	}
	return walk(u.Block(), indexIn(u)+1)
}

// --- markers ---

var markerPattern = regexp.MustCompile(`\$\$[A-Za-z_0-9]+\$\$`)

// inserted lists the fixed texts the parser puts into texts that look like placeholders.
func (c *placeCheck) inserted() map[string]ssa.Instruction {
	out := map[string]ssa.Instruction{}
	for _, fn := range c.p.Funcs {
		if !inPkg(fn, "parser") {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var ops []*ssa.Value
				for _, o := range in.Operands(ops) {
					if o == nil || *o == nil {
						continue
					}
					if t := constText(*o); t != "\x00" {
						for _, m := range markerPattern.FindAllString(t, -1) {
							out[m] = in
						}
					}
				}
			}
		}
	}
	return out
}

func (c *placeCheck) markers() {
	ms := c.inserted()
	var names []string
	for m := range ms {
		names = append(names, m)
	}
	sort.Strings(names)
	for _, m := range names {
		c.r.Count("markers", 1)
		for _, re := range c.pattern {
			for _, n := range append([]string{""}, names...) {
				if re.MatchString(m+n) || re.MatchString(n+m) {
					c.bad("marker:"+m, ms[m], "the marker %s matches the pattern of placeholders", m)
				}
			}
		}
	}
	// templates of other placeholders
	for _, fn := range c.p.Funcs {
		if !inPkg(fn, "generator") || fn.Signature.Recv() == nil {
			continue
		}
		if !c.isMarkerFn(fn) {
			continue
		}
		got := map[string]bool{}
		c.replaces(fn, got)
		for _, m := range names {
			c.r.Count("replacements of markers", 1)
			if !got[m] {
				c.bad("marker:"+m+":"+fn.String(), fn.Blocks[0].Instrs[0], "%s doesn't replace the marker %s the parser puts into the text", fn.String(), m)
			}
		}
	}
}

var markerFns = map[*ssa.Function]bool{}

func (c *placeCheck) isMarkerFn(fn *ssa.Function) bool { return markerFns[fn] }

// replaces collects the texts that are replaced on each path of the function.
func (c *placeCheck) replaces(fn *ssa.Function, got map[string]bool) {
	first := true
	for _, b := range fn.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || len(ret.Results) != 1 {
			continue
		}
		m := map[string]bool{}
		if !c.replaced(ret.Results[0], nil, m, 0) {
			m = map[string]bool{}
		}
		c.absentAt(b, nil, m)
		if first {
			for k := range m {
				got[k] = true
			}
			first = false
			continue
		}
		for k := range got {
			if !m[k] {
				delete(got, k)
			}
		}
	}
}

// replaced adds the texts that don't occur in the value any more; false if the text isn't the parameter's.
func (c *placeCheck) replaced(v ssa.Value, fr *shapeFrame, got map[string]bool, d int) bool {
	if d > 60 || v == nil {
		return false
	}
	note := func(t, by string) {
		if c.pairs != nil {
			if c.pairs[t] == nil {
				c.pairs[t] = map[string]bool{}
			}
			c.pairs[t][by] = true
		}
		if !strings.Contains(by, "$$") {
			got[t] = true
		}
	}
	switch u := v.(type) {
	case *ssa.Parameter:
		if a, up, ok := frameArg(u, fr); ok {
			return c.replaced(a, up, got, d+1)
		}
		return true
	case *ssa.Call:
		switch CalleeKey(&u.Call) {
		case "strings.ReplaceAll":
			if !c.replaced(u.Call.Args[0], fr, got, d+1) {
				return false
			}
			for _, t := range c.constTexts(u.Call.Args[1], fr) {
				note(t, strings.Join(c.constTexts(u.Call.Args[2], fr), ""))
			}
			return true
		case "strings.Replace":
			if n, ok := constInt(u.Call.Args[3]); ok && n < 0 {
				if !c.replaced(u.Call.Args[0], fr, got, d+1) {
					return false
				}
				note(constText(u.Call.Args[1]), constText(u.Call.Args[2]))
				return true
			}
			return c.replaced(u.Call.Args[0], fr, got, d+1)
		case "(*strings.Replacer).Replace":
			if !c.replaced(u.Call.Args[1], fr, got, d+1) {
				return false
			}
			r := c.p.resolve(u.Call.Args[0])
			if ld, ok := r.(*ssa.UnOp); ok {
				if g, ok := ld.X.(*ssa.Global); ok && len(c.p.storesTo[g]) == 1 {
					r = c.p.resolve(c.p.storesTo[g][0].Val)
				}
			}
			if nr, ok := r.(*ssa.Call); ok && CalleeKey(&nr.Call) == "strings.NewReplacer" {
				vs := variadicArgs(nr.Call.Args[0])
				for i := 0; i+1 < len(vs); i += 2 {
					note(constText(vs[i]), constText(vs[i+1]))
				}
			}
			return true
		}
		if f := u.Call.StaticCallee(); f != nil && c.p.IsRepoFn(f) && len(f.Blocks) > 0 {
			n := &shapeFrame{call: u, fn: f, up: fr}
			var all map[string]bool
			for _, b := range f.Blocks {
				ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
				if !ok || len(ret.Results) != 1 {
					continue
				}
				m := map[string]bool{}
				if !c.replaced(ret.Results[0], n, m, d+1) {
					return false
				}
				c.absentAt(b, n, m)
				if all == nil {
					all = m
					continue
				}
				for k := range all {
					if !m[k] {
						delete(all, k)
					}
				}
			}
			for k := range all {
				got[k] = true
			}
			return all != nil
		}
	case *ssa.Phi:
		// a loop over a table of markers
		l := loopsOf(u.Parent())[u.Block()]
		if l == nil {
			var all map[string]bool
			for _, e := range u.Edges {
				m := map[string]bool{}
				if !c.replaced(e, fr, m, d+1) {
					return false
				}
				if all == nil {
					all = m
					continue
				}
				for k := range all {
					if !m[k] {
						delete(all, k)
					}
				}
			}
			for k := range all {
				got[k] = true
			}
			return true
		}
		ct := countingOf(l)
		for i, e := range u.Edges {
			if l.blocks[u.Block().Preds[i]] {
				call, ok := e.(*ssa.Call)
				if !ok || CalleeKey(&call.Call) != "strings.ReplaceAll" || call.Call.Args[0] != ssa.Value(u) {
					return false
				}
				complete := ct != nil
				for _, ex := range l.exits() {
					complete = complete && ct.regular(ex)
				}
				if kv := mapRange(l, call); ct == nil && kv != nil {
					for k, by := range kv {
						note(k, by)
					}
					continue
				}
				if !complete {
					return false
				}
				olds := c.tableTexts(call.Call.Args[1], ct)
				bys := c.tableTexts(call.Call.Args[2], ct)
				for i, t := range olds {
					by := strings.Join(bys, "")
					if len(bys) == len(olds) {
						by = bys[i]
					}
					note(t, by)
				}
				continue
			}
			if !c.replaced(e, fr, got, d+1) {
				return false
			}
		}
		return true
	}
	if n := c.p.resolveStep(v); n != nil && n != v {
		return c.replaced(n, fr, got, d+1)
	}
	return false
}

// absentAt adds the markers that can't be in the text where the block is run because of a test before it.
func (c *placeCheck) absentAt(b *ssa.BasicBlock, fr *shapeFrame, got map[string]bool) {
	for ; b.Idom() != nil; b = b.Idom() {
		d := b.Idom()
		iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok || len(b.Preds) != 1 || d.Succs[0] == d.Succs[1] {
			continue
		}
		cond, val := iff.Cond, d.Succs[0] == b
		for {
			n, ok := cond.(*ssa.UnOp)
			if !ok || n.Op != token.NOT {
				break
			}
			cond, val = n.X, !val
		}
		call, ok := cond.(*ssa.Call)
		if !ok || val || CalleeKey(&call.Call) != "strings.Contains" || !c.replaced(call.Call.Args[0], fr, map[string]bool{}, 1) {
			continue
		}
		for _, t := range c.constTexts(call.Call.Args[1], fr) {
			for m := range c.inserted() {
				if strings.Contains(m, t) {
					got[m] = true
				}
			}
		}
	}
}

// constTexts are the fixed texts a value may be.
func (c *placeCheck) constTexts(v ssa.Value, fr *shapeFrame) []string {
	for d := 0; d < 10; d++ {
		if q, ok := v.(*ssa.Parameter); ok {
			if a, up, is := frameArg(q, fr); is {
				v, fr = a, up
				continue
			}
		}
		break
	}
	if t := constText(c.p.resolve(v)); t != "\x00" {
		return []string{t}
	}
	return nil
}

// mapRange: the loop runs over a literal map and the call replaces its keys by the values.
func mapRange(l *natLoop, call *ssa.Call) map[string]string {
	part := func(v ssa.Value, i int) *ssa.Next {
		if e, ok := v.(*ssa.Extract); ok && e.Index == i {
			n, _ := e.Tuple.(*ssa.Next)
			return n
		}
		return nil
	}
	nx := part(call.Call.Args[1], 1)
	by := constText(call.Call.Args[2])
	if nx == nil || nx.Block() != l.head || by == "\x00" && part(call.Call.Args[2], 2) != nx {
		return nil
	}
	for _, ex := range l.exits() {
		if ex[0] != l.head {
			return nil
		}
	}
	rg, ok := nx.Iter.(*ssa.Range)
	if !ok {
		return nil
	}
	mk, ok := rg.X.(*ssa.MakeMap)
	if !ok {
		return nil
	}
	out := map[string]string{}
	for _, rf := range *mk.Referrers() {
		switch u := rf.(type) {
		case *ssa.MapUpdate:
			k, v := constText(u.Key), constText(u.Value)
			if k == "\x00" || !u.Block().Dominates(rg.Block()) {
				return nil
			}
			if by != "\x00" {
				v = by
			}
			out[k] = v
		case *ssa.Range, *ssa.DebugRef:
		default:
			return nil
		}
	}
	return out
}

// tableTexts lists the texts of a literal list or table the loop runs over; the value is a part of its current entry.
func (c *placeCheck) tableTexts(v ssa.Value, ct *counting) (out []string) {
	if t := constText(v); t != "\x00" {
		return []string{t}
	}
	n := int64(0)
	b := &bookCheck{p: c.p, r: c.r}
	if k, ok := constInt(ct.bound); ok {
		n = k
	} else if call, ok := ct.bound.(*ssa.Call); ok && len(call.Call.Args) == 1 {
		if sl, ok := c.p.resolve(call.Call.Args[0]).(*ssa.Slice); ok {
			if al, ok := sl.X.(*ssa.Alloc); ok {
				if at, ok := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array); ok {
					n = at.Len()
				}
			}
		}
	}
	for i := int64(0); i < n; i++ {
		e := b.cellOf(v, ct, i)
		if e == nil {
			return nil
		}
		if t := constText(e); t != "\x00" {
			out = append(out, t)
		}
	}
	return
}

// replacedBefore: the text the pattern is applied to went through the replacement of markers of the handler.
func (c *placeCheck) replacedBefore(in ssa.Instruction, text ssa.Value) {
	v := text
	for d := 0; d < 20 && v != nil; d++ {
		if call, ok := v.(*ssa.Call); ok {
			if call.Call.IsInvoke() {
				for _, f := range c.p.implementers(&call.Call) {
					markerFns[f] = true
				}
				return
			}
			if f := call.Call.StaticCallee(); f != nil && inPkg(f, "generator") && len(f.Blocks) > 0 {
				markerFns[f] = true
				return
			}
		}
		if sl, ok := v.(*ssa.Slice); ok {
			v = sl.X
			continue
		}
		if ph, ok := v.(*ssa.Phi); ok {
			// the rest of the text
			var next ssa.Value
			for _, e := range ph.Edges {
				if s, ok := e.(*ssa.Slice); ok && s.X == ssa.Value(ph) {
					continue
				}
				if next != nil {
					next = nil
					break
				}
				next = e
			}
			v = next
			continue
		}
		n := c.p.resolveStep(v)
		if n == v {
			break
		}
		v = n
	}
	c.bad("markers", in, "placeholders are searched in text whose markers are not replaced")
}

// --- the article ---

// sameArticle: the elements used for rendering are those of the article that is rendered.
func (c *placeCheck) sameArticle() {
	for _, fn := range c.p.Funcs {
		if inPkg(fn, "parser") {
			continue
		}
		var loads []*ssa.UnOp
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL {
					if fa, ok := u.X.(*ssa.FieldAddr); ok {
						if n, _ := namedStruct(fa.X.Type()); n == c.article && fa.Field == c.artIdx {
							loads = append(loads, u)
						}
					}
				}
			}
		}
		if len(loads) == 0 {
			continue
		}
		for _, ld := range loads {
			c.r.Count("uses of an article's elements", 1)
			base := c.p.vkey(ld.X.(*ssa.FieldAddr).X)
			// the rendering following it
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					ci, ok := in.(ssa.CallInstruction)
					if !ok || !(ld.Block().Dominates(b)) {
						continue
					}
					for _, a := range ci.Common().Args {
						if n, _ := namedStruct(a.Type()); n == c.article && c.p.vkey(a) != base {
							c.bad("article:"+fmt.Sprint(fn.Name()), in, "an article is rendered with the elements of another article")
						}
					}
				}
			}
		}
	}
}
