package main

import (
	"go/constant"
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// --- values received from channels ---

// received shows a goal about a value received from a channel for the values sent to it.
func (c *boundCheck) received(g lsum, k string, f *boundFacts) bool {
	v := c.nodes[k].v
	recv := v
	if e, ok := v.(*ssa.Extract); ok {
		recv = e.Tuple
		if e.Index != 0 || !f.present["received "+c.id(recv)] {
			return false
		}
	}
	u, ok := recv.(*ssa.UnOp)
	if !ok || u.Op != token.ARROW {
		return false
	}
	mc, ok := c.p.resolve(u.X).(*ssa.MakeChan)
	if !ok {
		return false
	}
	n := g.t[k]
	found := false
	for _, fn := range c.p.Funcs {
		for _, b := range fn.Blocks {
			for i, in := range b.Instrs {
				s, ok := in.(*ssa.Send)
				if !ok {
					if _, sel := in.(*ssa.Select); sel {
						return false
					}
					continue
				}
				to := c.p.resolve(s.Chan)
				if to != ssa.Value(mc) {
					if _, known := to.(*ssa.MakeChan); !known {
						return false
					}
					continue
				}
				found = true
				h := g.add(lsum{t: map[string]int64{k: 1}}, -n).add(c.intOf(s.X), n)
				if !c.prove(h, b, i) {
					return false
				}
			}
		}
	}
	return found
}

// captured gives what's stored in a variable of the enclosing function, which is set once.
func (c *boundCheck) captured(v ssa.Value) ssa.Value {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return nil
	}
	fv, ok := u.X.(*ssa.FreeVar)
	if !ok {
		return nil
	}
	a, ok := c.p.resolve(fv).(*ssa.Alloc)
	if !ok {
		return nil
	}
	for _, r := range *a.Referrers() {
		if st, ok := r.(*ssa.Store); ok {
			for _, q := range *a.Referrers() {
				if mc, ok := q.(*ssa.MakeClosure); ok && !st.Block().Dominates(mc.Block()) {
					return nil
				}
			}
		}
	}
	return c.p.onlyStore(a)
}

// --- arguments of commands ---

// commandArgs is the least number of arguments a function run for a command gets.
func (c *boundCheck) commandArgs(q *ssa.Parameter) int64 {
	fn := q.Parent()
	if len(fn.Params) != 2 || fn.Params[1] != q {
		return 0
	}
	least := int64(-1)
	for _, g := range c.p.Funcs {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				name := addrField(fa)
				if name != "Run" && name != "RunE" || functionOf(st.Val) != fn {
					continue
				}
				n := int64(0)
				base := c.p.resolve(fa.X)
				for _, h := range c.p.Funcs {
					for _, d := range h.Blocks {
						for _, o := range d.Instrs {
							so, ok := o.(*ssa.Store)
							if !ok {
								continue
							}
							fo, ok := so.Addr.(*ssa.FieldAddr)
							if !ok || addrField(fo) != "Args" || c.p.resolve(fo.X) != base {
								continue
							}
							n = max(n, c.leastArgs(so.Val))
						}
					}
				}
				if least == -1 || n < least {
					least = n
				}
			}
		}
	}
	return max(least, 0)
}

func addrField(fa *ssa.FieldAddr) string {
	if v := fieldVar(fa.X.Type(), fa.Field); v != nil {
		return v.Name()
	}
	return ""
}

func functionOf(v ssa.Value) *ssa.Function {
	switch u := v.(type) {
	case *ssa.Function:
		return u
	case *ssa.MakeClosure:
		return u.Fn.(*ssa.Function)
	case *ssa.ChangeType:
		return functionOf(u.X)
	}
	return nil
}

func (c *boundCheck) leastArgs(v ssa.Value) int64 {
	k, ok := c.p.resolve(v).(*ssa.Call)
	if !ok {
		return 0
	}
	key := CalleeKey(&k.Call)
	switch {
	case strings.HasSuffix(key, "cobra.ExactArgs"), strings.HasSuffix(key, "cobra.MinimumNArgs"), strings.HasSuffix(key, "cobra.RangeArgs"):
		if n, ok := constInt(k.Call.Args[0]); ok {
			return n
		}
	case strings.HasSuffix(key, "cobra.MatchAll"):
		n := int64(0)
		for _, a := range variadicArgs(k.Call.Args[0]) {
			n = max(n, c.leastArgs(a))
		}
		return n
	}
	return 0
}

// --- the first part with some end ---

// flat is a text as sequence of fixed texts (quoted) and names of values.
func (c *boundCheck) flat(v ssa.Value) (out []ssa.Value) {
	if b, ok := v.(*ssa.BinOp); ok && b.Op == token.ADD {
		return append(c.flat(b.X), c.flat(b.Y)...)
	}
	return []ssa.Value{v}
}

// same text for the same sequence
func (c *boundCheck) flatName(vs []ssa.Value, more string) string {
	out, text := "", ""
	for _, v := range vs {
		if t := constText(v); t != "\x00" {
			text += t
			continue
		}
		out += "<" + text + ">" + c.ident(v)
		text = ""
	}
	return out + "<" + text + more + ">"
}

// notLast: the index is the one of the first part (of a text split at a separator) that ends with some text, and the
// text contains that one followed by the separator; so another part follows.
func (c *boundCheck) notLast(g lsum, b *ssa.BasicBlock) bool {
	// i + 2 <= len(parts)
	var list ssa.Value
	for k, n := range g.t {
		if nd := c.nodes[k]; nd.kind == 'l' && n == -1 {
			list = nd.v
		}
	}
	if list == nil || len(g.t) != 2 {
		return false
	}
	split, ok := list.(*ssa.Call)
	if !ok || CalleeKey(&split.Call) != "strings.Split" {
		return false
	}
	sep := constText(c.p.resolve(split.Call.Args[1]))
	if len(sep) != 1 {
		return false
	}
	for _, l := range loopsOf(b.Parent()) {
		cl := countingOf(l)
		if cl == nil {
			continue
		}
		idx := cl.index
		want := c.intOf(idx).add(c.lenOf(list), -1)
		if want.c += 2; want.vars() != g.vars() || g.c > want.c {
			continue
		}
		// the test each part is subject to
		for t := range l.blocks {
			br, ok := t.Instrs[len(t.Instrs)-1].(*ssa.If)
			if !ok {
				continue
			}
			k, ok := br.Cond.(*ssa.Call)
			if !ok || CalleeKey(&k.Call) != "strings.HasSuffix" {
				continue
			}
			part, ok := k.Call.Args[0].(*ssa.UnOp)
			if !ok {
				continue
			}
			ia, ok := part.X.(*ssa.IndexAddr)
			if !ok || c.ident(ia.X) != c.ident(list) || c.intOf(ia.Index).String() != c.intOf(idx).String() {
				continue
			}
			if !t.Succs[0].Dominates(b) || len(t.Succs[0].Preds) != 1 || blockReaches(t.Succs[0], l.head) || !l.everyIteration(t) {
				continue
			}
			end := c.flat(k.Call.Args[1])
			if !c.without(end, sep) {
				continue
			}
			whole := c.flatName(end, sep)
			for _, h := range c.contained(split.Call.Args[0], b) {
				if c.flatName(c.flat(h), "") == whole {
					return true
				}
			}
		}
	}
	return false
}

// contained are the texts a text is known to contain at a place.
func (c *boundCheck) contained(s ssa.Value, b *ssa.BasicBlock) (out []ssa.Value) {
	for x := b; x.Idom() != nil; x = x.Idom() {
		d := x.Idom()
		br, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok || len(x.Preds) != 1 || d.Succs[0] != x || d.Succs[1] == x {
			continue
		}
		if k, ok := br.Cond.(*ssa.Call); ok && CalleeKey(&k.Call) == "strings.Contains" && c.ident(k.Call.Args[0]) == c.ident(s) {
			out = append(out, k.Call.Args[1])
		}
	}
	return
}

// without: none of the texts contains the separator, whichever way they got here.
func (c *boundCheck) without(vs []ssa.Value, sep string) bool {
	for _, v := range vs {
		if !c.lacks(v, sep, 0) {
			return false
		}
	}
	return true
}

// lacks: the text doesn't contain the given character.
func (c *boundCheck) lacks(v ssa.Value, ch string, d int) bool {
	if d > 12 || len(ch) != 1 {
		return false
	}
	if t := constText(v); t != "\x00" {
		return !strings.Contains(t, ch)
	}
	switch u := v.(type) {
	case *ssa.Phi:
		for _, e := range u.Edges {
			if !c.lacks(e, ch, d+1) {
				return false
			}
		}
		return true
	case *ssa.BinOp:
		return u.Op == token.ADD && c.lacks(u.X, ch, d+1) && c.lacks(u.Y, ch, d+1)
	case *ssa.Slice:
		return c.lacks(u.X, ch, d+1)
	case *ssa.Parameter:
		sites, ok := c.p.sitesOf(u.Parent())
		if !ok || len(sites) == 0 || c.p.takenAsValue(u.Parent()) {
			return false
		}
		at := -1
		for i, q := range u.Parent().Params {
			if q == u {
				at = i
			}
		}
		for _, s := range sites {
			if s.Common().IsInvoke() || at >= len(s.Common().Args) || !c.lacks(s.Common().Args[at], ch, d+2) {
				return false
			}
		}
		return true
	case *ssa.Call:
		args := u.Call.Args
		switch CalleeKey(&u.Call) {
		case "strings.TrimSpace", "strings.Trim", "strings.TrimLeft", "strings.TrimRight", "strings.TrimPrefix", "strings.TrimSuffix", "strings.ToLower", "strings.ToUpper":
			return c.lacks(args[0], ch, d+1)
		case "strings.ReplaceAll":
			return c.lacks(args[0], ch, d+1) && c.lacks(args[2], ch, d+1)
		}
	case *ssa.UnOp:
		ia, ok := u.X.(*ssa.IndexAddr)
		if !ok || u.Op != token.MUL {
			return false
		}
		k, ok := ia.X.(*ssa.Call)
		if !ok {
			return false
		}
		// elements set before could be anything
		for _, r := range *k.Referrers() {
			if o, ok := r.(*ssa.IndexAddr); ok {
				for _, q := range *o.Referrers() {
					if st, ok := q.(*ssa.Store); ok && (blockReaches(st.Block(), u.Block()) || st.Block() == u.Block() && instrBefore(st, u)) {
						return false
					}
				}
			}
		}
		switch CalleeKey(&k.Call) {
		case "strings.Split":
			return constText(c.p.resolve(k.Call.Args[1])) == ch || c.lacks(k.Call.Args[0], ch, d+1)
		case "strings.SplitN":
			return c.lacks(k.Call.Args[0], ch, d+1)
		}
	}
	return false
}

// instrBefore: within one block
func instrBefore(a, b ssa.Instruction) bool {
	for _, in := range a.Block().Instrs {
		if in == a {
			return true
		}
		if in == b {
			return false
		}
	}
	return false
}

// blockReaches: another block can be reached from one by at least one step.
func blockReaches(from, to *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var visit func(b *ssa.BasicBlock) bool
	visit = func(b *ssa.BasicBlock) bool {
		for _, s := range b.Succs {
			if s == to {
				return true
			}
			if !seen[s] {
				seen[s] = true
				if visit(s) {
					return true
				}
			}
		}
		return false
	}
	return visit(from)
}

// --- the first of several parts ---

// splits: the text to be split is the first part of another one, which is made such that its first part contains the
// separator.
func (c *boundCheck) splits(text, sep ssa.Value, f *boundFacts) bool {
	u, ok := text.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return false
	}
	ia, ok := u.X.(*ssa.IndexAddr)
	if !ok {
		return false
	}
	if n, ok := constInt(ia.Index); !ok || n != 0 {
		return false
	}
	outer, ok := ia.X.(*ssa.Call)
	if !ok || CalleeKey(&outer.Call) != "strings.Split" {
		return false
	}
	for _, r := range *outer.Referrers() {
		if o, ok := r.(*ssa.IndexAddr); ok {
			for _, q := range *o.Referrers() {
				if _, ok := q.(*ssa.Store); ok {
					return false
				}
			}
		}
	}
	by := constText(c.p.resolve(outer.Call.Args[1]))
	inner := constText(c.p.resolve(sep))
	whole, ok := outer.Call.Args[0].(*ssa.Call)
	if !ok || len(by) != 1 || inner == "\x00" || inner == "" || !c.positive(c.lenOf(whole), f) {
		return false
	}
	fn := whole.Call.StaticCallee()
	if fn == nil || !c.p.IsRepoFn(fn) || fn.Signature.Results().Len() != 1 {
		return false
	}
	for _, b := range fn.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if ok && !c.firstHolds(resultOf(ret, 0), ret, by, inner, 0) {
			return false
		}
	}
	return true
}

// firstHolds: a text is empty or its first part contains a text.
func (c *boundCheck) firstHolds(v ssa.Value, at ssa.Instruction, by, inner string, d int) bool {
	if v == nil || d > 5 {
		return false
	}
	if t := constText(v); t != "\x00" {
		return t == "" || strings.Contains(strings.SplitN(t, by, 2)[0], inner)
	}
	switch u := v.(type) {
	case *ssa.Phi:
		for _, e := range u.Edges {
			if !c.firstHolds(e, at, by, inner, d+1) {
				return false
			}
		}
		return true
	case *ssa.BinOp:
		return c.headHolds(c.flat(u), by, inner)
	case *ssa.Call:
		if CalleeKey(&u.Call) != "strings.Join" || constText(c.p.resolve(u.Call.Args[1])) != by {
			return false
		}
		// the first element is set last
		list := u.Call.Args[0]
		var last *ssa.Store
		refs := list.Referrers()
		if refs == nil {
			return false
		}
		for _, r := range *refs {
			o, ok := r.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			for _, q := range *o.Referrers() {
				st, ok := q.(*ssa.Store)
				if !ok {
					continue
				}
				n, isC := constInt(o.Index)
				if !isC || n == 0 && last != nil {
					return false
				}
				if n == 0 {
					last = st
				}
			}
		}
		if last == nil || !(last.Block().Dominates(u.Block()) && (last.Block() != u.Block() || instrBefore(last, u))) {
			return false
		}
		return c.headHolds(c.flat(last.Val), by, inner)
	}
	return false
}

// headHolds: a fixed text containing the given one comes before any separator.
func (c *boundCheck) headHolds(vs []ssa.Value, by, inner string) bool {
	for _, v := range vs {
		if t := constText(v); t != "\x00" {
			head, _, cut := strings.Cut(t, by)
			if strings.Contains(head, inner) {
				return true
			}
			if cut {
				return false
			}
			continue
		}
		if !c.lacks(v, by, 0) {
			return false
		}
	}
	return false
}

// --- results of two searches ---

// A closing is what a function searching for a text returns: the position of the text given by one parameter in the
// text given by another one, or a negative number.
type closing struct{ text, token int }

func (c *boundCheck) closingOf(fn *ssa.Function, d int) *closing {
	if fn == nil || len(fn.Blocks) == 0 || !c.p.IsRepoFn(fn) || fn.Signature.Results().Len() != 1 || d > 3 {
		return nil
	}
	if r, ok := c.closings[fn]; ok {
		return r
	}
	c.closings[fn] = nil
	var out *closing
	for _, b := range fn.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		v := resultOf(ret, 0)
		if n, ok := constInt(v); ok && n < 0 {
			continue
		}
		one := c.closingAt(fn, v, b, d)
		if one == nil || out != nil && *out != *one {
			return nil
		}
		out = one
	}
	c.closings[fn] = out
	return out
}

func (c *boundCheck) paramIndex(fn *ssa.Function, v ssa.Value) int {
	for i, q := range fn.Params {
		if ssa.Value(q) == v {
			return i
		}
	}
	return -1
}

func (c *boundCheck) closingAt(fn *ssa.Function, v ssa.Value, b *ssa.BasicBlock, d int) *closing {
	if k, ok := v.(*ssa.Call); ok {
		in := c.closingOf(k.Call.StaticCallee(), d+1)
		if in == nil {
			return nil
		}
		x, y := c.paramIndex(fn, k.Call.Args[in.text]), c.paramIndex(fn, k.Call.Args[in.token])
		if x < 0 || y < 0 {
			return nil
		}
		return &closing{x, y}
	}
	// the text at the result equals the token on all ways
	f := c.known(b)
	for cond, val := range f.conds {
		phi, ok := cond.(*ssa.Phi)
		if !ok || !val {
			continue
		}
		if r := c.equalsAt(fn, phi, v, 0); r != nil {
			return r
		}
	}
	for x := b; x.Idom() != nil; x = x.Idom() {
		e := x.Idom()
		br, ok := e.Instrs[len(e.Instrs)-1].(*ssa.If)
		if !ok || len(x.Preds) != 1 || e.Succs[0] != x {
			continue
		}
		if r := c.equalsAt(fn, br.Cond, v, 0); r != nil {
			return r
		}
	}
	return nil
}

// equalsAt: the condition tells that the text at a position is the token.
func (c *boundCheck) equalsAt(fn *ssa.Function, cond, at ssa.Value, d int) *closing {
	if d > 4 {
		return nil
	}
	var x, y ssa.Value
	switch u := cond.(type) {
	case *ssa.Phi:
		var out *closing
		for _, e := range u.Edges {
			if k, ok := e.(*ssa.Const); ok && k.Value != nil && !constant.BoolVal(k.Value) {
				continue
			}
			r := c.equalsAt(fn, e, at, d+1)
			if r == nil || out != nil && *out != *r {
				return nil
			}
			out = r
		}
		return out
	case *ssa.BinOp:
		if u.Op != token.EQL {
			return nil
		}
		x, y = u.X, u.Y
	case *ssa.Call:
		g := u.Call.StaticCallee()
		if len(u.Call.Args) != 2 || !(CalleeKey(&u.Call) == "strings.EqualFold" || g != nil && c.comparesIgnoringCase(g)) {
			return nil
		}
		x, y = u.Call.Args[0], u.Call.Args[1]
	default:
		return nil
	}
	if c.paramIndex(fn, y) < 0 {
		x, y = y, x
	}
	tok := c.paramIndex(fn, y)
	if tok < 0 {
		return nil
	}
	text := -1
	edges := []ssa.Value{x}
	if phi, ok := x.(*ssa.Phi); ok {
		edges = phi.Edges
	}
	for _, e := range edges {
		if constText(e) == "" {
			// only equal to an empty token
			continue
		}
		sl, ok := e.(*ssa.Slice)
		if !ok || sl.Low == nil || c.intOf(sl.Low).String() != c.intOf(at).String() {
			return nil
		}
		i := c.paramIndex(fn, sl.X)
		if i < 0 || text >= 0 && text != i {
			return nil
		}
		text = i
	}
	if text < 0 {
		return nil
	}
	return &closing{text, tok}
}

// comparesIgnoringCase: the function compares its two parameters in lower or upper case.
func (c *boundCheck) comparesIgnoringCase(fn *ssa.Function) bool {
	if len(fn.Blocks) != 1 || len(fn.Params) != 2 {
		return false
	}
	ret, ok := fn.Blocks[0].Instrs[len(fn.Blocks[0].Instrs)-1].(*ssa.Return)
	if !ok || len(ret.Results) != 1 {
		return false
	}
	switch u := ret.Results[0].(type) {
	case *ssa.Call:
		return CalleeKey(&u.Call) == "strings.EqualFold"
	case *ssa.BinOp:
		x, ok1 := u.X.(*ssa.Call)
		y, ok2 := u.Y.(*ssa.Call)
		return u.Op == token.EQL && ok1 && ok2 && CalleeKey(&x.Call) == CalleeKey(&y.Call) && (CalleeKey(&x.Call) == "strings.ToLower" || CalleeKey(&x.Call) == "strings.ToUpper")
	}
	return false
}

// differ: two positions can't be equal, as different texts were found there.
func (c *boundCheck) differ(x, y ssa.Value) bool {
	k, ok1 := x.(*ssa.Call)
	l, ok2 := y.(*ssa.Call)
	if !ok1 || !ok2 {
		return false
	}
	a, b := c.closingOf(k.Call.StaticCallee(), 0), c.closingOf(l.Call.StaticCallee(), 0)
	if a == nil || b == nil || c.ident(k.Call.Args[a.text]) != c.ident(l.Call.Args[b.text]) {
		return false
	}
	s, t := constText(c.p.resolve(k.Call.Args[a.token])), constText(c.p.resolve(l.Call.Args[b.token]))
	if s == "\x00" || t == "\x00" || s == "" || t == "" {
		return false
	}
	return s[0] < 0x80 && t[0] < 0x80 && strings.ToLower(s[:1]) != strings.ToLower(t[:1])
}
