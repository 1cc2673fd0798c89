package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"regexp"
	"regexp/syntax"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A boundGoal is an inequality an instruction needs.
type boundGoal struct {
	le   lsum
	what string
}

// obligations are the inequalities an access needs.
func (c *boundCheck) obligations(in ssa.Instruction) (out []boundGoal) {
	need := func(l lsum, format string, args ...any) {
		if len(l.t) == 0 && l.c <= 0 {
			return
		}
		out = append(out, boundGoal{l, fmt.Sprintf(format, args...)})
	}
	index := func(x, i ssa.Value) {
		n := c.intOf(i)
		need(sumConst(0).add(n, -1), "the index isn't negative")
		g := n.add(c.lenOf(x), -1)
		g.c++
		need(g, "the index is less than the length")
	}
	switch u := in.(type) {
	case *ssa.IndexAddr:
		index(u.X, u.Index)
	case *ssa.Index:
		index(u.X, u.Index)
	case *ssa.Lookup:
		if isTextOrList(u.X.Type()) {
			index(u.X, u.Index)
		}
	case *ssa.Slice:
		lo, hi := sumConst(0), c.lenOf(u.X)
		if u.Low != nil {
			lo = c.intOf(u.Low)
			need(sumConst(0).add(lo, -1), "the start isn't negative")
		}
		if u.High != nil {
			hi = c.intOf(u.High)
			need(hi.add(c.lenOf(u.X), -1), "the end isn't behind the end of the text")
		}
		if u.Low != nil || u.High != nil {
			need(lo.add(hi, -1), "the start isn't behind the end")
		}
	}
	return
}

// A boundProof is the search for one proof.
type boundProof struct {
	c     *boundCheck
	at    *ssa.BasicBlock
	wide  bool
	level int
	steps int
	// inequalities assumed by induction: they hold at the start of the block in earlier rounds
	open map[string]int64
	// inequalities that couldn't be shown
	failed map[string]int64
	depth  int
}

// prove shows that the sum isn't positive before the n-th instruction of the block.
func (c *boundCheck) prove(g lsum, b *ssa.BasicBlock, n int, more ...lsum) bool {
	f := c.known(b).clone()
	c.accesses(f, b, n)
	f.le = append(f.le, more...)
	q := &boundProof{c: c, steps: 4000, open: map[string]int64{}, failed: map[string]int64{}}
	if q.holds(g, f, b, 0) {
		return true
	}
	q = &boundProof{c: c, steps: 20000, wide: true, open: map[string]int64{}, failed: map[string]int64{}}
	return q.holds(g, f, b, 0)
}

const boundDepth = 14

func (q *boundProof) holds(g lsum, f *boundFacts, b *ssa.BasicBlock, d int) bool {
	if len(g.t) == 0 {
		return g.c <= 0
	}
	if d > boundDepth {
		return false
	}
	// what follows at once; the rests are tried by going back
	rests := []lsum{}
	seen := map[string]int64{}
	at, level := q.at, q.level
	q.at, q.level = b, d
	done := q.linear(g, f, 5, &rests, seen)
	q.at, q.level = at, level
	if done {
		return true
	}
	sort.SliceStable(rests, func(i, j int) bool { return len(rests[i].t) < len(rests[j].t) })
	for i, r := range rests {
		if i > 24 {
			break
		}
		if q.back(r, f, b, d) {
			return true
		}
	}
	return false
}

// linear searches for facts whose sum gives the goal.
func (q *boundProof) linear(g lsum, f *boundFacts, d int, rests *[]lsum, seen map[string]int64) bool {
	if len(g.t) == 0 {
		return g.c <= 0
	}
	if q.steps--; q.steps < 0 {
		return false
	}
	v := g.vars()
	if have, ok := seen[v]; ok && have <= g.c {
		return false
	}
	seen[v] = g.c
	if len(g.t) > 6 {
		return false
	}
	if g.c == 1 && len(g.t) == 2 {
		// two different positions
		var vs []ssa.Value
		for k, n := range g.t {
			if q.c.nodes[k].kind == 'v' && (n == 1 || n == -1) {
				vs = append(vs, q.c.nodes[k].v)
			}
		}
		if len(vs) == 2 && q.c.differ(vs[0], vs[1]) {
			h := g
			h.c--
			if q.linear(h, f, d, rests, seen) {
				return true
			}
		}
	}
	for _, x := range f.ne {
		// g-1 <= 0 and g-1 ... : g <= 1 and g != 1
		for _, s := range []int64{1, -1} {
			y := sumConst(0).add(x, s)
			if y.vars() == v && y.c == g.c-1 {
				h := g
				h.c--
				if q.linear(h, f, d, rests, seen) {
					return true
				}
			}
		}
	}
	*rests = append(*rests, g)
	if d == 0 {
		return false
	}
	var ks []string
	for k := range g.t {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if q.pivot(g, k, f, d, rests, seen) {
			return true
		}
		if !q.wide {
			return false
		}
	}
	return false
}

// pivot tries to remove a node from a goal.
func (q *boundProof) pivot(g lsum, k string, f *boundFacts, d int, rests *[]lsum, seen map[string]int64) bool {
	n := g.t[k]
	// the largest one of some isn't larger than ... if none of them is
	if alts, isMax := q.c.choice(q.c.nodes[k].v); len(alts) > 0 && q.c.nodes[k].kind == 'v' && isMax == (n > 0) {
		all := true
		self := lsum{t: map[string]int64{k: 1}}
		for _, a := range alts {
			if !q.either(g.add(self, -n).add(a, n), f, d-1) {
				all = false
				break
			}
		}
		if all {
			return true
		}
	}
	if q.c.nodes[k].kind == 'v' && q.c.received(g, k, f) {
		return true
	}
	try := func(l lsum) bool {
		m := l.t[k]
		if m == 0 || (m > 0) != (n > 0) {
			return false
		}
		if n%m != 0 {
			if m%n != 0 {
				return false
			}
			// times a factor; as all are integers the constant may be rounded
			by := m / n
			h := sumConst(0).add(g, by)
			h.c -= by - 1
			return q.linear(h.add(l, -1), f, d-1, rests, seen)
		}
		return q.linear(g.add(l, -(n/m)), f, d-1, rests, seen)
	}
	for _, l := range f.le {
		if try(l) {
			return true
		}
	}
	for _, l := range q.c.about(k, f) {
		if try(l) {
			return true
		}
	}
	return false
}

// either shows a case of a goal.
func (q *boundProof) either(g lsum, f *boundFacts, d int) bool {
	if d < 0 {
		return false
	}
	if q.at == nil {
		return q.linear(g, f, d, &[]lsum{}, map[string]int64{})
	}
	return q.holds(g, f, q.at, q.level+1)
}

// block tells where a node is made; nil means at the start of the function.
func (c *boundCheck) block(nd bnode) (*ssa.BasicBlock, *ssa.Function, bool) {
	v := nd.v
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL && !strings.HasSuffix(nd.key, ":"+c.id(v)) {
		// a field of an unchanged variable
		a := u.X
		for {
			fa, ok := a.(*ssa.FieldAddr)
			if !ok {
				break
			}
			a = fa.X
		}
		switch x := a.(type) {
		case *ssa.Alloc:
			return x.Block(), x.Parent(), true
		case *ssa.Global:
			return nil, nil, true
		}
	}
	switch x := v.(type) {
	case *ssa.Parameter:
		return nil, x.Parent(), true
	case *ssa.FreeVar:
		return nil, x.Parent(), true
	case ssa.Instruction:
		return x.Block(), x.Parent(), true
	}
	return nil, nil, false
}

// back shows an inequality by what holds on all ways to a place.
func (q *boundProof) back(g lsum, f *boundFacts, b *ssa.BasicBlock, d int) bool {
	x := b
	for {
		// made here: nothing before knows it
		place := q.made(g, x, b.Parent())
		if place == madeHere || place == madeElsewhere {
			return false
		}
		if place == madeByPhi {
			return q.merge(g, f, x, d)
		}
		if len(x.Preds) > 1 && q.tells(f, x) && q.merge(g, f, x, d) {
			return true
		}
		if x.Idom() == nil {
			return q.callers(g, x, d)
		}
		x = x.Idom()
	}
}

// tells: what is known depends on the way a place was reached.
func (q *boundProof) tells(f *boundFacts, x *ssa.BasicBlock) bool {
	if loopsOf(x.Parent())[x] != nil {
		return false
	}
	for v := range f.conds {
		if phi, ok := v.(*ssa.Phi); ok && phi.Block() == x {
			return true
		}
	}
	for _, ls := range [][]lsum{f.le, f.ne} {
		for _, l := range ls {
			if len(l.t) < 4 && q.made(l, x, x.Parent()) == madeByPhi {
				return true
			}
		}
	}
	return false
}

const (
	madeBefore = iota
	madeByPhi
	madeHere
	madeElsewhere
)

// made tells where the nodes of a sum are made, seen from a block.
func (q *boundProof) made(g lsum, x *ssa.BasicBlock, fn *ssa.Function) int {
	out := madeBefore
	for k := range g.t {
		nd := q.c.nodes[k]
		db, dfn, ok := q.c.block(nd)
		if !ok || dfn != nil && dfn != fn {
			return madeElsewhere
		}
		if db == x {
			phi, ok := nd.v.(*ssa.Phi)
			if !ok || phi.Block() != x {
				return madeHere
			}
			out = madeByPhi
		} else if db != nil && !db.Dominates(x) {
			return madeElsewhere
		}
	}
	return out
}

func (q *boundProof) merge(g lsum, f *boundFacts, x *ssa.BasicBlock, d int) bool {
	c := q.c
	key := fmt.Sprintf("%p %s", x, g.vars())
	loop := loopsOf(x.Parent())[x] != nil
	if loop {
		// what holds now need not hold in other rounds
		if have, ok := q.open[key]; ok {
			return g.c <= have
		}
		if have, ok := q.failed[key]; ok && g.c >= have {
			return false
		}
		q.open[key] = g.c
	}
	ok := true
	for i, p := range x.Preds {
		s, good := q.substitute(g, x, i)
		if !good {
			ok = false
			break
		}
		e := c.onEdge(p, x)
		if !loop && !q.carry(f, e, x, i) || c.impossible(e) {
			continue
		}
		if !q.holds(s, e, p, d+1) {
			ok = false
			break
		}
	}
	if loop {
		delete(q.open, key)
		if !ok {
			q.failed[key] = g.c
		}
	}
	return ok
}

// carry adds what's known below a place where ways meet to what's known on one of the ways; false means that this
// way isn't taken.
func (q *boundProof) carry(f, e *boundFacts, x *ssa.BasicBlock, i int) bool {
	for _, l := range f.le {
		if at := q.made(l, x, x.Parent()); at == madeBefore || at == madeByPhi {
			if s, ok := q.substitute(l, x, i); ok {
				e.le = append(e.le, s)
			}
		}
	}
	for _, l := range f.ne {
		if at := q.made(l, x, x.Parent()); at == madeBefore || at == madeByPhi {
			if s, ok := q.substitute(l, x, i); ok {
				if len(s.t) == 0 && s.c == 0 {
					return false
				}
				e.ne = append(e.ne, s)
			}
		}
	}
	for v, val := range f.conds {
		phi, ok := v.(*ssa.Phi)
		if !ok {
			continue
		}
		if phi.Block() != x {
			if phi.Block().Dominates(x) {
				e.conds[v] = val
			}
			continue
		}
		w := phi.Edges[i]
		if k, ok := w.(*ssa.Const); ok {
			if k.Value != nil && k.Value.Kind() == constant.Bool && constant.BoolVal(k.Value) != val {
				return false
			}
			continue
		}
		q.c.condition(e, w, val, 0)
	}
	return true
}

// impossible: the facts contradict each other in an obvious way.
func (c *boundCheck) impossible(f *boundFacts) bool {
	for _, l := range f.le {
		if len(l.t) == 0 && l.c > 0 {
			return true
		}
	}
	return false
}

// substitute replaces the phis of a block by their values on the i-th edge.
func (q *boundProof) substitute(g lsum, x *ssa.BasicBlock, i int) (lsum, bool) {
	c := q.c
	out := sumConst(g.c)
	for k, n := range g.t {
		nd := c.nodes[k]
		phi, ok := nd.v.(*ssa.Phi)
		if !ok || phi.Block() != x {
			out = out.add(lsum{t: map[string]int64{k: 1}}, n)
			continue
		}
		e := phi.Edges[i]
		switch nd.kind {
		case 'l':
			out = out.add(c.lenOf(e), n)
		case 'v':
			out = out.add(c.intOf(e), n)
		case 'i':
			if k, ok := e.(*ssa.Const); ok && k.IsNil() {
				// nothing matched: the position doesn't exist
				return lsum{}, false
			}
			out = out.add(c.node('i', e, nd.k), n)
		}
	}
	return out, true
}

// callers shows an inequality over parameters for all calls.
func (q *boundProof) callers(g lsum, x *ssa.BasicBlock, d int) bool {
	c := q.c
	fn := x.Parent()
	sites, ok := c.p.sitesOf(fn)
	if !ok || len(sites) == 0 || c.p.takenAsValue(fn) {
		return false
	}
	key := fmt.Sprintf("%p %s", fn, g.vars())
	if have, ok := q.open[key]; ok {
		return g.c <= have
	}
	if have, ok := q.failed[key]; ok && g.c >= have {
		return false
	}
	q.open[key] = g.c
	all := true
	for _, s := range sites {
		k, isCall := s.(*ssa.Call)
		if !isCall || k.Call.IsInvoke() {
			all = false
			break
		}
		a, ok := c.toArgs(g, fn, k)
		if !ok {
			all = false
			break
		}
		n := 0
		for i, in := range k.Block().Instrs {
			if in == ssa.Instruction(k) {
				n = i
			}
		}
		f := c.known(k.Block()).clone()
		c.accesses(f, k.Block(), n)
		if !q.holds(a, f, k.Block(), d+2) {
			all = false
			break
		}
	}
	delete(q.open, key)
	if !all {
		q.failed[key] = g.c
	}
	return all
}

// takenAsValue: the function is also used as a value, not only called.
func (p *Program) takenAsValue(fn *ssa.Function) bool {
	if fn.Referrers() == nil {
		// package-level functions have no list of referrers
		if p.taken == nil {
			p.taken = map[*ssa.Function]bool{}
			for _, f := range p.Funcs {
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						var called ssa.Value
						if k, ok := in.(ssa.CallInstruction); ok && !k.Common().IsInvoke() {
							called = k.Common().Value
						}
						first := true
						for _, o := range in.Operands(nil) {
							if *o == called && first {
								first = false
								continue
							}
							if t, ok := (*o).(*ssa.Function); ok {
								p.taken[t] = true
							}
						}
					}
				}
			}
		}
		return p.taken[fn] && fn.Parent() == nil
	}
	return false
}

// --- patterns ---

func parseRegexp(re *regexp.Regexp) *syntax.Regexp {
	t, err := syntax.Parse(re.String(), syntax.Perl)
	if err != nil {
		return &syntax.Regexp{Op: syntax.OpEmptyMatch}
	}
	return t
}

// minLenOf is the least number of bytes a pattern matches.
func minLenOf(re *syntax.Regexp) int64 {
	switch re.Op {
	case syntax.OpLiteral:
		return int64(len(re.Rune))
	case syntax.OpCharClass, syntax.OpAnyChar, syntax.OpAnyCharNotNL:
		return 1
	case syntax.OpCapture, syntax.OpPlus:
		return minLenOf(re.Sub[0])
	case syntax.OpRepeat:
		return int64(re.Min) * minLenOf(re.Sub[0])
	case syntax.OpConcat:
		n := int64(0)
		for _, s := range re.Sub {
			n += minLenOf(s)
		}
		return n
	case syntax.OpAlternate:
		n := minLenOf(re.Sub[0])
		for _, s := range re.Sub[1:] {
			n = min(n, minLenOf(s))
		}
		return n
	}
	return 0
}

// matchesAlways: every text contains a match, as nothing has to be there.
func matchesAlways(re *syntax.Regexp) bool {
	switch re.Op {
	case syntax.OpEmptyMatch, syntax.OpStar, syntax.OpQuest:
		return true
	case syntax.OpCapture, syntax.OpPlus:
		return matchesAlways(re.Sub[0])
	case syntax.OpRepeat:
		return re.Min == 0 || matchesAlways(re.Sub[0])
	case syntax.OpConcat:
		// the anchors of the text
		for i, s := range re.Sub {
			if i == 0 && (s.Op == syntax.OpBeginText || s.Op == syntax.OpBeginLine) {
				continue
			}
			if !matchesAlways(s) {
				return false
			}
		}
		return true
	case syntax.OpAlternate:
		for _, s := range re.Sub {
			if matchesAlways(s) {
				return true
			}
		}
	}
	return false
}

// --- functions ---

func (c *boundCheck) function(fn *ssa.Function) {
	name := strings.TrimPrefix(fn.RelString(nil), "wiki2book/")
	for _, b := range fn.Blocks {
		for n, in := range b.Instrs {
			switch u := in.(type) {
			case *ssa.IndexAddr, *ssa.Index:
				if ia, ok := in.(*ssa.IndexAddr); ok {
					if _, isArr := deref(ia.X.Type()).Underlying().(*types.Array); isArr {
						break
					}
				}
				c.r.Count("accesses by index", 1)
			case *ssa.Lookup:
				if isTextOrList(u.X.Type()) {
					c.r.Count("accesses by index", 1)
				}
			case *ssa.Slice:
				if u.Low != nil || u.High != nil {
					c.r.Count("parts taken", 1)
				}
			case *ssa.MapUpdate:
				switch c.mapExists(u.Map, b, n, map[ssa.Value]bool{}) {
				case mapThere:
					c.r.Count("writes to maps", 1)
				case mapOfRecord:
					c.r.Count("writes to maps kept in records (not decided)", 1)
				default:
					c.r.Count("writes to maps", 1)
					c.r.Bad("map:"+name, c.p.Pos(u.Pos()), "%s: written to a map that may be missing", name)
				}
			case *ssa.TypeAssert:
				if !u.CommaOk {
					c.r.Count("assertions of types", 1)
					if c.assured(u, u.X, map[ssa.Value]bool{}) {
						break
					}
					c.r.Bad("assert:"+name, c.p.Pos(u.Pos()), "%s: the type is assumed without a test", name)
				}
			case *ssa.BinOp:
				if (u.Op == token.QUO || u.Op == token.REM) && isInteger(u.Type()) {
					if k, ok := constInt(u.Y); ok && k != 0 {
						break
					}
					c.r.Count("divisions", 1)
					x := c.intOf(u.Y)
					if !c.prove(sumConst(1).add(x, -1), b, n) {
						c.r.Bad("divide:"+name, c.p.Pos(u.Pos()), "%s: the divisor may be zero", name)
					}
				}
			}
			for _, g := range c.obligations(in) {
				c.r.Count("inequalities", 1)
				if !c.prove(g.le, b, n) && !c.notLast(g.le, b) {
					if c.recorded(g.le) {
						c.r.Count("positions kept in records (not decided)", 1)
						continue
					}
					if os.Getenv("C25_TRACE") != "" {
						fmt.Fprintf(os.Stderr, "%s %s: %s <= 0\n", c.p.Pos(in.Pos()), name, g.le)
					}
					c.r.Bad(fmt.Sprintf("bounds:%s:%s", name, c.describe(in)), c.p.Pos(in.Pos()), "%s: not shown that %s", name, g.what)
				}
			}
		}
	}
}

// describe names an access without its position.
func (c *boundCheck) describe(in ssa.Instruction) string {
	n := 0
	for _, b := range in.Parent().Blocks {
		for _, o := range b.Instrs {
			if o == in {
				return fmt.Sprint(n)
			}
			if len(c.obligations(o)) > 0 {
				n++
			}
		}
	}
	return "?"
}

func (s *boundSummary) String() string { return fmt.Sprint("always ", s.always, " found ", s.found) }

// recorded: the goal speaks of numbers kept in elements of a list of records.
func (c *boundCheck) recorded(g lsum) bool {
	for k := range g.t {
		v := c.nodes[k].v
		for i := 0; i < 14; i++ {
			switch u := v.(type) {
			case *ssa.Field:
				v = u.X
				continue
			case *ssa.FieldAddr:
				v = u.X
				continue
			case *ssa.UnOp:
				v = u.X
				continue
			case *ssa.IndexAddr:
				if i > 1 {
					return true
				}
			case *ssa.Alloc:
				// a copy of an element
				if i > 1 {
					if st := c.p.onlyStore(u); st != nil {
						v = st
						continue
					}
				}
			}
			break
		}
	}
	return false
}

// assured: the value is known to have the type which is assumed.
func (c *boundCheck) assured(u *ssa.TypeAssert, v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	has := func(t types.Type) bool {
		if types.IsInterface(u.AssertedType) {
			return types.Implements(t, u.AssertedType.Underlying().(*types.Interface))
		}
		return types.Identical(t, u.AssertedType)
	}
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return has(x.X.Type())
	case *ssa.ChangeInterface:
		return c.assured(u, x.X, seen)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !c.assured(u, e, seen) {
				return false
			}
		}
		return true
	case *ssa.Const:
		return x.IsNil() && c.known(u.Block()).present[c.ident(u.X)]
	}
	// tested before
	for b := u.Block(); b.Idom() != nil; b = b.Idom() {
		d := b.Idom()
		br, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok || len(b.Preds) != 1 || d.Succs[0] != b || d.Succs[1] == b {
			continue
		}
		if e, ok := br.Cond.(*ssa.Extract); ok && e.Index == 1 {
			if ta, ok := e.Tuple.(*ssa.TypeAssert); ok && ta.X == v && types.Identical(ta.AssertedType, u.AssertedType) {
				return true
			}
		}
	}
	return false
}
