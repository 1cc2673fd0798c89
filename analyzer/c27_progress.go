package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID:    "C27",
		Title: "No loop or recursion goes on without making progress",
		Rule:  "for each loop that isn't a range over a collection: a measure (distance of a cursor to its bound, length of a text or list) is shown to decrease in each round, or the cursor is shown to move on, or what the search found is shown to be cut out of the text; in all other loops no way through the body leaves everything the loop works on unchanged; recursive calls get less than their caller got, and no step of the parser hands its whole text to the function running all steps",
		Run:   runC27,
	})
}

type progressCheck struct {
	p    *Program
	r    *Report
	bc   *boundCheck
	pure map[*ssa.Function]int
}

func runC27(p *Program, r *Report) {
	c := &progressCheck{p: p, r: r, bc: newBounds(p, r), pure: map[*ssa.Function]int{}}
	for _, fn := range p.Funcs {
		if len(fn.Blocks) == 0 || fn.Synthetic != "" {
			continue
		}
		loops := loopsOf(fn)
		for _, b := range fn.Blocks {
			if l := loops[b]; l != nil {
				r.Count("loops", 1)
				c.loop(fn, l, loops)
			}
		}
		c.recursion(fn)
	}
	c.wholeText()
	r.AtLeast("loops", 50)
	r.AtLeast("recursive calls", 3)
}

func debug27(f string, a ...any) {
	if os.Getenv("DBG27") != "" {
		fmt.Printf(f+"\n", a...)
	}
}

// guards: what is known in each round because the loop wasn't left, as sums that aren't positive.
func (c *progressCheck) guards(l *natLoop) (out []lsum) {
	for b := range l.blocks {
		br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || !l.everyIteration(b) {
			continue
		}
		for i, s := range b.Succs {
			if l.blocks[s] || !l.blocks[b.Succs[1-i]] {
				continue
			}
			f := &boundFacts{present: map[string]bool{}, match: map[string]bool{}, holds: map[string][]string{}, conds: map[ssa.Value]bool{}}
			c.bc.condition(f, br.Cond, i == 1, 0)
			out = append(out, f.le...)
		}
	}
	return
}

// direct: the block belongs to the loop and not to one inside of it.
func direct(b *ssa.BasicBlock, l *natLoop, loops map[*ssa.BasicBlock]*natLoop) bool {
	for _, o := range loops {
		if o != l && l.blocks[o.head] && o.blocks[b] && !o.blocks[l.head] {
			return false
		}
	}
	return l.blocks[b]
}

func (c *progressCheck) loop(fn *ssa.Function, l *natLoop, loops map[*ssa.BasicBlock]*natLoop) {
	r := c.r
	name := FnName(fn)
	at := c.p.At(l.head.Instrs[0])
	for _, in := range l.head.Instrs {
		if in.Pos().IsValid() {
			at = c.p.At(in)
		}
	}
	for b := range l.blocks {
		if !direct(b, l, loops) || !l.everyIteration(b) {
			continue
		}
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Next); ok {
				r.Count("loops over collections", 1)
				return
			}
			if u, ok := in.(*ssa.UnOp); ok && u.Op == token.ARROW && u.CommaOk {
				r.Count("loops over channels (ended by closing them)", 1)
				return
			}
		}
	}
	gs := c.guards(l)
	for _, g := range gs {
		if c.decreases(l, g.add(g, -2), true, 1) {
			r.Count("loops with a decreasing measure", 1)
			if rangeIndex(l) {
				r.Count("loops over collections", 1)
			}
			debug27("%s %s full %s", at, name, g)
			return
		}
	}
	for _, in := range l.head.Instrs {
		if ph, ok := in.(*ssa.Phi); ok && isTextOrList(ph.Type()) && c.decreases(l, c.bc.lenOf(ph), true, 1) {
			r.Count("loops with a decreasing measure", 1)
			debug27("%s %s shrinks", at, name)
			return
		}
	}
	for _, g := range gs {
		if c.decreases(l, g.add(g, -2), false, 1) {
			r.Count("loops whose cursor moves on (the text may grow: not decided)", 1)
			debug27("%s %s moves %s", at, name, g)
			return
		}
	}
	// a way through the body without any effect
	if w := c.idle(l); w != nil {
		r.Bad("idle:"+name, c.p.At(w), "%s: a round of the loop can leave everything as it was, so the loop never ends", name)
		return
	}
	// the cursor doesn't move back
	cursor, still := false, false
	for _, g := range gs {
		if _, ok := c.next(l, g, latchIndex(l), false); !ok {
			continue
		}
		if !c.ordered(l, g) {
			continue
		}
		cursor = true
		if c.decreases(l, g.add(g, -2), true, 0) || c.decreases(l, g.add(g, -2), false, 0) {
			still = true
		}
	}
	// what is measured changes together with something outside of the function (files removed until they are small
	// enough, say), whose effect is not known here
	outside := false
	measured := false
	for _, g := range gs {
		for t := range g.t {
			measured = measured || strings.HasPrefix(t, "l")
		}
	}
	for b := range l.blocks {
		for _, in := range b.Instrs {
			if direct(b, l, loops) && c.effect(in) {
				outside = true
			}
		}
	}
	switch {
	case cursor && !still && outside && !measured:
		r.Count("loops whose rounds have effects elsewhere (not decided whether they end)", 1)
		debug27("%s %s effects", at, name)
	case cursor && !still:
		r.Bad("cursor:"+name, at, "%s: not shown that the loop's position moves on in each round", name)
	case cursor:
		r.Count("loops whose cursor doesn't move back (how far depends on functions called: not decided)", 1)
		debug27("%s %s not back", at, name)
	default:
		if s := c.search(l); s == 1 {
			r.Count("loops cutting out what they find", 1)
			debug27("%s %s cuts", at, name)
		} else if s == 2 {
			r.Bad("found-again:"+name, at, "%s: not shown that what the loop searches for is taken out of the text in each round", name)
		} else {
			r.Count("loops changing something in each round (not decided whether they end)", 1)
			debug27("%s %s changes", at, name)
		}
	}
}

func rangeIndex(l *natLoop) bool {
	for _, in := range l.head.Instrs {
		if ph, ok := in.(*ssa.Phi); ok && ph.Comment == "rangeindex" {
			return true
		}
	}
	return false
}

func latchIndex(l *natLoop) int {
	for i, pr := range l.head.Preds {
		if l.blocks[pr] {
			return i
		}
	}
	return 0
}

// ordered: the sum compares a number kept by the loop with something else.
func (c *progressCheck) ordered(l *natLoop, g lsum) bool {
	for k := range g.t {
		if ph, ok := c.bc.nodes[k].v.(*ssa.Phi); ok && c.bc.nodes[k].kind == 'v' && ph.Block() == l.head && isInteger(ph.Type()) {
			return true
		}
	}
	return false
}

// decreases: the measure is less (by the given number at least) in the next round.
func (c *progressCheck) decreases(l *natLoop, m lsum, texts bool, by int64) bool {
	some := false
	for i, pr := range l.head.Preds {
		if !l.blocks[pr] {
			continue
		}
		next, ok := c.next(l, m, i, texts)
		if !ok {
			return false
		}
		some = true
		if !c.bc.prove(next.add(m, -1).add(sumConst(by), 1), pr, len(pr.Instrs)) {
			return false
		}
	}
	return some
}

func (c *progressCheck) next(l *natLoop, m lsum, i int, texts bool) (lsum, bool) {
	q := &boundProof{c: c.bc, steps: 4000, open: map[string]int64{}, failed: map[string]int64{}}
	if texts {
		return q.substitute(m, l.head, i)
	}
	out := sumConst(m.c)
	changed := false
	for k, f := range m.t {
		nd := c.bc.nodes[k]
		if ph, ok := nd.v.(*ssa.Phi); ok && ph.Block() == l.head && isInteger(ph.Type()) {
			out = out.add(c.bc.intOf(ph.Edges[i]), f)
			changed = true
			continue
		}
		out = out.add(lsum{t: map[string]int64{k: 1}}, f)
	}
	return out, changed
}

// --- rounds without effect ---

// what is known about a value on a way through the loop: it is what a value was when the loop was entered (plus
// something), a constant, or calculated from such values.
type roundTag struct {
	phi ssa.Value
	off int64
	k   string
}

func (t roundTag) String() string {
	if t.phi == nil {
		return t.k
	}
	return fmt.Sprintf("p:%s+%d", t.phi.Name(), t.off)
}

// roundState is a place in the loop with what is known there.
type roundState struct {
	b       *ssa.BasicBlock
	tags    map[ssa.Value]roundTag
	assumed map[string]bool // conditions
	before  []string        // what was known at the start of the rounds
}

// idle searches for a way through the body after which everything that decides how the loop goes on is what it was
// before.
func (c *progressCheck) idle(l *natLoop) ssa.Instruction {
	fn := l.head.Parent()
	start := map[ssa.Value]roundTag{}
	decides := c.deciding(l)
	var phis []*ssa.Phi
	all := 0
	for _, in := range l.head.Instrs {
		if ph, ok := in.(*ssa.Phi); ok {
			all++
			start[ph] = roundTag{phi: ph}
			if decides[ph] {
				phis = append(phis, ph)
			}
		}
	}
	if all == 0 {
		return nil
	}
	outside := func(v ssa.Value) bool {
		switch x := v.(type) {
		case *ssa.Parameter, *ssa.Global, *ssa.Function, *ssa.FreeVar, *ssa.Builtin:
			return true
		case ssa.Instruction:
			return !l.blocks[x.Block()]
		}
		return false
	}
	tagOf := func(s *roundState, v ssa.Value) (roundTag, bool) {
		if k, ok := v.(*ssa.Const); ok {
			if k.Value == nil {
				return roundTag{k: "nil"}, true
			}
			return roundTag{k: k.Value.ExactString()}, true
		}
		if outside(v) {
			return roundTag{k: "n:" + v.Name()}, true
		}
		x, ok := s.tags[v]
		if ok {
			if b, known := s.assumed[x.String()]; known {
				return roundTag{k: fmt.Sprint(b)}, true
			}
		}
		return x, ok
	}
	seen := map[string]bool{}
	steps := 0
	var found ssa.Instruction
	var walk func(s *roundState, from *ssa.BasicBlock)
	walk = func(old *roundState, from *ssa.BasicBlock) {
		if found != nil || steps > 20000 {
			return
		}
		steps++
		s := &roundState{b: old.b, tags: map[ssa.Value]roundTag{}, assumed: old.assumed, before: old.before}
		for k, v := range old.tags {
			s.tags[k] = v
		}
		if from != nil {
			// phis take their values at once
			i := -1
			for j, pr := range s.b.Preds {
				if pr == from {
					i = j
				}
			}
			again := s.b != l.head && s.b.Dominates(from) // a loop inside of this one
			for _, in := range s.b.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				t, ok := tagOf(old, ph.Edges[i])
				if ok && again {
					p, has := old.tags[ph]
					ok = has && p == t
				}
				if ok {
					s.tags[ph] = t
				} else {
					delete(s.tags, ph)
				}
			}
		}
		key := fmt.Sprint(s.b.Index, s.before)
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if v, ok := in.(ssa.Value); ok && l.blocks[b] {
					if t, ok := s.tags[v]; ok {
						key += fmt.Sprint("|", v.Name(), "=", t)
					}
				}
			}
		}
		var as []string
		for k, v := range s.assumed {
			as = append(as, fmt.Sprint(k, v))
		}
		sort.Strings(as)
		key += strings.Join(as, "|")
		if seen[key] {
			return
		}
		seen[key] = true
		for _, in := range s.b.Instrs {
			if _, ok := in.(*ssa.Phi); ok {
				continue
			}
			if c.effect(in) {
				return
			}
			v, ok := in.(ssa.Value)
			if !ok {
				continue
			}
			if t, ok := c.roundValue(v, func(v ssa.Value) (roundTag, bool) { return tagOf(s, v) }); ok && len(t.k) < 400 {
				s.tags[v] = t
			} else {
				delete(s.tags, v)
			}
		}
		last := s.b.Instrs[len(s.b.Instrs)-1]
		for i, t := range s.b.Succs {
			next := &roundState{b: t, tags: s.tags, assumed: s.assumed, before: s.before}
			if br, ok := last.(*ssa.If); ok && s.b.Succs[0] != s.b.Succs[1] {
				if x, ok := tagOf(s, br.Cond); ok {
					if x.k == "true" && i == 1 || x.k == "false" && i == 0 {
						continue
					}
					if x.k != "true" && x.k != "false" {
						next.assumed = map[string]bool{}
						for k, v := range s.assumed {
							next.assumed[k] = v
						}
						k, v := x.String(), i == 0
						next.assumed[k] = v
						for strings.HasPrefix(k, "e:!(") {
							k, v = strings.TrimSuffix(strings.TrimPrefix(k, "e:!("), ")"), !v
							next.assumed[k] = v
						}
					}
				}
			}
			if !l.blocks[t] {
				continue
			}
			if t == l.head {
				// the next round
				j := -1
				for n, pr := range t.Preds {
					if pr == s.b {
						j = n
					}
				}
				now, known := "", true
				for _, ph := range phis {
					x, ok := tagOf(next, ph.Edges[j])
					known = known && ok
					now += x.String() + ";"
				}
				if !known {
					continue
				}
				first := ""
				for _, ph := range phis {
					x, _ := tagOf(&roundState{tags: start, assumed: next.assumed}, ph)
					first += x.String() + ";"
				}
				if now == first {
					found = last
				}
				for _, x := range s.before {
					if now == x {
						found = last
					}
				}
				if len(s.before) < 2 {
					next.before = append(append([]string{}, s.before...), now)
					walk(next, s.b)
				}
				continue
			}
			walk(next, s.b)
		}
	}
	walk(&roundState{b: l.head, tags: start, assumed: map[string]bool{}}, nil)
	return found
}

// deciding gives the values of the loop on which its conditions and what it calls depend.
func (c *progressCheck) deciding(l *natLoop) map[ssa.Value]bool {
	out := map[ssa.Value]bool{}
	var add func(v ssa.Value)
	add = func(v ssa.Value) {
		in, ok := v.(ssa.Instruction)
		if !ok || out[v] || !l.blocks[in.Block()] {
			return
		}
		out[v] = true
		for _, o := range in.Operands(nil) {
			if *o != nil {
				add(*o)
			}
		}
	}
	for b := range l.blocks {
		if br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			add(br.Cond)
		}
	}
	return out
}

// roundValue tells what the instruction calculates.
func (c *progressCheck) roundValue(v ssa.Value, tagOf func(ssa.Value) (roundTag, bool)) (roundTag, bool) {
	none := roundTag{}
	expr := func(op string, vs ...ssa.Value) (roundTag, bool) {
		s := "e:" + op + "("
		for i, x := range vs {
			if x == nil {
				s += ","
				continue
			}
			t, ok := tagOf(x)
			if !ok {
				return none, false
			}
			if i > 0 {
				s += ","
			}
			s += t.String()
		}
		return roundTag{k: s + ")"}, true
	}
	switch u := v.(type) {
	case *ssa.UnOp:
		t, ok := tagOf(u.X)
		if !ok || u.Op == token.ARROW {
			return none, false
		}
		if u.Op == token.NOT && (t.k == "true" || t.k == "false") {
			return roundTag{k: fmt.Sprint(t.k == "false")}, true
		}
		return expr(u.Op.String(), u.X)
	case *ssa.ChangeType:
		return tagOf(u.X)
	case *ssa.Convert:
		return expr("conv "+u.Type().String(), u.X)
	case *ssa.BinOp:
		x, okx := tagOf(u.X)
		y, oky := tagOf(u.Y)
		if u.X == u.Y && !isFloat(u.X.Type()) && !(okx && oky) {
			okx, oky = true, true
		}
		if !okx || !oky {
			return none, false
		}
		if x == y && !isFloat(u.X.Type()) {
			switch u.Op {
			case token.EQL, token.LEQ, token.GEQ:
				return roundTag{k: "true"}, true
			case token.NEQ, token.LSS, token.GTR:
				return roundTag{k: "false"}, true
			}
		}
		if x.phi != nil && x.phi == y.phi {
			switch u.Op {
			case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
				return roundTag{k: fmt.Sprint(constant.Compare(constant.MakeInt64(x.off), u.Op, constant.MakeInt64(y.off)))}, true
			}
		}
		if x.phi == nil && y.phi == nil {
			kx, isX := constValue(x.k)
			ky, isY := constValue(y.k)
			if isX && isY {
				switch u.Op {
				case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
					return roundTag{k: fmt.Sprint(constant.Compare(kx, u.Op, ky))}, true
				}
			}
		}
		if isInteger(u.Type()) && (u.Op == token.ADD || u.Op == token.SUB) {
			number := func(t roundTag) (int64, bool) {
				if t.phi != nil {
					return 0, false
				}
				k, ok := constValue(t.k)
				if !ok || k.Kind() != constant.Int {
					return 0, false
				}
				return constant.Int64Val(k)
			}
			if k, ok := number(y); ok && x.phi != nil {
				if u.Op == token.SUB {
					k = -k
				}
				return roundTag{phi: x.phi, off: x.off + k}, true
			}
			if k, ok := number(x); ok && y.phi != nil && u.Op == token.ADD {
				return roundTag{phi: y.phi, off: y.off + k}, true
			}
		}
		return expr(u.Op.String(), u.X, u.Y)
	case *ssa.IndexAddr:
		return expr("&[]", u.X, u.Index)
	case *ssa.FieldAddr:
		return expr(fmt.Sprint("&.", u.Field), u.X)
	case *ssa.Field:
		return expr(fmt.Sprint(".", u.Field), u.X)
	case *ssa.Index:
		return expr("[]", u.X, u.Index)
	case *ssa.Lookup:
		return expr("[]", u.X, u.Index)
	case *ssa.Extract:
		return expr(fmt.Sprint("#", u.Index), u.Tuple)
	case *ssa.Slice:
		return expr("[:]", u.X, u.Low, u.High, u.Max)
	case *ssa.Call:
		if b, ok := u.Call.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "len", "cap", "min", "max":
				return expr(b.Name(), u.Call.Args...)
			}
			return none, false
		}
		if u.Call.IsInvoke() || u.Call.StaticCallee() == nil {
			return none, false
		}
		for _, a := range u.Call.Args {
			if !isTextOrList(a.Type()) && !isInteger(a.Type()) && !strings.Contains(a.Type().String(), "regexp.Regexp") {
				return none, false
			}
		}
		return expr(FnName(u.Call.StaticCallee()), u.Call.Args...)
	}
	return none, false
}

func constValue(k string) (constant.Value, bool) {
	switch k {
	case "true", "false":
		return constant.MakeBool(k == "true"), false
	}
	if strings.HasPrefix(k, `"`) {
		return nil, false
	}
	v := constant.MakeFromLiteral(k, token.INT, 0)
	return v, v.Kind() == constant.Int
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

// effect: the instruction changes something besides the values of the function.
func (c *progressCheck) effect(in ssa.Instruction) bool {
	switch u := in.(type) {
	case *ssa.Store, *ssa.MapUpdate, *ssa.Send, *ssa.Go, *ssa.Select, *ssa.Panic:
		return !initialisation(in)
	case *ssa.UnOp:
		return u.Op == token.ARROW
	}
	cc := callOf(in)
	if cc == nil {
		return false
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "delete", "copy", "close", "clear":
			return true
		}
		return false
	}
	ts := c.p.repoCallees(cc)
	if len(ts) == 0 {
		k := CalleeKey(cc)
		for _, pk := range []string{"strings.", "strconv.", "(*regexp.Regexp)", "regexp.", "fmt.Sprint", "fmt.Errorf", "math.", "unicode", "path.", "path/filepath.", "errors.", "bytes.", "(*strings.Builder)", "github.com/pkg/errors", "cmp.", "utf8."} {
			if strings.HasPrefix(k, pk) {
				return false
			}
		}
		return !strings.Contains(k, "sigolo")
	}
	for _, t := range ts {
		if !c.isPure(t) {
			return true
		}
	}
	return false
}

// initialisation: the store fills something made just before (arguments of variadic functions).
func initialisation(in ssa.Instruction) bool {
	st, ok := in.(*ssa.Store)
	if !ok {
		return false
	}
	a := st.Addr
	for {
		switch x := a.(type) {
		case *ssa.IndexAddr:
			a = x.X
			continue
		case *ssa.FieldAddr:
			a = x.X
			continue
		case *ssa.Alloc:
			return x.Comment == "varargs" || x.Block() == in.Block()
		}
		return false
	}
}

func (c *progressCheck) isPure(fn *ssa.Function) bool {
	if v := c.pure[fn]; v != 0 {
		return v == 1
	}
	c.pure[fn] = 1 // recursion alone is no effect
	ok := len(fn.Blocks) > 0
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if st, isSt := in.(*ssa.Store); isSt {
				if al, isAl := storeBase(st.Addr).(*ssa.Alloc); isAl && al.Parent() == fn {
					continue
				}
			}
			if c.effect(in) {
				ok = false
			}
		}
	}
	if !ok {
		c.pure[fn] = 2
	}
	return ok
}

// --- searching loops ---

// search: the loop searches for something in a text, and what was found isn't in the text of the next round: 1 shown, 2
// not shown, 0 not such a loop.
func (c *progressCheck) search(l *natLoop) int {
	// the position found
	for _, in := range l.head.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			continue
		}
		if _, isSl := ph.Type().Underlying().(*types.Slice); !isSl {
			continue
		}
		ok = true
		var text *ssa.Phi
		for i, e := range ph.Edges {
			k, isCall := e.(*ssa.Call)
			if !isCall || CalleeKey(&k.Call) != "(*regexp.Regexp).FindStringIndex" {
				ok = false
				break
			}
			for _, o := range l.head.Instrs {
				if t, isPhi := o.(*ssa.Phi); isPhi && t.Edges[i] == k.Call.Args[1] && (text == nil || text == t) {
					text = t
				}
			}
		}
		if !ok || text == nil {
			continue
		}
		// positions are numbers of the found match
		pos := c.bc.node('i', ph, 0)
		for i, pr := range l.head.Preds {
			if !l.blocks[pr] {
				continue
			}
			if !c.cutOut(text.Edges[i], text, pos, l, map[ssa.Value]bool{}) {
				return 2
			}
		}
		return 1
	}
	return 0
}

// cutOut: the new text consists of the old one before the position found, other texts and the old one behind the position.
func (c *progressCheck) cutOut(v ssa.Value, text *ssa.Phi, pos lsum, l *natLoop, seen map[ssa.Value]bool) bool {
	if ph, ok := v.(*ssa.Phi); ok && ph != text && l.blocks[ph.Block()] {
		if seen[v] {
			return true
		}
		seen[v] = true
		for _, e := range ph.Edges {
			if !c.cutOut(e, text, pos, l, seen) {
				return false
			}
		}
		return true
	}
	parts := c.bc.flat(v)
	if len(parts) < 2 {
		return false
	}
	in, ok := v.(ssa.Instruction)
	if !ok {
		return false
	}
	b := in.Block()
	for i, x := range parts {
		sl, ok := x.(*ssa.Slice)
		if !ok || !c.bc.sameValue(sl.X, text) {
			if x == text {
				return false
			}
			continue
		}
		switch {
		case i == 0 && sl.High != nil:
			// ends at the position at the latest
			if !c.bc.prove(c.bc.intOf(sl.High).add(pos, -1), b, len(b.Instrs)) {
				return false
			}
		case i == len(parts)-1 && sl.Low != nil && sl.High == nil:
			if !c.bc.prove(pos.add(c.bc.intOf(sl.Low), -1).add(sumConst(1), 1), b, len(b.Instrs)) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// --- recursion ---

// recursion: calls of the function by itself get less than the function got.
func (c *progressCheck) recursion(fn *ssa.Function) {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			cc := callOf(in)
			if cc == nil || cc.StaticCallee() != fn {
				continue
			}
			c.r.Count("recursive calls", 1)
			how := c.less(fn, cc, in)
			debug27("%s %s recursion %s", c.p.At(in), FnName(fn), how)
			switch how {
			case "":
				c.r.Bad("recursion:"+FnName(fn), c.p.At(in), "%s calls itself, and it is not shown that it hands on less than it got", FnName(fn))
			case "unknown":
				c.r.Count("recursive calls with values of other functions (not decided)", 1)
			}
		}
	}
}

func (c *progressCheck) less(fn *ssa.Function, cc *ssa.CallCommon, in ssa.Instruction) string {
	b := in.Block()
	n := indexOf(in)
	var texts, ints []int
	for i, q := range fn.Params {
		switch {
		case isTextOrList(q.Type()):
			texts = append(texts, i)
		case isInteger(q.Type()):
			ints = append(ints, i)
		}
	}
	for _, i := range texts {
		d := c.bc.lenOf(cc.Args[i]).add(c.bc.lenOf(fn.Params[i]), -1)
		if c.bc.prove(d.add(sumConst(1), 1), b, n) {
			return "shorter"
		}
		for _, j := range ints {
			// the cursor moves on
			e := c.bc.intOf(fn.Params[j]).add(c.bc.intOf(cc.Args[j]), -1)
			if c.bc.prove(d.add(e, 1).add(sumConst(1), 1), b, n) {
				return "cursor"
			}
		}
	}
	for _, j := range ints {
		if d := c.bc.intOf(cc.Args[j]).add(c.bc.intOf(fn.Params[j]), -1); c.bc.prove(d.add(sumConst(1), 1), b, n) {
			return "number"
		}
	}
	// elements which got shorter
	plain := false
	for _, i := range texts {
		switch c.shorterElements(cc.Args[i], fn, map[ssa.Value]bool{}) {
		case 1:
			return "elements"
		case 2:
			plain = true
		}
	}
	if plain {
		return ""
	}
	// what became of the parameters in a loop
	now := map[ssa.Value][]ssa.Value{}
	for _, h := range fn.Blocks {
		if !h.Dominates(b) {
			continue
		}
		for _, in := range h.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			for i, e := range ph.Edges {
				if q, ok := e.(*ssa.Parameter); ok && !h.Dominates(h.Preds[i]) {
					now[q] = append(now[q], ph)
				}
			}
		}
	}
	for _, i := range texts {
		for _, text := range now[fn.Params[i]] {
			d := c.bc.lenOf(cc.Args[i]).add(c.bc.lenOf(text), -1)
			if c.bc.prove(d.add(sumConst(1), 1), b, n) {
				return "shorter than the text of the round"
			}
			for _, j := range ints {
				for _, pos := range now[fn.Params[j]] {
					e := c.bc.intOf(pos).add(c.bc.intOf(cc.Args[j]), -1)
					if c.bc.prove(d.add(e, 1).add(sumConst(1), 1), b, n) {
						return "behind the cursor of the round"
					}
				}
			}
		}
	}
	same := true
	for i := range fn.Params {
		if i < len(cc.Args) && !c.partOf(cc.Args[i], fn, 0) {
			if t := cc.Args[i].Type(); isTextOrList(t) || isInteger(t) {
				same = false
			}
		}
		if k, ok := cc.Args[i].(*ssa.Const); ok && i < len(fn.Params) && !isTextOrList(k.Type()) && !isInteger(k.Type()) {
			same = false // set to something else, which might be asked for before calling
		}
	}
	if same && len(texts)+len(ints) > 0 {
		return ""
	}
	return "unknown"
}

// partOf: the value is a parameter, a constant or made of them by cutting and calculating.
func (c *progressCheck) partOf(v ssa.Value, fn *ssa.Function, d int) bool {
	if d > 10 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Const, *ssa.Parameter:
		return true
	case *ssa.Slice:
		return c.partOf(x.X, fn, d+1)
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return c.partOf(x.Call.Args[0], fn, d+1)
		}
		return false
	case *ssa.BinOp:
		return c.partOf(x.X, fn, d+1) && c.partOf(x.Y, fn, d+1)
	case *ssa.Phi:
		start, back := false, false
		for i, e := range x.Edges {
			_, ok := e.(*ssa.Parameter)
			inside := x.Block().Dominates(x.Block().Preds[i])
			start = start || ok && !inside
			back = back || inside
		}
		if start && back {
			return true // what became of it in a loop
		}
		for _, e := range x.Edges {
			if e != v && !c.partOf(e, fn, d+1) {
				return false
			}
		}
		return true
	}
	return false
}

// shorterElements: the list consists of elements of other lists without their first characters (1), of such elements as
// they are (2) or of something else (0).
func (c *progressCheck) shorterElements(v ssa.Value, fn *ssa.Function, seen map[ssa.Value]bool) int {
	if seen[v] {
		return 1
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Const:
		return 1
	case *ssa.Phi:
		out := 1
		for _, e := range x.Edges {
			if r := c.shorterElements(e, fn, seen); r != 1 {
				if r == 0 {
					return 0
				}
				out = r
			}
		}
		return out
	case *ssa.Slice:
		if al, ok := x.X.(*ssa.Alloc); ok {
			out := 1
			some := false
			for _, u := range *al.Referrers() {
				ia, ok := u.(*ssa.IndexAddr)
				if !ok {
					continue
				}
				for _, w := range *ia.Referrers() {
					st, ok := w.(*ssa.Store)
					if !ok || st.Addr != ia {
						continue
					}
					some = true
					switch e := st.Val.(type) {
					case *ssa.Slice:
						if e.Low == nil || !c.bc.prove(sumConst(1).add(c.bc.intOf(e.Low), -1), e.Block(), 0) {
							return 0
						}
					case *ssa.UnOp:
						out = 2
					default:
						return 0
					}
				}
			}
			if !some {
				return 0
			}
			return out
		}
		return 0
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && len(x.Call.Args) == 2 {
			a, e := c.shorterElements(x.Call.Args[0], fn, seen), c.shorterElements(x.Call.Args[1], fn, seen)
			if a == 0 || e == 0 {
				return 0
			}
			if a == 2 || e == 2 {
				return 2
			}
			return 1
		}
	case *ssa.Parameter:
		return 0
	}
	return 0
}

// --- the whole text ---

// wholeText: functions which work on texts in turns don't hand the text they got to a function that hands it back to them.
func (c *progressCheck) wholeText() {
	type node struct {
		fn *ssa.Function
		i  int
	}
	edges := map[node][]node{}
	site := map[[2]node]ssa.Instruction{}
	isText := func(t types.Type) bool {
		b, ok := t.Underlying().(*types.Basic)
		return ok && b.Info()&types.IsString != 0
	}
	for _, fn := range c.p.Funcs {
		for i, q := range fn.Params {
			if !isText(q.Type()) || len(fn.Blocks) == 0 {
				continue
			}
			// what is the text as a whole
			whole := map[ssa.Value]bool{q: true}
			for changed := true; changed; {
				changed = false
				for _, b := range fn.Blocks {
					for _, in := range b.Instrs {
						v, ok := in.(ssa.Value)
						if !ok || whole[v] {
							continue
						}
						switch x := in.(type) {
						case *ssa.Phi:
							for _, e := range x.Edges {
								if whole[e] && isText(x.Type()) {
									whole[v] = true
								}
							}
						case *ssa.Call:
							if !isText(x.Type()) || len(c.p.repoCallees(&x.Call)) == 0 || !c.inTurn(fn, x) {
								continue
							}
							for _, a := range x.Call.Args {
								if whole[a] {
									whole[v] = true
								}
							}
						}
						changed = changed || whole[v]
					}
				}
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					cc := callOf(in)
					if cc == nil {
						continue
					}
					for _, t := range c.p.repoCallees(cc) {
						off := len(t.Params) - len(cc.Args)
						for j, a := range cc.Args {
							if whole[a] && j+off < len(t.Params) && isText(t.Params[j+off].Type()) {
								x, y := node{fn, i}, node{t, j + off}
								edges[x] = append(edges[x], y)
								site[[2]node{x, y}] = in
							}
						}
					}
				}
			}
		}
	}
	for x := range edges {
		c.r.Count("texts handed on as a whole", len(edges[x]))
	}
	// cycles
	reach := func(from, to node) bool {
		seen := map[node]bool{}
		var walk func(n node) bool
		walk = func(n node) bool {
			if n == to {
				return true
			}
			if seen[n] {
				return false
			}
			seen[n] = true
			for _, m := range edges[n] {
				if walk(m) {
					return true
				}
			}
			return false
		}
		return walk(from)
	}
	for x, ys := range edges {
		for _, y := range ys {
			if x.fn != y.fn && reach(y, x) {
				c.r.Bad("whole:"+FnName(x.fn)+":"+FnName(y.fn), c.p.At(site[[2]node{x, y}]), "%s hands its whole text to %s, which hands it back: the recursion doesn't end", FnName(x.fn), FnName(y.fn))
			}
		}
	}
}

// inTurn: the call is one of the steps of a function running several steps over the same text.
func (c *progressCheck) inTurn(fn *ssa.Function, k *ssa.Call) bool {
	n := 0
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if o, ok := in.(*ssa.Call); ok && types.Identical(o.Type(), k.Type()) && len(o.Call.Args) == len(k.Call.Args) && len(c.p.repoCallees(&o.Call)) > 0 {
				n++
			}
		}
	}
	return n >= 5
}
