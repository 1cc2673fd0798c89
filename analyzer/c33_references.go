package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C33", Title: "each reference number leads to its reference",
		Rule: "symbolic execution of the parsing of references: the number of a usage is the one its definition is stored with; it is the number known for the name in the group, or the counter of the group, which is then increased and, for a named reference, noted for the name; the list of a group contains each number below its counter that has a content, with this content; both are shown with the same number",
		Run:  runC33})
}

type refCheck struct {
	p    *Program
	r    *Report
	e    *Engine
	fn   *ssa.Function
	lps  map[*ssa.BasicBlock]*natLoop
	with map[*ssa.Function]bool
	defs map[*ssa.BasicBlock]bool // headers of loops that make entries of the list
	pass int
}

func refToken(t types.Type) string {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil || !strings.HasSuffix(n.Obj().Pkg().Path(), "parser") {
		return ""
	}
	switch n.Obj().Name() {
	case "RefUsageToken":
		return "usage"
	case "RefDefinitionToken":
		return "definition"
	}
	return ""
}

func runC33(p *Program, r *Report) {
	r.Assume = []string{"the attributes of a reference and the end of it are found correctly"}
	// functions that make the tokens, and those that run them
	makes := map[*ssa.Function]bool{}
	for _, fn := range p.Funcs {
		if !inPkg(fn, "parser") {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok && refToken(fa.X.Type()) != "" {
						makes[fn] = true
					}
				}
			}
		}
	}
	with := map[*ssa.Function]bool{}
	for fn := range makes {
		with[fn] = true
	}
	for n := 0; n < 3; n++ {
		for _, fn := range p.Funcs {
			if !inPkg(fn, "parser") || with[fn] || fn.Name() == "tokenizeContent" {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if cl, ok := in.(*ssa.Call); ok {
						for _, g := range p.repoCallees(cl.Common()) {
							if with[g] && !p.Reach(g)[fn] {
								with[fn] = true
							}
						}
					}
				}
			}
		}
	}
	for _, fn := range p.Funcs {
		if !with[fn] || fn.Parent() != nil {
			continue
		}
		// the function that has the maps
		maps := false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if _, ok := in.(*ssa.MakeMap); ok && len(loopsOf(fn)) > 0 {
					maps = true
				}
			}
		}
		if !maps {
			continue
		}
		c := &refCheck{p: p, r: r, fn: fn, lps: loopsOf(fn), with: with, defs: map[*ssa.BasicBlock]bool{}}
		r.Count("functions numbering references", 1)
		for c.pass = 0; c.pass < 2; c.pass++ {
			c.run()
		}
	}
	shown(p, r)
	r.AtLeast("functions numbering references", 1)
	r.AtLeast("usages with a number", 2)
	r.AtLeast("definitions stored", 2)
	r.AtLeast("entries of the list", 1)
	r.AtLeast("numbers shown", 2)
	r.AtLeast("rounds going on where something was cut out", 3)
}

func (c *refCheck) outer(b *ssa.BasicBlock) *natLoop {
	var best *natLoop
	for _, l := range c.lps {
		if l.blocks[b] && (best == nil || len(l.blocks) > len(best.blocks)) {
			best = l
		}
	}
	return best
}

func (c *refCheck) run() {
	e := NewEngine(c.p)
	c.e = e
	e.MaxStates = 300000
	e.Coarse = true
	name := FnName(c.fn)
	e.Inline = func(g *ssa.Function) bool {
		if c.with[g] {
			return true
		}
		if !inPkg(g, "parser") && !inPkg(g, "util") {
			return false
		}
		return smallPure(g) && len(g.Blocks) > 0 && !storesFields(g)
	}
	about := func(t *Term) bool {
		switch t.op {
		case "has":
			return true
		case "==":
			if isLookup(t.args[0]) && isLookup(t.args[1]) {
				return true
			}
			for _, a := range t.args {
				if a.op == "index" {
					return true // a letter
				}
			}
			return emptiness(t, true) && t.Any(func(x *Term) bool { return x.op == "attr" })
		case "<":
			return t.Any(isLookup)
		case "call":
			return strings.Contains(t.name, "HasSuffix") || strings.Contains(t.name, "HasPrefix")
		}
		return false
	}
	e.PinFact = func(s *State, t *Term) bool { return about(t) }
	e.KeepFact = about
	e.OnCall = func(ev *CallEv) ([]*Term, bool) {
		g := ev.Callee
		if g == nil || !c.p.IsRepoFn(g) || c.with[g] {
			return nil, false
		}
		if inPkg(g, "parser") && (!smallPure(g) || storesFields(g) || strings.Contains(g.Name(), "ttribute") || strings.Contains(g.Name(), "roup")) {
			res := g.Signature.Results()
			var out []*Term
			for i := 0; i < res.Len(); i++ {
				if isErrorType(res.At(i).Type()) {
					out = append(out, ev.S.fresh("res", ev.Site, -1))
					continue
				}
				out = append(out, e.TS.mk("attr", fmt.Sprintf("%s#%d", g.Name(), i), nil, nil, nil, ev.Args...))
			}
			return out, true
		}
		return nil, false
	}
	e.OnStore = func(s *State, a, v *Term, in ssa.Instruction) {
		st, ok := in.(*ssa.Store)
		if !ok || v == nil {
			return
		}
		fa, ok := st.Addr.(*ssa.FieldAddr)
		if !ok {
			return
		}
		k := refToken(fa.X.Type())
		if k == "" {
			return
		}
		s.regs[k+"."+fieldName2(fa)] = v
		if k == "definition" {
			for _, f := range s.frames {
				if l := innermost(loopsOf(f.fn), f.block); l != nil && c.pass == 0 && !(f.fn == c.fn && l.head == c.outer(f.block).head) {
					c.defs[l.head] = true
				}
			}
			if s.regs["definition.Index"] != nil && s.regs["definition.Content"] != nil {
				c.entry(s, in)
			}
		}
		if k == "usage" {
			s.auto["usages"] += "x"
		}
	}
	e.OnInstr = func(s *State, in ssa.Instruction, operand func(ssa.Value) *Term) {
		f := s.top()
		if i := indexIn(in); f.prev != nil && (i == 0 || isPhi(f.block.Instrs[i-1])) && !isPhi(in) {
			c.entered(s, f)
			if l := c.lps[f.block]; f.fn == c.fn && l != nil && c.outer(f.block) == l {
				for _, x := range f.block.Instrs {
					if ph, ok := x.(*ssa.Phi); ok {
						s.regs["phi."+ph.Name()] = operand(ph)
					}
				}
			}
		}
		switch x := in.(type) {
		case *ssa.MapUpdate:
			mt, ok := x.Map.Type().Underlying().(*types.Map)
			if !ok {
				return
			}
			m, k, v := operand(x.Map), operand(x.Key), operand(x.Value)
			switch {
			case intType(mt.Key()) && stringType(mt.Elem()):
				s.regs["content.map"], s.regs["content.key"] = m, k
			case stringType(mt.Key()) && intType(mt.Elem()):
				n := fmt.Sprint(len(s.auto["updates"]))
				s.auto["updates"] += "x"
				s.regs["update.map"+n], s.regs["update.key"+n], s.regs["update.value"+n] = m, k, v
			}
		case *ssa.Call:
			if sig := x.Call.Signature(); x.Call.StaticCallee() == nil && !x.Call.IsInvoke() && sig.Params().Len() == 2 && sig.Results().Len() == 1 && stringType(sig.Results().At(0).Type()) && stringType(sig.Params().At(1).Type()) {
				s.auto["content"] = "x"
			}
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "delete" {
				s.regs["definition.deleted"] = operand(x.Call.Args[1])
			}
		case *ssa.If:
			cond := operand(x.Cond)
			d := s.decide(cond)
			for i, to := range x.Block().Succs {
				if d == 1 && i == 1 || d == 0 && i == 0 {
					continue
				}
				n := s
				if d != 0 && d != 1 {
					n = s.clone()
					n.assume(cond, i == 0)
				}
				c.edge(n, f, x.Block(), to, in, cond)
			}
		case *ssa.Jump:
			c.next(s, f, x.Block(), in, operand)
			c.edge(s, f, x.Block(), x.Block().Succs[0], in, nil)
		}
	}
	e.Run(c.fn, nil, nil)
	c.r.EngineStats(e, name)
}

// storesFields: the function changes something.
func storesFields(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if _, ok := x.Addr.(*ssa.FieldAddr); ok {
					return true
				}
			case *ssa.MapUpdate:
				return true
			}
		}
	}
	return false
}

func intType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func stringType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (c *refCheck) entered(s *State, f *Frame) {
	clear := func(prefix string) {
		for k := range s.regs {
			if strings.HasPrefix(k, prefix) {
				delete(s.regs, k)
			}
		}
	}
	if c.defs[f.block] {
		clear("definition.")
	}
	if f.fn == c.fn {
		if l := c.outer(f.prev); l != nil && f.block == l.head {
			clear("usage.")
			clear("definition.")
			clear("content.")
			clear("update.")
			delete(s.auto, "updates")
			delete(s.auto, "usages")
			delete(s.auto, "content")
		}
	}
}

// cleared: all contents of a group are removed at once.
func (c *refCheck) cleared() bool {
	for fn := range c.with {
		ls := loopsOf(fn)
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Call:
					bi, ok := x.Call.Value.(*ssa.Builtin)
					if !ok || bi.Name() != "clear" && bi.Name() != "delete" {
						continue
					}
					in := false
					for h := range c.defs {
						in = in || h.Parent() == fn && ls[h] != nil && ls[h].blocks[b]
					}
					if !in {
						return true
					}
				case *ssa.MapUpdate:
					// a new map that doesn't depend on the old one being nil
					mt, ok := x.Map.Type().Underlying().(*types.Map)
					if !ok {
						continue
					}
					em, ok := mt.Elem().Underlying().(*types.Map)
					if _, mk := x.Value.(*ssa.MakeMap); !ok || !mk || !intType(em.Key()) {
						continue
					}
					if len(b.Preds) == 1 {
						if iff, ok := b.Preds[0].Instrs[len(b.Preds[0].Instrs)-1].(*ssa.If); ok {
							if bo, ok := iff.Cond.(*ssa.BinOp); ok && (bo.Op == token.EQL || bo.Op == token.NEQ) {
								continue
							}
							if ex, ok := iff.Cond.(*ssa.Extract); ok && ex.Index == 1 {
								continue
							}
						}
					}
					return true
				}
			}
		}
	}
	return false
}

func isLookup(t *Term) bool { return t != nil && t.op == "lookup" && len(t.args) == 3 }

// groupOf is the group that a map of names or contents belongs to.
func groupOf(m *Term) *Term {
	if isLookup(m) {
		return m.args[2]
	}
	return nil
}

// has tells whether the state knows if a map has an entry: 1, 0, or -1.
func (c *refCheck) has(s *State, m, k *Term) int {
	out := -1
	for f, v := range s.facts {
		if f.op == "has" && isLookup(f.args[0]) && f.args[0].args[1] == m && f.args[0].args[2] == k {
			out = b2i(v)
		}
	}
	return out
}

func plusOne(v, n *Term) bool {
	if v == nil || v.op != "+" || len(v.args) != 2 {
		return false
	}
	for i, a := range v.args {
		if k, ok := a.IntVal(); ok && k == 1 && v.args[1-i] == n {
			return true
		}
	}
	return false
}

// next: where a tag or reference was cut out the search goes on at that place.
func (c *refCheck) next(s *State, f *Frame, from *ssa.BasicBlock, in ssa.Instruction, operand func(ssa.Value) *Term) {
	to := from.Succs[0]
	if l := c.lps[to]; f.fn != c.fn || l == nil || c.outer(from) != l || c.pass != 1 {
		return
	}
	for i, p := range to.Preds {
		if p != from {
			continue
		}
		var place *Term
		for _, x := range to.Instrs {
			if ph, ok := x.(*ssa.Phi); ok && stringType(ph.Type()) {
				if base, at, _ := gap(operand(ph.Edges[i])); base != nil && base == s.regs["phi."+ph.Name()] {
					place = at
				}
			}
		}
		if place == nil {
			continue
		}
		for _, x := range to.Instrs {
			if ph, ok := x.(*ssa.Phi); ok && intType(ph.Type()) && s.regs["phi."+ph.Name()] == place {
				c.r.Count("rounds going on where something was cut out", 1)
				if n := operand(ph.Edges[i]); ahead(n, place) {
					c.r.Bad("skips:"+FnName(c.fn), c.p.At(in), "after a tag was cut out at %s the search goes on at %s, so a reference directly behind it is not found; path %s", place, n, s.PathString())
				}
			}
		}
	}
}

// edge judges a round of the search for references.
func (c *refCheck) edge(s *State, f *Frame, from, to *ssa.BasicBlock, in ssa.Instruction, cond *Term) {
	if c.pass == 1 && c.defs[to] && to.Dominates(from) && s.regs["definition.Index"] == nil {
		// an entry was left out
		c.r.Count("numbers without an entry", 1)
		absent := false
		for t, v := range s.facts {
			absent = absent || t.op == "has" && !v
		}
		if !absent {
			c.r.Bad("missing:"+FnName(f.fn), c.p.At(in), "a reference may be missing in the list although it has a content; path %s", s.PathString())
		}
	}
	if idx := s.regs["definition.Index"]; c.pass == 1 && idx != nil && c.defs[to] && to.Parent() == from.Parent() && to.Dominates(from) && !c.cleared() {
		c.r.Count("entries removed after use", 1)
		if s.regs["definition.deleted"] != idx {
			c.r.Bad("repeated:"+FnName(f.fn), c.p.At(in), "the content of an entry isn't removed, so the next list of the group repeats it; path %s", s.PathString())
		}
	}
	if cond != nil && c.pass == 1 {
		// the list ends early
		for h := range c.defs {
			if h.Parent() != f.fn {
				continue
			}
			l := loopsOf(f.fn)[h]
			if l != nil && l.blocks[from] && !l.blocks[to] && s.regs["definition.Index"] == nil {
				c.r.Count("ends of a list", 1)
				if cond.Any(func(t *Term) bool { return t.op == "has" }) {
					c.r.Bad("end:"+FnName(f.fn), c.p.At(in), "the list of references ends at the first number without a content, although there may be further ones; path %s", s.PathString())
				}
			}
		}
	}
	if f.fn != c.fn || c.pass != 1 {
		return
	}
	l := c.outer(from)
	if l == nil || to != l.head {
		return
	}
	at := c.p.At(in)
	name := FnName(c.fn)
	use, key := s.regs["usage.Index"], s.regs["content.key"]
	var given *Term // the number that a name gets
	for i := range s.auto["updates"] {
		x := fmt.Sprint(i)
		if isLookup(s.regs["update.map"+x]) {
			given = s.regs["update.value"+x]
		}
	}
	if use == nil && key == nil && given == nil {
		return
	}
	if use == nil && key == nil {
		c.r.Count("names with a number only", 1)
	}
	if use != nil {
		c.r.Count("usages with a number", 1)
		if s.auto["usages"] != "x" {
			c.r.Bad("twice:"+name, at, "one reference becomes several usages; path %s", s.PathString())
		}
	}
	if key != nil {
		c.r.Count("definitions stored", 1)
	}
	if use != nil && key != nil && use != key {
		c.r.Bad("number:"+name, at, "the content is stored with the number %s, but the usage gets %s; path %s", key, use, s.PathString())
		return
	}
	n := use
	if n == nil {
		n = key
	}
	if n == nil {
		n = given
	}
	if s.auto["content"] != "" {
		c.r.Count("contents of numbered references", 1)
		has := false
		for t, v := range s.facts {
			has = has || v && t.op == "has" && isLookup(t.args[0]) && t.args[0].args[2] == n
		}
		if key == nil && !has {
			c.r.Bad("dropped:"+name, at, "the content of a reference is not stored, so its number leads nowhere; path %s", s.PathString())
		}
	}
	if !isLookup(n) {
		c.r.Bad("origin:"+name, at, "the number of a reference (%s) is neither the one known for its name nor the counter of its group; path %s", n, s.PathString())
		return
	}
	type update struct{ m, k, v *Term }
	var ups []update
	for i := range s.auto["updates"] {
		x := fmt.Sprint(i)
		ups = append(ups, update{s.regs["update.map"+x], s.regs["update.key"+x], s.regs["update.value"+x]})
	}
	group := groupOf(s.regs["content.map"])
	same := func(g *Term, what string) {
		if group != nil && g != nil && g != group {
			c.r.Bad("group:"+what+":"+name, at, "the %s belongs to the group %s, the content to %s; path %s", what, g, group, s.PathString())
		}
		if group == nil {
			group = g
		}
	}
	if isLookup(n.args[1]) {
		// the number of a name
		for t, v := range s.facts {
			// known numbers are below the counter, so this can't be
			if v && t.op == "==" && isLookup(t.args[0]) && isLookup(t.args[1]) && (t.args[0] == n || t.args[1] == n) {
				return
			}
		}
		c.r.Count("numbers of known names", 1)
		same(groupOf(n.args[1]), "name")
		if c.has(s, n.args[1], n.args[2]) != 1 {
			c.r.Bad("unknown:"+name, at, "a number is used for a name although the name may have none yet; path %s", s.PathString())
		}
		for _, u := range ups {
			if !isLookup(u.m) && isLookup(u.v) == false {
				c.r.Bad("gap:"+name, at, "the counter is increased for a reference that has a number already; path %s", s.PathString())
			}
			if isLookup(u.m) && u.v != n {
				c.r.Bad("renamed:"+name, at, "the number of a name is changed; path %s", s.PathString())
			}
		}
		return
	}
	// the counter
	c.r.Count("new numbers", 1)
	same(n.args[2], "counter")
	saved := false
	var named *update
	for i, u := range ups {
		if isLookup(u.m) {
			named = &ups[i]
		} else if u.m == n.args[1] && u.k == n.args[2] {
			saved = plusOne(u.v, n)
		} else {
			c.r.Bad("counter:"+name, at, "a new number is counted for %s, but it was taken from %s; path %s", u.k, n.args[2], s.PathString())
		}
	}
	if !saved {
		c.r.Bad("again:"+name, at, "a new number is used, but the counter isn't increased by one, so the next reference gets the same number or one is skipped; path %s", s.PathString())
	}
	// names asked in this round
	known := map[*Term]int{}
	empty := map[*Term]bool{}
	for t, v := range s.facts {
		if t.op == "has" && isLookup(t.args[0]) && isLookup(t.args[0].args[1]) && !t.hasOld {
			known[t.args[0].args[2]] = b2i(v)
		}
		if emptiness(t, v) && t.op == "==" {
			for _, a := range t.args {
				empty[a] = true
			}
		}
	}
	if named != nil {
		same(groupOf(named.m), "name")
		if named.v != n {
			c.r.Bad("noted:"+name, at, "the number %s is used, but %s is noted for the name; path %s", n, named.v, s.PathString())
		}
		if c.has(s, named.m, named.k) != 0 {
			c.r.Bad("overwritten:"+name, at, "a name gets a new number although it may have one already; path %s", s.PathString())
		}
		return
	}
	if len(empty) == 0 {
		c.r.Bad("unnamed:"+name, at, "a reference that may have a name gets a number that is not noted for the name; path %s", s.PathString())
	}
}

// entry judges an entry of the list of references.
func (c *refCheck) entry(s *State, in ssa.Instruction) {
	if c.pass != 1 {
		return
	}
	idx, content := s.regs["definition.Index"], s.regs["definition.Content"]
	at := c.p.At(in)
	name := FnName(c.fn)
	c.r.Count("entries of the list", 1)
	if !isLookup(content) {
		return
	}
	if content.args[2] != idx {
		c.r.Bad("entry:"+name, at, "an entry of the list has the number %s, but the content of %s; path %s", idx, content.args[2], s.PathString())
		return
	}
	g := groupOf(content.args[1])
	bound := false
	for t, v := range s.facts {
		if t.op != "<" {
			continue
		}
		var lim *Term
		if v && t.args[0] == idx {
			lim = t.args[1]
		} else if !v && t.args[1] == idx {
			lim = t.args[0]
		} else if k, ok := idx.IntVal(); ok && v {
			if k0, ok := t.args[0].IntVal(); ok && k == k0 {
				lim = t.args[1]
			}
		}
		if lim == nil || !lim.Any(isLookup) {
			continue
		}
		bound = true
		if !isLookup(lim) {
			c.r.Bad("bound:"+name, at, "the entries of the list end at %s, not at the counter of the group; path %s", lim, s.PathString())
		} else if g != nil && lim.args[2] != g {
			c.r.Bad("group:list:"+name, at, "the contents are those of the group %s, the counter that of %s; path %s", g, lim.args[2], s.PathString())
		}
	}
	if bound {
		c.r.Count("entries up to the counter", 1)
	}
	// the first number is 0
	for _, f := range s.frames {
		for h := range c.defs {
			if h.Parent() != f.fn {
				continue
			}
			for _, x := range h.Instrs {
				ph, ok := x.(*ssa.Phi)
				if !ok {
					break
				}
				if !intType(ph.Type()) {
					continue
				}
				for i, p := range h.Preds {
					if h.Dominates(p) {
						continue
					}
					if k, ok := ph.Edges[i].(*ssa.Const); ok && k.Value != nil && k.Int64() > 0 && bound {
						c.r.Bad("first:"+name, at, "the list of references begins with the number %d", k.Int64())
					}
				}
			}
		}
	}
}

// shown: usages and entries are shown with the same number.
func shown(p *Program, r *Report) {
	nums := map[string]string{}
	for _, fn := range p.Funcs {
		if !inPkg(fn, "generator") {
			continue
		}
		kind := ""
		for _, q := range fn.Params {
			if k := refToken(q.Type()); k != "" {
				kind = k
			}
		}
		if kind == "" {
			continue
		}
		e := NewEngine(p)
		e.OnCall = func(ev *CallEv) ([]*Term, bool) {
			if ev.Key != "fmt.Sprintf" && ev.Key != "strconv.Itoa" && ev.Key != "fmt.Sprint" {
				return nil, false
			}
			for _, a := range ev.Args {
				for _, x := range append(e.flat(ev.S, a), a) {
					if x == nil || x.op == "iface" && len(x.args) > 0 {
						continue
					}
					if k, ok := indexPlus(x); ok {
						r.Count("numbers shown", 1)
						if o, has := nums[k]; has && o != kind {
							nums[k] = "both"
						} else if !has {
							nums[k] = kind
						}
						r.Sample("%s shows the number %s", FnName(fn), x)
					}
				}
			}
			return nil, false
		}
		e.Run(fn, nil, nil)
		r.EngineStats(e, FnName(fn))
	}
	for k, kind := range nums {
		if kind != "both" {
			r.Bad("shown:"+kind, "-", "the number of a %s is shown as its index plus %s, the other side differs", kind, k)
		}
	}
}

// indexPlus: the index of a token plus a constant.
func indexPlus(t *Term) (string, bool) {
	k := int64(0)
	for t.op == "+" && len(t.args) == 2 {
		if n, ok := t.args[1].IntVal(); ok {
			k += n
			t = t.args[0]
		} else if n, ok := t.args[0].IntVal(); ok {
			k += n
			t = t.args[1]
		} else {
			return "", false
		}
	}
	isIdx := (t.op == "field" || t.op == "deref" || t.op == "derefv") && strings.Contains(t.String(), "Index")
	return fmt.Sprint(k), isIdx
}
