package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C32", Title: "only unwanted parts of an article are removed, and all of them",
		Rule: "symbolic execution of the functions of the parser that compare texts with the configured lists: a text is cut out only where the lists say that it is unwanted; a round of the search that cuts nothing out contradicts every way to a removal by what the lists, the brackets or the name say; the search continues where something was cut out; a trailing template is kept as it is for the end; compared texts are in lower case",
		Run:  runC32})
}

// cleanLists are the settings that decide what is removed.
var cleanLists = map[string]bool{"FilePrefixes": true, "AllowedLinkPrefixes": true, "CategoryPrefixes": true, "IgnoredTemplates": true, "TrailingTemplates": true, "IgnoredMediaTypes": true}

type cleanCheck struct {
	p    *Program
	r    *Report
	e    *Engine
	fn   *ssa.Function
	lps  map[*ssa.Function]map[*ssa.BasicBlock]*natLoop
	uses func(fn *ssa.Function) map[string]bool
	use  map[string]bool // lists used by the function
	pass int
	asks map[*ssa.BasicBlock]bool // headers of the loops that ask the lists or remove something
	rms  map[string][]map[*Term]bool
	cuts map[*ssa.BasicBlock]bool // headers of the loops that remove something themselves
	kept []cleanRound
}

type cleanRound struct {
	group, at, path string
	facts           map[*Term]bool
}

func runC32(p *Program, r *Report) {
	r.Assume = []string{"strings.ToLower, TrimSpace and the search for a closing token are functions of their arguments"}
	comments(p, r)
	reads := map[*ssa.Function]map[string]bool{}
	for _, fn := range p.Funcs {
		if !inPkg(fn, "parser") {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if fa, ok := in.(*ssa.FieldAddr); ok && isConfigType(fa.X.Type()) {
					if f := fieldName2(fa); cleanLists[f] {
						if reads[fn] == nil {
							reads[fn] = map[string]bool{}
						}
						reads[fn][f] = true
					}
				}
			}
		}
	}
	inl := func(c *ssa.Function) bool {
		if !inPkg(c, "parser") {
			return false
		}
		res := c.Signature.Results()
		return inlinable(c) || res.Len() == 1 && types.Identical(res.At(0).Type(), types.Typ[types.Bool])
	}
	var uses func(fn *ssa.Function, d int) map[string]bool
	uses = func(fn *ssa.Function, d int) map[string]bool {
		out := map[string]bool{}
		for f := range reads[fn] {
			out[f] = true
		}
		if d > 3 {
			return out
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if cl, ok := in.(ssa.CallInstruction); ok {
					for _, c := range append(p.repoCallees(cl.Common()), dynamicClosures(nil, cl.Common())...) {
						if c != fn && inl(c) {
							for f := range uses(c, d+1) {
								out[f] = true
							}
						}
					}
				}
			}
		}
		return out
	}
	for _, fn := range p.Funcs {
		if !inPkg(fn, "parser") || fn.Parent() != nil {
			continue
		}
		u := uses(fn, 0)
		if len(u) == 0 {
			continue
		}
		c := &cleanCheck{uses: func(g *ssa.Function) map[string]bool { return uses(g, 0) }, p: p, r: r, fn: fn, use: u, lps: map[*ssa.Function]map[*ssa.BasicBlock]*natLoop{}, asks: map[*ssa.BasicBlock]bool{}, cuts: map[*ssa.BasicBlock]bool{}, rms: map[string][]map[*Term]bool{}}
		var names []string
		for f := range u {
			names = append(names, f)
		}
		sort.Strings(names)
		r.Count("functions asking the lists", 1)
		r.Sample("%s asks %s", FnName(fn), strings.Join(names, ", "))
		c.run()
	}
	r.AtLeast("functions asking the lists", 4)
	r.AtLeast("texts compared with a list", 8)
	r.AtLeast("ways to a removal", 4)
	r.AtLeast("rounds that keep the text", 8)
	r.AtLeast("images left out", 1)
}

func isConfigType(t types.Type) bool {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == "Configuration" && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), "config")
}

func fieldName2(fa *ssa.FieldAddr) string {
	return fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct).Field(fa.Field).Name()
}

func inlinable(fn *ssa.Function) bool { return smallPure(fn) && len(fn.Blocks) > 0 }

// list is the setting a term is, perhaps in lower case.
func cleanList(t *Term) (name string, lower bool) {
	for t.op == "lowered" {
		lower = true
		t = t.args[0]
	}
	if (t.op == "deref" || t.op == "derefv") && t.args[0].op == "field&" && isCurrent(t.args[0].args[0]) {
		return fieldName(t.args[0].name), lower
	}
	return "", lower
}

func callNamed(t *Term, keys ...string) bool {
	if t.op != "call" {
		return false
	}
	for _, k := range keys {
		if t.name == k {
			return true
		}
	}
	return false
}

// lowerCase: the term is a text in lower case.
func lowerCase(t *Term) bool {
	if callNamed(t, "strings.ToLower") {
		return true
	}
	if t.op == "slice" || callNamed(t, "strings.TrimSpace", "strings.TrimPrefix", "strings.TrimSuffix", "strings.Trim", "strings.TrimLeft", "strings.TrimRight") {
		return lowerCase(t.args[0])
	}
	return false
}

func (c *cleanCheck) loops(fn *ssa.Function) map[*ssa.BasicBlock]*natLoop {
	l, ok := c.lps[fn]
	if !ok {
		l = loopsOf(fn)
		c.lps[fn] = l
	}
	return l
}

// mark notes that the loops the state is in ask the lists.
func (c *cleanCheck) mark(s *State) {
	for _, f := range s.frames {
		if l := innermost(c.loops(f.fn), f.block); l != nil {
			c.asks[l.head] = true
		}
	}
}

// group names the round: the loop and the values of what changes from round to round.
func (c *cleanCheck) group(s *State, f *Frame, l *natLoop) string {
	var out []string
	for _, b := range f.fn.Blocks {
		o := c.loops(f.fn)[b]
		if o == nil || !o.blocks[l.head] {
			continue
		}
		for _, in := range b.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			if t := s.regs[phiReg(ph)]; t != nil && t.op == "phi" {
				out = append(out, fmt.Sprint(t.id))
			} else if t != nil && !t.IsConst() {
				out = append(out, "*")
			} else if t != nil {
				out = append(out, t.String())
			}
		}
	}
	return fmt.Sprintf("%p:%s", l.head, strings.Join(out, ","))
}

// helper: a function that only decides whether something is unwanted.
func (c *cleanCheck) helper(g *ssa.Function) bool {
	if g == nil || !inPkg(g, "parser") || len(c.uses(g)) == 0 || len(g.Blocks) > 30 || c.p.Reach(g)[c.fn] {
		return false
	}
	res := g.Signature.Results()
	if res.Len() != 1 {
		return false
	}
	b, ok := res.At(0).Type().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Bool
}

func (c *cleanCheck) run() {
	for c.pass = 0; c.pass < 2; c.pass++ {
		c.once()
	}
	c.judge()
}

func (c *cleanCheck) once() {
	e := NewEngine(c.p)
	c.e = e
	name := FnName(c.fn)
	e.MaxStates = 1500000
	e.PinFact = func(s *State, t *Term) bool { return true }
	e.Inline = func(g *ssa.Function) bool {
		if c.helper(g) {
			return true
		}
		return (inPkg(g, "parser") || inPkg(g, "util")) && inlinable(g)
	}
	e.OnCall = func(ev *CallEv) ([]*Term, bool) {
		g := ev.Callee
		ask := func(kind string, list, v *Term) []*Term {
			l, low := cleanList(list)
			t := e.TS.mk(kind, l, nil, nil, nil, v)
			if !cleanLists[l] {
				return []*Term{e.TS.mk(kind, "?", nil, nil, nil, list, v)}
			}
			c.mark(ev.S)
			if c.pass == 1 {
				c.r.Count("texts compared with a list", 1)
				if !lowerCase(v) {
					c.r.Bad("case:"+name+":"+l, c.p.At(ev.Instr), "%s is compared with the setting %s, but not in lower case (%s)", "a text", l, v)
				}
				if (l == "IgnoredTemplates" || l == "TrailingTemplates") && !low {
					c.r.Bad("listcase:"+name+":"+l, c.p.At(ev.Instr), "the names of templates in the setting %s may be in upper case, but the text compared with them is in lower case", l)
				}
			}
			return []*Term{t}
		}
		k := ev.Key
		base := k
		if i := strings.IndexByte(base, '['); i > 0 {
			base = base[:i]
		}
		switch {
		case (strings.HasSuffix(base, "util.Contains") || base == "slices.Contains") && len(ev.Args) == 2:
			return ask("in", ev.Args[0], ev.Args[1]), true
		case strings.HasSuffix(base, "util.HasAnyPrefix") && len(ev.Args) == 2:
			return ask("prefixed", ev.Args[1], ev.Args[0]), true
		case strings.HasSuffix(base, "util.AllToLower") && len(ev.Args) == 1:
			return []*Term{e.TS.App("lowered", ev.Args[0])}, true
		}
		if g == nil || !c.p.IsRepoFn(g) {
			return nil, false
		}
		if strings.HasPrefix(g.Name(), "ShouldConvert") {
			return []*Term{e.TS.mk("converted", strings.TrimSuffix(strings.TrimPrefix(g.Name(), "ShouldConvert"), "ToPng"), nil, nil, nil)}, true
		}
		if inPkg(g, "parser") && !inlinable(g) && !c.helper(g) {
			res := g.Signature.Results()
			var out []*Term
			for i := 0; i < res.Len(); i++ {
				if b, ok := res.At(i).Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 && res.Len() == 1 {
					out = append(out, e.TS.mk("position", g.Name(), nil, nil, nil, ev.Args...))
				} else if isErrorType(res.At(i).Type()) {
					out = append(out, ev.S.fresh("res", ev.Site, -1))
				} else {
					out = append(out, e.TS.mk("text", fmt.Sprintf("%s#%d", g.Name(), i), nil, nil, nil, ev.Args...))
				}
			}
			return out, true
		}
		return nil, false
	}
	e.OnStore = func(s *State, a, v *Term, in ssa.Instruction) {
		if a.op == "index&" && v != nil && unchanged(v) {
			for t := range textsOf(v) {
				s.auto["saved:"+fmt.Sprint(t.id)] = "1"
			}
		}
	}
	e.OnInstr = func(s *State, in ssa.Instruction, operand func(ssa.Value) *Term) {
		f := s.top()
		if i := indexIn(in); f.prev != nil && (i == 0 || isPhi(f.block.Instrs[i-1])) && !isPhi(in) {
			c.entered(s, f)
		}
		switch x := in.(type) {
		case *ssa.BinOp:
			if !textType(x.Type()) || x.Op.String() != "+" {
				return
			}
			t := e.concat(operand(x.X), operand(x.Y))
			if base, from, to := gap(t); base != nil {
				c.removal(s, in, base, from, e.TS.mk("slice", "", nil, nil, nil, base, from, to))
			}
		case *ssa.Call:
			k := CalleeKey(x.Common())
			if k != "strings.Replace" && k != "strings.ReplaceAll" {
				return
			}
			old, repl := operand(x.Call.Args[1]), operand(x.Call.Args[2])
			if r, ok := repl.StrVal(); !ok || r != "" || old.IsConst() {
				return
			}
			var from *Term
			if old.op == "slice" && len(old.args) == 3 {
				from = old.args[1]
			}
			c.removal(s, in, operand(x.Call.Args[0]), from, old)
		case *ssa.Return:
			if c.pass == 1 && c.use["IgnoredMediaTypes"] && f.fn == c.fn && len(x.Results) > 0 && textType(x.Results[0].Type()) {
				c.media(s, in, operand(x.Results[0]))
			}
		case *ssa.If:
			d := s.decide(operand(x.Cond))
			for i, to := range x.Block().Succs {
				if d == 1 && i == 1 || d == 0 && i == 0 {
					continue
				}
				n := s
				if d != 0 && d != 1 {
					n = s.clone()
					n.assume(operand(x.Cond), i == 0)
				}
				c.edge(n, f, x.Block(), to, in, operand)
			}
		case *ssa.Jump:
			c.edge(s, f, x.Block(), x.Block().Succs[0], in, operand)
		}
	}
	e.Run(c.fn, nil, nil)
	c.r.EngineStats(e, name)
}

func textType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// gap: the text consists of two parts of the same text, without what is between them.
func gap(t *Term) (base, from, to *Term) {
	if t.op != "concat" || len(t.args) != 2 {
		return
	}
	a, b := t.args[0], t.args[1]
	if a.op != "slice" || b.op != "slice" || len(a.args) != 3 || len(b.args) != 3 || a.args[0] != b.args[0] {
		return
	}
	if a.args[2].IsNilConst() || b.args[1].IsNilConst() || a.args[2] == b.args[1] || !b.args[2].IsNilConst() {
		return
	}
	return a.args[0], a.args[2], b.args[1]
}

func knownFacts(s *State) map[*Term]bool {
	out := map[*Term]bool{}
	for f, v := range s.facts {
		out[f] = v
	}
	return out
}

func (c *cleanCheck) removal(s *State, in ssa.Instruction, base, from, text *Term) {
	c.mark(s)
	for _, f := range s.frames {
		for _, l := range c.loops(f.fn) {
			if roundOf(l, f.block) {
				c.cuts[l.head] = true
			}
		}
	}
	s.auto["removed"] = "1"
	if from != nil {
		s.regs["from"] = from
	}
	s.regs["text"] = text
	if c.pass != 1 {
		return
	}
	for _, f := range s.frames {
		for _, l := range c.loops(f.fn) {
			if roundOf(l, f.block) && c.asks[l.head] {
				g := c.group(s, f, l)
				c.rms[g] = append(c.rms[g], knownFacts(s))
			}
		}
	}
	c.r.Count("ways to a removal", 1)
	// what says that it is unwanted
	not := map[string]map[*Term]bool{}
	why := ""
	for f, v := range s.facts {
		switch {
		case f.op != "in" && f.op != "prefixed":
		case v && f.op == "in" && f.name == "CategoryPrefixes":
			why = "category"
		case v && (f.name == "IgnoredTemplates" || f.name == "TrailingTemplates"):
			why = "template"
		case !v && f.op == "in":
			if not[f.name] == nil {
				not[f.name] = map[*Term]bool{}
			}
			not[f.name][f.args[0]] = true
		}
	}
	if why == "" {
		for t := range not["FilePrefixes"] {
			if !c.use["AllowedLinkPrefixes"] || not["AllowedLinkPrefixes"][t] {
				why = "prefix"
			}
		}
	}
	if why == "" && s.auto["unwanted"] != "" {
		why = "noted in a round before"
	}
	if why == "" && !c.use["AllowedLinkPrefixes"] && !c.use["IgnoredTemplates"] {
		// an image without a name or of a type that is left out
		for f, v := range s.facts {
			if emptiness(f, v) {
				why = "empty"
			}
		}
		// brackets that are not closed are taken away
		if lo, ok := text.args[1], len(text.args) == 3; ok && len(text.args[2].args) > 0 && offset(text.args[2], lo) {
			why = "brackets"
		}
	}
	if why == "" {
		c.r.Bad("removed:"+FnName(c.fn), c.p.At(in), "a text is removed although no list says that it is unwanted; path %s", s.PathString())
		return
	}
	if c.use["AllowedLinkPrefixes"] && (why == "category" || why == "prefix") {
		colon := false
		for f, v := range s.facts {
			colon = colon || !v && isColon(f)
		}
		if !colon {
			c.r.Bad("colon:"+FnName(c.fn), c.p.At(in), "a link may be removed although it starts with a colon; path %s", s.PathString())
		}
	}
}

// offset: a is b plus a constant.
func offset(a, b *Term) bool {
	if a == b {
		return true
	}
	if a.op == "+" && len(a.args) == 2 {
		_, ok := a.args[1].IntVal()
		_, ok0 := a.args[0].IntVal()
		return ok && offset(a.args[0], b) || ok0 && offset(a.args[1], b)
	}
	return false
}

// isBracket: the fact is about a bracket being at a place.
func isBracket(f *Term) bool {
	if f.op == "==" {
		for i, a := range f.args {
			if n, ok := a.IntVal(); ok && (n == '[' || n == '{') && f.args[1-i].op == "index" {
				return true
			}
		}
	}
	return false
}

func isColon(f *Term) bool {
	if f.op == "==" {
		for i, a := range f.args {
			if n, ok := a.IntVal(); ok && n == ':' && f.args[1-i].op == "index" {
				return true
			}
			if k, ok := a.StrVal(); ok && k == ":" {
				return true
			}
		}
	}
	if callNamed(f, "strings.HasPrefix") {
		k, ok := f.args[1].StrVal()
		return ok && k == ":"
	}
	return false
}

// emptiness: the fact says that a text is empty.
func emptiness(f *Term, v bool) bool {
	if f.op == "==" {
		for i, a := range f.args {
			if k, ok := a.StrVal(); ok && k == "" {
				return v
			}
			if n, ok := a.IntVal(); ok && n == 0 && f.args[1-i].op == "len" {
				return v
			}
		}
	}
	if f.op == "<" && len(f.args) == 2 {
		if n, ok := f.args[0].IntVal(); ok && n == 0 && f.args[1].op == "len" {
			return !v
		}
		if n, ok := f.args[1].IntVal(); ok && n == 1 && f.args[0].op == "len" {
			return v
		}
	}
	return false
}

// edge is passed from one block to the next.
func (c *cleanCheck) edge(s *State, f *Frame, from, to *ssa.BasicBlock, in ssa.Instruction, operand func(ssa.Value) *Term) {
	for _, l := range c.loops(f.fn) {
		if !l.blocks[from] || !c.asks[l.head] {
			continue
		}
		back := to == l.head
		out := !l.blocks[to]
		if !back && !(out && from != l.head) {
			continue
		}
		if out {
			// only a nested search may be left early
			if c.outerOf(s, f, l) == nil || s.auto["removed"] != "" {
				continue
			}
			if c.pass == 1 && len(unwanted(s)) == 0 && allowed(s) {
				c.r.Bad("early:"+FnName(f.fn), c.p.At(in), "the search ends although not everything was compared with the lists; path %s", s.PathString())
			}
			continue
		}
		if s.auto["removed"] == "" {
			if c.outerOf(s, f, l) != nil && len(unwanted(s)) > 0 {
				s.auto["unwanted"] = "1" // noted, and removed after the search
			}
			if s.auto["asked"] == fmt.Sprintf("%p", l.head) {
				continue
			}
			if c.pass == 1 && c.same(s, l, from, operand) {
				c.r.Count("rounds that keep the text", 1)
				c.kept = append(c.kept, cleanRound{c.group(s, f, l), c.p.At(in), s.PathString(), knownFacts(s)})
				if u := unasked(s); u != nil && c.cuts[l.head] && c.use["CategoryPrefixes"] {
					c.r.Bad("category:"+FnName(f.fn), c.p.At(in), "a link stays although it may be a category (%s); path %s", u, s.PathString())
				}
				if u := unwanted(s); len(u) > 0 && c.cuts[l.head] {
					c.r.Bad("stays:"+FnName(f.fn), c.p.At(in), "the text stays although the lists say that it is unwanted (%s); path %s", u[0], s.PathString())
				}
			}
			continue
		}
		if c.outerOf(s, f, l) != nil {
			continue
		}
		if c.pass == 1 {
			c.next(s, l, from, in, operand)
			c.trailing(s, in)
		}
	}
}

// entered: the state has come from one block to the next.
func (c *cleanCheck) entered(s *State, f *Frame) {
	if l := c.loops(f.fn)[f.block]; l != nil && c.asks[l.head] {
		for _, in := range l.head.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			s.regs[phiReg(ph)] = c.e.val(s, ph)
		}
	}
	for _, l := range c.loops(f.fn) {
		if !c.asks[l.head] || !l.blocks[f.prev] {
			continue
		}
		if f.block == l.head {
			if s.auto["asked"] == fmt.Sprintf("%p", l.head) {
				delete(s.auto, "asked")
			}
			if c.outerOf(s, f, l) == nil {
				for k := range s.auto {
					if k == "removed" || k == "unwanted" || strings.HasPrefix(k, "saved:") {
						delete(s.auto, k)
					}
				}
				delete(s.regs, "from")
				delete(s.regs, "text")
				for t := range s.facts {
					if t.Any(func(x *Term) bool { return x.op == "in" || x.op == "prefixed" }) {
						delete(s.facts, t)
					}
				}
			}
		}
		// a nested search that went through all there is has kept the text with good reason
		if f.prev == l.head && !l.blocks[f.block] {
			if o := c.outerOf(s, f, l); o != nil && s.auto["removed"] == "" {
				s.auto["asked"] = fmt.Sprintf("%p", o.head)
			}
		}
	}
}

func phiReg(ph *ssa.Phi) string { return fmt.Sprintf("phi:%p", ph) }

// roundOf: the block is a part of a round of the loop, even if it leaves the loop afterwards.
func roundOf(l *natLoop, b *ssa.BasicBlock) bool {
	if l.blocks[b] {
		return true
	}
	for d := b.Idom(); d != nil; d = d.Idom() {
		if l.blocks[d] {
			return d != l.head
		}
	}
	return false
}

func isPhi(in ssa.Instruction) bool { _, ok := in.(*ssa.Phi); return ok }

// outerOf is the search that the loop is a part of, perhaps in a calling function.
func (c *cleanCheck) outerOf(s *State, f *Frame, l *natLoop) *natLoop {
	var best *natLoop
	pick := func(fn *ssa.Function, b *ssa.BasicBlock) {
		for _, o := range c.loops(fn) {
			if o != l && o.blocks[b] && c.asks[o.head] && (best == nil || len(o.blocks) < len(best.blocks)) {
				best = o
			}
		}
	}
	pick(f.fn, l.head)
	for i := len(s.frames) - 2; i >= 0 && best == nil; i-- {
		if s.frames[i] != f {
			pick(s.frames[i].fn, s.frames[i].block)
		}
	}
	return best
}

// unwanted lists the facts saying that a text is unwanted.
func unwanted(s *State) (out []string) {
	empty := map[*Term]bool{}
	for f, v := range s.facts {
		if emptiness(f, v) && f.op == "==" {
			for _, a := range f.args {
				if a.op == "len" {
					a = a.args[0]
				}
				empty[a] = true
			}
		}
	}
	file, link := map[*Term]bool{}, map[*Term]bool{}
	for f, v := range s.facts {
		if f.op != "in" && f.op != "prefixed" || len(f.args) == 0 || empty[f.args[0]] {
			continue
		}
		switch {
		case v && (f.name == "CategoryPrefixes" || f.name == "IgnoredTemplates" || f.name == "TrailingTemplates"):
			out = append(out, f.String())
		case !v && f.name == "FilePrefixes":
			file[f.args[0]] = true
		case !v && f.name == "AllowedLinkPrefixes":
			link[f.args[0]] = true
		}
	}
	for t := range file {
		if link[t] {
			out = append(out, t.String())
		}
	}
	sort.Strings(out)
	return
}

// unasked is a prefix that was compared with the allowed ones, but perhaps not with the categories.
func unasked(s *State) *Term {
	ok := map[*Term]bool{}
	for f, v := range s.facts {
		if f.op == "in" && f.name == "CategoryPrefixes" && len(f.args) == 1 {
			ok[f.args[0]] = true
		}
		if emptiness(f, v) && f.op == "==" {
			for _, a := range f.args {
				if a.op == "len" {
					a = a.args[0]
				}
				ok[a] = true
			}
		}
	}
	var out *Term
	for f := range s.facts {
		if f.op == "in" && f.name == "AllowedLinkPrefixes" && len(f.args) == 1 && !ok[f.args[0]] && (out == nil || out.id > f.args[0].id) {
			out = f.args[0]
		}
	}
	return out
}

// allowed: a prefix was compared with the lists and may stay.
func allowed(s *State) bool {
	for f, v := range s.facts {
		if f.op == "in" && (v && f.name == "AllowedLinkPrefixes" || !v && f.name == "CategoryPrefixes") {
			return true
		}
	}
	return false
}

// same: the round leaves all texts as they were.
func (c *cleanCheck) same(s *State, l *natLoop, from *ssa.BasicBlock, operand func(ssa.Value) *Term) bool {
	for i, p := range l.head.Preds {
		if p != from {
			continue
		}
		for _, in := range l.head.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			if textType(ph.Type()) && operand(ph.Edges[i]) != s.regs[phiReg(ph)] {
				return false
			}
		}
	}
	return true
}

// next: after something was cut out the search goes on at that place.
func (c *cleanCheck) next(s *State, l *natLoop, from *ssa.BasicBlock, in ssa.Instruction, operand func(ssa.Value) *Term) {
	start := s.regs["from"]
	if start == nil {
		return
	}
	for i, p := range l.head.Preds {
		if p != from {
			continue
		}
		for _, x := range l.head.Instrs {
			ph, ok := x.(*ssa.Phi)
			if !ok {
				break
			}
			b, ok := ph.Type().Underlying().(*types.Basic)
			if !ok || b.Info()&types.IsInteger == 0 || start.op != "phi" || start != s.regs[phiReg(ph)] {
				continue
			}
			c.r.Count("searches going on where something was cut out", 1)
			if n := operand(ph.Edges[i]); ahead(n, start) {
				c.r.Bad("skips:"+FnName(c.fn), c.p.At(in), "after a text was cut out at %s the search goes on at %s, so what now stands there is not looked at; path %s", start, n, s.PathString())
			}
		}
	}
}

// ahead: n is greater than start by a constant.
func ahead(n, start *Term) bool {
	k := int64(0)
	for n != start {
		if (n.op != "+" && n.op != "-") || len(n.args) != 2 {
			return false
		}
		if v, ok := n.args[1].IntVal(); ok {
			if n.op == "-" {
				v = -v
			}
			k += v
			n = n.args[0]
		} else if v, ok := n.args[0].IntVal(); ok && n.op == "+" {
			k += v
			n = n.args[1]
		} else {
			return false
		}
	}
	return k > 0
}

// unchanged: a text made of constants, parts of texts and what the parser makes of them.
func unchanged(t *Term) bool {
	switch t.op {
	case "const", "phi", "param":
		return true
	case "slice":
		return true
	case "concat":
		for _, a := range t.args {
			if !unchanged(a) {
				return false
			}
		}
		return true
	case "text":
		for _, a := range t.args {
			if textsOf(a) != nil && unchanged(a) {
				return true
			}
		}
	}
	return callNamed(t, "strings.TrimSpace") && unchanged(t.args[0])
}

// textsOf lists the parts of texts a term contains.
func textsOf(t *Term) map[*Term]bool {
	var out map[*Term]bool
	t.Any(func(x *Term) bool {
		if x.op == "slice" {
			if out == nil {
				out = map[*Term]bool{}
			}
			out[x] = true
		}
		return false
	})
	return out
}

// trailing: a template that was cut out because it belongs to the end was saved as it is.
func (c *cleanCheck) trailing(s *State, in ssa.Instruction) {
	ign, trail, asked := false, false, false
	for f, v := range s.facts {
		if f.op == "in" || f.op == "prefixed" {
			ign = ign || v && f.name == "IgnoredTemplates"
			trail = trail || v && f.name == "TrailingTemplates"
			asked = true
		}
	}
	text := s.regs["text"]
	if !asked || text == nil || ign && !trail || !c.use["TrailingTemplates"] {
		return
	}
	c.r.Count("trailing templates kept for the end", 1)
	if s.auto["saved:"+fmt.Sprint(text.id)] == "" {
		c.r.Bad("lost:"+FnName(c.fn), c.p.At(in), "a template that belongs to the end of the article is cut out, but not saved as it is; path %s", s.PathString())
	}
}

// media: an image is left out exactly if its type is ignored and it is not converted.
func (c *cleanCheck) media(s *State, in ssa.Instruction, v *Term) {
	ignored, asked, empty := false, false, false
	conv := map[string]bool{}
	ext := map[string]bool{}
	for f, t := range s.facts {
		switch {
		case f.op == "in" && f.name == "IgnoredMediaTypes":
			asked, ignored = true, t
		case f.op == "converted" && t:
			conv[strings.ToLower(f.name)] = true
		case emptiness(f, t):
			empty = true
		case f.op == "==" && t:
			for _, a := range f.args {
				if k, ok := a.StrVal(); ok {
					ext[k] = true
				}
			}
		}
	}
	stays := false
	for k := range conv {
		stays = stays || ext[k]
	}
	at := c.p.At(in)
	if k, ok := v.StrVal(); ok && k == "" {
		c.r.Count("images left out", 1)
		if !ignored && !empty {
			c.r.Bad("image:"+FnName(c.fn), at, "an image is left out although its type is not ignored; path %s", s.PathString())
		}
		if ignored && stays && !empty {
			c.r.Bad("converted:"+FnName(c.fn), at, "an image is left out although images of its type are converted; path %s", s.PathString())
		}
		return
	}
	c.r.Count("images used", 1)
	if !asked || ignored && !stays {
		c.r.Bad("media:"+FnName(c.fn), at, "an image is used although its type may be one to leave out; path %s", s.PathString())
	}
}

// reason: the fact is about something that decides whether a text is unwanted.
func reason(f *Term) bool {
	switch f.op {
	case "in", "prefixed":
		return cleanLists[f.name]
	}
	if isColon(f) || isBracket(f) {
		return true
	}
	if callNamed(f, "strings.HasPrefix") {
		k, ok := f.args[1].StrVal()
		return ok && (k == "[[" || k == "{{")
	}
	if f.op == "==" {
		for i, a := range f.args {
			o := f.args[1-i]
			if k, ok := a.StrVal(); ok && (k == "[[" || k == "{{" || k == "") {
				return true
			}
			if a.IsNilConst() && o.Any(func(x *Term) bool { return x.op == "call" && strings.Contains(x.name, "FindString") }) {
				return true
			}
		}
	}
	if f.op == "==" || f.op == "<" || f.op == "<=" {
		for _, a := range f.args {
			if placeOf(a) || a.op == "len" && a.Any(func(x *Term) bool {
				return x.op == "call" && (strings.Contains(x.name, "Split") || strings.Contains(x.name, "FindString"))
			}) {
				return true
			}
		}
	}
	return false
}

// placeOf: the term is a place in the text plus a constant.
func placeOf(t *Term) bool {
	if t.op == "position" {
		return true
	}
	if t.op == "index" && len(t.args) > 0 && t.args[0].op == "call" && strings.Contains(t.args[0].name, "Index") {
		return true
	}
	if t.op == "+" || t.op == "-" {
		for _, a := range t.args {
			if placeOf(a) {
				return true
			}
		}
	}
	return t.op == "call" && strings.Contains(t.name, "strings.Index")
}

func (c *cleanCheck) judge() {
	for _, k := range c.kept {
		for _, rm := range c.rms[k.group] {
			ok := false
			for f, v := range rm {
				if w, has := k.facts[f]; has && w != v && reason(f) {
					ok = true
					break
				}
			}
			if !ok {
				c.r.Bad("kept:"+FnName(c.fn), k.at, "the text may stay although it is unwanted: nothing on this way decides against removing it; path %s", k.path)
				break
			}
		}
	}
}
