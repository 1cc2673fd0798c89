package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID:    "C14",
		Title: "The book contains every article of the project once, in the given order",
		Rule:  "every list of pages given to a generator has one slot per listed article; slot i is filled exactly once, with the page made from article i, by a worker loop that takes every item; the producer sends every index once and closes the channel; the creator waits for all workers; the page of an article is never missing for any output type; and the generators use every page of the list once and in order",
		Run:   runC14,
	})
}

type orderCheck struct {
	p     *Program
	r     *Report
	makes map[*ssa.Function]bool // functions making the page of an article
}

func inPkg(fn *ssa.Function, name string) bool {
	if fn == nil {
		return false
	}
	if fn.Pkg == nil {
		// a wrapper of a promoted method
		return fn.Object() != nil && fn.Object().Pkg() != nil && fn.Object().Pkg().Path() == modPath+"/"+name
	}
	return fn.Pkg.Pkg.Path() == modPath+"/"+name
}

func isStrings(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.String
}

func runC14(p *Program, r *Report) {
	o := &orderCheck{p: p, r: r, makes: map[*ssa.Function]bool{}}
	lists := map[ssa.Value]bool{}
	consumers := map[*ssa.Parameter]bool{}
	pool := false
	for _, fn := range p.Funcs {
		if inPkg(fn, "generator") {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				for _, t := range p.repoCallees(call.Common()) {
					if !inPkg(t, "generator") {
						continue
					}
					args := call.Common().Args
					for i, q := range t.Params {
						if i >= len(args) || !isStrings(q.Type()) {
							continue
						}
						r.Count("lists given to generators", 1)
						consumers[q] = true
						l := p.resolve(args[i])
						if lists[l] {
							continue
						}
						lists[l] = true
						if o.list(fn, in, l) {
							pool = true
						}
					}
				}
			}
		}
	}
	r.AtLeast("lists given to generators", 2)
	if !pool {
		r.Bad("no-pool", "src/main.go", "no list with one page per article of the project is given to a generator")
	}
	o.pages()
	for q := range consumers {
		o.consumer(q, map[*ssa.Parameter]bool{})
	}
	r.AtLeast("uses of every page", 2)
	o.projectArticles()
	// the list is only used after all workers are finished
	starts := goStarts(p)
	if len(starts) > 0 {
		f := p.sharedMemory(starts)
		locks := p.Locks()
		for _, g := range starts {
			checkCreator(p, r, f, g, locks)
		}
		checkEarlyDone(p, r, f)
		o.waitGroups(starts)
	}
}

// list checks how a list of pages is built; it reports whether it is the list of a project's pages.
func (o *orderCheck) list(fn *ssa.Function, at ssa.Instruction, l ssa.Value) bool {
	switch u := l.(type) {
	case *ssa.MakeSlice:
		o.slots(u)
		return true
	case *ssa.Slice:
		if al, ok := u.X.(*ssa.Alloc); ok && u.Low == nil && u.High == nil {
			// a literal: the page of a single article
			for _, ref := range *al.Referrers() {
				ia, ok := ref.(*ssa.IndexAddr)
				if !ok {
					continue
				}
				for _, s := range *ia.Referrers() {
					if st, ok := s.(*ssa.Store); ok && st.Addr == ssa.Value(ia) {
						o.r.Count("pages in literal lists", 1)
						o.leaves(st.Parent(), st.Val, st, nil)
					}
				}
			}
			return false
		}
	case *ssa.Phi:
		if o.appended(u) {
			return true
		}
	}
	what := "a value that is not recognised as the list of pages"
	switch u := l.(type) {
	case *ssa.Slice:
		what = "only a part of the list of pages"
	case *ssa.Call:
		what = "the result of " + CalleeKey(&u.Call)
	}
	o.r.Bad("list:"+FnName(fn), o.p.At(at), "%s gives %s to the generator", FnName(fn), what)
	return false
}

// items: the list of articles a list of pages has been sized by.
func (o *orderCheck) items(n ssa.Value) (ssa.Value, string) {
	n = o.p.resolve(n)
	if c, ok := n.(*ssa.Call); ok {
		if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			x := o.p.resolve(c.Call.Args[0])
			return x, o.p.vkey(x)
		}
	}
	return nil, ""
}

func (o *orderCheck) isProjectArticles(x ssa.Value) bool {
	ld, ok := x.(*ssa.UnOp)
	if !ok || ld.Op != token.MUL {
		return false
	}
	fa, ok := ld.X.(*ssa.FieldAddr)
	if !ok {
		return false
	}
	fv := fieldVar(fa.X.Type(), fa.Field)
	return fv != nil && fv.Name() == "Articles"
}

// slots checks a list with one slot per article.
func (o *orderCheck) slots(s *ssa.MakeSlice) {
	p, r := o.p, o.r
	name := FnName(s.Parent())
	x, xk := o.items(s.Len)
	if x == nil || !o.isProjectArticles(x) {
		r.Bad("slots:"+name, p.At(s), "the list of pages does not have one slot per article of the project")
		return
	}
	stores := 0
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				o.useOfList(fn, in, s)
				o.useOfItems(fn, in, x, xk)
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				ia, ok := st.Addr.(*ssa.IndexAddr)
				if !ok || p.resolve(ia.X) != ssa.Value(s) {
					continue
				}
				stores++
				r.Count("slots filled", 1)
				o.fill(fn, st, ia, xk, s)
			}
		}
	}
	if stores != 1 {
		r.Bad("fill:"+name, p.At(s), "the slots of the list of pages are filled at %d places", stores)
	}
}

// useOfList: the list of pages is not changed other than by filling its slots.
func (o *orderCheck) useOfList(fn *ssa.Function, in ssa.Instruction, s ssa.Value) {
	p := o.p
	for _, op := range in.Operands(nil) {
		if *op == nil || !isStrings((*op).Type()) || p.resolve(*op) != s {
			continue
		}
		o.harmless(fn, in, *op, "pages", false)
	}
}

// useOfItems: the list of articles is only read.
func (o *orderCheck) useOfItems(fn *ssa.Function, in ssa.Instruction, x ssa.Value, xk string) {
	p := o.p
	for _, op := range in.Operands(nil) {
		if *op == nil || !isStrings((*op).Type()) || p.vkey(*op) != xk {
			continue
		}
		o.harmless(fn, in, *op, "articles", true)
	}
}

// harmless reports uses of a list that can change its elements or their order.
func (o *orderCheck) harmless(fn *ssa.Function, in ssa.Instruction, l ssa.Value, what string, readOnly bool) {
	p, r := o.p, o.r
	switch i := in.(type) {
	case *ssa.IndexAddr:
		if readOnly {
			for _, ref := range *i.Referrers() {
				if st, ok := ref.(*ssa.Store); ok && st.Addr == ssa.Value(i) {
					r.Bad("changed:"+what+":"+FnName(fn), p.At(st), "%s changes the list of %s", FnName(fn), what)
				}
			}
		}
		return
	case *ssa.Slice:
		if i.Low != nil || i.High != nil {
			r.Bad("part:"+what+":"+FnName(fn), p.At(in), "%s uses only a part of the list of %s", FnName(fn), what)
		}
		return
	case ssa.CallInstruction:
		c := i.Common()
		if b, ok := c.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "len", "cap":
				return
			case "append", "copy":
				if c.Args[0] != l {
					return
				}
			}
			r.Bad("changed:"+what+":"+FnName(fn), p.At(in), "%s changes the list of %s with %s", FnName(fn), what, b.Name())
			return
		}
		if k := CalleeKey(c); mutatesArg(k) {
			r.Bad("changed:"+what+":"+FnName(fn), p.At(in), "%s changes the list of %s with %s", FnName(fn), what, k)
		}
	}
}

// intake describes how a worker got the index of the slot it fills.
type intake struct {
	send *ssa.Send
	loop *counting
}

// indexOf follows the index of a slot to the loop that runs over all articles.
func (o *orderCheck) indexOf(v ssa.Value) (out intake) {
	p := o.p
	for i := 0; i < 20; i++ {
		var ch ssa.Value
		switch u := v.(type) {
		case *ssa.UnOp:
			if u.Op == token.ARROW {
				ch = u.X
			}
		case *ssa.Extract:
			if t, ok := u.Tuple.(*ssa.UnOp); ok && t.Op == token.ARROW {
				ch = t.X
			}
		case *ssa.Field:
			if o.received(u.X) != nil {
				ch = o.received(u.X)
			}
		}
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
			if fa, ok := u.X.(*ssa.FieldAddr); ok {
				if c := o.received(fa.X); c != nil {
					ch = c
				} else if st := p.onlyStore(fa.X); st != nil {
					ch = o.received(st)
				}
			}
		}
		if ch != nil && out.send == nil {
			out.send = p.onlySend(ch)
		}
		n := p.resolveStep(v)
		if n == nil {
			break
		}
		v = n
	}
	out.loop = countingLoop(v)
	return
}

func (o *orderCheck) received(v ssa.Value) ssa.Value {
	switch u := v.(type) {
	case *ssa.UnOp:
		if u.Op == token.ARROW {
			return u.X
		}
		if u.Op == token.MUL {
			if st := o.p.onlyStore(u.X); st != nil {
				return o.received(st)
			}
		}
	case *ssa.Extract:
		if t, ok := u.Tuple.(*ssa.UnOp); ok && t.Op == token.ARROW {
			return t.X
		}
	case *ssa.Alloc:
		if st := o.p.onlyStore(u); st != nil {
			return o.received(st)
		}
	}
	return nil
}

func (o *orderCheck) fill(fn *ssa.Function, st *ssa.Store, ia *ssa.IndexAddr, xk string, s *ssa.MakeSlice) {
	p, r := o.p, o.r
	name := FnName(fn)
	ik := p.vkey(ia.Index)
	item := "*" + xk + "[" + ik + "]"
	in := o.indexOf(ia.Index)
	if in.loop == nil || p.vkey(in.loop.bound) != p.vkey(s.Len) {
		r.Bad("index:"+name, p.At(st), "%s fills a slot of the list of pages by an index that does not run over all articles", name)
		return
	}
	// the page of article i goes into slot i
	o.value(fn, st, st.Val, item)
	if why, at := o.always(st, 0); why != "" {
		r.Bad("skip:"+name, p.At(at), "%s: %s, so that the slot of an article stays empty", FnName(at.Parent()), why)
	}
	if in.send != nil {
		o.producer(in, xk)
	}
	r.Sample("slot %s filled in %s by the page of the article with the same index", ik, name)
}

func (o *orderCheck) value(fn *ssa.Function, at ssa.Instruction, v ssa.Value, item string) {
	p, r := o.p, o.r
	v = p.resolve(v)
	if ex, ok := v.(*ssa.Extract); ok {
		v = ex.Tuple
	}
	if ph, ok := v.(*ssa.Phi); ok {
		for _, e := range ph.Edges {
			o.value(fn, at, e, item)
		}
		return
	}
	call, ok := v.(*ssa.Call)
	if !ok {
		r.Bad("page:"+FnName(fn), p.At(at), "%s fills a slot of the list of pages with a value that is not the page made from an article", FnName(fn))
		return
	}
	for _, a := range call.Call.Args {
		if p.vkey(a) == item {
			for _, t := range p.repoCallees(&call.Call) {
				o.makes[t] = true
			}
			return
		}
	}
	r.Bad("item:"+FnName(fn), p.At(at), "%s fills slot i of the list of pages with the result of %s, which has not been given article i", FnName(fn), short(CalleeKey(&call.Call)))
}

// always: the instruction is reached for every item a worker takes. It returns what prevents that.
func (o *orderCheck) always(in ssa.Instruction, depth int) (string, ssa.Instruction) {
	p := o.p
	fn := in.Parent()
	b := in.Block()
	loops := loopsOf(fn)
	last := func(x *ssa.BasicBlock) ssa.Instruction { return x.Instrs[len(x.Instrs)-1] }
	if l := innermost(loops, b); l != nil {
		for _, t := range l.latches {
			if !b.Dominates(t) {
				return "an item is skipped", last(t)
			}
		}
		for _, e := range l.exits() {
			if endsProgram(e[1], map[*ssa.BasicBlock]bool{}) || o.channelClosed(l, e) {
				continue
			}
			if c := countingOf(l); c != nil && c.regular(e) {
				continue
			}
			return "the loop over the items is left before all are taken", last(e[0])
		}
		// the loop itself is always reached
		b = l.head
	}
	for _, x := range fn.Blocks {
		if _, ok := last(x).(*ssa.Return); ok && !b.Dominates(x) && !o.inRecover(fn, x) {
			return "it can return without handling the item", last(x)
		}
	}
	if depth > 5 {
		return "calls are nested too deeply", in
	}
	sites, ok := p.sitesOf(fn)
	if !ok || len(sites) == 0 {
		return "", in
	}
	for _, s := range sites {
		if _, isGo := s.(*ssa.Go); isGo {
			if l := innermost(loopsOf(s.Parent()), s.Block()); l != nil && !l.everyIteration(s.Block()) {
				return "a worker is not always started", s
			}
			continue
		}
		if strings.HasSuffix(CalleeKey(s.Common()), ".Go") {
			continue
		}
		if innermost(loopsOf(s.Parent()), s.Block()) == nil && !o.isWorker(s.Parent()) {
			continue
		}
		if why, at := o.always(s, depth+1); why != "" {
			return why, at
		}
	}
	return "", in
}

func (o *orderCheck) inRecover(fn *ssa.Function, b *ssa.BasicBlock) bool { return fn.Recover == b }

// isWorker: the function is run by goroutines.
func (o *orderCheck) isWorker(fn *ssa.Function) bool {
	for _, g := range goStarts(o.p) {
		if g.fn == fn {
			return true
		}
	}
	return false
}

// channelClosed: the edge leaves the loop because the channel of work is closed and empty.
func (o *orderCheck) channelClosed(l *natLoop, e [2]*ssa.BasicBlock) bool {
	iff, ok := e[0].Instrs[len(e[0].Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	cond, neg := iff.Cond, false
	if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
		cond, neg = u.X, true
	}
	ex, ok := cond.(*ssa.Extract)
	if !ok || ex.Index != 1 {
		return false
	}
	rc, ok := ex.Tuple.(*ssa.UnOp)
	if !ok || rc.Op != token.ARROW || !l.blocks[rc.Block()] {
		return false
	}
	return e[0].Succs[1] == e[1] && !neg || e[0].Succs[0] == e[1] && neg
}

// producer: every index is sent exactly once, and the channel is closed afterwards.
func (o *orderCheck) producer(in intake, xk string) {
	p, r := o.p, o.r
	s, c := in.send, in.loop
	name := FnName(s.Parent())
	r.Count("work items sent", 1)
	if s.Parent() != c.head.Parent() {
		r.Bad("producer:"+name, p.At(s), "%s sends work items outside of the loop over the articles", name)
		return
	}
	loops := loopsOf(s.Parent())
	if l := innermost(loops, s.Block()); l == nil || l.head != c.head {
		r.Bad("producer:"+name, p.At(s), "%s does not send each work item exactly once", name)
	}
	if !c.everyIteration(s.Block()) {
		r.Bad("producer-skip:"+name, p.At(s), "%s does not send a work item for each article", name)
	}
	for _, e := range c.exits() {
		if !c.regular(e) && !endsProgram(e[1], map[*ssa.BasicBlock]bool{}) {
			r.Bad("producer-stop:"+name, p.At(e[0].Instrs[len(e[0].Instrs)-1]), "%s can stop sending work items before all articles are sent", name)
		}
	}
	for _, l := range loops {
		if l.head != c.head && l.blocks[c.head] {
			r.Bad("producer-twice:"+name, p.At(s), "%s runs the loop sending work items repeatedly", name)
		}
	}
	// closed once everything is sent
	ck := p.vkey(s.Chan)
	closes := 0
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if bi, ok := call.Common().Value.(*ssa.Builtin); !ok || bi.Name() != "close" || p.vkey(call.Common().Args[0]) != ck {
					continue
				}
				closes++
				if _, isDefer := in.(*ssa.Defer); isDefer {
					if fn != s.Parent() {
						r.Bad("close:"+FnName(fn), p.At(in), "%s closes the channel of work items independent of the loop sending them", FnName(fn))
					}
					continue
				}
				if fn == s.Parent() && (c.blocks[b] || !c.head.Dominates(b)) {
					r.Bad("close:"+name, p.At(in), "%s closes the channel of work items before all are sent", name)
				}
			}
		}
	}
	if closes != 1 {
		r.Bad("close:"+name, p.At(s), "the channel of work items is closed at %d places: the workers do not end properly", closes)
	}
}

// waitGroups: the creator waits for as many ends as there are workers.
func (o *orderCheck) waitGroups(starts []goStart) {
	p, r := o.p, o.r
	for _, g := range starts {
		if _, isGo := g.site.(*ssa.Go); !isGo {
			continue // WaitGroup.Go counts itself
		}
		gl := innermost(loopsOf(g.site.Parent()), g.site.Block())
		gb := countingOf(gl)
		// the worker's announcements of its end
		type ann struct {
			in   ssa.Instruction
			loop bool
			wg   string
		}
		var anns []ann
		seen := map[*ssa.Function]bool{}
		var walk func(fn *ssa.Function, loop bool)
		walk = func(fn *ssa.Function, loop bool) {
			if seen[fn] {
				return
			}
			seen[fn] = true
			loops := loopsOf(fn)
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					call, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					if _, isGo := in.(*ssa.Go); isGo {
						continue
					}
					l := loop || innermost(loops, b) != nil
					if CalleeKey(call.Common()) == "(*sync.WaitGroup).Done" {
						anns = append(anns, ann{in, l, p.vkey(call.Common().Args[0])})
						continue
					}
					for _, t := range p.repoCallees(call.Common()) {
						walk(t, l)
					}
				}
			}
		}
		walk(g.fn, false)
		if len(anns) == 0 {
			continue // not waited for by a wait group: decided by the creator rules
		}
		at := g.site
		if len(anns) > 1 {
			r.Bad("done:"+FnName(g.fn), p.At(anns[1].in), "%s announces its end at %d places", FnName(g.fn), len(anns))
			continue
		}
		a := anns[0]
		// always announced
		if _, isDefer := a.in.(*ssa.Defer); !isDefer || a.in.Parent() != g.fn {
			for _, b := range a.in.Parent().Blocks {
				if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && !a.loop && !a.in.Block().Dominates(b) && a.in.Parent().Recover != b {
					r.Bad("done-missed:"+FnName(a.in.Parent()), p.At(ret), "%s can end without announcing it, so that the creator waits forever", FnName(a.in.Parent()))
				}
			}
		}
		// as many as announced by Add
		found := false
		for _, fn := range p.Funcs {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					call, ok := in.(*ssa.Call)
					if !ok || CalleeKey(&call.Call) != "(*sync.WaitGroup).Add" || p.vkey(call.Call.Args[0]) != a.wg {
						continue
					}
					found = true
					r.Count("wait group sizes", 1)
					n := call.Call.Args[1]
					if seen[fn] {
						r.Bad("add-late:"+FnName(fn), p.At(in), "a worker adds itself to the wait group, possibly after the creator stopped waiting")
						continue
					}
					if v, ok := constInt(n); ok {
						l := innermost(loopsOf(fn), b)
						inGo := l != nil && gl != nil && l.head == gl.head || l == nil && gl == nil
						if v == 1 && inGo && !a.loop && b.Dominates(g.site.Block()) {
							continue
						}
					} else if gb != nil && !a.loop && p.vkey(n) == p.vkey(gb.bound) && gb.everyIteration(g.site.Block()) && innermost(loopsOf(fn), b) == nil {
						continue
					} else if x, _ := o.items(n); a.loop && x != nil && o.isProjectArticles(x) {
						continue
					}
					r.Bad("add:"+FnName(fn), p.At(in), "the wait group is not set to the number of workers started at %s", p.At(at))
				}
			}
		}
		if !found {
			r.Bad("add:"+FnName(g.fn), p.At(a.in), "%s announces its end to a wait group nothing was added to", FnName(g.fn))
		}
	}
}

// appended: the list is built by appending one page per article, one after the other.
func (o *orderCheck) appended(ph *ssa.Phi) bool {
	p := o.p
	l := loopsOf(ph.Parent())[ph.Block()]
	if l == nil {
		return false
	}
	for i, e := range ph.Edges {
		if !l.blocks[ph.Block().Preds[i]] {
			continue
		}
		call, ok := e.(*ssa.Call)
		if !ok {
			return false
		}
		if b, ok := call.Call.Value.(*ssa.Builtin); !ok || b.Name() != "append" || call.Call.Args[0] != ssa.Value(ph) {
			return false
		}
		c := countingOf(l)
		if c == nil {
			return false
		}
		x, xk := o.items(c.bound)
		if x == nil || !o.isProjectArticles(x) || !c.everyIteration(call.Block()) {
			return false
		}
		for _, ex := range c.exits() {
			if !c.regular(ex) && !endsProgram(ex[1], map[*ssa.BasicBlock]bool{}) {
				return false
			}
		}
		sl, ok := call.Call.Args[1].(*ssa.Slice)
		if !ok {
			return false
		}
		al, ok := sl.X.(*ssa.Alloc)
		if !ok {
			return false
		}
		for _, ref := range *al.Referrers() {
			if ia, ok := ref.(*ssa.IndexAddr); ok {
				for _, s := range *ia.Referrers() {
					if st, ok := s.(*ssa.Store); ok {
						o.value(st.Parent(), st, st.Val, "*"+xk+"["+p.vkey(c.index)+"]")
					}
				}
			}
		}
	}
	return true
}

// pages: for every output type the functions making pages return a page.
func (o *orderCheck) pages() {
	p := o.p
	ci := configOf(p, o.r)
	done := map[string]bool{}
	for _, c := range optionCombos() {
		name := c["OutputType"]
		if done[name] {
			continue
		}
		done[name] = true
		for _, cmd := range commandFns(p, "Run", "RunE") {
			x := p.RunSCCP([]*ssa.Function{cmd}, ci.comboEnv(c))
			reached := x.Reached(cmd)
			for fn := range o.makes {
				if !reached[fn] {
					continue
				}
				o.r.Count("page makers x output types", 1)
				for _, b := range fn.Blocks {
					if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && x.Live(ret) {
						o.leaves(fn, retVal(ret, 0), ret, &liveIn{x, name})
					}
				}
			}
		}
	}
	o.r.AtLeast("page makers x output types", 4)
}

type liveIn struct {
	x    *SCCP
	name string
}

// leaves checks that each value the page path can have is the path of a page.
func (o *orderCheck) leaves(fn *ssa.Function, v ssa.Value, at ssa.Instruction, lv *liveIn) {
	p, r := o.p, o.r
	name := ""
	if lv != nil {
		name = " with output type " + lv.name
	}
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value, fn *ssa.Function, depth int)
	walk = func(v ssa.Value, fn *ssa.Function, depth int) {
		if seen[v] {
			return
		}
		seen[v] = true
		if ph, ok := v.(*ssa.Phi); ok {
			for i, e := range ph.Edges {
				if lv != nil {
					pred := ph.Block().Preds[i]
					live := false
					for _, s := range lv.x.succs(pred) {
						if s == ph.Block() && lv.x.blocks[pred] {
							live = true
						}
					}
					if !live {
						continue
					}
				}
				walk(e, fn, depth)
			}
			return
		}
		switch u := v.(type) {
		case *ssa.Const:
			r.Bad("no-page:"+FnName(fn), p.At(at), "%s can return %s instead of the page of the article%s", FnName(fn), u.String(), name)
			return
		case *ssa.UnOp:
			if al, ok := u.X.(*ssa.Alloc); ok && u.Op == token.MUL {
				n := 0
				p.addrUses(al, func(in ssa.Instruction, a ssa.Value) bool {
					if st, ok := in.(*ssa.Store); ok && st.Addr == a && (lv == nil || lv.x.Live(st)) {
						n++
						walk(st.Val, fn, depth)
					}
					return true
				})
				if n > 0 {
					return
				}
			}
		case *ssa.Extract, *ssa.Call:
			i := 0
			t := u
			if ex, ok := u.(*ssa.Extract); ok {
				i = ex.Index
				t = ex.Tuple
			}
			call, ok := t.(*ssa.Call)
			if !ok {
				break
			}
			o.r.Count("sources of pages", 1)
			for _, t := range p.repoCallees(&call.Call) {
				if inPkg(t, "generator") && i == 0 && t.Signature.Results().Len() == 2 {
					return // generated
				}
			}
			if o.existing(fn, v, at, lv) {
				return
			}
			if depth < 3 {
				for _, t := range p.repoCallees(&call.Call) {
					any := false
					for _, b := range t.Blocks {
						if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && (lv == nil || lv.x.Live(ret)) {
							any = true
							walk(retVal(ret, i), t, depth+1)
						}
					}
					if any {
						return
					}
				}
			}
		}
		if o.existing(fn, v, at, lv) {
			return
		}
		r.Bad("page-source:"+FnName(fn), p.At(at), "%s can return %s, which is neither a generated page nor a page found to exist%s", FnName(fn), describe(v), name)
	}
	walk(v, fn, 0)
}

func describe(v ssa.Value) string {
	switch u := v.(type) {
	case *ssa.Call:
		return "the result of " + short(CalleeKey(&u.Call))
	case *ssa.Extract:
		return describe(u.Tuple)
	case *ssa.Parameter:
		return "its parameter " + u.Name()
	case *ssa.BinOp:
		return "a computed path"
	}
	return fmt.Sprintf("a %T", v)
}

// existing: the path was found to exist, by a function that decides about it before.
func (o *orderCheck) existing(fn *ssa.Function, v ssa.Value, at ssa.Instruction, lv *liveIn) bool {
	p := o.p
	k := p.vkey(v)
	for _, b := range fn.Blocks {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		var asks func(c ssa.Value, d int) bool
		asks = func(c ssa.Value, d int) bool {
			if d > 4 {
				return false
			}
			switch u := c.(type) {
			case *ssa.UnOp:
				return asks(u.X, d+1)
			case *ssa.BinOp:
				return asks(u.X, d+1) || asks(u.Y, d+1)
			case *ssa.Extract:
				return asks(u.Tuple, d+1)
			case *ssa.Phi:
				for _, e := range u.Edges {
					if asks(e, d+1) {
						return true
					}
				}
			case *ssa.Call:
				stat := strings.HasSuffix(CalleeKey(&u.Call), "Stat")
				if !stat {
					for _, t := range p.repoCallees(&u.Call) {
						if reachesStat(p, t) {
							stat = true
						}
					}
				}
				if stat {
					for _, a := range u.Call.Args {
						if p.vkey(a) == k {
							return true
						}
					}
				}
			}
			return false
		}
		if asks(iff.Cond, 0) {
			return true
		}
	}
	return false
}

func reachesStat(p *Program, fn *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var walk func(fn *ssa.Function) bool
	walk = func(fn *ssa.Function) bool {
		if seen[fn] {
			return false
		}
		seen[fn] = true
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c := callOf(in); c != nil {
					if strings.HasSuffix(CalleeKey(c), "Stat") {
						return true
					}
					for _, t := range p.repoCallees(c) {
						if walk(t) {
							return true
						}
					}
				}
			}
		}
		return false
	}
	return walk(fn)
}

// consumer: a generator uses every page of its list once and in order.
func (o *orderCheck) consumer(q *ssa.Parameter, seen map[*ssa.Parameter]bool) {
	if seen[q] {
		return
	}
	seen[q] = true
	p, r := o.p, o.r
	fn := q.Parent()
	name := FnName(fn)
	used := 0
	alias := map[ssa.Value]bool{ssa.Value(q): true}
	for changed := true; changed; {
		changed = false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				v, ok := in.(ssa.Value)
				if !ok || alias[v] {
					continue
				}
				switch i := in.(type) {
				case *ssa.ChangeType:
					if alias[i.X] {
						alias[v], changed = true, true
					}
				case *ssa.Slice:
					if alias[i.X] && i.Low == nil && i.High == nil {
						alias[v], changed = true, true
					}
				case *ssa.Call:
					if CalleeKey(&i.Call) == "slices.Clone" && alias[i.Call.Args[0]] {
						alias[v], changed = true, true
					}
				}
			}
		}
	}
	isAlias := func(v ssa.Value) bool {
		if alias[v] {
			return true
		}
		return isStrings(v.Type()) && p.resolveLocal(v) == ssa.Value(q)
	}
	bad := func(in ssa.Instruction, format string, args ...any) {
		r.Bad("consumer:"+name, p.At(in), "%s %s", name, fmt.Sprintf(format, args...))
	}
	loopsDone := map[*ssa.BasicBlock]bool{}
	for _, f := range withClosures(fn) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if *op == nil || !isAlias(*op) {
						continue
					}
					switch i := in.(type) {
					case *ssa.IndexAddr:
						for _, ref := range *i.Referrers() {
							if st, ok := ref.(*ssa.Store); ok && st.Addr == ssa.Value(i) {
								bad(in, "changes the list of pages")
							}
						}
						c := countingLoop(i.Index)
						if c == nil {
							if _, isConst := i.Index.(*ssa.Const); isConst {
								continue // reading a single element adds nothing to the output by itself
							}
							bad(in, "does not run over the list of pages from the first to the last")
							continue
						}
						bk := p.resolve(c.bound)
						lc, ok := bk.(*ssa.Call)
						if !ok || len(lc.Call.Args) != 1 || !isAlias(lc.Call.Args[0]) {
							bad(in, "does not run over all pages of the list")
							continue
						}
						if !loopsDone[c.head] {
							loopsDone[c.head] = true
							if o.useAll(fn, c, i, bad) {
								used++
							}
						}
					case *ssa.Slice:
						if i.Low != nil || i.High != nil {
							bad(in, "uses only a part of the list of pages")
						}
					case *ssa.Phi:
						bad(in, "can use another list instead of the list of pages")
					case ssa.CallInstruction:
						c := i.Common()
						k := CalleeKey(c)
						if bi, ok := c.Value.(*ssa.Builtin); ok {
							switch bi.Name() {
							case "len", "cap":
							case "append":
								if len(c.Args) == 2 && isAlias(c.Args[1]) {
									if o.flowsIntoCall(in.(ssa.Value)) {
										used++
									} else {
										bad(in, "does not use the list it added the pages to")
									}
								}
							default:
								bad(in, "changes the list of pages with %s", bi.Name())
							}
							continue
						}
						if isLogCall(k) || k == "slices.Clone" {
							continue
						}
						if mutatesArg(k) {
							bad(in, "changes the list of pages with %s", k)
							continue
						}
						handed := false
						for _, t := range p.repoCallees(c) {
							args := c.Args
							for j, a := range args {
								if isAlias(a) && j < len(t.Params) {
									handed = true
									o.consumer(t.Params[j], seen)
								}
							}
						}
						if handed {
							used++
						}
					}
				}
			}
		}
	}
	if used == 0 {
		r.Bad("unused:"+name, p.Pos(fn.Pos()), "%s does not use the pages it is given", name)
	}
	r.Count("uses of every page", used)
}

func withClosures(fn *ssa.Function) []*ssa.Function {
	out := []*ssa.Function{fn}
	for _, a := range fn.AnonFuncs {
		out = append(out, withClosures(a)...)
	}
	return out
}

// resolveLocal follows a value through local variables and captured variables only.
func (p *Program) resolveLocal(v ssa.Value) ssa.Value {
	for i := 0; i < 10; i++ {
		switch v.(type) {
		case *ssa.Parameter:
			return v
		}
		n := p.resolveStep(v)
		if n == nil {
			return v
		}
		v = n
	}
	return v
}

// flowsIntoCall: the value is (eventually) an argument of a call that is not a log message.
func (o *orderCheck) flowsIntoCall(v ssa.Value) bool {
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value) bool
	walk = func(v ssa.Value) bool {
		if seen[v] {
			return false
		}
		seen[v] = true
		refs := v.Referrers()
		if refs == nil {
			return false
		}
		for _, in := range *refs {
			switch i := in.(type) {
			case *ssa.Call:
				if b, ok := i.Call.Value.(*ssa.Builtin); ok {
					if b.Name() == "append" && walk(i) {
						return true
					}
					continue
				}
				if !isLogCall(CalleeKey(&i.Call)) {
					return true
				}
			case *ssa.Store:
				if al, ok := i.Addr.(*ssa.Alloc); ok {
					for _, ref := range *al.Referrers() {
						if ld, ok := ref.(*ssa.UnOp); ok && walk(ld) {
							return true
						}
					}
				} else {
					return true
				}
			case *ssa.Return:
				return true
			case *ssa.Phi, *ssa.Slice, *ssa.ChangeType, *ssa.MakeInterface:
				if walk(in.(ssa.Value)) {
					return true
				}
			}
		}
		return false
	}
	return walk(v)
}

// useAll: each iteration of the loop over the pages uses the page.
func (o *orderCheck) useAll(fn *ssa.Function, c *counting, elem *ssa.IndexAddr, bad func(in ssa.Instruction, format string, args ...any)) bool {
	p := o.p
	last := func(x *ssa.BasicBlock) ssa.Instruction { return x.Instrs[len(x.Instrs)-1] }
	// the only other ways out are errors
	for _, e := range c.exits() {
		if c.regular(e) || endsProgram(e[1], map[*ssa.BasicBlock]bool{}) || onlyErrors(e[1], map[*ssa.BasicBlock]bool{}) {
			continue
		}
		bad(last(e[0]), "can stop before the last page")
	}
	isElem := func(v ssa.Value) bool {
		ia, ok := v.(*ssa.IndexAddr)
		return ok && countingSame(ia.Index, c) && p.vkey(ia.X) == p.vkey(elem.X)
	}
	loops := loopsOf(fn)
	used := false
	for b := range c.blocks {
		for _, in := range b.Instrs {
			isUse := ""
			switch i := in.(type) {
			case *ssa.Call:
				if _, isB := i.Call.Value.(*ssa.Builtin); isB {
					break
				}
				k := CalleeKey(&i.Call)
				if isLogCall(k) || strings.HasPrefix(k, "errors.") || strings.HasPrefix(k, "fmt.") || strings.HasPrefix(k, "github.com/pkg/errors.") {
					break
				}
				args := i.Call.Args
				var recv ssa.Value
				if i.Call.IsInvoke() {
					recv = i.Call.Value
				} else if i.Call.Signature().Recv() != nil && len(args) > 0 {
					recv, args = args[0], args[1:]
				}
				if recv == nil {
					for _, t := range p.repoCallees(&i.Call) {
						for j, q := range t.Params {
							if _, ptr := q.Type().Underlying().(*types.Pointer); ptr && j < len(args) && !o.insideLoop(args[j], c) {
								recv = args[j]
							}
						}
					}
				}
				// adds to an object that exists beyond the loop
				if recv == nil || o.insideLoop(recv, c) || isPureExternal(k) {
					break
				}
				for _, a := range args {
					if derives(a, isElem, map[ssa.Value]bool{}) {
						isUse = "method " + k
					}
				}
			case *ssa.Store:
				if o.outerAddr(i.Addr, c) && derivesMem(p, i.Val, isElem) {
					isUse = "store"
				}
			case *ssa.MapUpdate:
				if !o.insideLoop(i.Map, c) && derivesMem(p, i.Value, isElem) {
					isUse = "map"
				}
			}
			if isUse == "" {
				continue
			}
			l := innermost(loops, b)
			if l == nil || l.head != c.head {
				continue
			}
			if !c.everyIteration(b) {
				// error paths aside, the page is not always used
				bad(in, "does not use every page of the list (%s)", isUse)
				continue
			}
			o.r.Sample("%s uses every page by %s at %s", FnName(fn), isUse, p.At(in))
			used = true
		}
	}
	// a list of its own: appended in each iteration
	for b := range c.blocks {
		for _, in := range b.Instrs {
			if call, ok := in.(*ssa.Call); ok {
				if bi, ok := call.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" && len(call.Call.Args) == 2 && derivesMem(p, call.Call.Args[1], isElem) {
					if l := innermost(loops, b); l == nil || l.head != c.head {
						continue
					}
					if !c.everyIteration(b) {
						bad(in, "does not use every page of the list (append)")
						continue
					}
					if o.flowsIntoCall(call) {
						used = true
					}
				}
			}
		}
	}
	return used
}

// countingSame: the value is the index of the counting loop.
func countingSame(v ssa.Value, c *counting) bool {
	k := countingLoop(v)
	return k != nil && k.head == c.head
}

// onlyErrors: every way from the block returns an error or ends the program.
func onlyErrors(b *ssa.BasicBlock, seen map[*ssa.BasicBlock]bool) bool {
	if seen[b] {
		return true
	}
	seen[b] = true
	if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
		n := len(ret.Results)
		if n == 0 || !isErrorType(ret.Results[n-1].Type()) {
			return false
		}
		v := returnedValue(ret, n-1)
		if c, ok := v.(*ssa.Const); ok && c.IsNil() {
			return false
		}
		return v != nil
	}
	for _, s := range b.Succs {
		if !onlyErrors(s, seen) {
			return false
		}
	}
	return len(b.Succs) > 0
}

func (o *orderCheck) insideLoop(v ssa.Value, c *counting) bool {
	switch u := v.(type) {
	case *ssa.UnOp:
		if u.Op == token.MUL {
			return o.insideLoop(u.X, c)
		}
	case *ssa.FieldAddr:
		return o.insideLoop(u.X, c)
	case *ssa.Field:
		return o.insideLoop(u.X, c)
	case *ssa.MakeInterface:
		return o.insideLoop(u.X, c)
	case ssa.Instruction:
		return c.blocks[u.Block()]
	}
	return false
}

func (o *orderCheck) outerAddr(a ssa.Value, c *counting) bool {
	switch u := a.(type) {
	case *ssa.FieldAddr:
		return !o.insideLoop(u.X, c)
	case *ssa.IndexAddr:
		return !o.insideLoop(u.X, c)
	}
	return false
}

// derivesMem is derives, also through structures filled by calls getting the source (such as decoding a file).
func derivesMem(p *Program, v ssa.Value, src func(ssa.Value) bool) bool {
	if derives(v, src, map[ssa.Value]bool{}) {
		return true
	}
	filled := func(v ssa.Value) bool {
		if src(v) {
			return true
		}
		al, ok := v.(*ssa.Alloc)
		if !ok {
			return false
		}
		for _, ref := range *al.Referrers() {
			var ops []ssa.Instruction
			switch i := ref.(type) {
			case *ssa.MakeInterface:
				ops = append(ops, *i.Referrers()...)
			default:
				ops = append(ops, ref)
			}
			for _, in := range ops {
				if call, ok := in.(*ssa.Call); ok {
					for _, a := range call.Call.Args {
						if derives(a, src, map[ssa.Value]bool{}) {
							return true
						}
					}
				}
				if st, ok := in.(*ssa.Store); ok && st.Addr == ssa.Value(al) && derives(st.Val, src, map[ssa.Value]bool{}) {
					return true
				}
			}
		}
		return false
	}
	return derives(v, filled, map[ssa.Value]bool{})
}

// projectArticles: the articles of a project are taken as given.
func (o *orderCheck) projectArticles() {
	p, r := o.p, o.r
	var keys []string
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				fv := fieldVar(fa.X.Type(), fa.Field)
				if fv == nil || fv.Name() != "Articles" || !isStrings(fv.Type()) {
					continue
				}
				r.Count("uses of the articles of a project", 1)
				for _, ref := range *fa.Referrers() {
					switch i := ref.(type) {
					case *ssa.Store:
						if i.Addr != ssa.Value(fa) {
							continue
						}
						v := p.resolve(i.Val)
						if sl, ok := v.(*ssa.Slice); ok && sl.Low == nil && sl.High == nil {
							continue
						}
						if _, ok := v.(*ssa.Parameter); ok {
							continue
						}
						if c, ok := v.(*ssa.Call); ok {
							if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
								continue
							}
						}
						r.Bad("articles:"+FnName(fn), p.At(i), "%s replaces the articles of the project by %s", FnName(fn), describe(v))
					case *ssa.UnOp:
						for _, use := range *i.Referrers() {
							o.harmless(fn, use, i, "articles", true)
						}
					}
				}
				keys = append(keys, FnName(fn))
			}
		}
	}
	sort.Strings(keys)
	r.AtLeast("uses of the articles of a project", 2)
}

// returnedValue is what is returned, also in functions with deferred calls, where the results are put into memory first. It
// is nil if it was put there in another block.
func returnedValue(ret *ssa.Return, i int) ssa.Value {
	v := ret.Results[i]
	ld, ok := v.(*ssa.UnOp)
	if !ok || ld.Op != token.MUL {
		return v
	}
	al, ok := ld.X.(*ssa.Alloc)
	if !ok {
		return v
	}
	var last ssa.Value
	for _, in := range ret.Block().Instrs {
		if st, ok := in.(*ssa.Store); ok && st.Addr == ssa.Value(al) {
			last = st.Val
		}
	}
	return last
}
