package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C20", Title: "External programs get every value as its own argument",
		Rule: "the program and each argument of every started process are taken apart into literal text and values, through all functions building them: the program is a setting or the first part of a command template, no shell is started, a value is inserted unchanged and alone into an argument of its own, a template is split before anything is inserted and placeholders are replaced at their position, in one go, by the value belonging to them; the error of every started process is returned on each path",
		Run:  runC20})
}

type cmdCheck struct {
	p       *Program
	r       *Report
	sh      *shaper
	ls      *lister
	seen    map[ssa.Value]bool
	pairs   map[ssa.Value]bool
	nameIdx map[ssa.Value]bool // template lists whose first part is the program
}

var processSinks = map[string]struct{ name, args int }{
	"os/exec.Command":        {0, 1},
	"os/exec.CommandContext": {1, 2},
}

func runC20(p *Program, r *Report) {
	c := &cmdCheck{p: p, r: r, seen: map[ssa.Value]bool{}, pairs: map[ssa.Value]bool{}, nameIdx: map[ssa.Value]bool{}}
	c.sh = &shaper{p: p, params: true, leaf: func(v ssa.Value) bool {
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
			if _, ok := u.X.(*ssa.IndexAddr); ok {
				return true
			}
		}
		return false
	}}
	c.ls = &lister{p: p, enter: func(q *ssa.Parameter) bool { return inAnyPkg(q.Parent(), "util", "image", "generator") }}
	for _, f := range p.Funcs {
		for _, s := range CallSites(f) {
			k := CalleeKey(s.Common())
			switch k {
			case "os.StartProcess", "syscall.Exec", "syscall.ForkExec", "syscall.StartProcess":
				r.Undecided("start:"+FnName(f), p.At(s), "a process is started by %s, for which this rule has no model", k)
				continue
			}
			sink, ok := processSinks[k]
			if !ok {
				continue
			}
			r.Count("started processes", 1)
			call, isCall := s.(*ssa.Call)
			if !isCall {
				r.Bad("start:"+FnName(f), p.At(s), "a command is built in a deferred call or goroutine, its failure cannot be reported")
				continue
			}
			c.program(call, s.Common().Args[sink.name])
			c.arguments(call, s.Common().Args[sink.args])
			c.run(call)
		}
		// a command must not be changed after it was built
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
					fv := fieldVar(fa.X.Type(), fa.Field)
					if fv != nil && fv.Pkg() != nil && fv.Pkg().Path() == "os/exec" && (fv.Name() == "Args" || fv.Name() == "Path" || fv.Name() == "SysProcAttr") {
						r.Undecided("cmd-field:"+FnName(f), p.At(st), "the arguments or the program of a command are changed after it was built (%s)", fv.Name())
					}
				}
			}
		}
	}
	r.AtLeast("started processes", 1)
	r.AtLeast("arguments", 15)
	r.AtLeast("command templates", 1)
	r.AtLeast("placeholder pairs", 3)
	r.AtLeast("paths after starting a process", 2)
}

var shells = map[string]bool{"sh": true, "bash": true, "zsh": true, "dash": true, "ksh": true, "cmd": true, "cmd.exe": true, "powershell": true, "pwsh": true, "env": true, "xargs": true, "busybox": true}

func isShell(t string) bool {
	if i := strings.LastIndexAny(t, `/\`); i >= 0 {
		t = t[i+1:]
	}
	return shells[strings.ToLower(t)]
}

// program checks the name of the started program.
func (c *cmdCheck) program(call *ssa.Call, v ssa.Value) {
	at, fn := c.p.At(call), FnName(call.Parent())
	for _, sh := range c.sh.eval(v) {
		if len(sh) == 1 && sh[0].v == nil {
			if isShell(sh[0].lit) {
				c.r.Bad("shell:"+fn, at, "the shell %q is started, it interprets the characters of its arguments", sh[0].lit)
			}
			continue
		}
		if len(sh) == 1 && c.isSettingLoad(sh[0].v) {
			c.r.Sample("program of " + fn + ": a setting")
			continue
		}
		if len(sh) == 1 {
			if e := c.templatePart(sh[0].v, sh[0].fr); e != nil {
				if n, ok := constInt(e.idx); !ok || n+int64(e.from) != 0 {
					c.r.Bad("program:"+fn, at, "the program is not the first part of the command template")
					continue
				}
				for _, l := range e.lists {
					c.nameIdx[l] = true
				}
				continue
			}
		}
		c.r.Bad("program:"+fn, at, "the started program is neither a setting nor the first part of a command template: %s", c.text(sh))
	}
}

func (c *cmdCheck) text(sh shape) string {
	var t []string
	for _, q := range sh {
		if q.v == nil {
			t = append(t, "\""+q.lit+"\"")
		} else {
			t = append(t, describe(q.v))
		}
	}
	return cut(strings.Join(t, " + "), 150)
}

func cut(t string, n int) string {
	if len(t) > n {
		return t[:n] + "..."
	}
	return t
}

// isSettingLoad: the value of a field of the configuration.
func (c *cmdCheck) isSettingLoad(v ssa.Value) bool {
	var fv *types.Var
	switch u := v.(type) {
	case *ssa.UnOp:
		if fa, ok := u.X.(*ssa.FieldAddr); ok && u.Op == token.MUL {
			fv = fieldVar(fa.X.Type(), fa.Field)
		}
	case *ssa.Field:
		fv = fieldVar(u.X.Type(), u.Field)
	}
	return fv != nil && fv.Pkg() != nil && strings.HasSuffix(fv.Pkg().Path(), "/config")
}

// arguments checks the list of arguments of a started program.
func (c *cmdCheck) arguments(call *ssa.Call, v ssa.Value) {
	alts := c.ls.eval(v, nil)
	if c.ls.overflow {
		c.r.Undecided("arguments:"+FnName(call.Parent()), c.p.At(call), "too many ways to build the arguments")
		return
	}
	for _, alt := range alts {
		c.items(call, alt, true)
	}
}

func (c *cmdCheck) items(call *ssa.Call, alt []listItem, top bool) {
	fn := FnName(call.Parent())
	for i, it := range alt {
		switch {
		case it.v != nil:
			if e := c.templatePart(it.v, it.fr); e != nil {
				c.template(call, e, nil)
				continue
			}
			c.argument(call, it.v, it.fr)
		case it.rep != nil:
			for _, one := range it.rep {
				mapped := false
				for _, x := range one {
					if x.v == nil {
						continue
					}
					if e := c.templatePart(x.v, x.fr); e != nil {
						mapped = true
						if len(one) != 1 || len(it.rep) != 1 || i != 0 {
							c.r.Bad("position:"+FnName(loopFn(it)), c.p.At(instrOf(x.v, call)), "parts of the command template are left out or other arguments are mixed in, so that arguments move")
							continue
						}
						e.from += it.from
						c.template(call, e, it.loop)
					}
				}
				if !mapped {
					c.items(call, one, false)
				}
			}
		case it.list != nil:
			c.list(call, it, i, top)
		default:
			c.r.Undecided("arguments:"+fn, c.p.At(call), "the list of arguments is built in a way that isn't known")
		}
	}
}

func loopFn(it listItem) *ssa.Function { return it.loop.Parent() }

func instrOf(v ssa.Value, other ssa.Instruction) ssa.Instruction {
	if in, ok := v.(ssa.Instruction); ok {
		return in
	}
	return other
}

// list checks a list that is used as arguments as a whole.
func (c *cmdCheck) list(call *ssa.Call, it listItem, pos int, top bool) {
	v := c.p.resolve(it.list)
	fn := FnName(call.Parent())
	if s, ok := v.(*ssa.Call); ok && c.isSplit(s) {
		c.r.Count("arguments", 1)
		if pos != 0 || !top {
			c.r.Bad("position:"+FnName(s.Parent()), c.p.At(s), "the parts of the command template are not the first arguments")
		}
		if it.from != 1 {
			c.r.Bad("position:"+FnName(s.Parent()), c.p.At(s), "the arguments are the parts of the command template from number %d on, but the program is number 0", it.from)
		}
		c.split(s)
		c.overwritten(call, s, it.fr)
		return
	}
	if ms, ok := v.(*ssa.MakeSlice); ok {
		// filled element by element
		if !inAnyPkg(ms.Parent(), "util", "image", "generator") {
			c.r.Count("arguments", 1)
			return // a list of values given from elsewhere
		}
		c.r.Count("arguments", 1)
		c.filled(call, ms, it.from)
		return
	}
	if sl, ok := v.Type().Underlying().(*types.Slice); ok && types.Identical(sl.Elem(), types.Typ[types.String]) {
		if c.isSettingLoad(v) {
			c.r.Count("arguments", 1)
			return // a list of settings, each an argument of its own
		}
		switch u := v.(type) {
		case *ssa.Parameter:
			c.r.Count("arguments", 1)
			return // a list of values given from elsewhere
		case *ssa.Call:
			if k := CalleeKey(&u.Call); strings.HasPrefix(k, "strings.") || strings.HasPrefix(k, "(*regexp.") || strings.HasPrefix(k, "regexp.") {
				c.r.Bad("split:"+FnName(u.Parent()), c.p.At(u), "a text with several values is split into arguments (%s)", k)
				return
			}
		}
	}
	c.r.Undecided("arguments:"+fn, c.p.At(instrOf(v, call)), "a list of arguments is built in a way that isn't known: %s", describe(v))
}

func (c *cmdCheck) isSplit(s *ssa.Call) bool {
	switch CalleeKey(&s.Call) {
	case "strings.Split", "strings.Fields", "strings.SplitN", "strings.SplitAfter", "strings.SplitAfterN", "strings.FieldsFunc":
		return true
	}
	return false
}

// split checks how the command template becomes a list.
func (c *cmdCheck) split(s *ssa.Call) {
	if c.seen[s] {
		return
	}
	c.seen[s] = true
	c.r.Count("command templates", 1)
	fn, at := FnName(s.Parent()), c.p.At(s)
	switch k := CalleeKey(&s.Call); k {
	case "strings.Split":
		if t := constText(s.Call.Args[1]); t != " " {
			c.r.Bad("split:"+fn, at, "the command template is split at %q instead of spaces", t)
		}
	case "strings.Fields":
	default:
		c.r.Bad("split:"+fn, at, "the command template isn't split into all its parts (%s)", k)
	}
	c.fromTemplate(s.Call.Args[0], s, 0)
}

// fromTemplate: the text consists of settings only.
func (c *cmdCheck) fromTemplate(v ssa.Value, s *ssa.Call, d int) {
	fn, at := FnName(s.Parent()), c.p.At(s)
	for _, sh := range c.sh.eval(v) {
		for _, q := range sh {
			if q.v == nil {
				continue
			}
			x := q.v
			if c.isSettingLoad(x) {
				c.r.Sample("template split in " + fn + ": " + describe(x))
				continue
			}
			if u, ok := x.(*ssa.Call); ok && d < 5 {
				k := CalleeKey(&u.Call)
				if k == "strings.TrimSpace" {
					c.fromTemplate(u.Call.Args[0], s, d+1)
					continue
				}
				if strings.HasPrefix(k, "strings.") || strings.HasPrefix(k, "(*strings.Replacer") || strings.HasPrefix(k, "fmt.") {
					c.r.Bad("split:"+fn, c.p.At(u), "a value is inserted into the text (%s) before it is split into arguments at %s", k, at)
					continue
				}
			}
			c.r.Bad("split:"+fn, at, "a text that isn't just a command template from the settings is split into arguments: %s", describe(x))
		}
	}
}

// A tmplPart is a value made of one part of a command template.
type tmplPart struct {
	lists    []ssa.Value // the Split calls
	from     int
	idx      ssa.Value
	load     *ssa.UnOp
	replaced []*ssa.Call // innermost first
	base     ssa.Value
}

// templatePart: the value is an element of a split command template, possibly with placeholders replaced.
func (c *cmdCheck) templatePart(v ssa.Value, fr *shapeFrame) *tmplPart {
	var reps []*ssa.Call
	for d := 0; d < 30; d++ {
		if q, ok := v.(*ssa.Parameter); ok {
			if a, up, ok := frameArg(q, fr); ok {
				v, fr = a, up
				continue
			}
		}
		switch u := v.(type) {
		case *ssa.Call:
			if i, ok := replaceArg(CalleeKey(&u.Call)); ok {
				reps = append([]*ssa.Call{u}, reps...)
				v = u.Call.Args[i]
				continue
			}
			// a helper with a single result
			if f := u.Call.StaticCallee(); f != nil && c.p.IsRepoFn(f) && len(f.Blocks) > 0 {
				var only ssa.Value
				n := 0
				for _, b := range f.Blocks {
					if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && b != f.Recover && len(ret.Results) == 1 {
						only = resultOf(ret, 0)
						n++
					}
				}
				if n == 1 && only != nil {
					fr = &shapeFrame{call: u, fn: f, up: fr}
					v = only
					continue
				}
			}
		case *ssa.UnOp:
			if u.Op == token.MUL {
				if ia, ok := u.X.(*ssa.IndexAddr); ok {
					e := &tmplPart{idx: ia.Index, load: u, replaced: reps, base: ia.X}
					if !c.listOf(ia.X, fr, e, 0) || len(e.lists) == 0 {
						return nil
					}
					return e
				}
				if n := c.p.resolveStep(v); n != nil && n != v {
					v = n
					continue
				}
			}
		}
		if n := c.p.resolveStep(v); n != nil && n != v {
			v = n
			continue
		}
		return nil
	}
	return nil
}

// listOf finds the command template of which the list has the parts, possibly with placeholders replaced one by one.
func (c *cmdCheck) listOf(v ssa.Value, fr *shapeFrame, e *tmplPart, d int) bool {
	if d > 5 {
		return false
	}
	for _, alt := range c.ls.eval(v, fr) {
		if len(alt) != 1 {
			return false
		}
		it := alt[0]
		var in ssa.Value
		var infr *shapeFrame
		switch {
		case it.rep != nil && len(it.rep) == 1 && len(it.rep[0]) == 1:
			in, infr = it.rep[0][0].v, it.rep[0][0].fr
		case it.list != nil:
			l := c.p.resolve(it.list)
			if s, ok := l.(*ssa.Call); ok && c.isSplit(s) {
				e.lists = append(e.lists, s)
				e.from = it.from
				continue
			}
			ms, ok := l.(*ssa.MakeSlice)
			if !ok {
				return false
			}
			st := c.elementStores(ms)
			if len(st) != 1 {
				return false
			}
			in = st[0].Val
		}
		if in == nil {
			return false
		}
		x := c.templatePart(in, infr)
		if x == nil {
			return false
		}
		e.lists = append(e.lists, x.lists...)
		e.replaced = append(append([]*ssa.Call{}, x.replaced...), e.replaced...)
		e.from = it.from + x.from
	}
	return true
}

// replaceArg is the index of the text in which something is replaced.
func replaceArg(k string) (int, bool) {
	switch k {
	case "(*strings.Replacer).Replace":
		return 1, true
	case "strings.ReplaceAll", "strings.Replace":
		return 0, true
	}
	return 0, false
}

// template checks an argument made of the parts of a template in a loop (or a single one).
func (c *cmdCheck) template(call *ssa.Call, e *tmplPart, loop *ssa.BasicBlock) {
	fn, at := FnName(e.load.Parent()), c.p.At(e.load)
	c.r.Count("arguments", 1)
	for _, l := range e.lists {
		c.split(l.(*ssa.Call))
		c.overwritten(call, l.(*ssa.Call), nil)
	}
	if loop == nil {
		if _, ok := constInt(e.idx); !ok {
			c.r.Undecided("position:"+fn, at, "a part of the command template is used as argument, but it's not known which one")
		}
		return
	}
	l := loopsOf(loop.Parent())[loop]
	ct := countingOf(l)
	if ct == nil || !c.sameIndex(ct.index, e.idx) || !c.isLenOf(ct.bound, e) {
		c.r.Undecided("position:"+fn, at, "the loop over the parts of the command template doesn't go through them one after another")
		return
	}
	for _, ex := range ct.exits() {
		if !ct.regular(ex) {
			c.r.Bad("position:"+fn, at, "the loop over the parts of the command template can end early, arguments would be missing")
		}
	}
	if e.from != 1 {
		c.r.Bad("position:"+fn, at, "the arguments are the parts of the command template from number %d on, but the program is number 0", e.from)
	}
	if len(e.replaced) > 0 {
		c.replacement(e)
	}
}

func (c *cmdCheck) sameIndex(a, b ssa.Value) bool { return a == b || c.p.vkey(a) == c.p.vkey(b) }

// isLenOf: the number is the length of the list the part is from.
func (c *cmdCheck) isLenOf(n ssa.Value, e *tmplPart) bool {
	u, ok := c.p.resolve(n).(*ssa.Call)
	if !ok {
		return false
	}
	b, ok := u.Call.Value.(*ssa.Builtin)
	if !ok || b.Name() != "len" {
		return false
	}
	if u.Call.Args[0] == e.base {
		return true
	}
	for _, alt := range c.ls.eval(u.Call.Args[0], nil) {
		if len(alt) != 1 || alt[0].list == nil || alt[0].from != e.from {
			return false
		}
		ok := false
		for _, l := range e.lists {
			ok = ok || c.p.resolve(alt[0].list) == l
		}
		if !ok {
			return false
		}
	}
	return true
}

// filled checks a list of fixed length filled in a loop.
func (c *cmdCheck) filled(call *ssa.Call, ms *ssa.MakeSlice, from int) {
	fn, at := FnName(ms.Parent()), c.p.At(ms)
	n := 0
	for _, st := range c.elementStores(ms) {
		ia := st.Addr.(*ssa.IndexAddr)
		e := c.templatePart(st.Val, nil)
		if e == nil {
			c.r.Undecided("arguments:"+fn, c.p.At(st), "a list of arguments is filled in a way that isn't known")
			return
		}
		n++
		if !c.storePosition(st, ia, e, from) {
			return
		}
		for _, l := range e.lists {
			c.split(l.(*ssa.Call))
		}
		c.replacement(e)
	}
	if n == 0 {
		c.r.Undecided("arguments:"+fn, at, "a list of arguments is filled in a way that isn't known")
	}
}

// storePosition: the store puts the part back to the position it is from, for each part.
func (c *cmdCheck) storePosition(st *ssa.Store, ia *ssa.IndexAddr, e *tmplPart, from int) bool {
	fn, at := FnName(st.Parent()), c.p.At(st)
	if !c.sameIndex(ia.Index, e.idx) {
		c.r.Bad("position:"+fn, at, "a part of the command template is put to another position")
		return false
	}
	loops := loopsOf(st.Parent())
	l := innermost(loops, st.Block())
	ct := countingOf(l)
	if ct == nil || !c.sameIndex(ct.index, ia.Index) {
		c.r.Undecided("position:"+fn, at, "the loop over the parts of the command template doesn't go through them one after another")
		return false
	}
	if !ct.everyIteration(st.Block()) {
		c.r.Bad("position:"+fn, at, "not all parts of the command template get their placeholders replaced")
		return false
	}
	if !c.isLenOf(ct.bound, e) {
		c.r.Bad("position:"+fn, at, "the loop doesn't cover all parts of the command template")
		return false
	}
	for _, ex := range ct.exits() {
		if !ct.regular(ex) {
			c.r.Bad("position:"+fn, at, "the loop over the parts of the command template can end early")
			return false
		}
	}
	return true
}

// elementStores lists the stores into elements of a list.
func (c *cmdCheck) elementStores(v ssa.Value) (out []*ssa.Store) {
	for _, f := range c.p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				ia, ok := st.Addr.(*ssa.IndexAddr)
				if !ok {
					continue
				}
				if c.p.resolve(ia.X) == v {
					out = append(out, st)
					continue
				}
				if sl, ok := ia.X.Type().Underlying().(*types.Slice); !ok || !types.Identical(sl.Elem(), types.Typ[types.String]) {
					continue
				}
				for _, alt := range c.ls.eval(ia.X, nil) {
					if len(alt) > 0 && alt[0].list != nil && c.p.resolve(alt[0].list) == v {
						out = append(out, st)
					}
				}
			}
		}
	}
	return
}

// overwritten checks the changes made to the parts of a template.
func (c *cmdCheck) overwritten(call *ssa.Call, s *ssa.Call, fr *shapeFrame) {
	if c.pairs[s] {
		return
	}
	c.pairs[s] = true
	n := 0
	var last *ssa.Store
	for _, st := range c.elementStores(s) {
		ia := st.Addr.(*ssa.IndexAddr)
		e := c.templatePart(st.Val, nil)
		if e == nil {
			c.argumentIn(st)
			continue
		}
		if !c.storePosition(st, ia, e, 0) {
			return
		}
		n++
		if n > 1 {
			c.r.Bad("rescanned:"+FnName(st.Parent()), c.p.At(st), "placeholders are replaced again in parts that already contain values (%s)", c.p.At(last))
		}
		last = st
		c.replacement(e)
	}
}

// argumentIn: a part of the template is overwritten by something else.
func (c *cmdCheck) argumentIn(st *ssa.Store) {
	c.r.Undecided("position:"+FnName(st.Parent()), c.p.At(st), "a part of the command template is overwritten by something else: %s", describe(st.Val))
}

// replacement checks by what the placeholders are replaced.
func (c *cmdCheck) replacement(e *tmplPart) {
	if len(e.replaced) == 0 {
		c.r.Bad("replaced:"+FnName(e.load.Parent()), c.p.At(e.load), "the placeholders of the command template are not replaced")
		return
	}
	first := e.replaced[0]
	fn, at := FnName(first.Parent()), c.p.At(first)
	if len(e.replaced) > 1 {
		c.r.Bad("rescanned:"+fn, c.p.At(e.replaced[1]), "placeholders are replaced one after the other, so that the text of a value inserted first is replaced too")
		return
	}
	if CalleeKey(&first.Call) != "(*strings.Replacer).Replace" {
		c.r.Bad("replaced:"+fn, at, "only one placeholder of the command template is replaced, or one after the other")
		return
	}
	mk, ok := c.p.resolve(first.Call.Args[0]).(*ssa.Call)
	if !ok || CalleeKey(&mk.Call) != "strings.NewReplacer" {
		c.r.Undecided("replaced:"+fn, at, "the replacer isn't known")
		return
	}
	if c.seen[mk] {
		return
	}
	c.seen[mk] = true
	for _, alt := range c.ls.eval(mk.Call.Args[0], nil) {
		c.pairing(mk, alt)
	}
}

// pairing checks one list of placeholders and values.
func (c *cmdCheck) pairing(mk *ssa.Call, alt []listItem) {
	fn, at := FnName(mk.Parent()), c.p.At(mk)
	got := map[string]listItem{}
	for i := 0; i < len(alt); i += 2 {
		if alt[i].v == nil || i+1 >= len(alt) || alt[i+1].v == nil {
			c.r.Undecided("placeholders:"+fn, at, "the pairs of placeholder and value are built in a way that isn't known")
			return
		}
		key := ""
		for _, sh := range c.sh.eval(alt[i].v) {
			if len(sh) != 1 || sh[0].v != nil {
				c.r.Bad("placeholders:"+fn, c.p.At(instrOf(alt[i].v, mk)), "the placeholder is not a constant text, it might be taken from a value")
				return
			}
			key = sh[0].lit
		}
		if _, twice := got[key]; twice {
			c.r.Bad("placeholders:"+fn, at, "the placeholder %s is given twice", key)
		}
		got[key] = alt[i+1]
		c.argument(mk, alt[i+1].v, alt[i+1].fr)
	}
	in, okI := got["{INPUT}"]
	out, okO := got["{OUTPUT}"]
	if !okI || !okO {
		c.r.Bad("placeholders:"+fn, at, "not all placeholders of a command template get a value")
		return
	}
	c.inOut(mk, c.through(in), c.through(out), 0)
}

func (c *cmdCheck) through(it listItem) ssa.Value {
	v := it.v
	for d := 0; d < 20; d++ {
		if q, ok := v.(*ssa.Parameter); ok {
			if a, _, ok := frameArg(q, it.fr); ok {
				v = a
				continue
			}
			return v
		}
		switch v.(type) {
		case *ssa.UnOp, *ssa.FreeVar, *ssa.ChangeType:
			if n := c.p.resolveStep(v); n != nil && n != v {
				v = n
				continue
			}
		}
		return v
	}
	return v
}

// inOut: the value for the output is the same file, or the PNG made of the input.
func (c *cmdCheck) inOut(site ssa.Instruction, in, out ssa.Value, d int) {
	pi, ok1 := in.(*ssa.Parameter)
	po, ok2 := out.(*ssa.Parameter)
	if ok1 && ok2 && pi.Parent() == po.Parent() && d < 8 {
		sites, _ := c.p.sitesOf(pi.Parent())
		if len(sites) > 0 {
			for _, s := range sites {
				a, b := siteArg(s, pi), siteArg(s, po)
				if a == nil || b == nil {
					continue
				}
				c.inOut(s, c.through(listItem{v: a}), c.through(listItem{v: b}), d+1)
			}
			return
		}
	}
	fn, at := FnName(site.Parent()), c.p.At(site)
	c.r.Count("placeholder pairs", 1)
	if in == out || c.p.vkey(in) == c.p.vkey(out) {
		c.r.Sample("in " + fn + ": " + describe(in) + " is input and output")
		return
	}
	png := func(v ssa.Value) bool { return strings.HasSuffix(c.fileExt(v, nil, 0), ".png") }
	if !png(out) || png(in) {
		c.r.Bad("in-out:"+fn, at, "the output of the conversion (%s) is not the PNG file, or the input (%s) is: values are swapped or belong to something else", describe(out), describe(in))
		return
	}
	c.r.Sample("in " + fn + ": " + describe(in) + " is converted to " + describe(out))
}

// fileExt is the literal end of a file name, also if it's given by the last argument of the call the name results from.
func (c *cmdCheck) fileExt(v ssa.Value, fr *shapeFrame, d int) string {
	if d > 12 {
		return ""
	}
	switch u := v.(type) {
	case *ssa.Const:
		return constText(u)
	case *ssa.BinOp:
		if u.Op == token.ADD {
			return c.fileExt(u.Y, fr, d+1)
		}
	case *ssa.Phi:
		out := ""
		for i, e := range u.Edges {
			t := c.fileExt(e, fr, d+1)
			if i > 0 && t != out {
				return ""
			}
			out = t
		}
		return out
	case *ssa.Parameter:
		if a, up, ok := frameArg(u, fr); ok {
			return c.fileExt(a, up, d+1)
		}
	case *ssa.Extract:
		if call, ok := u.Tuple.(*ssa.Call); ok {
			return c.extOfCall(call, u.Index, fr, d)
		}
	case *ssa.Call:
		return c.extOfCall(u, 0, fr, d)
	}
	if n := c.p.resolveStep(v); n != nil && n != v {
		return c.fileExt(n, fr, d+1)
	}
	return ""
}

func (c *cmdCheck) extOfCall(call *ssa.Call, idx int, fr *shapeFrame, d int) string {
	if f := call.Call.StaticCallee(); f != nil && c.p.IsRepoFn(f) && len(f.Blocks) > 0 {
		n := &shapeFrame{call: call, fn: f, up: fr}
		out, same, k := "", true, 0
		for _, b := range f.Blocks {
			ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok || b == f.Recover || errorReturn(ret) || idx >= len(ret.Results) {
				continue
			}
			t := c.fileExt(resultOf(ret, idx), n, d+1)
			same = same && (k == 0 || t == out)
			out = t
			k++
		}
		if same && out != "" {
			return out
		}
	}
	if len(call.Call.Args) == 0 {
		return ""
	}
	a := call.Call.Args[len(call.Call.Args)-1]
	if CalleeKey(&call.Call) == "fmt.Sprintf" {
		for _, sh := range c.sh.ev2(call, fr) {
			if len(sh) > 0 && sh[len(sh)-1].v == nil {
				return sh[len(sh)-1].lit
			}
		}
		return ""
	}
	if els := variadicArgs(a); len(els) > 0 {
		a = els[len(els)-1]
	}
	if b, isB := a.Type().Underlying().(*types.Basic); !isB || b.Info()&types.IsString == 0 {
		return ""
	}
	return c.fileExt(a, fr, d+1)
}

// argument checks one argument.
func (c *cmdCheck) argument(at ssa.Instruction, v ssa.Value, fr *shapeFrame) {
	c.r.Count("arguments", 1)
	shs := c.sh.ev2(v, fr)
	if c.sh.overflow {
		c.r.Undecided("argument:"+FnName(at.Parent()), c.p.At(instrOf(v, at)), "too many ways to build an argument")
		c.sh.overflow = false
		return
	}
	for _, sh := range shs {
		c.oneValue(at, v, sh)
	}
}

func (c *cmdCheck) oneValue(at ssa.Instruction, v ssa.Value, sh shape) {
	where := instrOf(v, at)
	fn, pos := FnName(where.Parent()), c.p.At(where)
	values := 0
	for _, q := range sh {
		if q.v != nil {
			values++
		}
	}
	if values == 0 {
		return
	}
	for _, q := range sh {
		if q.v == nil {
			if strings.ContainsAny(q.lit, " \t\n") {
				c.r.Bad("joined:"+fn, pos, "a value is put into one argument together with other arguments: %s", c.text(sh))
				return
			}
			if strings.ContainsAny(q.lit, "'\"`") {
				c.r.Bad("quoted:"+fn, pos, "a value is put into quotes, which no shell removes: %s", c.text(sh))
				return
			}
			continue
		}
		if q.verb != "" && q.verb != "%d" && q.verb != "%v" {
			c.r.Bad("altered:"+fn, pos, "a value is formatted by %s before it is given as argument", q.verb)
			return
		}
		x := q.v
		if ex, ok := x.(*ssa.Extract); ok {
			x = ex.Tuple
		}
		if u, ok := x.(*ssa.Call); ok && alters(CalleeKey(&u.Call)) && u.Parent().Pkg.Pkg.Name() != "main" {
			c.r.Bad("altered:"+FnName(u.Parent()), c.p.At(u), "a value is changed by %s before it is given as argument", CalleeKey(&u.Call))
			return
		}
		if u, ok := x.(*ssa.UnOp); ok {
			if ia, ok := u.X.(*ssa.IndexAddr); ok {
				if s, ok := c.p.resolve(ia.X).(*ssa.Call); ok && c.isSplit(s) {
					c.r.Bad("altered:"+FnName(u.Parent()), c.p.At(u), "only a part of a value is given as argument")
					return
				}
			}
		}
		switch x.(type) {
		case *ssa.Slice, *ssa.Lookup:
			c.r.Bad("altered:"+fn, pos, "only a part of a value is given as argument: %s", describe(x))
			return
		}
	}
}

// alters: the function changes the text it gets.
func alters(k string) bool {
	switch {
	case k == "strings.Join":
		return true
	case strings.HasPrefix(k, "strings."), strings.HasPrefix(k, "(*strings.Replacer)"), strings.HasPrefix(k, "(*regexp."):
		return true
	case strings.HasPrefix(k, "strconv.Quote"), strings.HasPrefix(k, "html."), strings.HasPrefix(k, "net/url."):
		return true
	}
	return false
}

// workingDir: relative arguments mean files in the working directory, which is set whatever it looks like.
func (c *cmdCheck) workingDir(call *ssa.Call, run ssa.Instruction) {
	if call.Referrers() == nil {
		return
	}
	set, always := false, false
	var at ssa.Instruction
	for _, ref := range *call.Referrers() {
		fa, ok := ref.(*ssa.FieldAddr)
		if !ok || fieldName2(fa) != "Dir" || fa.Referrers() == nil {
			continue
		}
		for _, x := range *fa.Referrers() {
			st, ok := x.(*ssa.Store)
			if !ok || st.Addr != ssa.Value(fa) || st.Parent() != run.Parent() {
				continue
			}
			set, at = true, st
			b := st.Block()
			if precedes(st, run) {
				always = true
			}
			// an empty directory means the current one anyway
			if len(b.Preds) == 1 {
				if iff, ok := b.Preds[0].Instrs[len(b.Preds[0].Instrs)-1].(*ssa.If); ok {
					if bo, ok := iff.Cond.(*ssa.BinOp); ok && (isEmptyText(bo.X) || isEmptyText(bo.Y)) && (bo.Op == token.NEQ) == (b.Preds[0].Succs[0] == b) {
						always = true
					}
				}
			}
		}
	}
	if set {
		c.r.Count("working directories", 1)
		if !always {
			c.r.Bad("directory:"+FnName(call.Parent()), c.p.At(at), "the program may be run without its working directory, so that relative arguments mean other files")
		}
	}
}

func isEmptyText(v ssa.Value) bool {
	k, ok := v.(*ssa.Const)
	return ok && k.Value != nil && k.Value.Kind() == constant.String && constant.StringVal(k.Value) == ""
}

// run checks that a built command is run and its failure reported.
func (c *cmdCheck) run(call *ssa.Call) {
	fn, at := FnName(call.Parent()), c.p.At(call)
	started, waited := (*ssa.Call)(nil), (*ssa.Call)(nil)
	ran := 0
	for _, f := range c.p.Funcs {
		for _, s := range CallSites(f) {
			com := s.Common()
			k := CalleeKey(com)
			if !strings.HasPrefix(k, "(*os/exec.Cmd).") || len(com.Args) == 0 || c.p.resolve(com.Args[0]) != ssa.Value(call) {
				continue
			}
			rc, isCall := s.(*ssa.Call)
			if k != "(*os/exec.Cmd).Wait" {
				c.workingDir(call, s.(ssa.Instruction))
			}
			switch strings.TrimPrefix(k, "(*os/exec.Cmd).") {
			case "Run", "Output", "CombinedOutput":
				ran++
				if !isCall {
					c.r.Bad("ignored:"+FnName(f), c.p.At(s), "the program is run in a deferred call or goroutine, its failure isn't reported")
					continue
				}
				c.reported(rc, map[*ssa.Function]bool{})
			case "Start":
				started = rc
				if rc != nil {
					c.reported(rc, map[*ssa.Function]bool{})
				}
			case "Wait":
				waited = rc
				if rc != nil {
					c.reported(rc, map[*ssa.Function]bool{})
				}
			}
		}
	}
	if ran == 0 && (started == nil || waited == nil) {
		c.r.Bad("run:"+fn, at, "the program isn't run to its end, so that its failure isn't noticed")
	}
}

// reported: whenever the call fails, the function returns an error, and so do its callers.
func (c *cmdCheck) reported(call *ssa.Call, seen map[*ssa.Function]bool) {
	f := call.Parent()
	err := errorOf(call)
	if err == nil {
		c.r.Bad("ignored:"+FnName(f), c.p.At(call), "the failure of the external program is ignored")
		return
	}
	// a function without error result has to deal with it itself (ending the program or logging is judged by C05)
	hasErr := false
	res := f.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		hasErr = hasErr || isErrorType(res.At(i).Type())
	}
	if !hasErr {
		if inAnyPkg(f, "util", "image", "generator") {
			c.r.Bad("ignored:"+FnName(f), c.p.At(call), "the failure of the external program is not returned")
		}
		return
	}
	start := 0
	for i, in := range call.Block().Instrs {
		if in == ssa.Instruction(call) {
			start = i
		}
	}
	bad := false
	complete := c.p.eachPath(call.Block(), start, allSuccs, func(b *ssa.BasicBlock) bool {
		_, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		return ok && b != f.Recover || b == call.Block()
	}, func(w *cfgPath) {
		if bad || !w.feasible() {
			return
		}
		c.r.Count("paths after starting a process", 1)
		n := len(w.blocks) - 1
		if w.isNil(err, n) == 1 || c.fatal(w, err) {
			return
		}
		if n > 0 && w.last() == call.Block() {
			if !c.collected(err) {
				bad = true
				c.r.Bad("ignored:"+FnName(f), c.p.At(call), "after the external program failed it's tried again, and the failure is forgotten")
			}
			return
		}
		ret, ok := w.last().Instrs[len(w.last().Instrs)-1].(*ssa.Return)
		if !ok {
			return
		}
		for i, v := range ret.Results {
			if isErrorType(v.Type()) {
				x := resultOf(ret, i)
				if x == nil {
					continue
				}
				if w.rootError(x, n) == err || w.isNil(x, n) == -1 {
					return
				}
				if u, ok := w.rootError(x, n).(*ssa.Call); ok && c.joins(u, err) {
					return
				}
			}
		}
		bad = true
		c.r.Bad("ignored:"+FnName(f), c.p.At(call), "the failure of the external program is not returned on the path ending at %s", c.p.At(ret))
	})
	if !complete && !bad {
		c.r.Undecided("ignored:"+FnName(f), c.p.At(call), "too many paths")
	}
	if seen[f] {
		return
	}
	seen[f] = true
	sites, _ := c.p.sitesOf(f)
	for _, s := range sites {
		rc, ok := s.(*ssa.Call)
		if !ok {
			c.r.Bad("ignored:"+FnName(s.Parent()), c.p.At(s), "an external program is run in a deferred call or goroutine, its failure isn't reported")
			continue
		}
		if seen[rc.Parent()] {
			continue
		}
		if s.Parent().Pkg != nil && s.Parent().Pkg.Pkg.Name() == "main" {
			continue
		}
		c.reported(rc, seen)
	}
}

// joins: the error is one of several combined into one.
func (c *cmdCheck) joins(u *ssa.Call, err ssa.Value) bool {
	if CalleeKey(&u.Call) != "errors.Join" {
		return false
	}
	for _, a := range variadicArgs(u.Call.Args[0]) {
		if a == err {
			return true
		}
	}
	return false
}

// collected: the error is kept in a list of errors.
func (c *cmdCheck) collected(err ssa.Value) bool {
	for _, rf := range *err.Referrers() {
		if st, ok := rf.(*ssa.Store); ok {
			if _, ok := st.Addr.(*ssa.IndexAddr); ok {
				return true
			}
		}
	}
	return false
}

func inAnyPkg(f *ssa.Function, names ...string) bool {
	for _, n := range names {
		if inPkg(f, n) {
			return true
		}
	}
	return false
}

// fatal: the program ends on this path if the error isn't nil.
func (c *cmdCheck) fatal(w *cfgPath, err ssa.Value) (out bool) {
	w.calls(func(u *ssa.Call, at int) {
		if noReturn(CalleeKey(&u.Call)) == "iferr" && len(u.Call.Args) > 0 && w.rootError(u.Call.Args[0], at) == err {
			out = true
		}
	})
	return
}
