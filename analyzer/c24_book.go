package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C24", Title: "Book metadata and options reach the book with every driver",
		Rule: "for every driver and every combination of set and unset options: the argument list of pandoc, respectively the calls made on the book object, contain each metadata value and each set option with the right value under the right name, on all ways to success and before the book is written, and nothing for an option that isn't set",
		Run:  runC24})
}

type bookCheck struct {
	p    *Program
	r    *Report
	root *ssa.Function
	lv   *setLiveness
	sh   *shaper
	ls   *lister
	what string
	seen map[string]bool
}

// bookOption is an optional setting.
type bookOption struct {
	field string
	kind  byte // s: text, i: number, l: list
	// pandoc
	flags []string // all of them are given
	// object
	call string
}

var pandocOptions = []bookOption{
	{field: "TocDepth", kind: 'i', flags: []string{"--toc-depth"}},
	{field: "PandocDataDir", kind: 's', flags: []string{"--data-dir"}},
	{field: "StyleFile", kind: 's', flags: []string{"--css"}},
	{field: "CoverImage", kind: 's', flags: []string{"--epub-cover-image"}},
	{field: "FontFiles", kind: 'l', flags: []string{"--epub-embed-font"}},
}

// other names of the same flags
var pandocSame = map[string]string{"-c": "--css", "-o": "--output", "-f": "--from", "-r": "--from", "--read": "--from", "-t": "--to", "-w": "--to", "--write": "--to", "-M": "--metadata", "-V": "--variable", "--table-of-contents": "--toc"}

var epubOptions = []bookOption{
	{field: "StyleFile", kind: 's', call: "AddCSS"},
	{field: "CoverImage", kind: 's', call: "AddImage"},
	{field: "FontFiles", kind: 'l', call: "AddFont"},
}

var pandocMetadata = map[string]string{"title": "Title", "author": "Author", "rights": "License", "language": "Language", "date": "Date"}

const epubPkg = "github.com/go-shiori/go-epub"

func runC24(p *Program, r *Report) {
	c := &bookCheck{p: p, r: r, seen: map[string]bool{}}
	// the function that gets the metadata from the main program
	roots := map[*ssa.Function][]ssa.CallInstruction{}
	for _, f := range p.Funcs {
		if f.Pkg == nil || f.Pkg.Pkg.Name() != "main" {
			continue
		}
		for _, s := range CallSites(f) {
			g := s.Common().StaticCallee()
			if g == nil || g.Pkg == nil || g.Pkg.Pkg.Name() == "main" || !p.IsRepoFn(g) {
				continue
			}
			for _, q := range g.Params {
				if isMetadata(q.Type()) {
					roots[g] = append(roots[g], s)
				}
			}
		}
	}
	if len(roots) == 0 {
		r.Undecided("entry", "-", "no function is called by the main program with the metadata of the project")
		return
	}
	var gs []*ssa.Function
	for g := range roots {
		gs = append(gs, g)
	}
	sort.Slice(gs, func(i, j int) bool { return gs[i].String() < gs[j].String() })
	for _, g := range gs {
		c.root = g
		c.given(g, roots[g])
		for _, drv := range []string{"pandoc", "internal"} {
			c.driver(g, drv)
		}
	}
	c.tags()
	r.AtLeast("combinations of driver and options", 40)
	r.AtLeast("argument lists", 32)
	r.AtLeast("obligations", 300)
}

func isMetadata(t types.Type) bool {
	if q, ok := t.Underlying().(*types.Pointer); ok {
		t = q.Elem()
	}
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == "Metadata" && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), "/config")
}

func (c *bookCheck) bad(key string, at string, format string, args ...any) {
	if c.seen[key] {
		return
	}
	c.seen[key] = true
	c.r.Bad(key, at, format, args...)
}

func (c *bookCheck) setup(env setEnv) {
	c.lv = newSetLiveness(c.p, env)
	c.sh = &shaper{p: c.p, live: c.lv.edge, leaf: func(v ssa.Value) bool { return settingField(v) != nil }}
	c.ls = &lister{p: c.p, live: c.lv.edge, leaf: func(v ssa.Value) bool { return settingField(v) != nil }}
}

// driver checks all combinations of options of a driver.
func (c *bookCheck) driver(g *ssa.Function, drv string) {
	opts := pandocOptions
	if drv == "internal" {
		opts = epubOptions
	}
	types := []string{"epub2", "epub3"}
	if drv == "internal" {
		types = types[:1] // the format isn't chosen by the type then
	}
	for _, ot := range types {
		for m := 0; m < 1<<len(opts); m++ {
			env := setEnv{"OutputDriver": constant.MakeString(drv), "OutputType": constant.MakeString(ot)}
			set := map[string]bool{}
			var names []string
			for i, o := range opts {
				on := m&(1<<i) != 0
				set[o.field] = on
				if on {
					names = append(names, o.field)
				}
				switch o.kind {
				case 's':
					if on {
						env[o.field] = constant.MakeString("<" + o.field + ">")
					} else {
						env[o.field] = constant.MakeString("")
					}
				default:
					if on {
						env[o.field] = constant.MakeInt64(3)
					} else {
						env[o.field] = constant.MakeInt64(0)
					}
				}
			}
			c.setup(env)
			c.what = fmt.Sprintf("driver %s, %s set", drv, orNone(strings.Join(names, ", ")))
			c.r.Count("combinations of driver and options", 1)
			run := c.object
			if drv == "pandoc" {
				run = c.pandoc
			}
			run(g, set)
			// numbers are set as soon as they aren't 0
			if len(names) != 1 {
				continue
			}
			for _, o := range opts {
				if o.kind != 'i' || !set[o.field] {
					continue
				}
				for _, k := range []int64{1, 2, 6} {
					env[o.field] = constant.MakeInt64(k)
					c.setup(env)
					c.what = fmt.Sprintf("driver %s, %s is %d", drv, o.field, k)
					c.r.Count("combinations of driver and options", 1)
					run(g, set)
				}
			}
		}
	}
}

func orNone(t string) string {
	if t == "" {
		return "nothing"
	}
	return t
}

// settingOf is the name of the setting the value is, metaOf the name of the metadata of the project.
func (c *bookCheck) settingOf(v ssa.Value) string {
	if fv := settingField(v); fv != nil && !c.isMetaField(v) {
		return fv.Name()
	}
	return ""
}

func (c *bookCheck) isMetaField(v ssa.Value) bool {
	switch u := v.(type) {
	case *ssa.UnOp:
		if fa, ok := u.X.(*ssa.FieldAddr); ok {
			return isMetadata(fa.X.Type())
		}
	case *ssa.Field:
		return isMetadata(u.X.Type())
	}
	return false
}

func (c *bookCheck) metaOf(v ssa.Value, fr *shapeFrame) string {
	if !c.isMetaField(v) {
		return ""
	}
	name := settingField(v).Name()
	var base ssa.Value
	switch u := v.(type) {
	case *ssa.UnOp:
		base = u.X.(*ssa.FieldAddr).X
	case *ssa.Field:
		base = u.X
	}
	for d := 0; d < 20; d++ {
		switch b := base.(type) {
		case *ssa.Parameter:
			if a, up, ok := frameArg(b, fr); ok {
				base, fr = a, up
				continue
			}
			if b.Parent() == c.root {
				return name
			}
			return "?" + name
		case *ssa.Alloc:
			if c.changed(b) {
				return "?" + name
			}
			if s := c.p.onlyStore(b); s != nil {
				base = s
				continue
			}
		case *ssa.UnOp:
			if b.Op == token.MUL {
				base = b.X
				continue
			}
		}
		break
	}
	return "?" + name
}

// changed: single fields of the local copy are overwritten.
func (c *bookCheck) changed(a *ssa.Alloc) bool {
	for _, rf := range *a.Referrers() {
		if fa, ok := rf.(*ssa.FieldAddr); ok {
			for _, rr := range *fa.Referrers() {
				if st, isS := rr.(*ssa.Store); isS && st.Addr == ssa.Value(fa) {
					return true
				}
			}
		}
	}
	return false
}

// pandoc checks the argument list.
func (c *bookCheck) pandoc(g *ssa.Function, set map[string]bool) {
	isStart := func(in ssa.Instruction, fr *shapeFrame) bool {
		u, ok := in.(*ssa.Call)
		if !ok {
			return false
		}
		_, ok = processSinks[CalleeKey(&u.Call)]
		return ok
	}
	found := 0
	c.lv.calls(g, nil, func(u *ssa.Call, fr *shapeFrame) bool {
		k := CalleeKey(&u.Call)
		if strings.HasPrefix(k, epubPkg) || strings.HasPrefix(k, "(*"+epubPkg) {
			c.bad("driver:"+FnName(u.Parent()), c.p.At(u), "with the driver pandoc the book is generated by the internal library (%s)", c.what)
		}
		sink, ok := processSinks[k]
		if !ok {
			return true
		}
		found++
		name := ""
		for _, sh := range c.sh.ev2(u.Call.Args[sink.name], fr) {
			if len(sh) == 1 && sh[0].v != nil {
				name = c.settingOf(sh[0].v)
			}
		}
		if name != "PandocExecutable" {
			c.bad("executable:"+FnName(u.Parent()), c.p.At(u), "the started program is not the configured pandoc executable")
		}
		at := u
		if fr != nil {
			at = fr.call
		}
		alts := c.ls.eval(u.Call.Args[sink.args], fr)
		if c.ls.overflow || len(alts) == 0 {
			c.r.Undecided("arguments:"+FnName(at.Parent()), c.p.At(at), "the arguments of pandoc are not known")
			return false
		}
		for _, alt := range alts {
			c.r.Count("argument lists", 1)
			c.arguments(at, alt, set)
		}
		return false
	})
	if found == 0 || !c.lv.always(g, nil, isStart, nil) {
		c.bad("started", c.p.At(g.Blocks[0].Instrs[0]), "pandoc is not started on each way to success (%s)", c.what)
	}
}

// A bookArg is one argument as far as it matters here.
type bookArg struct {
	lit   string // leading literal text
	val   string // "setting X", "metadata X", "parameter", or "" if there's no value
	each  string // the setting of which each element is given
	tail  bool   // something follows the value
	at    ssa.Instruction
	texts int
}

// arg takes an argument apart.
func (c *bookCheck) arg(v ssa.Value, fr *shapeFrame, loop *ssa.BasicBlock, at ssa.Instruction) (out []bookArg) {
	for _, sh := range c.sh.ev2(v, fr) {
		a := bookArg{at: instrOf(v, at)}
		for _, q := range sh {
			if q.v == nil {
				if a.val != "" {
					a.tail = true
				} else {
					a.lit += q.lit
				}
				continue
			}
			val := c.value(q, fr, loop, &a)
			if a.val != "" {
				val = "several values"
			}
			a.val = val
		}
		out = append(out, a)
	}
	return
}

func (c *bookCheck) value(q strPart, fr *shapeFrame, loop *ssa.BasicBlock, a *bookArg) string {
	v, vfr := q.v, q.fr
	if vfr == nil {
		vfr = fr
	}
	for d := 0; d < 20; d++ {
		if m := c.metaOf(v, vfr); m != "" {
			return "metadata " + m
		}
		if s := c.settingOf(v); s != "" {
			return "setting " + s
		}
		switch u := v.(type) {
		case *ssa.Parameter:
			if x, up, ok := frameArg(u, vfr); ok {
				v, vfr = x, up
				continue
			}
			if u.Parent() == c.root {
				return "parameter " + u.Name()
			}
		case *ssa.Call:
			switch CalleeKey(&u.Call) {
			case "strconv.Itoa":
				v = u.Call.Args[0]
				continue
			case "fmt.Sprint":
				if els := variadicArgs(u.Call.Args[0]); len(els) == 1 && els[0] != nil {
					v = els[0]
					continue
				}
			case "strconv.FormatInt":
				v = u.Call.Args[0]
				continue
			}
		case *ssa.Convert:
			v = u.X
			continue
		case *ssa.MakeInterface:
			v = u.X
			continue
		case *ssa.UnOp:
			if ia, ok := u.X.(*ssa.IndexAddr); ok && u.Op == token.MUL {
				// an element of a list
				lists := c.ls.eval(ia.X, vfr)
				if len(lists) == 1 && len(lists[0]) == 1 && lists[0][0].list != nil && lists[0][0].from == 0 {
					s := c.settingOf(c.p.resolveIfNeeded(lists[0][0].list))
					if s == "" {
						if q, ok := lists[0][0].list.(*ssa.Parameter); ok && q.Parent() == c.root {
							s = "parameter"
						}
					}
					if s != "" && loop != nil && c.eachOf(loop, ia, s) {
						a.each = s
						return "each " + s
					}
				}
				// of a list written out in place, over which a loop goes
				if len(lists) == 1 {
					return "element"
				}
			}
		}
		if n := c.p.resolveStep(v); n != nil && n != v {
			v = n
			continue
		}
		break
	}
	return "?" + describe(v)
}

func (p *Program) resolveIfNeeded(v ssa.Value) ssa.Value {
	if settingField(v) != nil {
		return v
	}
	return p.resolve(v)
}

// eachOf: the loop goes through all elements and the element is the current one.
func (c *bookCheck) eachOf(head *ssa.BasicBlock, ia *ssa.IndexAddr, list string) bool {
	l := loopsOf(head.Parent())[head]
	ct := countingOf(l)
	if ct == nil || c.p.vkey(ct.index) != c.p.vkey(ia.Index) && ct.index != ia.Index {
		return false
	}
	u, ok := c.p.resolve(ct.bound).(*ssa.Call)
	if !ok {
		return false
	}
	b, ok := u.Call.Value.(*ssa.Builtin)
	if !ok || b.Name() != "len" {
		return false
	}
	if u.Call.Args[0] != ia.X && c.settingOf(c.p.resolveIfNeeded(u.Call.Args[0])) != list {
		return false
	}
	for _, ex := range ct.exits() {
		if !ct.regular(ex) && !onlyErrors(ex[1], map[*ssa.BasicBlock]bool{}) && !endsProgram(ex[1], map[*ssa.BasicBlock]bool{}) {
			return false
		}
	}
	return true
}

// flat lists the arguments one after another.
func (c *bookCheck) flat(at ssa.Instruction, alt []listItem, loop *ssa.BasicBlock) (out [][]bookArg, ok bool) {
	out, ok = [][]bookArg{{}}, true
	add := func(xs [][]bookArg) {
		var n [][]bookArg
		for _, o := range out {
			for _, x := range xs {
				n = append(n, append(append([]bookArg{}, o...), x...))
				if len(n) > 512 {
					ok = false
					return
				}
			}
		}
		out = n
	}
	for _, it := range alt {
		switch {
		case it.v != nil:
			var xs [][]bookArg
			for _, a := range c.arg(it.v, it.fr, loop, at) {
				xs = append(xs, []bookArg{a})
			}
			add(xs)
		case it.rep != nil:
			if len(it.rep) != 1 {
				return nil, false
			}
			if tab := c.table(it); tab != nil {
				add([][]bookArg{tab})
				continue
			}
			x, o := c.flat(at, it.rep[0], it.loop)
			if !o {
				return nil, false
			}
			add(x)
		case it.list != nil:
			l := it.list
			if s := c.settingOf(c.p.resolveIfNeeded(l)); s != "" && it.from == 0 {
				add([][]bookArg{{{val: "each " + s, each: s, at: at}}})
				continue
			}
			if q, isQ := l.(*ssa.Parameter); isQ && q.Parent() == c.root && it.from == 0 {
				add([][]bookArg{{{val: "each parameter", each: "parameter", at: at}}})
				continue
			}
			return nil, false
		default:
			return nil, false
		}
	}
	return
}

// table unrolls a loop over a list written out in place, whose elements are arrays or structs.
func (c *bookCheck) table(it listItem) (out []bookArg) {
	l := loopsOf(it.loop.Parent())[it.loop]
	ct := countingOf(l)
	if ct == nil {
		return nil
	}
	n, ok := constInt(ct.bound)
	if !ok {
		u, isC := ct.bound.(*ssa.Call)
		if !isC {
			return nil
		}
		b, isB := u.Call.Value.(*ssa.Builtin)
		if !isB || b.Name() != "len" {
			return nil
		}
		sl, isS := u.Call.Args[0].(*ssa.Slice)
		if !isS {
			return nil
		}
		al, isA := sl.X.(*ssa.Alloc)
		if !isA {
			return nil
		}
		at, isT := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		if !isT {
			return nil
		}
		n = at.Len()
	}
	for _, ex := range ct.exits() {
		if !ct.regular(ex) {
			return nil
		}
	}
	for i := int64(0); i < n; i++ {
		for _, x := range it.rep[0] {
			if x.v == nil {
				return nil
			}
			a, ok := c.row(x.v, x.fr, ct, i)
			if !ok {
				return nil
			}
			a.at = instrOf(x.v, nil)
			out = append(out, a)
		}
	}
	return
}

// row is an argument in the i-th iteration of the loop.
func (c *bookCheck) row(v ssa.Value, fr *shapeFrame, ct *counting, i int64) (a bookArg, ok bool) {
	shs := c.sh.ev2(v, fr)
	if len(shs) != 1 {
		return a, false
	}
	for _, q := range shs[0] {
		if q.v == nil {
			if a.val != "" {
				a.tail = true
			} else {
				a.lit += q.lit
			}
			continue
		}
		e := c.cellOf(q.v, ct, i)
		if e == nil {
			return a, false
		}
		sub := c.sh.ev2(e, fr)
		if len(sub) != 1 {
			return a, false
		}
		for _, s := range sub[0] {
			if s.v == nil {
				if a.val != "" {
					a.tail = true
				} else {
					a.lit += s.lit
				}
				continue
			}
			if a.val != "" {
				return a, false
			}
			a.val = c.value(s, fr, nil, &a)
		}
	}
	return a, true
}

// cellOf is the value of a part of the table's row i.
func (c *bookCheck) cellOf(v ssa.Value, ct *counting, i int64) ssa.Value {
	// the path of constant indices and fields to the row
	var path []int
	for d := 0; d < 12; d++ {
		switch u := v.(type) {
		case *ssa.UnOp:
			if u.Op != token.MUL {
				return nil
			}
			v = u.X
			continue
		case *ssa.Field:
			path = append([]int{u.Field}, path...)
			v = u.X
			continue
		case *ssa.FieldAddr:
			path = append([]int{u.Field}, path...)
			v = u.X
			continue
		case *ssa.Index:
			n, ok := constInt(u.Index)
			if !ok {
				return nil
			}
			path = append([]int{int(n)}, path...)
			v = u.X
			continue
		case *ssa.IndexAddr:
			if u.Index == ct.index || c.p.vkey(u.Index) == c.p.vkey(ct.index) {
				sl, ok := u.X.(*ssa.Slice)
				if !ok {
					return nil
				}
				al, ok := sl.X.(*ssa.Alloc)
				if !ok {
					return nil
				}
				return c.stored(al, append([]int{int(i)}, path...))
			}
			n, ok := constInt(u.Index)
			if !ok {
				return nil
			}
			path = append([]int{int(n)}, path...)
			v = u.X
			continue
		case *ssa.Alloc:
			s := c.p.onlyStore(u)
			if s == nil {
				return nil
			}
			v = s
			continue
		}
		return nil
	}
	return nil
}

// stored is what is stored at the place within the variable.
func (c *bookCheck) stored(a ssa.Value, path []int) (out ssa.Value) {
	if len(path) == 0 {
		for _, rf := range *a.Referrers() {
			if st, ok := rf.(*ssa.Store); ok && st.Addr == a {
				if out != nil {
					return nil
				}
				out = st.Val
			}
		}
		return
	}
	for _, rf := range *a.Referrers() {
		switch u := rf.(type) {
		case *ssa.IndexAddr:
			if n, ok := constInt(u.Index); ok && int(n) == path[0] && u.X == a {
				if s := c.stored(u, path[1:]); s != nil {
					out = s
				}
			}
		case *ssa.FieldAddr:
			if u.Field == path[0] {
				if s := c.stored(u, path[1:]); s != nil {
					out = s
				}
			}
		case *ssa.Store:
			if u.Addr == a {
				// a whole row built elsewhere
				if ld, ok := u.Val.(*ssa.UnOp); ok && ld.Op == token.MUL {
					if s := c.stored(ld.X, path); s != nil {
						out = s
					}
				}
			}
		}
	}
	return
}

// arguments checks one argument list.
func (c *bookCheck) arguments(call ssa.Instruction, alt []listItem, set map[string]bool) {
	lists, ok := c.flat(call, alt, nil)
	if !ok {
		c.r.Undecided("arguments:"+FnName(call.Parent()), c.p.At(call), "the arguments of pandoc are built in a way that isn't known (%s)", c.what)
		return
	}
	for _, args := range lists {
		c.pandocArgs(call, args, set)
	}
}

func (c *bookCheck) pandocArgs(call ssa.Instruction, args []bookArg, set map[string]bool) {
	fn := FnName(call.Parent())
	got := map[string]int{}
	sources := 0
	for i := 0; i < len(args); i++ {
		a := args[i]
		at := c.p.At(call)
		if a.at != nil {
			at = c.p.At(a.at)
		}
		if strings.HasPrefix(a.lit, "-") {
			flag, rest, joined := strings.Cut(a.lit, "=")
			if f, ok := pandocSame[flag]; ok {
				flag = f
			}
			var v bookArg
			switch {
			case joined:
				v = bookArg{lit: rest, val: a.val, each: a.each, tail: a.tail}
			case a.val != "":
				c.bad("flag:"+fn+":"+flag, at, "a value is part of the name of an option: %s", a.lit)
				continue
			case takesValue(flag) && i+1 < len(args):
				i++
				v = args[i]
			default:
				got[flag]++
				continue
			}
			c.flag(fn, at, flag, v, got, set)
			continue
		}
		if a.val == "each parameter" && a.lit == "" && !a.tail {
			sources++
			continue
		}
		c.bad("argument:"+fn, at, "an argument of pandoc that is neither an option nor the list of pages: %s%s", a.lit, a.val)
	}
	for k, f := range pandocMetadata {
		c.r.Count("obligations", 1)
		if got["metadata "+k] != 1 {
			c.bad("metadata:"+k, c.p.At(call), "the metadata %s is not given to pandoc as %s exactly once (%s)", f, k, c.what)
		}
	}
	for _, k := range []string{"--to", "--output"} {
		c.r.Count("obligations", 1)
		if got[k] != 1 {
			c.bad("missing:"+k, c.p.At(call), "the option %s is not given to pandoc exactly once (%s)", k, c.what)
		}
	}
	for _, o := range pandocOptions {
		c.r.Count("obligations", 1)
		for _, f := range o.flags {
			if set[o.field] && got[f] != 1 {
				c.bad("missing:"+f, c.p.At(call), "%s is set, but the option %s is given to pandoc %d times (%s)", o.field, f, got[f], c.what)
			}
			// a list without elements adds nothing
			if !set[o.field] && got[f] != 0 && o.kind != 'l' {
				c.bad("unset:"+f, c.p.At(call), "%s is not set, but the option %s is given to pandoc (%s)", o.field, f, c.what)
			}
		}
	}
	if set["TocDepth"] != (got["--toc"] > 0) {
		c.bad("missing:--toc", c.p.At(call), "the table of contents is not switched on exactly if its depth is set (%s)", c.what)
	}
	c.r.Count("obligations", 1)
	if sources != 1 {
		c.bad("sources", c.p.At(call), "the pages are not given to pandoc exactly once (%s)", c.what)
	}
}

func takesValue(flag string) bool {
	switch flag {
	case "--toc", "--standalone", "-s", "--verbose", "--quiet", "--fail-if-warnings", "--embed-resources", "--self-contained", "--number-sections", "-N", "--sandbox", "--trace", "--preserve-tabs":
		return false
	}
	return true
}

// flag checks the value of an option.
func (c *bookCheck) flag(fn, at, flag string, v bookArg, got map[string]int, set map[string]bool) {
	if v.tail {
		c.bad("value:"+fn+":"+flag, at, "something is appended to the value of the option %s", flag)
	}
	if flag == "--metadata" || flag == "--variable" {
		k := strings.TrimSuffix(v.lit, "=")
		if i := strings.IndexByte(v.lit, ':'); i >= 0 && strings.HasSuffix(v.lit, ":") {
			k = v.lit[:i]
		}
		if k == "lang" {
			k = "language"
		}
		f, known := pandocMetadata[k]
		if !known {
			if strings.HasPrefix(v.val, "metadata ") {
				c.bad("metadata:"+k, at, "%s is given to pandoc as %q, which it doesn't know", v.val, k)
			}
			return
		}
		got["metadata "+k]++
		if v.val != "metadata "+f {
			c.bad("metadata:"+k, at, "the metadata %s of the book is %q instead of the %s of the project", k, v.val, f)
		}
		return
	}
	got[flag]++
	for _, o := range pandocOptions {
		for _, f := range o.flags {
			if f != flag {
				continue
			}
			want := "setting " + o.field
			if o.kind == 'l' {
				want = "each " + o.field
			}
			if v.val != want || v.lit != "" {
				c.bad("value:"+flag, at, "the option %s gets %q instead of the %s", flag, v.lit+v.val, want)
			}
			return
		}
	}
	switch flag {
	case "--output":
		if !strings.HasPrefix(v.val, "parameter ") || v.lit != "" {
			c.bad("value:--output", at, "the output file is %q instead of the one that was given", v.lit+v.val)
		}
		return
	case "--to":
		if v.val != "setting OutputType" && !(v.val == "" && strings.HasPrefix(v.lit, "epub")) {
			c.bad("value:--to", at, "the output format is %q instead of the output type", v.lit+v.val)
		}
		return
	}
	if strings.HasPrefix(v.val, "metadata ") || strings.HasPrefix(v.val, "?") {
		c.bad("value:"+flag, at, "the option %s gets %q", flag, v.val)
	}
}

// object checks the calls on the book object of the library.
func (c *bookCheck) object(g *ssa.Function, set map[string]bool) {
	name := func(in ssa.Instruction) string {
		u, ok := in.(*ssa.Call)
		if !ok {
			return ""
		}
		k := CalleeKey(&u.Call)
		if t, ok := strings.CutPrefix(k, "(*"+epubPkg+".Epub)."); ok {
			return t
		}
		if t, ok := strings.CutPrefix(k, epubPkg+"."); ok {
			return t
		}
		return ""
	}
	isWrite := func(in ssa.Instruction, fr *shapeFrame) bool {
		n := name(in)
		return n == "Write" || n == "WriteTo"
	}
	at := c.p.At(g.Blocks[0].Instrs[0])
	c.r.Count("obligations", 1)
	if !c.lv.always(g, nil, isWrite, nil) {
		c.bad("written", at, "the book is not written on each way to success (%s)", c.what)
		return
	}
	// everything that is called at all
	c.lv.calls(g, nil, func(u *ssa.Call, fr *shapeFrame) bool {
		if _, ok := processSinks[CalleeKey(&u.Call)]; ok {
			c.bad("driver:"+FnName(u.Parent()), c.p.At(u), "with the internal driver an external program is started (%s)", c.what)
			return false
		}
		n := name(u)
		if n == "" {
			return true
		}
		for _, o := range epubOptions {
			if o.call != n || set[o.field] {
				continue
			}
			if v := c.argument(u, fr); v == "setting "+o.field {
				c.bad("unset:"+n, c.p.At(u), "%s is not set but added to the book (%s)", o.field, c.what)
			}
		}
		if n == "SetCover" && !set["CoverImage"] {
			c.bad("unset:SetCover", c.p.At(u), "no cover image is set, but a cover is added to the book (%s)", c.what)
		}
		want := map[string]string{"SetTitle": "Title", "SetAuthor": "Author", "SetLang": "Language"}[n]
		if want != "" {
			if v := c.argument(u, fr); v != "metadata "+want {
				c.bad("metadata:"+n, c.p.At(u), "%s of the book gets %q instead of the %s of the project", n, v, want)
			}
		}
		if n == "Write" && !strings.HasPrefix(c.argument(u, fr), "parameter ") {
			c.bad("value:Write", c.p.At(u), "the book is not written to the given file")
		}
		return false
	})
	must := func(key, text string, hit func(u *ssa.Call, fr *shapeFrame, n string) bool) {
		c.r.Count("obligations", 1)
		if !c.lv.always(g, nil, func(in ssa.Instruction, fr *shapeFrame) bool {
			u, ok := in.(*ssa.Call)
			return ok && hit(u, fr, name(u))
		}, isWrite) {
			c.bad(key, at, "%s on each way to the written book (%s)", text, c.what)
		}
	}
	for _, m := range [][2]string{{"SetTitle", "Title"}, {"SetAuthor", "Author"}, {"SetLang", "Language"}} {
		must("metadata:"+m[0], "the "+m[1]+" of the project isn't given to the book", func(u *ssa.Call, fr *shapeFrame, n string) bool {
			return n == m[0] && c.argument(u, fr) == "metadata "+m[1] || m[0] == "SetTitle" && n == "NewEpub" && c.argument(u, fr) == "metadata Title"
		})
	}
	if set["StyleFile"] {
		must("missing:AddCSS", "the style file isn't added to the book", func(u *ssa.Call, fr *shapeFrame, n string) bool {
			return n == "AddCSS" && c.argument(u, fr) == "setting StyleFile"
		})
	}
	if set["CoverImage"] {
		must("missing:AddImage", "the cover image isn't added to the book", func(u *ssa.Call, fr *shapeFrame, n string) bool {
			return n == "AddImage" && c.argument(u, fr) == "setting CoverImage"
		})
		must("missing:SetCover", "the cover image isn't made the cover", func(u *ssa.Call, fr *shapeFrame, n string) bool {
			return n == "SetCover" && c.isAdded(u.Call.Args[1], fr, "AddImage", "setting CoverImage")
		})
	}
	if set["FontFiles"] {
		// the loop over all fonts
		c.r.Count("obligations", 1)
		if !c.lv.always(g, nil, func(in ssa.Instruction, fr *shapeFrame) bool {
			return c.isFontLoop(in, fr, name)
		}, isWrite) {
			c.bad("missing:AddFont", at, "not each font file is added to the book (%s)", c.what)
		}
	}
	// the style is used by each page
	c.lv.calls(g, nil, func(u *ssa.Call, fr *shapeFrame) bool {
		n := name(u)
		if n == "AddSection" || n == "AddSubSection" {
			c.r.Count("obligations", 1)
			css := u.Call.Args[len(u.Call.Args)-1]
			if n == "AddSection" && len(u.Call.Args) > 2 {
				c.titles(u.Call.Args[2], c.p.At(u))
			}
			if set["StyleFile"] && !c.isAdded(css, fr, "AddCSS", "setting StyleFile") {
				c.bad("style", c.p.At(u), "the pages of the book don't use the configured style (%s)", c.what)
			}
			return false
		}
		return n == ""
	})
}

// argument describes the first argument of a call on the book object.
func (c *bookCheck) argument(u *ssa.Call, fr *shapeFrame) string {
	i := 1
	if u.Call.Signature().Recv() == nil {
		i = 0
	}
	if i >= len(u.Call.Args) {
		return ""
	}
	out := ""
	for _, a := range c.arg(u.Call.Args[i], fr, nil, u) {
		t := a.lit + a.val
		if a.tail {
			t += "..."
		}
		if out != "" && out != t {
			return out + " or " + t
		}
		out = t
	}
	return out
}

// isAdded: the value is the path by which something added to the book is known there.
func (c *bookCheck) isAdded(v ssa.Value, fr *shapeFrame, call, what string) bool {
	for d := 0; d < 20; d++ {
		switch u := v.(type) {
		case *ssa.Parameter:
			if a, up, ok := frameArg(u, fr); ok {
				v, fr = a, up
				continue
			}
			return false
		case *ssa.Phi:
			lb := c.lv.of(u.Parent(), c.frameOf(u.Parent(), fr))
			var only ssa.Value
			for i, e := range u.Edges {
				if lb.edges[[2]*ssa.BasicBlock{u.Block().Preds[i], u.Block()}] && e != ssa.Value(u) {
					if only != nil && only != e {
						return false
					}
					only = e
				}
			}
			if only == nil {
				return false
			}
			v = only
			continue
		case *ssa.Extract:
			x, ok := u.Tuple.(*ssa.Call)
			if !ok || u.Index != 0 {
				return false
			}
			if CalleeKey(&x.Call) == "(*"+epubPkg+".Epub)."+call {
				return c.argument(x, fr) == what
			}
			f := x.Call.StaticCallee()
			if f == nil || !c.p.IsRepoFn(f) || len(f.Blocks) == 0 {
				return false
			}
			n := &shapeFrame{call: x, fn: f, up: fr}
			lb := c.lv.of(f, n)
			var only ssa.Value
			for _, b := range f.Blocks {
				ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
				if !ok || b == f.Recover || !lb.blocks[b] || errorReturn(ret) {
					continue
				}
				r := resultOf(ret, u.Index)
				if only != nil && only != r {
					return false
				}
				only = r
			}
			if only == nil {
				return false
			}
			v, fr = only, n
			continue
		}
		n := c.p.resolveStep(v)
		if n == nil || n == v {
			return false
		}
		v = n
	}
	return false
}

func (c *bookCheck) frameOf(f *ssa.Function, fr *shapeFrame) *shapeFrame {
	for x := fr; x != nil; x = x.up {
		if x.fn == f {
			return x
		}
	}
	return fr
}

// isFontLoop: the instruction starts the loop that adds all font files.
func (c *bookCheck) isFontLoop(in ssa.Instruction, fr *shapeFrame, name func(in ssa.Instruction) string) bool {
	b := in.Block()
	l := loopsOf(b.Parent())[b]
	if l == nil || in != b.Instrs[0] {
		return false
	}
	for x := range l.blocks {
		for _, y := range x.Instrs {
			if name(y) != "AddFont" && !c.callsAddFont(y, fr, name) {
				continue
			}
			if !l.everyIteration(x) {
				return false
			}
			u := y.(*ssa.Call)
			if name(y) == "AddFont" {
				for _, a := range c.arg(u.Call.Args[1], fr, l.head, u) {
					if a.val == "each FontFiles" && a.lit == "" && !a.tail {
						return true
					}
				}
				return false
			}
			for _, z := range u.Call.Args {
				if _, ok := z.Type().Underlying().(*types.Basic); !ok {
					continue
				}
				for _, a := range c.arg(z, fr, l.head, u) {
					if a.val == "each FontFiles" && a.lit == "" && !a.tail {
						return true
					}
				}
			}
			return false
		}
	}
	return false
}

// callsAddFont: a helper that always adds the font it's given.
func (c *bookCheck) callsAddFont(in ssa.Instruction, fr *shapeFrame, name func(in ssa.Instruction) string) bool {
	u, ok := in.(*ssa.Call)
	if !ok {
		return false
	}
	f := u.Call.StaticCallee()
	if f == nil || !c.p.IsRepoFn(f) || len(f.Blocks) == 0 {
		return false
	}
	n := &shapeFrame{call: u, fn: f, up: fr}
	return c.lv.always(f, n, func(in ssa.Instruction, fr *shapeFrame) bool {
		x, ok := in.(*ssa.Call)
		if !ok || name(in) != "AddFont" {
			return false
		}
		_, isP := x.Call.Args[1].(*ssa.Parameter)
		return isP
	}, nil)
}

// given: the metadata handed over is the one of the project.
func (c *bookCheck) given(g *ssa.Function, sites []ssa.CallInstruction) {
	whole := 0
	for _, s := range sites {
		for _, q := range g.Params {
			if !isMetadata(q.Type()) {
				continue
			}
			c.r.Count("obligations", 1)
			v := c.p.resolve(siteArg(s, q))
			if c.isProjectMetadata(v) {
				whole++
				continue
			}
			// made in place for a single file without project: at least the title has to be there
			if ld, ok := v.(*ssa.UnOp); ok && ld.Op == token.MUL {
				if al, ok := ld.X.(*ssa.Alloc); ok && c.p.onlyFieldStore(al, 0) != nil {
					continue
				}
			}
			c.bad("given:"+FnName(s.Parent()), c.p.At(s), "the metadata given for the book is not the one of the project")
		}
	}
	if whole == 0 {
		c.bad("given", c.p.At(g.Blocks[0].Instrs[0]), "the metadata of a project is not used for the book")
	}
	// and it's not changed on the way
	for _, f := range c.p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || !isMetadata(fa.X.Type()) {
					continue
				}
				if al, isA := fa.X.(*ssa.Alloc); isA && al.Comment == "complit" {
					continue
				}
				base := c.p.resolve(fa.X)
				if al, isA := base.(*ssa.Alloc); isA && al.Comment == "complit" {
					continue
				}
				// a copy that becomes the composite literal
				if al, isA := base.(*ssa.Alloc); isA && c.p.onlyStore(al) == nil && c.noWholeStore(al) {
					continue
				}
				c.bad("changed:"+FnName(f), c.p.At(st), "the metadata of the project is changed (%s)", fieldVar(fa.X.Type(), fa.Field).Name())
			}
		}
	}
}

// noWholeStore: the variable is only filled field by field.
func (c *bookCheck) noWholeStore(al *ssa.Alloc) bool {
	for _, rf := range *al.Referrers() {
		if st, ok := rf.(*ssa.Store); ok && st.Addr == ssa.Value(al) {
			return false
		}
	}
	return true
}

func (c *bookCheck) isProjectMetadata(v ssa.Value) bool {
	for d := 0; d < 5; d++ {
		switch u := v.(type) {
		case *ssa.UnOp:
			if u.Op != token.MUL {
				return false
			}
			if fa, ok := u.X.(*ssa.FieldAddr); ok {
				fv := fieldVar(fa.X.Type(), fa.Field)
				return fv != nil && fv.Name() == "Metadata" && strings.HasSuffix(fv.Pkg().Path(), "/config")
			}
			if al, ok := u.X.(*ssa.Alloc); ok {
				if s := c.p.onlyStore(al); s != nil {
					v = c.p.resolve(s)
					continue
				}
			}
			return false
		case *ssa.FieldAddr:
			fv := fieldVar(u.X.Type(), u.Field)
			return fv != nil && fv.Name() == "Metadata"
		case *ssa.Field:
			fv := fieldVar(u.X.Type(), u.Field)
			return fv != nil && fv.Name() == "Metadata"
		}
		return false
	}
	return false
}

// tags: the metadata is read from the project file under its own names.
func (c *bookCheck) tags() {
	for _, pk := range c.p.Pkgs {
		if pk.Types.Name() != "config" {
			continue
		}
		o := pk.Types.Scope().Lookup("Metadata")
		if o == nil {
			continue
		}
		st, ok := o.Type().Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			c.r.Count("obligations", 1)
			name, _, _ := strings.Cut(reflect.StructTag(st.Tag(i)).Get("json"), ",")
			if name == "" {
				name = f.Name()
			}
			if !strings.EqualFold(name, f.Name()) {
				c.bad("tag:"+f.Name(), c.p.Pos(f.Pos()), "the metadata %s is read from the project file under the name %q", f.Name(), name)
			}
		}
	}
}
