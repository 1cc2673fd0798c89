package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"regexp/syntax"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C23", Title: "Generated markup is well nested",
		Rule: "on every path of each function writing markup, the text it returns consists of literals and inserted values; read by an HTML tokenizer, elements are closed in the order opposite to opening them, attributes are complete and quoted, inserted values fit the place they are inserted into (text, attribute list, attribute value, level of a heading) and the element around them, each format verb has its own argument; opening and closing markers are replaced by the opening and closing tag of the same element, and the parser emits them well nested in each state its search for bold and italic text can be in",
		Run:  runC23})
}

type markupCheck struct {
	p *Program
	r *Report
	// type making pages, interface it is used by
	page  *types.Named
	iface *types.Interface
	entry map[*ssa.Function]bool
	tops  map[*ssa.Function]map[string]bool
	busy  map[*ssa.Function]bool
	place *placeCheck
	attrs map[*types.Var]bool
	many  bool
	// elements the markers stand for
	tag map[string]string
}

func runC23(p *Program, r *Report) {
	c := &markupCheck{p: p, r: r, entry: map[*ssa.Function]bool{}, tops: map[*ssa.Function]map[string]bool{}, busy: map[*ssa.Function]bool{}, attrs: map[*types.Var]bool{}}
	c.place = &placeCheck{p: p, r: r, sh: &shaper{p: p, max: 512}}
	if !c.findPage() {
		r.Undecided("page", "-", "the function making whole pages was not found")
		return
	}
	c.handlers()
	c.attributes()
	c.markers()
	c.formatting()
	r.AtLeast("whole pages", 1)
	r.AtLeast("functions writing markup", 15)
	r.AtLeast("texts analysed", 30)
	r.AtLeast("markers of formatting", 4)
	r.AtLeast("states of the search for formatting", 8)
}

func (c *markupCheck) bad(key string, in ssa.Instruction, format string, args ...any) {
	at := "-"
	if in != nil {
		at = c.p.At(in)
	}
	c.r.Bad(key, at, format, args...)
}

// --- finding the functions ---

func isStringType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// findPage looks for the place a whole page is handed over.
func (c *markupCheck) findPage() bool {
	for _, fn := range c.p.Funcs {
		if !inPkg(fn, "generator") || fn.Signature.Recv() == nil || !c.mentions(fn, "</html>") {
			continue
		}
		n, _ := namedStruct(fn.Signature.Recv().Type())
		if n == nil {
			continue
		}
		c.page = n
		// the interface
		sc := n.Obj().Pkg().Scope()
		for _, name := range sc.Names() {
			if tn, ok := sc.Lookup(name).(*types.TypeName); ok {
				if i, ok := tn.Type().Underlying().(*types.Interface); ok && i.NumMethods() >= 5 && types.Implements(types.NewPointer(n), i) {
					c.iface = i
				}
			}
		}
		if c.iface == nil {
			return false
		}
		for i := 0; i < c.iface.NumMethods(); i++ {
			if f := c.method(c.iface.Method(i).Name()); f != nil {
				c.entry[f] = true
			}
		}
		c.root(fn)
		return true
	}
	return false
}

func (c *markupCheck) method(name string) *ssa.Function {
	for _, fn := range c.p.Funcs {
		if fn.Signature.Recv() == nil || fn.Name() != name || fn.Synthetic != "" {
			continue
		}
		if n, _ := namedStruct(fn.Signature.Recv().Type()); n == c.page {
			return fn
		}
	}
	return nil
}

// mentions: a text used by the function (or a helper of the package, but not another entry) contains t.
func (c *markupCheck) mentions(fn *ssa.Function, t string) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				if *op == nil {
					continue
				}
				if strings.Contains(constText(*op), t) {
					return true
				}
				if k, ok := in.(*ssa.Call); ok {
					if f := k.Call.StaticCallee(); f != nil && f != fn && inPkg(f, "generator") && f.Signature.Recv() == nil && len(f.Blocks) > 0 {
						for _, b2 := range f.Blocks {
							for _, i2 := range b2.Instrs {
								for _, o2 := range i2.Operands(nil) {
									if *o2 != nil && strings.Contains(constText(*o2), t) {
										return true
									}
								}
							}
						}
					}
				}
			}
		}
	}
	return false
}

// root checks the text of a whole page.
func (c *markupCheck) root(fn *ssa.Function) {
	found := false
	c.paths(fn, func(b *ssa.BasicBlock) bool { return len(b.Succs) == 0 }, func(w *cfgPath) {
		for i, b := range w.blocks {
			for _, in := range b.Instrs {
				k, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				f := k.Call.StaticCallee()
				isReader := CalleeKey(&k.Call) == "strings.NewReader"
				if !isReader && (f == nil || !c.p.IsRepoFn(f) || f.Signature.Results().Len() == 0 || !hasErrorResult(&k.Call)) {
					continue
				}
				for _, a := range k.Call.Args {
					if !isStringType(a.Type()) {
						continue
					}
					ctx := &markupCtx{c: c, fn: fn, w: w}
					for _, s := range ctx.ev(a, i, 0) {
						if !strings.Contains(s.text(), "<html") {
							continue
						}
						found = true
						c.r.Count("whole pages", 1)
						c.judge(fn, k, s, w, nil)
					}
				}
			}
		}
	})
	if !found {
		c.bad("page", fn.Blocks[0].Instrs[0], "undecided: the text of a whole page was not found")
	}
}

// handlers checks what each function for an element of a page returns.
func (c *markupCheck) handlers() {
	var fns []*ssa.Function
	for f := range c.entry {
		fns = append(fns, f)
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].Name() < fns[j].Name() })
	for _, f := range fns {
		if f.Signature.Results().Len() == 0 || !isStringType(f.Signature.Results().At(0).Type()) || len(f.Blocks) == 0 {
			continue
		}
		c.r.Count("functions writing markup", 1)
		c.topsOf(f)
	}
	if c.many {
		c.bad("paths", nil, "undecided: too many paths in a function writing markup")
	}
}

// topsOf checks a function and returns the outermost elements of what it returns.
func (c *markupCheck) topsOf(f *ssa.Function) map[string]bool {
	if t, ok := c.tops[f]; ok {
		return t
	}
	if c.busy[f] {
		return map[string]bool{"?": true}
	}
	c.busy[f] = true
	defer delete(c.busy, f)
	tops := map[string]bool{}
	c.paths(f, func(b *ssa.BasicBlock) bool {
		_, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		return ok
	}, func(w *cfgPath) {
		b := w.last()
		ret := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if errorReturn(ret) || b == f.Recover {
			return
		}
		ctx := &markupCtx{c: c, fn: f, w: w}
		for _, s := range ctx.ev(resultOf(ret, 0), len(w.blocks)-1, 0) {
			c.r.Count("texts analysed", 1)
			c.judge(f, ret, s, w, tops)
		}
	})
	c.tops[f] = tops
	return tops
}

// paths visits the feasible paths from the start of the function; loops are run at most twice.
func (c *markupCheck) paths(fn *ssa.Function, goal func(b *ssa.BasicBlock) bool, visit func(w *cfgPath)) {
	for limit := 3; limit >= 2; limit-- {
		var all []*cfgPath
		n := 0
		count := map[*ssa.BasicBlock]int{}
		var path []*ssa.BasicBlock
		var walk func(b *ssa.BasicBlock) bool
		walk = func(b *ssa.BasicBlock) bool {
			if n++; n > 60000 || len(all) > 6000 {
				return false
			}
			if count[b] >= limit {
				return true
			}
			count[b]++
			path = append(path, b)
			defer func() { count[b]--; path = path[:len(path)-1] }()
			if goal(b) {
				w := &cfgPath{p: c.p, blocks: append([]*ssa.BasicBlock{}, path...)}
				if w.feasible() && c.consistent(w) {
					all = append(all, w)
				}
				return true
			}
			for _, s := range b.Succs {
				if !walk(s) {
					return false
				}
			}
			return true
		}
		if walk(fn.Blocks[0]) {
			for _, w := range all {
				visit(w)
			}
			return
		}
	}
	c.many = true
}

// consistent: no path decides the same condition about the element given to the function in two ways.
func (c *markupCheck) consistent(w *cfgPath) bool {
	seen := map[string]bool{}
	for _, f := range w.facts() {
		in, ok := f.cond.(ssa.Instruction)
		if !ok || w.twice(in.Block()) || !c.fixedCond(f.cond, 0) {
			continue
		}
		k := c.p.vkey(f.cond)
		v := f.val
		if b, ok := f.cond.(*ssa.BinOp); ok {
			x, y := c.p.vkey(b.X), c.p.vkey(b.Y)
			switch b.Op {
			case token.EQL, token.NEQ:
				if y < x {
					x, y = y, x
				}
				k = "eq " + x + " " + y
				v = v == (b.Op == token.EQL)
			default:
				k = b.Op.String() + " " + x + " " + y
			}
		}
		if o, ok := seen[k]; ok && o != v {
			return false
		}
		seen[k] = v
	}
	return true
}

// fixedCond: the value only depends on parameters and constants.
func (c *markupCheck) fixedCond(v ssa.Value, d int) bool {
	if d > 10 {
		return false
	}
	switch u := v.(type) {
	case *ssa.Const, *ssa.Parameter:
		return true
	case *ssa.BinOp:
		return c.fixedCond(u.X, d+1) && c.fixedCond(u.Y, d+1)
	case *ssa.Field:
		return c.fixedCond(u.X, d+1)
	case *ssa.FieldAddr:
		if al, ok := u.X.(*ssa.Alloc); ok {
			st := 0
			for _, r := range *al.Referrers() {
				switch x := r.(type) {
				case *ssa.Store:
					if _, isP := x.Val.(*ssa.Parameter); !isP || x.Addr != ssa.Value(al) {
						return false
					}
					st++
				case *ssa.FieldAddr:
					for _, rr := range *x.Referrers() {
						if s, ok := rr.(*ssa.Store); ok && s.Addr == ssa.Value(x) {
							return false
						}
					}
				case *ssa.DebugRef, *ssa.UnOp:
				default:
					return false
				}
			}
			return st == 1
		}
		return false
	case *ssa.UnOp:
		if u.Op == token.MUL {
			if _, ok := u.X.(*ssa.FieldAddr); ok {
				return c.fixedCond(u.X, d+1)
			}
			return false
		}
		return c.fixedCond(u.X, d+1)
	case *ssa.Call:
		if CalleeKey(&u.Call) == "builtin.len" {
			return c.fixedCond(u.Call.Args[0], d+1)
		}
	}
	return false
}

// --- texts ---

// A markPart is a literal or an inserted value.
type markPart struct {
	lit  string
	kind string // "" literal, "text" (markup), "article", "int", "attrs", "safe", "other"
	key  string
	tops map[string]bool
}

type markText []markPart

func (t markText) text() (s string) {
	for _, q := range t {
		if q.kind == "" {
			s += q.lit
		} else {
			s += "\x00"
		}
	}
	return
}

// A markupCtx is a path through a function, called from a position of another one.
type markupCtx struct {
	c    *markupCheck
	fn   *ssa.Function
	w    *cfgPath
	up   *markupCtx
	call *ssa.Call
	at   int
}

func markLit(s string) []markText {
	if s == "" {
		return []markText{{}}
	}
	return []markText{{{lit: s}}}
}

func (x *markupCtx) concat(a, b []markText) (out []markText) {
	for _, p := range a {
		for _, q := range b {
			if len(out) > 400 {
				x.c.many = true
				return
			}
			if n := len(p); n > 0 && len(q) > 0 && p[n-1].kind == "" && q[0].kind == "" {
				t := append(markText{}, p...)
				t[n-1].lit += q[0].lit
				out = append(out, append(t, q[1:]...))
				continue
			}
			out = append(out, append(append(markText{}, p...), q...))
		}
	}
	return
}

func hole(kind string) []markText { return []markText{{{kind: kind}}} }

// articleField: the value is a text of an element or article.
func articleField(fv *types.Var) bool {
	return fv != nil && fv.Pkg() != nil && strings.HasSuffix(fv.Pkg().Path(), "/parser")
}

func fieldOf(v ssa.Value) *types.Var {
	switch u := v.(type) {
	case *ssa.UnOp:
		if fa, ok := u.X.(*ssa.FieldAddr); ok && u.Op == token.MUL {
			return fieldVar(fa.X.Type(), fa.Field)
		}
	case *ssa.Field:
		return fieldVar(u.X.Type(), u.Field)
	}
	return nil
}

// quoteFree: the call's result cannot contain quotes.
func quoteFree(k string) bool {
	switch k {
	case "net/url.QueryEscape", "net/url.PathEscape", "html.EscapeString", "(*net/url.URL).String", "(*net/url.URL).EscapedPath", "encoding/hex.EncodeToString":
		return true
	}
	return strings.HasPrefix(k, "strconv.Itoa") || strings.HasPrefix(k, "strconv.Format")
}

func (x *markupCtx) ev(v ssa.Value, i int, d int) []markText {
	if d > 80 {
		return hole("other")
	}
	v, i = x.w.val(v, i)
	if x.empty(v, i) {
		return markLit("")
	}
	if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
		return []markText{{{kind: "int", key: x.c.p.vkey(v)}}}
	}
	switch u := v.(type) {
	case *ssa.Const:
		if u.Value != nil && u.Value.Kind() == constant.String {
			return markLit(constant.StringVal(u.Value))
		}
	case *ssa.BinOp:
		if u.Op == token.ADD {
			return x.concat(x.ev(u.X, i, d+1), x.ev(u.Y, i, d+1))
		}
	case *ssa.Convert:
		if isStringType(u.X.Type()) {
			return x.ev(u.X, i, d+1)
		}
	case *ssa.Parameter:
		if x.up != nil {
			for k, q := range x.fn.Params {
				if q == u && k < len(x.call.Call.Args) {
					return x.up.ev(x.call.Call.Args[k], x.at, d+1)
				}
			}
		}
		return hole("article")
	case *ssa.Field, *ssa.UnOp:
		if fv := fieldOf(v); fv != nil {
			if articleField(fv) {
				return hole("article")
			}
			return hole("other")
		}
		if un, ok := v.(*ssa.UnOp); ok && un.Op == token.MUL {
			if g, ok := un.X.(*ssa.Global); ok {
				if st := x.c.p.GlobalStores(g); len(st) == 1 {
					if t := constText(st[0].Val); t != "\x00" {
						return markLit(t)
					}
				}
			}
			if ia, ok := un.X.(*ssa.IndexAddr); ok {
				// an element of a list or of a table of texts
				if out := x.element(ia, i, d); out != nil {
					return out
				}
			}
		}
	case *ssa.Slice:
		return x.partOf(x.ev(u.X, i, d+1))
	case *ssa.Extract:
		if k, ok := u.Tuple.(*ssa.Call); ok {
			return x.result(k, u.Index, i, d)
		}
		if lk, ok := u.Tuple.(*ssa.Lookup); ok {
			return x.lookup(lk, i, d)
		}
	case *ssa.Lookup:
		return x.lookup(u, i, d)
	case *ssa.Call:
		return x.result(u, 0, i, d)
	}
	if n := x.c.p.resolveStep(v); n != nil && n != v {
		return x.ev(n, i, d+1)
	}
	return hole("other")
}

// empty: the path has found the text to be empty.
func (x *markupCtx) empty(v ssa.Value, i int) bool {
	if !isStringType(v.Type()) {
		return false
	}
	if in, ok := v.(ssa.Instruction); ok && x.w.twice(in.Block()) {
		return false
	}
	for _, f := range x.w.facts() {
		b, ok := f.cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		l, _ := x.w.val(b.X, f.at)
		r, _ := x.w.val(b.Y, f.at)
		op := b.Op
		if constText(l) == "" && op != token.LSS && op != token.GTR {
			l, r = r, l
		}
		if l == v && constText(r) == "" && (op == token.EQL && f.val || op == token.NEQ && !f.val || op == token.GTR && !f.val) {
			return true
		}
		k, ok := l.(*ssa.Call)
		if !ok || CalleeKey(&k.Call) != "builtin.len" {
			continue
		}
		if a, _ := x.w.val(k.Call.Args[0], f.at); a != v {
			continue
		}
		if n, ok := constInt(r); ok && n == 0 && (op == token.EQL && f.val || (op == token.NEQ || op == token.GTR) && !f.val) {
			return true
		}
		if n, ok := constInt(r); ok && n == 1 && (op == token.LSS && f.val || op == token.GEQ && !f.val) {
			return true
		}
	}
	return false
}

// partOf is a part of a text.
func (x *markupCtx) partOf(ts []markText) []markText {
	kind := "other"
	for _, t := range ts {
		for _, q := range t {
			if q.kind == "article" || q.kind == "text" {
				kind = "article"
			}
		}
	}
	return hole(kind)
}

// lookup: a text out of a table.
func (x *markupCtx) lookup(u *ssa.Lookup, i, d int) (out []markText) {
	if !isStringType(u.Type()) && !u.CommaOk {
		return hole("other")
	}
	mk, ok := x.c.p.resolve(u.X).(*ssa.MakeMap)
	if !ok {
		return hole("other")
	}
	for _, r := range *mk.Referrers() {
		if mu, ok := r.(*ssa.MapUpdate); ok {
			t := constText(mu.Value)
			if t == "\x00" {
				return hole("other")
			}
			out = append(out, markLit(t)...)
		}
	}
	if out == nil {
		return hole("other")
	}
	return
}

// element: an element of a list that is known.
func (x *markupCtx) element(ia *ssa.IndexAddr, i, d int) (out []markText) {
	for _, l := range x.list(ia.X, i, d+1) {
		for _, e := range l {
			if e.v == nil {
				if e.kind == "attrs" {
					return hole("other")
				}
				return nil
			}
			out = append(out, x.ev(e.v, e.at, d+1)...)
		}
	}
	return
}

// result is a result of a call.
func (x *markupCtx) result(k *ssa.Call, idx, i, d int) []markText {
	key := CalleeKey(&k.Call)
	args := k.Call.Args
	switch key {
	case "fmt.Sprintf":
		return x.format(k, args[0], args[1], i, d)
	case "fmt.Sprint":
		out := markLit("")
		for _, a := range variadicArgs(args[0]) {
			if a == nil {
				return hole("other")
			}
			out = x.concat(out, x.ev(a, i, d+1))
		}
		return out
	case "strings.Join":
		return x.join(args[0], args[1], i, d)
	case "strings.TrimSpace", "strings.Trim", "strings.TrimRight", "strings.TrimLeft", "strings.TrimSuffix", "strings.TrimPrefix", "strings.ToValidUTF8":
		ts := x.ev(args[0], i, d+1)
		for _, t := range ts {
			for n, q := range t {
				if q.kind == "" && (n == 0 || n == len(t)-1) && strings.ContainsAny(q.lit, "<>") && key != "strings.TrimSpace" {
					return hole("other")
				}
			}
		}
		return ts
	case "strings.Repeat":
		ts := x.ev(args[0], i, d+1)
		if n, ok := constInt(args[1]); ok && n >= 0 && n < 20 {
			out := markLit("")
			for ; n > 0; n-- {
				out = x.concat(out, ts)
			}
			return out
		}
		return hole("other")
	case "strings.ReplaceAll", "strings.Replace":
		old := x.ev(args[1], i, d+1)
		by := x.ev(args[2], i, d+1)
		ts := x.ev(args[0], i, d+1)
		if len(old) != 1 || len(old[0]) != 1 || old[0][0].kind != "" {
			return hole("other")
		}
		o := old[0][0].lit
		once := key == "strings.Replace"
		var out []markText
		for _, t := range ts {
			cur := markLit("")
			for _, q := range t {
				if q.kind != "" {
					if o == `"` && len(by) == 1 && !strings.Contains(by[0].text(), `"`) && q.kind == "article" && !once {
						q.kind = "safe"
					}
					cur = x.concat(cur, []markText{{q}})
					continue
				}
				ps := strings.Split(q.lit, o)
				if n := 1; once {
					if m, ok := constInt(args[3]); ok && m < 0 {
						n = -1
					} else if ok {
						n = int(m) + 1
					}
					ps = strings.SplitN(q.lit, o, n)
				}
				for n, s := range ps {
					if n > 0 {
						cur = x.concat(cur, by)
					}
					cur = x.concat(cur, markLit(s))
				}
			}
			out = append(out, cur...)
		}
		return out
	case "(*strings.Builder).String", "(*bytes.Buffer).String":
		return x.builder(k, i, d)
	case "html.EscapeString":
		return hole("safe")
	}
	if key == "strconv.Itoa" || key == "strconv.FormatInt" {
		a, j := x.w.val(args[0], i)
		if cv, ok := a.(*ssa.Convert); ok {
			a, _ = x.w.val(cv.X, j)
		}
		return []markText{{{kind: "int", key: x.c.p.vkey(a)}}}
	}
	if quoteFree(key) {
		return hole("safe")
	}
	// markup of elements and texts
	if out, ok := x.inner(k); ok {
		return out
	}
	f := k.Call.StaticCallee()
	if f == nil || !x.c.p.IsRepoFn(f) || len(f.Blocks) == 0 {
		if strings.HasPrefix(key, "strings.") || strings.HasPrefix(key, "path.") || strings.HasPrefix(key, "path/filepath.") {
			// made from its arguments
			for _, a := range args {
				as := []ssa.Value{a}
				if els := variadicArgs(a); els != nil {
					as = els
				}
				for _, a := range as {
					if a == nil || !isStringType(a.Type()) {
						continue
					}
					for _, t := range x.ev(a, i, d+1) {
						for _, q := range t {
							if q.kind == "article" {
								return hole("article")
							}
						}
					}
				}
			}
		}
		return hole("other")
	}
	if !inPkg(f, "generator") && !isStringType(f.Signature.Results().At(idx).Type()) {
		return hole("other")
	}
	for y := x; y != nil; y = y.up {
		if y.fn == f {
			return hole("other")
		}
	}
	var out []markText
	seen := map[string]bool{}
	x.c.paths(f, func(b *ssa.BasicBlock) bool {
		_, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		return ok
	}, func(w *cfgPath) {
		ret := w.last().Instrs[len(w.last().Instrs)-1].(*ssa.Return)
		if errorReturn(ret) || w.last() == f.Recover {
			return
		}
		n := &markupCtx{c: x.c, fn: f, w: w, up: x, call: k, at: i}
		if !n.possible() {
			return
		}
		for _, t := range n.ev(resultOf(ret, idx), len(w.blocks)-1, d+1) {
			if s := fmt.Sprint(t); !seen[s] {
				seen[s] = true
				out = append(out, t)
			}
		}
	})
	if out == nil {
		return hole("other")
	}
	return out
}

// possible: the path doesn't contradict constant arguments.
func (x *markupCtx) possible() bool {
	for _, f := range x.w.facts() {
		v, want := f.cond, f.val
		if q, ok := v.(*ssa.Parameter); ok {
			if b, ok := x.constArg(q); ok && b.Kind() == constant.Bool && constant.BoolVal(b) != want {
				return false
			}
		}
		if b, ok := v.(*ssa.BinOp); ok {
			cx, ok1 := x.constArg(b.X)
			cy, ok2 := x.constArg(b.Y)
			if ok1 && ok2 && cx.Kind() == cy.Kind() {
				switch b.Op {
				case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
					if constant.Compare(cx, b.Op, cy) != want {
						return false
					}
				}
			}
		}
	}
	return true
}

func (x *markupCtx) constArg(v ssa.Value) (constant.Value, bool) {
	if k, ok := v.(*ssa.Const); ok && k.Value != nil {
		return k.Value, true
	}
	if q, ok := v.(*ssa.Parameter); ok && x.up != nil {
		for n, r := range x.fn.Params {
			if r == q && n < len(x.call.Call.Args) {
				a, _ := x.up.w.val(x.call.Call.Args[n], x.at)
				return x.up.constArg(a)
			}
		}
	}
	return nil, false
}

// inner: the call makes the markup of something within the page.
func (x *markupCtx) inner(k *ssa.Call) ([]markText, bool) {
	c := x.c
	for _, f := range c.p.Callees(&k.Call) {
		if c.entry[f] {
			if !isStringType(f.Signature.Results().At(0).Type()) {
				return nil, false
			}
			return []markText{{{kind: "text", tops: c.topsOf(f)}}}, true
		}
	}
	f := k.Call.StaticCallee()
	if f == nil || !inPkg(f, "generator") || f.Signature.Params().Len() == 0 || f.Signature.Results().Len() == 0 {
		return nil, false
	}
	if !isStringType(f.Signature.Results().At(0).Type()) || !types.Identical(f.Params[0].Type().Underlying(), c.iface) {
		return nil, false
	}
	q := markPart{kind: "text", tops: map[string]bool{"?": true}}
	for _, a := range k.Call.Args[1:] {
		if mi, ok := a.(*ssa.MakeInterface); ok {
			a = mi.X
		}
		if h := c.handlerOf(a.Type()); h != nil {
			q.tops = c.topsOf(h)
		}
	}
	return []markText{{q}}, true
}

// handlerOf is the function for an element of this type.
func (c *markupCheck) handlerOf(t types.Type) *ssa.Function {
	n, _ := namedStruct(t)
	if n == nil {
		return nil
	}
	for f := range c.entry {
		if len(f.Params) == 2 && types.Identical(f.Params[1].Type(), t) {
			return f
		}
	}
	return nil
}

// format is a formatted text.
func (x *markupCtx) format(k *ssa.Call, fv, av ssa.Value, i, d int) (out []markText) {
	args := variadicArgs(av)
	for _, f := range x.ev(fv, i, d+1) {
		if len(f) > 1 || len(f) == 1 && f[0].kind != "" {
			x.c.bad("template:"+k.Parent().Name(), k, "undecided: the template of a text is not known")
			out = append(out, hole("other")...)
			continue
		}
		t := f.text()
		cur := markLit("")
		n := 0
		lit := ""
		ok := true
		used := map[int]bool{}
		for p := 0; p < len(t); p++ {
			if t[p] != '%' {
				lit += string(t[p])
				continue
			}
			if p++; p >= len(t) {
				ok = false
				break
			}
			if t[p] == '%' {
				lit += "%"
				continue
			}
			cur = x.concat(cur, markLit(lit))
			lit = ""
			if t[p] == '[' {
				if e := strings.IndexByte(t[p:], ']'); e > 0 {
					if m, err := strconv.Atoi(t[p+1 : p+e]); err == nil && m >= 1 && p+e+1 < len(t) {
						n = m - 1
						p += e + 1
					}
				}
			}
			if n >= len(args) || args[n] == nil {
				ok = false
				break
			}
			a := args[n]
			if mi, isM := a.(*ssa.MakeInterface); isM {
				a = mi.X
			}
			used[n] = true
			n++
			b, isB := a.Type().Underlying().(*types.Basic)
			isStr := isB && b.Info()&types.IsString != 0
			isNum := isB && b.Info()&types.IsInteger != 0
			switch {
			case t[p] == 's' && isStr, t[p] == 'd' && isNum, t[p] == 'v' && (isStr || isNum):
				cur = x.concat(cur, x.ev(a, i, d+1))
			case t[p] == 'q' || t[p] == 'x' || t[p] == 'X' || t[p] == 'c' || t[p] == 'f' || t[p] == 'p' || t[p] == 't' || t[p] == 's' || t[p] == 'd' || t[p] == 'v':
				x.c.bad("verb:"+k.Parent().Name(), k, "a value of another kind than %%%c expects is inserted into %q", t[p], shorten(t))
				ok = false
			default:
				x.c.bad("verb:"+k.Parent().Name(), k, "undecided: verb in %q", shorten(t))
				ok = false
			}
			if !ok {
				break
			}
		}
		if ok && len(used) != len(args) {
			ok = false
		}
		if !ok {
			x.c.bad("arguments:"+k.Parent().Name(), k, "not every placeholder of %q is filled exactly once by a value of its kind", shorten(t))
			out = append(out, hole("other")...)
			continue
		}
		out = append(out, x.concat(cur, markLit(lit))...)
	}
	return
}

func shorten(s string) string {
	s = strings.ReplaceAll(s, "\n", " ")
	if len(s) > 40 {
		return s[:40] + "…"
	}
	return s
}

// A markItem is an element of a list of texts.
type markItem struct {
	v    ssa.Value
	at   int
	kind string // of elements not known
	key  string
	ctx  *markupCtx
	fv   *types.Var
}

// list gives what lists of texts consist of.
func (x *markupCtx) list(v ssa.Value, i, d int) [][]markItem {
	unknown := [][]markItem{{{kind: "other"}}}
	if d > 80 {
		return unknown
	}
	v, i = x.w.val(v, i)
	switch u := v.(type) {
	case *ssa.Const:
		return [][]markItem{{}}
	case *ssa.Parameter:
		if x.up != nil {
			for k, q := range x.fn.Params {
				if q == u && k < len(x.call.Call.Args) {
					return x.up.list(x.call.Call.Args[k], x.at, d+1)
				}
			}
		}
	case *ssa.Field, *ssa.UnOp:
		if fv := fieldOf(v); articleField(fv) {
			return [][]markItem{{{kind: "attrs", fv: fv}}}
		}
	case *ssa.Slice:
		if u.Low == nil && u.High == nil {
			if els := variadicArgs(u); els != nil {
				var out []markItem
				for _, e := range els {
					if e == nil {
						return unknown
					}
					out = append(out, markItem{v: e, at: i, ctx: x})
				}
				return [][]markItem{out}
			}
		}
		if u.High != nil {
			if n, ok := constInt(u.High); ok && n == 0 {
				return [][]markItem{{}}
			}
		}
	case *ssa.MakeSlice:
		if n, ok := constInt(u.Len); ok && n == 0 {
			return [][]markItem{{}}
		}
		return x.filled(u, i, d)
	case *ssa.Extract:
		if k, ok := u.Tuple.(*ssa.Call); ok {
			if out := x.listResult(k, u.Index, i, d); out != nil {
				return out
			}
		}
	case *ssa.Call:
		if CalleeKey(&u.Call) == "builtin.append" {
			a := x.list(u.Call.Args[0], i, d+1)
			if len(u.Call.Args) == 1 {
				return a
			}
			var out [][]markItem
			for _, p := range a {
				for _, q := range x.list(u.Call.Args[1], i, d+1) {
					out = append(out, append(append([]markItem{}, p...), q...))
				}
			}
			return out
		}
		if CalleeKey(&u.Call) == "strings.Split" {
			// texts split and escaped afterwards
			return x.filled(u, i, d)
		}
		if out := x.listResult(u, 0, i, d); out != nil {
			return out
		}
	}
	if n := x.c.p.resolveStep(v); n != nil && n != v {
		return x.list(n, i, d+1)
	}
	return unknown
}

// filled: a list of which the elements are set one by one.
func (x *markupCtx) filled(v ssa.Value, i, d int) [][]markItem {
	out := [][]markItem{{}}
	for _, r := range *v.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		for _, rr := range *ia.Referrers() {
			st, ok := rr.(*ssa.Store)
			if !ok || st.Addr != ssa.Value(ia) {
				continue
			}
			j := x.w.at(st.Block(), i)
			if j < 0 {
				continue
			}
			e := markItem{v: st.Val, at: j, ctx: x}
			for n := range out {
				out[n] = append(out[n], e)
			}
		}
	}
	if _, ok := v.(*ssa.Call); ok {
		if !x.overwritten(v) {
			return [][]markItem{{{kind: "article"}}}
		}
		if len(out[0]) == 0 {
			// there is always at least one part
			return nil
		}
	}
	return out
}

// overwritten: a loop sets every element of the list.
func (x *markupCtx) overwritten(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		c := countingLoop(ia.Index)
		if c == nil {
			continue
		}
		k, ok := x.c.p.resolve(c.bound).(*ssa.Call)
		if !ok || CalleeKey(&k.Call) != "builtin.len" || x.c.p.resolve(k.Call.Args[0]) != v {
			continue
		}
		l := loopsOf(ia.Parent())[c.head]
		if l == nil {
			continue
		}
		regular := true
		for _, e := range l.exits() {
			if !c.regular(e) {
				regular = false
			}
		}
		for _, rr := range *ia.Referrers() {
			if st, ok := rr.(*ssa.Store); ok && st.Addr == ssa.Value(ia) && regular && l.everyIteration(st.Block()) {
				return true
			}
		}
	}
	return false
}

func (x *markupCtx) listResult(k *ssa.Call, idx, i, d int) (out [][]markItem) {
	f := k.Call.StaticCallee()
	if f == nil || !x.c.p.IsRepoFn(f) || len(f.Blocks) == 0 || !inPkg(f, "generator") {
		return nil
	}
	for y := x; y != nil; y = y.up {
		if y.fn == f {
			return nil
		}
	}
	x.c.paths(f, func(b *ssa.BasicBlock) bool {
		_, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		return ok
	}, func(w *cfgPath) {
		ret := w.last().Instrs[len(w.last().Instrs)-1].(*ssa.Return)
		if errorReturn(ret) || w.last() == f.Recover {
			return
		}
		n := &markupCtx{c: x.c, fn: f, w: w, up: x, call: k, at: i}
		out = append(out, n.list(resultOf(ret, idx), len(w.blocks)-1, d+1)...)
	})
	return
}

func (x *markupCtx) join(lv, sv ssa.Value, i, d int) (out []markText) {
	sep := x.ev(sv, i, d+1)
	for _, l := range x.list(lv, i, d+1) {
		cur := markLit("")
		for n, e := range l {
			if n > 0 {
				cur = x.concat(cur, sep)
			}
			switch {
			case e.v != nil:
				cur = x.concat(cur, e.ctx.ev(e.v, e.at, d+1))
			case e.kind == "attrs":
				if t := sep[0].text(); len(sep) != 1 || t == "" || strings.TrimSpace(t) != "" {
					cur = x.concat(cur, hole("article"))
					continue
				}
				x.c.attrs[e.fv] = true
				cur = x.concat(cur, hole("attrs"))
			default:
				cur = x.concat(cur, hole(e.kind))
			}
		}
		out = append(out, cur...)
	}
	return
}

// builder is what has been written to a builder.
func (x *markupCtx) builder(k *ssa.Call, i, d int) []markText {
	al, ok := k.Call.Args[0].(*ssa.Alloc)
	if !ok {
		return hole("other")
	}
	out := markLit("")
	for n := 0; n <= i && n < len(x.w.blocks); n++ {
		for _, in := range x.w.blocks[n].Instrs {
			if n == i && in == ssa.Instruction(k) && x.w.at(k.Block(), i) == n {
				return out
			}
			w, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			uses := false
			for _, a := range w.Call.Args {
				if mi, ok := a.(*ssa.MakeInterface); ok {
					a = mi.X
				}
				if a == ssa.Value(al) {
					uses = true
				}
			}
			if !uses {
				continue
			}
			switch CalleeKey(&w.Call) {
			case "(*strings.Builder).WriteString", "(*bytes.Buffer).WriteString", "io.WriteString":
				out = x.concat(out, x.ev(w.Call.Args[1], n, d+1))
			case "(*strings.Builder).WriteByte", "(*strings.Builder).WriteRune", "(*bytes.Buffer).WriteByte", "(*bytes.Buffer).WriteRune":
				if r, ok := constInt(w.Call.Args[1]); ok {
					out = x.concat(out, markLit(string(rune(r))))
				} else {
					out = x.concat(out, hole("other"))
				}
			case "fmt.Fprintf":
				out = x.concat(out, x.format(w, w.Call.Args[1], w.Call.Args[2], n, d))
			case "fmt.Fprint":
				for _, a := range variadicArgs(w.Call.Args[1]) {
					if a == nil {
						return hole("other")
					}
					out = x.concat(out, x.ev(a, n, d+1))
				}
			case "(*strings.Builder).Grow", "(*bytes.Buffer).Grow", "(*strings.Builder).Len", "(*bytes.Buffer).Len", "(*strings.Builder).String", "(*bytes.Buffer).String":
			case "(*strings.Builder).Reset", "(*bytes.Buffer).Reset":
				out = markLit("")
			default:
				return hole("other")
			}
		}
	}
	return out
}

// --- judging ---

var voidElements = map[string]bool{"img": true, "br": true, "meta": true, "link": true, "hr": true, "input": true, "col": true, "wbr": true, "area": true, "base": true, "embed": true, "source": true, "track": true}

var childrenOf = map[string][]string{
	"table": {"tr", "thead", "tbody", "tfoot", "caption", "colgroup"},
	"tbody": {"tr"}, "thead": {"tr"}, "tfoot": {"tr"},
	"tr": {"td", "th"},
}

var parentsOf = map[string][]string{
	"tr": {"table", "tbody", "thead", "tfoot"},
	"td": {"tr"}, "th": {"tr"},
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// articleOpens: what is known on the path about an element the text of the article itself starts with.
func articleOpens(w *cfgPath) (tag string, closed int) {
	re := regexp.MustCompile(`^<([a-z]+)$`)
	for _, f := range w.facts() {
		switch u := f.cond.(type) {
		case *ssa.BinOp:
			for _, s := range []string{constText(u.X), constText(u.Y)} {
				if m := re.FindStringSubmatch(s); m != nil && (u.Op == token.EQL) == f.val && (u.Op == token.EQL || u.Op == token.NEQ) {
					tag = m[1]
				}
			}
		case *ssa.Call:
			if CalleeKey(&u.Call) == "strings.HasPrefix" && f.val {
				if m := re.FindStringSubmatch(constText(u.Call.Args[1])); m != nil {
					tag = m[1]
				}
			}
		}
	}
	if tag == "" {
		return
	}
	for _, f := range w.facts() {
		if u, ok := f.cond.(*ssa.Call); ok && (CalleeKey(&u.Call) == "strings.Contains" || CalleeKey(&u.Call) == "strings.HasSuffix") &&
			strings.HasPrefix(constText(u.Call.Args[1]), "</"+tag) {
			closed = -1
			if f.val {
				closed = 1
			}
		}
	}
	return
}

// judge reads a text as HTML.
func (c *markupCheck) judge(fn *ssa.Function, at ssa.Instruction, t markText, w *cfgPath, tops map[string]bool) {
	key := "markup:" + fn.Name()
	var stack []string
	state := 0 // 0 text, 1 after "<", 2 name, 3 within tag, 4 attribute name, 5 after "=", 6 in quotes, 7 unquoted value, 8 comment or declaration
	name, attr := "", ""
	var quote byte
	closing, selfClosing := false, false
	fail := func(format string, args ...any) {
		c.bad(key, at, format, args...)
	}
	top := func() string {
		if len(stack) == 0 {
			return ""
		}
		return stack[len(stack)-1]
	}
	child := func(n string) bool {
		if top() == "" {
			if tops != nil {
				tops[n] = true
			}
			return true
		}
		if ok, has := childrenOf[top()]; has && n != "?" && !contains(ok, n) {
			fail("%s is put directly into <%s>", descr(n), top())
			return false
		}
		if ok, has := parentsOf[n]; has && !contains(ok, top()) {
			fail("%s is put directly into <%s>", descr(n), top())
			return false
		}
		return true
	}
	open := func() bool {
		if closing {
			if top() != name {
				if top() == "" {
					fail("</%s> closes an element that was not opened", name)
				} else {
					fail("</%s> is written although <%s> is still open", name, top())
				}
				return false
			}
			stack = stack[:len(stack)-1]
			return true
		}
		if !child(name) {
			return false
		}
		if !voidElements[name] && !selfClosing {
			stack = append(stack, name)
		}
		return true
	}
	tag, closed := articleOpens(w)
	for _, q := range t {
		if q.kind != "" {
			switch state {
			case 0:
				if q.kind == "attrs" {
					fail("attributes are inserted into the text")
					return
				}
				if (q.kind == "text" || q.kind == "article") && tag != "" && tops != nil {
					// an element of the article's own
					n := tag
					tag = ""
					child(n)
					switch closed {
					case -1:
						stack = append(stack, n)
					case 0:
						fail("whether the article itself closes its <%s> is not known", n)
						return
					}
					continue
				}
				tt := q.tops
				if tt == nil {
					tt = map[string]bool{"#": true}
				}
				for n := range tt {
					if !child(n) {
						return
					}
				}
			case 2:
				if q.kind != "int" {
					fail("something else than a number or attributes is inserted into the tag <%s", name)
					return
				}
				name += "{" + q.key + "}"
			case 3:
				if q.kind != "attrs" {
					fail("something else than attributes is inserted into the tag <%s", name)
					return
				}
			case 5, 7:
				if q.kind == "int" {
					state = 7
					continue
				}
				fail("the attribute %s of <%s> gets a value that is not in quotes", attr, name)
				return
			case 6:
				switch q.kind {
				case "text", "attrs":
					fail("text or attributes are inserted as value of the attribute %s of <%s>", attr, name)
					return
				case "article":
					fail("the value of the attribute %s of <%s> comes from the article and may contain quotes", attr, name)
					return
				}
			case 1, 4:
				fail("a value is inserted as name of an element or attribute")
				return
			}
			continue
		}
		if strings.Contains(q.lit, "{{") {
			fail("the placeholder in %q is not filled", shorten(q.lit[strings.Index(q.lit, "{{"):]))
			return
		}
		for i := 0; i < len(q.lit); i++ {
			b := q.lit[i]
			space := b == ' ' || b == '\n' || b == '\t'
			switch state {
			case 0:
				if b == '<' {
					state, name, closing, selfClosing = 1, "", false, false
				} else if !space {
					child("#")
				}
			case 1:
				switch {
				case b == '/' && !closing:
					closing = true
				case b == '?' || b == '!':
					state = 8
				case b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z':
					state = 2
					name = strings.ToLower(string(b))
				default:
					fail("%q is written where the name of an element is expected", string(b))
					return
				}
			case 2:
				switch {
				case b == '>':
					state = 0
					if !open() {
						return
					}
				case space:
					state = 3
				case b == '/':
					selfClosing = true
				case b == '<' || b == '"' || b == '=':
					fail("%q is written within the name of the element %s", string(b), name)
					return
				default:
					name += strings.ToLower(string(b))
				}
			case 3, 4:
				switch {
				case b == '>':
					state = 0
					if closing && state == 4 {
						fail("a closing tag has attributes")
						return
					}
					if !open() {
						return
					}
				case space:
					state = 3
				case b == '=' && state == 4:
					state = 5
				case b == '/':
					selfClosing = true
				case b == '<' || b == '"' || b == '=':
					fail("%q is written between the attributes of <%s>", string(b), name)
					return
				default:
					if state == 3 {
						attr = ""
					}
					attr += string(b)
					state = 4
				}
			case 5:
				switch {
				case b == '"' || b == '\'':
					state, quote = 6, b
				case space || b == '>' || b == '<':
					fail("the attribute %s of <%s> has no value", attr, name)
					return
				default:
					state = 7
				}
			case 6:
				if b == quote {
					state = 3
				} else if b == '<' || b == '>' {
					fail("the attribute %s of <%s> is not closed", attr, name)
					return
				}
			case 7:
				switch {
				case b == '>':
					state = 0
					if !open() {
						return
					}
				case space:
					state = 3
				}
			case 8:
				if b == '>' {
					state = 0
				}
			}
		}
	}
	if state != 0 {
		fail("the tag <%s is not finished", name)
		return
	}
	if len(stack) > 0 {
		fail("<%s> is not closed", descrName(top()))
	}
}

func descrName(n string) string {
	if i := strings.Index(n, "{"); i >= 0 {
		return n[:i] + "…"
	}
	return n
}

func descr(n string) string {
	if n == "#" {
		return "text"
	}
	return "<" + descrName(n) + ">"
}

// --- attributes taken from the article ---

// attributes: lists of attributes made by the parser consist of complete attributes.
func (c *markupCheck) attributes() {
	var fvs []*types.Var
	for fv := range c.attrs {
		fvs = append(fvs, fv)
	}
	sort.Slice(fvs, func(i, j int) bool { return fvs[i].Name() < fvs[j].Name() })
	for _, fv := range fvs {
		for _, v := range c.p.fieldStores(fv) {
			l := &lister{p: c.p}
			for _, alt := range l.eval(v, nil) {
				c.attrItems(fv, v, alt)
			}
		}
	}
}

func (c *markupCheck) attrItems(fv *types.Var, v ssa.Value, alt []listItem) {
	at, _ := v.(ssa.Instruction)
	for _, e := range alt {
		switch {
		case e.v != nil:
			sh := &shaper{p: c.p, max: 64}
			for _, s := range sh.ev2(e.v, e.fr) {
				c.r.Count("attributes of cells", 1)
				if msg := c.attrShape(s); msg != "" {
					in, _ := e.v.(ssa.Instruction)
					if in == nil {
						in = at
					}
					c.bad("attribute:"+fv.Name(), in, "%s", msg)
				}
			}
		case len(e.rep) > 0:
			for _, r := range e.rep {
				c.attrItems(fv, v, r)
			}
		case e.list != nil:
			c.bad("attribute:"+fv.Name(), at, "undecided: where attributes of an element come from")
		}
	}
}

// attrShape: the text is one complete attribute.
func (c *markupCheck) attrShape(s shape) string {
	states := map[int]bool{0: true}
	for _, q := range s {
		if q.v == nil {
			for i := 0; i < len(q.lit); i++ {
				states = attrStep(states, rune(q.lit[i]))
			}
		} else {
			re := c.pattern(q.v, 0)
			if re == nil {
				return "undecided: which text is used as attribute"
			}
			var err string
			if states, err = attrRegexp(states, re); err != "" {
				return err
			}
		}
		if states[-1] {
			return fmt.Sprintf("an attribute of an element is made from %q, which may not be a complete attribute: the tag around it gets broken", s.describe())
		}
	}
	for st := range states {
		if st != 3 && st != 5 {
			return fmt.Sprintf("an attribute of an element is made from %q, which may be incomplete: the tag around it gets broken", s.describe())
		}
	}
	return ""
}

func (s shape) describe() (t string) {
	for _, q := range s {
		if q.v == nil {
			t += q.lit
		} else {
			t += "…"
		}
	}
	return
}

// attrStep: 0 start, 1 name, 2 after "=", 3 unquoted value, 4 in quotes, 5 complete, -1 broken
func attrStep(in map[int]bool, r rune) map[int]bool {
	out := map[int]bool{}
	for s := range in {
		n := -1
		bad := r == '"' || r == '\'' || r == '<' || r == '>' || r == '=' || r == ' ' || r == '\n' || r == '\t' || r == '`'
		switch s {
		case 0, 1:
			if r == '=' && s == 1 {
				n = 2
			} else if !bad {
				n = 1
			}
		case 2:
			if r == '"' {
				n = 4
			} else if !bad {
				n = 3
			}
		case 3:
			if !bad {
				n = 3
			}
		case 4:
			if r == '"' {
				n = 5
			} else {
				n = 4
			}
		}
		out[n] = true
	}
	return out
}

// attrRegexp: the states after any text the pattern matches.
func attrRegexp(in map[int]bool, re *regexp.Regexp) (map[int]bool, string) {
	rx, err := syntax.Parse(re.String(), syntax.Perl)
	if err != nil {
		return nil, "undecided: " + err.Error()
	}
	prog, err := syntax.Compile(rx.Simplify())
	if err != nil {
		return nil, "undecided: " + err.Error()
	}
	sample := []rune{'a', '0', '"', '\'', '<', '>', '=', ' ', '\n', '\t', '`', ';', ':', '-', 'é'}
	type at struct {
		pc uint32
		st int
	}
	seen := map[at]bool{}
	out := map[int]bool{}
	var walk func(a at)
	walk = func(a at) {
		if seen[a] {
			return
		}
		seen[a] = true
		inst := &prog.Inst[a.pc]
		switch inst.Op {
		case syntax.InstMatch:
			out[a.st] = true
		case syntax.InstFail:
		case syntax.InstAlt, syntax.InstAltMatch:
			walk(at{inst.Out, a.st})
			walk(at{inst.Arg, a.st})
		case syntax.InstCapture, syntax.InstNop, syntax.InstEmptyWidth:
			walk(at{inst.Out, a.st})
		default:
			rs := append([]rune{}, sample...)
			if inst.Op == syntax.InstRune || inst.Op == syntax.InstRune1 {
				rs = append(rs, inst.Rune...)
			}
			for _, r := range rs {
				if !inst.MatchRune(r) {
					continue
				}
				for n := range attrStep(map[int]bool{a.st: true}, r) {
					walk(at{inst.Out, n})
				}
			}
		}
	}
	for s := range in {
		walk(at{uint32(prog.Start), s})
	}
	return out, ""
}

// pattern: the value is the whole text a pattern matches.
func (c *markupCheck) pattern(v ssa.Value, d int) *regexp.Regexp {
	if d > 10 {
		return nil
	}
	switch u := v.(type) {
	case *ssa.Call:
		if CalleeKey(&u.Call) == "(*regexp.Regexp).FindString" {
			return c.place.regexpOf(u.Call.Args[0])
		}
	case *ssa.UnOp:
		ia, ok := u.X.(*ssa.IndexAddr)
		if !ok || u.Op != token.MUL {
			break
		}
		m := c.p.resolve(ia.X)
		if call, ok := m.(*ssa.Call); ok {
			switch CalleeKey(&call.Call) {
			case "(*regexp.Regexp).FindAllString":
				return c.place.regexpOf(call.Call.Args[0])
			case "(*regexp.Regexp).FindStringSubmatch":
				if n, ok := constInt(ia.Index); ok && n == 0 {
					return c.place.regexpOf(call.Call.Args[0])
				} else if ok {
					return group(c.place.regexpOf(call.Call.Args[0]), int(n))
				}
			}
		}
		if mu, ok := m.(*ssa.UnOp); ok {
			if mi, ok := mu.X.(*ssa.IndexAddr); ok {
				if call, ok := c.p.resolve(mi.X).(*ssa.Call); ok && CalleeKey(&call.Call) == "(*regexp.Regexp).FindAllStringSubmatch" {
					if n, ok := constInt(ia.Index); ok {
						return group(c.place.regexpOf(call.Call.Args[0]), int(n))
					}
				}
			}
		}
	}
	if n := c.p.resolveStep(v); n != nil && n != v {
		return c.pattern(n, d+1)
	}
	return nil
}

// group is the pattern of a group.
func group(re *regexp.Regexp, n int) *regexp.Regexp {
	if re == nil || n == 0 {
		return re
	}
	rx, err := syntax.Parse(re.String(), syntax.Perl)
	if err != nil {
		return nil
	}
	var found *syntax.Regexp
	var walk func(r *syntax.Regexp)
	walk = func(r *syntax.Regexp) {
		if r.Op == syntax.OpCapture && r.Cap == n {
			found = r
		}
		for _, s := range r.Sub {
			walk(s)
		}
	}
	walk(rx)
	if found == nil {
		return nil
	}
	out, err := regexp.Compile(found.String())
	if err != nil {
		return nil
	}
	return out
}
