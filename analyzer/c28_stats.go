package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C28", Title: "Combined statistics are the sums of the articles' statistics",
		Rule: "each number of the statistics record is added up from the same number of each article's record, exactly once per statistics file, which are all visited; link counts are added per target in the same way; a link is copied to the uncovered links exactly if its target was not found among the names of all articles; records are read into a fresh variable per file and no names within the file are used twice; each handler of the per-article statistics counts exactly its kind of element, exactly once on every successful path, into a record made for this article; numbers printed with the name of a number are this number",
		Run:  runC28})
}

type statCheck struct {
	p         *Program
	r         *Report
	t         *types.Named
	st        *types.Struct
	json      []string // name within the file per field
	root      *ssa.Function
	reads     map[string]statPlace // records read from files, by key
	loopsMemo map[*ssa.Function]map[*ssa.BasicBlock]*natLoop
}

type statPlace struct {
	in ssa.Instruction
	fr *shapeFrame
}

// the number an element is counted in
var statKinds = map[string]string{
	"InlineImageToken":   "number-of-images",
	"ImageToken":         "number-of-images",
	"InternalLinkToken":  "number-of-internal-links",
	"ExternalLinkToken":  "number-of-external-links",
	"MathToken":          "number-of-math",
	"RefDefinitionToken": "number-of-ref-definitions",
	"RefUsageToken":      "number-of-ref-usages",
}

const (
	statLinks     = "internal-links"
	statUncovered = "uncovered-internal-links"
	statTop       = "top-10-uncovered-internal-links"
	statName      = "article-name"
	statChars     = "number-of-characters"
)

func runC28(p *Program, r *Report) {
	c := &statCheck{p: p, r: r, loopsMemo: map[*ssa.Function]map[*ssa.BasicBlock]*natLoop{}}
	c.findRecord()
	if c.t == nil {
		r.Undecided("record", "-", "no record of the statistics that is written to and read from files found in the generator package")
		return
	}
	c.names()
	for _, root := range c.roots() {
		c.root = root
		c.combine()
	}
	c.counters()
	c.listed()
	r.AtLeast("combined numbers", 9)
	r.AtLeast("kinds of elements", 7)
	r.AtLeast("combining functions", 1)
}

func (c *statCheck) bad(key string, in ssa.Instruction, format string, args ...any) {
	at := "-"
	if in != nil {
		at = c.p.At(in)
	}
	c.r.Bad(key, at, format, args...)
}

// ownRecord is the structure of the generator package v (a pointer to one) points to.
func ownRecord(t types.Type) *types.Named {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != modPath+"/generator" {
		return nil
	}
	if _, ok := n.Underlying().(*types.Struct); !ok {
		return nil
	}
	return n
}

// decoded is the variable a call reads a record into.
func decoded(c *ssa.CallCommon) ssa.Value {
	switch CalleeKey(c) {
	case "encoding/json.Unmarshal":
		return c.Args[1]
	case "(*encoding/json.Decoder).Decode":
		return c.Args[1]
	}
	return nil
}

func unboxed(v ssa.Value) ssa.Value {
	for {
		switch u := v.(type) {
		case *ssa.MakeInterface:
			v = u.X
			continue
		case *ssa.ChangeType:
			v = u.X
			continue
		}
		return v
	}
}

// loopsOf finds the loops of a function, each time the same ones.
func (c *statCheck) loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]*natLoop {
	l, ok := c.loopsMemo[fn]
	if !ok {
		l = loopsOf(fn)
		c.loopsMemo[fn] = l
	}
	return l
}

func (c *statCheck) findRecord() {
	for _, fn := range c.p.Funcs {
		if !inPkg(fn, "generator") {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				d := decoded(ci.Common())
				if d == nil {
					continue
				}
				if n := ownRecord(unboxed(d).Type()); n != nil {
					c.t = n
					c.st = n.Underlying().(*types.Struct)
				}
			}
		}
	}
}

// names checks the names within the files.
func (c *statCheck) names() {
	used := map[string]string{}
	for i := 0; i < c.st.NumFields(); i++ {
		f := c.st.Field(i)
		tag := reflect.StructTag(c.st.Tag(i)).Get("json")
		n := strings.Split(tag, ",")[0]
		if n == "" {
			n = f.Name()
		}
		at := c.p.Pos(f.Pos())
		if !f.Exported() || tag == "-" {
			c.r.Bad("field:"+f.Name(), at, "%s of the statistics is not written to the file of the article, the combined statistics cannot contain it", f.Name())
		}
		if o, dup := used[strings.ToLower(n)]; dup {
			c.r.Bad("field:"+f.Name(), at, "%s and %s of the statistics have the same name within the file, one of them is lost", o, f.Name())
		}
		used[strings.ToLower(n)] = f.Name()
		c.json = append(c.json, n)
		c.r.Count("fields of the record", 1)
	}
	for _, n := range append([]string{statLinks, statUncovered, statName, statChars}, sortedValues(statKinds)...) {
		if c.field(n) < 0 {
			c.r.Bad("field:"+n, c.p.Pos(c.t.Obj().Pos()), "the statistics contain no %s", n)
		}
	}
}

func sortedValues(m map[string]string) (out []string) {
	for _, v := range m {
		out = append(out, v)
	}
	sort.Strings(out)
	return
}

func (c *statCheck) field(json string) int {
	for i, n := range c.json {
		if n == json {
			return i
		}
	}
	return -1
}

// isNumber: the field of the record is a number.
func (c *statCheck) isNumber(i int) bool {
	b, ok := c.st.Field(i).Type().Underlying().(*types.Basic)
	return ok && b.Info()&types.IsNumeric != 0
}

// roots are the functions that read records and are called from elsewhere.
func (c *statCheck) roots() (out []*ssa.Function) {
	readers := map[*ssa.Function]bool{}
	for _, fn := range c.p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if d := decoded(ci.Common()); d != nil && ownRecord(unboxed(d).Type()) == c.t {
						readers[fn] = true
					}
				}
			}
		}
	}
	for _, fn := range c.p.Funcs {
		if !inPkg(fn, "generator") || fn.Parent() != nil {
			continue
		}
		reads := false
		for f := range c.p.Reach(fn) {
			reads = reads || readers[f]
		}
		if !reads {
			continue
		}
		sites, _ := c.p.sitesOf(fn)
		outer := false
		for _, s := range sites {
			outer = outer || !inPkg(s.Parent(), "generator")
		}
		if outer {
			out = append(out, fn)
			c.r.Count("combining functions", 1)
		}
	}
	return
}

// each visits the instructions of the function and of the functions of the package it calls.
func (c *statCheck) each(fn *ssa.Function, fr *shapeFrame, visit func(in ssa.Instruction, fr *shapeFrame)) {
	n := 0
	for x := fr; x != nil; x = x.up {
		n++
		if x.up != nil && x.up.fn == fn {
			return
		}
	}
	if n > 6 {
		return
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			visit(in, fr)
			if call, ok := in.(*ssa.Call); ok {
				if f := call.Call.StaticCallee(); f != nil && inPkg(f, "generator") && len(f.Blocks) > 0 {
					c.each(f, &shapeFrame{call: call, fn: f, up: fr}, visit)
				}
			}
		}
	}
}

// step follows a value to where it comes from.
func (c *statCheck) step(v ssa.Value, fr *shapeFrame) (ssa.Value, *shapeFrame) {
	switch u := v.(type) {
	case *ssa.Parameter:
		if a, up, ok := frameArg(u, fr); ok {
			return a, up
		}
	case *ssa.FreeVar:
		if b := c.p.binding(u); b != nil {
			if fr != nil && fr.fn == u.Parent() {
				fr = fr.up
			}
			return b, fr
		}
	case *ssa.MakeInterface:
		return u.X, fr
	case *ssa.ChangeType:
		return u.X, fr
	case *ssa.Convert:
		return u.X, fr
	case *ssa.UnOp:
		if u.Op != token.MUL {
			return nil, nil
		}
		x, xf := u.X, fr
		if fv, ok := x.(*ssa.FreeVar); ok {
			x, xf = c.step(fv, fr)
		}
		if al, ok := x.(*ssa.Alloc); ok {
			if s := c.p.onlyStore(al); s != nil {
				return s, xf
			}
		}
	case *ssa.Extract:
		if call, ok := u.Tuple.(*ssa.Call); ok {
			return c.result(call, u.Index, fr)
		}
	case *ssa.Call:
		return c.result(u, 0, fr)
	case *ssa.Phi:
		var one ssa.Value
		for _, e := range u.Edges {
			if e == ssa.Value(u) {
				continue
			}
			if one != nil && one != e {
				return nil, nil
			}
			one = e
		}
		return one, fr
	}
	return nil, nil
}

// result is the only non-nil result of a function of the package.
func (c *statCheck) result(call *ssa.Call, idx int, fr *shapeFrame) (ssa.Value, *shapeFrame) {
	f := call.Call.StaticCallee()
	if f == nil || !inPkg(f, "generator") || len(f.Blocks) == 0 {
		return nil, nil
	}
	var one ssa.Value
	for _, b := range f.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || idx >= len(ret.Results) {
			continue
		}
		v := returnedValue(ret, idx)
		if _, isC := v.(*ssa.Const); isC && errorReturn(ret) {
			continue
		}
		if k, isC := v.(*ssa.Const); isC && k.IsNil() {
			continue
		}
		if v == nil || one != nil && one != v {
			return nil, nil
		}
		one = v
	}
	if one == nil {
		return nil, nil
	}
	return one, &shapeFrame{call: call, fn: f, up: fr}
}

// obj is the variable (or the list's element) a pointer to a record is about; "" if unknown.
func (c *statCheck) obj(v ssa.Value, fr *shapeFrame) string {
	for d := 0; d < 30 && v != nil; d++ {
		switch u := v.(type) {
		case *ssa.Alloc:
			if ownRecord(u.Type()) == c.t {
				if _, isPtr := u.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct); isPtr {
					// a copy of a whole record
					if s := c.p.onlyStore(u); s != nil {
						v = s
						continue
					}
					return c.key(u, fr)
				}
			}
			return ""
		case *ssa.UnOp:
			if u.Op != token.MUL {
				return ""
			}
			switch x := u.X.(type) {
			case *ssa.IndexAddr:
				return c.elem(x.X, fr)
			case *ssa.FieldAddr:
				return "field " + fieldVar(x.X.Type(), x.Field).Name() + " of " + c.base(x.X, fr)
			}
			if _, ok := u.Type().Underlying().(*types.Struct); ok {
				v = u.X
				continue
			}
		case *ssa.FieldAddr:
			if ownRecord(u.Type()) == c.t {
				return "field " + fieldVar(u.X.Type(), u.Field).Name() + " of " + c.base(u.X, fr)
			}
		case *ssa.Lookup:
			return ""
		}
		v, fr = c.step(v, fr)
	}
	return ""
}

// base names the variable a field belongs to.
func (c *statCheck) base(v ssa.Value, fr *shapeFrame) string {
	for d := 0; d < 30; d++ {
		n, nf := c.step(v, fr)
		if n == nil {
			break
		}
		v, fr = n, nf
	}
	return c.key(v, fr)
}

// key names a value within its frame.
func (c *statCheck) key(v ssa.Value, fr *shapeFrame) string {
	if in, ok := v.(ssa.Instruction); ok {
		for fr != nil && fr.fn != in.Parent() {
			fr = fr.up
		}
	}
	k := fmt.Sprintf("%p", v)
	for ; fr != nil; fr = fr.up {
		k += fmt.Sprintf("<%p", fr.call)
	}
	return k
}

// elem is the record that was appended to the list, provided that it holds one record per file.
func (c *statCheck) elem(v ssa.Value, fr *shapeFrame) string {
	adds := c.appended(v, fr, 0, map[ssa.Value]bool{})
	if len(adds) != 1 {
		return ""
	}
	k := c.obj(adds[0].v, adds[0].fr)
	rd, isRead := c.reads[k]
	if !isRead {
		return ""
	}
	l1, _, always := c.loop(adds[0].at.Block(), adds[0].fr)
	l2, _, _ := c.loop(rd.in.Block(), rd.fr)
	if l1 == nil || l1 != l2 || !always {
		return ""
	}
	return k
}

type statAdd struct {
	v  ssa.Value
	fr *shapeFrame
	at ssa.Instruction
}

// appended lists the values ever appended to the list.
func (c *statCheck) appended(v ssa.Value, fr *shapeFrame, d int, seen map[ssa.Value]bool) (out []statAdd) {
	if v == nil || d > 30 {
		return []statAdd{{}, {}}
	}
	if seen[v] {
		return nil
	}
	seen[v] = true
	switch u := v.(type) {
	case *ssa.Const, *ssa.MakeSlice:
		if m, ok := u.(*ssa.MakeSlice); ok {
			if n, k := constInt(m.Len); !k || n != 0 {
				return []statAdd{{}, {}}
			}
		}
		return nil
	case *ssa.Slice:
		if al, ok := u.X.(*ssa.Alloc); ok {
			if at, isA := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array); isA {
				if n, k := constIntOrNil(u.High); at.Len() == 0 || k && n == 0 {
					return nil // "make" with constant capacity, empty literal
				}
			}
		}
		return []statAdd{{}, {}}
	case *ssa.Phi:
		for _, e := range u.Edges {
			out = append(out, c.appended(e, fr, d+1, seen)...)
		}
		return
	case *ssa.Call:
		if b, ok := u.Call.Value.(*ssa.Builtin); ok {
			if b.Name() != "append" {
				return []statAdd{{}, {}}
			}
			out = c.appended(u.Call.Args[0], fr, d+1, seen)
			vs := variadicArgs(u.Call.Args[1])
			if vs == nil {
				return []statAdd{{}, {}}
			}
			for _, x := range vs {
				out = append(out, statAdd{x, fr, u})
			}
			return
		}
	case *ssa.UnOp:
		x, xf := u.X, fr
		if fv, ok := x.(*ssa.FreeVar); ok {
			x, xf = c.step(fv, fr)
		}
		if al, ok := x.(*ssa.Alloc); ok && al.Referrers() != nil {
			for _, rf := range *al.Referrers() {
				if st, isS := rf.(*ssa.Store); isS && st.Addr == ssa.Value(al) {
					out = append(out, c.appended(st.Val, xf, d+1, seen)...)
				}
			}
			return
		}
	}
	n, nf := c.step(v, fr)
	return c.appended(n, nf, d+1, seen)
}

// fieldAddr: the address of a field of a record.
func (c *statCheck) fieldAddr(v ssa.Value, fr *shapeFrame) (obj string, field int, ok bool) {
	for d := 0; d < 20 && v != nil; d++ {
		if fa, is := v.(*ssa.FieldAddr); is {
			if ownRecord(fa.X.Type()) != c.t {
				return "", 0, false
			}
			return c.obj(fa.X, fr), fa.Field, true
		}
		v, fr = c.step(v, fr)
	}
	return "", 0, false
}

// load: the value is a field of a record.
func (c *statCheck) load(v ssa.Value, fr *shapeFrame) (obj string, field int, ok bool) {
	for d := 0; d < 20 && v != nil; d++ {
		switch u := v.(type) {
		case *ssa.UnOp:
			if u.Op == token.MUL {
				if o, f, is := c.fieldAddr(u.X, fr); is {
					return o, f, true
				}
			}
		case *ssa.Field:
			if ownRecord(u.X.Type()) == c.t {
				return c.obj(u.X, fr), u.Field, true
			}
		}
		v, fr = c.step(v, fr)
	}
	return "", 0, false
}

// loop is the innermost loop around the block, also that of the callers; always: the block is run in each of its iterations
// (respectively in each successful call of the outermost function).
func (c *statCheck) loop(b *ssa.BasicBlock, fr *shapeFrame) (l *natLoop, lf *shapeFrame, always bool) {
	always = true
	for {
		fn := b.Parent()
		for fr != nil && fr.fn != fn {
			fr = fr.up
		}
		if l = innermost(c.loopsOf(fn), b); l != nil {
			return l, fr, always && l.everyIteration(b)
		}
		if !c.mustPass(fn, b) {
			always = false
		}
		if fr == nil {
			return nil, nil, always
		}
		b, fr = fr.call.Block(), fr.up
	}
}

// mustPass: each successful way through the function passes the block.
func (c *statCheck) mustPass(fn *ssa.Function, b *ssa.BasicBlock) bool {
	for _, q := range fn.Blocks {
		ret, ok := q.Instrs[len(q.Instrs)-1].(*ssa.Return)
		if !ok || b.Dominates(q) || q == fn.Recover || errorReturn(ret) {
			continue
		}
		if q == fn.Blocks[0] {
			return false
		}
		good := true
		all := c.p.eachPath(fn.Blocks[0], 0, allSuccs, func(x *ssa.BasicBlock) bool { return x == q }, func(w *cfgPath) {
			if !good || !w.feasible() {
				return
			}
			for _, x := range w.blocks {
				if x == b {
					return
				}
			}
			for _, v := range ret.Results {
				if isErrorType(v.Type()) && w.isNil(v, len(w.blocks)-1) == -1 {
					return
				}
			}
			good = false
		})
		if !good || !all {
			return false
		}
	}
	return true
}

// errEnd: every way from the block ends with an error.
func errEnd(b *ssa.BasicBlock, seen map[*ssa.BasicBlock]bool) bool {
	if seen == nil {
		seen = map[*ssa.BasicBlock]bool{}
	}
	if seen[b] {
		return true
	}
	seen[b] = true
	if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
		return errorReturn(ret)
	}
	for _, s := range b.Succs {
		if !errEnd(s, seen) {
			return false
		}
	}
	return true
}

// isFilesLoop: the loop runs once for each file, unless it ends with an error.
func (c *statCheck) isFilesLoop(l *natLoop, fr *shapeFrame) bool {
	ct := countingOf(l)
	if ct == nil {
		return false
	}
	for _, ex := range l.exits() {
		if !ct.regular(ex) && !errEnd(ex[1], nil) {
			return false
		}
	}
	call, ok := ct.bound.(*ssa.Call)
	if !ok {
		return false
	}
	b, ok := call.Call.Value.(*ssa.Builtin)
	if !ok || b.Name() != "len" {
		return false
	}
	v, vf := call.Call.Args[0], fr
	for d := 0; d < 20 && v != nil; d++ {
		if q, is := v.(*ssa.Parameter); is && q.Parent() == c.root {
			return true
		}
		n, nf := c.step(v, vf)
		if n == nil {
			break
		}
		v, vf = n, nf
	}
	return c.elem(call.Call.Args[0], fr) != ""
}

// onceFile: the instruction is run exactly once for each file.
func (c *statCheck) onceFile(in ssa.Instruction, fr *shapeFrame) bool {
	l, lf, always := c.loop(in.Block(), fr)
	return l != nil && always && c.isFilesLoop(l, lf) && c.outer(l, lf)
}

// outer: the loop is run exactly once.
func (c *statCheck) outer(l *natLoop, fr *shapeFrame) bool {
	for _, o := range c.loopsOf(l.head.Parent()) {
		if o != l && o.blocks[l.head] {
			return false
		}
	}
	if !c.mustPass(l.head.Parent(), l.head) {
		return false
	}
	if fr == nil {
		return true
	}
	ol, _, always := c.loop(fr.call.Block(), fr.up)
	return ol == nil && always
}

func sumOf(v ssa.Value) (x, y ssa.Value, ok bool) {
	b, ok := v.(*ssa.BinOp)
	if !ok || b.Op != token.ADD {
		return nil, nil, false
	}
	return b.X, b.Y, true
}

// ranged: the key and the value of the map loop v comes from (v is its key or its value).
func ranged(v ssa.Value) (next *ssa.Next, idx int) {
	e, ok := v.(*ssa.Extract)
	if !ok {
		return nil, 0
	}
	n, ok := e.Tuple.(*ssa.Next)
	if !ok || n.IsString || e.Index == 0 {
		return nil, 0
	}
	return n, e.Index
}

// mapField: the map is this field of a record.
func (c *statCheck) mapField(v ssa.Value, fr *shapeFrame, maps map[string]int) (obj string, field int, ok bool) {
	if o, f, is := c.load(v, fr); is {
		return o, f, true
	}
	for d := 0; d < 20 && v != nil; d++ {
		if m, is := v.(*ssa.MakeMap); is {
			if f, known := maps[c.key(m, fr)]; known {
				return "", f, true
			}
			return "", 0, false
		}
		v, fr = c.step(v, fr)
	}
	return "", 0, false
}

func (c *statCheck) combine() {
	c.reads = map[string]statPlace{}
	root := c.root
	// 1. the records that are read
	c.each(root, nil, func(in ssa.Instruction, fr *shapeFrame) {
		ci, ok := in.(ssa.CallInstruction)
		if !ok {
			return
		}
		d := decoded(ci.Common())
		if d == nil || ownRecord(unboxed(d).Type()) != c.t {
			return
		}
		k := c.obj(unboxed(d), fr)
		if k == "" {
			c.bad("read", in, "the variable the statistics of an article are read into is not known")
			return
		}
		c.reads[k] = statPlace{in, fr}
		c.r.Count("records read", 1)
		if !c.onceFile(in, fr) {
			c.bad("files", in, "the statistics of an article are not read exactly once for each given file")
		}
		if !c.fresh(unboxed(d), fr, in) {
			c.bad("fresh", in, "the statistics of all articles are read into the same variable: values of the previous article remain if a file lacks them, and link counts of different articles are mixed up")
		}
	})
	if len(c.reads) == 0 {
		c.bad("read", nil, "%s reads no statistics of articles", root.Name())
		return
	}
	// 2. the record with the sums: the one (not read from a file) whose fields are set
	combined := map[string]bool{}
	maps := map[string]int{}
	c.each(root, nil, func(in ssa.Instruction, fr *shapeFrame) {
		st, ok := in.(*ssa.Store)
		if !ok {
			return
		}
		o, f, ok := c.fieldAddr(st.Addr, fr)
		if !ok {
			return
		}
		if _, rd := c.reads[o]; rd {
			c.bad("changed:"+c.json[f], in, "the %s read from the file of an article is overwritten", c.json[f])
			return
		}
		if o == "" {
			c.bad("record", in, "the statistics record that is changed is not known")
			return
		}
		combined[o] = true
		if _, isMap := c.st.Field(f).Type().Underlying().(*types.Map); isMap {
			v, vf := st.Val, fr
			for d := 0; d < 20 && v != nil; d++ {
				if m, is := v.(*ssa.MakeMap); is {
					k := c.key(m, vf)
					if o, dup := maps[k]; dup && o != f {
						c.bad("map:"+c.json[f], in, "%s and %s are the same map", c.json[o], c.json[f])
					}
					maps[k] = f
				}
				v, vf = c.step(v, vf)
			}
		}
	})
	if len(combined) != 1 {
		c.bad("combined", nil, "%d records for the combined statistics found in %s", len(combined), root.Name())
		return
	}
	isC := func(o string, f int) bool { return combined[o] || o == "" }
	// 3. the sums
	sums := map[int]int{}
	var articles []statPlace // where the names of the articles are noted
	var loops []*natLoop
	sets := map[string]string{} // set of the names
	type upd struct {
		in *ssa.MapUpdate
		fr *shapeFrame
	}
	updates := map[int][]upd{}
	c.each(root, nil, func(in ssa.Instruction, fr *shapeFrame) {
		switch u := in.(type) {
		case *ssa.Store:
			_, f, ok := c.fieldAddr(u.Addr, fr)
			if !ok || !c.isNumber(f) {
				return
			}
			c.sum(u, f, fr, combined, sums, &loops)
		case *ssa.MapUpdate:
			if o, f, ok := c.mapField(u.Map, fr, maps); ok && isC(o, f) {
				updates[f] = append(updates[f], upd{u, fr})
				return
			} else if ok {
				c.bad("changed:"+c.json[f], in, "the %s of an article are changed while combining", c.json[f])
				return
			}
			if o, f, ok := c.load(u.Key, fr); ok && c.json[f] == statName {
				if _, rd := c.reads[o]; rd && !isFalse(u.Value) && c.onceFile(in, fr) {
					articles = append(articles, statPlace{in, fr})
					sets[c.base(u.Map, fr)] = "set"
				}
			}
		case *ssa.Call:
			b, ok := u.Call.Value.(*ssa.Builtin)
			if !ok {
				return
			}
			switch b.Name() {
			case "delete", "clear":
				if _, f, ok := c.mapField(u.Call.Args[0], fr, maps); ok {
					c.bad("deleted:"+c.json[f], in, "entries of %s are deleted while combining", c.json[f])
				} else if _, isM := u.Call.Args[0].Type().Underlying().(*types.Map); isM {
					c.bad("deleted", in, "entries of a map are deleted while combining")
				}
			}
		}
	})
	for i := range c.json {
		if !c.isNumber(i) {
			continue
		}
		c.r.Count("combined numbers", 1)
		if sums[i] == 0 {
			c.bad("sum:"+c.json[i], nil, "%s of the combined statistics is not the sum over all articles: %s never adds it", c.json[i], root.Name())
		}
	}
	// 4. link counts
	links, unc := c.field(statLinks), c.field(statUncovered)
	if links < 0 || unc < 0 {
		return
	}
	if len(updates[links]) == 0 {
		c.bad("links:none", nil, "the %s of the articles are never added to the combined ones", statLinks)
	}
	for n, u := range updates[links] {
		c.r.Count("link counts", 1)
		c.addLinks(u.in, u.fr, maps, combined, n > 0, links)
	}
	if len(updates[unc]) == 0 {
		c.bad("uncovered:none", nil, "the %s are never determined", statUncovered)
	}
	for n, u := range updates[unc] {
		c.r.Count("link counts", 1)
		c.uncovered(u.in, u.fr, maps, combined, n > 0, sets)
	}
	if top := c.field(statTop); top >= 0 {
		for _, u := range updates[top] {
			lk, isL := u.in.Value.(*ssa.Lookup)
			f := -1
			if isL {
				if o, g, ok := c.mapField(lk.X, u.fr, maps); ok && isC(o, g) {
					f = g
				}
			}
			if f != unc && f != links || c.p.vkey(lk.Index) != c.p.vkey(u.in.Key) {
				c.bad("top", u.in, "the count of one of the most frequent uncovered links is not the count of this link")
			}
		}
	}
	for i := range c.json {
		if len(updates[i]) > 0 && i != links && i != unc && c.json[i] != statTop {
			c.bad("map:"+c.json[i], updates[i][0].in, "unknown link counts %s", c.json[i])
		}
	}
	// 5. the output
	c.labels(combined)
}

func isFalse(v ssa.Value) bool {
	k, ok := v.(*ssa.Const)
	return ok && k.Value != nil && k.Value.Kind() == constant.Bool && !constant.BoolVal(k.Value)
}

// fresh: the record is a new variable for each file.
func (c *statCheck) fresh(v ssa.Value, fr *shapeFrame, in ssa.Instruction) bool {
	l, _, _ := c.loop(in.Block(), fr)
	for d := 0; d < 30 && v != nil; d++ {
		if al, ok := v.(*ssa.Alloc); ok {
			al2, _, _ := c.loop(al.Block(), fr)
			return al2 != nil && al2 == l
		}
		v, fr = c.step(v, fr)
	}
	return false
}

// sum checks one assignment to a number of the combined statistics.
func (c *statCheck) sum(st *ssa.Store, f int, fr *shapeFrame, combined map[string]bool, sums map[int]int, loops *[]*natLoop) {
	n := c.json[f]
	if k, ok := st.Val.(*ssa.Const); ok && k.Value != nil && constant.Sign(k.Value) == 0 {
		if l, _, _ := c.loop(st.Block(), fr); l == nil && sums[f] == 0 {
			return
		}
	}
	sums[f]++
	if sums[f] > 1 {
		c.bad("sum:"+n, st, "%s of the combined statistics is changed more than once per article", n)
		return
	}
	own := func(v ssa.Value) bool {
		o, g, ok := c.load(v, fr)
		return ok && g == f && combined[o]
	}
	read := func(v ssa.Value, vf *shapeFrame) (int, bool) {
		o, g, ok := c.load(v, vf)
		if !ok {
			return 0, false
		}
		_, rd := c.reads[o]
		return g, rd
	}
	v, vf := st.Val, fr
	for d := 0; d < 20; d++ {
		if x, y, ok := sumOf(v); ok {
			if own(y) {
				x, y = y, x
			}
			g, rd := read(y, vf)
			if own(x) && rd {
				if g != f {
					c.bad("sum:"+n, st, "%s of the articles is added to %s of the combined statistics", c.json[g], n)
				} else if !c.onceFile(st, fr) {
					c.bad("sum:"+n, st, "%s is not added to the combined statistics exactly once for each article", n)
				}
				return
			}
		}
		if phi, ok := v.(*ssa.Phi); ok {
			if c.localSum(phi, vf, f, st, read) {
				if l, _, always := c.loop(st.Block(), fr); l != nil || !always || phi.Block() == st.Block() {
					c.bad("sum:"+n, st, "%s of the combined statistics is not set exactly once after all articles", n)
				}
				return
			}
		}
		nv, nf := c.step(v, vf)
		if nv == nil {
			break
		}
		v, vf = nv, nf
	}
	c.bad("sum:"+n, st, "%s of the combined statistics is not the sum of the articles' %s", n, n)
}

// localSum: the variable adds up the number within the loop over the files.
func (c *statCheck) localSum(phi *ssa.Phi, fr *shapeFrame, f int, st ssa.Instruction, read func(v ssa.Value, fr *shapeFrame) (int, bool)) bool {
	l := c.loopsOf(phi.Parent())[phi.Block()]
	if l == nil || !c.isFilesLoop(l, fr) || !c.outer(l, fr) {
		return false
	}
	for i, e := range phi.Edges {
		if !l.blocks[phi.Block().Preds[i]] {
			if n, ok := constInt(e); !ok || n != 0 {
				return false
			}
			continue
		}
		x, y, ok := sumOf(e)
		if !ok {
			return false
		}
		if y == ssa.Value(phi) {
			x, y = y, x
		}
		g, rd := read(y, fr)
		if x != ssa.Value(phi) || !rd {
			return false
		}
		if g != f {
			c.bad("sum:"+c.json[f], st, "%s of the articles is added to %s of the combined statistics", c.json[g], c.json[f])
		}
	}
	return true
}

// addLinks checks one addition of link counts.
func (c *statCheck) addLinks(mu *ssa.MapUpdate, fr *shapeFrame, maps map[string]int, combined map[string]bool, again bool, links int) {
	if again {
		c.bad("links", mu, "the %s are changed a second time", statLinks)
		return
	}
	x, y, ok := sumOf(mu.Value)
	if !ok {
		c.bad("links", mu, "the count of a link of an article replaces the one of other articles instead of being added to it")
		return
	}
	isOld := func(v ssa.Value) bool {
		lk, ok := v.(*ssa.Lookup)
		if !ok || lk.CommaOk || c.p.vkey(lk.Index) != c.p.vkey(mu.Key) {
			return false
		}
		o, g, ok := c.mapField(lk.X, fr, maps)
		return ok && g == links && (o == "" || combined[o])
	}
	if isOld(y) {
		x, y = y, x
	}
	kn, ki := ranged(mu.Key)
	vn, vi := ranged(y)
	if !isOld(x) || kn == nil || kn != vn || ki != 1 || vi != 2 {
		c.bad("links", mu, "the count of a link of an article is not added to the count of the same link")
		return
	}
	rg, ok := kn.Iter.(*ssa.Range)
	if !ok {
		return
	}
	o, g, ok := c.load(rg.X, fr)
	if _, rd := c.reads[o]; !ok || !rd || g != links {
		c.bad("links", mu, "the added link counts are not the %s of the article", statLinks)
		return
	}
	l := c.loopsOf(mu.Parent())[kn.Block()]
	if l == nil || innermost(c.loopsOf(mu.Parent()), mu.Block()) != l || !l.everyIteration(mu.Block()) || !onlyEnd(l, kn) {
		c.bad("links", mu, "not each link of an article is added to the combined statistics")
		return
	}
	if !c.onceFile(rg, fr) {
		c.bad("links", mu, "the links are not added exactly once for each article")
	}
}

// onlyEnd: the loop over a map is only left after its last entry (or with an error).
func onlyEnd(l *natLoop, n *ssa.Next) bool {
	for _, ex := range l.exits() {
		if ex[0] != n.Block() && !errEnd(ex[1], nil) {
			return false
		}
	}
	return true
}

// uncovered checks how the uncovered links are determined.
func (c *statCheck) uncovered(mu *ssa.MapUpdate, fr *shapeFrame, maps map[string]int, combined map[string]bool, again bool, sets map[string]string) {
	if again {
		c.bad("uncovered", mu, "the %s are changed a second time", statUncovered)
		return
	}
	links, unc := c.field(statLinks), c.field(statUncovered)
	is := func(v ssa.Value, f int) bool {
		o, g, ok := c.mapField(v, fr, maps)
		return ok && g == f && (o == "" || combined[o])
	}
	kn, ki := ranged(mu.Key)
	if kn == nil || ki != 1 {
		c.bad("uncovered", mu, "the %s are not determined from each of the %s", statUncovered, statLinks)
		return
	}
	rg, ok := kn.Iter.(*ssa.Range)
	if !ok || !is(rg.X, links) {
		c.bad("uncovered", mu, "the %s are not determined from the combined %s", statUncovered, statLinks)
		return
	}
	// the count
	count := func(v ssa.Value) bool {
		if n, i := ranged(v); n == kn && i == 2 {
			return true
		}
		lk, ok := v.(*ssa.Lookup)
		return ok && !lk.CommaOk && is(lk.X, links) && c.p.vkey(lk.Index) == c.p.vkey(mu.Key)
	}
	val := mu.Value
	if x, y, ok := sumOf(val); ok {
		old := func(v ssa.Value) bool {
			lk, ok := v.(*ssa.Lookup)
			return ok && !lk.CommaOk && is(lk.X, unc) && c.p.vkey(lk.Index) == c.p.vkey(mu.Key)
		}
		if old(x) {
			val = y
		} else if old(y) {
			val = x
		}
	}
	if !count(val) {
		c.bad("uncovered", mu, "the count of an uncovered link is not the count of this link")
	}
	l := c.loopsOf(mu.Parent())[kn.Block()]
	if l == nil || innermost(c.loopsOf(mu.Parent()), mu.Block()) != l || !onlyEnd(l, kn) {
		c.bad("uncovered", mu, "not each link is checked for being uncovered")
		return
	}
	// run once, after all files
	if ol, _, always := c.loop(rg.Block(), fr); ol != nil || !always {
		c.bad("uncovered", mu, "the uncovered links are determined before the names of all articles are known")
		return
	}
	for _, rd := range c.reads {
		if !c.after(rg, fr, rd) {
			c.bad("uncovered", mu, "the uncovered links are determined before all articles are read")
		}
	}
	// the condition
	var start *ssa.BasicBlock
	for _, s := range kn.Block().Succs {
		if l.blocks[s] {
			start = s
		}
	}
	if start == nil {
		return
	}
	c.p.eachPath(start, 0, func(b *ssa.BasicBlock) (out []*ssa.BasicBlock) {
		for _, s := range b.Succs {
			if l.blocks[s] {
				out = append(out, s)
			}
		}
		return
	}, func(b *ssa.BasicBlock) bool { return b == l.head }, func(w *cfgPath) {
		if !w.feasible() {
			return
		}
		hit := false
		for _, b := range w.blocks {
			hit = hit || b == mu.Block()
		}
		found, known := false, false
		for _, f := range w.facts() {
			if is, neg := c.isCovered(f.cond, mu.Key, fr, sets); is {
				found, known = f.val != neg, true
			}
		}
		switch {
		case !known:
			c.bad("uncovered", mu, "whether a link is uncovered is not decided by the names of all articles of the book")
		case found && hit:
			c.bad("uncovered", mu, "a link to an article of the book is counted as uncovered")
		case !found && !hit:
			c.bad("uncovered", mu, "a link whose target is not part of the book is not counted as uncovered in each case")
		}
	})
}

// isCovered: the condition says that the key is (neg: is not) among the names of the articles.
func (c *statCheck) isCovered(cond, key ssa.Value, fr *shapeFrame, sets map[string]string) (is, neg bool) {
	set := func(lk *ssa.Lookup) bool {
		return sets[c.base(lk.X, fr)] == "set" && c.p.vkey(lk.Index) == c.p.vkey(key)
	}
	switch u := cond.(type) {
	case *ssa.Extract:
		if lk, ok := u.Tuple.(*ssa.Lookup); ok && u.Index == 1 {
			return set(lk), false
		}
	case *ssa.Lookup:
		return !u.CommaOk && set(u), false
	case *ssa.UnOp:
		if u.Op == token.NOT {
			is, neg = c.isCovered(u.X, key, fr, sets)
			return is, !neg
		}
	case *ssa.BinOp:
		for _, xy := range [][2]ssa.Value{{u.X, u.Y}, {u.Y, u.X}} {
			lk, ok := xy[0].(*ssa.Lookup)
			k, isC := xy[1].(*ssa.Const)
			if ok && isC && k.IsNil() && !lk.CommaOk && (u.Op == token.EQL || u.Op == token.NEQ) {
				return set(lk), u.Op == token.EQL
			}
		}
	case *ssa.Call:
		if k := CalleeKey(&u.Call); k == "slices.Contains" && c.p.vkey(u.Call.Args[1]) == c.p.vkey(key) {
			adds := c.appended(u.Call.Args[0], fr, 0, map[ssa.Value]bool{})
			if len(adds) != 1 {
				return false, false
			}
			o, f, ok := c.load(adds[0].v, adds[0].fr)
			_, rd := c.reads[o]
			return ok && rd && c.json[f] == statName && c.onceFile(adds[0].at, adds[0].fr), false
		}
	}
	return false, false
}

// after: the instruction is run after the loop of the other one.
func (c *statCheck) after(in ssa.Instruction, fr *shapeFrame, o statPlace) bool {
	// the frames' common function
	type pos struct {
		b  *ssa.BasicBlock
		in ssa.Instruction
	}
	chain := func(in ssa.Instruction, fr *shapeFrame) (out []pos) {
		for {
			for fr != nil && fr.fn != in.Parent() {
				fr = fr.up
			}
			out = append(out, pos{in.Block(), in})
			if fr == nil {
				return
			}
			in, fr = fr.call, fr.up
		}
	}
	a, b := chain(in, fr), chain(o.in, o.fr)
	for len(a) > 0 && len(b) > 0 {
		x, y := a[len(a)-1], b[len(b)-1]
		if x.in != y.in {
			if x.b.Parent() != y.b.Parent() {
				return false
			}
			l := innermost(c.loopsOf(y.b.Parent()), y.b)
			if l == nil {
				return y.b.Dominates(x.b) && (y.b != x.b || indexIn(y.in) < indexIn(x.in))
			}
			return !l.blocks[x.b] && l.head.Dominates(x.b)
		}
		a, b = a[:len(a)-1], b[:len(b)-1]
	}
	return false
}

func indexIn(in ssa.Instruction) int {
	for i, x := range in.Block().Instrs {
		if x == in {
			return i
		}
	}
	return -1
}

// labels checks numbers that are printed together with their names.
func (c *statCheck) labels(combined map[string]bool) {
	check := func(in ssa.Instruction, text string, v ssa.Value, fr *shapeFrame) {
		line := text[strings.LastIndex(text, "\n")+1:]
		name := strings.ToLower(strings.Join(strings.Fields(strings.TrimSuffix(strings.TrimSpace(line), ":")), "-"))
		f := c.field(name)
		if f < 0 || !c.isNumber(f) {
			return
		}
		c.r.Count("printed numbers", 1)
		o, g, ok := c.load(unboxed(v), fr)
		if !ok || g != f || !combined[o] {
			c.bad("printed:"+name, in, "the printed %s is not the %s of the combined statistics", name, name)
		}
	}
	c.each(c.root, nil, func(in ssa.Instruction, fr *shapeFrame) {
		switch u := in.(type) {
		case *ssa.Call:
			k := CalleeKey(&u.Call)
			n := -1
			switch k {
			case "fmt.Sprintf", "fmt.Appendf":
				n = len(u.Call.Args) - 2
			case "fmt.Fprintf":
				n = 1
			}
			if n < 0 {
				return
			}
			text := constText(u.Call.Args[n])
			if text == "\x00" {
				return
			}
			args := variadicArgs(u.Call.Args[n+1])
			for i := 0; i < len(text); i++ {
				if text[i] != '%' || i+1 >= len(text) {
					continue
				}
				if text[i+1] == '%' {
					i++
					continue
				}
				j := i + 1
				for j < len(text) && strings.ContainsRune("0123456789+-# .", rune(text[j])) {
					j++
				}
				if len(args) == 0 {
					break
				}
				check(in, text[:i], args[0], fr)
				args = args[1:]
				i = j
				text = text[i:]
				i = 0
			}
		case *ssa.BinOp:
			if u.Op != token.ADD {
				return
			}
			it, ok := u.Y.(*ssa.Call)
			if !ok || CalleeKey(&it.Call) != "strconv.Itoa" {
				return
			}
			lit := ""
			if x := constText(u.X); x != "\x00" {
				lit = x
			} else if x, ok := u.X.(*ssa.BinOp); ok && x.Op == token.ADD {
				if t := constText(x.Y); t != "\x00" {
					lit = t
				}
			}
			if lit != "" {
				check(in, lit, it.Call.Args[0], fr)
			}
		}
	})
}

// --- counting per article ---

// counters checks the handlers that count the elements of an article.
func (c *statCheck) counters() {
	for _, h := range c.handlers() {
		c.r.Count("counting handlers", 1)
		c.handler(h)
	}
}

// handlers are the types holding a record, with methods for elements.
func (c *statCheck) handlers() (out []*types.Named) {
	pk := c.t.Obj().Pkg()
	for _, n := range pk.Scope().Names() {
		tn, ok := pk.Scope().Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		nt, ok := tn.Type().(*types.Named)
		if !ok {
			continue
		}
		st, ok := nt.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for i := 0; i < st.NumFields(); i++ {
			if ownRecord(st.Field(i).Type()) == c.t && nt != c.t {
				out = append(out, nt)
				break
			}
		}
	}
	return
}

// statEvent is a change of a number or of link counts.
type statEvent struct {
	in    ssa.Instruction
	fr    *shapeFrame
	field int
	val   ssa.Value
	mu    *ssa.MapUpdate
}

func (c *statCheck) events(m *ssa.Function) (out []statEvent) {
	c.each(m, nil, func(in ssa.Instruction, fr *shapeFrame) {
		switch u := in.(type) {
		case *ssa.Store:
			if _, f, ok := c.fieldAddr(u.Addr, fr); ok {
				out = append(out, statEvent{in, fr, f, u.Val, nil})
			}
		case *ssa.MapUpdate:
			if _, f, ok := c.load(u.Map, fr); ok {
				out = append(out, statEvent{in, fr, f, u.Value, u})
			}
		}
	})
	return
}

func (c *statCheck) handler(h *types.Named) {
	ms := types.NewMethodSet(types.NewPointer(h))
	kinds := map[string]bool{}
	for i := 0; i < ms.Len(); i++ {
		m := c.p.Prog.MethodValue(ms.At(i))
		if m == nil || !c.p.isFn[m] {
			continue
		}
		sig := m.Signature
		var el *types.Named
		elIdx := -1
		for k := 0; k < sig.Params().Len(); k++ {
			if e := isElement(sig.Params().At(k).Type()); e != nil {
				el, elIdx = e, k
			}
		}
		ev := c.events(m)
		if el != nil {
			kinds[el.Obj().Name()] = true
			c.element(m, el, m.Params[elIdx+1], ev)
			continue
		}
		// helpers are looked at where they are called
		sites, known := c.p.sitesOf(m)
		inner := known && len(sites) > 0
		for _, s := range sites {
			inner = inner && s.Parent().Signature.Recv() != nil && ownRecord(s.Parent().Signature.Recv().Type()) == h
		}
		if !inner {
			c.other(m, ev)
		}
	}
	for k, n := range statKinds {
		if !kinds[k] {
			c.bad("kind:"+k, nil, "no handler counts %s into %s", k, n)
		} else {
			c.r.Count("kinds of elements", 1)
		}
	}
	c.owners(h)
}

// plusOne: the value is the field's value plus one.
func (c *statCheck) plus(e statEvent) (ssa.Value, bool) {
	x, y, ok := sumOf(e.val)
	if !ok {
		return nil, false
	}
	own := func(v ssa.Value) bool {
		if e.mu != nil {
			lk, ok := v.(*ssa.Lookup)
			if !ok || lk.CommaOk || c.p.vkey(lk.Index) != c.p.vkey(e.mu.Key) {
				return false
			}
			_, f, ok := c.load(lk.X, e.fr)
			return ok && f == e.field
		}
		_, f, ok := c.load(v, e.fr)
		return ok && f == e.field
	}
	if own(x) {
		return y, true
	}
	if own(y) {
		return x, true
	}
	return nil, false
}

// once: the event happens exactly once per successful call.
func (c *statCheck) once(e statEvent) bool {
	l, _, always := c.loop(e.in.Block(), e.fr)
	return l == nil && always
}

func (c *statCheck) element(m *ssa.Function, el *types.Named, tok *ssa.Parameter, ev []statEvent) {
	kind := el.Obj().Name()
	want := map[string]int{}
	if n := statKinds[kind]; n != "" {
		want[n] = 1
		if kind == "InternalLinkToken" {
			want[statLinks] = 1
		}
	}
	for _, e := range ev {
		n := c.json[e.field]
		if want[n] == 0 {
			c.bad("counted:"+kind+":"+n, e.in, "%s is changed for an element that is not counted there (%s)", n, kind)
			continue
		}
		want[n]++
		if want[n] > 2 {
			c.bad("counted:"+kind+":"+n, e.in, "%s is changed more than once for each %s", n, kind)
			continue
		}
		by, ok := c.plus(e)
		if !ok {
			c.bad("counted:"+kind+":"+n, e.in, "%s is overwritten instead of being increased for each %s", n, kind)
			continue
		}
		one, _ := constInt(by)
		if q, _, isQ := c.argument(by, e.fr); isQ {
			one, _ = constInt(q)
		}
		if one != 1 {
			c.bad("counted:"+kind+":"+n, e.in, "%s is not increased by one for each %s", n, kind)
			continue
		}
		if !c.once(e) {
			c.bad("counted:"+kind+":"+n, e.in, "%s is not increased exactly once for each %s", n, kind)
		}
		if e.mu != nil && !c.isTarget(e.mu.Key, e.fr, tok) {
			c.bad("counted:"+kind+":"+n, e.in, "the link is not counted under its target")
		}
	}
	for n, k := range want {
		if k == 1 {
			c.bad("counted:"+kind+":"+n, m.Blocks[0].Instrs[0], "%s is never increased for %s", n, kind)
		}
		c.r.Count("counted elements", 1)
	}
}

// argument follows a parameter of a helper.
func (c *statCheck) argument(v ssa.Value, fr *shapeFrame) (ssa.Value, *shapeFrame, bool) {
	if q, ok := v.(*ssa.Parameter); ok {
		return frameArg(q, fr)
	}
	return nil, nil, false
}

// isTarget: the value is the name of the article a link leads to.
func (c *statCheck) isTarget(v ssa.Value, fr *shapeFrame, tok *ssa.Parameter) bool {
	for d := 0; d < 20 && v != nil; d++ {
		switch u := v.(type) {
		case *ssa.Field:
			return fieldVar(u.X.Type(), u.Field).Name() == "ArticleName" && c.isParam(u.X, fr, tok)
		case *ssa.UnOp:
			if fa, ok := u.X.(*ssa.FieldAddr); ok && u.Op == token.MUL {
				if fieldVar(fa.X.Type(), fa.Field).Name() != "ArticleName" {
					return false
				}
				return c.isParam(fa.X, fr, tok)
			}
		}
		v, fr = c.step(v, fr)
	}
	return false
}

func (c *statCheck) isParam(v ssa.Value, fr *shapeFrame, tok *ssa.Parameter) bool {
	for d := 0; d < 20 && v != nil; d++ {
		if v == ssa.Value(tok) {
			return true
		}
		if al, ok := v.(*ssa.Alloc); ok {
			v = c.p.onlyStore(al)
			continue
		}
		v, fr = c.step(v, fr)
	}
	return false
}

// other checks methods that are not about one element: the text is counted, nothing else.
func (c *statCheck) other(m *ssa.Function, ev []statEvent) {
	counted := map[string]bool{}
	for _, n := range statKinds {
		counted[n] = true
	}
	isText := m.Name() == "expandSimpleString"
	chars := 0
	for _, e := range ev {
		n := c.json[e.field]
		if counted[n] {
			c.bad("counted:"+m.Name()+":"+n, e.in, "%s is changed outside of the handlers of the elements counted there", n)
		}
		if n == statLinks && e.mu != nil {
			c.bad("counted:"+m.Name()+":"+n, e.in, "%s is changed outside of the handler of internal links", n)
		}
		if n != statChars {
			continue
		}
		chars++
		by, ok := c.plus(e)
		if !isText || !ok || chars > 1 || !c.once(e) || !c.isRuneCount(by, e.fr, m) {
			c.bad("counted:"+n, e.in, "the characters of each text are not counted exactly once")
		}
	}
	if isText && chars == 0 {
		c.bad("counted:"+statChars, m.Blocks[0].Instrs[0], "the characters of texts are not counted")
	}
}

func (c *statCheck) isRuneCount(v ssa.Value, fr *shapeFrame, m *ssa.Function) bool {
	if len(m.Params) < 2 {
		return false
	}
	text := func(v ssa.Value) bool { return c.isParam(v, fr, m.Params[1]) }
	for d := 0; d < 10 && v != nil; d++ {
		if call, ok := v.(*ssa.Call); ok {
			if b, isB := call.Call.Value.(*ssa.Builtin); isB && b.Name() == "len" {
				x := call.Call.Args[0]
				for k := 0; k < 5; k++ {
					if cv, ok := x.(*ssa.Convert); ok {
						if sl, isS := cv.Type().Underlying().(*types.Slice); isS && types.Identical(sl.Elem().Underlying(), types.Typ[types.Int32]) {
							return text(cv.X)
						}
						return false
					}
					x, _ = c.step(x, fr)
					if x == nil {
						return false
					}
				}
			}
			if CalleeKey(&call.Call) == "unicode/utf8.RuneCountInString" {
				return text(call.Call.Args[0])
			}
		}
		v, fr = c.step(v, fr)
	}
	return false
}

// owners: each article has its own handler with its own record.
func (c *statCheck) owners(h *types.Named) {
	// functions writing the record of a handler to a file
	for _, fn := range c.p.Funcs {
		sig := fn.Signature
		if sig.Recv() == nil || ownRecord(sig.Recv().Type()) != h || fn.Object() == nil || !fn.Object().Exported() {
			continue
		}
		sites, known := c.p.sitesOf(fn)
		if !known {
			c.bad("owner", nil, "the calls of %s are not known", fn.Name())
			continue
		}
		if resetsRecord(fn, c.t) {
			continue
		}
		for _, s := range sites {
			c.r.Count("articles counted", 1)
			in := s.(ssa.Instruction)
			v := s.Common().Args[0]
			var fr *shapeFrame
			made := false
			for d := 0; d < 20 && v != nil; d++ {
				if call, ok := v.(*ssa.Call); ok && call.Call.StaticCallee() != nil && returnsNew(call.Call.StaticCallee(), c.t) {
					made = call.Parent() == in.Parent() && innermost(c.loopsOf(in.Parent()), call.Block()) == innermost(c.loopsOf(in.Parent()), in.Block())
					break
				}
				if al, ok := v.(*ssa.Alloc); ok && ownRecord(al.Type()) == h {
					made = al.Parent() == in.Parent() && innermost(c.loopsOf(in.Parent()), al.Block()) == innermost(c.loopsOf(in.Parent()), in.Block())
					break
				}
				nv, nf := c.step(v, fr)
				if nv == nil {
					nv = c.p.resolveStep(v)
					if nv == v {
						nv = nil
					}
				}
				v, fr = nv, nf
			}
			if !made {
				c.bad("owner", in, "the statistics of an article are not counted into a record of their own, numbers of other articles may be included")
			}
		}
	}
}

// returnsNew: the function returns a handler with a new record.
func returnsNew(f *ssa.Function, t *types.Named) bool {
	al := false
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if a, ok := in.(*ssa.Alloc); ok && ownRecord(a.Type()) == t {
				al = true
			}
		}
	}
	return al
}

// resetsRecord: the function replaces the record before anything else is called.
func resetsRecord(f *ssa.Function, t *types.Named) bool {
	for _, in := range f.Blocks[0].Instrs {
		switch u := in.(type) {
		case *ssa.Store:
			if fa, ok := u.Addr.(*ssa.FieldAddr); ok && ownRecord(fa.Type().Underlying().(*types.Pointer).Elem()) == t {
				if a, isA := u.Val.(*ssa.Alloc); isA && a.Heap {
					return true
				}
			}
		case *ssa.Call:
			return false
		}
	}
	return false
}
