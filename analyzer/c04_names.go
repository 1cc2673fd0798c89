package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID:    "C04",
		Title: "names from the wiki cannot leave their cache folder or be confused",
		Rule:  "the function making names safe encodes every character the file system layer refuses, the path separators, and the names of folders, one-to-one; every part of a path below the cache directory is a constant or such a safe name; names given to the cache are not shortened or merged before; every operation of the file system layer that changes something refuses unsafe names first, and other changes of the file system only concern paths that are constant, configured, or made by the cache",
		Run:   runC04,
	})
}

// replacement of a text by another.
type replacement struct {
	from, to string
	pass     int // replacements of the same pass are done at the same time
}

// encoding describes a function encoding characters of a name.
type encoding struct {
	fn        *ssa.Function
	base      ssa.Value // the encoded text
	chain     []replacement
	at        ssa.Instruction
	pass      int
	unordered bool
}

// encodingOf reads the replacements a function applies to its text parameter.
func encodingOf(p *Program, fn *ssa.Function) *encoding {
	if len(fn.Params) == 0 || len(fn.Blocks) == 0 || fn.Signature.Results().Len() != 1 {
		return nil
	}
	isStr := func(t types.Type) bool {
		b, ok := t.Underlying().(*types.Basic)
		return ok && b.Kind() == types.String
	}
	if !isStr(fn.Signature.Results().At(0).Type()) {
		return nil
	}
	var q *ssa.Parameter
	for _, x := range fn.Params {
		if isStr(x.Type()) {
			if q != nil {
				return nil
			}
			q = x
		}
	}
	if q == nil {
		return nil
	}
	// the longest chain of replacements any returned value goes through
	var best *encoding
	for _, b := range fn.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		for _, v := range alternatives(ret.Results[0], map[ssa.Value]bool{}) {
			if c, ok := v.(*ssa.Call); ok && c.Call.StaticCallee() != nil && p.IsRepoFn(c.Call.StaticCallee()) && dotsHelper(c.Call.StaticCallee()) {
				v = c.Call.Args[0]
			}
			e := &encoding{fn: fn, base: v, at: ret}
			if e.parse(p, v, q, map[ssa.Value]bool{}) && (best == nil || len(e.chain) > len(best.chain)) {
				best = e
			}
		}
	}
	if best == nil || len(best.chain) == 0 {
		return nil
	}
	// replacements of single dots are no part of the encoding, they are judged by the names of folders
	for len(best.chain) > 0 {
		last := best.chain[len(best.chain)-1]
		call, ok := best.base.(*ssa.Call)
		if last.from != "." || !ok {
			break
		}
		if d, isStr := constStr(call.Call.Args[1]); CalleeKey(&call.Call) != "strings.ReplaceAll" || !isStr || d != "." {
			break
		}
		best.chain = best.chain[:len(best.chain)-1]
		best.base = call.Call.Args[0]
	}
	if len(best.chain) == 0 {
		return nil
	}
	return best
}

// dotsHelper: the function returns its text as it is, or another one instead of the names of folders.
func dotsHelper(fn *ssa.Function) bool {
	if len(fn.Params) != 1 || len(fn.Blocks) == 0 || fn.Signature.Results().Len() != 1 {
		return false
	}
	plain := false
	for _, b := range fn.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		for _, v := range alternatives(ret.Results[0], map[ssa.Value]bool{}) {
			if v == ssa.Value(fn.Params[0]) {
				plain = true
				continue
			}
			if !dotsOnly(v, fn.Params[0]) {
				return false
			}
		}
	}
	return plain
}

// dotsOnly: the value is made of the given one by encoding dots, or a constant name.
func dotsOnly(v, base ssa.Value) bool {
	if c, ok := v.(*ssa.Call); ok {
		if CalleeKey(&c.Call) == "strings.ReplaceAll" {
			if d, ok := constStr(c.Call.Args[1]); ok && d == "." && c.Call.Args[0] == base {
				return true
			}
		}
		if CalleeKey(&c.Call) == "strings.Repeat" {
			return true
		}
		if f := c.Call.StaticCallee(); f != nil && len(c.Call.Args) == 1 && c.Call.Args[0] == base && dotsHelper(f) {
			return true
		}
	}
	if c, ok := constStr(v); ok && IsSafeConst(c) {
		return true
	}
	if bo, ok := v.(*ssa.BinOp); ok && bo.Op == token.ADD {
		if _, okX := constStr(bo.X); okX && bo.Y == base {
			return true
		}
	}
	return false
}

// alternatives lists the values a value can be, a loop's result not being split up.
func alternatives(v ssa.Value, seen map[ssa.Value]bool) (out []ssa.Value) {
	if seen[v] {
		return nil
	}
	seen[v] = true
	if ph, ok := v.(*ssa.Phi); ok && loopsOf(ph.Parent())[ph.Block()] == nil {
		for _, e := range ph.Edges {
			out = append(out, alternatives(e, seen)...)
		}
		return
	}
	return []ssa.Value{v}
}

func constStr(v ssa.Value) (string, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.String {
		return "", false
	}
	return constant.StringVal(c.Value), true
}

// parse reads the chain of replacements from q to v.
func (e *encoding) parse(p *Program, v ssa.Value, q ssa.Value, seen map[ssa.Value]bool) bool {
	if v == q {
		return true
	}
	if seen[v] {
		return false
	}
	seen[v] = true
	switch u := v.(type) {
	case *ssa.UnOp:
		if u.Op == token.MUL {
			if st := p.onlyStore(u.X); st != nil {
				return e.parse(p, st, q, seen)
			}
		}
	case *ssa.Call:
		k := CalleeKey(&u.Call)
		switch k {
		case "strings.ReplaceAll", "strings.Replace":
			if k == "strings.Replace" {
				if n, ok := constInt(u.Call.Args[3]); !ok || n >= 0 {
					return false
				}
			}
			if !e.parse(p, u.Call.Args[0], q, seen) {
				return false
			}
			a, ok1 := constStr(u.Call.Args[1])
			b, ok2 := constStr(u.Call.Args[2])
			if !ok1 || !ok2 {
				return false
			}
			e.pass++
			e.chain = append(e.chain, replacement{a, b, e.pass})
			return true
		case "(*strings.Replacer).Replace":
			if !e.parse(p, u.Call.Args[1], q, seen) {
				return false
			}
			e.pass++
			r := p.resolve(u.Call.Args[0])
			if ld, ok := r.(*ssa.UnOp); ok {
				if g, ok := ld.X.(*ssa.Global); ok {
					if st := p.GlobalStores(g); len(st) == 1 {
						r = st[0].Val
					}
				}
			}
			nr, ok := r.(*ssa.Call)
			if !ok || CalleeKey(&nr.Call) != "strings.NewReplacer" || len(nr.Call.Args) != 1 {
				return false
			}
			el, ok := constElems(nr.Call.Args[0])
			if !ok || len(el)%2 != 0 {
				return false
			}
			for i := 0; i < len(el); i += 2 {
				e.chain = append(e.chain, replacement{constant.StringVal(el[i]), constant.StringVal(el[i+1]), e.pass})
			}
			return true
		}
		// a helper doing (a part of) it
		if f := u.Call.StaticCallee(); f != nil && p.IsRepoFn(f) && len(u.Call.Args) >= 1 {
			if h := encodingOf(p, f); h != nil && e.parse(p, u.Call.Args[0], q, seen) {
				for _, c := range h.chain {
					c.pass += e.pass
					e.chain = append(e.chain, c)
				}
				e.pass += h.pass
				e.unordered = e.unordered || h.unordered
				return true
			}
			if dotsHelper(f) {
				return e.parse(p, u.Call.Args[0], q, seen)
			}
		}
	case *ssa.Phi:
		l := loopsOf(u.Parent())[u.Block()]
		if l == nil {
			// the alternatives must agree in what they do to the text
			return false
		}
		var in, next ssa.Value
		for i, ed := range u.Edges {
			if l.blocks[u.Block().Preds[i]] {
				next = ed
			} else {
				in = ed
			}
		}
		call, ok := next.(*ssa.Call)
		if !ok || CalleeKey(&call.Call) != "strings.ReplaceAll" || call.Call.Args[0] != ssa.Value(u) {
			return false
		}
		if !e.parse(p, in, q, seen) {
			return false
		}
		tbl, ordered := replTable(p, call.Call.Args[1], call.Call.Args[2])
		if tbl == nil {
			return false
		}
		for _, c := range tbl {
			e.pass++
			c.pass = e.pass
			e.chain = append(e.chain, c)
		}
		e.unordered = e.unordered || !ordered
		return true
	}
	return false
}

// replTable reads the table a loop takes its replacements from.
func replTable(p *Program, a, b ssa.Value) (out []replacement, ordered bool) {
	// fields of the elements of a list
	elem := func(v ssa.Value) (base ssa.Value, f int) {
		switch u := v.(type) {
		case *ssa.UnOp:
			if fa, ok := u.X.(*ssa.FieldAddr); ok && u.Op == token.MUL {
				if ia, ok := fa.X.(*ssa.IndexAddr); ok {
					return ia.X, fa.Field
				}
				if al, ok := fa.X.(*ssa.Alloc); ok {
					if st, ok := p.onlyStore(al).(*ssa.UnOp); ok {
						if ia, ok := st.X.(*ssa.IndexAddr); ok {
							return ia.X, fa.Field
						}
					}
				}
			}
			if ia, ok := u.X.(*ssa.IndexAddr); ok && u.Op == token.MUL {
				if n, ok := constInt(ia.Index); ok {
					switch w := ia.X.(type) {
					case *ssa.IndexAddr: // [][2]string
						return w.X, int(n)
					case *ssa.UnOp: // [][]string
						if x, ok := w.X.(*ssa.IndexAddr); ok {
							return x.X, int(n)
						}
					case *ssa.Alloc:
						if st, ok := soleCopy(w).(*ssa.UnOp); ok {
							if x, ok := st.X.(*ssa.IndexAddr); ok {
								return x.X, int(n)
							}
						}
					}
				}
			}
		case *ssa.Field:
			if ld, ok := u.X.(*ssa.UnOp); ok {
				if ia, ok := ld.X.(*ssa.IndexAddr); ok {
					return ia.X, u.Field
				}
			}
		case *ssa.Index:
			if ld, ok := u.X.(*ssa.UnOp); ok {
				if ia, ok := ld.X.(*ssa.IndexAddr); ok {
					if n, ok := constInt(u.Index); ok {
						return ia.X, int(n)
					}
				}
			}
		case *ssa.Extract: // range over a map
			if nx, ok := u.Tuple.(*ssa.Next); ok {
				if r, ok := nx.Iter.(*ssa.Range); ok {
					return r.X, -u.Index
				}
			}
		}
		return nil, 0
	}
	ba, fa := elem(a)
	bb, fb := elem(b)
	if ba == nil || bb == nil || p.vkey(ba) != p.vkey(bb) {
		return nil, false
	}
	if fa < 0 {
		if m, ok := mapLiteral(ba); ok {
			for k, v := range m {
				s, ok := constStr(v)
				if !ok {
					return nil, false
				}
				out = append(out, replacement{from: k, to: s})
			}
			sort.Slice(out, func(i, j int) bool { return out[i].from < out[j].from })
			return out, false
		}
		return nil, false
	}
	rows := constRows(p, ba)
	for _, r := range rows {
		x, ok1 := r[fa]
		y, ok2 := r[fb]
		if !ok1 || !ok2 {
			return nil, false
		}
		out = append(out, replacement{from: x, to: y})
	}
	return out, true
}

// soleCopy: the value a local array is a copy of, when nothing else is written to it.
func soleCopy(al *ssa.Alloc) (v ssa.Value) {
	for _, r := range *al.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Addr != ssa.Value(al) || v != nil {
				return nil
			}
			v = x.Val
		case *ssa.IndexAddr:
			for _, r2 := range *x.Referrers() {
				if ld, ok := r2.(*ssa.UnOp); !ok || ld.Op != token.MUL {
					return nil
				}
			}
		case *ssa.UnOp, *ssa.DebugRef:
		default:
			return nil
		}
	}
	return
}

// constRows reads a literal list of structures or arrays of texts.
func constRows(p *Program, v ssa.Value) (rows []map[int]string) {
	v = p.resolve(v)
	if ld, ok := v.(*ssa.UnOp); ok && ld.Op == token.MUL {
		if g, ok := ld.X.(*ssa.Global); ok {
			if st := p.GlobalStores(g); len(st) == 1 {
				return constRows(p, st[0].Val)
			}
		}
	}
	if g, ok := v.(*ssa.Global); ok { // array variable
		return rowsAt(p, g)
	}
	if sl, ok := v.(*ssa.Slice); ok {
		return rowsAt(p, sl.X)
	}
	if al, ok := v.(*ssa.Alloc); ok {
		return rowsAt(p, al)
	}
	return nil
}

func rowsAt(p *Program, al ssa.Value) []map[int]string {
	byIdx := map[int64]map[int]string{}
	refs := al.Referrers()
	if refs == nil {
		return nil
	}
	for _, r := range *refs {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		n, ok := constInt(ia.Index)
		if !ok {
			continue
		}
		row := map[int]string{}
		var collect func(a ssa.Value)
		collect = func(a ssa.Value) {
			for _, r2 := range *a.Referrers() {
				switch x := r2.(type) {
				case *ssa.FieldAddr:
					for _, r3 := range *x.Referrers() {
						if st, ok := r3.(*ssa.Store); ok {
							if s, ok := constStr(st.Val); ok {
								row[x.Field] = s
							}
						}
					}
				case *ssa.IndexAddr:
					if m, ok := constInt(x.Index); ok {
						for _, r3 := range *x.Referrers() {
							if st, ok := r3.(*ssa.Store); ok {
								if s, ok := constStr(st.Val); ok {
									row[int(m)] = s
								}
							}
						}
					}
				case *ssa.Store:
					if x.Addr == a {
						switch w := x.Val.(type) {
						case *ssa.Slice:
							collect(w.X)
						case *ssa.UnOp:
							if al2, ok := w.X.(*ssa.Alloc); ok {
								collect(al2)
							}
						}
					}
				}
			}
		}
		collect(ia)
		byIdx[n] = row
	}
	var out []map[int]string
	for i := int64(0); i < int64(len(byIdx)); i++ {
		if byIdx[i] == nil {
			return nil
		}
		out = append(out, byIdx[i])
	}
	return out
}

var escaped = regexp.MustCompile(`^.[0-9A-Za-z]+$`)

// judge finds reasons why an encoding is not one-to-one.
func (e *encoding) judge() (why []string) {
	esc := ""
	for _, c := range e.chain {
		if len([]rune(c.from)) != 1 {
			why = append(why, "it replaces the text '"+c.from+"', which is no single character")
			continue
		}
		if len(c.to) < 2 || !escaped.MatchString(c.to) {
			why = append(why, "it replaces '"+c.from+"' by '"+c.to+"', so that different names become the same")
			continue
		}
		if esc == "" {
			esc = c.to[:1]
		}
		if c.to[:1] != esc {
			why = append(why, "it uses different characters to start replacements")
		}
	}
	tos := map[string]string{}
	froms := map[string]bool{}
	for _, c := range e.chain {
		if o, ok := tos[c.to]; ok && o != c.from {
			why = append(why, "it replaces '"+o+"' and '"+c.from+"' by the same text '"+c.to+"'")
		}
		tos[c.to] = c.from
		if froms[c.from] {
			why = append(why, "it replaces '"+c.from+"' twice")
		}
		froms[c.from] = true
	}
	for _, c := range e.chain {
		for _, d := range e.chain {
			if c.to != d.to && strings.HasPrefix(c.to, d.to) {
				why = append(why, "the replacement '"+c.to+"' starts with the replacement '"+d.to+"'")
			}
			for _, r := range c.to[1:] {
				if d.from == string(r) {
					why = append(why, "the replacement '"+c.to+"' contains '"+d.from+"', which is replaced as well")
				}
			}
		}
	}
	if len(why) > 0 {
		return
	}
	first := e.chain[0].pass
	escFirst := false
	for _, c := range e.chain {
		escFirst = escFirst || c.from == esc && c.pass == first
	}
	switch {
	case !froms[esc]:
		why = append(why, "it does not encode '"+esc+"' itself, so that a name containing a replacement is confused with the replaced name")
	case e.unordered:
		why = append(why, "it replaces the characters in a random order, '"+esc+"' not always first")
	case !escFirst:
		why = append(why, "it does not encode '"+esc+"' first, so that replacements are encoded again")
	}
	return
}

// safety are the functions of the repository deciding about safe names.
type safety struct {
	p         *Program
	r         *Report
	encs      map[*ssa.Function]*encoding
	checkers  map[*ssa.Function]bool
	rejected  map[string]bool
	guardMemo map[*ssa.Function]map[int]bool
}

func runC04(p *Program, r *Report) {
	s := &safety{p: p, r: r, encs: map[*ssa.Function]*encoding{}, checkers: map[*ssa.Function]bool{}, rejected: map[string]bool{}, guardMemo: map[*ssa.Function]map[int]bool{}}
	for _, fn := range p.Funcs {
		if e := encodingOf(p, fn); e != nil {
			for _, c := range e.chain {
				if c.from == "/" {
					s.encs[fn] = e
				}
			}
		}
	}
	s.findCheckers()
	s.encoders()
	s.paths()
	s.names()
	s.layer()
	s.direct()
	r.AtLeast("functions making names safe", 1)
	r.AtLeast("functions recognising unsafe names", 1)
	r.AtLeast("paths below the cache directory", 3)
	r.AtLeast("file system operations", 6)
	r.AtLeast("names given to the cache", 5)
}

// findCheckers: functions text -> bool that look for separators in the parts of a path.
func (s *safety) findCheckers() {
	for _, fn := range s.p.Funcs {
		if fn.Signature.Results().Len() != 1 || len(fn.Params) != 1 || !types.Identical(fn.Signature.Results().At(0).Type(), types.Typ[types.Bool]) {
			continue
		}
		stripped := map[string]bool{}
		rejected := map[string]bool{}
		for _, f := range append(withClosures(fn), s.helpers(fn)...) {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					c := callOf(in)
					if c == nil {
						continue
					}
					switch CalleeKey(c) {
					case "strings.ReplaceAll":
						if a, ok := constStr(c.Args[1]); ok {
							if e, ok := constStr(c.Args[2]); ok && e == "" {
								stripped[a] = true
							}
						} else if el := s.tableColumn(c.Args[1]); el != nil {
							for _, e := range el {
								stripped[e] = true
							}
						}
					case "strings.NewReplacer":
						if el, ok := constElems(c.Args[0]); ok {
							for i := 0; i+1 < len(el); i += 2 {
								if constant.StringVal(el[i+1]) == "" {
									stripped[constant.StringVal(el[i])] = true
								}
							}
						}
					case "strings.Contains", "strings.ContainsRune", "strings.ContainsAny", "strings.IndexAny", "strings.Index", "strings.IndexByte":
						if a, ok := constStr(c.Args[1]); ok {
							if strings.HasSuffix(CalleeKey(c), "Any") {
								for _, x := range a {
									rejected[string(x)] = true
								}
							} else {
								rejected[a] = true
							}
						} else if n, ok := constInt(c.Args[1]); ok {
							rejected[string(rune(n))] = true
						} else if el := s.tableColumn(c.Args[1]); el != nil {
							for _, e := range el {
								rejected[e] = true
							}
						}
					}
				}
			}
		}
		if len(stripped) >= 3 && len(rejected) >= 3 {
			s.checkers[fn] = true
			s.checker(fn, stripped, rejected)
		}
	}
	s.r.Count("functions recognising unsafe names", len(s.checkers))
}

// helpers: repository functions called by fn.
func (s *safety) helpers(fn *ssa.Function) (out []*ssa.Function) {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c := callOf(in); c != nil {
				out = append(out, s.p.repoCallees(c)...)
			}
		}
	}
	return
}

// tableColumn: the values of a literal list (a column of it) or the keys or values of a literal map the value runs over.
func (s *safety) tableColumn(v ssa.Value) []string {
	if ld, ok := v.(*ssa.UnOp); ok && ld.Op == token.MUL {
		if ia, ok := ld.X.(*ssa.IndexAddr); ok {
			if el, ok := constElems(ia.X); ok {
				var out []string
				for _, e := range el {
					if e.Kind() != constant.String {
						return nil
					}
					out = append(out, constant.StringVal(e))
				}
				return out
			}
		}
	}
	if t, _ := replTable(s.p, v, v); t != nil {
		var out []string
		for _, r := range t {
			out = append(out, r.from)
		}
		return out
	}
	if ex, ok := v.(*ssa.Extract); ok {
		if nx, ok := ex.Tuple.(*ssa.Next); ok {
			if r, ok := nx.Iter.(*ssa.Range); ok {
				if m, ok := mapLiteral(r.X); ok {
					var out []string
					for k, v := range m {
						if ex.Index == 1 {
							out = append(out, k)
						} else if c, ok := constStr(v); ok {
							out = append(out, c)
						}
					}
					return out
				}
			}
		}
	}
	return nil
}

// checker: the function recognising unsafe names refuses exactly what the encoding removes.
func (s *safety) checker(fn *ssa.Function, stripped, rejected map[string]bool) {
	name := FnName(fn)
	for c := range rejected {
		s.rejected[c] = true
	}
	for _, e := range s.encs {
		for _, c := range e.chain {
			if !rejected[c.from] {
				s.r.Bad("accepts:"+name+":"+c.from, s.p.Pos(fn.Pos()), "%s does not refuse '%s', although %s has to encode it: a name that was not made safe is accepted", name, c.from, FnName(e.fn))
			}
			if !stripped[c.to] {
				s.r.Bad("refuses:"+name+":"+c.to, s.p.Pos(fn.Pos()), "%s refuses '%s', the encoding %s makes of '%s'", name, c.to, FnName(e.fn), c.from)
			}
		}
	}
	// no way to the answer "safe" avoids looking for a character in every part
	fns := append(withClosures(fn), s.helpers(fn)...)
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				k := CalleeKey(&call.Call)
				looks := k == "strings.Contains" || k == "strings.ContainsAny" || k == "strings.ContainsRune" || k == "strings.IndexAny" || k == "strings.IndexByte" || k == "strings.Index"
				if f == fn {
					for _, t := range s.p.repoCallees(&call.Call) {
						looks = looks || len(t.Params) == 1 && types.Identical(call.Type(), types.Typ[types.Bool])
					}
				}
				if looks && f.Parent() == nil {
					if why := avoids(f, b); why != "" {
						s.r.Bad("avoids:"+name, s.p.At(call), "%s can accept a name without having looked for a character to be refused in each of its parts: %s", name, why)
					}
				}
			}
		}
	}
	// a match leads to the answer "not safe"
	for _, b := range fn.Blocks {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		call, ok := iff.Cond.(*ssa.Call)
		if !ok {
			continue
		}
		k := CalleeKey(&call.Call)
		if k != "strings.Contains" && k != "strings.ContainsAny" && k != "strings.ContainsRune" {
			continue
		}
		s.r.Count("characters refused", 1)
		if !onlyReturns(b.Succs[0], false, map[*ssa.BasicBlock]bool{}) {
			s.r.Bad("answer:"+name, s.p.At(call), "%s can accept a name although it contains a character to be refused", name)
		}
	}
}

// avoids: how the function can return something else than "false" without having run the block (in each iteration of the loops around it).
func avoids(fn *ssa.Function, b *ssa.BasicBlock) string {
	if b.Index != 0 && len(b.Preds) == 0 {
		return "" // never run
	}
	loops := loopsOf(fn)
	for {
		var l *natLoop
		for _, x := range loops {
			if x.blocks[b] && x.head != b && (l == nil || len(x.blocks) < len(l.blocks)) {
				l = x
			}
		}
		if l == nil {
			break
		}
		if !l.everyIteration(b) {
			return "an iteration can be finished without"
		}
		for _, e := range l.exits() {
			if e[0] != l.head && !edgeReturns(e[0], e[1], false) {
				c := countingOf(l)
				if c == nil || !c.regular(e) {
					return "the loop over the parts can be left early"
				}
			}
		}
		b = l.head
	}
	for _, x := range fn.Blocks {
		ret, ok := x.Instrs[len(x.Instrs)-1].(*ssa.Return)
		if !ok || len(ret.Results) != 1 {
			continue
		}
		if onlyReturns(x, false, map[*ssa.BasicBlock]bool{}) {
			if _, isPhi := ret.Results[0].(*ssa.Phi); !isPhi {
				continue
			}
		}
		if b.Dominates(x) {
			continue
		}
		if ph, ok := ret.Results[0].(*ssa.Phi); ok && ph.Block() == x {
			good := true
			for i, pr := range x.Preds {
				if c, ok := ph.Edges[i].(*ssa.Const); ok && c.Value != nil && !constant.BoolVal(c.Value) {
					continue
				}
				good = good && b.Dominates(pr)
			}
			if good {
				continue
			}
		}
		return "there is a way around"
	}
	return ""
}

// edgeReturns: taking the edge leads to returning the truth value.
func edgeReturns(from, to *ssa.BasicBlock, want bool) bool {
	if ret, ok := to.Instrs[len(to.Instrs)-1].(*ssa.Return); ok && len(ret.Results) == 1 {
		if ph, ok := ret.Results[0].(*ssa.Phi); ok && ph.Block() == to {
			for i, pr := range to.Preds {
				if pr == from {
					c, ok := ph.Edges[i].(*ssa.Const)
					return ok && c.Value != nil && constant.BoolVal(c.Value) == want
				}
			}
		}
	}
	if len(to.Succs) == 1 && len(to.Instrs) == 1 {
		return edgeReturns(to, to.Succs[0], want)
	}
	return onlyReturns(to, want, map[*ssa.BasicBlock]bool{})
}

// onlyReturns: every way from the block returns the given truth value.
func onlyReturns(b *ssa.BasicBlock, want bool, seen map[*ssa.BasicBlock]bool) bool {
	if seen[b] {
		return true
	}
	seen[b] = true
	if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
		if len(ret.Results) != 1 {
			return false
		}
		if c, ok := ret.Results[0].(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Bool {
			return constant.BoolVal(c.Value) == want
		}
		if ph, ok := ret.Results[0].(*ssa.Phi); ok && ph.Block() == b {
			return true // decided by the edge: only constants are merged here
		}
		return false
	}
	for _, x := range b.Succs {
		if !onlyReturns(x, want, seen) {
			return false
		}
	}
	return len(b.Succs) > 0
}

// encoders: the functions making names safe are one-to-one, and complete.
func (s *safety) encoders() {
	p, r := s.p, s.r
	for fn, e := range s.encs {
		name := FnName(fn)
		r.Count("functions making names safe", 1)
		r.Count("characters encoded", len(e.chain))
		for _, w := range e.judge() {
			r.Bad("encoding:"+name+":"+w, p.Pos(fn.Pos()), "%s confuses names: %s", name, w)
		}
		froms := map[string]bool{}
		for _, c := range e.chain {
			froms[c.from] = true
		}
		need := []string{"/", "\\"}
		for c := range s.rejected {
			need = append(need, c)
		}
		sort.Strings(need)
		for _, c := range need {
			if !froms[c] {
				r.Bad("incomplete:"+name+":"+c, p.Pos(fn.Pos()), "%s does not encode '%s'", name, c)
			}
		}
		// names of folders
		for _, dots := range []string{".", ".."} {
			if froms["."] {
				break
			}
			x := p.RunSCCPWith([]*ssa.Function{fn}, func(*types.Var) (constant.Value, bool) { return nil, false }, map[ssa.Value]constant.Value{fn.Params[0]: constant.MakeString(dots), e.base: constant.MakeString(dots)})
			res := x.rets[fn]
			if len(res) != 1 || res[0].k != latConst {
				r.Bad("folder:"+name+":"+dots, p.Pos(fn.Pos()), "what %s makes of the name '%s', which refers to a folder, is not certain", name, dots)
				continue
			}
			got := constant.StringVal(res[0].c)
			if got == "." || got == ".." || got == "" || strings.ContainsAny(got, "/\\") {
				r.Bad("folder:"+name+":"+dots, p.Pos(fn.Pos()), "%s makes '%s' of the name '%s', which refers to a folder", name, got, dots)
			}
			// not the encoding of another name
			for _, c := range e.chain {
				if got == c.to {
					r.Bad("folder:"+name+":"+dots, p.Pos(fn.Pos()), "%s makes '%s' of the name '%s' and of '%s'", name, got, dots, c.from)
				}
			}
			if !strings.HasPrefix(got, e.chain[0].to[:1]) {
				r.Bad("folder:"+name+":"+dots, p.Pos(fn.Pos()), "%s makes '%s' of the name '%s', which can be another name as well", name, got, dots)
			}
		}
		// every returned value is encoded
		for _, b := range fn.Blocks {
			ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok {
				continue
			}
			for _, v := range alternatives(ret.Results[0], map[ssa.Value]bool{}) {
				if v == e.base {
					continue
				}
				if dotsOnly(v, e.base) {
					continue
				}
				r.Bad("bypass:"+name, p.At(ret), "%s can return a name without having made it safe", name)
			}
		}
	}
}

// IsSafeConst: a constant name that is safe as a part of a path.
func IsSafeConst(c string) bool {
	if c == "" || c == "." {
		return true
	}
	return filepath.IsLocal(c) && !strings.ContainsAny(c, "<>:\"|?*\\")
}

// pathPass: library functions making a path from their arguments.
func pathPass(k string, c *ssa.CallCommon) []ssa.Value {
	switch k {
	case "path/filepath.Join", "path.Join":
		if sl, ok := c.Args[0].(*ssa.Slice); ok {
			return []ssa.Value{sl.X}
		}
		return []ssa.Value{c.Args[0]}
	case "path/filepath.Dir", "path/filepath.Base", "path/filepath.Clean", "path/filepath.Abs", "path/filepath.EvalSymlinks", "path.Base", "path.Dir", "path.Clean", "path/filepath.FromSlash", "path/filepath.ToSlash":
		return []ssa.Value{c.Args[0]}
	case "path/filepath.Rel":
		return []ssa.Value{c.Args[0], c.Args[1]}
	case "fmt.Sprintf":
		return c.Args
	}
	return nil
}

// isConfig: the value is loaded from the configuration.
func isConfigField(v ssa.Value, name string) bool {
	ld, ok := v.(*ssa.UnOp)
	if !ok || ld.Op != token.MUL {
		return false
	}
	fa, ok := ld.X.(*ssa.FieldAddr)
	if !ok {
		return false
	}
	t := fa.X.Type()
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != modPath+"/config" {
		return false
	}
	fv := fieldVar(fa.X.Type(), fa.Field)
	return fv != nil && (name == "" || fv.Name() == name)
}

// safeLeaf: parts of paths that may be used in the cache.
func (s *safety) unsafeParts(v ssa.Value) (bad []ssa.Value) {
	o := &origins{p: s.p, pass: pathPass}
	o.stop = func(v ssa.Value, via []ssa.Value) bool {
		if c, ok := v.(*ssa.Call); ok {
			for _, t := range s.p.repoCallees(&c.Call) {
				if s.encs[t] != nil {
					return true
				}
			}
		}
		return isConfigField(v, "")
	}
	o.leaf = func(v ssa.Value, via []ssa.Value) {
		if c, ok := constStr(v); ok && IsSafeConst(c) {
			return
		}
		if _, ok := v.(*ssa.Const); ok {
			if _, ok := constStr(v); !ok {
				return
			}
		}
		bad = append(bad, v)
	}
	o.walk(v, nil)
	return
}

// joinArgs: the parts a path is joined from.
func joinArgs(in ssa.Instruction) []ssa.Value {
	switch i := in.(type) {
	case *ssa.Call:
		k := CalleeKey(&i.Call)
		if k != "path/filepath.Join" && k != "path.Join" {
			return nil
		}
		sl, ok := i.Call.Args[0].(*ssa.Slice)
		if !ok {
			return nil
		}
		al, ok := sl.X.(*ssa.Alloc)
		if !ok {
			return nil
		}
		byIdx := map[int64]ssa.Value{}
		for _, r := range *al.Referrers() {
			if ia, ok := r.(*ssa.IndexAddr); ok {
				n, _ := constInt(ia.Index)
				for _, r2 := range *ia.Referrers() {
					if st, ok := r2.(*ssa.Store); ok {
						byIdx[n] = st.Val
					}
				}
			}
		}
		var out []ssa.Value
		for i := int64(0); i < int64(len(byIdx)); i++ {
			out = append(out, byIdx[i])
		}
		return out
	case *ssa.BinOp:
		if i.Op == token.ADD {
			if b, ok := i.Type().Underlying().(*types.Basic); ok && b.Kind() == types.String {
				return []ssa.Value{i.X, i.Y}
			}
		}
	}
	return nil
}

// inCache: the value is (a path below) the cache directory.
func (s *safety) inCache(v ssa.Value) bool {
	found := false
	o := &origins{p: s.p, pass: pathPass}
	o.stop = func(v ssa.Value, via []ssa.Value) bool {
		if found {
			return true
		}
		if isConfigField(v, "CacheDir") {
			found = true
			return true
		}
		if isConfigField(v, "") {
			return true
		}
		if c, ok := v.(*ssa.Call); ok {
			for _, t := range s.p.repoCallees(&c.Call) {
				if s.encs[t] != nil {
					return true
				}
				if inPkg(t, "parser") || inPkg(t, "generator") {
					return true
				}
			}
		}
		switch v.(type) {
		case *ssa.Parameter:
			// the caller decides; checked there
			return v.(*ssa.Parameter).Parent().Pkg != nil && !inPkg(v.Parent(), "cache") && !inPkg(v.Parent(), "util")
		}
		return false
	}
	o.leaf = func(ssa.Value, []ssa.Value) {}
	o.walk(v, nil)
	return found
}

// paths: what is joined to the cache directory is constant or a safe name.
func (s *safety) paths() {
	p := s.p
	for _, fn := range p.Funcs {
		if inPkg(fn, "config") {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				parts := joinArgs(in)
				if len(parts) < 2 {
					continue
				}
				if v, ok := in.(ssa.Value); ok && diagnosticUse(p, v, map[ssa.Value]bool{}) {
					continue // only part of a message
				}
				s.path(fn, in, parts, 0)
			}
		}
	}
}

// path checks one path put together from parts. When all of them are decided by the callers,
// each call is considered on its own.
func (s *safety) path(fn *ssa.Function, in ssa.Instruction, parts []ssa.Value, depth int) {
	p, r := s.p, s.r
	own, byCaller := true, false
	for _, a := range parts {
		switch a.(type) {
		case *ssa.Const:
		case *ssa.Parameter:
			byCaller = true
		default:
			own = false
		}
	}
	if own && byCaller && depth < 4 {
		sites := p.CallersOf(fn)
		for _, c := range sites {
			args := c.Common().Args
			if c.Common().IsInvoke() {
				args = append([]ssa.Value{c.Common().Value}, args...)
			}
			sub := make([]ssa.Value, len(parts))
			for i, a := range parts {
				sub[i] = a
				for j, q := range fn.Params {
					if q == a && j < len(args) {
						sub[i] = args[j]
					}
				}
			}
			s.path(c.Parent(), c, sub, depth+1)
		}
		if len(sites) > 0 {
			return
		}
	}
	folder := s.cacheFolder(parts)
	if folder < 0 {
		return
	}
	r.Count("paths below the cache directory", 1)
	for _, a := range parts[folder+1:] {
		for _, v := range s.unsafeParts(a) {
			r.Bad("path:"+FnName(fn)+":"+describe(v), p.At(in), "%s uses %s as a part of a path in the cache, which was not made safe", FnName(fn), describeAt(p, v))
		}
	}
}

// cacheFolder: the index of the part that is the cache directory (or a folder in it), or -1.
func (s *safety) cacheFolder(parts []ssa.Value) int {
	for i, a := range parts {
		if _, isConst := a.(*ssa.Const); isConst {
			if c, _ := constStr(a); c == "." && i == 0 {
				// relative to the cache directory
				for _, b := range parts[1:] {
					if q, ok := b.(*ssa.Parameter); ok && inPkg(q.Parent(), "cache") {
						return 0
					}
				}
			}
			continue
		}
		if s.inCache(a) {
			return i
		}
	}
	return -1
}

func describeAt(p *Program, v ssa.Value) string {
	if ld, ok := v.(*ssa.UnOp); ok && ld.Op == token.MUL {
		return p.nameOfAddr(ld.X)
	}
	if c, ok := constStr(v); ok {
		return "'" + c + "'"
	}
	return describe(v)
}

// merging: library functions that make the same text of different ones.
func merging(k string, c *ssa.CallCommon) bool {
	switch k {
	case "strings.ReplaceAll":
		a, ok1 := constStr(c.Args[1])
		b, ok2 := constStr(c.Args[2])
		// the wiki itself regards spaces and underscores in titles as the same
		return !(ok1 && ok2 && (a == " " && b == "_" || a == "_" && b == " "))
	case "strings.TrimPrefix", "strings.CutPrefix", "strings.Cut", "strings.Clone":
		return false
	case "strings.SplitN":
		n, ok := constInt(c.Args[2])
		return !ok || n != 2
	case "strings.Join", "strings.Repeat":
		return false
	case "path/filepath.Base", "path.Base", "path/filepath.Ext", "path/filepath.Dir", "path.Ext", "path/filepath.Clean":
		return true
	case "net/url.QueryUnescape", "net/url.PathUnescape", "html.UnescapeString":
		return true
	}
	return strings.HasPrefix(k, "strings.") && !strings.HasPrefix(k, "strings.Contains") && !strings.HasPrefix(k, "strings.Has") || strings.HasPrefix(k, "(*regexp.Regexp).") || strings.HasPrefix(k, "unicode") || strings.HasPrefix(k, "golang.org/x/text")
}

// names: the names given to the cache are not shortened or merged on the way.
func (s *safety) names() {
	p := s.p
	// functions of the cache with a name to be made safe, and what hands a name on to them
	type target struct {
		fn  *ssa.Function
		arg int
	}
	todo := []target{}
	seen := map[target]bool{}
	for _, fn := range p.Funcs {
		for _, c := range CallSites(fn) {
			for _, t := range p.repoCallees(c.Common()) {
				if s.encs[t] == nil {
					continue
				}
				for _, a := range c.Common().Args {
					if q, ok := a.(*ssa.Parameter); ok {
						for i, x := range fn.Params {
							if x == q {
								todo = append(todo, target{fn, i})
							}
						}
						continue
					}
					s.name(fn, c, a)
				}
			}
		}
	}
	for len(todo) > 0 {
		t := todo[0]
		todo = todo[1:]
		if seen[t] {
			continue
		}
		seen[t] = true
		for _, c := range p.CallersOf(t.fn) {
			args := c.Common().Args
			if c.Common().IsInvoke() {
				args = append([]ssa.Value{c.Common().Value}, args...)
			}
			if t.arg >= len(args) {
				continue
			}
			a := args[t.arg]
			if q, ok := a.(*ssa.Parameter); ok {
				for i, x := range q.Parent().Params {
					if x == q {
						todo = append(todo, target{q.Parent(), i})
					}
				}
				continue
			}
			s.name(c.Parent(), c, a)
		}
	}
}

// name checks one expression making a name.
func (s *safety) name(fn *ssa.Function, at ssa.Instruction, a ssa.Value) {
	p, r := s.p, s.r
	r.Count("names given to the cache", 1)
	hash := func(t *ssa.Function) bool {
		for _, b := range t.Blocks {
			for _, in := range b.Instrs {
				if c := callOf(in); c != nil {
					k := CalleeKey(c)
					if strings.HasPrefix(k, "crypto/sha") || strings.HasPrefix(k, "crypto/md5") || strings.HasPrefix(k, "hash/fnv") || strings.HasPrefix(k, "hash/") {
						return true
					}
				}
			}
		}
		return false
	}
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value, depth int)
	bad := func(in ssa.Value, what string) {
		i, _ := in.(ssa.Instruction)
		if i == nil {
			i = at
		}
		r.Bad("name:"+FnName(fn)+":"+what, p.At(i), "%s makes the name of a cache file with %s: different names can get the same file", FnName(fn), what)
	}
	walk = func(v ssa.Value, depth int) {
		if v == nil || seen[v] || depth > 8 {
			return
		}
		seen[v] = true
		if o := v.Parent(); o != nil && (inPkg(o, "parser") || inPkgMain(o)) {
			// what is named is decided there: by the wiki's markup and the user
			return
		}
		switch u := v.(type) {
		case *ssa.BinOp:
			walk(u.X, depth)
			walk(u.Y, depth)
		case *ssa.Phi:
			for _, e := range u.Edges {
				walk(e, depth)
			}
		case *ssa.Slice:
			if _, isStr := u.X.Type().Underlying().(*types.Basic); isStr && (u.Low != nil || u.High != nil) {
				if u.High != nil {
					bad(v, "only a part of a text")
				}
			}
			walk(u.X, depth)
		case *ssa.Convert:
			walk(u.X, depth)
		case *ssa.MakeInterface:
			walk(u.X, depth)
		case *ssa.Extract:
			walk(u.Tuple, depth)
		case *ssa.UnOp:
			if u.Op != token.MUL {
				return
			}
			switch x := u.X.(type) {
			case *ssa.IndexAddr:
				walk(x.X, depth)
			case *ssa.Alloc:
				p.addrUses(x, func(in ssa.Instruction, a ssa.Value) bool {
					if st, ok := in.(*ssa.Store); ok && st.Addr == a {
						walk(st.Val, depth)
					}
					return true
				})
			case *ssa.FieldAddr:
				// a title set by the program itself
				if fv := fieldVar(x.X.Type(), x.Field); fv != nil && !isConfigField(v, "") {
					for _, st := range p.fieldStores(fv) {
						walk(st, depth+1)
					}
				}
			}
		case *ssa.Parameter:
			for _, c := range p.CallersOf(u.Parent()) {
				args := c.Common().Args
				if c.Common().IsInvoke() {
					args = append([]ssa.Value{c.Common().Value}, args...)
				}
				for i, q := range u.Parent().Params {
					if q == u && i < len(args) {
						walk(args[i], depth+1)
					}
				}
			}
		case *ssa.Call:
			k := CalleeKey(&u.Call)
			if b, ok := u.Call.Value.(*ssa.Builtin); ok {
				_ = b
				return
			}
			repo := p.repoCallees(&u.Call)
			for _, t := range repo {
				if hash(t) {
					// of the whole text
					for _, x := range u.Call.Args {
						walk(x, depth)
					}
					return
				}
				if inPkg(t, "parser") || inPkg(t, "generator") {
					return // content of the wiki itself
				}
			}
			if len(repo) > 0 {
				for _, t := range repo {
					if t.Signature.Results().Len() != 1 {
						continue
					}
					for _, b := range t.Blocks {
						if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
							walk(retVal(ret, 0), depth+1)
						}
					}
				}
				return
			}
			if strings.HasPrefix(k, "os.") || strings.HasPrefix(k, "(*github.com/spf13") {
				return
			}
			if merging(k, &u.Call) {
				bad(v, k)
				return
			}
			for _, x := range u.Call.Args {
				walk(x, depth)
			}
		}
	}
	walk(a, 0)
	r.Sample("name given to %s in %s", calleeName(at), FnName(fn))
}

func calleeName(in ssa.Instruction) string {
	if c := callOf(in); c != nil {
		return short(CalleeKey(c))
	}
	return ""
}

// changing lists the arguments of file system calls that name what is changed.
func changing(k string) []int {
	switch k {
	case "os.Rename", "os.Link", "os.Symlink":
		return []int{0, 1}
	case "os.CreateTemp", "os.MkdirTemp", "io/ioutil.TempFile":
		return []int{0, 1}
	case "os.Remove", "os.RemoveAll", "os.Mkdir", "os.MkdirAll", "os.Create", "os.OpenFile", "os.WriteFile", "os.Chtimes", "os.Truncate", "os.Chmod", "io/ioutil.WriteFile":
		return []int{0}
	}
	return nil
}

// layer: the operations of the file system layer refuse unsafe names first.
func (s *safety) layer() {
	p, r := s.p, s.r
	for _, fn := range p.Funcs {
		if !s.isLayer(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				c := callOf(in)
				if c == nil {
					continue
				}
				for _, i := range changing(CalleeKey(c)) {
					if i >= len(c.Args) {
						continue
					}
					r.Count("file system operations", 1)
					q, ok := p.resolveLocal(c.Args[i]).(*ssa.Parameter)
					if !ok {
						continue
					}
					if !s.guarded(q, in) {
						r.Bad("layer:"+FnName(fn)+":"+q.Name(), p.At(in), "%s does not refuse an unsafe %s before calling %s", FnName(fn), q.Name(), CalleeKey(c))
					}
				}
			}
		}
	}
}

// isLayer: methods of the type implementing the file system interface.
func (s *safety) isLayer(fn *ssa.Function) bool {
	recv := fn.Signature.Recv()
	if recv == nil || !inPkg(fn, "util") {
		return false
	}
	t := recv.Type()
	if pt, ok := t.(*types.Pointer); ok {
		t = pt.Elem()
	}
	n, ok := t.(*types.Named)
	return ok && strings.HasSuffix(n.Obj().Name(), "Filesystem")
}

// guarded: before the instruction, the parameter was required to be a safe name.
func (s *safety) guarded(q ssa.Value, at ssa.Instruction) bool {
	fn := at.Parent()
	if s.loopRequires(q, at, 0) {
		return true
	}
	for _, b := range fn.Blocks {
		if !b.Dominates(at.Block()) {
			continue
		}
		for _, in := range b.Instrs {
			if in == at {
				break
			}
			call, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			if s.requires(call, q, 0) {
				return true
			}
		}
		// if !IsSanitized(q) { return error }
		if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok && b != at.Block() {
			cond, neg := iff.Cond, false
			if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
				cond, neg = u.X, true
			}
			if call, ok := cond.(*ssa.Call); ok && s.asks(call, q) {
				good := b.Succs[0]
				if neg {
					good = b.Succs[1]
				}
				if good.Dominates(at.Block()) && len(good.Preds) == 1 {
					return true
				}
			}
		}
	}
	return false
}

// asks: the call is the question whether q is a safe name.
func (s *safety) asks(call *ssa.Call, q ssa.Value) bool {
	for _, t := range s.p.repoCallees(&call.Call) {
		if s.checkers[t] && len(call.Call.Args) > 0 && s.p.resolveLocal(call.Call.Args[0]) == q {
			return true
		}
	}
	return false
}

// requires: the call only returns if q is a safe name.
func (s *safety) requires(call *ssa.Call, q ssa.Value, depth int) bool {
	k := CalleeKey(&call.Call)
	if strings.HasPrefix(k, modPath+"/util.Require") || strings.HasPrefix(k, "wiki2book/util.Require") {
		for _, a := range call.Call.Args {
			if c, ok := a.(*ssa.Call); ok && s.asks(c, q) && s.aborts(call.Call.StaticCallee()) {
				return true
			}
		}
	}
	if depth > 3 {
		return false
	}
	for _, t := range s.p.repoCallees(&call.Call) {
		for i, a := range call.Call.Args {
			// a list with the name
			if i < len(t.Params) && listed(a, q) && s.listRequires(func(v ssa.Value) bool { return v == ssa.Value(t.Params[i]) }, t, nil, depth+1) {
				return true
			}
			if i >= len(t.Params) || s.p.resolveLocal(a) != q {
				continue
			}
			// on every way through the function
			ok := len(t.Blocks) > 0
			for _, b := range t.Blocks {
				ret, isRet := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
				if !isRet {
					continue
				}
				if !s.guardedDepth(t.Params[i], ret, depth+1) {
					ok = false
				}
			}
			if ok {
				return true
			}
		}
	}
	return false
}

// listed: the value is an element of the literal list.
func listed(list, v ssa.Value) bool {
	sl, ok := list.(*ssa.Slice)
	if !ok || sl.Low != nil || sl.High != nil {
		return false
	}
	refs := sl.X.Referrers()
	if refs == nil {
		return false
	}
	for _, r := range *refs {
		if ia, ok := r.(*ssa.IndexAddr); ok {
			for _, r2 := range *ia.Referrers() {
				if st, ok := r2.(*ssa.Store); ok && st.Addr == ssa.Value(ia) && st.Val == v {
					return true
				}
			}
		}
	}
	return false
}

// loopRequires: a loop over a literal list with the name refuses unsafe elements.
func (s *safety) loopRequires(q ssa.Value, at ssa.Instruction, depth int) bool {
	return s.listRequires(func(v ssa.Value) bool { return listed(v, q) }, at.Parent(), at, depth)
}

// listRequires: a loop over all elements of a list refuses unsafe ones before the instruction (or before the end of the function).
func (s *safety) listRequires(list func(ssa.Value) bool, fn *ssa.Function, at ssa.Instruction, depth int) bool {
	if depth > 3 {
		return false
	}
	loops := loopsOf(fn)
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			ia, ok := in.(*ssa.IndexAddr)
			if !ok || !list(ia.X) {
				continue
			}
			for _, r := range *ia.Referrers() {
				ld, ok := r.(*ssa.UnOp)
				if !ok {
					continue
				}
				for _, r2 := range *ld.Referrers() {
					call, ok := r2.(*ssa.Call)
					if !ok || !s.requires(call, ld, depth+1) {
						continue
					}
					l := innermost(loops, call.Block())
					c := countingOf(l)
					if c == nil || !l.everyIteration(call.Block()) || ia.Index != c.index {
						continue
					}
					all := true
					for _, e := range l.exits() {
						all = all && c.regular(e)
					}
					if !all {
						continue
					}
					if at != nil {
						if l.head.Dominates(at.Block()) {
							return true
						}
						continue
					}
					rets := true
					for _, x := range fn.Blocks {
						if _, ok := x.Instrs[len(x.Instrs)-1].(*ssa.Return); ok && !l.head.Dominates(x) {
							rets = false
						}
					}
					if rets {
						return true
					}
				}
			}
		}
	}
	return false
}

func (s *safety) guardedDepth(q ssa.Value, at ssa.Instruction, depth int) bool {
	fn := at.Parent()
	for _, b := range fn.Blocks {
		if !b.Dominates(at.Block()) {
			continue
		}
		for _, in := range b.Instrs {
			if call, ok := in.(*ssa.Call); ok && s.requires(call, q, depth) {
				return true
			}
		}
		if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			cond, neg := iff.Cond, false
			if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
				cond, neg = u.X, true
			}
			if call, ok := cond.(*ssa.Call); ok && s.asks(call, q) {
				badS := b.Succs[1]
				if neg {
					badS = b.Succs[0]
				}
				if endsProgram(badS, map[*ssa.BasicBlock]bool{}) {
					return true
				}
			}
		}
	}
	return false
}

// aborts: the function ends the program if its condition does not hold.
func (s *safety) aborts(fn *ssa.Function) bool {
	if fn == nil || len(fn.Params) == 0 {
		return false
	}
	for _, b := range fn.Blocks {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		cond, neg := iff.Cond, false
		if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
			cond, neg = u.X, true
		}
		if cond != ssa.Value(fn.Params[0]) {
			continue
		}
		badS := b.Succs[1]
		if neg {
			badS = b.Succs[0]
		}
		if endsProgram(badS, map[*ssa.BasicBlock]bool{}) {
			return true
		}
	}
	// handed on to another function of the kind
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if call, ok := in.(*ssa.Call); ok && len(call.Call.Args) > 0 && call.Call.Args[0] == ssa.Value(fn.Params[0]) {
				if t := call.Call.StaticCallee(); t != nil && t != fn && s.p.IsRepoFn(t) && s.aborts(t) {
					return true
				}
			}
		}
	}
	return false
}

// direct: changes of the file system beside the layer only concern constant or configured paths and paths of the cache.
func (s *safety) direct() {
	p, r := s.p, s.r
	for _, fn := range p.Funcs {
		if s.isLayer(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				c := callOf(in)
				if c == nil {
					continue
				}
				// names of temporary files
				if c.IsInvoke() && c.Method.Name() == "CreateTemp" && len(c.Args) == 2 {
					r.Count("names of temporary files", 1)
					for _, v := range s.unsafeParts(c.Args[1]) {
						r.Bad("temp:"+FnName(fn)+":"+describe(v), p.At(in), "%s uses %s in the name of a temporary file, which was not made safe", FnName(fn), describeAt(p, v))
					}
				}
				for _, i := range changing(CalleeKey(c)) {
					if i >= len(c.Args) {
						continue
					}
					r.Count("direct changes of the file system", 1)
					o := &origins{p: p, pass: pathPass}
					o.stop = func(v ssa.Value, via []ssa.Value) bool {
						if isConfigField(v, "") {
							return true
						}
						if call, ok := v.(*ssa.Call); ok {
							for _, t := range p.repoCallees(&call.Call) {
								if s.encs[t] != nil {
									return true
								}
							}
							k := CalleeKey(&call.Call)
							if strings.HasSuffix(k, ".Name") && (strings.HasPrefix(k, "(*os.File)") || strings.Contains(k, "FileLike")) {
								return true
							}
							if strings.HasPrefix(k, "os.Getwd") || strings.HasPrefix(k, "os.TempDir") || strings.HasPrefix(k, "(*github.com/spf13/pflag") {
								return true
							}
						}
						return false
					}
					o.leaf = func(v ssa.Value, via []ssa.Value) {
						if _, ok := v.(*ssa.Const); ok {
							return
						}
						if v.Parent() != nil && (inPkgMain(v.Parent()) || inPkg(v.Parent(), "config")) {
							return // chosen by the user: arguments of the command line and their defaults
						}
						if fv, ok := v.(*ssa.FreeVar); ok && inPkgMain(fv.Parent()) {
							return
						}
						r.Bad("direct:"+FnName(fn)+":"+describe(v), p.At(in), "%s calls %s for a path made from %s, which was not made safe", FnName(fn), CalleeKey(c), describeAt(p, v))
					}
					o.walk(c.Args[i], nil)
				}
			}
		}
	}
}

func inPkgMain(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return fn.Pkg != nil && fn.Pkg.Pkg.Name() == "main"
}
