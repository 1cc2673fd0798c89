package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Term is an interned value number. Leaves:
//
//	const     a Go constant (nil included)
//	sym       a symbolic input (parameter, free variable) that never changes during the analysis
//	global    the address of a package-level variable
//	func      a function value
//	res       a result produced by the most recent execution of a site (opaque call, map read, ...)
//	alloc     the object allocated by the most recent execution of a site
//	phi       the value a loop-carried variable has in the most recent iteration
//	old       any value produced by an earlier execution of a site (never equal to anything, itself included)
//
// Everything else is an operation over terms. Two occurrences of the same term denote the same run-time value,
// unless the term contains an "old" leaf.
type Term struct {
	id     int
	op     string
	name   string
	c      constant.Value
	args   []*Term
	typ    types.Type
	fn     *ssa.Function
	depth  int
	hasOld bool
	leaves []string // names of volatile leaves (res, alloc, phi), sorted
}

type Terms struct {
	m    map[string]*Term
	next int
	sub  map[[2]string]map[*Term]*Term
}

func newTerms() *Terms { return &Terms{m: map[string]*Term{}} }

const maxDepth = 60

func (ts *Terms) mk(op, name string, c constant.Value, typ types.Type, fn *ssa.Function, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(name)
	sb.WriteByte('|')
	if c != nil {
		sb.WriteString(c.ExactString())
	}
	sb.WriteByte('|')
	if typ != nil {
		sb.WriteString(types.TypeString(typ, nil))
	}
	if fn != nil {
		sb.WriteByte('|')
		fmt.Fprintf(&sb, "%p", fn)
	}
	for _, a := range args {
		sb.WriteByte(',')
		sb.WriteString(strconv.Itoa(a.id))
	}
	k := sb.String()
	if t, ok := ts.m[k]; ok {
		return t
	}
	t := &Term{id: ts.next, op: op, name: name, c: c, typ: typ, fn: fn, args: append([]*Term(nil), args...)}
	ts.next++
	set := map[string]bool{}
	for _, a := range args {
		if a.depth+1 > t.depth {
			t.depth = a.depth + 1
		}
		if a.hasOld {
			t.hasOld = true
		}
		for _, l := range a.leaves {
			set[l] = true
		}
	}
	switch op {
	case "res", "alloc", "phi":
		set[name] = true
	case "old":
		t.hasOld = true
	}
	for l := range set {
		t.leaves = append(t.leaves, l)
	}
	sort.Strings(t.leaves)
	ts.m[k] = t
	if t.depth > maxDepth {
		return ts.mk("old", "deep", nil, nil, nil)
	}
	return t
}

func (ts *Terms) Const(c constant.Value) *Term { return ts.mk("const", "", c, nil, nil) }
func (ts *Terms) Nil() *Term                   { return ts.mk("const", "nil", nil, nil, nil) }
func (ts *Terms) Bool(b bool) *Term            { return ts.Const(constant.MakeBool(b)) }
func (ts *Terms) Int(i int64) *Term            { return ts.Const(constant.MakeInt64(i)) }
func (ts *Terms) Str(s string) *Term           { return ts.Const(constant.MakeString(s)) }
func (ts *Terms) Sym(n string) *Term           { return ts.mk("sym", n, nil, nil, nil) }
func (ts *Terms) App(op string, args ...*Term) *Term {
	return ts.mk(op, "", nil, nil, nil, args...)
}

func (t *Term) IsNilConst() bool { return t.op == "const" && t.name == "nil" }
func (t *Term) IsConst() bool    { return t.op == "const" && t.name != "nil" }
func (t *Term) IntVal() (int64, bool) {
	if t.IsConst() && t.c.Kind() == constant.Int {
		return constant.Int64Val(t.c)
	}
	return 0, false
}
func (t *Term) StrVal() (string, bool) {
	if t.IsConst() && t.c.Kind() == constant.String {
		return constant.StringVal(t.c), true
	}
	return "", false
}
func (t *Term) BoolVal() (bool, bool) {
	if t.IsConst() && t.c.Kind() == constant.Bool {
		return constant.BoolVal(t.c), true
	}
	return false, false
}

func (t *Term) hasLeaf(n string) bool {
	i := sort.SearchStrings(t.leaves, n)
	return i < len(t.leaves) && t.leaves[i] == n
}

// Contains reports whether sub occurs in t.
func (t *Term) Contains(sub *Term) bool {
	if t == sub {
		return true
	}
	if t.depth <= sub.depth {
		return false
	}
	for _, a := range t.args {
		if a.Contains(sub) {
			return true
		}
	}
	return false
}

// Any reports whether pred holds for t or one of its subterms.
func (t *Term) Any(pred func(*Term) bool) bool {
	if pred(t) {
		return true
	}
	for _, a := range t.args {
		if a.Any(pred) {
			return true
		}
	}
	return false
}

func (ts *Terms) Subst(t *Term, leaf string, memo map[*Term]*Term) *Term {
	if !t.hasLeaf(leaf) {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	var r *Term
	if (t.op == "res" || t.op == "alloc" || t.op == "phi") && t.name == leaf {
		r = ts.mk("old", t.op+":"+leaf, nil, t.typ, nil)
	} else {
		args := make([]*Term, len(t.args))
		for i, a := range t.args {
			args[i] = ts.Subst(a, leaf, memo)
		}
		r = ts.mk(t.op, t.name, t.c, t.typ, t.fn, args...)
	}
	memo[t] = r
	return r
}

func (t *Term) String() string {
	switch t.op {
	case "const":
		if t.name == "nil" {
			return "nil"
		}
		return t.c.String()
	case "sym", "global":
		return t.name
	case "func":
		return FnName(t.fn)
	case "res", "alloc", "phi", "old":
		n := t.name
		if i := strings.LastIndex(n, "@"); i >= 0 {
			n = n[i+1:]
		}
		return t.op + "(" + n + ")"
	}
	var ss []string
	for i, a := range t.args {
		if i > 12 {
			ss = append(ss, "...")
			break
		}
		ss = append(ss, a.String())
	}
	n := t.op
	if t.name != "" {
		n += "." + t.name
	}
	r := n + "(" + strings.Join(ss, ", ") + ")"
	if len(r) > 400 {
		r = r[:400] + "..."
	}
	return r
}
