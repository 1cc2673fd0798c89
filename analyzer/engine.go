package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Engine is a path-sensitive typestate dataflow analysis (ESP-style property simulation) over SSA: a worklist
// computes the set of abstract states reaching every block of an entry function and of the repository functions it
// calls, to a fixpoint. Values are value numbers (Term), branch outcomes are facts about value numbers, loops are made
// finite by the recency abstraction (a re-executed site turns its former result into "old").
type Engine struct {
	P  *Program
	TS *Terms

	// Inline decides whether a resolved repository callee is entered; nil = default policy.
	Inline func(fn *ssa.Function) bool
	// OnCall sees every call before the default model; handled=true replaces the model by the given results.
	OnCall func(ev *CallEv) (results []*Term, handled bool)
	// AfterCall sees the results of opaque or modelled (not inlined) calls.
	AfterCall func(ev *CallEv, results []*Term)
	OnStore   func(s *State, addr, val *Term, in ssa.Instruction)
	OnInstr   func(s *State, in ssa.Instruction, operand func(ssa.Value) *Term)
	OnReturn  func(s *State, results []*Term, ret *ssa.Return)
	OnFnRet   func(s *State, fn *ssa.Function, results []*Term, ret *ssa.Return)
	OnEnd     func(s *State, kind string, in ssa.Instruction) // kind: fatal, panic
	KeepFact  func(t *Term) bool
	PinFact   func(s *State, t *Term) bool // facts kept although nothing else refers to their values
	KeepStore func(addr *Term) bool
	Coarse    bool                           // loop-carried values other than errors and booleans are not followed
	FreshErr  bool                           // results of opaque calls with an error result are never value-numbered by their arguments
	Resolve   func(ev *CallEv) *ssa.Function // extra resolution of interface calls

	MaxStates int
	MaxDepth  int

	// results
	Overflow   bool
	States     int
	Transit    int
	Entered    map[*ssa.Function]bool
	CallsSeen  map[ssa.Instruction]bool
	visited    map[string]bool
	instrID    map[ssa.Instruction]int
	ctxID      map[string]int
	work       []*State
	relevant   map[*ssa.Function]bool
	cuts       map[string]int
	unresolved map[string]bool
}

type deferred struct {
	call ssa.CallInstruction
	fnT  *Term
	args []*Term
	cal  *ssa.Function
}

type Frame struct {
	fn     *ssa.Function
	ctx    int
	env    map[ssa.Value]*Term
	block  *ssa.BasicBlock
	prev   *ssa.BasicBlock
	pc     int
	defers []deferred
	// where the results go in the caller (nil for deferred calls)
	dest ssa.Value
	phi0 map[*ssa.Phi]int // depth of loop phis on loop entry (copy on write)
	// bookkeeping of the check
	mark string
}

type State struct {
	e      *Engine
	frames []*Frame
	mem    map[*Term]*Term
	facts  map[*Term]bool
	ver    map[string]*Term // havoc versions of fields
	auto   map[string]string
	regs   map[string]*Term
	trace  []token.Pos
}

type CallEv struct {
	S      *State
	E      *Engine
	Instr  ssa.CallInstruction
	Common *ssa.CallCommon
	Callee *ssa.Function
	Key    string
	Args   []*Term
	Site   string
	Defer  bool
	Go     bool
}

func NewEngine(p *Program) *Engine {
	return &Engine{P: p, TS: newTerms(), MaxStates: 1500000, MaxDepth: 25, Entered: map[*ssa.Function]bool{}, CallsSeen: map[ssa.Instruction]bool{},
		visited: map[string]bool{}, instrID: map[ssa.Instruction]int{}, ctxID: map[string]int{}, relevant: map[*ssa.Function]bool{}, cuts: map[string]int{}, unresolved: map[string]bool{}}
}

func (s *State) clone() *State {
	n := &State{e: s.e, mem: make(map[*Term]*Term, len(s.mem)), facts: make(map[*Term]bool, len(s.facts)), ver: make(map[string]*Term, len(s.ver)), auto: make(map[string]string, len(s.auto)), regs: make(map[string]*Term, len(s.regs))}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	for k, v := range s.facts {
		n.facts[k] = v
	}
	for k, v := range s.ver {
		n.ver[k] = v
	}
	for k, v := range s.auto {
		n.auto[k] = v
	}
	for k, v := range s.regs {
		n.regs[k] = v
	}
	n.trace = append([]token.Pos(nil), s.trace...)
	for _, f := range s.frames {
		nf := *f
		nf.env = make(map[ssa.Value]*Term, len(f.env))
		for k, v := range f.env {
			nf.env[k] = v
		}
		nf.defers = append([]deferred(nil), f.defers...)
		n.frames = append(n.frames, &nf)
	}
	return n
}

func (s *State) top() *Frame { return s.frames[len(s.frames)-1] }

// Where describes the call stack of the state.
func (s *State) Where() string {
	var ss []string
	for _, f := range s.frames {
		ss = append(ss, FnName(f.fn))
	}
	return strings.Join(ss, " -> ")
}

func (s *State) PathString() string {
	var ss []string
	last := ""
	for _, p := range s.trace {
		x := s.e.P.Pos(p)
		if x != last {
			ss = append(ss, x)
		}
		last = x
	}
	if len(ss) > 14 {
		ss = append([]string{"..."}, ss[len(ss)-14:]...)
	}
	return strings.Join(ss, " > ")
}

func (e *Engine) iid(in ssa.Instruction) int {
	if v, ok := e.instrID[in]; ok {
		return v
	}
	v := len(e.instrID) + 1
	e.instrID[in] = v
	return v
}

func (e *Engine) site(f *Frame, in ssa.Instruction, desc string) string {
	return strconv.Itoa(f.ctx) + ":" + strconv.Itoa(e.iid(in)) + "@" + desc
}

// Run analyses entry with the given parameter terms (nil entries become symbols named after the parameter).
func (e *Engine) Run(entry *ssa.Function, params map[string]*Term, setup func(s *State)) {
	s := &State{e: e, mem: map[*Term]*Term{}, facts: map[*Term]bool{}, ver: map[string]*Term{}, auto: map[string]string{}, regs: map[string]*Term{}}
	f := &Frame{fn: entry, env: map[ssa.Value]*Term{}, block: entry.Blocks[0]}
	for i, p := range entry.Params {
		if t := params[p.Name()]; t != nil {
			f.env[p] = t
		} else {
			n := p.Name()
			if n == "" || n == "_" {
				n = "arg" + strconv.Itoa(i)
			}
			f.env[p] = e.TS.Sym("$" + n)
		}
	}
	for _, fv := range entry.FreeVars {
		f.env[fv] = e.TS.Sym("&" + fv.Name())
	}
	s.frames = []*Frame{f}
	e.Entered[entry] = true
	if setup != nil {
		setup(s)
	}
	e.work = append(e.work, s)
	for len(e.work) > 0 {
		st := e.work[len(e.work)-1]
		e.work = e.work[:len(e.work)-1]
		if e.Overflow {
			e.work = nil
			return
		}
		e.exec(st)
	}
}

// ---- values ----

func (e *Engine) val(s *State, v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			if _, ok := x.Type().Underlying().(*types.Struct); ok {
				return e.zero(x.Type())
			}
			return e.TS.Nil()
		}
		return e.TS.Const(x.Value)
	case *ssa.Function:
		return e.TS.mk("func", "", nil, nil, x)
	case *ssa.Global:
		return e.TS.mk("global", "&"+strings.ReplaceAll(x.String(), modPath+"/", ""), nil, nil, nil)
	case *ssa.Builtin:
		return e.TS.mk("builtin", x.Name(), nil, nil, nil)
	}
	f := s.top()
	if t, ok := f.env[v]; ok {
		return t
	}
	t := e.TS.Sym("?" + strconv.Itoa(f.ctx) + "." + v.Name() + "." + f.fn.Name())
	f.env[v] = t
	return t
}

func (e *Engine) zero(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return e.TS.Str("")
		case u.Info()&types.IsBoolean != 0:
			return e.TS.Bool(false)
		case u.Info()&types.IsInteger != 0:
			return e.TS.Int(0)
		case u.Info()&types.IsFloat != 0:
			return e.TS.Const(constant.ToFloat(constant.MakeInt64(0)))
		}
		return e.TS.Nil()
	case *types.Struct:
		args := make([]*Term, u.NumFields())
		for i := range args {
			args[i] = e.zero(u.Field(i).Type())
		}
		return e.TS.mk("struct", "", nil, t, nil, args...)
	case *types.Array:
		return e.TS.mk("zeroarray", "", nil, t, nil)
	}
	return e.TS.Nil()
}

func rootOf(a *Term) *Term {
	for (a.op == "field&" || a.op == "index&") && len(a.args) > 0 {
		a = a.args[0]
	}
	return a
}

func (e *Engine) fieldAddr(base *Term, t types.Type, i int) *Term {
	fv := fieldVar(t, i)
	return e.TS.mk("field&", fv.Name()+"#"+strconv.Itoa(i), nil, nil, nil, base)
}

func (e *Engine) field(v *Term, i int, fv *types.Var) *Term {
	if v.op == "struct" && i < len(v.args) {
		return v.args[i]
	}
	if v.op == "deref" {
		return e.TS.mk("deref", v.name, nil, nil, nil, e.TS.mk("field&", fv.Name()+"#"+strconv.Itoa(i), nil, nil, nil, v.args[0]))
	}
	return e.TS.mk("field", fv.Name()+"#"+strconv.Itoa(i), nil, nil, nil, v)
}

func (e *Engine) indexAddr(base, idx *Term) *Term {
	if base.op == "slice" && len(base.args) == 3 && base.args[1].IsNilConst() {
		base = base.args[0]
	}
	return e.TS.mk("index&", "", nil, nil, nil, base, idx)
}

// load reads memory at addr; typ is the type of the value read.
func (e *Engine) load(s *State, addr *Term, typ types.Type) *Term {
	if v, ok := s.mem[addr]; ok {
		return v
	}
	// known sub-locations of a struct
	if st, ok := typ.Underlying().(*types.Struct); ok && e.hasSub(s, addr) {
		args := make([]*Term, st.NumFields())
		for i := range args {
			args[i] = e.load(s, e.TS.mk("field&", st.Field(i).Name()+"#"+strconv.Itoa(i), nil, nil, nil, addr), st.Field(i).Type())
		}
		return e.TS.mk("struct", "", nil, typ, nil, args...)
	}
	// an enclosing location was written as a whole
	if addr.op == "field&" {
		if v := e.enclosing(s, addr.args[0]); v != nil {
			i := fieldIndex(addr.name)
			return e.field(v, i, types.NewVar(0, nil, fieldName(addr.name), typ))
		}
	}
	if addr.op == "index&" {
		if v, ok := s.mem[addr.args[0]]; ok {
			if v.op == "zeroarray" {
				return e.zero(typ)
			}
			return e.TS.mk("index", "", nil, nil, nil, v, addr.args[1])
		}
	}
	if r := rootOf(addr); r.op == "alloc" && strings.HasSuffix(r.name, "!") { // "!" marks zero-initialised objects
		if addr.op != "index&" || addr.args[1].IsConst() {
			return e.zero(typ)
		}
	}
	ver := ""
	if addr.op == "field&" {
		if v, ok := s.ver["f:"+addr.name]; ok {
			return e.TS.mk("derefv", "", nil, nil, nil, addr, v)
		}
	}
	if addr.op == "index&" {
		if v, ok := s.ver["elems"]; ok {
			return e.TS.mk("derefv", "", nil, nil, nil, addr, v)
		}
	}
	return e.TS.mk("deref", ver, nil, nil, nil, addr)
}

func fieldIndex(n string) int {
	i := strings.LastIndexByte(n, '#')
	k, _ := strconv.Atoi(n[i+1:])
	return k
}
func fieldName(n string) string { return n[:strings.LastIndexByte(n, '#')] }

func (e *Engine) enclosing(s *State, a *Term) *Term {
	if v, ok := s.mem[a]; ok {
		return v
	}
	if a.op == "field&" {
		if v := e.enclosing(s, a.args[0]); v != nil {
			return e.field(v, fieldIndex(a.name), types.NewVar(0, nil, fieldName(a.name), nil))
		}
	}
	return nil
}

func (e *Engine) hasSub(s *State, addr *Term) bool {
	for a := range s.mem {
		if a != addr && isSubAddr(a, addr) {
			return true
		}
	}
	return false
}

func isSubAddr(a, of *Term) bool {
	for a.op == "field&" || a.op == "index&" {
		a = a.args[0]
		if a == of {
			return true
		}
	}
	return false
}

func distinctObjects(a, b *Term) bool {
	if a == b {
		return false
	}
	if a.hasOld || b.hasOld {
		return false
	}
	fresh := func(t *Term) bool { return t.op == "alloc" }
	if fresh(a) || fresh(b) {
		return true
	}
	if a.op == "global" && b.op == "global" {
		return true
	}
	return false
}

func (e *Engine) store(s *State, addr, v *Term, in ssa.Instruction) {
	if e.OnStore != nil {
		e.OnStore(s, addr, v, in)
	}
	if e.KeepStore != nil && !e.KeepStore(addr) {
		return
	}
	for a := range s.mem {
		if isSubAddr(a, addr) {
			delete(s.mem, a)
			continue
		}
		if a != addr && a.op == addr.op && a.name == addr.name && (a.op == "field&" || a.op == "index&") {
			if a.op == "index&" && a.args[0] == addr.args[0] && a.args[1].IsConst() && addr.args[1].IsConst() {
				continue
			}
			ra, rb := rootOf(a), rootOf(addr)
			if ra != rb && distinctObjects(ra, rb) {
				continue
			}
			if ra == rb && a.op == "field&" && addr.op == "field&" && a.args[0] != addr.args[0] && ra.op == "alloc" && a.args[0].op == "field&" && addr.args[0].op == "field&" {
				continue // different fields of one object
			}
			// may alias: forget
			s.mem[a] = e.TS.mk("old", "alias", nil, nil, nil)
		}
	}
	s.mem[addr] = v
}

// havoc forgets everything reachable from the address term a.
func (e *Engine) havoc(s *State, a *Term, why *Term) {
	r := a
	switch r.op {
	case "iface", "conv":
		e.havoc(s, r.args[0], why)
		return
	case "slice":
		r = r.args[0]
	case "closure":
		cf := r.fn
		eff := e.P.Effects(cf)
		for i, fv := range cf.FreeVars {
			if eff.FreeVars[fv] && i < len(r.args) {
				e.havoc(s, r.args[i], why)
			}
		}
		e.havocEffects(s, eff, why)
		return
	}
	if r.op != "alloc" && r.op != "field&" && r.op != "index&" && r.op != "global" && r.op != "sym" && r.op != "res" && r.op != "deref" {
		return
	}
	for x := range s.mem {
		if x == r || isSubAddr(x, r) {
			delete(s.mem, x)
		}
	}
	if r.op == "alloc" || r.op == "global" || r.op == "field&" || r.op == "index&" {
		s.mem[r] = e.TS.mk("mem", "", nil, nil, nil, why, r)
	}
}

func (e *Engine) havocEffects(s *State, eff *Effects, why *Term) {
	names := map[string]bool{}
	for fv := range eff.Fields {
		if fv != nil {
			names[fv.Name()] = true
		}
	}
	if len(names) > 0 {
		for a := range s.mem {
			if a.op == "field&" && names[fieldName(a.name)] {
				s.mem[a] = e.TS.mk("mem", "", nil, nil, nil, why, a)
			}
		}
		for fv := range eff.Fields {
			if fv == nil {
				continue
			}
			// field index unknown here: mark every index by name
			for i := 0; i < 64; i++ {
				_ = i
			}
			s.ver["f:"+fv.Name()+"#"+strconv.Itoa(e.fieldIdx(fv))] = why
		}
	}
	for g := range eff.Globals {
		gt := e.TS.mk("global", "&"+strings.ReplaceAll(g.String(), modPath+"/", ""), nil, nil, nil)
		e.havoc(s, gt, why)
	}
	if eff.Elems {
		for a := range s.mem {
			if a.op == "index&" && rootOf(a).op != "alloc" {
				delete(s.mem, a)
			}
		}
		s.ver["elems"] = why
	}
}

var fieldIdxCache = map[*types.Var]int{}

func (e *Engine) fieldIdx(fv *types.Var) int {
	if i, ok := fieldIdxCache[fv]; ok {
		return i
	}
	for _, pk := range e.P.Pkgs {
		sc := pk.Types.Scope()
		for _, n := range sc.Names() {
			if tn, ok := sc.Lookup(n).(*types.TypeName); ok {
				if st, ok := tn.Type().Underlying().(*types.Struct); ok {
					for i := 0; i < st.NumFields(); i++ {
						fieldIdxCache[st.Field(i)] = i
					}
				}
			}
		}
	}
	return fieldIdxCache[fv]
}

// ---- facts ----

// norm strips negations; returns the atom and its polarity.
func norm(c *Term) (*Term, bool) {
	pol := true
	for c.op == "!" {
		c = c.args[0]
		pol = !pol
	}
	return c, pol
}

func (e *Engine) Not(c *Term) *Term {
	if b, ok := c.BoolVal(); ok {
		return e.TS.Bool(!b)
	}
	if c.op == "!" {
		return c.args[0]
	}
	return e.TS.App("!", c)
}

func (e *Engine) Eq(a, b *Term) *Term {
	a, b = e.stripWrap(a, b), e.stripWrap(b, a)
	if a.op == "const" && b.op == "const" {
		if a.IsNilConst() || b.IsNilConst() {
			return e.TS.Bool(a == b)
		}
		if a.c.Kind() == b.c.Kind() || (a.c.Kind() == constant.Int && b.c.Kind() == constant.Float) || (b.c.Kind() == constant.Int && a.c.Kind() == constant.Float) {
			return e.TS.Bool(constant.Compare(a.c, token.EQL, b.c))
		}
		return e.TS.Bool(false)
	}
	if a == b && !a.hasOld {
		return e.TS.Bool(true)
	}
	if a.IsNilConst() || b.IsNilConst() {
		x := a
		if a.IsNilConst() {
			x = b
		}
		switch x.op {
		case "alloc", "iface", "closure", "func", "field&", "index&", "global", "struct":
			return e.TS.Bool(false)
		case "append":
			// appending at least one element never yields nil
			return e.TS.Bool(false)
		}
		if x.op == "call" && nonNilResult(x.name) {
			return e.TS.Bool(false)
		}
		return e.TS.App("==", x, e.TS.Nil())
	}
	// x == true
	if v, ok := b.BoolVal(); ok {
		if v {
			return a
		}
		return e.Not(a)
	}
	if v, ok := a.BoolVal(); ok {
		if v {
			return b
		}
		return e.Not(b)
	}
	// len(x) == 0 and x == "" are the same question
	if n, ok := b.IntVal(); ok && n == 0 && a.op == "len" && a.name == "string" {
		return e.Eq(a.args[0], e.TS.Str(""))
	}
	if n, ok := a.IntVal(); ok && n == 0 && b.op == "len" && b.name == "string" {
		return e.Eq(b.args[0], e.TS.Str(""))
	}
	if a.op == "const" || (b.op != "const" && a.id > b.id) {
		a, b = b, a
	}
	return e.TS.App("==", a, b)
}

// stripWrap: errors.Wrap(err, ..) is nil exactly when err is nil.
func (e *Engine) stripWrap(a, other *Term) *Term {
	if !other.IsNilConst() {
		return a
	}
	for a.op == "call" && isErrWrap(a.name) && len(a.args) > 0 {
		a = a.args[0]
	}
	return a
}

func (e *Engine) Lt(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() && a.c.Kind() != constant.Bool {
		return e.TS.Bool(constant.Compare(a.c, token.LSS, b.c))
	}
	if a == b && !a.hasOld {
		return e.TS.Bool(false)
	}
	// 0 < len(x)  ==  x != ""
	if n, ok := a.IntVal(); ok && b.op == "len" {
		if n < 0 {
			return e.TS.Bool(true)
		}
		if n == 0 && b.name == "string" {
			return e.Not(e.Eq(b.args[0], e.TS.Str("")))
		}
	}
	if n, ok := b.IntVal(); ok && a.op == "len" {
		if n <= 0 {
			return e.TS.Bool(false)
		}
		if n == 1 && a.name == "string" {
			return e.Eq(a.args[0], e.TS.Str(""))
		}
	}
	return e.TS.App("<", a, b)
}

// decide evaluates a boolean term: 1 true, 0 false, -1 unknown.
func (s *State) decide(c *Term) int {
	c, pol := norm(c)
	r := s.decideAtom(c)
	if r < 0 {
		return r
	}
	if !pol {
		return 1 - r
	}
	return r
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func (s *State) decideAtom(c *Term) int {
	if b, ok := c.BoolVal(); ok {
		return b2i(b)
	}
	if v, ok := s.facts[c]; ok && !c.hasOld {
		return b2i(v)
	}
	if c.hasOld {
		return -1
	}
	switch c.op {
	case "==":
		a, b := c.args[0], c.args[1]
		if b.op == "const" {
			// a known to equal another constant
			for f, v := range s.facts {
				if f.op != "==" {
					continue
				}
				if v && f.args[0] == a && f.args[1].op == "const" && f.args[1] != b {
					return 0
				}
			}
			if n, ok := b.IntVal(); ok {
				lo, hi, hasLo, hasHi := s.bounds(a)
				if hasLo && n < lo || hasHi && n > hi {
					return 0
				}
				if hasLo && hasHi && lo == hi && lo == n {
					return 1
				}
			}
		} else {
			// both known to equal constants
			var ca, cb *Term
			for f, v := range s.facts {
				if v && f.op == "==" && f.args[1].op == "const" {
					if f.args[0] == a {
						ca = f.args[1]
					}
					if f.args[0] == b {
						cb = f.args[1]
					}
				}
			}
			if ca != nil && cb != nil {
				return b2i(ca == cb)
			}
			if v, ok := s.facts[s.e.TS.App("<", a, b)]; ok && v {
				return 0
			}
			if v, ok := s.facts[s.e.TS.App("<", b, a)]; ok && v {
				return 0
			}
		}
	case "<":
		a, b := c.args[0], c.args[1]
		if v, ok := s.facts[s.e.TS.App("<", b, a)]; ok && v {
			return 0
		}
		if v, ok := s.facts[s.e.TS.App("==", a, b)]; ok && v {
			return 0
		}
		if v, ok := s.facts[s.e.TS.App("==", b, a)]; ok && v {
			return 0
		}
		if n, ok := b.IntVal(); ok {
			lo, hi, hasLo, hasHi := s.bounds(a)
			if hasHi && hi < n {
				return 1
			}
			if hasLo && lo >= n {
				return 0
			}
		}
		if n, ok := a.IntVal(); ok {
			lo, hi, hasLo, hasHi := s.bounds(b)
			if hasLo && lo > n {
				return 1
			}
			if hasHi && hi <= n {
				return 0
			}
		}
	case "is":
		// two different concrete types exclude each other
		if !types.IsInterface(c.typ) {
			for f, v := range s.facts {
				if v && f.op == "is" && f.args[0] == c.args[0] && f != c && !types.IsInterface(f.typ) {
					return 0
				}
			}
		}
	}
	return -1
}

// bounds derives an interval for an integer term from the facts.
func (s *State) bounds(a *Term) (lo, hi int64, hasLo, hasHi bool) {
	if n, ok := a.IntVal(); ok {
		return n, n, true, true
	}
	if a.op == "len" {
		lo, hasLo = 0, true
	}
	setLo := func(n int64) {
		if !hasLo || n > lo {
			lo, hasLo = n, true
		}
	}
	setHi := func(n int64) {
		if !hasHi || n < hi {
			hi, hasHi = n, true
		}
	}
	for f, v := range s.facts {
		switch f.op {
		case "==":
			if v && f.args[0] == a {
				if n, ok := f.args[1].IntVal(); ok {
					setLo(n)
					setHi(n)
				}
			}
		case "<":
			if f.args[0] == a {
				if n, ok := f.args[1].IntVal(); ok {
					if v {
						setHi(n - 1)
					} else {
						setLo(n)
					}
				}
			}
			if f.args[1] == a {
				if n, ok := f.args[0].IntVal(); ok {
					if v {
						setLo(n + 1)
					} else {
						setHi(n)
					}
				}
			}
		}
	}
	// x != lo raises the bound
	for changed := true; changed; {
		changed = false
		for f, v := range s.facts {
			if !v && f.op == "==" && f.args[0] == a {
				if n, ok := f.args[1].IntVal(); ok {
					if hasLo && n == lo {
						lo++
						changed = true
					}
					if hasHi && n == hi {
						hi--
						changed = true
					}
				}
			}
		}
		if hasLo && hasHi && lo > hi {
			break
		}
	}
	return
}

func (s *State) assume(c *Term, v bool) {
	c, pol := norm(c)
	if !pol {
		v = !v
	}
	if c.IsConst() || c.hasOld {
		return
	}
	s.facts[c] = v
}

// Known tells whether the state knows c to be v.
func (s *State) Known(c *Term, v bool) bool { return s.decide(c) == b2i(v) }

// KnownNil / KnownNonNil for error terms.
func (s *State) KnownNil(t *Term) bool    { return s.Known(s.e.Eq(t, s.e.TS.Nil()), true) }
func (s *State) KnownNonNil(t *Term) bool { return s.Known(s.e.Eq(t, s.e.TS.Nil()), false) }

// refresh renames the former result of a site to "old" everywhere.
func (s *State) refresh(site string) {
	memo := map[*Term]*Term{}
	sub := func(t *Term) *Term { return s.e.TS.Subst(t, site, memo) }
	for _, f := range s.frames {
		for k, v := range f.env {
			if v.hasLeaf(site) {
				f.env[k] = sub(v)
			}
		}
		for i, d := range f.defers {
			nd := d
			if d.fnT != nil {
				nd.fnT = sub(d.fnT)
			}
			nd.args = make([]*Term, len(d.args))
			for j, a := range d.args {
				nd.args[j] = sub(a)
			}
			f.defers[i] = nd
		}
	}
	var add [][2]*Term
	for k, v := range s.mem {
		if k.hasLeaf(site) || v.hasLeaf(site) {
			delete(s.mem, k)
			nk := sub(k)
			if !nk.hasOld {
				add = append(add, [2]*Term{nk, sub(v)})
			}
		}
	}
	for _, kv := range add {
		s.mem[kv[0]] = kv[1]
	}
	for k := range s.facts {
		if k.hasLeaf(site) {
			delete(s.facts, k)
		}
	}
	for k, v := range s.ver {
		if v.hasLeaf(site) {
			s.ver[k] = sub(v)
		}
	}
	for k, v := range s.regs {
		if v.hasLeaf(site) {
			s.regs[k] = sub(v)
		}
	}
}

// fresh makes the result term of a site.
func (s *State) fresh(op, site string, idx int) *Term {
	s.refresh(site)
	t := s.e.TS.mk(op, site, nil, nil, nil)
	if idx >= 0 {
		return s.e.TS.mk("extract", strconv.Itoa(idx), nil, nil, nil, t)
	}
	return t
}

// ---- liveness and state keys ----

type liveness struct {
	in  map[*ssa.BasicBlock]map[ssa.Value]bool
	out map[*ssa.BasicBlock]map[ssa.Value]bool
	at  map[[2]int]map[ssa.Value]bool
}

func tracked(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Const, *ssa.Function, *ssa.Global, *ssa.Builtin:
		return false
	}
	return v != nil
}

func (p *Program) Live(fn *ssa.Function) *liveness {
	if l, ok := p.live[fn]; ok {
		return l
	}
	l := &liveness{in: map[*ssa.BasicBlock]map[ssa.Value]bool{}, out: map[*ssa.BasicBlock]map[ssa.Value]bool{}, at: map[[2]int]map[ssa.Value]bool{}}
	for _, b := range fn.Blocks {
		l.in[b] = map[ssa.Value]bool{}
		l.out[b] = map[ssa.Value]bool{}
	}
	for changed := true; changed; {
		changed = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			out := l.out[b]
			for _, su := range b.Succs {
				for v := range l.in[su] {
					if !out[v] {
						out[v] = true
						changed = true
					}
				}
				for pi, pr := range su.Preds {
					if pr != b {
						continue
					}
					for _, in := range su.Instrs {
						ph, ok := in.(*ssa.Phi)
						if !ok {
							break
						}
						if v := ph.Edges[pi]; tracked(v) && !out[v] {
							out[v] = true
							changed = true
						}
					}
				}
			}
			cur := map[ssa.Value]bool{}
			for v := range out {
				cur[v] = true
			}
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				in := b.Instrs[j]
				if v, ok := in.(ssa.Value); ok {
					delete(cur, v)
				}
				if _, ok := in.(*ssa.Phi); ok {
					continue
				}
				for _, op := range in.Operands(nil) {
					if *op != nil && tracked(*op) {
						cur[*op] = true
					}
				}
			}
			for v := range cur {
				if !l.in[b][v] {
					l.in[b][v] = true
					changed = true
				}
			}
		}
	}
	p.live[fn] = l
	return l
}

// liveAt: values needed from instruction index pc of block b on. At pc just after the phis, phi results count.
func (p *Program) liveAt(fn *ssa.Function, b *ssa.BasicBlock, pc int) map[ssa.Value]bool {
	l := p.Live(fn)
	k := [2]int{b.Index, pc}
	if m, ok := l.at[k]; ok {
		return m
	}
	cur := map[ssa.Value]bool{}
	for v := range l.out[b] {
		cur[v] = true
	}
	for j := len(b.Instrs) - 1; j >= pc; j-- {
		in := b.Instrs[j]
		if v, ok := in.(ssa.Value); ok {
			delete(cur, v)
		}
		if _, ok := in.(*ssa.Phi); ok {
			continue
		}
		for _, op := range in.Operands(nil) {
			if *op != nil && tracked(*op) {
				cur[*op] = true
			}
		}
	}
	l.at[k] = cur
	return cur
}

// prune drops dead values, unreachable memory and facts about values nothing refers to any more.
func (s *State) prune() {
	e := s.e
	reach := map[string]bool{}
	mark := func(t *Term) {
		for _, l := range t.leaves {
			reach[l] = true
		}
	}
	for i, f := range s.frames {
		pc := f.pc
		if i < len(s.frames)-1 {
			pc = f.pc + 1
		}
		live := e.P.liveAt(f.fn, f.block, pc)
		for v, t := range f.env {
			if !live[v] {
				delete(f.env, v)
			} else {
				mark(t)
			}
		}
		for _, d := range f.defers {
			if d.fnT != nil {
				mark(d.fnT)
			}
			for _, a := range d.args {
				mark(a)
			}
		}
	}
	for _, t := range s.regs {
		mark(t)
	}
	for _, t := range s.ver {
		mark(t)
	}
	if e.PinFact != nil {
		for f := range s.facts {
			if !f.hasOld && len(f.leaves) > 0 && e.PinFact(s, f) {
				mark(f)
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for a, v := range s.mem {
			r := rootOf(a)
			if (r.op == "alloc" || r.op == "res") && !reach[r.name] {
				continue
			}
			for _, l := range append(append([]string(nil), v.leaves...), a.leaves...) {
				if !reach[l] {
					reach[l] = true
					changed = true
				}
			}
		}
	}
	for a := range s.mem {
		r := rootOf(a)
		if (r.op == "alloc" || r.op == "res") && !reach[r.name] {
			delete(s.mem, a)
		}
	}
	for f := range s.facts {
		if f.hasOld {
			delete(s.facts, f)
			continue
		}
		for _, l := range f.leaves {
			if !reach[l] {
				delete(s.facts, f)
				break
			}
		}
		if e.KeepFact != nil && !e.KeepFact(f) {
			delete(s.facts, f)
		}
	}
}

func (s *State) key() string {
	var sb strings.Builder
	for _, f := range s.frames {
		fmt.Fprintf(&sb, "%d.%d.%d{", f.ctx, f.block.Index, f.pc)
		var ks []string
		for v, t := range f.env {
			ks = append(ks, v.Name()+"="+strconv.Itoa(t.id))
		}
		sort.Strings(ks)
		sb.WriteString(strings.Join(ks, ","))
		for _, d := range f.defers {
			fmt.Fprintf(&sb, ";d%d", s.e.iid(d.call))
			for _, a := range d.args {
				fmt.Fprintf(&sb, ",%d", a.id)
			}
		}
		sb.WriteString("}" + f.mark)
	}
	var ms []string
	for a, v := range s.mem {
		ms = append(ms, strconv.Itoa(a.id)+":"+strconv.Itoa(v.id))
	}
	sort.Strings(ms)
	sb.WriteString(strings.Join(ms, ","))
	sb.WriteByte('|')
	ms = ms[:0]
	for a, v := range s.facts {
		ms = append(ms, strconv.Itoa(a.id)+":"+strconv.FormatBool(v))
	}
	sort.Strings(ms)
	sb.WriteString(strings.Join(ms, ","))
	sb.WriteByte('|')
	ms = ms[:0]
	for a, v := range s.auto {
		ms = append(ms, a+"="+v)
	}
	for a, v := range s.regs {
		ms = append(ms, a+"~"+strconv.Itoa(v.id))
	}
	for a, v := range s.ver {
		ms = append(ms, a+"^"+strconv.Itoa(v.id))
	}
	sort.Strings(ms)
	sb.WriteString(strings.Join(ms, ","))
	return sb.String()
}

// seen prunes and memoises; true if the state was reached before.
func (e *Engine) seen(s *State) bool {
	s.prune()
	k := s.key()
	if e.visited[k] {
		return true
	}
	e.visited[k] = true
	e.States++
	if e.States > e.MaxStates {
		e.Overflow = true
	}
	return false
}
