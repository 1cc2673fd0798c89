package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C15", Title: "Parallel workers do not race",
		Rule: "taint analysis of memory reachable by several goroutines (captured variables, arguments of go statements, package variables and everything loaded from them): each write to such memory in code a worker can reach is under a lock, atomic, or to the worker's own element of a slice; the creator writes nothing shared between starting workers and waiting for them",
		Run:  runC15})
}

// pointerLike: values of the type can refer to memory others can change.
func pointerLike(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Slice, *types.Chan, *types.Interface, *types.Signature:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if pointerLike(u.Field(i).Type()) {
				return true
			}
		}
	case *types.Array:
		return pointerLike(u.Elem())
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if pointerLike(u.At(i).Type()) {
				return true
			}
		}
	}
	return false
}

// goStarts lists the functions started as goroutines, with the go statement.
type goStart struct {
	site ssa.Instruction
	fn   *ssa.Function
	clos *ssa.MakeClosure
	args []ssa.Value
}

func goStarts(p *Program) (out []goStart) {
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch g := in.(type) {
				case *ssa.Go:
					switch v := g.Call.Value.(type) {
					case *ssa.MakeClosure:
						out = append(out, goStart{in, v.Fn.(*ssa.Function), v, g.Call.Args})
					default:
						for _, f := range p.Callees(&g.Call) {
							if len(f.Blocks) > 0 && p.IsRepoFn(f) {
								args := g.Call.Args
								if g.Call.IsInvoke() {
									args = append([]ssa.Value{g.Call.Value}, args...)
								}
								out = append(out, goStart{in, f, nil, args})
							}
						}
						for _, f := range dynamicClosures(nil, &g.Call) {
							if len(f.Blocks) > 0 && p.IsRepoFn(f) {
								out = append(out, goStart{in, f, nil, g.Call.Args})
							}
						}
					}
				case *ssa.Call:
					// (*sync.WaitGroup).Go, (*errgroup.Group).Go: run the function in a goroutine of its own
					k := CalleeKey(&g.Call)
					if strings.HasSuffix(k, ".Go") && strings.HasPrefix(k, "(*") && !strings.Contains(k, modPath) {
						for _, a := range g.Call.Args {
							if mc, ok := a.(*ssa.MakeClosure); ok {
								out = append(out, goStart{in, mc.Fn.(*ssa.Function), mc, nil})
							} else if f, ok := a.(*ssa.Function); ok {
								out = append(out, goStart{in, f, nil, nil})
							}
						}
					}
				}
			}
		}
	}
	return
}

// sharedFacts marks values that may refer to memory more than one goroutine can reach.
type sharedFacts struct {
	p      *Program
	shared map[ssa.Value]bool
	fns    map[*ssa.Function]bool
	dirty  bool
}

func (f *sharedFacts) mark(v ssa.Value) {
	if v == nil || f.shared[v] {
		return
	}
	switch v.(type) {
	case *ssa.Const, *ssa.Function, *ssa.Builtin:
		return
	}
	if !pointerLike(v.Type()) {
		return
	}
	f.shared[v] = true
	f.dirty = true
}

func (f *sharedFacts) is(v ssa.Value) bool {
	if _, ok := v.(*ssa.Global); ok {
		return true
	}
	return f.shared[v]
}

func (p *Program) sharedMemory(starts []goStart) *sharedFacts {
	f := &sharedFacts{p: p, shared: map[ssa.Value]bool{}, fns: map[*ssa.Function]bool{}}
	for _, g := range starts {
		for fn := range p.Reach(g.fn) {
			f.fns[fn] = true
		}
		for _, fv := range g.fn.FreeVars {
			f.mark(fv)
		}
		for i, q := range g.fn.Params {
			if i < len(g.args) {
				f.mark(q)
			}
		}
	}
	for f.dirty = true; f.dirty; {
		f.dirty = false
		for fn := range f.fns {
			f.function(fn)
		}
	}
	return f
}

func (f *sharedFacts) function(fn *ssa.Function) {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch i := in.(type) {
			case *ssa.FieldAddr:
				if f.is(i.X) {
					f.mark(i)
				}
			case *ssa.IndexAddr:
				if f.is(i.X) {
					f.mark(i)
				}
			case *ssa.Field:
				if f.is(i.X) {
					f.mark(i)
				}
			case *ssa.Index:
				if f.is(i.X) {
					f.mark(i)
				}
			case *ssa.Lookup:
				if f.is(i.X) {
					f.mark(i)
				}
			case *ssa.UnOp:
				if f.is(i.X) && (i.Op == token.MUL || i.Op == token.ARROW) {
					f.mark(i)
				}
				if i.Op == token.MUL && f.cellShared(i.X) {
					f.mark(i)
				}
			case *ssa.Slice:
				if f.is(i.X) {
					f.mark(i)
				}
			case *ssa.Phi:
				for _, e := range i.Edges {
					if f.is(e) {
						f.mark(i)
					}
				}
			case *ssa.ChangeType:
				if f.is(i.X) {
					f.mark(i)
				}
			case *ssa.ChangeInterface:
				if f.is(i.X) {
					f.mark(i)
				}
			case *ssa.MakeInterface:
				if f.is(i.X) {
					f.mark(i)
				}
			case *ssa.TypeAssert:
				if f.is(i.X) {
					f.mark(i)
				}
			case *ssa.Extract:
				if f.is(i.Tuple) {
					f.mark(i)
				}
			case *ssa.Range:
				if f.is(i.X) {
					f.mark(i)
				}
			case *ssa.Next:
				if f.is(i.Iter) {
					f.mark(i)
				}
			case *ssa.MakeClosure:
				cl := i.Fn.(*ssa.Function)
				for k, bv := range i.Bindings {
					if f.is(bv) {
						f.mark(cl.FreeVars[k])
					}
				}
			case *ssa.Store:
				// published by storing it in shared memory
				if f.is(i.Addr) {
					f.mark(i.Val)
				}
			case *ssa.MapUpdate:
				if f.is(i.Map) {
					f.mark(i.Value)
					f.mark(i.Key)
				}
			case *ssa.Send:
				f.mark(i.X)
			case *ssa.Call:
				f.call(&i.Call, i)
			case *ssa.Defer:
				f.call(&i.Call, nil)
			case *ssa.Go:
				f.call(&i.Call, nil)
			}
		}
	}
}

// cellShared: a shared value was stored in the local variable (or its field) the address belongs to.
func (f *sharedFacts) cellShared(a ssa.Value) bool {
	var of func(a ssa.Value, d int) bool
	of = func(a ssa.Value, d int) bool {
		if d > 4 || a.Referrers() == nil {
			return false
		}
		for _, r := range *a.Referrers() {
			switch u := r.(type) {
			case *ssa.Store:
				if u.Addr == a && f.is(u.Val) {
					return true
				}
			}
		}
		return false
	}
	switch u := a.(type) {
	case *ssa.Alloc:
		if of(u, 0) {
			return true
		}
	case *ssa.FieldAddr:
		// same field of the same local object
		if base, ok := u.X.(*ssa.Alloc); ok {
			if of(base, 0) {
				return true
			}
			for _, r := range *base.Referrers() {
				if fa, ok := r.(*ssa.FieldAddr); ok && fa.Field == u.Field && of(fa, 0) {
					return true
				}
			}
			return false
		}
		// the same field stored anywhere in the code of the workers
		return f.fieldShared(fieldVar(u.X.Type(), u.Field))
	case *ssa.IndexAddr:
		if base, ok := u.X.(*ssa.Alloc); ok {
			for _, r := range *base.Referrers() {
				if ia, ok := r.(*ssa.IndexAddr); ok && of(ia, 0) {
					return true
				}
			}
		}
	}
	return false
}

func (f *sharedFacts) fieldShared(fv *types.Var) bool {
	if fv == nil || !pointerLike(fv.Type()) {
		return false
	}
	for fn := range f.fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok && fieldVar(fa.X.Type(), fa.Field) == fv && f.is(st.Val) {
					return true
				}
			}
		}
	}
	return false
}

func (f *sharedFacts) call(c *ssa.CallCommon, v *ssa.Call) {
	args := c.Args
	if c.IsInvoke() {
		args = append([]ssa.Value{c.Value}, c.Args...)
	}
	cs := f.p.Callees(c)
	cs = append(cs, dynamicClosures(nil, c)...)
	ext := len(cs) == 0
	for _, g := range cs {
		if len(g.Blocks) == 0 || !f.p.IsRepoFn(g) {
			ext = true
			continue
		}
		for i, q := range g.Params {
			if i < len(args) && f.is(args[i]) {
				f.mark(q)
			}
		}
		if v == nil {
			continue
		}
		for _, b := range g.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				for _, r := range ret.Results {
					if f.is(r) {
						f.mark(v)
					}
				}
			}
		}
	}
	if ext && v != nil {
		k := CalleeKey(c)
		if b, ok := c.Value.(*ssa.Builtin); ok {
			if b.Name() == "append" && f.is(args[0]) {
				f.mark(v)
			}
			return
		}
		if freshResult(k) {
			return
		}
		for _, a := range args {
			if f.is(a) {
				f.mark(v)
			}
		}
	}
}

// freshResult: the result of the external call does not refer to memory of its arguments.
func freshResult(k string) bool {
	for _, s := range []string{"errors.", "github.com/pkg/errors.", "fmt.", "strings.", "strconv.", "regexp.", "(*regexp.Regexp).", "os.", "net/url.", "path", "encoding/json.Marshal", "net/http.NewRequest", "(*net/http.Client).", "iface(wiki2book/http.HttpClient).", "crypto/", "encoding/hex.", "time.", "sort.", "os/exec.", "unicode", "html.", "maps.Keys", "slices.Sorted", "slices.Collect"} {
		if strings.HasPrefix(k, s) {
			return true
		}
	}
	return strings.HasSuffix(k, ".Error") || strings.HasSuffix(k, ".String")
}

// safeForSharing: external functions and methods documented to be safe for concurrent use, or only reading.
func safeForSharing(k string) bool {
	if isLogCall(k) || isPureExternal(k) || noReturn(k) != "" {
		return true
	}
	for _, s := range []string{"(*sync.", "sync.", "sync/atomic.", "(*sync/atomic.", "(*net/http.Client).", "iface(wiki2book/http.HttpClient).", "net/http.NewRequest", "(net/http.Header).Get", "(net/http.Header).Values", "(*regexp.Regexp).", "fmt.", "os.", "(*os/exec.", "errors.", "github.com/pkg/errors.", "iface(error).", "time.", "encoding/json.Marshal", "path/filepath.", "iface(io/fs.FileInfo)", "(*log.Logger).", "strings.", "encoding/xml.Unmarshal", "os/exec.Command", "iface(context.Context)", "context."} {
		if strings.HasPrefix(k, s) {
			return true
		}
	}
	return false
}

// mutatesArg: builtin or library functions that write through their first argument.
func mutatesArg(k string) bool {
	switch k {
	case "builtin.copy", "builtin.delete", "builtin.clear", "builtin.append":
		return true
	}
	for _, s := range []string{"sort.", "slices.Sort", "slices.Reverse", "maps.Copy", "maps.DeleteFunc", "slices.Delete", "slices.Insert", "slices.Compact", "math/rand.Shuffle"} {
		if strings.HasPrefix(k, s) && k != "sort.SearchStrings" && k != "sort.SearchInts" && k != "sort.Search" && !strings.HasPrefix(k, "slices.Sorted") && !strings.HasPrefix(k, "sort.SliceIsSorted") {
			return true
		}
	}
	return false
}

func runC15(p *Program, r *Report) {
	starts := goStarts(p)
	r.Count("goroutine starts", len(starts))
	f := p.sharedMemory(starts)
	locks := p.Locks()
	r.Count("functions reachable by workers", len(f.fns))
	locked := func(in ssa.Instruction) bool {
		for id, mode := range locks.must[in] {
			if mode == "w" && (strings.HasPrefix(id, "global ") || strings.HasPrefix(id, "field ") || strings.HasPrefix(id, "local ")) {
				return true
			}
		}
		return false
	}
	// which lock protects which memory: all accesses must agree
	type access struct {
		in    ssa.Instruction
		fn    *ssa.Function
		write bool
	}
	guarded := map[string][]access{}
	bad := func(fn *ssa.Function, in ssa.Instruction, what string) {
		r.Bad("race:"+FnName(fn)+":"+what, p.At(in), "%s, which several workers run at the same time, writes %s without a lock", FnName(fn), what)
	}
	for fn := range f.fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch i := in.(type) {
				case *ssa.Store:
					if !f.is(i.Addr) {
						continue
					}
					r.Count("writes to shared memory", 1)
					what := p.nameOfAddr(i.Addr)
					if locked(in) {
						guarded[what] = append(guarded[what], access{in, fn, true})
						continue
					}
					if ia, ok := i.Addr.(*ssa.IndexAddr); ok && p.ownElement(ia, starts) {
						r.Count("own elements", 1)
						continue
					}
					bad(fn, in, what)
				case *ssa.MapUpdate:
					if !f.is(i.Map) {
						continue
					}
					r.Count("writes to shared memory", 1)
					what := p.nameOfAddr(i.Map)
					if locked(in) {
						guarded[what] = append(guarded[what], access{in, fn, true})
						continue
					}
					bad(fn, in, what)
				case ssa.CallInstruction:
					c := i.Common()
					k := CalleeKey(c)
					ext := true
					for _, g := range p.Callees(c) {
						if len(g.Blocks) > 0 && p.IsRepoFn(g) {
							ext = false
						}
					}
					if !ext {
						continue
					}
					if mutatesArg(k) && len(c.Args) > 0 && f.is(c.Args[0]) {
						if k == "builtin.append" {
							if v, ok := in.(ssa.Value); !ok || v.Referrers() == nil || len(*v.Referrers()) == 0 {
								continue
							}
						}
						r.Count("writes to shared memory", 1)
						if !locked(in) {
							bad(fn, in, p.nameOfAddr(c.Args[0])+" ("+k+")")
						}
						continue
					}
					if _, isB := c.Value.(*ssa.Builtin); isB || safeForSharing(k) {
						continue
					}
					args := c.Args
					if c.IsInvoke() {
						args = append([]ssa.Value{c.Value}, args...)
					}
					for _, a := range args {
						if f.is(a) && writable(a.Type()) && !locked(in) {
							r.Count("shared values given to library calls", 1)
							bad(fn, in, p.nameOfAddr(a)+" ("+k+")")
						}
					}
				}
			}
		}
	}
	// reads of memory that is written under a lock
	for fn := range f.fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var a ssa.Value
				switch i := in.(type) {
				case *ssa.UnOp:
					if i.Op == token.MUL {
						a = i.X
					}
				case *ssa.Lookup:
					a = i.X
				case *ssa.Range:
					a = i.X
				}
				if a == nil || !f.is(a) || len(guarded) == 0 {
					continue
				}
				what := p.nameOfAddr(a)
				if ws := guarded[what]; len(ws) > 0 && len(locks.must[in]) == 0 {
					if fa, ok := in.(*ssa.UnOp); ok {
						if _, isMap := fa.Type().Underlying().(*types.Map); isMap {
							continue
						}
					}
					r.Bad("race-read:"+FnName(fn)+":"+what, p.At(in), "%s reads %s without the lock under which %s writes it", FnName(fn), what, FnName(ws[0].fn))
				}
			}
		}
	}
	// different locks for the same memory
	for what, ws := range guarded {
		common := locks.must[ws[0].in]
		for _, w := range ws {
			common = interLocks(common, locks.must[w.in])
		}
		if len(common) == 0 {
			r.Bad("locks:"+what, p.At(ws[0].in), "%s is written under different locks", what)
		}
	}
	// the creator: waits, and does not touch what the workers use until then
	for _, g := range starts {
		checkCreator(p, r, f, g, locks)
	}
	checkEarlyDone(p, r, f)
}

func writable(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return true
	case *types.Map, *types.Chan:
		return true
	case *types.Slice:
		return true
	case *types.Interface:
		return !isErrorType(t)
	case *types.Struct:
		_ = u
		return false
	}
	return false
}

// nameOfAddr names the memory an address belongs to.
func (p *Program) nameOfAddr(a ssa.Value) string {
	switch u := a.(type) {
	case *ssa.Global:
		return "package variable " + u.Name()
	case *ssa.FieldAddr:
		if fv := fieldVar(u.X.Type(), u.Field); fv != nil {
			return "field " + fv.Name()
		}
	case *ssa.IndexAddr:
		return p.nameOfAddr(u.X) + " element"
	case *ssa.UnOp:
		if u.Op == token.MUL {
			return p.nameOfAddr(u.X)
		}
	case *ssa.FreeVar:
		return "captured variable " + u.Name()
	case *ssa.Parameter:
		if n := p.argOf(u); n != nil {
			return p.nameOfAddr(n)
		}
		return "parameter " + u.Name()
	case *ssa.Alloc:
		return "variable " + u.Comment
	case *ssa.MakeInterface:
		return p.nameOfAddr(u.X)
	case *ssa.Phi:
		return "variable " + u.Comment
	case *ssa.Call:
		return "result of " + CalleeKey(&u.Call)
	}
	return "shared value " + a.Type().String()
}

// ownElement: the index belongs to this worker's item alone: it was received from a channel, given to the goroutine by
// the loop starting it, or drawn from an atomic counter.
func (p *Program) ownElement(ia *ssa.IndexAddr, starts []goStart) bool {
	return p.ownIndex(ia.Index, map[ssa.Value]bool{})
}

func (p *Program) ownIndex(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	switch u := v.(type) {
	case *ssa.Extract:
		switch t := u.Tuple.(type) {
		case *ssa.UnOp:
			return t.Op == token.ARROW && p.distinctSends(t.X)
		}
	case *ssa.UnOp:
		if u.Op == token.ARROW {
			return p.distinctSends(u.X)
		}
		if u.Op == token.MUL {
			if fv, ok := u.X.(*ssa.FreeVar); ok {
				// captured loop variable: one variable per iteration
				b := p.binding(fv)
				if al, ok := b.(*ssa.Alloc); ok && inLoop(al.Block()) && p.loopCounterCell(al) {
					return true
				}
				return false
			}
			if fa, ok := u.X.(*ssa.FieldAddr); ok {
				// field of an item
				if al, ok := fa.X.(*ssa.Alloc); ok {
					for _, r := range *al.Referrers() {
						if st, ok := r.(*ssa.Store); ok && st.Addr == al {
							return p.ownItem(st.Val, fa.Field, seen)
						}
					}
				}
				return p.ownItem(fa.X, fa.Field, seen)
			}
			if al, ok := u.X.(*ssa.Alloc); ok {
				if s := p.onlyStore(al); s != nil {
					return p.ownIndex(s, seen)
				}
			}
		}
	case *ssa.Field:
		return p.ownItem(u.X, u.Field, seen)
	case *ssa.Parameter:
		// argument of the go statement or of a helper called by the worker
		sites, ok := p.sitesOf(u.Parent())
		if !ok || len(sites) != 1 {
			return false
		}
		for i, q := range u.Parent().Params {
			if q == u && i < len(sites[0].Common().Args) {
				a := sites[0].Common().Args[i]
				if _, isGo := sites[0].(*ssa.Go); isGo {
					return p.loopCounter(a)
				}
				return p.ownIndex(a, seen)
			}
		}
	case *ssa.Convert:
		return p.ownIndex(u.X, seen)
	case *ssa.BinOp:
		if c, ok := u.Y.(*ssa.Const); ok && c.Value != nil && (u.Op == token.SUB || u.Op == token.ADD) {
			return p.ownIndex(u.X, seen)
		}
	case *ssa.Call:
		k := CalleeKey(&u.Call)
		return strings.HasPrefix(k, "(*sync/atomic.") && strings.HasSuffix(k, ".Add") || strings.HasPrefix(k, "sync/atomic.Add")
	}
	return false
}

func (p *Program) ownItem(v ssa.Value, field int, seen map[ssa.Value]bool) bool {
	var ch ssa.Value
	switch u := v.(type) {
	case *ssa.Extract:
		if t, ok := u.Tuple.(*ssa.UnOp); ok && t.Op == token.ARROW {
			ch = t.X
		}
	case *ssa.UnOp:
		if u.Op == token.ARROW {
			ch = u.X
		}
	}
	if ch == nil {
		return false
	}
	s := p.onlySend(ch)
	if s == nil {
		return false
	}
	ld, ok := s.X.(*ssa.UnOp)
	if !ok {
		return false
	}
	w := p.onlyFieldStore(ld.X, field)
	return w != nil && p.loopCounter(w)
}

// distinctSends: the channel is sent to at one place, with the counter of a loop.
func (p *Program) distinctSends(ch ssa.Value) bool {
	s := p.onlySend(ch)
	return s != nil && p.loopCounter(s.X)
}

// loopCounter: v counts the iterations of a loop (a different value in each).
func (p *Program) loopCounter(v ssa.Value) bool {
	switch u := v.(type) {
	case *ssa.Phi:
		for _, e := range u.Edges {
			if b, ok := e.(*ssa.BinOp); ok && b.Op == token.ADD && b.X == ssa.Value(u) {
				return true
			}
		}
	case *ssa.BinOp:
		if ph, ok := u.X.(*ssa.Phi); ok && u.Op == token.ADD {
			for _, e := range ph.Edges {
				if e == ssa.Value(u) {
					return true
				}
			}
		}
	case *ssa.UnOp:
		if al, ok := u.X.(*ssa.Alloc); ok && u.Op == token.MUL {
			return p.loopCounterCell(al)
		}
	}
	return false
}

// loopCounterCell: a per-iteration loop variable (its value is copied and incremented from one iteration to the next).
func (p *Program) loopCounterCell(al *ssa.Alloc) bool {
	if !inLoop(al.Block()) {
		return false
	}
	for _, r := range *al.Referrers() {
		st, ok := r.(*ssa.Store)
		if !ok || st.Addr != al {
			continue
		}
		if !p.loopCounter(st.Val) {
			return false
		}
	}
	return true
}

// checkCreator: the function starting the workers waits for them on every way before it returns or goes on, and does
// not write to memory the workers use in between.
func checkCreator(p *Program, r *Report, f *sharedFacts, g goStart, locks *lockFacts) {
	fn := g.site.Parent()
	isWait := func(in ssa.Instruction) bool {
		c, ok := in.(*ssa.Call)
		if ok {
			k := CalleeKey(&c.Call)
			if k == "(*sync.WaitGroup).Wait" || strings.HasSuffix(k, "errgroup.Group).Wait") {
				return true
			}
			for _, cal := range p.Callees(&c.Call) {
				if len(cal.Blocks) > 0 && p.IsRepoFn(cal) && mustWait(p, cal) {
					return true
				}
			}
		}
		if u, ok := in.(*ssa.UnOp); ok && u.Op == token.ARROW {
			return false
		}
		return false
	}
	shared := map[ssa.Value]bool{}
	add := func(v ssa.Value) {
		if v != nil && pointerLike(v.Type()) {
			shared[p.resolve(v)] = true
			shared[v] = true
		}
	}
	if g.clos != nil {
		for _, b := range g.clos.Bindings {
			add(b)
		}
	}
	for _, a := range g.args {
		add(a)
	}
	roots := func(a ssa.Value) bool {
		for i := 0; i < 8; i++ {
			if shared[a] || shared[p.resolve(a)] {
				return true
			}
			switch u := a.(type) {
			case *ssa.IndexAddr:
				a = u.X
			case *ssa.FieldAddr:
				a = u.X
			case *ssa.UnOp:
				a = u.X
			case *ssa.Slice:
				a = u.X
			default:
				return false
			}
		}
		return false
	}
	// everything after the go statement that is reachable without waiting
	waited := true
	seen := map[*ssa.BasicBlock]bool{}
	var at ssa.Instruction
	visit := func(instrs []ssa.Instruction) bool { // false: stop at a wait
		for _, in := range instrs {
			if isWait(in) {
				return false
			}
			switch u := in.(type) {
			case *ssa.Return:
				if !p.waitsInCallers(fn, u) {
					waited = false
					at = in
				}
			case *ssa.Store:
				if al, ok := u.Addr.(*ssa.Alloc); ok && p.perIteration(al, g) {
					continue
				}
				if roots(u.Addr) {
					r.Bad("creator:"+FnName(fn)+":"+p.nameOfAddr(u.Addr), p.At(in), "%s writes %s while the workers it started can use it", FnName(fn), p.nameOfAddr(u.Addr))
				}
			case *ssa.MapUpdate:
				if roots(u.Map) {
					r.Bad("creator:"+FnName(fn)+":"+p.nameOfAddr(u.Map), p.At(in), "%s changes %s while the workers it started can use it", FnName(fn), p.nameOfAddr(u.Map))
				}
			case *ssa.Call:
				if mutatesArg(CalleeKey(&u.Call)) && CalleeKey(&u.Call) != "builtin.append" && len(u.Call.Args) > 0 && roots(u.Call.Args[0]) {
					r.Bad("creator:"+FnName(fn)+":"+p.nameOfAddr(u.Call.Args[0]), p.At(in), "%s changes %s while the workers it started can use it", FnName(fn), p.nameOfAddr(u.Call.Args[0]))
				}
			}
		}
		return true
	}
	b := g.site.Block()
	var rest []ssa.Instruction
	for i, in := range b.Instrs {
		if in == g.site {
			rest = b.Instrs[i+1:]
		}
	}
	var work []*ssa.BasicBlock
	if visit(rest) {
		work = append(work, b.Succs...)
	}
	for len(work) > 0 {
		q := work[0]
		work = work[1:]
		if seen[q] {
			continue
		}
		seen[q] = true
		if visit(q.Instrs) {
			work = append(work, q.Succs...)
		}
	}
	// reading what the workers write before waiting
	written := map[ssa.Value]bool{}
	for wf := range p.Reach(g.fn) {
		for _, wb := range wf.Blocks {
			for _, in := range wb.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					a := st.Addr
					if ia, ok := a.(*ssa.IndexAddr); ok {
						a = ia.X
					}
					if f.is(a) {
						written[p.resolve(a)] = true
					}
				}
			}
		}
	}
	for q := range seen {
		for _, in := range q.Instrs {
			if isWait(in) {
				break
			}
			switch u := in.(type) {
			case *ssa.MakeClosure, *ssa.Go, *ssa.DebugRef:
				continue
			case *ssa.UnOp:
				if u.Op == token.MUL {
					if _, isSlice := u.Type().Underlying().(*types.Slice); isSlice {
						continue
					}
					base := u.X
					if ia, ok := base.(*ssa.IndexAddr); ok {
						base = ia.X
					}
					if written[p.resolve(base)] {
						r.Bad("creator-read:"+FnName(fn)+":"+p.nameOfAddr(base), p.At(in), "%s reads %s before it has waited for the workers writing it", FnName(fn), p.nameOfAddr(base))
					}
				}
			case ssa.CallInstruction:
				if _, isB := u.Common().Value.(*ssa.Builtin); isB || isLogCall(CalleeKey(u.Common())) && false {
					continue
				}
				for _, a := range u.Common().Args {
					if written[p.resolve(a)] && pointerLike(a.Type()) {
						r.Bad("creator-read:"+FnName(fn)+":"+p.nameOfAddr(a), p.At(in), "%s uses %s before it has waited for the workers writing it", FnName(fn), p.nameOfAddr(a))
					}
				}
			}
		}
	}
	if !waited {
		r.Bad("nowait:"+FnName(fn), p.At(at), "%s can return without having waited for the workers it started at %s", FnName(fn), p.At(g.site))
	}
	r.Count("creators", 1)
}

// perIteration: the variable belongs to one iteration of the loop starting the goroutine.
func (p *Program) perIteration(al *ssa.Alloc, g goStart) bool {
	return inLoop(al.Block()) && inLoop(g.site.Block())
}

// waitsInCallers: every caller of a function that only starts workers waits after the call.
func (p *Program) waitsInCallers(fn *ssa.Function, ret *ssa.Return) bool {
	sites, ok := p.sitesOf(fn)
	if !ok || len(sites) == 0 || fn.Name() == "main" {
		return false
	}
	for _, s := range sites {
		c := s.Parent()
		found := false
		for _, b := range c.Blocks {
			for _, in := range b.Instrs {
				if call, ok := in.(*ssa.Call); ok && CalleeKey(&call.Call) == "(*sync.WaitGroup).Wait" {
					if s.Block() == b || s.Block().Dominates(b) {
						found = found || postDominatesBlock(c, b, s.Block())
					}
				}
			}
		}
		if !found {
			return false
		}
	}
	return true
}

func postDominatesBlock(fn *ssa.Function, b, of *ssa.BasicBlock) bool {
	return postDoms(fn, staticSuccs)[of][b]
}

func mustWait(p *Program, fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok && CalleeKey(&c.Call) == "(*sync.WaitGroup).Wait" && dominatesReturns(fn, b) {
				return true
			}
		}
	}
	return false
}

// checkEarlyDone: a worker must not announce its end before its last write to shared memory, because the creator uses the
// results as soon as all workers are announced.
func checkEarlyDone(p *Program, r *Report, f *sharedFacts) {
	// repo functions (transitively) writing memory shared between the workers and their creator
	direct := func(in ssa.Instruction) bool {
		switch i := in.(type) {
		case *ssa.Store:
			return f.is(i.Addr)
		case *ssa.MapUpdate:
			return f.is(i.Map)
		}
		if c := callOf(in); c != nil && len(c.Args) > 0 && f.is(c.Args[0]) {
			if k := CalleeKey(c); mutatesArg(k) && k != "builtin.append" {
				return true
			}
		}
		return false
	}
	writes := map[*ssa.Function]bool{}
	for changed := true; changed; {
		changed = false
		for fn := range f.fns {
			if writes[fn] {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					w := direct(in)
					if c := callOf(in); c != nil && !w {
						if _, isGo := in.(*ssa.Go); !isGo {
							for _, t := range p.repoCallees(c) {
								w = w || writes[t]
							}
						}
					}
					if w && !writes[fn] {
						writes[fn], changed = true, true
					}
				}
			}
		}
	}
	writesShared := func(in ssa.Instruction) bool {
		if direct(in) {
			return true
		}
		if _, isGo := in.(*ssa.Go); isGo {
			return false
		}
		if c := callOf(in); c != nil {
			for _, t := range p.repoCallees(c) {
				if writes[t] {
					return true
				}
			}
		}
		return false
	}
	done := map[*ssa.Function]bool{}
	isDone := func(in ssa.Instruction) bool {
		call, ok := in.(*ssa.Call)
		if !ok {
			return false
		}
		if k := CalleeKey(&call.Call); k == "(*sync.WaitGroup).Done" {
			return true
		} else if k == "(*sync.WaitGroup).Add" && len(call.Call.Args) == 2 {
			if n, ok := call.Call.Args[1].(*ssa.Const); ok && n.Value != nil && n.Int64() < 0 {
				return true
			}
		}
		for _, t := range p.repoCallees(&call.Call) {
			if done[t] {
				return true
			}
		}
		return false
	}
	for changed := true; changed; {
		changed = false
		for fn := range f.fns {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if isDone(in) && !done[fn] {
						done[fn], changed = true, true
					}
				}
			}
		}
	}
	for fn := range f.fns {
		for _, b := range fn.Blocks {
			for idx, in := range b.Instrs {
				if !isDone(in) {
					continue
				}
				r.Count("worker ends", 1)
				loop := inLoop(b)
				seen := map[*ssa.BasicBlock]bool{}
				var walk func(b *ssa.BasicBlock, from int)
				walk = func(b *ssa.BasicBlock, from int) {
					for _, x := range b.Instrs[from:] {
						if u, ok := x.(*ssa.UnOp); ok && loop && u.Op == token.ARROW {
							return
						}
						if writesShared(x) {
							r.Bad("early-done:"+FnName(fn), p.At(in), "%s announces the end of the worker before the worker writes shared memory at %s", FnName(fn), p.At(x))
							return
						}
					}
					for _, s := range b.Succs {
						if !seen[s] {
							seen[s] = true
							walk(s, 0)
						}
					}
				}
				walk(b, idx+1)
			}
		}
	}
}

// repoCallees: the functions of the repository the call can run.
func (p *Program) repoCallees(c *ssa.CallCommon) (out []*ssa.Function) {
	for _, t := range p.Callees(c) {
		if len(t.Blocks) > 0 && p.IsRepoFn(t) {
			out = append(out, t)
		}
	}
	return
}

func callOf(in ssa.Instruction) *ssa.CallCommon {
	if c, ok := in.(ssa.CallInstruction); ok {
		return c.Common()
	}
	return nil
}
