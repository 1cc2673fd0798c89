package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C16", Title: "Cache changes exclude each other and no lock is left behind",
		Rule: "lock-state analysis over all functions: each lock taken is released on every path to a return, not taken while it may be held, no channel or wait operation while it is held, and every file-system operation of the cache package runs with one and the same package-wide lock held",
		Run:  runC16})
}

// lockSet maps a lock to the way it is held ("w" or "r").
type lockSet map[string]string

func (l lockSet) clone() lockSet {
	n := lockSet{}
	for k, v := range l {
		n[k] = v
	}
	return n
}

func interLocks(a, b lockSet) lockSet {
	n := lockSet{}
	for k, v := range a {
		if w, ok := b[k]; ok {
			if v == "r" || w == "r" {
				n[k] = "r"
			} else {
				n[k] = "w"
			}
		}
	}
	return n
}

func unionLocks(a, b lockSet) lockSet {
	n := a.clone()
	for k, v := range b {
		if n[k] != "w" {
			n[k] = v
		}
	}
	return n
}

func sameLocks(a, b lockSet) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if b[k] != v {
			return false
		}
	}
	return true
}

// lockOp: the call takes ("lock", "rlock", "trylock") or releases ("unlock", "runlock") a lock.
func (p *Program) lockOp(c *ssa.CallCommon) (op, id string) {
	k := CalleeKey(c)
	switch k {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
		op = "lock"
	case "(*sync.RWMutex).RLock":
		op = "rlock"
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock":
		op = "unlock"
	case "(*sync.RWMutex).RUnlock":
		op = "runlock"
	case "(*sync.Mutex).TryLock", "(*sync.RWMutex).TryLock", "(*sync.RWMutex).TryRLock":
		op = "trylock"
	case "iface(sync.Locker).Lock":
		return "lock", p.lockID(c.Value)
	case "iface(sync.Locker).Unlock":
		return "unlock", p.lockID(c.Value)
	default:
		return "", ""
	}
	return op, p.lockID(c.Args[0])
}

func (p *Program) lockID(v ssa.Value) string {
	v = p.resolve(v)
	switch u := v.(type) {
	case *ssa.Global:
		return "global " + u.String()
	case *ssa.UnOp:
		if u.Op == token.MUL {
			return p.lockID(u.X)
		}
	case *ssa.FieldAddr:
		if fv := fieldVar(u.X.Type(), u.Field); fv != nil {
			base := p.resolve(u.X)
			if g, ok := base.(*ssa.Global); ok {
				return "global " + g.String() + "." + fv.Name()
			}
			if ld, ok := base.(*ssa.UnOp); ok {
				if g, ok := ld.X.(*ssa.Global); ok {
					return "global " + g.String() + "." + fv.Name()
				}
			}
			return "field " + types.TypeString(u.X.Type(), nil) + "." + fv.Name()
		}
	case *ssa.Alloc:
		return "local " + p.Pos(u.Pos())
	}
	return "lock " + v.Name() + "@" + p.Pos(v.Pos())
}

// lockFacts is the result of the analysis of the whole program.
type lockFacts struct {
	p         *Program
	entryMust map[*ssa.Function]lockSet // nil: not reached yet
	entryMay  map[*ssa.Function]lockSet
	acq, rel  map[*ssa.Function]lockSet // net effect of a call
	must, may map[ssa.Instruction]lockSet
	leaks     map[*ssa.Function]map[string]ssa.Instruction // held at one return but not at another
	left      map[*ssa.Function]lockSet
	done      map[*ssa.Function]bool // some return was found
}

func (p *Program) Locks() *lockFacts {
	f := &lockFacts{p: p, entryMust: map[*ssa.Function]lockSet{}, entryMay: map[*ssa.Function]lockSet{}, acq: map[*ssa.Function]lockSet{}, rel: map[*ssa.Function]lockSet{}, must: map[ssa.Instruction]lockSet{}, may: map[ssa.Instruction]lockSet{}, leaks: map[*ssa.Function]map[string]ssa.Instruction{}, left: map[*ssa.Function]lockSet{}, done: map[*ssa.Function]bool{}}
	called := map[*ssa.Function]bool{}
	for _, fn := range p.Funcs {
		for _, c := range CallSites(fn) {
			if _, isGo := c.(*ssa.Go); isGo {
				continue
			}
			for _, g := range f.callees(c.Common()) {
				called[g] = true
			}
		}
	}
	for _, fn := range p.Funcs {
		if !called[fn] || escapesAsValue(p, fn) {
			f.entryMust[fn] = lockSet{}
			f.entryMay[fn] = lockSet{}
		}
	}
	for {
		changed := false
		for _, fn := range p.Funcs {
			if f.entryMust[fn] != nil && f.function(fn) {
				changed = true
			}
		}
		if !changed {
			return f
		}
	}
}

// callees resolves calls including those of a function given as parameter.
func (f *lockFacts) callees(c *ssa.CallCommon) []*ssa.Function {
	if out := f.p.Callees(c); len(out) > 0 {
		return out
	}
	if out := dynamicClosures(nil, c); len(out) > 0 {
		return out
	}
	if q, ok := c.Value.(*ssa.Parameter); ok {
		var out []*ssa.Function
		fn := q.Parent()
		for i, r := range fn.Params {
			if r != q {
				continue
			}
			for _, s := range f.p.CallersOf(fn) {
				if i < len(s.Common().Args) {
					switch v := s.Common().Args[i].(type) {
					case *ssa.Function:
						out = append(out, v)
					case *ssa.MakeClosure:
						out = append(out, v.Fn.(*ssa.Function))
					}
				}
			}
		}
		return out
	}
	return nil
}

// escapesAsValue: the function is used other than by calling it or handing it to a repository function which calls it.
func escapesAsValue(p *Program, fn *ssa.Function) bool {
	for _, g := range p.Funcs {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if *op == nil {
						continue
					}
					v := *op
					if v != ssa.Value(fn) {
						mc, ok := v.(*ssa.MakeClosure)
						if !ok || mc.Fn != fn {
							continue
						}
					}
					switch u := in.(type) {
					case *ssa.MakeClosure, *ssa.DebugRef:
						continue
					case ssa.CallInstruction:
						if u.Common().Value == v && !u.Common().IsInvoke() {
							if _, isGo := in.(*ssa.Go); isGo {
								return true
							}
							continue
						}
						cs := p.Callees(u.Common())
						ext := len(cs) == 0
						for _, c := range cs {
							if len(c.Blocks) == 0 || !p.IsRepoFn(c) {
								ext = true
							}
						}
						if !ext {
							continue
						}
						return true
					}
					return true
				}
			}
		}
	}
	return false
}

type lockState struct{ must, may, defMust, defMay lockSet }

func (f *lockFacts) function(fn *ssa.Function) bool {
	changed := false
	in := map[*ssa.BasicBlock]*lockState{}
	in[fn.Blocks[0]] = &lockState{f.entryMust[fn].clone(), f.entryMay[fn].clone(), lockSet{}, lockSet{}}
	work := []*ssa.BasicBlock{fn.Blocks[0]}
	type exit struct {
		in        ssa.Instruction
		must, may lockSet
	}
	exits := map[ssa.Instruction]exit{}
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		st := &lockState{in[b].must.clone(), in[b].may.clone(), in[b].defMust.clone(), in[b].defMay.clone()}
		dead := false
		for _, i := range b.Instrs {
			m, y := st.must.clone(), st.may.clone()
			if !sameLocks(f.must[i], m) || !sameLocks(f.may[i], y) || f.must[i] == nil {
				f.must[i], f.may[i] = m, y
				changed = true
			}
			switch c := i.(type) {
			case *ssa.Call:
				if noReturn(CalleeKey(&c.Call)) == "always" {
					dead = true
				}
				ch, returns := f.apply(&c.Call, st, i)
				if ch {
					changed = true
				}
				if !returns {
					dead = true
				}
			case *ssa.Go:
				for _, g := range f.callees(c.Common()) {
					if len(g.Blocks) > 0 && f.p.IsRepoFn(g) {
						changed = f.enter(g, lockSet{}, lockSet{}) || changed
					}
				}
			case *ssa.Defer:
				f.deferred(&c.Call, st)
			case *ssa.RunDefers:
				for k := range st.defMust {
					delete(st.must, k)
					delete(st.may, k)
				}
				for k := range st.defMay {
					delete(st.must, k)
				}
			case *ssa.Return:
				exits[i] = exit{i, st.must.clone(), st.may.clone()}
			case *ssa.Panic:
				dead = true
			}
			if dead {
				break
			}
		}
		if dead {
			continue
		}
		for _, s := range b.Succs {
			o := in[s]
			if o == nil {
				in[s] = &lockState{st.must.clone(), st.may.clone(), st.defMust.clone(), st.defMay.clone()}
				work = append(work, s)
				continue
			}
			n := &lockState{interLocks(o.must, st.must), unionLocks(o.may, st.may), interLocks(o.defMust, st.defMust), unionLocks(o.defMay, st.defMay)}
			if !sameLocks(n.must, o.must) || !sameLocks(n.may, o.may) || !sameLocks(n.defMust, o.defMust) || !sameLocks(n.defMay, o.defMay) {
				in[s] = n
				work = append(work, s)
			}
		}
	}
	// net effect
	var allMust, anyMay lockSet
	for _, e := range exits {
		if allMust == nil {
			allMust, anyMay = e.must.clone(), e.may.clone()
		} else {
			allMust, anyMay = interLocks(allMust, e.must), unionLocks(anyMay, e.may)
		}
	}
	acq, rel := lockSet{}, lockSet{}
	leaks := map[string]ssa.Instruction{}
	left := lockSet{}
	for k, v := range allMust {
		if _, ok := f.entryMay[fn][k]; !ok {
			acq[k] = v
			left[k] = v
		}
	}
	for k := range anyMay {
		_, held := f.entryMay[fn][k]
		if _, ok := allMust[k]; !ok && !held {
			for _, e := range exits {
				if _, ok := e.may[k]; ok {
					leaks[k] = e.in
				}
			}
		}
	}
	if allMust != nil {
		for k, v := range f.entryMust[fn] {
			if _, ok := anyMay[k]; !ok {
				rel[k] = v
			}
		}
	}
	if !sameLocks(f.acq[fn], acq) || !sameLocks(f.rel[fn], rel) {
		f.acq[fn], f.rel[fn] = acq, rel
		changed = true
	}
	f.leaks[fn], f.left[fn] = leaks, left
	if len(exits) > 0 && !f.done[fn] {
		f.done[fn] = true
		changed = true
	}
	return changed
}

func (f *lockFacts) enter(g *ssa.Function, must, may lockSet) bool {
	if f.entryMust[g] == nil {
		f.entryMust[g], f.entryMay[g] = must.clone(), may.clone()
		return true
	}
	n, m := interLocks(f.entryMust[g], must), unionLocks(f.entryMay[g], may)
	if !sameLocks(n, f.entryMust[g]) || !sameLocks(m, f.entryMay[g]) {
		f.entryMust[g], f.entryMay[g] = n, m
		return true
	}
	return false
}

func (f *lockFacts) apply(c *ssa.CallCommon, st *lockState, at ssa.Instruction) (bool, bool) {
	op, id := f.p.lockOp(c)
	switch op {
	case "lock":
		st.must[id], st.may[id] = "w", "w"
		return false, true
	case "rlock":
		st.must[id], st.may[id] = "r", "r"
		return false, true
	case "trylock":
		st.may[id] = "w"
		return false, true
	case "unlock", "runlock":
		delete(st.must, id)
		delete(st.may, id)
		return false, true
	}
	changed, returns, known := false, false, false
	for _, g := range f.callees(c) {
		if len(g.Blocks) == 0 || !f.p.IsRepoFn(g) {
			continue
		}
		changed = f.enter(g, st.must, st.may) || changed
		known = true
		returns = returns || f.done[g]
		for k, v := range f.acq[g] {
			st.must[k], st.may[k] = v, v
		}
		for k := range f.rel[g] {
			delete(st.must, k)
			delete(st.may, k)
		}
	}
	return changed, returns || !known
}

func (f *lockFacts) deferred(c *ssa.CallCommon, st *lockState) {
	op, id := f.p.lockOp(c)
	if op == "unlock" || op == "runlock" {
		st.defMust[id], st.defMay[id] = "w", "w"
		return
	}
	for _, g := range f.callees(c) {
		if len(g.Blocks) == 0 || !f.p.IsRepoFn(g) {
			continue
		}
		f.enter(g, lockSet{}, unionLocks(st.must, st.may))
		for _, s := range CallSites(g) {
			if op, id := f.p.lockOp(s.Common()); op == "unlock" || op == "runlock" {
				if _, isDefer := s.(*ssa.Defer); isDefer || dominatesReturns(g, s.Block()) {
					st.defMust[id] = "w"
				}
				st.defMay[id] = "w"
			}
		}
	}
}

func dominatesReturns(fn *ssa.Function, b *ssa.BasicBlock) bool {
	for _, r := range fn.Blocks {
		if _, ok := r.Instrs[len(r.Instrs)-1].(*ssa.Return); ok && !b.Dominates(r) {
			return false
		}
	}
	return true
}

// cacheOps are the file-system operations that look up or change cache files; true: they change something.
var cacheOps = map[string]bool{
	"Rename": true, "Remove": true, "RemoveAll": true, "Chtimes": true, "Create": true, "WriteFile": true, "OpenFile": true, "Truncate": true, "CreateTemp": true,
	"Stat": false, "Lstat": false, "GetSizeInBytes": false, "DirSizeInBytes": false, "FindLargestFile": false, "FindLruFile": false, "ReadDir": false,
}

func runC16(p *Program, r *Report) {
	f := p.Locks()
	for _, fn := range p.Funcs {
		if isInit(fn) {
			continue
		}
		for k, in := range f.leaks[fn] {
			r.Bad("leak:"+FnName(fn)+":"+k, p.At(in), "%s can return while %s is still held (on other ways it is released)", FnName(fn), k)
		}
		if len(f.left[fn]) > 0 {
			// taken for the caller: there must be one that releases it
			if sites, ok := p.sitesOf(fn); len(sites) == 0 || !ok {
				for k := range f.left[fn] {
					r.Bad("left:"+FnName(fn)+":"+k, p.Pos(fn.Pos()), "%s ends with %s still held", FnName(fn), k)
				}
			}
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				may, must := f.may[in], f.must[in]
				if must == nil {
					continue
				}
				if c, ok := in.(ssa.CallInstruction); ok {
					op, id := p.lockOp(c.Common())
					if op != "" {
						r.Count("lock operations", 1)
						r.Sample("%s of %s in %s", op, id, FnName(fn))
					}
					switch op {
					case "lock", "rlock":
						if _, isDefer := in.(*ssa.Defer); isDefer {
							r.Bad("deferred-lock:"+FnName(fn)+":"+id, p.At(in), "%s takes %s when it returns", FnName(fn), id)
						} else if _, held := may[id]; held {
							r.Bad("double:"+FnName(fn)+":"+id, p.At(in), "%s takes %s while the same worker can already hold it", FnName(fn), id)
						}
					case "unlock", "runlock":
						if _, isDefer := in.(*ssa.Defer); !isDefer {
							if _, held := must[id]; !held && len(f.entryMay[fn]) == 0 && !releasesOnly(p, fn) {
								r.Bad("unlock:"+FnName(fn)+":"+id, p.At(in), "%s releases %s on a way on which it is not held", FnName(fn), id)
							}
						}
					}
					if len(may) > 0 {
						k := CalleeKey(c.Common())
						if k == "(*sync.WaitGroup).Wait" || k == "(*sync.Cond).Wait" || k == "time.Sleep" {
							r.Bad("wait:"+FnName(fn), p.At(in), "%s waits (%s) while holding %s", FnName(fn), k, lockNames(may))
						}
					}
				}
				if len(may) > 0 {
					switch u := in.(type) {
					case *ssa.Send:
						r.Bad("wait:"+FnName(fn), p.At(in), "%s sends to a channel while holding %s", FnName(fn), lockNames(may))
					case *ssa.UnOp:
						if u.Op == token.ARROW {
							r.Bad("wait:"+FnName(fn), p.At(in), "%s receives from a channel while holding %s", FnName(fn), lockNames(may))
						}
					case *ssa.Select:
						if u.Blocking {
							r.Bad("wait:"+FnName(fn), p.At(in), "%s waits for channels while holding %s", FnName(fn), lockNames(may))
						}
					}
				}
			}
		}
	}
	// one lock for all operations of the cache
	type opSite struct {
		fn  *ssa.Function
		in  ssa.Instruction
		op  string
		mut bool
	}
	var ops []opSite
	votes := map[string]int{}
	pk := p.Pkg("cache")
	for _, fn := range p.Funcs {
		if pk == nil || fnPkg(fn) != pk.Pkg || isInit(fn) {
			continue
		}
		for _, c := range CallSites(fn) {
			k := CalleeKey(c.Common())
			if !(c.Common().IsInvoke() && strings.HasSuffix(types.TypeString(c.Common().Value.Type(), nil), "util.Filesystem") || strings.HasPrefix(k, "os.") || strings.HasPrefix(k, "(*os.Root)") || strings.HasPrefix(k, modPath+"/util.")) {
				continue
			}
			name := methodName(k)
			mut, ok := cacheOps[name]
			if !ok {
				continue
			}
			_, isDefer := c.(*ssa.Defer)
			if isDefer && name == "Remove" {
				continue // the worker's own temporary file
			}
			ops = append(ops, opSite{fn, c, name, mut})
			for id := range f.must[c] {
				if strings.HasPrefix(id, "global ") {
					votes[id]++
				}
			}
		}
	}
	best := ""
	var ids []string
	for id := range votes {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	for _, id := range ids {
		if best == "" || votes[id] > votes[best] {
			best = id
		}
	}
	if best == "" {
		r.Undecided("no-lock", "-", "no package-wide lock found that is held during the operations of the cache")
		return
	}
	r.Sample("the lock of the cache is %s", best)
	for _, o := range ops {
		r.Count("cache operations", 1)
		if ownTempOnly(p, o.fn, o.in) {
			continue
		}
		mode, held := f.must[o.in][best]
		switch {
		case !held:
			r.Bad("unlocked:"+FnName(o.fn)+":"+o.op, p.At(o.in), "%s in %s runs on a way without %s: it can happen while another worker stores or removes files", o.op, FnName(o.fn), best)
		case o.mut && mode != "w":
			r.Bad("readlocked:"+FnName(o.fn)+":"+o.op, p.At(o.in), "%s in %s changes the cache with %s only held for reading", o.op, FnName(o.fn), best)
		}
	}
	r.AtLeast("cache operations", 7)
	r.AtLeast("lock operations", 2)
	// the lock is not released in between
	for _, fn := range p.Funcs {
		for _, c := range CallSites(fn) {
			call, isCall := c.(*ssa.Call)
			if !isCall || f.must[c] == nil {
				continue
			}
			releases := false
			if op, id := p.lockOp(c.Common()); (op == "unlock" || op == "runlock") && id == best {
				releases = true
			}
			for _, g := range f.callees(c.Common()) {
				if _, ok := f.rel[g][best]; ok {
					releases = true
				}
			}
			if !releases {
				continue
			}
			again := func(in ssa.Instruction) bool {
				for _, o := range ops {
					if o.in == in {
						return true
					}
				}
				d, ok := in.(*ssa.Call)
				if !ok {
					return false
				}
				if op, id := p.lockOp(d.Common()); (op == "lock" || op == "rlock") && id == best {
					return true
				}
				for _, g := range f.callees(d.Common()) {
					if _, ok := f.acq[g][best]; ok {
						return true
					}
				}
				return false
			}
			if at := reachesInstr(call, again); at != nil {
				r.Bad("gap:"+FnName(fn), p.At(call), "%s releases %s in the middle of a change (it goes on at %s); another worker can change the cache in between", FnName(fn), best, p.At(at))
			}
		}
	}
	// the lock itself is never replaced
	for _, fn := range p.Funcs {
		if isInit(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok && "global "+st.Addr.String() == best {
					r.Bad("replaced:"+FnName(fn), p.At(in), "%s replaces the lock %s", FnName(fn), best)
				}
			}
		}
	}
}

// releasesOnly: a helper that only releases locks for its caller.
func releasesOnly(p *Program, fn *ssa.Function) bool {
	for _, c := range CallSites(fn) {
		if op, _ := p.lockOp(c.Common()); op == "lock" || op == "rlock" {
			return false
		}
	}
	sites, _ := p.sitesOf(fn)
	return len(sites) > 0
}

func ownTempOnly(p *Program, fn *ssa.Function, in ssa.Instruction) bool {
	c, ok := in.(ssa.CallInstruction)
	if !ok || methodName(CalleeKey(c.Common())) != "Remove" {
		return false
	}
	for _, a := range c.Common().Args {
		if call, ok := p.resolve(a).(*ssa.Call); ok && strings.HasSuffix(CalleeKey(&call.Call), ".Name") {
			return true
		}
	}
	return false
}

func lockNames(l lockSet) string {
	var out []string
	for k := range l {
		out = append(out, k)
	}
	sort.Strings(out)
	return strings.Join(out, ", ")
}

// reachesInstr finds an instruction satisfying pred that can be executed after from in the same function.
func reachesInstr(from ssa.Instruction, pred func(ssa.Instruction) bool) ssa.Instruction {
	b := from.Block()
	after := false
	for _, in := range b.Instrs {
		if after && pred(in) {
			return in
		}
		if in == from {
			after = true
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock{}, b.Succs...)
	for len(work) > 0 {
		q := work[0]
		work = work[1:]
		if seen[q] {
			continue
		}
		seen[q] = true
		for _, in := range q.Instrs {
			if pred(in) {
				return in
			}
		}
		work = append(work, q.Succs...)
	}
	return nil
}
