package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C21", Title: "Eviction only removes cache files, stops, and keeps the cache below its limit",
		Rule: "every removal reachable from storing takes the path chosen by a directory walk over the cache folder (temporary folder skipped, regular files only, chosen by size or time of use as configured) or the temporary file; on every path through the eviction loop the compared sum is exactly cache size + new file - replaced file - removed files, a round without a successful removal does not continue, and with eviction enabled every path to publishing leaves this loop through its limit test",
		Run:  runC21})
}

type evictCheck struct {
	p    *Program
	r    *Report
	x    *SCCP
	fn   *ssa.Function // publishes the file
	ren  *ssa.Call
	temp *ssa.Call // creates the temporary file
	dest ssa.Value
	// limit test
	loopFn  *ssa.Function
	test    *ssa.If
	cmp     *ssa.BinOp
	negated bool // the branch tests the negation of the comparison
	sums    map[*ssa.Function]*evictSummary
}

func runC21(p *Program, r *Report) {
	fn := p.Func("cache", "CacheToFile")
	if fn == nil {
		r.Undecided("anchor", "-", "cache.CacheToFile not found")
		return
	}
	cfg := configOf(p, r)
	if cfg == nil {
		r.Undecided("anchor", "-", "the configuration was not found")
		return
	}
	for _, s := range []string{"none", "largest", "lru"} {
		e := &evictCheck{p: p, r: r, sums: map[*ssa.Function]*evictSummary{}}
		e.x = p.RunSCCP([]*ssa.Function{fn}, cfg.comboEnv(combo{"CacheEvictionStrategy": s}))
		e.strategy(fn, s)
		if s == "lru" {
			e.cacheSize()
		}
	}
	r.AtLeast("removals", 4)
	r.AtLeast("selecting walks", 2)
	r.AtLeast("paths through the eviction loop", 2)
}

// strategy checks one value of the eviction strategy.
func (e *evictCheck) strategy(root *ssa.Function, s string) {
	p, r := e.p, e.r
	fns := e.x.Reached(root)
	var removals []*ssa.Call
	var deferred []ssa.CallInstruction
	for _, f := range sortedFns(fns) {
		if f.Signature.Recv() != nil && strings.HasSuffix(f.Signature.Recv().Type().String(), "util.OsFilesystem") {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok || !e.x.Live(in) {
					continue
				}
				k := CalleeKey(c.Common())
				switch {
				case isFs(k, "Rename") || k == "os.Rename":
					call, isCall := in.(*ssa.Call)
					if !isCall || e.ren != nil {
						r.Undecided("publish", p.At(in), "more than one place publishes a file")
						return
					}
					e.fn, e.ren = f, call
				case isFs(k, "CreateTemp") || k == "os.CreateTemp":
					if call, isCall := in.(*ssa.Call); isCall {
						e.temp = call
					}
				case isFs(k, "Remove") || k == "os.Remove":
					if call, isCall := in.(*ssa.Call); isCall {
						removals = append(removals, call)
					} else {
						deferred = append(deferred, c)
					}
				case strings.HasPrefix(k, "os.RemoveAll") || isFs(k, "RemoveAll") || k == "os.Truncate":
					r.Bad("remove-all:"+FnName(f), p.At(in), "storing a file removes more than single files (%s)", k)
				}
			}
		}
	}
	if e.ren == nil || e.temp == nil {
		r.Undecided("anchor", p.Pos(root.Pos()), "storing a file does not create and publish a temporary file")
		return
	}
	e.dest = e.ren.Call.Args[len(e.ren.Call.Args)-1]
	for _, d := range deferred {
		args := d.Common().Args
		r.Count("removals", 1)
		if !e.isTemp(args[len(args)-1]) {
			r.Bad("removes:"+FnName(d.Parent()), p.At(d), "a deferred call removes a file other than the temporary one")
		}
	}
	finders := map[*ssa.Call]bool{}
	for _, c := range removals {
		r.Count("removals", 1)
		a := c.Call.Args[len(c.Call.Args)-1]
		if e.isTemp(a) {
			continue
		}
		if !e.removed(c, finders) {
			continue
		}
		if s == "none" {
			r.Bad("none:"+FnName(c.Parent()), p.At(c), "with eviction disabled a file of the cache is removed")
		}
	}
	for f := range finders {
		e.finder(f, s)
	}
	if s == "none" {
		return
	}
	if len(finders) == 0 {
		r.Bad("no-eviction:"+s, p.Pos(root.Pos()), "with the strategy %q storing a file never removes one", s)
		return
	}
	if !e.limitTest(fns) {
		return
	}
	e.beforePublish(s)
	e.rounds(s)
}

func sortedFns(m map[*ssa.Function]bool) (out []*ssa.Function) {
	for f := range m {
		out = append(out, f)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return
}

// isTemp: the name of the temporary file.
func (e *evictCheck) isTemp(v ssa.Value) bool {
	c, ok := e.p.resolve(v).(*ssa.Call)
	if !ok || c.Call.Method == nil && c.Call.StaticCallee() == nil || !strings.HasSuffix(CalleeKey(&c.Call), ").Name") {
		return false
	}
	recv := c.Call.Value
	if !c.Call.IsInvoke() {
		recv = c.Call.Args[0]
	}
	return e.isTempFile(recv)
}

func (e *evictCheck) isTempFile(v ssa.Value) bool {
	ex, ok := e.p.resolve(v).(*ssa.Extract)
	return ok && ex.Index == 0 && ex.Tuple == ssa.Value(e.temp)
}

// isFinder: a call that gives a path and a size after walking over folders.
func (e *evictCheck) isFinder(c *ssa.Call) (path, size int, ok bool) {
	path, size = -1, -1
	res := c.Call.Signature().Results()
	hasErr := false
	for i := 0; i < res.Len(); i++ {
		b, isB := res.At(i).Type().Underlying().(*types.Basic)
		switch {
		case isErrorType(res.At(i).Type()):
			hasErr = true
		case isB && b.Kind() == types.String && path < 0:
			path = i
		case isB && b.Info()&types.IsInteger != 0 && size < 0:
			size = i
		default:
			return -1, -1, false
		}
	}
	if !hasErr || path < 0 {
		return -1, -1, false
	}
	fs := e.p.Callees(&c.Call)
	if len(fs) == 0 {
		return -1, -1, false
	}
	for _, f := range fs {
		if !e.p.ReachesCall(f, isWalkCall) {
			return -1, -1, false
		}
	}
	return path, size, true
}

func isWalkCall(c *ssa.CallCommon) bool {
	k := CalleeKey(c)
	return strings.HasPrefix(k, "path/filepath.Walk") || k == "io/fs.WalkDir"
}

// chosen follows the removed path to the calls that chose it, through results of repository functions.
func (e *evictCheck) chosen(v ssa.Value, seen map[ssa.Value]bool, out map[*ssa.Call]bool) bool {
	v = e.p.resolve(v)
	if seen[v] {
		return true
	}
	seen[v] = true
	switch u := v.(type) {
	case *ssa.Const:
		// an empty name refers to no file
		return u.Value != nil && u.Value.Kind() == constant.String && constant.StringVal(u.Value) == ""
	case *ssa.Phi:
		for _, x := range u.Edges {
			if !e.chosen(x, seen, out) {
				return false
			}
		}
		return true
	case *ssa.Parameter:
		sites, ok := e.p.sitesOf(u.Parent())
		if !ok || len(sites) == 0 {
			return false
		}
		for _, s := range sites {
			for i, q := range u.Parent().Params {
				if q == u && (i >= len(s.Common().Args) || !e.chosen(s.Common().Args[i], seen, out)) {
					return false
				}
			}
		}
		return true
	case *ssa.Extract:
		c, ok := u.Tuple.(*ssa.Call)
		if !ok {
			return false
		}
		if pi, _, isF := e.isFinder(c); isF && (c.Call.IsInvoke() || e.walksItself(c)) {
			if u.Index != pi {
				return false
			}
			if e.x.Live(c) {
				out[c] = true
			}
			return true
		}
		return e.results(c, u.Index, seen, out)
	case *ssa.Call:
		return e.results(u, 0, seen, out)
	}
	return false
}

// walksItself: the callee chooses the file itself, it does not just call something that chooses.
func (e *evictCheck) walksItself(c *ssa.Call) bool {
	for _, f := range e.p.Callees(&c.Call) {
		for g := range e.p.Reach(f) {
			for _, s := range CallSites(g) {
				if cc, ok := s.(*ssa.Call); ok && cc.Call.IsInvoke() {
					if _, _, isF := e.isFinder(cc); isF {
						return false
					}
				}
			}
		}
	}
	return true
}

func (e *evictCheck) results(c *ssa.Call, i int, seen map[ssa.Value]bool, out map[*ssa.Call]bool) bool {
	fs := e.p.repoCallees(&c.Call)
	if len(fs) == 0 {
		return false
	}
	for _, f := range fs {
		for _, b := range f.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				v := resultOf(ret, i)
				if v == nil || !e.chosen(v, seen, out) {
					return false
				}
			}
		}
	}
	return true
}

// removed checks what a call removes.
func (e *evictCheck) removed(c *ssa.Call, finders map[*ssa.Call]bool) bool {
	mine := map[*ssa.Call]bool{}
	a := c.Call.Args[len(c.Call.Args)-1]
	if !e.chosen(a, map[ssa.Value]bool{}, mine) || len(mine) == 0 {
		e.r.Bad("removes:"+FnName(c.Parent()), e.p.At(c), "storing a file removes %s, which was not chosen by a walk over the cache folder", describe(e.p.resolve(a)))
		return false
	}
	for f := range mine {
		finders[f] = true
	}
	return true
}

// finder checks a call choosing the file to remove and what it calls.
func (e *evictCheck) finder(c *ssa.Call, s string) {
	p, r := e.p, e.r
	r.Count("selecting walks", 1)
	var strs []ssa.Value
	for _, a := range c.Call.Args {
		if b, ok := a.Type().Underlying().(*types.Basic); ok && b.Kind() == types.String {
			strs = append(strs, a)
		}
	}
	if len(strs) != 2 {
		r.Undecided("finder:"+FnName(c.Parent()), p.At(c), "the file to remove is chosen by %s, whose arguments are not a folder and a folder to leave out", CalleeKey(&c.Call))
		return
	}
	root, except := -1, -1
	for i, a := range strs {
		if e.isCacheDir(a) {
			root = i
		}
		if e.isTempDirName(a) {
			except = i
		}
	}
	if root < 0 {
		r.Bad("finder-root:"+FnName(c.Parent()), p.At(c), "the file to remove is searched in %s instead of the cache folder", describe(p.resolve(strs[0])))
		return
	}
	if except < 0 || except == root {
		r.Bad("finder-temp:"+FnName(c.Parent()), p.At(c), "the temporary folder is not left out when searching the file to remove")
		return
	}
	for _, f := range p.Callees(&c.Call) {
		w := &walkCheck{e: e, fn: f, rep: e.r}
		k := 0
		for i, q := range f.Params {
			if b, ok := q.Type().Underlying().(*types.Basic); ok && b.Kind() == types.String {
				if k == root {
					w.root = f.Params[i]
				}
				if k == except {
					w.except = f.Params[i]
				}
				k++
			}
		}
		kind := w.run()
		if kind != "" && s != "none" && kind != s {
			r.Bad("kind:"+s+":"+FnName(f), p.At(c), "with the strategy %q the file to remove is chosen by %s", s, map[string]string{"lru": "its time of use", "largest": "its size"}[kind])
		}
	}
}

func (e *evictCheck) isCacheDir(v ssa.Value) bool {
	v = e.p.resolve(v)
	ld, ok := v.(*ssa.UnOp)
	if !ok || ld.Op != token.MUL {
		return false
	}
	fa, ok := ld.X.(*ssa.FieldAddr)
	if !ok {
		return false
	}
	fv := fieldVar(fa.X.Type(), fa.Field)
	return fv != nil && fv.Name() == "CacheDir" && fv.Pkg() != nil && strings.HasSuffix(fv.Pkg().Path(), "/config")
}

// isTempDirName: the last element of the folder in which the temporary file is created.
func (e *evictCheck) isTempDirName(v ssa.Value) bool {
	c, ok := e.p.resolve(v).(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.String {
		return false
	}
	name := constant.StringVal(c.Value)
	args := e.temp.Call.Args
	found := false
	var look func(v ssa.Value, d int)
	look = func(v ssa.Value, d int) {
		if d > 8 {
			return
		}
		v = e.p.resolve(v)
		call, isCall := v.(*ssa.Call)
		if !isCall {
			return
		}
		if CalleeKey(&call.Call) == "path/filepath.Join" {
			els := variadicArgs(call.Call.Args[0])
			if len(els) >= 2 && e.isCacheDir(els[0]) {
				if k, isK := e.p.resolve(els[len(els)-1]).(*ssa.Const); isK && k.Value != nil && k.Value.Kind() == constant.String && constant.StringVal(k.Value) == name {
					found = true
				}
			}
			return
		}
		for _, f := range e.p.repoCallees(&call.Call) {
			for _, b := range f.Blocks {
				if ret, isR := b.Instrs[len(b.Instrs)-1].(*ssa.Return); isR && len(ret.Results) == 1 {
					look(resultOf(ret, 0), d+1)
				}
			}
		}
	}
	if len(args) >= 2 {
		look(args[len(args)-2], 0)
	}
	return found
}

// ---------------------------------------------------------------------------------------------------------------
// sums of sizes

// A lin is a sum of sizes: how often each of them is added.
type lin map[string]int

func (l lin) add(m lin, f int) lin {
	out := lin{}
	for k, v := range l {
		out[k] = v
	}
	for k, v := range m {
		out[k] += f * v
		if out[k] == 0 {
			delete(out, k)
		}
	}
	return out
}

func (l lin) String() string {
	var ks []string
	for k := range l {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var out []string
	for _, k := range ks {
		n := k
		if i := strings.IndexByte(n, '@'); i > 0 {
			n = n[:i]
		}
		if v, ok := map[string]string{"max": "the limit", "dir": "size of the cache", "new": "size of the new file", "old": "size of the replaced file", "removed": "size of the removed file"}[n]; ok {
			n = v
		}
		switch l[k] {
		case 1:
			out = append(out, "+ "+n)
		case -1:
			out = append(out, "- "+n)
		default:
			out = append(out, fmt.Sprintf("%+d*%s", l[k], n))
		}
	}
	if len(out) == 0 {
		return "0"
	}
	return strings.TrimPrefix(strings.Join(out, " "), "+ ")
}

// limitTest finds the comparison of the sizes with the limit.
func (e *evictCheck) limitTest(fns map[*ssa.Function]bool) bool {
	p, r := e.p, e.r
	for _, f := range sortedFns(fns) {
		for _, b := range f.Blocks {
			br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !ok || !e.x.Live(br) {
				continue
			}
			cond, neg := br.Cond, false
			for {
				n, isN := cond.(*ssa.UnOp)
				if !isN || n.Op != token.NOT {
					break
				}
				cond, neg = n.X, !neg
			}
			cmp, inv := e.limitCmp(cond, 0)
			if cmp == nil {
				continue
			}
			if e.test != nil {
				r.Undecided("limit", p.At(br), "the limit is tested at more than one place (also at %s)", p.At(e.test))
				return false
			}
			e.loopFn, e.test, e.cmp = f, br, cmp
			e.negated = neg != inv
		}
	}
	if e.test == nil {
		r.Bad("no-limit-test", p.Pos(e.fn.Pos()), "no branch compares the size of the cache with the limit")
		return false
	}
	return true
}

// limitCmp: the comparison with the limit a condition consists of; inv if the condition is its negation.
func (e *evictCheck) limitCmp(cond ssa.Value, d int) (*ssa.BinOp, bool) {
	switch u := cond.(type) {
	case *ssa.BinOp:
		switch u.Op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			if e.mentionsLimit(u.X, 0) || e.mentionsLimit(u.Y, 0) {
				return u, false
			}
		}
	case *ssa.UnOp:
		if u.Op == token.NOT {
			c, inv := e.limitCmp(u.X, d)
			return c, !inv
		}
	case *ssa.Call:
		f := u.Call.StaticCallee()
		if f == nil {
			if mc, ok := e.p.resolve(u.Call.Value).(*ssa.MakeClosure); ok {
				f = mc.Fn.(*ssa.Function)
			}
		}
		if f != nil && d < 3 && e.p.IsRepoFn(f) && len(f.Blocks) == 1 {
			if ret, ok := f.Blocks[0].Instrs[len(f.Blocks[0].Instrs)-1].(*ssa.Return); ok && len(ret.Results) == 1 {
				return e.limitCmp(ret.Results[0], d+1)
			}
		}
	}
	return nil, false
}

func (e *evictCheck) mentionsLimit(v ssa.Value, d int) bool {
	if d > 6 {
		return false
	}
	switch u := v.(type) {
	case *ssa.BinOp:
		return e.mentionsLimit(u.X, d+1) || e.mentionsLimit(u.Y, d+1)
	case *ssa.Convert:
		return e.mentionsLimit(u.X, d+1)
	case *ssa.UnOp:
		if u.Op == token.MUL {
			if fa, ok := u.X.(*ssa.FieldAddr); ok {
				fv := fieldVar(fa.X.Type(), fa.Field)
				return fv != nil && fv.Name() == "CacheMaxSize"
			}
			if s := e.p.onlyStore(e.p.resolve(u.X)); s != nil {
				return e.mentionsLimit(s, d+1)
			}
		}
	case *ssa.Parameter:
		if a := e.p.argOf(u); a != nil {
			return e.mentionsLimit(a, d+1)
		}
	case *ssa.Phi:
		for _, x := range u.Edges {
			if x != v && e.mentionsLimit(x, d+2) {
				return true
			}
		}
	}
	return false
}

// A sumEnv says where sizes are read: along a path, with the values of the loop's variables and arguments of a call.
type sumEnv struct {
	w     *cfgPath
	state map[ssa.Value]lin
	args  map[ssa.Value]lin
	depth int
}

// sum evaluates a size; several results if functions called have several ways to compute them.
func (e *evictCheck) sum(v ssa.Value, i int, env *sumEnv) []lin {
	if env.w != nil {
		v, i = env.w.val(v, i)
	}
	if l, ok := env.args[v]; ok {
		return []lin{l}
	}
	opaque := []lin{{"?" + describe(v) + fmt.Sprintf("@%p", v): 1}}
	if env.depth > 6 {
		return opaque
	}
	switch u := v.(type) {
	case *ssa.Const:
		n, ok := constInt(u)
		if !ok {
			return opaque
		}
		if n == 0 {
			return []lin{{}}
		}
		return []lin{{"1": int(n)}}
	case *ssa.Convert:
		return e.sum(u.X, i, env)
	case *ssa.BinOp:
		f := 1
		switch u.Op {
		case token.ADD:
		case token.SUB:
			f = -1
		default:
			return opaque
		}
		var out []lin
		for _, a := range e.sum(u.X, i, env) {
			for _, b := range e.sum(u.Y, i, env) {
				out = append(out, a.add(b, f))
			}
		}
		return out
	case *ssa.UnOp:
		if u.Op == token.SUB {
			var out []lin
			for _, a := range e.sum(u.X, i, env) {
				out = append(out, lin{}.add(a, -1))
			}
			return out
		}
		if u.Op == token.MUL {
			if e.mentionsLimit(u, 0) {
				return []lin{{"max": 1}}
			}
			if x := e.p.resolve(u); x != v {
				return e.sum(x, i, env)
			}
		}
	case *ssa.Phi:
		if l, ok := env.state[v]; ok {
			return []lin{l}
		}
		if x := e.p.resolve(u); x != v {
			return e.sum(x, i, env)
		}
	case *ssa.Parameter, *ssa.FreeVar:
		if x := e.p.resolve(v); x != v {
			return e.sumAt(x, env)
		}
	case *ssa.Extract:
		if c, ok := u.Tuple.(*ssa.Call); ok {
			return e.sumOfCall(c, u.Index, i, env, opaque)
		}
	case *ssa.Call:
		return e.sumOfCall(u, 0, i, env, opaque)
	}
	return opaque
}

// sumAt evaluates a value of another function: phis that path-dependence would be needed for are opaque there, unless
// all ways agree.
func (e *evictCheck) sumAt(v ssa.Value, env *sumEnv) []lin {
	in, ok := v.(ssa.Instruction)
	n := &sumEnv{state: env.state, args: env.args, depth: env.depth + 1}
	if !ok {
		return e.sum(v, 0, n)
	}
	f := in.Parent()
	var out []lin
	have := map[string]bool{}
	e.p.eachPath(f.Blocks[0], -1, e.x.succs, func(b *ssa.BasicBlock) bool { return b == in.Block() }, func(w *cfgPath) {
		if !w.feasible() {
			return
		}
		n.w = w
		for _, l := range e.sum(v, len(w.blocks)-1, n) {
			if !have[l.String()] {
				have[l.String()] = true
				out = append(out, l)
			}
		}
	})
	if len(out) == 0 {
		n.w = nil
		return e.sum(v, 0, n)
	}
	return out
}

func (e *evictCheck) sumOfCall(c *ssa.Call, idx, i int, env *sumEnv, opaque []lin) []lin {
	k := CalleeKey(&c.Call)
	arg := func(n int) ssa.Value { return c.Call.Args[len(c.Call.Args)-n] }
	switch {
	case isFs(k, "DirSizeInBytes"):
		if e.isCacheDir(arg(1)) {
			return []lin{{fmt.Sprintf("dir@%p", c): 1}}
		}
		return opaque
	case isFs(k, "GetSizeInBytes"):
		if e.isTemp(arg(1)) {
			return []lin{{"new": 1}}
		}
		if e.isDest(arg(1)) {
			return []lin{{"old": 1}}
		}
		return opaque
	case k == "io.Copy":
		if e.isTempFile(c.Call.Args[0]) {
			return []lin{{"new": 1}}
		}
		return opaque
	case strings.HasSuffix(k, ").Size"):
		recv := c.Call.Value
		if !c.Call.IsInvoke() {
			return opaque
		}
		if env.w != nil {
			recv, i = env.w.val(recv, i)
		}
		if ex, ok := e.p.resolve(recv).(*ssa.Extract); ok && ex.Index == 0 {
			if sc, ok := ex.Tuple.(*ssa.Call); ok {
				sk := CalleeKey(&sc.Call)
				switch {
				case strings.HasSuffix(sk, ").Stat") && sc.Call.IsInvoke() && len(sc.Call.Args) == 0 && e.isTempFile(sc.Call.Value):
					e.measured(sc)
					return []lin{{"new": 1}}
				case isFs(sk, "Stat") && e.isTemp(sc.Call.Args[len(sc.Call.Args)-1]):
					e.measured(sc)
					return []lin{{"new": 1}}
				case isFs(sk, "Stat") && e.isDest(sc.Call.Args[len(sc.Call.Args)-1]):
					return []lin{{"old": 1}}
				}
			}
		}
		return opaque
	}
	if _, si, ok := e.isFinder(c); ok && (c.Call.IsInvoke() || e.walksItself(c)) && idx == si {
		return []lin{{fmt.Sprintf("removed@%p", c): 1}}
	}
	// a function of the repository: the results of its successful paths
	f := c.Call.StaticCallee()
	if f == nil || !e.p.IsRepoFn(f) || len(f.Blocks) == 0 || env.depth > 4 {
		return opaque
	}
	args := map[ssa.Value]lin{}
	for n, q := range f.Params {
		if n < len(c.Call.Args) {
			if b, ok := q.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				ls := e.sum(c.Call.Args[n], i, env)
				if len(ls) != 1 {
					return opaque
				}
				args[q] = ls[0]
			}
		}
	}
	var out []lin
	have := map[string]bool{}
	for _, w := range e.summary(f).ok {
		ret := w.last().Instrs[len(w.last().Instrs)-1].(*ssa.Return)
		v := resultOf(ret, idx)
		if v == nil {
			return opaque
		}
		for _, l := range e.sum(v, len(w.blocks)-1, &sumEnv{w: w, args: args, depth: env.depth + 1}) {
			if !have[l.String()] {
				have[l.String()] = true
				out = append(out, l)
			}
		}
	}
	if len(out) == 0 {
		return opaque
	}
	return out
}

// measured: the size of the temporary file is read when its content is complete.
func (e *evictCheck) measured(stat *ssa.Call) {
	for _, f := range []*ssa.Function{e.temp.Parent()} {
		for _, s := range CallSites(f) {
			c, ok := s.(*ssa.Call)
			if !ok || !strings.HasPrefix(CalleeKey(&c.Call), "io.Copy") || !e.isTempFile(c.Call.Args[0]) {
				continue
			}
			if stat.Parent() == f && !precedes(c, stat) {
				e.r.Bad("size-too-early", e.p.At(stat), "the size of the new file is determined before its content is written")
			}
		}
	}
}

// precedes: a is executed before b whenever b is.
func precedes(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		for _, in := range a.Block().Instrs {
			if in == a {
				return true
			}
			if in == b {
				return false
			}
		}
	}
	return a.Block().Dominates(b.Block())
}

// isDest: the path the file is published at.
func (e *evictCheck) isDest(v ssa.Value) bool {
	return e.destKey(v, 0) == e.destKey(e.dest, 0)
}

// ---------------------------------------------------------------------------------------------------------------
// paths

// A evictSummary lists the paths on which a function succeeds.
type evictSummary struct {
	ok       []*cfgPath
	complete bool
}

func (e *evictCheck) summary(f *ssa.Function) *evictSummary {
	if s := e.sums[f]; s != nil {
		return s
	}
	s := &evictSummary{}
	e.sums[f] = s
	isRet := func(b *ssa.BasicBlock) bool {
		if b == f.Recover {
			return false
		}
		_, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		return ok
	}
	s.complete = e.p.eachPath(f.Blocks[0], -1, e.x.succs, isRet, func(w *cfgPath) {
		if w.feasible() && !e.failing(w) {
			s.ok = append(s.ok, w)
		}
	})
	return s
}

// failing: the path returns an error for sure.
func (e *evictCheck) failing(w *cfgPath) bool {
	ret := w.last().Instrs[len(w.last().Instrs)-1].(*ssa.Return)
	for i, v := range ret.Results {
		if isErrorType(v.Type()) {
			x := resultOf(ret, i)
			if x != nil && w.isNil(x, len(w.blocks)-1) == -1 {
				return true
			}
		}
	}
	return false
}

// returnsError: the path returns this error (wrapped or not).
func (e *evictCheck) returnsError(w *cfgPath, err ssa.Value) bool {
	ret, ok := w.last().Instrs[len(w.last().Instrs)-1].(*ssa.Return)
	if !ok {
		return false
	}
	for i, v := range ret.Results {
		if isErrorType(v.Type()) {
			if x := resultOf(ret, i); x != nil && w.rootError(x, len(w.blocks)-1) == err {
				return true
			}
		}
	}
	return false
}

// mustSucceed: whatever happened, on this path the error of c is known to be nil or is returned.
func (e *evictCheck) mustSucceed(w *cfgPath, c *ssa.Call) bool {
	err := errorOf(c)
	if err == nil {
		return !hasErrorResult(&c.Call)
	}
	return w.isNil(err, len(w.blocks)-1) == 1 || e.returnsError(w, err)
}

// removalsOn lists the calls on the path that remove a file for sure, with the sizes that thereby leave the cache.
// A removal whose failure is ignored does not count.
func (e *evictCheck) removalsOn(w *cfgPath, depth int) (out []string, ignored ssa.Instruction) {
	w.calls(func(c *ssa.Call, at int) {
		k := CalleeKey(&c.Call)
		if isFs(k, "Remove") || k == "os.Remove" {
			a := c.Call.Args[len(c.Call.Args)-1]
			if e.isTemp(a) {
				return
			}
			if !e.mustSucceed(w, c) {
				ignored = c
				return
			}
			v, _ := w.val(a, at)
			m := map[*ssa.Call]bool{}
			e.chosen(v, map[ssa.Value]bool{}, m)
			var ks []string
			for f := range m {
				ks = append(ks, fmt.Sprintf("removed@%p", f))
			}
			if len(ks) != 1 {
				ks = []string{"several"}
			}
			out = append(out, ks[0])
			return
		}
		f := c.Call.StaticCallee()
		if f == nil || !e.p.IsRepoFn(f) || len(f.Blocks) == 0 || depth > 4 {
			return
		}
		if !e.p.ReachesCall(f, func(cc *ssa.CallCommon) bool { return isFs(CalleeKey(cc), "Remove") || CalleeKey(cc) == "os.Remove" }) {
			return
		}
		s := e.summary(f)
		var common []string
		for n, q := range s.ok {
			rs, _ := e.removalsOn(q, depth+1)
			if n == 0 {
				common = rs
			} else if strings.Join(rs, " ") != strings.Join(common, " ") {
				common = nil
				break
			}
		}
		if len(common) == 0 {
			return
		}
		if !e.mustSucceed(w, c) {
			ignored = c
			return
		}
		out = append(out, common...)
	})
	return
}

// freshOld: what the path knows about the file to be replaced after its last removal: 1 it exists, -1 it doesn't,
// 0 not asked.
func (e *evictCheck) freshOld(w *cfgPath) int {
	res := 0
	w.calls(func(c *ssa.Call, at int) {
		k := CalleeKey(&c.Call)
		if isFs(k, "Remove") || k == "os.Remove" {
			res = 0
		}
		if f := c.Call.StaticCallee(); f != nil && e.p.IsRepoFn(f) && e.p.ReachesCall(f, func(cc *ssa.CallCommon) bool { return isFs(CalleeKey(cc), "Remove") }) {
			res = 0
		}
		if (isFs(k, "GetSizeInBytes") || isFs(k, "Stat") || k == "os.Stat") && e.isDest(c.Call.Args[len(c.Call.Args)-1]) {
			if err := errorOf(c); err != nil {
				res = w.isNil(err, len(w.blocks)-1)
			}
		}
	})
	return res
}

// compared is the sum that is compared with zero (the limit subtracted).
func (e *evictCheck) compared(w *cfgPath, state map[ssa.Value]lin) (bool, []lin) {
	i := len(w.blocks) - 1
	env := &sumEnv{w: w, state: state}
	if e.cmp.Parent() != e.loopFn {
		// in a function called by the test: its arguments are evaluated at the test
		call := e.cmpCall()
		if call == nil {
			return false, nil
		}
		env.args = map[ssa.Value]lin{}
		for n, q := range e.cmp.Parent().Params {
			if n < len(call.Call.Args) {
				ls := e.sum(call.Call.Args[n], i, env)
				if len(ls) != 1 {
					return false, nil
				}
				env.args[q] = ls[0]
			}
		}
	}
	var out []lin
	for _, a := range e.sum(e.cmp.X, i, env) {
		for _, b := range e.sum(e.cmp.Y, i, env) {
			d := a.add(b, -1) // x - y
			if d["max"] > 0 {
				d = lin{}.add(d, -1)
			}
			out = append(out, d)
		}
	}
	return true, out
}

func (e *evictCheck) cmpCall() *ssa.Call {
	c := e.test.Cond
	for {
		if n, ok := c.(*ssa.UnOp); ok && n.Op == token.NOT {
			c = n.X
			continue
		}
		break
	}
	call, _ := c.(*ssa.Call)
	return call
}

// direction: whether the branch is taken when the limit is exceeded.
func (e *evictCheck) direction() (whenTrue, ok bool) {
	n := func(v ssa.Value) int {
		s := 0
		for _, l := range e.sum(v, 0, &sumEnv{}) {
			s += l["max"]
		}
		return s
	}
	x, y := n(e.cmp.X), n(e.cmp.Y)
	if x == 0 && y == 0 {
		// the limit is passed to where the comparison is
		if e.mentionsLimit(e.cmp.X, 0) {
			x = 1
		} else {
			y = 1
		}
	}
	if x-y == 0 {
		return false, false
	}
	gt := e.cmp.Op == token.GTR || e.cmp.Op == token.GEQ
	res := gt == (x-y < 0)
	if e.negated {
		res = !res
	}
	return res, true
}

// rounds follows all paths to the limit test: from the start of the function and around the loop.
func (e *evictCheck) rounds(s string) {
	p, r := e.p, e.r
	fn, tb := e.loopFn, e.test.Block()
	exceededWhenTrue, known := e.direction()
	if !known {
		r.Undecided("sum:"+FnName(fn), p.At(e.test), "the compared sizes could not be determined")
		return
	}
	over := tb.Succs[0]
	if !exceededWhenTrue {
		over = tb.Succs[1]
	}
	goal := func(b *ssa.BasicBlock) bool { return b == tb }
	type st struct {
		vals map[ssa.Value]lin
		key  string
		old  int // 1: the sum subtracts the file to be replaced
	}
	var phis []*ssa.Phi
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if ph, ok := in.(*ssa.Phi); ok {
				if bt, ok := ph.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsInteger != 0 {
					phis = append(phis, ph)
				}
			}
		}
	}
	norm := func(l lin) lin {
		out := lin{}
		for k, v := range l {
			if strings.HasPrefix(k, "dir@") {
				k = "dir"
			}
			if strings.HasPrefix(k, "removed@") {
				continue
			}
			out[k] += v
		}
		return out
	}
	after := func(w *cfgPath, old map[ssa.Value]lin) st {
		n := st{vals: map[ssa.Value]lin{}}
		for _, ph := range phis {
			at := w.at(ph.Block(), len(w.blocks)-1)
			if at <= 0 {
				if l, ok := old[ph]; ok {
					n.vals[ph] = l
				}
				continue
			}
			ls := e.sum(ph, len(w.blocks)-1, &sumEnv{w: w, state: old})
			if len(ls) == 1 {
				n.vals[ph] = norm(ls[0])
			}
		}
		var ks []string
		for _, ph := range phis {
			if l, ok := n.vals[ph]; ok {
				ks = append(ks, ph.Name()+"="+l.String())
			}
		}
		n.key = strings.Join(ks, ";")
		return n
	}
	newFactor := e.newFactor()
	if newFactor < 0 {
		return
	}
	bad := false
	check := func(w *cfgPath, old map[ssa.Value]lin, removed []string, first bool) int {
		r.Count("paths through the eviction loop", 1)
		ok, ls := e.compared(w, old)
		if !ok || len(ls) == 0 {
			r.Undecided("sum:"+FnName(fn), p.At(e.test), "the compared sizes could not be determined")
			bad = true
			return 0
		}
		fresh := e.freshOld(w)
		res := 0
		for _, l := range ls {
			l := l
			show := l.String()
			total := norm(l)
			exact := true
			for k := range total {
				switch {
				case k == "max" || k == "dir" || k == "new" || k == "old":
				case k == "1" && total[k] >= -1 && total[k] <= 1:
				default:
					exact = false
				}
			}
			var want []string
			got := map[string]int{}
			dirs := 0
			for k, v := range l {
				if strings.HasPrefix(k, "removed@") {
					got[k] += v
				}
				if strings.HasPrefix(k, "dir@") {
					dirs++
				}
			}
			for _, k := range removed {
				want = append(want, k)
			}
			remeasured := !first && dirs > 0 && e.dirOnPath(w)
			okRemoved := true
			if remeasured {
				okRemoved = len(got) == 0
			} else {
				n := 0
				for _, k := range want {
					if got[k] != -1 {
						okRemoved = false
					}
					n++
				}
				okRemoved = okRemoved && n == len(got)
			}
			switch {
			case !exact:
				bad = true
				r.Undecided("sum:"+FnName(fn), p.At(e.test), "the limit is compared with %s, which contains values other than the known sizes", show)
			case total["max"] != -1 || total["dir"] != 1 || total["new"] != newFactor || total["old"] > 0 || total["old"] < -1:
				bad = true
				r.Bad("sum:"+FnName(fn), p.At(e.test), "the limit test compares \"%s\" with 0 instead of size of the cache + size of the new file (the temporary file counted once) - size of the replaced file - limit", show)
			case !okRemoved:
				bad = true
				r.Bad("sum-removed:"+FnName(fn), p.At(e.test), "after removing a file the limit test does not subtract exactly the size of this file (\"%s\")", show)
			case fresh == -1 && total["old"] != 0:
				bad = true
				r.Bad("sum-old:"+FnName(fn), p.At(e.test), "the size of the file to be replaced is still subtracted although it does not exist (any more)")
			case first && fresh == 1 && total["old"] == 0:
				bad = true
				r.Bad("sum-old:"+FnName(fn), p.At(e.test), "the size of the file that is replaced is not regarded, so that files are removed although the limit would not be exceeded")
			case fresh == 0 && total["old"] != 0:
				bad = true
				r.Bad("sum-stale:"+FnName(fn), p.At(e.test), "the size of the file to be replaced is subtracted without looking whether it still exists after a file was removed")
			}
			if total["old"] != 0 {
				res = 1
			}
		}
		return res
	}
	var work []st
	seen := map[string]bool{}
	push := func(n st) {
		k := fmt.Sprint(n.key, n.old)
		if !seen[k] {
			seen[k] = true
			work = append(work, n)
		}
	}
	first := 0
	if !p.eachPath(fn.Blocks[0], -1, e.x.succs, goal, func(w *cfgPath) {
		if !w.feasible() || bad {
			return
		}
		first++
		rs, _ := e.removalsOn(w, 0)
		if len(rs) > 0 {
			bad = true
			r.Bad("early:"+FnName(fn), p.At(e.test), "a file is removed before the limit is tested")
			return
		}
		n := after(w, nil)
		n.old = check(w, nil, nil, true)
		push(n)
	}) {
		r.Undecided("paths:"+FnName(fn), p.Pos(fn.Pos()), "too many paths")
		return
	}
	if first == 0 && fn.Blocks[0] != tb {
		r.Undecided("paths:"+FnName(fn), p.At(e.test), "no path reaches the limit test")
		return
	}
	around := 0
	for len(work) > 0 && !bad {
		cur := work[len(work)-1]
		work = work[:len(work)-1]
		var only = func(b *ssa.BasicBlock) []*ssa.BasicBlock {
			ss := e.x.succs(b)
			if b == tb {
				var out []*ssa.BasicBlock
				for _, x := range ss {
					if x == over {
						out = append(out, x)
					}
				}
				return out
			}
			return ss
		}
		p.eachPath(tb, len(tb.Instrs)-1, only, goal, func(w *cfgPath) {
			if !w.feasible() || bad {
				return
			}
			around++
			rs, ign := e.removalsOn(w, 0)
			if ign != nil {
				bad = true
				r.Bad("goes-on:"+FnName(fn), p.At(ign), "the limit is tested again although removing a file failed, which never ends")
				return
			}
			if len(rs) == 0 {
				bad = true
				r.Bad("no-progress:"+FnName(fn), p.At(e.test), "the limit is tested again without having removed a file, which never ends")
				return
			}
			if len(rs) > 1 {
				bad = true
				r.Bad("two:"+FnName(fn), p.At(e.test), "more than one file is removed before the limit is tested again")
				return
			}
			n := after(w, cur.vals)
			n.old = check(w, cur.vals, rs, false)
			if cur.old == 1 && n.old == 0 && e.freshOld(w) != -1 && !bad {
				bad = true
				r.Bad("sum-old:"+FnName(fn), p.At(e.test), "after removing a file the replaced file is no longer regarded, so that files are removed although the limit would not be exceeded")
			}
			push(n)
		})
		// leaving while the limit is exceeded
		isRet := func(b *ssa.BasicBlock) bool {
			_, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			return ok && b != fn.Recover || b == tb || b == e.ren.Block()
		}
		p.eachPath(tb, len(tb.Instrs)-1, only, isRet, func(w *cfgPath) {
			if bad || w.last() == tb || !w.feasible() {
				return
			}
			if _, isRet := w.last().Instrs[len(w.last().Instrs)-1].(*ssa.Return); isRet && w.last() != e.ren.Block() {
				if e.failing(w) {
					return
				}
			}
			bad = true
			r.Bad("leaves:"+FnName(fn), p.At(w.last().Instrs[len(w.last().Instrs)-1]), "eviction ends successfully although the limit is still exceeded")
		})
	}
	if around == 0 && !bad {
		r.Bad("once:"+FnName(fn), p.At(e.test), "the limit is not tested again after a file was removed, so that the cache may stay above it")
	}
	if !bad {
		r.Sample("strategy %s: %d paths to the first limit test in %s, %d around its loop", s, first, FnName(fn), around)
	}
}

// dirOnPath: the size of the cache is determined on the path.
func (e *evictCheck) dirOnPath(w *cfgPath) bool {
	res := false
	w.calls(func(c *ssa.Call, at int) {
		if isFs(CalleeKey(&c.Call), "DirSizeInBytes") {
			res = true
		}
	})
	return res
}

// newFactor: how often the new file has to be added. If the size of the cache is determined while the temporary file
// exists, this file is part of it already.
func (e *evictCheck) newFactor() int {
	f := e.temp.Parent()
	res := -1
	for g := range e.x.Reached(f) {
		for _, s := range CallSites(g) {
			if !isFs(CalleeKey(s.Common()), "DirSizeInBytes") || !e.x.Live(s.(ssa.Instruction)) {
				continue
			}
			n := -1
			for _, at := range e.lift(s, f, 0) {
				k := 1
				if precedes(e.temp, at) {
					k = 0
					for _, cs := range CallSites(f) {
						if c, ok := cs.(*ssa.Call); ok && strings.HasPrefix(CalleeKey(&c.Call), "io.Copy") && e.isTempFile(c.Call.Args[0]) && !precedes(c, at) {
							e.r.Undecided("dir-size", e.p.At(at), "the size of the cache is determined while the temporary file is written")
							return -1
						}
					}
				}
				if n >= 0 && n != k {
					n = -2
				} else {
					n = k
				}
			}
			if n < 0 || res >= 0 && res != n {
				e.r.Undecided("dir-size", e.p.At(s.(ssa.Instruction)), "the size of the cache is determined with and without the temporary file")
				return -1
			}
			res = n
		}
	}
	if res < 0 {
		e.r.Bad("dir-size", e.p.Pos(f.Pos()), "the size of the cache is not determined")
	}
	return res
}

// lift gives the calls in f through which an instruction of another function is reached.
func (e *evictCheck) lift(in ssa.Instruction, f *ssa.Function, d int) (out []ssa.Instruction) {
	if in.Parent() == f {
		return []ssa.Instruction{in}
	}
	if d > 5 {
		return nil
	}
	sites, _ := e.p.sitesOf(in.Parent())
	for _, s := range sites {
		out = append(out, e.lift(s, f, d+1)...)
	}
	return
}

// beforePublish: with eviction enabled each path to publishing the file passes the eviction, which succeeded.
func (e *evictCheck) beforePublish(s string) {
	p, r := e.p, e.r
	ats := e.lift(e.test, e.fn, 0)
	if len(ats) == 0 {
		r.Undecided("before-publish:"+s, p.At(e.ren), "the limit test is not called by %s", FnName(e.fn))
		return
	}
	n := 0
	reported := false
	ok := p.eachPath(e.fn.Blocks[0], -1, e.x.succs, func(b *ssa.BasicBlock) bool { return b == e.ren.Block() }, func(w *cfgPath) {
		if !w.feasible() || reported {
			return
		}
		n++
		passed := false
		for _, at := range ats {
			i := w.at(at.Block(), len(w.blocks)-1)
			if i < 0 || at.Block() == e.ren.Block() && !precedes(at, e.ren) {
				continue
			}
			passed = true
			if c, isCall := at.(*ssa.Call); isCall && hasErrorResult(&c.Call) {
				err := errorOf(c)
				if err == nil || w.isNil(err, len(w.blocks)-1) != 1 {
					reported = true
					r.Bad("failed-eviction:"+s, p.At(c), "the file is published although making room for it may have failed")
				}
			}
		}
		if !passed {
			reported = true
			r.Bad("before-publish:"+s, p.At(e.ren), "with the strategy %q the file can be published without testing the limit", s)
		}
	})
	if !ok {
		r.Undecided("before-publish:"+s, p.At(e.ren), "too many paths")
	}
	if n == 0 && !reported {
		r.Undecided("before-publish:"+s, p.At(e.ren), "no path publishes the file")
	}
	// the function with the test: each successful path passes the test
	if e.loopFn != e.fn {
		f := e.loopFn
		for {
			for _, w := range e.summary(f).ok {
				pass := false
				for _, at := range e.lift(e.test, f, 0) {
					pass = pass || w.at(at.Block(), len(w.blocks)-1) >= 0
				}
				if !pass && !reported {
					reported = true
					r.Bad("skips:"+FnName(f), p.At(w.last().Instrs[len(w.last().Instrs)-1]), "with the strategy %q the eviction can end successfully without testing the limit", s)
				}
			}
			sites, _ := p.sitesOf(f)
			if len(sites) != 1 || sites[0].Parent() == e.fn {
				break
			}
			f = sites[0].Parent()
		}
	}
}

// ---------------------------------------------------------------------------------------------------------------
// choosing the file

// A walkCheck checks a function that chooses a file by walking over a folder.
type walkCheck struct {
	e            *evictCheck
	rep          *Report
	fn           *ssa.Function
	root, except ssa.Value
	sub          map[ssa.Value]ssa.Value // arguments of the calls leading to the walk
	cb           *ssa.Function
	path, info   ssa.Value
	cbErr        ssa.Value
	bestPath     *ssa.Alloc
	best         map[*ssa.Alloc]string // what is remembered of the best file: "info", "size", "time"
	kind         string
}

func (w *walkCheck) bad(key, at, format string, args ...any) {
	w.rep.Bad(key+":"+FnName(w.fn), at, format, args...)
}

// res resolves a value, taking arguments from the calls followed so far.
func (w *walkCheck) res(v ssa.Value) ssa.Value {
	for n := 0; n < 20; n++ {
		if a, ok := w.sub[v]; ok {
			v = a
			continue
		}
		switch u := v.(type) {
		case *ssa.ChangeType:
			v = u.X
			continue
		case *ssa.FreeVar:
			if b := w.e.p.binding(u); b != nil {
				v = b
				continue
			}
		case *ssa.UnOp:
			if u.Op == token.MUL {
				if a := w.res(u.X); a != nil {
					if al, ok := a.(*ssa.Alloc); ok && (al == w.bestPath || w.best[al] != "") {
						return v
					}
					if s := w.e.p.onlyStore(a); s != nil {
						v = s
						continue
					}
				}
			}
		}
		return v
	}
	return v
}

func (w *walkCheck) cell(v ssa.Value) *ssa.Alloc {
	a, _ := w.res(v).(*ssa.Alloc)
	return a
}

func (w *walkCheck) run() string {
	p := w.e.p
	w.sub = map[ssa.Value]ssa.Value{}
	w.best = map[*ssa.Alloc]string{}
	fn := w.fn
	var walk *ssa.Call
	for d := 0; d < 4; d++ {
		walk = nil
		var into *ssa.Call
		for _, s := range CallSites(fn) {
			c, ok := s.(*ssa.Call)
			if !ok {
				continue
			}
			if isWalkCall(&c.Call) {
				walk = c
			} else if f := c.Call.StaticCallee(); f != nil && p.IsRepoFn(f) && p.ReachesCall(f, isWalkCall) {
				into = c
			}
		}
		if walk != nil || into == nil {
			break
		}
		// the results have to be handed on
		f := into.Call.StaticCallee()
		for _, b := range fn.Blocks {
			ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok {
				continue
			}
			for i := range ret.Results {
				if ex, ok := ret.Results[i].(*ssa.Extract); !ok || ex.Tuple != ssa.Value(into) || ex.Index != i {
					w.rep.Undecided("walk-results:"+FnName(fn), p.At(ret), "the results of %s are not simply handed on", FnName(f))
					return ""
				}
			}
		}
		for i, q := range f.Params {
			w.sub[q] = into.Call.Args[i]
		}
		fn = f
	}
	if walk == nil {
		w.rep.Undecided("walk:"+FnName(w.fn), p.Pos(w.fn.Pos()), "%s does not walk over a folder", FnName(w.fn))
		return ""
	}
	key := CalleeKey(&walk.Call)
	if key != "path/filepath.Walk" && key != "path/filepath.WalkDir" {
		w.rep.Undecided("walk:"+FnName(w.fn), p.At(walk), "unknown way of walking over a folder: %s", key)
		return ""
	}
	if w.res(walk.Call.Args[0]) != w.root {
		w.bad("walk-root", p.At(walk), "the walk does not start at the given folder")
		return ""
	}
	switch c := w.res(walk.Call.Args[1]).(type) {
	case *ssa.MakeClosure:
		w.cb = c.Fn.(*ssa.Function)
	case *ssa.Function:
		w.cb = c
	}
	if w.cb == nil || len(w.cb.Params) != 3 {
		w.rep.Undecided("walk:"+FnName(w.fn), p.At(walk), "what the walk does with each file is not known")
		return ""
	}
	w.path, w.info, w.cbErr = w.cb.Params[0], w.cb.Params[1], w.cb.Params[2]
	if !w.results(fn, walk) {
		return ""
	}
	w.callback()
	return w.kind
}

// results checks the returned path and size and finds the variables remembering the best file.
func (w *walkCheck) results(fn *ssa.Function, walk *ssa.Call) bool {
	p := w.e.p
	isRet := func(b *ssa.BasicBlock) bool {
		_, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		return ok && b != fn.Recover
	}
	good := true
	fail := func(at ssa.Instruction, key, format string, args ...any) {
		if good {
			w.bad(key, p.At(at), format, args...)
		}
		good = false
	}
	type sized struct {
		at  ssa.Instruction
		val ssa.Value
		i   int
		w   *cfgPath
	}
	var sizes []sized
	n := 0
	p.eachPath(fn.Blocks[0], -1, allSuccs, isRet, func(c *cfgPath) {
		if !good || !c.feasible() {
			return
		}
		last := len(c.blocks) - 1
		ret := c.last().Instrs[len(c.last().Instrs)-1].(*ssa.Return)
		walked := c.at(walk.Block(), last) >= 0
		ei, pi, si := -1, -1, -1
		for i, v := range ret.Results {
			b, isB := v.Type().Underlying().(*types.Basic)
			switch {
			case isErrorType(v.Type()):
				ei = i
			case isB && b.Kind() == types.String:
				pi = i
			case isB:
				si = i
			}
		}
		// using the best file without knowing that there is one
		c.calls(func(call *ssa.Call, at int) {
			if !call.Call.IsInvoke() {
				return
			}
			ld, ok := call.Call.Value.(*ssa.UnOp)
			if !ok || ld.Op != token.MUL {
				return
			}
			al := w.cell(ld.X)
			if al == nil || !types.IsInterface(al.Type().Underlying().(*types.Pointer).Elem()) {
				return
			}
			if !w.knownNonNil(c, al) {
				fail(call, "no-file", "when there is no file to choose, this ends the program (nothing was found, but it is used)")
			}
		})
		if !good {
			return
		}
		st := c.isNil(resultOf(ret, ei), last)
		if st == -1 {
			return // failed
		}
		if walked && c.isNil(errorOf(walk), last) != 1 && !w.e.returnsError(c, errorOf(walk)) {
			fail(ret, "walk-error", "a failed walk is not reported")
			return
		}
		n++
		pv, _ := c.val(resultOf(ret, pi), last)
		if k, ok := pv.(*ssa.Const); ok {
			if k.Value == nil || constant.StringVal(k.Value) != "" {
				fail(ret, "path", "a fixed path is returned as the file to remove")
			}
			return
		}
		ld, ok := pv.(*ssa.UnOp)
		var al *ssa.Alloc
		if ok && ld.Op == token.MUL {
			al = w.cell(ld.X)
		}
		if al == nil || w.bestPath != nil && w.bestPath != al {
			fail(ret, "path", "the returned path is not the one found by the walk")
			return
		}
		w.bestPath = al
		if si >= 0 {
			v, i := c.val(resultOf(ret, si), last)
			sizes = append(sizes, sized{ret, v, i, c})
		}
	})
	if !good {
		return false
	}
	if n == 0 || w.bestPath == nil {
		w.rep.Undecided("walk-results:"+FnName(w.fn), p.Pos(fn.Pos()), "no path returns a chosen file")
		return false
	}
	// what is stored together with the path
	var pathStores []*ssa.Store
	for _, f := range withClosures(w.cb) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				al := w.cell(st.Addr)
				if al == nil || al.Parent() == w.cb {
					continue
				}
				switch {
				case al == w.bestPath:
					if w.res(st.Val) != w.path {
						w.bad("stores-path", p.At(st), "the path remembered for removal is not the one of the visited file")
						return false
					}
					pathStores = append(pathStores, st)
				case w.isInfo(st.Val):
					w.best[al] = "info"
				case w.isSize(st.Val):
					w.best[al] = "size"
				case w.isTime(st.Val):
					w.best[al] = "time"
				}
			}
		}
	}
	if len(pathStores) == 0 {
		w.rep.Undecided("walk-results:"+FnName(w.fn), p.Pos(fn.Pos()), "the walk remembers no path")
		return false
	}
	for _, f := range withClosures(fn) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok && f != w.cb && w.cell(st.Addr) == w.bestPath {
					if k, isC := st.Val.(*ssa.Const); !isC || k.Value != nil && constant.StringVal(k.Value) != "" {
						w.bad("stores-path", p.At(st), "the path to remove is changed outside the walk")
						return false
					}
				}
			}
		}
	}
	for _, s := range sizes {
		ok := false
		switch u := s.val.(type) {
		case *ssa.UnOp:
			if al := w.cell(u.X); al != nil && w.best[al] == "size" {
				ok = true
			}
		case *ssa.Call:
			if u.Call.IsInvoke() && u.Call.Method.Name() == "Size" {
				if ld, isL := u.Call.Value.(*ssa.UnOp); isL {
					if al := w.cell(ld.X); al != nil && w.best[al] == "info" {
						ok = true
					}
				}
			}
		}
		if !ok {
			w.bad("size", p.At(s.at), "the returned size is not the one of the chosen file")
			return false
		}
	}
	return true
}

func (w *walkCheck) knownNonNil(c *cfgPath, al *ssa.Alloc) bool {
	for _, f := range c.facts() {
		if x, isNil, ok := c.nilTest(f); ok && !isNil {
			if ld, isL := x.(*ssa.UnOp); isL && w.cell(ld.X) == al {
				return true
			}
		}
		if w.pathTest(f) == -1 {
			return true
		}
	}
	return false
}

// pathTest: the condition tells whether a path was found: 1 not found, -1 found.
func (w *walkCheck) pathTest(f pathFact) int {
	b, ok := f.cond.(*ssa.BinOp)
	if !ok {
		return 0
	}
	x, y := b.X, b.Y
	if _, isC := x.(*ssa.Const); isC {
		x, y = y, x
	}
	k, isC := y.(*ssa.Const)
	if !isC || k.Value == nil {
		return 0
	}
	emptyString := k.Value.Kind() == constant.String && constant.StringVal(k.Value) == ""
	ld, isL := x.(*ssa.UnOp)
	if !emptyString || !isL || ld.Op != token.MUL {
		return 0
	}
	al := w.cell(ld.X)
	if al == nil || w.bestPath != nil && al != w.bestPath {
		return 0
	}
	switch b.Op {
	case token.EQL:
	case token.NEQ:
		f.val = !f.val
	default:
		return 0
	}
	if f.val {
		return 1
	}
	return -1
}

// isInfo: the info of the visited file.
func (w *walkCheck) isInfo(v ssa.Value) bool {
	v = w.res(v)
	if mi, ok := v.(*ssa.ChangeInterface); ok {
		v = w.res(mi.X)
	}
	if v == w.info {
		return true
	}
	// entry.Info()
	if ex, ok := v.(*ssa.Extract); ok && ex.Index == 0 {
		if c, ok := ex.Tuple.(*ssa.Call); ok && c.Call.IsInvoke() && c.Call.Method.Name() == "Info" {
			return w.res(c.Call.Value) == w.info
		}
	}
	return false
}

func (w *walkCheck) method(v ssa.Value, name string) ssa.Value {
	c, ok := w.res(v).(*ssa.Call)
	if ok && c.Call.IsInvoke() && c.Call.Method.Name() == name {
		return c.Call.Value
	}
	return nil
}

func (w *walkCheck) isSize(v ssa.Value) bool {
	x := w.method(v, "Size")
	return x != nil && w.isInfo(x)
}

func (w *walkCheck) isTime(v ssa.Value) bool {
	c, ok := w.res(v).(*ssa.Call)
	if !ok {
		return false
	}
	switch CalleeKey(&c.Call) {
	case "(time.Time).Unix", "(time.Time).UnixNano", "(time.Time).UnixMilli", "(time.Time).UnixMicro":
		return w.isTime(c.Call.Args[0])
	}
	x := w.method(v, "ModTime")
	return x != nil && w.isInfo(x)
}

func (w *walkCheck) bestOf(v ssa.Value, what string) bool {
	for n := 0; n < 10; n++ {
		if a, ok := w.sub[v]; ok {
			v = a
			continue
		}
		if ld, ok := v.(*ssa.UnOp); ok && ld.Op == token.MUL {
			if al := w.cell(ld.X); al != nil && w.best[al] == what {
				return true
			}
			if al := w.cell(ld.X); al != nil {
				if s := w.e.p.onlyStore(al); s != nil && s != v {
					v = s
					continue
				}
			}
		}
		break
	}
	m := map[string]string{"size": "Size", "time": "ModTime"}[what]
	if m == "" {
		return false
	}
	if c, ok := w.res(v).(*ssa.Call); ok && what == "time" {
		switch CalleeKey(&c.Call) {
		case "(time.Time).Unix", "(time.Time).UnixNano", "(time.Time).UnixMilli", "(time.Time).UnixMicro":
			return w.bestOf(c.Call.Args[0], "time")
		}
	}
	x := w.method(v, m)
	return x != nil && w.bestOf(x, "info")
}

// A walkFact is what a condition in the callback says.
type walkFact struct {
	what string // dir, regular, except, better, worse, none, err
	val  bool
}

// fact interprets a condition; sub holds the arguments of a called predicate.
func (w *walkCheck) fact(c *cfgPath, f pathFact, d int) (out []walkFact, ok bool) {
	v := f.cond
	if _, ok := v.(*ssa.Const); ok {
		return nil, true
	}
	if x, isNil, isTest := c.nilTest(f); isTest {
		if x == w.cbErr || w.res(x) == w.cbErr {
			return []walkFact{{"err", !isNil}}, true
		}
		if w.bestOf(x, "info") {
			return []walkFact{{"none", isNil}}, true
		}
		if ex, isE := x.(*ssa.Extract); isE && isErrorType(ex.Type()) {
			return []walkFact{{"infoerr", !isNil}}, true
		}
		return nil, false
	}
	if t := w.pathTest(f); t != 0 {
		return []walkFact{{"none", t == 1}}, true
	}
	switch u := v.(type) {
	case *ssa.UnOp:
		if u.Op == token.NOT {
			return w.fact(c, pathFact{u.X, f.at, !f.val}, d)
		}
		if u.Op == token.MUL {
			if x := w.res(u); x != v {
				return w.fact(c, pathFact{x, f.at, f.val}, d)
			}
		}
	case *ssa.BinOp:
		x, _ := c.val(u.X, f.at)
		y, _ := c.val(u.Y, f.at)
		switch u.Op {
		case token.EQL, token.NEQ:
			val := f.val == (u.Op == token.EQL)
			for k := 0; k < 2; k++ {
				n := w.method(x, "Name")
				base := false
				if cc, isC := w.res(x).(*ssa.Call); isC && CalleeKey(&cc.Call) == "path/filepath.Base" && w.res(cc.Call.Args[0]) == w.path {
					base = true
				}
				if (base || n != nil && w.isInfo(n)) && w.res(y) == w.except {
					return []walkFact{{"except", val}}, true
				}
				x, y = y, x
			}
		case token.GTR, token.GEQ, token.LSS, token.LEQ:
			gt := u.Op == token.GTR || u.Op == token.GEQ
			for k := 0; k < 2; k++ {
				if w.isSize(x) && w.bestOf(y, "size") {
					w.compares("largest", gt, u)
					return []walkFact{{"better", f.val == gt}}, true
				}
				if w.isTime(x) && w.bestOf(y, "time") {
					w.compares("lru", !gt, u)
					return []walkFact{{"better", f.val == !gt}}, true
				}
				if w.bestOf(x, "size") || w.bestOf(x, "time") {
					if k2, isC := y.(*ssa.Const); isC && k2.Value != nil && constant.Sign(k2.Value) <= 0 {
						return []walkFact{{"none", f.val != gt}}, true
					}
				}
				// t.Compare(u) < 0
				if cc, isC := w.res(x).(*ssa.Call); isC && CalleeKey(&cc.Call) == "(time.Time).Compare" {
					if n, isN := constInt(y); isN && n == 0 {
						a, b := cc.Call.Args[0], cc.Call.Args[1]
						if w.isTime(a) && w.bestOf(b, "time") {
							w.compares("lru", !gt, u)
							return []walkFact{{"better", f.val == !gt}}, true
						}
						if w.bestOf(a, "time") && w.isTime(b) {
							w.compares("lru", gt, u)
							return []walkFact{{"better", f.val == gt}}, true
						}
					}
				}
				x, y, gt = y, x, !gt
			}
		}
	case *ssa.Call:
		k := CalleeKey(&u.Call)
		switch {
		case u.Call.IsInvoke() && u.Call.Method.Name() == "IsDir" && w.isInfo(u.Call.Value):
			return []walkFact{{"dir", f.val}}, true
		case k == "(io/fs.FileMode).IsDir" || k == "(io/fs.FileMode).IsRegular":
			m := w.method(u.Call.Args[0], "Mode")
			if m == nil {
				m = w.method(u.Call.Args[0], "Type")
			}
			if m != nil && w.isInfo(m) {
				if strings.HasSuffix(k, "IsDir") {
					return []walkFact{{"dir", f.val}}, true
				}
				return []walkFact{{"regular", f.val}}, true
			}
		case k == "(time.Time).Before" || k == "(time.Time).After":
			a, b := u.Call.Args[0], u.Call.Args[1]
			if k == "(time.Time).After" {
				a, b = b, a
			}
			// a before b
			if w.isTime(a) && w.bestOf(b, "time") {
				w.compares("lru", true, u)
				return []walkFact{{"better", f.val}}, true
			}
			if w.bestOf(a, "time") && w.isTime(b) {
				w.compares("lru", false, u)
				return []walkFact{{"better", !f.val}}, true
			}
		case k == "os.IsNotExist" || k == "errors.Is" || k == "github.com/pkg/errors.Is":
			return []walkFact{{"errkind", f.val}}, true
		}
		// a predicate of the repository
		g := u.Call.StaticCallee()
		if g == nil && !u.Call.IsInvoke() {
			switch x := w.res(u.Call.Value).(type) {
			case *ssa.MakeClosure:
				g = x.Fn.(*ssa.Function)
			case *ssa.Function:
				g = x
			}
		}
		if g != nil && d < 3 && w.e.p.IsRepoFn(g) && len(g.Blocks) == 1 {
			if ret, isR := g.Blocks[0].Instrs[len(g.Blocks[0].Instrs)-1].(*ssa.Return); isR && len(ret.Results) == 1 {
				for i, q := range g.Params {
					if i < len(u.Call.Args) {
						w.sub[q] = u.Call.Args[i]
					}
				}
				return w.fact(c, pathFact{ret.Results[0], f.at, f.val}, d+1)
			}
		}
	}
	return nil, false
}

func (w *walkCheck) compares(kind string, right bool, at ssa.Instruction) {
	if w.kind != "" && w.kind != kind {
		w.rep.Undecided("compares:"+FnName(w.fn), w.e.p.At(at), "the file is chosen by both size and time")
	}
	w.kind = kind
}

// callback follows all paths through what the walk does with each file.
func (w *walkCheck) callback() {
	p := w.e.p
	isRet := func(b *ssa.BasicBlock) bool {
		_, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		return ok && b != w.cb.Recover
	}
	done := false
	fail := func(at ssa.Instruction, key, format string, args ...any) {
		if !done {
			w.bad(key, p.At(at), format, args...)
		}
		done = true
	}
	stored := 0
	if !p.eachPath(w.cb.Blocks[0], -1, allSuccs, isRet, func(c *cfgPath) {
		if done || !c.feasible() {
			return
		}
		facts := map[string]int{}
		for _, f := range c.facts() {
			fs, ok := w.fact(c, f, 0)
			if !ok {
				if !done {
					w.rep.Undecided("condition:"+FnName(w.fn), p.At(c.blocks[0].Instrs[0]), "what is decided by %s is not known", describe(f.cond))
				}
				done = true
				return
			}
			for _, x := range fs {
				n := -1
				if x.val {
					n = 1
				}
				if facts[x.what] == -n {
					return // contradicts itself
				}
				facts[x.what] = n
			}
		}
		if facts["dir"] == 1 && facts["regular"] == 1 {
			return
		}
		ret := c.last().Instrs[len(c.last().Instrs)-1].(*ssa.Return)
		rv, _ := c.val(resultOf(ret, 0), len(c.blocks)-1)
		skip := false
		if ld, ok := rv.(*ssa.UnOp); ok && ld.Op == token.MUL {
			if g, ok := ld.X.(*ssa.Global); ok && (g.Name() == "SkipDir" || g.Name() == "SkipAll") {
				skip = true
				if g.Name() == "SkipAll" {
					fail(ret, "skip-all", "the walk ends early, files are not regarded")
					return
				}
			}
		}
		isFile := facts["dir"] == -1 || facts["regular"] == 1
		stores := map[*ssa.Alloc]bool{}
		var at ssa.Instruction
		for _, b := range c.blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if al := w.cell(st.Addr); al != nil && (al == w.bestPath || w.best[al] != "") {
						stores[al] = true
						at = st
					}
				}
			}
		}
		switch {
		case len(stores) > 0:
			stored++
			switch {
			case skip:
				fail(ret, "skips", "the rest of a folder is left out when choosing the file to remove")
			case facts["err"] == 1 || facts["infoerr"] == 1:
				fail(at, "store-error", "a file whose information could not be read is chosen")
			case facts["err"] == 0:
				fail(at, "store-error", "a file is chosen without knowing that its information could be read")
			case !isFile:
				fail(at, "store-dir", "a folder can be chosen for removal")
			case len(stores) != 1+len(w.best) && !stores[w.bestPath]:
				fail(at, "store-partly", "the size or time of the best file is changed without its path")
			case len(stores) != 1+len(w.best):
				fail(at, "store-partly", "the path of the best file is changed without its size or time")
			case facts["better"] != 1 && facts["none"] != 1:
				fail(at, "store-worse", "a file is chosen although it is not %s", map[string]string{"largest": "larger", "lru": "older", "": "better"}[w.kind])
			}
		case skip:
			if facts["except"] != 1 || facts["dir"] != 1 {
				fail(ret, "skips", "something other than the temporary folder is left out when choosing the file to remove")
			}
		default:
			if facts["err"] == 1 || facts["infoerr"] == 1 {
				return
			}
			if facts["dir"] != -1 && facts["except"] != -1 && facts["regular"] != 1 {
				if k, ok := rv.(*ssa.Const); ok && k.IsNil() {
					fail(ret, "temp-folder", "the temporary folder is not left out when choosing the file to remove")
				}
				return
			}
			if isFile && (facts["better"] == 1 || facts["none"] == 1) {
				fail(ret, "misses", "a file that should be chosen is passed over")
			}
			if isFile && facts["better"] == 0 && facts["none"] == 0 {
				fail(ret, "misses", "a file is passed over without comparing it")
			}
		}
	}) {
		w.rep.Undecided("paths:"+FnName(w.fn), p.Pos(w.cb.Pos()), "too many paths")
	}
	if stored == 0 && !done {
		w.rep.Undecided("walk-stores:"+FnName(w.fn), p.Pos(w.cb.Pos()), "the walk chooses no file")
	}
}

// resultOf is the value returned, through the result variables of functions with deferred calls.
func resultOf(ret *ssa.Return, i int) ssa.Value {
	if v := returnedValue(ret, i); v != nil {
		return v
	}
	return ret.Results[i]
}

// destKey names a path: equal names mean equal paths, calls computing a path from equal arguments included.
func (e *evictCheck) destKey(v ssa.Value, d int) string {
	v = e.p.resolve(v)
	c, ok := v.(*ssa.Call)
	if !ok || d > 4 {
		return e.p.vkey(v)
	}
	f := c.Call.StaticCallee()
	if f == nil || !e.p.IsRepoFn(f) && CalleeKey(&c.Call) != "path/filepath.Join" {
		return e.p.vkey(v)
	}
	if e.p.IsRepoFn(f) {
		ef := e.p.Effects(f)
		if len(ef.Fields) > 0 || len(ef.Globals) > 0 || ef.Elems {
			return e.p.vkey(v)
		}
	}
	out := FuncKey(f)
	args := c.Call.Args
	if !e.p.IsRepoFn(f) {
		args = variadicArgs(args[0])
	}
	for _, a := range args {
		out += "," + e.destKey(a, d+1)
	}
	return out
}
