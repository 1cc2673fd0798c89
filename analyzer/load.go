package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the type-checked repository and its SSA form.
type Program struct {
	taken map[*ssa.Function]bool
	Root  string // directory of the Go module
	Repo  string // repository root
	Fset  *token.FileSet
	Pkgs  []*packages.Package
	ByRel map[string]*packages.Package // "cache", "util", "" (main)
	Prog  *ssa.Program
	SPkg  map[*types.Package]*ssa.Package
	Funcs []*ssa.Function // every repo function with a body (incl. anonymous, instances), mocks excluded
	isFn  map[*ssa.Function]bool

	implCache     map[string][]*ssa.Function
	storesTo      map[*ssa.Global][]*ssa.Store
	addrTaken     map[*ssa.Global]bool
	callersOf     map[*ssa.Function][]ssa.CallInstruction
	fieldStoresOf map[*types.Var][]ssa.Value
	reach         map[*ssa.Function]map[*ssa.Function]bool
	effCache      map[*ssa.Function]*Effects
	live          map[*ssa.Function]*liveness
}

const modPath = "wiki2book"

func repoRoot() string {
	if r := os.Getenv("WIKI_REPO"); r != "" {
		return r
	}
	return "/repo"
}

// isMockFile tells whether a file holds test doubles: files named *_mock.go and the package test.
func isMockFile(name string) bool {
	return strings.HasSuffix(name, "_mock.go") || strings.Contains(name, "/src/test/")
}

func Load() (*Program, error) {
	repo := repoRoot()
	root := filepath.Join(repo, "src")
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedExportFile | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir: root,
		Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOSUMDB=off"),
	}
	// Only the repository's packages need syntax; dependencies are read from export data.
	cfg.Mode &^= packages.NeedDeps
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	p := &Program{Root: root, Repo: repo, Pkgs: pkgs, ByRel: map[string]*packages.Package{}, SPkg: map[*types.Package]*ssa.Package{},
		isFn: map[*ssa.Function]bool{}, implCache: map[string][]*ssa.Function{}, effCache: map[*ssa.Function]*Effects{}, live: map[*ssa.Function]*liveness{}}
	var errs []string
	for _, pk := range pkgs {
		for _, e := range pk.Errors {
			errs = append(errs, e.Error())
		}
		rel := strings.TrimPrefix(strings.TrimPrefix(pk.PkgPath, modPath), "/")
		p.ByRel[rel] = pk
		p.Fset = pk.Fset
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("type errors: %s", strings.Join(errs, "; "))
	}
	if len(pkgs) == 0 {
		return nil, fmt.Errorf("no packages below %s", root)
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p.Prog = prog
	for _, sp := range spkgs {
		if sp != nil {
			p.SPkg[sp.Pkg] = sp
		}
	}
	all := ssautil.AllFunctions(prog)
	dropped := p.normalise(all)
	for fn := range all {
		if p.IsRepoFn(fn) && len(fn.Blocks) > 0 && !dropped[fn] {
			p.Funcs = append(p.Funcs, fn)
			p.isFn[fn] = true
		}
	}
	sort.Slice(p.Funcs, func(i, j int) bool {
		a, b := p.Funcs[i], p.Funcs[j]
		if a.String() != b.String() {
			return a.String() < b.String()
		}
		return a.Pos() < b.Pos()
	})
	return p, nil
}

// IsRepoFn: declared in a non-mock file of the repository (instances of generics count as their origin).
func (p *Program) IsRepoFn(fn *ssa.Function) bool {
	pk := fnPkg(fn)
	if pk == nil {
		return false
	}
	if pk.Path() != modPath && !strings.HasPrefix(pk.Path(), modPath+"/") {
		return false
	}
	pos := fn.Pos()
	if o := fn.Origin(); o != nil {
		pos = o.Pos()
	}
	if !pos.IsValid() {
		return fn.Synthetic != "" // init functions, wrappers
	}
	return !isMockFile(p.Fset.Position(pos).Filename)
}

func fnPkg(fn *ssa.Function) *types.Package {
	if fn == nil {
		return nil
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg
	}
	if o := fn.Origin(); o != nil && o.Pkg != nil {
		return o.Pkg.Pkg
	}
	if fn.Object() != nil {
		return fn.Object().Pkg()
	}
	if fn.Parent() != nil {
		return fnPkg(fn.Parent())
	}
	return nil
}

func (p *Program) Pkg(rel string) *ssa.Package {
	pk := p.ByRel[rel]
	if pk == nil {
		return nil
	}
	return p.SPkg[pk.Types]
}

// Func returns the function or method: Func("cache","CacheToFile"), Func("util","OsFilesystem.Rename").
func (p *Program) Func(rel, name string) *ssa.Function {
	sp := p.Pkg(rel)
	if sp == nil {
		return nil
	}
	if i := strings.IndexByte(name, '.'); i >= 0 {
		tn, mn := name[:i], name[i+1:]
		t := sp.Type(tn)
		if t == nil {
			return nil
		}
		if m := p.methodOf(t.Type(), sp.Pkg, mn); m != nil {
			return m
		}
		return p.methodOf(types.NewPointer(t.Type()), sp.Pkg, mn)
	}
	return sp.Func(name)
}

func (p *Program) methodOf(t types.Type, pkg *types.Package, name string) *ssa.Function {
	ms := p.Prog.MethodSets.MethodSet(t)
	sel := ms.Lookup(pkg, name)
	if sel == nil {
		return nil
	}
	return p.Prog.MethodValue(sel)
}

func (p *Program) Pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "-"
	}
	po := p.Fset.Position(pos)
	f := po.Filename
	if r, err := filepath.Rel(p.Repo, f); err == nil {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, po.Line)
}

func instrPos(in ssa.Instruction) token.Pos {
	if in == nil {
		return token.NoPos
	}
	if in.Pos().IsValid() {
		return in.Pos()
	}
	// fall back to the closest preceding instruction with a position
	b := in.Block()
	if b == nil {
		return token.NoPos
	}
	last := token.NoPos
	for _, x := range b.Instrs {
		if x.Pos().IsValid() {
			last = x.Pos()
		}
		if x == in {
			break
		}
	}
	if !last.IsValid() && in.Parent() != nil {
		last = in.Parent().Pos()
	}
	return last
}

func (p *Program) At(in ssa.Instruction) string { return p.Pos(instrPos(in)) }

// FnName is a short stable name of a function for reports.
func FnName(fn *ssa.Function) string {
	if fn == nil {
		return "?"
	}
	s := fn.String()
	s = strings.ReplaceAll(s, modPath+"/", "")
	return s
}

// implementers returns the methods of repository (non-mock) types that an interface call can reach.
func (p *Program) implementers(c *ssa.CallCommon) []*ssa.Function {
	it, ok := c.Value.Type().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	key := c.Value.Type().String() + "." + c.Method.Name()
	if r, ok := p.implCache[key]; ok {
		return r
	}
	var out []*ssa.Function
	for _, pk := range p.Pkgs {
		sc := pk.Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			if isMockFile(p.Fset.Position(tn.Pos()).Filename) {
				continue
			}
			t := tn.Type()
			if types.IsInterface(t) {
				continue
			}
			if named, ok := t.(*types.Named); ok && named.TypeParams().Len() > 0 {
				continue
			}
			var impl types.Type
			if types.Implements(t, it) {
				impl = t
			} else if types.Implements(types.NewPointer(t), it) {
				impl = types.NewPointer(t)
			} else {
				continue
			}
			if m := p.methodOf(impl, c.Method.Pkg(), c.Method.Name()); m != nil {
				out = append(out, m)
			}
		}
	}
	p.implCache[key] = out
	return out
}

// Callees resolves a call: static callee, interface implementers in the repo, or closures known by value.
func (p *Program) Callees(c *ssa.CallCommon) []*ssa.Function {
	if c.IsInvoke() {
		return p.implementers(c)
	}
	if f := c.StaticCallee(); f != nil {
		return []*ssa.Function{f}
	}
	// call through a global variable holding a function
	if u, ok := c.Value.(*ssa.UnOp); ok && u.Op == token.MUL {
		if g, ok := u.X.(*ssa.Global); ok {
			var out []*ssa.Function
			for _, s := range p.GlobalStores(g) {
				switch v := s.Val.(type) {
				case *ssa.Function:
					out = append(out, v)
				case *ssa.MakeClosure:
					out = append(out, v.Fn.(*ssa.Function))
				}
			}
			return out
		}
	}
	return nil
}

// GlobalStores lists the stores to a global in repo (non-mock, non-test) code, init included.
func (p *Program) GlobalStores(g *ssa.Global) []*ssa.Store {
	if p.storesTo == nil {
		p.storesTo = map[*ssa.Global][]*ssa.Store{}
		p.addrTaken = map[*ssa.Global]bool{}
		for _, fn := range p.Funcs {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if s, ok := in.(*ssa.Store); ok {
						if gg, ok := s.Addr.(*ssa.Global); ok {
							p.storesTo[gg] = append(p.storesTo[gg], s)
							continue
						}
					}
					for _, op := range in.Operands(nil) {
						if gg, ok := (*op).(*ssa.Global); ok {
							switch x := in.(type) {
							case *ssa.UnOp, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.DebugRef:
								_ = x
							default:
								p.addrTaken[gg] = true
							}
						}
					}
				}
			}
		}
	}
	return p.storesTo[g]
}

// CallSites lists the call instructions (call, defer, go) of a function.
func CallSites(fn *ssa.Function) []ssa.CallInstruction {
	var out []ssa.CallInstruction
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				out = append(out, c)
			}
		}
	}
	return out
}

// CallersOf lists the call sites in the repo that can reach fn directly.
func (p *Program) CallersOf(fn *ssa.Function) []ssa.CallInstruction {
	if p.callersOf == nil {
		p.callersOf = map[*ssa.Function][]ssa.CallInstruction{}
		for _, f := range p.Funcs {
			for _, c := range CallSites(f) {
				for _, cal := range p.Callees(c.Common()) {
					p.callersOf[cal] = append(p.callersOf[cal], c)
				}
			}
		}
	}
	return p.callersOf[fn]
}

// succFns: functions directly reachable from fn: callees, closures created, functions whose value is taken.
func (p *Program) succFns(fn *ssa.Function) []*ssa.Function {
	var out []*ssa.Function
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				out = append(out, p.Callees(c.Common())...)
			}
			for _, op := range in.Operands(nil) {
				switch v := (*op).(type) {
				case *ssa.Function:
					out = append(out, v)
				case *ssa.MakeClosure:
					out = append(out, v.Fn.(*ssa.Function))
				}
			}
		}
	}
	return out
}

// Reach is the set of repo functions reachable from fn (fn included).
func (p *Program) Reach(fn *ssa.Function) map[*ssa.Function]bool {
	if p.reach == nil {
		p.reach = map[*ssa.Function]map[*ssa.Function]bool{}
	}
	if r, ok := p.reach[fn]; ok {
		return r
	}
	seen := map[*ssa.Function]bool{fn: true}
	work := []*ssa.Function{fn}
	for len(work) > 0 {
		f := work[len(work)-1]
		work = work[:len(work)-1]
		for _, s := range p.succFns(f) {
			if !seen[s] && len(s.Blocks) > 0 && p.IsRepoFn(s) {
				seen[s] = true
				work = append(work, s)
			}
		}
	}
	p.reach[fn] = seen
	return seen
}

// ReachesCall tells whether fn can reach a call site satisfying pred.
func (p *Program) ReachesCall(fn *ssa.Function, pred func(c *ssa.CallCommon) bool) bool {
	for f := range p.Reach(fn) {
		for _, c := range CallSites(f) {
			if pred(c.Common()) {
				return true
			}
		}
	}
	return false
}

// CalleeKey names the callee of a call: "os.Rename", "(*os.File).Close", "wiki2book/util.IsSanitized",
// for interface methods "iface(wiki2book/http.HttpClient).Do".
func CalleeKey(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return "iface(" + types.TypeString(c.Value.Type(), nil) + ")." + c.Method.Name()
	}
	if f := c.StaticCallee(); f != nil {
		return FuncKey(f)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return "builtin." + b.Name()
	}
	return "dynamic"
}

func FuncKey(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		f = o
	}
	return f.String()
}

// Effects: what a function may write, transitively (flow-insensitive).
type Effects struct {
	Fields   map[*types.Var]bool
	Globals  map[*ssa.Global]bool
	FreeVars map[*ssa.FreeVar]bool
	Elems    bool // writes through element addresses or maps
	Impure   bool // calls something not known pure
}

func fieldVar(t types.Type, i int) *types.Var {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	if st, ok := t.Underlying().(*types.Struct); ok {
		return st.Field(i)
	}
	return nil
}

func (p *Program) Effects(fn *ssa.Function) *Effects {
	if e, ok := p.effCache[fn]; ok {
		return e
	}
	e := &Effects{Fields: map[*types.Var]bool{}, Globals: map[*ssa.Global]bool{}, FreeVars: map[*ssa.FreeVar]bool{}}
	p.effCache[fn] = e
	for f := range p.Reach(fn) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					p.addrEffect(e, x.Addr)
				case *ssa.MapUpdate:
					if !freshHere(x.Map, nil) {
						e.Elems = true
					}
				case *ssa.Send, *ssa.Go, *ssa.Select:
					e.Impure = true
				case *ssa.Next:
					if !x.IsString {
						e.Impure = true // iteration order of maps
					}
				case ssa.CallInstruction:
					c := x.Common()
					if b, ok := c.Value.(*ssa.Builtin); ok {
						switch b.Name() {
						case "delete", "copy", "clear", "close":
							e.Elems = true
						}
						continue
					}
					if len(p.Callees(c)) > 0 && !c.IsInvoke() {
						all := true
						for _, cal := range p.Callees(c) {
							if !p.IsRepoFn(cal) || len(cal.Blocks) == 0 {
								all = false
							}
						}
						if all {
							continue
						}
					}
					if c.IsInvoke() {
						if len(p.implementers(c)) > 0 {
							continue
						}
						if c.Method.Name() == "Error" || c.Method.Name() == "String" {
							continue
						}
					}
					k := CalleeKey(c)
					if !isPureExternal(k) && !isLogCall(k) {
						e.Impure = true
					}
				}
			}
		}
	}
	return e
}

// freshHere: the list or map is created by the function itself, so that nothing its callers had before is changed with it.
func freshHere(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	if seen == nil {
		seen = map[ssa.Value]bool{}
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.MakeSlice, *ssa.MakeMap:
		return true
	case *ssa.Const:
		return x.Value == nil
	case *ssa.Slice:
		if al, ok := x.X.(*ssa.Alloc); ok {
			_, isArr := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
			return isArr
		}
		return freshHere(x.X, seen)
	case *ssa.Phi:
		for _, ed := range x.Edges {
			if !freshHere(ed, seen) {
				return false
			}
		}
		return true
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			return b.Name() == "append" && freshHere(x.Call.Args[0], seen)
		}
		switch CalleeKey(&x.Call) {
		case "strings.Split", "strings.SplitN", "strings.SplitAfter", "strings.Fields", "strings.FieldsFunc", "slices.Clone", "maps.Clone":
			return true
		}
	case *ssa.UnOp:
		al, ok := x.X.(*ssa.Alloc)
		if !ok || x.Op != token.MUL || al.Referrers() == nil {
			return false
		}
		switch al.Type().Underlying().(*types.Pointer).Elem().Underlying().(type) {
		case *types.Slice, *types.Map:
		default:
			return false
		}
		for _, rf := range *al.Referrers() {
			switch u := rf.(type) {
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.Store:
				if u.Addr != ssa.Value(al) || !freshHere(u.Val, seen) {
					return false
				}
			default:
				return false
			}
		}
		return true
	}
	return false
}

func (p *Program) addrEffect(e *Effects, a ssa.Value) {
	switch x := a.(type) {
	case *ssa.Alloc:
	case *ssa.Global:
		e.Globals[x] = true
	case *ssa.FreeVar:
		e.FreeVars[x] = true
	case *ssa.FieldAddr:
		if al, ok := x.X.(*ssa.Alloc); ok && !al.Heap {
			return
		}
		e.Fields[fieldVar(x.X.Type(), x.Field)] = true
		if g, ok := x.X.(*ssa.Global); ok {
			e.Globals[g] = true
		}
	case *ssa.IndexAddr:
		if al, ok := x.X.(*ssa.Alloc); ok {
			_ = al
			return // varargs arrays and local array literals
		}
		if !freshHere(x.X, nil) {
			e.Elems = true
		}
	default:
		e.Elems = true
	}
}

// fileOf returns the syntax file containing pos.
func (p *Program) fileOf(pos token.Pos) *ast.File {
	for _, pk := range p.Pkgs {
		for _, f := range pk.Syntax {
			if f.FileStart <= pos && pos <= f.FileEnd {
				return f
			}
		}
	}
	return nil
}
