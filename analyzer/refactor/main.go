// refactor makes edits of the program which keep its behaviour. It is used to test that the checks stay quiet on code
// that merely looks different: refactor KIND DIR [FILE...] changes all places (or those of the files) in the copy of
// the program in DIR.
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
)

type edit struct {
	from, to int
	text     string
}

type file struct {
	name  string
	src   []byte
	ast   *ast.File
	pkg   *packages.Package
	fset  *token.FileSet
	edits []edit
	tail  []string // new functions
	count int
}

func (f *file) off(p token.Pos) int           { return f.fset.Position(p).Offset }
func (f *file) text(n ast.Node) string        { return string(f.src[f.off(n.Pos()):f.off(n.End())]) }
func (f *file) between(a, b token.Pos) string { return string(f.src[f.off(a):f.off(b)]) }

func (f *file) replace(a, b token.Pos, text string) bool {
	from, to := f.off(a), f.off(b)
	for _, e := range f.edits {
		if from < e.to && e.from < to {
			return false
		}
	}
	f.edits = append(f.edits, edit{from, to, text})
	f.count++
	return true
}

func (f *file) fresh(prefix string) string {
	f.count++
	base := strings.TrimSuffix(filepath.Base(f.name), ".go")
	return fmt.Sprintf("%s%s%d", prefix, strings.Title(strings.ReplaceAll(base, "-", "")), f.count)
}

// keep lets an import be used in any case.
func (f *file) keep(name string) {
	for _, i := range f.ast.Imports {
		if i.Path.Value == strconv.Quote(name) && i.Name == nil && len(f.edits) > 0 {
			f.tail = append(f.tail, "var _ = strings.ToLower")
		}
	}
}

func (f *file) typeString(t types.Type) (string, bool) {
	ok := !hidden(t, map[types.Type]bool{})
	imports := map[string]string{}
	for _, i := range f.ast.Imports {
		path, _ := strconv.Unquote(i.Path.Value)
		name := ""
		if i.Name != nil {
			name = i.Name.Name
		} else if p := f.pkg.Imports[path]; p != nil {
			name = p.Name
		}
		imports[path] = name
	}
	s := types.TypeString(t, func(p *types.Package) string {
		if p == f.pkg.Types {
			return ""
		}
		if n := imports[p.Path()]; n != "" {
			return n
		}
		ok = false
		return p.Name()
	})
	if strings.Contains(s, "untyped") || strings.Contains(s, "struct{") {
		ok = false
	}
	return s, ok
}

// hidden tells whether a type can't be named outside of its function.
func hidden(t types.Type, seen map[types.Type]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	switch t := t.(type) {
	case *types.TypeParam:
		return true
	case *types.Named:
		if t.Obj().Pkg() != nil && t.Obj().Parent() != t.Obj().Pkg().Scope() {
			return true
		}
		for i := 0; i < t.TypeArgs().Len(); i++ {
			if hidden(t.TypeArgs().At(i), seen) {
				return true
			}
		}
	case *types.Pointer:
		return hidden(t.Elem(), seen)
	case *types.Slice:
		return hidden(t.Elem(), seen)
	case *types.Array:
		return hidden(t.Elem(), seen)
	case *types.Chan:
		return hidden(t.Elem(), seen)
	case *types.Map:
		return hidden(t.Key(), seen) || hidden(t.Elem(), seen)
	}
	return false
}

// locals gives the local variables used in the nodes but declared outside of them.
func (f *file) locals(nodes []ast.Node) (vars []*types.Var, ok bool) {
	ok = true
	seen := map[*types.Var]bool{}
	lo, hi := nodes[0].Pos(), nodes[len(nodes)-1].End()
	for _, n := range nodes {
		ast.Inspect(n, func(n ast.Node) bool {
			id, isID := n.(*ast.Ident)
			if !isID {
				return true
			}
			if tn, is := f.pkg.TypesInfo.Uses[id].(*types.TypeName); is && tn.Parent() != types.Universe && tn.Pkg() != nil && tn.Parent() != tn.Pkg().Scope() {
				ok = false // a local type
			}
			if c, is := f.pkg.TypesInfo.Uses[id].(*types.Const); is && c.Pkg() != nil && c.Parent() != c.Pkg().Scope() && c.Parent() != types.Universe {
				ok = false // a local constant
			}
			v, isVar := f.pkg.TypesInfo.Uses[id].(*types.Var)
			if !isVar || v.IsField() || v.Parent() == nil || (v.Pkg() != nil && v.Parent() == v.Pkg().Scope()) || v.Parent() == types.Universe {
				return true
			}
			if lo <= v.Pos() && v.Pos() < hi {
				return true
			}
			if !seen[v] {
				seen[v] = true
				vars = append(vars, v)
			}
			return true
		})
	}
	for _, v := range vars {
		switch v.Type().Underlying().(type) {
		case *types.Struct:
			if n, is := v.Type().(*types.Named); !is || n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), "wiki2book") {
				ok = false
			}
		case *types.Array:
			ok = false
		}
	}
	return
}

func (f *file) params(vars []*types.Var) (string, string, bool) {
	var ps, as []string
	for _, v := range vars {
		t, ok := f.typeString(v.Type())
		if !ok {
			return "", "", false
		}
		ps = append(ps, v.Name()+" "+t)
		as = append(as, v.Name())
	}
	return strings.Join(ps, ", "), strings.Join(as, ", "), true
}

func has(n ast.Node, pred func(ast.Node) bool) bool {
	found := false
	ast.Inspect(n, func(n ast.Node) bool {
		if n != nil && pred(n) {
			found = true
		}
		return !found
	})
	return found
}

func isLit(n ast.Node) bool { _, ok := n.(*ast.FuncLit); return ok }

func isAddr(n ast.Node) bool {
	u, ok := n.(*ast.UnaryExpr)
	return ok && u.Op == token.AND
}

func branches(n ast.Node) bool {
	return has(n, func(n ast.Node) bool { b, ok := n.(*ast.BranchStmt); return ok && b != nil })
}

func continues(n ast.Node) bool {
	return has(n, func(n ast.Node) bool {
		b, ok := n.(*ast.BranchStmt)
		return ok && (b.Tok == token.CONTINUE || b.Label != nil || b.Tok == token.GOTO)
	})
}

func (f *file) negate(e ast.Expr) string {
	if b, ok := e.(*ast.BinaryExpr); ok {
		inverse := map[token.Token]string{token.EQL: "!=", token.NEQ: "==", token.LSS: ">=", token.GEQ: "<", token.GTR: "<=", token.LEQ: ">"}
		if basic, is := f.pkg.TypesInfo.TypeOf(b.X).Underlying().(*types.Basic); !is || basic.Info()&types.IsFloat == 0 {
			if op := inverse[b.Op]; op != "" {
				return f.text(b.X) + " " + op + " " + f.text(b.Y)
			}
		}
	}
	if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.NOT {
		return f.text(u.X)
	}
	return "!(" + f.text(e) + ")"
}

func terminates(list []ast.Stmt) bool {
	if len(list) == 0 {
		return false
	}
	_, ok := list[len(list)-1].(*ast.ReturnStmt)
	return ok
}

func (f *file) body(b *ast.BlockStmt) string { return f.between(b.Lbrace+1, b.Rbrace) }

func (f *file) inFunctions(visit func(fn *ast.FuncDecl, n ast.Node, parent ast.Node)) {
	for _, d := range f.ast.Decls {
		fn, ok := d.(*ast.FuncDecl)
		if !ok || fn.Body == nil {
			continue
		}
		var stack []ast.Node
		ast.Inspect(fn.Body, func(n ast.Node) bool {
			if n == nil {
				stack = stack[:len(stack)-1]
				return true
			}
			var parent ast.Node
			if len(stack) > 0 {
				parent = stack[len(stack)-1]
			}
			visit(fn, n, parent)
			stack = append(stack, n)
			return true
		})
	}
}

func (f *file) uses(v types.Object, n ast.Node) bool {
	return has(n, func(n ast.Node) bool { id, ok := n.(*ast.Ident); return ok && f.pkg.TypesInfo.Uses[id] == v })
}

func (f *file) assigned(n ast.Node, v types.Object) bool {
	return has(n, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.AssignStmt:
			for _, l := range n.Lhs {
				if id, ok := l.(*ast.Ident); ok && f.pkg.TypesInfo.Uses[id] == v {
					return true
				}
			}
		case *ast.IncDecStmt:
			if id, ok := n.X.(*ast.Ident); ok && f.pkg.TypesInfo.Uses[id] == v {
				return true
			}
		}
		return false
	})
}

var kinds = map[string]func(f *file){
	// for i, x := range list  ->  for i := 0; i < len(list); i++
	"index-loop": func(f *file) {
		f.inFunctions(func(fn *ast.FuncDecl, n, parent ast.Node) {
			r, ok := n.(*ast.RangeStmt)
			if !ok || r.Tok != token.DEFINE {
				return
			}
			if _, isSlice := f.pkg.TypesInfo.TypeOf(r.X).Underlying().(*types.Slice); !isSlice {
				return
			}
			if _, labeled := parent.(*ast.LabeledStmt); labeled {
				return
			}
			if has(r.Body, isLit) {
				return
			}
			list := f.fresh("list")
			index := ""
			if r.Key != nil && f.text(r.Key) != "_" {
				index = f.text(r.Key)
				if f.assigned(r.Body, f.pkg.TypesInfo.Defs[r.Key.(*ast.Ident)]) {
					return
				}
			} else {
				index = f.fresh("i")
			}
			value := ""
			if r.Value != nil && f.text(r.Value) != "_" {
				value = fmt.Sprintf("%s := %s[%s]\n", f.text(r.Value), list, index)
			}
			if _, simple := r.X.(*ast.Ident); simple && !f.assigned(r.Body, f.pkg.TypesInfo.Uses[r.X.(*ast.Ident)]) {
				value = strings.ReplaceAll(value, list+"[", f.text(r.X)+"[")
				list = f.text(r.X)
				f.replace(r.Pos(), r.Body.Lbrace+1, fmt.Sprintf("for %s := 0; %s < len(%s); %s++ {\n%s", index, index, list, index, value))
				return
			}
			f.replace(r.Pos(), r.Body.Lbrace+1, fmt.Sprintf("%s := %s\nfor %s := 0; %s < len(%s); %s++ {\n%s", list, f.text(r.X), index, index, list, index, value))
		})
	},
	// for i := 0; i < n; i++ { }  ->  for i := range n { };  for k, x := range list { }  ->  for k := range len(list) { }
	"range-int": func(f *file) {
		f.inFunctions(func(fn *ast.FuncDecl, n, parent ast.Node) {
			if _, labeled := parent.(*ast.LabeledStmt); labeled {
				return
			}
			switch l := n.(type) {
			case *ast.ForStmt:
				init, ok := l.Init.(*ast.AssignStmt)
				if !ok || init.Tok != token.DEFINE || len(init.Lhs) != 1 || f.text(init.Rhs[0]) != "0" {
					return
				}
				c, ok := l.Cond.(*ast.BinaryExpr)
				i := init.Lhs[0].(*ast.Ident)
				if !ok || c.Op != token.LSS || f.text(c.X) != i.Name || f.assigned(l.Body, f.pkg.TypesInfo.Defs[i]) {
					return
				}
				if p, ok := l.Post.(*ast.IncDecStmt); !ok || p.Tok != token.INC || f.text(p.X) != i.Name {
					return
				}
				bound := c.Y
				if k, ok := bound.(*ast.CallExpr); ok && f.text(k.Fun) == "len" {
					bound = k.Args[0]
				}
				id, ok := bound.(*ast.Ident)
				if !ok || f.assigned(l.Body, f.pkg.TypesInfo.Uses[id]) {
					return
				}
				f.replace(l.Pos(), l.Body.Lbrace+1, fmt.Sprintf("for %s := range %s {\n", i.Name, f.text(c.Y)))
			case *ast.RangeStmt:
				if _, isSlice := f.pkg.TypesInfo.TypeOf(l.X).Underlying().(*types.Slice); !isSlice || l.Tok != token.DEFINE {
					return
				}
				id, ok := l.X.(*ast.Ident)
				if !ok || f.assigned(l.Body, f.pkg.TypesInfo.Uses[id]) {
					return
				}
				index := f.fresh("i")
				if l.Key != nil && f.text(l.Key) != "_" {
					index = f.text(l.Key)
					if f.assigned(l.Body, f.pkg.TypesInfo.Defs[l.Key.(*ast.Ident)]) {
						return
					}
				}
				value := ""
				if l.Value != nil && f.text(l.Value) != "_" {
					value = fmt.Sprintf("%s := %s[%s]\n", f.text(l.Value), id.Name, index)
				}
				f.replace(l.Pos(), l.Body.Lbrace+1, fmt.Sprintf("for %s := range len(%s) {\n%s", index, id.Name, value))
			}
		})
	},
	// for … { …; if c { A } }  ->  for … { …; if !c { continue }; A }
	"early-continue": func(f *file) {
		f.inFunctions(func(fn *ast.FuncDecl, n, parent ast.Node) {
			var body *ast.BlockStmt
			switch l := n.(type) {
			case *ast.ForStmt:
				body = l.Body
			case *ast.RangeStmt:
				body = l.Body
			default:
				return
			}
			if len(body.List) == 0 {
				return
			}
			i, ok := body.List[len(body.List)-1].(*ast.IfStmt)
			if !ok || i.Init != nil {
				return
			}
			if i.Else == nil {
				f.replace(i.Pos(), i.End(), fmt.Sprintf("if %s {\ncontinue\n}\n%s", f.negate(i.Cond), f.body(i.Body)))
			} else if b, ok := i.Else.(*ast.BlockStmt); ok {
				f.replace(i.Pos(), i.End(), fmt.Sprintf("if %s {\n%s\ncontinue\n}\n%s", f.text(i.Cond), f.body(i.Body), f.body(b)))
			}
		})
	},
	// if c { A; return x }; return y  ->  result := y; if c { A; result = x }; return result
	"single-exit": func(f *file) {
		f.inFunctions(func(fn *ast.FuncDecl, n, parent ast.Node) {
			b, ok := n.(*ast.BlockStmt)
			if !ok || b != fn.Body || len(b.List) < 2 || fn.Type.Results == nil || len(fn.Type.Results.List[0].Names) > 0 {
				return
			}
			last, ok := b.List[len(b.List)-1].(*ast.ReturnStmt)
			i, ok2 := b.List[len(b.List)-2].(*ast.IfStmt)
			if !ok || !ok2 || i.Else != nil || i.Init != nil || len(i.Body.List) == 0 {
				return
			}
			end, ok := i.Body.List[len(i.Body.List)-1].(*ast.ReturnStmt)
			if !ok || len(end.Results) != len(last.Results) {
				return
			}
			sig := f.pkg.TypesInfo.Defs[fn.Name].Type().(*types.Signature)
			decl, set, other, names := "", "", "", ""
			for k := range last.Results {
				t, ok := f.typeString(sig.Results().At(k).Type())
				if !ok {
					return
				}
				r := f.fresh("result")
				decl += fmt.Sprintf("var %s %s\n", r, t)
				set += fmt.Sprintf("%s = %s\n", r, f.text(end.Results[k]))
				other += fmt.Sprintf("%s = %s\n", r, f.text(last.Results[k]))
				names += ", " + r
			}
			f.replace(i.Pos(), last.End(), fmt.Sprintf("%sif %s {\n%s\n%s} else {\n%s}\nreturn %s", decl, f.text(i.Cond), f.between(i.Body.Lbrace+1, end.Pos()), set, other, names[2:]))
		})
	},
	// x := T{a: b, c: d}  ->  var x T; x.a = b; x.c = d
	"fields-apart": func(f *file) {
		f.inFunctions(func(fn *ast.FuncDecl, n, parent ast.Node) {
			a, ok := n.(*ast.AssignStmt)
			if !ok || a.Tok != token.DEFINE || len(a.Lhs) != 1 {
				return
			}
			switch parent.(type) {
			case *ast.BlockStmt, *ast.CaseClause:
			default:
				return
			}
			lit, ptr := a.Rhs[0], ""
			if u, ok := lit.(*ast.UnaryExpr); ok && u.Op == token.AND {
				lit, ptr = u.X, "&"
			}
			c, ok := lit.(*ast.CompositeLit)
			if !ok || c.Type == nil || len(c.Elts) == 0 {
				return
			}
			if _, isStruct := f.pkg.TypesInfo.TypeOf(c).Underlying().(*types.Struct); !isStruct {
				return
			}
			text := fmt.Sprintf("%s := %s%s{}\n", f.text(a.Lhs[0]), ptr, f.text(c.Type))
			for _, e := range c.Elts {
				kv, ok := e.(*ast.KeyValueExpr)
				if !ok {
					return
				}
				if sub, ok := kv.Value.(*ast.CompositeLit); ok && sub.Type == nil {
					return
				}
				text += fmt.Sprintf("%s.%s = %s\n", f.text(a.Lhs[0]), f.text(kv.Key), f.text(kv.Value))
			}
			f.replace(a.Pos(), a.End(), text)
		})
	},
	// a := x; b := y  ->  b := y; a := x
	"reorder": func(f *file) {
		f.inFunctions(func(fn *ast.FuncDecl, n, parent ast.Node) {
			b, ok := n.(*ast.BlockStmt)
			if !ok {
				return
			}
			plain := func(s ast.Stmt) (vars []types.Object, ok bool) {
				a, ok := s.(*ast.AssignStmt)
				if !ok || a.Tok != token.DEFINE {
					return nil, false
				}
				for _, l := range a.Lhs {
					o := f.pkg.TypesInfo.Defs[l.(*ast.Ident)]
					if o == nil {
						return nil, false
					}
					vars = append(vars, o)
				}
				for _, r := range a.Rhs {
					if has(r, func(n ast.Node) bool {
						switch n := n.(type) {
						case *ast.CallExpr:
							t := f.text(n.Fun)
							return t != "len" && t != "string" && !strings.HasPrefix(t, "strings.") && !strings.HasPrefix(t, "filepath.") && t != "fmt.Sprintf"
						case *ast.FuncLit, *ast.IndexExpr, *ast.SliceExpr, *ast.StarExpr, *ast.TypeAssertExpr:
							return true
						case *ast.UnaryExpr:
							return n.Op == token.ARROW
						}
						return false
					}) {
						return nil, false
					}
				}
				return vars, true
			}
			for k := 0; k+1 < len(b.List); k++ {
				va, ok1 := plain(b.List[k])
				_, ok2 := plain(b.List[k+1])
				if !ok1 || !ok2 {
					continue
				}
				used := false
				for _, v := range va {
					used = used || f.uses(v, b.List[k+1])
				}
				if used {
					continue
				}
				f.replace(b.List[k].Pos(), b.List[k+1].End(), f.text(b.List[k+1])+"\n"+f.text(b.List[k]))
				k++
			}
		})
	},
	// for i := 0; i < n; i++ { }  ->  i := 0; for i < n { ...; i++ }
	"while-loop": func(f *file) {
		f.inFunctions(func(fn *ast.FuncDecl, n, parent ast.Node) {
			l, ok := n.(*ast.ForStmt)
			if !ok || l.Post == nil || l.Cond == nil || l.Init == nil || continues(l.Body) || has(l.Body, isLit) {
				return
			}
			if _, block := parent.(*ast.BlockStmt); !block {
				return
			}
			text := fmt.Sprintf("{\n%s\nfor %s {%s\n%s\n}\n}", f.text(l.Init), f.text(l.Cond), f.body(l.Body), f.text(l.Post))
			f.replace(l.Pos(), l.End(), text)
		})
	},
	// for cond { }  ->  for { if !cond { break } }
	"endless-loop": func(f *file) {
		f.inFunctions(func(fn *ast.FuncDecl, n, parent ast.Node) {
			l, ok := n.(*ast.ForStmt)
			if !ok || l.Cond == nil {
				return
			}
			if l.Post != nil || l.Init != nil {
				init, post := "", ""
				if l.Init != nil {
					init = f.text(l.Init)
				}
				if l.Post != nil {
					post = f.text(l.Post)
				}
				f.replace(l.Pos(), l.Body.Lbrace+1, fmt.Sprintf("for %s;; %s {\nif %s {\nbreak\n}\n", init, post, f.negate(l.Cond)))
				return
			}
			f.replace(l.Pos(), l.Body.Lbrace+1, fmt.Sprintf("for {\nif %s {\nbreak\n}\n", f.negate(l.Cond)))
		})
	},
	// if c { A } else { B }  ->  if !c { B } else { A }
	"swap-else": func(f *file) {
		f.inFunctions(func(fn *ast.FuncDecl, n, parent ast.Node) {
			i, ok := n.(*ast.IfStmt)
			if !ok || i.Else == nil {
				return
			}
			init := ""
			if i.Init != nil {
				init = f.text(i.Init) + "; "
			}
			other := f.text(i.Else)
			if _, block := i.Else.(*ast.BlockStmt); !block {
				other = "{\n" + other + "\n}"
			}
			f.replace(i.Pos(), i.End(), fmt.Sprintf("if %s%s %s else %s", init, f.negate(i.Cond), other, f.text(i.Body)))
		})
	},
	// if c { return }; rest  ->  if !c { rest } else { return }
	"nest-rest": func(f *file) {
		f.inFunctions(func(fn *ast.FuncDecl, n, parent ast.Node) {
			b, ok := n.(*ast.BlockStmt)
			if !ok || b != fn.Body {
				return
			}
			for k, s := range b.List {
				i, ok := s.(*ast.IfStmt)
				if !ok || i.Else != nil || !terminates(i.Body.List) || k == len(b.List)-1 {
					continue
				}
				if fn.Type.Results != nil && !terminates(b.List[k+1:]) {
					continue
				}
				init := ""
				if i.Init != nil {
					init = f.text(i.Init) + "; "
				}
				// names of the init statement would hide others in the rest
				if i.Init != nil {
					continue
				}
				f.replace(i.Pos(), b.Rbrace, fmt.Sprintf("if %s%s {\n%s\n} else %s\n", init, f.negate(i.Cond), f.between(i.End(), b.Rbrace), f.text(i.Body)))
			}
		})
	},
	// if a && b { A }  ->  if a { if b { A } }
	"nest-and": func(f *file) {
		f.inFunctions(func(fn *ast.FuncDecl, n, parent ast.Node) {
			i, ok := n.(*ast.IfStmt)
			if !ok || i.Else != nil {
				return
			}
			if p, is := parent.(*ast.IfStmt); is && p.Else == ast.Stmt(i) {
				return
			}
			c, ok := i.Cond.(*ast.BinaryExpr)
			if !ok || c.Op != token.LAND {
				return
			}
			init := ""
			if i.Init != nil {
				init = f.text(i.Init) + "; "
			}
			f.replace(i.Pos(), i.End(), fmt.Sprintf("if %s%s {\nif %s %s\n}", init, f.text(c.X), f.text(c.Y), f.text(i.Body)))
		})
	},
	// if cond  ->  met := cond; if met
	"name-condition": func(f *file) {
		f.inFunctions(func(fn *ast.FuncDecl, n, parent ast.Node) {
			i, ok := n.(*ast.IfStmt)
			if !ok || i.Init != nil {
				return
			}
			if _, block := parent.(*ast.BlockStmt); !block {
				return
			}
			name := f.fresh("met")
			f.replace(i.Pos(), i.Cond.End(), fmt.Sprintf("%s := %s\nif %s", name, f.text(i.Cond), name))
		})
	},
	// if cond  ->  if helper(vars)
	"extract-condition": func(f *file) {
		f.inFunctions(func(fn *ast.FuncDecl, n, parent ast.Node) {
			i, ok := n.(*ast.IfStmt)
			if !ok || has(i.Cond, isLit) || has(i.Cond, isAddr) {
				return
			}
			vars, ok := f.locals([]ast.Node{i.Cond})
			if !ok {
				return
			}
			ps, as, ok := f.params(vars)
			if !ok {
				return
			}
			name := f.fresh("holds")
			if f.replace(i.Cond.Pos(), i.Cond.End(), name+"("+as+")") {
				f.tail = append(f.tail, fmt.Sprintf("func %s(%s) bool {\nreturn %s\n}", name, ps, f.text(i.Cond)))
			}
		})
	},
	// if cond  ->  check := func() bool { return cond }; if check()
	"closure-condition": func(f *file) {
		f.inFunctions(func(fn *ast.FuncDecl, n, parent ast.Node) {
			i, ok := n.(*ast.IfStmt)
			if !ok || i.Init != nil || has(i.Cond, isLit) {
				return
			}
			if _, block := parent.(*ast.BlockStmt); !block {
				return
			}
			name := f.fresh("check")
			f.replace(i.Pos(), i.Cond.End(), fmt.Sprintf("%s := func() bool {\nreturn %s\n}\nif %s()", name, f.text(i.Cond), name))
		})
	},
	// the body of a loop or branch becomes a closure
	"closure-block": func(f *file) {
		f.inFunctions(func(fn *ast.FuncDecl, n, parent ast.Node) {
			var b *ast.BlockStmt
			switch n := n.(type) {
			case *ast.IfStmt:
				b = n.Body
			case *ast.ForStmt:
				b = n.Body
			case *ast.RangeStmt:
				b = n.Body
			default:
				return
			}
			if len(b.List) == 0 || branches(b) || has(b, isLit) || has(b, func(n ast.Node) bool {
				switch n.(type) {
				case *ast.ReturnStmt, *ast.DeferStmt:
					return true
				}
				return false
			}) {
				return
			}
			name := f.fresh("step")
			f.replace(b.Lbrace+1, b.Rbrace, fmt.Sprintf("\n%s := func() {%s\n}\n%s()\n", name, f.body(b), name))
		})
	},
	// func f() (T, error)  ->  func f() (result T, err error)
	"named-results": func(f *file) {
		for _, d := range f.ast.Decls {
			fn, ok := d.(*ast.FuncDecl)
			if !ok || fn.Body == nil || fn.Type.Results == nil {
				continue
			}
			var names, list []string
			for _, r := range fn.Type.Results.List {
				if len(r.Names) > 0 {
					names = nil
					break
				}
				n := f.fresh("result")
				names = append(names, n)
				list = append(list, n+" "+f.text(r.Type))
			}
			if len(names) == 0 {
				continue
			}
			f.replace(fn.Type.Results.Pos(), fn.Type.Results.End(), "("+strings.Join(list, ", ")+")")
			var lits []*ast.FuncLit
			ast.Inspect(fn.Body, func(n ast.Node) bool {
				if l, ok := n.(*ast.FuncLit); ok {
					lits = append(lits, l)
				}
				return true
			})
			ast.Inspect(fn.Body, func(n ast.Node) bool {
				if isLit(n) {
					return false
				}
				r, ok := n.(*ast.ReturnStmt)
				if !ok || len(r.Results) == 0 {
					return true
				}
				f.replace(r.Pos(), r.Pos()+6, strings.Join(names, ", ")+" =")
				f.replace(r.End(), r.End(), "\nreturn")
				return false
			})
		}
	},
	// x == ""  ->  len(x) == 0
	"empty-length": func(f *file) {
		f.inFunctions(func(fn *ast.FuncDecl, n, parent ast.Node) {
			b, ok := n.(*ast.BinaryExpr)
			if !ok || b.Op != token.EQL && b.Op != token.NEQ {
				return
			}
			if l, is := b.Y.(*ast.BasicLit); is && l.Value == `""` {
				f.replace(b.Pos(), b.End(), fmt.Sprintf("len(%s) %s 0", f.text(b.X), b.Op))
			}
		})
	},
	// len(x) == 0 -> len(x) < 1; x > n -> x >= n+1
	"other-bounds": func(f *file) {
		f.inFunctions(func(fn *ast.FuncDecl, n, parent ast.Node) {
			b, ok := n.(*ast.BinaryExpr)
			if !ok {
				return
			}
			if t, is := f.pkg.TypesInfo.TypeOf(b.X).(*types.Basic); !is || t.Kind() != types.Int {
				return
			}
			switch b.Op {
			case token.LSS:
				f.replace(b.Pos(), b.End(), fmt.Sprintf("%s+1 <= %s", f.text(b.X), f.text(b.Y)))
			case token.GTR:
				f.replace(b.Pos(), b.End(), fmt.Sprintf("%s >= %s+1", f.text(b.X), f.text(b.Y)))
			case token.LEQ:
				f.replace(b.Pos(), b.End(), fmt.Sprintf("!(%s > %s)", f.text(b.X), f.text(b.Y)))
			case token.GEQ:
				f.replace(b.Pos(), b.End(), fmt.Sprintf("!(%s < %s)", f.text(b.X), f.text(b.Y)))
			}
		})
	},
	// strings.HasPrefix(x, "ab")  ->  len(x) >= 2 && x[:2] == "ab"
	"plain-prefix": func(f *file) {
		f.inFunctions(func(fn *ast.FuncDecl, n, parent ast.Node) {
			c, ok := n.(*ast.CallExpr)
			if !ok || len(c.Args) != 2 {
				return
			}
			l, lit := c.Args[1].(*ast.BasicLit)
			if !lit || f.text(c.Fun) != "strings.HasPrefix" {
				return
			}
			if _, id := c.Args[0].(*ast.Ident); !id {
				return
			}
			s, _ := strconv.Unquote(l.Value)
			x := f.text(c.Args[0])
			f.replace(c.Pos(), c.End(), fmt.Sprintf("(len(%s) >= %d && %s[:%d] == %s)", x, len(s), x, len(s), l.Value))
		})
		f.keep("strings")
	},
	// errors.Wrap(err, "text")  ->  fmt.Errorf("text: %w", err)
	"wrap-errors": func(f *file) {
		found := false
		f.inFunctions(func(fn *ast.FuncDecl, n, parent ast.Node) {
			c, ok := n.(*ast.CallExpr)
			if !ok || len(c.Args) != 2 || f.text(c.Fun) != "errors.Wrap" {
				return
			}
			found = true
			f.replace(c.Pos(), c.End(), fmt.Sprintf("errors.Wrapf(%s, \"%%s\", %s)", f.text(c.Args[0]), f.text(c.Args[1])))
		})
		_ = found
	},
	// x := expr -> x := helper(vars)
	"extract-value": func(f *file) {
		f.inFunctions(func(fn *ast.FuncDecl, n, parent ast.Node) {
			a, ok := n.(*ast.AssignStmt)
			if !ok || len(a.Rhs) != 1 || has(a.Rhs[0], isLit) || has(a.Rhs[0], isAddr) || (a.Tok != token.DEFINE && a.Tok != token.ASSIGN) {
				return
			}
			if has(a.Rhs[0], func(n ast.Node) bool { u, ok := n.(*ast.UnaryExpr); return ok && u.Op == token.ARROW }) {
				return
			}
			switch a.Rhs[0].(type) {
			case *ast.Ident, *ast.BasicLit:
				return
			}
			vars, ok := f.locals([]ast.Node{a.Rhs[0]})
			if !ok {
				return
			}
			ps, as, ok := f.params(vars)
			if !ok {
				return
			}
			t := f.pkg.TypesInfo.TypeOf(a.Rhs[0])
			if _, call := a.Rhs[0].(*ast.CallExpr); !call && len(a.Lhs) != 1 {
				return
			}
			if tuple, is := t.(*types.Tuple); !is || tuple.Len() != len(a.Lhs) {
				if len(a.Lhs) != 1 {
					return
				}
			}
			ts, ok := f.typeString(t)
			if !ok {
				return
			}
			if tuple, is := t.(*types.Tuple); is {
				var parts []string
				for k := 0; k < tuple.Len(); k++ {
					p, ok := f.typeString(tuple.At(k).Type())
					if !ok {
						return
					}
					parts = append(parts, p)
				}
				ts = "(" + strings.Join(parts, ", ") + ")"
			}
			name := f.fresh("value")
			if f.replace(a.Rhs[0].Pos(), a.Rhs[0].End(), name+"("+as+")") {
				f.tail = append(f.tail, fmt.Sprintf("func %s(%s) %s {\nreturn %s\n}", name, ps, ts, f.text(a.Rhs[0])))
			}
		})
	},
	// the second half of a function becomes a function
	"extract-rest": func(f *file) {
		f.inFunctions(func(fn *ast.FuncDecl, n, parent ast.Node) {
			b, ok := n.(*ast.BlockStmt)
			if !ok || b != fn.Body || len(b.List) < 4 {
				return
			}
			f.extractRest(fn, len(b.List)/2)
		})
	},
	"extract-end": func(f *file) {
		f.inFunctions(func(fn *ast.FuncDecl, n, parent ast.Node) {
			b, ok := n.(*ast.BlockStmt)
			if !ok || b != fn.Body || len(b.List) < 3 {
				return
			}
			f.extractRest(fn, len(b.List)-2)
		})
	},
	"extract-start": func(f *file) {
		f.inFunctions(func(fn *ast.FuncDecl, n, parent ast.Node) {
			b, ok := n.(*ast.BlockStmt)
			if !ok || b != fn.Body || len(b.List) < 3 {
				return
			}
			f.extractRest(fn, 1)
		})
	},
	// the body of an if statement which assigns nothing outside becomes a function
	"extract-block": func(f *file) {
		f.inFunctions(func(fn *ast.FuncDecl, n, parent ast.Node) {
			var b *ast.BlockStmt
			switch n := n.(type) {
			case *ast.IfStmt:
				b = n.Body
			case *ast.ForStmt:
				b = n.Body
			case *ast.RangeStmt:
				b = n.Body
			default:
				return
			}
			if len(b.List) == 0 || branches(b) || has(b, isLit) || has(b, isAddr) || has(b, func(n ast.Node) bool {
				switch n.(type) {
				case *ast.ReturnStmt, *ast.DeferStmt:
					return true
				}
				return false
			}) {
				return
			}
			nodes := make([]ast.Node, len(b.List))
			for i := range b.List {
				nodes[i] = b.List[i]
			}
			vars, ok := f.locals(nodes)
			if !ok {
				return
			}
			var out []*types.Var
			for _, v := range vars {
				if f.assigned(b, v) {
					out = append(out, v)
				}
			}
			ps, as, ok := f.params(vars)
			if !ok || len(out) > 2 {
				return
			}
			results, ret, assign := "", "", ""
			if len(out) > 0 {
				var ts, ns []string
				for _, v := range out {
					s, ok := f.typeString(v.Type())
					if !ok {
						return
					}
					ts, ns = append(ts, s), append(ns, v.Name())
				}
				results, ret, assign = "("+strings.Join(ts, ", ")+")", "\nreturn "+strings.Join(ns, ", "), strings.Join(ns, ", ")+" = "
			}
			name := f.fresh("step")
			if f.replace(b.Lbrace+1, b.Rbrace, fmt.Sprintf("\n%s%s(%s)\n", assign, name, as)) {
				f.tail = append(f.tail, fmt.Sprintf("func %s(%s) %s {%s%s\n}", name, ps, results, f.body(b), ret))
			}
		})
	},
	// return f(x) -> a, b := f(x); return a, b
	"name-results": func(f *file) {
		f.inFunctions(func(fn *ast.FuncDecl, n, parent ast.Node) {
			r, ok := n.(*ast.ReturnStmt)
			if !ok || len(r.Results) == 0 {
				return
			}
			if _, block := parent.(*ast.BlockStmt); !block {
				return
			}
			var names, values []string
			if len(r.Results) == 1 {
				if tuple, is := f.pkg.TypesInfo.TypeOf(r.Results[0]).(*types.Tuple); is {
					for k := 0; k < tuple.Len(); k++ {
						names = append(names, f.fresh("result"))
					}
					f.replace(r.Pos(), r.End(), fmt.Sprintf("%s := %s\nreturn %s", strings.Join(names, ", "), f.text(r.Results[0]), strings.Join(names, ", ")))
					return
				}
			}
			for _, e := range r.Results {
				t := f.pkg.TypesInfo.TypeOf(e)
				if b, is := t.(*types.Basic); is && b.Kind() == types.UntypedNil {
					return
				}
				if f.pkg.TypesInfo.Types[e].Value != nil {
					return
				}
				names = append(names, f.fresh("result"))
				values = append(values, f.text(e))
			}
			f.replace(r.Pos(), r.End(), fmt.Sprintf("%s := %s\nreturn %s", strings.Join(names, ", "), strings.Join(values, ", "), strings.Join(names, ", ")))
		})
	},
	// f(g(x), y)  ->  v := g(x); f(v, y)
	"name-arguments": func(f *file) {
		f.inFunctions(func(fn *ast.FuncDecl, n, parent ast.Node) {
			if _, block := parent.(*ast.BlockStmt); !block {
				return
			}
			var call *ast.CallExpr
			switch s := n.(type) {
			case *ast.ExprStmt:
				call, _ = s.X.(*ast.CallExpr)
			case *ast.AssignStmt:
				if len(s.Rhs) == 1 {
					call, _ = s.Rhs[0].(*ast.CallExpr)
				}
				for _, l := range s.Lhs {
					if _, id := l.(*ast.Ident); !id {
						return
					}
				}
			case *ast.ReturnStmt:
				if len(s.Results) == 1 {
					call, _ = s.Results[0].(*ast.CallExpr)
				}
			}
			if call == nil || len(call.Args) == 0 || call.Ellipsis.IsValid() {
				return
			}
			if has(call.Fun, func(n ast.Node) bool { _, is := n.(*ast.CallExpr); return is }) {
				return
			}
			var pre strings.Builder
			var args []string
			changed := false
			for _, a := range call.Args {
				tv := f.pkg.TypesInfo.Types[a]
				if _, tuple := tv.Type.(*types.Tuple); tuple || tv.IsType() {
					return
				}
				_, id := a.(*ast.Ident)
				if id || tv.Value != nil || isLit(a) || tv.IsNil() {
					args = append(args, f.text(a))
					continue
				}
				name := f.fresh("argument")
				pre.WriteString(fmt.Sprintf("%s := %s\n", name, f.text(a)))
				args = append(args, name)
				changed = true
			}
			if !changed {
				return
			}
			f.replace(n.Pos(), n.End(), pre.String()+f.between(n.Pos(), call.Lparen+1)+strings.Join(args, ", ")+f.between(call.Rparen, n.End()))
		})
	},
	// config.Current.X  ->  current.X
	"name-settings": func(f *file) {
		for _, d := range f.ast.Decls {
			fn, ok := d.(*ast.FuncDecl)
			if !ok || fn.Body == nil {
				continue
			}
			var uses []*ast.SelectorExpr
			bad := false
			ast.Inspect(fn.Body, func(n ast.Node) bool {
				s, ok := n.(*ast.SelectorExpr)
				if !ok {
					return true
				}
				x, ok := s.X.(*ast.Ident)
				if ok && x.Name == "config" && s.Sel.Name == "Current" {
					uses = append(uses, s)
				}
				if s.Sel.Name == "LoadConfig" || s.Sel.Name == "MergeIntoCurrentConfig" || s.Sel.Name == "LoadProject" {
					bad = true
				}
				return true
			})
			if bad || len(uses) == 0 || fn.Name.Name == "main" || fn.Name.Name == "initialize" {
				continue
			}
			for _, s := range uses {
				f.replace(s.Pos(), s.End(), "settings")
			}
			f.replace(fn.Body.Lbrace+1, fn.Body.Lbrace+1, "\nsettings := config.Current\n")
		}
	},
	// switch x { case a: }  ->  if x == a { }
	"switch-to-if": func(f *file) {
		f.inFunctions(func(fn *ast.FuncDecl, n, parent ast.Node) {
			s, ok := n.(*ast.SwitchStmt)
			if !ok || s.Init != nil || has(s.Body, func(n ast.Node) bool {
				b, ok := n.(*ast.BranchStmt)
				return ok && (b.Tok == token.BREAK || b.Tok == token.FALLTHROUGH)
			}) {
				return
			}
			if _, block := parent.(*ast.BlockStmt); !block {
				return
			}
			value, pre := "", ""
			if s.Tag != nil {
				value = f.fresh("tag")
				pre = fmt.Sprintf("%s := %s\n", value, f.text(s.Tag))
			}
			var out strings.Builder
			var last string
			first := true
			for k, c := range s.Body.List {
				clause := c.(*ast.CaseClause)
				end := s.Body.Rbrace
				if k+1 < len(s.Body.List) {
					end = s.Body.List[k+1].Pos()
				}
				body := f.between(clause.Colon+1, end)
				if clause.List == nil {
					last = body
					continue
				}
				var conds []string
				for _, e := range clause.List {
					if value != "" {
						conds = append(conds, value+" == "+f.text(e))
					} else {
						conds = append(conds, "("+f.text(e)+")")
					}
				}
				if !first {
					out.WriteString(" else ")
				}
				first = false
				out.WriteString(fmt.Sprintf("if %s {%s\n}", strings.Join(conds, " || "), body))
			}
			if first {
				return
			}
			if last != "" {
				out.WriteString(" else {" + last + "\n}")
			} else if fn.Type.Results != nil {
				return
			}
			f.replace(s.Pos(), s.End(), pre+out.String())
		})
	},
	// if x == a { } else if x == b { } -> switch
	"if-to-switch": func(f *file) {
		f.inFunctions(func(fn *ast.FuncDecl, n, parent ast.Node) {
			i, ok := n.(*ast.IfStmt)
			if !ok || i.Init != nil || i.Else == nil {
				return
			}
			if _, block := parent.(*ast.BlockStmt); !block {
				return
			}
			var out strings.Builder
			out.WriteString("switch {\n")
			var cur ast.Stmt = i
			for cur != nil {
				switch c := cur.(type) {
				case *ast.IfStmt:
					if c.Init != nil || has(c.Body, func(n ast.Node) bool { b, ok := n.(*ast.BranchStmt); return ok && b.Tok == token.BREAK }) {
						return
					}
					out.WriteString(fmt.Sprintf("case %s:%s\n", f.text(c.Cond), f.body(c.Body)))
					cur = c.Else
				case *ast.BlockStmt:
					if has(c, func(n ast.Node) bool { b, ok := n.(*ast.BranchStmt); return ok && b.Tok == token.BREAK }) {
						return
					}
					out.WriteString(fmt.Sprintf("default:%s\n", f.body(c)))
					cur = nil
				}
			}
			out.WriteString("}")
			f.replace(i.Pos(), i.End(), out.String())
		})
	},
	// "text" -> a constant
	"name-texts": func(f *file) {
		f.inFunctions(func(fn *ast.FuncDecl, n, parent ast.Node) {
			l, ok := n.(*ast.BasicLit)
			if !ok || l.Kind != token.STRING || len(l.Value) < 3 {
				return
			}
			name := f.fresh("text")
			if f.replace(l.Pos(), l.End(), name) {
				f.tail = append(f.tail, fmt.Sprintf("const %s = %s", name, l.Value))
			}
		})
	},
	// a + b + c  ->  strings.Join([]string{a, b, c}, "")
	"join-texts": func(f *file) {
		imported := false
		for _, i := range f.ast.Imports {
			imported = imported || i.Path.Value == `"fmt"` && i.Name == nil
		}
		if !imported {
			return
		}
		f.inFunctions(func(fn *ast.FuncDecl, n, parent ast.Node) {
			b, ok := n.(*ast.BinaryExpr)
			if !ok || b.Op != token.ADD || f.pkg.TypesInfo.Types[b].Value != nil {
				return
			}
			if t, is := f.pkg.TypesInfo.TypeOf(b).(*types.Basic); !is || t.Kind() != types.String {
				return
			}
			if p, is := parent.(*ast.BinaryExpr); is && p.Op == token.ADD {
				return
			}
			var parts []string
			var flat func(e ast.Expr)
			flat = func(e ast.Expr) {
				if b, ok := e.(*ast.BinaryExpr); ok && b.Op == token.ADD && f.pkg.TypesInfo.Types[b].Value == nil {
					flat(b.X)
					flat(b.Y)
					return
				}
				parts = append(parts, f.text(e))
			}
			flat(b)
			f.replace(b.Pos(), b.End(), fmt.Sprintf("fmt.Sprintf(%q, %s)", strings.Repeat("%s", len(parts)), strings.Join(parts, ", ")))
		})
	},
	// x += y  ->  x = x + y, i++ -> i = i + 1
	"plain-assign": func(f *file) {
		f.inFunctions(func(fn *ast.FuncDecl, n, parent ast.Node) {
			switch a := n.(type) {
			case *ast.AssignStmt:
				if a.Tok == token.ADD_ASSIGN {
					if _, id := a.Lhs[0].(*ast.Ident); id {
						f.replace(a.Pos(), a.End(), fmt.Sprintf("%s = %s + %s", f.text(a.Lhs[0]), f.text(a.Lhs[0]), f.text(a.Rhs[0])))
					}
				}
			case *ast.IncDecStmt:
				f.replace(a.Pos(), a.End(), f.text(a.X)+" = "+f.text(a.X)+" "+a.Tok.String()[:1]+" 1")
			}
		})
	},
	// x := y  ->  var x T; x = y
	"declare-first": func(f *file) {
		f.inFunctions(func(fn *ast.FuncDecl, n, parent ast.Node) {
			a, ok := n.(*ast.AssignStmt)
			if !ok || a.Tok != token.DEFINE {
				return
			}
			if _, block := parent.(*ast.BlockStmt); !block {
				return
			}
			var decl strings.Builder
			for _, l := range a.Lhs {
				id := l.(*ast.Ident)
				v := f.pkg.TypesInfo.Defs[id]
				if v == nil {
					continue
				}
				t, ok := f.typeString(v.Type())
				if !ok || has(n, func(n ast.Node) bool {
					o, is := n.(*ast.Ident)
					return is && o != id && o.Name == id.Name
				}) {
					return
				}
				decl.WriteString(fmt.Sprintf("var %s %s\n", id.Name, t))
			}
			f.replace(a.Pos(), a.End(), decl.String()+f.between(a.Pos(), a.TokPos)+" = "+f.between(a.TokPos+2, a.End()))
		})
	},
	// if x { } -> comparison turned around: a < b -> b > a, a == b -> b == a, !(...)
	"turn-comparisons": func(f *file) {
		f.inFunctions(func(fn *ast.FuncDecl, n, parent ast.Node) {
			b, ok := n.(*ast.BinaryExpr)
			if !ok {
				return
			}
			turned := map[token.Token]string{token.LSS: ">", token.GTR: "<", token.LEQ: ">=", token.GEQ: "<=", token.EQL: "==", token.NEQ: "!="}
			op := turned[b.Op]
			call := func(n ast.Node) bool { _, is := n.(*ast.CallExpr); return is }
			if op == "" || has(b.X, call) && has(b.Y, call) || has(b, isLit) {
				return
			}
			f.replace(b.Pos(), b.End(), f.text(b.Y)+" "+op+" "+f.text(b.X))
		})
	},
	// the body of a function becomes a function of its own
	"wrap-function": func(f *file) {
		f.inFunctions(func(fn *ast.FuncDecl, n, parent ast.Node) {
			b, ok := n.(*ast.BlockStmt)
			if !ok || b != fn.Body || len(b.List) == 0 || fn.Name.Name == "main" || fn.Name.Name == "init" {
				return
			}
			f.extractRest(fn, 0)
		})
	},
	// break up: if a || b { return } -> if a { return } if b { return }
	"split-or": func(f *file) {
		f.inFunctions(func(fn *ast.FuncDecl, n, parent ast.Node) {
			i, ok := n.(*ast.IfStmt)
			if !ok || i.Else != nil || i.Init != nil || !terminates(i.Body.List) {
				return
			}
			if _, block := parent.(*ast.BlockStmt); !block {
				return
			}
			c, ok := i.Cond.(*ast.BinaryExpr)
			if !ok || c.Op != token.LOR {
				return
			}
			f.replace(i.Pos(), i.End(), fmt.Sprintf("if %s %s\nif %s %s", f.text(c.X), f.text(i.Body), f.text(c.Y), f.text(i.Body)))
		})
	},
	// else after return is dropped, or added
	"add-else": func(f *file) {
		f.inFunctions(func(fn *ast.FuncDecl, n, parent ast.Node) {
			b, ok := n.(*ast.BlockStmt)
			if !ok {
				return
			}
			for k, s := range b.List {
				i, ok := s.(*ast.IfStmt)
				if !ok || i.Else != nil || i.Init != nil || k == len(b.List)-1 {
					continue
				}
				last := i.Body.List
				if len(last) == 0 {
					continue
				}
				jump := terminates(last)
				if br, is := last[len(last)-1].(*ast.BranchStmt); is && br.Tok == token.CONTINUE {
					jump = true
				}
				if !jump || fn.Type.Results != nil && b == fn.Body && !terminates(b.List[k+1:]) {
					continue
				}
				if has(fn, func(n ast.Node) bool { _, is := n.(*ast.LabeledStmt); return is }) {
					continue
				}
				f.replace(i.End(), i.End(), " else {\n")
				f.replace(b.Rbrace, b.Rbrace, "}\n")
				return
			}
		})
	},
	// calls inside of if headers are moved in front: if err := f(); err != nil -> err := f() in a block
	"init-outside": func(f *file) {
		f.inFunctions(func(fn *ast.FuncDecl, n, parent ast.Node) {
			i, ok := n.(*ast.IfStmt)
			if !ok || i.Init == nil {
				return
			}
			if _, block := parent.(*ast.BlockStmt); !block {
				return
			}
			f.replace(i.Pos(), i.End(), "{\n"+f.text(i.Init)+"\nif "+f.between(i.Cond.Pos(), i.End())+"\n}")
		})
	},
}

func (f *file) extractRest(fn *ast.FuncDecl, k int) {
	b := fn.Body
	if has(b, func(n ast.Node) bool { _, is := n.(*ast.LabeledStmt); return is }) {
		return
	}
	var results []string
	if fn.Type.Results != nil {
		for _, r := range fn.Type.Results.List {
			if len(r.Names) > 0 {
				return
			}
			results = append(results, f.text(r.Type))
		}
	}
	for _, s := range b.List[:k] {
		if has(s, isLit) || has(s, isAddr) || has(s, func(n ast.Node) bool { _, is := n.(*ast.DeferStmt); return is }) && false {
			return
		}
	}
	var nodes []ast.Node
	for _, s := range b.List[k:] {
		nodes = append(nodes, s)
	}
	vars, ok := f.locals(nodes)
	if !ok {
		return
	}
	ps, as, ok := f.params(vars)
	if !ok {
		return
	}
	name := f.fresh("rest")
	call := name + "(" + as + ")"
	result := ""
	if len(results) > 0 {
		call = "return " + call
		result = "(" + strings.Join(results, ", ") + ")"
	}
	if fn.Type.TypeParams != nil {
		return
	}
	if fn.Recv != nil && len(fn.Recv.List[0].Names) > 0 && has(fn.Recv, func(n ast.Node) bool { _, is := n.(*ast.IndexExpr); return is }) {
		return
	}
	rest := f.between(b.List[k].Pos(), b.Rbrace)
	if f.replace(b.List[k].Pos(), b.Rbrace, call+"\n") {
		f.tail = append(f.tail, fmt.Sprintf("func %s(%s) %s {\n%s}", name, ps, result, rest))
	}
}

func main() {
	if len(os.Args) < 3 {
		var names []string
		for k := range kinds {
			names = append(names, k)
		}
		sort.Strings(names)
		fmt.Println(strings.Join(names, "\n"))
		return
	}
	kind, dir := os.Args[1], os.Args[2]
	only := map[string]bool{}
	for _, a := range os.Args[3:] {
		only[a] = true
	}
	fset := token.NewFileSet()
	pkgs, err := packages.Load(&packages.Config{Mode: packages.NeedName | packages.NeedFiles | packages.NeedSyntax | packages.NeedTypes | packages.NeedTypesInfo | packages.NeedImports | packages.NeedDeps, Dir: dir, Fset: fset}, "./...")
	if err != nil {
		panic(err)
	}
	for _, p := range pkgs {
		for i, a := range p.Syntax {
			name := p.CompiledGoFiles
			_ = name
			path := fset.Position(a.Pos()).Filename
			rel, _ := filepath.Rel(dir, path)
			if len(only) > 0 && !only[rel] || strings.HasPrefix(rel, "..") {
				continue
			}
			src, err := os.ReadFile(path)
			if err != nil {
				panic(err)
			}
			_ = i
			f := &file{name: path, src: src, ast: a, pkg: p, fset: fset}
			kinds[kind](f)
			if len(f.edits) == 0 {
				continue
			}
			sort.SliceStable(f.edits, func(i, j int) bool { return f.edits[i].from < f.edits[j].from })
			var out bytes.Buffer
			at := 0
			for _, e := range f.edits {
				out.Write(src[at:e.from])
				out.WriteString(e.text)
				at = e.to
			}
			out.Write(src[at:])
			for _, t := range f.tail {
				out.WriteString("\n" + t + "\n")
			}
			formatted, err := format.Source(out.Bytes())
			if err != nil {
				fmt.Println(rel, "does not parse:", err)
				os.WriteFile("/tmp/refactor.bad", out.Bytes(), 0o644)
				continue
			}
			if err := os.WriteFile(path, formatted, 0o644); err != nil {
				panic(err)
			}
			fmt.Println(rel, len(f.edits))
		}
	}
}
