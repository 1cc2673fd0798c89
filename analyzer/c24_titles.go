package main

import (
	"go/constant"
	"go/token"
	"regexp/syntax"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// titles checks the title of each page in the table of contents: it ends where the heading ends that it is taken from.
func (c *bookCheck) titles(title ssa.Value, at string) {
	for re := range c.searches(title, 0, map[ssa.Value]bool{}) {
		pattern, ok := c.pattern(re)
		if !ok {
			continue
		}
		t, err := syntax.Parse(pattern, syntax.Perl)
		if err != nil {
			continue
		}
		c.r.Count("titles taken from pages", 1)
		if greedyGroup(t) {
			c.bad("title", at, "the title of a page is found with %q, which goes on to the last such end in the page, so that the title may contain large parts of the page", pattern)
		}
	}
}

// searches finds the regular expressions that a text was found with.
func (c *bookCheck) searches(v ssa.Value, d int, seen map[ssa.Value]bool) map[ssa.Value]bool {
	out := map[ssa.Value]bool{}
	add := func(vs ...ssa.Value) {
		for _, x := range vs {
			for r := range c.searches(x, d+1, seen) {
				out[r] = true
			}
		}
	}
	if v == nil || d > 20 || seen[v] {
		return out
	}
	seen[v] = true
	switch x := c.p.resolve(v).(type) {
	case *ssa.Phi:
		add(x.Edges...)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			add(x.X)
		}
	case *ssa.IndexAddr:
		add(x.X)
	case *ssa.Index:
		add(x.X)
	case *ssa.Extract:
		add(x.Tuple)
	case *ssa.Parameter:
		for i, q := range x.Parent().Params {
			if q != x {
				continue
			}
			for _, f := range c.p.Funcs {
				for _, s := range CallSites(f) {
					if s.Common().StaticCallee() == x.Parent() && i < len(s.Common().Args) {
						add(s.Common().Args[i])
					}
				}
			}
		}
	case *ssa.Call:
		k := CalleeKey(&x.Call)
		switch {
		case strings.HasPrefix(k, "(*regexp.Regexp).Find"):
			out[x.Call.Args[0]] = true
		case strings.HasPrefix(k, "strings.Trim"), strings.HasPrefix(k, "html.Unescape"):
			add(x.Call.Args[0])
		default:
			if f := x.Call.StaticCallee(); f != nil && c.p.IsRepoFn(f) {
				for _, b := range f.Blocks {
					if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
						add(ret.Results...)
					}
				}
			}
		}
	}
	return out
}

// pattern is the constant text of a regular expression.
func (c *bookCheck) pattern(v ssa.Value) (string, bool) {
	v = c.p.resolve(v)
	if u, ok := v.(*ssa.UnOp); ok {
		if g, ok := u.X.(*ssa.Global); ok && len(c.p.storesTo[g]) == 1 {
			v = c.p.resolve(c.p.storesTo[g][0].Val)
		}
	}
	if e, ok := v.(*ssa.Extract); ok {
		v = e.Tuple
	}
	call, ok := v.(*ssa.Call)
	if !ok || !strings.HasPrefix(CalleeKey(&call.Call), "regexp.") || len(call.Call.Args) == 0 {
		return "", false
	}
	k, ok := call.Call.Args[0].(*ssa.Const)
	if !ok || k.Value == nil {
		return "", false
	}
	return constant.StringVal(k.Value), true
}

// greedyGroup: what the expression captures may contain the end it looks for.
func greedyGroup(t *syntax.Regexp) bool {
	greedy := func(t *syntax.Regexp) bool { return false }
	greedy = func(t *syntax.Regexp) bool {
		if (t.Op == syntax.OpStar || t.Op == syntax.OpPlus || t.Op == syntax.OpRepeat && t.Max < 0) && t.Flags&syntax.NonGreedy == 0 {
			s := t.Sub[0]
			if s.Op == syntax.OpAnyChar || s.Op == syntax.OpAnyCharNotNL {
				return true
			}
			if s.Op == syntax.OpCharClass {
				for i := 0; i+1 < len(s.Rune); i += 2 {
					if s.Rune[i] <= '<' && '<' <= s.Rune[i+1] {
						return true
					}
				}
			}
		}
		for _, s := range t.Sub {
			if greedy(s) {
				return true
			}
		}
		return false
	}
	if t.Op == syntax.OpCapture {
		return greedy(t)
	}
	for _, s := range t.Sub {
		if greedyGroup(s) {
			return true
		}
	}
	return false
}
