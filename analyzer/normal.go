package main

import (
	_ "embed"
	"fmt"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The functions the rules have been written for. A function which is not among them has been split off from one of
// these (or is new): it is analysed as a part of the functions calling it.
//
//go:embed functions.txt
var knownFunctions string

func (p *Program) normalise(all map[*ssa.Function]bool) map[*ssa.Function]bool {
	known := map[string]bool{}
	for _, l := range strings.Split(knownFunctions, "\n") {
		known[l] = true
	}
	var fns []*ssa.Function
	invoked := map[string]bool{}
	for fn := range all {
		if p.IsRepoFn(fn) && len(fn.Blocks) > 0 {
			fns = append(fns, fn)
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok && c.Common().IsInvoke() {
					invoked[c.Common().Method.Name()] = true
				}
			}
		}
	}
	sort.Slice(fns, func(i, j int) bool {
		if fns[i].String() != fns[j].String() {
			return fns[i].String() < fns[j].String()
		}
		return fns[i].Pos() < fns[j].Pos()
	})
	if os.Getenv("WIKILINT_FUNCTIONS") != "" {
		for _, fn := range fns {
			if fn.Parent() == nil {
				fmt.Println(functionName(fn))
			}
		}
		os.Exit(0)
	}
	for _, x := range strings.Split(os.Getenv("WIKILINT_UNKNOWN"), ",") {
		delete(known, x)
	}
	chosen := map[*ssa.Function]bool{}
	for _, fn := range fns {
		if fn.Synthetic != "" && fn.Origin() == nil || fn.Name() == "init" || fn.Name() == "main" {
			continue
		}
		if fn.Parent() == nil && !known[functionName(fn)] {
			chosen[fn] = true
		}
	}
	defer func() {
		for _, fn := range fns {
			ssa.TestFirst(fn)
			ssa.ZeroStores(fn)
			ssa.TurnComparisons(fn)
			ssa.JoinTexts(fn)
			ssa.ThreadJumps(fn)
			if os.Getenv("WIKILINT_SANE") != "" && p.isFn[fn] {
				ssa.Sane(fn)
			}
			if d := os.Getenv("WIKILINT_DUMP"); d != "" && strings.HasSuffix(fn.String(), d) {
				fn.WriteTo(os.Stderr)
			}
		}
	}()
	for _, fn := range fns {
		if fn.Parent() != nil && ssa.OnlyCalled(fn) {
			chosen[fn] = true
		}
	}
	if len(chosen) == 0 {
		return nil
	}
	calls := func(fn *ssa.Function) (out []*ssa.Function) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(*ssa.Call); ok {
					if f := c.Call.StaticCallee(); f != nil {
						out = append(out, f)
					}
				}
			}
		}
		return
	}
	// functions calling themselves stay
	for fn := range chosen {
		seen := map[*ssa.Function]bool{}
		var visit func(f *ssa.Function) bool
		visit = func(f *ssa.Function) bool {
			for _, g := range calls(f) {
				if g == fn {
					return true
				}
				if !seen[g] && chosen[g] {
					seen[g] = true
					if visit(g) {
						return true
					}
				}
			}
			return false
		}
		if visit(fn) || !ssa.CanInline(fn) {
			delete(chosen, fn)
		}
	}
	called := map[*ssa.Function]bool{}
	callers := map[*ssa.Function]int{}
	for _, fn := range fns {
		for _, f := range calls(fn) {
			called[f] = true
			callers[f]++
		}
	}
	// those with functions of their own which outlive the call stay, unless they are called once
	for fn := range chosen {
		for _, a := range fn.AnonFuncs {
			if callers[fn] > 1 && !ssa.OnlyCalled(a) {
				delete(chosen, fn)
			}
		}
	}
	for _, fn := range fns {
		ssa.InlineCalls(fn, func(f *ssa.Function) bool {
			return chosen[f] || f.Parent() != nil && (chosen[f.Parent()] || ssa.OnlyCalled(f))
		})
	}
	// those not used any more are dropped
	used := map[*ssa.Function]bool{}
	var rands []*ssa.Value
	for _, fn := range fns {
		if chosen[fn] {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				rands = in.Operands(rands[:0])
				for _, r := range rands {
					if f, ok := (*r).(*ssa.Function); ok {
						used[f] = true
					}
				}
			}
		}
	}
	dropped := map[*ssa.Function]bool{}
	for fn := range chosen {
		if used[fn] || fn.Signature.Recv() != nil && invoked[fn.Name()] || !called[fn] {
			continue
		}
		dropped[fn] = true
	}
	for _, fn := range fns {
		if os.Getenv("WIKILINT_SANE") != "" && fn.Parent() == nil && !known[functionName(fn)] && !dropped[fn] && fn.Synthetic == "" {
			fmt.Fprintln(os.Stderr, "not a part of others:", fn, chosen[fn], used[fn], called[fn])
		}
		if !dropped[fn] {
			p.adopt(fn)
		}
	}
	for _, fn := range fns {
		if fn.Parent() != nil && dropped[fn.Parent()] && !used[fn] {
			dropped[fn] = true
		}
	}
	return dropped
}

// adopt makes the function the parent of the closures which have been moved into it.
func (p *Program) adopt(fn *ssa.Function) {
	for _, a := range fn.AnonFuncs {
		if a.Parent() != fn {
			ssa.Adopt(a, fn)
		}
	}
}

func functionName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	return fn.String()
}
