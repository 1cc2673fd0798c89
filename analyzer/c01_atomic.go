package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C01", Title: "cache entries are published atomically and completely",
		Rule: "typestate over every path of every function publishing files (repository callees inlined): a rename into place takes a temp file of the cache's temp directory, whose every write and whose close returned nil before the rename; a nil error is returned only after a successful rename; a temp file that was not renamed is removed on every return; no other construct of the caching, download and image packages writes file contents",
		Run:  runC01})
}

// rawWriters are the standard-library calls that create or change file contents under a caller-chosen name.
var rawWriters = map[string]bool{"os.Create": true, "os.OpenFile": true, "os.WriteFile": true, "io/ioutil.WriteFile": true, "os.Truncate": true, "os.Link": true, "os.Symlink": true, "os.CopyFS": true}

func reachesExternal(p *Program, fn *ssa.Function, names map[string]bool) bool {
	return p.ReachesCall(fn, func(c *ssa.CallCommon) bool { return names[CalleeKey(c)] })
}

func smallPure(fn *ssa.Function) bool {
	n := 0
	for _, b := range fn.Blocks {
		n += len(b.Instrs)
		for _, su := range b.Succs {
			if su.Dominates(b) {
				return false
			}
		}
	}
	return n <= defaultInlineInstrs
}

func runC01(p *Program, r *Report) {
	r.Assume = []string{"os.Rename within one file system is atomic; io.Copy, Write and Close report failures through their error", "files written by external image tools (ConvertToPng, ResizeAndCompressImage command templates) are outside the rule"}
	// who may write
	for _, fn := range p.Funcs {
		rel := strings.TrimPrefix(strings.TrimPrefix(fnPkg(fn).Path(), modPath), "/")
		for _, c := range CallSites(fn) {
			k := CalleeKey(c.Common())
			if !rawWriters[k] && k != "iface(wiki2book/util.Filesystem).Create" {
				continue
			}
			r.Count("raw_write_sites", 1)
			switch {
			case rel == "": // main: output file and diagnostics, outside the cache
			case rel == "util" && k == "os.Create": // the body of Filesystem.Create
			case rel == "generator" && k == "iface(wiki2book/util.Filesystem).Create": // the statistics output file
			default:
				r.Bad("raw-write:"+FnName(fn)+":"+k, p.At(c), "%s writes file contents with %s instead of publishing a finished temp file", FnName(fn), k)
			}
		}
	}
	names := map[string]bool{"os.Rename": true}
	// entries: exported functions that reach a rename, outermost caching API
	var entries []*ssa.Function
	for _, rel := range []string{"cache", "image"} {
		for _, fn := range p.Funcs {
			if fnPkg(fn).Path() != modPath+"/"+rel || fn.Parent() != nil || fn.Object() == nil || !fn.Object().Exported() {
				continue
			}
			if reachesExternal(p, fn, names) || callsFs(p, fn, "Rename") {
				entries = append(entries, fn)
			}
		}
	}
	for _, fn := range entries {
		r.Count("publishing_entries", 1)
		checkPublish(p, r, fn)
	}
	if p.Func("cache", "CacheToFile") == nil {
		r.Undecided("anchor", "-", "cache.CacheToFile not found")
	}
	r.AtLeast("publishing_entries", 1)
	r.AtLeast("renames_checked", 1)
}

func callsFs(p *Program, fn *ssa.Function, m string) bool {
	return p.ReachesCall(fn, func(c *ssa.CallCommon) bool {
		return c.IsInvoke() && c.Method.Name() == m && strings.HasSuffix(c.Value.Type().String(), "util.Filesystem")
	})
}

func checkPublish(p *Program, r *Report, entry *ssa.Function) {
	e := NewEngine(p)
	events := map[string]bool{"os.Rename": true, "os.CreateTemp": true, "os.Remove": true, "os.MkdirAll": true, "io.Copy": true}
	e.Inline = func(fn *ssa.Function) bool {
		return reachesExternal(p, fn, events) || smallPure(fn)
	}
	// automaton per temp file: regs "file" = the temp file, "w<n>" = error of a write, "close" = error of the close
	isFile := func(s *State, t *Term) bool {
		f := s.regs["file"]
		if f == nil {
			return false
		}
		for t.op == "iface" || t.op == "unbox" {
			t = t.args[0]
		}
		return t == f
	}
	e.OnCall = func(ev *CallEv) ([]*Term, bool) {
		s := ev.S
		switch ev.Key {
		case "os.CreateTemp":
			rs := e.freshResults(s, ev, 2)
			s.regs["file"], s.regs["fileErr"], s.regs["dir"] = rs[0], rs[1], ev.Args[0]
			s.auto = map[string]string{"st": "open"}
			delete(s.regs, "werr")
			delete(s.regs, "cerr")
			return rs, true
		case "io.Copy", "io.CopyN", "io.CopyBuffer", "io.WriteString", "fmt.Fprint", "fmt.Fprintf", "(*os.File).Write", "(*os.File).WriteString", "(*os.File).ReadFrom", "iface(wiki2book/util.FileLike).Write":
			if len(ev.Args) > 0 && isFile(s, ev.Args[0]) {
				if s.regs["werr"] != nil && !s.KnownNil(s.regs["werr"]) {
					s.auto["bad"] = "an earlier write may have failed unnoticed"
				}
				if s.auto["st"] == "closed" {
					s.auto["bad"] = "written after close"
				}
				rs := e.freshResults(s, ev, 2)
				s.regs["werr"] = rs[1]
				s.auto["st"] = "written"
				return rs, true
			}
			if ev.Key == "io.Copy" {
				rs := e.freshResults(s, ev, 2)
				return rs, true
			}
		case "(*os.File).Close":
			if isFile(s, ev.Args[0]) && !ev.Defer {
				rs := e.freshResults(s, ev, 1)
				s.regs["cerr"] = rs[0]
				if s.auto["st"] == "written" {
					s.auto["st"] = "closed"
				}
				return rs, true
			}
		case "(*os.File).Name":
			return []*Term{e.TS.App("nameof", ev.Args[0])}, true
		case "os.Rename":
			r.Count("renames_checked", 1)
			at := p.At(ev.Instr)
			in := FnName(entry)
			from := ev.Args[0]
			ok := true
			if from.op != "nameof" || !isFile(s, from.args[0]) {
				r.Bad("rename-source:"+in, at, "the file renamed into place (%s) is not the temp file written before; path %s", from, s.PathString())
				ok = false
			}
			if s.auto["bad"] != "" {
				r.Bad("rename-bad:"+in, at, "%s when the temp file is renamed; path %s", s.auto["bad"], s.PathString())
				ok = false
			}
			if ok && (s.regs["werr"] == nil || !s.KnownNil(s.regs["werr"])) {
				r.Bad("rename-unwritten:"+in, at, "the temp file is renamed into place on a path where writing it is not known to have succeeded; path %s", s.PathString())
			}
			if ok && s.auto["st"] != "closed" || ok && !s.KnownNil(s.regs["cerr"]) {
				r.Bad("rename-unclosed:"+in, at, "the temp file is renamed into place on a path where closing it is not known to have succeeded; path %s", s.PathString())
			}
			if s.regs["gone:"+ev.Args[1].String()] == ev.Args[1] {
				r.Bad("gap:"+in, at, "the entry %s is removed before the new content is renamed onto it: a crash or a failing rename in between loses the old entry; path %s", ev.Args[1], s.PathString())
			}
			if d := s.regs["dir"]; d != nil {
				r.Sample("%s: rename %s -> %s, temp dir %s", in, from, ev.Args[1], d)
				if !tempDirOK(d, ev.Args[1]) {
					r.Bad("temp-dir:"+in, at, "the temp file is created in %s, which is not the cache's own temp directory next to the destination %s", d, ev.Args[1])
				}
			}
			rs := e.freshResults(s, ev, 1)
			s.regs["rerr"] = rs[0]
			return rs, true
		case "os.Remove":
			if len(ev.Args) > 0 && ev.Args[0].op == "nameof" && isFile(s, ev.Args[0].args[0]) {
				s.auto["rm"] = "1"
			} else if len(ev.Args) > 0 && !(s.regs["rerr"] != nil && s.KnownNil(s.regs["rerr"])) {
				// remembered: if this is where the entry is published, there
				// is a moment without the entry
				s.regs["gone:"+ev.Args[0].String()] = ev.Args[0]
			}
			rs := e.freshResults(s, ev, 1)
			return rs, true
		}
		return nil, false
	}
	e.OnReturn = func(s *State, rs []*Term, ret *ssa.Return) {
		if s.regs["file"] != nil && !s.KnownNonNil(s.regs["fileErr"]) && s.auto["rm"] == "" && !(s.regs["rerr"] != nil && s.KnownNil(s.regs["rerr"])) {
			r.Bad("temp-left:"+FnName(entry), p.At(ret), "%s can return without having renamed or removed the temporary file; path %s", FnName(entry), s.PathString())
		}
		r.Count("temp_files_gone_at_return", 1)
		if len(rs) == 0 {
			return
		}
		err := rs[len(rs)-1]
		if s.KnownNonNil(err) {
			r.Count("error_returns", 1)
			return
		}
		// possibly nil error: the rename must have happened and its error must be this one or known nil
		re := s.regs["rerr"]
		r.Count("success_returns", 1)
		if re == nil {
			if entry.Name() == "CacheToFile" {
				r.Bad("success-without-rename:"+FnName(entry), p.At(ret), "a nil error can be returned although nothing was renamed into place; path %s", s.PathString())
			}
			return
		}
		if s.KnownNil(re) {
			return
		}
		if e.Eq(err, e.TS.Nil()) == e.Eq(re, e.TS.Nil()) {
			return
		}
		r.Bad("success-after-failed-rename:"+FnName(entry), p.At(ret), "a nil error can be returned although the rename may have failed; path %s", s.PathString())
	}
	e.Run(entry, nil, nil)
	r.EngineStats(e, FnName(entry))
}

// tempDirOK: the temp dir is a constant subdirectory of the directory the destination lies below.
func tempDirOK(dir, dest *Term) bool {
	comps := func(t *Term) []*Term {
		if t.op == "call" && t.name == "path/filepath.Join" {
			return t.args
		}
		return []*Term{t}
	}
	d, o := comps(dir), comps(dest)
	if len(d) == 1 && d[0].op == "call" && d[0].name == "path/filepath.Dir" {
		return d[0].args[0] == dest
	}
	if len(d) < 1 || len(o) < 2 || d[0] != o[0] {
		return false
	}
	// same root (the cache directory); the temp directory is its own constant subdirectory
	if len(d) != 2 || !d[1].IsConst() {
		return false
	}
	return d[1] != o[1]
}
