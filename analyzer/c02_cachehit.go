package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C02", Title: "a valid cache entry is used, a missing or expired one is fetched and stored",
		Rule: "typestate over every path of the lookup, download and service functions (repository callees inlined; the lookup, store and download functions are summarised for their callers after having been checked themselves): a request is sent only after a successful lookup that found the entry missing or older than the maximum age; a success after a request implies the response was stored under the looked-up entry; a file is only read as cache entry when the lookup found it valid or it was stored since; the reported flags match what happened",
		Run:  runC02})
	register(&Check{ID: "C03", Title: "a cache entry is only reused for the request it was made for",
		Rule: "value-number comparison on every path reaching a request: every value the request (URL, body) depends on also determines the cache entry looked up, through operations that keep distinct values distinct; entries filled by different endpoints live in different folders or differ in a constant part",
		Run:  runC03})
}

func isFs(k, m string) bool {
	return k == "(*wiki2book/util.OsFilesystem)."+m || k == "iface(wiki2book/util.Filesystem)."+m
}

// netCalls are the calls that talk to the network.
func isNetCall(k string) bool {
	switch k {
	case "iface(wiki2book/http.HttpClient).Do", "iface(wiki2book/http.HttpClient).Post", "(*net/http.Client).Do", "(*net/http.Client).Get", "(*net/http.Client).Post", "(*net/http.Client).PostForm", "(*net/http.Client).Head",
		"net/http.Get", "net/http.Post", "net/http.PostForm", "net/http.Head", "iface(net/http.RoundTripper).RoundTrip":
		return true
	}
	return false
}

const (
	kDownloadAndCache = "(*wiki2book/http.DefaultHttpService).DownloadAndCache"
	kPostForm         = "(*wiki2book/http.DefaultHttpService).PostFormEncoded"
	kGetFile          = "wiki2book/cache.GetFile"
	kCacheToFile      = "wiki2book/cache.CacheToFile"
	kCachePath        = "wiki2book/cache.GetFilePathInCache"
)

func isCacheEvent(c *ssa.CallCommon) bool {
	k := CalleeKey(c)
	if isNetCall(k) || strings.HasPrefix(k, "net/http.NewRequest") || strings.HasPrefix(k, "iface(wiki2book/http.HttpService).") {
		return true
	}
	switch k {
	case kDownloadAndCache, kPostForm, kGetFile, kCacheToFile, kCachePath:
		return true
	}
	for _, m := range []string{"Stat", "Rename", "ReadFile", "Chtimes"} {
		if isFs(k, m) {
			return true
		}
	}
	return false
}

type fetchObs struct {
	entry   *ssa.Function
	at      string
	request []*Term // URL and body
	kind    string
	path    *Term
	where   string
}

// onlyTexts: the function makes texts of texts.
func onlyTexts(fn *ssa.Function) bool {
	for _, t := range []*types.Tuple{fn.Signature.Params(), fn.Signature.Results()} {
		for i := 0; i < t.Len(); i++ {
			b, ok := t.At(i).Type().Underlying().(*types.Basic)
			if !ok || b.Kind() != types.String {
				return false
			}
		}
	}
	return true
}

// cacheEngine runs entry and reports the cache protocol events to the callbacks.
type cacheEngine struct {
	p     *Program
	r     *Report
	e     *Engine
	entry *ssa.Function
	obs   []fetchObs
	bad   func(key, at, format string, args ...any)
}

func newCacheEngine(p *Program, r *Report, entry *ssa.Function, report bool) *cacheEngine {
	ce := &cacheEngine{p: p, r: r, entry: entry}
	ce.bad = func(key, at, format string, args ...any) {
		if report {
			r.Bad(key, at, format, args...)
		}
	}
	e := NewEngine(p)
	ce.e = e
	memo := map[*ssa.Function]bool{}
	e.Inline = func(fn *ssa.Function) bool {
		v, ok := memo[fn]
		if !ok {
			v = p.ReachesCall(fn, isCacheEvent) || smallPure(fn) && !(len(fn.Blocks) > 1 && onlyTexts(fn))
			memo[fn] = v
		}
		return v
	}
	e.OnCall = ce.onCall
	e.PinFact = func(s *State, f *Term) bool {
		st := s.regs["stat"]
		return st != nil && mentionsMaxAge(f) && f.Any(func(x *Term) bool { return x == st })
	}
	return ce
}

// lookupState classifies the most recent lookup: "miss", "expired", "absent" (miss or expired), "hit", "failed", "unknown", "none".
func (ce *cacheEngine) lookupState(s *State) string {
	e := ce.e
	path, stat, err := s.regs["lookup"], s.regs["stat"], s.regs["statErr"]
	if path == nil {
		return "none"
	}
	if ex := s.regs["exists"]; ex != nil { // summarised lookup: an error means exists is false
		le := s.regs["lookupErr"]
		switch s.decide(ex) {
		case 1:
			return "hit"
		case 0:
			if s.KnownNil(le) {
				return "absent"
			}
			if s.KnownNonNil(le) {
				return "failed"
			}
		}
		return "unknown"
	}
	if err == nil {
		return "unknown"
	}
	notExist := func() int {
		return s.decide(e.TS.mk("call", "os.IsNotExist", nil, nil, nil, err))
	}
	if notExist() == 1 {
		return "miss"
	}
	for f, v := range s.facts {
		// errors.Is(err, fs.ErrNotExist)
		if v && f.op == "call" && strings.HasSuffix(f.name, "errors.Is") && f.args[0] == err && f.args[1].Any(func(t *Term) bool { return t.op == "global" && strings.HasSuffix(t.name, "ErrNotExist") }) {
			return "miss"
		}
	}
	if s.KnownNonNil(err) {
		return "failed"
	}
	exp := ce.expired(s, stat)
	switch exp {
	case 1:
		return "expired"
	case 0:
		if s.KnownNil(err) || notExist() == 0 {
			return "hit"
		}
	}
	return "unknown"
}

func mentionsMaxAge(t *Term) bool {
	return t.Any(func(x *Term) bool { return x.op == "field&" && fieldName(x.name) == "CacheMaxAge" })
}

func mentionsMinute(t *Term) bool {
	return t.Any(func(x *Term) bool {
		if x.op == "call" && x.name == "(time.Duration).Minutes" {
			return true
		}
		if n, ok := x.IntVal(); ok && n == 60000000000 {
			return true
		}
		return false
	})
}

// expired: 1 the entry is older than the configured age, 0 it is not, -1 unknown.
func (ce *cacheEngine) expired(s *State, stat *Term) int {
	isMod := func(x *Term) bool {
		return x.op == "call" && strings.HasSuffix(x.name, ".ModTime") && x.args[0] == stat
	}
	// ageTerm: now minus the modification time
	age := func(t *Term) bool {
		ok := false
		t.Any(func(x *Term) bool {
			if x.op == "call" && x.name == "time.Since" && len(x.args) == 1 && x.args[0].Any(isMod) {
				ok = true
			}
			if x.op == "call" && x.name == "(time.Time).Sub" && len(x.args) == 2 && x.args[1].Any(isMod) && !x.args[0].Any(isMod) {
				ok = true
			}
			return false
		})
		return ok
	}
	for f, v := range s.facts {
		if f.op == "<" {
			a, b := f.args[0], f.args[1]
			if mentionsMaxAge(a) && age(b) && mentionsMinute(f) {
				return b2i(v) // maxAge < age
			}
			if mentionsMaxAge(b) && age(a) && mentionsMinute(f) {
				if v {
					return 0 // age < maxAge
				}
			}
		}
		if f.op == "call" && (f.name == "(time.Time).Before" || f.name == "(time.Time).After") && len(f.args) == 2 && f.Any(isMod) && mentionsMaxAge(f) && mentionsMinute(f) {
			left := f.args[0].Any(isMod)
			before := f.name == "(time.Time).Before"
			return b2i(v == (left == before))
		}
	}
	return -1
}

func clearLookup(s *State) {
	for _, k := range []string{"lookup", "stat", "statErr", "exists", "lookupErr", "storeErr"} {
		delete(s.regs, k)
	}
	delete(s.auto, "sent")
	delete(s.auto, "stored")
}

func (ce *cacheEngine) cachePath(folder, name *Term) *Term {
	return ce.e.TS.App("cachepath", folder, name)
}

func (ce *cacheEngine) observe(s *State, at string, kind string, req []*Term) {
	ce.obs = append(ce.obs, fetchObs{entry: ce.entry, at: at, path: s.regs["lookup"], where: s.Where(), kind: kind, request: req})
}

func (ce *cacheEngine) requestAllowed(s *State, at string) {
	st := ce.lookupState(s)
	ce.r.Count("requests", 1)
	if st != "miss" && st != "expired" && st != "absent" {
		ce.bad("request-without-miss:"+FnName(ce.entry), at, "a request is sent although the lookup of the cache entry before it did not find it missing or expired (lookup: %s); path %s", st, s.PathString())
	}
	s.auto["sent"] = "1"
}

func (ce *cacheEngine) onCall(ev *CallEv) ([]*Term, bool) {
	s, e, p := ev.S, ce.e, ce.p
	at := p.At(ev.Instr)
	name := FnName(ce.entry)
	switch {
	case ev.Key == "wiki2book/util.Hash":
		return []*Term{e.TS.mk("call", ev.Key, nil, nil, nil, ev.Args...)}, true
	case ev.Key == "strings.NewReader" || ev.Key == "bytes.NewReader" || ev.Key == "bytes.NewBufferString" || ev.Key == "bytes.NewBuffer" || ev.Key == "io.NopCloser":
		return []*Term{e.TS.mk("call", "reader", nil, nil, nil, ev.Args[0])}, true
	case ev.Key == "encoding/json.Unmarshal":
		ptr := ev.Args[1]
		for ptr.op == "iface" {
			ptr = ptr.args[0]
		}
		rs := e.freshResults(s, ev, 1)
		e.havoc(s, ptr, e.TS.mk("res", ev.Site, nil, nil, nil))
		s.mem[ptr] = e.TS.App("decoded", ev.Args[0])
		return rs, true
	case ev.Key == kCachePath:
		return []*Term{ce.cachePath(ev.Args[0], ev.Args[1])}, true
	case ev.Key == kGetFile && ev.Callee != ce.entry:
		clearLookup(s)
		rs := e.freshResults(s, ev, 3)
		path := ce.cachePath(ev.Args[0], ev.Args[1])
		s.regs["lookup"], s.regs["exists"], s.regs["lookupErr"] = path, rs[1], rs[2]
		ce.r.Count("lookups", 1)
		return []*Term{path, rs[1], rs[2]}, true
	case ev.Key == kDownloadAndCache && ev.Callee != ce.entry, ev.Key == "iface(wiki2book/http.HttpService).DownloadAndCache":
		clearLookup(s)
		rs := e.freshResults(s, ev, 3)
		path := ce.cachePath(ev.Args[2], ev.Args[3])
		s.regs["lookup"] = path
		s.auto["stored"] = "1"
		s.regs["storeErr"] = rs[2]
		ce.observe(s, at, "GET", []*Term{ev.Args[1]})
		ce.r.Count("download_calls", 1)
		return []*Term{path, rs[1], rs[2]}, true
	case ev.Key == kPostForm && ev.Callee != ce.entry, ev.Key == "iface(wiki2book/http.HttpService).PostFormEncoded":
		ce.requestAllowed(s, at)
		ce.observe(s, at, "POST", ev.Args[1:3])
		return e.freshResults(s, ev, 2), true
	case (isFs(ev.Key, "Chtimes") || ev.Key == "os.Chtimes") && len(ev.Args) >= 3:
		// the time stamps decide about the age: they are only changed once the entry has been looked at
		path := ev.Args[len(ev.Args)-3]
		if s.regs["lookup"] != path && (isFs(ev.Key, "Chtimes") || isCachePathTerm(path)) {
			ce.bad("touched:"+FnName(ce.entry), at, "the time stamps of %s are changed before its age was determined, so that it never expires; path %s", path, s.PathString())
		}
		ce.r.Count("time_stamp_updates", 1)
		return nil, false
	case isFs(ev.Key, "Stat") || ev.Key == "os.Stat" || ev.Key == "os.Lstat":
		path := ev.Args[len(ev.Args)-1]
		if isFs(ev.Key, "Stat") || isCachePathTerm(path) {
			clearLookup(s)
			rs := e.freshResults(s, ev, 2)
			s.regs["lookup"], s.regs["stat"], s.regs["statErr"] = path, rs[0], rs[1]
			ce.r.Count("lookups", 1)
			return rs, true
		}
	case strings.HasPrefix(ev.Key, "net/http.NewRequest"):
		as := ev.Args
		if strings.HasSuffix(ev.Key, "WithContext") {
			as = as[1:]
		}
		rs := e.freshResults(s, ev, 2)
		s.regs["req"], s.regs["method"], s.regs["url"], s.regs["body"] = rs[0], as[0], as[1], as[2]
		return rs, true
	case isNetCall(ev.Key):
		ce.requestAllowed(s, at)
		var req []*Term
		kind := ""
		if u := s.regs["url"]; u != nil {
			req = append(req, u)
			if b := s.regs["body"]; b != nil && !b.IsNilConst() {
				req = append(req, b)
			}
			if m := s.regs["method"]; m != nil {
				kind = strings.Trim(m.String(), "\"")
			}
		} else {
			req = append(req, ev.Args[1:]...)
		}
		ce.observe(s, at, kind, req)
		return nil, false
	case isFs(ev.Key, "Rename"), ev.Key == kCacheToFile:
		var path *Term
		if ev.Key == kCacheToFile {
			path = ce.cachePath(ev.Args[0], ev.Args[1])
			rs := e.freshResults(s, ev, 2)
			s.regs["storeErr"] = rs[1]
			ce.store(s, path, at, name)
			return []*Term{path, rs[1]}, true
		}
		path = ev.Args[len(ev.Args)-1]
		rs := e.freshResults(s, ev, 1)
		s.regs["storeErr"] = rs[0]
		ce.store(s, path, at, name)
		return rs, true
	case isFs(ev.Key, "ReadFile") || ev.Key == "os.ReadFile" || ev.Key == "os.Open":
		path := ev.Args[len(ev.Args)-1]
		if !isFs(ev.Key, "ReadFile") && !isCachePathTerm(path) {
			return nil, false
		}
		rs := e.freshResults(s, ev, 2)
		if lk := s.regs["lookup"]; lk != nil || isCachePathTerm(path) {
			ce.r.Count("reads", 1)
			st := ce.lookupState(s)
			okHit := st == "hit" && path == lk
			okStored := s.auto["stored"] == "1" && path == lk && s.KnownNil(s.regs["storeErr"])
			if !okHit && !okStored {
				ce.bad("read-unavailable:"+name, at, "%s is read although the entry looked up is %v (lookup %s, stored since: %v); path %s", path, lk, st, s.auto["stored"] == "1", s.PathString())
			}
		}
		if ev.Key != "os.Open" {
			rs[0] = e.TS.App("filecontent", path)
		}
		return rs, true
	}
	return nil, false
}

func (ce *cacheEngine) store(s *State, path *Term, at, name string) {
	if s.regs["lookup"] == nil {
		return
	}
	ce.r.Count("stores", 1)
	if path != s.regs["lookup"] {
		ce.bad("stored-elsewhere:"+name, at, "the fetched data is stored under %s but looked up under %s; path %s", path, s.regs["lookup"], s.PathString())
	}
	if s.auto["sent"] != "1" {
		ce.bad("stored-unfetched:"+name, at, "data is stored under the cache entry although nothing was fetched since the lookup; path %s", s.PathString())
	}
	s.auto["stored"] = "1"
}

func isCachePathTerm(t *Term) bool {
	return t.Any(func(x *Term) bool {
		return x.op == "cachepath" || x.op == "field&" && fieldName(x.name) == "CacheDir"
	})
}

// keptAges: the age of an entry counts from when it was stored, unless the strategy needs the time of the last use.
func keptAges(p *Program, r *Report) {
	fn, cfg := p.Func("cache", "GetFile"), configOf(p, r)
	if fn == nil || cfg == nil {
		return
	}
	for _, st := range []string{"none", "largest"} {
		x := p.RunSCCP([]*ssa.Function{fn}, cfg.comboEnv(combo{"CacheEvictionStrategy": st}))
		for _, f := range p.Funcs {
			for _, s := range CallSites(f) {
				k := CalleeKey(s.Common())
				if !isFs(k, "Chtimes") && k != "os.Chtimes" || f.Name() == "Chtimes" {
					continue
				}
				r.Count("time stamp updates by strategy", 1)
				if x.Live(s.(ssa.Instruction)) {
					r.Bad("renewed:"+FnName(f), p.At(s), "with the strategy %s a use changes the time stamps of an entry, so that an entry in use never expires", st)
				}
			}
		}
	}
}

func runC02(p *Program, r *Report) {
	keptAges(p, r)
	r.Assume = []string{"the file found by the lookup is not removed by another process before it is read", "time.Now and file modification times are trustworthy"}
	// 1. the lookup function: what it reports as available exists and is not expired
	if fn := p.Func("cache", "GetFile"); fn != nil {
		ce := newCacheEngine(p, r, fn, true)
		ce.e.OnReturn = func(s *State, rs []*Term, ret *ssa.Return) {
			r.Count("lookup_returns", 1)
			path, exists, err := rs[0], rs[1], rs[2]
			st := ce.lookupState(s)
			if s.regs["lookup"] == nil {
				r.Bad("getfile-nolookup", p.At(ret), "GetFile returns without looking at the file system; path %s", s.PathString())
				return
			}
			if want := ce.cachePath(ce.e.TS.Sym("$"+fn.Params[0].Name()), ce.e.TS.Sym("$"+fn.Params[1].Name())); s.regs["lookup"] != want {
				r.Bad("getfile-lookup-path", p.At(ret), "GetFile looks at %s instead of the entry of its arguments; path %s", s.regs["lookup"], s.PathString())
			}
			if path != s.regs["lookup"] && !s.KnownNonNil(err) {
				r.Bad("getfile-path", p.At(ret), "GetFile returns path %s but looked at %s", path, s.regs["lookup"])
			}
			if s.KnownNonNil(err) {
				if s.decide(exists) != 0 {
					r.Bad("getfile-error-exists", p.At(ret), "GetFile can report an error and an available file at once; path %s", s.PathString())
				}
				return
			}
			switch d := s.decide(exists); {
			case d != 0 && st != "hit":
				// the flag may be the negated expiry test itself
				if st == "unknown" && (s.KnownNil(s.regs["statErr"]) || s.decide(ce.e.TS.mk("call", "os.IsNotExist", nil, nil, nil, s.regs["statErr"])) == 0) {
					n := s.clone()
					n.assume(exists, true)
					if ce.lookupState(n) == "hit" {
						m := s.clone()
						m.assume(exists, false)
						if ce.lookupState(m) == "expired" {
							return
						}
					}
				}
				r.Bad("getfile-unavailable", p.At(ret), "GetFile can report the entry as available although the lookup says: %s; path %s", st, s.PathString())
			case d == 0 && st == "hit":
				r.Bad("getfile-ignored", p.At(ret), "GetFile reports an existing, unexpired entry as missing; path %s", s.PathString())
			case d == 0 && st == "failed" && s.KnownNil(err):
				r.Bad("getfile-swallowed", p.At(ret), "GetFile reports a failed lookup as a missing file; path %s", s.PathString())
			}
		}
		ce.e.Run(fn, nil, nil)
		r.EngineStats(ce.e, "cache.GetFile")
	} else {
		r.Undecided("anchor-getfile", "-", "cache.GetFile not found")
	}
	// 2. the store function: a success means the entry of its arguments was published
	if fn := p.Func("cache", "CacheToFile"); fn != nil {
		ce := newCacheEngine(p, r, fn, false)
		ce.e.OnReturn = func(s *State, rs []*Term, ret *ssa.Return) {
			r.Count("store_returns", 1)
			if s.KnownNonNil(rs[1]) {
				return
			}
			want := ce.cachePath(ce.e.TS.Sym("$"+fn.Params[0].Name()), ce.e.TS.Sym("$"+fn.Params[1].Name()))
			if rs[0] != want {
				r.Bad("store-path", p.At(ret), "CacheToFile succeeds with path %s instead of the entry of its arguments; path %s", rs[0], s.PathString())
			}
			if s.regs["renamed"] != want {
				r.Bad("store-elsewhere", p.At(ret), "CacheToFile succeeds having published %v instead of the entry of its arguments; path %s", s.regs["renamed"], s.PathString())
			}
		}
		inner := ce.e.OnCall
		ce.e.OnCall = func(ev *CallEv) ([]*Term, bool) {
			if isFs(ev.Key, "Rename") {
				ev.S.regs["renamed"] = ev.Args[len(ev.Args)-1]
				return ce.e.freshResults(ev.S, ev, 1), true
			}
			if ev.Key == kCacheToFile {
				return nil, false
			}
			return inner(ev)
		}
		ce.e.Run(fn, nil, nil)
		r.EngineStats(ce.e, "cache.CacheToFile")
	} else {
		r.Undecided("anchor-store", "-", "cache.CacheToFile not found")
	}
	// 3. the download function
	if fn := p.Func("http", "DefaultHttpService.DownloadAndCache"); fn != nil {
		ce := newCacheEngine(p, r, fn, true)
		ts := ce.e.TS
		url := ts.Sym("$" + fn.Params[1].Name())
		want := ce.cachePath(ts.Sym("$"+fn.Params[2].Name()), ts.Sym("$"+fn.Params[3].Name()))
		ce.e.OnReturn = func(s *State, rs []*Term, ret *ssa.Return) {
			r.Count("download_returns", 1)
			path, fresh, err := rs[0], rs[1], rs[2]
			if s.KnownNonNil(err) {
				return
			}
			st := ce.lookupState(s)
			lk := s.regs["lookup"]
			if lk == nil {
				r.Bad("download-nolookup", p.At(ret), "success is reported without a cache lookup; path %s", s.PathString())
				return
			}
			if lk != want {
				r.Bad("download-key", p.At(ret), "the entry used is %s instead of the one of the arguments; path %s", lk, s.PathString())
			}
			if path != lk {
				r.Bad("download-path", p.At(ret), "the returned path %s is not the cache entry %s; path %s", path, lk, s.PathString())
			}
			if s.auto["sent"] == "1" {
				if s.decide(fresh) != 1 {
					r.Bad("download-flag-fresh", p.At(ret), "a freshly downloaded file is not reported as fresh; path %s", s.PathString())
				}
				if s.auto["stored"] != "1" || !s.KnownNil(s.regs["storeErr"]) && ce.e.Eq(err, ce.e.TS.Nil()) != ce.e.Eq(s.regs["storeErr"], ce.e.TS.Nil()) {
					r.Bad("download-unstored", p.At(ret), "success is reported although the response was not stored; path %s", s.PathString())
				}
			} else {
				if st != "hit" {
					r.Bad("download-nothing", p.At(ret), "success is reported without request although the lookup says: %s; path %s", st, s.PathString())
				}
				if s.decide(fresh) != 0 {
					r.Bad("download-flag-cached", p.At(ret), "a cached file is reported as freshly downloaded; path %s", s.PathString())
				}
			}
		}
		ce.e.Run(fn, nil, nil)
		for _, o := range ce.obs {
			if len(o.request) != 1 || o.request[0] != url {
				r.Bad("download-url", o.at, "the request sent is %v instead of the URL passed in", o.request)
			}
		}
		r.EngineStats(ce.e, "DownloadAndCache")
	} else {
		r.Undecided("anchor-download", "-", "http.DefaultHttpService.DownloadAndCache not found")
	}
	// 4. everything in the wikipedia service
	for _, fn := range serviceEntries(p) {
		r.Count("service_entries", 1)
		ce := newCacheEngine(p, r, fn, true)
		// a success after a request implies the response was stored
		ce.e.OnReturn = func(s *State, rs []*Term, ret *ssa.Return) {
			if len(rs) == 0 {
				return
			}
			err := rs[len(rs)-1]
			if s.KnownNonNil(err) {
				return
			}
			if s.auto["sent"] == "1" && s.auto["stored"] != "1" {
				r.Bad("sent-unstored:"+FnName(fn), p.At(ret), "success is returned although the response of the request was not stored; path %s", s.PathString())
			}
		}
		ce.e.Run(fn, nil, nil)
		r.EngineStats(ce.e, FnName(fn))
		r.Sample("%s: %d request events, %d states", FnName(fn), len(ce.obs), ce.e.States)
	}
	r.AtLeast("service_entries", 4)
	r.AtLeast("requests", 2)
	r.AtLeast("download_calls", 4)
	r.AtLeast("stores", 1)
	r.AtLeast("lookup_returns", 4)
}

// serviceEntries: the methods of the wikipedia service.
func serviceEntries(p *Program) []*ssa.Function {
	it := p.ByRel["wikipedia"]
	if it == nil {
		return nil
	}
	var out []*ssa.Function
	obj := it.Types.Scope().Lookup("WikipediaService")
	if obj == nil {
		return nil
	}
	iface, ok := obj.Type().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	for i := 0; i < iface.NumMethods(); i++ {
		m := iface.Method(i)
		for _, n := range it.Types.Scope().Names() {
			tn, ok := it.Types.Scope().Lookup(n).(*types.TypeName)
			if !ok || types.IsInterface(tn.Type()) || isMockFile(p.Fset.Position(tn.Pos()).Filename) {
				continue
			}
			pt := types.NewPointer(tn.Type())
			if types.Implements(pt, iface) {
				if f := p.methodOf(pt, m.Pkg(), m.Name()); f != nil {
					out = append(out, f)
				}
			}
		}
	}
	return out
}

// ---- C03 ----

// injective operations: distinct inputs (with the other operands equal) give distinct outputs, for the values used here.
func keyOp(t *Term) bool {
	switch t.op {
	case "concat", "conv", "iface", "fmt", "cachepath":
		return true
	case "slice":
		// all of it
		return len(t.args) == 3 && t.args[1].IsNilConst() && t.args[2].IsNilConst()
	case "call":
		switch t.name {
		case "strings.ReplaceAll":
			// spaces and underscores are the same in titles
			a, aok := t.args[1].StrVal()
			b, bok := t.args[2].StrVal()
			return len(t.args) == 3 && aok && bok && (a == " " && b == "_" || a == "_" && b == " ")
		case "path/filepath.Join", "net/url.QueryEscape", "net/url.PathEscape", "encoding/hex.EncodeToString", "crypto/sha1.Sum", "crypto/sha256.Sum256", "crypto/md5.Sum", "fmt.Sprintf", "wiki2book/util.Hash", "wiki2book/util.SanitizeFilename":
			return true
		}
	}
	return false
}

func transparent(t *Term) bool {
	switch t.op {
	case "call", "concat", "conv", "fmt", "iface", "slice", "index", "+", "len", "unbox", "tuple", "struct", "select", "range", "field", "decoded", "filecontent", "cachepath":
		return true
	case "deref", "derefv":
		return t.args[0].op == "index&"
	case "index&":
		return true
	}
	return false
}

// keyedBy tells whether in occurs in t below injective operations only.
func keyedBy(t, in *Term) bool {
	if t == in {
		return true
	}
	if x := prefixStripped(t); x != nil {
		return keyedBy(x, in)
	}
	if !keyOp(t) {
		return false
	}
	args := t.args
	if t.op == "call" && t.name == "strings.ReplaceAll" {
		args = args[:1]
	}
	for _, a := range args {
		if keyedBy(a, in) {
			return true
		}
	}
	return false
}

// cutters: functions returning what follows the first separator in their parameter (or all of it, when there is none), by
// name, with the separator.
var cutters = map[string]string{}

func findCutters(p *Program) {
	for _, fn := range p.Funcs {
		if len(fn.Params) != 1 || len(fn.Blocks) == 0 || fn.Signature.Results().Len() != 1 {
			continue
		}
		sep, good := "", true
		for _, b := range fn.Blocks {
			ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok {
				continue
			}
			for _, v := range alternatives(ret.Results[0], map[ssa.Value]bool{}) {
				if v == ssa.Value(fn.Params[0]) {
					continue
				}
				s := afterFirst(v, fn.Params[0])
				if s == "" || sep != "" && sep != s {
					good = false
				}
				sep = s
			}
		}
		if good && sep != "" {
			cutters[FnName(fn)] = sep
			cutters[fn.String()] = sep
		}
	}
}

// afterFirst: the separator, when the value is what follows it in the text.
func afterFirst(v, text ssa.Value) string {
	switch x := v.(type) {
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok && CalleeKey(&c.Call) == "strings.Cut" && x.Index == 1 && c.Call.Args[0] == text {
			s, _ := constStr(c.Call.Args[1])
			return s
		}
	case *ssa.UnOp:
		ia, ok := x.X.(*ssa.IndexAddr)
		if !ok {
			return ""
		}
		c, ok := ia.X.(*ssa.Call)
		if !ok || CalleeKey(&c.Call) != "strings.SplitN" || c.Call.Args[0] != text {
			return ""
		}
		if n, ok := constInt(c.Call.Args[2]); !ok || n != 2 {
			return ""
		}
		if n, ok := constInt(ia.Index); !ok || n != 1 {
			return ""
		}
		s, _ := constStr(c.Call.Args[1])
		return s
	case *ssa.Slice: // text[strings.Index(text, ":")+1:]
		bo, ok := x.Low.(*ssa.BinOp)
		if !ok || x.X != text || x.High != nil || bo.Op != token.ADD {
			return ""
		}
		if n, ok := constInt(bo.Y); !ok || n != 1 {
			return ""
		}
		c, ok := bo.X.(*ssa.Call)
		if !ok || c.Call.Args[0] != text {
			return ""
		}
		switch CalleeKey(&c.Call) {
		case "strings.Index":
			if s, _ := constStr(c.Call.Args[1]); len(s) == 1 {
				return s
			}
		case "strings.IndexByte", "strings.IndexRune":
			if n, ok := constInt(c.Call.Args[1]); ok {
				return string(rune(n))
			}
		}
	}
	return ""
}

// prefixStripped recognises removing a constant prefix put in front before: Split("File:"+x, ":")[1] where x itself is
// free of the separator, TrimPrefix("File:"+x, "File:").
func prefixStripped(t *Term) *Term {
	rest := func(c *Term) (string, *Term) {
		if c.op == "concat" && len(c.args) == 2 {
			if p, ok := c.args[0].StrVal(); ok {
				return p, c.args[1]
			}
		}
		return "", nil
	}
	splitBy := func(t *Term) (*Term, string, int64) {
		if t.op == "deref" && t.args[0].op == "index&" {
			sp := t.args[0].args[0]
			n, ok := t.args[0].args[1].IntVal()
			if ok && sp.op == "call" && (sp.name == "strings.Split" || sp.name == "strings.SplitN") {
				if sep, ok := sp.args[1].StrVal(); ok && sep != "" {
					return sp.args[0], sep, n
				}
			}
		}
		return nil, "", 0
	}
	if c, sep, n := splitBy(t); c != nil {
		if p, x := rest(c); x != nil && n == 1 && strings.HasSuffix(p, sep) && strings.Count(p, sep) == 1 {
			if _, sep2, _ := splitBy(x); sep2 == sep || t.args[0].args[0].name == "strings.SplitN" {
				return x
			}
		}
	}
	// everything behind the first separator
	cut := ""
	if t.op == "call" && t.name == "strings.Cut#1" {
		cut, _ = t.args[1].StrVal()
	}
	if t.op == "call" && len(t.args) == 1 {
		cut = cutters[t.name]
	}
	if cut != "" {
		if p, x := rest(t.args[0]); x != nil && strings.HasSuffix(p, cut) && strings.Index(p, cut) == len(p)-len(cut) {
			return x
		}
	}
	if t.op == "call" && t.name == "strings.TrimPrefix" {
		if p, x := rest(t.args[0]); x != nil {
			if q, ok := t.args[1].StrVal(); ok && p == q {
				return x
			}
		}
	}
	return nil
}

// uncovered: the inputs of the request term that occur nowhere under key operations in the path.
func uncovered(req, path *Term) []*Term {
	var out []*Term
	var walk func(t *Term)
	seen := map[*Term]bool{}
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		switch t.op {
		case "const", "func", "global":
			return
		}
		if keyedBy(path, t) {
			return
		}
		if transparent(t) {
			args := t.args
			if t.op == "index&" {
				args = args[:1]
			}
			for _, a := range args {
				walk(a)
			}
			return
		}
		out = append(out, t)
	}
	walk(req)
	return out
}

func inputName(t *Term) string {
	switch t.op {
	case "deref", "derefv":
		a := t.args[0]
		for a.op == "index&" && len(a.args) > 0 {
			a = a.args[0]
			if a.op == "deref" || a.op == "derefv" {
				a = a.args[0]
			}
		}
		if a.op == "field&" {
			return fieldName(a.name)
		}
		if a.op == "call" {
			return inputName(a)
		}
	case "field":
		return fieldName(t.name)
	case "elem", "key":
		if len(t.args) > 1 {
			return inputName(t.args[1])
		}
	case "range", "unbox", "iface", "slice":
		return inputName(t.args[0])
	case "sym":
		return strings.TrimPrefix(t.name, "$")
	case "extract":
		return inputName(t.args[0])
	case "res", "old", "phi":
		n := t.name
		if i := strings.LastIndex(n, "@"); i >= 0 {
			n = n[i+1:]
		}
		return n
	}
	return t.String()
}

// isInstanceInput: the value selects the server asked: a setting held by the service, or the host part of the URL.
func isInstanceInput(req, in *Term) bool {
	root := in
	for {
		switch root.op {
		case "deref", "derefv", "index&", "elem", "key", "range", "unbox", "slice":
			i := 0
			if (root.op == "elem" || root.op == "key") && len(root.args) > 1 {
				i = 1
			}
			root = root.args[i]
			continue
		}
		break
	}
	if root.op == "field&" {
		b := root.args[0]
		for b.op == "unbox" || b.op == "deref" || b.op == "field&" {
			b = b.args[0]
		}
		return b.op == "sym"
	}
	if req.op == "concat" {
		for i, a := range req.args {
			if s, ok := a.StrVal(); ok {
				if i > 0 && strings.Contains(strings.TrimPrefix(s, "https://"), "/") {
					return false
				}
				continue
			}
			if a == in {
				return true
			}
		}
	}
	return false
}

func runC03(p *Program, r *Report) {
	cutters = map[string]string{}
	findCutters(p)
	r.Assume = []string{"the hash function used for keys has no collisions", "replacing spaces by underscores in titles maps equivalent titles to one key, as MediaWiki does",
		"filenames are made safe injectively (C04)"}
	entries := serviceEntries(p)
	seen := map[*ssa.Function]bool{}
	var all []*ssa.Function
	add := func(fn *ssa.Function) {
		if !seen[fn] {
			seen[fn] = true
			all = append(all, fn)
		}
	}
	// a function whose cache file is chosen by the caller is analysed from its callers
	byCaller := func(fn *ssa.Function) bool { return fn.Name() == "EvaluateTemplate" }
	for _, fn := range entries {
		if !byCaller(fn) {
			// start from the innermost functions that hold both request and key
			add(fn)
		}
	}
	for _, fn := range p.Funcs {
		if seen[fn] {
			continue
		}
		for _, c := range CallSites(fn) {
			for _, cal := range p.Callees(c.Common()) {
				for _, en := range entries {
					if cal == en && byCaller(en) {
						add(fn)
					}
				}
			}
		}
	}
	sort.Slice(all, func(i, j int) bool { return all[i].String() < all[j].String() })
	patterns := map[string]map[string]string{} // folder+constant parts of the name -> endpoint -> place
	for _, fn := range all {
		r.Count("entries", 1)
		ce := newCacheEngine(p, r, fn, false)
		ce.e.Run(fn, nil, nil)
		r.EngineStats(ce.e, FnName(fn))
		for _, o := range ce.obs {
			r.Count("request_key_pairs", 1)
			if o.path == nil {
				r.Bad("nokey:"+FnName(fn), o.at, "a request is sent without a cache entry having been looked up")
				continue
			}
			folder := pathFolder(o.path)
			for _, q := range o.request {
				names := map[string]bool{}
				for _, u := range uncovered(q, o.path) {
					if isInstanceInput(q, u) {
						names["instance"] = true
						continue
					}
					n := inputName(u)
					for i, pa := range fn.Params {
						if pa.Name() == n {
							n = fmt.Sprintf("%s.param%d", fn.Name(), i)
						}
					}
					names[n] = true
				}
				var ns []string
				for n := range names {
					ns = append(ns, n)
				}
				sort.Strings(ns)
				r.Sample("%s: request %s keyed by %s; inputs not in the key: %v", FnName(fn), q, o.path, ns)
				for _, n := range ns {
					r.Bad(fmt.Sprintf("key-misses:%s:%s", folder, n), o.at, "the request depends on %s, the cache entry %s does not: another value would reuse the entry (request %s)", n, o.path, q)
				}
			}
			ps := constParts(o.path)
			if patterns[ps] == nil {
				patterns[ps] = map[string]string{}
			}
			patterns[ps][o.kind+" "+endpoint(o.request[0])] = o.at
		}
	}
	for ps, reqs := range patterns {
		r.Count("key_shapes", 1)
		if len(reqs) > 1 {
			var l []string
			at := ""
			for q, a := range reqs {
				l = append(l, q)
				at = a
			}
			sort.Strings(l)
			r.Bad("shared-key:"+ps, at, "requests to different endpoints share the cache entry pattern %s: %s", ps, strings.Join(l, " | "))
		}
	}
	r.AtLeast("request_key_pairs", 5)
	r.AtLeast("key_shapes", 5)
}

// pathFolder: the constant folder component of a cache path.
func pathFolder(t *Term) string {
	if t.op == "cachepath" {
		if s, ok := t.args[0].StrVal(); ok {
			return s
		}
	}
	if t.op == "call" && t.name == "path/filepath.Join" {
		for _, a := range t.args {
			if s, ok := a.StrVal(); ok {
				return s
			}
		}
	}
	return t.String()
}

// constParts is the folder and the constant suffix of an entry's name.
func constParts(t *Term) string {
	f := pathFolder(t)
	if t.op == "cachepath" {
		n := t.args[1]
		if n.op == "concat" {
			if s, ok := n.args[len(n.args)-1].StrVal(); ok {
				return f + "/*" + s
			}
		}
	}
	return f + "/*"
}

// endpoint is the constant text of a request that names the operation: the first constant containing an api path.
func endpoint(t *Term) string {
	var ss []string
	var walk func(t *Term)
	walk = func(t *Term) {
		if s, ok := t.StrVal(); ok {
			for _, part := range strings.FieldsFunc(s, func(r rune) bool { return r == '?' || r == '&' }) {
				if strings.HasPrefix(part, "action=") || strings.HasPrefix(part, "/render/") || strings.HasPrefix(part, "/check/") || strings.HasPrefix(part, "/wikipedia/") {
					ss = append(ss, part)
				}
			}
			return
		}
		if t.op == "concat" || t.op == "iface" || t.op == "conv" {
			for _, a := range t.args {
				walk(a)
			}
		}
	}
	walk(t)
	for i := range ss {
		ss[i] = strings.TrimRight(ss[i], "/")
	}
	return strings.Join(ss, "+")
}
