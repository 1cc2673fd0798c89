package main

import (
	"go/types"
	"net/textproto"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C17", Title: "only successful server answers are data; requests are retried faithfully",
		Rule: "typestate of requests and responses over every path of every function that sends a request (repository callees inlined): a request carries the configured user agent and the caller's address and body when it is sent; a response is handed on or stored only where its status is known to be 200 and its API error header known to be empty; after status 429 the request is sent again, after a pause, with a body that was reset; a value taken from a response header is only stored where it is known to be non-empty",
		Run:  runC17})
}

// fieldTerm reads field name of the struct ptr points to in state s.
func fieldTerm(s *State, ptr *Term, st *types.Struct, name string) *Term {
	for i := 0; i < st.NumFields(); i++ {
		if f := st.Field(i); f.Name() == name {
			return s.e.load(s, s.e.TS.mk("field&", f.Name()+"#"+itoa(i), nil, nil, nil, ptr), f.Type())
		}
	}
	return nil
}

func itoa(i int) string { return strconv.Itoa(i) }

func structOf(t types.Type) *types.Struct {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	st, _ := t.Underlying().(*types.Struct)
	return st
}

// loadOf: t is the value of field name of ptr; the pointer is returned.
func loadOf(t *Term, name string) *Term {
	if (t.op == "deref" || t.op == "derefv") && t.args[0].op == "field&" && fieldName(t.args[0].name) == name {
		return t.args[0].args[0]
	}
	return nil
}

func sendSites(p *Program, fn *ssa.Function) []ssa.CallInstruction {
	var out []ssa.CallInstruction
	for _, c := range CallSites(fn) {
		if isNetCall(CalleeKey(c.Common())) {
			out = append(out, c)
		}
	}
	return out
}

func runC17(p *Program, r *Report) {
	r.Assume = []string{"net/http sends the request it is given and reports the status and headers it received", "http.NewRequest sets GetBody for readers over strings and byte slices"}
	sends := func(c *ssa.CallCommon) bool { return isNetCall(CalleeKey(c)) }
	var sending []*ssa.Function
	for _, fn := range p.Funcs {
		for _, c := range sendSites(p, fn) {
			r.Count("send_sites", 1)
			k := CalleeKey(c.Common())
			if m := methodName(k); m != "Do" && m != "RoundTrip" {
				r.Bad("short-request:"+FnName(fn)+":"+k, p.At(c), "%s sends a request with %s, which cannot carry the configured user agent", FnName(fn), k)
			}
			sending = append(sending, fn)
		}
	}
	// entries: the outermost functions of the package of the send sites that lead to them
	seen := map[*ssa.Function]bool{}
	var entries []*ssa.Function
	for _, fn := range p.Funcs {
		inPkg := false
		for _, s := range sending {
			inPkg = inPkg || fnPkg(s) == fnPkg(fn)
		}
		if !inPkg || fn.Parent() != nil || seen[fn] || !p.ReachesCall(fn, sends) {
			continue
		}
		outer := false
		for _, c := range p.CallersOf(fn) {
			if fnPkg(c.Parent()) != fnPkg(fn) {
				outer = true
			}
		}
		if outer || len(p.CallersOf(fn)) == 0 || fn.Object() != nil && fn.Object().Exported() {
			seen[fn] = true
			entries = append(entries, fn)
		}
	}
	sort.Slice(entries, func(i, j int) bool { return FuncKey(entries[i]) < FuncKey(entries[j]) })
	for _, fn := range entries {
		r.Count("entries", 1)
		checkSend(p, r, fn)
	}
	// values taken from response headers
	for _, fn := range p.Funcs {
		if seen[fn] || fnPkg(fn).Path() == modPath+"/test" {
			continue
		}
		for _, c := range CallSites(fn) {
			if CalleeKey(c.Common()) == "(net/http.Header).Get" {
				r.Count("header_readers", 1)
				checkHeaderUse(p, r, fn)
				break
			}
		}
	}
	r.AtLeast("send_sites", 1)
	r.AtLeast("entries", 2)
	r.AtLeast("requests_sent", 2)
	r.AtLeast("responses_handed_on", 2)
	r.AtLeast("retries", 1)
	r.AtLeast("header_stores", 1)
}

func headerKey(t *Term) string {
	v, ok := t.StrVal()
	if !ok {
		return "?"
	}
	return textproto.CanonicalMIMEHeaderKey(v)
}

func headerGet(e *Engine, ev *CallEv) []*Term {
	return []*Term{e.TS.mk("header", headerKey(ev.Args[1]), nil, nil, nil, ev.Args[0])}
}

func checkHeaderUse(p *Program, r *Report, fn *ssa.Function) {
	e := NewEngine(p)
	e.FreshErr = true
	e.Inline = func(f *ssa.Function) bool {
		return smallPure(f) && f != fn && !p.ReachesCall(f, func(c *ssa.CallCommon) bool { return CalleeKey(c) == kCacheToFile })
	}
	e.OnCall = func(ev *CallEv) ([]*Term, bool) {
		switch ev.Key {
		case "(net/http.Header).Get":
			return headerGet(e, ev), true
		case "strings.NewReader", "bytes.NewReader", "bytes.NewBufferString", "bytes.NewBuffer", "io.NopCloser":
			return []*Term{e.TS.mk("reader", "", nil, nil, nil, ev.Args[0])}, true
		case kCacheToFile:
			ev.Args[2].Any(func(t *Term) bool {
				if t.op == "header" {
					r.Count("header_stores", 1)
					if !ev.S.Known(e.Eq(t, e.TS.Str("")), false) {
						r.Bad("empty-header-stored:"+FnName(fn), p.At(ev.Instr), "%s stores the response header %s where it is not known to be present; path %s", FnName(fn), t.name, ev.S.PathString())
					}
				}
				return false
			})
		}
		return nil, false
	}
	e.OnReturn = func(s *State, rs []*Term, ret *ssa.Return) {
		n := len(rs)
		if n < 2 || !isErrorType(fn.Signature.Results().At(n-1).Type()) || s.KnownNonNil(rs[n-1]) {
			return
		}
		for _, x := range rs[:n-1] {
			if x.op == "header" && !s.Known(e.Eq(x, e.TS.Str("")), false) {
				r.Bad("empty-header-returned:"+FnName(fn), p.At(ret), "%s returns the response header %s as a success where it is not known to be present; path %s", FnName(fn), x.name, s.PathString())
			}
		}
	}
	e.Run(fn, nil, nil)
	r.EngineStats(e, FnName(fn))
}

func checkSend(p *Program, r *Report, fn *ssa.Function) {
	e := NewEngine(p)
	e.FreshErr = true
	name := FnName(fn)
	sends := func(c *ssa.CallCommon) bool {
		k := CalleeKey(c)
		return isNetCall(k) || strings.HasPrefix(k, "net/http.NewRequest") || k == "(net/http.Header).Set" || k == "time.Sleep" || k == "(net/http.Header).Get"
	}
	e.Inline = func(f *ssa.Function) bool {
		if strings.HasPrefix(fnPkg(f).Path(), modPath+"/cache") {
			return false
		}
		return p.ReachesCall(f, sends) || smallPure(f)
	}
	var respT, reqT *types.Struct
	if hp := p.Prog.ImportedPackage("net/http"); hp != nil {
		respT = structOf(hp.Type("Response").Type())
		reqT = structOf(hp.Type("Request").Type())
	}
	if respT == nil || reqT == nil {
		r.Undecided("net/http", "-", "net/http not loaded")
		return
	}
	const apiErr = "Mediawiki-Api-Error"
	// accepted: the response may be handed on in this state; otherwise the reason why not
	notData := func(s *State, resp *Term) string {
		if s.regs["resperr"] == nil || s.regs["resp"] != resp {
			return "it is not the answer to the last request"
		}
		if !s.KnownNil(s.regs["resperr"]) {
			return "sending the request is not known to have succeeded"
		}
		if !s.Known(e.Eq(fieldTerm(s, resp, respT, "StatusCode"), e.TS.Int(200)), true) {
			return "its status is not known to be 200"
		}
		h := e.TS.mk("header", apiErr, nil, nil, nil, fieldTerm(s, resp, respT, "Header"))
		if !s.Known(e.Eq(h, e.TS.Str("")), true) {
			return "its API error header is not known to be empty"
		}
		return ""
	}
	agentOK := func(v *Term) string {
		tmpl := v.Any(func(t *Term) bool {
			return t.op == "field&" && fieldName(t.name) == "UserAgentTemplate" && isCurrent(t.args[0])
		})
		if !tmpl {
			return "is not made from the configured template"
		}
		if !v.Any(func(t *Term) bool { x, ok := t.StrVal(); return ok && x == "{{VERSION}}" }) {
			return "does not get the version filled in"
		}
		return ""
	}
	e.PinFact = func(s *State, t *Term) bool {
		return s.regs["resp"] != nil && t.Contains(s.regs["resp"])
	}
	e.OnCall = func(ev *CallEv) ([]*Term, bool) {
		s := ev.S
		if ev.Go {
			return nil, false
		}
		switch {
		case strings.HasPrefix(ev.Key, "net/http.NewRequest"):
			a := ev.Args
			if strings.HasSuffix(ev.Key, "WithContext") {
				a = a[1:]
			}
			rs := e.freshResults(s, ev, 2)
			s.regs["req"], s.regs["reqerr"] = rs[0], rs[1]
			s.regs["method"], s.regs["url"], s.regs["body"] = a[0], a[1], a[2]
			s.auto["ua"], s.auto["ct"] = "", ""
			s.auto["body"] = "fresh"
			if a[2].Any(func(t *Term) bool { return t.op == "reader" }) {
				s.assume(e.Eq(fieldTerm(s, rs[0], reqT, "GetBody"), e.TS.Nil()), false)
			}
			return rs, true
		case ev.Key == "(net/http.Header).Get":
			return headerGet(e, ev), true
		case ev.Key == "strings.NewReader", ev.Key == "bytes.NewReader", ev.Key == "bytes.NewBufferString":
			return []*Term{e.TS.mk("reader", "", nil, nil, nil, ev.Args[0])}, true
		case ev.Key == "(net/http.Header).Set" || ev.Key == "(net/http.Header).Add":
			if req := loadOf(ev.Args[0], "Header"); req != nil && req == s.regs["req"] {
				switch headerKey(ev.Args[1]) {
				case "User-Agent":
					if why := agentOK(ev.Args[2]); why != "" {
						s.auto["ua"] = why
					} else {
						s.auto["ua"] = "ok"
					}
				case "Content-Type":
					s.auto["ct"] = "ok"
				}
			}
			return nil, true
		case ev.Key == "(net/http.Header).Del":
			s.auto["ua"] = "is deleted again"
			return nil, true
		case ev.Key == "time.Sleep":
			if s.auto["sent"] == "1" {
				s.auto["slept"] = "1"
			}
			return nil, true
		case isNetCall(ev.Key):
			m := methodName(ev.Key)
			if m != "Do" && m != "RoundTrip" {
				return nil, false
			}
			r.Count("requests_sent", 1)
			at := p.At(ev.Instr)
			req := ev.Args[len(ev.Args)-1]
			if req != s.regs["req"] {
				r.Bad("foreign-request:"+name, at, "the request sent (%s) is not the one created before; path %s", req, s.PathString())
			} else {
				if !s.KnownNil(s.regs["reqerr"]) {
					r.Bad("unchecked-request:"+name, at, "the request is sent where creating it is not known to have succeeded; path %s", s.PathString())
				}
				if ua := s.auto["ua"]; ua != "ok" {
					if ua == "" {
						ua = "is not set"
					}
					r.Bad("user-agent:"+name, at, "the user agent of the request sent by %s %s; path %s", name, ua, s.PathString())
				}
				if b := s.regs["body"]; !b.IsNilConst() && s.auto["ct"] == "" {
					r.Bad("content-type:"+name, at, "%s sends a body without naming its content type; path %s", name, s.PathString())
				}
				checkArgs(p, r, fn, s, at)
			}
			if s.auto["sent"] == "1" {
				r.Count("retries", 1)
				if s.auto["slept"] != "1" {
					r.Bad("no-pause:"+name, at, "%s sends the request again without a pause; path %s", name, s.PathString())
				}
				if s.auto["body"] != "fresh" && !s.regs["body"].IsNilConst() {
					r.Bad("consumed-body:"+name, at, "%s sends the request again although its body was consumed by the previous attempt; path %s", name, s.PathString())
				}
			}
			s.auto["sent"], s.auto["slept"], s.auto["body"] = "1", "", "consumed"
			rs := e.freshResults(s, ev, 2)
			s.regs["resp"], s.regs["resperr"] = rs[0], rs[1]
			return rs, true
		case ev.Key == kCacheToFile:
			rd := ev.Args[2]
			for rd.op == "iface" || rd.op == "unbox" {
				rd = rd.args[0]
			}
			r.Count("responses_handed_on", 1)
			resp := loadOf(rd, "Body")
			if resp == nil {
				r.Bad("stored-other:"+name, p.At(ev.Instr), "%s stores %s, which is not the body of the response; path %s", name, rd, s.PathString())
			} else if why := notData(s, resp); why != "" {
				r.Bad("stored-failure:"+name, p.At(ev.Instr), "%s stores a response although %s; path %s", name, why, s.PathString())
			}
		}
		// GetBody of the request
		if !ev.Common.IsInvoke() && ev.Callee == nil && s.regs["req"] != nil {
			if q := loadOf(e.val(s, ev.Common.Value), "GetBody"); q != nil && q == s.regs["req"] {
				rs := e.freshResults(s, ev, 2)
				s.regs["newbody"], s.regs["newbodyerr"] = rs[0], rs[1]
				return rs, true
			}
		}
		return nil, false
	}
	e.OnStore = func(s *State, addr, val *Term, in ssa.Instruction) {
		if addr.op == "field&" && addr.args[0] == s.regs["req"] && s.regs["req"] != nil {
			switch fieldName(addr.name) {
			case "Body":
				if val == s.regs["newbody"] && s.regs["newbody"] != nil || val.Any(func(t *Term) bool { return t.op == "reader" && s.regs["body"].Contains(t) }) {
					s.auto["body"] = "fresh"
				} else {
					s.auto["body"] = "other"
				}
			case "URL", "Method", "Host", "Header":
				r.Bad("request-changed:"+name, p.At(in), "%s changes the %s of the request after it was created", name, fieldName(addr.name))
			}
		}
	}
	e.OnReturn = func(s *State, rs []*Term, ret *ssa.Return) {
		n := len(rs)
		if n == 0 || s.regs["resp"] == nil {
			return
		}
		resp := s.regs["resp"]
		status := fieldTerm(s, resp, respT, "StatusCode")
		if s.Known(e.Eq(status, e.TS.Int(429)), true) && s.KnownNil(s.regs["resperr"]) {
			if be := s.regs["newbodyerr"]; be == nil || !s.KnownNonNil(be) {
				r.Bad("no-retry:"+name, p.At(ret), "%s gives up after a 'too many requests' answer; path %s", name, s.PathString())
			}
		}
		if s.KnownNonNil(rs[n-1]) {
			return
		}
		for _, x := range rs[:n-1] {
			if x == resp || x.Contains(resp) && x.op != "extract" {
				r.Count("responses_handed_on", 1)
				if why := notData(s, resp); why != "" {
					r.Bad("returned-failure:"+name, p.At(ret), "%s returns a response as a success although %s; path %s", name, why, s.PathString())
				}
			}
		}
	}
	e.Run(fn, nil, nil)
	r.EngineStats(e, name)
}

// checkArgs: the address is the entry's address parameter, a body is made from exactly one of its parameters.
func checkArgs(p *Program, r *Report, fn *ssa.Function, s *State, at string) {
	name := FnName(fn)
	u := s.regs["url"]
	isParam := func(t *Term) bool { return t.op == "sym" && strings.HasPrefix(t.name, "$") }
	if !isParam(u) {
		r.Bad("url:"+name, at, "%s sends the request to %s instead of the address it was given", name, u)
	}
	b := s.regs["body"]
	for b.op == "iface" || b.op == "reader" || b.op == "unbox" {
		b = b.args[0]
	}
	m, _ := s.regs["method"].StrVal()
	if b.IsNilConst() {
		if m != "GET" && m != "" {
			r.Bad("method:"+name, at, "%s sends a request without body with method %s", name, m)
		}
		return
	}
	if m != "POST" {
		r.Bad("method:"+name, at, "%s sends a form with method %s", name, s.regs["method"])
	}
	if !isParam(b) || b == u {
		r.Bad("body:"+name, at, "%s sends %s instead of the data it was given", name, b)
	}
}

// isCurrent: the configuration in effect, not another one.
func isCurrent(t *Term) bool {
	for t.op == "deref" {
		t = t.args[0]
	}
	return t.op == "global" && strings.HasSuffix(t.name, "config.Current")
}
