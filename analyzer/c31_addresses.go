package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C31", Title: "Values in request addresses are escaped for their position",
		Rule: "the address (and form body) of every request is split into literal text and inserted values, through all functions building it; the literal text before a value gives its position, and each value not made of safe characters is escaped exactly once, last, and for this position: query escaping in query values and forms, path escaping (or query escaping of a value without spaces) in the path, nothing but settings as host",
		Run:  runC31})
}

type addrCheck struct {
	p  *Program
	r  *Report
	sh *shaper
}

var requestSinks = map[string]struct{ url, body int }{
	"net/http.NewRequest":            {1, 2},
	"net/http.NewRequestWithContext": {2, 3},
	"net/http.Get":                   {0, -1},
	"net/http.Head":                  {0, -1},
	"net/http.Post":                  {0, 2},
	"net/http.PostForm":              {0, -1},
	"(*net/http.Client).Get":         {1, -1},
	"(*net/http.Client).Head":        {1, -1},
	"(*net/http.Client).Post":        {1, 3},
	"(*net/http.Client).PostForm":    {1, -1},
}

func runC31(p *Program, r *Report) {
	a := &addrCheck{p: p, r: r}
	cfg := configOf(p, r)
	if cfg == nil {
		return
	}
	a.sh = &shaper{p: p, params: true,
		op: func(k string) (string, int, bool) {
			switch k {
			case "net/url.QueryEscape":
				return "query", 0, true
			case "net/url.PathEscape":
				return "path", 0, true
			}
			return "", 0, false
		},
		field: func(fv *types.Var) bool {
			return fv.Pkg() != nil && strings.HasPrefix(fv.Pkg().Path(), modPath) && !a.isSetting(fv)
		},
	}
	for _, f := range p.Funcs {
		for _, s := range CallSites(f) {
			c := s.Common()
			sink, ok := requestSinks[CalleeKey(c)]
			if !ok {
				continue
			}
			r.Count("requests", 1)
			a.address(s, c.Args[sink.url])
			if sink.body >= 0 {
				a.body(s, c.Args[sink.body])
			}
		}
		// an address must not be changed after it was built
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
					if fv := fieldVar(fa.X.Type(), fa.Field); fv != nil && fv.Pkg() != nil && (fv.Pkg().Path() == "net/url" || fv.Pkg().Path() == "net/http" && fv.Name() == "URL") {
						r.Undecided("url-field:"+FnName(f), p.At(st), "the address of a request is assembled or changed by fields (%s)", fv.Name())
					}
				}
			}
		}
	}
	r.AtLeast("requests", 2)
	r.AtLeast("addresses", 4)
	r.AtLeast("inserted values", 7)
	r.AtLeast("form bodies", 1)
}

// isSetting: a field of the configuration.
func (a *addrCheck) isSetting(fv *types.Var) bool {
	return fv.Pkg() != nil && strings.HasSuffix(fv.Pkg().Path(), "/config")
}

func (a *addrCheck) address(s ssa.CallInstruction, v ssa.Value) {
	for _, sh := range a.sh.eval(v) {
		a.r.Count("addresses", 1)
		a.scan(s, sh, "start")
	}
	if a.sh.overflow {
		a.r.Undecided("overflow", a.p.At(s), "too many ways to build the address")
	}
}

func (a *addrCheck) body(s ssa.CallInstruction, v ssa.Value) {
	v = a.p.resolve(v)
	switch u := v.(type) {
	case *ssa.Const:
		return
	case *ssa.Call:
		switch CalleeKey(&u.Call) {
		case "strings.NewReader", "bytes.NewBufferString":
			for _, sh := range a.sh.eval(u.Call.Args[0]) {
				a.r.Count("form bodies", 1)
				a.scan(s, sh, "key")
			}
			return
		case "bytes.NewReader", "bytes.NewBuffer":
			x := u.Call.Args[0]
			if cv, ok := x.(*ssa.Convert); ok {
				for _, sh := range a.sh.eval(cv.X) {
					a.r.Count("form bodies", 1)
					a.scan(s, sh, "key")
				}
				return
			}
		}
	}
	a.r.Undecided("body:"+FnName(s.Parent()), a.p.At(s), "what the request sends is not known: %s", describe(v))
}

// where a value was inserted, for reports
func (a *addrCheck) where(s ssa.CallInstruction, q strPart) (string, string) {
	in := q.at
	if in == nil {
		if x, ok := q.v.(ssa.Instruction); ok {
			in = x
		}
	}
	if in != nil && in.Parent() != nil {
		return FnName(in.Parent()), a.p.At(in)
	}
	if x, ok := q.v.(*ssa.Parameter); ok {
		return FnName(x.Parent()), a.p.Pos(x.Pos())
	}
	return FnName(s.Parent()), a.p.At(s)
}

// scan follows the position within the address: start, host, path, key, value, fragment.
func (a *addrCheck) scan(s ssa.CallInstruction, sh shape, state string) {
	text := ""
	for _, q := range sh {
		if q.v == nil {
			text += q.lit
			if i := strings.IndexFunc(q.lit, func(ch rune) bool { return ch <= ' ' || ch >= 0x7f || strings.ContainsRune("\"<>\\^`{|}", ch) }); i >= 0 {
				a.r.Bad("literal:"+FnName(s.Parent()), a.p.At(s), "the address or form contains the text %q, which is not escaped", q.lit)
			}
			for i := 0; i < len(q.lit); i++ {
				state = nextPosition(state, q.lit[i:], text)
			}
			continue
		}
		a.r.Count("inserted values", 1)
		state = a.value(s, q, state, text)
		text += "…"
	}
	if state == "start" || state == "scheme" {
		if len(sh) > 0 {
			a.r.Undecided("scheme:"+FnName(s.Parent()), a.p.At(s), "the address %q has no scheme and host", text)
		}
	}
}

func nextPosition(state, rest, all string) string {
	c := rest[0]
	switch state {
	case "start":
		if strings.HasPrefix(rest, "://") {
			return "scheme"
		}
	case "scheme":
		if c == '/' && strings.HasPrefix(rest, "//") || c == ':' {
			return "scheme"
		}
		if c == '/' {
			return "host"
		}
		return "host"
	case "host":
		switch c {
		case '/':
			return "path"
		case '?':
			return "key"
		case '#':
			return "fragment"
		}
	case "path":
		switch c {
		case '?':
			return "key"
		case '#':
			return "fragment"
		}
	case "key":
		switch c {
		case '=':
			return "value"
		case '#':
			return "fragment"
		}
	case "value":
		switch c {
		case '&':
			return "key"
		case '#':
			return "fragment"
		}
	}
	return state
}

// value judges an inserted value and gives the position after it.
func (a *addrCheck) value(s ssa.CallInstruction, q strPart, state, text string) string {
	fn, at := a.where(s, q)
	if len(q.ops) == 0 {
		if c, ok := q.v.(*ssa.Call); ok {
			switch CalleeKey(&c.Call) {
			case "strings.ReplaceAll", "strings.Replace":
				// url.QueryEscape with %20 instead of +
				from, to := constText(c.Call.Args[1]), constText(c.Call.Args[2])
				in := a.sh.eval(c.Call.Args[0])
				if from == "+" && to == "%20" && len(in) == 1 && len(in[0]) == 1 && strings.Join(in[0][0].ops, ",") == "query" && !strings.HasSuffix(CalleeKey(&c.Call), "Replace") {
					q = in[0][0]
					q.ops = []string{"both"}
				}
			case "(net/url.Values).Encode":
				if state == "key" {
					return "value"
				}
			}
		}
	}
	if len(q.ops) > 1 {
		a.r.Bad("twice:"+fn, at, "the value inserted after %q is escaped more than once", text)
		return state
	}
	if len(q.ops) == 0 && a.safe(q, 0) {
		if state == "start" || state == "scheme" {
			return "host"
		}
		return state
	}
	kinds := a.sources(q.v)
	settings := len(q.ops) == 0 && kinds["settings"] && len(kinds) == 1
	switch state {
	case "start":
		if !settings {
			a.r.Bad("base:"+fn, at, "the address starts with %s, which does not come from the settings only", describe(q.v))
		}
		return "path"
	case "scheme", "host":
		if !settings {
			a.r.Bad("host:"+fn, at, "the host of the address (after %q) contains a value that does not come from the settings only", text)
		}
		return "host"
	case "path":
		switch {
		case len(q.ops) == 1 && (q.ops[0] == "path" || q.ops[0] == "both"):
		case len(q.ops) == 1 && q.ops[0] == "query":
			if !a.noSpace(q.v, map[ssa.Value]bool{}) {
				a.r.Bad("path-space:"+fn, at, "the value inserted after %q is escaped for a query but is part of the path: spaces become plus signs", text)
			}
		case settings:
		case kinds["server"] && len(kinds) == 1 || kinds["server"] && kinds["settings"] && len(kinds) == 2:
		default:
			a.raw(q, fn, at, text)
		}
	case "value":
		switch {
		case len(q.ops) == 1 && (q.ops[0] == "query" || q.ops[0] == "both"):
		case len(q.ops) == 1:
			a.r.Bad("query-path-escape:"+fn, at, "the value inserted after %q is escaped for a path but is part of the query: \"&\", \"=\" and \"+\" stay unescaped", text)
		default:
			a.raw(q, fn, at, text)
		}
	default:
		a.r.Bad("position:"+fn, at, "a value is inserted after %q, where it is not a value of the address (%s)", text, state)
	}
	return state
}

func (a *addrCheck) raw(q strPart, fn, at, text string) {
	if a.madeFromEscaped(q.v, map[ssa.Value]bool{}, 0) {
		a.r.Bad("after:"+fn, at, "the value inserted after %q is changed after it was escaped", text)
		return
	}
	a.r.Bad("raw:"+fn, at, "the value inserted after %q is not escaped", text)
}

func (a *addrCheck) madeFromEscaped(v ssa.Value, seen map[ssa.Value]bool, d int) bool {
	if seen[v] || d > 12 {
		return false
	}
	seen[v] = true
	v = a.p.resolve(v)
	if c, ok := v.(*ssa.Call); ok {
		switch CalleeKey(&c.Call) {
		case "net/url.QueryEscape", "net/url.PathEscape":
			return true
		}
	}
	in, ok := v.(ssa.Instruction)
	if !ok {
		return false
	}
	for _, o := range in.Operands(nil) {
		if *o != nil && a.madeFromEscaped(*o, seen, d+1) {
			return true
		}
	}
	return false
}

func constText(v ssa.Value) string {
	if c, ok := v.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String {
		return constant.StringVal(c.Value)
	}
	return "\x00"
}

// safe: the value only has characters that need no escaping.
func (a *addrCheck) safe(q strPart, d int) bool {
	if d > 6 {
		return false
	}
	switch strings.TrimLeft(q.verb, "%0123456789") {
	case "d", "x", "X", "b", "o", "t":
		return q.verb != ""
	case "c":
		v := q.v
		for {
			if cv, ok := v.(*ssa.Convert); ok {
				v = cv.X
				continue
			}
			break
		}
		var str ssa.Value
		switch u := v.(type) {
		case *ssa.Lookup:
			str = u.X
		case *ssa.Index:
			str = u.X
		}
		if str == nil {
			return false
		}
		return a.safeString(str, d)
	case "s", "v", "":
	default:
		return false
	}
	if b, ok := q.v.Type().Underlying().(*types.Basic); ok && b.Info()&(types.IsInteger|types.IsBoolean) != 0 && b.Kind() != types.Uint8 && b.Kind() != types.Int32 {
		return true
	}
	if c, ok := q.v.(*ssa.Call); ok {
		switch CalleeKey(&c.Call) {
		case "encoding/hex.EncodeToString", "strconv.Itoa", "strconv.FormatInt":
			return true
		}
	}
	// a part of a safe string
	switch u := a.p.resolve(q.v).(type) {
	case *ssa.Slice:
		return a.safeString(u.X, d)
	case *ssa.Convert:
		switch x := u.X.(type) {
		case *ssa.Lookup:
			return a.safeString(x.X, d)
		case *ssa.Index:
			return a.safeString(x.X, d)
		}
	}
	return false
}

func (a *addrCheck) safeString(v ssa.Value, d int) bool {
	for _, sh := range a.sh.eval(v) {
		for _, x := range sh {
			if x.v == nil {
				for _, ch := range x.lit {
					if !(ch >= 'a' && ch <= 'z' || ch >= 'A' && ch <= 'Z' || ch >= '0' && ch <= '9' || ch == '-' || ch == '_' || ch == '.') {
						return false
					}
				}
			} else if len(x.ops) > 0 || !a.safe(x, d+1) {
				return false
			}
		}
	}
	return true
}

// sources tells where a value comes from: settings, the server's answers as a whole (a header, a stored answer) or other.
func (a *addrCheck) sources(v ssa.Value) map[string]bool {
	out := map[string]bool{}
	o := &origins{p: a.p}
	o.stop = func(v ssa.Value, via []ssa.Value) bool {
		switch u := v.(type) {
		case *ssa.UnOp:
			if u.Op == token.MUL {
				if fa, ok := u.X.(*ssa.FieldAddr); ok {
					if fv := fieldVar(fa.X.Type(), fa.Field); fv != nil && a.isSetting(fv) {
						out["settings"] = true
						return true
					}
				}
			}
		case *ssa.Field:
			if fv := fieldVar(u.X.Type(), u.Field); fv != nil && a.isSetting(fv) {
				out["settings"] = true
				return true
			}
		case *ssa.Const:
			return true
		}
		return false
	}
	o.pass = func(k string, c *ssa.CallCommon) []ssa.Value {
		if strings.HasPrefix(k, "strings.") || strings.HasPrefix(k, "fmt.Sprint") || strings.HasPrefix(k, "path.") {
			return c.Args
		}
		return nil
	}
	o.leaf = func(v ssa.Value, via []ssa.Value) {
		var c *ssa.Call
		switch u := v.(type) {
		case *ssa.Call:
			c = u
		case *ssa.Extract:
			c, _ = u.Tuple.(*ssa.Call)
		}
		if c != nil {
			switch k := CalleeKey(&c.Call); {
			case k == "(net/http.Header).Get", isFs(k, "ReadFile"), k == "os.ReadFile":
				out["server"] = true
				return
			}
		}
		if _, ok := v.(*ssa.Const); ok {
			return
		}
		out["other"] = true
	}
	o.walk(v, nil)
	return out
}

// noSpace: spaces have been replaced in the value.
func (a *addrCheck) noSpace(v ssa.Value, seen map[ssa.Value]bool) bool {
	v = a.p.resolve(v)
	if seen[v] {
		return true
	}
	seen[v] = true
	switch u := v.(type) {
	case *ssa.Const:
		return !strings.Contains(constText(u), " ")
	case *ssa.Phi:
		for _, e := range u.Edges {
			if !a.noSpace(e, seen) {
				return false
			}
		}
		return true
	case *ssa.BinOp:
		return u.Op == token.ADD && a.noSpace(u.X, seen) && a.noSpace(u.Y, seen)
	case *ssa.Slice:
		return a.noSpace(u.X, seen)
	case *ssa.Extract:
		if c, ok := u.Tuple.(*ssa.Call); ok {
			switch CalleeKey(&c.Call) {
			case "strings.Cut", "strings.CutPrefix", "strings.CutSuffix":
				return a.noSpace(c.Call.Args[0], seen)
			}
		}
	case *ssa.Parameter:
		sites, ok := a.p.sitesOf(u.Parent())
		if !ok || len(sites) == 0 {
			return false
		}
		for _, s := range sites {
			args := s.Common().Args
			if s.Common().IsInvoke() {
				args = append([]ssa.Value{s.Common().Value}, args...)
			}
			for i, q := range u.Parent().Params {
				if q == u && (i >= len(args) || !a.noSpace(args[i], seen)) {
					return false
				}
			}
		}
		return true
	case *ssa.Call:
		k := CalleeKey(&u.Call)
		switch k {
		case "strings.ReplaceAll":
			from, to := constText(u.Call.Args[1]), constText(u.Call.Args[2])
			if strings.Contains(to, " ") {
				return false
			}
			return from == " " || a.noSpace(u.Call.Args[0], seen)
		case "strings.TrimSpace", "strings.ToLower", "strings.ToUpper", "strings.TrimPrefix", "strings.TrimSuffix", "strings.Trim":
			return a.noSpace(u.Call.Args[0], seen)
		}
		fs := a.p.repoCallees(&u.Call)
		if len(fs) != 1 {
			return false
		}
		for _, b := range fs[0].Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && b != fs[0].Recover {
				if len(ret.Results) != 1 || !a.noSpace(resultOf(ret, 0), seen) {
					return false
				}
			}
		}
		return true
	}
	return false
}
