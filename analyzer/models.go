package main

import "strings"

const sigolo = "github.com/hauke96/sigolo/v2."

// isLogCall: logging without effect on the program's state or control flow.
func isLogCall(k string) bool {
	if strings.HasPrefix(k, sigolo) || strings.HasPrefix(k, "(*github.com/hauke96/sigolo/v2") {
		return !strings.Contains(k, ".Fatal")
	}
	switch k {
	case "fmt.Print", "fmt.Println", "fmt.Printf", "log.Print", "log.Println", "log.Printf":
		return true
	}
	return strings.HasPrefix(k, "log/slog.")
}

// noReturn: "always" = the call never returns; "iferr" = it returns only when its first argument (an error) is nil.
func noReturn(k string) string {
	switch k {
	case "os.Exit", "runtime.Goexit", "log.Fatal", "log.Fatalf", "log.Fatalln":
		return "always"
	}
	if strings.HasPrefix(k, sigolo) || strings.HasPrefix(k, "(*github.com/hauke96/sigolo/v2") {
		i := strings.LastIndexByte(k, '.')
		n := k[i+1:]
		if strings.HasPrefix(n, "FatalCheck") {
			return "iferr"
		}
		if strings.HasPrefix(n, "Fatal") {
			return "always"
		}
	}
	return ""
}

func isErrWrap(k string) bool {
	switch k {
	case "github.com/pkg/errors.Wrap", "github.com/pkg/errors.Wrapf", "github.com/pkg/errors.WithMessage", "github.com/pkg/errors.WithMessagef", "github.com/pkg/errors.WithStack":
		return true
	}
	return false
}

func nonNilResult(k string) bool {
	switch k {
	case "github.com/pkg/errors.New", "github.com/pkg/errors.Errorf", "errors.New", "fmt.Errorf", "regexp.MustCompile", "strings.NewReader", "bytes.NewReader", "bytes.NewBuffer", "strings.NewReplacer", "io.NopCloser":
		return true
	}
	return false
}

var purePkgs = []string{"strings.", "strconv.", "path.", "path/filepath.", "errors.", "github.com/pkg/errors.", "net/url.", "unicode.", "unicode/utf8.", "math.", "regexp.", "(*regexp.Regexp).", "html.", "encoding/hex.", "crypto/sha1.", "crypto/sha256.", "crypto/md5.", "time.Duration", "(time.Duration).", "(time.Time).", "bytes.", "slices.", "maps.", "cmp.", "reflect.DeepEqual", "(*strings.Replacer).", "encoding/json.Marshal", "encoding/base64.", "(*net/url.URL).String", "(*encoding/base64.Encoding).", "iface(io/fs.FileInfo).", "iface(os.FileInfo)."}

var impureFns = map[string]bool{
	"path/filepath.Walk": true, "path/filepath.WalkDir": true, "path/filepath.Glob": true, "path/filepath.EvalSymlinks": true,
	"strings.NewReader": true, "bytes.NewReader": true, "bytes.NewBuffer": true, "bytes.NewBufferString": true,
	"slices.Sort": true, "slices.SortFunc": true, "slices.Reverse": true, "slices.SortStableFunc": true,
	"maps.Copy": true, "maps.DeleteFunc": true, "strings.Map": true, "slices.Delete": true, "slices.Insert": true, "math/rand": true, "maps.Keys": true, "maps.Values": true, "maps.All": true,
}

// isPureExternal: the result depends on the arguments only (a value number may stand for it).
func isPureExternal(k string) bool {
	if impureFns[k] || strings.HasPrefix(k, "math/rand") {
		return false
	}
	switch k {
	case "time.Since", "time.Until", "fmt.Sprintf", "fmt.Sprint", "fmt.Errorf", "os.IsNotExist", "os.IsExist", "fmt.Sprintln", "sort.SearchStrings", "iface(error).Error", "io.NopCloser", "os.IsPermission":
		return true
	}
	for _, p := range purePkgs {
		if strings.HasPrefix(k, p) {
			return true
		}
	}
	return false
}
