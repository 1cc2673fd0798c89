package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Check is one property's decision procedure.
type Check struct {
	ID    string
	Title string
	Rule  string // the rule applied, for the evidence
	Run   func(p *Program, r *Report)
}

type Finding struct {
	Key  string `json:"key"` // stable: rule + construct, no line numbers
	At   string `json:"at"`
	Text string `json:"text"`
}

// Report collects what a check analysed and found.
type Report struct {
	ID       string
	Findings []Finding
	Counts   map[string]int
	Samples  []string
	Notes    []string
	Assume   []string
	seen     map[string]bool
}

func (r *Report) Bad(key, at, format string, args ...any) {
	if r.seen[key] {
		return
	}
	r.seen[key] = true
	r.Findings = append(r.Findings, Finding{key, at, fmt.Sprintf(format, args...)})
}

// Undecided reports something the analysis could not decide; it counts as a violation.
func (r *Report) Undecided(key, at, format string, args ...any) {
	r.Bad("undecided:"+key, at, "undecided: "+format, args...)
}

func (r *Report) Count(what string, n int) { r.Counts[what] += n }

// AtLeast fails the check when fewer instances than confirmed by hand were found.
func (r *Report) AtLeast(what string, n int) {
	if r.Counts[what] < n {
		r.Undecided("instances:"+what, "-", "only %d %s found, at least %d confirmed by hand; the rule would pass vacuously", r.Counts[what], what, n)
	}
}

func (r *Report) Sample(format string, args ...any) {
	if len(r.Samples) < 40 {
		r.Samples = append(r.Samples, fmt.Sprintf(format, args...))
	}
}

var registry = map[string]*Check{}

func register(c *Check) { registry[c.ID] = c }

// EngineStats adds the engine's work to the report and turns an overflow into an undecided obligation.
func (r *Report) EngineStats(e *Engine, what string) {
	r.Count("abstract_states", e.States)
	r.Count("transfer_steps", e.Transit)
	r.Counts["functions_entered"] += len(e.Entered)
	if e.Overflow {
		r.Undecided("overflow:"+what, "-", "state budget of %d exhausted while analysing %s", e.MaxStates, what)
	}
}

func knownFindings(verif string) (map[string]bool, error) {
	out := map[string]bool{}
	f, err := os.Open(filepath.Join(verif, "known-findings.txt"))
	if err != nil {
		if os.IsNotExist(err) {
			return out, nil
		}
		return nil, err
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		// finding: property=<id> key=<key> | text
		if strings.HasPrefix(l, "finding: property=") {
			rest := strings.TrimPrefix(l, "finding: property=")
			parts := strings.SplitN(rest, " ", 2)
			if len(parts) == 2 && strings.HasPrefix(parts[1], "key=") {
				k := strings.TrimPrefix(parts[1], "key=")
				if i := strings.Index(k, " | "); i >= 0 {
					k = k[:i]
				}
				out[parts[0]+" "+strings.TrimSpace(k)] = true
			}
		}
	}
	return out, sc.Err()
}

func main() {
	var ids, verif string
	var list, dump bool
	flag.StringVar(&ids, "p", "", "property ids, comma separated, or all")
	flag.StringVar(&verif, "verif", ".", "verif directory")
	flag.BoolVar(&list, "list", false, "list checks")
	flag.BoolVar(&dump, "dump", false, "print samples")
	flag.Parse()
	var all []string
	for id := range registry {
		all = append(all, id)
	}
	sort.Strings(all)
	if list {
		for _, id := range all {
			fmt.Println(id, registry[id].Title)
		}
		return
	}
	want := strings.Split(ids, ",")
	if ids == "all" {
		want = all
	}
	start := time.Now()
	p, err := Load()
	loadS := time.Since(start).Seconds()
	known, kerr := knownFindings(verif)
	if kerr != nil {
		fmt.Println("error reading known findings:", kerr)
	}
	exit := 0
	for _, id := range want {
		c := registry[id]
		if c == nil {
			fmt.Println("unknown property", id)
			os.Exit(2)
		}
		t0 := time.Now()
		r := &Report{ID: id, Counts: map[string]int{}, seen: map[string]bool{}}
		if err != nil {
			r.Undecided("load", "-", "the repository could not be loaded: %v", err)
		} else {
			r.Counts["repo_packages"] = len(p.Pkgs)
			r.Counts["repo_functions"] = len(p.Funcs)
			func() {
				defer func() {
					if x := recover(); x != nil {
						r.Undecided("panic", "-", "the analysis failed: %v\n%s", x, debug.Stack())
					}
				}()
				c.Run(p, r)
			}()
		}
		if finish(c, r, verif, known, loadS+time.Since(t0).Seconds(), dump) {
			exit = 1
		}
	}
	os.Exit(exit)
}

func finish(c *Check, r *Report, verif string, known map[string]bool, wall float64, dump bool) bool {
	sort.SliceStable(r.Findings, func(i, j int) bool { return r.Findings[i].Key < r.Findings[j].Key })
	var bad, kn []Finding
	for _, f := range r.Findings {
		if known[r.ID+" "+f.Key] {
			kn = append(kn, f)
		} else {
			bad = append(bad, f)
		}
	}
	var keys []string
	for k := range r.Counts {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var cs []string
	for _, k := range keys {
		cs = append(cs, fmt.Sprintf("%s=%d", k, r.Counts[k]))
	}
	fmt.Printf("%s %s\n  analysed: %s\n", r.ID, c.Title, strings.Join(cs, " "))
	if dump {
		for _, s := range r.Samples {
			fmt.Println("  sample:", s)
		}
	}
	for _, f := range kn {
		fmt.Printf("KNOWN-FINDING: property=%s %s at %s: %s\n", r.ID, f.Key, f.At, f.Text)
	}
	for _, f := range bad {
		fmt.Printf("  %s: [%s] %s\n", f.At, f.Key, f.Text)
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	replay := filepath.Join("evidence", r.ID+".violations.json")
	if len(bad) > 0 {
		b, _ := json.MarshalIndent(bad, "", " ")
		os.WriteFile(filepath.Join(verif, replay), append(b, '\n'), 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.ID, replay)
	} else {
		os.Remove(filepath.Join(verif, replay))
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	cov := map[string]any{
		"explanation": "Static analysis of the type-checked source and SSA form in " + repoRoot() + "; rule: " + c.Rule,
		"rule":        c.Rule,
		"analysed":    r.Counts,
		"samples":     r.Samples,
		"notes":       r.Notes,
		"violations":  bad,
		"known":       kn,
	}
	ev := map[string]any{"property": r.ID, "tier": tier, "seed": seed, "level": "other", "coverage": cov, "assumptions": r.Assume, "wall_s": wall, "violations": len(bad)}
	if r.Assume == nil {
		ev["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(verif, "evidence", r.ID+".json"), append(b, '\n'), 0o644)
	return len(bad) > 0
}
