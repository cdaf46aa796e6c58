package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	rdebug "runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"
)

func main() {
	repo := flag.String("repo", "/repo", "repository")
	only := flag.String("only", "", "only obligations with this prefix")
	prop := flag.String("prop", "", "decide this property and write its evidence")
	out := flag.String("out", ".", "directory holding evidence/ and replay/")
	manifest := flag.Bool("manifest", false, "print MANIFEST.json")
	verbose := flag.Bool("v", false, "verbose")
	flag.Parse()
	t0 := time.Now()
	if *manifest {
		printManifest()
		return
	}
	if *prop != "" {
		if os.Getenv("SV_CHILD") == "" {
			os.Exit(supervise(*repo, *prop, *out))
		}
		os.Exit(runProperty(*repo, *prop, *out, t0))
	}
	p := load(*repo)
	if len(p.loadErr) > 0 {
		fmt.Println("load:", strings.Join(p.loadErr, "\n"))
		os.Exit(2)
	}
	for _, d := range p.dropped {
		fmt.Println("dropped:", d)
	}
	for _, d := range p.subErr {
		fmt.Println("package error:", d)
	}
	setupInterp(p)
	if *verbose {
		fmt.Println("loaded in", time.Since(t0))
	}
	bad := 0
	for _, t := range tasks(p) {
		if !strings.HasPrefix(t.name, *only) {
			continue
		}
		t1 := time.Now()
		r := t.safeRun(p)
		fmt.Printf("%-10s %-36s cases=%d steps=%d %v\n", r.status, r.name, r.cases, r.steps, time.Since(t1).Round(time.Millisecond))
		if r.status != "ok" {
			bad++
			fmt.Println("    ", r.detail)
		}
		if *verbose {
			fmt.Println("     ", keysOf(r.funcs))
			for _, l := range r.loops {
				fmt.Println("      loop", l)
			}
			for k, n := range r.unknown {
				fmt.Println("      unmodelled", k, n)
			}
		}
	}
	if bad > 0 {
		os.Exit(1)
	}
}

// task is one obligation of a property.
type task struct {
	prop, name, text string
	run              func(p *Program) *Result
}

func (t *task) safeRun(p *Program) (r *Result) {
	defer func() {
		if e := recover(); e != nil {
			msg := fmt.Sprint(e)
			if u, ok := e.(undecided); ok {
				msg = u.msg
			} else if os.Getenv("SV_DEBUG") != "" {
				rdebug.PrintStack()
			}
			r = &Result{prop: t.prop, name: t.name, status: "undecided", detail: "analysis stopped: " + msg, funcs: map[string]bool{}}
		}
	}()
	return t.run(p)
}

// tasks lists every obligation: the rules and the driver checks.
func tasks(p *Program) []*task {
	var out []*task
	if p.spec != nil {
		for _, o := range collectObligs(p) {
			o := o
			text := strings.TrimSpace(o.doc)
			out = append(out, &task{o.prop, o.name, text, func(p *Program) *Result { return o.decide(p) }})
		}
	}
	for _, d := range p.dropped {
		n, why, _ := strings.Cut(d, ": ")
		if i := strings.LastIndex(n, "__"); i > 0 && !strings.HasSuffix(n, "__rule") {
			n = n[:i]
		} else {
			continue
		}
		pr := strings.SplitN(n, "_", 2)[0]
		out = append(out, &task{pr, n, "", func(p *Program) *Result {
			return &Result{prop: pr, name: n, status: "undecided", detail: "the rule does not type-check against this tree: " + why, funcs: map[string]bool{}}
		}})
	}
	out = append(out, driverTasks(p)...)
	sort.SliceStable(out, func(i, j int) bool { return out[i].name < out[j].name })
	return out
}

func keysOf(m map[string]bool) []string {
	var fs []string
	for f := range m {
		fs = append(fs, f)
	}
	sort.Strings(fs)
	return fs
}

type obligRecord struct {
	Obligation string   `json:"obligation"`
	Status     string   `json:"status"`
	Cases      int      `json:"cases"`
	Steps      int      `json:"ssa_steps"`
	Config     string   `json:"configuration,omitempty"`
	Rule       string   `json:"rule,omitempty"`
	Loops      []string `json:"loops,omitempty"`
	Functions  []string `json:"functions,omitempty"`
	Detail     string   `json:"detail,omitempty"`
}

func runProperty(repo, prop, out string, t0 time.Time) int {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	if tier == "thorough" {
		obligTime = 240 * time.Second
	}
	go watchdog(2*obligTime + 60*time.Second)
	os.MkdirAll(filepath.Join(out, "evidence"), 0o755)
	os.MkdirAll(filepath.Join(out, "replay"), 0o755)
	setProgress(prop + "_load")
	p := load(repo)
	var recs []obligRecord
	funcs := map[string]bool{}
	var undec, viols, known []*Result
	steps, sites := 0, 0
	if len(p.loadErr) > 0 {
		undec = append(undec, &Result{prop: prop, name: prop + "_load", detail: "the repository does not type-check: " + strings.Join(p.loadErr, "; ")})
		recs = append(recs, obligRecord{Obligation: prop + "_load", Status: "undecided", Detail: strings.Join(p.loadErr, "; ")})
	} else if why, ok := skipped(prop + "_load"); ok {
		undec = append(undec, &Result{prop: prop, name: prop + "_load", detail: why})
		recs = append(recs, obligRecord{Obligation: prop + "_load", Status: "undecided", Detail: why})
	} else if msg := try(func() { setupInterp(p) }); msg != "" {
		undec = append(undec, &Result{prop: prop, name: prop + "_load", detail: "package variables: " + msg})
		recs = append(recs, obligRecord{Obligation: prop + "_load", Status: "undecided", Detail: msg})
	} else {
		for _, t := range tasks(p) {
			if t.prop != prop {
				continue
			}
			var r *Result
			if why, ok := skipped(t.name); ok {
				r = &Result{prop: prop, name: t.name, status: "undecided", detail: why, funcs: map[string]bool{}}
			} else {
				setProgress(t.name)
				r = t.safeRun(p)
			}
			rec := obligRecord{Obligation: r.name, Status: r.status, Cases: r.cases, Steps: r.steps, Config: r.config, Rule: t.text, Loops: r.loops, Functions: keysOf(r.funcs)}
			if r.status != "ok" {
				rec.Detail = r.detail
			}
			sort.Strings(rec.Loops)
			rec.Loops = uniq(rec.Loops)
			recs = append(recs, rec)
			steps += r.steps
			sites += r.sites
			for f := range r.funcs {
				funcs[f] = true
			}
			switch r.status {
			case "violation":
				if isKnown(out, r) {
					known = append(known, r)
				} else {
					viols = append(viols, r)
				}
			case "undecided":
				undec = append(undec, r)
			}
		}
	}
	ok := 0
	for _, r := range recs {
		if r.Status == "ok" {
			ok++
		}
	}
	info := propInfo[prop]
	cov := map[string]any{
		"obligations":           len(recs),
		"discharged":            ok,
		"undecided":             len(undec),
		"checker_cmd":           "cd /verif && ./run.sh " + prop,
		"trusted_base":          trustedBase,
		"explanation":           info.method,
		"rule":                  info.method,
		"obligation_list":       recs,
		"ssa_steps":             steps,
		"functions_analysed":    len(funcs),
		"functions":             keysOf(funcs),
		"repository_files":      p.files,
		"construct_sites":       sites,
		"packages_not_analysed": p.subErr,
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": info.level, "coverage": cov,
		"assumptions": append(append([]string{}, commonAssumptions...), info.assume...),
		"wall_s":      time.Since(t0).Seconds(), "violations": len(viols),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(out, "evidence", prop+".json"), b, 0o644); err != nil {
		fmt.Println("cannot write evidence:", err)
		return 2
	}
	for _, r := range known {
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", prop, r.name, clip(r.detail, 300))
	}
	for _, r := range undec {
		fmt.Printf("UNDECIDED property=%s obligation=%s %s\n", prop, r.name, clip(r.detail, 600))
	}
	if len(viols) > 0 {
		path := filepath.Join(out, "replay", prop+".txt")
		if abs, err := filepath.Abs(path); err == nil {
			path = abs
		}
		var s strings.Builder
		for _, r := range viols {
			fmt.Fprintf(&s, "property %s, obligation %s\n  at: %s\n  %s\n  functions analysed: %s\n", prop, r.name, strings.Join(r.where(p), "; "), r.detail, strings.Join(keysOf(r.funcs), ", "))
			fmt.Printf("  %s: %s (%s)\n", r.name, clip(r.detail, 900), strings.Join(r.where(p), "; "))
		}
		fmt.Fprintf(&s, "re-run: cd /verif && ./run.sh %s\n", prop)
		os.WriteFile(path, []byte(s.String()), 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		return 1
	}
	fmt.Printf("%s: %d of %d obligations discharged, %d functions, %.1fs\n", prop, ok, len(recs), len(funcs), time.Since(t0).Seconds())
	return 0
}

// where names the functions of the repository the obligation goes through.
func (r *Result) where(p *Program) []string {
	if r.pos != "" && !strings.HasPrefix(r.pos, "spec/") {
		return []string{r.pos}
	}
	var out []string
	for _, f := range p.ownFuncs() {
		if r.funcs[f.String()] {
			out = append(out, p.pos(f.Pos())+" "+f.Name())
		}
	}
	if len(out) > 8 {
		out = out[:8]
	}
	return out
}

func uniq(s []string) []string {
	var out []string
	for i, x := range s {
		if i == 0 || x != s[i-1] {
			out = append(out, x)
		}
	}
	return out
}

// isKnown consults the committed list of recorded findings: lines
// "known: property=<id> obligation=<name> <text that the report contains>".
func isKnown(dir string, r *Result) bool {
	b, err := os.ReadFile(filepath.Join(dir, "known-findings.txt"))
	if err != nil {
		return false
	}
	for _, l := range strings.Split(string(b), "\n") {
		pre := "known: property=" + r.prop + " obligation=" + r.name + " "
		if strings.HasPrefix(l, pre) && strings.Contains(r.detail, strings.TrimSpace(strings.TrimPrefix(l, pre))) {
			return true
		}
	}
	return false
}
