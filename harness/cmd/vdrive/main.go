// vdrive runs one check: it builds what the check needs from the repository's
// working tree into a scratch directory, spreads the exploration over worker
// processes, confirms every reported failure by replaying it in fresh
// processes, and writes the evidence file.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"

	"verif.local/harness/proto"
)

type driver struct {
	id, tier string
	seed     int64
	repo     string // working tree under test
	verif    string
	scratch  string
	t0       time.Time
	budget   time.Duration // exploration stops here, exhaustive:false

	phases      []*proto.Stats
	samples     []string
	outcomes    map[uint64]struct{}
	rule        string
	assumptions []string
	capped      []string
	notes       []string
	violations  []violation
}

type violation struct {
	Property string   `json:"property"`
	Phase    string   `json:"phase"`
	Index    int64    `json:"index"`
	Message  string   `json:"message"`
	Build    string   `json:"build"`  // which build of the library
	Worker   []string `json:"worker"` // arguments of the worker that reproduces it
	Env      []string `json:"env,omitempty"`
	Replays  string   `json:"replays"`
	Tier     string   `json:"tier"`
	Seed     int64    `json:"seed"`
}

var runners = map[string]func(d *driver){}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vdrive ID | vdrive replay FILE")
		os.Exit(2)
	}
	d := &driver{
		tier: env("VERIF_TIER", "quick"), repo: env("VERIF_REPO", "/repo"), verif: env("VERIF_DIR", "/verif"),
		t0: time.Now(), outcomes: map[uint64]struct{}{},
	}
	d.seed, _ = strconv.ParseInt(env("VERIF_SEED", "1"), 10, 64)
	var only *violation
	d.id = os.Args[1]
	if d.id == "replay" {
		b, err := os.ReadFile(os.Args[2])
		if err != nil {
			fatal("%v", err)
		}
		only = &violation{}
		if err := json.Unmarshal(b, only); err != nil {
			fatal("%v", err)
		}
		d.id, d.tier, d.seed = only.Property, only.Tier, only.Seed
	}
	if d.id != "replay" && len(os.Args) > 2 && only == nil {
		d.tier = os.Args[2]
	}
	if d.tier != "thorough" {
		d.tier = "quick"
	}
	d.budget = 10 * time.Minute
	if d.tier == "thorough" {
		d.budget = 5 * time.Hour
	}
	if b := os.Getenv("VERIF_BUDGET"); b != "" {
		if v, err := time.ParseDuration(b); err == nil {
			d.budget = v
		}
	}
	var err error
	d.scratch, err = os.MkdirTemp("", "verif-"+d.id+"-")
	if err != nil {
		fatal("%v", err)
	}
	scratchDir = d.scratch
	run := runners[d.id]
	if run == nil {
		fatal("unknown property %s", d.id)
	}
	if only != nil {
		replaying = only
	}
	run(d)
	code := 0
	if only == nil {
		code = d.finish()
	} else {
		fmt.Println("nothing was replayed")
	}
	cleanup()
	os.Exit(code)
}

var scratchDir string

// replaying makes explore() replay one recorded case instead of exploring.
var replaying *violation

func cleanup() {
	if strings.Contains(scratchDir, "verif-") {
		os.RemoveAll(scratchDir)
	}
}

func fatal(format string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "check error: "+format+"\n", a...)
	cleanup()
	os.Exit(3)
}

func env(k, def string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return def
}

// goEnv is the environment of every go command.
func goEnv(extra ...string) []string {
	var e []string
	for _, kv := range os.Environ() {
		k := kv[:strings.IndexByte(kv, '=')]
		switch k {
		case "GOFLAGS", "GOPROXY", "GOTOOLCHAIN", "GOWORK", "GODEBUG", "GOARCH", "GOOS", "GOSUMDB", "GOEXPERIMENT", "GO111MODULE", "GOAMD64":
			continue
		}
		e = append(e, kv)
	}
	e = append(e, "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "GOSUMDB=off")
	return append(e, extra...)
}

func cleanEnv(extra ...string) []string {
	var e []string
	for _, kv := range os.Environ() {
		if !strings.HasPrefix(kv, "GODEBUG=") && !strings.HasPrefix(kv, "GOGC=") && !strings.HasPrefix(kv, "GOMAXPROCS=") {
			e = append(e, kv)
		}
	}
	return append(e, extra...)
}

// modfile writes a go.mod for the harness that takes the library from target.
func (d *driver) modfile(name, target string) string {
	mod, err := os.ReadFile(filepath.Join(d.verif, "harness", "go.mod"))
	if err != nil {
		fatal("%v", err)
	}
	m := strings.Replace(string(mod), "=> /repo", "=> "+target, 1)
	p := filepath.Join(d.scratch, name+".mod")
	sum, _ := os.ReadFile(filepath.Join(d.verif, "harness", "go.sum"))
	sum2, _ := os.ReadFile(filepath.Join(target, "go.sum"))
	lines := map[string]bool{}
	for _, l := range strings.Split(string(sum)+"\n"+string(sum2), "\n") {
		if l != "" {
			lines[l] = true
		}
	}
	var all []string
	for l := range lines {
		all = append(all, l)
	}
	sort.Strings(all)
	must(os.WriteFile(p, []byte(m), 0o644))
	must(os.WriteFile(filepath.Join(d.scratch, name+".sum"), []byte(strings.Join(all, "\n")+"\n"), 0o644))
	return p
}

func must(err error) {
	if err != nil {
		fatal("%v", err)
	}
}

// tryBuild builds a harness command against target.
func (d *driver) tryBuild(out, mod, pkg string, flags []string, extraEnv ...string) (string, error) {
	bin := filepath.Join(d.scratch, out)
	args := append([]string{"build", "-modfile=" + mod, "-o", bin}, flags...)
	cmd := exec.Command("go", append(args, pkg)...)
	cmd.Dir = filepath.Join(d.verif, "harness")
	cmd.Env = goEnv(extraEnv...)
	b, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("go %s: %v\n%s", strings.Join(args, " "), err, clip(string(b), 4000))
	}
	return bin, nil
}

func (d *driver) build(out, mod, pkg string, flags []string, extraEnv ...string) string {
	bin, err := d.tryBuild(out, mod, pkg, flags, extraEnv...)
	if err != nil {
		fatal("cannot build: %v", err)
	}
	return bin
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n/2] + "\n...\n" + s[len(s)-n/2:]
	}
	return s
}

func (d *driver) left() time.Duration { return d.budget - time.Since(d.t0) }

func (d *driver) note(format string, a ...interface{}) {
	s := fmt.Sprintf(format, a...)
	fmt.Fprintln(os.Stderr, "note:", s)
	d.notes = append(d.notes, s)
}

// stat returns the aggregated record of a phase.
func (d *driver) stat(phase string) *proto.Stats {
	for _, p := range d.phases {
		if p.Phase == phase {
			return p
		}
	}
	p := &proto.Stats{Phase: phase, Extra: map[string]int64{}}
	d.phases = append(d.phases, p)
	return p
}

func (d *driver) merge(label string, s *proto.Stats) {
	p := d.stat(label + s.Phase)
	p.Size = s.Size
	p.Cases += s.Cases
	p.Words += s.Words
	p.Steps += s.Steps
	p.Runs += s.Runs
	if s.Seconds > p.Seconds {
		p.Seconds = s.Seconds
	}
	if s.Capped != "" {
		p.Capped = s.Capped
		d.addCap(label + s.Phase + ": " + s.Capped)
	}
	for k, v := range s.Extra {
		if strings.HasPrefix(k, "max") {
			if v > p.Extra[k] {
				p.Extra[k] = v
			}
		} else {
			p.Extra[k] += v
		}
	}
	for _, x := range s.Samples {
		if len(p.Samples) < 2 {
			p.Samples = append(p.Samples, x)
			d.samples = append(d.samples, label+s.Phase+": "+x)
		}
	}
	for _, h := range s.Outcomes {
		d.outcomes[h] = struct{}{}
	}
}

func (d *driver) addCap(s string) {
	for _, c := range d.capped {
		if c == s {
			return
		}
	}
	d.capped = append(d.capped, s)
}

func (d *driver) finish() int {
	var words, steps, runs int64
	exhaustive := len(d.capped) == 0
	type ph struct {
		Name       string           `json:"name"`
		Size       int64            `json:"cases_in_space"`
		Cases      int64            `json:"cases_run"`
		States     int64            `json:"states"`
		Transition int64            `json:"transitions"`
		Runs       int64            `json:"implementation_runs"`
		Seconds    float64          `json:"seconds"`
		Capped     string           `json:"capped,omitempty"`
		Extra      map[string]int64 `json:"extra,omitempty"`
	}
	var phs []ph
	for _, p := range d.phases {
		words, steps, runs = words+p.Words, steps+p.Steps, runs+p.Runs
		if p.Cases < p.Size {
			exhaustive = false
		}
		phs = append(phs, ph{p.Phase, p.Size, p.Cases, p.Words, p.Steps, p.Runs, p.Seconds, p.Capped, p.Extra})
	}
	samples := d.samples
	if len(samples) > 12 {
		samples = samples[:12]
	}
	if len(samples) == 0 {
		samples = []string{"(no case completed)"}
	}
	if runs == 0 && len(d.violations) == 0 {
		fatal("nothing was explored")
	}
	cov := map[string]interface{}{
		"states": words, "transitions": steps, "traces_validated_against_impl": runs,
		"distinct_outcomes": len(d.outcomes), "exhaustive": exhaustive && len(d.violations) == 0,
		"rule": d.rule, "samples": samples, "phases": phs,
	}
	if len(d.capped) > 0 {
		cov["not_covered"] = d.capped
	}
	if len(d.notes) > 0 {
		cov["notes"] = d.notes
	}
	if len(d.violations) > 0 {
		cov["violations"] = d.violations
	}
	ev := map[string]interface{}{
		"property": d.id, "tier": d.tier, "seed": d.seed, "level": "model_checking",
		"coverage": cov, "assumptions": d.assumptions,
		"wall_s": time.Since(d.t0).Seconds(), "violations": len(d.violations),
	}
	if d.assumptions == nil {
		ev["assumptions"] = []string{}
	}
	b, err := json.MarshalIndent(ev, "", " ")
	must(err)
	dir := filepath.Join(d.verif, "evidence")
	must(os.MkdirAll(filepath.Join(dir, "replay"), 0o755))
	must(os.WriteFile(filepath.Join(dir, d.id+".json"), append(b, '\n'), 0o644))
	fmt.Printf("%s %s: %d states, %d transitions, %d implementation runs, %d distinct outcomes, exhaustive=%v, %.1fs\n",
		d.id, d.tier, words, steps, runs, len(d.outcomes), cov["exhaustive"], time.Since(d.t0).Seconds())
	if len(d.violations) == 0 {
		return 0
	}
	for i, v := range d.violations {
		f := filepath.Join(dir, "replay", fmt.Sprintf("%s-%d.json", d.id, i))
		b, _ := json.MarshalIndent(v, "", " ")
		must(os.WriteFile(f, append(b, '\n'), 0o644))
		fmt.Printf("%s: %s\n", v.Phase, clip(v.Message, 1500))
		fmt.Printf("VIOLATION property=%s replay=%s\n", d.id, f)
	}
	return 1
}

func shards() int {
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	return n
}
