package main

import (
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"syscall"

	"verif.local/harness/eng"
)

// C25: the benchmark update script (tools/update_bench.sh in VERIF_TREE) runs
// in a scratch tree. The go command is this binary under another name: its
// test command prints what the case says, its run command starts the update
// tool built from the tree (VERIF_TOOL).

const benchModule = "github.com/theMPatel/streamvbyte-simdgo"

type benchPkg struct {
	Dir     string
	Benches []string // lines of one benchmark each
	Noise   []string // other lines before the benchmarks
	Fails   string   // "", "build", "panic", "test"
	NoTests bool
}

type benchRun struct {
	Pkgs []benchPkg
	Dead bool // fails without output
}

// show is what go test prints for the packages that match, and its status.
func (r benchRun) show(bench string, times int, match func(dir string) bool) (out, errs []string, code int) {
	if r.Dead {
		return nil, []string{"go: cannot start"}, 2
	}
	re, err := regexp.Compile(strings.SplitN(bench, "/", 2)[0])
	if err != nil {
		return nil, []string{err.Error()}, 2
	}
	for _, p := range r.Pkgs {
		path := benchModule + "/" + p.Dir
		switch {
		case !match(p.Dir):
			continue
		case p.NoTests:
			out = append(out, "?   \t"+path+"\t[no test files]")
			continue
		case p.Fails == "build":
			errs = append(errs, "# "+path, p.Dir+"/x.go:3:1: syntax error")
			out = append(out, "FAIL\t"+path+" [build failed]")
			code = 1
			continue
		}
		if p.Fails == "test" {
			code = 1
			out = append(out, "--- FAIL: TestX (0.00s)", "FAIL", "exit status 1", "FAIL\t"+path+"\t0.1s")
			continue
		}
		n := 0
		var all []string
		for _, b := range p.Benches {
			for k := 0; k < times; k++ {
				all = append(all, b)
			}
		}
		for _, b := range all {
			name := strings.TrimPrefix(strings.FieldsFunc(b, func(r rune) bool { return r == ' ' || r == '\t' || r == '/' || r == '-' })[0], "Benchmark")
			if bench == "" || !re.MatchString(name) && !re.MatchString("Benchmark"+name) {
				continue
			}
			if n == 0 {
				out = append(out, "goos: linux", "goarch: amd64", "pkg: "+path, "cpu: Some CPU @ 2.60GHz")
				out = append(out, p.Noise...)
			}
			n++
			out = append(out, b)
			if p.Fails == "panic" {
				break
			}
		}
		if p.Fails == "panic" {
			code = 1
			out = append(out, "panic: out of range", "", "goroutine 7 [running]:", "exit status 2", "FAIL\t"+path+"\t0.3s")
			continue
		}
		out = append(out, "PASS", "ok  \t"+path+"\t1.2s")
	}
	if code != 0 {
		out = append(out, "FAIL")
	}
	return
}

func underPkg(dir string) bool { return dir == "pkg" || strings.HasPrefix(dir, "pkg/") }

// fakeGo is the stand-in for the go command.
func fakeGo() int {
	tool, home := os.Getenv("VERIF_TOOL"), os.Getenv("VERIF_HOME")
	valued := map[string]bool{"bench": true, "run": true, "benchtime": true, "count": true, "timeout": true, "cpu": true, "tags": true, "o": true, "p": true, "parallel": true, "mod": true, "modfile": true, "ldflags": true, "gcflags": true, "C": true, "exec": true, "skip": true}
	flags := map[string]string{}
	var rest []string
	args := os.Args[1:]
	if len(args) == 0 {
		return 2
	}
	verb := args[0]
	for a := args[1:]; len(a) > 0; a = a[1:] {
		if !strings.HasPrefix(a[0], "-") {
			rest = append(rest, a[0])
			if verb == "run" {
				rest = append(rest, a[1:]...)
				break
			}
			continue
		}
		name := strings.TrimLeft(a[0], "-")
		if k := strings.IndexByte(name, '='); k >= 0 {
			flags[name[:k]] = name[k+1:]
		} else if valued[strings.TrimPrefix(name, "test.")] && len(a) > 1 {
			flags[name] = a[1]
			a = a[1:]
		} else {
			flags[name] = "true"
		}
	}
	cwd, _ := os.Getwd()
	if d := flags["C"]; d != "" {
		cwd = filepath.Join(cwd, d)
	}
	match := func(dir string) bool {
		if len(rest) == 0 {
			rest = []string{"."}
		}
		for _, p := range rest {
			full := p
			if strings.HasPrefix(p, benchModule) {
				full = home + strings.TrimPrefix(p, benchModule)
			} else if strings.HasPrefix(p, ".") {
				full = filepath.Join(cwd, p)
			}
			base := strings.TrimSuffix(full, "/...")
			at := filepath.Join(home, dir)
			if at == base || base != full && strings.HasPrefix(at, base+"/") {
				return true
			}
		}
		return false
	}
	var r benchRun
	b, err := os.ReadFile(os.Getenv("VERIF_RUN"))
	if err == nil {
		err = json.Unmarshal(b, &r)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 9
	}
	switch verb {
	case "test":
		bench := flags["bench"]
		if bench == "" {
			bench = flags["test.bench"]
		}
		times := 1
		if n, err := strconv.Atoi(flags["count"]); err == nil {
			times = n
		}
		if l := flags["cpu"]; l != "" {
			times *= len(strings.Split(l, ","))
		}
		out, errs, code := r.show(bench, times, match)
		// in pieces, as the packages end
		for len(out) > 0 {
			n := min(len(out), 7)
			if _, err := io.WriteString(os.Stdout, strings.Join(out[:n], "\n")+"\n"); err != nil {
				return 1
			}
			out = out[n:]
		}
		for _, l := range errs {
			fmt.Fprintln(os.Stderr, l)
		}
		return code
	case "list":
		for _, p := range r.Pkgs {
			if match(p.Dir) {
				fmt.Println(benchModule + "/" + p.Dir)
			}
		}
		return 0
	case "run":
		if len(rest) == 0 {
			return 1
		}
		n := 1
		for n < len(rest) && strings.HasSuffix(rest[n-1], ".go") && strings.HasSuffix(rest[n], ".go") {
			n++
		}
		for _, p := range rest[:n] {
			if strings.HasPrefix(p, benchModule) {
				p = home + strings.TrimPrefix(p, benchModule)
			} else if !filepath.IsAbs(p) {
				p = filepath.Join(cwd, p)
			}
			if _, err := os.Stat(p); err != nil || !strings.HasPrefix(p, filepath.Join(home, "tools")) {
				fmt.Fprintln(os.Stderr, "no such package", p)
				return 1
			}
		}
		err := syscall.Exec(tool, append([]string{tool}, rest[n:]...), os.Environ())
		fmt.Fprintln(os.Stderr, err)
		return 9
	case "build":
		o := flags["o"]
		if o == "" {
			o = "tools"
		}
		b, err := os.ReadFile(tool)
		if err == nil {
			if st, e := os.Stat(o); e == nil && st.IsDir() {
				o = filepath.Join(o, "tools")
			}
			err = os.WriteFile(o, b, 0o755)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 1
		}
		return 0
	case "env", "version", "vet", "mod", "fmt":
		return 0
	}
	fmt.Fprintln(os.Stderr, "unexpected: go", args)
	return 9
}

// benchHistory letters: a run of the script with this outcome of the
// benchmarks, or an edit of the document.
var benchRuns = []struct {
	what string
	run  benchRun
}{
	{"three packages", benchRun{Pkgs: []benchPkg{{Dir: "pkg", Benches: []string{"BenchmarkMemCopy8Uint32-8 \t 5\t 9 ns/op"}}, {Dir: "pkg/a", Benches: []string{benchLines[4], benchLines[5]}}, {Dir: "pkg/b/c", Benches: []string{"BenchmarkWriteAllScalar-8 \t 5\t 2 ns/op"}}}}},
	{"other numbers, a package without benchmarks and one without tests", benchRun{Pkgs: []benchPkg{{Dir: "pkg/a", NoTests: true}, {Dir: "pkg/b", Benches: []string{"BenchmarkPut8uint32Varint-8 \t 9\t 7.25 ns/op\t 4.00 MB/s", "BenchmarkReadAllDeltaFast/count_1e+00\\t%d*-8 \t 9\t 7 ns/op"}}, {Dir: "pkg/b/c"}, {Dir: "tools", NoTests: true}}}},
	{"logs between the lines", benchRun{Pkgs: []benchPkg{{Dir: "pkg/a", Noise: []string{"2021/01/01 note: Benchmark", "    goos: indented", "\tBenchmark indented", "", "--- BENCH: BenchmarkX", "```"}, Benches: []string{"Benchmarkreader_1-16 \t 1\t 1 ns/op", "Benchmarkreader_1-16 \t 1\t 1 ns/op", "BenchmarkÉté-16 \t 1\t 1 ns/op", "BenchmarkTrailing%s-16 \t 1\t 1 ns/op \t ", "Benchmark_Z \t 1\t 1 ns/op"}}}}},
	{"no benchmarks", benchRun{Pkgs: []benchPkg{{Dir: "pkg/a"}}}},
	{"a package that does not build", benchRun{Pkgs: []benchPkg{{Dir: "pkg/a", Fails: "build"}, {Dir: "pkg/b", Benches: []string{"BenchmarkB-8 \t 3\t 3 ns/op"}}}}},
	{"a panic after a benchmark of the last package", benchRun{Pkgs: []benchPkg{{Dir: "pkg/a", Benches: []string{"BenchmarkA-8 \t 4\t 4 ns/op"}}, {Dir: "pkg/b", Fails: "panic", Benches: []string{"BenchmarkB-8 \t 4\t 4 ns/op", "BenchmarkC-8 \t 4\t 4 ns/op"}}}}},
	{"a failing test", benchRun{Pkgs: []benchPkg{{Dir: "pkg/a", Benches: []string{"BenchmarkA-8 \t 6\t 6 ns/op"}}, {Dir: "pkg/b", Fails: "test"}, {Dir: "pkg/c", Benches: []string{"BenchmarkC-8 \t 6\t 6 ns/op"}}}}},
	{"go does not start", benchRun{Dead: true}},
}

var benchEdits = []struct {
	what string
	edit func(d *docCase, broken *bool)
}{
	{"the text about the block is edited", func(d *docCase, _ *bool) { d.before += "more\n"; d.after = "```text\nx\n```\n" + d.after }},
	{"the block is emptied", func(d *docCase, _ *bool) { d.body = "" }},
	{"the block's heading is lost or comes back", func(_ *docCase, broken *bool) { *broken = !*broken }},
}

var benchRoot, benchPristine, benchOthers string

// benchSetup makes the scratch tree, anew if an earlier case left anything in
// it.
func benchSetup() {
	if benchRoot != "" {
		tmp := filepath.Join(benchRoot, "tmp")
		os.RemoveAll(tmp)
		os.Mkdir(tmp, 0o755)
		os.WriteFile(filepath.Join(tmp, "other"), []byte("of another program"), 0o644)
		if listing(filepath.Join(benchRoot, "home")) != benchPristine {
			os.RemoveAll(benchRoot)
			benchRoot = ""
		}
	}
	if benchRoot == "" {
		var err error
		if benchRoot, err = os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "bench-"); err != nil {
			panic(err)
		}
		self, err := os.Executable()
		if err != nil {
			panic(err)
		}
		tree := os.Getenv("VERIF_TREE")
		out, err := exec.Command("bash", "-c", `set -e
cd "$1"; mkdir -p bin home tmp; printf "of another program" > tmp/other; chmod 644 tmp/other; for d in pkg pkg/a pkg/b pkg/b/c pkg/c pkg/p0 pkg/p1 pkg/p2 pkg/p3; do mkdir home/$d; printf 'package x\n' > home/$d/x.go; printf 'package x\n' > home/$d/x_test.go; done
ln -s "$2" bin/go
cp -r "$3/tools" home/tools
cp "$3/Makefile" home/
printf 'module `+benchModule+`\n\ngo 1.16\n' > home/go.mod`, "-", benchRoot, self, tree).CombinedOutput()
		if err != nil {
			panic(fmt.Sprintf("%v: %s", err, out))
		}
		benchPristine = listing(filepath.Join(benchRoot, "home"))
		benchOthers = listing(filepath.Join(benchRoot, "tmp"))
	}
}

// listing: names, modes and contents below dir, except for the document.
func listing(dir string) string {
	var names []string
	filepath.Walk(dir, func(p string, st os.FileInfo, err error) error {
		rel, _ := filepath.Rel(dir, p)
		if err != nil || rel == "README.md" || st.IsDir() {
			return nil
		}
		b, _ := os.ReadFile(p)
		names = append(names, fmt.Sprintf("%s %v %x", rel, st.Mode(), fnv(string(b))))
		return nil
	})
	sort.Strings(names)
	return strings.Join(names, "\n")
}

// benchStep runs the script once and judges the result; it returns the
// document's block body afterwards.
func benchStep(c *eng.Ctx, history string, d docCase, broken bool, r benchRun, how []string) string {
	home := filepath.Join(benchRoot, "home")
	doc := filepath.Join(home, "README.md")
	old := d.text()
	if broken {
		old = d.before + d.body + d.after
	}
	j, _ := json.Marshal(r)
	if err := os.WriteFile(filepath.Join(benchRoot, "run.json"), j, 0o644); err != nil {
		panic(err)
	}
	if err := os.WriteFile(doc, []byte(old), 0o644); err != nil {
		panic(err)
	}
	tmp := filepath.Join(benchRoot, "tmp")
	was, temps := listing(home), listing(tmp)
	cmd := exec.Command(how[0], how[1:]...)
	cmd.Dir = home
	cmd.Env = []string{"PATH=" + filepath.Join(benchRoot, "bin") + ":" + os.Getenv("PATH"), "HOME=" + benchRoot, "SBYTE_HOME=" + home, "TMPDIR=" + tmp, "LC_ALL=C",
		"VERIF_FAKE_GO=1", "VERIF_TOOL=" + os.Getenv("VERIF_TOOL"), "VERIF_HOME=" + home, "VERIF_RUN=" + filepath.Join(benchRoot, "run.json")}
	var so, se strings.Builder
	cmd.Stdout, cmd.Stderr = &so, &se
	err := cmd.Run()
	c.Run(1)
	c.Word(1, 1)
	b, rerr := os.ReadFile(doc)
	got := string(b)
	c.Outcome(fnv(got))
	fail := func(f string, a ...interface{}) {
		c.Fail("%s\nstarted by %q after: %s\ndocument: %q\nresult: %q\nthe script's output: %q, %q, %v", fmt.Sprintf(f, a...), how, history, clipText(old, 600), clipText(got, 600), clipText(so.String(), 300), clipText(se.String(), 300), err)
	}
	if rerr != nil {
		fail("the document is gone")
	}
	if is := listing(home); is != was {
		fail("another file of the tree changed:\n%s\nto\n%s", was, is)
	}
	lines, _, code := r.show(".", 1, underPkg)
	if code != 0 || broken {
		switch {
		case err == nil && code != 0:
			fail("the script succeeds although the benchmarks failed")
		case err == nil:
			fail("the script succeeds although the document has no benchmark block")
		case got != old:
			fail("the script fails and changes the document")
		}
		return d.body
	}
	if err != nil {
		fail("the script fails")
	}
	if m := judge(d, lines, got); m != "" {
		fail("%s", m)
	}
	rest := so.String()
	for _, l := range lines {
		k := strings.Index(rest, l)
		if k < 0 {
			fail("the benchmarks' output is not shown: line %q", l)
		}
		rest = rest[k+len(l):]
	}
	if left := listing(tmp); left != temps && left != benchOthers {
		fail("the script leaves or removes files in the directory of temporary files:\n%s", left)
	}
	return got[len(d.before+benchStart) : len(got)-len("```\n"+d.after)]
}

var benchHow = [][]string{{"./tools/update_bench.sh"}, {"make", "-s", "update-bench"}}

func init() {
	if os.Getenv("VERIF_FAKE_GO") != "" && filepath.Base(os.Args[0]) == "go" {
		childMain = fakeGo
		return
	}
	letters := int64(len(benchRuns) + len(benchEdits))
	history := func(c *eng.Ctx, w []int, how []string) {
		benchSetup()
		d := docCase{docBlocks[0] + docBlocks[1], docBodies[2], docBlocks[2] + docBlocks[7]}
		broken := false
		var h []string
		for _, k := range w {
			if k < len(benchRuns) {
				h = append(h, "run with "+benchRuns[k].what)
				d.body = benchStep(c, strings.Join(h, "; "), d, broken, benchRuns[k].run, how)
				continue
			}
			e := benchEdits[k-len(benchRuns)]
			h = append(h, e.what)
			e.edit(&d, &broken)
		}
		c.Sample(func() string { return strings.Join(h, "; ") })
	}
	register(&eng.Check{ID: "C25", Rule: "the update script of the tree runs in a scratch tree, started directly and by make, in every word of the listed letters: a run with one of the listed outcomes of the benchmarks, or an edit of the document. state = the document after a letter, transition = a letter, trace = one run of the script, its document, status, output, and all other files compared with what must come out.",
		Assumptions: []string{
			"the go command is a stand-in that prints the case's benchmarks for the packages and the pattern it is asked for and starts the update tool built from the tree; bash, make and coreutils are those of this machine",
			"the script is started in the root of the tree and SBYTE_HOME names that root",
			"a failing run may leave its temporary file behind",
		},
		Phases: func(tier string) []eng.Phase {
			n := 3
			if tier == "thorough" {
				n = 5
			}
			exact := int64(1)
			for k := 0; k < n; k++ {
				exact *= letters
			}
			skip := wordsTo(letters, n-1)
			return []eng.Phase{
				{Name: fmt.Sprintf("histories-%d", n), N: exact, Run: func(c *eng.Ctx, i int64) {
					history(c, wordOf(skip+i, letters), benchHow[0])
				}},
				{Name: "make", N: wordsTo(letters, 2), Run: func(c *eng.Ctx, i int64) { history(c, wordOf(i, letters), benchHow[1]) }},
				{Name: "documents", N: int64(len(docBodies)*len(docTails)*len(docBlocks)*len(benchRuns)) * 2, Run: func(c *eng.Ctx, i int64) {
					how := benchHow[i%2]
					i /= 2
					r := benchRuns[i%int64(len(benchRuns))]
					i /= int64(len(benchRuns))
					b := docBlocks[i%int64(len(docBlocks))]
					i /= int64(len(docBlocks))
					d := docCase{b, docBodies[i%int64(len(docBodies))], b + docTails[i/int64(len(docBodies))]}
					benchSetup()
					benchStep(c, r.what, d, false, r.run, how)
				}},
				{Name: "many-benchmarks", N: 24, Run: func(c *eng.Ctx, i int64) {
					var r benchRun
					for p := int64(0); p <= i%4; p++ {
						pkg := benchPkg{Dir: fmt.Sprintf("pkg/p%d", p)}
						for k := int64(0); k < 1<<(2*(i/4)); k++ {
							pkg.Benches = append(pkg.Benches, fmt.Sprintf("BenchmarkX%d/%d-8   \t %d\t %d ns/op", p, k, k, p))
						}
						r.Pkgs = append(r.Pkgs, pkg)
					}
					for _, fails := range []string{"", "panic"} {
						r.Pkgs[len(r.Pkgs)-1].Fails = fails
						benchSetup()
						benchStep(c, fmt.Sprintf("%d packages with %d benchmarks", len(r.Pkgs), len(r.Pkgs[0].Benches)), docCase{docBlocks[1], docBodies[3], docBlocks[2]}, false, r, benchHow[0])
					}
				}},
			}
		}})
}
