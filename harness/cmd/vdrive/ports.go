package main

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

// C13: compile the library for other ports, run the ones that can run here.

// repoMod copies the repository's own go.mod and go.sum for -modfile.
func (d *driver) repoMod(repo string) string {
	p := filepath.Join(d.scratch, "repo.mod")
	b, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	must(err)
	must(os.WriteFile(p, b, 0o644))
	b, _ = os.ReadFile(filepath.Join(repo, "go.sum"))
	must(os.WriteFile(filepath.Join(d.scratch, "repo.sum"), b, 0o644))
	return p
}

func (d *driver) goCmd(dir string, args []string, extraEnv ...string) (string, error) {
	cmd := exec.Command("go", args...)
	cmd.Dir = dir
	cmd.Env = goEnv(extraEnv...)
	b, err := cmd.CombinedOutput()
	return string(b), err
}

type port struct{ os, arch string }

func (p port) env() []string  { return []string{"GOOS=" + p.os, "GOARCH=" + p.arch, "CGO_ENABLED=0"} }
func (p port) String() string { return p.os + "/" + p.arch }
func (p port) runs() (bool, int) { // can run here; word size
	switch p.arch {
	case "386", "arm", "mips", "mipsle":
		return p.arch == "386" && p.os == "linux", 32
	}
	return p.os == "js", 64
}

func (d *driver) ports() []port {
	out, err := d.goCmd(d.repo, []string{"tool", "dist", "list"})
	if err != nil {
		fatal("go tool dist list: %v\n%s", err, out)
	}
	var ps []port
	for _, f := range strings.Fields(out) {
		k := strings.IndexByte(f, '/')
		if k > 0 && f[k+1:] != "amd64" && !strings.HasPrefix(f, "android/") && !strings.HasPrefix(f, "ios/") {
			ps = append(ps, port{f[:k], f[k+1:]})
		}
	}
	return ps
}

func init() {
	runners["C13"] = func(d *driver) {
		mod := d.repoMod(d.repo)
		all := d.ports()
		// library packages and their source files, per port
		key := map[port]string{}
		pkgs := map[port][]string{}
		format := `{{if ne .Name "main"}}{{if or .GoFiles .SFiles .IgnoredGoFiles}}{{.ImportPath}} {{.GoFiles}} {{.SFiles}}{{end}}{{end}}`
		for _, p := range all {
			out, err := d.goCmd(d.repo, []string{"list", "-e", "-modfile=" + mod, "-f", format, "./pkg/..."}, p.env()...)
			if err != nil {
				fatal("go list for %v: %v\n%s", p, err, out)
			}
			_, w := p.runs()
			var ls []string
			for _, l := range strings.Split(out, "\n") {
				f := strings.Fields(l)
				if len(f) < 2 || !strings.HasPrefix(f[0], modulePath) {
					continue
				}
				if strings.HasSuffix(l, "[] []") && f[0] == modulePath+"/pkg" {
					continue // nothing but tests
				}
				ls = append(ls, strings.TrimSpace(l))
				pkgs[p] = append(pkgs[p], f[0])
			}
			sort.Strings(ls)
			key[p] = fmt.Sprint(w, "\n", strings.Join(ls, "\n"))
		}
		want := map[port]bool{}
		if d.tier == "thorough" {
			for _, p := range all {
				want[p] = true
			}
		} else {
			for _, p := range []port{{"linux", "386"}, {"js", "wasm"}, {"linux", "arm64"}, {"linux", "s390x"}} {
				want[p] = true
			}
			seen := map[string]bool{}
			for p := range want {
				seen[key[p]] = true
			}
			// linux ports first, they share what is built
			sort.SliceStable(all, func(a, b int) bool { return all[a].os == "linux" && all[b].os != "linux" })
			for _, p := range all {
				if !seen[key[p]] && len(want) < 12 {
					seen[key[p]] = true
					want[p] = true
				}
			}
		}
		st := d.stat("compile")
		groups := map[string]bool{}
		bad := map[port]bool{}
		var names []string
		for _, p := range all {
			if !want[p] || d.left() <= 0 {
				continue
			}
			st.Size++
			names = append(names, p.String())
			if replaying != nil && replaying.Build != "compile "+p.String() && replaying.Build != "run "+p.String() {
				continue
			}
			args := append([]string{"build", "-modfile=" + mod}, pkgs[p]...)
			out, err := d.goCmd(d.repo, args, p.env()...)
			if err != nil {
				out, err = d.goCmd(d.repo, args, p.env()...)
			}
			if err != nil {
				deps := []string{"build", "-modfile=" + mod, "golang.org/x/sys/cpu", "encoding/binary", "math/rand", "math/bits", "sort", "io"}
				if o2, e2 := d.goCmd(d.repo, deps, p.env()...); e2 != nil {
					d.addCap(fmt.Sprintf("%v: the toolchain cannot compile the library's dependencies: %s", p, clip(o2, 300)))
					continue
				}
				msg := fmt.Sprintf("the library does not compile for %v: %s", p, clip(out, 1500))
				if replaying != nil {
					fmt.Println("replay: violated:", msg)
					cleanup()
					os.Exit(1)
				}
				bad[p] = true
				d.violations = append(d.violations, violation{Property: d.id, Phase: "compile", Message: msg, Build: "compile " + p.String(),
					Replays: "2 of 2", Tier: d.tier, Seed: d.seed})
				continue
			}
			if replaying != nil && replaying.Build == "compile "+p.String() {
				fmt.Println("replay: held")
				cleanup()
				os.Exit(0)
			}
			st.Cases++
			st.Words++
			st.Steps += int64(len(pkgs[p]))
			st.Runs++
			groups[key[p]] = true
		}
		covered := 0
		for _, p := range all {
			if groups[key[p]] {
				covered++
			}
		}
		st.Extra["ports_with_the_same_source_files_and_word_size"] = int64(covered)
		st.Extra["ports_in_all"] = int64(len(all))
		d.samples = append(d.samples, "compiled: "+strings.Join(names, " "))
		hm := d.modfile("ports", d.repo)
		envs := []string{"VERIF_WANT_DECODE=normal", "VERIF_WANT_ENCODE=normal"}
		if p := (port{"linux", "386"}); !bad[p] {
			bin := d.build("explore-386", hm, "./cmd/explore", nil, p.env()...)
			d.explore(job{bin: bin, env: envs, label: "linux/386: ", desc: "run linux/386"})
		}
		if p := (port{"js", "wasm"}); !bad[p] {
			goroot, err := d.goCmd(d.repo, []string{"env", "GOROOT"})
			must(err)
			node, err := exec.LookPath("node")
			script := filepath.Join(strings.TrimSpace(goroot), "lib", "wasm", "wasm_exec_node.js")
			if _, e := os.Stat(script); err != nil || e != nil {
				d.addCap("js/wasm: no node or no wasm_exec_node.js, not run")
			} else {
				bin := d.build("explore.wasm", hm, "./cmd/explore", nil, p.env()...)
				d.explore(job{prefix: []string{node, "--stack-size=65536", script}, bin: bin, bare: true, env: envs, label: "js/wasm: ", desc: "run js/wasm"})
			}
		}
		d.bigEndian(hm, envs)
	}
}

// The phases of the emulated ports. What is left out at first: checks of one
// call only, on many words, and refused calls, which are slow to emulate.
const (
	emulated64 = "reported-modes,C0*/boundary-words*,C0*/all-class-words*,C0*/all-words*,C05/all-codes*,C06/every-half*,C07/every-half*,C16*,C17/control*,C19*"
	emulated32 = emulated64 + ",C0*/every-count*,C0*/pairs*,C01/runs*,C03/runs*,C0*/large*,C06/neighbour*,C07/all-control*,C06/partial*,C07/partial*,C21*,C11/readers*"
	emulated   = emulated32 + ",C0*/runs*,C06*,C07*,C17*"
)

// bigEndian runs the worker of two big-endian ports in an interpreter. Each
// has its own code generator; a failure counts when both have it, so that a
// fault of one of these, or of a part of the interpreter, is not taken for
// one of the library.
func (d *driver) bigEndian(hm string, envs []string) {
	emu := d.build("mipsrun", hm, "./cmd/mipsrun", nil)
	want, err := exec.Command(d.build("arith", hm, "./cmd/arith", nil)).Output()
	must(err)
	var jobs []job
	for _, arch := range []string{"mips", "mips64"} {
		p := port{"linux", arch}
		env := append(p.env(), "GOMIPS=softfloat", "GOMIPS64=softfloat")
		out, err := d.goCmd(d.repo, []string{"build", "-modfile=" + d.repoMod(d.repo), "./pkg/..."}, env...)
		if err != nil {
			d.addCap(fmt.Sprintf("%v: not run, the library does not compile: %s", p, clip(out, 300)))
			return
		}
		got, err := exec.Command(emu, d.build("arith-"+arch, hm, "./cmd/arith", nil, env...)).CombinedOutput()
		if err != nil || string(got) != string(want) {
			d.addCap(fmt.Sprintf("%v: not run, the emulator does not agree with this machine on plain arithmetic: %s", p, clip(string(got), 300)))
			return
		}
		jobs = append(jobs, job{prefix: []string{emu}, bin: d.build("explore-"+arch, hm, "./cmd/explore", nil, env...), bare: true, tier: "quick",
			env: envs, label: p.String() + ": ", desc: "run " + p.String()})
	}
	a, b := jobs[0], jobs[1]
	jobs[0].also, jobs[1].also = &b, &a
	a.id, b.id = d.id, d.id
	jobs[0].only, jobs[1].only = emulated32, emulated64
	if d.tier == "thorough" {
		jobs[0].only, jobs[1].only = emulated, emulated
	}
	for _, j := range jobs {
		d.explore(j)
	}
}
