package main

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"

	"verif.local/harness/eng"
)

// C24: the generator check (VERIF_SCRIPT) runs in scratch repositories whose
// generator does whatever the case says.

// before: what the working tree looks like when the check starts.
var treeStates = []string{
	"true",
	"echo edit >> t.go",
	"echo edit >> t.go; git add t.go",
	"echo edit >> t.go; git add t.go; echo more >> t.go",
	"rm t.go",
	"git rm -q --cached t.go",
	"chmod +x t.go",
	"git mv t.go v.go",
	"echo x > new.go",
	"echo edit >> u.s; echo x > new.go; git add new.go",
	"rm u.s; echo edit >> t.go",
	"echo edit >> 'with space.go'",
	"mkdir sub; echo x > sub/a.go",
	"printf '\\001\\000x' >> bin.dat",
	"rm t.go; ln -s u.s t.go",
	"echo x > ign.log; mkdir -p sub; echo x > sub/b.log",
	"printf 'package \tp\n' > t.go; echo >> u.s",
	"echo >> t.go",
	"seq 1 60000 > pkg/p.go; echo edit >> t.go; rm u.s",
}

// effects of a generator.
var genEffects = []string{
	"[ ! -e t.go ] || { cat t.go > .tmp; cat .tmp > t.go; rm .tmp; }", // the same again
	"echo gen >> t.go",
	"git show HEAD:t.go > .tmp; cat .tmp > t.go; rm .tmp",
	"echo gen >> u.s",
	"rm -f u.s",
	"[ -e new.go ] || echo gen > new.go",
	"[ ! -e t.go ] || chmod +x t.go",
	"echo gen >> ign.log",
	"mkdir -p sub; echo gen > sub/deep.go",
	"rm -f new.go",
	"rm -f t.go",
	": > 'with space.go'",
	"echo noise; echo noise >&2; touch t2.go; rm t2.go",
	"[ ! -e t.go ] || { tr e f < t.go > .tmp; cat .tmp > t.go; rm .tmp; }", // as many lines and bytes as before
	"[ ! -e t.go ] || sed -i 's/ /  /' t.go",
	"[ ! -e u.s ] || sed -i 's/$/\r/' u.s",
	"[ ! -e t.go ] || echo >> t.go",
	"[ ! -e t.go ] || mv t.go w.go",
	"rm -f u.s; ln -s t.go u.s",
	"echo gen >> pkg/p.go",
	"printf '\\000y' >> bin.dat",
	"rm -rf sub",
	"[ ! -e t.go ] || { printf '//\\n' | cat - t.go > .tmp; cat .tmp > t.go; rm .tmp; }",
	"exit 3",
}

var scriptDir, scriptBase string

func sh(dir, script string, env ...string) (string, error) {
	cmd := exec.Command("bash", "-c", script)
	cmd.Dir = dir
	cmd.Env = append([]string{"PATH=" + scriptDir + "/bin:" + os.Getenv("PATH"), "HOME=" + scriptDir, "GIT_CONFIG_NOSYSTEM=1", "GIT_CONFIG_GLOBAL=/dev/null",
		"GIT_AUTHOR_NAME=a", "GIT_AUTHOR_EMAIL=a@x", "GIT_COMMITTER_NAME=a", "GIT_COMMITTER_EMAIL=a@x", "GIT_AUTHOR_DATE=2020-01-01T00:00:00Z", "GIT_COMMITTER_DATE=2020-01-01T00:00:00Z", "LC_ALL=C"}, env...)
	b, err := cmd.CombinedOutput()
	return string(b), err
}

func scriptSetup() {
	if scriptDir != "" {
		return
	}
	var err error
	if scriptDir, err = os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "gen-"); err != nil {
		panic(err)
	}
	scriptBase = filepath.Join(scriptDir, "base")
	// both ways to start the generators lead to gen.sh
	out, err := sh(scriptDir, `set -e
mkdir bin base base/tools base/pkg
printf '#!/bin/bash\n[ "$1" = generate ] || { echo "unexpected: go $*" >&2; exit 9; }\ncd "$(git rev-parse --show-toplevel)" && exec bash ../effect.sh\n' > bin/go
chmod +x bin/go
cd base
git init -q --template=
printf 'generate:\n\tgo generate ./pkg/...\n' > Makefile
printf 'package p\n' > t.go; printf 'TEXT\n' > u.s; printf 'package q\n' > 'with space.go'; printf 'package p\n' > pkg/p.go; printf 'a\000b' > bin.dat
printf '*.log\n' > .gitignore
cp "$SCRIPT" tools/generate_and_check.sh; chmod +x tools/generate_and_check.sh
git add -A; git commit -q -m base`, "SCRIPT="+os.Getenv("VERIF_SCRIPT"))
	if err != nil {
		panic(fmt.Sprint(err, ": ", out))
	}
}

// snapshot is what the check has to guard: the tracked files with their
// contents and modes, and the names of the others that are not ignored.
func snapshot(dir string) (s string, untracked map[string]string) {
	out, err := sh(dir, "git ls-files -z; printf '\\001'; git ls-files -z --others --exclude-standard")
	if err != nil {
		panic(fmt.Sprint(err, ": ", out))
	}
	tracked, others, _ := strings.Cut(out, "\x01")
	var b bytes.Buffer
	one := func(f string) string {
		st, err := os.Lstat(filepath.Join(dir, f))
		if err != nil {
			return "gone"
		}
		if st.Mode()&os.ModeSymlink != 0 {
			to, _ := os.Readlink(filepath.Join(dir, f))
			return fmt.Sprintf("link %q", to)
		}
		data, _ := os.ReadFile(filepath.Join(dir, f))
		return fmt.Sprintf("%v %q", st.Mode()&0o111 != 0, data)
	}
	for _, f := range strings.Split(tracked, "\x00") {
		if f != "" {
			fmt.Fprintf(&b, "%s: %s\n", f, one(f))
		}
	}
	untracked = map[string]string{}
	var names []string
	for _, f := range strings.Split(others, "\x00") {
		if f != "" {
			untracked[f] = one(f)
			names = append(names, f)
		}
	}
	sort.Strings(names)
	return b.String() + strings.Join(names, ","), untracked
}

// everything is all files of a repository, what is staged and all references.
func everything(dir string) string {
	out, err := sh(dir, "git ls-files -s; git for-each-ref; git rev-parse HEAD")
	if err != nil {
		panic(fmt.Sprint(err, ": ", out))
	}
	filepath.Walk(dir, func(p string, st os.FileInfo, err error) error {
		rel, _ := filepath.Rel(dir, p)
		switch {
		case err != nil:
		case rel == ".git":
			return filepath.SkipDir
		case st.Mode()&os.ModeSymlink != 0:
			to, _ := os.Readlink(p)
			out += fmt.Sprintf("%s -> %s\n", rel, to)
		case !st.IsDir():
			b, _ := os.ReadFile(p)
			out += fmt.Sprintf("%s %v %q\n", rel, st.Mode()&0o111 != 0, b)
		}
		return nil
	})
	return out
}

func scriptCase(c *eng.Ctx, state int, effects []int) {
	scriptSetup()
	work := filepath.Join(scriptDir, "work")
	var effect []string
	fails := false
	for _, e := range effects {
		effect = append(effect, genEffects[e])
		fails = fails || strings.HasPrefix(genEffects[e], "exit")
	}
	src := strings.Join(effect, "\n") + "\ntrue\n"
	if err := os.WriteFile(filepath.Join(scriptDir, "effect.sh"), []byte(src), 0o644); err != nil {
		panic(err)
	}
	if out, err := sh(scriptDir, "rm -rf work && cp -a base work && cd work && "+treeStates[state]); err != nil {
		panic(fmt.Sprint(err, ": ", out))
	}
	// what the generator does when it is started alone
	if out, err := sh(scriptDir, "rm -rf alone && cp -a work alone && cd alone && { bash ../effect.sh > /dev/null 2>&1; true; }"); err != nil {
		panic(fmt.Sprint(err, ": ", out))
	}
	was, others := snapshot(work)
	out, err := sh(work, "./tools/generate_and_check.sh")
	is, now := snapshot(work)
	c.Run(1)
	c.Word(len(effects)+1, len(effects)+1)
	c.Outcome(fnv(is))
	fail := func(what string) {
		c.Fail("%s\nbefore: %s\ngenerator: %s\noutput: %s", what, treeStates[state], strings.Join(effect, "; "), clipText(out, 300))
	}
	if a, b := everything(filepath.Join(scriptDir, "alone")), everything(work); a != b {
		fail(fmt.Sprintf("the check itself changes the tree or what is staged\nfrom %s\nto   %s", a, b))
	}
	switch {
	case fails && err == nil:
		fail("the check succeeds although the generator failed")
	case !fails && was != is && err == nil:
		fail(fmt.Sprintf("the check succeeds although the generator changed the tree\nfrom %s\nto   %s", was, is))
	case !fails && was == is && err != nil:
		for f, v := range others {
			if now[f] != v {
				return // only the contents of a file git does not know
			}
		}
		fail(fmt.Sprintf("the check fails (%v) although the generator changed nothing", err))
	}
	c.Sample(func() string {
		return fmt.Sprintf("before: %s; generator: %s; fails: %v", treeStates[state], strings.Join(effect, "; "), err != nil)
	})
}

func init() {
	register(&eng.Check{ID: "C24", Rule: "the check script of the tree runs in a scratch git repository, from every listed state of the working tree, with a generator that does every word of the listed effects; whether it must fail follows from comparing the tracked files and the names of the others before and after, and all files, the index and the references must be those that the generator alone leaves. state = the repository after an effect, transition = one effect or the check's verdict, trace = one run of the script.",
		Assumptions: []string{
			"the generators are replaced by a stand-in behind make and go generate; git, make and bash are those of this machine",
			"changed contents of a file that was untracked before, and ignored files, may count or not",
		},
		Phases: func(tier string) []eng.Phase {
			ne := int64(len(genEffects))
			word := func(name string, states []int, n int) eng.Phase {
				return eng.Phase{Name: name, N: int64(len(states)) * wordsTo(ne, n), Run: func(c *eng.Ctx, i int64) {
					scriptCase(c, states[i%int64(len(states))], wordOf(i/int64(len(states)), ne))
				}}
			}
			var all []int
			for k := range treeStates {
				all = append(all, k)
			}
			ps := []eng.Phase{word("one-effect", all, 1), word("two-effects-clean", all[:1], 2), word("two-effects-edited", all[3:4], 2)}
			if tier == "thorough" {
				ps = append(ps, word("two-effects", all, 2), word("three-effects-clean", all[:1], 3))
			}
			return ps
		}})
}
