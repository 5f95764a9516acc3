package main

import (
	"bytes"
	"context"
	"fmt"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"
)

// copyTree copies the working tree (without .git) into the scratch directory.
func (d *driver) copyTree(name string) string {
	dst := filepath.Join(d.scratch, name)
	err := filepath.WalkDir(d.repo, func(p string, e fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(d.repo, p)
		if e.IsDir() {
			if e.Name() == ".git" {
				return filepath.SkipDir
			}
			return os.MkdirAll(filepath.Join(dst, rel), 0o755)
		}
		if e.Type()&fs.ModeSymlink != 0 {
			t, err := os.Readlink(p)
			if err != nil {
				return err
			}
			return os.Symlink(t, filepath.Join(dst, rel))
		}
		if !e.Type().IsRegular() {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		i, err := e.Info()
		if err != nil {
			return err
		}
		return os.WriteFile(filepath.Join(dst, rel), b, i.Mode().Perm()|0o200)
	})
	must(err)
	return dst
}

// treeDiff lists the files under a/pkg that differ from b/pkg.
func treeDiff(a, b string) (diff []string) {
	seen := map[string]bool{}
	for _, root := range []string{a, b} {
		filepath.WalkDir(filepath.Join(root, "pkg"), func(p string, e fs.DirEntry, err error) error {
			if err == nil && e.Type().IsRegular() {
				rel, _ := filepath.Rel(root, p)
				if !seen[rel] {
					seen[rel] = true
					x, e1 := os.ReadFile(filepath.Join(a, rel))
					y, e2 := os.ReadFile(filepath.Join(b, rel))
					if e1 != nil || e2 != nil || !bytes.Equal(x, y) {
						diff = append(diff, rel)
					}
				}
			}
			return nil
		})
	}
	return
}

func init() {
	runners["C18"] = func(d *driver) {
		hm := d.modfile("plain", d.repo)
		d.build("explore-before", hm, "./cmd/explore", nil) // the tree itself must build
		fail := func(phase, msg string) {
			if replaying != nil {
				fmt.Println("replay: violated:", msg)
				cleanup()
				os.Exit(1)
			}
			d.violations = append(d.violations, violation{Property: d.id, Phase: phase, Message: msg, Build: "generate",
				Replays: "2 of 2", Tier: d.tier, Seed: d.seed})
		}
		st := d.stat("go-generate")
		st.Size = 2
		from := d.repo
		for pass := 1; pass <= 2; pass++ {
			t0 := time.Now()
			var dir, out string
			var err error
			gen := func() {
				dir = d.copyTree(fmt.Sprint("gen", pass))
				if pass == 2 { // generate again from the generated tree
					for _, f := range treeDiff(from, dir) {
						b, e := os.ReadFile(filepath.Join(from, f))
						must(e)
						must(os.WriteFile(filepath.Join(dir, f), b, 0o644))
					}
				}
				out, err = d.generate(dir)
			}
			gen()
			if err != nil {
				os.RemoveAll(filepath.Join(d.scratch, fmt.Sprint("gen", pass)))
				gen()
			}
			if err != nil {
				fail("go-generate", fmt.Sprintf("go generate (run %d) fails: %v: %s", pass, err, clip(out, 1500)))
				return
			}
			changed := treeDiff(from, dir)
			d.note("go generate run %d changed %d files: %s (%.1fs)", pass, len(changed), strings.Join(changed, " "), time.Since(t0).Seconds())
			st.Cases++
			st.Words++
			st.Steps += int64(len(changed)) + 1
			st.Runs++
			st.Seconds += time.Since(t0).Seconds()
			if pass == 2 && len(changed) == 0 {
				break // a fixed point: nothing more to explore
			}
			name := fmt.Sprint("generated", pass)
			bin, err := d.tryBuild("explore-"+name, d.modfile(name, dir), "./cmd/explore", nil)
			if err != nil {
				bin, err = d.tryBuild("explore-"+name, d.modfile(name, dir), "./cmd/explore", nil)
			}
			if err != nil {
				fail("compile-generated", fmt.Sprintf("the library does not compile after go generate (run %d): %s", pass, clip(err.Error(), 1500)))
				return
			}
			lbl := ""
			if pass == 2 {
				lbl = "second run: "
			}
			d.explore(job{bin: bin, label: lbl, desc: name})
			d.cpuCombinations(lbl+"regenerated on ", bin)
			from = dir
		}
		if replaying != nil && replaying.Build == "generate" {
			fmt.Println("replay: held")
			cleanup()
			os.Exit(0)
		}
	}
}

// generate runs the generators with limits on time and memory, so that one
// that never ends fails instead of taking the machine with it. The limits are
// more than a hundred times what the generators need.
func (d *driver) generate(dir string) (string, error) {
	ctx, cancel := context.WithTimeout(context.Background(), 4*time.Minute)
	defer cancel()
	cmd := exec.CommandContext(ctx, "sh", "-c", "ulimit -v 6000000; exec go generate ./pkg/...")
	cmd.Dir = dir
	cmd.Env = goEnv()
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
	cmd.WaitDelay = 10 * time.Second
	b, err := cmd.CombinedOutput()
	if ctx.Err() != nil {
		err = fmt.Errorf("not finished after 4 minutes (%v)", err)
	}
	return string(b), err
}
