package main

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
)

// C24: the generator check of the tree, run in scratch repositories.
func init() {
	runners["C24"] = func(d *driver) {
		script := filepath.Join(d.repo, "tools", "generate_and_check.sh")
		if _, err := os.Stat(script); err != nil {
			d.addCap(fmt.Sprintf("nothing to run: %v", err))
			return
		}
		for _, p := range []string{"git", "make", "bash"} {
			if _, err := exec.LookPath(p); err != nil {
				d.addCap(fmt.Sprintf("nothing to run: %v", err))
				return
			}
		}
		bin := d.build("explore", d.modfile("plain", d.repo), "./cmd/explore", nil)
		d.explore(job{bin: bin, env: []string{"VERIF_SCRIPT=" + script, "VERIF_SCRATCH=" + d.scratch}, desc: "native"})
	}
}

// C25: the benchmark update script of the tree, run in scratch trees.
func init() {
	runners["C25"] = func(d *driver) {
		script := filepath.Join(d.repo, "tools", "update_bench.sh")
		if _, err := os.Stat(script); err != nil {
			d.addCap(fmt.Sprintf("nothing to run: %v", err))
			return
		}
		for _, p := range []string{"make", "bash"} {
			if _, err := exec.LookPath(p); err != nil {
				d.addCap(fmt.Sprintf("nothing to run: %v", err))
				return
			}
		}
		tool := d.readmeTool()
		bin := d.build("explore", d.modfile("plain", d.repo), "./cmd/explore", nil)
		d.explore(job{bin: bin, env: []string{"VERIF_TREE=" + d.repo, "VERIF_TOOL=" + tool, "VERIF_SCRATCH=" + d.scratch}, desc: "native"})
	}
}
