package main

import "path/filepath"

// readmeTool builds the README update tool from the tree.
func (d *driver) readmeTool() string {
	tool := filepath.Join(d.scratch, "tool")
	if out, err := d.goCmd(d.repo, []string{"build", "-modfile=" + d.repoMod(d.repo), "-o", tool, "./tools"}); err != nil {
		fatal("cannot build the tool: %v\n%s", err, out)
	}
	return tool
}

// C22: build the README update tool from the tree and run it.
func init() {
	runners["C22"] = func(d *driver) {
		tool := d.readmeTool()
		bin := d.build("explore", d.modfile("plain", d.repo), "./cmd/explore", nil)
		d.explore(job{bin: bin, env: []string{"VERIF_TOOL=" + tool, "VERIF_SCRATCH=" + d.scratch}, desc: "native"})
	}
}
