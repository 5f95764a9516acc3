package main

// C26: a copy with points at which the memory manager acts.
func init() {
	runners["C26"] = func(d *driver) {
		dir := d.copyTree("tree")
		info, err := d.instrument(dir, instrOpts{gc: true})
		var bin string
		if err == nil {
			bin, err = d.tryBuild("explore-gc", d.modfile("gc", dir), "./cmd/explore", nil)
		}
		if err != nil { // only what happens between calls
			bin = d.build("explore-plain", d.modfile("plain", d.repo), "./cmd/explore", nil)
			d.addCap("no points within the library's code: " + clip(err.Error(), 500))
		}
		d.note("%d points in the library's code", info.points)
		d.explore(job{bin: bin, env: []string{"GODEBUG=clobberfree=1"}, desc: "points for the memory manager"})
	}
}
