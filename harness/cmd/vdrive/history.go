package main

// C15: the library as it is, and the state closure on a copy whose
// package-level variables are registered with the harness.
func init() {
	runners["C15"] = func(d *driver) {
		bin := d.build("explore", d.modfile("plain", d.repo), "./cmd/explore", nil)
		d.explore(job{bin: bin, desc: "native"})
		dir := d.copyTree("tree")
		info, err := d.instrument(dir, instrOpts{state: true})
		var b2 string
		if err == nil {
			b2, err = d.tryBuild("explore-state", d.modfile("state", dir), "./cmd/explore", nil)
		}
		if err != nil {
			d.addCap("what the package-level variables reach could not be followed: " + clip(err.Error(), 500))
			return
		}
		d.note("%d package-level variables registered", info.vars)
		d.explore(job{bin: b2, only: "closure", label: "reachable/", shards: 1, desc: "package-level variables registered"})
	}
}
