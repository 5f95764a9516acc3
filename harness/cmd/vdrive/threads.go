package main

import "strings"

// C14: a copy with scheduling points, and a build with the race detector.
func init() {
	runners["C14"] = func(d *driver) {
		dir := d.copyTree("tree")
		info, err := d.instrument(dir, instrOpts{sched: true, state: true})
		var bin string
		if err == nil {
			bin, err = d.tryBuild("explore-sched", d.modfile("sched", dir), "./cmd/explore", nil)
		}
		switch {
		case err != nil:
			d.addCap("schedules could not be controlled: " + clip(err.Error(), 500))
		case len(info.unsupported) > 0:
			d.addCap("schedules could not be controlled, the library uses: " + strings.Join(info.unsupported, ", "))
		default:
			d.note("%d scheduling points in %s; %d package-level variables registered", info.points, strings.Join(info.rewritten, " "), info.vars)
			d.explore(job{bin: bin, desc: "scheduling points"})
		}
		rb, err := d.tryBuild("explore-race", d.modfile("plain", d.repo), "./cmd/explore", []string{"-race"}, "CGO_ENABLED=0")
		if err != nil {
			rb, err = d.tryBuild("explore-race", d.modfile("plain", d.repo), "./cmd/explore", []string{"-race"})
		}
		if err != nil {
			d.addCap("no build with the race detector: " + clip(err.Error(), 500))
			return
		}
		d.explore(job{bin: rb, label: "race/", desc: "race detector"})
	}
}
