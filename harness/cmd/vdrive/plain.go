package main

func init() {
	for _, id := range []string{"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C10", "C11", "C16", "C17", "C19", "C21", "C23"} {
		runners[id] = plain
	}
}

// plain checks need nothing but the library as it is.
func plain(d *driver) {
	bin := d.build("explore", d.modfile("plain", d.repo), "./cmd/explore", nil)
	d.explore(job{bin: bin, desc: "native"})
}
