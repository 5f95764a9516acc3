package main

import (
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strings"
)

// C20: a copy of the tree whose library packages draw from the harness's
// stand-in for math/rand.
func init() {
	runners["C20"] = func(d *driver) {
		dir := d.copyTree("tree")
		n := 0
		err := filepath.Walk(filepath.Join(dir, "pkg"), func(p string, i os.FileInfo, err error) error {
			if err != nil || i.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
				return err
			}
			src, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			fset := token.NewFileSet()
			f, err := parser.ParseFile(fset, p, src, parser.ImportsOnly)
			if err != nil {
				return err
			}
			out := string(src)
			for k := len(f.Imports) - 1; k >= 0; k-- {
				im := f.Imports[k]
				to := map[string]string{`"math/rand"`: `"verif.local/harness/rt/vrand"`, `"math/rand/v2"`: `"verif.local/harness/rt/vrand2"`}[im.Path.Value]
				if to == "" {
					continue
				}
				if im.Name == nil {
					to = "rand " + to
				}
				a, b := fset.Position(im.Path.Pos()).Offset, fset.Position(im.Path.End()).Offset
				out = out[:a] + to + out[b:]
				n++
			}
			return os.WriteFile(p, []byte(out), 0o644)
		})
		must(err)
		bin, err := d.tryBuild("explore", d.modfile("random", dir), "./cmd/explore", nil)
		if err != nil { // uses something the stand-in does not have
			d.build("explore-plain", d.modfile("plain", d.repo), "./cmd/explore", nil)
			d.addCap("the stand-in for math/rand does not fit the library: " + clip(err.Error(), 500))
			bin = filepath.Join(d.scratch, "explore-plain")
		}
		d.note("%d imports of a random source replaced", n)
		if n == 0 {
			d.addCap("no import of math/rand was found: the draws are not controlled")
		}
		d.explore(job{bin: bin, slow: true, desc: "random source replaced"})
	}
}
