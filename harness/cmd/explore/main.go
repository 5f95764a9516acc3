// explore is the worker: it enumerates the cases of one check against the
// library it is linked with.
package main

import (
	"flag"
	"fmt"
	"os"
	"strings"

	"verif.local/harness/eng"
	"verif.local/harness/lib"
)

var checks = map[string]*eng.Check{}

// childMain is set in processes that a worker starts for a single case.
var childMain func() int

func register(c *eng.Check) { withNeighbours(c); checks[c.ID] = c }

// setup functions run once before the check's phases (for lazily needed state).
func main() {
	if childMain != nil {
		os.Exit(childMain())
	}
	tier := flag.String("tier", "quick", "")
	seed := flag.Int64("seed", 1, "")
	shard := flag.Int("shard", 0, "")
	shards := flag.Int("shards", 1, "")
	only := flag.String("only", "", "comma separated phases, prefix* allowed")
	note := flag.String("note", "", "")
	stop := flag.Duration("stop", 0, "end, and report, after this time")
	phase := flag.String("phase", "", "replay one case of this phase (name or #number)")
	index := flag.Int64("index", 0, "")
	upto := flag.Bool("upto", false, "replay the phase's cases 0..index in order")
	impls := flag.String("impls", "all", "auto: only the automatic and the portable entry points")
	list := flag.Bool("list", false, "")
	flag.Parse()
	ck := checks[flag.Arg(0)]
	if ck == nil {
		fmt.Fprintln(os.Stderr, "unknown check", flag.Arg(0))
		os.Exit(2)
	}
	if *impls == "auto" || !hasAVX2() {
		lib.DropFast()
	}
	if *list {
		for _, p := range ck.Phases(*tier) {
			fmt.Println(p.Name, p.N)
		}
		return
	}
	if *phase != "" {
		os.Exit(eng.One(ck, *tier, *seed, *phase, *index, *upto))
	}
	os.Exit(eng.Worker(ck, *tier, *seed, *shard, *shards, *only, eng.OpenNote(*note), *stop))
}

// hasAVX2 asks the kernel, independently of the library under test.
func hasAVX2() bool {
	b, err := os.ReadFile("/proc/cpuinfo")
	if err != nil {
		return true
	}
	return strings.Contains(string(b), " avx2")
}
