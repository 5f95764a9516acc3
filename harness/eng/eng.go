// Package eng runs one shard of an exhaustive exploration. A check is a list
// of phases; a phase is a finite space of N cases, each a pure function of its
// index, so that (check, phase, index) replays a case.
package eng

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"sync/atomic"
	"time"

	"verif.local/harness/proto"
)

type Phase struct {
	Name string
	N    int64
	Run  func(c *Ctx, i int64)
	// Serial phases run as a whole in one worker, cases in order.
	Serial bool
	// Alone phases run in one worker too, but their cases do not depend on
	// each other.
	Alone bool
}

type Check struct {
	ID          string
	Rule        string
	Assumptions []string
	Phases      func(tier string) []Phase
}

type Ctx struct {
	Tier   string
	Seed   int64
	s      *proto.Stats
	seen   map[uint64]struct{}
	failed bool
	msg    string
}

type failure struct{ msg string }

// Fail reports a violation found in the current case and ends the case.
func (c *Ctx) Fail(format string, a ...interface{}) {
	panic(failure{fmt.Sprintf(format, a...)})
}

// Word counts n explored words (model states) of the given total model steps.
func (c *Ctx) Word(n, steps int) { c.s.Words += int64(n); c.s.Steps += int64(steps) }
func (c *Ctx) Run(n int)         { c.s.Runs += int64(n) }
func (c *Ctx) Cap(reason string) { c.s.Capped = reason }
func (c *Ctx) Extra(k string, n int64) {
	if c.s.Extra == nil {
		c.s.Extra = map[string]int64{}
	}
	c.s.Extra[k] += n
}

// Outcome records an observed outcome; the number of distinct ones is reported.
func (c *Ctx) Outcome(h uint64) {
	if len(c.seen) < 20000 {
		c.seen[h] = struct{}{}
	}
}

// Sample keeps a few cases, written out.
func (c *Ctx) Sample(f func() string) {
	k := c.s.Cases
	if len(c.s.Samples) < 2 && (k == 0 || k%97 == 41) {
		s := f()
		if len(s) > 400 {
			s = s[:400] + "..."
		}
		c.s.Samples = append(c.s.Samples, s)
	}
}

func runCase(p *Phase, c *Ctx, i int64) (failed bool, msg string) {
	defer func() {
		if r := recover(); r != nil {
			failed = true
			if f, ok := r.(failure); ok {
				msg = f.msg
				return
			}
			st := string(debug.Stack())
			var keep []string
			for _, l := range strings.Split(st, "\n") {
				if strings.Contains(l, ".go:") || strings.Contains(l, ".s:") {
					keep = append(keep, strings.TrimSpace(l))
				}
			}
			if len(keep) > 8 {
				keep = keep[:8]
			}
			extra := ""
			if a, ok := r.(interface{ Addr() uintptr }); ok {
				extra = fmt.Sprintf(" (address %#x)", a.Addr())
			}
			msg = fmt.Sprintf("unexpected panic: %v%s at %s", r, extra, strings.Join(keep, " <- "))
		}
	}()
	p.Run(c, i)
	return
}

func shardOf(i int64, n int) int {
	return int((uint64(i) * 0x9E3779B97F4A7C15 >> 33) % uint64(n))
}

// Worker runs one shard and reports on stdout.
func Worker(ck *Check, tier string, seed int64, shard, shards int, only string, note *Note, stop time.Duration) int {
	debug.SetPanicOnFault(true)
	runtime.GOMAXPROCS(2)
	out := json.NewEncoder(os.Stdout)
	out.Encode(proto.Line{Info: &proto.Info{Rule: ck.Rule, Assumptions: ck.Assumptions}})
	code := 0
	var late atomic.Bool // the time is up: report what has been done
	if stop > 0 {
		time.AfterFunc(stop, func() { late.Store(true) })
	}
	for pi, p := range ck.Phases(tier) {
		if only != "" && !matches(p.Name, only) && only != fmt.Sprint("#", pi) {
			continue
		}
		st := &proto.Stats{Phase: p.Name, Size: p.N}
		c := &Ctx{Tier: tier, Seed: seed, s: st, seen: map[uint64]struct{}{}}
		t0 := time.Now()
		for i := int64(0); i < p.N; i++ {
			if p.Serial || p.Alone {
				if pi%shards != shard {
					break
				}
			} else if shardOf(i, shards) != shard {
				continue
			}
			if late.Load() {
				if i > 0 {
					st.Capped = "stopped at the time budget"
				}
				break
			}
			note.Set(int64(pi), i)
			if failed, msg := runCase(&p, c, i); failed {
				out.Encode(proto.Line{Fail: &proto.Fail{Phase: p.Name, Index: i, Msg: msg}})
				code = 1
				break
			}
			st.Cases++
		}
		st.Seconds = time.Since(t0).Seconds()
		for h := range c.seen {
			st.Outcomes = append(st.Outcomes, h)
		}
		out.Encode(proto.Line{Stats: st})
	}
	out.Encode(proto.Line{Done: true})
	return code
}

func matches(name, only string) bool {
	for _, o := range strings.Split(only, ",") {
		parts := strings.Split(o, "*")
		rest, ok := strings.CutPrefix(name, parts[0])
		for _, p := range parts[1:] {
			var found bool
			_, rest, found = strings.Cut(rest, p)
			ok = ok && found
		}
		if ok && (rest == "" || strings.HasSuffix(o, "*")) {
			return true
		}
	}
	return false
}

// One replays a single case. Exit code 0: held, 1: violated.
func One(ck *Check, tier string, seed int64, phase string, i int64, upto bool) int {
	debug.SetPanicOnFault(true)
	out := json.NewEncoder(os.Stdout)
	for pi, p := range ck.Phases(tier) {
		if p.Name != phase && fmt.Sprint("#", pi) != phase {
			continue
		}
		c := &Ctx{Tier: tier, Seed: seed, s: &proto.Stats{}, seen: map[uint64]struct{}{}}
		lo := i
		if upto || p.Serial {
			lo = 0
		}
		for k := lo; k <= i; k++ {
			if failed, msg := runCase(&p, c, k); failed {
				out.Encode(proto.Line{Fail: &proto.Fail{Phase: p.Name, Index: k, Msg: msg}})
				return 1
			}
		}
		return 0
	}
	fmt.Fprintln(os.Stderr, "no such phase:", phase)
	return 2
}
