package main

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"slices"
	"strings"
	"sync"
	"time"

	"verif.local/harness/eng"
	"verif.local/harness/mem"
	"verif.local/harness/rt/sched"
	"verif.local/harness/rt/state"
)

// C14 has two halves. The controlled one runs in a copy of the library with a
// scheduling point before every statement. The other one watches real
// goroutines with the race detector, in a fresh process per case.

// layout gives the calls' inputs in read-only memory (the same memory for
// equal inputs) and their outputs next to each other.
type layout struct {
	in, out *mem.Arena
	at      map[string]int
	next    int
	half    int
}

// newLayout: room for outputs of half a unit of 64 KB of numbers and as much
// of bytes, inputs of four times that.
func newLayout(units int) *layout {
	return &layout{in: mem.New(units << 18), out: mem.New(units << 16), at: map[string]int{}, half: units << 15}
}

// place puts bytes at an offset that is a multiple of 4.
func (l *layout) place(b []byte) int {
	k := string(b)
	if o, ok := l.at[k]; ok {
		return o
	}
	o := l.next
	if o+len(b) > l.in.Size {
		panic("layout: full")
	}
	copy(l.in.Bytes(o, len(b)), b)
	l.at[k] = o
	l.next = (o + len(b) + 3) &^ 3
	return o
}

func rawBytes(n []uint32) (b []byte) {
	for _, v := range n {
		b = append(b, byte(v), byte(v>>8), byte(v>>16), byte(v>>24))
	}
	return
}

func (l *layout) insts(ks []*call) (as []*inst) {
	on, ob := 0, l.half // numbers, bytes
	for _, k := range ks {
		a := &inst{}
		if k.inN != nil {
			a.inN = l.in.RONums(l.place(rawBytes(k.inN)), len(k.inN))
		}
		if k.inB != nil {
			a.inB = l.in.ROBytes(l.place(k.inB), len(k.inB))
		}
		a.outN = l.out.Nums(on, k.outN)
		a.outB = l.out.Bytes(ob, k.outB)
		on, ob = on+4*k.outN, ob+k.outB
		as = append(as, a)
	}
	return
}

func (a *inst) reset() {
	a.ret, a.res = nil, 0
	for q := range a.outN {
		a.outN[q] = 0xdddddddd
	}
	for q := range a.outB {
		a.outB[q] = 0xdd
	}
}

// caseTime is how long the schedules of one case may take, when the library
// starts goroutines: their orders are many.
const (
	caseTime      = 20 * time.Second
	caseTimeQuick = time.Second
)

// levels are the bounds to explore in turn, so that the time serves schedules
// with few deviations first.
func levels(bound, free int) (ls [][2]int) {
	for _, l := range [][2]int{{0, 0}, {1, 0}, {0, 1}, {1, 1}, {1, 2}, {2, 1}, {2, 2}} {
		if l[0] <= bound && l[1] <= free && (l[0] < bound || l[1] < free) {
			ls = append(ls, l)
		}
	}
	return append(ls, [2]int{bound, free})
}

func threadsRule() string {
	return "controlled half: all ordered tuples of calls, run as threads of a cooperative scheduler with a point before every statement of the library's Go code (accelerated kernels are one step), under every schedule with at most the stated number of preemptions, from the state in which no call was ever made; inputs are shared in read-only pages, outputs are adjacent; a call is stopped at every point while another thread makes the stated number of calls, each judged; where only operations of synchronisation are points the bounds are higher and the sizes larger; single calls of larger sizes are run under the orders of the goroutines that they start, if any; every thread's result is compared with the model, and a deadlock or panic fails. Race half: every pair of calls (of the large sizes, every call with itself) in a fresh process of a build with the race detector, both goroutines started at once, each repeating its call, results compared. state = one schedule (resp. process), transition = one segment of it."
}

func init() {
	register(&eng.Check{ID: "C14", Rule: threadsRule(),
		Assumptions: []string{
			"the scheduler interleaves statements, not parts of a statement, and gives sequentially consistent memory; weaker behaviours need a data race, which the race half looks for",
			"accelerated kernels run as one step and are invisible to the race detector; C10 shows that they write only to their outputs",
			"the primitives of package sync, channels and select statements are replaced by equivalents under the scheduler (of the cases of a select statement that are ready the first is taken); waiting for time, contexts, finalizers and named channel types in the library would not be explored (reported as not covered)",
		},
		Phases: func(tier string) (ps []eng.Phase) {
			if raceBuild {
				return racePhases(tier)
			}
			return schedPhases(tier)
		}})
}

// threadCalls: one call per entry point for streams of n numbers.
func threadCalls(n int) (ks []*call) {
	seen := map[string]*call{}
	variants := 2
	if n <= 3 {
		variants = 1
	}
	for _, k := range callCatalog(map[int]int{n: variants}) {
		switch {
		case seen[k.group] == nil:
			seen[k.group] = k
			ks = append(ks, k)
		case seen[k.group].other == nil:
			seen[k.group].other = k
		}
	}
	return
}

// forThread is the call as thread w makes it: equal entry points on different
// numbers, so that what one thread does cannot pass for the other's work.
func (k *call) forThread(w int) *call {
	if w%2 == 1 && k.other != nil {
		return k.other
	}
	return k
}

func streamCalls(n int) (ks []*call) {
	for _, k := range threadCalls(n) {
		if strings.HasPrefix(k.group, "Write") || strings.HasPrefix(k.group, "Read") {
			ks = append(ks, k)
		}
	}
	return
}

// aloneCalls: calls of the stream functions on numbers of mixed lengths, of one
// byte and of four.
func aloneCalls(n int) (ks []*call) {
	for _, k := range callCatalog(map[int]int{n: 4}) {
		if strings.HasPrefix(k.group, "Write") || strings.HasPrefix(k.group, "Read") {
			ks = append(ks, k)
		}
	}
	return
}

// tuplePhase: the last thread makes its call again times; then only the others
// may be the first to run.
func tuplePhase(name string, ks []*call, width, bound, free, units, again int, coarse ...bool) eng.Phase {
	starts := width
	if again > 1 {
		starts = width - 1
	}
	total := int64(1)
	for i := 0; i < width; i++ {
		total *= int64(len(ks))
	}
	var l *layout
	// the last len(ks) cases: all threads make the same call on shared inputs
	return eng.Phase{Name: name, N: total + int64(len(ks)), Run: func(c *eng.Ctx, i int64) {
		if l == nil {
			l = newLayout(units)
			state.Snapshot()
			for _, o := range state.Opaque {
				c.Cap("cannot be put back between schedules: " + o)
			}
		}
		var pick []*call
		var names []string
		for w := 0; w < width; w++ {
			var k *call
			if i >= total {
				k = ks[i-total]
			} else {
				k = ks[i%int64(len(ks))].forThread(w)
				i /= int64(len(ks))
			}
			pick = append(pick, k)
			names = append(names, k.name)
		}
		as := l.insts(pick)
		bodies := make([]func(), width)
		early := make([]string, width)
		sched.Coarse = len(coarse) > 0
		if units > 1 { // long calls are no busy waiting
			sched.SpinLimit = 100 << 20
		} else {
			sched.SpinLimit = 400000
		}
		for w := range pick {
			k, a := pick[w], as[w]
			times := 1
			if w == width-1 {
				times = again
			}
			bodies[w] = func() {
				early[w] = ""
				for t := 0; t < times && early[w] == ""; t++ {
					if t > 0 {
						a.reset()
					}
					k.exec(a)
					if sched.Spawned > 0 || times > 1 { // the result must be there by now
						early[w] = k.verdict(a)
					}
				}
			}
		}
		steps, dirty := 0, false
		limit := caseTime
		if c.Tier != "thorough" {
			limit = caseTimeQuick
		}
		end, over, spawned := time.Now().Add(limit), false, false
		defer func() { // also after a failure
			if state.Changed() != "" {
				state.Restore()
			}
		}()
		one := func(segs []sched.Seg) sched.Result {
			if spawned && time.Now().After(end) { // no further ones
				over = true
				return sched.Result{Infeasible: true}
			}
			for _, a := range as {
				a.reset()
			}
			r := sched.Run(bodies, segs)
			spawned = spawned || sched.Spawned > 0
			if r.Infeasible {
				if state.Changed() != "" {
					state.Restore()
				}
				return r
			}
			steps += len(r.Trace)
			what := func() string {
				var s []string
				for _, t := range r.Trace {
					s = append(s, fmt.Sprintf("thread %d for %d points", t.T, t.Points))
				}
				return fmt.Sprintf("threads %v, schedule: %s: ", names, strings.Join(s, ", "))
			}
			if r.Deadlock {
				c.Fail("%sdeadlock", what())
			}
			for w := range pick {
				if r.Errs[w] != nil {
					c.Fail("%sthread %d: panic: %v", what(), w, r.Errs[w])
				}
				if early[w] != "" {
					c.Fail("%sthread %d, when the call returns: %s", what(), w, early[w])
				}
				if e := pick[w].verdict(as[w]); e != "" {
					c.Fail("%sthread %d: %s", what(), w, e)
				}
			}
			for w := width; w < len(r.Errs); w++ {
				if r.Errs[w] != nil {
					c.Fail("%sa goroutine started by the library panics: %v", what(), r.Errs[w])
				}
			}
			if state.Changed() != "" {
				dirty = true
				state.Restore()
			}
			return r
		}
		n, ran := 0, 0
		for q, l := range levels(bound, free) {
			if q == 0 || spawned && !over {
				m := sched.Explore(width, starts, l[0], l[1], one)
				n, ran = max(n, m), ran+m
			}
		}
		if !spawned { // no goroutines but the calls'
			m := sched.Explore(width, starts, bound, free, one)
			n, ran = max(n, m), ran+m
		}
		if over {
			c.Cap(fmt.Sprintf("with the goroutines that the library starts, the schedules of a case were not finished in %v", limit))
		}
		c.Word(n, steps)
		c.Run(ran)
		c.Extra("schedules", int64(n))
		if dirty {
			c.Extra("cases in which global state changed and was put back", 1)
		}
		c.Outcome(uint64(n))
		c.Sample(func() string { return fmt.Sprintf("%v: %d schedules", names, n) })
	}}
}

func schedPhases(tier string) (ps []eng.Phase) {
	two := func(ks []*call, what string, bound int) {
		ps = append(ps, tuplePhase(fmt.Sprintf("two-threads-%s-bound-%d", what, bound), ks, 2, bound, 99, 1, 1))
	}
	three := func(ks []*call, what string, bound int) {
		ps = append(ps, tuplePhase(fmt.Sprintf("three-threads-%s-bound-%d", what, bound), ks, 3, bound, 99, 1, 1))
	}
	// one call, stopped at every point while another thread makes many
	during := func(n, again int) {
		ps = append(ps, tuplePhase(fmt.Sprintf("one-call-n%d-stopped-during-%d-others", n, again), streamCalls(n), 2, 1, 99, 1, again))
	}
	// goroutines that the library itself starts, if it does for this size
	alone := func(n, bound, units int) {
		ps = append(ps, tuplePhase(fmt.Sprintf("one-call-n%d-bound-%d", n, bound), aloneCalls(n), 1, bound, 2, units, 1))
	}
	// only synchronisation is a point
	coarse := func(n, width, bound, units int) {
		ps = append(ps, tuplePhase(fmt.Sprintf("%d-threads-n%d-bound-%d-at-synchronisation", width, n, bound), streamCalls(n), width, bound, 99, units, 1, true))
	}
	coarse(300, 3, 2, 1)
	coarse(5000, 2, 2, 4)
	coarse(70000, 2, 1, 60)
	alone(300, 2, 1)
	alone(5000, 0, 4)
	alone(70000, 0, 60)
	alone(300000, 0, 250)
	if tier == "thorough" {
		during(5, 1100)
		during(9, 300)
		during(21, 300)
		during(300, 70)
		during(2100, 20)
		alone(5000, 1, 4)
		coarse(5, 3, 3, 1)
		coarse(5000, 3, 2, 4)
		coarse(70000, 2, 2, 60)
		coarse(300000, 2, 1, 250)
		alone(1100000, 0, 900)
		two(threadCalls(9), "n9", 2)
		two(streamCalls(41), "n41", 2)
		two(streamCalls(300), "n300", 1)
		two(streamCalls(2100), "n2100", 1)
		two(streamCalls(5), "n5", 3)
		three(threadCalls(5), "n5", 1)
		three(streamCalls(5), "n5", 2)
		two(append(threadCalls(21), refusedCalls()...), "n21-and-refused", 2)
		return
	}
	two(threadCalls(9), "n9", 2)
	two(streamCalls(41), "n41", 1)
	two(threadCalls(5), "n5", 2)
	two(streamCalls(300), "n300", 1)
	three(streamCalls(5), "n5", 1)
	during(5, 300)
	during(21, 70)
	during(300, 20)
	two(append(streamCalls(21), refusedCalls()...), "n21-and-refused", 1)
	return
}

// --- race half

func racePair(a, b *call, rounds int) string {
	var in = map[string][]byte{}
	var inN = map[string][]uint32{}
	outN := make([]uint32, a.outN+b.outN)
	outB := make([]byte, a.outB+b.outB)
	mk := func(k *call, on, ob int) *inst {
		i := &inst{outN: outN[on : on+k.outN : on+k.outN], outB: outB[ob : ob+k.outB : ob+k.outB]}
		if k.inB != nil {
			s := string(k.inB)
			if in[s] == nil {
				in[s] = bytes.Clone(k.inB)
			}
			i.inB = in[s]
		}
		if k.inN != nil {
			s := string(rawBytes(k.inN))
			if inN[s] == nil {
				inN[s] = slices.Clone(k.inN)
			}
			i.inN = inN[s]
		}
		return i
	}
	ia, ib := mk(a, 0, 0), mk(b, a.outN, a.outB)
	start := make(chan bool)
	var wg sync.WaitGroup
	errs := make([]string, 2)
	for w, p := range []struct {
		k *call
		i *inst
	}{{a, ia}, {b, ib}} {
		wg.Add(1)
		w, p := w, p
		go func() {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					errs[w] = fmt.Sprintf("%s: panic: %v", p.k.name, e)
				}
			}()
			<-start
			for r := 0; r < rounds; r++ {
				p.i.ret, p.i.res = nil, 0
				p.k.run(p.i)
				if e := p.k.verdict(p.i); e != "" {
					errs[w] = p.k.name + ": " + e
					return
				}
			}
		}()
	}
	close(start)
	wg.Wait()
	return errs[0] + errs[1]
}

func raceCalls(n int) []*call {
	if n < 100 {
		return threadCalls(n)
	}
	return streamCalls(n)
}

// raceChild is the process of one pair.
func raceChild(arg string) int {
	var n, i, j, same int
	if _, err := fmt.Sscanf(arg, "%d,%d,%d,%d", &n, &i, &j, &same); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	ks := raceCalls(n)
	rounds := 3
	if n > 100000 {
		rounds = 1
	}
	if e := racePair(ks[i], ks[j].forThread(1-same), rounds); e != "" {
		fmt.Println(e)
		return 1
	}
	return 0
}

func racePhases(tier string) (ps []eng.Phase) {
	sizes := []int{21, 5000, 70000, 300000}
	if tier == "thorough" {
		sizes = []int{5, 21, 64, 200, 1100, 5000, 17000, 70000, 140000, 300000, 1100000}
	}
	for _, n := range sizes {
		n := n
		ks := raceCalls(n)
		m := int64(len(ks))
		ps = append(ps, eng.Phase{Name: fmt.Sprintf("race-pairs-n%d", n), N: m * m, Run: func(c *eng.Ctx, i int64) {
			x, y := int(i/m), int(i%m)
			same := 1
			if y < x { // pairs are unordered; what is left: equal calls on different numbers
				if x == int(m)-1 && y == 0 {
					x = 0
				} else if x-y != 1 {
					return
				}
				y, same = x, 0
			}
			if n > 10000 && x != y && (tier != "thorough" || n > 100000) {
				return
			}
			tries := 1
			if os.Getenv("VERIF_CONFIRM") != "" {
				tries = 25
			}
			for t := 0; t < tries; t++ {
				cmd := exec.Command("/proc/self/exe")
				cmd.Env = append(os.Environ(), fmt.Sprintf("VERIF_RACE_CHILD=%d,%d,%d,%d", n, x, y, same),
					"GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0", "GOMAXPROCS=2")
				out, err := cmd.CombinedOutput()
				if err != nil {
					if ee, ok := err.(*exec.ExitError); ok && (ee.ExitCode() == 66 || ee.ExitCode() == 1 || ee.ExitCode() == 2) {
						c.Fail("%s and %s at the same time, first calls of a process: %s", ks[x].name, ks[y].name, clipText(string(out), 1500))
					}
					c.Cap(fmt.Sprintf("a race process could not run: %v %s", err, clipText(string(out), 300)))
					return
				}
			}
			c.Word(1, 6)
			c.Run(6)
			c.Sample(func() string { return ks[x].name + " and " + ks[y].name })
		}})
	}
	return
}

func init() {
	if a := os.Getenv("VERIF_RACE_CHILD"); a != "" {
		childMain = func() int { return raceChild(a) }
	}
}
