// Package sched runs a few threads (coroutines) one at a time under a given
// schedule. Instrumented library code calls Point between its statements.
package sched

import (
	"iter"
	"reflect"
	"runtime/debug"
)

type thread struct {
	id      int
	next    func() (struct{}, bool)
	stop    func()
	yield   func(struct{}) bool
	points  int // points passed in the current segment
	passed  int // with those that do not count
	limit   int // stop at this point of the segment, 0: never
	blocked func() bool
	done    bool
	spun    bool
	forked  bool
	late    bool // preempted: continues by itself only when no other can run
	err     interface{}
}

// A thread that passes this many points without ending or blocking waits
// actively for another one: the others get their turn, as on a real machine.
var SpinLimit = 400000

// maxSpins is how often that may happen in one execution.
const maxSpins = 12

var cur *thread

// all are the threads of the running execution: the bodies', then those that
// library code started.
var all []*thread

// Spawned says how many threads library code started in this execution.
var Spawned int

// Active says whether a controlled thread is running.
func Active() bool { return cur != nil }

// Coarse leaves out the points that are no synchronisation: where there are no
// data races, a schedule of the others gives what one of those gives.
var Coarse bool

// Point is a place where the running thread may be preempted.
func Point() {
	t := cur
	if t == nil {
		return
	}
	t.passed++
	if !Coarse {
		t.points++
	}
	if !Coarse && t.points == t.limit {
		t.yield(struct{}{})
	} else if t.passed >= SpinLimit {
		t.spun = true
		t.yield(struct{}{})
	}
}

// Sync is the point before an operation of synchronisation.
func Sync() {
	if t := cur; t != nil && Coarse {
		t.points++
		if t.points == t.limit {
			t.yield(struct{}{})
		}
		return
	}
	Point()
}

// Wait blocks the running thread until cond holds. Outside the controlled
// threads a condition that does not hold never will.
func Wait(cond func() bool) {
	t := cur
	if t == nil {
		if !cond() {
			panic("blocked forever")
		}
		return
	}
	for !cond() {
		t.blocked = cond
		t.yield(struct{}{})
	}
	t.blocked = nil
}

// Seg is a part of a schedule: thread T runs; it is preempted at its K-th
// point from there (0: it runs until it ends or blocks).
type Seg struct{ T, K int }

// Trace is one executed segment.
type Trace struct {
	Seg
	Points int   // points passed
	Others []int // other threads that could have run when it ended
	Ended  bool  // the thread ended or blocked here (no preemption)
	Forked bool  // it started a thread here: either may continue
	Spun   bool  // it waited actively; the next thread in turn continues
}

type Result struct {
	Trace    []Trace
	Errs     []interface{} // per thread: what it panicked with
	Deadlock bool
	// the schedule names a thread that cannot run there
	Infeasible bool
}

func newThread(body func()) {
	t := &thread{id: len(all)}
	t.next, t.stop = iter.Pull(func(yield func(struct{}) bool) {
		debug.SetPanicOnFault(true)
		t.yield = func(x struct{}) bool {
			if !yield(x) {
				panic("stopped")
			}
			return true
		}
		defer func() { t.err = recover() }()
		body()
	})
	all = append(all, t)
}

// atStart are the goroutines that packages start when they are initialised:
// every execution begins with them.
var atStart []func()

var started bool

// Go is a go statement. Outside the controlled threads the new one runs at
// once.
func Go(f func()) {
	if cur == nil {
		if started {
			f()
		} else {
			atStart = append(atStart, f)
		}
		return
	}
	Spawned++
	newThread(f)
	cur.forked = true
	cur.yield(struct{}{})
}

// Spawn is the go statement for a call of fn with args.
func Spawn(fn interface{}, args ...interface{}) {
	if f, ok := fn.(func()); ok && len(args) == 0 {
		Go(f)
		return
	}
	v := reflect.ValueOf(fn)
	t := v.Type()
	var in []reflect.Value
	for k, a := range args {
		want := t.In(min(k, t.NumIn()-1))
		if t.IsVariadic() && k >= t.NumIn()-1 {
			want = want.Elem()
		}
		if a == nil {
			in = append(in, reflect.Zero(want))
			continue
		}
		x := reflect.ValueOf(a)
		if !x.Type().AssignableTo(want) {
			x = x.Convert(want)
		}
		in = append(in, x)
	}
	Go(func() { v.Call(in) })
}

// Run executes the bodies under the schedule; after it, the thread that ran
// last continues, then the next one that can, those that were preempted last.
func Run(bodies []func(), segs []Seg) (r Result) {
	all, Spawned, started = nil, len(atStart), true
	for _, body := range bodies {
		newThread(body)
	}
	for _, f := range atStart {
		newThread(f)
	}
	defer func() {
		cur = nil
		for _, t := range all {
			if !t.done {
				t.stop()
			}
		}
		all = nil
	}()
	can := func(t *thread) bool { return !t.done && (t.blocked == nil || t.blocked()) }
	last, spins := -1, 0
	for step := 0; ; step++ {
		var s Seg
		if step < len(segs) {
			s = segs[step]
			if s.T >= len(all) || !can(all[s.T]) {
				r.Infeasible = true // it blocked meanwhile
				return
			}
		} else {
			s.T = -1
			if last >= 0 && can(all[last]) && !all[last].spun {
				s.T = last
			} else {
				for k := 0; k < 2*len(all) && s.T < 0; k++ { // after the last one, in turn
					if t := all[(last+1+k)%len(all)]; can(t) && (k >= len(all) || !t.late) {
						s.T = t.id
					}
				}
			}
			if spins > maxSpins {
				s.T = -1
			}
			if s.T < 0 {
				for _, t := range all { // those that the library started may wait for more work
					r.Deadlock = r.Deadlock || !t.done && t.id < len(bodies)
					r.Errs = append(r.Errs, t.err)
				}
				return
			}
		}
		t := all[s.T]
		t.points, t.passed, t.limit, t.spun, t.forked, t.late = 0, 0, s.K, false, false, false
		cur = t
		_, more := t.next()
		cur = nil
		t.done = !more
		last = s.T
		t.late = s.K > 0 && t.points == s.K && !t.done
		tr := Trace{Seg: s, Points: t.points, Ended: t.done || t.blocked != nil || t.spun || t.forked, Forked: t.forked}
		if t.spun {
			spins++
			tr.Spun = true
			tr.Points = 1 // preempting it while it spins changes nothing
		}
		for _, o := range all {
			if o != t && can(o) {
				tr.Others = append(tr.Others, o.id)
			}
		}
		r.Trace = append(r.Trace, tr)
	}
}

// Explore enumerates every schedule with at most bound preemptions and, where
// threads end, block or start others, at most free choices of another thread
// than the next one in turn; it calls run on each, which executes it (by Run)
// and judges it. Threads 0 to starts-1 may be the first. It returns the number
// of schedules.
func Explore(n, starts, bound, free int, run func(segs []Seg) Result) int {
	count := 0
	var rec func(segs []Seg, left, free int)
	rec = func(segs []Seg, left, free int) {
		r := run(segs)
		if r.Infeasible {
			return
		}
		count++
		// the segments from the last explicit one on ran without preemption
		for k := len(segs) - 1; k < len(r.Trace); k++ {
			tr := r.Trace[k]
			pre := append([]Seg{}, segs[:len(segs)-1]...)
			for q := len(pre); q < k; q++ {
				pre = append(pre, Seg{r.Trace[q].T, 0})
			}
			if left > 0 {
				others := others(r.Trace, k, n)
				for p := 1; p <= tr.Points; p++ {
					for _, u := range others {
						rec(append(append([]Seg{}, pre...), Seg{tr.T, p}, Seg{u, 0}), left-1, free)
					}
				}
			}
			// which thread continues after one ends is a free choice
			if free > 0 && tr.Ended && !tr.Spun && len(tr.Others) > 0 && k+1 < len(r.Trace) {
				for _, u := range tr.Others {
					if u != r.Trace[k+1].T {
						rec(append(append([]Seg{}, pre...), Seg{tr.T, 0}, Seg{u, 0}), left, free-1)
					}
				}
			}
		}
	}
	for t := 0; t < starts; t++ {
		rec([]Seg{{t, 0}}, bound, free)
	}
	return count
}

// others lists the threads that may be able to run while segment k is running.
func others(tr []Trace, k, n int) (os []int) {
	if k == 0 {
		for t := 0; t < n; t++ {
			if t != tr[0].T {
				os = append(os, t)
			}
		}
	} else {
		for _, u := range append([]int{tr[k-1].T}, tr[k-1].Others...) {
			if u != tr[k].T && !(u == tr[k-1].T && tr[k-1].Ended && !tr[k-1].Forked) {
				os = append(os, u)
			}
		}
	}
	return
}
