// Package gcpoint makes something happen before chosen statements of an
// instrumented copy of the library.
package gcpoint

import "sync/atomic"

var (
	on    atomic.Bool
	count atomic.Int64
	first int64 // the numbers of the points at which it happens, 0: never
	then  int64
	event func(second bool)
)

// Arm makes f happen at the two points with these numbers, from now on.
func Arm(a, b int64, f func(second bool)) {
	first, then, event = a, b, f
	count.Store(0)
	on.Store(true)
}

// Disarm ends that and returns the number of points passed.
func Disarm() int64 {
	on.Store(false)
	return count.Load()
}

// Point is called before every statement.
//
//go:noinline
func Point() {
	if !on.Load() {
		return
	}
	n := count.Add(1)
	if n == first {
		event(false)
	}
	if n == then {
		event(true)
	}
}
