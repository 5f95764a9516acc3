package main

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"time"
	"unsafe"

	"github.com/theMPatel/streamvbyte-simdgo/pkg/decode"
	"github.com/theMPatel/streamvbyte-simdgo/pkg/encode"
	"github.com/theMPatel/streamvbyte-simdgo/pkg/stream/reader"
	"github.com/theMPatel/streamvbyte-simdgo/pkg/stream/writer"
	"github.com/theMPatel/streamvbyte-simdgo/pkg/util"
	"verif.local/harness/eng"
	"verif.local/harness/rt/gcpoint"
)

// C26: at every point between statements of the library's Go code the memory
// manager does what it may do at any time.

// deepen needs n KB of stack.
//
//go:noinline
func deepen(n int) byte {
	var b [1024]byte
	b[n&1023] = byte(n)
	if n == 0 {
		return b[5]
	}
	return deepen(n-1) + b[n&511]
}

var (
	memSink              byte
	memMoves, memCollect int64
	memClobber           bool // the runtime overwrites freed memory
)

// grow makes the goroutine's stack move to a larger one and overwrites the
// old one, as any later user of that memory would.
func grow() {
	lo, hi := gcpoint.Stack()
	for k := 0; k < 20 && hi-lo > 1<<18; k++ { // a goroutine of the library that outlives the calls
		runtime.GC()
		lo, hi = gcpoint.Stack()
	}
	var mark byte
	at := uintptr(unsafe.Pointer(&mark))
	memSink += deepen(int(hi-lo)>>10 + 8)
	if l, h := gcpoint.Stack(); l != lo || h != hi {
		memMoves++
		for p := at; p < hi; p += 8 {
			p := p &^ 7
			*(*uint64)(*(*unsafe.Pointer)(unsafe.Pointer(&p))) = 0xdeaddeaddeaddead
		}
	}
}

func collect() {
	lo, hi := gcpoint.Stack()
	runtime.GC()
	memCollect++
	if l, h := gcpoint.Stack(); l != lo || h != hi {
		memMoves++
	}
}

// collected makes a garbage collection and waits for the finalizers.
func collected() {
	done := make(chan bool)
	runtime.SetFinalizer(&struct{ p *int }{new(int)}, func(interface{}) { close(done) })
	runtime.GC()
	select {
	case <-done: // the others may come after it
	case <-time.After(5 * time.Second):
	}
	for k := 0; k < 10; k++ {
		runtime.Gosched()
	}
}

type memEvent struct {
	name string
	pre  bool // with a stack that is large before the call: it shrinks
	do   func()
	gc   bool
}

var memEvents = []memEvent{
	{"a garbage collection", false, collect, true},
	{"a move to a larger stack", false, grow, false},
	{"a garbage collection with a move to a smaller stack", true, collect, true},
	{"a move to a larger stack and a garbage collection", false, func() { grow(); collect() }, true},
}

// memRun executes the call on a goroutine of its own, with events at the
// points p and q. It returns the number of points and what is wrong.
func memRun(k *call, run func(k *call, a *inst), e, f *memEvent, p, q int64, after bool) (points int64, bad string) {
	done := make(chan bool)
	go func() {
		defer close(done)
		defer func() {
			gcpoint.Disarm()
			if r := recover(); r != nil {
				bad = fmt.Sprintf("panic: %v", r)
			}
		}()
		debug.SetPanicOnFault(true)
		if e.pre || f.pre {
			memSink += deepen(120)
		}
		a := k.fresh()
		a.drop = true
		gcpoint.Arm(p, q, func(second bool) {
			if second {
				f.do()
			} else {
				e.do()
			}
		})
		run(k, a)
		points = gcpoint.Disarm()
		bad = k.verdict(a)
		if bad == "" && after {
			// what it returned stays while the caller has it
			for r := 0; r < 3 && bad == ""; r++ {
				collected()
				other := *k // the same call on zeros
				other.inN, other.inB, other.ctrl = make([]uint32, len(k.inN)), make([]byte, len(k.inB)), 0
				b := other.fresh()
				func() {
					defer func() { recover() }()
					run(&other, b)
				}()
				if bad = k.verdict(a); bad != "" {
					bad = "after a later collection and another call: " + bad
				}
			}
		}
		runtime.KeepAlive(a)
	}()
	<-done
	return
}

var memHeap *[64]uint32

//go:noinline
func garbage() uintptr {
	memHeap = new([64]uint32)
	memHeap[9] = 5
	at := uintptr(unsafe.Pointer(memHeap))
	memHeap = nil
	return at
}

func memBegin(c *eng.Ctx) {
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(-1)
	if memClobber {
		return
	}
	at := garbage()
	runtime.GC()
	runtime.GC()
	if *(*uint32)(*(*unsafe.Pointer)(unsafe.Pointer(&at))) != 0xdeadbeef {
		c.Cap("the runtime does not overwrite freed memory")
	}
	memClobber = true
}

func memPhase(name string, ks []*call, run func(k *call, a *inst), events []memEvent) eng.Phase {
	ne := int64(len(events))
	return eng.Phase{Name: name, N: int64(len(ks)) * ne, Run: func(c *eng.Ctx, i int64) {
		k, e := ks[i/ne], &events[i%ne]
		memBegin(c)
		memMoves, memCollect, memOnStack = 0, 0, 0
		points, bad := memRun(k, run, e, e, 0, 0, true)
		if bad != "" {
			c.Fail("%s: %s", k.name, bad)
		}
		for p := int64(1); p <= points; p++ {
			if _, bad := memRun(k, run, e, e, p, 0, false); bad != "" {
				c.Fail("%s, %s before statement %d of %d of the call: %s", k.name, e.name, p, points, bad)
			}
			if p%256 == 0 && !e.gc {
				runtime.GC()
			}
		}
		memDone(c, k, e.name, points)
	}}
}

func memDone(c *eng.Ctx, k *call, what string, n int64) {
	runtime.GC()
	c.Word(int(n)+1, int(n)+1)
	c.Run(int(n) + 1)
	c.Extra("stack moves", memMoves)
	c.Extra("buffers on the goroutine's stack", memOnStack)
	c.Extra("garbage collections", memCollect)
	c.Outcome(uint64(n))
	c.Sample(func() string {
		return fmt.Sprintf("%s, %s: %d executions, %d stack moves", k.name, what, n+1, memMoves)
	})
}

// memPairs: two events, at every pair of points.
func memPairs(name string, ks []*call, run func(k *call, a *inst)) eng.Phase {
	pairs := [][2]int{{0, 0}, {0, 1}, {1, 0}, {1, 1}, {2, 2}}
	ne := int64(len(pairs))
	return eng.Phase{Name: name, N: int64(len(ks)) * ne, Run: func(c *eng.Ctx, i int64) {
		k, e, f := ks[i/ne], &memEvents[pairs[i%ne][0]], &memEvents[pairs[i%ne][1]]
		memBegin(c)
		memMoves, memCollect, memOnStack = 0, 0, 0
		points, _ := memRun(k, run, e, f, 0, 0, false)
		n := int64(0)
		for p := int64(1); p < points; p++ {
			for q := p + 1; q <= points; q++ {
				if _, bad := memRun(k, run, e, f, p, q, q == p+1); bad != "" {
					c.Fail("%s, %s before statement %d and %s before statement %d of %d: %s", k.name, e.name, p, f.name, q, points, bad)
				}
				if n++; n%256 == 0 {
					runtime.GC()
				}
			}
		}
		memDone(c, k, e.name+" and "+f.name, n)
	}}
}

// place notes whether a buffer lies on the goroutine's stack.
func placed(at uintptr) {
	if lo, hi := gcpoint.Stack(); lo <= at && at < hi {
		memOnStack++
	}
}

var memOnStack int64

// stackRuns make the calls with buffers that lie on the stack wherever the
// compiler lets them.
var stackRuns = map[string]func(k *call, a *inst){
	"WriteAll": func(k *call, a *inst) {
		var in [64]uint32
		copy(in[:], k.inN)
		placed(uintptr(unsafe.Pointer(&in[0])))
		a.ret = writer.WriteAll(in[:len(k.inN)])
	},
	"WriteAllDelta": func(k *call, a *inst) {
		var in [64]uint32
		copy(in[:], k.inN)
		placed(uintptr(unsafe.Pointer(&in[0])))
		a.ret = writer.WriteAllDelta(in[:len(k.inN)], callPrev)
	},
	"WriteAllFast": func(k *call, a *inst) {
		var in [64]uint32
		copy(in[:], k.inN)
		placed(uintptr(unsafe.Pointer(&in[0])))
		a.ret = writer.WriteAllFast(in[:len(k.inN)])
	},
	"WriteAllDeltaFast": func(k *call, a *inst) {
		var in [64]uint32
		copy(in[:], k.inN)
		placed(uintptr(unsafe.Pointer(&in[0])))
		a.ret = writer.WriteAllDeltaFast(in[:len(k.inN)], callPrev)
	},
	"WriteAllScalar": func(k *call, a *inst) {
		var in [64]uint32
		copy(in[:], k.inN)
		placed(uintptr(unsafe.Pointer(&in[0])))
		a.ret = writer.WriteAllScalar(in[:len(k.inN)])
	},
	"WriteAllDeltaScalar": func(k *call, a *inst) {
		var in [64]uint32
		copy(in[:], k.inN)
		placed(uintptr(unsafe.Pointer(&in[0])))
		a.ret = writer.WriteAllDeltaScalar(in[:len(k.inN)], callPrev)
	},
	"ReadAll": func(k *call, a *inst) {
		var in [256]byte
		var out [64]uint32
		copy(in[:], k.inB)
		placed(uintptr(unsafe.Pointer(&in[0])))
		placed(uintptr(unsafe.Pointer(&out[0])))
		reader.ReadAll(k.outN, in[:len(k.inB)], out[:k.outN])
		copy(a.outN, out[:])
	},
	"ReadAllDelta": func(k *call, a *inst) {
		var in [256]byte
		var out [64]uint32
		copy(in[:], k.inB)
		placed(uintptr(unsafe.Pointer(&in[0])))
		placed(uintptr(unsafe.Pointer(&out[0])))
		reader.ReadAllDelta(k.outN, in[:len(k.inB)], out[:k.outN], callPrev)
		copy(a.outN, out[:])
	},
	"Get8uint32": func(k *call, a *inst) {
		var in [256]byte
		var out [64]uint32
		copy(in[:], k.inB)
		placed(uintptr(unsafe.Pointer(&in[0])))
		placed(uintptr(unsafe.Pointer(&out[0])))
		decode.Get8uint32(in[:len(k.inB)], out[:k.outN], uint16(k.ctrl))
		copy(a.outN, out[:])
	},
	"Get8uint32Delta": func(k *call, a *inst) {
		var in [256]byte
		var out [64]uint32
		copy(in[:], k.inB)
		placed(uintptr(unsafe.Pointer(&in[0])))
		placed(uintptr(unsafe.Pointer(&out[0])))
		decode.Get8uint32Delta(in[:len(k.inB)], out[:k.outN], uint16(k.ctrl), callPrev)
		copy(a.outN, out[:])
	},
	"ReadAllFast": func(k *call, a *inst) {
		var in [256]byte
		var out [64]uint32
		copy(in[:], k.inB)
		placed(uintptr(unsafe.Pointer(&in[0])))
		placed(uintptr(unsafe.Pointer(&out[0])))
		reader.ReadAllFast(k.outN, in[:len(k.inB)], out[:k.outN])
		copy(a.outN, out[:])
	},
	"ReadAllDeltaFast": func(k *call, a *inst) {
		var in [256]byte
		var out [64]uint32
		copy(in[:], k.inB)
		placed(uintptr(unsafe.Pointer(&in[0])))
		placed(uintptr(unsafe.Pointer(&out[0])))
		reader.ReadAllDeltaFast(k.outN, in[:len(k.inB)], out[:k.outN], callPrev)
		copy(a.outN, out[:])
	},
	"Get8uint32Fast": func(k *call, a *inst) {
		var in [256]byte
		var out [64]uint32
		copy(in[:], k.inB)
		placed(uintptr(unsafe.Pointer(&in[0])))
		placed(uintptr(unsafe.Pointer(&out[0])))
		decode.Get8uint32Fast(in[:len(k.inB)], out[:k.outN], uint16(k.ctrl))
		copy(a.outN, out[:])
	},
	"Get8uint32DeltaFast": func(k *call, a *inst) {
		var in [256]byte
		var out [64]uint32
		copy(in[:], k.inB)
		placed(uintptr(unsafe.Pointer(&in[0])))
		placed(uintptr(unsafe.Pointer(&out[0])))
		decode.Get8uint32DeltaFast(in[:len(k.inB)], out[:k.outN], uint16(k.ctrl), callPrev)
		copy(a.outN, out[:])
	},
	"ReadAllScalar": func(k *call, a *inst) {
		var in [256]byte
		var out [64]uint32
		copy(in[:], k.inB)
		placed(uintptr(unsafe.Pointer(&in[0])))
		placed(uintptr(unsafe.Pointer(&out[0])))
		reader.ReadAllScalar(k.outN, in[:len(k.inB)], out[:k.outN])
		copy(a.outN, out[:])
	},
	"ReadAllDeltaScalar": func(k *call, a *inst) {
		var in [256]byte
		var out [64]uint32
		copy(in[:], k.inB)
		placed(uintptr(unsafe.Pointer(&in[0])))
		placed(uintptr(unsafe.Pointer(&out[0])))
		reader.ReadAllDeltaScalar(k.outN, in[:len(k.inB)], out[:k.outN], callPrev)
		copy(a.outN, out[:])
	},
	"Get8uint32Scalar": func(k *call, a *inst) {
		var in [256]byte
		var out [64]uint32
		copy(in[:], k.inB)
		placed(uintptr(unsafe.Pointer(&in[0])))
		placed(uintptr(unsafe.Pointer(&out[0])))
		decode.Get8uint32Scalar(in[:len(k.inB)], out[:k.outN], uint16(k.ctrl))
		copy(a.outN, out[:])
	},
	"Get8uint32DeltaScalar": func(k *call, a *inst) {
		var in [256]byte
		var out [64]uint32
		copy(in[:], k.inB)
		placed(uintptr(unsafe.Pointer(&in[0])))
		placed(uintptr(unsafe.Pointer(&out[0])))
		decode.Get8uint32DeltaScalar(in[:len(k.inB)], out[:k.outN], uint16(k.ctrl), callPrev)
		copy(a.outN, out[:])
	},
	"Get4uint32Scalar": func(k *call, a *inst) {
		var in [256]byte
		var out [64]uint32
		copy(in[:], k.inB)
		placed(uintptr(unsafe.Pointer(&in[0])))
		placed(uintptr(unsafe.Pointer(&out[0])))
		decode.Get4uint32Scalar(in[:len(k.inB)], out[:k.outN], uint8(k.ctrl))
		copy(a.outN, out[:])
	},
	"Get4uint32DeltaScalar": func(k *call, a *inst) {
		var in [256]byte
		var out [64]uint32
		copy(in[:], k.inB)
		placed(uintptr(unsafe.Pointer(&in[0])))
		placed(uintptr(unsafe.Pointer(&out[0])))
		decode.Get4uint32DeltaScalar(in[:len(k.inB)], out[:k.outN], uint8(k.ctrl), callPrev)
		copy(a.outN, out[:])
	},
	"GetUint32Scalar": func(k *call, a *inst) {
		var in [256]byte
		var out [64]uint32
		copy(in[:], k.inB)
		placed(uintptr(unsafe.Pointer(&in[0])))
		placed(uintptr(unsafe.Pointer(&out[0])))
		a.res = decode.GetUint32Scalar(in[:len(k.inB)], out[:k.outN], uint8(k.ctrl), 3)
		copy(a.outN, out[:])
	},
	"GetUint32DeltaScalar": func(k *call, a *inst) {
		var in [256]byte
		var out [64]uint32
		copy(in[:], k.inB)
		placed(uintptr(unsafe.Pointer(&in[0])))
		placed(uintptr(unsafe.Pointer(&out[0])))
		a.res = decode.GetUint32DeltaScalar(in[:len(k.inB)], out[:k.outN], uint8(k.ctrl), 3, callPrev)
		copy(a.outN, out[:])
	},
	"GetVarint": func(k *call, a *inst) {
		var in [256]byte
		var out [64]uint32
		copy(in[:], k.inB)
		placed(uintptr(unsafe.Pointer(&in[0])))
		placed(uintptr(unsafe.Pointer(&out[0])))
		a.res = util.GetVarint(in[:len(k.inB)], out[:k.outN])
		copy(a.outN, out[:])
	},
	"GetDeltaVarint": func(k *call, a *inst) {
		var in [256]byte
		var out [64]uint32
		copy(in[:], k.inB)
		placed(uintptr(unsafe.Pointer(&in[0])))
		placed(uintptr(unsafe.Pointer(&out[0])))
		a.res = util.GetDeltaVarint(in[:len(k.inB)], out[:k.outN], callPrev)
		copy(a.outN, out[:])
	},
	"Put8uint32": func(k *call, a *inst) {
		var in [64]uint32
		var out [256]byte
		copy(in[:], k.inN)
		placed(uintptr(unsafe.Pointer(&in[0])))
		placed(uintptr(unsafe.Pointer(&out[0])))
		a.res = int(encode.Put8uint32(in[:len(k.inN)], out[:k.outB]))
		copy(a.outB, out[:])
	},
	"Put8uint32Delta": func(k *call, a *inst) {
		var in [64]uint32
		var out [256]byte
		copy(in[:], k.inN)
		placed(uintptr(unsafe.Pointer(&in[0])))
		placed(uintptr(unsafe.Pointer(&out[0])))
		a.res = int(encode.Put8uint32Delta(in[:len(k.inN)], out[:k.outB], callPrev))
		copy(a.outB, out[:])
	},
	"Put8uint32Fast": func(k *call, a *inst) {
		var in [64]uint32
		var out [256]byte
		copy(in[:], k.inN)
		placed(uintptr(unsafe.Pointer(&in[0])))
		placed(uintptr(unsafe.Pointer(&out[0])))
		a.res = int(encode.Put8uint32Fast(in[:len(k.inN)], out[:k.outB]))
		copy(a.outB, out[:])
	},
	"Put8uint32DeltaFast": func(k *call, a *inst) {
		var in [64]uint32
		var out [256]byte
		copy(in[:], k.inN)
		placed(uintptr(unsafe.Pointer(&in[0])))
		placed(uintptr(unsafe.Pointer(&out[0])))
		a.res = int(encode.Put8uint32DeltaFast(in[:len(k.inN)], out[:k.outB], callPrev))
		copy(a.outB, out[:])
	},
	"Put8uint32Scalar": func(k *call, a *inst) {
		var in [64]uint32
		var out [256]byte
		copy(in[:], k.inN)
		placed(uintptr(unsafe.Pointer(&in[0])))
		placed(uintptr(unsafe.Pointer(&out[0])))
		a.res = int(encode.Put8uint32Scalar(in[:len(k.inN)], out[:k.outB]))
		copy(a.outB, out[:])
	},
	"Put8uint32DeltaScalar": func(k *call, a *inst) {
		var in [64]uint32
		var out [256]byte
		copy(in[:], k.inN)
		placed(uintptr(unsafe.Pointer(&in[0])))
		placed(uintptr(unsafe.Pointer(&out[0])))
		a.res = int(encode.Put8uint32DeltaScalar(in[:len(k.inN)], out[:k.outB], callPrev))
		copy(a.outB, out[:])
	},
	"Put4uint32Scalar": func(k *call, a *inst) {
		var in [64]uint32
		var out [256]byte
		copy(in[:], k.inN)
		placed(uintptr(unsafe.Pointer(&in[0])))
		placed(uintptr(unsafe.Pointer(&out[0])))
		a.res = int(encode.Put4uint32Scalar(in[:len(k.inN)], out[:k.outB]))
		copy(a.outB, out[:])
	},
	"Put4uint32DeltaScalar": func(k *call, a *inst) {
		var in [64]uint32
		var out [256]byte
		copy(in[:], k.inN)
		placed(uintptr(unsafe.Pointer(&in[0])))
		placed(uintptr(unsafe.Pointer(&out[0])))
		a.res = int(encode.Put4uint32DeltaScalar(in[:len(k.inN)], out[:k.outB], callPrev))
		copy(a.outB, out[:])
	},
	"PutUint32Scalar": func(k *call, a *inst) {
		var in [64]uint32
		var out [256]byte
		copy(in[:], k.inN)
		placed(uintptr(unsafe.Pointer(&in[0])))
		placed(uintptr(unsafe.Pointer(&out[0])))
		a.res = int(encode.PutUint32Scalar(in[:len(k.inN)], out[:k.outB], 3))
		copy(a.outB, out[:])
	},
	"PutUint32DeltaScalar": func(k *call, a *inst) {
		var in [64]uint32
		var out [256]byte
		copy(in[:], k.inN)
		placed(uintptr(unsafe.Pointer(&in[0])))
		placed(uintptr(unsafe.Pointer(&out[0])))
		a.res = int(encode.PutUint32DeltaScalar(in[:len(k.inN)], out[:k.outB], 3, callPrev))
		copy(a.outB, out[:])
	},
	"PutVarint": func(k *call, a *inst) {
		var in [64]uint32
		var out [256]byte
		copy(in[:], k.inN)
		placed(uintptr(unsafe.Pointer(&in[0])))
		placed(uintptr(unsafe.Pointer(&out[0])))
		a.res = util.PutVarint(in[:len(k.inN)], out[:k.outB])
		copy(a.outB, out[:])
	},
	"PutDeltaVarint": func(k *call, a *inst) {
		var in [64]uint32
		var out [256]byte
		copy(in[:], k.inN)
		placed(uintptr(unsafe.Pointer(&in[0])))
		placed(uintptr(unsafe.Pointer(&out[0])))
		a.res = util.PutDeltaVarint(in[:len(k.inN)], out[:k.outB], callPrev)
		copy(a.outB, out[:])
	},
}

// memCalls: one call per entry point for streams of n numbers; the stream
// calls only if streams is set.
func memCalls(n int, streams bool) (ks []*call) {
	seen := map[string]bool{}
	for _, k := range callCatalog(map[int]int{n: 1}) {
		if seen[k.group] || streams && k.wantRet == nil && (len(k.inB) == 0 || k.group[:4] != "Read") {
			continue
		}
		seen[k.group] = true
		ks = append(ks, k)
	}
	return
}

func init() {
	heap := func(k *call, a *inst) { k.run(a) }
	stack := func(k *call, a *inst) {
		f := stackRuns[k.group]
		if f == nil {
			panic("not listed: " + k.group)
		}
		f(k, a)
	}
	register(&eng.Check{ID: "C26",
		Rule: "for every entry point and stream length: the library's code with a point before every statement; at every point of a call (and at every pair of points for short streams) one of: a garbage collection (freed memory is overwritten by the runtime, the caller keeps no reference to its input), a move of the goroutine's stack to a larger one (the old one is overwritten), a collection that moves it to a smaller one, both; buffers on the heap and, where the compiler permits, on the goroutine's stack; results compared with the model, returned streams again after later collections. state = one execution, transition likewise",
		Assumptions: []string{
			"collections and stack moves are placed between statements (the compiler may leave no place for one there, but another release may, and the rules of package unsafe count on it); the accelerated kernels cannot be interrupted by either",
			"the runtime overwrites what it frees (GODEBUG=clobberfree=1; tested before)",
		},
		Phases: func(tier string) (ps []eng.Phase) {
			one := func(n int, streams bool) {
				ks := memCalls(n, streams)
				ps = append(ps, memPhase(fmt.Sprintf("heap-n%d", n), ks, heap, memEvents))
				if n < 60 {
					ps = append(ps, memPhase(fmt.Sprintf("stack-n%d", n), ks, stack, memEvents))
				}
			}
			pairs := func(n int, streams bool) {
				ks := memCalls(n, streams)
				ps = append(ps, memPairs(fmt.Sprintf("heap-pairs-n%d", n), ks, heap), memPairs(fmt.Sprintf("stack-pairs-n%d", n), ks, stack))
			}
			if tier == "thorough" {
				for n := 0; n < 60; n++ {
					one(n, n != 5)
				}
				one(300, true)
				one(1100, true)
				one(5000, true)
				pairs(3, false)
				pairs(7, true)
				pairs(9, true)
				pairs(17, true)
				pairs(21, true)
				return
			}
			one(5, false)
			for _, n := range []int{1, 21, 41, 300} {
				one(n, true)
			}
			pairs(2, true)
			return
		}})
}
