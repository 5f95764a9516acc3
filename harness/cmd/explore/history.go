package main

import (
	"bytes"
	"cmp"
	"fmt"
	"slices"
	"unsafe"

	"verif.local/harness/eng"
	"verif.local/harness/lib"
	"verif.local/harness/ref"
	"verif.local/harness/rt/state"
)

// held is a result the caller still has.
type held struct {
	by   string
	b    []byte // the stream or byte output itself
	n    []uint32
	cpB  []byte // what it was
	cpN  []uint32
	mine bool // returned by the library
}

// a step is a call or something the caller does to buffers it owns.
type step struct {
	name string
	call *call
	own  func(h *history)
}

// overlap tells whether two slices' memory, to their capacities, intersects.
func overlap(a, b []byte) bool {
	if cap(a) == 0 || cap(b) == 0 {
		return false
	}
	x, y := uintptr(unsafe.Pointer(unsafe.SliceData(a))), uintptr(unsafe.Pointer(unsafe.SliceData(b)))
	return x < y+uintptr(cap(b)) && y < x+uintptr(cap(a))
}

// history executes steps one after another, in the same process.
type history struct {
	args  [][]*inst // [position][step]
	held  []held
	trace []string
	c     *eng.Ctx
}

func (h *history) fail(format string, a ...interface{}) {
	h.c.Fail("after the calls %v: %s", h.trace, fmt.Sprintf(format, a...))
}

// do runs one step at a position of the word and checks its result and all
// results still held.
func (h *history) do(pos int, steps []step, s int) {
	st := &steps[s]
	h.trace = append(h.trace, st.name)
	if st.own != nil {
		st.own(h)
	} else {
		k := st.call
		a := h.args[pos][s]
		copy(a.inN, k.inN)
		copy(a.inB, k.inB)
		k.exec(a)
		if e := k.verdict(a); e != "" {
			h.fail("%s", e)
		}
		if !slices.Equal(a.inN, k.inN) || !bytes.Equal(a.inB, k.inB) {
			h.fail("the input was changed")
		}
		// the input and its buffer belong to the caller
		for i := range a.inN {
			a.inN[i] = 0xa5a5a5a5 ^ uint32(i)
		}
		for i := range a.inB {
			a.inB[i] = 0x5a
		}
		if !k.panics {
			e := held{by: st.name, n: a.outN, b: a.outB}
			if k.wantRet != nil {
				e.b, e.mine = a.ret, true
			}
			if n := len(h.held); n < cap(h.held) {
				h.held = h.held[:n+1]
			} else {
				h.held = append(h.held, held{})
			}
			if e.mine {
				for j := range h.held[:len(h.held)-1] {
					if o := &h.held[j]; overlap(e.b, o.b) {
						h.fail("the stream shares memory (capacity %d) with what %s produced (capacity %d): appending to one changes the other", cap(e.b), o.by, cap(o.b))
					}
				}
				if overlap(e.b, a.inB) || cap(e.b) > 0 && cap(a.inN) > 0 && overlap(e.b, unsafe.Slice((*byte)(unsafe.Pointer(unsafe.SliceData(a.inN))), 4*cap(a.inN))) {
					h.fail("the stream shares memory with the input")
				}
			}
			p := &h.held[len(h.held)-1]
			e.cpB, e.cpN = append(p.cpB[:0], e.b...), append(p.cpN[:0], e.n...)
			*p = e
		}
	}
	for i := range h.held {
		e := &h.held[i]
		if !bytes.Equal(e.b, e.cpB) {
			h.fail("the bytes that %s produced changed: %s", e.by, firstDiffB(e.b, e.cpB))
		}
		if !slices.Equal(e.n, e.cpN) {
			h.fail("the numbers that %s produced changed: %s", e.by, firstDiff32(e.n, e.cpN))
		}
	}
}

func (h *history) reset() { h.held, h.trace = h.held[:0], h.trace[:0] }

// last is the last result returned by the library.
func (h *history) last() *held {
	for i := len(h.held) - 1; i >= 0; i-- {
		if h.held[i].mine {
			return &h.held[i]
		}
	}
	return nil
}

func ownSteps() []step {
	return []step{
		{name: "caller overwrites the last stream and its spare capacity", own: func(h *history) {
			if e := h.last(); e != nil {
				f := e.b[:cap(e.b)]
				for i := range f {
					f[i] = 0xc3
				}
				e.cpB = append(e.cpB[:0], e.b...)
			}
		}},
		{name: "caller appends to the last stream", own: func(h *history) {
			if e := h.last(); e != nil {
				e.b = append(e.b, 0xff, 0xfe, 0xfd, 0xfc, 0xfb)
				e.cpB = append(e.cpB[:0], e.b...)
			}
		}},
		{name: "caller overwrites the spare capacity of every stream", own: func(h *history) {
			for i := range h.held {
				if e := &h.held[i]; e.mine {
					f := e.b[len(e.b):cap(e.b)]
					for j := range f {
						f[j] = 0x3c
					}
				}
			}
		}},
		{name: "caller overwrites the first stream and appends to it", own: func(h *history) {
			for i := range h.held {
				if e := &h.held[i]; e.mine {
					for j := range e.b {
						e.b[j] ^= 0xff
					}
					e.b = append(e.b, 0x11, 0x22, 0x33)
					e.cpB = append(e.cpB[:0], e.b...)
					return
				}
			}
		}},
		{name: "caller clears the last decoded numbers", own: func(h *history) {
			for i := len(h.held) - 1; i >= 0; i-- {
				if e := &h.held[i]; len(e.n) > 0 {
					clear(e.n)
					e.cpN = append(e.cpN[:0], e.n...)
					return
				}
			}
		}},
	}
}

func allSteps(sizes map[int]int) (steps []step) {
	for _, k := range append(callCatalog(sizes), refusedCalls()...) {
		steps = append(steps, step{name: k.name, call: k})
	}
	return append(steps, ownSteps()...)
}

func newHistory(depth int, steps []step) *history {
	h := &history{}
	for p := 0; p < depth; p++ {
		var row []*inst
		for _, s := range steps {
			if s.call == nil {
				row = append(row, nil)
			} else {
				row = append(row, s.call.fresh())
			}
		}
		h.args = append(h.args, row)
	}
	return h
}

// words runs every word of the given length whose first two steps are fixed.
func words(name string, steps []step, depth int) eng.Phase {
	k := int64(len(steps))
	var h *history
	return eng.Phase{Name: name, N: k * k, Run: func(c *eng.Ctx, i int64) {
		if h == nil {
			h = newHistory(depth, steps)
		}
		h.c = c
		w := make([]int, depth)
		w[0], w[1] = int(i/k), int(i%k)
		n := 0
		for {
			h.reset()
			for p, s := range w {
				h.do(p, steps, s)
			}
			n++
			p := depth - 1
			for ; p >= 2; p-- {
				if w[p]++; w[p] < int(k) {
					break
				}
				w[p] = 0
			}
			if p < 2 {
				break
			}
		}
		c.Word(n, n*depth)
		c.Run(n * depth)
		c.Outcome(uint64(i))
		c.Sample(func() string { return fmt.Sprintf("%d words of length %d starting with %v", n, depth, h.trace[:2]) })
	}}
}

func init() {
	register(&eng.Check{ID: "C15",
		Rule: "all words up to the given length over an alphabet of calls (every entry point, several inputs that agree in length, lengths codes, first and last number; calls that are refused with a panic) and caller actions on buffers the caller owns are executed in one process; every result is compared with the model (what a fresh process gives) and every earlier result of the word is compared with its copy after every step; inputs are overwritten after each call. Words follow each other in the same process, so the histories are much longer than the words; every call is also repeated 70000 times. The memory of the library's package-level variables before any call is compared after every call of the alphabet from that state: when no call changes it, the state graph has one state and the words cover all histories. state = one word (resp. one global state), transition = one step.",
		Assumptions: []string{
			"expected results come from the reference model, which is a pure function of the arguments",
			"the state closure covers the module's static data and, in the instrumented build, what its package-level variables reach; the run-time's own state is not part of it",
		},
		Phases: func(tier string) []eng.Phase {
			var ps []eng.Phase
			base := staticData()
			full := allSteps(map[int]int{0: 1, 5: 2, 16: 1, 41: 2})
			few := allSteps(map[int]int{5: 2})
			// the state closure comes first: nothing has been called yet
			ps = append(ps, eng.Phase{Name: "closure", N: 1, Serial: true, Run: func(c *eng.Ctx, i int64) {
				if state.Count() > 0 {
					state.Snapshot()
				}
				syms, err := base()
				if err != nil {
					c.Cap("static data could not be read: " + err.Error())
				}
				every := append(slices.Clone(full), allSteps(map[int]int{300: 1, 1100: 1, 17000: 1, 70000: 1})...)
				h := newHistory(1, every)
				h.c = c
				for s := range every {
					h.reset()
					h.do(0, every, s)
					c.Run(1)
					if v := syms.changed(); v != "" {
						c.Cap(fmt.Sprintf("%s changes the package-level variable %s: the state graph has more than one state and only histories up to the stated lengths are covered", every[s].name, v))
						c.Extra("calls that change global state", 1)
						break
					}
					if state.Count() > 0 {
						if v := state.Changed(); v != "" {
							c.Cap(fmt.Sprintf("%s changes what the variable %s reaches: the state graph has more than one state and only histories up to the stated lengths are covered", every[s].name, v))
							c.Extra("calls that change global state", 1)
							break
						}
					}
				}
				c.Word(1, len(every))
				c.Extra("bytes of static data compared", int64(syms.size))
				c.Extra("static data symbols", int64(len(syms.names)))
				c.Extra("package-level variables followed", int64(state.Count()))
			}})
			if tier == "closure" {
				return ps
			}
			ps = append(ps, neighbourPhase(tier, nil))
			ps = append(ps, words(fmt.Sprintf("words-3-of-%d", len(full)), full, 3))
			ps = append(ps, words(fmt.Sprintf("words-4-of-%d", len(few)), few, 4))
			if tier == "thorough" {
				ps = append(ps, words(fmt.Sprintf("words-4-of-%d", len(full)), full, 4))
				ps = append(ps, words(fmt.Sprintf("words-5-of-%d", len(few)), few, 5))
			}
			// long streams, where pooled or cached buffers may be handled
			// differently
			large := []int{130, 1100, 4200, 17000, 70000}
			if tier == "thorough" {
				large = append(large, 66000, 263000, 1050000)
			}
			for _, n := range large {
				ks := []step{}
				for _, st := range allSteps(map[int]int{n: 2}) {
					if st.own != nil || !st.call.panics && (len(st.call.inN) == n || st.call.outN == n) {
						ks = append(ks, st)
					}
				}
				depth := 3
				if n > 100000 {
					depth = 2
				}
				ps = append(ps, words(fmt.Sprintf("words-%d-of-%d-streams-of-%d", depth, len(ks), n), ks, depth))
			}
			mixed := []step{}
			for _, st := range allSteps(map[int]int{0: 1, 33: 1, 1100: 1, 17000: 1, 70000: 1}) {
				if st.own != nil || !st.call.panics && st.call.outB == 0 && st.call.outN != 8 && (st.call.wantRet != nil || st.call.outN > 8) {
					mixed = append(mixed, st)
				}
			}
			ps = append(ps, words(fmt.Sprintf("words-3-of-%d-streams-of-mixed-size", len(mixed)), mixed, 3))
			// all results of very many calls kept at the same time
			keep := 3000
			if tier == "thorough" {
				keep = 40000
			}
			ps = append(ps, eng.Phase{Name: fmt.Sprintf("keep-%d", keep), N: int64(len(full)), Run: func(c *eng.Ctx, i int64) {
				st := &full[i]
				if st.own != nil || st.call.panics {
					return
				}
				k := st.call
				var all []*inst
				type span struct{ lo, hi uintptr }
				var spans []span
				for t := 0; t < keep; t++ {
					a := k.fresh()
					k.exec(a)
					all = append(all, a)
					if b := a.ret; cap(b) > 0 {
						p := uintptr(unsafe.Pointer(unsafe.SliceData(b)))
						spans = append(spans, span{p, p + uintptr(cap(b))})
					}
				}
				for t, a := range all {
					if e := k.verdict(a); e != "" {
						c.Fail("%s repeated %d times, all results kept: result %d: %s", st.name, keep, t, e)
					}
				}
				slices.SortFunc(spans, func(a, b span) int { return cmp.Compare(a.lo, b.lo) })
				for t := 1; t < len(spans); t++ {
					if spans[t].lo < spans[t-1].hi {
						c.Fail("%s repeated %d times: two of the returned streams share memory", st.name, keep)
					}
				}
				c.Word(1, keep)
				c.Run(keep)
			}})
			// one case: one control byte; after every refused call on data with
			// it, accepted calls with that control byte
			ps = append(ps, eng.Phase{Name: "after-every-refused-call", N: 256, Run: func(c *eng.Ctx, i int64) {
				b := uint8(i)
				codes := make([]uint8, 24)
				for l := range codes {
					codes[l] = b >> (2 * uint(l%4)) & 3
				}
				d := numbers(nil, codes, 2)
				sums := ref.Sums(d, callPrev, nil)
				out := make([]uint32, len(d))
				var o, o2 [8]uint32
				var buf [32]byte
				calls := 0
				refused := refusedFor(b, func(name string) {
					bad := func(by string) {
						c.Fail("after a refused call of %s (control byte %#02x), %s gives another result", name, b, by)
					}
					for _, n := range [...]int{3, 24} {
						w := ref.Encode(d[:n])
						if s := lib.Writers[1].F(d[:n]); !bytes.Equal(s, w) {
							bad("WriteAllScalar")
						}
						if s := lib.DeltaWriters[1].F(sums[:n], callPrev); !bytes.Equal(s, w) {
							bad("WriteAllDeltaScalar")
						}
						for k := range lib.Readers {
							lib.Readers[k].F(n, w, out)
							if !slices.Equal(out[:n], d[:n]) {
								bad(lib.Readers[k].Name)
							}
							lib.DeltaReaders[k].F(n, w, out, callPrev)
							if !slices.Equal(out[:n], sums[:n]) {
								bad(lib.DeltaReaders[k].Name)
							}
						}
						calls += 8
					}
					for k := range lib.Put8 {
						ctrl := lib.Put8[k].F(d, buf[:])
						lib.Get8[k].F(buf[:], o[:], ctrl)
						ctrl2 := lib.Put8Delta[k].F(sums, buf[:], callPrev)
						lib.Get8Delta[k].F(buf[:], o2[:], ctrl2, callPrev)
						if !slices.Equal(o[:], d[:8]) || ctrl != uint16(b)<<8|uint16(b) {
							bad(lib.Put8[k].Name + " or " + lib.Get8[k].Name)
						}
						if !slices.Equal(o2[:], sums[:8]) || ctrl2 != ctrl {
							bad(lib.Put8Delta[k].Name + " or " + lib.Get8Delta[k].Name)
						}
						calls += 4
					}
				})
				// and all other control bytes
				for x := 0; x < 256; x++ {
					for l := range codes {
						codes[l] = uint8(x) >> (2 * uint(l%4)) & 3
					}
					d = numbers(d, codes, 2)
					w := ref.Encode(d)
					for k := range lib.Writers {
						if s := lib.Writers[k].F(d); !bytes.Equal(s, w) {
							c.Fail("after refused calls (control byte %#02x), %s gives another result for control byte %#02x", b, lib.Writers[k].Name, x)
						}
						lib.Readers[k].F(len(d), w, out)
						if !slices.Equal(out, d) {
							c.Fail("after refused calls (control byte %#02x), %s gives another result for control byte %#02x", b, lib.Readers[k].Name, x)
						}
					}
				}
				c.Word(refused, refused+calls)
				c.Run(refused + calls)
			}})
			times := 70000
			if tier == "thorough" {
				times = 2000000
			}
			ps = append(ps, eng.Phase{Name: fmt.Sprintf("repeat-%d", times), N: int64(len(full) + 1), Run: func(c *eng.Ctx, i int64) {
				h := newHistory(1, full)
				h.c = c
				for t := 0; t < times; t++ {
					s := int(i)
					if s == len(full) {
						s = t % len(full)
					}
					h.reset()
					h.do(0, full, s)
				}
				c.Word(1, times)
				c.Run(times)
			}})
			return ps
		}})
}
