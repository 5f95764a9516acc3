package main

import (
	"bytes"
	"fmt"
	"slices"

	"verif.local/harness/eng"
	"verif.local/harness/lib"
	"verif.local/harness/ref"
)

// C15: calls of one entry point that differ in one thing. The caller has two
// sets of buffers and uses them again and again, as callers do: a result that
// is remembered for too little of the arguments (an address, a length, a
// count, some of the numbers, the start value) comes back for a neighbour.

// args are the arguments of a call; n is the count given to readers, ctrl the
// control word given to block decoders.
type args struct {
	nums []uint32
	b    []byte
	n    int
	prev uint32
	ctrl uint16
	what string // how it differs from the base
}

// desk is a set of buffers of the caller.
type desk struct {
	in  []uint32
	b   []byte
	out []uint32
	o   []byte
}

// entry calls the library and compares with the model.
type entry struct {
	name  string
	write bool // takes numbers
	delta bool
	block bool
	run   func(d *desk, a *args) (ret []byte, bad string)
}

func entries(block bool) (es []entry) {
	if block {
		for k := range lib.Put8 {
			put := func(name string, f func(a *args, d *desk) uint16, delta bool) {
				es = append(es, entry{name, true, delta, true, func(d *desk, a *args) ([]byte, string) {
					nums := a.nums
					if delta {
						nums = ref.Diffs(nums, a.prev, nil)
					}
					w := ref.Encode(nums)
					ctrl := f(a, d)
					if want := uint16(ctrlOf(w, 8)); ctrl != want {
						return nil, fmt.Sprintf("returned %#04x, want %#04x", ctrl, want)
					}
					if !bytes.Equal(d.o[:len(w)-2], w[2:]) {
						return nil, "bytes: " + firstDiffB(d.o[:len(w)-2], w[2:])
					}
					return nil, ""
				}})
			}
			p, pd := lib.Put8[k], lib.Put8Delta[k]
			put(p.Name, func(a *args, d *desk) uint16 { return p.F(d.in[:8], d.o[:32]) }, false)
			put(pd.Name, func(a *args, d *desk) uint16 { return pd.F(d.in[:8], d.o[:32], a.prev) }, true)
		}
		for k := range lib.Get8 {
			get := func(name string, f func(a *args, d *desk), delta bool) {
				es = append(es, entry{name, false, delta, true, func(d *desk, a *args) ([]byte, string) {
					want := ref.DecodeSplit(8, []byte{byte(a.ctrl), byte(a.ctrl >> 8)}, d.b, nil)
					if delta {
						want = ref.Sums(want, a.prev, nil)
					}
					f(a, d)
					if !slices.Equal(d.out[:8], want) {
						return nil, "numbers: " + firstDiff32(d.out[:8], want)
					}
					return nil, ""
				}})
			}
			g, gd := lib.Get8[k], lib.Get8Delta[k]
			get(g.Name, func(a *args, d *desk) { g.F(d.b[:32], d.out[:8], a.ctrl) }, false)
			get(gd.Name, func(a *args, d *desk) { gd.F(d.b[:32], d.out[:8], a.ctrl, a.prev) }, true)
		}
		return
	}
	for _, w := range lib.Writers {
		es = append(es, entry{w.Name, true, false, false, func(d *desk, a *args) ([]byte, string) {
			s := w.F(d.in[:len(a.nums)])
			if want := ref.Encode(a.nums); !bytes.Equal(s, want) {
				return s, "stream: " + firstDiffB(s, want)
			}
			return s, ""
		}})
	}
	for _, w := range lib.DeltaWriters {
		es = append(es, entry{w.Name, true, true, false, func(d *desk, a *args) ([]byte, string) {
			s := w.F(d.in[:len(a.nums)], a.prev)
			if want := ref.Encode(ref.Diffs(a.nums, a.prev, nil)); !bytes.Equal(s, want) {
				return s, "stream: " + firstDiffB(s, want)
			}
			return s, ""
		}})
	}
	for _, r := range lib.Readers {
		es = append(es, entry{r.Name, false, false, false, func(d *desk, a *args) ([]byte, string) {
			r.F(a.n, d.b[:len(a.b)], d.out[:a.n])
			if want := ref.Decode(a.n, a.b, nil); !slices.Equal(d.out[:a.n], want) {
				return nil, "numbers: " + firstDiff32(d.out[:a.n], want)
			}
			return nil, ""
		}})
	}
	for _, r := range lib.DeltaReaders {
		es = append(es, entry{r.Name, false, true, false, func(d *desk, a *args) ([]byte, string) {
			r.F(a.n, d.b[:len(a.b)], d.out[:a.n], a.prev)
			if want := ref.Sums(ref.Decode(a.n, a.b, nil), a.prev, nil); !slices.Equal(d.out[:a.n], want) {
				return nil, "numbers: " + firstDiff32(d.out[:a.n], want)
			}
			return nil, ""
		}})
	}
	return
}

// withNeighbours adds the phase to the checks of the single functions.
func withNeighbours(ck *eng.Check) {
	keep := map[string]func(e *entry) bool{
		"C01": func(e *entry) bool { return !e.block && !e.delta },
		"C02": func(e *entry) bool { return !e.block && e.delta },
		"C03": func(e *entry) bool { return !e.block && !e.delta && e.write },
		"C04": func(e *entry) bool { return !e.block && e.delta && e.write },
		"C05": func(e *entry) bool { return !e.block && !e.write },
		"C06": func(e *entry) bool { return e.block && e.write },
		"C07": func(e *entry) bool { return e.block && !e.write },
	}[ck.ID]
	if keep == nil {
		return
	}
	phases := ck.Phases
	ck.Phases = func(tier string) []eng.Phase {
		ps := phases(tier)
		if !reduced(tier) {
			ps = append([]eng.Phase{neighbourPhase(tier, keep)}, ps...)
		}
		return ps
	}
}

// spots are the positions of n that are changed: all of a short word, the
// first and last ones and those around multiples of powers of two of a longer.
func spots(n, all int) (ps []int) {
	for p := 0; p < n; p++ {
		switch {
		case n <= all, p < 9, p >= n-9:
		case p&(p-1) == 0, p&(p+1) == 0, p == n/2, p == n/3, p == 2*n/3, p == n-17, p == n-33, p == n-64:
		default:
			continue
		}
		ps = append(ps, p)
	}
	return
}

// neighbours lists the base arguments and those that differ in one thing.
func neighbours(e *entry, n, all int) (as []args) {
	d := callData(n, 0)
	prevs := []uint32{callPrev, 0, 1, callPrev ^ 1<<8, callPrev ^ 1<<16, callPrev ^ 1<<31}
	if !e.delta {
		prevs = prevs[:1]
	}
	base := args{n: n, prev: callPrev, what: "the same arguments"}
	var counts []int
	if e.write {
		base.nums = d
		if e.delta {
			base.nums = ref.Sums(d, callPrev, nil)
		}
	} else {
		base.b = ref.Encode(d)
		if e.block {
			base.ctrl = uint16(ctrlOf(base.b, 8))
			base.b = append(base.b[2:], make([]byte, 40)...)[:32]
		}
	}
	as = append(as, base)
	for _, p := range prevs[1:] {
		a := base
		a.prev, a.what = p, fmt.Sprintf("start value %#x", p)
		as = append(as, a)
	}
	if !e.block {
		for _, c := range []int{1, 2, 3, 4, 5, 8, 16, 32, n / 2, n - 1} {
			if c > 0 && c < n && !slices.Contains(counts, n-c) {
				counts = append(counts, n-c)
			}
		}
	}
	for _, c := range counts {
		a := base
		a.n, a.what = c, fmt.Sprintf("the first %d", c)
		if e.write {
			a.nums = base.nums[:c]
		}
		as = append(as, a)
	}
	if e.write {
		for _, p := range spots(n, all) {
			// the number changes, in the same length; in another length; with the
			// opposite change of its neighbour (sums stay)
			for v := 0; v < 3; v++ {
				a := base
				a.nums = slices.Clone(base.nums)
				switch v {
				case 0:
					a.nums[p] ^= 1
				case 1:
					a.nums[p] ^= 1 << 30
				case 2:
					if p+1 >= n || a.nums[p] == a.nums[p+1] {
						continue
					}
					a.nums[p], a.nums[p+1] = a.nums[p+1], a.nums[p]
				}
				a.what = fmt.Sprintf("number %d changed to %#x", p, a.nums[p])
				as = append(as, a)
			}
		}
		return
	}
	ctl := ref.CtrlLen(n)
	if e.block {
		ctl = 0
		for k := 0; k < 16; k += 2 {
			for v := uint16(1); v < 4; v++ {
				a := base
				a.ctrl ^= v << k
				a.what = fmt.Sprintf("control word %#04x", a.ctrl)
				as = append(as, a)
			}
		}
	}
	last := len(base.b) - ctl
	if e.block {
		last = ref.Size8(base.ctrl)
	}
	for _, p := range spots(last, all) {
		a := base
		a.b = bytes.Clone(base.b)
		a.b[ctl+p] ^= 0x40
		a.what = fmt.Sprintf("data byte %d changed to %#x", p, a.b[ctl+p])
		as = append(as, a)
	}
	// two codes swapped between numbers: another stream of the same length
	if !e.block {
		for _, p := range spots(ctl, all) {
			b := base.b[p]
			r := b>>2 | b<<6 // the same lengths in another order
			if r == b || p == ctl-1 {
				continue
			}
			a := base
			a.b = bytes.Clone(base.b)
			a.b[p] = r
			a.what = fmt.Sprintf("control byte %d changed to %#x", p, r)
			as = append(as, a)
		}
	}
	return
}

// neighbourPhase: the entry points that keep (nil: all of them).
func neighbourPhase(tier string, keep func(e *entry) bool) eng.Phase {
	sizes := []int{1, 2, 3, 4, 5, 7, 8, 9, 12, 16, 17, 31, 32, 33, 41, 63, 64, 65, 100, 128, 130, 256, 300, 513, 1024, 1100, 4099, 5000, 16400, 66000, 131072}
	all := 300
	if tier == "thorough" {
		sizes = append(sizes, 6, 10, 11, 20, 24, 28, 48, 96, 127, 129, 192, 255, 257, 400, 511, 512, 1000, 2048, 3000, 8200, 33000, 262150)
		all = 1100
	}
	type job struct {
		e entry
		n int
	}
	var jobs []job
	for _, n := range sizes {
		for _, e := range entries(false) {
			if keep == nil || keep(&e) {
				jobs = append(jobs, job{e, n})
			}
		}
	}
	for _, e := range entries(true) {
		if keep == nil || keep(&e) {
			jobs = append(jobs, job{e, 8})
		}
	}
	return eng.Phase{Name: "neighbours", N: int64(len(jobs)), Run: func(c *eng.Ctx, i int64) {
		e, n := &jobs[i].e, jobs[i].n
		var ds [2]desk
		for k := range ds {
			ds[k] = desk{make([]uint32, n+8), make([]byte, 5*n+48), make([]uint32, n+8), make([]byte, 40)}
		}
		var ret, retCp []byte
		runs := 0
		do := func(k int, a, before *args) {
			d := &ds[k]
			copy(d.in, a.nums)
			copy(d.b, a.b)
			for l := range d.out { // the caller has used it otherwise meanwhile
				d.out[l] = 0x77777777 ^ uint32(runs)
			}
			for l := range d.o {
				d.o[l] = 0x77
			}
			r, bad := e.run(d, a)
			runs++
			if bad != "" {
				c.Fail("%s of %d numbers, after a call with %s, now with %s (buffers %d): %s", e.name, n, before.what, a.what, k, bad)
			}
			if r != nil {
				if !bytes.Equal(ret, retCp) {
					c.Fail("%s of %d numbers: the stream returned before changed: %s", e.name, n, firstDiffB(ret, retCp))
				}
				if overlap(r, ret) {
					c.Fail("%s of %d numbers: two returned streams share memory", e.name, n)
				}
				ret, retCp = r, append(retCp[:0], r...)
			}
		}
		as := neighbours(e, n, all)
		base := &as[0]
		for k := range as {
			a := &as[k]
			do(0, base, a)
			do(0, base, base) // remembered now, if ever
			do(0, a, base)
			do(0, base, a)
			do(1, a, base)
			do(1, base, a)
			do(0, a, base)
		}
		c.Word(len(as), runs)
		c.Run(runs)
		c.Outcome(uint64(i))
		c.Sample(func() string {
			return fmt.Sprintf("%s of %d numbers: %d neighbours, the last: %s", e.name, n, len(as), as[len(as)-1].what)
		})
	}}
}
