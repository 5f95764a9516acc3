package main

import (
	"bytes"
	"fmt"

	"verif.local/harness/eng"
	"verif.local/harness/lib"
	"verif.local/harness/mem"
	"verif.local/harness/ref"
	"verif.local/harness/rt/galloc"
)

// C09 runs against a copy of the library whose make([]byte) calls are served
// by galloc.
func init() {
	var m arenas
	var cbuf []uint8
	var nums, sums []uint32
	var stream []byte
	register(&eng.Check{ID: "C09",
		Rule: "every sequence shape of the enumerated spaces is encoded by every writer in a copy of the library in which the buffers it makes end (then start) exactly at an unmapped page, from an input slice that ends (then starts) exactly at an unmapped page, once more with a capacity that reaches into such pages; an access outside faults, the bytes on the other side are compared afterwards, and the stream is compared with the model. state = one sequence, transition = one number of it, trace = one encoding run.",
		Assumptions: []string{
			"only buffers made with make are placed against unmapped pages; the evidence counts the streams that were",
			"the buffers start zeroed, as make guarantees",
		},
		Phases: func(tier string) []eng.Phase {
			var ps []eng.Phase
			for _, sp := range memShapes(tier) {
				sp := sp
				ps = append(ps, eng.Phase{Name: sp.name, N: sp.n, Run: func(c *eng.Ctx, i int64) {
					codes, mode := sp.gen(i, cbuf)
					cbuf = codes
					n := len(codes)
					nums = numbers(nums, codes, mode)
					prev := prevs[i%int64(len(prevs))]
					sums = ref.Sums(nums, prev, sums)
					stream = ref.EncodeTo(stream, nums)
					m.need(4*n, 0)
					for pl := 0; pl < 3; pl++ {
						off := 0
						if pl != 1 {
							off = m.a.Size - 4*n
						}
						ro := m.a.RONums(off, n)
						if pl == 2 {
							ro = mem.Spare(ro, mem.Spares[i%8]/4)
						}
						try := func(name string, src []uint32, f func() []byte) {
							copy(m.a.Nums(off, n), src)
							var got []byte
							galloc.Begin(pl != 1)
							r := mem.Try(func() { got = f() })
							bad := galloc.End()
							where := []string{"buffers ending at an unmapped page", "buffers starting after an unmapped page", "buffers ending at an unmapped page, the input's capacity being larger"}[pl]
							if r != nil {
								s := m.describe(r, "input", off, 4*n, "", 0, 0)
								if ad, ok := r.(interface{ Addr() uintptr }); ok {
									s += " " + galloc.Where(ad.Addr())
								}
								c.Fail("%s(%s), %s: %s", name, clip(src), where, s)
							}
							if bad != "" {
								c.Fail("%s(%s), %s: %s", name, clip(src), where, bad)
							}
							if !bytes.Equal(got, stream) {
								c.Fail("%s(%s), %s: %s", name, clip(src), where, firstDiffB(got, stream))
							}
							if galloc.Holds(got) {
								c.Extra("streams in guarded memory", 1)
							} else {
								c.Extra("streams elsewhere", 1)
								c.Cap("some streams were not made with make: their buffers were not guarded")
							}
							if galloc.Margins() {
								c.Cap("some buffers that are not the stream itself were not placed at unmapped pages: only writes next to them were looked for")
							}
							c.Run(1)
						}
						for _, w := range lib.Writers {
							try(w.Name, nums, func() []byte { return w.F(ro) })
						}
						for _, w := range lib.DeltaWriters {
							try(w.Name, sums, func() []byte { return w.F(ro, prev) })
						}
					}
					c.Word(1, n)
					c.Outcome(hashB(stream))
					c.Sample(func() string { return fmt.Sprintf("%d numbers %s, %d bytes", n, clip(nums), len(stream)) })
				}})
			}
			return ps
		}})
}
