package main

import (
	"bytes"
	"fmt"
	"slices"

	"github.com/theMPatel/streamvbyte-simdgo/pkg/decode"
	"github.com/theMPatel/streamvbyte-simdgo/pkg/encode"
	"github.com/theMPatel/streamvbyte-simdgo/pkg/shared"

	"verif.local/harness/eng"
	"verif.local/harness/lib"
	"verif.local/harness/ref"
)

// putOp encodes some numbers at the current position.
type putOp struct {
	name string
	n    int
	put  func(in []uint32, out []byte, n int) uint16
	putD func(in []uint32, out []byte, n int, prev uint32) uint16
}

type getOp struct {
	name string
	n    int
	get  func(in []byte, out []uint32, ctrl uint16, n int) int // -1: size not returned
	getD func(in []byte, out []uint32, ctrl uint16, n int, prev uint32) int
}

func putOps() (ops []putOp) {
	for k := range lib.Put8 {
		p, d := lib.Put8[k], lib.Put8Delta[k]
		ops = append(ops, putOp{p.Name, 8,
			func(in []uint32, out []byte, n int) uint16 { return p.F(in, out) },
			func(in []uint32, out []byte, n int, prev uint32) uint16 { return d.F(in, out, prev) }})
	}
	return append(ops,
		putOp{"Put4uint32Scalar", 4,
			func(in []uint32, out []byte, n int) uint16 { return uint16(encode.Put4uint32Scalar(in, out)) },
			func(in []uint32, out []byte, n int, prev uint32) uint16 {
				return uint16(encode.Put4uint32DeltaScalar(in, out, prev))
			}},
		putOp{"PutUint32Scalar", 0,
			func(in []uint32, out []byte, n int) uint16 { return uint16(encode.PutUint32Scalar(in, out, n)) },
			func(in []uint32, out []byte, n int, prev uint32) uint16 {
				return uint16(encode.PutUint32DeltaScalar(in, out, n, prev))
			}})
}

func getOps() (ops []getOp) {
	for k := range lib.Get8 {
		g, d := lib.Get8[k], lib.Get8Delta[k]
		ops = append(ops, getOp{g.Name, 8,
			func(in []byte, out []uint32, ctrl uint16, n int) int { g.F(in, out, ctrl); return -1 },
			func(in []byte, out []uint32, ctrl uint16, n int, prev uint32) int {
				d.F(in, out, ctrl, prev)
				return -1
			}})
	}
	return append(ops,
		getOp{"Get4uint32Scalar", 4,
			func(in []byte, out []uint32, ctrl uint16, n int) int {
				decode.Get4uint32Scalar(in, out, uint8(ctrl))
				return -1
			},
			func(in []byte, out []uint32, ctrl uint16, n int, prev uint32) int {
				decode.Get4uint32DeltaScalar(in, out, uint8(ctrl), prev)
				return -1
			}},
		getOp{"GetUint32Scalar", 0,
			func(in []byte, out []uint32, ctrl uint16, n int) int {
				return decode.GetUint32Scalar(in, out, uint8(ctrl), n)
			},
			func(in []byte, out []uint32, ctrl uint16, n int, prev uint32) int {
				return decode.GetUint32DeltaScalar(in, out, uint8(ctrl), n, prev)
			}})
}

const compPatterns = 12

// compNumbers: pattern pt of n numbers.
func compNumbers(n, pt int) []uint32 {
	v := make([]uint32, n)
	for p := range v {
		var cl uint8
		switch pt {
		case 0, 1, 2, 3:
			cl = uint8(pt)
		case 4:
			cl = uint8(p)
		case 5:
			cl = uint8(3 - p%4)
		case 6:
			cl = uint8(p/4) & 3
		case 7:
			cl = 3 * uint8(p/8&1)
		case 8:
			cl = 3 * uint8(p&1)
		default:
			cl = uint8((p*p+p*pt)>>2) & 3
		}
		v[p] = number(cl&3, []int{2, 1, 4}[pt%3], p)
	}
	return v
}

func init() {
	register(&eng.Check{ID: "C16",
		Rule: "all ways of assembling (and of consuming) a stream of n numbers from the block functions are walked as paths of a transition system whose state is (numbers done, control bytes, data bytes) and whose transitions are the block calls; at every transition the control word, the data position given by the size functions and the values are compared with the model, and at the end the whole stream with every stream writer's. All positions of one and two cuts of a differential sequence, for all writers and readers. state = one node of the path tree, transition = one block call.",
		Assumptions: []string{
			"block buffers have room for 32 bytes after the current position; each block call is tried on every path, fill patterns per count are listed in compNumbers",
		},
		Phases: func(tier string) []eng.Phase {
			maxQ, maxCut := 11, 64
			if tier == "thorough" {
				maxQ, maxCut = 13, 120
			}
			if reduced(tier) {
				maxQ, maxCut = 6, 20
			}
			puts, gets := putOps(), getOps()
			var ps []eng.Phase
			ps = append(ps, eng.Phase{Name: fmt.Sprintf("assemble-to-%d-quads", maxQ), N: int64((4*maxQ + 4) * compPatterns * 2), Run: func(c *eng.Ctx, i int64) {
				delta := i&1 == 1
				pt := int(i / 2 % compPatterns)
				n := int(i / 2 / compPatterns)
				d := compNumbers(n, pt)
				start := prevs[pt%len(prevs)]
				src := d
				if delta {
					src = ref.Sums(d, start, nil)
				}
				want := ref.Encode(d)
				cl := ref.CtrlLen(n)
				buf := make([]byte, len(want)+64)
				path := make([]string, 0, 16)
				nodes, steps := 0, 0
				var walk func(pos, dp int)
				walk = func(pos, dp int) {
					nodes++
					if pos == n {
						if dp != len(want) || !bytes.Equal(buf[:dp], want) {
							c.Fail("%d numbers %s assembled by %v: %s", n, clip(src), path, firstDiffB(buf[:dp], want))
						}
						return
					}
					prev := start
					if pos > 0 {
						prev = src[pos-1]
					}
					for _, op := range puts {
						k := op.n
						if k == 0 {
							k = min(4, n-pos)
						}
						if pos+k > n {
							continue
						}
						steps++
						var ctrl uint16
						if delta {
							ctrl = op.putD(src[pos:], buf[dp:], k, prev)
						} else {
							ctrl = op.put(src[pos:], buf[dp:], k)
						}
						np := dp
						path = append(path, fmt.Sprintf("%s@%d", op.name, pos))
						if k == 8 {
							buf[pos/4], buf[pos/4+1] = byte(ctrl), byte(ctrl>>8)
							np += shared.ControlByteToSizeTwo(ctrl)
						} else {
							buf[pos/4] = byte(ctrl)
							np += shared.ControlByteToSize(uint8(ctrl)) - (4 - k)
						}
						if np > len(want) || np < cl || !bytes.Equal(buf[dp:np], want[dp:np]) {
							c.Fail("%d numbers %s assembled by %v: data bytes %d..%d are % x, want % x", n, clip(src), path, dp, np, buf[dp:min(np, len(buf))], want[dp:min(np, len(want))])
						}
						walk(pos+k, np)
						path = path[:len(path)-1]
					}
				}
				walk(0, cl)
				for k := range lib.Writers {
					var got []byte
					if delta {
						got = lib.DeltaWriters[k].F(src, start)
					} else {
						got = lib.Writers[k].F(src)
					}
					if !bytes.Equal(got, want) {
						c.Fail("%s(%s): %s", lib.Writers[k].Name, clip(src), firstDiffB(got, want))
					}
				}
				c.Word(nodes, steps)
				c.Run(steps + len(lib.Writers))
				c.Extra("paths explored", int64(nodes))
				c.Outcome(hashB(want))
				c.Sample(func() string { return fmt.Sprintf("%d numbers %s, differential %v", n, clip(src), delta) })
			}})
			ps = append(ps, eng.Phase{Name: fmt.Sprintf("consume-to-%d-quads", maxQ), N: int64((4*maxQ + 4) * compPatterns * 2), Run: func(c *eng.Ctx, i int64) {
				delta := i&1 == 1
				pt := int(i / 2 % compPatterns)
				n := int(i / 2 / compPatterns)
				start := prevs[pt%len(prevs)]
				var stream []byte
				if pt < 6 { // canonical
					stream = ref.Encode(compNumbers(n, pt))
				} else { // any lengths
					var cd []uint8
					for p := 0; p < n; p++ {
						cd = append(cd, uint8((p*p+p*pt)>>1)&3)
					}
					stream = append(ctrlBytes(nil, cd, uint8(pt*51)), dataBytes(nil, cd, pt%3)...)
				}
				vals := ref.Decode(n, stream, nil)
				want := vals
				if delta {
					want = ref.Sums(vals, start, nil)
				}
				cl := ref.CtrlLen(n)
				buf := append(append([]byte{}, stream...), make([]byte, 64)...)
				out := make([]uint32, n)
				nodes, steps := 0, 0
				path := make([]string, 0, 16)
				var walk func(pos, dp int)
				walk = func(pos, dp int) {
					nodes++
					if pos == n {
						if dp != len(stream) {
							c.Fail("stream % x consumed by %v: position %d, want %d", clipCtl(stream), path, dp, len(stream))
						}
						return
					}
					for _, op := range gets {
						k := op.n
						if k == 0 {
							k = min(4, n-pos)
						}
						if pos+k > n {
							continue
						}
						steps++
						for l := 0; l < k; l++ {
							out[pos+l] = ^want[pos+l]
						}
						ctrl := uint16(buf[pos/4])
						np := dp
						if k == 8 {
							ctrl |= uint16(buf[pos/4+1]) << 8
							np += shared.ControlByteToSizeTwo(ctrl)
						} else if k == 4 {
							np += shared.ControlByteToSize(uint8(ctrl))
						} else {
							np = cl + ref.DataLen(stream, pos+k)
						}
						prev := start
						if pos > 0 {
							prev = out[pos-1]
						}
						var got int
						if delta {
							got = op.getD(buf[dp:], out[pos:], ctrl, k, prev)
						} else {
							got = op.get(buf[dp:], out[pos:], ctrl, k)
						}
						path = append(path, fmt.Sprintf("%s@%d", op.name, pos))
						if got >= 0 && got != np-dp {
							c.Fail("stream % x: %s consumed %d bytes at number %d, the size functions say %d", clipCtl(stream), op.name, got, pos, np-dp)
						}
						if !slices.Equal(out[pos:pos+k], want[pos:pos+k]) {
							c.Fail("stream % x consumed by %v (differential %v): %#x, want %#x", clipCtl(stream), path, delta, out[pos:pos+k], want[pos:pos+k])
						}
						walk(pos+k, np)
						path = path[:len(path)-1]
					}
				}
				walk(0, cl)
				for k := range lib.Readers {
					got := make([]uint32, n)
					if delta {
						lib.DeltaReaders[k].F(n, stream, got, start)
					} else {
						lib.Readers[k].F(n, stream, got)
					}
					if !slices.Equal(got, want) {
						c.Fail("%s(% x): %s", lib.Readers[k].Name, clipCtl(stream), firstDiff32(got, want))
					}
				}
				c.Word(nodes, steps)
				c.Run(steps + len(lib.Readers))
				c.Outcome(hash32(want))
			}})
			ps = append(ps, eng.Phase{Name: fmt.Sprintf("differential-cuts-to-%d", maxCut), N: int64(maxCut+1) * 5 * int64(len(lib.DeltaWriters)), Run: func(c *eng.Ctx, i int64) {
				w := lib.DeltaWriters[i%int64(len(lib.DeltaWriters))]
				i /= int64(len(lib.DeltaWriters))
				pt := []int{1, 3, 4, 7, 10}[i%5]
				n := int(i / 5)
				start := prevs[int(i)%len(prevs)]
				nums := ref.Sums(compNumbers(n, pt), start, nil)
				// segment [a,b) is coded from its predecessor
				seg := make(map[[2]int][]byte)
				at := func(a int) uint32 {
					if a == 0 {
						return start
					}
					return nums[a-1]
				}
				for a := 0; a <= n; a++ {
					for b := a; b <= n; b++ {
						seg[[2]int{a, b}] = w.F(nums[a:b], at(a))
						c.Run(1)
					}
				}
				out := make([]uint32, n)
				for ri, r := range lib.DeltaReaders {
					for a := 0; a <= n; a++ {
						for b := a; b <= n; b++ {
							for k := range out {
								out[k] = ^nums[k]
							}
							prev := start
							for _, s := range [][2]int{{0, a}, {a, b}, {b, n}} {
								if s[1] > s[0] {
									r.F(s[1]-s[0], seg[s], out[s[0]:s[1]], prev)
									prev = out[s[1]-1]
								}
							}
							if !slices.Equal(out, nums) {
								c.Fail("%s/%s of %s cut at %d and %d: %s", w.Name, r.Name, clip(nums), a, b, firstDiff32(out, nums))
							}
							c.Word(1, 3)
							c.Run(3)
						}
					}
					_ = ri
				}
			}})
			// Longer streams: every word of up to maxOps block calls, repeated over
			// the whole stream, both ways. Where the word's call does not fit, the
			// last call of the stream is the up-to-4 one.
			lens := []int{17, 31, 32, 33, 36, 40, 44, 61, 64, 71, 96, 100, 127, 128, 131, 200, 256, 259, 512, 1000, 1023, 4097, 16388, 65539}
			maxOps := 4
			if tier == "thorough" {
				lens = append(lens, 48, 52, 80, 112, 160, 192, 255, 257, 300, 511, 513, 1024, 1025, 2048, 3000, 65536, 1<<18+3)
				maxOps = 5
			}
			if reduced(tier) {
				lens, maxOps = lens[:12], 2
			}
			scheds := [][]int{}
			var grow func(w []int)
			grow = func(w []int) {
				if len(w) > 0 {
					scheds = append(scheds, slices.Clone(w))
				}
				if len(w) < maxOps {
					for k := range puts {
						grow(append(w, k))
					}
				}
			}
			grow(nil)
			ps = append(ps, eng.Phase{Name: fmt.Sprintf("schedules-of-%d-calls", maxOps), N: int64(len(lens)) * compPatterns * 2, Run: func(c *eng.Ctx, i int64) {
				delta := i&1 == 1
				pt := int(i / 2 % compPatterns)
				n := lens[i/2/compPatterns]
				start := prevs[pt%len(prevs)]
				d := compNumbers(n, pt)
				src := d
				if delta {
					src = ref.Sums(d, start, nil)
				}
				want := ref.Encode(d)
				cl := ref.CtrlLen(n)
				buf := make([]byte, len(want)+64)
				out := make([]uint32, n)
				padded := append(slices.Clone(want), make([]byte, 64)...)
				sc := scheds
				steps := 0
				for _, word := range sc {
					if n > 1000 && len(word) > 2 {
						continue
					}
					dp := cl
					for pos, k := 0, 0; pos < n; k++ {
						op := puts[word[k%len(word)]]
						m := op.n
						if m == 0 || pos+m > n {
							op = puts[len(puts)-1]
							m = min(4, n-pos)
						}
						prev := start
						if pos > 0 {
							prev = src[pos-1]
						}
						var ctrl uint16
						if delta {
							ctrl = op.putD(src[pos:], buf[dp:], m, prev)
						} else {
							ctrl = op.put(src[pos:], buf[dp:], m)
						}
						buf[pos/4] = byte(ctrl)
						if m == 8 {
							buf[pos/4+1] = byte(ctrl >> 8)
							dp += shared.ControlByteToSizeTwo(ctrl)
						} else {
							dp += shared.ControlByteToSize(uint8(ctrl)) - (4 - m)
						}
						if dp > len(want) {
							c.Fail("%d numbers %s assembled by calls %v: more than %d bytes", n, clip(src), word, len(want))
						}
						pos += m
						steps++
					}
					if !bytes.Equal(buf[:dp], want) {
						c.Fail("%d numbers %s (differential %v) assembled by calls %v: %s", n, clip(src), delta, word, firstDiffB(buf[:dp], want))
					}
					for k := range out {
						out[k] = ^src[k]
					}
					dp = cl
					for pos, k := 0, 0; pos < n; k++ {
						op := gets[word[k%len(word)]]
						m := op.n
						if m == 0 || pos+m > n {
							op = gets[len(gets)-1]
							m = min(4, n-pos)
						}
						prev := start
						if pos > 0 {
							prev = out[pos-1]
						}
						ctrl := uint16(padded[pos/4])
						size := 0
						if m == 8 {
							ctrl |= uint16(padded[pos/4+1]) << 8
							size = shared.ControlByteToSizeTwo(ctrl)
						} else {
							size = shared.ControlByteToSize(uint8(ctrl)) - (4 - m)
						}
						got := 0
						if delta {
							got = op.getD(padded[dp:], out[pos:], ctrl, m, prev)
						} else {
							got = op.get(padded[dp:], out[pos:], ctrl, m)
						}
						if got >= 0 && got != size {
							c.Fail("%s consumed %d bytes at number %d, the size function says %d", op.name, got, pos, size)
						}
						dp += size
						pos += m
						steps++
					}
					if dp != len(want) || !slices.Equal(out, src) {
						c.Fail("%d numbers %s (differential %v) consumed by calls %v: %s; position %d of %d", n, clip(src), delta, word, firstDiff32(out, src), dp, len(want))
					}
				}
				c.Word(steps, steps)
				c.Run(steps)
				c.Outcome(hashB(want))
			}})
			// Longer differential sequences cut once: every position (the longest
			// ones: positions around multiples of 1024), every writer and reader.
			cutLens := []int{63, 64, 65, 96, 128, 131, 256, 300, 513, 1000, 1200, 5000, 70000}
			if reduced(tier) {
				cutLens = cutLens[:4]
			}
			if tier == "thorough" {
				cutLens = append(cutLens, 192, 400, 1024, 2049, 3001, 1<<18+7)
			}
			ps = append(ps, eng.Phase{Name: "differential-single-cuts", N: int64(len(cutLens)) * 5 * int64(len(lib.DeltaWriters)), Run: func(c *eng.Ctx, i int64) {
				w := lib.DeltaWriters[i%int64(len(lib.DeltaWriters))]
				i /= int64(len(lib.DeltaWriters))
				pt := []int{1, 3, 4, 7, 10}[i%5]
				n := cutLens[i/5]
				start := prevs[int(i)%len(prevs)]
				nums := ref.Sums(compNumbers(n, pt), start, nil)
				out := make([]uint32, n)
				for a := 0; a <= n; a++ {
					if m := a % 1024; n > 3001 && m > 1 && m < 1023 && a != n-1 && a != n {
						continue
					}
					if m := a % 16384; n > 10000 && m > 1 && m < 16383 && a != n-1 && a != n {
						continue
					}
					mid := start
					if a > 0 {
						mid = nums[a-1]
					}
					s1, s2 := w.F(nums[:a], start), w.F(nums[a:], mid)
					for _, r := range lib.DeltaReaders {
						for k := range out {
							out[k] = ^nums[k]
						}
						prev := start
						if a > 0 {
							r.F(a, s1, out[:a], prev)
							prev = out[a-1]
						}
						if a < n {
							r.F(n-a, s2, out[a:], prev)
						}
						if !slices.Equal(out, nums) {
							c.Fail("%s/%s of %d numbers %s cut at %d: %s", w.Name, r.Name, n, clip(nums), a, firstDiff32(out, nums))
						}
						c.Word(1, 2)
						c.Run(2)
					}
				}
			}})
			return ps
		}})
}
