package main

import (
	"bytes"
	"fmt"
	"reflect"
	"slices"

	"github.com/theMPatel/streamvbyte-simdgo/pkg/shared"
	"github.com/theMPatel/streamvbyte-simdgo/pkg/util"

	"verif.local/harness/eng"
	"verif.local/harness/lib"
	"verif.local/harness/ref"
)

func init() {
	registerC17()
	registerC19()
	registerC21()
}

// table reads an integer table that is an array, a slice or a pointer to one.
func table(t interface{}, idx ...int) (int, bool) {
	v := reflect.ValueOf(t)
	for k := 0; ; k++ {
		for v.Kind() == reflect.Ptr {
			v = v.Elem()
		}
		if k == len(idx) {
			break
		}
		if v.Kind() != reflect.Array && v.Kind() != reflect.Slice || idx[k] >= v.Len() {
			return 0, false
		}
		v = v.Index(idx[k])
	}
	switch {
	case v.CanUint():
		return int(v.Uint()), true
	case v.CanInt():
		return int(v.Int()), true
	}
	return 0, false
}

func registerC17() {
	sizes := func(c *eng.Ctx) {
		for b := 0; b < 256; b++ {
			want := ref.DataLen([]byte{byte(b)}, 4)
			if got := shared.ControlByteToSize(uint8(b)); got != want {
				c.Fail("ControlByteToSize(%#02x) = %d, want %d", b, got, want)
			}
			if got, ok := table(shared.PerControlLenTable, b); !ok || got != want {
				c.Fail("PerControlLenTable[%#02x] = %d, want %d", b, got, want)
			}
			for k := 0; k < 4; k++ {
				want := b>>(2*k)&3 + 1
				if got, ok := table(shared.PerNumLenTable, b, k); !ok || got != want {
					c.Fail("PerNumLenTable[%#02x][%d] = %d, want %d", b, k, got, want)
				}
			}
		}
		c.Word(256, 256*6)
		c.Run(256 * 6)
	}
	register(&eng.Check{ID: "C17",
		Rule: "all 256 control bytes and all 65536 control words through the size functions and the length tables, before and after every kind of call (each of them with every control word), including calls refused at every point of truncation, so that a call that changes a table is seen. state = one control byte or word, transition = one table or function look-up.",
		Phases: func(tier string) []eng.Phase {
			var ps []eng.Phase
			two := func(c *eng.Ctx, i int64) {
				want := ref.Size8(uint16(i))
				if got := shared.ControlByteToSizeTwo(uint16(i)); got != want {
					c.Fail("ControlByteToSizeTwo(%#04x) = %d, want %d", i, got, want)
				}
				c.Word(1, 1)
				c.Run(1)
			}
			ps = append(ps, eng.Phase{Name: "control-bytes", N: 1, Run: func(c *eng.Ctx, i int64) {
				sizes(c)
				c.Sample(func() string { return "all 256 control bytes" })
			}})
			ps = append(ps, eng.Phase{Name: "control-words", N: 65536, Run: func(c *eng.Ctx, i int64) {
				two(c, i)
				c.Outcome(uint64(shared.ControlByteToSizeTwo(uint16(i))))
				c.Sample(func() string { return fmt.Sprintf("control word %#04x: %d", i, ref.Size8(uint16(i))) })
			}})
			// one case: 256 control words, every kind of call, then everything again
			ps = append(ps, eng.Phase{Name: "after-calls", N: 256, Run: func(c *eng.Ctx, i int64) {
				var d [8]uint32
				var o [8]uint32
				var buf, b2 [64]byte
				for lo := int64(0); lo < 256; lo++ {
					w := uint16(lo<<8 | i)
					for l := range d {
						d[l] = number(uint8(w>>(2*uint(l)))&3, 2, l)
					}
					for k := range lib.Put8 {
						lib.Put8[k].F(d[:], buf[:])
						lib.Put8Delta[k].F(d[:], b2[:], uint32(w))
						lib.Get8[k].F(buf[:], o[:], w)
						lib.Get8Delta[k].F(buf[:], o[:], w, uint32(w))
					}
					for k := range lib.Writers {
						s := lib.Writers[k].F(d[:])
						lib.Readers[k].F(8, s, o[:])
						lib.Readers[k].F(5, lib.Writers[k].F(d[:5]), o[:])
						s = lib.DeltaWriters[k].F(d[:], 1)
						lib.DeltaReaders[k].F(8, s, o[:], 1)
						lib.DeltaReaders[k].F(7, lib.DeltaWriters[k].F(d[:7], 1), o[:], 1)
						for t := 0; t < 3; t++ { // refused calls
							panics(func() { lib.Readers[1].F(8, s[:t+2:t+2], o[:]) })
						}
						s[0], s[1] = 0xff, 0xff // the caller's bytes
					}
				}
				sizes(c)
				for w := int64(0); w < 65536; w++ {
					two(c, w)
				}
			}})
			// one case: one control byte, calls cut short at every byte
			ps = append(ps, eng.Phase{Name: "after-refused-calls", N: 256, Run: func(c *eng.Ctx, i int64) {
				calls := refusedFor(uint8(i), func(string) {})
				c.Run(calls)
				sizes(c)
				for w := int64(0); w < 256; w++ {
					two(c, w<<8|i)
					two(c, i<<8|w)
				}
			}})
			return ps
		}})
}

var varBounds = []uint32{0, 1, 0x7f, 0x80, 0x3fff, 0x4000, 0x1fffff, 0x200000, 0xfffffff, 0x10000000, 0x80000000, 0xffffffff}

// modelVarint is the standard unsigned varint.
func modelVarint(b []byte, v uint32) []byte {
	for v >= 0x80 {
		b = append(b, byte(v)|0x80)
		v >>= 7
	}
	return append(b, byte(v))
}

func registerC19() {
	var want, buf []byte
	var out, diffs, in []uint32
	check := func(c *eng.Ctx, nums []uint32, prev uint32, delta bool) {
		src := nums
		if delta {
			diffs = ref.Diffs(nums, prev, diffs)
			src = diffs
		}
		want = want[:0]
		for _, v := range src {
			want = modelVarint(want, v)
		}
		buf = growB(buf, len(want)+24)
		for k := range buf {
			buf[k] = 0xC7
		}
		room := buf[: len(want) : len(want)+24]
		more := 0 // the output slice may be longer than the varints
		if len(want)%3 == 1 {
			more = 24
		}
		name := "PutVarint"
		var n int
		in = append(in[:0], nums...)
		if delta {
			name = "PutDeltaVarint"
			n = util.PutDeltaVarint(in, buf[:len(want)+more:len(want)+24], prev)
		} else {
			n = util.PutVarint(in, buf[:len(want)+more:len(want)+24])
		}
		if !slices.Equal(in, nums) {
			c.Fail("%s(%s) changed its input", name, clip(nums))
		}
		if n != len(want) || !bytes.Equal(room, want) {
			c.Fail("%s(%s, start %#x) = %d, % x, want %d, % x", name, clip(nums), prev, n, clipCtl(room), len(want), clipCtl(want))
		}
		for k := len(want); k < len(buf); k++ {
			if buf[k] != 0xC7 {
				c.Fail("%s(%s) wrote byte %d behind its %d-byte output", name, clip(nums), k, len(want))
			}
		}
		out = grow32(out, len(nums)+3)
		for k := range out {
			out[k] = 0xC7C7C7C7
			if k < len(nums) {
				out[k] = ^nums[k]
			}
		}
		name = "GetVarint"
		if delta {
			name = "GetDeltaVarint"
			n = util.GetDeltaVarint(room, out, prev)
		} else {
			n = util.GetVarint(room, out)
		}
		if n != len(want) || !slices.Equal(out[:len(nums)], nums) {
			c.Fail("%s(% x, start %#x) = %d, %s", name, clipCtl(room), prev, n, firstDiff32(out[:len(nums)], nums))
		}
		for k := len(nums); k < len(out); k++ {
			if out[k] != 0xC7C7C7C7 {
				c.Fail("%s(% x) wrote element %d of %d", name, clipCtl(room), k, len(nums))
			}
		}
		if !bytes.Equal(room, want) {
			c.Fail("%s changed its input", name)
		}
		c.Word(1, len(nums))
		c.Run(2)
	}
	register(&eng.Check{ID: "C19",
		Rule:        "every 32-bit value, plain and as a difference (in sequences of 64), every word of varint lengths up to a length, every count to a bound and larger ones in patterns of lengths, every sequence over 12 varint boundary values up to a length, every start value of that set, plain and differential: bytes compared with a model of the standard unsigned varint, then read back. state = one sequence, transition = one number, trace = one library call.",
		Assumptions: []string{"the output slice of the writer holds at least the needed bytes; reader inputs are whole varints of 32-bit values"},
		Phases: func(tier string) []eng.Phase {
			var ps []eng.Phase
			maxN := 4
			if tier == "thorough" {
				maxN = 6
			}
			starts := []int64{0}
			p := int64(1)
			nb := int64(len(varBounds))
			for n := 0; n <= maxN; n++ {
				starts = append(starts, starts[n]+p)
				p *= nb
			}
			ps = append(ps, eng.Phase{Name: fmt.Sprintf("boundary-sequences-to-%d", maxN), N: starts[maxN+1], Run: func(c *eng.Ctx, i int64) {
				n := 0
				for i >= starts[n+1] {
					n++
				}
				i -= starts[n]
				nums := make([]uint32, n)
				for k := range nums {
					nums[k] = varBounds[i%nb]
					i /= nb
				}
				check(c, nums, 0, false)
				for _, prev := range varBounds {
					check(c, nums, prev, true)
					check(c, ref.Sums(nums, prev, nil), prev, true)
				}
				c.Outcome(hash32(nums))
				c.Sample(func() string { return fmt.Sprintf("%#x", nums) })
			}})
			// every word of varint lengths (1..5 bytes), of short sequences
			maxL := 6
			if tier == "thorough" {
				maxL = 9
			} else if reduced(tier) {
				maxL = 4
			}
			lst := []int64{0}
			p = 1
			for n := 0; n <= maxL; n++ {
				lst = append(lst, lst[n]+p)
				p *= 5
			}
			ofLen := func(l, k, mode int) uint32 {
				lo := [...]uint32{0, 1 << 7, 1 << 14, 1 << 21, 1 << 28}[l]
				hi := [...]uint32{1<<7 - 1, 1<<14 - 1, 1<<21 - 1, 1<<28 - 1, 1<<32 - 1}[l]
				switch mode {
				case 0:
					return lo
				case 1:
					return hi
				}
				return lo + (uint32(k)*2654435761+0x7f4a7c15)%(hi-lo+1)
			}
			ps = append(ps, eng.Phase{Name: fmt.Sprintf("all-length-words-to-%d", maxL), N: 3 * lst[maxL+1], Run: func(c *eng.Ctx, i int64) {
				mode := int(i % 3)
				i /= 3
				n := 0
				for i >= lst[n+1] {
					n++
				}
				i -= lst[n]
				nums := make([]uint32, n)
				for k := range nums {
					nums[k] = ofLen(int(i%5), k+int(i), mode)
					i /= 5
				}
				prev := prevs[(n+int(i))%len(prevs)]
				check(c, nums, 0, false)
				check(c, nums, prev, true)
				check(c, ref.Sums(nums, prev, nil), prev, true)
			}})
			// every count, and larger ones, in patterns of lengths
			maxC := 1100
			larger := []int{511, 512, 513, 1000, 1023, 1024, 1025, 4096, 4099, 10000, 65535, 65536, 65537, 100000, 262147}
			if tier == "thorough" {
				maxC = 2100
				larger = append(larger, 1<<20, 1<<22+5)
			} else if reduced(tier) {
				maxC, larger = 70, larger[:3]
			}
			ps = append(ps, eng.Phase{Name: fmt.Sprintf("every-count-to-%d-and-larger", maxC), N: 8 * int64(maxC+1+len(larger)), Run: func(c *eng.Ctx, i int64) {
				pt := int(i % 8)
				n := int(i / 8)
				if n > maxC {
					n = larger[n-maxC-1]
				}
				nums := make([]uint32, n)
				for k := range nums {
					l := pt
					switch pt {
					case 5:
						l = k % 5
					case 6:
						l = int((uint32(k)*uint32(k) + uint32(k>>3)) % 5)
					case 7:
						l = 4 * (k & 1)
					}
					nums[k] = ofLen(l, k, []int{2, 2, 1, 0}[n&3])
				}
				prev := prevs[n%len(prevs)]
				check(c, nums, 0, false)
				check(c, nums, prev, true)
				check(c, ref.Sums(nums, prev, nil), prev, true)
				c.Outcome(uint64(n)<<3 | uint64(pt))
			}})
			if reduced(tier) {
				return ps
			}
			ps = append(ps, eng.Phase{Name: "every-value", N: 65536, Run: func(c *eng.Ctx, i int64) {
				nums := make([]uint32, 64)
				sums := make([]uint32, 64)
				for k := uint32(0); k < 65536; k += 64 {
					for l := range nums {
						nums[l] = uint32(i)<<16 | k | uint32(l)
					}
					check(c, nums, 0, false)
					if tier == "thorough" || k&0x3ff == uint32(i)&0x3c0 {
						sums = ref.Sums(nums, uint32(i), sums)
						check(c, sums, uint32(i), true)
					}
				}
			}})
			return ps
		}})
}

func registerC21() {
	var want []uint32
	deltaCase := func(c *eng.Ctx, nums []uint32) {
		n := len(nums)
		in := append([]uint32{}, nums...)
		want = ref.Diffs(nums, 0, want)
		for _, extra := range []int{0, 3} {
			out := make([]uint32, n+extra)
			for k := range out {
				out[k] = 0xC7C7C7C7
				if k < n {
					out[k] = ^want[k]
				}
			}
			util.Delta(in[:n:n], out)
			if !slices.Equal(out[:n], want) {
				c.Fail("Delta(%s): %s", clip(nums), firstDiff32(out[:n], want))
			}
			for k := n; k < n+extra; k++ {
				if out[k] != 0xC7C7C7C7 {
					c.Fail("Delta(%s) changed element %d of a longer output", clip(nums), k)
				}
			}
			if !slices.Equal(in, nums) {
				c.Fail("Delta(%s) changed its input", clip(nums))
			}
		}
		for k := range lib.Writers {
			a, b := lib.Writers[k].F(want), lib.DeltaWriters[k].F(nums, 0)
			if !bytes.Equal(a, b) {
				c.Fail("%s(Delta(x)) differs from %s(x, 0) for %s", lib.Writers[k].Name, lib.DeltaWriters[k].Name, clip(nums))
			}
		}
		c.Word(1, n)
		c.Run(2 + 2*len(lib.Writers))
	}
	sortCase := func(c *eng.Ctx, nums []uint32) {
		n := len(nums)
		buf := make([]uint32, n+4)
		for k := range buf {
			buf[k] = 0xC7C7C7C7
		}
		copy(buf[2:], nums)
		util.SortUint32(buf[2 : 2+n])
		w := append([]uint32{}, nums...)
		slices.Sort(w)
		if !slices.Equal(buf[2:2+n], w) {
			c.Fail("SortUint32(%s): %s", clip(nums), firstDiff32(buf[2:2+n], w))
		}
		if buf[0] != 0xC7C7C7C7 || buf[1] != 0xC7C7C7C7 || buf[n+2] != 0xC7C7C7C7 || buf[n+3] != 0xC7C7C7C7 {
			c.Fail("SortUint32(%s) changed a neighbour of its argument", clip(nums))
		}
		c.Word(1, n)
		c.Run(1)
	}
	register(&eng.Check{ID: "C21",
		Rule: "all words over 9 boundary values up to a length through Delta and SortUint32, all permutations of 8 distinct boundary values, every 0/1 word of length up to 16 (zero-one principle) and structured words of every length to a bound and of larger ones. state = one word, transition = one element.",
		Phases: func(tier string) []eng.Phase {
			var ps []eng.Phase
			maxN := 5
			if reduced(tier) {
				maxN = 4
			} else if tier == "thorough" {
				maxN = 6
			}
			nb, gen := boundWords(maxN)
			var buf []uint32
			ps = append(ps, eng.Phase{Name: fmt.Sprintf("boundary-words-to-%d", maxN), N: nb, Run: func(c *eng.Ctx, i int64) {
				buf = gen(i, buf)
				deltaCase(c, buf)
				sortCase(c, buf)
				c.Outcome(hash32(buf))
				c.Sample(func() string { return fmt.Sprintf("%#x", buf) })
			}})
			ps = append(ps, eng.Phase{Name: "permutations-of-8", N: 40320, Run: func(c *eng.Ctx, i int64) {
				pool := []uint32{0, 0xff, 0x100, 0xffff, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff}
				var p []uint32
				for k := 8; k > 0; k-- {
					j := int(i) % k
					i /= int64(k)
					p = append(p, pool[j])
					pool = append(pool[:j:j], pool[j+1:]...)
				}
				sortCase(c, p)
				deltaCase(c, p)
			}})
			ps = append(ps, eng.Phase{Name: "zero-one-words-to-16", N: 1<<17 - 1, Run: func(c *eng.Ctx, i int64) {
				v := uint32(i + 1)
				var w []uint32
				for ; v > 1; v >>= 1 {
					w = append(w, (v&1)<<31)
				}
				sortCase(c, w)
			}})
			larger := []int{255, 256, 257, 300, 511, 512, 513, 999, 1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 10000, 65535, 65536, 65537, 100000, 131073, 1 << 18, 1<<20 + 3}
			maxS := 520
			if tier == "thorough" {
				maxS = 1200
				larger = append(larger, 1<<22+1)
			} else if reduced(tier) {
				larger = larger[:6]
			}
			ps = append(ps, eng.Phase{Name: fmt.Sprintf("structured-to-%d-and-larger", maxS), N: int64(maxS+1+len(larger)) * 11, Run: func(c *eng.Ctx, i int64) {
				n, kind := int(i/11), i%11
				if n > maxS {
					n = larger[n-maxS-1]
				}
				w := make([]uint32, n)
				for k := range w {
					switch kind {
					case 0:
						w[k] = uint32(k) << 20
					case 1:
						w[k] = uint32(n-k) * 0x1000193
					case 2:
						w[k] = uint32(min(k, n-k))
					case 3:
						w[k] = uint32(k % 7)
					case 4:
						w[k] = uint32(k) * 2654435761
					case 5:
						w[k] = bounds[int(uint32(k)*uint32(k)%uint32(len(bounds)))]
					case 6:
						w[k] = 5
					case 7:
						w[k] = uint32(k&1) * 0xffffffff
					case 8:
						w[k] = uint32(k ^ 0x55)
					case 9: // every byte differs, all four vary
						w[k] = (uint32(k)*0x9E3779B1 + 77) * 0x85EBCA6B
					case 10: // many equal high halves
						w[k] = uint32(k%3)<<30 | uint32(k*k)&0xffff
					}
				}
				sortCase(c, w)
				deltaCase(c, w)
			}})
			return ps
		}})
}
