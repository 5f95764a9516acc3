package main

import (
	"bytes"
	"fmt"
	"slices"

	"verif.local/harness/eng"
	"verif.local/harness/lib"
	"verif.local/harness/ref"
)

// numPhases turns an oracle on number words into the phases shared by the
// plain stream checks.
func numPhases(id, tier string, word func(c *eng.Ctx, i int64, nums []uint32)) []eng.Phase {
	var ps []eng.Phase
	maxB := 5
	if tier == "thorough" {
		maxB = 7
	} else if reduced(tier) {
		maxB = 3
	}
	nb, gen := boundWords(maxB)
	var buf []uint32
	ps = append(ps, eng.Phase{Name: fmt.Sprintf("boundary-words-to-%d", maxB), N: nb, Run: func(c *eng.Ctx, i int64) {
		buf = gen(i, buf)
		word(c, i, buf)
	}})
	for _, sp := range streamShapes(tier, 1) {
		sp := sp
		var codes []uint8
		ps = append(ps, eng.Phase{Name: sp.name, N: sp.n, Run: func(c *eng.Ctx, i int64) {
			var mode int
			codes, mode = sp.gen(i, codes)
			buf = numbers(buf, codes, mode)
			word(c, i, buf)
		}})
	}
	maxO, gap, larger := 40, 40, []int{64, 65, 100, 128, 256, 260, 512, 1030}
	if tier == "thorough" {
		maxO, gap, larger = 100, 100, append(larger, 63, 127, 200, 300, 1024, 2051)
	} else if reduced(tier) {
		maxO, gap, larger = 20, 1, nil
	}
	no, opp := opposites(maxO, gap, larger...)
	ps = append(ps, eng.Phase{Name: fmt.Sprintf("opposites-to-%d", maxO), N: no, Run: func(c *eng.Ctx, i int64) {
		buf = opp(i, buf)
		word(c, i, buf)
	}})
	if reduced(tier) {
		return ps
	}
	// Every uint32 value. Case i is a block of 2^16 consecutive values, entered
	// at a lane that varies with the block; the prefix also varies the count.
	rot := 1
	if tier == "thorough" {
		rot = 8
	}
	ps = append(ps, eng.Phase{Name: "every-value-in-streams", N: 65536 * int64(rot), Run: func(c *eng.Ctx, i int64) {
		pre := (int(i/65536) + int(i%8)) % 8
		i %= 65536
		buf = grow32(buf, 65536+pre)
		for k := 0; k < pre; k++ {
			buf[k] = uint32(k) << uint(4*k)
		}
		for k := 0; k < 65536; k++ {
			buf[pre+k] = uint32(i)<<16 | uint32(k)
		}
		word(c, i, buf)
	}})
	if tier == "thorough" {
		ps = append(ps, eng.Phase{Name: "huge-counts", N: 3, Serial: true, Run: func(c *eng.Ctx, i int64) {
			n := []int{1<<26 + 3, 1<<27 - 1, 1<<29 + 5}[i]
			big := make([]uint32, n)
			for k := range big {
				big[k] = number(uint8((k+k>>9)%4), 2, k)
			}
			word(c, i, big)
		}})
	}
	return append(ps, giantPhase(id)...)
}

// sweepBlock is the length of case i's word in the every-value phase.
func sweepBlock(i int64) int { return 65536 + (int(i/65536)+int(i%8))%8 }

const streamRule = "exhaustive enumeration of input words: every word over the 9 boundary values up to a length; every word over the 4 byte-length classes up to a length in 5 fill modes; every count up to a bound with uniform and periodic classes; every run and every pair of deviating positions for all smaller counts; two parts of different classes, one of any length to a bound; one deviation at every position of longer uniform words; calls of one entry point one after another whose arguments differ in one thing; large counts around powers of 2 and 10; two opposite deviations from a small number, at every pair of positions; all 2^32 values; one count whose stream is longer than 2^32 bytes. Each index is a different word; state = end state of the reference codec for the word, transition = one number consumed by the model, trace = one library run compared with the model."

var streamAssume = []string{
	"bounds: words and counts as listed per phase; data values beyond the enumerated alphabet occur only in the every-value phase (one value per position)",
	"the reference codec in harness/ref states the format correctly",
}

func init() {
	var out []uint32
	register(&eng.Check{ID: "C01", Rule: streamRule, Assumptions: streamAssume, Phases: func(tier string) []eng.Phase {
		return numPhases("C01", tier, func(c *eng.Ctx, i int64, nums []uint32) {
			n := len(nums)
			c.Word(1, n)
			out = grow32(out, n)
			for wi, w := range lib.Writers {
				s := w.F(nums)
				if n <= 200 {
					c.Outcome(hashB(s))
				}
				for ri, r := range lib.Readers {
					// on the big blocks of the quick tier, one reader per writer, rotating
					if n == sweepBlock(i) && tier != "thorough" && (ri+wi+int(i))%len(lib.Readers) != 0 {
						continue
					}
					o := out[:n:n]
					for k, v := range nums {
						o[k] = ^v
					}
					r.F(n, s, o)
					c.Run(1)
					if !slices.Equal(o, nums) {
						c.Fail("%s then %s of %d numbers %s: %s", w.Name, r.Name, n, clip(nums), firstDiff32(o, nums))
					}
				}
			}
			c.Sample(func() string {
				return fmt.Sprintf("%d numbers %s round-trip through %d writer/reader pairs", n, clip(nums), len(lib.Writers)*len(lib.Readers))
			})
		})
	}})

	var nums []uint32
	register(&eng.Check{ID: "C02", Rule: streamRule + " For the differential form the words are the successive differences, combined with several start values.", Assumptions: streamAssume, Phases: func(tier string) []eng.Phase {
		return numPhases("C02", tier, func(c *eng.Ctx, i int64, diffs []uint32) {
			n := len(diffs)
			out = grow32(out, n)
			check := func(nums []uint32, prev uint32) {
				c.Word(1, n)
				for wi, w := range lib.DeltaWriters {
					s := w.F(nums, prev)
					if n <= 200 {
						c.Outcome(hashB(s))
					}
					for ri, r := range lib.DeltaReaders {
						if n == sweepBlock(i) && tier != "thorough" && (ri+wi+int(i))%len(lib.DeltaReaders) != 0 {
							continue
						}
						o := out[:n:n]
						for k, v := range nums {
							o[k] = ^v
						}
						r.F(n, s, o, prev)
						c.Run(1)
						if !slices.Equal(o, nums) {
							c.Fail("%s then %s, start value %#x, %d numbers %s: %s", w.Name, r.Name, prev, n, clip(nums), firstDiff32(o, nums))
						}
					}
				}
			}
			for _, prev := range prevsFor(n, i) {
				nums = ref.Sums(diffs, prev, nums)
				check(nums, prev)
				if n > 4000 {
					break
				}
			}
			if n <= 40 { // the word itself as the numbers
				check(diffs, prevs[i%int64(len(prevs))])
			}
			c.Sample(func() string {
				return fmt.Sprintf("%d numbers %s, last start value tried of %#x", n, clip(nums), prevsFor(n, i))
			})
		})
	}})

	var want []byte
	register(&eng.Check{ID: "C03", Rule: streamRule, Assumptions: streamAssume, Phases: func(tier string) []eng.Phase {
		return numPhases("C03", tier, func(c *eng.Ctx, i int64, nums []uint32) {
			n := len(nums)
			c.Word(1, n)
			want = ref.EncodeTo(want, nums)
			for _, w := range lib.Writers {
				s := w.F(nums)
				c.Run(1)
				if !bytes.Equal(s, want) {
					c.Fail("%s of %d numbers %s: %s", w.Name, n, clip(nums), firstDiffB(s, want))
				}
			}
			if n <= 200 {
				c.Outcome(hashB(want))
			}
			c.Sample(func() string { return fmt.Sprintf("%s -> % x", clip(nums), want[:min(len(want), 32)]) })
		})
	}})

	var diffs []uint32
	register(&eng.Check{ID: "C04", Rule: streamRule + " For the differential form the words are the successive differences, combined with several start values; in the every-value phase the values are used both as differences and as plain numbers.", Assumptions: streamAssume, Phases: func(tier string) []eng.Phase {
		return numPhases("C04", tier, func(c *eng.Ctx, i int64, word []uint32) {
			n := len(word)
			check := func(nums, d []uint32, prev uint32) {
				c.Word(1, n)
				want = ref.EncodeTo(want, d)
				for _, w := range lib.DeltaWriters {
					s := w.F(nums, prev)
					c.Run(1)
					if !bytes.Equal(s, want) {
						c.Fail("%s, start value %#x, %d numbers %s: %s", w.Name, prev, n, clip(nums), firstDiffB(s, want))
					}
				}
				if n <= 200 {
					c.Outcome(hashB(want))
				}
			}
			for _, prev := range prevsFor(n, i) {
				nums = ref.Sums(word, prev, nums)
				check(nums, word, prev)
				if n <= 40 { // the word itself as the numbers: descending and wrapping differences
					diffs = ref.Diffs(word, prev, diffs)
					check(word, diffs, prev)
				}
				if n > 4000 {
					break
				}
			}
			c.Sample(func() string { return fmt.Sprintf("differences %s -> % x", clip(word), want[:min(len(want), 32)]) })
		})
	}})

	registerC05()
}

func registerC05() {
	var stream, ctrl, data []byte
	var want, sums, out []uint32
	one := func(c *eng.Ctx, i int64, n int, stream []byte) {
		c.Word(1, n)
		want = ref.Decode(n, stream, want)
		out = grow32(out, n)
		for _, r := range lib.Readers {
			o := out[:n:n]
			for k, v := range want {
				o[k] = ^v
			}
			r.F(n, stream, o)
			c.Run(1)
			if !slices.Equal(o, want) {
				c.Fail("%s of %d numbers from %s: %s", r.Name, n, clipB(stream), firstDiff32(o, want))
			}
		}
		for _, prev := range prevsFor(n, i) {
			sums = ref.Sums(want, prev, sums)
			for _, r := range lib.DeltaReaders {
				o := out[:n:n]
				for k, v := range sums {
					o[k] = ^v
				}
				r.F(n, stream, o, prev)
				c.Run(1)
				if !slices.Equal(o, sums) {
					c.Fail("%s, start value %#x, of %d numbers from %s: %s", r.Name, prev, n, clipB(stream), firstDiff32(o, sums))
				}
			}
			if n > 4000 {
				break
			}
		}
		if n <= 200 {
			c.Outcome(hash32(want))
		}
		c.Sample(func() string { return fmt.Sprintf("count %d stream %s -> %s", n, clipB(stream), clip(want)) })
	}
	register(&eng.Check{ID: "C05",
		Rule:        "exhaustive enumeration of well-formed streams: every word of length codes up to a length x 5 data fill modes (all zero, all 0xff, tagged, leading-zero, low-byte only) x all values of the unused length codes of the last control byte; every count up to a bound, runs and pairs as for the writers; every 4-byte data value with the non-minimal code; the small words also with 1 to 96 more bytes behind the stream. state = end state of the reference decoder, transition = one number decoded by the model, trace = one reader run compared with it.",
		Assumptions: streamAssume,
		Phases: func(tier string) []eng.Phase {
			var ps []eng.Phase
			// all unused-code values, all data modes, small counts
			maxN := 7
			if tier == "thorough" {
				maxN = 9
			} else if reduced(tier) {
				maxN = 5
			}
			small := allWords(maxN, []int{0, 1, 2, 3, 4})
			var codes []uint8
			ps = append(ps, eng.Phase{Name: "all-codes-and-unused-codes-to-" + fmt.Sprint(maxN), N: small.n, Run: func(c *eng.Ctx, i int64) {
				var mode int
				codes, mode = small.gen(i, codes)
				data = dataBytes(data, codes, mode)
				unused := (4 - len(codes)%4) % 4
				for pad := 0; pad < 1<<(2*uint(unused)); pad++ {
					ctrl = ctrlBytes(ctrl, codes, uint8(pad))
					stream = append(append(stream[:0], ctrl...), data...)
					one(c, i, len(codes), stream)
				}
				// with more bytes behind the encoded ones
				for k, trail := range [...]int{1, 3, 12, 16, 64} {
					for l := 0; l < trail; l++ {
						stream = append(stream, byte(l*51+k)|byte(k<<6))
					}
					one(c, i, len(codes), stream)
				}
			}})
			for _, sp := range streamShapes(tier, 1)[1:] {
				sp := sp
				var codes []uint8
				ps = append(ps, eng.Phase{Name: sp.name, N: sp.n, Run: func(c *eng.Ctx, i int64) {
					var mode int
					codes, mode = sp.gen(i, codes)
					if mode == 2 {
						mode = int(i/12+i) % modes
					}
					data = dataBytes(data, codes, mode)
					ctrl = ctrlBytes(ctrl, codes, uint8(i*37>>2))
					stream = append(append(stream[:0], ctrl...), data...)
					one(c, i, len(codes), stream)
					if len(codes) < 200 {
						for l := 0; l <= int(i%90); l++ {
							stream = append(stream, byte(l*51)^byte(i))
						}
						one(c, i, len(codes), stream)
					}
				}})
			}
			if reduced(tier) {
				return ps
			}
			ps = append(ps, eng.Phase{Name: "every-value-4-byte-code", N: 65536, Run: func(c *eng.Ctx, i int64) {
				pre := int(i % 8)
				n := 65536 + pre
				stream = growB(stream, (n+3)/4+4*n)
				cl := (n + 3) / 4
				for k := 0; k < cl; k++ {
					stream[k] = 0xff
				}
				for k := 0; k < n; k++ {
					v := uint32(i)<<16 | uint32(k-pre)&0xffff
					p := cl + 4*k
					stream[p], stream[p+1], stream[p+2], stream[p+3] = byte(v), byte(v>>8), byte(v>>16), byte(v>>24)
				}
				one(c, i, n, stream)
			}})
			ps = append(ps, eng.Phase{Name: "every-value-3-byte-code", N: 256, Run: func(c *eng.Ctx, i int64) {
				pre := int(i % 8)
				n := 65536 + pre
				stream = growB(stream, (n+3)/4+3*n)
				cl := (n + 3) / 4
				for k := 0; k < cl; k++ {
					stream[k] = 0xaa
				}
				for k := 0; k < n; k++ {
					v := uint32(i)<<16 | uint32(k-pre)&0xffff
					p := cl + 3*k
					stream[p], stream[p+1], stream[p+2] = byte(v), byte(v>>8), byte(v>>16)
				}
				one(c, i, n, stream)
			}})
			return append(ps, giantPhase("C05")...)
		}})
}
