package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"slices"

	"github.com/theMPatel/streamvbyte-simdgo/pkg/decode"
	"github.com/theMPatel/streamvbyte-simdgo/pkg/encode"

	"verif.local/harness/eng"
	"verif.local/harness/lib"
	"verif.local/harness/ref"
)

// lane multipliers (odd, so v -> v*odd+add is a bijection of uint32) and offsets.
var laneMul = [8]uint32{1, 0x9E3779B1, 0x85EBCA77, 0xC2B2AE3D, 0x27D4EB2F, 0x165667B1, 0xFFFFFFFF, 0x2545F491}
var laneAdd = [8]uint32{0, 0x12345, 0, 0xfffffff0, 0x80000000, 0x1000000, 0, 0x00ff00ff}

// halves are boundary 16-bit halves of a number.
var halves = func() (hs []uint32) {
	bs := []uint32{0x00, 0x01, 0x02, 0x7f, 0x80, 0xfe, 0xff}
	for _, a := range bs {
		for _, b := range bs {
			hs = append(hs, a<<8|b)
		}
	}
	return
}()

// byteAlphabet words: every 4-byte number over these bytes.
var alphaBytes = [5]byte{0x00, 0x01, 0x7f, 0x80, 0xff}

func alphaNumber(i int) uint32 {
	var v uint32
	for k := 0; k < 4; k++ {
		v = v<<8 | uint32(alphaBytes[i%5])
		i /= 5
	}
	return v
}

func sumsOf(d *[8]uint32, prev uint32) (n [8]uint32) {
	for k, x := range d {
		prev += x
		n[k] = prev
	}
	return
}

const blockRule = "exhaustive enumeration of 8-number blocks: all 2^32 values in every lane (each lane runs through a different bijection of uint32), all 65536 combinations of byte lengths x 5 fill modes x start values, all ordered pairs of neighbours over the 625 numbers with bytes in {00,01,7f,80,ff}, all words of the partial encoders over boundary values. state = one input block, transition = one number of it, trace = one library call compared with the model."

func init() {
	registerC06()
	registerC07()
}

func registerC06() {
	var out [40]byte
	var want [36]byte
	// put checks every plain 8-number encoder in set on one block.
	put := func(c *eng.Ctx, set []lib.P8, in *[8]uint32) {
		ctrl, size := ref.Put8(in, &want)
		for k := range set {
			got := set[k].F(in[:], out[:32])
			if got != ctrl || !bytes.Equal(out[:size], want[:size]) {
				c.Fail("%s(%#x) = control %#04x data % x, want control %#04x data % x", set[k].Name, *in, got, out[:size], ctrl, want[:size])
			}
		}
	}
	putD := func(c *eng.Ctx, set []lib.P8D, d *[8]uint32, prev uint32) {
		in := sumsOf(d, prev)
		ctrl, size := ref.Put8(d, &want)
		for k := range set {
			got := set[k].F(in[:], out[:32], prev)
			if got != ctrl || !bytes.Equal(out[:size], want[:size]) {
				c.Fail("%s(%#x, start %#x) = control %#04x data % x, want control %#04x data % x", set[k].Name, in, prev, got, out[:size], ctrl, want[:size])
			}
		}
	}
	register(&eng.Check{ID: "C06", Rule: blockRule,
		Assumptions: []string{
			"output buffers hold 32 bytes (8 numbers of at most 4 bytes), as every caller in the repository provides",
			"differential inputs: every (start, numbers) is some (start, differences); differences are enumerated",
			"cross-lane value combinations beyond the enumerated ones (lengths, neighbour pairs, lane sweep) are not covered",
		},
		Phases: func(tier string) []eng.Phase {
			thorough := tier == "thorough"
			var ps []eng.Phase
			sweep := func(name string, f func(c *eng.Ctx, in *[8]uint32, v uint32), impls, stride int) {
				ps = append(ps, eng.Phase{Name: name, N: 65536, Run: func(c *eng.Ctx, i int64) {
					var in [8]uint32
					for k := 0; k < 65536; k += stride {
						v := uint32(i)<<16 | uint32(k)
						if stride == 8 { // consecutive values, one per lane
							r := int(i+i>>3) & 7
							for l := range in {
								in[l] = v + uint32((l+r)&7)
							}
						} else {
							for l := range in {
								in[l] = v*laneMul[l] + laneAdd[l]
							}
						}
						f(c, &in, v)
					}
					c.Word(65536/stride, 65536/stride*8)
					c.Run(65536 / stride * impls)
				}})
			}
			// each set: value checks for one kind of implementation
			for k := range lib.Put8 {
				p, d := lib.Put8[k:k+1], lib.Put8Delta[k:k+1]
				kind := []string{"auto", "portable", "accelerated"}[k]
				if thorough || k != 0 && !reduced(tier) {
					sweep("every-value-"+kind, func(c *eng.Ctx, in *[8]uint32, v uint32) { put(c, p, in) }, 1, 8)
				}
				if thorough {
					sweep("every-difference-"+kind, func(c *eng.Ctx, in *[8]uint32, v uint32) { putD(c, d, in, v*0x61C88647+1) }, 1, 8)
				}
				if thorough && (k != 0 || len(lib.Put8) == 2) {
					sweep("every-value-every-lane-"+kind, func(c *eng.Ctx, in *[8]uint32, v uint32) { put(c, p, in) }, 1, 1)
					sweep("every-difference-every-lane-"+kind, func(c *eng.Ctx, in *[8]uint32, v uint32) { putD(c, d, in, v*0x61C88647+1) }, 1, 1)
				}
			}
			// every 16-bit half, in every lane
			halves := halves
			if reduced(tier) {
				halves = halves[:3]
			}
			ps = append(ps, eng.Phase{Name: "every-half-every-lane", N: 65536, Run: func(c *eng.Ctx, i int64) {
				var in [8]uint32
				for _, h := range halves {
					for _, v := range []uint32{uint32(i)<<16 | h, h<<16 | uint32(i)} {
						for l := range in {
							in[l] = v
						}
						put(c, lib.Put8, &in)
						putD(c, lib.Put8Delta, &in, h)
						for l := range in {
							in[l] = v*laneMul[l] + laneAdd[l]
						}
						put(c, lib.Put8, &in)
						putD(c, lib.Put8Delta, &in, v)
					}
				}
				c.Word(8*len(halves), 64*len(halves))
				c.Run(8 * len(halves) * len(lib.Put8))
			}})

			// all length words, two fill modes mixed by a lane mask
			masks := []int{0, 0xff, 0x55, 0x0f, 0x81}
			var codes [8]uint8
			ps = append(ps, eng.Phase{Name: "all-length-words", N: 65536, Run: func(c *eng.Ctx, i int64) {
				for l := range codes {
					codes[l] = uint8(i>>(2*uint(l))) & 3
				}
				var in [8]uint32
				for m := 0; m < modes; m++ {
					for _, mask := range masks {
						for l := range in {
							mm := m
							if mask>>uint(l)&1 == 1 {
								mm = (m + 1) % modes
							}
							in[l] = number(codes[l], mm, l+int(i%5))
						}
						put(c, lib.Put8, &in)
						put4(c, &in, &out)
						for _, prev := range prevs {
							putD(c, lib.Put8Delta, &in, prev)
							put4D(c, &in, prev, &out)
						}
						c.Word(1+len(prevs), 8*(1+len(prevs)))
						c.Run((len(lib.Put8) + 2) * (1 + len(prevs)))
					}
				}
				c.Outcome(uint64(i))
				c.Sample(func() string {
					ctrl, size := ref.Put8(&in, &want)
					return fmt.Sprintf("%#x -> control %#04x data % x", in, ctrl, want[:size])
				})
			}})
			// neighbours (a,b): a,b,a,b,... and the start value
			ps = append(ps, eng.Phase{Name: "neighbour-pairs", N: 625 * 625, Run: func(c *eng.Ctx, i int64) {
				a, b := alphaNumber(int(i%625)), alphaNumber(int(i/625))
				in := [8]uint32{a, b, a, b, b, a, b, a}
				put(c, lib.Put8, &in)
				for _, prev := range []uint32{a, b} {
					var d [8]uint32
					p := prev
					for l, v := range in {
						d[l], p = v-p, v
					}
					putD(c, lib.Put8Delta, &d, prev)
				}
				c.Word(3, 24)
				c.Run(3 * len(lib.Put8))
			}})
			maxP := 4
			nb, gen := boundWords(maxP)
			var buf []uint32
			ps = append(ps, eng.Phase{Name: "partial-encoders", N: nb, Run: func(c *eng.Ctx, i int64) {
				buf = gen(i, buf)
				n := len(buf)
				full := append(append([]uint32{}, buf...), 0x01020304, 0xfffffffe)
				for _, extra := range []int{0, 2} {
					in := full[: n+extra : n+extra]
					cnts := []int{n}
					if n == 4 {
						cnts = []int{4, 5, 6, 7, 8, 1000}
					}
					for _, cnt := range cnts {
						partial(c, in, cnt, n)
					}
				}
				if n == 4 {
					var q [8]uint32
					copy(q[:], buf)
					copy(q[4:], buf)
					put4(c, &q, &out)
					for _, prev := range prevs {
						put4D(c, &q, prev, &out)
					}
				}
			}})
			return ps
		}})
}

// put4 checks the 4-number encoder on both halves of a block.
func put4(c *eng.Ctx, in *[8]uint32, out *[40]byte) {
	for h := 0; h < 8; h += 4 {
		w := ref.EncodeTo(make([]byte, 17), in[h:h+4])
		got := encode.Put4uint32Scalar(in[h:h+4], out[:16])
		if got != w[0] || !bytes.Equal(out[:len(w)-1], w[1:]) {
			c.Fail("Put4uint32Scalar(%#x) = %#02x % x, want % x", in[h:h+4], got, out[:len(w)-1], w)
		}
	}
}

func put4D(c *eng.Ctx, d *[8]uint32, prev uint32, out *[40]byte) {
	in := sumsOf(d, prev)
	for h := 0; h < 8; h += 4 {
		w := ref.EncodeTo(make([]byte, 17), d[h:h+4])
		got := encode.Put4uint32DeltaScalar(in[h:h+4], out[:16], prev)
		if got != w[0] || !bytes.Equal(out[:len(w)-1], w[1:]) {
			c.Fail("Put4uint32DeltaScalar(%#x, start %#x) = %#02x % x, want % x", in[h:h+4], prev, got, out[:len(w)-1], w)
		}
		prev = in[h+3]
	}
}

// partial checks the partial encoders for the first min(cnt,4)=n numbers of in.
func partial(c *eng.Ctx, in []uint32, cnt, n int) {
	out := make([]byte, 16)
	w := ref.Encode(in[:n])
	ctrl := byte(0)
	if n > 0 {
		ctrl = w[0]
		w = w[1:]
	}
	got := encode.PutUint32Scalar(in, out, cnt)
	if got != ctrl || !bytes.Equal(out[:len(w)], w) {
		c.Fail("PutUint32Scalar(%#x, count %d) = %#02x % x, want %#02x % x", in, cnt, got, out[:len(w)], ctrl, w)
	}
	c.Word(1, n)
	c.Run(1)
	for _, prev := range prevs {
		d := ref.Diffs(in[:n], prev, nil)
		w := ref.Encode(d)
		ctrl := byte(0)
		if n > 0 {
			ctrl = w[0]
			w = w[1:]
		}
		got := encode.PutUint32DeltaScalar(in, out, cnt, prev)
		if got != ctrl || !bytes.Equal(out[:len(w)], w) {
			c.Fail("PutUint32DeltaScalar(%#x, count %d, start %#x) = %#02x % x, want %#02x % x", in, cnt, prev, got, out[:len(w)], ctrl, w)
		}
		c.Word(1, n)
		c.Run(1)
	}
}

func registerC07() {
	var data [40]byte
	var out [8]uint32
	var want, sums [8]uint32
	// model: the 8 values of control word ctrl over data
	model := func(ctrl uint16) int {
		pos := 0
		for l := range want {
			n := int(ctrl>>(2*uint(l)))&3 + 1
			v := binary.LittleEndian.Uint32(data[pos:])
			want[l] = v & (uint32(1)<<(8*uint(n)-1)<<1 - 1)
			pos += n
		}
		return pos
	}
	scrub := func(w *[8]uint32) {
		for l := range out {
			out[l] = ^w[l]
		}
	}
	get := func(c *eng.Ctx, set []lib.G8, ctrl uint16) {
		for k := range set {
			scrub(&want)
			set[k].F(data[:32], out[:], ctrl)
			if out != want {
				c.Fail("%s(% x, control %#04x) = %#x, want %#x", set[k].Name, data[:ref.Size8(ctrl)], ctrl, out, want)
			}
		}
	}
	getD := func(c *eng.Ctx, set []lib.G8D, ctrl uint16, prev uint32) {
		p := prev
		for l, v := range want {
			p += v
			sums[l] = p
		}
		for k := range set {
			scrub(&sums)
			set[k].F(data[:32], out[:], ctrl, prev)
			if out != sums {
				c.Fail("%s(% x, control %#04x, start %#x) = %#x, want %#x", set[k].Name, data[:ref.Size8(ctrl)], ctrl, prev, out, sums)
			}
		}
	}
	// quads checks the 4-number decoders on both halves.
	quads := func(c *eng.Ctx, ctrl uint16, prev uint32) {
		off := 0
		p := prev
		for h := 0; h < 2; h++ {
			cb := uint8(ctrl >> (8 * uint(h)))
			o := out[:4]
			for l := range o {
				o[l] = ^want[4*h+l]
			}
			sz := ref.DataLen([]byte{cb}, 4)
			decode.Get4uint32Scalar(data[off:off+sz], o, cb)
			if !slices.Equal(o, want[4*h:4*h+4]) {
				c.Fail("Get4uint32Scalar(% x, %#02x) = %#x, want %#x", data[off:off+sz], cb, o, want[4*h:4*h+4])
			}
			var s [4]uint32
			q := p
			for l := range s {
				q += want[4*h+l]
				s[l] = q
				o[l] = ^q
			}
			decode.Get4uint32DeltaScalar(data[off:off+sz], o, cb, p)
			if !slices.Equal(o, s[:]) {
				c.Fail("Get4uint32DeltaScalar(% x, %#02x, start %#x) = %#x, want %#x", data[off:off+sz], cb, p, o, s)
			}
			p = q
			off += sz
		}
	}
	register(&eng.Check{ID: "C07",
		Rule: "exhaustive enumeration of decoder inputs: all 65536 control words x data fill modes (zero, 0xff, tagged, leading-zero, low-byte, rotated tags) x start values, with every single byte position set to each value; all 2^32 (2^24, 2^16) values in every lane for the 4-, 3- and 2-byte codes; all control bytes x counts for the partial decoders. state = one (control, data) input, transition = one number, trace = one library call compared with the model.",
		Assumptions: []string{
			"data buffers hold 32 bytes, as for the encoders; data bytes beyond the announced ones are arbitrary (tagged) and must not matter",
			"combinations of arbitrary data values in several lanes at once are covered only by the fill modes and the lane sweep",
		},
		Phases: func(tier string) []eng.Phase {
			thorough := tier == "thorough"
			var ps []eng.Phase
			var codes [8]uint8
			var buf []byte
			tail := func(from int) {
				for k := from; k < len(data); k++ {
					data[k] = byte(0xa5 + k*31)
				}
			}
			ps = append(ps, eng.Phase{Name: "all-control-words", N: 65536, Run: func(c *eng.Ctx, i int64) {
				ctrl := uint16(i)
				for l := range codes {
					codes[l] = uint8(ctrl>>(2*uint(l))) & 3
				}
				for m := 0; m < modes+3; m++ {
					if m < modes {
						buf = dataBytes(buf, codes[:], m)
						copy(data[:], buf)
						tail(len(buf))
					} else {
						for k := range data {
							data[k] = byte((k + 1) << uint(m-modes) * 0x1d)
						}
					}
					size := model(ctrl)
					get(c, lib.Get8, ctrl)
					for _, prev := range prevs {
						getD(c, lib.Get8Delta, ctrl, prev)
						quads(c, ctrl, prev)
					}
					c.Word(1+len(prevs), 8*(1+len(prevs)))
					c.Run((len(lib.Get8) + 2) * (1 + len(prevs)))
					c.Sample(func() string { return fmt.Sprintf("control %#04x data % x -> %#x", ctrl, data[:size], want) })
				}
				c.Outcome(hash32(want[:]))
			}})
			vals := []byte{0x01, 0x7f, 0x80, 0xff}
			if thorough {
				vals = nil
				for v := 0; v < 256; v++ {
					vals = append(vals, byte(v))
				}
			}
			ps = append(ps, eng.Phase{Name: "single-bytes", N: 65536, Run: func(c *eng.Ctx, i int64) {
				ctrl := uint16(i)
				size := ref.Size8(ctrl)
				for _, bg := range []byte{0, 0xff} {
					for k := range data {
						data[k] = bg
					}
					for p := 0; p < size; p++ {
						for _, v := range vals {
							data[p] = v
							model(ctrl)
							get(c, lib.Get8, ctrl)
							if p&3 == 0 || thorough {
								getD(c, lib.Get8Delta, ctrl, 0xfffffffe)
							}
						}
						data[p] = bg
						c.Word(len(vals), 8*len(vals))
						c.Run(len(lib.Get8) * len(vals))
					}
				}
			}})
			for kk := range lib.Get8 {
				p, d := lib.Get8[kk:kk+1], lib.Get8Delta[kk:kk+1]
				kind := []string{"auto", "portable", "accelerated"}[kk]
				if thorough || kk != 0 && !reduced(tier) {
					ps = append(ps, eng.Phase{Name: "every-value-" + kind, N: 65536, Run: func(c *eng.Ctx, i int64) {
						for k := 0; k < 65536; k += 8 {
							v := uint32(i)<<16 | uint32(k)
							r := int(i+i>>3) & 7
							for l := 0; l < 8; l++ {
								want[l] = v + uint32((l+r)&7)
								binary.LittleEndian.PutUint32(data[4*l:], want[l])
							}
							get(c, p, 0xffff)
							getD(c, d, 0xffff, v*0x61C88647+1)
						}
						c.Word(2*8192, 16*8192)
						c.Run(8192 * 2)
					}})
				}
				if thorough && (kk != 0 || len(lib.Get8) == 2) {
					ps = append(ps, eng.Phase{Name: "every-value-every-lane-" + kind, N: 65536, Run: func(c *eng.Ctx, i int64) {
						for k := 0; k < 65536; k++ {
							v := uint32(i)<<16 | uint32(k)
							for l := 0; l < 8; l++ {
								want[l] = v*laneMul[l] + laneAdd[l]
								binary.LittleEndian.PutUint32(data[4*l:], want[l])
							}
							get(c, p, 0xffff)
							getD(c, d, 0xffff, v*0x61C88647+1)
						}
						c.Word(2*65536, 16*65536)
						c.Run(65536 * 2)
					}})
				}
			}
			halves := halves
			if reduced(tier) {
				halves = halves[:3]
			}
			ps = append(ps, eng.Phase{Name: "every-half-every-lane", N: 65536, Run: func(c *eng.Ctx, i int64) {
				for _, h := range halves {
					for _, v := range []uint32{uint32(i)<<16 | h, h<<16 | uint32(i)} {
						for m := 0; m < 2; m++ {
							for l := range want {
								want[l] = v
								if m == 1 {
									want[l] = v*laneMul[l] + laneAdd[l]
								}
								binary.LittleEndian.PutUint32(data[4*l:], want[l])
							}
							get(c, lib.Get8, 0xffff)
							getD(c, lib.Get8Delta, 0xffff, v)
						}
					}
				}
				c.Word(8*len(halves), 64*len(halves))
				c.Run(8 * len(halves) * len(lib.Get8))
			}})
			nShort := int64(256 * 3)
			if reduced(tier) {
				nShort = 3
			}
			ps = append(ps, eng.Phase{Name: "every-value-every-lane-shorter-codes", N: nShort, Run: func(c *eng.Ctx, i int64) {
				n := 3 - int(i%3) // bytes
				if n < 3 && i/3 > 0 {
					return
				}
				ctrl := uint16([]int{0, 0, 0x5555, 0xaaaa}[n])
				mask := uint32(1)<<(8*uint(n)) - 1
				for k := 0; k < 65536; k++ {
					v := (uint32(i/3)<<16 | uint32(k)) & mask
					for l := 0; l < 8; l++ {
						binary.LittleEndian.PutUint32(data[n*l:], (v*laneMul[l]+laneAdd[l])&mask)
					}
					tail(8 * n)
					model(ctrl)
					get(c, lib.Get8, ctrl)
					getD(c, lib.Get8Delta, ctrl, v*0x61C88647+1)
				}
				c.Word(2*65536, 16*65536)
				c.Run(65536 * 2 * len(lib.Get8))
			}})
			ps = append(ps, eng.Phase{Name: "partial-decoders", N: 256 * 10 * modes, Run: func(c *eng.Ctx, i int64) {
				ctrl := uint8(i)
				mode := int(i / 256 % modes)
				cnt := []int{0, 1, 2, 3, 4, 5, 6, 8, 255, 1 << 20}[i/256/modes]
				n := min(cnt, 4)
				var cd []uint8
				for l := 0; l < 4; l++ {
					cd = append(cd, ctrl>>(2*uint(l))&3)
				}
				d := dataBytes(nil, cd[:n], mode)
				w := ref.DecodeSplit(n, []byte{ctrl}, d, nil)
				for _, extra := range []int{0, 5} { // exact data, or more behind
					in := append(append([]byte{}, d...), []byte{9, 8, 7, 6, 5}[:extra]...)
					in = in[:len(in):len(in)]
					o := make([]uint32, n)
					for l := range o {
						o[l] = ^w[l]
					}
					got := decode.GetUint32Scalar(in, o, ctrl, cnt)
					if got != len(d) || !slices.Equal(o, w) {
						c.Fail("GetUint32Scalar(% x, %#02x, count %d) = %d, %#x, want %d, %#x", in, ctrl, cnt, got, o, len(d), w)
					}
					for _, prev := range prevs {
						s := ref.Sums(w, prev, nil)
						for l := range o {
							o[l] = ^s[l]
						}
						got := decode.GetUint32DeltaScalar(in, o, ctrl, cnt, prev)
						if got != len(d) || !slices.Equal(o, s) {
							c.Fail("GetUint32DeltaScalar(% x, %#02x, count %d, start %#x) = %d, %#x, want %d, %#x", in, ctrl, cnt, prev, got, o, len(d), s)
						}
					}
					c.Word(1+len(prevs), n*(1+len(prevs)))
					c.Run(1 + len(prevs))
				}
			}})
			return ps
		}})
}
