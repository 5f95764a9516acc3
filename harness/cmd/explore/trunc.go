package main

import (
	"fmt"
	"slices"

	"github.com/theMPatel/streamvbyte-simdgo/pkg/decode"
	"github.com/theMPatel/streamvbyte-simdgo/pkg/encode"

	"verif.local/harness/eng"
	"verif.local/harness/lib"
	"verif.local/harness/ref"
)

// panics reports whether f panics.
func panics(f func()) (p bool) {
	defer func() {
		if recover() != nil {
			p = true
		}
	}()
	f()
	return false
}

// portable returns the indices of the portable implementations in the lists.
func portable() []int {
	if len(lib.Readers) == 2 && lib.Portable {
		return []int{0, 1}
	}
	return []int{1}
}

var hidden = []int{0, 1, 16, 64} // spare capacity behind a short slice

func init() {
	var cbuf []uint8
	var ctrl, data, full []byte
	var out [1 << 17]uint32
	refuse := func(c *eng.Ctx, what func() string, f func()) {
		if !panics(f) {
			c.Fail("%s returned instead of panicking", what())
		}
		c.Run(1)
	}
	// short calls f with every proper prefix of b, with several amounts of the
	// missing bytes still present in the spare capacity.
	short := func(c *eng.Ctx, b []byte, want int, name string, f func(s []byte)) {
		for t := 0; t < want; t++ {
			for _, h := range hidden {
				hc := min(t+h, len(b))
				if h == 64 {
					hc = len(b)
				}
				s := b[:t:hc]
				refuse(c, func() string {
					return fmt.Sprintf("%s with %d of %d bytes (capacity %d; % x)", name, t, want, hc, clipCtl(b))
				}, func() { f(s) })
			}
		}
		c.Word(want, want)
	}
	register(&eng.Check{ID: "C11",
		Rule: "every proper prefix (every truncation point) of every enumerated stream and data block, with 0 to all missing bytes present in the spare capacity, is given to the portable readers and block decoders, and every too short output and input slice to the portable block encoders; each call must panic and nothing behind the slice may change. state = one truncated slice, transition = one truncation step, trace = one library call.",
		Assumptions: []string{
			"any panic counts as a refusal; negative counts and output slices shorter than the count are outside the property",
		},
		Phases: func(tier string) []eng.Phase {
			var ps []eng.Phase
			sps := []shapePhase{allWords(6, []int{2}), uniform(70), periodic(70)}
			if tier == "quick" {
				sps = []shapePhase{allWords(7, []int{2}), uniform(160), periodic(132), runs(24), pairs(20)}
			}
			if tier == "thorough" {
				sps = []shapePhase{allWords(8, []int{2}), uniform(300), periodic(260), runs(48), pairs(40)}
			}
			if tier == "small" {
				sps = []shapePhase{allWords(4, []int{2}), uniform(35)}
			}
			for _, sp := range sps {
				ps = append(ps, eng.Phase{Name: "readers-" + sp.name, N: sp.n, Run: func(c *eng.Ctx, i int64) {
					codes, mode := sp.gen(i, cbuf)
					cbuf = codes
					n := len(codes)
					data = dataBytes(data, codes, mode)
					ctrl = ctrlBytes(ctrl, codes, uint8(i))
					full = append(append(full[:0], ctrl...), data...)
					fl := len(full)
					for k := 0; k < 64; k++ { // more plausible bytes behind
						full = append(full, byte(k))
					}
					for _, k := range portable() {
						r, d := lib.Readers[k], lib.DeltaReaders[k]
						short(c, full, fl, fmt.Sprintf("%s(count %d)", r.Name, n), func(s []byte) { r.F(n, s, out[:n]) })
						short(c, full, fl, fmt.Sprintf("%s(count %d)", d.Name, n), func(s []byte) { d.F(n, s, out[:n], 7) })
					}
					c.Outcome(hashB(codes))
					c.Sample(func() string { return fmt.Sprintf("count %d, every prefix of % x", n, clipCtl(full[:fl])) })
				}})
			}
			// larger counts, in four class patterns: every truncation point of the
			// smaller ones, and of the larger ones the points around the control
			// bytes, around every 64th (1024th) number's data and the last 80.
			counts := []int{71, 72, 73, 79, 80, 81, 95, 96, 97, 111, 112, 113, 127, 128, 129, 131, 144, 160, 191, 192, 193, 250, 255, 256, 257, 260, 300, 319, 320, 321, 511, 512, 513, 600, 1000, 1023, 1024, 1025, 1200, 2048, 2049, 4096, 4097, 5000, 10000, 32768, 65535, 65536, 65537, 100000, 1<<17 - 1, 1 << 17}
			if tier == "small" {
				counts = counts[:12]
			}
			ps = append(ps, eng.Phase{Name: "readers-larger-counts", N: int64(len(counts)) * 6, Run: func(c *eng.Ctx, i int64) {
				n, pt := counts[i/6], int(i%6)
				codes := grow8(cbuf, n)
				cbuf = codes
				for k := range codes {
					switch {
					case pt < 4:
						codes[k] = uint8(pt)
					case pt == 4:
						codes[k] = uint8(k*7>>1) & 3
					default:
						codes[k] = uint8(k/4) & 3
					}
				}
				data = dataBytes(data, codes, 2)
				ctrl = ctrlBytes(ctrl, codes, uint8(i))
				full = append(append(full[:0], ctrl...), data...)
				fl := len(full)
				step, edge := 1, 80
				if n > 300 {
					step = 64
				}
				if n > 1200 {
					step, edge = 1024, 40
				}
				if n > 10000 {
					step, edge = 65536, 12
				}
				points := map[int]bool{}
				add := func(t int) {
					if t >= 0 && t < fl {
						points[t] = true
					}
				}
				for t := -edge; t <= edge; t++ {
					add(fl + t)
					add(len(ctrl) + t)
				}
				for t := 0; t < 3; t++ {
					add(t)
				}
				at := len(ctrl)
				for k := range codes {
					if k%step == 0 {
						for t := -2; t <= 2; t++ {
							add(at + t)
						}
					}
					at += int(codes[k]) + 1
				}
				pts := make([]int, 0, len(points))
				for t := range points {
					pts = append(pts, t)
				}
				slices.Sort(pts)
				for _, t := range pts {
					for _, hc := range []int{t, fl} {
						s := full[:t:hc]
						for _, k := range portable() {
							r, d := lib.Readers[k], lib.DeltaReaders[k]
							refuse(c, func() string {
								return fmt.Sprintf("%s(count %d) with %d of %d bytes (capacity %d; pattern %d)", r.Name, n, t, fl, hc, pt)
							}, func() { r.F(n, s, out[:n]) })
							refuse(c, func() string {
								return fmt.Sprintf("%s(count %d) with %d of %d bytes (capacity %d; pattern %d)", d.Name, n, t, fl, hc, pt)
							}, func() { d.F(n, s, out[:n], 7) })
						}
					}
				}
				c.Word(len(pts), len(pts))
				c.Outcome(uint64(n)<<8 | uint64(pt))
			}})
			ps = append(ps, eng.Phase{Name: "block-decoders", N: 65536, Run: func(c *eng.Ctx, i int64) {
				cb := []byte{byte(i), byte(i >> 8)}
				size := ref.Size8(uint16(i))
				var d [64]byte
				for k := range d {
					d[k] = byte(k*5 + 1)
				}
				for _, k := range portable() {
					g, gd := lib.Get8[k], lib.Get8Delta[k]
					short(c, d[:], size, fmt.Sprintf("%s(control %#04x)", g.Name, i), func(s []byte) { g.F(s, out[:8], uint16(i)) })
					short(c, d[:], size, fmt.Sprintf("%s(control %#04x)", gd.Name, i), func(s []byte) { gd.F(s, out[:8], uint16(i), 9) })
				}
				if i < 256 {
					b := uint8(i)
					sz := ref.DataLen(cb, 4)
					short(c, d[:], sz, fmt.Sprintf("Get4uint32Scalar(control %#02x)", b), func(s []byte) { decode.Get4uint32Scalar(s, out[:4], b) })
					short(c, d[:], sz, fmt.Sprintf("Get4uint32DeltaScalar(control %#02x)", b), func(s []byte) { decode.Get4uint32DeltaScalar(s, out[:4], b, 9) })
					for n := 1; n <= 6; n++ {
						sz := ref.DataLen(cb, min(n, 4))
						short(c, d[:], sz, fmt.Sprintf("GetUint32Scalar(control %#02x, count %d)", b, n), func(s []byte) { decode.GetUint32Scalar(s, out[:4], b, n) })
						short(c, d[:], sz, fmt.Sprintf("GetUint32DeltaScalar(control %#02x, count %d)", b, n), func(s []byte) { decode.GetUint32DeltaScalar(s, out[:4], b, n, 9) })
					}
				}
			}})
			var ob [128]byte
			// shortOut: every output slice too small for want bytes.
			shortOut := func(c *eng.Ctx, want int, name string, in []uint32, f func(in []uint32, out []byte)) {
				for t := 0; t < want; t++ {
					for _, h := range hidden {
						for k := t; k < t+h+8; k++ {
							ob[k] = 0xC7
						}
						s := ob[: t : t+h]
						refuse(c, func() string { return fmt.Sprintf("%s(%#x) needing %d output bytes, given %d", name, in, want, t) }, func() { f(in, s) })
						for k := t; k < t+h+8; k++ {
							if ob[k] != 0xC7 {
								c.Fail("%s(%#x) wrote byte %d of an output slice of %d", name, in, k, t)
							}
						}
					}
				}
				c.Word(want, want)
			}
			// shortIn: every input slice with too few numbers.
			shortIn := func(c *eng.Ctx, in []uint32, name string, f func(in []uint32, out []byte)) {
				back := make([]uint32, 2*len(in))
				copy(back, in)
				for t := 0; t < len(in); t++ {
					for _, hc := range []int{t, len(in), 2 * len(in)} {
						s := back[:t:hc]
						refuse(c, func() string { return fmt.Sprintf("%s with %d of %d numbers (capacity %d)", name, t, len(in), hc) }, func() { f(s, ob[:64]) })
					}
				}
				c.Word(len(in), len(in))
			}
			ps = append(ps, eng.Phase{Name: "block-encoders", N: 65536, Run: func(c *eng.Ctx, i int64) {
				var d [8]uint32
				for l := range d {
					d[l] = number(uint8(i>>(2*uint(l)))&3, 2, l+int(i%7))
				}
				size := ref.Size8(uint16(i))
				s := sumsOf(&d, 5)
				for _, k := range portable() {
					p, pd := lib.Put8[k], lib.Put8Delta[k]
					shortOut(c, size, p.Name, d[:], func(in []uint32, out []byte) { p.F(in, out) })
					shortOut(c, size, pd.Name, s[:], func(in []uint32, out []byte) { pd.F(in, out, 5) })
					if i%257 == 0 {
						shortIn(c, d[:], p.Name, func(in []uint32, out []byte) { p.F(in, out) })
						shortIn(c, s[:], pd.Name, func(in []uint32, out []byte) { pd.F(in, out, 5) })
					}
				}
				if i < 256 {
					for n := 1; n <= 4; n++ {
						sz := ref.DataLen([]byte{byte(i)}, n)
						put := func(in []uint32, out []byte) { encode.PutUint32Scalar(in, out, n) }
						putD := func(in []uint32, out []byte) { encode.PutUint32DeltaScalar(in, out, n, 5) }
						shortOut(c, sz, fmt.Sprintf("PutUint32Scalar(count %d)", n), d[:4], put)
						shortOut(c, sz, fmt.Sprintf("PutUint32DeltaScalar(count %d)", n), s[:4], putD)
						shortIn(c, d[:n], fmt.Sprintf("PutUint32Scalar(count %d)", n), put)
						shortIn(c, s[:n], fmt.Sprintf("PutUint32DeltaScalar(count %d)", n), putD)
					}
					sz := ref.DataLen([]byte{byte(i)}, 4)
					for _, n := range []int{5, 6, 8, 300} { // counts above 4 are 4
						put := func(in []uint32, out []byte) { encode.PutUint32Scalar(in, out, n) }
						putD := func(in []uint32, out []byte) { encode.PutUint32DeltaScalar(in, out, n, 5) }
						shortOut(c, sz, fmt.Sprintf("PutUint32Scalar(count %d)", n), d[:4], put)
						shortOut(c, sz, fmt.Sprintf("PutUint32DeltaScalar(count %d)", n), s[:4], putD)
						shortIn(c, d[:4], fmt.Sprintf("PutUint32Scalar(count %d)", n), put)
						shortIn(c, s[:4], fmt.Sprintf("PutUint32DeltaScalar(count %d)", n), putD)
					}
					put := func(in []uint32, out []byte) { encode.Put4uint32Scalar(in, out) }
					putD := func(in []uint32, out []byte) { encode.Put4uint32DeltaScalar(in, out, 5) }
					shortOut(c, sz, "Put4uint32Scalar", d[:4], put)
					shortOut(c, sz, "Put4uint32DeltaScalar", s[:4], putD)
					shortIn(c, d[:4], "Put4uint32Scalar", put)
					shortIn(c, s[:4], "Put4uint32DeltaScalar", putD)
				}
				c.Outcome(uint64(i))
			}})
			return ps
		}})
}

func clipCtl(b []byte) []byte {
	if len(b) > 32 {
		return b[:32]
	}
	return b
}
