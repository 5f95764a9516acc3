package main

import (
	"bytes"
	"fmt"
	"slices"

	"github.com/theMPatel/streamvbyte-simdgo/pkg/decode"
	"github.com/theMPatel/streamvbyte-simdgo/pkg/encode"

	"verif.local/harness/eng"
	"verif.local/harness/lib"
	"verif.local/harness/mem"
	"verif.local/harness/ref"
)

// arenas for the two buffers of a call; grown on demand.
type arenas struct{ a, b *mem.Arena }

func (m *arenas) need(a, b int) {
	if m.a == nil || m.a.Size < a {
		m.a = mem.New(a + a/2)
	}
	if m.b == nil || m.b.Size < b {
		m.b = mem.New(b + b/2)
	}
}

// describe explains a panic of a call in terms of its buffers.
func (m *arenas) describe(r interface{}, aName string, aOff, aLen int, bName string, bOff, bLen int) string {
	s := fmt.Sprint(r)
	if ad, ok := r.(interface{ Addr() uintptr }); ok {
		if o, v, ok := m.a.Where(ad.Addr()); ok {
			s += fmt.Sprintf(": access to byte %d relative to the %d-byte %s (%s view)", o-aOff, aLen, aName, v)
		} else if o, v, ok := m.b.Where(ad.Addr()); ok {
			s += fmt.Sprintf(": access to byte %d relative to the %d-byte %s (%s view)", o-bOff, bLen, bName, v)
		}
	}
	return s
}

const canary = 0xC7

// fillAround sets the bytes around [off,off+n) of the arena, 256 on each side.
func fillAround(a *mem.Arena, off, n int) {
	lo, hi := max(0, off-256), min(a.Size, off+n+256)
	b := a.Bytes(lo, hi-lo)
	for i := range b {
		if lo+i < off || lo+i >= off+n {
			b[i] = canary
		}
	}
}

// around reports the first changed byte around [off,off+n).
func around(a *mem.Arena, off, n int) (int, bool) {
	lo, hi := max(0, off-256), min(a.Size, off+n+256)
	b := a.Bytes(lo, hi-lo)
	for i := range b {
		if (lo+i < off || lo+i >= off+n) && b[i] != canary {
			return lo + i - off, true
		}
	}
	return 0, false
}

func init() {
	registerC08()
	registerC10()
	registerC23()
}

// memShapes is the shape space of the memory checks.
func memShapes(tier string) []shapePhase {
	if tier == "thorough" {
		return []shapePhase{allWords(11, []int{2}), uniform(2300), periodic(2300), runs(132), pairs(100), quadWords(9), large(22), twoParts(1100), lone(100, 128, 131, 200, 256, 260, 512, 515, 1024, 1030, 2048, 2051)}
	}
	if tier == "medium" {
		return []shapePhase{allWords(6, []int{2}), uniform(300), periodic(300), runs(52), pairs(36), quadWords(4), large(17)}
	}
	if reduced(tier) {
		return []shapePhase{allWords(6, []int{2}), uniform(133), periodic(133), runs(40), pairs(20), quadWords(3)}
	}
	return []shapePhase{allWords(9, []int{2}), uniform(1100), periodic(1500), runs(76), pairs(60), quadWords(7), large(20), twoParts(300), lone(100, 128, 131, 256, 260, 512, 1030)}
}

func registerC08() {
	var m arenas
	var cbuf []uint8
	var ctrl, data []byte
	var vals, sums []uint32
	register(&eng.Check{ID: "C08",
		Rule: "every stream shape of the enumerated spaces is decoded from memory that ends (then starts) exactly at an unmapped page, read-only, into an output slice that ends (then starts) exactly at an unmapped page; once more with slices whose capacity reaches into such pages; any access outside faults, the bytes on the other side are compared afterwards, and the result is compared with the model. state = one stream, transition = one number of it, trace = one decoding run.",
		Assumptions: []string{
			"an access that is out of the slice but stays inside the same mapped page is seen for writes (256 bytes on the mapped side are compared) and, for reads, in the other placement, where that side is unmapped",
		},
		Phases: func(tier string) []eng.Phase {
			var ps []eng.Phase
			for _, sp := range memShapes(tier) {
				sp := sp
				ps = append(ps, eng.Phase{Name: sp.name, N: sp.n, Run: func(c *eng.Ctx, i int64) {
					codes, mode := sp.gen(i, cbuf)
					cbuf = codes
					n := len(codes)
					data = dataBytes(data, codes, mode)
					ctrl = ctrlBytes(ctrl, codes, uint8(i))
					sl := len(ctrl) + len(data)
					m.need(sl, 4*n)
					vals = ref.DecodeSplit(n, ctrl, data, vals)
					prev := prevs[i%int64(len(prevs))]
					sums = ref.Sums(vals, prev, sums)
					for pl := 0; pl < 3; pl++ {
						so, oo := 0, 0
						if pl != 1 {
							so, oo = m.a.Size-sl, m.b.Size-4*n
						}
						copy(m.a.Bytes(so, sl), ctrl)
						copy(m.a.Bytes(so+len(ctrl), len(data)), data)
						stream := m.a.ROBytes(so, sl)
						out := m.b.Nums(oo, n)
						if pl == 2 {
							stream = mem.Spare(stream, mem.Spares[i%8])
							out = mem.Spare(out, mem.Spares[i/8%8]/4)
						}
						call := func(name string, want []uint32, f func()) {
							for k := range out {
								out[k] = ^want[k]
							}
							fillAround(m.b, oo, 4*n)
							if r := mem.Try(f); r != nil {
								c.Fail("%s(count %d, stream of exactly %d bytes, control bytes % x, %s): %s", name, n, sl, clipCtrl(ctrl), []string{"ending at an unmapped page", "starting after an unmapped page", "ending at an unmapped page, the slices' capacities being larger"}[pl],
									m.describe(r, "stream", so, sl, "output", oo, 4*n))
							}
							if at, bad := around(m.b, oo, 4*n); bad {
								c.Fail("%s(count %d): byte %d relative to the %d-byte output was written", name, n, at, 4*n)
							}
							if !slices.Equal(out, want) {
								c.Fail("%s(count %d, stream % x): %s", name, n, clipCtrl(stream), firstDiff32(out, want))
							}
							c.Run(1)
						}
						for _, r := range lib.Readers {
							call(r.Name, vals, func() { r.F(n, stream, out) })
						}
						for _, r := range lib.DeltaReaders {
							call(r.Name, sums, func() { r.F(n, stream, out, prev) })
						}
					}
					c.Word(1, n)
					c.Outcome(hashB(ctrl))
					c.Sample(func() string {
						return fmt.Sprintf("count %d, control % x, %d data bytes", n, clipCtrl(ctrl), len(data))
					})
				}})
			}
			return ps
		}})
}

func clipCtrl(b []byte) []byte {
	if len(b) > 24 {
		return b[:24]
	}
	return b
}

func registerC10() {
	var m arenas
	var cbuf []uint8
	var nums, sums, want32, pat []uint32
	var ctrl, data, stream []byte
	var wbuf [36]byte

	// readers: inputs read-only, the stream slice exact and longer than the
	// encoded bytes, the output slice exact and longer than the count, and
	// every combination of the two.
	readers := func(c *eng.Ctx, codes []uint8, mode int, i int64) {
		n := len(codes)
		data = dataBytes(data, codes, mode)
		ctrl = ctrlBytes(ctrl, codes, uint8(i>>3))
		stream = append(append(stream[:0], ctrl...), data...)
		const behind = 300
		m.need(len(stream)+behind, 4*(n+40)+64)
		want32 = ref.DecodeSplit(n, ctrl, data, want32)
		prev := prevs[i%int64(len(prevs))]
		sums = ref.Sums(want32, prev, sums)
		copy(m.a.Bytes(0, len(stream)), stream)
		tailS := m.a.Bytes(len(stream), behind)
		for k := range tailS {
			tailS[k] = byte(k*37 + 1)
		}
		longer := [...]int{1, 2, 3, 5, 12, 16, 32, 64, 256, 300}[(i/3)%10]
		for v := 0; v < 4; v++ {
			extra, trail := 0, 0
			if v&1 != 0 {
				extra = [...]int{1, 3, 4, 7, 8, 40}[i%6]
			}
			if v&2 != 0 {
				trail = longer
			}
			ro := m.a.ROBytes(0, len(stream)+behind)[:len(stream)+trail]
			out := m.b.Nums(32, n+extra)
			call := func(name string, want []uint32, f func()) {
				for k := range out {
					out[k] = 0xC7C7C7C7
					if k < n {
						out[k] = ^want[k]
					}
				}
				fillAround(m.b, 32, 4*(n+extra))
				if r := mem.Try(f); r != nil {
					c.Fail("%s(count %d, %d bytes after the stream, %d elements after the count): %s", name, n, trail, extra, m.describe(r, "stream", 0, len(ro), "output", 32, 4*(n+extra)))
				}
				if at, bad := around(m.b, 32, 4*(n+extra)); bad {
					c.Fail("%s(count %d, %d bytes after the stream): byte %d relative to the output of %d elements was written", name, n, trail, at, n+extra)
				}
				for k := n; k < len(out); k++ {
					if out[k] != 0xC7C7C7C7 {
						c.Fail("%s(count %d, %d bytes after the stream): element %d of the longer output was changed to %#x", name, n, trail, k, out[k])
					}
				}
				if !slices.Equal(out[:n], want) {
					c.Fail("%s(count %d, %d bytes after the stream): %s", name, n, trail, firstDiff32(out[:n], want))
				}
				c.Run(1)
			}
			for _, r := range lib.Readers {
				call(r.Name, want32, func() { r.F(n, ro, out) })
			}
			for _, r := range lib.DeltaReaders {
				call(r.Name, sums, func() { r.F(n, ro, out, prev) })
			}
			c.Word(1, n)
		}
	}
	// writers: input read-only, against the unmapped pages on either side.
	writers := func(c *eng.Ctx, codes []uint8, mode int, i int64) {
		n := len(codes)
		nums = numbers(nums, codes, mode)
		prev := prevs[i%int64(len(prevs))]
		sums = ref.Sums(nums, prev, sums)
		m.need(4*n, 0)
		for pl := 0; pl < 3; pl++ {
			off := 0
			if pl != 1 {
				off = m.a.Size - 4*n
			}
			ro := m.a.RONums(off, n)
			if pl == 2 {
				ro = mem.Spare(ro, mem.Spares[i%8]/4)
			}
			try := func(name string, src []uint32, f func() []byte) {
				copy(m.a.Nums(off, n), src)
				var got []byte
				if r := mem.Try(func() { got = f() }); r != nil {
					c.Fail("%s(%s): %s", name, clip(src), m.describe(r, "input", off, 4*n, "", 0, 0))
				}
				if !slices.Equal(m.a.Nums(off, n), src) {
					c.Fail("%s(%s): the input was changed: %s", name, clip(src), firstDiff32(m.a.Nums(off, n), src))
				}
				stream = ref.EncodeTo(stream, nums)
				if !bytes.Equal(got, stream) {
					c.Fail("%s(%s): %s", name, clip(src), firstDiffB(got, stream))
				}
				c.Run(1)
			}
			for _, w := range lib.Writers {
				try(w.Name, nums, func() []byte { return w.F(ro) })
			}
			for _, w := range lib.DeltaWriters {
				try(w.Name, sums, func() []byte { return w.F(ro, prev) })
			}
		}
		c.Word(1, n)
	}
	// a block encoder: cnt numbers in (read-only, flush with a guard), allowed
	// output bytes, everything else unchanged.
	encBlock := func(c *eng.Ctx, name string, in []uint32, wantCtrl uint16, want []byte, allowed int, f func(in []uint32, out []byte) uint16) {
		for pl := 0; pl < 3; pl++ {
			off, more := 0, 0
			if pl == 0 {
				off = m.a.Size - 4*len(in)
			}
			if pl == 2 { // more numbers than the block takes
				more = [...]int{1, 3, 5, 8, 40}[int(wantCtrl)%5]
				off = m.a.Size - 4*(len(in)+more)
				for k := range m.a.Nums(off, len(in)+more) {
					m.a.Nums(off, len(in)+more)[k] = 0xffffff7f << uint(k%25)
				}
			}
			copy(m.a.Nums(off, len(in)), in)
			ro := m.a.RONums(off, len(in)+more)
			for _, room := range []int{allowed, allowed + 40} {
				oo := 0
				if pl != 1 {
					oo = m.b.Size - room
				}
				out := m.b.Bytes(oo, room)
				for k := range out {
					out[k] = canary
				}
				fillAround(m.b, oo, room)
				ro := ro
				if pl == 0 { // capacity where nothing may be accessed
					ro = mem.Spare(ro, mem.Spares[wantCtrl%8]/4)
					out = mem.Spare(out, mem.Spares[wantCtrl/8%8])
				}
				var got uint16
				if r := mem.Try(func() { got = f(ro, out) }); r != nil {
					c.Fail("%s(%#x) with %d output bytes: %s", name, in, room, m.describe(r, "input", off, 4*len(in), "output", oo, room))
				}
				if got != wantCtrl || !bytes.Equal(out[:len(want)], want) {
					c.Fail("%s(%#x) = %#x % x, want %#x % x", name, in, got, out[:len(want)], wantCtrl, want)
				}
				for k := allowed; k < room; k++ {
					if out[k] != canary {
						c.Fail("%s(%#x): output byte %d was written; at most the first %d may be", name, in, k, allowed)
					}
				}
				if at, bad := around(m.b, oo, room); bad {
					c.Fail("%s(%#x): byte %d relative to the %d-byte output was written", name, in, at, room)
				}
				if !slices.Equal(m.a.Nums(off, len(in)), in) {
					c.Fail("%s: the input was changed", name)
				}
				c.Run(1)
			}
		}
	}
	// a block decoder: data bytes (room of them readable, and more of them), cnt
	// numbers written.
	decBlock := func(c *eng.Ctx, name string, ctrlv uint16, data []byte, room int, want []uint32, f func(in []byte, out []uint32)) {
		exact := room
		for pl := 0; pl < 4; pl++ {
			room := exact
			if pl >= 2 { // more data than the block needs
				room += [...]int{1, 3, 8, 32, 100}[int(ctrlv)%5]
			}
			off := 0
			if pl&1 == 0 {
				off = m.a.Size - room
			}
			b := m.a.Bytes(off, room)
			copy(b, data)
			for k := len(data); k < room; k++ {
				b[k] = byte(k*29 + 3)
			}
			ro := m.a.ROBytes(off, room)
			for _, extra := range []int{0, 9} {
				oo := 0
				if pl&1 == 0 {
					oo = m.b.Size - 4*(len(want)+extra)
				}
				out := m.b.Nums(oo, len(want)+extra)
				for k := range out {
					out[k] = 0xC7C7C7C7
					if k < len(want) {
						out[k] = ^want[k]
					}
				}
				fillAround(m.b, oo, 4*len(out))
				ro := ro
				if pl == 2 {
					ro = mem.Spare(ro, mem.Spares[ctrlv%8])
					out = mem.Spare(out, mem.Spares[ctrlv/8%8]/4)
				}
				if r := mem.Try(func() { f(ro, out) }); r != nil {
					c.Fail("%s(control %#x, %d data bytes in a buffer of %d): %s", name, ctrlv, len(data), room, m.describe(r, "data", off, room, "output", oo, 4*len(out)))
				}
				if !slices.Equal(out[:len(want)], want) {
					c.Fail("%s(control %#x, % x): %s", name, ctrlv, data, firstDiff32(out[:len(want)], want))
				}
				for k := len(want); k < len(out); k++ {
					if out[k] != 0xC7C7C7C7 {
						c.Fail("%s(control %#x): output element %d was changed to %#x", name, ctrlv, k, out[k])
					}
				}
				if at, bad := around(m.b, oo, 4*len(out)); bad {
					c.Fail("%s(control %#x): byte %d relative to the output was written", name, ctrlv, at)
				}
				c.Run(1)
			}
		}
	}

	register(&eng.Check{ID: "C10",
		Rule: "every enumerated call runs with its inputs in read-only memory against unmapped pages and its output (exact and longer) surrounded by canaries or unmapped pages; any write to an input or outside the documented output faults or changes a canary. All 65536 control words for the block encoders and decoders, all control bytes x counts for the partial ones, stream shapes for readers and writers. state = one input, transition = one number, trace = one library call.",
		Assumptions: []string{
			"writes further than 256 bytes from the output slice, inside other mapped memory, are not seen here (C09/C15 hash the package state)",
			"accelerated block functions are given the 32-byte buffers their callers provide (8 numbers of at most 4 bytes)",
		},
		Phases: func(tier string) []eng.Phase {
			var ps []eng.Phase
			var codes8 [8]uint8
			ps = append(ps, eng.Phase{Name: "block-encoders-all-length-words", N: 65536, Run: func(c *eng.Ctx, i int64) {
				m.need(4096, 4096)
				for l := range codes8 {
					codes8[l] = uint8(i>>(2*uint(l))) & 3
				}
				var d [8]uint32
				for l := range d {
					d[l] = number(codes8[l], 2, l+int(i%7))
				}
				w, size := ref.Put8(&d, &wbuf)
				prev := prevs[i%int64(len(prevs))]
				s := sumsOf(&d, prev)
				for _, p := range lib.Put8 {
					al := size
					if p.Fast {
						al = 32
					}
					encBlock(c, p.Name, d[:], w, wbuf[:size], al, p.F)
				}
				for _, p := range lib.Put8Delta {
					al := size
					if p.Fast {
						al = 32
					}
					encBlock(c, p.Name, s[:], w, wbuf[:size], al, func(in []uint32, out []byte) uint16 { return p.F(in, out, prev) })
				}
				if i < 256 {
					sz := ref.DataLen([]byte{byte(i)}, 4)
					encBlock(c, "Put4uint32Scalar", d[:4], w&0xff, wbuf[:sz], sz, func(in []uint32, out []byte) uint16 { return uint16(encode.Put4uint32Scalar(in, out)) })
					encBlock(c, "Put4uint32DeltaScalar", s[:4], w&0xff, wbuf[:sz], sz, func(in []uint32, out []byte) uint16 { return uint16(encode.Put4uint32DeltaScalar(in, out, prev)) })
					for n := 0; n <= 4; n++ {
						sz := ref.DataLen([]byte{byte(i)}, n)
						cw := w & (1<<(2*uint(n)) - 1)
						encBlock(c, "PutUint32Scalar", d[:n], cw, wbuf[:sz], sz, func(in []uint32, out []byte) uint16 { return uint16(encode.PutUint32Scalar(in, out, n)) })
						encBlock(c, "PutUint32DeltaScalar", s[:n], cw, wbuf[:sz], sz, func(in []uint32, out []byte) uint16 { return uint16(encode.PutUint32DeltaScalar(in, out, n, prev)) })
					}
				}
				c.Word(1, 8)
				c.Outcome(uint64(w))
			}})
			ps = append(ps, eng.Phase{Name: "block-decoders-all-control-words", N: 65536, Run: func(c *eng.Ctx, i int64) {
				m.need(4096, 4096)
				for l := range codes8 {
					codes8[l] = uint8(i>>(2*uint(l))) & 3
				}
				data = dataBytes(data, codes8[:], []int{2, 1}[i&1])
				cb := []byte{byte(i), byte(i >> 8)}
				prev := prevs[i%int64(len(prevs))]
				want32 = ref.DecodeSplit(8, cb, data, want32)
				sums = ref.Sums(want32, prev, sums)
				for _, g := range lib.Get8 {
					room := len(data)
					if g.Fast {
						room = 32
					}
					decBlock(c, g.Name, uint16(i), data, room, want32, func(in []byte, out []uint32) { g.F(in, out, uint16(i)) })
				}
				for _, g := range lib.Get8Delta {
					room := len(data)
					if g.Fast {
						room = 32
					}
					decBlock(c, g.Name, uint16(i), data, room, sums, func(in []byte, out []uint32) { g.F(in, out, uint16(i), prev) })
				}
				if i < 256 {
					b := uint8(i)
					d4 := data[:ref.DataLen(cb, 4)]
					decBlock(c, "Get4uint32Scalar", uint16(b), d4, len(d4), want32[:4], func(in []byte, out []uint32) { decode.Get4uint32Scalar(in, out, b) })
					decBlock(c, "Get4uint32DeltaScalar", uint16(b), d4, len(d4), sums[:4], func(in []byte, out []uint32) { decode.Get4uint32DeltaScalar(in, out, b, prev) })
					for n := 0; n <= 4; n++ {
						dn := data[:ref.DataLen(cb, n)]
						decBlock(c, "GetUint32Scalar", uint16(b), dn, len(dn), want32[:n], func(in []byte, out []uint32) { decode.GetUint32Scalar(in, out, b, n) })
						decBlock(c, "GetUint32DeltaScalar", uint16(b), dn, len(dn), sums[:n], func(in []byte, out []uint32) { decode.GetUint32DeltaScalar(in, out, b, n, prev) })
					}
				}
				c.Word(1, 8)
				c.Sample(func() string { return fmt.Sprintf("control %#04x data % x", i, data) })
			}})
			for _, sp := range memShapes(tier) {
				sp := sp
				ps = append(ps, eng.Phase{Name: "readers-" + sp.name, N: sp.n, Run: func(c *eng.Ctx, i int64) {
					codes, mode := sp.gen(i, cbuf)
					cbuf = codes
					readers(c, codes, mode, i)
					c.Outcome(hashB(codes))
				}}, eng.Phase{Name: "writers-" + sp.name, N: sp.n, Run: func(c *eng.Ctx, i int64) {
					codes, mode := sp.gen(i, cbuf)
					cbuf = codes
					writers(c, codes, mode, i)
				}})
			}
			_ = pat
			return ps
		}})
}

func registerC23() {
	ar := [3]*mem.Arena{}
	// across: the slices lie across odd multiples of 1<<across, if not 0.
	// There are few multiples of the largest powers: only one slice of three
	// then lies across one.
	across, only := uint(0), 0
	const scarce = 44
	type where struct {
		bit uint
		k   int
	}
	far := map[where]*mem.Arena{}
	get := func(k, n int) *mem.Arena {
		if across != 0 && (across < scarce || k == only) {
			w := where{across, k}
			if a := far[w]; a == nil || a.Size < n {
				which := uint(k)
				for o := 0; o < 3; o++ {
					if a := far[where{across, o}]; a != nil && (o == k || across >= scarce) {
						a.Unmap()
						delete(far, where{across, o})
					}
				}
				if across >= scarce {
					which = 0
				}
				far[w] = mem.NewAt(across, which, n)
			}
			return far[w]
		}
		if ar[k] == nil || ar[k].Size < n {
			ar[k] = mem.New(n * 2)
		}
		return ar[k]
	}
	// the start of a slice: alignment within a cache line, and the line's
	// position relative to a page boundary.
	type place struct{ off int }
	placesB := func(n int, full bool) (ps []int) {
		for o := 0; o < 64; o++ {
			ps = append(ps, 4096+o)
		}
		for k := 1; k <= 40; k++ { // straddling a page boundary
			ps = append(ps, 8192-k)
		}
		if n > 0 {
			ps = append(ps, 8192-n, 8192-n+1, 8192-n/2)
		}
		return
	}
	type fillKind struct {
		spare int
		val   byte
	}
	spares := []fillKind{{0, 0}, {1, 0xff}, {3, 0}, {16, 0x5a}, {64, 0xff}, {2000, 0x81}, {7, 0xff}}
	// on lays n bytes at off with spare capacity of the given kind.
	on := func(a *mem.Arena, off, n int, f fillKind) []byte {
		b := a.Bytes(off-64, n+128+f.spare)
		for k := range b {
			b[k] = f.val
		}
		return a.Bytes(off, n+f.spare)[:n]
	}
	on32 := func(a *mem.Arena, off, n int, f fillKind) []uint32 {
		b := a.Bytes(off-64, 4*n+128+4*f.spare)
		for k := range b {
			b[k] = f.val
		}
		return a.Nums(off, n+f.spare)[:n]
	}
	var nums, sums, dec, decS []uint32
	var stream, data, ctrl, cs, wbuf []byte
	var cbuf []uint8
	register(&eng.Check{ID: "C23",
		Rule:        "every enumerated call is repeated with its slices at every byte alignment within a cache line (every element alignment for uint32), at every position straddling a page boundary within 40 bytes, across odd multiples of every power of two that an address can cross (2^13 to 2^46), and with several amounts and contents of spare capacity; each result is compared with the model. state = one (input, placement), transition = one number, trace = one library call.",
		Assumptions: []string{"placements are enumerated relative to cache lines, pages and powers of two; the streams that writers return are where the allocator puts them"},
		Phases: func(tier string) []eng.Phase {
			var ps []eng.Phase
			blocks := [][]uint8{}
			for w := 0; w < 65536; w += 1 {
				if w%257 == 0 || w%4369 == 0 || w == 0x1b1b || w == 0xb1e4 || tier == "thorough" && w%41 == 0 {
					var cd []uint8
					for l := 0; l < 8; l++ {
						cd = append(cd, uint8(w>>(2*uint(l)))&3)
					}
					blocks = append(blocks, cd)
				}
			}
			nPl := len(placesB(1, true))
			block := func(c *eng.Ctx, i int64) {
				cd := blocks[i%int64(len(blocks))]
				pi := int(i) / len(blocks)
				in, o32, oB := get(0, 32768), get(1, 32768), get(2, 32768)
				var d [8]uint32
				for l := range d {
					d[l] = number(cd[l], 2, l+int(i%11))
				}
				prev := prevs[i%int64(len(prevs))]
				s := sumsOf(&d, prev)
				var wb [36]byte
				w, size := ref.Put8(&d, &wb)
				data = dataBytes(data, cd, 2)
				cb := []byte{byte(w), byte(w >> 8)}
				dec = ref.DecodeSplit(8, cb, data, dec)
				decS = ref.Sums(dec, prev, decS)
				plA := placesB(32, true)[pi]
				for q := 0; q < 16; q++ { // element alignments
					pl32 := 4096 + 4*q
					if q >= 10 {
						pl32 = 8192 - 4*(q-9)
					}
					sp := spares[(int(i)+q)%len(spares)]
					// encoders: numbers at pl32, bytes at plA
					for _, p := range lib.Put8 {
						src := on32(in, pl32, 8, sp)
						copy(src, d[:])
						out := on(oB, plA, 32, sp)
						if got := p.F(src, out); got != w || !bytes.Equal(out[:size], wb[:size]) {
							c.Fail("%s(%#x) with input at offset %d mod 64, output at %d mod 64 (page offsets %d, %d), %d spare = %#04x % x, want %#04x % x", p.Name, d, pl32%64, plA%64, pl32%4096, plA%4096, sp.spare, got, out[:size], w, wb[:size])
						}
					}
					for _, p := range lib.Put8Delta {
						src := on32(in, pl32, 8, sp)
						copy(src, s[:])
						out := on(oB, plA, 32, sp)
						if got := p.F(src, out, prev); got != w || !bytes.Equal(out[:size], wb[:size]) {
							c.Fail("%s(%#x, start %#x) with input at offset %d mod 64, output at %d mod 64, %d spare = %#04x % x, want %#04x % x", p.Name, s, prev, pl32%64, plA%64, sp.spare, got, out[:size], w, wb[:size])
						}
					}
					for _, g := range lib.Get8 {
						src := on(oB, plA, 32, sp)
						copy(src, data)
						out := on32(o32, pl32, 8, sp)
						g.F(src, out, w)
						if !slices.Equal(out, dec) {
							c.Fail("%s(% x, %#04x) with data at offset %d mod 64, output at %d mod 64, %d spare = %#x, want %#x", g.Name, data, w, plA%64, pl32%64, sp.spare, out, dec)
						}
					}
					for _, g := range lib.Get8Delta {
						src := on(oB, plA, 32, sp)
						copy(src, data)
						out := on32(o32, pl32, 8, sp)
						g.F(src, out, w, prev)
						if !slices.Equal(out, decS) {
							c.Fail("%s(% x, %#04x, start %#x) with data at offset %d mod 64, output at %d mod 64, %d spare = %#x, want %#x", g.Name, data, w, prev, plA%64, pl32%64, sp.spare, out, decS)
						}
					}
					// the 4-number and partial forms
					for n := 0; n <= 5; n++ { // 5: the 4-number form
						m := min(n, 4)
						cw := uint8(w)
						if m < 4 {
							cw &= 1<<(2*uint(m)) - 1
						}
						sz := ref.DataLen(cb, m)
						for dl := 0; dl < 2; dl++ {
							src := on32(in, pl32, m, sp)
							copy(src, d[:])
							if dl == 1 {
								copy(src, s[:])
							}
							out := on(oB, plA, sz, sp)
							var got uint8
							name := "PutUint32"
							switch {
							case n == 5 && dl == 0:
								name, got = "Put4uint32", encode.Put4uint32Scalar(src, out)
							case n == 5:
								name, got = "Put4uint32Delta", encode.Put4uint32DeltaScalar(src, out, prev)
							case dl == 0:
								got = encode.PutUint32Scalar(src, out, m)
							default:
								name, got = "PutUint32Delta", encode.PutUint32DeltaScalar(src, out, m, prev)
							}
							if got != cw || !bytes.Equal(out, wb[:sz]) {
								c.Fail("%sScalar(%#x, count %d) with input at offset %d mod 64, output at %d mod 64, %d spare = %#02x % x, want %#02x % x", name, src, m, pl32%64, plA%64, sp.spare, got, out, cw, wb[:sz])
							}
							data4 := on(oB, plA, sz, sp)
							copy(data4, data)
							vals := on32(o32, pl32, m, sp)
							want := dec[:m]
							if dl == 1 {
								want = decS[:m]
							}
							used := sz
							name = "GetUint32"
							switch {
							case n == 5 && dl == 0:
								name = "Get4uint32"
								decode.Get4uint32Scalar(data4, vals, uint8(w))
							case n == 5:
								name = "Get4uint32Delta"
								decode.Get4uint32DeltaScalar(data4, vals, uint8(w), prev)
							case dl == 0:
								used = decode.GetUint32Scalar(data4, vals, uint8(w), m)
							default:
								name = "GetUint32Delta"
								used = decode.GetUint32DeltaScalar(data4, vals, uint8(w), m, prev)
							}
							if used != sz || !slices.Equal(vals, want) {
								c.Fail("%sScalar(% x, %#02x, count %d) with data at offset %d mod 64, output at %d mod 64, %d spare: %d bytes, %#x; want %d, %#x", name, data4, uint8(w), m, plA%64, pl32%64, sp.spare, used, vals, sz, want)
							}
						}
					}
					c.Run(4*len(lib.Put8) + 24)
				}
				c.Word(16, 16*8)
				c.Outcome(uint64(w)<<8 | uint64(pi))
			}
			ps = append(ps, eng.Phase{Name: "blocks", N: int64(len(blocks) * nPl), Run: block})
			maxN := 140
			larger := []int{160, 256, 259, 300, 511, 512, 513, 1000, 1024, 1500, 2048, 4096, 4099, 8192, 10000, 65536, 70001}
			if tier == "thorough" {
				maxN = 700
				larger = append(larger, 1023, 1025, 16384, 1<<18+5)
			}
			if reduced(tier) {
				maxN, larger = 70, nil
			}
			// streams of every count to maxN and larger ones at every placement
			moreSpare := 0
			streams := func(c *eng.Ctx, n, pi, qs, trail int) {
				cbuf = grow8(cbuf, n)
				for l := range cbuf {
					cbuf[l] = uint8((l*l+l/3+pi)>>1) & 3
				}
				mode := []int{2, 4, 1}[pi%3]
				nums = numbers(nums, cbuf, mode)
				data = dataBytes(data, cbuf, 2)
				ctrl = ctrlBytes(ctrl, cbuf, uint8(pi))
				prev := prevs[(n+pi)%len(prevs)]
				sums = ref.Sums(nums, prev, sums)
				wbuf = ref.EncodeTo(wbuf, nums)
				dec = ref.DecodeSplit(n, ctrl, data, dec)
				decS = ref.Sums(dec, prev, decS)
				cs = append(append(cs[:0], ctrl...), data...)
				for k := 0; k < trail; k++ { // bytes behind the encoded integers
					cs = append(cs, byte(k*91+7))
				}
				pls := placesB(len(cs), true)
				if pi >= len(pls) {
					return
				}
				room := 32768 + 8*n + 4*moreSpare
				in, o32, oB := get(0, room), get(1, room), get(2, room)
				plA := pls[pi]
				if plA < 128 {
					return
				}
				for q0 := 0; q0 < qs; q0++ {
					q := q0
					if qs < 16 {
						q = (q0*5 + pi) % 16
					}
					pl32 := 4096 + 4*q
					if across != 0 {
						pl32 = 8192 - 4*((pi*3+q0)%(min(n, 1900)+2))
					}
					sp := spares[(pi+q)%len(spares)]
					if moreSpare > 0 {
						sp = fillKind{moreSpare, byte(0xff * (pi & 1))}
					}
					for _, w := range lib.Writers {
						src := on32(in, pl32, n, sp)
						copy(src, nums)
						stream = w.F(src)
						if !bytes.Equal(stream, wbuf) {
							c.Fail("%s(%s) with input at offset %d mod 64, %d spare: %s", w.Name, clip(nums), pl32%64, sp.spare, firstDiffB(stream, wbuf))
						}
					}
					for _, w := range lib.DeltaWriters {
						src := on32(in, pl32, n, sp)
						copy(src, sums)
						stream = w.F(src, prev)
						if !bytes.Equal(stream, wbuf) {
							c.Fail("%s(%s, start %#x) with input at offset %d mod 64, %d spare: %s", w.Name, clip(sums), prev, pl32%64, sp.spare, firstDiffB(stream, wbuf))
						}
					}
					for _, r := range lib.Readers {
						src := on(oB, plA, len(cs), sp)
						copy(src, cs)
						out := on32(o32, pl32, n, sp)
						r.F(n, src, out)
						if !slices.Equal(out, dec) {
							c.Fail("%s(count %d) with stream at offset %d mod 64 (%d in its page), output at %d mod 64, %d spare bytes %#x: %s", r.Name, n, plA%64, plA%4096, pl32%64, sp.spare, sp.val, firstDiff32(out, dec))
						}
					}
					for _, r := range lib.DeltaReaders {
						src := on(oB, plA, len(cs), sp)
						copy(src, cs)
						out := on32(o32, pl32, n, sp)
						r.F(n, src, out, prev)
						if !slices.Equal(out, decS) {
							c.Fail("%s(count %d, start %#x) with stream at offset %d mod 64 (%d in its page), output at %d mod 64, %d spare bytes %#x: %s", r.Name, n, prev, plA%64, plA%4096, pl32%64, sp.spare, sp.val, firstDiff32(out, decS))
						}
					}
					c.Run(4 * len(lib.Writers))
				}
				c.Word(qs, qs*n)
				c.Outcome(uint64(n)<<16 | uint64(pi))
				c.Sample(func() string { return fmt.Sprintf("%d numbers, stream at page offset %d", n, plA%4096) })
			}
			ps = append(ps, eng.Phase{Name: "streams", N: int64(maxN+1) * int64(nPl+3), Run: func(c *eng.Ctx, i int64) {
				streams(c, int(i)/(nPl+3), int(i)%(nPl+3), 16, 0)
			}})
			ps = append(ps, eng.Phase{Name: "longer-slices", N: int64(maxN+1) * int64(nPl+3), Run: func(c *eng.Ctx, i int64) {
				streams(c, int(i)/(nPl+3), int(i)%(nPl+3), 3, 1+int(i)%7*int(i)%50)
			}})
			if len(larger) > 0 {
				ps = append(ps, eng.Phase{Name: "larger-streams", N: int64(len(larger)) * int64(nPl+3), Run: func(c *eng.Ctx, i int64) {
					streams(c, larger[int(i)/(nPl+3)], int(i)%(nPl+3), 16, 0)
				}})
			}
			hugeN := []int{0, 1, 3, 4, 5, 8, 9, 17, 33, 70, 300, 1025}
			hugeS := []int{4096, 65536, 1<<20 + 1}
			ps = append(ps, eng.Phase{Name: "much-spare-capacity", N: int64(len(hugeN) * len(hugeS) * 8), Run: func(c *eng.Ctx, i int64) {
				moreSpare = hugeS[i/8%3]
				streams(c, hugeN[i/24], int(i%8)*9, 2, 0)
				moreSpare = 0
			}})
			// across every power of two that an address can cross
			if !reduced(tier) {
				const first, last, straddling = 13, 46, 43
				farN := []int{100, 129, 140, 255, 256, 300, 511, 1025}
				for n := 70; n >= 0; n-- {
					farN = append([]int{n}, farN...)
				}
				ps = append(ps, eng.Phase{Name: "streams-across-powers-of-two", N: int64(last-first+1) * int64(len(farN)) * straddling, Run: func(c *eng.Ctx, i int64) {
					n := int64(len(farN)) * straddling
					across = first + uint(i/n)
					defer func() { across = 0 }()
					i %= n
					only = int(i % 3)
					if get(2, 65536) == nil || get(1, 65536) == nil || get(0, 65536) == nil {
						c.Cap(fmt.Sprintf("no memory across a multiple of 2^%d", across))
						return
					}
					streams(c, farN[i/straddling], 64+int(i%straddling), 2, 0)
				}}, eng.Phase{Name: "blocks-across-powers-of-two", N: int64(last-first+1) * int64((len(blocks)+8)/9) * (straddling - 3), Run: func(c *eng.Ctx, i int64) {
					n := int64((len(blocks)+8)/9) * (straddling - 3)
					across = first + uint(i/n)
					defer func() { across = 0 }()
					i %= n
					only = int(i % 3)
					if get(2, 32768) == nil || get(1, 32768) == nil || get(0, 32768) == nil {
						c.Cap(fmt.Sprintf("no memory across a multiple of 2^%d", across))
						return
					}
					block(c, i*9%int64(len(blocks))+(64+i/int64((len(blocks)+8)/9))*int64(len(blocks)))
				}})
			}
			return ps
		}})
}

func init() { extraIDs = []string{"C08", "C10"} }
