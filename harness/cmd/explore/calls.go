package main

import (
	"bytes"
	"fmt"
	"slices"

	"github.com/theMPatel/streamvbyte-simdgo/pkg/decode"
	"github.com/theMPatel/streamvbyte-simdgo/pkg/encode"
	"github.com/theMPatel/streamvbyte-simdgo/pkg/util"

	"verif.local/harness/lib"
	"verif.local/harness/ref"
)

// A call is one fully specified call of an entry point, with its result
// according to the model.
type call struct {
	name       string
	group      string // entry point
	inN        []uint32
	inB        []byte
	outN, outB int // sizes of the output slices
	run        func(a *inst)
	wantN      []uint32
	wantB      []byte // the first bytes of the byte output
	wantRet    []byte
	wantRes    int
	panics     bool
	ctrl       int   // control bits of a block to be decoded
	other      *call // the same entry point on other numbers (C14)
}

// inst is one execution's arguments and results.
type inst struct {
	inN  []uint32
	inB  []byte
	outN []uint32
	outB []byte
	ret  []byte
	res  int
	err  interface{}
	drop bool // the call gets the only reference to its input
}

func (a *inst) nums() (n []uint32) {
	n = a.inN
	if a.drop {
		a.inN = nil
	}
	return
}

func (a *inst) data() (b []byte) {
	b = a.inB
	if a.drop {
		a.inB = nil
	}
	return
}

func (k *call) exec(a *inst) {
	a.ret, a.res, a.err = nil, 0, nil
	if k.panics {
		defer func() { a.err = recover() }()
	}
	k.run(a)
}

// verdict compares a finished call with the model.
func (k *call) verdict(a *inst) string {
	switch {
	case k.panics:
		if a.err == nil {
			return "accepted a buffer that is too short"
		}
		return ""
	case a.res != k.wantRes:
		return fmt.Sprintf("returned %#x, want %#x", a.res, k.wantRes)
	case k.wantRet != nil && !bytes.Equal(a.ret, k.wantRet):
		return "stream: " + firstDiffB(a.ret, k.wantRet)
	case !slices.Equal(a.outN, k.wantN):
		return "numbers: " + firstDiff32(a.outN, k.wantN)
	case !bytes.Equal(a.outB[:len(k.wantB)], k.wantB):
		return "bytes: " + firstDiffB(a.outB[:len(k.wantB)], k.wantB)
	}
	return ""
}

// fresh makes arguments of its own for the call.
func (k *call) fresh() *inst {
	return &inst{inN: slices.Clone(k.inN), inB: bytes.Clone(k.inB), outN: make([]uint32, k.outN), outB: make([]byte, k.outB)}
}

func ctrlOf(stream []byte, n int) int {
	c := 0
	for k := 0; k < ref.CtrlLen(n); k++ {
		c |= int(stream[k]) << (8 * uint(k))
	}
	return c
}

// callData: sequences with the same length and length codes, first and last
// number, but different numbers between (variants 0 and 1); numbers of one byte
// (variant 2) or of four (variant 3).
func callData(n, variant int) []uint32 {
	d := make([]uint32, n)
	if variant > 1 {
		for p := range d {
			d[p] = number(uint8(3*(variant-2)), 2, p)
		}
		return d
	}
	for p := range d {
		d[p] = number(uint8(p+n/4)&3, 2, p)
		if d[p] < 200 && d[p] > 100 {
			d[p] = 77
		}
	}
	if variant == 1 && n > 3 {
		// move something from one number to the next, keeping the lengths
		for p := 1; p+2 < n; p++ {
			a, b := d[p], d[p+1]
			if ref.Len(a+3) == ref.Len(a) && b >= 3 && ref.Len(b-3) == ref.Len(b) && a+3 > a {
				d[p], d[p+1] = a+3, b-3
				return d
			}
		}
		panic("no variant")
	}
	return d
}

const callPrev = 0xfffffff0

// callCatalog lists calls of every entry point. sizes: stream lengths, each
// with the number of data variants.
func callCatalog(sizes map[int]int) (ks []*call) {
	add := func(k call) { ks = append(ks, &k) }
	var order []int
	for n := range sizes {
		order = append(order, n)
	}
	slices.Sort(order)
	for _, n := range order {
		for v := 0; v < sizes[n]; v++ {
			d := callData(n, v)
			s := ref.Encode(d)
			nums := ref.Sums(d, callPrev, nil)
			n := n
			tag := fmt.Sprintf("(%d numbers, %c)", n, 'A'+v)
			for _, w := range lib.Writers {
				w := w
				add(call{name: w.Name + tag, group: w.Name, inN: d, wantRet: s, run: func(a *inst) { a.ret = w.F(a.nums()) }})
			}
			for _, w := range lib.DeltaWriters {
				w := w
				add(call{name: w.Name + tag, group: w.Name, inN: nums, wantRet: s, run: func(a *inst) { a.ret = w.F(a.nums(), callPrev) }})
			}
			for _, r := range lib.Readers {
				r := r
				add(call{name: r.Name + tag, group: r.Name, inB: s, outN: n, wantN: d, run: func(a *inst) { r.F(n, a.data(), a.outN) }})
			}
			for _, r := range lib.DeltaReaders {
				r := r
				add(call{name: r.Name + tag, group: r.Name, inB: s, outN: n, wantN: nums, run: func(a *inst) { r.F(n, a.data(), a.outN, callPrev) }})
			}
		}
	}
	for v := 0; v < 2; v++ {
		tag := fmt.Sprintf("(%c)", 'A'+v)
		d := callData(8, v)
		s := ref.Encode(d)
		ctrl := uint16(ctrlOf(s, 8))
		data := s[2:]
		nums := ref.Sums(d, callPrev, nil)
		buf := append(bytes.Clone(data), make([]byte, 32)...)[:32] // room for whole loads
		for k := range lib.Put8 {
			p, pd := lib.Put8[k], lib.Put8Delta[k]
			add(call{name: p.Name + tag, group: p.Name, inN: d, outB: 32, wantB: data, wantRes: int(ctrl), run: func(a *inst) { a.res = int(p.F(a.nums(), a.outB)) }})
			add(call{name: pd.Name + tag, group: pd.Name, inN: nums, outB: 32, wantB: data, wantRes: int(ctrl), run: func(a *inst) { a.res = int(pd.F(a.nums(), a.outB, callPrev)) }})
		}
		for k := range lib.Get8 {
			g, gd := lib.Get8[k], lib.Get8Delta[k]
			add(call{name: g.Name + tag, group: g.Name, ctrl: int(ctrl), inB: buf, outN: 8, wantN: d, run: func(a *inst) { g.F(a.data(), a.outN, ctrl) }})
			add(call{name: gd.Name + tag, group: gd.Name, ctrl: int(ctrl), inB: buf, outN: 8, wantN: nums, run: func(a *inst) { gd.F(a.data(), a.outN, ctrl, callPrev) }})
		}
		d4, n4 := d[:4], nums[:4]
		c4 := uint8(ctrl)
		data4 := data[:ref.DataLen(s, 4)]
		c3 := c4 & 0x3f
		data3 := data[:ref.DataLen(s, 3)]
		add(call{name: "Put4uint32Scalar" + tag, group: "Put4uint32Scalar", inN: d4, outB: len(data4), wantB: data4, wantRes: int(c4), run: func(a *inst) { a.res = int(encode.Put4uint32Scalar(a.nums(), a.outB)) }})
		add(call{name: "Put4uint32DeltaScalar" + tag, group: "Put4uint32DeltaScalar", inN: n4, outB: len(data4), wantB: data4, wantRes: int(c4), run: func(a *inst) { a.res = int(encode.Put4uint32DeltaScalar(a.nums(), a.outB, callPrev)) }})
		add(call{name: "PutUint32Scalar" + tag, group: "PutUint32Scalar", inN: d4[:3], outB: len(data3), wantB: data3, wantRes: int(c3), run: func(a *inst) { a.res = int(encode.PutUint32Scalar(a.nums(), a.outB, 3)) }})
		add(call{name: "PutUint32DeltaScalar" + tag, group: "PutUint32DeltaScalar", inN: n4[:3], outB: len(data3), wantB: data3, wantRes: int(c3), run: func(a *inst) { a.res = int(encode.PutUint32DeltaScalar(a.nums(), a.outB, 3, callPrev)) }})
		add(call{name: "Get4uint32Scalar" + tag, group: "Get4uint32Scalar", ctrl: int(c4), inB: data4, outN: 4, wantN: d4, run: func(a *inst) { decode.Get4uint32Scalar(a.data(), a.outN, c4) }})
		add(call{name: "Get4uint32DeltaScalar" + tag, group: "Get4uint32DeltaScalar", ctrl: int(c4), inB: data4, outN: 4, wantN: n4, run: func(a *inst) { decode.Get4uint32DeltaScalar(a.data(), a.outN, c4, callPrev) }})
		add(call{name: "GetUint32Scalar" + tag, group: "GetUint32Scalar", ctrl: int(c4), inB: data3, outN: 3, wantN: d[:3], wantRes: len(data3), run: func(a *inst) { a.res = decode.GetUint32Scalar(a.data(), a.outN, c4, 3) }})
		add(call{name: "GetUint32DeltaScalar" + tag, group: "GetUint32DeltaScalar", ctrl: int(c4), inB: data3, outN: 3, wantN: nums[:3], wantRes: len(data3), run: func(a *inst) { a.res = decode.GetUint32DeltaScalar(a.data(), a.outN, c4, 3, callPrev) }})
		var vb []byte
		for _, x := range d {
			vb = modelVarint(vb, x)
		}
		add(call{name: "PutVarint" + tag, group: "PutVarint", inN: d, outB: len(vb) + 10, wantB: vb, wantRes: len(vb), run: func(a *inst) { a.res = util.PutVarint(a.nums(), a.outB) }})
		add(call{name: "PutDeltaVarint" + tag, group: "PutDeltaVarint", inN: nums, outB: len(vb) + 10, wantB: vb, wantRes: len(vb), run: func(a *inst) { a.res = util.PutDeltaVarint(a.nums(), a.outB, callPrev) }})
		add(call{name: "GetVarint" + tag, group: "GetVarint", inB: vb, outN: 8, wantN: d, wantRes: len(vb), run: func(a *inst) { a.res = util.GetVarint(a.data(), a.outN) }})
		add(call{name: "GetDeltaVarint" + tag, group: "GetDeltaVarint", inB: vb, outN: 8, wantN: nums, wantRes: len(vb), run: func(a *inst) { a.res = util.GetDeltaVarint(a.data(), a.outN, callPrev) }})
	}
	return ks
}

// refusedCalls are calls of the portable functions that must panic part-way.
func refusedCalls() (ks []*call) {
	add := func(name string, inN []uint32, inB []byte, outN, outB int, f func(a *inst)) {
		ks = append(ks, &call{name: name, group: name, inN: inN, inB: inB, outN: outN, outB: outB, panics: true, run: f})
	}
	d := callData(21, 0)
	s := ref.Encode(d)
	short := s[:len(s)-1]
	add("ReadAllScalar(truncated)", nil, short, 21, 0, func(a *inst) { lib.Readers[1].F(21, a.data(), a.outN) })
	add("ReadAllDeltaScalar(truncated)", nil, short, 21, 0, func(a *inst) { lib.DeltaReaders[1].F(21, a.data(), a.outN, callPrev) })
	s8 := ref.Encode(d[:8])
	c8 := uint16(ctrlOf(s8, 8))
	add("Get8uint32Scalar(truncated)", nil, s8[2:len(s8)-1], 8, 0, func(a *inst) { lib.Get8[1].F(a.data(), a.outN, c8) })
	add("Put8uint32Scalar(short output)", d[:8], nil, 0, len(s8)-3, func(a *inst) { lib.Put8[1].F(a.nums(), a.outB) })
	add("Put8uint32DeltaScalar(short input)", d[:7], nil, 0, 32, func(a *inst) { lib.Put8Delta[1].F(a.nums(), a.outB, callPrev) })
	return
}

// refusedFor makes calls of the portable functions whose buffers are too
// short, cut at every byte, on data with the control byte b; after runs after
// each of them.
func refusedFor(b uint8, after func(name string)) int {
	var o [16]uint32
	var in [16]uint32
	var data [64]byte
	for l := range in {
		in[l] = number(b>>(2*uint(l%4))&3, 2, l)
	}
	calls := 0
	try := func(name string, f func()) {
		calls++
		func() {
			defer func() { recover() }()
			f()
		}()
		after(name)
	}
	for n := 1; n <= 4; n++ {
		for k := 0; k < ref.DataLen([]byte{b}, n); k++ {
			try("GetUint32Scalar", func() { decode.GetUint32Scalar(data[:k:k], o[:], b, n) })
			try("GetUint32DeltaScalar", func() { decode.GetUint32DeltaScalar(data[:k:k], o[:], b, n, 1) })
			try("Get4uint32Scalar", func() { decode.Get4uint32Scalar(data[:k:k], o[:], b) })
			try("Get4uint32DeltaScalar", func() { decode.Get4uint32DeltaScalar(data[:k:k], o[:], b, 1) })
			try("PutUint32Scalar", func() { encode.PutUint32Scalar(in[:n], data[:k:k], n) })
			try("PutUint32DeltaScalar", func() { encode.PutUint32DeltaScalar(in[:n], data[:k:k], n, 1) })
			try("Put4uint32Scalar", func() { encode.Put4uint32Scalar(in[:4], data[:k:k]) })
			try("Put4uint32DeltaScalar", func() { encode.Put4uint32DeltaScalar(in[:4], data[:k:k], 1) })
			if n == 4 {
				for _, w := range []uint16{uint16(b), uint16(b) << 8, uint16(b)<<8 | uint16(b)} {
					try("Get8uint32Scalar", func() { lib.Get8[1].F(data[:k:k], o[:], w) })
					try("Get8uint32DeltaScalar", func() { lib.Get8Delta[1].F(data[:k:k], o[:], w, 1) })
				}
				try("Put8uint32Scalar", func() { lib.Put8[1].F(in[:], data[:k:k]) })
				try("Put8uint32DeltaScalar", func() { lib.Put8Delta[1].F(in[:], data[:k:k], 1) })
			}
		}
		for k := 0; k < n; k++ { // too few numbers, too little room for them
			try("GetUint32Scalar", func() { decode.GetUint32Scalar(data[:], o[:k:k], b, n) })
			try("GetUint32DeltaScalar", func() { decode.GetUint32DeltaScalar(data[:], o[:k:k], b, n, 1) })
			try("Get4uint32Scalar", func() { decode.Get4uint32Scalar(data[:], o[:k:k], b) })
			try("Get4uint32DeltaScalar", func() { decode.Get4uint32DeltaScalar(data[:], o[:k:k], b, 1) })
			try("PutUint32Scalar", func() { encode.PutUint32Scalar(in[:k:k], data[:], n) })
			try("PutUint32DeltaScalar", func() { encode.PutUint32DeltaScalar(in[:k:k], data[:], n, 1) })
		}
	}
	for n := 1; n <= 16; n++ {
		s := lib.Writers[1].F(in[:n])
		for k := range s {
			try("ReadAllScalar", func() { lib.Readers[1].F(n, s[:k:k], o[:]) })
			try("ReadAllDeltaScalar", func() { lib.DeltaReaders[1].F(n, s[:k:k], o[:], 1) })
		}
	}
	return calls
}
