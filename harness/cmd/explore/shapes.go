package main

import (
	"fmt"
	"sort"
)

// A shape is a word over the four length classes (code 0..3 = 1..4 bytes) plus
// a fill mode that turns it into numbers or data bytes. The phases below
// enumerate finite sets of shapes; every case index is a different shape.

const modes = 5

var classMin = [4]uint32{0, 1 << 8, 1 << 16, 1 << 24}
var classMax = [4]uint32{1<<8 - 1, 1<<16 - 1, 1<<24 - 1, 1<<32 - 1}

// number gives the number of class c at position p: always of exactly c+1 bytes.
func number(c uint8, mode int, p int) uint32 {
	top := uint(8 * c)
	switch mode {
	case 0: // smallest
		return classMin[c]
	case 1: // largest
		return classMax[c]
	case 2: // bytes tagged by position
		h := uint32(p)*2654435761 + 0x7f4a7c15
		h ^= h >> 15
		h *= 0x85ebca6b
		v := h & classMax[c]
		if c > 0 && v>>top == 0 {
			v |= uint32(p%255+1) << top
		}
		return v
	case 3: // only the top byte set
		if c == 0 {
			return uint32(p) & 0xff
		}
		return uint32(p%255+1) << top
	default: // sign bits
		return 0x80<<top | uint32(0x80)&classMax[c]>>1
	}
}

func numbers(buf []uint32, codes []uint8, mode int) []uint32 {
	buf = grow32(buf, len(codes))
	for i, c := range codes {
		buf[i] = number(c, mode, i)
	}
	return buf
}

// dataBytes gives the data bytes for a stream with the given codes; unlike
// numbers it also makes non-minimal encodings.
func dataBytes(buf []byte, codes []uint8, mode int) []byte {
	buf = buf[:0]
	for p, c := range codes {
		for k := 0; k <= int(c); k++ {
			var b byte
			switch mode {
			case 0:
				b = 0
			case 1:
				b = 0xff
			case 2:
				h := uint32(len(buf))*2654435761 + 0x3c6ef372
				h ^= h >> 13
				h *= 0xc2b2ae35
				b = byte(h >> 16)
			case 3:
				if k == int(c) {
					b = byte(p%255 + 1)
				}
			default:
				if k == 0 {
					b = 0x80
				}
			}
			buf = append(buf, b)
		}
	}
	return buf
}

// ctrlBytes packs codes; the unused codes of the last byte get the low bits of pad.
func ctrlBytes(buf []byte, codes []uint8, pad uint8) []byte {
	n := (len(codes) + 3) / 4
	buf = buf[:0]
	for i := 0; i < n; i++ {
		var b byte
		for j := 0; j < 4; j++ {
			c := pad & 3
			if 4*i+j < len(codes) {
				c = codes[4*i+j]
			} else {
				pad >>= 2
			}
			b |= c << (2 * uint(j))
		}
		buf = append(buf, b)
	}
	return buf
}

func grow32(b []uint32, n int) []uint32 {
	if cap(b) < n {
		return make([]uint32, n, n+n/2)
	}
	return b[:n]
}
func growB(b []byte, n int) []byte {
	if cap(b) < n {
		return make([]byte, n, n+n/2)
	}
	return b[:n]
}

type shapePhase struct {
	name string
	n    int64
	gen  func(i int64, buf []uint8) (codes []uint8, mode int)
}

func grow8(b []uint8, n int) []uint8 { return growB(b, n) }

// allWords: every class word of length 0..maxN, in the given modes.
func allWords(maxN int, ms []int) shapePhase {
	starts := []int64{0}
	p := int64(1)
	for n := 0; n <= maxN; n++ {
		starts = append(starts, starts[n]+p)
		p *= 4
	}
	per := starts[maxN+1]
	return shapePhase{fmt.Sprintf("all-class-words-to-%d", maxN), per * int64(len(ms)),
		func(i int64, buf []uint8) ([]uint8, int) {
			mode := ms[i/per]
			i %= per
			n := 0
			for i >= starts[n+1] {
				n++
			}
			i -= starts[n]
			buf = grow8(buf, n)
			for k := range buf {
				buf[k] = uint8(i & 3)
				i >>= 2
			}
			return buf, mode
		}}
}

// uniform: every count 0..maxN, all numbers of one class, all modes.
func uniform(maxN int) shapePhase {
	return shapePhase{fmt.Sprintf("every-count-to-%d-uniform", maxN), int64(maxN+1) * 4 * modes,
		func(i int64, buf []uint8) ([]uint8, int) {
			mode := int(i % modes)
			i /= modes
			c := uint8(i % 4)
			buf = grow8(buf, int(i/4))
			for k := range buf {
				buf[k] = c
			}
			return buf, mode
		}}
}

var periods = [][]uint8{
	{0, 1, 2, 3}, {3, 2, 1, 0}, {0, 3}, {3, 0}, {0, 0, 3}, {3, 3, 0}, {1, 2, 0, 3, 3},
	{0, 0, 0, 0, 3}, {3, 3, 3, 3, 0}, {0, 0, 0, 0, 3, 3, 3, 3}, {2, 1, 3, 0, 0, 2, 3},
	{0, 1, 0, 2, 0, 3, 1, 2, 1, 3, 2, 3, 3, 2, 2, 1, 1},
}

// periodic: every count 0..maxN, class patterns of several periods.
func periodic(maxN int) shapePhase {
	np := int64(len(periods))
	return shapePhase{fmt.Sprintf("every-count-to-%d-periodic", maxN), int64(maxN+1) * np,
		func(i int64, buf []uint8) ([]uint8, int) {
			pt := periods[i%np]
			buf = grow8(buf, int(i/np))
			for k := range buf {
				buf[k] = pt[k%len(pt)]
			}
			return buf, 2
		}}
}

// triIndex maps i to (n, a, b) with a<b<=n (runs) for n = 1..maxN.
type triIndex struct{ starts []int64 }

func newTri(maxN int, per func(n int) int64) triIndex {
	t := triIndex{[]int64{0}}
	for n := 1; n <= maxN; n++ {
		t.starts = append(t.starts, t.starts[n-1]+per(n))
	}
	return t
}
func (t triIndex) total() int64 { return t.starts[len(t.starts)-1] }
func (t triIndex) find(i int64) (n int, rest int64) {
	k := sort.Search(len(t.starts), func(k int) bool { return t.starts[k] > i })
	return k, i - t.starts[k-1]
}

// runs: for every count 1..maxN and every run [a,b), base class outside and
// another class inside (12 class pairs).
func runs(maxN int) shapePhase {
	t := newTri(maxN, func(n int) int64 { return int64(n) * int64(n+1) / 2 })
	return shapePhase{fmt.Sprintf("runs-to-%d", maxN), t.total() * 12,
		func(i int64, buf []uint8) ([]uint8, int) {
			base := uint8(i % 4)
			dev := (base + 1 + uint8(i/4%3)) % 4
			n, r := t.find(i / 12)
			a := 0
			for r >= int64(n-a) {
				r -= int64(n - a)
				a++
			}
			b := a + 1 + int(r)
			buf = grow8(buf, n)
			for k := range buf {
				if k >= a && k < b {
					buf[k] = dev
				} else {
					buf[k] = base
				}
			}
			return buf, 2
		}}
}

// pairs: for every count 1..maxN, two deviating positions a<b (12 class pairs).
func pairs(maxN int) shapePhase {
	t := newTri(maxN, func(n int) int64 { return int64(n) * int64(n-1) / 2 })
	return shapePhase{fmt.Sprintf("pairs-to-%d", maxN), t.total() * 12,
		func(i int64, buf []uint8) ([]uint8, int) {
			base := uint8(i % 4)
			dev := (base + 1 + uint8(i/4%3)) % 4
			n, r := t.find(i / 12)
			a := 0
			for r >= int64(n-1-a) {
				r -= int64(n - 1 - a)
				a++
			}
			b := a + 1 + int(r)
			buf = grow8(buf, n)
			for k := range buf {
				buf[k] = base
			}
			buf[a], buf[b] = dev, dev
			return buf, 3
		}}
}

// twoParts: a long part of one class before or after a short one of another:
// every length of the long part to maxN, 8 lengths of the short one.
func twoParts(maxN int) shapePhase {
	short := []int{1, 3, 4, 7, 8, 13, 32, 40}
	per := int64(len(short)) * 12 * 2
	return shapePhase{fmt.Sprintf("two-parts-to-%d", maxN), int64(maxN) * per,
		func(i int64, buf []uint8) ([]uint8, int) {
			n, r := int(i/per)+1, int(i%per)
			base := uint8(r % 4)
			dev := (base + 1 + uint8(r/4%3)) % 4
			t := short[r/12%len(short)]
			buf = grow8(buf, n+t)
			for k := range buf {
				buf[k] = base
			}
			if r/12/len(short) == 0 {
				for k := n; k < n+t; k++ {
					buf[k] = dev
				}
			} else {
				for k := 0; k < t; k++ {
					buf[k] = dev
				}
			}
			return buf, 2
		}}
}

// lone: one number of another class at every position of longer uniform words.
func lone(counts ...int) shapePhase {
	var starts []int64
	sum := int64(0)
	for _, n := range counts {
		starts = append(starts, sum)
		sum += int64(n)
	}
	return shapePhase{fmt.Sprintf("lone-numbers-to-%d", counts[len(counts)-1]), sum * 12,
		func(i int64, buf []uint8) ([]uint8, int) {
			base := uint8(i % 4)
			dev := (base + 1 + uint8(i/4%3)) % 4
			i /= 12
			k := len(starts) - 1
			for starts[k] > i {
				k--
			}
			buf = grow8(buf, counts[k])
			for l := range buf {
				buf[l] = base
			}
			buf[i-starts[k]] = dev
			return buf, 3
		}}
}

// large: counts around powers of two and of ten, uniform and mixed classes.
func large(maxLog int) shapePhase {
	var counts []int
	for k := 11; k <= maxLog; k++ {
		counts = append(counts, 1<<k-1, 1<<k, 1<<k+1)
	}
	for p := 10000; p <= 1<<maxLog; p *= 10 {
		counts = append(counts, p-1, p, p+1)
	}
	counts = append(counts, 3<<(maxLog-2)+5, 3<<(maxLog-2), 5<<(maxLog-3)+33)
	return shapePhase{fmt.Sprintf("large-counts-to-2^%d", maxLog), int64(len(counts)) * 6,
		func(i int64, buf []uint8) ([]uint8, int) {
			n := counts[i/6]
			buf = grow8(buf, n)
			for k := range buf {
				switch i % 6 {
				case 4:
					buf[k] = uint8(k * 7 >> 1 & 3)
				case 5:
					buf[k] = uint8(uint32(k)*uint32(k)+uint32(k>>5)) & 3
				default:
					buf[k] = uint8(i % 6)
				}
			}
			return buf, 2
		}}
}

// quadWords: every word of up to maxQ uniform quads (numbers that share a
// control byte have one class), with a tail of 0..3 numbers, after nothing,
// after 8 and after 32 numbers of class 0.
func quadWords(maxQ int) shapePhase {
	starts := []int64{0}
	p := int64(1)
	for n := 0; n <= maxQ; n++ {
		starts = append(starts, starts[n]+p)
		p *= 4
	}
	return shapePhase{fmt.Sprintf("all-words-of-%d-quads", maxQ), starts[maxQ+1] * 12,
		func(i int64, buf []uint8) ([]uint8, int) {
			tail := int(i % 4)
			pre := [...]int{0, 8, 32}[i/4%3]
			i /= 12
			q := 0
			for i >= starts[q+1] {
				q++
			}
			w := i - starts[q]
			buf = grow8(buf, pre+4*q+tail)
			for k := range buf {
				switch {
				case k < pre:
					buf[k] = 0
				case k < pre+4*q:
					buf[k] = uint8(w>>(2*uint((k-pre)/4))) & 3
				default:
					buf[k] = uint8(w+int64(k)) & 3
				}
			}
			return buf, 2
		}}
}

// reduced: the tiers at which a check's phases run within another check, on
// many configurations; medium differs from small in the lengths only.
func reduced(tier string) bool { return tier == "small" || tier == "medium" }

// streamShapes is the shared shape space of the stream checks.
func streamShapes(tier string, div int) []shapePhase {
	if tier == "thorough" {
		return []shapePhase{
			allWords(9, []int{0, 1, 3, 4}), allWords(12, []int{2}),
			uniform(16500 / div), periodic(8300 / div), runs(164), pairs(132), quadWords(10), large(25),
			twoParts(2100), lone(100, 128, 131, 200, 256, 260, 400, 512, 515, 600, 1024, 1030, 1100, 2048, 2051, 4096, 4100),
		}
	}
	if tier == "medium" {
		return []shapePhase{allWords(7, []int{2}), uniform(700 / div), periodic(700 / div), runs(68), pairs(40), quadWords(5), large(20), twoParts(150), lone(100, 128, 260, 520)}
	}
	if reduced(tier) {
		return []shapePhase{allWords(7, []int{2}), uniform(133), periodic(133), runs(36), pairs(20), quadWords(4), large(12)}
	}
	return []shapePhase{
		allWords(8, []int{0, 1, 3, 4}), allWords(10, []int{2}),
		uniform(2100 / div), periodic(2100 / div), runs(84), pairs(68), quadWords(7), large(22),
		twoParts(600), lone(100, 128, 131, 256, 260, 512, 600, 1024, 1100),
	}
}

// boundary numbers: the ends of every length class.
var bounds = []uint32{0, 1, 0xff, 0x100, 0xffff, 0x10000, 0xffffff, 0x1000000, 0xffffffff}

// boundWord is the i-th word over bounds of length 0..; count(maxN) words.
func boundWords(maxN int) (total int64, gen func(i int64, buf []uint32) []uint32) {
	starts := []int64{0}
	p := int64(1)
	for n := 0; n <= maxN; n++ {
		starts = append(starts, starts[n]+p)
		p *= int64(len(bounds))
	}
	return starts[maxN+1], func(i int64, buf []uint32) []uint32 {
		n := 0
		for i >= starts[n+1] {
			n++
		}
		i -= starts[n]
		buf = grow32(buf, n)
		for k := range buf {
			buf[k] = bounds[i%int64(len(bounds))]
			i /= int64(len(bounds))
		}
		return buf
	}
}

// opposites: words of one small number but for two positions, one of which has
// more and the other as much less (modulo 2^32). As differences: sequences of
// equal steps in which the numbers from one place to another are moved, up to
// out of order, while the ends stay.
func opposites(maxN, maxGap int, larger ...int) (total int64, gen func(i int64, buf []uint32) []uint32) {
	steps := []uint32{0, 1, 2, 15, 255, 256, 0x10000, 0xffffffff}
	moves := []uint32{1, 2, 16, 200, 256, 0x10000, 0x80000000, 0xffffffff}
	type place struct{ n, p, q int }
	var places []place
	for k := 0; k < maxN+len(larger); k++ {
		n := k + 1
		gap := maxGap
		if k >= maxN {
			n, gap = larger[k-maxN], 1
		}
		for p := 0; p < n; p++ {
			for q := p + 1; q <= n && (q <= p+gap || q == n); q++ { // n: only the one
				places = append(places, place{n, p, q})
			}
		}
	}
	per := int64(len(steps) * len(moves))
	return int64(len(places)) * per, func(i int64, buf []uint32) []uint32 {
		s, m, at := steps[i%8], moves[i/8%8], places[i/per]
		buf = grow32(buf, at.n)
		for k := range buf {
			buf[k] = s
		}
		buf[at.p] += m
		if at.q < at.n {
			buf[at.q] -= m
		}
		return buf
	}
}

var prevs = []uint32{0, 1, 0x12345678, 0x80000000, 0xffffffff}

// prevsFor gives the start values tried with a word of n numbers.
func prevsFor(n int, i int64) []uint32 {
	if n <= 40 {
		return prevs
	}
	k := int(i % 4)
	return []uint32{prevs[k+1], 0xfedcba98}
}

func clip(nums []uint32) string {
	if len(nums) <= 12 {
		return fmt.Sprintf("%#x", nums)
	}
	return fmt.Sprintf("%#x... (%d numbers)", nums[:12], len(nums))
}
func clipB(b []byte) string {
	if len(b) <= 48 {
		return fmt.Sprintf("% x", b)
	}
	return fmt.Sprintf("% x... (%d bytes)", b[:48], len(b))
}
func firstDiff32(a, b []uint32) string {
	if len(a) != len(b) {
		return fmt.Sprintf("length %d, want %d", len(a), len(b))
	}
	for i := range a {
		if a[i] != b[i] {
			return fmt.Sprintf("element %d is %#x, want %#x", i, a[i], b[i])
		}
	}
	return "equal"
}
func firstDiffB(a, b []byte) string {
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	for i := 0; i < n; i++ {
		if a[i] != b[i] {
			return fmt.Sprintf("byte %d is %#02x, want %#02x (length %d, want %d)", i, a[i], b[i], len(a), len(b))
		}
	}
	if len(a) != len(b) {
		return fmt.Sprintf("length %d, want %d", len(a), len(b))
	}
	return "equal"
}
func hash32(a []uint32) uint64 {
	h := uint64(14695981039346656037)
	for _, v := range a {
		h = (h ^ uint64(v)) * 1099511628211
	}
	return h
}
func hashB(a []byte) uint64 {
	h := uint64(14695981039346656037)
	for _, v := range a {
		h = (h ^ uint64(v)) * 1099511628211
	}
	return h
}
