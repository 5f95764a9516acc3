package main

import (
	"fmt"
	"math/bits"
	"sync"

	"github.com/theMPatel/streamvbyte-simdgo/pkg/util"

	"verif.local/harness/eng"
	"verif.local/harness/ref"
	"verif.local/harness/rt/vrand"
)

// C20 runs against a copy of the library whose math/rand is vrand: every draw
// of the generator is decided here.

var draws struct {
	vals [2]uint64
	dom  [2]uint64
	k    int
	// used instead of vals by the bulk phase:
	word     []uint64
	sel, num []uint64 // for draws of the range selDom, and for the others
	selDom   uint64
}

type tooManyDraws struct{}

func nextDraw(n uint64) uint64 {
	k := draws.k
	draws.k++
	var v uint64
	switch {
	case draws.sel != nil || draws.num != nil:
		from := &draws.num
		if n == draws.selDom {
			from = &draws.sel
		}
		if len(*from) > 0 {
			v, *from = (*from)[0], (*from)[1:]
		}
	case draws.word != nil:
		if k < len(draws.word) {
			v = draws.word[k]
		}
	case k < 2:
		draws.dom[k] = n
		v = draws.vals[k]
	default: // rejected draws: walk over the whole range
		if k > 100000 {
			panic(tooManyDraws{})
		}
		v = uint64(k) * 0x9E3779B97F4A7C15
		if n != 0 {
			v, _ = bits.Mul64(v, n)
		}
	}
	if (draws.word != nil || draws.sel != nil || draws.num != nil) && k > 2000 { // rejected draws
		if k > 1000000 {
			panic(tooManyDraws{})
		}
		v = uint64(k) * 0x9E3779B97F4A7C15
		if n != 0 {
			v, _ = bits.Mul64(v, n)
		}
	}
	if n != 0 && v >= n {
		v %= n
	}
	return v
}

type rndModel struct {
	kind string // split: one draw selects the length, another the number
	s    int    // which draw selects
	dom  uint64 // its range
	reps [5][]uint64
	msg  string
}

// gen evaluates the generator on one choice of its draws.
func (m *rndModel) gen(sel, num uint64) uint32 {
	draws.vals[m.s], draws.vals[1-m.s] = sel, num
	draws.k, draws.word, draws.sel, draws.num = 0, nil, nil, nil
	return util.RandUint32()
}

// at returns the i-th of n values spread over a range, ends included.
func at(dom uint64, i, n uint64) uint64 {
	if dom != 0 && dom <= n {
		return i % dom
	}
	if i == n-1 {
		return dom - 1
	}
	if dom == 0 {
		return i * (^uint64(0) / n)
	}
	h, l := bits.Mul64(dom, i)
	q, _ := bits.Div64(h, l, n)
	return q
}

// grid covers the high and the low bits of a range, every value of a small one.
func grid(dom uint64, i int) uint64 {
	if dom != 0 && dom <= 1<<20 {
		return uint64(i)
	}
	if dom&(dom-1) != 0 {
		return at(dom, uint64(i), 1<<20)
	}
	k := bits.TrailingZeros64(dom) // 64 for the full range
	return uint64(i>>10)<<(uint(k)-10) | uint64(i&1023)
}

func gridSize(dom uint64) int {
	if dom != 0 && dom <= 1<<20 {
		return int(dom)
	}
	return 1 << 20
}

var learnOnce sync.Once
var rnd rndModel

func learn() *rndModel {
	learnOnce.Do(func() {
		vrand.Next = nextDraw
		best := 0
		for s := 0; s < 2; s++ {
			m := rndModel{kind: "split", s: s}
			m.gen(0, 0)
			switch {
			case draws.k == 0:
				rnd = rndModel{kind: "uncontrolled"}
				return
			case draws.k == 1:
				rnd = rndModel{kind: "single", dom: draws.dom[0]}
				return
			case draws.k > 2 && s == 1:
				continue
			}
			m.dom = draws.dom[s]
			distinct := 0
			n := gridSize(m.dom)
			for i := 0; i < n; i++ {
				v := grid(m.dom, i)
				l := ref.Len(m.gen(v, 0))
				if len(m.reps[l]) == 0 {
					distinct++
				}
				if len(m.reps[l]) < 4 {
					m.reps[l] = append(m.reps[l], v)
				}
			}
			if distinct > best {
				best, rnd = distinct, m
			}
		}
	})
	return &rnd
}

func numDom(m *rndModel, sel uint64) uint64 {
	m.gen(sel, 0)
	return draws.dom[1-m.s]
}

// hard lists the draws around multiples of the range sizes and powers of two.
func hard(dom uint64) (vs []uint64) {
	add := func(v uint64) {
		for d := uint64(0); d < 5; d++ {
			if w := v + d - 2; dom == 0 || w < dom {
				vs = append(vs, w)
			}
		}
	}
	for k := uint(0); k < 64; k++ {
		add(1 << k)
	}
	add(0)
	add(dom)
	for _, m := range []uint64{1 << 8, 1<<16 - 1<<8, 1<<24 - 1<<16, 1<<32 - 1<<24, 1<<16 - 1, 1<<24 - 1, 1<<32 - 1} {
		for q := uint64(0); q < 64; q++ {
			add(q * m)
		}
		if dom != 0 {
			add(dom / m * m)
		} else {
			add(^uint64(0) / m * m)
		}
	}
	n := gridSize(dom)
	for i := 0; i < n; i++ {
		vs = append(vs, grid(dom, i))
	}
	return
}

var lo = [5]uint32{1: 0, 2: 1 << 8, 3: 1 << 16, 4: 1 << 24}
var hi = [5]uint32{1: 1<<8 - 1, 2: 1<<16 - 1, 3: 1<<24 - 1, 4: 1<<32 - 1}

func init() {
	const chunk = 1 << 22
	register(&eng.Check{ID: "C20", Rule: "the generator runs in a copy of the library in which every random draw is decided by the exploration. The draw that selects the length is found by observation; the selector's values are enumerated (all of a small range; all combinations of the 10 highest and the 10 lowest bits of a large one) to compare how many select each length; for representative selectors every value of the 32-bit second draw is enumerated; the bulk helper runs on all words over the four lengths up to 6 numbers and on every count to 300. state = one choice of the draws, transition = one draw, trace = one generator call.",
		Assumptions: []string{
			"math/rand is replaced by an adversary that may return any value of a function's documented range; the quality of the real source is not judged",
		},
		Phases: func(tier string) []eng.Phase {
			m := learn()
			var ps []eng.Phase
			ps = append(ps, eng.Phase{Name: "selector", N: 1, Serial: true, Run: func(c *eng.Ctx, i int64) { m.selector(c) }})
			if m.kind == "split" {
				ps = append(ps, eng.Phase{Name: "extremes", N: 4, Run: func(c *eng.Ctx, i int64) { m.extremes(c, int(i)+1) }})
				type part struct {
					sel    uint64
					l      int
					lo, hi uint64
				}
				var parts []part
				for l := 1; l <= 4; l++ {
					for r, sel := range m.reps[l] {
						dom := numDom(m, sel)
						if dom != 0 && dom <= 1<<32 {
							for lo := uint64(0); lo < dom; lo += chunk {
								// one selector per length in full, the others in part
								if r > 0 && (lo/chunk)%64 != 0 && lo+chunk < dom {
									continue
								}
								if tier != "thorough" && (lo/chunk)%4 != 0 && lo > 0 && lo+chunk < dom {
									continue
								}
								h := lo + chunk
								if h > dom {
									h = dom
								}
								parts = append(parts, part{sel, l, lo, h})
							}
						} else {
							for k := uint64(0); k < 32; k++ {
								a := at(dom, k, 32)
								if k == 31 {
									a = dom - chunk
								}
								parts = append(parts, part{sel, l, a, a + chunk})
							}
						}
					}
				}
				ps = append(ps, eng.Phase{Name: "second-draws", N: int64(len(parts)), Run: func(c *eng.Ctx, i int64) {
					p := parts[i]
					for v := p.lo; v != p.hi; v++ {
						if x := m.gen(p.sel, v); x < lo[p.l] || x > hi[p.l] {
							c.Fail("with the draw %#x, which selects length %d, the draw %#x gives %d (%d bytes)", p.sel, p.l, v, x, ref.Len(x))
						}
					}
					n := int(p.hi - p.lo)
					c.Word(n, 2*n)
					c.Run(n)
					c.Outcome(uint64(p.l)<<32 | p.lo)
				}})
			}
			nb := int64(1+4+16+64+256+1024+4096) + 301
			ps = append(ps, eng.Phase{Name: "bulk", N: nb, Run: func(c *eng.Ctx, i int64) { m.bulk(c, i) }})
			return ps
		}})
}

func (m *rndModel) selector(c *eng.Ctx) {
	switch m.kind {
	case "uncontrolled":
		c.Cap("the generator does not draw from math/rand: its choices could not be enumerated")
		c.Run(1)
		return
	}
	n := gridSize(m.dom)
	var count [5]int64
	single := m.kind == "single"
	for i := 0; i < n; i++ {
		v := grid(m.dom, i)
		l := ref.Len(m.gen(v, 0))
		count[l]++
		if single {
			continue
		}
		dom := draws.dom[1-m.s]
		for k := uint64(1); k < 4; k++ {
			w := at(dom, k, 4)
			if x := m.gen(v, w); ref.Len(x) != l {
				c.Fail("the draw %#x selects length %d with the next draw 0, but with %#x it gives %d (%d bytes)", v, l, w, x, ref.Len(x))
			}
		}
		c.Word(3, 6)
		c.Run(3)
	}
	c.Word(n, 2*n)
	c.Run(n)
	c.Sample(func() string {
		return fmt.Sprintf("%d selector draws (range %#x): %d, %d, %d, %d select 1, 2, 3, 4 bytes", n, m.dom, count[1], count[2], count[3], count[4])
	})
	tol := int64(0)
	if n == 1<<20 {
		tol = int64(n) / 100
		if single {
			tol = int64(n) / 20
		}
	}
	for l := 1; l <= 4; l++ {
		if d := 4*count[l] - int64(n); d > 4*tol || d < -4*tol {
			c.Fail("of %d equally likely selector draws %d, %d, %d, %d select 1, 2, 3, 4 bytes", n, count[1], count[2], count[3], count[4])
		}
	}
	if single {
		c.Cap("length and number come from a single draw: only the lengths' frequencies were checked")
	}
}

// extremes: both ends of each length's range can come out.
func (m *rndModel) extremes(c *eng.Ctx, l int) {
	if len(m.reps[l]) == 0 {
		return // reported by the selector phase
	}
	var min, max bool
	try := func(sel, v uint64) bool {
		x := m.gen(sel, v)
		min = min || x == lo[l]
		max = max || x == hi[l]
		return min && max
	}
	n := 0
	for _, sel := range m.reps[l] {
		for _, v := range hard(numDom(m, sel)) {
			n++
			if try(sel, v) {
				c.Word(n, 2*n)
				c.Run(n)
				c.Sample(func() string { return fmt.Sprintf("both %d and %d come out for length %d", lo[l], hi[l], l) })
				return
			}
		}
	}
	sel := m.reps[l][0]
	dom := numDom(m, sel)
	if dom != 0 && dom <= 1<<32 {
		for v := uint64(0); v < dom; v++ {
			n++
			if try(sel, v) {
				break
			}
		}
	} else {
		c.Cap(fmt.Sprintf("length %d: the extremes were not found among %d draws of a range too large to enumerate", l, n))
		return
	}
	c.Word(n, 2*n)
	c.Run(n)
	if !min || !max {
		c.Fail("with the draw %#x, which selects length %d, none of the %#x second draws gives %s", sel, l, dom, map[bool]string{true: fmt.Sprint("the largest number ", hi[l]), false: fmt.Sprint("the smallest number ", lo[l])}[min])
	}
}

func (m *rndModel) bulk(c *eng.Ctx, i int64) {
	if i < 301 {
		draws.k, draws.word, draws.sel, draws.num = 0, []uint64{}, nil, nil
		if got := len(util.GenUint32(int(i))); got != int(i) {
			c.Fail("GenUint32(%d) returns %d numbers", i, got)
		}
		c.Word(1, int(i))
		c.Run(1)
		return
	}
	i -= 301
	n := 0
	for p := int64(1); i >= p; p *= 4 {
		i -= p
		n++
	}
	if m.kind != "split" || len(m.reps[1]) == 0 || len(m.reps[2]) == 0 || len(m.reps[3]) == 0 || len(m.reps[4]) == 0 {
		c.Run(1)
		return
	}
	var lens []int
	var want []uint32
	byDom := true // the two kinds of draws are told apart by their range
	var sel, num []uint64
	for k := 0; k < n; k++ {
		l := int(i&3) + 1
		i >>= 2
		lens = append(lens, l)
		sel = append(sel, m.reps[l][k%len(m.reps[l])])
		num = append(num, uint64(k)*0x10203)
		want = append(want, m.gen(sel[k], num[k]))
		if draws.dom[1-m.s] == m.dom {
			byDom = false
		}
		if draws.k != 2 {
			c.Cap("a number takes more than two draws: the bulk helper's lengths were not compared")
			c.Run(1)
			return
		}
	}
	draws.k, draws.word, draws.sel, draws.num = 0, []uint64{}, nil, nil
	if byDom {
		draws.word, draws.sel, draws.num, draws.selDom = nil, sel, num, m.dom
	} else {
		for k := range sel {
			pair := [2]uint64{}
			pair[m.s], pair[1-m.s] = sel[k], num[k]
			draws.word = append(draws.word, pair[0], pair[1])
		}
	}
	got := util.GenUint32(n)
	used := n - len(draws.sel)
	draws.sel, draws.num = nil, nil
	if len(got) != n {
		c.Fail("GenUint32(%d) returns %d numbers", n, len(got))
	}
	same := draws.k == 2*n
	for k := range want {
		same = same && got[k] == want[k]
	}
	if !same { // another order of the draws
		var a, b [5]int
		for k := range want {
			a[ref.Len(want[k])]++
			b[ref.Len(got[k])]++
		}
		if !byDom {
			c.Cap("the bulk helper draws in an order of its own: its lengths were not compared")
		} else if used != n || a != b {
			c.Fail("GenUint32(%d), drawing the lengths %v, draws %d lengths and returns %v", n, lens, used, got)
		}
	}
	c.Word(1, 2*n)
	c.Run(1)
	c.Sample(func() string { return fmt.Sprintf("GenUint32(%d) with the lengths %v gives %v", n, lens, got) })
}
