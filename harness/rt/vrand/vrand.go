// Package vrand stands in for math/rand in an instrumented copy of the
// library: every draw is decided by Next, so that all draws can be enumerated.
package vrand

// Next chooses the next draw: a number in [0,n), or any 64-bit number if n is 0.
var Next = func(n uint64) uint64 { return 0 }

const float53 = 1 << 53

func draw(n int64) uint64 {
	if n <= 0 {
		panic("invalid argument to a random draw")
	}
	return Next(uint64(n))
}

func Seed(int64)           {}
func Int() int             { return int(Next(1 << 63)) }
func Intn(n int) int       { return int(draw(int64(n))) }
func Int31() int32         { return int32(Next(1 << 31)) }
func Int31n(n int32) int32 { return int32(draw(int64(n))) }
func Int63() int64         { return int64(Next(1 << 63)) }
func Int63n(n int64) int64 { return int64(draw(n)) }
func Uint32() uint32       { return uint32(Next(1 << 32)) }
func Uint64() uint64       { return Next(0) }
func Float64() float64     { return float64(Next(float53)) / float53 }
func Float32() float32     { return float32(Next(1<<24)) / (1 << 24) }
func Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		j := int(Next(uint64(i + 1)))
		p[i] = p[j]
		p[j] = i
	}
	return p
}
func Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, int(Next(uint64(i+1))))
	}
}
func Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(Next(256))
	}
	return len(p), nil
}

type Source interface {
	Int63() int64
	Seed(seed int64)
}
type Source64 interface {
	Source
	Uint64() uint64
}
type source struct{}

func (source) Int63() int64   { return Int63() }
func (source) Uint64() uint64 { return Uint64() }
func (source) Seed(int64)     {}

func NewSource(int64) Source { return source{} }

type Rand struct{}

func New(Source) *Rand                           { return &Rand{} }
func (*Rand) Seed(int64)                         {}
func (*Rand) Int() int                           { return Int() }
func (*Rand) Intn(n int) int                     { return Intn(n) }
func (*Rand) Int31() int32                       { return Int31() }
func (*Rand) Int31n(n int32) int32               { return Int31n(n) }
func (*Rand) Int63() int64                       { return Int63() }
func (*Rand) Int63n(n int64) int64               { return Int63n(n) }
func (*Rand) Uint32() uint32                     { return Uint32() }
func (*Rand) Uint64() uint64                     { return Uint64() }
func (*Rand) Float64() float64                   { return Float64() }
func (*Rand) Float32() float32                   { return Float32() }
func (*Rand) Perm(n int) []int                   { return Perm(n) }
func (*Rand) Shuffle(n int, swap func(i, j int)) { Shuffle(n, swap) }
func (*Rand) Read(p []byte) (int, error)         { return Read(p) }
