// Package vrand2 stands in for math/rand/v2, see vrand.
package vrand2

import "verif.local/harness/rt/vrand"

func Int() int                           { return vrand.Int() }
func IntN(n int) int                     { return vrand.Intn(n) }
func Int32() int32                       { return vrand.Int31() }
func Int32N(n int32) int32               { return vrand.Int31n(n) }
func Int64() int64                       { return vrand.Int63() }
func Int64N(n int64) int64               { return vrand.Int63n(n) }
func Uint() uint                         { return uint(vrand.Uint64()) }
func UintN(n uint) uint                  { return uint(u64n(uint64(n))) }
func Uint32() uint32                     { return vrand.Uint32() }
func Uint32N(n uint32) uint32            { return uint32(u64n(uint64(n))) }
func Uint64() uint64                     { return vrand.Uint64() }
func Uint64N(n uint64) uint64            { return u64n(n) }
func Float64() float64                   { return vrand.Float64() }
func Float32() float32                   { return vrand.Float32() }
func Perm(n int) []int                   { return vrand.Perm(n) }
func Shuffle(n int, swap func(i, j int)) { vrand.Shuffle(n, swap) }

func N[I int | int8 | int16 | int32 | int64 | uint | uint8 | uint16 | uint32 | uint64 | uintptr](n I) I {
	return I(u64n(uint64(n)))
}

func u64n(n uint64) uint64 {
	if n == 0 {
		panic("invalid argument to a random draw")
	}
	return vrand.Next(n)
}

type Source interface{ Uint64() uint64 }
type source struct{}

func (source) Uint64() uint64 { return vrand.Uint64() }

type PCG struct{ source }
type ChaCha8 struct{ source }

func NewPCG(a, b uint64) *PCG           { return &PCG{} }
func NewChaCha8(seed [32]byte) *ChaCha8 { return &ChaCha8{} }

type Rand struct{}

func New(Source) *Rand                           { return &Rand{} }
func (*Rand) Int() int                           { return Int() }
func (*Rand) IntN(n int) int                     { return IntN(n) }
func (*Rand) Int32() int32                       { return Int32() }
func (*Rand) Int32N(n int32) int32               { return Int32N(n) }
func (*Rand) Int64() int64                       { return Int64() }
func (*Rand) Int64N(n int64) int64               { return Int64N(n) }
func (*Rand) Uint() uint                         { return Uint() }
func (*Rand) UintN(n uint) uint                  { return UintN(n) }
func (*Rand) Uint32() uint32                     { return Uint32() }
func (*Rand) Uint32N(n uint32) uint32            { return Uint32N(n) }
func (*Rand) Uint64() uint64                     { return Uint64() }
func (*Rand) Uint64N(n uint64) uint64            { return Uint64N(n) }
func (*Rand) Float64() float64                   { return Float64() }
func (*Rand) Float32() float32                   { return Float32() }
func (*Rand) Perm(n int) []int                   { return Perm(n) }
func (*Rand) Shuffle(n int, swap func(i, j int)) { Shuffle(n, swap) }
