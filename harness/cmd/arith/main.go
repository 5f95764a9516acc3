// arith prints digests of a few hundred thousand operations on fixed-size
// values. Every port must print the same; the driver compares a native run
// with an emulated one before it believes the emulator.
package main

import (
	"encoding/binary"
	"fmt"
	"hash/fnv"
	"math"
	"math/bits"
	"sync/atomic"
)

var seeds = []uint64{0, 1, 2, 3, 5, 7, 8, 15, 16, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257, 0x7fff, 0x8000, 0xffff, 0x10000, 0x12345, 0x7fffffff, 0x80000000,
	0x80000001, 0xdeadbeef, 0xffffffff, 0x100000000, 0x123456789abcdef0, 0x7fffffffffffffff, 0x8000000000000000, 0xfedcba9876543210, 0xffffffffffffffff}

type integer interface {
	~int8 | ~int16 | ~int32 | ~int64 | ~uint8 | ~uint16 | ~uint32 | ~uint64
}

func ops[T integer](name string) {
	h := fnv.New64a()
	var b [8]byte
	put := func(vs ...T) {
		for _, v := range vs {
			binary.LittleEndian.PutUint64(b[:], uint64(v))
			h.Write(b[:])
		}
	}
	for _, x := range seeds {
		for _, y := range seeds {
			a, c := T(x), T(y)
			put(a+c, a-c, a*c, a&c, a|c, a^c, a&^c, -a, ^a)
			if c != 0 {
				put(a/c, a%c, a/7, a%10, a/64)
			}
			for s := uint(0); s < 70; s += 3 {
				put(a<<s, a>>s)
			}
			put(a<<1, a>>1, a<<7, a>>7, a<<(y&31), a>>(y&31), a<<(y&63), a>>(y&63))
			var f T
			if a < c {
				f |= 1
			}
			if a <= c {
				f |= 2
			}
			if a == c {
				f |= 4
			}
			if a > 0 {
				f |= 8
			}
			if a >= 0 {
				f |= 16
			}
			if c < 0 {
				f |= 32
			}
			put(f, min(a, c), max(a, c))
		}
	}
	fmt.Printf("%s %x\n", name, h.Sum64())
}

func widen() {
	h := fnv.New64a()
	for _, x := range seeds {
		for k := uint(0); k < 64; k++ {
			v := x >> k
			for _, w := range []uint64{uint64(int64(int8(v))), uint64(uint8(v)), uint64(int64(int16(v))), uint64(uint16(v)), uint64(int64(int32(v))), uint64(uint32(v)), uint64(uint32(int8(v))), uint64(uint32(int16(v)))} {
				h.Write(binary.BigEndian.AppendUint64(nil, w))
			}
		}
	}
	fmt.Printf("widen %x\n", h.Sum64())
}

func bitOps() {
	h := fnv.New64a()
	put := func(vs ...uint64) {
		for _, v := range vs {
			h.Write(binary.BigEndian.AppendUint64(nil, v))
		}
	}
	for _, x := range seeds {
		for _, y := range seeds {
			hi, lo := bits.Mul64(x, y)
			h32, l32 := bits.Mul32(uint32(x), uint32(y))
			s, c := bits.Add64(x, y, x&1)
			d, e := bits.Sub64(x, y, y&1)
			put(hi, lo, uint64(h32), uint64(l32), s, c, d, e)
			put(uint64(bits.RotateLeft32(uint32(x), int(y&31))), bits.RotateLeft64(x, int(y&63)), uint64(bits.RotateLeft8(uint8(x), int(y&7))), uint64(bits.RotateLeft16(uint16(x), int(y&15))))
			if y > hi && y != 0 {
				q, r := bits.Div64(x%y, lo, y)
				put(q, r)
			}
			fx, fy := float64(x)/3, math.Float64frombits(y)
			put(math.Float64bits(fx), math.Float64bits(float64(int64(x))+float64(uint32(y))), uint64(math.Float32bits(float32(x))))
			if !math.IsNaN(fy) && !math.IsInf(fy, 0) {
				put(math.Float64bits(math.Sqrt(fx)*1.5 - 1))
			}
			if fx > 2.5e9 {
				put(1)
			}
		}
		put(uint64(bits.LeadingZeros32(uint32(x))), uint64(bits.LeadingZeros64(x)), uint64(bits.TrailingZeros32(uint32(x))), uint64(bits.TrailingZeros64(x)),
			uint64(bits.OnesCount64(x)), uint64(bits.Len16(uint16(x))), uint64(bits.Len8(uint8(x))), bits.Reverse64(x), uint64(bits.Reverse32(uint32(x))),
			bits.ReverseBytes64(x), uint64(bits.ReverseBytes32(uint32(x))), uint64(bits.ReverseBytes16(uint16(x))))
	}
	fmt.Printf("bits %x\n", h.Sum64())
}

func memory() {
	h := fnv.New64a()
	buf := make([]byte, 96)
	for _, x := range seeds {
		for off := 0; off < 40; off++ {
			binary.LittleEndian.PutUint64(buf[off:], x)
			binary.LittleEndian.PutUint32(buf[off+9:], uint32(x))
			binary.LittleEndian.PutUint16(buf[off+14:], uint16(x))
			binary.BigEndian.PutUint64(buf[off+17:], x)
			binary.BigEndian.PutUint32(buf[off+26:], uint32(x))
			binary.BigEndian.PutUint16(buf[off+31:], uint16(x))
			copy(buf[off+33:], buf[:off+9])
			copy(buf[off+1:], buf[off:off+20])
			h.Write(buf)
			v := binary.LittleEndian.Uint64(buf[off+3:]) ^ uint64(binary.LittleEndian.Uint32(buf[off+1:])) ^ uint64(binary.LittleEndian.Uint16(buf[off+5:]))
			v ^= binary.BigEndian.Uint64(buf[off+2:]) ^ uint64(binary.BigEndian.Uint32(buf[off+7:])) ^ uint64(binary.BigEndian.Uint16(buf[off+8:]))
			h.Write(binary.LittleEndian.AppendUint64(nil, v))
		}
		s32 := make([]uint32, 37)
		for i := range s32 {
			s32[i] = uint32(x) * uint32(i+1)
		}
		for n := 0; n < 37; n++ {
			clear(s32[n/2 : n])
			copy(s32[n/3:], s32[n/2:])
			for _, v := range s32 {
				h.Write(binary.LittleEndian.AppendUint32(nil, v))
			}
		}
	}
	var a32 uint32
	var a64 uint64
	var b8 [4]byte
	for i, x := range seeds {
		atomic.AddUint32(&a32, uint32(x))
		atomic.AddUint64(&a64, x)
		atomic.OrUint32(&a32, 1<<(i&31))
		if atomic.CompareAndSwapUint64(&a64, a64, a64*5^x) {
			b8[i&3] ^= byte(atomic.SwapUint32(&a32, a32*3))
		}
	}
	fmt.Printf("memory %x %x %x %x\n", h.Sum64(), a32, a64, b8)
}

func main() {
	// not int8: Go 1.27 for mips sign-extends it as an int16 before some shifts
	ops[int16]("int16")
	ops[int32]("int32")
	ops[int64]("int64")
	ops[uint8]("uint8")
	ops[uint16]("uint16")
	ops[uint32]("uint32")
	ops[uint64]("uint64")
	widen()
	bitOps()
	memory()
}
