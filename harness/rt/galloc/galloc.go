//go:build linux && amd64

// Package galloc serves the make([]byte) and make([]uint32) calls of an
// instrumented copy of the library from memory next to unmapped pages.
package galloc

import (
	"fmt"
	"runtime"
	"unsafe"

	"verif.local/harness/mem"
)

const canary = 0xA9
const slack = 512

type block struct {
	a        *mem.Arena // nil: on the heap, in the middle of around
	around   []byte
	off, n   int
	site     uintptr
	returned bool
}

// The library may keep a buffer that it does not return, so such a buffer's
// memory is never used again. After the first maxKept of a call site, it gets
// ordinary memory with a watched margin.
const maxKept = 48

var (
	on     bool
	atEnd  bool
	free   []*mem.Arena
	used   []block
	kept   = map[uintptr]int{}
	Served int64
)

// Begin makes the following allocations end (or start) at an unmapped page.
// The memory that the last call returned is used again.
func Begin(end bool) {
	on, atEnd = true, end
	for _, b := range used {
		switch {
		case b.a == nil:
		case b.returned:
			free = append(free, b.a)
		default:
			kept[b.site]++
		}
	}
	used = used[:0]
}

// Margins says whether some buffers had a watched margin only.
func Margins() bool {
	for _, n := range kept {
		if n >= maxKept {
			return true
		}
	}
	return false
}

func (b *block) bytes(off, n int) []byte {
	if b.a == nil {
		return b.around[off : off+n]
	}
	return b.a.Bytes(off, n)
}

func (b *block) size() int {
	if b.a == nil {
		return len(b.around)
	}
	return b.a.Size
}

// End stops serving and reports a write next to an allocation.
func End() string {
	on = false
	for _, b := range used {
		lo, hi := b.off-slack, b.off+b.n+slack
		if lo < 0 {
			lo = 0
		}
		if hi > b.size() {
			hi = b.size()
		}
		m := b.bytes(lo, hi-lo)
		for i, x := range m {
			if p := lo + i; (p < b.off || p >= b.off+b.n) && x != canary {
				return fmt.Sprintf("byte %d relative to the %d-byte buffer it allocated was written", p-b.off, b.n)
			}
		}
	}
	return ""
}

// Holds says whether the memory of s, which the call returned, was served since
// Begin.
func Holds(s []byte) bool {
	if cap(s) == 0 {
		return true
	}
	p := uintptr(unsafe.Pointer(unsafe.SliceData(s)))
	for k := range used {
		b := &used[k]
		base := uintptr(unsafe.Pointer(unsafe.SliceData(b.bytes(b.off, b.n))))
		if p >= base && p <= base+uintptr(b.n) {
			b.returned = true
			return b.a != nil
		}
	}
	return false
}

// Where describes a faulting address.
func Where(addr uintptr) string {
	for _, b := range used {
		if b.a == nil {
			continue
		}
		if o, _, ok := b.a.Where(addr); ok {
			return fmt.Sprintf("access to byte %d relative to the %d-byte buffer it allocated", o-b.off, b.n)
		}
	}
	return ""
}

func get(n, elem int) *block {
	size := n * elem
	var pc [1]uintptr
	for skip := 3; ; skip++ { // the library's make call
		if runtime.Callers(skip, pc[:]) == 0 {
			break
		}
		if f := runtime.FuncForPC(pc[0]); f == nil || !inThisPackage(f.Name()) {
			break
		}
	}
	used = append(used, block{n: size, site: pc[0]})
	b := &used[len(used)-1]
	Served++
	if kept[b.site] >= maxKept {
		words := make([]uint64, (slack+size+slack+7)/8)
		b.around = unsafe.Slice((*byte)(unsafe.Pointer(&words[0])), 8*len(words))
		b.off = slack
		for i := range b.around[:slack] {
			b.around[i] = canary
		}
		for i := slack + size; i < len(b.around); i++ {
			b.around[i] = canary
		}
		return b
	}
	if k := len(free) - 1; k >= 0 {
		b.a, free = free[k], free[:k]
	} else {
		b.a = mem.New(1 << 14)
	}
	if b.a.Size < size+slack {
		b.a.Free()
		b.a = mem.New(size + size/2 + slack)
	}
	if atEnd {
		b.off = b.a.Size - size
	}
	lo, hi := b.off-slack, b.off+size+slack
	if lo < 0 {
		lo = 0
	}
	if hi > b.a.Size {
		hi = b.a.Size
	}
	m := b.a.Bytes(lo, hi-lo)
	for i := range m {
		m[i] = canary
	}
	clear(b.a.Bytes(b.off, size))
	return b
}

func inThisPackage(name string) bool {
	const p = "verif.local/harness/rt/galloc."
	return len(name) > len(p) && name[:len(p)] == p
}

// Bytes is make([]byte, n).
func Bytes(n int) []byte {
	if !on || n < 0 || n > 1<<28 || len(used) > 64 {
		return make([]byte, n)
	}
	b := get(n, 1)
	return b.bytes(b.off, n)[:n:n]
}

// BytesCap is make([]byte, n, c).
func BytesCap(n, c int) []byte {
	if n < 0 || c < n {
		return make([]byte, n, c)
	}
	return Bytes(c)[:n]
}

// Words is make([]uint32, n).
func Words(n int) []uint32 {
	if !on || n < 0 || n > 1<<26 || len(used) > 64 {
		return make([]uint32, n)
	}
	b := get(n, 4)
	if b.n == 0 {
		return []uint32{}
	}
	return unsafe.Slice((*uint32)(unsafe.Pointer(&b.bytes(b.off, b.n)[0])), n)
}

// WordsCap is make([]uint32, n, c).
func WordsCap(n, c int) []uint32 {
	if n < 0 || c < n {
		return make([]uint32, n, c)
	}
	return Words(c)[:n]
}
