// Package mem places slices against unmapped pages, in memory that has a
// writable and a read-only view.
package mem

import (
	"os"
	"runtime/debug"
	"syscall"
	"unsafe"
)

const page = 4096

// Arena is size bytes of memory between unmapped pages, mapped twice.
type Arena struct {
	Size int
	rw   uintptr
	ro   uintptr
}

func New(size int) *Arena {
	size = (size + page - 1) &^ (page - 1)
	if size == 0 {
		size = page
	}
	f, err := os.CreateTemp("", "verif-arena-")
	if err != nil {
		panic(err)
	}
	os.Remove(f.Name())
	if err := f.Truncate(int64(size)); err != nil {
		panic(err)
	}
	defer f.Close()
	a := &Arena{Size: size}
	a.rw = view(f, size, syscall.PROT_READ|syscall.PROT_WRITE)
	a.ro = view(f, size, syscall.PROT_READ)
	return a
}

// NewAt is an arena without a read-only view, the first byte of whose third
// page is at an odd multiple of 1<<bit, the which-th that is free. It is nil
// if there is none.
func NewAt(bit, which uint, size int) *Arena {
	size = (size + page - 1) &^ (page - 1)
	const noreplace = 0x100000
	from := uintptr(1)
	if bit < 32 {
		from = 1 + 0x2b<<(40-bit) // well above what small programs use
	}
	for m := from; m < from+4096; m += 2 {
		at := m<<bit - 2*page
		if at>>bit != m-1 || at >= 1<<47-1<<30 || at < 1<<20 {
			continue
		}
		p, _, e := syscall.Syscall6(syscall.SYS_MMAP, at, uintptr(size), syscall.PROT_READ|syscall.PROT_WRITE,
			syscall.MAP_PRIVATE|syscall.MAP_ANON|syscall.MAP_NORESERVE|noreplace, ^uintptr(0), 0)
		if e != 0 {
			continue
		}
		if p != at { // an old kernel took the address for a hint
			syscall.Syscall(syscall.SYS_MUNMAP, p, uintptr(size), 0)
			return nil
		}
		if which > 0 {
			which--
			syscall.Syscall(syscall.SYS_MUNMAP, p, uintptr(size), 0)
			continue
		}
		return &Arena{Size: size, rw: p}
	}
	return nil
}

// Unmap gives the memory of NewAt back.
func (a *Arena) Unmap() {
	syscall.Syscall(syscall.SYS_MUNMAP, a.rw, uintptr(a.Size), 0)
	a.rw, a.Size = 0, 0
}

const guard = 16 * page

// view reserves inaccessible memory and maps the file into its middle.
func view(f *os.File, size int, prot int) uintptr {
	base, _, e := syscall.Syscall6(syscall.SYS_MMAP, 0, uintptr(size+2*guard), syscall.PROT_NONE,
		syscall.MAP_PRIVATE|syscall.MAP_ANON|syscall.MAP_NORESERVE, ^uintptr(0), 0)
	if e != 0 {
		panic(e)
	}
	p, _, e := syscall.Syscall6(syscall.SYS_MMAP, base+guard, uintptr(size), uintptr(prot),
		syscall.MAP_SHARED|syscall.MAP_FIXED, f.Fd(), 0)
	if e != 0 {
		panic(e)
	}
	return p
}

func ptr(p uintptr) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&p)) }

// Bytes is the writable view of n bytes at offset off; capacity n.
func (a *Arena) Bytes(off, n int) []byte { return bytesAt(a.rw, off, n, a.Size) }

// ROBytes is the read-only view of the same bytes.
func (a *Arena) ROBytes(off, n int) []byte { return bytesAt(a.ro, off, n, a.Size) }

func bytesAt(base uintptr, off, n, size int) []byte {
	if off < 0 || n < 0 || off+n > size {
		panic("arena: out of range")
	}
	// the array is at the right place even when n is 0
	return unsafe.Slice((*byte)(ptr(base+uintptr(off))), n)
}

// Nums is the writable view of n numbers at byte offset off (a multiple of 4).
func (a *Arena) Nums(off, n int) []uint32 { return numsAt(a.rw, off, n, a.Size) }

// RONums is the read-only view.
func (a *Arena) RONums(off, n int) []uint32 { return numsAt(a.ro, off, n, a.Size) }

func numsAt(base uintptr, off, n, size int) []uint32 {
	if off < 0 || n < 0 || off%4 != 0 || off+4*n > size {
		panic("arena: out of range")
	}
	return unsafe.Slice((*uint32)(ptr(base+uintptr(off))), n)
}

// Where describes an address relative to the arena.
func (a *Arena) Where(addr uintptr) (off int, view string, ok bool) {
	if addr+guard >= a.rw && addr < a.rw+uintptr(a.Size)+guard {
		return int(addr) - int(a.rw), "writable", true
	}
	if addr+guard >= a.ro && addr < a.ro+uintptr(a.Size)+guard {
		return int(addr) - int(a.ro), "read-only", true
	}
	return 0, "", false
}

// Try calls f; a fault becomes a non-nil error with its address.
func Try(f func()) (err interface{}) {
	old := debug.SetPanicOnFault(true)
	defer func() {
		debug.SetPanicOnFault(old)
		err = recover()
	}()
	f()
	return nil
}

// Free unmaps the arena.
func (a *Arena) Free() {
	for _, p := range []uintptr{a.rw, a.ro} {
		syscall.Syscall(syscall.SYS_MUNMAP, p-guard, uintptr(a.Size+2*guard), 0)
	}
	a.rw, a.ro, a.Size = 0, 0, 0
}

// Spare gives the slice a capacity of more elements than it has, whatever lies
// behind it.
func Spare[T any](s []T, more int) []T {
	return unsafe.Slice(unsafe.SliceData(s), len(s)+more)[:len(s)]
}

// Spares are amounts of spare capacity, in bytes, that end before memory which
// may be accessed.
var Spares = [...]int{4, 8, 16, 32, 64, 256, 4096, 60000}
