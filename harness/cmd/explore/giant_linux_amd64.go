package main

import (
	"bytes"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"slices"
	"strings"
	"syscall"
	"unsafe"

	"verif.local/harness/eng"
	"verif.local/harness/lib"
	"verif.local/harness/ref"
)

// Streams of more than 2^32 bytes. The numbers are periodic, so that inputs
// and outputs are the same few pages of memory mapped again and again; the
// period does not divide a power of two, so that a position that wrapped
// around meets other numbers.

const giantN = 1<<30 + 45
const giantPeriod = 4099 * 1024 // numbers: 4099 pages

// tiled maps pages (several files' worth) one behind the other.
type tiled struct {
	base uintptr
	size int
	at   int
}

func newTiled(size int) *tiled {
	size = (size+4095)&^4095 + 1<<20
	p, _, e := syscall.Syscall6(syscall.SYS_MMAP, 0, uintptr(size), syscall.PROT_NONE,
		syscall.MAP_PRIVATE|syscall.MAP_ANON|syscall.MAP_NORESERVE, ^uintptr(0), 0)
	if e != 0 {
		panic(e)
	}
	return &tiled{base: p, size: size}
}

func memFile(b []byte) *os.File {
	name := []byte("verif\x00")
	fd, _, e := syscall.Syscall(319, uintptr(unsafe.Pointer(&name[0])), 0, 0) // memfd_create
	var f *os.File
	if e == 0 {
		f = os.NewFile(fd, "memfd")
	} else {
		var err error
		if f, err = os.CreateTemp("", "verif-giant-"); err != nil {
			panic(err)
		}
		os.Remove(f.Name())
	}
	if _, err := f.Write(b); err != nil {
		panic(err)
	}
	return f
}

// tile maps the file (a whole number of pages) again.
func (t *tiled) tile(f *os.File, n int, prot int) {
	if _, _, e := syscall.Syscall6(syscall.SYS_MMAP, t.base+uintptr(t.at), uintptr(n), uintptr(prot),
		syscall.MAP_SHARED|syscall.MAP_FIXED|syscall.MAP_POPULATE, f.Fd(), 0); e != 0 {
		panic(e)
	}
	t.at += n
}
func (t *tiled) ptr() unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&t.base)) }
func (t *tiled) free() {
	syscall.Syscall(syscall.SYS_MUNMAP, t.base, uintptr(t.size), 0)
}

func rawOf(n []uint32) []byte {
	return unsafe.Slice((*byte)(unsafe.Pointer(&n[0])), 4*len(n))
}

// numsTiled is giantN numbers of the period; writable when prot says so.
func numsTiled(period []uint32, prot int) (t *tiled, nums []uint32) {
	f := memFile(rawOf(period))
	defer f.Close()
	t = newTiled(4*giantN + 4*giantPeriod)
	for t.at < 4*giantN {
		t.tile(f, 4*giantPeriod, prot)
	}
	return t, unsafe.Slice((*uint32)(t.ptr()), giantN)
}

// streamTiled is the stream of giantN 4-byte numbers with the given period.
func streamTiled(period []uint32) (t *tiled, stream []byte) {
	const span = 4 * giantPeriod
	cl := ref.CtrlLen(giantN)
	data := rawOf(period)
	t = newTiled(cl + 4*giantN + 2*span)
	ones := bytes.Repeat([]byte{0xff}, span)
	fo := memFile(ones)
	defer fo.Close()
	for t.at+span <= cl {
		t.tile(fo, span, syscall.PROT_READ)
	}
	// the span in which the control bytes end
	mixed := ones
	for k := range mixed {
		if p := t.at + k; p >= cl {
			mixed[k] = data[(p-cl)%span]
		} else if p == cl-1 && giantN%4 != 0 {
			mixed[k] = 1<<(2*uint(giantN%4)) - 1
		}
	}
	fm := memFile(mixed)
	defer fm.Close()
	t.tile(fm, span, syscall.PROT_READ)
	rot := make([]byte, span)
	for k := range rot {
		rot[k] = data[(t.at+k-cl)%span]
	}
	fr := memFile(rot)
	defer fr.Close()
	for t.at < cl+4*giantN {
		t.tile(fr, span, syscall.PROT_READ)
	}
	return t, unsafe.Slice((*byte)(t.ptr()), cl+4*giantN)
}

// giantWords: numbers of 4 bytes whose cyclic differences have 4 bytes too.
func giantWords() (nums, diffs []uint32) {
	diffs = make([]uint32, giantPeriod)
	sum := uint32(0)
	for k := range diffs {
		diffs[k] = number(3, 2, k)
		sum += diffs[k]
	}
	last := &diffs[giantPeriod-1]
	for *last -= sum; *last < 1<<24; *last += 1 << 27 {
		diffs[giantPeriod-2] -= 1 << 27
	}
	if diffs[giantPeriod-2] < 1<<24 {
		panic("giant: differences")
	}
	return ref.Sums(diffs, 0, nil), diffs
}

func availableMemory() int64 {
	b, _ := os.ReadFile("/proc/meminfo")
	for _, l := range strings.Split(string(b), "\n") {
		var kb int64
		if n, _ := fmt.Sscanf(l, "MemAvailable: %d kB", &kb); n == 1 {
			return kb << 10
		}
	}
	return 0
}

// giantStream fails unless s is the stream of giantN 4-byte numbers.
func giantStream(c *eng.Ctx, who string, s []byte, period []uint32) {
	cl := ref.CtrlLen(giantN)
	if len(s) != cl+4*giantN {
		c.Fail("%s of %d 4-byte numbers: %d bytes, want %d", who, giantN, len(s), cl+4*giantN)
	}
	full := giantN / 4
	for i := 0; i < full; i++ {
		if s[i] != 0xff {
			c.Fail("%s of %d 4-byte numbers: control byte %d is %#x, want 0xff", who, giantN, i, s[i])
		}
	}
	if want := byte(1<<(2*uint(giantN%4)) - 1); s[full] != want {
		c.Fail("%s of %d 4-byte numbers: last control byte is %#x, want %#x", who, giantN, s[full], want)
	}
	data := rawOf(period)
	for p := cl; p < len(s); p += len(data) {
		e := min(p+len(data), len(s))
		if !bytes.Equal(s[p:e], data[:e-p]) {
			c.Fail("%s of %d 4-byte numbers, from byte %d: %s", who, giantN, p, firstDiffB(s[p:e], data[:e-p]))
		}
	}
}

// giantRead decodes into memory in which only the last period stays.
func giantRead(c *eng.Ctx, who string, read func(out []uint32), period []uint32) {
	fill := make([]uint32, giantPeriod)
	for k := range fill {
		fill[k] = ^period[k]
	}
	t, out := numsTiled(fill, syscall.PROT_READ|syscall.PROT_WRITE)
	defer t.free()
	read(out)
	for p := 0; p < giantPeriod; p += 1024 {
		if !slices.Equal(out[p:p+1024], period[p:p+1024]) {
			c.Fail("%s of %d 4-byte numbers: in the last %d numbers: %s", who, giantN, giantPeriod, firstDiff32(out[p:p+1024], period[p:p+1024]))
		}
	}
	c.Run(1)
}

// giantPhase runs check id on streams of more than 2^32 bytes.
func giantPhase(id string) []eng.Phase {
	cases := map[string]int{"C01": len(lib.Writers), "C02": len(lib.DeltaWriters), "C03": len(lib.Writers), "C04": len(lib.DeltaWriters),
		"C05": len(lib.Readers) + len(lib.DeltaReaders)}[id]
	return []eng.Phase{{Name: "giant-stream-of-5GB", N: int64(cases), Alone: true, Run: func(c *eng.Ctx, i int64) {
		if m := availableMemory(); m < 10<<30 {
			c.Cap(fmt.Sprintf("needs 10 GB of memory, %d GB are available", m>>30))
			return
		}
		defer debug.FreeOSMemory()
		nums, diffs := giantWords()
		prev := uint32(0) // the last number of a period
		if nums[giantPeriod-1] != prev {
			panic("giant: not periodic")
		}
		k := int(i)
		if id == "C05" {
			if k < len(lib.Readers) {
				r := lib.Readers[k]
				t, s := streamTiled(nums4(nums))
				defer t.free()
				giantRead(c, r.Name, func(out []uint32) { r.F(giantN, s, out) }, nums4(nums))
			} else {
				r := lib.DeltaReaders[k-len(lib.Readers)]
				t, s := streamTiled(diffs)
				defer t.free()
				giantRead(c, r.Name, func(out []uint32) { r.F(giantN, s, out, prev) }, nums)
			}
			c.Word(1, giantN)
			return
		}
		delta := id == "C02" || id == "C04"
		period := nums
		if !delta {
			period = nums4(nums)
		}
		t, in := numsTiled(period, syscall.PROT_READ)
		defer t.free()
		c.Word(1, giantN)
		var s []byte
		if delta {
			w := lib.DeltaWriters[k]
			s = w.F(in, prev)
			c.Run(1)
			if id == "C04" {
				giantStream(c, w.Name, s, diffs)
				return
			}
			r := lib.DeltaReaders[(k+1)%len(lib.DeltaReaders)]
			giantRead(c, w.Name+" then "+r.Name, func(out []uint32) { r.F(giantN, s, out, prev) }, period)
		} else {
			w := lib.Writers[k]
			s = w.F(in)
			c.Run(1)
			if id == "C03" {
				giantStream(c, w.Name, s, period)
				return
			}
			r := lib.Readers[(k+1)%len(lib.Readers)]
			giantRead(c, w.Name+" then "+r.Name, func(out []uint32) { r.F(giantN, s, out) }, period)
		}
		runtime.KeepAlive(s)
	}}}
}

// nums4 makes every number one of 4 bytes.
func nums4(n []uint32) []uint32 {
	out := make([]uint32, len(n))
	for k, v := range n {
		out[k] = v | 0x11000000
	}
	return out
}
