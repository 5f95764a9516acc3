//go:build linux && amd64

// mipsrun executes a static linux/mips or linux/mips64 (big-endian, soft
// float) program of the Go toolchain: an interpreter of the instruction set
// and of the few system calls the runtime needs. C13 runs the worker with it,
// because nothing else here executes big-endian code.
//
// It gives up with exit status 70 and a line starting "mipsrun:" when the
// program needs something it does not have; that is never a violation.
package main

import (
	"debug/elf"
	"encoding/binary"
	"fmt"
	"math/bits"
	"os"
	"runtime"
	"runtime/debug"
	"syscall"
	"time"
	"unsafe"
)

const (
	quantum = 200000
	page    = 4096
)

var (
	is64   bool
	base   unsafe.Pointer
	window uint64 // guest addresses lie below this
	next   uint64 // where the next mapping goes
	start  = time.Now()
	trace  = os.Getenv("MIPSRUN_TRACE") != ""
)

type thread struct {
	r        [32]uint64
	hi, lo   uint64
	pc, npc  uint64
	linked   bool
	tls      uint64
	tid      uint64
	ctid     uint64
	waiting  uint64 // futex address, 0 when runnable
	asleep   bool
	until    time.Time // when asleep or waiting with a limit
	limited  bool
	finished bool
}

var (
	threads  []*thread
	note     *os.File
	notePath string
)

func giveUp(format string, args ...interface{}) {
	fmt.Fprintf(os.Stderr, "mipsrun: "+format+"\n", args...)
	os.Exit(70)
}

func at(a uint64, n uint64) unsafe.Pointer {
	if !is64 {
		a &= 0xffffffff
	}
	if a+n > window || a+n < a {
		panic(fmt.Sprintf("address %#x", a))
	}
	return unsafe.Add(base, a)
}

func raw(a, n uint64) []byte {
	if n == 0 {
		return nil
	}
	return unsafe.Slice((*byte)(at(a, n)), n)
}

// Single accesses wrap at the window; pages that are not mapped fault.
var (
	origin uintptr
	inside uint64
)

func ld8(a uint64) uint64 { return uint64(*(*uint8)(unsafe.Pointer(origin + uintptr(a&inside)))) }
func ld16(a uint64) uint64 {
	return uint64(bits.ReverseBytes16(*(*uint16)(unsafe.Pointer(origin + uintptr(a&inside)))))
}
func ld32(a uint64) uint64 {
	return uint64(bits.ReverseBytes32(*(*uint32)(unsafe.Pointer(origin + uintptr(a&inside)))))
}
func ld64(a uint64) uint64 {
	return bits.ReverseBytes64(*(*uint64)(unsafe.Pointer(origin + uintptr(a&inside))))
}
func st8(a, v uint64) { *(*uint8)(unsafe.Pointer(origin + uintptr(a&inside))) = uint8(v) }
func st16(a, v uint64) {
	*(*uint16)(unsafe.Pointer(origin + uintptr(a&inside))) = bits.ReverseBytes16(uint16(v))
}
func st32(a, v uint64) {
	*(*uint32)(unsafe.Pointer(origin + uintptr(a&inside))) = bits.ReverseBytes32(uint32(v))
}
func st64(a, v uint64) {
	*(*uint64)(unsafe.Pointer(origin + uintptr(a&inside))) = bits.ReverseBytes64(v)
}

func sx(v uint64) uint64 { return uint64(int64(int32(uint32(v)))) }

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// step executes up to n instructions; it returns when the thread cannot go on.
func (t *thread) step(n int) {
	r := &t.r
	pc, npc := t.pc, t.npc
	mask := ^uint64(0)
	if !is64 {
		mask = 0xffffffff
	}
	for ; n > 0; n-- {
		w := uint32(ld32(pc))
		rs, rt, rd, sa := w>>21&31, w>>16&31, w>>11&31, w>>6&31
		imm := uint64(int64(int16(w)))
		nn := npc + 4
		skip := false // an untaken branch-likely
		bad := func() { giveUp("instruction %#08x at %#x", w, pc) }
		branch := func(c bool) {
			if c {
				nn = (npc + imm<<2) & mask
			}
		}
		switch w >> 26 {
		case 0:
			switch w & 63 {
			case 0x00:
				r[rd] = sx(r[rt] << sa)
			case 0x02:
				if rs&1 != 0 {
					r[rd] = sx(uint64(bits.RotateLeft32(uint32(r[rt]), -int(sa))))
				} else {
					r[rd] = sx(uint64(uint32(r[rt]) >> sa))
				}
			case 0x03:
				r[rd] = uint64(int64(int32(r[rt])) >> sa)
			case 0x04:
				r[rd] = sx(r[rt] << (r[rs] & 31))
			case 0x06:
				if sa&1 != 0 {
					r[rd] = sx(uint64(bits.RotateLeft32(uint32(r[rt]), -int(r[rs]&31))))
				} else {
					r[rd] = sx(uint64(uint32(r[rt]) >> (r[rs] & 31)))
				}
			case 0x07:
				r[rd] = uint64(int64(int32(r[rt])) >> (r[rs] & 31))
			case 0x08:
				nn = r[rs] & mask
			case 0x09:
				to := r[rs] & mask
				if rd != 0 {
					r[rd] = pc + 8
				}
				nn = to
			case 0x0a:
				if r[rt] == 0 {
					r[rd] = r[rs]
				}
			case 0x0b:
				if r[rt] != 0 {
					r[rd] = r[rs]
				}
			case 0x0c:
				r[0] = 0
				t.pc, t.npc = npc, nn
				t.syscall()
				if t.finished || t.waiting != 0 || t.asleep {
					return
				}
				return
			case 0x0d:
				giveUp("break at %#x", pc)
			case 0x0f: // sync
			case 0x10:
				r[rd] = t.hi
			case 0x11:
				t.hi = r[rs]
			case 0x12:
				r[rd] = t.lo
			case 0x13:
				t.lo = r[rs]
			case 0x14:
				r[rd] = r[rt] << (r[rs] & 63)
			case 0x16:
				if sa&1 != 0 {
					r[rd] = bits.RotateLeft64(r[rt], -int(r[rs]&63))
				} else {
					r[rd] = r[rt] >> (r[rs] & 63)
				}
			case 0x17:
				r[rd] = uint64(int64(r[rt]) >> (r[rs] & 63))
			case 0x18:
				p := int64(int32(r[rs])) * int64(int32(r[rt]))
				t.lo, t.hi = sx(uint64(p)), sx(uint64(p)>>32)
			case 0x19:
				p := uint64(uint32(r[rs])) * uint64(uint32(r[rt]))
				t.lo, t.hi = sx(p), sx(p>>32)
			case 0x1a:
				a, b := int64(int32(r[rs])), int64(int32(r[rt]))
				if b != 0 {
					t.lo, t.hi = sx(uint64(a/b)), sx(uint64(a%b))
				}
			case 0x1b:
				a, b := uint32(r[rs]), uint32(r[rt])
				if b != 0 {
					t.lo, t.hi = sx(uint64(a/b)), sx(uint64(a%b))
				}
			case 0x1c:
				hi, lo := bits.Mul64(r[rs], r[rt])
				if int64(r[rs]) < 0 {
					hi -= r[rt]
				}
				if int64(r[rt]) < 0 {
					hi -= r[rs]
				}
				t.lo, t.hi = lo, hi
			case 0x1d:
				t.hi, t.lo = bits.Mul64(r[rs], r[rt])
			case 0x1e:
				a, b := int64(r[rs]), int64(r[rt])
				if b == -1 {
					t.lo, t.hi = uint64(-a), 0
				} else if b != 0 {
					t.lo, t.hi = uint64(a/b), uint64(a%b)
				}
			case 0x1f:
				if r[rt] != 0 {
					t.lo, t.hi = r[rs]/r[rt], r[rs]%r[rt]
				}
			case 0x20, 0x21:
				r[rd] = sx(r[rs] + r[rt])
			case 0x22, 0x23:
				r[rd] = sx(r[rs] - r[rt])
			case 0x24:
				r[rd] = r[rs] & r[rt]
			case 0x25:
				r[rd] = r[rs] | r[rt]
			case 0x26:
				r[rd] = r[rs] ^ r[rt]
			case 0x27:
				r[rd] = ^(r[rs] | r[rt])
			case 0x2a:
				r[rd] = b2u(int64(r[rs]) < int64(r[rt]))
			case 0x2b:
				r[rd] = b2u(r[rs] < r[rt])
			case 0x2c, 0x2d:
				r[rd] = r[rs] + r[rt]
			case 0x2e, 0x2f:
				r[rd] = r[rs] - r[rt]
			case 0x34:
				if r[rs] == r[rt] {
					giveUp("trap at %#x", pc)
				}
			case 0x36:
				if r[rs] != r[rt] {
					giveUp("trap at %#x", pc)
				}
			case 0x38:
				r[rd] = r[rt] << sa
			case 0x3a:
				if rs&1 != 0 {
					r[rd] = bits.RotateLeft64(r[rt], -int(sa))
				} else {
					r[rd] = r[rt] >> sa
				}
			case 0x3b:
				r[rd] = uint64(int64(r[rt]) >> sa)
			case 0x3c:
				r[rd] = r[rt] << (sa + 32)
			case 0x3e:
				if rs&1 != 0 {
					r[rd] = bits.RotateLeft64(r[rt], -int(sa+32))
				} else {
					r[rd] = r[rt] >> (sa + 32)
				}
			case 0x3f:
				r[rd] = uint64(int64(r[rt]) >> (sa + 32))
			default:
				bad()
			}
		case 1:
			var c bool
			switch rt & 0xf {
			case 0, 2:
				c = int64(r[rs]) < 0
			case 1, 3:
				c = int64(r[rs]) >= 0
			default:
				bad()
			}
			if rt&16 != 0 {
				r[31] = pc + 8
			}
			skip = rt&2 != 0 && !c
			branch(c)
		case 2, 3:
			if w>>26 == 3 {
				r[31] = pc + 8
			}
			nn = npc&^0x0fffffff | uint64(w&0x03ffffff)<<2
		case 4, 20:
			c := r[rs] == r[rt]
			skip = w>>26 == 20 && !c
			branch(c)
		case 5, 21:
			c := r[rs] != r[rt]
			skip = w>>26 == 21 && !c
			branch(c)
		case 6, 22:
			c := int64(r[rs]) <= 0
			skip = w>>26 == 22 && !c
			branch(c)
		case 7, 23:
			c := int64(r[rs]) > 0
			skip = w>>26 == 23 && !c
			branch(c)
		case 8, 9:
			r[rt] = sx(r[rs] + imm)
		case 10:
			r[rt] = b2u(int64(r[rs]) < int64(imm))
		case 11:
			r[rt] = b2u(r[rs] < imm)
		case 12:
			r[rt] = r[rs] & uint64(uint16(w))
		case 13:
			r[rt] = r[rs] | uint64(uint16(w))
		case 14:
			r[rt] = r[rs] ^ uint64(uint16(w))
		case 15:
			r[rt] = sx(uint64(w) << 16)
		case 24, 25:
			r[rt] = r[rs] + imm
		case 28:
			acc := t.hi<<32 | t.lo&0xffffffff
			switch w & 63 {
			case 0x00:
				acc += uint64(int64(int32(r[rs])) * int64(int32(r[rt])))
				t.lo, t.hi = sx(acc), sx(acc>>32)
			case 0x01:
				acc += uint64(uint32(r[rs])) * uint64(uint32(r[rt]))
				t.lo, t.hi = sx(acc), sx(acc>>32)
			case 0x02:
				r[rd] = sx(r[rs] * r[rt])
			case 0x04:
				acc -= uint64(int64(int32(r[rs])) * int64(int32(r[rt])))
				t.lo, t.hi = sx(acc), sx(acc>>32)
			case 0x05:
				acc -= uint64(uint32(r[rs])) * uint64(uint32(r[rt]))
				t.lo, t.hi = sx(acc), sx(acc>>32)
			case 0x20:
				r[rd] = uint64(bits.LeadingZeros32(uint32(r[rs])))
			case 0x21:
				r[rd] = uint64(bits.LeadingZeros32(^uint32(r[rs])))
			case 0x24:
				r[rd] = uint64(bits.LeadingZeros64(r[rs]))
			case 0x25:
				r[rd] = uint64(bits.LeadingZeros64(^r[rs]))
			default:
				bad()
			}
		case 31:
			switch w & 63 {
			case 0x3b: // rdhwr
				if rd != 29 {
					bad()
				}
				r[rt] = t.tls
			case 0x20: // bshfl
				switch sa {
				case 0x02:
					v := uint32(r[rt])
					r[rd] = sx(uint64(v&0x00ff00ff<<8 | v>>8&0x00ff00ff))
				case 0x10:
					r[rd] = uint64(int64(int8(r[rt])))
				case 0x18:
					r[rd] = uint64(int64(int16(r[rt])))
				default:
					bad()
				}
			case 0x24: // dbshfl
				v := r[rt]
				switch sa {
				case 0x02:
					r[rd] = v&0x00ff00ff00ff00ff<<8 | v>>8&0x00ff00ff00ff00ff
				case 0x05:
					r[rd] = v<<48 | v<<16&0x0000ffff00000000 | v>>16&0xffff0000 | v>>48
				default:
					bad()
				}
			case 0x00: // ext
				r[rt] = sx(uint64(uint32(r[rs]) >> sa & (1<<(rd+1) - 1)))
			case 0x04: // ins
				m := uint32(1<<(uint64(rd)-uint64(sa)+1)-1) << sa
				r[rt] = sx(uint64(uint32(r[rt])&^m | uint32(r[rs])<<sa&m))
			default:
				bad()
			}
		case 26, 27: // ldl, ldr
			a := r[rs] + imm
			v := ld64(a &^ 7)
			if k := a & 7 * 8; w>>26 == 26 {
				r[rt] = v<<k | r[rt]&(1<<k-1)
			} else {
				r[rt] = v>>(56-k) | r[rt]&^(^uint64(0)>>(56-k))
			}
		case 32:
			r[rt] = uint64(int64(int8(ld8(r[rs] + imm))))
		case 33:
			r[rt] = uint64(int64(int16(ld16(r[rs] + imm))))
		case 34, 38: // lwl, lwr
			a := r[rs] + imm
			v, old := uint32(ld32(a&^3)), uint32(r[rt])
			if k := a & 3 * 8; w>>26 == 34 {
				v = v<<k | old&(1<<k-1)
			} else {
				v = v>>(24-k) | old&^(^uint32(0)>>(24-k))
			}
			r[rt] = sx(uint64(v))
		case 35:
			r[rt] = sx(ld32(r[rs] + imm))
		case 36:
			r[rt] = ld8(r[rs] + imm)
		case 37:
			r[rt] = ld16(r[rs] + imm)
		case 39:
			r[rt] = ld32(r[rs] + imm)
		case 40:
			st8(r[rs]+imm, r[rt])
		case 41:
			st16(r[rs]+imm, r[rt])
		case 42, 46: // swl, swr
			a := r[rs] + imm
			v, old := uint32(r[rt]), uint32(ld32(a&^3))
			if k := a & 3 * 8; w>>26 == 42 {
				v = v>>k | old&^(^uint32(0)>>k)
			} else {
				v = v<<(24-k) | old&(1<<(24-k)-1)
			}
			st32(a&^3, uint64(v))
		case 43:
			st32(r[rs]+imm, r[rt])
		case 44, 45: // sdl, sdr
			a := r[rs] + imm
			v, old := r[rt], ld64(a&^7)
			if k := a & 7 * 8; w>>26 == 44 {
				v = v>>k | old&^(^uint64(0)>>k)
			} else {
				v = v<<(56-k) | old&(1<<(56-k)-1)
			}
			st64(a&^7, v)
		case 48:
			r[rt] = sx(ld32(r[rs] + imm))
			t.linked = true
		case 52:
			r[rt] = ld64(r[rs] + imm)
			t.linked = true
		case 56:
			if t.linked {
				st32(r[rs]+imm, r[rt])
			}
			r[rt] = b2u(t.linked)
			t.linked = false
		case 60:
			if t.linked {
				st64(r[rs]+imm, r[rt])
			}
			r[rt] = b2u(t.linked)
			t.linked = false
		case 51: // pref
		case 55:
			r[rt] = ld64(r[rs] + imm)
		case 63:
			st64(r[rs]+imm, r[rt])
		default:
			bad()
		}
		r[0] = 0
		pc, npc = npc, nn
		if skip {
			pc, npc = npc, npc+4
		}
	}
	t.pc, t.npc = pc, npc
}

const (
	eperm, enoent, eagain, einval, enosys, etimedout = 1, 2, 11, 22, 89, 145
)

var names = map[uint64]string{ // o32, then n64
	4093: "zero", 4212: "zero", 5075: "zero",
	4001: "exit", 4003: "read", 4004: "write", 4006: "close", 4020: "getpid", 4090: "mmap", 4091: "munmap", 4120: "clone", 4125: "mprotect",
	4162: "sched_yield", 4166: "nanosleep", 4194: "zero", 4195: "zero", 4206: "zero", 4192: "prctl", 4210: "mmap2", 4218: "madvise", 4222: "gettid", 4236: "zero",
	4238: "futex", 4240: "sched_getaffinity", 4246: "exit_group", 4249: "epoll_ctl", 4263: "clock_gettime", 4266: "zero", 4288: "openat",
	4298: "openat", 4313: "epoll_pwait", 4325: "eventfd", 4326: "epoll_create", 4353: "getrandom", 4055: "fcntl", 4220: "fcntl", 4403: "clock_gettime64", 4422: "futex64",
	5058: "exit", 5000: "read", 5001: "write", 5003: "close", 5038: "getpid", 5009: "mmap", 5011: "munmap", 5055: "clone", 5010: "mprotect",
	5023: "sched_yield", 5034: "nanosleep", 5013: "zero", 5014: "zero", 5129: "zero", 5153: "prctl", 5027: "madvise", 5178: "gettid", 5192: "zero",
	5194: "futex", 5196: "sched_getaffinity", 5205: "exit_group", 5208: "epoll_ctl", 5222: "clock_gettime", 5225: "zero", 5247: "openat",
	5257: "openat", 5272: "epoll_pwait", 5284: "eventfd", 5285: "epoll_create", 5313: "getrandom", 5070: "fcntl",
}

func up(v uint64) uint64 { return (v + page - 1) &^ (page - 1) }

func protect(a, n uint64, prot int) {
	if _, _, e := syscall.Syscall(syscall.SYS_MPROTECT, uintptr(at(a, n)), uintptr(n), uintptr(prot)); e != 0 {
		giveUp("mprotect: %v", e)
	}
}

func forget(a, n uint64, prot int) { // fresh zero pages
	const flags = syscall.MAP_PRIVATE | syscall.MAP_ANON | syscall.MAP_FIXED | syscall.MAP_NORESERVE
	if _, _, e := syscall.Syscall6(syscall.SYS_MMAP, uintptr(at(a, n)), uintptr(n), uintptr(prot), flags, ^uintptr(0), 0); e != 0 {
		giveUp("mmap: %v", e)
	}
}

func timespec(a uint64, wide bool) time.Duration {
	if wide {
		return time.Duration(ld64(a))*time.Second + time.Duration(ld64(a+8))
	}
	return time.Duration(int32(ld32(a)))*time.Second + time.Duration(ld32(a+4))
}

func (t *thread) syscall() {
	arg := func(i int) uint64 {
		if is64 || i < 4 {
			v := t.r[4+i]
			if !is64 {
				v &= 0xffffffff
			}
			return v
		}
		return ld32(t.r[29] + uint64(4*i))
	}
	ret := func(v uint64) { t.r[2], t.r[7] = v, 0 }
	fail := func(e uint64) { t.r[2], t.r[7] = e, 1 }
	t.linked = false
	name := names[t.r[2]]
	if trace {
		fmt.Fprintf(os.Stderr, "[%d] %d %s %#x %#x %#x %#x\n", t.tid, t.r[2], name, t.r[4], t.r[5], t.r[6], t.r[7])
	}
	switch name {
	case "exit":
		t.finished = true
		if t.ctid != 0 {
			st32(t.ctid, 0)
			wake(t.ctid, 1)
		}
	case "exit_group":
		os.Exit(int(uint8(arg(0))))
	case "read", "write":
		fd, b := int(arg(0)), raw(arg(1), arg(2))
		if fd > 2 {
			fail(eagain)
			return
		}
		var n int
		var err error
		if name == "read" {
			n, err = syscall.Read(fd, b)
		} else {
			n, err = syscall.Write(fd, b)
		}
		if e, ok := err.(syscall.Errno); ok {
			fail(uint64(e))
			return
		}
		ret(uint64(n))
	case "close", "zero", "prctl", "fcntl":
		ret(0)
	case "getpid":
		ret(1)
	case "gettid":
		ret(t.tid)
	case "mmap", "mmap2":
		a, n, prot, flags := arg(0), up(arg(1)), int(arg(2)), arg(3)
		if flags&0x800 == 0 {
			if note == nil || arg(4) != 101 || n != page || next+n > window {
				fail(einval)
				return
			}
			const flags = syscall.MAP_SHARED | syscall.MAP_FIXED
			if _, _, e := syscall.Syscall6(syscall.SYS_MMAP, uintptr(at(next, n)), uintptr(n), uintptr(prot&3), flags, note.Fd(), 0); e != 0 {
				giveUp("mmap: %v", e)
			}
			ret(next)
			next += n
			return
		}
		if flags&0x10 == 0 {
			if next+n > window {
				fail(12)
				return
			}
			a = next
			next += n
		}
		forget(a, n, prot&3)
		ret(a)
	case "munmap":
		forget(arg(0), up(arg(1)), 0)
		ret(0)
	case "mprotect":
		protect(arg(0), up(arg(1)), int(arg(2)&3))
		ret(0)
	case "madvise":
		if adv := arg(2); adv == 4 || adv == 8 {
			syscall.Syscall(syscall.SYS_MADVISE, uintptr(at(arg(0), arg(1))), uintptr(arg(1)), 4)
		}
		ret(0)
	case "clone":
		c := *t
		c.tid = uint64(len(threads) + 1)
		c.r[2], c.r[7] = 0, 0
		if arg(1) != 0 {
			c.r[29] = arg(1)
		}
		c.ctid = 0
		if arg(0)&0x00200000 != 0 {
			c.ctid = arg(4)
		}
		threads = append(threads, &c)
		ret(c.tid)
	case "sched_yield":
		ret(0)
		t.asleep, t.limited, t.until = true, true, time.Now()
	case "nanosleep":
		ret(0)
		t.asleep, t.limited, t.until = true, true, time.Now().Add(timespec(arg(0), is64))
	case "futex", "futex64":
		switch arg(1) & 127 {
		case 0:
			if ld32(arg(0)) != arg(2)&0xffffffff {
				fail(eagain)
				return
			}
			ret(0)
			t.waiting, t.limited = arg(0), arg(3) != 0
			if t.limited {
				t.until = time.Now().Add(timespec(arg(3), is64 || name == "futex64"))
			}
		case 1:
			ret(wake(arg(0), arg(2)))
		default:
			fail(enosys)
		}
	case "sched_getaffinity":
		b := raw(arg(2), 8)
		for i := range b {
			b[i] = 0
		}
		b[7] = 1
		ret(8)
	case "clock_gettime", "clock_gettime64":
		now := time.Now()
		s, ns := uint64(now.Unix()), uint64(now.Nanosecond())
		if arg(0) == 1 {
			d := time.Since(start) + time.Hour
			s, ns = uint64(d/time.Second), uint64(d%time.Second)
		}
		if is64 || name == "clock_gettime64" {
			st64(arg(1), s)
			st64(arg(1)+8, ns)
		} else {
			st32(arg(1), s)
			st32(arg(1)+4, ns)
		}
		ret(0)
	case "openat": // only the note, a page shared with the driver
		k := uint64(0)
		for k < 4096 && ld8(arg(1)+k) != 0 {
			k++
		}
		if name := string(raw(arg(1), k)); notePath == "" || name != notePath {
			fail(enoent)
			return
		}
		var err error
		if note, err = os.OpenFile(notePath, os.O_RDWR|os.O_CREATE, 0o600); err != nil {
			fail(enoent)
			return
		}
		note.Truncate(64)
		ret(101)
	case "eventfd", "epoll_create":
		ret(100)
	case "epoll_ctl":
		if int32(arg(2)) == 100 {
			ret(0)
			return
		}
		fail(eperm)
	case "epoll_pwait":
		ret(0)
		if ms := int32(arg(3)); ms != 0 {
			t.asleep, t.limited, t.until = true, ms > 0, time.Now().Add(time.Duration(ms)*time.Millisecond)
		}
	case "getrandom":
		b := raw(arg(0), arg(1))
		for i := range b {
			b[i] = byte(i*37 + 11)
		}
		ret(uint64(len(b)))
	default:
		fail(enosys)
	}
}

func wake(a, n uint64) uint64 {
	k := uint64(0)
	for _, t := range threads {
		if k < n && t.waiting == a {
			t.waiting = 0
			k++
		}
	}
	return k
}

func main() {
	runtime.LockOSThread()
	debug.SetPanicOnFault(true)
	if len(os.Args) < 2 {
		giveUp("no program")
	}
	for k, a := range os.Args[:len(os.Args)-1] {
		if a == "-note" {
			notePath = os.Args[k+1]
		}
	}
	f, err := elf.Open(os.Args[1])
	if err != nil {
		giveUp("%v", err)
	}
	if f.Machine != elf.EM_MIPS || f.ByteOrder != binary.BigEndian {
		giveUp("not a big-endian MIPS program")
	}
	is64 = f.Class == elf.ELFCLASS64
	window = 1 << 31
	if is64 {
		window = 1 << 36
	}
	p, _, e := syscall.Syscall6(syscall.SYS_MMAP, 0, uintptr(window)+page, 0, syscall.MAP_PRIVATE|syscall.MAP_ANON|syscall.MAP_NORESERVE, ^uintptr(0), 0)
	if e != 0 {
		giveUp("reserving memory: %v", e)
	}
	*(*uintptr)(unsafe.Pointer(&base)) = p
	origin, inside = p, window-1
	for _, s := range f.Progs {
		if s.Type != elf.PT_LOAD || s.Memsz == 0 {
			continue
		}
		lo, hi := s.Vaddr&^(page-1), up(s.Vaddr+s.Memsz)
		protect(lo, hi-lo, 3)
		if _, err := s.ReadAt(raw(s.Vaddr, s.Memsz)[:s.Filesz], 0); err != nil && s.Filesz > 0 {
			giveUp("%v", err)
		}
		if hi > next {
			next = hi
		}
		if s.Flags&(elf.PF_X|elf.PF_W) == elf.PF_X && code == nil {
			decode(lo, hi)
		}
	}
	next = (next + 1<<24) &^ (1<<24 - 1)
	const stack = 1 << 20
	top := next + stack
	forget(next, stack, 3)
	next = top + page
	// the initial stack: argc, argv, envp, auxv
	str := func(s string) uint64 {
		top -= uint64(len(s) + 1)
		copy(raw(top, uint64(len(s)+1)), s+"\x00")
		return top
	}
	random := str("0123456789abcde")
	words := []uint64{uint64(len(os.Args) - 1)}
	for _, a := range os.Args[1:] {
		words = append(words, str(a))
	}
	words = append(words, 0)
	env := []string{"GOMAXPROCS=1", "GODEBUG=asyncpreemptoff=1"}
	for _, v := range os.Environ() {
		if len(v) > 6 && v[:6] == "VERIF_" || len(v) > 6 && v[:6] == "GOMEML" || len(v) > 4 && v[:5] == "GOGC=" {
			env = append(env, v)
		}
	}
	for _, v := range env {
		words = append(words, str(v))
	}
	words = append(words, 0, 6, page, 25, random, 0, 0)
	size := uint64(4)
	if is64 {
		size = 8
	}
	sp := (top - size*uint64(len(words))) &^ 15
	for i, w := range words {
		if is64 {
			st64(sp+size*uint64(i), w)
		} else {
			st32(sp+size*uint64(i), w)
		}
	}
	t := &thread{tid: 1, pc: f.Entry, npc: f.Entry + 4}
	t.r[29] = sp
	threads = []*thread{t}
	for {
		ran := false
		var soonest time.Time
		for i := 0; i < len(threads); i++ {
			t := threads[i]
			if t.finished {
				continue
			}
			if t.asleep || t.waiting != 0 {
				if !t.limited {
					continue
				}
				if time.Now().Before(t.until) {
					if soonest.IsZero() || t.until.Before(soonest) {
						soonest = t.until
					}
					continue
				}
				if t.waiting != 0 {
					t.r[2], t.r[7] = etimedout, 1
				}
				t.asleep, t.waiting, t.limited = false, 0, false
			}
			ran = true
			t.linked = false
			t.run(quantum)
		}
		if !ran {
			if soonest.IsZero() {
				giveUp("every thread waits")
			}
			time.Sleep(time.Until(soonest))
		}
	}
}
