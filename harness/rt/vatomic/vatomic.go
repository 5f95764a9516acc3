// Package vatomic is sync/atomic with a scheduling point before every
// operation. The operations are the real ones.
package vatomic

import (
	"sync/atomic"
	"unsafe"

	"verif.local/harness/rt/sched"
)

type Int32 struct{ v atomic.Int32 }

func (x *Int32) Load() int32        { sched.Sync(); return x.v.Load() }
func (x *Int32) Store(n int32)      { sched.Sync(); x.v.Store(n) }
func (x *Int32) Swap(n int32) int32 { sched.Sync(); return x.v.Swap(n) }
func (x *Int32) Add(d int32) int32  { sched.Sync(); return x.v.Add(d) }
func (x *Int32) And(m int32) int32  { sched.Sync(); return x.v.And(m) }
func (x *Int32) Or(m int32) int32   { sched.Sync(); return x.v.Or(m) }
func (x *Int32) CompareAndSwap(o, n int32) bool {
	sched.Sync()
	return x.v.CompareAndSwap(o, n)
}

func LoadInt32(p *int32) int32          { sched.Sync(); return atomic.LoadInt32(p) }
func StoreInt32(p *int32, n int32)      { sched.Sync(); atomic.StoreInt32(p, n) }
func SwapInt32(p *int32, n int32) int32 { sched.Sync(); return atomic.SwapInt32(p, n) }
func AddInt32(p *int32, d int32) int32  { sched.Sync(); return atomic.AddInt32(p, d) }
func AndInt32(p *int32, m int32) int32  { sched.Sync(); return atomic.AndInt32(p, m) }
func OrInt32(p *int32, m int32) int32   { sched.Sync(); return atomic.OrInt32(p, m) }
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	sched.Sync()
	return atomic.CompareAndSwapInt32(p, o, n)
}

type Int64 struct{ v atomic.Int64 }

func (x *Int64) Load() int64        { sched.Sync(); return x.v.Load() }
func (x *Int64) Store(n int64)      { sched.Sync(); x.v.Store(n) }
func (x *Int64) Swap(n int64) int64 { sched.Sync(); return x.v.Swap(n) }
func (x *Int64) Add(d int64) int64  { sched.Sync(); return x.v.Add(d) }
func (x *Int64) And(m int64) int64  { sched.Sync(); return x.v.And(m) }
func (x *Int64) Or(m int64) int64   { sched.Sync(); return x.v.Or(m) }
func (x *Int64) CompareAndSwap(o, n int64) bool {
	sched.Sync()
	return x.v.CompareAndSwap(o, n)
}

func LoadInt64(p *int64) int64          { sched.Sync(); return atomic.LoadInt64(p) }
func StoreInt64(p *int64, n int64)      { sched.Sync(); atomic.StoreInt64(p, n) }
func SwapInt64(p *int64, n int64) int64 { sched.Sync(); return atomic.SwapInt64(p, n) }
func AddInt64(p *int64, d int64) int64  { sched.Sync(); return atomic.AddInt64(p, d) }
func AndInt64(p *int64, m int64) int64  { sched.Sync(); return atomic.AndInt64(p, m) }
func OrInt64(p *int64, m int64) int64   { sched.Sync(); return atomic.OrInt64(p, m) }
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	sched.Sync()
	return atomic.CompareAndSwapInt64(p, o, n)
}

type Uint32 struct{ v atomic.Uint32 }

func (x *Uint32) Load() uint32         { sched.Sync(); return x.v.Load() }
func (x *Uint32) Store(n uint32)       { sched.Sync(); x.v.Store(n) }
func (x *Uint32) Swap(n uint32) uint32 { sched.Sync(); return x.v.Swap(n) }
func (x *Uint32) Add(d uint32) uint32  { sched.Sync(); return x.v.Add(d) }
func (x *Uint32) And(m uint32) uint32  { sched.Sync(); return x.v.And(m) }
func (x *Uint32) Or(m uint32) uint32   { sched.Sync(); return x.v.Or(m) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool {
	sched.Sync()
	return x.v.CompareAndSwap(o, n)
}

func LoadUint32(p *uint32) uint32           { sched.Sync(); return atomic.LoadUint32(p) }
func StoreUint32(p *uint32, n uint32)       { sched.Sync(); atomic.StoreUint32(p, n) }
func SwapUint32(p *uint32, n uint32) uint32 { sched.Sync(); return atomic.SwapUint32(p, n) }
func AddUint32(p *uint32, d uint32) uint32  { sched.Sync(); return atomic.AddUint32(p, d) }
func AndUint32(p *uint32, m uint32) uint32  { sched.Sync(); return atomic.AndUint32(p, m) }
func OrUint32(p *uint32, m uint32) uint32   { sched.Sync(); return atomic.OrUint32(p, m) }
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	sched.Sync()
	return atomic.CompareAndSwapUint32(p, o, n)
}

type Uint64 struct{ v atomic.Uint64 }

func (x *Uint64) Load() uint64         { sched.Sync(); return x.v.Load() }
func (x *Uint64) Store(n uint64)       { sched.Sync(); x.v.Store(n) }
func (x *Uint64) Swap(n uint64) uint64 { sched.Sync(); return x.v.Swap(n) }
func (x *Uint64) Add(d uint64) uint64  { sched.Sync(); return x.v.Add(d) }
func (x *Uint64) And(m uint64) uint64  { sched.Sync(); return x.v.And(m) }
func (x *Uint64) Or(m uint64) uint64   { sched.Sync(); return x.v.Or(m) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool {
	sched.Sync()
	return x.v.CompareAndSwap(o, n)
}

func LoadUint64(p *uint64) uint64           { sched.Sync(); return atomic.LoadUint64(p) }
func StoreUint64(p *uint64, n uint64)       { sched.Sync(); atomic.StoreUint64(p, n) }
func SwapUint64(p *uint64, n uint64) uint64 { sched.Sync(); return atomic.SwapUint64(p, n) }
func AddUint64(p *uint64, d uint64) uint64  { sched.Sync(); return atomic.AddUint64(p, d) }
func AndUint64(p *uint64, m uint64) uint64  { sched.Sync(); return atomic.AndUint64(p, m) }
func OrUint64(p *uint64, m uint64) uint64   { sched.Sync(); return atomic.OrUint64(p, m) }
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	sched.Sync()
	return atomic.CompareAndSwapUint64(p, o, n)
}

type Uintptr struct{ v atomic.Uintptr }

func (x *Uintptr) Load() uintptr          { sched.Sync(); return x.v.Load() }
func (x *Uintptr) Store(n uintptr)        { sched.Sync(); x.v.Store(n) }
func (x *Uintptr) Swap(n uintptr) uintptr { sched.Sync(); return x.v.Swap(n) }
func (x *Uintptr) Add(d uintptr) uintptr  { sched.Sync(); return x.v.Add(d) }
func (x *Uintptr) And(m uintptr) uintptr  { sched.Sync(); return x.v.And(m) }
func (x *Uintptr) Or(m uintptr) uintptr   { sched.Sync(); return x.v.Or(m) }
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool {
	sched.Sync()
	return x.v.CompareAndSwap(o, n)
}

func LoadUintptr(p *uintptr) uintptr            { sched.Sync(); return atomic.LoadUintptr(p) }
func StoreUintptr(p *uintptr, n uintptr)        { sched.Sync(); atomic.StoreUintptr(p, n) }
func SwapUintptr(p *uintptr, n uintptr) uintptr { sched.Sync(); return atomic.SwapUintptr(p, n) }
func AddUintptr(p *uintptr, d uintptr) uintptr  { sched.Sync(); return atomic.AddUintptr(p, d) }
func AndUintptr(p *uintptr, m uintptr) uintptr  { sched.Sync(); return atomic.AndUintptr(p, m) }
func OrUintptr(p *uintptr, m uintptr) uintptr   { sched.Sync(); return atomic.OrUintptr(p, m) }
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	sched.Sync()
	return atomic.CompareAndSwapUintptr(p, o, n)
}

type Bool struct{ v atomic.Bool }

func (x *Bool) Load() bool       { sched.Sync(); return x.v.Load() }
func (x *Bool) Store(n bool)     { sched.Sync(); x.v.Store(n) }
func (x *Bool) Swap(n bool) bool { sched.Sync(); return x.v.Swap(n) }
func (x *Bool) CompareAndSwap(o, n bool) bool {
	sched.Sync()
	return x.v.CompareAndSwap(o, n)
}

type Pointer[T any] struct{ v atomic.Pointer[T] }

func (x *Pointer[T]) Load() *T     { sched.Sync(); return x.v.Load() }
func (x *Pointer[T]) Store(n *T)   { sched.Sync(); x.v.Store(n) }
func (x *Pointer[T]) Swap(n *T) *T { sched.Sync(); return x.v.Swap(n) }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool {
	sched.Sync()
	return x.v.CompareAndSwap(o, n)
}

type Value struct{ v atomic.Value }

func (x *Value) Load() any      { sched.Sync(); return x.v.Load() }
func (x *Value) Store(n any)    { sched.Sync(); x.v.Store(n) }
func (x *Value) Swap(n any) any { sched.Sync(); return x.v.Swap(n) }
func (x *Value) CompareAndSwap(o, n any) bool {
	sched.Sync()
	return x.v.CompareAndSwap(o, n)
}

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer     { sched.Sync(); return atomic.LoadPointer(p) }
func StorePointer(p *unsafe.Pointer, n unsafe.Pointer) { sched.Sync(); atomic.StorePointer(p, n) }
func SwapPointer(p *unsafe.Pointer, n unsafe.Pointer) unsafe.Pointer {
	sched.Sync()
	return atomic.SwapPointer(p, n)
}
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	sched.Sync()
	return atomic.CompareAndSwapPointer(p, o, n)
}
