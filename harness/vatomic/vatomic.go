// Package vatomic has package sync/atomic with a scheduling point before
// every operation.
package vatomic

import (
	"sync/atomic"
	"unsafe"

	"strip.verif/vsched"
)

type Value struct{ v atomic.Value }

func (v *Value) Load() any      { vsched.Point("atomic"); return v.v.Load() }
func (v *Value) Store(x any)    { vsched.Point("atomic"); v.v.Store(x) }
func (v *Value) Swap(x any) any { vsched.Point("atomic"); return v.v.Swap(x) }
func (v *Value) CompareAndSwap(o, n any) bool {
	vsched.Point("atomic")
	return v.v.CompareAndSwap(o, n)
}

type Bool struct{ v atomic.Bool }

func (v *Bool) Load() bool       { vsched.Point("atomic"); return v.v.Load() }
func (v *Bool) Store(x bool)     { vsched.Point("atomic"); v.v.Store(x) }
func (v *Bool) Swap(x bool) bool { vsched.Point("atomic"); return v.v.Swap(x) }
func (v *Bool) CompareAndSwap(o, n bool) bool {
	vsched.Point("atomic")
	return v.v.CompareAndSwap(o, n)
}

type Pointer[T any] struct{ v atomic.Pointer[T] }

func (v *Pointer[T]) Load() *T     { vsched.Point("atomic"); return v.v.Load() }
func (v *Pointer[T]) Store(x *T)   { vsched.Point("atomic"); v.v.Store(x) }
func (v *Pointer[T]) Swap(x *T) *T { vsched.Point("atomic"); return v.v.Swap(x) }
func (v *Pointer[T]) CompareAndSwap(o, n *T) bool {
	vsched.Point("atomic")
	return v.v.CompareAndSwap(o, n)
}

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer {
	vsched.Point("atomic")
	return atomic.LoadPointer(p)
}
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) {
	vsched.Point("atomic")
	atomic.StorePointer(p, v)
}
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	vsched.Point("atomic")
	return atomic.CompareAndSwapPointer(p, o, n)
}

type Int32 struct{ v atomic.Int32 }

func (v *Int32) Load() int32        { vsched.Point("atomic"); return v.v.Load() }
func (v *Int32) Store(x int32)      { vsched.Point("atomic"); v.v.Store(x) }
func (v *Int32) Swap(x int32) int32 { vsched.Point("atomic"); return v.v.Swap(x) }
func (v *Int32) Add(x int32) int32  { vsched.Point("atomic"); return v.v.Add(x) }
func (v *Int32) CompareAndSwap(o, n int32) bool {
	vsched.Point("atomic")
	return v.v.CompareAndSwap(o, n)
}

func LoadInt32(p *int32) int32          { vsched.Point("atomic"); return atomic.LoadInt32(p) }
func StoreInt32(p *int32, x int32)      { vsched.Point("atomic"); atomic.StoreInt32(p, x) }
func SwapInt32(p *int32, x int32) int32 { vsched.Point("atomic"); return atomic.SwapInt32(p, x) }
func AddInt32(p *int32, x int32) int32  { vsched.Point("atomic"); return atomic.AddInt32(p, x) }
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	vsched.Point("atomic")
	return atomic.CompareAndSwapInt32(p, o, n)
}

type Int64 struct{ v atomic.Int64 }

func (v *Int64) Load() int64        { vsched.Point("atomic"); return v.v.Load() }
func (v *Int64) Store(x int64)      { vsched.Point("atomic"); v.v.Store(x) }
func (v *Int64) Swap(x int64) int64 { vsched.Point("atomic"); return v.v.Swap(x) }
func (v *Int64) Add(x int64) int64  { vsched.Point("atomic"); return v.v.Add(x) }
func (v *Int64) CompareAndSwap(o, n int64) bool {
	vsched.Point("atomic")
	return v.v.CompareAndSwap(o, n)
}

func LoadInt64(p *int64) int64          { vsched.Point("atomic"); return atomic.LoadInt64(p) }
func StoreInt64(p *int64, x int64)      { vsched.Point("atomic"); atomic.StoreInt64(p, x) }
func SwapInt64(p *int64, x int64) int64 { vsched.Point("atomic"); return atomic.SwapInt64(p, x) }
func AddInt64(p *int64, x int64) int64  { vsched.Point("atomic"); return atomic.AddInt64(p, x) }
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	vsched.Point("atomic")
	return atomic.CompareAndSwapInt64(p, o, n)
}

type Uint32 struct{ v atomic.Uint32 }

func (v *Uint32) Load() uint32         { vsched.Point("atomic"); return v.v.Load() }
func (v *Uint32) Store(x uint32)       { vsched.Point("atomic"); v.v.Store(x) }
func (v *Uint32) Swap(x uint32) uint32 { vsched.Point("atomic"); return v.v.Swap(x) }
func (v *Uint32) Add(x uint32) uint32  { vsched.Point("atomic"); return v.v.Add(x) }
func (v *Uint32) CompareAndSwap(o, n uint32) bool {
	vsched.Point("atomic")
	return v.v.CompareAndSwap(o, n)
}

func LoadUint32(p *uint32) uint32           { vsched.Point("atomic"); return atomic.LoadUint32(p) }
func StoreUint32(p *uint32, x uint32)       { vsched.Point("atomic"); atomic.StoreUint32(p, x) }
func SwapUint32(p *uint32, x uint32) uint32 { vsched.Point("atomic"); return atomic.SwapUint32(p, x) }
func AddUint32(p *uint32, x uint32) uint32  { vsched.Point("atomic"); return atomic.AddUint32(p, x) }
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	vsched.Point("atomic")
	return atomic.CompareAndSwapUint32(p, o, n)
}

type Uint64 struct{ v atomic.Uint64 }

func (v *Uint64) Load() uint64         { vsched.Point("atomic"); return v.v.Load() }
func (v *Uint64) Store(x uint64)       { vsched.Point("atomic"); v.v.Store(x) }
func (v *Uint64) Swap(x uint64) uint64 { vsched.Point("atomic"); return v.v.Swap(x) }
func (v *Uint64) Add(x uint64) uint64  { vsched.Point("atomic"); return v.v.Add(x) }
func (v *Uint64) CompareAndSwap(o, n uint64) bool {
	vsched.Point("atomic")
	return v.v.CompareAndSwap(o, n)
}

func LoadUint64(p *uint64) uint64           { vsched.Point("atomic"); return atomic.LoadUint64(p) }
func StoreUint64(p *uint64, x uint64)       { vsched.Point("atomic"); atomic.StoreUint64(p, x) }
func SwapUint64(p *uint64, x uint64) uint64 { vsched.Point("atomic"); return atomic.SwapUint64(p, x) }
func AddUint64(p *uint64, x uint64) uint64  { vsched.Point("atomic"); return atomic.AddUint64(p, x) }
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	vsched.Point("atomic")
	return atomic.CompareAndSwapUint64(p, o, n)
}

type Uintptr struct{ v atomic.Uintptr }

func (v *Uintptr) Load() uintptr          { vsched.Point("atomic"); return v.v.Load() }
func (v *Uintptr) Store(x uintptr)        { vsched.Point("atomic"); v.v.Store(x) }
func (v *Uintptr) Swap(x uintptr) uintptr { vsched.Point("atomic"); return v.v.Swap(x) }
func (v *Uintptr) Add(x uintptr) uintptr  { vsched.Point("atomic"); return v.v.Add(x) }
func (v *Uintptr) CompareAndSwap(o, n uintptr) bool {
	vsched.Point("atomic")
	return v.v.CompareAndSwap(o, n)
}

func LoadUintptr(p *uintptr) uintptr     { vsched.Point("atomic"); return atomic.LoadUintptr(p) }
func StoreUintptr(p *uintptr, x uintptr) { vsched.Point("atomic"); atomic.StoreUintptr(p, x) }
func SwapUintptr(p *uintptr, x uintptr) uintptr {
	vsched.Point("atomic")
	return atomic.SwapUintptr(p, x)
}
func AddUintptr(p *uintptr, x uintptr) uintptr {
	vsched.Point("atomic")
	return atomic.AddUintptr(p, x)
}
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	vsched.Point("atomic")
	return atomic.CompareAndSwapUintptr(p, o, n)
}
