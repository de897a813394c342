// Package atomic stands in for sync/atomic: every operation orders the ones after it on the same address
// after the ones before it, and every one that stores is a scheduling point.
package atomic

import (
	"sync/atomic"
	"unsafe"

	"verifmc/shim"
)

func LoadInt32(p *int32) int32          { shim.AtomicR(p); return atomic.LoadInt32(p) }
func StoreInt32(p *int32, v int32)      { shim.AtomicW(p); atomic.StoreInt32(p, v) }
func SwapInt32(p *int32, v int32) int32 { shim.AtomicW(p); return atomic.SwapInt32(p, v) }
func CompareAndSwapInt32(p *int32, a, b int32) bool {
	shim.AtomicW(p)
	return atomic.CompareAndSwapInt32(p, a, b)
}
func AddInt32(p *int32, d int32) int32  { shim.AtomicW(p); return atomic.AddInt32(p, d) }
func AndInt32(p *int32, m int32) int32  { shim.AtomicW(p); return atomic.AndInt32(p, m) }
func OrInt32(p *int32, m int32) int32   { shim.AtomicW(p); return atomic.OrInt32(p, m) }
func LoadInt64(p *int64) int64          { shim.AtomicR(p); return atomic.LoadInt64(p) }
func StoreInt64(p *int64, v int64)      { shim.AtomicW(p); atomic.StoreInt64(p, v) }
func SwapInt64(p *int64, v int64) int64 { shim.AtomicW(p); return atomic.SwapInt64(p, v) }
func CompareAndSwapInt64(p *int64, a, b int64) bool {
	shim.AtomicW(p)
	return atomic.CompareAndSwapInt64(p, a, b)
}
func AddInt64(p *int64, d int64) int64      { shim.AtomicW(p); return atomic.AddInt64(p, d) }
func AndInt64(p *int64, m int64) int64      { shim.AtomicW(p); return atomic.AndInt64(p, m) }
func OrInt64(p *int64, m int64) int64       { shim.AtomicW(p); return atomic.OrInt64(p, m) }
func LoadUint32(p *uint32) uint32           { shim.AtomicR(p); return atomic.LoadUint32(p) }
func StoreUint32(p *uint32, v uint32)       { shim.AtomicW(p); atomic.StoreUint32(p, v) }
func SwapUint32(p *uint32, v uint32) uint32 { shim.AtomicW(p); return atomic.SwapUint32(p, v) }
func CompareAndSwapUint32(p *uint32, a, b uint32) bool {
	shim.AtomicW(p)
	return atomic.CompareAndSwapUint32(p, a, b)
}
func AddUint32(p *uint32, d uint32) uint32  { shim.AtomicW(p); return atomic.AddUint32(p, d) }
func AndUint32(p *uint32, m uint32) uint32  { shim.AtomicW(p); return atomic.AndUint32(p, m) }
func OrUint32(p *uint32, m uint32) uint32   { shim.AtomicW(p); return atomic.OrUint32(p, m) }
func LoadUint64(p *uint64) uint64           { shim.AtomicR(p); return atomic.LoadUint64(p) }
func StoreUint64(p *uint64, v uint64)       { shim.AtomicW(p); atomic.StoreUint64(p, v) }
func SwapUint64(p *uint64, v uint64) uint64 { shim.AtomicW(p); return atomic.SwapUint64(p, v) }
func CompareAndSwapUint64(p *uint64, a, b uint64) bool {
	shim.AtomicW(p)
	return atomic.CompareAndSwapUint64(p, a, b)
}
func AddUint64(p *uint64, d uint64) uint64      { shim.AtomicW(p); return atomic.AddUint64(p, d) }
func AndUint64(p *uint64, m uint64) uint64      { shim.AtomicW(p); return atomic.AndUint64(p, m) }
func OrUint64(p *uint64, m uint64) uint64       { shim.AtomicW(p); return atomic.OrUint64(p, m) }
func LoadUintptr(p *uintptr) uintptr            { shim.AtomicR(p); return atomic.LoadUintptr(p) }
func StoreUintptr(p *uintptr, v uintptr)        { shim.AtomicW(p); atomic.StoreUintptr(p, v) }
func SwapUintptr(p *uintptr, v uintptr) uintptr { shim.AtomicW(p); return atomic.SwapUintptr(p, v) }
func CompareAndSwapUintptr(p *uintptr, a, b uintptr) bool {
	shim.AtomicW(p)
	return atomic.CompareAndSwapUintptr(p, a, b)
}
func AddUintptr(p *uintptr, d uintptr) uintptr         { shim.AtomicW(p); return atomic.AddUintptr(p, d) }
func AndUintptr(p *uintptr, m uintptr) uintptr         { shim.AtomicW(p); return atomic.AndUintptr(p, m) }
func OrUintptr(p *uintptr, m uintptr) uintptr          { shim.AtomicW(p); return atomic.OrUintptr(p, m) }
func LoadPointer(p *unsafe.Pointer) unsafe.Pointer     { shim.AtomicR(p); return atomic.LoadPointer(p) }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { shim.AtomicW(p); atomic.StorePointer(p, v) }
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	shim.AtomicW(p)
	return atomic.SwapPointer(p, v)
}
func CompareAndSwapPointer(p *unsafe.Pointer, a, b unsafe.Pointer) bool {
	shim.AtomicW(p)
	return atomic.CompareAndSwapPointer(p, a, b)
}

type Int32 struct{ v atomic.Int32 }

func (x *Int32) Load() int32                    { shim.AtomicR(x); return x.v.Load() }
func (x *Int32) Store(v int32)                  { shim.AtomicW(x); x.v.Store(v) }
func (x *Int32) Swap(v int32) int32             { shim.AtomicW(x); return x.v.Swap(v) }
func (x *Int32) CompareAndSwap(a, b int32) bool { shim.AtomicW(x); return x.v.CompareAndSwap(a, b) }
func (x *Int32) Add(d int32) int32              { shim.AtomicW(x); return x.v.Add(d) }
func (x *Int32) And(m int32) int32              { shim.AtomicW(x); return x.v.And(m) }
func (x *Int32) Or(m int32) int32               { shim.AtomicW(x); return x.v.Or(m) }

type Int64 struct{ v atomic.Int64 }

func (x *Int64) Load() int64                    { shim.AtomicR(x); return x.v.Load() }
func (x *Int64) Store(v int64)                  { shim.AtomicW(x); x.v.Store(v) }
func (x *Int64) Swap(v int64) int64             { shim.AtomicW(x); return x.v.Swap(v) }
func (x *Int64) CompareAndSwap(a, b int64) bool { shim.AtomicW(x); return x.v.CompareAndSwap(a, b) }
func (x *Int64) Add(d int64) int64              { shim.AtomicW(x); return x.v.Add(d) }
func (x *Int64) And(m int64) int64              { shim.AtomicW(x); return x.v.And(m) }
func (x *Int64) Or(m int64) int64               { shim.AtomicW(x); return x.v.Or(m) }

type Uint32 struct{ v atomic.Uint32 }

func (x *Uint32) Load() uint32                    { shim.AtomicR(x); return x.v.Load() }
func (x *Uint32) Store(v uint32)                  { shim.AtomicW(x); x.v.Store(v) }
func (x *Uint32) Swap(v uint32) uint32            { shim.AtomicW(x); return x.v.Swap(v) }
func (x *Uint32) CompareAndSwap(a, b uint32) bool { shim.AtomicW(x); return x.v.CompareAndSwap(a, b) }
func (x *Uint32) Add(d uint32) uint32             { shim.AtomicW(x); return x.v.Add(d) }
func (x *Uint32) And(m uint32) uint32             { shim.AtomicW(x); return x.v.And(m) }
func (x *Uint32) Or(m uint32) uint32              { shim.AtomicW(x); return x.v.Or(m) }

type Uint64 struct{ v atomic.Uint64 }

func (x *Uint64) Load() uint64                    { shim.AtomicR(x); return x.v.Load() }
func (x *Uint64) Store(v uint64)                  { shim.AtomicW(x); x.v.Store(v) }
func (x *Uint64) Swap(v uint64) uint64            { shim.AtomicW(x); return x.v.Swap(v) }
func (x *Uint64) CompareAndSwap(a, b uint64) bool { shim.AtomicW(x); return x.v.CompareAndSwap(a, b) }
func (x *Uint64) Add(d uint64) uint64             { shim.AtomicW(x); return x.v.Add(d) }
func (x *Uint64) And(m uint64) uint64             { shim.AtomicW(x); return x.v.And(m) }
func (x *Uint64) Or(m uint64) uint64              { shim.AtomicW(x); return x.v.Or(m) }

type Uintptr struct{ v atomic.Uintptr }

func (x *Uintptr) Load() uintptr                    { shim.AtomicR(x); return x.v.Load() }
func (x *Uintptr) Store(v uintptr)                  { shim.AtomicW(x); x.v.Store(v) }
func (x *Uintptr) Swap(v uintptr) uintptr           { shim.AtomicW(x); return x.v.Swap(v) }
func (x *Uintptr) CompareAndSwap(a, b uintptr) bool { shim.AtomicW(x); return x.v.CompareAndSwap(a, b) }
func (x *Uintptr) Add(d uintptr) uintptr            { shim.AtomicW(x); return x.v.Add(d) }
func (x *Uintptr) And(m uintptr) uintptr            { shim.AtomicW(x); return x.v.And(m) }
func (x *Uintptr) Or(m uintptr) uintptr             { shim.AtomicW(x); return x.v.Or(m) }

type Bool struct{ v atomic.Bool }

func (x *Bool) Load() bool                    { shim.AtomicR(x); return x.v.Load() }
func (x *Bool) Store(v bool)                  { shim.AtomicW(x); x.v.Store(v) }
func (x *Bool) Swap(v bool) bool              { shim.AtomicW(x); return x.v.Swap(v) }
func (x *Bool) CompareAndSwap(a, b bool) bool { shim.AtomicW(x); return x.v.CompareAndSwap(a, b) }

type Value struct{ v atomic.Value }

func (x *Value) Load() any                    { shim.AtomicR(x); return x.v.Load() }
func (x *Value) Store(v any)                  { shim.AtomicW(x); x.v.Store(v) }
func (x *Value) Swap(v any) any               { shim.AtomicW(x); return x.v.Swap(v) }
func (x *Value) CompareAndSwap(a, b any) bool { shim.AtomicW(x); return x.v.CompareAndSwap(a, b) }

type Pointer[T any] struct{ v atomic.Pointer[T] }

func (x *Pointer[T]) Load() *T                    { shim.AtomicR(x); return x.v.Load() }
func (x *Pointer[T]) Store(v *T)                  { shim.AtomicW(x); x.v.Store(v) }
func (x *Pointer[T]) Swap(v *T) *T                { shim.AtomicW(x); return x.v.Swap(v) }
func (x *Pointer[T]) CompareAndSwap(a, b *T) bool { shim.AtomicW(x); return x.v.CompareAndSwap(a, b) }
