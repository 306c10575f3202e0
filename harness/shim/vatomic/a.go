// Package atomic stands in for sync/atomic: every operation is a scheduling point
// followed by the real operation.
package atomic

import (
	"sync/atomic"
	"unsafe"

	. "skipverif/vsched"
)

type Value = atomic.Value

func LoadInt32(addr *int32) int32          { Point(KLoad); return atomic.LoadInt32(addr) }
func StoreInt32(addr *int32, v int32)      { Point(KStore); atomic.StoreInt32(addr, v) }
func SwapInt32(addr *int32, v int32) int32 { Point(KRMW); return atomic.SwapInt32(addr, v) }
func CompareAndSwapInt32(addr *int32, o, n int32) bool {
	Point(KRMW)
	return atomic.CompareAndSwapInt32(addr, o, n)
}
func AddInt32(addr *int32, d int32) int32 { Point(KRMW); return atomic.AddInt32(addr, d) }
func AndInt32(addr *int32, m int32) int32 { Point(KRMW); return atomic.AndInt32(addr, m) }
func OrInt32(addr *int32, m int32) int32  { Point(KRMW); return atomic.OrInt32(addr, m) }

type Int32 struct{ v atomic.Int32 }

func (x *Int32) Load() int32                    { Point(KLoad); return x.v.Load() }
func (x *Int32) Store(v int32)                  { Point(KStore); x.v.Store(v) }
func (x *Int32) Swap(v int32) int32             { Point(KRMW); return x.v.Swap(v) }
func (x *Int32) CompareAndSwap(o, n int32) bool { Point(KRMW); return x.v.CompareAndSwap(o, n) }
func (x *Int32) Add(d int32) int32              { Point(KRMW); return x.v.Add(d) }
func (x *Int32) And(m int32) int32              { Point(KRMW); return x.v.And(m) }
func (x *Int32) Or(m int32) int32               { Point(KRMW); return x.v.Or(m) }

func LoadInt64(addr *int64) int64          { Point(KLoad); return atomic.LoadInt64(addr) }
func StoreInt64(addr *int64, v int64)      { Point(KStore); atomic.StoreInt64(addr, v) }
func SwapInt64(addr *int64, v int64) int64 { Point(KRMW); return atomic.SwapInt64(addr, v) }
func CompareAndSwapInt64(addr *int64, o, n int64) bool {
	Point(KRMW)
	return atomic.CompareAndSwapInt64(addr, o, n)
}
func AddInt64(addr *int64, d int64) int64 { Point(KRMW); return atomic.AddInt64(addr, d) }
func AndInt64(addr *int64, m int64) int64 { Point(KRMW); return atomic.AndInt64(addr, m) }
func OrInt64(addr *int64, m int64) int64  { Point(KRMW); return atomic.OrInt64(addr, m) }

type Int64 struct{ v atomic.Int64 }

func (x *Int64) Load() int64                    { Point(KLoad); return x.v.Load() }
func (x *Int64) Store(v int64)                  { Point(KStore); x.v.Store(v) }
func (x *Int64) Swap(v int64) int64             { Point(KRMW); return x.v.Swap(v) }
func (x *Int64) CompareAndSwap(o, n int64) bool { Point(KRMW); return x.v.CompareAndSwap(o, n) }
func (x *Int64) Add(d int64) int64              { Point(KRMW); return x.v.Add(d) }
func (x *Int64) And(m int64) int64              { Point(KRMW); return x.v.And(m) }
func (x *Int64) Or(m int64) int64               { Point(KRMW); return x.v.Or(m) }

func LoadUint32(addr *uint32) uint32           { Point(KLoad); return atomic.LoadUint32(addr) }
func StoreUint32(addr *uint32, v uint32)       { Point(KStore); atomic.StoreUint32(addr, v) }
func SwapUint32(addr *uint32, v uint32) uint32 { Point(KRMW); return atomic.SwapUint32(addr, v) }
func CompareAndSwapUint32(addr *uint32, o, n uint32) bool {
	Point(KRMW)
	return atomic.CompareAndSwapUint32(addr, o, n)
}
func AddUint32(addr *uint32, d uint32) uint32 { Point(KRMW); return atomic.AddUint32(addr, d) }
func AndUint32(addr *uint32, m uint32) uint32 { Point(KRMW); return atomic.AndUint32(addr, m) }
func OrUint32(addr *uint32, m uint32) uint32  { Point(KRMW); return atomic.OrUint32(addr, m) }

type Uint32 struct{ v atomic.Uint32 }

func (x *Uint32) Load() uint32                    { Point(KLoad); return x.v.Load() }
func (x *Uint32) Store(v uint32)                  { Point(KStore); x.v.Store(v) }
func (x *Uint32) Swap(v uint32) uint32            { Point(KRMW); return x.v.Swap(v) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool { Point(KRMW); return x.v.CompareAndSwap(o, n) }
func (x *Uint32) Add(d uint32) uint32             { Point(KRMW); return x.v.Add(d) }
func (x *Uint32) And(m uint32) uint32             { Point(KRMW); return x.v.And(m) }
func (x *Uint32) Or(m uint32) uint32              { Point(KRMW); return x.v.Or(m) }

func LoadUint64(addr *uint64) uint64           { Point(KLoad); return atomic.LoadUint64(addr) }
func StoreUint64(addr *uint64, v uint64)       { Point(KStore); atomic.StoreUint64(addr, v) }
func SwapUint64(addr *uint64, v uint64) uint64 { Point(KRMW); return atomic.SwapUint64(addr, v) }
func CompareAndSwapUint64(addr *uint64, o, n uint64) bool {
	Point(KRMW)
	return atomic.CompareAndSwapUint64(addr, o, n)
}
func AddUint64(addr *uint64, d uint64) uint64 { Point(KRMW); return atomic.AddUint64(addr, d) }
func AndUint64(addr *uint64, m uint64) uint64 { Point(KRMW); return atomic.AndUint64(addr, m) }
func OrUint64(addr *uint64, m uint64) uint64  { Point(KRMW); return atomic.OrUint64(addr, m) }

type Uint64 struct{ v atomic.Uint64 }

func (x *Uint64) Load() uint64                    { Point(KLoad); return x.v.Load() }
func (x *Uint64) Store(v uint64)                  { Point(KStore); x.v.Store(v) }
func (x *Uint64) Swap(v uint64) uint64            { Point(KRMW); return x.v.Swap(v) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool { Point(KRMW); return x.v.CompareAndSwap(o, n) }
func (x *Uint64) Add(d uint64) uint64             { Point(KRMW); return x.v.Add(d) }
func (x *Uint64) And(m uint64) uint64             { Point(KRMW); return x.v.And(m) }
func (x *Uint64) Or(m uint64) uint64              { Point(KRMW); return x.v.Or(m) }

func LoadUintptr(addr *uintptr) uintptr            { Point(KLoad); return atomic.LoadUintptr(addr) }
func StoreUintptr(addr *uintptr, v uintptr)        { Point(KStore); atomic.StoreUintptr(addr, v) }
func SwapUintptr(addr *uintptr, v uintptr) uintptr { Point(KRMW); return atomic.SwapUintptr(addr, v) }
func CompareAndSwapUintptr(addr *uintptr, o, n uintptr) bool {
	Point(KRMW)
	return atomic.CompareAndSwapUintptr(addr, o, n)
}
func AddUintptr(addr *uintptr, d uintptr) uintptr { Point(KRMW); return atomic.AddUintptr(addr, d) }
func AndUintptr(addr *uintptr, m uintptr) uintptr { Point(KRMW); return atomic.AndUintptr(addr, m) }
func OrUintptr(addr *uintptr, m uintptr) uintptr  { Point(KRMW); return atomic.OrUintptr(addr, m) }

type Uintptr struct{ v atomic.Uintptr }

func (x *Uintptr) Load() uintptr                    { Point(KLoad); return x.v.Load() }
func (x *Uintptr) Store(v uintptr)                  { Point(KStore); x.v.Store(v) }
func (x *Uintptr) Swap(v uintptr) uintptr           { Point(KRMW); return x.v.Swap(v) }
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool { Point(KRMW); return x.v.CompareAndSwap(o, n) }
func (x *Uintptr) Add(d uintptr) uintptr            { Point(KRMW); return x.v.Add(d) }
func (x *Uintptr) And(m uintptr) uintptr            { Point(KRMW); return x.v.And(m) }
func (x *Uintptr) Or(m uintptr) uintptr             { Point(KRMW); return x.v.Or(m) }

func LoadPointer(addr *unsafe.Pointer) unsafe.Pointer { Point(KLoad); return atomic.LoadPointer(addr) }
func StorePointer(addr *unsafe.Pointer, v unsafe.Pointer) {
	Point(KStore)
	atomic.StorePointer(addr, v)
}
func SwapPointer(addr *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	Point(KRMW)
	return atomic.SwapPointer(addr, v)
}
func CompareAndSwapPointer(addr *unsafe.Pointer, o, n unsafe.Pointer) bool {
	Point(KRMW)
	return atomic.CompareAndSwapPointer(addr, o, n)
}

type Bool struct{ v atomic.Bool }

func (x *Bool) Load() bool                    { Point(KLoad); return x.v.Load() }
func (x *Bool) Store(v bool)                  { Point(KStore); x.v.Store(v) }
func (x *Bool) Swap(v bool) bool              { Point(KRMW); return x.v.Swap(v) }
func (x *Bool) CompareAndSwap(o, n bool) bool { Point(KRMW); return x.v.CompareAndSwap(o, n) }

type Pointer[T any] struct{ v atomic.Pointer[T] }

func (x *Pointer[T]) Load() *T                    { Point(KLoad); return x.v.Load() }
func (x *Pointer[T]) Store(v *T)                  { Point(KStore); x.v.Store(v) }
func (x *Pointer[T]) Swap(v *T) *T                { Point(KRMW); return x.v.Swap(v) }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool { Point(KRMW); return x.v.CompareAndSwap(o, n) }
