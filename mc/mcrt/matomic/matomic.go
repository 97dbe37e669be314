// Package atomic stands in for package sync/atomic in instrumented code.
package atomic

import (
	"sync/atomic"
	"unsafe"

	"birchmc/mcrt"
)

func pre() { mcrt.Pre("atomic") }

type Value struct{ v atomic.Value }

func (x *Value) Load() any                        { pre(); return x.v.Load() }
func (x *Value) Store(v any)                      { pre(); x.v.Store(v) }
func (x *Value) Swap(v any) any                   { pre(); return x.v.Swap(v) }
func (x *Value) CompareAndSwap(old, new any) bool { pre(); return x.v.CompareAndSwap(old, new) }

type Pointer[T any] struct{ v atomic.Pointer[T] }

func (x *Pointer[T]) Load() *T                        { pre(); return x.v.Load() }
func (x *Pointer[T]) Store(v *T)                      { pre(); x.v.Store(v) }
func (x *Pointer[T]) Swap(v *T) *T                    { pre(); return x.v.Swap(v) }
func (x *Pointer[T]) CompareAndSwap(old, new *T) bool { pre(); return x.v.CompareAndSwap(old, new) }

type Bool struct{ v atomic.Bool }

func (x *Bool) Load() bool                        { pre(); return x.v.Load() }
func (x *Bool) Store(v bool)                      { pre(); x.v.Store(v) }
func (x *Bool) Swap(v bool) bool                  { pre(); return x.v.Swap(v) }
func (x *Bool) CompareAndSwap(old, new bool) bool { pre(); return x.v.CompareAndSwap(old, new) }

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer     { pre(); return atomic.LoadPointer(p) }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { pre(); atomic.StorePointer(p, v) }
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	pre()
	return atomic.SwapPointer(p, v)
}
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	pre()
	return atomic.CompareAndSwapPointer(p, o, n)
}

type Int32 struct{ v atomic.Int32 }

func (x *Int32) Load() int32                    { pre(); return x.v.Load() }
func (x *Int32) Store(v int32)                  { pre(); x.v.Store(v) }
func (x *Int32) Swap(v int32) int32             { pre(); return x.v.Swap(v) }
func (x *Int32) CompareAndSwap(o, n int32) bool { pre(); return x.v.CompareAndSwap(o, n) }
func (x *Int32) Add(v int32) int32              { pre(); return x.v.Add(v) }
func (x *Int32) And(v int32) int32              { pre(); return x.v.And(v) }
func (x *Int32) Or(v int32) int32               { pre(); return x.v.Or(v) }

func LoadInt32(p *int32) int32          { pre(); return atomic.LoadInt32(p) }
func StoreInt32(p *int32, v int32)      { pre(); atomic.StoreInt32(p, v) }
func SwapInt32(p *int32, v int32) int32 { pre(); return atomic.SwapInt32(p, v) }
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	pre()
	return atomic.CompareAndSwapInt32(p, o, n)
}
func AddInt32(p *int32, v int32) int32 { pre(); return atomic.AddInt32(p, v) }
func AndInt32(p *int32, v int32) int32 { pre(); return atomic.AndInt32(p, v) }
func OrInt32(p *int32, v int32) int32  { pre(); return atomic.OrInt32(p, v) }

type Int64 struct{ v atomic.Int64 }

func (x *Int64) Load() int64                    { pre(); return x.v.Load() }
func (x *Int64) Store(v int64)                  { pre(); x.v.Store(v) }
func (x *Int64) Swap(v int64) int64             { pre(); return x.v.Swap(v) }
func (x *Int64) CompareAndSwap(o, n int64) bool { pre(); return x.v.CompareAndSwap(o, n) }
func (x *Int64) Add(v int64) int64              { pre(); return x.v.Add(v) }
func (x *Int64) And(v int64) int64              { pre(); return x.v.And(v) }
func (x *Int64) Or(v int64) int64               { pre(); return x.v.Or(v) }

func LoadInt64(p *int64) int64          { pre(); return atomic.LoadInt64(p) }
func StoreInt64(p *int64, v int64)      { pre(); atomic.StoreInt64(p, v) }
func SwapInt64(p *int64, v int64) int64 { pre(); return atomic.SwapInt64(p, v) }
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	pre()
	return atomic.CompareAndSwapInt64(p, o, n)
}
func AddInt64(p *int64, v int64) int64 { pre(); return atomic.AddInt64(p, v) }
func AndInt64(p *int64, v int64) int64 { pre(); return atomic.AndInt64(p, v) }
func OrInt64(p *int64, v int64) int64  { pre(); return atomic.OrInt64(p, v) }

type Uint32 struct{ v atomic.Uint32 }

func (x *Uint32) Load() uint32                    { pre(); return x.v.Load() }
func (x *Uint32) Store(v uint32)                  { pre(); x.v.Store(v) }
func (x *Uint32) Swap(v uint32) uint32            { pre(); return x.v.Swap(v) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool { pre(); return x.v.CompareAndSwap(o, n) }
func (x *Uint32) Add(v uint32) uint32             { pre(); return x.v.Add(v) }
func (x *Uint32) And(v uint32) uint32             { pre(); return x.v.And(v) }
func (x *Uint32) Or(v uint32) uint32              { pre(); return x.v.Or(v) }

func LoadUint32(p *uint32) uint32           { pre(); return atomic.LoadUint32(p) }
func StoreUint32(p *uint32, v uint32)       { pre(); atomic.StoreUint32(p, v) }
func SwapUint32(p *uint32, v uint32) uint32 { pre(); return atomic.SwapUint32(p, v) }
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	pre()
	return atomic.CompareAndSwapUint32(p, o, n)
}
func AddUint32(p *uint32, v uint32) uint32 { pre(); return atomic.AddUint32(p, v) }
func AndUint32(p *uint32, v uint32) uint32 { pre(); return atomic.AndUint32(p, v) }
func OrUint32(p *uint32, v uint32) uint32  { pre(); return atomic.OrUint32(p, v) }

type Uint64 struct{ v atomic.Uint64 }

func (x *Uint64) Load() uint64                    { pre(); return x.v.Load() }
func (x *Uint64) Store(v uint64)                  { pre(); x.v.Store(v) }
func (x *Uint64) Swap(v uint64) uint64            { pre(); return x.v.Swap(v) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool { pre(); return x.v.CompareAndSwap(o, n) }
func (x *Uint64) Add(v uint64) uint64             { pre(); return x.v.Add(v) }
func (x *Uint64) And(v uint64) uint64             { pre(); return x.v.And(v) }
func (x *Uint64) Or(v uint64) uint64              { pre(); return x.v.Or(v) }

func LoadUint64(p *uint64) uint64           { pre(); return atomic.LoadUint64(p) }
func StoreUint64(p *uint64, v uint64)       { pre(); atomic.StoreUint64(p, v) }
func SwapUint64(p *uint64, v uint64) uint64 { pre(); return atomic.SwapUint64(p, v) }
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	pre()
	return atomic.CompareAndSwapUint64(p, o, n)
}
func AddUint64(p *uint64, v uint64) uint64 { pre(); return atomic.AddUint64(p, v) }
func AndUint64(p *uint64, v uint64) uint64 { pre(); return atomic.AndUint64(p, v) }
func OrUint64(p *uint64, v uint64) uint64  { pre(); return atomic.OrUint64(p, v) }

type Uintptr struct{ v atomic.Uintptr }

func (x *Uintptr) Load() uintptr                    { pre(); return x.v.Load() }
func (x *Uintptr) Store(v uintptr)                  { pre(); x.v.Store(v) }
func (x *Uintptr) Swap(v uintptr) uintptr           { pre(); return x.v.Swap(v) }
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool { pre(); return x.v.CompareAndSwap(o, n) }
func (x *Uintptr) Add(v uintptr) uintptr            { pre(); return x.v.Add(v) }
func (x *Uintptr) And(v uintptr) uintptr            { pre(); return x.v.And(v) }
func (x *Uintptr) Or(v uintptr) uintptr             { pre(); return x.v.Or(v) }

func LoadUintptr(p *uintptr) uintptr            { pre(); return atomic.LoadUintptr(p) }
func StoreUintptr(p *uintptr, v uintptr)        { pre(); atomic.StoreUintptr(p, v) }
func SwapUintptr(p *uintptr, v uintptr) uintptr { pre(); return atomic.SwapUintptr(p, v) }
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	pre()
	return atomic.CompareAndSwapUintptr(p, o, n)
}
func AddUintptr(p *uintptr, v uintptr) uintptr { pre(); return atomic.AddUintptr(p, v) }
func AndUintptr(p *uintptr, v uintptr) uintptr { pre(); return atomic.AndUintptr(p, v) }
func OrUintptr(p *uintptr, v uintptr) uintptr  { pre(); return atomic.OrUintptr(p, v) }
