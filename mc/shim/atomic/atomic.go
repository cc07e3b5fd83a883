// Package atomic is the standard sync/atomic with a scheduling point before
// each operation.
package atomic

import (
	std "sync/atomic"
	"unsafe"

	"verifmc/sched"
)

func pt() { sched.Point("atomic") }

type Bool struct{ v std.Bool }

func (x *Bool) Load() bool                    { pt(); return x.v.Load() }
func (x *Bool) Store(n bool)                  { pt(); x.v.Store(n) }
func (x *Bool) Swap(n bool) bool              { pt(); return x.v.Swap(n) }
func (x *Bool) CompareAndSwap(o, n bool) bool { pt(); return x.v.CompareAndSwap(o, n) }

type Pointer[T any] struct{ v std.Pointer[T] }

func (x *Pointer[T]) Load() *T                    { pt(); return x.v.Load() }
func (x *Pointer[T]) Store(n *T)                  { pt(); x.v.Store(n) }
func (x *Pointer[T]) Swap(n *T) *T                { pt(); return x.v.Swap(n) }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool { pt(); return x.v.CompareAndSwap(o, n) }

type Value struct{ v std.Value }

func (x *Value) Load() any                    { pt(); return x.v.Load() }
func (x *Value) Store(n any)                  { pt(); x.v.Store(n) }
func (x *Value) Swap(n any) any               { pt(); return x.v.Swap(n) }
func (x *Value) CompareAndSwap(o, n any) bool { pt(); return x.v.CompareAndSwap(o, n) }

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer     { pt(); return std.LoadPointer(p) }
func StorePointer(p *unsafe.Pointer, n unsafe.Pointer) { pt(); std.StorePointer(p, n) }
func SwapPointer(p *unsafe.Pointer, n unsafe.Pointer) unsafe.Pointer {
	pt()
	return std.SwapPointer(p, n)
}
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	pt()
	return std.CompareAndSwapPointer(p, o, n)
}

type Int32 struct{ v std.Int32 }

func (x *Int32) Load() int32                    { pt(); return x.v.Load() }
func (x *Int32) Store(n int32)                  { pt(); x.v.Store(n) }
func (x *Int32) Add(n int32) int32              { pt(); return x.v.Add(n) }
func (x *Int32) And(n int32) int32              { pt(); return x.v.And(n) }
func (x *Int32) Or(n int32) int32               { pt(); return x.v.Or(n) }
func (x *Int32) Swap(n int32) int32             { pt(); return x.v.Swap(n) }
func (x *Int32) CompareAndSwap(o, n int32) bool { pt(); return x.v.CompareAndSwap(o, n) }

func LoadInt32(p *int32) int32                      { pt(); return std.LoadInt32(p) }
func StoreInt32(p *int32, n int32)                  { pt(); std.StoreInt32(p, n) }
func AddInt32(p *int32, n int32) int32              { pt(); return std.AddInt32(p, n) }
func AndInt32(p *int32, n int32) int32              { pt(); return std.AndInt32(p, n) }
func OrInt32(p *int32, n int32) int32               { pt(); return std.OrInt32(p, n) }
func SwapInt32(p *int32, n int32) int32             { pt(); return std.SwapInt32(p, n) }
func CompareAndSwapInt32(p *int32, o, n int32) bool { pt(); return std.CompareAndSwapInt32(p, o, n) }

type Int64 struct{ v std.Int64 }

func (x *Int64) Load() int64                    { pt(); return x.v.Load() }
func (x *Int64) Store(n int64)                  { pt(); x.v.Store(n) }
func (x *Int64) Add(n int64) int64              { pt(); return x.v.Add(n) }
func (x *Int64) And(n int64) int64              { pt(); return x.v.And(n) }
func (x *Int64) Or(n int64) int64               { pt(); return x.v.Or(n) }
func (x *Int64) Swap(n int64) int64             { pt(); return x.v.Swap(n) }
func (x *Int64) CompareAndSwap(o, n int64) bool { pt(); return x.v.CompareAndSwap(o, n) }

func LoadInt64(p *int64) int64                      { pt(); return std.LoadInt64(p) }
func StoreInt64(p *int64, n int64)                  { pt(); std.StoreInt64(p, n) }
func AddInt64(p *int64, n int64) int64              { pt(); return std.AddInt64(p, n) }
func AndInt64(p *int64, n int64) int64              { pt(); return std.AndInt64(p, n) }
func OrInt64(p *int64, n int64) int64               { pt(); return std.OrInt64(p, n) }
func SwapInt64(p *int64, n int64) int64             { pt(); return std.SwapInt64(p, n) }
func CompareAndSwapInt64(p *int64, o, n int64) bool { pt(); return std.CompareAndSwapInt64(p, o, n) }

type Uint32 struct{ v std.Uint32 }

func (x *Uint32) Load() uint32                    { pt(); return x.v.Load() }
func (x *Uint32) Store(n uint32)                  { pt(); x.v.Store(n) }
func (x *Uint32) Add(n uint32) uint32             { pt(); return x.v.Add(n) }
func (x *Uint32) And(n uint32) uint32             { pt(); return x.v.And(n) }
func (x *Uint32) Or(n uint32) uint32              { pt(); return x.v.Or(n) }
func (x *Uint32) Swap(n uint32) uint32            { pt(); return x.v.Swap(n) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool { pt(); return x.v.CompareAndSwap(o, n) }

func LoadUint32(p *uint32) uint32           { pt(); return std.LoadUint32(p) }
func StoreUint32(p *uint32, n uint32)       { pt(); std.StoreUint32(p, n) }
func AddUint32(p *uint32, n uint32) uint32  { pt(); return std.AddUint32(p, n) }
func AndUint32(p *uint32, n uint32) uint32  { pt(); return std.AndUint32(p, n) }
func OrUint32(p *uint32, n uint32) uint32   { pt(); return std.OrUint32(p, n) }
func SwapUint32(p *uint32, n uint32) uint32 { pt(); return std.SwapUint32(p, n) }
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	pt()
	return std.CompareAndSwapUint32(p, o, n)
}

type Uint64 struct{ v std.Uint64 }

func (x *Uint64) Load() uint64                    { pt(); return x.v.Load() }
func (x *Uint64) Store(n uint64)                  { pt(); x.v.Store(n) }
func (x *Uint64) Add(n uint64) uint64             { pt(); return x.v.Add(n) }
func (x *Uint64) And(n uint64) uint64             { pt(); return x.v.And(n) }
func (x *Uint64) Or(n uint64) uint64              { pt(); return x.v.Or(n) }
func (x *Uint64) Swap(n uint64) uint64            { pt(); return x.v.Swap(n) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool { pt(); return x.v.CompareAndSwap(o, n) }

func LoadUint64(p *uint64) uint64           { pt(); return std.LoadUint64(p) }
func StoreUint64(p *uint64, n uint64)       { pt(); std.StoreUint64(p, n) }
func AddUint64(p *uint64, n uint64) uint64  { pt(); return std.AddUint64(p, n) }
func AndUint64(p *uint64, n uint64) uint64  { pt(); return std.AndUint64(p, n) }
func OrUint64(p *uint64, n uint64) uint64   { pt(); return std.OrUint64(p, n) }
func SwapUint64(p *uint64, n uint64) uint64 { pt(); return std.SwapUint64(p, n) }
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	pt()
	return std.CompareAndSwapUint64(p, o, n)
}

type Uintptr struct{ v std.Uintptr }

func (x *Uintptr) Load() uintptr                    { pt(); return x.v.Load() }
func (x *Uintptr) Store(n uintptr)                  { pt(); x.v.Store(n) }
func (x *Uintptr) Add(n uintptr) uintptr            { pt(); return x.v.Add(n) }
func (x *Uintptr) And(n uintptr) uintptr            { pt(); return x.v.And(n) }
func (x *Uintptr) Or(n uintptr) uintptr             { pt(); return x.v.Or(n) }
func (x *Uintptr) Swap(n uintptr) uintptr           { pt(); return x.v.Swap(n) }
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool { pt(); return x.v.CompareAndSwap(o, n) }

func LoadUintptr(p *uintptr) uintptr            { pt(); return std.LoadUintptr(p) }
func StoreUintptr(p *uintptr, n uintptr)        { pt(); std.StoreUintptr(p, n) }
func AddUintptr(p *uintptr, n uintptr) uintptr  { pt(); return std.AddUintptr(p, n) }
func AndUintptr(p *uintptr, n uintptr) uintptr  { pt(); return std.AndUintptr(p, n) }
func OrUintptr(p *uintptr, n uintptr) uintptr   { pt(); return std.OrUintptr(p, n) }
func SwapUintptr(p *uintptr, n uintptr) uintptr { pt(); return std.SwapUintptr(p, n) }
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	pt()
	return std.CompareAndSwapUintptr(p, o, n)
}
