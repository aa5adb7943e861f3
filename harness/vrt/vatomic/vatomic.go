// Package vatomic replaces sync/atomic in instrumented packages.
package vatomic

import (
	"sync/atomic"
	"unsafe"

	"ckubemc/vrt"
)

type Int32 struct{ v atomic.Int32 }

func (x *Int32) Load() int32                    { vrt.Point(); return x.v.Load() }
func (x *Int32) Store(n int32)                  { vrt.Point(); x.v.Store(n) }
func (x *Int32) Add(n int32) int32              { vrt.Point(); return x.v.Add(n) }
func (x *Int32) Swap(n int32) int32             { vrt.Point(); return x.v.Swap(n) }
func (x *Int32) CompareAndSwap(a, b int32) bool { vrt.Point(); return x.v.CompareAndSwap(a, b) }

func LoadInt32(p *int32) int32          { vrt.Point(); return atomic.LoadInt32(p) }
func StoreInt32(p *int32, n int32)      { vrt.Point(); atomic.StoreInt32(p, n) }
func AddInt32(p *int32, n int32) int32  { vrt.Point(); return atomic.AddInt32(p, n) }
func SwapInt32(p *int32, n int32) int32 { vrt.Point(); return atomic.SwapInt32(p, n) }
func CompareAndSwapInt32(p *int32, a, b int32) bool {
	vrt.Point()
	return atomic.CompareAndSwapInt32(p, a, b)
}

type Int64 struct{ v atomic.Int64 }

func (x *Int64) Load() int64                    { vrt.Point(); return x.v.Load() }
func (x *Int64) Store(n int64)                  { vrt.Point(); x.v.Store(n) }
func (x *Int64) Add(n int64) int64              { vrt.Point(); return x.v.Add(n) }
func (x *Int64) Swap(n int64) int64             { vrt.Point(); return x.v.Swap(n) }
func (x *Int64) CompareAndSwap(a, b int64) bool { vrt.Point(); return x.v.CompareAndSwap(a, b) }

func LoadInt64(p *int64) int64          { vrt.Point(); return atomic.LoadInt64(p) }
func StoreInt64(p *int64, n int64)      { vrt.Point(); atomic.StoreInt64(p, n) }
func AddInt64(p *int64, n int64) int64  { vrt.Point(); return atomic.AddInt64(p, n) }
func SwapInt64(p *int64, n int64) int64 { vrt.Point(); return atomic.SwapInt64(p, n) }
func CompareAndSwapInt64(p *int64, a, b int64) bool {
	vrt.Point()
	return atomic.CompareAndSwapInt64(p, a, b)
}

type Uint32 struct{ v atomic.Uint32 }

func (x *Uint32) Load() uint32                    { vrt.Point(); return x.v.Load() }
func (x *Uint32) Store(n uint32)                  { vrt.Point(); x.v.Store(n) }
func (x *Uint32) Add(n uint32) uint32             { vrt.Point(); return x.v.Add(n) }
func (x *Uint32) Swap(n uint32) uint32            { vrt.Point(); return x.v.Swap(n) }
func (x *Uint32) CompareAndSwap(a, b uint32) bool { vrt.Point(); return x.v.CompareAndSwap(a, b) }

func LoadUint32(p *uint32) uint32           { vrt.Point(); return atomic.LoadUint32(p) }
func StoreUint32(p *uint32, n uint32)       { vrt.Point(); atomic.StoreUint32(p, n) }
func AddUint32(p *uint32, n uint32) uint32  { vrt.Point(); return atomic.AddUint32(p, n) }
func SwapUint32(p *uint32, n uint32) uint32 { vrt.Point(); return atomic.SwapUint32(p, n) }
func CompareAndSwapUint32(p *uint32, a, b uint32) bool {
	vrt.Point()
	return atomic.CompareAndSwapUint32(p, a, b)
}

type Uint64 struct{ v atomic.Uint64 }

func (x *Uint64) Load() uint64                    { vrt.Point(); return x.v.Load() }
func (x *Uint64) Store(n uint64)                  { vrt.Point(); x.v.Store(n) }
func (x *Uint64) Add(n uint64) uint64             { vrt.Point(); return x.v.Add(n) }
func (x *Uint64) Swap(n uint64) uint64            { vrt.Point(); return x.v.Swap(n) }
func (x *Uint64) CompareAndSwap(a, b uint64) bool { vrt.Point(); return x.v.CompareAndSwap(a, b) }

func LoadUint64(p *uint64) uint64           { vrt.Point(); return atomic.LoadUint64(p) }
func StoreUint64(p *uint64, n uint64)       { vrt.Point(); atomic.StoreUint64(p, n) }
func AddUint64(p *uint64, n uint64) uint64  { vrt.Point(); return atomic.AddUint64(p, n) }
func SwapUint64(p *uint64, n uint64) uint64 { vrt.Point(); return atomic.SwapUint64(p, n) }
func CompareAndSwapUint64(p *uint64, a, b uint64) bool {
	vrt.Point()
	return atomic.CompareAndSwapUint64(p, a, b)
}

type Uintptr struct{ v atomic.Uintptr }

func (x *Uintptr) Load() uintptr                    { vrt.Point(); return x.v.Load() }
func (x *Uintptr) Store(n uintptr)                  { vrt.Point(); x.v.Store(n) }
func (x *Uintptr) Add(n uintptr) uintptr            { vrt.Point(); return x.v.Add(n) }
func (x *Uintptr) Swap(n uintptr) uintptr           { vrt.Point(); return x.v.Swap(n) }
func (x *Uintptr) CompareAndSwap(a, b uintptr) bool { vrt.Point(); return x.v.CompareAndSwap(a, b) }

func LoadUintptr(p *uintptr) uintptr            { vrt.Point(); return atomic.LoadUintptr(p) }
func StoreUintptr(p *uintptr, n uintptr)        { vrt.Point(); atomic.StoreUintptr(p, n) }
func AddUintptr(p *uintptr, n uintptr) uintptr  { vrt.Point(); return atomic.AddUintptr(p, n) }
func SwapUintptr(p *uintptr, n uintptr) uintptr { vrt.Point(); return atomic.SwapUintptr(p, n) }
func CompareAndSwapUintptr(p *uintptr, a, b uintptr) bool {
	vrt.Point()
	return atomic.CompareAndSwapUintptr(p, a, b)
}

type Bool struct{ v atomic.Bool }

func (x *Bool) Load() bool                    { vrt.Point(); return x.v.Load() }
func (x *Bool) Store(n bool)                  { vrt.Point(); x.v.Store(n) }
func (x *Bool) Swap(n bool) bool              { vrt.Point(); return x.v.Swap(n) }
func (x *Bool) CompareAndSwap(a, b bool) bool { vrt.Point(); return x.v.CompareAndSwap(a, b) }

type Value struct{ v atomic.Value }

func (x *Value) Load() any                    { vrt.Point(); return x.v.Load() }
func (x *Value) Store(n any)                  { vrt.Point(); x.v.Store(n) }
func (x *Value) Swap(n any) any               { vrt.Point(); return x.v.Swap(n) }
func (x *Value) CompareAndSwap(a, b any) bool { vrt.Point(); return x.v.CompareAndSwap(a, b) }

type Pointer[T any] struct{ v atomic.Pointer[T] }

func (x *Pointer[T]) Load() *T                    { vrt.Point(); return x.v.Load() }
func (x *Pointer[T]) Store(n *T)                  { vrt.Point(); x.v.Store(n) }
func (x *Pointer[T]) Swap(n *T) *T                { vrt.Point(); return x.v.Swap(n) }
func (x *Pointer[T]) CompareAndSwap(a, b *T) bool { vrt.Point(); return x.v.CompareAndSwap(a, b) }

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer     { vrt.Point(); return atomic.LoadPointer(p) }
func StorePointer(p *unsafe.Pointer, n unsafe.Pointer) { vrt.Point(); atomic.StorePointer(p, n) }
