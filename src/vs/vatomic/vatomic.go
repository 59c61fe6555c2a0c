// Code generated by hand-written script; replaces sync/atomic under the controlled scheduler.
package vatomic

import (
	"sync/atomic"
	"unsafe"

	"github.com/sonirico/visigoth/zz_verif/vs"
)

var _ unsafe.Pointer

// anyObj stands for all plain words accessed through the functions below: it
// makes them mutually dependent, which only costs exploration, never soundness.
type anyObj struct{ o vs.Obj }

//go:norace
func (a *anyObj) Ready(uint8) bool { return true }

//go:norace
func (a *anyObj) Base() *vs.Obj { return &a.o }

var words anyObj

type Int32 struct {
	a anyObj
	v atomic.Int32
}

func (x *Int32) Load() int32        { vs.Point(&x.a, vs.KRead); return x.v.Load() }
func (x *Int32) Store(n int32)      { vs.Point(&x.a, vs.KWrite); x.v.Store(n) }
func (x *Int32) Swap(n int32) int32 { vs.Point(&x.a, vs.KWrite); return x.v.Swap(n) }
func (x *Int32) Add(n int32) int32  { vs.Point(&x.a, vs.KWrite); return x.v.Add(n) }
func (x *Int32) And(n int32) int32  { vs.Point(&x.a, vs.KWrite); return x.v.And(n) }
func (x *Int32) Or(n int32) int32   { vs.Point(&x.a, vs.KWrite); return x.v.Or(n) }
func (x *Int32) CompareAndSwap(o, n int32) bool {
	vs.Point(&x.a, vs.KWrite)
	return x.v.CompareAndSwap(o, n)
}
func LoadInt32(p *int32) int32          { vs.Point(&words, vs.KRead); return atomic.LoadInt32(p) }
func StoreInt32(p *int32, n int32)      { vs.Point(&words, vs.KWrite); atomic.StoreInt32(p, n) }
func SwapInt32(p *int32, n int32) int32 { vs.Point(&words, vs.KWrite); return atomic.SwapInt32(p, n) }
func AddInt32(p *int32, n int32) int32  { vs.Point(&words, vs.KWrite); return atomic.AddInt32(p, n) }
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	vs.Point(&words, vs.KWrite)
	return atomic.CompareAndSwapInt32(p, o, n)
}

type Int64 struct {
	a anyObj
	v atomic.Int64
}

func (x *Int64) Load() int64        { vs.Point(&x.a, vs.KRead); return x.v.Load() }
func (x *Int64) Store(n int64)      { vs.Point(&x.a, vs.KWrite); x.v.Store(n) }
func (x *Int64) Swap(n int64) int64 { vs.Point(&x.a, vs.KWrite); return x.v.Swap(n) }
func (x *Int64) Add(n int64) int64  { vs.Point(&x.a, vs.KWrite); return x.v.Add(n) }
func (x *Int64) And(n int64) int64  { vs.Point(&x.a, vs.KWrite); return x.v.And(n) }
func (x *Int64) Or(n int64) int64   { vs.Point(&x.a, vs.KWrite); return x.v.Or(n) }
func (x *Int64) CompareAndSwap(o, n int64) bool {
	vs.Point(&x.a, vs.KWrite)
	return x.v.CompareAndSwap(o, n)
}
func LoadInt64(p *int64) int64          { vs.Point(&words, vs.KRead); return atomic.LoadInt64(p) }
func StoreInt64(p *int64, n int64)      { vs.Point(&words, vs.KWrite); atomic.StoreInt64(p, n) }
func SwapInt64(p *int64, n int64) int64 { vs.Point(&words, vs.KWrite); return atomic.SwapInt64(p, n) }
func AddInt64(p *int64, n int64) int64  { vs.Point(&words, vs.KWrite); return atomic.AddInt64(p, n) }
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	vs.Point(&words, vs.KWrite)
	return atomic.CompareAndSwapInt64(p, o, n)
}

type Uint32 struct {
	a anyObj
	v atomic.Uint32
}

func (x *Uint32) Load() uint32         { vs.Point(&x.a, vs.KRead); return x.v.Load() }
func (x *Uint32) Store(n uint32)       { vs.Point(&x.a, vs.KWrite); x.v.Store(n) }
func (x *Uint32) Swap(n uint32) uint32 { vs.Point(&x.a, vs.KWrite); return x.v.Swap(n) }
func (x *Uint32) Add(n uint32) uint32  { vs.Point(&x.a, vs.KWrite); return x.v.Add(n) }
func (x *Uint32) And(n uint32) uint32  { vs.Point(&x.a, vs.KWrite); return x.v.And(n) }
func (x *Uint32) Or(n uint32) uint32   { vs.Point(&x.a, vs.KWrite); return x.v.Or(n) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool {
	vs.Point(&x.a, vs.KWrite)
	return x.v.CompareAndSwap(o, n)
}
func LoadUint32(p *uint32) uint32     { vs.Point(&words, vs.KRead); return atomic.LoadUint32(p) }
func StoreUint32(p *uint32, n uint32) { vs.Point(&words, vs.KWrite); atomic.StoreUint32(p, n) }
func SwapUint32(p *uint32, n uint32) uint32 {
	vs.Point(&words, vs.KWrite)
	return atomic.SwapUint32(p, n)
}
func AddUint32(p *uint32, n uint32) uint32 {
	vs.Point(&words, vs.KWrite)
	return atomic.AddUint32(p, n)
}
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	vs.Point(&words, vs.KWrite)
	return atomic.CompareAndSwapUint32(p, o, n)
}

type Uint64 struct {
	a anyObj
	v atomic.Uint64
}

func (x *Uint64) Load() uint64         { vs.Point(&x.a, vs.KRead); return x.v.Load() }
func (x *Uint64) Store(n uint64)       { vs.Point(&x.a, vs.KWrite); x.v.Store(n) }
func (x *Uint64) Swap(n uint64) uint64 { vs.Point(&x.a, vs.KWrite); return x.v.Swap(n) }
func (x *Uint64) Add(n uint64) uint64  { vs.Point(&x.a, vs.KWrite); return x.v.Add(n) }
func (x *Uint64) And(n uint64) uint64  { vs.Point(&x.a, vs.KWrite); return x.v.And(n) }
func (x *Uint64) Or(n uint64) uint64   { vs.Point(&x.a, vs.KWrite); return x.v.Or(n) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool {
	vs.Point(&x.a, vs.KWrite)
	return x.v.CompareAndSwap(o, n)
}
func LoadUint64(p *uint64) uint64     { vs.Point(&words, vs.KRead); return atomic.LoadUint64(p) }
func StoreUint64(p *uint64, n uint64) { vs.Point(&words, vs.KWrite); atomic.StoreUint64(p, n) }
func SwapUint64(p *uint64, n uint64) uint64 {
	vs.Point(&words, vs.KWrite)
	return atomic.SwapUint64(p, n)
}
func AddUint64(p *uint64, n uint64) uint64 {
	vs.Point(&words, vs.KWrite)
	return atomic.AddUint64(p, n)
}
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	vs.Point(&words, vs.KWrite)
	return atomic.CompareAndSwapUint64(p, o, n)
}

type Uintptr struct {
	a anyObj
	v atomic.Uintptr
}

func (x *Uintptr) Load() uintptr          { vs.Point(&x.a, vs.KRead); return x.v.Load() }
func (x *Uintptr) Store(n uintptr)        { vs.Point(&x.a, vs.KWrite); x.v.Store(n) }
func (x *Uintptr) Swap(n uintptr) uintptr { vs.Point(&x.a, vs.KWrite); return x.v.Swap(n) }
func (x *Uintptr) Add(n uintptr) uintptr  { vs.Point(&x.a, vs.KWrite); return x.v.Add(n) }
func (x *Uintptr) And(n uintptr) uintptr  { vs.Point(&x.a, vs.KWrite); return x.v.And(n) }
func (x *Uintptr) Or(n uintptr) uintptr   { vs.Point(&x.a, vs.KWrite); return x.v.Or(n) }
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool {
	vs.Point(&x.a, vs.KWrite)
	return x.v.CompareAndSwap(o, n)
}
func LoadUintptr(p *uintptr) uintptr     { vs.Point(&words, vs.KRead); return atomic.LoadUintptr(p) }
func StoreUintptr(p *uintptr, n uintptr) { vs.Point(&words, vs.KWrite); atomic.StoreUintptr(p, n) }
func SwapUintptr(p *uintptr, n uintptr) uintptr {
	vs.Point(&words, vs.KWrite)
	return atomic.SwapUintptr(p, n)
}
func AddUintptr(p *uintptr, n uintptr) uintptr {
	vs.Point(&words, vs.KWrite)
	return atomic.AddUintptr(p, n)
}
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	vs.Point(&words, vs.KWrite)
	return atomic.CompareAndSwapUintptr(p, o, n)
}

type Bool struct {
	a anyObj
	v atomic.Bool
}

func (x *Bool) Load() bool       { vs.Point(&x.a, vs.KRead); return x.v.Load() }
func (x *Bool) Store(n bool)     { vs.Point(&x.a, vs.KWrite); x.v.Store(n) }
func (x *Bool) Swap(n bool) bool { vs.Point(&x.a, vs.KWrite); return x.v.Swap(n) }
func (x *Bool) CompareAndSwap(o, n bool) bool {
	vs.Point(&x.a, vs.KWrite)
	return x.v.CompareAndSwap(o, n)
}

type Pointer[T any] struct {
	a anyObj
	v atomic.Pointer[T]
}

func (x *Pointer[T]) Load() *T     { vs.Point(&x.a, vs.KRead); return x.v.Load() }
func (x *Pointer[T]) Store(n *T)   { vs.Point(&x.a, vs.KWrite); x.v.Store(n) }
func (x *Pointer[T]) Swap(n *T) *T { vs.Point(&x.a, vs.KWrite); return x.v.Swap(n) }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool {
	vs.Point(&x.a, vs.KWrite)
	return x.v.CompareAndSwap(o, n)
}

type Value struct {
	a anyObj
	v atomic.Value
}

func (x *Value) Load() any      { vs.Point(&x.a, vs.KRead); return x.v.Load() }
func (x *Value) Store(n any)    { vs.Point(&x.a, vs.KWrite); x.v.Store(n) }
func (x *Value) Swap(n any) any { vs.Point(&x.a, vs.KWrite); return x.v.Swap(n) }
func (x *Value) CompareAndSwap(o, n any) bool {
	vs.Point(&x.a, vs.KWrite)
	return x.v.CompareAndSwap(o, n)
}

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer {
	vs.Point(&words, vs.KRead)
	return atomic.LoadPointer(p)
}
func StorePointer(p *unsafe.Pointer, n unsafe.Pointer) {
	vs.Point(&words, vs.KWrite)
	atomic.StorePointer(p, n)
}
func SwapPointer(p *unsafe.Pointer, n unsafe.Pointer) unsafe.Pointer {
	vs.Point(&words, vs.KWrite)
	return atomic.SwapPointer(p, n)
}
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	vs.Point(&words, vs.KWrite)
	return atomic.CompareAndSwapPointer(p, o, n)
}
