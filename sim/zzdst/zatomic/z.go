//go:build go1.21

// Package atomic stands in for sync/atomic under simulation.
package atomic

import (
	"unsafe"

	"github.com/wearelumenai/distclus/zzdst"
)

type Int32 struct {
	v  int32
	vc []uint32
}

func (x *Int32) Load() int32        { zzdst.AtomicOp(&x.vc); return x.v }
func (x *Int32) Store(v int32)      { zzdst.AtomicOp(&x.vc); x.v = v }
func (x *Int32) Swap(v int32) int32 { zzdst.AtomicOp(&x.vc); o := x.v; x.v = v; return o }
func (x *Int32) Add(d int32) int32  { zzdst.AtomicOp(&x.vc); x.v += d; return x.v }
func (x *Int32) CompareAndSwap(o, n int32) bool {
	zzdst.AtomicOp(&x.vc)
	if x.v == o {
		x.v = n
		return true
	}
	return false
}

func LoadInt32(p *int32) int32          { zzdst.AtomicAddr(p); return *p }
func StoreInt32(p *int32, v int32)      { zzdst.AtomicAddr(p); *p = v }
func AddInt32(p *int32, d int32) int32  { zzdst.AtomicAddr(p); *p += d; return *p }
func SwapInt32(p *int32, v int32) int32 { zzdst.AtomicAddr(p); o := *p; *p = v; return o }
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	zzdst.AtomicAddr(p)
	if *p == o {
		*p = n
		return true
	}
	return false
}

type Int64 struct {
	v  int64
	vc []uint32
}

func (x *Int64) Load() int64        { zzdst.AtomicOp(&x.vc); return x.v }
func (x *Int64) Store(v int64)      { zzdst.AtomicOp(&x.vc); x.v = v }
func (x *Int64) Swap(v int64) int64 { zzdst.AtomicOp(&x.vc); o := x.v; x.v = v; return o }
func (x *Int64) Add(d int64) int64  { zzdst.AtomicOp(&x.vc); x.v += d; return x.v }
func (x *Int64) CompareAndSwap(o, n int64) bool {
	zzdst.AtomicOp(&x.vc)
	if x.v == o {
		x.v = n
		return true
	}
	return false
}

func LoadInt64(p *int64) int64          { zzdst.AtomicAddr(p); return *p }
func StoreInt64(p *int64, v int64)      { zzdst.AtomicAddr(p); *p = v }
func AddInt64(p *int64, d int64) int64  { zzdst.AtomicAddr(p); *p += d; return *p }
func SwapInt64(p *int64, v int64) int64 { zzdst.AtomicAddr(p); o := *p; *p = v; return o }
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	zzdst.AtomicAddr(p)
	if *p == o {
		*p = n
		return true
	}
	return false
}

type Uint32 struct {
	v  uint32
	vc []uint32
}

func (x *Uint32) Load() uint32         { zzdst.AtomicOp(&x.vc); return x.v }
func (x *Uint32) Store(v uint32)       { zzdst.AtomicOp(&x.vc); x.v = v }
func (x *Uint32) Swap(v uint32) uint32 { zzdst.AtomicOp(&x.vc); o := x.v; x.v = v; return o }
func (x *Uint32) Add(d uint32) uint32  { zzdst.AtomicOp(&x.vc); x.v += d; return x.v }
func (x *Uint32) CompareAndSwap(o, n uint32) bool {
	zzdst.AtomicOp(&x.vc)
	if x.v == o {
		x.v = n
		return true
	}
	return false
}

func LoadUint32(p *uint32) uint32           { zzdst.AtomicAddr(p); return *p }
func StoreUint32(p *uint32, v uint32)       { zzdst.AtomicAddr(p); *p = v }
func AddUint32(p *uint32, d uint32) uint32  { zzdst.AtomicAddr(p); *p += d; return *p }
func SwapUint32(p *uint32, v uint32) uint32 { zzdst.AtomicAddr(p); o := *p; *p = v; return o }
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	zzdst.AtomicAddr(p)
	if *p == o {
		*p = n
		return true
	}
	return false
}

type Uint64 struct {
	v  uint64
	vc []uint32
}

func (x *Uint64) Load() uint64         { zzdst.AtomicOp(&x.vc); return x.v }
func (x *Uint64) Store(v uint64)       { zzdst.AtomicOp(&x.vc); x.v = v }
func (x *Uint64) Swap(v uint64) uint64 { zzdst.AtomicOp(&x.vc); o := x.v; x.v = v; return o }
func (x *Uint64) Add(d uint64) uint64  { zzdst.AtomicOp(&x.vc); x.v += d; return x.v }
func (x *Uint64) CompareAndSwap(o, n uint64) bool {
	zzdst.AtomicOp(&x.vc)
	if x.v == o {
		x.v = n
		return true
	}
	return false
}

func LoadUint64(p *uint64) uint64           { zzdst.AtomicAddr(p); return *p }
func StoreUint64(p *uint64, v uint64)       { zzdst.AtomicAddr(p); *p = v }
func AddUint64(p *uint64, d uint64) uint64  { zzdst.AtomicAddr(p); *p += d; return *p }
func SwapUint64(p *uint64, v uint64) uint64 { zzdst.AtomicAddr(p); o := *p; *p = v; return o }
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	zzdst.AtomicAddr(p)
	if *p == o {
		*p = n
		return true
	}
	return false
}

type Uintptr struct {
	v  uintptr
	vc []uint32
}

func (x *Uintptr) Load() uintptr          { zzdst.AtomicOp(&x.vc); return x.v }
func (x *Uintptr) Store(v uintptr)        { zzdst.AtomicOp(&x.vc); x.v = v }
func (x *Uintptr) Swap(v uintptr) uintptr { zzdst.AtomicOp(&x.vc); o := x.v; x.v = v; return o }
func (x *Uintptr) Add(d uintptr) uintptr  { zzdst.AtomicOp(&x.vc); x.v += d; return x.v }
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool {
	zzdst.AtomicOp(&x.vc)
	if x.v == o {
		x.v = n
		return true
	}
	return false
}

func LoadUintptr(p *uintptr) uintptr            { zzdst.AtomicAddr(p); return *p }
func StoreUintptr(p *uintptr, v uintptr)        { zzdst.AtomicAddr(p); *p = v }
func AddUintptr(p *uintptr, d uintptr) uintptr  { zzdst.AtomicAddr(p); *p += d; return *p }
func SwapUintptr(p *uintptr, v uintptr) uintptr { zzdst.AtomicAddr(p); o := *p; *p = v; return o }
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	zzdst.AtomicAddr(p)
	if *p == o {
		*p = n
		return true
	}
	return false
}

type Bool struct {
	v  bool
	vc []uint32
}

func (x *Bool) Load() bool       { zzdst.AtomicOp(&x.vc); return x.v }
func (x *Bool) Store(v bool)     { zzdst.AtomicOp(&x.vc); x.v = v }
func (x *Bool) Swap(v bool) bool { zzdst.AtomicOp(&x.vc); o := x.v; x.v = v; return o }
func (x *Bool) CompareAndSwap(o, n bool) bool {
	zzdst.AtomicOp(&x.vc)
	if x.v == o {
		x.v = n
		return true
	}
	return false
}

type Value struct {
	v  any
	vc []uint32
}

func (x *Value) Load() any      { zzdst.AtomicOp(&x.vc); return x.v }
func (x *Value) Store(v any)    { zzdst.AtomicOp(&x.vc); x.v = v }
func (x *Value) Swap(v any) any { zzdst.AtomicOp(&x.vc); o := x.v; x.v = v; return o }
func (x *Value) CompareAndSwap(o, n any) bool {
	zzdst.AtomicOp(&x.vc)
	if x.v == o {
		x.v = n
		return true
	}
	return false
}

type Pointer[T any] struct {
	v  *T
	vc []uint32
}

func (x *Pointer[T]) Load() *T     { zzdst.AtomicOp(&x.vc); return x.v }
func (x *Pointer[T]) Store(v *T)   { zzdst.AtomicOp(&x.vc); x.v = v }
func (x *Pointer[T]) Swap(v *T) *T { zzdst.AtomicOp(&x.vc); o := x.v; x.v = v; return o }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool {
	zzdst.AtomicOp(&x.vc)
	if x.v == o {
		x.v = n
		return true
	}
	return false
}

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer     { zzdst.AtomicAddr(p); return *p }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { zzdst.AtomicAddr(p); *p = v }
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	zzdst.AtomicAddr(p)
	if *p == o {
		*p = n
		return true
	}
	return false
}
func AndInt32(p *int32, m int32) int32         { zzdst.AtomicAddr(p); o := *p; *p &= m; return o }
func (x *Int32) And(m int32) int32             { zzdst.AtomicOp(&x.vc); o := x.v; x.v &= m; return o }
func OrInt32(p *int32, m int32) int32          { zzdst.AtomicAddr(p); o := *p; *p |= m; return o }
func (x *Int32) Or(m int32) int32              { zzdst.AtomicOp(&x.vc); o := x.v; x.v |= m; return o }
func AndInt64(p *int64, m int64) int64         { zzdst.AtomicAddr(p); o := *p; *p &= m; return o }
func (x *Int64) And(m int64) int64             { zzdst.AtomicOp(&x.vc); o := x.v; x.v &= m; return o }
func OrInt64(p *int64, m int64) int64          { zzdst.AtomicAddr(p); o := *p; *p |= m; return o }
func (x *Int64) Or(m int64) int64              { zzdst.AtomicOp(&x.vc); o := x.v; x.v |= m; return o }
func AndUint32(p *uint32, m uint32) uint32     { zzdst.AtomicAddr(p); o := *p; *p &= m; return o }
func (x *Uint32) And(m uint32) uint32          { zzdst.AtomicOp(&x.vc); o := x.v; x.v &= m; return o }
func OrUint32(p *uint32, m uint32) uint32      { zzdst.AtomicAddr(p); o := *p; *p |= m; return o }
func (x *Uint32) Or(m uint32) uint32           { zzdst.AtomicOp(&x.vc); o := x.v; x.v |= m; return o }
func AndUint64(p *uint64, m uint64) uint64     { zzdst.AtomicAddr(p); o := *p; *p &= m; return o }
func (x *Uint64) And(m uint64) uint64          { zzdst.AtomicOp(&x.vc); o := x.v; x.v &= m; return o }
func OrUint64(p *uint64, m uint64) uint64      { zzdst.AtomicAddr(p); o := *p; *p |= m; return o }
func (x *Uint64) Or(m uint64) uint64           { zzdst.AtomicOp(&x.vc); o := x.v; x.v |= m; return o }
func AndUintptr(p *uintptr, m uintptr) uintptr { zzdst.AtomicAddr(p); o := *p; *p &= m; return o }
func (x *Uintptr) And(m uintptr) uintptr       { zzdst.AtomicOp(&x.vc); o := x.v; x.v &= m; return o }
func OrUintptr(p *uintptr, m uintptr) uintptr  { zzdst.AtomicAddr(p); o := *p; *p |= m; return o }
func (x *Uintptr) Or(m uintptr) uintptr        { zzdst.AtomicOp(&x.vc); o := x.v; x.v |= m; return o }

func SwapPointer(p *unsafe.Pointer, n unsafe.Pointer) unsafe.Pointer {
	zzdst.AtomicAddr(p)
	o := *p
	*p = n
	return o
}
