// Package simatomic has the API of sync/atomic with scheduling points.
package simatomic

import (
	"sync/atomic"
	"unsafe"

	"vsim/simrt"
)

func LoadInt32(p *int32) int32          { simrt.YS(); return atomic.LoadInt32(p) }
func StoreInt32(p *int32, v int32)      { simrt.YS(); atomic.StoreInt32(p, v) }
func AddInt32(p *int32, d int32) int32  { simrt.YS(); return atomic.AddInt32(p, d) }
func SwapInt32(p *int32, v int32) int32 { simrt.YS(); return atomic.SwapInt32(p, v) }
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	simrt.YS()
	return atomic.CompareAndSwapInt32(p, o, n)
}

type Int32 struct{ v atomic.Int32 }

func (x *Int32) Load() int32                    { simrt.YS(); return x.v.Load() }
func (x *Int32) Store(v int32)                  { simrt.YS(); x.v.Store(v) }
func (x *Int32) Add(d int32) int32              { simrt.YS(); return x.v.Add(d) }
func (x *Int32) Swap(v int32) int32             { simrt.YS(); return x.v.Swap(v) }
func (x *Int32) CompareAndSwap(o, n int32) bool { simrt.YS(); return x.v.CompareAndSwap(o, n) }

func (x *Int32) And(m int32) int32 {
	simrt.YS()
	for {
		o := x.v.Load()
		if x.v.CompareAndSwap(o, o&m) {
			return o
		}
	}
}
func (x *Int32) Or(m int32) int32 {
	simrt.YS()
	for {
		o := x.v.Load()
		if x.v.CompareAndSwap(o, o|m) {
			return o
		}
	}
}

func LoadInt64(p *int64) int64          { simrt.YS(); return atomic.LoadInt64(p) }
func StoreInt64(p *int64, v int64)      { simrt.YS(); atomic.StoreInt64(p, v) }
func AddInt64(p *int64, d int64) int64  { simrt.YS(); return atomic.AddInt64(p, d) }
func SwapInt64(p *int64, v int64) int64 { simrt.YS(); return atomic.SwapInt64(p, v) }
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	simrt.YS()
	return atomic.CompareAndSwapInt64(p, o, n)
}

type Int64 struct{ v atomic.Int64 }

func (x *Int64) Load() int64                    { simrt.YS(); return x.v.Load() }
func (x *Int64) Store(v int64)                  { simrt.YS(); x.v.Store(v) }
func (x *Int64) Add(d int64) int64              { simrt.YS(); return x.v.Add(d) }
func (x *Int64) Swap(v int64) int64             { simrt.YS(); return x.v.Swap(v) }
func (x *Int64) CompareAndSwap(o, n int64) bool { simrt.YS(); return x.v.CompareAndSwap(o, n) }

func (x *Int64) And(m int64) int64 {
	simrt.YS()
	for {
		o := x.v.Load()
		if x.v.CompareAndSwap(o, o&m) {
			return o
		}
	}
}
func (x *Int64) Or(m int64) int64 {
	simrt.YS()
	for {
		o := x.v.Load()
		if x.v.CompareAndSwap(o, o|m) {
			return o
		}
	}
}

func LoadUint32(p *uint32) uint32           { simrt.YS(); return atomic.LoadUint32(p) }
func StoreUint32(p *uint32, v uint32)       { simrt.YS(); atomic.StoreUint32(p, v) }
func AddUint32(p *uint32, d uint32) uint32  { simrt.YS(); return atomic.AddUint32(p, d) }
func SwapUint32(p *uint32, v uint32) uint32 { simrt.YS(); return atomic.SwapUint32(p, v) }
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	simrt.YS()
	return atomic.CompareAndSwapUint32(p, o, n)
}

type Uint32 struct{ v atomic.Uint32 }

func (x *Uint32) Load() uint32                    { simrt.YS(); return x.v.Load() }
func (x *Uint32) Store(v uint32)                  { simrt.YS(); x.v.Store(v) }
func (x *Uint32) Add(d uint32) uint32             { simrt.YS(); return x.v.Add(d) }
func (x *Uint32) Swap(v uint32) uint32            { simrt.YS(); return x.v.Swap(v) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool { simrt.YS(); return x.v.CompareAndSwap(o, n) }

func (x *Uint32) And(m uint32) uint32 {
	simrt.YS()
	for {
		o := x.v.Load()
		if x.v.CompareAndSwap(o, o&m) {
			return o
		}
	}
}
func (x *Uint32) Or(m uint32) uint32 {
	simrt.YS()
	for {
		o := x.v.Load()
		if x.v.CompareAndSwap(o, o|m) {
			return o
		}
	}
}

func LoadUint64(p *uint64) uint64           { simrt.YS(); return atomic.LoadUint64(p) }
func StoreUint64(p *uint64, v uint64)       { simrt.YS(); atomic.StoreUint64(p, v) }
func AddUint64(p *uint64, d uint64) uint64  { simrt.YS(); return atomic.AddUint64(p, d) }
func SwapUint64(p *uint64, v uint64) uint64 { simrt.YS(); return atomic.SwapUint64(p, v) }
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	simrt.YS()
	return atomic.CompareAndSwapUint64(p, o, n)
}

type Uint64 struct{ v atomic.Uint64 }

func (x *Uint64) Load() uint64                    { simrt.YS(); return x.v.Load() }
func (x *Uint64) Store(v uint64)                  { simrt.YS(); x.v.Store(v) }
func (x *Uint64) Add(d uint64) uint64             { simrt.YS(); return x.v.Add(d) }
func (x *Uint64) Swap(v uint64) uint64            { simrt.YS(); return x.v.Swap(v) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool { simrt.YS(); return x.v.CompareAndSwap(o, n) }

func (x *Uint64) And(m uint64) uint64 {
	simrt.YS()
	for {
		o := x.v.Load()
		if x.v.CompareAndSwap(o, o&m) {
			return o
		}
	}
}
func (x *Uint64) Or(m uint64) uint64 {
	simrt.YS()
	for {
		o := x.v.Load()
		if x.v.CompareAndSwap(o, o|m) {
			return o
		}
	}
}

func LoadUintptr(p *uintptr) uintptr            { simrt.YS(); return atomic.LoadUintptr(p) }
func StoreUintptr(p *uintptr, v uintptr)        { simrt.YS(); atomic.StoreUintptr(p, v) }
func AddUintptr(p *uintptr, d uintptr) uintptr  { simrt.YS(); return atomic.AddUintptr(p, d) }
func SwapUintptr(p *uintptr, v uintptr) uintptr { simrt.YS(); return atomic.SwapUintptr(p, v) }
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	simrt.YS()
	return atomic.CompareAndSwapUintptr(p, o, n)
}

type Uintptr struct{ v atomic.Uintptr }

func (x *Uintptr) Load() uintptr                    { simrt.YS(); return x.v.Load() }
func (x *Uintptr) Store(v uintptr)                  { simrt.YS(); x.v.Store(v) }
func (x *Uintptr) Add(d uintptr) uintptr            { simrt.YS(); return x.v.Add(d) }
func (x *Uintptr) Swap(v uintptr) uintptr           { simrt.YS(); return x.v.Swap(v) }
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool { simrt.YS(); return x.v.CompareAndSwap(o, n) }

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer     { simrt.YS(); return atomic.LoadPointer(p) }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { simrt.YS(); atomic.StorePointer(p, v) }
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	simrt.YS()
	return atomic.SwapPointer(p, v)
}
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	simrt.YS()
	return atomic.CompareAndSwapPointer(p, o, n)
}

type Bool struct{ v atomic.Bool }

func (x *Bool) Load() bool                    { simrt.YS(); return x.v.Load() }
func (x *Bool) Store(v bool)                  { simrt.YS(); x.v.Store(v) }
func (x *Bool) Swap(v bool) bool              { simrt.YS(); return x.v.Swap(v) }
func (x *Bool) CompareAndSwap(o, n bool) bool { simrt.YS(); return x.v.CompareAndSwap(o, n) }

type Value struct{ v atomic.Value }

func (x *Value) Load() any                    { simrt.YS(); return x.v.Load() }
func (x *Value) Store(v any)                  { simrt.YS(); x.v.Store(v) }
func (x *Value) Swap(v any) any               { simrt.YS(); return x.v.Swap(v) }
func (x *Value) CompareAndSwap(o, n any) bool { simrt.YS(); return x.v.CompareAndSwap(o, n) }

type Pointer[T any] struct{ v atomic.Pointer[T] }

func (x *Pointer[T]) Load() *T                    { simrt.YS(); return x.v.Load() }
func (x *Pointer[T]) Store(v *T)                  { simrt.YS(); x.v.Store(v) }
func (x *Pointer[T]) Swap(v *T) *T                { simrt.YS(); return x.v.Swap(v) }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool { simrt.YS(); return x.v.CompareAndSwap(o, n) }

func AndInt32(p *int32, m int32) int32 {
	simrt.YS()
	for {
		o := atomic.LoadInt32(p)
		if atomic.CompareAndSwapInt32(p, o, o&m) {
			return o
		}
	}
}

func OrInt32(p *int32, m int32) int32 {
	simrt.YS()
	for {
		o := atomic.LoadInt32(p)
		if atomic.CompareAndSwapInt32(p, o, o|m) {
			return o
		}
	}
}

func AndInt64(p *int64, m int64) int64 {
	simrt.YS()
	for {
		o := atomic.LoadInt64(p)
		if atomic.CompareAndSwapInt64(p, o, o&m) {
			return o
		}
	}
}

func OrInt64(p *int64, m int64) int64 {
	simrt.YS()
	for {
		o := atomic.LoadInt64(p)
		if atomic.CompareAndSwapInt64(p, o, o|m) {
			return o
		}
	}
}

func AndUint32(p *uint32, m uint32) uint32 {
	simrt.YS()
	for {
		o := atomic.LoadUint32(p)
		if atomic.CompareAndSwapUint32(p, o, o&m) {
			return o
		}
	}
}

func OrUint32(p *uint32, m uint32) uint32 {
	simrt.YS()
	for {
		o := atomic.LoadUint32(p)
		if atomic.CompareAndSwapUint32(p, o, o|m) {
			return o
		}
	}
}

func AndUint64(p *uint64, m uint64) uint64 {
	simrt.YS()
	for {
		o := atomic.LoadUint64(p)
		if atomic.CompareAndSwapUint64(p, o, o&m) {
			return o
		}
	}
}

func OrUint64(p *uint64, m uint64) uint64 {
	simrt.YS()
	for {
		o := atomic.LoadUint64(p)
		if atomic.CompareAndSwapUint64(p, o, o|m) {
			return o
		}
	}
}

func AndUintptr(p *uintptr, m uintptr) uintptr {
	simrt.YS()
	for {
		o := atomic.LoadUintptr(p)
		if atomic.CompareAndSwapUintptr(p, o, o&m) {
			return o
		}
	}
}

func OrUintptr(p *uintptr, m uintptr) uintptr {
	simrt.YS()
	for {
		o := atomic.LoadUintptr(p)
		if atomic.CompareAndSwapUintptr(p, o, o|m) {
			return o
		}
	}
}

func (x *Uintptr) And(m uintptr) uintptr {
	simrt.YS()
	for {
		o := x.v.Load()
		if x.v.CompareAndSwap(o, o&m) {
			return o
		}
	}
}

func (x *Uintptr) Or(m uintptr) uintptr {
	simrt.YS()
	for {
		o := x.v.Load()
		if x.v.CompareAndSwap(o, o|m) {
			return o
		}
	}
}
