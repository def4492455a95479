// Package atomic is the controlled replacement of sync/atomic.
package atomic

import (
	"github.com/intel/forGoParallel/zz_verif/mc"
	"unsafe"
)

func LoadInt32(p *int32) (v int32) {
	mc.AtomicOp("atomic.Load", unsafe.Pointer(p), mc.Read, func() { v = *p })
	return
}
func StoreInt32(p *int32, v int32) {
	mc.AtomicOp("atomic.Store", unsafe.Pointer(p), mc.Write, func() { *p = v })
}
func AddInt32(p *int32, d int32) (v int32) {
	mc.AtomicOp("atomic.Add", unsafe.Pointer(p), mc.Write, func() { *p += d; v = *p })
	return
}
func SwapInt32(p *int32, n int32) (v int32) {
	mc.AtomicOp("atomic.Swap", unsafe.Pointer(p), mc.Write, func() { v = *p; *p = n })
	return
}
func CompareAndSwapInt32(p *int32, o, n int32) (ok bool) {
	mc.AtomicOp("atomic.CompareAndSwap", unsafe.Pointer(p), mc.Write, func() {
		if *p == o {
			*p, ok = n, true
		}
	})
	return
}
func AndInt32(p *int32, m int32) (old int32) {
	mc.AtomicOp("atomic.And", unsafe.Pointer(p), mc.Write, func() { old = *p; *p &= m })
	return
}
func OrInt32(p *int32, m int32) (old int32) {
	mc.AtomicOp("atomic.Or", unsafe.Pointer(p), mc.Write, func() { old = *p; *p |= m })
	return
}

type Int32 struct{ v int32 }

func (x *Int32) Load() int32                    { return LoadInt32(&x.v) }
func (x *Int32) Store(v int32)                  { StoreInt32(&x.v, v) }
func (x *Int32) Add(d int32) int32              { return AddInt32(&x.v, d) }
func (x *Int32) Swap(n int32) int32             { return SwapInt32(&x.v, n) }
func (x *Int32) CompareAndSwap(o, n int32) bool { return CompareAndSwapInt32(&x.v, o, n) }
func (x *Int32) And(m int32) int32              { return AndInt32(&x.v, m) }
func (x *Int32) Or(m int32) int32               { return OrInt32(&x.v, m) }

func LoadInt64(p *int64) (v int64) {
	mc.AtomicOp("atomic.Load", unsafe.Pointer(p), mc.Read, func() { v = *p })
	return
}
func StoreInt64(p *int64, v int64) {
	mc.AtomicOp("atomic.Store", unsafe.Pointer(p), mc.Write, func() { *p = v })
}
func AddInt64(p *int64, d int64) (v int64) {
	mc.AtomicOp("atomic.Add", unsafe.Pointer(p), mc.Write, func() { *p += d; v = *p })
	return
}
func SwapInt64(p *int64, n int64) (v int64) {
	mc.AtomicOp("atomic.Swap", unsafe.Pointer(p), mc.Write, func() { v = *p; *p = n })
	return
}
func CompareAndSwapInt64(p *int64, o, n int64) (ok bool) {
	mc.AtomicOp("atomic.CompareAndSwap", unsafe.Pointer(p), mc.Write, func() {
		if *p == o {
			*p, ok = n, true
		}
	})
	return
}
func AndInt64(p *int64, m int64) (old int64) {
	mc.AtomicOp("atomic.And", unsafe.Pointer(p), mc.Write, func() { old = *p; *p &= m })
	return
}
func OrInt64(p *int64, m int64) (old int64) {
	mc.AtomicOp("atomic.Or", unsafe.Pointer(p), mc.Write, func() { old = *p; *p |= m })
	return
}

type Int64 struct{ v int64 }

func (x *Int64) Load() int64                    { return LoadInt64(&x.v) }
func (x *Int64) Store(v int64)                  { StoreInt64(&x.v, v) }
func (x *Int64) Add(d int64) int64              { return AddInt64(&x.v, d) }
func (x *Int64) Swap(n int64) int64             { return SwapInt64(&x.v, n) }
func (x *Int64) CompareAndSwap(o, n int64) bool { return CompareAndSwapInt64(&x.v, o, n) }
func (x *Int64) And(m int64) int64              { return AndInt64(&x.v, m) }
func (x *Int64) Or(m int64) int64               { return OrInt64(&x.v, m) }

func LoadUint32(p *uint32) (v uint32) {
	mc.AtomicOp("atomic.Load", unsafe.Pointer(p), mc.Read, func() { v = *p })
	return
}
func StoreUint32(p *uint32, v uint32) {
	mc.AtomicOp("atomic.Store", unsafe.Pointer(p), mc.Write, func() { *p = v })
}
func AddUint32(p *uint32, d uint32) (v uint32) {
	mc.AtomicOp("atomic.Add", unsafe.Pointer(p), mc.Write, func() { *p += d; v = *p })
	return
}
func SwapUint32(p *uint32, n uint32) (v uint32) {
	mc.AtomicOp("atomic.Swap", unsafe.Pointer(p), mc.Write, func() { v = *p; *p = n })
	return
}
func CompareAndSwapUint32(p *uint32, o, n uint32) (ok bool) {
	mc.AtomicOp("atomic.CompareAndSwap", unsafe.Pointer(p), mc.Write, func() {
		if *p == o {
			*p, ok = n, true
		}
	})
	return
}
func AndUint32(p *uint32, m uint32) (old uint32) {
	mc.AtomicOp("atomic.And", unsafe.Pointer(p), mc.Write, func() { old = *p; *p &= m })
	return
}
func OrUint32(p *uint32, m uint32) (old uint32) {
	mc.AtomicOp("atomic.Or", unsafe.Pointer(p), mc.Write, func() { old = *p; *p |= m })
	return
}

type Uint32 struct{ v uint32 }

func (x *Uint32) Load() uint32                    { return LoadUint32(&x.v) }
func (x *Uint32) Store(v uint32)                  { StoreUint32(&x.v, v) }
func (x *Uint32) Add(d uint32) uint32             { return AddUint32(&x.v, d) }
func (x *Uint32) Swap(n uint32) uint32            { return SwapUint32(&x.v, n) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool { return CompareAndSwapUint32(&x.v, o, n) }
func (x *Uint32) And(m uint32) uint32             { return AndUint32(&x.v, m) }
func (x *Uint32) Or(m uint32) uint32              { return OrUint32(&x.v, m) }

func LoadUint64(p *uint64) (v uint64) {
	mc.AtomicOp("atomic.Load", unsafe.Pointer(p), mc.Read, func() { v = *p })
	return
}
func StoreUint64(p *uint64, v uint64) {
	mc.AtomicOp("atomic.Store", unsafe.Pointer(p), mc.Write, func() { *p = v })
}
func AddUint64(p *uint64, d uint64) (v uint64) {
	mc.AtomicOp("atomic.Add", unsafe.Pointer(p), mc.Write, func() { *p += d; v = *p })
	return
}
func SwapUint64(p *uint64, n uint64) (v uint64) {
	mc.AtomicOp("atomic.Swap", unsafe.Pointer(p), mc.Write, func() { v = *p; *p = n })
	return
}
func CompareAndSwapUint64(p *uint64, o, n uint64) (ok bool) {
	mc.AtomicOp("atomic.CompareAndSwap", unsafe.Pointer(p), mc.Write, func() {
		if *p == o {
			*p, ok = n, true
		}
	})
	return
}
func AndUint64(p *uint64, m uint64) (old uint64) {
	mc.AtomicOp("atomic.And", unsafe.Pointer(p), mc.Write, func() { old = *p; *p &= m })
	return
}
func OrUint64(p *uint64, m uint64) (old uint64) {
	mc.AtomicOp("atomic.Or", unsafe.Pointer(p), mc.Write, func() { old = *p; *p |= m })
	return
}

type Uint64 struct{ v uint64 }

func (x *Uint64) Load() uint64                    { return LoadUint64(&x.v) }
func (x *Uint64) Store(v uint64)                  { StoreUint64(&x.v, v) }
func (x *Uint64) Add(d uint64) uint64             { return AddUint64(&x.v, d) }
func (x *Uint64) Swap(n uint64) uint64            { return SwapUint64(&x.v, n) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool { return CompareAndSwapUint64(&x.v, o, n) }
func (x *Uint64) And(m uint64) uint64             { return AndUint64(&x.v, m) }
func (x *Uint64) Or(m uint64) uint64              { return OrUint64(&x.v, m) }

func LoadUintptr(p *uintptr) (v uintptr) {
	mc.AtomicOp("atomic.Load", unsafe.Pointer(p), mc.Read, func() { v = *p })
	return
}
func StoreUintptr(p *uintptr, v uintptr) {
	mc.AtomicOp("atomic.Store", unsafe.Pointer(p), mc.Write, func() { *p = v })
}
func AddUintptr(p *uintptr, d uintptr) (v uintptr) {
	mc.AtomicOp("atomic.Add", unsafe.Pointer(p), mc.Write, func() { *p += d; v = *p })
	return
}
func SwapUintptr(p *uintptr, n uintptr) (v uintptr) {
	mc.AtomicOp("atomic.Swap", unsafe.Pointer(p), mc.Write, func() { v = *p; *p = n })
	return
}
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) (ok bool) {
	mc.AtomicOp("atomic.CompareAndSwap", unsafe.Pointer(p), mc.Write, func() {
		if *p == o {
			*p, ok = n, true
		}
	})
	return
}
func AndUintptr(p *uintptr, m uintptr) (old uintptr) {
	mc.AtomicOp("atomic.And", unsafe.Pointer(p), mc.Write, func() { old = *p; *p &= m })
	return
}
func OrUintptr(p *uintptr, m uintptr) (old uintptr) {
	mc.AtomicOp("atomic.Or", unsafe.Pointer(p), mc.Write, func() { old = *p; *p |= m })
	return
}

type Uintptr struct{ v uintptr }

func (x *Uintptr) Load() uintptr                    { return LoadUintptr(&x.v) }
func (x *Uintptr) Store(v uintptr)                  { StoreUintptr(&x.v, v) }
func (x *Uintptr) Add(d uintptr) uintptr            { return AddUintptr(&x.v, d) }
func (x *Uintptr) Swap(n uintptr) uintptr           { return SwapUintptr(&x.v, n) }
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool { return CompareAndSwapUintptr(&x.v, o, n) }
func (x *Uintptr) And(m uintptr) uintptr            { return AndUintptr(&x.v, m) }
func (x *Uintptr) Or(m uintptr) uintptr             { return OrUintptr(&x.v, m) }

func LoadPointer(p *unsafe.Pointer) (v unsafe.Pointer) {
	mc.AtomicOp("atomic.Load", unsafe.Pointer(p), mc.Read, func() { v = *p })
	return
}
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) {
	mc.AtomicOp("atomic.Store", unsafe.Pointer(p), mc.Write, func() { *p = v })
}
func SwapPointer(p *unsafe.Pointer, n unsafe.Pointer) (v unsafe.Pointer) {
	mc.AtomicOp("atomic.Swap", unsafe.Pointer(p), mc.Write, func() { v = *p; *p = n })
	return
}
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) (ok bool) {
	mc.AtomicOp("atomic.CompareAndSwap", unsafe.Pointer(p), mc.Write, func() {
		if *p == o {
			*p, ok = n, true
		}
	})
	return
}

type Bool struct{ v bool }

func (x *Bool) Load() (v bool) {
	mc.AtomicOp("atomic.Load", unsafe.Pointer(x), mc.Read, func() { v = x.v })
	return
}
func (x *Bool) Store(v bool) {
	mc.AtomicOp("atomic.Store", unsafe.Pointer(x), mc.Write, func() { x.v = v })
}
func (x *Bool) Swap(n bool) (v bool) {
	mc.AtomicOp("atomic.Swap", unsafe.Pointer(x), mc.Write, func() { v = x.v; x.v = n })
	return
}
func (x *Bool) CompareAndSwap(o, n bool) (ok bool) {
	mc.AtomicOp("atomic.CompareAndSwap", unsafe.Pointer(x), mc.Write, func() {
		if x.v == o {
			x.v, ok = n, true
		}
	})
	return
}

type Pointer[T any] struct{ v *T }

func (x *Pointer[T]) Load() (v *T) {
	mc.AtomicOp("atomic.Pointer.Load", unsafe.Pointer(x), mc.Read, func() { v = x.v })
	return
}
func (x *Pointer[T]) Store(v *T) {
	mc.AtomicOp("atomic.Pointer.Store", unsafe.Pointer(x), mc.Write, func() { x.v = v })
}
func (x *Pointer[T]) Swap(n *T) (v *T) {
	mc.AtomicOp("atomic.Pointer.Swap", unsafe.Pointer(x), mc.Write, func() { v = x.v; x.v = n })
	return
}
func (x *Pointer[T]) CompareAndSwap(o, n *T) (ok bool) {
	mc.AtomicOp("atomic.Pointer.CompareAndSwap", unsafe.Pointer(x), mc.Write, func() {
		if x.v == o {
			x.v, ok = n, true
		}
	})
	return
}

type Value struct{ v any }

func (x *Value) Load() (v any) {
	mc.AtomicOp("atomic.Value.Load", unsafe.Pointer(x), mc.Read, func() { v = x.v })
	return
}
func (x *Value) Store(v any) {
	if v == nil {
		panic("sync/atomic: store of nil value into Value")
	}
	mc.AtomicOp("atomic.Value.Store", unsafe.Pointer(x), mc.Write, func() { x.v = v })
}
func (x *Value) Swap(n any) (v any) {
	if n == nil {
		panic("sync/atomic: swap of nil value into Value")
	}
	mc.AtomicOp("atomic.Value.Swap", unsafe.Pointer(x), mc.Write, func() { v = x.v; x.v = n })
	return
}
func (x *Value) CompareAndSwap(o, n any) (ok bool) {
	if n == nil {
		panic("sync/atomic: compare and swap of nil value into Value")
	}
	mc.AtomicOp("atomic.Value.CompareAndSwap", unsafe.Pointer(x), mc.Write, func() {
		if x.v == o {
			x.v, ok = n, true
		}
	})
	return
}
