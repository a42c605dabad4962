// Package atomic replaces sync/atomic in simulated code.
package atomic

import (
	"unsafe"

	rt "github.com/sisu-network/dheart/zzsim/rt"
)

func AddInt32(p *int32, d int32) int32  { rt.AtomicPoint(unsafe.Pointer(p)); *p += d; return *p }
func LoadInt32(p *int32) int32          { rt.AtomicPoint(unsafe.Pointer(p)); return *p }
func StoreInt32(p *int32, v int32)      { rt.AtomicPoint(unsafe.Pointer(p)); *p = v }
func SwapInt32(p *int32, v int32) int32 { rt.AtomicPoint(unsafe.Pointer(p)); o := *p; *p = v; return o }
func CompareAndSwapInt32(p *int32, o, v int32) bool {
	rt.AtomicPoint(unsafe.Pointer(p))
	if *p == o {
		*p = v
		return true
	}
	return false
}
func AddInt64(p *int64, d int64) int64  { rt.AtomicPoint(unsafe.Pointer(p)); *p += d; return *p }
func LoadInt64(p *int64) int64          { rt.AtomicPoint(unsafe.Pointer(p)); return *p }
func StoreInt64(p *int64, v int64)      { rt.AtomicPoint(unsafe.Pointer(p)); *p = v }
func SwapInt64(p *int64, v int64) int64 { rt.AtomicPoint(unsafe.Pointer(p)); o := *p; *p = v; return o }
func CompareAndSwapInt64(p *int64, o, v int64) bool {
	rt.AtomicPoint(unsafe.Pointer(p))
	if *p == o {
		*p = v
		return true
	}
	return false
}
func AddUint32(p *uint32, d uint32) uint32 { rt.AtomicPoint(unsafe.Pointer(p)); *p += d; return *p }
func LoadUint32(p *uint32) uint32          { rt.AtomicPoint(unsafe.Pointer(p)); return *p }
func StoreUint32(p *uint32, v uint32)      { rt.AtomicPoint(unsafe.Pointer(p)); *p = v }
func SwapUint32(p *uint32, v uint32) uint32 {
	rt.AtomicPoint(unsafe.Pointer(p))
	o := *p
	*p = v
	return o
}
func CompareAndSwapUint32(p *uint32, o, v uint32) bool {
	rt.AtomicPoint(unsafe.Pointer(p))
	if *p == o {
		*p = v
		return true
	}
	return false
}
func AddUint64(p *uint64, d uint64) uint64 { rt.AtomicPoint(unsafe.Pointer(p)); *p += d; return *p }
func LoadUint64(p *uint64) uint64          { rt.AtomicPoint(unsafe.Pointer(p)); return *p }
func StoreUint64(p *uint64, v uint64)      { rt.AtomicPoint(unsafe.Pointer(p)); *p = v }
func SwapUint64(p *uint64, v uint64) uint64 {
	rt.AtomicPoint(unsafe.Pointer(p))
	o := *p
	*p = v
	return o
}
func CompareAndSwapUint64(p *uint64, o, v uint64) bool {
	rt.AtomicPoint(unsafe.Pointer(p))
	if *p == o {
		*p = v
		return true
	}
	return false
}
func AddUintptr(p *uintptr, d uintptr) uintptr { rt.AtomicPoint(unsafe.Pointer(p)); *p += d; return *p }
func LoadUintptr(p *uintptr) uintptr           { rt.AtomicPoint(unsafe.Pointer(p)); return *p }
func StoreUintptr(p *uintptr, v uintptr)       { rt.AtomicPoint(unsafe.Pointer(p)); *p = v }
func SwapUintptr(p *uintptr, v uintptr) uintptr {
	rt.AtomicPoint(unsafe.Pointer(p))
	o := *p
	*p = v
	return o
}
func CompareAndSwapUintptr(p *uintptr, o, v uintptr) bool {
	rt.AtomicPoint(unsafe.Pointer(p))
	if *p == o {
		*p = v
		return true
	}
	return false
}
func LoadPointer(p *unsafe.Pointer) unsafe.Pointer     { rt.AtomicPoint(unsafe.Pointer(p)); return *p }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { rt.AtomicPoint(unsafe.Pointer(p)); *p = v }
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	rt.AtomicPoint(unsafe.Pointer(p))
	o := *p
	*p = v
	return o
}
func CompareAndSwapPointer(p *unsafe.Pointer, o, v unsafe.Pointer) bool {
	rt.AtomicPoint(unsafe.Pointer(p))
	if *p == o {
		*p = v
		return true
	}
	return false
}

// Value mirrors atomic.Value.
type Value struct{ v interface{} }

func (v *Value) Load() interface{} { rt.AtomicPoint(unsafe.Pointer(v)); return v.v }
func (v *Value) Store(x interface{}) {
	if x == nil {
		panic("sync/atomic: store of nil value into Value")
	}
	rt.AtomicPoint(unsafe.Pointer(v))
	v.v = x
}
func (v *Value) Swap(x interface{}) interface{} {
	if x == nil {
		panic("sync/atomic: swap of nil value into Value")
	}
	rt.AtomicPoint(unsafe.Pointer(v))
	o := v.v
	v.v = x
	return o
}
func (v *Value) CompareAndSwap(o, x interface{}) bool {
	rt.AtomicPoint(unsafe.Pointer(v))
	if v.v == o {
		v.v = x
		return true
	}
	return false
}
