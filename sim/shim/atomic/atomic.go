// Package atomic stands in for sync/atomic in instrumented code. The simulator runs
// one task at a time, so plain operations are atomic; happens-before is annotated.
package atomic

import (
	"unsafe"

	"verif.local/sim/rt"
)

func pt(p unsafe.Pointer) {
	if rt.W == nil || rt.Dying() {
		return
	}
	rt.W.Pause()
	rt.RaceAcq((*byte)(p))
	rt.RaceRel((*byte)(p))
}

func AddInt32(p *int32, d int32) int32                 { pt(unsafe.Pointer(p)); *p += d; return *p }
func AddInt64(p *int64, d int64) int64                 { pt(unsafe.Pointer(p)); *p += d; return *p }
func AddUint32(p *uint32, d uint32) uint32             { pt(unsafe.Pointer(p)); *p += d; return *p }
func AddUint64(p *uint64, d uint64) uint64             { pt(unsafe.Pointer(p)); *p += d; return *p }
func LoadInt32(p *int32) int32                         { pt(unsafe.Pointer(p)); return *p }
func LoadInt64(p *int64) int64                         { pt(unsafe.Pointer(p)); return *p }
func LoadUint32(p *uint32) uint32                      { pt(unsafe.Pointer(p)); return *p }
func LoadUint64(p *uint64) uint64                      { pt(unsafe.Pointer(p)); return *p }
func LoadPointer(p *unsafe.Pointer) unsafe.Pointer     { pt(unsafe.Pointer(p)); return *p }
func StoreInt32(p *int32, v int32)                     { pt(unsafe.Pointer(p)); *p = v }
func StoreInt64(p *int64, v int64)                     { pt(unsafe.Pointer(p)); *p = v }
func StoreUint32(p *uint32, v uint32)                  { pt(unsafe.Pointer(p)); *p = v }
func StoreUint64(p *uint64, v uint64)                  { pt(unsafe.Pointer(p)); *p = v }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { pt(unsafe.Pointer(p)); *p = v }
func SwapInt32(p *int32, v int32) int32                { pt(unsafe.Pointer(p)); o := *p; *p = v; return o }
func SwapInt64(p *int64, v int64) int64                { pt(unsafe.Pointer(p)); o := *p; *p = v; return o }
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	pt(unsafe.Pointer(p))
	if *p == o {
		*p = n
		return true
	}
	return false
}
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	pt(unsafe.Pointer(p))
	if *p == o {
		*p = n
		return true
	}
	return false
}
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	pt(unsafe.Pointer(p))
	if *p == o {
		*p = n
		return true
	}
	return false
}
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	pt(unsafe.Pointer(p))
	if *p == o {
		*p = n
		return true
	}
	return false
}
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	pt(unsafe.Pointer(p))
	if *p == o {
		*p = n
		return true
	}
	return false
}

type cell[T comparable] struct{ v T }

func (c *cell[T]) Load() T   { pt(unsafe.Pointer(c)); return c.v }
func (c *cell[T]) Store(v T) { pt(unsafe.Pointer(c)); c.v = v }
func (c *cell[T]) Swap(v T) T {
	pt(unsafe.Pointer(c))
	o := c.v
	c.v = v
	return o
}
func (c *cell[T]) CompareAndSwap(o, n T) bool {
	pt(unsafe.Pointer(c))
	if c.v == o {
		c.v = n
		return true
	}
	return false
}

type Bool struct{ cell[bool] }
type Int32 struct{ cell[int32] }
type Int64 struct{ cell[int64] }
type Uint32 struct{ cell[uint32] }
type Uint64 struct{ cell[uint64] }
type Uintptr struct{ cell[uintptr] }

func (c *Int32) Add(d int32) int32    { pt(unsafe.Pointer(c)); c.v += d; return c.v }
func (c *Int64) Add(d int64) int64    { pt(unsafe.Pointer(c)); c.v += d; return c.v }
func (c *Uint32) Add(d uint32) uint32 { pt(unsafe.Pointer(c)); c.v += d; return c.v }
func (c *Uint64) Add(d uint64) uint64 { pt(unsafe.Pointer(c)); c.v += d; return c.v }

type Pointer[T any] struct{ v *T }

func (c *Pointer[T]) Load() *T   { pt(unsafe.Pointer(c)); return c.v }
func (c *Pointer[T]) Store(v *T) { pt(unsafe.Pointer(c)); c.v = v }
func (c *Pointer[T]) Swap(v *T) *T {
	pt(unsafe.Pointer(c))
	o := c.v
	c.v = v
	return o
}
func (c *Pointer[T]) CompareAndSwap(o, n *T) bool {
	pt(unsafe.Pointer(c))
	if c.v == o {
		c.v = n
		return true
	}
	return false
}

type Value struct{ v interface{} }

func (c *Value) Load() interface{}   { pt(unsafe.Pointer(c)); return c.v }
func (c *Value) Store(v interface{}) { pt(unsafe.Pointer(c)); c.v = v }
func (c *Value) Swap(v interface{}) interface{} {
	pt(unsafe.Pointer(c))
	o := c.v
	c.v = v
	return o
}
func (c *Value) CompareAndSwap(o, n interface{}) bool {
	pt(unsafe.Pointer(c))
	if c.v == o {
		c.v = n
		return true
	}
	return false
}
