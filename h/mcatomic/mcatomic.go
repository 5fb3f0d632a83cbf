//go:build go1.21

// Package mcatomic stands in for sync/atomic.
package mcatomic

import "github.com/sjansen/pgutil/internal/zzverif/mc"

var objs = map[any]*mc.Obj{}
var owner *mc.Exec

func obj(p any) *mc.Obj {
	if owner != mc.Current() {
		owner, objs = mc.Current(), map[any]*mc.Obj{}
	}
	o := objs[p]
	if o == nil {
		o = &mc.Obj{}
		objs[p] = o
	}
	return o
}

type integer interface {
	~int32 | ~int64 | ~uint32 | ~uint64 | ~uintptr
}

func add[T integer](p *T, d T) (r T) {
	obj(p).Atomic("atomic.Add", func() { *p += d; r = *p })
	return
}
func load[T any](p *T) (r T) {
	obj(p).Atomic("atomic.Load", func() { r = *p })
	return
}
func store[T any](p *T, v T) { obj(p).Atomic("atomic.Store", func() { *p = v }) }
func swap[T any](p *T, v T) (r T) {
	obj(p).Atomic("atomic.Swap", func() { r = *p; *p = v })
	return
}
func cas[T comparable](p *T, o, n T) (ok bool) {
	obj(p).Atomic("atomic.CAS", func() {
		if *p == o {
			*p = n
			ok = true
		}
	})
	return
}

func AddInt32(p *int32, d int32) int32                 { return add(p, d) }
func AddInt64(p *int64, d int64) int64                 { return add(p, d) }
func AddUint32(p *uint32, d uint32) uint32             { return add(p, d) }
func AddUint64(p *uint64, d uint64) uint64             { return add(p, d) }
func LoadInt32(p *int32) int32                         { return load(p) }
func LoadInt64(p *int64) int64                         { return load(p) }
func LoadUint32(p *uint32) uint32                      { return load(p) }
func LoadUint64(p *uint64) uint64                      { return load(p) }
func StoreInt32(p *int32, v int32)                     { store(p, v) }
func StoreInt64(p *int64, v int64)                     { store(p, v) }
func StoreUint32(p *uint32, v uint32)                  { store(p, v) }
func StoreUint64(p *uint64, v uint64)                  { store(p, v) }
func SwapInt32(p *int32, v int32) int32                { return swap(p, v) }
func SwapInt64(p *int64, v int64) int64                { return swap(p, v) }
func SwapUint32(p *uint32, v uint32) uint32            { return swap(p, v) }
func SwapUint64(p *uint64, v uint64) uint64            { return swap(p, v) }
func CompareAndSwapInt32(p *int32, o, n int32) bool    { return cas(p, o, n) }
func CompareAndSwapInt64(p *int64, o, n int64) bool    { return cas(p, o, n) }
func CompareAndSwapUint32(p *uint32, o, n uint32) bool { return cas(p, o, n) }
func CompareAndSwapUint64(p *uint64, o, n uint64) bool { return cas(p, o, n) }

// Num is an atomic integer.
type Num[T integer] struct {
	v T
	o mc.Obj
}

func (x *Num[T]) Add(d T) (r T) {
	x.o.Atomic("atomic.Add", func() { x.v += d; r = x.v })
	return
}
func (x *Num[T]) Load() (r T) {
	x.o.Atomic("atomic.Load", func() { r = x.v })
	return
}
func (x *Num[T]) Store(v T) { x.o.Atomic("atomic.Store", func() { x.v = v }) }
func (x *Num[T]) Swap(v T) (r T) {
	x.o.Atomic("atomic.Swap", func() { r = x.v; x.v = v })
	return
}
func (x *Num[T]) CompareAndSwap(o, n T) (ok bool) {
	x.o.Atomic("atomic.CAS", func() {
		if x.v == o {
			x.v, ok = n, true
		}
	})
	return
}

type (
	Int32  = Num[int32]
	Int64  = Num[int64]
	Uint32 = Num[uint32]
	Uint64 = Num[uint64]
)

// Bool is an atomic bool.
type Bool struct {
	v bool
	o mc.Obj
}

func (x *Bool) Load() (r bool) {
	x.o.Atomic("atomic.Load", func() { r = x.v })
	return
}
func (x *Bool) Store(v bool) { x.o.Atomic("atomic.Store", func() { x.v = v }) }
func (x *Bool) Swap(v bool) (r bool) {
	x.o.Atomic("atomic.Swap", func() { r = x.v; x.v = v })
	return
}
func (x *Bool) CompareAndSwap(o, n bool) (ok bool) {
	x.o.Atomic("atomic.CAS", func() {
		if x.v == o {
			x.v, ok = n, true
		}
	})
	return
}

// Value is atomic.Value.
type Value struct {
	v any
	o mc.Obj
}

func (x *Value) Load() (r any) {
	x.o.Atomic("atomic.Load", func() { r = x.v })
	return
}
func (x *Value) Store(v any) { x.o.Atomic("atomic.Store", func() { x.v = v }) }

// Pointer is atomic.Pointer.
type Pointer[T any] struct {
	v *T
	o mc.Obj
}

func (x *Pointer[T]) Load() (r *T) {
	x.o.Atomic("atomic.Load", func() { r = x.v })
	return
}
func (x *Pointer[T]) Store(v *T) { x.o.Atomic("atomic.Store", func() { x.v = v }) }
func (x *Pointer[T]) Swap(v *T) (r *T) {
	x.o.Atomic("atomic.Swap", func() { r = x.v; x.v = v })
	return
}
func (x *Pointer[T]) CompareAndSwap(o, n *T) (ok bool) {
	x.o.Atomic("atomic.CAS", func() {
		if x.v == o {
			x.v, ok = n, true
		}
	})
	return
}
