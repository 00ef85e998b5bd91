//go:build go1.21

// Package atomic replaces sync/atomic in the rewritten code.
package atomic

import (
	ra "sync/atomic"
	"unsafe"

	"github.com/rom1mouret/ml-essentials/zzverif/sched"
)

func pt() { sched.AtomicPoint("atomic") }

func AddInt32(p *int32, d int32) int32       { pt(); return ra.AddInt32(p, d) }
func AddInt64(p *int64, d int64) int64       { pt(); return ra.AddInt64(p, d) }
func AddUint32(p *uint32, d uint32) uint32   { pt(); return ra.AddUint32(p, d) }
func AddUint64(p *uint64, d uint64) uint64   { pt(); return ra.AddUint64(p, d) }
func LoadInt32(p *int32) int32               { pt(); return ra.LoadInt32(p) }
func LoadInt64(p *int64) int64               { pt(); return ra.LoadInt64(p) }
func LoadUint32(p *uint32) uint32            { pt(); return ra.LoadUint32(p) }
func LoadUint64(p *uint64) uint64            { pt(); return ra.LoadUint64(p) }
func LoadPointer(p *unsafe.Pointer) unsafe.Pointer { pt(); return ra.LoadPointer(p) }
func StoreInt32(p *int32, v int32)           { pt(); ra.StoreInt32(p, v) }
func StoreInt64(p *int64, v int64)           { pt(); ra.StoreInt64(p, v) }
func StoreUint32(p *uint32, v uint32)        { pt(); ra.StoreUint32(p, v) }
func StoreUint64(p *uint64, v uint64)        { pt(); ra.StoreUint64(p, v) }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { pt(); ra.StorePointer(p, v) }
func SwapInt32(p *int32, v int32) int32      { pt(); return ra.SwapInt32(p, v) }
func SwapInt64(p *int64, v int64) int64      { pt(); return ra.SwapInt64(p, v) }
func SwapUint32(p *uint32, v uint32) uint32  { pt(); return ra.SwapUint32(p, v) }
func SwapUint64(p *uint64, v uint64) uint64  { pt(); return ra.SwapUint64(p, v) }
func CompareAndSwapInt32(p *int32, o, n int32) bool    { pt(); return ra.CompareAndSwapInt32(p, o, n) }
func CompareAndSwapInt64(p *int64, o, n int64) bool    { pt(); return ra.CompareAndSwapInt64(p, o, n) }
func CompareAndSwapUint32(p *uint32, o, n uint32) bool { pt(); return ra.CompareAndSwapUint32(p, o, n) }
func CompareAndSwapUint64(p *uint64, o, n uint64) bool { pt(); return ra.CompareAndSwapUint64(p, o, n) }

type Int32 struct{ v ra.Int32 }

func (x *Int32) Load() int32                    { pt(); return x.v.Load() }
func (x *Int32) Store(v int32)                  { pt(); x.v.Store(v) }
func (x *Int32) Add(d int32) int32              { pt(); return x.v.Add(d) }
func (x *Int32) Swap(v int32) int32             { pt(); return x.v.Swap(v) }
func (x *Int32) CompareAndSwap(o, n int32) bool { pt(); return x.v.CompareAndSwap(o, n) }

type Int64 struct{ v ra.Int64 }

func (x *Int64) Load() int64                    { pt(); return x.v.Load() }
func (x *Int64) Store(v int64)                  { pt(); x.v.Store(v) }
func (x *Int64) Add(d int64) int64              { pt(); return x.v.Add(d) }
func (x *Int64) Swap(v int64) int64             { pt(); return x.v.Swap(v) }
func (x *Int64) CompareAndSwap(o, n int64) bool { pt(); return x.v.CompareAndSwap(o, n) }

type Uint32 struct{ v ra.Uint32 }

func (x *Uint32) Load() uint32                    { pt(); return x.v.Load() }
func (x *Uint32) Store(v uint32)                  { pt(); x.v.Store(v) }
func (x *Uint32) Add(d uint32) uint32             { pt(); return x.v.Add(d) }
func (x *Uint32) Swap(v uint32) uint32            { pt(); return x.v.Swap(v) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool { pt(); return x.v.CompareAndSwap(o, n) }

type Uint64 struct{ v ra.Uint64 }

func (x *Uint64) Load() uint64                    { pt(); return x.v.Load() }
func (x *Uint64) Store(v uint64)                  { pt(); x.v.Store(v) }
func (x *Uint64) Add(d uint64) uint64             { pt(); return x.v.Add(d) }
func (x *Uint64) Swap(v uint64) uint64            { pt(); return x.v.Swap(v) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool { pt(); return x.v.CompareAndSwap(o, n) }

type Bool struct{ v ra.Bool }

func (x *Bool) Load() bool                    { pt(); return x.v.Load() }
func (x *Bool) Store(v bool)                  { pt(); x.v.Store(v) }
func (x *Bool) Swap(v bool) bool              { pt(); return x.v.Swap(v) }
func (x *Bool) CompareAndSwap(o, n bool) bool { pt(); return x.v.CompareAndSwap(o, n) }

type Value struct{ v ra.Value }

func (x *Value) Load() interface{}                    { pt(); return x.v.Load() }
func (x *Value) Store(v interface{})                  { pt(); x.v.Store(v) }
func (x *Value) Swap(v interface{}) interface{}       { pt(); return x.v.Swap(v) }
func (x *Value) CompareAndSwap(o, n interface{}) bool { pt(); return x.v.CompareAndSwap(o, n) }

type Pointer[T any] struct{ v ra.Pointer[T] }

func (x *Pointer[T]) Load() *T                    { pt(); return x.v.Load() }
func (x *Pointer[T]) Store(v *T)                  { pt(); x.v.Store(v) }
func (x *Pointer[T]) Swap(v *T) *T                { pt(); return x.v.Swap(v) }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool { pt(); return x.v.CompareAndSwap(o, n) }
