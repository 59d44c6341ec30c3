// Package satomic stands in for sync/atomic in controlled native replays: every operation of a
// registered thread waits for its turn in the recorded schedule.
package satomic

import (
	ratomic "sync/atomic"

	"vsa/internal/zzverif/rt"
)

func g() func() { rt.Gate(); return rt.Done }

type Int64 struct{ v ratomic.Int64 }

func (x *Int64) Load() int64             { defer g()(); return x.v.Load() }
func (x *Int64) Store(n int64)           { defer g()(); x.v.Store(n) }
func (x *Int64) Add(n int64) int64      { defer g()(); return x.v.Add(n) }
func (x *Int64) Swap(n int64) int64     { defer g()(); return x.v.Swap(n) }
func (x *Int64) And(n int64) int64      { defer g()(); return x.v.And(n) }
func (x *Int64) Or(n int64) int64       { defer g()(); return x.v.Or(n) }
func (x *Int64) CompareAndSwap(a, b int64) bool { defer g()(); return x.v.CompareAndSwap(a, b) }

func LoadInt64(p *int64) int64          { defer g()(); return ratomic.LoadInt64(p) }
func StoreInt64(p *int64, n int64)      { defer g()(); ratomic.StoreInt64(p, n) }
func AddInt64(p *int64, n int64) int64  { defer g()(); return ratomic.AddInt64(p, n) }
func SwapInt64(p *int64, n int64) int64 { defer g()(); return ratomic.SwapInt64(p, n) }
func CompareAndSwapInt64(p *int64, a, b int64) bool {
	defer g()()
	return ratomic.CompareAndSwapInt64(p, a, b)
}

type Int32 struct{ v ratomic.Int32 }

func (x *Int32) Load() int32             { defer g()(); return x.v.Load() }
func (x *Int32) Store(n int32)           { defer g()(); x.v.Store(n) }
func (x *Int32) Add(n int32) int32      { defer g()(); return x.v.Add(n) }
func (x *Int32) Swap(n int32) int32     { defer g()(); return x.v.Swap(n) }
func (x *Int32) And(n int32) int32      { defer g()(); return x.v.And(n) }
func (x *Int32) Or(n int32) int32       { defer g()(); return x.v.Or(n) }
func (x *Int32) CompareAndSwap(a, b int32) bool { defer g()(); return x.v.CompareAndSwap(a, b) }

func LoadInt32(p *int32) int32          { defer g()(); return ratomic.LoadInt32(p) }
func StoreInt32(p *int32, n int32)      { defer g()(); ratomic.StoreInt32(p, n) }
func AddInt32(p *int32, n int32) int32  { defer g()(); return ratomic.AddInt32(p, n) }
func SwapInt32(p *int32, n int32) int32 { defer g()(); return ratomic.SwapInt32(p, n) }
func CompareAndSwapInt32(p *int32, a, b int32) bool {
	defer g()()
	return ratomic.CompareAndSwapInt32(p, a, b)
}

type Uint64 struct{ v ratomic.Uint64 }

func (x *Uint64) Load() uint64             { defer g()(); return x.v.Load() }
func (x *Uint64) Store(n uint64)           { defer g()(); x.v.Store(n) }
func (x *Uint64) Add(n uint64) uint64      { defer g()(); return x.v.Add(n) }
func (x *Uint64) Swap(n uint64) uint64     { defer g()(); return x.v.Swap(n) }
func (x *Uint64) And(n uint64) uint64      { defer g()(); return x.v.And(n) }
func (x *Uint64) Or(n uint64) uint64       { defer g()(); return x.v.Or(n) }
func (x *Uint64) CompareAndSwap(a, b uint64) bool { defer g()(); return x.v.CompareAndSwap(a, b) }

func LoadUint64(p *uint64) uint64          { defer g()(); return ratomic.LoadUint64(p) }
func StoreUint64(p *uint64, n uint64)      { defer g()(); ratomic.StoreUint64(p, n) }
func AddUint64(p *uint64, n uint64) uint64  { defer g()(); return ratomic.AddUint64(p, n) }
func SwapUint64(p *uint64, n uint64) uint64 { defer g()(); return ratomic.SwapUint64(p, n) }
func CompareAndSwapUint64(p *uint64, a, b uint64) bool {
	defer g()()
	return ratomic.CompareAndSwapUint64(p, a, b)
}

type Uint32 struct{ v ratomic.Uint32 }

func (x *Uint32) Load() uint32             { defer g()(); return x.v.Load() }
func (x *Uint32) Store(n uint32)           { defer g()(); x.v.Store(n) }
func (x *Uint32) Add(n uint32) uint32      { defer g()(); return x.v.Add(n) }
func (x *Uint32) Swap(n uint32) uint32     { defer g()(); return x.v.Swap(n) }
func (x *Uint32) And(n uint32) uint32      { defer g()(); return x.v.And(n) }
func (x *Uint32) Or(n uint32) uint32       { defer g()(); return x.v.Or(n) }
func (x *Uint32) CompareAndSwap(a, b uint32) bool { defer g()(); return x.v.CompareAndSwap(a, b) }

func LoadUint32(p *uint32) uint32          { defer g()(); return ratomic.LoadUint32(p) }
func StoreUint32(p *uint32, n uint32)      { defer g()(); ratomic.StoreUint32(p, n) }
func AddUint32(p *uint32, n uint32) uint32  { defer g()(); return ratomic.AddUint32(p, n) }
func SwapUint32(p *uint32, n uint32) uint32 { defer g()(); return ratomic.SwapUint32(p, n) }
func CompareAndSwapUint32(p *uint32, a, b uint32) bool {
	defer g()()
	return ratomic.CompareAndSwapUint32(p, a, b)
}

type Uintptr struct{ v ratomic.Uintptr }

func (x *Uintptr) Load() uintptr             { defer g()(); return x.v.Load() }
func (x *Uintptr) Store(n uintptr)           { defer g()(); x.v.Store(n) }
func (x *Uintptr) Add(n uintptr) uintptr      { defer g()(); return x.v.Add(n) }
func (x *Uintptr) Swap(n uintptr) uintptr     { defer g()(); return x.v.Swap(n) }
func (x *Uintptr) And(n uintptr) uintptr      { defer g()(); return x.v.And(n) }
func (x *Uintptr) Or(n uintptr) uintptr       { defer g()(); return x.v.Or(n) }
func (x *Uintptr) CompareAndSwap(a, b uintptr) bool { defer g()(); return x.v.CompareAndSwap(a, b) }

func LoadUintptr(p *uintptr) uintptr          { defer g()(); return ratomic.LoadUintptr(p) }
func StoreUintptr(p *uintptr, n uintptr)      { defer g()(); ratomic.StoreUintptr(p, n) }
func AddUintptr(p *uintptr, n uintptr) uintptr  { defer g()(); return ratomic.AddUintptr(p, n) }
func SwapUintptr(p *uintptr, n uintptr) uintptr { defer g()(); return ratomic.SwapUintptr(p, n) }
func CompareAndSwapUintptr(p *uintptr, a, b uintptr) bool {
	defer g()()
	return ratomic.CompareAndSwapUintptr(p, a, b)
}

type Bool struct{ v ratomic.Bool }

func (x *Bool) Load() bool                   { defer g()(); return x.v.Load() }
func (x *Bool) Store(n bool)                 { defer g()(); x.v.Store(n) }
func (x *Bool) Swap(n bool) bool             { defer g()(); return x.v.Swap(n) }
func (x *Bool) CompareAndSwap(a, b bool) bool { defer g()(); return x.v.CompareAndSwap(a, b) }

type Pointer[T any] struct{ v ratomic.Pointer[T] }

func (x *Pointer[T]) Load() *T                   { defer g()(); return x.v.Load() }
func (x *Pointer[T]) Store(n *T)                 { defer g()(); x.v.Store(n) }
func (x *Pointer[T]) Swap(n *T) *T               { defer g()(); return x.v.Swap(n) }
func (x *Pointer[T]) CompareAndSwap(a, b *T) bool { defer g()(); return x.v.CompareAndSwap(a, b) }

type Value struct{ v ratomic.Value }

func (x *Value) Load() any                   { defer g()(); return x.v.Load() }
func (x *Value) Store(n any)                 { defer g()(); x.v.Store(n) }
func (x *Value) Swap(n any) any              { defer g()(); return x.v.Swap(n) }
func (x *Value) CompareAndSwap(a, b any) bool { defer g()(); return x.v.CompareAndSwap(a, b) }
