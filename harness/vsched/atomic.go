//go:build go1.25

package verif_vsched

import "sync/atomic"

func AtomicAddInt32(p *int32, d int32) int32  { point("atomic"); return atomic.AddInt32(p, d) }
func AtomicLoadInt32(p *int32) int32          { point("atomic"); return atomic.LoadInt32(p) }
func AtomicStoreInt32(p *int32, v int32)      { point("atomic"); atomic.StoreInt32(p, v) }
func AtomicSwapInt32(p *int32, v int32) int32 { point("atomic"); return atomic.SwapInt32(p, v) }
func AtomicCompareAndSwapInt32(p *int32, o, v int32) bool {
	point("atomic")
	return atomic.CompareAndSwapInt32(p, o, v)
}

type AtomicInt32 struct{ v atomic.Int32 }

func (a *AtomicInt32) Load() int32        { point("atomic"); return a.v.Load() }
func (a *AtomicInt32) Store(x int32)      { point("atomic"); a.v.Store(x) }
func (a *AtomicInt32) Add(x int32) int32  { point("atomic"); return a.v.Add(x) }
func (a *AtomicInt32) Swap(x int32) int32 { point("atomic"); return a.v.Swap(x) }
func (a *AtomicInt32) CompareAndSwap(o, x int32) bool {
	point("atomic")
	return a.v.CompareAndSwap(o, x)
}

func AtomicAddInt64(p *int64, d int64) int64  { point("atomic"); return atomic.AddInt64(p, d) }
func AtomicLoadInt64(p *int64) int64          { point("atomic"); return atomic.LoadInt64(p) }
func AtomicStoreInt64(p *int64, v int64)      { point("atomic"); atomic.StoreInt64(p, v) }
func AtomicSwapInt64(p *int64, v int64) int64 { point("atomic"); return atomic.SwapInt64(p, v) }
func AtomicCompareAndSwapInt64(p *int64, o, v int64) bool {
	point("atomic")
	return atomic.CompareAndSwapInt64(p, o, v)
}

type AtomicInt64 struct{ v atomic.Int64 }

func (a *AtomicInt64) Load() int64        { point("atomic"); return a.v.Load() }
func (a *AtomicInt64) Store(x int64)      { point("atomic"); a.v.Store(x) }
func (a *AtomicInt64) Add(x int64) int64  { point("atomic"); return a.v.Add(x) }
func (a *AtomicInt64) Swap(x int64) int64 { point("atomic"); return a.v.Swap(x) }
func (a *AtomicInt64) CompareAndSwap(o, x int64) bool {
	point("atomic")
	return a.v.CompareAndSwap(o, x)
}

func AtomicAddUint32(p *uint32, d uint32) uint32  { point("atomic"); return atomic.AddUint32(p, d) }
func AtomicLoadUint32(p *uint32) uint32           { point("atomic"); return atomic.LoadUint32(p) }
func AtomicStoreUint32(p *uint32, v uint32)       { point("atomic"); atomic.StoreUint32(p, v) }
func AtomicSwapUint32(p *uint32, v uint32) uint32 { point("atomic"); return atomic.SwapUint32(p, v) }
func AtomicCompareAndSwapUint32(p *uint32, o, v uint32) bool {
	point("atomic")
	return atomic.CompareAndSwapUint32(p, o, v)
}

type AtomicUint32 struct{ v atomic.Uint32 }

func (a *AtomicUint32) Load() uint32         { point("atomic"); return a.v.Load() }
func (a *AtomicUint32) Store(x uint32)       { point("atomic"); a.v.Store(x) }
func (a *AtomicUint32) Add(x uint32) uint32  { point("atomic"); return a.v.Add(x) }
func (a *AtomicUint32) Swap(x uint32) uint32 { point("atomic"); return a.v.Swap(x) }
func (a *AtomicUint32) CompareAndSwap(o, x uint32) bool {
	point("atomic")
	return a.v.CompareAndSwap(o, x)
}

func AtomicAddUint64(p *uint64, d uint64) uint64  { point("atomic"); return atomic.AddUint64(p, d) }
func AtomicLoadUint64(p *uint64) uint64           { point("atomic"); return atomic.LoadUint64(p) }
func AtomicStoreUint64(p *uint64, v uint64)       { point("atomic"); atomic.StoreUint64(p, v) }
func AtomicSwapUint64(p *uint64, v uint64) uint64 { point("atomic"); return atomic.SwapUint64(p, v) }
func AtomicCompareAndSwapUint64(p *uint64, o, v uint64) bool {
	point("atomic")
	return atomic.CompareAndSwapUint64(p, o, v)
}

type AtomicUint64 struct{ v atomic.Uint64 }

func (a *AtomicUint64) Load() uint64         { point("atomic"); return a.v.Load() }
func (a *AtomicUint64) Store(x uint64)       { point("atomic"); a.v.Store(x) }
func (a *AtomicUint64) Add(x uint64) uint64  { point("atomic"); return a.v.Add(x) }
func (a *AtomicUint64) Swap(x uint64) uint64 { point("atomic"); return a.v.Swap(x) }
func (a *AtomicUint64) CompareAndSwap(o, x uint64) bool {
	point("atomic")
	return a.v.CompareAndSwap(o, x)
}

type AtomicBool struct{ v atomic.Bool }

func (a *AtomicBool) Load() bool                    { point("atomic"); return a.v.Load() }
func (a *AtomicBool) Store(x bool)                  { point("atomic"); a.v.Store(x) }
func (a *AtomicBool) Swap(x bool) bool              { point("atomic"); return a.v.Swap(x) }
func (a *AtomicBool) CompareAndSwap(o, x bool) bool { point("atomic"); return a.v.CompareAndSwap(o, x) }

type AtomicValue struct{ v atomic.Value }

func (a *AtomicValue) Load() any                    { point("atomic"); return a.v.Load() }
func (a *AtomicValue) Store(x any)                  { point("atomic"); a.v.Store(x) }
func (a *AtomicValue) Swap(x any) any               { point("atomic"); return a.v.Swap(x) }
func (a *AtomicValue) CompareAndSwap(o, x any) bool { point("atomic"); return a.v.CompareAndSwap(o, x) }

type AtomicPointer[T any] struct{ v atomic.Pointer[T] }

func (a *AtomicPointer[T]) Load() *T     { point("atomic"); return a.v.Load() }
func (a *AtomicPointer[T]) Store(x *T)   { point("atomic"); a.v.Store(x) }
func (a *AtomicPointer[T]) Swap(x *T) *T { point("atomic"); return a.v.Swap(x) }
func (a *AtomicPointer[T]) CompareAndSwap(o, x *T) bool {
	point("atomic")
	return a.v.CompareAndSwap(o, x)
}
