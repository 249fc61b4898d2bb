// Package atomic mirrors sync/atomic: a scheduling point before every
// operation, then the real operation (so that a -race build sees it).
package atomic

import (
	"unsafe"

	o_ "sync/atomic"
	"verif/mc"
)

func pt() {
	if mc.S != nil {
		mc.S.Point("atomic")
	}
}

func LoadInt32(a *int32) int32                      { pt(); return o_.LoadInt32(a) }
func StoreInt32(a *int32, v int32)                  { pt(); o_.StoreInt32(a, v) }
func AddInt32(a *int32, d int32) int32              { pt(); return o_.AddInt32(a, d) }
func SwapInt32(a *int32, v int32) int32             { pt(); return o_.SwapInt32(a, v) }
func CompareAndSwapInt32(a *int32, x, y int32) bool { pt(); return o_.CompareAndSwapInt32(a, x, y) }
func AndInt32(a *int32, m int32) int32              { pt(); return o_.AndInt32(a, m) }
func OrInt32(a *int32, m int32) int32               { pt(); return o_.OrInt32(a, m) }

type Int32 struct{ v o_.Int32 }

func (x *Int32) Load() int32                        { pt(); return x.v.Load() }
func (x *Int32) Store(v int32)                      { pt(); x.v.Store(v) }
func (x *Int32) Add(d int32) int32                  { pt(); return x.v.Add(d) }
func (x *Int32) Swap(v int32) int32                 { pt(); return x.v.Swap(v) }
func (x *Int32) CompareAndSwap(o, n int32) bool     { pt(); return x.v.CompareAndSwap(o, n) }
func (x *Int32) And(m int32) int32                  { pt(); return x.v.And(m) }
func (x *Int32) Or(m int32) int32                   { pt(); return x.v.Or(m) }
func LoadInt64(a *int64) int64                      { pt(); return o_.LoadInt64(a) }
func StoreInt64(a *int64, v int64)                  { pt(); o_.StoreInt64(a, v) }
func AddInt64(a *int64, d int64) int64              { pt(); return o_.AddInt64(a, d) }
func SwapInt64(a *int64, v int64) int64             { pt(); return o_.SwapInt64(a, v) }
func CompareAndSwapInt64(a *int64, x, y int64) bool { pt(); return o_.CompareAndSwapInt64(a, x, y) }
func AndInt64(a *int64, m int64) int64              { pt(); return o_.AndInt64(a, m) }
func OrInt64(a *int64, m int64) int64               { pt(); return o_.OrInt64(a, m) }

type Int64 struct{ v o_.Int64 }

func (x *Int64) Load() int64                           { pt(); return x.v.Load() }
func (x *Int64) Store(v int64)                         { pt(); x.v.Store(v) }
func (x *Int64) Add(d int64) int64                     { pt(); return x.v.Add(d) }
func (x *Int64) Swap(v int64) int64                    { pt(); return x.v.Swap(v) }
func (x *Int64) CompareAndSwap(o, n int64) bool        { pt(); return x.v.CompareAndSwap(o, n) }
func (x *Int64) And(m int64) int64                     { pt(); return x.v.And(m) }
func (x *Int64) Or(m int64) int64                      { pt(); return x.v.Or(m) }
func LoadUint32(a *uint32) uint32                      { pt(); return o_.LoadUint32(a) }
func StoreUint32(a *uint32, v uint32)                  { pt(); o_.StoreUint32(a, v) }
func AddUint32(a *uint32, d uint32) uint32             { pt(); return o_.AddUint32(a, d) }
func SwapUint32(a *uint32, v uint32) uint32            { pt(); return o_.SwapUint32(a, v) }
func CompareAndSwapUint32(a *uint32, x, y uint32) bool { pt(); return o_.CompareAndSwapUint32(a, x, y) }
func AndUint32(a *uint32, m uint32) uint32             { pt(); return o_.AndUint32(a, m) }
func OrUint32(a *uint32, m uint32) uint32              { pt(); return o_.OrUint32(a, m) }

type Uint32 struct{ v o_.Uint32 }

func (x *Uint32) Load() uint32                         { pt(); return x.v.Load() }
func (x *Uint32) Store(v uint32)                       { pt(); x.v.Store(v) }
func (x *Uint32) Add(d uint32) uint32                  { pt(); return x.v.Add(d) }
func (x *Uint32) Swap(v uint32) uint32                 { pt(); return x.v.Swap(v) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool      { pt(); return x.v.CompareAndSwap(o, n) }
func (x *Uint32) And(m uint32) uint32                  { pt(); return x.v.And(m) }
func (x *Uint32) Or(m uint32) uint32                   { pt(); return x.v.Or(m) }
func LoadUint64(a *uint64) uint64                      { pt(); return o_.LoadUint64(a) }
func StoreUint64(a *uint64, v uint64)                  { pt(); o_.StoreUint64(a, v) }
func AddUint64(a *uint64, d uint64) uint64             { pt(); return o_.AddUint64(a, d) }
func SwapUint64(a *uint64, v uint64) uint64            { pt(); return o_.SwapUint64(a, v) }
func CompareAndSwapUint64(a *uint64, x, y uint64) bool { pt(); return o_.CompareAndSwapUint64(a, x, y) }
func AndUint64(a *uint64, m uint64) uint64             { pt(); return o_.AndUint64(a, m) }
func OrUint64(a *uint64, m uint64) uint64              { pt(); return o_.OrUint64(a, m) }

type Uint64 struct{ v o_.Uint64 }

func (x *Uint64) Load() uint64                    { pt(); return x.v.Load() }
func (x *Uint64) Store(v uint64)                  { pt(); x.v.Store(v) }
func (x *Uint64) Add(d uint64) uint64             { pt(); return x.v.Add(d) }
func (x *Uint64) Swap(v uint64) uint64            { pt(); return x.v.Swap(v) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool { pt(); return x.v.CompareAndSwap(o, n) }
func (x *Uint64) And(m uint64) uint64             { pt(); return x.v.And(m) }
func (x *Uint64) Or(m uint64) uint64              { pt(); return x.v.Or(m) }
func LoadUintptr(a *uintptr) uintptr              { pt(); return o_.LoadUintptr(a) }
func StoreUintptr(a *uintptr, v uintptr)          { pt(); o_.StoreUintptr(a, v) }
func AddUintptr(a *uintptr, d uintptr) uintptr    { pt(); return o_.AddUintptr(a, d) }
func SwapUintptr(a *uintptr, v uintptr) uintptr   { pt(); return o_.SwapUintptr(a, v) }
func CompareAndSwapUintptr(a *uintptr, x, y uintptr) bool {
	pt()
	return o_.CompareAndSwapUintptr(a, x, y)
}
func AndUintptr(a *uintptr, m uintptr) uintptr { pt(); return o_.AndUintptr(a, m) }
func OrUintptr(a *uintptr, m uintptr) uintptr  { pt(); return o_.OrUintptr(a, m) }

type Uintptr struct{ v o_.Uintptr }

func (x *Uintptr) Load() uintptr                    { pt(); return x.v.Load() }
func (x *Uintptr) Store(v uintptr)                  { pt(); x.v.Store(v) }
func (x *Uintptr) Add(d uintptr) uintptr            { pt(); return x.v.Add(d) }
func (x *Uintptr) Swap(v uintptr) uintptr           { pt(); return x.v.Swap(v) }
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool { pt(); return x.v.CompareAndSwap(o, n) }
func (x *Uintptr) And(m uintptr) uintptr            { pt(); return x.v.And(m) }
func (x *Uintptr) Or(m uintptr) uintptr             { pt(); return x.v.Or(m) }

func LoadPointer(a *unsafe.Pointer) unsafe.Pointer     { pt(); return o_.LoadPointer(a) }
func StorePointer(a *unsafe.Pointer, v unsafe.Pointer) { pt(); o_.StorePointer(a, v) }
func SwapPointer(a *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	pt()
	return o_.SwapPointer(a, v)
}
func CompareAndSwapPointer(a *unsafe.Pointer, x, y unsafe.Pointer) bool {
	pt()
	return o_.CompareAndSwapPointer(a, x, y)
}

type Bool struct{ v o_.Bool }

func (x *Bool) Load() bool                    { pt(); return x.v.Load() }
func (x *Bool) Store(v bool)                  { pt(); x.v.Store(v) }
func (x *Bool) Swap(v bool) bool              { pt(); return x.v.Swap(v) }
func (x *Bool) CompareAndSwap(o, n bool) bool { pt(); return x.v.CompareAndSwap(o, n) }

type Value struct{ v o_.Value }

func (x *Value) Load() any                    { pt(); return x.v.Load() }
func (x *Value) Store(v any)                  { pt(); x.v.Store(v) }
func (x *Value) Swap(v any) any               { pt(); return x.v.Swap(v) }
func (x *Value) CompareAndSwap(o, n any) bool { pt(); return x.v.CompareAndSwap(o, n) }

type Pointer[T any] struct{ v o_.Pointer[T] }

func (x *Pointer[T]) Load() *T                    { pt(); return x.v.Load() }
func (x *Pointer[T]) Store(v *T)                  { pt(); x.v.Store(v) }
func (x *Pointer[T]) Swap(v *T) *T                { pt(); return x.v.Swap(v) }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool { pt(); return x.v.CompareAndSwap(o, n) }
