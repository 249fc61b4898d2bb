// Package sync mirrors the standard package, under the controlled scheduler.
package sync

import "verif/mc"

type Mutex = mc.Mutex
type RWMutex = mc.RWMutex
type WaitGroup = mc.WaitGroup
type Once = mc.Once
type Cond = mc.Cond
type Map = mc.Map
type Pool = mc.Pool
type Locker = mc.Locker

func NewCond(l Locker) *Cond                                   { return mc.NewCond(l) }
func OnceFunc(f func()) func()                                 { return mc.OnceFunc(f) }
func OnceValue[T any](f func() T) func() T                     { return mc.OnceValue(f) }
func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) { return mc.OnceValues(f) }
