// Package sync replaces the standard package in the instrumented copy of the
// code under test: same API, blocking decided by the simulated scheduler.
package sync

import (
	"sync"
	"watersim/simrt"
)

type (
	Mutex     = simrt.Mutex
	RWMutex   = simrt.RWMutex
	WaitGroup = simrt.WaitGroup
	Once      = simrt.Once
	Pool      = simrt.Pool
	Cond      = simrt.Cond
	Map       = sync.Map
	Locker    = sync.Locker
)

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var o Once
	var a A
	var b B
	return func() (A, B) { o.Do(func() { a, b = f() }); return a, b }
}
