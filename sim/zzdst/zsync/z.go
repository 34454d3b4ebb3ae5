//go:build go1.21

// Package sync stands in for the standard package under simulation.
package sync

import "github.com/wearelumenai/distclus/zzdst"

type (
	Mutex     = zzdst.Mutex
	RWMutex   = zzdst.RWMutex
	WaitGroup = zzdst.WaitGroup
	Once      = zzdst.Once
	Cond      = zzdst.Cond
	Locker    = zzdst.Locker
	Map       = zzdst.SyncMap
	Pool      = zzdst.Pool
)

func NewCond(l Locker) *Cond { return zzdst.NewCond(l) }

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var o Once
	var a A
	var b B
	return func() (A, B) { o.Do(func() { a, b = f() }); return a, b }
}
