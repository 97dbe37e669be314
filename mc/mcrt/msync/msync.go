// Package sync stands in for package sync in instrumented code.
package sync

import (
	"sync"

	"birchmc/mcrt"
)

type (
	Mutex     = mcrt.Mutex
	RWMutex   = mcrt.RWMutex
	WaitGroup = mcrt.WaitGroup
	Once      = mcrt.Once
	Locker    = sync.Locker
	Map       = sync.Map
	Pool      = sync.Pool
	Cond      = sync.Cond
)

func NewCond(l Locker) *Cond                             { return sync.NewCond(l) }
func OnceFunc(f func()) func()                           { return mcrt.OnceFunc(f) }
func OnceValue[T any](f func() T) func() T               { return mcrt.OnceValue(f) }
func OnceValues[T, U any](f func() (T, U)) func() (T, U) { return mcrt.OnceValues(f) }
