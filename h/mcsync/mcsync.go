//go:build go1.21

// Package mcsync stands in for sync.
package mcsync

import "github.com/sjansen/pgutil/internal/zzverif/mc"

type (
	Mutex     = mc.Mutex
	RWMutex   = mc.RWMutex
	WaitGroup = mc.WaitGroup
	Once      = mc.Once
	Cond      = mc.Cond
	Map       = mc.Map
	Pool      = mc.Pool
	Locker    = mc.Locker
)

// NewCond makes a Cond.
func NewCond(l Locker) *Cond { return mc.NewCond(l) }

// OnceFunc is sync.OnceFunc.
func OnceFunc(f func()) func() { return mc.OnceFunc(f) }
