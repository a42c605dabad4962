// Package sync replaces the standard package in simulated code.
package sync

import rt "github.com/sisu-network/dheart/zzsim/rt"

type (
	Locker    = rt.Locker
	Mutex     = rt.Mutex
	RWMutex   = rt.RWMutex
	WaitGroup = rt.WaitGroup
	Once      = rt.Once
	Cond      = rt.Cond
	Pool      = rt.Pool
	Map       = rt.Map
)

func NewCond(l Locker) *Cond { return rt.NewCond(l) }
