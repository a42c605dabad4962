// Package context replaces the standard package in simulated code.
package context

import (
	"context"
	"time"

	rt "github.com/sisu-network/dheart/zzsim/rt"
)

type (
	Context    = context.Context
	CancelFunc = context.CancelFunc
)

var (
	Canceled         = context.Canceled
	DeadlineExceeded = context.DeadlineExceeded
	Background       = context.Background
	TODO             = context.TODO
	WithValue        = context.WithValue
)

type cancelCtx struct {
	Context
	done     chan struct{}
	err      error
	kids     []*cancelCtx
	mu       rt.Mutex
	deadline time.Time
	hasDl    bool
	timer    rt.Timer
}

type keyT struct{}

func (c *cancelCtx) Value(k interface{}) interface{} {
	if _, ok := k.(keyT); ok {
		return c
	}
	return c.Context.Value(k)
}
func (c *cancelCtx) Done() <-chan struct{} { return c.done }
func (c *cancelCtx) Err() error            { rt.P(); return c.err }
func (c *cancelCtx) Deadline() (time.Time, bool) {
	if c.hasDl {
		return c.deadline, true
	}
	return c.Context.Deadline()
}

func (c *cancelCtx) cancel(err error) {
	if c.err != nil {
		return
	}
	c.err = err
	c.timer.Stop()
	rt.Close(c.done)
	for _, k := range c.kids {
		k.cancel(err)
	}
	c.kids = nil
}

func newCancel(parent Context) *cancelCtx {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	c := &cancelCtx{Context: parent, done: make(chan struct{})}
	if p, ok := parent.Value(keyT{}).(*cancelCtx); ok {
		if p.err != nil {
			c.cancel(p.err)
		} else {
			p.kids = append(p.kids, c)
		}
	} else if parent.Done() != nil {
		panic("rt: context derived from a real context")
	}
	return c
}

func WithCancel(parent Context) (Context, CancelFunc) {
	c := newCancel(parent)
	return c, func() { c.cancel(Canceled) }
}

func WithDeadline(parent Context, d time.Time) (Context, CancelFunc) {
	return WithTimeout(parent, d.Sub(rt.WallNow()))
}

func WithTimeout(parent Context, d time.Duration) (Context, CancelFunc) {
	c := newCancel(parent)
	dl := rt.WallNow().Add(d)
	if pd, ok := parent.Deadline(); !ok || dl.Before(pd) {
		c.deadline, c.hasDl = dl, true
		if c.err == nil {
			if d <= 0 {
				c.cancel(DeadlineExceeded)
			} else {
				c.timer = rt.AfterNode(d, func() { c.cancel(DeadlineExceeded) })
			}
		}
	}
	return c, func() { c.cancel(Canceled) }
}
