// Package context replaces the standard package for instrumented code.
package context

import (
	stdctx "context"
	"simrt/sync"
	"simrt/time"
	"simrt/simrt"
)

type Context = stdctx.Context
type CancelFunc = stdctx.CancelFunc
type CancelCauseFunc = stdctx.CancelCauseFunc

var Canceled = stdctx.Canceled
var DeadlineExceeded = stdctx.DeadlineExceeded

func Background() Context                     { return stdctx.Background() }
func TODO() Context                           { return stdctx.TODO() }
func WithValue(p Context, k, v any) Context   { return &valCtx{p, k, v} }

type valCtx struct {
	Context
	k, v any
}

func (c *valCtx) Value(k any) any {
	if k == c.k {
		return c.v
	}
	return c.Context.Value(k)
}

type cctx struct {
	parent   Context
	mu       sync.Mutex
	done     chan struct{}
	err      error
	cause    error
	kids     []*cctx
	deadline time.Time
	hasDl    bool
	timer    *time.Timer
}

func (c *cctx) Deadline() (time.Time, bool) {
	if c.hasDl {
		return c.deadline, true
	}
	return c.parent.Deadline()
}
func (c *cctx) Done() <-chan struct{} { return c.done }
func (c *cctx) Err() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.err
}
func (c *cctx) Value(k any) any {
	if k == self {
		return c
	}
	return c.parent.Value(k)
}

var self = new(int)

func (c *cctx) cancel(err, cause error) {
	c.mu.Lock()
	if c.err != nil {
		c.mu.Unlock()
		return
	}
	c.err = err
	if cause == nil {
		cause = err
	}
	c.cause = cause
	simrt.Close(c.done)
	kids := c.kids
	c.kids = nil
	t := c.timer
	c.mu.Unlock()
	if t != nil {
		t.Stop()
	}
	for _, k := range kids {
		k.cancel(err, cause)
	}
}

func newC(p Context) *cctx {
	c := &cctx{parent: p, done: make(chan struct{})}
	if pc, ok := p.Value(self).(*cctx); ok {
		pc.mu.Lock()
		if pc.err != nil {
			err, cause := pc.err, pc.cause
			pc.mu.Unlock()
			c.cancel(err, cause)
		} else {
			pc.kids = append(pc.kids, c)
			pc.mu.Unlock()
		}
	}
	return c
}

func WithCancel(p Context) (Context, CancelFunc) {
	c := newC(p)
	return c, func() { c.cancel(Canceled, nil) }
}
func WithCancelCause(p Context) (Context, CancelCauseFunc) {
	c := newC(p)
	return c, func(e error) { c.cancel(Canceled, e) }
}
func WithDeadline(p Context, d time.Time) (Context, CancelFunc) {
	c := newC(p)
	c.deadline, c.hasDl = d, true
	if pd, ok := p.Deadline(); ok && pd.Before(d) {
		c.deadline = pd
	}
	c.timer = time.AfterFunc(time.Until(c.deadline), func() { c.cancel(DeadlineExceeded, nil) })
	return c, func() { c.cancel(Canceled, nil) }
}
func WithTimeout(p Context, d time.Duration) (Context, CancelFunc) {
	return WithDeadline(p, time.Now().Add(d))
}
func Cause(c Context) error {
	if cc, ok := c.Value(self).(*cctx); ok {
		cc.mu.Lock()
		defer cc.mu.Unlock()
		return cc.cause
	}
	return c.Err()
}
