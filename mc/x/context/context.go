// Package context mirrors the standard package on virtual time: contexts made
// here implement the real interface; their Done channels are known to mc.
package context

import (
	o_ "context"
	"time"

	"verif/mc"
)

// Ctx is a cancellable context.
type Ctx struct {
	o_.Context
	Sim      *mc.Chan[struct{}]
	real     chan struct{}
	err      error
	cause    error
	deadline time.Time
	has      bool
	kids     []*Ctx
	timer    *mc.Timer
}

func (c *Ctx) Done() <-chan struct{} { return c.real }
func (c *Ctx) Err() error            { return c.err }
func (c *Ctx) Deadline() (time.Time, bool) {
	if c.has {
		return c.deadline, true
	}
	return c.Context.Deadline()
}

type ctxKey struct{}

func (c *Ctx) Value(k any) any {
	if _, ok := k.(ctxKey); ok {
		return c
	}
	return c.Context.Value(k)
}

// Of returns the nearest controlled context.
func Of(c o_.Context) *Ctx {
	x, _ := c.Value(ctxKey{}).(*Ctx)
	return x
}

func (c *Ctx) cancel(err, cause error) {
	if c.err != nil {
		return
	}
	c.err = err
	if cause == nil {
		cause = err
	}
	c.cause = cause
	if c.timer != nil {
		c.timer.Stop()
	}
	c.Sim.Close()
	close(c.real)
	for _, k := range c.kids {
		k.cancel(err, cause)
	}
}

func newCtx(p o_.Context) *Ctx {
	c := &Ctx{Context: p, Sim: mc.MakeChan[struct{}](0), real: make(chan struct{})}
	mc.RegisterWrap((<-chan struct{})(c.real), c.Sim)
	if q := Of(p); q != nil {
		if q.err != nil {
			c.cancel(q.err, q.cause)
		} else {
			q.kids = append(q.kids, c)
		}
	}
	return c
}

func WithCancel(p Context) (Context, CancelFunc) {
	c := newCtx(p)
	return c, func() { c.cancel(Canceled, nil) }
}

func WithCancelCause(p Context) (Context, CancelCauseFunc) {
	c := newCtx(p)
	return c, func(e error) { c.cancel(Canceled, e) }
}

func WithDeadline(p Context, d time.Time) (Context, CancelFunc) {
	return WithDeadlineCause(p, d, nil)
}

func WithDeadlineCause(p Context, d time.Time, cause error) (Context, CancelFunc) {
	c := newCtx(p)
	if pd, ok := p.Deadline(); ok && pd.Before(d) {
		return c, func() { c.cancel(Canceled, nil) }
	}
	c.deadline, c.has = d, true
	if c.err == nil {
		c.timer = mc.AfterFunc(mc.Until(d), func() { c.cancel(DeadlineExceeded, cause) })
	}
	return c, func() { c.cancel(Canceled, nil) }
}

func WithTimeout(p Context, d time.Duration) (Context, CancelFunc) {
	return WithDeadline(p, mc.Now().Add(d))
}

func WithTimeoutCause(p Context, d time.Duration, cause error) (Context, CancelFunc) {
	return WithDeadlineCause(p, mc.Now().Add(d), cause)
}

func Cause(p Context) error {
	if c := Of(p); c != nil {
		return c.cause
	}
	return o_.Cause(p)
}
