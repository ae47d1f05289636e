package mc

import (
	"context"
	"time"
)

// ctx replaces the contexts made by context.WithCancel, WithTimeout and WithDeadline.
type ctx struct {
	context.Context // the parent: values
	done            chan struct{}
	err             error
	due             time.Time
	hasDue          bool
	kids            []*ctx
	timer           *Timer
}

type ctxKey struct{}

func (c *ctx) Done() <-chan struct{} { return c.done }

func (c *ctx) Err() error { Point("ctx.Err"); return c.err }

func (c *ctx) Deadline() (time.Time, bool) {
	if c.hasDue {
		return c.due, true
	}
	return c.Context.Deadline()
}

func (c *ctx) Value(k interface{}) interface{} {
	if _, ok := k.(ctxKey); ok {
		return c
	}
	return c.Context.Value(k)
}

func (c *ctx) cancel(err error) {
	if c.err != nil {
		return
	}
	c.err = err
	if c.timer != nil {
		c.timer.Stop()
	}
	Close(c.done)
	for _, k := range c.kids {
		k.cancel(err)
	}
}

func newCtx(p context.Context) *ctx {
	if p == nil {
		panic("cannot create context from nil parent")
	}
	c := &ctx{Context: p, done: make(chan struct{})}
	if up, ok := p.Value(ctxKey{}).(*ctx); ok {
		if up.err != nil {
			c.cancel(up.err)
		} else {
			up.kids = append(up.kids, c)
		}
	}
	return c
}

// WithCancel replaces context.WithCancel.
func WithCancel(p context.Context) (context.Context, context.CancelFunc) {
	if e == nil {
		return context.WithCancel(p)
	}
	c := newCtx(p)
	return c, func() { c.cancel(context.Canceled) }
}

// WithTimeout replaces context.WithTimeout.
func WithTimeout(p context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	if e == nil {
		return context.WithTimeout(p, d)
	}
	c := newCtx(p)
	c.due, c.hasDue = timeBase.Add(e.now+d), true
	if up, ok := p.Deadline(); ok && up.Before(c.due) {
		c.due = up
	}
	if c.err == nil {
		if d <= 0 {
			c.cancel(context.DeadlineExceeded)
		} else {
			c.timer = AfterFunc(d, func() { c.cancel(context.DeadlineExceeded) })
		}
	}
	return c, func() { c.cancel(context.Canceled) }
}

// WithDeadline replaces context.WithDeadline.
func WithDeadline(p context.Context, t time.Time) (context.Context, context.CancelFunc) {
	if e == nil {
		return context.WithDeadline(p, t)
	}
	return WithTimeout(p, Until(t))
}
