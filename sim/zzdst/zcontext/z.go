//go:build go1.21

// Package context stands in for the standard package under simulation.
package context

import (
	"errors"
	"time"

	"github.com/wearelumenai/distclus/zzdst"
)

type Context interface {
	Deadline() (deadline time.Time, ok bool)
	Done() *zzdst.Chan[struct{}]
	Err() error
	Value(key any) any
}

type (
	CancelFunc      func()
	CancelCauseFunc func(error)
)

var (
	Canceled         = errors.New("context canceled")
	DeadlineExceeded = errors.New("context deadline exceeded")
)

type ctx struct {
	parent   Context
	done     *zzdst.Chan[struct{}]
	mu       zzdst.Mutex
	err      error
	cause    error
	detached bool
	after    func()
	children []*ctx
	dl       time.Time
	hasDL    bool
	k, v     any
}

type empty struct{}

func (empty) Deadline() (t time.Time, ok bool) { return }
func (empty) Done() *zzdst.Chan[struct{}]      { return nil }
func (empty) Err() error                       { return nil }
func (empty) Value(any) any                    { return nil }

func Background() Context { return empty{} }
func TODO() Context       { return empty{} }

func (c *ctx) Deadline() (time.Time, bool) {
	if c.hasDL {
		return c.dl, true
	}
	return c.parent.Deadline()
}
func (c *ctx) Done() *zzdst.Chan[struct{}] {
	if c.done != nil {
		return c.done
	}
	return c.parent.Done()
}
func (c *ctx) Err() error {
	if c.done == nil {
		return c.parent.Err()
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.err
}
func (c *ctx) Value(k any) any {
	if c.k != nil && c.k == k {
		return c.v
	}
	return c.parent.Value(k)
}

func (c *ctx) cancel(err, cause error) bool {
	c.mu.Lock()
	if c.err != nil {
		c.mu.Unlock()
		return false
	}
	if cause == nil {
		cause = err
	}
	c.err, c.cause = err, cause
	ch := c.children
	c.mu.Unlock()
	c.done.Close(zzdst.CurSite())
	for _, k := range ch {
		k.cancel(err, cause)
	}
	if c.after != nil {
		zzdst.Go(c.after, maxInt(zzdst.CurSite(), 0))
	}
	return true
}

func maxInt(a, b int) int {
	if a > b {
		return a
	}
	return b
}

func nearest(p Context) *ctx {
	for {
		c, ok := p.(*ctx)
		if !ok || c.detached {
			return nil
		}
		if c.done != nil {
			return c
		}
		p = c.parent
	}
}

func newCtx(p Context) *ctx {
	c := &ctx{parent: p, done: zzdst.MakeChan[struct{}](0, zzdst.CurSite())}
	link(c)
	return c
}

func link(c *ctx) {
	if c.parent == nil {
		panic("cannot create context from nil parent")
	}
	if a := nearest(c.parent); a != nil {
		a.mu.Lock()
		err, cause := a.err, a.cause
		a.children = append(a.children, c)
		a.mu.Unlock()
		if err != nil {
			c.cancel(err, cause)
		}
		return
	}
	if d := c.parent.Done(); d != nil { // a context of the program's own
		p := c.parent
		zzdst.Go(func() {
			r, o := d.RecvCase(), c.done.RecvCase()
			if zzdst.Select(0, false, r, o) == 0 {
				c.cancel(p.Err(), Cause(p))
			}
		}, maxInt(zzdst.CurSite(), 0))
	}
}

func WithCancel(p Context) (Context, CancelFunc) {
	c := newCtx(p)
	return c, func() { c.cancel(Canceled, nil) }
}

func WithCancelCause(p Context) (Context, CancelCauseFunc) {
	c := newCtx(p)
	return c, func(cause error) { c.cancel(Canceled, cause) }
}

func WithTimeout(p Context, d time.Duration) (Context, CancelFunc) {
	return WithTimeoutCause(p, d, nil)
}

func WithTimeoutCause(p Context, d time.Duration, cause error) (Context, CancelFunc) {
	at := zzdst.TimeNow().Add(d)
	if cur, ok := p.Deadline(); ok && cur.Before(at) {
		return WithCancel(p)
	}
	c := newCtx(p)
	c.dl, c.hasDL = at, true
	if d <= 0 {
		c.cancel(DeadlineExceeded, cause)
		return c, func() {}
	}
	t := zzdst.AfterFunc(d, func() { c.cancel(DeadlineExceeded, cause) })
	return c, func() { t.Stop(); c.cancel(Canceled, nil) }
}

func WithDeadline(p Context, at time.Time) (Context, CancelFunc) {
	return WithTimeout(p, at.Sub(zzdst.TimeNow()))
}

func WithDeadlineCause(p Context, at time.Time, cause error) (Context, CancelFunc) {
	return WithTimeoutCause(p, at.Sub(zzdst.TimeNow()), cause)
}

func WithValue(p Context, k, v any) Context { return &ctx{parent: p, k: k, v: v} }

// WithoutCancel returns a context that keeps the values of p only.
func WithoutCancel(p Context) Context { return &ctx{parent: background{p}, detached: true} }

type background struct{ p Context }

func (background) Deadline() (t time.Time, ok bool) { return }
func (background) Done() *zzdst.Chan[struct{}]      { return nil }
func (background) Err() error                       { return nil }
func (b background) Value(k any) any                { return b.p.Value(k) }

// Cause tells why c was cancelled.
func Cause(c Context) error {
	if a := nearest(c); a != nil {
		a.mu.Lock()
		defer a.mu.Unlock()
		return a.cause
	}
	return c.Err()
}

// AfterFunc calls f in its own goroutine once p is done.
func AfterFunc(p Context, f func()) (stop func() bool) {
	c := &ctx{parent: p, done: zzdst.MakeChan[struct{}](0, zzdst.CurSite()), after: f}
	link(c)
	return func() bool {
		c.mu.Lock()
		if c.err != nil {
			c.mu.Unlock()
			return false
		}
		c.err = Canceled
		c.mu.Unlock()
		return true
	}
}
