//go:build go1.21

package simrt

import (
	"context"
	"errors"
	"time"
)

type ctxKey struct{}

// simCtx is a cancellable context on simulated channels and time.
type simCtx struct {
	parent   context.Context
	done     chan struct{}
	err      error
	cause    error
	children []*simCtx
	funcs    []*ctxFunc
	up       *simCtx
	deadline time.Time
	hasDL    bool
	timer    *timerEnt
}

type ctxFunc struct {
	f       func()
	stopped bool
}

func (c *simCtx) Deadline() (time.Time, bool) {
	if c.hasDL {
		return c.deadline, true
	}
	return c.parent.Deadline()
}
func (c *simCtx) Done() <-chan struct{} { return c.done }
func (c *simCtx) Err() error            { return c.err }
func (c *simCtx) Value(k interface{}) interface{} {
	if _, ok := k.(ctxKey); ok {
		return c
	}
	return c.parent.Value(k)
}

// AfterFunc lets contexts of the standard library hang off a simulated one.
func (c *simCtx) AfterFunc(f func()) func() bool {
	if c.err != nil {
		f()
		return func() bool { return false }
	}
	e := &ctxFunc{f: f}
	c.funcs = append(c.funcs, e)
	return func() bool {
		was := !e.stopped
		e.stopped = true
		return was
	}
}

func (c *simCtx) cancel(err, cause error) {
	if c.err != nil {
		return
	}
	if cause == nil {
		cause = err
	}
	c.err, c.cause = err, cause
	if R != nil {
		closeNow(R, c.done)
		R.delTimer(c.timer)
	} else {
		close(c.done)
	}
	ch := c.children
	c.children = nil
	for _, k := range ch {
		k.cancel(err, cause)
	}
	fs := c.funcs
	c.funcs = nil
	for _, f := range fs {
		if !f.stopped {
			f.stopped = true
			f.f()
		}
	}
	if c.up != nil {
		for i, k := range c.up.children {
			if k == c {
				c.up.children = append(append([]*simCtx{}, c.up.children[:i]...), c.up.children[i+1:]...)
				break
			}
		}
	}
}

func newCtx(parent context.Context) *simCtx {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	c := &simCtx{parent: parent, done: make(chan struct{})}
	if p, ok := parent.Value(ctxKey{}).(*simCtx); ok && p.done == doneOf(parent) {
		if p.err != nil {
			c.cancel(p.err, p.cause)
			return c
		}
		c.up = p
		p.children = append(p.children, c)
		return c
	}
	if parent.Done() != nil {
		// Someone else's context.
		if parent.Err() != nil {
			c.cancel(parent.Err(), context.Cause(parent))
		} else if R != nil {
			R.newTask("foreign context", func() {
				Select(false, RecvCase(parent.Done()), RecvCase((<-chan struct{})(c.done)))
				c.cancel(parent.Err(), nil)
			})
		}
	}
	return c
}

func doneOf(c context.Context) chan struct{} {
	// The Done channel identifies the simulated context below value contexts.
	if s, ok := c.Value(ctxKey{}).(*simCtx); ok && (<-chan struct{})(s.done) == c.Done() {
		return s.done
	}
	return nil
}

func WithCancel(parent context.Context) (context.Context, context.CancelFunc) {
	c := newCtx(parent)
	return c, func() {
		c.cancel(context.Canceled, nil)
		if R != nil {
			R.yield()
		}
	}
}

func WithCancelCause(parent context.Context) (context.Context, context.CancelCauseFunc) {
	c := newCtx(parent)
	return c, func(cause error) {
		c.cancel(context.Canceled, cause)
		if R != nil {
			R.yield()
		}
	}
}

func WithDeadlineCause(parent context.Context, d time.Time, cause error) (context.Context, context.CancelFunc) {
	c := newCtx(parent)
	if cur, ok := parent.Deadline(); !ok || d.Before(cur) {
		c.deadline, c.hasDL = d, true
		if c.err == nil && R != nil {
			left := d.Sub(Now())
			if left <= 0 {
				c.cancel(context.DeadlineExceeded, cause)
			} else {
				c.timer = R.addTimer(R.now+int64(left), func() { c.cancel(context.DeadlineExceeded, cause) })
			}
		}
	}
	return c, func() {
		c.cancel(context.Canceled, nil)
		if R != nil {
			R.yield()
		}
	}
}

func WithDeadline(parent context.Context, d time.Time) (context.Context, context.CancelFunc) {
	return WithDeadlineCause(parent, d, nil)
}

func WithTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	return WithDeadline(parent, Now().Add(d))
}

func WithTimeoutCause(parent context.Context, d time.Duration, cause error) (context.Context, context.CancelFunc) {
	return WithDeadlineCause(parent, Now().Add(d), cause)
}

// CtxAfterFunc replaces context.AfterFunc.
func CtxAfterFunc(ctx context.Context, f func()) func() bool {
	c, ok := ctx.Value(ctxKey{}).(*simCtx)
	if !ok || R == nil {
		return context.AfterFunc(ctx, f)
	}
	return c.AfterFunc(func() { R.newTask("context func", f) })
}

// Cause replaces context.Cause.
func Cause(ctx context.Context) error {
	if c, ok := ctx.Value(ctxKey{}).(*simCtx); ok {
		if ctx.Err() == nil {
			return nil
		}
		return c.cause
	}
	return context.Cause(ctx)
}

// ErrAborted marks results of a run that ended early.
var ErrAborted = errors.New("simulation over")
