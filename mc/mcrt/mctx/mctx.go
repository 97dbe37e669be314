// Package context stands in for package context in instrumented code.
package context

import (
	"context"
	"time"

	"birchmc/mcrt"
)

type (
	Context         = context.Context
	CancelFunc      = context.CancelFunc
	CancelCauseFunc = context.CancelCauseFunc
)

var (
	Canceled         = context.Canceled
	DeadlineExceeded = context.DeadlineExceeded
)

// wrapped makes Err a scheduling point.
type wrapped struct{ context.Context }

func (w wrapped) Err() error {
	mcrt.Pre("ctx.Err")
	return w.Context.Err()
}

func wrap(c Context) Context {
	if w, ok := c.(wrapped); ok {
		return w
	}
	return wrapped{c}
}

func cancelFn(f CancelFunc) CancelFunc {
	return func() {
		mcrt.Pre("cancel")
		f()
	}
}

func Background() Context { return context.Background() }
func TODO() Context       { return context.TODO() }

func WithCancel(p Context) (Context, CancelFunc) {
	c, f := context.WithCancel(p)
	return wrap(c), cancelFn(f)
}

func WithCancelCause(p Context) (Context, CancelCauseFunc) {
	c, f := context.WithCancelCause(p)
	return wrap(c), func(e error) { mcrt.Pre("cancel"); f(e) }
}

func WithTimeout(p Context, d time.Duration) (Context, CancelFunc) {
	c, f := context.WithTimeout(p, d)
	return wrap(c), cancelFn(f)
}

func WithTimeoutCause(p Context, d time.Duration, e error) (Context, CancelFunc) {
	c, f := context.WithTimeoutCause(p, d, e)
	return wrap(c), cancelFn(f)
}

func WithDeadline(p Context, d time.Time) (Context, CancelFunc) {
	c, f := context.WithDeadline(p, d)
	return wrap(c), cancelFn(f)
}

func WithDeadlineCause(p Context, d time.Time, e error) (Context, CancelFunc) {
	c, f := context.WithDeadlineCause(p, d, e)
	return wrap(c), cancelFn(f)
}

func WithValue(p Context, k, v any) Context { return wrap(context.WithValue(p, k, v)) }
func WithoutCancel(p Context) Context       { return wrap(context.WithoutCancel(p)) }
func Cause(c Context) error                 { mcrt.Pre("ctx.Cause"); return context.Cause(c) }

// AfterFunc runs f in a controlled goroutine.
func AfterFunc(c Context, f func()) func() bool {
	if mcrt.Self() == nil {
		return context.AfterFunc(c, f)
	}
	start := mcrt.Deferred("after-func")
	stop := context.AfterFunc(c, func() { start(f) })
	return func() bool {
		mcrt.Pre("after-func-stop")
		return stop()
	}
}
