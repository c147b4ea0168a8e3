// Package simctx has the functions of context that depend on the clock or
// start goroutines, on the simulated clock and scheduler.
package simctx

import (
	"context"
	"sync"
	"time"

	"vsim/simrt"
	"vsim/simtime"
)

type timed struct {
	context.Context
	at time.Time
}

func (c *timed) Deadline() (time.Time, bool) { return c.at, true }

func (c *timed) Err() error {
	err := c.Context.Err()
	if err != nil && late(context.Cause(c.Context)) {
		return context.DeadlineExceeded
	}
	return err
}

func late(err error) bool {
	_, ok := err.(expired)
	return ok || err == context.DeadlineExceeded
}

// expired is the cause of a context whose time is over, if one was given.
type expired struct{ error }

func (e expired) Unwrap() error { return e.error }

func WithDeadline(parent context.Context, at time.Time) (context.Context, context.CancelFunc) {
	return WithDeadlineCause(parent, at, nil)
}

func WithTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	return WithDeadlineCause(parent, simtime.Now().Add(d), nil)
}

func WithTimeoutCause(parent context.Context, d time.Duration, cause error) (context.Context, context.CancelFunc) {
	return WithDeadlineCause(parent, simtime.Now().Add(d), cause)
}

func WithDeadlineCause(parent context.Context, at time.Time, cause error) (context.Context, context.CancelFunc) {
	inner, cancel := context.WithCancelCause(parent)
	if have, ok := parent.Deadline(); ok && have.Before(at) {
		return inner, func() { cancel(nil) }
	}
	over := context.DeadlineExceeded
	if cause != nil {
		over = expired{cause}
	}
	c := &timed{inner, at}
	d := simtime.Until(at)
	if d <= 0 {
		cancel(over)
		return c, func() {}
	}
	t := simtime.AfterFunc(d, func() { cancel(over) })
	return c, func() { t.Stop(); cancel(nil) }
}

// AfterFunc calls f in a goroutine of its own once the context is done.
func AfterFunc(ctx context.Context, f func()) func() bool {
	var mu sync.Mutex
	state := 0 // 1: called, 2: stopped
	stop := make(chan struct{})
	move := func(to int) bool {
		mu.Lock()
		defer mu.Unlock()
		if state != 0 {
			return false
		}
		state = to
		return true
	}
	simrt.GoDaemon(func() {
		simrt.Select(false, simrt.NewRecv(ctx.Done()), simrt.NewRecv((<-chan struct{})(stop)))
		if move(1) {
			f()
		}
	})
	return func() bool {
		if !move(2) {
			return false
		}
		simrt.Close(stop)
		return true
	}
}
