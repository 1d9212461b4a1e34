// Package context replaces the standard package in the instrumented copy:
// deadlines are on the simulated clock and AfterFunc starts a simulated task.
package context

import (
	std "context"

	"watersim/shim/time"
	"watersim/simrt"
)

type deadline struct {
	std.Context
	at time.Time
}

func (d *deadline) Deadline() (time.Time, bool) { return d.at, true }

func (d *deadline) Err() error {
	err := d.Context.Err()
	if err == nil {
		return nil
	}
	if _, ok := std.Cause(d.Context).(*expired); ok {
		return std.DeadlineExceeded
	}
	return err
}

type expired struct{ error }

func Cause(c Context) error {
	err := std.Cause(c)
	if e, ok := err.(*expired); ok {
		return e.error
	}
	return err
}

func WithDeadline(parent Context, d time.Time) (Context, CancelFunc) {
	return WithDeadlineCause(parent, d, nil)
}

func WithDeadlineCause(parent Context, d time.Time, cause error) (Context, CancelFunc) {
	if cur, ok := parent.Deadline(); ok && cur.Before(d) {
		return std.WithCancel(parent)
	}
	c, cancel := std.WithCancelCause(parent)
	if cause == nil {
		cause = std.DeadlineExceeded
	}
	left := time.Until(d)
	ctx := &deadline{c, d}
	if left <= 0 {
		cancel(&expired{cause})
		return ctx, func() {}
	}
	t := time.AfterFunc(left, func() { cancel(&expired{cause}) })
	return ctx, func() {
		t.Stop()
		cancel(std.Canceled)
	}
}

func WithTimeout(parent Context, d time.Duration) (Context, CancelFunc) {
	return WithDeadlineCause(parent, time.Now().Add(d), nil)
}

func WithTimeoutCause(parent Context, d time.Duration, cause error) (Context, CancelFunc) {
	return WithDeadlineCause(parent, time.Now().Add(d), cause)
}

func AfterFunc(ctx Context, f func()) (stop func() bool) {
	a := &after{stopped: make(chan struct{})}
	simrt.GoBackground(func() {
		if simrt.Select(false, simrt.CaseRecv(ctx.Done()), simrt.CaseRecv((<-chan struct{})(a.stopped))) == 0 && a.settle() {
			f()
		}
	})
	return func() bool {
		if !a.settle() {
			return false
		}
		close(a.stopped)
		return true
	}
}

type after struct {
	stopped chan struct{}
	settled bool
}

//go:norace
func (a *after) settle() bool {
	was := a.settled
	a.settled = true
	return !was
}
