//go:build go1.21

package context

import (
	real "context"
	"sync"
	"time"

	"github.com/r3volut1oner/go-karbo/zzsim"
)

type (
	Context    = real.Context
	CancelFunc = real.CancelFunc
)

var _ sync.Locker

type deadlineCtx struct {
	real.Context
	at       time.Time
	exceeded *bool
}

func (d deadlineCtx) Deadline() (time.Time, bool) { return d.at, true }

func (d deadlineCtx) Err() error {
	err := d.Context.Err()
	if err != nil && *d.exceeded {
		return real.DeadlineExceeded
	}
	return err
}

func WithCancel(parent Context) (Context, CancelFunc) {
	zzsim.Y()
	c, f := real.WithCancel(parent)
	return c, func() { f(); zzsim.Y() }
}

func WithDeadline(parent Context, t time.Time) (Context, CancelFunc) {
	w := zzsim.W
	if w == nil {
		return real.WithCancel(parent)
	}
	if cur, ok := parent.Deadline(); ok && cur.Before(t) {
		return WithCancel(parent)
	}
	c, f := real.WithCancel(parent)
	ex := new(bool)
	at := zzsim.SimDeadline(t)
	tm := zzsim.NewSimTimer(at-w.Now(), 0, func() {
		if c.Err() == nil {
			*ex = true
			f()
		}
	})
	return deadlineCtx{c, t, ex}, func() { tm.Stop(); f(); zzsim.Y() }
}

func WithTimeout(parent Context, d time.Duration) (Context, CancelFunc) {
	return WithDeadline(parent, zzsim.WallNow().Add(d))
}

func AfterFunc(ctx Context, f func()) (stop func() bool) {
	p := zzsim.CurrentProc()
	done, stopped := false, false
	if zzsim.W == nil {
		return func() bool { return false }
	}
	zzsim.GoProc(p, "context.AfterFunc", func() {
		zzsim.W.Block("context.AfterFunc", func() bool { return stopped || ctx.Err() != nil }, -1)
		if stopped {
			return
		}
		done = true
		f()
	})
	return func() bool {
		zzsim.Y()
		if done || stopped {
			return false
		}
		stopped = true
		return true
	}
}
