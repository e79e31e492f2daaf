//go:build go1.21

package time

import (
	real "time"

	"github.com/r3volut1oner/go-karbo/zzsim"
)

type (
	Time     = real.Time
	Duration = real.Duration
	Month    = real.Month
)

func Now() Time {
	zzsim.Y()
	return zzsim.WallNow()
}

func Since(t Time) Duration { return Now().Sub(t) }
func Until(t Time) Duration { return t.Sub(Now()) }

func Sleep(d Duration) {
	if zzsim.W == nil {
		return
	}
	zzsim.W.Sleep(int64(d))
}

type Timer struct {
	C  <-chan Time
	tm *zzsim.SimTimer
}

func mk() chan Time { return make(chan Time, 1) }

func NewTimer(d Duration) *Timer {
	c := mk()
	t := &Timer{C: c}
	t.tm = zzsim.NewSimTimer(int64(d), 0, func() {
		select {
		case c <- zzsim.WallNow():
		default:
		}
	})
	t.tm.Drain = func() {
		select {
		case <-c:
		default:
		}
	}
	return t
}

func AfterFunc(d Duration, f func()) *Timer {
	p := zzsim.CurrentProc()
	t := &Timer{}
	t.tm = zzsim.NewSimTimer(int64(d), 0, func() { zzsim.GoProc(p, "AfterFunc", f) })
	return t
}

func (t *Timer) Stop() bool            { zzsim.Y(); return t.tm.Stop() }
func (t *Timer) Reset(d Duration) bool { zzsim.Y(); return t.tm.Reset(int64(d)) }

func After(d Duration) <-chan Time { return NewTimer(d).C }

type Ticker struct {
	C  <-chan Time
	tm *zzsim.SimTimer
}

func NewTicker(d Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := mk()
	t := &Ticker{C: c}
	t.tm = zzsim.NewSimTimer(int64(d), int64(d), func() {
		select {
		case c <- zzsim.WallNow():
		default:
		}
	})
	return t
}

func (t *Ticker) Stop()            { zzsim.Y(); t.tm.Stop() }
func (t *Ticker) Reset(d Duration) { zzsim.Y(); t.tm.Period = int64(d); t.tm.Reset(int64(d)) }

func Tick(d Duration) <-chan Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}
