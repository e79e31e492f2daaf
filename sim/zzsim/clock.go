//go:build go1.21

package zzsim

import (
	"time"
	"unsafe"
)

// timeRep mirrors time.Time so that simulated times carry a monotonic reading.
type timeRep struct {
	wall uint64
	ext  int64
	loc  *time.Location
}

const (
	hasMono   = 1 << 63
	wallToInt = (1884*365 + 1884/4 - 1884/100 + 1884/400) * 86400
	unixToInt = (1969*365 + 1969/4 - 1969/100 + 1969/400) * 86400
	monoBase  = 1 << 40
	secShift  = 30
)

var monoOK = func() bool {
	if unsafe.Sizeof(time.Time{}) != unsafe.Sizeof(timeRep{}) {
		return false
	}
	a := mkTime(1650000000, 5, 7)
	b := mkTime(1650009999, 5, 1007)
	return a.Unix() == 1650000000 && a.Nanosecond() == 5 && b.Sub(a) == 1000 && b.Unix() == 1650009999
}()

func mkTime(sec int64, nsec int64, mono int64) time.Time {
	var t time.Time
	r := (*timeRep)(unsafe.Pointer(&t))
	r.wall = hasMono | uint64(sec+unixToInt-wallToInt)<<secShift | uint64(nsec)
	r.ext = mono
	return t
}

// WallNow is the wall clock of the current process.
func WallNow() time.Time {
	w := W
	if w == nil {
		return time.Unix(1650000000, 0).UTC()
	}
	off := w.CurProc().Offset
	ns := w.Epoch*1e9 + w.now + off
	sec, nsec := ns/1e9, ns%1e9
	if nsec < 0 {
		sec--
		nsec += 1e9
	}
	if monoOK {
		return mkTime(sec, nsec, w.now+monoBase).UTC()
	}
	return time.Unix(sec, nsec).UTC()
}

// SimDeadline converts a time set by code under test to simulated ns; 0 for the
// zero time, -1 for anything before the simulation.
func SimDeadline(t time.Time) int64 {
	if t.IsZero() {
		return 0
	}
	w := W
	if w == nil {
		return 0
	}
	var d int64
	r := (*timeRep)(unsafe.Pointer(&t))
	if monoOK && r.wall&hasMono != 0 {
		d = r.ext - monoBase
	} else {
		d = t.UnixNano() - w.Epoch*1e9 - w.CurProc().Offset
		if t.Unix() < 1<<31 && t.Unix() < w.Epoch/2 {
			d = -1
		}
	}
	if d <= 0 {
		d = -1
	}
	return d
}

// SimTimer is a timer driven by the event queue.
type SimTimer struct {
	w      *World
	p      *Proc
	fn     func()
	gen    int
	active bool
	Period int64
	Drain  func()
}

func NewSimTimer(d, period int64, fn func()) *SimTimer {
	t := &SimTimer{w: W, fn: fn, Period: period}
	if W != nil {
		t.p = W.CurProc()
		t.arm(d)
	}
	return t
}

func (t *SimTimer) arm(d int64) {
	if d < 0 {
		d = 0
	}
	if d > 1<<61 {
		d = 1 << 61
	}
	t.gen++
	g := t.gen
	t.active = true
	t.w.After(d, func() {
		if t.gen != g || !t.active || t.p.Dead {
			return
		}
		if t.Period > 0 {
			t.arm(t.Period)
		} else {
			t.active = false
		}
		t.fn()
	})
}

func (t *SimTimer) Stop() bool {
	a := t.active
	t.active = false
	if t.Drain != nil {
		t.Drain()
	}
	return a
}

func (t *SimTimer) Reset(d int64) bool {
	a := t.active
	if t.Drain != nil {
		t.Drain()
	}
	if t.w != nil && !t.w.killing {
		t.arm(d)
	}
	return a
}

func CurrentProc() *Proc {
	if W == nil {
		return nil
	}
	return W.CurProc()
}

// GoProc starts a task of p (callable from event context).
func GoProc(p *Proc, name string, fn func()) {
	if W == nil || p == nil || W.killing || p.Dead {
		return
	}
	W.GoIn(p, name, fn)
}
