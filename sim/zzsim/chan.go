//go:build go1.21

package zzsim

import (
	"runtime"
	"unsafe"
)

// Channel operations.  Real channels are used; buffered ones are polled,
// unbuffered ones rendezvous through waiter queues.

type chanState struct {
	recvq []*selCase
	sendq []*selCase
}

// Sel is one blocking channel operation (a select, a send or a receive).
type Sel struct {
	hasDefault bool
	cases      []*selCase
	fired      int
	done       bool
}

type selCase struct {
	sel   *Sel
	idx   int
	send  bool
	isNil bool
	key   uintptr
	unbuf bool
	// try attempts the operation on the real channel without blocking
	try func() bool
	// ready reports whether try would succeed
	ready func() bool
	// rendezvous: take the value of a sender / give to a receiver
	get func() interface{}
	put func(interface{})
}

// SelRecvResult holds what a receive clause received.
type SelRecvResult[T any] struct {
	Val T
	Ok  bool
}

func NewSel(hasDefault bool) *Sel { return &Sel{hasDefault: hasDefault, fired: -1} }

func chanKey[T any](ch chan T) uintptr { return *(*uintptr)(unsafe.Pointer(&ch)) }

type iface struct{ v interface{} }

func SelRecv[T any](s *Sel, rch <-chan T) *SelRecvResult[T] {
	res := &SelRecvResult[T]{}
	c := &selCase{sel: s, idx: len(s.cases), isNil: rch == nil}
	s.cases = append(s.cases, c)
	if rch == nil {
		return res
	}
	ch := *(*chan T)(unsafe.Pointer(&rch))
	c.key = chanKey(ch)
	c.unbuf = cap(ch) == 0
	c.try = func() bool {
		select {
		case v, ok := <-ch:
			res.Val, res.Ok = v, ok
			return true
		default:
			return false
		}
	}
	c.ready = func() bool {
		if len(ch) > 0 {
			return true
		}
		select {
		case v, ok := <-ch:
			if ok {
				// a real goroutine sent meanwhile; keep the value
				res.Val, res.Ok = v, ok
				s.done, s.fired = true, c.idx
			}
			return true
		default:
			return false
		}
	}
	c.put = func(b interface{}) { res.Val, res.Ok = *(b.(*T)), true }
	return res
}

func SelSend[T any](s *Sel, sch chan<- T) func(T) {
	c := &selCase{sel: s, idx: len(s.cases), send: true, isNil: sch == nil}
	s.cases = append(s.cases, c)
	var val T
	if sch != nil {
		ch := *(*chan T)(unsafe.Pointer(&sch))
		c.key = chanKey(ch)
		c.unbuf = cap(ch) == 0
		c.try = func() bool {
			select {
			case ch <- val:
				return true
			default:
				return false
			}
		}
		c.ready = func() bool {
			if cap(ch) > 0 && len(ch) < cap(ch) {
				return true
			}
			if len(ch) == 0 {
				select {
				case _, ok := <-ch:
					return !ok // closed: try will panic, as it must
				default:
				}
			}
			return false
		}
		c.get = func() interface{} { return &val }
	}
	return func(v T) { val = v }
}

func (w *World) chanOf(key uintptr) *chanState {
	st := w.chans[key]
	if st == nil {
		st = &chanState{}
		w.chans[key] = st
	}
	return st
}

// counterpart finds a waiting operation on the other side of c.
func (w *World) counterpart(c *selCase) *selCase {
	st := w.chans[c.key]
	if st == nil {
		return nil
	}
	q := st.sendq
	if c.send {
		q = st.recvq
	}
	for _, o := range q {
		if !o.sel.done && o.sel != c.sel {
			return o
		}
	}
	return nil
}

func (w *World) caseReady(c *selCase) bool {
	if c.isNil {
		return false
	}
	if c.unbuf && w.counterpart(c) != nil {
		return true
	}
	return c.ready()
}

// Wait performs the select and returns the index of the clause, -1 for default.
func (s *Sel) Wait() int {
	Y()
	w := W
	if w == nil || w.killing {
		return s.noWorld()
	}
	for {
		var rd []*selCase
		for _, c := range s.cases {
			if w.caseReady(c) {
				rd = append(rd, c)
			}
			if s.done {
				return s.fired
			}
		}
		if len(rd) > 0 {
			c := rd[0]
			if len(rd) > 1 {
				c = rd[w.Src.choose(len(rd))]
			}
			if c.unbuf {
				if o := w.counterpart(c); o != nil {
					if c.send {
						o.put(c.get())
					} else {
						c.put(o.get())
					}
					o.sel.done = true
					o.sel.fired = o.idx
					return c.idx
				}
			}
			if c.try() {
				return c.idx
			}
			continue
		}
		if s.hasDefault {
			return -1
		}
		if w.cur == nil {
			panic("zzsim: channel operation would block outside a task")
		}
		for _, c := range s.cases {
			if c.isNil || !c.unbuf {
				continue
			}
			st := w.chanOf(c.key)
			if c.send {
				st.sendq = append(st.sendq, c)
			} else {
				st.recvq = append(st.recvq, c)
			}
		}
		w.Block("chan", func() bool {
			if s.done {
				return true
			}
			for _, c := range s.cases {
				if !c.isNil && c.ready() {
					return true
				}
				if !c.isNil && c.unbuf && w.counterpart(c) != nil {
					return true
				}
			}
			return false
		}, -1)
		for _, c := range s.cases {
			if c.isNil || !c.unbuf {
				continue
			}
			st := w.chanOf(c.key)
			st.sendq = dropCase(st.sendq, c)
			st.recvq = dropCase(st.recvq, c)
			if len(st.sendq) == 0 && len(st.recvq) == 0 {
				delete(w.chans, c.key)
			}
		}
		if s.done {
			return s.fired
		}
	}
}

func dropCase(q []*selCase, c *selCase) []*selCase {
	for i, x := range q {
		if x == c {
			return append(append([]*selCase{}, q[:i]...), q[i+1:]...)
		}
	}
	return q
}

func (s *Sel) noWorld() int {
	for _, c := range s.cases {
		if !c.isNil && c.ready() {
			if s.done {
				return s.fired
			}
			if c.try() {
				return c.idx
			}
		}
	}
	if s.hasDefault {
		return -1
	}
	if W != nil && W.killing {
		runtime.Goexit()
	}
	panic("zzsim: channel operation would block outside a simulation")
}

func Recv2[T any](ch <-chan T) (T, bool) {
	s := &Sel{fired: -1}
	r := SelRecv(s, ch)
	s.Wait()
	return r.Val, r.Ok
}

func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

func SendTo[T any](ch chan<- T) func(T) {
	s := &Sel{fired: -1}
	set := SelSend(s, ch)
	return func(v T) {
		set(v)
		s.Wait()
	}
}

// BlockForever is an empty select.
func BlockForever() string {
	w := W
	if w == nil {
		panic("zzsim: select {} outside a simulation")
	}
	if w.killing {
		runtime.Goexit()
	}
	w.Block("select {}", never, -1)
	runtime.Goexit()
	return ""
}
