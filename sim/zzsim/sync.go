//go:build go1.21

package zzsim

// Simulated synchronisation primitives.  They behave like package sync, block
// through the scheduler and turn misuse into the death of the process, as the
// Go runtime does.

type lockState struct{ w *World }

// Mutex is the simulated sync.Mutex.
type Mutex struct {
	ls     lockState
	locked bool
}

func (m *Mutex) sync() *World {
	if m.ls.w != W {
		m.ls.w = W
		m.locked = false
	}
	return W
}

func (m *Mutex) Lock() {
	Y()
	w := m.sync()
	if w == nil || w.cur == nil {
		m.locked = true
		return
	}
	if w.killing {
		return
	}
	w.Block("mutex", func() bool { return !m.locked }, -1)
	m.locked = true
}

func (m *Mutex) TryLock() bool {
	Y()
	m.sync()
	if m.locked {
		return false
	}
	m.locked = true
	return true
}

func (m *Mutex) Unlock() {
	w := m.sync()
	if w != nil && w.killing {
		return
	}
	if !m.locked {
		if w == nil {
			panic("sync: unlock of unlocked mutex")
		}
		w.Fatal("fatal", "sync: unlock of unlocked mutex")
		return
	}
	m.locked = false
	Y()
}

// RWMutex is the simulated sync.RWMutex (a waiting writer blocks new readers).
type RWMutex struct {
	ls      lockState
	writer  bool
	readers int
	waiting int
}

func (m *RWMutex) sync() *World {
	if m.ls.w != W {
		*m = RWMutex{ls: lockState{W}}
	}
	return W
}

func (m *RWMutex) Lock() {
	Y()
	w := m.sync()
	if w == nil || w.cur == nil {
		m.writer = true
		return
	}
	if w.killing {
		return
	}
	m.waiting++
	w.Block("rwmutex.Lock", func() bool { return !m.writer && m.readers == 0 }, -1)
	m.waiting--
	m.writer = true
}

func (m *RWMutex) TryLock() bool {
	Y()
	m.sync()
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	return true
}

func (m *RWMutex) Unlock() {
	w := m.sync()
	if w != nil && w.killing {
		return
	}
	if !m.writer {
		if w == nil {
			panic("sync: Unlock of unlocked RWMutex")
		}
		w.Fatal("fatal", "sync: Unlock of unlocked RWMutex")
		return
	}
	m.writer = false
	Y()
}

func (m *RWMutex) RLock() {
	Y()
	w := m.sync()
	if w == nil || w.cur == nil {
		m.readers++
		return
	}
	if w.killing {
		return
	}
	w.Block("rwmutex.RLock", func() bool { return !m.writer && m.waiting == 0 }, -1)
	m.readers++
}

func (m *RWMutex) TryRLock() bool {
	Y()
	m.sync()
	if m.writer || m.waiting > 0 {
		return false
	}
	m.readers++
	return true
}

func (m *RWMutex) RUnlock() {
	w := m.sync()
	if w != nil && w.killing {
		return
	}
	if m.readers == 0 {
		if w == nil {
			panic("sync: RUnlock of unlocked RWMutex")
		}
		w.Fatal("fatal", "sync: RUnlock of unlocked RWMutex")
		return
	}
	m.readers--
	Y()
}

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

func (m *RWMutex) RLocker() interface {
	Lock()
	Unlock()
} {
	return rlocker{m}
}

// WaitGroup is the simulated sync.WaitGroup.
type WaitGroup struct {
	ls lockState
	n  int
}

func (g *WaitGroup) sync() *World {
	if g.ls.w != W {
		g.ls.w = W
		g.n = 0
	}
	return W
}

func (g *WaitGroup) Add(d int) {
	Y()
	w := g.sync()
	if w != nil && w.killing {
		return
	}
	g.n += d
	if g.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}

func (g *WaitGroup) Done() { g.Add(-1) }

func (g *WaitGroup) Wait() {
	Y()
	w := g.sync()
	if w == nil || w.killing || w.cur == nil {
		return
	}
	w.Block("waitgroup", func() bool { return g.n == 0 }, -1)
}

func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	Go(func() {
		defer g.Done()
		f()
	})
}

// Once is the simulated sync.Once.
type Once struct {
	ls   lockState
	done bool
	m    Mutex
}

func (o *Once) Do(f func()) {
	// a completed Once stays completed across worlds, as package state does
	if o.done {
		Y()
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// Cond is the simulated sync.Cond.
type Cond struct {
	L interface {
		Lock()
		Unlock()
	}
	q []*bool
}

func NewCond(l interface {
	Lock()
	Unlock()
}) *Cond {
	return &Cond{L: l}
}

func (c *Cond) Wait() {
	f := new(bool)
	c.q = append(c.q, f)
	c.L.Unlock()
	if w := W; w != nil && w.cur != nil && !w.killing {
		w.Block("cond", func() bool { return *f }, -1)
	}
	c.L.Lock()
}

func (c *Cond) Signal() {
	if len(c.q) > 0 {
		*c.q[0] = true
		c.q = c.q[1:]
	}
	Y()
}

func (c *Cond) Broadcast() {
	for _, f := range c.q {
		*f = true
	}
	c.q = nil
	Y()
}

// Go starts a goroutine of the current process.
func Go(fn func()) {
	w := W
	if w == nil {
		panic("zzsim: go statement outside a simulation")
	}
	if w.killing || (w.cur != nil && w.cur.killed) {
		return
	}
	p := w.CurProc()
	w.GoIn(p, CallSite(), fn)
	Y()
}
