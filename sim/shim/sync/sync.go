//go:build go1.21

package sync

import (
	real "sync"

	"github.com/r3volut1oner/go-karbo/zzsim"
)

type (
	Mutex     = zzsim.Mutex
	RWMutex   = zzsim.RWMutex
	WaitGroup = zzsim.WaitGroup
	Once      = zzsim.Once
	Cond      = zzsim.Cond
	Locker    = real.Locker
)

func NewCond(l Locker) *Cond { return zzsim.NewCond(l) }

// Map is a simulated sync.Map: every operation is atomic.
type Map struct {
	m    map[interface{}]interface{}
	keys []interface{}
}

func (m *Map) Load(k interface{}) (interface{}, bool) {
	zzsim.Y()
	v, ok := m.m[k]
	return v, ok
}

func (m *Map) Store(k, v interface{}) {
	zzsim.Y()
	m.set(k, v)
}

func (m *Map) set(k, v interface{}) {
	if m.m == nil {
		m.m = map[interface{}]interface{}{}
	}
	if _, ok := m.m[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
}

func (m *Map) LoadOrStore(k, v interface{}) (interface{}, bool) {
	zzsim.Y()
	if x, ok := m.m[k]; ok {
		return x, true
	}
	m.set(k, v)
	return v, false
}

func (m *Map) LoadAndDelete(k interface{}) (interface{}, bool) {
	zzsim.Y()
	v, ok := m.m[k]
	m.del(k)
	return v, ok
}

func (m *Map) Delete(k interface{}) {
	zzsim.Y()
	m.del(k)
}

func (m *Map) del(k interface{}) {
	if _, ok := m.m[k]; !ok {
		return
	}
	delete(m.m, k)
	for i, x := range m.keys {
		if x == k {
			m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
			break
		}
	}
}

func (m *Map) Swap(k, v interface{}) (interface{}, bool) {
	zzsim.Y()
	x, ok := m.m[k]
	m.set(k, v)
	return x, ok
}

func (m *Map) CompareAndSwap(k, o, n interface{}) bool {
	zzsim.Y()
	if x, ok := m.m[k]; ok && x == o {
		m.set(k, n)
		return true
	}
	return false
}

func (m *Map) CompareAndDelete(k, o interface{}) bool {
	zzsim.Y()
	if x, ok := m.m[k]; ok && x == o {
		m.del(k)
		return true
	}
	return false
}

func (m *Map) Clear() { m.m, m.keys = nil, nil }

func (m *Map) Range(f func(k, v interface{}) bool) {
	for _, k := range append([]interface{}{}, m.keys...) {
		zzsim.Y()
		v, ok := m.m[k]
		if !ok {
			continue
		}
		if !f(k, v) {
			return
		}
	}
}

// Pool never reuses: the most adversarial legal behaviour is also the simplest.
type Pool struct {
	New   func() interface{}
	items []interface{}
}

func (p *Pool) Get() interface{} {
	zzsim.Y()
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x interface{}) {
	zzsim.Y()
	p.items = append(p.items, x)
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}
