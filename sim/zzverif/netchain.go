//go:build go1.21

package main

import "math/rand"

// netChain is the valid chain of the simulated network.
type netChain struct {
	m *model
	f []*forged // f[i] is the block at index i+1
}

type netKey struct {
	test, txs bool
	variant   int
}

var netChains = map[netKey]*netChain{}

const (
	netMax  = 3200
	farCp   = 5000000
	netPace = 200
)

// worldChain gives the first n blocks of a network; the same key always gives
// the same chain.
func worldChain(k netKey, n int) *netChain {
	c := netChains[k]
	if c == nil {
		m := newModel(k.test, genesisMeta(k.test))
		if k.txs {
			m.cps[farCp] = hash32{1, 2, 3}
		}
		c = &netChain{m: m}
		netChains[k] = c
	}
	for i := len(c.f) + 1; i <= n; i++ {
		r := rand.New(rand.NewSource(int64(i)*4000 + int64(k.variant)*4 + int64(btoi(k.test))*2 + int64(btoi(k.txs))))
		s := spec{outs: 1 + r.Intn(3), extra: 33, minor: byte(r.Intn(2))}
		s.ts = uint64(epoch - 700000 + i*netPace + r.Intn(180))
		if k.txs && r.Intn(3) == 0 {
			cr := &chainRun{r: &run{rng: r}, m: c.m, ki: i * 7}
			for n := 1 + r.Intn(2); n > 0; n-- {
				s.txs = append(s.txs, cr.tx(uint32(i), 1+r.Intn(2), 2, 1+r.Intn(3), 33, minFee(uint32(i), 33)))
			}
		}
		f := c.m.forge(r, uint32(i-1), s)
		if f == nil {
			panic("network chain: no block")
		}
		v := c.m.judge(f.b, f.raws, epoch)
		if !v.ok() {
			panic("network chain: " + v.list()[0])
		}
		x := v.inf
		x.raw = f.b.encode()
		c.m.push(&x)
		c.f = append(c.f, f)
	}
	return c
}

func (c *netChain) hash(i uint32) hash32 { return c.m.m[i].hash }

// index finds a block of the chain.
func (c *netChain) index(h hash32) (uint32, bool) {
	i, ok := c.m.byHash[h]
	return i, ok
}

// upTo is the reference state with the given top.
func (c *netChain) upTo(top uint32) *model {
	m := newModel(c.m.test, c.m.m[0])
	for i := uint32(1); i <= top; i++ {
		m.push(c.m.m[i])
	}
	for k, v := range c.m.cps {
		m.cps[k] = v
	}
	return m
}

func (c *netChain) raw(i uint32) rawBlock {
	return rawBlock{block: c.m.m[i].raw, txs: c.f[i-1].raws}
}
