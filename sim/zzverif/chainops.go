//go:build go1.21

package main

import (
	mathbig "math/big"

	"github.com/r3volut1oner/go-karbo/crypto"
)

// The operations of the sequential chain scenario.

// baseSpec draws the shape of an ordinary block on index prev.
func (c *chainRun) baseSpec(prev uint32) spec {
	w := c.r.w
	i := prev + 1
	ver := versionAt(i)
	s := spec{outs: 1 + w.Choose(6), extra: []int{33, 0, 1, 40, 34 + w.Choose(200)}[w.Choose(5)], minor: byte(w.Choose(2)),
		depth: w.Choose(4), branch: w.Choose(4)}
	now := c.now()
	lo, full := c.m.medianTS(prev, ver)
	s.ts = now
	switch k := w.Choose(12); {
	case k < 5:
		s.ts = c.m.m[prev].ts + uint64(w.Choose(480))
	case k < 8:
		s.ts = now - uint64(w.Choose(300))
	case k < 10:
		s.ts = now + uint64(w.Choose(int(futureLimit(ver))))
	case k == 10:
		if full {
			s.ts = lo
		}
	default:
		s.ts = now + futureLimit(ver)
	}
	if s.ts > now+futureLimit(ver) {
		s.ts = now + futureLimit(ver)
	}
	if full && s.ts < lo {
		s.ts = lo
	}
	return s
}

// drawTxs gives the block some transactions, when any can be valid there.
func (c *chainRun) drawTxs(i uint32, s *spec, max int) {
	w := c.r.w
	if !c.m.zone(i) || max == 0 {
		return
	}
	n := w.Choose(max + 1)
	for k := 0; k < n; k++ {
		s.txs = append(s.txs, c.goodTx(i))
	}
}

func (c *chainRun) goodTx(i uint32) *rTx {
	w := c.r.w
	if w.Choose(6) == 5 {
		if t := c.fusionTx(i); t != nil {
			return t
		}
	}
	mix := []int{2, 1, 3, 20}[w.Choose(4)]
	if i <= upV3s1 && mix == 20 {
		mix = 22
	}
	extra := []int{33, 0, 99, 100, 101, 102, 200, 1000}[w.Choose(8)]
	fee := minFee(i, extra)
	if w.Choose(3) == 2 {
		fee += uint64(w.Choose(1000)) * 1000003
	}
	return c.tx(i, 1+w.Choose(3), mix, 1+w.Choose(4), extra, fee)
}

func (c *chainRun) valid() *forged {
	s := c.baseSpec(c.m.top)
	c.drawTxs(c.m.top+1, &s, 3)
	return c.m.forge(c.r.rng, c.m.top, s)
}

type mutator struct {
	name string
	cat  string // properties it is aimed at
	fn   func(c *chainRun, i uint32, s *spec) *forged
}

// withTxs makes sure that the block has transactions.
func (c *chainRun) withTxs(i uint32, s *spec, n int) bool {
	if !c.m.zone(i) {
		return false
	}
	for len(s.txs) < n {
		s.txs = append(s.txs, c.goodTx(i))
	}
	return true
}

// spot is a place among n, often one of the last.
func (c *chainRun) spot(n int) int {
	if c.r.w.Choose(3) == 2 {
		return n - 1 - c.r.w.Choose(int(min32(uint32(n), 3)))
	}
	return c.r.w.Choose(n)
}

// txMut is a mutation of one transaction, before the reward is computed.
func txMut(fn func(c *chainRun, i uint32, t *rTx) bool) func(c *chainRun, i uint32, s *spec) *forged {
	return func(c *chainRun, i uint32, s *spec) *forged {
		if !c.m.zone(i) {
			return nil
		}
		k := len(s.txs)
		if k > 0 {
			k = c.r.w.Choose(k + 1)
		}
		ins, outs, ring := 2, 2, 2
		switch c.r.w.Choose(8) {
		case 5, 6:
			// the offence may be far inside the transaction
			ins, outs = 2+c.r.w.Choose(40), 2+c.r.w.Choose(40)
		case 7:
			ins, ring = 1+c.r.w.Choose(4), 3+c.r.w.Choose(17)
		}
		t := c.tx(i, ins, ring, outs, 33, minFee(i, 33)+5000000000)
		if !fn(c, i, t) {
			return nil
		}
		if c.r.w.Choose(12) == 11 {
			// or far inside the block
			for n := 8 + c.r.w.Choose(60); n > 0; n-- {
				s.txs = append(s.txs, c.tx(i, 1, 2, 1, 33, minFee(i, 33)))
			}
			k = c.r.w.Choose(len(s.txs) + 1)
		}
		s.txs = append(s.txs[:k], append([]*rTx{t}, s.txs[k:]...)...)
		return c.m.forge(c.r.rng, i-1, *s)
	}
}

// cbMut changes the coinbase before the reward is computed.
func cbMut(fn func(c *chainRun, i uint32, t *rTx)) func(c *chainRun, i uint32, s *spec) *forged {
	return func(c *chainRun, i uint32, s *spec) *forged {
		s.pre = func(f *forged) { fn(c, i, f.b.base) }
		return c.m.forge(c.r.rng, i-1, *s)
	}
}

// postMut changes the finished block.
func postMut(fn func(c *chainRun, i uint32, f *forged) bool) func(c *chainRun, i uint32, s *spec) *forged {
	return func(c *chainRun, i uint32, s *spec) *forged {
		ok := true
		s.post = func(f *forged) { ok = fn(c, i, f) }
		f := c.m.forge(c.r.rng, i-1, *s)
		if !ok {
			return nil
		}
		return f
	}
}

func badImage(c *chainRun, t *rTx) bool {
	k := c.r.w.Choose(len(t.ins))
	t.ins[k].ki = badPoint
	if c.r.w.Choose(2) == 1 {
		t.ins[k].ki = badKey(c.r.w.Choose(20))
	}
	return true
}

func sums(t *rTx) (in, out uint64) {
	for _, x := range t.ins {
		in += x.amt
	}
	for _, x := range t.outs {
		out += x.amt
	}
	return
}

// setFee moves the first input's amount so that the fee is exactly fee.
func setFee(t *rTx, fee uint64) bool {
	in, out := sums(t)
	rest := in - t.ins[0].amt
	if out+fee <= rest {
		return false
	}
	t.ins[0].amt = out + fee - rest
	return true
}

func setTS(f *forged, ts uint64) {
	f.b.ts = ts
	if f.b.parent != nil {
		f.b.parent.ts = ts
	}
}

func dustAt(i uint32) uint64 {
	if i < upV4 {
		return 100000000
	}
	return 0
}

// unevenFusion gives a fusion inputs whose sum has small digits.
func unevenFusion(c *chainRun, t *rTx, dust uint64) bool {
	r := c.r.rng
	n := 24 + r.Intn(25)
	t.ins, t.sigs = nil, nil
	sum := uint64(0)
	for k := 0; k < n; k++ {
		in := rIn{amt: 100000000 * uint64(1+r.Intn(20)), ki: c.freshImage(), offs: []uint64{uint64(r.Intn(1000)), 1 + uint64(r.Intn(1000))}}
		if k == 0 {
			in.amt += []uint64{1, 10000, 120000, 99000000, 100000000, 30000300, uint64(r.Intn(1e8))}[r.Intn(7)]
		}
		sum += in.amt
		t.ins = append(t.ins, in)
		t.sigs = append(t.sigs, randBytes(r, 128))
	}
	t.outs = nil
	for _, a := range decompose(sum, dust) {
		t.outs = append(t.outs, rOut{a, poolKey(r.Intn(64))})
	}
	return len(t.outs)*4 <= n
}

// padTx fills the extra until the transaction has the given size.
func padTx(t *rTx, size int) bool {
	for n := 0; n < 6; n++ {
		d := size - len(t.encode())
		if d == 0 {
			return true
		}
		if len(t.extra)+d < 0 {
			return false
		}
		if d < 0 {
			t.extra = t.extra[:len(t.extra)+d]
		} else {
			t.extra = append(t.extra, make([]byte, d)...)
		}
	}
	return len(t.encode()) == size
}

var mutators, mutators5 []mutator // all, those of version 5

func mut(name, cat string, fn func(c *chainRun, i uint32, s *spec) *forged) {
	mutators = append(mutators, mutator{name, cat, fn})
}

func init() {
	// ---- reward and fees
	amt := func(name string, g func(c *chainRun, want uint64) uint64) {
		mut(name, "C04", func(c *chainRun, i uint32, s *spec) *forged {
			s.mutAmt = func(want uint64) uint64 { return g(c, want) }
			return c.m.forge(c.r.rng, i-1, *s)
		})
	}
	amt("reward one more", func(c *chainRun, x uint64) uint64 { return x + 1 })
	amt("reward one less", func(c *chainRun, x uint64) uint64 { return x - 1 })
	amt("reward doubled", func(c *chainRun, x uint64) uint64 { return 2 * x })
	amt("reward halved", func(c *chainRun, x uint64) uint64 { return x/2 + 1 })
	amt("reward random", func(c *chainRun, x uint64) uint64 { return uint64(c.r.rng.Int63n(int64(x)*3) + 1) })
	mut("fees not paid", "C04", func(c *chainRun, i uint32, s *spec) *forged {
		if !c.withTxs(i, s, 1) {
			return nil
		}
		s.mutAmt = func(x uint64) uint64 {
			fee := uint64(0)
			for _, t := range s.txs {
				a, b := sums(t)
				fee += a - b
			}
			if fee == 0 || fee >= x {
				return x + 1
			}
			if c.r.w.Choose(2) == 1 {
				return x + fee
			}
			return x - fee
		}
		return c.m.forge(c.r.rng, i-1, *s)
	})
	// sizes: coinbase extra before 500000, transactions after
	big := func(name, cat string, post func(c *chainRun, i uint32, s *spec, med uint64) (size uint64, ok bool)) {
		mut(name, cat, func(c *chainRun, i uint32, s *spec) *forged {
			med := c.m.sizeMedian(i-1, versionAt(i))
			size, ok := post(c, i, s, med)
			s.tooBig = size > 2*med
			if !ok || size > 2200000 || size < 3000 {
				return nil
			}
			if i >= upV4s2 || (c.m.zone(i) && c.r.w.Choose(2) == 1) {
				if !c.m.zone(i) {
					return nil
				}
				lim := uint64(249400)
				left := size - 400
				for left > 1000 {
					x := lim - uint64(c.r.rng.Intn(2000))
					if x > left {
						x = left
					}
					ex := int(x) - 700
					if ex < 0 {
						break
					}
					t := c.tx(i, 1, 2, 1, ex, minFee(i, ex))
					s.txs = append(s.txs, t)
					left -= uint64(len(t.encode()))
				}
				s.pre = func(f *forged) { c.fit(f, i, s, size, true) }
			} else {
				s.pre = func(f *forged) { c.fit(f, i, s, size, false) }
			}
			return c.m.forge(c.r.rng, i-1, *s)
		})
	}
	big("penalised size", "C04 C07", func(c *chainRun, i uint32, s *spec, med uint64) (uint64, bool) {
		return med + uint64(c.r.w.Choose(int(med/4))), med < 600000 || c.r.rng.Intn(4) == 0
	})
	big("size at the median", "C04 C07", func(c *chainRun, i uint32, s *spec, med uint64) (uint64, bool) {
		return med + uint64(c.r.w.Choose(3)), med < 600000 || c.r.rng.Intn(4) == 0
	})
	big("penalty ignored", "C04", func(c *chainRun, i uint32, s *spec, med uint64) (uint64, bool) {
		fee := uint64(0)
		s.mutAmt = func(x uint64) uint64 {
			switch c.r.w.Choose(3) {
			case 0:
				return baseReward(c.m.m[i-1].coins) + fee
			case 1:
				return x + 1
			}
			return x - 1
		}
		return med + med/8 + uint64(c.r.w.Choose(int(med/8))), med < 600000 || c.r.rng.Intn(4) == 0
	})
	big("size over twice the median", "C04 C05", func(c *chainRun, i uint32, s *spec, med uint64) (uint64, bool) {
		s.mutAmt = nil
		return 2*med + 1 + uint64(c.r.w.Choose(2))*1000, 2*med < maxBlockSize(i) || c.r.rng.Intn(4) == 0
	})
	big("size limit", "C05 C07", func(c *chainRun, i uint32, s *spec, med uint64) (uint64, bool) {
		return maxBlockSize(i), c.r.rng.Intn(2) == 0
	})
	big("size over the limit", "C05", func(c *chainRun, i uint32, s *spec, med uint64) (uint64, bool) {
		return maxBlockSize(i) + 1 + uint64(c.r.w.Choose(2))*5000, c.r.rng.Intn(2) == 0
	})
	// ---- header
	mut("version", "C05", postMut(func(c *chainRun, i uint32, f *forged) bool {
		v := []byte{f.b.major + 1, f.b.major - 1, 1, 2, 3, 4, 5}[c.r.w.Choose(7)]
		if v == f.b.major || v == 0 || v > 5 {
			return false
		}
		ts := f.b.time()
		f.b.major = v
		if f.b.merged() && f.b.parent == nil {
			f.b.parent = mkParent(c.r.rng, ts, 1, 1)
		}
		if !f.b.merged() {
			f.b.parent = nil
		}
		f.b.ts = ts
		return true
	}))
	mut("parent version", "C05", postMut(func(c *chainRun, i uint32, f *forged) bool {
		if f.b.parent == nil {
			return false
		}
		f.b.parent.major = byte(2 + c.r.w.Choose(3))
		return true
	}))
	mut("parent size", "C05 C07", postMut(func(c *chainRun, i uint32, f *forged) bool {
		if f.b.parent == nil {
			return false
		}
		p := f.b.parent
		want := 2047 + c.r.w.Choose(4)
		e := p.base.extra
		tag := append([]byte{}, e[len(e)-35:]...)
		if tag[0] != 3 {
			return false
		}
		key := append([]byte{}, e[:33]...)
		p.base.extra = append(append([]byte{}, key...), tag...)
		for want-len(p.encode(false)) > 100 {
			p.base.outs = append(p.base.outs, rOut{1, poolKey(c.r.rng.Intn(64))})
		}
		d := want - len(p.encode(false))
		if len(p.base.extra) < 128 && len(p.base.extra)+d >= 128 {
			d-- // the length of the extra takes one more byte
		}
		if d < 2 {
			return false
		}
		p.base.extra = append(append(append(key, 2, byte(d-2)), make([]byte, d-2)...), tag...)
		return len(p.encode(false)) == want
	}))
	mut("timestamp at the future limit", "C06 C07", postMut(func(c *chainRun, i uint32, f *forged) bool {
		setTS(f, c.now()+futureLimit(f.b.major))
		return true
	}))
	mut("timestamp over the future limit", "C06", postMut(func(c *chainRun, i uint32, f *forged) bool {
		setTS(f, c.now()+futureLimit(f.b.major)+1+[]uint64{0, 0, 5, 100000}[c.r.w.Choose(4)])
		return true
	}))
	mut("absurd timestamp", "C06", postMut(func(c *chainRun, i uint32, f *forged) bool {
		setTS(f, []uint64{0, 1, 1<<63 - 1, 1 << 63, 1<<64 - 1}[c.r.w.Choose(5)])
		return true
	}))
	mut("timestamp at the median", "C06 C07", postMut(func(c *chainRun, i uint32, f *forged) bool {
		lo, full := c.m.medianTS(i-1, f.b.major)
		if !full {
			lo = uint64(c.r.rng.Intn(1000))
		}
		setTS(f, lo)
		return true
	}))
	mut("timestamp below the median", "C06", postMut(func(c *chainRun, i uint32, f *forged) bool {
		lo, full := c.m.medianTS(i-1, f.b.major)
		if !full {
			return false
		}
		setTS(f, lo-1-[]uint64{0, 0, 1, 1000}[c.r.w.Choose(4)])
		return true
	}))
	mut("old parent timestamp", "C06", postMut(func(c *chainRun, i uint32, f *forged) bool {
		if f.b.parent == nil {
			return false
		}
		f.b.parent.ts = []uint64{c.now() + futureLimit(f.b.major) + 1, 1}[c.r.w.Choose(2)]
		return true
	}))
	// ---- links
	mut("unknown previous", "C01", postMut(func(c *chainRun, i uint32, f *forged) bool {
		f.b.prev = randHash(c.r.rng)
		if c.r.w.Choose(2) == 1 {
			f.b.prev = hash32{}
		}
		return true
	}))
	mut("sibling", "C01", func(c *chainRun, i uint32, s *spec) *forged {
		return c.sibling(s, uint32(c.r.w.Choose(12)))
	})
	mut("older previous", "C01", postMut(func(c *chainRun, i uint32, f *forged) bool {
		if i < 3 || c.m.m[i-2] == nil {
			return false
		}
		f.b.prev = c.m.m[i-2].hash
		return true
	}))
	mut("coinbase index", "C01 C05", postMut(func(c *chainRun, i uint32, f *forged) bool {
		f.b.base.ins[0].idx = []uint64{uint64(i) + 1, uint64(i) - 1, 0, uint64(i) ^ 1<<20, uint64(i) + 2}[c.r.w.Choose(5)]
		return f.b.base.ins[0].idx != uint64(i)
	}))
	mut("previous and index of another place", "C01", postMut(func(c *chainRun, i uint32, f *forged) bool {
		// names an older block as previous but keeps the next index
		k := uint32(c.r.w.Choose(8)) + 1
		if k > i-1 || c.m.m[i-1-k] == nil {
			return false
		}
		f.b.prev = c.m.m[i-1-k].hash
		return true
	}))
	// ---- coinbase
	mut("no coinbase input", "C05", cbMut(func(c *chainRun, i uint32, t *rTx) { t.ins = nil }))
	mut("two coinbase inputs", "C05", cbMut(func(c *chainRun, i uint32, t *rTx) {
		t.ins = append(t.ins, rIn{cb: true, idx: uint64(i)})
		t.sigs = nil
	}))
	mut("key input in the coinbase", "C05", cbMut(func(c *chainRun, i uint32, t *rTx) {
		t.ins = []rIn{{amt: 5, offs: []uint64{1}, ki: c.freshImage()}}
		t.sigs = [][]byte{make([]byte, 64)}
	}))
	mut("unlock height", "C05", cbMut(func(c *chainRun, i uint32, t *rTx) {
		t.unlock = []uint64{t.unlock + 1, t.unlock - 1, 0, uint64(i), t.unlock + 1<<32, 1<<64 - 1}[c.r.w.Choose(6)]
	}))
	mut("coinbase zero output", "C05", postMut(func(c *chainRun, i uint32, f *forged) bool {
		k := c.r.w.Choose(len(f.b.base.outs) + 1)
		o := append([]rOut{}, f.b.base.outs[:k]...)
		o = append(o, rOut{0, poolKey(1)})
		f.b.base.outs = append(o, f.b.base.outs[k:]...)
		return true
	}))
	mut("coinbase output key", "C05", postMut(func(c *chainRun, i uint32, f *forged) bool {
		k := c.r.w.Choose(len(f.b.base.outs))
		f.b.base.outs[k].key = badKey(c.r.w.Choose(20))
		return true
	}))
	mut("coinbase outputs overflow", "C05 C04", postMut(func(c *chainRun, i uint32, f *forged) bool {
		// the sum wraps around to the right reward
		x := uint64(1)<<63 + uint64(c.r.rng.Int63n(1<<40))
		f.b.base.outs = append(f.b.base.outs, rOut{x, poolKey(2)}, rOut{-x, poolKey(3)})
		return true
	}))
	mut("coinbase of many outputs", "C05 C07", func(c *chainRun, i uint32, s *spec) *forged {
		s.outs = 8 + c.r.w.Choose(80)
		s.post = func(f *forged) {
			o := f.b.base.outs
			k := c.r.w.Choose(len(o))
			switch c.r.w.Choose(4) {
			case 0:
				o[k].key = badKey(c.r.w.Choose(20))
			case 1:
				f.b.base.outs = append(o[:k:k], append([]rOut{{0, poolKey(1)}}, o[k:]...)...)
			case 2:
				o[k].amt++
			}
		}
		return c.m.forge(c.r.rng, i-1, *s)
	})
	mut("coinbase extra limit", "C05 C07", func(c *chainRun, i uint32, s *spec) *forged {
		s.extra = 1022 + c.r.w.Choose(5)
		return c.m.forge(c.r.rng, i-1, *s)
	})
	// ---- version 5
	v5 := func(name string, fn func(c *chainRun, i uint32, s *spec) bool) {
		mut(name, "C05", func(c *chainRun, i uint32, s *spec) *forged {
			if versionAt(i) != 5 || !fn(c, i, s) {
				return nil
			}
			return c.m.forge(c.r.rng, i-1, *s)
		})
		mutators5 = append(mutators5, mutators[len(mutators)-1])
	}
	v5("block signature", func(c *chainRun, i uint32, s *spec) bool {
		s.signed = func(f *forged) {
			switch b := f.b; c.r.w.Choose(6) {
			case 0:
				b.sig[c.r.w.Choose(64)] ^= byte(1 << c.r.w.Choose(8))
			case 1: // the same challenge written differently
				x := leBytes(new(mathbig.Int).Add(leInt(b.sig[:32]), groupL))
				copy(b.sig[:32], x[:])
			case 2:
				x := leBytes(new(mathbig.Int).Add(leInt(b.sig[32:]), groupL))
				copy(b.sig[32:], x[:])
			case 3:
				b.sig = [64]byte{}
			case 4: // signed, then changed
				b.nonce++
			default: // signed by another key
				b.base.outs[0].key = poolKey(70)
				b.sign(c.r.rng)
				b.base.outs[0].key = poolKey(71)
			}
		}
		return true
	})
	v5("signature of another block", func(c *chainRun, i uint32, s *spec) bool {
		s.signed = func(f *forged) {
			o := f.b.clone()
			o.nonce ^= 1
			o.sign(c.r.rng)
			f.b.sig = o.sig
		}
		return true
	})
	v5("coinbase of two outputs", func(c *chainRun, i uint32, s *spec) bool {
		s.post = func(f *forged) {
			o := &f.b.base.outs[0]
			if o.amt < 2 {
				return
			}
			x := 1 + uint64(c.r.rng.Int63n(int64(o.amt-1)))
			o.amt -= x
			f.b.base.outs = append(f.b.base.outs, rOut{x, poolKey(5)})
		}
		return true
	})
	v5("coinbase extra", func(c *chainRun, i uint32, s *spec) bool {
		s.pre = func(f *forged) {
			e := formExtra(c.r.rng, 40)
			e = e[:33]
			k := poolKey(c.r.rng.Intn(64))
			key := append([]byte{1}, k[:]...)
			switch c.r.w.Choose(12) {
			case 6: // something after the zeros
				e = append(append(key, make([]byte, 1+c.r.w.Choose(250))...), byte(1+c.r.w.Choose(3)))
			case 7: // nonce too long
				n := []int{256, 257, 300, 511}[c.r.w.Choose(4)]
				e = append(uv(append(key, 2), uint64(n)), randBytes(c.r.rng, n)...)
			case 8: // tag of another size
				e = append(uv(append(key, 3), []uint64{0, 32, 34, 40, 161}[c.r.w.Choose(5)]), 0)
				e = append(e, randBytes(c.r.rng, 40)...)
			case 9: // a tag cut short
				e = append(append(key, 3, 33, 1), randBytes(c.r.rng, c.r.w.Choose(32))...)
			case 10: // nothing after a tag, or half a length
				e = append(key, [][]byte{{1}, {2}, {3}, {2, 0x80}, {3, 33}, {3, 33, 0x81}}[c.r.w.Choose(6)]...)
			case 11: // hidden behind other fields
				n := c.r.w.Choose(256)
				e = append(uv(append(key, 2), uint64(n)), randBytes(c.r.rng, n)...)
				e = append(append(e, 3, 33, 0), randBytes(c.r.rng, 32)...)
				e = append(e, make([]byte, c.r.w.Choose(3))...)
			case 0:
				e = append(append(e[:0:0], 3, 33, byte(c.r.w.Choose(3))), randBytes(c.r.rng, 32)...)
			case 1:
				k := poolKey(1)
				e = append(append(append(e[:0:0], 1), k[:]...), 3, 33, 0)
				e = append(e, randBytes(c.r.rng, 32)...)
			case 2:
				e = []byte{byte(4 + c.r.w.Choose(252)), 1, 2, 3}
			case 3:
				e = append([]byte{0}, make([]byte, 254+c.r.w.Choose(3))...)
			case 4:
				e = append([]byte{1}, randBytes(c.r.rng, 31)...)
			default:
				e = []byte{2, 5, 1, 2, 3, 4}
			}
			f.b.base.extra = e
		}
		return true
	})
	mut("output amount", "C05", txMut(func(c *chainRun, i uint32, t *rTx) bool {
		if i < upV5-5 {
			return false
		}
		k := c.r.w.Choose(len(t.outs))
		a := []uint64{11, 10000000001, 9999, 101, 1000000000001, 20000000000000001}[c.r.w.Choose(6)]
		old := t.outs[k].amt
		if a > old+t.ins[0].amt*1000 {
			return false
		}
		t.outs[k].amt = a
		t.ins[0].amt = t.ins[0].amt + a
		if t.ins[0].amt <= old {
			return false
		}
		t.ins[0].amt -= old
		return true
	}))
	// ---- transaction list
	mut("many transactions", "C07", func(c *chainRun, i uint32, s *spec) *forged {
		if !c.m.zone(i) {
			return nil
		}
		for n := 8 + c.r.w.Choose(250); n > 0; n-- {
			s.txs = append(s.txs, c.tx(i, 1, 2, 1, 33, minFee(i, 33)))
		}
		return c.m.forge(c.r.rng, i-1, *s)
	})
	mut("missing transaction", "C05", func(c *chainRun, i uint32, s *spec) *forged {
		if !c.withTxs(i, s, 1) {
			return nil
		}
		s.post = func(f *forged) {
			k := c.r.w.Choose(len(f.raws))
			f.raws = append(f.raws[:k], f.raws[k+1:]...)
		}
		return c.m.forge(c.r.rng, i-1, *s)
	})
	mut("extra transaction", "C05", func(c *chainRun, i uint32, s *spec) *forged {
		t := c.goodTx(i)
		s.post = func(f *forged) { f.raws = append(f.raws, t.encode()) }
		return c.m.forge(c.r.rng, i-1, *s)
	})
	mut("hash without transaction", "C05", postMut(func(c *chainRun, i uint32, f *forged) bool {
		f.b.txh = append(f.b.txh, randHash(c.r.rng))
		return true
	}))
	mut("swapped transactions", "C05", func(c *chainRun, i uint32, s *spec) *forged {
		if !c.withTxs(i, s, 2) {
			return nil
		}
		s.post = func(f *forged) {
			k := c.r.w.Choose(len(f.raws) - 1)
			f.raws[k], f.raws[k+1] = f.raws[k+1], f.raws[k]
		}
		return c.m.forge(c.r.rng, i-1, *s)
	})
	mut("transaction twice", "C05", func(c *chainRun, i uint32, s *spec) *forged {
		if !c.withTxs(i, s, 1) {
			return nil
		}
		k := c.r.w.Choose(len(s.txs))
		s.txs = append(s.txs, s.txs[k])
		return c.m.forge(c.r.rng, i-1, *s)
	})
	mut("trailing bytes", "C05", func(c *chainRun, i uint32, s *spec) *forged {
		if !c.withTxs(i, s, 1) {
			return nil
		}
		s.pre = func(f *forged) {
			k := c.r.w.Choose(len(f.raws))
			f.raws[k] = append(f.raws[k], randBytes(c.r.rng, 1+c.r.w.Choose(80))...)
		}
		return c.m.forge(c.r.rng, i-1, *s)
	})
	mut("transaction cut short", "C05", func(c *chainRun, i uint32, s *spec) *forged {
		if !c.withTxs(i, s, 1) {
			return nil
		}
		s.pre = func(f *forged) {
			k := c.r.w.Choose(len(f.raws))
			n := 1 + c.r.w.Choose(len(f.raws[k])-1)
			f.raws[k] = f.raws[k][:len(f.raws[k])-n]
		}
		return c.m.forge(c.r.rng, i-1, *s)
	})
	mut("non-canonical number", "C05", func(c *chainRun, i uint32, s *spec) *forged {
		if !c.withTxs(i, s, 1) {
			return nil
		}
		s.pre = func(f *forged) {
			// version 1 written in two bytes
			k := c.r.w.Choose(len(f.raws))
			f.raws[k] = append([]byte{0x81, 0x00}, f.raws[k][1:]...)
		}
		return c.m.forge(c.r.rng, i-1, *s)
	})
	mut("listed hash changed", "C05", func(c *chainRun, i uint32, s *spec) *forged {
		if !c.withTxs(i, s, 1) {
			return nil
		}
		s.post = func(f *forged) {
			k := c.r.w.Choose(len(f.b.txh))
			p := []int{31, 0, c.r.w.Choose(32)}[c.r.w.Choose(3)]
			f.b.txh[k][p] ^= byte(1 << c.r.w.Choose(8))
		}
		return c.m.forge(c.r.rng, i-1, *s)
	})
	mut("delivered transaction changed", "C05", func(c *chainRun, i uint32, s *spec) *forged {
		if !c.withTxs(i, s, 1) {
			return nil
		}
		s.post = func(f *forged) {
			k := c.r.w.Choose(len(f.raws))
			// anywhere: often in a signature
			p := c.r.w.Choose(len(f.raws[k]))
			f.raws[k][p] ^= 1
		}
		return c.m.forge(c.r.rng, i-1, *s)
	})
	// ---- transaction amounts and fees
	mut("fee at the minimum", "C04 C07", txMut(func(c *chainRun, i uint32, t *rTx) bool { return setFee(t, minFee(i, len(t.extra))) }))
	mut("fee below the minimum", "C04", txMut(func(c *chainRun, i uint32, t *rTx) bool {
		d := []uint64{1, 1, 2, minFee(i, len(t.extra)) / 2, minFee(i, len(t.extra))}[c.r.w.Choose(5)]
		return setFee(t, minFee(i, len(t.extra))-d)
	}))
	mut("fee for a larger extra", "C04", txMut(func(c *chainRun, i uint32, t *rTx) bool {
		n := []int{100, 101, 102, 150, 1000}[c.r.w.Choose(5)]
		t.extra = mkExtra(c.r.rng, n)
		f := minFee(i, n)
		return setFee(t, f-uint64(c.r.w.Choose(2)))
	}))
	mut("spends more than it has", "C04", txMut(func(c *chainRun, i uint32, t *rTx) bool {
		in, _ := sums(t)
		t.outs[0].amt = in + 1 + uint64(c.r.w.Choose(2))*1000000
		return true
	}))
	mut("outputs overflow", "C04 C05", txMut(func(c *chainRun, i uint32, t *rTx) bool {
		x := uint64(1)<<63 + uint64(c.r.rng.Int63n(1<<40))
		y := []rOut{{x, poolKey(2)}, {-x, poolKey(3)}}
		if c.r.w.Choose(2) == 1 {
			// the sum of the first two is exactly one too many
			t.outs = append(y, t.outs...)
			return true
		}
		t.outs = append(t.outs, y...)
		return true
	}))
	mut("inputs overflow", "C04 C05", txMut(func(c *chainRun, i uint32, t *rTx) bool {
		x := uint64(1)<<63 + uint64(c.r.rng.Int63n(1<<40))
		for _, a := range []uint64{x, -x} {
			t.ins = append(t.ins, rIn{amt: a, offs: []uint64{1, 2}, ki: c.freshImage()})
			t.sigs = append(t.sigs, make([]byte, 128))
		}
		return true
	}))
	mut("zero output", "C05", txMut(func(c *chainRun, i uint32, t *rTx) bool {
		k := c.spot(len(t.outs) + 1)
		t.outs = append(t.outs[:k:k], append([]rOut{{0, poolKey(1)}}, t.outs[k:]...)...)
		return true
	}))
	mut("no outputs", "C05", txMut(func(c *chainRun, i uint32, t *rTx) bool { t.outs = nil; return true }))
	mut("output key", "C05", txMut(func(c *chainRun, i uint32, t *rTx) bool {
		t.outs[c.spot(len(t.outs))].key = badKey(c.r.w.Choose(20))
		return true
	}))
	mut("key image twice in a transaction", "C05", txMut(func(c *chainRun, i uint32, t *rTx) bool {
		if len(t.ins) < 2 {
			return false
		}
		a := c.spot(len(t.ins) - 1)
		b := a + 1 + c.spot(len(t.ins)-1-a)
		t.ins[b].ki = t.ins[a].ki
		return true
	}))
	mut("key image in two transactions", "C05", func(c *chainRun, i uint32, s *spec) *forged {
		if !c.m.zone(i) {
			return nil
		}
		n := []int{2, 2, 10, 40}[c.r.w.Choose(4)]
		a := c.tx(i, n, 2, 2, 33, minFee(i, 33))
		b := c.tx(i, n, 2, 2, 33, minFee(i, 33))
		b.ins[c.spot(n)].ki = a.ins[c.spot(n)].ki
		if c.r.w.Choose(6) == 5 {
			for n := 1 + c.r.w.Choose(60); n > 0; n-- {
				s.txs = append(s.txs, c.tx(i, 1, 2, 1, 33, minFee(i, 33)))
			}
		}
		s.txs = append([]*rTx{a}, append(s.txs, b)...)
		return c.m.forge(c.r.rng, i-1, *s)
	})
	mut("empty ring", "C05", txMut(func(c *chainRun, i uint32, t *rTx) bool {
		k := c.spot(len(t.ins))
		t.ins[k].offs = nil
		t.sigs[k] = nil
		return true
	}))
	mut("repeated output", "C05", txMut(func(c *chainRun, i uint32, t *rTx) bool {
		k := c.spot(len(t.ins))
		if c.r.w.Choose(2) == 1 {
			n := 3 + c.r.w.Choose(18)
			for t.ins[k].offs = nil; len(t.ins[k].offs) < n; {
				t.ins[k].offs = append(t.ins[k].offs, uint64(1+c.r.rng.Intn(1000)))
			}
			t.sigs[k] = randBytes(c.r.rng, 64*n)
		}
		t.ins[k].offs[1+c.spot(len(t.ins[k].offs)-1)] = 0
		return true
	}))
	mut("first output zero", "C05 C07", txMut(func(c *chainRun, i uint32, t *rTx) bool { t.ins[0].offs[0] = 0; return true }))
	mut("no inputs", "C05", txMut(func(c *chainRun, i uint32, t *rTx) bool { t.ins, t.sigs = nil, nil; return true }))
	mut("generation input", "C05", txMut(func(c *chainRun, i uint32, t *rTx) bool {
		t.ins = append(t.ins, rIn{cb: true, idx: uint64(i)})
		return true
	}))
	mut("only a generation input", "C05", txMut(func(c *chainRun, i uint32, t *rTx) bool {
		t.ins = []rIn{{cb: true, idx: uint64(i)}}
		t.sigs = nil
		return true
	}))
	mixin := func(name, cat string, n func(c *chainRun, i uint32) int) {
		mut(name, cat, txMut(func(c *chainRun, i uint32, t *rTx) bool {
			k := n(c, i)
			if k <= 0 {
				return false
			}
			all, one := c.r.w.Choose(2) == 1, c.spot(len(t.ins))
			for j := range t.ins {
				if j != one && !all {
					continue
				}
				t.ins[j].offs = nil
				for x := 0; x < k; x++ {
					t.ins[j].offs = append(t.ins[j].offs, uint64(x+1))
				}
				t.sigs[j] = randBytes(c.r.rng, 64*k)
			}
			return true
		}))
	}
	mixin("mixin too large", "C05", func(c *chainRun, i uint32) int { return 21 + c.r.w.Choose(2)*9 })
	mixin("mixin at the limit", "C05 C07", func(c *chainRun, i uint32) int { return 20 })
	mixin("no mixin", "C05 C07", func(c *chainRun, i uint32) int { return 1 })
	mut("transaction size limit", "C05 C07", txMut(func(c *chainRun, i uint32, t *rTx) bool {
		if i <= upV4 && c.r.rng.Intn(3) != 0 {
			return false
		}
		if !padTx(t, 249399+c.r.w.Choose(4)) {
			return false
		}
		n := len(t.encode())
		if !setFee(t, minFee(i, len(t.extra))) {
			return false
		}
		padTx(t, n)
		return true
	}))
	mut("key image domain", "C05", txMut(func(c *chainRun, i uint32, t *rTx) bool {
		return badImage(c, t)
	}))
	mut("key image domain at the last zone block", "C05", func(c *chainRun, i uint32, s *spec) *forged {
		// the block itself is the last checkpoint
		if len(c.m.cps) > 0 || c.noNewCps {
			return nil
		}
		s.txs = append(s.txs, c.tx(i, 1+c.r.w.Choose(2), 2, 2, 33, minFee(i, 33)))
		if c.r.w.Choose(3) != 2 {
			badImage(c, s.txs[len(s.txs)-1])
		}
		f := c.m.forge(c.r.rng, i-1, *s)
		if f == nil {
			return nil
		}
		c.addCheckpoint(i, f.b.hash())
		return f
	})
	mut("transaction outside the zone", "C05", func(c *chainRun, i uint32, s *spec) *forged {
		if c.m.zone(i) {
			return nil
		}
		s.txs = append(s.txs, c.goodTx(i))
		return c.m.forge(c.r.rng, i-1, *s)
	})
	// ---- fusion
	fus := func(name, cat string, fn func(c *chainRun, i uint32, t *rTx) bool) {
		mut(name, cat, func(c *chainRun, i uint32, s *spec) *forged {
			if !c.m.zone(i) {
				return nil
			}
			t := c.fusionTx(i)
			if t == nil || !fn(c, i, t) {
				return nil
			}
			s.txs = append(s.txs, t)
			return c.m.forge(c.r.rng, i-1, *s)
		})
	}
	fus("fusion", "C04 C07", func(c *chainRun, i uint32, t *rTx) bool { return true })
	fus("fusion with too few inputs", "C04", func(c *chainRun, i uint32, t *rTx) bool {
		// 11 inputs of 1..., sum decomposes into two outputs
		t.ins, t.sigs = t.ins[:11], t.sigs[:11]
		for k := range t.ins {
			t.ins[k].amt = 100000000
		}
		t.outs = []rOut{{100000000, poolKey(1)}, {1000000000, poolKey(2)}}
		return true
	})
	fus("fusion ratio", "C04", func(c *chainRun, i uint32, t *rTx) bool {
		// 12 inputs into 4 outputs: ratio 3
		for k := range t.ins {
			t.ins[k].amt = 100000000
		}
		t.ins, t.sigs = t.ins[:12], t.sigs[:12]
		t.ins[0].amt += 134 * 100000000
		// 146 x 1e8 has 3 digits; add one more
		t.ins[1].amt += 1000 * 100000000
		t.outs = nil
		for _, a := range []uint64{6, 40, 100, 1000} {
			t.outs = append(t.outs, rOut{a * 100000000, poolKey(3)})
		}
		return true
	})
	fus("fusion with an undecomposed sum", "C04", func(c *chainRun, i uint32, t *rTx) bool {
		in, _ := sums(t)
		if decomposeCount(in, 0) == 1 {
			return false
		}
		t.outs = []rOut{{in, poolKey(1)}}
		return true
	})
	fus("fusion dust", "C04 C07", func(c *chainRun, i uint32, t *rTx) bool {
		// an input below the dust threshold of the early versions
		t.ins, t.sigs = t.ins[:12], t.sigs[:12]
		for k := range t.ins {
			t.ins[k].amt = 100000000
		}
		t.ins[0].amt = 90000000
		t.ins[1].amt += 10000000
		t.outs = []rOut{{200000000, poolKey(1)}, {1000000000, poolKey(2)}}
		return true
	})
	fus("fusion of uneven amounts", "C04 C07", func(c *chainRun, i uint32, t *rTx) bool {
		return unevenFusion(c, t, dustAt(i))
	})
	fus("fusion decomposed with another dust threshold", "C04", func(c *chainRun, i uint32, t *rTx) bool {
		return unevenFusion(c, t, 100000000-dustAt(i))
	})
	fus("fusion size limit", "C04", func(c *chainRun, i uint32, t *rTx) bool {
		if i > upV3 && c.r.rng.Intn(3) != 0 {
			return false
		}
		return padTx(t, 299999+c.r.w.Choose(4))
	})
	// ---- checkpoints
	mut("checkpoint of another block", "C08", func(c *chainRun, i uint32, s *spec) *forged {
		if _, ok := c.m.cps[i]; ok || c.noNewCps {
			return c.m.forge(c.r.rng, i-1, *s)
		}
		// the checkpoint is for another valid block
		o := c.m.forge(c.r.rng, i-1, *s)
		if o == nil {
			return nil
		}
		c.addCheckpoint(i, o.b.hash())
		c.planned = o
		return c.m.forge(c.r.rng, i-1, *s)
	})
}

// fit pads the block to an exact size before the reward is known.
func (c *chainRun) fit(f *forged, i uint32, s *spec, size uint64, viaTx bool) {
	m := c.m
	for n := 0; n < 5; n++ {
		if !m.pay(c.r.rng, f, &spec{outs: s.outs}, i-1) {
			// over the limit: any outputs of the usual size do
			f.b.base.outs = []rOut{{1 << 40, poolKey(1)}}
		} else if s.tooBig {
			f.b.base.outs = []rOut{{baseReward(m.m[i-1].coins), poolKey(1)}}
		}
		d := int64(size) - int64(f.size())
		if d == 0 {
			return
		}
		if viaTx && len(f.txs) > 0 {
			t := f.txs[0]
			if int64(len(t.extra))+d < 0 {
				return
			}
			if d > 0 {
				t.extra = append(t.extra, make([]byte, d)...)
			} else {
				t.extra = t.extra[:int64(len(t.extra))+d]
			}
			f.sealTxs()
			continue
		}
		e := &f.b.base.extra
		if int64(len(*e))+d < 0 {
			return
		}
		if d > 0 {
			*e = append(*e, make([]byte, d)...)
		} else {
			*e = (*e)[:int64(len(*e))+d]
		}
	}
}

// sibling is a valid block on an older block.
func (c *chainRun) sibling(s *spec, back uint32) *forged {
	t := c.m.top
	if t < 1 || back >= t {
		back = 0
	}
	if t < 1 || t-1-back < c.m.first && t-1-back != 0 || (c.m.first > 1 && t-1-back < c.m.first+400) {
		return nil
	}
	prev := t - 1 - back
	q := c.baseSpec(prev)
	q.txs = nil
	return c.m.forge(c.r.rng, prev, q)
}

func (c *chainRun) addCheckpoint(i uint32, h hash32) {
	var err error
	c.inNode("AddCheckpoint", "C08", func() { err = c.n.bc.Checkpoints.AddCheckpoint(i, crypto.Hash(h)) })
	if err != nil {
		c.r.fail("C08", "checkpoint refused", "a checkpoint at a new position %d is refused: %v", i, err)
		return
	}
	c.m.cps[i] = h
	c.n.cps[i] = h
	if c.onCheckpoint != nil {
		c.onCheckpoint(i, h)
	}
	c.r.cover("op.checkpoint")
}

// crash points inside a submission
const (
	crashNone = iota
	crashBefore
	crashAfter
)

func (c *chainRun) wire() {
	c.n.st.Before = func(op string) error {
		if op != "push" {
			if c.readFail > 0 {
				if c.readFail--; c.readFail == 0 {
					c.readHit++
					c.r.w.Fault("storage read error")
					return errDisk
				}
			}
			return nil
		}
		c.pushes++
		if c.crash == crashBefore {
			c.die()
		}
		if e := c.pushErr; e != nil {
			c.pushErr = nil
			c.r.w.Fault("storage write error")
			return e
		}
		return nil
	}
	c.n.st.After = func(op string) {
		if op == "push" && c.crash == crashAfter {
			c.die()
		}
	}
}

func (c *chainRun) die() {
	c.r.w.KillProc(c.n.proc)
	c.r.w.Block("crashed", func() bool { return false }, -1)
}

// crashDuring submits a block while the process dies at a point of it.
func (c *chainRun) crashDuring(f *forged, point int) {
	r := c.r
	v := c.m.judge(f.b, f.raws, c.now())
	if v.inf.cd-c.m.m[c.m.top].cd == beyondRule {
		r.stop("C22:difficulty beyond the rule's arithmetic")
		return
	}
	blk, err := c.real(f)
	if err != nil {
		return
	}
	c.crash = point
	c.pushes = 0
	var aerr error
	done := r.call(c.n.proc, "AddBlock", 600*sec, func() { aerr = c.n.bc.AddBlock(blk, f.raws) })
	c.crash = crashNone
	if r.w.Crash != nil {
		r.stop("C11:crash in AddBlock: " + r.w.Crash.Class())
		return
	}
	if done {
		// no write was reached: an ordinary refusal
		if aerr == nil {
			r.stop("C02:accepted without a write")
			return
		}
		if v.ok() {
			r.fail("C07", "refused:"+aerr.Error(), "a valid block at index %d is refused: %v", c.m.top+1, aerr)
			return
		}
		c.checkRefused(f, f.b.hash(), "crash run")
		return
	}
	if !c.n.proc.Dead {
		r.fail("C09", "stuck:AddBlock", "AddBlock does not return: %s", r.w.Dump())
		return
	}
	r.w.Fault([]string{"", "crash before the write", "crash after the write"}[point])
	if point == crashAfter {
		if !v.ok() {
			r.fail(v.props(), "accepted:"+v.list()[0], "a block is written at index %d although: %v", c.m.top+1, v.list())
			return
		}
		c.restartOnly()
		c.adopt(f, v)
	} else {
		c.restartOnly()
		c.checkRefused(f, f.b.hash(), "a crash before the write")
	}
}

// restartOnly opens the chain without comparing it yet.
func (c *chainRun) restartOnly() {
	c.newProc()
	c.reopened = true // until the next block is accepted
	var err error
	if !c.inNode("restart", "C19", func() { err = c.n.open() }) {
		return
	}
	if err != nil {
		c.r.fail("C19 C03", "restart fails", "opening the chain over its own store fails: %v", err)
	}
}

// adopt records an accepted block in the model and compares what was stored.
func (c *chainRun) adopt(f *forged, v *verdict) {
	x := v.inf
	x.raw = f.b.encode()
	if info, _, ok := infoAt(c.n.st, x.idx); ok && !v.exactDiff {
		if g, ok := info["CumulativeDifficulty"]; ok {
			x.cd = g
		}
	}
	c.m.push(&x)
	c.accept = append(c.accept, f)
	c.nAccepted++
	c.checkTop("after a restart")
	c.checkIndex(x.idx, "after a restart")
}

// weights of the operations
type opWeights struct {
	valid, mutate, again, fault, crash, restart, foreign, clock, sparse, check int
}

var defaultOps = opWeights{40, 34, 7, 4, 3, 4, 1, 4, 2, 1}

func (o opWeights) pick(k int) int {
	for n, x := range []int{o.valid, o.mutate, o.again, o.fault, o.crash, o.restart, o.foreign, o.clock, o.sparse, o.check} {
		if k < x {
			return n
		}
		k -= x
	}
	return 0
}

func (o opWeights) total() int {
	return o.valid + o.mutate + o.again + o.fault + o.crash + o.restart + o.foreign + o.clock + o.sparse + o.check
}

var eraRule = map[string]bool{"version": true, "parent version": true, "timestamp at the future limit": true,
	"timestamp over the future limit": true, "size limit": true, "size over the limit": true, "penalised size": true,
	"size at the median": true, "size over twice the median": true, "coinbase extra limit": true, "output amount": true,
	"fee at the minimum": true, "fee below the minimum": true, "fee for a larger extra": true, "mixin too large": true,
	"mixin at the limit": true, "no mixin": true, "transaction size limit": true, "fusion": true, "fusion dust": true,
	"fusion of uneven amounts": true, "fusion decomposed with another dust threshold": true, "fusion size limit": true}

var eraPool []mutator

func eraMutators() []mutator {
	if eraPool == nil {
		for _, x := range mutators {
			if eraRule[x.name] {
				eraPool = append(eraPool, x)
			}
		}
	}
	return eraPool
}

func nearUpgrade(i uint32) bool {
	for _, e := range edges {
		if i+1 >= e && i <= e+1 {
			return true
		}
	}
	return false
}

// mutated draws a mutated block, aimed at the focus property most of the time.
func (c *chainRun) mutated() (*forged, string) {
	w := c.r.w
	var pool []mutator
	if w.Choose(100) < 65 {
		pool = c.pool
	}
	if len(pool) == 0 {
		pool = mutators
	}
	if nearUpgrade(c.m.top+1) && w.Choose(3) == 2 {
		// rules that change with the height
		pool = nil
		for _, x := range c.pool {
			if eraRule[x.name] {
				pool = append(pool, x)
			}
		}
		if len(pool) == 0 || w.Choose(4) == 3 {
			pool = eraMutators()
		}
	}
	if versionAt(c.m.top+1) == 5 && w.Choose(6) == 5 {
		pool = mutators5
	}
	for n := 0; n < 6; n++ {
		x := pool[w.Choose(len(pool))]
		i := c.m.top + 1
		s := c.baseSpec(c.m.top)
		c.drawTxs(i, &s, 2)
		if f := x.fn(c, i, &s); f != nil {
			c.r.cover("mutation.%s", x.name)
			return f, x.name
		}
	}
	return nil, ""
}

// edgeSweep tries every rule that changes with the height, next to an upgrade.
func (c *chainRun) edgeSweep(i uint32) {
	c.r.cover("op.edgesweep")
	for _, x := range c.pool {
		if !eraRule[x.name] {
			continue
		}
		s := c.baseSpec(c.m.top)
		f := x.fn(c, i, &s)
		if f == nil {
			continue
		}
		c.submit(f, x.name)
		if c.m.top+1 != i {
			return
		}
	}
}

// ops performs n operations.
func (c *chainRun) ops(n int, o opWeights) {
	r, w := c.r, c.r.w
	for k := 0; k < n; k++ {
		if c.planned != nil && w.Choose(3) != 2 {
			f := c.planned
			c.planned = nil
			c.submit(f, "the checkpointed block")
			continue
		}
		if i := c.m.top + 1; nearUpgrade(i) && c.swept != i && c.onlyOther == nil && w.Choose(2) == 1 {
			c.swept = i
			c.edgeSweep(i)
			continue
		}
		switch o.pick(w.Choose(o.total())) {
		case 0:
			w.Sleep(int64(w.Choose(300)) * sec)
			f := c.valid()
			if f == nil {
				r.cover("forge.none")
				continue
			}
			c.submit(f, "next block")
		case 1:
			if w.Choose(12) == 11 {
				if c.onlyOther != nil && w.Choose(4) != 0 {
					c.storm(c.onlyOther)
				} else {
					c.storm(func(f *forged, what string) { c.submit(f, what) })
				}
				continue
			}
			if f, what := c.mutated(); f != nil {
				c.submit(f, what)
			}
		case 2:
			c.again()
		case 3:
			f := c.valid()
			if w.Choose(4) == 3 {
				f, _ = c.mutated()
			}
			if f == nil {
				continue
			}
			c.pushErr = errDisk
			c.submit(f, "block with a failing write")
			if w.Choose(2) == 1 {
				c.submit(f, "the same block again")
			}
		case 4:
			f := c.valid()
			if w.Choose(4) == 3 {
				f, _ = c.mutated()
			}
			if f == nil {
				continue
			}
			c.crashDuring(f, 1+w.Choose(2))
			if w.Choose(2) == 1 {
				c.submit(f, "the same block again")
			}
		case 5:
			c.restart()
		case 6:
			c.foreign()
		case 7:
			c.jump()
		case 8:
			c.sparse()
		case 9:
			c.checkAll("in between")
		}
	}
}

// sized draws a block of a notable size.
func (c *chainRun) sized(names ...string) (*forged, string) {
	w := c.r.w
	for n := 0; n < 4; n++ {
		name := names[w.Choose(len(names))]
		s := c.baseSpec(c.m.top)
		for _, x := range mutators {
			if x.name == name {
				if f := x.fn(c, c.m.top+1, &s); f != nil {
					return f, name
				}
			}
		}
	}
	return nil, ""
}

// storm gives a series of refused blocks of one kind, some of them large,
// then a block whose verdict depends on what is remembered of the last ones.
func (c *chainRun) storm(give func(f *forged, what string)) {
	w := c.r.w
	c.r.cover("op.storm")
	kind := w.Choose(3)
	c.noNewCps = true
	defer func() { c.noNewCps = false }()
	for n := w.Range(3, 16); n > 0; n-- {
		var f *forged
		var what string
		switch kind {
		case 0:
			f, what = c.sized("penalty ignored", "reward one more", "reward one less")
		case 1:
			f, what = c.sized("reward one more", "reward doubled", "penalty ignored")
		default:
			f, what = c.mutated()
		}
		if f == nil {
			continue
		}
		if v := c.m.judge(f.b, f.raws, c.now()); v.ok() || v.has("C06") {
			continue
		}
		give(f, "storm: "+what)
	}
	for n := 1 + w.Choose(2); n > 0; n-- {
		if f, what := c.sized("penalised size", "penalised size", "size at the median"); f != nil {
			c.submit(f, "after a storm: "+what)
		}
	}
}

// again resubmits something seen before.
func (c *chainRun) again() {
	w := c.r.w
	switch k := w.Choose(5); {
	case k == 4:
		c.altered()
	case k < 2 && len(c.refused) > 0:
		c.submit(c.refused[w.Choose(len(c.refused))], "a refused block again")
	case k == 2 && len(c.accept) > 0:
		c.submit(c.accept[w.Choose(len(c.accept))], "an accepted block again")
	default:
		// an orphan first, then its parent, then the orphan again
		f := c.valid()
		if f == nil {
			return
		}
		v := c.m.judge(f.b, f.raws, c.now())
		if !v.ok() {
			return
		}
		m := c.m.clone()
		x := v.inf
		x.raw = f.b.encode()
		m.push(&x)
		old := c.m
		c.m = m
		s := c.baseSpec(m.top)
		child := m.forge(c.r.rng, m.top, s)
		c.m = old
		if child == nil {
			return
		}
		c.submit(child, "an orphan")
		if c.submit(f, "the orphan's parent") {
			c.submit(child, "the former orphan")
		}
	}
}

// altered submits a valid block that is refused for a passing reason, then
// the same block with something changed, then the block itself.
func (c *chainRun) altered() {
	w := c.r.w
	i := c.m.top + 1
	s := c.baseSpec(c.m.top)
	c.withTxs(i, &s, 1+w.Choose(3))
	f := c.m.forge(c.r.rng, c.m.top, s)
	if f == nil || !c.m.judge(f.b, f.raws, c.now()).ok() {
		return
	}
	g := f.clone()
	switch kind := w.Choose(7); {
	case versionAt(i) == 5 && kind < 3:
		g.b.sig[w.Choose(64)] ^= byte(1 << w.Choose(8))
	case kind < 4 && len(g.raws) > 0:
		k := w.Choose(len(g.raws))
		p := w.Choose(len(g.raws[k]))
		if w.Choose(2) == 1 {
			p = len(g.raws[k]) - 1 - w.Choose(64)
		}
		g.raws[k][p] ^= byte(1 << w.Choose(8))
	case kind == 4 && len(g.raws) > 0:
		g.raws = g.raws[:len(g.raws)-1]
	case kind == 5 && len(g.raws) > 1:
		g.raws[0], g.raws[1] = g.raws[1], g.raws[0]
	case kind == 6:
		g.raws = append(g.raws, c.goodTx(i).encode())
	default:
		k := w.Choose(len(g.b.base.outs))
		g.b.base.outs[k].amt++
		if versionAt(i) == 5 {
			g.b.sign(c.r.rng)
		}
	}
	if c.m.judge(g.b, g.raws, c.now()).ok() {
		return
	}
	c.r.cover("op.altered")
	if w.Choose(3) != 2 {
		c.pushErr = errDisk
		c.submit(f, "block with a failing write")
	}
	if c.submit(g, "the same block altered") {
		return
	}
	c.submit(f, "the unaltered block")
}

// jump moves the node's clock; a block that was too early is tried again.
func (c *chainRun) jump() {
	w := c.r.w
	c.r.w.Fault("clock jump")
	old := c.clockOff
	d := []int64{0, 1, -1, 60, -60, 720, -720, 1680, -1680, 3600, -3600, 86400, -7200}[w.Choose(13)]
	d += int64(w.Choose(3)) - 1
	n := old + d
	// stay within a day, mostly
	if n > 100000 || n < -100000 {
		n = 0
	}
	c.setClock(n)
	if w.Choose(2) == 1 && len(c.refused) > 0 {
		c.submit(c.refused[w.Choose(len(c.refused))], "a refused block after a clock jump")
	}
}

// chainScenario is the sequential scenario with a focus.
func chainScenario(focus string, o opWeights, contiguous bool, minOps, maxOps int) func(r *run) {
	return func(r *run) {
		w := r.w
		h := pickHistory(r, contiguous)
		c, err := newChainRun(r, h)
		if err != nil {
			r.w.HarnessErr = "history: " + err.Error()
			return
		}
		for _, x := range mutators {
			for _, p := range splitWords(x.cat) {
				if p == focus {
					c.pool = append(c.pool, x)
				}
			}
		}
		w.P.MapPerm = w.Choose(3) == 2
		if w.Choose(10) < 6 {
			// a far checkpoint: transactions can be valid below it
			i := h.top + 500 + uint32(w.Choose(1000))
			hh := randHash(r.rng)
			c.m.cps[i] = hh
			c.n.cps[i] = hh
		}
		if w.Choose(4) == 3 {
			c.clockOff = int64(w.Choose(7200)) - 3600
		}
		n := w.Range(minOps, maxOps)
		w.Run(func() {
			c.wire()
			c.restartOnly()
			c.checkTop("at the start")
			c.ops(n, o)
			c.checkAll("at the end")
			if focus == "C19" || w.Choose(4) == 3 {
				c.restart()
				c.checkAll("after the last restart")
			}
			r.cover("chain.accepted>0:%v", c.nAccepted > 0)
		})
	}
}

func splitWords(s string) []string {
	var r []string
	for len(s) > 0 {
		k := 0
		for k < len(s) && s[k] != ' ' {
			k++
		}
		if k > 0 {
			r = append(r, s[:k])
		}
		for k < len(s) && s[k] == ' ' {
			k++
		}
		s = s[k:]
	}
	return r
}

func init() {
	reg := func(p string, o opWeights, contiguous bool, lo, hi int) {
		register(p, scenario{"chain", 1, chainScenario(p, o, contiguous, lo, hi)})
	}
	reg("C01", defaultOps, false, 8, 40)
	reg("C02", opWeights{30, 30, 14, 10, 6, 3, 1, 3, 2, 1}, false, 8, 40)
	reg("C04", opWeights{40, 50, 2, 1, 1, 1, 0, 3, 0, 1}, false, 8, 40)
	reg("C05", opWeights{25, 65, 3, 1, 1, 1, 0, 2, 0, 1}, false, 8, 50)
	reg("C06", opWeights{35, 40, 8, 1, 1, 1, 0, 14, 0, 0}, false, 8, 50)
	reg("C07", opWeights{60, 25, 4, 2, 2, 3, 0, 3, 0, 1}, false, 8, 50)
	reg("C19", opWeights{40, 15, 5, 3, 10, 20, 5, 3, 2, 2}, false, 6, 30)
	reg("C20", opWeights{45, 10, 4, 2, 2, 4, 0, 1, 40, 0}, true, 6, 40)
	reg("C22", opWeights{70, 12, 3, 2, 3, 3, 0, 4, 0, 0}, false, 10, 90)
}
