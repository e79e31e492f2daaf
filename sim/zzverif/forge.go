//go:build go1.21

package main

import (
	"crypto/ed25519"
	"encoding/hex"
	"math/rand"
)

func hexHash(s string) (h hash32) {
	b, err := hex.DecodeString(s)
	if err != nil || len(b) != 32 {
		panic("bad constant")
	}
	copy(h[:], b)
	return
}

// keyPool are valid public keys, which also serve as key images.
var keyPool []hash32

func poolKey(i int) hash32 {
	for len(keyPool) <= i {
		seed := poolSeed(len(keyPool))
		k := ed25519.NewKeyFromSeed(seed[:])
		var h hash32
		copy(h[:], k[32:])
		keyPool = append(keyPool, h)
	}
	return keyPool[i]
}

func poolSeed(n int) (seed [32]byte) {
	seed[0], seed[1], seed[2] = byte(n), byte(n>>8), byte(n>>16)
	seed[31] = 77
	return
}

var badKeys []hash32

// badKey is an encoding that is no curve point.
func badKey(i int) hash32 {
	for n := len(badKeys); len(badKeys) <= i; n++ {
		k := keccak([]byte{byte(n), 1, 2, 3})
		k[31] &= 0x3f
		for onCurve(k) {
			k = keccak(k[:])
			k[31] &= 0x3f
		}
		badKeys = append(badKeys, k)
	}
	return badKeys[i]
}

func randHash(r *rand.Rand) (h hash32) {
	r.Read(h[:])
	return
}

// split divides an amount into up to n positive parts.
func split(r *rand.Rand, amount uint64, n int) []uint64 {
	if amount == 0 {
		return nil
	}
	var p []uint64
	for n > 1 && amount > 1 {
		x := uint64(r.Int63n(int64(amount>>1)+1)) + 1
		if x >= amount {
			break
		}
		p = append(p, x)
		amount -= x
		n--
	}
	return append(p, amount)
}

// spec describes a block to forge.
type spec struct {
	ts     uint64
	txs    []*rTx
	outs   int
	extra  int // length of the coinbase extra
	depth  int // merge mining depth (versions 2 and 3)
	branch int // parent transaction branch length
	minor  byte
	tooBig bool
	mutAmt func(want uint64) uint64 // pays another amount
	pre    func(f *forged)          // changes the block before the reward is set
	post   func(f *forged)          // and after
	signed func(f *forged)          // and after it is signed (version 5)
}

// forged is a block with its transactions as delivered.
type forged struct {
	b    *rBlock
	txs  []*rTx
	raws [][]byte
}

func (f *forged) clone() *forged {
	c := &forged{b: f.b.clone()}
	for _, t := range f.txs {
		c.txs = append(c.txs, t.clone())
	}
	for _, x := range f.raws {
		c.raws = append(c.raws, append([]byte{}, x...))
	}
	return c
}

// sealTxs recomputes the delivered bytes and the hash list.
func (f *forged) sealTxs() {
	f.raws = nil
	f.b.txh = nil
	for _, t := range f.txs {
		f.raws = append(f.raws, t.encode())
		f.b.txh = append(f.b.txh, t.hash())
	}
}

func (f *forged) size() uint64 {
	n := uint64(len(f.b.base.encode()))
	for _, x := range f.raws {
		n += uint64(len(x))
	}
	return n
}

func mkExtra(r *rand.Rand, n int) []byte {
	x := make([]byte, n)
	if n >= 33 {
		x[0] = 1
		k := poolKey(r.Intn(64))
		copy(x[1:], k[:])
	}
	return x
}

func mkParent(r *rand.Rand, ts uint64, depth, branch int) *rParent {
	p := &rParent{major: 1, minor: byte(r.Intn(2)), ts: ts, prev: randHash(r), nonce: r.Uint32()}
	p.txCount = 1
	if branch > 0 {
		p.txCount = 1<<uint(branch) + uint64(r.Intn(1<<uint(branch)))
	}
	for i := 0; i < refTreeDepth(p.txCount); i++ {
		p.branch = append(p.branch, randHash(r))
	}
	b := &rTx{ver: 1, unlock: uint64(r.Intn(1000000)), ins: []rIn{{cb: true, idx: uint64(r.Intn(1000000))}}}
	b.outs = []rOut{{amt: uint64(1 + r.Intn(1<<30)), key: poolKey(r.Intn(64))}}
	mr := randHash(r)
	b.extra = append([]byte{1}, randBytes(r, 32)...)
	if r.Intn(3) == 0 {
		k := r.Intn(200)
		b.extra = append(b.extra, 2)
		b.extra = uv(b.extra, uint64(k))
		b.extra = append(b.extra, randBytes(r, k)...)
	}
	b.extra = append(b.extra, 3)
	b.extra = uv(b.extra, 33)
	b.extra = uv(b.extra, uint64(depth))
	b.extra = append(b.extra, mr[:]...)
	p.base = b
	for i := 0; i < depth; i++ {
		p.bcBranch = append(p.bcBranch, randHash(r))
	}
	return p
}

func randBytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	r.Read(b)
	return b
}

// pay sets the coinbase outputs so that the reward rule holds for the block as
// it is; false when no amount fits.
func (m *model) pay(r *rand.Rand, f *forged, s *spec, prev uint32) bool {
	i := prev + 1
	fee := uint64(0)
	for _, t := range f.txs {
		in, out := uint64(0), uint64(0)
		for _, x := range t.ins {
			in += x.amt
		}
		for _, x := range t.outs {
			out += x.amt
		}
		if in >= out {
			fee += in - out
		}
	}
	keys := make([]hash32, s.outs+1)
	for k := range keys {
		keys[k] = poolKey(r.Intn(64))
	}
	frac := make([]uint64, s.outs+1)
	for k := range frac {
		frac[k] = uint64(r.Intn(256)) + 1
	}
	set := func(amount uint64) {
		f.b.base.outs = nil
		left := amount
		for k := 0; k < s.outs-1; k++ {
			x := amount / 256 / uint64(s.outs) * frac[k]
			if x == 0 || x >= left {
				break
			}
			f.b.base.outs = append(f.b.base.outs, rOut{x, keys[k]})
			left -= x
		}
		if left > 0 {
			f.b.base.outs = append(f.b.base.outs, rOut{left, keys[s.outs]})
		}
	}
	amount := baseReward(m.m[prev].coins) + fee
	for n := 0; n < 12; n++ {
		set(amount)
		want, _, ok := m.reward(prev, versionAt(i), f.size(), fee)
		if !ok {
			// no reward is right for a block of this size
			return s.tooBig
		}
		if want == 0 {
			return false
		}
		if want == amount {
			if s.mutAmt != nil {
				set(s.mutAmt(amount))
			}
			return true
		}
		amount = want
		if n == 8 && len(f.b.base.extra) < 900 {
			f.b.base.extra = append(f.b.base.extra, 0)
		}
	}
	return false
}

// forge builds a valid next block on index prev (the top in most uses).
func (m *model) forge(r *rand.Rand, prev uint32, s spec) *forged {
	i := prev + 1
	if s.outs <= 0 {
		s.outs = 1
	}
	b := &rBlock{major: versionAt(i), minor: s.minor, ts: s.ts, prev: m.m[prev].hash, nonce: r.Uint32()}
	b.base = &rTx{ver: 1, unlock: uint64(i) + 10, ins: []rIn{{cb: true, idx: uint64(i)}}, extra: mkExtra(r, s.extra)}
	if b.merged() {
		b.parent = mkParent(r, s.ts, s.depth, s.branch)
	}
	if b.major == 5 {
		s.outs = 1
		b.base.extra = formExtra(r, s.extra)
	}
	f := &forged{b: b, txs: s.txs}
	f.sealTxs()
	if s.pre != nil {
		s.pre(f)
	}
	if !m.pay(r, f, &s, prev) {
		return nil
	}
	if s.post != nil {
		s.post(f)
	}
	if b.major == 5 {
		b.sign(r)
		if s.signed != nil {
			s.signed(f)
		}
	}
	return f
}

// ---------------------------------------------------------------- transactions

func (c *chainRun) freshImage() hash32 {
	c.ki++
	return poolKey(64 + c.ki%2000)
}

// tx builds a transaction that obeys the rules of index i.
func (c *chainRun) tx(i uint32, ins, mixin, outs, extra int, fee uint64) *rTx {
	r := c.r.rng
	t := &rTx{ver: 1, unlock: uint64(r.Intn(3)) * uint64(r.Intn(1000)), extra: mkExtra(r, extra)}
	sum := uint64(0)
	for k := 0; k < ins; k++ {
		in := rIn{amt: uint64(r.Int63n(1e12)) + 1e9, ki: c.freshImage()}
		for j := 0; j < mixin; j++ {
			in.offs = append(in.offs, uint64(r.Intn(100000)+1))
		}
		if mixin > 0 && r.Intn(4) == 0 {
			in.offs[0] = 0
		}
		t.ins = append(t.ins, in)
		t.sigs = append(t.sigs, randBytes(r, 64*mixin))
		sum += in.amt
	}
	if sum < fee+uint64(outs) {
		t.ins[0].amt += fee + uint64(outs)
		sum += fee + uint64(outs)
	}
	if i >= upV5 {
		// amounts of one digit: the first input makes up for it
		left := uint64(0)
		for k := 0; k < outs; k++ {
			a := uint64(1 + r.Intn(9))
			for n := r.Intn(13); n > 0; n-- {
				a *= 10
			}
			t.outs = append(t.outs, rOut{a, poolKey(r.Intn(64))})
			left += a
		}
		rest := sum - t.ins[0].amt
		for rest >= left+fee {
			t.outs = append(t.outs, rOut{1000000000000, poolKey(r.Intn(64))})
			left += 1000000000000
		}
		t.ins[0].amt = left + fee - rest
		return t
	}
	for _, a := range split(r, sum-fee, outs) {
		t.outs = append(t.outs, rOut{a, poolKey(r.Intn(64))})
	}
	return t
}

// decompose splits an amount into its decimal digits, the lowest together.
func decompose(a, dust uint64) (parts []uint64) {
	d, order, handled := uint64(0), uint64(1), false
	for a != 0 {
		x := a % 10 * order
		a /= 10
		order *= 10
		if d+x <= dust {
			d += x
			continue
		}
		if !handled && d != 0 {
			parts = append(parts, d)
			handled = true
		}
		if x != 0 {
			parts = append(parts, x)
		}
	}
	if !handled && d != 0 {
		parts = append(parts, d)
	}
	return parts
}

// fusionTx merges inputs without a fee.
func (c *chainRun) fusionTx(i uint32) *rTx {
	r := c.r.rng
	t := &rTx{ver: 1, extra: mkExtra(r, 33)}
	n := 12 + r.Intn(5)
	amt := uint64(1e8) * uint64(1+r.Intn(9))
	for k := 0; k < n; k++ {
		in := rIn{amt: amt, ki: c.freshImage()}
		mix := 2
		for j := 0; j < mix; j++ {
			in.offs = append(in.offs, uint64(r.Intn(1000)+1))
		}
		t.ins = append(t.ins, in)
		t.sigs = append(t.sigs, randBytes(r, 64*mix))
	}
	sum := amt * uint64(n)
	for _, p := range decompose(sum, dustAt(i)) {
		t.outs = append(t.outs, rOut{p, poolKey(r.Intn(64))})
	}
	if len(t.outs)*4 > len(t.ins) {
		return nil
	}
	return t
}

// minFee is the smallest fee that satisfies both fee rules.
func minFee(i uint32, extra int) uint64 {
	f := minFeeAt(i)
	if e := extraFeeAt(i, extra); e > f {
		f = e
	}
	return f
}
