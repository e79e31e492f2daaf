//go:build go1.21

package main

// Reference codec and hashing of blocks and transactions, written from the
// protocol description and independent of the repository's code.

import (
	"encoding/binary"
	"errors"
	"math/big"
	"math/bits"

	"golang.org/x/crypto/sha3"
)

type hash32 = [32]byte

func keccak(b ...[]byte) (h hash32) {
	k := sha3.NewLegacyKeccak256()
	for _, x := range b {
		k.Write(x)
	}
	copy(h[:], k.Sum(nil))
	return
}

func uv(b []byte, v uint64) []byte {
	for v >= 0x80 {
		b = append(b, byte(v)|0x80)
		v >>= 7
	}
	return append(b, byte(v))
}

type rIn struct {
	cb   bool
	idx  uint64 // block index of a generation input
	amt  uint64
	offs []uint64
	ki   hash32
}

type rOut struct {
	amt uint64
	key hash32
}

type rTx struct {
	ver    uint64
	unlock uint64
	ins    []rIn
	outs   []rOut
	extra  []byte
	sigs   [][]byte // 64 bytes per ring member, per input
}

func (t *rTx) clone() *rTx {
	c := *t
	c.ins = append([]rIn{}, t.ins...)
	for i := range c.ins {
		c.ins[i].offs = append([]uint64{}, t.ins[i].offs...)
	}
	c.outs = append([]rOut{}, t.outs...)
	c.extra = append([]byte{}, t.extra...)
	c.sigs = append([][]byte{}, t.sigs...)
	return &c
}

// countHook, if set, replaces the counts and lengths an encoder writes.
var countHook func(n uint64) uint64

func count(b []byte, n int) []byte {
	if countHook != nil {
		return uv(b, countHook(uint64(n)))
	}
	return uv(b, uint64(n))
}

func (t *rTx) prefix() []byte {
	b := uv(nil, t.ver)
	b = uv(b, t.unlock)
	b = count(b, len(t.ins))
	for _, i := range t.ins {
		if i.cb {
			b = append(b, 0xff)
			b = uv(b, i.idx)
			continue
		}
		b = append(b, 2)
		b = uv(b, i.amt)
		b = count(b, len(i.offs))
		for _, o := range i.offs {
			b = uv(b, o)
		}
		b = append(b, i.ki[:]...)
	}
	b = count(b, len(t.outs))
	for _, o := range t.outs {
		b = uv(b, o.amt)
		b = append(b, 2)
		b = append(b, o.key[:]...)
	}
	b = count(b, len(t.extra))
	return append(b, t.extra...)
}

func (t *rTx) encode() []byte {
	b := t.prefix()
	for _, s := range t.sigs {
		b = append(b, s...)
	}
	return b
}

func (t *rTx) hash() hash32 { return keccak(t.encode()) }

type rdr struct {
	b   []byte
	p   int
	bad bool
	nc  bool // a non-canonical varint was read
}

func (r *rdr) left() int { return len(r.b) - r.p }

func (r *rdr) uv() uint64 {
	v, n := binary.Uvarint(r.b[r.p:])
	if n <= 0 {
		r.bad = true
		return 0
	}
	if n > 1 && r.b[r.p+n-1] == 0 {
		r.nc = true
	}
	r.p += n
	return v
}

func (r *rdr) n(k int) []byte {
	if k < 0 || k > r.left() {
		r.bad = true
		return make([]byte, 64)
	}
	x := r.b[r.p : r.p+k]
	r.p += k
	return x
}

func (r *rdr) h() (h hash32) {
	copy(h[:], r.n(32))
	return
}

var errDecode = errors.New("undecodable")

func (r *rdr) txPrefix() *rTx {
	t := &rTx{}
	t.ver = r.uv()
	if t.ver > 255 {
		r.bad = true
	}
	t.unlock = r.uv()
	n := r.uv()
	for i := uint64(0); i < n && !r.bad; i++ {
		switch r.n(1)[0] {
		case 0xff:
			x := r.uv()
			if x > 1<<32-1 {
				r.bad = true
			}
			t.ins = append(t.ins, rIn{cb: true, idx: x})
		case 2:
			in := rIn{amt: r.uv()}
			k := r.uv()
			for j := uint64(0); j < k && !r.bad; j++ {
				o := r.uv()
				if o > 1<<32-1 {
					r.bad = true
				}
				in.offs = append(in.offs, o)
			}
			in.ki = r.h()
			t.ins = append(t.ins, in)
		default:
			r.bad = true
		}
	}
	n = r.uv()
	for i := uint64(0); i < n && !r.bad; i++ {
		o := rOut{amt: r.uv()}
		if r.uv() != 2 {
			r.bad = true
		}
		o.key = r.h()
		t.outs = append(t.outs, o)
	}
	n = r.uv()
	if n > uint64(r.left()) {
		r.bad = true
	} else {
		t.extra = append([]byte{}, r.n(int(n))...)
	}
	return t
}

func (r *rdr) tx() *rTx {
	t := r.txPrefix()
	if r.bad {
		return t
	}
	if len(t.ins) == 1 && t.ins[0].cb {
		return t
	}
	for _, i := range t.ins {
		k := len(i.offs)
		if i.cb {
			k = 0
		}
		t.sigs = append(t.sigs, append([]byte{}, r.n(64*k)...))
		if r.bad {
			break
		}
	}
	return t
}

// decodeTx is the strict decoding of a delivered transaction: every byte counts.
func decodeTx(b []byte) (*rTx, error) {
	r := &rdr{b: b}
	t := r.tx()
	if r.bad || r.nc || r.left() != 0 {
		return nil, errDecode
	}
	return t, nil
}

type rParent struct {
	major, minor byte
	ts           uint64
	prev         hash32
	nonce        uint32
	txCount      uint64
	branch       []hash32
	base         *rTx
	bcBranch     []hash32
}

type rBlock struct {
	major, minor byte
	ts           uint64
	prev         hash32
	nonce        uint32
	sig          [64]byte // version 5: the miner's signature
	parent       *rParent
	base         *rTx
	txh          []hash32
}

func (b *rBlock) clone() *rBlock {
	c := *b
	if b.parent != nil {
		p := *b.parent
		p.branch = append([]hash32{}, p.branch...)
		p.bcBranch = append([]hash32{}, p.bcBranch...)
		p.base = p.base.clone()
		c.parent = &p
	}
	c.base = b.base.clone()
	c.txh = append([]hash32{}, b.txh...)
	return &c
}

func le32(b []byte, v uint32) []byte {
	return append(b, byte(v), byte(v>>8), byte(v>>16), byte(v>>24))
}

func (b *rBlock) merged() bool { return b.major == 2 || b.major == 3 }

// time is the timestamp the rules look at.
func (b *rBlock) time() uint64 {
	if b.merged() && b.parent != nil {
		return b.parent.ts
	}
	return b.ts
}

func (b *rBlock) header() []byte {
	o := uv(nil, uint64(b.major))
	o = uv(o, uint64(b.minor))
	if b.merged() {
		return append(o, b.prev[:]...)
	}
	o = uv(o, b.ts)
	o = append(o, b.prev[:]...)
	return le32(o, b.nonce)
}

func (p *rParent) encode(hashing bool) []byte {
	o := uv(nil, uint64(p.major))
	o = uv(o, uint64(p.minor))
	o = uv(o, p.ts)
	o = append(o, p.prev[:]...)
	o = le32(o, p.nonce)
	pre := p.base.prefix()
	if hashing {
		h := keccak(pre)
		for i := len(p.branch) - 1; i >= 0; i-- {
			h = keccak(h[:], p.branch[i][:])
		}
		o = append(o, h[:]...)
	}
	if countHook != nil {
		o = uv(o, countHook(p.txCount))
	} else {
		o = uv(o, p.txCount)
	}
	for _, h := range p.branch {
		o = append(o, h[:]...)
	}
	o = append(o, pre...)
	for _, h := range p.bcBranch {
		o = append(o, h[:]...)
	}
	return o
}

func (b *rBlock) encode() []byte {
	o := b.header()
	if b.merged() {
		o = append(o, b.parent.encode(false)...)
	}
	if b.major == 5 {
		o = append(o, b.sig[:]...)
	}
	o = append(o, b.base.encode()...)
	o = count(o, len(b.txh))
	for _, h := range b.txh {
		o = append(o, h[:]...)
	}
	return o
}

func merkle(hs []hash32) hash32 {
	switch len(hs) {
	case 1:
		return hs[0]
	case 2:
		return keccak(hs[0][:], hs[1][:])
	}
	cnt := 1
	for cnt*2 < len(hs) {
		cnt *= 2
	}
	l := make([]hash32, cnt)
	r := 2*cnt - len(hs)
	copy(l, hs[:r])
	for i, j := r, r; j < cnt; i, j = i+2, j+1 {
		l[j] = keccak(hs[i][:], hs[i+1][:])
	}
	for cnt > 1 {
		cnt /= 2
		for i := 0; i < cnt; i++ {
			l[i] = keccak(l[2*i][:], l[2*i+1][:])
		}
	}
	return l[0]
}

func (b *rBlock) hash() hash32 {
	o := b.header()
	hs := append([]hash32{b.base.hash()}, b.txh...)
	m := merkle(hs)
	o = append(o, m[:]...)
	o = uv(o, uint64(len(hs)))
	if b.merged() {
		o = append(o, b.parent.encode(true)...)
	}
	return keccak(uv(nil, uint64(len(o))), o)
}

func refTreeDepth(n uint64) int {
	if n == 0 {
		return 0
	}
	return bits.Len64(n) - 1
}

// decodeBlock parses a block as stored or sent; trailing bytes are ignored.
func decodeBlock(raw []byte) (*rBlock, error) {
	r := &rdr{b: raw}
	b := &rBlock{}
	b.major, b.minor = byte(r.uv()), byte(r.uv())
	switch b.major {
	case 2, 3:
		b.prev = r.h()
		p := &rParent{major: byte(r.uv()), minor: byte(r.uv()), ts: r.uv()}
		p.prev = r.h()
		p.nonce = binary.LittleEndian.Uint32(r.n(4))
		p.txCount = r.uv()
		for i := refTreeDepth(p.txCount); i > 0 && !r.bad; i-- {
			p.branch = append(p.branch, r.h())
		}
		p.base = r.txPrefix()
		d, ok := mmDepth(p.base.extra)
		if r.bad || !ok || d > 256 {
			return nil, errDecode
		}
		for i := uint64(0); i < d && !r.bad; i++ {
			p.bcBranch = append(p.bcBranch, r.h())
		}
		b.parent = p
		b.ts, b.nonce = p.ts, p.nonce
	case 1, 4, 5:
		b.ts = r.uv()
		b.prev = r.h()
		b.nonce = binary.LittleEndian.Uint32(r.n(4))
	default:
		return nil, errDecode
	}
	if b.major == 5 {
		copy(b.sig[:], r.n(64))
	}
	b.base = r.tx()
	n := r.uv()
	for i := uint64(0); i < n && !r.bad; i++ {
		b.txh = append(b.txh, r.h())
	}
	if r.bad {
		return nil, errDecode
	}
	return b, nil
}

// mmDepth reads the depth of the merge mining tag of a transaction extra that
// consists of a public key, a nonce and the tag in any order.
func mmDepth(x []byte) (uint64, bool) {
	r := &rdr{b: x}
	d, ok := uint64(0), false
	for r.left() > 0 && !r.bad {
		switch r.n(1)[0] {
		case 0:
			return d, ok
		case 1:
			r.n(32)
		case 2:
			r.n(int(r.uv() & 0xffff))
		case 3:
			r.uv()
			d, ok = r.uv(), true
			r.n(32)
		default:
			return 0, false
		}
	}
	return d, ok && !r.bad
}

// ---------------------------------------------------------------- curve points

var (
	fieldP, _ = new(big.Int).SetString("57896044618658097711785492504343953926634992332820282019728792003956564819949", 10)
	curveD, _ = new(big.Int).SetString("37095705934669439343138083508754565189542113879843219016388785533085940283555", 10)
	bigOne    = big.NewInt(1)
)

// onCurve reports whether the encoding decompresses to a curve point; the
// generator only uses encodings with y < p.
func onCurve(k hash32) bool {
	v, ok := curveCache[k]
	if !ok {
		if len(curveCache) > 100000 {
			curveCache = map[hash32]bool{}
		}
		v = onCurve1(k)
		curveCache[k] = v
	}
	return v
}

var curveCache = map[hash32]bool{}

func onCurve1(k hash32) bool {
	var be [32]byte
	for i := range k {
		be[31-i] = k[i]
	}
	be[0] &= 0x7f
	y := new(big.Int).SetBytes(be[:])
	if y.Cmp(fieldP) >= 0 {
		y.Mod(y, fieldP)
	}
	y2 := new(big.Int).Mul(y, y)
	num := new(big.Int).Sub(y2, bigOne)
	den := new(big.Int).Mul(y2, curveD)
	den.Add(den, bigOne)
	den.Mod(den, fieldP)
	inv := new(big.Int).ModInverse(den, fieldP)
	if inv == nil {
		return false
	}
	x2 := num.Mul(num, inv)
	x2.Mod(x2, fieldP)
	if x2.Sign() == 0 {
		return k[31]&0x80 == 0
	}
	return big.Jacobi(x2, fieldP) == 1
}
