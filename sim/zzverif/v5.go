//go:build go1.21

package main

import (
	"crypto/ed25519"
	"crypto/sha512"
	"math/big"
	"math/rand"
)

// Blocks of version 5: signed by the key of their only output.

var groupL, _ = new(big.Int).SetString("7237005577332262213973186563042994240857116359379907606001950938285454250989", 10)

// signedBlocks holds what sign has signed: any other signature is not valid,
// since none can be made without the secret.
var signedBlocks = map[[128]byte]bool{}

func leInt(b []byte) *big.Int {
	x := make([]byte, len(b))
	for i := range b {
		x[len(b)-1-i] = b[i]
	}
	return new(big.Int).SetBytes(x)
}

func leBytes(x *big.Int) (o [32]byte) {
	b := x.Bytes()
	for i := range b {
		o[len(b)-1-i] = b[i]
	}
	return
}

// edScalar is the secret scalar of an Ed25519 seed.
func edScalar(seed []byte) *big.Int {
	h := sha512.Sum512(seed)
	h[0] &= 248
	h[31] &= 127
	h[31] |= 64
	k := leInt(h[:32])
	return k.Mod(k, groupL)
}

// signing gives the bytes a block's signature covers and the key that signs.
func (b *rBlock) signing() (h, key hash32) {
	o := b.header()
	hs := append([]hash32{b.base.hash()}, b.txh...)
	m := merkle(hs)
	o = append(o, m[:]...)
	o = uv(o, uint64(len(hs)))
	if len(b.base.outs) > 0 {
		key = b.base.outs[0].key
	}
	return keccak(o), key
}

func sigKey(h, key hash32, sig [64]byte) (k [128]byte) {
	copy(k[:], h[:])
	copy(k[32:], key[:])
	copy(k[64:], sig[:])
	return
}

// sign sets the signature of a block whose output key is one of the pool.
func (b *rBlock) sign(r *rand.Rand) {
	copy(b.sig[:], randBytes(r, 64))
	h, key := b.signing()
	n := -1
	for i, k := range keyPool {
		if k == key {
			n = i
			break
		}
	}
	if n < 0 {
		return
	}
	nonce := randBytes(r, 32)
	comm := ed25519.NewKeyFromSeed(nonce)[32:]
	seed := poolSeed(n)
	d := keccak(h[:], key[:], comm)
	c := leInt(d[:])
	c.Mod(c, groupL)
	x := new(big.Int).Mul(c, edScalar(seed[:]))
	x.Sub(edScalar(nonce), x)
	x.Mod(x, groupL)
	cb, rb := leBytes(c), leBytes(x)
	copy(b.sig[:32], cb[:])
	copy(b.sig[32:], rb[:])
	if len(signedBlocks) > 50000 {
		signedBlocks = map[[128]byte]bool{}
	}
	signedBlocks[sigKey(h, key, b.sig)] = true
}

func (b *rBlock) signed() bool {
	h, key := b.signing()
	return signedBlocks[sigKey(h, key, b.sig)]
}

// extraForm reads a transaction extra; ok is false when it is not a sequence
// of known fields, mm is true when it has a merge mining tag.
func extraForm(x []byte) (mm, ok bool) {
	r := &rdr{b: x}
	for r.left() > 0 && !r.bad {
		switch r.n(1)[0] {
		case 0: // zeros up to the end
			if r.left() > 255 {
				return mm, false
			}
			for _, z := range r.n(r.left()) {
				if z != 0 {
					return mm, false
				}
			}
		case 1:
			r.n(32)
		case 2:
			n := r.uv()
			if r.bad || n > 255 {
				return mm, false
			}
			r.n(int(n))
		case 3:
			if r.uv() != 33 {
				return mm, false
			}
			r.uv()
			r.n(32)
			mm = true
		default:
			return mm, false
		}
	}
	return mm, !r.bad
}

// formExtra makes a well-formed extra of n bytes.
func formExtra(r *rand.Rand, n int) []byte {
	var x []byte
	if n >= 33 && r.Intn(3) > 0 {
		k := poolKey(r.Intn(64))
		x = append(append(x, 1), k[:]...)
	}
	for n-len(x) > 2 && (n-len(x) > 200 || r.Intn(2) == 0) {
		k := 1 + r.Intn(255)
		if m := n - len(x) - 3; k > m {
			k = m
		}
		if k < 0 {
			break
		}
		x = append(x, 2)
		x = uv(x, uint64(k))
		x = append(x, randBytes(r, k)...)
	}
	return append(x, make([]byte, n-len(x))...)
}

// prettyAmounts are the amounts with one significant digit.
var prettyAmounts = func() map[uint64]bool {
	m := map[uint64]bool{10000000000000000000: true}
	for o := uint64(1); o <= 1000000000000000000; o *= 10 {
		for d := uint64(1); d <= 9; d++ {
			m[d*o] = true
		}
	}
	return m
}()

// difficulty5 is the rule of version 5; beyond is true when its numbers leave
// the range of the arithmetic the rule is defined in.
func difficulty5(prev uint32, ts []int64, cd []uint64) (d uint64, beyond bool) {
	if prev > upV5 && prev < upV5+120 {
		// counts from the upgrade only
		k := len(ts) - 1 - int(prev-upV5)
		ts, cd = ts[k:], cd[k:]
	}
	N := int64(len(ts) - 1)
	L := int64(0)
	last := ts[0] - targetT
	for i := int64(1); i <= N; i++ {
		t := ts[i]
		if t <= last {
			t = last + 1
		}
		s := t - last
		if s > 6*targetT {
			s = 6 * targetT
		}
		L += i * s
		last = t
	}
	if m := N * N * targetT / 20; L < m {
		L = m
	}
	avg := int64(cd[N]-cd[0]) / N
	// large difficulties are divided first: that is part of the rule
	x := big.NewInt(N * (N + 1) * targetT * 99)
	if avg > 2000000*N*N*targetT {
		x.Mul(x, big.NewInt(avg/(200*L)))
	} else {
		x.Mul(x, big.NewInt(avg))
		if !x.IsInt64() {
			return 0, true
		}
		x.Div(x, big.NewInt(200*L))
	}
	if !x.IsInt64() {
		return 0, true
	}
	next := x.Int64()
	for i := int64(1000000000); i > 1; i /= 10 {
		if next > i*100 {
			next = (next + i/2) / i * i
			break
		}
	}
	return uint64(next), false
}
