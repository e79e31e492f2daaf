//go:build go1.21

package main

import (
	"bytes"
	"fmt"
	"math/big"

	"github.com/r3volut1oner/go-karbo/crypto"
)

// Keys and signatures under a random source that splits its reads and fails.
func randomSource(r *run) {
	w := r.w
	p := w.NewProc("wallet")
	seed := uint64(w.Choose(1<<30)) + 1
	n := 1 + w.Choose(6)
	ring := 1 + w.Choose(4)
	var plan []int
	for i := 0; i < n; i++ {
		plan = append(plan, w.Choose(3))
	}
	msgs := make([]crypto.Hash, n)
	for i := range msgs {
		msgs[i] = crypto.Hash(randHash(r.rng))
	}
	at := make([]int, n)
	for i := range at {
		at[i] = w.Choose(ring)
	}
	style := w.Choose(3)
	w.Run(func() {
		// session performs the plan and returns everything generated
		session := func(fault func(n int) (int, bool), failed *bool) (out []string, ok bool) {
			w.SeedRand(seed)
			w.RandFault = fault
			defer func() { w.RandFault = nil }()
			var keys []crypto.SecretKey
			var pubs []crypto.PublicKey
			got := false
			body := func() {
				for i := 0; i < ring+1; i++ {
					k, err := crypto.GenerateKey()
					if *failed {
						if err == nil {
							r.fail("C21", "key without randomness", "a key is returned although the random source failed")
						}
						return
					}
					if err != nil {
						r.fail("C21", "key generation fails", "key generation fails with a working source: %v", err)
						return
					}
					pub, err := crypto.PublicFromSecret(&k)
					if err != nil || !pub.Check() {
						r.fail("C21", "unusable key", "a generated key has no public key: %v", err)
						return
					}
					for _, o := range keys {
						if o == k {
							r.fail("C21", "key repeats", "two generated keys are equal")
						}
					}
					if k == (crypto.SecretKey{}) {
						r.fail("C21", "zero key", "the generated key is zero")
					}
					keys = append(keys, k)
					pubs = append(pubs, *pub)
					out = append(out, fmt.Sprintf("%x", k))
				}
				for i, kind := range plan {
					msg := msgs[i]
					other := msg
					other[i%32] ^= 1 << uint(i%8)
					switch kind {
					case 0:
						k := keys[i%len(keys)]
						pub := pubs[i%len(keys)]
						s, err := msg.Sign(&k)
						if *failed {
							if err == nil && s != nil {
								r.fail("C21", "signature without randomness", "a signature is returned although the random source failed")
							}
							return
						}
						if err != nil || s == nil {
							r.fail("C21", "signing fails", "signing fails with a working source: %v", err)
							return
						}
						if !s.Check(&msg, &pub) {
							r.fail("C21", "own signature refused", "a generated signature does not verify")
						}
						if s.Check(&other, &pub) {
							r.fail("C21", "signature fits another message", "a signature verifies for another message")
						}
						if wrong := pubs[(i+1)%len(keys)]; wrong != pub && s.Check(&msg, &wrong) {
							r.fail("C21", "signature fits another key", "a signature verifies for another key")
						}
						b, _ := s.Serialize()
						out = append(out, fmt.Sprintf("%x", b))
						for _, x := range out[:len(out)-1] {
							if x == out[len(out)-1] {
								r.fail("C21", "signature repeats", "two signatures are equal")
							}
						}
						var back crypto.Signature
						if back.Deserialize(bytes.NewReader(b)) != nil || back != *s {
							r.fail("C21", "signature encoding", "a signature does not survive its encoding")
						}
					case 1, 2:
						me := at[i]
						k := keys[me]
						pub := pubs[me]
						img, err := crypto.GenerateKeyImage(&pub, &k)
						if err != nil {
							r.fail("C21", "key image fails", "key image: %v", err)
							return
						}
						ringPubs := append([]crypto.PublicKey{}, pubs[:ring]...)
						sigs, err := crypto.GenerateRingSignature(&msg, img, &ringPubs, &k, uint64(me))
						if *failed {
							if err == nil && sigs != nil {
								r.fail("C21", "signature without randomness", "a ring signature is returned although the random source failed")
							}
							return
						}
						if err != nil {
							r.fail("C21", "signing fails", "ring signing fails with a working source: %v", err)
							return
						}
						if !crypto.CheckRingSignature(&msg, img, &ringPubs, &sigs, true) {
							r.fail("C21", "own signature refused", "a generated ring signature of %d keys, signer %d, does not verify", ring, me)
						}
						if crypto.CheckRingSignature(&other, img, &ringPubs, &sigs, true) {
							r.fail("C21", "signature fits another message", "a ring signature verifies for another message")
						}
						badPubs := append([]crypto.PublicKey{}, ringPubs...)
						badPubs[w.Choose(ring)] = pubs[ring]
						if crypto.CheckRingSignature(&msg, img, &badPubs, &sigs, true) {
							r.fail("C21", "signature fits another key", "a ring signature verifies for another ring")
						}
						if ring > 1 {
							img2, err := crypto.GenerateKeyImage(&pubs[(me+1)%ring], &keys[(me+1)%ring])
							if err == nil && crypto.CheckRingSignature(&msg, img2, &ringPubs, &sigs, true) {
								r.fail("C21", "signature fits another key", "a ring signature verifies for another key image")
							}
						}
						bad := append([]crypto.Signature{}, sigs...)
						bad[w.Choose(ring)].R[w.Choose(31)] ^= 1
						if crypto.CheckRingSignature(&msg, img, &ringPubs, &bad, true) {
							r.fail("C21", "changed signature accepted", "a changed ring signature verifies")
						}
						for _, s := range sigs {
							b, _ := s.Serialize()
							out = append(out, fmt.Sprintf("%x", b))
						}
					}
				}
				got = true
			}
			r.call(p, "session", 600*sec, body)
			return out, got
		}
		no := false
		base, ok := session(nil, &no)
		if !ok {
			r.fail("C21", "generation fails", "key or signature generation ends the process: %v", crashText(r))
			return
		}
		// the same bytes in pieces
		short := func(n int) (int, bool) {
			switch style {
			case 0:
				if n > 1 && w.Choose(2) == 1 {
					return 1 + w.Choose(n-1), false
				}
			case 1:
				return 1, false
			default:
				if n > 8 {
					return n - 1 - w.Choose(7), false
				}
			}
			return n, false
		}
		split, ok := session(short, &no)
		if !ok {
			r.fail("C21", "generation fails", "with a random source that splits its reads, key or signature generation ends: %v", crashText(r))
			return
		}
		if len(split) != len(base) {
			r.fail("C21", "depends on the splitting", "the generated values depend on how the random source splits its reads")
			return
		}
		for i := range base {
			if base[i] != split[i] {
				r.fail("C21", "depends on the splitting", "value %d depends on how the random source splits its reads", i)
				return
			}
		}
		// other random bytes give other keys
		seed++
		again, ok := session(nil, &no)
		if ok && len(again) > 0 && again[0] == base[0] {
			r.fail("C21", "key repeats", "other random bytes give the same key")
		}
		seed--
		r.cover("random.split")
		r.state("plan", fmt.Sprint(plan), ring, style)
		// a failing source: nothing may come out
		failAt := w.Choose(4 + 3*n)
		calls := 0
		failed := false
		p2 := p
		p = w.NewProc("wallet2")
		_ = p2
		part := w.Choose(3)
		session(func(n int) (int, bool) {
			calls++
			if failed || calls > failAt {
				failed = true
				switch part {
				case 0:
					return 0, true
				case 1:
					return n / 2, true
				}
				return n - 1, true
			}
			if style == 1 && n > 3 {
				return 3, false
			}
			return n, false
		}, &failed)
		if failed {
			r.cover("random.failed")
			// reaching the end of the process is fine: nothing was returned
			if w.Crash != nil {
				r.cover("random.failed.panic")
			}
		}
	})
}

func crashText(r *run) string {
	if r.w.Crash != nil {
		return r.w.Crash.Class()
	}
	return r.w.Dump()
}

// Signatures made while the random source delivers unlikely bytes or fails
// once and then works again.
func weakSource(r *run) {
	w := r.w
	p := w.NewProc("wallet")
	seed := uint64(w.Choose(1<<30)) + 1
	ring := 1 + w.Choose(6)
	me := w.Choose(ring)
	msg := crypto.Hash(randHash(r.rng))
	other := msg
	other[w.Choose(32)] ^= 1 << uint(w.Choose(8))
	isRing := w.Choose(3) > 0
	// attempt runs code of the repository; a panic counts as a refusal
	attempt := func(fn func() bool) (ok bool) {
		r.call(p, "sign", 600*sec, func() {
			defer func() {
				if e := recover(); e != nil {
					ok = false
				}
			}()
			ok = fn()
		})
		return
	}
	w.Run(func() {
		w.SeedRand(seed)
		var keys []crypto.SecretKey
		var pubs []crypto.PublicKey
		for i := 0; i < ring; i++ {
			if !attempt(func() bool {
				k, err := crypto.GenerateKey()
				if err != nil {
					return false
				}
				pub, err := crypto.PublicFromSecret(&k)
				if err != nil {
					return false
				}
				keys, pubs = append(keys, k), append(pubs, *pub)
				return true
			}) {
				r.fail("C21", "key generation fails", "key generation fails with a working source")
				return
			}
		}
		img := new(crypto.KeyImage)
		if !attempt(func() bool {
			i, err := crypto.GenerateKeyImage(&pubs[me], &keys[me])
			if err == nil {
				img = i
			}
			return err == nil
		}) {
			r.fail("C21", "key image fails", "no key image")
			return
		}
		sign := func() (sigs []crypto.Signature, ok bool) {
			ok = attempt(func() bool {
				if !isRing {
					s, err := msg.Sign(&keys[me])
					if err != nil || s == nil {
						return false
					}
					sigs = []crypto.Signature{*s}
					return true
				}
				list := append([]crypto.PublicKey{}, pubs...)
				s, err := crypto.GenerateRingSignature(&msg, img, &list, &keys[me], uint64(me))
				sigs = s
				return err == nil && len(s) > 0
			})
			return
		}
		check := func(m crypto.Hash, sigs []crypto.Signature) (good bool) {
			attempt(func() bool {
				if !isRing {
					good = sigs[0].Check(&m, &pubs[me])
					return true
				}
				list := append([]crypto.PublicKey{}, pubs...)
				good = crypto.CheckRingSignature(&m, img, &list, &sigs, true)
				return true
			})
			return
		}
		// unlikely bytes first
		var fix []byte
		for n := 1 + w.Choose(2*ring+1); n > 0; n-- {
			b := make([]byte, 64)
			switch w.Choose(6) {
			case 1:
				for i := range b {
					b[i] = 255
				}
			case 2: // a small number
				copy(b, randBytes(r.rng, 1+w.Choose(31)))
			case 3: // the group order and its neighbours
				copy(b, scalarBytes(new(big.Int).Add(groupL, big.NewInt(int64(w.Choose(3)-1)))))
			case 4: // a number that is small after reduction
				v := new(big.Int).Mul(groupL, new(big.Int).SetBytes(randBytes(r.rng, 1+w.Choose(31))))
				copy(b, scalarBytes(v.Add(v, big.NewInt(int64(w.Choose(1<<30))))))
			case 5:
				copy(b, randBytes(r.rng, 64))
			}
			fix = append(fix, b...)
		}
		w.Fault("rand.unlikely")
		w.SeedRand(seed + 1)
		w.RandFix = fix
		sigs, ok := sign()
		w.RandFix = nil
		if !ok {
			r.fail("C21", "signing fails", "signing fails when the random source delivers unlikely bytes")
			return
		}
		if !check(msg, sigs) {
			r.fail("C21", "own signature refused", "a signature (ring %v of %d, signer %d) made from unlikely random bytes does not verify", isRing, ring, me)
			return
		}
		if check(other, sigs) {
			r.fail("C21", "signature fits another message", "a signature made from unlikely random bytes verifies for another message")
			return
		}
		// one failing read: either nothing comes out or something that
		// depends on random bytes throughout
		at := w.Choose(2 * ring)
		var made [2][]crypto.Signature
		for v := range made {
			calls := 0
			w.SeedRand(seed + 2 + uint64(v))
			w.RandFault = func(n int) (int, bool) {
				calls++
				if calls == at+1 {
					return 0, true
				}
				return n, false
			}
			s, ok := sign()
			w.RandFault = nil
			if calls <= at {
				r.cover("random.no such read")
				return
			}
			if !ok {
				r.cover("random.failed once")
				continue
			}
			if !check(msg, s) {
				r.fail("C21", "signature without randomness", "read %d failed, yet a signature is returned, and it does not verify", at)
				return
			}
			made[v] = s
		}
		r.state("weak", isRing, ring, me, at)
		if made[0] == nil || made[1] == nil {
			return
		}
		for i := range made[0] {
			a, b := made[0][i], made[1][i]
			if a.C == b.C || a.R == b.R || nonce(a, keys[me]) == nonce(b, keys[me]) && (i == me || !isRing) {
				r.fail("C21", "signature without randomness", "read %d failed, yet a signature is returned, and part %d of it is the same whatever the random bytes are", at, i)
				return
			}
		}
	})
}

// scalarBytes is a number, little-endian.
func scalarBytes(v *big.Int) []byte {
	b := v.Bytes()
	for i, j := 0, len(b)-1; i < j; i, j = i+1, j-1 {
		b[i], b[j] = b[j], b[i]
	}
	return b
}

func scalarOf(b []byte) *big.Int {
	c := make([]byte, len(b))
	for i := range b {
		c[len(b)-1-i] = b[i]
	}
	return new(big.Int).SetBytes(c)
}

// nonce is the random number a signature was made with.
func nonce(s crypto.Signature, k crypto.SecretKey) string {
	v := new(big.Int).Mul(scalarOf(s.C[:]), scalarOf(k[:]))
	v.Add(v, scalarOf(s.R[:]))
	return v.Mod(v, groupL).String()
}

func init() {
	register("C21", scenario{"random source", 2, randomSource})
	register("C21", scenario{"weak source", 1, weakSource})
}
