//go:build go1.21

package main

import (
	"encoding/binary"
)

// fuzz sends hostile bytes.
func (x *p2pRun) fuzz(h *hpeer, c *pconn) {
	w, r := x.w, x.r
	h.top = x.drawTop()
	c.serve()
	if w.Choose(4) > 0 {
		if !c.greet() {
			return
		}
	}
	c.garbled = true
	c.hsSent = true
	x.handshook = append(x.handshook, hsRec{any: true, addr: addrOf(c), epoch: c.ep})
	n := 1 + w.Choose(6)
	for k := 0; k < n && !c.e.Closed() && !c.dropped() && !x.over; k++ {
		switch w.Choose(9) {
		case 0: // garbage
			b := randBytes(r.rng, 1+r.rng.Intn(400))
			if w.Choose(3) == 2 {
				b = randBytes(r.rng, 1+r.rng.Intn(100000))
			}
			b[0] = 0x55
			w.Fault("bytes.garbage")
			c.offend("C11", "garbage")
			c.send(b)
			if len(b) >= levinHead {
				c.mustDrop("C11")
			}
			return
		case 1: // wrong signature
			b := encReq(cmdTimedSync, (&kv{}).sub("payload_data", syncKV(1, x.ch.hash(0))).body())
			b[w.Choose(8)] ^= 1 << uint(w.Choose(8))
			w.Fault("bytes.signature")
			c.offend("C11", "wrong signature")
			c.send(b)
			c.mustDrop("C11")
			return
		case 2: // too long
			cmd := []uint32{cmdHandshake, cmdTimedSync, ntResObjects, ntResChain, ntTxPool, 5}[w.Choose(6)]
			b := encFrame(cmd, w.Choose(2) == 1, 1, 0, nil)
			l := uint64(maxPacket) + 1
			switch w.Choose(5) {
			case 0:
				l += uint64(w.Choose(1000))
			case 1:
				l = 1<<32 + uint64(w.Choose(1000))
			case 2:
				l = 1 << 63
			case 3:
				l = ^uint64(0) - uint64(w.Choose(40))
			}
			binary.LittleEndian.PutUint64(b[8:], l)
			w.Fault("bytes.toolong")
			c.offend("C11", "too long a packet")
			c.send(append(b, randBytes(r.rng, 10)...))
			c.mustDrop("C11")
			return
		case 3: // announced but not sent
			b := encNotify(x.anyCmd(), nil)
			binary.LittleEndian.PutUint64(b[8:], uint64(1+w.Choose(maxPacket)))
			w.Fault("bytes.short")
			c.send(append(b, randBytes(r.rng, r.rng.Intn(2000))...))
			x.nap(x.secs(0, 10))
			return
		case 4, 5, 6: // a valid message, changed
			cmd, req, k := x.template(c)
			b := k.body()
			b = x.mutate(b)
			w.Fault("bytes.mutated")
			f := encFrame(cmd, req, 1, 0, b)
			if w.Choose(6) == 5 {
				f = encFrame(cmd, w.Choose(2) == 1, uint32(w.Choose(4)), int32(w.Choose(3)), b)
			}
			c.send(f)
		case 7: // absurd structure
			w.Fault("bytes.absurd")
			cmd, req, _ := x.template(c)
			c.send(encFrame(cmd, req, 1, 0, x.absurd(cmd)))
		case 8: // broken blocks and transactions that were asked for
			w.Fault("bytes.block")
			x.hostileBlocks(c)
			return
		}
		x.nap(int64(w.Choose(3000)) * ms)
	}
	x.nap(x.secs(0, 10))
}

func (x *p2pRun) anyCmd() uint32 {
	return []uint32{cmdHandshake, cmdTimedSync, cmdPing, ntNewBlock, ntNewTxs, ntReqObjects, ntResObjects, ntReqChain, ntResChain, ntTxPool, ntLite, 2010, 0, 1 << 31}[x.w.Choose(14)]
}

// template is a well-formed message.
func (x *p2pRun) template(c *pconn) (cmd uint32, req bool, k *kv) {
	w := x.w
	h := c.h
	i := uint32(w.Choose(int(x.max) + 1))
	var ids []hash32
	for j := i; j <= x.max && len(ids) < 1+w.Choose(40); j++ {
		ids = append(ids, x.ch.hash(j))
	}
	blk := func() rawBlock {
		j := 1 + uint32(w.Choose(int(x.max)))
		c.gave[x.ch.hash(j)] = true
		return x.ch.raw(j)
	}
	switch w.Choose(10) {
	case 0:
		return cmdHandshake, true, handshakeBody(h.data(), h.top+1, x.ch.hash(h.top))
	case 1:
		return cmdTimedSync, true, (&kv{}).sub("payload_data", syncKV(h.top+1, x.ch.hash(h.top)))
	case 2:
		return ntNewBlock, false, (&kv{}).sub("b", blk().kv()).u32("current_blockchain_height", i).u32("hop", 0)
	case 3:
		return ntNewTxs, false, (&kv{}).add("stem", val{t: tBool, u: 1}).str("txs", joinHashes(ids))
	case 4:
		return ntReqObjects, false, (&kv{}).str("txs", joinHashes(ids)).str("blocks", joinHashes(ids))
	case 5, 6:
		var bl []rawBlock
		for n := w.Choose(4); n >= 0; n-- {
			bl = append(bl, blk())
		}
		return ntResObjects, false, objectsBody(bl, h.top+1, nil)
	case 7:
		return ntReqChain, false, (&kv{}).str("block_ids", joinHashes(append(ids, x.ch.hash(0))))
	case 8:
		return ntResChain, false, chainEntryBody(i, x.max+1, ids)
	}
	return ntTxPool, false, (&kv{}).str("txs", joinHashes(ids))
}

// mutate changes some bytes.
func (x *p2pRun) mutate(b []byte) []byte {
	w := x.w
	b = append([]byte{}, b...)
	for n := 1 + w.Choose(4); n > 0 && len(b) > 0; n-- {
		i := w.Choose(len(b))
		if w.Choose(2) == 1 {
			// near the front there is the structure
			i = w.Choose(min(len(b), 120))
		}
		switch w.Choose(7) {
		case 0:
			b[i] ^= 1 << uint(w.Choose(8))
		case 1:
			b[i] = byte(w.Choose(256))
		case 2:
			b = b[:i]
		case 3:
			b = append(append(append([]byte{}, b[:i]...), randBytes(x.r.rng, 1+w.Choose(9))...), b[i:]...)
		case 4:
			j := i + w.Choose(min(len(b)-i, 40)+1)
			b = append(append([]byte{}, b[:i]...), b[j:]...)
		case 5:
			b = append(append(append([]byte{}, b[:i]...), vint(nil, 1<<uint(w.Choose(62)))...), b[i:]...)
		case 6:
			v := []byte{0, 0xff, 0xfe, 0xfd, 0xfc, 3, 2, 0x80 | tObj, 0x80 | tBin, tObj, tBin}[w.Choose(11)]
			b[i] = v
		}
	}
	return b
}

// absurd is a body with impossible counts, lengths or nesting.
func (x *p2pRun) absurd(cmd uint32) []byte {
	w := x.w
	b := append([]byte{}, kvHead...)
	huge := func() uint64 {
		return []uint64{1 << 20, 1 << 29, 1<<30 - 1, 1 << 30, 1 << 32, 1 << 40, 1<<62 - 1, 1 << 61}[w.Choose(8)]
	}
	name := []string{"blocks", "node_data", "payload_data", "m_block_ids", "block_ids", "txs", "b", "missed_ids", "local_peerlist", "network_id"}[w.Choose(10)]
	switch cmd {
	case ntResObjects:
		name = []string{"blocks", "blocks", "missed_ids", "txs"}[w.Choose(4)]
	case ntResChain:
		name = "m_block_ids"
	case cmdHandshake:
		name = []string{"node_data", "payload_data"}[w.Choose(2)]
	}
	key := func(t byte) { b = append(append(append(b, byte(len(name))), name...), t) }
	switch w.Choose(9) {
	case 0: // number of fields
		b = vint(b, huge())
		key(tBin)
		b = vint(b, 3)
		b = append(b, 1, 2, 3)
	case 1: // length of a string
		b = vint(b, 1)
		key(tBin)
		b = vint(b, huge())
		b = append(b, randBytes(x.r.rng, w.Choose(100))...)
	case 2: // length of a list
		b = vint(b, 1)
		key(0x80 | byte(1+w.Choose(12)))
		b = vint(b, huge())
		b = append(b, randBytes(x.r.rng, w.Choose(100))...)
	case 3: // nesting of objects
		n := []int{10, 1000, 30000, 300000}[w.Choose(4)]
		for i := 0; i < n; i++ {
			b = vint(b, 1)
			key(tObj)
		}
		b = append(b, 0)
	case 4: // nesting of lists
		b = vint(b, 1)
		n := []int{10, 1000, 100000, 1000000}[w.Choose(4)]
		t := byte(0x8d)
		if w.Choose(2) == 1 {
			t = 0x80 | 0x0d
		}
		key(t)
		for i := 0; i < n; i++ {
			b = append(b, 4, t)
		}
	case 5: // list of lists of objects with many empty members
		b = vint(b, 1)
		key(0x80 | tObj)
		n := 1 + w.Choose(400000)
		b = vint(b, uint64(n))
		b = append(b, make([]byte, n)...)
	case 6: // many empty strings
		b = vint(b, 1)
		key(0x80 | tBin)
		n := 1 + w.Choose(400000)
		b = vint(b, uint64(n))
		b = append(b, make([]byte, n)...)
	case 7: // the wrong type
		b = vint(b, 1)
		key(byte(w.Choose(256)))
		b = append(b, randBytes(x.r.rng, w.Choose(60))...)
	case 8: // lists of odd length
		b = vint(b, 1)
		key(tBin)
		n := uint64(1 + w.Choose(200))
		b = vint(b, n)
		b = append(b, randBytes(x.r.rng, int(n))...)
	}
	return b
}

// hostileBlocks announces blocks that are broken beyond the rules.
func (x *p2pRun) hostileBlocks(c *pconn) {
	w, r := x.w, x.r
	t := x.nodeTop()
	if t >= x.max {
		return
	}
	g := x.ch.f[t].clone() // block t+1
	raws := g.raws
	b := g.b
	kind := w.Choose(16)
	switch kind {
	case 0:
		b.base.ins = nil
	case 1:
		b.base.outs = nil
	case 2:
		b.base.ins = append(b.base.ins, b.base.ins[0])
	case 3:
		b.base.ins[0] = rIn{amt: 5, offs: []uint64{1}, ki: poolKey(1)}
	case 4:
		b.txh = append(b.txh, randHash(r.rng))
		raws = append(raws, randBytes(r.rng, w.Choose(300)))
	case 5:
		b.txh = append(b.txh, hash32{})
		raws = append(raws, nil)
	case 6:
		b.base.extra = x.hostileExtra()
	case 7:
		b.major = 2
		b.parent = mkParent(r.rng, b.ts, 0, 0)
		b.parent.base.extra = nil
		b.parent.base.ins = nil
	case 8:
		b.major = byte(w.Choose(256))
		if b.merged() {
			b.parent = mkParent(r.rng, b.ts, w.Choose(4), w.Choose(4))
		}
	case 9:
		b.ts = []uint64{0, 1 << 63, ^uint64(0), 1 << 40}[w.Choose(4)]
	case 10:
		b.base.outs[0].amt = ^uint64(0)
		b.base.outs = append(b.base.outs, b.base.outs[0])
	case 11: // transactions with odd inputs
		for n := 1 + w.Choose(4); n > 0; n-- {
			t := x.hostileTx(uint32(n))
			raws = append(raws, t.encode())
			b.txh = append(b.txh, t.hash())
		}
	case 12:
		tx := x.hostileTx(1)
		e := x.mutate(tx.encode())
		raws = append(raws, e)
		b.txh = append(b.txh, keccak(e))
	case 13:
		b.base.ins[0].idx = 1 << 40
	}
	blob := b.encode()
	hh := b.hash()
	if kind >= 14 {
		if kind == 14 && len(raws) > 0 {
			k := w.Choose(len(raws))
			t := x.hostileTx(1)
			raws = append([][]byte{}, raws...)
			raws[k] = x.absurdCount(t.encode)
		} else {
			if w.Choose(2) == 1 && !b.merged() {
				b.major = byte(2 + w.Choose(3))
				b.parent = mkParent(r.rng, b.ts, 0, 0)
			}
			blob = x.absurdCount(b.encode)
		}
	} else if w.Choose(4) == 3 {
		blob = x.mutate(blob)
		if d, err := decodeBlock(blob); err == nil {
			hh = d.hash()
		}
	}
	m := x.ch.upTo(t)
	if d, err := decodeBlock(blob); err == nil {
		if !surelyBad(m.judge(d, raws, uint64(epoch)+uint64(w.Now()/sec)+50000)) {
			return
		}
	}
	ids := []hash32{x.ch.hash(t), hh}
	c.onFrame = func(f *frame) bool {
		if f.response() || f.kv == nil {
			return false
		}
		w.GoIn(c.h.proc, "hostile", func() {
			switch f.cmd {
			case ntReqChain:
				c.announce(ids)
				c.send(encNotify(ntResChain, chainEntryBody(t, t+2, ids).body()))
			case ntReqObjects:
				x.r.cover("hostile block delivered")
				c.send(encNotify(ntResObjects, objectsBody([]rawBlock{{block: blob, txs: raws}}, t+2, nil).body()))
			}
		})
		return true
	}
	c.announce(ids)
	c.send(encNotify(ntResChain, chainEntryBody(t, t+2, ids).body()))
	x.nap(x.secs(2, 12))
	if !c.dropped() {
		c.send(encReq(cmdTimedSync, (&kv{}).sub("payload_data", syncKV(t+2, hh)).body()))
		x.nap(x.secs(2, 12))
	}
}

// absurdCount encodes with one of the counts or lengths far beyond what
// follows it.
func (x *p2pRun) absurdCount(encode func() []byte) []byte {
	w := x.w
	n := 0
	countHook = func(v uint64) uint64 { n++; return v }
	encode()
	at := w.Choose(n)
	pad := w.Choose(3) * w.Choose(100000)
	var v uint64
	switch w.Choose(3) {
	case 0:
		v = 1<<uint(10+w.Choose(54)) - uint64(w.Choose(2))
	case 1:
		v = uint64(1+w.Choose(4000)) * uint64(pad+100)
	case 2:
		v = uint64(1 + w.Choose(1<<28))
	}
	n = 0
	countHook = func(u uint64) uint64 {
		n++
		if n == at+1 {
			return v
		}
		return u
	}
	b := encode()
	countHook = nil
	w.Fault("bytes.count")
	return append(b, randBytes(x.r.rng, pad)...)
}

func (x *p2pRun) hostileExtra() []byte {
	w := x.w
	switch w.Choose(5) {
	case 0:
		return nil
	case 1:
		return []byte{1}
	case 2:
		return append([]byte{2, 255}, randBytes(x.r.rng, w.Choose(60))...)
	case 3:
		return append(vint([]byte{3}, 1<<40), 1)
	}
	return randBytes(x.r.rng, w.Choose(300))
}

// hostileTx is a transaction that parses but makes no sense.
func (x *p2pRun) hostileTx(n uint32) *rTx {
	w, r := x.w, x.r
	t := &rTx{ver: 1, extra: x.hostileExtra()}
	for k := w.Choose(3); k >= 0; k-- {
		in := rIn{amt: []uint64{0, 1, 1000000, ^uint64(0)}[w.Choose(4)], offs: []uint64{uint64(w.Choose(3))}, ki: poolKey(int(n)*8 + k)}
		switch w.Choose(6) {
		case 0:
			in.offs = nil
		case 1:
			in.offs = []uint64{^uint64(0), 1, 1 << 63}
		case 2:
			in.ki = badKey(w.Choose(4))
		case 3:
			in = rIn{cb: true, idx: uint64(w.Choose(10))}
		}
		t.ins = append(t.ins, in)
		if !in.cb {
			for range in.offs {
				t.sigs = append(t.sigs, randBytes(r.rng, 64))
			}
		}
	}
	for k := w.Choose(3); k > 0; k-- {
		t.outs = append(t.outs, rOut{[]uint64{0, 1, ^uint64(0)}[w.Choose(3)], poolKey(k)})
	}
	return t
}
