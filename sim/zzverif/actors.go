//go:build go1.21

package main

import (
	"fmt"
	"math/rand"
	"net"
	"syscall"

	"github.com/r3volut1oner/go-karbo/zzsim"
)

// ---------------------------------------------------------------- network conditions

// setNet draws network parameters: level 0 plain, 1 fragmentation, small
// buffers and latency, 2 also resets and long delays.
func (x *p2pRun) setNet(level int) {
	w := x.w
	p := zzsim.NetParams{LatMin: ms, LatMax: 5 * ms, Window: 256 << 10}
	if level >= 1 {
		k := w.Choose(5)
		p.Window = []int{256 << 10, 64 << 10, 16 << 10, 1500, 200}[k]
		p.LatMax = []int64{250, 60, 20, 4, 1}[k] * ms
		p.LatMin = p.LatMax / int64(1+w.Choose(8))
		p.FragPM = []int{0, 50, 400}[w.Choose(3)]
		p.ShortPM = []int{0, 50, 400}[w.Choose(3)]
	}
	x.calmSince = w.Now()
	if level >= 2 {
		p.ResetPM = []int{0, 3, 10, 40}[w.Choose(4)]
		p.StallPM = []int{0, 20, 100}[w.Choose(3)]
		p.StallMax = []int64{2, 20}[w.Choose(2)] * sec
		x.calmSince = -1
	}
	w.Net.P = p
}

// calmDown ends all the faults that can delay an answer.
func (x *p2pRun) calmDown() {
	w := x.w
	w.Net.HealAll()
	p := w.Net.P
	p.ResetPM, p.StallPM, p.AcceptFailPM = 0, 0, 0
	w.Net.P = p
	x.n.proc.FDLimit = 0
	for _, l := range x.n.proc.Listening() {
		l.FailNext = nil
	}
	w.P.StallPM = 0
	x.calmSince = w.Now() + 25*sec // what is on the way may still be late
	w.Logf("faults stop")
}

// mustServe reports that nothing excuses a late answer on a connection.
func (x *p2pRun) mustServe(c *pconn) bool {
	return x.calmSince >= 0 && x.calmSince <= c.openedAt && !x.stopping && !x.n.proc.Dead && c.ep == x.epoch && x.w.P.StallPM == 0
}

func (x *p2pRun) sleep(d int64) { x.w.Sleep(d) }

// nap sleeps until d has passed or the run is over.
func (x *p2pRun) nap(d int64) {
	x.w.Block("nap", func() bool { return x.over }, x.w.Now()+d)
}

func (x *p2pRun) secs(lo, hi int) int64 { return int64(x.w.Range(lo*10, hi*10)) * 100 * ms }

// ---------------------------------------------------------------- honest peers

type honest struct {
	h      *hpeer
	out    bool
	lo, hi int  // seconds between timed syncs
	grow   int  // per cent of ticks
	burst  int  // blocks at once
	mute   bool // grows while it answers and tells it in answers only
	cur    *pconn
	shakes int
	ticks  int
	quit   bool
}

func (x *p2pRun) newHonest(out bool) *honest {
	w := x.w
	a := &honest{h: x.newHost(), out: out, lo: 20, hi: 60, burst: 1 + w.Choose(4)}
	if w.Choose(3) == 2 {
		a.lo, a.hi = 2, 10
	}
	if w.Choose(6) == 5 {
		a.mute = true
		a.h.growAns = 20 + w.Choose(60)
		a.lo, a.hi = 50000, 60000
	}
	a.h.maxN = []int{10000, 10000, 500, 40}[w.Choose(4)]
	if a.h.maxN < 60 && x.max > 1200 {
		a.h.maxN = 500
	}
	return a
}

func (a *honest) run() {
	x, w, h := a.h.x, a.h.x.w, a.h
	if a.out {
		w.GoIn(h.proc, "listen", func() {
			h.listen(func(c *pconn) {
				c.again = a.cur != nil
				a.cur = c
				c.honest = true
				c.serve()
				f := c.await(120*sec, isCmd(cmdHandshake, false))
				if f != nil {
					a.shakes++
					h.told = h.top
					if c.hello(h.data(), h.top+1, x.ch.hash(h.top)) {
						c.hsOK = true
						a.loop(c)
					}
				}
				c.blameless()
				c.e.Close()
			})
		})
		w.GoIn(x.w.HarnessProc, "redial", func() {
			for !x.over && !a.quit {
				if (a.cur == nil || a.cur.eof || a.cur.e.Closed()) && !h.proc.Dead && !x.n.proc.Dead && x.nd != nil && !x.stopping {
					x.dialHost(h)
				}
				x.nap(x.secs(3, 12))
			}
		})
		return
	}
	w.GoIn(h.proc, "honest", func() {
		for !x.over && !a.quit {
			c := h.dial()
			if c == nil {
				x.nap(x.secs(1, 5))
				continue
			}
			a.cur = c
			c.honest = true
			c.serve()
			if c.shake() {
				a.shakes++
				a.loop(c)
			}
			c.blameless()
			c.e.Close()
			x.nap(x.secs(1, 6))
		}
	})
}

func (a *honest) loop(c *pconn) {
	x, w, h := a.h.x, a.h.x.w, a.h
	for !x.over && !a.quit && !c.eof {
		until := w.Now() + x.secs(a.lo, a.hi)
		w.Block("between syncs", func() bool { return x.over || c.eof || a.quit || a.mute && c.ep != x.epoch }, until)
		if x.over || c.eof || a.quit || a.mute && c.ep != x.epoch {
			return
		}
		if a.grow > 0 && h.top < x.max && w.Pct(a.grow) {
			h.top += uint32(1 + w.Choose(a.burst))
			if h.top > x.max {
				h.top = x.max
			}
			w.Logf("%s has block %d", h.proc.Name, h.top)
		}
		a.ticks++
		if !c.sync() {
			return
		}
		t0 := w.Now()
		if c.await(x.answerLimit(), isCmd(cmdTimedSync, true)) == nil {
			if x.mustServe(c) && !c.e.Closed() && !c.dropped() && w.Now()-t0 >= x.answerLimit() {
				x.r.fail("C10 C16 C11 C14 C17", "timed sync not answered", "a timed sync request is not answered for %ds (%s)", (w.Now()-t0)/sec, c.h.proc.Name)
			}
			if c.dropped() {
				x.r.cover("honest peer dropped")
				w.Logf("honest peer %s was dropped", h.proc.Name)
			}
			return
		}
	}
}

// answerLimit is how long an answer may take when nothing delays it.
func (x *p2pRun) answerLimit() int64 { return x.grace }

// shake performs an honest incoming handshake.
func (c *pconn) shake() bool {
	x, h := c.x, c.h
	t0 := x.w.Now()
	h.told = h.top
	if !c.hello(h.data(), h.top+1, x.ch.hash(h.top)) {
		return false
	}
	f := c.await(x.answerLimit(), isCmd(cmdHandshake, true))
	if f == nil {
		if x.mustServe(c) && !c.e.Closed() {
			x.r.fail("C16 C11 C14 C17", "handshake not answered", "the handshake of an honest peer is not answered within %ds (dropped: %v)", (x.w.Now()-t0)/sec, c.dropped())
		}
		return false
	}
	c.hsOK = true
	return true
}

// restart is a crash of the host; it comes back with the same identity.
func (a *honest) restart(down int64) {
	x, h := a.h.x, a.h
	x.w.Fault("peer.crash")
	x.w.KillProc(h.proc)
	x.w.Logf("%s crashes", h.proc.Name)
	x.sleep(down)
	h.revive()
	a.run()
}

func (h *hpeer) revive() {
	x := h.x
	h.lives++
	h.proc = x.w.NewProc(fmt.Sprintf("peer%d.%d@%s", h.num, h.lives, h.ip))
	x.w.Net.ProcOfIP[h.ip] = h.proc
}

// ---------------------------------------------------------------- offences

// offend notes that the peer has just broken the rules.
func (c *pconn) offend(props, what string) {
	c.offence = what
	c.offAt = c.x.w.Now()
	c.x.w.Fault("offence")
	c.x.r.cover("offence.%s", what)
	c.x.w.Logf("%s: %s", c.h.proc.Name, what)
}

// mustDrop waits for the node to end the connection.
func (c *pconn) mustDrop(props string) bool {
	x, w := c.x, c.x.w
	limit := 20 * sec
	if c.dropped() {
		return true
	}
	w.Block("drop", func() bool { return c.dropped() || c.e.Closed() }, w.Now()+limit)
	if !c.dropped() && !c.e.Closed() && x.mustServe(c) {
		x.r.fail(props, "not disconnected", "the peer is not disconnected after: %s", c.offence)
		return false
	}
	return c.dropped()
}

// ---------------------------------------------------------------- cheats

// cheats hold back the ways to give a wrong answer to a block request.
var objectCheats = []string{"unrequested known", "unrequested new", "unrequested foreign", "missing", "empty", "undecodable", "cut", "bad blob", "cut blob", "fewer txs", "more txs", "broken block", "lower height"}
var entryCheats = []string{"empty entry", "undecodable entry", "cut entry", "entry beyond its height"}

// cheat connects, lets the node synchronise for a while and then offends.
func (x *p2pRun) cheat(h *hpeer, c *pconn) {
	w, r := x.w, x.r
	kind := ""
	if w.Choose(6) == 5 {
		kind = entryCheats[w.Choose(len(entryCheats))]
	} else if w.Choose(8) == 7 {
		kind = "unsolicited"
	} else {
		kind = objectCheats[w.Choose(len(objectCheats))]
	}
	delay := w.Choose(3) // right answers before
	follow := w.Choose(2) == 1
	var wrong *forged // announced in the place of a block
	var wrongAt uint32
	var lastF *frame
	far := uint32(0) // position of the last block announced
	sent := map[hash32]*forged{}
	var forbid []hash32
	done := false
	finish := func() {
		done = true
		if follow && lastF != nil && !c.e.Closed() {
			// what comes after the offence must not be used
			if lastF.cmd == ntReqObjects {
				c.silentObjects(lastF)
			}
			c.send(encReq(cmdTimedSync, (&kv{}).sub("payload_data", syncKV(h.top+1, x.ch.hash(h.top))).body()))
			c.reqs[cmdTimedSync]++
			c.low = append(c.low, x.nodeTop())
			c.lowAt = append(c.lowAt, w.Now())
		}
		_ = forbid
		c.mustDrop("C13")
	}
	handle := func(f *frame) {
		if done || c.e.Closed() {
			return
		}
		lastF = f
		entry := f.cmd == ntReqChain
		if delay > 0 {
			delay--
			if entry {
				// announce little so that there are more rounds
				if ids, start, ok := c.entry(f); ok {
					n := len(ids)
					if n > 3 {
						n = 2 + w.Choose(n-2)
					}
					far = start + uint32(n) - 1
					c.sendEntry(start, h.top+1, ids[:n])
				}
			} else {
				c.answer(f)
			}
			return
		}
		if entry {
			ids, start, ok := c.entry(f)
			if !ok {
				return
			}
			switch kind {
			case "empty entry":
				c.offend("C13", kind)
				c.send(encNotify(ntResChain, chainEntryBody(start, h.top+1, nil).body()))
				finish()
				return
			case "undecodable entry":
				c.offend("C13", kind)
				c.send(encNotify(ntResChain, randBytes(r.rng, 1+r.rng.Intn(300))))
				finish()
				return
			case "cut entry":
				b := chainEntryBody(start, h.top+1, ids).body()
				c.offend("C13", kind)
				c.send(encNotify(ntResChain, b[:len(kvHead)+w.Choose(len(b)-len(kvHead))]))
				finish()
				return
			case "entry beyond its height":
				if far = start + uint32(len(ids)) - 1; far == 0 {
					break
				}
				c.offend("C13", kind)
				total := far - 1
				if w.Choose(2) == 1 {
					total = uint32(w.Choose(int(far)))
				}
				c.sendEntry(start, total, ids)
				finish()
				return
			case "broken block":
				if wrong == nil {
					lo := start + 1
					if t := x.nodeTop(); t >= lo {
						lo = t + 1
					}
					if lo > h.top {
						break
					}
					wrongAt = lo + uint32(w.Choose(int(min32(h.top-lo+1, 100))))
					wrong = x.breakBlock(wrongAt)
					if wrong == nil {
						kind = "missing"
						break
					}
					sent[wrong.b.hash()] = wrong
				}
				k := int(wrongAt) - int(start)
				if k >= 1 && k <= len(ids) {
					ids = append(append(append([]hash32{}, ids[:k]...), wrong.b.hash()), ids[k:]...)
				}
			}
			far = start + uint32(len(ids)) - 1
			c.sendEntry(start, h.top+1+uint32(btoi(kind == "broken block")), ids)
			return
		}
		// a block request
		b, _ := f.kv.bin("blocks")
		hs, _ := hashesOf(b)
		if len(hs) == 0 {
			return
		}
		var bl []rawBlock
		for _, y := range hs {
			if g := sent[y]; g != nil {
				bl = append(bl, rawBlock{block: g.b.encode(), txs: g.raws})
			} else if i, ok := x.ch.index(y); ok && i > 0 {
				bl = append(bl, x.ch.raw(i))
			} else {
				return
			}
		}
		at := w.Choose(len(bl))
		give := func(n int) {
			for _, y := range hs[:n] {
				c.gave[y] = true
			}
		}
		body := func(bl []rawBlock) []byte { return objectsBody(bl, h.top+1, nil).body() }
		insert := func(b rawBlock) []rawBlock {
			return append(append(append([]rawBlock{}, bl[:at]...), b), bl[at:]...)
		}
		switch kind {
		case "unrequested known", "unrequested new", "unrequested foreign":
			var e rawBlock
			lo, hi := uint32(1), x.nodeTop()
			if last, ok := x.ch.index(hs[len(hs)-1]); kind == "unrequested new" && ok {
				lo, hi = last+1, x.max
				at = len(bl) // continues the chain
				if w.Choose(3) == 2 {
					at = w.Choose(len(bl) + 1)
				}
			}
			if kind == "unrequested foreign" || lo > hi {
				i, ok := x.ch.index(hs[at%len(hs)])
				if !ok {
					return
				}
				g := x.breakBlock(i)
				if g == nil {
					return
				}
				e = rawBlock{block: g.b.encode(), txs: g.raws}
			} else {
				i := lo
				if at != len(bl) {
					i += uint32(w.Choose(int(hi - lo + 1)))
				}
				for _, y := range hs {
					if y == x.ch.hash(i) {
						return
					}
				}
				e = x.ch.raw(i)
			}
			give(min(at, len(hs)))
			c.offend("C13", kind)
			c.send(encNotify(ntResObjects, body(insert(e))))
		case "missing":
			n := 1 + w.Choose(len(bl))
			if n >= len(bl) {
				n = len(bl) - 1
			}
			if n == 0 {
				kind = "empty"
				c.offend("C13", kind)
				c.send(encNotify(ntResObjects, body(nil)))
				break
			}
			give(len(hs))
			var rest []rawBlock
			skip := map[int]bool{}
			for len(skip) < n {
				skip[w.Choose(len(bl))] = true
			}
			var miss []hash32
			for i := range bl {
				if !skip[i] {
					rest = append(rest, bl[i])
				} else {
					miss = append(miss, hs[i])
				}
			}
			if w.Choose(2) == 1 {
				miss = nil
			}
			if w.Choose(3) == 2 {
				// others twice in their place
				for n := len(bl) - len(rest); n > 0; n-- {
					k := w.Choose(len(rest))
					e := rest[k]
					if w.Choose(2) == 1 {
						k = len(rest)
					}
					rest = append(rest[:k], append([]rawBlock{e}, rest[k:]...)...)
				}
				if w.Choose(2) == 1 {
					miss = nil
				}
				kind = "missing, others twice"
			}
			c.offend("C13", kind)
			c.send(encNotify(ntResObjects, objectsBody(rest, h.top+1, miss).body()))
		case "empty":
			c.offend("C13", kind)
			var miss []hash32
			if w.Choose(2) == 1 {
				miss = hs
			}
			c.send(encNotify(ntResObjects, objectsBody(nil, h.top+1, miss).body()))
		case "undecodable":
			c.offend("C13", kind)
			c.send(encNotify(ntResObjects, randBytes(r.rng, r.rng.Intn(2000))))
		case "cut":
			b := body(bl)
			c.offend("C13", kind)
			c.send(encNotify(ntResObjects, b[:len(b)-1-w.Choose(len(b)-1)]))
		case "bad blob":
			give(at)
			bl[at].block = badBlob(r.rng)
			c.offend("C13", kind)
			c.send(encNotify(ntResObjects, body(bl)))
		case "lower height":
			if far == 0 {
				c.answer(f)
				return
			}
			give(len(hs))
			now := far - 1
			if w.Choose(2) == 1 {
				now = uint32(w.Choose(int(far)))
			}
			c.offend("C13", kind)
			c.send(encNotify(ntResObjects, objectsBody(bl, now, nil).body()))
		case "cut blob":
			give(at)
			bl[at].block = bl[at].block[:w.Choose(len(bl[at].block))]
			c.offend("C13", kind)
			c.send(encNotify(ntResObjects, body(bl)))
		case "fewer txs":
			ok := false
			for n := range bl {
				k := (at + n) % len(bl)
				if len(bl[k].txs) > 0 {
					j := w.Choose(len(bl[k].txs))
					bl[k].txs = append(append([][]byte{}, bl[k].txs[:j]...), bl[k].txs[j+1:]...)
					at, ok = k, true
					break
				}
			}
			if !ok {
				c.answer(f)
				return
			}
			give(at)
			c.offend("C13", kind)
			c.send(encNotify(ntResObjects, body(bl)))
		case "more txs":
			give(at)
			t := randBytes(r.rng, 20)
			for _, z := range bl {
				if len(z.txs) > 0 && w.Choose(2) == 1 {
					t = z.txs[0]
				}
			}
			bl[at].txs = append(append([][]byte{}, bl[at].txs...), t)
			c.offend("C13", kind)
			c.send(encNotify(ntResObjects, body(bl)))
		case "broken block":
			k := -1
			for i, y := range hs {
				if sent[y] != nil {
					k = i
				}
			}
			if k < 0 {
				give(len(hs))
				c.send(encNotify(ntResObjects, body(bl)))
				return
			}
			give(k)
			c.offend("C13", kind)
			c.send(encNotify(ntResObjects, body(bl)))
		default:
			c.answer(f)
			return
		}
		finish()
	}
	c.onFrame = func(f *frame) bool {
		if f.response() || f.kv == nil || (f.cmd != ntReqChain && f.cmd != ntReqObjects) {
			return false
		}
		w.GoIn(h.proc, "cheat", func() { handle(f) })
		return true
	}
	if kind == "unsolicited" {
		handle = func(f *frame) {
			if !done {
				c.answer(f)
			}
		}
	}
	if kind == "unsolicited" {
		// nothing that could make the node ask
		h.top = min32(h.top, x.nodeTop())
	}
	if !c.greet() {
		return
	}
	if kind == "unsolicited" {
		x.nap(x.secs(0, 20))
		if c.e.Closed() || c.dropped() {
			return
		}
		// the next blocks, which nobody asked us for
		done = true
		lastF = nil
		t := x.nodeTop() + 1
		if c.pendingAsk() || t > x.max {
			return
		}
		var bl []rawBlock
		for i := t; i <= x.max && len(bl) < 1+w.Choose(5); i++ {
			bl = append(bl, x.ch.raw(i))
		}
		c.offend("C13", kind)
		c.send(encNotify(ntResObjects, objectsBody(bl, h.top+1, nil).body()))
		c.mustDrop("C13")
		return
	}
	w.Block("cheat", func() bool { return x.over || c.dropped() || c.e.Closed() }, w.Now()+300*sec)
	x.sleep(sec)
}

// pendingAsk reports that blocks were requested on this connection and not
// delivered.
func (c *pconn) pendingAsk() bool {
	for y := range c.asked {
		if !c.gave[y] {
			return true
		}
	}
	return false
}

// silentObjects sends a right answer that must not be used.
func (c *pconn) silentObjects(f *frame) {
	b, _ := f.kv.bin("blocks")
	hs, _ := hashesOf(b)
	var bl []rawBlock
	for _, y := range hs {
		if i, ok := c.x.ch.index(y); ok && i > 0 {
			bl = append(bl, c.x.ch.raw(i))
		}
	}
	if len(bl) > 0 {
		c.send(encNotify(ntResObjects, objectsBody(bl, c.h.top+1, nil).body()))
	}
}

// greet handshakes in the right direction.
func (c *pconn) greet() bool {
	x, h := c.x, c.h
	if !c.out {
		return c.shake()
	}
	if c.await(60*sec, isCmd(cmdHandshake, false)) == nil {
		return false
	}
	return c.hello(h.data(), h.top+1, x.ch.hash(h.top))
}

func badBlob(r *rand.Rand) []byte {
	for {
		b := randBytes(r, r.Intn(300))
		if _, err := decodeBlock(b); err != nil {
			return b
		}
	}
}

func min32(a, b uint32) uint32 {
	if a < b {
		return a
	}
	return b
}

// breakBlock makes a block for an index of the chain that is invalid there for
// certain.
func (x *p2pRun) breakBlock(i uint32) *forged {
	w := x.w
	if i < 1 || i > x.max {
		return nil
	}
	for n := 0; n < 4; n++ {
		g := x.ch.f[i-1].clone()
		switch w.Choose(7) {
		case 0:
			g.b.base.outs[w.Choose(len(g.b.base.outs))].amt++
		case 1:
			g.b.base.unlock++
		case 2:
			g.b.prev = randHash(x.r.rng)
		case 3:
			g.b.major++
			if g.b.merged() {
				continue
			}
		case 4:
			g.b.ts = uint64(epoch) + 30000000
		case 5:
			g.b.base.ins[0].idx++
		case 6:
			if len(g.txs) == 0 {
				continue
			}
			t := g.txs[w.Choose(len(g.txs))]
			if len(t.outs) == 0 {
				continue
			}
			t.outs[0].amt += 1 << 60
			g.sealTxs()
		}
		m := x.ch.upTo(i - 1)
		v := m.judge(g.b, g.raws, epoch+uint64(w.Now()/sec)+50000)
		if !surelyBad(v) {
			continue
		}
		return g
	}
	return nil
}

// ---------------------------------------------------------------- strangers

var inStrangers = []string{"wrong network", "wrong then right", "early notify", "early sync", "early mix", "second handshake", "second with blocks"}
var outStrangers = []string{"wrong network", "low version", "handshake on outgoing", "handshake instead", "low with blocks", "early mix"}

func (x *p2pRun) otherNet() (n [16]byte) {
	n = x.netID
	switch x.w.Choose(3) {
	case 0:
		n[x.w.Choose(16)] ^= 1 << uint(x.w.Choose(8))
	case 1:
		n = [16]byte{}
	default:
		copy(n[:], randBytes(x.r.rng, 16))
	}
	if n == x.netID {
		n[0]++
	}
	return
}

// push sends the next blocks of the chain as if they had been asked for.
func (c *pconn) push() {
	x := c.x
	t := x.nodeTop() + 1
	if t > x.max {
		return
	}
	ids := []hash32{x.ch.hash(t - 1)}
	var bl []rawBlock
	for i := t; i <= x.max && len(bl) < 3; i++ {
		ids = append(ids, x.ch.hash(i))
		bl = append(bl, x.ch.raw(i))
	}
	if x.w.Choose(2) == 1 {
		c.send(encNotify(ntResChain, chainEntryBody(t-1, t+uint32(len(bl)), ids).body()))
	}
	c.send(encNotify(ntResObjects, objectsBody(bl, t+uint32(len(bl)), nil).body()))
}

func (x *p2pRun) stranger(h *hpeer, c *pconn) {
	w := x.w
	list := inStrangers
	if c.out {
		list = outStrangers
	}
	kind := list[w.Choose(len(list))]
	x.r.cover("stranger.%v.%s", c.out, kind)
	w.Logf("%s is a stranger: %s", h.proc.Name, kind)
	top, th := h.top+1, x.ch.hash(h.top)
	d := h.data()
	sync := func() { c.request(cmdTimedSync, (&kv{}).sub("payload_data", syncKV(top, th))) }
	if c.out {
		if c.await(60*sec, isCmd(cmdHandshake, false)) == nil {
			return
		}
	}
	extra := w.Choose(3)
	after := func() {
		switch extra {
		case 1:
			c.push()
		case 2:
			sync()
			c.push()
		}
	}
	switch kind {
	case "wrong network":
		d.net = x.otherNet()
		c.hello(d, top, th)
		c.offend("C12", kind)
		after()
		c.mustDrop("C12")
	case "wrong then right":
		d.net = x.otherNet()
		c.hello(d, top, th)
		c.offend("C12", kind)
		c.hello(h.data(), top, th)
		after()
		c.mustDrop("C12")
	case "low version", "low with blocks":
		if x.min == 0 {
			return
		}
		d.version = byte(w.Choose(int(x.min)))
		c.hello(d, top, th)
		c.offend("C12", kind)
		after()
		if kind == "low with blocks" {
			c.push()
		}
		c.mustDrop("C12")
	case "early notify":
		switch w.Choose(4) {
		case 0:
			c.send(encNotify(ntReqChain, (&kv{}).str("block_ids", joinHashes([]hash32{x.ch.hash(0)})).body()))
		case 1:
			c.send(encNotify(ntTxPool, (&kv{}).body()))
		case 2:
			c.send(encNotify(ntReqObjects, (&kv{}).str("blocks", joinHashes([]hash32{x.ch.hash(0)})).body()))
		}
		c.push()
		sync()
		c.push()
		x.nap(x.secs(3, 15))
	case "early sync":
		sync()
		x.nap(x.secs(0, 3))
		c.push()
		sync()
		x.nap(x.secs(3, 15))
	case "early mix":
		// anything but a handshake
		for n := 1 + w.Choose(5); n > 0 && !c.dropped(); n-- {
			switch w.Choose(8) {
			case 0, 1, 2:
				sync()
			case 3:
				if top > 1 {
					top--
					th = x.ch.hash(top - 1)
				}
				sync()
			case 4:
				c.send(encReq(cmdPing, (&kv{}).body()))
			case 5:
				c.send(encReply(cmdTimedSync, (&kv{}).u64("local_time", uint64(epoch)).sub("payload_data", syncKV(top, th)).body()))
			case 6:
				c.send(encNotify(ntTxPool, (&kv{}).body()))
			case 7:
				c.push()
			}
			x.nap(x.secs(0, 3))
		}
		x.nap(x.secs(3, 15))
	case "second handshake", "second with blocks":
		if kind == "second handshake" {
			h.top = x.nodeTop()
			top, th = h.top+1, x.ch.hash(h.top)
		}
		c.onFrame = func(f *frame) bool { return !f.response() } // nothing is answered
		if w.Choose(2) == 1 {
			if !c.hello(d, top, th) {
				return
			}
		} else if !c.shake() {
			return
		}
		if w.Choose(3) == 2 {
			sync()
		}
		if w.Choose(2) == 1 {
			d.id ^= uint64(1 + w.Choose(1000))
		}
		// the second one must not be taken: its identity is not registered
		c.reqs[cmdHandshake]++
		c.low = append(c.low, x.nodeTop())
		c.lowAt = append(c.lowAt, w.Now())
		c.send(encReq(cmdHandshake, handshakeBody(d, top, th).body()))
		c.offend("C12", kind)
		c.mustDrop("C12")
	case "handshake on outgoing":
		h.top = x.nodeTop()
		if !c.hello(d, h.top+1, x.ch.hash(h.top)) {
			return
		}
		x.nap(x.secs(0, 5))
		c.request(cmdHandshake, handshakeBody(d, top, th))
		c.offend("C12", kind)
		c.mustDrop("C12")
	case "handshake instead":
		c.request(cmdHandshake, handshakeBody(d, top, th))
		c.offend("C12", kind)
		after()
		c.mustDrop("C12")
	}
}

// ---------------------------------------------------------------- idle and broken peers

var idlers = []string{"silent", "head", "body", "not reading", "shake not reading", "half close", "slow", "reset", "close", "shake and leave", "shake and stay", "big announce", "reset mid message"}

// idle connects and then does something that ties up a naive server.
func (x *p2pRun) idle(h *hpeer, c *pconn) {
	w := x.w
	kind := idlers[w.Choose(len(idlers))]
	x.r.cover("idle.%s", kind)
	w.Logf("%s idles: %s", h.proc.Name, kind)
	h.top = min32(h.top, x.nodeTop())
	c.onFrame = func(f *frame) bool { return !f.response() && f.cmd != cmdHandshake }
	hs := func() []byte {
		c.registerHello(h.data())
		return encReq(cmdHandshake, handshakeBody(h.data(), h.top+1, x.ch.hash(h.top)).body())
	}
	late := w.Choose(2) == 1 && kind != "shake not reading"
	if late && kind != "silent" && kind != "shake and leave" {
		if !c.greet() {
			return
		}
	}
	stay := func() {
		until := w.Now() + x.secs(10, 200)
		w.Block("stay", func() bool { return x.over }, until)
	}
	msg := func() []byte {
		if late || c.out {
			return encReq(cmdTimedSync, (&kv{}).sub("payload_data", syncKV(h.top+1, x.ch.hash(h.top))).body())
		}
		return encReq(cmdHandshake, handshakeBody(h.data(), h.top+1, x.ch.hash(h.top)).body())
	}
	switch kind {
	case "silent":
		stay()
	case "head":
		b := msg()
		c.send(b[:w.Choose(levinHead)])
		stay()
	case "body":
		b := msg()
		c.send(b[:levinHead+w.Choose(len(b)-levinHead)])
		stay()
	case "big announce":
		b := encNotify(ntResObjects, nil)
		b[8+3] = byte(1 + w.Choose(5)) // tens of megabytes
		c.send(append(b, randBytes(x.r.rng, w.Choose(3000))...))
		stay()
	case "not reading":
		c.noRead = true
		n := 20 + w.Choose(200)
		for i := 0; i < n && !x.over && !c.dropped(); i++ {
			w.GoIn(h.proc, "flood", func() { c.sync() })
			x.nap(500 * ms)
		}
		stay()
		c.noRead = false
	case "shake not reading":
		// the answer, or the request, of the handshake is never read
		c.noRead = true
		if !c.out {
			c.reqs[cmdHandshake]++
			c.low, c.lowAt = append(c.low, x.nodeTop()), append(c.lowAt, w.Now())
			c.send(hs())
		}
		if w.Choose(2) == 1 {
			w.GoIn(h.proc, "flood", func() { c.sync() })
		}
		stay()
		c.noRead = false
	case "half close":
		if !late && !c.out && w.Choose(2) == 1 {
			c.reqs[cmdHandshake]++
			c.low, c.lowAt = append(c.low, x.nodeTop()), append(c.lowAt, w.Now())
			c.send(hs())
		}
		c.e.CloseWrite()
		c.halfAt = w.Now()
		stay()
	case "slow":
		b := msg()
		for i := 0; i < len(b)-1 && !x.over && !c.dropped(); i++ {
			if !c.send(b[i : i+1]) {
				break
			}
			x.nap(x.secs(0, 6))
		}
	case "reset", "reset mid message":
		if kind != "reset" {
			b := msg()
			c.send(b[:w.Choose(len(b))])
		}
		if w.Choose(2) == 1 {
			x.nap(x.secs(0, 4))
		}
		w.Fault("peer.reset")
		c.e.Linger0 = true
		c.e.Close()
	case "close":
		if w.Choose(2) == 1 {
			x.nap(x.secs(0, 4))
		}
	case "shake and leave":
		if !late {
			c.greet()
		} else if !c.out {
			c.reqs[cmdHandshake]++
			c.low, c.lowAt = append(c.low, x.nodeTop()), append(c.lowAt, w.Now())
			c.send(hs())
		} else {
			c.hello(h.data(), h.top+1, x.ch.hash(h.top))
		}
		if w.Choose(2) == 1 {
			x.nap(x.secs(0, 6))
		}
	case "shake and stay":
		if !late && !c.greet() {
			return
		}
		stay()
	}
}

// ---------------------------------------------------------------- hosts that come and go

// visitor runs fn on fresh connections again and again until the run is over.
func (x *p2pRun) visitor(out bool, lo, hi int, times int, fn func(h *hpeer, c *pconn)) {
	h := x.newHost()
	h.top = x.drawTop()
	x.visits(h, out, lo, hi, times, fn)
}

// twin is one peer with connections of both directions, with one identity, at the same time.
func (x *p2pRun) twin(times int) {
	h := x.newHost()
	h.top = x.drawTop()
	out, in := x.lodger, x.passer
	if x.w.Choose(2) == 1 {
		out, in = in, out
	}
	x.visits(h, true, 0, 5, times, out)
	x.visits(h, false, 0, 5, times, in)
}

// lodger stays a while and asks for the peer list now and then.
func (x *p2pRun) lodger(h *hpeer, c *pconn) {
	w := x.w
	h.top = min32(h.top, x.nodeTop())
	c.onFrame = func(f *frame) bool { return !f.response() && f.cmd != cmdHandshake }
	if !c.greet() {
		return
	}
	for n := 2 + w.Choose(12); n > 0 && !x.over && !c.eof; n-- {
		c.sync()
		c.await(x.answerLimit(), isCmd(cmdTimedSync, true))
		x.nap(int64(500+w.Choose(4000)) * ms)
	}
	if w.Choose(4) == 3 {
		w.Fault("peer.reset")
		c.e.Linger0 = true
	}
}

func (x *p2pRun) visits(h *hpeer, out bool, lo, hi int, times int, fn func(h *hpeer, c *pconn)) {
	w := x.w
	top := h.top
	body := func(c *pconn) {
		h.top = top
		fn(h, c)
		if !c.e.Closed() {
			c.e.Close()
		}
	}
	if out {
		busy := false
		w.GoIn(h.proc, "listen", func() {
			h.listen(func(c *pconn) {
				busy = true
				body(c)
				busy = false
			})
		})
		w.GoIn(w.HarnessProc, "redial", func() {
			for n := 0; n < times && !x.over; n++ {
				x.nap(x.secs(lo, hi))
				w.Block("busy", func() bool { return !busy || x.over }, w.Now()+400*sec)
				if !x.over && !x.n.proc.Dead && !x.stopping && x.nd != nil {
					x.dialHost(h)
					x.nap(3 * sec)
				}
			}
		})
		return
	}
	w.GoIn(h.proc, "visitor", func() {
		for n := 0; n < times && !x.over; n++ {
			x.nap(x.secs(lo, hi))
			if x.over {
				return
			}
			if c := h.dial(); c != nil {
				body(c)
			}
		}
	})
}

func (x *p2pRun) drawTop() uint32 {
	switch x.w.Choose(4) {
	case 0:
		return x.max
	case 1:
		return x.nodeTop()
	}
	return uint32(x.w.Choose(int(x.max) + 1))
}

// ---------------------------------------------------------------- accept failures

var acceptErrs = []error{syscall.EMFILE, syscall.ECONNABORTED, syscall.ENFILE, syscall.ENOBUFS, syscall.EPROTO, syscall.ENOMEM}

func (x *p2pRun) failAccepts(n int) {
	for _, l := range x.n.proc.Listening() {
		for ; n > 0; n-- {
			l.FailNext = append(l.FailNext, acceptErrs[x.w.Choose(len(acceptErrs))])
		}
	}
	x.w.Logf("accepts will fail")
}

// rebind reports whether the node's address can be listened on.
func (x *p2pRun) rebind() (err error) {
	w := x.w
	p := w.NewProc("prober@" + nodeIP)
	done := false
	w.GoIn(p, "bind", func() {
		var l *zzsim.Listener
		l, err = w.Net.Listen(&net.TCPAddr{IP: net.ParseIP(nodeIP), Port: nodePort})
		if err == nil {
			_ = l.Close()
		}
		done = true
	})
	w.Block("bind", func() bool { return done }, w.Now()+10*sec)
	return
}

// surelyBad: broken by something else than the proof of work.
func surelyBad(v *verdict) bool {
	for _, s := range v.list() {
		if s[:3] != "C06" {
			return true
		}
	}
	return false
}

func addrOf(c *pconn) *net.TCPAddr { return &net.TCPAddr{IP: c.e.Local.IP, Port: c.e.Local.Port} }
