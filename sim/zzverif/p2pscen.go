//go:build go1.21

package main

import (
	"fmt"

	"github.com/r3volut1oner/go-karbo/p2p"
)

// mix says who takes part in a run and what is checked at its end.
type mix struct {
	in, out                      [2]int // honest peers
	cheats, strangers, idle      [2]int
	fuzz                         [2]int
	churn                        [2]int
	twins                        [2]int // peers with connections of both directions
	wear                         bool   // a great many connections of one kind
	talk                         bool   // an honest peer that syncs all the time
	dead                         int    // per cent of runs in which the node is told of addresses that never answer
	net                          int    // highest level of network faults
	preempt, crash, part, accept int    // per cent
	clock                        int
	grow                         int
	big                          int // per cent of runs with a long chain
	secs                         [2]int
	final                        string
	need                         bool // blocks for the honest peers to give
}

func (x *p2pRun) draw(v [2]int) int { return x.w.Range(v[0], v[1]) }

func (m mix) scenario(r *run) {
	w := r.w
	k := netKey{test: w.Choose(2) == 1, variant: w.Choose(3), txs: w.Choose(3) == 2}
	max := uint32(2 + w.Choose(60))
	switch w.Choose(4) {
	case 1:
		max = uint32(100 + w.Choose(300))
	case 2:
		max = uint32(1 + w.Choose(12))
	}
	if w.Choose(100) >= 100-m.big {
		max = uint32(300 + w.Choose(netMax-300))
	}
	if k.txs && max > 400 {
		max = 400
	}
	start := uint32(0)
	switch w.Choose(4) {
	case 1:
		start = uint32(w.Choose(int(max)))
	case 2:
		start = max - 1 - uint32(w.Choose(int(min32(max, 3))))
	case 3:
		if !m.need {
			start = max
		}
	}
	if m.need && w.Choose(6) == 5 {
		// the gap is a little more or less than whole requests
		if g := uint32(128*(1+w.Choose(3)) + w.Choose(7) - 2); g <= netMax && !(k.txs && g > 400) {
			if max < g {
				max = g + uint32(w.Choose(20))
				if max > netMax || k.txs && max > 400 {
					max = g
				}
			}
			start = max - g
		}
	}
	if start > max {
		start = 0
	}
	x, err := newP2P(r, k, max, start)
	if err != nil {
		w.HarnessErr = "p2p: " + err.Error()
		return
	}
	if w.Choose(2) == 1 {
		x.peerID = uint64(w.Choose(1<<30))<<20 + 77
		if w.Choose(3) == 2 {
			x.peerID = []uint64{1, 2, 255, 1<<16 + 1, 1<<31 + 5, 1 << 32, 1<<63 - 1, 1 << 63, 1<<64 - 1}[w.Choose(9)]
		}
	}
	if m.preempt > 0 && w.Pct(m.preempt) {
		w.P = drawSched(r)
		if m.net < 2 {
			w.P.StallPM = 0
		}
	} else {
		w.P.MapPerm = w.Choose(2) == 1
	}
	w.Run(func() { m.play(x) })
}

func (m mix) play(x *p2pRun) {
	w, r := x.w, x.r
	x.setNet(w.Choose(m.net + 1))
	if !x.startNode() {
		return
	}
	var hon []*honest
	add := func(out bool) {
		a := x.newHonest(out)
		a.h.top = x.drawTop()
		if len(hon) == 0 && m.need {
			a.h.top = x.max
		}
		if m.grow > 0 && w.Pct(m.grow) {
			a.grow = 20 + w.Choose(80)
			a.h.top = min32(a.h.top, uint32(w.Choose(int(x.max)+1)))
		}
		if a.mute {
			a.grow = 0
			a.h.top = uint32(w.Choose(int(x.max) + 1))
		}
		hon = append(hon, a)
		a.run()
	}
	for n := x.draw(m.in); n > 0; n-- {
		add(false)
	}
	for n := x.draw(m.out); n > 0; n-- {
		add(true)
	}
	if m.talk {
		a := x.newHonest(w.Choose(2) == 1 && x.canDial())
		a.mute, a.lo, a.hi = false, 0, 1
		a.h.top = x.nodeTop()
		if a.burst = 1; w.Choose(2) == 1 {
			a.grow = 20 + w.Choose(80)
		}
		hon = append(hon, a)
		a.run()
	}
	for n := x.draw(m.cheats); n > 0; n-- {
		x.visitor(w.Choose(4) == 3, 0, 20, 1+w.Choose(4), x.cheat)
	}
	for n := x.draw(m.strangers); n > 0; n-- {
		x.visitor(w.Choose(2) == 1, 0, 20, 1+w.Choose(4), x.stranger)
	}
	for n := x.draw(m.idle); n > 0; n-- {
		x.visitor(w.Choose(3) == 2, 0, 15, 1+w.Choose(6), x.idle)
	}
	for n := x.draw(m.churn); n > 0; n-- {
		x.visitor(w.Choose(2) == 1, 0, 3, 5+w.Choose(30), x.passer)
	}
	for n := x.draw(m.twins); n > 0; n-- {
		x.twin(3 + w.Choose(20))
	}
	if m.dead > 0 && w.Pct(m.dead) {
		x.deadEnds()
	}
	if m.wear {
		x.wearOut()
	}
	for n := x.draw(m.fuzz); n > 0; n-- {
		x.visitor(w.Choose(3) == 2, 0, 10, 1+w.Choose(8), x.fuzz)
	}
	end := w.Now() + int64(x.draw(m.secs))*sec
	for w.Now() < end {
		x.nap(x.secs(2, 25))
		switch k := w.Choose(100); {
		case k < 20 && m.part > 0 && w.Pct(m.part):
			if len(hon) > 0 {
				h := hon[w.Choose(len(hon))].h
				w.Net.Partition(x.n.proc, h.proc)
				x.calmSince = -1
				w.Logf("partition %s", h.proc.Name)
				np, hp := x.n.proc, h.proc
				w.After(x.secs(5, 100), func() { w.Net.Heal(np, hp) })
			}
		case k < 40 && m.crash > 0 && w.Pct(m.crash):
			if w.Choose(2) == 1 && len(hon) > 0 {
				a := hon[w.Choose(len(hon))]
				if !a.h.proc.Dead {
					x.calmSince = -1
					a.restart(x.secs(0, 30))
				}
			} else {
				x.calmSince = -1
				x.killNode()
				x.nap(x.secs(0, 20))
				if !x.startNode() {
					return
				}
			}
		case k < 70 && m.accept > 0 && w.Pct(m.accept):
			x.calmSince = -1
			switch w.Choose(3) {
			case 0:
				x.failAccepts(1 + w.Choose(8))
			case 1:
				w.Net.P.AcceptFailPM = 200 + w.Choose(700)
			default:
				x.n.proc.FDLimit = x.n.proc.FDs + w.Choose(3)
				w.Logf("no more descriptors")
			}
			x.nap(x.secs(5, 60))
			w.Net.P.AcceptFailPM = 0
			x.n.proc.FDLimit = 0
		case k < 80 && m.clock > 0 && w.Pct(m.clock):
			x.setClock(int64(w.Range(-40000, 40000)) * sec)
		}
	}
	x.calmDown()
	r.cover("conns.%d", x.nPast/8*8)
	for _, f := range splitWords(m.final) {
		switch f {
		case "serve":
			x.finalServe()
		case "sync":
			x.finalSync(hon)
		case "release":
			x.finalRelease(hon)
		case "stop":
			x.finalStop()
		case "files":
			if len(x.n.proc.Files) > 0 {
				r.fail("C11", "file written", "the node wrote files: %v", x.n.proc.Files)
			}
		case "store":
			x.finalStore()
		}
		r.cover("final.%s", f)
	}
}

// deadEnds has the node dial addresses from which nothing ever comes back.
func (x *p2pRun) deadEnds() {
	w := x.w
	h := x.newHost()
	w.Net.Blackhole[h.ip] = true
	w.GoIn(w.HarnessProc, "dial nowhere", func() {
		for n := 1 + w.Choose(40); n > 0 && !x.over && !x.stopping; n-- {
			if !x.n.proc.Dead && x.nd != nil && x.canDial() {
				w.Fault("net.blackhole")
				x.dialHost(h)
			}
			x.nap(x.secs(0, 10))
		}
	})
}

// wearOut makes a great many connections that all end in one way.
func (x *p2pRun) wearOut() {
	w := x.w
	kind := w.Choose(12)
	total, hosts := 40+w.Choose(300), 4+w.Choose(30)
	if kind == 11 { // these stay
		hosts = 10 + w.Choose(140)
		total = hosts
	}
	out := kind != 8 && w.Choose(4) == 3 && x.canDial()
	x.r.cover("wear.%d.%v", kind, out)
	w.Logf("%d connections of kind %d from %d hosts (%v)", total, kind, hosts, out)
	left := total / hosts * hosts
	end := func(h *hpeer, c *pconn) {
		defer func() { left-- }()
		h.top = min32(h.top, x.nodeTop())
		c.onFrame = func(f *frame) bool { return !f.response() && f.cmd != cmdHandshake }
		th := x.ch.hash(h.top)
		if c.out && (kind == 3 || kind == 4 || kind == 8) && c.await(20*sec, isCmd(cmdHandshake, false)) == nil {
			return
		}
		switch kind {
		case 0:
		case 1:
			c.e.Linger0 = true
		case 2:
			c.send(encNotify(ntReqChain, nil)[:1+w.Choose(levinHead-1)])
		case 3, 4:
			c.hello(h.data(), h.top+1, th)
			c.e.Linger0 = kind == 4
		case 5, 6, 9:
			if c.greet() && kind == 9 {
				c.sync()
				c.await(x.answerLimit(), isCmd(cmdTimedSync, true))
			}
			c.e.Linger0 = kind == 6
		case 7:
			c.garbled = true
			c.send(append([]byte{0x55}, randBytes(x.r.rng, 100)...))
			x.nap(int64(w.Choose(3000)) * ms)
		case 8:
			d := h.data()
			d.net = x.otherNet()
			c.hello(d, h.top+1, th)
			x.nap(int64(w.Choose(3000)) * ms)
		case 10:
			b := encReq(cmdTimedSync, (&kv{}).sub("payload_data", syncKV(h.top+1, th)).body())
			if c.greet() {
				c.send(b[:len(b)-1-w.Choose(len(b)-1)])
			}
		case 11:
			w.Block("stay", func() bool { return x.over || c.e.Closed() || c.dropped() }, w.Now()+500*sec)
		}
	}
	for n := hosts; n > 0; n-- {
		x.visitor(out, 0, 1, total/hosts, end)
	}
	if kind != 11 {
		w.Block("wear", func() bool { return left <= 0 }, w.Now()+600*sec)
	}
}

// passer handshakes, or not, and leaves.
func (x *p2pRun) passer(h *hpeer, c *pconn) {
	w := x.w
	h.top = min32(h.top, x.nodeTop())
	c.onFrame = func(f *frame) bool { return !f.response() && f.cmd != cmdHandshake }
	switch w.Choose(5) {
	case 0:
		return
	case 1:
		w.Fault("peer.reset")
		c.e.Linger0 = true
		return
	case 2:
		if c.out {
			if c.await(10*sec, isCmd(cmdHandshake, false)) == nil {
				return
			}
		}
		c.hello(h.data(), h.top+1, x.ch.hash(h.top))
		x.nap(int64(w.Choose(1500)) * ms)
		return
	}
	if !c.greet() {
		return
	}
	if w.Choose(2) == 1 {
		c.sync()
		c.await(x.answerLimit(), isCmd(cmdTimedSync, true))
	}
	x.nap(int64(w.Choose(4000)) * ms)
}

// ---------------------------------------------------------------- checks at the end

// finalServe: a new honest peer is served.
func (x *p2pRun) finalServe() {
	w := x.w
	x.nap(x.calmSince - w.Now() + 30*sec)
	h := x.newHost()
	h.top = min32(x.nodeTop(), x.max)
	done := false
	t0 := w.Now()
	w.GoIn(h.proc, "late", func() {
		c := h.dial()
		if c == nil {
			x.r.fail("C16 C11", "no connection", "a new peer cannot connect")
			return
		}
		c.serve()
		if c.shake() {
			done = true
			w.Logf("a new peer is served after %dms", (w.Now()-t0)/ms)
			c.sync()
			if c.await(x.answerLimit(), isCmd(cmdTimedSync, true)) == nil {
				x.r.fail("C16 C11 C10 C17", "new peer not served", "a new peer's timed sync is not answered")
			}
			c.e.Close()
		}
	})
	if !w.Block("late peer", func() bool { return done }, w.Now()+100*sec) {
		x.r.fail("C16 C11 C17", "new peer not served", "a new honest peer is not served within 100s: %v", w.ProcTasks(x.n.proc))
	}
}

// finalSync: the node catches up with the honest peers.
func (x *p2pRun) finalSync(hon []*honest) {
	w := x.w
	if len(hon) == 0 {
		return
	}
	if w.Choose(2) == 1 && !hon[0].mute {
		hon[0].h.top = x.max
	}
	x.nap(x.calmSince - w.Now())
	target, minN, outOnly := uint32(0), 1<<30, true
	for _, a := range hon {
		if a.out && !x.canDial() {
			continue
		}
		outOnly = false
		t := a.h.top
		if a.mute {
			t = a.h.told
		}
		if t > target {
			target = t
		}
		if a.h.maxN < minN {
			minN = a.h.maxN
		}
	}
	if outOnly {
		return
	}
	t0 := w.Now()
	w.Logf("the node has %d, the honest peers have %d", x.pushed, target)
	ok := w.Block("catch up", func() bool { return x.pushed >= target || x.n.proc.Dead }, t0+x.syncBound(target, minN))
	if !ok || x.n.proc.Dead {
		x.r.fail("C14 C11 C16", "no catch-up", "the node stays at %d although honest peers offer %d for %ds", x.pushed, target, (w.Now()-t0)/sec)
		return
	}
	w.Logf("caught up after %ds", (w.Now()-t0)/sec)
	x.quiet(hon)
	x.r.state("sync", target/16, x.epoch, len(hon))
}

// quiet: nothing more is asked of a peer all of whose blocks the node has.
func (x *p2pRun) quiet(hon []*honest) {
	w := x.w
	for _, a := range hon {
		a.grow, a.h.growAns = 0, 0
	}
	x.nap(60 * sec)
	type rec struct {
		c   *pconn
		n   int
		top uint32
	}
	var l []rec
	for _, a := range hon {
		if c := a.cur; c != nil && c.hsOK && c.honest && !c.eof && !c.dropped() && c.ep == x.epoch && !x.stopping && x.w.P.StallPM == 0 && (x.pushed == a.h.top || x.pushed > a.h.top && a.h.maxN > int(a.h.top)) && w.Now()-c.openedAt > 60*sec {
			l = append(l, rec{c, len(c.chainReqs) + len(c.objReqs), a.h.top})
		}
	}
	if len(l) == 0 {
		return
	}
	x.nap(60 * sec)
	for _, y := range l {
		x.r.cover("quiet.checked")
		if n := len(y.c.chainReqs) + len(y.c.objReqs); n > y.n && y.c.h.top == y.top {
			x.r.fail("C14", "asked when done", "the node has every block of an honest peer and asks it for more (%d requests in 60s)", n-y.n)
		}
	}
}

// syncBound is the time a catch-up to target may take.
func (x *p2pRun) syncBound(target uint32, minN int) int64 {
	gap := int64(0)
	if target > x.pushed {
		gap = int64(target - x.pushed)
	}
	rounds := gap/128 + 2*gap/int64(minN-1) + 8
	bytes := int64(0)
	for i := x.pushed + 1; i <= target; i++ {
		b := x.ch.raw(i)
		bytes += int64(len(b.block)) + 100
		for _, t := range b.txs {
			bytes += int64(len(t)) + 10
		}
	}
	return 240*sec + rounds*6*sec + bytes*sec/20000
}

// canDial reports that the node can be told to open connections.
func (x *p2pRun) canDial() bool { return p2p.ZZCanDial }

// finalRelease: what past connections used is free again.
func (x *p2pRun) finalRelease(hon []*honest) {
	w, r := x.w, x.r
	for _, a := range hon {
		a.quit = true
	}
	x.over = true
	x.sleep(3 * sec)
	left := 0
	for _, c := range x.conns {
		if c.ep == x.epoch {
			if !c.e.Closed() && w.Choose(4) == 0 {
				c.e.Linger0 = true
			}
			if !c.e.Closed() {
				e := c.e
				w.GoIn(c.h.proc, "leave", func() { e.Close() })
			}
			left++
		}
	}
	p := x.n.proc
	quiet := func() bool { return len(p.Conns()) == 0 && p.Goro <= x.baseGoro+1 && p.FDs <= 1 }
	w.Block("release", quiet, w.Now()+180*sec)
	if n := len(p.Conns()); n > 0 {
		r.fail("C15", "connections kept", "%d connections are still open long after their peers left (%d in all)", n, left)
	}
	if p.FDs > 1 {
		r.fail("C15", "descriptors kept", "%d descriptors are in use with no connection left", p.FDs)
	}
	if p.Goro > x.baseGoro+1 {
		r.fail("C15", "tasks kept", "%d tasks are left of %d past connections: %v", p.Goro-x.baseGoro, left, w.ProcTasks(p))
	}
	r.state("release", left)
}

// finalStop: the node stops when told.
func (x *p2pRun) finalStop() {
	w, r := x.w, x.r
	p := x.n.proc
	open := len(p.Conns())
	st := ""
	for _, c := range x.conns {
		if c.ep == x.epoch && !c.dropped() {
			st += fmt.Sprint(c.hsSent, c.hsOK, c.out, c.noRead, len(c.announced) > 0, ";")
		}
	}
	r.state("stop", st)
	x.stopping = true
	w.Logf("the node is told to stop (%d connections)", open)
	t0 := w.Now()
	w.GoIn(p, "cancel", x.cancel)
	if !w.Block("stop", func() bool { return x.done }, t0+30*sec) {
		r.fail("C15", "does not stop", "the node has not returned 30s after it was told to stop, with %d connections: %v", open, w.ProcTasks(p))
		return
	}
	if x.runErr != nil {
		r.cover("stop with error")
	}
	if n := len(p.Conns()); n > 0 {
		r.fail("C15", "connections after stop", "%d connections are open after the node has stopped", n)
	}
	if err := x.rebind(); err != nil {
		r.fail("C15", "port after stop", "the port cannot be listened on after the node has stopped: %v", err)
	}
	w.Block("tasks", func() bool { return p.Goro == 0 }, w.Now()+10*sec)
	if p.Goro > 0 {
		r.fail("C15", "tasks after stop", "tasks are left after the node has stopped: %v", w.ProcTasks(p))
	}
	w.Logf("stopped after %dms", (x.doneAt-t0)/ms)
}

// finalStore compares everything stored with the reference.
func (x *p2pRun) finalStore() {
	st := x.n.st.Storage
	t, err := st.TopIndex()
	if err != nil {
		return
	}
	for i := uint32(1); i <= t && i <= x.max; i++ {
		got, h, ok := infoAt(st, i)
		if !ok {
			continue
		}
		want := x.ch.m.m[i]
		if h != want.hash && h != (hash32{}) {
			x.r.fail("C01 C02 C13", "stored hash", "block %d is stored as %x", i, h[:4])
		}
		for k, v := range map[string]uint64{"Index": uint64(i), "CumulativeDifficulty": want.cd, "TotalGeneratedCoins": want.coins,
			"TotalGeneratedTransactions": want.txs, "Timestamp": want.ts, "Size": want.size} {
			if g, in := got[k]; in && g != v {
				x.r.fail("C02 C03", "recorded data", "block %d has recorded %s %d, expected %d", i, k, g, v)
			}
		}
	}
}

func init() {
	register("C14", scenario{"catch-up", 6, mix{in: [2]int{1, 3}, out: [2]int{0, 2}, net: 2, crash: 50, part: 50, grow: 50, clock: 20, big: 12, secs: [2]int{10, 300}, final: "sync store", need: true}.scenario})
	register("C14", scenario{"among cheats", 3, mix{in: [2]int{1, 2}, out: [2]int{0, 1}, cheats: [2]int{0, 3}, strangers: [2]int{0, 2}, idle: [2]int{0, 3}, fuzz: [2]int{0, 2}, net: 2, grow: 50, big: 5, secs: [2]int{10, 200}, final: "sync store", need: true}.scenario})

	register("C10", scenario{"mix", 2, mix{in: [2]int{1, 3}, out: [2]int{0, 1}, cheats: [2]int{0, 1}, idle: [2]int{0, 3}, net: 2, grow: 40, big: 3, secs: [2]int{10, 120}, final: "serve sync store"}.scenario})
	register("C11", scenario{"hostile", 6, mix{in: [2]int{1, 2}, out: [2]int{0, 1}, fuzz: [2]int{1, 5}, idle: [2]int{0, 1}, net: 1, grow: 40, secs: [2]int{20, 200}, final: "serve sync store files"}.scenario})
	register("C12", scenario{"strangers", 6, mix{in: [2]int{0, 2}, out: [2]int{0, 2}, strangers: [2]int{1, 5}, churn: [2]int{0, 1}, net: 1, grow: 30, secs: [2]int{20, 150}, final: "serve"}.scenario})
	register("C13", scenario{"cheats", 6, mix{in: [2]int{0, 2}, out: [2]int{0, 1}, cheats: [2]int{1, 5}, net: 1, grow: 50, big: 5, secs: [2]int{20, 200}, final: "sync store", need: true}.scenario})
	register("C13", scenario{"faults", 2, mix{in: [2]int{0, 3}, out: [2]int{0, 1}, cheats: [2]int{0, 3}, net: 2, crash: 30, grow: 50, big: 5, secs: [2]int{20, 200}, final: "sync store", need: true}.scenario})
	register("C15", scenario{"stop", 5, mix{in: [2]int{0, 3}, out: [2]int{0, 2}, idle: [2]int{0, 8}, churn: [2]int{0, 1}, cheats: [2]int{0, 1}, net: 2, grow: 30, preempt: 30, dead: 25, big: 3, secs: [2]int{1, 100}, final: "stop"}.scenario})
	register("C15", scenario{"release", 5, mix{in: [2]int{0, 2}, out: [2]int{0, 2}, idle: [2]int{0, 6}, churn: [2]int{0, 4}, strangers: [2]int{0, 2}, cheats: [2]int{0, 1}, net: 2, grow: 30, preempt: 30, dead: 25, accept: 30, secs: [2]int{10, 200}, final: "release stop"}.scenario})
	register("C16", scenario{"accept", 6, mix{in: [2]int{0, 2}, out: [2]int{0, 1}, idle: [2]int{0, 5}, churn: [2]int{0, 4}, net: 2, crash: 20, part: 20, accept: 80, dead: 15, preempt: 20, secs: [2]int{20, 200}, final: "serve"}.scenario})
	register("C16", scenario{"stalls", 4, mix{in: [2]int{1, 3}, out: [2]int{0, 1}, idle: [2]int{1, 8}, churn: [2]int{0, 2}, net: 1, preempt: 20, secs: [2]int{20, 200}, final: "serve"}.scenario})
	register("C16", scenario{"crowd", 1, mix{in: [2]int{0, 25}, out: [2]int{0, 1}, idle: [2]int{0, 60}, churn: [2]int{0, 6}, net: 1, preempt: 10, secs: [2]int{10, 60}, final: "serve"}.scenario})
	for _, p := range []string{"C10", "C14", "C18"} {
		register(p, scenario{"talk", 1, mix{in: [2]int{0, 1}, out: [2]int{0, 1}, talk: true, net: 1, preempt: 10, grow: 30, big: 20, secs: [2]int{200, 900}, final: "sync serve"}.scenario})
	}
	for _, p := range []string{"C15", "C16", "C17"} {
		register(p, scenario{"wear", 1, mix{in: [2]int{0, 2}, out: [2]int{0, 1}, churn: [2]int{0, 1}, wear: true, net: 1, preempt: 10, accept: 20, secs: [2]int{1, 30}, final: "serve release stop"}.scenario})
	}
	register("C17", scenario{"list", 6, mix{in: [2]int{0, 3}, out: [2]int{0, 4}, churn: [2]int{1, 6}, twins: [2]int{0, 2}, strangers: [2]int{0, 1}, idle: [2]int{0, 2}, net: 2, preempt: 70, secs: [2]int{10, 100}, final: "serve"}.scenario})
	register("C18", scenario{"truth", 6, mix{in: [2]int{1, 4}, out: [2]int{0, 3}, churn: [2]int{0, 2}, net: 2, crash: 30, clock: 70, preempt: 60, grow: 70, big: 3, secs: [2]int{20, 200}, final: "sync"}.scenario})
}
