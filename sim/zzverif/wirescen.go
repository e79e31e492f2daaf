//go:build go1.21

package main

import (
	"bytes"
	"fmt"
	"net"

	"github.com/r3volut1oner/go-karbo/crypto"
	"github.com/r3volut1oner/go-karbo/p2p"
	"github.com/r3volut1oner/go-karbo/zzsim"
	znet "github.com/r3volut1oner/go-karbo/zzsim/shim/net"
)

// ---------------------------------------------------------------- bursts

// burst: peers send everything they have to say in one go, chopped anyhow; the
// node's answers tell which messages it saw, in which order and with which
// content.
func burst(r *run) {
	w := r.w
	k := netKey{test: w.Choose(2) == 1, variant: w.Choose(3)}
	max := uint32(2 + w.Choose(40))
	x, err := newP2P(r, k, max, uint32(w.Choose(int(max)+1)))
	if err != nil {
		w.HarnessErr = "p2p: " + err.Error()
		return
	}
	if w.Choose(3) == 2 {
		w.P = drawSched(r)
		w.P.StallPM = 0
	}
	w.Run(func() {
		x.setNet(w.Choose(2))
		if !x.startNode() {
			return
		}
		n := w.Range(1, 4)
		left := n
		for i := 0; i < n; i++ {
			h := x.newHost()
			h.top = uint32(w.Choose(int(x.nodeTop()) + 1))
			w.GoIn(h.proc, "burst", func() {
				for k := w.Range(1, 2); k > 0; k-- {
					x.burstOnce(h)
				}
				left--
			})
			if w.Choose(2) == 1 {
				x.nap(int64(w.Choose(3000)) * ms)
			}
		}
		w.Block("bursts", func() bool { return left == 0 }, -1)
		if w.Choose(2) == 1 {
			x.calmDown()
			x.finalServe()
		}
	})
}

func (x *p2pRun) burstOnce(h *hpeer) {
	w, r := x.w, x.r
	c := h.dial()
	if c == nil {
		r.fail("C16", "no connection", "a peer cannot connect")
		return
	}
	sync := func() []byte {
		c.reqs[cmdTimedSync]++
		c.low = append(c.low, x.nodeTop())
		c.lowAt = append(c.lowAt, w.Now())
		return encReq(cmdTimedSync, (&kv{}).sub("payload_data", syncKV(h.top+1, x.ch.hash(h.top))).body())
	}
	c.registerHello(h.data())
	c.reqs[cmdHandshake]++
	c.low = append(c.low, x.nodeTop())
	c.lowAt = append(c.lowAt, w.Now())
	buf := encReq(cmdHandshake, handshakeBody(h.data(), h.top+1, x.ch.hash(h.top)).body())
	// the answers that must come, as texts
	want := []string{"handshake"}
	budget := 60000
	if w.Net.P.Window < 2000 {
		budget = 6000
	}
	ends := []int{len(buf)}
	for n := w.Choose(9); n > 0 && len(buf) < budget; n-- {
		var m []byte
		switch w.Choose(5) {
		case 0, 1:
			m = sync()
			want = append(want, "sync")
		case 2, 3:
			ids := []hash32{x.ch.hash(uint32(w.Choose(int(x.nodeTop()) + 1)))}
			s := "ask"
			for k := 1 + w.Choose(40); k > 0; k-- {
				hh := randHash(r.rng)
				ids = append(ids, hh)
				s += fmt.Sprintf(" %x", hh)
			}
			c.announce(ids)
			m = encNotify(ntResChain, chainEntryBody(0, uint32(len(ids))+1, ids).body())
			want = append(want, s)
		default:
			// a notification that has no answer
			m = encNotify(ntLite, (&kv{}).u32("current_blockchain_height", h.top).u32("hop", 0).str("block", randBytes(r.rng, r.rng.Intn(budget/4))).body())
		}
		buf = append(buf, m...)
		ends = append(ends, len(buf))
	}
	whole := len(buf)
	torn := w.Choose(3) == 2
	if torn {
		// the last message never arrives completely
		m := sync()
		c.reqs[cmdTimedSync]--
		if w.Choose(2) == 1 {
			hh := randHash(r.rng)
			ids := []hash32{x.ch.hash(0), hh}
			m = encNotify(ntResChain, chainEntryBody(0, 3, ids).body())
		}
		buf = append(buf, m[:1+w.Choose(len(m)-1)]...)
		w.Fault("message cut short")
	}
	c.low, c.lowAt = c.low[:1], c.lowAt[:1] // answers are matched by the texts
	// chop
	cuts := []int{}
	switch w.Choose(4) {
	case 0:
	case 1:
		for _, e := range ends {
			cuts = append(cuts, e+w.Range(-3, 40))
		}
	case 2:
		for p := 0; p < len(buf) && len(cuts) < 400; p += 1 + w.Choose(200) {
			cuts = append(cuts, p)
		}
	case 3:
		for _, e := range ends {
			cuts = append(cuts, e)
		}
	}
	pos := 0
	for _, p := range append(cuts, len(buf)) {
		if p <= pos || p > len(buf) {
			continue
		}
		if !c.send(buf[pos:p]) {
			if !torn {
				r.fail("C10", "connection lost", "the node closes the connection of a peer that sends %d good messages", len(ends))
			}
			return
		}
		pos = p
		if w.Choose(4) == 3 {
			w.Sleep(int64(w.Choose(2000)) * ms)
			if w.Choose(8) == 7 {
				// a long silence, most often in the middle of a message
				w.Fault("long pause")
				w.Sleep(int64(1+w.Choose(900)) * sec)
			}
		}
	}
	if torn {
		w.Sleep(int64(w.Choose(3000)) * ms)
		if w.Choose(2) == 1 {
			_ = c.e.CloseWrite()
		}
	}
	got := []string{}
	next := 0
	read := func() bool {
		for ; next < len(c.q); next++ {
			f := c.q[next]
			switch {
			case f.cmd == cmdHandshake && f.response():
				got = append(got, "handshake")
			case f.cmd == cmdTimedSync && f.response():
				got = append(got, "sync")
			case f.cmd == ntReqObjects && !f.response():
				b, _ := f.kv.bin("blocks")
				hs, _ := hashesOf(b)
				s := "ask"
				for _, hh := range hs {
					s += fmt.Sprintf(" %x", hh)
				}
				got = append(got, s)
			default:
				got = append(got, fmt.Sprintf("message %d", f.cmd))
			}
		}
		return len(got) >= len(want) || c.eof
	}
	limit := 60*sec + int64(len(ends))*3*sec + int64(whole/w.Net.P.Window+1)*6*w.Net.P.LatMax
	w.Block("answers", read, w.Now()+limit)
	// nothing more may come
	w.Sleep(4*sec + 2*w.Net.P.LatMax)
	read()
	for i := 0; i < len(want) || i < len(got); i++ {
		a, b := "nothing", "nothing"
		if i < len(want) {
			a = want[i]
		}
		if i < len(got) {
			b = got[i]
		}
		if a != b {
			r.fail("C10", "messages lost or mixed", "of %d messages in one burst, answer %d is %s, expected %s", len(ends), i, clip(b), clip(a))
			break
		}
	}
	r.cover("burst.%d", len(want))
	r.state("burst", len(want), len(cuts)/8, torn, w.Net.P.Window)
	_ = c.e.Close()
}

func clip(s string) string {
	if len(s) > 60 {
		return s[:60] + "…"
	}
	return s
}

// ---------------------------------------------------------------- one connection

// oneWire drives the message layer itself: several tasks send on one
// connection, messages arrive chopped, and connections are cut.
func oneWire(r *run) {
	w := r.w
	a, b := w.NewProc("a"), w.NewProc("b")
	if w.Choose(3) > 0 {
		w.P = drawSched(r)
		w.P.StallPM = 0
	}
	p := zzsim.NetParams{LatMin: ms, LatMax: []int64{1, 20, 300}[w.Choose(3)] * ms}
	p.Window = []int{64 << 10, 1 << 20, 2000, 300, 40}[w.Choose(5)]
	p.FragPM = []int{0, 50, 400}[w.Choose(3)]
	p.ShortPM = []int{0, 50, 400}[w.Choose(3)]
	w.Net.P = p
	maxBody := 40 * p.Window
	if maxBody > 400000 {
		maxBody = 400000
	}
	size := func() int {
		switch w.Choose(4) {
		case 0:
			return 0
		case 1:
			return w.Choose(64)
		case 2:
			return w.Choose(min(maxBody, 4000))
		}
		return r.rng.Intn(maxBody)
	}
	nWriters := w.Range(1, 5)
	nBack := w.Choose(7)
	invokes := w.Choose(4)
	cut := w.Choose(3) == 2
	slow := w.Choose(3)
	w.Run(func() {
		var ea, eb *zzsim.Endpoint
		l, err := w.Net.Listen(&net.TCPAddr{IP: net.ParseIP("10.1.0.2"), Port: 7000})
		if err != nil {
			w.HarnessErr = "wire: " + err.Error()
			return
		}
		w.GoIn(b, "accept", func() { eb, _ = l.Accept() })
		w.GoIn(a, "dial", func() {
			ea, _ = w.Net.Dial(nil, &net.TCPAddr{IP: net.ParseIP("10.1.0.2"), Port: 7000}, w.Now()+20*sec, nil)
		})
		if !w.Block("connected", func() bool { return ea != nil && eb != nil }, w.Now()+60*sec) {
			w.HarnessErr = "wire: no connection"
			return
		}
		lp := &p2p.LevinProtocol{Conn: &znet.TCPConn{E: ea}}
		// what the far side sees
		var in []byte
		var seen []*frame
		eof := false
		w.GoIn(b, "reader", func() {
			buf := make([]byte, []int{1 << 16, 4096, 7}[slow])
			for {
				n, err := eb.Read(buf)
				in = append(in, buf[:n]...)
				for {
					f, rest, ferr := cutFrame(in)
					if ferr != nil {
						r.fail("C10", "malformed frame", "a malformed frame arrives: %v", ferr)
						return
					}
					if f == nil {
						break
					}
					in = rest
					seen = append(seen, f)
				}
				if err != nil {
					eof = true
					return
				}
				if slow > 0 && w.Choose(8) == 7 {
					w.Sleep(int64(w.Choose(500)) * ms)
				}
			}
		})
		// several tasks send
		type sent struct {
			task  int
			cmd   uint32
			reply bool
			ids   []crypto.Hash
			ok    bool
		}
		var all []*sent
		left := nWriters
		dead := false
		for t := 0; t < nWriters; t++ {
			t := t
			w.GoIn(a, "writer", func() {
				for k := 1 + w.Choose(5); k > 0; k-- {
					s := &sent{task: t, cmd: uint32(3000 + len(all)), reply: w.Choose(3) == 2}
					for n := size() / 32; n >= 0; n-- {
						s.ids = append(s.ids, crypto.Hash(randHash(r.rng)))
					}
					all = append(all, s)
					m := p2p.NotificationRequestGetObjects{Blocks: s.ids}
					var err error
					if s.reply {
						err = lp.Reply(s.cmd, m, 1)
					} else {
						err = lp.Notify(s.cmd, m)
					}
					s.ok = err == nil
					if err != nil && !dead {
						r.fail("C10", "sending fails", "a message cannot be sent over a working connection: %v", err)
						break
					}
					if err != nil {
						break
					}
				}
				left--
			})
		}
		if cut {
			w.GoIn(b, "cut", func() {
				w.Sleep(int64(w.Choose(6000)) * ms)
				if left == 0 {
					return
				}
				dead = true
				w.Fault("connection cut")
				if w.Choose(2) == 1 {
					eb.Linger0 = true
				}
				_ = eb.Close()
			})
		}
		if !w.Block("writers", func() bool { return left == 0 }, w.Now()+20000*sec) {
			r.fail("C10", "sending stuck", "a task stays in a send: %v", w.ProcTasks(a))
			return
		}
		if !dead {
			cut = false
			n := len(all)
			if !w.Block("arrive", func() bool { return len(seen) >= n && len(in) == 0 }, w.Now()+20000*sec) {
				r.fail("C10", "messages lost or mixed", "%d of %d messages arrive, %d bytes are left over", len(seen), n, len(in))
				return
			}
		} else {
			w.Block("closed", func() bool { return eof }, w.Now()+60*sec)
		}
		// every frame is one message that was sent, at most once, in the order of its task
		last := map[int]int{}
		used := map[int]bool{}
		for _, f := range seen {
			i := int(f.cmd) - 3000
			if i < 0 || i >= len(all) || used[i] {
				r.fail("C10", "messages lost or mixed", "a frame arrives that was not sent, or twice (%d)", f.cmd)
				return
			}
			s := all[i]
			used[i] = true
			k, err := parseKV(f.body)
			var ids []byte
			if err == nil {
				ids, _ = k.bin("blocks")
			}
			var raw []byte
			for _, h := range s.ids {
				raw = append(raw, h[:]...)
			}
			if err != nil || !bytes.Equal(ids, raw) || f.response() != s.reply || f.have {
				r.fail("C10", "message changed", "a message of %d bytes arrives changed (%v)", len(f.body), err)
				return
			}
			if j, ok := last[s.task]; ok && j > i {
				r.fail("C10", "messages out of order", "the messages of one task arrive out of order")
			}
			last[s.task] = i
		}
		r.cover("wire.frames.%d", len(seen)/4*4)
		r.state("wire", nWriters, len(seen), p.Window, p.FragPM, cut)
		if dead {
			return
		}
		// the other way
		if p2p.ZZCanRead {
			for k := 0; k < nBack; k++ {
				x := wireBack(r, lp, a, b, eb, size, 1+w.Choose(5))
				if !x {
					return
				}
			}
		}
		if p2p.ZZCanRead && nBack > 0 && w.Choose(150) == 149 {
			// close to the packet limit
			w.Net.P = zzsim.NetParams{LatMin: ms, LatMax: ms, Window: 1 << 26}
			n := []int{maxPacket, maxPacket - 1, maxPacket / 2, maxPacket / 10}[w.Choose(4)]
			if !wireBack(r, lp, a, b, eb, func() int { return n }, 1) {
				return
			}
			r.cover("wire.huge.%d", n)
			w.Net.P = p
		}
		for k := 0; k < invokes; k++ {
			if !wireInvoke(r, lp, a, b, eb, &seen, size) {
				return
			}
		}
		// the last message is cut short
		if p2p.ZZCanRead {
			f := encNotify(2002, randBytes(r.rng, size()))
			n := w.Choose(len(f))
			w.Fault("message cut short")
			done := false
			w.GoIn(b, "torn", func() {
				_, _ = eb.Write(f[:n])
				w.Sleep(int64(w.Choose(2000)) * ms)
				if w.Choose(2) == 1 {
					_ = eb.CloseWrite()
				} else {
					_ = eb.Close()
				}
			})
			w.GoIn(a, "read", func() {
				_, _, _, body, err := p2p.ZZRead(lp)
				if err == nil {
					r.fail("C10", "torn message processed", "%d of %d bytes of a message arrive before the connection is lost and a message of %d bytes is read", n, len(f), len(body))
				}
				done = true
			})
			if !w.Block("torn", func() bool { return done }, w.Now()+20000*sec) {
				r.fail("C10", "reading stuck", "reading a torn message does not end")
			}
		}
	})
}

// wireBack sends messages to the code under test and compares what it reads.
func wireBack(r *run, lp *p2p.LevinProtocol, a, b *zzsim.Proc, eb *zzsim.Endpoint, size func() int, n int) bool {
	w := r.w
	type msg struct {
		cmd        uint32
		have, resp bool
		body       []byte
	}
	var list []msg
	var buf []byte
	for k := n; k > 0; k-- {
		m := msg{cmd: uint32(1000 + w.Choose(2000)), have: w.Choose(2) == 1, resp: w.Choose(2) == 1, body: randBytes(r.rng, size())}
		fl := uint32(1)
		if m.resp {
			fl = 2
		}
		list = append(list, m)
		buf = append(buf, encFrame(m.cmd, m.have, fl, 0, m.body)...)
	}
	w.GoIn(b, "feed", func() {
		for len(buf) > 0 {
			n := len(buf)
			if w.Choose(2) == 1 {
				n = 1 + w.Choose(n)
			}
			if _, err := eb.Write(buf[:n]); err != nil {
				return
			}
			if buf = buf[n:]; len(buf) == 0 {
				return
			}
			if w.Choose(3) == 2 {
				w.Sleep(int64(w.Choose(900)) * ms)
				if w.Choose(12) == 11 {
					w.Sleep(int64(w.Choose(900)) * sec)
				}
			}
		}
	})
	got := 0
	bad := ""
	w.GoIn(a, "read", func() {
		for _, m := range list {
			cmd, notify, resp, body, err := p2p.ZZRead(lp)
			if err != nil {
				bad = fmt.Sprintf("a complete message is not read: %v", err)
				break
			}
			if cmd != m.cmd || notify == m.have || resp != m.resp || !bytes.Equal(body, m.body) {
				bad = fmt.Sprintf("message %d of %d bytes is read as %d of %d bytes", m.cmd, len(m.body), cmd, len(body))
				break
			}
			got++
		}
	})
	ok := w.Block("read", func() bool { return got == len(list) || bad != "" }, w.Now()+20000*sec)
	if bad != "" || !ok {
		r.fail("C10", "message read wrong", "%d of %d messages are read, then: %s", got, len(list), bad)
		return false
	}
	r.cover("wire.read")
	return true
}

// wireInvoke answers a request in pieces.
func wireInvoke(r *run, lp *p2p.LevinProtocol, a, b *zzsim.Proc, eb *zzsim.Endpoint, seen *[]*frame, size func() int) bool {
	w := r.w
	status := fmt.Sprintf("%x", randBytes(r.rng, r.rng.Intn(40)))
	pid := uint64(w.Choose(1<<30)) + 1
	before := len(*seen)
	wrong := w.Choose(4)
	if wrong == 3 {
		wrong += w.Choose(2)
	}
	w.GoIn(b, "answer", func() {
		if !w.Block("request", func() bool { return len(*seen) > before }, w.Now()+20000*sec) {
			return
		}
		body := (&kv{}).str("status", []byte(status)).u64("peer_id", pid).body()
		m := encReply(cmdPing, body)
		switch wrong {
		case 3:
			m = encReply(cmdPing+1, body)
		case 4:
			m = encFrame(cmdPing, false, 1, 0, body)
		}
		for len(m) > 0 {
			n := 1 + w.Choose(len(m))
			if _, err := eb.Write(m[:n]); err != nil {
				return
			}
			m = m[n:]
			if w.Choose(3) == 2 {
				w.Sleep(int64(w.Choose(900)) * ms)
			}
		}
	})
	done := false
	var res p2p.PingResponse
	var err error
	w.GoIn(a, "invoke", func() {
		err = lp.Invoke(cmdPing, p2p.PingRequest{}, &res)
		done = true
	})
	if !w.Block("invoke", func() bool { return done }, w.Now()+20000*sec) {
		r.fail("C10", "invoke stuck", "a request whose answer has arrived does not return")
		return false
	}
	f := (*seen)[len(*seen)-1]
	if len(*seen) != before+1 || f.cmd != cmdPing || !f.have || f.response() {
		r.fail("C10", "request frame", "a request is sent as message %d (wants an answer: %v)", f.cmd, f.have)
		return false
	}
	switch {
	case wrong >= 3 && err == nil:
		r.fail("C10", "wrong answer taken", "a message that is not the answer to the request is taken for it")
	case wrong < 3 && err != nil:
		r.fail("C10", "answer refused", "the answer to a request is refused: %v", err)
	case wrong < 3 && fmt.Sprint(res) != fmt.Sprint(p2p.PingResponse{Status: status, PeerID: pid}):
		r.fail("C10", "answer changed", "the answer to a request is read as %+v, sent was %s %d", res, status, pid)
	}
	r.cover("wire.invoke")
	return true
}

func init() {
	register("C10", scenario{"burst", 2, burst})
	register("C10", scenario{"wire", 2, oneWire})
}
