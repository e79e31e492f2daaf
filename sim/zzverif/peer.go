//go:build go1.21

package main

import (
	"encoding/binary"
	"fmt"
	"net"

	"go.uber.org/zap"

	"github.com/r3volut1oner/go-karbo/config"
	"github.com/r3volut1oner/go-karbo/crypto"
	"github.com/r3volut1oner/go-karbo/cryptonote"
	"github.com/r3volut1oner/go-karbo/p2p"
	"github.com/r3volut1oner/go-karbo/zzsim"
	zctx "github.com/r3volut1oner/go-karbo/zzsim/shim/context"
)

const (
	nodeIP   = "10.0.0.1"
	nodePort = 32347
)

var mainNetID = [16]byte{0xd6, 0x48, 0x2c, 0x89, 0xbc, 0x2d, 0x5b, 0x81, 0xaa, 0x9a, 0xbd, 0xf1, 0xd7, 0x31, 0x7d, 0xc3}

// p2pRun is one node among harness peers.
type p2pRun struct {
	moved bool // the node's clock was changed
	r     *run
	w     *zzsim.World
	ch    *netChain
	max   uint32 // blocks of the network that may be shown in this run
	n     *node
	net   *config.Network
	nd    *p2p.Node
	epoch int // incarnation of the node

	cancel   func()
	done     bool
	doneAt   int64
	runErr   error
	peerID   uint64 // configured
	seenID   uint64 // told to peers
	ver, min byte

	hosts []*hpeer
	conns []*pconn
	over  bool
	chaos bool // arbitrary bytes are on the way: responses cannot be counted

	pushed    uint32 // top of the node's store
	pushing   uint32 // calls under way that store a block
	offsets   []offRec
	handshook []hsRec
	baseGoro  int
	nPast     int
	grace     int64
	pending   map[int]*pconn // opened by the node, not yet accepted by the host
	calmSince int64          // since when no fault delays anything; <0 when there are faults
	stopping  bool
	netID     [16]byte
}

type offRec struct{ at, off int64 }

// hsRec is a peer that handshaked with the node.
type hsRec struct {
	id    uint64
	addr  *net.TCPAddr
	epoch int
	any   bool // sent bytes that may be anything
}

// hpeer is a remote host.
type hpeer struct {
	x     *p2pRun
	proc  *zzsim.Proc
	ip    string
	id    uint64
	port  int
	top   uint32 // what it has of the network's chain
	lst   *zzsim.Listener
	maxN  int // ids per chain entry
	num   int
	lives int

	growAns int    // per cent of answers before which it grows
	told    uint32 // the last top told to the node
}

// pconn is one connection between the node and a host.
type pconn struct {
	x   *p2pRun
	h   *hpeer
	e   *zzsim.Endpoint // our side
	out bool            // opened by the node
	ep  int             // incarnation of the node

	tap []byte // bytes written by the node, not yet a frame
	in  []byte // bytes read by us
	q   []*frame

	hsSent    bool  // our half of a right handshake has been sent
	hsAt      int64 // when
	hsOK      bool  // the answer has come
	bad       bool  // a handshake of another network or version was sent
	offence   string
	offAt     int64
	eof       bool
	eofAt     int64
	halfAt    int64
	reqs      map[uint32]int // requests sent
	ress      map[uint32]int // responses the node has written
	low       []uint32       // node's top when each request was sent
	lowAt     []int64
	minHeight uint32
	openedAt  int64

	announced []annRec
	asked     map[hash32]int
	gave      map[hash32]bool
	onFrame   func(f *frame) bool // true: handled
	pastAt    int64               // when the node first wrote what it writes only once it is done with our handshake
	chainReqs [][]hash32
	objReqs   [][]hash32
	noRead    bool // we do not read
	cut       bool // the last message sent is incomplete for good
	garbled   bool // we sent bytes that are not a sequence of messages
	honest    bool // we keep to the rules
	again     bool // the host had a connection before
	answers   int  // chain and block answers begun
}

type annRec struct {
	at    int64
	known int // leading blocks the node had
	ids   []hash32
}

func newP2P(r *run, k netKey, max, start uint32) (*p2pRun, error) {
	x := &p2pRun{r: r, w: r.w, max: max, grace: 30 * sec, pending: map[int]*pconn{}}
	x.ch = worldChain(k, int(max))
	x.net = netOf(k.test)
	x.ver, x.min = 4, 4
	x.netID = mainNetID
	if x.w.Choose(2) == 1 {
		// a network of its own
		x.netID[x.w.Choose(16)] ^= byte(1 + x.w.Choose(255))
		x.ver = byte(1 + x.w.Choose(9))
		x.min = byte(x.w.Choose(int(x.ver) + 1))
	}
	x.net.NetworkID = x.netID
	x.net.P2PCurrentVersion, x.net.P2PMinimumVersion = x.ver, x.min
	x.w.Net.OnConn = func(d, a *zzsim.Endpoint) {
		for _, h := range x.hosts {
			if h.proc == a.Proc || h.ip == a.Local.IP.String() {
				x.pending[a.ID] = h.wire(a, true)
			}
		}
	}
	x.w.OnCrash = func(c *zzCrash) {
		r.fail("C11 C14 C16 C17 C10 C12 C13 C15", "crash:"+c.Class(), "the node crashes: %s: %s (in %s)", c.Kind, c.Msg, c.Func)
	}
	if r.prop == "C11" {
		x.w.AllocSeen = func(n int64) {
			if got := x.w.Net.BytesDelivered; n > 4<<20+66*got {
				r.fail("C11", "memory out of proportion", "the node allocates %d bytes at once when %d bytes have been received by all", n, got)
			}
		}
	}
	x.n = &node{net: x.net, test: k.test, cps: map[uint32]hash32{}}
	if k.txs {
		x.n.cps[farCp] = hash32{1, 2, 3}
	}
	st, err := x.storeOf(start)
	if err != nil {
		return nil, err
	}
	x.pushed = start
	x.n.st = &cryptonote.ZZStore{Storage: st}
	x.n.st.Before = func(op string) error {
		if op == "push" {
			x.pushing++
		}
		return nil
	}
	x.n.st.After = func(op string) {
		if op == "push" {
			x.pushing--
			x.onPush()
		}
	}
	return x, nil
}

// storeOf is a new store with the chain's first blocks.
func (x *p2pRun) storeOf(top uint32) (cryptonote.Storage, error) {
	st := cryptonote.NewMemoryStorage()
	bc := cryptonote.NewBlockChain(x.net, st, logger)
	if err := bc.Init(); err != nil {
		return nil, err
	}
	for i := uint32(1); i <= top; i++ {
		if err := pushMeta(st, x.ch.m.m[i]); err != nil {
			return nil, err
		}
	}
	return st, nil
}

// onPush runs right after a block was stored.
func (x *p2pRun) onPush() {
	i, err := x.n.st.Storage.TopIndex()
	if err != nil {
		return
	}
	hp, err := x.n.st.Storage.HashAtIndex(i)
	if err != nil || hp == nil {
		return
	}
	h := hash32(*hp)
	x.w.Logf("node stores block %d %x", i, h[:4])
	if j, ok := x.ch.index(h); !ok || j != i || i > x.max {
		x.r.fail("C13 C11 C12 C01", "foreign block stored", "the node stored a block at %d that is not valid there", i)
		return
	}
	if i != x.pushed+1 {
		x.r.fail("C01 C11", "blocks skipped", "the node stored block %d after %d", i, x.pushed)
	}
	x.pushed = i
	early, strangers := false, false
	for _, c := range x.conns {
		if c.ep != x.epoch || !c.gave[h] {
			continue
		}
		if c.asked[h] > 0 && c.hsSent {
			return
		}
		if !c.hsSent {
			early = true
		} else {
			strangers = true
		}
	}
	switch {
	case early:
		x.r.fail("C12 C13", "block taken without handshake", "block %d was taken from a peer that has not handshaked", i)
	case strangers:
		x.r.fail("C13", "unrequested block taken", "block %d was taken from a peer it was not requested from", i)
	default:
		props := "C13"
		for _, c := range x.conns {
			if c.cut && c.ep == x.epoch {
				props = "C10 C13"
			}
		}
		x.r.fail(props, "block from nowhere", "block %d was stored but no peer sent it", i)
	}
}

// startNode opens the chain and runs the node in a new process.
func (x *p2pRun) startNode() bool {
	w := x.w
	x.epoch++
	x.nd = nil
	p := w.NewProc(fmt.Sprintf("node%d@%s", x.epoch, nodeIP))
	if n := len(x.offsets); n > 0 {
		p.Offset = x.offsets[n-1].off
	}
	x.n.proc = p
	w.Net.ProcOfIP[nodeIP] = p
	if x.epoch > 1 {
		// what survives is what was stored, not the memory with its locks
		st, err := x.storeOf(x.pushed)
		if err != nil {
			w.HarnessErr = "store: " + err.Error()
			return false
		}
		x.n.st.Storage, x.pushing = st, 0
	}
	var err error
	if !x.r.call(p, "open", 600*sec, func() { err = x.n.open() }) || err != nil {
		x.r.stop("C19:open fails")
		return false
	}
	x.done, x.runErr = false, nil
	x.seenID = 0
	var node *p2p.Node
	w.GoIn(p, "run", func() {
		ctx, cancel := zctx.WithCancel(zctx.Background())
		x.cancel = cancel
		nd := p2p.NewNode(x.n.bc, p2p.HostConfig{PeerID: x.peerID, BindAddr: fmt.Sprintf("%s:%d", nodeIP, nodePort), Network: x.net}, zap.NewNop())
		node = &nd
		x.runErr = nd.Run(ctx)
		x.done = true
		x.doneAt = w.Now()
	})
	w.Block("node start", func() bool { return x.done || p.Dead || (node != nil && len(p.Listening()) > 0) }, w.Now()+30*sec)
	if x.done || p.Dead || len(p.Listening()) == 0 {
		x.r.fail("C15 C16", "node does not start", "the node does not listen after its start: %v", x.runErr)
		return false
	}
	// its accept loop runs
	w.Block("node start", func() bool { return p.Goro >= 2 }, w.Now()+2*sec)
	x.nd = node
	x.baseGoro = p.Goro
	return true
}

// killNode crashes the node; its store survives.
func (x *p2pRun) killNode() {
	x.w.Fault("node.crash")
	x.w.KillProc(x.n.proc)
	x.w.Logf("node crashes")
}

func (x *p2pRun) setClock(off int64) {
	x.moved = true
	x.offsets = append(x.offsets, offRec{x.w.Now(), off})
	x.n.proc.Offset = off
	x.w.Fault("clock jump")
	x.w.Logf("node clock offset %ds", off/1e9)
}

// clockRange is the range of the node's clock in a period.
func (x *p2pRun) clockRange(from, to int64) (lo, hi int64) {
	lo, hi = 1<<62, -(1 << 62)
	off := int64(0)
	put := func(t, off int64) {
		v := epoch*sec + t + off
		if v < lo {
			lo = v
		}
		if v > hi {
			hi = v
		}
	}
	started := false
	for _, o := range x.offsets {
		if o.at <= from {
			off = o.off
			continue
		}
		if !started {
			put(from, off)
			started = true
		}
		if o.at > to {
			break
		}
		put(o.at, off)
		off = o.off
		put(o.at, off)
	}
	if !started {
		put(from, off)
	}
	put(to, off)
	return lo / 1e9, hi / 1e9
}

// nodeTop is the top of the running node: what a request sent now must see. The harness does not ask
// the node itself: a task of a stopped node may hold its locks for ever.
func (x *p2pRun) nodeTop() uint32 {
	if x.n.proc.Dead {
		return 0
	}
	return x.pushed
}

// mayTop is the highest block the node may already name as its top: a block that is being stored counts.
func (x *p2pRun) mayTop() uint32 { return x.pushed + x.pushing }

// ---------------------------------------------------------------- hosts

func (x *p2pRun) newHost() *hpeer {
	k := len(x.hosts) + 1
	h := &hpeer{x: x, ip: fmt.Sprintf("10.0.%d.%d", 1+k/200, 1+k%200), port: nodePort + x.w.Choose(3), maxN: 10000, num: k}
	h.proc = x.w.NewProc(fmt.Sprintf("peer%d@%s", k, h.ip))
	x.w.Net.ProcOfIP[h.ip] = h.proc
	h.id = uint64(k)<<32 | uint64(x.r.rng.Uint32())
	x.hosts = append(x.hosts, h)
	return h
}

// data is the truth about a host.
func (h *hpeer) data() nodeData {
	return nodeData{net: h.x.netID, version: h.x.ver, id: h.id, time: uint64(epoch + h.x.w.Now()/1e9), port: uint32(h.port)}
}

// dial connects to the node from a task of the host.
func (h *hpeer) dial() *pconn {
	x := h.x
	e, err := x.w.Net.Dial(nil, &net.TCPAddr{IP: net.ParseIP(nodeIP), Port: nodePort}, x.w.Now()+20*sec, nil)
	if err != nil {
		return nil
	}
	return h.wire(e, false).start()
}

// wire makes the record of a connection; e is the host's end.
func (h *hpeer) wire(e *zzsim.Endpoint, out bool) *pconn {
	x := h.x
	c := &pconn{x: x, h: h, e: e, out: out, ep: x.epoch, reqs: map[uint32]int{}, ress: map[uint32]int{}, asked: map[hash32]int{}, gave: map[hash32]bool{}, openedAt: x.w.Now()}
	x.conns = append(x.conns, c)
	x.nPast++
	e.PeerEnd().TapW = c.tapped
	return c
}

func (c *pconn) start() *pconn {
	c.x.w.GoIn(c.h.proc, "reader", c.reader)
	return c
}

// listen makes the host reachable for the node.
func (h *hpeer) listen(serve func(c *pconn)) bool {
	x := h.x
	l, err := x.w.Net.Listen(&net.TCPAddr{IP: net.ParseIP(h.ip), Port: h.port})
	if err != nil {
		return false
	}
	h.lst = l
	x.w.GoIn(h.proc, "accept", func() {
		for {
			e, err := l.Accept()
			if err != nil {
				if l.Closed() {
					return
				}
				continue
			}
			c := x.pending[e.ID]
			if c == nil {
				c = h.wire(e, true)
			}
			delete(x.pending, e.ID)
			c.start()
			x.w.GoIn(h.proc, "serve", func() { serve(c) })
		}
	})
	return true
}

// dialHost makes the node open a connection to the host.
func (x *p2pRun) dialHost(h *hpeer) {
	nd := x.nd
	if nd == nil {
		return
	}
	x.w.GoIn(x.n.proc, "dial", func() { p2p.ZZDial(nd, fmt.Sprintf("%s:%d", h.ip, h.port)) })
}

func (c *pconn) nodeEnd() *zzsim.Endpoint { return c.e.PeerEnd() }

// blameless checks, when a connection of an honest peer is over, that it was
// not the node that ended it.
func (c *pconn) blameless() {
	x, e := c.x, c.nodeEnd()
	if !c.honest || !e.Closed() || e.PeerGone() || x.moved || x.stopping || x.n.proc.Dead || c.ep != x.epoch {
		return
	}
	if c.out && c.again && (e.ClosedAt-c.openedAt < 60*sec || x.calmSince < 0 || x.calmSince > c.openedAt) {
		// an earlier connection of the peer may still be listed
		return
	}
	x.r.fail("C14 C11", "honest peer disconnected", "the node ends the connection of an honest peer (%s)", c.h.proc.Name)
}

// dropped reports that the node has closed its end.
func (c *pconn) dropped() bool { return c.nodeEnd().Closed() }

func (c *pconn) reader() {
	buf := make([]byte, 32<<10)
	for {
		if c.noRead {
			c.x.w.Block("not reading", func() bool { return !c.noRead }, -1)
		}
		n, err := c.e.Read(buf)
		if n > 0 {
			c.in = append(c.in, buf[:n]...)
			for {
				f, rest, err := cutFrame(c.in)
				if err != nil || f == nil {
					break
				}
				c.in = rest
				f.at = c.x.w.Now()
				f.kv, _ = parseKV(f.body)
				if c.onFrame == nil || !c.onFrame(f) {
					c.q = append(c.q, f)
				}
			}
		}
		if err != nil {
			c.eof = true
			c.eofAt = c.x.w.Now()
			return
		}
	}
}

// await waits for a frame; nil on a lost connection or time out.
func (c *pconn) await(limit int64, match func(f *frame) bool) *frame {
	w := c.x.w
	var got *frame
	find := func() bool {
		for i, f := range c.q {
			if match(f) {
				got = f
				c.q = append(append([]*frame{}, c.q[:i]...), c.q[i+1:]...)
				return true
			}
		}
		return false
	}
	w.Block("await", func() bool { return got != nil || find() || c.eof || c.e.Closed() }, w.Now()+limit)
	return got
}

func isCmd(cmd uint32, response bool) func(f *frame) bool {
	return func(f *frame) bool { return f.cmd == cmd && f.response() == response }
}

// send writes bytes to the node; false when the connection is lost.
func (c *pconn) send(b []byte) bool {
	_, err := c.e.Write(b)
	return err == nil
}

func (c *pconn) request(cmd uint32, body *kv) bool {
	top := c.x.nodeTop()
	c.reqs[cmd]++
	c.low = append(c.low, top)
	c.lowAt = append(c.lowAt, c.x.w.Now())
	return c.send(encReq(cmd, body.body()))
}

// hello sends our handshake; d is checked by the caller for truth.
func (c *pconn) hello(d nodeData, height uint32, top hash32) bool {
	c.registerHello(d)
	if c.out {
		return c.send(encReply(cmdHandshake, handshakeBody(d, height, top).str("local_peerlist", nil).body()))
	}
	return c.request(cmdHandshake, handshakeBody(d, height, top))
}

func (c *pconn) registerHello(d nodeData) {
	x := c.x
	if d.net != x.netID || (c.out && d.version < x.min) {
		c.bad = true
		return
	}
	if c.bad || c.hsSent {
		return
	}
	c.hsSent = true
	c.hsAt = x.w.Now()
	x.handshook = append(x.handshook, hsRec{id: d.id, addr: addrOf(c), epoch: c.ep})
}

// ---------------------------------------------------------------- honest service

// serve answers chain and block requests from the network's chain.
func (c *pconn) serve() {
	c.onFrame = func(f *frame) bool {
		if f.response() || f.kv == nil || (f.cmd != ntReqChain && f.cmd != ntReqObjects) {
			return false
		}
		c.x.w.GoIn(c.h.proc, "answer", func() { c.answer(f) })
		return true
	}
}

func (c *pconn) answer(f *frame) {
	if h := c.h; h.growAns > 0 && h.top < c.x.max && c.x.w.Pct(h.growAns) {
		h.top = min32(c.x.max, h.top+uint32(1+c.x.w.Choose(3)))
		c.x.w.Logf("%s has block %d", h.proc.Name, h.top)
	}
	c.h.told = c.h.top
	switch f.cmd {
	case ntReqChain:
		if ids, start, ok := c.entry(f); ok {
			c.sendEntry(start, c.h.top+1, ids)
		}
	case ntReqObjects:
		b, _ := f.kv.bin("blocks")
		hs, _ := hashesOf(b)
		var bl []rawBlock
		var missed []hash32
		for _, hh := range hs {
			if i, ok := c.x.ch.index(hh); ok && i >= 1 && i <= c.h.top {
				b := c.x.ch.raw(i)
				b.empty = c.h.id%2 == 1
				bl = append(bl, b)
			} else {
				missed = append(missed, hh)
			}
		}
		c.sendObjects(bl, hs, c.h.top+1, missed)
	}
}

// entry is the honest answer to a chain request.
func (c *pconn) entry(f *frame) (ids []hash32, start uint32, ok bool) {
	b, _ := f.kv.bin("block_ids")
	hs, err := hashesOf(b)
	if err != nil || len(hs) == 0 {
		return
	}
	for _, hh := range hs {
		if i, in := c.x.ch.index(hh); in && i <= c.h.top {
			start, ok = i, true
			break
		}
	}
	if !ok {
		return
	}
	for i := start; i <= c.h.top && len(ids) < c.h.maxN; i++ {
		ids = append(ids, c.x.ch.hash(i))
	}
	return
}

// sendEntry announces blocks.
func (c *pconn) sendEntry(start, total uint32, ids []hash32) bool {
	c.announce(ids)
	c.answers++
	return c.send(encNotify(ntResChain, chainEntryBody(start, total, ids).body()))
}

func (c *pconn) announce(ids []hash32) {
	known := 0
	top := c.x.nodeTop()
	for _, h := range ids {
		if i, ok := c.x.ch.index(h); !ok || i > top {
			break
		}
		known++
	}
	c.announced = append(c.announced, annRec{c.x.w.Now(), known, ids})
}

// sendObjects delivers blocks; hs are their hashes.
func (c *pconn) sendObjects(bl []rawBlock, hs []hash32, height uint32, missed []hash32) bool {
	for _, h := range hs {
		c.gave[h] = true
	}
	c.answers++
	return c.send(encNotify(ntResObjects, objectsBody(bl, height, missed).body()))
}

func (c *pconn) sync() bool {
	h := c.h
	return c.request(cmdTimedSync, (&kv{}).sub("payload_data", syncKV(h.top+1, h.x.ch.hash(h.top))))
}

// ---------------------------------------------------------------- what the node sends

// tapped sees every byte the node writes, in its own task.
func (c *pconn) tapped(b []byte) {
	c.tap = append(c.tap, b...)
	for {
		f, rest, err := cutFrame(c.tap)
		if err != nil {
			c.x.r.fail("C10", "malformed frame", "the node wrote a malformed frame: %v", err)
			return
		}
		if f == nil {
			return
		}
		c.tap = rest
		f.at = c.x.w.Now()
		f.kv, err = parseKV(f.body)
		if err != nil {
			c.x.r.fail("C10", "malformed body", "the node wrote a message %d with a malformed body: %v", f.cmd, err)
			return
		}
		c.wrote(f)
	}
}

func (c *pconn) wrote(f *frame) {
	x, r := c.x, c.x.r
	kind := "notify"
	if f.response() {
		kind = "response"
	} else if f.have {
		kind = "request"
	}
	x.w.Logf("node -> %s: %s %d, %d bytes", c.h.proc.Name, kind, f.cmd, len(f.body))
	r.cover("node.%s.%d", kind, f.cmd)
	if c.pastAt == 0 && c.hsSent && (f.cmd == ntReqObjects || f.cmd == cmdTimedSync && f.response()) {
		c.pastAt = x.w.Now()
	}
	r.state("node", f.cmd, x.n.proc.Goro, len(x.n.proc.Conns()), c.hsSent, c.offence != "")
	r.state("wrote", f.cmd, kind, c.out, c.hsSent, c.bad, c.offence, len(c.announced) > 0)
	switch {
	case f.cmd == cmdHandshake || f.cmd == cmdTimedSync:
		from := c.openedAt
		low := uint32(0)
		if f.response() {
			n := 0
			for _, k := range c.ress {
				n += k
			}
			c.ress[f.cmd]++
			if !c.chaos() && c.ress[f.cmd] > c.reqs[f.cmd] {
				r.fail("C10", "answer without request", "the node answers request %d %d times, %d were sent", f.cmd, c.ress[f.cmd], c.reqs[f.cmd])
			}
			if n < len(c.low) && !c.chaos() {
				low, from = c.low[n], c.lowAt[n]
			}
			if c.bad && f.cmd == cmdHandshake {
				r.cover("answer to a bad handshake")
			}
		} else if f.cmd == cmdHandshake {
			if !c.out || c.reqs[0] > 0 {
				r.fail("C12", "unexpected handshake request", "the node asks for a handshake on a connection that has one")
			}
			c.reqs[0]++
			from = c.nodeEnd().OpenedAt - 2*sec
		}
		c.truth(f, low, from)
	case f.cmd == ntReqChain || f.cmd == ntReqObjects:
		if !c.hsSent {
			r.fail("C12", "asked without handshake", "the node sends request %d to a peer that has not handshaked (wrong handshake sent: %v)", f.cmd, c.bad)
			return
		}
		if c.offence != "" && f.at > c.offAt && c.nodeEnd().Rcvd >= c.e.Sent && x.w.Now() > c.offAt+x.grace {
			r.fail("C13 C12", "asked after the offence", "the node still sends requests to a peer long after: %s", c.offence)
		}
		c.asks(f)
		if n := len(c.chainReqs) + len(c.objReqs) - c.answers; c.honest && n > 1 {
			r.fail("C14 C10", "asked again", "the node has %d unanswered requests to an honest peer", n)
		}
	}
}

func (c *pconn) chaos() bool { return c.garbled || c.x.chaos }

func (c *pconn) asks(f *frame) {
	x, r := c.x, c.x.r
	switch f.cmd {
	case ntReqChain:
		b, ok := f.kv.bin("block_ids")
		hs, err := hashesOf(b)
		if !ok || err != nil || len(hs) == 0 {
			r.fail("C20 C10", "chain request", "a chain request without block ids")
			return
		}
		c.chainReqs = append(c.chainReqs, hs)
		i, in := x.ch.index(hs[0])
		if !in || i > x.mayTop() {
			r.fail("C20", "chain request", "a chain request starts with an unknown block")
			return
		}
		var l []crypto.Hash
		for _, h := range hs {
			l = append(l, crypto.Hash(h))
		}
		if e := checkSparse(l, x.ch.m, i); e != "" {
			r.fail("C20", "chain request", "a chain request with top %d: %s", i, e)
		}
	case ntReqObjects:
		b, _ := f.kv.bin("blocks")
		hs, err := hashesOf(b)
		if err != nil {
			r.fail("C10 C13", "object request", "an object request with %v", err)
			return
		}
		c.objReqs = append(c.objReqs, hs)
		if len(hs) > 128 {
			r.fail("C13", "too many blocks requested", "%d blocks are requested at once", len(hs))
		}
		for _, h := range hs {
			c.asked[h]++
			ok, late, times := false, false, 0
			for _, a := range c.announced {
				for k, y := range a.ids {
					if y == h {
						times++
						if k >= a.known {
							ok = true
						} else {
							late = true
						}
					}
				}
			}
			if ok && c.asked[h] > times && !c.chaos() {
				r.fail("C10 C13", "block requested too often", "a block announced %d times is requested %d times", times, c.asked[h])
			}
			if !ok && late && !c.chaos() {
				i, _ := x.ch.index(h)
				r.fail("C13", "known block requested", "block %d is requested although it was known and led the announcement", i)
			} else if !ok && !c.chaos() {
				r.fail("C13", "unannounced block requested", "a block is requested from a peer that has not announced it")
			}
		}
	}
}

// truth checks what the node says about itself.
func (c *pconn) truth(f *frame, low uint32, from int64) {
	x, r := c.x, c.x.r
	p := f.kv.obj("payload_data")
	h, ok1 := p.num("current_height", tU32)
	tb, ok2 := p.bin("top_id")
	if !ok1 || !ok2 || len(tb) != 32 {
		r.fail("C18 C10", "sync data", "message %d without height and top", f.cmd)
		return
	}
	i, in := x.ch.index(hash32(tb))
	if !in || i > x.mayTop() {
		r.fail("C18", "unknown top", "the node names a top that never was its top (height %d)", h)
		return
	}
	if uint32(h) != i+1 {
		r.fail("C18", "height and top differ", "the node names height %d with the block at %d as top", h, i)
	}
	if i < low {
		r.fail("C18", "old top", "the node names the block at %d as its top although %d was its top before the request was sent", i, low)
	}
	if uint32(h) < c.minHeight {
		r.fail("C18", "height went down", "the node names height %d after %d on the same connection", h, c.minHeight)
	}
	c.minHeight = uint32(h)
	var tm uint64
	lo, hi := x.clockRange(from, x.w.Now())
	if f.cmd == cmdHandshake {
		d := f.kv.obj("node_data")
		id, ok := d.bin("network_id")
		if !ok || string(id) != string(x.netID[:]) {
			r.fail("C18", "network id", "a handshake with network id %x", id)
		}
		v, ok := d.num("version", tU8)
		if !ok || byte(v) != x.ver {
			r.fail("C18", "protocol version", "a handshake with protocol version %d, configured is %d", v, x.ver)
		}
		pid, ok := d.num("peer_id", tU64)
		if !ok || (x.peerID != 0 && pid != x.peerID) || pid == 0 {
			r.fail("C18", "peer identity", "a handshake with peer id %d, configured is %d", pid, x.peerID)
		} else if x.seenID != 0 && pid != x.seenID {
			r.fail("C18", "peer identity changes", "a handshake with peer id %d after %d", pid, x.seenID)
		}
		x.seenID = pid
		tm, ok = d.num("local_time", tU64)
		if !ok {
			r.fail("C18", "no time", "a handshake without time")
			return
		}
	} else {
		var ok bool
		tm, ok = f.kv.num("local_time", tU64)
		if !ok {
			r.fail("C18", "no time", "a timed sync answer without time")
			return
		}
	}
	if int64(tm) < lo || int64(tm) > hi {
		r.fail("C18", "wrong time", "message %d says the time is %d, the node's clock went from %d to %d", f.cmd, tm, lo, hi)
	}
	if f.response() {
		c.list(f, from)
	}
}

// list checks a peer list composed after the instant from.
func (c *pconn) list(f *frame, from int64) {
	x, r := c.x, c.x.r
	b, ok := f.kv.bin("local_peerlist")
	if _, there := f.kv.get("local_peerlist"); there && !ok {
		r.fail("C17", "peer list", "a peer list that is not binary data")
		return
	}
	l, err := parseList(b)
	if err != nil {
		r.fail("C17", "peer list", "%v", err)
		return
	}
	seen := map[uint64]bool{}
	for _, e := range l {
		if seen[e.id] {
			r.fail("C17", "peer listed twice", "peer %d is listed twice", e.id)
		}
		seen[e.id] = true
		found := false
		for _, k := range x.handshook {
			if k.epoch != x.epoch || (k.id != e.id && !k.any) || uint32(k.addr.Port) != e.port {
				continue
			}
			ip := k.addr.IP.To4()
			if binary.LittleEndian.Uint32(ip) == e.ip || binary.BigEndian.Uint32(ip) == e.ip {
				found = true
			}
		}
		if !found {
			p := "C17 C12"
			r.fail(p, "unknown peer listed", "the list names peer %x at %x:%d, which never handshaked from there", e.id, e.ip, e.port)
		}
	}
	for _, k := range x.conns {
		if k.ep == x.epoch && k.out && k.pastAt != 0 && k.pastAt < from {
			r.cover("listed peer expected")
		}
		if k.ep == x.epoch && k.out && k.hsSent && !k.garbled && k.pastAt != 0 && k.pastAt < from && k.h.id != 0 && !seen[k.h.id] {
			r.fail("C17", "peer not listed", "%s, which completed an outgoing handshake, is not listed", k.h.proc.Name)
		}
	}
	r.cover("peer list of %d", len(l)/4*4)
}
