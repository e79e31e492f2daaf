//go:build go1.21

package zzsim

import (
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"sort"
	"syscall"
)

// NetParams are the per-run parameters of the simulated network.
type NetParams struct {
	LatMin, LatMax int64 // one-way latency in ns
	FragPM         int   // chance that a write is split into segments
	ShortPM        int   // chance that a read returns fewer bytes than available
	Window         int   // bytes in flight or unread before writers block
	ResetPM        int   // chance per written segment that the connection is reset
	AcceptFailPM   int   // chance that an accept call fails
	StallPM        int   // chance that a segment is delayed a lot
	StallMax       int64
}

// Net is the simulated TCP network.
type Net struct {
	w              *World
	P              NetParams
	listeners      map[string]*Listener
	nextPort       int
	nextID         int
	Blackhole      map[string]bool    // addresses that never answer
	ProcOfIP       map[string]*Proc   // owner of an address, for partitions
	cut            map[[2]string]bool // partitioned pairs of process names
	all            []*Endpoint        // live endpoints
	OnDial         func(p *Proc, addr string)
	OnConn         func(dialer, accepter *Endpoint) // a connection was established
	BytesDelivered int64
	Segments       int64
}

func newNet(w *World) *Net {
	return &Net{w: w, P: NetParams{LatMin: 1e6, LatMax: 1e6, Window: 256 << 10}, listeners: map[string]*Listener{},
		nextPort: 40000, Blackhole: map[string]bool{}, cut: map[[2]string]bool{}, ProcOfIP: map[string]*Proc{}}
}

func (n *Net) lat() int64 {
	d := n.P.LatMin
	if n.P.LatMax > n.P.LatMin {
		steps := 64
		d += (n.P.LatMax - n.P.LatMin) / int64(steps) * int64(n.w.Src.choose(steps+1))
	}
	if n.P.StallPM > 0 && n.w.PM(n.P.StallPM) {
		n.w.Fault("net.delay")
		d += n.P.StallMax / 16 * int64(1+n.w.Src.choose(16))
	}
	return d
}

// Endpoint is one side of a simulated TCP connection.
type Endpoint struct {
	ID     int
	Proc   *Proc
	n      *Net
	peer   *Endpoint
	Local  *net.TCPAddr
	Remote *net.TCPAddr

	in       []byte
	eof      bool
	rst      error
	inflight int // bytes sent to the peer and not yet read by it
	lastArr  int64
	closed   bool
	wclosed  bool
	rclosed  bool
	rdl, wdl int64 // deadlines in sim ns, 0 none
	held     []func()
	fails    int
	wlock    bool // a Write call is in progress; concurrent calls queue
	Linger0  bool

	Sent, Rcvd int64
	TapW       func(b []byte) // sees the bytes as the owner writes them
	ClosedAt   int64
	OpenedAt   int64
}

func (e *Endpoint) SimID() int { return e.ID }

// PeerEnd is the other end.
func (e *Endpoint) PeerEnd() *Endpoint { return e.peer }

func (e *Endpoint) Closed() bool { return e.closed }

// PeerGone reports that the other end has closed or reset.
func (e *Endpoint) PeerGone() bool { return e.eof || e.rst != nil }

func (e *Endpoint) Unread() int { return len(e.in) }

func (n *Net) newPair(a, b *Proc, la, lb *net.TCPAddr) (*Endpoint, *Endpoint) {
	n.nextID++
	x := &Endpoint{ID: n.nextID * 2, Proc: a, n: n, Local: la, Remote: lb, OpenedAt: n.w.now}
	y := &Endpoint{ID: n.nextID*2 + 1, Proc: b, n: n, Local: lb, Remote: la, OpenedAt: n.w.now}
	x.peer, y.peer = y, x
	a.conns[x.ID] = x
	b.conns[y.ID] = y
	a.FDs++
	return x, y
}

func sortedConns(p *Proc) []*Endpoint {
	var r []*Endpoint
	for _, e := range p.conns {
		r = append(r, e)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].ID < r[j].ID })
	return r
}

// Conns are the connections p has open, accepted or not.
func (p *Proc) Conns() []*Endpoint { return sortedConns(p) }

func pairKey(a, b *Proc) [2]string {
	if a.Name < b.Name {
		return [2]string{a.Name, b.Name}
	}
	return [2]string{b.Name, a.Name}
}

// Partition stops delivery between two processes; Heal resumes it.
func (n *Net) Partition(a, b *Proc) {
	n.cut[pairKey(a, b)] = true
	n.w.Fault("net.partition")
}

func (n *Net) Heal(a, b *Proc) {
	k := pairKey(a, b)
	if !n.cut[k] {
		return
	}
	delete(n.cut, k)
	for _, p := range []*Proc{a, b} {
		for _, e := range sortedConns(p) {
			if e.peer == nil || pairKey(e.Proc, e.peer.Proc) != k {
				continue
			}
			// also what waits for an end that was closed meanwhile: it is answered with a reset
			for _, q := range []*Endpoint{e, e.peer} {
				h := q.held
				q.held = nil
				for _, f := range h {
					f()
				}
			}
		}
	}
}

func (n *Net) HealAll() {
	var ks [][2]string
	for k := range n.cut {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return fmt.Sprint(ks[i]) < fmt.Sprint(ks[j]) })
	for _, k := range ks {
		var a, b *Proc
		for _, p := range n.w.procs {
			if p.Name == k[0] {
				a = p
			}
			if p.Name == k[1] {
				b = p
			}
		}
		if a != nil && b != nil {
			n.Heal(a, b)
		} else {
			delete(n.cut, k)
		}
	}
}

// toPeer schedules fn at the peer after everything sent before.
func (e *Endpoint) toPeer(fn func()) {
	at := e.n.w.now + e.n.lat()
	if at < e.lastArr {
		at = e.lastArr
	}
	e.lastArr = at
	p := e.peer
	e.n.w.At(at, func() { p.arrive(fn) })
}

// arrive runs on the receiving endpoint.
func (e *Endpoint) arrive(fn func()) {
	if len(e.held) > 0 || e.n.cut[pairKey(e.Proc, e.peer.Proc)] {
		e.held = append(e.held, fn)
		return
	}
	fn()
}

func (e *Endpoint) opErr(op string, err error) error {
	return &net.OpError{Op: op, Net: "tcp", Source: e.Local, Addr: e.Remote, Err: err}
}

// pay makes failing calls cost time, more and more, so that a loop around a
// failing call is seen as elapsed time and not as a busy hang.
func (e *Endpoint) pay() {
	d := int64(20_000) << uint(e.fails)
	if e.fails < 9 {
		e.fails++
	}
	e.n.w.Sleep(d)
}

func expired(w *World, dl int64) bool { return dl != 0 && w.now >= dl }

func (e *Endpoint) Read(b []byte) (int, error) {
	w := e.n.w
	if w.killing {
		return 0, e.opErr("read", net.ErrClosed)
	}
	Y()
	for {
		if e.closed {
			e.pay()
			return 0, e.opErr("read", net.ErrClosed)
		}
		if expired(w, e.rdl) {
			e.pay()
			return 0, e.opErr("read", os.ErrDeadlineExceeded)
		}
		if len(b) == 0 {
			return 0, nil
		}
		if e.rclosed {
			e.pay()
			return 0, io.EOF
		}
		if len(e.in) > 0 {
			n := len(e.in)
			if n > len(b) {
				n = len(b)
			}
			if n > 1 && e.n.P.ShortPM > 0 && w.PM(e.n.P.ShortPM) {
				n = 1 + w.Src.choose(n-1)
				w.Fault("net.shortread")
			}
			copy(b, e.in[:n])
			e.in = e.in[n:]
			if len(e.in) == 0 {
				e.in = nil
			}
			e.Rcvd += int64(n)
			e.peer.inflight -= n
			e.fails = 0
			return n, nil
		}
		if e.rst != nil {
			e.pay()
			return 0, e.opErr("read", os.NewSyscallError("read", e.rst))
		}
		if e.eof {
			e.pay()
			return 0, io.EOF
		}
		dl := e.rdl
		w.Block("net.read", func() bool {
			return len(e.in) > 0 || e.eof || e.rst != nil || e.closed || e.rclosed || e.rdl != dl || expired(w, e.rdl)
		}, dlOf(dl))
	}
}

func dlOf(d int64) int64 {
	if d == 0 {
		return -1
	}
	return d
}

func (e *Endpoint) Write(b []byte) (int, error) {
	w := e.n.w
	if w.killing {
		return 0, e.opErr("write", net.ErrClosed)
	}
	Y()
	if e.wlock {
		w.Block("net.writelock", func() bool { return !e.wlock }, -1)
	}
	e.wlock = true
	defer func() { e.wlock = false }()
	total := 0
	for {
		if e.closed {
			e.pay()
			return total, e.opErr("write", net.ErrClosed)
		}
		if e.wclosed {
			e.pay()
			return total, e.opErr("write", os.NewSyscallError("write", syscall.EPIPE))
		}
		if expired(w, e.wdl) {
			e.pay()
			return total, e.opErr("write", os.ErrDeadlineExceeded)
		}
		if e.rst != nil {
			e.pay()
			return total, e.opErr("write", os.NewSyscallError("write", syscall.EPIPE))
		}
		if len(b) == 0 {
			return total, nil
		}
		space := e.n.P.Window - e.inflight
		if space <= 0 {
			dl := e.wdl
			w.Block("net.write", func() bool {
				return e.inflight < e.n.P.Window || e.closed || e.wclosed || e.rst != nil || e.wdl != dl || expired(w, e.wdl)
			}, dlOf(dl))
			continue
		}
		k := len(b)
		if k > space {
			k = space
		}
		chunk := append([]byte{}, b[:k]...)
		b = b[k:]
		total += k
		e.inflight += k
		e.Sent += int64(k)
		if e.TapW != nil {
			e.TapW(chunk)
		}
		for len(chunk) > 0 {
			s := len(chunk)
			if s > 1 && e.n.P.FragPM > 0 && w.PM(e.n.P.FragPM) {
				s = 1 + w.Src.choose(s-1)
				w.Fault("net.fragment")
			}
			seg := chunk[:s]
			chunk = chunk[s:]
			if e.n.P.ResetPM > 0 && w.PM(e.n.P.ResetPM) {
				w.Fault("net.reset")
				e.Reset()
				break
			}
			p := e.peer
			e.toPeer(func() { p.deliver(seg) })
		}
		e.fails = 0
	}
}

func (e *Endpoint) deliver(seg []byte) {
	e.n.Segments++
	e.n.BytesDelivered += int64(len(seg))
	if e.closed || e.rclosed {
		// data for a closed socket: reset the sender
		p := e.peer
		e.toPeer(func() { p.gotReset() })
		return
	}
	if e.rst != nil {
		return
	}
	e.in = append(e.in, seg...)
}

func (e *Endpoint) gotReset() {
	if e.rst == nil {
		e.rst = syscall.ECONNRESET
		e.inflight = 0
	}
}

// Reset breaks the connection in both directions now.
func (e *Endpoint) Reset() {
	e.gotReset()
	e.peer.gotReset()
}

func (e *Endpoint) Close() error {
	w := e.n.w
	if w.killing {
		return nil
	}
	Y()
	if e.closed {
		e.pay()
		return e.opErr("close", net.ErrClosed)
	}
	e.closeNow()
	return nil
}

func (e *Endpoint) closeNow() {
	if e.closed {
		return
	}
	e.closed = true
	e.ClosedAt = e.n.w.now
	delete(e.Proc.conns, e.ID)
	e.Proc.FDs--
	p := e.peer
	if len(e.in) > 0 || e.Linger0 {
		e.in = nil
		e.toPeer(func() { p.gotReset() })
		return
	}
	if !e.wclosed {
		e.toPeer(func() { p.eof = true })
	}
}

// abort is what the operating system does to the sockets of a dead process.
func (e *Endpoint) abort() { e.closeNow() }

func (e *Endpoint) CloseWrite() error {
	Y()
	if e.closed {
		return e.opErr("close", net.ErrClosed)
	}
	if !e.wclosed {
		e.wclosed = true
		p := e.peer
		e.toPeer(func() { p.eof = true })
	}
	return nil
}

func (e *Endpoint) CloseRead() error {
	Y()
	if e.closed {
		return e.opErr("close", net.ErrClosed)
	}
	e.rclosed = true
	return nil
}

// SetDeadlines sets deadlines in sim ns (0 clears, <0 is in the past).
func (e *Endpoint) SetReadDL(d int64) error {
	if e.closed {
		return e.opErr("set", net.ErrClosed)
	}
	e.rdl = d
	Y()
	return nil
}

func (e *Endpoint) SetWriteDL(d int64) error {
	if e.closed {
		return e.opErr("set", net.ErrClosed)
	}
	e.wdl = d
	Y()
	return nil
}

// ---------------------------------------------------------------- listeners

type Listener struct {
	n        *Net
	Proc     *Proc
	Addr     *net.TCPAddr
	key      string
	backlog  []*Endpoint
	closed   bool
	dl       int64
	fails    int
	FailNext []error // errors the next accepts return
	Accepted int
}

func (l *Listener) Closed() bool { return l.closed }

func (n *Net) norm(a *net.TCPAddr) *net.TCPAddr {
	ip := a.IP
	if ip == nil || ip.IsUnspecified() {
		ip = net.IPv4(0, 0, 0, 0)
	}
	return &net.TCPAddr{IP: ip.To16(), Port: a.Port, Zone: a.Zone}
}

var errNoFD = syscall.EMFILE

func (n *Net) Listen(a *net.TCPAddr) (*Listener, error) {
	w := n.w
	Y()
	p := w.CurProc()
	a = n.norm(a)
	if a.Port == 0 {
		n.nextPort++
		a.Port = n.nextPort
	}
	fail := func(err error) error {
		w.Sleep(100_000)
		return &net.OpError{Op: "listen", Net: "tcp", Addr: a, Err: os.NewSyscallError("bind", err)}
	}
	if a.Port < 0 || a.Port > 65535 {
		return nil, fail(syscall.EINVAL)
	}
	if p.FDLimit > 0 && p.FDs >= p.FDLimit {
		return nil, fail(errNoFD)
	}
	for _, l := range n.listeners {
		if !l.closed && l.Addr.Port == a.Port && (l.Addr.IP.Equal(a.IP) || l.Addr.IP.IsUnspecified() || a.IP.IsUnspecified()) &&
			hostOf(l.Proc) == hostOf(p) {
			return nil, fail(syscall.EADDRINUSE)
		}
	}
	l := &Listener{n: n, Proc: p, Addr: a, key: hostOf(p) + "|" + a.String()}
	n.listeners[l.key] = l
	p.FDs++
	p.listeners = append(p.listeners, l)
	return l, nil
}

// hostOf is the machine a process runs on: "node@host" names host.
func hostOf(p *Proc) string {
	for i := len(p.Name) - 1; i >= 0; i-- {
		if p.Name[i] == '@' {
			return p.Name[i+1:]
		}
	}
	return p.Name
}

func (l *Listener) Accept() (*Endpoint, error) {
	w := l.n.w
	if w.killing {
		return nil, &net.OpError{Op: "accept", Net: "tcp", Addr: l.Addr, Err: net.ErrClosed}
	}
	Y()
	fail := func(err error) error {
		d := int64(20_000) << uint(l.fails)
		if l.fails < 9 {
			l.fails++
		}
		w.Sleep(d)
		return &net.OpError{Op: "accept", Net: "tcp", Addr: l.Addr, Err: err}
	}
	for {
		if l.closed {
			return nil, fail(net.ErrClosed)
		}
		if expired(w, l.dl) {
			return nil, fail(os.ErrDeadlineExceeded)
		}
		if len(l.FailNext) > 0 {
			err := l.FailNext[0]
			l.FailNext = l.FailNext[1:]
			w.Fault("accept.fail")
			return nil, fail(os.NewSyscallError("accept4", err))
		}
		if len(l.backlog) > 0 {
			if l.Proc.FDLimit > 0 && l.Proc.FDs >= l.Proc.FDLimit {
				w.Fault("accept.emfile")
				return nil, fail(os.NewSyscallError("accept4", errNoFD))
			}
			if l.n.P.AcceptFailPM > 0 && w.PM(l.n.P.AcceptFailPM) {
				w.Fault("accept.fail")
				if w.Src.choose(2) == 0 {
					// the connection was aborted before it was accepted
					e := l.backlog[0]
					l.backlog = l.backlog[1:]
					delete(e.Proc.conns, e.ID)
					e.closed = true
					e.Reset()
					return nil, fail(os.NewSyscallError("accept4", syscall.ECONNABORTED))
				}
				return nil, fail(os.NewSyscallError("accept4", errNoFD))
			}
			e := l.backlog[0]
			l.backlog = l.backlog[1:]
			l.Proc.FDs++
			l.fails = 0
			l.Accepted++
			return e, nil
		}
		dl := l.dl
		w.Block("net.accept", func() bool {
			return l.closed || len(l.backlog) > 0 || len(l.FailNext) > 0 || l.dl != dl || expired(w, l.dl)
		}, dlOf(dl))
	}
}

func (l *Listener) Close() error {
	if l.n.w.killing {
		return nil
	}
	Y()
	if l.closed {
		return &net.OpError{Op: "close", Net: "tcp", Addr: l.Addr, Err: net.ErrClosed}
	}
	l.closeNow()
	return nil
}

func (l *Listener) closeNow() {
	if l.closed {
		return
	}
	l.closed = true
	l.Proc.FDs--
	if l.n.listeners[l.key] == l {
		delete(l.n.listeners, l.key)
	}
	for _, e := range l.backlog {
		delete(e.Proc.conns, e.ID)
		e.closed = true
		p := e.peer
		e.toPeer(func() { p.gotReset() })
	}
	l.backlog = nil
	for i, x := range l.Proc.listeners {
		if x == l {
			l.Proc.listeners = append(l.Proc.listeners[:i], l.Proc.listeners[i+1:]...)
			break
		}
	}
}

func (l *Listener) SetDL(d int64) error {
	if l.closed {
		return &net.OpError{Op: "set", Net: "tcp", Addr: l.Addr, Err: net.ErrClosed}
	}
	l.dl = d
	Y()
	return nil
}

// Listening reports whether anybody of proc p listens.
func (p *Proc) Listening() []*Listener { return p.listeners }

func (n *Net) findListener(a *net.TCPAddr) *Listener {
	if l := n.listenerAt(a); l != nil {
		return l
	}
	return nil
}

func (n *Net) listenerAt(a *net.TCPAddr) *Listener {
	owner := n.ProcOfIP[a.IP.String()]
	var best *Listener
	for _, l := range n.listeners {
		if l.closed || l.Addr.Port != a.Port {
			continue
		}
		if l.Addr.IP.Equal(a.IP) || (l.Addr.IP.IsUnspecified() && owner != nil && hostOf(owner) == hostOf(l.Proc)) ||
			(l.Addr.IP.IsUnspecified() && owner == nil && a.IP.IsLoopback()) {
			if best == nil || l.key < best.key {
				best = l
			}
		}
	}
	return best
}

var ErrTimeout = os.ErrDeadlineExceeded

// Dial connects.  deadline is sim ns (0 none); done, when non-nil, reports
// cancellation.
func (n *Net) Dial(local, remote *net.TCPAddr, deadline int64, canceled func() bool) (*Endpoint, error) {
	w := n.w
	if w.killing {
		return nil, errors.New("zzsim: killed")
	}
	Y()
	p := w.CurProc()
	if n.OnDial != nil {
		n.OnDial(p, remote.String())
	}
	fail := func(err error) error {
		return &net.OpError{Op: "dial", Net: "tcp", Addr: remote, Err: err}
	}
	if remote.Port <= 0 || remote.Port > 65535 {
		w.Sleep(100_000)
		return nil, fail(os.NewSyscallError("connect", syscall.EINVAL))
	}
	if p.FDLimit > 0 && p.FDs >= p.FDLimit {
		w.Sleep(100_000)
		return nil, fail(os.NewSyscallError("socket", errNoFD))
	}
	end := int64(-1)
	if deadline != 0 {
		end = deadline
	}
	rtt := w.now + n.lat() + n.lat()
	isCanceled := func() bool { return canceled != nil && canceled() }
	// the operating system gives up after about two minutes
	osEnd := w.now + 127e9
	stop := func() (error, bool) {
		if isCanceled() {
			return fail(errors.New("operation was canceled")), true
		}
		if end >= 0 && w.now >= end {
			return fail(os.ErrDeadlineExceeded), true
		}
		if w.now >= osEnd {
			return fail(os.NewSyscallError("connect", syscall.ETIMEDOUT)), true
		}
		return nil, false
	}
	w.After(rtt-w.now, nop)
	until := osEnd
	if end >= 0 && end < until {
		until = end
	}
	for {
		blocked := n.Blackhole[remote.IP.String()]
		if o := n.ProcOfIP[remote.IP.String()]; o != nil && n.cut[pairKey(p, o)] {
			blocked = true
		}
		if !blocked && w.now >= rtt {
			break
		}
		if err, yes := stop(); yes {
			if isCanceled() || end >= 0 {
				w.Sleep(20_000)
			}
			return nil, err
		}
		w.Block("net.dial", func() bool {
			if isCanceled() {
				return true
			}
			b := n.Blackhole[remote.IP.String()]
			if o := n.ProcOfIP[remote.IP.String()]; o != nil && n.cut[pairKey(p, o)] {
				b = true
			}
			return !b && w.now >= rtt
		}, until)
	}
	if err, yes := stop(); yes {
		return nil, err
	}
	l := n.findListener(remote)
	if l == nil || l.Proc.Dead || len(l.backlog) >= 128 {
		return nil, fail(os.NewSyscallError("connect", syscall.ECONNREFUSED))
	}
	n.nextPort++
	if n.nextPort > 64000 {
		n.nextPort = 20001
	}
	la := &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: n.nextPort}
	if local != nil && local.IP != nil && !local.IP.IsUnspecified() {
		la.IP = local.IP
	} else if ip := n.ipOf(p); ip != "" {
		la.IP = net.ParseIP(ip)
	}
	if local != nil && local.Port != 0 {
		la.Port = local.Port
	}
	x, y := n.newPair(p, l.Proc, la, &net.TCPAddr{IP: remote.IP, Port: remote.Port})
	l.backlog = append(l.backlog, y)
	if n.OnConn != nil {
		n.OnConn(x, y)
	}
	return x, nil
}

func (n *Net) ipOf(p *Proc) string {
	best := ""
	for ip, o := range n.ProcOfIP {
		if o == p && (best == "" || ip < best) {
			best = ip
		}
	}
	return best
}

// Pipe is a synchronous-ish in-memory connection of the current process.
func (n *Net) Pipe() (*Endpoint, *Endpoint) {
	p := n.w.CurProc()
	a := &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 1}
	x, y := n.newPair(p, p, a, a)
	p.FDs++
	return x, y
}
