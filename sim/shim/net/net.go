//go:build go1.21

package net

import (
	"context"
	"errors"
	"io"
	real "net"
	"os"
	"strconv"
	"syscall"
	"time"

	"github.com/r3volut1oner/go-karbo/zzsim"
)

type (
	Addr            = real.Addr
	TCPAddr         = real.TCPAddr
	Conn            = real.Conn
	IP              = real.IP
	Error           = real.Error
	OpError         = real.OpError
	AddrError       = real.AddrError
	DNSError        = real.DNSError
	Listener        = real.Listener
	KeepAliveConfig = real.KeepAliveConfig
)

// TCPConn is a simulated TCP connection.
type TCPConn struct{ E *zzsim.Endpoint }

func (c *TCPConn) SimID() int { return c.E.ID }

func (c *TCPConn) ok() bool { return c != nil && c.E != nil }

func (c *TCPConn) Read(b []byte) (int, error) {
	if !c.ok() {
		return 0, syscall.EINVAL
	}
	return c.E.Read(b)
}

func (c *TCPConn) Write(b []byte) (int, error) {
	if !c.ok() {
		return 0, syscall.EINVAL
	}
	return c.E.Write(b)
}

func (c *TCPConn) Close() error {
	if !c.ok() {
		return syscall.EINVAL
	}
	return c.E.Close()
}

func (c *TCPConn) LocalAddr() Addr  { return c.E.Local }
func (c *TCPConn) RemoteAddr() Addr { return c.E.Remote }

func (c *TCPConn) SetDeadline(t time.Time) error {
	if !c.ok() {
		return syscall.EINVAL
	}
	d := zzsim.SimDeadline(t)
	if err := c.E.SetReadDL(d); err != nil {
		return err
	}
	return c.E.SetWriteDL(d)
}

func (c *TCPConn) SetReadDeadline(t time.Time) error {
	if !c.ok() {
		return syscall.EINVAL
	}
	return c.E.SetReadDL(zzsim.SimDeadline(t))
}

func (c *TCPConn) SetWriteDeadline(t time.Time) error {
	if !c.ok() {
		return syscall.EINVAL
	}
	return c.E.SetWriteDL(zzsim.SimDeadline(t))
}
func (c *TCPConn) CloseRead() error                              { return c.E.CloseRead() }
func (c *TCPConn) CloseWrite() error                             { return c.E.CloseWrite() }
func (c *TCPConn) SetKeepAlive(bool) error                       { return nil }
func (c *TCPConn) SetKeepAlivePeriod(time.Duration) error        { return nil }
func (c *TCPConn) SetKeepAliveConfig(real.KeepAliveConfig) error { return nil }
func (c *TCPConn) SetNoDelay(bool) error                         { return nil }
func (c *TCPConn) SetReadBuffer(int) error                       { return nil }
func (c *TCPConn) SetWriteBuffer(int) error                      { return nil }
func (c *TCPConn) SetLinger(s int) error                         { c.E.Linger0 = s == 0; return nil }

func (c *TCPConn) ReadFrom(r io.Reader) (int64, error) {
	return io.Copy(struct{ io.Writer }{c}, r)
}

func (c *TCPConn) WriteTo(w io.Writer) (int64, error) {
	return io.Copy(w, struct{ io.Reader }{c})
}

// TCPListener is a simulated listener.
type TCPListener struct{ L *zzsim.Listener }

func (l *TCPListener) AcceptTCP() (*TCPConn, error) {
	if l == nil || l.L == nil {
		return nil, syscall.EINVAL
	}
	e, err := l.L.Accept()
	if err != nil {
		return nil, err
	}
	return &TCPConn{e}, nil
}

func (l *TCPListener) Accept() (Conn, error) {
	c, err := l.AcceptTCP()
	if err != nil {
		return nil, err
	}
	return c, nil
}

func (l *TCPListener) Close() error {
	if l == nil || l.L == nil {
		return syscall.EINVAL
	}
	return l.L.Close()
}
func (l *TCPListener) Addr() Addr                    { return l.L.Addr }
func (l *TCPListener) SetDeadline(t time.Time) error { return l.L.SetDL(zzsim.SimDeadline(t)) }

func sim() (*zzsim.Net, error) {
	if zzsim.W == nil {
		return nil, errors.New("zzsim: network used outside a simulation")
	}
	return zzsim.W.Net, nil
}

func ListenTCP(network string, a *TCPAddr) (*TCPListener, error) {
	n, err := sim()
	if err != nil {
		return nil, err
	}
	if a == nil {
		a = &TCPAddr{}
	}
	l, err := n.Listen(a)
	if err != nil {
		return nil, err
	}
	return &TCPListener{l}, nil
}

func isTCP(n string) bool { return n == "tcp" || n == "tcp4" || n == "tcp6" }

func ResolveTCPAddr(network, address string) (*TCPAddr, error) {
	host, port, err := real.SplitHostPort(address)
	if err != nil {
		return nil, err
	}
	p, err := strconv.Atoi(port)
	if err != nil || p < 0 || p > 65535 {
		return nil, &real.AddrError{Err: "invalid port", Addr: port}
	}
	a := &TCPAddr{Port: p}
	if host != "" {
		if host == "localhost" {
			host = "127.0.0.1"
		}
		a.IP = real.ParseIP(host)
		if a.IP == nil {
			return nil, &real.DNSError{Err: "no such host", Name: host, IsNotFound: true}
		}
	}
	return a, nil
}

func Listen(network, address string) (Listener, error) {
	if !isTCP(network) {
		return nil, real.UnknownNetworkError(network)
	}
	a, err := ResolveTCPAddr(network, address)
	if err != nil {
		return nil, &real.OpError{Op: "listen", Net: network, Err: err}
	}
	l, err := ListenTCP(network, a)
	if err != nil {
		return nil, err
	}
	return l, nil
}

type ListenConfig struct {
	Control         func(network, address string, c syscall.RawConn) error
	KeepAlive       time.Duration
	KeepAliveConfig real.KeepAliveConfig
}

func (lc *ListenConfig) Listen(ctx context.Context, network, address string) (Listener, error) {
	return Listen(network, address)
}

type Dialer struct {
	Timeout         time.Duration
	Deadline        time.Time
	LocalAddr       Addr
	DualStack       bool
	FallbackDelay   time.Duration
	KeepAlive       time.Duration
	KeepAliveConfig real.KeepAliveConfig
	Resolver        *real.Resolver
	Cancel          <-chan struct{}
	Control         func(network, address string, c syscall.RawConn) error
	ControlContext  func(ctx context.Context, network, address string, c syscall.RawConn) error
}

func (d *Dialer) Dial(network, address string) (Conn, error) {
	return d.DialContext(context.Background(), network, address)
}

func (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {
	if ctx == nil {
		panic("nil context")
	}
	if !isTCP(network) {
		return nil, &real.OpError{Op: "dial", Net: network, Err: real.UnknownNetworkError(network)}
	}
	n, err := sim()
	if err != nil {
		return nil, err
	}
	a, err := ResolveTCPAddr(network, address)
	if err != nil {
		return nil, &real.OpError{Op: "dial", Net: network, Err: err}
	}
	dl := int64(0)
	min := func(x int64) {
		if x != 0 && (dl == 0 || x < dl) {
			dl = x
		}
	}
	if d.Timeout > 0 {
		min(zzsim.W.Now() + int64(d.Timeout))
	}
	min(zzsim.SimDeadline(d.Deadline))
	if t, ok := ctx.Deadline(); ok {
		min(zzsim.SimDeadline(t))
	}
	var la *TCPAddr
	if d.LocalAddr != nil {
		la, _ = d.LocalAddr.(*TCPAddr)
	}
	e, err := n.Dial(la, a, dl, func() bool {
		if ctx.Err() != nil {
			return true
		}
		select {
		case <-d.Cancel:
			return true
		default:
			return false
		}
	})
	if err != nil {
		if oe, ok := err.(*real.OpError); ok && ctx.Err() != nil {
			oe.Err = ctx.Err()
		}
		return nil, err
	}
	return &TCPConn{e}, nil
}

func Dial(network, address string) (Conn, error) { return (&Dialer{}).Dial(network, address) }

func DialTimeout(network, address string, d time.Duration) (Conn, error) {
	return (&Dialer{Timeout: d}).Dial(network, address)
}

func DialTCP(network string, l, r *TCPAddr) (*TCPConn, error) {
	n, err := sim()
	if err != nil {
		return nil, err
	}
	e, err := n.Dial(l, r, 0, nil)
	if err != nil {
		return nil, err
	}
	return &TCPConn{e}, nil
}

func Pipe() (Conn, Conn) {
	n, err := sim()
	if err != nil {
		return real.Pipe()
	}
	a, b := n.Pipe()
	return &TCPConn{a}, &TCPConn{b}
}

func noHost(h string) error { return &real.DNSError{Err: "no such host", Name: h, IsNotFound: true} }

func LookupHost(h string) ([]string, error) {
	if ip := real.ParseIP(h); ip != nil {
		return []string{h}, nil
	}
	return nil, noHost(h)
}

func LookupIP(h string) ([]IP, error) {
	if ip := real.ParseIP(h); ip != nil {
		return []IP{ip}, nil
	}
	return nil, noHost(h)
}

func LookupAddr(a string) ([]string, error) { return nil, noHost(a) }

func InterfaceAddrs() ([]Addr, error) { return nil, nil }

var _ = os.ErrDeadlineExceeded

// Buffers is a list of byte slices; a connection writes them as one write.
type Buffers [][]byte

func (v *Buffers) WriteTo(w io.Writer) (n int64, err error) {
	if c, ok := w.(*TCPConn); ok {
		var all []byte
		for _, b := range *v {
			all = append(all, b...)
		}
		k, err := c.Write(all)
		v.consume(int64(k))
		return int64(k), err
	}
	for _, b := range *v {
		k, err := w.Write(b)
		n += int64(k)
		if err != nil {
			v.consume(n)
			return n, err
		}
	}
	v.consume(n)
	return n, nil
}

func (v *Buffers) Read(p []byte) (n int, err error) {
	for len(p) > 0 && len(*v) > 0 {
		k := copy(p, (*v)[0])
		v.consume(int64(k))
		p = p[k:]
		n += k
	}
	if len(*v) == 0 {
		err = io.EOF
	}
	return
}

func (v *Buffers) consume(n int64) {
	for len(*v) > 0 {
		k := int64(len((*v)[0]))
		if k > n {
			(*v)[0] = (*v)[0][n:]
			return
		}
		n -= k
		(*v)[0] = nil
		*v = (*v)[1:]
	}
}
