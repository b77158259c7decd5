// Package simnet is the simulated network: net.Conn endpoints for the code
// under test and event driven peers for the stubs.  Segmentation, delays,
// windows, stalls, endings and errors are decided by the run's tapes.
package simnet

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"verif.local/sim/simrt"
)

var Use int

// N is the network of the run in progress.
var N *Network

type Network struct {
	S     *simrt.Sim
	Hosts map[string]*Host // by "host:port"
	Conns []*Conn
	Dials []string
	names []string
}

// Host answers connection attempts to an address.
type Host struct {
	Delay   time.Duration
	Refuse  bool // after Delay
	Never   bool
	NoRoute bool
	Opt     Opt
	Accept  func(c *Conn) // at the time the client's dial succeeds
	OnDial  func()        // at the time the client starts to dial
}

// Segmentation modes
const (
	SegWhole = iota
	SegCoarse
	SegFine
	SegBytes
	SegMSS
	NumSeg
)

// Delay modes
const (
	DelayZero = iota
	DelaySmall
	DelayMixed
	NumDelay
)

// Opt is the character of one connection.
type Opt struct {
	Seg       int
	Delay     int
	ShortRead float64
	Window    int // bytes accepted from the client before the peer takes them
	ReadChunk int // most the peer takes at once, 0 = all
	FailWrite int // fail the client's writes once so many bytes were accepted; 0 = never
	WriteErr  error
	FailSoft  bool          // a failed write does not break the other direction
	Budget    time.Duration // most delay in all per direction, 0 = 300ms
}

func NewNetwork(s *simrt.Sim) *Network {
	n := &Network{S: s, Hosts: map[string]*Host{}}
	N = n
	return n
}

type Conn struct {
	taken int // deliveries to the peer
	ID    int
	Addr  string
	S     *simrt.Sim
	Opt   Opt
	Peer  *Peer
	local *net.TCPAddr
	rem   *net.TCPAddr

	rbuf   []byte
	rEOF   bool
	rErr   error
	rq     simrt.WaitQ
	rdl    time.Time
	rdlGen int

	wbuf               []byte
	wErr               error
	wq                 simrt.WaitQ
	wdl                time.Time
	wdlGen             int
	writing            bool
	pumping            bool
	upDelay, downDelay time.Duration
	Written            int

	rShut    bool // CloseRead
	wShut    bool // CloseWrite
	abort    bool // SetLinger(0)
	Closed   bool
	ClosedAt time.Duration
	Dialed   time.Duration
	// reads in progress since, -1 if none
	ReadBytes int
}

// Peer is the other end; its callbacks run as environment events.
type Peer struct {
	C        *Conn
	OnData   func(b []byte)
	OnEOF    func() // the client closed and everything it sent has arrived
	OnBroken func() // the client's writes failed or it was reset
	stalled  bool
	gotEOF   bool
	in       []item
	inBusy   bool
	Ended    bool // FIN or RST sent
	Received int
	SentAll  time.Duration // time the last queued item was delivered
	arrived  int
	arrivals []arrival
}

type item struct {
	data []byte
	fin  bool
	rst  bool
	drop bool
	d    time.Duration
}

var (
	errReset   = &net.OpError{Op: "read", Net: "tcp", Err: os.NewSyscallError("read", syscall.ECONNRESET)}
	errPipe    = &net.OpError{Op: "write", Net: "tcp", Err: os.NewSyscallError("write", syscall.EPIPE)}
	errClosed  = &net.OpError{Op: "use", Net: "tcp", Err: net.ErrClosed}
	errTimeout = &net.OpError{Op: "i/o", Net: "tcp", Err: os.ErrDeadlineExceeded}
)

// NewConn makes a connected pair outside of dialling.
func (n *Network) NewConn(addr string, o Opt) *Conn {
	if o.Window <= 0 {
		o.Window = 64 << 10
	}
	c := &Conn{ID: len(n.Conns), Addr: addr, S: n.S, Opt: o, Dialed: n.S.Now()}
	c.local = &net.TCPAddr{IP: net.IPv4(10, 0, 0, 1), Port: 40000 + c.ID}
	c.rem = &net.TCPAddr{IP: net.IPv4(10, 0, 1, byte(1+c.ID)), Port: 554}
	c.Peer = &Peer{C: c}
	n.Conns = append(n.Conns, c)
	return c
}

func (c *Conn) String() string { return fmt.Sprintf("conn%d(%s)", c.ID, c.Addr) }

func (c *Conn) release(t *simrt.Task) { simrt.Release(t, unsafe.Pointer(c)) }
func (c *Conn) acquire(t *simrt.Task) { simrt.Acquire(t, unsafe.Pointer(c)) }

func past(t time.Time) bool { return !t.IsZero() && !time.Now().Before(t) }

func (c *Conn) Read(p []byte) (int, error) {
	t := simrt.Pre("net read", -5)
	if t == nil {
		return 0, errClosed
	}
	n, err := c.read(t, p)
	if n > 0 {
		c.acquire(t)
	}
	t.Park("net read done", -5)
	return n, err
}

func (c *Conn) read(t *simrt.Task, p []byte) (int, error) {
	for {
		if c.Closed {
			return 0, errClosed
		}
		if past(c.rdl) {
			c.S.Fault("read-deadline-expired")
			return 0, errTimeout
		}
		if len(p) == 0 {
			return 0, nil
		}
		if len(c.rbuf) > 0 {
			n := min(len(p), len(c.rbuf))
			if n > 1 && c.Opt.ShortRead > 0 && c.S.Net.Bool(c.Opt.ShortRead) {
				n = 1 + c.S.Net.Int(n-1)
				c.S.Fault("short-read")
			}
			copy(p, c.rbuf[:n])
			c.rbuf = c.rbuf[n:]
			c.ReadBytes += n
			return n, nil
		}
		if c.rErr != nil {
			return 0, c.rErr
		}
		if c.rEOF || c.rShut {
			return 0, io.EOF
		}
		t.Wait(&c.rq, "net read", -5)
	}
}

func (c *Conn) Write(p []byte) (int, error) {
	t := simrt.Pre("net write", -5)
	if t == nil {
		return 0, errClosed
	}
	n, err := c.write(t, p)
	t.Park("net write done", -5)
	return n, err
}

func (c *Conn) write(t *simrt.Task, p []byte) (int, error) {
	for c.writing && !c.Closed {
		t.Wait(&c.wq, "net write", -5)
	}
	c.writing = true
	defer func() {
		c.writing = false
		c.wq.WakeAll()
	}()
	c.release(t)
	done := 0
	for {
		if c.Closed {
			return done, errClosed
		}
		if past(c.wdl) {
			c.S.Fault("write-deadline-expired")
			return done, errTimeout
		}
		if c.wErr != nil {
			return done, c.wErr
		}
		if c.wShut {
			return done, errPipe
		}
		if len(p) == done {
			return done, nil
		}
		room := max(c.Opt.Window, len(p)/64) - len(c.wbuf)
		n := min(room, len(p)-done)
		if f := c.Opt.FailWrite; f > 0 && c.Written+n >= f {
			n = f - c.Written
			if n < 0 {
				n = 0
			}
			c.wbuf = append(c.wbuf, p[done:done+n]...)
			c.Written += n
			done += n
			c.S.Fault("write-error")
			c.wErr = c.Opt.WriteErr
			if c.wErr == nil {
				c.wErr = errPipe
			}
			c.S.Logf("net   %v write fails after %d bytes", c, c.Written)
			if !c.Opt.FailSoft {
				c.rErr = errReset
				c.rq.WakeAll()
				c.Peer.Ended = true
			}
			c.pump()
			if f := c.Peer.OnBroken; f != nil {
				c.S.After(0, "broken", f)
			}
			return done, c.wErr
		}
		if n > 0 {
			c.wbuf = append(c.wbuf, p[done:done+n]...)
			c.Written += n
			done += n
			c.pump()
			if done < len(p) {
				c.S.Fault("partial-write")
			}
			continue
		}
		c.S.Fault("blocked-write")
		t.Wait(&c.wq, "net write", -5)
		c.release(t)
	}
}

// maxTaken bounds how often bytes leaving the client count as progress: a
// client that never stops writing is a livelock too.
const maxTaken = 400000

// pump moves bytes from the client's send buffer to the peer.
func (c *Conn) pump() {
	if c.pumping || c.Peer.stalled || (len(c.wbuf) == 0 && !((c.Closed || c.wShut) && !c.Peer.gotEOF)) {
		return
	}
	c.pumping = true
	c.S.After(c.delay(&c.upDelay), fmt.Sprintf("to-server %d", c.ID), func() {
		c.pumping = false
		if c.Peer.stalled {
			return
		}
		n := len(c.wbuf)
		if n == 0 {
			if (c.Closed || c.wShut) && !c.Peer.gotEOF {
				c.Peer.gotEOF = true
				c.S.Logf("net   %v server sees the end", c)
				if f := c.Peer.OnEOF; f != nil {
					f()
				}
			}
			return
		}
		if c.Opt.ReadChunk > 0 && n > c.Opt.ReadChunk {
			n = c.Opt.ReadChunk
		}
		if n > 1 && c.Opt.Seg != SegWhole && c.S.Net.Bool(0.3) {
			n = 1 + c.S.Net.Int(n-1)
			c.S.Fault("segmented-to-server")
		}
		b := append([]byte(nil), c.wbuf[:n]...)
		c.wbuf = c.wbuf[n:]
		c.Peer.Received += n
		if c.taken++; c.taken < maxTaken {
			c.S.Progress()
		}
		c.wq.WakeAll()
		if f := c.Peer.OnData; f != nil {
			f(b)
		}
		c.pump()
	})
}

func (c *Conn) delay(used *time.Duration) time.Duration {
	var d time.Duration
	limit := c.Opt.Budget
	if limit == 0 {
		limit = 300 * time.Millisecond
	}
	if *used >= limit {
		return 0
	}
	switch c.Opt.Delay {
	case DelaySmall:
		d = time.Duration(c.S.Net.Int(4)) * time.Millisecond
	case DelayMixed:
		d = []time.Duration{0, 0, time.Millisecond, 10 * time.Millisecond, 40 * time.Millisecond}[c.S.Net.Int(5)]
	}
	if d > 0 {
		*used += d
		c.S.Fault("delay")
	}
	return d
}

func (c *Conn) Close() error {
	t := simrt.Pre("net close", -5)
	if c.Closed {
		if t != nil {
			t.Park("net close", -5)
		}
		return errClosed
	}
	c.Closed = true
	c.ClosedAt = c.S.Now()
	c.S.Logf("net   %v closed by client", c)
	c.rbuf = nil
	if c.abort {
		c.S.Fault("reset-by-client")
		c.wbuf = nil
	}
	c.rq.WakeAll()
	c.wq.WakeAll()
	c.pump()
	if t != nil {
		c.release(t)
		t.Park("net closed", -5)
	}
	return nil
}

// What *net.TCPConn has in addition.

func (c *Conn) SetLinger(sec int) error {
	c.abort = sec == 0
	return nil
}

func (c *Conn) CloseRead() error {
	if c.Closed {
		return errClosed
	}
	c.rShut, c.rbuf = true, nil
	c.rq.WakeAll()
	return nil
}

func (c *Conn) CloseWrite() error {
	if c.Closed {
		return errClosed
	}
	c.wShut = true
	c.wq.WakeAll()
	c.pump()
	return nil
}

func (c *Conn) option() error {
	if c.Closed {
		return errClosed
	}
	return nil
}

func (c *Conn) SetNoDelay(bool) error                        { return c.option() }
func (c *Conn) SetKeepAlive(bool) error                      { return c.option() }
func (c *Conn) SetKeepAlivePeriod(time.Duration) error       { return c.option() }
func (c *Conn) SetKeepAliveConfig(net.KeepAliveConfig) error { return c.option() }
func (c *Conn) SetReadBuffer(int) error                      { return c.option() }
func (c *Conn) SetWriteBuffer(int) error                     { return c.option() }
func (c *Conn) SyscallConn() (syscall.RawConn, error)        { return nil, errors.New("not simulated") }
func (c *Conn) File() (*os.File, error)                      { return nil, errors.New("not simulated") }

func (c *Conn) LocalAddr() net.Addr  { return c.local }
func (c *Conn) RemoteAddr() net.Addr { return c.rem }

func (c *Conn) SetDeadline(d time.Time) error {
	if err := c.SetReadDeadline(d); err != nil {
		return err
	}
	return c.SetWriteDeadline(d)
}

func (c *Conn) arm(gen *int, dl *time.Time, q *simrt.WaitQ, d time.Time) {
	*gen++
	*dl = d
	g := *gen
	q.WakeAll()
	if d.IsZero() {
		return
	}
	if w := time.Until(d); w > 0 {
		c.S.After(w, "deadline", func() {
			if *gen == g {
				q.WakeAll()
			}
		})
	}
}

func (c *Conn) SetReadDeadline(d time.Time) error {
	t := simrt.Pre("net deadline", -5)
	if c.Closed {
		return errClosed
	}
	c.arm(&c.rdlGen, &c.rdl, &c.rq, d)
	if t != nil {
		t.Park("net deadline", -5)
	}
	return nil
}

func (c *Conn) SetWriteDeadline(d time.Time) error {
	t := simrt.Pre("net deadline", -5)
	if c.Closed {
		return errClosed
	}
	c.arm(&c.wdlGen, &c.wdl, &c.wq, d)
	if t != nil {
		t.Park("net deadline", -5)
	}
	return nil
}

// ---- peer ----

// Send queues bytes towards the client, cut into segments.
func (p *Peer) Send(b []byte) {
	c := p.C
	if p.Ended || len(b) == 0 {
		return
	}
	b = append([]byte(nil), b...)
	for len(b) > 0 {
		n := len(b)
		switch c.Opt.Seg {
		case SegCoarse:
			if n > 1 && c.S.Net.Bool(0.6) {
				n = 1 + c.S.Net.Int(n-1)
			}
		case SegFine:
			n = min(n, max(1+c.S.Net.Int(16), n/24))
		case SegBytes:
			n = min(n, max(1, n/64))
		case SegMSS:
			n = min(n, max(1460, n/64))
		}
		if n < len(b) {
			c.S.Fault("segmented-to-client")
		}
		p.in = append(p.in, item{data: b[:n], d: c.delay(&c.downDelay)})
		b = b[n:]
	}
	p.next()
}

// SendWhole queues bytes as one segment (after a pause d).
func (p *Peer) SendWhole(b []byte, d time.Duration) {
	if p.Ended || len(b) == 0 {
		return
	}
	p.in = append(p.in, item{data: append([]byte(nil), b...), d: d})
	p.next()
}

// Pause inserts idle time before what is queued next.
func (p *Peer) Pause(d time.Duration) {
	p.in = append(p.in, item{d: d})
	p.next()
}

// Fin ends the stream in an orderly way after what was queued.
func (p *Peer) Fin() {
	if p.Ended {
		return
	}
	p.Ended = true
	p.in = append(p.in, item{fin: true, d: p.C.delay(&p.C.downDelay)})
	p.next()
}

// Rst aborts the connection after what was queued; drop loses what the client
// has not read yet.
func (p *Peer) Rst(drop bool) {
	if p.Ended {
		return
	}
	p.Ended = true
	p.in = append(p.in, item{rst: true, drop: drop, d: p.C.delay(&p.C.downDelay)})
	p.next()
}

// RstNow aborts at once, losing what is in flight.
func (p *Peer) RstNow(drop bool) {
	p.Ended = true
	p.in = nil
	p.deliver(item{rst: true, drop: drop})
}

// Pending tells whether something is still on its way to the client.
func (p *Peer) Pending() bool { return len(p.in) > 0 || p.inBusy }

// ClientEOF tells whether the client's end was seen.
func (p *Peer) ClientEOF() bool { return p.gotEOF }

// Stall stops (or resumes) the peer's reading.
func (p *Peer) Stall(on bool) {
	if on && !p.stalled {
		p.C.S.Fault("peer-stops-reading")
	}
	p.stalled = on
	p.C.pump()
}

// Take lets a stalled peer read up to n bytes all the same.
func (p *Peer) Take(n int) {
	c := p.C
	n = min(n, len(c.wbuf))
	if n == 0 {
		return
	}
	b := append([]byte(nil), c.wbuf[:n]...)
	c.wbuf = c.wbuf[n:]
	p.Received += n
	c.S.Fault("slow-reader")
	c.wq.WakeAll()
	if f := p.OnData; f != nil {
		f(b)
	}
}

func (p *Peer) Stalled() bool { return p.stalled }

func (p *Peer) next() {
	if p.inBusy || len(p.in) == 0 {
		return
	}
	p.inBusy = true
	p.C.S.After(p.in[0].d, fmt.Sprintf("to-client %d", p.C.ID), func() {
		p.inBusy = false
		if len(p.in) == 0 {
			return
		}
		it := p.in[0]
		p.in = p.in[1:]
		p.deliver(it)
		p.next()
	})
}

func (p *Peer) deliver(it item) {
	c := p.C
	c.S.Progress()
	switch {
	case it.rst:
		c.S.Fault("reset-by-peer")
		c.S.Logf("net   %v reset by peer", c)
		c.rErr = errReset
		c.wErr = errPipe
		if it.drop {
			c.rbuf = nil
		}
		c.wbuf = nil
		c.wq.WakeAll()
	case it.fin:
		c.S.Fault("eof-by-peer")
		c.S.Logf("net   %v ended by peer", c)
		c.rEOF = true
	default:
		if !c.Closed {
			c.rbuf = append(c.rbuf, it.data...)
		}
		p.arrived += len(it.data)
		p.arrivals = append(p.arrivals, arrival{p.arrived, c.S.Now()})
	}
	p.SentAll = c.S.Now()
	c.rq.WakeAll()
}

type arrival struct {
	off int
	at  time.Duration
}

// ArrivedAt is when the first off bytes of the peer had all arrived, -1 if
// they have not.
func (p *Peer) ArrivedAt(off int) time.Duration {
	a := p.arrivals
	i := sort.Search(len(a), func(i int) bool { return a[i].off >= off })
	if i == len(a) {
		return -1
	}
	return a[i].at
}

// ---- dialling ----

type timeoutError struct{}

func (timeoutError) Error() string   { return "i/o timeout" }
func (timeoutError) Timeout() bool   { return true }
func (timeoutError) Temporary() bool { return true }

// namedAddr is the address that was dialled.
type namedAddr string

func (namedAddr) Network() string  { return "tcp" }
func (a namedAddr) String() string { return string(a) }

func opErr(addr string, err error) error {
	if _, ok := err.(syscall.Errno); ok {
		err = os.NewSyscallError("connect", err)
	}
	return &net.OpError{Op: "dial", Net: "tcp", Addr: namedAddr(addr), Err: err}
}

func Dial(network, addr string) (net.Conn, error) { return dial(network, addr, 0, nil) }
func DialTimeout(network, addr string, d time.Duration) (net.Conn, error) {
	if d <= 0 && d != 0 {
		return nil, opErr(addr, timeoutError{})
	}
	return dial(network, addr, d, nil)
}

func dial(network, addr string, timeout time.Duration, ctx context.Context) (net.Conn, error) {
	t := simrt.Pre("dial", -6)
	if t == nil || N == nil {
		return nil, opErr(addr, errors.New("no network"))
	}
	n := N
	s := n.S
	n.Dials = append(n.Dials, addr)
	s.Logf("net   dial %s", addr)
	if host, port, err := net.SplitHostPort(addr); err != nil || port == "" || host == "" {
		t.Park("dial failed", -6)
		return nil, opErr(addr, errors.New("bad address"))
	} else if k, err := strconv.Atoi(port); err != nil || k < 0 || k > 65535 || !strings.HasPrefix(network, "tcp") {
		t.Park("dial failed", -6)
		return nil, opErr(addr, errors.New("bad address"))
	}
	h := n.host(addr)
	if h == nil {
		h = &Host{NoRoute: true}
	}
	if h.OnDial != nil {
		h.OnDial()
	}
	var q simrt.WaitQ
	ready, expired, cancelled := false, false, false
	os := 127 * time.Second
	if timeout == 0 || timeout > os {
		timeout = os
	}
	if !h.Never {
		s.After(h.Delay, "dial answer "+addr, func() { ready = true; q.WakeAll() })
	} else {
		s.Fault("dial-never-completes")
	}
	s.After(timeout, "dial timeout "+addr, func() { expired = true; q.WakeAll() })
	if ctx != nil && ctx.Done() != nil {
		stop := simrt.ContextAfterFunc(ctx, func() { cancelled = true; q.WakeAll() }, -6)
		defer stop()
	}
	for !ready && !expired && !cancelled {
		t.Wait(&q, "dial", -6)
	}
	switch {
	case cancelled && !ready && errors.Is(ctx.Err(), context.Canceled):
		s.Fault("dial-cancelled")
		return nil, opErr(addr, errors.New("operation was canceled"))
	case !ready:
		s.Fault("dial-timeout")
		return nil, opErr(addr, timeoutError{})
	case h.Refuse || h.NoRoute:
		s.Fault("dial-refused")
		return nil, opErr(addr, syscall.ECONNREFUSED)
	}
	c := n.NewConn(addr, h.Opt)
	s.Logf("net   %v established", c)
	if h.Accept != nil {
		h.Accept(c)
	}
	t.Park("dialled", -6)
	return c, nil
}

// Dialer mirrors net.Dialer.
type Dialer struct {
	Timeout         time.Duration
	Deadline        time.Time
	LocalAddr       net.Addr
	DualStack       bool
	FallbackDelay   time.Duration
	KeepAlive       time.Duration
	KeepAliveConfig net.KeepAliveConfig
	Resolver        *net.Resolver
	Cancel          <-chan struct{}
	Control         func(network, address string, c syscall.RawConn) error
	ControlContext  func(ctx context.Context, network, address string, c syscall.RawConn) error
}

func (d *Dialer) limit() time.Duration {
	t := d.Timeout
	if !d.Deadline.IsZero() {
		if u := time.Until(d.Deadline); t == 0 || u < t {
			t = u
			if t <= 0 {
				t = 1
			}
		}
	}
	return t
}

func (d *Dialer) Dial(network, addr string) (net.Conn, error) {
	return dial(network, addr, d.limit(), nil)
}

func (d *Dialer) DialContext(ctx context.Context, network, addr string) (net.Conn, error) {
	t := d.limit()
	if dl, ok := ctx.Deadline(); ok {
		if u := time.Until(dl); t == 0 || u < t {
			t = max(u, 1)
		}
	}
	return dial(network, addr, t, ctx)
}

// LookupHost gives every name the address of its position in the order of first
// use; dialling such an address reaches the host of that name.
func LookupHost(host string) ([]string, error) {
	if N == nil {
		return nil, errors.New("no network")
	}
	if net.ParseIP(host) != nil {
		return []string{host}, nil
	}
	for i, h := range N.names {
		if h == host {
			return []string{nameAddr(i)}, nil
		}
	}
	N.names = append(N.names, host)
	return []string{nameAddr(len(N.names) - 1)}, nil
}

func nameAddr(i int) string { return fmt.Sprintf("10.9.%d.%d", i/250, 1+i%250) }

func (n *Network) host(addr string) *Host {
	if h := n.Hosts[addr]; h != nil {
		return h
	}
	host, port, _ := net.SplitHostPort(addr)
	for i, name := range n.names {
		if nameAddr(i) == host {
			return n.Hosts[net.JoinHostPort(name, port)]
		}
	}
	return nil
}

func ResolveTCPAddr(network, addr string) (*net.TCPAddr, error) {
	host, port, err := net.SplitHostPort(addr)
	if err != nil {
		return nil, opErr(addr, err)
	}
	a, err := LookupHost(host)
	if err != nil {
		return nil, opErr(addr, err)
	}
	n, err := strconv.Atoi(port)
	if err != nil {
		return nil, opErr(addr, err)
	}
	return &net.TCPAddr{IP: net.ParseIP(a[0]), Port: n}, nil
}

func DialTCP(network string, l, r *net.TCPAddr) (*Conn, error) {
	c, err := dial(network, r.String(), 0, nil)
	if err != nil {
		return nil, err
	}
	return c.(*Conn), nil
}

// WriteFailed tells whether writing failed or the connection was reset.
func (c *Conn) WriteFailed() bool { return c.wErr != nil }
