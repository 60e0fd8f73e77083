// Package net replaces the standard package for instrumented code: a simulated TCP-like network.
package net

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"simrt/simrt"
	"syscall"
	"time"

	shimtime "simrt/time"
)

// Params describe one connection's behaviour (both directions).
type Params struct {
	LatMin, LatMax int64 // ns per segment
	SegMode        int   // 0 whole writes, 1 random cuts, 2 tiny pieces, 3 mtu pieces, 4 coalesced bursts
	ShortReads     bool  // Read may return fewer bytes than available
	Window         int   // bytes in flight + unread before a writer blocks
	Slack          int64 // how late a read deadline fires
}

// Endpoint is one listening address.
type Endpoint struct {
	Accept  func(c *SimConn)
	Refuse  bool
	Hang    bool // never answers the SYN: dial times out
	DialLat int64
	P       func() Params
}

type Network struct {
	eps   map[string]*Endpoint
	conns []*SimConn
	Dials int
}

func N() *Network {
	n, _ := simrt.S.Net.(*Network)
	if n == nil {
		n = &Network{eps: map[string]*Endpoint{}}
		simrt.S.Net = n
	}
	return n
}

func (n *Network) Listen(addr string, e *Endpoint) { n.eps[addr] = e }
func (n *Network) Endpoint(addr string) *Endpoint  { return n.eps[addr] }
func (n *Network) Conns() []*SimConn                  { return n.conns }

type seg struct {
	b  []byte
	vc simrt.VC
}

// pipe is one direction.
type pipe struct {
	p        *Params
	recv     []seg
	avail    int
	inflight int
	lastAt   int64
	eof      bool // FIN delivered
	finSent  bool
	reset    error // RST delivered
	rq       simrt.WaitQ
	wq       simrt.WaitQ
	hole     bool // black hole: nothing is delivered any more
	stall    bool // the reader does not take data (window stays closed)
	Written  int64
	ReadN    int64
}

type SimConn struct {
	name         string
	addr         string
	in, out      *pipe
	peer         *SimConn
	closed       bool
	ClosedAt     int64
	rdl, wdl     int64 // deadline in virtual ns, 0 = none
	rdlEv, wdlEv *simrt.Event
	rdlHit       bool
	wdlHit       bool
	Client       bool
	P            *Params
	OnClose      func()
	OnRead       func(total int64)           // after each successful read
	OnShip       func(b []byte, total int64) // when bytes enter the pipe
	Reads        int64
	Deadlines    int64
	BadReads     int64 // reads that returned an error other than a timeout
	Dialed       int64
	reading      int
	MaxReaders   int
	readOwner    map[int]bool
	local        net.Addr
	remote       net.Addr
}

func (n *Network) pair(addr string, p Params) (*SimConn, *SimConn) {
	pp := &p
	ab := &pipe{p: pp}
	ba := &pipe{p: pp}
	k := len(n.conns) / 2
	c := &SimConn{name: fmt.Sprintf("c%d", k), addr: addr, in: ba, out: ab, Client: true, P: pp, Dialed: simrt.NowNS()}
	d := &SimConn{name: fmt.Sprintf("s%d", k), addr: addr, in: ab, out: ba, P: pp}
	c.peer, d.peer = d, c
	ta, _ := net.ResolveTCPAddr("tcp", addr)
	if ta == nil {
		ta = &net.TCPAddr{}
	}
	la := &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 40000 + k}
	c.local, c.remote = la, ta
	d.local, d.remote = ta, la
	n.conns = append(n.conns, c, d)
	return c, d
}

// Pair makes a connected pair without dialling (harness use).
func Pair(p Params) (*SimConn, *SimConn) { return N().pair("127.0.0.1:9", p) }

func opErr(op string, c *SimConn, err error) error {
	e := &net.OpError{Op: op, Net: "tcp", Err: err}
	if c != nil {
		e.Addr = c.remote
		e.Source = c.local
	}
	return e
}

func (c *SimConn) Peer() *SimConn  { return c.peer }
func (c *SimConn) Name() string { return c.name }
func (c *SimConn) Closed() bool { return c.closed }

func (c *SimConn) Read(b []byte) (int, error) {
	simrt.Pre()
	c.Reads++
	c.reading++
	if c.reading > c.MaxReaders {
		c.MaxReaders = c.reading
	}
	defer func() { c.reading-- }()
	in := c.in
	s := simrt.S
	for {
		if c.closed {
			c.BadReads++
			return 0, opErr("read", c, net.ErrClosed)
		}
		if in.reset != nil {
			c.BadReads++
			return 0, opErr("read", c, in.reset)
		}
		if c.rdlHit {
			c.Deadlines++
			return 0, opErr("read", c, os.ErrDeadlineExceeded)
		}
		if len(b) == 0 {
			return 0, nil
		}
		if in.avail > 0 {
			max := in.avail
			if max > len(b) {
				max = len(b)
			}
			if c.P.ShortReads && max > 1 {
				// 0 = everything that is there
				if k := s.C.Choose(simrt.Net, 4); k > 0 {
					max = 1 + s.C.Choose(simrt.Net, max)
					s.Count("net-short-read")
				}
			}
			n := 0
			for n < max {
				sg := &in.recv[0]
				simrt.AcquireVC(sg.vc)
				k := copy(b[n:max], sg.b)
				n += k
				sg.b = sg.b[k:]
				if len(sg.b) == 0 {
					in.recv = in.recv[1:]
				}
			}
			in.avail -= n
			in.ReadN += int64(n)
			in.wq.WakeAll()
			s.Mix(uint64(n)<<8 | 7)
			if c.OnRead != nil {
				c.OnRead(in.ReadN)
			}
			return n, nil
		}
		if in.eof {
			c.BadReads++
			return 0, io.EOF
		}
		in.rq.Wait("net read")
	}
}

func (c *SimConn) Write(b []byte) (int, error) {
	simrt.Pre()
	s := simrt.S
	out := c.out
	total := 0
	data := append([]byte(nil), b...)
	for len(data) > 0 {
		if c.closed {
			return total, opErr("write", c, net.ErrClosed)
		}
		if c.in.reset != nil {
			return total, opErr("write", c, syscall.EPIPE)
		}
		if c.wdlHit {
			return total, opErr("write", c, os.ErrDeadlineExceeded)
		}
		if c.peer.closed && !out.hole {
			// data sent to a closed peer: the kernel accepts it, then answers with RST
			n := len(data)
			total += n
			data = nil
			pin := c.in
			s.At(s.Now()+c.P.LatMin+1, func() {
				if pin.reset == nil {
					pin.reset = syscall.ECONNRESET
					pin.rq.WakeAll()
				}
			})
			break
		}
		room := c.P.Window - out.inflight - out.avail
		if room <= 0 {
			s.Count("net-write-blocked")
			out.wq.Wait("net write")
			continue
		}
		n := len(data)
		if n > room {
			n = room
			s.Count("net-partial-window")
		}
		c.ship(data[:n])
		total += n
		data = data[n:]
	}
	return total, nil
}

// ship cuts a chunk into segments and schedules their arrival.
func (c *SimConn) ship(b []byte) {
	s := simrt.S
	out := c.out
	vc := simrt.ReleaseVC()
	out.Written += int64(len(b))
	if c.OnShip != nil {
		c.OnShip(b, out.Written)
	}
	out.inflight += len(b)
	p := c.P
	for len(b) > 0 {
		n := len(b)
		switch p.SegMode {
		case 1:
			if s.C.Choose(simrt.Net, 3) > 0 {
				n = 1 + s.C.Choose(simrt.Net, len(b))
			}
		case 2:
			if k := 1 + s.C.Choose(simrt.Net, 8); k < n {
				n = k
			}
		case 3:
			if n > 1460 {
				n = 1460
			}
		}
		if n < len(b) {
			s.Count("net-segmented")
		}
		chunk := append([]byte(nil), b[:n]...)
		b = b[n:]
		lat := p.LatMin
		if p.LatMax > p.LatMin {
			steps := s.C.Choose(simrt.Net, 16)
			lat += (p.LatMax - p.LatMin) * int64(steps) / 15
		}
		at := s.Now() + lat
		if p.SegMode == 4 && s.C.Choose(simrt.Net, 4) > 0 {
			// bursts: arrive together with what follows
			q := int64(5_000_000)
			at = (at/q + 1) * q
			s.Count("net-coalesced")
		}
		if at < out.lastAt {
			at = out.lastAt
		}
		out.lastAt = at
		s.At(at, func() {
			out.inflight -= len(chunk)
			if out.hole {
				s.Count("net-blackholed-bytes")
				return
			}
			if c.peer.closed || out.reset != nil {
				out.wq.WakeAll()
				return
			}
			out.recv = append(out.recv, seg{chunk, vc})
			out.avail += len(chunk)
			if !out.stall {
				out.rq.WakeAll()
			}
		})
	}
}

func (c *SimConn) Close() error {
	if simrt.Killing() {
		return nil
	}
	simrt.Pre()
	if c.closed {
		return opErr("close", c, net.ErrClosed)
	}
	c.doClose()
	return nil
}

func (c *SimConn) doClose() {
	s := simrt.S
	c.closed = true
	c.ClosedAt = s.Now()
	s.Mix(uint64(5))
	s.Cancel(c.rdlEv)
	s.Cancel(c.wdlEv)
	c.in.rq.WakeAll()
	c.out.wq.WakeAll()
	out := c.out
	if out.finSent {
		return
	}
	out.finSent = true
	at := s.Now() + c.P.LatMin + 1
	if at < out.lastAt {
		at = out.lastAt
	}
	out.lastAt = at
	rst := c.in.avail > 0 // unread data: the kernel sends RST instead of FIN
	s.At(at, func() {
		if out.hole {
			return
		}
		if rst {
			if out.reset == nil {
				out.reset = syscall.ECONNRESET
			}
		} else {
			out.eof = true
		}
		out.rq.WakeAll()
		out.wq.WakeAll()
		// the other side's blocked writers learn about the closed peer
		c.in.wq.WakeAll()
	})
	if c.OnClose != nil {
		c.OnClose()
	}
}

// Reset aborts the connection: the peer sees ECONNRESET after one latency and undelivered data is lost.
func (c *SimConn) Reset() {
	s := simrt.S
	s.Count("net-reset")
	c.closed = true
	c.ClosedAt = s.Now()
	c.in.rq.WakeAll()
	c.out.wq.WakeAll()
	out := c.out
	out.finSent = true
	s.At(s.Now()+c.P.LatMin+1, func() {
		if out.reset == nil {
			out.reset = syscall.ECONNRESET
		}
		out.recv, out.avail = nil, 0
		out.rq.WakeAll()
		out.wq.WakeAll()
		c.in.wq.WakeAll()
	})
}

// CloseWrite half-closes.
func (c *SimConn) CloseWrite() error {
	s := simrt.S
	out := c.out
	out.finSent = true
	at := s.Now() + c.P.LatMin + 1
	if at < out.lastAt {
		at = out.lastAt
	}
	out.lastAt = at
	s.At(at, func() { out.eof = true; out.rq.WakeAll() })
	return nil
}
func (c *SimConn) CloseRead() error { return nil }

// BlackHole makes everything sent from now on disappear in both directions, silently.
func (c *SimConn) BlackHole() {
	simrt.S.Count("net-blackhole")
	c.in.hole = true
	c.out.hole = true
}

// Unread is the number of bytes received and not yet read.
func (c *SimConn) Unread() int { return c.in.avail }

// OutPending is what was written but not read by the peer.
func (c *SimConn) OutPending() int { return c.out.avail + c.out.inflight }

func (c *SimConn) WrittenTotal() int64 { return c.out.Written }
func (c *SimConn) ReadTotal() int64    { return c.in.ReadN }

func (c *SimConn) LocalAddr() net.Addr  { return c.local }
func (c *SimConn) RemoteAddr() net.Addr { return c.remote }

func (c *SimConn) SetDeadline(t time.Time) error {
	if err := c.SetReadDeadline(t); err != nil {
		return err
	}
	return c.SetWriteDeadline(t)
}

func (c *SimConn) SetReadDeadline(t time.Time) error {
	if simrt.Killing() {
		return nil
	}
	simrt.Pre()
	if c.closed {
		return opErr("set", c, net.ErrClosed)
	}
	s := simrt.S
	s.Cancel(c.rdlEv)
	c.rdlEv = nil
	c.rdlHit = false
	if t.IsZero() {
		return nil
	}
	at := shimtime.NS(t)
	if at <= s.Now() {
		c.rdlHit = true
		c.in.rq.WakeAll()
		return nil
	}
	c.rdlEv = s.At(at+c.P.Slack, func() {
		c.rdlEv = nil
		c.rdlHit = true
		c.in.rq.WakeAll()
	})
	return nil
}

func (c *SimConn) SetWriteDeadline(t time.Time) error {
	if simrt.Killing() {
		return nil
	}
	simrt.Pre()
	if c.closed {
		return opErr("set", c, net.ErrClosed)
	}
	s := simrt.S
	s.Cancel(c.wdlEv)
	c.wdlEv = nil
	c.wdlHit = false
	if t.IsZero() {
		return nil
	}
	at := shimtime.NS(t)
	if at <= s.Now() {
		c.wdlHit = true
		c.out.wq.WakeAll()
		return nil
	}
	c.wdlEv = s.At(at+c.P.Slack, func() {
		c.wdlEv = nil
		c.wdlHit = true
		c.out.wq.WakeAll()
	})
	return nil
}

func (c *SimConn) SetNoDelay(bool) error                     { return nil }
func (c *SimConn) SetKeepAlive(bool) error                   { return nil }
func (c *SimConn) SetKeepAlivePeriod(time.Duration) error    { return nil }
func (c *SimConn) SetLinger(int) error                       { return nil }
func (c *SimConn) SetReadBuffer(int) error                   { return nil }
func (c *SimConn) SetWriteBuffer(int) error                  { return nil }

type TCPConn = SimConn
type Conn = net.Conn

type Dialer struct {
	Timeout       time.Duration
	Deadline      time.Time
	LocalAddr     net.Addr
	KeepAlive     time.Duration
	FallbackDelay time.Duration
	DualStack     bool
	Cancel        <-chan struct{}
}

func (d *Dialer) Dial(network, addr string) (net.Conn, error) {
	return dial(network, addr, d.Timeout)
}

func (d *Dialer) DialContext(ctx context.Context, network, addr string) (net.Conn, error) {
	t := d.Timeout
	if dl, ok := ctx.Deadline(); ok {
		if r := time.Duration(shimtime.NS(dl) - simrt.NowNS()); t == 0 || r < t {
			t = r
			if t <= 0 {
				return nil, &net.OpError{Op: "dial", Net: network, Err: context.DeadlineExceeded}
			}
		}
	}
	return dial(network, addr, t)
}

func Dial(network, addr string) (net.Conn, error) { return dial(network, addr, 0) }
func DialTimeout(network, addr string, t time.Duration) (net.Conn, error) {
	return dial(network, addr, t)
}
func DialTCP(network string, _, r *net.TCPAddr) (*SimConn, error) {
	c, err := dial(network, r.String(), 0)
	if err != nil {
		return nil, err
	}
	return c.(*SimConn), nil
}

var errTimeout = errors.New("i/o timeout")

func dial(network, addr string, timeout time.Duration) (net.Conn, error) {
	simrt.Pre()
	s := simrt.S
	n := N()
	n.Dials++
	e := n.eps[addr]
	if e == nil {
		s.Sleep(50_000, false)
		return nil, &net.OpError{Op: "dial", Net: network, Err: syscall.ECONNREFUSED}
	}
	if e.Hang {
		t := int64(timeout)
		if t <= 0 {
			t = 127e9 // kernel SYN retries
		}
		s.Count("net-dial-timeout")
		s.Sleep(t, false)
		return nil, &net.OpError{Op: "dial", Net: network, Err: syscall.ETIMEDOUT}
	}
	lat := e.DialLat
	if lat <= 0 {
		lat = 50_000
	}
	if timeout > 0 && lat > int64(timeout) {
		s.Sleep(int64(timeout), false)
		return nil, &net.OpError{Op: "dial", Net: network, Err: os.ErrDeadlineExceeded}
	}
	s.Sleep(lat, false)
	if e.Refuse {
		s.Count("net-dial-refused")
		return nil, &net.OpError{Op: "dial", Net: network, Err: syscall.ECONNREFUSED}
	}
	c, d := n.pair(addr, e.P())
	e.Accept(d)
	return c, nil
}
