//go:build go1.25

package verif_vsched

import (
	"bytes"
	"errors"
	"fmt"
	"net"
	"strconv"
	"time"
)

// The network of a scheduled run: addresses are told apart by their port only.

type network struct {
	tcp  map[int]*NetTCPListener
	udp  map[int]*NetUDPConn
	next int
}

func netOf() *network {
	s := cur
	if s == nil {
		panic("verif-internal: network use outside a scheduled run")
	}
	if s.net == nil {
		s.net = &network{tcp: map[int]*NetTCPListener{}, udp: map[int]*NetUDPConn{}, next: 40000}
	}
	return s.net
}

func (n *network) free(udp bool, p int) int {
	if p != 0 {
		return p
	}
	for {
		n.next++
		if n.tcp[n.next] == nil && n.udp[n.next] == nil {
			return n.next
		}
	}
}

var errInUse = errors.New("bind: address already in use")

// NetTCPListener stands in for *net.TCPListener.
type NetTCPListener struct {
	port   int
	q      []*Conn
	closed bool
}

type NetTCPConn = Conn

func NetListenTCP(network string, a *net.TCPAddr) (*NetTCPListener, error) {
	point("ListenTCP")
	if a == nil {
		a = &net.TCPAddr{}
	}
	n := netOf()
	if a.Port != 0 && n.tcp[a.Port] != nil {
		return nil, errInUse
	}
	l := &NetTCPListener{port: n.free(false, a.Port)}
	n.tcp[l.port] = l
	return l, nil
}

func NetListen(network, addr string) (net.Listener, error) {
	a, err := net.ResolveTCPAddr(network, addr)
	if err != nil {
		return nil, err
	}
	l, err := NetListenTCP(network, a)
	if err != nil {
		return nil, err
	}
	return l, nil
}

func (l *NetTCPListener) AcceptTCP() (*Conn, error) {
	block(func() bool { return len(l.q) > 0 || l.closed }, "Accept")
	if l.closed || killed() {
		return nil, net.ErrClosed
	}
	c := l.q[0]
	l.q = l.q[1:]
	return c, nil
}
func (l *NetTCPListener) Accept() (net.Conn, error) {
	c, err := l.AcceptTCP()
	if err != nil {
		return nil, err
	}
	return c, nil
}
func (l *NetTCPListener) Close() error {
	l.closed = true
	if cur != nil {
		delete(netOf().tcp, l.port)
	}
	return nil
}
func (l *NetTCPListener) Addr() net.Addr {
	return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: l.port}
}
func (l *NetTCPListener) SetDeadline(t time.Time) error { return nil }

// Connect opens a connection to a listener of the run.
func (s *Sched) Connect(port int) (*Conn, error) {
	l := netOf().tcp[port]
	if l == nil {
		return nil, fmt.Errorf("connect: connection refused")
	}
	a, b := Pipe()
	l.q = append(l.q, s.End(b))
	return a, nil
}

func NetDial(network, addr string) (net.Conn, error) {
	point("net.Dial")
	s := cur
	if s == nil {
		return net.Dial(network, addr)
	}
	if s.Dial != nil {
		return s.Dial(network, addr)
	}
	_, p, err := net.SplitHostPort(addr)
	if err != nil {
		return nil, err
	}
	port, err := strconv.Atoi(p)
	if err != nil {
		return nil, err
	}
	c, err := s.Connect(port)
	if err != nil {
		return nil, err
	}
	return c, nil
}
func NetDialTimeout(network, addr string, d time.Duration) (net.Conn, error) {
	return NetDial(network, addr)
}

type packet struct {
	from *net.UDPAddr
	b    []byte
}

// NetUDPConn stands in for *net.UDPConn.
type NetUDPConn struct {
	port   int
	q      []packet
	closed bool
	late   bool
	dl     *timer
	peer   *net.UDPAddr
}

func NetListenUDP(network string, a *net.UDPAddr) (*NetUDPConn, error) {
	point("ListenUDP")
	if a == nil {
		a = &net.UDPAddr{}
	}
	n := netOf()
	if a.Port != 0 && n.udp[a.Port] != nil {
		return nil, errInUse
	}
	c := &NetUDPConn{port: n.free(true, a.Port)}
	n.udp[c.port] = c
	return c, nil
}

func (c *NetUDPConn) ReadFromUDP(b []byte) (int, *net.UDPAddr, error) {
	block(func() bool { return len(c.q) > 0 || c.closed || c.late }, "ReadFromUDP")
	switch {
	case c.closed || killed():
		return 0, nil, net.ErrClosed
	case len(c.q) > 0:
		p := c.q[0]
		c.q = c.q[1:]
		return copy(b, p.b), p.from, nil
	}
	return 0, nil, timeout{}
}
func (c *NetUDPConn) ReadFrom(b []byte) (int, net.Addr, error) { return c.ReadFromUDP(b) }
func (c *NetUDPConn) Read(b []byte) (int, error) {
	n, _, err := c.ReadFromUDP(b)
	return n, err
}
func (c *NetUDPConn) WriteToUDP(b []byte, to *net.UDPAddr) (int, error) {
	point("WriteToUDP")
	if c.closed || killed() {
		return 0, net.ErrClosed
	}
	if d := netOf().udp[to.Port]; d != nil {
		d.q = append(d.q, packet{&net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: c.port}, bytes.Clone(b)})
	}
	return len(b), nil
}
func (c *NetUDPConn) WriteTo(b []byte, to net.Addr) (int, error) {
	u, ok := to.(*net.UDPAddr)
	if !ok {
		return 0, errors.New("not a UDP address")
	}
	return c.WriteToUDP(b, u)
}
func (c *NetUDPConn) Write(b []byte) (int, error) {
	if c.peer == nil {
		return 0, errors.New("not connected")
	}
	return c.WriteToUDP(b, c.peer)
}
func (c *NetUDPConn) Close() error {
	point("UDP close")
	if c.closed {
		return net.ErrClosed
	}
	c.closed = true
	if cur != nil && netOf().udp[c.port] == c {
		delete(netOf().udp, c.port)
	}
	return nil
}

// Take removes the datagrams that have arrived.
func (c *NetUDPConn) Take() (out [][]byte) {
	for _, p := range c.q {
		out = append(out, p.b)
	}
	c.q = nil
	return
}
func (c *NetUDPConn) LocalAddr() net.Addr {
	return &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: c.port}
}
func (c *NetUDPConn) RemoteAddr() net.Addr {
	if c.peer == nil {
		return nil
	}
	return c.peer
}
func (c *NetUDPConn) SetReadBuffer(int) error            { return nil }
func (c *NetUDPConn) SetWriteBuffer(int) error           { return nil }
func (c *NetUDPConn) SetWriteDeadline(t time.Time) error { return nil }
func (c *NetUDPConn) SetDeadline(t time.Time) error      { return c.SetReadDeadline(t) }
func (c *NetUDPConn) SetReadDeadline(t time.Time) error {
	if c.dl != nil {
		c.dl.off = true
		c.dl = nil
	}
	c.late = false
	if t.IsZero() || cur == nil || cur.killed {
		return nil
	}
	if !t.After(cur.now) {
		c.late = true
		return nil
	}
	c.dl = cur.addTimer(t.Sub(cur.now), func() { c.late = true })
	return nil
}

// UDPOpen reports how many UDP sockets and TCP listeners are open.
func (s *Sched) UDPOpen() int { return len(netOf().udp) }

// Pending reports whether a datagram waits.
func (c *NetUDPConn) Pending() bool { return len(c.q) > 0 }
