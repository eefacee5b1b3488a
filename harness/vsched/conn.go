//go:build go1.25

package verif_vsched

import (
	"errors"
	"io"
	"net"
	"time"
)

type dir struct {
	buf    []byte
	closed bool //no more writes come
	rdead  bool //nobody reads any more
	max    int  //bytes in flight before writes block (0: unlimited)
	rmax   int  //bytes per read (0: unlimited)
}

// Conn is one end of an in-memory connection.
type Conn struct {
	r, w *dir
	dl   *timer
	late bool
	shut bool
	Log  [][]byte //Write calls, in order
}

// NoLog stops keeping what is written.
var NoLog bool

// Pipe returns the two ends of a connection.
func Pipe() (a, b *Conn) {
	x, y := &dir{}, &dir{}
	return &Conn{r: x, w: y}, &Conn{r: y, w: x}
}

type timeout struct{}

func (timeout) Error() string   { return "i/o timeout" }
func (timeout) Timeout() bool   { return true }
func (timeout) Temporary() bool { return true }

func (c *Conn) Read(b []byte) (int, error) {
	//what has arrived is nobody else's: reading it commutes with everything
	if len(c.r.buf) == 0 || c.r.rdead || c.late {
		block(func() bool { return len(c.r.buf) > 0 || c.r.closed || c.r.rdead || c.late }, "Read")
	}
	switch {
	case killed() || c.r.rdead:
		return 0, net.ErrClosed
	case len(c.r.buf) > 0:
		if c.r.rmax > 0 && len(b) > c.r.rmax {
			b = b[:c.r.rmax]
		}
		n := copy(b, c.r.buf)
		c.r.buf = c.r.buf[n:]
		return n, nil
	case c.r.closed:
		return 0, io.EOF
	}
	return 0, timeout{}
}

func (c *Conn) Write(b []byte) (n int, err error) {
	if !NoLog {
		c.Log = append(c.Log, append([]byte(nil), b...))
	}
	for {
		block(func() bool { return c.w.max == 0 || len(c.w.buf) < c.w.max || c.w.closed || c.w.rdead }, "Write")
		switch {
		case killed() || c.w.closed:
			return n, net.ErrClosed
		case c.w.rdead:
			return n, errors.New("write: broken pipe")
		}
		m := len(b)
		if c.w.max > 0 && m > c.w.max-len(c.w.buf) {
			m = c.w.max - len(c.w.buf)
		}
		c.w.buf = append(c.w.buf, b[:m]...)
		n += m
		if b = b[m:]; len(b) == 0 {
			return n, nil
		}
	}
}

func (c *Conn) Close() error {
	point("Close")
	c.w.closed, c.r.rdead, c.shut = true, true, true
	return nil
}
func (c *Conn) CloseWrite() error { c.w.closed = true; return nil }

// Take removes what has arrived and was not read.
func (c *Conn) Take() []byte     { b := c.r.buf; c.r.buf = nil; return b }
func (c *Conn) PeerClosed() bool { return c.r.closed }

// Ready reports whether a read would return at once.
func (c *Conn) Ready() bool { return len(c.r.buf) > 0 || c.r.closed || c.r.rdead }

// Wait blocks until a read would return.
func (c *Conn) Wait() { block(c.Ready, "Wait") }

// LimitReads bounds the bytes a read of this end (the other end) returns.
func (c *Conn) LimitReads(n int)     { c.r.rmax = n }
func (c *Conn) LimitPeerReads(n int) { c.w.rmax = n }

// Window bounds the bytes the peer may have in flight towards this end.
func (c *Conn) Window(n int) { c.r.max = n }

func (c *Conn) LocalAddr() net.Addr                { return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 1935} }
func (c *Conn) RemoteAddr() net.Addr               { return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 40000} }
func (c *Conn) SetDeadline(t time.Time) error      { return c.SetReadDeadline(t) }
func (c *Conn) SetWriteDeadline(t time.Time) error { return nil }
func (c *Conn) SetReadDeadline(t time.Time) error {
	if c.dl != nil {
		c.dl.off = true
		c.dl = nil
	}
	c.late = false
	if t.IsZero() || cur == nil || cur.killed {
		return nil
	}
	if !t.After(cur.now) {
		c.late = true
		return nil
	}
	c.dl = cur.addTimer(t.Sub(cur.now), func() { c.late = true })
	return nil
}
