//go:build go1.25

package verif_vlib

import (
	"bytes"
	"errors"
	"io"
	"net"
	"sync"
	"time"
)

type Addr string

func (a Addr) Network() string { return "tcp" }
func (a Addr) String() string  { return string(a) }

// ScriptConn is a connection whose peer has already sent everything: reads hand out In in the
// pieces given by Cuts (offsets), then EOF; writes are collected in Out.
type ScriptConn struct {
	In     []byte
	Cuts   []int
	Out    bytes.Buffer
	pos    int
	Closed bool
	//WriteErrAfter fails writes once that many bytes were written (0: never)
	WriteErrAfter int
	OnRead        func(pos int)
}

func (c *ScriptConn) Read(b []byte) (int, error) {
	if c.OnRead != nil {
		c.OnRead(c.pos)
	}
	if c.Closed {
		return 0, net.ErrClosed
	}
	if c.pos >= len(c.In) {
		return 0, io.EOF
	}
	if len(b) == 0 {
		return 0, nil
	}
	end := len(c.In)
	for _, k := range c.Cuts {
		if k > c.pos {
			if k < end {
				end = k
			}
			break
		}
	}
	n := copy(b, c.In[c.pos:end])
	c.pos += n
	return n, nil
}
func (c *ScriptConn) Write(b []byte) (int, error) {
	if c.Closed {
		return 0, net.ErrClosed
	}
	if c.WriteErrAfter > 0 && c.Out.Len() >= c.WriteErrAfter {
		return 0, errors.New("broken pipe")
	}
	return c.Out.Write(b)
}
func (c *ScriptConn) Pos() int                           { return c.pos }
func (c *ScriptConn) Close() error                       { c.Closed = true; return nil }
func (c *ScriptConn) LocalAddr() net.Addr                { return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 1935} }
func (c *ScriptConn) RemoteAddr() net.Addr               { return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 40000} }
func (c *ScriptConn) SetDeadline(t time.Time) error      { return nil }
func (c *ScriptConn) SetReadDeadline(t time.Time) error  { return nil }
func (c *ScriptConn) SetWriteDeadline(t time.Time) error { return nil }

// Pipe is a bidirectional connection with unbounded buffers. Works inside synctest bubbles.
type half struct {
	mu     sync.Mutex
	c      *sync.Cond
	buf    []byte
	closed bool //no more writes will come
	rdead  bool //reader is gone
	maxRd  int  //at most this many bytes per read (0: unlimited)
}

func newHalf() *half { h := &half{}; h.c = sync.NewCond(&h.mu); return h }

type PipeConn struct {
	r, w     *half
	Name     string
	mu       sync.Mutex
	isClosed bool
	dl       *time.Timer
	rTimeout bool
	WriteLog [][]byte //every Write call, in order
}

type timeoutErr struct{}

func (timeoutErr) Error() string   { return "i/o timeout" }
func (timeoutErr) Timeout() bool   { return true }
func (timeoutErr) Temporary() bool { return true }

func Pipe() (a, b *PipeConn) {
	x, y := newHalf(), newHalf()
	return &PipeConn{r: x, w: y, Name: "a"}, &PipeConn{r: y, w: x, Name: "b"}
}

// LimitReads makes the peer's bytes arrive at most n at a time.
func (p *PipeConn) LimitReads(n int) { p.r.mu.Lock(); p.r.maxRd = n; p.r.mu.Unlock() }

func (p *PipeConn) Read(b []byte) (int, error) {
	h := p.r
	h.mu.Lock()
	defer h.mu.Unlock()
	for {
		if h.rdead {
			return 0, net.ErrClosed
		}
		if len(h.buf) > 0 {
			if h.maxRd > 0 && len(b) > h.maxRd {
				b = b[:h.maxRd]
			}
			n := copy(b, h.buf)
			h.buf = h.buf[n:]
			return n, nil
		}
		if h.closed {
			return 0, io.EOF
		}
		if p.rTimeout {
			return 0, timeoutErr{}
		}
		h.c.Wait()
	}
}
func (p *PipeConn) Write(b []byte) (int, error) {
	h := p.w
	h.mu.Lock()
	defer h.mu.Unlock()
	if h.closed {
		return 0, net.ErrClosed
	}
	if h.rdead {
		return 0, errors.New("write: broken pipe")
	}
	h.buf = append(h.buf, b...)
	p.WriteLog = append(p.WriteLog, append([]byte(nil), b...))
	h.c.Broadcast()
	return len(b), nil
}

// Take removes and returns what has been received and not read yet.
func (p *PipeConn) Take() []byte {
	h := p.r
	h.mu.Lock()
	defer h.mu.Unlock()
	b := h.buf
	h.buf = nil
	return b
}

// PeerClosed reports that the other side closed the connection.
func (p *PipeConn) PeerClosed() bool { h := p.r; h.mu.Lock(); defer h.mu.Unlock(); return h.closed }
func (p *PipeConn) Close() error {
	p.w.mu.Lock()
	p.w.closed = true
	p.w.c.Broadcast()
	p.w.mu.Unlock()
	p.r.mu.Lock()
	p.r.rdead = true
	p.r.c.Broadcast()
	p.r.mu.Unlock()
	return nil
}

// CloseWrite ends the stream towards the peer (FIN) and keeps reading.
func (p *PipeConn) CloseWrite() {
	p.w.mu.Lock()
	p.w.closed = true
	p.w.c.Broadcast()
	p.w.mu.Unlock()
}
func (p *PipeConn) LocalAddr() net.Addr  { return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 1935} }
func (p *PipeConn) RemoteAddr() net.Addr { return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 40000} }
func (p *PipeConn) SetDeadline(t time.Time) error { return p.SetReadDeadline(t) }
func (p *PipeConn) SetReadDeadline(t time.Time) error {
	h := p.r
	h.mu.Lock()
	defer h.mu.Unlock()
	if p.dl != nil {
		p.dl.Stop()
		p.dl = nil
	}
	p.rTimeout = false
	if !t.IsZero() {
		d := time.Until(t)
		if d <= 0 {
			p.rTimeout = true
			h.c.Broadcast()
			return nil
		}
		p.dl = time.AfterFunc(d, func() {
			h.mu.Lock()
			p.rTimeout = true
			h.c.Broadcast()
			h.mu.Unlock()
		})
	}
	return nil
}
func (p *PipeConn) SetWriteDeadline(t time.Time) error { return nil }

// LimitPeerReads bounds how many bytes the other side reads at once.
func (p *PipeConn) LimitPeerReads(n int) { p.w.mu.Lock(); p.w.maxRd = n; p.w.mu.Unlock() }
