//go:build go1.25

package libsrt

import (
	"encoding/binary"
	"fmt"
	"net"
	"sync"
	"syscall"
	"testing"
	"time"

	v "github.com/sbraveyoung/GGmpeg/verif_vlib"
)

// srtRig runs a real listener on the loopback interface. The listener handles datagrams one by
// one, so the answer to a barrier packet from a third socket proves that everything sent before
// has been dealt with and all answers to it are queued.
type srtRig struct {
	t       *testing.T
	cli     [2]*net.UDPConn
	bar     *net.UDPConn
	l       *Listener
	dst     *net.UDPAddr
	mu      sync.Mutex
	got     []string
	done    chan struct{}
	reject  string
	started time.Time
	barN    uint32
}

func newSrtRig(t *testing.T) *srtRig {
	g := &srtRig{t: t}
	for _, c := range []**net.UDPConn{&g.cli[0], &g.cli[1], &g.bar} {
		x, err := net.ListenUDP("udp", &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1)})
		if err != nil {
			panic("verif-internal: " + err.Error())
		}
		*c = x
	}
	return g
}

// fresh replaces the listener.
func (g *srtRig) fresh() {
	g.end()
	l, err := Listen("127.0.0.1:0", "S", func(id string, p []byte) error {
		g.mu.Lock()
		defer g.mu.Unlock()
		g.got = append(g.got, id+":"+string(p))
		if g.reject != "" && string(p) == g.reject {
			return fmt.Errorf("no")
		}
		return nil
	})
	if err != nil {
		panic("verif-internal: " + err.Error())
	}
	g.l, g.got, g.reject = l, nil, ""
	g.dst = l.conn.LocalAddr().(*net.UDPAddr)
	g.started = time.Now()
	g.done = make(chan struct{})
	go func(d chan struct{}) { defer close(d); l.Run() }(g.done)
	//the barrier is itself a caller that never concludes
	g.barN++
}

func (g *srtRig) end() {
	if g.l != nil {
		g.l.Close()
		<-g.done
		g.l = nil
	}
}

func (g *srtRig) send(c *net.UDPConn, b []byte) {
	if _, err := c.WriteToUDP(b, g.dst); err != nil {
		panic("verif-internal: " + err.Error())
	}
}

func srtCtl(typ, sub uint16, info, dst uint32, body []byte) []byte {
	return v.Cat(v.U32(1<<31|uint32(typ)<<16|uint32(sub)), v.U32(info), v.U32(7), v.U32(dst), body)
}
func srtData(seq, info, dst uint32, body []byte) []byte {
	return v.Cat(v.U32(seq), v.U32(info), v.U32(9), v.U32(dst), body)
}

// srtHS is a handshake body; parameters are marked so that echoes are recognised.
func srtHS(typ int32, isn, id, cookie uint32) []byte {
	b := v.Cat(v.U32(5), v.U32(0), v.U32(isn), v.U32(1400+id&0xf), v.U32(8100+id&0xff), v.U32(uint32(typ)), v.U32(id), v.U32(cookie))
	return append(b, 127, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0)
}

// barrier returns false when the listener does not answer.
func (g *srtRig) barrier() bool {
	g.send(g.bar, srtCtl(0, 0, 0, 0, srtHS(1, 1, 0xbbbb0000+g.barN, 0)))
	buf := make([]byte, 2048)
	g.bar.SetReadDeadline(time.Now().Add(15 * time.Second))
	for {
		n, from, err := g.bar.ReadFromUDP(buf)
		if err != nil {
			return false
		}
		if from.Port == g.dst.Port && n >= 64 {
			return true
		}
	}
}

// drain returns what has arrived at client i.
func (g *srtRig) drain(i int) (out [][]byte) {
	rc, _ := g.cli[i].SyscallConn()
	buf := make([]byte, 2048)
	for {
		n, port := -1, 0
		rc.Read(func(fd uintptr) bool {
			var from syscall.Sockaddr
			var err error
			n, from, err = syscall.Recvfrom(int(fd), buf, syscall.MSG_DONTWAIT)
			if err != nil {
				n = -1
			} else if a, ok := from.(*syscall.SockaddrInet4); ok {
				port = a.Port
			}
			return true
		})
		if n < 0 {
			return
		}
		if port == g.dst.Port {
			out = append(out, append([]byte(nil), buf[:n]...))
		}
	}
}

func (g *srtRig) taken() []string {
	g.mu.Lock()
	defer g.mu.Unlock()
	x := g.got
	g.got = nil
	return x
}

// slow reports that the machine stalled so long that idle sessions may have been dropped.
func (g *srtRig) slow() bool { return time.Since(g.started) > 2*time.Second }

type srtCtlPkt struct {
	typ, sub  uint16
	info, dst uint32
	body      []byte
}

func parseSrt(b []byte) (p srtCtlPkt, err string) {
	if len(b) < 16 {
		return p, "short packet"
	}
	w := binary.BigEndian.Uint32(b)
	if w>>31 == 0 {
		return p, "data packet"
	}
	return srtCtlPkt{uint16(w>>16) & 0x7fff, uint16(w), binary.BigEndian.Uint32(b[4:]), binary.BigEndian.Uint32(b[12:]), b[16:]}, ""
}

type srtHSBody struct {
	typ                         int32
	ver, isn, mtu, fl, id, cook uint32
}

func parseSrtHS(b []byte) (h srtHSBody, ok bool) {
	if len(b) < 48 {
		return h, false
	}
	f := func(o int) uint32 { return binary.BigEndian.Uint32(b[o:]) }
	return srtHSBody{int32(f(20)), f(0), f(8), f(12), f(16), f(24), f(28)}, true
}

// srtMissing expands a loss list, or nil when it is malformed.
func srtMissing(b []byte) (out [][2]uint32, ok bool) {
	if len(b) == 0 || len(b)%4 != 0 {
		return nil, false
	}
	for i := 0; i < len(b); i += 4 {
		w := binary.BigEndian.Uint32(b[i:])
		if w>>31 == 0 {
			out = append(out, [2]uint32{w, w})
			continue
		}
		if i+8 > len(b) {
			return nil, false
		}
		to := binary.BigEndian.Uint32(b[i+4:])
		if to>>31 != 0 {
			return nil, false
		}
		out = append(out, [2]uint32{w & 0x7fffffff, to})
		i += 4
	}
	return out, true
}
