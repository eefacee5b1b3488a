//go:build go1.25

package librtmp

import (
	"bytes"
	"crypto/hmac"
	crand "crypto/rand"
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"testing"

	"github.com/SmartBrave/Athena/easyio"
	v "github.com/sbraveyoung/GGmpeg/verif_vlib"
)

func hm(key []byte, parts ...[]byte) []byte {
	m := hmac.New(sha256.New, key)
	for _, p := range parts {
		m.Write(p)
	}
	return m.Sum(nil)
}

var (
	r04tail = []byte{0xf0, 0xee, 0xc2, 0x4a, 0x80, 0x68, 0xbe, 0xe8, 0x2e, 0x00, 0xd0, 0xd1, 0x02, 0x9e, 0x7e, 0x57, 0x6e, 0xec, 0x5d, 0x2d, 0x29, 0x80, 0x6f, 0xab, 0x93, 0xb8, 0xe6, 0x36, 0xcf, 0xeb, 0x31, 0xae}
	r04fms  = append([]byte("Genuine Adobe Flash Media Server 001"), r04tail...)
	r04fp   = append([]byte("Genuine Adobe Flash Player 001"), r04tail...)
)

// r04base is where the digest block of a scheme starts: scheme 0 key first, scheme 1 digest first.
func r04base(scheme int) int {
	if scheme == 0 {
		return 8 + 764
	}
	return 8
}

func r04setOffset(p []byte, base, sum int) {
	for i := 0; i < 4; i++ {
		x := sum
		if x > 255 {
			x = 255
		}
		p[base+i] = byte(x)
		sum -= x
	}
}
func r04off(p []byte, base int) int {
	return base + 4 + (int(p[base])+int(p[base+1])+int(p[base+2])+int(p[base+3]))%728
}

func r04c1(scheme, sum, seed int) (c1 []byte, at int) {
	c1 = v.Fill(seed, 1536)
	binary.BigEndian.PutUint32(c1, 0x11223344)
	copy(c1[4:], []byte{9, 0, 124, 2})
	base := r04base(scheme)
	r04setOffset(c1, base, sum)
	at = r04off(c1, base)
	copy(c1[at:], hm(r04fp[:30], c1[:at], c1[at+32:]))
	return
}

// r04serve feeds in to the server side and returns what it wrote and its error.
func r04serve(in []byte, cuts []int) (out []byte, err error) {
	conn := &v.ScriptConn{In: in, Cuts: cuts}
	err = HandshakeServer(&RTMP{readerConn: easyio.NewEasyReader(conn), writerConn: easyio.NewEasyWriter(conn), lastChunk: map[uint32]*Chunk{}, peerMaxChunkSize: 128, ownMaxChunkSize: 128})
	return conn.Out.Bytes(), err
}

// r04check verifies the server's answer to c1; scheme -1 is the simple handshake.
func r04check(c1, out []byte, scheme, at int) string {
	if len(out) != 3073 {
		return fmt.Sprintf("%d bytes sent, want 3073", len(out))
	}
	if out[0] != 3 {
		return "version byte"
	}
	s1, s2 := out[1:1537], out[1537:]
	if scheme < 0 {
		if !bytes.Equal(s1[4:8], []byte{0, 0, 0, 0}) {
			return "simple S1 zero field"
		}
		if !bytes.Equal(s2[:4], c1[:4]) || !bytes.Equal(s2[8:], c1[8:]) {
			return "simple S2 does not echo C1"
		}
		return ""
	}
	if bytes.Equal(s1[4:8], []byte{0, 0, 0, 0}) {
		return "digest S1 without version"
	}
	o := r04off(s1, r04base(scheme))
	if !bytes.Equal(s1[o:o+32], hm(r04fms[:36], s1[:o], s1[o+32:])) {
		return "S1 digest does not verify in the client's scheme"
	}
	key := hm(r04fms, c1[at:at+32])
	if !bytes.Equal(s2[1504:], hm(key, s2[:1504])) {
		return "S2 digest does not verify"
	}
	return ""
}

type patReader struct{ sum int }

// Read fills with a fixed pattern whose digest offset markers (in either scheme) have the given sum.
func (p *patReader) Read(b []byte) (int, error) {
	copy(b, v.Fill(3, len(b)))
	if len(b) == 1528 {
		q := make([]byte, 1536)
		copy(q[8:], b)
		r04setOffset(q, 8, p.sum)
		r04setOffset(q, 772, p.sum)
		copy(b, q[8:])
	}
	return len(b), nil
}

func TestV_R04(t *testing.T) {
	r := v.Start(t)
	defer r.Finish()
	old := crand.Reader
	defer func() { crand.Reader = old }()
	c2 := v.Fill(99, 1536)

	//every digest position (all sums of the four marker bytes) in both schemes, as client; the
	//server's own digest position is swept alongside
	for scheme := 0; scheme < 2; scheme++ {
		for sum := 0; sum <= 1020; sum++ {
			if !r.Mine() || r.Expired() {
				continue
			}
			cas := fmt.Sprintf("scheme %d, marker sum %d", scheme, sum)
			r.Journal("R04 %s", cas)
			c1, at := r04c1(scheme, sum, sum+5)
			for k := 0; k < 2; k++ {
				if k == 1 {
					crand.Reader = &patReader{(sum*7 + 3) % 1021}
				} else {
					crand.Reader = old
				}
				r.Guard("r04:", cas, func() {
					out, err := r04serve(v.Cat([]byte{3}, c1, c2), nil)
					if err != nil {
						r.Violation("r04:refused", cas, "handshake refused: %v", err)
						return
					}
					if d := r04check(c1, out, scheme, at); d != "" {
						r.Violation(fmt.Sprintf("r04:answer:scheme%d", scheme), cas, "%s", d)
					}
				})
				r.Eval(fmt.Sprintf("scheme%d", scheme), fmt.Sprint(cas, k))
			}
		}
	}
	crand.Reader = old
	r.Note("all 1021 digest marker sums in both schemes; server digest positions swept likewise")

	//damage: every bit of the digest, and one bit in every byte of the packet
	for scheme := 0; scheme < 2; scheme++ {
		for _, sum := range []int{0, 300, 727} {
			c1, at := r04c1(scheme, sum, 7)
			var bits []int
			for i := 0; i < 256; i++ {
				bits = append(bits, at*8+i)
			}
			for i := 0; i < 1536; i++ {
				bits = append(bits, i*8+i%8)
			}
			for _, bit := range bits {
				if !r.Mine() || r.Expired() {
					continue
				}
				d := append([]byte{}, c1...)
				d[bit/8] ^= 1 << uint(bit%8)
				cas := fmt.Sprintf("scheme %d, marker sum %d, bit %d flipped", scheme, sum, bit)
				r.Guard("r04:", cas, func() {
					out, err := r04serve(v.Cat([]byte{3}, d, c2), nil)
					if err != nil {
						r.Violation("r04:refused-damaged", cas, "%v", err)
						return
					}
					if e := r04check(d, out, -1, 0); e != "" {
						r.Violation("r04:damaged", cas, "damaged digest not answered as simple handshake: %s", e)
					}
				})
				r.Eval("damaged", cas)
			}
		}
	}
	r.Note("every digest bit and one bit of every byte damaged, both schemes, three positions")

	//simple handshakes, with C2 anything
	for i := 0; i < 64; i++ {
		if !r.Mine() {
			continue
		}
		c1 := v.Fill(i, 1536)
		if i%2 == 0 {
			copy(c1[4:8], []byte{0, 0, 0, 0})
		}
		r.Guard("r04:", i, func() {
			out, err := r04serve(v.Cat([]byte{3}, c1, v.Fill(i+1, 1536)), nil)
			if err != nil {
				r.Violation("r04:refused-simple", i, "%v", err)
				return
			}
			if e := r04check(c1, out, -1, 0); e != "" {
				r.Violation("r04:simple", i, "%s", e)
			}
		})
		r.Eval("simple", fmt.Sprint("simple", i))
	}

	//segmentation and truncation, of a session that goes on with a connect command
	for scheme := -1; scheme < 2; scheme++ {
		var c1 []byte
		at := 0
		if scheme < 0 {
			c1 = append([]byte{}, handshakeC1...)
		} else {
			c1, at = r04c1(scheme, 555, 3)
		}
		cmd := v.NewChunkWriter(128).Bytes(v.Msg{Type: 20, CSID: 3, Payload: v.AMF("connect", 1, v.Obj{{K: "app", V: "live"}})})
		all := v.Cat([]byte{3}, c1, c2, cmd)
		full := func(cas string, cuts []int) {
			r.Journal("R04 scheme %d %s", scheme, cas)
			conn := &v.ScriptConn{In: all, Cuts: cuts}
			r.Guard("r04:", cas, func() { NewRTMP(conn, "x", NewServer(":0", "live")).HandlerServer() })
			out := conn.Out.Bytes()
			if len(out) < 3073 {
				r.Violation("r04:segmented", cas, "scheme %d: %d bytes sent", scheme, len(out))
				return
			}
			if d := r04check(c1, out[:3073], scheme, at); d != "" {
				r.Violation("r04:segmented", cas, "scheme %d: %s", scheme, d)
			}
			dec := v.NewChunkReader(128)
			if statusCode(dec.Feed(out[3073:])) != "NetConnection.Connect.Success" {
				r.Violation("r04:position", cas, "scheme %d: the command after the handshake is not answered (%v)", scheme, dec.Msgs)
			}
			r.Eval("segmented", fmt.Sprint(scheme, cas))
		}
		for cut := 1; cut < len(all); cut++ {
			if r.Mine() && !r.Expired() {
				full(fmt.Sprint("split at ", cut), []int{cut})
			}
		}
		for n := 1; n <= r.Pick(40, 300); n++ {
			if r.Mine() && !r.Expired() {
				var cuts []int
				for k := n; k < len(all); k += n {
					cuts = append(cuts, k)
				}
				full(fmt.Sprint("segments of ", n), cuts)
			}
		}
		for n := 0; n < 3073; n++ {
			if r.Mine() && !r.Expired() {
				cas := fmt.Sprintf("scheme %d cut off after %d bytes", scheme, n)
				r.Guard("r04:", cas, func() {
					out, err := r04serve(all[:n], nil)
					if err == nil {
						r.Violation("r04:truncated", cas, "handshake reported complete")
					}
					if n < 1537 && len(out) > 1+1536 {
						r.Violation("r04:early", cas, "answered C1 before having it")
					}
				})
				r.Eval("truncated", cas)
			}
		}
	}
	r.Note("every split point, segment size and truncation point of three handshakes followed by a command")

	//client side: against a scripted server, and against the server side
	for i := 0; i < 64; i++ {
		if !r.Mine() {
			continue
		}
		s1 := v.Fill(i+400, 1536)
		if i%2 == 0 {
			copy(s1[4:8], []byte{0, 0, 0, 0})
		}
		in := v.Cat([]byte{3}, s1, v.Fill(i, 1536))
		var cuts []int
		for k := i + 1; k < len(in) && i > 0; k += i * 13 {
			cuts = append(cuts, k)
		}
		conn := &v.ScriptConn{In: in, Cuts: cuts}
		r.Guard("r04:", i, func() {
			err := HandshakeClient(&RTMP{readerConn: easyio.NewEasyReader(conn), writerConn: easyio.NewEasyWriter(conn), lastChunk: map[uint32]*Chunk{}, peerMaxChunkSize: 128, ownMaxChunkSize: 128})
			out := conn.Out.Bytes()
			switch {
			case err != nil:
				r.Violation("r04:client-refuses", i, "%v", err)
			case len(out) != 3073 || out[0] != 3:
				r.Violation("r04:client-bytes", i, "client sent %d bytes", len(out))
			case !bytes.Equal(out[1+4:1+8], []byte{0, 0, 0, 0}):
				r.Violation("r04:client-c1", i, "C1 zero field")
			case !bytes.Equal(out[1537:1541], s1[:4]) || !bytes.Equal(out[1545:], s1[8:]):
				r.Violation("r04:client-c2", i, "C2 does not echo S1")
			default:
				//feed the client's own packets to the server side
				so, err := r04serve(out, nil)
				if err != nil {
					r.Violation("r04:client-server", i, "server refuses the client: %v", err)
				} else if e := r04check(out[1:1537], so, -1, 0); e != "" {
					r.Violation("r04:client-server", i, "%s", e)
				}
			}
		})
		r.Eval("client", fmt.Sprint("client", i))
		for n := 0; n < 3073; n += 61 {
			conn := &v.ScriptConn{In: in[:n]}
			r.Guard("r04:", n, func() {
				if HandshakeClient(&RTMP{readerConn: easyio.NewEasyReader(conn), writerConn: easyio.NewEasyWriter(conn), lastChunk: map[uint32]*Chunk{}, peerMaxChunkSize: 128, ownMaxChunkSize: 128}) == nil {
					r.Violation("r04:client-truncated", n, "client reports completion after %d bytes", n)
				}
			})
		}
	}
}
