//go:build go1.25

package librtmp

import (
	"bytes"
	"encoding/base64"
	"encoding/binary"
	"fmt"
	"net"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/sbraveyoung/GGmpeg/libhls"
	v "github.com/sbraveyoung/GGmpeg/verif_vlib"
	vs "github.com/sbraveyoung/GGmpeg/verif_vsched"
)

// R10: hostile peers. Every case runs on a fresh server that is also serving somebody else.

type r10 struct {
	g      *sRig
	r      *v.Run
	desc   string
	bad    func(key, f string, a ...interface{})
	victim sPub
	watch  sView
	base   int
	conns  []*vs.Conn
	views  []sView
	udp    bool
	name   string //the name the attacker uses
}

func r10Run(r *v.Run, dir, desc string, o sOpt, f func(x *r10)) {
	r.Journal("R10 %s", desc)
	x := &r10{r: r, desc: desc, name: "a"}
	x.bad = func(key, f string, a ...interface{}) {
		if key == "http-panic" {
			return //net/http confines it to the request
		}
		r.Violation("r10:"+key, desc, "%s: %s", desc, fmt.Sprintf(f, a...))
	}
	s := vs.Run(&v.Ctx{}, func(s *vs.Sched) {
		s.Explore(false)
		x.g = newSRig(s, o, dir, x.bad)
		x.victim = x.g.pub("rtmp", 9, "victim")
		x.victim.prepare()
		vs.Go(x.victim.claim)
		s.Idle()
		x.watch = x.g.view("flv", "victim")
		x.watch.join()
		x.victim.frame(true)
		s.Idle()
		if x.victim.result() != won || !x.watch.joined() {
			x.bad("setup", "the other stream does not start")
			return
		}
		x.base = len(s.Alive())
		f(x)
		x.canary()
	})
	if s.Crash != nil {
		x.bad("crash:"+s.Crash.Where, "%s\n%s", s.Crash.Value, s.Crash.Stack)
	}
	if s.Dead != "" {
		x.bad("hang", "%s", s.Dead)
	}
	r.Eval(strings.SplitN(desc, ":", 2)[0], desc)
}

func (x *r10) conn(port int) *vs.Conn {
	c := x.g.conn(port)
	x.conns = append(x.conns, c)
	return c
}

// join lets viewers of every kind join the attacker's stream.
func (x *r10) join(kinds ...string) {
	for _, k := range kinds {
		w := x.g.view(k, x.name)
		w.join()
		x.views = append(x.views, w)
	}
	x.g.s.Idle()
}

// serves checks that the other stream goes on.
func (x *r10) serves(when string) {
	n := sFrames(x.watch.tags(), x.victim.mark())
	x.victim.frame(true)
	x.victim.frame(false)
	x.g.s.Idle()
	if m := sFrames(x.watch.tags(), x.victim.mark()); m != n+2 || x.victim.ended() {
		x.bad("victim", "%s: %d of 2 frames of the other stream arrive, dropped %v", when, m-n, x.victim.ended())
	}
}

// canary checks that nothing of the attack remains.
func (x *r10) canary() {
	g := x.g
	g.s.Idle()
	x.serves("during the attack")
	for _, w := range x.views {
		w.leave()
	}
	for _, c := range x.conns {
		c.Close()
	}
	g.s.Idle()
	if x.udp {
		for i := 0; i < 8; i++ {
			g.s.Advance(time.Second)
		}
	}
	x.serves("after the attack")
	if a := g.s.Alive(); len(a) != x.base {
		x.bad("leak", "%d goroutines, %d before: %v", len(a), x.base, a)
		return
	}
	if g.room(x.name) {
		x.bad("name", "the attacker's name is still taken")
		return
	}
	p := g.pub("rtmp", 1, x.name)
	p.prepare()
	vs.Go(p.claim)
	g.s.Idle()
	w := g.view("flv", x.name)
	w.join()
	g.s.Idle()
	p.frame(true)
	p.frame(false)
	g.s.Idle()
	if p.result() != won || !w.joined() || sFrames(w.tags(), p.mark()) != 2 {
		x.bad("canary", "the next publisher: %s, viewer %v with %d of 2 frames", p.result(), w.joined(), sFrames(w.tags(), p.mark()))
	}
}

// r10Mutants enumerates the byte strings that differ from b in one place. at limits the places.
func r10Mutants(r *v.Run, b []byte, at func(p int) bool, f func(what string, m []byte) bool) bool {
	vals := func(c byte) []byte {
		if r.Quick() {
			return []byte{0, 0xff, c ^ 0x80, c + 1, c - 1, 0x7f}
		}
		all := make([]byte, 256)
		for i := range all {
			all[i] = byte(i)
		}
		return all
	}
	for p := range b {
		if at != nil && !at(p) {
			continue
		}
		seen := map[byte]bool{b[p]: true}
		for _, c := range vals(b[p]) {
			if seen[c] {
				continue
			}
			seen[c] = true
			if r.Mine() {
				m := bytes.Clone(b)
				m[p] = c
				if !f(fmt.Sprintf("byte %d is %02x", p, c), m) {
					return false
				}
			}
		}
		if r.Mine() && !f(fmt.Sprintf("ends after %d bytes", p), bytes.Clone(b[:p])) {
			return false
		}
		if r.Mine() && !f(fmt.Sprintf("without byte %d", p), append(bytes.Clone(b[:p]), b[p+1:]...)) {
			return false
		}
		if r.Mine() && !f(fmt.Sprintf("ff before byte %d", p), v.Cat(b[:p], []byte{0xff}, b[p:])) {
			return false
		}
		for _, w := range [][]byte{{0, 0}, {0xff, 0xff}, {0x7f, 0xff, 0xff, 0xff}, {0xff, 0xff, 0xff, 0xff}, {0x80, 0, 0, 0}, {0, 0, 0, 0}} {
			if r.Quick() && len(w) == 4 && w[0] == 0 || p+len(w) > len(b) {
				continue
			}
			if r.Mine() {
				m := bytes.Clone(b)
				copy(m[p:], w)
				if !f(fmt.Sprintf("bytes from %d are %x", p, w), m) {
					return false
				}
			}
		}
		if r.Expired() {
			return false
		}
	}
	return true
}

func r10Meta() []byte { return v.AMF("@setDataFrame", "onMetaData", metaKV) }

// r10Publish is an RTMP publisher's session: what it sends up to the stream, and the stream.
func r10Publish() (setup, stream []byte) {
	e := v.NewChunkWriter(128)
	c := func(vals ...interface{}) {
		setup = append(setup, e.Bytes(v.Msg{Type: 20, CSID: 3, Payload: v.AMF(vals...)})...)
	}
	setup = v.Cat([]byte{3}, make([]byte, 8), v.Fill(1, 1528), make([]byte, 1536))
	c("connect", 1, v.Obj{{K: "app", V: "live"}, {K: "type", V: "nonprivate"}, {K: "flashVer", V: "FMLE/3.0"}, {K: "tcUrl", V: "rtmp://h/live"}, {K: "fpad", V: false}, {K: "audioCodecs", V: 4071.0}})
	c("releaseStream", 2, nil, "a")
	c("FCPublish", 3, nil, "a")
	c("createStream", 4, nil)
	setup = append(setup, e.Bytes(v.Msg{Type: 20, CSID: 3, SID: 1, Payload: v.AMF("publish", 5, nil, "a", "live")})...)
	m := func(typ byte, csid, sid, ts uint32, p []byte) {
		stream = append(stream, e.Bytes(v.Msg{Type: typ, CSID: csid, SID: sid, TS: ts, Payload: p})...)
	}
	m(18, 4, 1, 0, r10Meta())
	m(9, 6, 1, 0, vSeq)
	m(8, 4, 1, 0, aSeq)
	m(9, 6, 1, 0, vKey(1, 150, 0))
	m(8, 4, 1, 10, aRaw(2, 9))
	m(5, 2, 0, 0, v.U32(5000))
	m(4, 2, 0, 0, []byte{0, 6, 1, 2, 3, 4})
	m(3, 2, 0, 0, v.U32(77))
	m(6, 2, 0, 0, append(v.U32(99), 1))
	m(1, 2, 0, 0, v.U32(200))
	e.Size = 200
	_, items := r09Msgs(r09Ops(), 9, 1, 50)
	_ = items
	ag, _ := r09Msgs(r09Ops(), 9, 1, 50)
	m(22, 6, 1, 50, ag.Payload)
	e.Begin(v.Msg{Type: 9, CSID: 7, SID: 1, TS: 60, Payload: vInter(3, 300, 0)}, 0, 0)
	stream = append(stream, e.Next(7)...)
	m(2, 2, 0, 0, v.U32(7))
	m(9, 6, 1, 0x1000010, vKey(4, 30, 40))
	m(8, 4, 1, 0x1000020, aRaw(5, 9))
	m(20, 3, 0, 0, v.AMF("FCUnpublish", 6, nil, "a"))
	m(20, 3, 1, 0, v.AMF("deleteStream", 7, nil, 1.0))
	return
}

func r10Play() []byte {
	e := v.NewChunkWriter(128)
	b := v.Cat([]byte{3}, make([]byte, 8), v.Fill(1, 1528), make([]byte, 1536))
	m := func(typ byte, csid, sid uint32, p []byte) {
		b = append(b, e.Bytes(v.Msg{Type: typ, CSID: csid, SID: sid, Payload: p})...)
	}
	m(20, 3, 0, v.AMF("connect", 1, v.Obj{{K: "app", V: "live"}, {K: "objectEncoding", V: 0.0}}))
	m(20, 3, 0, v.AMF("createStream", 2, nil))
	m(20, 8, 1, v.AMF("getStreamLength", 3, nil, "victim"))
	m(20, 8, 1, v.AMF("play", 4, nil, "victim", -2000.0))
	m(4, 2, 0, v.Cat([]byte{0, 3}, v.U32(1), v.U32(3000)))
	m(20, 8, 1, v.AMF("pause", 5, nil, true, 100.0))
	m(20, 8, 1, v.AMF("seek", 6, nil, 5.0))
	m(20, 8, 1, v.AMF("receiveAudio", 0, nil, false))
	m(17, 8, 1, append([]byte{0}, v.AMF("receiveVideo", 0, nil, true)...))
	m(16, 8, 1, []byte{1, 2, 3})
	m(20, 8, 1, v.AMF("closeStream", 0, nil))
	m(20, 8, 1, v.AMF("play", 7, nil, "victim"))
	return b
}

// within the handshake one byte is like the next
func r10HS(p int) bool { return p < 12 || p > 1530 && p < 1550 || p > 3068 }

var r10Opt = sOpt{hls: libhls.IMMEDIATELY, dash: true}

// TestVerifR10RTMP: sessions of RTMP publishers, players and upstreams, damaged in one place.
func TestVerifR10RTMP(t *testing.T) {
	vs.Loud = true //what is printed is formatted too
	r := v.Start(t)
	defer r.Finish()
	defer sQuiet()()
	dir := filepath.Join(r.Out(), "r10")
	setup, stream := r10Publish()
	n := len(setup)
	done := r10Mutants(r, append(bytes.Clone(setup), stream...), r10HS, func(what string, m []byte) bool {
		r10Run(r, dir, "RTMP publisher: "+what, r10Opt, func(x *r10) {
			c := x.conn(1935)
			k := min(n, len(m))
			c.Write(m[:k])
			x.g.s.Idle()
			x.join("flv", "rtmp", "rtsp")
			c.Write(m[k:])
		})
		return true
	})
	play := r10Play()
	done = done && r10Mutants(r, play, r10HS, func(what string, m []byte) bool {
		r10Run(r, dir, "RTMP player: "+what, r10Opt, func(x *r10) { x.conn(1935).Write(m) })
		return true
	})
	//an upstream
	e := v.NewChunkWriter(128)
	up := sUpstream(e, make([]byte, 1536))
	nu := len(up)
	for _, m := range []v.Msg{
		{Type: 18, CSID: 4, SID: 1, Payload: v.AMF("onMetaData", metaKV)},
		{Type: 9, CSID: 6, SID: 1, Payload: vSeq}, {Type: 8, CSID: 4, SID: 1, Payload: aSeq},
		{Type: 9, CSID: 6, SID: 1, TS: 10, Payload: vKey(1, 60, 0)}, {Type: 8, CSID: 4, SID: 1, TS: 20, Payload: aRaw(2, 9)},
		{Type: 4, CSID: 2, Payload: []byte{0, 6, 1, 2, 3, 4}},
		{Type: 20, CSID: 5, SID: 1, Payload: v.AMF("onStatus", 0, nil, v.Obj{{K: "level", V: "status"}, {K: "code", V: "NetStream.Play.Stop"}})},
	} {
		up = append(up, e.Bytes(m)...)
	}
	o := r10Opt
	o.pulls = []string{"a"}
	done = done && r10Mutants(r, up, r10HS, func(what string, m []byte) bool {
		r10Run(r, dir, "RTMP upstream: "+what, o, func(x *r10) {
			called := false
			x.g.dial = func(string) (net.Conn, error) {
				if called {
					return nil, fmt.Errorf("connection refused")
				}
				called = true
				a, b := vs.Pipe()
				x.conns = append(x.conns, a)
				k := min(nu, len(m))
				a.Write(m[:k])
				return b, nil
			}
			x.g.s.Idle()
			x.join("flv", "rtsp")
			if len(x.conns) > 0 {
				x.conns[0].Write(m[min(nu, len(m)):])
			}
		})
		return true
	})
	if !done {
		r.Capped("damaged RTMP sessions")
	}
	r.Note("sessions of an RTMP publisher (%d bytes, of the handshake the ends), player (%d) and upstream (%d), each with every single byte changed (quick: to 6 values), missing or added, every 2- and 4-byte field at its extremes, and cut off at every byte", len(setup)+len(stream), len(play), len(up))
}

func r10SDP() string {
	s := s03Scripts()[0]
	return s.sdp()
}

func r10RTSP(k *rtspCli, method, url string, hdr []string, body string) []byte {
	return k.text(method, url, hdr, body)
}

func r10HEVC() string {
	e := base64.StdEncoding.EncodeToString
	return "v=0\r\no=- 0 0 IN IP4 127.0.0.1\r\ns=t\r\nt=0 0\r\nm=video 0 RTP/AVP 96\r\na=rtpmap:96 H265/90000\r\na=fmtp:96 sprop-vps=" + e([]byte{0x40, 1, 12, 1, 255}) + ";sprop-sps=" + e([]byte{0x42, 1, 1, 1, 0x60, 0, 0, 3, 0, 0x90, 0, 0, 3, 0, 0, 3, 0, 0x5d}) + ";sprop-pps=" + e([]byte{0x44, 1, 0xc1, 0x72}) + "\r\na=control:streamid=0\r\n"
}

// r10Record are the interleaved frames of a recording.
func r10Record(s *s03Script) (b []byte) {
	for _, p := range s.packets() {
		ch := byte(0)
		if p.audio {
			ch = 2
		}
		b = append(b, v.Cat([]byte{'$', ch, byte(len(p.b) >> 8), byte(len(p.b))}, p.b)...)
	}
	sr := v.Cat([]byte{0x80, 200, 0, 6}, v.U32(1), make([]byte, 20))
	b = append(b, v.Cat([]byte{'$', 1, 0, byte(len(sr))}, sr)...)
	//header extension, CSRCs and padding
	x := v.RTP{PT: 96, Marker: true, Seq: s.seq + 60, TS: s.vbase + 99999, SSRC: 1, Payload: s03NAL(1, 7, 12), Ext: 1}.Bytes()
	b = append(b, v.Cat([]byte{'$', 0, 0, byte(len(x))}, x)...)
	return
}

// TestVerifR10RTSP: sessions of RTSP publishers and players, damaged in one place.
func TestVerifR10RTSP(t *testing.T) {
	vs.Loud = true //what is printed is formatted too
	r := v.Start(t)
	defer r.Finish()
	defer sQuiet()()
	dir := filepath.Join(r.Out(), "r10")
	tcp := func(i int, mode string) []string {
		return []string{fmt.Sprintf("Transport: RTP/AVP/TCP;unicast;interleaved=%d-%d%s", 2*i, 2*i+1, mode)}
	}
	k := &rtspCli{}
	sc := s03Scripts()[0]
	setup := v.Cat(k.text("OPTIONS", "a", nil, ""), k.text("ANNOUNCE", "a", nil, sc.sdp()), k.text("SETUP", "a/streamid=0", tcp(0, ";mode=record"), ""),
		k.text("SETUP", "a/streamid=1", tcp(1, ";mode=record"), ""), k.text("RECORD", "a", []string{"Range: npt=0.000-"}, ""))
	stream := v.Cat(r10Record(&sc), k.text("GET_PARAMETER", "a", nil, ""), k.text("TEARDOWN", "a", nil, ""))
	n := len(setup)
	pub := func(name string, setup, stream []byte) bool {
		n := len(setup)
		return r10Mutants(r, append(bytes.Clone(setup), stream...), nil, func(what string, m []byte) bool {
			r10Run(r, dir, name+": "+what, r10Opt, func(x *r10) {
				c := x.conn(554)
				k := min(n, len(m))
				c.Write(m[:k])
				x.g.s.Idle()
				x.join("flv", "rtmp", "rtsp")
				c.Write(m[k:])
			})
			return true
		})
	}
	done := pub("RTSP publisher", setup, stream)
	hk := &rtspCli{}
	hset := v.Cat(hk.text("ANNOUNCE", "a", nil, r10HEVC()), hk.text("SETUP", "a/streamid=0", tcp(0, ";mode=record"), ""), hk.text("RECORD", "a", nil, ""))
	var hstr []byte
	for i, p := range [][]byte{
		{0x26, 1, 1, 2, 3}, //IDR
		{0x60, 1, 0, 5, 0x26, 1, 1, 2, 3, 0, 3, 0x02, 1, 9},                 //aggregation
		{0x62, 1, 0x93, 1, 2, 3}, {0x62, 1, 0x13, 4, 5}, {0x62, 1, 0x53, 6}, //fragments
		{0x64, 1, 0, 0, 1},
	} {
		b := v.RTP{PT: 96, Marker: i < 2 || i > 3, Seq: uint16(i), TS: uint32(i * 3600), SSRC: 1, Payload: p, Ext: -1}.Bytes()
		hstr = append(hstr, v.Cat([]byte{'$', 0, 0, byte(len(b))}, b)...)
	}
	done = done && pub("RTSP publisher of HEVC", hset, hstr)
	//a player
	pk := &rtspCli{}
	play := v.Cat(pk.text("OPTIONS", "victim", nil, ""), pk.text("DESCRIBE", "victim", []string{"Accept: application/sdp"}, ""),
		pk.text("SETUP", "victim/trackID=0", tcp(0, ""), ""), pk.text("PLAY", "victim", []string{"Range: npt=0.000-"}, ""),
		[]byte{'$', 1, 0, 8, 0x80, 201, 0, 1, 0, 0, 0, 1}, pk.text("GET_PARAMETER", "victim", nil, "abc"), pk.text("PAUSE", "victim", nil, ""), pk.text("TEARDOWN", "victim", nil, ""))
	for _, udp := range []bool{false, true} {
		b := play
		name := "RTSP player"
		if udp {
			b = bytes.Replace(play, []byte("RTP/AVP/TCP;unicast;interleaved=0-1"), []byte("RTP/AVP;unicast;client_port=40000-40001"), 1)
			name = "RTSP player over UDP"
		}
		done = done && r10Mutants(r, b, nil, func(what string, m []byte) bool {
			r10Run(r, dir, name+": "+what, r10Opt, func(x *r10) { x.conn(554).Write(m) })
			return true
		})
	}
	//datagrams
	udp := func(what string, mut func(i int, b []byte) [][]byte, port func(base, i int) int) {
		r10Run(r, dir, "RTSP datagrams: "+what, r10Opt, func(x *r10) {
			c := x.conn(554)
			k := &rtspCli{c: c, wait: x.g.s.Idle}
			if _, err := k.do("ANNOUNCE", "a", nil, sc.sdp()); err != nil {
				x.bad("setup", "%v", err)
				return
			}
			var ports []int
			for i := 0; i < 2; i++ {
				rep, err := k.do("SETUP", fmt.Sprintf("a/streamid=%d", i), []string{fmt.Sprintf("Transport: RTP/AVP;unicast;client_port=%d-%d;mode=record", 40000+2*i, 40001+2*i)}, "")
				_, p, _ := strings.Cut(rep.Headers["transport"], "server_port=")
				p, _, _ = strings.Cut(p, "-")
				n, e := strconv.Atoi(p)
				if err != nil || e != nil {
					x.bad("setup", "%v %v", err, e)
					return
				}
				ports = append(ports, n)
			}
			if _, err := k.do("RECORD", "a", nil, ""); err != nil {
				x.bad("setup", "%v", err)
				return
			}
			x.join("flv", "rtsp")
			s, _ := vs.NetListenUDP("udp", nil)
			defer s.Close()
			for i, p := range sc.packets() {
				base := ports[0]
				if p.audio {
					base = ports[1]
				}
				for _, d := range mut(i, p.b) {
					s.WriteToUDP(d, &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: port(base, i)})
				}
				x.g.s.Idle()
			}
		})
	}
	rtp := func(base, i int) int { return base }
	for i, p := range sc.packets() {
		i := i
		done = done && r10Mutants(r, p.b, nil, func(what string, m []byte) bool {
			udp(fmt.Sprintf("packet %d %s", i, what), func(j int, b []byte) [][]byte {
				if j == i {
					return [][]byte{m}
				}
				return [][]byte{b}
			}, rtp)
			return true
		})
	}
	for i, f := range []func(b []byte) [][]byte{
		func(b []byte) [][]byte { return [][]byte{{}, b} },
		func(b []byte) [][]byte { return [][]byte{b, b, b} },
		func(b []byte) [][]byte { return [][]byte{bytes.Repeat(b, 30), b} },
		func(b []byte) [][]byte { return [][]byte{make([]byte, 65000), b} },
	} {
		if r.Mine() {
			udp(fmt.Sprintf("in way %d", i), func(_ int, b []byte) [][]byte { return f(b) }, rtp)
			udp(fmt.Sprintf("in way %d to the control port", i), func(_ int, b []byte) [][]byte { return f(b) }, func(base, _ int) int { return base + 1 })
		}
	}
	if !done {
		r.Capped("damaged RTSP sessions")
	}
	r.Note("sessions of RTSP publishers (H.264 and AAC, %d bytes; HEVC, %d) and players (over TCP and UDP, %d) and every datagram of a recording, each with every single byte changed (quick: to 6 values), missing or added, 2- and 4-byte fields at their extremes, and cut off at every byte", n+len(stream), len(hset)+len(hstr), len(play))
}

// r10Feed are the datagrams of an SRT caller after its handshake.
func r10Feed() (out [][]byte) {
	var w v.TSWriter
	flush := func() []byte { b := w.Out; w.Out = nil; return b }
	w.Section(0, v.PATSection([][2]uint16{{1, 0x1000}}, 0), 0)
	w.Section(0x1000, v.PMTSection(1, 0x101, 0, []byte{5, 2, 1, 2}, []v.ESInfo{{Type: 0x1b, PID: 0x101, Info: []byte{10, 1, 7}}, {Type: 0x0f, PID: 0x102}}), 0)
	out = append(out, flush())
	var b []byte
	for _, x := range [][]byte{avcC[8:16], avcC[19:23], sNAL(5, 7, 200)} {
		b = append(append(b, 0, 0, 0, 1), x...)
	}
	w.PES(0x101, v.PESBytes(0xe0, 9000, 6000, b, true, 2), true, 5000)
	out = append(out, flush())
	ad := []byte{0xff, 0xf1, 0x50, 0x80, 0, 0, 0xfc}
	n := 7 + 20
	ad[3] |= byte(n >> 11)
	ad[4], ad[5] = byte(n>>3), byte(n<<5)|0x1f
	fr := append(ad, v.Fill(3, 20)...)
	w.PES(0x102, v.PESBytes(0xc0, 9000, -1, append(bytes.Clone(fr), fr...), true, 0), true, -1)
	w.PES(0x101, v.PESBytes(0xe0, 12600, -1, append([]byte{0, 0, 1}, sNAL(1, 8, 30)...), false, 0), false, -1)
	w.PES(0x101, v.PESBytes(0xe0, 16200, -1, append([]byte{0, 0, 1}, sNAL(1, 8, 30)...), false, 0), false, -1)
	out = append(out, flush())
	return
}

// TestVerifR10SRT: SRT callers, damaged in one place of one datagram.
func TestVerifR10SRT(t *testing.T) {
	vs.Loud = true //what is printed is formatted too
	r := v.Start(t)
	defer r.Finish()
	defer sQuiet()()
	dir := filepath.Join(r.Out(), "r10")
	o := r10Opt
	o.srt = []string{"a"}
	//session with one datagram replaced; place -1, -2: of the handshake
	session := func(desc string, place int, mut func(b []byte) [][]byte) (lens []int) {
		r10Run(r, dir, desc, o, func(x *r10) {
			x.udp = true
			to := &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 9000}
			c, _ := vs.NetListenUDP("udp", nil)
			defer c.Close()
			at := 0
			send := func(b []byte) (ans []byte) {
				ds := [][]byte{b}
				if at == place {
					ds = mut(b)
				}
				lens = append(lens, len(b))
				at++
				for _, d := range ds {
					c.WriteToUDP(d, to)
				}
				x.g.s.Idle()
				for _, a := range c.Take() {
					if len(a) >= 64 && a[0] == 0x80 && a[1] == 0 {
						ans = a[16:]
					}
				}
				return
			}
			if place < 0 {
				//before anything else
				for _, d := range mut(nil) {
					c.WriteToUDP(d, to)
				}
				x.g.s.Idle()
				c.Take()
			}
			our, cookie := uint32(0), uint32(0)
			if a := send(srtCtl(0, 0, srtHS(1, 1000, 77, 0))); a != nil {
				cookie = binary.BigEndian.Uint32(a[28:])
			}
			ext := v.Cat([]byte{0, 1, 0, 3}, v.U32(0x00010401), v.U32(0xbf), v.U32(0x00780078), []byte{0, 5, 0, 2, 't', 's', 'e', 't', 0, 0, 0, 'x'})
			hs := srtHS(-1, 1000, 77, cookie)
			hs[7] = 5 //extension flags
			if a := send(srtCtl(0, 0, append(hs, ext...))); a != nil {
				our = binary.BigEndian.Uint32(a[24:])
			}
			seq := uint32(1000)
			data := func(b []byte) {
				send(v.Cat(v.U32(seq&0x7fffffff), v.U32(0xc0000000|seq), v.U32(9), v.U32(our), b))
				seq++
			}
			feed := r10Feed()
			data(feed[0])
			send(srtCtl(1, our, make([]byte, 4)))
			data(feed[1])
			x.join("flv", "rtmp", "rtsp")
			send(srtCtl(2, our, v.Cat(v.U32(seq), v.U32(1), v.U32(2), v.U32(3), v.U32(4), v.U32(5), v.U32(6))))
			send(srtCtl(6, our, nil))
			send(srtCtl(3, our, v.Cat(v.U32(0x80000000|1000), v.U32(1001), v.U32(1003))))
			data(feed[2])
			send(srtCtl(7, our, v.Cat(v.U32(1000), v.U32(1001))))
			seq += 5 //lost
			data(feed[1])
			send(srtCtl(5, our, make([]byte, 4)))
		})
		return
	}
	lens := session("SRT caller: undamaged", 99, nil)
	var one func(b []byte) [][]byte
	_ = one
	done := true
	for i, n := range lens {
		i := i
		//the positions are what matters; the bytes are taken when they are sent
		vals := r.Pick(6, 256)
		for p := 0; p <= n && done; p++ {
			p := p
			what := func(f string) string { return fmt.Sprintf("SRT caller: datagram %d, byte %d %s", i, p, f) }
			if p < n {
				for k := 0; k < vals; k++ {
					k := k
					if !r.Mine() {
						continue
					}
					session(what(fmt.Sprintf("changed in way %d", k)), i, func(b []byte) [][]byte {
						m := bytes.Clone(b)
						if vals == 256 {
							m[p] = byte(k)
						} else {
							m[p] = []byte{0, 0xff, m[p] ^ 0x80, m[p] + 1, m[p] - 1, 0x7f}[k]
						}
						return [][]byte{m}
					})
				}
				for _, w := range [][]byte{{0xff, 0xff}, {0x7f, 0xff, 0xff, 0xff}, {0, 0, 0, 0}, {0xff, 0xff, 0xff, 0xff}} {
					w := w
					if p+len(w) > n || !r.Mine() {
						continue
					}
					session(what(fmt.Sprintf("and on are %x", w)), i, func(b []byte) [][]byte {
						m := bytes.Clone(b)
						copy(m[p:], w)
						return [][]byte{m}
					})
				}
			}
			if r.Mine() {
				session(what("is the end"), i, func(b []byte) [][]byte { return [][]byte{b[:p]} })
			}
			done = !r.Expired()
		}
		for k, f := range []func(b []byte) [][]byte{
			func(b []byte) [][]byte { return nil },
			func(b []byte) [][]byte { return [][]byte{b, b} },
			func(b []byte) [][]byte { return [][]byte{append(bytes.Clone(b), make([]byte, 1000)...), b} },
			func(b []byte) [][]byte { return [][]byte{append(bytes.Clone(b), 0x47), b} },
		} {
			if r.Mine() {
				session(fmt.Sprintf("SRT caller: datagram %d in way %d", i, k), i, f)
			}
		}
	}
	//every value of every byte of the transport packets, and every length of an adaptation field
	//with and without a payload after it, each in a datagram of its own that nothing else is wrong with
	renumber := func(d []byte, k int) {
		binary.BigEndian.PutUint32(d, (binary.BigEndian.Uint32(d)+uint32(k))&0x7fffffff)
		for o := 16; o+188 <= len(d); o += 188 {
			d[o+3] = d[o+3]&0xf0 | byte(int(d[o+3])+k)&15
		}
	}
	for i, n := range lens {
		if n <= 16 || (n-16)%188 != 0 {
			continue
		}
		for p := 16; p < n && done; p++ {
			if !r.Mine() {
				continue
			}
			p := p
			session(fmt.Sprintf("SRT caller: datagram %d, byte %d takes every value", i, p), i, func(b []byte) (out [][]byte) {
				for k := 0; k < 256; k++ {
					m := bytes.Clone(b)
					renumber(m, k)
					m[p] = byte(k)
					out = append(out, m)
				}
				return
			})
			done = !r.Expired()
		}
		for o := 16; o < n && done; o += 188 {
			for _, flags := range []byte{0, 2, 0x10, 0x80, 0x92} {
				for afc := byte(0); afc < 4; afc++ {
					for lo := 0; lo < 256; lo += 64 {
						if !r.Mine() {
							continue
						}
						o, lo := o, lo
						session(fmt.Sprintf("SRT caller: datagram %d, packet at %d with adaptation fields (control %d, flags %x) of %d to %d bytes", i, o, afc, flags, lo, lo+63), i, func(b []byte) (out [][]byte) {
							for k := 0; k < 64; k++ {
								m := bytes.Clone(b)
								renumber(m, k)
								m[o+3] = m[o+3]&0x0f | afc<<4
								m[o+4], m[o+5] = byte(lo+k), flags
								out = append(out, m)
							}
							return
						})
					}
				}
			}
			done = !r.Expired()
		}
	}
	//tables whose checksum is right
	reseal := func(sec []byte) []byte {
		if len(sec) < 8 {
			return sec
		}
		b := bytes.Clone(sec[:len(sec)-4])
		return append(b, v.U32(v.MpegCRC(b))...)
	}
	pat := v.PATSection([][2]uint16{{1, 0x1000}, {2, 0x1001}}, 0)
	pmt := v.PMTSection(1, 0x101, 0, []byte{5, 2, 1, 2}, []v.ESInfo{{Type: 0x1b, PID: 0x101, Info: []byte{10, 1, 7}}, {Type: 0x0f, PID: 0x102}})
	for t, sec := range [][]byte{pat, pmt} {
		t := t
		done = done && r10Mutants(r, sec, nil, func(what string, m []byte) bool {
			for _, sealed := range []bool{true} {
				b := reseal(m)
				session(fmt.Sprintf("SRT table: %s of table %d, sealed %v", what, t, sealed), 2, func(d []byte) [][]byte {
					var w v.TSWriter
					a, c := pat, pmt
					if t == 0 {
						a = b
					} else {
						c = b
					}
					if len(a) == 0 {
						a = []byte{0}
					}
					if len(c) == 0 {
						c = []byte{0}
					}
					w.Section(0, a, 0)
					w.Section(0x1000, c, 0)
					return [][]byte{v.Cat(d[:16], w.Out)}
				})
			}
			return true
		})
	}
	if !done {
		r.Capped("damaged SRT sessions")
	}
	r.Note("an SRT caller's %d datagrams of %v bytes (handshake with extensions, transport stream, control packets, a gap), each with every single byte changed (quick: to 6 values), 2- and 4-byte fields at their extremes, cut off at every byte, left out, repeated or followed by more; every value of every byte of its transport packets and every adaptation field length, in numbered datagrams; every such change of the tables with a right checksum", len(lens), lens)
}

// r10Bodies are bodies of media messages to damage.
func r10Bodies() (out []struct {
	name string
	typ  byte
	b    []byte
}) {
	add := func(name string, typ byte, b []byte) {
		out = append(out, struct {
			name string
			typ  byte
			b    []byte
		}{name, typ, b})
	}
	hvcc := append([]byte{0x1c, 0, 0, 0, 0}, v.Cat([]byte{1, 1, 0x60, 0, 0, 0, 0x90, 0, 0, 0, 0, 0, 93, 0xf0, 0, 0xfc, 0xfd, 0xf8, 0xf8, 0, 0, 0x0f, 3},
		[]byte{0x20, 0, 1, 0, 5, 0x40, 1, 12, 1, 255}, []byte{0x21, 0, 1, 0, 8, 0x42, 1, 1, 1, 0x60, 0, 0, 3}, []byte{0x22, 0, 1, 0, 4, 0x44, 1, 0xc1, 0x72})...)
	big := []byte{0x67, 0x64, 0, 0x28, 0xac, 0xd9, 0x40, 0x78, 0x02, 0x27, 0xe5, 0xc0, 0x44, 0, 0, 3, 0, 4, 0, 0, 3, 0, 0xf0, 0x3c, 0x60, 0xc6, 0x58}
	high := v.Cat([]byte{0x17, 0, 0, 0, 0, 1, 0x64, 0, 0x28, 0xff, 0xe1, 0, byte(len(big))}, big, []byte{1, 0, 4, 0x68, 0xee, 0x3c, 0x80, 0xfd, 0xf8, 0xf8, 0})
	add("avc header", 9, vSeq)
	add("high profile header", 9, high)
	add("hevc header", 9, hvcc)
	add("aac header", 8, []byte{0xaf, 0, 0x2b, 0x92, 0x08, 0x00})
	add("key frame", 9, v.Cat([]byte{0x17, 1, 0, 0, 40}, nal(9, 1, 2), v.U32(8), avcC[8:16], v.U32(4), avcC[19:23], nal(5, 3, 30)))
	add("inter frame", 9, v.Cat([]byte{0x27, 1, 0xff, 0xff, 0xf0}, nal(1, 1, 12), nal(1, 2, 7)))
	add("hevc key frame", 9, v.Cat([]byte{0x1c, 1, 0, 0, 0}, v.U32(5), []byte{0x26, 1, 2, 3, 4}))
	add("aac frame", 8, aRaw(3, 12))
	add("metadata", 18, r10Meta())
	ag, _ := r09Msgs(r09Ops(), 10, 1, 50)
	add("aggregate", 22, ag.Payload)
	return
}

// TestVerifR10Media: published media, damaged in one place, and every short sequence of odd messages,
// while all segmenters run and viewers of every kind are there.
func TestVerifR10Media(t *testing.T) {
	r := v.Start(t)
	defer r.Finish()
	defer sQuiet()()
	dir := filepath.Join(r.Out(), "r10")
	run := func(desc string, ms []v.Msg) {
		r10Run(r, dir, desc, r10Opt, func(x *r10) {
			p := x.g.pub("rtmp", 2, "a").(*sRTMP)
			p.prepare()
			x.conns = append(x.conns, p.c)
			vs.Go(p.claim)
			x.g.s.Idle()
			x.join("flv", "rtmp")
			for i, m := range ms {
				p.k.send(m)
				x.g.s.Idle()
				if i == 1 || i == len(ms)-2 {
					x.join("rtsp")
				}
			}
			x.g.get(sHLS, "/live/a/index.m3u8")
			x.g.get(sHLS, "/live/a/index.mpd")
		})
	}
	msg := func(typ byte, ts uint32, b []byte) v.Msg {
		return v.Msg{Type: typ, CSID: 6, SID: 1, TS: ts, Payload: b}
	}
	after := func(ts uint32) []v.Msg {
		return []v.Msg{msg(9, ts, vKey(7, 40, 0)), msg(8, ts+10, aRaw(8, 9)), msg(9, ts+2500, vKey(9, 30, 0)), msg(9, ts+2540, vInter(9, 30, 0)), msg(8, ts+2550, aRaw(8, 9)), msg(9, ts+5000, vKey(9, 30, 0)), msg(9, ts+5040, vInter(9, 30, 0))}
	}
	done := true
	bodies := r10Bodies()
	for _, b := range bodies {
		b := b
		f := func(what string, m []byte) bool {
			ms := []v.Msg{msg(9, 0, vSeq), msg(8, 0, aSeq), msg(b.typ, 40, m)}
			run("damaged "+b.name+": "+what, append(ms, after(80)...))
			//first of all
			run("damaged "+b.name+" first: "+what, append([]v.Msg{msg(b.typ, 0, m)}, after(80)...))
			return true
		}
		done = done && r10Mutants(r, b.b, nil, f)
		//headers and the beginnings of frames take every value
		for p := 0; p < min(len(b.b), 48) && done; p++ {
			for c := 0; c < 256; c++ {
				if r.Mine() {
					m := bytes.Clone(b.b)
					m[p] = byte(c)
					f(fmt.Sprintf("byte %d is %02x", p, c), m)
				}
			}
			done = !r.Expired()
		}
	}
	if !done {
		r.Capped("damaged media")
		return
	}
	//sequences of odd messages
	var odd []v.Msg
	for _, typ := range []byte{8, 9, 18} {
		for _, b := range [][]byte{{}, {0x17}, {0xaf}, {0x17, 0}, {0x17, 1, 0, 0, 0}, {0x27, 1, 0, 0, 0, 0, 0, 0, 0}, {0x17, 2, 0, 0, 0}, {0xaf, 0}, {0xaf, 1}} {
			if typ == 18 && len(b) > 1 {
				continue
			}
			odd = append(odd, v.Msg{Type: typ, Payload: b})
		}
	}
	odd = append(odd, v.Msg{Type: 9, Payload: vSeq}, v.Msg{Type: 9, Payload: vSeq2}, v.Msg{Type: 8, Payload: aSeq}, v.Msg{Type: 9, Payload: vKey(1, 40, -8000000)},
		v.Msg{Type: 9, Payload: vInter(1, 40, 8000000)}, v.Msg{Type: 8, Payload: aRaw(1, 9)}, v.Msg{Type: 9, Payload: []byte{0x57, 0}}, v.Msg{Type: 9, Payload: []byte{0x90, 'h', 'v', 'c', '1', 1}},
		v.Msg{Type: 22, Payload: []byte{9, 0, 0, 1}}, v.Msg{Type: 22, Payload: make([]byte, 11)}, v.Msg{Type: 18, Payload: v.AMF("onMetaData", nil)}, v.Msg{Type: 18, Payload: v.AMF("@setDataFrame")},
		v.Msg{Type: 18, Payload: v.AMF("@setDataFrame", "onMetaData", v.Obj{{K: "width", V: "x"}, {K: "framerate", V: -1.0}, {K: "duration", V: 1e300}})}, v.Msg{Type: 8, Payload: []byte{0x2f, 1, 2}}, v.Msg{Type: 9, Payload: bodies[2].b})
	stamps := []uint32{0, 40, 2500, 0x7fffffff, 0x80000001, 0xffffffff}
	depth := r.Pick(2, 3)
	k := 0
	for n := 1; n <= depth && done; n++ {
		done = v.Sequences(len(odd), n, n, func(s []int) bool {
			k++
			for rot := 0; rot < r.Pick(2, 3); rot++ {
				if !r.Mine() {
					continue
				}
				var ms []v.Msg
				var names []string
				for i, o := range s {
					m := odd[o]
					m.CSID, m.SID, m.TS = 6, 1, stamps[(k*5+rot*2+i*(1+k%5))%len(stamps)]
					ms = append(ms, m)
					names = append(names, m.String())
				}
				ms = append(ms, msg(9, 3000, vSeq), msg(8, 3000, aSeq))
				run("odd messages: "+strings.Join(names, " "), append(ms, after(3000)...))
			}
			return !r.Expired()
		})
	}
	//times that jump
	done = done && v.Sequences(len(stamps), 4, r.Pick(4, 5), func(s []int) bool {
		if r.Mine() {
			ms := []v.Msg{msg(9, stamps[s[0]], vSeq), msg(8, stamps[s[0]], aSeq)}
			for i, o := range s {
				ms = append(ms, msg(9, stamps[o], vKey(i, 30, 0)), msg(8, stamps[o]+5, aRaw(i, 9)), msg(9, stamps[o]+40, vInter(i, 9, 0)))
			}
			run(fmt.Sprintf("jumping times: %v", s), ms)
		}
		return !r.Expired()
	})
	if !done {
		r.Capped("odd media")
	}
	r.Note("%d kinds of media message, each with every byte changed (of the first 48 to every value), missing, added, 2- and 4-byte fields at their extremes and cut off at every byte, in the middle of a stream and at its start; every sequence of up to %d of %d odd messages at odd times; every sequence of jumping times; HLS, DASH, FLV, RTMP and RTSP consumers attached", len(bodies), depth, len(odd))
}

// TestVerifR10HTTP: WebSocket clients damaged in one place, and odd requests.
func TestVerifR10HTTP(t *testing.T) {
	vs.Loud = true //what is printed is formatted too
	r := v.Start(t)
	defer r.Finish()
	defer sQuiet()()
	dir := filepath.Join(r.Out(), "r10")
	mask := []byte{1, 2, 3, 4}
	frames := v.Cat(w01Encode(9, []byte("ping"), mask, 0), w01Encode(1, v.Fill(1, 130), mask, 0), w01Encode(2, v.Fill(2, 20), mask, 8), w01Encode(10, nil, mask, 0), w01Encode(8, []byte{3, 0xe8}, mask, 0), w01Encode(9, []byte("late"), mask, 0))
	done := r10Mutants(r, frames, nil, func(what string, m []byte) bool {
		for _, late := range []bool{false, true} {
			r10Run(r, dir, fmt.Sprintf("WebSocket client: %s, late %v", what, late), r10Opt, func(x *r10) {
				x.name = "victim"
				if late {
					x.join("ws")
				} else {
					w := x.g.view("ws", "victim").(*sFLVView)
					w.join()
					x.views = append(x.views, w)
				}
				if a := x.views[0].(*sFLVView).resp.a; a != nil {
					a.Write(m)
				}
				x.g.s.Idle()
				x.name = "a"
			})
		}
		return true
	})
	//requests
	nums := []string{"", "0", "1", "2", "-1", "5", "999999999", "99999999999999999999", "x", "0x1", "%31", "1&_HLS_msn=2"}
	for _, file := range []string{"index.m3u8", "a.m3u8", "index.mpd", "index.ts", "x.m4s", "init.mp4", ".."} {
		for _, m := range nums {
			for _, p := range nums {
				for _, st := range []string{"victim", "nobody"} {
					if !r.Mine() {
						continue
					}
					target := "/live/" + st + "/" + file + "?_HLS_msn=" + m + "&_HLS_part=" + p
					r10Run(r, dir, "HTTP request: "+target, r10Opt, func(x *r10) {
						ws := []*sResp{x.g.ask(sHLS, target), x.g.ask(sHLS, target)}
						x.g.s.Idle()
						for i := 0; i < 10; i++ {
							x.g.s.Advance(time.Second)
						}
						for _, w := range ws {
							if !w.done {
								x.bad("request", "not answered within ten seconds")
							}
						}
					})
				}
			}
		}
	}
	if !done || r.Expired() {
		r.Capped("damaged HTTP clients")
	}
	r.Note("a WebSocket client's %d bytes with every single byte changed (quick: to 6 values), missing or added, 2- and 4-byte fields at their extremes, cut off at every byte, sent with the upgrade or later; playlist, manifest and segment requests with every combination of odd blocking parameters", len(frames))
}

// TestVerifR10Floods: input of extreme size or depth.
func TestVerifR10Floods(t *testing.T) {
	vs.Loud = true //what is printed is formatted too
	r := v.Start(t)
	defer r.Finish()
	defer sQuiet()()
	dir := filepath.Join(r.Out(), "r10")
	heap := func() uint64 {
		var m runtime.MemStats
		runtime.GC()
		runtime.GC()
		runtime.ReadMemStats(&m)
		return m.HeapAlloc
	}
	//values nested as deep as a message allows
	const most = 0xffffff
	nest := map[string][]byte{
		"object": {3, 0, 0}, "ecma array": {8, 0, 0, 0, 1, 0, 0}, "strict array": {10, 0, 0, 0, 1}, "endless array": {10, 0xff, 0xff, 0xff, 0xff}, "typed object": {16, 0, 1, 'c', 0, 0},
		"flat array": {5}, "flat object": {0, 1, 'k', 5}, "empty keys": {0, 0, 5},
	}
	var kinds []string
	for k := range nest {
		kinds = append(kinds, k)
	}
	sortStrings(kinds)
	heads := map[string]struct {
		typ byte
		b   []byte
	}{
		"command": {20, v.AMF("connect", 1)}, "unknown command": {20, v.AMF("xyzzy", 1, nil)}, "metadata": {18, v.AMF("@setDataFrame", "onMetaData")}, "data": {18, v.AMF("onTextData")},
	}
	var hs []string
	for k := range heads {
		hs = append(hs, k)
	}
	sortStrings(hs)
	for _, kind := range kinds {
		for _, h := range hs {
			for _, size := range []int{3000, 70000, most} {
				if size == most && r.Quick() && (kind == "typed object" || h == "unknown command") {
					continue
				}
				if !r.Mine() {
					continue
				}
				head := heads[h].b
				if strings.HasPrefix(kind, "flat array") {
					head = append(bytes.Clone(head), 10, 0xff, 0xff, 0xff, 0xff)
				} else if !strings.Contains(kind, "array") && kind != "object" && kind != "typed object" {
					head = append(bytes.Clone(head), 3)
				}
				body := append(bytes.Clone(head), bytes.Repeat(nest[kind], (size-len(head))/len(nest[kind]))...)
				r10Run(r, dir, fmt.Sprintf("nested values: %s of %d bytes of %s", h, len(body), kind), r10Opt, func(x *r10) {
					p := x.g.pub("rtmp", 2, "a").(*sRTMP)
					p.prepare()
					x.conns = append(x.conns, p.c)
					vs.Go(p.claim)
					x.g.s.Idle()
					p.k.send(v.SetChunkSize(2, most))
					p.k.enc.Size = most
					p.k.send(v.Msg{Type: heads[h].typ, CSID: 3, SID: 1, Payload: body})
				})
				r.Beat()
			}
		}
	}
	vs.NoLog = true
	//requests that never end, and many beginnings: what is kept must not grow with what is sent
	mb := 1 << 20
	floods := []struct {
		name string
		f    func(x *r10) (sent int)
	}{
		{"RTSP request line without end", func(x *r10) int {
			return r10Pour(x, x.conn(554), nil, bytes.Repeat([]byte{'O'}, mb), 24)
		}},
		{"RTSP headers without end", func(x *r10) int {
			return r10Pour(x, x.conn(554), []byte("OPTIONS rtsp://h/live/a RTSP/1.0\r\nCSeq: 1\r\n"), bytes.Repeat([]byte("X-Filler-Header: some value of some length, which nobody needs\r\n"), mb/64), 24)
		}},
		{"RTSP headers with different names", func(x *r10) int {
			c := x.conn(554)
			c.Write([]byte("OPTIONS rtsp://h/live/a RTSP/1.0\r\nCSeq: 1\r\n"))
			n := 0
			for i := 0; i < 24 && !c.PeerClosed(); i++ {
				var b bytes.Buffer
				for k := 0; k < mb/64; k++ {
					fmt.Fprintf(&b, "X-%08d-%08d: %030d\r\n", i, k, k)
				}
				c.Write(b.Bytes())
				x.g.s.Idle()
				n += b.Len()
			}
			return n
		}},
		{"RTSP header value without end", func(x *r10) int {
			return r10Pour(x, x.conn(554), []byte("OPTIONS rtsp://h/live/a RTSP/1.0\r\nCSeq: "), bytes.Repeat([]byte{'1'}, mb), 24)
		}},
		{"RTSP empty lines", func(x *r10) int { return r10Pour(x, x.conn(554), nil, bytes.Repeat([]byte("\r\n"), mb/2), 24) }},
		{"RTSP interleaved data before any session", func(x *r10) int {
			return r10Pour(x, x.conn(554), nil, bytes.Repeat(v.Cat([]byte{'$', 9, 0x03, 0xfc}, make([]byte, 1020)), mb/1024), 24)
		}},
		{"RTMP messages begun and aborted", func(x *r10) int {
			p := x.g.pub("rtmp", 2, "a").(*sRTMP)
			p.prepare()
			x.conns = append(x.conns, p.c)
			var b []byte
			for cs := 5; cs < 60; cs++ {
				b = append(b, v.Cat([]byte{byte(cs), 0, 0, 0, 0xff, 0xff, 0xff, 9, 1, 0, 0, 0}, make([]byte, 128), []byte{2, 0, 0, 0, 0, 0, 4, 2, 0, 0, 0, 0}, v.U32(uint32(cs)))...)
			}
			return r10Pour(x, p.c, nil, bytes.Repeat(b, mb/len(b)), 24)
		}},
		{"RTMP commands nobody knows", func(x *r10) int {
			p := x.g.pub("rtmp", 2, "a").(*sRTMP)
			p.prepare()
			x.conns = append(x.conns, p.c)
			b := p.k.enc.Bytes(v.Msg{Type: 20, CSID: 3, Payload: v.AMF("xyzzy", 1, nil, strings.Repeat("s", 400))})
			return r10Pour(x, p.c, nil, bytes.Repeat(b, mb/len(b)), 8)
		}},
		{"WebSocket pings", func(x *r10) int {
			x.name = "victim"
			x.join("ws")
			x.name = "a"
			w := x.views[0].(*sFLVView)
			b := w01Encode(9, make([]byte, 100), []byte{1, 2, 3, 4}, 0)
			n := 0
			for i := 0; i < 8; i++ {
				bb := bytes.Repeat(b, mb/len(b))
				w.resp.a.Write(bb)
				x.g.s.Idle()
				w.resp.a.Take()
				n += len(bb)
			}
			return n
		}},
		{"SRT inductions from everywhere", func(x *r10) int { return r10SRTFlood(x, false) }},
		{"SRT conclusions from everywhere", func(x *r10) int { return r10SRTFlood(x, true) }},
		{"RTMP references to a large value", func(x *r10) int {
			p := x.g.pub("rtmp", 2, "a").(*sRTMP)
			p.prepare()
			x.conns = append(x.conns, p.c)
			vs.Go(p.claim)
			x.g.s.Idle()
			p.k.send(v.SetChunkSize(2, most))
			p.k.enc.Size = most
			n := 0
			for _, head := range [][]byte{v.AMF("xyzzy", 1), v.AMF("connect", 1), v.AMF("@setDataFrame", "onMetaData")} {
				var b bytes.Buffer
				b.Write(head)
				b.WriteByte(3)
				for i := range 100000 {
					fmt.Fprintf(&b, "\x00\x06%06d\x02\x00\x0a0123456789", i)
				}
				b.Write([]byte{0, 0, 9})
				b.Write(bytes.Repeat([]byte{7, 0, 0}, 500000))
				typ := byte(20)
				if head[3] == '@' {
					typ = 18
				}
				p.k.send(v.Msg{Type: typ, CSID: 3, SID: 1, Payload: b.Bytes()})
				n += b.Len()
				x.g.s.Idle()
			}
			return 4 * n
		}},
		{"SRT packets far ahead", func(x *r10) int {
			x.udp = true
			p := x.g.pub("srt", 3, "a").(*sSRT)
			p.prepare()
			vs.Go(p.claim)
			x.g.s.Idle()
			n := 0
			for i := 0; i < 8*800; i++ {
				p.seq += 1000
				p.send(v.Fill(i, 1316))
				n += 1316
				if i%100 == 0 {
					x.g.s.Idle()
					p.c.Take()
				}
			}
			x.g.s.Idle()
			p.c.Take()
			return n
		}},
		{"TS packets of a unit that never ends", func(x *r10) int {
			x.udp = true
			p := x.g.pub("srt", 3, "a").(*sSRT)
			p.prepare()
			vs.Go(p.claim)
			x.g.s.Idle()
			b := make([]byte, 7*188)
			n, cc := 0, byte(0)
			for i := 0; n < 64*mb; i++ {
				for k := range 7 {
					q := b[k*188:]
					copy(q, []byte{0x47, 1, 0, 0x10 | cc&15})
					if i == 0 && k == 0 {
						copy(q, v.Cat([]byte{0x47, 0x41, 0, 0x10 | cc&15}, v.PESBytes(0xe0, 90000, -1, []byte{0, 0, 1, 0x65}, false, 0)))
					}
					cc++
				}
				p.send(b)
				n += len(b)
				if i%100 == 0 {
					x.g.s.Idle()
					p.c.Take()
				}
			}
			x.g.s.Idle()
			p.c.Take()
			return n
		}},
		{"RTP packets that start units and never end them", func(x *r10) int {
			c := x.conn(554)
			k := &rtspCli{c: c, wait: x.g.s.Idle}
			sc := s03Scripts()[0]
			k.do("ANNOUNCE", "a", nil, sc.sdp())
			k.do("SETUP", "a/streamid=0", []string{"Transport: RTP/AVP/TCP;unicast;mode=record;interleaved=0-1"}, "")
			k.do("RECORD", "a", nil, "")
			n := 0
			for i := 0; i < 64*700; i++ {
				h := byte(0x05)
				if i == 0 {
					h = 0x85
				}
				b := v.RTP{PT: 96, Seq: uint16(i), TS: 1, SSRC: 1, Payload: v.Cat([]byte{0x7c, h}, v.Fill(i, 1400)), Ext: -1}.Bytes()
				c.Write(v.Cat([]byte{'$', 0, byte(len(b) >> 8), byte(len(b))}, b))
				n += len(b)
				if i%200 == 0 {
					x.g.s.Idle()
				}
			}
			return n
		}},
	}
	for _, fl := range floods {
		if !r.Mine() {
			continue
		}
		fl := fl
		r10Run(r, dir, "flood: "+fl.name, func() sOpt { o := r10Opt; o.srt = []string{"a"}; return o }(), func(x *r10) {
			was := heap()
			sent := fl.f(x)
			x.g.s.Idle()
			if now := heap(); now > was+uint64(max(sent/2, 2<<20)) {
				x.bad("memory:"+fl.name, "%d bytes kept of %d sent", now-was, sent)
			}
		})
	}
	r.Note("values nested up to the 16 MB a message may have (%d kinds, %d places), %d endless inputs of which the server may not keep more than half", len(kinds), len(hs), len(floods))
}

func r10Pour(x *r10, c *vs.Conn, head, b []byte, times int) (n int) {
	c.Write(head)
	for i := 0; i < times && !c.PeerClosed(); i++ {
		c.Write(b)
		x.g.s.Idle()
		c.Take()
		n += len(b)
	}
	return
}

func r10SRTFlood(x *r10, conclude bool) (n int) {
	x.udp = true
	to := &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 9000}
	for i := 0; i < 3000; i++ {
		c, _ := vs.NetListenUDP("udp", nil)
		b := srtCtl(0, 0, srtHS(1, 1000, uint32(i+1), 0))
		c.WriteToUDP(b, to)
		n += len(b)
		x.g.s.Idle()
		for _, a := range c.Take() {
			if conclude && len(a) >= 64 && a[0] == 0x80 && a[1] == 0 {
				d := srtCtl(0, 0, srtHS(-1, 1000, uint32(i+1), binary.BigEndian.Uint32(a[16+28:])))
				c.WriteToUDP(d, to)
				n += len(d)
				x.g.s.Idle()
			}
		}
		c.Close()
	}
	return
}

func sortStrings(s []string) {
	for i := range s {
		for k := i; k > 0 && s[k] < s[k-1]; k-- {
			s[k], s[k-1] = s[k-1], s[k]
		}
	}
}
