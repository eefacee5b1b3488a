//go:build go1.25

package librtmp

import (
	"bufio"
	"bytes"
	"encoding/base64"
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"github.com/sbraveyoung/GGmpeg/libhls"
	v "github.com/sbraveyoung/GGmpeg/verif_vlib"
	vs "github.com/sbraveyoung/GGmpeg/verif_vsched"
)

// A whole server on the network of the controlled scheduler, publishers of every ingest protocol
// whose media is marked, and viewers of the egress protocols.

const (
	sFLV = "127.0.0.1:8080"
	sHLS = "127.0.0.1:8081"
)

type sRig struct {
	s    *vs.Sched
	srv  *server
	dir  string
	bad  func(key, f string, a ...interface{})
	base int
	dial func(host string) (net.Conn, error) //upstreams
}

type sOpt struct {
	hls   libhls.HLS_MODE
	dash  bool
	srt   []string //one endpoint per stream name
	pulls []string //local names; the remote one is up/<i>
	apps  []string //further applications, their files in <dir>-<app>
	urls  []string //where the pulls go, if not there
}

// newSRig starts the server; it returns with the server waiting for clients.
func newSRig(s *vs.Sched, o sOpt, dir string, bad func(key, f string, a ...interface{})) *sRig {
	os.RemoveAll(dir)
	os.MkdirAll(dir, 0o755)
	g := &sRig{s: s, dir: dir, bad: bad}
	g.srv = NewServer(":1935", append([]string{"live"}, o.apps...)...).WithHTTPFlv(":8080").WithRTSP(":554").WithHls(":8081")
	g.srv.SetHlsMode("live", o.hls).SetHlsDir("live", dir)
	for _, a := range o.apps {
		g.srv.SetHlsMode(a, o.hls).SetHlsDir(a, dir+"-"+a)
	}
	if o.dash {
		g.srv.WithDASH()
	}
	for i, n := range o.srt {
		g.srv.WithSRT(fmt.Sprintf(":%d", 9000+i), "live", n)
	}
	for i, n := range o.pulls {
		u := fmt.Sprintf("rtmp://upstream:1935/up/r%d", i)
		if o.urls != nil {
			u = o.urls[i]
		}
		app := "live"
		if a, b, ok := strings.Cut(n, ":"); ok {
			app, n = a, b
		}
		g.srv.WithRTMPPull(u, app, n)
	}
	s.Dial = func(network, addr string) (net.Conn, error) {
		vs.Until(func() bool { return g.dial != nil }, "dial")
		return g.dial(addr)
	}
	vs.Go(func() { g.srv.Handler() })
	s.Idle()
	g.base = len(s.Alive())
	return g
}

func (g *sRig) conn(port int) *vs.Conn {
	c, err := g.s.Connect(port)
	if err != nil {
		panic("verif-internal: " + err.Error())
	}
	return c
}

// noDial makes upstreams unreachable.
func noDial(string) (net.Conn, error) { return nil, fmt.Errorf("connection refused") }

// room reports whether the name is owned.
func (g *sRig) room(name string) bool { return g.srv.apps["live"].Load(name) != nil }

func (g *sRig) files() (out []string) {
	fs, _ := filepath.Glob(filepath.Join(g.dir, "*"))
	for _, f := range fs {
		out = append(out, filepath.Base(f))
	}
	return
}

// ---- marked media

func sPPS(mark int) []byte { return []byte{0x68, byte(mark), 0x3c, 0x80} }
func sSeq(mark int) []byte {
	c := bytes.Clone(vSeq)
	copy(c[len(c)-4:], sPPS(mark))
	return c
}
func sNAL(typ byte, mark, n int) []byte {
	b := bytes.Repeat([]byte{byte(mark)}, n+1)
	b[0] = 0x60 | typ
	return b
}
func sFrame(key bool, mark, n int) []byte {
	h, t := byte(0x27), byte(1)
	if key {
		h, t = 0x17, 5
	}
	x := sNAL(t, mark, n)
	return v.Cat([]byte{h, 1, 0, 0, 0}, v.U32(uint32(len(x))), x)
}

// sMark reads the mark of a tag (-1: none, -2: mixed).
func sMark(m v.Msg) int {
	p := m.Payload
	if m.Type != 9 || len(p) < 7 {
		return -1
	}
	if p[1] == 0 {
		return int(p[len(p)-3])
	}
	mk := int(p[len(p)-1])
	for _, b := range p[10:] {
		if int(b) != mk {
			return -2
		}
	}
	return mk
}

// ---- publishers

const (
	won     = "won"
	refused = "refused"
	silent  = "no answer"
)

// sPub is a publisher of some ingest protocol.
type sPub interface {
	prepare()       //up to the claim, exploration off
	claim()         //in its own goroutine; returns once the answer is there
	result() string //won, refused or no answer
	frame(key bool) //one frame, stamped with the number of frames before
	leave(how int)  //goes away in one of ways() manners
	ways() int
	mark() int
	kind() string
	ended() bool //the server has hung up
}

type sBase struct {
	g    *sRig
	m    int
	name string
	res  string
	n    int
	hdr  bool
	gap  int //milliseconds between frames
}

func (b *sBase) mark() int      { return b.m }
func (b *sBase) result() string { return b.res }
func (b *sBase) at() int        { return 40 + b.n*b.gap }

func (g *sRig) pub(kind string, i int, name string) sPub {
	b := sBase{g: g, m: 0xA0 + i, name: name, res: silent, gap: 40}
	switch kind {
	case "rtmp":
		return &sRTMP{sBase: b}
	case "rtsp":
		return &sRTSP{sBase: b}
	case "srt":
		return &sSRT{sBase: b, port: 9000}
	case "pull":
		return newSPull(b)
	}
	panic("verif-internal: kind " + kind)
}

// sRTMP publishes over RTMP.
type sRTMP struct {
	sBase
	k *cli
	c *vs.Conn
}

func (p *sRTMP) kind() string { return "rtmp" }
func (p *sRTMP) prepare() {
	p.c = p.g.conn(1935)
	p.k = newCli(p.c, p.g.s.Idle, "pub")
	if err := p.k.hello(); err != nil {
		p.g.bad("setup", "%v", err)
	}
	p.k.connect("live")
	p.k.cmd("createStream", 2, nil)
}
func (p *sRTMP) claim() {
	p.k.send(v.Msg{Type: 20, CSID: 3, Payload: v.AMF("publish", 3, nil, p.name, "live")})
	for {
		p.c.Wait()
		b := p.c.Take()
		for _, m := range p.k.feed(b) {
			if name, o, ok := status(m); ok && name == "onStatus" {
				if o.Get("code") == "NetStream.Publish.Start" {
					p.res = won
				} else if o.Get("level") == "error" {
					p.res = refused
				} else {
					p.res = fmt.Sprint(o.Get("code"))
				}
				return
			}
		}
		if len(b) == 0 {
			p.res = refused
			return
		}
	}
}
func (p *sRTMP) frame(key bool) {
	if !p.hdr {
		p.k.send(v.Msg{Type: 9, CSID: 4, SID: 1, TS: 0, Payload: sSeq(p.m)})
		p.hdr = true
	}
	p.k.send(v.Msg{Type: 9, CSID: 4, SID: 1, TS: uint32(p.at()), Payload: sFrame(key, p.m, 30+p.n)})
	p.n++
}
func (p *sRTMP) ways() int { return 4 }
func (p *sRTMP) leave(how int) {
	switch how {
	case 0:
		p.c.Close()
	case 1:
		p.k.send(v.Msg{Type: 20, CSID: 3, Payload: v.AMF("FCUnpublish", 4, nil, p.name)})
	case 2:
		p.k.send(v.Msg{Type: 20, CSID: 3, SID: 1, Payload: v.AMF("deleteStream", 5, nil, 1.0)})
	case 3: //a message of a type that does not exist, then nothing
		p.c.Write([]byte{0x3f, 0, 0})
		p.c.CloseWrite()
	}
}
func (p *sRTMP) ended() bool { return p.c.PeerClosed() }

// sRTSP publishes over RTSP, interleaved.
type sRTSP struct {
	sBase
	k   *rtspCli
	c   *vs.Conn
	seq uint16
}

func (p *sRTSP) kind() string { return "rtsp" }
func (p *sRTSP) prepare() {
	p.c = p.g.conn(554)
	p.k = &rtspCli{c: p.c, wait: p.wait}
}

// wait returns when something has arrived.
func (p *sRTSP) wait() {
	if !p.c.PeerClosed() {
		p.c.Wait()
	}
}
func (p *sRTSP) sdp() string {
	return "v=0\r\no=- 0 0 IN IP4 127.0.0.1\r\ns=t\r\nc=IN IP4 127.0.0.1\r\nt=0 0\r\nm=video 0 RTP/AVP 96\r\na=rtpmap:96 H264/90000\r\na=fmtp:96 packetization-mode=1;sprop-parameter-sets=" +
		base64.StdEncoding.EncodeToString(avcC[8:16]) + "," + base64.StdEncoding.EncodeToString(sPPS(p.m)) + "\r\na=control:streamid=0\r\n"
}
func (p *sRTSP) claim() {
	_, err := p.k.do("ANNOUNCE", p.name, nil, p.sdp())
	if err != nil {
		p.res = refused
		return
	}
	p.res = won
	if _, err = p.k.do("SETUP", p.name+"/streamid=0", []string{"Transport: RTP/AVP/TCP;unicast;mode=record;interleaved=0-1"}, ""); err == nil {
		_, err = p.k.do("RECORD", p.name, nil, "")
	}
	if err != nil {
		p.g.bad("rtsp-after-announce", "the owner was refused: %v", err)
	}
}
func (p *sRTSP) frame(key bool) {
	t := byte(1)
	if key {
		t = 5
	}
	for _, x := range v.AVCPayloads([][]byte{sNAL(t, p.m, 30+p.n)}, 1400, nil) {
		b := v.RTP{PT: 96, Marker: true, Seq: p.seq, TS: uint32(p.at() * 90), SSRC: uint32(p.m), Payload: x, Ext: -1}.Bytes()
		p.c.Write(v.Cat([]byte{'$', 0, byte(len(b) >> 8), byte(len(b))}, b))
		p.seq++
	}
	p.n++
}
func (p *sRTSP) ways() int { return 3 }
func (p *sRTSP) leave(how int) {
	switch how {
	case 0:
		p.c.Close()
	case 1:
		p.c.Write(p.k.text("TEARDOWN", p.name, nil, ""))
	case 2:
		p.c.Write([]byte("ANNOUN"))
		p.c.CloseWrite()
	}
}
func (p *sRTSP) ended() bool { return p.c.PeerClosed() }

// sSRT publishes over SRT.
type sSRT struct {
	sBase
	port    int
	c       *vs.NetUDPConn
	our     uint32
	seq     uint32
	w       v.TSWriter
	refuse  bool
	dropped bool
	psi     bool
}

func (p *sSRT) kind() string { return "srt" }
func (p *sSRT) to() *net.UDPAddr {
	return &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: p.port}
}
func (p *sSRT) recv() {
	for _, b := range p.c.Take() {
		if len(b) >= 16 && b[0] == 0x80 && b[1] == 5 {
			p.dropped = true
		}
	}
}
func (p *sSRT) prepare() {
	p.c, _ = vs.NetListenUDP("udp", nil)
	ask := func(typ int32, cookie uint32) []byte {
		p.c.WriteToUDP(srtCtl(0, 0, srtHS(typ, 1000, uint32(p.m), cookie)), p.to())
		p.g.s.Idle()
		for _, b := range p.c.Take() {
			if len(b) >= 64 && b[0] == 0x80 && b[1] == 0 {
				return b[16:]
			}
		}
		return nil
	}
	a := ask(1, 0)
	if a == nil {
		p.g.bad("setup", "no SRT induction")
		return
	}
	a = ask(-1, binary.BigEndian.Uint32(a[28:]))
	if a == nil {
		p.g.bad("setup", "no SRT conclusion")
		return
	}
	if int32(binary.BigEndian.Uint32(a[20:])) != -1 {
		p.refuse = true //the endpoint has a caller already
	}
	p.our, p.seq = binary.BigEndian.Uint32(a[24:]), 1000
}
func (p *sSRT) send(b []byte) {
	p.c.WriteToUDP(v.Cat(v.U32(p.seq&0x7fffffff), v.U32(0xc0000000|p.seq), v.U32(9), v.U32(p.our), b), p.to())
	p.seq++
}
func (p *sSRT) claim() {
	if p.refuse {
		p.res = refused
		return
	}
	p.w = v.TSWriter{}
	p.w.Section(0, v.PATSection([][2]uint16{{1, 0x1000}}, 0), 0)
	p.w.Section(0x1000, v.PMTSection(1, 0x101, 0, nil, []v.ESInfo{{Type: 0x1b, PID: 0x101}}), 0)
	p.send(p.flush())
	vs.Until(p.c.Pending, "SRT answer")
	p.recv()
	p.res = won
	if p.dropped {
		p.res = refused
	}
}
func (p *sSRT) flush() []byte { b := p.w.Out; p.w.Out = nil; return b }
func (p *sSRT) frame(key bool) {
	t := byte(1)
	var ns [][]byte
	if key {
		t = 5
		ns = [][]byte{avcC[8:16], sPPS(p.m)}
	}
	ns = append(ns, sNAL(t, p.m, 30+p.n))
	var b []byte
	for _, x := range ns {
		b = append(append(b, 0, 0, 0, 1), x...)
	}
	p.w.PES(0x101, v.PESBytes(0xe0, int64(p.at()*90), -1, b, true, 0), key, -1)
	p.send(p.flush())
	p.n++
}
func (p *sSRT) ways() int { return 2 }
func (p *sSRT) leave(how int) {
	if how == 0 {
		p.c.WriteToUDP(srtCtl(5, p.our, make([]byte, 4)), p.to())
	} //else: falls silent; the server notices after a while
}
func (p *sSRT) ended() bool { p.recv(); return p.dropped }

// sPull is the upstream of a pull that the server is configured with (as its first one): the claim
// is the moment the upstream can be reached.
type sPull struct {
	sBase
	open  bool
	c     *vs.Conn
	calls int
	enc   *v.ChunkWriter
	keep  []byte
}

func newSPull(b sBase) *sPull {
	p := &sPull{sBase: b, enc: v.NewChunkWriter(128)}
	b.g.dial = func(string) (net.Conn, error) {
		if p.calls > 0 {
			return nil, fmt.Errorf("connection refused")
		}
		vs.Until(func() bool { return p.open }, "dial")
		p.calls++
		x, y := vs.Pipe()
		p.c = x
		return p.g.s.End(y), nil
	}
	return p
}

func (p *sPull) kind() string { return "pull" }
func (p *sPull) prepare()     {}

// sUpstream is what an upstream says before the media: its side of the handshake, the answers to
// connect, createStream and play.
func sUpstream(enc *v.ChunkWriter, c1 []byte) []byte {
	b := v.Cat([]byte{3}, make([]byte, 1536), c1)
	b = append(b, enc.Bytes(v.Msg{Type: 20, CSID: 3, Payload: v.AMF("_result", 1, v.Obj{{K: "fmsVer", V: "FMS/3,0,1,123"}}, v.Obj{{K: "level", V: "status"}, {K: "code", V: "NetConnection.Connect.Success"}})})...)
	b = append(b, enc.Bytes(v.Msg{Type: 20, CSID: 3, Payload: v.AMF("_result", 2, nil, 1)})...)
	b = append(b, enc.Bytes(v.Msg{Type: 20, CSID: 5, SID: 1, Payload: v.AMF("onStatus", 0, nil, v.Obj{{K: "level", V: "status"}, {K: "code", V: "NetStream.Play.Start"}})})...)
	return b
}
func (p *sPull) claim() {
	p.open = true
	vs.Until(func() bool { return p.c != nil }, "being pulled")
	p.c.Wait()
	b := p.c.Take()
	if len(b) == 0 {
		p.res = refused
		return
	}
	p.res = won
	for len(b) < 1537 {
		p.c.Wait()
		x := p.c.Take()
		if len(x) == 0 {
			p.g.bad("pull", "hung up during the handshake")
			return
		}
		b = append(b, x...)
	}
	p.c.Write(sUpstream(p.enc, b[1:1537]))
}
func (p *sPull) frame(key bool) {
	if !p.hdr {
		p.c.Write(p.enc.Bytes(v.Msg{Type: 9, CSID: 6, SID: 1, TS: 0, Payload: sSeq(p.m)}))
		p.hdr = true
	}
	p.c.Write(p.enc.Bytes(v.Msg{Type: 9, CSID: 6, SID: 1, TS: uint32(p.at()), Payload: sFrame(key, p.m, 30+p.n)}))
	p.n++
}
func (p *sPull) ways() int { return 2 }
func (p *sPull) leave(how int) {
	if p.c == nil {
		return
	}
	if how == 0 {
		p.c.Close()
	} else {
		p.c.Write([]byte{0x3f, 0})
		p.c.CloseWrite()
	}
}
func (p *sPull) ended() bool { return p.c != nil && p.c.PeerClosed() }

// ---- viewers

type sView interface {
	join()          //in its own goroutine or with exploration off (then Idle)
	tags() []v.Msg  //received so far
	joined() bool   //the stream was found
	released() bool //the server has finished with it
	leave()
	kind() string
}

func (g *sRig) view(kind, name string) sView {
	switch kind {
	case "flv":
		return &sFLVView{g: g, name: name}
	case "ws":
		return &sFLVView{g: g, name: name, ws: true}
	case "rtmp":
		return &sRTMPView{g: g, name: name}
	case "rtsp":
		return &sRTSPView{g: g, name: name}
	}
	panic("verif-internal: viewer " + kind)
}

// sResp is the HTTP side of a request handled in the run.
type sResp struct {
	h      http.Header
	code   int
	sink   io.Writer
	gone   bool
	done   bool
	body   bytes.Buffer
	pend   []byte //written, and not on its way yet
	err    error
	a, b   *vs.Conn //after hijacking
	hijack bool
	early  []byte //what the client sent behind its request
}

func (w *sResp) Header() http.Header { return w.h }
func (w *sResp) WriteHeader(c int) {
	if w.code == 0 {
		w.code = c
	}
}
func (w *sResp) Write(b []byte) (int, error) {
	w.WriteHeader(200)
	vs.Step()
	if w.gone {
		return 0, syscall.EPIPE
	}
	if w.err != nil {
		return 0, w.err
	}
	//net/http keeps what is written until it is flushed, its buffers are full or the handler returns
	w.pend = append(w.pend, b...)
	if len(w.pend) > 6144 {
		w.Flush()
	}
	return len(b), w.err
}
func (w *sResp) Flush() {
	b := w.pend
	w.pend = nil
	if len(b) == 0 || w.err != nil || w.gone {
		return
	}
	if w.sink != nil {
		_, w.err = w.sink.Write(b)
		return
	}
	w.body.Write(b)
}

// end counts the connection that was taken over among the server's.
func (w *sResp) end() {
	if s := vs.Current(); s != nil {
		s.End(w.b)
	}
}
func (w *sResp) Hijack() (net.Conn, *bufio.ReadWriter, error) {
	if !w.hijack {
		return nil, nil, fmt.Errorf("not a connection")
	}
	w.code = 101
	w.end()
	br := bufio.NewReader(w.b)
	if len(w.early) > 0 {
		br = bufio.NewReader(io.MultiReader(bytes.NewReader(w.early), w.b))
		br.Peek(1)
	}
	return w.b, bufio.NewReadWriter(br, bufio.NewWriter(w.b)), nil
}

// serve handles a request as net/http would: a panic ends the request.
func (g *sRig) serve(addr string, w http.ResponseWriter, req *http.Request) (panicked interface{}) {
	defer func() {
		panicked = recover()
		if q, ok := w.(*sResp); ok && panicked == nil {
			q.Flush()
		}
	}()
	g.s.Handler[addr].ServeHTTP(w, req)
	return nil
}

// get performs a request.
func (g *sRig) get(addr, target string) *sResp {
	w := g.ask(addr, target)
	g.s.Idle()
	return w
}

// ask starts a request.
func (g *sRig) ask(addr, target string) *sResp {
	w := &sResp{h: http.Header{}}
	vs.Go(func() {
		if x := g.serve(addr, w, sRequest(target)); x != nil {
			g.bad("http-panic", "GET %q: %v", target, x)
		}
		w.done = true
	})
	return w
}

// advance lets time pass; SRT callers that are not silent keep their sessions alive.
func (g *sRig) advance(seconds int, pubs ...sPub) {
	for ; seconds > 0; seconds-- {
		for _, p := range pubs {
			if q, ok := p.(*sSRT); ok {
				q.c.WriteToUDP(srtCtl(1, q.our, make([]byte, 4)), q.to())
			}
		}
		g.s.Advance(time.Second)
	}
}

func sRequest(target string) *http.Request {
	req := httptest.NewRequest("GET", "/", nil)
	u, err := url.ParseRequestURI(target) //as net/http does
	if err != nil {
		panic("verif-internal: " + err.Error())
	}
	req.URL, req.RequestURI, req.Host = u, target, "h"
	return req
}

type sFLVView struct {
	g    *sRig
	name string
	ws   bool
	sink flvSink
	resp *sResp
	done bool
	raw  []byte
	shut bool //a close frame came
}

func (x *sFLVView) kind() string {
	if x.ws {
		return "ws"
	}
	return "flv"
}
func (x *sFLVView) join() {
	x.resp = &sResp{h: http.Header{}, sink: &x.sink}
	req := sRequest("/live/" + x.name + ".flv")
	if x.ws {
		x.resp.a, x.resp.b = vs.Pipe()
		x.resp.hijack = true
		req.Header.Set("Upgrade", "websocket")
		req.Header.Set("Connection", "Upgrade")
		req.Header.Set("Sec-WebSocket-Key", "dGhlIHNhbXBsZSBub25jZQ==")
		req.Header.Set("Sec-WebSocket-Version", "13")
	}
	vs.Go(func() {
		if e := x.g.serve(sFLV, x.resp, req); e != nil {
			x.g.bad("http-panic", "%v", e)
		}
		x.done = true
	})
}
func (x *sFLVView) tags() []v.Msg {
	if x.ws && x.resp != nil && x.resp.a != nil {
		x.raw = append(x.raw, x.resp.a.Take()...)
		if i := bytes.Index(x.raw, []byte("\r\n\r\n")); bytes.HasPrefix(x.raw, []byte("HTTP/1.1 101")) && i > 0 {
			x.raw = x.raw[i+4:]
		}
		for len(x.raw) >= 2 {
			n, h := int(x.raw[1]&0x7f), 2
			if n == 126 && len(x.raw) >= 4 {
				n, h = int(binary.BigEndian.Uint16(x.raw[2:])), 4
			}
			if len(x.raw) < h+n {
				break
			}
			switch x.raw[0] {
			case 0x82:
				x.sink.Write(x.raw[h : h+n])
			case 0x88:
				x.shut = true
			case 0x8a:
			default:
				x.g.bad("ws-frame", "frame header %x", x.raw[:2])
			}
			x.raw = x.raw[h+n:]
		}
	}
	if x.sink.err != "" {
		x.g.bad("flv", "%s", x.sink.err)
	}
	return x.sink.tags
}
func (x *sFLVView) joined() bool { return x.resp.code == 200 || x.resp.code == 101 }
func (x *sFLVView) released() bool {
	return x.done && (!x.ws || !x.joined() || x.resp.a.PeerClosed())
}
func (x *sFLVView) leave() {
	x.resp.gone = true
	if x.ws {
		x.resp.a.Close()
	}
}

type sRTMPView struct {
	g     *sRig
	name  string
	k     *cli
	c     *vs.Conn
	got   []v.Msg
	code  string
	start bool
	over  bool
}

func (x *sRTMPView) kind() string { return "rtmp" }

// prepare gets ready for the play command.
func (x *sRTMPView) prepare() {
	x.c = x.g.conn(1935)
	x.k = newCli(x.c, x.g.s.Idle, "play")
	if err := x.k.hello(); err != nil {
		x.g.bad("setup", "%v", err)
	}
	x.k.connect("live")
	x.k.cmd("createStream", 2, nil)
	x.k.got = nil
}
func (x *sRTMPView) join() {
	if x.k == nil {
		x.prepare()
	}
	x.k.send(v.Msg{Type: 20, CSID: 3, Payload: v.AMF("play", 3, nil, x.name)})
}
func (x *sRTMPView) tags() []v.Msg {
	x.k.feed(x.c.Take())
	for _, m := range x.k.got {
		if m.Type == 8 || m.Type == 9 || m.Type == 18 {
			x.got = append(x.got, m)
		}
		if m.Type == 4 && len(m.Payload) >= 2 && m.Payload[0] == 0 && m.Payload[1] == 1 {
			x.over = true //StreamEOF
		}
		if n, o, ok := status(m); ok && n == "onStatus" {
			x.code, _ = o.Get("code").(string)
			x.start = x.start || x.code == "NetStream.Play.Start"
			switch x.code {
			case "NetStream.Play.UnpublishNotify", "NetStream.Play.Stop", "NetStream.Play.Complete":
				x.over = true
			}
		}
	}
	x.k.got = nil
	return x.got
}
func (x *sRTMPView) joined() bool { x.tags(); return x.start }

// released: the viewer is told that the stream has ended, or its connection is closed.
func (x *sRTMPView) released() bool {
	return !x.joined() || x.over || x.c.PeerClosed()
}
func (x *sRTMPView) leave() { x.c.Close() }

type sRTSPView struct {
	g    *sRig
	name string
	k    *rtspCli
	c    *vs.Conn
	err  error
	done bool
	pps  []byte
	out  []v.Msg
	pend [][]byte
}

func (x *sRTSPView) kind() string { return "rtsp" }
func (x *sRTSPView) join() {
	if x.c != nil {
		x.c.Close()
	}
	x.c = x.g.conn(554)
	x.k = &rtspCli{c: x.c, wait: func() {
		if !x.c.PeerClosed() {
			x.c.Wait()
		}
	}}
	vs.Go(func() {
		rep, err := x.k.do("DESCRIBE", x.name, nil, "")
		if x.err = err; err != nil {
			return
		}
		_, ms, err := v.UnSDP(rep.Body)
		if err != nil {
			x.g.bad("sdp", "%v", err)
		}
		track := ""
		for _, m := range ms {
			if m.Kind == "video" {
				track = m.Control
				if sets, err := m.Base64("sprop-parameter-sets"); err == nil && len(sets) == 2 {
					x.pps = sets[1]
				}
			}
		}
		if track == "" {
			x.err = fmt.Errorf("no video yet")
			return
		}
		if _, x.err = x.k.do("SETUP", x.name+"/"+track[strings.LastIndex(track, "/")+1:], []string{"Transport: RTP/AVP/TCP;unicast;interleaved=0-1"}, ""); x.err != nil {
			return
		}
		if _, x.err = x.k.do("PLAY", x.name, nil, ""); x.err == nil {
			x.done = true
		}
	})
}

// tags rebuilds video tags from the packets, each access unit one.
func (x *sRTSPView) tags() []v.Msg {
	if x.k == nil {
		return nil
	}
	x.k.take()
	for _, f := range x.k.frames {
		if f.ch != 0 {
			continue
		}
		p, err := v.UnRTP(f.body)
		if err != nil {
			x.g.bad("rtp", "%v", err)
			continue
		}
		x.pend = append(x.pend, p.Payload)
		if !p.Marker {
			continue
		}
		ns, err := v.UnAVC(x.pend)
		x.pend = nil
		if err != nil {
			x.g.bad("rtp", "%v", err)
			continue
		}
		for _, n := range ns {
			switch n[0] & 31 {
			case 7:
			case 8:
				x.out = append(x.out, v.Msg{Type: 9, TS: p.TS / 90, Payload: v.Cat([]byte{0x17, 0, 0, 0, 0}, n)})
			default:
				h := byte(0x27)
				if n[0]&31 == 5 {
					h = 0x17
				}
				x.out = append(x.out, v.Msg{Type: 9, TS: p.TS / 90, Payload: v.Cat([]byte{h, 1, 0, 0, 0}, v.U32(uint32(len(n))), n)})
			}
		}
	}
	x.k.frames = nil
	return x.out
}
func (x *sRTSPView) joined() bool   { return x.done }
func (x *sRTSPView) released() bool { return !x.done || x.c.PeerClosed() }
func (x *sRTSPView) leave()         { x.c.Close() }

// only checks that every marked tag carries one mark, and returns it (-1: nothing).
func (g *sRig) only(who string, tags []v.Msg) int {
	mk := -1
	for i, m := range tags {
		x := sMark(m)
		if x == -1 {
			continue
		}
		if mk == -1 {
			mk = x
		}
		if x != mk {
			g.bad("mixed", "%s: tag %d carries mark %x after %x", who, i, x, mk)
			return mk
		}
	}
	return mk
}

// last counts the frames with a mark.
func sFrames(tags []v.Msg, mark int) (n int) {
	for _, m := range tags {
		if sMark(m) == mark && m.Payload[1] == 1 {
			n++
		}
	}
	return
}

// quiet redirects the standard output of the process, which the server fills.
func sQuiet() func() {
	old := os.Stdout
	if f, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		f.Close() //writes fail at once, which nobody looks at
		os.Stdout = f
	}
	return func() { os.Stdout = old }
}
