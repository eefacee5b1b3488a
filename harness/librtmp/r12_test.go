//go:build go1.25

package librtmp

import (
	"fmt"
	"net"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"testing"
	"time"

	"github.com/sbraveyoung/GGmpeg/libhls"
	v "github.com/sbraveyoung/GGmpeg/verif_vlib"
	vs "github.com/sbraveyoung/GGmpeg/verif_vsched"
)

// R12: nothing accumulates. Streams and sessions are repeated, and what the server keeps is measured.

func r12Heap() int {
	var m runtime.MemStats
	runtime.GC()
	runtime.GC()
	runtime.ReadMemStats(&m)
	return int(m.HeapAlloc)
}

func r12Files(dir string) (n int) {
	fs, _ := filepath.Glob(filepath.Join(dir, "*"))
	for _, f := range fs {
		if st, err := os.Stat(f); err == nil {
			n += int(st.Size())
		}
	}
	return
}

// r12Sink keeps what a joiner is told of each tag, but not the tags.
type r12Sink struct {
	flvSink
	first, last uint32 //times of audio
	audio       int
	video       int
	key         bool //the first video is a key frame
	size        int
}

func (s *r12Sink) Write(b []byte) (int, error) {
	s.size += len(b)
	n, err := s.flvSink.Write(b)
	for _, m := range s.tags {
		switch {
		case m.Type == 8 && len(m.Payload) > 1 && m.Payload[1] == 1:
			if s.audio == 0 {
				s.first = m.TS
			}
			s.last = m.TS
			s.audio++
		case m.Type == 9 && len(m.Payload) > 1 && m.Payload[1] == 1:
			if s.video == 0 {
				s.key = m.Payload[0]>>4 == 1
			}
			s.video++
		}
	}
	s.tags = nil
	return n, err
}

// r12Join lets a viewer join that forgets what it has seen.
func r12Join(g *sRig, name string) (*r12Sink, *sResp) {
	s := &r12Sink{}
	w := &sResp{h: map[string][]string{}, sink: s}
	vs.Go(func() { g.serve(sFLV, w, sRequest("/live/"+name+".flv")) })
	g.s.Idle()
	return s, w
}

// what a publisher repeats; the letters before the dot once
const r12Letters = "KIAaHMDG"

type r12Feed struct {
	p    *sRTMP
	n    int
	step int
	size int
	sent int
}

func (f *r12Feed) send(c byte) {
	f.n++
	ts := uint32(40 + f.n*f.step)
	var m v.Msg
	fill := func(h ...byte) []byte { return append(h, make([]byte, f.size)...) }
	switch c {
	case 'h':
		m = v.Msg{Type: 9, Payload: vSeq}
	case 'b':
		m = v.Msg{Type: 8, Payload: aSeq}
	case 'K':
		m = v.Msg{Type: 9, Payload: v.Cat([]byte{0x17, 1, 0, 0, 0}, v.U32(uint32(f.size+1)), fill(0x65))}
	case 'I':
		m = v.Msg{Type: 9, Payload: v.Cat([]byte{0x27, 1, 0, 0, 0}, v.U32(uint32(f.size+1)), fill(0x61))}
	case 'A':
		m = v.Msg{Type: 8, Payload: fill(0xaf, 1)}
	case 'a': //another header every time
		m = v.Msg{Type: 8, Payload: fill(0xaf, 0, 0x12, 0x10, byte(f.n))}
	case 'H':
		m = v.Msg{Type: 9, Payload: append(sSeq(f.n), make([]byte, f.size)...)}
	case 'M':
		m = v.Msg{Type: 18, Payload: v.AMF("@setDataFrame", "onMetaData", v.Obj{{K: "n", V: float64(f.n)}, {K: "x", V: strings.Repeat("x", min(f.size, 60000))}})}
	case 'D':
		m = v.Msg{Type: 18, Payload: v.AMF("onTextData", v.Obj{{K: "n", V: float64(f.n)}, {K: "x", V: strings.Repeat("x", min(f.size, 60000))}})}
	case 'G':
		sub := func(typ byte, at uint32, b []byte) []byte {
			h := []byte{typ, byte(len(b) >> 16), byte(len(b) >> 8), byte(len(b)), byte(at >> 16), byte(at >> 8), byte(at), byte(at >> 24), 0, 0, 0}
			return v.Cat(h, b, v.U32(uint32(len(b)+11)))
		}
		m = v.Msg{Type: 22, Payload: v.Cat(sub(8, ts, fill(0xaf, 1)), sub(9, ts+5, v.Cat([]byte{0x27, 1, 0, 0, 0}, v.U32(uint32(f.size+1)), fill(0x61))))}
	}
	m.CSID, m.SID, m.TS = 4, 1, ts
	f.p.k.send(m)
	f.sent += len(m.Payload)
	f.p.g.s.Idle()
}

// TestVerifR12Streams: every periodic stream.
func TestVerifR12Streams(t *testing.T) {
	r := v.Start(t)
	defer r.Finish()
	defer sQuiet()()
	vs.NoLog = true
	dir := filepath.Join(r.Out(), "r12")
	const mb = 1 << 20
	run := func(prefix, period string, step, size int) {
		desc := fmt.Sprintf("stream %s then %s for ever, %d ms apart, %d bytes", prefix, period, step, size)
		r.Journal("R12 %s", desc)
		bad := func(key, f string, a ...interface{}) {
			r.Violation("r12:"+key, desc, "%s: %s", desc, fmt.Sprintf(f, a...))
		}
		class := "bounded"
		s := vs.Run(&v.Ctx{}, func(s *vs.Sched) {
			s.Explore(false)
			s.Limit(1 << 40)
			g := newSRig(s, sOpt{hls: libhls.IMMEDIATELY, dash: true}, dir, bad)
			p := g.pub("rtmp", 1, "a").(*sRTMP)
			p.prepare()
			p.k.send(v.SetChunkSize(2, 1<<20))
			p.k.enc.Size = 1 << 20
			vs.Go(p.claim)
			s.Idle()
			f := &r12Feed{p: p, step: step, size: size}
			for i := range prefix {
				f.send(prefix[i])
			}
			//who keeps up
			sink, resp := r12Join(g, "a")
			flow := func(bytes, count int) {
				for from, k := f.sent, 0; f.sent < from+bytes || k < count; k++ {
					f.send(period[k%len(period)])
					if k%256 == 0 {
						s.Forget()
						r.Beat()
					}
				}
				for s.Idle(); f.n%len(period) != 0; f.n++ {
				}
				s.Forget()
				p.k.got = nil
				p.c.Take()
			}
			kept := func() (int, int) { return r12Heap(), r12Files(dir) }
			flow(0, 640) //the playlist's window is full
			h0, d0 := kept()
			from := f.sent
			flow(0, 320)
			h1, d1 := kept()
			//a stream that is kept whole may be cut late
			if grown := f.sent - from; h1-h0 > grown/3 || d1-d0 > grown/3 {
				class = "cut"
				flow(260*mb, 0)
				h0, d0 = kept()
				from = f.sent
				const more = 160 * mb
				flow(more, 0)
				h1, d1 = kept()
				if h1 > 240*mb {
					bad("memory", "%d MB in memory after %d MB", h1/mb, f.sent/mb)
				}
				if step > 0 && d1 > 420*mb {
					bad("disk", "%d MB in files after %d MB", d1/mb, f.sent/mb)
				}
				if h1-h0 > more/2 || step > 0 && d1-d0 > more/2 {
					bad("growth", "memory %d -> %d MB, files %d -> %d MB", h0/mb, h1/mb, d0/mb, d1/mb)
				}
			}
			if resp.gone || resp.done || sink.size == 0 {
				bad("reader", "the viewer that keeps up gets %d bytes, ended %v", sink.size, resp.done)
			}
			//who joins late
			late, lresp := r12Join(g, "a")
			if late.size > 150*mb {
				bad("join", "a joining viewer is sent %d MB of the past", late.size/mb)
			}
			video := strings.ContainsAny(prefix+period, "KIG")
			if step > 0 && !video && late.audio > 0 && (late.last-late.first > 5000 || uint32(40+f.n*step)-late.last > 5000) {
				bad("past", "a joining viewer is sent %d ms of audio", late.last-late.first)
			}
			if class == "cut" && late.video > 0 && !late.key {
				bad("blind", "a joining viewer first gets a picture that is no key frame")
			}
			//and the stream can be picked up
			before := late.video
			f.send('h')
			f.send('K')
			if late.video != before+1 || before == 0 && !late.key {
				bad("resume", "%d video frames before the next key frame, %d with it", before, late.video)
			}
			resp.gone, lresp.gone = true, true
			p.leave(0)
			s.Idle()
			g.s.Advance(time.Second)
			s.Forget()
			if fs := g.files(); len(fs) > 0 {
				bad("files", "left behind: %v", fs)
			}
		})
		if s.Crash != nil {
			bad("crash:"+s.Crash.Where, "%s\n%s", s.Crash.Value, s.Crash.Stack)
		}
		if s.Dead != "" {
			bad("hang", "%s", s.Dead)
		}
		r.Eval(class, desc)
		s = nil
		r.Beat()
	}
	depth := r.Pick(2, 3)
	done := true
	for n := 1; n <= depth && done; n++ {
		done = v.Sequences(len(r12Letters), n, n, func(s []int) bool {
			period := ""
			for _, i := range s {
				period += string(r12Letters[i])
			}
			//one of the rotations of a period is enough, and none that is a shorter one repeated
			for i := 1; i < n; i++ {
				if p := period[i:] + period[:i]; p <= period {
					return true
				}
			}
			for _, prefix := range []string{"", "hb", "hbK"} {
				for _, step := range []int{40, 0} {
					if r.Quick() && n == 2 && (prefix == "" || step == 0 && prefix == "hb") {
						continue
					}
					if r.Mine() {
						run(prefix, period, step, 60000)
					}
				}
			}
			return !r.Expired()
		})
	}
	if !done {
		r.Capped("periodic streams")
	}
	r.Note("every periodic RTMP stream with a period (up to rotation) of up to %d of %d kinds of message (key frames, frames, audio, changed headers and metadata, data, aggregates), time advancing or not; where a few dozen periods are kept whole it goes on for 420 MB", depth, len(r12Letters))
}

// TestVerifR12Sessions: every short cycle of sessions.
func TestVerifR12Sessions(t *testing.T) {
	r := v.Start(t)
	defer r.Finish()
	defer sQuiet()()
	vs.NoLog = true
	dir := filepath.Join(r.Out(), "r12")
	names := r12Ops()
	run := func(ops []string) {
		desc := fmt.Sprintf("for ever: %s", strings.Join(ops, ", "))
		r.Journal("R12 %s", desc)
		bad := func(key, f string, a ...interface{}) {
			if key == "http-panic" {
				return
			}
			r.Violation("r12:"+key, desc, "%s: %s", desc, fmt.Sprintf(f, a...))
		}
		s := vs.Run(&v.Ctx{}, func(s *vs.Sched) {
			s.Explore(false)
			s.Limit(1 << 40)
			g := newSRig(s, sOpt{hls: libhls.IMMEDIATELY, dash: true, srt: []string{"s"}, pulls: []string{"u"}}, dir, bad)
			g.dial = noDial
			live := g.pub("rtmp", 9, "live")
			live.prepare()
			vs.Go(live.claim)
			s.Idle()
			live.frame(true)
			s.Idle()
			base, ends, udp, open := len(s.Alive()), s.Ends(), s.UDPOpen(), len(s.Open())
			x := &r12Rig{g: g, live: live}
			cycles := func(n int) int {
				for range n {
					for _, o := range ops {
						x.n++
						x.do(o)
					}
					x.end()
					s.Idle()
					if x.slow {
						for range 8 {
							g.s.Advance(time.Second)
						}
					}
					live.frame(true)
					s.Idle()
					s.Forget()
					l := live.(*sRTMP)
					l.k.got = nil
					l.c.Take()
				}
				r.Beat()
				return r12Heap()
			}
			cycles(10)
			h := cycles(8)
			per := 1 << 30
			for i := 0; i < 3 || per > 64 && i < 16; i++ { //a map may have grown: not every time
				n := cycles(24)
				per, h = min(per, (n-h)/24), n
				if a := s.Alive(); len(a) != base {
					bad("goroutines", "%d before, %d later: %v", base, len(a), a)
				}
				if n := s.Ends(); n != ends {
					bad("connections", "%d not closed", n-ends)
				}
				if n := s.UDPOpen(); n != udp {
					bad("sockets", "%d UDP sockets before, %d later", udp, n)
				}
				if o := s.Open(); len(o) > open {
					bad("open", "%v not closed", o)
				}
			}
			if per > 64 {
				bad("memory", "%d bytes kept of every cycle", per)
			}
			r.Count(fmt.Sprintf("up to %d bytes a cycle", (max(per, 0)/16+1)*16), 1)
			for i := -1; i <= x.n; i++ {
				name := map[int]string{-1: "s", 0: "u"}[i]
				if i > 0 {
					name = fmt.Sprintf("n%d", i)
				}
				if g.room(name) {
					bad("names", "the name %s is still taken", name)
				}
			}
			for _, f := range g.files() {
				if !strings.HasPrefix(f, "live") {
					bad("files", "%s is left behind", f)
				}
			}
		})
		if s.Crash != nil {
			bad("crash:"+s.Crash.Where, "%s\n%s", s.Crash.Value, s.Crash.Stack)
		}
		if s.Dead != "" {
			bad("hang", "%s", s.Dead)
		}
		r.Eval(fmt.Sprintf("%d sessions", len(ops)), desc)
	}
	depth := r.Pick(2, 3)
	done := true
	for n := 1; n <= depth && done; n++ {
		done = v.Sequences(len(names), n, n, func(s []int) bool {
			if r.Mine() {
				var ops []string
				for _, i := range s {
					ops = append(ops, names[i])
				}
				run(ops)
			}
			return !r.Expired()
		})
	}
	if !done {
		r.Capped("cycles of sessions")
	}
	r.Note("every sequence of up to %d of %d kinds of session, overlapping, each with names of its own, repeated 90 times and more", depth, len(names))
}

func r12Ops() (out []string) {
	for _, k := range []string{"rtmp", "rtsp", "srt"} {
		out = append(out, k+" publishes")
	}
	for _, k := range []string{"flv", "ws", "rtmp", "rtsp"} {
		out = append(out, k+" views", k+" views the cycle's stream", k+" asks for nobody")
	}
	return append(out, "pull", "hls", "playlists", "404s", "rtmp aborts", "rtsp aborts", "rtsp announces", "rtsp udp views", "rtsp udp publishes", "rtsp sets up again", "pull breaks", "pull of a taken name", "srt aborts", "srt falls silent", "taken name", "many commands", "ws pings")
}

// r12Rig is one cycle's clients.
type r12Rig struct {
	g     *sRig
	live  sPub
	n     int
	conns []*vs.Conn
	views []sView
	pubs  []sPub
	udps  []*vs.NetUDPConn
	slow  bool
	name  string
}

func (x *r12Rig) conn(port int) *vs.Conn {
	c := x.g.conn(port)
	x.conns = append(x.conns, c)
	return c
}

func (x *r12Rig) do(op string) {
	g := x.g
	name := fmt.Sprintf("n%d", x.n)
	kind, _, _ := strings.Cut(op, " ")
	view := func(name string) {
		w := g.view(kind, name)
		w.join()
		x.views = append(x.views, w)
		g.s.Idle()
	}
	publish := func(kind, name string) {
		p := g.pub(kind, x.n%7, name)
		p.prepare()
		vs.Go(p.claim)
		g.s.Idle()
		p.frame(true)
		p.frame(false)
		p.frame(true)
		g.s.Idle()
		x.pubs = append(x.pubs, p)
		x.name = name
	}
	rtsp := func() *rtspCli { return &rtspCli{c: x.conn(554), wait: g.s.Idle} }
	must := func(k *rtspCli) func(string, string, []string, string) {
		return func(m, u string, h []string, b string) {
			if _, err := k.do(m, u, h, b); err != nil {
				g.bad("setup", "%v", err)
			}
		}
	}
	switch op {
	case "rtmp publishes", "rtsp publishes":
		publish(kind, name)
	case "srt publishes":
		publish(kind, "s")
	case "pull":
		p := newSPull(sBase{g: g, m: 0xA7, name: "u", res: silent, gap: 40})
		for i := 0; i < 40 && p.c == nil; i++ {
			if i == 0 {
				vs.Go(p.claim)
			}
			g.s.Advance(time.Second)
		}
		p.frame(true)
		g.s.Idle()
		x.pubs = append(x.pubs, p)
		x.name = "u"
	case "flv views", "ws views", "rtmp views", "rtsp views":
		view("live")
	case "flv views the cycle's stream", "ws views the cycle's stream", "rtmp views the cycle's stream", "rtsp views the cycle's stream":
		if x.name != "" {
			view(x.name)
		}
	case "flv asks for nobody", "ws asks for nobody", "rtmp asks for nobody", "rtsp asks for nobody":
		view(name)
	case "hls":
		g.get(sHLS, "/live/live/index.m3u8")
		g.get(sHLS, "/live/live/live-1.ts")
		g.get(sHLS, "/live/live/index.mpd")
	case "playlists":
		g.ask(sHLS, "/live/live/index.m3u8?_HLS_msn=999999&_HLS_part=0")
		x.slow = true
	case "404s":
		g.get(sHLS, "/live/"+name+"/index.m3u8")
		g.get(sHLS, "/live/"+name+"/index.mpd")
		g.get(sHLS, "/"+name+"/live/x.ts")
		g.get(sFLV, "/"+name+"/live.flv")
	case "rtmp aborts":
		x.conn(1935).Write([]byte{3, 0, 0})
		c := x.conn(1935)
		c.Write(make([]byte, 1700))
	case "rtsp aborts":
		rtsp().c.Write([]byte("OPTIONS * RTSP/1.0\r\nCSeq: "))
		rtsp().c.Write([]byte("nonsense\r\n\r\n"))
	case "rtsp announces":
		k := rtsp()
		must(k)("ANNOUNCE", name, nil, s03Scripts()[0].sdp())
		must(k)("SETUP", name+"/streamid=0", []string{"Transport: RTP/AVP/TCP;unicast;mode=record;interleaved=0-1"}, "")
	case "rtsp udp views":
		k := rtsp()
		must(k)("DESCRIBE", "live", nil, "")
		c, _ := vs.NetListenUDP("udp", nil)
		x.udps = append(x.udps, c)
		if c.LocalAddr().(*net.UDPAddr).Port%2 == 1 { //the next pair is broken
			d, _ := vs.NetListenUDP("udp", nil)
			x.udps = append(x.udps, d)
		}
		p := c.LocalAddr().(*net.UDPAddr).Port
		must(k)("SETUP", "live/trackID=0", []string{fmt.Sprintf("Transport: RTP/AVP;unicast;client_port=%d-%d", p, p+1)}, "")
		must(k)("SETUP", "live/trackID=1", []string{fmt.Sprintf("Transport: RTP/AVP;unicast;client_port=%d-%d", p, p+1)}, "")
		must(k)("PLAY", "live", nil, "")
	case "rtsp sets up again":
		k := rtsp()
		must(k)("DESCRIBE", "live", nil, "")
		for i := range 6 {
			must(k)("SETUP", fmt.Sprintf("live/trackID=%d", i&1), []string{"Transport: RTP/AVP;unicast;client_port=50000-50001"}, "")
		}
		must(k)("SETUP", "live/trackID=0", []string{"Transport: RTP/AVP/TCP;unicast;interleaved=0-1"}, "")
	case "pull breaks", "pull of a taken name":
		if op == "pull of a taken name" {
			publish("rtmp", "u")
		}
		tried := false
		g.dial = func(string) (net.Conn, error) {
			if tried {
				return noDial("")
			}
			tried = true
			a, b := vs.Pipe()
			a.Write([]byte{3, 1, 2})
			if op == "pull breaks" {
				a.Close()
			}
			x.conns = append(x.conns, a)
			return g.s.End(b), nil
		}
		for i := 0; i < 40 && !tried; i++ {
			g.s.Advance(time.Second)
		}
		g.dial = noDial
	case "rtsp udp publishes":
		k := rtsp()
		must(k)("ANNOUNCE", name, nil, s03Scripts()[0].sdp())
		must(k)("SETUP", name+"/streamid=0", []string{"Transport: RTP/AVP;unicast;mode=record;client_port=50000-50001"}, "")
		must(k)("RECORD", name, nil, "")
	case "srt aborts":
		c, _ := vs.NetListenUDP("udp", nil)
		x.udps = append(x.udps, c)
		c.WriteToUDP(srtCtl(0, 0, srtHS(1, 1000, uint32(x.n), 0)), &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 9000})
		x.slow = true
	case "srt falls silent":
		p := g.pub("srt", x.n%7, "s").(*sSRT)
		p.prepare()
		x.udps = append(x.udps, p.c)
		x.slow = true
	case "taken name":
		p := g.pub("rtmp", 3, "live")
		p.prepare()
		vs.Go(p.claim)
		x.pubs = append(x.pubs, p)
	case "many commands":
		p := g.pub("rtmp", 3, name).(*sRTMP)
		p.prepare()
		for i := range 5 {
			p.k.cmd("createStream", 10+i, nil)
			p.k.send(v.Msg{Type: 20, CSID: 3, SID: 1, Payload: v.AMF("play", 3, nil, "live")})
			p.k.send(v.Msg{Type: 20, CSID: 3, SID: 1, Payload: v.AMF("closeStream", 0, nil)})
		}
		x.conns = append(x.conns, p.c)
	case "ws pings":
		w := g.view("ws", "live").(*sFLVView)
		w.join()
		g.s.Idle()
		for range 10 {
			w.resp.a.Write(w01Encode(9, make([]byte, 100), []byte{1, 2, 3, 4}, 0))
		}
		x.views = append(x.views, w)
	default:
		panic("verif-internal: " + op)
	}
	g.s.Idle()
}

// end is when everybody leaves.
func (x *r12Rig) end() {
	for i, p := range x.pubs {
		p.leave((x.n + i) % p.ways())
		if q, ok := p.(*sRTMP); ok {
			x.g.s.Idle()
			q.c.Close()
		}
		if q, ok := p.(*sRTSP); ok {
			x.g.s.Idle()
			q.c.Close()
		}
		if q, ok := p.(*sPull); ok {
			x.g.s.Idle()
			if q.c != nil {
				q.c.Close()
			}
			x.g.dial = noDial
		}
		if q, ok := p.(*sSRT); ok && q.c != nil {
			x.slow = true
			x.udps = append(x.udps, q.c)
		}
	}
	for _, w := range x.views {
		w.leave()
	}
	for _, c := range x.conns {
		c.Close()
	}
	for _, u := range x.udps {
		u.Close()
	}
	*x = r12Rig{g: x.g, live: x.live, n: x.n, slow: x.slow}
}
