//go:build go1.25

package librtmp

import (
	"bytes"
	"fmt"
	"net"
	"path/filepath"
	"strings"
	"testing"
	"time"

	"github.com/sbraveyoung/GGmpeg/libhls"
	v "github.com/sbraveyoung/GGmpeg/verif_vlib"
	vs "github.com/sbraveyoung/GGmpeg/verif_vsched"
)

// R07: publishers leaving in every manner, under every schedule with others coming (schedules), and
// after every byte (cuts).

type r07 struct {
	owner string
	way   int
	sent  int      //frames before the race
	more  int      //frames sent during the race, before leaving
	views []string //attached before the race
	hls   libhls.HLS_MODE
	dash  bool
	race  []string //publishers, viewers ("+flv") and requests ("/index.m3u8") coming meanwhile
	bound int
}

func (x r07) String() string {
	s := fmt.Sprintf("%s with %d+%d frames leaves in manner %d", x.owner, x.sent, x.more, x.way)
	if len(x.views) > 0 {
		s += ", watched over " + strings.Join(x.views, " and ")
	}
	if x.hls != libhls.NONE {
		s += fmt.Sprintf(", HLS mode %d", x.hls)
	}
	if x.dash {
		s += ", DASH"
	}
	if len(x.race) > 0 {
		s += ", while coming: " + strings.Join(x.race, ", ")
	}
	return s
}

// r07Check looks at a running stream over every egress protocol.
func r07Check(g *sRig, p sPub, seg, dash bool, bad func(key, f string, a ...interface{})) {
	s := g.s
	vws := []sView{}
	for _, k := range []string{"flv", "ws", "rtmp", "rtsp"} {
		x := g.view(k, "s")
		x.join()
		s.Idle()
		if !x.joined() && !(k == "rtsp" && p.kind() == "rtmp") { //RTSP has nothing to describe before the header
			bad("new-join", "the stream of the next publisher (%s) has no %s viewers", p.kind(), k)
		}
		vws = append(vws, x)
	}
	//far enough apart for segments
	switch q := p.(type) {
	case *sRTMP:
		q.gap = 7000
	case *sRTSP:
		q.gap = 7000
	case *sSRT:
		q.gap = 7000
	case *sPull:
		q.gap = 7000
	}
	var first *sResp
	if seg {
		first = g.ask(sHLS, "/live/s/index.m3u8")
	}
	for i := 0; i < 4; i++ {
		p.frame(true)
		s.Idle()
	}
	if x := vws[3]; !x.joined() {
		x.join()
		s.Idle()
		p.frame(true)
		s.Idle()
		if !x.joined() {
			bad("new-join", "the stream of the next publisher (%s) has no rtsp viewers", p.kind())
		}
	}
	for _, x := range vws {
		t := x.tags()
		if mk := g.only(x.kind(), t); mk != p.mark() || sFrames(t, mk) == 0 {
			bad("new-media", "a %s viewer of the next publisher (%s %x) gets mark %x, %d frames", x.kind(), p.kind(), p.mark(), mk, sFrames(t, mk))
		}
		x.leave()
	}
	p.frame(false) //departures show when something is written
	p.frame(false)
	s.Idle()
	if seg {
		if !first.done {
			bad("request-hangs", "a request for the playlist of the next publisher's stream gets no answer")
		}
		w := g.get(sHLS, "/live/s/index.m3u8")
		pl, err := v.ParseM3U8(w.body.Bytes())
		if w.code != 200 || err != nil || len(pl.Segs) < 2 {
			bad("new-hls", "playlist of the next publisher's stream: status %d, %v, %d segments", w.code, err, len(pl.Segs))
		}
		for _, f := range pl.Segs {
			w := g.get(sHLS, "/live/s/"+f.File)
			if w.code != 200 {
				bad("new-hls", "segment %q of the next publisher's stream: %d", f.File, w.code)
				continue
			}
			d := v.DemuxTS(w.body.Bytes())
			n := 0
			for _, u := range d.Units {
				if bytes.Contains(u.Data, sNAL(5, p.mark(), 20)) {
					n++
				}
			}
			if n == 0 {
				bad("new-hls", "segment %q of the next publisher's stream holds none of its media", f.File)
			}
		}
	}
	if dash {
		for _, f := range []string{"index.mpd", "s-init.mp4"} {
			if w := g.get(sHLS, "/live/s/"+f); w.code != 200 || w.body.Len() == 0 {
				bad("new-dash", "%s of the next publisher's stream: status %d, %d bytes", f, w.code, w.body.Len())
			}
		}
	}
}

// r07Free looks at a server nobody uses any more.
func r07Free(g *sRig, udp int, bad func(key, f string, a ...interface{})) {
	if g.room("s") {
		bad("stale", "everybody has left and the name is taken")
	}
	if f := g.files(); len(f) > 0 {
		bad("files", "everybody has left; files stay: %v", f)
	}
	if a := g.s.Alive(); len(a) != g.base {
		bad("leak", "everybody has left; goroutines stay: %v", a)
	}
	if n := g.s.UDPOpen(); n != udp {
		bad("sockets", "%d UDP sockets stay of %d before", n, udp)
	}
	if g.srv.apps["live"].LoadHLS("s") != nil || g.srv.apps["live"].LoadDASH("s") != nil {
		bad("segmenters", "everybody has left; a segmenter is still registered")
	}
}

func r07Run(r *v.Run, c *v.Ctx, x r07, dir string) {
	failed := map[string]bool{}
	bad := func(key, f string, a ...interface{}) {
		if !failed[key] {
			failed[key] = true
			r.Violation("r07:"+key, fmt.Sprintf("%s, schedule %v", x, c.Choices()), f, a...)
		}
	}
	outcome := ""
	s := vs.Run(c, func(s *vs.Sched) {
		s.Free = false
		o := sOpt{hls: x.hls, dash: x.dash}
		if x.owner == "pull" {
			o.pulls = []string{"s"}
		}
		if x.owner == "srt" {
			o.srt = []string{"s"}
		}
		for _, k := range x.race {
			if k == "srt" {
				o.srt = append(o.srt, "s")
			}
		}
		g := newSRig(s, o, dir, bad)
		s.Idle()
		udp := s.UDPOpen()
		p := g.pub(x.owner, 0, "s")
		p.prepare()
		var pubs []sPub
		var views, olds []sView
		port := 9000
		if x.owner == "srt" {
			port++
		}
		for i, k := range x.race {
			switch k[0] {
			case '/':
			case '+':
				w := g.view(k[1:], "s")
				if q, ok := w.(*sRTMPView); ok {
					q.prepare()
				}
				views = append(views, w)
			default:
				q := g.pub(k, 1+i, "s")
				if y, ok := q.(*sSRT); ok {
					y.port = port
					port++
				}
				q.prepare()
				pubs = append(pubs, q)
			}
		}
		vs.Go(p.claim)
		s.Idle()
		if p.result() != won {
			bad("first", "the first publisher was %s", p.result())
			return
		}
		for i := 0; i < x.sent; i++ {
			p.frame(i%2 == 0)
			s.Idle()
		}
		for _, k := range x.views {
			w := g.view(k, "s")
			w.join()
			s.Idle()
			olds = append(olds, w)
		}
		gets := map[string]*sResp{}
		s.Explore(true)
		vs.Go(func() {
			for i := 0; i < x.more; i++ {
				p.frame((x.sent+i)%2 == 0)
			}
			p.leave(x.way)
		})
		for _, q := range pubs {
			vs.Go(q.claim)
		}
		for _, w := range views {
			w.join()
		}
		for _, k := range x.race {
			if k[0] == '/' {
				gets[k] = g.ask(sHLS, "/live/s"+k)
			}
		}
		s.Idle()
		s.Explore(false)
		if x.owner == "srt" && x.way == 1 {
			g.advance(7, pubs...) //silence is noticed
		}
		//what was attached to the old stream
		var next sPub
		for _, q := range pubs {
			outcome += " " + q.kind() + "=" + q.result()
			if q.result() == won {
				if next != nil {
					bad("several", "two publishers at once:%s", outcome)
				}
				next = q
			} else if q.result() != refused {
				bad("answer", "%s got %q", q.kind(), q.result())
			}
		}
		for _, w := range olds {
			if !w.released() {
				bad("not-released:"+w.kind(), "the %s viewer of the stream that ended is still served", w.kind())
			}
			if mk := g.only(w.kind(), w.tags()); mk != p.mark() && mk != -1 {
				bad("foreign", "a %s viewer of the old stream got mark %x", w.kind(), mk)
			}
		}
		if next == nil {
			for _, w := range views {
				if !w.released() {
					bad("not-released:"+w.kind(), "the %s viewer that came meanwhile is still served after the end", w.kind())
				}
				g.only(w.kind(), w.tags())
			}
			if g.room("s") {
				bad("stale", "the publisher left and the name is taken")
			}
			if f := g.files(); len(f) > 0 {
				bad("files", "the publisher left; files stay: %v", f)
			}
			next = g.pub("rtmp", 14, "s")
			next.prepare()
			vs.Go(next.claim)
			s.Idle()
			if next.result() != won {
				bad("stale", "the publisher left and the next one is %s", next.result())
				return
			}
		} else {
			next.frame(true)
			next.frame(false)
			s.Idle()
			for _, w := range views {
				mk := g.only(w.kind(), w.tags())
				if !w.joined() {
					continue
				}
				switch {
				case mk == next.mark():
					if w.released() {
						bad("released", "a %s viewer of the running stream was released", w.kind())
					}
				case !w.released():
					bad("not-released:"+w.kind(), "the %s viewer that came meanwhile gets mark %x and is still served", w.kind(), mk)
				}
			}
		}
		//RTMP viewers may play again on the same connection
		for _, w := range append(append([]sView{}, olds...), views...) {
			if q, ok := w.(*sRTMPView); ok {
				q.code, q.start, q.got, q.k.got = "", false, nil, nil
				q.c.Take()
				q.join()
				s.Idle()
				next.frame(true)
				next.frame(false)
				s.Idle()
				if t := q.tags(); !q.joined() || g.only("rtmp", t) != next.mark() {
					bad("replay", "a viewer playing the name again after the end: %q, mark %x", q.code, g.only("rtmp", t))
				}
			}
		}
		r07Check(g, next, x.hls != libhls.NONE, x.dash, bad)
		next.leave(0)
		for _, w := range append(append([]sView{}, olds...), views...) {
			if w.kind() != "flv" {
				w.leave()
			}
		}
		for _, q := range append(pubs, p) {
			if q != next {
				q.leave(0)
			}
		}
		s.Advance(7 * time.Second)
		for _, q := range append(pubs, next, p) {
			if y, ok := q.(*sSRT); ok {
				y.c.Close()
			}
			if y, ok := q.(*sRTSP); ok {
				y.c.Close()
			}
			if y, ok := q.(*sRTMP); ok {
				y.c.Close()
			}
		}
		s.Idle()
		r07Free(g, udp, bad)
		for k, w := range gets {
			if !w.done {
				bad("request-hangs", "GET %s gets no answer", k)
			}
		}
	})
	if s.Crash != nil {
		bad("crash:"+s.Crash.Where, "%s\n%s", s.Crash.Value, s.Crash.Stack)
	}
	if s.Dead != "" {
		bad("deadlock", "%s", s.Dead)
	}
	r.Eval(fmt.Sprintf("%s/%d:%s", x.owner, x.way, outcome), fmt.Sprintf("%s %v", x, c.Choices()))
}

var r07Kinds = []string{"rtmp", "rtsp", "srt", "pull"}

func r07Ways(k string) int { return map[string]int{"rtmp": 4, "rtsp": 3, "srt": 2, "pull": 2}[k] }

func r07Cases(r *v.Run) (out []r07) {
	for _, o := range r07Kinds {
		for way := 0; way < r07Ways(o); way++ {
			for sent := 0; sent < 3; sent++ {
				for more := 0; more < 2; more++ {
					if o == "srt" && way == 1 && more > 0 {
						continue
					}
					b := r07{owner: o, way: way, sent: sent, more: more, bound: r.Pick(1, 2)}
					deep := sent == 1 && more == 1 || !r.Quick()
					x := b //everything attached
					x.views = []string{"flv", "ws", "rtmp", "rtsp"}
					x.hls, x.dash = libhls.IMMEDIATELY, true
					out = append(out, x)
					for _, a := range []string{"+flv", "+ws", "+rtmp", "+rtsp"} {
						x = b //a viewer and a publisher coming
						if deep {
							x.bound++
						}
						x.race = []string{a, "rtmp"}
						out = append(out, x)
					}
					for _, a := range []string{"rtmp", "rtsp", "srt"} {
						x = b
						x.race = []string{a}
						x.views = []string{"flv"}
						if a == "rtmp" {
							x.hls, x.dash = libhls.IMMEDIATELY, true
						} else if deep {
							x.bound++
						}
						out = append(out, x)
					}
					x = b
					x.hls, x.race = libhls.DELAY, []string{"/index.m3u8", "rtmp"}
					out = append(out, x)
					x = b
					x.hls, x.race = libhls.DELAY, []string{"/index.m3u8", "/index.m3u8?again"}
					out = append(out, x)
					x = b
					x.hls, x.dash, x.race = libhls.IMMEDIATELY, true, []string{"/index.mpd", "/s-0.ts"}
					out = append(out, x)
				}
			}
		}
	}
	return
}

func TestV_R07(t *testing.T) {
	r := v.Start(t)
	defer r.Finish()
	defer sQuiet()()
	dir := filepath.Join(r.Out(), "r07")
	cases := r07Cases(r)
	for _, x := range cases {
		n, all := v.Tree(r, x.bound, func(c *v.Ctx, first bool) bool {
			r.Journal("R07 %s", x)
			r07Run(r, c, x, dir)
			return true
		})
		_ = n
		if !all {
			r.Capped("bounded by the time budget in " + x.String())
			break
		}
	}
	r.Note("%d scenarios, at most %d preemptions (one more where a frame precedes and a frame accompanies the departure, viewers and a publisher come and nothing is segmented; thorough: everywhere but when segmenting)", len(cases), r.Pick(1, 2))
}

// ---- cuts

// r07Script is everything a publisher's connection carries, and how the server is reached.
type r07Script struct {
	name string
	port int //0: the server dials
	data []byte
	own  int //the name is owned once this many bytes were dealt with (0: unknown)
	udp  bool
}

func r07Scripts(r *v.Run) (out []r07Script) {
	enc := v.NewChunkWriter(128)
	b := v.Cat([]byte{3}, handshakeC1, make([]byte, 1536))
	add := func(m v.Msg) { b = append(b, enc.Bytes(m)...) }
	add(v.Msg{Type: 20, CSID: 3, Payload: v.AMF("connect", 1, v.Obj{{K: "app", V: "live"}, {K: "tcUrl", V: "rtmp://h/live"}})})
	add(v.Msg{Type: 20, CSID: 3, Payload: v.AMF("createStream", 2, nil)})
	add(v.Msg{Type: 20, CSID: 3, Payload: v.AMF("publish", 3, nil, "s", "live")})
	own := len(b)
	media := func() {
		add(v.Msg{Type: 9, CSID: 4, SID: 1, TS: 0, Payload: sSeq(0xA0)})
		for i := 0; i < 3; i++ {
			add(v.Msg{Type: 9, CSID: 4, SID: 1, TS: uint32(40 + 7000*i), Payload: sFrame(i%2 == 0, 0xA0, 90)})
		}
	}
	media()
	out = append(out, r07Script{name: "RTMP publisher", port: 1935, data: b, own: own})

	g := &sRTSP{sBase: sBase{m: 0xA0, name: "s"}}
	for _, udp := range []bool{false, true} {
		k := &rtspCli{}
		tr := "Transport: RTP/AVP/TCP;unicast;mode=record;interleaved=0-1"
		if udp {
			tr = "Transport: RTP/AVP;unicast;mode=record;client_port=5000-5001"
		}
		b = k.text("ANNOUNCE", "s", nil, g.sdp())
		own = len(b)
		b = append(b, k.text("SETUP", "s/streamid=0", []string{tr}, "")...)
		b = append(b, k.text("RECORD", "s", nil, "")...)
		if !udp {
			for i := 0; i < 3; i++ {
				x := v.RTP{PT: 96, Marker: true, Seq: uint16(i), TS: uint32(i * 7000 * 90), SSRC: 1, Payload: sNAL([]byte{5, 1, 5}[i], 0xA0, 30), Ext: -1}.Bytes()
				b = append(b, v.Cat([]byte{'$', 0, byte(len(x) >> 8), byte(len(x))}, x)...)
			}
			b = append(b, k.text("TEARDOWN", "s", nil, "")...)
		}
		out = append(out, r07Script{name: "RTSP publisher", port: 554, data: b, own: own, udp: udp})
	}

	enc = v.NewChunkWriter(128)
	b = sUpstream(enc, make([]byte, 1536))
	media()
	out = append(out, r07Script{name: "upstream of a pull", data: b})
	return
}

func r07Cut(r *v.Run, x r07Script, cut int, half bool, piece int, dir string) {
	desc := fmt.Sprintf("%s (UDP %v) gone after %d of %d bytes, half-closed %v, in reads of %d", x.name, x.udp, cut, len(x.data), half, piece)
	r.Journal("R07 %s", desc)
	failed := map[string]bool{}
	bad := func(key, f string, a ...interface{}) {
		if !failed[key] {
			failed[key] = true
			r.Violation("r07:cut:"+key, desc, f, a...)
		}
	}
	owned := false
	s := vs.Run(&v.Ctx{}, func(s *vs.Sched) {
		o := sOpt{hls: libhls.IMMEDIATELY, dash: true}
		if x.port == 0 {
			o.pulls = []string{"s"}
		}
		g := newSRig(s, o, dir, bad)
		udp := s.UDPOpen()
		var c *vs.Conn
		if x.port != 0 {
			c = g.conn(x.port)
		} else {
			n := 0
			g.dial = func(string) (net.Conn, error) {
				if n++; n > 1 {
					return nil, fmt.Errorf("connection refused")
				}
				a, b := vs.Pipe()
				c = a
				return b, nil
			}
			s.Idle()
		}
		c.LimitPeerReads(piece)
		c.Write(x.data[:cut])
		s.Idle()
		owned = g.room("s")
		if x.own > 0 && !x.udp && cut >= x.own && cut < len(x.data) && !owned {
			bad("not-owned", "the name is not taken")
		}
		views := []sView{}
		for _, k := range []string{"flv", "ws", "rtmp", "rtsp"} {
			w := g.view(k, "s")
			w.join()
			s.Idle()
			views = append(views, w)
		}
		if half {
			c.CloseWrite()
		} else {
			c.Close()
		}
		s.Idle()
		if g.room("s") {
			bad("stale", "the name is still taken")
		}
		if f := g.files(); len(f) > 0 {
			bad("files", "files stay: %v", f)
		}
		if half && !c.PeerClosed() {
			bad("open", "the connection stays open")
		}
		for _, w := range views {
			if !w.released() {
				bad("not-released:"+w.kind(), "the %s viewer is still served", w.kind())
			}
			g.only(w.kind(), w.tags())
		}
		p := g.pub("rtmp", 7, "s")
		p.prepare()
		vs.Go(p.claim)
		s.Idle()
		if p.result() != won {
			bad("next", "the next publisher is %s", p.result())
		} else {
			p.frame(true)
			s.Idle()
			w := g.view("flv", "s")
			w.join()
			s.Idle()
			if mk := g.only("flv", w.tags()); mk != p.mark() {
				bad("next", "a viewer of the next publisher gets mark %x", mk)
			}
		}
		p.leave(0)
		for _, w := range views {
			if w.kind() != "flv" {
				w.leave()
			}
		}
		s.Idle()
		r07Free(g, udp, bad)
	})
	if s.Crash != nil {
		bad("crash:"+s.Crash.Where, "%s\n%s", s.Crash.Value, s.Crash.Stack)
	}
	if s.Dead != "" {
		bad("deadlock", "%s", s.Dead)
	}
	r.Eval(fmt.Sprintf("%s owned=%v", x.name, owned), desc)
}

func TestVerifR07Cuts(t *testing.T) {
	r := v.Start(t)
	defer r.Finish()
	defer sQuiet()()
	dir := filepath.Join(r.Out(), "r07")
	n := 0
	for _, x := range r07Scripts(r) {
		for _, piece := range []int{0, 1} {
			for _, half := range []bool{false, true} {
				for cut := 0; cut <= len(x.data); cut++ {
					if piece == 1 && r.Quick() && cut%16 != 0 && (cut < 3000 || x.port == 554) {
						continue
					}
					if n++; !r.Mine() {
						continue
					}
					if r.Expired() {
						r.Capped("bounded by the time budget in " + x.name)
						return
					}
					r07Cut(r, x, cut, half, piece, dir)
				}
			}
		}
	}
	r.Note("%d cuts of the sessions of an RTMP publisher, an RTSP publisher over TCP and UDP, and a pull's upstream", n)
}
