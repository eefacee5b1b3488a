//go:build go1.25

package librtmp

import (
	"bytes"
	"fmt"
	"net"
	"path/filepath"
	"strings"
	"testing"
	"time"

	"github.com/sbraveyoung/GGmpeg/libhls"
	v "github.com/sbraveyoung/GGmpeg/verif_vlib"
	vs "github.com/sbraveyoung/GGmpeg/verif_vsched"
)

// R11: pulled streams.

// r11Up is the upstream's end of one connection of a pull.
type r11Up struct {
	g    *sRig
	c    *vs.Conn
	raw  []byte //not yet read as handshake
	dec  *v.ChunkReader
	enc  *v.ChunkWriter
	s1   []byte
	got  []v.Msg
	done bool //the handshake is complete
	sid  int
	sent int
	stop int //bytes the upstream may send in all (-1: any)
	cut  bool
}

func r11Accept(g *sRig, c *vs.Conn) *r11Up {
	s1 := v.Fill(3, 1536)
	copy(s1, []byte{0, 0, 0, 9, 0, 0, 0, 0})
	return &r11Up{g: g, c: c, dec: v.NewChunkReader(128), enc: v.NewChunkWriter(128), s1: s1, sid: 1, stop: -1}
}

// write sends up to the limit; what is beyond is never sent.
func (u *r11Up) write(b []byte) {
	if u.cut {
		return
	}
	if u.stop >= 0 && u.sent+len(b) >= u.stop {
		b = b[:u.stop-u.sent]
		u.cut = true
	}
	u.sent += len(b)
	if len(b) > 0 {
		u.c.Write(b)
	}
}
func (u *r11Up) send(m v.Msg) { u.write(u.enc.Bytes(m)) }

// sync lets the server run and reads what it said.
func (u *r11Up) sync() {
	u.g.s.Idle()
	b := u.c.Take()
	if !u.done {
		u.raw = append(u.raw, b...)
		return
	}
	u.got = append(u.got, u.dec.Feed(b)...)
}

// handshake answers the pull's handshake; it reports why it could not.
func (u *r11Up) handshake() string {
	u.sync()
	if len(u.raw) < 1537 {
		return fmt.Sprintf("%d bytes of C0 and C1", len(u.raw))
	}
	if u.raw[0] != 3 {
		return fmt.Sprintf("C0 is %d", u.raw[0])
	}
	if len(u.raw) > 1537 {
		return "says more than C0 and C1 before S1"
	}
	c1 := bytes.Clone(u.raw[1:1537])
	u.write(v.Cat([]byte{3}, u.s1, c1))
	u.sync()
	if u.cut {
		return "cut"
	}
	if len(u.raw) < 3073 {
		return "no C2"
	}
	//C2 repeats the random bytes of S1
	if !bytes.Equal(u.raw[1537:1541], u.s1[:4]) || !bytes.Equal(u.raw[1545:3073], u.s1[8:]) {
		return "C2 is not an echo of S1"
	}
	u.done = true
	u.got = append(u.got, u.dec.Feed(u.raw[3073:])...)
	u.raw = nil
	return ""
}

// command waits for a command with the name.
func (u *r11Up) command(name string) ([]interface{}, v.Msg, string) {
	u.sync()
	if u.dec.Err != nil {
		return nil, v.Msg{}, fmt.Sprintf("chunks of the pull: %v", u.dec.Err)
	}
	for i, m := range u.got {
		if m.Type != 20 {
			continue
		}
		vals, err := v.UnAMF(m.Payload)
		if err != nil || len(vals) < 3 {
			return nil, m, fmt.Sprintf("bad command: %v", err)
		}
		if vals[0] == name {
			u.got = append(u.got[:i:i], u.got[i+1:]...)
			return vals, m, ""
		}
		return nil, m, fmt.Sprintf("%v instead of %s", vals[0], name)
	}
	return nil, v.Msg{}, "no " + name
}

func r11Num(x interface{}) float64 {
	f, _ := x.(float64)
	return f
}

func r11Result(txn interface{}, vals ...interface{}) v.Msg {
	return v.Msg{Type: 20, CSID: 3, Payload: v.AMF(append([]interface{}{"_result", txn}, vals...)...)}
}
func r11Status(sid int, level, code string) v.Msg {
	return v.Msg{Type: 20, CSID: 5, SID: uint32(sid), Payload: v.AMF("onStatus", 0, nil, v.Obj{{K: "level", V: level}, {K: "code", V: code}, {K: "description", V: "d"}})}
}

// r11Ask is what the pull asked for.
type r11Ask struct {
	app, tcURL, play string
	sid              uint32
}

// session answers like an RTMP server up to the start of the stream; extra(pos) is sent before the
// answer to connect (0), to createStream (1), to play (2) and before the media (3).
func (u *r11Up) session(extra func(pos int)) (ask r11Ask, err string) {
	if err = u.handshake(); err != "" {
		return
	}
	ext := func(p int) {
		if extra != nil {
			extra(p)
		}
	}
	vals, m, e := u.command("connect")
	if e != "" {
		return ask, e
	}
	o, ok := vals[2].(v.Obj)
	if !ok {
		return ask, "connect carries no object"
	}
	ask.app, _ = o.Get("app").(string)
	ask.tcURL, _ = o.Get("tcUrl").(string)
	if r11Num(vals[1]) != 1 || m.SID != 0 {
		return ask, fmt.Sprintf("connect has transaction %v on stream %d", vals[1], m.SID)
	}
	ext(0)
	u.send(r11Result(1, v.Obj{{K: "fmsVer", V: "FMS/3,0,1,123"}, {K: "capabilities", V: 31}}, v.Obj{{K: "level", V: "status"}, {K: "code", V: "NetConnection.Connect.Success"}, {K: "objectEncoding", V: 0}}))
	if vals, m, e = u.command("createStream"); e != "" {
		return ask, e
	}
	if m.SID != 0 {
		return ask, fmt.Sprintf("createStream on stream %d", m.SID)
	}
	ext(1)
	u.send(r11Result(vals[1], nil, u.sid))
	if vals, m, e = u.command("play"); e != "" {
		return ask, e
	}
	ask.sid = m.SID
	if len(vals) < 4 || vals[2] != nil {
		return ask, fmt.Sprintf("play arguments %v", vals)
	}
	ask.play, _ = vals[3].(string)
	ext(2)
	u.send(r11Status(u.sid, "status", "NetStream.Play.Start"))
	u.sync()
	ext(3)
	u.sync()
	if u.cut {
		return ask, "cut"
	}
	return ask, ""
}

// r11Net is the network towards upstreams.
type r11Net struct {
	up    bool
	hosts []string
	conns []*r11Up
}

func (n *r11Net) attach(g *sRig) {
	g.dial = func(host string) (net.Conn, error) {
		n.hosts = append(n.hosts, host)
		if !n.up {
			return nil, fmt.Errorf("connection refused")
		}
		x, y := vs.Pipe()
		n.conns = append(n.conns, r11Accept(g, x))
		return g.s.End(y), nil
	}
}
func (n *r11Net) last() *r11Up {
	if len(n.conns) == 0 {
		return nil
	}
	return n.conns[len(n.conns)-1]
}

// r11Run runs f on a server with the pulls; failures of the run itself are reported.
func r11Run(r *v.Run, dir, desc string, o sOpt, f func(g *sRig, bad func(key, f string, a ...interface{}))) {
	r.Journal("R11 %s", desc)
	bad := func(key, f string, a ...interface{}) {
		r.Violation("r11:"+key, desc, "%s: %s", desc, fmt.Sprintf(f, a...))
	}
	s := vs.Run(&v.Ctx{}, func(s *vs.Sched) {
		s.Explore(false)
		g := newSRig(s, o, dir, bad)
		f(g, bad)
	})
	if s.Crash != nil {
		bad("crash:"+s.Crash.Where, "%s\n%s", s.Crash.Value, s.Crash.Stack)
	}
	if s.Dead != "" {
		bad("hang", "%s", s.Dead)
	}
}

// r11View compares what an FLV viewer has with what it should.
func r11View(w sView, want []v.Msg) string {
	var got []v.Msg
	for _, m := range w.tags() {
		if m.Type == 18 && bytes.Contains(m.Payload, []byte("|RtmpSampleAccess")) {
			continue
		}
		got = append(got, m)
	}
	return sameMsgs(got, want)
}

// fresh plays the whole of a healthy session on the latest connection and checks that a viewer gets it.
func r11Healthy(g *sRig, n *r11Net, name, what string, bad func(key, f string, a ...interface{})) *r11Up {
	u := n.last()
	if u == nil {
		bad("no-pull", "%s: the upstream is not called", what)
		return nil
	}
	if _, e := u.session(nil); e != "" {
		bad("session", "%s: %s", what, e)
		return nil
	}
	w := g.view("flv", name)
	w.join()
	g.s.Idle()
	ops := r09Ops()
	var all []r09Item
	for i, o := range []int{0, 2, 4, 6, 8, 7} {
		m, it := r09Msgs(ops, o, i, uint32(1000+20*i))
		m.SID = uint32(u.sid)
		u.send(m)
		u.sync()
		all = append(all, it...)
	}
	if !w.joined() {
		bad("not-served", "%s: no stream at the viewer", what)
		return nil
	}
	if d := r11View(w, r09Expect(all, 0)); d != "" {
		bad("media", "%s: %s", what, d)
		return nil
	}
	w.leave()
	return u
}

func r11Desc(ps ...interface{}) string { return strings.TrimSuffix(fmt.Sprintln(ps...), "\n") }

// TestVerifR11URLs: every form of URL asks the upstream for exactly that stream.
func TestVerifR11URLs(t *testing.T) {
	r := v.Start(t)
	defer r.Finish()
	defer sQuiet()()
	dir := filepath.Join(r.Out(), "r11u")
	long := strings.Repeat("k", 300)
	type part struct{ s, a, b string }
	hosts := []part{ //text, dialled address, host in tcUrl
		{"upstream:1936", "upstream:1936", "upstream:1936"},
		{"upstream", "upstream:1935", "upstream"},
		{"10.1.2.3", "10.1.2.3:1935", "10.1.2.3"},
		{"10.1.2.3:80", "10.1.2.3:80", "10.1.2.3:80"},
		{"[::1]:1936", "[::1]:1936", "[::1]:1936"},
		{"[2001:db8::7]", "[2001:db8::7]:1935", "[2001:db8::7]"},
		{"a.b-c.example.org:65535", "a.b-c.example.org:65535", "a.b-c.example.org:65535"},
	}
	apps := []string{"up", "live", "a-b_c.d", "l"}
	streams := []part{ //text, play name
		{"/s0", "s0", ""}, {"/up", "up", ""}, {"/live", "live", ""}, {"/up/live", "up/live", ""},
		{"/a/b/c", "a/b/c", ""}, {"/s-1_2.x", "s-1_2.x", ""},
		{"/s0?token=abc", "s0?token=abc", ""}, {"/s0?a=1&b=/x/y&c=?", "s0?a=1&b=/x/y&c=?", ""},
		{"/s0?u=a%2Fb%20c", "s0?u=a%2Fb%20c", ""}, {"/live/x?k=" + long, "live/x?k=" + long, ""},
		{"/" + long, long, ""}, {"", "name", ""},
	}
	n := 0
	for _, h := range hosts {
		for _, a := range apps {
			for _, st := range streams {
				for _, long := range []bool{false, true} {
					if long && st.s == "" {
						continue
					}
					name := "name"
					if long {
						name = "n-2.z"
					}
					n++
					if !r.Mine() {
						continue
					}
					raw := "rtmp://" + h.s + "/" + a + st.s
					r11Run(r, dir, raw+" as "+name, sOpt{hls: libhls.NONE, pulls: []string{name}, urls: []string{raw}}, func(g *sRig, bad func(key, f string, a ...interface{})) {
						nw := &r11Net{up: true}
						nw.attach(g)
						g.s.Idle()
						if len(nw.hosts) != 1 || nw.hosts[0] != h.a {
							bad("dial", "dials %q, want %q", nw.hosts, h.a)
							return
						}
						u := nw.last()
						ask, e := u.session(nil)
						if e != "" {
							bad("session", "%s", e)
							return
						}
						if ask.app != a {
							bad("app", "asks for app %q, want %q", ask.app, a)
						}
						if ask.tcURL != "rtmp://"+h.b+"/"+a && ask.tcURL != "rtmp://"+h.a+"/"+a {
							bad("tcurl", "tcUrl is %q, want %q", ask.tcURL, "rtmp://"+h.b+"/"+a)
						}
						if ask.play != st.a {
							bad("play", "plays %q, want %q", ask.play, st.a)
						}
						if !g.room(name) {
							bad("name", "not served as %s", name)
						}
						if g.room(st.a) && st.a != name {
							bad("name", "served as %s", st.a)
						}
						r.Eval("asked", raw+name)
					})
					if r.Expired() {
						r.Capped("URL forms")
						return
					}
				}
			}
		}
	}
	r.Note("%d URL forms: %d hosts (names, IPv4, IPv6, with and without port) x %d applications x %d streams (nested, with query, longer than a chunk, none) x 2 local names; dialled address, app, tcUrl and play name as the upstream sees them", n, len(hosts), len(apps), len(streams))
}

// r11Extras are things an upstream may say in between.
type r11Extra struct {
	name string
	f    func(u *r11Up)
}

func r11Extras() []r11Extra {
	ctl := func(typ byte, p ...byte) func(u *r11Up) {
		return func(u *r11Up) { u.send(v.Msg{Type: typ, CSID: 2, Payload: p}) }
	}
	return []r11Extra{
		{"window size", ctl(5, 0, 0x26, 0x25, 0xa0)},
		{"small window", ctl(5, 0, 0, 0, 200)},
		{"peer bandwidth", ctl(6, 0, 0x26, 0x25, 0xa0, 2)},
		{"chunk size 4096", func(u *r11Up) { u.send(v.SetChunkSize(2, 4096)); u.enc.Size = 4096 }},
		{"chunk size 50", func(u *r11Up) { u.send(v.SetChunkSize(2, 50)); u.enc.Size = 50 }},
		{"stream begin", ctl(4, 0, 0, 0, 0, 0, 1)},
		{"stream recorded", ctl(4, 0, 4, 0, 0, 0, 1)},
		{"ping", func(u *r11Up) {
			u.send(v.Msg{Type: 4, CSID: 2, Payload: []byte{0, 6, 1, 2, 3, 4}})
			u.sync()
			for i, m := range u.got {
				if m.Type == 4 && bytes.Equal(m.Payload, []byte{0, 7, 1, 2, 3, 4}) {
					u.got = append(u.got[:i:i], u.got[i+1:]...)
					return
				}
			}
			u.g.bad("ping", "a ping is not answered")
		}},
		{"bandwidth done", func(u *r11Up) { u.send(v.Msg{Type: 20, CSID: 3, Payload: v.AMF("onBWDone", 0, nil, 8192)}) }},
		{"play reset", func(u *r11Up) { u.send(r11Status(u.sid, "status", "NetStream.Play.Reset")) }},
		{"sample access", func(u *r11Up) {
			u.send(v.Msg{Type: 18, CSID: 5, SID: uint32(u.sid), Payload: v.AMF("|RtmpSampleAccess", true, true)})
		}},
		{"acknowledgement", ctl(3, 0, 0, 8, 0)},
		{"five seconds", func(u *r11Up) { u.sync(); u.g.s.Advance(5 * time.Second) }},
	}
}

// TestVerifR11Sessions: whatever a healthy upstream says around the stream, and whatever the stream
// is, viewers get exactly its media.
func TestVerifR11Sessions(t *testing.T) {
	r := v.Start(t)
	defer r.Finish()
	defer sQuiet()()
	dir := filepath.Join(r.Out(), "r11s")
	ops := r09Ops()
	extras := r11Extras()
	run := func(desc string, sid, reads int, ex []int, script []int, base, step uint32) {
		r11Run(r, dir, desc, sOpt{hls: libhls.NONE, pulls: []string{"s"}}, func(g *sRig, bad func(key, f string, a ...interface{})) {
			nw := &r11Net{up: true}
			nw.attach(g)
			g.s.Idle()
			u := nw.last()
			if u == nil {
				bad("no-pull", "the upstream is not called")
				return
			}
			if reads > 0 {
				u.c.LimitPeerReads(reads)
			}
			u.sid = sid
			ask, e := u.session(func(pos int) {
				for _, x := range ex {
					if x/len(extras) == pos {
						extras[x%len(extras)].f(u)
					}
				}
			})
			if e != "" {
				bad("session", "%s", e)
				return
			}
			if ask.play != "r0" || ask.app != "up" {
				bad("play", "asks for %v", ask)
			}
			if int(ask.sid) != sid && ask.sid != 0 {
				bad("play-stream", "play on message stream %d, created was %d", ask.sid, sid)
			}
			var all []r09Item
			type seen struct {
				w  sView
				at int
			}
			var ws []seen
			for i := 0; i <= len(script); i++ {
				w := g.view("flv", "s")
				w.join()
				g.s.Idle()
				ws = append(ws, seen{w, len(all)})
				if i < len(script) {
					m, it := r09Msgs(ops, script[i], i, base+uint32(i)*step)
					m.SID = uint32(sid)
					u.send(m)
					u.sync()
					all = append(all, it...)
				}
			}
			for _, w := range ws {
				if d := r11View(w.w, r09Expect(all, w.at)); d != "" {
					bad("media", "viewer after %d tags: %s", w.at, d)
					return
				}
			}
			if u.c.PeerClosed() {
				bad("dropped", "the upstream was hung up on")
			}
			for _, m := range u.got {
				if m.Type != 3 && m.Type != 5 {
					bad("chatter", "the pull says %v to the upstream", m)
				}
			}
			r.Eval(fmt.Sprintf("%d tags", min(len(all), 8)), desc)
		})
	}
	//what is said around the stream
	places := 4 * len(extras)
	deep := r.Pick(2, 3)
	var rec func(ex []int) bool
	rec = func(ex []int) bool {
		var names []string
		for _, x := range ex {
			names = append(names, fmt.Sprintf("%s at %d", extras[x%len(extras)].name, x/len(extras)))
		}
		for _, sid := range []int{1, 7} {
			for _, reads := range []int{0, 1} {
				if reads == 1 && len(ex) > 1 {
					continue
				}
				if r.Mine() {
					run(fmt.Sprintf("stream %d, reads of %d: %s", sid, reads, strings.Join(names, ", ")), sid, reads, ex, []int{0, 2, 4, 6, 8, 7, 12}, 0, 40)
				}
			}
		}
		if r.Expired() {
			return false
		}
		if len(ex) == deep {
			return true
		}
		for x := 0; x < places; x++ {
			if len(ex) > 0 && x/len(extras) < ex[len(ex)-1]/len(extras) {
				continue
			}
			if !rec(append(append([]int{}, ex...), x)) {
				return false
			}
		}
		return true
	}
	if !rec(nil) {
		r.Capped("things said around the stream")
		return
	}
	//the stream itself
	times := [][2]uint32{{0, 40}, {0xfffff0, 10}, {0xfffffff0, 9}, {5000, 0}}
	media := r.Pick(4, 5)
	k := 0
	for n := 1; n <= media; n++ {
		if !v.Sequences(9, n, n, func(s []int) bool {
			k++
			tt := times
			if n > 2 {
				tt = times[k%len(times):][:1]
			}
			for _, b := range tt {
				if !r.Mine() {
					continue
				}
				var names []string
				for _, o := range s {
					names = append(names, ops[o].name)
				}
				run(fmt.Sprintf("times from %d by %d: %s", b[0], b[1], strings.Join(names, ", ")), 1, 0, nil, append([]int{}, s...), b[0], b[1])
			}
			return !r.Expired()
		}) {
			r.Capped(fmt.Sprintf("streams of %d messages", n))
			return
		}
	}
	for o := range ops {
		if r.Mine() {
			run("with "+ops[o].name, 1, 0, nil, []int{0, 2, 4, 6, 8, o, 7, 8, 6, 7}, 0xffffe0, 7)
		}
	}
	//the upstream is this server itself
	cascade := func(script []int, how int) {
		var names []string
		for _, o := range script {
			names = append(names, ops[o].name)
		}
		desc := fmt.Sprintf("pulling from itself, ended in way %d: %s", how, strings.Join(names, ", "))
		r11Run(r, dir, desc, sOpt{hls: libhls.NONE, pulls: []string{"copy"}, urls: []string{"rtmp://h/live/orig?x=1"}}, func(g *sRig, bad func(key, f string, a ...interface{})) {
			g.dial = func(string) (net.Conn, error) { return g.s.Connect(1935) }
			g.s.Idle()
			g.s.Advance(time.Second)
			if g.room("copy") {
				bad("kept", "the name is taken although the upstream has no such stream")
			}
			if a := g.s.Alive(); len(a) != g.base {
				bad("leak", "%d goroutines, %d at first: %v", len(a), g.base, a)
			}
			p := g.pub("rtmp", 0, "orig?x=1").(*sRTMP)
			p.prepare()
			vs.Go(p.claim)
			g.s.Idle()
			for i := 0; i < 64 && !g.room("copy"); i++ {
				g.s.Advance(time.Second)
			}
			if p.result() != won || !g.room("copy") {
				bad("no-pull", "published: %v, pulled: %v", p.result(), g.room("copy"))
				return
			}
			w := g.view("flv", "copy")
			w.join()
			g.s.Idle()
			var all []r09Item
			for i, o := range script {
				m, it := r09Msgs(ops, o, i, 1000+uint32(i)*40)
				p.k.send(m)
				g.s.Idle()
				all = append(all, it...)
			}
			if d := r11View(w, r09Expect(all, 0)); d != "" {
				bad("media", "%s", d)
			}
			p.leave(how)
			g.s.Idle()
			if g.room("copy") || !w.released() {
				bad("kept", "the upstream has ended: name taken %v, viewer released %v", g.room("copy"), w.released())
			}
			p.leave(0)
			g.s.Idle()
			if a := g.s.Alive(); len(a) != g.base {
				bad("leak", "%d goroutines, %d at first: %v", len(a), g.base, a)
			}
			r.Eval("cascade", desc)
		})
	}
	for n := 1; n <= r.Pick(3, 4); n++ {
		if !v.Sequences(9, n, n, func(s []int) bool {
			k++
			if r.Mine() {
				cascade(append([]int{}, s...), k%3)
			}
			return !r.Expired()
		}) {
			r.Capped("streams pulled from itself")
			return
		}
	}
	r.Note("every way to say up to %d of %d things at 4 places of the session, 2 stream ids, whole and single-byte reads; every stream of up to %d messages over 9 kinds and each of %d kinds in a usual stream; FLV viewers joining at every position; every stream of up to %d messages through a server that pulls from itself, ended in 3 ways", deep, len(extras), media, len(ops), r.Pick(3, 4))
}

// r11Failure is a way in which an upstream ends or fails once it has said so much.
type r11Failure struct {
	name string
	f    func(u *r11Up)
	wait int //seconds in which the pull has to give up (0: at once)
	from int //first stage in which it applies
	to   int
}

func r11Failures() []r11Failure {
	say := func(name string, from, to int, m func(u *r11Up) v.Msg) r11Failure {
		return r11Failure{name, func(u *r11Up) { u.cut, u.stop = false, -1; u.send(m(u)) }, 0, from, to}
	}
	raw := func(name string, from, to int, b ...byte) r11Failure {
		return r11Failure{name, func(u *r11Up) { u.c.Write(b) }, 0, from, to}
	}
	cmd := func(vals ...interface{}) func(u *r11Up) v.Msg {
		return func(u *r11Up) v.Msg { return v.Msg{Type: 20, CSID: 3, Payload: v.AMF(vals...)} }
	}
	refuse := v.Obj{{K: "level", V: "error"}, {K: "code", V: "NetConnection.Connect.Rejected"}, {K: "description", V: "no"}}
	return []r11Failure{
		//stages: 0 handshake, 1 connect sent, 2 createStream sent, 3 play sent, 4 media
		{"closes", func(u *r11Up) { u.c.Close() }, 0, 0, 4},
		{"closes its direction", func(u *r11Up) { u.c.CloseWrite() }, 0, 0, 4},
		{"falls silent", func(u *r11Up) {}, 60, 0, 2},
		say("refuses connect", 1, 1, cmd("_error", 1, nil, refuse)),
		say("refuses createStream", 2, 2, cmd("_error", 2, nil, nil)),
		say("refuses play", 3, 3, cmd("_error", 3, nil, refuse)),
		say("has no such stream", 3, 3, func(u *r11Up) v.Msg { return r11Status(u.sid, "error", "NetStream.Play.StreamNotFound") }),
		say("fails the play", 3, 4, func(u *r11Up) v.Msg { return r11Status(u.sid, "error", "NetStream.Play.Failed") }),
		say("stops", 4, 4, func(u *r11Up) v.Msg { return r11Status(u.sid, "status", "NetStream.Play.Stop") }),
		say("is unpublished", 4, 4, func(u *r11Up) v.Msg { return r11Status(u.sid, "status", "NetStream.Play.UnpublishNotify") }),
		say("ends the stream", 4, 4, func(u *r11Up) v.Msg {
			return v.Msg{Type: 4, CSID: 2, Payload: v.Cat([]byte{0, 1}, v.U32(uint32(u.sid)))}
		}),
		raw("sends a message of no type", 1, 4, 0x04, 0, 0, 0, 0, 0, 1, 0x63, 0, 0, 0, 0, 7),
		raw("continues nothing", 1, 4, 0xc0|0x3f),
		raw("sends chunk size 0", 1, 4, 0x02, 0, 0, 0, 0, 0, 4, 1, 0, 0, 0, 0, 0, 0, 0, 0),
		raw("sends a cut command", 1, 4, 0x03, 0, 0, 0, 0, 0, 5, 20, 0, 0, 0, 0, 2, 0, 9, 'x', 'y'),
	}
}

// r11Stages drives a session and stops after the given number of bytes of the upstream; it returns the
// viewer that joined, if the session went that far.
func r11Drive(g *sRig, u *r11Up) (w sView, stage int) {
	_, e := u.session(nil)
	if e == "" {
		w = g.view("flv", "s")
		w.join()
		g.s.Idle()
		ops := r09Ops()
		for i, o := range []int{0, 2, 6, 8, 7} {
			m, _ := r09Msgs(ops, o, i, uint32(1000+20*i))
			u.send(m)
			u.sync()
		}
	}
	return w, 0
}

// TestVerifR11Failures: the upstream fails at every byte of a session and in every manner at every
// message; the name is free again, and the next attempt serves the stream anew.
func TestVerifR11Failures(t *testing.T) {
	r := v.Start(t)
	defer r.Finish()
	defer sQuiet()()
	dir := filepath.Join(r.Out(), "r11f")
	opt := sOpt{hls: libhls.NONE, pulls: []string{"s"}}
	//the length of a session and where its messages end
	var ends []int
	var stages []int
	total := 0
	r11Run(r, dir, "whole session", opt, func(g *sRig, bad func(key, f string, a ...interface{})) {
		nw := &r11Net{up: true}
		nw.attach(g)
		g.s.Idle()
		u := nw.last()
		if u == nil {
			bad("no-pull", "the upstream is not called")
			return
		}
		if _, e := u.session(func(pos int) {
			ends = append(ends, u.sent)
			stages = append(stages, pos+1)
		}); e != "" {
			bad("session", "%s", e)
			return
		}
		ops := r09Ops()
		for i, o := range []int{0, 2, 6, 8, 7} {
			m, _ := r09Msgs(ops, o, i, uint32(1000+20*i))
			u.send(m)
			ends = append(ends, u.sent)
			stages = append(stages, 4)
		}
		total = u.sent
	})
	if total == 0 {
		return
	}
	ends = append([]int{0, 1, 1537}, ends...)
	stages = append([]int{0, 0, 0}, stages...)
	stageOf := func(n int) int {
		s := 0
		for i, e := range ends {
			if n >= e {
				s = stages[i]
			}
		}
		return s
	}
	fails := r11Failures()
	one := func(n int, f r11Failure, dash bool) {
		o := opt
		if dash {
			o.hls, o.dash = libhls.IMMEDIATELY, true
		}
		r11Run(r, dir, fmt.Sprintf("upstream %s after %d bytes", f.name, n), o, func(g *sRig, bad func(key, f string, a ...interface{})) {
			nw := &r11Net{up: true}
			nw.attach(g)
			g.s.Idle()
			u := nw.last()
			if u == nil {
				bad("no-pull", "the upstream is not called")
				return
			}
			u.stop = n
			if n == 0 {
				u.cut = true
			}
			if !g.room("s") {
				bad("not-claimed", "the stream is not there while pulled")
			}
			w, _ := r11Drive(g, u)
			if u.c.PeerClosed() {
				bad("early", "the pull hung up before the failure")
				return
			}
			nw.up = false
			f.f(u)
			g.s.Idle()
			for i := 0; i < f.wait; i++ {
				if !g.room("s") {
					break
				}
				g.s.Advance(time.Second)
			}
			if g.room("s") {
				bad("kept", "the name is still taken")
				return
			}
			if !u.c.PeerClosed() {
				bad("conn", "the connection to the upstream is still open")
			}
			if w != nil && !w.released() {
				bad("viewer", "the viewer still waits")
			}
			if a := g.s.Alive(); len(a) != g.base {
				bad("leak", "%d goroutines, %d at first: %v", len(a), g.base, a)
			}
			//it tries again, whatever happens in between
			tries := len(nw.hosts)
			for i := 0; i < 64 && len(nw.hosts) == tries; i++ {
				g.s.Advance(time.Second)
			}
			if len(nw.hosts) == tries {
				bad("gave-up", "no further attempt within 64 s")
				return
			}
			if g.room("s") {
				bad("kept", "the name is taken although the upstream cannot be reached")
			}
			nw.up = true
			calls := len(nw.conns)
			for i := 0; i < 64 && len(nw.conns) == calls; i++ {
				g.s.Advance(time.Second)
			}
			if len(nw.conns) == calls {
				bad("gave-up", "no attempt within 64 s after a refused one")
				return
			}
			r11Healthy(g, nw, "s", "second session", bad)
			r.Eval(f.name, fmt.Sprint(n, f.name, dash))
		})
	}
	for n := 0; n <= total; n++ {
		if !r.Mine() {
			continue
		}
		boundary := false
		for _, e := range ends {
			boundary = boundary || e == n
		}
		st := stageOf(n)
		for i, f := range fails {
			if i >= 3 && !boundary || st < f.from || st > f.to {
				continue
			}
			one(n, f, false)
			if boundary && i < 2 {
				one(n, f, true)
			}
			if r.Expired() {
				r.Capped("failure points")
				return
			}
		}
	}
	r.Note("a session of %d bytes cut at every byte by a close of the connection or of one direction or by silence, and at every message end by %d kinds of failure, refusals and ends; then a refused attempt and a healthy second session", total, len(fails))
}

// TestVerifR11Histories: every history of an unreliable upstream and local publishers of the name.
func TestVerifR11Histories(t *testing.T) {
	r := v.Start(t)
	defer r.Finish()
	defer sQuiet()()
	dir := filepath.Join(r.Out(), "r11h")
	names := []string{"upstream reachable", "upstream unreachable", "upstream fails", "local publish", "local end", "a minute", "frames", "foreign chunk"}
	depth := r.Pick(6, 8)
	history := func(h []int) {
		var ds []string
		for _, e := range h {
			ds = append(ds, names[e])
		}
		r11Run(r, dir, strings.Join(ds, ", "), sOpt{hls: libhls.NONE, pulls: []string{"s"}}, func(g *sRig, bad func(key, f string, a ...interface{})) {
			nw := &r11Net{}
			nw.attach(g)
			g.s.Idle()
			var local sPub   //owner, if local
			var up *r11Up    //owner, if pulled
			var view sView   //of the present owner
			var want []v.Msg //what it has to have
			ts, locals, calls := uint32(0), 0, 0
			var ended []sPub
			ops := r09Ops()
			check := func(what string) {
				if g.room("s") != (local != nil || up != nil) {
					bad("name", "%s: name taken is %v, local %v, pull %v", what, g.room("s"), local != nil, up != nil)
				}
				if view != nil {
					if local != nil {
						if mk := g.only(what, view.tags()); mk != -1 && mk != local.mark() {
							bad("foreign", "%s: viewer of the local stream sees mark %x", what, mk)
						}
					}
					if up != nil {
						if d := r11View(view, want); d != "" {
							bad("media", "%s: %s", what, d)
						}
					}
				}
				if local != nil && local.ended() {
					bad("disturbed", "%s: the local publisher was dropped", what)
				}
				if up != nil && up.c.PeerClosed() {
					bad("dropped", "%s: the upstream was hung up on", what)
				}
			}
			watch := func() {
				view, want = g.view("flv", "s"), nil
				view.join()
				g.s.Idle()
				if !view.joined() {
					bad("not-served", "the stream is not found")
				}
			}
			unwatch := func(what string) {
				g.s.Idle()
				if view != nil && !view.released() {
					bad("viewer", "%s: the viewer still waits", what)
				}
				view = nil
			}
			//pulled looks at attempts that reached the upstream
			pulled := func(what string) {
				for ; calls < len(nw.conns); calls++ {
					c := nw.conns[calls]
					if local != nil || up != nil {
						if !c.c.PeerClosed() {
							bad("second", "%s: pulls although the name is taken", what)
						}
						continue
					}
					if _, e := c.session(nil); e != "" {
						bad("session", "%s: %s", what, e)
						return
					}
					up = c
					watch()
				}
			}
			for i, e := range h {
				what := fmt.Sprintf("event %d (%s)", i, names[e])
				switch e {
				case 0:
					nw.up = true
				case 1:
					nw.up = false
				case 2:
					if up != nil {
						up.c.Close()
						up = nil
						unwatch(what)
					}
				case 3:
					p := g.pub("rtmp", locals, "s")
					locals++
					p.prepare()
					vs.Go(p.claim)
					g.s.Idle()
					free := local == nil && up == nil
					if free != (p.result() == won) {
						bad("claim", "%s: local publish is %s, name free: %v", what, p.result(), free)
						return
					}
					if free {
						local = p
						watch()
					} else {
						p.leave(0)
					}
				case 4:
					if local != nil {
						local.leave(i % local.ways())
						ended = append(ended, local)
						local = nil
						unwatch(what)
					}
				case 5:
					for s := 0; s < 64; s++ {
						g.s.Advance(time.Second)
						pulled(what)
					}
					if nw.up && local == nil && up == nil {
						bad("gave-up", "%s: the name is free, the upstream reachable, and not pulled", what)
					}
				case 6:
					if local != nil {
						n := sFrames(view.tags(), local.mark())
						local.frame(true)
						local.frame(false)
						g.s.Idle()
						if m := sFrames(view.tags(), local.mark()); m != n+2 {
							bad("frames", "%s: %d frames of 2 reach the viewer", what, m-n)
						}
					}
					if up != nil {
						for _, o := range []int{2, 6, 7} {
							ts += 40
							m, it := r09Msgs(ops, o, i, ts)
							up.send(m)
							up.sync()
							for _, x := range it {
								want = append(want, x.m)
							}
						}
					}
				case 7:
					//what only clients may say
					if up != nil {
						up.send(v.Msg{Type: 20, CSID: 3, Payload: v.AMF("publish", 9, nil, "other", "live")})
						up.send(v.Msg{Type: 20, CSID: 3, Payload: v.AMF("FCUnpublish", 9, nil, "s")})
						up.sync()
						if g.room("other") {
							bad("commanded", "%s: the upstream publishes another stream here", what)
						}
						if up.c.PeerClosed() { //hanging up is fine as well
							up = nil
							unwatch(what)
						}
					}
				}
				g.s.Idle()
				pulled(what)
				check(what)
			}
			//the end
			nw.up = false
			if local != nil {
				local.leave(0)
				local = nil
				unwatch("end")
			}
			if up != nil {
				up.c.Close()
				up = nil
				unwatch("end")
			}
			for _, p := range ended {
				p.leave(0)
			}
			g.s.Idle()
			check("end")
			if a := g.s.Alive(); len(a) != g.base {
				bad("leak", "%d goroutines, %d at first: %v", len(a), g.base, a)
			}
			r.Eval(fmt.Sprintf("%d calls", len(nw.conns)), strings.Join(ds, ","))
		})
	}
	if !v.Sequences(len(names), depth, depth, func(s []int) bool {
		for i, e := range s {
			if i > 0 && s[i-1] == e && e != 3 && e != 6 {
				return true //says nothing new
			}
		}
		if s[0] == 2 || s[0] == 1 || s[0] == 4 || s[0] >= 6 {
			return true //nothing to act on yet
		}
		if r.Mine() {
			history(append([]int{}, s...))
		}
		return !r.Expired()
	}) {
		r.Capped("histories")
		return
	}
	//pulls of several streams do not depend on each other, and an unknown application harms nobody
	if r.Mine() {
		o := sOpt{hls: libhls.NONE, pulls: []string{"a", "nowhere:x", "b"}, urls: []string{"rtmp://h1/up/a", "rtmp://h2/up/x", "rtmp://h3/up/b"}}
		r11Run(r, dir, "three pulls, one into an unknown application", o, func(g *sRig, bad func(key, f string, a ...interface{})) {
			by := map[string]*r11Net{}
			g.dial = func(host string) (net.Conn, error) {
				if by[host] == nil {
					by[host] = &r11Net{up: true}
				}
				x, y := vs.Pipe()
				by[host].conns = append(by[host].conns, r11Accept(g, x))
				return y, nil
			}
			g.s.Idle()
			a, x, b := by["h1:1935"], by["h2:1935"], by["h3:1935"]
			if a == nil || b == nil {
				bad("no-pull", "not all upstreams are called: %v", by)
				return
			}
			if x != nil && !x.last().c.PeerClosed() {
				bad("unknown-app", "pulls into an unknown application")
			}
			if r11Healthy(g, a, "a", "first", bad) == nil || r11Healthy(g, b, "b", "second", bad) == nil {
				return
			}
			a.last().c.Close()
			g.s.Idle()
			if g.room("a") || !g.room("b") {
				bad("independent", "after a fails: a %v, b %v", g.room("a"), g.room("b"))
			}
			b.last().send(r11Status(1, "status", "NetStream.Play.PublishNotify"))
			for i := 0; i < 5; i++ {
				g.s.Advance(time.Second)
			}
			if !g.room("a") || !g.room("b") {
				bad("independent", "later: a %v, b %v", g.room("a"), g.room("b"))
			}
			r11Healthy(g, a, "a", "again", bad)
			r.Eval("three pulls", "three")
		})
	}
	r.Note("every history of %d events over %d kinds (upstream reachable, unreachable, failing, local publish and end, a minute passing, frames, commands from the upstream); three pulls at once", depth, len(names))
}
