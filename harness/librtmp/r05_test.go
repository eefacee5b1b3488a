//go:build go1.25

package librtmp

import (
	"bytes"
	"fmt"
	"strings"
	"testing"
	"testing/synctest"

	v "github.com/sbraveyoung/GGmpeg/verif_vlib"
)

// R05: every sequence of commands on one connection up to a depth, while other connections publish
// and watch streams of the same application.

type r05Rig struct {
	r          *v.Run
	srv        *server
	ex, ey     *cli //publishers of x and y
	vx, vy     *cli //their viewers
	n          int  //frames published
	k          *cli
	log        []string
	connected  bool
	publishing bool
	playing    string
	txn        float64
	last       []byte //video published by the connection itself
	over       bool
	amf3       bool //commands travel as AMF3 messages: a format byte of 0, then AMF0 values
}

func newR05Rig(r *v.Run) (*r05Rig, error) {
	g := &r05Rig{r: r, srv: NewServer(":0", "live")}
	var err error
	for _, s := range []struct {
		e, v **cli
		name string
	}{{&g.ex, &g.vx, "x"}, {&g.ey, &g.vy, "y"}} {
		if *s.e, err = publishRTMP(g.srv, "live", s.name); err != nil {
			return nil, err
		}
		(*s.e).send(v.Msg{Type: 9, CSID: 6, SID: 1, Payload: vSeq})
		(*s.e).send(v.Msg{Type: 8, CSID: 4, SID: 1, Payload: aSeq})
		synctest.Wait()
		if *s.v, _, err = playRTMP(g.srv, "live", s.name); err != nil {
			return nil, err
		}
	}
	if e := g.others(); e != "" {
		return nil, fmt.Errorf("%s", e)
	}
	return g, nil
}

// others publishes a frame of x and of y and checks that exactly these reach the other viewers.
func (g *r05Rig) others() string {
	g.n++
	bx, by := vKey(g.n, 12, 0), vKey(g.n+500000, 14, 0)
	m := v.Msg{Type: 9, CSID: 6, SID: 1, TS: uint32(g.n)}
	m.Payload = bx
	g.ex.send(m)
	m.Payload = by
	g.ey.send(m)
	synctest.Wait()
	for _, p := range []struct {
		k    *cli
		body []byte
		name string
	}{{g.vx, bx, "x"}, {g.vy, by, "y"}} {
		got := p.k.sync()
		p.k.got = nil
		if len(got) == 0 || len(media(got)) != len(got) || !bytes.Equal(got[len(got)-1].Payload, p.body) {
			return fmt.Sprintf("the viewer of %s received %v", p.name, got)
		}
		if g.n > 1 && len(got) != 1 {
			return fmt.Sprintf("the viewer of %s received %d messages for one frame", p.name, len(got))
		}
		if p.k.c.PeerClosed() {
			return "the viewer of " + p.name + " was dropped"
		}
	}
	for _, p := range []*cli{g.ex, g.ey} {
		if p.c.PeerClosed() {
			return "another publisher was dropped"
		}
		for _, x := range p.sync() {
			if x.Type == 20 {
				return fmt.Sprintf("another publisher received %v", x)
			}
		}
		p.got = nil
	}
	return ""
}

func (g *r05Rig) open() error {
	g.k = dialRTMP(g.srv, "c")
	g.log, g.connected, g.publishing, g.playing, g.txn, g.last, g.over = nil, false, false, "", 0, nil, false
	return g.k.hello()
}

type r05Op struct {
	name string
	send func(g *r05Rig)
	//judge checks the command messages answered and updates the model; other messages are media
	judge func(g *r05Rig, cmds []v.Msg, med []v.Msg) string
	//free: may also be met with the end of the connection in the current state
	mayDrop func(g *r05Rig) bool
}

func (g *r05Rig) cmd(vals ...interface{}) {
	//1, 2, then numbers that need ever more bits: all are exact in a double
	if g.txn < 2 {
		g.txn++
	} else if g.txn = g.txn*16 + 15; g.txn > 1<<50 {
		g.txn = 300
	}
	vals = append([]interface{}{vals[0], g.txn}, vals[1:]...)
	m := v.Msg{Type: 20, CSID: 3, Payload: v.AMF(vals...)}
	if g.amf3 {
		m.Type, m.Payload = 17, v.Cat([]byte{0}, m.Payload)
	}
	g.k.send(m)
}

// result checks for one _result of the transaction.
func (g *r05Rig) result(cmds []v.Msg) string {
	if len(cmds) != 1 {
		return fmt.Sprintf("%d answers", len(cmds))
	}
	vals, err := v.UnAMF(cmds[0].Payload)
	if err != nil || len(vals) < 2 || vals[0] != "_result" {
		return fmt.Sprintf("answer %v %v", vals, err)
	}
	if vals[1] != g.txn {
		return fmt.Sprintf("result of transaction %v, asked in %v", vals[1], g.txn)
	}
	return ""
}

// onStatus checks for one onStatus and returns its code.
func onStatus(cmds []v.Msg) (codes []string, level string, bad string) {
	for _, m := range cmds {
		n, o, ok := status(m)
		if !ok || n != "onStatus" || o == nil {
			return nil, "", fmt.Sprintf("answer %q %v", n, o)
		}
		c, _ := o.Get("code").(string)
		level, _ = o.Get("level").(string)
		codes = append(codes, c)
	}
	return
}

func (g *r05Rig) oneStatus(cmds []v.Msg, want string) string {
	codes, level, bad := onStatus(cmds)
	if bad != "" {
		return bad
	}
	if len(codes) != 1 || codes[0] != want || level != "status" {
		return fmt.Sprintf("answered %v (%s), expected %s", codes, level, want)
	}
	return ""
}

// refused checks for one error status.
func (g *r05Rig) refused(cmds []v.Msg, want string) string {
	codes, level, bad := onStatus(cmds)
	if bad != "" {
		return bad
	}
	if len(codes) != 1 || level != "error" || want != "" && codes[0] != want {
		return fmt.Sprintf("answered %v (%s), expected an error %s", codes, level, want)
	}
	return ""
}

func noMedia(med []v.Msg) string {
	if len(med) > 0 {
		return fmt.Sprintf("received %v", med)
	}
	return ""
}

// endPublish is the model's end of whatever the connection does.
func (g *r05Rig) endAll() { g.publishing, g.playing, g.last = false, "", nil }

func r05Ops() []r05Op {
	play := func(stream string) r05Op {
		return r05Op{
			name: "play " + stream,
			send: func(g *r05Rig) { g.cmd("play", nil, stream) },
			judge: func(g *r05Rig, cmds, med []v.Msg) string {
				exists := stream == "x" || stream == "y" || stream == "p" && g.publishing
				if !exists && !g.publishing {
					if e := g.refused(cmds, "NetStream.Play.StreamNotFound"); e != "" {
						return e
					}
					return noMedia(med)
				}
				if g.publishing {
					if e := g.refused(cmds, ""); e != "" {
						return e
					}
					return noMedia(med)
				}
				codes, _, bad := onStatus(cmds)
				n := 0
				for _, c := range codes {
					if strings.Contains(c, "NotFound") || strings.Contains(c, "Failed") {
						bad = "answered " + c
					}
					if c == "NetStream.Play.Start" {
						n++
					}
				}
				if n != 1 && bad == "" {
					bad = fmt.Sprintf("answered %v", codes)
				}
				if bad != "" {
					return bad
				}
				g.playing = stream
				//what is there to see at once: headers, then the group of the last frame
				want := []v.Msg{{Type: 9, Payload: vSeq}, {Type: 8, Payload: aSeq}, {Type: 9, Payload: g.frame(stream)}}
				if len(med) != 3 {
					return fmt.Sprintf("received %v", med)
				}
				for i := range want {
					if med[i].Type != want[i].Type || !bytes.Equal(med[i].Payload, want[i].Payload) {
						return fmt.Sprintf("received %v", med)
					}
				}
				return ""
			},
			mayDrop: func(g *r05Rig) bool { return !g.connected },
		}
	}
	publish := func(stream string) r05Op {
		return r05Op{
			name: "publish " + stream,
			send: func(g *r05Rig) { g.cmd("publish", nil, stream, "live") },
			judge: func(g *r05Rig, cmds, med []v.Msg) string {
				if e := noMedia(med); e != "" {
					return e
				}
				if !g.connected {
					return g.refused(cmds, "")
				}
				if stream == "x" || g.publishing && stream == "p" {
					return g.refused(cmds, "NetStream.Publish.BadName")
				}
				if g.playing != "" {
					//one stream per connection
					return g.refused(cmds, "")
				}
				if e := g.oneStatus(cmds, "NetStream.Publish.Start"); e != "" {
					return e
				}
				g.publishing = true
				return ""
			},
			mayDrop: func(g *r05Rig) bool { return !g.connected },
		}
	}
	simple := func(name string, want string, vals ...interface{}) r05Op {
		return r05Op{
			name: name,
			send: func(g *r05Rig) { g.cmd(vals...) },
			judge: func(g *r05Rig, cmds, med []v.Msg) string {
				if e := noMedia(med); e != "" {
					return e
				}
				if want == "" {
					return g.result(cmds)
				}
				return g.oneStatus(cmds, want)
			},
			mayDrop: func(g *r05Rig) bool { return !g.connected },
		}
	}
	end := func(name string, always bool, vals ...interface{}) r05Op {
		return r05Op{
			name: name,
			send: func(g *r05Rig) { g.cmd(vals...) },
			judge: func(g *r05Rig, cmds, med []v.Msg) string {
				if e := noMedia(med); e != "" {
					return e
				}
				if always {
					g.endAll()
				} else if g.publishing && vals[2] == "p" {
					g.endAll()
				}
				return g.oneStatus(cmds, "NetStream.Unpublish.Success")
			},
			mayDrop: func(g *r05Rig) bool { return !g.connected },
		}
	}
	return []r05Op{
		{
			name: "connect live",
			send: func(g *r05Rig) {
				c := v.Obj{{K: "app", V: "live"}, {K: "tcUrl", V: "rtmp://h/live"}}
				if g.amf3 {
					c = append(c, v.Obj{{K: "objectEncoding", V: 3.0}}...)
				}
				g.cmd("connect", c)
			},
			judge: func(g *r05Rig, cmds, med []v.Msg) string {
				if e := noMedia(med); e != "" {
					return e
				}
				if e := g.result(cmds); e != "" {
					return e
				}
				if _, o, _ := status(cmds[0]); o.Get("code") != "NetConnection.Connect.Success" {
					return fmt.Sprintf("answered %v", o)
				}
				g.connected = true
				return ""
			},
			mayDrop: func(g *r05Rig) bool { return g.connected },
		},
		{
			name: "connect nowhere",
			send: func(g *r05Rig) {
				g.cmd("connect", v.Obj{{K: "app", V: "nowhere"}, {K: "tcUrl", V: "rtmp://h/nowhere"}})
			},
			judge: func(g *r05Rig, cmds, med []v.Msg) string {
				if e := noMedia(med); e != "" {
					return e
				}
				for _, m := range cmds {
					if vals, _ := v.UnAMF(m.Payload); len(vals) > 0 && vals[0] != "_error" {
						return fmt.Sprintf("answered %v", vals)
					}
				}
				return ""
			},
			mayDrop: func(g *r05Rig) bool { return true },
		},
		simple("releaseStream p", "", "releaseStream", nil, "p"),
		simple("releaseStream x", "", "releaseStream", nil, "x"),
		simple("FCPublish x", "", "FCPublish", nil, "x"),
		{
			name: "createStream",
			send: func(g *r05Rig) { g.cmd("createStream", nil) },
			judge: func(g *r05Rig, cmds, med []v.Msg) string {
				if e := noMedia(med); e != "" {
					return e
				}
				if e := g.result(cmds); e != "" {
					return e
				}
				vals, _ := v.UnAMF(cmds[0].Payload)
				if len(vals) != 4 || vals[2] != nil {
					return fmt.Sprintf("answered %v", vals)
				}
				if _, ok := vals[3].(float64); !ok {
					return fmt.Sprintf("answered %v", vals)
				}
				return ""
			},
			mayDrop: func(g *r05Rig) bool { return !g.connected },
		},
		publish("p"),
		publish("x"),
		play("x"),
		play("y"),
		play("p"),
		simple("pause", "NetStream.Pause.Notify", "pause", nil, true, 0),
		simple("unpause", "NetStream.Unpause.Notify", "pause", nil, false, 0),
		simple("seek", "NetStream.Seek.Notify", "seek", nil, 1000),
		simple("receiveAudio", "", "receiveAudio", nil, false),
		simple("receiveVideo", "", "receiveVideo", nil, false),
		end("FCUnpublish p", false, "FCUnpublish", nil, "p"),
		end("FCUnpublish x", false, "FCUnpublish", nil, "x"),
		end("deleteStream", true, "deleteStream", nil, 1),
		end("closeStream", true, "closeStream", nil),
		{
			name: "unknown command",
			send: func(g *r05Rig) { g.cmd("getStreamLength", nil, "x") },
			judge: func(g *r05Rig, cmds, med []v.Msg) string {
				if len(cmds) > 1 {
					return fmt.Sprintf("%d answers", len(cmds))
				}
				return noMedia(med)
			},
			mayDrop: func(g *r05Rig) bool { return !g.connected },
		},
		{
			name: "frame",
			send: func(g *r05Rig) {
				g.n++
				b := vKey(g.n+900000, 16, 0)
				g.k.send(v.Msg{Type: 9, CSID: 6, SID: 1, TS: uint32(g.n), Payload: b})
				if g.publishing {
					g.last = b
				}
			},
			judge: func(g *r05Rig, cmds, med []v.Msg) string {
				if len(cmds) > 0 {
					return fmt.Sprintf("%d answers to a frame", len(cmds))
				}
				return noMedia(med)
			},
			mayDrop: func(g *r05Rig) bool { return !g.publishing },
		},
	}
}

func (g *r05Rig) frame(stream string) []byte {
	if stream == "y" {
		return vKey(g.lastN()+500000, 14, 0)
	}
	return vKey(g.lastN(), 12, 0)
}

var r05Last int

func (g *r05Rig) lastN() int { return r05Last }

func (g *r05Rig) step(op *r05Op) string {
	g.log = append(g.log, op.name)
	op.send(g)
	got := g.k.sync()
	if g.k.dec.Err != nil {
		return "undecodable: " + g.k.dec.Err.Error()
	}
	var cmds, med []v.Msg
	for _, m := range got {
		switch m.Type {
		case 20:
			cmds = append(cmds, m)
		case 8, 9, 18:
			med = append(med, m)
		}
	}
	if g.k.c.PeerClosed() {
		if !op.mayDrop(g) {
			return "the connection was closed"
		}
		g.over = true
		g.endAll()
	} else if e := op.judge(g, cmds, med); e != "" {
		return e
	}
	return g.world()
}

// world checks what the others see, and that a player gets the next frame.
func (g *r05Rig) world() string {
	app := g.srv.apps["live"]
	if has := app.Load("p") != nil; has != g.publishing {
		return fmt.Sprintf("stream p exists=%v, the connection publishes it=%v", has, g.publishing)
	}
	if e := g.others(); e != "" {
		return e
	}
	r05Last = g.n
	if g.over {
		return ""
	}
	got := g.k.sync()
	if g.k.c.PeerClosed() {
		return "the connection was closed"
	}
	if g.playing == "" {
		if len(got) > 0 {
			return fmt.Sprintf("received %v while not playing", got)
		}
		return ""
	}
	if len(got) != 1 || got[0].Type != 9 || !bytes.Equal(got[0].Payload, g.frame(g.playing)) {
		return fmt.Sprintf("playing %s, received %v for one frame", g.playing, got)
	}
	return ""
}

func (g *r05Rig) end() string {
	var bad string
	if g.publishing {
		k, got, err := playRTMP(g.srv, "live", "p")
		med := media(got)
		switch {
		case err != nil:
			bad = "viewer of p: " + err.Error()
		case g.last == nil && len(med) > 0 || g.last != nil && (len(med) != 1 || !bytes.Equal(med[0].Payload, g.last)):
			bad = fmt.Sprintf("a viewer of p received %v, published was %x", med, g.last)
		}
		k.closeWait()
	}
	g.k.c.Close()
	synctest.Wait()
	select {
	case <-g.k.done:
	default:
		return "the session does not end with its connection"
	}
	g.endAll()
	if bad != "" {
		return bad
	}
	g.over = true
	return g.world()
}

func TestVerifR05(t *testing.T) {
	r := v.Start(t)
	defer r.Finish()
	synctest.Test(t, func(t *testing.T) {
		g, err := newR05Rig(r)
		if err != nil {
			r.Violation("r05:rig", "publishers and viewers of two streams", "%v", err)
			return
		}
		defer func() {
			for _, k := range []*cli{g.ex, g.ey, g.vx, g.vy} {
				k.closeWait()
			}
		}()
		r05Last = g.n
		ops := r05Ops()
		run := func(seq []int) bool {
			if err := g.open(); err != nil {
				r.Violation("r05:hello", "handshake", "%v", err)
				return false
			}
			fail := func(e string) bool {
				name := "end"
				if len(g.log) > 0 {
					name = g.log[len(g.log)-1]
				}
				if g.amf3 {
					g.log = append([]string{"with AMF3 messages"}, g.log...)
				}
				r.Violation("r05:"+name, strings.Join(g.log, ", "), "after %s: %s", strings.Join(g.log, ", "), e)
				g.k.closeWait()
				return false
			}
			for _, i := range seq {
				if e := g.step(&ops[i]); e != "" {
					return fail(e)
				}
				if g.over {
					break
				}
			}
			if e := g.end(); e != "" {
				return fail(e)
			}
			r.Eval("ok", fmt.Sprint(g.amf3, seq))
			return true
		}
		each := func(prefix []int, depth int) bool {
			ok := true
			v.Sequences(len(ops), depth, depth, func(s []int) bool {
				if !r.Mine() {
					return true
				}
				if r.Expired() {
					r.Capped("budget")
					ok = false
					return false
				}
				seq := append(append([]int(nil), prefix...), s...)
				r.Journal("r05 %v amf3 %v", seq, g.amf3)
				if !run(seq) && r.Violations() > 20 {
					ok = false
					return false
				}
				return true
			})
			return ok
		}
		each(nil, 1)
		each(nil, 2)
		for d := 1; d <= r.Pick(4, 5); d++ {
			if !each([]int{0}, d) {
				return
			}
		}
		g.amf3 = true
		for d := 1; d <= r.Pick(2, 3); d++ {
			if !each([]int{0}, d) {
				return
			}
		}
		r.Note("every sequence of %d operations up to length %d after connect, up to %d with the commands sent as AMF3 messages", len(ops), r.Pick(4, 5), r.Pick(2, 3))
	})
}
