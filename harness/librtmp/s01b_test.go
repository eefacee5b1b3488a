//go:build go1.25

package librtmp

import (
	"fmt"
	"path/filepath"
	"testing"

	v "github.com/sbraveyoung/GGmpeg/verif_vlib"
	vs "github.com/sbraveyoung/GGmpeg/verif_vsched"
)

// S01 under every schedule: requests of a player against the stream it is being sent. Replies and
// interleaved frames share the connection; nothing comes before the answer to PLAY or after the
// answer to TEARDOWN.

type s01Sched struct {
	script string //what the publisher sends meanwhile
	reqs   []string
	pipe   bool //requests in one piece
	udp    bool
	bound  int
}

func s01SchedRun(r *v.Run, c *v.Ctx, x s01Sched, dir string) {
	failed := map[string]bool{}
	bad := func(key, f string, a ...interface{}) {
		if !failed[key] {
			failed[key] = true
			r.Violation("s01:schedule:"+key, fmt.Sprintf("%+v, schedule %v", x, c.Choices()), f, a...)
		}
	}
	outcome := ""
	s := vs.Run(c, func(s *vs.Sched) {
		g := newSRig(s, sOpt{}, dir, bad)
		p := g.pub("rtmp", 0, "s").(*sRTMP)
		p.prepare()
		vs.Go(p.claim)
		s.Idle()
		items := r08Script("VAK" + x.script)
		for _, i := range items[:3] {
			p.k.send(i.m)
			s.Idle()
		}
		conn := g.conn(554)
		k := &rtspCli{c: conn, wait: func() {
			if !conn.PeerClosed() {
				conn.Wait()
			}
		}}
		setup := func(track int, transport string) {
			vs.Go(func() {
				if _, err := k.do("SETUP", fmt.Sprintf("s/trackID=%d", track), []string{"Transport: " + transport}, ""); err != nil {
					bad("setup", "%v", err)
				}
			})
			s.Idle()
		}
		setup(0, "RTP/AVP/TCP;unicast;interleaved=0-1")
		setup(1, "RTP/AVP/TCP;unicast;interleaved=2-3")
		first := k.cseq
		s.Explore(true)
		vs.Go(func() {
			for _, i := range items[3:] {
				p.k.send(i.m)
			}
		})
		vs.Go(func() {
			var all []byte
			for _, q := range x.reqs {
				b := k.text(q, "s", nil, "")
				if all = append(all, b...); !x.pipe {
					conn.Write(b)
				}
			}
			if x.pipe {
				conn.Write(all)
			}
		})
		s.Idle()
		s.Explore(false)
		buf := conn.Take()
		started, over, frames, replies := false, false, 0, 0
		for len(buf) > 0 {
			if over {
				bad("after-teardown", "%d bytes after the answer to TEARDOWN", len(buf))
				break
			}
			if buf[0] == '$' {
				if len(buf) < 4 || len(buf) < 4+int(buf[2])<<8+int(buf[3]) {
					bad("cut", "a cut interleaved frame: %x", buf)
					break
				}
				n := 4 + int(buf[2])<<8 + int(buf[3])
				if !started {
					bad("before-play", "media before the answer to PLAY")
				}
				if pk, err := v.UnRTP(buf[4:n]); err != nil || buf[1] != 0 && buf[1] != 2 || pk.PT == 96 != (buf[1] == 0) {
					bad("frame", "interleaved frame on channel %d: %v", buf[1], err)
				}
				frames++
				buf = buf[n:]
				continue
			}
			rep, n, err := v.UnRTSP(buf)
			if err != nil || n == 0 {
				bad("mixed", "no reply: %q %v", buf, err)
				break
			}
			buf = buf[n:]
			if replies >= len(x.reqs) {
				bad("replies", "more replies than requests")
				break
			}
			q := x.reqs[replies]
			replies++
			want := 200
			if q == "FOO" {
				want = 501
			}
			if q == "RECORD" {
				want = 455
			}
			if rep.Headers["cseq"] != fmt.Sprint(first+replies) || rep.Status != want {
				bad("reply", "%s answered %d with CSeq %s, want %d", q, rep.Status, rep.Headers["cseq"], first+replies)
			}
			started = started || q == "PLAY"
			over = q == "TEARDOWN"
		}
		if replies != len(x.reqs) {
			bad("unanswered", "%d replies to %d requests", replies, len(x.reqs))
		}
		if over != conn.PeerClosed() {
			bad("closed", "torn down %v, connection closed %v", over, conn.PeerClosed())
		}
		outcome = fmt.Sprint(frames)
		if started && !over {
			//whoever is still playing gets what comes next, once
			f := r08Script("VAK" + x.script + "P")
			p.k.send(f[len(f)-1].m)
			s.Idle()
			k.take()
			n := 0
			for _, fr := range k.frames {
				if pk, err := v.UnRTP(fr.body); err == nil && fr.ch == 0 && pk.TS == uint32(40*(len(f)-1))*90 {
					n++
				}
			}
			if n != 1 {
				bad("flow", "%d packets of the next frame", n)
			}
		}
		p.leave(0)
		s.Idle()
		conn.Close()
		s.Idle()
		if a := s.Alive(); len(a) != g.base {
			bad("leak", "everybody has left; goroutines stay: %v", a)
		}
	})
	if s.Crash != nil {
		bad("crash:"+s.Crash.Where, "%s\n%s", s.Crash.Value, s.Crash.Stack)
	}
	if s.Dead != "" {
		bad("deadlock", "%s", s.Dead)
	}
	r.Eval("frames "+outcome, fmt.Sprintf("%+v %v", x, c.Choices()))
}

func TestVerifS01Schedules(t *testing.T) {
	r := v.Start(t)
	defer r.Finish()
	defer sQuiet()()
	dir := filepath.Join(r.Out(), "s01")
	n := 0
	for _, sc := range []string{"P", "PaK", "KPVK", "BP"} {
		for _, reqs := range [][]string{{"PLAY"}, {"PLAY", "TEARDOWN"}, {"PLAY", "PLAY"}, {"PLAY", "GET_PARAMETER", "TEARDOWN"}, {"PLAY", "FOO", "OPTIONS"}, {"OPTIONS", "TEARDOWN"}, {"PLAY", "PLAY", "TEARDOWN"}, {"PLAY", "RECORD", "GET_PARAMETER", "PLAY"}} {
			for _, pipe := range []bool{true, false} {
				x := s01Sched{script: sc, reqs: reqs, pipe: pipe, bound: r.Pick(2, 3)}
				n++
				if _, all := v.Tree(r, x.bound, func(c *v.Ctx, first bool) bool {
					r.Journal("S01 %+v", x)
					s01SchedRun(r, c, x, dir)
					return true
				}); !all {
					r.Capped(fmt.Sprintf("bounded by the time budget in %+v", x))
					return
				}
			}
		}
	}
	r.Note("requests against running media: %d scenarios, at most %d preemptions", n, r.Pick(2, 3))
}
