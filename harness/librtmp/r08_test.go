//go:build go1.25

package librtmp

import (
	"bytes"
	"fmt"
	"path/filepath"
	"testing"

	v "github.com/sbraveyoung/GGmpeg/verif_vlib"
	vs "github.com/sbraveyoung/GGmpeg/verif_vsched"
)

// R08 at the server: a publisher and viewers of every egress protocol coming at any moment, under
// every schedule with a bounded number of preemptions. Each message of the publisher is unique, so
// what a viewer received is a list of positions of the publisher's script.

type r08Item struct {
	m    v.Msg
	hdr  int //1 video, 2 audio header
	key  bool
	mark int
}

// r08Script: V v headers of video, A of audio, K key, P inter, a audio, B big key.
func r08Script(s string) (out []r08Item) {
	nv := 0
	for i, x := range s {
		mk := 0x80 + i
		m := v.Msg{Type: 9, CSID: 4, SID: 1, TS: uint32(40 * i)}
		it := r08Item{mark: mk}
		switch x {
		case 'V':
			nv++
			m.Payload, it.hdr = sSeq(mk), 1
		case 'A':
			m.Type, m.Payload, it.hdr = 8, []byte{0xaf, 0, 0x12, 0x10 + byte(8*i)}, 2
		case 'K':
			m.Payload, it.key = sFrame(true, mk, 20), true
		case 'B':
			m.Payload, it.key = sFrame(true, mk, 9000), true
		case 'P':
			m.Payload = sFrame(false, mk, 20)
		case 'a':
			m.Type, m.Payload = 8, append([]byte{0xaf, 1}, bytes.Repeat([]byte{byte(mk)}, 12)...)
		default:
			panic("verif-internal: script")
		}
		it.m = m
		out = append(out, it)
	}
	return
}

// r08Explain reports whether a viewer that joined after between lo and hi of the items may have
// received exactly these, the stream being idle after n items.
func r08Explain(items []r08Item, got []int, lo, hi, n int, frames bool) bool {
	group := func(t int) int { //first item of the current group after t items
		for i := t - 1; i >= 0; i-- {
			if items[i].key {
				return i
			}
		}
		return 0
	}
	effect := func(t int) map[int]int {
		e := map[int]int{}
		for i := 0; i < t; i++ {
			if h := items[i].hdr; h > 0 {
				e[h] = i
			}
		}
		return e
	}
	groups := func(from, to int) (k int) { //groups opened by items (from,to]
		for i := from + 1; i <= to; i++ {
			if items[i].key {
				k++
			}
		}
		return
	}
	wanted := func(i int) bool {
		if frames {
			return items[i].hdr == 0 && items[i].m.Type == 9
		}
		return true
	}
	//begin: at time t the reader starts over with the current group, having these headers
	var begin func(t int, have map[int]int, rest []int) bool
	var follow func(pos, t int, have map[int]int, rest []int) bool
	begin = func(t int, have map[int]int, rest []int) bool {
		todo := map[int]bool{}
		now := map[int]int{}
		for k, i := range have {
			now[k] = i
		}
		for k, i := range effect(t) {
			if have == nil || have[k] != i {
				now[k] = i
				if wanted(i) {
					todo[i] = true
				}
			}
		}
		for len(todo) > 0 {
			if len(rest) == 0 || !todo[rest[0]] {
				return false
			}
			delete(todo, rest[0])
			rest = rest[1:]
		}
		return follow(group(t), t, now, rest)
	}
	follow = func(pos, t int, have map[int]int, rest []int) bool {
		//pos: next item; headers before t have been sent
		for pos < n && (!wanted(pos) || items[pos].hdr > 0 && pos < t) {
			if items[pos].hdr > 0 && pos >= t {
				have[items[pos].hdr] = pos
			}
			pos++
		}
		if pos == n {
			return len(rest) == 0
		}
		//fallen behind by more than a group
		for u := pos + 1; u <= n; u++ {
			if g := group(u); g > pos && groups(pos-1, g) >= 2 && (u == n || items[u].key || true) {
				h := map[int]int{}
				for k, i := range have {
					h[k] = i
				}
				if begin(u, h, rest) {
					return true
				}
			}
		}
		if len(rest) == 0 || rest[0] != pos {
			return false
		}
		h := map[int]int{}
		for k, i := range have {
			h[k] = i
		}
		if items[pos].hdr > 0 {
			h[items[pos].hdr] = pos
		}
		return follow(pos+1, t, h, rest[1:])
	}
	for t := lo; t <= hi; t++ {
		if begin(t, nil, got) {
			return true
		}
	}
	return false
}

type r08 struct {
	script string
	pre    int
	views  []string
	chat   bool //RTMP viewers send commands while being served
	bound  int
}

func r08Run(r *v.Run, c *v.Ctx, x r08, dir string) {
	failed := map[string]bool{}
	bad := func(key, f string, a ...interface{}) {
		if !failed[key] {
			failed[key] = true
			r.Violation("r08:server:"+key, fmt.Sprintf("%+v, schedule %v", x, c.Choices()), f, a...)
		}
	}
	outcome := ""
	s := vs.Run(c, func(s *vs.Sched) {
		g := newSRig(s, sOpt{}, dir, bad)
		p := g.pub("rtmp", 0, "s").(*sRTMP)
		p.prepare()
		vs.Go(p.claim)
		s.Idle()
		items := r08Script(x.script + "PK")
		n := len(x.script)
		for i := 0; i < x.pre; i++ {
			p.k.send(items[i].m)
			s.Idle()
		}
		var views []sView
		for _, k := range x.views {
			w := g.view(k, "s")
			if q, ok := w.(*sRTMPView); ok {
				q.prepare()
			}
			views = append(views, w)
		}
		s.Explore(true)
		if x.pre < n {
			vs.Go(func() {
				for i := x.pre; i < n; i++ {
					p.k.send(items[i].m)
				}
			})
		}
		for _, w := range views {
			w.join()
		}
		if x.chat {
			for _, w := range views {
				if q, ok := w.(*sRTMPView); ok {
					vs.Go(func() {
						for i := 0; i < 2; i++ {
							q.k.send(v.Msg{Type: 20, CSID: 3, Payload: v.AMF("createStream", 7+i, nil)})
							q.k.send(v.Msg{Type: 4, CSID: 2, Payload: v.Cat([]byte{0, 6}, v.U32(77))}) //ping request
						}
					})
				}
			}
		}
		s.Idle()
		s.Explore(false)
		look := func(when string, n, hi int) {
			for _, w := range views {
				if w.kind() == "rtsp" && !w.joined() {
					continue //nothing to describe at that time
				}
				var got []int
				for i, m := range w.tags() {
					k := -1
					if w.kind() == "rtsp" {
						if m.Payload[1] == 0 {
							continue
						}
						k = sMark(m) - 0x80
					} else {
						for j, it := range items {
							if it.m.Type == m.Type && it.m.TS == m.TS && bytes.Equal(it.m.Payload, m.Payload) {
								k = j
							}
						}
					}
					if k < 0 || k >= len(items) {
						bad("tag", "%s: message %d of the %s viewer was never published: type %d, %d bytes at %d", when, i, w.kind(), m.Type, len(m.Payload), m.TS)
						return
					}
					got = append(got, k)
				}
				outcome += fmt.Sprint(" ", w.kind(), len(got))
				if !r08Explain(items, got, x.pre, hi, n, w.kind() == "rtsp") {
					bad("order:"+w.kind(), "%s: the %s viewer, who joined between messages %d and %d of %q, received %v", when, w.kind(), x.pre, hi, x.script+"PK", got)
				}
			}
		}
		look("when idle", n, n)
		for _, w := range views {
			if w.kind() != "rtsp" && !w.joined() {
				bad("join", "the %s viewer was not admitted", w.kind())
			}
		}
		for i := n; i < len(items); i++ { //everybody keeps up now
			p.k.send(items[i].m)
			s.Idle()
			look("keeping up", i+1, n)
		}
		p.leave(0)
		s.Idle()
		for _, w := range views {
			if !w.released() {
				bad("released:"+w.kind(), "the stream ended and the %s viewer is still served", w.kind())
			}
			if w.kind() != "flv" {
				w.leave()
			}
		}
		s.Idle()
		if a := s.Alive(); len(a) != g.base {
			bad("leak", "everybody has left; goroutines stay: %v", a)
		}
	})
	if s.Crash != nil {
		bad("crash:"+s.Crash.Where, "%s\n%s", s.Crash.Value, s.Crash.Stack)
	}
	if s.Dead != "" {
		bad("deadlock", "%s", s.Dead)
	}
	r.Eval(fmt.Sprintf("%v%s", x.views, outcome), fmt.Sprintf("%+v %v", x, c.Choices()))
}

func TestVerifR08Server(t *testing.T) {
	r := v.Start(t)
	defer r.Finish()
	defer sQuiet()()
	dir := filepath.Join(r.Out(), "r08")
	n := 0
	for _, sc := range []string{"VAKPaKP", "VKPVKaP", "AaVKKK", "VKPKPKPK", "VBPB", "PPAVK"} {
		for pre := 0; pre <= len(sc); pre++ {
			for _, x := range []r08{
				{views: []string{"flv"}, bound: r.Pick(2, 3)},
				{views: []string{"rtmp"}, bound: r.Pick(2, 3)},
				{views: []string{"rtmp"}, chat: true, bound: r.Pick(1, 2)},
				{views: []string{"ws"}, bound: r.Pick(2, 3)},
				{views: []string{"rtsp"}, bound: r.Pick(1, 2)},
				{views: []string{"flv", "rtmp"}, bound: r.Pick(1, 2)},
			} {
				x.script, x.pre = sc, pre
				n++
				if _, all := v.Tree(r, x.bound, func(c *v.Ctx, first bool) bool {
					r.Journal("R08 server %+v", x)
					r08Run(r, c, x, dir)
					return true
				}); !all {
					r.Capped(fmt.Sprintf("bounded by the time budget in %+v", x))
					return
				}
			}
		}
	}
	r.Note("whole server: %d scenarios, at most %d preemptions with one FLV, WebSocket or RTMP viewer, one less with RTSP viewers, two viewers or commands", n, r.Pick(2, 3))
}
