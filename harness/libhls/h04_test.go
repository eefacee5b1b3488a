//go:build go1.25

package libhls

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"testing"
	"time"

	"github.com/sbraveyoung/GGmpeg/libbroadcast"
	v "github.com/sbraveyoung/GGmpeg/verif_vlib"
	vs "github.com/sbraveyoung/GGmpeg/verif_vsched"
)

// h4 is one scenario: a segmenter at work while others stop it, read playlists and wait.
type h4 struct {
	name    string
	script  func(sc *hScript)
	before  int //tags sent and processed before the race begins
	ll      bool
	end     bool //the publisher ends the stream
	unstart bool //the loop starts during the race
	stops   int  //concurrent Stop calls
	readers int  //playlist readers
	waits   [][2]int
	first   int  //WaitFirstSegment callers
	next    bool //a successor of the same name starts after a Stop
}

var h4Scripts = map[string]func(sc *hScript){
	"nothing": func(sc *hScript) {},
	"one":     func(sc *hScript) { sc.key(40, 30) },
	"rotate":  func(sc *hScript) { sc.key(40, 30); sc.inter(40, 20, 0); sc.key(1000, 30) },
	"audio":   func(sc *hScript) { sc.key(40, 30); sc.audio(40, 9); sc.audio(400, 9); sc.key(1000, 30) },
	"two":     func(sc *hScript) { sc.key(40, 30); sc.key(1000, 30); sc.key(1000, 30) },
}

type h4look struct {
	file     string
	off, len int64 //len<0: all of it
	body     []byte
	missing  bool
}

func h4Run(r *v.Run, c *v.Ctx, h h4, dir string, desc string) {
	failed := map[string]bool{}
	bad := func(key, f string, a ...interface{}) {
		if !failed[key] {
			failed[key] = true
			r.Violation("h04:"+key, fmt.Sprintf("%s schedule %v", desc, c.Choices()), f, a...)
		}
	}
	os.RemoveAll(dir)
	os.MkdirAll(dir, 0o755)
	sc := newScript(1000)
	h4Scripts[h.script2()](sc)
	var looks []h4look
	var second *HLS
	s := vs.Run(c, func(s *vs.Sched) {
		s.Free = false
		hls := NewHls().WithStreamID("s").WithDir(dir).WithLowLatency(h.ll)
		hls.targetDur = 500 * time.Millisecond
		bd := libbroadcast.NewBroadcast(3)
		loops := 0
		loop := func() { hls.Start(libbroadcast.NewBroadcastReader(bd)); loops++ }
		//AVC and AAC headers, then the tags as the publisher sends them
		bd.WriteMeta(sc.tags[0])
		bd.WriteMeta(sc.tags[1])
		send := func(i int) {
			if sc.keyTag(i) {
				bd.Reset()
			}
			bd.Write(sc.tags[i])
		}
		if !h.unstart {
			vs.Go(loop)
		}
		at := 2
		for ; at < 2+h.before && at < len(sc.tags); at++ {
			s.Idle()
			send(at)
		}
		s.Idle()
		s.Explore(true)
		if h.unstart {
			vs.Go(loop)
		}
		if at < len(sc.tags) || h.end {
			vs.Go(func() {
				for ; at < len(sc.tags); at++ {
					send(at)
				}
				if h.end {
					bd.DisAlive()
				}
			})
		}
		stopped := 0
		for i := 0; i < h.stops; i++ {
			vs.Go(func() { hls.Stop(); stopped++ })
		}
		for i := 0; i < h.readers; i++ {
			vs.Go(func() {
				for k := 0; k < 2; k++ {
					pl := hls.Playlist()
					if pl == nil {
						continue
					}
					p, err := v.ParseM3U8(pl)
					if err != nil {
						bad("syntax", "%v", err)
						continue
					}
					if h.stops == 0 {
						//the files are as they were when the playlist was made, at least
						for _, g := range p.Segs {
							b, err := os.ReadFile(filepath.Join(dir, g.File))
							looks = append(looks, h4look{g.File, 0, -1, b, err != nil})
						}
						for _, t := range p.Tail {
							b, err := os.ReadFile(filepath.Join(dir, t.File))
							if err == nil && int64(len(b)) >= t.Off+t.Len {
								b = b[t.Off : t.Off+t.Len]
							} else {
								err = fmt.Errorf("short")
							}
							looks = append(looks, h4look{t.File, t.Off, t.Len, b, err != nil})
						}
					}
				}
			})
		}
		type waiter struct {
			msn, part int
			done      bool
			at        time.Time
			pl        []byte
		}
		ws := make([]*waiter, len(h.waits))
		start := s.Now()
		const limit = 3 * time.Second
		for i, w := range h.waits {
			x := &waiter{msn: w[0], part: w[1]}
			ws[i] = x
			vs.Go(func() {
				x.pl = hls.WaitForPlaylist(x.msn, x.part, limit)
				x.done, x.at = true, s.Now()
			})
		}
		firsts := 0
		for i := 0; i < h.first; i++ {
			vs.Go(func() { hls.WaitFirstSegment(); firsts++ })
		}
		s.Idle()
		s.Explore(false)
		if stopped != h.stops {
			bad("stop-blocked", "%d of %d stops returned: %v", stopped, h.stops, s.Alive())
		}
		ended := h.stops > 0 || loops > 0 //nothing more will come
		p := v.HLSPlaylist{}
		if pl := hls.Playlist(); pl != nil {
			var err error
			if p, err = v.ParseM3U8(pl); err != nil {
				bad("syntax", "%v", err)
			}
		}
		newest := -1
		if n := len(p.Segs); n > 0 {
			newest = p.Segs[n-1].Seq
		}
		has := func(w *waiter) bool {
			return w.msn <= newest || w.msn == newest+1 && w.part >= 0 && w.part < len(p.Tail)
		}
		for _, w := range ws {
			if h.ll && !w.done && (ended || has(w) || w.msn < 0) {
				bad("wait-late", "waiting for segment %d part %d of %d/%d, ended %v", w.msn, w.part, newest, len(p.Tail), ended)
			}
			if !h.ll && !w.done {
				bad("wait-late", "waiting for segment %d of an ordinary playlist", w.msn)
			}
			if w.done && h.ll && !ended && w.msn >= 0 && !has(w) {
				bad("wait-early", "segment %d part %d was answered with %d/%d", w.msn, w.part, newest, len(p.Tail))
			}
			if w.done && w.pl != nil {
				if _, err := v.ParseM3U8(w.pl); err != nil {
					bad("syntax", "%v", err)
				}
			}
		}
		if firsts != h.first && (ended || newest >= 0) {
			bad("first-blocked", "%d of %d waiters for the first segment returned", firsts, h.first)
		}
		s.Advance(limit)
		for _, w := range ws {
			if !w.done || w.at.Sub(start) > limit {
				bad("wait-timeout", "waiting for segment %d part %d after the time limit", w.msn, w.part)
			}
		}
		if h.next && h.stops > 0 {
			second = NewHls().WithStreamID("s").WithDir(dir)
			second.targetDur = 500 * time.Millisecond
			bd2 := libbroadcast.NewBroadcast(3)
			bd2.WriteMeta(sc.tags[0])
			bd2.WriteMeta(sc.tags[1])
			vs.Go(func() { second.Start(libbroadcast.NewBroadcastReader(bd2)) })
			s2 := newScript(1000)
			h4Scripts["two"](s2)
			for i := 2; i < len(s2.tags); i++ {
				bd2.Reset()
				bd2.Write(s2.tags[i])
				s.Idle()
			}
			s.Explore(true)
			vs.Go(func() { hls.Stop() })
			bd.DisAlive()
			s.Idle()
			s.Explore(false)
			q, err := v.ParseM3U8(second.Playlist())
			if err != nil || len(q.Segs) != 2 {
				bad("successor", "%d segments of 2 (%v)", len(q.Segs), err)
			}
			files := hDir(dir)
			if len(files) != 3 {
				bad("successor-files", "%d files of a stream with two segments and a running one", len(files))
			}
			for _, g := range q.Segs {
				if len(files[g.File]) == 0 {
					bad("successor-files", "segment %q is gone", g.File)
				}
			}
			bd2.DisAlive()
			s.Idle()
			second.Stop()
			s.Idle()
		}
		final := hDir(dir)
		//looks at a stream that was not stopped
		bd.DisAlive()
		s.Idle()
		if h.stops == 0 {
			final = hDir(dir)
			for _, l := range looks {
				b := final[l.file]
				if l.missing {
					bad("look-missing", "%q, listed, was not there or too short", l.file)
				} else if l.len >= 0 && (int64(len(b)) < l.off+l.len || !bytes.Equal(b[l.off:l.off+l.len], l.body)) {
					bad("look-part", "part %d@%d of %q changed", l.len, l.off, l.file)
				} else if l.len < 0 && !bytes.Equal(b, l.body) {
					bad("look-changed", "%q was listed with %d bytes and ended with %d", l.file, len(l.body), len(b))
				}
			}
		} else if n := len(final); n != 0 {
			bad("files", "%d files after stop and end", n)
		}
		hls.Stop()
		s.Idle()
		hls.Stop()
		if n := len(hDir(dir)); n != 0 {
			bad("files", "%d files after the stop", n)
		}
		if pl := hls.Playlist(); pl != nil {
			if p, err := v.ParseM3U8(pl); !h.ll || err != nil || len(p.Segs) > 0 || len(p.Tail) > 0 {
				bad("playlist", "a playlist after the stop: %s", pl)
			}
		}
		s.Advance(limit)
		if a := s.Alive(); len(a) > 0 {
			bad("blocked", "still there: %v", a)
		}
	})
	if s.Crash != nil {
		bad("crash:"+s.Crash.Where, "%s\n%s", s.Crash.Value, s.Crash.Stack)
	}
	if s.Dead != "" {
		bad("deadlock", "%s", s.Dead)
	}
	r.Eval(fmt.Sprintf("%s files", h.name), fmt.Sprintf("%s %v", desc, c.Choices()))
}

func (h h4) script2() string { return h.name }

func (s *hScript) keyTag(i int) bool {
	n := 1
	for _, f := range s.frames {
		n++
		if n == i {
			return f.key
		}
	}
	return false
}

func h4Cases() (out []h4) {
	for _, ll := range []bool{false, true} {
		for _, script := range []string{"nothing", "one", "rotate", "audio", "two"} {
			n := map[string]int{"one": 1, "rotate": 3, "audio": 4, "two": 3}[script]
			for before := 0; before <= n; before++ {
				b := h4{name: script, ll: ll, before: before}
				x := b //one stop against everything
				x.stops, x.readers, x.first = 1, 1, 1
				if ll {
					x.waits = [][2]int{{0, 0}}
				}
				out = append(out, x)
				x = b //two stops, the publisher leaving
				x.stops, x.end, x.next = 2, true, true
				out = append(out, x)
				if before == 0 {
					x = b
					x.unstart, x.stops, x.end, x.first = true, 1, true, 1
					out = append(out, x)
				}
				//no stop: playlists and waits
				x = b
				x.readers, x.first = 1, 1
				x.end = before%2 == 0
				out = append(out, x)
				if ll {
					for _, w := range [][2]int{{-1, -1}, {0, -1}, {0, 0}, {0, 1}, {1, -1}, {1, 0}, {3, 0}} {
						x = b
						x.waits = [][2]int{w}
						x.end = before%2 == 1
						out = append(out, x)
					}
					x = b
					x.waits = [][2]int{{0, 1}, {1, 0}}
					x.stops = 1
					out = append(out, x)
				} else {
					x = b
					x.waits = [][2]int{{1, 0}}
					out = append(out, x)
				}
			}
		}
	}
	return
}

func TestV_H04(t *testing.T) {
	r := v.Start(t)
	defer r.Finish()
	bound := r.Pick(2, 3)
	var total int64
	for i, h := range h4Cases() {
		dir := filepath.Join(r.Out(), "h4")
		desc := fmt.Sprintf("%+v", h)
		desc = fmt.Sprintf("case %d %s before=%d ll=%v end=%v unstart=%v stops=%d readers=%d waits=%v first=%d next=%v", i, h.name, h.before, h.ll, h.end, h.unstart, h.stops, h.readers, h.waits, h.first, h.next)
		n, all := v.Tree(r, bound, func(c *v.Ctx, first bool) bool {
			r.Journal("%s", desc)
			h4Run(r, c, h, dir, desc)
			return true
		})
		total += n
		if !all {
			r.Capped("bounded by the time budget in " + desc)
			break
		}
	}
	r.Note("%d scenarios, all schedules with at most %d preemptions", len(h4Cases()), bound)
	_ = total
}
