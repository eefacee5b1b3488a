//go:build go1.25

package libdash

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"testing"

	"github.com/sbraveyoung/GGmpeg/libbroadcast"
	"github.com/sbraveyoung/GGmpeg/libflv"
	v "github.com/sbraveyoung/GGmpeg/verif_vlib"
	vs "github.com/sbraveyoung/GGmpeg/verif_vsched"
)

type d4 struct {
	keys    int //keyframes, each ending a segment
	before  int
	header  int //0: there from the beginning, 1: comes with the tags, 2: none
	end     bool
	unstart bool
	stops   int
	readers int
	first   int
	next    bool
}

func d4Dir(dir string) map[string][]byte {
	m := map[string][]byte{}
	es, _ := os.ReadDir(dir)
	for _, e := range es {
		m[e.Name()], _ = os.ReadFile(filepath.Join(dir, e.Name()))
	}
	return m
}

func d4Run(r *v.Run, c *v.Ctx, h d4, dir, desc string) {
	failed := map[string]bool{}
	bad := func(key, f string, a ...interface{}) {
		if !failed[key] {
			failed[key] = true
			r.Violation("h04:dash-"+key, fmt.Sprintf("%s schedule %v", desc, c.Choices()), f, a...)
		}
	}
	os.RemoveAll(dir)
	os.MkdirAll(dir, 0o755)
	type look struct {
		file    string
		body    []byte
		missing bool
	}
	var looks []look
	s := vs.Run(c, func(s *vs.Sched) {
		sc := dNewScript(libflv.FLV_VIDEO_AVC, 0)
		sc.header()
		for i := 0; i < h.keys; i++ {
			sc.frame(2000, true, 0, 20)
		}
		d := NewDASH().WithStreamID("s").WithDir(dir)
		bd := libbroadcast.NewBroadcast(3)
		loops := 0
		loop := func() { d.Start(libbroadcast.NewBroadcastReader(bd)); loops++ }
		tags := sc.tags
		switch h.header {
		case 0:
			bd.WriteMeta(tags[0])
			tags = tags[1:]
		case 2:
			tags = tags[1:]
		}
		send := func(i int) {
			if h.header == 1 && i == 0 {
				bd.WriteMeta(tags[i])
				return
			}
			bd.Reset()
			bd.Write(tags[i])
		}
		if !h.unstart {
			vs.Go(loop)
		}
		at := 0
		for ; at < h.before && at < len(tags); at++ {
			s.Idle()
			send(at)
		}
		s.Idle()
		s.Explore(true)
		if h.unstart {
			vs.Go(loop)
		}
		if at < len(tags) || h.end {
			vs.Go(func() {
				for ; at < len(tags); at++ {
					send(at)
				}
				if h.end {
					bd.DisAlive()
				}
			})
		}
		stopped := 0
		for i := 0; i < h.stops; i++ {
			vs.Go(func() { d.Stop(); stopped++ })
		}
		for i := 0; i < h.readers; i++ {
			vs.Go(func() {
				for k := 0; k < 2; k++ {
					pl := d.Manifest()
					if pl == nil {
						continue
					}
					m, err := mpdParse(pl)
					if err != nil {
						bad("syntax", "%v", err)
						continue
					}
					if len(d.InitSegment()) == 0 {
						bad("init", "a manifest without an init segment")
					}
					if h.stops == 0 {
						for _, g := range m.segs {
							b, err := os.ReadFile(filepath.Join(dir, g.file))
							looks = append(looks, look{g.file, b, err != nil})
						}
						b, err := os.ReadFile(filepath.Join(dir, m.init))
						looks = append(looks, look{m.init, b, err != nil})
					}
				}
			})
		}
		firsts := 0
		for i := 0; i < h.first; i++ {
			vs.Go(func() { d.WaitFirstSegment(); firsts++ })
		}
		s.Idle()
		s.Explore(false)
		if stopped != h.stops {
			bad("stop-blocked", "%d of %d stops returned: %v", stopped, h.stops, s.Alive())
		}
		if firsts != h.first && (h.stops > 0 || loops > 0 || len(d.Manifest()) > 0) {
			bad("first-blocked", "%d of %d waiters for the first segment returned", firsts, h.first)
		}
		if h.next && h.stops > 0 {
			d2 := NewDASH().WithStreamID("s").WithDir(dir)
			bd2 := libbroadcast.NewBroadcast(3)
			bd2.WriteMeta(sc.tags[0])
			vs.Go(func() { d2.Start(libbroadcast.NewBroadcastReader(bd2)) })
			s2 := dNewScript(libflv.FLV_VIDEO_AVC, 0)
			for i := 0; i < 3; i++ {
				s2.frame(2000, true, 0, 20)
				bd2.Reset()
				bd2.Write(s2.tags[i])
				s.Idle()
			}
			s.Explore(true)
			vs.Go(func() { d.Stop() })
			bd.DisAlive()
			s.Idle()
			s.Explore(false)
			m, err := mpdParse(d2.Manifest())
			files := d4Dir(dir)
			if err != nil || len(m.segs) != 2 || len(files) != 3 {
				bad("successor", "%d segments of 2, %d files of 3 (%v)", len(m.segs), len(files), err)
			}
			for _, g := range m.segs {
				if len(files[g.file]) == 0 {
					bad("successor", "segment %q is gone", g.file)
				}
			}
			if !bytes.Equal(files["s-init.mp4"], d2.InitSegment()) {
				bad("successor", "the init segment is gone")
			}
			bd2.DisAlive()
			s.Idle()
			d2.Stop()
		}
		bd.DisAlive()
		s.Idle()
		final := d4Dir(dir)
		if h.stops == 0 {
			for _, l := range looks {
				if l.missing || !bytes.Equal(final[l.file], l.body) {
					bad("look", "%q was listed with %d bytes (missing: %v) and ended with %d", l.file, len(l.body), l.missing, len(final[l.file]))
				}
			}
		} else if len(final) != 0 {
			bad("files", "%d files after stop and end", len(final))
		}
		d.Stop()
		s.Idle()
		d.Stop()
		if n := len(d4Dir(dir)); n != 0 {
			bad("files", "%d files after the stop", n)
		}
		if len(d.Manifest()) != 0 {
			bad("manifest", "a manifest after the stop")
		}
		s.Idle()
		if a := s.Alive(); len(a) > 0 {
			bad("blocked", "still there: %v", a)
		}
	})
	if s.Crash != nil {
		bad("crash:"+s.Crash.Where, "%s\n%s", s.Crash.Value, s.Crash.Stack)
	}
	if s.Dead != "" {
		bad("deadlock", "%s", s.Dead)
	}
	r.Eval(fmt.Sprintf("dash keys=%d header=%d", h.keys, h.header), fmt.Sprintf("%s %v", desc, c.Choices()))
}

func TestV_H04(t *testing.T) {
	r := v.Start(t)
	defer r.Finish()
	bound := r.Pick(3, 4)
	var cases []d4
	for header := 0; header < 3; header++ {
		for keys := 0; keys <= 3; keys++ {
			for before := 0; before <= keys+header%2; before++ {
				b := d4{keys: keys, before: before, header: header}
				x := b
				x.stops, x.readers, x.first = 1, 1, 1
				cases = append(cases, x)
				x = b
				x.stops, x.end, x.next = 2, true, true
				cases = append(cases, x)
				if before == 0 {
					x = b
					x.unstart, x.stops, x.end, x.first = true, 1, true, 1
					cases = append(cases, x)
				}
				x = b
				x.readers, x.first, x.end = 1, 1, before%2 == 0
				cases = append(cases, x)
			}
		}
	}
	for i, h := range cases {
		dir := filepath.Join(r.Out(), "d4")
		desc := fmt.Sprintf("DASH case %d %+v", i, h)
		_, all := v.Tree(r, bound, func(c *v.Ctx, first bool) bool {
			r.Journal("%s", desc)
			d4Run(r, c, h, dir, desc)
			return true
		})
		if !all {
			r.Capped("bounded by the time budget in " + desc)
			break
		}
	}
	r.Note("DASH: %d scenarios, all schedules with at most %d preemptions", len(cases), bound)
}
