//go:build go1.25

package librtmp

import (
	"fmt"
	"path/filepath"
	"strings"
	"testing"
	"time"

	"github.com/sbraveyoung/GGmpeg/libhls"
	v "github.com/sbraveyoung/GGmpeg/verif_vlib"
	vs "github.com/sbraveyoung/GGmpeg/verif_vsched"
)

// R06: every schedule (up to a number of preemptions) of publishers of all ingest protocols
// claiming one name at the same time, with or without an owner already there.

type r06 struct {
	owner  string   //established before the race
	race   []string //claiming at the same time
	hls    bool
	leaver bool //the owner leaves during the race
	bound  int
}

func (x r06) String() string {
	s := strings.Join(x.race, "+")
	if x.owner != "" {
		s = x.owner + " owns, " + s
	}
	if x.leaver {
		s += ", the owner leaves meanwhile"
	}
	if x.hls {
		s += ", segmenting"
	}
	return s
}

func r06Run(r *v.Run, c *v.Ctx, x r06, dir string) {
	failed := map[string]bool{}
	bad := func(key, f string, a ...interface{}) {
		if !failed[key] {
			failed[key] = true
			r.Violation("r06:"+key, fmt.Sprintf("%s, schedule %v", x, c.Choices()), f, a...)
		}
	}
	outcome := ""
	s := vs.Run(c, func(s *vs.Sched) {
		s.Free = false
		all := append([]string{}, x.race...)
		if x.owner != "" {
			all = append([]string{x.owner}, all...)
		}
		o := sOpt{}
		if x.hls {
			o.hls, o.dash = libhls.IMMEDIATELY, true
		}
		for i, k := range all {
			switch k {
			case "srt":
				o.srt = append(o.srt, "s")
			case "pull":
				o.pulls = append(o.pulls, "s")
			}
			_ = i
		}
		g := newSRig(s, o, dir, bad)
		var pubs []sPub
		port := 9000
		for i, k := range all {
			p := g.pub(k, i, "s")
			if q, ok := p.(*sSRT); ok {
				q.port = port
				port++
			}
			pubs = append(pubs, p)
			p.prepare()
		}
		s.Idle()
		racing := pubs
		var owner sPub
		view := g.view("flv", "s")
		if x.owner != "" {
			owner, racing = pubs[0], pubs[1:]
			vs.Go(owner.claim)
			s.Idle()
			if owner.result() != won {
				bad("first", "the first publisher was %s", owner.result())
				return
			}
			owner.frame(true)
			s.Idle()
			view.join()
			s.Idle()
		}
		s.Explore(true)
		for _, p := range racing {
			vs.Go(p.claim)
		}
		if x.leaver {
			vs.Go(func() { owner.leave(0) })
		}
		s.Idle()
		s.Explore(false)

		winners := 0
		for _, p := range racing {
			outcome += " " + p.kind() + "=" + p.result()
			switch p.result() {
			case won:
				winners++
				if !x.leaver {
					owner = p
				}
			case refused:
			default:
				bad("answer", "%s %x got %q", p.kind(), p.mark(), p.result())
			}
		}
		switch {
		case x.leaver: //the name is free before, during or after the claims
			if winners > 1 {
				bad("several", "%d claims of %v succeeded:%s", winners, x, outcome)
			}
			if winners == 0 {
				//nobody came after the owner had left
				if g.room("s") {
					bad("stale", "the owner left, nobody else was admitted, and the name is taken")
				}
				return
			}
			for _, p := range racing {
				if p.result() == won {
					owner = p
				}
			}
		case x.owner != "" && winners > 0:
			bad("takeover", "a claim succeeded while the name was owned:%s", outcome)
			return
		case x.owner == "" && winners != 1:
			bad("several", "%d claims succeeded:%s", winners, outcome)
			return
		}
		if x.owner == "" || x.leaver {
			owner.frame(true)
			s.Idle()
			view = g.view("flv", "s")
			view.join()
			s.Idle()
		}
		//the others go on sending, retry, and leave; the owner's viewers notice nothing
		losers := []sPub{}
		for _, p := range pubs {
			if p != owner && !(x.leaver && p == pubs[0]) {
				losers = append(losers, p)
			}
		}
		check := func(when string, frames int) {
			s.Idle()
			t := view.tags()
			if mk := g.only(when, t); mk != owner.mark() {
				bad("foreign", "%s: the viewer gets mark %x, the owner is %s %x", when, mk, owner.kind(), owner.mark())
			}
			if n := sFrames(t, owner.mark()); n != frames {
				bad("lost", "%s: %d frames of the owner's %d arrived", when, n, frames)
			}
			if view.released() {
				bad("released", "%s: the viewer of the owner's stream was released", when)
			}
			if owner.ended() {
				bad("owner-dropped", "%s: the owner was dropped", when)
			}
		}
		sent := 1
		if p, ok := owner.(*sSRT); ok && p.n == 1 {
			owner.frame(false) //the demuxer holds a unit back until the next begins
		} else {
			owner.frame(false)
		}
		sent++
		got := func() int { return sent }
		check("after the race", got())
		for _, p := range losers {
			if p.kind() == "pull" {
				continue //refused: closed
			}
			p.frame(true)
			p.frame(false)
			s.Idle()
			check("after the media of a refused "+p.kind(), got())
		}
		s.Advance(1500 * time.Millisecond) //pulls have tried again
		if owner.kind() != "srt" {         //(whose callers keep sending)
			check("later", got())
		}
		for _, p := range losers {
			p.leave(0)
			check("after a refused "+p.kind()+" left", got())
		}
		owner.frame(true)
		sent++
		check("at last", got())
		if x.hls {
			if files := g.files(); len(files) == 0 {
				bad("segmenters", "no segmenter works for the owner: %v", files)
			}
			fs, _ := filepath.Glob(filepath.Join(dir, "s-init.mp4"))
			if len(fs) != 1 {
				bad("segmenters", "the owner's DASH initialisation is missing: %v", g.files())
			}
		}
		owner.leave(0)
		s.Idle()
		if !view.released() {
			bad("not-released", "the owner left and its viewer is still served")
		}
		g.dial = noDial
		s.Advance(6 * time.Second) //silent callers
		if g.room("s") {
			bad("stale", "everybody has left and the name is taken")
		}
		next := g.pub("rtmp", 15, "s")
		next.prepare()
		vs.Go(next.claim)
		s.Idle()
		if next.result() != won {
			bad("stale", "everybody has left and the next publisher is %s", next.result())
		}
		next.leave(0)
		s.Idle()
		if f := g.files(); len(f) > 0 {
			bad("files", "everybody has left; files stay: %v", f)
		}
	})
	if s.Crash != nil {
		bad("crash:"+s.Crash.Where, "%s\n%s", s.Crash.Value, s.Crash.Stack)
	}
	if s.Dead != "" {
		bad("deadlock", "%s", s.Dead)
	}
	r.Eval(x.String()+":"+outcome, fmt.Sprintf("%s %v", x, c.Choices()))
}

func TestV_R06(t *testing.T) {
	r := v.Start(t)
	defer r.Finish()
	defer sQuiet()()
	kinds := []string{"rtmp", "rtsp", "srt", "pull"}
	var cases []r06
	for i, a := range kinds {
		for _, b := range kinds[i:] {
			if a == "pull" && b == "pull" {
				continue
			}
			cases = append(cases, r06{race: []string{a, b}, bound: r.Pick(3, 4)})
			if !r.Quick() || a != b {
				cases = append(cases, r06{race: []string{a, b}, hls: true, bound: r.Pick(2, 3)})
			}
			for _, d := range kinds {
				if n := strings.Count(a+b+d, "pull"); n < 2 && d >= b {
					cases = append(cases, r06{race: []string{a, b, d}, bound: r.Pick(2, 3)})
				}
			}
		}
		for _, o := range kinds {
			if o == "pull" && a == "pull" {
				continue
			}
			cases = append(cases, r06{owner: o, race: []string{a}, bound: r.Pick(2, 3)})
			cases = append(cases, r06{owner: o, race: []string{a}, leaver: true, bound: r.Pick(3, 4)})
			cases = append(cases, r06{owner: o, race: []string{a}, leaver: true, hls: true, bound: r.Pick(2, 3)})
		}
	}
	dir := filepath.Join(r.Out(), "r06")
	for _, x := range cases {
		n, all := v.Tree(r, x.bound, func(c *v.Ctx, first bool) bool {
			r.Journal("R06 %s", x)
			r06Run(r, c, x, dir)
			return true
		})
		_ = n
		if !all {
			r.Capped("bounded by the time budget in " + x.String())
			break
		}
	}
	r.Note("%d scenarios, preemption bound %d for two claims and for claims against a leaving owner, one less for the others", len(cases), r.Pick(3, 4))
}
