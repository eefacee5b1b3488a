//go:build go1.25

package libhls

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	v "github.com/sbraveyoung/GGmpeg/verif_vlib"
)

var hCase int

// hRun segments one script, looks after every tag and checks everything at the end. keys tells
// which kinds of complaints belong to the property under check.
func hRun(t *testing.T, r *v.Run, desc string, sc *hScript, target time.Duration, window int, ll bool, prefix string, mine func(key string) bool) (segs int) {
	hCase++
	id := fmt.Sprintf("s%d", hCase)
	dir := filepath.Join(r.Out(), id)
	os.MkdirAll(dir, 0o755)
	defer os.RemoveAll(dir)
	failed := map[string]bool{}
	bad := func(key, f string, a ...interface{}) {
		if !mine(key) || failed[key] {
			return
		}
		failed[key] = true
		r.Violation(prefix+key, desc, f, a...)
	}
	seen := newSeen()
	ok := r.Guard(prefix, desc, func() {
		synctest.Test(t, func(t *testing.T) {
			h := NewHls().WithStreamID(id).WithDir(dir).WithLowLatency(ll)
			h.targetDur = target
			h.windowSize = window
			look := func() { seen.look(h.Playlist(), dir, window, ll, bad) }
			src := &hlsTags{tags: sc.tags, hook: func(next int) {
				if d := sc.sleep[next]; d > 0 {
					time.Sleep(d)
				}
				look()
			}}
			if err := h.Start(src); err != nil {
				bad("start-error", "%v", err)
			}
			look()
			if len(hDir(dir)) != min(seen.next, window) {
				bad("leftover", "%d files after the end, %d segments", len(hDir(dir)), seen.next)
			}
			seen.content(sc, bad)
			h.Stop()
			if n := len(hDir(dir)); n != 0 {
				bad("stop-files", "%d files after Stop", n)
			}
		})
	})
	if ok {
		r.Eval(fmt.Sprintf("segments=%d frames=%d ll=%v", len(seen.order), len(sc.frames), ll), desc)
	}
	return len(seen.order)
}

func h01Mine(key string) bool {
	switch key {
	case "syntax", "window", "sequence", "missing", "changed", "renumbered", "duration-changed", "gap", "newest", "leftover", "kept", "duration", "vanished", "stop-files":
		return false
	}
	return !strings.HasPrefix(key, "part-")
}

var h01Bases = []uint32{0, 5000, 47721858 - 100, 95443717 - 100, 1<<31 - 100, 1<<32 - 100}

func h01Step(sc *hScript, sym int) string {
	switch sym {
	case 0:
		sc.key(40, 60)
		return "K"
	case 1:
		sc.key(2000, 300)
		return "K+2s"
	case 2:
		sc.inter(40, 20, 80)
		return "P"
	case 3:
		sc.inter(40, 500, -40)
		return "B"
	case 4: //a keyframe that is no IDR picture
		sc.video(40, true, 0, hNAL(6, sc.n, 9), hNAL(1, sc.n, 200))
		return "R"
	case 5:
		for i, d := range []uint32{23, 23, 24, 23, 23, 23, 24} {
			sc.audio(d, 10+i)
		}
		return "7A"
	case 6:
		sc.audio(23, 180)
		return "A"
	case 7:
		sc.audio(700, 33)
		return "A+0.7s"
	case 8:
		if sc.cfg.hevc() {
			if len(sc.cfg.sps) == 1 {
				sc.avc(hHEVC2)
			} else {
				sc.avc(hHEVC1)
			}
		} else if len(sc.cfg.sps) == 1 {
			sc.avc(hAVC2)
		} else {
			sc.avc(hAVC1)
		}
		return "avcC"
	case 9:
		a := hASC{2, 3, 1}
		if sc.asc == a {
			a = hASC{1, 11, 7}
		}
		sc.aac(a)
		return "asc"
	case 10: //delimiter, SEI and several slices, own parameter sets
		sc.video(40, true, 40, []byte(aud), hNAL(7, sc.n, 12), hNAL(8, sc.n, 5), hNAL(6, sc.n, 30), hNAL(5, sc.n, 170), hNAL(5, sc.n+1, 184))
		return "M"
	default:
		sc.sleep[len(sc.tags)] = 150 * time.Millisecond
		return "wait"
	}
}

const h01Syms = 12

func TestV_H01(t *testing.T) {
	r := v.Start(t)
	defer r.Finish()
	depth := r.Pick(4, 5)
	v.Sequences(h01Syms, 1, depth, func(seq []int) bool {
		if r.Expired() {
			return false
		}
		if !r.Mine() {
			return true
		}
		for bi, base := range append(h01Bases, 47721858-100, 0) {
			if bi > 0 && len(seq) < depth && r.Quick() {
				continue
			}
			sc := newScript(base)
			d := fmt.Sprintf("base %d:", base)
			if bi >= len(h01Bases) {
				sc = newScriptOf(base, hHEVC1)
				d = "H.265 " + d
			}
			for _, s := range seq {
				d += " " + h01Step(sc, s)
			}
			//a tail, so that what is held back must come out
			if base == h01Bases[0] || seq[0]%2 == 0 {
				sc.key(40, 50)
				sc.inter(40, 40, 0)
				sc.audio(23, 5)
				d += " K P A"
			}
			r.Journal("%s", d)
			hRun(t, r, d, sc, 100*time.Millisecond, 1000, false, "h01:", h01Mine)
		}
		return true
	})
	//every size, at every place in a segment
	max := r.Pick(400, 1200)
	big := []int{65500, 65516, 65517, 65518, 65521, 65522, 65523, 65530, 65535, 65536, 65537, 70000, 200000}
	for n := 1; n <= max+len(big); n++ {
		if r.Expired() || !r.Mine() {
			continue
		}
		size := n
		if n > max {
			size = big[n-max-1]
		}
		size = size + 1 //a NAL unit that begins an access unit has two bytes at least
		sc := newScript(1000)
		as := size
		if as > 8184 {
			as = 8184 - n%16
		}
		ksize := size
		sc.key(40, ksize)
		sc.audio(3, as)
		sc.inter(40, size, 40)
		sc.audio(500, as)
		for i := 0; i < 7; i++ {
			sc.audio(23, as)
		}
		sc.key(40, ksize)
		sc.video(40, true, 0, hNAL(6, size, 2+size/3), hNAL(5, size, 1+size/3), hNAL(5, size+1, 1+size/3))
		d := fmt.Sprintf("frames of %d bytes", size)
		r.Journal("%s", d)
		hRun(t, r, d, sc, 20*time.Millisecond, 1000, n%2 == 0, "h01:", h01Mine)
	}
	//length sizes
	for i := 0; i < 8; i++ {
		ls := i%4 + 1
		if ls == 3 || !r.Mine() {
			continue
		}
		c := hAVC1
		if i >= 4 {
			c = hHEVC1
		}
		sc := newScriptOf(0, c)
		c.lenSize = ls
		sc.avc(c)
		for _, n := range []int{2, 3, 100, 254} {
			sc.key(40, n)
			sc.video(40, false, 0, hNAL(1, n, n), hNAL(1, n, 256-n))
		}
		d := fmt.Sprintf("NAL length size %d, H.265 %v", ls, c.hevc())
		r.Journal("%s", d)
		hRun(t, r, d, sc, 50*time.Millisecond, 1000, false, "h01:", h01Mine)
	}
	r.Note("all sequences of up to %d of %d events x %d clock bases; all frame sizes up to %d and around 65536", depth, h01Syms, len(h01Bases), max)
}

func h02Mine(key string) bool {
	switch key {
	case "syntax", "window", "sequence", "missing", "changed", "renumbered", "duration-changed", "gap", "newest", "leftover", "kept", "duration", "vanished":
		return true
	}
	return false
}

func h03Mine(key string) bool { return strings.HasPrefix(key, "part-") || key == "syntax" }

// hSegStep drives rotation: what matters to playlists is when keyframes come.
func hSegStep(sc *hScript, sym int) string {
	switch sym {
	case 0:
		sc.key(40, 60)
		return "K"
	case 1:
		sc.key(1000, 60)
		return "K+1s"
	case 2:
		sc.key(3300, 60)
		return "K+3.3s"
	case 3:
		sc.inter(333, 100, 0)
		return "P+.333"
	case 4:
		sc.inter(0, 20, 0)
		return "P+0"
	case 5:
		sc.audio(23, 50)
		return "A"
	case 6: //behind the video, as interleaved streams often are
		now := sc.ts
		if now > 20 {
			sc.ts -= 20
		}
		for _, d := range []uint32{23, 23, 24, 23, 23, 23} {
			sc.audio(d, 9)
		}
		sc.ts = now
		return "6A-"
	default:
		sc.inter(1700, 10, 40)
		return "P+1.7s"
	}
}

const hSegSyms = 8

func TestV_H02(t *testing.T) {
	r := v.Start(t)
	defer r.Finish()
	depth := r.Pick(5, 6)
	v.Sequences(hSegSyms, 1, depth, func(seq []int) bool {
		if r.Expired() {
			return false
		}
		if !r.Mine() {
			return true
		}
		for w, win := range []int{2, 6} {
			for _, target := range []time.Duration{200 * time.Millisecond, 2 * time.Second} {
				if r.Quick() && len(seq) == depth && (target > time.Second) != (win == 2) {
					continue
				}
				sc := newScript([]uint32{0, 95443717 - 1500}[w])
				d := fmt.Sprintf("window %d target %v:", win, target)
				for _, s := range seq {
					d += " " + hSegStep(sc, s)
				}
				sc.key(2100, 10)
				sc.key(2100, 10)
				r.Journal("%s", d)
				hRun(t, r, d, sc, target, win, false, "h02:", h02Mine)
			}
		}
		return true
	})
	//long runs: every window size, several GOP lengths, clock wraps
	for win := 1; win <= r.Pick(8, 20); win++ {
		for gop := 1; gop <= 4; gop++ {
			for _, base := range h01Bases {
				if r.Expired() || !r.Mine() {
					continue
				}
				sc := newScript(base)
				for i := 0; i < 3*win*gop+5; i++ {
					if i%gop == 0 {
						sc.key(500, 50)
					} else {
						sc.inter(500, 50, 0)
					}
				}
				d := fmt.Sprintf("window %d, keyframe every %d frames, from %d", win, gop, base)
				r.Journal("%s", d)
				hRun(t, r, d, sc, time.Duration(gop)*500*time.Millisecond, win, win%2 == 0, "h02:", h02Mine)
			}
		}
	}
	//names
	for i, name := range []string{"a b", "a\"b", "a#b", "a?b", "a%41", "x:y", "ü", "a\nb", "#EXTINF", "-", "..", "a,b", "a&b;c", "a\\b"} {
		if !r.Mine() {
			continue
		}
		dir := filepath.Join(r.Out(), fmt.Sprintf("n%d", i))
		d := fmt.Sprintf("stream %q", name)
		r.Journal("%s", d)
		r.Guard("h02:", d, func() {
			for _, ll := range []bool{false, true} {
				os.MkdirAll(dir, 0o755)
				h := NewHls().WithStreamID(name).WithDir(dir).WithLowLatency(ll)
				h.targetDur = time.Second
				sc := newScript(0)
				for i := 0; i < 4; i++ {
					sc.key(1000, 50)
				}
				seen := newSeen()
				bad := func(key, f string, a ...interface{}) { r.Violation("h02:name:"+key, d, f, a...) }
				h.Start(&hlsTags{tags: sc.tags, hook: func(int) { seen.look(h.Playlist(), dir, 6, ll, bad) }})
				seen.look(h.Playlist(), dir, 6, ll, bad)
				if len(seen.order) != 4 {
					bad("segments", "%d segments of 4", len(seen.order))
				}
				os.RemoveAll(dir)
			}
		})
		r.Eval("name", d)
	}
	r.Note("all sequences of up to %d of %d events x 2 windows x 2 target durations, looked at after every tag; long runs for every window size", depth, hSegSyms)
}

func TestV_H03(t *testing.T) {
	r := v.Start(t)
	defer r.Finish()
	depth := r.Pick(5, 6)
	v.Sequences(hSegSyms, 1, depth, func(seq []int) bool {
		if r.Expired() {
			return false
		}
		if !r.Mine() {
			return true
		}
		for w, base := range []uint32{0, 95443717 - 1500} {
			if w > 0 && len(seq) == depth && r.Quick() {
				continue
			}
			sc := newScript(base)
			d := fmt.Sprintf("from %d:", base)
			for _, s := range seq {
				d += " " + hSegStep(sc, s)
			}
			if seq[0] < 4 {
				sc.key(2100, 10)
			}
			r.Journal("%s", d)
			hRun(t, r, d, sc, 900*time.Millisecond, 6, true, "h03:", h03Mine)
		}
		return true
	})
	h3Waits(r, t)
	r.Note("all sequences of up to %d of %d events, looked at after every tag", depth, hSegSyms)
}

// h3Waiter is one blocking reload.
type h3Waiter struct {
	msn, part int
	limit     time.Duration
	from, at  time.Time
	done      bool
	pl        []byte
}

// h3Waits runs every blocking reload near the head of the stream from every point of streams
// that fill the window and hold many parts.
func h3Waits(r *v.Run, t *testing.T) {
	scripts := []string{"8K", "3(K9P)", "2(K25P)", "4(K3P)K40p", "K12PK", "5(KPP)", "30A", "", "K", "2(KA)K30A"}
	for _, text := range scripts {
		for _, end := range []string{"ends", "is stopped"} {
			for _, pace := range []time.Duration{0, 40 * time.Millisecond, 1100 * time.Millisecond} {
				if r.Expired() {
					return
				}
				if !r.Mine() {
					continue
				}
				desc := fmt.Sprintf("stream %q which %s, a tag every %v", text, end, pace)
				r.Journal("%s", desc)
				sc := newScript(0)
				h3Script(sc, text)
				h3Run(t, r, desc, sc, end == "ends", pace)
			}
		}
	}
}

// h3Script reads K (keyframe after 40 ms), P (frame after 400 ms), p (after 150 ms), A (audio
// after 23 ms), a number in front repeating what follows, with brackets around several.
func h3Script(sc *hScript, text string) {
	for len(text) > 0 {
		n := 0
		for len(text) > 0 && text[0] >= '0' && text[0] <= '9' {
			n = 10*n + int(text[0]-'0')
			text = text[1:]
		}
		unit, rest := text[:1], text[1:]
		if unit == "(" {
			i := strings.IndexByte(text, ')')
			unit, rest = text[1:i], text[i+1:]
		}
		for i := 0; i < max(n, 1); i++ {
			if len(unit) > 1 {
				h3Script(sc, unit)
				continue
			}
			switch unit {
			case "K":
				sc.key(1000, 40)
			case "P":
				sc.inter(400, 300, 0)
			case "p":
				sc.inter(150, 30, 40)
			case "A":
				sc.audio(23, 90)
			}
		}
		text = rest
	}
}

func h3Run(t *testing.T, r *v.Run, desc string, sc *hScript, ends bool, pace time.Duration) {
	hCase++
	id := fmt.Sprintf("w%d", hCase)
	dir := filepath.Join(r.Out(), id)
	os.MkdirAll(dir, 0o755)
	defer os.RemoveAll(dir)
	failed := map[string]bool{}
	bad := func(key, f string, a ...interface{}) {
		if !failed[key] {
			failed[key] = true
			r.Violation("h03:wait:"+key, desc, f, a...)
		}
	}
	waits := 0
	ok := r.Guard("h03:wait:", desc, func() {
		synctest.Test(t, func(t *testing.T) {
			h := NewHls().WithStreamID(id).WithDir(dir).WithLowLatency(true)
			h.targetDur = 900 * time.Millisecond
			h.windowSize = 4
			step, finished := make(chan bool), false
			go func() {
				h.Start(&hlsTags{tags: sc.tags, hook: func(int) { <-step }})
				finished = true
			}()
			var ws []*h3Waiter
			over := false
			limits := []time.Duration{0, 100 * time.Millisecond, 10 * time.Second}
			check := func(spawn bool) {
				synctest.Wait()
				p := v.HLSPlaylist{}
				if pl := h.Playlist(); pl != nil {
					var err error
					if p, err = v.ParseM3U8(pl); err != nil {
						bad("syntax", "%v in\n%s", err, pl)
						return
					}
				}
				newest := -1
				if n := len(p.Segs); n > 0 {
					newest = p.Segs[n-1].Seq
				}
				has := func(w *h3Waiter) bool {
					return w.msn <= newest || w.msn == newest+1 && w.part >= 0 && w.part < len(p.Tail)
				}
				look := func() {
					now := time.Now()
					keep := ws[:0]
					for _, w := range ws {
						name := fmt.Sprintf("the reload of segment %d part %d with %d segments and %d parts out, asked %v ago with a limit of %v", w.msn, w.part, newest+1, len(p.Tail), now.Sub(w.from), w.limit)
						due := now.Sub(w.from) >= w.limit
						if !w.done {
							switch {
							case over:
								bad("end", "%s still waits after the stream %s", name, map[bool]string{true: "ended", false: "was stopped"}[ends])
							case has(w):
								bad("late", "%s still waits", name)
							case due:
								bad("limit", "%s still waits", name)
							}
							keep = append(keep, w)
							continue
						}
						if !has(w) && !due && !over {
							bad("early", "%s has returned", name)
						}
						if w.at.Sub(w.from) > w.limit {
							bad("limit", "%s took %v", name, w.at.Sub(w.from))
						}
						if over && !ends { //stopped: nothing is left to list
							continue
						}
						if len(w.pl) == 0 && newest < 0 && len(p.Tail) == 0 {
							continue
						}
						got, err := v.ParseM3U8(w.pl)
						if err != nil {
							bad("answer", "%s was answered %q: %v", name, w.pl, err)
							continue
						}
						n := -1
						if k := len(got.Segs); k > 0 {
							n = got.Segs[k-1].Seq
						}
						if has(w) && !due && !(w.msn <= n || w.msn == n+1 && w.part >= 0 && w.part < len(got.Tail)) {
							bad("answer", "%s was answered with a playlist without it\n%s", name, w.pl)
						}
					}
					ws = keep
				}
				look()
				if spawn {
					for msn := -1; msn <= newest+2; msn++ {
						for part := -1; part <= len(p.Tail)+2; part++ {
							w := &h3Waiter{msn: msn, part: part, limit: limits[(waits+1)%3], from: time.Now()}
							waits++
							ws = append(ws, w)
							go func() {
								w.pl = h.WaitForPlaylist(w.msn, w.part, w.limit)
								w.at = time.Now()
								w.done = true
							}()
						}
					}
					synctest.Wait()
					look()
				}
			}
			check(true)
			for i := range sc.tags {
				if !ends && i == len(sc.tags)-1 {
					break
				}
				step <- true
				check(i > 1)
				if pace > 0 {
					time.Sleep(pace)
					check(false)
				}
			}
			over = true
			if ends {
				step <- true //the last tag was read before: this is the end
				check(true)
				if !finished {
					bad("end", "the segmenter goes on after the end of its stream")
				}
			} else {
				h.Stop()
				check(true)
				close(step) //the loop ends
				synctest.Wait()
				if !finished {
					bad("end", "the segmenter goes on after Stop")
				}
			}
			time.Sleep(11 * time.Second)
			check(false)
		})
	})
	if ok {
		r.Eval(fmt.Sprintf("waits=%d", waits), desc)
	}
}
