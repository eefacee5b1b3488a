//go:build go1.25

package libsrt

import (
	"bytes"
	"fmt"
	"testing"

	v "github.com/sbraveyoung/GGmpeg/verif_vlib"
)

const (
	u4v = 0x101
	u4a = 0x102
	u4m = 0x1000
)

type u4frame struct {
	pts, dts int64
	key      bool
	data     []byte
}

func (f u4frame) String() string {
	return fmt.Sprintf("pts %d dts %d key %v %d bytes", f.pts, f.dts, f.key, len(f.data))
}

// u4unit is one PES packet and the frames in it.
type u4unit struct {
	pid     uint16
	frames  []u4frame
	bounded bool
	stuff   int //PES header stuffing
	rai     bool
}

func (u u4unit) pes() []byte {
	f := u.frames[0]
	dts := f.dts
	if u.pid == u4a || f.dts == f.pts {
		dts = -1
	}
	sid := byte(0xe0)
	var data []byte
	if u.pid == u4a {
		sid = 0xc0
	}
	for _, x := range u.frames {
		data = append(data, x.data...)
	}
	return v.PESBytes(sid, f.pts, dts, data, u.bounded, u.stuff)
}

// u4au builds an access unit of exactly n bytes (n>=6) from NAL units with the given types.
func u4au(n int, seed int, types ...byte) []byte {
	var b []byte
	per := n / len(types)
	for i, t := range types {
		l := per
		if i == len(types)-1 {
			l = n - len(b)
		}
		sc := []byte{0, 0, 0, 1}
		if (i+seed)%2 == 1 {
			sc = []byte{0, 0, 1}
		}
		if l < len(sc)+2 {
			l = len(sc) + 2
		}
		body := v.Fill(seed+i, l-len(sc))
		for k := range body {
			body[k] |= 4
		}
		body[0] = 0x60 | t
		b = append(append(b, sc...), body...)
	}
	return b
}

func u4adts(n, rate, ch int, crc bool, seed int) []byte {
	h := []byte{0xff, 0xf1, 1<<6 | byte(rate)<<2 | byte(ch>>2), byte(ch&3)<<6 | byte(n>>11), byte(n >> 3), byte(n&7)<<5 | 0x1f, 0xfc}
	hl := 7
	if crc {
		h[1] = 0xf0
		h = append(h, 0x12, 0x34)
		hl = 9
	}
	body := v.Fill(seed, n-hl)
	return append(h, body...)
}

type u4stream struct {
	pkts  [][]byte
	owner []int //unit of each packet, -1: tables and others
	first []bool
	units []u4unit
}

func (s *u4stream) add(b []byte, owner int) {
	for i := 0; i < len(b); i += 188 {
		s.pkts = append(s.pkts, b[i:i+188])
		s.owner = append(s.owner, owner)
		s.first = append(s.first, i == 0)
	}
}

func u4tables(w *v.TSWriter) {
	w.Section(0, v.PATSection([][2]uint16{{1, u4m}}, 0), 0)
	w.Section(u4m, v.PMTSection(1, u4v, 0, nil, []v.ESInfo{{Type: 0x1b, PID: u4v}, {Type: 0x0f, PID: u4a}}), 0)
}

// u4build multiplexes the units; il: packets of consecutive units of different PIDs alternate;
// tabs: tables before every tabs-th unit (0: only at the start).
func u4build(units []u4unit, maxPayload int, il bool, tabs int) *u4stream {
	s := &u4stream{units: units}
	w := &v.TSWriter{MaxPayload: maxPayload}
	cut := func() []byte { b := w.Out; w.Out = nil; return b }
	u4tables(w)
	s.add(cut(), -1)
	for i := 0; i < len(units); i++ {
		if tabs > 0 && i > 0 && i%tabs == 0 {
			u4tables(w)
			s.add(cut(), -1)
		}
		w.PES(units[i].pid, units[i].pes(), units[i].rai, -1)
		a := cut()
		if il && i+1 < len(units) && units[i+1].pid != units[i].pid {
			w.PES(units[i+1].pid, units[i+1].pes(), units[i+1].rai, -1)
			b := cut()
			fa, fb := true, true
			for len(a) > 0 || len(b) > 0 {
				if len(a) > 0 {
					s.add(a[:188], i)
					s.first[len(s.first)-1] = fa
					a, fa = a[188:], false
				}
				if len(b) > 0 {
					s.add(b[:188], i+1)
					s.first[len(s.first)-1] = fb
					b, fb = b[188:], false
				}
			}
			i++
			continue
		}
		s.add(a, i)
	}
	return s
}

type u4out struct{ video, audio []u4frame }

func u4feed(datagrams [][]byte) (o u4out) {
	d := NewDemuxer()
	d.OnVideo = func(a AccessUnit) {
		o.video = append(o.video, u4frame{int64(a.PTS), int64(a.DTS), a.Key, bytes.Clone(a.NAL)})
	}
	d.OnAudio = func(a AudioFrame) {
		o.audio = append(o.audio, u4frame{pts: int64(a.PTS), data: bytes.Clone(a.Data)})
	}
	for _, b := range datagrams {
		d.Feed(b)
	}
	return
}

// compare checks got against the units of one PID: state 0: must come, 1: must not, 2: may come.
// The last video unit, which nothing ends, may come.
func u4compare(got []u4frame, units []u4unit, pid uint16, state func(i int) int) string {
	k := 0
	same := func(a, b u4frame) bool {
		return a.pts == b.pts && (pid == u4a || a.dts == b.dts && a.key == b.key) && bytes.Equal(a.data, b.data)
	}
	last := -1
	for i, u := range units {
		if u.pid == pid {
			last = i
		}
	}
	for i, u := range units {
		if u.pid != pid {
			continue
		}
		st := state(i)
		if st == 1 {
			continue
		}
		if i == last && !u.bounded {
			st = 2
		}
		if st == 2 && (k >= len(got) || !same(got[k], u.frames[0])) {
			continue
		}
		for j, f := range u.frames {
			if k >= len(got) {
				return fmt.Sprintf("frame %d of unit %d (%v) is missing", j, i, f)
			}
			if !same(got[k], f) {
				return fmt.Sprintf("instead of frame %d of unit %d (%v) came %v", j, i, f, got[k])
			}
			k++
		}
	}
	if k < len(got) {
		return fmt.Sprintf("unexpected frame %v", got[k])
	}
	return ""
}

// TestV_U04 decides the demultiplexer half.
func TestV_U04(t *testing.T) {
	r := v.Start(t)
	defer r.Finish()
	vid := func(n int, key bool, pts, dts int64, bounded bool, seed int) u4unit {
		ty := []byte{9, 1}
		if key {
			ty = []byte{7, 8, 5}
		}
		if n < 12 {
			ty = ty[len(ty)-1:]
		}
		return u4unit{pid: u4v, frames: []u4frame{{pts, dts, key, u4au(n, seed, ty...)}}, bounded: bounded, rai: key}
	}
	aud := func(pts int64, rate int, crc bool, seed int, sizes ...int) u4unit {
		u := u4unit{pid: u4a, bounded: true}
		rates := []int64{96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000, 7350}
		for i, n := range sizes {
			u.frames = append(u.frames, u4frame{pts: (pts + int64(i)*1024*90000/rates[rate]) & (1<<33 - 1), data: u4adts(n, rate, 2, crc, seed+i)})
		}
		return u
	}
	clean := func(int) int { return 0 }
	check := func(key, desc string, s *u4stream, datagrams [][]byte, state func(int) int) {
		r.Guard("u04:"+key, desc, func() {
			o := u4feed(datagrams)
			if e := u4compare(o.video, s.units, u4v, state); e != "" {
				r.Violation("u04:"+key, desc, "video: %s", e)
			}
			if e := u4compare(o.audio, s.units, u4a, state); e != "" {
				r.Violation("u04:"+key, desc, "audio: %s", e)
			}
		})
		r.Eval(key, desc)
	}
	seven := func(p [][]byte) (out [][]byte) {
		for i := 0; i < len(p); i += 7 {
			out = append(out, v.Cat(p[i:min(i+7, len(p))]...))
		}
		return
	}

	// sizes x PES header forms x packet payload limits
	sizes := []int{}
	for n := 6; n <= r.Pick(400, 800); n++ {
		sizes = append(sizes, n)
	}
	for _, n := range []int{1000, 1316, 4000, 65500, 65521, 65522, 65523, 65526, 65527, 65528, 65529, 65530, 66000, 70000, 200000} {
		sizes = append(sizes, n)
	}
	for _, n := range sizes {
		if !r.Mine() {
			continue
		}
		r.Journal("U04 size %d", n)
		for _, bounded := range []bool{true, false} {
			for _, mp := range []int{0, 20, 100, 183} {
				if n > 20000 && mp != 0 {
					continue
				}
				for _, stuff := range []int{0, 1, 9, 200} {
					for _, cts := range []int64{0, 3600, 180000} {
						u := vid(n, n%2 == 0, 900000+cts, 900000, bounded && n < 65500, n)
						u.stuff = stuff
						if stuff == 200 && mp == 100 {
							u.stuff = 100
						}
						units := []u4unit{u, aud(900500, 4, n%3 == 0, n, 9+n%500), vid(50, false, 904000, 904000, bounded, 3), aud(903000, 4, false, n+1, 7+n%1000, 20)}
						s := u4build(units, mp, n%5 == 0, 0)
						check("sizes", fmt.Sprintf("video unit of %d bytes, bounded %v, payload limit %d, header stuffing %d, composition %d", n, bounded, mp, stuff, cts), s, seven(s.pkts), clean)
					}
				}
			}
		}
	}

	// timestamps
	for _, base := range []int64{0, 1, 89, 90, 91, 1 << 15, 1<<15 - 1, 1 << 16, 1 << 22, 1 << 29, 1 << 30, 1<<30 - 1, 1 << 31, 1 << 32, 1<<32 - 1, 1<<33 - 9000, 1<<33 - 1, 0x155555555, 0x0aaaaaaaa} {
		for _, cts := range []int64{0, 1, 90, 3003, 45000, 1 << 20} {
			for _, step := range []int64{3003, 90, 1} {
				if !r.Mine() {
					continue
				}
				m := int64(1<<33 - 1)
				var units []u4unit
				for i := int64(0); i < 5; i++ {
					dts := (base + i*step) & m
					pts := (dts + cts) & m
					units = append(units, vid(60+int(i), i == 0, pts, dts, true, int(i)), aud((base+i*step+7)&m, int(i+base)%13, false, 1, 30, 40))
				}
				s := u4build(units, 0, false, 2)
				check("times", fmt.Sprintf("base %d composition %d step %d", base, cts, step), s, seven(s.pkts), clean)
			}
		}
	}

	// audio: every number of frames, rate and size pattern
	for nf := 1; nf <= 8; nf++ {
		for rate := 0; rate < 13; rate++ {
			for _, crc := range []bool{false, true} {
				for _, sz := range []int{9, 10, 150, 180, 371, 1024, 2047, 4090, 8191 - 30} {
					if !r.Mine() {
						continue
					}
					var fs []int
					for i := 0; i < nf; i++ {
						fs = append(fs, sz+i*3)
					}
					units := []u4unit{vid(100, true, 90000, 90000, true, 1), aud(90000, rate, crc, 5, fs...), aud(99000, rate, !crc, 9, fs...), vid(100, false, 93000, 93000, true, 1)}
					s := u4build(units, 0, false, 0)
					check("audio frames", fmt.Sprintf("%d frames from %d bytes, rate index %d, checksum %v", nf, sz, rate, crc), s, seven(s.pkts), clean)
				}
			}
		}
	}

	// what makes a keyframe: every access unit of up to 4 units of a few types and sizes, either start
	// code, with and without the transport's own mark
	type un struct {
		typ byte
		n   int
	}
	uns := []un{{9, 2}, {10, 1}, {1, 2}, {5, 2}, {5, 9}, {7, 4}, {6, 3}, {21, 5}, {31, 6}}
	v.Sequences(len(uns), 1, r.Pick(4, 5), func(seq []int) bool {
		if !r.Mine() {
			return true
		}
		var units []u4unit
		for codes := 0; codes < 1<<len(seq); codes++ {
			var b []byte
			key := false
			for i, x := range seq {
				if codes>>i&1 == 1 {
					b = append(b, 0)
				}
				body := v.Fill(i+x, uns[x].n)
				for k := range body {
					body[k] |= 4
				}
				body[0] = []byte{0, 0x20, 0x60}[(i+x)%3] | uns[x].typ
				b = append(append(b, 0, 0, 1), body...)
				key = key || uns[x].typ == 5
			}
			t := int64(90000 + 3003*codes)
			units = append(units, u4unit{pid: u4v, frames: []u4frame{{t, t, key, b}}, bounded: true, rai: key && codes&1 == 0})
		}
		s := u4build(units, 0, false, 0)
		check("keyframes", fmt.Sprintf("access units of %v", seq), s, seven(s.pkts), clean)
		return !r.Expired()
	})

	// tables
	type tab struct {
		name string
		f    func(w *v.TSWriter)
	}
	pmt := func(ver byte, info []byte, es ...v.ESInfo) []byte { return v.PMTSection(1, u4v, ver, info, es) }
	av := []v.ESInfo{{Type: 0x1b, PID: u4v}, {Type: 0x0f, PID: u4a}}
	va := []v.ESInfo{{Type: 0x0f, PID: u4a, Info: []byte{10, 4, 'e', 'n', 'g', 0}}, {Type: 0x1b, PID: u4v, Info: []byte{5, 4, 'a', 'b', 'c', 'd'}}}
	var many []v.ESInfo
	for i := 0; i < 60; i++ {
		many = append(many, v.ESInfo{Type: 0x06, PID: uint16(0x200 + i), Info: v.Fill(i, i%7)})
	}
	pats := []tab{
		{"one program", func(w *v.TSWriter) { w.Section(0, v.PATSection([][2]uint16{{1, u4m}}, 0), 0) }},
		{"network first", func(w *v.TSWriter) { w.Section(0, v.PATSection([][2]uint16{{0, 0x10}, {1, u4m}}, 3), 0) }},
		{"network elsewhere first", func(w *v.TSWriter) {
			w.Section(0, v.PATSection([][2]uint16{{0, 0x1ffe}, {1, u4m}}, 0), 0)
		}},
		{"network last", func(w *v.TSWriter) { w.Section(0, v.PATSection([][2]uint16{{1, u4m}, {0, 0x20}}, 0), 0) }},
		{"pointer", func(w *v.TSWriter) { w.Section(0, v.PATSection([][2]uint16{{1, u4m}}, 0), 37) }},
		{"two programs", func(w *v.TSWriter) { w.Section(0, v.PATSection([][2]uint16{{1, u4m}, {2, 0x1100}}, 0), 0) }},
		{"sixty programs", func(w *v.TSWriter) {
			p := [][2]uint16{{1, u4m}}
			for i := 2; i < 60; i++ {
				p = append(p, [2]uint16{uint16(i), uint16(0x1000 + i)})
			}
			w.Section(0, v.PATSection(p, 0), 0)
		}},
		{"unknown PIDs before", func(w *v.TSWriter) {
			w.Null()
			w.Section(0x11, append([]byte{0x42, 0xf0, 10}, make([]byte, 10)...), 0)
			w.Section(0, v.PATSection([][2]uint16{{1, u4m}}, 0), 0)
		}},
	}
	pmts := []tab{
		{"video audio", func(w *v.TSWriter) { w.Section(u4m, pmt(0, nil, av...), 0) }},
		{"audio video with descriptors", func(w *v.TSWriter) { w.Section(u4m, pmt(5, []byte{5, 4, 'H', 'D', 'M', 'V'}, va...), 0) }},
		{"pointer", func(w *v.TSWriter) { w.Section(u4m, pmt(0, nil, av...), 100) }},
		{"pointer to the next packet", func(w *v.TSWriter) { w.Section(u4m, pmt(0, nil, av...), 160) }},
		{"other streams first", func(w *v.TSWriter) {
			w.Section(u4m, pmt(0, nil, append([]v.ESInfo{{Type: 0x06, PID: 0x150}, {Type: 0x86, PID: 0x151}}, av...)...), 0)
		}},
		{"long program descriptors", func(w *v.TSWriter) { w.Section(u4m, pmt(0, v.Fill(2, 300), av...), 0) }},
		{"long stream descriptors", func(w *v.TSWriter) {
			w.Section(u4m, pmt(0, nil, v.ESInfo{Type: 0x06, PID: 0x150, Info: v.Fill(2, 256)}, v.ESInfo{Type: 0x0f, PID: u4a, Info: v.Fill(3, 300)}, av[0]), 0)
		}},
		{"larger than a packet", func(w *v.TSWriter) { w.Section(u4m, pmt(0, v.Fill(1, 20), append(append([]v.ESInfo{}, many...), av...)...), 0) }},
		{"first in a large one", func(w *v.TSWriter) { w.Section(u4m, pmt(0, nil, append(append([]v.ESInfo{}, av...), many...)...), 0) }},
		{"not yet applicable one before", func(w *v.TSWriter) {
			n := pmt(1, nil, v.ESInfo{Type: 0x1b, PID: 0x999})
			n[5] &^= 1
			c := v.MpegCRC(n[:len(n)-4])
			copy(n[len(n)-4:], v.U32(c))
			w.Section(u4m, n, 0)
			w.Section(u4m, pmt(0, nil, av...), 0)
		}},
	}
	for _, a := range pats {
		for _, b := range pmts {
			for rep := 0; rep < 3; rep++ {
				if !r.Mine() {
					continue
				}
				units := []u4unit{vid(500, true, 90000, 90000, false, 1), aud(90000, 3, false, 2, 100), vid(300, false, 96000, 93000, true, 2), aud(92000, 3, false, 2, 100, 120), vid(20, false, 99000, 99000, true, 2)}
				s := &u4stream{units: units}
				w := &v.TSWriter{}
				tables := func() {
					a.f(w)
					b.f(w)
					s.add(w.Out, -1)
					w.Out = nil
				}
				tables()
				for i, u := range units {
					w.PES(u.pid, u.pes(), u.rai, -1)
					out := w.Out
					w.Out = nil
					if rep == 2 && len(out) > 188 { //tables in the middle of a unit
						s.add(out[:188], i)
						tables()
						s.add(out[188:], i)
						continue
					}
					s.add(out, i)
					if rep == 1 {
						tables()
					}
				}
				check("tables", fmt.Sprintf("PAT: %s, PMT: %s, repetition %d", a.name, b.name, rep), s, seven(s.pkts), clean)
			}
		}
	}

	// every way of cutting a stream into datagrams
	small := []u4unit{vid(300, true, 90000, 90000, false, 1), aud(90100, 4, false, 2, 60, 70), vid(90, false, 96000, 93000, false, 2), aud(92000, 4, false, 3, 200), vid(10, false, 99000, 96000, true, 4)}
	{
		s := u4build(small, 0, true, 0)
		n := len(s.pkts) - 1
		for m := 0; m < 1<<n; m++ {
			if !r.Mine() {
				continue
			}
			var d [][]byte
			cur := s.pkts[0]
			for i := 0; i < n; i++ {
				if m>>i&1 == 1 {
					d = append(d, cur)
					cur = nil
				}
				cur = append(append([]byte(nil), cur...), s.pkts[i+1]...)
			}
			d = append(d, cur)
			check("datagram cuts", fmt.Sprintf("%d packets, cut mask %x", n+1, m), s, d, clean)
		}
	}

	// losses, duplicates, damage and late joins at every packet (and every pair)
	var streams []*u4stream
	var names []string
	for _, bounded := range []bool{true, false} {
		for _, il := range []bool{true, false} {
			for _, mp := range []int{0, 60} {
				units := []u4unit{
					vid(400, true, 90000, 90000, bounded, 1), aud(90000, 4, false, 2, 300),
					vid(90, false, 96000, 93000, bounded, 3), aud(92000, 4, false, 4, 50, 60, 170),
					vid(700, false, 99000, 96000, bounded, 5), aud(94000, 4, false, 6, 250),
					vid(30, true, 102000, 99000, bounded, 7), aud(96000, 4, true, 8, 400),
					vid(20, false, 105000, 102000, bounded, 9),
				}
				streams = append(streams, u4build(units, mp, il, 2))
				names = append(names, fmt.Sprintf("bounded %v, interleaved %v, payload limit %d", bounded, il, mp))
			}
		}
	}
	lostState := func(s *u4stream, lost map[int]bool) func(int) int {
		st := map[int]int{}
		prev := map[uint16]int{} //unit before, per PID
		seen := map[int]bool{}
		for i, o := range s.owner {
			if o < 0 {
				continue
			}
			pid := s.units[o].pid
			if !seen[o] {
				seen[o] = true
				if lost[i] {
					if p, ok := prev[pid]; ok && !s.units[p].bounded && st[p] == 0 {
						st[p] = 2 //nothing tells that it was complete
					}
				}
				prev[pid] = o
			}
			if lost[i] {
				st[o] = 1
			}
		}
		return func(i int) int { return st[i] }
	}
	deliver := func(s *u4stream, lost map[int]bool) (p [][]byte) {
		for i, x := range s.pkts {
			if !lost[i] {
				p = append(p, x)
			}
		}
		return
	}
	for si, s := range streams {
		nt := 0
		for s.owner[nt] < 0 {
			nt++
		}
		for i := nt; i < len(s.pkts); i++ {
			if !r.Mine() {
				continue
			}
			r.Journal("U04 loss stream %d packet %d", si, i)
			lost := map[int]bool{i: true}
			check("loss", fmt.Sprintf("%s: packet %d of %d lost", names[si], i, len(s.pkts)), s, seven(deliver(s, lost)), lostState(s, lost))
			// damaged in place
			for _, how := range []string{"sync byte", "error indicator"} {
				p := append([][]byte(nil), s.pkts...)
				x := bytes.Clone(p[i])
				if how == "sync byte" {
					x[0] = 0
				} else {
					x[1] |= 0x80
				}
				p[i] = x
				check("damage", fmt.Sprintf("%s: %s of packet %d of %d", names[si], how, i, len(s.pkts)), s, seven(p), lostState(s, lost))
			}
			// duplicated
			p := append(append(append([][]byte(nil), s.pkts[:i+1]...), s.pkts[i]), s.pkts[i+1:]...)
			check("duplicate", fmt.Sprintf("%s: packet %d of %d sent twice", names[si], i, len(s.pkts)), s, seven(p), clean)
			// pairs
			for j := i + 1; j < len(s.pkts); j++ {
				if r.Quick() && j > i+3 && (i+j)%4 != 0 {
					continue
				}
				lost := map[int]bool{i: true, j: true}
				check("two losses", fmt.Sprintf("%s: packets %d and %d of %d lost", names[si], i, j, len(s.pkts)), s, seven(deliver(s, lost)), lostState(s, lost))
			}
			// late join: tables, then everything from packet i on
			lost = map[int]bool{}
			for j := nt; j < i; j++ {
				lost[j] = true
			}
			check("late join", fmt.Sprintf("%s: joined at packet %d of %d", names[si], i, len(s.pkts)), s, seven(deliver(s, lost)), func(u int) int {
				if st := lostState(s, lost)(u); st == 1 {
					return 1
				}
				return 0
			})
		}
		// a burst
		for i := nt; i < len(s.pkts); i++ {
			for n := 2; n < 10 && i+n <= len(s.pkts); n++ {
				if !r.Mine() {
					continue
				}
				lost := map[int]bool{}
				for j := i; j < i+n; j++ {
					lost[j] = true
				}
				check("burst", fmt.Sprintf("%s: packets %d to %d of %d lost", names[si], i, i+n-1, len(s.pkts)), s, seven(deliver(s, lost)), lostState(s, lost))
			}
		}
	}
	// media before any table is not handed on, everything after is
	for si, s := range streams {
		if !r.Mine() {
			continue
		}
		nt := 0
		for s.owner[nt] < 0 {
			nt++
		}
		known := false
		started := map[int]bool{}
		ok := map[int]bool{}
		for i := nt; i < len(s.pkts); i++ {
			if s.owner[i] < 0 {
				known = known || i > 0 && s.owner[i-1] < 0
				continue
			}
			if !started[s.owner[i]] {
				started[s.owner[i]] = true
				ok[s.owner[i]] = known
			}
		}
		check("late tables", fmt.Sprintf("%s: tables only after the second unit", names[si]), s, seven(s.pkts[nt:]), func(i int) int {
			if ok[i] {
				return 0
			}
			return 1
		})
	}
	r.Note("demultiplexer: %d unit sizes x PES forms x packet fill limits; 33-bit timestamps incl. wrap; 1-8 ADTS frames per PES; %d PAT x %d PMT forms; every datagram partition; every single loss/damage/duplicate/late join, %s pairs and bursts of up to 9 in %d streams", len(sizes), len(pats), len(pmts), map[bool]string{true: "near and every fourth other", false: "all"}[r.Quick()], len(streams))
}
