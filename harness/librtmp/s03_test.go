//go:build go1.25

package librtmp

import (
	"bytes"
	"encoding/base64"
	"encoding/binary"
	"fmt"
	"net"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"testing"
	"testing/synctest"
	"time"

	"github.com/SmartBrave/Athena/easyio"
	v "github.com/sbraveyoung/GGmpeg/verif_vlib"
)

// S03: RTSP media in both directions. Recording: scripts of access units and audio packets, sent
// over TCP under every cut of the byte stream or over UDP with every loss of one or two packets, to
// the real session; an HTTP-FLV viewer of the stream receives the result. Playing: every short
// publish script, joined at every position, over TCP and UDP, depacketised independently.

// rtspCli is an RTSP client on an in-memory connection.
type rtspCli struct {
	c       netEnd
	done    chan struct{}
	buf     []byte
	cseq    int
	session string
	frames  []s01Frame
	wait    func()
	ports   []int
}

func dialRTSP(srv *server, wait func()) *rtspCli {
	a, b := v.Pipe()
	k := &rtspCli{c: a, done: make(chan struct{}), wait: wait}
	go func() { defer close(k.done); newRTSPSession(b, srv).run() }()
	return k
}

func (k *rtspCli) text(method, url string, hdr []string, body string) []byte {
	k.cseq++
	s := fmt.Sprintf("%s rtsp://127.0.0.1:554/live/%s RTSP/1.0\r\nCSeq: %d\r\n", method, url, k.cseq)
	for _, h := range hdr {
		s += h + "\r\n"
	}
	if k.session != "" {
		s += "Session: " + k.session + "\r\n"
	}
	if body != "" {
		s += "Content-Type: application/sdp\r\nContent-Length: " + strconv.Itoa(len(body)) + "\r\n"
	}
	return []byte(s + "\r\n" + body)
}

// take splits what has arrived.
func (k *rtspCli) take() (reps []v.RTSPReply, err error) {
	k.buf = append(k.buf, k.c.Take()...)
	for len(k.buf) > 0 {
		if k.buf[0] == '$' {
			if len(k.buf) < 4 || len(k.buf) < 4+int(k.buf[2])<<8+int(k.buf[3]) {
				return reps, nil
			}
			n := 4 + int(k.buf[2])<<8 + int(k.buf[3])
			k.frames = append(k.frames, s01Frame{int(k.buf[1]), k.buf[4:n]})
			k.buf = k.buf[n:]
			continue
		}
		rep, n, err := v.UnRTSP(k.buf)
		if err != nil {
			return reps, err
		}
		if n == 0 {
			return reps, nil
		}
		reps = append(reps, rep)
		k.buf = k.buf[n:]
	}
	return reps, nil
}

// do performs a request and returns its reply.
func (k *rtspCli) do(method, url string, hdr []string, body string) (v.RTSPReply, error) {
	k.c.Write(k.text(method, url, hdr, body))
	for i := 0; i < 20000; i++ {
		k.wait()
		reps, err := k.take()
		if err != nil {
			return v.RTSPReply{}, err
		}
		if len(reps) > 1 {
			return v.RTSPReply{}, fmt.Errorf("%d replies to %s", len(reps), method)
		}
		if len(reps) == 1 {
			if reps[0].Status != 200 {
				return reps[0], fmt.Errorf("%s answered %d", method, reps[0].Status)
			}
			if s, _, _ := strings.Cut(reps[0].Headers["session"], ";"); s != "" {
				k.session = s
			}
			return reps[0], nil
		}
	}
	return v.RTSPReply{}, fmt.Errorf("no reply to %s", method)
}

// s03Event is one thing the publisher sends.
type s03Event struct {
	nals   [][]byte //video access unit
	key    bool
	frames [][]byte //audio packet
	ms     int64    //time
	stap   map[int]int
}

type s03Script struct {
	name   string
	inSDP  bool
	rate   int
	chans  int
	asc    []byte
	vbase  uint32
	abase  uint32
	seq    uint16
	mtu    int
	events []s03Event
}

func s03NAL(typ byte, seed, n int) []byte { return nal(typ, seed, n)[4:] }

func s03Scripts() (out []s03Script) {
	sps, pps := avcC[8:16], avcC[19:23]
	sps2, pps2 := avcC2[8:16], avcC2[19:23]
	f := func(seed, n int) []byte { return v.Fill(seed, n) }
	stap := map[int]int{0: 3}
	base := []s03Event{
		{nals: [][]byte{sps, pps, s03NAL(5, 1, 60)}, key: true, ms: 0},
		{frames: [][]byte{f(2, 11)}, ms: 5},
		{nals: [][]byte{s03NAL(1, 3, 9)}, ms: 40},
		{nals: [][]byte{s03NAL(9, 4, 2), s03NAL(6, 5, 7), s03NAL(1, 6, 33), s03NAL(1, 7, 12)}, ms: 81},
		{frames: [][]byte{f(8, 5), f(9, 14)}, ms: 60},
		{nals: [][]byte{sps2, pps2, s03NAL(5, 10, 21), s03NAL(6, 31, 4), s03NAL(5, 32, 5), s03NAL(5, 33, 6), s03NAL(5, 34, 7), s03NAL(5, 35, 8), {0x0a}}, key: true, ms: 120, stap: stap},
		{nals: [][]byte{s03NAL(1, 11, 45)}, ms: 160},
		{frames: [][]byte{f(12, 3)}, ms: 200},
	}
	plain := []s03Event{
		{nals: [][]byte{s03NAL(5, 21, 30)}, key: true, ms: 0},
		{nals: [][]byte{s03NAL(1, 22, 30)}, ms: 33},
		{frames: [][]byte{f(23, 30)}, ms: 0},
		{nals: [][]byte{s03NAL(5, 24, 30), s03NAL(5, 25, 7)}, key: true, ms: 67},
		{frames: [][]byte{f(26, 7)}, ms: 23},
	}
	out = append(out,
		s03Script{name: "headers in SDP and in-band", inSDP: true, rate: 44100, chans: 2, asc: []byte{0x12, 0x10}, seq: 1, mtu: 20, events: base},
		s03Script{name: "headers in-band only, wrapping", inSDP: false, rate: 48000, chans: 1, asc: []byte{0x11, 0x88}, vbase: 0xffffffff - 5000, abase: 0xffffffff - 900, seq: 65533, mtu: 15, events: base},
		s03Script{name: "headers in SDP only", inSDP: true, rate: 16000, chans: 2, asc: []byte{0x14, 0x10}, vbase: 0x80000000, abase: 77, seq: 40000, mtu: 12, events: plain},
		s03Script{name: "whole units", inSDP: true, rate: 8000, chans: 1, asc: []byte{0x15, 0x88}, vbase: 12345, abase: 0xfffffff0, seq: 65535, mtu: 1400, events: plain},
	)
	return
}

// lastKey is the last event with a keyframe.
func (s *s03Script) lastKey() (k int) {
	for i, e := range s.events {
		if e.key {
			k = i
		}
	}
	return
}

func (s *s03Script) sdp() string {
	fmtp := "packetization-mode=1"
	if s.inSDP {
		fmtp += ";sprop-parameter-sets=" + base64.StdEncoding.EncodeToString(avcC[8:16]) + "," + base64.StdEncoding.EncodeToString(avcC[19:23])
	}
	return "v=0\r\no=- 0 0 IN IP4 127.0.0.1\r\ns=t\r\nc=IN IP4 127.0.0.1\r\nt=0 0\r\nm=video 0 RTP/AVP 96\r\na=rtpmap:96 H264/90000\r\na=fmtp:96 " + fmtp +
		"\r\na=control:streamid=0\r\nm=audio 0 RTP/AVP 97\r\na=rtpmap:97 MPEG4-GENERIC/" + strconv.Itoa(s.rate) + "/" + strconv.Itoa(s.chans) +
		"\r\na=fmtp:97 profile-level-id=1;mode=AAC-hbr;sizelength=13;indexlength=3;indexdeltalength=3;config=" + fmt.Sprintf("%x", s.asc) + "\r\na=control:streamid=1\r\n"
}

// s03Packet is an RTP packet and the event it belongs to.
type s03Packet struct {
	audio bool
	b     []byte
	event int
	last  bool //completes the event
}

func (s *s03Script) packets() (out []s03Packet) {
	vs, as := s.seq, s.seq+7
	for i, e := range s.events {
		if e.nals != nil {
			ps := v.AVCPayloads(e.nals, s.mtu, e.stap)
			for k, p := range ps {
				out = append(out, s03Packet{b: v.RTP{PT: 96, Marker: k == len(ps)-1, Seq: vs, TS: s.vbase + uint32(e.ms*90), SSRC: 1, Payload: p, Ext: -1}.Bytes(), event: i, last: k == len(ps)-1})
				vs++
			}
		} else {
			out = append(out, s03Packet{audio: true, b: v.RTP{PT: 97, Marker: true, Seq: as, TS: s.abase + uint32(e.ms*int64(s.rate)/1000), SSRC: 2, Payload: v.AACPayload(e.frames...), Ext: -1}.Bytes(), event: i, last: true})
			as++
		}
	}
	return
}

// s03Tag is what a viewer received, decoded.
type s03Tag struct {
	audio  bool
	header bool
	key    bool
	ts     uint32
	sps    [][]byte
	pps    [][]byte
	units  [][]byte
	raw    []byte
}

func s03Decode(tags []v.Msg) (out []s03Tag, err error) {
	for i, m := range tags {
		p := m.Payload
		switch m.Type {
		case 8:
			if len(p) < 2 || p[0]&0xfc != 0xac {
				return out, fmt.Errorf("audio tag %d: %x", i, p)
			}
			out = append(out, s03Tag{audio: true, header: p[1] == 0, ts: m.TS, raw: p[2:], key: p[0]&1 == 1})
		case 9:
			if len(p) < 5 || p[0]&15 != 7 || p[1] > 1 || p[2]|p[3]|p[4] != 0 {
				return out, fmt.Errorf("video tag %d: %x", i, p)
			}
			t := s03Tag{header: p[1] == 0, key: p[0]>>4 == 1, ts: m.TS}
			if !t.key && p[0]>>4 != 2 {
				return out, fmt.Errorf("video tag %d has frame type %d", i, p[0]>>4)
			}
			b := p[5:]
			if t.header {
				if len(b) < 7 || b[0] != 1 || b[4]&3 != 3 {
					return out, fmt.Errorf("video header %x", b)
				}
				read := func(n int) (sets [][]byte) {
					for ; n > 0 && len(b) >= 2; n-- {
						l := int(b[0])<<8 | int(b[1])
						if len(b) < 2+l {
							err = fmt.Errorf("video header cut")
							return
						}
						sets = append(sets, b[2:2+l])
						b = b[2+l:]
					}
					return
				}
				if b[1] != p[5+1] {
					return out, fmt.Errorf("video header")
				}
				n := int(b[5] & 31)
				prof := b[1:4]
				b = b[6:]
				t.sps = read(n)
				if len(b) > 0 {
					n = int(b[0])
					b = b[1:]
					t.pps = read(n)
				}
				if err == nil && (len(t.sps) == 0 || len(t.pps) == 0 || !bytes.Equal(prof, t.sps[0][1:4])) {
					err = fmt.Errorf("video header %x", p)
				}
				if err != nil {
					return out, err
				}
			} else {
				for len(b) > 0 {
					if len(b) < 4 {
						return out, fmt.Errorf("video tag %d: unit cut", i)
					}
					l := int(b[0])<<24 | int(b[1])<<16 | int(b[2])<<8 | int(b[3])
					if l <= 0 || l > len(b)-4 {
						return out, fmt.Errorf("video tag %d: unit of %d bytes", i, l)
					}
					if u := b[4 : 4+l]; u[0]&31 != 7 && u[0]&31 != 8 {
						t.units = append(t.units, u)
					}
					b = b[4+l:]
				}
			}
			out = append(out, t)
		case 18:
		default:
			return out, fmt.Errorf("tag of type %d", m.Type)
		}
	}
	return
}

// s03Judge compares the tags with the events that must (must[i]) or may arrive. The order within a
// track is that of the events; with strict, so is the order across tracks.
func s03Judge(s *s03Script, tags []v.Msg, may func(i int) (must, may bool), order []int) string {
	got, err := s03Decode(tags)
	if err != nil {
		return err.Error()
	}
	var sps, pps []byte //of the last header received
	var asc []byte
	type unit struct {
		event, frame int
	}
	match := func(t s03Tag, from unit) (unit, bool) {
		for i := from.event; i < len(s.events); i++ {
			e := s.events[i]
			if t.audio {
				for k, f := range e.frames {
					if (i > from.event || k >= from.frame) && bytes.Equal(f, t.raw) {
						return unit{i, k}, true
					}
				}
				continue
			}
			if e.nals == nil || i == from.event && from.frame > 0 {
				continue
			}
			var want [][]byte
			for _, n := range e.nals {
				if n[0]&31 != 7 && n[0]&31 != 8 {
					want = append(want, n)
				}
			}
			if must, _ := may(i); must && len(want) != len(t.units) {
				continue
			}
			//of a unit that was hit by a loss, a part of its NAL units may arrive
			k := 0
			for _, n := range want {
				if k < len(t.units) && bytes.Equal(n, t.units[k]) {
					k++
				}
			}
			if k > 0 && k == len(t.units) {
				return unit{i, 0}, true
			}
		}
		return unit{}, false
	}
	damaged := false
	for i := range s.events {
		must, _ := may(i)
		damaged = damaged || !must
	}
	seen := map[unit]bool{}
	var vpos, apos unit
	var voff, aoff int64
	var vset, aset bool
	var arrived []int
	for i, t := range got {
		if t.header {
			if t.audio {
				asc = t.raw
				if !bytes.Equal(asc, s.asc) {
					return fmt.Sprintf("audio header %x, announced %x", asc, s.asc)
				}
			} else {
				if len(t.sps) != 1 || len(t.pps) != 1 {
					return fmt.Sprintf("video header with %d and %d sets", len(t.sps), len(t.pps))
				}
				sps, pps = t.sps[0], t.pps[0]
			}
			continue
		}
		if t.audio {
			u, ok := match(t, apos)
			if !ok {
				return fmt.Sprintf("audio frame (tag %d) %x was not sent, or sent before", i, t.raw)
			}
			if asc == nil {
				return "audio before its header"
			}
			if t.key != (s.chans == 2) {
				return "audio tag with the wrong channel flag"
			}
			want := s.events[u.event].ms*1000 + int64(u.frame)*1024*1000000/int64(s.rate) //µs
			if d := int64(t.ts)*1000 - want; !aset {
				aoff, aset = d, true
			} else if d-aoff > 2100 || d-aoff < -2100 {
				return fmt.Sprintf("audio of event %d frame %d at %d ms, %d µs off", u.event, u.frame, t.ts, d-aoff)
			}
			seen[u] = true
			apos = unit{u.event, u.frame + 1}
			if u.frame == len(s.events[u.event].frames)-1 {
				arrived = append(arrived, u.event)
			}
			continue
		}
		if len(t.units) == 0 && damaged {
			continue
		}
		u, ok := match(t, vpos)
		if !ok {
			return fmt.Sprintf("access unit (tag %d) of %d units was not sent, or sent before", i, len(t.units))
		}
		m0, _ := may(0)
		m5, _ := may(min(5, len(s.events)-1))
		first := !s.inSDP && !m0 && (u.event < 5 || !m5) //the only parameter sets so far got lost
		if sps == nil && !first {
			return "picture before its header"
		}
		key := false
		for _, n := range t.units {
			key = key || n[0]&31 == 5
		}
		if t.key != key {
			return fmt.Sprintf("picture of event %d: keyframe %v", u.event, t.key)
		}
		//the parameter sets in effect when it was sent
		wantS, wantP := avcC[8:16], avcC[19:23]
		if u.event >= 5 && len(s.events) == 8 {
			wantS, wantP = avcC2[8:16], avcC2[19:23]
		}
		if m, _ := may(5); len(s.events) == 8 && u.event >= 5 && !m || first {
			wantS = sps
			wantP = pps //they were lost
		}
		if !bytes.Equal(sps, wantS) || !bytes.Equal(pps, wantP) {
			return fmt.Sprintf("picture of event %d after header %x %x", u.event, sps, pps)
		}
		want := s.events[u.event].ms
		if d := int64(t.ts) - want; !vset {
			voff, vset = d, true
		} else if d-voff > 1 || d-voff < -1 {
			return fmt.Sprintf("picture of event %d at %d ms, %d ms off", u.event, t.ts, d-voff)
		}
		seen[u] = true
		vpos = unit{u.event, 1}
		arrived = append(arrived, u.event)
	}
	for i, e := range s.events {
		must, can := may(i)
		can = can || e.nals != nil
		n := len(e.frames)
		if e.nals != nil {
			n = 1
		}
		for k := 0; k < n; k++ {
			have := seen[unit{i, k}]
			if must && !have {
				return fmt.Sprintf("event %d (%d) did not arrive", i, k)
			}
			if !can && have {
				return fmt.Sprintf("event %d arrived although part of it was lost", i)
			}
		}
	}
	if order != nil {
		order = order[len(order)-min(len(arrived), len(order)):]
	}
	if order != nil && fmt.Sprint(order) != fmt.Sprint(arrived) {
		return fmt.Sprintf("events arrived in order %v, sent in %v", arrived, order)
	}
	return ""
}

func (k *rtspCli) announce(s *s03Script, vt, at string) error {
	if _, err := k.do("ANNOUNCE", "p", nil, s.sdp()); err != nil {
		return err
	}
	if _, err := k.do("SETUP", "p/streamid=0", []string{"Transport: " + vt}, ""); err != nil {
		return err
	}
	if _, err := k.do("SETUP", "p/streamid=1", []string{"Transport: " + at}, ""); err != nil {
		return err
	}
	return nil
}

func TestVerifS03Record(t *testing.T) {
	r := v.Start(t)
	defer r.Finish()
	scripts := s03Scripts()
	synctest.Test(t, func(t *testing.T) {
		srv := NewServer(":0", "live")
		run := func(s *s03Script, cuts []int, limit int, pings, late bool) int {
			desc := fmt.Sprintf("%s, cuts %v, reads of at most %d, requests in between %v, viewer after RECORD %v", s.name, cuts, limit, pings, late)
			r.Journal("S03 %s", desc)
			k := dialRTSP(srv, synctest.Wait)
			defer func() { k.c.Close(); synctest.Wait() }()
			bad := func(f string, a ...interface{}) {
				r.Violation("s03:record", desc, "%s: %s", desc, fmt.Sprintf(f, a...))
			}
			if err := k.announce(s, "RTP/AVP/TCP;unicast;interleaved=2-3", "RTP/AVP/TCP;unicast;interleaved=4-5"); err != nil {
				bad("%v", err)
				return 0
			}
			sink := &flvSink{}
			over := make(chan struct{})
			join := func() {
				room := srv.apps["live"].Load("p")
				if room == nil {
					bad("no stream")
					close(over)
					return
				}
				go func() { defer close(over); room.FLVJoin(easyio.NewEasyWriter(sink)) }()
				synctest.Wait()
			}
			if !late {
				join()
			}
			if _, err := k.do("RECORD", "p", nil, ""); err != nil {
				bad("%v", err)
				return 0
			}
			if late {
				join()
			}
			var all []byte
			var order []int
			asked, group := 0, 0
			for i, p := range s.packets() {
				ch := byte(2)
				if p.audio {
					ch = 4
				}
				if e := s.events[p.event]; e.key && p.event > 0 && group == 0 {
					group = len(all)
				}
				all = append(append(all, '$', ch, byte(len(p.b)>>8), byte(len(p.b))), p.b...)
				if p.last {
					order = append(order, p.event)
				}
				if pings && i%3 == 0 {
					//RTCP, and a channel nobody set up
					all = append(all, '$', ch+1, 0, 8, 0x80, 200, 0, 1, 0, 0, 0, 0)
					all = append(append(all, '$', 9, byte(len(p.b)>>8), byte(len(p.b))), p.b...)
				}
				if pings && i%4 == 1 {
					all = append(all, k.text("GET_PARAMETER", "p", nil, "")...)
					asked++
				}
			}
			if limit > 0 {
				k.c.LimitPeerReads(limit)
			}
			at := 0
			stops := append(append([]int(nil), cuts...), len(all))
			if len(cuts) > 0 {
				//The viewer catches up before the second group starts: one that is two groups
				//behind may be moved forward.
				stops = append(stops, group)
				sort.Ints(stops)
			}
			for _, c := range stops {
				k.c.Write(all[at:c])
				synctest.Wait()
				at = c
			}
			reps, err := k.take()
			if err != nil || len(reps) != asked || len(k.frames) != 0 {
				bad("%d replies to %d requests and %d frames: %v", len(reps), asked, len(k.frames), err)
				return len(all)
			}
			//whoever joins now starts at the last keyframe
			last, gone := &flvSink{}, make(chan struct{})
			if room := srv.apps["live"].Load("p"); room != nil {
				go func() { defer close(gone); room.FLVJoin(easyio.NewEasyWriter(last)) }()
				synctest.Wait()
			}
			k.c.Write(k.text("TEARDOWN", "p", nil, ""))
			synctest.Wait()
			if e := s03Judge(s, last.tags, func(i int) (bool, bool) { return i >= s.lastKey(), i >= s.lastKey() }, nil); e != "" {
				bad("viewer who joined at the end: %s", e)
			}
			pics := 0
			for _, e := range s.events[s.lastKey():] {
				if e.nals != nil {
					pics++
				}
			}
			g, _ := s03Decode(last.tags)
			for _, x := range g {
				if !x.audio && !x.header && len(x.units) > 0 {
					pics--
				}
			}
			if pics != 0 {
				bad("viewer who joined at the end got %d pictures too few (since the last keyframe)", pics)
			}
			select {
			case <-over:
			default:
				bad("the viewer is not released")
				return len(all)
			}
			if sink.err != "" {
				bad("%s", sink.err)
			}
			if e := s03Judge(s, sink.tags, func(i int) (bool, bool) { return len(cuts) > 0 || i >= s.lastKey(), true }, order); e != "" {
				g, _ := s03Decode(sink.tags)
				bad("%s; the viewer got %+v", e, g)
			}
			r.Eval("ok", desc)
			return len(all)
		}
		for i := range scripts {
			s := &scripts[i]
			n := run(s, nil, 0, true, false)
			plain := run(s, nil, 0, false, true)
			for limit := 1; limit <= 40; limit++ {
				if r.Mine() {
					run(s, nil, limit, true, limit%2 == 0)
				}
			}
			for c := 1; c < n; c++ {
				if r.Mine() {
					run(s, []int{c}, 0, true, c%2 == 0)
				}
			}
			step := r.Pick(5, 1)
			for a := 1; a < plain; a++ {
				for b := a + 1; b < plain; b++ {
					if (a*7+b)%step != 0 {
						continue
					}
					if r.Mine() {
						if r.Expired() {
							r.Capped("budget")
							return
						}
						run(s, []int{a, b}, 0, false, false)
					}
				}
			}
			if r.Quick() {
				r.Note("pairs of cuts: one in %d", step)
			}
		}
	})
}

// TestVerifS03UDP sends the scripts over real UDP sockets with one or two packets lost, repeated or
// swapped.
func TestVerifS03UDP(t *testing.T) {
	r := v.Start(t)
	defer r.Finish()
	wait := func() { time.Sleep(50 * time.Microsecond) }
	srv := NewServer(":0", "live")
	out, err := net.ListenUDP("udp", &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1)})
	if err != nil {
		r.Note("no UDP: %v", err)
		return
	}
	defer out.Close()
	n := 0
	run := func(s s03Script, deliver []int, what string) {
		desc := fmt.Sprintf("%s, UDP, %s", s.name, what)
		r.Journal("S03 %s", desc)
		n++
		k := dialRTSP(srv, wait)
		defer func() { k.c.Close(); <-k.done }()
		bad := func(f string, a ...interface{}) {
			r.Violation("s03:udp", desc, "%s: %s", desc, fmt.Sprintf(f, a...))
		}
		if err := k.announceUDP(&s); err != nil {
			bad("%v", err)
			return
		}
		room := srv.apps["live"].Load("p")
		if room == nil {
			bad("no stream")
			return
		}
		sink := &flvSink{}
		over := make(chan struct{})
		go func() { defer close(over); room.FLVJoin(easyio.NewEasyWriter(sink)) }()
		for i := 0; sink.count() < 1 && i < 40000 && s.inSDP; i++ {
			wait()
		}
		s03Joined(wait)
		if _, err := k.do("RECORD", "p", nil, ""); err != nil {
			bad("%v", err)
			return
		}
		pkts := s.packets()
		lost := map[int]bool{}
		early := map[int]bool{} //an event whose packets arrived out of order
		count := make([]int, len(pkts))
		high := map[bool]int{true: -1, false: -1}
		for _, i := range deliver {
			count[i]++
			if i < high[pkts[i].audio] && count[i] == 1 {
				early[pkts[i].event] = true
			}
			high[pkts[i].audio] = max(high[pkts[i].audio], i)
		}
		for i, p := range pkts {
			if count[i] == 0 {
				lost[p.event] = true
			}
		}
		before, waited := 0, false //units that arrive before the second group
		left := make([]int, len(s.events))
		for i := range pkts {
			left[pkts[i].event] += count[i]
		}
		for _, i := range deliver {
			if pkts[i].event == s.lastKey() && !waited {
				waited = true
				for i, e := range s.events[:s.lastKey()] {
					if !lost[i] && !early[i] && left[i] == 0 {
						before += max(1, len(e.frames))
					}
				}
				for k := 0; k < 20000; k++ {
					sink.mu.Lock()
					n := 0
					for _, m := range sink.tags {
						if len(m.Payload) > 1 && m.Payload[1] == 1 {
							n++
						}
					}
					sink.mu.Unlock()
					if n >= before {
						break
					}
					wait()
				}
			}
			port := k.ports[0]
			if pkts[i].audio {
				port = k.ports[1]
			}
			left[pkts[i].event]--
			out.WriteToUDP(pkts[i].b, &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: port})
		}
		//the last event of each track always arrives whole
		want := map[bool]bool{}
		lastV, lastA := 0, 0
		for i, e := range s.events {
			if e.nals != nil {
				lastV = i
			} else {
				lastA = i
			}
		}
		deadline := time.Now().Add(10 * time.Second)
		for {
			sink.mu.Lock()
			tags := append([]v.Msg(nil), sink.tags...)
			sink.mu.Unlock()
			want[true], want[false] = false, false
			for _, m := range tags {
				if m.Type == 8 && bytes.HasSuffix(m.Payload, s.events[lastA].frames[0]) {
					want[true] = true
				}
				if m.Type == 9 && bytes.HasSuffix(m.Payload, s.events[lastV].nals[0]) {
					want[false] = true
				}
			}
			if want[true] && want[false] {
				break
			}
			if time.Now().After(deadline) {
				bad("the last units do not arrive")
				return
			}
			wait()
		}
		k.c.Write(k.text("TEARDOWN", "p", nil, ""))
		<-over
		if sink.err != "" {
			bad("%s", sink.err)
		}
		if e := s03Judge(&s, sink.tags, func(i int) (bool, bool) {
			return !lost[i] && !early[i], !lost[i]
		}, nil); e != "" {
			g, _ := s03Decode(sink.tags)
			bad("%s; the viewer got %+v", e, g)
		}
		r.Eval("ok", desc)
	}
	for _, s := range s03Scripts() {
		//a last event that is never touched
		if s.events[len(s.events)-1].frames == nil {
			continue
		}
		s.events = append(append([]s03Event(nil), s.events...), s03Event{nals: [][]byte{s03NAL(1, 77, 10)}, ms: 240}, s03Event{frames: [][]byte{v.Fill(78, 9)}, ms: 260})
		if len(s.events) == 10 {
			//the judge tells the long script by its length
			s.events = append(s.events[:6:6], s.events[8:]...)
		}
		m := len(s.packets()) - 2
		all := func(skip ...int) (d []int) {
			for i := 0; i < m+2; i++ {
				keep := true
				for _, x := range skip {
					keep = keep && i != x
				}
				if keep {
					d = append(d, i)
				}
			}
			return
		}
		run(s, all(), "nothing lost")
		for a := 0; a < m; a++ {
			if r.Mine() {
				run(s, all(a), fmt.Sprintf("packet %d of %d lost", a, m))
			}
			if r.Mine() {
				d := all()
				d[a], d[a+1] = d[a+1], d[a]
				if a+1 < m {
					run(s, d, fmt.Sprintf("packets %d and %d swapped", a, a+1))
				}
			}
			if r.Mine() {
				d := all()
				d = append(d[:a+1:a+1], d[a:]...)
				run(s, d, fmt.Sprintf("packet %d sent twice", a))
			}
			for b := a + 1; b < m; b++ {
				if r.Mine() && !r.Expired() {
					run(s, all(a, b), fmt.Sprintf("packets %d and %d of %d lost", a, b, m))
				}
			}
		}
	}
	if r.Expired() {
		r.Capped("budget")
	}
}

// s03Joined waits until the goroutine that runs FLVJoin waits for tags: on a busy machine it
// could otherwise join after the first packets.
func s03Joined(wait func()) {
	buf := make([]byte, 1<<20)
	for i := 0; i < 40000; i++ {
		for _, g := range strings.Split(string(buf[:runtime.Stack(buf, true)]), "\n\n") {
			_, state, _ := strings.Cut(g, "[")
			state, _, _ = strings.Cut(state, "]")
			state, _, _ = strings.Cut(state, ",")
			if strings.Contains(g, ".FLVJoin(") && state != "running" && state != "runnable" && !strings.Contains(state, "Mutex") {
				return
			}
		}
		wait()
	}
}

func (k *rtspCli) announceUDP(s *s03Script) error {
	if _, err := k.do("ANNOUNCE", "p", nil, s.sdp()); err != nil {
		return err
	}
	for i, tr := range []string{"p/streamid=0", "p/streamid=1"} {
		rep, err := k.do("SETUP", tr, []string{fmt.Sprintf("Transport: RTP/AVP;unicast;client_port=%d-%d;mode=record", 40000+2*i, 40001+2*i)}, "")
		if err != nil {
			return err
		}
		_, p, _ := strings.Cut(rep.Headers["transport"], "server_port=")
		p, _, _ = strings.Cut(p, "-")
		n, err := strconv.Atoi(p)
		if err != nil {
			return fmt.Errorf("transport %q", rep.Headers["transport"])
		}
		k.ports = append(k.ports, n)
	}
	return nil
}

// TestVerifS03Play publishes every short script over RTMP and plays it over RTSP from every position.
func TestVerifS03Play(t *testing.T) {
	r := v.Start(t)
	defer r.Finish()
	type pub struct {
		typ  byte
		body []byte
		cts  int32
		key  bool
		hdr  bool
	}
	//pictures of either codec; the NAL types are those of H.264
	vid := func(hevc bool, seed int, key bool, cts int32, sizes ...int) pub {
		b := []byte{0x27, 1, byte(cts >> 16), byte(cts >> 8), byte(cts)}
		typ := byte(1)
		if key {
			b[0], typ = 0x17, 5
		}
		for i, n := range sizes {
			u := nal(typ, seed+i, n)
			if hevc {
				h := byte(1)
				if key {
					h = 19
				}
				u = nal(0, seed+i, n+1)
				u[4], u[5] = h<<1, 1
			}
			b = append(b, u...)
		}
		if hevc {
			b[0] = b[0]&0xf0 | 12
		}
		return pub{typ: 9, body: b, cts: cts, key: key}
	}
	hsets := func(alt int) [][]byte {
		return [][]byte{v.Cat([]byte{32 << 1, 1}, v.Fill(alt+1, 9)), v.Cat([]byte{33 << 1, 1}, v.Fill(alt+2, 15)), v.Cat([]byte{34 << 1, 1}, v.Fill(alt+3, 4))}
	}
	header := func(hevc bool, alt int) (body []byte, sets [][]byte) {
		if hevc {
			sets = hsets(alt)
			return v.Cat([]byte{0x1c, 0, 0, 0, 0}, v.HEVCRecord(1, 93, sets[:1], sets[1:2], sets[2:])), sets
		}
		body = vSeq
		if alt%2 == 1 {
			body = vSeq2
		}
		return body, [][]byte{body[13:21], body[24:28]}
	}
	ops := []struct {
		name string
		pubs func(hevc bool, seed int) []pub
	}{
		{"key", func(h bool, s int) []pub { return []pub{vid(h, s, true, 0, 30)} }},
		{"big key", func(h bool, s int) []pub {
			return []pub{vid(h, s, true, 40, 3000, 1400, 7, 8, 9, 6, 5, 12, 1390, 7, 6, 30)}
		}},
		{"inter", func(h bool, s int) []pub { return []pub{vid(h, s, false, 80, 50)} }},
		{"many-slice inter", func(h bool, s int) []pub {
			return []pub{vid(h, s, false, -40, 1401, 2, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5)}
		}},
		{"audio", func(h bool, s int) []pub { return []pub{{typ: 8, body: aRaw(s, 20)}} }},
		{"big audio", func(h bool, s int) []pub { return []pub{{typ: 8, body: aRaw(s, 2000)}} }},
		{"other header and key", func(h bool, s int) []pub {
			b, _ := header(h, s)
			return []pub{{typ: 9, body: b, hdr: true}, vid(h, s, true, 0, 30)}
		}},
		{"end of sequence", func(h bool, s int) []pub {
			b := []byte{0x17, 2, 0, 0, 0}
			if h {
				b[0] = 0x1c
			}
			return []pub{{typ: 9, body: b, hdr: true}}
		}},
	}
	sock, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_DGRAM, 0)
	if err != nil {
		r.Note("no UDP: %v", err)
		return
	}
	defer syscall.Close(sock)
	syscall.SetsockoptInt(sock, syscall.SOL_SOCKET, syscall.SO_RCVBUF, 4<<20)
	syscall.Bind(sock, &syscall.SockaddrInet4{Addr: [4]byte{127, 0, 0, 1}})
	sa, _ := syscall.Getsockname(sock)
	port := sa.(*syscall.SockaddrInet4).Port

	//the header tells the size of the unit lengths, and pictures are written with it
	sized := func(hdr []byte, size int) []byte {
		hdr = bytes.Clone(hdr)
		i := 9
		if hdr[0]&15 == 12 {
			i = 26
		}
		hdr[i] = hdr[i]&^3 | byte(size-1)
		return hdr
	}
	resize := func(body []byte, size int) (kept, wire []byte) {
		kept, wire = bytes.Clone(body[:5]), bytes.Clone(body[:5])
		for b := body[5:]; len(b) >= 4; {
			n := int(binary.BigEndian.Uint32(b))
			u := b[4 : 4+n]
			b = b[4+n:]
			if size == 1 && n > 255 {
				u = u[:255]
			}
			l := v.U32(uint32(len(u)))
			kept = append(append(kept, l...), u...)
			wire = append(append(wire, l[4-size:]...), u...)
		}
		return
	}
	run := func(seq []int, at int, udp, hevc, opus bool, base uint32) {
		size := at + len(seq)
		for _, o := range seq {
			size += o
		}
		size = []int{4, 2, 4, 1}[size%4]
		desc := fmt.Sprintf("player after %d, UDP %v, HEVC %v, Opus %v, time %d, lengths of %d bytes: ", at, udp, hevc, opus, base, size)
		aHdr, aRate := aSeq, 44100
		if opus {
			aHdr, aRate = v.Cat([]byte{0xdf, 0}, []byte("OpusHead\x01\x02\x38\x01\x80\xbb\x00\x00\x00\x00\x00")), 48000
		}
		for _, o := range seq {
			desc += ops[o].name + ", "
		}
		r.Journal("S03 %s", desc)
		bad := func(f string, a ...interface{}) {
			r.Violation("s03:play", desc, "%s: %s", desc, fmt.Sprintf(f, a...))
		}
		srv := NewServer(":0", "live")
		p, err := publishRTMP(srv, "live", "x")
		first, sets := header(hevc, 0)
		setKind := func(n []byte) int {
			switch {
			case !hevc && n[0]&31 == 7:
				return 0
			case !hevc && n[0]&31 == 8:
				return 1
			case hevc && n[0]>>1 >= 32 && n[0]>>1 <= 34:
				return int(n[0]>>1) - 32
			}
			return -1
		}
		defer p.closeWait()
		if err != nil {
			bad("%v", err)
			return
		}
		p.send(v.Msg{Type: 9, CSID: 6, SID: 1, TS: base, Payload: sized(first, size)})
		p.send(v.Msg{Type: 8, CSID: 4, SID: 1, TS: base, Payload: aHdr})
		synctest.Wait()
		type sent struct {
			pub
			ts    uint32
			sets  [][]byte
			index int //of the op
		}
		var all []sent
		var k *rtspCli
		var datagrams [][]byte
		recv := func() {
			b := make([]byte, 4096)
			for {
				n, _, err := syscall.Recvfrom(sock, b, syscall.MSG_DONTWAIT)
				if err != nil || n <= 0 {
					return
				}
				datagrams = append(datagrams, bytes.Clone(b[:n]))
			}
		}
		known := make([][]byte, len(sets))
		join := func() bool {
			k = dialRTSP(srv, synctest.Wait)
			rep, err := k.do("DESCRIBE", "x", nil, "")
			if err != nil {
				bad("%v", err)
				return false
			}
			_, media, err := v.UnSDP(rep.Body)
			if err != nil || len(media) != 2 || media[1].Rate != aRate || strings.EqualFold(media[1].Codec, "opus") != opus {
				bad("SDP %q: %v", rep.Body, err)
				return false
			}
			names := []string{"sprop-parameter-sets"}
			if hevc {
				names = []string{"sprop-vps", "sprop-sps", "sprop-pps"}
			}
			for _, name := range names {
				ps, err := media[0].Base64(name)
				if err != nil {
					bad("SDP: %v", err)
					return false
				}
				for _, n := range ps {
					if setKind(n) < 0 {
						bad("SDP: set %x", n)
						return false
					}
					known[setKind(n)] = n
				}
			}
			vt := "RTP/AVP/TCP;unicast;interleaved=2-3"
			if udp {
				vt = fmt.Sprintf("RTP/AVP;unicast;client_port=%d-%d", port, port+1)
			}
			if _, err = k.do("SETUP", "x/trackID=0", []string{"Transport: " + vt}, ""); err != nil {
				bad("%v", err)
				return false
			}
			if _, err = k.do("SETUP", "x/trackID=1", []string{"Transport: RTP/AVP/TCP;unicast;interleaved=8-9"}, ""); err != nil {
				bad("%v", err)
				return false
			}
			if _, err = k.do("PLAY", "x", nil, ""); err != nil {
				bad("%v", err)
				return false
			}
			return true
		}
		defer func() {
			if k != nil {
				k.c.Close()
				synctest.Wait()
			}
		}()
		recv()
		datagrams = nil
		ts := base
		for i := 0; i <= len(seq); i++ {
			if i == at && !join() {
				return
			}
			if i == len(seq) {
				synctest.Wait()
				recv()
				break
			}
			ts += 40
			for _, x := range ops[seq[i]].pubs(hevc, len(all)*10+1) {
				if x.hdr && x.body[1] == 0 {
					_, sets = header(hevc, len(all)*10+1)
					size = map[int]int{4: 2, 2: 1, 1: 4}[size]
					x.body = sized(x.body, size)
				}
				wire := x.body
				if x.typ == 9 && !x.hdr {
					x.body, wire = resize(x.body, size)
				}
				csid := uint32(6)
				if x.typ == 8 {
					csid = 4
					if opus {
						x.body[0] = 0xdf
					}
				}
				p.send(v.Msg{Type: x.typ, CSID: csid, SID: 1, TS: ts, Payload: wire})
				if !x.hdr {
					all = append(all, sent{x, ts, sets, i})
				}
			}
			synctest.Wait()
			recv()
		}
		if len(datagrams) > 0 && !udp {
			bad("%d datagrams", len(datagrams))
		}
		//with a keyframe sent before, playing starts at the last of them
		start := -1
		for i, s := range all {
			if s.index < at && s.key {
				start = i
			}
		}
		if reps, err := k.take(); err != nil || len(reps) != 0 {
			bad("%d replies: %v", len(reps), err)
			return
		}
		var vp, ap []v.RTP
		for _, f := range k.frames {
			pk, err := v.UnRTP(f.body)
			if err != nil {
				bad("%v", err)
				return
			}
			switch {
			case f.ch == 2 && !udp:
				vp = append(vp, pk)
			case f.ch == 8:
				ap = append(ap, pk)
			default:
				bad("frame on channel %d", f.ch)
				return
			}
		}
		for _, d := range datagrams {
			pk, err := v.UnRTP(d)
			if err != nil {
				bad("%v", err)
				return
			}
			vp = append(vp, pk)
		}
		var wantV, wantA []sent
		minV, minA := 0, 0
		for i, s := range all {
			if i < start {
				continue
			}
			if s.typ == 9 {
				wantV = append(wantV, s)
				if start < 0 && s.index < at {
					minV = len(wantV)
				}
			} else {
				wantA = append(wantA, s)
				if start < 0 && s.index < at {
					minA = len(wantA)
				}
			}
		}
		for _, tr := range [][]v.RTP{vp, ap} {
			for i := 1; i < len(tr); i++ {
				if tr[i].Seq != tr[i-1].Seq+1 || tr[i].SSRC != tr[0].SSRC || tr[i].PT != tr[0].PT {
					bad("packet %d has sequence number %d after %d", i, tr[i].Seq, tr[i-1].Seq)
					return
				}
			}
		}
		//group the video packets into access units
		type au struct {
			ts   uint32
			nals [][]byte
		}
		var aus []au
		var cur [][]byte
		for i, pk := range vp {
			cur = append(cur, pk.Payload)
			if i+1 < len(vp) && !pk.Marker && vp[i+1].TS != pk.TS {
				bad("access unit without marker")
				return
			}
			if pk.Marker {
				nals, err := v.UnAVC(cur)
				if hevc {
					nals, err = v.UnHEVC(cur)
				}
				if err != nil {
					bad("%v", err)
					return
				}
				aus = append(aus, au{pk.TS, nals})
				cur = nil
			}
		}
		if cur != nil {
			bad("video does not end with a marker")
			return
		}
		if len(aus) > len(wantV) || len(aus) < len(wantV)-minV {
			bad("%d pictures, published were %d", len(aus), len(wantV))
			return
		}
		wantV = wantV[len(wantV)-len(aus):]
		for i, a := range aus {
			w := wantV[i]
			var want, got [][]byte
			for b := w.body[5:]; len(b) >= 4; {
				n := int(b[0])<<24 | int(b[1])<<16 | int(b[2])<<8 | int(b[3])
				want = append(want, b[4:4+n])
				b = b[4+n:]
			}
			for _, n := range a.nals {
				if k := setKind(n); k >= 0 {
					known[k] = n
				} else {
					got = append(got, n)
				}
			}
			if len(got) != len(want) {
				bad("picture %d has %d units, published %d", i, len(got), len(want))
				return
			}
			for j := range got {
				if !bytes.Equal(got[j], want[j]) {
					bad("picture %d unit %d differs", i, j)
					return
				}
			}
			for j := range known {
				if !bytes.Equal(known[j], w.sets[j]) {
					bad("picture %d comes with parameter set %x, published with %x", i, known[j], w.sets[j])
					return
				}
			}
			if d, e := a.ts-aus[0].ts, (w.ts+uint32(w.cts)-wantV[0].ts-uint32(wantV[0].cts))*90; d != e {
				bad("picture %d is %d ticks after the first, published %d", i, int32(d), int32(e))
				return
			}
		}
		if len(ap) > len(wantA) || len(ap) < len(wantA)-minA {
			bad("%d audio packets, published were %d", len(ap), len(wantA))
			return
		}
		wantA = wantA[len(wantA)-len(ap):]
		for i, pk := range ap {
			fr, err := [][]byte{pk.Payload}, error(nil)
			if !opus {
				fr, err = v.UnAAC(pk.Payload)
			}
			if err != nil || len(fr) != 1 || !bytes.Equal(fr[0], wantA[i].body[2:]) || !pk.Marker && !opus {
				bad("audio packet %d: %v", i, err)
				return
			}
			d, e := int64(int32(pk.TS-ap[0].TS)), int64(int32(wantA[i].ts-wantA[0].ts))*int64(aRate)/1000
			if d-e > 45 || e-d > 45 {
				bad("audio packet %d is %d samples after the first, published %d", i, d, e)
				return
			}
		}
		r.Eval("ok", desc)
	}
	synctest.Test(t, func(t *testing.T) {
		for d := 1; d <= r.Pick(4, 5); d++ {
			v.Sequences(len(ops), d, d, func(seq []int) bool {
				for at := 0; at <= d; at++ {
					for mode := 0; mode < 8; mode++ {
						udp, hevc, opus := mode&1 == 1, mode&2 > 0, mode > 3
						if opus && d > r.Pick(3, 4) {
							continue
						}
						if !r.Mine() {
							continue
						}
						if r.Expired() {
							r.Capped("budget")
							return false
						}
						run(seq, at, udp, hevc, opus, []uint32{1000, 0xffffffff - 60, 0x7fffffb0}[at%3])
					}
				}
				return true
			})
		}
	})
}
