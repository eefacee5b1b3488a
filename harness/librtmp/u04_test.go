//go:build go1.25

package librtmp

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"net"
	"sync"
	"testing"
	"time"

	"github.com/SmartBrave/Athena/easyio"
	v "github.com/sbraveyoung/GGmpeg/verif_vlib"
)

// flvSink is a viewer's connection: it keeps the tags it has received.
type flvSink struct {
	mu   sync.Mutex
	buf  []byte
	tags []v.Msg
	err  string
	head bool
}

func (s *flvSink) Write(b []byte) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.buf = append(s.buf, b...)
	if len(s.buf) >= 13 && bytes.Equal(s.buf[:3], []byte("FLV")) {
		if h := s.buf[:13]; s.err == "" && (s.head || h[3] != 1 || h[4]&^5 != 0 || !bytes.Equal(h[5:], []byte{0, 0, 0, 9, 0, 0, 0, 0})) {
			s.err = fmt.Sprintf("file header %x", h)
		}
		s.head = true
		s.buf = s.buf[13:]
	}
	for len(s.buf) >= 11 {
		n := int(s.buf[1])<<16 | int(s.buf[2])<<8 | int(s.buf[3])
		if len(s.buf) < 15+n {
			break
		}
		if got := binary.BigEndian.Uint32(s.buf[11+n:]); got != uint32(11+n) && s.err == "" {
			s.err = fmt.Sprintf("previous tag size %d of a tag of %d bytes", got, 11+n)
		}
		if s.err == "" && (!s.head || s.buf[8]|s.buf[9]|s.buf[10] != 0) {
			s.err = fmt.Sprintf("tag header %x (file header seen: %v)", s.buf[:11], s.head)
		}
		ts := uint32(s.buf[7])<<24 | uint32(s.buf[4])<<16 | uint32(s.buf[5])<<8 | uint32(s.buf[6])
		s.tags = append(s.tags, v.Msg{Type: s.buf[0], TS: ts, Payload: bytes.Clone(s.buf[11 : 11+n])})
		s.buf = s.buf[15+n:]
	}
	return len(b), nil
}
func (s *flvSink) count() int { s.mu.Lock(); defer s.mu.Unlock(); return len(s.tags) }

// srtFeed publishes to a real SRT endpoint of a running server.
type srtFeed struct {
	c, bar *net.UDPConn
	dst    *net.UDPAddr
	id     uint32
	our    uint32
	seq    uint32
	barN   uint32
}

func freeUDP() *net.UDPAddr {
	c, err := net.ListenUDP("udp", &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1)})
	if err != nil {
		panic("verif-internal: " + err.Error())
	}
	defer c.Close()
	return c.LocalAddr().(*net.UDPAddr)
}

// srtServer starts a server with one SRT endpoint for app/stream.
func srtServer(srv *server, app, stream string) *net.UDPAddr {
	a := freeUDP()
	go srv.WithSRT(a.String(), app, stream).Handler()
	return a
}

func srtHS(typ int32, isn, id, cookie uint32) []byte {
	b := v.Cat(v.U32(5), v.U32(0), v.U32(isn), v.U32(1456), v.U32(8192), v.U32(uint32(typ)), v.U32(id), v.U32(cookie))
	return append(b, make([]byte, 16)...)
}
func srtCtl(typ uint16, dst uint32, body []byte) []byte {
	return v.Cat(v.U32(1<<31|uint32(typ)<<16), v.U32(0), v.U32(7), v.U32(dst), body)
}

func newSrtFeed(dst *net.UDPAddr, id uint32) *srtFeed {
	f := &srtFeed{dst: dst, id: id}
	for _, c := range []**net.UDPConn{&f.c, &f.bar} {
		x, err := net.ListenUDP("udp", &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1)})
		if err != nil {
			panic("verif-internal: " + err.Error())
		}
		*c = x
	}
	return f
}
func (f *srtFeed) close() { f.c.Close(); f.bar.Close() }

// ask sends until an answer of the wanted kind comes.
func (f *srtFeed) ask(c *net.UDPConn, pkt []byte, typ uint16) []byte {
	buf := make([]byte, 2048)
	for try := 0; try < 100; try++ {
		c.WriteToUDP(pkt, f.dst)
		end := time.Now().Add(150 * time.Millisecond)
		c.SetReadDeadline(end)
		for {
			n, from, err := c.ReadFromUDP(buf)
			if err != nil {
				break
			}
			if from.Port == f.dst.Port && n >= 16 && buf[0] == 0x80|byte(typ>>8) && buf[1] == byte(typ) {
				return bytes.Clone(buf[:n])
			}
		}
		time.Sleep(20 * time.Millisecond)
	}
	return nil
}

// open performs the handshake; it returns the type of the conclusion's answer.
func (f *srtFeed) open() (int32, error) {
	a := f.ask(f.c, srtCtl(0, 0, srtHS(1, 1000, f.id, 0)), 0)
	if len(a) < 64 {
		return 0, fmt.Errorf("no answer to induction")
	}
	cookie := binary.BigEndian.Uint32(a[16+28:])
	a = f.ask(f.c, srtCtl(0, 0, srtHS(-1, 1000, f.id, cookie)), 0)
	if len(a) < 64 {
		return 0, fmt.Errorf("no answer to conclusion")
	}
	f.our, f.seq = binary.BigEndian.Uint32(a[16+24:]), 1000
	return int32(binary.BigEndian.Uint32(a[16+20:])), nil
}

func (f *srtFeed) data(b []byte) {
	f.c.WriteToUDP(v.Cat(v.U32(f.seq&0x7fffffff), v.U32(0xc0000000|f.seq), v.U32(9), v.U32(f.our), b), f.dst)
	f.seq++
}
func (f *srtFeed) ts(b []byte) {
	for len(b) > 0 {
		n := min(len(b), 7*188)
		f.data(b[:n])
		b = b[n:]
	}
}

// barrier waits until the server has dealt with everything sent before.
func (f *srtFeed) barrier() bool {
	f.barN++
	return f.ask(f.bar, srtCtl(0, 0, srtHS(1, 1, 0xbb000000+f.barN, 0)), 0) != nil
}
func (f *srtFeed) shutdown() { f.c.WriteToUDP(srtCtl(5, f.our, make([]byte, 4)), f.dst) }

// TestV_U04 decides the bridge half: what viewers of an SRT stream get.
func TestV_U04(t *testing.T) {
	r := v.Start(t)
	defer r.Finish()
	srv := NewServer("127.0.0.1:0", "live")
	dst := srtServer(srv, "live", "s")
	nextID := uint32(1)

	annexb := func(seed int, ns ...[]byte) (b []byte) {
		for i, n := range ns {
			if (i+seed)%2 == 0 {
				b = append(b, 0)
			}
			b = append(append(b, 0, 0, 1), n...)
			//zero bytes may follow a unit
			b = append(b, make([]byte, []int{0, 0, 3, 0, 1, 2, 0}[(i*5+seed*3)%7])...)
		}
		return
	}
	avcc := func(ns ...[]byte) (b []byte) {
		for _, n := range ns {
			b = append(append(b, v.U32(uint32(len(n)))...), n...)
		}
		return
	}
	nalu := func(typ byte, seed, n int) []byte {
		b := v.Fill(seed, n)
		for i := range b {
			b[i] |= 4
		}
		b[0] = 0x60 | typ
		return b
	}
	spsA, ppsA := avcC[8:16], avcC[19:23]
	spsB, ppsB := avcC2[8:16], avcC2[19:23]
	spsC, ppsC := nalu(7, 9, 300), nalu(8, 3, 5)
	type op struct {
		name string
		sps  [][]byte
		pps  [][]byte
		pic  [][]byte
		key  bool
		cts  int64
		aud  []int //frame sizes
		rate int
		ch   int
		crc  bool
		leap int64
	}
	ops := []op{
		{name: "key with headers", sps: [][]byte{spsA}, pps: [][]byte{ppsA}, pic: [][]byte{nalu(5, 1, 200)}, key: true},
		{name: "key", pic: [][]byte{nalu(5, 2, 90)}, key: true, cts: 3600},
		{name: "inter", pic: [][]byte{nalu(1, 3, 400)}, cts: 7200},
		{name: "key with other headers", sps: [][]byte{spsB}, pps: [][]byte{ppsB}, pic: [][]byte{nalu(9, 1, 2), nalu(6, 2, 20), nalu(5, 5, 70), nalu(5, 6, 80)}, key: true},
		{name: "two of each header", sps: [][]byte{spsA, spsC}, pps: [][]byte{ppsA, ppsC}, pic: [][]byte{nalu(5, 7, 33)}, key: true},
		{name: "headers only", sps: [][]byte{spsA}, pps: [][]byte{ppsC}},
		{name: "sps only", sps: [][]byte{spsC}},
		{name: "inter of three slices", pic: [][]byte{nalu(9, 4, 2), nalu(1, 8, 190), nalu(1, 9, 3), nalu(1, 10, 55)}, cts: 1},
		{name: "audio", aud: []int{100}, rate: 4, ch: 2},
		{name: "two audio frames", aud: []int{300, 9}, rate: 4, ch: 2},
		{name: "mono audio with checksum", aud: []int{200}, rate: 3, ch: 1, crc: true},
		{name: "inter ten hours later", pic: [][]byte{nalu(1, 13, 60)}, leap: 1<<31 + 1<<30},
		{name: "audio of 5.1 channels in a large frame", aud: []int{4096 + 300, 8191}, rate: 3, ch: 6},
	}
	rates := []int64{96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000, 7350}

	run := func(seq []int, base int64, late int, open bool) {
		desc := fmt.Sprintf("base %d, viewer after %d, open-ended video packets %v: ", base, late, open)
		for _, o := range seq {
			desc += ops[o].name + ", "
		}
		r.Journal("U04 %s", desc)
		bad := func(key, f string, a ...interface{}) {
			r.Violation("u04:"+key, desc, "%s: %s", desc, fmt.Sprintf(f, a...))
		}
		f := newSrtFeed(dst, nextID)
		nextID++
		defer f.close()
		if typ, err := f.open(); err != nil || typ != -1 {
			bad("admission", "the caller was not admitted: %d %v", typ, err)
			return
		}
		w := &v.TSWriter{}
		w.Section(0, v.PATSection([][2]uint16{{1, 0x1000}}, 0), 0)
		w.Section(0x1000, v.PMTSection(1, 0x101, 0, nil, []v.ESInfo{{Type: 0x1b, PID: 0x101}, {Type: 0x0f, PID: 0x102}}), 0)
		f.ts(w.Out)
		w.Out = nil
		f.barrier()
		room := srv.apps["live"].Load("s")
		if room == nil {
			bad("room", "no stream after the first packet")
			return
		}
		var sink *flvSink
		done := make(chan struct{})
		join := func() {
			sink = &flvSink{}
			go func() { defer close(done); room.FLVJoin(easyio.NewEasyWriter(sink)) }()
		}
		//the model
		var sps, pps [][]byte
		var vcfg, acfg []byte
		var all []v.Msg //everything published so far
		type mark struct {
			meta bool
			key  bool
		}
		var marks []mark
		put := func(m v.Msg, k mark) { all = append(all, m); marks = append(marks, k) }
		clock := base
		fuzzyCTS := map[int]bool{}
		//the clock may start anywhere in the 33-bit range: from the first packet or from the first tag published
		first := int64(-1)
		alt := map[int]uint32{}
		ms := func(t int64) uint32 {
			if first < 0 {
				first = t
			}
			alt[len(all)] = uint32(max(first&(1<<33-1)+t-first, 0) / 90)
			return uint32(t / 90)
		}
		useAlt, decided := false, false
		joinedAt, have := -1, 0
		settle := func() {
			joinedAt = len(all)
			join()
			//let it take its place before the stream goes on
			key := false
			for k := joinedAt - 1; k >= 0 && !key; k-- {
				key = marks[k].key
				if !marks[k].meta {
					have++
				}
			}
			if vcfg != nil {
				have++
			}
			if acfg != nil {
				have++
			}
			for k := 0; k < 40000 && sink.count() < have; k++ {
				time.Sleep(50 * time.Microsecond)
			}
		}
		//the end of a packet without a length shows with the next one, or when the caller leaves
		held := func() {}
		for i, o := range seq {
			if i == late {
				settle()
			}
			x := ops[o]
			clock += 3003 + x.leap
			wrap := func(t int64) int64 { return t & (1<<33 - 1) }
			if x.aud != nil {
				var data []byte
				for k, n := range x.aud {
					h := []byte{0xff, 0xf1, 1<<6 | byte(x.rate)<<2 | byte(x.ch>>2), byte(x.ch&3)<<6 | byte(n>>11), byte(n >> 3), byte(n&7)<<5 | 0x1f, 0xfc}
					if x.crc {
						h[1] = 0xf0
						h = append(h, 1, 2)
					}
					body := v.Fill(i+k, n-len(h))
					data = append(append(data, h...), body...)
					asc := []byte{2<<3 | byte(x.rate)>>1, byte(x.rate)<<7 | byte(x.ch)<<3}
					fl := byte(0xaf)
					if x.ch == 1 {
						fl = 0xae
					}
					if !bytes.Equal(asc, acfg) {
						acfg = asc
						put(v.Msg{Type: 8, Payload: append([]byte{fl, 0}, asc...)}, mark{meta: true})
					}
					put(v.Msg{Type: 8, TS: ms(clock + int64(k)*1024*90000/rates[x.rate]), Payload: append([]byte{fl, 1}, body...)}, mark{})
				}
				w.PES(0x102, v.PESBytes(0xc0, wrap(clock), -1, data, true, 0), false, -1)
			} else {
				ns := append(append(append([][]byte{}, x.sps...), x.pps...), x.pic...)
				at := clock
				unit := func() {
					if x.sps != nil {
						sps = x.sps
					}
					if x.pps != nil {
						pps = x.pps
					}
					if len(sps) > 0 && len(pps) > 0 {
						cfg := v.AVCRecord(4, sps, pps, nil)
						if !bytes.Equal(cfg, vcfg) {
							vcfg = cfg
							put(v.Msg{Type: 9, Payload: append([]byte{0x17, 0, 0, 0, 0}, cfg...)}, mark{meta: true})
						}
						if len(x.pic) > 0 {
							fl := byte(0x27)
							if x.key {
								fl = 0x17
							}
							c := uint32((at+x.cts)/90 - at/90)
							fuzzyCTS[len(all)] = true
							put(v.Msg{Type: 9, TS: ms(at), Payload: v.Cat([]byte{fl, 1, byte(c >> 16), byte(c >> 8), byte(c)}, avcc(x.pic...))}, mark{key: x.key})
						}
					}
				}
				held()
				held = func() {}
				if open {
					held = unit
				} else {
					unit()
				}
				dts := wrap(clock)
				if x.cts == 0 {
					dts = -1
				}
				w.PES(0x101, v.PESBytes(0xe0, wrap(clock+x.cts), dts, annexb(i, ns...), !open, 0), x.key, -1)
			}
			f.ts(w.Out)
			w.Out = nil
			if !f.barrier() {
				bad("dead", "the endpoint no longer answers")
				return
			}
			//let the viewer catch up, so that it never has a reason to skip
			if sink != nil {
				want := have + len(all) - joinedAt
				for k := 0; k < 40000 && sink.count() < want; k++ {
					time.Sleep(50 * time.Microsecond)
				}
			}
		}
		if sink == nil {
			settle()
		}
		f.shutdown()
		held()
		f.barrier()
		select {
		case <-done:
		case <-time.After(10 * time.Second):
			bad("viewer-stuck", "the viewer was not released when the caller left")
			return
		}
		if srv.apps["live"].Load("s") != nil {
			bad("name-kept", "the stream name is still taken after the caller left")
			return
		}
		//a viewer gets the headers in effect, then the group from its keyframe on
		start := 0
		for k := 0; k < joinedAt; k++ {
			if marks[k].key {
				start = k
			}
		}
		var want []v.Msg
		var idx []int
		if late > 0 {
			lv, la := -1, -1
			for k := 0; k < joinedAt; k++ {
				if marks[k].meta && all[k].Type == 9 {
					lv = k
				}
				if marks[k].meta && all[k].Type == 8 {
					la = k
				}
			}
			for _, k := range []int{lv, la} {
				if k >= 0 {
					want, idx = append(want, all[k]), append(idx, k)
				}
			}
			for k := start; k < joinedAt; k++ {
				if !marks[k].meta {
					want, idx = append(want, all[k]), append(idx, k)
				}
			}
		}
		for k := joinedAt; k < len(all); k++ {
			want, idx = append(want, all[k]), append(idx, k)
		}
		if sink.err != "" {
			bad("flv", "%s", sink.err)
			return
		}
		got := sink.tags
		for k := 0; k < len(want) || k < len(got); k++ {
			if k >= len(got) {
				bad("tags", "tag %d is missing: %v", k, want[k])
				return
			}
			if k >= len(want) {
				bad("tags", "unexpected tag %v", got[k])
				return
			}
			g, x := got[k], want[k]
			if marks[idx[k]].meta {
				g.TS = x.TS //any time does for a header
			} else {
				if !decided {
					decided, useAlt = true, g.TS != x.TS && g.TS == alt[idx[k]]
				}
				if useAlt {
					x.TS = alt[idx[k]]
				}
			}
			if fuzzyCTS[idx[k]] && len(g.Payload) > 5 {
				//times are in whole milliseconds: one of rounding is allowed
				d := int32(uint32(g.Payload[2])<<24|uint32(g.Payload[3])<<16|uint32(g.Payload[4])<<8)>>8 - int32(uint32(x.Payload[2])<<24|uint32(x.Payload[3])<<16|uint32(x.Payload[4])<<8)>>8
				if d >= -1 && d <= 1 {
					copy(g.Payload[2:5], x.Payload[2:5])
				}
			}
			if !g.Same(x) {
				bad("tags", "tag %d: got %v, want %v", k, g, x)
				return
			}
		}
		r.Eval(fmt.Sprintf("%d tags", min(len(got), 6)), desc)
	}
	bases := []int64{0, 1<<33 - 4000, 1<<32 - 5000}
	depth := r.Pick(3, 5)
	if !v.Sequences(len(ops), 1, depth, func(s []int) bool {
		leaps := 0
		for _, x := range s {
			if ops[x].leap > 0 {
				leaps++
			}
		}
		if leaps > 1 {
			return true //beyond half the range, nobody can tell
		}
		//one caller after the other on the same endpoint, each with its own time base
		if !r.Mine() {
			return true
		}
		for bi, base := range bases {
			if bi > 0 && len(s) == depth {
				continue
			}
			for late := 0; late <= len(s); late++ {
				if late > 0 && late < len(s)-1 {
					continue
				}
				seq := append([]int{}, s...)
				if late == 0 {
					seq = append(append([]int{}, s...), 0, 2)
				} else {
					seq = append([]int{8, 0}, s...)
				}
				l := late
				if late > 0 {
					l += 2
				}
				for _, open := range []bool{false, true} {
					if open && len(s) == depth && (late > 0 || r.Quick()) {
						continue
					}
					r.Guard("u04:", fmt.Sprint(seq), func() { run(seq, base, l, open) })
					if r.Expired() {
						return false
					}
				}
			}
		}
		return true
	}) {
		r.Capped("bridge sequences")
		return
	}
	r.Note("bridge: every sequence of up to %d units over %d kinds (headers present, changed, several, alone; slices; audio) with a viewer from the start, before the last unit and after it, packets with a length and without one, time bases incl. the 33-bit wrap following one another on one endpoint, on a real UDP endpoint", depth, len(ops))
}
