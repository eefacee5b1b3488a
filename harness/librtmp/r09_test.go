//go:build go1.25

package librtmp

import (
	"bytes"
	"fmt"
	"strings"
	"testing"
	"testing/synctest"

	"github.com/SmartBrave/Athena/easyio"
	v "github.com/sbraveyoung/GGmpeg/verif_vlib"
)

// R09: everything a publisher sends reaches every viewer unchanged.

type r09Op struct {
	name string
	typ  byte
	body func(i int) []byte //i: position in the script
	want func(i int) []byte //what viewers get, when it is not the body
	none bool               //carries nothing to viewers
	hdr  int                //1 metadata, 2 video header, 3 audio header
	key  bool
	agg  []int  //sub-messages of an aggregate: indices of other operations
	sub  uint32 //time of the first sub-message (0: derived from the time of the aggregate)
	gap  uint32 //between the sub-messages (0: 3)
}

func r09Ops() []r09Op {
	fix := func(b []byte) func(int) []byte { return func(int) []byte { return b } }
	cat := func(p []byte, n int) func(int) []byte {
		return func(i int) []byte { return v.Cat(p, v.Fill(i+n, n)) }
	}
	meta2 := v.ECMA{{K: "width", V: "1280"}, {K: "x-note", V: true}, {K: "framerate", V: 29.97}}
	return []r09Op{
		{name: "metadata", typ: 18, body: fix(v.AMF("onMetaData", metaKV)), hdr: 1},
		{name: "setDataFrame metadata", typ: 18, body: fix(v.AMF("@setDataFrame", "onMetaData", meta2)), want: fix(v.AMF("onMetaData", meta2)), hdr: 1},
		{name: "avc header", typ: 9, body: fix(vSeq), hdr: 2},
		{name: "avc header 2", typ: 9, body: fix(vSeq2), hdr: 2},
		{name: "aac header", typ: 8, body: fix(aSeq), hdr: 3},
		{name: "aac header 2", typ: 8, body: fix(aSeq2), hdr: 3},
		{name: "key", typ: 9, body: func(i int) []byte { return vKey(i, 300, 0x12345) }, key: true},
		{name: "inter", typ: 9, body: func(i int) []byte { return vInter(i, 20, -40) }},
		{name: "audio", typ: 8, body: func(i int) []byte { return aRaw(i, 9+i) }},
		//the further kinds appear in shorter scripts
		{name: "aggregate of audio and inter", typ: 22, agg: []int{8, 7}},
		{name: "aggregate of header, key and audio", typ: 22, agg: []int{3, 6, 8}},
		{name: "aggregate with sub-times across 24 bits", typ: 22, agg: []int{8, 7, 8}, sub: 0xfffffe},
		{name: "aggregate with sub-times beyond 24 bits", typ: 22, agg: []int{7, 8}, sub: 0x81234567, gap: 40},
		{name: "aggregate with sub-times wrapping", typ: 22, agg: []int{7, 8}, sub: 0xffffffff, gap: 1},
		{name: "aggregate over five hours", typ: 22, agg: []int{8, 7}, sub: 7, gap: 0x1000001},
		{name: "aggregate of metadata, key and audio", typ: 22, agg: []int{0, 6, 8}, sub: 1, gap: 0xffff},
		{name: "aggregate of AMF3 metadata and audio", typ: 22, agg: []int{-1, 8}},
		{name: "cue point", typ: 18, body: fix(v.AMF("onCuePoint", v.Obj{{K: "name", V: "c"}, {K: "time", V: 1.5}}))},
		{name: "large key", typ: 9, body: func(i int) []byte { return vKey(i, 70001, 0) }, key: true},
		{name: "end of sequence", typ: 9, body: fix([]byte{0x17, 2, 0, 0, 0})},
		{name: "sorenson key", typ: 9, body: cat([]byte{0x12}, 130), key: true},
		{name: "vp6 inter", typ: 9, body: cat([]byte{0x24}, 127)},
		{name: "disposable frame", typ: 9, body: cat([]byte{0x32}, 64)},
		{name: "hevc header", typ: 9, body: cat([]byte{0x1c, 0, 0, 0, 0}, 40), hdr: 2},
		{name: "hevc key", typ: 9, body: cat([]byte{0x1c, 1, 0, 0, 0}, 150), key: true},
		{name: "metadata as AMF3 message", typ: 15, body: fix(v.Cat([]byte{0}, v.AMF("onMetaData", meta2))), want: fix(v.AMF("onMetaData", meta2)), hdr: 1},
		{name: "setDataFrame metadata as AMF3 message", typ: 15, body: fix(v.Cat([]byte{0}, v.AMF("@setDataFrame", "onMetaData", metaKV))), want: fix(v.AMF("onMetaData", metaKV)), hdr: 1},
		{name: "data message of a name alone", typ: 18, body: fix(v.AMF("onBreak"))},
		{name: "clear data frame", typ: 18, body: fix(v.AMF("@clearDataFrame", "onMetaData"))},
		{name: "text data", typ: 18, body: fix(v.AMF("onTextData", v.ECMA{{K: "text", V: "t"}, {K: "trackid", V: 1.0}}))},
		{name: "data message of several values", typ: 18, body: fix(v.AMF("onX", nil, 1.0, "two", v.Obj{{K: "z", V: false}}))},
		{name: "empty audio", typ: 8, body: fix(nil), none: true},
		{name: "empty video", typ: 9, body: fix(nil), none: true},
		{name: "aggregate of audio, empty audio and inter", typ: 22, agg: []int{8, -2, 7}},
		{name: "empty aggregate", typ: 22, body: fix(nil), none: true},
		{name: "opus header", typ: 8, body: fix(v.Cat([]byte{0xdf, 0}, []byte("OpusHead\x01\x02"))), hdr: 3},
		{name: "opus audio", typ: 8, body: cat([]byte{0xdf, 1}, 33)},
		{name: "av1 header", typ: 9, body: cat([]byte{0x1d, 0, 0, 0, 0}, 17), hdr: 2},
		{name: "av1 key", typ: 9, body: cat([]byte{0x1d, 1, 0, 0, 0}, 90), key: true},
		{name: "hevc end of sequence", typ: 9, body: fix([]byte{0x1c, 2, 0, 0, 0})},
		{name: "video info frame", typ: 9, body: fix([]byte{0x57, 1, 0, 0, 0, 0})},
		{name: "mp3 audio", typ: 8, body: cat([]byte{0x2f}, 128)},
		{name: "pcm audio", typ: 8, body: cat([]byte{0x3c}, 256)},
		{name: "g711 audio of one byte", typ: 8, body: fix([]byte{0x72})},
		{name: "avc frame of no units", typ: 9, body: fix([]byte{0x27, 1, 0, 0, 7})},
		{name: "aac frame without data", typ: 8, body: fix([]byte{0xaf, 1})},
	}
}

// r09Item is one tag as a viewer has to receive it.
type r09Item struct {
	m   v.Msg
	hdr int
	key bool
}

// r09Msgs turns an operation into the message to send and the tags it stands for.
func r09Msgs(ops []r09Op, o, i int, ts uint32) (v.Msg, []r09Item) {
	x := ops[o]
	if x.agg == nil {
		b := x.body(i)
		w := b
		if x.want != nil {
			w = x.want(i)
		}
		if x.none {
			return v.Msg{Type: x.typ, CSID: 6, SID: 1, TS: ts, Payload: b}, nil
		}
		typ := x.typ
		if typ == 15 {
			typ = 18 //the values are AMF0, and viewers get them as such
		}
		return v.Msg{Type: x.typ, CSID: 6, SID: 1, TS: ts, Payload: b}, []r09Item{{v.Msg{Type: typ, TS: ts, Payload: w}, x.hdr, x.key}}
	}
	var p []byte
	var items []r09Item
	sub, gap := x.sub, x.gap //sub-message times are relative to the first one
	if sub == 0 {
		sub = ts*7 + 1000
	}
	if gap == 0 {
		gap = 3
	}
	for k, so := range x.agg {
		if so < 0 {
			for so = range ops {
				if so2 := -x.agg[k]; so2 == 1 && ops[so].typ == 15 || so2 == 2 && ops[so].none {
					break
				}
			}
		}
		s := ops[so]
		b := s.body(100*i + k)
		w, typ := b, s.typ
		if s.want != nil {
			w = s.want(100*i + k)
		}
		if typ == 15 {
			typ = 18
		}
		t := sub + gap*uint32(k)
		p = v.Cat(p, []byte{s.typ, byte(len(b) >> 16), byte(len(b) >> 8), byte(len(b)), byte(t >> 16), byte(t >> 8), byte(t), byte(t >> 24), 0, 0, 0}, b, v.U32(uint32(len(b)+11)))
		if s.none {
			continue
		}
		items = append(items, r09Item{v.Msg{Type: typ, TS: ts + gap*uint32(k), Payload: w}, s.hdr, s.key})
	}
	return v.Msg{Type: 22, CSID: 6, SID: 1, TS: ts, Payload: p}, items
}

// r09Expect is what a viewer that joined after the first n tags receives.
func r09Expect(all []r09Item, n int) (out []v.Msg) {
	start := 0
	var hdr [4]int
	for k, it := range all[:n] {
		hdr[it.hdr] = k + 1
		if it.key {
			start = k
		}
	}
	for _, h := range hdr[1:] {
		if h > 0 {
			out = append(out, all[h-1].m)
		}
	}
	for k := start; k < len(all); k++ {
		if k >= n || all[k].hdr == 0 {
			out = append(out, all[k].m)
		}
	}
	return
}

func TestVerifR09(t *testing.T) {
	r := v.Start(t)
	defer r.Finish()
	ops := r09Ops()

	run := func(s []int, base, step uint32, prefix bool) {
		var names []string
		for _, o := range s {
			names = append(names, ops[o].name)
		}
		desc := fmt.Sprintf("times from %d by %d: %s", base, step, strings.Join(names, ", "))
		r.Journal("R09 %s", desc)
		bad := func(key, f string, a ...interface{}) {
			r.Violation("r09:"+key, desc, "%s: %s", desc, fmt.Sprintf(f, a...))
		}
		synctest.Test(t, func(*testing.T) {
			srv := NewServer(":0", "live")
			pub, err := publishRTMP(srv, "live", "s")
			if err != nil {
				bad("setup", "%v", err)
				return
			}
			defer pub.closeWait()
			pub.send(v.SetChunkSize(2, 4096))
			pub.enc.Size = 4096
			type viewer struct {
				at   int
				play *cli
				sink *flvSink
				done chan struct{}
				what string
			}
			var vs []*viewer
			defer func() {
				for _, w := range vs {
					if w.play != nil {
						w.play.c.Close()
					}
				}
				pub.closeWait()
			}()
			var all []r09Item
			for i := 0; i <= len(s); i++ {
				//one viewer of each kind joins here
				room := srv.apps["live"].Load("s")
				if room == nil {
					bad("room", "the stream is not there after %d messages", i)
					return
				}
				w := &viewer{at: len(all), sink: &flvSink{}, done: make(chan struct{}), what: fmt.Sprintf("FLV viewer after %d messages", i)}
				go func() { defer close(w.done); room.FLVJoin(easyio.NewEasyWriter(w.sink)) }()
				vs = append(vs, w)
				k, ms, err := playRTMP(srv, "live", "s")
				if err != nil {
					bad("play", "after %d messages: %v", i, err)
					return
				}
				_ = ms
				vs = append(vs, &viewer{at: len(all), play: k, what: fmt.Sprintf("RTMP viewer after %d messages", i)})
				if i == len(s) {
					break
				}
				m, items := r09Msgs(ops, s[i], i, base+uint32(i)*step)
				pub.send(m)
				all = append(all, items...)
				synctest.Wait()
				if pub.c.PeerClosed() {
					bad("dropped", "the publisher was dropped at message %d (%s)", i, names[i])
					return
				}
				for _, w := range vs {
					if w.play != nil {
						w.play.sync()
					}
				}
			}
			synctest.Wait()
			for _, w := range vs {
				want := r09Expect(all, w.at)
				var got []v.Msg
				if w.play != nil {
					w.play.sync()
					if w.play.dec.Err != nil {
						bad("chunks", "%s: %v", w.what, w.play.dec.Err)
						return
					}
					got = media(w.play.got)
				} else {
					if w.sink.err != "" {
						bad("flv", "%s: %s", w.what, w.sink.err)
						return
					}
					got = w.sink.tags
				}
				if d := sameMsgs(got, want); d != "" {
					bad("tags", "%s: %s", w.what, d)
					return
				}
			}
			r.Eval(fmt.Sprintf("%d tags", min(len(all), 8)), desc)
		})
	}
	times := [][2]uint32{{0, 40}, {0xfffff0, 10}, {0xfffffff0, 9}, {0x7ffffffb, 3}, {5000, 0}, {4000000000, 0xfffffff6}}
	common := 9
	deep := r.Pick(4, 5)
	for n := 1; n <= deep; n++ {
		n := n
		ok := v.Sequences(common, n, n, func(s []int) bool {
			tt := times
			if n > 3 {
				//longer scripts take one of the time bases each
				h := 0
				for _, o := range s {
					h = h*7 + o
				}
				tt = times[h%len(times):][:1]
			}
			for _, b := range tt {
				if !r.Mine() {
					continue
				}
				run(append([]int{}, s...), b[0], b[1], false)
				if r.Expired() {
					return false
				}
			}
			return true
		})
		if !ok {
			r.Capped(fmt.Sprintf("scripts of %d messages", n))
			return
		}
	}
	wide := r.Pick(2, 3)
	if !v.Sequences(len(ops), 1, wide, func(s []int) bool {
		if !r.Mine() {
			return true
		}
		seq := append(append([]int{0, 2, 4, 6, 8}, s...), 7, 8, 6, 7)
		run(seq, 0xffffe0, 7, true)
		run(append([]int{}, s...), 100, 20, true)
		return !r.Expired()
	}) {
		r.Capped("scripts of all kinds")
		return
	}
	r.Note("every publish script of up to %d messages over %d kinds and of up to %d over all %d kinds (with and without a usual stream around it), time bases incl. the extended boundary, the signed boundary, the 32-bit wrap, equal and backward times; an RTMP and an FLV viewer joining at every position, all bytes and times compared", deep, common, wide, len(ops))
	_ = bytes.Equal
}
