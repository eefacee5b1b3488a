//go:build go1.25

package librtmp

import (
	"encoding/binary"
	"fmt"
	"strings"
	"testing"
	"testing/synctest"

	v "github.com/sbraveyoung/GGmpeg/verif_vlib"
)

// r01case sends pieces over a published session and compares what a viewer of the stream gets
// with want. limit>0 bounds the bytes the server reads at once.
type r01case struct {
	Name   string
	Pieces [][]byte
	Want   []v.Msg
	Limit  int
	desc   []string
}

func r01run(t *testing.T, r *v.Run, build func() *r01case) {
	synctest.Test(t, func(t *testing.T) {
		srv := NewServer(":0", "live")
		pub, err := publishRTMP(srv, "live", "s")
		if err != nil {
			r.Violation("r01:setup", nil, "publish session: %v", err)
			pub.closeWait()
			return
		}
		pub.send(v.Msg{Type: 18, CSID: 4, Payload: v.AMF("onMetaData", metaKV)})
		pub.send(v.Msg{Type: 9, CSID: 4, Payload: vSeq})
		pub.send(v.Msg{Type: 8, CSID: 4, Payload: aSeq})
		pub.sync()
		view, _, err := playRTMP(srv, "live", "s")
		defer func() { pub.c.Close(); view.c.Close(); synctest.Wait() }()
		if err != nil {
			r.Violation("r01:setup", nil, "play session: %v", err)
			return
		}
		view.sync()
		view.got = nil
		c := build()
		r.Journal("R01 %s %s", c.Name, strings.Join(c.desc, " "))
		pub.c.LimitReads(0)
		if c.Limit > 0 {
			limitServer(pub, c.Limit)
		}
		for _, p := range c.Pieces {
			pub.c.Write(p)
			synctest.Wait()
		}
		got := view.sync()
		if d := sameMsgs(media(got), c.Want); d != "" {
			r.Violation("r01:"+c.Name, c.desc, "viewer does not get the messages sent: %s", d)
			r.Eval("differs", "")
			return
		}
		if view.dec.Err != nil {
			r.Violation("r01:viewer-stream", c.desc, "viewer stream: %v", view.dec.Err)
		}
		if pub.c.PeerClosed() {
			r.Violation("r01:dropped:"+c.Name, c.desc, "the server dropped a conforming publisher")
		}
		r.Eval(fmt.Sprintf("%d messages", len(got)), fmt.Sprint(c.Name, c.Limit, c.desc))
		r.Count("transitions", int64(len(c.Pieces)))
		r.Sample(map[string]interface{}{"family": c.Name, "script": c.desc, "received": fmt.Sprint(got)})
	})
}

// limitServer makes the server read at most n bytes at a time.
func limitServer(k *cli, n int) { k.c.LimitPeerReads(n) }

var r01ts = []uint32{0, 1, 40, 0xfffffe, 0xffffff, 0x1000000, 0x7fffffff, 0xfffffffe}

func TestV_R01(t *testing.T) {
	r := v.Start(t)
	defer r.Finish()

	//Family 1: all interleavings of the chunks of messages on several chunk streams, including
	//protocol control in between, with every legal header format for follow-up messages.
	type q []v.Msg
	scs := v.SetChunkSize
	med := func(typ uint8, csid, ts uint32, n int, seed int) v.Msg {
		p := aRaw(seed, n-2)
		if typ == 9 {
			p = append([]byte{0x27, 1, 0, 0, 0}, v.Fill(seed, n-5)...)
		}
		return v.Msg{Type: typ, CSID: csid, SID: 1, TS: ts, Payload: p}
	}
	var scen [][]q
	scen = append(scen,
		[]q{{med(8, 4, 10, 300, 1)}, {med(9, 6, 20, 300, 2)}},
		[]q{{med(8, 4, 10, 129, 1), med(8, 4, 33, 129, 3)}, {med(9, 6, 20, 300, 2)}},
		[]q{{med(8, 4, 10, 20, 1), med(8, 4, 33, 20, 3), med(8, 4, 56, 20, 4)}, {med(9, 6, 20, 260, 2)}},
		[]q{{med(8, 4, 0x1000000, 200, 1)}, {med(9, 6, 0xffffff, 300, 2)}},
		[]q{{med(8, 4, 10, 260, 1)}, {med(9, 6, 20, 260, 2)}, {med(9, 70, 30, 140, 3)}},
		[]q{{med(9, 6, 20, 700, 2)}, {scs(2, 200)}, {med(8, 4, 10, 200, 1)}},
		[]q{{med(9, 6, 20, 700, 2)}, {scs(2, 64), scs(2, 300)}},
		[]q{{med(9, 6, 20, 400, 2), med(9, 6, 60, 300, 9)}, {{Type: 2, CSID: 2, Payload: v.U32(6)}}, {med(8, 4, 21, 100, 5)}},
		[]q{{med(9, 6, 20, 300, 2)}, {{Type: 2, CSID: 2, Payload: v.U32(6)}, {Type: 2, CSID: 2, Payload: v.U32(4)}}, {med(8, 4, 21, 150, 5)}},
		[]q{{med(9, 6, 20, 300, 2)}, {{Type: 4, CSID: 2, Payload: []byte{0, 6, 1, 2, 3, 4}}}, {med(8, 4, 9, 300, 1)}},
		[]q{{med(9, 6, 20, 300, 2)}, {{Type: 16, CSID: 9, Payload: v.Fill(3, 200)}}, {med(8, 4, 9, 200, 1)}},
		[]q{{med(8, 3, 5, 257, 1)}, {med(8, 63, 6, 129, 2)}, {med(8, 64, 7, 129, 3)}, {med(8, 320, 8, 1+128, 4)}},
	)
	for si, sc := range scen {
		if !r.Mine() || r.Expired() {
			continue
		}
		lim := 0
		if si%2 == 1 {
			lim = 7
		}
		n := v.Explore(r, -1, func(cx *v.Ctx) {
			r01run(t, r, func() *r01case {
				c := &r01case{Name: fmt.Sprintf("interleave-%d", si), Limit: lim}
				enc := v.NewChunkWriter(128)
				pos := make([]int, len(sc))
				aborted := map[uint32]bool{}
				for {
					var en []int
					for i, qq := range sc {
						if pos[i] < len(qq) || enc.Busy(qq[0].CSID) {
							en = append(en, i)
						}
					}
					if len(en) == 0 {
						break
					}
					i := en[cx.Choose(len(en))]
					csid := sc[i][0].CSID
					if !enc.Busy(csid) {
						m := sc[i][pos[i]]
						pos[i]++
						var fs []uint8
						for f := uint8(0); f < 4; f++ {
							if enc.Legal(m, f) {
								fs = append(fs, f)
							}
						}
						f := fs[cx.Choose(len(fs))]
						enc.Begin(m, f, 0)
						c.desc = append(c.desc, fmt.Sprintf("begin(csid%d fmt%d type%d len%d ts%d)", csid, f, m.Type, len(m.Payload), m.TS))
					}
					m := sc[i][pos[i]-1]
					c.Pieces = append(c.Pieces, enc.Next(csid))
					c.desc = append(c.desc, fmt.Sprintf("chunk(csid%d)", csid))
					if enc.Busy(csid) {
						continue
					}
					switch m.Type {
					case 1:
						enc.Size = uint32(m.Payload[0])<<24 | uint32(m.Payload[1])<<16 | uint32(m.Payload[2])<<8 | uint32(m.Payload[3])
					case 2:
						tgt := binary.BigEndian.Uint32(m.Payload)
						if enc.Busy(tgt) {
							enc.Drop(tgt)
							aborted[tgt] = true
						}
					case 8, 9:
						c.Want = append(c.Want, m)
					}
				}
				return c
			})
		})
		r.Note("interleaving scenario %d: every interleaving and header format", si)
		r.Count("states", n)
	}

	//Family 2: sequences of messages on one chunk stream: lengths x timestamps x header formats.
	lens := []int{6, 127, 128, 129, 256, 257}
	if !r.Quick() {
		lens = append(lens, 7, 126, 255, 384, 385, 1000)
	}
	for _, l0 := range lens {
		for ti, t0 := range r01ts {
			if !r.Mine() || r.Expired() {
				continue
			}
			v.Explore(r, -1, func(cx *v.Ctx) {
				r01run(t, r, func() *r01case {
					c := &r01case{Name: "sequence"}
					enc := v.NewChunkWriter(128)
					ms := []v.Msg{med(9, 6, t0, l0, 1)}
					l1 := []int{l0, 200}[cx.Choose(2)]
					d1 := []uint32{0, 40, 0xffffff, 0x1000001}[cx.Choose(r.Pick(3, 4))]
					ms = append(ms, med(9, 6, t0+d1, l1, 2))
					d2 := []uint32{d1, 5}[cx.Choose(2)]
					ms = append(ms, med(9, 6, t0+d1+d2, l1, 3))
					for i, m := range ms {
						var fs []uint8
						for f := uint8(0); f < 4; f++ {
							if enc.Legal(m, f) {
								fs = append(fs, f)
							}
						}
						f := fs[cx.Choose(len(fs))]
						c.Pieces = append(c.Pieces, enc.Chunks(m, f, 0)...)
						c.desc = append(c.desc, fmt.Sprintf("%d:fmt%d len%d ts%d", i, f, len(m.Payload), m.TS))
						c.Want = append(c.Want, m)
					}
					return c
				})
			})
			_ = ti
		}
	}
	r.Note("three-message sequences on one chunk stream: %d lengths x %d base timestamps x deltas x every legal header format", len(lens), len(r01ts))

	//Family 3: chunk stream ids in every encoding, chunk sizes.
	csids := []uint32{2, 3, 4, 62, 63, 64, 65, 127, 255, 318, 319, 320, 321, 575, 576, 65534, 65599}
	for _, id := range csids {
		for form := 0; form < 3; form++ {
			for _, size := range []uint32{1, 64, 128, 129, 4096, 65536, 0x7fffffff} {
				if !r.Mine() || r.Expired() {
					continue
				}
				r01run(t, r, func() *r01case {
					c := &r01case{Name: "csid"}
					enc := v.NewChunkWriter(128)
					if size != 128 {
						c.Pieces = append(c.Pieces, enc.Bytes(v.SetChunkSize(2, size)))
						enc.Size = size
					}
					n := 300
					if size > 300 {
						n = 5000
					}
					for i := 0; i < 2; i++ {
						m := med(9, id, uint32(50+i*20), n, i+1)
						c.Pieces = append(c.Pieces, enc.Chunks(m, uint8(i), form)...)
						c.Want = append(c.Want, m)
					}
					c.desc = append(c.desc, fmt.Sprintf("csid%d form%d chunksize%d", id, form, size))
					return c
				})
			}
		}
	}
	r.Note("%d chunk stream ids x every basic header form x 7 chunk sizes", len(csids))

	//Family 3b: chunk sizes beyond 64 KB with messages that need more than one such chunk.
	for _, size := range []uint32{65535, 65536, 65537, 100000, 0xffffff, 0x7fffffff} {
		for _, n := range []int{65536, 65537, 100001, 200001} {
			if !r.Mine() || r.Expired() {
				continue
			}
			r01run(t, r, func() *r01case {
				c := &r01case{Name: "large chunks"}
				enc := v.NewChunkWriter(128)
				c.Pieces = append(c.Pieces, enc.Bytes(v.SetChunkSize(2, size)))
				enc.Size = size
				a, b := med(9, 6, 50, n, 1), med(8, 4, 60, 300, 2)
				enc.Begin(a, 0, 0)
				c.Pieces = append(c.Pieces, enc.Next(6))
				if !enc.Busy(6) {
					c.Want = append(c.Want, a)
				}
				c.Pieces = append(c.Pieces, enc.Chunks(b, 0, 0)...)
				c.Want = append(c.Want, b)
				if enc.Busy(6) {
					for enc.Busy(6) {
						c.Pieces = append(c.Pieces, enc.Next(6))
					}
					c.Want = append(c.Want, a)
				}
				c.desc = append(c.desc, fmt.Sprintf("chunksize%d video of %d bytes, audio behind its first chunk", size, n))
				return c
			})
		}
	}
	r.Note("6 chunk sizes from 65535 to 0x7fffffff x 4 message sizes from 64 KB to 200 KB, with another message behind the first chunk")

	//Family 3c: abort messages: two unfinished messages, one of them aborted (or neither, the
	//abort naming a third chunk stream); all pairs of chunk stream ids.
	abids := []uint32{3, 5, 63, 64, 65, 127, 255, 256, 257, 259, 261, 319, 320, 323, 575, 1000, 65537, 65539, 65599}
	for _, x := range abids {
		for _, y := range abids {
			if x == y || !r.Mine() || r.Expired() {
				continue
			}
			for which := 0; which < 3; which++ {
				r01run(t, r, func() *r01case {
					c := &r01case{Name: "abort"}
					enc := v.NewChunkWriter(128)
					a, b := med(9, x, 50, 200, 1), med(8, y, 60, 300, 2)
					enc.Begin(a, 0, 0)
					c.Pieces = append(c.Pieces, enc.Next(x))
					enc.Begin(b, 0, 0)
					c.Pieces = append(c.Pieces, enc.Next(y))
					tgt := []uint32{x, y, 9}[which]
					c.Pieces = append(c.Pieces, enc.Bytes(v.Msg{Type: 2, CSID: 2, Payload: v.U32(tgt)}))
					if which < 2 {
						enc.Drop(tgt)
					}
					for _, m := range []v.Msg{b, a} {
						if enc.Busy(m.CSID) {
							for enc.Busy(m.CSID) {
								c.Pieces = append(c.Pieces, enc.Next(m.CSID))
							}
							c.Want = append(c.Want, m)
						} else {
							m = med(m.Type, m.CSID, 90, 140, 5)
							c.Pieces = append(c.Pieces, enc.Chunks(m, 0, 0)...)
							c.Want = append(c.Want, m)
						}
					}
					c.desc = append(c.desc, fmt.Sprintf("csid%d and csid%d unfinished, abort of csid%d", x, y, tgt))
					return c
				})
			}
		}
	}
	r.Note("aborts: every ordered pair of %d chunk stream ids unfinished, one of them or a third aborted", len(abids))

	//Family 4: TCP segmentation: fixed piece sizes and every single split point.
	stream := func() (b []byte, want []v.Msg) {
		enc := v.NewChunkWriter(128)
		ms := []v.Msg{med(9, 6, 0x1000000, 200, 1), med(8, 4, 7, 40, 2), med(9, 6, 0x1000000+30, 300, 3)}
		for i, m := range ms {
			f := uint8(0)
			if i == 2 {
				f = 1
			}
			for _, ch := range enc.Chunks(m, f, 0) {
				b = append(b, ch...)
			}
		}
		return b, ms
	}
	b, want := stream()
	for cut := 1; cut < len(b); cut++ {
		if !r.Mine() || r.Expired() {
			continue
		}
		r01run(t, r, func() *r01case {
			return &r01case{Name: "split", Pieces: [][]byte{b[:cut], b[cut:]}, Want: want, desc: []string{fmt.Sprint("split at ", cut)}}
		})
	}
	for n := 1; n <= 140; n++ {
		if !r.Mine() || r.Expired() {
			continue
		}
		r01run(t, r, func() *r01case {
			return &r01case{Name: "segments", Pieces: [][]byte{b}, Want: want, Limit: n, desc: []string{fmt.Sprint("segments of ", n)}}
		})
	}
	r.Note("every split point of a 3-message stream and every segment size 1..140")
}
