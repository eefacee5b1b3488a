//go:build go1.25

package librtmp

import (
	"fmt"
	"testing"
	"testing/synctest"

	"github.com/SmartBrave/Athena/easyio"
	"github.com/sbraveyoung/GGmpeg/libflv"
	v "github.com/sbraveyoung/GGmpeg/verif_vlib"
)

var r02ts = []uint32{0, 1, 0xfffffe, 0xffffff, 0x1000000, 0x7fffffff, 0x80000000, 0xffffffff}

func r02sizes(r *v.Run, chunk int) (out []int) {
	add := func(n int) {
		if n >= 2 {
			out = append(out, n)
		}
	}
	for n := 2; n <= 12; n++ {
		add(n)
	}
	for k := 1; k <= r.Pick(3, 6); k++ {
		for d := -7; d <= 7; d++ {
			if n := k*chunk + d; n > 12 {
				add(n)
			}
		}
	}
	return
}

func TestV_R02(t *testing.T) {
	r := v.Start(t)
	defer r.Finish()

	//1. through a whole session: publish -> play, chunk size as negotiated by the server
	for _, ts := range r02ts {
		for kind := 0; kind < 4; kind++ {
			if !r.Mine() || r.Expired() {
				continue
			}
			synctest.Test(t, func(t *testing.T) {
				srv := NewServer(":0", "live")
				pub, err := publishRTMP(srv, "live", "s")
				if err != nil {
					r.Violation("r02:setup", nil, "%v", err)
					pub.closeWait()
					return
				}
				pub.send(v.SetChunkSize(2, 1<<20))
				pub.enc.Size = 1 << 20
				pub.send(v.Msg{Type: 18, CSID: 4, Payload: v.AMF("onMetaData", metaKV)})
				pub.send(v.Msg{Type: 9, CSID: 4, Payload: vSeq})
				pub.send(v.Msg{Type: 8, CSID: 4, Payload: aSeq})
				pub.sync()
				view, _, err := playRTMP(srv, "live", "s")
				defer func() { pub.c.Close(); view.c.Close(); synctest.Wait() }()
				if err != nil {
					r.Violation("r02:setup", nil, "%v", err)
					return
				}
				sizes := append(r02sizes(r, 4096), 65535, 65536, 65537, 1<<20, 3<<20)
				for i, n := range sizes {
					var m v.Msg
					switch kind {
					case 0:
						m = v.Msg{Type: 8, CSID: 4, TS: ts, Payload: append([]byte{0xaf, 1}, v.Fill(i, n-1)...)}
					case 1, 2:
						b0 := byte(0x17)
						if kind == 2 {
							b0 = 0x27
						}
						m = v.Msg{Type: 9, CSID: 6, TS: ts, Payload: append([]byte{b0, 1, 0, 0, 0}, v.Fill(i, n)...)}
					case 3:
						m = v.Msg{Type: 8, CSID: 4, TS: ts, Payload: append([]byte{0x2f}, v.Fill(i, n)...)}
					}
					r.Journal("R02 session kind %d ts %d size %d", kind, ts, n)
					pub.send(m)
					synctest.Wait()
					got := media(view.sync())
					cas := fmt.Sprintf("type %d, %d bytes, timestamp %d", m.Type, len(m.Payload), ts)
					if d := sameMsgs(got, []v.Msg{m}); d != "" {
						r.Violation(fmt.Sprintf("r02:session:kind%d", kind), cas, "what the player decodes differs: %s (decoder: %v)", d, view.dec.Err)
					}
					if view.dec.Err != nil {
						r.Violation("r02:illegal", cas, "illegal chunk stream to the player: %v", view.dec.Err)
						return
					}
					if view.dec.Pending() {
						r.Violation("r02:incomplete", cas, "incomplete message left on the player's connection")
						return
					}
					r.Eval(fmt.Sprintf("session kind%d", kind), cas)
				}
			})
		}
	}
	r.Note("session: 4 kinds x %d timestamps x all sizes within 7 bytes of the first multiples of the chunk size, up to 3 MiB", len(r02ts))

	//2. every outgoing chunk size
	chunks := []int{1, 2, 3, 64, 127, 128, 129, 130, 1000, 4095, 4096, 4097, 65536}
	for _, cs := range chunks {
		for _, ts := range r02ts {
			if !r.Mine() || r.Expired() {
				continue
			}
			synctest.Test(t, func(t *testing.T) {
				a, b := v.Pipe()
				w := &RTMP{
					readerConn:       easyio.NewEasyReader(b),
					writerConn:       easyio.NewEasyWriter(b),
					lastChunk:        map[uint32]*Chunk{},
					peerMaxChunkSize: 128,
					ownMaxChunkSize:  cs,
				}
				dec := v.NewChunkReader(uint32(cs))
				room := NewRoom(w, "s")
				mt, err := libflv.ParseMetaTag(libflv.TagBase{TagType: 18, TimeStamp: ts}, amf0(), v.AMF("onMetaData", metaKV))
				if err != nil {
					r.Violation("r02:meta", nil, "%v", err)
				}
				vt, _ := libflv.ParseVideoTag(libflv.TagBase{TagType: 9, TimeStamp: ts}, vSeq)
				at, _ := libflv.ParseAudioTag(libflv.TagBase{TagType: 8, TimeStamp: ts}, aSeq)
				room.GOP.WriteMeta(mt)
				room.GOP.WriteMeta(vt)
				room.GOP.WriteMeta(at)
				room.RTMPJoin(w)
				synctest.Wait()
				dec.Feed(a.Take())
				for i, n := range r02sizes(r, cs) {
					var m v.Msg
					m.TS = ts
					if i%2 == 0 {
						m.Type, m.Payload = 8, append([]byte{0xaf, 1}, v.Fill(i, n-1)...)
						tag, _ := libflv.ParseAudioTag(libflv.TagBase{TagType: 8, TimeStamp: ts}, m.Payload)
						room.GOP.Write(tag)
					} else {
						m.Type, m.Payload = 9, append([]byte{0x27, 1, 0, 0, 0}, v.Fill(i, n)...)
						tag, _ := libflv.ParseVideoTag(libflv.TagBase{TagType: 9, TimeStamp: ts}, m.Payload)
						room.GOP.Write(tag)
					}
					synctest.Wait()
					got := dec.Feed(a.Take())
					cas := fmt.Sprintf("chunk size %d, type %d, %d bytes, timestamp %d", cs, m.Type, len(m.Payload), ts)
					if d := sameMsgs(got, []v.Msg{m}); d != "" || dec.Err != nil || dec.Pending() {
						r.Violation(fmt.Sprintf("r02:chunksize:type%d", m.Type), cas, "decoded differently: %s (decoder: %v, incomplete %v)", d, dec.Err, dec.Pending())
						break
					}
					r.Eval("chunk size sweep", cas)
				}
				room.Close()
				a.Close()
				synctest.Wait()
			})
		}
	}
	r.Note("%d outgoing chunk sizes x %d timestamps x sizes around chunk multiples", len(chunks), len(r02ts))

	//3. the chunk writer itself: chunk stream ids, header formats, timestamps and deltas
	for _, id := range []uint32{0, 1, 2, 3, 4, 63, 64, 65, 255, 318, 319, 320, 321, 400, 576, 1000, 65534, 65599} {
		for _, ts := range r02ts {
			for _, n := range []int{1, 100} {
				if !r.Mine() || r.Expired() {
					continue
				}
				cas := fmt.Sprintf("chunk stream %d, timestamp/delta %d, %d bytes", id, ts, n)
				r.Journal("R02 chunk writer %s", cas)
				conn := &v.ScriptConn{}
				w := &RTMP{writerConn: easyio.NewEasyWriter(conn), lastChunk: map[uint32]*Chunk{}, ownMaxChunkSize: 128, peerMaxChunkSize: 128}
				pay := v.Fill(3, n)
				var want []v.Msg
				refused := false
				send := func(c *Chunk) {
					before := conn.Out.Len()
					if err := c.Send(w); err != nil {
						if conn.Out.Len() != before {
							r.Violation("r02:writer:error", cas, "refused chunk still wrote bytes")
						}
						refused = true
					}
				}
				send(NewChunk(MessageType(9), uint32(n), ts, FMT0, id, pay))
				want = append(want, v.Msg{Type: 9, TS: ts, Payload: pay})
				//a two-chunk message: header, then a bare continuation
				c := NewChunk(MessageType(8), uint32(2*n), ts, FMT0, id, pay)
				two := &RTMP{writerConn: w.writerConn, lastChunk: map[uint32]*Chunk{}, ownMaxChunkSize: n, peerMaxChunkSize: 128}
				_ = two
				if n == 100 {
					c = NewChunk(MessageType(8), uint32(228), ts, FMT0, id, v.Fill(5, 128))
					send(c)
					send(NewChunk(MessageType(8), uint32(228), ts, FMT3, id, pay))
					want = append(want, v.Msg{Type: 8, TS: ts, Payload: v.Cat(v.Fill(5, 128), pay)})
				}
				for _, f := range []MessageHeaderType{FMT1, FMT2} {
					c := NewChunk(MessageType(9), uint32(n), 0, f, id, pay)
					if f == FMT2 && n == 100 {
						c.MessageTimeDelta = 7
					} else {
						c.MessageTimeDelta = ts
					}
					send(c)
					last := want[len(want)-1]
					want = append(want, v.Msg{Type: 9, TS: last.TS + c.MessageTimeDelta, Payload: pay})
				}
				if refused {
					if id >= 3 {
						r.Violation("r02:writer:refused", cas, "the chunk writer refuses a legal chunk stream id")
					}
					r.Eval("refused", cas)
					continue
				}
				dec := v.NewChunkReader(128)
				got := dec.Feed(conn.Out.Bytes())
				ok := sameMsgs(got, want)
				for _, m := range got {
					if m.CSID != id {
						ok = fmt.Sprintf("chunk stream id %d decoded as %d", id, m.CSID)
					}
				}
				if ok != "" || dec.Err != nil || dec.Pending() {
					r.Violation("r02:writer:csid-form", cas, "chunk writer output decodes differently: %s (decoder %v, incomplete %v)", ok, dec.Err, dec.Pending())
				}
				r.Eval("writer", cas)
			}
		}
	}
	r.Note("chunk writer: 18 chunk stream ids x 8 timestamps x 4 header formats")

	//4. commands the server originates, longer than a chunk
	for n := 0; n <= 400; n++ {
		if !r.Mine() || r.Expired() {
			continue
		}
		for _, cs := range []int{1, 64, 128, 4096} {
			conn := &v.ScriptConn{}
			w := &RTMP{writerConn: easyio.NewEasyWriter(conn), lastChunk: map[uint32]*Chunk{}, ownMaxChunkSize: cs, peerMaxChunkSize: 128}
			arg := string(v.Fill(1, n))
			cas := fmt.Sprintf("command argument of %d bytes, chunk size %d", n, cs)
			var err error
			if !r.Guard("r02:", cas, func() { err = w.sendCommandRaw("play", 3, nil, []interface{}{arg}) }) {
				continue
			}
			dec := v.NewChunkReader(uint32(cs))
			got := dec.Feed(conn.Out.Bytes())
			want := []v.Msg{{Type: 20, Payload: v.AMF("play", 3, nil, arg)}}
			if d := sameMsgs(got, want); d != "" || dec.Err != nil || dec.Pending() || err != nil {
				r.Violation("r02:command", cas, "command decodes differently: %s (%v, %v)", d, err, dec.Err)
			}
			r.Eval("command", cas)
		}
	}
}
