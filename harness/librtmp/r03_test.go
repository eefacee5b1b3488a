//go:build go1.25

package librtmp

import (
	"encoding/binary"
	"fmt"
	"testing"
	"testing/synctest"

	v "github.com/sbraveyoung/GGmpeg/verif_vlib"
)

type r03op struct {
	name string
	msg  v.Msg
	kind string //scs, win, ping, media, none
	val  uint32
}

func r03ops() []r03op {
	uc := func(ev uint16, data ...byte) v.Msg {
		return v.Msg{Type: 4, CSID: 2, Payload: append([]byte{byte(ev >> 8), byte(ev)}, data...)}
	}
	media := func(n int) v.Msg {
		return v.Msg{Type: 8, CSID: 5, TS: 40, Payload: append([]byte{0xaf, 1}, v.Fill(n, n-2)...)}
	}
	return []r03op{
		{"media1000", media(1000), "media", 0},
		{"ping", uc(6, 1, 2, 3, 4), "ping", 0x01020304},
		{"window3000", v.Msg{Type: 5, CSID: 2, Payload: v.U32(3000)}, "win", 3000},
		{"chunk64", v.SetChunkSize(2, 64), "scs", 64},
		{"media5000", media(5000), "media", 0},
		{"chunk4096", v.SetChunkSize(2, 4096), "scs", 4096},
		{"window1500", v.Msg{Type: 5, CSID: 2, Payload: v.U32(1500)}, "win", 1500},
		{"window0", v.Msg{Type: 5, CSID: 2, Payload: v.U32(0)}, "win", 0},
		{"ack", v.Msg{Type: 3, CSID: 2, Payload: v.U32(77777)}, "none", 0},
		{"bandwidth", v.Msg{Type: 6, CSID: 2, Payload: append(v.U32(1000), 2)}, "none", 0},
		{"ping2", uc(6, 0xff, 0, 0, 9), "ping", 0xff000009},
		{"pingresponse", uc(7, 1, 2, 3, 4), "none", 0},
		{"streambegin", uc(0, 0, 0, 0, 1), "none", 0},
		{"bufferlength", uc(3, 0, 0, 0, 1, 0, 0, 3, 0xe8), "none", 0},
		{"unknownevent", uc(32, 0, 0, 0, 1), "none", 0},
		{"abortidle", v.Msg{Type: 2, CSID: 2, Payload: v.U32(5)}, "none", 0},
		{"abortunknown", v.Msg{Type: 2, CSID: 2, Payload: v.U32(99)}, "none", 0},
		{"chunk65536", v.SetChunkSize(2, 65536), "scs", 65536},
	}
}

func TestV_R03(t *testing.T) {
	r := v.Start(t)
	defer r.Finish()
	ops := r03ops()
	run := func(seq []int) {
		synctest.Test(t, func(t *testing.T) {
			var names []string
			for _, i := range seq {
				names = append(names, ops[i].name)
			}
			r.Journal("R03 %v", names)
			srv := NewServer(":0", "live")
			pub := dialRTMP(srv, "pub")
			//payload: bytes of message payloads so far; wire: all bytes. An acknowledgement may count either.
			var payload, wire uint32
			put := func(m v.Msg) {
				b := pub.enc.Bytes(m)
				payload += uint32(len(m.Payload))
				wire += uint32(len(b))
				pub.c.Write(b)
			}
			if err := pub.hello(); err != nil {
				r.Violation("r03:setup", names, "%v", err)
				pub.closeWait()
				return
			}
			wire = 3073
			for _, p := range [][]byte{v.AMF("connect", 1, v.Obj{{K: "app", V: "live"}}), v.AMF("createStream", 2, nil), v.AMF("publish", 3, nil, "s", "live")} {
				put(v.Msg{Type: 20, CSID: 3, Payload: p})
			}
			put(v.Msg{Type: 18, CSID: 4, Payload: v.AMF("onMetaData", metaKV)})
			put(v.Msg{Type: 9, CSID: 4, Payload: vSeq})
			put(v.Msg{Type: 8, CSID: 4, Payload: aSeq})
			pub.sync()
			view, _, err := playRTMP(srv, "live", "s")
			defer func() { pub.c.Close(); view.c.Close(); synctest.Wait() }()
			if err != nil {
				r.Violation("r03:setup", names, "%v", err)
				return
			}
			var window uint32
			var ackLo, ackHi uint32 //totals (both ways of counting) at the last acknowledgement
			acks := 0
			for n, i := range seq {
				o := ops[i]
				m := o.msg
				put(m)
				got := pub.sync()
				var pongs []uint32
				acked := false
				for _, g := range got {
					switch {
					case g.Type == 3 && len(g.Payload) == 4:
						x := binary.BigEndian.Uint32(g.Payload)
						if x < payload || x > wire {
							r.Violation("r03:ack-value", names, "step %d (%s): acknowledgement carries %d, received %d payload bytes / %d bytes in all", n, o.name, x, payload, wire)
						}
						if acked {
							r.Violation("r03:ack-twice", names, "step %d (%s): two acknowledgements", n, o.name)
						}
						acked = true
						acks++
					case g.Type == 4 && len(g.Payload) == 6 && binary.BigEndian.Uint16(g.Payload) == 7:
						pongs = append(pongs, binary.BigEndian.Uint32(g.Payload[2:]))
					default:
						r.Violation("r03:extra", names, "step %d (%s): unexpected message %v", n, o.name, g)
					}
				}
				//the acknowledgement window in force when this message arrived
				if window > 0 {
					if payload-ackLo >= window && !acked {
						r.Violation("r03:ack-missing", names, "step %d (%s): %d bytes unacknowledged, window %d", n, o.name, payload-ackLo, window)
					}
					if acked && wire-ackHi < window {
						r.Violation("r03:ack-early", names, "step %d (%s): acknowledged after at most %d bytes, window %d", n, o.name, wire-ackHi, window)
					}
				} else if acked && o.kind != "win" {
					r.Violation("r03:ack-unasked", names, "step %d (%s): acknowledgement without a window", n, o.name)
				}
				if acked {
					ackLo, ackHi = payload, wire
					if ackHi > ackLo { //whichever way of counting the server uses
						ackHi = wire
					}
				}
				switch o.kind {
				case "ping":
					if len(pongs) != 1 || pongs[0] != o.val {
						r.Violation("r03:pong", names, "step %d: ping %#x answered by %x", n, o.val, pongs)
					}
				case "win":
					window = o.val
				case "scs":
					pub.enc.Size = o.val
				}
				if o.kind != "ping" && len(pongs) > 0 {
					r.Violation("r03:pong-unasked", names, "step %d (%s): ping response without request", n, o.name)
				}
				vg := view.sync()
				var want []v.Msg
				if o.kind == "media" {
					want = []v.Msg{m}
				}
				if d := sameMsgs(vg, want); d != "" {
					r.Violation("r03:media:"+o.kind, names, "step %d (%s): what the viewer gets: %s", n, o.name, d)
					return
				}
				if pub.c.PeerClosed() {
					r.Violation("r03:dropped", names, "step %d (%s): connection dropped", n, o.name)
					return
				}
			}
			if pub.dec.Err != nil || pub.dec.Pending() {
				r.Violation("r03:stream", names, "illegal reply stream: %v", pub.dec.Err)
			}
			r.Count("transitions", int64(len(seq)))
			r.Eval(fmt.Sprintf("%d acks", acks), fmt.Sprint(seq))
			r.Sample(map[string]interface{}{"sequence": names, "acknowledgements": acks})
		})
	}
	depth := r.Pick(3, 4)
	full := v.Sequences(len(ops), 1, depth, func(s []int) bool {
		if r.Mine() {
			run(s)
		}
		return !r.Expired()
	})
	if full {
		r.Note("all sequences of up to %d control/media messages over %d operations", depth, len(ops))
	}
	//longer, over the operations that interact through the byte counter and the chunk size
	core := 5
	d2 := r.Pick(5, 7)
	if v.Sequences(core, depth+1, d2, func(s []int) bool {
		if r.Mine() {
			run(s)
		}
		return !r.Expired()
	}) {
		r.Note("all sequences of up to %d over the %d operations media/ping/window/chunk size", d2, core)
	}
}
