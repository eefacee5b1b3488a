//go:build go1.25

package libsrt

import (
	"encoding/binary"
	"fmt"
	"testing"
	"time"

	v "github.com/sbraveyoung/GGmpeg/verif_vlib"
)

// TestV_U02 decides delivery, loss reports and acknowledgements for every bounded arrival order.
func TestV_U02(t *testing.T) {
	r := v.Start(t)
	defer r.Finish()
	g := newSrtRig(t)
	defer g.end()
	const mask = uint32(0x7fffffff)

	run := func(isn uint32, offs []int64, plen int, pause bool) (slow bool) {
		desc := fmt.Sprintf("initial sequence %#x, arrivals %v, %d bytes", isn, offs, plen)
		bad := func(key, f string, a ...interface{}) {
			r.Violation("u02:"+key, desc, "%s: %s", desc, fmt.Sprintf(f, a...))
		}
		g.fresh()
		const id = 0x1001
		g.send(g.cli[0], srtCtl(0, 0, 0, 0, srtHS(1, isn, id, 0)))
		g.barrier()
		var cookie, our uint32
		for _, raw := range g.drain(0) {
			if k, e := parseSrt(raw); e == "" && k.typ == 0 {
				if h, ok := parseSrtHS(k.body); ok {
					cookie, our = h.cook, h.id
				}
			}
		}
		g.send(g.cli[0], srtCtl(0, 0, 0, our, srtHS(-1, isn, id, cookie)))
		g.barrier()
		g.drain(0)
		if g.slow() {
			return true
		}
		next := isn
		var lastAck time.Time
		acks, naks := 0, 0
		lastNum := uint32(0)
		for i, o := range offs {
			seq := uint32(int64(isn)+o) & mask
			pl := append([]byte(fmt.Sprintf("%d/%d.", i, o)), v.Fill(i, plen)...)
			if pause && i == len(offs)-1 {
				time.Sleep(60 * time.Millisecond)
			}
			ahead := int64((seq - next) & mask)
			if ahead >= 1<<30 {
				ahead -= 1 << 31
			}
			info := uint32(i + 1)
			if ahead < 0 {
				info |= 1 << 26 //retransmitted
			}
			sent := time.Now()
			g.send(g.cli[0], srtData(seq, info, our, pl))
			if !g.barrier() {
				if g.slow() {
					return true
				}
				bad("dead", "the listener no longer answers")
				return
			}
			if g.slow() {
				return true
			}
			got := g.taken()
			from := next
			if ahead >= 0 {
				if len(got) != 1 || got[0] != "S:"+string(pl) {
					bad("delivery", "packet %d (offset %d) handed on %d times or changed: %.60q", i, o, len(got), got)
					return
				}
				next = (seq + 1) & mask
			} else if len(got) != 0 {
				bad("late-delivery", "packet %d (offset %d), behind the newest, handed on", i, o)
				return
			}
			var nak [][2]uint32
			nn := 0
			acked := false
			for _, raw := range g.drain(0) {
				k, e := parseSrt(raw)
				if e != "" || k.dst != id {
					bad("report", "%s addressed to %#x", e, k.dst)
					return
				}
				switch k.typ {
				case 2:
					if len(k.body) < 4 {
						bad("ack", "body of %d bytes", len(k.body))
						return
					}
					if a := binary.BigEndian.Uint32(k.body); a != next {
						bad("ack", "after packet %d acknowledges %#x, the number after the newest is %#x", i, a, next)
						return
					}
					if k.info == lastNum {
						bad("ack-number", "acknowledgement number %d used twice", k.info)
						return
					}
					lastNum = k.info
					acked = true
					acks++
				case 3:
					x, ok := srtMissing(k.body)
					if !ok {
						bad("nak", "malformed loss list %x", k.body)
						return
					}
					nak = append(nak, x...)
					nn++
					naks++
				case 1:
				default:
					bad("report", "packet of type %d", k.typ)
					return
				}
			}
			if ahead > 0 {
				//exactly [from, seq-1], in one report
				want := from
				for _, x := range nak {
					if x[0] != want || (x[1]-x[0])&mask >= 1<<30 {
						bad("nak", "packet %d: reported missing %#x, expected %#x..%#x", i, nak, from, (seq-1)&mask)
						return
					}
					want = (x[1] + 1) & mask
				}
				if want != seq || nn != 1 {
					bad("nak", "packet %d: %d reports, missing %#x, expected %#x..%#x", i, nn, nak, from, (seq-1)&mask)
					return
				}
			} else if nn != 0 {
				bad("nak", "packet %d: loss report %#x without a gap", i, nak)
				return
			}
			if ahead >= 0 {
				if !acked && (lastAck.IsZero() || sent.Sub(lastAck) > 50*time.Millisecond) {
					bad("ack-missing", "packet %d is not acknowledged although no acknowledgement was sent for 50 ms", i)
					return
				}
			}
			if acked {
				lastAck = time.Now()
			}
		}
		r.Eval(fmt.Sprintf("%d acks, %d loss reports", min(acks, 2), min(naks, 4)), desc)
		return false
	}
	do := func(isn uint32, offs []int64, plen int, pause bool) bool {
		r.Journal("U02 %#x %v", isn, offs)
		for i := 0; i < 3; i++ {
			slow := false
			r.Guard("u02:", fmt.Sprint(isn, offs), func() { slow = run(isn, offs, plen, pause) })
			if !slow {
				break
			}
		}
		return !r.Expired()
	}
	isns := []uint32{0, 1, 100, 0x3ffffffe, 0x40000000, 0x7ffffffc, 0x7ffffffd, 0x7ffffffe, 0x7fffffff}
	// dense windows: every arrival sequence of numbers 0..w-1 (permutations, losses, duplicates)
	w, d := 5, r.Pick(4, 6)
	for _, isn := range isns {
		if !v.Sequences(w, 1, d, func(s []int) bool {
			if !r.Mine() {
				return true
			}
			o := make([]int64, len(s))
			for i, x := range s {
				o[i] = int64(x)
			}
			return do(isn, o, 10, false)
		}) {
			r.Capped("dense windows")
			return
		}
	}
	// far jumps in both directions
	far := []int64{0, 1, 2, -1, -2, 127, 1000, 1 << 16, 1<<29 + 3, -(1 << 16)}
	fd := r.Pick(3, 4)
	for _, isn := range isns {
		if !v.Sequences(len(far), 1, fd, func(s []int) bool {
			if !r.Mine() {
				return true
			}
			o := make([]int64, len(s))
			for i, x := range s {
				o[i] = far[x]
			}
			return do(isn, o, 10, false)
		}) {
			r.Capped("far jumps")
			return
		}
	}
	// payload sizes, and an acknowledgement after a pause
	for _, n := range []int{0, 1, 187, 188, 1315, 1316, 1400, 1440} {
		for _, isn := range isns {
			if r.Mine() {
				do(isn, []int64{0, 1, 2, 4}, n, true)
			}
		}
	}
	r.Note("from %d initial sequence numbers (including the 31-bit wrap): every arrival sequence of up to %d packets over a window of %d numbers, every sequence of up to %d over %d near and far offsets, 8 payload sizes; real UDP listener", len(isns), d, w, fd, len(far))
}
