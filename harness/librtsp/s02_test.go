//go:build go1.25

package librtsp

import (
	"bytes"
	"fmt"
	"testing"

	v "github.com/sbraveyoung/GGmpeg/verif_vlib"
)

func s02Nal(seed, n int, hdr ...byte) []byte {
	b := v.Fill(seed, n)
	copy(b, hdr)
	return b
}

func sameUnits(a, b [][]byte) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !bytes.Equal(a[i], b[i]) {
			return false
		}
	}
	return true
}

func lens(a [][]byte) (out []int) {
	for _, x := range a {
		out = append(out, len(x))
	}
	return
}

func TestV_S02Pack(t *testing.T) {
	r := v.Start(t)
	defer r.Finish()

	//one unit, one limit
	pack := func(hevc bool, hdr []byte, n, mtu int) {
		desc := fmt.Sprintf("hevc=%v header %x unit of %d bytes, limit %d", hevc, hdr, n, mtu)
		r.Journal("S02 %s", desc)
		bad := func(key, f string, a ...interface{}) {
			r.Violation("s02:"+key, desc, "%s: %s", desc, fmt.Sprintf(f, a...))
		}
		nal := s02Nal(n, n, hdr...)
		keep := bytes.Clone(nal)
		limit := mtu
		if limit == 0 {
			limit = DefaultMTU
		}
		r.Guard("s02:", desc, func() {
			var pls [][]byte
			var units [][]byte
			var err error
			if hevc {
				pls = PackHEVCNAL(nal, mtu)
				units, err = v.UnHEVC(pls)
			} else {
				pls = PackNAL(nal, mtu)
				units, err = v.UnAVC(pls)
			}
			r.Eval(fmt.Sprintf("%d packets", min(len(pls), 5)), desc)
			if err != nil {
				bad("illegal", "%v", err)
				return
			}
			if !sameUnits(units, [][]byte{keep}) {
				bad("unit", "%d payloads %v give units %v", len(pls), lens(pls), lens(units))
				return
			}
			if !bytes.Equal(nal, keep) {
				bad("input", "the unit was modified")
			}
			for i, p := range pls {
				if len(p) > limit {
					bad("limit", "payload %d has %d bytes", i, len(p))
				}
			}
			if hevc {
				return
			}
			ra := &H264Reassembler{}
			pk := NewRTPPacker(96, 0x1234fffe)
			for i, p := range pls {
				b := pk.Pack(i == len(pls)-1, 0xfffffffe, p)
				pkt, err := ParseRTP(b)
				if err != nil {
					bad("parse", "packet %d: %v", i, err)
					return
				}
				got, ts := ra.Push(pkt)
				if i < len(pls)-1 && got != nil {
					bad("early", "a unit after packet %d of %d", i, len(pls))
				}
				if i == len(pls)-1 && (!sameUnits(got, [][]byte{keep}) || ts != 0xfffffffe) {
					bad("reassembly", "units %v at %#x", lens(got), ts)
				}
			}
		})
	}
	small := r.Pick(24, 48)
	for _, hevc := range []bool{false, true} {
		lo := 1
		if hevc {
			lo = 2
		}
		hdr := []byte{0x65}
		if hevc {
			hdr = []byte{0x26, 0x01}
		}
		for mtu := 4; mtu <= small; mtu++ {
			for n := lo; n <= 4*mtu+5; n++ {
				if r.Mine() {
					pack(hevc, hdr, n, mtu)
				}
			}
		}
		for _, mtu := range []int{0, 1400, 1188, 65000} {
			l := mtu
			if l == 0 {
				l = 1400
			}
			for k := 1; k <= r.Pick(3, 6); k++ {
				for d := -8; d <= 8; d++ {
					if r.Mine() {
						pack(hevc, hdr, k*l+d, mtu)
					}
				}
			}
			if r.Mine() {
				pack(hevc, hdr, 200000, mtu)
			}
		}
		for h := 0; h < 128; h++ {
			hd := []byte{byte(h)}
			if hevc {
				if h>>1&63 >= 48 {
					continue
				}
			} else if h&31 == 0 || h&31 > 23 {
				continue
			}
			for _, n := range []int{5, 10, 11, 27, 28, 100} {
				if hevc {
					for _, h1 := range []byte{1, 7, 0x80, 0xf9, 0xff} {
						if r.Mine() {
							pack(hevc, append(hd, h1), n, 10)
						}
					}
				} else if r.Mine() {
					pack(hevc, hd, n, 10)
				}
			}
		}
	}

	//packet headers
	for _, pt := range []uint8{0, 96, 97, 127} {
		for _, ssrc := range []uint32{0, 1, 0xdeadbeef, 0xffffffff} {
			for _, start := range []uint16{0, 1, 0x7ffe, 0xfffc} {
				for _, n := range []int{0, 1, 2, 1400} {
					if !r.Mine() {
						continue
					}
					desc := fmt.Sprintf("pt %d ssrc %#x seq %d payload %d", pt, ssrc, start, n)
					r.Guard("s02:", desc, func() {
						pk := NewRTPPacker(pt, ssrc)
						pk.SetSeq(start)
						for i := 0; i < 8; i++ {
							if pk.Seq() != start+uint16(i) {
								r.Violation("s02:seq", desc, "Seq() %d at packet %d", pk.Seq(), i)
							}
							ts := uint32(i)*0x30000000 + 7
							x, err := v.UnRTP(pk.Pack(i&1 == 1, ts, v.Fill(i, n)))
							if err != nil || x.PT != pt || x.SSRC != ssrc || x.Seq != start+uint16(i) || x.TS != ts || x.Marker != (i&1 == 1) || x.CSRC != 0 || x.Ext != -1 || x.Pad != 0 || !bytes.Equal(x.Payload, v.Fill(i, n)) {
								r.Violation("s02:header", desc, "packet %d: %v %+v", i, err, x)
								return
							}
						}
						r.Eval("header", desc)
					})
				}
			}
		}
	}
	//parsing: every combination of optional parts and every cut
	for _, cc := range []int{0, 1, 2, 15} {
		for _, ext := range []int{-1, 0, 1, 3, 255, 256, 300} {
			for _, pad := range []int{0, 1, 2, 5, 16, 17, 127, 128, 255} {
				for _, n := range []int{0, 1, 2, 3, 9} {
					for k := 0; k < 4; k++ {
						if !r.Mine() {
							continue
						}
						p := v.RTP{PT: byte(96 + 10*k), Marker: k&1 == 1, Seq: uint16(0xfffe + k), TS: uint32(k) * 0x55555555, SSRC: uint32(k) * 0x12345679, Payload: v.Fill(k, n), CSRC: cc, Ext: ext, Pad: pad}
						desc := fmt.Sprintf("cc %d ext %d pad %d payload %d form %d", cc, ext, pad, n, k)
						r.Guard("s02:", desc, func() {
							b := p.Bytes()
							x, err := ParseRTP(b)
							r.Eval("parse", desc)
							if err != nil || x.PayloadType != p.PT || x.Marker != p.Marker || x.SequenceNum != p.Seq || x.Timestamp != p.TS || x.SSRC != p.SSRC || !bytes.Equal(x.Payload, p.Payload) {
								r.Violation("s02:parse", desc, "%v %+v", err, x)
							}
							//no padding in sight: a cut packet is an error exactly if the strict parser says so
							if pad == 0 {
								for c := 0; c < len(b); c++ {
									_, e1 := ParseRTP(b[:c])
									_, e2 := v.UnRTP(b[:c])
									if (e1 == nil) != (e2 == nil) {
										r.Violation("s02:cut", desc, "first %d bytes: %v, should be %v", c, e1, e2)
									}
								}
							}
							for ver := byte(0); ver < 4; ver++ {
								b[0] = b[0]&0x3f | ver<<6
								if _, err := ParseRTP(b); (err == nil) != (ver == 2) {
									r.Violation("s02:version", desc, "version %d: %v", ver, err)
								}
							}
						})
					}
				}
			}
		}
	}
	for _, n := range []int{0, 1, 12, 255, 256, 1412, 32768, 65535} {
		for _, ch := range []uint8{0, 1, 2, 127, 255} {
			if r.Mine() {
				f := InterleaveFrame(ch, v.Fill(n, n))
				r.Eval("interleave", fmt.Sprint(n, ch))
				if len(f) != 4+n || f[0] != '$' || f[1] != ch || int(f[2])<<8|int(f[3]) != n || !bytes.Equal(f[4:], v.Fill(n, n)) {
					r.Violation("s02:interleave", fmt.Sprint(n, ch), "frame of %d bytes on channel %d is wrong", n, ch)
				}
			}
		}
	}
	//AAC and Opus
	step := r.Pick(7, 1)
	for n := 1; n < 8192; n++ {
		if n > 300 && n < 8100 && n%step != 0 && n%256 > 2 {
			continue
		}
		if !r.Mine() {
			continue
		}
		f := v.Fill(n, n)
		p := PackAACFrame(f)
		u, err := v.UnAAC(p)
		r.Eval("aac", fmt.Sprint(n))
		if err != nil || !sameUnits(u, [][]byte{f}) || !sameUnits(AACAUExtract(p), [][]byte{f}) {
			r.Violation("s02:aac", n, "frame of %d bytes: %v, back %v and %v", n, err, lens(u), lens(AACAUExtract(p)))
		}
		if o := PackOpusFrame(f); !bytes.Equal(o, f) {
			r.Violation("s02:opus", n, "packet of %d bytes changed", n)
		}
	}
	for _, n := range []int{8192, 8193, 16384, 65536} {
		//cannot be said in 13 bits: refusing is fine, another frame is not
		if p := PackAACFrame(v.Fill(n, n)); p != nil {
			if u, err := v.UnAAC(p); err != nil || !sameUnits(u, [][]byte{v.Fill(n, n)}) {
				r.Violation("s02:aac-long", n, "frame of %d bytes becomes %v (%v)", n, lens(u), err)
			}
		}
		r.Eval("aac long", fmt.Sprint(n))
	}
	sizes := []int{1, 2, 31, 32, 255, 256, 2000, 8191}
	v.Sequences(len(sizes), 1, r.Pick(4, 5), func(s []int) bool {
		if !r.Mine() {
			return true
		}
		var fs [][]byte
		for i, x := range s {
			fs = append(fs, v.Fill(i, sizes[x]))
		}
		got := AACAUExtract(v.AACPayload(fs...))
		r.Eval(fmt.Sprintf("%d frames", len(s)), fmt.Sprint("aac", s))
		if !sameUnits(got, fs) {
			r.Violation("s02:aac-several", lens(fs), "frames %v extracted as %v", lens(fs), lens(got))
		}
		return !r.Expired()
	})
	r.Note("units of every length up to 4 limits at limits 4-%d, around the first multiples at 1188/1400/65000, every header byte; every RTP header form and cut; AAC frame lengths 1-8191 (quick: every 7th), sequences of frames per packet", small)
}

// Access units over a lossy path.
func TestV_S02Loss(t *testing.T) {
	r := v.Start(t)
	defer r.Finish()
	//shapes of one access unit: sizes of its units under a limit of 10 bytes; negative: aggregated
	shapes := [][]int{{5}, {18}, {26}, {3, 18}, {18, 4}, {-3, -4, 5}, {18, 26}, {4, 4, 4}}
	type pkt struct {
		au int
		b  []byte
	}
	run := func(seq []int, start uint16, deliver func(n int) [][]int, kind string) {
		var aus [][][]byte
		var pkts []pkt
		sn := start
		for i, s := range seq {
			var nals [][]byte
			stap := map[int]int{}
			for k, n := range shapes[s] {
				if n < 0 {
					n = -n
					if k == 0 {
						stap[0] = 2
					}
				}
				nals = append(nals, s02Nal(i*7+k, n, []byte{0x65, 0x41, 0x06}[(i+k)%3]))
			}
			aus = append(aus, nals)
			pls := v.AVCPayloads(nals, 10, stap)
			for k, p := range pls {
				pkts = append(pkts, pkt{i, v.RTP{PT: 96, Marker: k == len(pls)-1, Seq: sn, TS: 0xfffff000 + uint32(i)*3000, SSRC: 5, Payload: p, Ext: -1}.Bytes()})
				sn++
			}
		}
		for _, order := range deliver(len(pkts)) {
			desc := fmt.Sprintf("units %v from %d, packets %v of %d", seq, start, order, len(pkts))
			r.Journal("S02 %s", desc)
			r.Guard("s02:", desc, func() {
				bad := func(key, f string, a ...interface{}) {
					r.Violation("s02:"+key, desc, "%s: %s", desc, fmt.Sprintf(f, a...))
				}
				have := map[int]int{}
				total := map[int]int{}
				for _, p := range pkts {
					total[p.au]++
				}
				ra := &H264Reassembler{}
				got := map[int][][]byte{}
				last := -1
				for _, o := range order {
					p, err := ParseRTP(bytes.Clone(pkts[o].b))
					if err != nil {
						bad("parse", "%v", err)
						return
					}
					nals, ts := ra.Push(p)
					if len(nals) == 0 {
						continue
					}
					au := int((ts - 0xfffff000) / 3000)
					if au != pkts[o].au || au <= last {
						bad("order", "units with the time of access unit %d at a packet of access unit %d, after %d", au, pkts[o].au, last)
						return
					}
					last = au
					got[au] = nals
				}
				inOrder := true
				for i := 1; i < len(order); i++ {
					inOrder = inOrder && order[i] > order[i-1]
				}
				for _, o := range order {
					have[pkts[o].au]++
				}
				whole := 0
				for i, want := range aus {
					k := 0
					for _, n := range got[i] {
						for k < len(want) && !bytes.Equal(want[k], n) {
							k++
						}
						if k == len(want) {
							bad("corrupt", "access unit %d of units %v came out as %v", i, lens(want), lens(got[i]))
							return
						}
						k++
					}
					if inOrder && have[i] == total[i] {
						whole++
						if !sameUnits(got[i], want) {
							bad("lost", "access unit %d arrived whole, but came out as %v instead of %v", i, lens(got[i]), lens(want))
							return
						}
					}
				}
				r.Eval(fmt.Sprintf("%s %d of %d whole", kind, whole, len(aus)), desc)
			})
		}
	}
	subsets := func(n int) (out [][]int) {
		for m := 1<<n - 1; m >= 0; m-- {
			var o []int
			for i := 0; i < n; i++ {
				if m>>i&1 == 1 {
					o = append(o, i)
				}
			}
			out = append(out, o)
		}
		return
	}
	disorders := func(n int) (out [][]int) {
		//every packet moved to every other place, or repeated there
		for i := 0; i < n; i++ {
			for j := 0; j <= n; j++ {
				var rep, mov []int
				for k := 0; k <= n; k++ {
					if k == j {
						rep, mov = append(rep, i), append(mov, i)
					}
					if k < n {
						rep = append(rep, k)
						if k != i {
							mov = append(mov, k)
						}
					}
				}
				out = append(out, mov)
				if j > i {
					out = append(out, rep)
				}
			}
		}
		return
	}
	depth := r.Pick(3, 4)
	limit := r.Pick(11, 14)
	if !v.Sequences(len(shapes), 1, depth, func(s []int) bool {
		if !r.Mine() {
			return true
		}
		n := 0
		for _, x := range s {
			for _, k := range shapes[x] {
				n++
				if k > 10 {
					n += (k - 2) / 8
				}
			}
		}
		for _, start := range []uint16{0, 0xfffb} {
			if n <= limit {
				run(s, start, subsets, "loss")
			}
			run(s, start, disorders, "disorder")
		}
		return !r.Expired()
	}) {
		r.Capped("sequences of access units")
	}
	r.Note("every sequence of up to %d access units over %d shapes (single, fragmented, aggregated, mixed): every subset of up to %d packets lost, every packet repeated or displaced, from two sequence numbers", depth, len(shapes), limit)
}

// Every way of putting an access unit's units into packets, none of which is lost.
func TestV_S02Forms(t *testing.T) {
	r := v.Start(t)
	defer r.Finish()
	sizes := []int{1, 2, 3, 7, 255, 256, 1000}
	heads := []byte{0x67, 0x65, 0x0a, 0x41}
	run := func(nals [][]byte, pls [][]byte, how string) {
		desc := fmt.Sprintf("units of %v bytes as %s", lens(nals), how)
		r.Guard("s02:", desc, func() {
			ra := &H264Reassembler{}
			sn := uint16(0xfffe)
			for au := 0; au < 2; au++ {
				for k, p := range pls {
					x, err := ParseRTP(v.RTP{PT: 96, Marker: k == len(pls)-1, Seq: sn, TS: 7 + uint32(au)*3000, SSRC: 5, Payload: p, Ext: -1}.Bytes())
					sn++
					if err != nil {
						r.Violation("s02:parse", desc, "%v", err)
						return
					}
					got, ts := ra.Push(x)
					if k < len(pls)-1 {
						if len(got) > 0 {
							r.Violation("s02:forms", desc, "units %v before the access unit's last packet", lens(got))
							return
						}
					} else if !sameUnits(got, nals) || ts != 7+uint32(au)*3000 {
						r.Violation("s02:forms", desc, "came out as %v at %d", lens(got), ts)
						return
					}
				}
			}
			r.Eval(fmt.Sprintf("%d packets", len(pls)), desc)
		})
	}
	//every division of k units into aggregates, each unit on its own also whole or in 2 or 3 fragments
	var divide func(nals, rest [][]byte, pls [][]byte, how string)
	divide = func(nals, rest [][]byte, pls [][]byte, how string) {
		if len(rest) == 0 {
			run(nals, pls, how)
			return
		}
		u := rest[0]
		more := func(p ...[]byte) [][]byte { return append(append([][]byte(nil), pls...), p...) }
		divide(nals, rest[1:], more(u), how+" single")
		for pieces := 2; pieces <= 4; pieces++ {
			b := u[1:]
			if len(b) < pieces {
				break
			}
			for _, first := range []int{1, len(b) - pieces + 1} {
				var fr [][]byte
				at := 0
				for i := 0; i < pieces; i++ {
					n := 1
					if i == 0 {
						n = first
					} else if i == pieces-1 {
						n = len(b) - at
					}
					h := u[0] & 0x1f
					if i == 0 {
						h |= 0x80
					}
					if i == pieces-1 {
						h |= 0x40
					}
					fr = append(fr, append([]byte{u[0]&0xe0 | 28, h}, b[at:at+n]...))
					at += n
				}
				divide(nals, rest[1:], more(fr...), fmt.Sprintf("%s fragments(%d,%d)", how, pieces, first))
			}
		}
		for k := 1; k <= len(rest); k++ {
			p := []byte{24}
			for _, x := range rest[:k] {
				p[0] = max(p[0], x[0]&0x60|24)
				p = append(append(p, byte(len(x)>>8), byte(len(x))), x...)
			}
			divide(nals, rest[k:], more(p), fmt.Sprintf("%s aggregate(%d)", how, k))
		}
	}
	v.Sequences(len(sizes), 1, r.Pick(4, 5), func(seq []int) bool {
		if !r.Mine() {
			return true
		}
		var nals [][]byte
		for i, x := range seq {
			n := v.Fill(i+3, sizes[x])
			n[0] = heads[(i+x)%len(heads)]
			nals = append(nals, n)
		}
		if len(seq) > 3 && r.Quick() { //the long ones in every other shape only
			k := 0
			for _, x := range seq {
				k += x
			}
			if k%4 != 0 {
				return true
			}
		}
		r.Journal("S02 forms of %v", lens(nals))
		divide(nals, nals, nil, "")
		return !r.Expired()
	})
	//a great many units in one packet
	for _, k := range []int{2, 50, 255, 256, 700} {
		for _, n := range []int{1, 2, 5} {
			if !r.Mine() {
				continue
			}
			var nals [][]byte
			p := []byte{24}
			for i := 0; i < k; i++ {
				u := v.Fill(i, n)
				u[0] = 0x61
				nals = append(nals, u)
				p = append(append(p, 0, byte(n)), u...)
			}
			run(nals, [][]byte{p}, "one aggregate")
		}
	}
	r.Note("every division of up to %d units of %v bytes into single packets, 2 to 4 fragments and aggregates", r.Pick(4, 5), sizes)
}
