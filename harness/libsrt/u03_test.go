//go:build go1.25

package libsrt

import (
	"bytes"
	"crypto/aes"
	"encoding/binary"
	"fmt"
	"testing"

	v "github.com/sbraveyoung/GGmpeg/verif_vlib"
)

var u03words = []uint32{0, 1, 2, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000, 0x01020304, 0x3fffffff, 0x40000000, 0x40000001, 0x5a5a5a5a, 0x7ffffffe, 0x7fffffff, 0x80000000, 0x80000001, 0xa5c3e187, 0xfffffffe, 0xffffffff}

// TestV_U03 decides the packet layouts, the modular arithmetic and the payload cipher.
func TestV_U03(t *testing.T) {
	r := v.Start(t)
	defer r.Finish()
	W := u03words
	w32 := func(x uint32) []byte { return binary.BigEndian.AppendUint32(nil, x) }

	// data headers: every pair of values at every pair of fields, rest fixed, plus all single bits
	hdrCase := func(seq, mi, ts, dst uint32, extra int) {
		desc := fmt.Sprintf("data seq=%#x info=%#x ts=%#x dst=%#x +%d", seq, mi, ts, dst, extra)
		r.Eval("data header", desc)
		want := v.Cat(w32(seq&0x7fffffff), w32(mi), w32(ts), w32(dst))
		got := make([]byte, HeaderSize)
		MarshalDataHeader(got, seq, mi, ts, dst)
		if !bytes.Equal(got, want) {
			r.Violation("u03:data-header", desc, "encoded %x, expected %x", got, want)
		}
		pl := v.Fill(3, extra)
		h, body, err := ParseHeader(append(bytes.Clone(want), pl...))
		if err != nil || h == nil {
			r.Violation("u03:data-parse", desc, "refused: %v", err)
			return
		}
		if h.Kind != KindData || h.SeqNumber != seq&0x7fffffff || h.MessageInfo != mi || h.Timestamp != ts || h.DestSocketID != dst || !bytes.Equal(body, pl) {
			r.Violation("u03:data-parse", desc, "parsed %+v body %d bytes", *h, len(body))
		}
	}
	ctlCase := func(typ, sub uint16, ti, ts, dst uint32, extra int) {
		desc := fmt.Sprintf("control type=%#x sub=%#x info=%#x ts=%#x dst=%#x +%d", typ, sub, ti, ts, dst, extra)
		r.Eval("control header", desc)
		want := v.Cat(w32(1<<31|uint32(typ)<<16|uint32(sub)), w32(ti), w32(ts), w32(dst))
		got := make([]byte, HeaderSize)
		MarshalControlHeader(got, ControlType(typ), sub, ti, ts, dst)
		if !bytes.Equal(got, want) {
			r.Violation("u03:control-header", desc, "encoded %x, expected %x", got, want)
		}
		pl := v.Fill(5, extra)
		h, body, err := ParseHeader(append(bytes.Clone(want), pl...))
		if err != nil || h == nil {
			r.Violation("u03:control-parse", desc, "refused: %v", err)
			return
		}
		if h.Kind != KindControl || uint16(h.ControlType) != typ || h.SubType != sub || h.TypeInfo != ti || h.Timestamp != ts || h.DestSocketID != dst || !bytes.Equal(body, pl) {
			r.Violation("u03:control-parse", desc, "parsed %+v body %d bytes", *h, len(body))
		}
	}
	for _, a := range W {
		for _, b := range W {
			if !r.Mine() {
				continue
			}
			r.Journal("U03 headers %#x %#x", a, b)
			r.Guard("u03:", "headers", func() {
				for _, c := range W {
					for _, d := range W {
						for _, n := range []int{0, 1, 4, 1316, 1484} {
							hdrCase(a, b, c, d, n)
							if r.Quick() {
								break
							}
						}
					}
				}
				for _, typ := range []uint16{0, 1, 2, 3, 4, 5, 6, 7, 8, 0x7ffe, 0x7fff} {
					for _, sub := range []uint16{0, 1, 2, 3, 4, 0x00ff, 0x8000, 0xffff} {
						for _, c := range W {
							ctlCase(typ, sub, a, b, c, int(a&3)*4)
						}
					}
				}
			})
		}
	}
	// every control type with every subtype of one byte, in either half
	for typ := 0; typ < 1<<15; typ++ {
		if typ%16 == 0 && !r.Mine() {
			typ += 15
			continue
		}
		ctlCase(uint16(typ), uint16(typ*7), 7, 9, 11, 0)
	}
	if r.Mine() {
		for n := 0; n < HeaderSize; n++ {
			desc := fmt.Sprintf("%d byte packet", n)
			r.Eval("short packet", desc)
			r.Guard("u03:", desc, func() {
				if _, _, err := ParseHeader(make([]byte, n)); err == nil {
					r.Violation("u03:short-packet", desc, "accepted")
				}
			})
		}
		for n := 0; n < HandshakeBodySize; n++ {
			desc := fmt.Sprintf("%d byte handshake", n)
			r.Eval("short handshake", desc)
			r.Guard("u03:", desc, func() {
				if _, err := ParseHandshake(make([]byte, n)); err == nil {
					r.Violation("u03:short-handshake", desc, "accepted")
				}
			})
		}
	}

	// handshakes: every pair of fields takes every pair of values
	hsFields := func(x [8]uint32, ip byte) {
		desc := fmt.Sprintf("handshake %#x ip %d", x, ip)
		r.Eval("handshake", desc)
		raw := []byte{}
		for _, w := range x {
			raw = append(raw, w32(w)...)
		}
		for i := 0; i < 16; i++ {
			raw = append(raw, ip+byte(i)*3)
		}
		h, err := ParseHandshake(append(bytes.Clone(raw), 1, 2, 3))
		if err != nil {
			r.Violation("u03:handshake-parse", desc, "refused: %v", err)
			return
		}
		if h.Version != x[0] || uint32(h.EncryptionField)<<16|uint32(h.ExtensionField) != x[1] || h.InitialSequence != x[2] || h.MaxPacketSize != x[3] || h.MaxFlowWindow != x[4] || uint32(h.HandshakeType) != x[5] || h.SrtSocketID != x[6] || h.SyncCookie != x[7] || !bytes.Equal(h.PeerIP[:], raw[32:48]) {
			r.Violation("u03:handshake-parse", desc, "parsed %+v", *h)
		}
		if got := h.Marshal(); !bytes.Equal(got, raw) {
			r.Violation("u03:handshake", desc, "encoded %x, expected %x", got, raw)
		}
	}
	for i := 0; i < 8; i++ {
		for j := i + 1; j < 8; j++ {
			if !r.Mine() {
				continue
			}
			r.Guard("u03:", "handshake", func() {
				for _, a := range W {
					for _, b := range W {
						for _, base := range []uint32{0, 0x01020304, 0xffffffff} {
							x := [8]uint32{}
							for k := range x {
								x[k] = base + uint32(k)*0x11
							}
							x[i], x[j] = a, b
							hsFields(x, byte(a))
						}
					}
				}
			})
		}
	}

	// acknowledgements
	for i := 0; i < 7; i++ {
		for _, a := range W {
			if !r.Mine() {
				continue
			}
			x := [7]uint32{1, 2, 3, 4, 5, 6, 7}
			x[i] = a
			desc := fmt.Sprintf("ack %#x", x)
			r.Eval("ack", desc)
			r.Guard("u03:", desc, func() {
				want := []byte{}
				for _, w := range x {
					want = append(want, w32(w)...)
				}
				got := (&ACKBody{LastAckedSeq: x[0], RTT: x[1], RTTVariance: x[2], AvailableBuffer: x[3], ReceivingRate: x[4], LinkCapacity: x[5], ReceivingBytes: x[6]}).Marshal()
				if !bytes.Equal(got, want) {
					r.Violation("u03:ack", desc, "encoded %x, expected %x", got, want)
				}
			})
		}
	}

	// loss lists: every list of up to three (thorough: four) ranges over a boundary alphabet
	rg := []LossRange{}
	for _, a := range []uint32{0, 1, 5, 0x3fffffff, 0x40000000, 0x7ffffffe, 0x7fffffff} {
		for _, n := range []uint32{0, 1, 2, 100, 0x10000} {
			rg = append(rg, LossRange{a, (a + n) & 0x7fffffff})
		}
	}
	var list []LossRange
	var walk func(d int)
	walk = func(d int) {
		desc := fmt.Sprintf("loss list %x", list)
		r.Eval("loss list", desc)
		want := []byte{}
		for _, l := range list {
			if l.From == l.To {
				want = append(want, w32(l.From)...)
			} else {
				want = append(want, w32(l.From|1<<31)...)
				want = append(want, w32(l.To)...)
			}
		}
		if got := MarshalNAK(list); !bytes.Equal(got, want) {
			r.Violation("u03:nak", desc, "encoded %x, expected %x", got, want)
		}
		same := func(a, b []LossRange) bool {
			if len(a) != len(b) {
				return false
			}
			for i := range a {
				if a[i] != b[i] {
					return false
				}
			}
			return true
		}
		if got := ParseNAK(want); !same(got, list) {
			r.Violation("u03:nak-parse", desc, "parsed %x", got)
		}
		// truncations never invent a range
		for cut := 0; cut < len(want); cut++ {
			got := ParseNAK(want[:cut])
			if len(got) > len(list) || !same(got, list[:len(got)]) {
				r.Violation("u03:nak-truncated", fmt.Sprint(desc, " cut at ", cut), "parsed %x", got)
			}
		}
		if d == 0 {
			return
		}
		for _, x := range rg {
			list = append(list, x)
			walk(d - 1)
			list = list[:len(list)-1]
		}
	}
	depth := r.Pick(3, 4)
	for _, a := range rg {
		for _, b := range rg {
			if !r.Mine() {
				continue
			}
			r.Journal("U03 loss lists %x %x", a, b)
			r.Guard("u03:", "loss lists", func() { list = []LossRange{a, b}; walk(depth - 2) })
		}
		if r.Mine() {
			r.Guard("u03:", "loss lists", func() { list = []LossRange{a}; walk(0) })
		}
	}

	// sequence arithmetic: every base with every distance of the alphabet
	const mod = int64(1) << 31
	dist := []int64{0}
	for k := 0; k < 30; k++ {
		for d := int64(-2); d <= 2; d++ {
			if x := int64(1)<<k + d; x > 0 && x < mod/2 {
				dist = append(dist, x, -x)
			}
		}
	}
	for d := int64(1); d < 40; d++ {
		dist = append(dist, mod/2-d, d-mod/2)
	}
	for bb := 0; bb < len(W)*64; bb++ {
		if !r.Mine() {
			continue
		}
		b := (int64(W[bb/64]) + int64(bb%64)*33 - 900) % mod
		if b < 0 {
			b += mod
		}
		for _, d := range dist {
			a := ((b+d)%mod + mod) % mod
			desc := fmt.Sprintf("SeqDiff(%#x, %#x)", a, b)
			r.Eval("sequence difference", desc)
			r.Guard("u03:", desc, func() {
				if got := SeqDiff(uint32(a), uint32(b)); int64(got) != d {
					r.Violation("u03:seqdiff", desc, "%d, expected %d", got, d)
				}
			})
		}
	}

	// payload cipher
	ctr := func(key, salt []byte, seq uint32, in []byte) []byte {
		c, _ := aes.NewCipher(key)
		var iv [16]byte
		copy(iv[:14], salt[:14])
		for i := 0; i < 4; i++ {
			iv[i] ^= byte(seq >> (24 - 8*i))
		}
		out := make([]byte, len(in))
		var ks [16]byte
		for i := range in {
			if i%16 == 0 {
				c.Encrypt(ks[:], iv[:])
				for k := 15; k >= 0; k-- {
					iv[k]++
					if iv[k] != 0 {
						break
					}
				}
			}
			out[i] = in[i] ^ ks[i%16]
		}
		return out
	}
	lens := []int{}
	for n := 0; n <= r.Pick(70, 1460); n++ {
		lens = append(lens, n)
	}
	lens = append(lens, 188, 1316, 1455, 1456, 1457, 4096, 4111)
	keys := [][2][]byte{{v.Fill(1, 16), v.Fill(2, 16)}, {make([]byte, 16), bytes.Repeat([]byte{0xff}, 16)}}
	salts := [][]byte{make([]byte, 16), v.Fill(9, 16), bytes.Repeat([]byte{0xff}, 16)}
	for ki, kp := range keys {
		for si, salt := range salts {
			for _, seq := range W {
				if seq > 0x7fffffff {
					continue
				}
				if !r.Mine() {
					continue
				}
				cs := &CryptoState{Active: true}
				copy(cs.EvenSEK[:], kp[0])
				copy(cs.OddSEK[:], kp[1])
				copy(cs.Salt[:], salt)
				for _, n := range lens {
					pl := v.Fill(n, n)
					for kk := 0; kk < 5; kk++ {
						for _, active := range []bool{true, false} {
							cs.Active = active
							desc := fmt.Sprintf("payload of %d bytes, keys %d salt %d seq %#x KK %d active %v", n, ki, si, seq, kk, active)
							r.Eval(fmt.Sprintf("cipher KK %d active %v", kk, active), desc)
							r.Guard("u03:", desc, func() {
								in := bytes.Clone(pl)
								want := pl
								if active && (kk == 1 || kk == 2) {
									in = ctr(kp[kk-1], salt, seq, pl)
								}
								got, err := cs.DecryptDataPayload(uint8(kk), seq, in)
								if active && kk > 2 {
									if err == nil {
										r.Violation("u03:cipher-kk", desc, "accepted")
									}
									return
								}
								if err != nil {
									r.Violation("u03:cipher", desc, "refused: %v", err)
								} else if !bytes.Equal(got, want) {
									r.Violation("u03:cipher", desc, "payload not recovered")
								}
							})
						}
					}
				}
			}
		}
	}
	r.Note("headers: every quadruple over %d boundary words (data), all 32768 control types; handshakes: every pair of fields over every pair of words on 3 backgrounds; loss lists: every list of up to %d ranges over %d ranges, with every truncation; SeqDiff: %d bases x %d distances; cipher: 2 key pairs x 3 salts x packet numbers x lengths 0..%d and boundaries x every KK", len(W), depth, len(rg), len(W)*64, len(dist), r.Pick(70, 1460))
}
