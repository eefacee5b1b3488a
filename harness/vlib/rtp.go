//go:build go1.25

package verif_vlib

import (
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"strconv"
	"strings"
)

// Independent RTP (RFC 3550), H.264 (RFC 6184), HEVC (RFC 7798), AAC-hbr (RFC 3640) and SDP codec.
type RTP struct {
	PT      byte
	Marker  bool
	Seq     uint16
	TS      uint32
	SSRC    uint32
	Payload []byte
	CSRC    int
	Ext     int //words of extension, -1 none
	Pad     int //padding bytes, 0 none
}

func (p RTP) Bytes() []byte {
	b0 := byte(2<<6) | byte(p.CSRC)
	if p.Ext >= 0 {
		b0 |= 0x10
	}
	if p.Pad > 0 {
		b0 |= 0x20
	}
	b1 := p.PT
	if p.Marker {
		b1 |= 0x80
	}
	b := []byte{b0, b1, byte(p.Seq >> 8), byte(p.Seq)}
	b = append(append(b, U32(p.TS)...), U32(p.SSRC)...)
	for i := 0; i < p.CSRC; i++ {
		b = append(b, 0xc5, 0xc5, 0, byte(i))
	}
	if p.Ext >= 0 {
		b = append(b, 0xbe, 0xde, byte(p.Ext>>8), byte(p.Ext))
		for i := 0; i < p.Ext; i++ {
			b = append(b, 0xee, byte(i), 0xee, 0xee)
		}
	}
	b = append(b, p.Payload...)
	for i := 1; i < p.Pad; i++ {
		b = append(b, 0xdd)
	}
	if p.Pad > 0 {
		b = append(b, byte(p.Pad))
	}
	return b
}

func UnRTP(b []byte) (p RTP, err error) {
	if len(b) < 12 {
		return p, fmt.Errorf("RTP packet of %d bytes", len(b))
	}
	if b[0]>>6 != 2 {
		return p, fmt.Errorf("RTP version %d", b[0]>>6)
	}
	p.CSRC, p.Ext = int(b[0]&15), -1
	p.PT, p.Marker = b[1]&127, b[1]&128 != 0
	p.Seq = uint16(b[2])<<8 | uint16(b[3])
	p.TS, p.SSRC = u32(b, 4), u32(b, 8)
	rest := b[12:]
	if len(rest) < 4*p.CSRC {
		return p, fmt.Errorf("RTP CSRC list cut")
	}
	rest = rest[4*p.CSRC:]
	if b[0]&0x10 != 0 {
		if len(rest) < 4 {
			return p, fmt.Errorf("RTP extension cut")
		}
		p.Ext = int(u16(rest, 2))
		rest = rest[4:]
		if len(rest) < 4*p.Ext {
			return p, fmt.Errorf("RTP extension cut")
		}
		rest = rest[4*p.Ext:]
	}
	if b[0]&0x20 != 0 {
		if len(rest) == 0 || rest[len(rest)-1] == 0 || int(rest[len(rest)-1]) > len(rest) {
			return p, fmt.Errorf("RTP padding wrong")
		}
		p.Pad = int(rest[len(rest)-1])
		rest = rest[:len(rest)-p.Pad]
	}
	p.Payload = rest
	return p, nil
}

// AVCPayloads packetises the units of one access unit: each as single packet or FU-A of at most
// mtu bytes; runs listed in stap (first unit, count) are aggregated.
func AVCPayloads(nals [][]byte, mtu int, stap map[int]int) (out [][]byte) {
	for i := 0; i < len(nals); i++ {
		if k := stap[i]; k > 0 {
			b := []byte{0x78}
			for _, n := range nals[i : i+k] {
				b = append(append(b, byte(len(n)>>8), byte(len(n))), n...)
			}
			out = append(out, b)
			i += k - 1
			continue
		}
		n := nals[i]
		if len(n) <= mtu {
			out = append(out, append([]byte{}, n...))
			continue
		}
		for o := 1; o < len(n); o += mtu - 2 {
			e := min(o+mtu-2, len(n))
			h := n[0] & 31
			if o == 1 {
				h |= 0x80
			}
			if e == len(n) {
				h |= 0x40
			}
			out = append(out, append([]byte{n[0]&0xe0 | 28, h}, n[o:e]...))
		}
	}
	return
}

// UnAVC depacketises a loss-free run of H.264 payloads strictly.
func UnAVC(payloads [][]byte) (nals [][]byte, err error) {
	var fu []byte
	for i, p := range payloads {
		if len(p) == 0 {
			return nil, fmt.Errorf("packet %d is empty", i)
		}
		t := p[0] & 31
		if fu != nil && t != 28 {
			return nil, fmt.Errorf("packet %d interrupts a fragmented unit", i)
		}
		switch {
		case t >= 1 && t <= 23:
			nals = append(nals, p)
		case t == 28:
			if len(p) < 3 {
				return nil, fmt.Errorf("fragment %d is empty", i)
			}
			s, e := p[1]&0x80 != 0, p[1]&0x40 != 0
			if s && e {
				return nil, fmt.Errorf("fragment %d is start and end", i)
			}
			if p[1]&0x20 != 0 {
				return nil, fmt.Errorf("fragment %d: reserved bit set", i)
			}
			hdr := p[0]&0xe0 | p[1]&31
			if s != (fu == nil) {
				return nil, fmt.Errorf("fragment %d: start bit %v", i, s)
			}
			if s {
				fu = []byte{hdr}
			} else if fu[0] != hdr {
				return nil, fmt.Errorf("fragment %d: header %x after %x", i, hdr, fu[0])
			}
			fu = append(fu, p[2:]...)
			if e {
				nals, fu = append(nals, fu), nil
			}
		default:
			return nil, fmt.Errorf("packet %d of type %d", i, t)
		}
	}
	if fu != nil {
		return nil, fmt.Errorf("a fragmented unit does not end")
	}
	return
}

// UnHEVC depacketises a loss-free run of HEVC payloads strictly.
func UnHEVC(payloads [][]byte) (nals [][]byte, err error) {
	var fu []byte
	for i, p := range payloads {
		if len(p) < 2 {
			return nil, fmt.Errorf("packet %d has %d bytes", i, len(p))
		}
		t := p[0] >> 1 & 63
		if fu != nil && t != 49 {
			return nil, fmt.Errorf("packet %d interrupts a fragmented unit", i)
		}
		switch {
		case t < 48:
			nals = append(nals, p)
		case t == 49:
			if len(p) < 4 {
				return nil, fmt.Errorf("fragment %d is empty", i)
			}
			s, e := p[2]&0x80 != 0, p[2]&0x40 != 0
			if s && e {
				return nil, fmt.Errorf("fragment %d is start and end", i)
			}
			h0, h1 := p[0]&0x81|p[2]&63<<1, p[1]
			if s != (fu == nil) {
				return nil, fmt.Errorf("fragment %d: start bit %v", i, s)
			}
			if s {
				fu = []byte{h0, h1}
			} else if fu[0] != h0 || fu[1] != h1 {
				return nil, fmt.Errorf("fragment %d: other header", i)
			}
			fu = append(fu, p[3:]...)
			if e {
				nals, fu = append(nals, fu), nil
			}
		default:
			return nil, fmt.Errorf("packet %d of type %d", i, t)
		}
	}
	if fu != nil {
		return nil, fmt.Errorf("a fragmented unit does not end")
	}
	return
}

// AACPayload is an AAC-hbr payload (sizelength 13, indexlength 3) of the frames.
func AACPayload(frames ...[]byte) []byte {
	n := 16 * len(frames)
	b := []byte{byte(n >> 8), byte(n)}
	for _, f := range frames {
		h := len(f) << 3
		b = append(b, byte(h>>8), byte(h))
	}
	for _, f := range frames {
		b = append(b, f...)
	}
	return b
}

func UnAAC(p []byte) (frames [][]byte, err error) {
	if len(p) < 2 {
		return nil, fmt.Errorf("payload of %d bytes", len(p))
	}
	bits := int(u16(p, 0))
	if bits == 0 || bits%16 != 0 || len(p) < 2+bits/8 {
		return nil, fmt.Errorf("%d bits of access unit headers", bits)
	}
	data := p[2+bits/8:]
	for i := 0; i < bits/16; i++ {
		h := int(u16(p, 2+2*i))
		if h&7 != 0 {
			return nil, fmt.Errorf("access unit index %d", h&7)
		}
		if n := h >> 3; n > len(data) || n == 0 {
			return nil, fmt.Errorf("access unit of %d bytes with %d left", n, len(data))
		} else {
			frames = append(frames, data[:n])
			data = data[n:]
		}
	}
	if len(data) > 0 {
		return nil, fmt.Errorf("%d bytes left over", len(data))
	}
	return
}

// SDPMedia is one media section as an independent reader sees it.
type SDPMedia struct {
	Kind    string
	Proto   string
	PT      int
	Codec   string
	Rate    int
	Chans   int
	Fmtp    map[string]string
	Control string
}

func (m SDPMedia) Base64(key string) (out [][]byte, err error) {
	v, ok := m.Fmtp[key]
	if !ok {
		return nil, nil
	}
	for _, p := range strings.Split(v, ",") {
		b, err := base64.StdEncoding.DecodeString(p)
		if err != nil {
			return nil, err
		}
		out = append(out, b)
	}
	return
}

func (m SDPMedia) Hex(key string) ([]byte, error) { return hex.DecodeString(m.Fmtp[key]) }

// UnSDP reads a description strictly (RFC 4566 order of the session lines).
func UnSDP(b []byte) (name string, media []SDPMedia, err error) {
	s := string(b)
	if !strings.HasSuffix(s, "\r\n") {
		return "", nil, fmt.Errorf("last line is not terminated")
	}
	lines := strings.Split(strings.TrimSuffix(s, "\r\n"), "\r\n")
	order := "vosiuepcbtrzka"
	at := 0
	seen := map[byte]bool{}
	for i, l := range lines {
		if len(l) < 2 || l[1] != '=' || strings.ContainsAny(l, "\r\n") {
			return "", nil, fmt.Errorf("line %d: %q", i, l)
		}
		k, val := l[0], l[2:]
		if k == 'm' {
			f := strings.Fields(val)
			if len(f) != 4 {
				return "", nil, fmt.Errorf("media line %q", l)
			}
			pt, err := strconv.Atoi(f[3])
			if err != nil || pt < 0 || pt > 127 {
				return "", nil, fmt.Errorf("payload type %q", f[3])
			}
			media = append(media, SDPMedia{Kind: f[0], Proto: f[2], PT: pt, Fmtp: map[string]string{}})
			continue
		}
		if len(media) == 0 {
			p := strings.IndexByte(order, k)
			if p < at {
				return "", nil, fmt.Errorf("line %q out of order", l)
			}
			at = p
			seen[k] = true
			if k == 's' {
				name = val
				if val == "" {
					return "", nil, fmt.Errorf("empty session name")
				}
			}
			continue
		}
		m := &media[len(media)-1]
		pref := fmt.Sprintf(":%d ", m.PT)
		switch {
		case strings.HasPrefix(val, "rtpmap"+pref):
			f := strings.Split(val[len("rtpmap"+pref):], "/")
			if len(f) < 2 || len(f) > 3 {
				return "", nil, fmt.Errorf("%q", l)
			}
			m.Codec, m.Chans = f[0], 1
			if m.Rate, err = strconv.Atoi(f[1]); err != nil {
				return
			}
			if len(f) == 3 {
				if m.Chans, err = strconv.Atoi(f[2]); err != nil {
					return
				}
			}
		case strings.HasPrefix(val, "fmtp"+pref):
			for _, kv := range strings.Split(val[len("fmtp"+pref):], ";") {
				kv = strings.TrimSpace(kv)
				if kv == "" {
					continue
				}
				a, b, ok := strings.Cut(kv, "=")
				if !ok {
					return "", nil, fmt.Errorf("parameter %q", kv)
				}
				m.Fmtp[strings.ToLower(a)] = b
			}
		case strings.HasPrefix(val, "control:"):
			m.Control = val[len("control:"):]
		}
	}
	for _, k := range "vost" {
		if !seen[byte(k)] {
			return "", nil, fmt.Errorf("no %c= line", k)
		}
	}
	return
}

// RTSPReply is one response as an independent reader sees it.
type RTSPReply struct {
	Status  int
	Reason  string
	Headers map[string]string //lower case names
	Body    []byte
}

// UnRTSP reads one response from the start of b; n is 0 if b does not hold a whole one.
func UnRTSP(b []byte) (rep RTSPReply, n int, err error) {
	i := strings.Index(string(b), "\r\n\r\n")
	if i < 0 {
		return rep, 0, nil
	}
	lines := strings.Split(string(b[:i]), "\r\n")
	f := strings.SplitN(lines[0], " ", 3)
	if len(f) != 3 || f[0] != "RTSP/1.0" || len(f[1]) != 3 {
		return rep, 0, fmt.Errorf("status line %q", lines[0])
	}
	if rep.Status, err = strconv.Atoi(f[1]); err != nil {
		return
	}
	rep.Reason = f[2]
	rep.Headers = map[string]string{}
	for _, l := range lines[1:] {
		k, val, ok := strings.Cut(l, ":")
		k = strings.ToLower(k)
		if !ok || k == "" || strings.ContainsAny(k, " \t\r\n") {
			return rep, 0, fmt.Errorf("header %q", l)
		}
		if _, dup := rep.Headers[k]; dup {
			return rep, 0, fmt.Errorf("header %q twice", k)
		}
		rep.Headers[k] = strings.TrimSpace(val)
	}
	n = i + 4
	if cl, ok := rep.Headers["content-length"]; ok {
		k, err := strconv.Atoi(cl)
		if err != nil || k < 0 {
			return rep, 0, fmt.Errorf("content length %q", cl)
		}
		if len(b) < n+k {
			return rep, 0, nil
		}
		rep.Body = b[n : n+k]
		n += k
	}
	return
}
