//go:build go1.25

package librtsp

import (
	"bufio"
	"bytes"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"io"
	"strings"
	"testing"

	v "github.com/sbraveyoung/GGmpeg/verif_vlib"
)

// cutReader hands out the pieces of b ending at the given offsets.
type cutReader struct {
	b    []byte
	cuts []int
	pos  int
}

func (c *cutReader) Read(p []byte) (int, error) {
	if c.pos == len(c.b) {
		return 0, io.EOF
	}
	e := len(c.b)
	for _, x := range c.cuts {
		if x > c.pos && x < e {
			e = x
		}
	}
	n := copy(p, c.b[c.pos:e])
	c.pos += n
	return n, nil
}

func TestV_S04Message(t *testing.T) {
	r := v.Start(t)
	defer r.Finish()
	type hd struct{ k, v string }
	type reqst struct {
		method, url string
		h           []hd
		body        []byte
	}
	methods := []string{"OPTIONS", "DESCRIBE", "ANNOUNCE", "SETUP", "PLAY", "PAUSE", "TEARDOWN", "GET_PARAMETER", "RECORD", "X-custom"}
	urls := []string{"*", "rtsp://h/live/x", "rtsp://h:8554/live/x/trackID=0", "rtsp://[::1]:554/a/b?x=1&y=a:b", "/live/x"}
	heads := []hd{{"CSeq", "17"}, {"Session", "12345678;timeout=60"}, {"Transport", "RTP/AVP/TCP;unicast;interleaved=0-1"}, {"User-Agent", "a: b, c (d; e)"}, {"X-Empty", ""}, {"Content-Type", "application/sdp"}}
	cases := []func(string) string{func(s string) string { return s }, strings.ToLower, strings.ToUpper, func(s string) string {
		b := []byte(s)
		for i := range b {
			if i%2 == 0 {
				b[i] = strings.ToUpper(string(b[i]))[0]
			} else {
				b[i] = strings.ToLower(string(b[i]))[0]
			}
		}
		return string(b)
	}}
	seps := []string{": ", ":", ":   ", ": \t"}
	eols := []string{"\r\n", "\n"}
	text := func(q reqst, cs int, sep, eol string, lenAt int) []byte {
		var sb strings.Builder
		sb.WriteString(q.method + " " + q.url + " RTSP/1.0" + eol)
		hs := append([]hd{}, q.h...)
		if q.body != nil {
			at := min(lenAt, len(hs))
			hs = append(hs[:at:at], append([]hd{{"Content-Length", fmt.Sprint(len(q.body))}}, hs[at:]...)...)
		}
		for _, h := range hs {
			sb.WriteString(cases[cs](h.k) + sep + h.v + eol)
		}
		sb.WriteString(eol)
		return append([]byte(sb.String()), q.body...)
	}
	check := func(desc string, q reqst, got *Request, err error) bool {
		if err != nil {
			r.Violation("s04:request-refused", desc, "%s: %v", desc, err)
			return false
		}
		if got.Method != q.method || got.URL != q.url || got.Version != "RTSP/1.0" {
			r.Violation("s04:request-line", desc, "%s: %q %q %q", desc, got.Method, got.URL, got.Version)
			return false
		}
		n := len(q.h)
		if q.body != nil {
			n++
		}
		for _, h := range q.h {
			for _, f := range cases {
				if g := got.Headers.Get(f(h.k)); g != h.v {
					r.Violation("s04:request-header", desc, "%s: %s is %q, not %q", desc, h.k, g, h.v)
					return false
				}
			}
		}
		if len(got.Headers) != n {
			r.Violation("s04:request-headers", desc, "%s: %d headers: %v", desc, len(got.Headers), got.Headers)
			return false
		}
		if !bytes.Equal(got.Body, q.body) {
			r.Violation("s04:request-body", desc, "%s: body of %d bytes, not %d", desc, len(got.Body), len(q.body))
			return false
		}
		return true
	}
	next := reqst{method: "OPTIONS", url: "*", h: []hd{{"CSeq", "18"}}}
	run := func(desc string, q reqst, raw []byte, cuts []int) {
		r.Guard("s04:", desc, func() {
			src := append(bytes.Clone(raw), text(next, 0, ": ", "\r\n", 0)...)
			br := bufio.NewReader(&cutReader{b: src, cuts: cuts})
			g, err := ReadRequest(br)
			if !check(desc, q, g, err) {
				return
			}
			g, err = ReadRequest(br)
			if !check(desc+" (next)", next, g, err) {
				return
			}
			if _, err := ReadRequest(br); err == nil {
				r.Violation("s04:request-invented", desc, "%s: a request after the last", desc)
			}
		})
	}
	bodies := [][]byte{nil, {}, []byte("v=0\r\n"), v.Fill(3, 300), v.Fill(4, 5000)}
	bodies[3][7], bodies[3][8], bodies[3][9] = '\r', '\n', '$'
	for mi, m := range methods {
		for _, u := range urls {
			for cs := range cases {
				for _, sep := range seps {
					for _, eol := range eols {
						for bi, body := range bodies {
							if !r.Mine() {
								continue
							}
							q := reqst{m, u, heads[:1+(mi+bi)%len(heads)], body}
							desc := fmt.Sprintf("%s %s case %d sep %q eol %q body %d", m, u, cs, sep, eol, len(body))
							r.Eval(fmt.Sprintf("body %d", bi), desc)
							run(desc, q, text(q, cs, sep, eol, mi%3), nil)
						}
					}
				}
			}
		}
	}
	//header subsets in every order
	v.Sequences(len(heads), 0, r.Pick(4, 6), func(s []int) bool {
		dup := map[int]bool{}
		for _, x := range s {
			if dup[x] {
				return true
			}
			dup[x] = true
		}
		if !r.Mine() {
			return true
		}
		var hs []hd
		for _, x := range s {
			hs = append(hs, heads[x])
		}
		for at := 0; at <= len(hs); at++ {
			q := reqst{"ANNOUNCE", "rtsp://h/live/x", hs, bodies[2]}
			desc := fmt.Sprintf("headers %v, length at %d", hs, at)
			r.Eval("header order", desc)
			run(desc, q, text(q, 0, ": ", "\r\n", at), nil)
		}
		return true
	})
	//segmentation: every pair of cuts, and byte by byte
	q := reqst{"ANNOUNCE", "rtsp://h/live/x", heads[:3], bodies[2]}
	raw := text(q, 0, ": ", "\r\n", 1)
	all := []int{}
	for i := 1; i < len(raw)+40; i++ {
		all = append(all, i)
	}
	run("byte by byte", q, raw, all)
	for i := 1; i <= len(raw)+2; i++ {
		for j := i; j <= len(raw)+2; j++ {
			if j > i && j%r.Pick(5, 1) != 0 {
				continue
			}
			if r.Mine() {
				r.Eval("segmentation", fmt.Sprint("cuts", i, j))
				run(fmt.Sprintf("cut at %d and %d", i, j), q, raw, []int{i, j})
			}
		}
	}
	//lengths that cannot be true are refused, not waited for or acted on
	for _, cl := range []string{"-1", "x", "9999999999999999999999", "1 2", "0x10", "-9223372036854775808", "4611686018427387904"} {
		if r.Mine() {
			r.Eval("bad length", cl)
			r.Guard("s04:", cl, func() {
				if g, err := ReadRequest(bufio.NewReader(strings.NewReader("ANNOUNCE rtsp://h/a/b RTSP/1.0\r\nCSeq: 1\r\nContent-Length: " + cl + "\r\n\r\nbody"))); err == nil {
					r.Violation("s04:length", cl, "Content-Length %q accepted: %d bytes", cl, len(g.Body))
				}
			})
		}
	}
	//every proper prefix is refused
	for i := 0; i < len(raw); i++ {
		if r.Mine() {
			r.Eval("prefix", fmt.Sprint("prefix", i))
			r.Guard("s04:", fmt.Sprint("prefix ", i), func() {
				if _, err := ReadRequest(bufio.NewReader(bytes.NewReader(raw[:i]))); err == nil {
					r.Violation("s04:prefix", i, "the first %d of %d bytes pass for a request", i, len(raw))
				}
			})
		}
	}

	//responses
	type st struct {
		code   int
		reason string
	}
	for _, s := range []st{{200, "OK"}, {404, "Not Found"}, {455, "Method Not Valid In This State"}, {501, "Not Implemented"}} {
		for mask := 0; mask < 1<<len(heads); mask++ {
			for bi, body := range bodies {
				for own := 0; own < 2; own++ {
					if !r.Mine() {
						continue
					}
					desc := fmt.Sprintf("response %d headers %b body %d own length %d", s.code, mask, len(body), own)
					r.Guard("s04:", desc, func() {
						resp := &Response{StatusCode: s.code, Reason: s.reason, Body: body}
						want := map[string]string{}
						if mask > 0 || own > 0 {
							resp.Headers = Headers{}
						}
						for i, h := range heads {
							if mask>>i&1 == 1 {
								resp.Headers.Set(cases[i%len(cases)](h.k), h.v)
								want[strings.ToLower(h.k)] = h.v
							}
						}
						if own == 1 {
							resp.Headers.Set("content-length", fmt.Sprint(len(body)))
						}
						b := resp.Bytes()
						rep, n, err := v.UnRTSP(append(bytes.Clone(b), "RTSP/1.0 200 OK\r\n\r\n"...))
						r.Eval(fmt.Sprintf("response body %d", bi), desc)
						if err != nil || n != len(b) {
							r.Violation("s04:response", desc, "%s: %v, %d of %d bytes", desc, err, n, len(b))
							return
						}
						delete(rep.Headers, "content-length")
						if rep.Status != s.code || rep.Reason != s.reason || fmt.Sprint(rep.Headers) != fmt.Sprint(want) || !bytes.Equal(rep.Body, body) {
							r.Violation("s04:response-content", desc, "%s: %d %q %v body %d", desc, rep.Status, rep.Reason, rep.Headers, len(rep.Body))
						}
					})
				}
			}
		}
	}
	r.Note("%d methods x %d URLs x header spellings, separators, line ends and bodies; every order of up to %d headers; every pair of TCP cuts; impossible lengths; every prefix; responses with every header subset", len(methods), len(urls), r.Pick(4, 6))
}

func TestV_S04SDP(t *testing.T) {
	r := v.Start(t)
	defer r.Finish()
	b64 := base64.StdEncoding.EncodeToString
	sps := [][]byte{{0x67, 0x42, 0xc0, 0x1e, 0xdb}, {0x67, 0x64, 0, 0x28, 0xac, 0xd9}, v.Cat([]byte{0x27, 0x4d, 0x40, 0x1f}, v.Fill(1, 30))}
	pps := [][]byte{{0x68, 0xce, 0x06, 0xe2}, {0x68, 0xee}, {0x28, 0xde, 0x09, 0x88, 0x11}}
	type sec struct {
		kind        string //as the parser should take it: "h264", "aac", "" for a section to be ignored
		text        []string
		control     string
		sps, pps    []byte
		config      []byte
		rate, chans int
		pt          int
	}
	join := func(order int, groups ...[]string) (out []string) {
		//attribute lines in one of several orders
		var flat []string
		for _, g := range groups {
			flat = append(flat, g...)
		}
		n := len(flat)
		for i := 0; i < n; i++ {
			out = append(out, flat[(i+order)%n])
		}
		return
	}
	var secs []sec
	controls := []string{"trackID=0", "streamid=1", "rtsp://h/live/x/video", "track/2", ""}
	nv := 0
	for si, s := range sps {
		for form := 0; form < 5; form++ {
			for order := 0; order < 4; order++ {
				x := sec{kind: "h264", control: controls[nv%len(controls)], sps: s, pps: pps[si], pt: 96 + nv%32}
				nv++
				sets := b64(s) + "," + b64(pps[si])
				name := "H264"
				sep := ";"
				switch form {
				case 1:
					name = "h264"
					sep = "; "
				case 2:
					sets = b64(s) + "," + b64(pps[si]) + "," + b64(pps[(si+1)%3])
				case 3:
					sets = b64(pps[si]) + "," + b64(s)
				case 4:
					sets = b64(s) + "," + b64(sps[(si+1)%3]) + "," + b64(pps[si])
				}
				f := fmt.Sprintf("a=fmtp:%d packetization-mode=1%sprofile-level-id=%02X%02X%02X%ssprop-parameter-sets=%s", x.pt, sep, s[1], s[2], s[3], sep, sets)
				if order == 2 {
					f = fmt.Sprintf("a=fmtp:%d sprop-parameter-sets=%s%spacketization-mode=1", x.pt, sets, sep)
				}
				if form == 4 && order == 1 {
					f += ";"
				}
				attrs := []string{fmt.Sprintf("a=rtpmap:%d %s/90000", x.pt, name), f}
				if x.control != "" {
					attrs = append(attrs, "a=control:"+x.control)
				}
				attrs = append(attrs, "a=framerate:25", "b=AS:1000")
				x.text = append([]string{fmt.Sprintf("m=video %d RTP/AVP %d", 5000*(form%2), x.pt)}, join(order, attrs)...)
				secs = append(secs, x)
			}
		}
	}
	na := 0
	for _, cfg := range []string{"1210", "1190", "119056E500", "0A10", "12100000"} {
		for form := 0; form < 4; form++ {
			c, _ := hex.DecodeString(cfg)
			x := sec{kind: "aac", control: controls[(na+1)%len(controls)], config: c, rate: []int{44100, 48000, 8000, 96000}[na%4], chans: 2, pt: 97 + na%30}
			na++
			name, h := "mpeg4-generic", cfg
			tail := "/2"
			switch form {
			case 1:
				name, h = "MPEG4-GENERIC", strings.ToLower(cfg)
			case 2:
				tail, x.chans = "", 1
			case 3:
				tail, x.chans = "/6", 6
			}
			attrs := []string{fmt.Sprintf("a=rtpmap:%d %s/%d%s", x.pt, name, x.rate, tail),
				fmt.Sprintf("a=fmtp:%d streamtype=5;profile-level-id=1;mode=AAC-hbr;sizelength=13;indexlength=3;indexdeltalength=3;config=%s", x.pt, h)}
			if form == 1 {
				attrs[1] = fmt.Sprintf("a=fmtp:%d profile-level-id=1; mode=AAC-hbr; config=%s; SizeLength=13; IndexLength=3; IndexDeltaLength=3", x.pt, h)
			}
			if x.control != "" {
				attrs = append(attrs, "a=control:"+x.control)
			}
			x.text = append([]string{fmt.Sprintf("m=audio 0 RTP/AVP %d", x.pt)}, join(na, attrs)...)
			secs = append(secs, x)
		}
	}
	other := []sec{
		{text: []string{"m=application 0 RTP/AVP 107", "a=rtpmap:107 vnd.onvif.metadata/90000", "a=control:trackID=9"}},
		{text: []string{"m=text 0 RTP/AVP 98", "a=fmtp:98 sprop-parameter-sets=AAAA,BBBB;config=1234", "a=control:t"}},
	}
	unsupported := []sec{
		{kind: "-video", text: []string{"m=video 0 RTP/AVP 96", "a=rtpmap:96 H265/90000", "a=fmtp:96 sprop-vps=QAE=;sprop-sps=QgE=;sprop-pps=RAE=", "a=control:trackID=0"}},
		{kind: "-video", text: []string{"m=video 0 RTP/AVP 26", "a=control:trackID=0"}},
		{kind: "-audio", text: []string{"m=audio 0 RTP/AVP 97", "a=rtpmap:97 opus/48000/2", "a=control:trackID=1"}},
		{kind: "-audio", text: []string{"m=audio 0 RTP/AVP 0", "a=control:trackID=1"}},
	}
	heads := [][]string{
		{"v=0", "o=- 0 0 IN IP4 127.0.0.1", "s=No Name", "c=IN IP4 0.0.0.0", "t=0 0", "a=tool:x"},
		{"v=0", "o=- 1 1 IN IP6 ::1", "s= ", "i=info", "u=http://x/", "t=0 0", "a=control:*", "a=range:npt=0-", "a=fmtp:96 sprop-parameter-sets=AAAA,BBBB;config=1111"},
		{"v=0", "s=a=b:c", "t=0 0"},
	}
	parse := func(parts []sec, hi int, eol string, last bool) {
		var lines []string
		lines = append(lines, heads[hi]...)
		var video, audio *sec
		var vdone, adone bool
		desc := ""
		for i := range parts {
			lines = append(lines, parts[i].text...)
			switch parts[i].kind {
			case "h264":
				if !vdone {
					video, vdone = &parts[i], true
				}
			case "aac":
				if !adone {
					audio, adone = &parts[i], true
				}
			case "-video":
				vdone = true
			case "-audio":
				adone = true
			}
		}
		s := strings.Join(lines, eol)
		if last {
			s += eol
		}
		desc = strings.ReplaceAll(s, "\r\n", "|")
		desc = strings.ReplaceAll(desc, "\n", "¦")
		r.Guard("s04:", desc, func() {
			bad := func(key, f string, a ...interface{}) {
				r.Violation("s04:"+key, desc, "%s: %s", desc, fmt.Sprintf(f, a...))
			}
			p, err := ParseSDP([]byte(s))
			if video == nil && audio == nil {
				r.Eval("nothing supported", desc)
				if err == nil && (p.HasVideo || p.HasAudio) {
					bad("sdp-unsupported", "video %v audio %v", p.HasVideo, p.HasAudio)
				}
				return
			}
			if err != nil {
				bad("sdp-refused", "%v", err)
				return
			}
			r.Eval(fmt.Sprintf("video %v audio %v", video != nil, audio != nil), desc)
			if p.HasVideo != (video != nil) || p.HasAudio != (audio != nil) {
				bad("sdp-tracks", "video %v audio %v", p.HasVideo, p.HasAudio)
				return
			}
			if video != nil && (int(p.VideoPayloadType) != video.pt || p.VideoControl != video.control || !bytes.Equal(p.SPS, video.sps) || !bytes.Equal(p.PPS, video.pps)) {
				bad("sdp-video", "type %d control %q SPS %x PPS %x", p.VideoPayloadType, p.VideoControl, p.SPS, p.PPS)
			}
			if audio != nil && (int(p.AudioPayloadType) != audio.pt || p.AudioControl != audio.control || !bytes.Equal(p.AudioConfig, audio.config) || p.AudioRate != audio.rate || p.AudioChans != audio.chans) {
				bad("sdp-audio", "type %d control %q config %x rate %d channels %d", p.AudioPayloadType, p.AudioControl, p.AudioConfig, p.AudioRate, p.AudioChans)
			}
		})
	}
	every := append(append(append([]sec{}, secs...), other...), unsupported...)
	for hi := range heads {
		for _, eol := range []string{"\r\n", "\n"} {
			for _, last := range []bool{true, false} {
				for _, a := range every {
					if r.Mine() {
						parse([]sec{a}, hi, eol, last)
					}
					for _, b := range every {
						if r.Mine() {
							parse([]sec{a, b}, hi, eol, last)
						}
					}
				}
			}
		}
	}
	if !r.Quick() {
		for _, a := range every {
			for _, b := range append(secs[:8:8], append(other, unsupported...)...) {
				for _, c := range every {
					if r.Mine() {
						parse([]sec{a, b, c}, 0, "\r\n", true)
					}
					if r.Expired() {
						r.Capped("three media sections")
						return
					}
				}
			}
		}
	}

	//descriptions produced
	ascs := [][]byte{{0x12, 0x10}, {0x11, 0x90}, {0x13, 0x90, 0x56, 0xe5, 0x00}}
	for _, hevc := range []bool{false, true} {
		for _, s := range sps {
			for _, p := range pps {
				for _, vid := range []bool{true, false} {
					for aud := 0; aud < 3; aud++ {
						for _, asc := range ascs {
							for _, rate := range []int{8000, 44100, 48000, 96000} {
								for ch := 1; ch <= 2; ch++ {
									if !vid && aud == 0 || !r.Mine() {
										continue
									}
									q := SDPParams{StreamID: "a b-1", HasVideo: vid, HasAudio: aud > 0, IsHEVC: hevc, VPS: v.Fill(2, 23), SPS: s, PPS: p, IsOpus: aud == 2, AudioConfig: asc, AudioRate: rate, AudioChans: ch}
									desc := fmt.Sprintf("%+v", q)
									r.Guard("s04:", desc, func() {
										bad := func(key, f string, a ...interface{}) {
											r.Violation("s04:"+key, desc, "%s: %s", desc, fmt.Sprintf(f, a...))
										}
										b := BuildSDP(q)
										name, ms, err := v.UnSDP(b)
										if err != nil || name != "a b-1" {
											bad("built", "%v in %q", err, b)
											return
										}
										r.Eval(fmt.Sprintf("built %d", len(ms)), desc)
										k := 0
										if vid {
											if len(ms) == 0 || ms[0].Kind != "video" || ms[0].Rate != 90000 || ms[0].Proto != "RTP/AVP" || ms[0].PT < 96 || ms[0].Control == "" {
												bad("built-video", "%q", b)
												return
											}
											m := ms[0]
											k++
											if hevc {
												x, e1 := m.Base64("sprop-vps")
												y, e2 := m.Base64("sprop-sps")
												z, e3 := m.Base64("sprop-pps")
												if m.Codec != "H265" || e1 != nil || e2 != nil || e3 != nil || !sameUnits(x, [][]byte{q.VPS}) || !sameUnits(y, [][]byte{s}) || !sameUnits(z, [][]byte{p}) {
													bad("built-hevc", "%q", b)
												}
											} else {
												x, e1 := m.Base64("sprop-parameter-sets")
												if m.Codec != "H264" || e1 != nil || !sameUnits(x, [][]byte{s, p}) || m.Fmtp["packetization-mode"] != "1" || !strings.EqualFold(m.Fmtp["profile-level-id"], fmt.Sprintf("%02X%02X%02X", s[1], s[2], s[3])) {
													bad("built-h264", "%q", b)
												}
											}
										}
										if aud > 0 {
											if len(ms) != k+1 {
												bad("built-audio", "%d sections: %q", len(ms), b)
												return
											}
											m := ms[k]
											k++
											if m.Kind != "audio" || m.Proto != "RTP/AVP" || m.PT < 96 || m.Control == "" || vid && (m.PT == ms[0].PT || m.Control == ms[0].Control) {
												bad("built-audio", "%q", b)
												return
											}
											if aud == 2 {
												if m.Codec != "opus" || m.Rate != 48000 || m.Chans != 2 || (m.Fmtp["sprop-stereo"] == "1") != (ch == 2) {
													bad("built-opus", "%q", b)
												}
											} else if c, err := m.Hex("config"); err != nil || !bytes.Equal(c, asc) || !strings.EqualFold(m.Codec, "mpeg4-generic") || m.Rate != rate || m.Chans != ch || m.Fmtp["mode"] != "AAC-hbr" || m.Fmtp["sizelength"] != "13" || m.Fmtp["indexlength"] != "3" || m.Fmtp["indexdeltalength"] != "3" {
												bad("built-aac", "%q", b)
											}
										}
										if len(ms) != k {
											bad("built-extra", "%d sections: %q", len(ms), b)
										}
										//and by this library
										back, err := ParseSDP(b)
										wantV, wantA := vid && !hevc, aud == 1
										if !wantV && !wantA {
											return
										}
										if err != nil || back.HasVideo != wantV || back.HasAudio != wantA {
											bad("reparsed", "%v %+v", err, back)
											return
										}
										if wantV && (!bytes.Equal(back.SPS, s) || !bytes.Equal(back.PPS, p)) || wantA && (!bytes.Equal(back.AudioConfig, asc) || back.AudioRate != rate || back.AudioChans != ch) {
											bad("reparsed-content", "%+v", back)
										}
									})
								}
							}
						}
					}
				}
			}
		}
	}
	r.Note("every pair (thorough: triple) of %d media sections (H.264 and AAC in every stated spelling, other media, unsupported codecs) under %d session parts; produced descriptions over codec, parameter set, configuration, rate and channel grids", len(every), len(heads))
}
