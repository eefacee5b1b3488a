//go:build go1.25

package librtmp

import (
	"bytes"
	"fmt"
	"strings"
	"testing"
	"testing/synctest"

	v "github.com/sbraveyoung/GGmpeg/verif_vlib"
)

// S04: the description of a live stream says what its codec headers say. Every shape of
// configuration within the bounds is published over RTMP; an RTSP client asks for the description
// and an independent reader compares it with the configuration.

func TestVerifS04Describe(t *testing.T) {
	r := v.Start(t)
	defer r.Finish()
	rates := []int{96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000, 7350}
	type video struct {
		desc string
		body []byte
		hevc bool
		sets [3][][]byte //VPS, SPS, PPS
	}
	type audio struct {
		desc  string
		body  []byte
		rate  int
		chans int //0: not said
		cfg   []byte
		opus  bool
	}
	run := func(vs video, as audio) {
		desc := vs.desc + " and " + as.desc
		bad := func(f string, a ...interface{}) {
			r.Violation("s04:describe", desc, "%s: %s", desc, fmt.Sprintf(f, a...))
		}
		r.Journal("S04 %s", desc)
		srv := NewServer(":0", "live")
		p, err := publishRTMP(srv, "live", "x")
		defer p.closeWait()
		if err != nil {
			bad("%v", err)
			return
		}
		p.send(v.Msg{Type: 9, CSID: 6, SID: 1, Payload: vs.body})
		if as.body != nil {
			p.send(v.Msg{Type: 8, CSID: 4, SID: 1, Payload: as.body})
		}
		synctest.Wait()
		k := dialRTSP(srv, synctest.Wait)
		defer func() { k.c.Close(); synctest.Wait() }()
		rep, err := k.do("DESCRIBE", "x", nil, "")
		if err != nil {
			bad("%v", err)
			return
		}
		name, media, err := v.UnSDP(rep.Body)
		if err != nil || name == "" || !strings.HasPrefix(rep.Headers["content-type"], "application/sdp") {
			bad("%v in %q", err, rep.Body)
			return
		}
		want := 1
		if as.body != nil {
			want = 2
		}
		if len(media) != want {
			bad("%d media sections in %q", len(media), rep.Body)
			return
		}
		//every set listed is one of the record's, and the first of each kind is listed
		m := media[0]
		codec, keys := "H264", []string{"sprop-parameter-sets"}
		if vs.hevc {
			codec, keys = "H265", []string{"sprop-vps", "sprop-sps", "sprop-pps"}
		}
		if m.Kind != "video" || !strings.EqualFold(m.Codec, codec) || m.Rate != 90000 {
			bad("video section %+v", m)
			return
		}
		var listed [][]byte
		for i, key := range keys {
			l, err := m.Base64(key)
			if err != nil {
				bad("%v", err)
				return
			}
			for _, n := range l {
				if vs.hevc && !isIn(n, vs.sets[i]) || !isIn(n, vs.sets[0]) && !isIn(n, vs.sets[1]) && !isIn(n, vs.sets[2]) {
					bad("%s lists %x", key, n)
					return
				}
			}
			listed = append(listed, l...)
		}
		for _, s := range vs.sets {
			if len(s) > 0 && !isIn(s[0], listed) {
				bad("the set %x is not in %q", s[0], rep.Body)
				return
			}
		}
		if !vs.hevc {
			if id, want := m.Fmtp["profile-level-id"], fmt.Sprintf("%x", vs.sets[1][0][1:4]); !strings.EqualFold(id, want) {
				bad("profile-level-id %s, want %s", id, want)
				return
			}
		}
		if as.body != nil {
			m = media[1]
			codec = "mpeg4-generic"
			if as.opus {
				codec = "opus"
			}
			if m.Kind != "audio" || !strings.EqualFold(m.Codec, codec) || m.Rate != as.rate || as.chans > 0 && m.Chans != as.chans {
				bad("audio section %+v", m)
				return
			}
			if !as.opus {
				if cfg, err := m.Hex("config"); err != nil || !bytes.Equal(cfg, as.cfg) {
					bad("config %x, want %x", cfg, as.cfg)
					return
				}
			}
		}
		if len(media) > 1 && media[0].Control == media[1].Control {
			bad("both tracks are called %s", m.Control)
			return
		}
		r.Eval(codec, desc)
	}
	//parameter sets of different lengths
	set := func(hdr []byte, seed, n int) []byte { return v.Cat(hdr, v.Fill(seed, n)) }
	avc := func(ns, np, size int) video {
		x := video{desc: fmt.Sprintf("H.264 with %d+%d sets of about %d bytes", ns, np, size)}
		for i := range ns {
			x.sets[1] = append(x.sets[1], set([]byte{0x67, byte(66 + 11*i), byte(i * 64), byte(30 + i)}, i+1, size+i))
		}
		for i := range np {
			x.sets[2] = append(x.sets[2], set([]byte{0x68}, i+9, size/4+1+i))
		}
		x.body = v.Cat([]byte{0x17, 0, 0, 0, 0}, v.AVCRecord(4, x.sets[1], x.sets[2], nil))
		return x
	}
	hevc := func(order []int, count, size int) video {
		x := video{desc: fmt.Sprintf("H.265 with %d of each set in the order %v, about %d bytes", count, order, size), hevc: true}
		for k := range 3 {
			for i := range count {
				x.sets[k] = append(x.sets[k], set([]byte{byte(32+k) << 1, 1}, k*5+i, size+k+i))
			}
		}
		var arrays [][][]byte
		for _, o := range order {
			switch {
			case o == 3:
				arrays = append(arrays, [][]byte{set([]byte{39 << 1, 1}, 3, 20)})
			default:
				arrays = append(arrays, x.sets[o])
			}
		}
		x.body = v.Cat([]byte{0x1c, 0, 0, 0, 0}, v.HEVCRecord(1, 93, arrays...))
		return x
	}
	aac := func(obj, rate, ch int, extra []byte) audio {
		cfg := v.Cat([]byte{byte(obj)<<3 | byte(rate)>>1, byte(rate)<<7 | byte(ch)<<3}, extra)
		chans := ch
		if ch == 7 {
			chans = 8
		}
		return audio{desc: fmt.Sprintf("AAC %x", cfg), body: v.Cat([]byte{0xaf, 0}, cfg), rate: rates[rate], chans: chans, cfg: cfg}
	}
	none := audio{desc: "no audio"}
	opus := audio{desc: "Opus", body: v.Cat([]byte{0xdf, 0}, []byte("OpusHead\x01\x02\x38\x01\x80\xbb\x00\x00\x00\x00\x00")), rate: 48000, chans: 2, opus: true}
	synctest.Test(t, func(t *testing.T) {
		do := func(x video, a audio) {
			if r.Mine() && !r.Expired() {
				r.Guard("s04:", x.desc+a.desc, func() { run(x, a) })
			}
		}
		for obj := 1; obj <= 5; obj++ {
			for rate := range rates {
				for ch := range 8 {
					for _, extra := range [][]byte{nil, {0x56, 0xe5, 0x98}} {
						do(avc(1, 1, 12), aac(obj, rate, ch, extra))
					}
				}
			}
		}
		some := []audio{none, opus, aac(2, 4, 2, nil)}
		for ns := 1; ns <= 4; ns++ {
			for np := 1; np <= 4; np++ {
				for _, size := range []int{3, 6, 9, 12, 100, 251, 252, 253, 254, 300, 1500} {
					for _, a := range some {
						do(avc(ns, np, size), a)
					}
				}
			}
		}
		for _, order := range [][]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}, {3, 0, 1, 2}, {0, 3, 1, 2}, {0, 1, 2, 3}} {
			for count := 1; count <= 3; count++ {
				for _, size := range []int{1, 10, 251, 252, 253, 254, 400} {
					for _, a := range some {
						do(hevc(order, count, size), a)
					}
				}
			}
		}
	})
	r.Note("descriptions of live streams: every AAC object type 1-5, sampling rate and channel configuration, Opus, none; 1-4 sequence and picture parameter sets of H.264 and 1-3 of each set of H.265 in every order, of several sizes")
}

func isIn(n []byte, l [][]byte) bool {
	for _, x := range l {
		if bytes.Equal(x, n) {
			return true
		}
	}
	return false
}
