//go:build go1.25

package libflv

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"testing"

	"github.com/sbraveyoung/GGmpeg/libamf"
	v "github.com/sbraveyoung/GGmpeg/verif_vlib"
)

func TestV_F01(t *testing.T) {
	r := v.Start(t)
	defer r.Finish()

	written := func(desc string, tag Tag, typ uint8, ts uint32, body []byte) {
		r.Guard("f01:", desc, func() {
			b := FLVWrite(tag)
			k := fmt.Sprintf("f01:flvwrite:%d:", typ)
			if len(b) != 11+len(body)+4 {
				r.Violation(k+"length", desc, "tag of %d body bytes takes %d bytes", len(body), len(b))
				return
			}
			if b[0] != typ {
				r.Violation(k+"type", desc, "tag type %d", b[0])
			}
			if n := int(b[1])<<16 | int(b[2])<<8 | int(b[3]); n != len(body) {
				r.Violation(k+"size", desc, "data size %d of a body of %d", n, len(body))
			}
			if x := uint32(b[7])<<24 | uint32(b[4])<<16 | uint32(b[5])<<8 | uint32(b[6]); x != ts {
				r.Violation(k+"timestamp", desc, "timestamp %#x instead of %#x", x, ts)
			}
			if b[8] != 0 || b[9] != 0 || b[10] != 0 {
				r.Violation(k+"streamid", desc, "stream id %x", b[8:11])
			}
			if !bytes.Equal(b[11:11+len(body)], body) {
				r.Violation(k+"body", desc, "body differs: %x... instead of %x...", b[11:11+min(20, len(body))], body[:min(20, len(body))])
			}
			if n := binary.BigEndian.Uint32(b[11+len(body):]); int(n) != 11+len(body) {
				r.Violation(k+"prevsize", desc, "previous tag size %d of a tag of %d", n, 11+len(body))
			}
		})
	}
	video := func(body []byte, ts uint32) {
		desc := fmt.Sprintf("video %x len %d ts %#x", body[:min(8, len(body))], len(body), ts)
		r.Journal("F01 %s", desc)
		keep := append([]byte(nil), body...)
		r.Guard("f01:", desc, func() {
			tag, err := ParseVideoTag(TagBase{TagType: VIDEO_TAG, TimeStamp: ts, DataSize: uint32(len(body))}, body)
			if err != nil {
				r.Violation("f01:video-parse", desc, "%v", err)
				return
			}
			r.Eval(fmt.Sprintf("video codec %d", body[0]&15), desc)
			if tag.FrameType != body[0]>>4 || tag.CodecID != body[0]&15 {
				r.Violation("f01:video-fields", desc, "frame type %d codec %d", tag.FrameType, tag.CodecID)
			}
			c := body[0] & 15
			rest := body[1:]
			if c == 7 || c == 12 || c == 13 {
				rest = body[5:]
				want := uint32(body[2])<<16 | uint32(body[3])<<8 | uint32(body[4])
				if tag.AVCPacketType != body[1] || tag.Cts&0xffffff != want {
					r.Violation("f01:video-packet", desc, "packet type %d cts %#x", tag.AVCPacketType, tag.Cts)
				}
			}
			if !bytes.Equal(tag.Data(), rest) {
				r.Violation("f01:video-data", desc, "data %d bytes instead of %d", len(tag.Data()), len(rest))
			}
			if tag.GetTagInfo().TimeStamp != ts {
				r.Violation("f01:video-ts", desc, "timestamp %#x", tag.GetTagInfo().TimeStamp)
			}
			if m := tag.Marshal(); !bytes.Equal(m, keep) {
				r.Violation("f01:video-marshal", desc, "marshalled as %x... (%d bytes)", m[:min(8, len(m))], len(m))
			}
			written(desc, tag, 9, ts, keep)
		})
		//the body is attached to tags shared by all viewers
		if !bytes.Equal(keep, body) {
			r.Violation("f01:video-mutated", desc, "the parsed body was changed")
		}
	}
	audio := func(body []byte, ts uint32) {
		desc := fmt.Sprintf("audio %x len %d ts %#x", body[:min(8, len(body))], len(body), ts)
		r.Journal("F01 %s", desc)
		keep := append([]byte(nil), body...)
		r.Guard("f01:", desc, func() {
			tag, err := ParseAudioTag(TagBase{TagType: AUDIO_TAG, TimeStamp: ts, DataSize: uint32(len(body))}, body)
			if err != nil {
				r.Violation("f01:audio-parse", desc, "%v", err)
				return
			}
			r.Eval(fmt.Sprintf("audio format %d", body[0]>>4), desc)
			if tag.SoundFormat != body[0]>>4 || tag.SoundRate != body[0]>>2&3 || tag.SoundSize != body[0]>>1&1 || tag.SoundType != body[0]&1 {
				r.Violation("f01:audio-fields", desc, "%d %d %d %d", tag.SoundFormat, tag.SoundRate, tag.SoundSize, tag.SoundType)
			}
			rest := body[1:]
			if f := body[0] >> 4; f == 10 || f == 13 {
				rest = body[2:]
				if tag.AACPacketType != body[1] {
					r.Violation("f01:audio-packet", desc, "packet type %d", tag.AACPacketType)
				}
			}
			if !bytes.Equal(tag.Data(), rest) {
				r.Violation("f01:audio-data", desc, "data %d bytes instead of %d", len(tag.Data()), len(rest))
			}
			if m := tag.Marshal(); !bytes.Equal(m, keep) {
				r.Violation("f01:audio-marshal", desc, "marshalled as %x... (%d bytes)", m[:min(8, len(m))], len(m))
			}
			written(desc, tag, 8, ts, keep)
		})
		if !bytes.Equal(keep, body) {
			r.Violation("f01:audio-mutated", desc, "the parsed body was changed")
		}
	}

	tss := []uint32{0, 1, 0xff, 0x100, 0xffff, 0x10000, 0xfffffe, 0xffffff, 0x1000000, 0x1000001, 0x7fffffff, 0x80000000, 0x12345678, 0xfffffffe, 0xffffffff}
	ctss := []uint32{0, 1, 40, 0x7fffff, 0x800000, 0x800001, 0xffffff, 0xffffd8, 0x0100ff, 0x80, 0x8000}
	lens := []int{0, 1, 2, 3, 10, 254, 255, 256, 257, 1000, 65519, 65520, 65525, 65530, 65534, 65535, 65536, 65537, 70000}
	//every first byte x every packet type x composition times
	for b0 := 0; b0 < 256; b0++ {
		c := b0 & 15
		typed := c == 7 || c == 12 || c == 13
		for pt := 0; pt < 256; pt++ {
			if !r.Mine() {
				continue
			}
			if !typed {
				video([]byte{byte(b0), byte(pt), byte(pt * 7)}, tss[pt%len(tss)])
				continue
			}
			for i, ct := range ctss {
				if pt > 3 && i > 2 {
					break
				}
				video(append([]byte{byte(b0), byte(pt), byte(ct >> 16), byte(ct >> 8), byte(ct)}, v.Fill(b0, 9)...), tss[(pt+i)%len(tss)])
			}
		}
		for _, n := range lens {
			if r.Mine() {
				body := append([]byte{byte(b0)}, v.Fill(n, n)...)
				if typed {
					body = append([]byte{byte(b0), 1, 0, 0, 40}, v.Fill(n, n)...)
				}
				video(body, 0x01020304)
				body = append([]byte{byte(b0)}, v.Fill(n, n)...)
				if f := b0 >> 4; f == 10 || f == 13 {
					body = append([]byte{byte(b0), 1}, v.Fill(n, n)...)
				}
				audio(body, 0x01020304)
			}
		}
		for pt := 0; pt < 256; pt++ {
			if r.Mine() {
				audio([]byte{byte(b0), byte(pt), 0x12, 0x10}, tss[pt%len(tss)])
			}
		}
	}
	//every composition time with one, two or all bits set or cleared, and every timestamp likewise
	var words []uint32
	for i := uint(0); i < 32; i++ {
		words = append(words, 1<<i, ^uint32(1<<i), 1<<i-1)
		for j := uint(0); j < i; j++ {
			words = append(words, 1<<i|1<<j)
		}
	}
	for _, w := range words {
		if r.Mine() {
			video([]byte{0x27, 1, byte(w >> 16), byte(w >> 8), byte(w), 1, 2, 3}, w)
			audio([]byte{0xaf, 1, 1, 2, 3}, w)
		}
	}
	if !r.Quick() {
		for w := uint32(0); w < 1<<24; w++ {
			if !r.Mine() {
				continue
			}
			if w&0xfff == 0 && r.Expired() {
				break
			}
			video([]byte{0x27, 1, byte(w >> 16), byte(w >> 8), byte(w), 7}, w<<8|w>>16)
		}
	}
	for _, n := range []int{1 << 20, 1<<24 - 6} {
		if r.Mine() {
			video(append([]byte{0x17, 1, 0, 0, 0}, v.Fill(n, n)...), 5)
			audio(append([]byte{0xaf, 1}, v.Fill(n, n)...), 5)
		}
	}

	//metadata
	vals := []interface{}{1.0, -1.5, true, false, "", "text", nil, v.Undef{}, v.Date{MS: 1e12}, v.Obj{{K: "x", V: 1.0}}, v.ECMA{{K: "x", V: "y"}}, v.Arr{1.0, "z"}, v.Obj{}}
	keys := []string{"width", "height", "duration", "framerate", "videocodecid", "audiocodecid", "stereo", "encoder", "custom", "audiochannels", "filesize", "level", "raw", "TagBase", "SecondField"}
	meta := func(pre []interface{}, props interface{}, ts uint32) {
		body := v.AMF(append(append([]interface{}{}, pre...), "onMetaData", props)...)
		plain := v.AMF("onMetaData", props)
		desc := fmt.Sprintf("metadata %v %v", pre, props)
		r.Journal("F01 %s", desc)
		r.Guard("f01:", desc, func() {
			tag, err := ParseMetaTag(TagBase{TagType: SCRIPT_DATA_TAG, TimeStamp: ts}, libamf.AMF0, body)
			if err != nil || tag == nil {
				r.Violation("f01:meta-parse", desc, "%v", err)
				return
			}
			r.Eval("metadata", desc)
			m := tag.Marshal()
			if !bytes.Equal(m, plain) {
				r.Violation("f01:meta-marshal", desc, "%x marshalled as %x", plain, m)
			}
			if tag.GetTagInfo().TimeStamp != ts {
				r.Violation("f01:meta-ts", desc, "timestamp %#x", tag.GetTagInfo().TimeStamp)
			}
			written(desc, tag, 18, ts, m)
		})
	}
	for _, pre := range [][]interface{}{nil, {"@setDataFrame"}} {
		for i, k := range keys {
			for j, x := range vals {
				if !r.Mine() {
					continue
				}
				meta(pre, v.ECMA{{K: k, V: x}}, tss[(i+j)%len(tss)])
				meta(pre, v.Obj{{K: k, V: x}, {K: "zz", V: 3.0}}, tss[(i+j)%len(tss)])
				for k2 := range keys {
					if k2 != i {
						meta(pre, v.ECMA{{K: keys[k2], V: vals[(j+k2)%len(vals)]}, {K: k, V: x}}, 9)
					}
				}
			}
		}
		meta(pre, v.ECMA{}, 0)
		meta(pre, v.ECMAN{N: 0, P: []v.KV{{K: "width", V: 5.0}, {K: "height", V: 6.0}}}, 0)
		meta(pre, v.Obj{}, 0)
	}
	//a tag built by the server itself
	mt := &MetaTag{TagBase: TagBase{TagType: SCRIPT_DATA_TAG, TimeStamp: 0x01000002}, Width: 1920, Height: 1080, Encoder: "e", VideoCodecID: 7, Stereo: true, FrameRate: 25}
	r.Guard("f01:", "built metadata", func() {
		m := mt.Marshal()
		got, err := v.UnAMF(m)
		r.Eval("built metadata", "built")
		if err != nil || len(got) != 2 || got[0] != "onMetaData" {
			r.Violation("f01:meta-built", "built", "%v %v", got, err)
			return
		}
		get := func(k string) interface{} {
			switch o := got[1].(type) {
			case v.Obj:
				return o.Get(k)
			case v.ECMA:
				return v.Obj(o).Get(k)
			}
			return nil
		}
		for k, want := range map[string]interface{}{"width": 1920.0, "height": 1080.0, "encoder": "e", "videocodecid": 7.0, "stereo": true, "framerate": 25.0, "duration": 0.0} {
			if get(k) != want {
				r.Violation("f01:meta-built-"+k, "built", "%s is %v", k, get(k))
			}
		}
		if b := FLVWrite(mt); !(len(b) > 11 && b[0] == 18 && b[7] == 1 && b[6] == 2) {
			r.Violation("f01:meta-built-tag", "built", "%x", b[:11])
		}
	})
	r.Note("video: all 256 first bytes x 256 packet types, %d composition times, %d timestamps, body lengths %v and 1 MB, 16 MB; audio likewise", len(ctss), len(tss)+len(words), lens)
	r.Note("thorough: every 24-bit composition time")
	r.Note("metadata: %d names x %d values, pairs of names, ECMA arrays and objects, with and without @setDataFrame", len(keys), len(vals))
}
