//go:build go1.25

package libhls

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"time"

	"github.com/sbraveyoung/GGmpeg/libflv"
	v "github.com/sbraveyoung/GGmpeg/verif_vlib"
)

// hlsTags feeds tags to a segmenter and calls hook before each of them and before the end.
type hlsTags struct {
	tags []libflv.Tag
	i    int
	hook func(next int)
}

func (d *hlsTags) Read() (interface{}, bool) {
	if d.hook != nil {
		d.hook(d.i)
	}
	if d.i >= len(d.tags) {
		return nil, false
	}
	d.i++
	return d.tags[d.i-1], true
}

const aud = "\x09\xf0"

type hAVC struct {
	sps, pps [][]byte
	lenSize  int
	vps      [][]byte //H.265 if there are any
}

func (c hAVC) hevc() bool { return c.vps != nil }

// typ is the type of a NAL unit, in terms of H.264.
func (c hAVC) typ(n []byte) byte {
	if !c.hevc() {
		return n[0] & 31
	}
	switch t := n[0] >> 1 & 63; t {
	case 32, 33:
		return 7
	case 34:
		return 8
	case 35:
		return 9
	default:
		return t | 0x80
	}
}

// nal turns a unit of H.264 into the unit of the stream's codec.
func (c hAVC) nal(n []byte) []byte {
	if !c.hevc() {
		return n
	}
	t := map[byte]byte{5: 19, 1: 1, 6: 39, 7: 33, 8: 34, 9: 35}[n[0]&31]
	return append([]byte{t << 1, 1}, n[1:]...)
}

func (c hAVC) sets() (out [][]byte) {
	return append(append(append(out, c.vps...), c.sps...), c.pps...)
}

func (c hAVC) record() []byte {
	if c.hevc() {
		b := v.Cat([]byte{1, 1, 0x60, 0, 0, 0, 0x90, 0, 0, 0, 0, 0, 93, 0xf0, 0, 0xfc, 0xfd, 0xf8, 0xf8, 0, 0}, []byte{0x0c | byte(c.lenSize-1), 3})
		for i, l := range [][][]byte{c.vps, c.sps, c.pps} {
			b = append(b, 0x80|byte(32+i), 0, byte(len(l)))
			for _, s := range l {
				b = append(append(b, byte(len(s)>>8), byte(len(s))), s...)
			}
		}
		return b
	}
	b := []byte{1, c.sps[0][1], c.sps[0][2], c.sps[0][3], 0xfc | byte(c.lenSize-1), 0xe0 | byte(len(c.sps))}
	for _, s := range c.sps {
		b = append(append(b, byte(len(s)>>8), byte(len(s))), s...)
	}
	b = append(b, byte(len(c.pps)))
	for _, s := range c.pps {
		b = append(append(b, byte(len(s)>>8), byte(len(s))), s...)
	}
	return b
}

var (
	hAVC1  = hAVC{[][]byte{{0x67, 0x42, 0xc0, 0x1e, 0x91, 0x40}}, [][]byte{{0x68, 0xce, 0x06, 0xe2}}, 4, nil}
	hAVC2  = hAVC{[][]byte{{0x67, 0x64, 0x00, 0x28, 0xac, 0xd9, 0x40}, {0x67, 0x42, 0xc0, 0x1e, 0x95}}, [][]byte{{0x68, 0xeb, 0xe3}, {0x68, 0xcf}}, 2, nil}
	hHEVC1 = hAVC{[][]byte{{0x42, 1, 1, 1, 0x60, 0x91, 0x40}}, [][]byte{{0x44, 1, 0xc1, 0x72}}, 4, [][]byte{{0x40, 1, 0x0c, 1, 0x95}}}
	hHEVC2 = hAVC{[][]byte{{0x42, 1, 1, 2, 0x60, 0x93}, {0x42, 1, 1, 3, 0x61}}, [][]byte{{0x44, 1, 0xc2}, {0x44, 1, 0xc3, 0x99}}, 2, [][]byte{{0x40, 1, 0x0d, 1}}}
)

func hVideo(ts uint32, ft, pt uint8, cts int32, body []byte) *libflv.VideoTag {
	return &libflv.VideoTag{TagBase: libflv.TagBase{TagType: libflv.VIDEO_TAG, TimeStamp: ts, DataSize: uint32(5 + len(body))},
		FrameType: ft, CodecID: libflv.FLV_VIDEO_AVC, AVCPacketType: pt, Cts: uint32(cts), VideoData: body}
}

func hAudio(ts uint32, pt uint8, body []byte) *libflv.AudioTag {
	return &libflv.AudioTag{TagBase: libflv.TagBase{TagType: libflv.AUDIO_TAG, TimeStamp: ts, DataSize: uint32(2 + len(body))},
		SoundFormat: libflv.FLV_AUDIO_AAC, SoundRate: 3, SoundSize: libflv.SND_16_BIT, SoundType: libflv.SND_STEREO, AACPacketType: pt, SoundData: body}
}

// hNAL makes a NAL unit of n bytes that cannot be mistaken for others.
func hNAL(typ byte, seed, n int) []byte {
	b := v.Fill(seed, n)
	for i := range b { //no start codes inside
		b[i] |= 0x11
	}
	b[0] = 0x60 | typ
	if typ == 1 {
		b[0] = 0x41
	}
	return b
}

func hUnit(lenSize int, nals ...[]byte) (b []byte) {
	for _, n := range nals {
		for i := lenSize - 1; i >= 0; i-- {
			b = append(b, byte(len(n)>>(8*i)))
		}
		b = append(b, n...)
	}
	return
}

// hFrame is one published frame as the oracle knows it.
type hFrame struct {
	audio    bool
	ts       uint32
	cts      int32
	key      bool
	nals     [][]byte //without access unit delimiters
	cfg      hAVC
	raw      []byte
	asc      hASC
	desc     string
	required bool
}

type hASC struct{ typ, rate, ch byte }

func (a hASC) bytes() []byte { return []byte{a.typ<<3 | a.rate>>1, a.rate<<7 | a.ch<<3} }

// hScript collects the tags of a stream with what must come out of them.
type hScript struct {
	tags   []libflv.Tag
	frames []hFrame
	cfg    hAVC
	asc    hASC
	ts     uint32
	n      int
	keyed  bool
	sleep  map[int]time.Duration //before this tag
	last   map[int]int           //tag -> frames published up to it
}

func newScript(base uint32) *hScript { return newScriptOf(base, hAVC1) }
func newScriptOf(base uint32, c hAVC) *hScript {
	s := &hScript{ts: base, sleep: map[int]time.Duration{}}
	s.avc(c)
	s.aac(hASC{2, 4, 2})
	return s
}

func (s *hScript) avc(c hAVC) {
	s.cfg = c
	s.tags = append(s.tags, s.codec(hVideo(s.ts, libflv.KEY_FRAME, libflv.AVC_SEQUENCE_HEADER, 0, c.record())))
}

func (s *hScript) codec(t *libflv.VideoTag) *libflv.VideoTag {
	if s.cfg.hevc() {
		t.CodecID = libflv.FLV_VIDEO_HEVC
	}
	return t
}

func (s *hScript) aac(a hASC) {
	s.asc = a
	s.tags = append(s.tags, hAudio(s.ts, libflv.AAC_SEQUENCE_HEADER, a.bytes()))
}

func (s *hScript) video(dt uint32, key bool, cts int32, nals ...[]byte) {
	s.ts += dt
	s.n++
	if key {
		s.keyed = true
	}
	ft := uint8(libflv.INTER_FRAME)
	if key {
		ft = libflv.KEY_FRAME
	}
	f := hFrame{ts: s.ts, cts: cts, key: key, cfg: s.cfg, required: s.keyed, desc: fmt.Sprintf("video #%d at %d", s.n, s.ts)}
	var out [][]byte
	for _, n := range nals {
		if n[0]&31 == 7 && s.cfg.hevc() {
			out = append(out, append([]byte{0x40, 1}, n[1:]...))
		}
		out = append(out, s.cfg.nal(n))
	}
	for _, n := range out {
		if s.cfg.typ(n) != 9 {
			f.nals = append(f.nals, n)
		}
	}
	s.frames = append(s.frames, f)
	s.tags = append(s.tags, s.codec(hVideo(s.ts, ft, libflv.AVC_NALU, cts, hUnit(s.cfg.lenSize, out...))))
}

func (s *hScript) key(dt uint32, size int)              { s.video(dt, true, 0, hNAL(5, s.n, size)) }
func (s *hScript) inter(dt uint32, size int, cts int32) { s.video(dt, false, cts, hNAL(1, s.n, size)) }

func (s *hScript) audio(dt uint32, size int) {
	s.ts += dt
	s.n++
	raw := v.Fill(s.n, size)
	s.frames = append(s.frames, hFrame{audio: true, ts: s.ts, raw: raw, asc: s.asc, required: s.keyed, desc: fmt.Sprintf("audio #%d at %d", s.n, s.ts)})
	s.tags = append(s.tags, hAudio(s.ts, libflv.AAC_RAW, raw))
}

// hSeen is what the world has seen of one stream.
type hSeen struct {
	order []string //listed files in order of their sequence numbers
	seq   map[string]int
	body  map[string][]byte
	dur   map[string]float64
	next  int
	seqno int
}

func newSeen() *hSeen {
	return &hSeen{seq: map[string]int{}, body: map[string][]byte{}, dur: map[string]float64{}}
}

func hDir(dir string) map[string][]byte {
	m := map[string][]byte{}
	es, _ := os.ReadDir(dir)
	for _, e := range es {
		b, _ := os.ReadFile(filepath.Join(dir, e.Name()))
		m[e.Name()] = b
	}
	return m
}

// look checks the playlist and the directory as they are now; bad reports what is wrong.
func (s *hSeen) look(pl []byte, dir string, window int, ll bool, bad func(key, f string, a ...interface{})) (p v.HLSPlaylist) {
	files := hDir(dir)
	unlisted := len(files)
	if pl != nil {
		var err error
		if p, err = v.ParseM3U8(pl); err != nil {
			bad("syntax", "%v in\n%s", err, pl)
			return
		}
		unlisted = len(files) - len(p.Segs)
	} else if s.next > 0 {
		bad("vanished", "no playlist any more")
	}
	if len(p.Segs) > window {
		bad("window", "%d segments listed", len(p.Segs))
	}
	if p.Seq < s.seqno {
		bad("sequence", "media sequence number %d after %d", p.Seq, s.seqno)
	}
	s.seqno = max(s.seqno, p.Seq)
	for _, g := range p.Segs {
		b, ok := files[g.File]
		if !ok {
			bad("missing", "listed segment %q does not exist", g.File)
			continue
		}
		if old, ok := s.body[g.File]; ok {
			if !bytes.Equal(old, b) {
				bad("changed", "listed segment %q went from %d to %d bytes or was rewritten", g.File, len(old), len(b))
			}
			if s.seq[g.File] != g.Seq {
				bad("renumbered", "%q is segment %d, was %d", g.File, g.Seq, s.seq[g.File])
			}
			if s.dur[g.File] != g.Dur {
				bad("duration-changed", "%q lasts %v, was %v", g.File, g.Dur, s.dur[g.File])
			}
			continue
		}
		if g.Seq != s.next {
			bad("gap", "segment %d follows segment %d", g.Seq, s.next-1)
		}
		s.next = g.Seq + 1
		s.order = append(s.order, g.File)
		s.seq[g.File], s.body[g.File], s.dur[g.File] = g.Seq, b, g.Dur
	}
	if len(p.Segs) > 0 && p.Segs[len(p.Segs)-1].Seq != s.next-1 {
		bad("newest", "the newest listed segment is %d, there was %d", p.Segs[len(p.Segs)-1].Seq, s.next-1)
	}
	if want := min(s.next, window); len(p.Segs) != want {
		bad("window", "%d of %d finished segments listed, the window is %d", len(p.Segs), s.next, window)
	}
	if unlisted > 1 {
		bad("leftover", "%d files, %d listed", len(files), len(p.Segs))
	}
	if unlisted == 1 {
		for f := range files {
			if _, old := s.body[f]; old {
				listed := false
				for _, g := range p.Segs {
					listed = listed || g.File == f
				}
				if !listed {
					bad("kept", "%q left the window but still exists", f)
				}
			}
		}
	}
	if ll && pl != nil {
		s.parts(p, files, bad)
	}
	return
}

// parts checks the partial segments of a playlist against the files.
func (s *hSeen) parts(p v.HLSPlaylist, files map[string][]byte, bad func(key, f string, a ...interface{})) {
	tile := func(what, file string, ps []v.HLSPart) int64 {
		off := int64(0)
		for i, x := range ps {
			if x.File != file {
				bad("part-uri", "part %d of %s is in %q", i, what, x.File)
			}
			if x.Off != off || x.Len <= 0 {
				bad("part-range", "part %d of %s is %d@%d, the previous ended at %d", i, what, x.Len, x.Off, off)
			}
			if x.Dur <= 0 || x.Dur > 1e6 {
				bad("part-duration", "part %d of %s lasts %v", i, what, x.Dur)
			}
			if i == 0 && !x.Indep {
				bad("part-independent", "the first part of %s is not marked independent", what)
			}
			if b := files[file]; x.Indep && x.Off+x.Len <= int64(len(b)) && x.Len > 0 && x.Off >= 0 && !hasRandomAccess(b[x.Off:x.Off+x.Len]) {
				bad("part-independent", "part %d of %s is marked independent and no keyframe starts in it", i, what)
			}
			off += x.Len
			if off > int64(len(files[file])) {
				bad("part-beyond", "part %d of %s ends at %d of %d bytes", i, what, off, len(files[file]))
			}
		}
		return off
	}
	for _, g := range p.Segs {
		if end := tile(fmt.Sprintf("segment %d", g.Seq), g.File, g.Parts); end != int64(len(files[g.File])) {
			bad("part-cover", "the parts of segment %d cover %d of %d bytes", g.Seq, end, len(files[g.File]))
		}
	}
	if p.HintFile == "" && len(p.Tail) > 0 {
		bad("part-tail", "parts of a segment that is not announced")
	}
	if p.HintFile != "" {
		if end := tile("the running segment", p.HintFile, p.Tail); p.HintOff != end {
			bad("part-hint", "the preload hint starts at %d, the parts end at %d", p.HintOff, end)
		}
		if _, ok := files[p.HintFile]; !ok {
			bad("part-file", "the running segment %q does not exist", p.HintFile)
		}
	}
	if p.PartTarget <= 0 || !p.CanBlock {
		bad("part-inf", "part target %v, blocking reload %v", p.PartTarget, p.CanBlock)
	}
}

// hasRandomAccess tells whether a keyframe starts in a run of transport packets.
func hasRandomAccess(b []byte) bool {
	for ; len(b) >= 188; b = b[188:] {
		if b[0] == 0x47 && b[1]&0x40 != 0 && b[3]&0x20 != 0 && b[4] > 0 && b[5]&0x40 != 0 {
			return true
		}
	}
	return false
}

type hADTS struct {
	asc hASC
	raw []byte
}

func splitADTS(b []byte) (out []hADTS, err error) {
	for len(b) > 0 {
		if len(b) < 7 || b[0] != 0xff || b[1]&0xf6 != 0xf0 {
			return out, fmt.Errorf("no ADTS header: %x", b[:min(7, len(b))])
		}
		h := 7
		if b[1]&1 == 0 {
			h = 9
		}
		n := int(b[3]&3)<<11 | int(b[4])<<3 | int(b[5])>>5
		if n < h || n > len(b) {
			return out, fmt.Errorf("frame of %d bytes, %d left", n, len(b))
		}
		out = append(out, hADTS{hASC{b[2]>>6 + 1, b[2] >> 2 & 15, b[2]&1<<2 | b[3]>>6}, b[h:n]})
		b = b[n:]
	}
	return
}

func splitAnnexB(b []byte) (out [][]byte) {
	start := -1
	for i := 0; i+2 < len(b); {
		if b[i] == 0 && b[i+1] == 0 && b[i+2] == 1 {
			if start >= 0 {
				out = append(out, bytes.TrimRight(b[start:i], "\x00"))
			}
			start = i + 3
			i += 3
			continue
		}
		i++
	}
	if start >= 0 {
		out = append(out, b[start:])
	}
	return
}

var aacRates = []int64{96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000, 7350}

const mask33 = 1<<33 - 1

func tickDiff(a, b int64) int64 { return (a - b) << 31 >> 31 }

// content checks the concatenated segments against what was published.
func (s *hSeen) content(sc *hScript, bad func(key, f string, a ...interface{})) {
	var vids, auds []hFrame
	firstKey := -1
	for i, f := range sc.frames {
		if !f.audio && f.key && firstKey < 0 {
			firstKey = i
		}
		if f.audio {
			auds = append(auds, f)
		} else if firstKey >= 0 {
			vids = append(vids, f)
		}
	}
	if firstKey < 0 {
		if len(s.order) > 0 {
			bad("no-key", "%d segments of a stream without a keyframe", len(s.order))
		}
		return
	}
	vi := 0
	type aout struct {
		hADTS
		t int64
	}
	var got []aout
	var firstDTS []int64
	var lastDTS []int64
	for k, name := range s.order {
		d := v.DemuxTS(s.body[name])
		for _, e := range d.Errs {
			bad("ts", "segment %d: %s", k, e)
		}
		if len(d.Tables) < 2 || d.Tables[0].ID != 0 || d.Tables[0].At != 0 || d.Tables[1].ID != 2 || d.Tables[1].At != 188 {
			bad("tables", "segment %d does not start with its program tables", k)
		}
		for _, tb := range d.Tables {
			if tb.ID != 2 {
				continue
			}
			if len(tb.Entries) != 2 || tb.Entries[0x100] != map[bool]uint16{false: 0x1b, true: 0x24}[sc.cfg.hevc()] || tb.Entries[0x101] != 0x0f {
				bad("pmt", "segment %d maps %v", k, tb.Entries)
			}
		}
		if len(d.Units) == 0 || d.Units[0].PID != 0x100 {
			bad("first", "segment %d does not begin with video", k)
		}
		first := true
		for _, u := range d.Units {
			switch u.PID {
			case 0x100:
				if vi >= len(vids) {
					bad("video-extra", "segment %d has a video frame more than was published", k)
					continue
				}
				f := vids[vi]
				vi++
				wantDTS := int64(f.ts) * 90 & mask33
				wantPTS := (int64(f.ts) + int64(f.cts)) * 90 & mask33
				if u.DTS != wantDTS || u.PTS != wantPTS {
					bad("video-time", "%s (cts %d): DTS %d PTS %d, want %d %d", f.desc, f.cts, u.DTS, u.PTS, wantDTS, wantPTS)
				}
				var nals, sets [][]byte
				ns := splitAnnexB(u.Data)
				for _, n := range ns {
					if len(n) == 0 {
						bad("video-nal", "%s: an empty NAL unit", f.desc)
						continue
					}
					if f.cfg.typ(n) == 9 {
						continue
					}
					nals = append(nals, n)
				}
				//parameter sets that come before the frame's own units
				for len(nals) > len(f.nals) {
					if t := f.cfg.typ(nals[0]); t != 7 && t != 8 {
						break
					}
					sets = append(sets, nals[0])
					nals = nals[1:]
				}
				if !sameNALs(nals, f.nals) {
					bad("video-data", "%s: NAL units %s, published %s", f.desc, sizes(nals), sizes(f.nals))
				}
				if len(sets) > 0 && !sameNALs(sets, f.cfg.sets()) {
					bad("video-sets", "%s: parameter sets %x", f.desc, sets)
				}
				if f.key && len(sets) == 0 {
					sps, pps := false, false
					for _, n := range f.nals {
						sps = sps || f.cfg.typ(n) == 7
						pps = pps || f.cfg.typ(n) == 8
					}
					if !sps || !pps {
						bad("video-nosets", "keyframe %s has no parameter sets", f.desc)
					}
				}
				if first {
					if !f.key {
						bad("start", "segment %d begins with %s, not with a keyframe", k, f.desc)
					}
					if !u.RAI {
						bad("start-rai", "segment %d: random access is not indicated", k)
					}
					if u.PCR < 0 {
						bad("start-pcr", "segment %d: no PCR", k)
					}
					firstDTS = append(firstDTS, wantDTS)
					lastDTS = append(lastDTS, wantDTS)
				}
				first = false
				lastDTS[len(lastDTS)-1] = wantDTS
			case 0x101:
				fr, err := splitADTS(u.Data)
				if err != nil {
					bad("adts", "segment %d: %v", k, err)
				}
				for i, x := range fr {
					t := u.PTS
					if int(x.asc.rate) < len(aacRates) {
						t += int64(i) * 1024 * 90000 / aacRates[x.asc.rate]
					}
					got = append(got, aout{x, t})
				}
			default:
				bad("pid", "segment %d: PID %#x", k, u.PID)
			}
		}
		if first {
			bad("empty", "segment %d has no video", k)
			firstDTS = append(firstDTS, -1)
			lastDTS = append(lastDTS, -1)
		}
	}
	if vi != len(vids) {
		bad("video-lost", "%d of %d video frames came out; first missing: %s", vi, len(vids), vids[vi].desc)
	}
	req := 0
	for _, a := range auds {
		if a.required {
			req++
		}
	}
	if len(got) < req || len(got) > len(auds) {
		bad("audio-lost", "%d audio frames came out, %d were published, %d of them after the first keyframe", len(got), len(auds), req)
	}
	for i, x := range got {
		j := len(auds) - len(got) + i
		if j < 0 {
			break
		}
		a := auds[j]
		if !bytes.Equal(x.raw, a.raw) {
			bad("audio-data", "%s: %d bytes, published %d", a.desc, len(x.raw), len(a.raw))
			break
		}
		if x.asc != a.asc {
			bad("audio-header", "%s: header %v, configuration %v", a.desc, x.asc, a.asc)
		}
		if d := tickDiff(x.t, int64(a.ts)*90); d > 300 || d < -300 {
			bad("audio-time", "%s: at %d, want %d (%.1f ms off)", a.desc, x.t&mask33, int64(a.ts)*90&mask33, float64(d)/90)
		}
	}
	//durations
	for k, name := range s.order {
		if k >= len(firstDTS) || firstDTS[k] < 0 {
			continue
		}
		dur := s.dur[name]
		media := float64(tickDiff(lastDTS[k], firstDTS[k])) / 90000
		if k+1 < len(firstDTS) && firstDTS[k+1] >= 0 {
			want := float64(tickDiff(firstDTS[k+1], firstDTS[k])) / 90000
			if want > media && (dur < want-0.0011 || dur > want+0.0011) {
				bad("duration", "segment %d is listed with %v s, its media lasts %.3f s", k, dur, want)
			}
		} else if dur < media-0.0011 || dur > media+2.5 {
			bad("duration", "the last segment %d is listed with %v s, its media lasts %.3f s", k, dur, media)
		}
	}
}

func sameNALs(a, b [][]byte) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !bytes.Equal(a[i], b[i]) {
			return false
		}
	}
	return true
}

func sizes(n [][]byte) (s string) {
	for _, x := range n {
		s += fmt.Sprintf(" %d/%d", x[0]&31, len(x))
	}
	return
}
