//go:build go1.25

package libdash

import (
	"bytes"
	"encoding/xml"
	"fmt"
	"io"
	"net/url"
	"os"
	"path/filepath"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"github.com/sbraveyoung/GGmpeg/libflv"
	v "github.com/sbraveyoung/GGmpeg/verif_vlib"
)

type mpdS struct {
	T *uint64 `xml:"t,attr"`
	D *uint64 `xml:"d,attr"`
	R *int    `xml:"r,attr"`
}

type mpdDoc struct {
	XMLName   xml.Name `xml:"urn:mpeg:dash:schema:mpd:2011 MPD"`
	Type      string   `xml:"type,attr"`
	AST       string   `xml:"availabilityStartTime,attr"`
	Publish   string   `xml:"publishTime,attr"`
	MinBuffer string   `xml:"minBufferTime,attr"`
	Update    string   `xml:"minimumUpdatePeriod,attr"`
	Profiles  string   `xml:"profiles,attr"`
	Periods   []struct {
		Start string `xml:"start,attr"`
		Sets  []struct {
			Mime string `xml:"mimeType,attr"`
			Reps []struct {
				ID     string `xml:"id,attr"`
				Codecs string `xml:"codecs,attr"`
				BW     int    `xml:"bandwidth,attr"`
				W      int    `xml:"width,attr"`
				H      int    `xml:"height,attr"`
				Tmpl   []struct {
					Timescale uint64 `xml:"timescale,attr"`
					Offset    uint64 `xml:"presentationTimeOffset,attr"`
					Start     int    `xml:"startNumber,attr"`
					Init      string `xml:"initialization,attr"`
					Media     string `xml:"media,attr"`
					Timeline  []struct {
						S []mpdS `xml:"S"`
					} `xml:"SegmentTimeline"`
				} `xml:"SegmentTemplate"`
			} `xml:"Representation"`
		} `xml:"AdaptationSet"`
	} `xml:"Period"`
}

type mpdSeg struct {
	n    int
	file string
	t, d uint64
}

type mpdInfo struct {
	segs     []mpdSeg
	init     string
	codecs   string
	w, h     int
	offset   uint64
	ast, pub time.Time
	update   time.Duration
}

// mpdParse reads a live manifest strictly, resolving URL templates as a player does.
func mpdParse(b []byte) (m mpdInfo, err error) {
	dec := xml.NewDecoder(bytes.NewReader(b))
	dec.Strict = true
	var doc mpdDoc
	if err = dec.Decode(&doc); err != nil {
		return
	}
	for {
		tok, e := dec.Token()
		if e == io.EOF {
			break
		}
		if cd, ok := tok.(xml.CharData); e != nil || !ok || len(bytes.TrimSpace(cd)) != 0 {
			return m, fmt.Errorf("something follows the document: %v %v", tok, e)
		}
	}
	if doc.Type != "dynamic" || !strings.Contains(doc.Profiles, "isoff-live") || doc.MinBuffer == "" {
		return m, fmt.Errorf("not a live manifest")
	}
	if m.ast, err = time.Parse(time.RFC3339, doc.AST); err != nil {
		return
	}
	if m.pub, err = time.Parse(time.RFC3339, doc.Publish); err != nil {
		return
	}
	if m.update, err = time.ParseDuration(strings.ToLower(strings.TrimPrefix(doc.Update, "PT"))); err != nil || m.update <= 0 {
		return m, fmt.Errorf("update period %q", doc.Update)
	}
	if len(doc.Periods) != 1 || len(doc.Periods[0].Sets) != 1 || len(doc.Periods[0].Sets[0].Reps) != 1 {
		return m, fmt.Errorf("not one period, set and representation")
	}
	if doc.Periods[0].Start != "PT0S" || doc.Periods[0].Sets[0].Mime != "video/mp4" {
		return m, fmt.Errorf("period %q, mime type %q", doc.Periods[0].Start, doc.Periods[0].Sets[0].Mime)
	}
	rep := doc.Periods[0].Sets[0].Reps[0]
	if rep.ID == "" || rep.BW <= 0 || len(rep.Tmpl) != 1 || len(rep.Tmpl[0].Timeline) != 1 {
		return m, fmt.Errorf("representation %q at %d with %d templates", rep.ID, rep.BW, len(rep.Tmpl))
	}
	m.codecs, m.w, m.h = rep.Codecs, rep.W, rep.H
	t := rep.Tmpl[0]
	if t.Timescale != 1000 {
		return m, fmt.Errorf("timescale %d", t.Timescale)
	}
	m.offset = t.Offset
	if m.init, err = mpdURL(t.Init, rep.ID, nil); err != nil {
		return
	}
	n := t.Start
	next := uint64(0)
	for _, s := range t.Timeline[0].S {
		if s.D == nil || s.T == nil && n == t.Start {
			return m, fmt.Errorf("segment %d has no time", n)
		}
		if s.T != nil {
			next = *s.T
		}
		k := 1
		if s.R != nil {
			if *s.R < 0 {
				return m, fmt.Errorf("open repeat")
			}
			k += *s.R
		}
		for ; k > 0; k-- {
			f, e := mpdURL(t.Media, rep.ID, &n)
			if e != nil {
				return m, e
			}
			m.segs = append(m.segs, mpdSeg{n, f, next, *s.D})
			next += *s.D
			n++
		}
	}
	return m, nil
}

// mpdURL expands a template and turns the relative URL into a file name.
func mpdURL(t, id string, n *int) (string, error) {
	s := ""
	numbered := false
	for t != "" {
		i := strings.IndexByte(t, '$')
		if i < 0 {
			s += t
			break
		}
		s += t[:i]
		j := strings.IndexByte(t[i+1:], '$')
		if j < 0 {
			return "", fmt.Errorf("template %q", t)
		}
		switch t[i+1 : i+1+j] {
		case "":
			s += "$"
		case "RepresentationID":
			s += id
		case "Number":
			if n == nil {
				return "", fmt.Errorf("number in %q", t)
			}
			numbered = true
			s += fmt.Sprint(*n)
		default:
			return "", fmt.Errorf("template %q", t)
		}
		t = t[i+j+2:]
	}
	if n != nil && !numbered {
		return "", fmt.Errorf("no number in %q", t)
	}
	base, _ := url.Parse("http://host/app/stream/index.mpd")
	ref, err := url.Parse(s)
	if err != nil {
		return "", err
	}
	if ref.Scheme != "" || ref.Host != "" || ref.RawQuery != "" || ref.ForceQuery || ref.Fragment != "" {
		return "", fmt.Errorf("%q is not the name of a file", s)
	}
	abs := base.ResolveReference(ref)
	rest, ok := strings.CutPrefix(abs.Path, "/app/stream/")
	if !ok || strings.Contains(rest, "/") {
		return "", fmt.Errorf("%q leads to %q", s, abs.Path)
	}
	return rest, nil
}

type dFrame struct {
	dts  uint64
	cts  int32
	key  bool
	data []byte
}

// dScript is what a publisher sends, and what must come of it.
type dScript struct {
	codec  uint8
	rec    [][]byte
	ts     uint32
	dts    uint64
	n, hdr int
	tags   []libflv.Tag
	wall   []time.Duration //when each tag is sent
	now    time.Duration
	frames []dFrame
	keyed  bool
	full   bool //has segments that end for their size
}

func dNewScript(codec uint8, base uint32) *dScript {
	s := &dScript{codec: codec, ts: base, dts: uint64(base)}
	if codec == libflv.FLV_VIDEO_HEVC {
		a, b := v.HEVCSPS{W: 1280, H: 720, Chroma: 1, Profile: 1, Level: 93}, v.HEVCSPS{W: 640, H: 368, Chroma: 1, Profile: 2, Level: 120}
		vps, pps := []byte{0x40, 1, 0x0c, 1, 0xff, 0xff, 1, 0x60, 0, 0, 3}, []byte{0x44, 1, 0xc1, 0x72, 0xb4, 0x62, 0x40}
		s.rec = [][]byte{v.HEVCRecord(1, 93, [][]byte{vps}, [][]byte{a.NAL()}, [][]byte{pps}), v.HEVCRecord(2|1<<5, 120, [][]byte{vps}, [][]byte{b.NAL()}, [][]byte{pps})}
		copy(s.rec[1][2:12], []byte{0x20, 0, 0, 5, 0xb0, 0, 0x12, 0, 0, 0})
	} else {
		a, b := v.AVCSPS{Profile: 100, Compat: 0x0c, Level: 31, Chroma: 1, Refs: 4, MbsW: 80, MapH: 45, FrameMbsOnly: true}, v.AVCSPS{Profile: 66, Compat: 0xe0, Level: 30, Chroma: 1, Refs: 1, MbsW: 40, MapH: 23, FrameMbsOnly: true}
		pps := []byte{0x68, 0xce, 0x06, 0xe2}
		s.rec = [][]byte{v.AVCRecord(4, [][]byte{a.NAL()}, [][]byte{pps}, nil), v.AVCRecord(4, [][]byte{b.NAL()}, [][]byte{pps}, nil)}
	}
	return s
}

func (s *dScript) add(t libflv.Tag) {
	s.tags = append(s.tags, t)
	s.wall = append(s.wall, s.now)
}

func (s *dScript) header() {
	t := dashSeq(s.codec, s.rec[s.hdr%2])
	t.TimeStamp = s.ts
	s.hdr++
	s.add(t)
}

func (s *dScript) frame(dt int32, key bool, cts int32, size int) {
	s.ts += uint32(dt)
	if dt > 0 {
		s.now += time.Duration(dt) * time.Millisecond
		s.dts += uint64(dt)
	}
	s.n++
	ft := uint8(libflv.INTER_FRAME)
	nal := byte(1)
	if key {
		ft, nal = libflv.KEY_FRAME, 5
	}
	d := append(v.U32(uint32(size)), v.Fill(s.n, size)...)
	if size > 0 {
		d[4] = nal
		if s.codec == libflv.FLV_VIDEO_HEVC {
			d[4] = map[bool]byte{true: 19 << 1, false: 1 << 1}[key]
		}
	}
	t := &libflv.VideoTag{FrameType: ft, CodecID: s.codec, AVCPacketType: libflv.AVC_NALU, Cts: uint32(cts), VideoData: d}
	t.TimeStamp = s.ts
	s.add(t)
	if key && !s.keyed && s.hdr > 0 {
		s.keyed = true
		s.dts = uint64(s.ts)
	}
	if s.keyed {
		s.frames = append(s.frames, dFrame{dts: s.dts, cts: cts, key: key, data: d})
	}
}

// hevcCodecs is the codecs value of a sample entry (ISO 14496-15 Annex E).
func hevcCodecs(entry string, c []byte) string {
	if len(c) < 13 {
		return "-"
	}
	var compat uint32
	for i := 0; i < 32; i++ {
		if c[2+i/8]&(0x80>>(i%8)) != 0 {
			compat |= 1 << i
		}
	}
	out := fmt.Sprintf("%s.%s%d.%X.%s%d", entry, []string{"", "A", "B", "C"}[c[1]>>6], c[1]&31, compat, []string{"L", "H"}[c[1]>>5&1], c[12])
	n := 12
	for n > 6 && c[n-1] == 0 {
		n--
	}
	for _, b := range c[6:n] {
		out += fmt.Sprintf(".%X", b)
	}
	return out
}

type dSeen struct {
	segs []mpdSeg //all segments ever listed, by number
	body [][]byte
	frag []v.Fragment
	upd  time.Duration
}

func (d *dSeen) look(desc string, s *dScript, n int, name string, mpd []byte, init []byte, dir string, window int, now time.Time, bad func(key, f string, a ...interface{})) {
	files := map[string][]byte{}
	es, _ := os.ReadDir(dir)
	for _, e := range es {
		files[e.Name()], _ = os.ReadFile(filepath.Join(dir, e.Name()))
	}
	initName := name + "-init.mp4"
	if len(mpd) == 0 {
		for f := range files {
			if f != initName {
				bad("unlisted", "%q exists and there is no manifest", f)
			}
		}
		if len(d.segs) > 0 {
			bad("vanished", "the manifest is empty after %d segments", len(d.segs))
		}
		return
	}
	m, err := mpdParse(mpd)
	if err != nil {
		bad("syntax", "%v\n%s", err, mpd)
		return
	}
	if d.upd == 0 {
		d.upd = m.update
	} else if d.upd != m.update {
		bad("update-period", "%v, was %v", m.update, d.upd)
	}
	if m.init != initName || !bytes.Equal(files[m.init], init) {
		bad("init", "initialization %q names no init segment", m.init)
	}
	in, err := v.ParseInit(init)
	if err != nil {
		bad("init", "%v", err)
	} else {
		if m.w != int(in.W) || m.h != int(in.H) {
			bad("size", "manifest %dx%d, init segment %dx%d", m.w, m.h, in.W, in.H)
		}
		want := ""
		if s.codec == libflv.FLV_VIDEO_AVC {
			want = fmt.Sprintf("avc1.%02X%02X%02X", in.Config[1], in.Config[2], in.Config[3])
			if !strings.EqualFold(m.codecs, want) {
				bad("codecs", "codecs %q of %q", m.codecs, want)
			}
		} else if want = hevcCodecs(in.Entry, in.Config); !strings.EqualFold(m.codecs, want) {
			bad("codecs", "codecs %q of %q", m.codecs, want)
		}
	}
	if len(m.segs) == 0 {
		bad("empty", "no segments in a manifest")
		return
	}
	if len(m.segs) > window {
		bad("window", "%d segments listed", len(m.segs))
	}
	listed := map[string]bool{initName: true}
	for i, sg := range m.segs {
		listed[sg.file] = true
		b, ok := files[sg.file]
		if !ok {
			bad("missing", "listed segment %q does not exist", sg.file)
			continue
		}
		idx := -1
		for j, o := range d.segs {
			if o.n == sg.n {
				idx = j
			}
		}
		if idx < 0 {
			if len(d.segs) > 0 && sg.n != d.segs[len(d.segs)-1].n+1 {
				bad("sequence", "segment %d follows %d", sg.n, d.segs[len(d.segs)-1].n)
			}
			fr, err := v.ParseFragment(b)
			if err != nil {
				bad("fragment", "%s: %v", sg.file, err)
			}
			d.segs = append(d.segs, sg)
			d.body = append(d.body, b)
			d.frag = append(d.frag, fr)
			//available when the manifest first lists it
			if end := m.ast.Add(time.Duration(sg.t+sg.d-m.offset) * time.Millisecond); n < len(s.tags) && end.After(now.Add(time.Second)) {
				bad("available", "segment %d becomes available at %v, now %v", sg.n, end, now)
			}
			//newest first if this is the start of the stream, else not long ago
			if end := m.ast.Add(time.Duration(sg.t+sg.d-m.offset) * time.Millisecond); now.Sub(end) > 24*time.Hour {
				bad("available", "segment %d became available at %v, now %v", sg.n, end, now)
			}
		} else if d.segs[idx] != sg {
			bad("changed", "segment %+v was %+v", sg, d.segs[idx])
		} else if !bytes.Equal(d.body[idx], b) {
			bad("rewritten", "segment %q has changed", sg.file)
		}
		if i > 0 && !s.full && m.segs[i-1].t+m.segs[i-1].d != sg.t {
			bad("gap", "segment %d ends at %d, the next one starts at %d", m.segs[i-1].n, m.segs[i-1].t+m.segs[i-1].d, sg.t)
		}
	}
	if len(d.segs) >= window && len(m.segs) < window {
		bad("window", "%d segments listed of %d", len(m.segs), len(d.segs))
	}
	if m.segs[len(m.segs)-1].n != d.segs[len(d.segs)-1].n {
		bad("vanished", "newest segment %d, was %d", m.segs[len(m.segs)-1].n, d.segs[len(d.segs)-1].n)
	}
	for f := range files {
		if !listed[f] {
			bad("unlisted", "%q exists and is not listed", f)
		}
	}
}

func (d *dSeen) content(s *dScript, bad func(key, f string, a ...interface{})) {
	i := 0
	longest := uint64(0)
	for k, fr := range d.frag {
		sg := d.segs[k]
		if fr.Track != 1 || k > 0 && fr.Seq <= d.frag[k-1].Seq {
			bad("fragment-number", "segment %d: track %d, sequence number %d", sg.n, fr.Track, fr.Seq)
		}
		if fr.Base != sg.t {
			bad("start", "segment %d starts at %d, listed at %d", sg.n, fr.Base, sg.t)
		}
		total := uint64(0)
		for j, sm := range fr.Samples {
			total += uint64(sm.Dur)
			if i >= len(s.frames) {
				bad("extra", "segment %d sample %d was not published", sg.n, j)
				return
			}
			if j == 0 && s.full && k > 0 {
				//what followed a segment ended for its size could not be decoded without it
				for i+1 < len(s.frames) && !s.frames[i].key {
					i++
				}
			}
			f := s.frames[i]
			i++
			if j == 0 && !sm.Sync() {
				bad("random-access", "segment %d starts with no keyframe", sg.n)
			}
			if !bytes.Equal(sm.Data, f.data) {
				bad("data", "segment %d sample %d is not frame %d (%d bytes for %d)", sg.n, j, i, len(sm.Data), len(f.data))
				return
			}
			if sm.DTS != f.dts {
				bad("dts", "frame %d decodes at %d, published for %d", i, sm.DTS, f.dts)
			}
			if sm.CTS != int64(f.cts) {
				bad("cts", "frame %d has offset %d, published %d", i, sm.CTS, f.cts)
			}
			//a new segment begins at the first keyframe of the target duration the manifest is updated by
			if j > 0 && f.key && f.dts-fr.Base >= uint64(d.upd/time.Millisecond) {
				bad("segment-end", "segment %d goes on at the keyframe %d ms after its start (update period %v)", sg.n, f.dts-fr.Base, d.upd)
			}
			if sm.Sync() != f.key {
				bad("sync", "frame %d: sync %v, keyframe %v", i, sm.Sync(), f.key)
			}
			if i < len(s.frames) {
				if uint64(sm.Dur) != s.frames[i].dts-f.dts {
					bad("duration", "frame %d lasts %d, the next one is due after %d", i, sm.Dur, s.frames[i].dts-f.dts)
				}
				longest = max(longest, uint64(sm.Dur))
			} else if sm.Dur == 0 || uint64(sm.Dur) > max(longest, 1000) { //nobody knows
				bad("last-duration", "the last frame lasts %d, the longest one before %d", sm.Dur, longest)
			}
		}
		if total != sg.d {
			bad("segment-duration", "segment %d lasts %d, listed with %d", sg.n, total, sg.d)
		}
		if len(fr.Samples) == 0 {
			bad("empty-segment", "segment %d has no samples", sg.n)
		}
	}
	if i != len(s.frames) {
		bad("lost", "%d of %d frames", i, len(s.frames))
	}
}

func d01Step(s *dScript, sym int) string {
	switch sym {
	case 0:
		s.frame(40, true, 0, 60)
		return "K"
	case 1:
		s.frame(2000, true, 80, 300)
		return "K+2s"
	case 2:
		s.frame(33, false, 80, 100)
		return "P"
	case 3:
		s.frame(40, false, -40, 20)
		return "B"
	case 4:
		s.frame(0, false, 0, 5)
		return "P+0"
	case 5:
		s.frame(1999, false, 8388607, 1)
		return "P+1.999s"
	case 6:
		s.frame(-500, true, -8388608, 30)
		return "K-0.5s"
	case 7:
		s.frame(70000, false, 0, 0)
		return "P+70s"
	case 8:
		s.header()
		return "header"
	case 9: //sound and notes are not the segmenter's business
		s.add(&libflv.AudioTag{SoundFormat: libflv.FLV_AUDIO_AAC, AACPacketType: libflv.AAC_RAW, SoundData: v.Fill(s.n, 20)})
		return "A"
	case 10:
		s.frame(-6000, false, 40, 44)
		return "P-6s"
	default:
		t := &libflv.VideoTag{FrameType: libflv.KEY_FRAME, CodecID: s.codec, AVCPacketType: 2, VideoData: nil}
		t.TimeStamp = s.ts
		s.add(t)
		return "end-of-sequence"
	}
}

const d01Syms = 12

var dCase int

func dRun(t *testing.T, r *v.Run, desc string, s *dScript, name string) {
	dCase++
	dir := filepath.Join(r.Out(), fmt.Sprintf("d%d", dCase))
	os.MkdirAll(dir, 0o755)
	defer os.RemoveAll(dir)
	failed := map[string]bool{}
	bad := func(key, f string, a ...interface{}) {
		if !failed[key] {
			failed[key] = true
			r.Violation("d01:"+key, desc, f, a...)
		}
	}
	seen := &dSeen{}
	ok := r.Guard("d01:", desc, func() {
		synctest.Test(t, func(t *testing.T) {
			d := NewDASH().WithStreamID(name).WithDir(dir)
			start := time.Now()
			src := &dashTags{tags: s.tags, hook: func(next int) {
				if next < len(s.wall) {
					if w := s.wall[next] - time.Since(start); w > 0 {
						time.Sleep(w)
					}
				}
				seen.look(desc, s, next, name, d.Manifest(), d.InitSegment(), dir, 6, time.Now(), bad)
			}}
			if err := d.Start(src); err != nil {
				bad("start-error", "%v", err)
			}
			seen.look(desc, s, len(s.tags), name, d.Manifest(), d.InitSegment(), dir, 6, time.Now(), bad)
			seen.content(s, bad)
			d.Stop()
			if len(d.Manifest()) != 0 {
				bad("stop-manifest", "a manifest after Stop")
			}
			if es, _ := os.ReadDir(dir); len(es) != 0 {
				bad("stop-files", "%d files after Stop", len(es))
			}
		})
	})
	if ok {
		r.Eval(fmt.Sprintf("segments=%d frames=%d", len(seen.segs), len(s.frames)), desc)
	}
}

func TestV_D01(t *testing.T) {
	r := v.Start(t)
	defer r.Finish()
	depth := r.Pick(5, 6)
	bases := []uint32{0, 5000, 1<<31 - 100, 1<<32 - 100, 1<<32 - 3000}
	v.Sequences(d01Syms, 1, depth, func(seq []int) bool {
		if r.Expired() {
			return false
		}
		if !r.Mine() {
			return true
		}
		for bi, base := range bases {
			if r.Quick() && len(seq) == depth && bi > 0 && (seq[0]+seq[1]+seq[2]+seq[3])%4+1 != bi {
				continue
			}
			for _, codec := range []uint8{libflv.FLV_VIDEO_AVC, libflv.FLV_VIDEO_HEVC} {
				if codec == libflv.FLV_VIDEO_HEVC && len(seq) == depth {
					continue
				}
				for lead := 0; lead < 2; lead++ {
					if lead == 1 && len(seq) == depth && r.Quick() {
						continue
					}
					s := dNewScript(codec, base)
					d := fmt.Sprintf("codec %d, from %d:", codec, base)
					if lead == 0 {
						s.header()
						d += " header"
					}
					for _, x := range seq {
						d += " " + d01Step(s, x)
					}
					s.frame(2100, true, 0, 10)
					s.frame(25, false, 0, 10)
					r.Journal("%s K+2.1s P", d)
					dRun(t, r, d+" K+2.1s P", s, "stream")
				}
			}
		}
		return true
	})
	//long streams: the window slides
	for gop := 1; gop <= r.Pick(6, 12); gop++ {
		for _, dt := range []int32{1, 33, 40, 500, 1000, 1999, 2000, 2001, 7000} {
			for _, base := range bases {
				if r.Expired() || !r.Mine() {
					continue
				}
				s := dNewScript(libflv.FLV_VIDEO_AVC, base)
				s.header()
				n := 10 * gop * max(1, 2000/(int(dt)*gop))
				for i := 0; i < min(n, 3000); i++ {
					s.frame(dt, i%gop == 0, int32(i%3)*40-40, 1+i%50)
				}
				d := fmt.Sprintf("%d frames every %d ms, keyframe every %d, from %d", n, dt, gop, base)
				r.Journal("%s", d)
				dRun(t, r, d, s, "stream")
			}
		}
	}
	//many segments
	for _, n := range []int{70, 260, 300} {
		for _, base := range bases {
			if r.Expired() || !r.Mine() {
				continue
			}
			s := dNewScript(libflv.FLV_VIDEO_AVC, base)
			s.header()
			for i := 0; i < n; i++ {
				s.frame(2000, true, 0, 1+i%7)
			}
			d := fmt.Sprintf("%d segments from %d", n, base)
			r.Journal("%s", d)
			dRun(t, r, d, s, "stream")
		}
	}
	//no keyframe for so long that the segment has to end: the next one starts at a keyframe again
	for _, n := range []int{16380, 16383, 16384, 16385, 16386, 16400} {
		if r.Expired() || !r.Mine() {
			continue
		}
		s := dNewScript(libflv.FLV_VIDEO_AVC, 0)
		s.full = true
		s.header()
		for g := 0; g < 3; g++ {
			s.frame(2000, true, 0, 30)
			for i := 0; g < 2 && i < n; i++ {
				s.frame(1, false, 0, 6+i%4)
			}
		}
		d := fmt.Sprintf("two groups of %d frames", n+1)
		r.Journal("%s", d)
		dRun(t, r, d, s, "stream")
	}
	//sizes
	for n := 0; n < r.Pick(600, 4000); n++ {
		if r.Expired() || !r.Mine() {
			continue
		}
		s := dNewScript(libflv.FLV_VIDEO_AVC, 0)
		s.header()
		s.frame(40, true, 0, n)
		for i := 0; i < n%40; i++ {
			s.frame(40, false, 0, (i*n)%300)
		}
		s.frame(2000, true, 0, n*97)
		d := fmt.Sprintf("frames of %d and %d bytes", n, n*97)
		r.Journal("%s", d)
		dRun(t, r, d, s, "stream")
	}
	//names
	for _, name := range []string{"a b", "a\"b", "a#b", "a?b", "a%41", "x:y", "ü", "a\nb", "<a>", "a&b;c", "$a$", "$Number$", "a$$b", "-", "..", "'", "a\\b", "a+b", "\xff", "]]>"} {
		if !r.Mine() {
			continue
		}
		s := dNewScript(libflv.FLV_VIDEO_AVC, 0)
		s.header()
		for i := 0; i < 10; i++ {
			s.frame(2000, true, 0, 50)
		}
		d := fmt.Sprintf("stream %q", name)
		r.Journal("%s", d)
		dRun(t, r, d, s, name)
	}
	r.Note("all sequences of up to %d of %d events x %d clock bases, with and without a leading header, AVC and (up to %d) HEVC; looked at before every tag", depth, d01Syms, len(bases), depth-1)
}
