//go:build go1.25

package libdash

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"testing"

	"github.com/sbraveyoung/GGmpeg/libflv"
	v "github.com/sbraveyoung/GGmpeg/verif_vlib"
)

// dashTags feeds tags to a segmenter and calls hook between them.
type dashTags struct {
	tags []libflv.Tag
	i    int
	hook func(next int)
}

func (d *dashTags) Read() (interface{}, bool) {
	if d.hook != nil {
		d.hook(d.i)
	}
	if d.i >= len(d.tags) {
		return nil, false
	}
	d.i++
	return d.tags[d.i-1], true
}

func dashSeq(codec uint8, rec []byte) *libflv.VideoTag {
	return &libflv.VideoTag{FrameType: libflv.KEY_FRAME, CodecID: codec, AVCPacketType: libflv.AVC_SEQUENCE_HEADER, VideoData: rec}
}

func TestV_D02(t *testing.T) {
	r := v.Start(t)
	defer r.Finish()
	dir := r.Out()
	//init lets a segmenter process one codec header and returns what it offers
	n := 0
	initOf := func(desc string, codec uint8, rec []byte, file bool) (b []byte, d *DASH, ok bool) {
		ok = r.Guard("d02:", desc, func() {
			d = NewDASH().WithDir(dir)
			if file {
				n++
				d.WithStreamID(fmt.Sprintf("s%d", n))
			}
			src := &dashTags{tags: []libflv.Tag{dashSeq(codec, append([]byte{}, rec...))}}
			if err := d.Start(src); err != nil {
				r.Violation("d02:start", desc, "%v", err)
			}
			b = d.InitSegment()
			if file {
				p := filepath.Join(dir, fmt.Sprintf("s%d-init.mp4", n))
				fb, err := os.ReadFile(p)
				if err != nil || !bytes.Equal(fb, b) {
					r.Violation("d02:file", desc, "the file differs from the init segment: %v", err)
				}
				d.Stop()
			}
		})
		return
	}
	check := func(desc, kind string, codec uint8, rec []byte, w, h uint32, file bool) {
		r.Journal("%s", desc)
		b, _, ok := initOf(desc, codec, rec, file)
		if !ok {
			return
		}
		r.Eval(fmt.Sprintf("%s %dx%d", kind, w/64, h/64), desc)
		in, err := v.ParseInit(b)
		if err != nil {
			r.Violation("d02:"+kind+":boxes", desc, "%v", err)
			return
		}
		entry, cfg := "avc1", "avcC"
		if codec == libflv.FLV_VIDEO_HEVC {
			entry, cfg = "hev1", "hvcC"
		}
		if in.Entry != entry || in.ConfigBox != cfg {
			r.Violation("d02:"+kind+":entry", desc, "sample entry %s/%s", in.Entry, in.ConfigBox)
		}
		if !bytes.Equal(in.Config, rec) {
			r.Violation("d02:"+kind+":config", desc, "configuration %x, published %x", in.Config, rec)
		}
		if uint32(in.W) != w || uint32(in.H) != h || in.TkW != w<<16 || in.TkH != h<<16 {
			r.Violation("d02:"+kind+":size", desc, "sample entry %dx%d, track %dx%d, coded %dx%d", in.W, in.H, in.TkW>>16, in.TkH>>16, w, h)
		}
		if in.Track != 1 || in.Timescale != 1000 || in.MovieTimescale == 0 {
			r.Violation("d02:"+kind+":track", desc, "track %d timescale %d", in.Track, in.Timescale)
		}
	}
	pps := []byte{0x68, 0xce, 0x06, 0xe2}

	//every combination of the fields that precede and make up the picture size
	profiles := []byte{66, 77, 88, 100, 110, 122, 244, 44, 83, 86, 118, 128, 138, 139, 134, 135}
	type dim struct{ w, h uint32 }
	dims := []dim{{120, 68}, {1, 1}, {20, 15}, {240, 135}, {45, 36}, {256, 128}}
	if !r.Quick() {
		dims = append(dims, dim{2, 3}, dim{7, 255}, dim{511, 256}, dim{4095, 1})
	}
	type crp struct {
		on         bool
		l, r, t, b uint32
	}
	crops := []crp{{}, {true, 0, 0, 0, 0}, {true, 0, 0, 0, 4}, {true, 1, 2, 3, 0}}
	if !r.Quick() {
		crops = append(crops, crp{true, 0, 7, 0, 0}, crp{true, 2, 0, 0, 1})
	}
	pocs := []struct {
		t uint32
		n int
	}{{0, 0}, {1, 0}, {1, 1}, {1, 3}, {1, 255}, {2, 0}}
	cnt := 0
	for _, p := range profiles {
		chromas := 1
		scal := 1
		if v.HighProfile(p) {
			chromas, scal = 5, 5
		}
		for ch := 0; ch < chromas; ch++ {
			for sc := 0; sc < scal; sc++ {
				for _, poc := range pocs {
					for fmo := 0; fmo < 2; fmo++ {
						for ci, c := range crops {
							for di, d := range dims {
								cnt++
								if !r.Mine() {
									continue
								}
								s := v.AVCSPS{Profile: p, Level: 40, Chroma: 1, Scaling: sc, POC: poc.t, POCCycle: poc.n, Refs: 4, MbsW: d.w, MapH: d.h, FrameMbsOnly: fmo == 1, Crop: c.on, L: c.l, R: c.r, T: c.t, B: c.b}
								if v.HighProfile(p) {
									s.Chroma = uint32(ch)
									if ch == 4 {
										s.Chroma, s.Separate = 3, true
									}
								}
								s.VUI = (ci+di)%2 == 0
								s.FrameNum = uint32(di * 2)
								w, h := s.Size()
								if int32(w) <= 0 || int32(h) <= 0 || w > 1<<16 || h > 1<<16 {
									continue //not a picture
								}
								check(fmt.Sprintf("AVC %+v", s), "avc", libflv.FLV_VIDEO_AVC, v.AVCRecord(4, [][]byte{s.NAL()}, [][]byte{pps}, nil), w, h, cnt%64 == 0)
							}
						}
					}
				}
			}
		}
	}
	//leading bytes and ids that shift the rest and force emulation prevention
	for _, compat := range []byte{0, 0xc0, 0xe0, 3} {
		for _, level := range []byte{0, 1, 2, 3, 9, 30, 51} {
			for _, id := range []uint32{0, 1, 6, 31} {
				for _, fn := range []uint32{0, 1, 11, 12} {
					for _, refs := range []uint32{0, 1, 3, 16} {
						for _, p := range []byte{66, 100} {
							if !r.Mine() {
								continue
							}
							s := v.AVCSPS{Profile: p, Compat: compat, Level: level, ID: id, Chroma: 1, FrameNum: fn, Refs: refs, MbsW: 80, MapH: 45, FrameMbsOnly: true}
							check(fmt.Sprintf("AVC %+v", s), "avc", libflv.FLV_VIDEO_AVC, v.AVCRecord(4, [][]byte{s.NAL()}, [][]byte{pps}, nil), 1280, 720, false)
							//long runs of zeros: a large size keeps its exp-golomb prefix of zeros
							s.MbsW, s.MapH, s.POC, s.POCCycle = 4096, 4, 1, 2
							w, h := s.Size()
							check(fmt.Sprintf("AVC %+v", s), "avc", libflv.FLV_VIDEO_AVC, v.AVCRecord(4, [][]byte{s.NAL()}, [][]byte{pps}, nil), w&0xffff, h, false)
						}
					}
				}
			}
		}
	}
	//records: several parameter sets, all length sizes, extensions
	base := v.AVCSPS{Profile: 100, Level: 31, Chroma: 1, Refs: 4, MbsW: 80, MapH: 45, FrameMbsOnly: true}
	other := v.AVCSPS{Profile: 100, Level: 31, ID: 1, Chroma: 1, Refs: 4, MbsW: 20, MapH: 15, FrameMbsOnly: true}
	for _, ls := range []int{1, 2, 4} {
		for ns := 1; ns <= r.Pick(3, 31); ns++ {
			for np := 1; np <= r.Pick(4, 40); np++ {
				for _, ext := range [][]byte{nil, {0xfd, 0xf8, 0xf8, 0}} {
					for _, pl := range []int{1, 2, 4, 200, 1000} {
						if !r.Mine() {
							continue
						}
						var sp, pp [][]byte
						for i := 0; i < ns; i++ {
							if i == 0 {
								sp = append(sp, base.NAL())
							} else {
								sp = append(sp, other.NAL())
							}
						}
						for i := 0; i < np; i++ {
							pp = append(pp, append([]byte{0x68}, v.Fill(i, pl-1)...))
						}
						check(fmt.Sprintf("AVC record: lengths of %d bytes, %d SPS, %d PPS of %d bytes, ext %x", ls, ns, np, pl, ext), "record", libflv.FLV_VIDEO_AVC, v.AVCRecord(ls, sp, pp, ext), 1280, 720, true)
					}
				}
			}
		}
	}
	//HEVC
	vps := []byte{0x40, 1, 0x0c, 1, 0xff, 0xff, 1, 0x60, 0, 0, 3}
	hpps := []byte{0x44, 1, 0xc1, 0x72, 0xb4, 0x62, 0x40}
	hd := []dim{{1920, 1080}, {8, 8}, {640, 368}, {3840, 2160}, {4096, 2304}, {16, 65528}}
	for sub := 0; sub <= 6; sub++ {
		flags := 1 << (2 * uint(sub))
		step := 1
		if r.Quick() && flags > 256 {
			step = flags / 256
			step |= 1
		}
		for f := 0; f < flags; f += step {
			for ch := 0; ch < 5; ch++ {
				for _, d := range hd {
					for _, c := range crops {
						if !r.Mine() {
							continue
						}
						if sub > 3 && (ch > 1 || c.on && c.l != 1) {
							continue
						}
						s := v.HEVCSPS{SubLayers: sub, SubFlags: f, ID: uint32(f % 16), Chroma: uint32(ch), W: d.w, H: d.h, Window: c.on, L: c.l, R: c.r, T: c.t, B: c.b, Profile: 1, Level: 93}
						if ch == 4 {
							s.Chroma, s.Separate = 3, true
						}
						w, h := s.Size()
						if int32(w) <= 0 || int32(h) <= 0 {
							continue
						}
						check(fmt.Sprintf("HEVC %+v", s), "hevc", libflv.FLV_VIDEO_HEVC, v.HEVCRecord(1, 93, [][]byte{vps}, [][]byte{s.NAL()}, [][]byte{hpps}), w, h, f == 1)
					}
				}
			}
		}
	}
	hs := v.HEVCSPS{W: 1280, H: 720, Chroma: 1, Profile: 2, Level: 120}
	sei := []byte{0x4e, 1, 5, 1, 0x80}
	arr := [][][]byte{{vps}, {hs.NAL()}, {hpps}, {sei}, {vps, vps}, {hpps, hpps, hpps}, {hs.NAL(), v.HEVCSPS{W: 64, H: 64, Chroma: 1}.NAL()}}
	v.Sequences(len(arr), 1, r.Pick(4, 5), func(q []int) bool {
		if !r.Mine() {
			return !r.Expired()
		}
		var as [][][]byte
		w, h := uint32(0), uint32(0)
		for _, i := range q {
			as = append(as, arr[i])
			if i == 1 || i == 6 {
				w, h = 1280, 720
			}
		}
		check(fmt.Sprintf("HEVC arrays %v", q), "hevc-record", libflv.FLV_VIDEO_HEVC, v.HEVCRecord(2, 120, as...), w, h, false)
		return true
	})
	//a header republished in mid-stream replaces the init segment
	for i := 0; i < 16; i++ {
		if !r.Mine() {
			continue
		}
		recs := [][]byte{v.AVCRecord(4, [][]byte{base.NAL()}, [][]byte{pps}, nil), v.AVCRecord(2, [][]byte{other.NAL()}, [][]byte{pps}, nil),
			v.HEVCRecord(1, 93, [][]byte{vps}, [][]byte{hs.NAL()}, [][]byte{hpps}), v.HEVCRecord(1, 120, [][]byte{hs.NAL()})}
		codec := func(k int) uint8 {
			if k < 2 {
				return libflv.FLV_VIDEO_AVC
			}
			return libflv.FLV_VIDEO_HEVC
		}
		a, b := i/4, i%4
		desc := fmt.Sprintf("header %d then %d", a, b)
		r.Journal("%s", desc)
		d := NewDASH().WithDir(dir)
		r.Guard("d02:", desc, func() {
			d.Start(&dashTags{tags: []libflv.Tag{dashSeq(codec(a), recs[a]), dashSeq(codec(b), recs[b])}})
		})
		r.Eval("replaced", desc)
		in, err := v.ParseInit(d.InitSegment())
		if err != nil || !bytes.Equal(in.Config, recs[b]) {
			r.Violation("d02:replaced", desc, "init segment carries %x (%v)", in.Config, err)
		}
	}
	r.Note("AVC: 16 profiles x chroma formats x scaling lists x picture order modes x field coding x %d croppings x %d sizes; leading byte and id grid; 1-%d SPS x 1-%d PPS x length sizes", len(crops), len(dims), r.Pick(3, 31), r.Pick(4, 40))
	r.Note("HEVC: 0-6 sub-layers with their presence flags x chroma formats x windows x %d sizes; every array sequence up to %d", len(hd), r.Pick(4, 5))
}
