//go:build go1.25

package verif_vlib

import (
	"encoding/binary"
	"fmt"
)

// MP4Box is a box with its payload and, for the containers an init or media segment uses, its
// children.
type MP4Box struct {
	Type     string
	At       int //offset of the box in its file
	Body     []byte
	Children []*MP4Box
}

var mp4Containers = map[string]bool{"moov": true, "trak": true, "mdia": true, "minf": true, "dinf": true, "stbl": true, "mvex": true, "moof": true, "traf": true}

// ParseMP4 parses boxes strictly: sizes nest and nothing is left over.
func ParseMP4(b []byte) ([]*MP4Box, error) { return parseBoxes(b, 0) }

func parseBoxes(b []byte, at int) (out []*MP4Box, err error) {
	for len(b) > 0 {
		if len(b) < 8 {
			return nil, fmt.Errorf("%d stray bytes at %d", len(b), at)
		}
		n := int(binary.BigEndian.Uint32(b))
		if n < 8 || n > len(b) {
			return nil, fmt.Errorf("box %q at %d states %d bytes of %d", b[4:8], at, n, len(b))
		}
		x := &MP4Box{Type: string(b[4:8]), At: at, Body: b[8:n]}
		skip := -1
		switch {
		case mp4Containers[x.Type]:
			skip = 0
		case x.Type == "stsd" || x.Type == "dref":
			skip = 8
		case x.Type == "avc1" || x.Type == "hev1" || x.Type == "hvc1":
			skip = 78
		}
		if skip >= 0 {
			if len(x.Body) < skip {
				return nil, fmt.Errorf("box %q is too short", x.Type)
			}
			if x.Children, err = parseBoxes(x.Body[skip:], at+8+skip); err != nil {
				return nil, fmt.Errorf("%s: %w", x.Type, err)
			}
		}
		out = append(out, x)
		b = b[n:]
		at += n
	}
	return out, nil
}

func (x *MP4Box) Child(t string) *MP4Box {
	if x == nil {
		return nil
	}
	for _, c := range x.Children {
		if c.Type == t {
			return c
		}
	}
	return nil
}

func kinds(bs []*MP4Box) (s string) {
	for i, b := range bs {
		if i > 0 {
			s += " "
		}
		s += b.Type
	}
	return
}

// InitInfo is what an init segment says.
type InitInfo struct {
	Track, Timescale, MovieTimescale uint32
	TkW, TkH                         uint32 //16.16
	W, H                             uint16
	Entry, ConfigBox                 string
	Config                           []byte
}

var unity = []uint32{0x10000, 0, 0, 0, 0x10000, 0, 0, 0, 0x40000000}

func u16(b []byte, o int) uint16 { return binary.BigEndian.Uint16(b[o:]) }
func u32(b []byte, o int) uint32 { return binary.BigEndian.Uint32(b[o:]) }
func u64(b []byte, o int) uint64 { return binary.BigEndian.Uint64(b[o:]) }

// ParseInit checks an init segment for one video track and extracts what it says.
func ParseInit(b []byte) (in InitInfo, err error) {
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("truncated box: %v", p)
		}
	}()
	top, err := ParseMP4(b)
	if err != nil {
		return in, err
	}
	bad := func(f string, a ...interface{}) (InitInfo, error) { return in, fmt.Errorf(f, a...) }
	if kinds(top) != "ftyp moov" {
		return bad("top level is %q", kinds(top))
	}
	if len(top[0].Body) < 12 || len(top[0].Body)%4 != 0 {
		return bad("ftyp of %d bytes", len(top[0].Body))
	}
	moov := top[1]
	if kinds(moov.Children) != "mvhd trak mvex" {
		return bad("moov has %q", kinds(moov.Children))
	}
	full := func(x *MP4Box) (ver byte, flags uint32) { return x.Body[0], u32(x.Body, 0) & 0xffffff }
	matrix := func(b []byte) bool {
		for i, w := range unity {
			if u32(b, 4*i) != w {
				return false
			}
		}
		return true
	}
	mvhd := moov.Child("mvhd")
	o := 4 + 8
	ver, _ := full(mvhd)
	if ver == 1 {
		o = 4 + 16
	}
	in.MovieTimescale = u32(mvhd.Body, o)
	o += 4
	if ver == 1 {
		if u64(mvhd.Body, o) != 0 {
			return bad("mvhd duration")
		}
		o += 8
	} else {
		o += 4
	}
	if u32(mvhd.Body, o) != 0x10000 || u16(mvhd.Body, o+4) != 0x100 || !matrix(mvhd.Body[o+16:]) || len(mvhd.Body) != o+16+36+24+4 {
		return bad("mvhd is malformed: %x", mvhd.Body)
	}
	next := u32(mvhd.Body, o+16+36+24)
	trak := moov.Child("trak")
	if kinds(trak.Children) != "tkhd mdia" {
		return bad("trak has %q", kinds(trak.Children))
	}
	tk := trak.Child("tkhd")
	ver, fl := full(tk)
	if fl&3 != 3 {
		return bad("track flags %x: not enabled in the movie", fl)
	}
	o = 4 + 8
	if ver == 1 {
		o = 4 + 16
	}
	in.Track = u32(tk.Body, o)
	o += 8
	if ver == 1 {
		o += 8
	} else {
		o += 4
	}
	o += 8 + 2 + 2 + 2 + 2
	if !matrix(tk.Body[o:]) || len(tk.Body) != o+36+8 {
		return bad("tkhd is malformed")
	}
	in.TkW, in.TkH = u32(tk.Body, o+36), u32(tk.Body, o+40)
	if in.Track == 0 || next <= in.Track && next != 0xffffffff && in.Track != 0xffffffff && in.Track < 2 {
		return bad("track %d, next track %d", in.Track, next)
	}
	mdia := trak.Child("mdia")
	if kinds(mdia.Children) != "mdhd hdlr minf" {
		return bad("mdia has %q", kinds(mdia.Children))
	}
	md := mdia.Child("mdhd")
	if md.Body[0] == 1 {
		in.Timescale = u32(md.Body, 20)
		if len(md.Body) != 36 || u16(md.Body, 32) != 0x55c4 {
			return bad("mdhd is malformed")
		}
	} else {
		in.Timescale = u32(md.Body, 12)
		if len(md.Body) != 24 {
			return bad("mdhd is malformed")
		}
	}
	hd := mdia.Child("hdlr")
	if len(hd.Body) < 25 || string(hd.Body[8:12]) != "vide" || hd.Body[len(hd.Body)-1] != 0 {
		return bad("hdlr is malformed: %q", hd.Body)
	}
	minf := mdia.Child("minf")
	if kinds(minf.Children) != "vmhd dinf stbl" {
		return bad("minf has %q", kinds(minf.Children))
	}
	vm := minf.Child("vmhd")
	if _, fl := full(vm); fl != 1 || len(vm.Body) != 12 {
		return bad("vmhd is malformed")
	}
	dref := minf.Child("dinf").Child("dref")
	if dref == nil || u32(dref.Body, 4) != 1 || kinds(dref.Children) != "url " {
		return bad("dref is malformed")
	}
	if _, fl := full(dref.Children[0]); fl != 1 || len(dref.Children[0].Body) != 4 {
		return bad("data reference is not this file")
	}
	stbl := minf.Child("stbl")
	if kinds(stbl.Children) != "stsd stts stsc stsz stco" {
		return bad("stbl has %q", kinds(stbl.Children))
	}
	for _, n := range []string{"stts", "stsc", "stco"} {
		if x := stbl.Child(n).Body; len(x) != 8 || u64(x, 0) != 0 {
			return bad("%s is not empty: %x", n, x)
		}
	}
	if x := stbl.Child("stsz").Body; len(x) != 12 || u64(x, 0) != 0 || u32(x, 8) != 0 {
		return bad("stsz is not empty: %x", x)
	}
	sd := stbl.Child("stsd")
	if u32(sd.Body, 0) != 0 || u32(sd.Body, 4) != 1 || len(sd.Children) != 1 {
		return bad("stsd has %d entries of %d", len(sd.Children), u32(sd.Body, 4))
	}
	e := sd.Children[0]
	in.Entry = e.Type
	if u16(e.Body, 6) != 1 {
		return bad("data reference index %d", u16(e.Body, 6))
	}
	in.W, in.H = u16(e.Body, 24), u16(e.Body, 26)
	if u32(e.Body, 28) != 0x480000 || u32(e.Body, 32) != 0x480000 || u16(e.Body, 40) != 1 || u16(e.Body, 74) != 0x18 || u16(e.Body, 76) != 0xffff {
		return bad("sample entry is malformed: %x", e.Body[:78])
	}
	if len(e.Children) != 1 {
		return bad("sample entry has %q", kinds(e.Children))
	}
	in.ConfigBox, in.Config = e.Children[0].Type, e.Children[0].Body
	mvex := moov.Child("mvex")
	tx := mvex.Child("trex")
	if kinds(mvex.Children) != "trex" || len(tx.Body) != 24 || u32(tx.Body, 4) != in.Track || u32(tx.Body, 8) != 1 {
		return bad("trex is malformed")
	}
	return in, nil
}

// FragSample is one sample of a media segment.
type FragSample struct {
	DTS   uint64
	Dur   uint32
	CTS   int64
	Flags uint32
	Data  []byte
}

func (s FragSample) Sync() bool { return s.Flags&0x10000 == 0 }

type Fragment struct {
	Seq, Track uint32
	Base       uint64
	Samples    []FragSample
}

// ParseFragment checks a media segment (optional styp, moof, mdat) and resolves its samples.
func ParseFragment(b []byte) (fr Fragment, err error) {
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("truncated box: %v", p)
		}
	}()
	top, err := ParseMP4(b)
	if err != nil {
		return fr, err
	}
	bad := func(f string, a ...interface{}) (Fragment, error) { return fr, fmt.Errorf(f, a...) }
	if len(top) > 0 && top[0].Type == "styp" {
		top = top[1:]
	}
	if kinds(top) != "moof mdat" {
		return bad("top level is %q", kinds(top))
	}
	moof, mdat := top[0], top[1]
	if kinds(moof.Children) != "mfhd traf" || kinds(moof.Child("traf").Children) != "tfhd tfdt trun" {
		return bad("moof has %q / %q", kinds(moof.Children), kinds(moof.Child("traf").Children))
	}
	if len(moof.Child("mfhd").Body) != 8 {
		return bad("mfhd is malformed")
	}
	fr.Seq = u32(moof.Child("mfhd").Body, 4)
	traf := moof.Child("traf")
	tf := traf.Child("tfhd").Body
	tfl := u32(tf, 0) & 0xffffff
	if tfl&0x020000 == 0 || tfl&0x1 != 0 || len(tf) != 8 || tfl&0x3f != 0 {
		return bad("tfhd %x", tf)
	}
	fr.Track = u32(tf, 4)
	td := traf.Child("tfdt").Body
	if td[0] == 1 {
		fr.Base = u64(td, 4)
		if len(td) != 12 {
			return bad("tfdt is malformed")
		}
	} else {
		fr.Base = uint64(u32(td, 4))
		if len(td) != 8 {
			return bad("tfdt is malformed")
		}
	}
	tr := traf.Child("trun").Body
	fl := u32(tr, 0) & 0xffffff
	n := int(u32(tr, 4))
	o := 8
	off := 0
	if fl&1 == 0 {
		return bad("trun without data offset")
	}
	off = moof.At + int(int32(u32(tr, o)))
	o += 4
	first := uint32(0)
	if fl&4 != 0 {
		first = u32(tr, o)
		o += 4
	}
	if off != mdat.At+8 {
		return bad("data offset points at %d, media data begin at %d", off, mdat.At+8)
	}
	dts := fr.Base
	for i := 0; i < n; i++ {
		s := FragSample{DTS: dts}
		size := 0
		if fl&0x100 != 0 {
			s.Dur = u32(tr, o)
			o += 4
		} else {
			return bad("no sample duration")
		}
		if fl&0x200 != 0 {
			size = int(u32(tr, o))
			o += 4
		} else {
			return bad("no sample size")
		}
		if fl&0x400 != 0 {
			s.Flags = u32(tr, o)
			o += 4
		} else if i == 0 && fl&4 != 0 {
			s.Flags = first
		}
		if fl&0x800 != 0 {
			if tr[0] == 0 {
				s.CTS = int64(u32(tr, o))
			} else {
				s.CTS = int64(int32(u32(tr, o)))
			}
			o += 4
		}
		if off+size > mdat.At+8+len(mdat.Body) {
			return bad("sample %d lies outside the media data", i)
		}
		s.Data = b[off : off+size]
		off += size
		dts += uint64(s.Dur)
		fr.Samples = append(fr.Samples, s)
	}
	if o != len(tr) {
		return bad("trun of %d bytes, its entries end at %d", len(tr), o)
	}
	if off != mdat.At+8+len(mdat.Body) {
		return bad("%d bytes of media data belong to no sample", mdat.At+8+len(mdat.Body)-off)
	}
	return fr, nil
}
