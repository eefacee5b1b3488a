//go:build go1.25

package libmpeg

import (
	"bytes"
	"fmt"
	"testing"

	"github.com/SmartBrave/Athena/easyio"
	v "github.com/sbraveyoung/GGmpeg/verif_vlib"
)

type t01frame struct {
	pid      uint16
	size     int
	key      bool
	pts, dts uint64
	all      int //1, 2: every byte is 0xff or 0
}

func (f t01frame) data() []byte {
	switch f.all {
	case 1:
		return bytes.Repeat([]byte{0xff}, f.size)
	case 2:
		return make([]byte, f.size)
	}
	return v.Fill(f.size, f.size)
}

func (f t01frame) String() string {
	return fmt.Sprintf("pid %#x size %d (%d) key %v pts %d dts %d", f.pid, f.size, f.all, f.key, f.pts, f.dts)
}

func t01pat() *PAT {
	return &PAT{SectionSyntaxIndicator: 1, SectionLength: 0x0d, TransportStreamID: 1, CurrentNextIndicator: 1, PMTs: map[uint16]*PMT{
		PMT_PID: {TableID: 2, SectionSyntaxIndicator: 1, SectionLength: 0x17, ProgramNumber: 1, CurrentNextIndicator: 1, PCR_PID: VIDEO_PID, Streams: map[uint16]*PES{
			AUDIO_PID: {StreamID: 0xc0, StreamType: 0x0f, PacketStartCodePrefix: 1},
			VIDEO_PID: {StreamID: 0xe0, StreamType: 0x1b, PacketStartCodePrefix: 1},
		}},
	}}
}

// t01mux writes tables and frames the way a segment is written.
func t01mux(r *v.Run, desc string, cc map[uint16]uint8, frames []t01frame) (out []byte, ok bool) {
	ok = r.Guard("t01:", desc, func() {
		buf := &bytes.Buffer{}
		w := easyio.NewEasyWriter(buf)
		pat := t01pat()
		NewTs(PAT_PID, cc, true).Mux(pat, false, 0, w)
		NewTs(PMT_PID, cc, true).Mux(pat.PMTs[PMT_PID], false, 0, w)
		for _, f := range frames {
			pes := pat.PMTs[PMT_PID].Streams[f.pid]
			pes.PTS, pes.DTS = f.pts, f.dts
			pes.PTS_DTSFlag, pes.PESHeaderDataLength = 2, 5
			if f.pts != f.dts {
				pes.PTS_DTSFlag, pes.PESHeaderDataLength = 3, 10
			}
			pes.Index, pes.HeaderIndex = 0, 0
			pes.Data = f.data()
			first := true
			for n := 0; ; n++ {
				finish, err := NewTs(f.pid, cc, first).Mux(pes, f.key && first, f.dts, w)
				if err != nil {
					r.Violation("t01:mux-error", desc, "%v: %v", f, err)
					return
				}
				first = false
				if finish {
					break
				}
				if n > f.size+10 {
					r.Violation("t01:mux-endless", desc, "%v does not finish", f)
					return
				}
			}
		}
		out = buf.Bytes()
	})
	return
}

func t01check(r *v.Run, desc string, out []byte, frames []t01frame) {
	d := v.DemuxTS(out)
	if len(d.Errs) > 0 {
		r.Violation("t01:illegal", desc, "%s", d.Errs[0])
		return
	}
	if len(d.Tables) != 2 || d.Tables[0].PID != 0 || d.Tables[1].ID != 2 || d.Tables[1].Entries[VIDEO_PID] != 0x1b || d.Tables[1].Entries[AUDIO_PID] != 0x0f || d.Tables[1].PCRPID != VIDEO_PID || len(d.Tables[1].Entries) != 2 || d.Tables[0].Entries[d.Tables[1].Ext] != PMT_PID || d.Tables[1].PID != PMT_PID {
		r.Violation("t01:tables", desc, "%+v", d.Tables)
	}
	if len(d.Units) != len(frames) {
		r.Violation("t01:units", desc, "%d units for %d frames", len(d.Units), len(frames))
		return
	}
	for i, u := range d.Units {
		f := frames[i]
		const m = 1<<33 - 1
		sid := byte(0xe0)
		if f.pid == AUDIO_PID {
			sid = 0xc0
		}
		switch {
		case u.PID != f.pid || u.StreamID != sid:
			r.Violation("t01:stream", desc, "%v is on PID %#x stream id %#x", f, u.PID, u.StreamID)
		case !bytes.Equal(u.Data, f.data()):
			r.Violation("t01:payload", desc, "%v came back as %d bytes", f, len(u.Data))
		case uint64(u.PTS) != f.pts&m || uint64(u.DTS) != f.dts&m:
			r.Violation("t01:time", desc, "%v has PTS %d DTS %d", f, u.PTS, u.DTS)
		case f.key && (!u.RAI || uint64(u.PCR) != f.dts&m):
			r.Violation("t01:pcr", desc, "%v random access %v PCR %d", f, u.RAI, u.PCR)
		case !f.key && u.RAI:
			r.Violation("t01:rai", desc, "%v marked as random access point", f)
		}
	}
}

// t01demux reads the packets back with this library.
func t01demux(r *v.Run, desc string, out []byte, f t01frame) {
	r.Guard("t01:", desc, func() {
		pat := NewPAT()
		table := map[uint16]PSI{0: pat}
		var pes *PES
		for off := 0; off+188 <= len(out); off += 188 {
			ts := &TS{}
			if err := ts.DeMux(table, easyio.NewEasyReader(bytes.NewReader(out[off:off+188]))); err != nil {
				r.Violation("t01:demux-error", desc, "packet %d: %v", off/188, err)
				return
			}
			p, _ := v.ParseTSPacket(out[off : off+188])
			if ts.PID != p.PID || ts.ContinuityCounter != p.CC || (ts.PayloadUnitStartIndicator == 1) != p.PUSI {
				r.Violation("t01:demux-header", desc, "packet %d: %+v", off/188, ts)
			}
			if p.PCR >= 0 && (ts.AdaptationField == nil || ts.AdaptationField.PCRFlag != 1 || int64(ts.AdaptationField.ProgramClockReferenceBase) != p.PCR || ts.AdaptationField.RandomAccessIndicator != 1) {
				r.Violation("t01:demux-adaptation", desc, "packet %d: %+v", off/188, ts.AdaptationField)
			}
			switch off / 188 {
			case 0:
				for pid, pmt := range pat.PMTs {
					table[pid] = pmt
				}
			case 1:
				pmt := pat.PMTs[PMT_PID]
				if pmt == nil {
					r.Violation("t01:demux-pat", desc, "%+v", pat)
					return
				}
				for pid, s := range pmt.Streams {
					table[pid] = s
				}
				pes = pmt.Streams[f.pid]
				if pes == nil {
					r.Violation("t01:demux-pmt", desc, "%+v", pmt)
					return
				}
			}
		}
		const m = 1<<33 - 1
		if pes == nil || !bytes.Equal(pes.Data, f.data()) || pes.PTS != f.pts&m || pes.DTS != f.dts&m {
			n := -1
			if pes != nil {
				n = len(pes.Data)
			}
			r.Violation("t01:demux-pes", desc, "%v parsed back as %d bytes", f, n)
		}
	})
}

func TestV_T01(t *testing.T) {
	r := v.Start(t)
	defer r.Finish()
	var sizes []int
	for n := 0; n <= r.Pick(800, 3000); n++ {
		sizes = append(sizes, n)
	}
	big := []int{5000, 32767, 32768, 65500, 65507, 65512, 65517, 65521, 65522, 65523, 65526, 65527, 65528, 65535, 65536, 65550, 100000, 1 << 20}
	one := func(f t01frame) {
		desc := f.String()
		r.Journal("T01 %s", desc)
		r.Eval(fmt.Sprintf("pid %#x key %v equal times %v", f.pid, f.key, f.pts == f.dts), desc)
		out, ok := t01mux(r, desc, map[uint16]uint8{}, []t01frame{f})
		if ok && out != nil {
			t01check(r, desc, out, []t01frame{f})
			t01demux(r, desc, out, f)
		}
	}
	kinds := []t01frame{{pid: VIDEO_PID, key: true, pts: 90000, dts: 90000}, {pid: VIDEO_PID, key: true, pts: 93600, dts: 90000}, {pid: VIDEO_PID, pts: 90000, dts: 90000}, {pid: VIDEO_PID, pts: 97200, dts: 90000}, {pid: AUDIO_PID, pts: 90000, dts: 90000}}
	for _, n := range append(append([]int{}, sizes...), big...) {
		for _, k := range kinds {
			if k.pid == AUDIO_PID && n > 65000 || !r.Mine() {
				continue
			}
			k.size = n
			one(k)
			for k.all = 1; k.all <= 2 && n < 800; k.all++ {
				one(k)
			}
		}
	}
	//timestamps: every one and two bit pattern, differences of both signs around the wrap
	var times []uint64
	for i := uint(0); i < 36; i++ {
		times = append(times, 1<<i, 1<<i-1)
		for j := uint(0); j < i; j++ {
			times = append(times, 1<<i|1<<j, (1<<i)-(1<<j))
		}
	}
	for i, x := range times {
		if !r.Mine() {
			continue
		}
		one(t01frame{VIDEO_PID, 100 + i%300, true, x, x, 0})
		one(t01frame{VIDEO_PID, 100 + i%300, i%2 == 0, x + 3600, x, 0})
		one(t01frame{VIDEO_PID, 30, true, x, times[(i+7)%len(times)], 0})
		one(t01frame{AUDIO_PID, 200, false, x, x, 0})
	}
	//continuity: every order of three frames of boundary sizes from every counter value
	small := []int{0, 1, 100, 150, 157, 158, 165, 166, 170, 171, 175, 176, 177, 183, 184, 185, 300, 352, 359}
	ords := [][3]int{{0, 2, 4}, {1, 3, 2}, {4, 4, 0}, {2, 4, 3}}
	for c0 := uint8(0); c0 < 16; c0++ {
		for _, a := range small {
			for _, b := range small {
				for oi, o := range ords {
					if !r.Mine() {
						continue
					}
					if r.Quick() && (a+b+oi)%3 != 0 {
						continue
					}
					f := []t01frame{kinds[o[0]], kinds[o[1]], kinds[o[2]]}
					f[0].size, f[1].size, f[2].size = a, b, (a+b)/2
					desc := fmt.Sprintf("counter %d frames %v", c0, f)
					r.Journal("T01 %s", desc)
					r.Eval("three frames", desc)
					if out, ok := t01mux(r, desc, map[uint16]uint8{VIDEO_PID: c0, AUDIO_PID: c0, PAT_PID: 15 - c0}, f); ok && out != nil {
						t01check(r, desc, out, f)
					}
				}
			}
		}
	}
	t01psi(r)
	r.Note("PES: sizes 0..%d and %v x 5 stream kinds; %d timestamps (one and two bit patterns up to 36 bits)", sizes[len(sizes)-1], big, len(times))
	r.Note("three frames of %d boundary sizes from every continuity counter", len(small))
}

func t01psi(r *v.Run) {
	//tables written
	for n := 1; n <= 34; n++ {
		for ver := 0; ver < 32; ver++ {
			if !r.Mine() {
				continue
			}
			desc := fmt.Sprintf("%d entries version %d", n, ver)
			r.Journal("T01 %s", desc)
			r.Eval("tables", desc)
			r.Guard("t01:", desc, func() {
				pat := &PAT{SectionSyntaxIndicator: 1, SectionLength: uint16(9 + 4*n), TransportStreamID: uint16(ver * 2113), VersionNumber: uint8(ver), CurrentNextIndicator: 1, PMTs: map[uint16]*PMT{}}
				pmt := &PMT{TableID: 2, SectionSyntaxIndicator: 1, SectionLength: uint16(13 + 5*n), ProgramNumber: uint16(n*1777 + 1), VersionNumber: uint8(ver), CurrentNextIndicator: 1, PCR_PID: uint16(0x1fff - n*100), Streams: map[uint16]*PES{}}
				progs, types := map[uint16]uint16{}, map[uint16]uint16{}
				for i := 0; i < n; i++ {
					pid := uint16(0x20 + (i*631+ver*7)%0x1f00)
					pat.PMTs[pid] = &PMT{ProgramNumber: uint16(1 + i*1931)}
					progs[uint16(1+i*1931)] = pid
					ty := []uint8{0x1b, 0x0f, 0x24, 0x03, 0x06, 0x81}[i%6]
					pmt.Streams[pid] = &PES{StreamID: 0xe0, StreamType: ty}
					types[pid] = uint16(ty)
				}
				pb, tb := &bytes.Buffer{}, &bytes.Buffer{}
				np, _, err1 := pat.Marshal(easyio.NewEasyWriter(pb), 184)
				nt, _, err2 := pmt.Marshal(easyio.NewEasyWriter(tb), 187)
				if err1 != nil || err2 != nil || np != pb.Len() || nt != tb.Len() || np != pat.Remain() || nt != pmt.Remain() {
					r.Violation("t01:psi-marshal", desc, "%v %v sizes %d/%d/%d %d/%d/%d", err1, err2, np, pb.Len(), pat.Remain(), nt, tb.Len(), pmt.Remain())
					return
				}
				a, _, err := v.ParseSection(pb.Bytes())
				if err != nil || a.Ext != pat.TransportStreamID || a.Version != uint8(ver) || fmt.Sprint(a.Entries) != fmt.Sprint(progs) {
					r.Violation("t01:pat", desc, "PAT %x reads as %+v (%v)", pb.Bytes(), a, err)
				}
				m, _, err := v.ParseSection(tb.Bytes())
				if err != nil || m.Ext != pmt.ProgramNumber || m.Version != uint8(ver) || m.PCRPID != pmt.PCR_PID || fmt.Sprint(m.Entries) != fmt.Sprint(types) {
					r.Violation("t01:pmt", desc, "PMT %x reads as %+v (%v)", tb.Bytes(), m, err)
				}
				t01parse(r, desc, pb.Bytes(), tb.Bytes(), pat.TransportStreamID, uint8(ver), progs, pmt.ProgramNumber, pmt.PCR_PID, types)
			})
		}
	}
	//tables written by others: descriptors, long sections
	for n := 0; n <= 100; n++ {
		for _, info := range []int{0, 1, 6, 200, 255, 256, 300} {
			for _, es := range []int{0, 3, 40} {
				if !r.Mine() || 13+info+n*(5+es) > 0x3fd {
					continue
				}
				desc := fmt.Sprintf("foreign tables: %d entries, info %d, stream info %d", n, info, es)
				r.Journal("T01 %s", desc)
				r.Eval("foreign tables", desc)
				var ps [][2]uint16
				var ess []v.ESInfo
				progs, types := map[uint16]uint16{}, map[uint16]uint16{}
				for i := 0; i < n; i++ {
					pid := uint16(0x20 + i*67)
					ps = append(ps, [2]uint16{uint16(i + 1), pid})
					progs[uint16(i+1)] = pid
					ty := []byte{0x1b, 0x0f, 0x24}[i%3]
					ess = append(ess, v.ESInfo{Type: ty, PID: pid, Info: v.Fill(i, es)})
					types[pid] = uint16(ty)
				}
				r.Guard("t01:", desc, func() {
					t01parse(r, desc, v.PATSection(ps, 5), v.PMTSection(9, 0x1abc, 5, v.Fill(3, info), ess), 1, 5, progs, 9, 0x1abc, types)
				})
			}
		}
	}
	//a damaged table is never taken for a good one
	good := v.PMTSection(1, 0x100, 0, nil, []v.ESInfo{{Type: 0x1b, PID: 0x100}, {Type: 0x0f, PID: 0x101}})
	for bit := 0; bit < len(good)*8; bit++ {
		bad := append([]byte(nil), good...)
		bad[bit/8] ^= 0x80 >> (bit % 8)
		r.Eval("damaged", fmt.Sprint("bit", bit))
		r.Guard("t01:", bit, func() {
			if err := NewPMT(1).Parse(easyio.NewEasyReader(bytes.NewReader(append(bad, v.Fill(1, 200)...)))); err == nil {
				r.Violation("t01:damaged-pmt", bit, "a PMT with bit %d flipped is accepted", bit)
			}
		})
	}
	for i := 0; i < 1<<16; i++ {
		b := []byte{byte(i >> 8), byte(i), byte(i * 7)}
		if CRC32(b) != v.MpegCRC(b) {
			r.Violation("t01:crc", i, "CRC of %x", b)
			break
		}
	}
	r.Eval("crc", "crc")
	r.Note("PSI: 1..34 entries x 32 versions written and parsed; foreign tables of up to 100 entries with descriptors; every bit flip of a PMT; CRC of all 2-byte prefixes")
}

func t01parse(r *v.Run, desc string, patB, pmtB []byte, tsid uint16, ver uint8, progs map[uint16]uint16, prog, pcr uint16, types map[uint16]uint16) {
	pat := NewPAT()
	tail := []byte{0xff, 0xff, 0xff}
	if err := pat.Parse(easyio.NewEasyReader(bytes.NewReader(append(append([]byte{}, patB...), tail...)))); err != nil {
		r.Violation("t01:pat-parse", desc, "%v", err)
	} else {
		got := map[uint16]uint16{}
		for pid, p := range pat.PMTs {
			got[p.ProgramNumber] = pid
		}
		if pat.TransportStreamID != tsid || pat.VersionNumber != ver || fmt.Sprint(got) != fmt.Sprint(progs) {
			r.Violation("t01:pat-parse", desc, "%+v, programs %v instead of %v", pat, got, progs)
		}
	}
	pmt := NewPMT(prog)
	if err := pmt.Parse(easyio.NewEasyReader(bytes.NewReader(append(append([]byte{}, pmtB...), tail...)))); err != nil {
		r.Violation("t01:pmt-parse", desc, "%v", err)
	} else {
		got := map[uint16]uint16{}
		for pid, s := range pmt.Streams {
			got[pid] = uint16(s.StreamType)
		}
		if pmt.ProgramNumber != prog || pmt.VersionNumber != ver || pmt.PCR_PID != pcr || fmt.Sprint(got) != fmt.Sprint(types) {
			r.Violation("t01:pmt-parse", desc, "%+v, streams %v instead of %v", pmt, got, types)
		}
	}
}
