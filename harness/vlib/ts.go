//go:build go1.25

package verif_vlib

import (
	"bytes"
	"fmt"
)

// Independent MPEG transport stream reader and writer.

func MpegCRC(b []byte) uint32 {
	c := uint32(0xffffffff)
	for _, x := range b {
		c ^= uint32(x) << 24
		for i := 0; i < 8; i++ {
			if c&0x80000000 != 0 {
				c = c<<1 ^ 0x04c11db7
			} else {
				c <<= 1
			}
		}
	}
	return c
}

type TSPacket struct {
	PID     uint16
	PUSI    bool
	CC      byte
	HasAF   bool
	RAI     bool
	Disc    bool
	PCR     int64 //90 kHz base, -1: none
	PCRExt  int
	Payload []byte
}

// ParseTSPacket is strict: every reserved bit and stuffing byte is checked.
func ParseTSPacket(b []byte) (p TSPacket, err error) {
	p.PCR = -1
	if len(b) != 188 || b[0] != 0x47 {
		return p, fmt.Errorf("not a packet: %d bytes, first %#x", len(b), b[0])
	}
	if b[1]&0xa0 != 0 {
		return p, fmt.Errorf("error or priority bit set")
	}
	p.PUSI = b[1]&0x40 != 0
	p.PID = uint16(b[1]&0x1f)<<8 | uint16(b[2])
	p.CC = b[3] & 15
	if b[3]&0xc0 != 0 {
		return p, fmt.Errorf("scrambling control %#x", b[3]>>6)
	}
	afc := b[3] >> 4 & 3
	rest := b[4:]
	if afc == 0 {
		return p, fmt.Errorf("adaptation field control 0")
	}
	if afc&2 != 0 {
		p.HasAF = true
		n := int(rest[0])
		if afc == 3 && n > 182 || afc == 2 && n != 183 {
			return p, fmt.Errorf("adaptation field of %d bytes with control %d", n, afc)
		}
		af := rest[1 : 1+n]
		rest = rest[1+n:]
		if n > 0 {
			p.Disc, p.RAI = af[0]&0x80 != 0, af[0]&0x40 != 0
			if af[0]&0x2f != 0 {
				return p, fmt.Errorf("adaptation flags %#x", af[0])
			}
			fl := af[0]
			af = af[1:]
			if fl&0x10 != 0 {
				if len(af) < 6 {
					return p, fmt.Errorf("no room for the PCR: adaptation field of %d bytes", n)
				}
				p.PCR = int64(af[0])<<25 | int64(af[1])<<17 | int64(af[2])<<9 | int64(af[3])<<1 | int64(af[4]>>7)
				if af[4]&0x7e != 0x7e {
					return p, fmt.Errorf("reserved PCR bits %#x", af[4])
				}
				p.PCRExt = int(af[4]&1)<<8 | int(af[5])
				if p.PCRExt >= 300 {
					return p, fmt.Errorf("PCR extension %d", p.PCRExt)
				}
				af = af[6:]
			}
			for _, x := range af {
				if x != 0xff {
					return p, fmt.Errorf("stuffing byte %#x", x)
				}
			}
		}
	}
	if afc&1 != 0 {
		p.Payload = rest
	}
	return p, nil
}

type PESUnit struct {
	PID      uint16
	StreamID byte
	PTS, DTS int64 //-1: none
	Data     []byte
	RAI      bool
	PCR      int64
	At       int //offset of its first packet
	LenField int
}

type TSTable struct {
	At      int
	PID     uint16
	ID      byte
	Ext     uint16
	Version byte
	//PAT: program number -> PID. PMT: elementary PID -> stream type
	Entries map[uint16]uint16
	Order   []uint16
	PCRPID  uint16
}

// TSDemux reads a whole stream. Errs lists everything that is not legal.
type TSDemux struct {
	Units   []PESUnit
	Tables  []TSTable
	PCRs    []int64
	Packets []TSPacket
	Errs    []string
	cc      map[uint16]byte
	open    map[uint16]*PESUnit
	buf     map[uint16][]byte
	n       map[uint16]int
	order   []uint16
	sect    map[uint16][]byte
}

func DemuxTS(b []byte) *TSDemux {
	d := &TSDemux{cc: map[uint16]byte{}, open: map[uint16]*PESUnit{}, buf: map[uint16][]byte{}, sect: map[uint16][]byte{}}
	if len(b)%188 != 0 {
		d.errf(len(b), "%d bytes are not whole packets", len(b))
		b = b[:len(b)/188*188]
	}
	pmts := map[uint16]bool{}
	for off := 0; off < len(b); off += 188 {
		p, err := ParseTSPacket(b[off : off+188])
		if err != nil {
			d.errf(off, "%v", err)
			continue
		}
		d.Packets = append(d.Packets, p)
		if p.PCR >= 0 {
			d.PCRs = append(d.PCRs, p.PCR)
		}
		if last, ok := d.cc[p.PID]; ok {
			want := last
			if len(p.Payload) > 0 {
				want = (last + 1) & 15
			}
			if p.CC != want && !p.Disc {
				d.errf(off, "PID %#x continuity counter %d after %d", p.PID, p.CC, last)
			}
		}
		d.cc[p.PID] = p.CC
		if p.PID == 0 || pmts[p.PID] {
			t := d.section(off, p)
			if t != nil && t.ID == 0 {
				for _, pid := range t.Entries {
					pmts[pid] = true
				}
			}
			continue
		}
		if p.PUSI {
			d.flush(p.PID)
			d.open[p.PID] = &PESUnit{PID: p.PID, RAI: p.RAI, PCR: p.PCR, At: off, PTS: -1, DTS: -1}
			d.order = append(d.order, p.PID)
		} else if d.open[p.PID] == nil {
			d.errf(off, "PID %#x continues nothing", p.PID)
			continue
		}
		d.buf[p.PID] = append(d.buf[p.PID], p.Payload...)
		//units are listed in the order in which they begin
		if p.PUSI {
			d.Units = append(d.Units, PESUnit{PID: p.PID, At: off})
		}
	}
	for pid := range d.open {
		d.flush(pid)
	}
	return d
}

func (d *TSDemux) errf(off int, f string, a ...interface{}) {
	if len(d.Errs) < 20 {
		d.Errs = append(d.Errs, fmt.Sprintf("packet %d: ", off/188)+fmt.Sprintf(f, a...))
	}
}

func (d *TSDemux) flush(pid uint16) {
	u := d.open[pid]
	if u == nil {
		return
	}
	delete(d.open, pid)
	b := d.buf[pid]
	d.buf[pid] = nil
	bad := func(f string, a ...interface{}) { d.errf(u.At, "PID %#x PES: "+f, append([]interface{}{pid}, a...)...) }
	done := func() {
		for i := len(d.Units) - 1; i >= 0; i-- {
			if d.Units[i].PID == pid && d.Units[i].At == u.At {
				d.Units[i] = *u
				return
			}
		}
	}
	defer done()
	if len(b) < 9 || b[0] != 0 || b[1] != 0 || b[2] != 1 {
		bad("no start code: %x", b[:min(9, len(b))])
		return
	}
	u.StreamID = b[3]
	u.LenField = int(b[4])<<8 | int(b[5])
	if u.LenField == 0 && b[3]&0xf0 != 0xe0 {
		bad("unbounded length on stream id %#x", b[3])
	}
	if u.LenField != 0 && u.LenField != len(b)-6 {
		bad("length field %d, %d bytes follow", u.LenField, len(b)-6)
		if u.LenField < len(b)-6 {
			b = b[:6+u.LenField]
		}
	}
	if b[6]&0xc0 != 0x80 || b[6]&0x30 != 0 {
		bad("flags %#x", b[6])
	}
	if b[7]&0x3f != 0 {
		bad("extra flags %#x", b[7])
	}
	n := int(b[8])
	if 9+n > len(b) {
		bad("header length %d", n)
		return
	}
	h := b[9 : 9+n]
	u.Data = b[9+n:]
	ts := func(pre byte) int64 {
		if len(h) < 5 {
			bad("header of %d bytes has no room for a timestamp", n)
			return -1
		}
		if h[0]>>4 != pre || h[0]&1 != 1 || h[2]&1 != 1 || h[4]&1 != 1 {
			bad("timestamp markers %x", h[:5])
		}
		t := int64(h[0]>>1&7)<<30 | int64(h[1])<<22 | int64(h[2]>>1)<<15 | int64(h[3])<<7 | int64(h[4]>>1)
		h = h[5:]
		return t
	}
	switch b[7] >> 6 {
	case 2:
		u.PTS = ts(2)
		u.DTS = u.PTS
	case 3:
		u.PTS = ts(3)
		u.DTS = ts(1)
	case 1:
		bad("DTS without PTS")
	}
	for _, x := range h {
		if x != 0xff {
			bad("header stuffing %#x", x)
			break
		}
	}
}

func (d *TSDemux) section(off int, p TSPacket) *TSTable {
	b := p.Payload
	if !p.PUSI {
		d.errf(off, "table continues over packets")
		return nil
	}
	if len(b) < 1 || 1+int(b[0]) > len(b) {
		d.errf(off, "pointer field")
		return nil
	}
	b = b[1+int(b[0]):]
	t, n, err := ParseSection(b)
	if err != nil {
		d.errf(off, "%v", err)
		return nil
	}
	if len(bytes.Trim(b[n:], "\xff")) != 0 {
		d.errf(off, "bytes after the table: %x", b[n:])
	}
	t.At, t.PID = off, p.PID
	d.Tables = append(d.Tables, *t)
	return t
}

// ParseSection reads one PAT or PMT section strictly.
func ParseSection(b []byte) (*TSTable, int, error) {
	if len(b) < 12 {
		return nil, 0, fmt.Errorf("table of %d bytes", len(b))
	}
	t := &TSTable{ID: b[0], Entries: map[uint16]uint16{}}
	if b[1]&0xf0 != 0xb0 {
		return nil, 0, fmt.Errorf("table syntax bits %#x", b[1])
	}
	n := int(b[1]&15)<<8 | int(b[2])
	if n > 0x3fd || 3+n > len(b) || n < 9 {
		return nil, 0, fmt.Errorf("section length %d", n)
	}
	b = b[:3+n]
	if c := MpegCRC(b); c != 0 {
		return nil, 0, fmt.Errorf("table %d CRC", b[0])
	}
	t.Ext = uint16(b[3])<<8 | uint16(b[4])
	if b[5]&0xc0 != 0xc0 || b[5]&1 != 1 {
		return nil, 0, fmt.Errorf("table version byte %#x", b[5])
	}
	t.Version = b[5] >> 1 & 31
	if b[6] != 0 || b[7] != 0 {
		return nil, 0, fmt.Errorf("section %d of %d", b[6], b[7])
	}
	body := b[8 : len(b)-4]
	switch t.ID {
	case 0:
		if len(body)%4 != 0 {
			return nil, 0, fmt.Errorf("PAT body of %d bytes", len(body))
		}
		for ; len(body) > 0; body = body[4:] {
			if body[2]&0xe0 != 0xe0 {
				return nil, 0, fmt.Errorf("PAT reserved bits")
			}
			k := uint16(body[0])<<8 | uint16(body[1])
			if _, dup := t.Entries[k]; dup {
				return nil, 0, fmt.Errorf("program %d twice", k)
			}
			t.Entries[k] = uint16(body[2]&31)<<8 | uint16(body[3])
			t.Order = append(t.Order, k)
		}
	case 2:
		if len(body) < 4 || body[0]&0xe0 != 0xe0 || body[2]&0xf0 != 0xf0 {
			return nil, 0, fmt.Errorf("PMT reserved bits")
		}
		t.PCRPID = uint16(body[0]&31)<<8 | uint16(body[1])
		il := int(body[2]&15)<<8 | int(body[3])
		if 4+il > len(body) {
			return nil, 0, fmt.Errorf("PMT info length %d", il)
		}
		for body = body[4+il:]; len(body) > 0; {
			if len(body) < 5 || body[1]&0xe0 != 0xe0 || body[3]&0xf0 != 0xf0 {
				return nil, 0, fmt.Errorf("PMT stream entry %x", body[:min(5, len(body))])
			}
			pid := uint16(body[1]&31)<<8 | uint16(body[2])
			el := int(body[3]&15)<<8 | int(body[4])
			if 5+el > len(body) {
				return nil, 0, fmt.Errorf("PMT stream info length %d", el)
			}
			if _, dup := t.Entries[pid]; dup {
				return nil, 0, fmt.Errorf("PID %#x twice", pid)
			}
			t.Entries[pid] = uint16(body[0])
			t.Order = append(t.Order, pid)
			body = body[5+el:]
		}
	default:
		return nil, 0, fmt.Errorf("table id %d", t.ID)
	}
	return t, 3 + n, nil
}

// TSWriter is an independent multiplexer.
type TSWriter struct {
	Out []byte
	CC  map[uint16]byte
	//MaxPayload limits the payload of each packet (stuffing the rest); 0: full packets
	MaxPayload int
}

func PATSection(progs [][2]uint16, version byte) []byte {
	b := []byte{0, 0xb0, 0, 0, 1, 0xc1 | version<<1, 0, 0}
	for _, p := range progs {
		b = append(b, byte(p[0]>>8), byte(p[0]), 0xe0|byte(p[1]>>8), byte(p[1]))
	}
	return sealSection(b)
}

type ESInfo struct {
	Type byte
	PID  uint16
	Info []byte
}

func PMTSection(prog, pcr uint16, version byte, info []byte, es []ESInfo) []byte {
	b := []byte{2, 0xb0, 0, byte(prog >> 8), byte(prog), 0xc1 | version<<1, 0, 0, 0xe0 | byte(pcr>>8), byte(pcr), 0xf0 | byte(len(info)>>8), byte(len(info))}
	b = append(b, info...)
	for _, e := range es {
		b = append(b, e.Type, 0xe0|byte(e.PID>>8), byte(e.PID), 0xf0|byte(len(e.Info)>>8), byte(len(e.Info)))
		b = append(b, e.Info...)
	}
	return sealSection(b)
}

func sealSection(b []byte) []byte {
	n := len(b) - 3 + 4
	b[1] = 0xb0 | byte(n>>8)
	b[2] = byte(n)
	return append(b, U32(MpegCRC(b))...)
}

func (w *TSWriter) packet(pid uint16, pusi bool, af []byte, payload []byte) (n int) {
	if w.CC == nil {
		w.CC = map[uint16]byte{}
	}
	room := 184
	max := room
	if w.MaxPayload > 0 && w.MaxPayload < max {
		max = w.MaxPayload
	}
	if len(af) > 0 && max > room-1-len(af) {
		max = room - 1 - len(af)
	}
	n = len(payload)
	if n > max {
		n = max
	}
	p := []byte{0x47, byte(pid >> 8), byte(pid), 0x10 | w.CC[pid]}
	w.CC[pid] = (w.CC[pid] + 1) & 15
	if pusi {
		p[1] |= 0x40
	}
	if fill := room - n; fill > 0 {
		p[3] |= 0x20
		p = append(p, byte(fill-1))
		if fill > 1 {
			if len(af) == 0 {
				af = []byte{0}
			}
			p = append(p, af...)
			for len(p) < 4+fill {
				p = append(p, 0xff)
			}
		}
	}
	p = append(p, payload[:n]...)
	if len(p) != 188 {
		panic("verif-internal: packet size")
	}
	w.Out = append(w.Out, p...)
	return n
}

func (w *TSWriter) Section(pid uint16, sec []byte, pointer int) {
	pl := append([]byte{byte(pointer)}, bytes.Repeat([]byte{0xff}, pointer)...)
	pl = append(pl, sec...)
	for len(pl) < 184 {
		pl = append(pl, 0xff)
	}
	first := true
	mp := w.MaxPayload
	w.MaxPayload = 0
	for len(pl) > 0 {
		for len(pl) < 184 {
			pl = append(pl, 0xff)
		}
		n := w.packet(pid, first, nil, pl)
		pl = pl[n:]
		first = false
	}
	w.MaxPayload = mp
}

func pesTime(pre byte, t int64) []byte {
	t &= 1<<33 - 1
	return []byte{pre<<4 | byte(t>>30)<<1 | 1, byte(t >> 22), byte(t>>15)<<1 | 1, byte(t >> 7), byte(t)<<1 | 1}
}

// PESBytes builds a PES packet. dts<0: PTS only. bounded: with the length field set.
func PESBytes(sid byte, pts, dts int64, data []byte, bounded bool, hdrStuff int) []byte {
	var h []byte
	fl := byte(0x80)
	if dts >= 0 {
		fl = 0xc0
		h = append(pesTime(3, pts), pesTime(1, dts)...)
	} else {
		h = pesTime(2, pts)
	}
	for i := 0; i < hdrStuff; i++ {
		h = append(h, 0xff)
	}
	n := 3 + len(h) + len(data)
	if !bounded || n > 0xffff {
		n = 0
	}
	b := []byte{0, 0, 1, sid, byte(n >> 8), byte(n), 0x80, fl, byte(len(h))}
	return append(append(b, h...), data...)
}

// PES writes a PES packet as transport packets; pcr<0: none.
func (w *TSWriter) PES(pid uint16, pes []byte, rai bool, pcr int64) {
	var af []byte
	if rai || pcr >= 0 {
		af = []byte{0}
		if rai {
			af[0] |= 0x40
		}
		if pcr >= 0 {
			af[0] |= 0x10
			af = append(af, byte(pcr>>25), byte(pcr>>17), byte(pcr>>9), byte(pcr>>1), byte(pcr)<<7|0x7e, 0)
		}
	}
	first := true
	for first || len(pes) > 0 {
		n := w.packet(pid, first, af, pes)
		pes = pes[n:]
		af = nil
		first = false
	}
}

func (w *TSWriter) Null() { w.packet(0x1fff, false, nil, Fill(1, 184)) }
