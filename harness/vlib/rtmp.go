//go:build go1.25

package verif_vlib

import (
	"encoding/binary"
	"fmt"
)

// Independent RTMP chunk codec.
type Msg struct {
	Type    uint8
	CSID    uint32
	SID     uint32
	TS      uint32
	Payload []byte
}

func (m Msg) String() string {
	p := m.Payload
	if len(p) > 12 {
		p = p[:12]
	}
	return fmt.Sprintf("{t%d ts%d len%d %x}", m.Type, m.TS, len(m.Payload), p)
}

// Same compares what a receiver acts on (type, timestamp, payload).
func (m Msg) Same(o Msg) bool {
	return m.Type == o.Type && m.TS == o.TS && string(m.Payload) == string(o.Payload)
}

type encState struct {
	ts, delta, len, sid uint32
	typ                 uint8
	ext                 bool
	have                bool
	head, cont, rest    []byte
	after0              bool //last header was type 0: the delta of a following type 3 message is ambiguous in the specification
}

// ChunkWriter encodes chunks one at a time so that callers decide the interleaving and formats.
type ChunkWriter struct {
	Size uint32
	st   map[uint32]*encState
}

func NewChunkWriter(size uint32) *ChunkWriter {
	return &ChunkWriter{Size: size, st: map[uint32]*encState{}}
}

func BasicHeader(fmt uint8, csid uint32, form int) []byte {
	//form: 0 shortest; 1 force two-byte, 2 force three-byte (where legal)
	switch {
	case csid < 64 && form == 0:
		return []byte{fmt<<6 | byte(csid)}
	case csid >= 64 && csid < 320 && form <= 1:
		return []byte{fmt << 6, byte(csid - 64)}
	default:
		v := csid - 64
		return []byte{fmt<<6 | 1, byte(v), byte(v >> 8)}
	}
}

// Legal reports whether the message may start with header format f.
func (w *ChunkWriter) Legal(m Msg, f uint8) bool {
	s := w.st[m.CSID]
	if f == 0 {
		return true
	}
	if s == nil || !s.have || s.sid != m.SID {
		return false
	}
	if m.TS-s.ts >= 1<<31 {
		return false //going backwards needs a type 0 header
	}
	switch f {
	case 1:
		return true
	case 2:
		return s.len == uint32(len(m.Payload)) && s.typ == m.Type
	case 3:
		return !s.after0 && s.len == uint32(len(m.Payload)) && s.typ == m.Type && m.TS-s.ts == s.delta
	}
	return false
}

// Begin starts sending m with header format f; Next yields its chunks.
func (w *ChunkWriter) Begin(m Msg, f uint8, form int) {
	s := w.st[m.CSID]
	if s == nil {
		s = &encState{}
		w.st[m.CSID] = s
	}
	var h []byte
	h = append(h, BasicHeader(f, m.CSID, form)...)
	field := m.TS
	if f != 0 {
		field = m.TS - s.ts
	}
	if f == 3 {
		field = s.delta
	}
	ext := field >= 0xffffff
	if f == 3 {
		ext = s.ext
	}
	inline := field
	if ext {
		inline = 0xffffff
	}
	n := uint32(len(m.Payload))
	if f <= 2 {
		h = append(h, byte(inline>>16), byte(inline>>8), byte(inline))
	}
	if f <= 1 {
		h = append(h, byte(n>>16), byte(n>>8), byte(n), m.Type)
	}
	if f == 0 {
		h = append(h, byte(m.SID), byte(m.SID>>8), byte(m.SID>>16), byte(m.SID>>24))
	}
	s.cont = BasicHeader(3, m.CSID, form)
	if ext {
		h = append(h, U32(field)...)
		s.cont = append(s.cont, U32(field)...)
	}
	s.have = true
	s.after0 = f == 0
	s.delta = field
	if f == 0 {
		s.delta = 0
	}
	s.ts = m.TS
	s.len = n
	s.typ = m.Type
	s.sid = m.SID
	s.ext = ext
	s.head = h
	s.rest = m.Payload
}

// Busy reports that a message is in flight on the chunk stream.
func (w *ChunkWriter) Busy(csid uint32) bool {
	s := w.st[csid]
	return s != nil && (s.head != nil || len(s.rest) > 0)
}

// Drop forgets the message in flight (it was aborted) and the header state.
func (w *ChunkWriter) Drop(csid uint32) { delete(w.st, csid) }

// Next encodes the next chunk of the message in flight with the current chunk size.
func (w *ChunkWriter) Next(csid uint32) []byte {
	s := w.st[csid]
	h := s.head
	if h == nil {
		h = s.cont
	}
	s.head = nil
	k := len(s.rest)
	if uint32(k) > w.Size {
		k = int(w.Size)
	}
	c := append(append([]byte{}, h...), s.rest[:k]...)
	s.rest = s.rest[k:]
	return c
}

// Chunks splits m into encoded chunks, the first with format f.
func (w *ChunkWriter) Chunks(m Msg, f uint8, form int) [][]byte {
	w.Begin(m, f, form)
	var out [][]byte
	for w.Busy(m.CSID) {
		out = append(out, w.Next(m.CSID))
	}
	return out
}

// Bytes encodes m whole with a type 0 header.
func (w *ChunkWriter) Bytes(m Msg) []byte {
	var b []byte
	for _, c := range w.Chunks(m, 0, 0) {
		b = append(b, c...)
	}
	return b
}

type decState struct {
	encState
	part []byte
	busy bool
}

// ChunkReader decodes a byte stream incrementally. It is strict: it reports every deviation from
// the specification as an error.
type ChunkReader struct {
	Size uint32
	st   map[uint32]*decState
	buf  []byte
	Msgs []Msg
	Err  error
	off  int
	//Zero3 tolerates nothing; kept for symmetry
}

func NewChunkReader(size uint32) *ChunkReader {
	return &ChunkReader{Size: size, st: map[uint32]*decState{}}
}

// Feed consumes bytes and returns the messages completed by them.
func (r *ChunkReader) Feed(b []byte) []Msg {
	r.buf = append(r.buf, b...)
	n := len(r.Msgs)
	for r.Err == nil {
		k := r.one(r.buf)
		if k == 0 {
			break
		}
		r.buf = r.buf[k:]
		r.off += k
	}
	return r.Msgs[n:]
}

// Pending reports bytes of an incomplete chunk or message.
func (r *ChunkReader) Pending() bool {
	if len(r.buf) > 0 {
		return true
	}
	for _, s := range r.st {
		if s.busy {
			return true
		}
	}
	return false
}

func (r *ChunkReader) one(b []byte) int {
	if len(b) < 1 {
		return 0
	}
	f := b[0] >> 6
	csid := uint32(b[0] & 63)
	p := 1
	switch csid {
	case 0:
		if len(b) < 2 {
			return 0
		}
		csid = uint32(b[1]) + 64
		p = 2
	case 1:
		if len(b) < 3 {
			return 0
		}
		csid = uint32(b[1]) + uint32(b[2])<<8 + 64
		p = 3
	}
	s := r.st[csid]
	if s == nil {
		if f != 0 {
			r.Err = fmt.Errorf("offset %d: first chunk on stream %d has format %d", r.off, csid, f)
			return 0
		}
		s = &decState{}
		r.st[csid] = s
	}
	if s.busy && f != 3 {
		r.Err = fmt.Errorf("offset %d: new message header (fmt %d) on chunk stream %d inside a message", r.off, f, csid)
		return 0
	}
	hl := []int{11, 7, 3, 0}[f]
	if len(b) < p+hl {
		return 0
	}
	h := b[p : p+hl]
	p += hl
	n := *s
	var field uint32
	if f <= 2 {
		field = uint32(h[0])<<16 | uint32(h[1])<<8 | uint32(h[2])
		n.ext = field == 0xffffff
	}
	if f <= 1 {
		n.len = uint32(h[3])<<16 | uint32(h[4])<<8 | uint32(h[5])
		n.typ = h[6]
	}
	if f == 0 {
		n.sid = binary.LittleEndian.Uint32(h[7:])
	}
	if n.ext {
		if len(b) < p+4 {
			return 0
		}
		e := binary.BigEndian.Uint32(b[p:])
		p += 4
		if f <= 2 {
			if e < 0xffffff {
				r.Err = fmt.Errorf("offset %d: extended timestamp %d below 0xffffff", r.off, e)
				return 0
			}
			field = e
		}
	}
	if !s.busy {
		switch f {
		case 0:
			n.ts = field
			n.delta = 0
		case 1, 2:
			n.delta = field
			n.ts += field
		case 3:
			n.ts += n.delta
		}
		n.part = nil
	}
	need := n.len - uint32(len(n.part))
	if need > r.Size {
		need = r.Size
	}
	if uint32(len(b)-p) < need {
		return 0
	}
	n.have = true
	n.part = append(append([]byte{}, n.part...), b[p:p+int(need)]...)
	p += int(need)
	n.busy = uint32(len(n.part)) < n.len
	*s = n
	if !n.busy {
		m := Msg{Type: n.typ, CSID: csid, SID: n.sid, TS: n.ts, Payload: n.part}
		r.Msgs = append(r.Msgs, m)
		if m.Type == 1 && len(m.Payload) >= 4 {
			v := binary.BigEndian.Uint32(m.Payload) & 0x7fffffff
			if v == 0 {
				r.Err = fmt.Errorf("set chunk size 0")
			}
			r.Size = v
		}
	}
	return p
}

func U32(v uint32) []byte { var b [4]byte; binary.BigEndian.PutUint32(b[:], v); return b[:] }
func Cat(bs ...[]byte) []byte {
	var o []byte
	for _, b := range bs {
		o = append(o, b...)
	}
	return o
}

// Fill makes n recognisable bytes.
func Fill(seed, n int) []byte {
	b := make([]byte, n)
	x := uint32(seed)*2654435761 + 12345
	for i := range b {
		x = x*1664525 + 1013904223
		b[i] = byte(x >> 24)
	}
	return b
}

func SetChunkSize(csid, n uint32) Msg { return Msg{Type: 1, CSID: csid, Payload: U32(n)} }
