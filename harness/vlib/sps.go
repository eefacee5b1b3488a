//go:build go1.25

package verif_vlib

// BitWriter writes H.264/H.265 syntax elements.
type BitWriter struct {
	b []byte
	n int
}

func (w *BitWriter) U(n int, v uint64) *BitWriter {
	for i := n - 1; i >= 0; i-- {
		if w.n%8 == 0 {
			w.b = append(w.b, 0)
		}
		if v>>uint(i)&1 != 0 {
			w.b[w.n/8] |= 0x80 >> uint(w.n%8)
		}
		w.n++
	}
	return w
}

func (w *BitWriter) UE(v uint32) *BitWriter {
	x := uint64(v) + 1
	n := 0
	for y := x; y > 1; y >>= 1 {
		n++
	}
	w.U(n, 0)
	return w.U(n+1, x)
}

func (w *BitWriter) SE(v int32) *BitWriter {
	if v > 0 {
		return w.UE(uint32(2*v - 1))
	}
	return w.UE(uint32(-2 * v))
}

// NAL finishes the RBSP, inserts emulation prevention bytes and prepends the header.
func (w *BitWriter) NAL(hdr ...byte) []byte {
	w.U(1, 1)
	out := append([]byte{}, hdr...)
	z := 0
	for _, c := range w.b {
		if z >= 2 && c <= 3 {
			out = append(out, 3)
			z = 0
		}
		out = append(out, c)
		if c == 0 {
			z++
		} else {
			z = 0
		}
	}
	return out
}

// AVCSPS describes an H.264 sequence parameter set.
type AVCSPS struct {
	Profile, Compat, Level  byte
	ID                      uint32
	Chroma                  uint32
	Separate                bool
	Scaling                 int //0 none, 1 flag with all lists absent, 2 default lists, 3 complete lists, 4 mixed
	FrameNum                uint32
	POC                     uint32
	POCCycle                int
	Refs                    uint32
	MbsW, MapH              uint32 //in macroblocks / map units
	FrameMbsOnly            bool
	Crop                    bool
	L, R, T, B              uint32
	VUI                     bool
}

func HighProfile(p byte) bool {
	switch p {
	case 100, 110, 122, 244, 44, 83, 86, 118, 128, 138, 139, 134, 135:
		return true
	}
	return false
}

func (s AVCSPS) NAL() []byte {
	w := &BitWriter{}
	w.U(8, uint64(s.Profile)).U(8, uint64(s.Compat)).U(8, uint64(s.Level)).UE(s.ID)
	chroma := uint32(1)
	if HighProfile(s.Profile) {
		chroma = s.Chroma
		w.UE(s.Chroma)
		if s.Chroma == 3 {
			w.U(1, b2u(s.Separate))
		}
		w.UE(0).UE(0).U(1, 0)
		w.U(1, b2u(s.Scaling != 0))
		if s.Scaling != 0 {
			n := 8
			if chroma == 3 {
				n = 12
			}
			for i := 0; i < n; i++ {
				size := 16
				if i >= 6 {
					size = 64
				}
				k := s.Scaling
				if k == 4 {
					k = 1 + i%3
				}
				switch k {
				case 1:
					w.U(1, 0)
				case 2:
					w.U(1, 1).SE(-8) //nextScale 0: the default list
				case 3:
					w.U(1, 1)
					for j := 0; j < size; j++ {
						w.SE(int32(j%5) - 2)
					}
				}
			}
		}
	}
	w.UE(s.FrameNum).UE(s.POC)
	switch s.POC {
	case 0:
		w.UE(4)
	case 1:
		w.U(1, 0).SE(-3).SE(7).UE(uint32(s.POCCycle))
		for i := 0; i < s.POCCycle; i++ {
			w.SE(int32(i) - 2)
		}
	}
	w.UE(s.Refs).U(1, 0).UE(s.MbsW - 1).UE(s.MapH - 1).U(1, b2u(s.FrameMbsOnly))
	if !s.FrameMbsOnly {
		w.U(1, 1)
	}
	w.U(1, 1).U(1, b2u(s.Crop))
	if s.Crop {
		w.UE(s.L).UE(s.R).UE(s.T).UE(s.B)
	}
	w.U(1, b2u(s.VUI))
	if s.VUI {
		w.U(1, 1).U(8, 255).U(16, 4).U(16, 3).U(1, 0).U(1, 0).U(1, 0).U(1, 1).U(32, 1).U(32, 50).U(1, 1).U(1, 0).U(1, 0).U(1, 0).U(1, 0)
	}
	return w.NAL(0x67)
}

// Size is the cropped picture size the parameter set states.
func (s AVCSPS) Size() (w, h uint32) {
	fm := uint32(2)
	if s.FrameMbsOnly {
		fm = 1
	}
	w, h = s.MbsW*16, s.MapH*16*fm
	if s.Crop {
		chroma, sep := s.Chroma, s.Separate && s.Chroma == 3
		if !HighProfile(s.Profile) {
			chroma, sep = 1, false
		}
		cx, cy := uint32(1), uint32(1)
		if !sep {
			switch chroma {
			case 1:
				cx, cy = 2, 2
			case 2:
				cx = 2
			}
		}
		w -= cx * (s.L + s.R)
		h -= cy * fm * (s.T + s.B)
	}
	return
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// AVCRecord builds an AVCDecoderConfigurationRecord.
func AVCRecord(lenSize int, sps, pps [][]byte, ext []byte) []byte {
	out := []byte{1, sps[0][1], sps[0][2], sps[0][3], 0xfc | byte(lenSize-1), 0xe0 | byte(len(sps))}
	for _, s := range sps {
		out = append(append(out, byte(len(s)>>8), byte(len(s))), s...)
	}
	out = append(out, byte(len(pps)))
	for _, s := range pps {
		out = append(append(out, byte(len(s)>>8), byte(len(s))), s...)
	}
	return append(out, ext...)
}

// HEVCSPS describes an H.265 sequence parameter set.
type HEVCSPS struct {
	SubLayers        int //sps_max_sub_layers_minus1
	SubFlags         int //2 bits per sub-layer: profile present, level present
	ID               uint32
	Chroma           uint32
	Separate         bool
	W, H             uint32
	Window           bool
	L, R, T, B       uint32
	Profile, Level   byte
}

func (s HEVCSPS) NAL() []byte {
	w := &BitWriter{}
	w.U(4, 0).U(3, uint64(s.SubLayers)).U(1, 1)
	w.U(8, uint64(s.Profile)).U(32, 0x60000000).U(48, 0x900000000000).U(8, uint64(s.Level))
	if s.SubLayers > 0 {
		for i := 0; i < 8; i++ {
			if i < s.SubLayers {
				w.U(2, uint64(s.SubFlags>>(2*uint(i))&3))
			} else {
				w.U(2, 0)
			}
		}
		for i := 0; i < s.SubLayers; i++ {
			f := s.SubFlags >> (2 * uint(i)) & 3
			if f&2 != 0 {
				w.U(8, 1).U(32, 0x40000000).U(48, 0xb00000000001)
			}
			if f&1 != 0 {
				w.U(8, 90)
			}
		}
	}
	w.UE(s.ID).UE(s.Chroma)
	if s.Chroma == 3 {
		w.U(1, b2u(s.Separate))
	}
	w.UE(s.W).UE(s.H).U(1, b2u(s.Window))
	if s.Window {
		w.UE(s.L).UE(s.R).UE(s.T).UE(s.B)
	}
	w.UE(0).UE(0).UE(4).U(1, 1)
	for i := 0; i <= s.SubLayers; i++ {
		w.UE(4).UE(2).UE(0)
	}
	w.UE(0).UE(3).UE(0).UE(3).UE(0).UE(0).U(1, 0).U(1, 1).U(1, 1).U(1, 0).UE(0).U(1, 0).U(1, 1).U(1, 1).U(1, 0).U(1, 0)
	return w.NAL(0x42, 1)
}

func (s HEVCSPS) Size() (w, h uint32) {
	w, h = s.W, s.H
	if s.Window {
		cx, cy := uint32(1), uint32(1)
		if !(s.Chroma == 3 && s.Separate) {
			switch s.Chroma {
			case 1:
				cx, cy = 2, 2
			case 2:
				cx = 2
			}
		}
		w -= cx * (s.L + s.R)
		h -= cy * (s.T + s.B)
	}
	return
}

// HEVCRecord builds an HEVCDecoderConfigurationRecord with the arrays in the given order.
func HEVCRecord(profile, level byte, arrays ...[][]byte) []byte {
	out := []byte{1, profile, 0x60, 0, 0, 0, 0x90, 0, 0, 0, 0, 0, level, 0xf0, 0, 0xfc, 0xfd, 0xf8, 0xf8, 0, 0, 0x0f, byte(len(arrays))}
	for _, a := range arrays {
		t := a[0][0] >> 1 & 0x3f
		out = append(out, 0x80|t, byte(len(a)>>8), byte(len(a)))
		for _, n := range a {
			out = append(append(out, byte(len(n)>>8), byte(len(n))), n...)
		}
	}
	return out
}
