//go:build go1.25

package libavc

import (
	"bytes"
	"fmt"
	"testing"

	v "github.com/sbraveyoung/GGmpeg/verif_vlib"
)

type c01cfg struct {
	name     string
	lenSize  int
	sps, pps [][]byte
	ext      []byte
}

func (c c01cfg) record() []byte {
	b := []byte{1, 0x64, 0, 0x1f, 0xfc | byte(c.lenSize-1), 0xe0 | byte(len(c.sps))}
	for _, s := range c.sps {
		b = append(append(b, byte(len(s)>>8), byte(len(s))), s...)
	}
	b = append(b, byte(len(c.pps)))
	for _, s := range c.pps {
		b = append(append(b, byte(len(s)>>8), byte(len(s))), s...)
	}
	return append(b, c.ext...)
}

// nal makes a unit of the given type and size without start code emulation.
func c01nal(typ byte, size, seed int) []byte {
	b := []byte{0x60 | typ}
	if typ == 6 || typ == 9 || typ == 12 {
		b[0] = typ
	}
	for i := 1; i < size; i++ {
		b = append(b, byte(3+(i*7+seed*13)%250))
	}
	return b
}

func c01split(b []byte) (out [][]byte, ok bool) {
	if len(b) == 0 {
		return nil, true
	}
	start := -1
	for i := 0; i+2 < len(b); i++ {
		if b[i] == 0 && b[i+1] == 0 && b[i+2] == 1 {
			if start >= 0 {
				out = append(out, bytes.TrimRight(b[start:i], "\x00"))
			} else if len(bytes.Trim(b[:i], "\x00")) > 0 {
				return nil, false
			}
			start = i + 3
		}
	}
	if start < 0 {
		return nil, false
	}
	return append(out, b[start:]), true
}

func TestV_C01(t *testing.T) {
	r := v.Start(t)
	defer r.Finish()
	sps := func(n, size int) (o [][]byte) {
		for i := 0; i < n; i++ {
			o = append(o, c01nal(7, size+i, 40+i))
		}
		return
	}
	pps := func(n, size int) (o [][]byte) {
		for i := 0; i < n; i++ {
			o = append(o, c01nal(8, size+i, 80+i))
		}
		return
	}
	high := []byte{0xfd, 0xf8, 0xf8, 0}
	var cfgs []c01cfg
	for _, ls := range []int{4, 2, 1} {
		for ns := 1; ns <= 3; ns++ {
			for np := 1; np <= 3; np++ {
				cfgs = append(cfgs, c01cfg{fmt.Sprintf("len%d sps%d pps%d", ls, ns, np), ls, sps(ns, 9), pps(np, 4), nil})
			}
		}
		cfgs = append(cfgs, c01cfg{fmt.Sprintf("len%d ext", ls), ls, sps(1, 20), pps(1, 4), high},
			c01cfg{fmt.Sprintf("len%d ext2", ls), ls, sps(2, 300), pps(2, 257), high},
			c01cfg{fmt.Sprintf("len%d tiny", ls), ls, sps(1, 4), pps(1, 1), nil})
	}
	types := []byte{1, 5, 6, 7, 8, 9, 2, 10, 11, 12, 14, 19, 20}

	check := func(p *Parser, c c01cfg, au [][]byte, hist string) {
		var src []byte
		var want [][]byte
		idr, hasS, hasP := false, false, false
		for _, n := range au {
			for i := c.lenSize - 1; i >= 0; i-- {
				src = append(src, byte(len(n)>>(8*i)))
			}
			src = append(src, n...)
			switch n[0] & 31 {
			case 9:
				continue
			case 5:
				idr = true
			case 7:
				hasS = true
			case 8:
				hasP = true
			}
			want = append(want, n)
		}
		desc := fmt.Sprintf("%s config %s units", hist, c.name)
		for _, n := range au {
			desc += fmt.Sprintf(" %d:%d", n[0]&31, len(n))
		}
		r.Journal("C01 %s", desc)
		r.Eval(fmt.Sprintf("%d units idr %v in-band %v/%v", len(au), idr, hasS, hasP), desc)
		keep := append([]byte(nil), src...)
		r.Guard("c01:", desc, func() {
			out := &bytes.Buffer{}
			if err := p.GetAnnexbH264(src, out); err != nil {
				r.Violation("c01:annexb-error", desc, "%v", err)
				return
			}
			if !bytes.Equal(src, keep) {
				r.Violation("c01:annexb-mutated", desc, "input changed")
			}
			got, ok := c01split(out.Bytes())
			if !ok {
				r.Violation("c01:annexb-startcode", desc, "output does not begin with a start code: %x", out.Bytes()[:min(12, out.Len())])
				return
			}
			var units [][]byte
			for i, n := range got {
				if len(n) > 0 && n[0]&31 == 9 {
					if i != 0 {
						r.Violation("c01:aud-position", desc, "access unit delimiter at position %d", i)
					}
					continue
				}
				units = append(units, n)
			}
			same := func(a, b [][]byte) bool {
				if len(a) != len(b) {
					return false
				}
				for i := range a {
					if !bytes.Equal(a[i], b[i]) {
						return false
					}
				}
				return true
			}
			sets := append(append([][]byte{}, c.sps...), c.pps...)
			//the configuration record's sets may be inserted once before the first IDR slice, and have to be when the unit lacks its own
			need := idr && !(hasS && hasP)
			if same(units, want) {
				if need {
					r.Violation("c01:no-parameter-sets", desc, "an IDR picture without parameter sets ahead of it")
				}
				return
			}
			if idr {
				for at := 0; at <= len(want); at++ {
					cand := append(append(append([][]byte{}, want[:at]...), sets...), want[at:]...)
					if same(units, cand) {
						for i, n := range want {
							k := n[0] & 31
							if (k == 5 || (k == 7 || k == 8)) && i < at {
								r.Violation("c01:parameter-sets-late", desc, "the record's parameter sets come after unit %d of type %d", i, k)
								break
							}
						}
						return
					}
				}
			}
			s := ""
			for _, n := range units {
				s += fmt.Sprintf(" %x", n[:min(6, len(n))])
			}
			r.Violation("c01:annexb-units", desc, "units of the output:%s", s)
		})
	}
	mk := func() *Parser { return &Parser{Pps: bytes.NewBuffer(make([]byte, MaxSpsPpsLen))} }
	depth := r.Pick(3, 4)
	for ci, c := range cfgs {
		//every sequence of unit types; histories: fresh parser, after another configuration, after itself
		for hi := 0; hi < 4; hi++ {
			p := mk()
			hist := []string{"first", "second", "repeated", "returning"}[hi]
			other := cfgs[(ci+5)%len(cfgs)]
			var recs [][]byte
			switch hi {
			case 0:
				recs = [][]byte{c.record()}
			case 1:
				recs = [][]byte{other.record(), c.record()}
			case 2:
				recs = [][]byte{c.record(), c.record()}
			case 3:
				recs = [][]byte{c.record(), other.record(), c.record()}
			}
			bad := false
			for _, rec := range recs {
				r.Guard("c01:", c.name, func() {
					if err := p.ParseSpecificInfo(rec); err != nil {
						r.Violation("c01:record", c.name, "record %x: %v", rec, err)
						bad = true
					}
				})
			}
			if bad {
				continue
			}
			want := []byte{}
			for _, s := range append(append([][]byte{}, c.sps...), c.pps...) {
				want = append(append(want, 0, 0, 0, 1), s...)
			}
			got, ok := c01split(p.SpecificInfo)
			if !ok || len(got) != len(c.sps)+len(c.pps) {
				r.Violation("c01:specific-info", c.name+" "+hist, "parameter sets %x, expected %x", p.SpecificInfo, want)
			}
			d := depth
			if hi > 0 {
				d = 2
			}
			v.Sequences(len(types), 1, d, func(s []int) bool {
				if !r.Mine() {
					return true
				}
				var au [][]byte
				for i, k := range s {
					sz := []int{5, 2, 200}[(i+k+ci)%3]
					if types[k] == 9 || types[k] == 10 {
						sz = 2
					}
					au = append(au, c01nal(types[k], sz, i))
				}
				check(p, c, au, hist)
				return true
			})
			if r.Expired() {
				return
			}
		}
		//sizes around every length byte boundary
		sizes := []int{1, 2, 3, 254, 255}
		if c.lenSize >= 2 {
			sizes = append(sizes, 256, 257, 65534, 65535)
		}
		if c.lenSize == 4 {
			sizes = append(sizes, 65536, 65537, 1<<20)
		}
		p := mk()
		p.ParseSpecificInfo(c.record())
		for _, a := range sizes {
			for _, b := range sizes {
				if a+b > 300000 && !r.Mine() {
					continue
				}
				check(p, c, [][]byte{c01nal(5, max(a, 2), 1), c01nal(1, b, 2)}, "sizes")
			}
		}
		//damaged input never panics
		full := c.record()
		for cut := 0; cut < len(full) && cut < 60; cut++ {
			r.Guard("c01:", fmt.Sprintf("%s cut at %d", c.name, cut), func() {
				q := mk()
				q.ParseSpecificInfo(full[:cut])
				q.GetAnnexbH264(append([]byte{0, 0, 0, 5}, v.Fill(cut, cut)...), &bytes.Buffer{})
			})
		}
	}
	r.Note("AVC: %d configuration records (1, 2 and 4 byte lengths, up to 3+3 parameter sets, extensions), 4 histories; every sequence of up to %d units over %d types", len(cfgs), depth, len(types))
}
