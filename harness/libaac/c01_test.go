//go:build go1.25

package libaac

import (
	"fmt"
	"testing"

	v "github.com/sbraveyoung/GGmpeg/verif_vlib"
)

// TestV_C01 decides the AAC half: every configuration and every frame length.
func TestV_C01(t *testing.T) {
	r := v.Start(t)
	defer r.Finish()
	max := 8191 - 7
	for obj := 1; obj <= 4; obj++ {
		for sr := 0; sr < 13; sr++ {
			for ch := 0; ch < 8; ch++ {
				for _, ext := range [][]byte{nil, {0x56, 0xe5, 0x00}} {
					if !r.Mine() {
						continue
					}
					asc := append([]byte{byte(obj<<3 | sr>>1), byte(sr<<7 | ch<<3)}, ext...)
					desc := fmt.Sprintf("asc %x", asc)
					r.Journal("C01 %s", desc)
					h := &AACHeader{}
					r.Guard("c01:", desc, func() {
						if err := h.Parse(asc); err != nil {
							r.Violation("c01:asc", desc, "%v", err)
							return
						}
						step := 97
						if !r.Quick() || (obj == 2 && ext == nil) {
							step = 1
						}
						frame := make([]byte, max)
						for n := 0; n <= max; n += step {
							r.Eval(fmt.Sprintf("object type %d", obj), fmt.Sprint(desc, n))
							b := h.Adts(frame[:n])
							if len(b) != 7 {
								r.Violation("c01:adts-size", desc, "header of %d bytes", len(b))
								break
							}
							bits := uint64(0)
							for _, x := range b {
								bits = bits<<8 | uint64(x)
							}
							f := func(off, n uint) int { return int(bits >> (56 - off - n) & (1<<n - 1)) }
							bad := func(what string, got, want int) {
								r.Violation("c01:adts-"+what, fmt.Sprint(desc, " frame ", n), "%s is %d, expected %d (header %x)", what, got, want, b)
							}
							for _, c := range []struct {
								what         string
								off, n, want int
							}{{"sync", 0, 12, 0xfff}, {"layer", 13, 2, 0}, {"protection", 15, 1, 1}, {"profile", 16, 2, obj - 1}, {"rate", 18, 4, sr}, {"channels", 23, 3, ch}, {"length", 30, 13, n + 7}, {"blocks", 54, 2, 0}} {
								if g := f(uint(c.off), uint(c.n)); g != c.want {
									bad(c.what, g, c.want)
								}
							}
						}
					})
				}
			}
		}
	}
	r.Note("AAC: object types 1-4 x 13 sampling indices x 8 channel configurations, with and without extension; frame lengths 0..%d (all for AAC-LC, every 97th else; thorough: all)", max)
}
