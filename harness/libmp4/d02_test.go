//go:build go1.25

package libmp4

import (
	"bytes"
	"fmt"
	"testing"

	v "github.com/sbraveyoung/GGmpeg/verif_vlib"
)

func TestV_D02(t *testing.T) {
	r := v.Start(t)
	defer r.Finish()
	u16s := []uint16{0, 1, 16, 255, 256, 1920, 32767, 32768, 65535}
	for _, track := range []uint32{1} {
		for _, ts := range []uint32{1, 1000, 90000, 0x10203, 0xffffffff} {
			for _, w := range u16s {
				for _, h := range u16s {
					for _, n := range []int{4, 5, 23, 255, 256, 65535} {
						for hevc := 0; hevc < 2; hevc++ {
							if !r.Mine() {
								continue
							}
							desc := fmt.Sprintf("track %d timescale %d %dx%d, parameter sets of %d bytes, hevc %d", track, ts, w, h, n, hevc)
							r.Journal("%s", desc)
							var b, want []byte
							ps := append([]byte{0x67, 100, 2, 31}, v.Fill(n, n-4)...)
							pps := append([]byte{0x68}, v.Fill(n+1, n/2)...)
							r.Guard("d02:", desc, func() {
								if hevc == 1 {
									want = ps
									b = BuildHEVCInitSegment(HEVCInitParams{TrackID: track, Timescale: ts, Width: w, Height: h, HVCCRecord: ps})
								} else {
									want = v.AVCRecord(4, [][]byte{ps}, [][]byte{pps}, nil)
									b = BuildInitSegment(InitSegmentParams{TrackID: track, Timescale: ts, Width: w, Height: h, SPS: ps, PPS: pps})
								}
							})
							r.Eval(fmt.Sprint("init", hevc), desc)
							in, err := v.ParseInit(b)
							if err != nil {
								r.Violation("d02:mp4:boxes", desc, "%v", err)
								continue
							}
							if in.Track != track || in.Timescale != ts || in.MovieTimescale != ts || in.W != w || in.H != h || in.TkW != uint32(w)<<16 || in.TkH != uint32(h)<<16 {
								r.Violation("d02:mp4:fields", desc, "says %+v", in)
							}
							if !bytes.Equal(in.Config, want) {
								r.Violation("d02:mp4:config", desc, "configuration differs")
							}
							if e := map[int]string{0: "avc1avcC", 1: "hev1hvcC"}[hevc]; in.Entry+in.ConfigBox != e {
								r.Violation("d02:mp4:entry", desc, "%s%s", in.Entry, in.ConfigBox)
							}
						}
					}
				}
			}
		}
	}
	r.Note("timescales x sizes x parameter-set lengths of the boundary grids")
}
