//go:build go1.25

package verif_vlib

import (
	"fmt"
	"math"
	"net/url"
	"regexp"
	"strconv"
	"strings"
)

// HLSPart is one EXT-X-PART.
type HLSPart struct {
	Dur      float64
	File     string
	Off, Len int64
	Indep    bool
}

// HLSSegment is one listed segment with the parts announced for it.
type HLSSegment struct {
	Seq   int
	Dur   float64
	File  string
	Parts []HLSPart
}

// HLSPlaylist is a parsed live media playlist.
type HLSPlaylist struct {
	Version, Target, Seq int
	Segs                 []HLSSegment
	Tail                 []HLSPart //parts after the last listed segment
	HintFile             string
	HintOff              int64
	PartTarget           float64
	CanBlock             bool
}

var (
	durRe  = regexp.MustCompile(`^[0-9]+(\.[0-9]+)?$`)
	attrRe = regexp.MustCompile(`^([A-Z0-9-]+)=("[^"\r\n]*"|[^",\s]+)(,|$)`)
)

func hlsAttrs(s string) (map[string]string, error) {
	m := map[string]string{}
	for s != "" {
		x := attrRe.FindStringSubmatch(s)
		if x == nil {
			return nil, fmt.Errorf("attribute list at %q", s)
		}
		if _, dup := m[x[1]]; dup {
			return nil, fmt.Errorf("attribute %s twice", x[1])
		}
		m[x[1]] = x[2]
		s = s[len(x[0]):]
		if s == "" && x[3] == "," {
			return nil, fmt.Errorf("attribute list ends with a comma")
		}
	}
	return m, nil
}

// hlsURI resolves a reference relative to the playlist to the file it names.
func hlsURI(s string) (string, error) {
	for i := 0; i < len(s); i++ {
		if s[i] <= ' ' || s[i] >= 0x7f || strings.IndexByte(`"<>\^{|}`+"`", s[i]) >= 0 {
			return "", fmt.Errorf("URI %q holds a byte no URI has", s)
		}
	}
	base, _ := url.Parse("http://h/app/stream/index.m3u8")
	u, err := url.Parse(s)
	if err != nil {
		return "", fmt.Errorf("URI %q: %v", s, err)
	}
	a := base.ResolveReference(u)
	if a.Host != "h" || a.Scheme != "http" || a.RawQuery != "" || a.Fragment != "" || !strings.HasPrefix(a.Path, "/app/stream/") {
		return "", fmt.Errorf("URI %q leads to %q", s, a)
	}
	f := strings.TrimPrefix(a.Path, "/app/stream/")
	if f == "" || strings.Contains(f, "/") {
		return "", fmt.Errorf("URI %q leads to %q", s, a)
	}
	return f, nil
}

func hlsString(s string) (string, error) {
	if len(s) < 2 || s[0] != '"' {
		return "", fmt.Errorf("%q is not a quoted string", s)
	}
	return s[1 : len(s)-1], nil
}

// ParseM3U8 parses a live media playlist strictly.
func ParseM3U8(b []byte) (p HLSPlaylist, err error) {
	bad := func(f string, a ...interface{}) (HLSPlaylist, error) { return p, fmt.Errorf(f, a...) }
	if len(b) == 0 || b[len(b)-1] != '\n' {
		return bad("the last line is not terminated")
	}
	lines := strings.Split(string(b[:len(b)-1]), "\n")
	if lines[0] != "#EXTM3U" {
		return bad("first line %q", lines[0])
	}
	p.Version, p.Target, p.Seq = 1, -1, 0
	seen := map[string]bool{}
	var parts []HLSPart
	dur := -1.0
	num := func(s string) int {
		n, e := strconv.Atoi(s)
		if e != nil || n < 0 {
			err = fmt.Errorf("number %q", s)
		}
		return n
	}
	float := func(s string) float64 {
		f, e := strconv.ParseFloat(s, 64)
		if e != nil || !durRe.MatchString(s) || math.IsInf(f, 0) {
			err = fmt.Errorf("decimal number %q", s)
		}
		return f
	}
	for _, l := range lines[1:] {
		if strings.TrimSpace(l) != l {
			return bad("line %q", l)
		}
		if l == "" {
			continue
		}
		if l[0] != '#' {
			if dur < 0 {
				return bad("segment %q without EXTINF", l)
			}
			f, e := hlsURI(l)
			if e != nil {
				return bad("%v", e)
			}
			if p.HintFile != "" {
				return bad("a segment after the preload hint")
			}
			p.Segs = append(p.Segs, HLSSegment{Dur: dur, File: f, Parts: parts})
			parts, dur = nil, -1
			continue
		}
		if !strings.HasPrefix(l, "#EXT") {
			continue
		}
		if dur >= 0 {
			return bad("%q between EXTINF and its segment", l)
		}
		name, val, _ := strings.Cut(l, ":")
		switch name {
		case "#EXT-X-VERSION", "#EXT-X-TARGETDURATION", "#EXT-X-MEDIA-SEQUENCE", "#EXT-X-PART-INF", "#EXT-X-SERVER-CONTROL", "#EXT-X-PRELOAD-HINT":
			if seen[name] {
				return bad("%s twice", name)
			}
			seen[name] = true
		}
		switch name {
		case "#EXT-X-VERSION":
			p.Version = num(val)
		case "#EXT-X-TARGETDURATION":
			p.Target = num(val)
		case "#EXT-X-MEDIA-SEQUENCE":
			if len(p.Segs) > 0 || parts != nil {
				return bad("media sequence after a segment")
			}
			p.Seq = num(val)
		case "#EXT-X-ALLOW-CACHE", "#EXT-X-INDEPENDENT-SEGMENTS":
		case "#EXTINF":
			d, _, ok := strings.Cut(val, ",")
			if !ok {
				return bad("%q has no comma", l)
			}
			dur = float(d)
		case "#EXT-X-PART-INF":
			m, e := hlsAttrs(val)
			if e != nil {
				return bad("%v", e)
			}
			p.PartTarget = float(m["PART-TARGET"])
		case "#EXT-X-SERVER-CONTROL":
			m, e := hlsAttrs(val)
			if e != nil {
				return bad("%v", e)
			}
			p.CanBlock = m["CAN-BLOCK-RELOAD"] == "YES"
			if h, ok := m["PART-HOLD-BACK"]; ok {
				float(h)
			}
		case "#EXT-X-PART":
			m, e := hlsAttrs(val)
			if e != nil {
				return bad("%v", e)
			}
			x := HLSPart{Dur: float(m["DURATION"]), Indep: m["INDEPENDENT"] == "YES"}
			u, e := hlsString(m["URI"])
			if e == nil {
				x.File, e = hlsURI(u)
			}
			if e != nil {
				return bad("%v", e)
			}
			r, e := hlsString(m["BYTERANGE"])
			if e != nil {
				return bad("%v", e)
			}
			n, o, ok := strings.Cut(r, "@")
			x.Len = int64(num(n))
			x.Off = -1
			if ok {
				x.Off = int64(num(o))
			}
			if p.HintFile != "" {
				return bad("a part after the preload hint")
			}
			parts = append(parts, x)
		case "#EXT-X-PRELOAD-HINT":
			m, e := hlsAttrs(val)
			if e != nil {
				return bad("%v", e)
			}
			u, e := hlsString(m["URI"])
			if e == nil {
				p.HintFile, e = hlsURI(u)
			}
			if e != nil {
				return bad("%v", e)
			}
			if m["TYPE"] != "PART" {
				return bad("hint of type %q", m["TYPE"])
			}
			if o, ok := m["BYTERANGE-START"]; ok {
				p.HintOff = int64(num(o))
			}
		case "#EXT-X-ENDLIST":
		default:
			return bad("tag %q", name)
		}
		if err != nil {
			return bad("%q: %v", l, err)
		}
	}
	if dur >= 0 {
		return bad("EXTINF without a segment")
	}
	p.Tail = parts
	for i := range p.Segs {
		p.Segs[i].Seq = p.Seq + i
		if p.Segs[i].Dur > float64(p.Target)+0.5 {
			return bad("target duration %d, but segment %q lasts %v", p.Target, p.Segs[i].File, p.Segs[i].Dur)
		}
	}
	if p.Target < 0 {
		return bad("no target duration")
	}
	if p.Target == 0 {
		return bad("target duration 0")
	}
	return p, nil
}
