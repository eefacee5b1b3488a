//go:build go1.25

package librtmp

import (
	"bytes"
	"fmt"
	"net/http"
	"net/url"
	"os"
	"path"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"testing"

	"github.com/sbraveyoung/GGmpeg/libhls"
	v "github.com/sbraveyoung/GGmpeg/verif_vlib"
	vs "github.com/sbraveyoung/GGmpeg/verif_vsched"
)

// N01: HTTP requests reach what they name.

// n01Pub publishes app/name over RTMP, headers and keyframes of the mark at the given seconds.
type n01Pub struct {
	app, name string
	mark      int
	k         *cli
	n         int
}

func (p *n01Pub) start(g *sRig) {
	p.k = newCli(g.conn(1935), g.s.Idle, "pub")
	if err := p.k.hello(); err != nil {
		g.bad("setup", "%v", err)
	}
	p.k.connect(p.app)
	p.k.cmd("createStream", 2, nil)
	r := p.k.cmd("publish", 3, nil, p.name, "live")
	if statusCode(r) != "NetStream.Publish.Start" {
		g.bad("setup", "publishing %q: %q", p.name, statusCode(r))
	}
	p.k.send(v.Msg{Type: 9, CSID: 4, SID: 1, TS: 0, Payload: sSeq(p.mark)})
}
func (p *n01Pub) frame() {
	p.k.send(v.Msg{Type: 9, CSID: 4, SID: 1, TS: uint32(3000 * p.n), Payload: sFrame(true, p.mark, 60+p.n)})
	p.n++
}

// n01Marks are the marks of the streams whose media is in b.
func n01Marks(b []byte) (out []int) {
	m := map[int]bool{}
	for i := 0; i < len(b); {
		j := i
		for j < len(b) && b[j] == b[i] {
			j++
		}
		if j-i >= 40 && b[i] >= 0x80 && b[i] < 0xf0 {
			m[int(b[i])] = true
		}
		i = j
	}
	for k := range m {
		out = append(out, k)
	}
	sort.Ints(out)
	return
}

type n01Conf struct {
	hls  libhls.HLS_MODE
	dash bool
}

func (c n01Conf) String() string {
	return fmt.Sprintf("HLS mode %d, DASH %v", c.hls, c.dash)
}

var n01Names = []string{"s", "s-1", "S", "sA", "s%41", "s%2541", "a b", "q?x=1", "h#1", "+", "é", "-", ".hid", "..", ".", "a/b", "../secret", "..%2fsecret", "s/../s-1", "s.flv", "index.m3u8", "nul\x00x", "s:1", "s;x", "a%zz", "s\\x", "con$Number$"}

// n01Rig starts the server and the streams.
func n01Rig(s *vs.Sched, c n01Conf, root string, bad func(key, f string, a ...interface{})) (*sRig, []*n01Pub) {
	os.RemoveAll(root)
	os.MkdirAll(filepath.Join(root, "live-other"), 0o755)
	g := newSRig(s, sOpt{hls: c.hls, dash: c.dash, apps: []string{"other"}}, filepath.Join(root, "live"), bad)
	var pubs []*n01Pub
	for i, n := range n01Names {
		pubs = append(pubs, &n01Pub{app: "live", name: n, mark: 0x80 + i})
	}
	for i, n := range []string{"s", "only"} {
		pubs = append(pubs, &n01Pub{app: "other", name: n, mark: 0xe0 + i})
	}
	for _, p := range pubs {
		p.start(g)
		for i := 0; i < 3; i++ {
			p.frame()
			s.Idle() //the segmenter keeps up
		}
		if g.srv.apps[p.app].Load(p.name) == nil {
			bad("setup", "the stream %q is not there", p.name)
		}
	}
	//what is around and must not be reached
	for _, f := range []string{"secret.ts", "secret-0.ts", "s-0.ts", "secret-init.mp4", "secret-0.m4s", "secret.m3u8"} {
		os.WriteFile(filepath.Join(root, f), bytes.Repeat([]byte{0xef}, 200), 0o644)
	}
	for _, f := range []string{"secret.ts", "secret-init.mp4", "secret.m4s", "s.ts", "s-.ts", "-0.ts", "s-x.ts", "s-x.m4s"} {
		os.WriteFile(filepath.Join(root, "live", f), bytes.Repeat([]byte{0xee}, 200), 0o644)
	}
	os.MkdirAll(filepath.Join(root, "live", "sub"), 0o755)
	os.WriteFile(filepath.Join(root, "live", "sub", "s-0.ts"), bytes.Repeat([]byte{0xee}, 200), 0o644)
	return g, pubs
}

var n01Seg = regexp.MustCompile(`^(.*)-(0|[1-9][0-9]*)\.(ts|m4s)$`)

// n01Check performs one request and judges the answer.
func n01Check(g *sRig, c n01Conf, pubs []*n01Pub, addr, target, root string, started map[string]bool, bad func(key, f string, a ...interface{})) string {
	req := sRequest(target)
	p := req.URL.Path
	find := func(app, name string) *n01Pub {
		for _, x := range pubs {
			if x.app == app && x.name == name {
				return x
			}
		}
		return nil
	}
	slash := len(p) > 1 && strings.HasSuffix(p, "/") //may be taken or not
	p = strings.TrimSuffix(p, "/")
	if p == "" {
		p = "/"
	}
	clean := p == path.Clean(p) && (p != "/" || req.URL.Path == "/") && strings.HasPrefix(p, "/")
	comps := strings.Split(strings.TrimPrefix(p, "/"), "/")
	w := g.ask(addr, target)
	g.s.Idle()
	b := w.body.Bytes()
	code := w.code
	if code == 0 && len(b) == 0 && w.done {
		code = 200
	}
	marks := n01Marks(b)
	if slash && code >= 400 && code < 500 && len(marks) == 0 {
		return "refused"
	}
	refuse := func(why string) string {
		if !w.done {
			bad("hangs", "GET %q is not answered although %s", target, why)
		} else if !clean && code/100 == 3 {
			if l, err := url.Parse(w.h.Get("Location")); err != nil || path.Clean(l.Path) != path.Clean("/"+p) {
				bad("redirect", "GET %q is sent to %q", target, w.h.Get("Location"))
			}
			return "redirected"
		} else if code < 400 || code > 499 {
			bad("not-refused", "GET %q is answered with status %d and %d bytes with marks %x although %s", target, code, len(b), marks, why)
		}
		if len(marks) > 0 {
			bad("not-refused", "GET %q, status %d, carries media of %x although %s", target, code, marks, why)
		}
		return "refused"
	}
	if addr == sFLV {
		var x *n01Pub
		why := "the path is malformed"
		if clean && len(comps) == 2 && strings.HasSuffix(comps[1], ".flv") {
			x, why = find(comps[0], strings.TrimSuffix(comps[1], ".flv")), "there is no such stream"
		}
		if x == nil {
			return refuse(why)
		}
		if code != 200 || w.done || len(marks) != 1 || marks[0] != x.mark {
			bad("flv", "GET %q: status %d, finished %v, media of %x, want stream %q with mark %x", target, code, w.done, marks, x.name, x.mark)
		} else if ct := w.h.Get("Content-Type"); ct != "video/x-flv" {
			bad("type", "GET %q: content type %q", target, ct)
		}
		w.gone = true
		return "flv"
	}
	if !clean || len(comps) != 3 || comps[2] == "" {
		return refuse("the path is malformed")
	}
	x := find(comps[0], comps[1])
	if x == nil {
		return refuse("there is no such stream")
	}
	file := comps[2]
	dir := filepath.Join(root, "live")
	if x.app != "live" {
		dir += "-" + x.app
	}
	files := !strings.ContainsAny(x.name, "/\x00") //such streams have no files
	key := x.app + "/" + x.name
	hls := c.hls != libhls.NONE
	if hls && strings.HasSuffix(file, ".m3u8") {
		started[key] = true
	}
	hlsOn := hls && (c.hls == libhls.IMMEDIATELY || started[key])
	body := func(kind string, types ...string) {
		if ok := strings.Contains(strings.Join(types, " "), w.h.Get("Content-Type")); !ok || w.h.Get("Content-Type") == "" {
			bad("type", "GET %q: content type %q", target, w.h.Get("Content-Type"))
		}
	}
	switch {
	case strings.HasSuffix(file, ".m3u8"):
		if !hlsOn || !files {
			return refuse("nothing is segmented")
		}
		if file != "index.m3u8" && code >= 400 && code < 500 {
			return "refused"
		}
		if c.hls == libhls.DELAY {
			for i := 0; i < 3 && !w.done; i++ { //the first segment comes to be
				x.frame()
				g.s.Idle()
			}
			if code, b = w.code, w.body.Bytes(); code == 0 && w.done {
				code = 200
			}
		}
		if code != 200 || !w.done {
			bad("playlist", "GET %q: status %d", target, code)
			return "playlist"
		}
		body("playlist", "application/vnd.apple.mpegurl", "application/x-mpegurl")
		pl, err := v.ParseM3U8(b)
		if err != nil || len(pl.Segs) == 0 {
			bad("playlist", "GET %q: %d segments, %v", target, len(pl.Segs), err)
		}
		for _, s := range pl.Segs {
			if m := n01Seg.FindStringSubmatch(s.File); m == nil || m[1] != x.name || m[3] != "ts" {
				bad("playlist", "GET %q lists the segment %q", target, s.File)
			} else if data, err := os.ReadFile(filepath.Join(dir, s.File)); err != nil || fmt.Sprint(n01Marks(data)) != fmt.Sprint([]int{x.mark}) {
				bad("playlist", "GET %q: the segment %q holds media of %x, %v", target, s.File, n01Marks(data), err)
			}
		}
		return "playlist"
	case file == "index.mpd":
		if !c.dash || !files {
			return refuse("nothing is segmented")
		}
		body("mpd", "application/dash+xml")
		un := strings.NewReplacer("&amp;", "&", "&lt;", "<", "&gt;", ">", "&#34;", `"`, "&quot;", `"`, "&#39;", "'", "&apos;", "'")
		m := regexp.MustCompile(`media="([^"]*)"`).FindSubmatch(b)
		if code != 200 || m == nil {
			bad("mpd", "GET %q: status %d, %d bytes", target, code, len(b))
			return "mpd"
		}
		t := strings.NewReplacer("$$", "$", "$Number$", "7").Replace(un.Replace(string(m[1])))
		name, err := url.PathUnescape(t)
		if err != nil || name != x.name+"-7.m4s" {
			bad("mpd", "GET %q: media of segment 7 is %q", target, name)
		}
		return "mpd"
	}
	m := n01Seg.FindStringSubmatch(file)
	init := file == x.name+"-init.mp4"
	ts := m != nil && m[1] == x.name && m[3] == "ts" && hlsOn
	m4s := m != nil && m[1] == x.name && m[3] == "m4s"
	if !files || !(ts || c.dash && (m4s || init)) {
		return refuse("the stream has no such file")
	}
	data, err := os.ReadFile(filepath.Join(dir, file))
	if err != nil {
		return refuse("the file does not exist")
	}
	if ts && code >= 400 && code < 500 {
		n, _ := strconv.Atoi(m[2])
		if _, err := os.Stat(filepath.Join(dir, fmt.Sprintf("%s-%d.ts", x.name, n+1))); err != nil {
			return "refused" //being written
		}
	}
	if code != 200 || !w.done || !bytes.Equal(b, data) || len(b) == 0 {
		bad("file", "GET %q: status %d, %d bytes; the file has %d", target, code, len(b), len(data))
		return "file"
	}
	want := fmt.Sprint([]int{x.mark})
	switch {
	case init:
		if !bytes.Contains(b, sPPS(x.mark)) {
			bad("file", "GET %q: the init segment is another stream's", target)
		}
		body("file", "video/mp4")
	case m4s:
		body("file", "video/iso.segment video/mp4")
	default:
		body("file", "video/mp2t")
	}
	if !init && fmt.Sprint(n01Marks(b)) != want {
		bad("file", "GET %q: media of %x, want %s", target, n01Marks(b), want)
	}
	return "file"
}

// n01Encodings are spellings of a path component.
func n01Encodings(s string) []string {
	out := []string{url.PathEscape(s)}
	hex := ""
	for _, c := range []byte(s) {
		hex += fmt.Sprintf("%%%02x", c)
	}
	out = append(out, hex)
	if u, err := url.Parse("/" + s); err == nil && u.Path == "/"+s && u.RawQuery == "" && u.Fragment == "" {
		out = append(out, s)
	}
	return append(out, url.PathEscape(url.PathEscape(s)), url.PathEscape(hex))
}

func n01Targets() (flv, hls []string) {
	seen := map[string]bool{}
	add := func(l *[]string, t string) {
		if _, err := url.ParseRequestURI(t); err == nil && !seen[t] {
			seen[t] = true
			*l = append(*l, t)
		}
	}
	apps := []string{"live", "other", "none", "", "LIVE", "%6cive", "%256cive", ".", "..", "live ", "live%2f", "live-other", "live%00"}
	streams := []string{"none", "", "%", "s ", " s", "s%00", "..%2f..", "%2e%2e", "only", "secret", "*", "s%2F", "sub"}
	for _, n := range n01Names {
		streams = append(streams, n01Encodings(n)...)
	}
	var files []string
	for _, n := range append([]string{"secret", "only", "none", "sub/s", "../secret", "../s", "../live-other/s"}, n01Names...) {
		for _, e := range n01Encodings(n) {
			for _, x := range []string{"-0.ts", "-1.ts", "-2.ts", "-3.ts", "-init.mp4", "-0.m4s", "-1.m4s", "-9.m4s"} {
				files = append(files, e+x)
			}
		}
	}
	files = append(files, "", ".", "..", "index.m3u8", "index.mpd", "x.m3u8", ".m3u8", ".ts", ".m4s", "-init.mp4", "index.M3U8", "Index.mpd", "index.html", "index.m3u8%00", "index.m3u8x", "secret.ts", "s.ts", "s-.ts", "-0.ts", "s-x.ts", "s-x.m4s", "s-00.ts", "s-+0.ts", "s--0.ts", "s-0x0.ts", "s-0.TS", "s-0", "secret-init.mp4", "secret.m4s", "s-0.ts%2f", "s-0.ts/", "sub", "sub/", "%2e%2e%2fs-0.ts", "..%2fsecret.ts", "%252e%252e%252fsecret.ts", "x%252f..%252fs-0.ts", "x%2f..%2fs-0.ts", "..%5csecret.ts", "s-0.ts%3f", "s-0.ts%253fx", "s-0%2ets", "s%2d0.ts", "index%2em3u8", "index.m3u8%3fx", "index.m3u8%253fx", "index.mpd%253fx", "s-0.ts;x", "s-0.tsx.ts", "s-18446744073709551616.ts", "s-99999999999999999999999.m4s")
	for _, a := range apps {
		add(&flv, "/"+a)
		add(&flv, "/"+a+"/")
		add(&hls, "/"+a)
		add(&hls, "/"+a+"/")
		for _, s := range streams {
			for _, t := range []string{s + ".flv", s, s + ".FLV", s + ".flv/", s + ".flv/x", s + "%2eflv", s + ".flv%3fx", s + ".flv%253fx", s + ".flv?x=/a/b.flv", "x/../" + s + ".flv", "/" + s + ".flv", "x%2f..%2f" + s + ".flv", "x%252f..%252f" + s + ".flv", s + ".flv.flv"} {
				add(&flv, "/"+a+"/"+t)
			}
			for _, t := range []string{"", "/", "/index.m3u8", "/index.mpd", "//index.m3u8", "/x/../index.m3u8", "/./index.m3u8", "/index.m3u8/", "/index.m3u8/x", "/%2findex.m3u8", "%2findex.m3u8", "%252findex.m3u8", "/index.m3u8?_HLS_msn=0", "/index.m3u8?_HLS_msn=99&_HLS_part=x", "/index.m3u8?_HLS_msn=-5", "/index.mpd?t=1", "/" + s + "-0.ts", "/" + s + "-1.ts", "/" + s + "-init.mp4", "/" + s + "-1.m4s"} {
				add(&hls, "/"+a+"/"+s+t)
			}
		}
	}
	for _, s := range []string{"s", "s-1", "a%20b", "s%2541", "only", "..", "%2e%2e"} {
		for _, f := range files {
			add(&hls, "/live/"+s+"/"+f)
			add(&hls, "/other/"+s+"/"+f)
		}
	}
	for _, t := range []string{"/", "/.flv", "/live/.flv", "/live/s.flv/..", "/./live/s.flv", "/../live/s.flv", "/%2e%2e/live/s.flv", "/live%2fs.flv", "/live%252fs.flv", "/live/%73.flv", "/live/s.f%6cv"} {
		add(&flv, t)
	}
	return
}

func TestVerifN01Paths(t *testing.T) {
	r := v.Start(t)
	defer r.Finish()
	defer sQuiet()()
	flv, hls := n01Targets()
	confs := []n01Conf{{libhls.IMMEDIATELY, true}, {libhls.DELAY, true}, {libhls.NONE, true}, {libhls.IMMEDIATELY, false}, {libhls.DELAY, false}, {libhls.NONE, false}}
	const batch = 400
	root := filepath.Join(r.Out(), "n01")
	batchRun := func(c n01Conf, addr string, ts []string, fresh bool) {
		cur := ""
		bad := func(key, f string, a ...interface{}) {
			r.Violation("n01:"+key, fmt.Sprintf("%v: %s", c, cur), "%v: %s", c, fmt.Sprintf(f, a...))
		}
		s := vs.Run(&v.Ctx{}, func(s *vs.Sched) {
			g, pubs := n01Rig(s, c, root, bad)
			alive := len(s.Alive())
			started := map[string]bool{}
			for _, t := range ts {
				cur = t
				r.Journal("N01 %v GET %s", c, t)
				out := n01Check(g, c, pubs, addr, t, root, started, bad)
				r.Eval(fmt.Sprint(c, out), fmt.Sprint(c, addr, t))
			}
			for _, p := range pubs { //FLV viewers are found to have left
				p.frame()
			}
			s.Idle()
			cur = "afterwards"
			n := 0
			if c.hls == libhls.DELAY {
				for k := range started {
					if !strings.ContainsAny(k[strings.Index(k, "/")+1:], "/\x00") {
						n++
					}
				}
			}
			if got := len(s.Alive()); got != alive+n {
				bad("started", "%d goroutines more than before, %d streams had to be segmented", got-alive, n)
			}
			n01Stray(root, bad)
			for _, p := range pubs {
				p.k.c.Close()
			}
			s.Idle()
		})
		if s.Crash != nil {
			bad("crash:"+s.Crash.Where, "%s\n%s", s.Crash.Value, s.Crash.Stack)
		}
		if s.Dead != "" {
			bad("deadlock", "%s", s.Dead)
		}
	}
	for _, c := range confs {
		for _, x := range []struct {
			addr string
			ts   []string
		}{{sFLV, flv}, {sHLS, hls}} {
			if x.addr == sFLV && c != confs[0] {
				continue
			}
			for i := 0; i < len(x.ts); i += batch {
				if !r.Mine() {
					continue
				}
				batchRun(c, x.addr, x.ts[i:min(i+batch, len(x.ts))], false)
				if r.Expired() {
					r.Capped("paths")
					return
				}
			}
		}
	}
	//each as the first request there is
	n := 0
	for _, t := range hls {
		if !strings.HasPrefix(t, "/live/s/") && !strings.HasPrefix(t, "/live/s-1/") {
			continue
		}
		n++
		if r.Mine() {
			batchRun(confs[1], sHLS, []string{t, "/live/s/index.m3u8", t}, true)
		}
		if r.Expired() {
			r.Capped("first requests")
			return
		}
	}
	r.Note("paths: %d FLV and %d HLS/DASH targets (every application, stream and file component in every spelling: plain, percent-encoded, doubly encoded, dotted, empty, nested) on a server with %d streams of two applications, in %d configurations; %d as the first request of an on-demand stream; status, content type, content and the stream it is of compared with an independent reading of the path; files around the segment directory never read nor written", len(flv), len(hls), len(n01Names)+2, len(confs), n)
}

// n01Stray looks for files where none belong.
func n01Stray(root string, bad func(key, f string, a ...interface{})) {
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() {
			return nil
		}
		rel, _ := filepath.Rel(root, p)
		if data, err := os.ReadFile(p); err == nil && len(data) > 0 && (data[0] == 0xef || data[0] == 0xee) {
			return nil //put there
		}
		if d, f := filepath.Split(rel); d != "live/" && d != "live-other/" || !regexp.MustCompile(`(?s)^.+-([0-9]+\.(ts|m4s)|init\.mp4)$`).MatchString(f) {
			bad("stray", "the file %q was written", rel)
		}
		return nil
	})
	if es, _ := os.ReadDir(filepath.Dir(root)); len(es) > 0 {
		for _, e := range es {
			if strings.HasPrefix(e.Name(), "secret") || strings.HasPrefix(e.Name(), "s-") {
				bad("stray", "the file %q was written above the directory", e.Name())
			}
		}
	}
}

// ---- concurrent first requests

const n01M3U8 = "/live/s/index.m3u8"

type n01Sched struct {
	reqs   []string
	dash   bool
	frames int //published meanwhile
	leave  bool
	again  bool //the name is published again meanwhile
	bound  int
}

func n01Race(r *v.Run, c *v.Ctx, x n01Sched, dir string) {
	failed := map[string]bool{}
	bad := func(key, f string, a ...interface{}) {
		if !failed[key] {
			failed[key] = true
			r.Violation("n01:race:"+key, fmt.Sprintf("%+v, schedule %v", x, c.Choices()), "%+v: %s", x, fmt.Sprintf(f, a...))
		}
	}
	outcome := ""
	s := vs.Run(c, func(s *vs.Sched) {
		g := newSRig(s, sOpt{hls: libhls.DELAY, dash: x.dash}, dir, bad)
		p := &n01Pub{app: "live", name: "s", mark: 0x81}
		p.start(g)
		for i := 0; i < 2; i++ {
			p.frame()
			s.Idle()
		}
		q := &n01Pub{app: "live", name: "s", mark: 0x82}
		if x.again {
			q.k = newCli(g.conn(1935), s.Idle, "pub")
			q.k.hello()
			q.k.connect("live")
			q.k.cmd("createStream", 2, nil)
		}
		s.Idle()
		before := len(s.Alive())
		s.Explore(true)
		var ws []*sResp
		for _, t := range x.reqs {
			ws = append(ws, g.ask(sHLS, t))
		}
		for i := 0; i < x.frames; i++ {
			p.frame()
		}
		if x.leave {
			p.k.c.Close()
			if x.again {
				q.k.send(v.Msg{Type: 20, CSID: 3, Payload: v.AMF("publish", 3, nil, "s", "live")})
			}
		}
		s.Idle()
		s.Explore(false)
		refused := x.again && !g.room("s")
		if refused { //the other still owned the name
			outcome += " again-refused"
			q.k.c.Close()
		}
		on := p
		if x.again && !refused {
			on = q
			q.k.send(v.Msg{Type: 9, CSID: 4, SID: 1, TS: 0, Payload: sSeq(q.mark)})
		}
		for i := 0; i < 3 && (!x.leave || on == q); i++ {
			on.frame()
			s.Idle()
		}
		s.Idle()
		mark := on.mark
		ok := x.leave
		for i, w := range ws {
			outcome += fmt.Sprint(" ", w.code)
			if !w.done {
				bad("hangs", "request %d is not answered", i)
				continue
			}
			if w.code == 0 {
				w.code = 200
			}
			ok = ok || w.code == 200
			if w.code != 200 && w.code != 404 {
				bad("status", "request %d is answered with status %d", i, w.code)
			}
			if w.code == 200 && !x.leave && strings.HasSuffix(x.reqs[i], ".m3u8") {
				pl, err := v.ParseM3U8(w.body.Bytes())
				if err != nil || len(pl.Segs) == 0 {
					bad("playlist", "request %d: %d segments, %v", i, len(pl.Segs), err)
				}
			}
		}
		if !ok {
			bad("status", "no request was answered with a playlist")
		}
		alive := g.room("s")
		if alive != (!x.leave || on == q) {
			bad("room", "the stream is there: %v", alive)
		}
		if !x.leave {
			if n := len(s.Alive()) - before; n != 1 {
				bad("started", "%d goroutines were started for segmenting: %v", n, s.Alive())
			}
		}
		if alive {
			g.get(sHLS, n01M3U8)
			for i := 0; i < 3; i++ {
				on.frame()
				s.Idle()
			}
			//what is listed is there and whole
			for _, t := range []string{"/live/s/index.m3u8"} {
				w := g.get(sHLS, t)
				pl, err := v.ParseM3U8(w.body.Bytes())
				if w.code != 0 && w.code != 200 || err != nil || len(pl.Segs) < 2 {
					bad("afterwards", "the playlist: status %d, %d segments, %v", w.code, len(pl.Segs), err)
					return
				}
				for i, sg := range pl.Segs {
					w := g.get(sHLS, "/live/s/"+sg.File)
					if fmt.Sprint(n01Marks(w.body.Bytes())) != fmt.Sprint([]int{mark}) {
						bad("afterwards", "segment %q: status %d, media of %x", sg.File, w.code, n01Marks(w.body.Bytes()))
					}
					d := v.DemuxTS(w.body.Bytes())
					if len(d.Errs) > 0 {
						bad("afterwards", "segment %q: %v", sg.File, d.Errs)
					}
					n := 0
					for _, p := range d.Units {
						if len(n01Marks(p.Data)) > 0 {
							n++
						}
					}
					if n != 1 {
						bad("afterwards", "segment %d %q holds %d frames", i, sg.File, n)
					}
				}
			}
			if x.dash && !x.leave {
				if w := g.get(sHLS, "/live/s/index.mpd"); w.code != 0 && w.code != 200 || !bytes.Contains(w.body.Bytes(), []byte("<MPD")) {
					bad("afterwards", "the manifest: status %d", w.code)
				}
			}
		}
		p.k.c.Close()
		if q.k != nil {
			q.k.c.Close()
		}
		s.Idle()
		if a := s.Alive(); len(a) != g.base {
			bad("leak", "everybody has left; goroutines stay: %v", a)
		}
		if fs := g.files(); len(fs) > 0 {
			bad("files", "everybody has left; files stay: %v", fs)
		}
	})
	if s.Crash != nil {
		bad("crash:"+s.Crash.Where, "%s\n%s", s.Crash.Value, s.Crash.Stack)
	}
	if s.Dead != "" {
		bad("deadlock", "%s", s.Dead)
	}
	r.Eval(outcome, fmt.Sprintf("%+v %v", x, c.Choices()))
}

func TestVerifN01Schedules(t *testing.T) {
	r := v.Start(t)
	defer r.Finish()
	defer sQuiet()()
	dir := filepath.Join(r.Out(), "n01s")
	const m, d = n01M3U8, "/live/s/index.mpd"
	n := 0
	for _, x := range []n01Sched{
		{reqs: []string{m, m}},
		{reqs: []string{m, m, m}},
		{reqs: []string{m, m}, frames: 1},
		{reqs: []string{m, m}, frames: 3},
		{reqs: []string{m, m + "?_HLS_msn=0"}, frames: 1},
		{reqs: []string{m, d}, dash: true},
		{reqs: []string{m, d, m, d}, dash: true, frames: 1},
		{reqs: []string{m}, leave: true},
		{reqs: []string{m, m}, leave: true},
		{reqs: []string{m}, leave: true, again: true},
		{reqs: []string{m, m}, leave: true, again: true},
		{reqs: []string{m, d}, dash: true, leave: true, again: true},
	} {
		x.bound = r.Pick(2, 3)
		if len(x.reqs) <= 2 && x.frames == 0 && !x.dash && !x.again {
			x.bound++
		}
		n++
		if _, all := v.Tree(r, x.bound, func(c *v.Ctx, first bool) bool {
			r.Journal("N01 %+v", x)
			n01Race(r, c, x, dir)
			return true
		}); !all {
			r.Capped(fmt.Sprintf("bounded by the time budget in %+v", x))
			return
		}
	}
	r.Note("concurrent first requests of an on-demand stream, also while it is published, ends and is published again: %d scenarios, every schedule with at most %d preemptions (one more in the scenarios of up to two playlist requests); at most one segmenter, every playlist and segment whole afterwards", n, r.Pick(2, 3))
}

var _ = http.StatusOK
