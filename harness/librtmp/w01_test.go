//go:build go1.25

package librtmp

import (
	"bufio"
	"bytes"
	"crypto/sha1"
	"encoding/base64"
	"encoding/binary"
	"fmt"
	"io"
	"net/http"
	"path/filepath"
	"strings"
	"testing"

	v "github.com/sbraveyoung/GGmpeg/verif_vlib"
	vs "github.com/sbraveyoung/GGmpeg/verif_vsched"
)

// W01: WebSocket.

// w01Frame is a frame as it is on the wire.
type w01Frame struct {
	op   byte
	body []byte
}

// w01Decode is a strict client: it consumes the whole frames of b. Frames of a server are final,
// unmasked, have no extension bits and the shortest length there is.
func w01Decode(b []byte) (fs []w01Frame, rest []byte, err error) {
	for len(b) >= 2 {
		if b[0]&0x70 != 0 || b[0]&0x80 == 0 {
			return fs, b, fmt.Errorf("frame header %x: fragmented or extension bits", b[:2])
		}
		op := b[0] & 15
		switch op {
		case 1, 2, 8, 9, 10:
		default:
			return fs, b, fmt.Errorf("frame header %x: opcode", b[:2])
		}
		if b[1]&0x80 != 0 {
			return fs, b, fmt.Errorf("frame header %x: masked", b[:2])
		}
		n, h := uint64(b[1]), 2
		switch n {
		case 126:
			if len(b) < 4 {
				return fs, b, nil
			}
			if n, h = uint64(binary.BigEndian.Uint16(b[2:])), 4; n < 126 {
				return fs, b, fmt.Errorf("frame header %x: length in too many bytes", b[:4])
			}
		case 127:
			if len(b) < 10 {
				return fs, b, nil
			}
			if n, h = binary.BigEndian.Uint64(b[2:]), 10; n < 65536 || n > 1<<40 {
				return fs, b, fmt.Errorf("frame header %x: length", b[:10])
			}
		}
		if op >= 8 && n > 125 {
			return fs, b, fmt.Errorf("control frame of %d bytes", n)
		}
		if uint64(len(b)-h) < n {
			return fs, b, nil
		}
		fs = append(fs, w01Frame{op, append([]byte(nil), b[h:h+int(n)]...)})
		b = b[h+int(n):]
	}
	return fs, b, nil
}

// w01Encode is a client's frame; form is the number of length bytes (0: the shortest).
func w01Encode(op byte, body []byte, mask []byte, form int) []byte {
	b := []byte{0x80 | op}
	m := byte(0)
	if mask != nil {
		m = 0x80
	}
	n := len(body)
	if form == 0 {
		switch {
		case n < 126:
			form = 1
		case n < 65536:
			form = 2
		default:
			form = 8
		}
	}
	switch form {
	case 1:
		b = append(b, m|byte(n))
	case 2:
		b = append(b, m|126, byte(n>>8), byte(n))
	case 8:
		b = append(append(b, m|127), make([]byte, 8)...)
		binary.BigEndian.PutUint64(b[2:], uint64(n))
	}
	if mask == nil {
		return append(b, body...)
	}
	b = append(b, mask...)
	for i, x := range body {
		b = append(b, x^mask[i%4])
	}
	return b
}

var w01Masks = [][]byte{nil, {0, 0, 0, 0}, {1, 2, 4, 8}, {0xff, 0x80, 0x7f, 0}, {0x37, 0xfa, 0x21, 0x3d}}

// w01Cut hands out b in pieces.
type w01Cut struct {
	b    []byte
	cuts []int //positions at which a read ends
	step int
	at   int
}

func (x *w01Cut) Read(p []byte) (int, error) {
	if x.at == len(x.b) {
		return 0, io.EOF
	}
	n := min(len(p), len(x.b)-x.at)
	if x.step > 0 {
		n = min(n, x.step)
	}
	for _, c := range x.cuts {
		if c > x.at {
			n = min(n, c-x.at)
		}
	}
	copy(p[:n], x.b[x.at:])
	x.at += n
	return n, nil
}

func TestVerifW01Frames(t *testing.T) {
	r := v.Start(t)
	defer r.Finish()
	defer sQuiet()()
	var sizes []int
	for n := 0; n <= 1030; n++ {
		sizes = append(sizes, n)
	}
	for _, c := range []int{4096, 32768, 65536, 1 << 17} {
		for d := -12; d <= 12; d++ {
			sizes = append(sizes, c+d)
		}
	}
	if sizes = append(sizes, 1<<20, 1<<20+1, 3<<20+7); !r.Quick() {
		for n := 1031; n < 70000; n += 1 {
			sizes = append(sizes, n)
		}
		sizes = append(sizes, 16<<20, 16<<20+1)
	}
	sent := 0
	for _, n := range sizes {
		for _, op := range []wsOpcode{wsOpBinary, wsOpText, wsOpPing, wsOpPong, wsOpClose} {
			if op >= wsOpClose && n > 125 || !r.Mine() {
				continue
			}
			desc := fmt.Sprintf("frame of opcode %d with %d bytes", op, n)
			r.Journal("W01 %s", desc)
			sent++
			r.Guard("w01", desc, func() {
				a, b := v.Pipe()
				ws := &wsConn{conn: b, br: bufio.NewReader(b)}
				body := v.Fill(n, n)
				next := []byte("next")
				if err := ws.writeFrame(op, body); err != nil {
					r.Violation("w01:write", desc, "%s: %v", desc, err)
					return
				}
				if op != wsOpClose {
					if err := ws.writeFrame(wsOpBinary, next); err != nil {
						r.Violation("w01:write", desc, "a frame after a %s: %v", desc, err)
						return
					}
				}
				fs, rest, err := w01Decode(a.Take())
				want := []w01Frame{{byte(op), body}, {2, next}}
				if op == wsOpClose {
					want = want[:1]
				}
				if err != nil || len(rest) > 0 || !w01Same(fs, want) {
					r.Violation("w01:write", desc, "%s, then one of 4: a conforming client reads %d frames, %d bytes left, %v", desc, len(fs), len(rest), err)
				}
			})
			r.Eval("written", desc)
		}
	}
	//reading
	if !r.Quick() {
		sizes = sizes[:len(sizes)-2]
	}
	read := 0
	check := func(desc string, wire []byte, want []w01Frame, cuts []int, step int) {
		read++
		r.Guard("w01", desc, func() {
			ws := &wsConn{br: bufio.NewReaderSize(&w01Cut{b: wire, cuts: cuts, step: step}, 16)}
			for i, w := range want {
				op, b, err := ws.readFrame()
				if err != nil || byte(op) != w.op || !bytes.Equal(b, w.body) {
					r.Violation("w01:read", desc, "%s, reads ending at %v, at most %d bytes a time: frame %d is read as opcode %d with %d bytes, %v (want %d, %d bytes)", desc, cuts, step, i, op, len(b), err, w.op, len(w.body))
					return
				}
			}
			if op, b, err := ws.readFrame(); err == nil {
				r.Violation("w01:read", desc, "%s: after the last frame another one is read: opcode %d, %d bytes", desc, op, len(b))
			}
		})
		r.Eval("read", fmt.Sprintf("%s %v %d", desc, cuts, step))
	}
	for _, n := range sizes {
		forms := []int{0}
		if n < 126 {
			forms = []int{1, 2, 8}
		} else if n < 65536 {
			forms = []int{2, 8}
		}
		for mi, mask := range w01Masks {
			for _, form := range forms {
				if !r.Mine() {
					continue
				}
				op := []byte{1, 2, 9, 10}[(n+mi)%4]
				if n > 125 && op > 8 || form > 1 && n < 126 && op > 8 {
					op = 2
				}
				body := v.Fill(n+mi, n)
				wire := w01Encode(op, body, mask, form)
				head := len(wire) - n
				all := append(append([]byte{}, wire...), w01Encode(9, []byte("ab"), w01Masks[4], 0)...)
				want := []w01Frame{{op, body}, {9, []byte("ab")}}
				desc := fmt.Sprintf("client frame of opcode %d with %d bytes (length in form %d), mask %x", op, n, form, mask)
				r.Journal("W01 %s", desc)
				check(desc, all, want, nil, 0)
				if n <= 4200 {
					check(desc, all, want, nil, 1)
				} else {
					check(desc, all, want, nil, 4093)
				}
				for c := 1; c < len(all); c++ { //every single cut near the ends
					if c <= head+4 || c >= len(all)-10 {
						check(desc, all, want, []int{c}, 0)
					}
				}
			}
		}
		if r.Expired() {
			r.Capped("frames")
			return
		}
	}
	//every segmentation of two short frames
	for mi, mask := range w01Masks {
		for n := 0; n <= 3; n++ {
			body := v.Fill(n, n)
			all := append(w01Encode(2, body, mask, 0), w01Encode(9, body[:n/2], mask, 0)...)
			want := []w01Frame{{2, body}, {9, body[:n/2]}}
			for bits := 0; bits < 1<<(len(all)-1); bits++ {
				if !r.Mine() {
					continue
				}
				var cuts []int
				for i := 1; i < len(all); i++ {
					if bits>>(i-1)&1 == 1 {
						cuts = append(cuts, i)
					}
				}
				check(fmt.Sprintf("two short frames, mask %d, %d bytes", mi, n), all, want, cuts, 0)
			}
		}
	}
	r.Note("frames: written: every payload length 0..1030 and around 4096, 32768, 65536 and 131072 (thorough: all up to 70000, 16 MB) for every opcode, decoded by a strict client with a frame behind it; read: the same lengths in every length form, 5 masks, whole, byte by byte and cut at every position near both ends; every segmentation of two short frames")
}

func w01Same(a, b []w01Frame) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].op != b[i].op || !bytes.Equal(a[i].body, b[i].body) {
			return false
		}
	}
	return true
}

// ---- requests

// w01Ask performs an upgrade request given as text; early is what the client has sent behind it.
func w01Ask(g *sRig, text string, early []byte) *sFLVView {
	req, err := http.ReadRequest(bufio.NewReader(strings.NewReader(text)))
	if err != nil {
		panic("verif-internal: " + err.Error() + text)
	}
	x := &sFLVView{g: g, ws: true, resp: &sResp{h: http.Header{}, hijack: true}}
	x.resp.a, x.resp.b = vs.Pipe()
	x.resp.early = early
	x.resp.sink = &x.sink
	vs.Go(func() {
		if e := g.serve(sFLV, x.resp, req); e != nil {
			g.bad("http-panic", "%v", e)
		}
		x.done = true
	})
	return x
}

func w01Accept(key string) string {
	h := sha1.Sum([]byte(key + "258EAFA5-E914-47DA-95CA-C5AB0DC85B11"))
	return base64.StdEncoding.EncodeToString(h[:])
}

// w01Head splits the answer of the server from what follows.
func w01Head(b []byte, key string) (rest []byte, err error) {
	i := bytes.Index(b, []byte("\r\n\r\n"))
	if i < 0 {
		return nil, fmt.Errorf("no whole answer: %q", b)
	}
	resp, err := http.ReadResponse(bufio.NewReader(bytes.NewReader(b[:i+4])), nil)
	if err != nil {
		return nil, err
	}
	if resp.StatusCode != 101 || !strings.EqualFold(resp.Header.Get("Upgrade"), "websocket") || !strings.EqualFold(resp.Header.Get("Connection"), "upgrade") {
		return nil, fmt.Errorf("answer %q", b[:i+4])
	}
	if g := resp.Header.Get("Sec-WebSocket-Accept"); g != w01Accept(key) {
		return nil, fmt.Errorf("accept key %q for %q", g, key)
	}
	if resp.Header.Get("Sec-WebSocket-Extensions") != "" || resp.Header.Get("Sec-WebSocket-Protocol") != "" {
		return nil, fmt.Errorf("an extension or subprotocol nobody asked for: %q", b[:i+4])
	}
	return b[i+4:], nil
}

func TestVerifW01Upgrade(t *testing.T) {
	r := v.Start(t)
	defer r.Finish()
	defer sQuiet()()
	dir := filepath.Join(r.Out(), "w01u")
	keys := []string{"dGhlIHNhbXBsZSBub25jZQ==", "AAAAAAAAAAAAAAAAAAAAAA==", "/////////////////////w==", "x3JJHMbDL1EzLkh9GBhXDw==", "", "-"}
	upg := []string{"websocket", "WebSocket", "WEBSOCKET"}
	conns := [][]string{{"Upgrade"}, {"upgrade"}, {"UPGRADE"}, {"keep-alive, Upgrade"}, {"Upgrade, keep-alive"}, {"keep-alive,upgrade"}, {"keep-alive ,\tUpgrade , x"}, {"keep-alive", "Upgrade"}, {"Upgrade", "keep-alive"}, {"close"}, {"keep-alive"}, {""}, nil}
	names := [][4]string{{"Upgrade", "Connection", "Sec-WebSocket-Key", "Sec-WebSocket-Version"}, {"upgrade", "connection", "sec-websocket-key", "sec-websocket-version"}, {"UPGRADE", "CONNECTION", "SEC-WEBSOCKET-KEY", "SEC-WEBSOCKET-VERSION"}}
	vers := []string{"13", "8", "0", ""}
	targets := []string{"/live/s.flv", "/live/s.flv?token=1", "/live/none.flv", "/other/s.flv", "/live/s"}
	n := 0
	for _, dim := range v.Product(len(keys), len(upg), len(conns), len(names), len(vers), len(targets), 2) {
		key, up, cn, nm, ver, tg, post := keys[dim[0]], upg[dim[1]], conns[dim[2]], names[dim[3]], vers[dim[4]], targets[dim[5]], dim[6] == 1
		if tg != targets[0] && (dim[1] > 0 || dim[3] > 0) || post && (dim[1]+dim[3]+dim[4] > 0 || tg != targets[0]) {
			continue
		}
		if !r.Mine() {
			continue
		}
		n++
		good := !post && tg != "/live/none.flv" && tg != "/other/s.flv" && tg != "/live/s" && key != "" && key != "-" && ver == "13" && strings.Contains(strings.ToLower(strings.Join(cn, ",")), "upgrade")
		meth := "GET"
		if post {
			meth = "POST"
		}
		text := meth + " " + tg + " HTTP/1.1\r\nHost: h\r\nUser-Agent: x\r\n" + nm[0] + ": " + up + "\r\n"
		for _, c := range cn {
			text += nm[1] + ": " + c + "\r\n"
		}
		if key != "-" {
			text += nm[2] + ": " + key + "\r\n"
		}
		if ver != "" {
			text += nm[3] + ": " + ver + "\r\n"
		}
		text += "Origin: http://h\r\n\r\n"
		desc := strings.ReplaceAll(text, "\r\n", "; ")
		r.Journal("W01 %s", desc)
		bad := func(k, f string, a ...interface{}) {
			r.Violation("w01:"+k, desc, "%s: %s", desc, fmt.Sprintf(f, a...))
		}
		s := vs.Run(&v.Ctx{}, func(s *vs.Sched) {
			g := newSRig(s, sOpt{}, dir, bad)
			p := g.pub("rtmp", 0, "s")
			p.prepare()
			vs.Go(p.claim)
			s.Idle()
			p.frame(true)
			s.Idle()
			x := w01Ask(g, text, w01Encode(9, []byte("early"), w01Masks[4], 0))
			s.Idle()
			raw := x.resp.a.Take()
			if !good {
				if x.resp.code == 101 || len(raw) > 0 {
					bad("accepted", "the upgrade was accepted: %q", raw[:min(len(raw), 80)])
				} else if x.resp.code < 400 || x.resp.code > 499 || !x.done {
					bad("refusal", "refused with status %d (answered: %v)", x.resp.code, x.done)
				}
				if x.sink.count() > 0 {
					bad("refusal", "media was sent with status %d", x.resp.code)
				}
				return
			}
			rest, err := w01Head(raw, key)
			if x.resp.code != 101 || err != nil {
				bad("refused", "status %d, %v", x.resp.code, err)
				return
			}
			p.frame(false)
			s.Idle()
			fs, rest, err := w01Decode(append(rest, x.resp.a.Take()...))
			if err != nil || len(rest) > 0 {
				bad("frames", "%v, %d bytes left", err, len(rest))
			}
			pongs := 0
			for _, f := range fs {
				switch f.op {
				case 2:
					x.sink.Write(f.body)
				case 10:
					if pongs++; string(f.body) != "early" {
						bad("pong", "%q", f.body)
					}
				default:
					bad("frames", "opcode %d", f.op)
				}
			}
			if pongs != 1 {
				bad("pong", "%d replies to a ping sent right behind the request", pongs)
			}
			if x.sink.err != "" || len(x.sink.tags) != 3 {
				bad("stream", "%d tags, %s", len(x.sink.tags), x.sink.err)
			}
		})
		if s.Crash != nil {
			bad("crash:"+s.Crash.Where, "%s\n%s", s.Crash.Value, s.Crash.Stack)
		}
		if s.Dead != "" {
			bad("deadlock", "%s", s.Dead)
		}
		r.Eval(fmt.Sprintf("good %v", good), desc)
		if r.Expired() {
			r.Capped("upgrade requests")
			return
		}
	}
	r.Note("upgrade requests: %d of the product of %d keys, %d spellings of the upgrade, %d Connection headers, %d spellings of header names, %d versions, %d targets (this shard)", n, len(keys), len(upg), len(conns), len(names), len(vers), len(targets))
}

// ---- sessions

type w01Op struct {
	name string
	op   byte //0xff: the publisher sends
	body []byte
}

func w01Ops() []w01Op {
	return []w01Op{
		{"frame", 0xff, nil},
		{"ping0", 9, nil},
		{"ping5", 9, []byte("12345")},
		{"ping125", 9, v.Fill(3, 125)},
		{"pong", 10, []byte("x")},
		{"text", 1, []byte("hello")},
		{"binary", 2, v.Fill(4, 200)},
		{"close", 8, nil},
		{"close1000", 8, []byte{3, 232, 'b', 'y', 'e'}},
		{"gone", 0xfe, nil},
	}
}

type w01 struct {
	script []int
	step   int //bytes per read of the server
	sched  bool
	win    int
	bound  int
}

func (x w01) String() string {
	s := ""
	for _, o := range x.script {
		s += w01Ops()[o].name + " "
	}
	return fmt.Sprintf("%sin reads of %d, concurrent %v", s, x.step, x.sched)
}

func w01Run(r *v.Run, c *v.Ctx, x w01, dir string) {
	ops := w01Ops()
	failed := map[string]bool{}
	desc := x.String()
	bad := func(key, f string, a ...interface{}) {
		if !failed[key] {
			failed[key] = true
			r.Violation("w01:session:"+key, fmt.Sprintf("%s, schedule %v", desc, c.Choices()), "%s: "+f, append([]interface{}{desc}, a...)...)
		}
	}
	outcome := ""
	s := vs.Run(c, func(s *vs.Sched) {
		g := newSRig(s, sOpt{}, dir, bad)
		p := g.pub("rtmp", 0, "s").(*sRTMP)
		p.prepare()
		vs.Go(p.claim)
		s.Idle()
		sent := []v.Msg{{Type: 9, Payload: sSeq(p.m)}}
		frame := func() {
			sent = append(sent, v.Msg{Type: 9, TS: uint32(p.at()), Payload: sFrame(len(sent) == 1, p.m, 30+p.n)})
			p.frame(len(sent) == 2)
		}
		frame()
		s.Idle()
		w := g.view("ws", "s").(*sFLVView)
		w.join()
		s.Idle()
		a := w.resp.a
		if x.step > 0 {
			a.LimitPeerReads(x.step)
		}
		var pongs [][]byte
		closed, gone := false, false
		s.Explore(x.sched)
		var other [][]byte
		for _, o := range x.script {
			switch op := ops[o]; op.op {
			case 0xff:
				if x.sched {
					other = append(other, nil)
				} else {
					frame()
				}
			case 0xfe:
				if !x.sched {
					gone = true
					a.Close()
				}
			default:
				if !closed && !gone && op.op == 9 {
					pongs = append(pongs, op.body)
				}
				closed = closed || op.op == 8 && !gone
				b := w01Encode(op.op, op.body, w01Masks[1+len(op.body)%4], 0)
				if x.sched {
					other = append(other, b)
				} else {
					a.Write(b)
				}
			}
			if !x.sched {
				s.Idle()
			}
		}
		if x.sched {
			vs.Go(func() {
				for _, b := range other {
					if b != nil {
						a.Write(b)
					}
				}
			})
			for _, b := range other {
				if b == nil {
					frame()
				}
			}
			s.Idle()
		}
		s.Explore(false)
		raw := a.Take()
		ended := a.PeerClosed()
		if gone {
			raw = nil
		} else if rest, err := w01Head(raw, "dGhlIHNhbXBsZSBub25jZQ=="); err != nil {
			bad("answer", "%v", err)
			return
		} else {
			raw = rest
		}
		if closed != ended && !gone {
			bad("ended", "close frame sent: %v; the server hung up: %v", closed, ended)
		}
		fs, rest, err := w01Decode(raw)
		if err != nil || len(rest) > 0 {
			bad("frames", "%d frames, then %v, bytes left %x", len(fs), err, rest[:min(len(rest), 60)])
			return
		}
		for i, f := range fs {
			outcome += fmt.Sprint(" ", f.op)
			switch f.op {
			case 2:
				w.sink.Write(f.body)
			case 10:
				if len(pongs) == 0 || !bytes.Equal(pongs[0], f.body) {
					bad("pong", "a reply of %d bytes %q; replies still due: %d", len(f.body), f.body, len(pongs))
					return
				}
				pongs = pongs[1:]
			case 8:
				if !closed || i != len(fs)-1 {
					bad("close", "a close frame as frame %d of %d, client closing: %v", i, len(fs), closed)
				}
			default:
				bad("opcode", "%d", f.op)
			}
		}
		if !gone {
			if len(pongs) > 0 {
				bad("pong", "%d pings without reply", len(pongs))
			}
			if closed && (len(fs) == 0 || fs[len(fs)-1].op != 8) {
				bad("close", "the close frame is not answered by one")
			}
			if w.sink.err != "" {
				bad("stream", "%s", w.sink.err)
			}
			got := w.sink.tags
			if len(got) > len(sent) || !closed && len(got) < len(sent) {
				bad("stream", "%d tags of %d", len(got), len(sent))
				return
			}
			if d := sameMsgs(got, sent[:len(got)]); d != "" {
				bad("stream", "%s", d)
			}
			if !x.sched && closed {
				n := 1
				for _, o := range x.script {
					if ops[o].op == 8 {
						break
					}
					if ops[o].op == 0xff {
						n++
					}
				}
				if len(got) != n+1 {
					bad("stream", "%d tags before the close, want %d", len(got), n+1)
				}
			}
		}
		//everybody leaves
		frame()
		s.Idle()
		if b := a.Take(); closed && len(b) > 0 {
			bad("after-close", "%d bytes after the close", len(b))
		}
		if gone || closed {
			if !w.done {
				bad("released", "the viewer is gone and the request still served")
			}
		}
		p.leave(0)
		s.Idle()
		a.Close()
		s.Idle()
		if al := s.Alive(); len(al) != g.base {
			bad("leak", "everybody has left; goroutines stay: %v", al)
		}
	})
	if s.Crash != nil {
		bad("crash:"+s.Crash.Where, "%s\n%s", s.Crash.Value, s.Crash.Stack)
	}
	if s.Dead != "" {
		bad("deadlock", "%s", s.Dead)
	}
	r.Eval(outcome, fmt.Sprintf("%s %v", desc, c.Choices()))
}

func TestVerifW01Session(t *testing.T) {
	r := v.Start(t)
	defer r.Finish()
	defer sQuiet()()
	dir := filepath.Join(r.Out(), "w01s")
	ops := w01Ops()
	deep := r.Pick(4, 5)
	seqs := 0
	if !v.Sequences(len(ops), 1, deep, func(s []int) bool {
		for _, step := range []int{0, 1, 3} {
			if !r.Mine() || step == 3 && len(s) == deep {
				continue
			}
			x := w01{script: append([]int{}, s...), step: step}
			r.Journal("W01 %s", x)
			w01Run(r, &v.Ctx{}, x, dir)
			seqs++
		}
		return !r.Expired()
	}) {
		r.Capped("sessions one step at a time")
		return
	}
	r.Note("sessions, each step served before the next: every sequence of up to %d of %d steps (media, pings of 0, 5 and 125 bytes, pong, text, binary, close with and without reason, hanging up), the server reading whole, 3 bytes or 1 byte at a time; %d (this shard)", deep, len(ops), seqs)
	n := 0
	for _, s := range [][]int{
		{0, 1}, {0, 2}, {0, 3}, {0, 0, 2}, {0, 2, 2}, {0, 0, 2, 3}, {0, 7}, {0, 8}, {0, 0, 7}, {0, 2, 7}, {0, 0, 2, 8}, {0, 6, 2}, {0, 0, 0, 2, 3, 7}, {0, 2, 1, 3},
	} {
		for _, step := range []int{0, 1} {
			x := w01{script: s, step: step, sched: true, bound: r.Pick(4, 6)}
			n++
			if _, all := v.Tree(r, x.bound, func(c *v.Ctx, first bool) bool {
				r.Journal("W01 %s", x)
				w01Run(r, c, x, dir)
				return true
			}); !all {
				r.Capped(fmt.Sprintf("bounded by the time budget in %s", x))
				return
			}
		}
	}
	r.Note("concurrent media and client frames: %d scenarios, every schedule with at most %d preemptions", n, r.Pick(4, 6))
}
