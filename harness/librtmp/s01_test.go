//go:build go1.25

package librtmp

import (
	"bytes"
	"fmt"
	"os"
	"strconv"
	"strings"
	"syscall"
	"testing"
	"testing/synctest"

	v "github.com/sbraveyoung/GGmpeg/verif_vlib"
)

// S01: every sequence of requests up to a depth against the real session loop, judged by a model
// of the protocol's states. One bubble per shard holds a server with two published streams; each
// sequence is a new RTSP connection to it.

const (
	opOptions = iota
	opDescribe
	opDescribeMissing
	opSetupV
	opSetupA
	opSetupUDP
	opSetupOther
	opSetupMissing
	opSetupBadTrack
	opSetupMulticast
	opPlay
	opRecord
	opAnnounce
	opAnnounceTaken
	opAnnounceBad
	opSetupRec
	opPause
	opTeardown
	opUnknown
	opKeepalive
	opWrongSession
	opFrame
	opReport
	opMedia
	opCount
)

var s01Names = [...]string{"OPTIONS", "DESCRIBE x", "DESCRIBE missing", "SETUP x video tcp", "SETUP x audio tcp", "SETUP x video udp", "SETUP y video tcp",
	"SETUP missing", "SETUP x no such track", "SETUP x multicast", "PLAY", "RECORD", "ANNOUNCE p", "ANNOUNCE x", "ANNOUNCE p bad", "SETUP p", "PAUSE",
	"TEARDOWN", "FOO", "GET_PARAMETER", "OPTIONS wrong session", "$frame", "$report", "published"}

const s01SDP = "v=0\r\no=- 0 0 IN IP4 127.0.0.1\r\ns=t\r\nc=IN IP4 127.0.0.1\r\nt=0 0\r\nm=video 0 RTP/AVP 96\r\na=rtpmap:96 H264/90000\r\n" +
	"a=fmtp:96 packetization-mode=1;sprop-parameter-sets=Z0IAHpWoKA8=,aM48gA==\r\na=control:streamid=0\r\n"

type s01Model struct {
	video, audio int //negotiated channel, -1 none, -2 UDP
	stream       string
	announced    bool
	recording    bool
	playing      bool
	session      string
	closed       bool
	cseq         int
	recTrack     bool
	lastRec      []byte //NAL unit of the last frame sent while recording
	gotKey       bool
}

type s01Rig struct {
	r       *v.Run
	srv     *server
	px, py  *cli
	frame   int
	udp     int //receiving socket
	udpPort int
	lastX   []byte //NAL of the last published key frame of x
	lastY   []byte
	conn    *v.PipeConn
	done    chan struct{}
	buf     []byte
	frames  []s01Frame
	m       s01Model
	log     []string
	fds     int
}

// openFiles counts the file descriptors of this process.
func openFiles() int {
	e, _ := os.ReadDir("/proc/self/fd")
	return len(e)
}

type s01Frame struct {
	ch   int
	body []byte
}

func newS01Rig(r *v.Run) (*s01Rig, error) {
	g := &s01Rig{r: r, srv: NewServer(":0", "live")}
	var err error
	if g.px, err = publishRTMP(g.srv, "live", "x"); err != nil {
		return nil, err
	}
	if g.py, err = publishRTMP(g.srv, "live", "y"); err != nil {
		return nil, err
	}
	for _, p := range []*cli{g.px, g.py} {
		p.send(v.Msg{Type: 9, CSID: 6, SID: 1, Payload: vSeq})
		p.send(v.Msg{Type: 8, CSID: 4, SID: 1, Payload: aSeq})
	}
	g.publish()
	g.udp, err = syscall.Socket(syscall.AF_INET, syscall.SOCK_DGRAM, 0)
	if err != nil {
		return nil, err
	}
	if err = syscall.Bind(g.udp, &syscall.SockaddrInet4{Addr: [4]byte{127, 0, 0, 1}}); err != nil {
		return nil, err
	}
	sa, err := syscall.Getsockname(g.udp)
	if err != nil {
		return nil, err
	}
	g.udpPort = sa.(*syscall.SockaddrInet4).Port
	return g, nil
}

func (g *s01Rig) publish() {
	g.frame++
	x, y := vKey(g.frame, 20, 0), vKey(g.frame+1000000, 30, 0)
	g.lastX, g.lastY = x[9:], y[9:]
	ts := uint32(g.frame * 40)
	g.px.send(v.Msg{Type: 9, CSID: 6, SID: 1, TS: ts, Payload: x})
	g.px.send(v.Msg{Type: 8, CSID: 4, SID: 1, TS: ts, Payload: aRaw(g.frame, 9)})
	g.py.send(v.Msg{Type: 9, CSID: 6, SID: 1, TS: ts, Payload: y})
	synctest.Wait()
	g.px.c.Take()
	g.py.c.Take()
}

func (g *s01Rig) close() {
	g.px.closeWait()
	g.py.closeWait()
	syscall.Close(g.udp)
}

// open starts a session.
func (g *s01Rig) open() {
	a, b := v.Pipe()
	g.conn, g.done, g.buf, g.frames, g.log = a, make(chan struct{}), nil, nil, nil
	g.m = s01Model{video: -1, audio: -1}
	g.fds = openFiles()
	done := g.done
	go func() { defer close(done); newRTSPSession(b, g.srv).run() }()
	for g.recvUDP() != nil {
	}
}

func (g *s01Rig) recvUDP() []byte {
	b := make([]byte, 2048)
	n, _, err := syscall.Recvfrom(g.udp, b, syscall.MSG_DONTWAIT)
	if err != nil || n <= 0 {
		return nil
	}
	return b[:n]
}

// request builds the bytes of an op (nil: not a request).
func (g *s01Rig) request(op int, withSession bool) []byte {
	var method, url string
	var h []string
	body := ""
	const base = "rtsp://127.0.0.1:554/live/"
	switch op {
	case opOptions:
		method, url = "OPTIONS", base+"x"
	case opDescribe:
		method, url = "DESCRIBE", base+"x"
	case opDescribeMissing:
		method, url = "DESCRIBE", base+"missing"
	case opSetupV:
		method, url, h = "SETUP", base+"x/trackID=0", []string{"Transport: RTP/AVP/TCP;unicast;interleaved=0-1"}
	case opSetupA:
		method, url, h = "SETUP", base+"x/trackID=1", []string{"Transport: RTP/AVP/TCP;unicast;interleaved=6-7"}
	case opSetupUDP:
		method, url, h = "SETUP", base+"x/trackID=0", []string{fmt.Sprintf("Transport: RTP/AVP;unicast;client_port=%d-%d", g.udpPort, g.udpPort+1)}
	case opSetupOther:
		method, url, h = "SETUP", base+"y/trackID=0", []string{"Transport: RTP/AVP/TCP;unicast;interleaved=4-5"}
	case opSetupMissing:
		method, url, h = "SETUP", base+"missing/trackID=0", []string{"Transport: RTP/AVP/TCP;unicast;interleaved=0-1"}
	case opSetupBadTrack:
		method, url, h = "SETUP", base+"x/trackID=7", []string{"Transport: RTP/AVP/TCP;unicast;interleaved=0-1"}
	case opSetupMulticast:
		method, url, h = "SETUP", base+"x/trackID=0", []string{"Transport: RTP/AVP;multicast"}
	case opPlay:
		method, url, h = "PLAY", base+"x", []string{"Range: npt=0.000-"}
	case opRecord:
		method, url = "RECORD", base+"p"
	case opAnnounce:
		method, url, body = "ANNOUNCE", base+"p", s01SDP
	case opAnnounceTaken:
		method, url, body = "ANNOUNCE", base+"x", s01SDP
	case opAnnounceBad:
		method, url, body = "ANNOUNCE", base+"p", ""
	case opSetupRec:
		method, url, h = "SETUP", base+"p/streamid=0", []string{"Transport: RTP/AVP/TCP;unicast;interleaved=0-1;mode=record"}
	case opPause:
		method, url = "PAUSE", base+"x"
	case opTeardown:
		method, url = "TEARDOWN", base+"x"
	case opUnknown:
		method, url = "FOO", base+"x"
	case opKeepalive:
		method, url = "GET_PARAMETER", base+"x"
	case opWrongSession:
		method, url, h = "OPTIONS", base+"x", []string{"Session: 99"}
	case opReport:
		//control packets of any size, on the channel beside the media's
		n := []int{0, 1, 255, 256, 513, 1200}[len(g.log)%6]
		p := bytes.Repeat([]byte("FOO rtsp://127.0.0.1/live/x RTSP/1.0\r\nCSeq: 9\r\n\r\n"), 1+n/50)[:n]
		return append([]byte{'$', 1, byte(n >> 8), byte(n)}, p...)
	case opFrame:
		g.frame++
		n := nal(5, g.frame, 25)[4:]
		p := v.RTP{PT: 96, Marker: true, Seq: uint16(g.frame), TS: uint32(g.frame * 3600), SSRC: 5, Payload: n}.Bytes()
		if g.m.recording && g.m.recTrack {
			g.m.lastRec = n
		}
		return append([]byte{'$', 0, byte(len(p) >> 8), byte(len(p))}, p...)
	}
	g.m.cseq++
	if withSession && g.m.session != "" && op != opWrongSession {
		id := g.m.session
		if g.m.cseq%2 == 0 { //some repeat the whole header
			id += ";timeout=60"
		}
		h = append(h, "Session: "+id)
	}
	if body != "" {
		h = append(h, "Content-Type: application/sdp", "Content-Length: "+strconv.Itoa(len(body)))
	}
	s := fmt.Sprintf("%s %s RTSP/1.0\r\nCSeq: %d\r\n", method, url, g.m.cseq)
	for _, l := range h {
		s += l + "\r\n"
	}
	return []byte(s + "\r\n" + body)
}

// expect says which statuses an op may be answered with now.
func (g *s01Rig) expect(op int) []int {
	m := &g.m
	busy := m.playing || m.recording
	switch op {
	case opOptions, opKeepalive, opTeardown:
		return []int{200}
	case opDescribe:
		if m.announced {
			return []int{200, 455}
		}
		return []int{200}
	case opDescribeMissing:
		if m.announced {
			return []int{404, 455}
		}
		return []int{404}
	case opSetupV, opSetupA, opSetupUDP:
		switch {
		case busy:
			return []int{455}
		case m.announced:
			return []int{404, 455}
		case m.stream == "y":
			return []int{404, 455, 459}
		}
		return []int{200}
	case opSetupOther:
		switch {
		case busy:
			return []int{455}
		case m.announced:
			return []int{404, 455}
		case m.stream == "x":
			return []int{404, 455, 459}
		}
		return []int{200}
	case opSetupMissing, opSetupBadTrack:
		if busy || m.announced {
			return []int{404, 455}
		}
		return []int{404}
	case opSetupMulticast:
		if busy {
			return []int{455, 461}
		}
		if m.announced || m.stream == "y" {
			return []int{404, 455, 461}
		}
		return []int{461}
	case opPlay:
		if m.announced || m.stream == "" {
			return []int{455}
		}
		return []int{200}
	case opRecord:
		if !m.announced || !m.recTrack {
			return []int{455}
		}
		if m.recording {
			return []int{200, 455}
		}
		return []int{200}
	case opAnnounce, opAnnounceTaken, opAnnounceBad:
		if m.announced || m.stream != "" {
			return []int{455}
		}
		switch op {
		case opAnnounceTaken:
			return []int{403, 406, 409, 453, 461}
		case opAnnounceBad:
			return []int{400, 415}
		}
		return []int{200}
	case opSetupRec:
		switch {
		case busy:
			return []int{455}
		case m.announced:
			return []int{200}
		case m.stream != "":
			return []int{404, 455, 459}
		}
		return []int{404}
	case opPause, opUnknown:
		if op == opPause {
			return []int{501, 405, 455}
		}
		return []int{501, 405}
	case opWrongSession:
		return []int{454}
	}
	panic("op")
}

// answered applies a reply to the model.
func (g *s01Rig) answered(op int, rep v.RTSPReply) string {
	m := &g.m
	if got := rep.Headers["cseq"]; got != strconv.Itoa(m.cseq) {
		return fmt.Sprintf("reply to request %d carries CSeq %q", m.cseq, got)
	}
	ok := false
	want := g.expect(op)
	for _, s := range want {
		ok = ok || s == rep.Status
	}
	if !ok {
		return fmt.Sprintf("status %d, the state calls for %v", rep.Status, want)
	}
	if id, _, _ := strings.Cut(rep.Headers["session"], ";"); id != "" {
		if m.session != "" && id != m.session {
			return fmt.Sprintf("session id %q, the session is %q", id, m.session)
		}
		if m.session == "" {
			if op < opSetupV || op > opSetupMulticast && op != opSetupRec || rep.Status != 200 {
				return fmt.Sprintf("session id %q without a SETUP", id)
			}
			m.session = id
		}
	} else if rep.Status == 200 && (op >= opSetupV && op <= opRecord || op == opSetupRec) {
		return "no session id"
	}
	if rep.Status != 200 {
		return ""
	}
	switch op {
	case opOptions:
		have := map[string]bool{}
		for _, x := range strings.Split(rep.Headers["public"], ",") {
			have[strings.TrimSpace(x)] = true
		}
		for _, x := range []string{"OPTIONS", "DESCRIBE", "ANNOUNCE", "SETUP", "PLAY", "RECORD", "TEARDOWN"} {
			if !have[x] {
				return fmt.Sprintf("Public %q lacks %s", rep.Headers["public"], x)
			}
		}
	case opDescribe:
		_, media, err := v.UnSDP(rep.Body)
		if err != nil || len(media) != 2 || media[0].Kind != "video" || media[1].Kind != "audio" {
			return fmt.Sprintf("description %q: %v", rep.Body, err)
		}
	case opSetupV, opSetupOther, opSetupRec, opSetupA:
		ch := map[int]string{opSetupV: "0-1", opSetupA: "6-7", opSetupOther: "4-5", opSetupRec: "0-1"}[op]
		t := rep.Headers["transport"]
		if !strings.HasPrefix(t, "RTP/AVP/TCP") || !strings.Contains(t, "interleaved="+ch) {
			return fmt.Sprintf("transport answered %q, asked for interleaved=%s", t, ch)
		}
		n, _ := strconv.Atoi(ch[:1])
		switch op {
		case opSetupA:
			m.audio, m.stream = n, "x"
		case opSetupV:
			m.video, m.stream = n, "x"
		case opSetupOther:
			m.video, m.stream = n, "y"
		case opSetupRec:
			m.recTrack = true
		}
	case opSetupUDP:
		t := rep.Headers["transport"]
		_, s, _ := strings.Cut(t, "server_port=")
		s, _, _ = strings.Cut(s, ";")
		p, q, _ := strings.Cut(s, "-")
		pn, _ := strconv.Atoi(p)
		qn, _ := strconv.Atoi(q)
		if strings.Contains(t, "TCP") || !strings.Contains(t, fmt.Sprintf("client_port=%d-%d", g.udpPort, g.udpPort+1)) || pn == 0 || pn%2 != 0 || qn != pn+1 {
			return fmt.Sprintf("transport answered %q", t)
		}
		m.video, m.stream = -2, "x"
	case opPlay:
		m.playing = true
	case opRecord:
		m.recording = true
	case opAnnounce:
		m.announced = true
	case opTeardown:
		m.closed = true
	}
	return ""
}

// drain takes what the server sent: replies in order, interleaved frames aside. A frame before a
// reply is an error unless media was flowing already.
func (g *s01Rig) drain() (reps []v.RTSPReply, err error) {
	g.buf = append(g.buf, g.conn.Take()...)
	for len(g.buf) > 0 {
		if g.buf[0] == '$' {
			if len(g.buf) < 4 {
				return reps, fmt.Errorf("cut interleaved frame")
			}
			n := 4 + int(g.buf[2])<<8 + int(g.buf[3])
			if len(g.buf) < n {
				return reps, fmt.Errorf("cut interleaved frame")
			}
			g.frames = append(g.frames, s01Frame{int(g.buf[1]), g.buf[4:n]})
			if !g.m.playing && (len(reps) == 0 || reps[len(reps)-1].Status != 200) {
				return reps, fmt.Errorf("interleaved frame while not playing")
			}
			g.buf = g.buf[n:]
			continue
		}
		rep, n, err := v.UnRTSP(g.buf)
		if err != nil || n == 0 {
			return reps, fmt.Errorf("not a reply: %q %v", g.buf, err)
		}
		reps = append(reps, rep)
		g.buf = g.buf[n:]
	}
	return reps, nil
}

// checkMedia judges the frames that arrived in a step.
func (g *s01Rig) checkMedia(op int) string {
	m := &g.m
	var udp [][]byte
	for {
		b := g.recvUDP()
		if b == nil {
			break
		}
		udp = append(udp, b)
	}
	frames := g.frames
	g.frames = nil
	if !m.playing || m.closed {
		if len(frames)+len(udp) > 0 {
			return fmt.Sprintf("%d frames and %d datagrams while not playing", len(frames), len(udp))
		}
		return ""
	}
	var vp, ap [][]byte
	for _, f := range frames {
		p, err := v.UnRTP(f.body)
		if err != nil {
			return err.Error()
		}
		switch {
		case f.ch == m.video && m.video >= 0:
			vp = append(vp, p.Payload)
		case f.ch == m.audio && m.audio >= 0:
			ap = append(ap, p.Payload)
		default:
			return fmt.Sprintf("frame on channel %d", f.ch)
		}
	}
	for _, b := range udp {
		p, err := v.UnRTP(b)
		if err != nil {
			return err.Error()
		}
		if m.video != -2 {
			return "datagram, but no UDP track is set up"
		}
		vp = append(vp, p.Payload)
	}
	starts := op == opPlay && !m.gotKey
	if starts || op == opMedia {
		if m.video != -1 {
			nals, err := v.UnAVC(vp)
			last := g.lastX
			if m.stream == "y" {
				last = g.lastY
			}
			if err != nil || len(nals) == 0 || !bytes.Equal(nals[len(nals)-1], last) {
				return fmt.Sprintf("video of %d packets does not end in the frame published last (%v)", len(vp), err)
			}
		}
		if m.audio >= 0 && len(ap) == 0 {
			return "no audio"
		}
		m.gotKey = true
	} else if len(vp)+len(ap) > 0 {
		return "media nobody published"
	}
	return ""
}

// step performs one op and judges everything that comes of it.
func (g *s01Rig) step(op int, withSession bool) string {
	g.log = append(g.log, s01Names[op])
	if op == opMedia {
		g.publish()
	} else {
		g.conn.Write(g.request(op, withSession))
		synctest.Wait()
	}
	reps, err := g.drain()
	if err != nil {
		return err.Error()
	}
	if op == opMedia || op == opFrame || op == opReport {
		if len(reps) != 0 {
			return fmt.Sprintf("%d replies without a request", len(reps))
		}
	} else {
		if len(reps) != 1 {
			return fmt.Sprintf("%d replies", len(reps))
		}
		if e := g.answered(op, reps[0]); e != "" {
			return e
		}
	}
	if e := g.checkMedia(op); e != "" {
		return e
	}
	if closed := g.conn.PeerClosed(); closed != g.m.closed {
		return fmt.Sprintf("connection closed=%v, expected %v", closed, g.m.closed)
	}
	return ""
}

// end closes the connection and checks that nothing of the session remains.
func (g *s01Rig) end() string {
	var bad string
	if g.m.announced && !g.m.closed {
		if g.srv.apps["live"].Load("p") == nil {
			bad = "the announced stream is not there"
		} else if bad = g.viewer(); bad != "" {
			bad = "viewer of the announced stream: " + bad
		}
	}
	g.conn.Close()
	synctest.Wait()
	select {
	case <-g.done:
	default:
		return "the session does not end with its connection"
	}
	if bad != "" {
		return bad
	}
	if g.srv.apps["live"].Load("p") != nil {
		return "the announced stream outlives its session"
	}
	if g.srv.apps["live"].Load("x") == nil || g.srv.apps["live"].Load("y") == nil {
		return "another client's stream disappeared"
	}
	if n := openFiles(); n > g.fds {
		return fmt.Sprintf("%d sockets left open", n-g.fds)
	}
	return ""
}

// viewer checks that what was recorded, and only that, reached the stream.
func (g *s01Rig) viewer() string {
	k, got, err := playRTMP(g.srv, "live", "p")
	defer k.closeWait()
	if err != nil {
		return err.Error()
	}
	var last []byte
	for _, m := range media(got) {
		if m.Type == 9 && len(m.Payload) > 9 && m.Payload[1] == 1 {
			last = m.Payload[9:]
		}
	}
	if !bytes.Equal(last, g.m.lastRec) {
		return fmt.Sprintf("last frame %x, sent while recording: %x", last, g.m.lastRec)
	}
	return ""
}

func s01Desc(mode string, log []string) string { return mode + ": " + strings.Join(log, ", ") }

func TestVerifS01(t *testing.T) {
	r := v.Start(t)
	defer r.Finish()
	synctest.Test(t, func(t *testing.T) {
		g, err := newS01Rig(r)
		if err != nil {
			r.Violation("s01:rig", "two RTMP publishers", "%v", err)
			return
		}
		defer g.close()
		run := func(mode string, seq []int, withSession bool, limit int) bool {
			g.open()
			if limit > 0 {
				g.conn.LimitPeerReads(limit)
			}
			for _, op := range seq {
				if g.m.closed {
					break
				}
				if e := g.step(op, withSession); e != "" {
					r.Violation(fmt.Sprintf("s01:%s", s01Names[op]), s01Desc(mode, g.log), "%s", e)
					g.conn.Close()
					synctest.Wait()
					return false
				}
			}
			if e := g.end(); e != "" {
				r.Violation("s01:end", s01Desc(mode, g.log), "%s", e)
				return false
			}
			r.Eval("ok", fmt.Sprint(mode, seq))
			return true
		}
		expired := false
		each := func(k, depth int, f func(seq []int)) {
			v.Sequences(k, depth, depth, func(s []int) bool {
				if !r.Mine() {
					return true
				}
				if r.Expired() {
					expired = true
					return false
				}
				r.Journal("s01 %v", s)
				f(s)
				return true
			})
		}
		//every sequence of all operations
		for d := 1; d <= r.Pick(3, 5); d++ {
			each(opCount, d, func(s []int) { run("with session", s, true, 0) })
		}
		//after the two usual prologues, every continuation
		prologues := [][]int{{opSetupV, opSetupA, opPlay}, {opSetupUDP, opPlay}, {opAnnounce, opSetupRec, opRecord}, {opAnnounce, opSetupRec}, {opSetupA, opSetupV}, {opSetupUDP, opSetupA, opPlay, opMedia}}
		for _, p := range prologues {
			for d := 1; d <= r.Pick(4, 4); d++ {
				each(opCount, d, func(s []int) { run("with session", append(append([]int(nil), p...), s...), true, 0) })
			}
		}
		//without the session header, and one byte at a time
		for d := 1; d <= r.Pick(2, 3); d++ {
			each(opCount, d, func(s []int) {
				run("without session", s, false, 0)
				run("byte by byte", s, true, 1)
			})
		}
		//the whole conversation in one segment
		for d := 2; d <= r.Pick(3, 3); d++ {
			each(opCount, d, func(s []int) { g.pipelined(s) })
		}
		//every way a client may ask for its transport
		g.transports(func() bool { expired = expired || r.Expired(); return !expired && r.Mine() })
		if expired {
			r.Capped("budget")
		}
	})
}

// s01Way is a Transport header and what may come of it.
type s01Way struct {
	h         string
	ok        bool
	rtp, rtcp int  //channels or ports agreed on (rtcp < 0: any)
	udp       bool //by datagrams
	status    []int
}

// ways lists Transport headers: profiles, single channels and ports, orders, blanks, further
// parameters, alternatives and nonsense.
func (g *s01Rig) ways() (out []s01Way) {
	bad := []int{400, 461}
	tcp := func(h string, rtp, rtcp int) { out = append(out, s01Way{h: h, ok: true, rtp: rtp, rtcp: rtcp}) }
	udp := func(h string, rtcp int) {
		out = append(out, s01Way{h: h, ok: true, udp: true, rtp: g.udpPort, rtcp: rtcp})
	}
	no := func(h string) { out = append(out, s01Way{h: h, status: bad}) }
	port, pair := fmt.Sprint(g.udpPort), fmt.Sprintf("%d-%d", g.udpPort, g.udpPort+1)
	for n := 0; n <= 254; n++ {
		tcp(fmt.Sprintf("RTP/AVP/TCP;unicast;interleaved=%d-%d", n, n+1), n, n+1)
		tcp(fmt.Sprintf("RTP/AVP/TCP;unicast;interleaved=%d", n), n, n+1)
	}
	for _, c := range [][2]int{{0, 2}, {1, 0}, {5, 4}, {9, 200}, {255, 0}, {255, 254}} {
		tcp(fmt.Sprintf("RTP/AVP/TCP;unicast;interleaved=%d-%d", c[0], c[1]), c[0], c[1])
	}
	for _, f := range []string{"RTP/AVP/TCP;interleaved=%s", "RTP/AVP/TCP;interleaved=%s;unicast", "RTP/AVP/TCP; unicast; interleaved=%s", "RTP/AVP/TCP;unicast;mode=play;interleaved=%s",
		"RTP/AVP/TCP;unicast;interleaved=%s;ssrc=0000BEEF", " RTP/AVP/TCP;unicast;interleaved=%s ", "RTP/AVP/TCP;unicast;interleaved=%s;mode=\"PLAY\"", "RTP/AVP/TCP;unicast;destination=10.0.0.1;interleaved=%s;ttl=4"} {
		tcp(fmt.Sprintf(f, "6-7"), 6, 7)
		tcp(fmt.Sprintf(f, "8"), 8, 9)
	}
	for _, f := range []string{"RTP/AVP;unicast;client_port=%s", "RTP/AVP/UDP;unicast;client_port=%s", "RTP/AVP;client_port=%s", "RTP/AVP;client_port=%s;unicast", "RTP/AVP/UDP; unicast; client_port=%s", "RTP/AVP;unicast;destination=10.0.0.1;client_port=%s",
		"RTP/AVP;unicast;mode=play;client_port=%s", "RTP/AVP;unicast;client_port=%s;ssrc=1", " RTP/AVP;unicast;client_port=%s ", "RTP/AVP;unicast;client_port=%s;mode=\"PLAY\""} {
		udp(fmt.Sprintf(f, pair), g.udpPort+1)
		udp(fmt.Sprintf(f, port), g.udpPort+1)
	}
	//alternatives in the client's order: the first the server can do
	a, b := "RTP/AVP/TCP;unicast;interleaved=2-3", "RTP/AVP;unicast;client_port="+pair
	for _, sep := range []string{",", ", "} {
		tcp(a+sep+b, 2, 3)
		udp(b+sep+a, g.udpPort+1)
		for _, x := range []string{"RTP/AVP;multicast", "RTP/AVP;multicast;ttl=127", "RTP/SAVP;unicast;client_port=" + pair, "RAW/RAW/UDP;unicast;client_port=" + pair, "x-real-rdt/udp", "MP2T/H2221/UDP;unicast"} {
			tcp(x+sep+a, 2, 3)
			udp(x+sep+b, g.udpPort+1)
			tcp(x+sep+a+sep+b, 2, 3)
			tcp(a+sep+x, 2, 3)
			udp(b+sep+x, g.udpPort+1)
		}
	}
	for _, x := range []string{"", "RTP", "RTP/AVP;multicast", "RTP/SAVP;unicast;client_port=" + pair, "RAW/RAW/UDP;unicast;client_port=" + pair, "RTP/AVP/TCP;unicast",
		"RTP/AVP;unicast", "RTP/AVP/UDP;unicast", "RTP/AVP;unicast;client_port=", "RTP/AVP;unicast;client_port=x", "RTP/AVP;unicast;client_port=x-y", "RTP/AVP;unicast;client_port=0-1", "RTP/AVP;unicast;client_port=-5-6",
		"RTP/AVP;unicast;client_port=65536-65537", "RTP/AVP;unicast;client_port=99999999999999999999", "RTP/AVP/TCP;unicast;interleaved=", "RTP/AVP/TCP;unicast;interleaved=x", "RTP/AVP/TCP;unicast;interleaved=1-y",
		"RTP/AVP/TCP;unicast;interleaved=256-257", "RTP/AVP/TCP;unicast;interleaved=0-256", "RTP/AVP/TCP;unicast;interleaved=-1-0", "RTP/AVP/TCP;unicast;interleaved=1000", "RTP/AVP/TCP;unicast;interleaved=18446744073709551616-1"} {
		no(x)
	}
	return
}

// ask sends one request of the session's own and takes its reply.
func (g *s01Rig) ask(method, url, transport, body string) (rep v.RTSPReply, err error) {
	g.m.cseq++
	q := fmt.Sprintf("%s rtsp://127.0.0.1:554/live/%s RTSP/1.0\r\nCSeq: %d\r\n", method, url, g.m.cseq)
	if method == "SETUP" {
		q += "Transport: " + transport + "\r\n"
	}
	if g.m.session != "" {
		q += "Session: " + g.m.session + "\r\n"
	}
	if body != "" {
		q += "Content-Type: application/sdp\r\nContent-Length: " + strconv.Itoa(len(body)) + "\r\n"
	}
	g.log = append(g.log, method+" "+url+" "+transport)
	g.conn.Write([]byte(q + "\r\n" + body))
	synctest.Wait()
	reps, err := g.drain()
	if err == nil && (len(reps) != 1 || reps[0].Headers["cseq"] != strconv.Itoa(g.m.cseq)) {
		err = fmt.Errorf("replies %+v to request %d", reps, g.m.cseq)
	}
	if err != nil {
		return
	}
	if id, _, _ := strings.Cut(reps[0].Headers["session"], ";"); id != "" {
		g.m.session = id
	}
	return reps[0], nil
}

// agreed checks the answer to a SETUP; port: the server's.
func (w *s01Way) agreed(rep v.RTSPReply) (port int, err error) {
	if !w.ok {
		for _, s := range w.status {
			if rep.Status == s {
				return 0, nil
			}
		}
		return 0, fmt.Errorf("status %d, expected one of %v", rep.Status, w.status)
	}
	if rep.Status != 200 {
		return 0, fmt.Errorf("status %d", rep.Status)
	}
	if rep.Headers["session"] == "" {
		return 0, fmt.Errorf("no session id")
	}
	par := map[string]string{}
	ps := strings.Split(rep.Headers["transport"], ";")
	for _, p := range ps[1:] {
		k, val, _ := strings.Cut(strings.TrimSpace(p), "=")
		par[k] = val
	}
	nums := func(s string) (a, b int) {
		x, y, _ := strings.Cut(s, "-")
		a, e1 := strconv.Atoi(x)
		b, e2 := strconv.Atoi(y)
		if e1 != nil || e2 != nil {
			return -1, -1
		}
		return
	}
	if w.udp {
		a, b := nums(par["client_port"])
		c, d := nums(par["server_port"])
		if (ps[0] != "RTP/AVP" && ps[0] != "RTP/AVP/UDP") || a != w.rtp || b != w.rtcp || c <= 0 || c%2 != 0 || d != c+1 {
			return 0, fmt.Errorf("transport answered %q", rep.Headers["transport"])
		}
		return c, nil
	}
	if a, b := nums(par["interleaved"]); ps[0] != "RTP/AVP/TCP" || a != w.rtp || b != w.rtcp {
		return 0, fmt.Errorf("transport answered %q", rep.Headers["transport"])
	}
	return 0, nil
}

const s01SDPUnread = s01SDP + "m=audio 0 RTP/AVP 0\r\na=rtpmap:0 PCMU/8000\r\na=control:streamid=1\r\n"

// transports plays and records over every transport a client may ask for.
func (g *s01Rig) transports(next func() bool) {
	fail := func(key, f string, a ...interface{}) {
		g.r.Violation("s01:transport:"+key, s01Desc("transports", g.log), f, a...)
	}
	finish := func() {
		g.m.announced = false
		g.m.playing = false
		if e := g.end(); e != "" {
			fail("end", "%s", e)
		}
	}
	//media takes what came since and says which channels (-2: datagrams) carried what
	media := func() map[int]int {
		n := map[int]int{}
		for _, f := range g.frames {
			n[f.ch]++
		}
		g.frames = nil
		for g.recvUDP() != nil {
			n[-2]++
		}
		return n
	}
	for _, w := range g.ways() {
		w := w
		other := &s01Way{h: "RTP/AVP/TCP;unicast;interleaved=100-101", ok: true, rtp: 100, rtcp: 101}
		if w.rtp == 100 || w.rtp == 101 || w.rtcp == 100 {
			other = &s01Way{h: "RTP/AVP/TCP;unicast;interleaved=20-21", ok: true, rtp: 20, rtcp: 21}
		}
		for track := 0; track < 2; track++ {
			if !next() {
				continue
			}
			//a player: this track over w, then the other track, then both play
			g.r.Journal("transport %q track %d", w.h, track)
			g.open()
			err := func() error {
				rep, err := g.ask("SETUP", fmt.Sprintf("x/trackID=%d", track), w.h, "")
				if err == nil {
					_, err = w.agreed(rep)
				}
				if err != nil {
					return err
				}
				if rep, err = g.ask("SETUP", fmt.Sprintf("x/trackID=%d", 1-track), other.h, ""); err == nil {
					_, err = other.agreed(rep)
				}
				if err != nil {
					return fmt.Errorf("the other track: %w", err)
				}
				g.m.playing = true
				if rep, err = g.ask("PLAY", "x", "", ""); err != nil || rep.Status != 200 {
					return fmt.Errorf("PLAY: %d %v", rep.Status, err)
				}
				g.publish()
				if reps, err := g.drain(); err != nil || len(reps) > 0 {
					return fmt.Errorf("%d replies, %v", len(reps), err)
				}
				ch := w.rtp
				if w.udp {
					ch = -2
				}
				n := media()
				if w.ok && n[ch] == 0 {
					return fmt.Errorf("no media where it was agreed: %v (packets by channel)", n)
				}
				if n[other.rtp] == 0 {
					return fmt.Errorf("no media of the other track: %v", n)
				}
				delete(n, other.rtp)
				if w.ok {
					delete(n, ch)
				}
				if len(n) > 0 {
					return fmt.Errorf("media where none was agreed: %v", n)
				}
				return nil
			}()
			if err != nil {
				fail("play", "%v", err)
			}
			finish()
			g.r.Eval(fmt.Sprint("play ", w.ok, w.udp), fmt.Sprint(w.h, track))
		}
		for unread := 0; unread < 2; unread++ {
			if !next() {
				continue
			}
			//a publisher of one track, or of two of which the server reads one
			g.open()
			err := func() error {
				sdp := s01SDP
				if unread == 1 {
					sdp = s01SDPUnread
				}
				rep, err := g.ask("ANNOUNCE", "p", "", sdp)
				if err != nil || rep.Status != 200 {
					return fmt.Errorf("ANNOUNCE: %d %v", rep.Status, err)
				}
				g.m.announced = true
				if unread == 1 {
					if rep, err = g.ask("SETUP", "p/streamid=1", w.h, ""); err == nil {
						_, err = w.agreed(rep)
					}
					if err != nil {
						return fmt.Errorf("unread track: %w", err)
					}
				}
				t := &w
				if unread == 1 {
					t = other
				}
				if rep, err = g.ask("SETUP", "p/streamid=0", t.h+";mode=record", ""); err != nil {
					return err
				}
				if _, err := t.agreed(rep); err != nil || !t.ok {
					return err
				}
				if w.udp {
					return nil //recording over datagrams is S03's: here a read of a real socket would be waited for
				}
				if rep, err = g.ask("RECORD", "p", "", ""); err != nil || rep.Status != 200 {
					return fmt.Errorf("RECORD: %d %v", rep.Status, err)
				}
				pkt := func() []byte {
					g.frame++
					g.m.lastRec = nal(5, g.frame, 25)[4:]
					return v.RTP{PT: 96, Marker: true, Seq: uint16(g.frame), TS: uint32(g.frame * 3600), SSRC: 5, Payload: g.m.lastRec}.Bytes()
				}
				frame := func(ch int) []byte {
					p := pkt()
					return append([]byte{'$', byte(ch), byte(len(p) >> 8), byte(len(p))}, p...)
				}
				g.conn.Write(frame(t.rtp))
				want := g.m.lastRec
				for _, ch := range []int{t.rtp ^ 1, (t.rtp + 2) & 255, t.rtp ^ 0x80} {
					g.conn.Write(frame(ch)) //nobody's channel
				}
				g.m.lastRec = want
				synctest.Wait()
				if reps, err := g.drain(); err != nil || len(reps) > 0 {
					return fmt.Errorf("%d replies, %v", len(reps), err)
				}
				if e := g.viewer(); e != "" {
					return fmt.Errorf("viewer: %s", e)
				}
				return nil
			}()
			if err != nil {
				fail("record", "%v", err)
			}
			finish()
			g.r.Eval(fmt.Sprint("record ", w.ok, w.udp), fmt.Sprint(w.h, unread))
		}
	}
}

// pipelined sends every request before reading any reply.
func (g *s01Rig) pipelined(seq []int) {
	for i, op := range seq {
		if op == opMedia || op == opFrame || op == opReport || op == opTeardown && i < len(seq)-1 {
			return
		}
	}
	g.open()
	var all []byte
	for _, op := range seq {
		all = append(all, g.request(op, false)...)
		g.log = append(g.log, s01Names[op])
	}
	all = append(all, "\r\n"...)
	g.m.cseq = 0
	g.conn.Write(all)
	synctest.Wait()
	fail := func(f string, a ...interface{}) {
		g.r.Violation("s01:pipelined", s01Desc("in one segment", g.log), f, a...)
		g.conn.Close()
		synctest.Wait()
	}
	g.m.playing = true //frames are looked at below
	reps, err := g.drain()
	g.m.playing = false
	if err != nil {
		fail("%v", err)
		return
	}
	if len(reps) != len(seq) {
		fail("%d replies", len(reps))
		return
	}
	for i, op := range seq {
		g.m.cseq++
		if e := g.answered(op, reps[i]); e != "" {
			fail("request %d: %s", i+1, e)
			return
		}
	}
	if !g.m.playing && len(g.frames) > 0 {
		fail("media while not playing")
		return
	}
	for _, f := range g.frames {
		if f.ch != g.m.video && f.ch != g.m.audio {
			fail("frame on channel %d", f.ch)
			return
		}
	}
	if g.m.announced {
		g.m.lastRec = nil
	}
	if e := g.end(); e != "" {
		g.r.Violation("s01:pipelined", s01Desc("in one segment", g.log), "%s", e)
		return
	}
	g.r.Eval("ok", fmt.Sprint("pipelined", seq))
}
