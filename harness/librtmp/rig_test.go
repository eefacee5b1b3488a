//go:build go1.25

package librtmp

import (
	"fmt"
	"testing/synctest"

	"github.com/sbraveyoung/GGmpeg/libamf"
	v "github.com/sbraveyoung/GGmpeg/verif_vlib"
)

// netEnd is the client's end of an in-memory connection.
type netEnd interface {
	Write(b []byte) (int, error)
	Take() []byte
	Close() error
	PeerClosed() bool
	LimitReads(n int)
	LimitPeerReads(n int)
}

// cli is an RTMP client on an in-memory connection, run inside a synctest bubble: Sync waits until
// every goroutine of the server is blocked, so what has been received then is everything the
// server is ever going to send without further input.
type cli struct {
	c    netEnd
	wait func() //until the server is idle
	dec  *v.ChunkReader
	enc  *v.ChunkWriter
	got  []v.Msg
	done chan struct{}
	name string
	txn  float64
}

var handshakeC1 = append(append([]byte{0, 0, 0, 1, 0, 0, 0, 0}, v.Fill(7, 1528)...))

func newCli(c netEnd, wait func(), name string) *cli {
	return &cli{c: c, wait: wait, dec: v.NewChunkReader(128), enc: v.NewChunkWriter(128), done: make(chan struct{}), name: name}
}

func dialRTMP(srv *server, name string) *cli {
	a, b := v.Pipe()
	k := newCli(a, synctest.Wait, name)
	go func() {
		defer close(k.done)
		NewRTMP(b, name, srv).HandlerServer()
		b.Close() //the process' file descriptor goes away with the session
	}()
	return k
}

// hello performs the simple handshake.
func (k *cli) hello() error {
	k.c.Write(v.Cat([]byte{3}, handshakeC1))
	k.wait()
	b := k.c.Take()
	if len(b) < 3073 || b[0] != 3 {
		return fmt.Errorf("handshake answer of %d bytes", len(b))
	}
	k.c.Write(b[1:1537])
	k.feed(b[3073:])
	return nil
}

func (k *cli) feed(b []byte) []v.Msg {
	m := k.dec.Feed(b)
	k.got = append(k.got, m...)
	return m
}

// sync lets the server run until it is idle and returns what it sent meanwhile.
func (k *cli) sync() []v.Msg {
	k.wait()
	return k.feed(k.c.Take())
}

func (k *cli) send(m v.Msg) { k.c.Write(k.enc.Bytes(m)) }

func (k *cli) cmd(vals ...interface{}) []v.Msg {
	k.send(v.Msg{Type: 20, CSID: 3, Payload: v.AMF(vals...)})
	return k.sync()
}

func (k *cli) connect(app string) []v.Msg {
	return k.cmd("connect", 1, v.Obj{{K: "app", V: app}, {K: "tcUrl", V: "rtmp://h/" + app}})
}

func (k *cli) closeWait() { k.c.Close(); k.wait() }

// publisher dials, connects and publishes.
func publishRTMP(srv *server, app, stream string) (*cli, error) {
	k := dialRTMP(srv, "pub")
	return k, k.publish(app, stream)
}

func (k *cli) publish(app, stream string) error {
	if err := k.hello(); err != nil {
		return err
	}
	k.connect(app)
	k.cmd("createStream", 2, nil)
	r := k.cmd("publish", 3, nil, stream, "live")
	if statusCode(r) != "NetStream.Publish.Start" {
		return fmt.Errorf("publish answered %q", statusCode(r))
	}
	return nil
}

func playRTMP(srv *server, app, stream string) (*cli, []v.Msg, error) {
	k := dialRTMP(srv, "play")
	r, err := k.play(app, stream)
	return k, r, err
}

func (k *cli) play(app, stream string) ([]v.Msg, error) {
	if err := k.hello(); err != nil {
		return nil, err
	}
	k.connect(app)
	k.cmd("createStream", 2, nil)
	r := k.cmd("play", 3, nil, stream)
	ok := false
	for _, m := range r {
		if n, o, good := status(m); good && n == "onStatus" && o.Get("code") == "NetStream.Play.Start" {
			ok = true
		}
	}
	if !ok {
		return r, fmt.Errorf("play answered %v", statusCodes(r))
	}
	return r, nil
}

// status decodes a command message carrying an information object.
func status(m v.Msg) (name string, o v.Obj, ok bool) {
	if m.Type != 20 {
		return "", nil, false
	}
	vals, err := v.UnAMF(m.Payload)
	if err != nil || len(vals) < 3 {
		return "", nil, false
	}
	name, _ = vals[0].(string)
	for _, x := range vals[2:] {
		if y, is := x.(v.Obj); is {
			return name, y, true
		}
	}
	return name, nil, true
}

func statusCodes(ms []v.Msg) (out []string) {
	for _, m := range ms {
		if _, o, ok := status(m); ok {
			s, _ := o.Get("code").(string)
			out = append(out, s)
		}
	}
	return
}
func statusCode(ms []v.Msg) string {
	c := statusCodes(ms)
	if len(c) == 0 {
		return ""
	}
	return c[len(c)-1]
}

// media keeps the audio, video and data messages.
func media(ms []v.Msg) (out []v.Msg) {
	for _, m := range ms {
		if m.Type == 8 || m.Type == 9 || m.Type == 18 {
			out = append(out, m)
		}
	}
	return
}

// Tag bodies.
var (
	avcC   = []byte{1, 0x42, 0, 0x1e, 0xff, 0xe1, 0, 8, 0x67, 0x42, 0, 0x1e, 0x95, 0xa8, 0x28, 0x0f, 1, 0, 4, 0x68, 0xce, 0x3c, 0x80}
	avcC2  = []byte{1, 0x4d, 0, 0x1f, 0xff, 0xe1, 0, 8, 0x67, 0x4d, 0, 0x1f, 0x95, 0xa8, 0x14, 0x05, 1, 0, 4, 0x68, 0xee, 0x3c, 0x80}
	vSeq   = append([]byte{0x17, 0, 0, 0, 0}, avcC...)
	vSeq2  = append([]byte{0x17, 0, 0, 0, 0}, avcC2...)
	aSeq   = []byte{0xaf, 0, 0x12, 0x10}
	aSeq2  = []byte{0xaf, 0, 0x11, 0x90}
	metaKV = v.ECMA{{K: "width", V: 640.0}, {K: "height", V: 360.0}, {K: "videocodecid", V: 7.0}}
)

func nal(typ byte, seed, n int) []byte {
	b := v.Fill(seed, n)
	for i := range b { //no start-code emulation
		if b[i] < 4 {
			b[i] += 4
		}
	}
	if n > 0 {
		b[0] = 0x60 | typ
	}
	return append(v.U32(uint32(n)), b...)
}
func vKey(seed, n int, cts int32) []byte {
	return append([]byte{0x17, 1, byte(cts >> 16), byte(cts >> 8), byte(cts)}, nal(5, seed, n)...)
}
func vInter(seed, n int, cts int32) []byte {
	return append([]byte{0x27, 1, byte(cts >> 16), byte(cts >> 8), byte(cts)}, nal(1, seed, n)...)
}
func aRaw(seed, n int) []byte { return append([]byte{0xaf, 1}, v.Fill(seed, n)...) }

func sameMsgs(a, b []v.Msg) string {
	for i := 0; i < len(a) || i < len(b); i++ {
		if i >= len(a) {
			return fmt.Sprintf("missing message %d: want %v", i, b[i])
		}
		if i >= len(b) {
			return fmt.Sprintf("unexpected message %d: %v", i, a[i])
		}
		if !a[i].Same(b[i]) {
			return fmt.Sprintf("message %d: got %v, want %v", i, a[i], b[i])
		}
	}
	return ""
}

func amf0() libamf.AMF { return libamf.AMF0 }
