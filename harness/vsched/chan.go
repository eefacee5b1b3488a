//go:build go1.25

package verif_vsched

import (
	"time"
	"unsafe"
)

// vch is the state of a channel; the real channel serves as its identity, and is closed with it.
type vch struct {
	keep   any
	shut   func()
	cap    int
	buf    []any
	closed bool
	sendq  []*wait
	recvq  []*wait
}

// wait is one goroutine's interest in one channel operation; several of a select share fired.
type wait struct {
	fired *int //-1 until one of the cases has happened
	idx   int
	v     any //to send, or received
	ok    bool
}

func of[T any](c chan T, p uintptr) *vch {
	s := cur
	if s == nil {
		panic("verif-internal: channel operation outside a scheduled run")
	}
	x := s.chans[p]
	if x == nil {
		x = &vch{keep: c, cap: cap(c), shut: func() { close(c) }}
		if c != nil {
			select {
			case _, ok := <-c:
				x.closed = !ok
			default:
			}
		}
		s.chans[p] = x
	}
	return x
}

func ptr[T any](c <-chan T) uintptr  { return *(*uintptr)(unsafe.Pointer(&c)) }
func sptr[T any](c chan<- T) uintptr { return *(*uintptr)(unsafe.Pointer(&c)) }
func rof[T any](c <-chan T) *vch {
	if c == nil {
		return nil
	}
	return of(*(*chan T)(unsafe.Pointer(&c)), ptr(c))
}
func sof[T any](c chan<- T) *vch {
	if c == nil {
		return nil
	}
	return of(*(*chan T)(unsafe.Pointer(&c)), sptr(c))
}

// purge drops the waiters that have been served elsewhere.
func purge(q []*wait) []*wait {
	out := q[:0]
	for _, w := range q {
		if *w.fired < 0 {
			out = append(out, w)
		}
	}
	return out
}

func (c *vch) trySend(v any) bool {
	if c == nil {
		return false
	}
	if c.closed {
		if killed() {
			return true
		}
		panic("send on closed channel")
	}
	if c.recvq = purge(c.recvq); len(c.recvq) > 0 {
		w := c.recvq[0]
		w.v, w.ok, *w.fired = v, true, w.idx
		return true
	}
	if len(c.buf) < c.cap {
		c.buf = append(c.buf, v)
		return true
	}
	return false
}

func (c *vch) tryRecv() (v any, ok, did bool) {
	if c == nil {
		return nil, false, false
	}
	c.sendq = purge(c.sendq)
	if len(c.buf) > 0 {
		v = c.buf[0]
		c.buf = c.buf[1:]
		if len(c.sendq) > 0 {
			w := c.sendq[0]
			*w.fired = w.idx
			w.ok = true
			c.buf = append(c.buf, w.v)
		}
		return v, true, true
	}
	if len(c.sendq) > 0 {
		w := c.sendq[0]
		*w.fired = w.idx
		w.ok = true
		return w.v, true, true
	}
	if c.closed {
		return nil, false, true
	}
	return nil, false, false
}

func (c *vch) close() {
	if c.closed {
		if killed() {
			return
		}
		panic("close of closed channel")
	}
	c.closed = true
	c.shut()
	for _, w := range purge(c.recvq) {
		if *w.fired < 0 {
			w.v, w.ok, *w.fired = nil, false, w.idx
		}
	}
	for _, w := range purge(c.sendq) {
		if *w.fired < 0 {
			w.ok, *w.fired = false, w.idx //its goroutine panics
		}
	}
	c.recvq, c.sendq = nil, nil
}

// Case is one case of a select.
type Case struct {
	c    *vch
	send bool
	v    any
}

func RecvCase[T any](c <-chan T) Case { return Case{c: rof(c)} }
func SendCase[T any](c chan<- T) func(v T) Case {
	return func(v T) Case { return Case{c: sof(c), send: true, v: v} }
}

// Sel is the outcome of a select: the case, or -1 for default.
type Sel struct {
	I  int
	V  any
	OK bool
}

func (c *Case) possible() bool {
	if c.c == nil {
		return false
	}
	if c.send {
		c.c.recvq = purge(c.c.recvq)
		return c.c.closed || len(c.c.recvq) > 0 || len(c.c.buf) < c.c.cap
	}
	c.c.sendq = purge(c.c.sendq)
	return c.c.closed || len(c.c.buf) > 0 || len(c.c.sendq) > 0
}

func Select(hasDefault bool, cases ...Case) Sel {
	point("select")
	if killed() {
		return Sel{I: -1}
	}
	var can []int
	for i := range cases {
		if cases[i].possible() {
			can = append(can, i)
		}
	}
	if len(can) > 0 {
		k := 0
		if len(can) > 1 && cur.explore {
			k = cur.ch.Deviate(len(can))
		}
		i := can[k]
		if cases[i].send {
			cases[i].c.trySend(cases[i].v)
			return Sel{I: i}
		}
		v, ok, _ := cases[i].c.tryRecv()
		return Sel{I: i, V: v, OK: ok}
	}
	if hasDefault {
		return Sel{I: -1}
	}
	fired := -1
	ws := make([]*wait, len(cases))
	for i := range cases {
		w := &wait{fired: &fired, idx: i, v: cases[i].v}
		ws[i] = w
		if cases[i].c == nil {
			continue
		}
		if cases[i].send {
			cases[i].c.sendq = append(cases[i].c.sendq, w)
		} else {
			cases[i].c.recvq = append(cases[i].c.recvq, w)
		}
	}
	what := "select"
	if len(cases) == 1 {
		what = "chan receive"
		if cases[0].send {
			what = "chan send"
		}
	}
	block(func() bool { return fired >= 0 }, what)
	if fired < 0 {
		return Sel{I: -1}
	}
	if cases[fired].send && !ws[fired].ok {
		panic("send on closed channel")
	}
	return Sel{I: fired, V: ws[fired].v, OK: ws[fired].ok}
}

func As[T any](c <-chan T, v any) (t T) {
	t, _ = v.(T)
	return
}

func SendTo[T any](c chan<- T) func(T) {
	return func(v T) { Select(false, Case{c: sof(c), send: true, v: v}) }
}
func Recv[T any](c <-chan T) T { s := Select(false, RecvCase(c)); return As(c, s.V) }
func Recv2[T any](c <-chan T) (T, bool) {
	s := Select(false, RecvCase(c))
	return As(c, s.V), s.OK
}
func Close[T any](c chan<- T) {
	point("close")
	sof(c).close()
}
func Len[T any](c <-chan T) int { return len(rof(c).buf) }

type RangerOf[T any] struct {
	c <-chan T
	V T
}

func Ranger[T any](c <-chan T) *RangerOf[T] { return &RangerOf[T]{c: c} }
func (r *RangerOf[T]) Next() bool           { v, ok := Recv2(r.c); r.V = v; return ok }

// ---- time

func TimeNow() time.Time {
	if cur == nil {
		return time.Now()
	}
	return cur.now
}
func TimeSince(t time.Time) time.Duration { return TimeNow().Sub(t) }
func TimeUntil(t time.Time) time.Duration { return t.Sub(TimeNow()) }
func TimeSleep(d time.Duration) {
	s := cur
	if s == nil {
		time.Sleep(d)
		return
	}
	if s.killed {
		return
	}
	over := false
	s.addTimer(d, func() { over = true })
	s.schedule(func() bool { return over }, "Sleep")
}

type TimeTimer struct {
	C <-chan time.Time
	c chan time.Time
	t *timer
	f func()
}

func (t *TimeTimer) fire() {
	if t.f != nil {
		//starting a goroutine here must not be a scheduling point of whoever fires the timer
		cur.late(t.f)
		return
	}
	sof((chan<- time.Time)(t.c)).trySend(cur.now)
}
func NewTimerOf(d time.Duration, f func()) *TimeTimer {
	c := make(chan time.Time, 1)
	t := &TimeTimer{C: c, c: c, f: f}
	if cur != nil && !cur.killed {
		t.t = cur.addTimer(d, t.fire)
	}
	return t
}
func TimeNewTimer(d time.Duration) *TimeTimer            { return NewTimerOf(d, nil) }
func TimeAfterFunc(d time.Duration, f func()) *TimeTimer { return NewTimerOf(d, f) }
func TimeAfter(d time.Duration) <-chan time.Time         { return NewTimerOf(d, nil).C }
func (t *TimeTimer) Stop() bool {
	point("Timer.Stop")
	if t.t == nil {
		return false
	}
	was := !t.t.off
	t.t.off = true
	if t.f == nil && cur != nil {
		sof((chan<- time.Time)(t.c)).buf = nil
	}
	return was
}
func (t *TimeTimer) Reset(d time.Duration) bool {
	was := t.Stop()
	if cur != nil && !cur.killed {
		t.t = cur.addTimer(d, t.fire)
	}
	return was
}

type TimeTicker struct {
	C <-chan time.Time
	c chan time.Time
	t *timer
	d time.Duration
}

func (t *TimeTicker) fire() {
	sof((chan<- time.Time)(t.c)).trySend(cur.now)
	t.t = cur.addTimer(t.d, t.fire)
}
func TimeNewTicker(d time.Duration) *TimeTicker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan time.Time, 1)
	t := &TimeTicker{C: c, c: c, d: d}
	if cur != nil && !cur.killed {
		t.t = cur.addTimer(d, t.fire)
	}
	return t
}
func (t *TimeTicker) Stop() {
	point("Ticker.Stop")
	if t.t != nil {
		t.t.off = true
	}
}
func (t *TimeTicker) Reset(d time.Duration) {
	t.Stop()
	t.d = d
	if cur != nil && !cur.killed {
		t.t = cur.addTimer(d, t.fire)
	}
}
func TimeTick(d time.Duration) <-chan time.Time { return TimeNewTicker(d).C }
