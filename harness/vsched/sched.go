//go:build go1.25

// Package verif_vsched runs goroutines one at a time and lets an explorer decide, at every
// scheduling point, which of them continues. Instrumented code uses its replacements for sync,
// sync/atomic, time, channels, go statements and file operations. Time is virtual: it advances only
// when nothing else can run (or when the explorer fires a timer early).
package verif_vsched

import (
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"reflect"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"time"
)

// Chooser resolves scheduling choices; alternatives other than 0 are deviations.
type Chooser interface {
	Choose(n int) int
	Deviate(n int) int
}

type g struct {
	id    int
	name  string
	wake  chan struct{}
	ready func() bool //nil: runnable
	what  string
	done  bool
	end   chan struct{}
}

type timer struct {
	at   time.Time
	seq  int
	fire func()
	off  bool
}

type Sched struct {
	ch      Chooser
	gs      []*g
	cur     *g
	main    *g
	idle    bool //main waits for everybody else to block
	now     time.Time
	timers  []*timer
	tseq    int
	killed  bool
	aborted bool
	explore bool
	Early   bool //timers may fire while others can run
	Free    bool //which goroutine follows a blocked one is a free choice
	steps   int
	ids     int
	chans   map[uintptr]*vch
	ends    []*Conn
	files   []*os.File
	trace   []string
	log     bool
	Crash   *Crash
	Dead    string //deadlock description
	Dial    func(network, addr string) (net.Conn, error)
	Handler map[string]http.Handler //handlers of servers started through http.Serve, by address
	limit   int
	net     *network
}

type Crash struct {
	Value string
	Stack string
	Where string
}

type abort struct{}

var cur *Sched

// StepLimit bounds the scheduling points of one execution.
const StepLimit = 2000000

// Run executes f and every goroutine it starts under the scheduler.
func Run(ch Chooser, f func(s *Sched)) (s *Sched) {
	s = &Sched{ch: ch, now: time.Date(2026, 1, 1, 0, 0, 0, 0, time.UTC), chans: map[uintptr]*vch{}, Handler: map[string]http.Handler{}, limit: StepLimit}
	s.main = &g{name: "main", wake: make(chan struct{})}
	s.gs = []*g{s.main}
	s.cur = s.main
	cur = s
	func() {
		defer func() {
			if x := recover(); x != nil {
				if _, ok := x.(abort); ok {
					return
				}
				panic(x)
			}
		}()
		f(s)
	}()
	s.killed = true
	for i := 0; i < len(s.gs); i++ {
		x := s.gs[i]
		if x == s.main || x.done {
			continue
		}
		s.cur = x
		x.wake <- struct{}{}
		<-x.end
	}
	cur = nil
	return s
}

// Explore switches the exploration of schedules on or off; while it is off, the default schedule runs.
func (s *Sched) Explore(on bool) { s.explore = on }
func (s *Sched) Steps() int      { return s.steps }
func (s *Sched) Now() time.Time  { return s.now }
func (s *Sched) Trace(on bool)   { s.log = on }
func (s *Sched) TraceText() string {
	return strings.Join(s.trace, "\n")
}

// Idle returns once every other goroutine is blocked.
func (s *Sched) Idle() {
	s.idle = true
	s.schedule(func() bool { return false }, "idle")
}

// Advance lets virtual time pass, running what becomes due.
func (s *Sched) Advance(d time.Duration) {
	end := s.now.Add(d)
	for {
		s.Idle()
		t := s.next()
		if t == nil || t.at.After(end) {
			break
		}
		s.fireNext()
	}
	if s.now.Before(end) {
		s.now = end
	}
}

// Limit replaces StepLimit.
func (s *Sched) Limit(n int) { s.limit = n }

// Forget drops what is kept of ended goroutines and cancelled timers.
func (s *Sched) Forget() {
	var gs []*g
	for _, x := range s.gs {
		if !x.done {
			gs = append(gs, x)
		}
	}
	s.gs = gs
	var ts []*timer
	for _, t := range s.timers {
		if !t.off {
			ts = append(ts, t)
		}
	}
	s.timers = ts
	for p, c := range s.chans {
		if c.recvq, c.sendq = purge(c.recvq), purge(c.sendq); len(c.buf)+len(c.recvq)+len(c.sendq) == 0 {
			delete(s.chans, p) //whether it is closed, the channel itself tells
		}
	}
	var es []*Conn
	for _, c := range s.ends {
		if !c.shut {
			es = append(es, c)
		}
	}
	s.ends = es
	var fs []*os.File
	for _, f := range s.files {
		if _, err := f.Stat(); err == nil {
			fs = append(fs, f)
		}
	}
	s.files = fs
}

// Ends is the number of connections of the server that it has not closed.
func (s *Sched) Ends() (n int) {
	for _, c := range s.ends {
		if !c.shut {
			n++
		}
	}
	return
}

// End counts c among the server's connections.
func (s *Sched) End(c *Conn) *Conn { s.ends = append(s.ends, c); return c }

// Open lists the files that were opened and not closed.
func (s *Sched) Open() (out []string) {
	for _, f := range s.files {
		if _, err := f.Stat(); err == nil {
			out = append(out, f.Name())
		}
	}
	return
}

func opened(f *os.File, err error) (*os.File, error) {
	if err == nil && cur != nil {
		cur.files = append(cur.files, f)
	}
	return f, err
}

// Alive lists the goroutines that have not ended, without main.
func (s *Sched) Alive() (out []string) {
	for _, x := range s.gs {
		if x != s.main && !x.done {
			out = append(out, x.name+" in "+x.what)
		}
	}
	return
}

func (s *Sched) next() *timer {
	var best *timer
	for _, t := range s.timers {
		if !t.off && (best == nil || t.at.Before(best.at) || (t.at.Equal(best.at) && t.seq < best.seq)) {
			best = t
		}
	}
	return best
}

func (s *Sched) fireNext() bool {
	t := s.next()
	if t == nil {
		return false
	}
	t.off = true
	live := s.timers[:0]
	for _, x := range s.timers {
		if !x.off {
			live = append(live, x)
		}
	}
	s.timers = live
	if t.at.After(s.now) {
		s.now = t.at
	}
	t.fire()
	return true
}

func (s *Sched) addTimer(d time.Duration, fire func()) *timer {
	s.tseq++
	if d < 0 {
		d = 0
	}
	t := &timer{at: s.now.Add(d), seq: s.tseq, fire: fire}
	s.timers = append(s.timers, t)
	return t
}

// schedule is a scheduling point of the current goroutine, which can go on when ready holds.
func (s *Sched) schedule(ready func() bool, what string) {
	if s.killed {
		return
	}
	me := s.cur
	me.ready, me.what = ready, what
	s.steps++
	if s.steps > s.limit {
		s.Dead = "no end after " + fmt.Sprint(s.steps) + " steps"
		s.abortFrom(me)
		return
	}
	var next *g
	for {
		var en []*g
		k := 0
		for i, x := range s.gs {
			if x == me {
				k = i
			}
		}
		for i := range s.gs {
			x := s.gs[(k+i)%len(s.gs)]
			if x.done {
				continue
			}
			if x.ready == nil || x.ready() {
				en = append(en, x)
			}
		}
		if len(en) == 0 {
			if s.idle {
				s.idle = false
				s.main.ready = nil
				next = s.main
				break
			}
			if s.fireNext() {
				continue
			}
			s.Dead = "deadlock: " + s.states()
			s.abortFrom(me)
			return
		}
		i := 0
		n := len(en)
		early := s.explore && s.Early && s.next() != nil
		if early {
			n++
		}
		if s.explore && n > 1 {
			if s.Free && en[0] != me && !early {
				i = s.ch.Choose(n)
			} else {
				i = s.ch.Deviate(n)
			}
		}
		if i == len(en) {
			s.fireNext()
			continue
		}
		next = en[i]
		break
	}
	if s.log {
		s.trace = append(s.trace, fmt.Sprintf("%s#%d at %s -> %s#%d", me.name, me.id, what, next.name, next.id))
	}
	next.ready = nil
	if next == me {
		return
	}
	s.cur = next
	next.wake <- struct{}{}
	if me.done {
		return
	}
	<-me.wake
	if s.aborted && me == s.main {
		panic(abort{})
	}
	if s.killed {
		runtime.Goexit()
	}
}

func (s *Sched) states() string {
	var b []string
	for _, x := range s.gs {
		if !x.done {
			b = append(b, x.name+" in "+x.what)
		}
	}
	return strings.Join(b, ", ")
}

// abortFrom ends the execution: main is resumed and unwinds.
func (s *Sched) abortFrom(me *g) {
	s.aborted, s.killed = true, true
	if me == s.main {
		panic(abort{})
	}
	s.cur = s.main
	s.main.wake <- struct{}{}
	if me.done {
		return
	}
	<-me.wake
	runtime.Goexit()
}

// Current is the run under way, if any.
func Current() *Sched { return cur }

// Go starts a goroutine.
func Go(f func()) { spawn(f, caller()) }

func caller() string {
	pc := make([]uintptr, 8)
	n := runtime.Callers(3, pc)
	fr := runtime.CallersFrames(pc[:n])
	for {
		f, more := fr.Next()
		if !strings.Contains(f.Function, "verif_vsched") {
			return f.Function[strings.LastIndex(f.Function, "/")+1:]
		}
		if !more {
			return "?"
		}
	}
}

func spawn(f func(), name string) {
	s := cur
	if s == nil {
		go f()
		return
	}
	if s.killed {
		return
	}
	spawnWith(s, f, name)
	if s.explore {
		s.schedule(nil, "go")
	}
}

func spawnWith(s *Sched, f func(), name string) {
	s.ids++
	x := &g{id: s.ids, name: name, wake: make(chan struct{}), end: make(chan struct{}), what: "start"}
	s.gs = append(s.gs, x)
	go func() {
		<-x.wake
		if s.killed {
			x.done = true
			close(x.end)
			return
		}
		defer func() {
			normal := recover()
			x.done = true
			if s.killed {
				close(x.end)
				return
			}
			close(x.end)
			if normal != nil {
				s.Crash = &Crash{Value: fmt.Sprint(normal), Stack: string(debug.Stack())}
				s.Crash.Where = where(s.Crash.Stack)
				s.abortFrom(x)
				return
			}
			s.schedule(func() bool { return false }, "end")
		}()
		f()
	}()
}

// where finds the function that panicked in a stack dump.
func where(stack string) string {
	i := strings.LastIndex(stack, "panic(")
	if i < 0 {
		return "?"
	}
	lines := strings.Split(stack[i:], "\n")
	for k := 2; k+1 < len(lines); k += 2 {
		fn, pos := lines[k], lines[k+1]
		if strings.Contains(pos, "/usr/") || strings.Contains(pos, "/go1.") || strings.Contains(fn, "runtime.") || strings.Contains(fn, "verif_vsched") {
			continue
		}
		if j := strings.LastIndex(fn, "("); j > 0 {
			fn = fn[:j]
		}
		return fn[strings.LastIndex(fn, "/")+1:]
	}
	return "?"
}

// GoCall starts fn(args...) with its arguments evaluated already.
func GoCall(fn interface{}, args ...interface{}) {
	v := reflect.ValueOf(fn)
	t := v.Type()
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		var pt reflect.Type
		if t.IsVariadic() && i >= t.NumIn()-1 {
			pt = t.In(t.NumIn() - 1).Elem()
		} else {
			pt = t.In(i)
		}
		if a == nil {
			in[i] = reflect.Zero(pt)
		} else if x := reflect.ValueOf(a); x.Type().AssignableTo(pt) {
			in[i] = x
		} else {
			in[i] = x.Convert(pt)
		}
	}
	spawn(func() { v.Call(in) }, strings.TrimSuffix(runtime.FuncForPC(v.Pointer()).Name()[strings.LastIndex(runtime.FuncForPC(v.Pointer()).Name(), "/")+1:], "-fm"))
}

// Step is a bare scheduling point.
func Step() { point("step") }

func point(what string) {
	if s := cur; s != nil && !s.killed && s.explore {
		s.schedule(nil, what)
	}
}

func block(ready func() bool, what string) {
	s := cur
	if s == nil {
		if !ready() {
			panic("verif-internal: " + what + " blocks outside a scheduled run")
		}
		return
	}
	if s.killed {
		return
	}
	if !s.explore && ready() {
		return
	}
	s.schedule(ready, what)
}

func killed() bool { return cur != nil && cur.killed }

// ---- sync

type Locker = sync.Locker

type Mutex struct{ l bool }

func (m *Mutex) Lock() {
	block(func() bool { return !m.l }, "Mutex.Lock")
	m.l = true
}
func (m *Mutex) TryLock() bool {
	point("Mutex.TryLock")
	if m.l {
		return false
	}
	m.l = true
	return true
}
func (m *Mutex) Unlock() {
	if !m.l && !killed() {
		panic("fatal error: sync: unlock of unlocked mutex")
	}
	m.l = false
}

type RWMutex struct {
	w     bool
	r     int
	wwait int
}

func (m *RWMutex) Lock() {
	m.wwait++
	block(func() bool { return !m.w && m.r == 0 }, "RWMutex.Lock")
	m.wwait--
	m.w = true
}
func (m *RWMutex) TryLock() bool {
	point("RWMutex.TryLock")
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	return true
}
func (m *RWMutex) Unlock() {
	if !m.w && !killed() {
		panic("fatal error: sync: Unlock of unlocked RWMutex")
	}
	m.w = false
}
func (m *RWMutex) RLock() {
	//a waiting writer keeps new readers out
	block(func() bool { return !m.w && (m.wwait == 0) }, "RWMutex.RLock")
	m.r++
}
func (m *RWMutex) TryRLock() bool {
	point("RWMutex.TryRLock")
	if m.w || m.wwait > 0 {
		return false
	}
	m.r++
	return true
}
func (m *RWMutex) RUnlock() {
	if m.r == 0 && !killed() {
		panic("fatal error: sync: RUnlock of unlocked RWMutex")
	}
	m.r--
}
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type Cond struct {
	L Locker
	q []*bool
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	point("Cond.Wait")
	w := new(bool)
	c.q = append(c.q, w)
	c.L.Unlock()
	block(func() bool { return *w }, "Cond.Wait")
	c.L.Lock()
}
func (c *Cond) Signal() {
	point("Cond.Signal")
	if len(c.q) > 0 {
		*c.q[0] = true
		c.q = c.q[1:]
	}
}
func (c *Cond) Broadcast() {
	point("Cond.Broadcast")
	for _, w := range c.q {
		*w = true
	}
	c.q = nil
}

type WaitGroup struct{ n int }

func (w *WaitGroup) Add(d int) {
	point("WaitGroup.Add")
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}
func (w *WaitGroup) Done()       { w.Add(-1) }
func (w *WaitGroup) Wait()       { block(func() bool { return w.n == 0 }, "WaitGroup.Wait") }
func (w *WaitGroup) Go(f func()) { w.Add(1); Go(func() { defer w.Done(); f() }) }

type Once struct {
	done bool
	m    Mutex
}

func (o *Once) Do(f func()) {
	point("Once.Do")
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() { o := &Once{}; return func() { o.Do(f) } }

type Map struct{ m sync.Map }

func (m *Map) Load(k any) (any, bool) { point("Map.Load"); return m.m.Load(k) }
func (m *Map) Store(k, v any)         { point("Map.Store"); m.m.Store(k, v) }
func (m *Map) Delete(k any)           { point("Map.Delete"); m.m.Delete(k) }
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	point("Map.LoadOrStore")
	return m.m.LoadOrStore(k, v)
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	point("Map.LoadAndDelete")
	return m.m.LoadAndDelete(k)
}
func (m *Map) Range(f func(k, v any) bool) { point("Map.Range"); m.m.Range(f) }
func (m *Map) CompareAndSwap(k, o, n any) bool {
	point("Map.CompareAndSwap")
	return m.m.CompareAndSwap(k, o, n)
}
func (m *Map) CompareAndDelete(k, o any) bool {
	point("Map.CompareAndDelete")
	return m.m.CompareAndDelete(k, o)
}
func (m *Map) Swap(k, v any) (any, bool) { point("Map.Swap"); return m.m.Swap(k, v) }
func (m *Map) Clear()                    { point("Map.Clear"); m.m.Clear() }

// ---- files

func OSCreate(n string) (*os.File, error) { point("os.Create"); return opened(os.Create(n)) }
func OSOpenFile(n string, f int, p os.FileMode) (*os.File, error) {
	point("os.OpenFile")
	return opened(os.OpenFile(n, f, p))
}
func OSOpen(n string) (*os.File, error) { point("os.Open"); return opened(os.Open(n)) }
func OSRemove(n string) error           { point("os.Remove"); return os.Remove(n) }
func OSRemoveAll(n string) error        { point("os.RemoveAll"); return os.RemoveAll(n) }
func OSRename(a, b string) error        { point("os.Rename"); return os.Rename(a, b) }
func OSWriteFile(n string, b []byte, p os.FileMode) error {
	point("os.WriteFile")
	return os.WriteFile(n, b, p)
}
func OSReadFile(n string) ([]byte, error)       { point("os.ReadFile"); return os.ReadFile(n) }
func OSMkdirAll(n string, p os.FileMode) error  { point("os.MkdirAll"); return os.MkdirAll(n, p) }
func OSMkdir(n string, p os.FileMode) error     { point("os.Mkdir"); return os.Mkdir(n, p) }
func OSStat(n string) (os.FileInfo, error)      { point("os.Stat"); return os.Stat(n) }
func OSReadDir(n string) ([]os.DirEntry, error) { point("os.ReadDir"); return os.ReadDir(n) }
func OSCreateTemp(d, p string) (*os.File, error) {
	point("os.CreateTemp")
	return opened(os.CreateTemp(d, p))
}

// ---- network

// HTTPServe hands the handler to the harness and never returns.
func HTTPServe(l net.Listener, h http.Handler) error {
	s := cur
	if s == nil {
		return http.Serve(l, h)
	}
	s.Handler[l.Addr().String()] = h
	l.Close()
	block(func() bool { return false }, "http.Serve")
	return io.EOF
}

// late starts a goroutine without a scheduling point.
func (s *Sched) late(f func()) { spawnWith(s, f, "timer") }

// Until blocks the calling goroutine until ready holds.
func Until(ready func() bool, what string) { block(ready, what) }
