//go:build go1.25

// Package verif_vlib is the common part of the checking harnesses: accounting, choice
// exploration, in-memory connections and independent codecs. It never looks at repository code.
package verif_vlib

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"
)

type violation struct {
	Key  string      `json:"key"`
	Msg  string      `json:"msg"`
	Case interface{} `json:"case"`
}

type Run struct {
	T        *testing.T
	Tier     string
	shard    int
	shards   int
	out      string
	mu       sync.Mutex
	counts   map[string]int64
	outcomes map[string]int64
	samples  []interface{}
	notes    []string
	seen     map[string]int
	distinct map[string]struct{}
	deadline time.Time
	capped   bool
	vf       *os.File
	jf       *os.File
	Stderr   *os.File
	idx      int64
	stop     bool
	beat     atomic.Int64
}

// realNow is captured outside synctest bubbles, where time is virtual.
func realNow() time.Time { return time.Now() }

func Start(t *testing.T) *Run {
	r := &Run{T: t, Tier: os.Getenv("VERIF_TIER"), out: os.Getenv("VERIF_OUT"), counts: map[string]int64{}, outcomes: map[string]int64{}, seen: map[string]int{}, distinct: map[string]struct{}{}}
	if r.Tier == "" {
		r.Tier = "quick"
	}
	r.shards = 1
	if s := os.Getenv("VERIF_SHARD"); s != "" {
		p := strings.Split(s, "/")
		r.shard, _ = strconv.Atoi(p[0])
		r.shards, _ = strconv.Atoi(p[1])
	}
	b, _ := strconv.Atoi(os.Getenv("VERIF_BUDGET"))
	if b == 0 {
		b = 200
	}
	r.deadline = time.Now().Add(time.Duration(b) * time.Second)
	if r.out == "" {
		r.out = t.TempDir()
	}
	r.vf, _ = os.Create(filepath.Join(r.out, "violations.jsonl"))
	r.jf, _ = os.Create(filepath.Join(r.out, "journal"))
	r.Stderr = os.Stderr
	r.watch()
	if os.Getenv("VERIF_VERBOSE") == "" {
		//The code under test prints a line or more per packet.
		if dn, err := os.OpenFile("/dev/null", os.O_WRONLY, 0); err == nil {
			os.Stdout = dn
		}
	}
	return r
}

func (r *Run) Quick() bool { return r.Tier != "thorough" }
func (r *Run) Out() string { return r.out }

// Pick returns q in the quick tier and th in the thorough one.
func (r *Run) Pick(q, th int) int {
	if r.Quick() {
		return q
	}
	return th
}

// Mine partitions the cases of an enumeration over the shards.
func (r *Run) Mine() bool {
	i := r.idx
	r.idx++
	return int(i%int64(r.shards)) == r.shard
}

func (r *Run) Shard() (int, int) { return r.shard, r.shards }

// Expired reports that the time budget is used up; the run is then not exhaustive.
// Must not be called from inside a synctest bubble.
func (r *Run) Expired() bool {
	if r.stop {
		return true
	}
	if time.Now().After(r.deadline) {
		r.capped = true
		r.stop = true
	}
	return r.stop
}

func (r *Run) Capped(why string) { r.capped = true; r.Note("capped: " + why) }
func (r *Run) Note(format string, a ...interface{}) {
	r.mu.Lock()
	r.notes = append(r.notes, fmt.Sprintf(format, a...))
	r.mu.Unlock()
}

// Journal records the case being run, so that a crash of the process can be attributed.
func (r *Run) Journal(format string, a ...interface{}) {
	s := fmt.Sprintf(format, a...)
	if len(s) > 3000 {
		s = s[:3000]
	}
	b := make([]byte, 3072)
	for i := range b {
		b[i] = ' '
	}
	copy(b, s)
	r.jf.WriteAt(b, 0)
	r.beat.Add(1)
}

// watch ends the process with a violation when one case, which takes milliseconds, makes no
// progress for two minutes while code under test is running or blocked outside of any bubble.
func (r *Run) watch() {
	go func() {
		last, same := int64(-1), 0
		for {
			time.Sleep(5 * time.Second)
			b := r.beat.Load()
			if b == 0 || b != last {
				last, same = b, 0
				continue
			}
			if same++; same < 24 {
				continue
			}
			buf := make([]byte, 1<<20)
			buf = buf[:runtime.Stack(buf, true)]
			fn := hungIn(string(buf))
			if fn == "" {
				same = 0 //nothing of the repository is running: the machine is slow
				continue
			}
			j := make([]byte, 3072)
			r.jf.ReadAt(j, 0)
			r.Violation("hang:"+fn, strings.TrimSpace(string(j)), "no progress for two minutes in %s", fn)
			fmt.Fprintf(r.Stderr, "verif-internal: hang\n%s\n", buf)
			r.capped = true
			r.Finish()
			os.Exit(0)
		}
	}()
}

// hungIn names the repository function a running goroutine is in.
func hungIn(stacks string) string {
	for _, g := range strings.Split(stacks, "\n\n") {
		nl := strings.IndexByte(g, '\n')
		if nl < 0 || !strings.HasPrefix(g, "goroutine ") {
			continue
		}
		h := g[:nl]
		if !strings.Contains(h, "[runn") && !strings.Contains(h, "[GC") {
			continue
		}
		lines := strings.Split(g[nl+1:], "\n")
		for i := 0; i+1 < len(lines); i += 2 {
			f, file := lines[i], lines[i+1]
			if strings.Contains(file, "verif_") {
				break
			}
			if strings.Contains(f, "GGmpeg") {
				if k := strings.LastIndexByte(f, '('); k > 0 {
					f = f[:k]
				}
				p := strings.Split(f, "/")
				return p[len(p)-1]
			}
		}
	}
	return ""
}

// Beat tells the watchdog that a long case is making progress.
func (r *Run) Beat() { r.beat.Add(1) }

func (r *Run) Count(k string, n int64) {
	r.mu.Lock()
	r.counts[k] += n
	r.mu.Unlock()
}

// Eval accounts for one execution with an outcome class; distinct identifies the case.
func (r *Run) Eval(outcome string, distinct string) {
	r.mu.Lock()
	r.counts["evaluations"]++
	r.outcomes[outcome]++
	if distinct != "" && len(r.distinct) < 4000000 {
		r.distinct[distinct] = struct{}{}
	}
	r.mu.Unlock()
}

func (r *Run) Sample(v interface{}) {
	r.mu.Lock()
	if len(r.samples) < 4 {
		r.samples = append(r.samples, v)
	}
	r.mu.Unlock()
}

// Violation records a violation; key is stable and identifies what fails.
func (r *Run) Violation(key string, cas interface{}, format string, a ...interface{}) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.counts["violating_cases"]++
	r.seen[key]++
	if r.seen[key] > 1 {
		return
	}
	b, err := json.Marshal(violation{key, fmt.Sprintf(format, a...), cas})
	if err != nil {
		b, _ = json.Marshal(violation{key, fmt.Sprintf(format, a...), fmt.Sprint(cas)})
	}
	r.vf.Write(append(b, '\n'))
}

func (r *Run) Violations() int { r.mu.Lock(); defer r.mu.Unlock(); return len(r.seen) }

func (r *Run) Finish() {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.counts["distinct"] = int64(len(r.distinct))
	sort.Strings(r.notes)
	b, err := json.Marshal(map[string]interface{}{
		"counts": r.counts, "outcomes": r.outcomes, "samples": r.samples, "notes": r.notes,
		"exhaustive": !r.capped,
	})
	if err != nil {
		panic("verif-internal: " + err.Error())
	}
	if err := os.WriteFile(filepath.Join(r.out, "stats.json"), b, 0o644); err != nil {
		panic("verif-internal: " + err.Error())
	}
}

// Guard runs f and reports a panic of the code under test as a violation. Panics whose innermost
// non-runtime frame lies in a harness are passed on.
func (r *Run) Guard(keyPrefix string, cas interface{}, f func()) (ok bool) {
	defer func() {
		if p := recover(); p != nil {
			fn, mine := PanicSite()
			if mine {
				panic(p)
			}
			r.Violation(keyPrefix+"panic:"+fn, cas, "panic in %s: %v", fn, p)
			ok = false
		}
	}()
	f()
	return true
}

// PanicSite finds, from inside a deferred function, the function that panicked.
func PanicSite() (fn string, harness bool) {
	pcs := make([]uintptr, 100)
	n := runtime.Callers(2, pcs)
	fr := runtime.CallersFrames(pcs[:n])
	started := false
	for {
		f, more := fr.Next()
		if f.Function == "runtime.gopanic" || strings.HasPrefix(f.Function, "runtime.panic") || f.Function == "runtime.sigpanic" || strings.HasPrefix(f.Function, "runtime.goPanic") {
			started = true
		} else if started && !strings.HasPrefix(f.Function, "runtime.") {
			if strings.Contains(f.File, "verif_") || strings.Contains(f.File, "/harness/") {
				return f.Function, true
			}
			if strings.Contains(f.Function, "GGmpeg") {
				p := strings.Split(f.Function, "/")
				return p[len(p)-1], false
			}
		}
		if !more {
			return "unknown", true
		}
	}
}
