//go:build go1.25

package libbroadcast

import (
	"fmt"
	"testing"

	v "github.com/sbraveyoung/GGmpeg/verif_vlib"
	vs "github.com/sbraveyoung/GGmpeg/verif_vsched"
)

// R08 at the broadcast: every schedule of one writer and its readers, against a model of what a
// reader may see. Each operation of the writer is numbered; each call of a reader is known to have
// taken effect between two counts of finished operations.

type r8meta struct{ n int }  //one header
type r8other struct{ n int } //another
type r8pkt struct{ n int }

// writer operations
const (
	opMetaA  = 'a' //new header
	opMetaB  = 'b' //new header of another kind
	opKeep   = 'k' //the header in effect again
	opGroup  = 'G' //Reset and first packet
	opPacket = 'p'
)

type r8item struct {
	p    interface{}
	meta bool
	at   int //operation that wrote it
}

// r8model is everything a writer did: groups[i] holds what was written from the i-th group on.
type r8model struct {
	groups [][]r8item
	opens  []int //operation opening each group
	metas  []r8item
	ops    int
}

func (m *r8model) apply(op byte, p interface{}) {
	m.ops++
	last := len(m.groups) - 1
	switch op {
	case opGroup:
		m.groups = append(m.groups, []r8item{{p, false, m.ops}})
		m.opens = append(m.opens, m.ops)
	case opPacket:
		m.groups[last] = append(m.groups[last], r8item{p, false, m.ops})
	case opMetaA, opMetaB:
		m.metas = append(m.metas, r8item{p, true, m.ops})
		m.groups[last] = append(m.groups[last], r8item{p, true, m.ops})
	}
}

func r8kind(p interface{}) string { return fmt.Sprintf("%T", p) }

// effect returns the headers in effect after t operations.
func (m *r8model) effect(t int) map[string]interface{} {
	e := map[string]interface{}{}
	for _, x := range m.metas {
		if x.at <= t {
			e[r8kind(x.p)] = x.p
		}
	}
	return e
}

// group returns the current group after t operations.
func (m *r8model) group(t int) int {
	g := 0
	for i, o := range m.opens {
		if o <= t && i > g {
			g = i
		}
	}
	return g
}

type r8read struct {
	p      interface{}
	alive  bool
	lo, hi int //operations finished before the call, begun before its return
	closed bool
}

// r8explain reports whether a conforming reader that joined between lo and hi could have made these
// reads: the headers in effect, the current group from its start (without headers sent already),
// everything after; or, when more than one group behind, the same again from a newer group.
func r8explain(m *r8model, lo, hi int, reads []r8read, endAt int) (why string) {
	type pos struct {
		todo  map[string]interface{} //headers to come first
		g, i  int
		since int //headers of group g0 written up to since are not repeated
		g0    int
		have  map[string]interface{}
	}
	clone := func(x map[string]interface{}) map[string]interface{} {
		y := map[string]interface{}{}
		for k, e := range x {
			y[k] = e
		}
		return y
	}
	start := func(t, g int, have map[string]interface{}) pos {
		p := pos{todo: map[string]interface{}{}, g: g, since: t, g0: g, have: have}
		for k, e := range m.effect(t) {
			if have[k] != e {
				p.todo[k] = e
			}
		}
		return p
	}
	best := -1
	var run func(p pos, n, t int) bool
	run = func(p pos, n, t int) bool {
		if n > best {
			best = n
		}
		if n == len(reads) {
			return true
		}
		x := reads[n]
		for u := max(t, x.lo); u <= x.hi; u++ {
			//a step at time u
			if x.closed {
				return true //closed readers may end at any time
			}
			q := p
			//skip packets of headers not repeated, move to the next group when this one is used up
			for {
				items := m.groups[q.g]
				if q.i < len(items) && items[q.i].at <= u {
					if items[q.i].meta && q.g == q.g0 && items[q.i].at <= q.since && len(q.todo) == 0 {
						q.i++
						continue
					}
					break
				}
				if q.g+1 < len(m.groups) && m.opens[q.g+1] <= u && len(q.todo) == 0 {
					q.g, q.i = q.g+1, 0
					continue
				}
				break
			}
			try := func(q pos) bool {
				if len(q.todo) > 0 {
					if !x.alive {
						return false
					}
					k := r8kind(x.p)
					if q.todo[k] == nil || q.todo[k] != x.p {
						return false
					}
					q.todo, q.have = clone(q.todo), clone(q.have)
					delete(q.todo, k)
					q.have[k] = x.p
					return run(q, n+1, u)
				}
				items := m.groups[q.g]
				if q.i < len(items) && items[q.i].at <= u {
					if !x.alive || items[q.i].p != x.p {
						return false
					}
					if items[q.i].meta {
						q.have = clone(q.have)
						q.have[r8kind(x.p)] = x.p
					}
					q.i++
					return run(q, n+1, u)
				}
				//nothing left: only the end can be read
				return !x.alive && endAt >= 0 && u >= endAt && run(q, n+1, u)
			}
			if try(q) {
				return true
			}
			if cur := m.group(u); cur > p.g+1 {
				z := start(u, cur, p.have)
				//its own headers up to now came first
				for len(z.todo) == 0 && z.i < len(m.groups[z.g]) && m.groups[z.g][z.i].meta && m.groups[z.g][z.i].at <= u {
					z.i++
				}
				if try(z) {
					return true
				}
			}
		}
		return false
	}
	for t := lo; t <= hi; t++ {
		if run(start(t, m.group(t), map[string]interface{}{}), 0, t) {
			return ""
		}
	}
	s := "no order of the operations explains: "
	for i, x := range reads {
		if i == best {
			s += ">>"
		}
		s += fmt.Sprintf("%v/%v[%d,%d] ", x.p, x.alive, x.lo, x.hi)
	}
	return s
}

type r8 struct {
	script  string
	readers int
	pre     int  //operations before the readers may join
	leaver  bool //the first reader leaves at some time
	bound   int
}

func r8Run(r *v.Run, c *v.Ctx, x r8) (steps int) {
	failed := map[string]bool{}
	bad := func(key, f string, a ...interface{}) {
		if !failed[key] {
			failed[key] = true
			r.Violation("r08:"+key, fmt.Sprintf("%+v schedule %v", x, c.Choices()), f, a...)
		}
	}
	total := 0
	s := vs.Run(c, func(s *vs.Sched) {
		bd := NewBroadcast(3)
		m := &r8model{groups: [][]r8item{{}}, opens: []int{0}}
		begun, done, endAt := 0, 0, -1
		var lastA *r8meta
		do := func(op byte) {
			begun++
			switch op {
			case opMetaA:
				lastA = &r8meta{begun}
				m.apply(op, lastA)
				bd.WriteMeta(lastA)
			case opKeep:
				m.ops++
				if lastA != nil {
					bd.WriteMeta(lastA)
				}
			case opMetaB:
				p := &r8other{begun}
				m.apply(op, p)
				bd.WriteMeta(p)
			case opGroup:
				p := &r8pkt{begun}
				m.apply(op, p)
				bd.Reset()
				bd.Write(p)
			case opPacket:
				p := &r8pkt{begun}
				m.apply(op, p)
				bd.Write(p)
			}
			done++
		}
		for i := 0; i < x.pre; i++ {
			do(x.script[i])
		}
		type rd struct {
			br     *BroadcastReader
			lo, hi int
			reads  []r8read
			over   bool
			closed bool
		}
		rs := make([]*rd, x.readers)
		s.Explore(true)
		for i := range rs {
			q := &rd{}
			rs[i] = q
			vs.Go(func() {
				q.lo = done
				q.br = NewBroadcastReader(bd)
				q.hi = begun
				for n := 0; n < 40; n++ {
					e := r8read{lo: done}
					e.p, e.alive = q.br.Read()
					e.hi, e.closed = begun, q.closed && !e.alive
					q.reads = append(q.reads, e)
					if !e.alive {
						break
					}
				}
				q.over = true
			})
		}
		if x.leaver {
			vs.Go(func() {
				q := rs[0]
				vs.Until(func() bool { return q.br != nil }, "join")
				q.closed = true
				q.br.Close()
			})
		}
		vs.Go(func() {
			for i := x.pre; i < len(x.script); i++ {
				do(x.script[i])
			}
			begun++
			endAt = begun
			m.ops++
			bd.DisAlive()
			done++
		})
		s.Idle()
		s.Explore(false)
		for i, q := range rs {
			total += len(q.reads)
			if !q.over {
				bad("stuck", "reader %d still waits after the end; it read %v", i, q.reads)
				continue
			}
			if why := r8explain(m, q.lo, q.hi, q.reads, endAt); why != "" {
				bad("order", "reader %d, joined between %d and %d: %s", i, q.lo, q.hi, why)
			}
		}
		//after the end: nothing more can be written, late readers get what there is and the end
		bd.Write(&r8pkt{99})
		bd.WriteMeta(&r8meta{98})
		late := &rd{lo: m.ops, hi: m.ops}
		late.br = NewBroadcastReader(bd)
		for n := 0; n < 40; n++ {
			p, alive := late.br.Read()
			late.reads = append(late.reads, r8read{p: p, alive: alive, lo: m.ops, hi: m.ops})
			if !alive {
				break
			}
		}
		if why := r8explain(m, m.ops, m.ops, late.reads, endAt); why != "" {
			bad("late", "a reader joining after the end: %s", why)
		}
	})
	if s.Crash != nil {
		bad("crash:"+s.Crash.Where, "%s\n%s", s.Crash.Value, s.Crash.Stack)
	}
	if s.Dead != "" {
		bad("deadlock", "%s", s.Dead)
	}
	r.Eval(fmt.Sprintf("%d readers, %d reads", x.readers, total), fmt.Sprintf("%+v %v", x, c.Choices()))
	return s.Steps()
}

func TestV_R08(t *testing.T) {
	r := v.Start(t)
	defer r.Finish()
	ops := []byte{opMetaA, opMetaB, opKeep, opGroup, opPacket}
	tree := func(x r8) bool {
		_, all := v.Tree(r, x.bound, func(c *v.Ctx, first bool) bool {
			r.Journal("R08 %+v", x)
			r8Run(r, c, x)
			return true
		})
		if !all {
			r.Capped(fmt.Sprintf("bounded by the time budget in %+v", x))
		}
		return all
	}
	//one reader: every schedule whatever
	full := r.Pick(3, 4)
	deep := r.Pick(5, 8)
	ok := true
	v.Sequences(len(ops), 0, full, func(q []int) bool {
		b := make([]byte, len(q))
		for i, k := range q {
			b[i] = ops[k]
		}
		ok = tree(r8{script: string(b), readers: 1, bound: deep})
		return ok
	})
	n := 0
	for _, sc := range []string{"aGpGpGp", "aGGGG", "GpaGbpGaGp", "abGpkGpaGGp", "pGpppGppGpp", "aGpGGbGGpGG"} {
		for pre := 0; pre <= len(sc); pre++ {
			for _, k := range []r8{{readers: 1, bound: r.Pick(4, 6)}, {readers: 2, bound: r.Pick(2, 4)}, {readers: 3, bound: r.Pick(2, 3)}, {readers: 2, leaver: true, bound: r.Pick(2, 3)}} {
				k.script, k.pre = sc, pre
				n++
				if ok {
					ok = tree(k)
				}
			}
		}
	}
	r.Note("one reader against every script of up to %d operations under every schedule with up to %d preemptions; %d scenarios of one to three readers and longer scripts under all schedules with up to %d (one), %d (two) and %d (three readers) preemptions", full, deep, n, r.Pick(4, 6), r.Pick(2, 4), r.Pick(2, 3))
}

// TestVerifR08Statements does the same with a scheduling point before every statement.
func TestVerifR08Statements(t *testing.T) {
	r := v.Start(t)
	defer r.Finish()
	bound := r.Pick(2, 3)
	n := 0
	for _, sc := range []string{"", "a", "p", "G", "aG", "Gp", "GG", "aGpb", "GpGp"} {
		for pre := 0; pre <= len(sc); pre++ {
			for _, x := range []r8{{readers: 1}, {readers: 1, leaver: true}, {readers: 2}} {
				x.script, x.pre, x.bound = sc, pre, bound
				n++
				if _, all := v.Tree(r, x.bound, func(c *v.Ctx, first bool) bool {
					r.Journal("R08 statements %+v", x)
					r8Run(r, c, x)
					return true
				}); !all {
					r.Capped(fmt.Sprintf("bounded by the time budget in %+v", x))
					return
				}
			}
		}
	}
	r.Note("%d scenarios with a scheduling point at every statement, at most %d preemptions", n, bound)
}
