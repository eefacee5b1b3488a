//go:build go1.25

package libsrt

import (
	"fmt"
	"strings"
	"testing"

	v "github.com/sbraveyoung/GGmpeg/verif_vlib"
)

// u01peer is the reference model of one caller address.
type u01peer struct {
	pend, sess *u01sess
	last       uint32 //cookie of the latest induction answer, whatever became of it
	lastID     uint32 //and the socket id it was for
	old        []uint32
}
type u01sess struct {
	id, cookie, our uint32
	next            uint32
	isn             uint32
}

const (
	uI1 = iota //induction
	uI2        //induction with another socket id
	uC         //conclusion with the latest cookie
	uC0        //conclusion without cookie
	uCx        //conclusion with a wrong cookie
	uCo        //conclusion with the other caller's cookie
	uD         //data, next in order
	uDd        //data, the newest once more
	uK         //keepalive
	uS         //shutdown
	uT         //truncated handshake
	uH         //handshake of an unknown type
	uE         //data the application refuses
	uN
)

var uNames = []string{"induction", "induction2", "conclude", "conclude-without-cookie", "conclude-wrong-cookie", "conclude-others-cookie", "data", "data-again", "keepalive", "shutdown", "truncated", "unknown-type", "data-refused"}

// TestV_U01 decides who is admitted, for every bounded sequence of packets of two callers.
func TestV_U01(t *testing.T) {
	r := v.Start(t)
	defer r.Finish()
	g := newSrtRig(t)
	defer g.end()

	run := func(seq []int) (slow bool) {
		g.fresh()
		peers := [2]*u01peer{{}, {}}
		desc := ""
		bad := func(key, f string, a ...interface{}) {
			r.Violation("u01:"+key, desc, "after %s: %s", desc, fmt.Sprintf(f, a...))
		}
		count := 0
		outcome := map[string]bool{}
		for _, s := range seq {
			who, op := s/uN, s%uN
			p := peers[who]
			if desc != "" {
				desc += ", "
			}
			desc += fmt.Sprintf("%c:%s", 'A'+who, uNames[op])
			id := uint32(0x1000*(who+1) + 1)
			if op == uI2 {
				id++
			} else if op != uI1 && p.lastID != 0 {
				id = p.lastID
			}
			isn := uint32(100*(who+1)) + id&0xf
			c := g.cli[who]
			wantData := ""
			cookie := p.last
			var dst uint32
			if p.sess != nil {
				dst = p.sess.our
			} else if p.pend != nil {
				dst = p.pend.our
			}
			switch op {
			case uI1, uI2:
				g.send(c, srtCtl(0, 0, 0, 0, srtHS(1, isn, id, 0)))
			case uC:
			case uC0:
				cookie = 0
			case uCx:
				cookie ^= 1
			case uCo:
				cookie = peers[1-who].last
			case uD, uDd, uE:
				count++
				sq := isn
				if p.sess != nil {
					id = p.sess.id
					sq = p.sess.next
					if op == uDd {
						sq--
					}
				}
				pl := fmt.Sprintf("%d from %d", count, who)
				if p.sess != nil && (op != uDd || sq+1 != p.sess.next) {
					wantData = "S:" + pl
				}
				if op == uE {
					g.mu.Lock()
					g.reject = pl
					g.mu.Unlock()
				}
				g.send(c, srtData(sq, uint32(0xc0000000|count), dst, []byte(pl)))
			case uK:
				g.send(c, srtCtl(1, 0, 0, dst, nil))
			case uS:
				g.send(c, srtCtl(5, 0, 0, dst, make([]byte, 4)))
			case uT:
				g.send(c, srtCtl(0, 0, 0, 0, srtHS(-1, isn, id, cookie)[:40]))
			case uH:
				g.send(c, srtCtl(0, 0, 0, 0, srtHS(-2, isn, id, cookie)))
			}
			if op >= uC && op <= uCo {
				g.send(c, srtCtl(0, 0, 0, dst, srtHS(-1, isn, id, cookie)))
			}
			if !g.barrier() {
				if g.slow() {
					return true
				}
				bad("dead", "the listener no longer answers")
				return
			}
			if g.slow() {
				return true
			}
			for _, raw := range g.drain(1 - who) {
				k, _ := parseSrt(raw)
				bad("foreign-answer", "packet of type %d sent to the other caller", k.typ)
				return
			}
			//answers
			var hs []srtHSBody
			keep := 0
			for _, raw := range g.drain(who) {
				k, e := parseSrt(raw)
				if e != "" {
					bad("answer", "%s", e)
					return
				}
				switch k.typ {
				case 0:
					h, ok := parseSrtHS(k.body)
					if !ok {
						bad("answer", "truncated handshake answer")
						return
					}
					if k.dst != id {
						bad("answer-addressed", "handshake answer addressed to socket %#x, the caller's is %#x", k.dst, id)
						return
					}
					hs = append(hs, h)
				case 1:
					keep++
					if p.sess != nil && k.dst != p.sess.id {
						bad("answer-addressed", "keepalive addressed to socket %#x, the caller's is %#x", k.dst, p.sess.id)
						return
					}
				case 3:
					bad("spurious-nak", "loss report without loss")
					return
				}
			}
			same := func(h srtHSBody) string {
				if h.isn != isn || h.mtu != 1400+id&0xf || h.fl != 8100+id&0xff || h.ver != 5 {
					return fmt.Sprintf("answer parameters %+v differ from the caller's", h)
				}
				return ""
			}
			switch {
			case op == uI1 || op == uI2:
				if len(hs) != 1 || hs[0].typ != 1 {
					bad("induction-answer", "induction answered by %+v", hs)
					return
				}
				h := hs[0]
				if e := same(h); e != "" {
					bad("induction-answer", "%s", e)
					return
				}
				if h.cook == 0 || h.id == 0 {
					bad("induction-cookie", "cookie %#x socket id %#x", h.cook, h.id)
					return
				}
				var known *u01sess
				if p.sess != nil && p.sess.id == id {
					known = p.sess
				} else if p.pend != nil && p.pend.id == id {
					known = p.pend
				}
				if known != nil {
					if h.cook != known.cookie || h.id != known.our {
						bad("induction-repeat", "repeated induction answered with cookie %#x socket %#x, before %#x %#x", h.cook, h.id, known.cookie, known.our)
						return
					}
				} else {
					for _, o := range []*u01sess{p.sess, peers[1-who].sess, peers[1-who].pend} {
						if o != nil && o.our == h.id {
							bad("socket-id", "socket id %#x given out twice", h.id)
							return
						}
					}
					p.pend = &u01sess{id: id, cookie: h.cook, our: h.id}
				}
				if p.last != 0 && p.last != h.cook {
					p.old = append(p.old, p.last)
				}
				p.last, p.lastID = h.cook, id
				outcome["induction"] = true
			case op >= uC && op <= uCo:
				answered := len(hs) == 1 && hs[0].typ == -1
				if len(hs) > 1 || len(hs) == 1 && !answered && hs[0].typ < 1000 {
					bad("conclusion-answer", "conclusion answered by %+v", hs)
					return
				}
				var match *u01sess
				if p.sess != nil && cookie == p.sess.cookie {
					match = p.sess
				} else if p.pend != nil && cookie == p.pend.cookie {
					match = p.pend
				}
				stale := false
				for _, o := range p.old {
					stale = stale || o == cookie
				}
				if cookie == p.last && cookie != 0 && match == nil {
					stale = true
				}
				switch {
				case match != nil && !answered:
					bad("conclusion-refused", "a conclusion that returns the cookie was answered by %+v", hs)
					return
				case match == nil && answered && !stale:
					bad("conclusion-admitted", "a conclusion with cookie %#x was answered although no such cookie was given to that address", cookie)
					return
				case match != nil:
					if e := same(hs[0]); e != "" || hs[0].id != match.our {
						bad("conclusion-answer", "%s socket id %#x instead of %#x", e, hs[0].id, match.our)
						return
					}
					if match != p.sess {
						match.next, match.isn = isn, isn
						p.sess, p.pend = match, nil
					}
					outcome["admitted"] = true
				case answered: //a stale cookie of this address, accepted
					p.sess, p.pend = &u01sess{id: id, cookie: cookie, our: hs[0].id, next: isn, isn: isn}, nil
				}
			default:
				if len(hs) != 0 {
					for _, h := range hs {
						if h.typ == -1 || h.typ == 1 {
							bad("answer", "handshake answer %+v to %s", h, uNames[op])
							return
						}
					}
				}
				if op == uK && p.sess != nil {
					if keep != 1 {
						bad("keepalive", "%d keepalives came back", keep)
						return
					}
					outcome["keepalive"] = true
				}
				if op == uS {
					p.sess = nil
				}
			}
			got := g.taken()
			if strings.Join(got, "|") != wantData {
				bad("data", "handed on %q, expected %q", got, wantData)
				return
			}
			if wantData != "" {
				p.sess.next++
				outcome["delivered"] = true
				if op == uE {
					p.sess = nil
					outcome["refused by application"] = true
				}
			}
		}
		cls := ""
		for _, k := range []string{"induction", "admitted", "delivered", "keepalive", "refused by application"} {
			if outcome[k] {
				cls += k + " "
			}
		}
		r.Eval(strings.TrimSpace(cls), desc)
		return false
	}
	do := func(seq []int) bool {
		r.Journal("U01 %v", seq)
		for i := 0; i < 3; i++ {
			slow := false
			r.Guard("u01:", fmt.Sprint(seq), func() { slow = run(seq) })
			if !slow {
				break
			}
		}
		return !r.Expired()
	}
	B := uN
	prefixes := [][]int{
		{},
		{uI1, uC},
		{uI1, uC, uD, B + uI1},
		{uI1, B + uI1, uC, B + uC, uD},
		{uI1, uC, uD, uI2},
	}
	depth := r.Pick(3, 4)
	for pi, pre := range prefixes {
		ok := v.Sequences(2*uN, 0, depth, func(s []int) bool {
			if !r.Mine() {
				return true
			}
			return do(append(append([]int{}, pre...), s...))
		})
		if !ok {
			r.Capped(fmt.Sprintf("prefix %d", pi))
			return
		}
	}
	//one caller alone, deeper
	d1 := r.Pick(4, 5)
	v.Sequences(uN, depth+1, d1, func(s []int) bool {
		if !r.Mine() {
			return true
		}
		return do(append([]int{}, s...))
	})
	r.Note("every sequence of up to %d packets over 2 callers x %d packet kinds after %d starting histories, and up to %d of one caller, on a real UDP listener", depth, uN, len(prefixes), d1)
}
