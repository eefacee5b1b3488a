//go:build go1.25

package libamf

import (
	"bytes"
	"fmt"
	"io"
	"math"
	"reflect"
	"strings"
	"testing"
	"testing/iotest"
	"time"

	"github.com/SmartBrave/Athena/easyio"
	v "github.com/sbraveyoung/GGmpeg/verif_vlib"
)

// trees returns all values of exactly n nodes over the given leaves and containers.
type a01gen struct {
	leaves []interface{}
	conts  []func(ch []interface{}) interface{}
	memo   map[int][]interface{}
}

func (g *a01gen) trees(n int) []interface{} {
	if t, ok := g.memo[n]; ok {
		return t
	}
	var out []interface{}
	if n == 1 {
		out = append(out, g.leaves...)
	}
	g.forests(n-1, nil, func(ch []interface{}) {
		for _, c := range g.conts {
			out = append(out, c(append([]interface{}{}, ch...)))
		}
	})
	g.memo[n] = out
	return out
}

func (g *a01gen) forests(n int, pre []interface{}, f func([]interface{})) {
	if n == 0 {
		f(pre)
		return
	}
	for k := 1; k <= n; k++ {
		for _, t := range g.trees(k) {
			g.forests(n-k, append(pre, t), f)
		}
	}
}

func kvs(ch []interface{}) []v.KV {
	names := []string{"a", "objectEncoding", "", "d", "e", "f"}
	kv := []v.KV{}
	for i, c := range ch {
		kv = append(kv, v.KV{K: names[i], V: c})
	}
	return kv
}

// plain is the value a decoder must return: maps, slices, float64, string, bool, nil, time, bytes.
func plain(x interface{}) interface{} {
	m := func(p []v.KV) interface{} {
		r := map[string]interface{}{}
		for _, kv := range p {
			r[kv.K] = plain(kv.V)
		}
		return r
	}
	switch y := x.(type) {
	case v.Obj:
		return m(y)
	case v.ECMA:
		return m(y)
	case v.ECMAN:
		return m(y.P)
	case v.Typed:
		return map[string]interface{}{y.Class: m(y.P)}
	case v.Arr:
		r := []interface{}{}
		for _, e := range y {
			r = append(r, plain(e))
		}
		return r
	case v.Undef, v.Unsup:
		return nil
	case v.LStr:
		return string(y)
	case v.XML:
		return []byte(y)
	case v.Date:
		return time.UnixMilli(int64(y.MS))
	}
	return x
}

func equal(want, got interface{}) bool {
	switch w := want.(type) {
	case map[string]interface{}:
		g, ok := got.(map[string]interface{})
		if !ok || len(g) != len(w) {
			return false
		}
		for k, x := range w {
			y, ok := g[k]
			if !ok || !equal(x, y) {
				return false
			}
		}
		return true
	case []interface{}:
		g, ok := got.([]interface{})
		if !ok || len(g) != len(w) {
			return false
		}
		for i := range w {
			if !equal(w[i], g[i]) {
				return false
			}
		}
		return true
	case time.Time:
		g, ok := got.(time.Time)
		return ok && g.Equal(w)
	case float64:
		g, ok := got.(float64)
		return ok && (math.Float64bits(g) == math.Float64bits(w) || g != g && w != w)
	case []byte:
		if s, ok := got.(string); ok {
			return s == string(w)
		}
		g, ok := got.([]byte)
		return ok && bytes.Equal(g, w)
	}
	return reflect.DeepEqual(want, got)
}

func short(x interface{}) string {
	s := fmt.Sprintf("%v", x)
	if len(s) > 300 {
		s = s[:300] + "..."
	}
	return s
}

func TestV_A01(t *testing.T) {
	r := v.Start(t)
	defer r.Finish()

	decode := func(vals []interface{}, class string) {
		wire := v.AMF(append(append([]interface{}{}, vals...), "end")...)
		want := []interface{}{}
		for _, x := range vals {
			want = append(want, plain(x))
		}
		want = append(want, "end")
		desc := short(vals)
		r.Journal("A01 decode %x", wire[:min(len(wire), 400)])
		r.Eval("decode "+class, desc)
		for i, rd := range []io.Reader{bytes.NewReader(wire), iotest.OneByteReader(bytes.NewReader(wire)), iotest.DataErrReader(bytes.NewReader(wire))} {
			if i > 0 && len(wire) > 1000 {
				break
			}
			r.Guard("a01:", desc, func() {
				got, err := AMF0.Decode(easyio.NewEasyReader(rd))
				if err != nil {
					r.Violation("a01:decode-error:"+class, map[string]string{"values": desc, "bytes": fmt.Sprintf("%x", wire[:min(len(wire), 400)])}, "decoding %s: %v", desc, err)
				} else if !equal(want, got) {
					r.Violation("a01:decode-value:"+class, map[string]string{"values": desc, "bytes": fmt.Sprintf("%x", wire[:min(len(wire), 400)])}, "%s decoded to %s", desc, short(got))
				}
			})
		}
	}
	encode := func(x, want interface{}, class string) {
		desc := short(x)
		r.Journal("A01 encode %s", desc)
		r.Eval("encode "+class, "E"+desc)
		r.Guard("a01:", desc, func() {
			buf := &bytes.Buffer{}
			if err := AMF0.Encode(easyio.NewEasyWriter(buf), x); err != nil {
				r.Violation("a01:encode-error:"+class, desc, "encoding %s: %v", desc, err)
				return
			}
			got, err := v.UnAMF(append(buf.Bytes(), v.AMF("end")...))
			if err != nil || len(got) != 2 || got[1] != "end" {
				r.Violation("a01:encode-malformed:"+class, desc, "encoding of %s is not one AMF0 value: %v %s", desc, err, short(got))
				return
			}
			if !equal(want, plain(got[0])) {
				r.Violation("a01:encode-value:"+class, desc, "encoding of %s reads back as %s", desc, short(got[0]))
			}
			back, err := AMF0.Decode(easyio.NewEasyReader(buf))
			if err != nil || len(back) != 1 || !equal(want, back[0]) {
				r.Violation("a01:roundtrip:"+class, desc, "%s came back as %s (%v)", desc, short(back), err)
			}
		})
	}

	full := &a01gen{memo: map[int][]interface{}{}, leaves: []interface{}{1.5, true, "", "ab", nil, v.Undef{}, v.Date{MS: 1.6e12, TZ: 60}, v.XML("<x/>"), v.LStr("long"), v.Unsup{}}}
	full.conts = []func([]interface{}) interface{}{
		func(c []interface{}) interface{} { return v.Obj(kvs(c)) },
		func(c []interface{}) interface{} { return v.ECMA(kvs(c)) },
		func(c []interface{}) interface{} { return v.ECMAN{0, kvs(c)} },
		func(c []interface{}) interface{} { return v.ECMAN{7, kvs(c)} },
		func(c []interface{}) interface{} { return v.Typed{"cls", kvs(c)} },
		func(c []interface{}) interface{} { return v.Arr(c) },
	}
	small := &a01gen{memo: map[int][]interface{}{}, leaves: []interface{}{2.0, "s", nil}}
	small.conts = []func([]interface{}) interface{}{full.conts[0], full.conts[1], full.conts[5]}

	max := r.Pick(4, 4)
	for n := 1; n <= max && !r.Expired(); n++ {
		for _, tr := range full.trees(n) {
			if r.Mine() {
				decode([]interface{}{tr}, fmt.Sprintf("tree%d", n))
			}
		}
	}
	for n := 5; n <= r.Pick(5, 6) && !r.Expired(); n++ {
		for _, tr := range small.trees(n) {
			if r.Mine() {
				decode([]interface{}{tr}, fmt.Sprintf("tree%d", n))
			}
		}
	}
	two := append(append([]interface{}{}, full.trees(1)...), full.trees(2)...)
	for _, a := range two {
		for _, b := range two {
			if r.Mine() {
				decode([]interface{}{a, b}, "pair")
			}
		}
	}
	for _, a := range full.trees(1) {
		for _, b := range full.trees(1) {
			for _, c := range full.trees(1) {
				if r.Mine() {
					decode([]interface{}{a, b, c}, "triple")
				}
			}
		}
	}
	//lengths
	lens := []int{0, 1, 2, 127, 128, 255, 256, 257, 32767, 32768, 65534, 65535, 65536, 65537, 70000, 131072}
	for n := range lens {
		s := strings.Repeat("x", lens[n])
		for _, tr := range []interface{}{s, v.LStr(s), v.XML(s), v.Obj{{K: "k", V: s}}, v.Arr{s, 1.0}, v.ECMA{{K: "k", V: v.LStr(s)}, {K: "z", V: 1.0}}} {
			if r.Mine() {
				decode([]interface{}{tr}, "length")
			}
		}
		if lens[n] <= 65535 && lens[n] > 0 && r.Mine() {
			decode([]interface{}{v.Obj{{K: s, V: 1.0}, {K: "z", V: s}}}, "keylength")
		}
	}
	//numbers and dates
	nums := []float64{0, math.Copysign(0, -1), 1, -1, 0.1, 255, 256, 65535, 65536, 1 << 31, 1 << 32, 1 << 53, -1 << 53, math.MaxFloat64, math.SmallestNonzeroFloat64, math.Inf(1), math.Inf(-1), math.NaN()}
	for _, f := range nums {
		decode([]interface{}{f, v.Obj{{K: "n", V: f}}}, "number")
		encode(f, f, "number")
	}
	for _, d := range []float64{0, 1, -1, 999, 1000, 1e12, -1e12, 4e12, 9e12, 8.64e15, -6e13} {
		decode([]interface{}{v.Date{MS: d}, v.Date{MS: d, TZ: -720}}, "date")
	}
	//containers of many elements
	for _, n := range []int{3, 17, 255, 256, 1000} {
		var ob v.Obj
		var ar v.Arr
		for i := 0; i < n; i++ {
			ob = append(ob, v.KV{K: fmt.Sprint("k", i), V: float64(i)})
			ar = append(ar, float64(i))
		}
		decode([]interface{}{ob, ar, v.ECMA(ob), v.ECMAN{1, ob}}, "wide")
	}
	deep := interface{}(1.0)
	for i := 0; i < 60; i++ {
		if i%2 == 0 {
			deep = v.Arr{deep}
		} else {
			deep = v.Obj{{K: "d", V: deep}, {K: "e", V: float64(i)}}
		}
	}
	decode([]interface{}{deep}, "deep")

	//encoding
	enc := &a01gen{memo: map[int][]interface{}{}, leaves: []interface{}{1.5, -2.0, true, false, "", "ab", nil}}
	enc.conts = []func([]interface{}) interface{}{
		func(c []interface{}) interface{} { return plain(v.Obj(kvs(c))) },
		func(c []interface{}) interface{} { return plain(v.Arr(c)) },
	}
	for n := 1; n <= r.Pick(5, 6) && !r.Expired(); n++ {
		for _, tr := range enc.trees(n) {
			if r.Mine() {
				encode(tr, tr, fmt.Sprintf("tree%d", n))
			}
		}
	}
	for n := range lens {
		s := strings.Repeat("x", lens[n])
		for _, x := range []interface{}{s, map[string]interface{}{"k": s, "z": 1.0}, []interface{}{s, s}} {
			if r.Mine() {
				encode(x, x, "length")
			}
		}
		if lens[n] <= 65535 && r.Mine() {
			x := map[string]interface{}{s: "v", "zz": 2.0}
			encode(x, x, "keylength")
		}
	}
	type named string
	one := 1.0
	for _, c := range []struct{ x, want interface{} }{
		{int(-5), -5.0}, {int8(-128), -128.0}, {int16(-32768), -32768.0}, {int32(math.MinInt32), float64(math.MinInt32)}, {int64(1 << 40), float64(1 << 40)},
		{uint(5), 5.0}, {uint8(255), 255.0}, {uint16(65535), 65535.0}, {uint32(math.MaxUint32), float64(math.MaxUint32)}, {uint64(1 << 40), float64(1 << 40)},
		{float32(0.5), 0.5}, {named("n"), "n"}, {&one, 1.0}, {map[string]string{"a": "b"}, map[string]interface{}{"a": "b"}}, {map[string]int{"a": 3}, map[string]interface{}{"a": 3.0}},
		{map[named]interface{}{"k": nil}, map[string]interface{}{"k": nil}}, {[]string{"a", "b"}, []interface{}{"a", "b"}}, {[3]int{1, 2, 3}, []interface{}{1.0, 2.0, 3.0}}, {map[string]interface{}{"p": &one}, map[string]interface{}{"p": 1.0}},
	} {
		encode(c.x, c.want, "gotype")
	}
	r.Note("decode: all trees of up to %d nodes over 10 leaf kinds and 6 container kinds, up to %d nodes over 3+3; all pairs of trees of <=2 nodes and triples of 1 node; lengths %v", max, r.Pick(5, 6), lens)
	r.Note("encode: all trees of up to %d nodes over 7 leaves, objects and arrays; %d Go types", r.Pick(5, 6), 19)
}
