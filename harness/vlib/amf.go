//go:build go1.25

package verif_vlib

import (
	"encoding/binary"
	"fmt"
	"math"
)

// Independent AMF0. Values: float64, bool, string, nil, Undef, Obj, ECMA, Arr, Date.
type Undef struct{}
type KV struct {
	K string
	V interface{}
}
type Obj []KV
type ECMA []KV
type Arr []interface{}
type Date struct {
	MS float64
	TZ int16
}

// ECMAN is an associative array whose count field says N.
type ECMAN struct {
	N uint32
	P []KV
}
type Typed struct {
	Class string
	P     []KV
}
type XML string
type LStr string //always written with the long string marker
type Unsup struct{}

func AMF(vals ...interface{}) []byte {
	var b []byte
	for _, v := range vals {
		b = amfPut(b, v)
	}
	return b
}

func amfStr(b []byte, s string) []byte {
	b = append(b, byte(len(s)>>8), byte(len(s)))
	return append(b, s...)
}

func amfPut(b []byte, v interface{}) []byte {
	switch x := v.(type) {
	case float64:
		b = append(b, 0)
		var t [8]byte
		binary.BigEndian.PutUint64(t[:], math.Float64bits(x))
		return append(b, t[:]...)
	case int:
		return amfPut(b, float64(x))
	case bool:
		if x {
			return append(b, 1, 1)
		}
		return append(b, 1, 0)
	case string:
		if len(x) > 65535 {
			b = append(b, 0x0c, byte(len(x)>>24), byte(len(x)>>16), byte(len(x)>>8), byte(len(x)))
			return append(b, x...)
		}
		return amfStr(append(b, 2), x)
	case nil:
		return append(b, 5)
	case Undef:
		return append(b, 6)
	case Obj:
		b = append(b, 3)
		for _, kv := range x {
			b = amfPut(amfStr(b, kv.K), kv.V)
		}
		return append(b, 0, 0, 9)
	case ECMA:
		b = append(b, 8, 0, 0, byte(len(x)>>8), byte(len(x)))
		for _, kv := range x {
			b = amfPut(amfStr(b, kv.K), kv.V)
		}
		return append(b, 0, 0, 9)
	case ECMAN:
		b = append(append(b, 8), U32(x.N)...)
		for _, kv := range x.P {
			b = amfPut(amfStr(b, kv.K), kv.V)
		}
		return append(b, 0, 0, 9)
	case Typed:
		b = amfStr(append(b, 0x10), x.Class)
		for _, kv := range x.P {
			b = amfPut(amfStr(b, kv.K), kv.V)
		}
		return append(b, 0, 0, 9)
	case XML:
		b = append(append(b, 0x0f), U32(uint32(len(x)))...)
		return append(b, x...)
	case LStr:
		b = append(append(b, 0x0c), U32(uint32(len(x)))...)
		return append(b, x...)
	case Unsup:
		return append(b, 0x0d)
	case Arr:
		b = append(b, 0x0a, 0, 0, byte(len(x)>>8), byte(len(x)))
		for _, e := range x {
			b = amfPut(b, e)
		}
		return b
	case Date:
		b = append(b, 0x0b)
		var t [8]byte
		binary.BigEndian.PutUint64(t[:], math.Float64bits(x.MS))
		b = append(b, t[:]...)
		return append(b, byte(uint16(x.TZ)>>8), byte(x.TZ))
	}
	panic(fmt.Sprintf("verif-internal: amf %T", v))
}

func UnAMF(b []byte) (vals []interface{}, err error) {
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("amf: %v", p)
		}
	}()
	for len(b) > 0 {
		var v interface{}
		v, b = amfGet(b)
		vals = append(vals, v)
	}
	return
}

func amfGet(b []byte) (interface{}, []byte) {
	t := b[0]
	b = b[1:]
	switch t {
	case 0:
		return math.Float64frombits(binary.BigEndian.Uint64(b[:8])), b[8:]
	case 1:
		return b[0] != 0, b[1:]
	case 2:
		n := int(binary.BigEndian.Uint16(b))
		return string(b[2 : 2+n]), b[2+n:]
	case 3, 8:
		if t == 8 {
			b = b[4:]
		}
		var kvs []KV
		for {
			n := int(binary.BigEndian.Uint16(b))
			k := string(b[2 : 2+n])
			b = b[2+n:]
			if n == 0 && b[0] == 9 {
				b = b[1:]
				break
			}
			var v interface{}
			v, b = amfGet(b)
			kvs = append(kvs, KV{k, v})
		}
		if t == 8 {
			return ECMA(kvs), b
		}
		return Obj(kvs), b
	case 5:
		return nil, b
	case 6:
		return Undef{}, b
	case 0x0a:
		n := int(binary.BigEndian.Uint32(b))
		b = b[4:]
		a := Arr{}
		for i := 0; i < n; i++ {
			var v interface{}
			v, b = amfGet(b)
			a = append(a, v)
		}
		return a, b
	case 0x0b:
		return Date{math.Float64frombits(binary.BigEndian.Uint64(b[:8])), int16(binary.BigEndian.Uint16(b[8:]))}, b[10:]
	case 0x0c:
		n := int(binary.BigEndian.Uint32(b))
		return string(b[4 : 4+n]), b[4+n:]
	}
	panic(fmt.Sprintf("marker %#x", t))
}

func (o Obj) Get(k string) interface{} {
	for _, kv := range o {
		if kv.K == k {
			return kv.V
		}
	}
	return nil
}
