// Package ref holds independent reference implementations of the formats the
// checks talk about. Nothing here uses the code under test.
package ref

import (
	"encoding/binary"
	"errors"
	"fmt"
	"math"
	"time"
)

// AMF values: float64, bool, string, nil, Undefined, time.Time, *Obj, Arr,
// and for AMF3 also Int and Bytes.
type Undefined struct{}
type Int int // AMF3 29-bit integer
type Bytes []byte
type XML string

type KV struct {
	K string
	V interface{}
}
type Obj struct {
	KVs     []KV
	ECMA    bool   // AMF0: ECMA array; AMF3: associative array
	Count   uint32 // AMF0 ECMA count hint
	Dense   []interface{}
	Sealed  int // AMF3: the first Sealed pairs are sealed members
	Dynamic bool
	Class   string
}
type Arr []interface{}

// LongStr forces the long-string form.
type LongStr string

// True is the boolean true, written as that byte.
type True byte

func u16(b []byte, v int) []byte { return append(b, byte(v>>8), byte(v)) }
func u24(b []byte, v uint32) []byte {
	return append(b, byte(v>>16), byte(v>>8), byte(v))
}
func u32(b []byte, v uint32) []byte {
	return append(b, byte(v>>24), byte(v>>16), byte(v>>8), byte(v))
}
func f64(b []byte, f float64) []byte {
	var t [8]byte
	binary.BigEndian.PutUint64(t[:], math.Float64bits(f))
	return append(b, t[:]...)
}

func millis(t time.Time) float64 {
	s, ns := t.Unix(), int64(t.Nanosecond())
	return float64(s*1000 + ns/1000000)
}

// AMF0 appends the AMF0 encoding of v.
func AMF0(b []byte, v interface{}) []byte {
	switch x := v.(type) {
	case float64:
		return f64(append(b, 0), x)
	case bool:
		if x {
			return append(b, 1, 1)
		}
		return append(b, 1, 0)
	case True:
		return append(b, 1, byte(x))
	case string:
		if len(x) < 65536 {
			return append(u16(append(b, 2), len(x)), x...)
		}
		return append(u32(append(b, 12), uint32(len(x))), x...)
	case LongStr:
		return append(u32(append(b, 12), uint32(len(x))), x...)
	case nil:
		return append(b, 5)
	case Undefined:
		return append(b, 6)
	case time.Time:
		return u16(f64(append(b, 11), millis(x)), 0)
	case *Obj:
		if x.ECMA {
			b = u32(append(b, 8), x.Count)
		} else {
			b = append(b, 3)
		}
		for _, kv := range x.KVs {
			b = append(u16(b, len(kv.K)), kv.K...)
			b = AMF0(b, kv.V)
		}
		return append(b, 0, 0, 9)
	case Arr:
		b = u32(append(b, 10), uint32(len(x)))
		for _, e := range x {
			b = AMF0(b, e)
		}
		return b
	}
	panic(fmt.Sprintf("ref.AMF0: %T", v))
}

var errAMF = errors.New("ref: bad AMF0")

// ParseAMF0 decodes one AMF0 value.
func ParseAMF0(b []byte) (v interface{}, rest []byte, err error) {
	if len(b) < 1 {
		return nil, b, errAMF
	}
	m := b[0]
	b = b[1:]
	need := func(n int) bool { return len(b) >= n }
	switch m {
	case 0:
		if !need(8) {
			return nil, b, errAMF
		}
		return math.Float64frombits(binary.BigEndian.Uint64(b)), b[8:], nil
	case 1:
		if !need(1) {
			return nil, b, errAMF
		}
		return b[0] != 0, b[1:], nil
	case 2:
		if !need(2) {
			return nil, b, errAMF
		}
		n := int(binary.BigEndian.Uint16(b))
		if !need(2 + n) {
			return nil, b, errAMF
		}
		return string(b[2 : 2+n]), b[2+n:], nil
	case 12:
		if !need(4) {
			return nil, b, errAMF
		}
		n := int(binary.BigEndian.Uint32(b))
		if !need(4 + n) {
			return nil, b, errAMF
		}
		return string(b[4 : 4+n]), b[4+n:], nil
	case 5:
		return nil, b, nil
	case 6:
		return Undefined{}, b, nil
	case 11:
		if !need(10) {
			return nil, b, errAMF
		}
		ms := int64(math.Float64frombits(binary.BigEndian.Uint64(b)))
		sec, rem := ms/1000, ms%1000
		return time.Unix(sec, rem*1000000), b[10:], nil
	case 3, 8:
		o := &Obj{ECMA: m == 8}
		if m == 8 {
			if !need(4) {
				return nil, b, errAMF
			}
			o.Count = binary.BigEndian.Uint32(b)
			b = b[4:]
		}
		for {
			if !need(2) {
				return nil, b, errAMF
			}
			n := int(binary.BigEndian.Uint16(b))
			b = b[2:]
			if n == 0 {
				if !need(1) || b[0] != 9 {
					return nil, b, errAMF
				}
				return o, b[1:], nil
			}
			if !need(n) {
				return nil, b, errAMF
			}
			k := string(b[:n])
			b = b[n:]
			var e interface{}
			if e, b, err = ParseAMF0(b); err != nil {
				return
			}
			o.KVs = append(o.KVs, KV{k, e})
		}
	case 10:
		if !need(4) {
			return nil, b, errAMF
		}
		n := int(binary.BigEndian.Uint32(b))
		b = b[4:]
		a := Arr{}
		for i := 0; i < n; i++ {
			var e interface{}
			if e, b, err = ParseAMF0(b); err != nil {
				return
			}
			a = append(a, e)
		}
		return a, b, nil
	}
	return nil, b, errAMF
}

// ParseAMF0All decodes a whole message.
func ParseAMF0All(b []byte) (vs []interface{}, err error) {
	for len(b) > 0 {
		var v interface{}
		if v, b, err = ParseAMF0(b); err != nil {
			return
		}
		vs = append(vs, v)
	}
	return
}

// ---- AMF3 ----

func U29(b []byte, v int) []byte {
	v &= 0x1fffffff
	switch {
	case v < 0x80:
		return append(b, byte(v))
	case v < 0x4000:
		return append(b, byte(v>>7)|0x80, byte(v&0x7f))
	case v < 0x200000:
		return append(b, byte(v>>14)|0x80, byte(v>>7)|0x80, byte(v&0x7f))
	}
	return append(b, byte(v>>22)|0x80, byte(v>>15)|0x80, byte(v>>8)|0x80, byte(v))
}

func str3(b []byte, s string) []byte { return append(U29(b, len(s)<<1|1), s...) }

// AMF3 appends the AMF3 encoding of v, all by value.
func AMF3(b []byte, v interface{}) []byte {
	switch x := v.(type) {
	case Undefined:
		return append(b, 0)
	case nil:
		return append(b, 1)
	case bool:
		if x {
			return append(b, 3)
		}
		return append(b, 2)
	case Int:
		return U29(append(b, 4), int(x))
	case float64:
		return f64(append(b, 5), x)
	case string:
		return str3(append(b, 6), x)
	case XML:
		return str3(append(b, 11), string(x))
	case time.Time:
		return f64(U29(append(b, 8), 1), millis(x))
	case Bytes:
		return append(U29(append(b, 12), len(x)<<1|1), x...)
	case *Obj:
		if x.ECMA {
			b = U29(append(b, 9), len(x.Dense)<<1|1)
			for _, kv := range x.KVs {
				b = AMF3(str3(b, kv.K), kv.V)
			}
			b = append(b, 1)
			for _, e := range x.Dense {
				b = AMF3(b, e)
			}
			return b
		}
		n := x.Sealed
		flags := n<<4 | 3
		if x.Dynamic {
			flags |= 8
		}
		b = U29(append(b, 10), flags)
		b = str3(b, x.Class)
		for _, kv := range x.KVs[:n] {
			b = str3(b, kv.K)
		}
		for _, kv := range x.KVs[:n] {
			b = AMF3(b, kv.V)
		}
		if x.Dynamic {
			for _, kv := range x.KVs[n:] {
				b = AMF3(str3(b, kv.K), kv.V)
			}
			b = append(b, 1)
		}
		return b
	}
	panic(fmt.Sprintf("ref.AMF3: %T", v))
}
