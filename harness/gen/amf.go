// Package gen draws the structured inputs of the checks and converts them to
// the types of the code under test.
package gen

import (
	"fmt"
	"math"
	"strings"
	"time"

	"github.com/nareix/joy5/format/flv/flvio"

	"joyverif/ref"
	"joyverif/vt"
)

func Str(t *vt.T, l string) string {
	switch t.Int(0, 9, l+"kind") {
	case 0:
		return ""
	case 1, 2, 3, 4:
		return vt.Pick(t, l, "a", "b", "width", "duration", "onStatus", "x y", "é漢", "\x00", "\xff\xfe", "keyframes", "a\"b\\")
	case 5, 6, 7:
		return string(t.Payload(t.Int(1, 20, l+"len"), l))
	case 8:
		return string(t.Payload(vt.Pick(t, l+"len", 63, 64, 127, 128, 255, 256, 300, 8191, 8192, 8193), l))
	default:
		return string(t.Payload(t.Int(1, 200, l+"len"), l))
	}
}

// BigStr draws strings around the 16-bit length limit.
func BigStr(t *vt.T, l string) string {
	n := vt.Pick(t, l+"len", 65534, 65535, 65536, 65537, 70000, 131072)
	return string(vt.Fill(n, t.U64(l)))
}

func Key(t *vt.T, l string) string {
	s := Str(t, l)
	if s == "" {
		return "k"
	}
	return s
}

func Num(t *vt.T, l string) float64 {
	switch t.Int(0, 3, l+"kind") {
	case 0:
		return float64(t.Int(-1000, 1000, l))
	case 1:
		return vt.Pick(t, l, 0, math.Copysign(0, -1), 1, -1, math.Inf(1), math.Inf(-1), math.NaN(), math.MaxFloat64, math.SmallestNonzeroFloat64, 1<<53, 29.97)
	case 2:
		return math.Float64frombits(t.U64(l))
	default:
		return float64(t.Int(-1<<31, 1<<31, l)) / 1000
	}
}

func Date(t *vt.T, l string) time.Time {
	ms := t.I64(-2208988800000, 7258118400000, l) // 1900..2200
	if t.OneIn(4, l+"edge") {
		ms = vt.Pick(t, l+"e", int64(0), int64(-1), int64(1), int64(-1000), int64(-999), int64(-1001), int64(1000), int64(1500000000123), int64(-7),
			-62135596800000, 9223372036855, -9223372036855, 8640000000000000, -8640000000000000)
	} else if t.OneIn(4, l+"far") {
		ms = t.I64(-8640000000000000, 8640000000000000, l) // what ECMAScript dates reach
	}
	s := ms / 1000
	r := ms % 1000
	return time.Unix(s, r*1000000)
}

// AMF0 draws a value tree in the reference model. Keys are distinct and not
// empty within an object.
func AMF0(t *vt.T, depth int, l string) interface{} {
	k := t.Int(0, 11, l+"k")
	if depth <= 0 && k >= 8 {
		k -= 6
	}
	switch k {
	case 0, 1:
		return Num(t, l)
	case 2:
		return t.Bool(l)
	case 3, 4:
		return Str(t, l)
	case 5:
		return nil
	case 6:
		return Date(t, l)
	case 7:
		if t.OneIn(12, l+"big") {
			return BigStr(t, l)
		}
		return Num(t, l)
	case 8, 9:
		return &ref.Obj{KVs: KVs(t, depth-1, l)}
	case 10:
		kv := KVs(t, depth-1, l)
		return &ref.Obj{ECMA: true, KVs: kv, Count: uint32(len(kv))}
	default:
		n := t.Int(0, 4, l+"n")
		a := ref.Arr{}
		for i := 0; i < n; i++ {
			a = append(a, AMF0(t, depth-1, l))
		}
		return a
	}
}

func KVs(t *vt.T, depth int, l string) []ref.KV {
	n := t.Int(0, 5, l+"n")
	var out []ref.KV
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		k := Key(t, l+"key")
		if t.OneIn(40, l+"bigkey") {
			k = string(vt.Fill(65535, t.U64(l)))
		}
		if seen[k] {
			k = fmt.Sprintf("%s_%d", k, i)
			if len(k) > 65535 {
				continue
			}
		}
		seen[k] = true
		out = append(out, ref.KV{K: k, V: AMF0(t, depth, l)})
	}
	return out
}

// ToLib converts a reference value to the value the library encodes.
func ToLib(v interface{}) interface{} {
	switch x := v.(type) {
	case *ref.Obj:
		m := flvio.AMFMap{}
		for _, kv := range x.KVs {
			m = append(m, flvio.AMFKv{K: kv.K, V: ToLib(kv.V)})
		}
		if x.ECMA {
			return flvio.AMFECMAArray(m)
		}
		return m
	case ref.Arr:
		a := flvio.AMFArray{}
		for _, e := range x {
			a = append(a, ToLib(e))
		}
		return a
	case ref.LongStr:
		return string(x)
	case ref.Undefined:
		return nil
	case ref.XML:
		return string(x)
	case ref.Int:
		return int(x)
	case ref.Bytes:
		return []byte(x)
	}
	return v
}

// Same compares a reference value with what the library decoded ("" if equal).
func Same(want, got interface{}) string {
	switch x := want.(type) {
	case float64:
		g, ok := got.(float64)
		if !ok || math.Float64bits(g) != math.Float64bits(x) {
			// NaN payloads must survive too: bits are compared.
			return fmt.Sprintf("number %v(%x): got %T %v", x, math.Float64bits(x), got, got)
		}
	case bool:
		if g, ok := got.(bool); !ok || g != x {
			return fmt.Sprintf("boolean %v: got %T %v", x, got, got)
		}
	case string:
		if g, ok := got.(string); !ok || g != x {
			return fmt.Sprintf("string %s: got %T %s", trunc(x), got, trunc(fmt.Sprint(got)))
		}
	case ref.True:
		return Same(true, got)
	case ref.LongStr:
		return Same(string(x), got)
	case ref.XML:
		return Same(string(x), got)
	case nil, ref.Undefined:
		if got != nil {
			return fmt.Sprintf("null: got %T %v", got, got)
		}
	case time.Time:
		if g, ok := got.(time.Time); !ok || !g.Equal(x) {
			return fmt.Sprintf("date %v: got %T %v", x, got, got)
		}
	case ref.Int:
		switch g := got.(type) {
		case int:
			if g != int(x) {
				return fmt.Sprintf("integer %d: got %d", x, g)
			}
		default:
			return fmt.Sprintf("integer %d: got %T %v", x, got, got)
		}
	case ref.Bytes:
		g, ok := got.([]byte)
		if !ok || string(g) != string(x) {
			return fmt.Sprintf("byte array of %d: got %T", len(x), got)
		}
	case *ref.Obj:
		var g flvio.AMFMap
		switch y := got.(type) {
		case flvio.AMFMap:
			g = y
		case flvio.AMFECMAArray:
			g = flvio.AMFMap(y)
		default:
			return fmt.Sprintf("object: got %T", got)
		}
		if len(g) != len(x.KVs)+len(x.Dense) {
			return fmt.Sprintf("object of %d: got %d pairs", len(x.KVs)+len(x.Dense), len(g))
		}
		for i, kv := range x.KVs {
			if g[i].K != kv.K {
				return fmt.Sprintf("key %d %s: got %s", i, trunc(kv.K), trunc(g[i].K))
			}
			if s := Same(kv.V, g[i].V); s != "" {
				return trunc(kv.K) + ": " + s
			}
		}
		at := map[string]interface{}{}
		if len(x.Dense) > 0 {
			for i := len(g) - 1; i >= 0; i-- {
				at[g[i].K] = g[i].V
			}
		}
		for i, e := range x.Dense {
			v, ok := at[fmt.Sprint(i)]
			if !ok {
				return fmt.Sprintf("array element %d missing", i)
			}
			if s := Same(e, v); s != "" {
				return fmt.Sprintf("[%d]: %s", i, s)
			}
		}
	case ref.Arr:
		g, ok := got.(flvio.AMFArray)
		if !ok || len(g) != len(x) {
			return fmt.Sprintf("array of %d: got %T %d", len(x), got, len(g))
		}
		for i := range x {
			if s := Same(x[i], g[i]); s != "" {
				return fmt.Sprintf("[%d]: %s", i, s)
			}
		}
	default:
		return fmt.Sprintf("unknown reference kind %T", want)
	}
	return ""
}

func trunc(s string) string {
	if len(s) > 40 {
		return fmt.Sprintf("%q...(%d)", s[:40], len(s))
	}
	return fmt.Sprintf("%q", s)
}

// Show writes a value compactly for samples.
func Show(v interface{}) string {
	switch x := v.(type) {
	case *ref.Obj:
		var s []string
		for _, kv := range x.KVs {
			s = append(s, trunc(kv.K)+":"+Show(kv.V))
		}
		for _, e := range x.Dense {
			s = append(s, Show(e))
		}
		if x.ECMA {
			return "ecma{" + strings.Join(s, ",") + "}"
		}
		return "{" + strings.Join(s, ",") + "}"
	case ref.Arr:
		var s []string
		for _, e := range x {
			s = append(s, Show(e))
		}
		return "[" + strings.Join(s, ",") + "]"
	case string:
		return trunc(x)
	case ref.Bytes:
		return fmt.Sprintf("bytes(%d)", len(x))
	}
	return fmt.Sprint(v)
}
