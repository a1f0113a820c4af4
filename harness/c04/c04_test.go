package c04

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"testing"
	"time"

	"github.com/nareix/joy5/format/flv/flvio"
	"pgregory.net/rapid"

	"joyverif/gen"
	"joyverif/ref"
	"joyverif/vt"
)

func TestMain(m *testing.M) { vt.Main(m) }

func deep(t *vt.T) interface{} {
	n := t.Int(1, 40, "deep")
	if t.OneIn(4, "deeper") {
		n = t.Int(41, 200, "deepn")
	}
	var v interface{} = gen.Num(t, "leaf")
	for i := 0; i < n; i++ {
		switch t.Int(0, 2, "wrap") {
		case 0:
			v = &ref.Obj{KVs: []ref.KV{{K: "a", V: v}, {K: "z", V: true}}}
		case 1:
			v = &ref.Obj{ECMA: true, Count: 1, KVs: []ref.KV{{K: "b", V: v}}}
		default:
			v = ref.Arr{nil, v, "s"}
		}
	}
	return v
}

// Encode with the library, compare with the reference bytes, decode again.
func TestRoundTrip(t *testing.T) {
	vt.Check(t, 8000, 120000, func(t *vt.T) {
		n := t.Int(1, 4, "n")
		var vs []interface{}
		var want []byte
		var lib []interface{}
		for i := 0; i < n; i++ {
			var v interface{}
			if t.OneIn(20, "isdeep") {
				v = deep(t)
			} else {
				v = gen.AMF0(t, 3, "v")
			}
			vs = append(vs, v)
			want = ref.AMF0(want, v)
			lib = append(lib, gen.ToLib(v))
		}
		announced := flvio.FillAMF0Vals(nil, lib)
		// a buffer larger than needed must not be written beyond the length
		buf := bytes.Repeat([]byte{0xa5}, announced+16)
		wrote := flvio.FillAMF0Vals(buf, lib)
		if wrote != announced || announced != len(want) {
			t.Fatalf("announced %d, wrote %d, want %d bytes for %s", announced, wrote, len(want), gen.Show(ref.Arr(vs)))
		}
		if !bytes.Equal(buf[announced:], bytes.Repeat([]byte{0xa5}, 16)) {
			t.Fatalf("wrote beyond the announced length")
		}
		if !bytes.Equal(buf[:announced], want) {
			t.Fatalf("encoding of %s\n got %s\nwant %s", gen.Show(ref.Arr(vs)), gen.Hex(buf[:announced]), gen.Hex(want))
		}
		if m := flvio.FillAMF0ValsMalloc(lib); !bytes.Equal(m, want) {
			t.Fatalf("allocating encoder differs")
		}
		one := 0
		for i, v := range lib {
			e := flvio.FillAMF0ValMalloc(v)
			if !bytes.Equal(e, want[one:one+len(e)]) {
				t.Fatalf("single-value encoder differs for value %d", i)
			}
			one += len(e)
		}
		p := 0
		for i, v := range vs {
			q := p
			got, err := flvio.ParseAMF0Val(buf[:announced], &q)
			if err != nil {
				t.Fatalf("value %d of %s: %v", i, gen.Show(ref.Arr(vs)), err)
			}
			if s := gen.Same(v, got); s != "" {
				t.Fatalf("value %d of %s: %s", i, gen.Show(ref.Arr(vs)), s)
			}
			if e := p + len(ref.AMF0(nil, v)); q != e {
				t.Fatalf("value %d: cursor at %d, want %d", i, q, e)
			}
			p = q
		}
		all, err := flvio.ParseAMFVals(want, false)
		if err != nil || len(all) != n {
			t.Fatalf("message of %d values: %d, %v", n, len(all), err)
		}
		for i := range all {
			if s := gen.Same(vs[i], all[i]); s != "" {
				t.Fatalf("message value %d: %s", i, s)
			}
		}
		// re-encoding what was decoded gives the bytes again (ECMA arrays come
		// back as objects)
		hasEcma := bytes.IndexByte(want, 8) >= 0
		if !hasEcma {
			if m := flvio.FillAMF0ValsMalloc(all); !bytes.Equal(m, want) {
				t.Fatalf("re-encoding differs for %s", gen.Show(ref.Arr(vs)))
			}
		}
		t.LabelIf(len(want) > 65536, "above 64 KiB")
		if len(want) > 12 {
			t.Nontrivial(want)
			t.Sample("%s -> %d bytes", gen.Show(ref.Arr(vs)), len(want))
		}
	})
}

// Forms only other encoders produce.
func TestForeignForms(t *testing.T) {
	vt.Check(t, 2000, 20000, func(t *vt.T) {
		var rw func(v interface{}) interface{}
		rw = func(v interface{}) interface{} {
			switch x := v.(type) {
			case string:
				if t.Bool("long") {
					return ref.LongStr(x)
				}
			case nil:
				if t.Bool("undef") {
					return ref.Undefined{}
				}
			case bool:
				if x && t.Bool("anytrue") { // everything but zero is true
					return ref.True(t.Int(1, 255, "trueb"))
				}
			case *ref.Obj:
				o := &ref.Obj{ECMA: x.ECMA || t.Bool("ecma"), Count: t.U32("count")}
				for _, kv := range x.KVs {
					o.KVs = append(o.KVs, ref.KV{K: kv.K, V: rw(kv.V)})
				}
				return o
			case ref.Arr:
				a := ref.Arr{}
				for _, e := range x {
					a = append(a, rw(e))
				}
				return a
			}
			return v
		}
		v := rw(gen.AMF0(t, 3, "v"))
		tail := t.RawBytes(5, "tail")
		b := ref.AMF0(nil, v)
		n := 0
		got, err := flvio.ParseAMF0Val(append(append([]byte(nil), b...), tail...), &n)
		if err != nil {
			t.Fatalf("%s: %v", gen.Show(v), err)
		}
		if n != len(b) {
			t.Fatalf("%s: cursor %d, want %d", gen.Show(v), n, len(b))
		}
		if s := gen.Same(v, got); s != "" {
			t.Fatalf("%s: %s", gen.Show(v), s)
		}
		if len(b) > 12 {
			t.Nontrivial(b)
		}
	})
}

type strange struct{ A int }

// Values without AMF0 form inside a container, and every integer kind.
func TestKinds(t *testing.T) {
	vt.Check(t, 2000, 20000, func(t *vt.T) {
		x := t.U64("x")
		type nv struct {
			v interface{}
			f float64
		}
		f32 := math.Float32frombits(uint32(x))
		if f32 != f32 {
			f32 = 1.5
		}
		nums := []nv{{int8(x), float64(int8(x))}, {int16(x), float64(int16(x))}, {int32(x), float64(int32(x))}, {int64(x), float64(int64(x))}, {int(x), float64(int(x))},
			{uint8(x), float64(uint8(x))}, {uint16(x), float64(uint16(x))}, {uint32(x), float64(uint32(x))}, {x, float64(x)}, {uint(x), float64(uint(x))}, {f32, float64(f32)}}
		k := nums[t.Int(0, len(nums)-1, "kind")]
		if b := flvio.FillAMF0ValMalloc(k.v); !bytes.Equal(b, ref.AMF0(nil, k.f)) {
			t.Fatalf("%T %v encodes as %x", k.v, k.v, b)
		}
		odd := vt.Pick[interface{}](t, "odd", interface{}([]byte{1, 2, 3}), []interface{}{1.0}, map[string]interface{}{"a": 1}, strange{1}, &strange{2}, complex(1, 2), []string{"x"}, []byte(nil), time.Duration(3), json.Number("3"))
		before, after := gen.AMF0(t, 1, "b"), gen.AMF0(t, 1, "a")
		mk := vt.Pick(t, "container", 0, 1, 2)
		var c interface{}
		switch mk {
		case 0:
			c = flvio.AMFMap{{K: "b", V: gen.ToLib(before)}, {K: "odd", V: odd}, {K: "a", V: gen.ToLib(after)}}
		case 1:
			c = flvio.AMFECMAArray{{K: "b", V: gen.ToLib(before)}, {K: "odd", V: odd}, {K: "a", V: gen.ToLib(after)}}
		default:
			c = flvio.AMFArray{gen.ToLib(before), odd, gen.ToLib(after)}
		}
		b := flvio.FillAMF0ValsMalloc([]interface{}{c, "end"})
		got, err := flvio.ParseAMFVals(b, false)
		if err != nil || len(got) != 2 || got[1] != "end" {
			t.Fatalf("container with a %T: decoded to %v, %v", odd, got, err)
		}
		var gb, ga interface{}
		if m, ok := got[0].(flvio.AMFMap); ok && mk < 2 && len(m) <= 3 {
			gb, _ = m.GetV("b")
			ga, _ = m.GetV("a")
		} else if a, ok := got[0].(flvio.AMFArray); ok && mk == 2 && len(a) == 3 {
			gb, ga = a[0], a[2]
		} else {
			t.Fatalf("container with a %T decoded to %v", odd, got[0])
		}
		if s := gen.Same(before, gb) + gen.Same(after, ga); s != "" {
			t.Fatalf("neighbours of a %T: %s", odd, s)
		}
		t.Nontrivial(fmt.Sprintf("%T", k.v), x, fmt.Sprintf("%T", odd), b)
	})
}

// Keys without AMF0 form, longer than its 16-bit length.
func TestLongKeys(t *testing.T) {
	vt.Check(t, 60, 1000, func(t *vt.T) {
		n := vt.Pick(t, "klen", 65536, 65537, 65536+t.Int(0, 70000, "more"), 131072, 65536+255)
		k := string(vt.Fill(n, t.U64("key")))
		before, odd, after := gen.AMF0(t, 1, "b"), gen.AMF0(t, 1, "o"), gen.AMF0(t, 1, "a")
		m := flvio.AMFMap{{K: "b", V: gen.ToLib(before)}, {K: k, V: gen.ToLib(odd)}, {K: "a", V: gen.ToLib(after)}}
		var c interface{} = m
		if t.Bool("ecma") {
			c = flvio.AMFECMAArray(m)
		}
		if t.Bool("inner") {
			c = flvio.AMFArray{c, 1.0}
		}
		b := flvio.FillAMF0ValsMalloc([]interface{}{c, "end"})
		got, err := flvio.ParseAMFVals(b, false)
		if err != nil || len(got) != 2 || got[1] != "end" {
			t.Fatalf("object with a key of %d bytes: decoded to %d values, %v", n, len(got), err)
		}
		g := got[0]
		if a, ok := g.(flvio.AMFArray); ok && len(a) == 2 {
			g = a[0]
		}
		o, ok := g.(flvio.AMFMap)
		if !ok || len(o) > 3 {
			t.Fatalf("object with a key of %d bytes: decoded to %T", n, g)
		}
		gb, _ := o.GetV("b")
		ga, _ := o.GetV("a")
		if s := gen.Same(before, gb) + gen.Same(after, ga); s != "" {
			t.Fatalf("neighbours of a key of %d bytes: %s", n, s)
		}
		t.Nontrivial(b)
	})
}

// Values larger than the usual: strings beyond 2^16, 2^20 and 2^24 bytes,
// arrays and objects with many elements, keys that come again.
func TestLarge(t *testing.T) {
	vt.Check(t, 24, 400, func(t *vt.T) {
		var v interface{}
		size := 0
		leaf := func(i int) interface{} {
			switch i % 4 {
			case 0:
				return float64(i)
			case 1:
				return i&4 == 0
			case 2:
				return fmt.Sprint(i)
			}
			return nil
		}
		kind := t.Int(0, 3, "kind")
		switch kind {
		case 0:
			size = vt.Pick(t, "strlen", 65536, 1<<17, 1<<20-1, 1<<20, 1<<20+1, 1<<24-1, 1<<24, 1<<24+1, 1<<24+t.Int(0, 1<<20, "more"), 1<<20+t.Int(0, 1<<22, "mid"))
			v = string(vt.Fill(size, t.U64("str")))
		case 1:
			size = vt.Pick(t, "arrlen", 255, 256, 257, 65535, 65536, 65537, t.Int(1000, 200000, "n"))
			a := ref.Arr{}
			for i := 0; i < size; i++ {
				a = append(a, leaf(i))
			}
			v = a
		default:
			size = vt.Pick(t, "keys", 63, 64, 65, 66, 128, 1000, t.Int(10, 300, "n"))
			o := &ref.Obj{ECMA: kind == 3}
			for i := 0; i < size; i++ {
				o.KVs = append(o.KVs, ref.KV{K: fmt.Sprintf("k%d", i), V: leaf(i)})
			}
			o.Count = uint32(size)
			v = o
		}
		tail := gen.AMF0(t, 1, "tail")
		b := ref.AMF0(ref.AMF0(nil, v), tail)
		lib := []interface{}{gen.ToLib(v), gen.ToLib(tail)}
		if m := flvio.FillAMF0ValsMalloc(lib); !bytes.Equal(m, b) {
			t.Fatalf("kind %d of %d: %d bytes, want %d, or other bytes", kind, size, len(m), len(b))
		}
		check := func(b []byte, want interface{}) {
			got, err := flvio.ParseAMFVals(b, false)
			if err != nil || len(got) != 2 {
				t.Fatalf("kind %d of %d: %d values, %v", kind, size, len(got), err)
			}
			if s := gen.Same(want, got[0]); s != "" {
				t.Fatalf("kind %d of %d: %s", kind, size, s)
			}
			if s := gen.Same(tail, got[1]); s != "" {
				t.Fatalf("after kind %d of %d: %s", kind, size, s)
			}
		}
		check(b, v)
		if o, ok := v.(*ref.Obj); ok { // some keys come again
			w := &ref.Obj{ECMA: o.ECMA, KVs: append([]ref.KV(nil), o.KVs...)}
			x := &ref.Obj{KVs: append([]ref.KV(nil), o.KVs...)}
			for j := t.Int(1, 6, "again"); j > 0; j-- {
				i := t.Int(0, len(x.KVs)-1, "which")
				if t.OneIn(3, "new") {
					k := ref.KV{K: fmt.Sprintf("n%d", j), V: float64(j)}
					w.KVs, x.KVs = append(w.KVs, k), append(x.KVs, k)
					i = len(x.KVs) - 1
				}
				nv := gen.AMF0(t, 0, "nv")
				w.KVs = append(w.KVs, ref.KV{K: x.KVs[i].K, V: nv})
				x.KVs[i].V = nv
			}
			check(ref.AMF0(ref.AMF0(nil, w), tail), x)
			t.Label("keys that come again")
		}
		t.Label([]string{"long string", "long array", "many keys", "many keys, ECMA"}[kind])
		t.Nontrivial(kind, size, b[len(b)-min(len(b), 64):])
	})
}

// The ordered map against a slice model, over operation histories.
func TestMapModel(t *testing.T) {
	vt.Check(t, 3000, 40000, func(t *vt.T) {
		m := flvio.AMFMap{}
		if t.Bool("nil") {
			m = nil
		}
		type kv struct {
			k string
			v interface{}
		}
		var model []kv
		find := func(k string) int {
			for i := range model {
				if model[i].k == k {
					return i
				}
			}
			return -1
		}
		names := []string{"a", "b", "c", "", "dd", "é", "a\"b", "x\ny", "1", "A", "\x01\a", "\u200b", "\U0010ffff", "\\u0041"}
		var ops []string
		check := func() {
			if len(m) != len(model) {
				t.Fatalf("%v: %d entries, want %d", ops, len(m), len(model))
			}
			for i := range m {
				if m[i].K != model[i].k || m[i].V != model[i].v {
					t.Fatalf("%v: entry %d is %v, want %v", ops, i, m[i], model[i])
				}
			}
			for _, k := range names {
				i := find(k)
				v, ok := m.GetV(k)
				g := m.Get(k)
				if ok != (i >= 0) || (g != nil) != ok {
					t.Fatalf("%v: lookup of %q: %v", ops, k, ok)
				}
				s, sok := m.GetString(k)
				b, bok := m.GetBool(k)
				f, fok := m.GetFloat64(k)
				if !ok {
					if sok || bok || fok {
						t.Fatalf("%v: typed lookup of missing %q succeeded", ops, k)
					}
					continue
				}
				if v != model[i].v || g.V != v || g.K != k {
					t.Fatalf("%v: %q is %v, want %v", ops, k, v, model[i].v)
				}
				ws, wsok := v.(string)
				wb, wbok := v.(bool)
				wf, wfok := v.(float64)
				if s != ws || sok != wsok || b != wb || bok != wbok || f != wf || fok != wfok {
					t.Fatalf("%v: typed lookup of %q (%v)", ops, k, v)
				}
			}
		}
		n := t.Int(0, 14, "n")
		dels, reps := 0, 0
		if t.OneIn(4, "literal") { // may have a key several times
			for j := t.Int(1, 6, "nlit"); j > 0; j-- {
				k := rapid.SampledFrom(names).Draw(t.T, "lk")
				m = append(m, flvio.AMFKv{K: k, V: float64(j)})
				model = append(model, kv{k, float64(j)})
			}
			ops = append(ops, fmt.Sprint("literal ", m))
			check()
		}
		for i := 0; i < n; i++ {
			k := rapid.SampledFrom(names).Draw(t.T, "k")
			if t.OneIn(4, "del") {
				m = m.Del(k)
				for j := find(k); j >= 0; j = find(k) {
					model = append(model[:j:j], model[j+1:]...)
					dels++
				}
				ops = append(ops, "del "+k)
			} else {
				v := vt.Pick(t, "v", interface{}("s"), "", true, false, 1.0, 0.0, nil, -2.5, "é\u2028<&>")
				m = m.Set(k, v)
				if j := find(k); j >= 0 {
					model[j].v = v
					reps++
				} else {
					model = append(model, kv{k, v})
				}
				ops = append(ops, fmt.Sprintf("set %s=%v", k, v))
			}
			check()
		}
		check()
		js, err := json.Marshal(m)
		if err != nil {
			t.Fatalf("%v: json: %v", ops, err)
		}
		dec := json.NewDecoder(bytes.NewReader(js))
		tok, err := dec.Token()
		if err != nil || tok != json.Delim('{') {
			t.Fatalf("json %s", js)
		}
		for i := 0; dec.More(); i++ {
			k, err := dec.Token()
			if err != nil || i >= len(model) || k != model[i].k {
				t.Fatalf("json %s: key %d is %v (%v)", js, i, k, err)
			}
			var v interface{}
			if err := dec.Decode(&v); err != nil || v != model[i].v {
				t.Fatalf("json %s: value of %q is %v (%v)", js, k, v, err)
			}
		}
		distinct := 0
		for i := range model {
			if find(model[i].k) == i {
				distinct++
			}
		}
		var generic map[string]interface{}
		if err := json.Unmarshal(js, &generic); err != nil || len(generic) != distinct {
			t.Fatalf("json %s: %v, %d keys, want %d", js, err, len(generic), len(model))
		}
		t.LabelIf(dels > 0, "deletion of a present key")
		t.LabelIf(reps > 0, "replacement")
		if dels > 0 && reps > 0 {
			t.Nontrivial(fmt.Sprint(ops))
			t.Sample("%v", ops)
		}
	})
}
