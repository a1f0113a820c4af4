package c05

import (
	"fmt"
	"testing"

	"github.com/nareix/joy5/format/flv/flvio"

	"joyverif/gen"
	"joyverif/ref"
	"joyverif/vt"
)

func TestMain(m *testing.M) { vt.Main(m) }

func big3(t *vt.T) string {
	return string(vt.Fill(vt.Pick(t, "biglen", 63, 64, 8191, 8192, 65535, 65536, 1048575, 1048576), t.U64("bigs")))
}

// AMF3 values encoded by the reference, decoded by the library.
func TestDecode(t *testing.T) {
	vt.Check(t, 10000, 200000, func(t *vt.T) {
		n := t.Int(1, 4, "n")
		var vs []interface{}
		var b []byte
		var ends []int
		for i := 0; i < n; i++ {
			var v interface{}
			switch {
			case t.OneIn(60, "many"):
				o := &ref.Obj{ECMA: t.Bool("manyarr"), Dynamic: true}
				nk := vt.Pick(t, "keys", 63, 64, 65, 66, 200, 1000)
				for j := 0; j < nk; j++ {
					o.KVs = append(o.KVs, ref.KV{K: fmt.Sprintf("k%d", j), V: ref.Int(j)})
				}
				if o.ECMA {
					o.Dynamic = false
					for j := vt.Pick(t, "dense", 0, 1, 63, 64, 65, 300, 70000); j > 0; j-- {
						o.Dense = append(o.Dense, j&1 == 0)
					}
				} else if t.Bool("sealed") {
					o.Sealed = t.Int(0, nk, "nsealed")
				}
				v = o
			case t.OneIn(30, "big"):
				v = vt.Pick[interface{}](t, "bigkind", big3(t), ref.Bytes(big3(t)), &ref.Obj{Dynamic: true, KVs: []ref.KV{{K: big3(t), V: ref.Int(3)}}})
			default:
				v = gen.AMF3(t, 3, true, "v")
			}
			vs = append(vs, v)
			b = ref.AMF3(b, v)
			ends = append(ends, len(b))
		}
		p := 0
		for i, v := range vs {
			got, err := flvio.ParseAMF3Val(b, &p)
			if err != nil {
				t.Fatalf("value %d of %s: %v", i, gen.Show(ref.Arr(vs)), err)
			}
			if s := gen.Same(v, got); s != "" {
				t.Fatalf("value %d of %s: %s", i, gen.Show(ref.Arr(vs)), s)
			}
			if p != ends[i] {
				t.Fatalf("value %d of %s: cursor at %d, want %d", i, gen.Show(ref.Arr(vs)), p, ends[i])
			}
		}
		if b[0] != 0 {
			all, err := flvio.ParseAMFVals(b, true)
			if err != nil || len(all) != n {
				t.Fatalf("message %s: %d values, %v", gen.Show(ref.Arr(vs)), len(all), err)
			}
			for i := range all {
				if s := gen.Same(vs[i], all[i]); s != "" {
					t.Fatalf("message value %d: %s", i, s)
				}
			}
		}
		if len(b) > 8 {
			t.Nontrivial(b)
			t.Sample("%s", gen.Show(ref.Arr(vs)))
		}
	})
}

// An AMF3 message may hold AMF0 values behind a zero format byte.
func TestFormatByte(t *testing.T) {
	vt.Check(t, 2000, 20000, func(t *vt.T) {
		var vs []interface{}
		b := []byte{0}
		for i, n := 0, t.Int(0, 4, "n"); i < n; i++ {
			v := gen.AMF0(t, 2, "v")
			vs = append(vs, v)
			b = ref.AMF0(b, v)
		}
		all, err := flvio.ParseAMFVals(b, true)
		if err != nil || len(all) != len(vs) {
			t.Fatalf("%s: %d values, %v", gen.Show(ref.Arr(vs)), len(all), err)
		}
		for i := range all {
			if s := gen.Same(vs[i], all[i]); s != "" {
				t.Fatalf("value %d: %s", i, s)
			}
		}
		if len(vs) > 1 {
			t.Nontrivial(b)
		}
	})
}

// Encodings by reference (string, object, traits): the right value or a
// refusal, never another value, and the neighbours are not disturbed.
func TestReferences(t *testing.T) {
	vt.Check(t, 2000, 20000, func(t *vt.T) {
		s := gen.Key(t, "s")
		if len(s) > 1000 {
			s = s[:1000]
		}
		obj := &ref.Obj{Dynamic: true, KVs: []ref.KV{{K: "k", V: s}}}
		str := func(b []byte, s string) []byte { return append(ref.U29(b, len(s)<<1|1), s...) }
		// an object {p: first, q: <reference>}
		b := append([]byte{10}, 0x0b, 1)
		first := vt.Pick[interface{}](t, "first", s, obj, ref.Bytes(s))
		b = ref.AMF3(str(b, "p"), first)
		b = str(b, "q")
		var want interface{}
		switch first.(type) {
		case string: // string table: "p", s, "q" -> index of s is 1
			b = append(b, 6)
			b = ref.U29(b, 1<<1)
			want = s
		case *ref.Obj: // object table: outer 0, inner 1
			b = append(b, 10)
			b = ref.U29(b, 1<<1)
			want = first
		default:
			b = append(b, 12)
			b = ref.U29(b, 1<<1)
			want = first
		}
		b = append(b, 1) // end of dynamic members
		n := 0
		got, err := flvio.ParseAMF3Val(b, &n)
		if err == nil {
			full := &ref.Obj{KVs: []ref.KV{{K: "p", V: first}, {K: "q", V: want}}}
			if d := gen.Same(full, got); d != "" || n != len(b) {
				t.Fatalf("reference decoded to another value: %s (cursor %d of %d)", d, n, len(b))
			}
			t.Label("reference resolved")
		} else {
			t.Label("reference refused")
		}
		t.Nontrivial(b)
	})
}

// A reference to nothing is refused, whatever bytes follow it.
func TestReferenceToNothing(t *testing.T) {
	vt.Check(t, 2000, 20000, func(t *vt.T) {
		marker := vt.Pick[byte](t, "marker", 6, 7, 8, 9, 10, 11, 12)
		b := ref.U29([]byte{marker}, t.Int(0, 1<<uint(t.Int(1, 27, "refbits"))-1, "ref")<<1)
		switch t.Int(0, 2, "rest") {
		case 0:
			b = append(b, t.RawBytes(30, "bytes")...)
		case 1:
			b = append(b, make([]byte, t.Int(0, 30, "zeros"))...)
		default:
			b = ref.AMF3(append(b, 1), gen.Key(t, "next"))
		}
		n := 0
		got, err := flvio.ParseAMF3Val(b, &n)
		if err == nil {
			t.Fatalf("%x: a reference to nothing decoded to %s", b, gen.Show(got))
		}
		t.Label(fmt.Sprintf("marker %d", marker))
		t.Nontrivial(b)
	})
}
