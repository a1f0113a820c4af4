package c06

import (
	"fmt"
	"runtime/debug"
	"testing"
	"time"

	"github.com/nareix/joy5/format/flv/flvio"

	"joyverif/gen"
	"joyverif/ref"
	"joyverif/vt"
)

func TestMain(m *testing.M) { vt.Main(m) }

func tryAll(t *vt.T, b []byte) {
	t.Save(b)
	start := 0
	if len(b) > 0 {
		start = t.Int(0, min(len(b), 3), "start")
	}
	for mode := 0; mode < 4; mode++ {
		var n int
		bad := vt.Guard(64<<20+uint64(len(b))*3000, 20*time.Second, 90*time.Second, func() {
			switch mode {
			case 0:
				n = start
				flvio.ParseAMF0Val(b, &n)
			case 1:
				n = start
				flvio.ParseAMF3Val(b, &n)
			case 2:
				flvio.ParseAMFVals(b, false)
			case 3:
				flvio.ParseAMFVals(b, true)
			}
		})
		if bad != "" {
			t.Fatalf("mode %d: %s\non %s", mode, bad, gen.Hex(b))
		}
		if n > len(b) || (mode < 2 && n < start) {
			t.Fatalf("mode %d: cursor at %d in %d bytes", mode, n, len(b))
		}
	}
}

func encode(t *vt.T) []byte {
	var b []byte
	if t.Bool("amf3") {
		for i, n := 0, t.Int(1, 3, "n"); i < n; i++ {
			b = ref.AMF3(b, gen.AMF3(t, 3, true, "v"))
		}
	} else {
		for i, n := 0, t.Int(1, 3, "n"); i < n; i++ {
			b = ref.AMF0(b, gen.AMF0(t, 3, "v"))
		}
	}
	return b
}

func TestArbitraryBytes(t *testing.T) {
	vt.Check(t, 15000, 400000, func(t *vt.T) {
		var b []byte
		switch t.Int(0, 4, "kind") {
		case 0:
			b = t.RawBytes(200, "raw")
		case 1: // marker soup
			n := t.Int(1, 60, "n")
			for i := 0; i < n; i++ {
				b = append(b, byte(t.Int(0, 18, "m")))
			}
		default:
			b = gen.Mutate(t, encode(t), "m")
		}
		tryAll(t, b)
		if len(b) > 4 {
			t.Nontrivial(b)
			t.Sample("%s", gen.Hex(b))
		}
	})
}

// Forged counts and lengths, deep nesting, huge objects.
func TestBombs(t *testing.T) {
	// a message of 16 MB, the largest there is, is not worth more stack
	defer debug.SetMaxStack(debug.SetMaxStack(128 << 20))
	vt.Check(t, 120, 1200, func(t *vt.T) {
		var b []byte
		size := vt.Pick(t, "size", 10, 1000, 5000, 100000, 1<<20, 4<<20, 16<<20-100)
		rep := func(p ...byte) {
			for len(b) < size {
				b = append(b, p...)
			}
		}
		count := vt.Pick(t, "count", uint32(1), 2, 0x10000, uint32(size), uint32(size)-10, uint32(size)+10, 0x7fffffff, 0x80000000, 0xffffffff)
		c := []byte{byte(count >> 24), byte(count >> 16), byte(count >> 8), byte(count)}
		kind := t.Int(0, 12, "kind")
		switch kind {
		case 0:
			rep(10, 0, 0, 0, 1)
		case 1:
			rep(append([]byte{10}, c...)...)
		case 2:
			rep(3, 0, 1, 'a')
		case 3:
			rep(append(append([]byte{8}, c...), 0, 1, 'a')...)
		case 4: // AMF3 nested arrays by key
			rep(9, 1, 3, 'a')
		case 5: // AMF3 nested dense arrays
			rep(9, 3, 1)
		case 6: // AMF3 nested dynamic objects
			rep(10, 0x0b, 1, 3, 'a')
		case 7: // AMF3 nested sealed objects
			rep(10, 0x13, 1, 3, 'a')
		case 8: // AMF3 object announcing many members
			b = ref.U29([]byte{10}, 0x1ffffff3)
			b = append(b, 1)
			rep(3, 'a')
		case 9: // AMF3 array announcing many elements
			b = ref.U29([]byte{9}, 0x1fffffff)
			b = append(b, 1)
			rep(1)
		case 10: // long string announcing too much
			b = append(append([]byte{12}, c...), vt.Fill(min(size, 1000), 1)...)
		case 11, 12: // object with very many distinct keys
			n := size / 8
			if kind == 11 {
				b = append(b, 3)
				for i := 0; i < n; i++ {
					b = append(b, 0, 4, byte('a'+i>>18&63), byte(33+i>>12&63), byte(33+i>>6&63), byte(33+i&63), 5)
				}
				b = append(b, 0, 0, 9)
			} else {
				b = append(b, 9, 1)
				for i := 0; i < n; i++ {
					b = append(b, 9, byte('a'+i>>18&63), byte(33+i>>12&63), byte(33+i>>6&63), byte(33+i&63), 1)
				}
				b = append(b, 1)
			}
		}
		tryAll(t, b)
		t.Label(fmt.Sprintf("bomb kind %d", kind))
		t.Nontrivial(kind, size, count)
	})
}

// Every proper prefix of one value is incomplete.
func TestTruncation(t *testing.T) {
	vt.Check(t, 2500, 30000, func(t *vt.T) {
		amf3 := t.Bool("amf3")
		var b []byte
		if amf3 {
			b = ref.AMF3(nil, gen.AMF3(t, 3, true, "v"))
		} else {
			b = ref.AMF0(nil, gen.AMF0(t, 3, "v"))
		}
		for _, cut := range gen.Cuts(t, len(b)-1, nil, 500, "cut") {
			n := 0
			var v interface{}
			var err error
			p := append([]byte(nil), b[:cut]...)
			if amf3 {
				v, err = flvio.ParseAMF3Val(p, &n)
			} else {
				v, err = flvio.ParseAMF0Val(p, &n)
			}
			if err == nil {
				t.Fatalf("the first %d of %d bytes of %s decode to %v", cut, len(b), gen.Hex(b), v)
			}
			if n > cut {
				t.Fatalf("cursor %d beyond %d", n, cut)
			}
			if err.Error() == "" {
				t.Fatalf("empty error")
			}
		}
		if len(b) > 8 {
			t.Nontrivial(amf3, b)
		}
	})
}
