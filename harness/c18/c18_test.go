package c18

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"testing"
	"time"

	"github.com/nareix/joy5/utils"
	"github.com/nareix/joy5/utils/bits/pio"

	"joyverif/vt"
)

func TestMain(m *testing.M) { vt.Main(m) }

// be is the reference n-byte big-endian two's complement form.
func be(v uint64, n int) []byte {
	var b [8]byte
	binary.BigEndian.PutUint64(b[:], v)
	return b[8-n:]
}

func rev(b []byte) []byte {
	out := make([]byte, len(b))
	for i := range b {
		out[len(b)-1-i] = b[i]
	}
	return out
}

func sext(v uint64, n int) int64 { return int64(v<<(64-8*n)) >> (64 - 8*n) }
func trunc(v uint64, n int) uint64 {
	if n == 8 {
		return v
	}
	return v & (1<<(8*n) - 1)
}

type codec struct {
	name   string
	n      int
	le     bool
	signed bool
	put    func(b []byte, v uint64)
	get    func(b []byte) uint64 // sign-extended when signed
	write  func(b []byte, n *int, v uint64)
	read   func(b []byte, n *int) (uint64, error)
}

var codecs = []codec{
	{name: "U8", n: 1, put: func(b []byte, v uint64) { pio.PutU8(b, uint8(v)) }, get: func(b []byte) uint64 { return uint64(pio.U8(b)) },
		write: func(b []byte, n *int, v uint64) { pio.WriteU8(b, n, uint8(v)) },
		read:  func(b []byte, n *int) (uint64, error) { v, err := pio.ReadU8(b, n); return uint64(v), err }},
	{name: "I16BE", n: 2, signed: true, put: func(b []byte, v uint64) { pio.PutI16BE(b, int16(v)) }, get: func(b []byte) uint64 { return uint64(int64(pio.I16BE(b))) }},
	{name: "U16BE", n: 2, put: func(b []byte, v uint64) { pio.PutU16BE(b, uint16(v)) }, get: func(b []byte) uint64 { return uint64(pio.U16BE(b)) },
		write: func(b []byte, n *int, v uint64) { pio.WriteU16BE(b, n, uint16(v)) },
		read:  func(b []byte, n *int) (uint64, error) { v, err := pio.ReadU16BE(b, n); return uint64(v), err }},
	{name: "I24BE", n: 3, signed: true, put: func(b []byte, v uint64) { pio.PutI24BE(b, int32(v)) }, get: func(b []byte) uint64 { return uint64(int64(pio.I24BE(b))) },
		write: func(b []byte, n *int, v uint64) { pio.WriteI24BE(b, n, int32(v)) },
		read:  func(b []byte, n *int) (uint64, error) { v, err := pio.ReadI24BE(b, n); return uint64(int64(v)), err }},
	{name: "U24BE", n: 3, put: func(b []byte, v uint64) { pio.PutU24BE(b, uint32(v)) }, get: func(b []byte) uint64 { return uint64(pio.U24BE(b)) },
		write: func(b []byte, n *int, v uint64) { pio.WriteU24BE(b, n, uint32(v)) },
		read:  func(b []byte, n *int) (uint64, error) { v, err := pio.ReadU24BE(b, n); return uint64(v), err }},
	{name: "I32BE", n: 4, signed: true, put: func(b []byte, v uint64) { pio.PutI32BE(b, int32(v)) }, get: func(b []byte) uint64 { return uint64(int64(pio.I32BE(b))) },
		write: func(b []byte, n *int, v uint64) { pio.WriteI32BE(b, n, int32(v)) },
		read:  func(b []byte, n *int) (uint64, error) { v, err := pio.ReadI32BE(b, n); return uint64(int64(v)), err }},
	{name: "U32BE", n: 4, put: func(b []byte, v uint64) { pio.PutU32BE(b, uint32(v)) }, get: func(b []byte) uint64 { return uint64(pio.U32BE(b)) },
		write: func(b []byte, n *int, v uint64) { pio.WriteU32BE(b, n, uint32(v)) },
		read:  func(b []byte, n *int) (uint64, error) { v, err := pio.ReadU32BE(b, n); return uint64(v), err }},
	{name: "U32LE", n: 4, le: true, put: func(b []byte, v uint64) { pio.PutU32LE(b, uint32(v)) }, get: func(b []byte) uint64 { return uint64(pio.U32LE(b)) },
		write: func(b []byte, n *int, v uint64) { pio.WriteU32LE(b, n, uint32(v)) }},
	{name: "U40BE", n: 5, put: func(b []byte, v uint64) { pio.PutU40BE(b, v) }, get: pio.U40BE},
	{name: "U48BE", n: 6, put: func(b []byte, v uint64) { pio.PutU48BE(b, v) }, get: pio.U48BE},
	{name: "U64BE", n: 8, put: func(b []byte, v uint64) { pio.PutU64BE(b, v) }, get: pio.U64BE,
		write: func(b []byte, n *int, v uint64) { pio.WriteU64BE(b, n, v) },
		read:  pio.ReadU64BE},
	{name: "I64BE", n: 8, signed: true, put: func(b []byte, v uint64) { pio.PutI64BE(b, int64(v)) }, get: func(b []byte) uint64 { return uint64(pio.I64BE(b)) },
		write: func(b []byte, n *int, v uint64) { pio.WriteI64BE(b, n, int64(v)) },
		read:  func(b []byte, n *int) (uint64, error) { v, err := pio.ReadI64BE(b, n); return uint64(v), err }},
}

func drawVal(t *vt.T, n int) uint64 {
	switch t.Int(0, 2, "vk") {
	case 0:
		return trunc(t.U64("v"), n)
	case 1: // one byte set: every shift counts
		return trunc(uint64(t.Int(1, 255, "b"))<<uint(8*t.Int(0, n-1, "pos")), n)
	default:
		return trunc(vt.Pick(t, "e", uint64(0), 1, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x7fffff, 0x800000, 0xffffff, 0x7fffffff, 0x80000000, 0xffffffff,
			1<<39, 1<<40-1, 1<<47, 1<<48-1, 1<<63-1, 1<<63, 1<<64-1), n)
	}
}

func TestIntegers(t *testing.T) {
	vt.Check(t, 20000, 400000, func(t *vt.T) {
		c := codecs[t.Int(0, len(codecs)-1, "codec")]
		v := drawVal(t, c.n)
		want := be(v, c.n)
		if c.le {
			want = rev(want)
		}
		arg, res := v, v
		if c.signed {
			arg = uint64(sext(v, c.n))
			res = arg
		}
		buf := bytes.Repeat([]byte{0xa5}, c.n+4)
		c.put(buf, arg)
		if !bytes.Equal(buf[:c.n], want) || !bytes.Equal(buf[c.n:], []byte{0xa5, 0xa5, 0xa5, 0xa5}) {
			t.Fatalf("Put%s(%#x) gives %x, want %x", c.name, arg, buf, want)
		}
		if got := c.get(append([]byte(nil), want...)); got != res {
			t.Fatalf("%s(%x) gives %#x, want %#x", c.name, want, got, res)
		}
		if c.write != nil {
			at := t.Int(0, 9, "at")
			n := at
			c.write(nil, &n, arg)
			if n != at+c.n {
				t.Fatalf("sizing Write%s moves the cursor from %d to %d", c.name, at, n)
			}
			buf := bytes.Repeat([]byte{0xa5}, at+c.n+3)
			n = at
			c.write(buf, &n, arg)
			exp := bytes.Repeat([]byte{0xa5}, at+c.n+3)
			copy(exp[at:], want)
			if n != at+c.n || !bytes.Equal(buf, exp) {
				t.Fatalf("Write%s(%#x) at %d gives %x, cursor %d, want %x", c.name, arg, at, buf, n, exp)
			}
		}
		if c.read != nil {
			size := t.Int(0, 20, "size")
			b := vt.Fill(size, t.U64("seed"))
			at := vt.Pick(t, "rat", t.Int(0, 20, "rata"), size, size-c.n, size-c.n+1, size+1, 1<<20)
			if at < 0 {
				at = 0
			}
			if at+c.n <= size {
				copy(b[at:], want)
			}
			n := at
			got, err := c.read(b[:size:size], &n)
			if at+c.n <= size {
				if err != nil || got != res || n != at+c.n {
					t.Fatalf("Read%s at %d of %d gives %#x, %v, cursor %d; want %#x", c.name, at, size, got, err, n, res)
				}
			} else if err == nil || n != at {
				t.Fatalf("Read%s at %d of %d gives %v, cursor %d", c.name, at, size, err, n)
			}
		}
		t.Label(c.name)
		t.Nontrivial(c.name, v)
	})
}

func TestBlocks(t *testing.T) {
	vt.Check(t, 6000, 100000, func(t *vt.T) {
		size := t.Int(0, 40, "size")
		b := vt.Fill(size, t.U64("seed"))
		at := t.Int(0, 45, "at")
		length := vt.Pick(t, "len", t.Int(0, 45, "lena"), size-at, size-at+1, 0, -1, -at, -at-1, math.MinInt64, math.MaxInt64, math.MaxInt64-at, math.MaxInt32)
		ok := length >= 0 && at <= size && length <= size-at
		n := at
		v, err := pio.ReadBytes(b[:size:size], &n, length)
		if ok != (err == nil) || ok && (n != at+length || !bytes.Equal(v, b[at:at+length])) || !ok && n != at {
			t.Fatalf("ReadBytes(%d) at %d of %d gives %x, %v, cursor %d", length, at, size, v, err, n)
		}
		n = at
		s, err := pio.ReadString(b[:size:size], &n, length)
		if ok != (err == nil) || ok && (n != at+length || s != string(b[at:at+length])) || !ok && n != at {
			t.Fatalf("ReadString(%d) at %d of %d gives %x, %v, cursor %d", length, at, size, s, err, n)
		}
		p := t.RawBytes(30, "p")
		for i := 0; i < 2; i++ {
			w := func(b []byte, n *int) {
				if i == 0 {
					pio.WriteBytes(b, n, p)
				} else {
					pio.WriteString(b, n, string(p))
				}
			}
			n = at
			w(nil, &n)
			if n != at+len(p) {
				t.Fatalf("sizing write moves the cursor from %d to %d", at, n)
			}
			buf := bytes.Repeat([]byte{0xa5}, at+len(p)+2)
			exp := bytes.Repeat([]byte{0xa5}, at+len(p)+2)
			copy(exp[at:], p)
			n = at
			w(buf, &n)
			if n != at+len(p) || !bytes.Equal(buf, exp) {
				t.Fatalf("write %d of %x gives %x, cursor %d", i, p, buf, n)
			}
		}
		t.Nontrivial("block", size, at, length)
	})
}

func TestVec(t *testing.T) {
	vt.Check(t, 10000, 200000, func(t *vt.T) {
		var in [][]byte
		var all []byte
		for i, n := 0, t.Int(0, 8, "n"); i < n; i++ {
			p := vt.Fill(vt.Pick(t, "len", 0, 1, 2, t.Int(0, 30, "lena")), t.U64("seed"))
			in = append(in, p)
			all = append(all, p...)
		}
		if pio.VecLen(in) != len(all) {
			t.Fatalf("VecLen gives %d, want %d", pio.VecLen(in), len(all))
		}
		edge := []int{-2, -1, 0, len(all), len(all) + 1, t.Int(0, len(all), "mid")}
		pos := 0
		for _, p := range in {
			pos += len(p)
			edge = append(edge, pos)
		}
		s, e := vt.Pick(t, "s", edge...), vt.Pick(t, "e", edge...)
		if t.Bool("any") {
			s, e = t.Int(-3, len(all)+3, "sa"), t.Int(-3, len(all)+3, "ea")
		}
		out := make([][]byte, len(in)+1)
		n, refused := 0, false
		func() {
			defer func() {
				if recover() != nil {
					refused = true
				}
			}()
			n = pio.VecSliceTo(in, out, s, e)
		}()
		cs, ce := s, e
		if cs < 0 {
			cs = 0
		}
		if ce < 0 {
			ce = len(all) // negative end: to the end
		}
		valid := cs <= len(all) && ce <= len(all) && cs <= ce
		if refused == valid {
			t.Fatalf("slice %d:%d of %d bytes: refused %v", s, e, len(all), refused)
		}
		if !valid {
			t.Label("refused")
			return
		}
		var got []byte
		for i := 0; i < n; i++ {
			if len(out[i]) > 0 && !within(in, out[i]) {
				t.Fatalf("slice %d:%d: part %d is a copy", s, e, i)
			}
			got = append(got, out[i]...)
		}
		if !bytes.Equal(got, all[cs:ce]) {
			t.Fatalf("slice %d:%d of %v gives %x, want %x", s, e, lens(in), got, all[cs:ce])
		}
		if len(in) > 1 {
			t.Nontrivial("vec", fmt.Sprint(lens(in)), s, e)
		}
		t.Sample("%v[%d:%d] in %d parts", lens(in), s, e, n)
	})
}

func within(in [][]byte, p []byte) bool {
	for _, b := range in {
		for i := range b {
			if &b[i] == &p[0] && i+len(p) <= len(b) {
				return true
			}
		}
	}
	return false
}

func lens(in [][]byte) (l []int) {
	for _, b := range in {
		l = append(l, len(b))
	}
	return
}

func TestTime(t *testing.T) {
	vt.Check(t, 6000, 60000, func(t *vt.T) {
		var tm time.Time
		switch t.Int(0, 3, "kind") {
		case 0:
		case 1:
			tm = time.Unix(0, t.I64(math.MinInt64, math.MaxInt64, "ns"))
		case 2:
			tm = time.Unix(t.I64(-5000000000, 5000000000, "sec"), vt.Pick(t, "nsec", int64(0), 1, 999999999, 500000000)).UTC()
		default:
			tm = time.Unix(0, vt.Pick(t, "e", int64(1), -1, 999999999, 1000000000, -999999999, -1000000000, -1000000001, math.MaxInt64, math.MinInt64))
		}
		if !tm.IsZero() && tm.UnixNano() == 0 {
			return // the epoch itself stands for no time
		}
		var p int64
		if !utils.AtomicLoadTime(&p).IsZero() {
			t.Fatalf("a variable never stored is not the zero time")
		}
		p = t.I64(math.MinInt64, math.MaxInt64, "old")
		utils.AtomicStoreTime(&p, tm)
		got := utils.AtomicLoadTime(&p)
		if !got.Equal(tm) || got.IsZero() != tm.IsZero() {
			t.Fatalf("stored %v, loaded %v", tm, got)
		}
		b := bytes.Repeat([]byte{0xa5}, 9)
		pio.PutTime64(b, tm)
		if got := pio.Time64(b[:8]); !got.Equal(tm) || got.IsZero() != tm.IsZero() || b[8] != 0xa5 {
			t.Fatalf("written %v, read %v", tm, got)
		}
		t.Nontrivial("time", tm.String())
	})
}
