package c17

import (
	"bytes"
	"fmt"
	"io"
	"testing"

	"github.com/nareix/joy5/utils/bits"

	"joyverif/ref"
	"joyverif/vt"
)

func TestMain(m *testing.M) { vt.Main(m) }

type field struct {
	n   int
	v   uint64
	raw []byte
}

func drawFields(t *vt.T) (fs []field, w *ref.BitBuf) {
	w = &ref.BitBuf{}
	n := t.Int(1, 24, "n")
	for i := 0; i < n; i++ {
		var f field
		if t.OneIn(6, "raw") {
			l := vt.Pick(t, "rl", 0, 1, 7, 8, 9, 15, 16, 17, t.Int(0, 40, "rla"))
			if t.OneIn(12, "block") {
				l = vt.Pick(t, "bl", 511, 512, 513, 520, 1024, 4095, 4096, 4097, t.Int(41, 5000, "bla"))
			}
			f.raw = t.Payload(l, "rp")
			w.Raw(f.raw)
		} else {
			f.n = vt.Pick(t, "w", 0, 1, 2, 3, 5, 7, 8, 9, 16, 24, 31, 32, 33, 48, 55, 56, 57, 58, 60, 62, 63, 64, t.Int(0, 64, "wa"), t.Int(1, 8, "wb"))
			f.v = t.U64("v")
			if t.OneIn(4, "ones") {
				f.v = ^uint64(0)
			}
			if f.n < 64 {
				f.v &= 1<<uint(f.n) - 1
			}
			w.U(f.v, f.n)
		}
		fs = append(fs, f)
	}
	return
}

func show(fs []field) string {
	s := ""
	for _, f := range fs {
		if f.raw != nil {
			s += fmt.Sprintf("raw(%d) ", len(f.raw))
		} else {
			s += fmt.Sprintf("%x:%d ", f.v, f.n)
		}
	}
	return s
}

func TestFields(t *testing.T) {
	vt.Check(t, 10000, 300000, func(t *vt.T) {
		fs, w := drawFields(t)
		want := w.Bytes()
		var buf bytes.Buffer
		bw := &bits.Writer{W: &buf}
		for i, f := range fs {
			var err error
			if f.raw != nil {
				var n int
				n, err = bw.Write(f.raw)
				if err == nil && n != len(f.raw) {
					t.Fatalf("wrote %d of %d bytes without error", n, len(f.raw))
				}
			} else if t.Bool("uint") {
				err = bw.WriteBits(uint(f.v), f.n)
			} else {
				err = bw.WriteBits64(f.v, f.n)
			}
			if err != nil {
				t.Fatalf("field %d: %v", i, err)
			}
		}
		if err := bw.FlushBits(); err != nil {
			t.Fatalf("flush: %v", err)
		}
		if !bytes.Equal(buf.Bytes(), want) {
			t.Fatalf("fields %s\nwritten %x\nwant    %x", show(fs), buf.Bytes(), want)
		}
		if err := bw.FlushBits(); err != nil || buf.Len() != len(want) {
			t.Fatalf("a second flush writes more")
		}
		fr := &vt.FragReader{B: want, Frags: t.Frags("frags")}
		br := &bits.Reader{R: fr}
		for i, f := range fs {
			if f.raw != nil {
				p := make([]byte, len(f.raw))
				if n, err := br.Read(p); err != nil || n != len(p) || !bytes.Equal(p, f.raw) {
					t.Fatalf("fields %s\nfield %d: read %d bytes %x, %v, want %x", show(fs), i, n, p, err, f.raw)
				}
				continue
			}
			var v uint64
			var err error
			if t.Bool("ruint") {
				var u uint
				u, err = br.ReadBits(f.n)
				v = uint64(u)
			} else {
				v, err = br.ReadBits64(f.n)
			}
			if err != nil || v != f.v {
				t.Fatalf("fields %s\nfield %d: read %x, %v, want %x", show(fs), i, v, err, f.v)
			}
		}
		// past the end
		left := len(want)*8 - len(w.Bits)
		if _, err := br.ReadBits64(t.Int(left+1, 64, "past")); err == nil {
			t.Fatalf("reading past the end gives no error (%d padding bits left)", left)
		}
		if len(fs) > 2 {
			t.Nontrivial("fields", show(fs))
		}
		t.Sample("%s", show(fs))
	})
}

// One field that starts before the end and reaches past it is an error too,
// also behind unaligned reads and with blocks.
func TestPastEnd(t *testing.T) {
	vt.Check(t, 4000, 60000, func(t *vt.T) {
		b := t.RawBytes(30, "b")
		if t.OneIn(10, "long") {
			b = t.Payload(t.Int(500, 1200, "bl"), "bp")
		}
		at := t.Int(0, len(b)*8, "at")
		br := &bits.Reader{R: &vt.FragReader{B: b, Frags: t.Frags("frags")}}
		for pos := 0; pos < at; {
			n := t.Int(1, 64, "n")
			if n > at-pos {
				n = at - pos
			}
			if _, err := br.ReadBits64(n); err != nil {
				t.Fatalf("bits %d..%d of %d: %v", pos, pos+n, len(b)*8, err)
			}
			pos += n
		}
		left := len(b)*8 - at
		if left < 64 && t.Bool("field") {
			if _, err := br.ReadBits64(t.Int(left+1, 64, "past")); err == nil {
				t.Fatalf("%d bits left, reading more gives no error", left)
			}
		} else {
			p := make([]byte, left/8+vt.Pick(t, "more", 1, 2, t.Int(1, 20, "morea"), t.Int(500, 5000, "moreb")))
			n, err := br.Read(p)
			if err == nil || n >= len(p) {
				t.Fatalf("%d bits left, reading %d bytes gives %d, %v", left, len(p), n, err)
			}
			w := &ref.BitBuf{}
			w.Raw(b)
			w.Bits = w.Bits[at:]
			if !bytes.Equal(p[:n], w.Bytes()[:n]) {
				t.Fatalf("bytes read before the end are wrong")
			}
		}
		t.Nontrivial("past", b, at)
	})
}

type failW struct{ n int }

func (w *failW) Write(p []byte) (int, error) {
	if len(p) > w.n {
		n := w.n
		w.n = 0
		return n, vt.ErrInjected
	}
	w.n -= len(p)
	return len(p), nil
}

// A failing destination is reported, at the latest by the flush.
func TestWriteError(t *testing.T) {
	vt.Check(t, 2000, 30000, func(t *vt.T) {
		fs, w := drawFields(t)
		total := len(w.Bytes())
		if total == 0 {
			return
		}
		bw := &bits.Writer{W: &failW{t.Int(0, total-1, "limit")}}
		failed := false
		for _, f := range fs {
			var err error
			if f.raw != nil {
				_, err = bw.Write(f.raw)
			} else {
				err = bw.WriteBits64(f.v, f.n)
			}
			if err != nil {
				failed = true
				break
			}
		}
		if !failed && bw.FlushBits() == nil {
			t.Fatalf("destination failed, no error reported for %s", show(fs))
		}
		t.Nontrivial("werr", show(fs))
	})
}

type eofReader struct { // last bytes together with io.EOF, as io.Reader allows
	b []byte
}

func (r *eofReader) Read(p []byte) (int, error) {
	n := copy(p, r.b)
	r.b = r.b[n:]
	if len(r.b) == 0 {
		return n, io.EOF
	}
	return n, nil
}

func TestGolomb(t *testing.T) {
	vt.Check(t, 8000, 200000, func(t *vt.T) {
		type code struct {
			kind int
			n    int
			u    uint64
			s    int64
		}
		var cs []code
		w := &ref.BitBuf{}
		for i, n := 0, t.Int(1, 30, "n"); i < n; i++ {
			c := code{kind: t.Int(0, 2, "kind")}
			switch c.kind {
			case 0:
				k := uint(t.Int(0, 31, "k"))
				c.u = uint64(t.U32("u")) & (1<<(k+1) - 1)
				if t.OneIn(3, "edge") {
					c.u = uint64(1)<<k - uint64(t.Int(0, 1, "d"))
				}
				if t.OneIn(12, "longest") { // 32 zeros, the longest code
					c.u = 1<<32 - 1 + uint64(t.U32("u"))
					if t.Bool("edge") {
						c.u = 1<<32 - 1
					}
				}
				w.UE(c.u)
			case 1:
				k := uint(t.Int(0, 31, "k"))
				c.s = int64(t.U32("s")) & (1<<(k+1) - 1)
				if t.OneIn(3, "edge") {
					c.s = 1<<k - int64(t.Int(0, 1, "d"))
				}
				if t.Bool("neg") {
					c.s = -c.s
				}
				w.SE(c.s)
			default:
				c.n = t.Int(0, 32, "w")
				c.u = uint64(t.U32("u")) & (1<<uint(c.n) - 1)
				w.U(c.u, c.n)
			}
			cs = append(cs, c)
		}
		b := w.Bytes()
		var r io.Reader = &vt.FragReader{B: b, Frags: t.Frags("frags")}
		if t.OneIn(3, "eof") {
			r = &eofReader{b}
		}
		g := &bits.GolombBitReader{R: r}
		for i, c := range cs {
			switch c.kind {
			case 0:
				if v, err := g.ReadExponentialGolombCode(); err != nil || uint64(v) != c.u {
					t.Fatalf("code %d: read %d, %v, want %d", i, v, err, c.u)
				}
			case 1:
				if v, err := g.ReadSE(); err != nil || int64(int(v)) != c.s {
					t.Fatalf("code %d: read %d, %v, want %d", i, int(v), err, c.s)
				}
			default:
				if c.n == 1 {
					if v, err := g.ReadBit(); err != nil || uint64(v) != c.u {
						t.Fatalf("bit %d: read %d, %v, want %d", i, v, err, c.u)
					}
				} else if v, err := g.ReadBits(c.n); err != nil || uint64(v) != c.u {
					t.Fatalf("field %d: read %d, %v, want %d", i, v, err, c.u)
				}
			}
		}
		for left := len(b)*8 - len(w.Bits); left > 0; left-- {
			if v, err := g.ReadBit(); err != nil || v != 0 {
				t.Fatalf("padding: %d, %v", v, err)
			}
		}
		past := map[string]func() (uint, error){"ReadBit": g.ReadBit, "code": g.ReadExponentialGolombCode, "signed code": g.ReadSE,
			"bits": func() (uint, error) { return g.ReadBits(5) }}
		for name, f := range past {
			if _, err := f(); err == nil {
				t.Fatalf("%s past the end gives no error", name)
			}
		}
		t.Nontrivial("golomb", b)
	})
}
