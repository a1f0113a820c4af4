package c13

import (
	"bytes"
	"fmt"
	"testing"
	"time"

	"github.com/nareix/joy5/codec/h264"

	"joyverif/gen"
	"joyverif/ref"
	"joyverif/vt"
)

func TestMain(m *testing.M) { vt.Main(m) }

func show(us [][]byte) string {
	s := fmt.Sprintf("%d units:", len(us))
	for i, u := range us {
		if i == 6 {
			s += " ..."
			break
		}
		if len(u) > 12 {
			s += fmt.Sprintf(" %x..(%d)", u[:12], len(u))
		} else {
			s += fmt.Sprintf(" %x", u)
		}
	}
	return s
}

func same(a, b [][]byte) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !bytes.Equal(a[i], b[i]) {
			return false
		}
	}
	return true
}

// check splits b and compares units, form and offsets.
func check(t *vt.T, b []byte, want [][]byte, wantType int, starts [][3]int) {
	keep := append([]byte(nil), b...)
	exact := b[:len(b):len(b)]
	got, typ := h264.SplitNALUs(exact)
	if typ != wantType || !same(got, want) {
		t.Save(b)
		t.Fatalf("split as form %d into %s, want form %d %s", typ, show(got), wantType, show(want))
	}
	if n := h264.CheckNALUsType(exact); n != wantType {
		t.Fatalf("form reported as %d, want %d", n, wantType)
	}
	infos, typ := h264.SplitNALUsRetInfo(exact)
	if typ != wantType || len(infos) != len(want) {
		t.Fatalf("split with offsets as form %d into %d units, want form %d, %d units", typ, len(infos), wantType, len(want))
	}
	for i, in := range infos {
		if !bytes.Equal(in.Data, want[i]) || in.DataStart < 0 || in.End > len(b) || in.DataStart > in.End ||
			!bytes.Equal(b[in.DataStart:in.End], want[i]) {
			t.Save(b)
			t.Fatalf("unit %d: offsets %d..%d do not hold its data", i, in.DataStart, in.End)
		}
		if starts != nil {
			s := starts[i]
			if in.NALUStart != s[0] || in.DataStart != s[1] || in.End != s[2] {
				t.Save(b)
				t.Fatalf("unit %d: start code and data at %d,%d..%d, reported %d,%d..%d", i, s[0], s[1], s[2], in.NALUStart, in.DataStart, in.End)
			}
		}
	}
	if !bytes.Equal(keep, b) {
		t.Fatalf("splitting changed its input")
	}
}

func TestAVCC(t *testing.T) {
	vt.Check(t, 3000, 60000, func(t *vt.T) {
		n := t.Int(1, 12, "n")
		var us [][]byte
		var want []byte
		var starts [][3]int
		for i := 0; i < n; i++ {
			var u []byte
			if t.OneIn(3, "nal") {
				u = gen.NALU(t, 70000, "u")
			} else {
				u = t.Payload(vt.Pick(t, "len", 1, 1, 2, 3, 4, 5, 255, 256, 65535, 65536, t.Int(1, 2000, "any")), "p")
			}
			us = append(us, u)
			at := len(want)
			want = append(want, byte(len(u)>>24), byte(len(u)>>16), byte(len(u)>>8), byte(len(u)))
			want = append(want, u...)
			starts = append(starts, [3]int{at, at + 4, len(want)})
		}
		for name, f := range map[string]func([][]byte) []byte{"JoinNALUsAVCC": h264.JoinNALUsAVCC, "FillNALUsAVCC": h264.FillNALUsAVCC} {
			if b := f(us); !bytes.Equal(b, want) {
				t.Fatalf("%s of %s differs from the length-prefixed form", name, show(us))
			}
		}
		check(t, want, us, h264.NALU_AVCC, starts)
		if n > 1 {
			t.Nontrivial("avcc", want)
		}
		t.Sample("avcc %s", show(us))
	})
}

func TestAnnexB(t *testing.T) {
	vt.Check(t, 6000, 120000, func(t *vt.T) {
		n := t.Int(1, 10, "n")
		var us [][]byte
		for i := 0; i < n; i++ {
			us = append(us, gen.NALU(t, 70000, "u"))
		}
		var simple []byte
		for _, u := range us {
			simple = append(append(simple, 0, 0, 1), u...)
		}
		for name, f := range map[string]func([][]byte) []byte{"JoinNALUsAnnexb": h264.JoinNALUsAnnexb, "FillNALUsAnnexb": h264.FillNALUsAnnexb} {
			b := f(us)
			if _, amb := ref.SplitAVCC4(b); amb {
				continue
			}
			if got, typ := h264.SplitNALUs(b); typ != h264.NALU_ANNEXB || !same(got, us) {
				t.Save(b)
				t.Fatalf("split(%s(%s)) gives form %d, %s", name, show(us), typ, show(got))
			}
		}
		// drawn start codes and padding
		var b []byte
		var starts [][3]int
		pad := false
		for i, u := range us {
			z := 2
			switch t.Int(0, 3, "sc") {
			case 0:
			case 1, 2:
				z = 3
			default:
				z = t.Int(3, 9, "z")
				pad = true
			}
			b = append(b, make([]byte, z)...)
			b = append(b, 1)
			sc := 4
			if z == 2 {
				sc = 3
			}
			at := len(b)
			b = append(b, u...)
			starts = append(starts, [3]int{at - sc, at, len(b)})
			_ = i
		}
		if t.OneIn(3, "trail") {
			b = append(b, make([]byte, t.Int(1, 6, "tz"))...)
			pad = true
		}
		if av, amb := ref.SplitAVCC4(b); amb {
			t.Label("valid in both forms")
			check(t, b, av, h264.NALU_AVCC, nil)
			return
		}
		t.LabelIf(pad, "padding")
		check(t, b, us, h264.NALU_ANNEXB, starts)
		if n > 1 {
			t.Nontrivial("annexb", b)
		}
		t.Sample("annexb %s", show(us))
	})
}

// Anything at all: what is returned lies in the input, and a form is only
// recognised when it is there.
func TestAny(t *testing.T) {
	vt.Check(t, 8000, 200000, func(t *vt.T) {
		var b []byte
		switch t.Int(0, 4, "kind") {
		case 0:
			b = t.RawBytes(400, "raw")
		case 1:
			for i, n := 0, t.Int(0, 60, "n"); i < n; i++ {
				b = append(b, vt.Pick(t, "b", byte(0), 0, 0, 0, 1, 1, 2, 3, 4, 0x67))
			}
		case 2: // length prefixes that do not fit exactly
			for i, n := 0, t.Int(1, 5, "n"); i < n; i++ {
				p := t.Payload(t.Int(0, 40, "len"), "p")
				l := len(p)
				if i == n-1 {
					l += t.Int(-2, 3, "off")
				}
				if t.OneIn(12, "huge") {
					l = vt.Pick(t, "hl", 1<<31-1, 1<<31, 1<<32-1, 1<<32-4)
				}
				b = append(b, byte(l>>24), byte(l>>16), byte(l>>8), byte(l))
				b = append(b, p...)
			}
		case 3: // a valid length-prefixed input cut or extended
			for i, n := 0, t.Int(1, 4, "n"); i < n; i++ {
				u := gen.NALU(t, 60, "u")
				b = append(b, 0, 0, 0, byte(len(u)))
				b = append(b, u...)
			}
			b = b[:t.Int(0, len(b), "cut")]
		default:
			b = gen.NALU(t, 200, "u")
		}
		buf := append(make([]byte, 0, len(b)), b...)
		var infos []h264.NALUInfo
		var units [][]byte
		var typ, typ2 int
		bad := vt.Guard(uint64(4<<20+200*len(b)), 5*time.Second, 0, func() {
			infos, typ = h264.SplitNALUsRetInfo(buf)
			units, typ2 = h264.SplitNALUs(buf)
		})
		if bad != "" {
			t.Save(b)
			t.Fatalf("splitting %d bytes: %s", len(b), bad)
		}
		if len(units) != len(infos) || typ != typ2 {
			t.Fatalf("SplitNALUs and SplitNALUsRetInfo disagree")
		}
		pos := 0
		for i, in := range infos {
			if in.NALUStart < pos || in.DataStart < in.NALUStart || in.End < in.DataStart || in.End > len(b) ||
				!bytes.Equal(b[in.DataStart:in.End], in.Data) || !bytes.Equal(in.Data, units[i]) {
				t.Save(b)
				t.Fatalf("unit %d at %d,%d..%d after %d does not lie in the input", i, in.NALUStart, in.DataStart, in.End, pos)
			}
			pos = in.End
		}
		av, isAV := ref.SplitAVCC4(b)
		switch {
		case isAV:
			if typ != h264.NALU_AVCC || !same(units, av) {
				t.Save(b)
				t.Fatalf("length-prefixed input split as form %d, %s", typ, show(units))
			}
		case ref.HasStartCode(b):
			if typ != h264.NALU_ANNEXB {
				t.Save(b)
				t.Fatalf("input with start codes reported as form %d", typ)
			}
			for _, u := range units {
				if ref.HasStartCode(u) {
					t.Save(b)
					t.Fatalf("a unit contains a start code: %s", show(units))
				}
			}
		default:
			if typ != h264.NALU_RAW || len(units) != 1 || !bytes.Equal(units[0], b) {
				t.Save(b)
				t.Fatalf("input in neither form: form %d, %s", typ, show(units))
			}
		}
		t.Label([]string{"raw", "avcc", "annexb"}[typ])
		if len(b) > 4 {
			t.Nontrivial("any", b)
		}
	})
}

func TestEmulation(t *testing.T) {
	vt.Check(t, 6000, 120000, func(t *vt.T) {
		n := vt.Pick(t, "len", 0, 1, 2, 3, 4, t.Int(0, 200, "any"), t.Int(0, 60, "any2"))
		var rbsp []byte
		for i := 0; i < n; i++ {
			rbsp = append(rbsp, vt.Pick(t, "b", byte(0), 0, 0, 0, 1, 2, 3, 3, 4, 0xff))
		}
		enc := ref.Emulate(rbsp)
		keep := append([]byte(nil), enc...)
		got := h264.RemoveH264orH265EmulationBytes(enc)
		// the standard's cabac zero words end in 00 00 03: the 03 goes too
		want := rbsp
		if !bytes.Equal(got, want) {
			t.Save(enc)
			t.Fatalf("emulation prevention of %x removed from %x gives %x", rbsp, enc, got)
		}
		if !bytes.Equal(enc, keep) {
			t.Fatalf("input changed")
		}
		any := t.RawBytes(100, "raw")
		if out := h264.RemoveH264orH265EmulationBytes(any); len(out) > len(any) {
			t.Fatalf("output longer than input")
		}
		if len(enc) > len(rbsp) {
			t.Nontrivial("emul", rbsp)
		}
	})
}

// TestLarge has units whose size needs the highest byte of the length.
func TestLarge(t *testing.T) {
	vt.Check(t, 2, 12, func(t *vt.T) {
		n := 1<<24 + t.Int(-1, 70000, "len")
		u := make([]byte, n)
		for i := range u {
			u[i] = byte(i)%250 + 5 // no zero: no start code
		}
		small := t.Payload(t.Int(1, 50, "small"), "p")
		us := [][]byte{u, small}
		if t.Bool("order") {
			us = [][]byte{small, u}
		}
		var want []byte
		for _, u := range us {
			want = append(want, byte(len(u)>>24), byte(len(u)>>16), byte(len(u)>>8), byte(len(u)))
			want = append(want, u...)
		}
		for name, f := range map[string]func([][]byte) []byte{"JoinNALUsAVCC": h264.JoinNALUsAVCC, "FillNALUsAVCC": h264.FillNALUsAVCC} {
			if b := f(us); !bytes.Equal(b, want) {
				t.Fatalf("%s of units of %d and %d bytes differs from the length-prefixed form", name, len(us[0]), len(us[1]))
			}
		}
		got, typ := h264.SplitNALUs(want)
		if typ != h264.NALU_AVCC || len(got) != 2 || !bytes.Equal(got[0], us[0]) || !bytes.Equal(got[1], us[1]) {
			t.Fatalf("units of %d and %d bytes are split into %d (type %d)", len(us[0]), len(us[1]), len(got), typ)
		}
		t.Nontrivial("large", []byte(fmt.Sprint(n, len(us[0]))))
	})
}
