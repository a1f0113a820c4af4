package c14

import (
	"fmt"
	"testing"
	"time"

	"github.com/nareix/joy5/codec/h264"

	"joyverif/gen"
	"joyverif/ref"
	"joyverif/vt"
)

func TestMain(m *testing.M) { vt.Main(m) }

func TestSPS(t *testing.T) {
	vt.Check(t, 12000, 300000, func(t *vt.T) {
		s := gen.SPS(t, "s")
		nal := s.NAL()
		desc := fmt.Sprintf("profile %d chroma %d/%v scaling %v poc %d fmo %v %dx%d crop %v %d,%d,%d,%d vui %v (%x)", s.Profile, s.ChromaFormat, s.SeparatePlanes, s.Scaling,
			s.POCType, s.FrameMbsOnly, s.WidthMbs, s.HeightUnits, s.Crop, s.CropL, s.CropR, s.CropT, s.CropB, s.VUI != nil, nal)
		info, err := h264.ParseSPS(nal)
		if err != nil {
			t.Save(nal)
			t.Fatalf("valid SPS refused: %v; %s", err, desc)
		}
		w, h := s.Size()
		want := h264.SPSInfo{
			Id: uint(s.ID), ProfileIdc: uint(s.Profile), LevelIdc: uint(s.Level), ConstraintSetFlag: uint(s.Constraints >> 2),
			MbWidth: uint(s.WidthMbs), MbHeight: uint(s.HeightUnits),
			Width: uint(w), Height: uint(h), FPS: uint(s.FPS()),
		}
		if s.Crop {
			want.CropLeft, want.CropRight, want.CropTop, want.CropBottom = uint(s.CropL), uint(s.CropR), uint(s.CropT), uint(s.CropB)
		}
		if info != want {
			t.Save(nal)
			t.Fatalf("parsed %+v\nwant   %+v\n%s", info, want, desc)
		}
		if id, err := h264.ParseSPSId(nal); err != nil || id != uint(s.ID) {
			t.Fatalf("ParseSPSId gives %d, %v, want %d", id, err, s.ID)
		}
		t.LabelIf(ref.HighProfile(s.Profile), "high syntax")
		t.LabelIf(s.Scaling, "scaling lists")
		t.LabelIf(s.Crop, "cropped")
		t.LabelIf(!s.FrameMbsOnly, "field coding")
		t.LabelIf(want.FPS > 0, "frame rate")
		t.Nontrivial("sps", nal)
		t.Sample("%s", desc)

		// cut before the last needed field
		rbsp, needed := s.RBSP()
		cut := t.Int(0, (needed-1)/8, "cut")
		if _, err := h264.ParseSPS(ref.Emulate(rbsp[:cut])); err == nil {
			t.Save(rbsp[:cut])
			t.Fatalf("SPS cut at byte %d of %d (bit %d needed) accepted; %s", cut, len(rbsp), needed, desc)
		}
	})
}

func TestPPS(t *testing.T) {
	vt.Check(t, 4000, 60000, func(t *vt.T) {
		id, sps := t.Int(0, 255, "id"), t.Int(0, 31, "sps")
		var tail []byte
		for i, n := 0, t.Int(0, 80, "n"); i < n; i++ {
			tail = append(tail, t.Byte("b")&1)
		}
		nal := ref.PPSNAL(vt.Pick(t, "h", byte(0x68), 0x28, 0x08), id, sps, tail)
		info, err := h264.ParsePPS(nal)
		if err != nil || info.Id != uint(id) || info.SPSId != uint(sps) {
			t.Save(nal)
			t.Fatalf("PPS %x with id %d, sps %d parsed as %+v, %v", nal, id, sps, info, err)
		}
		t.Nontrivial("pps", nal)
	})
}

func TestHostile(t *testing.T) {
	vt.Check(t, 5000, 100000, func(t *vt.T) {
		var b []byte
		switch t.Int(0, 5, "kind") {
		case 0:
			b = t.RawBytes(300, "raw")
		case 1:
			b = append([]byte{0x67, 100, 0, 30}, t.RawBytes(200, "raw")...)
		case 2:
			b = make([]byte, t.Int(0, 100000, "zeros"))
			if len(b) > 0 {
				b[0] = 0x67
			}
			if len(b) > 10 {
				b[len(b)/2] = t.Byte("x")
			}
		case 3: // a forged cycle count
			w := &ref.BitBuf{}
			w.Raw([]byte{0x67, 66, 0, 30})
			w.UE(0)
			w.UE(0)
			w.UE(1)
			w.Flag(false)
			w.SE(0)
			w.SE(0)
			w.UE(vt.Pick(t, "cnt", uint64(256), 1<<20, 1<<31, 1<<32-2))
			w.Raw(t.Payload(t.Int(0, 3000, "n"), "p"))
			b = w.Bytes()
		case 4:
			b = gen.SPS(t, "s").NAL()
			for i, n := 0, t.Int(1, 6, "flips"); i < n; i++ {
				b[t.Int(0, len(b)-1, "at")] ^= 1 << uint(t.Int(0, 7, "bit"))
			}
		default:
			b = gen.SPS(t, "s").NAL()
			b = b[:t.Int(0, len(b), "cut")]
		}
		keep := string(b)
		bad := vt.Guard(uint64(1<<20+40*len(b)), 5*time.Second, 0, func() {
			h264.ParseSPS(b)
			h264.ParseSPSId(b)
			h264.ParsePPS(b)
			c := h264.NewCodec()
			c.AddSPSPPS(b)
			c.ToConfig()
		})
		if bad != "" {
			t.Save(b)
			t.Fatalf("parsing %d bytes: %s", len(b), bad)
		}
		if keep != string(b) {
			t.Fatalf("input changed")
		}
		if len(b) > 4 {
			t.Nontrivial("hostile", b)
		}
	})
}
