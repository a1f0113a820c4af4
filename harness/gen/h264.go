package gen

import (
	"joyverif/ref"
	"joyverif/vt"
)

// NALU draws a legal NAL unit: no start code or run of three zeros inside,
// not ending in zero.
func NALU(t *vt.T, max int, l string) []byte {
	var n int
	switch t.Int(0, 9, l+"k") {
	case 0:
		n = 1
	case 1, 2:
		n = t.Int(1, 5, l+"n")
	case 3:
		n = vt.Pick(t, l+"e", 255, 256, 257, 65535, 65536, 65537, 300, 511)
	default:
		n = t.Int(2, 300, l+"n")
	}
	if n > max {
		n = max
	}
	var raw []byte
	if t.Bool(l + "soup") {
		if n > 600 {
			n = 600
		}
		for i := 0; i < n; i++ {
			raw = append(raw, vt.Pick(t, l+"b", byte(0), 0, 0, 1, 2, 3, 4, 0x65, 0xff))
		}
	} else {
		raw = vt.Fill(n, t.U64(l+"s"))
	}
	raw[0] = t.Byte(l+"h")&0x7f | 1
	raw = ref.Emulate(raw)
	for len(raw) > 1 && raw[len(raw)-1] == 0 {
		raw = raw[:len(raw)-1]
	}
	return raw
}

// SPS draws a sequence parameter set description.
func SPS(t *vt.T, l string) *ref.SPS {
	s := &ref.SPS{NALHeader: vt.Pick(t, l+"hdr", byte(0x67), 0x27, 0x47, 0x07)}
	s.Profile = vt.Pick(t, l+"prof", 66, 77, 88, 100, 110, 122, 244, 44, 83, 86, 118, 128, 138, 139, 134, 135, 100, 66, 0, 255)
	s.Constraints = int(t.Byte(l + "cs"))
	s.Level = int(t.Byte(l + "lev"))
	s.ID = t.Int(0, 31, l+"id")
	s.ChromaFormat = 1
	if ref.HighProfile(s.Profile) {
		s.ChromaFormat = t.Int(0, 3, l+"cf")
		if s.ChromaFormat == 3 {
			s.SeparatePlanes = t.Bool(l + "sep")
		}
		s.DepthLuma = t.Int(0, 6, l+"dl")
		s.DepthChroma = t.Int(0, 6, l+"dc")
		s.Bypass = t.Bool(l + "byp")
		s.Scaling = t.OneIn(3, l+"sc")
		if s.Scaling {
			n := 8
			if s.ChromaFormat == 3 {
				n = 12
			}
			for i := 0; i < n; i++ {
				s.Lists = append(s.Lists, scalingList(t, i, l))
			}
		}
	}
	s.Log2MaxFrameNum = t.Int(0, 12, l+"mfn")
	s.POCType = t.Int(0, 2, l+"poc")
	s.Log2MaxPOC = t.Int(0, 12, l+"mpoc")
	if s.POCType == 1 {
		s.AlwaysZero = t.Bool(l + "az")
		s.OffNonRef = soff(t, l+"onr")
		s.OffTopBottom = soff(t, l+"otb")
		n := vt.Pick(t, l+"cyc", 0, 1, 2, 5, 255)
		for i := 0; i < n; i++ {
			if i < 4 {
				s.Cycle = append(s.Cycle, soff(t, l+"cy"))
			} else {
				s.Cycle = append(s.Cycle, int64(i*7919%4001)-2000)
			}
		}
	}
	s.RefFrames = t.Int(0, 16, l+"rf")
	s.Gaps = t.Bool(l + "gap")
	dim := func(l string) int {
		switch t.Int(0, 3, l+"k") {
		case 0:
			return vt.Pick(t, l+"p", 1, 2, 3, 22, 45, 80, 120, 240, 256, 512, 65536)
		case 1:
			return t.Int(1, 70000, l)
		default:
			return t.Int(1, 300, l)
		}
	}
	s.WidthMbs = dim(l + "w")
	s.HeightUnits = dim(l + "h")
	s.FrameMbsOnly = t.Bool(l + "fmo")
	s.MbAdaptive = t.Bool(l + "mba")
	s.Direct8x8 = t.Bool(l + "d8")
	s.Crop = t.Bool(l + "crop")
	if s.Crop {
		w, h := s.WidthMbs*16, s.HeightUnits*16
		if !s.FrameMbsOnly {
			h *= 2
		}
		x, y := s.CropUnits()
		budget := func(total, unit int, l string) (int, int) {
			max := (total - 1) / unit
			if max > 64 && !t.OneIn(6, l+"big") {
				max = 64
			}
			a := t.Int(0, max, l+"a")
			return a, t.Int(0, max-a, l+"b")
		}
		s.CropL, s.CropR = budget(w, x, l+"cx")
		s.CropT, s.CropB = budget(h, y, l+"cy")
	}
	if t.OneIn(2, l+"vui") {
		v := &ref.VUI{Aspect: -1, Overscan: -1}
		if t.Bool(l + "ar") {
			v.Aspect = vt.Pick(t, l+"ari", 0, 1, 2, 16, 254, 255, 255)
			v.SarW, v.SarH = int(t.U32(l+"sw")&0xffff), int(t.U32(l+"sh")&0xffff)
		}
		if t.Bool(l + "ov") {
			v.Overscan = t.Int(0, 1, l+"ovf")
		}
		v.Signal = t.Bool(l + "sig")
		v.VideoFormat = t.Int(0, 7, l+"vf")
		v.FullRange = t.Bool(l + "fr")
		v.Colour = t.Bool(l + "col")
		v.ColourDesc = [3]int{t.Int(0, 255, l+"c0"), t.Int(0, 255, l+"c1"), t.Int(0, 255, l+"c2")}
		v.ChromaLoc = t.Bool(l + "loc")
		v.LocTop, v.LocBottom = t.Int(0, 5, l+"lt"), t.Int(0, 5, l+"lb")
		v.Timing = t.OneIn(2, l+"tim") || t.Bool(l+"tim2")
		switch t.Int(0, 3, l+"tk") {
		case 0:
			v.Units, v.Scale = vt.Pick(t, l+"u", uint32(1), 1001, 1000, 0, 1<<31, 1<<32-1), vt.Pick(t, l+"s", uint32(50), 60000, 48000, 0, 1, 1<<32-1)
		case 1:
			v.Units, v.Scale = t.U32(l+"u"), t.U32(l+"s")
		default:
			fps := uint32(t.Int(1, 240, l+"fps"))
			v.Units = uint32(t.Int(1, 5000, l+"u"))
			v.Scale = fps * 2 * v.Units
			if d := t.Int(-2, 2, l+"du"); int64(v.Scale)+int64(d) > 0 {
				v.Scale = uint32(int64(v.Scale) + int64(d))
			}
		}
		v.Fixed = t.Bool(l + "fix")
		for i, n := 0, t.Int(3, 40, l+"rest"); i < n; i++ {
			v.Rest = append(v.Rest, t.Byte(l+"r")&1)
		}
		s.VUI = v
	}
	return s
}

func soff(t *vt.T, l string) int64 {
	if t.OneIn(3, l+"k") {
		return vt.Pick(t, l+"e", int64(0), -1, 1, -2, 2, 1<<31-1, -(1<<31 - 1), 1<<30, -(1 << 30))
	}
	return t.I64(-100000, 100000, l)
}

// scalingList draws coded deltas: until the list ends (next scale 0) or is full.
func scalingList(t *vt.T, i int, l string) ref.ScalingList {
	var s ref.ScalingList
	if !t.Bool(l + "lp") {
		return s
	}
	s.Present = true
	size := 16
	if i >= 6 {
		size = 64
	}
	last, next := 8, 8
	stop := t.Int(0, size, l+"lstop")
	seed := t.U64(l + "lseed")
	for j := 0; j < size; j++ {
		seed = seed*6364136223846793005 + 1442695040888963407
		d := int(seed>>40)%256 - 128
		if j == stop {
			d = -last // next scale becomes 0: the rest repeats
			if d < -128 {
				d += 256
			}
		} else if (last+d+256)%256 == 0 {
			d++
			if d > 127 {
				d = 1
			}
		}
		s.Deltas = append(s.Deltas, d)
		next = (last + d + 256) % 256
		if next == 0 {
			break
		}
		last = next
	}
	return s
}
