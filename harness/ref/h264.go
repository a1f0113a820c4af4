package ref

// Emulate inserts emulation-prevention bytes into a NAL unit's raw payload
// (ISO/IEC 14496-10, 7.4.1).
func Emulate(rbsp []byte) []byte {
	var out []byte
	zeros := 0
	for _, c := range rbsp {
		if zeros >= 2 && c <= 3 {
			out = append(out, 3)
			zeros = 0
		}
		out = append(out, c)
		if c == 0 {
			zeros++
		} else {
			zeros = 0
		}
	}
	if zeros >= 2 {
		out = append(out, 3)
	}
	return out
}

// SplitAVCC4 splits four-byte length-prefixed units; ok reports whether the
// whole input has that form.
func SplitAVCC4(b []byte) (units [][]byte, ok bool) {
	for len(b) > 0 {
		if len(b) < 4 {
			return nil, false
		}
		n := uint64(b[0])<<24 | uint64(b[1])<<16 | uint64(b[2])<<8 | uint64(b[3])
		if n > uint64(len(b)-4) {
			return nil, false
		}
		units = append(units, b[4:4+n])
		b = b[4+n:]
	}
	return units, len(units) > 0
}

// HasStartCode reports whether 00 00 01 occurs in b.
func HasStartCode(b []byte) bool {
	for i := 0; i+2 < len(b); i++ {
		if b[i] == 0 && b[i+1] == 0 && b[i+2] == 1 {
			return true
		}
	}
	return false
}

// VUI is the part of the video usability information before the HRD.
type VUI struct {
	Aspect      int // -1 absent, 255 extended
	SarW, SarH  int
	Overscan    int // -1 absent, else the flag
	Signal      bool
	VideoFormat int
	FullRange   bool
	Colour      bool
	ColourDesc  [3]int
	ChromaLoc   bool
	LocTop      int
	LocBottom   int
	Timing      bool
	Units       uint32
	Scale       uint32
	Fixed       bool
	Rest        []byte // bits of the remaining fields, one per byte
}

// ScalingList is one list: absent, or its delta_scale values as coded.
type ScalingList struct {
	Present bool
	Deltas  []int
}

// SPS describes a sequence parameter set.
type SPS struct {
	NALHeader                   byte
	Profile, Constraints, Level int
	ID                          int
	ChromaFormat                int
	SeparatePlanes              bool
	DepthLuma, DepthChroma      int
	Bypass                      bool
	Scaling                     bool
	Lists                       []ScalingList
	Log2MaxFrameNum             int
	POCType                     int
	Log2MaxPOC                  int
	AlwaysZero                  bool
	OffNonRef, OffTopBottom     int64
	Cycle                       []int64
	RefFrames                   int
	Gaps                        bool
	WidthMbs, HeightUnits       int // minus nothing: the real counts
	FrameMbsOnly                bool
	MbAdaptive                  bool
	Direct8x8                   bool
	Crop                        bool
	CropL, CropR, CropT, CropB  int
	VUI                         *VUI
}

// HighProfile reports whether the profile has the chroma/scaling syntax
// (ISO/IEC 14496-10, 7.3.2.1.1).
func HighProfile(p int) bool {
	switch p {
	case 100, 110, 122, 244, 44, 83, 86, 118, 128, 138, 139, 134, 135:
		return true
	}
	return false
}

// CropUnits gives the units of the cropping offsets (7-19 .. 7-22).
func (s *SPS) CropUnits() (x, y int) {
	field := 2
	if s.FrameMbsOnly {
		field = 1
	}
	cf := 1
	if HighProfile(s.Profile) {
		cf = s.ChromaFormat
		if s.SeparatePlanes {
			cf = 0
		}
	}
	switch cf {
	case 1:
		return 2, 2 * field
	case 2:
		return 2, field
	}
	return 1, field
}

// Size is the cropped picture size.
func (s *SPS) Size() (w, h int) {
	field := 2
	if s.FrameMbsOnly {
		field = 1
	}
	w, h = s.WidthMbs*16, s.HeightUnits*16*field
	if s.Crop {
		x, y := s.CropUnits()
		w -= x * (s.CropL + s.CropR)
		h -= y * (s.CropT + s.CropB)
	}
	return
}

// FPS is the frame rate rounded down, 0 without timing information.
func (s *SPS) FPS() uint64 {
	if s.VUI == nil || !s.VUI.Timing || s.VUI.Units == 0 {
		return 0
	}
	return uint64(s.VUI.Scale) / (2 * uint64(s.VUI.Units))
}

// RBSP encodes the set including its NAL header. needed is the number of
// bits up to the last field that parsing depends on.
func (s *SPS) RBSP() (b []byte, needed int) {
	w := &BitBuf{}
	w.U(uint64(s.NALHeader), 8)
	w.U(uint64(s.Profile), 8)
	w.U(uint64(s.Constraints), 8)
	w.U(uint64(s.Level), 8)
	w.UE(uint64(s.ID))
	if HighProfile(s.Profile) {
		w.UE(uint64(s.ChromaFormat))
		if s.ChromaFormat == 3 {
			w.Flag(s.SeparatePlanes)
		}
		w.UE(uint64(s.DepthLuma))
		w.UE(uint64(s.DepthChroma))
		w.Flag(s.Bypass)
		w.Flag(s.Scaling)
		if s.Scaling {
			for _, l := range s.Lists {
				w.Flag(l.Present)
				for _, d := range l.Deltas {
					w.SE(int64(d))
				}
			}
		}
	}
	w.UE(uint64(s.Log2MaxFrameNum))
	w.UE(uint64(s.POCType))
	switch s.POCType {
	case 0:
		w.UE(uint64(s.Log2MaxPOC))
	case 1:
		w.Flag(s.AlwaysZero)
		w.SE(s.OffNonRef)
		w.SE(s.OffTopBottom)
		w.UE(uint64(len(s.Cycle)))
		for _, c := range s.Cycle {
			w.SE(c)
		}
	}
	w.UE(uint64(s.RefFrames))
	w.Flag(s.Gaps)
	w.UE(uint64(s.WidthMbs - 1))
	w.UE(uint64(s.HeightUnits - 1))
	w.Flag(s.FrameMbsOnly)
	if !s.FrameMbsOnly {
		w.Flag(s.MbAdaptive)
	}
	w.Flag(s.Direct8x8)
	w.Flag(s.Crop)
	if s.Crop {
		w.UE(uint64(s.CropL))
		w.UE(uint64(s.CropR))
		w.UE(uint64(s.CropT))
		w.UE(uint64(s.CropB))
	}
	w.Flag(s.VUI != nil)
	if v := s.VUI; v != nil {
		w.Flag(v.Aspect >= 0)
		if v.Aspect >= 0 {
			w.U(uint64(v.Aspect), 8)
			if v.Aspect == 255 {
				w.U(uint64(v.SarW), 16)
				w.U(uint64(v.SarH), 16)
			}
		}
		w.Flag(v.Overscan >= 0)
		if v.Overscan >= 0 {
			w.U(uint64(v.Overscan), 1)
		}
		w.Flag(v.Signal)
		if v.Signal {
			w.U(uint64(v.VideoFormat), 3)
			w.Flag(v.FullRange)
			w.Flag(v.Colour)
			if v.Colour {
				for _, c := range v.ColourDesc {
					w.U(uint64(c), 8)
				}
			}
		}
		w.Flag(v.ChromaLoc)
		if v.ChromaLoc {
			w.UE(uint64(v.LocTop))
			w.UE(uint64(v.LocBottom))
		}
		w.Flag(v.Timing)
		if v.Timing {
			w.U(uint64(v.Units), 32)
			w.U(uint64(v.Scale), 32)
			needed = len(w.Bits)
			w.Flag(v.Fixed)
		}
		if needed == 0 {
			needed = len(w.Bits)
		}
		w.Bits = append(w.Bits, v.Rest...)
	} else {
		needed = len(w.Bits)
	}
	w.Flag(true) // rbsp_stop_one_bit
	return w.Bytes(), needed
}

// NAL is the complete NAL unit.
func (s *SPS) NAL() []byte {
	b, _ := s.RBSP()
	return Emulate(b)
}

// PPSNAL encodes a picture parameter set with a free tail.
func PPSNAL(header byte, id, sps int, tail []byte) []byte {
	w := &BitBuf{}
	w.U(uint64(header), 8)
	w.UE(uint64(id))
	w.UE(uint64(sps))
	w.Bits = append(w.Bits, tail...)
	w.Flag(true)
	return Emulate(w.Bytes())
}

// AVCC builds a version 1 decoder configuration record with four-byte
// lengths from sets already in id order.
func AVCC(sps, pps [][]byte) []byte {
	b := []byte{1, 0, 0, 0, 0xff, 0xe0 | byte(len(sps))}
	if len(sps) > 0 {
		copy(b[1:4], sps[0][1:4])
	}
	for _, s := range sps {
		b = append(b, byte(len(s)>>8), byte(len(s)))
		b = append(b, s...)
	}
	b = append(b, byte(len(pps)))
	for _, p := range pps {
		b = append(b, byte(len(p)>>8), byte(len(p)))
		b = append(b, p...)
	}
	return b
}
