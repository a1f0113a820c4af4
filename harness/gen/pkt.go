package gen

import (
	"bytes"
	"fmt"
	"strings"
	"time"

	"github.com/nareix/joy5/av"

	"joyverif/ref"
	"joyverif/vt"
)

// Ms32 draws a 32-bit millisecond timestamp, biased to the format's limits.
func Ms32(t *vt.T, l string) uint32 {
	switch t.Int(0, 3, l+"kind") {
	case 0:
		return uint32(t.Int(0, 100000, l))
	case 1:
		return vt.Pick(t, l, uint32(0), 1, 0xfffffe, 0xffffff, 0x1000000, 0x1000001, 0x7fffffff, 0x80000000, 0x80000001, 0xfffffffe, 0xffffffff)
	default:
		return t.U32(l)
	}
}

func CTimeMs(t *vt.T, l string) int {
	switch t.Int(0, 4, l+"kind") {
	case 0:
		return 0
	case 1, 2:
		return t.Int(0, 500, l)
	case 3:
		return vt.Pick(t, l, -1, -40, 1, 255, 256, 65535, 65536, 1<<23-1, -(1 << 23), -(1<<23)+1, 0x7fff00, -65536)
	default:
		return t.Int(-(1 << 23), 1<<23-1, l)
	}
}

// Size draws a payload size: mostly small, with the buffering and chunking
// limits in between; big allows sizes above 64 KiB.
func Size(t *vt.T, big bool, l string) int {
	k := t.Int(0, 9, l+"kind")
	switch {
	case k == 0:
		return 0
	case k <= 3:
		return t.Int(1, 24, l)
	case k <= 5:
		return t.Int(1, 600, l)
	case k == 6:
		return vt.Pick(t, l, 117, 122, 123, 124, 125, 126, 127, 128, 129, 251, 252, 253, 254, 255, 256, 257, 4079, 4080, 4085, 4090, 4091, 4092, 4095, 4096, 4097)
	case k == 7:
		return t.Int(1, 9000, l)
	default:
		if !big {
			return t.Int(1, 300, l)
		}
		return vt.Pick(t, l, 65515, 65520, 65529, 65530, 65531, 65534, 65535, 65536, 65537, 70000, 131067, 131068, 131072, 131073, 200000)
	}
}

// Pkt is a packet of the reference model; Meta is set for metadata.
type Pkt struct {
	P    av.Packet
	Meta []interface{}
}

type PktOpts struct {
	Big       bool
	Mono      bool // non-decreasing times
	NoMeta    bool
	NoConfig  bool
	MinLen    int
	MaxPkts   int
	PosCTime  bool
	MaxTimeMs uint32
}

// Packets draws a packet sequence. Metadata payloads are AMF0 messages.
func Packets(t *vt.T, o PktOpts, l string) []Pkt {
	if o.MaxPkts == 0 {
		o.MaxPkts = 12
	}
	n := t.Int(0, o.MaxPkts, l+"n")
	var out []Pkt
	now := uint32(0)
	if o.Mono {
		now = Ms32(t, l+"start") & 0xfffffff
	}
	for i := 0; i < n; i++ {
		k := t.Int(0, 9, l+"type")
		var tm uint32
		if o.Mono {
			now += uint32(t.Int(0, 100, l+"dt"))
			tm = now
		} else {
			tm = Ms32(t, l+"ts")
		}
		if o.MaxTimeMs > 0 {
			tm %= o.MaxTimeMs
		}
		sz := Size(t, o.Big, l+"size")
		if sz < o.MinLen {
			sz = o.MinLen
		}
		p := Pkt{P: av.Packet{Time: time.Duration(tm) * time.Millisecond}}
		switch {
		case k <= 3:
			p.P.Type = av.H264
			p.P.IsKeyFrame = t.Bool(l + "key")
			p.P.CTime = time.Duration(CTimeMs(t, l+"ct")) * time.Millisecond
			if o.PosCTime && p.P.CTime < 0 {
				p.P.CTime = 0
			}
			p.P.Data = t.Payload(sz, l+"data")
		case k <= 6:
			p.P.Type = av.AAC
			p.P.Data = t.Payload(sz, l+"data")
		case k == 7 && !o.NoConfig:
			p.P.Type = av.H264DecoderConfig
			p.P.Data = t.Payload(sz, l+"data")
		case k == 8 && !o.NoConfig:
			p.P.Type = av.AACDecoderConfig
			p.P.Data = t.Payload(sz, l+"data")
		case k == 9 && !o.NoMeta:
			p.P.Type = av.Metadata
			p.Meta = MetaVals(t, l+"meta")
			for _, v := range p.Meta {
				p.P.Data = ref.AMF0(p.P.Data, v)
			}
		default:
			p.P.Type = av.AAC
			p.P.Data = t.Payload(sz, l+"data")
		}
		out = append(out, p)
	}
	return out
}

// MetaVals draws the values of a metadata message (at least one, as an
// empty one is documented to turn into an empty object).
func MetaVals(t *vt.T, l string) []interface{} {
	n := 1
	if t.OneIn(4, l+"multi") {
		n = t.Int(1, 3, l+"n")
	}
	var vs []interface{}
	for i := 0; i < n; i++ {
		if i == 0 && !t.OneIn(6, l+"odd") {
			kv := KVs(t, 2, l)
			vs = append(vs, &ref.Obj{KVs: kv, ECMA: t.Bool(l + "ecma"), Count: uint32(len(kv))})
			continue
		}
		vs = append(vs, AMF0(t, 2, l))
	}
	return vs
}

// SamePkt compares a sent packet with what arrived ("" if equal).
func SamePkt(w Pkt, g av.Packet) string {
	if w.P.Type != g.Type {
		return fmt.Sprintf("type %s, got %s", av.PacketTypeString[w.P.Type], av.PacketTypeString[g.Type])
	}
	switch w.P.Type {
	case av.Metadata:
		vs, err := ref.ParseAMF0All(g.Data)
		if err != nil {
			return fmt.Sprintf("metadata does not decode: %v", err)
		}
		if len(vs) != len(w.Meta) {
			return fmt.Sprintf("metadata of %d values, got %d", len(w.Meta), len(vs))
		}
		for i := range vs {
			if s := Same(Normal(w.Meta[i]), ToLib(vs[i])); s != "" {
				return "metadata: " + s
			}
		}
	default:
		if !bytes.Equal(w.P.Data, g.Data) {
			return fmt.Sprintf("payload of %d bytes differs (got %d bytes)", len(w.P.Data), len(g.Data))
		}
	}
	if w.P.Time != g.Time {
		return fmt.Sprintf("time %v, got %v", w.P.Time, g.Time)
	}
	if w.P.Type == av.H264 {
		if w.P.IsKeyFrame != g.IsKeyFrame {
			return fmt.Sprintf("keyframe %v, got %v", w.P.IsKeyFrame, g.IsKeyFrame)
		}
		if w.P.CTime != g.CTime {
			return fmt.Sprintf("composition offset %v, got %v", w.P.CTime, g.CTime)
		}
	}
	return ""
}

// Normal drops the distinctions that AMF0 decoding does not keep.
func Normal(v interface{}) interface{} {
	if _, ok := v.(ref.Undefined); ok {
		return nil
	}
	return v
}

func ShowPkts(ps []Pkt) string {
	var s []string
	for _, p := range ps {
		x := fmt.Sprintf("%s len=%d t=%dms", av.PacketTypeString[p.P.Type], len(p.P.Data), p.P.Time/time.Millisecond)
		if p.P.IsKeyFrame {
			x += " key"
		}
		if p.P.CTime != 0 {
			x += fmt.Sprintf(" ct=%dms", p.P.CTime/time.Millisecond)
		}
		if p.Meta != nil {
			x += " " + Show(ref.Arr(p.Meta))
		}
		s = append(s, x)
	}
	return strings.Join(s, "; ")
}

// PktKey identifies a packet sequence for counting.
func PktKey(ps []Pkt) string {
	var b strings.Builder
	for _, p := range ps {
		fmt.Fprintf(&b, "%d,%v,%d,%d,%d;", p.P.Type, p.P.IsKeyFrame, p.P.Time, p.P.CTime, len(p.P.Data))
	}
	return b.String()
}
