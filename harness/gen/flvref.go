package gen

import (
	"time"

	"github.com/nareix/joy5/av"

	"joyverif/ref"
	"joyverif/vt"
)

// RefTag draws one legal FLV tag and the packet a conforming demuxer delivers
// for it (nil: the tag is to be skipped).
func RefTag(t *vt.T, big bool, l string) (tag ref.FLVTag, want *Pkt) {
	tag.Time = Ms32(t, l+"ts")
	tm := time.Duration(tag.Time) * time.Millisecond
	data := func() []byte { return t.Payload(Size(t, big, l+"size"), l+"data") }
	switch t.Int(0, 11, l+"kind") {
	case 0, 1, 2: // AVC
		tag.Type = 9
		ft := vt.Pick(t, l+"ft", byte(1), 2, 2, 3)
		pt := vt.Pick(t, l+"pt", byte(0), 1, 1, 1, 1, 2)
		ct := CTimeMs(t, l+"ct")
		d := data()
		tag.Body = append([]byte{ft<<4 | 7, pt, byte(ct >> 16), byte(ct >> 8), byte(ct)}, d...)
		switch pt {
		case 0:
			want = &Pkt{P: av.Packet{Type: av.H264DecoderConfig, Data: d, Time: tm}}
		case 1:
			want = &Pkt{P: av.Packet{Type: av.H264, Data: d, Time: tm, CTime: time.Duration(ct) * time.Millisecond, IsKeyFrame: ft == 1}}
		}
	case 3, 4: // AAC
		tag.Type = 8
		pt := vt.Pick(t, l+"pt", byte(0), 1, 1, 1)
		d := data()
		tag.Body = append([]byte{0xa0 | byte(t.Int(0, 15, l+"fl")), pt}, d...)
		if pt == 0 {
			want = &Pkt{P: av.Packet{Type: av.AACDecoderConfig, Data: d, Time: tm}}
		} else {
			want = &Pkt{P: av.Packet{Type: av.AAC, Data: d, Time: tm}}
		}
	case 5: // other video codecs
		tag.Type = 9
		tag.Body = append([]byte{byte(t.Int(1, 5, l+"ft"))<<4 | vt.Pick(t, l+"vc", byte(1), 2, 3, 4, 5, 6, 12), 1, 0, 0, 0}, data()...)
	case 6: // other audio codecs
		tag.Type = 8
		tag.Body = append([]byte{vt.Pick(t, l+"ac", byte(0), 1, 2, 3, 4, 5, 6, 7, 8, 11, 14, 15)<<4 | byte(t.Int(0, 15, l+"fl"))}, data()...)
	case 7: // unknown or encrypted tag
		tag.Type = vt.Pick(t, l+"ut", byte(1), 10, 17, 19, 31, 40, 41, 50, 255, 0)
		tag.Body = data()
	case 8: // script data that is not metadata
		tag.Type = 18
		switch t.Int(0, 4, l+"sk") {
		case 0:
			tag.Body = ref.AMF0(ref.AMF0(nil, vt.Pick(t, l+"sn", "onTextData", "onCuePoint", "onMetaDat", "onMetaData2", "")), AMF0(t, 1, l))
		case 1:
			tag.Body = ref.AMF0(nil, AMF0NotString(t, l))
		case 2:
			tag.Body = ref.AMF0(nil, "@setDataFrame")
		case 3:
			tag.Body = []byte{}
		case 4:
			tag.Body = append(ref.AMF0(nil, "onMetaData"), 0x77)
		}
	case 9, 10: // metadata, AMF0
		tag.Type = 18
		vs := MetaVals(t, l)
		if t.OneIn(8, l+"none") {
			vs = nil
		}
		var b []byte
		if t.Bool(l + "sdf") {
			b = ref.AMF0(b, "@setDataFrame")
		}
		b = ref.AMF0(b, "onMetaData")
		for _, v := range vs {
			b = ref.AMF0(b, v)
		}
		if len(vs) == 0 {
			vs = []interface{}{&ref.Obj{}}
		}
		tag.Body = b
		if t.OneIn(4, l+"amf3switch") {
			// AMF3 script tag holding AMF0 values: format byte 0 first
			tag.Type = 15
			tag.Body = append([]byte{0}, b...)
		}
		want = &Pkt{P: av.Packet{Type: av.Metadata, Time: tm}, Meta: vs}
	default: // metadata, AMF3
		tag.Type = 15
		n := t.Int(1, 2, l+"n")
		var vs []interface{}
		var b []byte
		if t.Bool(l + "sdf") {
			b = ref.AMF3(b, "@setDataFrame")
		}
		b = ref.AMF3(b, "onMetaData")
		for i := 0; i < n; i++ {
			v := AMF3(t, 2, false, l)
			b = ref.AMF3(b, v)
			vs = append(vs, AsAMF0(v))
		}
		tag.Body = b
		want = &Pkt{P: av.Packet{Type: av.Metadata, Time: tm}, Meta: vs}
	}
	return
}

func AMF0NotString(t *vt.T, l string) interface{} {
	switch t.Int(0, 3, l+"ns") {
	case 0:
		return Num(t, l)
	case 1:
		return nil
	case 2:
		return t.Bool(l)
	}
	return &ref.Obj{KVs: KVs(t, 1, l)}
}

// AMF3 draws an AMF3 value; bytesOK allows byte arrays, which AMF0 lacks.
func AMF3(t *vt.T, depth int, bytesOK bool, l string) interface{} {
	k := t.Int(0, 13, l+"k")
	if depth <= 0 && k >= 10 {
		k -= 8
	}
	switch k {
	case 0:
		return nil
	case 1:
		return ref.Undefined{}
	case 2:
		return t.Bool(l)
	case 3, 4:
		if t.Bool(l + "edge") {
			return ref.Int(vt.Pick(t, l, 0, 1, 127, 128, 129, 0x3fff, 0x4000, 0x4001, 0x1fffff, 0x200000, 0x200001, 1<<28-1, 1<<28, 0x1fffffff))
		}
		if t.Bool(l + "groups") { // of 7, 7, 7 and 8 bits
			v := 0
			for i := 0; i < 3; i++ {
				v = v<<7 | vt.Pick(t, l, 0, 0, 1, 0x40, 0x7f, t.Int(0, 0x7f, l+"g"))
			}
			return ref.Int(v<<8 | vt.Pick(t, l, 0, 1, 0x7f, 0x80, 0xff, t.Int(0, 0xff, l+"g")))
		}
		return ref.Int(t.Int(0, 0x1fffffff, l))
	case 5:
		return Num(t, l)
	case 6, 7:
		return Str(t, l)
	case 8:
		return Date(t, l)
	case 9:
		if bytesOK && t.Bool(l+"bytes") {
			return ref.Bytes(t.RawBytes(40, l))
		}
		return ref.XML(Str(t, l))
	case 10, 11: // array
		kv := kvs3(t, depth-1, bytesOK, l)
		o := &ref.Obj{ECMA: true, KVs: kv}
		for i, n := 0, t.Int(0, 3, l+"dense"); i < n; i++ {
			o.Dense = append(o.Dense, AMF3(t, depth-1, bytesOK, l))
		}
		return o
	default: // object
		kv := kvs3(t, depth-1, bytesOK, l)
		o := &ref.Obj{KVs: kv, Class: Str(t, l+"class")}
		switch t.Int(0, 2, l+"traits") {
		case 0:
			o.Dynamic = true
		case 1:
			o.Sealed = len(kv)
		default:
			o.Dynamic = true
			o.Sealed = t.Int(0, len(kv), l+"sealed")
		}
		return o
	}
}

func kvs3(t *vt.T, depth int, bytesOK bool, l string) []ref.KV {
	n := t.Int(0, 4, l+"n")
	var out []ref.KV
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		k := Key(t, l+"key")
		if len(k) > 0 && k[0] >= '0' && k[0] <= '9' {
			k = "k" + k // not an ordinal index
		}
		if seen[k] {
			continue
		}
		seen[k] = true
		out = append(out, ref.KV{K: k, V: AMF3(t, depth, bytesOK, l)})
	}
	return out
}

// AsAMF0 is the AMF0 value that corresponds to an AMF3 value.
func AsAMF0(v interface{}) interface{} {
	switch x := v.(type) {
	case ref.Int:
		return float64(x)
	case ref.Undefined:
		return nil
	case ref.XML:
		return string(x)
	case *ref.Obj:
		o := &ref.Obj{}
		for _, kv := range x.KVs {
			o.KVs = append(o.KVs, ref.KV{K: kv.K, V: AsAMF0(kv.V)})
		}
		for _, e := range x.Dense {
			o.Dense = append(o.Dense, AsAMF0(e))
		}
		return o
	}
	return v
}
