package gen

import (
	"encoding/binary"
	"fmt"
	"reflect"
	"strings"
	"time"

	"github.com/nareix/joy5/format/mp4/mp4io"

	"joyverif/ref"
	"joyverif/vt"
)

// BoxLayout is the layout of a box as the standards give it: a list of
// Field:kind, 0:N for N reserved bytes, and child:Field. Kinds: u8 u24 u32 u64
// i16 i32 f16 f32 t32 (fixed-point numbers and seconds since 1904), bytes,
// rest, i16s, i32s, rows (a counted table), nchild (the number of children).
type BoxLayout struct {
	Tag    string
	Fields string
}

// Boxes has the layouts by the name of the library's type.
var Boxes = map[string]BoxLayout{
	"Movie":             {"moov", "child:Header child:MovieExtend child:Tracks child:Unknowns"},
	"MovieHeader":       {"mvhd", "Version:u8 Flags:u24 CreateTime:t32 ModifyTime:t32 TimeScale:i32 Duration:i32 PreferredRate:f32 PreferredVolume:f16 0:10 Matrix:i32s PreviewTime:t32 PreviewDuration:t32 PosterTime:t32 SelectionTime:t32 SelectionDuration:t32 CurrentTime:t32 NextTrackId:i32"},
	"Track":             {"trak", "child:Header child:Media child:Unknowns"},
	"TrackHeader":       {"tkhd", "Version:u8 Flags:u24 CreateTime:t32 ModifyTime:t32 TrackId:i32 0:4 Duration:i32 0:8 Layer:i16 AlternateGroup:i16 Volume:f16 0:2 Matrix:i32s TrackWidth:f32 TrackHeight:f32"},
	"HandlerRefer":      {"hdlr", "Version:u8 Flags:u24 Type:bytes SubType:bytes Name:rest"},
	"Media":             {"mdia", "child:Header child:Handler child:Info child:Unknowns"},
	"MediaHeader":       {"mdhd", "Version:u8 Flags:u24 CreateTime:t32 ModifyTime:t32 TimeScale:i32 Duration:i32 Language:i16 Quality:i16"},
	"MediaInfo":         {"minf", "child:Sound child:Video child:Data child:Sample child:Unknowns"},
	"DataInfo":          {"dinf", "child:Refer child:Unknowns"},
	"DataRefer":         {"dref", "Version:u8 Flags:u24 :nchild child:Url child:Unknowns"},
	"DataReferUrl":      {"url ", "Version:u8 Flags:u24"},
	"SoundMediaInfo":    {"smhd", "Version:u8 Flags:u24 Balance:i16 0:2"},
	"VideoMediaInfo":    {"vmhd", "Version:u8 Flags:u24 GraphicsMode:i16 Opcolor:i16s"},
	"SampleTable":       {"stbl", "child:SampleDesc child:TimeToSample child:CompositionOffset child:SampleToChunk child:SyncSample child:ChunkOffset child:SampleSize child:Unknowns"},
	"SampleDesc":        {"stsd", "Version:u8 0:3 :nchild child:AVC1Desc child:MP4ADesc child:Unknowns"},
	"MP4ADesc":          {"mp4a", "0:6 DataRefIdx:i16 Version:i16 RevisionLevel:i16 Vendor:i32 NumberOfChannels:i16 SampleSize:i16 CompressionId:i16 0:2 SampleRate:f32 child:Conf child:Unknowns"},
	"AVC1Desc":          {"avc1", "0:6 DataRefIdx:i16 Version:i16 Revision:i16 Vendor:i32 TemporalQuality:i32 SpatialQuality:i32 Width:i16 Height:i16 HorizontalResolution:f32 VorizontalResolution:f32 0:4 FrameCount:i16 CompressorName:bytes Depth:i16 ColorTableId:i16 child:Conf child:Unknowns"},
	"AVC1Conf":          {"avcC", "Data:rest"},
	"TimeToSample":      {"stts", "Version:u8 Flags:u24 Entries:rows"},
	"SampleToChunk":     {"stsc", "Version:u8 Flags:u24 Entries:rows"},
	"CompositionOffset": {"ctts", "Version:u8 Flags:u24 Entries:rows"},
	"SyncSample":        {"stss", "Version:u8 Flags:u24 Entries:rows"},
	"ChunkOffset":       {"stco", "Version:u8 Flags:u24 Entries:rows"},
	"MovieFrag":         {"moof", "child:Header child:Tracks child:Unknowns"},
	"MovieFragHeader":   {"mfhd", "Version:u8 Flags:u24 Seqnum:u32"},
	"TrackFrag":         {"traf", "child:Header child:DecodeTime child:Run child:Unknowns"},
	"MovieExtend":       {"mvex", "child:Tracks child:Unknowns"},
	"TrackExtend":       {"trex", "Version:u8 Flags:u24 TrackId:u32 DefaultSampleDescIdx:u32 DefaultSampleDuration:u32 DefaultSampleSize:u32 DefaultSampleFlags:u32"},
	// with conditional fields
	"SampleSize":          {"stsz", "Version:u8 Flags:u24 SampleSize:u32 :stsz"},
	"TrackFragRun":        {"trun", "Version:u8 Flags:u24 :trun"},
	"TrackFragHeader":     {"tfhd", "Version:u8 Flags:u24 :tfhd"},
	"TrackFragDecodeTime": {"tfdt", "Version:u8 Flags:u24 :tfdt"},
	"ElemStreamDesc":      {"esds", ":esds"},
}

var atomIface = reflect.TypeOf((*mp4io.Atom)(nil)).Elem()

// NewBox makes an empty box of the named type.
func NewBox(name string) mp4io.Atom {
	switch name {
	case "Movie":
		return &mp4io.Movie{}
	case "MovieHeader":
		return &mp4io.MovieHeader{}
	case "Track":
		return &mp4io.Track{}
	case "TrackHeader":
		return &mp4io.TrackHeader{}
	case "HandlerRefer":
		return &mp4io.HandlerRefer{}
	case "Media":
		return &mp4io.Media{}
	case "MediaHeader":
		return &mp4io.MediaHeader{}
	case "MediaInfo":
		return &mp4io.MediaInfo{}
	case "DataInfo":
		return &mp4io.DataInfo{}
	case "DataRefer":
		return &mp4io.DataRefer{}
	case "DataReferUrl":
		return &mp4io.DataReferUrl{}
	case "SoundMediaInfo":
		return &mp4io.SoundMediaInfo{}
	case "VideoMediaInfo":
		return &mp4io.VideoMediaInfo{}
	case "SampleTable":
		return &mp4io.SampleTable{}
	case "SampleDesc":
		return &mp4io.SampleDesc{}
	case "MP4ADesc":
		return &mp4io.MP4ADesc{}
	case "AVC1Desc":
		return &mp4io.AVC1Desc{}
	case "AVC1Conf":
		return &mp4io.AVC1Conf{}
	case "TimeToSample":
		return &mp4io.TimeToSample{}
	case "SampleToChunk":
		return &mp4io.SampleToChunk{}
	case "CompositionOffset":
		return &mp4io.CompositionOffset{}
	case "SyncSample":
		return &mp4io.SyncSample{}
	case "ChunkOffset":
		return &mp4io.ChunkOffset{}
	case "MovieFrag":
		return &mp4io.MovieFrag{}
	case "MovieFragHeader":
		return &mp4io.MovieFragHeader{}
	case "TrackFrag":
		return &mp4io.TrackFrag{}
	case "MovieExtend":
		return &mp4io.MovieExtend{}
	case "TrackExtend":
		return &mp4io.TrackExtend{}
	case "SampleSize":
		return &mp4io.SampleSize{}
	case "TrackFragRun":
		return &mp4io.TrackFragRun{}
	case "TrackFragHeader":
		return &mp4io.TrackFragHeader{}
	case "TrackFragDecodeTime":
		return &mp4io.TrackFragDecodeTime{}
	case "ElemStreamDesc":
		return &mp4io.ElemStreamDesc{}
	}
	panic(name)
}

// BoxNames lists the types.
func BoxNames() []string {
	return []string{"Movie", "MovieHeader", "Track", "TrackHeader", "HandlerRefer", "Media", "MediaHeader", "MediaInfo", "DataInfo", "DataRefer",
		"DataReferUrl", "SoundMediaInfo", "VideoMediaInfo", "SampleTable", "SampleDesc", "MP4ADesc", "AVC1Desc", "AVC1Conf", "TimeToSample",
		"SampleToChunk", "CompositionOffset", "SyncSample", "ChunkOffset", "MovieFrag", "MovieFragHeader", "TrackFrag", "MovieExtend",
		"TrackExtend", "SampleSize", "TrackFragRun", "TrackFragHeader", "TrackFragDecodeTime", "ElemStreamDesc"}
}

var epoch1904 = time.Date(1904, 1, 1, 0, 0, 0, 0, time.UTC)

func u32(t *vt.T, l string) uint32 {
	return vt.Pick(t, l, 0, 1, 0x7f, 0x80, 0xff, 0x100, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0xffffffff, t.U32(l+"r"), t.U32(l+"s"))
}

func rows(t *vt.T, v reflect.Value, l string) {
	n := vt.Pick(t, l+"n", 0, 0, 1, 1, 2, 3, t.Int(0, 40, l+"na"))
	if n == 0 {
		return
	}
	s := reflect.MakeSlice(v.Type(), n, n)
	for i := 0; i < n; i++ {
		e := s.Index(i)
		if e.Kind() == reflect.Struct {
			for k := 0; k < e.NumField(); k++ {
				e.Field(k).SetUint(uint64(u32(t, l)))
			}
		} else {
			e.SetUint(uint64(u32(t, l)))
		}
	}
	v.Set(s)
}

// Box draws a box of the named type, with its children.
func Box(t *vt.T, name string, l string) mp4io.Atom {
	lay := Boxes[name]
	atom := NewBox(name)
	v := reflect.ValueOf(atom).Elem()
	var known []string
	for _, f := range strings.Fields(lay.Fields) {
		p := strings.SplitN(f, ":", 2)
		switch {
		case p[0] == "child":
			fv := v.FieldByName(p[1])
			switch {
			case p[1] == "Unknowns":
				for i, n := 0, vt.Pick(t, l+"unk", 0, 0, 0, 1, 1, 2, 4); i < n; i++ {
					d := unknown(t, known, fmt.Sprintf("%su%d", l, i))
					fv.Set(reflect.Append(fv, reflect.ValueOf(d)))
				}
			case fv.Kind() == reflect.Slice:
				cn := fv.Type().Elem().Elem().Name()
				known = append(known, Boxes[cn].Tag)
				for i, n := 0, vt.Pick(t, l+p[1]+"n", 0, 1, 1, 2); i < n; i++ {
					fv.Set(reflect.Append(fv, reflect.ValueOf(Box(t, cn, fmt.Sprintf("%s%s%d", l, p[1], i)))))
				}
			default:
				cn := fv.Type().Elem().Name()
				known = append(known, Boxes[cn].Tag)
				if !t.OneIn(5, l+p[1]+"nil") {
					fv.Set(reflect.ValueOf(Box(t, cn, l+p[1])))
				}
			}
		case p[0] == "0":
		case p[0] == "":
			drawCond(t, atom, p[1], l)
		default:
			drawField(t, v.FieldByName(p[0]), p[1], l+p[0])
		}
	}
	return atom
}

func drawField(t *vt.T, fv reflect.Value, kind, l string) {
	switch kind {
	case "u8":
		fv.SetUint(uint64(vt.Pick(t, l, byte(0), 0, 1, 0xff, t.Byte(l+"r"))))
	case "u24":
		fv.SetUint(uint64(vt.Pick(t, l, 0, 0, 1, 0x10000, 0xffffff, t.U32(l+"r")&0xffffff)))
	case "u32":
		fv.SetUint(uint64(u32(t, l)))
	case "i16":
		fv.SetInt(int64(int16(u32(t, l))))
	case "i32":
		fv.SetInt(int64(int32(u32(t, l))))
	case "f16":
		fv.SetFloat(float64(uint16(u32(t, l))) / 256)
	case "f32":
		fv.SetFloat(float64(u32(t, l)) / 65536)
	case "t32":
		if t.OneIn(8, l+"unset") {
			return // the zero time, which is written as 0
		}
		fv.Set(reflect.ValueOf(epoch1904.Add(time.Duration(u32(t, l)) * time.Second)))
	case "bytes":
		for i := 0; i < fv.Len(); i++ {
			fv.Index(i).SetUint(uint64(t.Byte(l)))
		}
	case "rest":
		fv.SetBytes(t.Payload(vt.Pick(t, l+"n", 0, 1, 7, 8, 9, t.Int(0, 100, l+"nn")), l))
	case "i16s":
		for i := 0; i < fv.Len(); i++ {
			fv.Index(i).SetInt(int64(int16(u32(t, l))))
		}
	case "i32s":
		for i := 0; i < fv.Len(); i++ {
			fv.Index(i).SetInt(int64(int32(u32(t, l))))
		}
	case "rows":
		rows(t, fv, l)
	default:
		panic(kind)
	}
}

func drawCond(t *vt.T, atom mp4io.Atom, kind, l string) {
	switch a := atom.(type) {
	case *mp4io.SampleSize:
		if a.SampleSize = 0; t.Bool(l + "const") {
			a.SampleSize = u32(t, l+"size") | 1
			a.SampleCount = u32(t, l+"count")
			return
		}
		rows(t, reflect.ValueOf(&a.Entries).Elem(), l)
	case *mp4io.TrackFragRun:
		if a.Flags&mp4io.TRUN_DATA_OFFSET != 0 {
			a.DataOffset = u32(t, l+"off")
		}
		if a.Flags&mp4io.TRUN_FIRST_SAMPLE_FLAGS != 0 {
			a.FirstSampleFlags = u32(t, l+"fsf")
		}
		if a.Flags&0xf00 == 0 {
			a.SampleCount = u32(t, l+"count")
			return
		}
		rows(t, reflect.ValueOf(&a.Entries).Elem(), l)
		for i := range a.Entries {
			e := &a.Entries[i]
			for k, p := range []*uint32{&e.Duration, &e.Size, &e.Flags, &e.Cts} {
				if a.Flags&(0x100<<uint(k)) == 0 {
					*p = 0
				}
			}
		}
	case *mp4io.TrackFragHeader:
		if a.Flags&1 != 0 {
			a.BaseDataOffset = t.U64(l + "base")
		}
		if a.Flags&2 != 0 {
			a.StsdId = u32(t, l+"stsd")
		}
		if a.Flags&8 != 0 {
			a.DefaultDuration = u32(t, l+"dur")
		}
		if a.Flags&0x10 != 0 {
			a.DefaultSize = u32(t, l+"size")
		}
		if a.Flags&0x20 != 0 {
			a.DefaultFlags = u32(t, l+"flags")
		}
	case *mp4io.TrackFragDecodeTime:
		sec := int64(u32(t, l+"sec"))
		if a.Version > 1 {
			a.Version = 1
		}
		if a.Version == 1 {
			sec = int64(t.U64(l+"sec64") >> uint(t.Int(1, 32, l+"sh")))
		}
		if !t.OneIn(8, l+"unset") {
			a.Time = time.Unix(sec-2082844800, 0).UTC()
		}
	case *mp4io.ElemStreamDesc:
		a.TrackId = uint16(u32(t, l+"id"))
		a.DecConfig = t.Payload(vt.Pick(t, l+"n", 2, 0, 1, 5, 100, 126, 127, 128, 129, t.Int(0, 300, l+"nn")), l+"conf")
	}
}

// BoxTag draws a tag that is none of the known ones.
func BoxTag(t *vt.T, known []string, l string) string {
	for {
		tag := vt.Pick(t, l, "free", "skip", "udta", "edts", "uuid", "colr", "pasp", "meta", "stsd", "mvhd", "moov", "trak", "esds", "avcC",
			string([]byte{t.Byte(l + "a"), t.Byte(l + "b"), 'x', t.Byte(l + "c")}))
		ok := true
		for _, k := range known {
			ok = ok && k != tag
		}
		if ok {
			return tag
		}
	}
}

func unknown(t *vt.T, known []string, l string) *mp4io.Dummy {
	tag := BoxTag(t, known, l+"tag")
	b := ref.Box(tag, t.Payload(vt.Pick(t, l+"n", 0, 1, 4, 8, 20, t.Int(0, 60, l+"nn")), l+"data"))
	return &mp4io.Dummy{Tag_: mp4io.Tag(binary.BigEndian.Uint32(b[4:])), Data: b}
}

// EncodeBox writes a box value by the standard's layout; order permutes the
// children of different kinds (nil keeps the order of the fields).
func EncodeBox(atom mp4io.Atom, order func(n int) []int) []byte {
	if d, ok := atom.(*mp4io.Dummy); ok {
		return d.Data
	}
	v := reflect.ValueOf(atom).Elem()
	lay := Boxes[v.Type().Name()]
	var head []byte
	var kids [][]byte
	var group []string // the field each child comes from
	nchild := -1
	for _, f := range strings.Fields(lay.Fields) {
		p := strings.SplitN(f, ":", 2)
		switch p[0] {
		case "child":
			fv := v.FieldByName(p[1])
			if fv.Kind() == reflect.Slice {
				for i := 0; i < fv.Len(); i++ {
					kids = append(kids, EncodeBox(fv.Index(i).Interface().(mp4io.Atom), order))
					group = append(group, p[1])
				}
			} else if !fv.IsNil() {
				kids = append(kids, EncodeBox(fv.Interface().(mp4io.Atom), order))
				group = append(group, p[1])
			}
		case "0":
			n := 0
			fmt.Sscan(p[1], &n)
			head = append(head, make([]byte, n)...)
		case "":
			if p[1] == "nchild" {
				nchild = len(head)
				head = append(head, 0, 0, 0, 0)
			} else {
				head = append(head, encodeCond(atom)...)
			}
		default:
			head = append(head, encodeField(v.FieldByName(p[0]), p[1])...)
		}
	}
	if nchild >= 0 {
		binary.BigEndian.PutUint32(head[nchild:], uint32(len(kids)))
	}
	if order != nil && len(kids) > 1 {
		perm := order(len(kids))
		out := make([][]byte, len(kids))
		// boxes of the same field keep their order
		next := map[string]int{}
		for i, k := range perm {
			j := next[group[k]]
			for group[j] != group[k] {
				j++
			}
			out[i] = kids[j]
			next[group[k]] = j + 1
		}
		kids = out
	}
	return ref.Box(lay.Tag, append([][]byte{head}, kids...)...)
}

func putN(v uint64, n int) (b []byte) {
	for i := n - 1; i >= 0; i-- {
		b = append(b, byte(v>>(8*uint(i))))
	}
	return
}

func encodeField(fv reflect.Value, kind string) []byte {
	switch kind {
	case "u8":
		return putN(fv.Uint(), 1)
	case "u24":
		return putN(fv.Uint(), 3)
	case "u32":
		return putN(fv.Uint(), 4)
	case "i16":
		return putN(uint64(fv.Int()), 2)
	case "i32":
		return putN(uint64(fv.Int()), 4)
	case "f16":
		return putN(uint64(fv.Float()*256), 2)
	case "f32":
		return putN(uint64(fv.Float()*65536), 4)
	case "t32":
		return putN(since1904(fv.Interface().(time.Time)), 4)
	case "bytes":
		b := make([]byte, fv.Len())
		reflect.Copy(reflect.ValueOf(b), fv)
		return b
	case "rest":
		return fv.Bytes()
	case "i16s", "i32s":
		n := 4
		if kind == "i16s" {
			n = 2
		}
		var b []byte
		for i := 0; i < fv.Len(); i++ {
			b = append(b, putN(uint64(fv.Index(i).Int()), n)...)
		}
		return b
	case "rows":
		b := putN(uint64(fv.Len()), 4)
		for i := 0; i < fv.Len(); i++ {
			if e := fv.Index(i); e.Kind() == reflect.Struct {
				for k := 0; k < e.NumField(); k++ {
					b = append(b, putN(e.Field(k).Uint(), 4)...)
				}
			} else {
				b = append(b, putN(e.Uint(), 4)...)
			}
		}
		return b
	}
	panic(kind)
}

func encodeCond(atom mp4io.Atom) (b []byte) {
	switch a := atom.(type) {
	case *mp4io.SampleSize:
		if a.SampleSize != 0 {
			return putN(uint64(a.SampleCount), 4)
		}
		b = putN(uint64(len(a.Entries)), 4)
		for _, e := range a.Entries {
			b = append(b, putN(uint64(e), 4)...)
		}
	case *mp4io.TrackFragRun:
		n := len(a.Entries)
		if a.Flags&0xf00 == 0 {
			n = int(a.SampleCount)
		}
		b = putN(uint64(n), 4)
		if a.Flags&1 != 0 {
			b = append(b, putN(uint64(a.DataOffset), 4)...)
		}
		if a.Flags&4 != 0 {
			b = append(b, putN(uint64(a.FirstSampleFlags), 4)...)
		}
		for _, e := range a.Entries {
			for k, x := range []uint32{e.Duration, e.Size, e.Flags, e.Cts} {
				if a.Flags&(0x100<<uint(k)) != 0 {
					b = append(b, putN(uint64(x), 4)...)
				}
			}
		}
	case *mp4io.TrackFragHeader:
		for _, f := range []struct {
			bit uint32
			v   uint64
			n   int
		}{{1, a.BaseDataOffset, 8}, {2, uint64(a.StsdId), 4}, {8, uint64(a.DefaultDuration), 4}, {0x10, uint64(a.DefaultSize), 4}, {0x20, uint64(a.DefaultFlags), 4}} {
			if a.Flags&f.bit != 0 {
				b = append(b, putN(f.v, f.n)...)
			}
		}
	case *mp4io.TrackFragDecodeTime:
		n := 4
		if a.Version != 0 {
			n = 8
		}
		b = putN(since1904(a.Time), n)
	case *mp4io.ElemStreamDesc:
		b = ref.ESDS(a.DecConfig, ref.ESDSOpt{ESID: int(a.TrackId), LenBytes: 4})[8:]
	}
	return
}

func since1904(t time.Time) uint64 {
	if t.IsZero() {
		return 0
	}
	return uint64(t.Unix() + 2082844800)
}

// BoxDiff tells where two boxes differ, positions aside.
func BoxDiff(a, b interface{}) string { return boxDiff(reflect.ValueOf(a), reflect.ValueOf(b), "") }

func boxDiff(a, b reflect.Value, path string) string {
	if a.IsValid() != b.IsValid() {
		return path + ": one is missing"
	}
	if !a.IsValid() {
		return ""
	}
	if a.Type() != b.Type() {
		return fmt.Sprintf("%s: %v, %v", path, a.Type(), b.Type())
	}
	if ta, ok := a.Interface().(time.Time); ok {
		if tb := b.Interface().(time.Time); since1904(ta) != since1904(tb) {
			return fmt.Sprintf("%s: %v, %v", path, ta, tb)
		}
		return ""
	}
	switch a.Kind() {
	case reflect.Ptr, reflect.Interface:
		if a.IsNil() || b.IsNil() {
			if a.IsNil() != b.IsNil() {
				return fmt.Sprintf("%s: present %v, %v", path, !a.IsNil(), !b.IsNil())
			}
			return ""
		}
		return boxDiff(a.Elem(), b.Elem(), path)
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			n := a.Type().Field(i).Name
			if n == "AtomPos" {
				continue
			}
			// a count is only meaningful where there is no table
			if n == "SampleCount" {
				if tr, ok := a.Interface().(mp4io.TrackFragRun); ok && tr.Flags&0xf00 != 0 {
					continue
				}
			}
			if d := boxDiff(a.Field(i), b.Field(i), path+"."+n); d != "" {
				return d
			}
		}
		return ""
	case reflect.Slice, reflect.Array:
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s: %d entries, %d", path, a.Len(), b.Len())
		}
		for i := 0; i < a.Len(); i++ {
			if d := boxDiff(a.Index(i), b.Index(i), fmt.Sprintf("%s[%d]", path, i)); d != "" {
				return d
			}
		}
		return ""
	default:
		if a.Interface() != b.Interface() {
			return fmt.Sprintf("%s: %v, %v", path, a.Interface(), b.Interface())
		}
	}
	return ""
}
