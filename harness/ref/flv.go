package ref

import "fmt"

// FLVTag is one tag as an independent FLV parser sees it.
type FLVTag struct {
	Type   byte
	Time   uint32
	Stream uint32
	Body   []byte
}

type FLVFile struct {
	Version byte
	Flags   byte
	Tags    []FLVTag
	Ends    []int // file offset just after each tag's previous-tag-size field
}

// BuildFLV writes a file; offset is the DataOffset (at least 9).
func BuildFLV(flags byte, offset int, tags []FLVTag) (b []byte, ends []int) {
	b = append(b, 'F', 'L', 'V', 1, flags)
	b = u32(b, uint32(offset))
	for len(b) < offset {
		b = append(b, byte(len(b)*7+3))
	}
	b = u32(b, 0)
	for _, t := range tags {
		b = AppendFLVTag(b, t)
		ends = append(ends, len(b))
	}
	return
}

func AppendFLVTag(b []byte, t FLVTag) []byte {
	b = append(b, t.Type)
	b = u24(b, uint32(len(t.Body)))
	b = u24(b, t.Time&0xffffff)
	b = append(b, byte(t.Time>>24))
	b = u24(b, t.Stream)
	b = append(b, t.Body...)
	return u32(b, uint32(len(t.Body)+11))
}

// ParseFLV is a strict parser of a whole file.
func ParseFLV(b []byte) (f FLVFile, err error) {
	if len(b) < 13 || string(b[:3]) != "FLV" {
		return f, fmt.Errorf("no FLV header")
	}
	f.Version, f.Flags = b[3], b[4]
	if b[3] != 1 {
		return f, fmt.Errorf("version %d", b[3])
	}
	if f.Flags&^5 != 0 {
		return f, fmt.Errorf("reserved flag bits set: %#x", f.Flags)
	}
	g32 := func(b []byte) uint32 {
		return uint32(b[0])<<24 | uint32(b[1])<<16 | uint32(b[2])<<8 | uint32(b[3])
	}
	g24 := func(b []byte) uint32 { return uint32(b[0])<<16 | uint32(b[1])<<8 | uint32(b[2]) }
	off := int(g32(b[5:]))
	if off != 9 {
		return f, fmt.Errorf("data offset %d", off)
	}
	if g32(b[off:]) != 0 {
		return f, fmt.Errorf("PreviousTagSize0 %d", g32(b[off:]))
	}
	p := off + 4
	for p < len(b) {
		if len(b)-p < 11 {
			return f, fmt.Errorf("cut tag header at %d", p)
		}
		n := int(g24(b[p+1:]))
		t := FLVTag{Type: b[p], Time: g24(b[p+4:]) | uint32(b[p+7])<<24, Stream: g24(b[p+8:])}
		if len(b)-p-11 < n+4 {
			return f, fmt.Errorf("cut tag at %d: body %d", p, n)
		}
		t.Body = b[p+11 : p+11+n]
		if q := g32(b[p+11+n:]); int(q) != n+11 {
			return f, fmt.Errorf("tag at %d: previous tag size %d, want %d", p, q, n+11)
		}
		p += 11 + n + 4
		f.Tags = append(f.Tags, t)
		f.Ends = append(f.Ends, p)
	}
	return f, nil
}
