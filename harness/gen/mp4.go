package gen

import (
	"errors"
	"fmt"
	"io"

	"joyverif/ref"
	"joyverif/vt"
)

// AVCConfig draws an avcC record and its picture size.
func AVCConfig(t *vt.T, l string) (rec []byte, w, h int) {
	s := SPS(t, l+"sps")
	w, h = s.Size()
	rec = ref.AVCC([][]byte{s.NAL()}, [][]byte{ref.PPSNAL(0x68, t.Int(0, 255, l+"pps"), s.ID, []byte{1})})
	return
}

// AACConfig draws an AudioSpecificConfig.
func AACConfig(t *vt.T, l string) []byte {
	obj := vt.Pick(t, l+"obj", 2, 2, 2, 1, 3, 4)
	idx := t.Int(0, 12, l+"rate")
	ch := t.Int(1, 7, l+"ch")
	b := []byte{byte(obj<<3 | idx>>1), byte(idx<<7 | ch<<3)}
	if t.OneIn(4, l+"ext") {
		b = append(b, 0x56, 0xe5, 0x00)
	}
	return b
}

// MemFile is an in-memory file. Writes fail once Limit bytes are in, if Limit >= 0.
type MemFile struct {
	B     []byte
	Pos   int64
	Limit int64
	Fails int
	Codec []interface{}
	Asked int
	After func(n int) []interface{} // streams at the nth question
}

var ErrDisk = errors.New("disk full")

func (f *MemFile) Write(p []byte) (int, error) {
	n := len(p)
	if f.Limit >= 0 && f.Pos+int64(n) > f.Limit {
		n = int(f.Limit - f.Pos)
		if n < 0 {
			n = 0
		}
	}
	if need := int(f.Pos) + n; need > len(f.B) {
		f.B = append(f.B, make([]byte, need-len(f.B))...)
	}
	copy(f.B[f.Pos:], p[:n])
	f.Pos += int64(n)
	if n < len(p) {
		f.Fails++
		return n, ErrDisk
	}
	return n, nil
}

func (f *MemFile) Read(p []byte) (int, error) {
	if f.Pos >= int64(len(f.B)) {
		return 0, io.EOF
	}
	n := copy(p, f.B[f.Pos:])
	f.Pos += int64(n)
	return n, nil
}

func (f *MemFile) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case 1:
		off += f.Pos
	case 2:
		off += int64(len(f.B))
	}
	if off < 0 {
		return f.Pos, fmt.Errorf("seek to %d", off)
	}
	f.Pos = off
	return off, nil
}

func (f *MemFile) Streams() ([]interface{}, error) {
	f.Asked++
	if f.After != nil {
		return f.After(f.Asked), nil
	}
	return f.Codec, nil
}
