package c22

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"testing"
	"time"

	"github.com/nareix/joy5/av"
	"github.com/nareix/joy5/format/mp4"
	"github.com/nareix/joy5/format/mp4/mp4io"

	"joyverif/gen"
	"joyverif/vt"
)

func TestMain(m *testing.M) { vt.Main(m) }

const budget = 20 * time.Second

// play opens and reads a file in every way there is; it returns the packets
// read and the errors met.
func play(t *vt.T, r io.ReadSeeker, size int64, seeks []time.Duration, check func(av.Packet) string) (n int, errs []error, bad string) {
	max := 4*int(size) + 1000
	if max > 20000 {
		max = 20000
	}
	d := mp4.NewDemuxer(r)
	read := func(max int) {
		for k := 0; k < max; k++ {
			p, err := d.ReadPacket()
			if err != nil {
				errs = append(errs, err)
				return
			}
			n++
			if p.Type != av.H264 && p.Type != av.AAC {
				bad = fmt.Sprintf("packet of type %d", p.Type)
				return
			}
			if bad == "" {
				bad = check(p)
			}
		}
	}
	if _, err := d.Streams(); err != nil {
		errs = append(errs, err)
	}
	d.CurrentTime()
	read(max)
	for _, tm := range seeks {
		if err := d.SeekToTime(tm); err != nil {
			errs = append(errs, err)
		}
		read(50)
		d.CurrentTime()
	}
	return
}

func drawSeeks(t *vt.T) (s []time.Duration) {
	for i, n := 0, t.Int(0, 4, "seeks"); i < n; i++ {
		s = append(s, vt.Pick(t, "seek", 0, -1, time.Second, time.Hour, 1<<63-1, -1<<63, time.Duration(t.I64(-1<<63, 1<<63-1, "seekr")), time.Duration(t.I64(0, int64(time.Minute), "seeks"))))
	}
	return
}

// hostile plays bytes under guard.
func hostile(t *vt.T, b []byte) (n int) {
	t.Save(b)
	seeks := drawSeeks(t)
	var bad string
	run := func() {
		n, _, bad = play(t, bytes.NewReader(b), int64(len(b)), seeks, func(p av.Packet) string {
			if len(p.Data) > 0 && !bytes.Contains(b, p.Data) {
				return fmt.Sprintf("packet of %d bytes that are not in the file", len(p.Data))
			}
			return ""
		})
	}
	// what is read is proportional to the file, what is delivered to the packets
	limit := uint64(4<<20) + 300*uint64(len(b)) + 21000*(8*uint64(len(b))+2000)
	if s := vt.Guard(limit, budget, 2*budget, run); s != "" {
		t.Fatalf("file of %d bytes: %s", len(b), s)
	}
	if bad != "" {
		t.Fatalf("file of %d bytes: %s", len(b), bad)
	}
	parse := func() {
		atoms, _ := mp4io.ReadFileAtoms(bytes.NewReader(b))
		for _, a := range atoms {
			mp4io.FindChildrenByName(a, "none")
		}
	}
	if s := vt.Guard(1<<20+300*uint64(len(b)), budget, 2*budget, parse); s != "" {
		t.Fatalf("boxes of %d bytes: %s", len(b), s)
	}
	return
}

// counts are the boxes with counted tables.
var tables = []string{"stts", "ctts", "stss", "stsc", "stsz", "stco", "stsd", "dref", "esds", "avcC", "mdhd", "moov", "trak", "mdia", "minf", "stbl", "mdat"}

// forge changes a field of a box of the file: size, count, an entry, the tag.
func forge(t *vt.T, b []byte, l string) []byte {
	b = append([]byte(nil), b...)
	tag := vt.Pick(t, l+"tag", tables...)
	var at []int
	for p := 4; p+4 <= len(b); p++ {
		if string(b[p:p+4]) == tag {
			at = append(at, p)
		}
	}
	if len(at) == 0 {
		return b
	}
	p := at[t.Int(0, len(at)-1, l+"which")]
	v := vt.Pick(t, l+"v", uint32(0), 1, 2, 7, 8, 9, 16, 0xff, 0xffff, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffff0, uint32(len(b)), uint32(t.Int(0, 300, l+"vr")), t.U32(l+"vv"))
	switch t.Int(0, 6, l+"what") {
	case 6: // a count whose table size leaves 32 bits
		if q := p + 4 + 4*t.Int(1, 3, l+"word"); q+4 <= len(b) {
			b[q] ^= 1 << t.Int(2, 7, l+"bit")
		}
	case 0:
		binary.BigEndian.PutUint32(b[p-4:], v) // size
	case 1:
		b[p] ^= 0x20 // the box is gone
	case 2, 3: // count and first fields
		if q := p + 4 + 4*t.Int(0, 3, l+"word"); q+4 <= len(b) {
			binary.BigEndian.PutUint32(b[q:], v)
		}
	case 4: // some entry
		if q := p + 12 + 4*t.Int(0, 20, l+"entry"); q+4 <= len(b) {
			binary.BigEndian.PutUint32(b[q:], v)
		}
	case 5: // the box is cut short, its parents with it do not know
		n := t.Int(0, 16, l+"cut")
		if p+4+n <= len(b) {
			b = append(b[:p+4+n], b[p+4+n+t.Int(0, len(b)-p-4-n, l+"cutn"):]...)
		}
	}
	return b
}

// TestMutated changes standard files.
func TestMutated(t *testing.T) {
	vt.Check(t, 2500, 200000, func(t *vt.T) {
		f := gen.DrawMP4(t, 8, true)
		b := f.File.Bytes()
		how := ""
		for i, n := 0, t.Int(0, 4, "forged"); i < n; i++ {
			b = forge(t, b, fmt.Sprint("f", i))
			how = "forged"
		}
		if how == "" || t.OneIn(3, "mutate") {
			b = gen.Mutate(t, b, "m")
			how += "mutated"
		}
		n := hostile(t, b)
		t.Label(how)
		t.LabelIf(n > 0, "packets read")
		if len(b) > 16 {
			t.Nontrivial(b)
		}
		t.Sample("%s, %d bytes: %d packets", how, len(b), n)
	})
}

// TestTables plays files whose boxes are sound and whose tables contradict
// each other.
func TestTables(t *testing.T) {
	vt.Check(t, 2500, 200000, func(t *vt.T) {
		b := gen.DrawBadMP4(t, 8).File.Bytes()
		n := hostile(t, b)
		t.LabelIf(n > 0, "packets read")
		if len(b) > 16 {
			t.Nontrivial(b)
		}
		t.Sample("%d bytes: %d packets", len(b), n)
	})
}

// TestTruncated cuts standard files at any byte: what is read before the end
// is what the file has.
func TestTruncated(t *testing.T) {
	vt.Check(t, 120, 6000, func(t *vt.T) {
		f := gen.DrawMP4(t, 5, true)
		b := f.File.Bytes()
		t.Save(b)
		for _, cut := range gen.Cuts(t, len(b), []int{int(f.Moov), int(f.Moov) + 8}, 500, "cut") {
			part := b[:cut]
			next := map[int]int{}
			var n int
			var errs []error
			var bad string
			run := func() {
				n, errs, bad = play(t, bytes.NewReader(part), int64(cut), nil, func(p av.Packet) string {
					for _, tr := range f.Tracks {
						if (tr.Kind == "avc1") != (p.Type == av.H264) {
							continue
						}
						i := next[p.Type]
						next[p.Type]++
						if i >= len(tr.Samples) || !bytes.Equal(tr.Samples[i].Data, p.Data) {
							return fmt.Sprintf("%s packet %d of %d bytes is none of the file", tr.Kind, i, len(p.Data))
						}
						return ""
					}
					return "packet of no stream"
				})
			}
			if s := vt.Guard(4<<20+3000*uint64(len(b)), budget, 2*budget, run); s != "" {
				t.Fatalf("cut at %d of %d: %s", cut, len(b), s)
			}
			if bad != "" {
				t.Fatalf("cut at %d of %d: %s", cut, len(b), bad)
			}
			if len(errs) == 0 {
				t.Fatalf("cut at %d of %d: no end after %d packets", cut, len(b), n)
			}
			// a file without its index is no empty movie
			if cut <= int(f.Moov) && (n > 0 || len(errs) < 2) {
				t.Fatalf("cut at %d of %d, index at %d: %d packets, errors %v", cut, len(b), f.Moov, n, errs)
			}
			total := 0
			for _, tr := range f.Tracks {
				total += len(tr.Samples)
			}
			for _, err := range errs {
				if err == io.EOF && n < total && !(f.MoovOpen && cut >= int(f.Moov)+8) {
					t.Fatalf("cut at %d of %d: plain end of file after %d of %d packets", cut, len(b), n, total)
				}
			}
		}
		t.Nontrivial(b)
		t.Sample("%d bytes, index at %d", len(b), f.Moov)
	})
}

var errDisk = errors.New("I/O error")

// badFile fails at the nth call.
type badFile struct {
	*bytes.Reader
	n int
	k bool // keeps failing
}

func (f *badFile) fails() bool {
	f.n--
	return f.n == 0 || f.k && f.n < 0
}
func (f *badFile) Read(p []byte) (int, error) {
	if f.fails() {
		return 0, errDisk
	}
	return f.Reader.Read(p)
}
func (f *badFile) Seek(off int64, whence int) (int64, error) {
	if f.fails() {
		return 0, errDisk
	}
	return f.Reader.Seek(off, whence)
}

// TestIOError has the n-th call on the file fail: the error comes out.
func TestIOError(t *testing.T) {
	vt.Check(t, 200, 10000, func(t *vt.T) {
		f := gen.DrawMP4(t, 6, true)
		b := f.File.Bytes()
		t.Save(b)
		total := 0
		for _, tr := range f.Tracks {
			total += len(tr.Samples)
		}
		bf := &badFile{bytes.NewReader(b), t.Int(1, 12+3*total, "call"), true}
		var n int
		var errs []error
		var bad string
		run := func() {
			n, errs, bad = play(t, bf, int64(len(b)), nil, func(av.Packet) string { return "" })
		}
		if s := vt.Guard(4<<20+3000*uint64(len(b)), budget, 2*budget, run); s != "" {
			t.Fatalf("I/O error: %s", s)
		}
		if bad != "" {
			t.Fatalf("I/O error: %s", bad)
		}
		hit := bf.n <= 0
		for _, err := range errs {
			if err == io.EOF && n < total {
				t.Fatalf("I/O error taken for the end of file after %d of %d packets", n, total)
			}
		}
		if hit && len(errs) > 0 && n < total {
			t.Nontrivial(b, n)
		}
		t.LabelIf(hit, "error met")
		t.Sample("%d packets of %d: %v", n, total, errs)
	})
}

// TestRandom plays bytes that are no MP4 file, or hardly one.
func TestRandom(t *testing.T) {
	vt.Check(t, 1500, 100000, func(t *vt.T) {
		var b []byte
		if t.Bool("raw") {
			b = t.RawBytes(200, "raw")
		} else {
			b = soup(t, 0, "s")
		}
		n := hostile(t, b)
		if len(b) > 8 {
			t.Nontrivial(b)
		}
		t.LabelIf(n > 0, "packets read")
		t.Sample("%d bytes: %d packets", len(b), n)
	})
}

var soupTags = []string{"moov", "trak", "mdia", "minf", "stbl", "stsd", "avc1", "mp4a", "esds", "avcC", "mvhd", "tkhd", "mdhd", "hdlr", "stts", "ctts", "stss", "stsc",
	"stsz", "stco", "dinf", "dref", "url ", "vmhd", "smhd", "moof", "mfhd", "traf", "tfhd", "tfdt", "trun", "mvex", "trex", "mdat", "free"}

// soup nests boxes of known tags with any content.
func soup(t *vt.T, depth int, l string) (b []byte) {
	for i, n := 0, t.Int(1, 4, l+"n"); i < n; i++ {
		var body []byte
		pad := t.Int(0, 3, l+"pad") // fields in front of children
		body = append(body, make([]byte, vt.Pick(t, l+"padn", 0, 0, 8, 28, 78, pad))...)
		if depth < 5 && t.Bool(l+"deep") {
			body = append(body, soup(t, depth+1, l+"-")...)
		} else {
			body = append(body, t.RawBytes(40, l+"raw")...)
		}
		size := uint32(len(body) + 8)
		if t.OneIn(6, l+"lie") {
			size = vt.Pick(t, l+"size", uint32(0), 1, 7, 8, size+1, size-1, 0xffffffff, 0x7fffffff, t.U32(l+"sz"))
		}
		b = binary.BigEndian.AppendUint32(b, size)
		b = append(b, vt.Pick(t, l+"tag", soupTags...)...)
		b = append(b, body...)
	}
	return
}

// TestBoxes parses any bytes as each of the boxes.
func TestBoxes(t *testing.T) {
	vt.Check(t, 6000, 400000, func(t *vt.T) {
		name := vt.Pick(t, "type", gen.BoxNames()...)
		var b []byte
		switch t.Int(0, 4, "how") {
		case 4: // a count whose table size leaves 32 bits
			b = gen.EncodeBox(gen.Box(t, name, ""), nil)
			if q := vt.Pick(t, "word", 12, 12, 16, 8, 20); q+4 <= len(b) {
				b[q] ^= 1 << t.Int(2, 7, "bit")
			}
		case 0:
			b = t.RawBytes(120, "raw")
		case 1:
			b = gen.EncodeBox(gen.Box(t, name, ""), nil)
			b = b[:t.Int(0, len(b), "cut")]
		case 2:
			b = gen.Mutate(t, gen.EncodeBox(gen.Box(t, name, ""), nil), "m")
		default: // a field at the start of the box is forged
			b = gen.EncodeBox(gen.Box(t, name, ""), nil)
			p := 8 + t.Int(0, 24, "at")
			v := vt.Pick(t, "v", uint32(1), 0x7fffffff, 0x80000000, 0xffffffff, 0x20000000, 0x40000000, 0x10000000, t.U32("vv"))
			if p+4 <= len(b) {
				binary.BigEndian.PutUint32(b[p:], v)
			}
		}
		for len(b) < 8 { // a box has a header
			b = append(b, 0)
		}
		t.Save(b)
		var err error
		in := append([]byte(nil), b...)
		run := func() {
			box := gen.NewBox(name)
			if _, err = box.Unmarshal(in, 0); err != nil {
				return
			}
			// what was parsed can be written again
			n := box.Len()
			box.Marshal(make([]byte, n))
			mp4io.FprintAtom(io.Discard, box)
		}
		if s := vt.Guard(1<<20+300*uint64(len(b)), budget, 2*budget, run); s != "" {
			t.Fatalf("%s from %d bytes: %s", name, len(b), s)
		}
		if !bytes.Equal(in, b) {
			t.Fatalf("%s: parsing changed the bytes", name)
		}
		if len(b) > 8 {
			t.Nontrivial(name, b)
		}
		t.LabelIf(err == nil, "accepted")
		t.LabelIf(err != nil, "refused")
		t.Sample("%s from %d bytes: %v", name, len(b), err)
	})
}
