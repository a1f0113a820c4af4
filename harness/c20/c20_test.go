package c20

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"sort"
	"strings"
	"testing"

	"github.com/nareix/joy5/format/mp4/mp4io"

	"joyverif/gen"
	"joyverif/ref"
	"joyverif/vt"
)

func TestMain(m *testing.M) { vt.Main(m) }

// heads has the length of the fields before the children of a container.
var heads = map[string]int{"moov": 0, "trak": 0, "mdia": 0, "minf": 0, "dinf": 0, "dref": 8, "stbl": 0, "stsd": 8, "mp4a": 28, "avc1": 78,
	"moof": 0, "traf": 0, "mvex": 0}

// shape is a box without the order of its children. known is false for
// boxes the library has no type for in this place.
func shape(x ref.RawBox, parent string) (string, error) {
	if x.Tag == "esds" && parent == "mp4a" {
		if len(x.Body) < 4 {
			return "", fmt.Errorf("esds of %d bytes", len(x.Body))
		}
		id, conf, err := ref.ParseESDS(x.Body[4:])
		if err != nil {
			return "", fmt.Errorf("esds: %v", err)
		}
		return fmt.Sprintf("esds(%x id=%d %x)", x.Body[:4], id, conf), nil
	}
	head, ok := heads[x.Tag]
	if !ok || !strings.Contains(kids[parent], x.Tag) {
		return fmt.Sprintf("%q%x", x.Tag, x.Body), nil
	}
	if len(x.Body) < head {
		return "", fmt.Errorf("%s of %d bytes", x.Tag, len(x.Body))
	}
	list, err := ref.SplitBoxes(x.Body[head:])
	if err != nil {
		return "", fmt.Errorf("%s: %v", x.Tag, err)
	}
	var out []string
	for _, c := range list {
		s, err := shape(c, x.Tag)
		if err != nil {
			return "", fmt.Errorf("%s: %v", x.Tag, err)
		}
		out = append(out, s)
	}
	sort.Strings(out)
	return fmt.Sprintf("%s(%x %s)", x.Tag, x.Body[:head], strings.Join(out, " ")), nil
}

var kids = map[string]string{"": "moov moof trak mdia minf dinf dref stbl stsd mp4a avc1 traf mvex", "moov": "mvex trak", "trak": "mdia", "mdia": "minf",
	"minf": "dinf stbl", "dinf": "dref", "stbl": "stsd", "stsd": "mp4a avc1", "moof": "traf"}

func shapeOf(b []byte, parent string) (string, error) {
	list, err := ref.SplitBoxes(b)
	if err != nil {
		return "", err
	}
	if len(list) != 1 {
		return "", fmt.Errorf("%d boxes", len(list))
	}
	return shape(list[0], parent)
}

func count(a mp4io.Atom) int {
	n := 1
	for _, c := range a.Children() {
		n += count(c)
	}
	return n
}

// positions checks that every box says where it is in b.
func positions(a mp4io.Atom, b []byte, base int) error {
	off, size := a.Pos()
	if off < base || off-base+size > len(b) || size < 8 {
		return fmt.Errorf("%v at %d, %d bytes, outside its parent", a.Tag(), off, size)
	}
	at := b[off-base:]
	if binary.BigEndian.Uint32(at) != uint32(size) || binary.BigEndian.Uint32(at[4:]) != uint32(a.Tag()) {
		return fmt.Errorf("%v at %d, %d bytes: there is %x", a.Tag(), off, size, at[:8])
	}
	for _, c := range a.Children() {
		if err := positions(c, at[:size], off); err != nil {
			return err
		}
	}
	return nil
}

func parentOf(name string) string {
	if name == "ElemStreamDesc" {
		return "mp4a"
	}
	return ""
}

// TestBoxes: any box value.
func TestBoxes(t *testing.T) {
	vt.Check(t, 2500, 150000, func(t *vt.T) {
		name := vt.Pick(t, "type", gen.BoxNames()...)
		box := gen.Box(t, name, "")
		n := box.Len()
		buf := append(make([]byte, n), bytes.Repeat([]byte{0xa5}, 24)...)
		if got := box.Marshal(buf); got != n {
			t.Fatalf("%s: Len is %d, Marshal returned %d", name, n, got)
		}
		if !bytes.Equal(buf[n:], bytes.Repeat([]byte{0xa5}, 24)) {
			t.Fatalf("%s: Marshal wrote past its %d bytes", name, n)
		}
		b := buf[:n]
		t.Save(b)
		if size := int(binary.BigEndian.Uint32(b)); size != n {
			t.Fatalf("%s: size field %d of a box of %d bytes", name, size, n)
		}
		want := gen.EncodeBox(box, nil)
		ws, err := shapeOf(want, parentOf(name))
		if err != nil {
			vt.Infra("reference encoding of %s: %v", name, err)
		}
		gs, err := shapeOf(b, parentOf(name))
		if err != nil {
			t.Fatalf("%s: bytes off the standard: %v\n% x", name, err, b)
		}
		if gs != ws {
			t.Fatalf("%s: bytes\n%s\nstandard\n%s", name, gs, ws)
		}
		for i := 0; i < 2; i++ {
			in := b
			if i == 1 { // an independent writer's bytes, children in any order
				in = gen.EncodeBox(box, func(n int) []int {
					p := make([]int, n)
					for k := range p {
						p[k] = k
					}
					for k := n - 1; k > 0; k-- {
						j := t.Int(0, k, "perm")
						p[k], p[j] = p[j], p[k]
					}
					return p
				})
			}
			base := t.Int(0, 1<<20, "base")
			back := gen.NewBox(name)
			if _, err := back.Unmarshal(append([]byte(nil), in...), base); err != nil {
				t.Fatalf("%s: own bytes refused: %v\n% x", name, err, in)
			}
			if d := gen.BoxDiff(back, box); d != "" {
				t.Fatalf("%s: read back %s\n% x", name, d, in)
			}
			if err := positions(back, in, base); err != nil {
				t.Fatalf("%s: %v", name, err)
			}
			if back.Len() != n {
				t.Fatalf("%s: length %d when read back, %d before", name, back.Len(), n)
			}
			if c := count(back); c != count(box) {
				t.Fatalf("%s: %d boxes when read back, %d before", name, c, count(box))
			}
		}
		mp4io.FprintAtom(io.Discard, box)
		if n > 12 {
			t.Nontrivial(name, b)
		}
		t.Label(name)
		t.Sample("%s of %d bytes, %d boxes", name, n, count(box))
	})
}

// TestFind: looking up boxes in a tree.
func TestFind(t *testing.T) {
	vt.Check(t, 300, 10000, func(t *vt.T) {
		box := gen.Box(t, vt.Pick(t, "type", "Movie", "Track", "MovieFrag", "Media"), "")
		tag := gen.BoxTag(t, nil, "tag")
		if t.Bool("known") {
			tag = vt.Pick(t, "known", "stts", "stsd", "avcC", "esds", "trak", "mvhd", "moov", "url ", "stco", "trun")
		}
		var all []mp4io.Atom
		var walk func(a mp4io.Atom)
		walk = func(a mp4io.Atom) {
			if a.Tag() == mp4io.StringToTag(tag) {
				all = append(all, a)
			}
			for _, c := range a.Children() {
				walk(c)
			}
		}
		walk(box)
		got := mp4io.FindChildrenByName(box, tag)
		if (got == nil) != (len(all) == 0) {
			t.Fatalf("looking for %q: found %v, there are %d", tag, got != nil, len(all))
		}
		if got != nil && got.Tag() != mp4io.StringToTag(tag) {
			t.Fatalf("looking for %q: found %v", tag, got.Tag())
		}
		t.Nontrivial(tag, len(all), count(box))
		t.Sample("%q: %d in a tree of %d", tag, len(all), count(box))
	})
}

// TestESDS: elementary stream descriptors of independent writers.
func TestESDS(t *testing.T) {
	vt.Check(t, 500, 30000, func(t *vt.T) {
		conf := t.Payload(vt.Pick(t, "n", 2, 2, 5, 0, 1, 127, 128, t.Int(0, 300, "nn")), "conf")
		o := ref.ESDSOpt{LenBytes: t.Int(1, 4, "len"), ESID: t.Int(0, 65535, "id"), DependsOn: t.OneIn(4, "dep"), OCR: t.OneIn(4, "ocr"), NoSL: t.OneIn(3, "nosl")}
		if t.OneIn(4, "url") {
			o.URL = t.Payload(t.Int(0, 255, "urln"), "url")
		}
		if t.OneIn(3, "extra") {
			// any other descriptor, also one whose bytes look like a configuration
			o.Extra = ref.Desc(vt.Pick(t, "xtag", byte(9), 10, 0x0e, 0x14, 0x80), o.LenBytes, ref.Desc(5, 1, []byte{1, 2, 3}))
		}
		if t.OneIn(3, "extradec") {
			o.ExtraDec = ref.Desc(vt.Pick(t, "dtag", byte(0x14), 0x40), o.LenBytes, []byte{5, 1, 9})
		}
		b := ref.ESDS(conf, o)
		t.Save(b)
		d := &mp4io.ElemStreamDesc{}
		if _, err := d.Unmarshal(b, 0); err != nil {
			t.Fatalf("refused: %v\n% x", err, b)
		}
		if !bytes.Equal(d.DecConfig, conf) || int(d.TrackId) != o.ESID {
			t.Fatalf("configuration % x id %d, written % x id %d\n% x", d.DecConfig, d.TrackId, conf, o.ESID, b)
		}
		t.Nontrivial(b)
		t.Sample("%d bytes of configuration in %d", len(conf), len(b))
	})
}

// TestFile: the boxes of a file.
func TestFile(t *testing.T) {
	vt.Check(t, 400, 20000, func(t *vt.T) {
		type want struct {
			tag       string
			off, size int
			box       mp4io.Atom
		}
		var file []byte
		var wants []want
		n := t.Int(0, 6, "n")
		for i := 0; i < n; i++ {
			l := fmt.Sprint(i)
			w := want{off: len(file)}
			var body []byte
			switch t.Int(0, 3, l+"kind") {
			case 0:
				w.tag, w.box = "moov", gen.Box(t, "Movie", l)
				body = gen.EncodeBox(w.box, nil)[8:]
			case 1:
				w.tag, w.box = "moof", gen.Box(t, "MovieFrag", l)
				body = gen.EncodeBox(w.box, nil)[8:]
			default:
				w.tag = vt.Pick(t, l+"tag", "mdat", "ftyp", "free", "skip", "uuid", "styp", "sidx", "wide")
				body = t.Payload(t.Int(0, 300, l+"len"), l+"body")
			}
			b := ref.Box(w.tag, body)
			switch {
			case t.OneIn(4, l+"64"):
				b = ref.Box64(w.tag, body)
			case i == n-1 && t.OneIn(3, l+"open"):
				copy(b, []byte{0, 0, 0, 0})
			}
			w.size = len(b)
			file = append(file, b...)
			wants = append(wants, w)
		}
		t.Save(file)
		atoms, err := mp4io.ReadFileAtoms(bytes.NewReader(file))
		if err != nil {
			t.Fatalf("refused: %v\n% x", err, file)
		}
		if len(atoms) != len(wants) {
			t.Fatalf("%d boxes read, %d in the file", len(atoms), len(wants))
		}
		for i, w := range wants {
			a := atoms[i]
			if a.Tag() != mp4io.StringToTag(w.tag) {
				t.Fatalf("box %d: %v, written %s", i, a.Tag(), w.tag)
			}
			off, size := a.Pos()
			if off != w.off || w.box == nil && size != w.size {
				t.Fatalf("box %d %s: at %d, %d bytes; written at %d, %d bytes", i, w.tag, off, size, w.off, w.size)
			}
			if w.box != nil {
				if d := gen.BoxDiff(a, w.box); d != "" {
					t.Fatalf("box %d: %s", i, d)
				}
			}
		}
		if n > 0 {
			t.Nontrivial(file)
		}
		t.Sample("%d boxes, %d bytes", n, len(file))
	})
}
