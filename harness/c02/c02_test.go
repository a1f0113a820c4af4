package c02

import (
	"bytes"
	"io"
	"testing"

	"github.com/nareix/joy5/format/flv"

	"joyverif/gen"
	"joyverif/ref"
	"joyverif/vt"
)

func TestMain(m *testing.M) { vt.Main(m) }

// What the muxer writes, read by a strict independent parser.
func TestWriterConforms(t *testing.T) {
	vt.Check(t, 3000, 50000, func(t *vt.T) {
		ps := gen.Packets(t, gen.PktOpts{Big: true}, "p")
		hv, ha, pub, hdr := t.Bool("video"), t.Bool("audio"), t.Bool("pub"), t.Bool("hdr")
		if len(ps) == 0 {
			hdr = true
		}
		var buf bytes.Buffer
		if err := gen.MuxFLV(&buf, ps, hv, ha, pub, hdr); err != nil {
			t.Fatalf("mux: %v", err)
		}
		f, err := ref.ParseFLV(buf.Bytes())
		if err != nil {
			t.Fatalf("not a well-formed FLV file: %v\n%s", err, gen.ShowPkts(ps))
		}
		want := byte(0)
		if hv {
			want |= 1
		}
		if ha {
			want |= 4
		}
		if f.Flags != want {
			t.Fatalf("flags %#x, want %#x", f.Flags, want)
		}
		if len(f.Tags) != len(ps) {
			t.Fatalf("%d packets, %d tags", len(ps), len(f.Tags))
		}
		for i, tag := range f.Tags {
			if s := gen.TagMatches(ps[i], tag, pub); s != "" {
				t.Fatalf("tag %d: %s\n%s", i, s, gen.ShowPkts(ps))
			}
		}
		if len(ps) >= 2 {
			t.Nontrivial("w", gen.PktKey(ps), hv, ha, pub)
		}
	})
}

// Files from an independent writer, read by the demuxer.
func TestReaderAcceptsStandardFiles(t *testing.T) {
	vt.Check(t, 4000, 70000, func(t *vt.T) {
		n := t.Int(0, 14, "n")
		var tags []ref.FLVTag
		var want []gen.Pkt
		skipped := 0
		for i := 0; i < n; i++ {
			tag, w := gen.RefTag(t, t.OneIn(8, "big"), "t")
			tags = append(tags, tag)
			if w != nil {
				want = append(want, *w)
			} else {
				skipped++
			}
		}
		off := 9
		if t.OneIn(4, "off") {
			off = 9 + vt.Pick(t, "offlen", 1, 3, 4, 100, 247, 256, 5000, 65536-9, 65536, 70000, 1<<17)
		}
		if t.OneIn(150, "faroff") {
			off = 9 + vt.Pick(t, "faroffset", 1<<20-9, 1<<20-8, 3<<20, 1<<24, 1<<24+1, 20<<20)
		}
		flags := vt.Pick(t, "flags", byte(0), 1, 4, 5)
		b, _ := ref.BuildFLV(flags, off, tags)
		d := flv.NewDemuxer(&vt.FragReader{B: b, Frags: t.Frags("frag"), EOFWithData: t.Bool("eofdata")})
		var gotFlags []uint8
		d.LogHeaderEvent = func(f uint8) { gotFlags = append(gotFlags, f) }
		got, err := gen.ReadAll(d, n+1)
		if err != io.EOF {
			t.Fatalf("after %d of %d packets: %v, want end of file\n%s", len(got), len(want), err, gen.ShowPkts(want))
		}
		if len(gotFlags) != 1 || gotFlags[0] != flags {
			t.Fatalf("flags %v, want %d", gotFlags, flags)
		}
		for i := range got {
			if i >= len(want) {
				t.Fatalf("extra packet %v", got[i])
			}
			if s := gen.SamePkt(want[i], got[i]); s != "" {
				t.Fatalf("packet %d: %s\nwant %s", i, s, gen.ShowPkts(want))
			}
		}
		if len(got) != len(want) {
			t.Fatalf("%d packets, want %d: %s", len(got), len(want), gen.ShowPkts(want))
		}
		t.LabelIf(off > 9, "longer header")
		t.LabelIf(skipped > 0, "tags to skip")
		for _, x := range tags {
			t.LabelIf(x.Type == 15, "AMF3 script tag")
		}
		if len(want) > 0 && skipped > 0 {
			t.Nontrivial("r", b)
			t.Sample("offset %d, %d tags skipped among: %s", off, skipped, gen.ShowPkts(want))
		}
	})
}

// Files that do not begin as an FLV file does are refused, whatever follows.
func TestNotFLV(t *testing.T) {
	vt.Check(t, 1500, 30000, func(t *vt.T) {
		n := t.Int(0, 5, "n")
		var tags []ref.FLVTag
		for i := 0; i < n; i++ {
			tag, _ := gen.RefTag(t, false, "t")
			tags = append(tags, tag)
		}
		b, _ := ref.BuildFLV(vt.Pick(t, "flags", byte(0), 1, 4, 5), 9, tags)
		how := vt.Pick(t, "how", "signature", "signature", "offset", "none")
		switch how {
		case "signature":
			i := t.Int(0, 2, "byte")
			b[i] ^= byte(t.Int(1, 255, "xor"))
		case "offset":
			copy(b[5:9], []byte{0, 0, 0, byte(t.Int(0, 8, "off"))})
		case "none": // the tags alone, long enough for a header
			b = append(b[9+4:], make([]byte, 32)...)
		}
		d := flv.NewDemuxer(&vt.FragReader{B: b, Frags: t.Frags("frag"), EOFWithData: t.Bool("eofdata")})
		p, err := d.ReadPacket()
		if err == nil {
			t.Fatalf("%s: packet %v read from what is no FLV file: %x", how, p, b)
		}
		if err == io.EOF {
			t.Fatalf("%s: a regular end reported for what is no FLV file: %x", how, b)
		}
		t.Label(how)
		if n > 0 {
			t.Nontrivial("x", b)
			t.Sample("%s: %d tags: %v", how, n, err)
		}
	})
}
