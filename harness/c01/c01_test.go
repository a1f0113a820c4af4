package c01

import (
	"bytes"
	"io"
	"testing"

	"github.com/nareix/joy5/av"
	"github.com/nareix/joy5/format/flv"
	"github.com/nareix/joy5/format/flv/flvio"

	"joyverif/gen"
	"joyverif/vt"
)

func TestMain(m *testing.M) { vt.Main(m) }

// Mux then demux, over generated packet histories and read fragmentations.
func TestMuxDemux(t *testing.T) {
	vt.Check(t, 4000, 60000, func(t *vt.T) {
		ps := gen.Packets(t, gen.PktOpts{Big: true}, "p")
		hv, ha, pub, hdr := t.Bool("video"), t.Bool("audio"), t.Bool("pub"), t.Bool("hdr")
		var buf bytes.Buffer
		keep := make([][]byte, len(ps))
		for i := range ps {
			keep[i] = append([]byte(nil), ps[i].P.Data...)
		}
		if err := gen.MuxFLV(&buf, ps, hv, ha, pub, hdr); err != nil {
			t.Fatalf("muxing %s: %v", gen.ShowPkts(ps), err)
		}
		for i := range ps {
			if !bytes.Equal(keep[i], ps[i].P.Data) {
				t.Fatalf("muxing changed the caller's payload of packet %d", i)
			}
		}
		if len(ps) == 0 && !hdr {
			if buf.Len() != 0 {
				t.Fatalf("%d bytes written for nothing", buf.Len())
			}
			return
		}
		fr := &vt.FragReader{B: buf.Bytes(), Frags: t.Frags("frag"), EOFWithData: t.Bool("eofdata")}
		d := flv.NewDemuxer(fr)
		var flags []uint8
		d.LogHeaderEvent = func(f uint8) { flags = append(flags, f) }
		var got []av.Packet
		var err error
		explicit := t.Bool("readhdr")
		if explicit {
			if err = d.ReadFileHeader(); err != nil {
				t.Fatalf("header: %v", err)
			}
		}
		got, err = gen.ReadAll(d, len(ps)+2)
		if err != io.EOF {
			t.Fatalf("after %d of %d packets: error %v, want end of file\n%s", len(got), len(ps), err, gen.ShowPkts(ps))
		}
		if len(got) != len(ps) {
			t.Fatalf("wrote %d packets, read %d\n%s", len(ps), len(got), gen.ShowPkts(ps))
		}
		for i := range ps {
			if s := gen.SamePkt(ps[i], got[i]); s != "" {
				t.Fatalf("packet %d: %s\n%s", i, s, gen.ShowPkts(ps))
			}
		}
		// all packets stay valid after later reads (no shared buffers)
		want := uint8(0)
		if hv {
			want |= flvio.FILE_HAS_VIDEO
		}
		if ha {
			want |= flvio.FILE_HAS_AUDIO
		}
		if len(flags) != 1 || flags[0] != want {
			t.Fatalf("header flags %v, want one %d", flags, want)
		}
		types := map[int]bool{}
		ext, neg, big, empty := false, false, false, false
		for _, p := range ps {
			types[p.P.Type] = true
			ext = ext || p.P.Time.Milliseconds() > 0xffffff
			neg = neg || p.P.CTime < 0
			big = big || len(p.P.Data) > 65535
			empty = empty || len(p.P.Data) == 0
		}
		t.LabelIf(ext, "extended timestamp")
		t.LabelIf(neg, "negative composition offset")
		t.LabelIf(big, "payload above 64 KiB")
		t.LabelIf(empty, "empty payload")
		if len(ps) >= 2 && len(types) >= 2 {
			t.Nontrivial(gen.PktKey(ps), hv, ha, pub)
			t.Sample("%s", gen.ShowPkts(ps))
		}
	})
}

// Tags (the lower layer) survive as well, with every header field.
func TestTags(t *testing.T) {
	vt.Check(t, 3000, 40000, func(t *vt.T) {
		n := t.Int(1, 6, "n")
		var buf bytes.Buffer
		m := flv.NewMuxer(gen.SW{Writer: &buf})
		var tags []flvio.Tag
		for i := 0; i < n; i++ {
			tag := flvio.Tag{Time: gen.Ms32(t, "time"), Data: t.Payload(gen.Size(t, false, "size"), "data")}
			switch t.Int(0, 3, "type") {
			case 0:
				tag.Type = flvio.TAG_AUDIO
				tag.SoundFormat = uint8(vt.Pick(t, "sf", 0, 2, 10, 10, 10, 11, 15))
				tag.SoundRate = uint8(t.Int(0, 3, "sr"))
				tag.SoundSize = uint8(t.Int(0, 1, "ss"))
				tag.SoundType = uint8(t.Int(0, 1, "st"))
				if tag.SoundFormat == flvio.SOUND_AAC {
					tag.AACPacketType = uint8(t.Int(0, 1, "apt"))
				}
			case 1, 2:
				tag.Type = flvio.TAG_VIDEO
				tag.FrameType = uint8(t.Int(1, 5, "ft"))
				tag.VideoFormat = uint8(vt.Pick(t, "vf", 2, 4, 7, 7, 7, 12))
				if tag.VideoFormat == flvio.VIDEO_H264 || tag.VideoFormat == flvio.VIDEO_H265 {
					tag.AVCPacketType = uint8(t.Int(0, 2, "vpt"))
					tag.CTime = int32(gen.CTimeMs(t, "ct"))
				}
			default:
				tag.Type = uint8(vt.Pick(t, "tt", 18, 15, 9+32, 1, 200))
			}
			tags = append(tags, tag)
			if err := m.WriteTag(tag); err != nil {
				t.Fatalf("tag %d: %v", i, err)
			}
		}
		d := flv.NewDemuxer(&vt.FragReader{B: buf.Bytes(), Frags: t.Frags("frag")})
		var got []flvio.Tag
		for {
			g, err := d.ReadTag()
			if err != nil {
				if err != io.EOF {
					t.Fatalf("after %d of %d tags: %v", len(got), n, err)
				}
				break
			}
			got = append(got, g)
			if len(got) > n {
				break
			}
		}
		if len(got) != n {
			t.Fatalf("%d tags written, %d read", n, len(got))
		}
		for i, g := range got {
			w := tags[i]
			if g.Type != w.Type || g.Time != w.Time || !bytes.Equal(g.Data, w.Data) ||
				g.SoundFormat != w.SoundFormat || g.SoundRate != w.SoundRate || g.SoundSize != w.SoundSize || g.SoundType != w.SoundType ||
				g.AACPacketType != w.AACPacketType || g.FrameType != w.FrameType || g.VideoFormat != w.VideoFormat ||
				g.AVCPacketType != w.AVCPacketType || g.CTime != w.CTime {
				t.Fatalf("tag %d: wrote %+v, read %+v", i, w, g)
			}
		}
		t.Nontrivial(buf.Bytes())
	})
}

var huge = make([]byte, 1<<25)

// What the 24-bit size of a tag cannot tell is refused, and the file goes on as
// if it had not been written.
func TestSizeLimit(t *testing.T) {
	vt.Check(t, 24, 200, func(t *vt.T) {
		video := t.Bool("video")
		head := 2
		if video {
			head = 5
		}
		n := 0xffffff - head + t.Int(-2, 3, "near")
		if t.OneIn(3, "far") {
			n = vt.Pick(t, "size", 1<<24, 1<<24+1, 1<<24+100, 1<<25-1, 1<<25)
		}
		data := huge[:n]
		for i := 0; i < 8; i++ {
			data[t.Int(0, n-1, "pos")] = byte(t.Int(0, 255, "byte"))
		}
		mk := func(data []byte) av.Packet {
			if video {
				return av.Packet{Type: av.H264, Data: data}
			}
			return av.Packet{Type: av.AAC, Data: data}
		}
		small := av.Packet{Type: av.AAC, Data: []byte{1, 2, 3}}
		buf := bytes.NewBuffer(make([]byte, 0, 1<<25+4096))
		m := flv.NewMuxer(gen.SW{Writer: buf})
		first := t.Bool("first")
		want := []av.Packet{}
		if first {
			if err := m.WritePacket(small); err != nil {
				t.Fatalf("first: %v", err)
			}
			want = append(want, small)
		}
		fits := n+head <= 0xffffff
		err := m.WritePacket(mk(data))
		if fits != (err == nil) {
			t.Fatalf("payload of %d bytes: error %v", n, err)
		}
		if fits {
			want = append(want, mk(data))
		}
		if err := m.WritePacket(small); err != nil {
			t.Fatalf("last: %v", err)
		}
		want = append(want, small)
		got, err := gen.ReadAll(flv.NewDemuxer(buf), 5)
		if err != io.EOF || len(got) != len(want) {
			t.Fatalf("payload of %d bytes, refused %v: %d packets of %d, then %v", n, !fits, len(got), len(want), err)
		}
		for i := range want {
			if got[i].Type != want[i].Type || !bytes.Equal(got[i].Data, want[i].Data) {
				t.Fatalf("payload of %d bytes: packet %d of %d bytes differs", n, i, len(got[i].Data))
			}
		}
		t.LabelIf(fits, "just fits")
		t.LabelIf(!fits, "too large")
		t.Nontrivial(n, video, first)
	})
}
