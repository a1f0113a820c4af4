package c19

import (
	"bytes"
	"fmt"
	"io"
	"math/big"
	"sort"
	"testing"
	"time"

	"github.com/nareix/joy5/av"
	"github.com/nareix/joy5/codec/aac"
	"github.com/nareix/joy5/codec/h264"
	"github.com/nareix/joy5/format/mp4"

	"joyverif/gen"
	"joyverif/ref"
	"joyverif/vt"
)

func TestMain(m *testing.M) { vt.Main(m) }

type track struct {
	typ    int
	conf   []byte
	codec  interface{}
	w, h   int
	pkts   []av.Packet
	maxGap time.Duration
}

func (tr *track) kind() string {
	if tr.typ == av.H264 {
		return "avc1"
	}
	return "mp4a"
}

func (tr *track) confPkt() av.Packet {
	if tr.typ == av.H264 {
		return av.Packet{Type: av.H264DecoderConfig, Data: tr.conf}
	}
	return av.Packet{Type: av.AACDecoderConfig, Data: tr.conf}
}

func drawTrack(t *vt.T, typ int, l string) *track {
	tr := &track{typ: typ}
	var err error
	if typ == av.H264 {
		tr.conf, tr.w, tr.h = gen.AVCConfig(t, l)
		tr.codec, err = h264.FromDecoderConfig(tr.conf)
	} else {
		tr.conf = gen.AACConfig(t, l)
		tr.codec, err = aac.FromMPEG4AudioConfigBytes(tr.conf)
	}
	if err != nil {
		t.Fatalf("configuration %x refused: %v", tr.conf, err)
	}
	return tr
}

// drawTimes draws non-decreasing times.
func drawTimes(t *vt.T, n int, l string) (out []time.Duration) {
	tm := vt.Pick(t, l+"t0", 0, time.Duration(t.Int(0, 1<<32-1, l+"ms0"))*time.Millisecond,
		time.Duration(t.I64(0, int64(1000*time.Hour), l+"ns0")))
	style := t.Int(0, 6, l+"gaps")
	step := time.Duration(t.I64(1, int64(200*time.Millisecond), l+"step"))
	for i := 0; i < n; i++ {
		out = append(out, tm)
		switch style {
		case 0: // milliseconds, as from FLV
			tm += time.Duration(t.Int(0, 100, l+"ms")) * time.Millisecond
		case 1: // constant
			tm += step
		case 2: // a rate whose period is no whole number of ticks
			tm = out[0] + time.Duration(int64(i+1)*int64(time.Second)*1024/44100)
		case 3: // runs of equal gaps
			if t.OneIn(4, l+"run") {
				step = time.Duration(t.I64(0, int64(time.Second), l+"step"))
			}
			tm += step
		case 4: // tiny gaps, under a tick
			tm += time.Duration(t.Int(0, 20000, l+"ns"))
		case 5: // long gaps
			tm += time.Duration(t.I64(0, int64(12*time.Hour), l+"ns"))
		default: // jumps
			if t.OneIn(3, l+"jump") {
				tm += time.Duration(t.I64(0, int64(time.Hour), l+"ns"))
			}
		}
	}
	return
}

func drawPkts(t *vt.T, tr *track, n int, l string) {
	times := drawTimes(t, n, l)
	keys := t.Int(0, 5, l+"keys")
	ct := t.Int(0, 4, l+"cts")
	last := time.Duration(0)
	for i := 0; i < n; i++ {
		p := av.Packet{Type: tr.typ, Time: times[i]}
		p.Data = t.Payload(gen.Size(t, t.OneIn(8, l+"big"), l+"size"), l+"data")
		if tr.typ == av.H264 {
			switch keys {
			case 0:
				p.IsKeyFrame = true
			case 1:
			case 2:
				p.IsKeyFrame = i == 0
			case 3:
				p.IsKeyFrame = i%5 == 0
			default:
				p.IsKeyFrame = t.Bool(l + "key")
			}
			switch ct {
			case 0:
			case 1:
				p.CTime = time.Duration(t.Int(0, 200, l+"ct")) * time.Millisecond
			case 2:
				p.CTime = time.Duration(t.Int(-200, 200, l+"ct")) * time.Millisecond
			case 3:
				if t.OneIn(3, l+"ctn") {
					last = time.Duration(t.I64(int64(-time.Second), int64(time.Second), l+"ct"))
				}
				p.CTime = last
			case 4:
				p.CTime = time.Duration(t.I64(int64(-6*time.Hour), int64(6*time.Hour), l+"ct"))
			}
		}
		tr.pkts = append(tr.pkts, p)
	}
}

// within tells whether ts ticks are tm within one tick.
func within(ts, scale int64, tm time.Duration) bool {
	d := new(big.Int).Mul(big.NewInt(ts), big.NewInt(int64(time.Second)))
	d.Sub(d, new(big.Int).Mul(big.NewInt(int64(tm)), big.NewInt(scale)))
	return d.CmpAbs(big.NewInt(int64(time.Second))) <= 0
}

// near tells whether two times differ by one tick at most (and a nanosecond of rounding).
func near(a, b time.Duration, scale int64) bool {
	d := a - b
	if d < 0 {
		d = -d
	}
	return d <= time.Duration(int64(time.Second)/scale)+2
}

func find(tracks []*track, kind string) *track {
	for _, tr := range tracks {
		if tr.kind() == kind {
			return tr
		}
	}
	return nil
}

// verify compares the file with what was written, by both readers.
func verify(t *vt.T, file []byte, tracks []*track) {
	got, err := ref.ParseMP4(file)
	if err != nil {
		t.Fatalf("the file is off the standard: %v", err)
	}
	if len(got) != len(tracks) {
		t.Fatalf("%d tracks in the file, %d written", len(got), len(tracks))
	}
	scale := map[int]int64{}
	for _, g := range got {
		tr := find(tracks, g.Kind)
		if tr == nil {
			t.Fatalf("track %q", g.Kind)
		}
		scale[tr.typ] = g.TimeScale
		if !bytes.Equal(g.Config, tr.conf) {
			t.Fatalf("%s configuration %x, written %x", g.Kind, g.Config, tr.conf)
		}
		if tr.typ == av.H264 && (g.W != tr.w&0xffff || g.H != tr.h&0xffff) {
			t.Fatalf("picture %dx%d, written %dx%d", g.W, g.H, tr.w, tr.h)
		}
		if tr.typ == av.AAC {
			c := tr.codec.(*aac.Codec).Config
			if n := c.ChannelLayout.Count(); n > 0 && g.Channels != n {
				t.Fatalf("%d channels in the sample entry, %d written", g.Channels, n)
			}
			if g.Bits != 16 {
				t.Fatalf("sample size %d in the sample entry, where audio has 16", g.Bits)
			}
			rate := int(g.Rate >> 16)
			if c.SampleRate <= 0xffff && rate != c.SampleRate || c.SampleRate > 0xffff && rate != 0 && c.SampleRate%rate != 0 || g.Rate&0xffff != 0 {
				t.Fatalf("sample rate %d/65536 in the sample entry, %d written", g.Rate, c.SampleRate)
			}
		}
		if len(g.Samples) != len(tr.pkts) {
			t.Fatalf("%s: %d samples, %d written", g.Kind, len(g.Samples), len(tr.pkts))
		}
		for i, s := range g.Samples {
			p := tr.pkts[i]
			if !bytes.Equal(s.Data, p.Data) {
				t.Fatalf("%s sample %d: %d bytes differ from the %d written", g.Kind, i, len(s.Data), len(p.Data))
			}
			if !within(s.DTS, g.TimeScale, p.Time-tr.pkts[0].Time) {
				t.Fatalf("%s sample %d of %d: time %d/%d, written %v after the first", g.Kind, i, len(tr.pkts), s.DTS, g.TimeScale, p.Time-tr.pkts[0].Time)
			}
			if !within(s.Cts, g.TimeScale, p.CTime) {
				t.Fatalf("%s sample %d: composition offset %d/%d, written %v", g.Kind, i, s.Cts, g.TimeScale, p.CTime)
			}
			if tr.typ == av.H264 && s.Sync != p.IsKeyFrame {
				t.Fatalf("%s sample %d: sync %v, written %v", g.Kind, i, s.Sync, p.IsKeyFrame)
			}
		}
	}

	d := mp4.NewDemuxer(bytes.NewReader(file))
	if t.Bool("streamsfirst") {
		streams, err := d.Streams()
		if err != nil {
			t.Fatalf("demuxer: %v", err)
		}
		if len(streams) != len(tracks) {
			t.Fatalf("%d streams read, %d written", len(streams), len(tracks))
		}
		for _, s := range streams {
			typ, err := mp4.CodecType(s)
			if err != nil {
				t.Fatalf("stream type: %v", err)
			}
			for _, tr := range tracks {
				if tr.typ != typ {
					continue
				}
				switch c := s.(type) {
				case *h264.Codec:
					if !bytes.Equal(c.ConfigBytes, tr.conf) || !c.Equal(*tr.codec.(*h264.Codec)) {
						t.Fatalf("H.264 configuration %x, written %x", c.ConfigBytes, tr.conf)
					}
				case *aac.Codec:
					if !bytes.Equal(c.ConfigBytes, tr.conf) || c.Config != tr.codec.(*aac.Codec).Config {
						t.Fatalf("AAC configuration %x %+v, written %x", c.ConfigBytes, c.Config, tr.conf)
					}
				}
			}
		}
	}
	next := map[int]int{}
	last := time.Duration(0)
	for {
		p, err := d.ReadPacket()
		if err == io.EOF {
			break
		}
		if err != nil {
			t.Fatalf("reading: %v", err)
		}
		var tr *track
		for _, x := range tracks {
			if x.typ == p.Type {
				tr = x
			}
		}
		if tr == nil {
			t.Fatalf("packet of type %d read", p.Type)
		}
		i := next[p.Type]
		next[p.Type]++
		if i >= len(tr.pkts) {
			t.Fatalf("%s: more than the %d packets written", tr.kind(), len(tr.pkts))
		}
		w := tr.pkts[i]
		if !bytes.Equal(p.Data, w.Data) {
			t.Fatalf("%s packet %d: %d bytes read differ from the %d written", tr.kind(), i, len(p.Data), len(w.Data))
		}
		if p.IsKeyFrame != w.IsKeyFrame {
			t.Fatalf("%s packet %d: keyframe %v, written %v", tr.kind(), i, p.IsKeyFrame, w.IsKeyFrame)
		}
		if !near(p.Time, w.Time-tr.pkts[0].Time, scale[tr.typ]) {
			t.Fatalf("%s packet %d of %d: time %v, written %v after the first", tr.kind(), i, len(tr.pkts), p.Time, w.Time-tr.pkts[0].Time)
		}
		if !near(p.CTime, w.CTime, scale[tr.typ]) {
			t.Fatalf("%s packet %d: composition offset %v, written %v", tr.kind(), i, p.CTime, w.CTime)
		}
		if p.Time < last {
			t.Fatalf("%s packet %d at %v after one at %v", tr.kind(), i, p.Time, last)
		}
		last = p.Time
	}
	for _, tr := range tracks {
		if next[tr.typ] != len(tr.pkts) {
			t.Fatalf("%s: %d packets read of %d before the end", tr.kind(), next[tr.typ], len(tr.pkts))
		}
	}
	for i := 0; i < 2; i++ {
		if p, err := d.ReadPacket(); err != io.EOF {
			t.Fatalf("after the end: %v, %v", p, err)
		}
	}
}

// weave merges the packets of the tracks: by time, or anyhow.
func weave(t *vt.T, tracks []*track) (out []av.Packet) {
	switch {
	case len(tracks) == 0:
	case len(tracks) == 1:
		out = append(out, tracks[0].pkts...)
	case t.Bool("bytime"):
		for _, tr := range tracks {
			out = append(out, tr.pkts...)
		}
		sort.SliceStable(out, func(i, j int) bool { return out[i].Time < out[j].Time })
	default:
		a, b := tracks[0].pkts, tracks[1].pkts
		for len(a)+len(b) > 0 {
			if len(b) == 0 || len(a) > 0 && t.Bool("which") {
				out, a = append(out, a[0]), a[1:]
			} else {
				out, b = append(out, b[0]), b[1:]
			}
		}
	}
	return
}

func drawTracks(t *vt.T, max int) (tracks []*track) {
	switch t.Int(0, 4, "tracks") {
	case 0:
		tracks = []*track{drawTrack(t, av.H264, "v")}
	case 1:
		tracks = []*track{drawTrack(t, av.AAC, "a")}
	default:
		tracks = []*track{drawTrack(t, av.H264, "v"), drawTrack(t, av.AAC, "a")}
		if t.Bool("swap") {
			tracks[0], tracks[1] = tracks[1], tracks[0]
		}
	}
	for i, tr := range tracks {
		n := t.Int(0, max, fmt.Sprintf("n%d", i))
		drawPkts(t, tr, n, fmt.Sprintf("p%d", i))
	}
	return
}

func kinds(tracks []*track) (s string, n int) {
	for _, tr := range tracks {
		s += tr.kind()
		n += len(tr.pkts)
	}
	return
}

// TestRoundTrip records and reads back.
func TestRoundTrip(t *testing.T) {
	vt.Check(t, 400, 40000, func(t *vt.T) {
		tracks := drawTracks(t, vt.Pick(t, "max", 3, 20, 20, 60))
		f := &gen.MemFile{Limit: -1}
		var codecs []interface{}
		for _, tr := range tracks {
			codecs = append(codecs, tr.codec)
		}
		how := vt.Pick(t, "how", "given", "given", "given", "late", "packets")
		var confs []av.Packet
		switch how {
		case "given":
			f.Codec = codecs
		case "late": // the streams come up one after the other
			f.After = func(n int) []interface{} {
				if n > len(codecs) {
					n = len(codecs) + 1
				}
				if n == 1 {
					return nil
				}
				return codecs[:n-1]
			}
		case "packets": // the streams are known from configuration packets
			for _, tr := range tracks {
				if t.OneIn(3, "replaced") { // no media yet: the last one counts
					confs = append(confs, drawTrack(t, tr.typ, "other").confPkt())
					t.Label("replaced configuration")
				}
				confs = append(confs, tr.confPkt())
			}
			if t.Bool("meta") {
				confs = append(confs, av.Packet{Type: av.Metadata, Data: []byte{2, 0, 0, 5}})
			}
		}
		m, err := mp4.NewMuxer(f)
		if err != nil {
			t.Fatalf("NewMuxer: %v", err)
		}
		pkts := append(confs, weave(t, tracks)...)
		if how == "late" {
			// a stream is there when its first packet comes, in the order of the streams
			seen := map[int]bool{}
			var order []int
			for _, p := range pkts {
				if !seen[p.Type] {
					seen[p.Type] = true
					order = append(order, p.Type)
				}
			}
			if len(order) == 2 && order[0] != tracks[0].typ {
				codecs[0], codecs[1] = codecs[1], codecs[0]
			}
			if len(order) == 1 && len(tracks) == 2 && order[0] != tracks[0].typ {
				codecs[0], codecs[1] = codecs[1], codecs[0]
			}
			var there []*track
			for _, tr := range tracks {
				if seen[tr.typ] {
					there = append(there, tr)
				}
			}
			tracks = there
		}
		if t.OneIn(5, "hdr") {
			if err := m.WriteFileHeader(); err != nil {
				t.Fatalf("header: %v", err)
			}
		}
		again := how != "late" && t.Bool("again")
		seen := map[int]bool{}
		for i, p := range pkts {
			if again && i >= len(confs) && len(tracks) > 0 && t.OneIn(3, "conf") {
				tr := vt.Pick(t, "confof", tracks...)
				if err := m.WritePacket(tr.confPkt()); err != nil {
					t.Fatalf("the %s configuration sent again before packet %d: %v", tr.kind(), i, err)
				}
				t.Label("repeated configuration")
			}
			if again && len(tracks) > 0 && t.OneIn(10, "new") {
				tr := vt.Pick(t, "newof", tracks...)
				if other := drawTrack(t, tr.typ, "new"); seen[tr.typ] && !bytes.Equal(other.conf, tr.conf) {
					if err := m.WritePacket(other.confPkt()); err == nil {
						t.Fatalf("another %s configuration accepted after packets of the stream", tr.kind())
					}
					t.Label("changed configuration")
				}
			}
			seen[p.Type] = true
			// the muxer gets its own copy of the packet
			if err := m.WritePacket(p); err != nil {
				t.Fatalf("packet %d %v: %v", i, p, err)
			}
		}
		if err := m.WriteTrailer(); err != nil {
			t.Fatalf("trailer: %v", err)
		}
		k, n := kinds(tracks)
		t.Label(how)
		t.LabelIf(len(tracks) == 2, "two streams")
		if n > 0 {
			t.Nontrivial(k, n, len(f.B), pkts[len(pkts)-1].Time)
		}
		t.Sample("%s %s: %d packets, %d bytes", how, k, n, len(f.B))
		t.Save(f.B)
		verify(t, f.B, tracks)
	})
}

// TestDrift records many packets at rates whose period is not a whole number of ticks.
func TestDrift(t *testing.T) {
	vt.Check(t, 15, 400, func(t *vt.T) {
		typ := vt.Pick(t, "typ", av.H264, av.AAC)
		tr := drawTrack(t, typ, "x")
		n := t.Int(200, 4000, "n")
		num := t.I64(1, 4096, "num")
		den := vt.Pick(t, "den", int64(44100), 48000, 30000, 24000, 11025, t.I64(1000, 100000, "denx"))
		start := time.Duration(t.I64(0, int64(200*time.Hour), "start"))
		jitter := t.Int(0, 3, "jit") == 0
		for i := 0; i < n; i++ {
			tm := time.Duration(int64(i) * num * int64(time.Second) / den)
			if jitter {
				tm = tm / time.Millisecond * time.Millisecond
			}
			tr.pkts = append(tr.pkts, av.Packet{Type: typ, Time: start + tm, IsKeyFrame: typ == av.H264 && i%50 == 0, Data: []byte{byte(i), byte(i >> 8)}})
		}
		f := &gen.MemFile{Limit: -1, Codec: []interface{}{tr.codec}}
		m, err := mp4.NewMuxer(f)
		if err != nil {
			t.Fatalf("NewMuxer: %v", err)
		}
		for _, p := range tr.pkts {
			if err := m.WritePacket(p); err != nil {
				t.Fatalf("%v: %v", p, err)
			}
		}
		if err := m.WriteTrailer(); err != nil {
			t.Fatalf("trailer: %v", err)
		}
		t.Nontrivial(n, num, den)
		t.Sample("%d packets at %d/%d s", n, num, den)
		t.Save(f.B)
		verify(t, f.B, []*track{tr})
	})
}

// TestRefused sends packets the format cannot take in between: they are
// refused, and the others are recorded.
func TestRefused(t *testing.T) {
	vt.Check(t, 150, 10000, func(t *vt.T) {
		tracks := drawTracks(t, 12)
		f := &gen.MemFile{Limit: -1}
		for _, tr := range tracks {
			f.Codec = append(f.Codec, tr.codec)
		}
		m, err := mp4.NewMuxer(f)
		if err != nil {
			t.Fatalf("NewMuxer: %v", err)
		}
		last := map[int]*av.Packet{}
		bad := 0
		for _, p := range weave(t, tracks) {
			if l := last[p.Type]; l != nil && t.OneIn(4, "old") {
				old := av.Packet{Type: p.Type, Time: l.Time - time.Duration(t.I64(1, int64(time.Hour), "back")), Data: []byte{0xee}}
				if err := m.WritePacket(old); err == nil {
					t.Fatalf("packet at %v accepted after one at %v", old.Time, l.Time)
				}
				bad++
			}
			if t.OneIn(6, "alien") && len(tracks) == 1 {
				other := av.AAC
				if tracks[0].typ == av.AAC {
					other = av.H264
				}
				if err := m.WritePacket(av.Packet{Type: other, Data: []byte{1}}); err == nil {
					t.Fatalf("packet without stream accepted")
				}
				bad++
			}
			if t.OneIn(8, "noconf") {
				c := tracks[t.Int(0, len(tracks)-1, "noconfof")].confPkt()
				c.Data = c.Data[:t.Int(0, 1, "noconflen")]
				if err := m.WritePacket(c); err == nil {
					t.Fatalf("configuration %x accepted", c.Data)
				}
				bad++
			}
			p := p
			if err := m.WritePacket(p); err != nil {
				t.Fatalf("%v: %v", p, err)
			}
			last[p.Type] = &p
		}
		if err := m.WriteTrailer(); err != nil {
			t.Fatalf("trailer: %v", err)
		}
		if bad > 0 {
			k, n := kinds(tracks)
			t.Nontrivial(k, n, bad)
		}
		t.Sample("%d refused packets", bad)
		t.Save(f.B)
		verify(t, f.B, tracks)
	})
}

// TestDiskFull has the file fail at any byte: some call reports it.
func TestDiskFull(t *testing.T) {
	vt.Check(t, 120, 8000, func(t *vt.T) {
		tracks := drawTracks(t, 10)
		pkts := weave(t, tracks)
		run := func(limit int64) (f *gen.MemFile, err error) {
			f = &gen.MemFile{Limit: limit}
			for _, tr := range tracks {
				f.Codec = append(f.Codec, tr.codec)
			}
			m, err := mp4.NewMuxer(f)
			if err != nil {
				t.Fatalf("NewMuxer: %v", err)
			}
			for _, p := range pkts {
				if err = m.WritePacket(p); err != nil {
					return
				}
			}
			err = m.WriteTrailer()
			return
		}
		f, err := run(-1)
		if err != nil {
			t.Fatalf("writing: %v", err)
		}
		limit := t.I64(0, int64(len(f.B)-1), "limit")
		if f, err = run(limit); err == nil {
			t.Fatalf("no error when the file is full after %d bytes (%d writes failed)", limit, f.Fails)
		}
		t.Nontrivial(len(pkts), limit)
		t.Sample("%d packets, full after %d bytes: %v", len(pkts), limit, err)
	})
}

// hugeFile keeps small writes and counts the others.
type hugeFile struct {
	codecs []interface{}
	pos    int64
	end    int64
	head   [8]byte
	tail   []byte
}

func (f *hugeFile) Streams() ([]interface{}, error) { return f.codecs, nil }
func (f *hugeFile) Write(p []byte) (int, error) {
	if f.pos < 8 {
		copy(f.head[f.pos:], p)
	} else if len(p) < 1<<16 {
		f.tail = append(f.tail, p...)
	}
	f.pos += int64(len(p))
	if f.pos > f.end {
		f.end = f.pos
	}
	return len(p), nil
}
func (f *hugeFile) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case 1:
		off += f.pos
	case 2:
		off += f.end
	}
	f.pos = off
	return off, nil
}

// TestHuge records more than the 32-bit offsets can address: what does not
// fit is refused and the rest stays readable.
func TestHuge(t *testing.T) {
	vt.Check(t, 6, 60, func(t *vt.T) {
		tr := drawTrack(t, av.H264, "v")
		big := make([]byte, t.Int(200<<20, 900<<20, "size"))
		f := &hugeFile{codecs: []interface{}{tr.codec}}
		m, err := mp4.NewMuxer(f)
		if err != nil {
			t.Fatalf("NewMuxer: %v", err)
		}
		n := 0
		refused := false
		for i := 0; i < 25; i++ {
			fits := int64(8)+int64(n+1)*int64(len(big)) <= 0xffffffff
			err := m.WritePacket(av.Packet{Type: av.H264, IsKeyFrame: true, Time: time.Duration(i) * time.Second, Data: big})
			if fits && err != nil {
				t.Fatalf("packet %d of %d bytes: %v", i, len(big), err)
			}
			if !fits {
				if err == nil {
					continue // may be refused later
				}
				refused = true
				break
			}
			n++
		}
		err = m.WriteTrailer()
		if !refused && err == nil {
			t.Fatalf("25 packets of %d bytes accepted", len(big))
		}
		if refused {
			if err != nil {
				t.Fatalf("trailer after a refused packet: %v", err)
			}
			if size := int64(f.head[0])<<24 | int64(f.head[1])<<16 | int64(f.head[2])<<8 | int64(f.head[3]); size != 8+int64(n)*int64(len(big)) {
				t.Fatalf("media data box of %d bytes for %d packets of %d", size, n, len(big))
			}
			moov := f.tail
			off := bytes.Index(moov, []byte("stco"))
			if off < 0 {
				t.Fatalf("no chunk offsets in the trailer")
			}
			for i := 0; i < n; i++ {
				e := moov[off+12+4*i:]
				got := int64(e[0])<<24 | int64(e[1])<<16 | int64(e[2])<<8 | int64(e[3])
				if got != 8+int64(i)*int64(len(big)) {
					t.Fatalf("sample %d at %d, written at %d", i, got, 8+int64(i)*int64(len(big)))
				}
			}
		}
		t.Nontrivial(len(big))
		t.Sample("%d packets of %d bytes, the next refused", n, len(big))
	})
}
