package c16

import (
	"bytes"
	"fmt"
	"io"
	"testing"
	"time"

	"github.com/nareix/joy5/codec/aac"

	"joyverif/ref"
	"joyverif/vt"
)

func TestMain(m *testing.M) { vt.Main(m) }

var rates = []int{96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000, 7350}

const fc, fl, fr, bc, bl, br, sl, sr, lfe = aac.CH_FRONT_CENTER, aac.CH_FRONT_LEFT, aac.CH_FRONT_RIGHT, aac.CH_BACK_CENTER,
	aac.CH_BACK_LEFT, aac.CH_BACK_RIGHT, aac.CH_SIDE_LEFT, aac.CH_SIDE_RIGHT, aac.CH_LOW_FREQ

var layouts = []aac.ChannelLayout{0, fc, fl | fr, fc | fl | fr, fc | fl | fr | bc, fc | fl | fr | bl | br, fc | fl | fr | bl | br | lfe, fc | fl | fr | bl | br | sl | sr | lfe}
var counts = []int{0, 1, 2, 3, 4, 5, 6, 8}

// audioConfig is the reference encoding (ISO/IEC 14496-3, 1.6.2.1).
func audioConfig(typ, idx, rate, ch int) []byte {
	w := &ref.BitBuf{}
	if typ >= 32 {
		w.U(31, 5)
		w.U(uint64(typ-32), 6)
	} else {
		w.U(uint64(typ), 5)
	}
	w.U(uint64(idx), 4)
	if idx == 15 {
		w.U(uint64(rate), 24)
	}
	w.U(uint64(ch), 4)
	return w.Bytes()
}

func drawType(t *vt.T) int {
	typ := vt.Pick(t, "type", 1, 2, 3, 4, 5, 29, 17, 23, 30, 32, 39, 42, 95, t.Int(1, 95, "typea"))
	if typ == 31 {
		typ = 2
	}
	return typ
}

// short takes n bytes.
type short struct{ n int }

func (s *short) Write(b []byte) (int, error) {
	if len(b) > s.n {
		n := s.n
		s.n = 0
		return n, io.ErrShortWrite
	}
	s.n -= len(b)
	return len(b), nil
}

func TestConfig(t *testing.T) {
	vt.Check(t, 8000, 200000, func(t *vt.T) {
		typ := drawType(t)
		idx := t.Int(0, 12, "idx")
		rate := rates[idx]
		if t.OneIn(4, "explicit") {
			idx = 15
			rate = vt.Pick(t, "rate", 1, 12, 13, 14, 15, 44056, 96000, 44100, 192000, 1<<24-1, t.Int(1, 1<<24-1, "ratea"))
		}
		ch := t.Int(0, 7, "ch")
		want := aac.MPEG4AudioConfig{SampleRate: rate, ChannelLayout: layouts[ch], ObjectType: uint(typ), SampleRateIndex: uint(idx), ChannelConfig: uint(ch)}
		b := audioConfig(typ, idx, rate, ch)
		var buf bytes.Buffer
		if err := aac.WriteMPEG4AudioConfig(&buf, want); err != nil {
			t.Fatalf("writing %+v: %v", want, err)
		}
		if !bytes.Equal(buf.Bytes(), b) {
			t.Fatalf("%+v written as %x, want %x", want, buf.Bytes(), b)
		}
		full := 0
		if len(b) > 0 {
			full = t.Int(0, len(b)-1, "full")
		}
		if err := aac.WriteMPEG4AudioConfig(&short{full}, want); err == nil {
			t.Fatalf("writing %+v to a destination that takes %d of %d bytes succeeds", want, full, len(b))
		}
		src := b
		if t.OneIn(4, "ext") { // extension data behind the base configuration
			src = append(append([]byte(nil), b...), t.RawBytes(8, "extb")...)
		}
		got, err := aac.ParseMPEG4AudioConfigBytes(src)
		if err != nil || got != want {
			t.Fatalf("%x parsed as %+v, %v, want %+v", src, got, err, want)
		}
		if !got.IsValid() {
			t.Fatalf("%+v reported as not valid", got)
		}
		if n := got.ChannelLayout.Count(); n != counts[ch] {
			t.Fatalf("channel configuration %d has %d channels, want %d", ch, n, counts[ch])
		}
		c, err := aac.FromMPEG4AudioConfigBytes(src)
		if err != nil || c.Config != want || !bytes.Equal(c.ConfigBytes, src) {
			t.Fatalf("codec of %x: %+v, %v", src, c, err)
		}
		// a configuration given by sample rate and layout instead of indexes
		if idx != 15 || indexOf(rate) < 0 {
			byVal := want
			if t.Bool("norate") {
				byVal.SampleRateIndex = 0
			}
			if t.Bool("noch") {
				byVal.ChannelConfig = 0
			}
			buf.Reset()
			if err := aac.WriteMPEG4AudioConfig(&buf, byVal); err != nil || !bytes.Equal(buf.Bytes(), b) {
				t.Fatalf("%+v written as %x, %v, want %x", byVal, buf.Bytes(), err, b)
			}
		}
		if d, w := aac.PacketDuration(want, t.RawBytes(20, "frame")), time.Duration(1024)*time.Second/time.Duration(rate); d != w {
			t.Fatalf("frame duration at %d Hz is %v, want %v", rate, d, w)
		}
		// every cut below the size is an error
		for i := range b {
			cut := b[:i:i]
			if _, err := aac.ParseMPEG4AudioConfigBytes(cut); err == nil {
				t.Fatalf("configuration %x cut at %d accepted", b, i)
			}
			if _, err := aac.FromMPEG4AudioConfigBytes(cut); err == nil {
				t.Fatalf("configuration %x cut at %d accepted as codec", b, i)
			}
		}
		t.LabelIf(idx == 15, "explicit rate")
		t.LabelIf(typ >= 32, "escaped type")
		t.Nontrivial("cfg", b)
		t.Sample("type %d rate %d (index %d) channels %d: %x", typ, rate, idx, ch, b)
	})
}

func indexOf(rate int) int {
	for i, r := range rates {
		if r == rate {
			return i
		}
	}
	return -1
}

// Reserved indexes are refused, anything else is handled without panic, and
// what is accepted is what the bits say.
func TestConfigAny(t *testing.T) {
	vt.Check(t, 6000, 100000, func(t *vt.T) {
		b := t.RawBytes(12, "raw")
		if t.Bool("reserved") {
			idx, ch := t.Int(0, 15, "idx"), t.Int(0, 15, "ch")
			b = audioConfig(drawType(t), idx, vt.Pick(t, "rate", 0, 1, 48000), ch)
		}
		w := &ref.BitBuf{}
		w.Raw(b)
		pos := 0
		ok := true
		take := func(n int) (v int) {
			for i := 0; i < n; i++ {
				if pos >= len(w.Bits) {
					ok = false
					return 0
				}
				v = v<<1 | int(w.Bits[pos])
				pos++
			}
			return
		}
		typ := take(5)
		if typ == 31 {
			typ = 32 + take(6)
		}
		idx := take(4)
		rate := 0
		if idx == 15 {
			rate = take(24)
		} else if idx < 13 {
			rate = rates[idx]
		}
		ch := take(4)
		if rate == 0 || ch > 7 {
			ok = false
		}
		got, err := aac.ParseMPEG4AudioConfigBytes(b)
		if (err == nil) != ok {
			t.Fatalf("%x: error %v, valid %v", b, err, ok)
		}
		if ok {
			want := aac.MPEG4AudioConfig{SampleRate: rate, ChannelLayout: layouts[ch], ObjectType: uint(typ), SampleRateIndex: uint(idx), ChannelConfig: uint(ch)}
			if got != want {
				t.Fatalf("%x parsed as %+v, want %+v", b, got, want)
			}
			t.Label("accepted")
		}
		if len(b) > 1 {
			t.Nontrivial("any", b)
		}
	})
}

type adts struct {
	id, layer, absent, profile, idx, priv, ch, orig, home, cid, cstart, length, full, blocks int
}

// parse is an independent reading of the ADTS fixed and variable header
// (ISO/IEC 14496-3, 1.A.2.2).
func parse(b []byte) (h adts, sync bool) {
	w := &ref.BitBuf{}
	w.Raw(b)
	pos := 0
	take := func(n int) (v int) {
		for i := 0; i < n; i++ {
			v = v<<1 | int(w.Bits[pos])
			pos++
		}
		return
	}
	sync = take(12) == 0xfff
	h.id, h.layer, h.absent, h.profile, h.idx, h.priv, h.ch = take(1), take(2), take(1), take(2), take(4), take(1), take(3)
	h.orig, h.home, h.cid, h.cstart, h.length, h.full, h.blocks = take(1), take(1), take(1), take(1), take(13), take(11), take(2)
	return
}

func (h adts) bytes() []byte {
	w := &ref.BitBuf{}
	w.U(0xfff, 12)
	for _, f := range [][2]int{{h.id, 1}, {h.layer, 2}, {h.absent, 1}, {h.profile, 2}, {h.idx, 4}, {h.priv, 1}, {h.ch, 3}, {h.orig, 1}, {h.home, 1},
		{h.cid, 1}, {h.cstart, 1}, {h.length, 13}, {h.full, 11}, {h.blocks, 2}} {
		w.U(uint64(f[0]), f[1])
	}
	return w.Bytes()
}

func TestFillADTS(t *testing.T) {
	vt.Check(t, 8000, 200000, func(t *vt.T) {
		typ, idx, ch := t.Int(1, 4, "type"), t.Int(0, 12, "idx"), t.Int(1, 7, "ch")
		want := aac.MPEG4AudioConfig{SampleRate: rates[idx], ChannelLayout: layouts[ch], ObjectType: uint(typ), SampleRateIndex: uint(idx), ChannelConfig: uint(ch)}
		given := want
		if t.OneIn(5, "sbr") { // types ADTS cannot express go out as low complexity
			given.ObjectType = uint(vt.Pick(t, "sbrt", 5, 29, 39, 42))
			want.ObjectType = 2
		}
		blocks := t.Int(1, 4, "blocks")
		n := vt.Pick(t, "len", 0, 1, 8, 249, 2040, 2041, 4096, 8183, 8184, t.Int(0, 8184, "lena"))
		buf := bytes.Repeat([]byte{byte(t.Int(0, 255, "fill"))}, aac.ADTSHeaderLength+4)
		tail := append([]byte(nil), buf[aac.ADTSHeaderLength:]...)
		aac.FillADTSHeader(buf, given, blocks*1024, n)
		if !bytes.Equal(buf[aac.ADTSHeaderLength:], tail) {
			t.Fatalf("bytes behind the header changed")
		}
		h, sync := parse(buf)
		if !sync || h.layer != 0 || h.absent != 1 || h.profile != int(want.ObjectType)-1 || h.idx != idx || h.ch != ch || h.length != n+7 || h.blocks != blocks-1 {
			t.Fatalf("header %x of %+v, %d blocks, %d bytes reads %+v", buf[:7], given, blocks, n, h)
		}
		frame := buf[:7]
		got, hl, fl, samples, err := aac.ParseADTSHeader(frame)
		if err != nil || got != want || hl != 7 || fl != n+7 || samples != blocks*1024 {
			t.Fatalf("header %x parsed as %+v, %d, %d, %d, %v; want %+v, 7, %d, %d", frame, got, hl, fl, samples, err, want, n+7, blocks*1024)
		}
		t.Nontrivial("fill", frame)
		t.Sample("%+v %d blocks %d bytes: %x", given, blocks, n, frame)
	})
}

func TestParseADTS(t *testing.T) {
	vt.Check(t, 10000, 200000, func(t *vt.T) {
		h := adts{id: t.Int(0, 1, "id"), absent: t.Int(0, 1, "absent"), profile: t.Int(0, 3, "profile"), idx: t.Int(0, 15, "idx"), priv: t.Int(0, 1, "priv"),
			ch: t.Int(0, 7, "ch"), orig: t.Int(0, 1, "orig"), home: t.Int(0, 1, "home"), cid: t.Int(0, 1, "cid"), cstart: t.Int(0, 1, "cstart"),
			length: t.Int(0, 8191, "len"), full: t.Int(0, 2047, "full"), blocks: t.Int(0, 3, "blocks")}
		if t.OneIn(6, "short") {
			h.length = t.Int(0, 12, "shortlen")
		}
		if t.OneIn(8, "layer") {
			h.layer = t.Int(1, 3, "layerv")
		}
		b := h.bytes()
		broken := false
		if t.OneIn(8, "sync") {
			b[0] ^= 1 << uint(t.Int(0, 7, "bit"))
			broken = true
		}
		b = append(b, t.RawBytes(10, "rest")...)
		got, hl, fl, samples, err := aac.ParseADTSHeader(b)
		wantHL := 9 - 2*h.absent
		if broken || h.layer != 0 || h.idx > 12 || h.length < wantHL {
			if err == nil {
				t.Fatalf("header %x (%+v, sync broken %v) accepted", b, h, broken)
			}
			t.Label("refused")
			return
		}
		if h.ch == 0 {
			return // channels described in the stream: may be refused
		}
		want := aac.MPEG4AudioConfig{SampleRate: rates[h.idx], ChannelLayout: layouts[h.ch], ObjectType: uint(h.profile + 1), SampleRateIndex: uint(h.idx), ChannelConfig: uint(h.ch)}
		if err != nil || got != want || hl != wantHL || fl != h.length || samples != 1024*(h.blocks+1) {
			t.Fatalf("header %x parsed as %+v, %d, %d, %d, %v; want %+v of %+v", b, got, hl, fl, samples, err, want, h)
		}
		t.Nontrivial("parse", b[:7])
	})
}

func TestADTSHostile(t *testing.T) {
	vt.Check(t, 4000, 60000, func(t *vt.T) {
		b := t.RawBytes(16, "raw")
		if t.Bool("sync") {
			b = append([]byte{0xff, vt.Pick(t, "b1", byte(0xf1), 0xf0, 0xf9, 0xf8)}, b...)
		}
		b = b[:t.Int(0, len(b), "cut")]
		b = b[:len(b):len(b)]
		cfg, hl, fl, samples, err := aac.ParseADTSHeader(b)
		if len(b) < 7 && err == nil {
			t.Fatalf("header of %d bytes accepted", len(b))
		}
		if err == nil && (hl != 7 && hl != 9 || fl < hl || samples < 1024 || samples > 4096 || cfg.SampleRate <= 0) {
			t.Fatalf("%x gives %+v, %d, %d, %d", b, cfg, hl, fl, samples)
		}
		if len(b) > 0 {
			t.Nontrivial("hostile", fmt.Sprintf("%x", b))
		}
	})
}
