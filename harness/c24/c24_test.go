package c24

import (
	"bytes"
	"fmt"
	"strings"
	"testing"
	"time"

	"github.com/nareix/joy5/av"
	"github.com/nareix/joy5/format/rtsp/sdp"

	"joyverif/gen"
	"joyverif/vt"
)

func TestMain(m *testing.M) { vt.Main(m) }

func diff(w gen.SDPMedia, g sdp.Media) string {
	if g.AVType != w.Kind {
		return fmt.Sprintf("kind %q, want %q", g.AVType, w.Kind)
	}
	if g.PayloadType != w.PT {
		return fmt.Sprintf("payload type %d, want %d", g.PayloadType, w.PT)
	}
	if g.TimeScale != w.Clock {
		return fmt.Sprintf("clock %d, want %d", g.TimeScale, w.Clock)
	}
	if g.Control != w.Control {
		return fmt.Sprintf("control %q, want %q", g.Control, w.Control)
	}
	typ := 0
	switch w.Encoding {
	case "H264":
		typ = av.H264
	case "MPEG4-GENERIC":
		typ = av.AAC
	}
	if g.Type != typ {
		return fmt.Sprintf("codec %d, want %d", g.Type, typ)
	}
	if w.Encoding != "" && g.Rtpmap != w.PT {
		return fmt.Sprintf("rtpmap %d, want %d", g.Rtpmap, w.PT)
	}
	if !bytes.Equal(g.Config, w.Config) {
		return fmt.Sprintf("config %x, want %x", g.Config, w.Config)
	}
	if g.SizeLength != w.SizeLen || g.IndexLength != w.IndexLen {
		return fmt.Sprintf("size/index length %d/%d, want %d/%d", g.SizeLength, g.IndexLength, w.SizeLen, w.IndexLen)
	}
	if len(g.SpropParameterSets) != len(w.Sprop) {
		return fmt.Sprintf("%d parameter sets, want %d", len(g.SpropParameterSets), len(w.Sprop))
	}
	for i := range w.Sprop {
		if !bytes.Equal(w.Sprop[i], g.SpropParameterSets[i]) {
			return fmt.Sprintf("parameter set %d: %x, want %x", i, g.SpropParameterSets[i], w.Sprop[i])
		}
	}
	return ""
}

func TestDescriptions(t *testing.T) {
	vt.Check(t, 20000, 600000, func(t *vt.T) {
		uri, want, text := gen.DrawSDP(t, 5, "")
		t.Save([]byte(text))
		sess, got := sdp.Parse(text)
		if sess.Uri != uri {
			t.Fatalf("session address %q, want %q, of\n%s", sess.Uri, uri, text)
		}
		if len(got) != len(want) {
			t.Fatalf("%d medias, want %d, of\n%s", len(got), len(want), text)
		}
		for i := range want {
			if s := diff(want[i], got[i]); s != "" {
				t.Fatalf("media %d: %s, of\n%s", i, s, text)
			}
			t.LabelIf(want[i].ForeignMap, "attributes of another payload type")
			t.LabelIf(want[i].Sprop != nil, "parameter sets")
			t.LabelIf(want[i].Config != nil, "config")
		}
		if len(want) >= 2 {
			t.Nontrivial(text)
			t.Sample("%q", text)
		}
	})
}

func TestArbitraryText(t *testing.T) {
	vt.Check(t, 20000, 600000, func(t *vt.T) {
		var text string
		switch t.Int(0, 3, "kind") {
		case 0:
			text = string(t.RawBytes(200, "raw"))
		case 1:
			n := t.Int(0, 60, "n")
			for i := 0; i < n; i++ {
				text += vt.Pick(t, "tok", "\n", "\n", "\r", "=", ":", "/", ";", ",", " ", "  ", "m=", "a=", "u=", "m=video", "m=audio 0 RTP/AVP", "a=rtpmap", "a=fmtp:", "a=control", "96", "config=", "sizelength=", "-1", "99999999999999999999", "sprop-parameter-sets=", "H264", "zz", "\x00", "%", "é")
			}
		default:
			_, _, s := gen.DrawSDP(t, 4, "")
			text = string(gen.Mutate(t, []byte(s), "m"))
		}
		t.Save([]byte(text))
		var medias []sdp.Media
		bad := vt.Guard(16<<20+uint64(len(text))*200, 10*time.Second, 90*time.Second, func() { _, medias = sdp.Parse(text) })
		if bad != "" {
			t.Fatalf("%s\non %q", bad, text)
		}
		if len(medias) > strings.Count(text, "m=") {
			t.Fatalf("%d medias of %q", len(medias), text)
		}
		if len(text) > 8 {
			t.Nontrivial(text)
			t.Sample("%q", text)
		}
	})
}

// Large descriptions take time and memory in proportion.
func TestLarge(t *testing.T) {
	vt.Check(t, 30, 300, func(t *vt.T) {
		size := vt.Pick(t, "size", 1000, 100000, 1<<20, 2<<20)
		unit := vt.Pick(t, "unit", "m=video 0 RTP/AVP 96\n", "a=control:x\n", "\n", "=", "a=fmtp:96 sprop-parameter-sets=AAAA,AAAA,AAAA;", ",", ";", "a=b;", "x=y\r\n", " ", "config=00;")
		text := vt.Pick(t, "head", "", "m=video 0 RTP/AVP 96\na=fmtp:96 ", "m=video 0 RTP/AVP 96\na=fmtp:96 sprop-parameter-sets=") + strings.Repeat(unit, size/len(unit))
		t.Save([]byte(text))
		bad := vt.Guard(64<<20+uint64(len(text))*600, 20*time.Second, 90*time.Second, func() { sdp.Parse(text) })
		if bad != "" {
			t.Fatalf("%s\n%d bytes of %q", bad, size, unit)
		}
		t.Nontrivial(text)
	})
}
