package gen

import (
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"strings"

	"joyverif/vt"
)

// SDPMedia is what one audio or video media of a description says.
type SDPMedia struct {
	Kind       string
	PT         int
	Encoding   string // "" when there is no rtpmap
	Clock      int
	Control    string
	Config     []byte
	SizeLen    int
	IndexLen   int
	Sprop      [][]byte
	HasFmtp    bool
	ExtraPTs   []int
	ForeignMap bool // attributes of the other payload types are there
}

func mixCase(t *vt.T, s, l string) string {
	switch t.Int(0, 3, l) {
	case 0:
		return strings.ToLower(s)
	case 1:
		return strings.ToUpper(s)
	}
	return s
}

// FmtpH264 writes the parameters of H.264, FmtpAAC the ones of AAC.
func fmtp(t *vt.T, m *SDPMedia, l string) string {
	var kv []string
	if m.Sprop != nil {
		var e []string
		for _, s := range m.Sprop {
			e = append(e, base64.StdEncoding.EncodeToString(s))
		}
		kv = append(kv, "sprop-parameter-sets="+strings.Join(e, ","))
	}
	if m.Config != nil {
		h := hex.EncodeToString(m.Config)
		if t.Bool(l + "hexcase") {
			h = strings.ToUpper(h)
		}
		kv = append(kv, mixCase(t, "config", l+"kc")+"="+h)
	}
	if m.SizeLen != 0 {
		kv = append(kv, mixCase(t, "sizeLength", l+"kc")+"="+fmt.Sprint(m.SizeLen))
	}
	if m.IndexLen != 0 {
		kv = append(kv, mixCase(t, "indexLength", l+"kc")+"="+fmt.Sprint(m.IndexLen))
	}
	for i, n := 0, t.Int(0, 3, l+"more"); i < n; i++ {
		kv = append(kv, vt.Pick(t, l+"mk", "packetization-mode=1", "profile-level-id=420029", "streamtype=5", "mode=AAC-hbr", "indexDeltaLength=3", "profile-level-id=1", "cts", "x-config=ff", "constantduration=1024", "configx=1", "Profile=1;object=2"))
	}
	for i := len(kv) - 1; i > 0; i-- {
		j := t.Int(0, i, l+"sh")
		kv[i], kv[j] = kv[j], kv[i]
	}
	s := strings.Join(kv, vt.Pick(t, l+"sep", ";", "; ", " ; "))
	if s == "" {
		s = "packetization-mode=0"
	}
	return s + vt.Pick(t, l+"tail", "", ";", "; ")
}

func controlAttr(t *vt.T, i int, l string) string {
	return vt.Pick(t, l+"c", "trackID="+fmt.Sprint(i+1), "track"+fmt.Sprint(i), "streamid="+fmt.Sprint(i),
		fmt.Sprintf("rtsp://10.0.0.%d:8554/live/ch%d/trackID=%d", i, i, i), "*", fmt.Sprintf("track%d?a=b:c&d=e=f", i), "media:"+fmt.Sprint(i), "a/b/../"+fmt.Sprint(i),
		fmt.Sprintf("RTSP://[::1]/x:%d", i))
}

func noiseLine(t *vt.T, l string) string {
	return vt.Pick(t, l, "i=mpeg4cif", "e=a@b.c (d)", "p=+1 617", "c=IN IP4 0.0.0.0", "b=AS:300", "k=prompt", "r=7d 1h 0 25h",
		"a=tool:LIVE555", "a=type:broadcast", "a=range:npt=0-", "a=recvonly", "a=x-dimensions: 720, 480", "a=framerate:15.0",
		"a=Media_header:MEDIAINFO=494D4B48;", "a=x-control:wrong", "a=controls:wrong", "a=xrtpmap:96 H264/1", "i=a=control:wrong",
		"a=rtcp-mux", "a=", "a=:", "a=x:control:wrong", "b=RTPMAP:96 H264/2", "a=appversion:1.0", "x", "a=ssrc:1 cname:rtpmap:96 H264/4", "")
}

// DrawSDP draws a description and its text. rich: everything any description
// may have; otherwise only what a client needs.
func DrawSDP(t *vt.T, max int, l string) (uri string, medias []SDPMedia, text string) {
	eol := vt.Pick(t, l+"eol", "\r\n", "\n", "mixed")
	var lines []string
	add := func(f string, a ...interface{}) { lines = append(lines, fmt.Sprintf(f, a...)) }
	noise := func(n int) {
		for i := t.Int(0, n, l+"noise"); i > 0; i-- {
			add("%s", noiseLine(t, l+"nl"))
		}
	}
	add("v=0")
	add("o=- %d 1 IN IP4 192.168.0.123", t.Int(0, 1<<30, l+"o"))
	add("s=%s", vt.Pick(t, l+"s", " ", "Stream", "m=video 0 RTP/AVP 96", "a=rtpmap:96 H264/1"))
	noise(2)
	if t.Bool(l + "u") {
		uri = vt.Pick(t, l+"uri", "http://www.example.com/x", "rtsp://a/b?c=d&e=f", "http://h/=")
		add("u=%s", uri)
		noise(1)
	}
	add("t=0 0")
	if t.Bool(l + "sessattr") {
		add("a=control:%s", vt.Pick(t, l+"sc", "*", "rtsp://session/", "wrong"))
		if t.Bool(l + "sm") {
			add("a=rtpmap:96 H264/12345")
			add("a=fmtp:96 config=ffff;sizelength=7")
		}
	}
	noise(2)
	n := t.Int(0, max, l+"n")
	for i := 0; i < n; i++ {
		if t.OneIn(5, l+"otherkind") { // medias that are not delivered
			pt := t.Int(96, 98, l+"opt")
			add("m=%s %d RTP/AVP %d", vt.Pick(t, l+"ok", "application", "text", "message", "data", "videox", "image", "AUDIO"), t.Int(0, 65535, l+"op"), pt)
			if t.Bool(l + "orm") {
				add("a=rtpmap:%d %s", pt, vt.Pick(t, l+"oe", "vnd.onvif.metadata/90000", "H264/90001", "MPEG4-GENERIC/1/1"))
			}
			if t.Bool(l + "ofm") {
				add("a=fmtp:%d config=1234;sizelength=9;indexlength=2;sprop-parameter-sets=AAAA", pt)
			}
			if t.Bool(l + "octl") {
				add("a=control:other%d", i)
			}
			noise(1)
			continue
		}
		m := SDPMedia{Kind: vt.Pick(t, l+"kind", "video", "audio"), PT: t.Int(0, 127, l+"pt")}
		if t.Bool(l + "dyn") {
			m.PT = t.Int(96, 100, l+"ptd")
		}
		var attrs []string
		if !t.OneIn(6, l+"nomap") {
			m.Encoding = vt.Pick(t, l+"enc", "H264", "H264", "MPEG4-GENERIC", "MPEG4-GENERIC", "PCMU", "H265", "JPEG", "MPEG4-GENERICX", "XH264", "opus", "MP4V-ES")
			m.Clock = vt.Pick(t, l+"clk", 90000, 8000, 16000, 44100, 48000, 1, 96000, 1<<31-1)
			s := fmt.Sprintf("a=rtpmap:%d %s/%d", m.PT, mixCase(t, m.Encoding, l+"ec"), m.Clock)
			if t.Bool(l + "ch") {
				s += fmt.Sprintf("/%d", t.Int(1, 8, l+"chn"))
			}
			attrs = append(attrs, s)
		}
		if t.Bool(l + "fmtp") {
			m.HasFmtp = true
			if t.Bool(l + "sprop") {
				for k, c := 0, t.Int(1, 4, l+"spn"); k < c; k++ {
					n := t.Int(1, 30, l+"spl")
					if t.OneIn(150, l+"splong") {
						n = t.Int(1000, 150000, l+"splongn")
					}
					m.Sprop = append(m.Sprop, t.Payload(n, l+"sp"))
				}
			}
			if t.Bool(l + "cfg") {
				m.Config = t.Payload(t.Int(1, 40, l+"cfl"), l+"cf")
			}
			if t.Bool(l + "szl") {
				m.SizeLen = t.Int(1, 32, l+"szlv")
				m.IndexLen = t.Int(0, 16, l+"ixl")
			}
			attrs = append(attrs, fmt.Sprintf("a=fmtp:%d %s", m.PT, fmtp(t, &m, l+"f")))
		}
		if !t.OneIn(6, l+"noctl") {
			m.Control = controlAttr(t, i, l)
			attrs = append(attrs, "a=control:"+m.Control)
		}
		pts := fmt.Sprint(m.PT)
		if t.OneIn(3, l+"extrapt") {
			for k, c := 0, t.Int(1, 3, l+"xn"); k < c; k++ {
				x := (m.PT + 1 + t.Int(0, 125, l+"xpt")) % 128
				m.ExtraPTs = append(m.ExtraPTs, x)
				pts += fmt.Sprintf(" %d", x)
				if t.Bool(l + "xm") {
					m.ForeignMap = true
					attrs = append(attrs, fmt.Sprintf("a=rtpmap:%d %s/%d", x, vt.Pick(t, l+"xe", "H264", "rtx", "MPEG4-GENERIC"), t.Int(1, 99999, l+"xc")))
				}
				if t.Bool(l + "xf") {
					m.ForeignMap = true
					attrs = append(attrs, fmt.Sprintf("a=fmtp:%d apt=%d;config=99;sizelength=3;indexLength=1;sprop-parameter-sets=BBBB", x, m.PT))
				}
			}
		}
		for k, c := 0, t.Int(0, 3, l+"an"); k < c; k++ {
			s := noiseLine(t, l+"anl")
			if t.OneIn(150, l+"anlong") {
				s += strings.Repeat(" x", t.Int(1000, 150000, l+"anlongn"))
			}
			attrs = append(attrs, s)
		}
		for i := len(attrs) - 1; i > 0; i-- {
			j := t.Int(0, i, l+"ash")
			attrs[i], attrs[j] = attrs[j], attrs[i]
		}
		port := fmt.Sprint(t.Int(0, 65535, l+"port"))
		if t.OneIn(5, l+"ports") {
			port += "/2"
		}
		add("m=%s %s %s %s", m.Kind, port, vt.Pick(t, l+"proto", "RTP/AVP", "RTP/SAVP", "RTP/AVP/TCP"), pts)
		lines = append(lines, attrs...)
		medias = append(medias, m)
	}
	if eol == "mixed" {
		eol = "\n"
		for i, line := range lines {
			if text += line; i < len(lines)-1 {
				text += vt.Pick(t, l+"lineeol", "\r\n", "\n")
			}
		}
	} else {
		text = strings.Join(lines, eol)
	}
	if t.Bool(l + "finaleol") {
		text += eol
	}
	if t.OneIn(4, l+"lead") {
		text = eol + text
	}
	return
}
