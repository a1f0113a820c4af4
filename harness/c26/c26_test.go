package c26

import (
	"encoding/base64"
	"fmt"
	"strings"
	"testing"
	"time"

	"github.com/nareix/joy5/format/rtsp"

	"joyverif/gen"
	"joyverif/ref"
	"joyverif/vt"
)

func TestMain(m *testing.M) { vt.Main(m) }

// a server that sends the pieces in answer to the requests, one for each, but
// everything that is left once piece `rest` is due.
type script struct {
	pieces []string
	rest   int
	cuts   []int
	pause  []bool
	auth   bool
	skip   bool
	debug  bool
	opts   bool
}

func (s *script) total() (n int) {
	for _, p := range s.pieces {
		n += len(p)
	}
	return
}

func hostile(t *vt.T, s *script, factor int) (packets int) {
	all := strings.Join(s.pieces, "")
	t.Save([]byte(all))
	limit := uint64(32<<20) + uint64(len(all)*factor)
	var end error
	bad, _ := gen.RTSPCase(limit, func(c *ref.RTSPConn) error {
		for i := 0; i < s.rest && i < len(s.pieces); i++ {
			if _, err := c.Next(); err != nil {
				return nil
			}
			if _, err := c.C.Write([]byte(s.pieces[i])); err != nil {
				return nil
			}
		}
		if s.rest < len(s.pieces) {
			if _, err := c.Next(); err != nil {
				return nil
			}
			b := []byte(strings.Join(s.pieces[s.rest:], ""))
			if err := gen.SendPlan(c.C, b, s.cuts, s.pause); err != nil {
				return nil
			}
		}
		ref.CloseWrite(c.C)
		c.C.SetReadDeadline(time.Now().Add(time.Minute))
		for {
			if _, err := c.Next(); err != nil {
				return nil
			}
		}
	}, func(addr string) {
		u := gen.RTSPURI(addr, "/live")
		if s.auth {
			u = "rtsp://user:pass@" + addr + "/live"
		}
		cli, err := rtsp.Dial(u)
		if err != nil {
			end = err
			return
		}
		defer func() { cli.Close() }()
		cli.SkipErrRtpBlock = s.skip
		if s.opts {
			if end = cli.Options(); end != nil {
				return
			}
		}
		_, end = cli.Streams()
		for n := 0; end == nil || n < 6; n++ {
			var err error
			if _, err = cli.ReadPacket(); err == nil {
				packets++
				if packets > 200000+len(all)*9 {
					panic("more packets than the data can hold")
				}
				n--
				continue
			}
			if err == rtsp.ErrCodecChange {
				if cli, err = cli.HandleCodecChange(); err != nil {
					panic(err)
				}
				if packets++; packets > 200000+len(all)*9 {
					panic("more changes than the data can hold")
				}
				n--
				continue
			}
			if end == nil {
				end = err
			}
		}
		cli.Streams()
		cli.Teardown()
	})
	if bad != "" {
		t.Fatalf("%s\n%d packets, pieces %s", bad, packets, show(s))
	}
	if end == nil {
		t.Fatalf("no error at the end; pieces %s", show(s))
	}
	return
}

func show(s *script) string {
	x := ""
	for _, p := range s.pieces {
		if len(p) > 1500 {
			p = p[:1500] + "..."
		}
		x += fmt.Sprintf("%q\n", p)
	}
	return x
}

// valid gives the pieces of an ordinary session.
func valid(t *vt.T, sdp string, n int, wire []byte) (p []string) {
	cseq := 0
	resp := func(h [][2]string, body string) string {
		cseq++
		c := fmt.Sprint(cseq)
		if t.OneIn(6, "nocseq") {
			c = ""
		}
		return ref.RTSPResponse(200, "OK", c, h, body, t.Bool("len"))
	}
	p = append(p, resp([][2]string{{"Content-Type", "application/sdp"}, {"Content-Base", vt.Pick(t, "base", "rtsp://x/", "", ":", "%zz", "rtsp://[::1/")}}, sdp))
	for i := 0; i < n; i++ {
		p = append(p, resp([][2]string{{"Session", "12;timeout=60"}, {"Transport", "RTP/AVP/TCP;interleaved=0-1"}}, ""))
	}
	return append(p, resp(nil, "")+string(wire))
}

func draw(t *vt.T) *script {
	x := gen.DrawRTSP(t, gen.RTSPOpts{Change: t.OneIn(4, "change")})
	s := &script{pieces: valid(t, x.SDP, len(x.Streams), x.Wire), skip: t.Bool("skip"), auth: t.Bool("auth")}
	s.rest = len(s.pieces)
	return s
}

func (s *script) net(t *vt.T) {
	n := 0
	for _, p := range s.pieces[min(s.rest, len(s.pieces)):] {
		n += len(p)
	}
	s.cuts, s.pause = gen.Deliveries(t, n, nil, "net")
}

// Mutated sessions.
func TestMutated(t *testing.T) {
	vt.Check(t, 4000, 100000, func(t *vt.T) {
		s := draw(t)
		s.rest = t.Int(0, len(s.pieces)-1, "at")
		for k, c := 0, t.Int(1, 2, "n"); k < c; k++ {
			i := t.Int(s.rest, len(s.pieces)-1, "which")
			s.pieces[i] = string(gen.Mutate(t, []byte(s.pieces[i]), "m"))
		}
		s.net(t)
		n := hostile(t, s, 3000)
		t.Nontrivial(strings.Join(s.pieces, ""))
		t.Label(fmt.Sprintf("from request %d", s.rest))
		t.LabelIf(n > 0, "packets delivered")
		t.Sample("mutated from request %d, %d bytes, %d packets", s.rest, s.total(), n)
	})
}

// Sessions that end anywhere.
func TestCut(t *testing.T) {
	vt.Check(t, 1500, 40000, func(t *vt.T) {
		s := draw(t)
		at := t.Int(0, s.total(), "cut")
		if t.Bool("late") {
			at = s.total() - t.Int(0, 60, "back")
		}
		for i, p := range s.pieces {
			if at <= len(p) {
				s.pieces[i] = p[:max(at, 0)]
				s.pieces = s.pieces[:i+1]
				break
			}
			at -= len(p)
		}
		s.rest = len(s.pieces) - 1
		s.net(t)
		hostile(t, s, 3000)
		t.Nontrivial(strings.Join(s.pieces, ""))
	})
}

func soup(t *vt.T, l string) string {
	var b strings.Builder
	for i, n := 0, t.Int(0, 40, l+"n"); i < n; i++ {
		b.WriteString(vt.Pick(t, l, "$", "$", "R", "T", "S", "P", "RTSP", "RTSP/1.0 200 OK\r\n", "\r\n", "\n", "\n\n", "\r\n\r\n", "/1.0", " ", "200", "401", ":", "Content-Length: ", "CSeq: 1\r\n",
			"-1", "0", "99999999999999999999", "2147483647", "Session: ", ";", "WWW-Authenticate: Digest realm=\"a\", nonce=\"b\"\r\n", "WWW-Authenticate: ", "Digest ", "=", "\"", ",", "realm", "\x00", "\x80\x60", "$\x00\x00\x08", "$\x00\xff\xff", "$\x00\x00\x00", "é"))
	}
	return b.String()
}

// Responses made of their own vocabulary.
func TestSoup(t *testing.T) {
	vt.Check(t, 4000, 100000, func(t *vt.T) {
		s := draw(t)
		s.opts = t.OneIn(4, "opts")
		s.rest = t.Int(0, len(s.pieces)-1, "at")
		i := s.rest
		switch t.Int(0, 3, "kind") {
		case 0:
			s.pieces[i] = soup(t, "soup")
		case 1:
			s.pieces[i] = soup(t, "soup") + s.pieces[i]
		case 2:
			s.pieces[i] = s.pieces[i] + soup(t, "soup")
		case 3:
			s.pieces[i] = "RTSP/1.0 " + vt.Pick(t, "code", "200 OK", "401 Unauthorized", "200", "", "x", "404 N", "-200 X", "2000000000000000000000 X") + "\r\n" + soup(t, "soup") + "\r\n\r\n" + soup(t, "soup2")
		}
		if t.Bool("raw") {
			s.pieces[i] += string(t.RawBytes(60, "rawb"))
		}
		s.net(t)
		hostile(t, s, 3000)
		t.Nontrivial(strings.Join(s.pieces, ""))
		t.Sample("%q", s.pieces[i])
	})
}

func h264Payload(t *vt.T, l string) []byte {
	b := t.RawBytes(30, l)
	switch t.Int(0, 8, l+"k") {
	case 0:
		return b
	case 1: // aggregation with forged sizes
		p := []byte{24}
		for i, n := 0, t.Int(0, 5, l+"n"); i < n; i++ {
			z := vt.Pick(t, l+"z", 0, 1, 2, 5, 30, 255, 65535)
			p = append(p, byte(z>>8), byte(z))
			x := t.RawBytes(6, l+"x")
			if len(x) > 0 && t.Bool(l+"nest") {
				x[0] = vt.Pick(t, l+"nt", byte(24), 28, 7, 8, 0, 0x61)
			}
			p = append(p, x...)
		}
		return p
	case 2: // fragments
		return append([]byte{28, t.Byte(l + "h")}, b...)
	case 3:
		return append([]byte{28, vt.Pick(t, l+"h", byte(0x80), 0xc0, 0x40, 0, 0x9c, 0xdc, 0xd8, 0x5c, 0x87, 0x47)}, b...)
	case 4: // start codes
		var p []byte
		for i, n := 0, t.Int(1, 12, l+"n"); i < n; i++ {
			p = append(p, vt.Pick(t, l+"sc", []byte{0, 0, 0, 1}, []byte{0, 0, 1}, []byte{0}, []byte{0x65}, []byte{24, 0, 4, 0, 0, 0, 1}, []byte{28, 0xc0}, []byte{7}, []byte{1, 2, 3})...)
		}
		return append([]byte{0, 0, 0, 1}, p...)
	case 5: // parameter sets, whole or damaged
		p := gen.SPS(t, l+"sps").NAL()
		if t.Bool(l + "pps") {
			p = ref.PPSNAL(0x68, t.Int(0, 300, l+"id"), 0, nil)
		}
		if t.Bool(l + "mut") {
			p = gen.Mutate(t, p, l+"m")
		}
		return p
	case 6:
		return append([]byte{t.Byte(l + "t")}, b...)
	case 7:
		return append([]byte{7}, b...)
	default:
		return append([]byte{8}, b...)
	}
}

func aacPayload(t *vt.T, l string) []byte {
	b := t.RawBytes(60, l)
	if t.Bool(l + "hdr") {
		bits := vt.Pick(t, l+"bits", 0, 1, 15, 16, 17, 32, 64, 300, 65535)
		return append([]byte{byte(bits >> 8), byte(bits)}, b...)
	}
	return b
}

// Well-framed packets with hostile contents.
func TestPayloads(t *testing.T) {
	vt.Check(t, 5000, 150000, func(t *vt.T) {
		video := t.Bool("video")
		var sdp string
		if video {
			sets := vt.Pick(t, "sets", "", "Z0IAH5WoFAFuQA==,aM48gA==", base64.StdEncoding.EncodeToString(t.RawBytes(20, "set")), "Zw==,aA==", ",,,", "Z0IAH5WoFAFuQA==,Z0IAH5WoFAFuQA==,aM48gA==,aA==")
			sdp = "m=video 0 RTP/AVP 96\r\na=rtpmap:96 H264/" + vt.Pick(t, "clk", "90000", "1", "0", "-1", "99999999999999999999", "2147483647", "-9223372036854775808", "4000000000000000000") + "\r\na=fmtp:96 sprop-parameter-sets=" + sets + ";config=" + vt.Pick(t, "cfg", "", "00000001674200", "0000000167420000000001680000000001", "0000000001", "ff") + "\r\n"
		} else {
			sdp = "m=audio 0 RTP/AVP 96\r\na=rtpmap:96 MPEG4-GENERIC/" + vt.Pick(t, "clk", "8000", "1", "0", "-5", "2147483647") + "/2\r\na=fmtp:96 config=" + vt.Pick(t, "cfg", "1588", "1588", "1588", "", "15", "ffff", "f8", "1590000000", "0000000000") +
				fmt.Sprintf(";sizelength=%d;indexlength=%d\r\n", vt.Pick(t, "sl", 13, 13, 6, 4, 0, -1, 1, 16, 17, 31, 64, 1<<30), vt.Pick(t, "il", 3, 3, 0, 2, -1, -13, 16, 17, 1<<30))
		}
		var wire []byte
		seq, ts := uint16(t.Int(0, 65535, "seq")), t.U32("ts")
		n := t.Int(1, 12, "n")
		for i := 0; i < n; i++ {
			pl := []byte{}
			if video {
				pl = h264Payload(t, "p")
			} else {
				pl = aacPayload(t, "p")
			}
			o := ref.RTPOpt{PT: 96, Seq: seq, TS: ts, Ext: -1}
			p := ref.RTP(o, pl)
			if t.OneIn(5, "flags") {
				p[0] = 0x80 | t.Byte("flagb")&0x3f
			}
			wire = append(wire, ref.Block(0, p)...)
			if !t.OneIn(5, "seqjump") {
				seq++
			} else {
				seq = uint16(t.U32("nseq"))
			}
			switch t.Int(0, 3, "tsj") {
			case 0:
				ts += uint32(t.Int(0, 1<<20, "tsd"))
			case 1:
				ts += vt.Pick(t, "tsbig", uint32(1<<31-1), 1<<31, 90000*3600, 1<<32-1, 90000*1800+1)
			}
		}
		s := &script{pieces: valid(t, sdp, 1, wire), skip: t.Bool("skip")}
		s.rest = len(s.pieces)
		hostile(t, s, 5000)
		t.Nontrivial(sdp, wire)
		t.Sample("%q %s", sdp, gen.Hex(wire))
	})
}

// Data of some size that goes on and on.
func TestBombs(t *testing.T) {
	vt.Check(t, 60, 600, func(t *vt.T) {
		size := vt.Pick(t, "size", 1000, 70000, 300000, 1<<20)
		unit := vt.Pick(t, "unit", "$", "R", "RTSP", "RTSP\n\n", "RTSP/1.0 200 OK\r\n\r\n", "A", "A: b\r\n", "\r", "\n", " ", "\x00", "$\x00\x00\x00", "$\x00\x00\x0c\x80\x60\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00",
			"$\x00\x00\x0d\x80\x60\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x41", "$\x00\x00\x0e\x80\x60\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x1c\x81", "$\x01\x00\x00", "m=video 0 RTP/AVP 96\r\n", "m=audio 0 RTP/AVP 96\r\na=rtpmap:96 MPEG4-GENERIC/1\r\na=fmtp:96 config=1588\r\n", "AAAA,",
			"$\x00\x00\x10\x80\x60\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x01", "$\x00\x00\x13\x80\x60\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x18\x00\x02\x41\x01\x00\x01")
		rep := strings.Repeat(unit, size/len(unit)+1)
		sdp := "m=video 0 RTP/AVP 96\r\na=rtpmap:96 H264/90000\r\na=fmtp:96 sprop-parameter-sets=Z0IAH5WoFAFuQA==,aM48gA==\r\n"
		where := t.Int(0, 5, "where")
		var pieces []string
		switch where {
		case 0: // in place of the description's response
			pieces = []string{rep}
		case 1: // in its headers
			pieces = []string{"RTSP/1.0 200 OK\r\nX: " + rep + "\r\n\r\n"}
		case 2: // as the description
			pieces = valid(t, rep, 0, nil)
		case 3:
			pieces = valid(t, sdp+"a=fmtp:96 sprop-parameter-sets="+rep, 1, nil)
		case 4: // after PLAY
			pieces = valid(t, sdp, 1, []byte(rep))
		case 5: // announced, and not sent
			n := vt.Pick(t, "announce", "1000000", "100000000", "2147483647", "4294967296", "1000000000000", "9223372036854775807")
			pieces = []string{"RTSP/1.0 200 OK\r\nContent-Length: " + n + "\r\n\r\n" + rep}
		}
		s := &script{pieces: pieces, skip: t.Bool("skip"), rest: len(pieces)}
		if where < 2 || where == 5 {
			s.rest = 0
		}
		hostile(t, s, 3000)
		t.Nontrivial(fmt.Sprint(size, unit, where, pieces[0][:min(len(pieces[0]), 60)]))
		t.Label(fmt.Sprintf("where %d", where))
		t.Sample("%d bytes of %q at %d", size, unit, where)
	})
}
