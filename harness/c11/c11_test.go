package c11

import (
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
	"net/url"
	"strings"
	"sync/atomic"
	"testing"
	"time"

	"github.com/nareix/joy5/av"
	"github.com/nareix/joy5/format/rtmp"

	"joyverif/gen"
	"joyverif/ref"
	"joyverif/vt"
)

func TestMain(m *testing.M) { vt.Main(m) }

const wait = 60 * time.Second

func word(t *vt.T, l string) string {
	cs := "abcXYZ019-_.~"
	n := t.Int(1, 8, l+"n")
	var b strings.Builder
	for i := 0; i < n; i++ {
		if t.OneIn(8, l+"esc") {
			b.WriteString(vt.Pick(t, l, "%20", "%3F", "%23", "%25", "%2B", "%C3%A9", "+", ":", "@", "=", "&", ",", "!", "$", "'", "(", "*"))
			continue
		}
		b.WriteByte(cs[t.Int(0, len(cs)-1, l)])
	}
	s := b.String()
	if s == "." || s == ".." {
		s = "x"
	}
	return s
}

// a URL with an application and a stream name
func drawURL(t *vt.T) (s string, app, stream string, segs int) {
	host := vt.Pick(t, "host", "host", "a.example.com", "10.1.2.3", "host:1935", "host:19350", "host:", "[::1]:1935", "[fe80::1]", "localhost:80", "UPPER.example")
	segs = vt.Pick(t, "segs", 2, 2, 2, 2, 3, 3, 4)
	var p []string
	for i := 0; i < segs; i++ {
		p = append(p, word(t, "seg"))
	}
	q := ""
	switch t.Int(0, 4, "q") {
	case 0, 1:
	case 2:
		q = "?" + word(t, "qk") + "=" + word(t, "qv")
	case 3:
		q = "?" + word(t, "qk") + "=" + word(t, "qv") + "&" + word(t, "qk2") + "=" + word(t, "qv2")
	case 4:
		q = "?url=" + word(t, "qv") + "/" + word(t, "qv2") + vt.Pick(t, "qt", "", "?a=b", "/", "//x")
	}
	scheme := vt.Pick(t, "scheme", "rtmp", "rtmp", "rtmp", "rtmps")
	s = scheme + "://" + host + "/" + strings.Join(p, "/") + q
	return s, p[0], strings.Join(p[1:], "/") + q, segs
}

func sameURL(want, got *url.URL) string {
	if got == nil {
		return "no URL"
	}
	if got.Scheme != want.Scheme || got.Host != want.Host || got.Path != want.Path || got.RawQuery != want.RawQuery {
		return fmt.Sprintf("URL %q, want %q", got, want)
	}
	return ""
}

// Library to library: URL, role and acceptance.
func TestAgree(t *testing.T) {
	vt.Check(t, 3000, 40000, func(t *vt.T) {
		us, _, _, _ := drawURL(t)
		u, err := url.Parse(us)
		if err != nil {
			vt.Infra("%v", err)
		}
		pub := t.Bool("pub")
		refuse := t.OneIn(3, "refuse")
		text := "refused: " + word(t, "text")
		how := t.Int(0, 1, "how")
		a, b := vt.NewPipe(t.Frags("af"), t.Frags("bf"))
		bad := ""
		var returned int32
		d := gen.ServeRTMP(b, func(c *rtmp.Conn, nc net.Conn) {
			defer nc.Close()
			if s := sameURL(u, c.URL); s != "" {
				bad = "server session: " + s
			}
			if c.Publishing != pub {
				bad = fmt.Sprintf("server session publishing=%v, client %v", c.Publishing, pub)
			}
			if !b.PeerIdle(wait) || atomic.LoadInt32(&returned) != 0 {
				bad = "client connected before the server accepted"
			}
			if refuse {
				c.PubPlayErr = errors.New(text)
			}
			if how == 0 {
				c.Prepare(rtmp.StageCommandDone, 0)
			} else if pub {
				c.ReadPacket()
			} else {
				c.Prepare(rtmp.StageCommandDone, rtmp.PrepareWriting)
			}
		})
		c, err := gen.DialRTMP(a, us, pub)
		atomic.StoreInt32(&returned, 1)
		if refuse {
			if err == nil {
				// the first media call may report it instead
				if pub {
					err = c.WritePacket(av.Packet{Type: av.AAC, Data: []byte{1}})
				} else {
					_, err = c.ReadPacket()
				}
			}
			a.Close()
			d.Ended(wait)
			if err == nil {
				t.Fatalf("%s: refusal reported as success", us)
			}
			if !strings.Contains(err.Error(), "Failed") && !strings.Contains(err.Error(), text) {
				t.Fatalf("%s: refused, but the client's error is %q", us, err)
			}
		} else {
			a.Close()
			if s := d.Ended(wait); s != "" {
				t.Fatalf("server: %s", s)
			}
			if err != nil {
				t.Fatalf("%s: connect: %v", us, err)
			}
		}
		if bad != "" {
			t.Fatalf("%s: %s", us, bad)
		}
		t.LabelIf(refuse, "refused")
		t.LabelIf(!refuse, "accepted")
		t.Nontrivial(us, pub, refuse)
		t.Sample("%s publish=%v refuse=%v", us, pub, refuse)
	})
}

// The client against a reference server.
func TestClient(t *testing.T) {
	vt.Check(t, 3000, 40000, func(t *vt.T) {
		us, app, stream, segs := drawURL(t)
		u, _ := url.Parse(us)
		pub := t.Bool("pub")
		kind := vt.Pick(t, "outcome", 0, 1, 2, 3, 4, 5, 6, 7, 8, 9)
		code := "Net." + word(t, "code")
		answers := [2]int{t.Int(0, 4, "release"), t.Int(0, 4, "fcpublish")}
		msid := vt.Pick(t, "streamid", 1.0, 1.0, 2.0, 255.0, 256.0, 70000.0, 1<<24+3.0)
		a, b := vt.NewPipe(t.Frags("af"), t.Frags("bf"))
		var perr error
		bad := ""
		var returned int32
		var gapp, gtc, gstream string
		var gpub bool
		d := gen.Go(func() {
			defer b.Close()
			p := ref.NewPeer(b)
			if _, _, perr = p.ServerHandshake(make([]byte, 1536), false); perr != nil {
				return
			}
			perr = func() (err error) {
				v, _, err := p.WaitCmd("connect")
				if err != nil {
					return
				}
				gapp, _ = ref.Field(v[2], "app").(string)
				gtc, _ = ref.Field(v[2], "tcUrl").(string)
				props := &ref.Obj{KVs: []ref.KV{{K: "fmsVer", V: "X"}}}
				if kind == 0 {
					return p.Cmd(3, 0, "_error", v[1], props, ref.Status("error", code))
				}
				if kind == 1 {
					return p.Cmd(3, 0, "_result", v[1], props, ref.Status("error", code))
				}
				if t0 := kind % 2; t0 == 0 {
					p.Cmd(3, 0, "onBWDone", 0.0, nil)
				}
				if err = p.Cmd(3, 0, "_result", v[1], props, ref.Status("status", "NetConnection.Connect.Success")); err != nil {
					return
				}
				for {
					if v, _, err = p.WaitCmd("releaseStream", "FCPublish", "createStream"); err != nil {
						return
					}
					if v[0] == "createStream" {
						break
					}
					// servers answer, ignore or refuse these two; that is no refusal of the session
					switch answers[strings.Index("rF", v[0].(string)[:1])] {
					case 1:
						p.Cmd(3, 0, "_error", v[1], nil, ref.Status("error", "NetConnection.Call.Failed"))
					case 2:
						p.Cmd(3, 0, "_result", v[1], nil)
					case 3:
						p.Cmd(3, 0, "_result", v[1], nil, 7.0)
					case 4:
						p.Cmd(3, 0, "onFCPublish", 0.0, nil, ref.Status("status", "NetStream.Publish.Start"))
					}
				}
				if kind == 2 {
					return p.Cmd(3, 0, "_error", v[1], nil, ref.Status("error", code))
				}
				if kind == 8 { // no stream was created
					return p.Cmd(3, 0, "_result", v[1], nil)
				}
				if err = p.Cmd(3, 0, "_result", v[1], nil, msid); err != nil {
					return
				}
				if v, _, err = p.WaitCmd("publish", "play"); err != nil {
					return
				}
				gpub = v[0] == "publish"
				gstream, _ = v[3].(string)
				if p.Got[len(p.Got)-1].Stream != uint32(msid) {
					bad = "publish or play not on the created message stream"
				}
				if !b.PeerIdle(wait) || atomic.LoadInt32(&returned) != 0 {
					bad = "client connected before the server accepted"
				}
				for _, m := range p.Got {
					if m.Type == 8 || m.Type == 9 || m.Type == 18 {
						bad = "media before the server accepted"
					}
				}
				switch kind {
				case 3:
					return p.Cmd(5, uint32(msid), "onStatus", 0.0, nil, ref.Status("error", code))
				case 4:
					return p.Cmd(5, uint32(msid), "onStatus", v[1], nil, ref.Status("error", code))
				case 9: // the playlist is reset before the stream is looked for
					if !pub {
						p.Cmd(5, uint32(msid), "onStatus", v[1], nil, ref.Status("status", "NetStream.Play.Reset"))
					}
					return p.Cmd(5, uint32(msid), "onStatus", v[1], nil, ref.Status("error", code))
				}
				return p.Cmd(5, uint32(msid), "onStatus", v[1], nil, ref.Status("status", code))
			}()
		})
		c, err := gen.DialRTMP(a, us, pub)
		atomic.StoreInt32(&returned, 1)
		refused := kind <= 4 || kind >= 8
		if err == nil && refused {
			if pub {
				err = c.WritePacket(av.Packet{Type: av.AAC, Data: []byte{1}})
			} else {
				_, err = c.ReadPacket()
			}
		}
		a.Close()
		if s := d.Ended(wait); s != "" {
			t.Fatalf("%s", s)
		}
		if perr != nil {
			t.Fatalf("%s outcome %d: reference server: %v; client: %v", us, kind, perr, err)
		}
		if bad != "" {
			t.Fatalf("%s: %s", us, bad)
		}
		wantTC := u.Scheme + "://" + u.Host + "/" + gapp
		if gtc != wantTC {
			t.Fatalf("%s: tcUrl %q with app %q", us, gtc, gapp)
		}
		if segs == 2 && gapp != app {
			t.Fatalf("%s: app %q, want %q", us, gapp, app)
		}
		if refused {
			if err == nil {
				t.Fatalf("%s outcome %d: refusal reported as success", us, kind)
			}
			if kind != 8 && !strings.Contains(err.Error(), code) {
				t.Fatalf("%s outcome %d: client's error %q does not carry the refusal %q", us, kind, err, code)
			}
		} else if err != nil {
			t.Fatalf("%s outcome %d: %v", us, kind, err)
		}
		if kind > 2 && kind != 8 {
			if gpub != pub {
				t.Fatalf("%s: publish=%v, want %v", us, gpub, pub)
			}
			if gapp+"/"+gstream != app+"/"+stream {
				t.Fatalf("%s: app %q stream %q", us, gapp, gstream)
			}
			if !refused {
				if s, _ := c.PubPlayOnStatusParams.GetString("code"); s != code {
					t.Fatalf("status parameters %v, want code %q", c.PubPlayOnStatusParams, code)
				}
			}
		}
		t.Label(fmt.Sprintf("outcome %d", kind))
		t.Nontrivial(us, pub, kind, answers, msid)
		t.Sample("%s publish=%v outcome=%d app=%q stream=%q", us, pub, kind, gapp, gstream)
	})
}

// The server against a reference client.
func TestServer(t *testing.T) {
	vt.Check(t, 3000, 40000, func(t *vt.T) {
		scheme := vt.Pick(t, "scheme", "rtmp", "rtmps", "rtmpt")
		host := vt.Pick(t, "host", "host", "a.example.com:1935", "[::1]:80", "10.0.0.1")
		app := word(t, "app")
		if t.OneIn(3, "inst") {
			app += "/" + word(t, "inst")
		}
		stream := word(t, "stream")
		if t.OneIn(4, "deep") {
			stream += "/" + word(t, "deep")
		}
		q := ""
		if t.Bool("q") {
			q = word(t, "qk") + "=" + word(t, "qv") + vt.Pick(t, "qt", "", "/x", "&a=b")
		}
		tc := scheme + "://" + host + "/" + app
		full := stream
		if q != "" {
			full += "?" + q
		}
		want, err := url.Parse(tc + "/" + full)
		if err != nil {
			vt.Infra("%v", err)
		}
		pub := t.Bool("pub")
		refuse := t.OneIn(3, "refuse")
		text := word(t, "text")
		tcKey := vt.Pick(t, "tckey", "tcUrl", "tcUrl", "tcurl")
		page := word(t, "page")
		enc := vt.Pick(t, "enc", 0.0, 3.0)
		a, b := vt.NewPipe(t.Frags("af"), t.Frags("bf"))
		bad := ""
		media := av.Packet{Type: av.AAC, Time: time.Second, Data: []byte{1, 2, 3}}
		d := gen.ServeRTMP(b, func(c *rtmp.Conn, nc net.Conn) {
			defer nc.Close()
			if s := sameURL(want, c.URL); s != "" {
				bad = s
			}
			if c.Publishing != pub {
				bad = "wrong role"
			}
			if c.TcUrl != tc || c.PageUrl != page || c.FlashVer != "FV 1" {
				bad = fmt.Sprintf("tcUrl %q pageUrl %q flashVer %q", c.TcUrl, c.PageUrl, c.FlashVer)
			}
			if refuse {
				c.PubPlayErr = errors.New(text)
				c.Prepare(rtmp.StageCommandDone, 0)
			} else if pub {
				c.ReadPacket()
			} else if err := c.WritePacket(media); err != nil {
				bad = err.Error()
			}
		})
		p := ref.NewPeer(a)
		err = func() (err error) {
			if _, _, err = p.ClientHandshake(make([]byte, 1536), false); err != nil {
				return
			}
			if err = p.Cmd(3, 0, "connect", 1.0, &ref.Obj{KVs: []ref.KV{{K: "app", V: app}, {K: tcKey, V: tc}, {K: "pageUrl", V: page}, {K: "flashVer", V: "FV 1"}, {K: "objectEncoding", V: enc}}}); err != nil {
				return
			}
			v, _, err := p.WaitCmd("_result")
			if err != nil {
				return err
			}
			if v[1] != 1.0 || len(v) < 4 || ref.Field(v[3], "code") != "NetConnection.Connect.Success" || ref.Field(v[3], "level") != "status" || ref.Field(v[3], "objectEncoding") != enc {
				return fmt.Errorf("connect answered with %v", gen.Show(ref.Arr(v)))
			}
			if t.Bool("extra") {
				p.Cmd(3, 0, "releaseStream", 2.0, nil, full)
				p.Cmd(3, 0, "FCPublish", 3.0, nil, full)
				p.Cmd(3, 0, "_checkbw", 4.0, nil)
			}
			p.Cmd(3, 0, "createStream", 5.0, nil)
			if v, _, err = p.WaitCmd("_result"); err != nil {
				return err
			}
			id, _ := v[3].(float64)
			if v[1] != 5.0 || id != 1 {
				return fmt.Errorf("createStream answered with %v", gen.Show(ref.Arr(v)))
			}
			name := "play"
			if pub {
				name = "publish"
			}
			p.Cmd(8, 1, name, 6.0, nil, full, "live")
			v, _, err = p.WaitCmd("onStatus")
			if err != nil {
				return err
			}
			for !refuse && !pub && len(v) > 3 && ref.Field(v[3], "code") == "NetStream.Play.Reset" {
				if v, _, err = p.WaitCmd("onStatus"); err != nil {
					return err
				}
			}
			if len(v) < 4 {
				return fmt.Errorf("onStatus with %d values", len(v))
			}
			lv, cd := ref.Field(v[3], "level"), ref.Field(v[3], "code")
			if refuse {
				if lv != "error" || ref.Field(v[3], "description") != text {
					return fmt.Errorf("refusal sent as level %v code %v description %v", lv, cd, ref.Field(v[3], "description"))
				}
			} else {
				w := "NetStream.Play.Start"
				if pub {
					w = "NetStream.Publish.Start"
				}
				if lv != "status" || cd != w {
					return fmt.Errorf("accepted with level %v code %v", lv, cd)
				}
			}
			for _, m := range p.Got {
				if m.Type == 8 || m.Type == 9 {
					return fmt.Errorf("media before the session was accepted")
				}
			}
			a.CloseWrite()
			n := 0
			for {
				m, e := p.Next()
				if e == io.EOF {
					break
				}
				if e != nil {
					return e
				}
				if m.Type == 8 {
					n++
				}
			}
			if want := 0; !refuse && !pub {
				want = 1
				if n != want {
					return fmt.Errorf("%d media messages", n)
				}
			} else if n != want {
				return fmt.Errorf("%d media messages", n)
			}
			return nil
		}()
		a.Close()
		if s := d.Ended(wait); s != "" {
			t.Fatalf("%s", s)
		}
		if err != nil {
			t.Fatalf("%s/%s: %v", tc, full, err)
		}
		if d.Handled != 1 {
			t.Fatalf("no session")
		}
		if bad != "" {
			t.Fatalf("%s/%s: %s", tc, full, bad)
		}
		t.LabelIf(refuse, "server refuses")
		t.LabelIf(!refuse, "server accepts")
		t.Nontrivial(tc, full, pub, refuse)
		t.Sample("app %q stream %q publish=%v refuse=%v", app, full, pub, refuse)
	})
}

func be32(v uint32) []byte { return binary.BigEndian.AppendUint32(nil, v) }

// Ping requests and window acknowledgements while a session reads.
func TestPingAndAck(t *testing.T) {
	vt.Check(t, 3000, 40000, func(t *vt.T) {
		server := t.Bool("server")
		win := uint32(2500000)
		var pings []uint32
		desc := ""
		n := t.Int(1, 20, "n")
		sink := &gen.Sink{}
		media := 0
		var answers []uint32
		var ackErr error
		acks := 0
		before := false
		feed := func(p *ref.Peer, nc *vt.Conn) error {
			var sent int64 // bytes of chunks sent since the handshake
			maxc := int64(0)
			drainTo := func() {} // answers are read at the end, in one go
			_ = drainTo
			base := nc.Written()
			first := base
			_ = first
			if t.Bool("window") {
				win = vt.Pick(t, "win", uint32(1), 100, 500, 1000, 3000, 10000, 1<<31-1, 1<<31, 1<<32-1)
				if win >= 1<<31-1 && t.Bool("window before") { // acknowledged at least once before
					p.Send(ref.Msg{CSID: 2, Type: 5, Data: be32(500)})
					for j := 0; j < 3; j++ {
						p.Send(ref.Msg{CSID: 4, Type: 8, Stream: 1, Data: append([]byte{0xaf, 1}, t.Payload(600, "wd")...)})
						media++
					}
					before = true
				}
				p.Send(ref.Msg{CSID: 2, Type: 5, Data: be32(win)})
			}
			for i := 0; i < n; i++ {
				var m ref.Msg
				switch t.Int(0, 3, "what") {
				case 0:
					v := t.U32("ping")
					pings = append(pings, v)
					m = ref.Msg{CSID: 2, Type: 4, Data: append([]byte{0, 6}, be32(v)...)}
					desc += "ping "
				case 1:
					m = ref.Msg{CSID: 2, Type: 4, Data: append([]byte{0, vt.Pick(t, "ev", byte(0), 1, 2, 4, 7, 31)}, be32(t.U32("x"))...)}
					desc += "event "
				default:
					m = ref.Msg{CSID: 4, Type: 8, Stream: 1, Data: append([]byte{0xaf, 1}, t.Payload(gen.Size(t, false, "sz"), "d")...)}
					media++
					desc += fmt.Sprintf("media%d ", len(m.Data))
				}
				if err := p.Send(m); err != nil {
					return err
				}
			}
			sent = nc.Written()
			maxc = 140
			if !nc.PeerIdle(wait) {
				return fmt.Errorf("not everything was read")
			}
			nc.CloseWrite()
			last := int64(0)
			for {
				m, err := p.Next()
				if err == io.EOF {
					break
				}
				if err != nil {
					return err
				}
				switch m.Type {
				case 3:
					v := int64(binary.BigEndian.Uint32(m.Data))
					acks++
					if v <= last || v > sent {
						ackErr = fmt.Errorf("acknowledgement of %d after %d, %d bytes sent in all", v, last, sent)
					}
					if v-last < int64(win) && !(before && v-last >= 500 && v <= 3073+4000) {
						ackErr = fmt.Errorf("acknowledgement of %d only %d bytes after the last, window %d", v, v-last, win)
					}
					last = v
				case 4:
					if len(m.Data) >= 6 && m.Data[1] == 7 {
						answers = append(answers, binary.BigEndian.Uint32(m.Data[2:]))
					}
				}
			}
			// the bytes of the chunk stream, without the handshake
			if un := sent - 3073 - last; un > int64(win)+maxc+3073 {
				ackErr = fmt.Errorf("%d bytes unacknowledged at the end, window %d", un, win)
			}
			return nil
		}
		var d *gen.Done
		var err error
		if server {
			d, err = gen.RefPublisher(t, t.Frags("f"), func(c *rtmp.Conn, nc net.Conn) { sink.ReadAll(c) }, feed)
		} else {
			d, err = gen.RefPlayed(t, t.Frags("f"), func(c *rtmp.Conn) { sink.ReadAll(c) }, feed)
		}
		if s := d.Ended(wait); s != "" {
			t.Fatalf("%s", s)
		}
		if err != nil || d.Err != nil {
			t.Fatalf("%v %v: %s", err, d.Err, desc)
		}
		if len(answers) != len(pings) {
			t.Fatalf("%d pings, %d answers: %s", len(pings), len(answers), desc)
		}
		for i := range pings {
			if answers[i] != pings[i] {
				t.Fatalf("ping %#x answered with %#x: %s", pings[i], answers[i], desc)
			}
		}
		if ackErr != nil {
			t.Fatalf("%v: %s", ackErr, desc)
		}
		if sink.N() != media {
			t.Fatalf("%d media messages, %d packets", media, sink.N())
		}
		t.LabelIf(len(pings) > 0, "pings")
		t.LabelIf(acks > 0, "acknowledgements")
		if len(pings) > 0 || acks > 0 {
			t.Nontrivial(server, win, desc)
		}
		t.Sample("server=%v window=%d %s", server, win, desc)
	})
}

// The address dialled is the URL's host with its port or the scheme's default.
func TestDialAddress(t *testing.T) {
	vt.Check(t, 1000, 10000, func(t *vt.T) {
		name := vt.Pick(t, "name", "host", "a.b.example", "10.0.0.1", "::1", "fe80::1:2")
		port := vt.Pick(t, "port", "", "1935", "80", "65535", "443")
		scheme := vt.Pick(t, "scheme", "rtmp", "rtmps")
		want := port
		if want == "" {
			want = map[string]string{"rtmp": "1935", "rtmps": "443"}[scheme]
		}
		h := name
		if strings.Contains(name, ":") {
			h = "[" + name + "]"
		}
		if port != "" {
			h += ":" + port
		} else if t.Bool("empty port") {
			h += ":"
		}
		got := ""
		c := rtmp.NewClient()
		c.NewDialFunc = func() func(ctx context.Context, network, address string) (net.Conn, error) {
			return func(ctx context.Context, network, address string) (net.Conn, error) {
				got = address
				return nil, vt.ErrInjected
			}
		}
		_, _, err := c.Dial(scheme+"://"+h+"/app/s", rtmp.PrepareReading)
		if err != vt.ErrInjected {
			t.Fatalf("dial error %v", err)
		}
		if w := net.JoinHostPort(name, want); got != w {
			t.Fatalf("%s://%s dials %q, want %q", scheme, h, got, w)
		}
		t.Nontrivial(scheme, h)
	})
}
