package c10

import (
	"bytes"
	"fmt"
	"net"
	"testing"
	"time"

	"github.com/nareix/joy5/format/rtmp"

	"joyverif/gen"
	"joyverif/ref"
	"joyverif/vt"
)

func TestMain(m *testing.M) { vt.Main(m) }

const wait = 60 * time.Second

func describe(p []byte, signed bool, layout int) string {
	if !signed {
		return "plain "
	}
	return fmt.Sprintf("signed layout %d digest at %d", layout, ref.DigestAt(p, layout))
}

// The server against any conforming client.
func TestServer(t *testing.T) {
	vt.Check(t, 4000, 60000, func(t *vt.T) {
		c1, signed, layout := gen.C1(t, false, "c1")
		c2mode := t.Int(0, 2, "c2")
		a, b := vt.NewPipe(t.Frags("af"), t.Frags("bf"))
		d := gen.ServeRTMP(b, func(c *rtmp.Conn, nc net.Conn) { nc.Close() })
		p := ref.NewPeer(a)
		s1, s2, err := p.ClientHandshake(c1, signed && c2mode > 0)
		if err != nil {
			t.Fatalf("%s: handshake: %v", describe(c1, signed, layout), err)
		}
		if len(s1) != 1536 || len(s2) != 1536 {
			t.Fatalf("S1 %d S2 %d bytes", len(s1), len(s2))
		}
		if signed {
			if !ref.Verify2(s2, true, ref.Verify1(c1, false)) {
				t.Fatalf("%s: S2 carries no valid digest", describe(c1, signed, layout))
			}
			if ref.Verify1(s1, true) == nil {
				t.Fatalf("%s: S1 carries no valid digest", describe(c1, signed, layout))
			}
		} else if !bytes.Equal(s2, c1) {
			t.Fatalf("plain C1: S2 does not echo it")
		}
		if err := p.ClientSession("app", "rtmp://h/app", "s", t.Bool("pub")); err != nil {
			t.Fatalf("%s: session after the handshake: %v", describe(c1, signed, layout), err)
		}
		a.CloseWrite()
		if s := d.Ended(wait); s != "" {
			t.Fatalf("%s", s)
		}
		if d.Handled != 1 {
			t.Fatalf("session not handed over")
		}
		ok, dig := rtmp.HsServerParseC1(c1)
		if ok != signed || (signed && len(dig) != 32) {
			t.Fatalf("%s: HsServerParseC1 says %v", describe(c1, signed, layout), ok)
		}
		t.Label("server, " + describe(c1, signed, layout)[:6])
		t.Nontrivial("s", c1)
		t.Sample("C1 %s", describe(c1, signed, layout))
	})
}

// The client against any conforming server.
func TestClient(t *testing.T) {
	vt.Check(t, 3000, 50000, func(t *vt.T) {
		s1, signed, layout := gen.C1(t, true, "s1")
		pub := t.Bool("pub")
		a, b := vt.NewPipe(t.Frags("af"), t.Frags("bf"))
		var c1, c2 []byte
		var perr error
		d := gen.Go(func() {
			defer b.Close()
			p := ref.NewPeer(b)
			if c1, c2, perr = p.ServerHandshake(s1, signed); perr != nil {
				return
			}
			if _, _, _, _, perr = p.ServerSession(); perr != nil {
				return
			}
			perr = p.Cmd(5, 1, "onStatus", 0.0, nil, ref.Status("status", "NetStream.Ok"))
		})
		_, err := gen.DialRTMP(a, "rtmp://host/app/stream", pub)
		a.Close()
		if s := d.Ended(wait); s != "" {
			t.Fatalf("%s", s)
		}
		if perr != nil || err != nil {
			t.Fatalf("S1 %s: client %v, server %v", describe(s1, signed, layout), err, perr)
		}
		if signed {
			if !ref.Verify2(c2, false, ref.Verify1(s1, true)) {
				t.Fatalf("S1 %s: C2 carries no valid digest", describe(s1, signed, layout))
			}
		} else if !bytes.Equal(c2, s1) {
			t.Fatalf("plain S1: C2 does not echo it")
		}
		if len(c1) != 1536 || ref.Verify1(c1, false) == nil {
			t.Fatalf("C1 carries no valid digest")
		}
		t.Label("client, " + describe(s1, signed, layout)[:6])
		t.Nontrivial("c", s1)
		t.Sample("S1 %s", describe(s1, signed, layout))
	})
}

// Library to library.
func TestBoth(t *testing.T) {
	vt.Check(t, 400, 4000, func(t *vt.T) {
		a, b := vt.NewPipe(t.Frags("af"), t.Frags("bf"))
		d := gen.ServeRTMP(b, func(c *rtmp.Conn, nc net.Conn) {
			c.Prepare(rtmp.StageCommandDone, 0)
			nc.Close()
		})
		_, err := gen.DialRTMP(a, "rtmp://host/app/stream", t.Bool("pub"))
		a.Close()
		if s := d.Ended(wait); s != "" {
			t.Fatalf("%s", s)
		}
		if err != nil {
			t.Fatal(err)
		}
		t.Nontrivial("b", t.U64("case"))
	})
}

// A wrong version is refused by either side.
func TestVersion(t *testing.T) {
	vt.Check(t, 600, 6000, func(t *vt.T) {
		v := t.Byte("v")
		if t.OneIn(3, "near") {
			v = vt.Pick(t, "vn", byte(0), 2, 4, 6, 0x83, 255)
		}
		if v == 3 {
			return
		}
		a, b := vt.NewPipe(t.Frags("af"), t.Frags("bf"))
		if t.Bool("server") {
			d := gen.ServeRTMP(b, func(c *rtmp.Conn, nc net.Conn) { nc.Close() })
			c1, _, _ := gen.C1(t, false, "c1")
			a.Write([]byte{v})
			a.Write(c1)
			a.Write(c1)
			p := ref.NewPeer(a)
			p.Send(ref.Msg{CSID: 3, Type: 20, Data: ref.AMF0Msg("connect", 1.0, &ref.Obj{KVs: []ref.KV{{K: "app", V: "app"}, {K: "tcUrl", V: "rtmp://h/app"}}})})
			p.Send(ref.Msg{CSID: 3, Type: 20, Data: ref.AMF0Msg("publish", 1.0, nil, "s")})
			a.CloseWrite()
			if s := d.Ended(wait); s != "" {
				t.Fatalf("%s", s)
			}
			if d.Handled != 0 {
				t.Fatalf("C0 version %d led to a session", v)
			}
			t.Label("server refuses version")
			t.Nontrivial("s", v)
		} else {
			s1, signed, _ := gen.C1(t, true, "s1")
			d := gen.Go(func() {
				defer b.Close()
				c01 := make([]byte, 1537)
				if _, err := readFull(b, c01); err != nil {
					return
				}
				s2 := append([]byte{}, c01[1:]...)
				if signed {
					ref.Make2(s2, true, ref.Verify1(c01[1:], false))
				}
				b.Write(append(append([]byte{v}, s1...), s2...))
				p := ref.NewPeer(b)
				c2 := make([]byte, 1536)
				if _, err := readFull(b, c2); err != nil {
					return
				}
				p.Dec = ref.NewChunkDec(b)
				if _, _, _, _, err := p.ServerSession(); err != nil {
					return
				}
				p.Cmd(5, 1, "onStatus", 0.0, nil, ref.Status("status", "NetStream.Ok"))
			})
			_, err := gen.DialRTMP(a, "rtmp://host/app/stream", t.Bool("pub"))
			a.Close()
			if s := d.Ended(wait); s != "" {
				t.Fatalf("%s", s)
			}
			if err == nil {
				t.Fatalf("S0 version %d led to a session", v)
			}
			t.Label("client refuses version")
			t.Nontrivial("c", v)
		}
	})
}

func readFull(c *vt.Conn, b []byte) (int, error) {
	n := 0
	for n < len(b) {
		k, err := c.Read(b[n:])
		n += k
		if err != nil {
			return n, err
		}
	}
	return n, nil
}

// The connection is cut at any point of the handshake.
func TestCut(t *testing.T) {
	vt.Check(t, 3000, 50000, func(t *vt.T) {
		cut := t.Int(0, 3072, "cut")
		if t.OneIn(4, "border") {
			cut = vt.Pick(t, "at", 0, 1, 2, 1535, 1536, 1537, 1538, 3071, 3072)
		}
		a, b := vt.NewPipe(t.Frags("af"), t.Frags("bf"))
		if t.Bool("server") {
			c1, signed, _ := gen.C1(t, false, "c1")
			d := gen.ServeRTMP(b, func(c *rtmp.Conn, nc net.Conn) { nc.Close() })
			all := append(append([]byte{3}, c1...), c1...)
			a.Write(all[:cut])
			a.CloseWrite()
			if s := d.Ended(wait); s != "" {
				t.Fatalf("cut at %d: %s", cut, s)
			}
			if d.Handled != 0 {
				t.Fatalf("cut at %d led to a session", cut)
			}
			t.Label("server side cut")
			t.Nontrivial("s", cut, signed)
		} else {
			s1, signed, _ := gen.C1(t, true, "s1")
			all := append(append([]byte{3}, s1...), s1...)
			b.Write(all[:cut])
			b.CloseWrite()
			d := gen.Go(func() {
				c, err := gen.DialRTMP(a, "rtmp://host/app/stream", t.Bool("pub"))
				if err == nil || c != nil {
					panic("handshake cut reported as a session")
				}
			})
			if s := d.Ended(wait); s != "" {
				t.Fatalf("cut at %d: %s", cut, s)
			}
			t.Label("client side cut")
			t.Nontrivial("c", cut, signed)
		}
	})
}

// A write fault during the handshake is an error.
func TestWriteFault(t *testing.T) {
	vt.Check(t, 600, 8000, func(t *vt.T) {
		at := t.Int(0, 3000, "at")
		a, b := vt.NewPipe(nil, nil)
		if t.Bool("server") {
			b.LimitWrite(int64(at))
			d := gen.ServeRTMP(b, func(c *rtmp.Conn, nc net.Conn) { nc.Close() })
			c1, _, _ := gen.C1(t, false, "c1")
			a.Write(append(append([]byte{3}, c1...), c1...))
			a.CloseWrite()
			if s := d.Ended(wait); s != "" {
				t.Fatalf("%s", s)
			}
			if d.Handled != 0 {
				t.Fatalf("write fault at %d led to a session", at)
			}
		} else {
			a.LimitWrite(int64(at))
			s1, _, _ := gen.C1(t, true, "s1")
			b.Write(append(append([]byte{3}, s1...), s1...))
			d := gen.Go(func() {
				if _, err := gen.DialRTMP(a, "rtmp://host/app/stream", true); err == nil {
					panic("write fault reported as a session")
				}
			})
			b.CloseWrite()
			if s := d.Ended(wait); s != "" {
				t.Fatalf("%s", s)
			}
		}
		t.Nontrivial(at)
	})
}
