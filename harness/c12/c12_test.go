package c12

import (
	"encoding/binary"
	"fmt"
	"net"
	"strings"
	"testing"
	"time"

	"github.com/nareix/joy5/av"
	"github.com/nareix/joy5/format/rtmp"

	"joyverif/gen"
	"joyverif/ref"
	"joyverif/vt"
)

func TestMain(m *testing.M) { vt.Main(m) }

const (
	cpu  = 20 * time.Second
	idle = 90 * time.Second
)

// soup draws structured chunk garbage.
func soup(t *vt.T) (b []byte) {
	n := t.Int(1, 30, "soup")
	ncs := t.Int(1, 24, "soupcs")
	for i := 0; i < n; i++ {
		cs := t.Int(0, ncs, "cs")
		f := t.Int(0, 3, "f")
		b = append(b, byte(f<<6|cs))
		if cs == 0 {
			b = append(b, t.Byte("c2"))
		} else if cs == 1 {
			b = append(b, t.Byte("c2"), t.Byte("c3"))
		}
		typ := vt.Pick(t, "typ", byte(1), 1, 2, 3, 4, 5, 6, 8, 9, 15, 17, 18, 20, 20, 22, 22, 0, 99)
		ln := vt.Pick(t, "ln", 0, 1, 2, 3, 4, 5, 6, 10, 11, 15, 40, 127, 128, 129, 300, 4<<20, 4<<20+1, 0xffffff)
		ts := vt.Pick(t, "ts", uint32(0), 1, 1000, 0xfffffe, 0xffffff)
		if f < 3 {
			b = append(b, byte(ts>>16), byte(ts>>8), byte(ts))
		}
		if f < 2 {
			b = append(b, byte(ln>>16), byte(ln>>8), byte(ln), typ)
		}
		if f == 0 {
			b = append(b, byte(t.Int(0, 2, "sid")), 0, 0, 0)
		}
		if f < 3 && ts == 0xffffff {
			b = binary.BigEndian.AppendUint32(b, t.U32("ext"))
		}
		if ln > 128 {
			ln = 128
		}
		if t.OneIn(5, "short") {
			ln = t.Int(0, ln, "shortn")
		}
		switch typ {
		case 1, 3, 5:
			b = append(b, binary.BigEndian.AppendUint32(nil, vt.Pick(t, "v", uint32(0), 1, 2, 128, 65536, 0x7fffffff, 0x80000000, 0xffffffff))...)
			if ln > 4 {
				ln -= 4
			} else {
				ln = 0
			}
		case 20, 18:
			x := command(t)
			if len(x) > ln {
				x = x[:ln]
			}
			b = append(b, x...)
			ln -= len(x)
		}
		b = append(b, vt.Fill(ln, uint64(t.Byte("fill")))...)
	}
	return
}

// command draws a command message that may make no sense.
func command(t *vt.T) []byte {
	name := interface{}(vt.Pick(t, "cname", "connect", "createStream", "publish", "play", "_result", "_error", "onStatus", "releaseStream", "deleteStream", "close", ""))
	var vals []interface{}
	if !t.OneIn(8, "noname") {
		vals = append(vals, name)
	} else {
		vals = append(vals, gen.AMF0(t, 1, "nm"))
	}
	if !t.OneIn(8, "notrans") {
		vals = append(vals, vt.Pick(t, "tr", 0.0, 1, 2, 4, 5, -1, 1e300))
	}
	n := t.Int(0, 4, "cargs")
	for i := 0; i < n; i++ {
		switch t.Int(0, 5, "carg") {
		case 0:
			vals = append(vals, nil)
		case 1:
			vals = append(vals, &ref.Obj{KVs: []ref.KV{{K: vt.Pick(t, "ck", "app", "tcUrl", "level", "code"), V: gen.AMF0(t, 1, "cv")}}})
		case 2:
			vals = append(vals, &ref.Obj{KVs: []ref.KV{{K: "app", V: str(t)}, {K: "tcUrl", V: str(t)}}})
		case 3:
			vals = append(vals, str(t))
		default:
			vals = append(vals, gen.AMF0(t, 2, "ca"))
		}
	}
	return ref.AMF0Msg(vals...)
}

func str(t *vt.T) string {
	return vt.Pick(t, "str", "", "app", "rtmp://host/app", "rtmp://", "://", "rtmp://[::1", "%zz", "\x00", "/", "//", "?", "a b", "rtmp:opaque", "stream?x=y", "status", "NetStream.Publish.Start", "http://h\x7f/")
}

// script draws what a peer sends after the handshake: a valid session for
// the endpoint under test, up to some stage, then media.
func script(t *vt.T, server, publish bool) (b []byte, what string) {
	e := ref.NewChunkEnc()
	cmd := func(csid, stream uint32, vals ...interface{}) {
		e.Whole(ref.Msg{CSID: csid, Type: 20, Stream: stream, Data: ref.AMF0Msg(vals...)})
	}
	stage := t.Int(0, 5, "stage")
	if server {
		if stage > 0 {
			cmd(3, 0, "connect", 1.0, &ref.Obj{KVs: []ref.KV{{K: "app", V: "app"}, {K: "tcUrl", V: "rtmp://host/app"}}})
		}
		if stage > 1 {
			cmd(3, 0, "createStream", 2.0, nil)
		}
		if stage > 2 {
			n := "play"
			if publish {
				n = "publish"
			}
			cmd(4, 1, n, 3.0, nil, "stream", "live")
		}
	} else {
		ct := 2.0
		if publish {
			ct = 4.0
		}
		if stage > 0 {
			cmd(3, 0, "_result", 1.0, &ref.Obj{}, ref.Status("status", "x"))
		}
		if stage > 1 {
			cmd(3, 0, "_result", ct, nil, 1.0)
		}
		if stage > 2 {
			cmd(5, 1, "onStatus", 0.0, nil, ref.Status("status", "x"))
		}
	}
	if stage > 3 {
		n := t.Int(1, 5, "nmedia")
		var msgs []ref.Msg
		for i := 0; i < n; i++ {
			tag, _ := gen.RefTag(t, false, "tag")
			m := ref.Msg{CSID: vt.Pick(t, "mcs", uint32(4), 6, 70, 400), Type: tag.Type, Stream: 1, Time: tag.Time, Data: tag.Body}
			if t.OneIn(3, "agg") {
				m.Type = 22
				m.Data = ref.AppendFLVTag(ref.AppendFLVTag(nil, tag), tag)
				if t.Bool("badagg") {
					m.Data = gen.Mutate(t, m.Data, "aggmut")
				}
			}
			msgs = append(msgs, m)
		}
		gen.Interleave(t, e, msgs, nil, nil)
	}
	b = e.Take()
	what = fmt.Sprintf("stage %d", stage)
	switch t.Int(0, 5, "then") {
	case 0:
		what += ", then nothing"
	case 1, 2:
		b = append(b, soup(t)...)
		what += ", then chunk soup"
	case 3:
		b = append(b, t.RawBytes(300, "raw")...)
		what += ", then raw bytes"
	default:
		if len(b) > 0 {
			b = gen.Mutate(t, b, "mut")
		}
		what += ", mutated"
	}
	if t.OneIn(3, "cut") && len(b) > 0 {
		b = b[:t.Int(0, len(b), "cutat")]
		what += ", cut"
	}
	return
}

func use(t *vt.T, c *rtmp.Conn, mode int) {
	switch mode {
	case 0, 1:
		for i := 0; i < 100000; i++ {
			if _, err := c.ReadPacket(); err != nil {
				return
			}
		}
		panic("endless packets")
	case 2:
		c.BypassMsgtypeid = []uint8{8, 9, 18, 15, 20, 22, 3, 0, 99}
		if c.Prepare(rtmp.StageCommandDone, rtmp.PrepareReading) != nil {
			return
		}
		for i := 0; i < 100000; i++ {
			if _, err := c.ReadTag(); err != nil {
				return
			}
		}
		panic("endless tags")
	case 3:
		for i := 0; i < 4; i++ {
			if err := c.WritePacket(av.Packet{Type: av.H264, Data: make([]byte, 200)}); err != nil {
				return
			}
		}
	}
}

// limit is the memory a session may use: sixteen messages of four MiB, and a
// multiple of what was received.
func limit(n int) uint64 { return 80<<20 + 400*uint64(n) }

func TestServer(t *testing.T) {
	vt.Check(t, 6000, 120000, func(t *vt.T) {
		var in []byte
		what := ""
		publish := t.Bool("publish")
		if t.OneIn(6, "nohs") {
			in = t.RawBytes(4000, "in")
			if len(in) > 0 && t.Bool("v3") {
				in[0] = 3
			}
			what = "no handshake"
		} else {
			c1, _, _ := gen.C1(t, false, "c1")
			in = append([]byte{3}, c1...)
			in = append(in, c1...)
			b, w := script(t, true, publish)
			in = append(in, b...)
			what = w
		}
		mode := t.Int(0, 3, "mode")
		lim := int64(-1)
		if t.OneIn(5, "wfault") {
			lim = int64(t.Int(0, 8000, "wlim"))
			what += ", write fault"
		}
		frags := t.Frags("f")
		t.Save(in)
		bad := vt.Guard(limit(len(in)), cpu, idle, func() {
			a, b := vt.NewPipe(nil, frags)
			if lim >= 0 {
				b.LimitWrite(lim)
			}
			s := rtmp.NewServer()
			s.HandleConn = func(c *rtmp.Conn, nc net.Conn) {
				t.Label("session reached")
				m := mode
				if !c.Publishing {
					m = 3 // a playing peer is written to
				}
				use(t, c, m)
				nc.Close()
			}
			a.Write(in)
			a.CloseWrite()
			s.HandleNetConn(b)
		})
		if bad != "" {
			t.Fatalf("server, %s: %s\ninput %s", what, bad, gen.Hex(in))
		}
		t.Label("server: " + strings.SplitN(what, ",", 2)[0])
		t.Nontrivial("s", in, mode)
		t.Sample("server: %s, %d bytes", what, len(in))
	})
}

func TestClient(t *testing.T) {
	vt.Check(t, 6000, 120000, func(t *vt.T) {
		var in []byte
		what := ""
		publish := t.Bool("publish")
		if t.OneIn(8, "nohs") {
			in = t.RawBytes(4000, "in")
			what = "no handshake"
		} else {
			s1, _, _ := gen.C1(t, true, "s1")
			in = append([]byte{3}, s1...)
			in = append(in, s1...)
			b, w := script(t, false, publish)
			in = append(in, b...)
			what = w
		}
		mode := t.Int(0, 2, "mode")
		if publish {
			mode = 3
		}
		lim := int64(-1)
		if t.OneIn(5, "wfault") {
			lim = int64(t.Int(0, 8000, "wlim"))
			what += ", write fault"
		}
		frags := t.Frags("f")
		t.Save(in)
		bad := vt.Guard(limit(len(in)), cpu, idle, func() {
			a, b := vt.NewPipe(frags, nil)
			if lim >= 0 {
				a.LimitWrite(lim)
			}
			b.Write(in)
			b.CloseWrite()
			c, err := gen.DialRTMP(a, "rtmp://host/app/stream", publish)
			if err == nil {
				t.Label("session reached")
				use(t, c, mode)
			}
			a.Close()
		})
		if bad != "" {
			t.Fatalf("client, %s: %s\ninput %s", what, bad, gen.Hex(in))
		}
		t.Label("client: " + strings.SplitN(what, ",", 2)[0])
		t.Nontrivial("c", in, mode)
		t.Sample("client: %s, %d bytes", what, len(in))
	})
}

// What goes beyond the limits is refused while the peer is still there, and
// before its data has arrived.
func TestLimits(t *testing.T) {
	vt.Check(t, 1500, 20000, func(t *vt.T) {
		server := t.Bool("server")
		e := ref.NewChunkEnc()
		in := append([]byte{3}, make([]byte, 3072)...)
		cmd := func(csid, stream uint32, vals ...interface{}) {
			e.Whole(ref.Msg{CSID: csid, Type: 20, Stream: stream, Data: ref.AMF0Msg(vals...)})
		}
		early := t.OneIn(3, "early") // before any command
		if !early {
			if server {
				cmd(3, 0, "connect", 1.0, &ref.Obj{KVs: []ref.KV{{K: "app", V: "app"}, {K: "tcUrl", V: "rtmp://host/app"}}})
				cmd(3, 0, "createStream", 2.0, nil)
				cmd(3, 1, "publish", 3.0, nil, "stream", "live")
			} else {
				cmd(3, 0, "_result", 1.0, &ref.Obj{}, ref.Status("status", "x"))
				cmd(3, 0, "_result", 2.0, nil, 1.0)
				cmd(3, 1, "onStatus", 0.0, nil, ref.Status("status", "x"))
			}
		}
		in = append(in, e.Take()...)
		what, kind := "", ""
		switch t.Int(0, 3, "limit") {
		case 0: // announced length above the limit
			n := vt.Pick(t, "big", 4<<20+1, 4<<20+2, 5<<20, 8<<20, 0xffffff)
			in = append(in, 5, 0, 0, 1, byte(n>>16), byte(n>>8), byte(n), vt.Pick(t, "typ", byte(8), 9, 18, 20, 22), 1, 0, 0, 0)
			what = fmt.Sprintf("message of %d bytes announced", n)
			kind = "message size"
		case 1: // the same with a type 1 header
			in = append(in, 5, 0, 0, 1, 0, 0, 0, 8, 1, 0, 0, 0)
			n := vt.Pick(t, "big", 4<<20+1, 5<<20, 0xffffff)
			in = append(in, 5|1<<6, 0, 0, 1, byte(n>>16), byte(n>>8), byte(n), 8)
			what = fmt.Sprintf("message of %d bytes announced by a type 1 header", n)
			kind = "message size, type 1"
		case 2: // too many chunk streams
			n := t.Int(20, 200, "ncs")
			part := t.Bool("part")
			// ids of all three forms, or of one form only
			forms := vt.Pick(t, "csforms", 0, 1, 2, 3)
			base := t.Int(0, 60000, "csbase")
			for i := 0; i < n; i++ {
				form := forms
				if form == 0 {
					form = 1 + (i+base)%3
				}
				if form == 1 && i >= 50 {
					form = 2
				}
				if form == 2 && i >= 250 {
					form = 3
				}
				var b []byte
				switch form {
				case 1:
					b = []byte{byte(4 + i)}
				case 2:
					b = []byte{0, byte(i)}
				default:
					v := 500 + base + i
					b = []byte{1, byte(v), byte(v >> 8)}
				}
				b = append(b, 0, 0, 1, 0, 0, 0, 99, 1, 0, 0, 0)
				if part {
					b[len(b)-6] = 200
					b = append(b, make([]byte, 128)...)
				}
				in = append(in, b...)
			}
			t.Label(fmt.Sprintf("chunk stream id form %d", forms))
			what = fmt.Sprintf("%d chunk streams", n)
			kind = "chunk streams"
		case 3: // chunk size no peer may set
			v := vt.Pick(t, "csz", uint32(0), 0x80000000, 0xffffffff, 0x80000080)
			in = append(in, 2, 0, 0, 0, 0, 0, 4, 1, 0, 0, 0, 0)
			in = binary.BigEndian.AppendUint32(in, v)
			what = fmt.Sprintf("chunk size %#x", v)
			kind = "chunk size"
		}
		t.Save(in)
		refused := true
		bad := vt.Guard(limit(len(in)), cpu, idle, func() {
			a, b := vt.NewPipe(nil, nil)
			a.Write(in)
			d := gen.Go(func() {
				if server {
					s := rtmp.NewServer()
					s.HandleConn = func(c *rtmp.Conn, nc net.Conn) { use(t, c, 0) }
					s.HandleNetConn(b)
				} else if c, err := gen.DialRTMP(b, "rtmp://host/app/stream", false); err == nil {
					use(t, c, 0)
				}
				b.Close()
			})
			// either the session ended, or it waits for more input
			a.PeerIdle(idle)
			select {
			case <-d.C:
			case <-time.After(2 * time.Millisecond):
				select {
				case <-d.C:
				default:
					refused = !waiting(a)
				}
			}
			a.CloseWrite()
			if s := d.Ended(idle); s != "" {
				panic(s)
			}
		})
		if bad != "" {
			t.Fatalf("server=%v %s: %s", server, what, bad)
		}
		if !refused {
			t.Fatalf("server=%v early=%v: %s was not refused", server, early, what)
		}
		t.Label("limit: " + kind)
		t.Nontrivial(server, early, what)
		t.Sample("server=%v early=%v %s", server, early, what)
	})
}

// waiting reports whether the session is still blocked reading with nothing
// left to read.
func waiting(a *vt.Conn) bool { return a.PeerWaiting() }
