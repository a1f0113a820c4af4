package c32

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/nareix/joy5/av"
	"github.com/nareix/joy5/format"
	"github.com/nareix/joy5/format/flv"
	"github.com/nareix/joy5/format/flv/flvio"
	"github.com/nareix/joy5/format/rtmp"

	"joyverif/gen"
	"joyverif/ref"
	"joyverif/vt"
)

func scratch() string {
	d, err := os.MkdirTemp("", "c32")
	if err != nil {
		vt.Infra("%v", err)
	}
	return d
}

var errAlloc = errors.New("no memory of mine")

// A demuxer tells the flags of the file header and takes the memory for tag
// bodies from where it is told.
func TestDemuxerHooks(t *testing.T) {
	vt.Check(t, 3000, 60000, func(t *vt.T) {
		var tags []ref.FLVTag
		for n := t.Int(0, 8, "n"); n > 0; n-- {
			tag, _ := gen.RefTag(t, t.OneIn(5, "big"), "tag")
			tags = append(tags, tag)
		}
		flags := vt.Pick(t, "flags", byte(0), 1, 4, 5)
		b, _ := ref.BuildFLV(flags, vt.Pick(t, "offset", 9, 9, 13, 40, 1000), tags)
		read := func(hooked bool, fail int) (ps []av.Packet, err error, hdrs []uint8, sizes []int) {
			d := flv.NewDemuxer(&vt.FragReader{B: append([]byte{}, b...), Frags: t.Frags("frag")})
			if hooked {
				d.LogHeaderEvent = func(f uint8) { hdrs = append(hdrs, f) }
				d.Malloc = func(n int) ([]byte, error) {
					if len(sizes) == fail {
						return nil, errAlloc
					}
					sizes = append(sizes, n)
					m := make([]byte, n, n+t.Int(0, 8, "more"))
					for i := range m {
						m[i] = 0xdd
					}
					return m, nil
				}
			}
			ps, err = gen.ReadAll(d, 1000)
			return
		}
		a, aerr, _, _ := read(false, -1)
		p, perr, hdrs, sizes := read(true, -1)
		desc := fmt.Sprintf("flags %d, %d tags, %d bytes", flags, len(tags), len(b))
		if aerr != io.EOF || perr != io.EOF || len(a) != len(p) {
			t.Fatalf("%s: %d packets (%v) without hooks, %d (%v) with hooks", desc, len(a), aerr, len(p), perr)
		}
		for i := range a {
			if a[i].Type != p[i].Type || a[i].Time != p[i].Time || a[i].CTime != p[i].CTime || a[i].IsKeyFrame != p[i].IsKeyFrame || !bytes.Equal(a[i].Data, p[i].Data) {
				t.Fatalf("%s: packet %d differs with hooks", desc, i)
			}
		}
		if len(hdrs) != 1 || hdrs[0] != flags {
			t.Fatalf("%s: LogHeaderEvent was called with %v", desc, hdrs)
		}
		if len(sizes) != len(tags) {
			t.Fatalf("%s: memory for %d bodies", desc, len(sizes))
		}
		for i := range sizes {
			if sizes[i] != len(tags[i].Body) {
				t.Fatalf("%s: memory of %d bytes for the body %d of %d", desc, sizes[i], i, len(tags[i].Body))
			}
		}
		if len(tags) > 0 {
			fail := t.Int(0, len(tags)-1, "fail")
			p, perr, _, _ = read(true, fail)
			if perr != errAlloc {
				t.Fatalf("%s: no memory for tag %d: %v", desc, fail, perr)
			}
			if len(p) > len(a) {
				t.Fatalf("%s: no memory for tag %d: %d packets", desc, fail, len(p))
			}
			for i := range p {
				if a[i].Type != p[i].Type || !bytes.Equal(a[i].Data, p[i].Data) {
					t.Fatalf("%s: no memory for tag %d: packet %d differs", desc, fail, i)
				}
			}
			t.Nontrivial(b)
		}
	})
}

// The opener's hooks for files and FLV over HTTP.
func TestOpenerFLV(t *testing.T) {
	srvOnce.Do(startHTTP)
	vt.Check(t, 1000, 20000, func(t *vt.T) {
		d := scratch()
		defer os.RemoveAll(d)
		name := filepath.Join(d, "x.flv")
		var pkts []gen.Pkt
		for len(pkts) == 0 {
			pkts = gen.Packets(t, gen.PktOpts{MaxPkts: 6}, "p")
		}
		pub, video, audio := t.Bool("pub"), t.Bool("video"), t.Bool("audio")
		muxers, demuxers, other := 0, 0, 0
		var dm *flv.Demuxer
		var hdrs []uint8
		o := &format.URLOpener{
			OnNewFlvMuxer: func(m *flv.Muxer) {
				muxers++
				m.Publishing, m.HasVideo, m.HasAudio = pub, video, audio
			},
			OnNewFlvDemuxer: func(r *flv.Demuxer) {
				demuxers++
				dm = r
				r.LogHeaderEvent = func(f uint8) { hdrs = append(hdrs, f) }
			},
			OnNewRtmpConn:   func(*rtmp.Conn) { other++ },
			OnNewRtmpServer: func(*rtmp.Server) { other++ },
			OnNewRtmpClient: func(*rtmp.Client) { other++ },
		}
		w, err := o.Create(name, nil)
		if err != nil {
			t.Fatalf("create: %v", err)
		}
		if muxers != 1 || demuxers != 0 {
			t.Fatalf("after Create: OnNewFlvMuxer called %d times, OnNewFlvDemuxer %d", muxers, demuxers)
		}
		for _, p := range pkts {
			if err := w.WritePacket(p.P); err != nil {
				t.Fatalf("write: %v", err)
			}
		}
		if err := w.Close(); err != nil {
			t.Fatalf("close: %v", err)
		}
		b, err := os.ReadFile(name)
		if err != nil {
			t.Fatalf("%v", err)
		}
		f, err := ref.ParseFLV(b)
		if err != nil {
			t.Fatalf("what was written: %v", err)
		}
		if (f.Flags&1 != 0) != video || (f.Flags&4 != 0) != audio {
			t.Fatalf("flags %d in the file, the hook set video %v audio %v", f.Flags, video, audio)
		}
		if len(f.Tags) != len(pkts) {
			t.Fatalf("%d tags for %d packets", len(f.Tags), len(pkts))
		}
		for i, tag := range f.Tags {
			if bad := gen.TagMatches(pkts[i], tag, pub); bad != "" {
				t.Fatalf("publishing %v: tag %d: %s", pub, i, bad)
			}
		}
		u := name
		if t.OneIn(3, "http") {
			key := fmt.Sprintf("/%d/x.flv", atomic.AddInt64(&srvN, 1))
			srvFiles.Store(key, b)
			defer srvFiles.Delete(key)
			u = srvURL + key
		}
		r, err := o.Open(u)
		if err != nil {
			t.Fatalf("open %s: %v", u, err)
		}
		defer r.Close()
		if demuxers != 1 || muxers != 1 || other != 0 {
			t.Fatalf("after Open(%q): OnNewFlvDemuxer called %d times, OnNewFlvMuxer %d, those for RTMP %d", u, demuxers, muxers, other)
		}
		if r.Flv != dm || r.Flv == nil || r.Rtmp != nil || r.NetConn != nil {
			t.Fatalf("the handle's Flv is not the demuxer of the hook")
		}
		ps, err := gen.ReadAll(r, 1000)
		if err != io.EOF || len(ps) != len(pkts) {
			t.Fatalf("reading %s: %d packets of %d, %v", u, len(ps), len(pkts), err)
		}
		for i, g := range ps {
			if bad := gen.SamePkt(pkts[i], g); bad != "" {
				t.Fatalf("reading %s: packet %d: %s", u, i, bad)
			}
		}
		if len(hdrs) != 1 || hdrs[0] != f.Flags {
			t.Fatalf("reading %s: LogHeaderEvent called with %v, the file has %d", u, hdrs, f.Flags)
		}
		t.Nontrivial(pub, video, audio, gen.PktKey(pkts))
	})
}

var (
	srvOnce  sync.Once
	srvURL   string
	srvN     int64
	srvFiles sync.Map
)

func startHTTP() {
	l, err := net.Listen("tcp", ref.LocalIP()+":0")
	if err != nil {
		vt.Infra("%v", err)
	}
	srvURL = "http://" + l.Addr().String()
	go http.Serve(l, http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		if b, ok := srvFiles.Load(r.URL.Path); ok {
			w.Write(b.([]byte))
			return
		}
		w.WriteHeader(404)
	}))
}

// The opener's hooks for RTMP, as a client.
func TestOpenerRTMP(t *testing.T) {
	vt.Check(t, 1000, 20000, func(t *vt.T) {
		pub := t.Bool("pub")
		host := vt.Pick(t, "host", "host", "host:1936", "10.0.0.1", "[::1]", "[::1]:9", "example.com:443")
		want := host
		switch host {
		case "host", "10.0.0.1", "[::1]":
			want += ":1935"
		}
		var pkts []gen.Pkt
		for len(pkts) == 0 {
			pkts = gen.Packets(t, gen.PktOpts{MaxPkts: 6}, "p")
		}
		refuse := t.OneIn(4, "refuse")
		wrap := t.Bool("wrap")
		setLog := t.Bool("log")
		a, b := vt.NewPipe(t.Frags("fa"), t.Frags("fb"))
		pw := &wire{Conn: b}
		var ov *over
		var dials, clients, conns, wraps, failures int
		var conn *rtmp.Conn
		var logged *rtmp.Conn
		var tags, chunk int
		bad := ""
		fail := func(f string, x ...interface{}) {
			if bad == "" {
				bad = fmt.Sprintf(f, x...)
			}
		}
		o := &format.URLOpener{
			NewDialFunc: func() func(ctx context.Context, network, address string) (net.Conn, error) {
				return func(ctx context.Context, network, address string) (net.Conn, error) {
					dials++
					if clients != 1 || conns != 0 || wraps != 0 {
						fail("dialling after %d clients, %d connections, %d replacements", clients, conns, wraps)
					}
					if network != "tcp" || address != want {
						fail("dialled %q %q, want %q", network, address, want)
					}
					return a, nil
				}
			},
			OnNewRtmpClient: func(c *rtmp.Client) {
				clients++
				if setLog {
					c.LogEvent = func(c *rtmp.Conn, nc net.Conn, e int) {
						if e == rtmp.EventHandshakeFailed {
							failures++
							logged = c
						}
					}
				}
			},
			OnNewRtmpConn: func(c *rtmp.Conn) {
				conns++
				conn = c
				c.LogTagEvent = func(bool, flvio.Tag) { tags++ }
				c.LogChunkDataEvent = func(_ bool, b []byte) { chunk += len(b) }
			},
			OnNewRtmpServer: func(*rtmp.Server) { fail("OnNewRtmpServer called for a client") },
			OnNewFlvMuxer:   func(*flv.Muxer) { fail("OnNewFlvMuxer called for RTMP") },
			OnNewFlvDemuxer: func(*flv.Demuxer) { fail("OnNewFlvDemuxer called for RTMP") },
		}
		if wrap {
			o.ReplaceRawConn = func(nc net.Conn) net.Conn {
				wraps++
				if nc != net.Conn(a) {
					fail("ReplaceRawConn was given %T", nc)
				}
				ov = &over{Conn: nc}
				return ov
			}
		}
		inHook := t.OneIn(3, "inhook") // the client's hook has the last word
		if inHook {
			log, dial, repl := o.OnNewRtmpClient, o.NewDialFunc, o.ReplaceRawConn
			o.OnNewRtmpClient = func(c *rtmp.Client) {
				log(c)
				c.NewDialFunc = dial
				c.ReplaceRawConn = repl
			}
			o.NewDialFunc = func() func(ctx context.Context, network, address string) (net.Conn, error) {
				fail("the NewDialFunc that the client's hook replaced is called")
				return dial()
			}
			o.ReplaceRawConn = func(nc net.Conn) net.Conn {
				fail("the ReplaceRawConn that the client's hook replaced is called")
				return nc
			}
		}
		var sink gen.Sink
		srv := rtmp.NewServer()
		srv.HandleConn = func(c *rtmp.Conn, nc net.Conn) {
			defer nc.Close()
			if c.Publishing != pub {
				fail("Publishing %v", c.Publishing)
			}
			if pub {
				sink.ReadAll(c)
				return
			}
			for _, p := range pkts {
				if err := c.WritePacket(p.P); err != nil {
					sink.Err = err
					return
				}
			}
			// until the client has read it
			select {
			case <-c.CloseNotify():
			case <-time.After(wait):
				sink.Err = errors.New("the client does not close")
			}
		}
		sd := gen.Go(func() {
			if refuse {
				p := ref.NewPeer(pw)
				p.ServerHandshake(make([]byte, 1536), false)
				p.WaitCmd("connect")
				p.Cmd(3, 0, "_error", 1.0, nil, ref.Status("error", "NetConnection.Connect.Rejected"))
				pw.Close()
				return
			}
			srv.HandleNetConn(pw)
		})
		u := "rtmp://" + host + "/app/stream"
		var got []av.Packet
		var err error
		var h *format.Reader
		cd := gen.Go(func() {
			if pub {
				var w *format.Writer
				if w, err = o.Create(u, nil); err != nil {
					return
				}
				h = &format.Reader{NetConn: w.NetConn, Rtmp: w.Rtmp, IsRemote: w.IsRemote}
				for _, p := range pkts {
					if err = w.WritePacket(p.P); err != nil {
						return
					}
				}
				err = w.Close()
				return
			}
			if h, err = o.Open(u); err != nil {
				return
			}
			for range pkts {
				var p av.Packet
				if p, err = h.ReadPacket(); err != nil {
					return
				}
				got = append(got, p)
			}
			err = h.Close()
		})
		desc := fmt.Sprintf("publish %v %s refuse %v wrap %v in the hook %v: %s", pub, u, refuse, wrap, inHook, gen.ShowPkts(pkts))
		if s := cd.Ended(wait); s != "" {
			t.Fatalf("%s\n%s", s, desc)
		}
		a.Close()
		if s := sd.Ended(wait); s != "" {
			t.Fatalf("server: %s\n%s", s, desc)
		}
		if bad != "" {
			t.Fatalf("%s\n%s", bad, desc)
		}
		wantWraps := 0
		if wrap {
			wantWraps = 1
			if !bytes.Equal(ov.sent, pw.got) || !bytes.HasPrefix(pw.sent, ov.got) {
				t.Fatalf("not all bytes go through the replaced connection: %d of %d written\n%s", len(ov.sent), len(pw.got), desc)
			}
			if !ov.closed {
				t.Fatalf("the replaced connection is not closed\n%s", desc)
			}
		}
		if dials != 1 || clients != 1 || wraps != wantWraps {
			t.Fatalf("%d dials, %d clients, %d replacements\n%s", dials, clients, wraps, desc)
		}
		if refuse {
			if err == nil || conns != 0 {
				t.Fatalf("refused: %v, OnNewRtmpConn called %d times\n%s", err, conns, desc)
			}
			if setLog && (failures != 1 || logged == nil) {
				t.Fatalf("refused: LogEvent called %d times\n%s", failures, desc)
			}
			t.Label("refused")
			t.Nontrivial(desc)
			return
		}
		if err != nil || failures != 0 {
			t.Fatalf("%v, %d failures\n%s", err, failures, desc)
		}
		if conns != 1 || h.Rtmp != conn || conn == nil || !h.IsRemote {
			t.Fatalf("OnNewRtmpConn called %d times, or not with the handle's connection\n%s", conns, desc)
		}
		if wrap && h.NetConn != net.Conn(ov) || !wrap && h.NetConn != net.Conn(a) {
			t.Fatalf("NetConn is %T\n%s", h.NetConn, desc)
		}
		if pub {
			got = sink.Pkts
		} else if sink.Err != nil {
			t.Fatalf("server: %v\n%s", sink.Err, desc)
		}
		if len(got) != len(pkts) || tags < len(pkts) || chunk == 0 {
			t.Fatalf("%d packets, %d tags reported, %d bytes\n%s", len(got), tags, chunk, desc)
		}
		for i := range got {
			if s := gen.SamePkt(pkts[i], got[i]); s != "" {
				t.Fatalf("packet %d: %s\n%s", i, s, desc)
			}
		}
		t.Nontrivial(desc)
		t.Sample("%s", desc)
	})
}

// ... and waiting for a publisher.
func TestOpenerWait(t *testing.T) {
	vt.Check(t, 250, 5000, func(t *vt.T) {
		l, err := net.Listen("tcp", ref.LocalIP()+":0")
		if err != nil {
			vt.Infra("%v", err)
		}
		addr := l.Addr().String()
		l.Close()
		var pkts []gen.Pkt
		for len(pkts) == 0 {
			pkts = gen.Packets(t, gen.PktOpts{MaxPkts: 5}, "p")
		}
		wrap := t.Bool("wrap")
		strangers := t.Int(0, 2, "strangers")
		var mu sync.Mutex
		var ovs []*over
		var servers, conns int
		var conn *rtmp.Conn
		bad := ""
		known := map[*rtmp.Conn]bool{}
		o := &format.URLOpener{
			OnNewRtmpServer: func(s *rtmp.Server) {
				mu.Lock()
				servers++
				mu.Unlock()
				s.OnNewConn = func(c *rtmp.Conn) {
					mu.Lock()
					known[c] = true
					mu.Unlock()
				}
			},
			OnNewRtmpConn: func(c *rtmp.Conn) {
				mu.Lock()
				conns++
				conn = c
				if !known[c] {
					bad = "OnNewRtmpConn: a connection the server's OnNewConn has not seen"
				}
				mu.Unlock()
			},
			OnNewRtmpClient: func(*rtmp.Client) { bad = "OnNewRtmpClient called for a server" },
		}
		if wrap {
			o.ReplaceRawConn = func(nc net.Conn) net.Conn {
				mu.Lock()
				defer mu.Unlock()
				x := &over{Conn: nc}
				ovs = append(ovs, x)
				return x
			}
		}
		inHook := t.OneIn(3, "inhook") // the server's hook has the last word
		if inHook {
			on, repl := o.OnNewRtmpServer, o.ReplaceRawConn
			o.OnNewRtmpServer = func(s *rtmp.Server) {
				on(s)
				s.ReplaceRawConn = repl
			}
			o.ReplaceRawConn = func(nc net.Conn) net.Conn {
				mu.Lock()
				defer mu.Unlock()
				bad = "the ReplaceRawConn that the server's hook replaced is called"
				return nc
			}
		}
		var r *format.Reader
		od := gen.Go(func() { r, err = o.Open("@rtmp://" + addr + "/app/stream") })
		var perr error
		var up int64
		pd := gen.Go(func() {
			var nc net.Conn
			for end := time.Now().Add(wait); ; time.Sleep(2 * time.Millisecond) {
				if nc, perr = net.Dial("tcp", addr); perr == nil || time.Now().After(end) {
					break
				}
				select {
				case <-od.C:
					return
				default:
				}
			}
			if perr != nil {
				return
			}
			for ; strangers > 0; strangers-- {
				nc.Write([]byte("GET / HTTP/1.0\r\n\r\n"))
				nc.Close()
				if nc, perr = net.Dial("tcp", addr); perr != nil {
					return
				}
			}
			defer nc.Close()
			nc.SetDeadline(time.Now().Add(wait))
			p := ref.NewPeer(countConn{nc, &up})
			if _, _, perr = p.ClientHandshake(make([]byte, 1536), false); perr != nil {
				return
			}
			if perr = p.ClientSession("app", "rtmp://"+addr+"/app", "stream", true); perr != nil {
				return
			}
			for _, x := range pkts {
				b := &bytes.Buffer{}
				if perr = gen.MuxFLV(b, []gen.Pkt{x}, true, true, true, true); perr != nil {
					return
				}
				var f ref.FLVFile
				if f, perr = ref.ParseFLV(b.Bytes()); perr != nil {
					return
				}
				if perr = p.Send(ref.Msg{CSID: 6, Type: f.Tags[0].Type, Stream: 1, Time: f.Tags[0].Time, Data: f.Tags[0].Body}); perr != nil {
					return
				}
			}
			if tc, ok := nc.(*net.TCPConn); ok {
				tc.CloseWrite()
			}
			io.Copy(io.Discard, nc)
		})
		desc := fmt.Sprintf("wrap %v in the hook %v: %s", wrap, inHook, gen.ShowPkts(pkts))
		if s := od.Ended(2 * wait); s != "" {
			t.Fatalf("open @rtmp: %s\n%s", s, desc)
		}
		if err != nil {
			pd.Ended(2 * wait)
			return // the port has been taken meanwhile
		}
		r.NetConn.SetDeadline(time.Now().Add(wait))
		got, rerr := gen.ReadAll(r, 1000)
		nc := r.NetConn
		r.Close()
		if s := pd.Ended(2 * wait); s != "" {
			t.Fatalf("publisher: %s\n%s", s, desc)
		}
		if perr != nil {
			t.Fatalf("publisher: %v\n%s", perr, desc)
		}
		mu.Lock()
		defer mu.Unlock()
		if bad != "" {
			t.Fatalf("%s\n%s", bad, desc)
		}
		if servers != 1 || conns != 1 || conn != r.Rtmp || conn == nil {
			t.Fatalf("OnNewRtmpServer called %d times, OnNewRtmpConn %d, or not with the handle's connection\n%s", servers, conns, desc)
		}
		if len(got) != len(pkts) || rerr != io.EOF && rerr != io.ErrUnexpectedEOF {
			t.Fatalf("%d packets, then %v\n%s", len(got), rerr, desc)
		}
		for i := range got {
			if s := gen.SamePkt(pkts[i], got[i]); s != "" {
				t.Fatalf("packet %d: %s\n%s", i, s, desc)
			}
		}
		if wrap {
			var mine *over
			for _, x := range ovs {
				if net.Conn(x) == nc {
					mine = x
				}
			}
			if mine == nil {
				t.Fatalf("NetConn is %T\n%s", nc, desc)
			}
			mine.mu.Lock()
			n := len(mine.got)
			mine.mu.Unlock()
			if int64(n) != atomic.LoadInt64(&up) {
				t.Fatalf("%d bytes came through the replaced connection, the publisher sent %d\n%s", n, up, desc)
			}
		}
		t.Nontrivial(wrap, gen.PktKey(pkts))
	})
}

type countConn struct {
	net.Conn
	n *int64
}

func (c countConn) Write(b []byte) (n int, err error) {
	n, err = c.Conn.Write(b)
	atomic.AddInt64(c.n, int64(n))
	return
}
