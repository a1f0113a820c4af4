package c32

import (
	"bytes"
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
	"reflect"
	"sync"
	"testing"
	"time"

	"github.com/nareix/joy5/av"
	"github.com/nareix/joy5/format/flv/flvio"
	"github.com/nareix/joy5/format/rtmp"

	"joyverif/gen"
	"joyverif/ref"
	"joyverif/vt"
)

func TestMain(m *testing.M) { vt.Main(m) }

const wait = 60 * time.Second

// wire is the peer's end of the connection; it keeps what went through it.
type wire struct {
	*vt.Conn
	mu        sync.Mutex
	sent, got []byte
}

func (w *wire) Read(b []byte) (n int, err error) {
	n, err = w.Conn.Read(b)
	w.mu.Lock()
	w.got = append(w.got, b[:n]...)
	w.mu.Unlock()
	return
}

func (w *wire) Write(b []byte) (n int, err error) {
	w.mu.Lock()
	w.sent = append(w.sent, b...)
	w.mu.Unlock()
	return w.Conn.Write(b)
}

// over is the connection ReplaceRawConn puts over the given one.
type over struct {
	net.Conn
	mu        sync.Mutex
	sent, got []byte
	closed    bool
}

func (w *over) Read(b []byte) (n int, err error) {
	n, err = w.Conn.Read(b)
	w.mu.Lock()
	w.got = append(w.got, b[:n]...)
	w.mu.Unlock()
	return
}

func (w *over) Write(b []byte) (n int, err error) {
	n, err = w.Conn.Write(b)
	w.mu.Lock()
	w.sent = append(w.sent, b[:n]...)
	w.mu.Unlock()
	return
}

func (w *over) Close() error {
	w.mu.Lock()
	w.closed = true
	w.mu.Unlock()
	return w.Conn.Close()
}

const handshake = 1 + 1536*2

// run is one session between a library endpoint and a reference peer.
type run struct {
	server, pub bool // the library's role; pub: the client publishes
	frags       []int
	hook        func(c *rtmp.Conn) // as early as the API permits
	lib         func(c *rtmp.Conn) // once the session is established
	peer        func(p *ref.Peer) error
	wrap        bool // use ReplaceRawConn

	w       *wire
	ov      *over
	perr    error
	lerr    error
	events  []string
	problem string
	late    bool // the hook came after the session was established
	feedAt  int  // what the peer had sent by then
}

func (r *run) writes() bool { return r.server != r.pub }

func (r *run) bad(f string, a ...interface{}) {
	if r.problem == "" {
		r.problem = fmt.Sprintf(f, a...)
	}
}

// do runs the session and returns what went wrong.
func (r *run) do() string {
	var fa, fb []int
	if r.server {
		fb = r.frags
	} else {
		fa = r.frags
	}
	a, b := vt.NewPipe(fa, fb)
	var under net.Conn
	replace := func(nc net.Conn) net.Conn {
		if nc != under || r.ov != nil {
			r.bad("ReplaceRawConn was given %T, or not just once", nc)
		}
		r.ov = &over{Conn: nc}
		r.events = append(r.events, "replace")
		return r.ov
	}
	check := func(nc net.Conn, what string) {
		if r.wrap && nc != net.Conn(r.ov) || !r.wrap && nc != under {
			r.bad("%s is given %T instead of the connection", what, nc)
		}
	}
	var d *gen.Done
	var p *ref.Peer
	if r.server {
		under = b
		r.w = &wire{Conn: a}
		p = ref.NewPeer(r.w)
		s := rtmp.NewServer()
		var conn *rtmp.Conn
		s.OnNewConn = func(c *rtmp.Conn) {
			conn = c
			r.events = append(r.events, "new")
			r.hook(c)
		}
		s.LogEvent = func(c *rtmp.Conn, nc net.Conn, e int) {
			r.events = append(r.events, rtmp.EventString[e])
			check(nc, "LogEvent")
			if c != conn {
				r.bad("LogEvent: not the connection of OnNewConn")
			}
		}
		s.HandleConn = func(c *rtmp.Conn, nc net.Conn) {
			r.events = append(r.events, "handle")
			check(nc, "HandleConn")
			if c != conn {
				r.bad("HandleConn: not the connection of OnNewConn")
			}
			if c.Publishing != r.pub {
				r.bad("Publishing %v", c.Publishing)
			}
			r.lib(c)
			nc.Close()
		}
		if r.wrap {
			s.ReplaceRawConn = replace
		}
		d = gen.Go(func() { s.HandleNetConn(b) })
	} else {
		under = a
		r.w = &wire{Conn: b}
		p = ref.NewPeer(r.w)
		cl := rtmp.NewClient()
		cl.NewDialFunc = func() func(ctx context.Context, network, address string) (net.Conn, error) {
			return func(ctx context.Context, network, address string) (net.Conn, error) {
				r.events = append(r.events, "dial "+network+" "+address)
				return a, nil
			}
		}
		if r.wrap {
			cl.ReplaceRawConn = replace
		}
		cl.LogEvent = func(c *rtmp.Conn, nc net.Conn, e int) {
			r.events = append(r.events, rtmp.EventString[e])
			check(nc, "LogEvent")
		}
		fl := rtmp.PrepareReading
		if r.pub {
			fl = rtmp.PrepareWriting
		}
		d = gen.Go(func() {
			var c *rtmp.Conn
			var nc net.Conn
			if c, nc, r.lerr = cl.Dial("rtmp://host/app/stream", fl); r.lerr != nil {
				a.Close()
				return
			}
			check(nc, "the caller of Dial")
			r.late = true
			r.hook(c)
			r.lib(c)
			nc.Close()
		})
	}
	r.perr = func() (err error) {
		defer r.w.Close()
		if r.server {
			if _, _, err = p.ClientHandshake(make([]byte, 1536), false); err != nil {
				return
			}
			if err = p.ClientSession("app", "rtmp://host/app", "stream", r.pub); err != nil {
				return
			}
		} else {
			if _, _, err = p.ServerHandshake(make([]byte, 1536), false); err != nil {
				return
			}
			if _, _, _, _, err = p.ServerSession(); err != nil {
				return
			}
			if err = p.Cmd(5, 1, "onStatus", 0.0, nil, ref.Status("status", "NetStream.Start")); err != nil {
				return
			}
		}
		r.w.mu.Lock()
		r.feedAt = len(r.w.sent)
		r.w.mu.Unlock()
		if err = r.peer(p); err != nil {
			return
		}
		r.w.CloseWrite()
		_, err = io.Copy(io.Discard, r.w)
		return
	}()
	if s := d.Ended(wait); s != "" {
		return s
	}
	if r.problem != "" {
		return r.problem
	}
	if r.perr != nil || r.lerr != nil {
		return fmt.Sprintf("session: peer %v, library %v", r.perr, r.lerr)
	}
	want := []string{"dial tcp host:1935"}
	if r.server {
		want = nil
	}
	if r.wrap {
		want = append(want, "replace")
	}
	if r.server {
		want = append(want, "new", "Connected", "handle")
	}
	if !reflect.DeepEqual(r.events, want) {
		return fmt.Sprintf("events %q, want %q", r.events, want)
	}
	if r.wrap {
		// (what a bufio.Reader took and nobody read was carried too)
		if !bytes.Equal(r.ov.sent, r.w.got) {
			return fmt.Sprintf("%d bytes written through the replaced connection, %d came", len(r.ov.sent), len(r.w.got))
		}
		if !bytes.HasPrefix(r.w.sent, r.ov.got) {
			return fmt.Sprintf("%d bytes read through the replaced connection are not those sent", len(r.ov.got))
		}
		if !r.ov.closed {
			return "closed without the replaced connection"
		}
	}
	return ""
}

// seen is what the hooks of a connection were called with.
type seen struct {
	in, out  []byte
	tin      []flvio.Tag
	tout     []flvio.Tag
	events   []ref.Msg
	stages   []string
	answer   func(i int) (bool, error)
	disorder string
}

func clone(t flvio.Tag) flvio.Tag {
	t.Data = append([]byte{}, t.Data...)
	return t
}

func (s *seen) hook(c *rtmp.Conn) {
	c.LogChunkDataEvent = func(isRead bool, b []byte) {
		if isRead {
			s.in = append(s.in, b...)
		} else {
			s.out = append(s.out, b...)
		}
	}
	c.LogTagEvent = func(isRead bool, t flvio.Tag) {
		if isRead {
			s.tin = append(s.tin, clone(t))
		} else {
			s.tout = append(s.tout, clone(t))
		}
	}
	c.LogStageEvent = func(e string, url string) { s.stages = append(s.stages, e) }
	c.HandleEvent = func(id uint8, data []byte) (bool, error) {
		i := len(s.events)
		s.events = append(s.events, ref.Msg{Type: id, Data: append([]byte{}, data...)})
		if s.answer == nil {
			return false, nil
		}
		return s.answer(i)
	}
}

// wireData compares what the data hook saw with what went over the wire.
func (s *seen) wireData(r *run, readAll bool) string {
	in, out := r.w.sent[handshake:], r.w.got[handshake:]
	if !r.late {
		if readAll && !bytes.Equal(s.in, in) || !bytes.HasPrefix(in, s.in) {
			return fmt.Sprintf("LogChunkDataEvent saw %d bytes read (first difference at %d), the peer sent %d", len(s.in), diff(s.in, in), len(in))
		}
		if !bytes.Equal(s.out, out) {
			return fmt.Sprintf("LogChunkDataEvent saw %d bytes written (first difference at %d), the peer got %d", len(s.out), diff(s.out, out), len(out))
		}
		return ""
	}
	if readAll && !bytes.HasSuffix(in, s.in) || !bytes.Contains(in, s.in) {
		return fmt.Sprintf("LogChunkDataEvent saw %d bytes read that the peer did not send so", len(s.in))
	}
	if !bytes.HasSuffix(out, s.out) {
		return fmt.Sprintf("LogChunkDataEvent saw %d bytes written that are not the last ones the peer got", len(s.out))
	}
	if n := len(r.w.sent) - r.feedAt; readAll && len(s.in) < n {
		return fmt.Sprintf("LogChunkDataEvent saw %d bytes read, the peer sent %d after the set-up", len(s.in), n)
	}
	n := 0
	for _, t := range s.tout {
		n += len(t.Data)
	}
	if len(s.out) < n {
		return fmt.Sprintf("LogChunkDataEvent saw %d bytes written, for tags of %d", len(s.out), n)
	}
	return ""
}

func diff(a, b []byte) int {
	for i := range a {
		if i >= len(b) || a[i] != b[i] {
			return i
		}
	}
	return len(a)
}

// one is a message of the peer: what it means to a reader of tags.
type one struct {
	m    ref.Msg
	kind string // media, event, control, other
	tag  *flvio.Tag
}

var unknown = []byte{0, 3, 6, 7, 10, 14, 16, 19, 21, 23, 99, 128, 255}

// drawCSID picks from few chunk streams, of all header lengths.
func drawCSID(t *vt.T) uint32 {
	return vt.Pick(t, "csid", uint32(4), 4, 63, 64, 319, 320, 575, 65599)
}

func drawOne(t *vt.T, client bool) (o one) {
	o.m = ref.Msg{CSID: drawCSID(t), Stream: 1, Time: gen.Ms32(t, "time")}
	switch t.Int(0, 9, "kind") {
	case 0, 1, 2, 3:
		tag, want := gen.RefTag(t, false, "tag")
		o.m.Type, o.m.Data = tag.Type, tag.Body
		switch {
		case (tag.Type == 8 || tag.Type == 9) && want == nil:
			o.m.Type = 16
			o.kind = "other"
		case tag.Type == 8:
			o.kind = "media"
			o.tag = &flvio.Tag{Type: 8, Data: tag.Body[2:]}
		case tag.Type == 9:
			o.kind = "media"
			o.tag = &flvio.Tag{Type: 9, Data: tag.Body[5:]}
		case tag.Type == 18 || tag.Type == 15:
			o.kind = "media"
			o.tag = &flvio.Tag{Type: tag.Type, Data: tag.Body}
		default:
			o.m.Type = 16
			o.kind = "other"
		}
	case 4, 5, 6:
		o.kind = "other"
		o.m.Type = vt.Pick(t, "type", unknown...)
		o.m.Data = t.RawBytes(200, "data")
		if o.m.Type == 3 || o.m.Type == 6 {
			o.m.CSID, o.m.Stream, o.m.Time = 2, 0, 0
			o.m.Data = append(binary.BigEndian.AppendUint32(nil, t.U32("v")), 2)
		}
	case 7:
		o.kind = "other"
		o.m.CSID, o.m.Stream = 3, 0
		o.m.Type = 20
		o.m.Data = ref.AMF0Msg(vt.Pick(t, "cmd", "onBWDone", "ping", "onFCPublish"), 0.0, nil)
	case 8:
		o.kind = "control"
		o.m.CSID, o.m.Stream, o.m.Time = 2, 0, 0
		o.m.Type = 1
		o.m.Data = binary.BigEndian.AppendUint32(nil, vt.Pick(t, "size", uint32(1), 100, 128, 4096, 65536))
	default:
		o.kind = "control"
		o.m.CSID, o.m.Stream, o.m.Time = 2, 0, 0
		o.m.Type = vt.Pick(t, "ctl", byte(4), 5)
		if o.m.Type == 4 {
			o.m.Data = binary.BigEndian.AppendUint16(nil, vt.Pick(t, "ev", uint16(0), 1, 3, 4, 6, 6, 7, 31))
			o.m.Data = binary.BigEndian.AppendUint32(o.m.Data, t.U32("v"))
		} else {
			o.m.Data = binary.BigEndian.AppendUint32(nil, vt.Pick(t, "was", uint32(1000), 5000, 2500000))
		}
	}
	return
}

func sameTag(a, b flvio.Tag) bool {
	return a.Type == b.Type && a.Time == b.Time && bytes.Equal(a.Data, b.Data)
}

var errMine = errors.New("the handler's error")

// What reading endpoints tell their hooks and the tags they deliver.
func TestReading(t *testing.T) {
	vt.Check(t, 3000, 60000, func(t *vt.T) {
		s := &seen{}
		r := &run{server: t.Bool("server"), frags: t.Frags("frag"), wrap: t.Bool("wrap")}
		r.pub = r.server
		var msgs []one
		for n := t.Int(1, 10, "n"); n > 0; n-- {
			msgs = append(msgs, drawOne(t, !r.server))
		}
		// aggregate some neighbours
		group := make([]int, len(msgs)) // number of messages from here in one aggregate
		for i := 0; i < len(msgs); i++ {
			if k := t.Int(0, 6, "agg"); k >= 4 {
				j := i
				for j < len(msgs) && j-i < k-3 && msgs[j].kind == "media" {
					j++
				}
				if j > i {
					group[i] = j - i
					i = j - 1
				}
			}
		}
		var bypass []uint8
		if t.Bool("bypass") {
			for _, id := range []uint8{0, 3, 7, 8, 9, 10, 15, 16, 18, 19, 20, 99, 255} {
				if t.OneIn(3, "by") {
					bypass = append(bypass, id)
				}
			}
		}
		handle := make([]bool, len(msgs)+1)
		for i := range handle {
			handle[i] = t.OneIn(3, "handled")
		}
		fail := -1
		if t.OneIn(3, "fails") {
			fail = t.Int(0, len(msgs), "failat")
		}
		first := 0 // commands of the set-up that the hook sees
		if r.server {
			first = 3
		}
		s.answer = func(i int) (bool, error) {
			if i -= first; i < 0 || i >= len(handle) {
				return false, nil
			}
			if i == fail {
				return handle[i], errMine
			}
			return handle[i], nil
		}
		r.hook = s.hook
		var tags []flvio.Tag
		var end error
		r.lib = func(c *rtmp.Conn) {
			c.BypassMsgtypeid = bypass
			for {
				tag, err := c.ReadTag()
				if err != nil {
					end = err
					return
				}
				tags = append(tags, clone(tag))
			}
		}
		r.peer = func(p *ref.Peer) error {
			for i := 0; i < len(msgs); i++ {
				if k := group[i]; k > 0 {
					m := ref.Msg{CSID: msgs[i].m.CSID, Type: 22, Stream: 1, Time: msgs[i].m.Time}
					for _, x := range msgs[i : i+k] {
						m.Data = ref.AppendFLVTag(m.Data, ref.FLVTag{Type: x.m.Type, Time: x.m.Time, Body: x.m.Data})
					}
					if err := p.Send(m); err != nil {
						return err
					}
					i += k - 1
					continue
				}
				m := msgs[i].m
				if err := p.Send(m); err != nil {
					return err
				}
				if m.Type == 1 {
					p.Enc.Size = int(binary.BigEndian.Uint32(m.Data))
				}
			}
			return nil
		}
		desc := func() string {
			d := fmt.Sprintf("server %v wrap %v bypass %v handled %v fail %d:", r.server, r.wrap, bypass, handle, fail)
			for i, m := range msgs {
				if group[i] > 0 {
					d += fmt.Sprintf(" agg(%d)", group[i])
				}
				d += fmt.Sprintf(" %v", m.m)
			}
			return d
		}
		if bad := r.do(); bad != "" {
			t.Fatalf("%s\n%s", bad, desc())
		}
		// the model
		var wev []ref.Msg
		var wtags []flvio.Tag
		failed := false
		for _, x := range msgs {
			handled := false
			if x.m.Type != 1 && x.m.Type != 4 && x.m.Type != 5 {
				i := len(wev)
				wev = append(wev, x.m)
				if i == fail {
					failed = true
					break
				}
				handled = handle[i]
			}
			if handled || x.kind == "control" {
				continue
			}
			raw := bytes.IndexByte(bypass, x.m.Type) >= 0
			switch {
			case raw:
				wtags = append(wtags, flvio.Tag{Type: x.m.Type, Time: x.m.Time, Data: x.m.Data})
			case x.tag != nil:
				w := *x.tag
				w.Time = x.m.Time
				wtags = append(wtags, w)
			}
		}
		if failed && end != errMine {
			t.Fatalf("the handler's error became %v\n%s", end, desc())
		}
		if !failed && end != io.EOF && end != io.ErrUnexpectedEOF {
			t.Fatalf("reading ended with %v\n%s", end, desc())
		}
		if len(s.events) < first {
			t.Fatalf("HandleEvent did not see the commands\n%s", desc())
		}
		for _, e := range s.events[:first] {
			if e.Type != 20 {
				t.Fatalf("HandleEvent saw type %d before the commands\n%s", e.Type, desc())
			}
		}
		ev := s.events[first:]
		for i := range ev {
			if i >= len(wev) || ev[i].Type != wev[i].Type || !bytes.Equal(ev[i].Data, wev[i].Data) {
				t.Fatalf("HandleEvent call %d: type %d, %d bytes\n%s", i, ev[i].Type, len(ev[i].Data), desc())
			}
		}
		if len(ev) != len(wev) {
			t.Fatalf("HandleEvent saw %d messages, want %d\n%s", len(ev), len(wev), desc())
		}
		if len(tags) != len(wtags) || len(s.tin) != len(tags) || len(s.tout) != 0 {
			t.Fatalf("%d tags delivered, %d reported, %d as written, want %d\n%s", len(tags), len(s.tin), len(s.tout), len(wtags), desc())
		}
		for i := range tags {
			if !sameTag(tags[i], wtags[i]) {
				t.Fatalf("tag %d: type %d time %d, %d bytes\n%s", i, tags[i].Type, tags[i].Time, len(tags[i].Data), desc())
			}
			if !reflect.DeepEqual(tags[i], s.tin[i]) {
				t.Fatalf("tag %d: LogTagEvent was given another one\n%s", i, desc())
			}
		}
		if bad := s.wireData(r, !failed); bad != "" {
			t.Fatalf("%s\n%s", bad, desc())
		}
		if len(wev) > 1 {
			t.Nontrivial(desc())
			t.Sample("%s", desc())
		}
		t.LabelIf(failed, "handler failed")
		t.LabelIf(len(wtags) > 0, "tags")
	})
}

// Hooks that only observe change nothing.
func TestSameWithout(t *testing.T) {
	vt.Check(t, 1500, 30000, func(t *vt.T) {
		server, frags := t.Bool("server"), t.Frags("frag")
		var msgs []one
		for n := t.Int(1, 8, "n"); n > 0; n-- {
			msgs = append(msgs, drawOne(t, !server))
		}
		play := func(hooked bool) (ps []av.Packet, s *seen) {
			s = &seen{}
			r := &run{server: server, pub: server, frags: frags, wrap: hooked}
			r.hook = func(c *rtmp.Conn) {
				if hooked {
					s.hook(c)
				}
			}
			sink := &gen.Sink{}
			r.lib = func(c *rtmp.Conn) { sink.ReadAll(c) }
			r.peer = func(p *ref.Peer) error {
				for _, m := range msgs {
					if err := p.Send(m.m); err != nil {
						return err
					}
					if m.m.Type == 1 {
						p.Enc.Size = int(binary.BigEndian.Uint32(m.m.Data))
					}
				}
				return nil
			}
			if bad := r.do(); bad != "" {
				t.Fatalf("hooks %v: %s\n%v", hooked, bad, msgs)
			}
			if sink.Err != io.EOF && sink.Err != io.ErrUnexpectedEOF {
				t.Fatalf("hooks %v: reading ended with %v\n%v", hooked, sink.Err, msgs)
			}
			if hooked {
				if bad := s.wireData(r, true); bad != "" {
					t.Fatalf("%s\n%v", bad, msgs)
				}
			}
			return sink.Pkts, s
		}
		without, _ := play(false)
		with, s := play(true)
		if !reflect.DeepEqual(with, without) {
			t.Fatalf("%d packets with hooks, %d without, or different ones\n%v", len(with), len(without), msgs)
		}
		tags := 0
		for _, m := range msgs {
			if m.tag != nil {
				tags++
			}
		}
		if len(s.tin) != tags {
			t.Fatalf("LogTagEvent saw %d tags, want %d\n%v", len(s.tin), tags, msgs)
		}
		if len(with) > 0 {
			t.Nontrivial(fmt.Sprint(msgs))
		}
	})
}

// What writing endpoints tell their hooks.
func TestWriting(t *testing.T) {
	vt.Check(t, 2000, 40000, func(t *vt.T) {
		s := &seen{}
		r := &run{server: t.Bool("server"), frags: t.Frags("frag"), wrap: t.Bool("wrap")}
		r.pub = !r.server
		ps := gen.Packets(t, gen.PktOpts{MaxPkts: 8}, "p")
		r.hook = s.hook
		var werr error
		r.lib = func(c *rtmp.Conn) {
			for _, p := range ps {
				if werr = c.WritePacket(p.P); werr != nil {
					return
				}
			}
			if len(ps) == 0 {
				werr = c.Prepare(rtmp.StageDataStart, rtmp.PrepareWriting)
			}
		}
		var media []ref.Msg
		r.peer = func(p *ref.Peer) error {
			for len(media) < len(ps) {
				m, err := p.Next()
				if err != nil {
					return err
				}
				if m.Type == 8 || m.Type == 9 {
					media = append(media, m)
				}
				if m.Type == 18 {
					vs, _ := ref.ParseAMF0All(m.Data)
					if len(vs) > 0 && vs[0] == interface{}("|RtmpSampleAccess") {
						continue
					}
					media = append(media, m)
				}
			}
			return nil
		}
		desc := func() string {
			return fmt.Sprintf("server %v wrap %v: %s", r.server, r.wrap, gen.ShowPkts(ps))
		}
		if bad := r.do(); bad != "" {
			t.Fatalf("%s\n%s", bad, desc())
		}
		if werr != nil {
			t.Fatalf("writing: %v\n%s", werr, desc())
		}
		if len(s.tout) != len(ps) || len(s.tin) != 0 {
			t.Fatalf("LogTagEvent saw %d tags written, %d read, for %d packets\n%s", len(s.tout), len(s.tin), len(ps), desc())
		}
		for i, tag := range s.tout {
			hdr := make([]byte, 256)
			body := append(hdr[:tag.FillHeader(hdr)], tag.Data...)
			if m := media[i]; m.Type != tag.Type || m.Time != tag.Time || !bytes.Equal(m.Data, body) {
				t.Fatalf("tag %d: LogTagEvent saw type %d time %d, %d bytes; %v was sent\n%s", i, tag.Type, tag.Time, len(body), m, desc())
			}
			if bad := gen.TagMatches(ps[i], ref.FLVTag{Type: media[i].Type, Time: media[i].Time, Body: media[i].Data}, r.pub); bad != "" {
				t.Fatalf("packet %d: %s\n%s", i, bad, desc())
			}
		}
		if bad := s.wireData(r, false); bad != "" {
			t.Fatalf("%s\n%s", bad, desc())
		}
		if len(ps) > 1 {
			t.Nontrivial(r.server, gen.PktKey(ps))
			t.Sample("%s", desc())
		}
	})
}

// Set-ups that fail.
func TestFailedSetup(t *testing.T) {
	vt.Check(t, 1500, 30000, func(t *vt.T) {
		server, wrap := t.Bool("server"), t.Bool("wrap")
		cut := t.Int(0, 3*1536+300, "cut")
		a, b := vt.NewPipe(nil, t.Frags("frag"))
		var events []string
		var ov *over
		bad := ""
		var conn *rtmp.Conn
		replace := func(nc net.Conn) net.Conn {
			events = append(events, "replace")
			ov = &over{Conn: nc}
			return ov
		}
		log := func(c *rtmp.Conn, nc net.Conn, e int) {
			events = append(events, rtmp.EventString[e])
			if wrap && nc != net.Conn(ov) || !wrap && nc != net.Conn(b) || conn != nil && c != conn {
				bad = "LogEvent: not this connection"
			}
		}
		a.LimitWrite(int64(cut))
		w := &wire{Conn: a}
		pd := gen.Go(func() {
			p := ref.NewPeer(w)
			defer w.Close()
			if server {
				if _, _, err := p.ClientHandshake(make([]byte, 1536), false); err == nil {
					if p.Cmd(3, 0, "connect", 1.0, &ref.Obj{KVs: []ref.KV{{K: "app", V: "app"}, {K: "tcUrl", V: "rtmp://host/app"}}}) == nil {
						p.WaitCmd("_result")
					}
				}
				return
			}
			if _, _, err := p.ServerHandshake(make([]byte, 1536), false); err == nil {
				if _, _, err := p.WaitCmd("connect"); err == nil {
					p.Cmd(3, 0, "_result", 1.0, &ref.Obj{}, ref.Status("status", "NetConnection.Connect.Success"))
				}
			}
		})
		var err error
		d := gen.Go(func() {
			if server {
				s := rtmp.NewServer()
				s.OnNewConn = func(c *rtmp.Conn) { conn = c; events = append(events, "new") }
				s.LogEvent = log
				s.HandleConn = func(*rtmp.Conn, net.Conn) { events = append(events, "handle") }
				if wrap {
					s.ReplaceRawConn = replace
				}
				s.HandleNetConn(b)
				return
			}
			cl := rtmp.NewClient()
			cl.LogEvent = log
			cl.NewDialFunc = func() func(ctx context.Context, network, address string) (net.Conn, error) {
				return func(ctx context.Context, network, address string) (net.Conn, error) { return b, nil }
			}
			if wrap {
				cl.ReplaceRawConn = replace
			}
			_, _, err = cl.Dial("rtmp://host/app/stream", rtmp.PrepareReading)
		})
		desc := fmt.Sprintf("server %v wrap %v, %d bytes of the peer", server, wrap, cut)
		if s := d.Ended(wait); s != "" {
			t.Fatalf("%s: %s", desc, s)
		}
		if s := pd.Ended(wait); s != "" { // (ends when the library closes)
			t.Fatalf("%s: not closed: %s", desc, s)
		}
		var want []string
		if wrap {
			want = append(want, "replace")
		}
		if server {
			want = append(want, "new", "Connected")
		}
		want = append(want, "HandshakeFailed")
		if bad != "" || !reflect.DeepEqual(events, want) {
			t.Fatalf("%s: %s: events %q, want %q", desc, bad, events, want)
		}
		if !server && err == nil {
			t.Fatalf("%s: no error", desc)
		}
		if wrap && (!ov.closed || !bytes.HasPrefix(ov.sent, w.got) || !bytes.HasPrefix(w.sent, ov.got)) {
			t.Fatalf("%s: closed %v, or not all bytes went through the replaced connection", desc, ov.closed)
		}
		t.Nontrivial(desc)
	})
}
