package c33

import (
	"bytes"
	"fmt"
	"io"
	"net"
	"net/url"
	"os"
	"path/filepath"
	"sync"
	"testing"
	"time"
	"unsafe"

	"github.com/nareix/joy5/av"
	"github.com/nareix/joy5/codec/aac"
	"github.com/nareix/joy5/codec/h264"
	"github.com/nareix/joy5/format"
	"github.com/nareix/joy5/format/flv"
	"github.com/nareix/joy5/format/flv/flvio"
	"github.com/nareix/joy5/format/mp4"
	"github.com/nareix/joy5/format/rtmp"
	"github.com/nareix/joy5/format/rtsp"
	"github.com/nareix/joy5/format/rtsp/sdp"

	"joyverif/gen"
	"joyverif/ref"
	"joyverif/vt"
)

func TestMain(m *testing.M) { vt.Main(m) }

const wait = 120 * time.Second

// hub lets sessions with one server object and one client object meet.
type hub struct {
	srv    *rtmp.Server
	cli    *rtmp.Client
	open   *format.URLOpener
	handle sync.Map // path -> func(*rtmp.Conn)
	dir    string
}

func newHub() *hub {
	h := &hub{srv: rtmp.NewServer(), cli: rtmp.NewClient(), open: &format.URLOpener{}}
	h.srv.HandleConn = func(c *rtmp.Conn, nc net.Conn) {
		if f, ok := h.handle.Load(c.URL.Path); ok {
			f.(func(*rtmp.Conn, net.Conn))(c, nc)
		}
		nc.Close()
	}
	return h
}

// session writes the packets from one end of a session to the other.
func (h *hub) session(path string, publish bool, ps []gen.Pkt, af, bf []int) (string, []av.Packet) {
	a, b := vt.NewPipe(af, bf)
	sink := &gen.Sink{}
	var werr error
	write := func(w av.PacketWriter, nc net.Conn) {
		for _, p := range ps {
			if werr = w.WritePacket(p.P); werr != nil {
				break
			}
		}
		nc.Close()
	}
	bad := "the handler was not called"
	h.handle.Store(path, func(c *rtmp.Conn, nc net.Conn) {
		bad = ""
		switch {
		case c.Publishing != publish:
			bad = "wrong role"
		case publish:
			sink.ReadAll(c)
		default:
			write(c, nc)
		}
	})
	defer h.handle.Delete(path)
	d := gen.Go(func() { h.srv.HandleNetConn(b) })
	u, _ := url.Parse("rtmp://host" + path)
	fl := rtmp.PrepareReading
	if publish {
		fl = rtmp.PrepareWriting
	}
	c, err := h.cli.FromNetConn(a, u, fl)
	if err == nil {
		if publish {
			write(c, a)
		} else {
			sink.ReadAll(c)
		}
	}
	a.Close()
	if s := d.Ended(wait); s != "" {
		return "server: " + s, nil
	}
	if err != nil && len(ps) > 0 {
		return fmt.Sprintf("connect: %v", err), nil
	}
	if werr != nil {
		return fmt.Sprintf("write: %v", werr), nil
	}
	if err == nil && bad != "" {
		return bad, nil
	}
	return "", sink.Pkts
}

func samePkts(want []gen.Pkt, got []av.Packet) string {
	if len(want) != len(got) {
		return fmt.Sprintf("%d packets written, %d read", len(want), len(got))
	}
	for i := range want {
		if s := gen.SamePkt(want[i], got[i]); s != "" {
			return fmt.Sprintf("packet %d: %s", i, s)
		}
	}
	return ""
}

// job is one independent piece of work; it tells what went wrong.
type job struct {
	kind string
	run  func() string
}

type recording struct {
	conf []av.Packet
	pkts []av.Packet
}

func drawRecording(t *vt.T, l string) (r recording) {
	v, _, _ := gen.AVCConfig(t, l+"v")
	r.conf = []av.Packet{{Type: av.H264DecoderConfig, Data: v}, {Type: av.AACDecoderConfig, Data: gen.AACConfig(t, l+"a")}}
	n := t.Int(1, 20, l+"n")
	for i := 0; i < n; i++ {
		p := av.Packet{Type: av.H264, Time: time.Duration(i) * 40 * time.Millisecond, Data: t.Payload(t.Int(1, 600, l+"size"), l+"data")}
		if t.Bool(l + "audio") {
			p.Type = av.AAC
		} else {
			p.IsKeyFrame = t.Bool(l + "key")
			p.CTime = time.Duration(t.Int(0, 3, l+"ct")) * 40 * time.Millisecond
		}
		r.pkts = append(r.pkts, p)
	}
	return
}

func (r recording) write() (b []byte, err error) {
	f := &gen.MemFile{Limit: -1}
	m, err := mp4.NewMuxer(f)
	if err != nil {
		return nil, err
	}
	for _, p := range append(append([]av.Packet{}, r.conf...), r.pkts...) {
		if err = m.WritePacket(p); err != nil {
			return nil, err
		}
	}
	err = m.WriteTrailer()
	return f.B, err
}

func (r recording) compare(file []byte) string {
	d := mp4.NewDemuxer(bytes.NewReader(file))
	ss, err := d.Streams()
	if err != nil {
		return "streams: " + err.Error()
	}
	for _, s := range ss {
		switch c := s.(type) {
		case *h264.Codec:
			if !bytes.Equal(c.ConfigBytes, r.conf[0].Data) {
				return "video configuration differs"
			}
		case *aac.Codec:
			if !bytes.Equal(c.ConfigBytes, r.conf[1].Data) {
				return "audio configuration differs"
			}
		}
	}
	got, err := gen.ReadAll(d, len(r.pkts))
	if err != io.EOF {
		return fmt.Sprintf("read: %v", err)
	}
	for _, typ := range []int{av.H264, av.AAC} {
		var a, b []av.Packet
		for _, p := range r.pkts {
			if p.Type == typ {
				a = append(a, p)
			}
		}
		for _, p := range got {
			if p.Type == typ {
				b = append(b, p)
			}
		}
		if len(a) != len(b) {
			return fmt.Sprintf("%d packets of type %d written, %d read", len(a), typ, len(b))
		}
		for i := range a {
			if !bytes.Equal(a[i].Data, b[i].Data) || typ == av.H264 && a[i].IsKeyFrame != b[i].IsKeyFrame {
				return fmt.Sprintf("packet %d of type %d differs", i, typ)
			}
		}
	}
	return ""
}

// playRTSP reads a session; each runs on its own listener.
func playRTSP(x *gen.RTSPSession, cuts []int, pause []bool, each func(p *av.Packet)) string {
	var fail string
	var got [2][]gen.RTSPUnit
	bad, serr := gen.RTSPCase(0, func(c *ref.RTSPConn) error { return gen.ServeRTSP(c, x, cuts, pause) }, func(addr string) {
		cli, err := rtsp.Dial(gen.RTSPURI(addr, "/live"))
		if err != nil {
			fail = "dial: " + err.Error()
			return
		}
		defer cli.Close()
		for {
			p, err := cli.ReadPacket()
			if err != nil {
				return
			}
			w := 0
			if p.Type == av.AAC {
				w = 1
			}
			got[w] = append(got[w], gen.RTSPUnit{Data: append([]byte{}, p.Data...), Key: p.IsKeyFrame})
			if each != nil {
				each(&p)
			}
		}
	})
	switch {
	case bad != "":
		return bad
	case serr != nil:
		return serr.Error()
	case fail != "":
		return fail
	}
	for _, s := range x.Streams {
		w := 1
		if s.Video {
			w = 0
		}
		if len(s.Want) != len(got[w]) {
			return fmt.Sprintf("%d packets of a stream, want %d; %s", len(got[w]), len(s.Want), x.Show())
		}
		for i, u := range s.Want {
			if !bytes.Equal(u.Data, got[w][i].Data) || u.Key != got[w][i].Key {
				return fmt.Sprintf("packet %d of a stream differs: %s, want %s; %s", i, gen.Hex(got[w][i].Data), gen.Hex(u.Data), x.Show())
			}
		}
	}
	return ""
}

func again(kind string, f func() string) job {
	want := f()
	return job{kind, func() string {
		if got := f(); got != want {
			return fmt.Sprintf("%.300s, alone %.300s", got, want)
		}
		return ""
	}}
}

func (h *hub) draw(t *vt.T, i int, kind string) job {
	l := fmt.Sprintf("j%d", i)
	big := t.OneIn(4, l+"big")
	switch kind {
	case "flv":
		ps := gen.Packets(t, gen.PktOpts{Big: big}, l)
		fr := t.Frags(l)
		pub := t.Bool(l + "pub")
		return job{kind, func() string {
			var b bytes.Buffer
			if err := gen.MuxFLV(&b, ps, true, true, pub, false); err != nil {
				return err.Error()
			}
			if len(ps) == 0 {
				return ""
			}
			got, err := gen.ReadAll(flv.NewDemuxer(&vt.FragReader{B: b.Bytes(), Frags: fr}), len(ps))
			if err != io.EOF {
				return fmt.Sprintf("read: %v", err)
			}
			return samePkts(ps, got)
		}}
	case "mp4":
		r := drawRecording(t, l)
		return job{kind, func() string {
			b, err := r.write()
			if err != nil {
				return err.Error()
			}
			return r.compare(b)
		}}
	case "rtmp":
		ps := gen.Packets(t, gen.PktOpts{Big: big}, l)
		pub := t.Bool(l + "publish")
		af, bf := t.Frags(l+"af"), t.Frags(l+"bf")
		n := 0
		return job{kind, func() string {
			n++
			s, got := h.session(fmt.Sprintf("/app/s%d-%d", i, n), pub, ps, af, bf)
			if s == "" {
				s = samePkts(ps, got)
			}
			return s
		}}
	case "rtsp":
		x := gen.DrawRTSP(t, gen.RTSPOpts{})
		cuts, pause := gen.Deliveries(t, len(x.Wire)+60, x.Borders, l+"net")
		return job{kind, func() string { return playRTSP(x, cuts, pause, nil) }}
	case "file":
		ps := gen.Packets(t, gen.PktOpts{Big: big}, l)
		path := filepath.Join(h.dir, fmt.Sprintf("f%d.flv", i))
		return job{kind, func() string {
			w, err := h.open.Create("file://"+path, nil)
			if err != nil {
				return err.Error()
			}
			for _, p := range ps {
				if err := w.WritePacket(p.P); err != nil {
					return err.Error()
				}
			}
			if err := w.Close(); err != nil {
				return err.Error()
			}
			if len(ps) == 0 {
				return ""
			}
			r, err := h.open.Open("file://" + path)
			if err != nil {
				return err.Error()
			}
			got, err := gen.ReadAll(r, len(ps))
			r.Close()
			if err != io.EOF {
				return fmt.Sprintf("read: %v", err)
			}
			return samePkts(ps, got)
		}}
	case "amf":
		v := gen.AMF0(t, 3, l)
		lib := gen.ToLib(v)
		raw := ref.AMF3(nil, gen.AMF3(t, 3, true, l+"3"))
		return again(kind, func() string {
			b := flvio.FillAMF0ValsMalloc([]interface{}{lib, "x", 1.0})
			arr, err := flvio.ParseAMFVals(b, false)
			s := fmt.Sprintf("%x %v %d", b, err, len(arr))
			if err == nil {
				s += gen.Same(gen.Normal(v), arr[0])
			}
			arr, err = flvio.ParseAMFVals(append([]byte{0}, raw...), true)
			return s + fmt.Sprintf(" %v %v", arr, err)
		})
	case "codec":
		sps := gen.SPS(t, l).NAL()
		rec, _, _ := gen.AVCConfig(t, l+"r")
		conf := gen.AACConfig(t, l+"a")
		var nals [][]byte
		for k, n := 0, t.Int(1, 5, l+"nals"); k < n; k++ {
			nals = append(nals, gen.NALU(t, 60, l+"nal"))
		}
		return again(kind, func() string {
			si, err := h264.ParseSPS(sps)
			s := fmt.Sprintf("%+v %v", si, err)
			if c, err := h264.FromDecoderConfig(rec); err == nil {
				c.AddSPSPPS(sps)
				c.ToConfig()
				s += fmt.Sprintf("%x %d %d", c.ConfigBytes, c.W, c.H)
			}
			x := h264.JoinNALUsAnnexb(nals)
			y := h264.JoinNALUsAVCC(nals)
			p, pt := h264.SplitNALUs(x)
			q, qt := h264.SplitNALUs(y)
			s += fmt.Sprintf(" %x %d %x %d", p, pt, q, qt)
			c, err := aac.ParseMPEG4AudioConfigBytes(conf)
			s += fmt.Sprintf(" %+v %v", c, err)
			var w bytes.Buffer
			aac.WriteMPEG4AudioConfig(&w, c)
			var h [aac.ADTSHeaderLength]byte
			aac.FillADTSHeader(h[:], c, 1024, 100)
			return s + fmt.Sprintf(" %x %x", w.Bytes(), h)
		})
	case "sdp":
		_, _, text := gen.DrawSDP(t, 4, l)
		return again(kind, func() string {
			s, m := sdp.Parse(text)
			return fmt.Sprintf("%+v %+v", s, m)
		})
	default: // box
		name := vt.Pick(t, l+"box", gen.BoxNames()...)
		a := gen.Box(t, name, l)
		return again(kind, func() string {
			b := make([]byte, a.Len())
			n := a.Marshal(b)
			c := gen.NewBox(name)
			if n != len(b) {
				return fmt.Sprintf("%d of %d bytes", n, len(b))
			}
			m, err := c.Unmarshal(b, 0)
			d := make([]byte, c.Len())
			c.Marshal(d)
			return fmt.Sprintf("%x %d %v %x", b, m, err, d)
		})
	}
}

// TestConcurrent runs independent jobs at the same time: each gives what it
// gives alone, and (in the race-detecting build) no memory is shared.
func TestConcurrent(t *testing.T) {
	vt.Check(t, 240, 6000, func(t *vt.T) {
		h := newHub()
		dir, err := os.MkdirTemp(os.Getenv("VT_SCRATCH"), "c33")
		if err != nil {
			vt.Infra("%v", err)
		}
		h.dir = dir
		defer os.RemoveAll(dir)
		n := t.Int(2, 6, "jobs")
		same := t.OneIn(3, "same")
		kinds := []string{"flv", "mp4", "rtmp", "rtmp", "rtsp", "file", "amf", "codec", "sdp", "box"}
		first := ""
		var jobs []job
		var names []string
		for i := 0; i < n; i++ {
			k := vt.Pick(t, "kind", kinds...)
			if same && i > 0 {
				k = first
			}
			first = k
			jobs = append(jobs, h.draw(t, i, k))
			names = append(names, k)
		}
		rounds := t.Int(1, 3, "rounds")
		errs := make([]string, n)
		start := make(chan struct{})
		var ds []*gen.Done
		for i := range jobs {
			ds = append(ds, gen.Go(func() {
				<-start
				for r := 0; r < rounds && errs[i] == ""; r++ {
					errs[i] = jobs[i].run()
				}
			}))
		}
		close(start)
		for i, d := range ds {
			if s := d.Ended(wait); s != "" {
				t.Fatalf("%s, one of %v: %s", jobs[i].kind, names, s)
			}
		}
		for i, s := range errs {
			if s != "" {
				t.Fatalf("%s, while others of %v ran: %s", jobs[i].kind, names, s)
			}
		}
		for _, k := range names {
			t.Label(k)
		}
		t.Nontrivial(fmt.Sprint(names), rounds, fmt.Sprint(t.Int(0, 1<<30, "id")))
		t.Sample("%d rounds of %v", rounds, names)
	})
}

const guard = 64

// guarded moves the payloads into arrays that go on after them.
func guarded(ps []gen.Pkt) (out []gen.Pkt, check func() string) {
	var all [][]byte
	var were [][]byte
	for _, p := range ps {
		b := make([]byte, len(p.P.Data)+guard)
		copy(b, p.P.Data)
		for i := len(p.P.Data); i < len(b); i++ {
			b[i] = 0x5a
		}
		all = append(all, b)
		were = append(were, append([]byte{}, b...))
		p.P.Data = b[:len(p.P.Data)]
		out = append(out, p)
	}
	return out, func() string {
		for i := range all {
			for k := range all[i] {
				if all[i][k] != were[i][k] {
					n := len(all[i]) - guard
					if k >= n {
						return fmt.Sprintf("writing packet %d (%d bytes) changed the caller's memory %d bytes after it", i, n, k-n)
					}
					return fmt.Sprintf("writing packet %d changed byte %d of its payload", i, k)
				}
			}
		}
		return ""
	}
}

// TestShared writes the same packets to several destinations at the same time.
func TestShared(t *testing.T) {
	vt.Check(t, 240, 6000, func(t *vt.T) {
		h := newHub()
		r := drawRecording(t, "r")
		ps := gen.Packets(t, gen.PktOpts{Big: t.OneIn(4, "big")}, "p")
		nr := len(r.conf) + len(r.pkts)
		for _, p := range append(append([]av.Packet{}, r.conf...), r.pkts...) {
			ps = append(ps, gen.Pkt{P: p})
		}
		ps, check := guarded(ps)
		rec := ps[len(ps)-nr:]
		n := t.Int(2, 5, "n")
		errs := make([]string, n)
		var ds []*gen.Done
		var names []string
		var fs []func() string
		for i := 0; i < n; i++ {
			k := vt.Pick(t, "kind", "flv", "flv publishing", "mp4", "publish", "play", "nalu")
			names = append(names, k)
			af, bf := t.Frags("af"), t.Frags("bf")
			fs = append(fs, func() string {
				switch k {
				case "flv", "flv publishing":
					var b bytes.Buffer
					if err := gen.MuxFLV(&b, ps, true, true, k != "flv", false); err != nil {
						return err.Error()
					}
					got, err := gen.ReadAll(flv.NewDemuxer(&vt.FragReader{B: b.Bytes(), Frags: af}), len(ps))
					if err != io.EOF {
						return fmt.Sprintf("read: %v", err)
					}
					return samePkts(ps, got)
				case "mp4":
					var q recording
					q.conf = []av.Packet{rec[0].P, rec[1].P}
					for _, p := range rec[2:] {
						q.pkts = append(q.pkts, p.P)
					}
					b, err := q.write()
					if err != nil {
						return err.Error()
					}
					return q.compare(b)
				case "nalu":
					for _, p := range ps {
						if p.P.Type == av.H264 {
							u, _ := h264.SplitNALUs(p.P.Data)
							h264.JoinNALUsAVCC(u)
							h264.JoinNALUsAnnexb(u)
							for _, u := range u {
								h264.RemoveH264orH265EmulationBytes(u)
								h264.NewCodec().AddSPSPPS(u)
							}
						}
						if p.P.Type == av.H264DecoderConfig {
							if c, err := h264.FromDecoderConfig(p.P.Data); err == nil {
								c.ToConfig()
							}
						}
					}
					return ""
				}
				s, got := h.session(fmt.Sprintf("/app/s%d", i), k == "publish", ps, af, bf)
				if s == "" {
					s = samePkts(ps, got)
				}
				return s
			})
		}
		start := make(chan struct{})
		for i := range fs {
			ds = append(ds, gen.Go(func() {
				<-start
				errs[i] = fs[i]()
			}))
		}
		close(start)
		for i, d := range ds {
			if s := d.Ended(wait); s != "" {
				t.Fatalf("%s, one of %v: %s", names[i], names, s)
			}
		}
		if s := check(); s != "" {
			t.Fatalf("%s; destinations %v", s, names)
		}
		for i, s := range errs {
			if s != "" {
				t.Fatalf("%s, of %v that share the packets: %s", names[i], names, s)
			}
			t.Label("to " + names[i])
		}
		t.Nontrivial(fmt.Sprint(names), gen.PktKey(ps))
		t.Sample("%v: %s", names, gen.ShowPkts(ps))
	})
}

// taken keeps what a reader delivered.
type taken struct {
	pkts []av.Packet
	were [][]byte
	mess bool
}

func (k *taken) add(p *av.Packet) {
	k.pkts = append(k.pkts, *p)
	k.were = append(k.were, append([]byte{}, p.Data...))
	if k.mess { // the receiver does with it what it likes
		for i := range p.Data {
			p.Data[i] = 0xa5
		}
	}
}

// bad tells what happened to the packets after they were delivered.
func (k *taken) bad() string {
	type area struct {
		from, to uintptr
		i        int
	}
	var as []area
	for i, p := range k.pkts {
		if len(p.Data) == 0 {
			continue
		}
		from := uintptr(unsafe.Pointer(&p.Data[0]))
		a := area{from, from + uintptr(len(p.Data)), i}
		for _, o := range as {
			if a.from < o.to && o.from < a.to {
				return fmt.Sprintf("packets %d and %d share memory", o.i, i)
			}
		}
		as = append(as, a)
		if k.mess {
			for n := range p.Data {
				if p.Data[n] != 0xa5 {
					return fmt.Sprintf("byte %d of packet %d was written to after it had been delivered", n, i)
				}
			}
		} else if !bytes.Equal(p.Data, k.were[i]) {
			return fmt.Sprintf("packet %d of %d changed after it had been delivered", i, len(k.pkts))
		}
	}
	return ""
}

func readInto(k *taken, r av.PacketReader) {
	for {
		p, err := r.ReadPacket()
		if err != nil {
			return
		}
		k.add(&p)
	}
}

// TestDelivered reads the same input twice: packets stay as they were
// delivered, and what the receiver does with them changes none of the others.
func TestDelivered(t *testing.T) {
	vt.Check(t, 400, 8000, func(t *vt.T) {
		kind := vt.Pick(t, "kind", "flv", "mp4", "rtmp", "rtmp", "rtsp")
		var read func(k *taken) string
		var what string
		switch kind {
		case "flv", "rtmp":
			agg := false
			var tags []ref.FLVTag
			for i, n := 0, t.Int(2, 12, "n"); i < n; i++ {
				tag, _ := gen.RefTag(t, t.OneIn(6, "big"), "tag")
				tags = append(tags, tag)
			}
			what = fmt.Sprintf("%d tags", len(tags))
			fr := t.Frags("frag")
			if kind == "flv" {
				b, _ := ref.BuildFLV(5, 9, tags)
				read = func(k *taken) string {
					readInto(k, flv.NewDemuxer(&vt.FragReader{B: b, Frags: fr}))
					return ""
				}
				break
			}
			var msgs []ref.Msg
			for i := 0; i < len(tags); {
				m := ref.Msg{CSID: uint32(t.Int(3, 8, "cs")), Stream: 1, Type: tags[i].Type, Time: tags[i].Time, Data: tags[i].Body}
				if m.Type <= 6 || m.Type == 20 || m.Type == 17 || m.Type == 22 {
					m.Type += 100
				}
				i++
				if t.OneIn(3, "agg") {
					m.Type, m.Data = 22, nil
					for e := min(len(tags), i+t.Int(0, 3, "parts")); i-1 < e; i++ {
						x := tags[i-1]
						if x.Type <= 6 || x.Type == 20 || x.Type == 17 || x.Type == 22 {
							x.Type += 100
						}
						m.Data = ref.AppendFLVTag(m.Data, x)
					}
					i--
					agg = true
				}
				msgs = append(msgs, m)
			}
			size := vt.Pick(t, "csize", 0, 64, 1000, 65536)
			play := t.Bool("play")
			read = func(k *taken) string {
				feed := func(p *ref.Peer, nc *vt.Conn) error {
					if size > 0 {
						m := ref.Msg{CSID: 2, Type: 1, Data: []byte{0, byte(size >> 16), byte(size >> 8), byte(size)}}
						p.Enc.Start(m, 0, false)
						p.Enc.Size = size
					}
					for _, m := range msgs {
						for done := p.Enc.Start(m, 0, false); !done; {
							done = p.Enc.Cont(m.CSID, false)
						}
					}
					nc.Write(p.Enc.Take())
					nc.Close()
					return nil
				}
				var d *gen.Done
				var err error
				if play {
					d, err = gen.RefPlayed(t, fr, func(c *rtmp.Conn) { readInto(k, c) }, feed)
				} else {
					d, err = gen.RefPublisher(t, fr, func(c *rtmp.Conn, nc net.Conn) { readInto(k, c) }, feed)
				}
				if s := d.Ended(wait); s != "" {
					return s
				}
				if err != nil || d.Err != nil {
					return fmt.Sprint(err, d.Err)
				}
				return ""
			}
			t.LabelIf(agg, "aggregate")
		case "mp4":
			r := drawRecording(t, "r")
			b, err := r.write()
			if err != nil {
				t.Fatalf("write: %v", err)
			}
			what = fmt.Sprintf("%d packets", len(r.pkts))
			seek := t.Bool("seek")
			read = func(k *taken) string {
				d := mp4.NewDemuxer(bytes.NewReader(b))
				readInto(k, d)
				if seek {
					d.SeekToTime(0)
					readInto(k, d)
				}
				return ""
			}
		case "rtsp":
			x := gen.DrawRTSP(t, gen.RTSPOpts{})
			cuts, pause := gen.Deliveries(t, len(x.Wire)+60, x.Borders, "net")
			what = x.Show()
			read = func(k *taken) string {
				return playRTSP(x, cuts, pause, func(p *av.Packet) { k.add(p) })
			}
		}
		one, two := &taken{}, &taken{mess: true}
		for _, k := range []*taken{one, two} {
			if s := read(k); s != "" {
				t.Fatalf("%s: %s; %s", kind, s, what)
			}
			if s := k.bad(); s != "" {
				t.Fatalf("%s: %s; %s", kind, s, what)
			}
		}
		if len(one.pkts) != len(two.pkts) {
			t.Fatalf("%s: %d packets, %d once the receiver overwrites them; %s", kind, len(one.pkts), len(two.pkts), what)
		}
		for i := range one.were {
			if !bytes.Equal(one.were[i], two.were[i]) || one.pkts[i].Type != two.pkts[i].Type {
				t.Fatalf("%s: packet %d differs once the receiver overwrites those before it; %s", kind, i, what)
			}
		}
		t.Label("from " + kind)
		if len(one.pkts) > 1 {
			h := fmt.Sprint(len(one.pkts))
			for _, w := range one.were {
				h += fmt.Sprintf(",%d:%x", len(w), w[:min(len(w), 8)])
			}
			t.Nontrivial(kind, h)
		}
		t.Sample("%s: %s", kind, what)
	})
}
