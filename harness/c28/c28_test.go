package c28

import (
	"bytes"
	"fmt"
	"io"
	"net"
	"net/url"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/nareix/joy5/av"
	"github.com/nareix/joy5/format/rtmp"

	"joyverif/gen"
	"joyverif/ref"
	"joyverif/vt"
)

func TestMain(m *testing.M) { vt.Main(m) }

const wait = 60 * time.Second // nothing that happens takes this long

var scratch string

func dir(t *vt.T) string {
	if scratch == "" {
		var err error
		if scratch, err = os.MkdirTemp(os.Getenv("VT_SCRATCH"), "c28"); err != nil {
			vt.Infra("%v", err)
		}
	}
	d, err := os.MkdirTemp(scratch, "case")
	if err != nil {
		vt.Infra("%v", err)
	}
	return d
}

type ended struct {
	code int
	out  string
	took time.Duration
}

// finish waits for a command to end.
func finish(t *vt.T, p *gen.Proc, what string) (e ended) {
	select {
	case <-p.Done:
	case <-time.After(wait):
		p.Cmd.Process.Signal(os.Interrupt)
		p.Kill()
		t.Fatalf("%s does not end: %s", what, p.Out.String())
	}
	e.out = p.Out.String()
	e.code = p.Cmd.ProcessState.ExitCode()
	for _, s := range []string{"panic: ", "fatal error: ", "\ngoroutine "} {
		if strings.Contains("\n"+e.out, "\n"+strings.TrimPrefix(s, "\n")) {
			t.Fatalf("%s crashes: %s", what, e.out)
		}
	}
	if e.code < 0 {
		t.Fatalf("%s is killed: %s", what, e.out)
	}
	return
}

func tool(t *vt.T, args ...string) ended {
	t0 := time.Now()
	e := finish(t, gen.StartAvtool(args...), strings.Join(args, " "))
	e.took = time.Since(t0)
	return e
}

func succeed(t *vt.T, args ...string) ended {
	e := tool(t, args...)
	if e.code != 0 {
		t.Fatalf("avtool %s: exit status %d: %s", strings.Join(args, " "), e.code, e.out)
	}
	return e
}

// quiet draws the flags of conv that have no effect on its result.
func quiet(t *vt.T) []string {
	switch t.Int(0, 3, "flags") {
	case 0:
		return []string{"conv"}
	case 1:
		return []string{"conv", "--statsec", "--qpkt"}
	case 2:
		return []string{"conv", "--drtmp", "stage,net", "--dflv", "filehdr", "--qpkt"}
	default:
		return []string{"conv", "--qpkt"}
	}
}

// source draws an FLV file and the packets a reader gets from it.
func source(t *vt.T, o gen.PktOpts) (b []byte, want []gen.Pkt, ends []int) {
	var tags []ref.FLVTag
	if o.MaxTimeMs == 0 && t.Bool("foreign") {
		for n := t.Int(1, 12, "ntags"); n > 0; n-- {
			tag, w := gen.RefTag(t, false, "tag")
			tags = append(tags, tag)
			if w != nil {
				want = append(want, *w)
			}
		}
		b, ends = ref.BuildFLV(vt.Pick(t, "hdr", byte(5), 4, 1, 0), vt.Pick(t, "off", 9, 9, 13, 40), tags)
		return
	}
	want = gen.Packets(t, o, "p")
	for len(want) == 0 {
		want = gen.Packets(t, o, "p")
	}
	return file(t, want)
}

func file(t *vt.T, pkts []gen.Pkt) (b []byte, want []gen.Pkt, ends []int) {
	var buf bytes.Buffer
	if err := gen.MuxFLV(&buf, pkts, true, true, false, true); err != nil {
		t.Fatalf("write the source: %v", err)
	}
	f, err := ref.ParseFLV(buf.Bytes())
	if err != nil || len(f.Tags) != len(pkts) {
		t.Fatalf("the source: %v", err)
	}
	return buf.Bytes(), pkts, f.Ends
}

func put(d, name string, b []byte) string {
	p := filepath.Join(d, name)
	if err := os.WriteFile(p, b, 0644); err != nil {
		vt.Infra("%v", err)
	}
	return p
}

// same compares a written FLV file with packets.
func same(t *vt.T, path string, want []gen.Pkt, what string) ref.FLVFile {
	b, err := os.ReadFile(path)
	if err != nil {
		t.Fatalf("%s: %v", what, err)
	}
	f, err := ref.ParseFLV(b)
	if err != nil {
		t.Fatalf("%s: no FLV file: %v", what, err)
	}
	for i, w := range want {
		if i >= len(f.Tags) {
			t.Fatalf("%s: %d tags for %d packets", what, len(f.Tags), len(want))
		}
		if s := gen.TagMatches(w, f.Tags[i], false); s != "" {
			t.Fatalf("%s: packet %d: %s", what, i, s)
		}
	}
	if len(f.Tags) > len(want) {
		t.Fatalf("%s: %d tags for %d packets", what, len(f.Tags), len(want))
	}
	return f
}

func sameAll(t *vt.T, want []gen.Pkt, got []av.Packet, what string) {
	for i, w := range want {
		if i >= len(got) {
			t.Fatalf("%s: %d packets, want %d", what, len(got), len(want))
		}
		if s := gen.SamePkt(w, got[i]); s != "" {
			t.Fatalf("%s: packet %d: %s", what, i, s)
		}
	}
	if len(got) > len(want) {
		t.Fatalf("%s: %d packets, want %d", what, len(got), len(want))
	}
}

// stale leaves, in some cases, an older file where the result goes, longer or
// shorter than that.
func stale(t *vt.T, dst string) {
	if !t.Bool("exists") {
		return
	}
	n := t.Int(0, 5000, "old")
	if t.OneIn(4, "oldbig") {
		n += 400000
	}
	put(filepath.Dir(dst), filepath.Base(dst), vt.Fill(n, t.U64("oldseed")))
}

func TestFiles(t *testing.T) {
	vt.Check(t, 300, 8000, func(t *vt.T) {
		d := dir(t)
		defer os.RemoveAll(d)
		b, want, _ := source(t, gen.PktOpts{Big: true})
		src := put(d, "in.flv", b)
		dst := filepath.Join(d, "out.flv")
		stale(t, dst)
		succeed(t, append(quiet(t), src, dst)...)
		if len(want) > 0 {
			same(t, dst, want, "FLV to FLV")
			again := filepath.Join(d, "again.flv")
			succeed(t, append(quiet(t), dst, again)...)
			b1, _ := os.ReadFile(dst)
			b2, _ := os.ReadFile(again)
			if !bytes.Equal(b1, b2) {
				t.Fatalf("converting the result again changes it")
			}
			t.Nontrivial(b)
			t.Sample("%d bytes: %s", len(b), gen.ShowPkts(want))
		}
		if b2, _ := os.ReadFile(src); !bytes.Equal(b, b2) {
			t.Fatalf("the source changes")
		}
	})
}

func TestMP4(t *testing.T) {
	vt.Check(t, 120, 3000, func(t *vt.T) {
		d := dir(t)
		defer os.RemoveAll(d)
		vcfg, _, _ := gen.AVCConfig(t, "v")
		var pkts []gen.Pkt
		var want [2][][]byte
		add := func(p av.Packet) { pkts = append(pkts, gen.Pkt{P: p}) }
		v := t.Bool("video")
		a := !v || t.Bool("audio")
		if v {
			add(av.Packet{Type: av.H264DecoderConfig, Data: vcfg})
		}
		if a {
			add(av.Packet{Type: av.AACDecoderConfig, Data: gen.AACConfig(t, "a")})
		}
		now := time.Duration(0)
		for n := t.Int(1, 20, "n"); n > 0; n-- {
			now += time.Duration(t.Int(0, 60, "dt")) * time.Millisecond
			p := av.Packet{Type: av.H264, Time: now, Data: t.Payload(t.Int(1, 200, "len"), "data")}
			k := 0
			if !v || a && t.Bool("which") {
				p.Type, k = av.AAC, 1
			} else {
				p.IsKeyFrame = len(want[0]) == 0 || t.Bool("key")
			}
			want[k] = append(want[k], p.Data)
			add(p)
		}
		b, _, _ := file(t, pkts)
		src := put(d, "in.flv", b)
		dst := filepath.Join(d, "out.mp4")
		stale(t, dst)
		succeed(t, append(quiet(t), src, dst)...)
		m, err := os.ReadFile(dst)
		if err != nil {
			t.Fatalf("FLV to MP4: %v", err)
		}
		trs, err := ref.ParseMP4(m)
		if err != nil {
			t.Fatalf("FLV to MP4: %v", err)
		}
		var got [2][][]byte
		for _, tr := range trs {
			k := 0
			if tr.Kind == "mp4a" {
				k = 1
			}
			for _, s := range tr.Samples {
				got[k] = append(got[k], s.Data)
			}
		}
		if fmt.Sprint(got) != fmt.Sprint(want) {
			t.Fatalf("FLV to MP4: %d and %d samples, not the packets %d and %d", len(got[0]), len(got[1]), len(want[0]), len(want[1]))
		}
		t.Nontrivial(b)
	})
}

// nals draws the units of an access unit.
func nals(t *vt.T) (out [][]byte, avcc []byte) {
	for n := t.Int(1, 4, "nals"); n > 0; n-- {
		u := gen.NALU(t, 70000, "nal")
		out = append(out, u)
		avcc = append(avcc, byte(len(u)>>24), byte(len(u)>>16), byte(len(u)>>8), byte(len(u)))
		avcc = append(avcc, u...)
	}
	return
}

// annexb splits a byte stream into its units.
func annexb(b []byte) (out [][]byte, ok bool) {
	i := 0
	for i < len(b) && b[i] == 0 {
		i++
	}
	if i < 2 || i >= len(b) || b[i] != 1 {
		return nil, false
	}
	i++
	for {
		j := bytes.Index(b[i:], []byte{0, 0, 1})
		u := b[i:]
		if j >= 0 {
			u = b[i : i+j]
		}
		for len(u) > 0 && u[len(u)-1] == 0 {
			u = u[:len(u)-1]
		}
		out = append(out, u)
		if j < 0 {
			return out, true
		}
		i += j + 3
	}
}

func sameUnits(a, b [][]byte) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !bytes.Equal(a[i], b[i]) {
			return false
		}
	}
	return true
}

type video struct {
	pkts  []gen.Pkt
	units [][][]byte // of H264 packets
	sets  [][][]byte // in force at them
	nsps  []int
}

func (v *video) config(t *vt.T) []byte {
	var sps, pps [][]byte
	id := 0
	for n := t.Int(1, 3, "nsps"); n > 0; n-- {
		s := gen.SPS(t, "sps")
		s.ID = id
		id += t.Int(1, 4, "idstep")
		sps = append(sps, s.NAL())
	}
	pid := 0
	for n := t.Int(1, 3, "npps"); n > 0; n-- {
		pps = append(pps, ref.PPSNAL(0x68, pid, 0, []byte{byte(n)}))
		pid += t.Int(1, 9, "pidstep")
	}
	v.sets = append(v.sets, append(append([][]byte{}, sps...), pps...))
	v.nsps = append(v.nsps, len(sps))
	return ref.AVCC(sps, pps)
}

// drawVideo draws packets with length-prefixed video.
func drawVideo(t *vt.T) (pkts []gen.Pkt, units [][][]byte, sets [][][]byte) {
	v := &video{}
	var cur [][]byte
	if !t.OneIn(5, "noconfig") {
		v.pkts = append(v.pkts, gen.Pkt{P: av.Packet{Type: av.H264DecoderConfig, Data: v.config(t)}})
		cur = v.sets[len(v.sets)-1]
		units, sets = append(units, nil), append(sets, nil)
	}
	ms := 0
	for n := t.Int(1, 12, "npkts"); n > 0; n-- {
		ms += t.Int(0, 100, "dt")
		var k gen.Pkt
		var us [][]byte
		switch t.Int(0, 9, "pkt") {
		case 0:
			k.P = av.Packet{Type: av.H264DecoderConfig, Data: v.config(t)}
			cur = v.sets[len(v.sets)-1]
		case 1, 2:
			k.P = av.Packet{Type: av.AAC, Data: t.RawBytes(40, "aac")}
		case 3:
			k.P = av.Packet{Type: av.AACDecoderConfig, Data: t.RawBytes(4, "aaccfg")}
		case 4:
			k.P.Type = av.Metadata
			k.Meta = gen.MetaVals(t, "meta")
			for _, x := range k.Meta {
				k.P.Data = ref.AMF0(k.P.Data, x)
			}
		default:
			k.P.Type = av.H264
			k.P.IsKeyFrame = t.Bool("key")
			k.P.CTime = time.Duration(t.Int(-100, 100, "ct")) * time.Millisecond
			us, k.P.Data = nals(t)
		}
		k.P.Time = time.Duration(ms) * time.Millisecond
		v.pkts = append(v.pkts, k)
		units = append(units, us)
		sets = append(sets, cur)
	}
	return v.pkts, units, sets
}

// sameVideo compares the tag of a video packet with it, except for the payload,
// and returns that.
func sameVideo(t *vt.T, w gen.Pkt, tag ref.FLVTag, what string) []byte {
	if len(tag.Body) < 5 {
		t.Fatalf("%s: tag of %d bytes", what, len(tag.Body))
	}
	w.P.Data = tag.Body[5:]
	if s := gen.TagMatches(w, tag, false); s != "" {
		t.Fatalf("%s: %s", what, s)
	}
	return tag.Body[5:]
}

// avcc2annexb: the video payload is a byte stream with the same units, behind
// a length.
func TestAnnexb(t *testing.T) {
	vt.Check(t, 250, 6000, func(t *vt.T) {
		d := dir(t)
		defer os.RemoveAll(d)
		pkts, units, _ := drawVideo(t)
		b, _, _ := file(t, pkts)
		src, dst := put(d, "in.flv", b), filepath.Join(d, "out.flv")
		stale(t, dst)
		succeed(t, "avcc2annexb", src, dst)
		o, err := os.ReadFile(dst)
		if err != nil {
			t.Fatalf("%v", err)
		}
		f, err := ref.ParseFLV(o)
		if err != nil || len(f.Tags) != len(pkts) {
			t.Fatalf("avcc2annexb: %d tags for %d packets, %v", len(f.Tags), len(pkts), err)
		}
		nv := 0
		for i, k := range pkts {
			what := fmt.Sprintf("avcc2annexb: packet %d", i)
			if k.P.Type != av.H264 {
				if s := gen.TagMatches(k, f.Tags[i], false); s != "" {
					t.Fatalf("%s: %s", what, s)
				}
				continue
			}
			nv++
			p := sameVideo(t, k, f.Tags[i], what)
			if x, ok := ref.SplitAVCC4(p); !ok || len(x) != 1 {
				t.Fatalf("%s: not one unit behind its length: %s", what, gen.Hex(p))
			} else if u, ok := annexb(x[0]); !ok || !sameUnits(u, units[i]) {
				t.Fatalf("%s: %d units, want %d: %s", what, len(u), len(units[i]), gen.Hex(p))
			}
		}
		if nv > 0 {
			t.Nontrivial(b)
			t.Sample("avcc2annexb %s", gen.ShowPkts(pkts))
		}
	})
}

// moveh264seqhdrtokeyframe: the sets in force are in front of the units of
// each keyframe, as a byte stream, and no longer in packets of their own.
func TestMove(t *testing.T) {
	vt.Check(t, 250, 6000, func(t *vt.T) {
		d := dir(t)
		defer os.RemoveAll(d)
		pkts, units, sets := drawVideo(t)
		b, _, _ := file(t, pkts)
		src, dst := put(d, "in.flv", b), filepath.Join(d, "out.flv")
		stale(t, dst)
		succeed(t, "moveh264seqhdrtokeyframe", src, dst)
		var idx []int
		for i, k := range pkts {
			if k.P.Type != av.H264DecoderConfig {
				idx = append(idx, i)
			}
		}
		if len(idx) == 0 {
			return
		}
		o, err := os.ReadFile(dst)
		if err != nil {
			t.Fatalf("%v", err)
		}
		f, err := ref.ParseFLV(o)
		if err != nil || len(f.Tags) != len(idx) {
			t.Fatalf("move: %d tags for %d packets, %v", len(f.Tags), len(idx), err)
		}
		keys := 0
		for j, i := range idx {
			what := fmt.Sprintf("move: packet %d", i)
			k := pkts[i]
			if k.P.Type != av.H264 {
				if s := gen.TagMatches(k, f.Tags[j], false); s != "" {
					t.Fatalf("%s: %s", what, s)
				}
				continue
			}
			p := sameVideo(t, k, f.Tags[j], what)
			want := units[i]
			if k.P.IsKeyFrame {
				want = append(append([][]byte{}, sets[i]...), units[i]...)
				keys++
			}
			if u, ok := annexb(p); !ok || !sameUnits(u, want) {
				t.Fatalf("%s (key %v): %d units, want %d with %d parameter sets: %s", what, k.P.IsKeyFrame, len(u), len(want), len(sets[i]), gen.Hex(p))
			}
		}
		t.LabelIf(keys > 0 && sets[len(sets)-1] == nil, "keyframe without configuration")
		if keys > 0 {
			t.Nontrivial(b)
			t.Sample("move %s", gen.ShowPkts(pkts))
		}
	})
}

// What cannot be read or written ends with a status other than 0.
func TestFailures(t *testing.T) {
	vt.Check(t, 250, 5000, func(t *vt.T) {
		d := dir(t)
		defer os.RemoveAll(d)
		cmd := vt.Pick(t, "cmd", "conv", "conv", "avcc2annexb", "moveh264seqhdrtokeyframe")
		var b []byte
		var want []gen.Pkt
		var ends []int
		if cmd == "conv" {
			b, want, ends = source(t, gen.PktOpts{})
		} else {
			pkts, _, _ := drawVideo(t)
			b, want, ends = file(t, pkts)
		}
		src, dst := filepath.Join(d, "in.flv"), filepath.Join(d, "out.flv")
		partial := -1
		kind := t.Int(0, 6, "kind")
		note := ""
		switch kind {
		case 0:
			note = "missing source"
		case 1:
			note = "no FLV file"
			x := append([]byte{}, b...)
			x[t.Int(0, 2, "sig")] ^= 1 << uint(t.Int(0, 7, "bit"))
			put(d, "in.flv", x)
		case 2, 3: // within a tag
			start, k := 13, t.Int(0, len(ends)-1, "tag")
			if k > 0 {
				start = ends[k-1]
			} else {
				start = int(b[5])<<24 | int(b[6])<<16 | int(b[7])<<8 | int(b[8])
				start += 4
			}
			if ends[k]-4 <= start+1 {
				t.Skip("nothing to cut")
			}
			n := t.Int(start+1, ends[k]-5, "cut")
			note = fmt.Sprintf("cut at %d in tag %d", n, k)
			put(d, "in.flv", b[:n])
			partial = k
		case 4:
			note = "no such directory"
			put(d, "in.flv", b)
			dst = filepath.Join(d, "none", "out.flv")
			if len(want) == 0 {
				t.Skip("nothing to write")
			}
		case 5:
			note = "full disk"
			put(d, "in.flv", b)
			n := 0
			for _, w := range want {
				if cmd != "moveh264seqhdrtokeyframe" || w.P.Type != av.H264DecoderConfig {
					n++
				}
			}
			if n == 0 {
				t.Skip("nothing to write")
			}
			if err := os.Symlink("/dev/full", dst); err != nil {
				vt.Infra("%v", err)
			}
		case 6:
			cmd = "conv"
			put(d, "in.flv", b)
			if len(want) == 0 {
				t.Skip("nothing to write")
			}
			dst = filepath.Join(d, "out") + vt.Pick(t, "ext", "", ".mkv", ".ts", ".264")
			if t.Bool("net") {
				l := listen()
				l.Close()
				dst = "rtmp://" + l.Addr().String() + "/a/b"
			}
			note = "destination " + dst
		}
		args := []string{cmd, src, dst}
		e := tool(t, args...)
		if e.code == 0 {
			t.Fatalf("avtool %s succeeds (%s): %s", strings.Join(args, " "), note, e.out)
		}
		if partial > 0 && cmd == "conv" {
			var whole []gen.Pkt
			if f, err := ref.ParseFLV(b[:ends[partial-1]]); err == nil {
				// the packets of the whole tags
				n := 0
				for range f.Tags {
					n++
				}
				whole = packetsOf(t, b, n, want)
			}
			if len(whole) > 0 {
				same(t, dst, whole, "what was read before the cut")
			}
		}
		t.Nontrivial(cmd, note, b)
		t.Label(fmt.Sprint("kind ", kind))
	})
}

// packetsOf is how many of the packets are in the first n tags.
func packetsOf(t *vt.T, b []byte, n int, want []gen.Pkt) []gen.Pkt {
	f, err := ref.ParseFLV(b)
	if err != nil || len(f.Tags) != len(want) {
		return nil // tags that are no packets
	}
	return want[:n]
}

func listen() net.Listener {
	for i := 0; ; i++ {
		l, err := net.Listen("tcp", ref.LocalIP()+":0")
		if err == nil {
			return l
		}
		if i == 50 {
			vt.Infra("listen: %v", err)
		}
		time.Sleep(100 * time.Millisecond)
	}
}

var rtmpOpts = gen.PktOpts{MaxTimeMs: 80, Big: true}

// serve is a server for one session; publishers end in the sink, players get
// the packets and the connection closes.
func serve(l net.Listener, pkts []gen.Pkt, sink *gen.Sink, refuse bool) (d *gen.Done, werr *error, path *string) {
	werr, path = new(error), new(string)
	d = gen.Go(func() {
		l.(*net.TCPListener).SetDeadline(time.Now().Add(wait))
		nc, err := l.Accept()
		if err != nil {
			*werr = err
			return
		}
		defer nc.Close()
		s := rtmp.NewServer()
		s.HandleConn = func(c *rtmp.Conn, nc net.Conn) {
			nc.SetDeadline(time.Now().Add(wait))
			*path = c.URL.RequestURI()
			if refuse {
				c.PubPlayErr = fmt.Errorf("refused")
				fl := rtmp.PrepareWriting
				if c.Publishing {
					fl = rtmp.PrepareReading
				}
				c.Prepare(rtmp.StageCommandDone, fl)
				return
			}
			if c.Publishing {
				sink.ReadAll(c)
				return
			}
			for _, p := range pkts {
				if *werr = c.WritePacket(p.P); *werr != nil {
					return
				}
			}
		}
		s.HandleNetConn(nc)
		ref.CloseWrite(nc) // not a reset, which loses what has been sent
		nc.SetReadDeadline(time.Now().Add(wait))
		io.Copy(io.Discard, nc)
	})
	return
}

func TestPublish(t *testing.T) {
	vt.Check(t, 200, 4000, func(t *vt.T) {
		d := dir(t)
		defer os.RemoveAll(d)
		b, want, _ := source(t, rtmpOpts)
		if t.OneIn(25, "long") { // more than what fits into the buffers of a connection
			for i := 0; i < 160; i++ {
				want = append(want, gen.Pkt{P: av.Packet{Type: av.AAC, Data: vt.Fill(100000, uint64(i))}})
			}
			b, _, _ = file(t, want)
			t.Label("long")
		}
		src := put(d, "in.flv", b)
		l := listen()
		defer l.Close()
		refuse := t.OneIn(8, "refuse")
		var sink gen.Sink
		srv, _, path := serve(l, nil, &sink, refuse)
		p := vt.Pick(t, "path", "/app/x", "/live/a/b", "/a/b?token=1")
		e := tool(t, append(quiet(t), src, "rtmp://"+l.Addr().String()+p)...)
		if s := srv.Ended(wait); s != "" {
			t.Fatalf("server: %s", s)
		}
		if refuse {
			if e.code == 0 {
				t.Fatalf("publishing is refused, and conv succeeds: %s", e.out)
			}
			return
		}
		if e.code != 0 {
			t.Fatalf("publish: exit status %d: %s", e.code, e.out)
		}
		if *path != p {
			t.Fatalf("published as %q, want %q", *path, p)
		}
		sameAll(t, want, sink.Pkts, fmt.Sprintf("publish (%v)", sink.Err))
		t.Nontrivial(b)
		t.Sample("publish %s: %s", p, gen.ShowPkts(want))
	})
}

func TestPlay(t *testing.T) {
	vt.Check(t, 200, 4000, func(t *vt.T) {
		d := dir(t)
		defer os.RemoveAll(d)
		pkts := gen.Packets(t, gen.PktOpts{Big: true}, "p")
		for len(pkts) == 0 {
			pkts = gen.Packets(t, gen.PktOpts{Big: true}, "p")
		}
		if t.OneIn(25, "long") {
			for i := 0; i < 160; i++ {
				pkts = append(pkts, gen.Pkt{P: av.Packet{Type: av.AAC, Data: vt.Fill(100000, uint64(i))}})
			}
			t.Label("long")
		}
		l := listen()
		defer l.Close()
		refuse := t.OneIn(8, "refuse")
		srv, werr, _ := serve(l, pkts, nil, refuse)
		dst := filepath.Join(d, "out.flv")
		stale(t, dst)
		e := tool(t, append(quiet(t), "rtmp://"+l.Addr().String()+"/app/x", dst)...)
		if s := srv.Ended(wait); s != "" {
			t.Fatalf("server: %s", s)
		}
		if refuse {
			if e.code == 0 {
				t.Fatalf("playing is refused, and conv succeeds: %s", e.out)
			}
			return
		}
		if *werr != nil {
			t.Fatalf("server: %v (conv: %s)", *werr, e.out)
		}
		if e.code != 0 {
			t.Fatalf("play: exit status %d: %s", e.code, e.out)
		}
		same(t, dst, pkts, "play")
		t.Nontrivial(gen.PktKey(pkts))
		t.Sample("play %s", gen.ShowPkts(pkts))
	})
}

// Two commands: one publishes a file, the other one waits for the publisher.
func TestWait(t *testing.T) {
	vt.Check(t, 100, 2000, func(t *vt.T) {
		d := dir(t)
		defer os.RemoveAll(d)
		b, want, _ := source(t, rtmpOpts)
		src := put(d, "in.flv", b)
		dst := filepath.Join(d, "out.flv")
		if len(want) > 0 {
			stale(t, dst)
		}
		l := listen()
		addr := l.Addr().String()
		l.Close()
		rcv := gen.StartAvtool(append(quiet(t), "@rtmp://"+addr+"/", dst)...)
		for end := time.Now().Add(wait); ; time.Sleep(2 * time.Millisecond) {
			nc, err := net.Dial("tcp", addr)
			if err == nil {
				nc.Close()
				break
			}
			if x := rcv.Dead(); x != "" {
				if strings.Contains(x, "in use") {
					return // the port has been taken meanwhile
				}
				t.Fatalf("conv @rtmp: %s", x)
			}
			if time.Now().After(end) {
				rcv.Kill()
				t.Fatalf("conv @rtmp does not listen")
			}
		}
		e := tool(t, append(quiet(t), src, "rtmp://"+addr+"/app/x")...)
		if e.code != 0 {
			rcv.Kill()
			t.Fatalf("publish: exit status %d: %s\n%s", e.code, e.out, rcv.Out.String())
		}
		if e := finish(t, rcv, "conv @rtmp"); e.code != 0 {
			t.Fatalf("conv @rtmp: exit status %d: %s", e.code, e.out)
		}
		same(t, dst, want, "publish to conv @rtmp")
		t.Nontrivial(b)
	})
}

var (
	fwdMu sync.Mutex
	fwd   *gen.Proc
)

func forwarder() *gen.Proc {
	fwdMu.Lock()
	defer fwdMu.Unlock()
	if fwd == nil || fwd.Dead() != "" {
		fwd = gen.StartServer("forwardrtmp")
	}
	return fwd
}

func TestForward(t *testing.T) {
	vt.Check(t, 400, 8000, func(t *vt.T) {
		d := dir(t)
		defer os.RemoveAll(d)
		f := forwarder()
		pkts := gen.Packets(t, gen.PktOpts{Big: true}, "p")
		for len(pkts) == 0 {
			pkts = gen.Packets(t, gen.PktOpts{Big: true}, "p")
		}
		l := listen()
		defer l.Close()
		target := "rtmp://" + l.Addr().String() + vt.Pick(t, "path", "/app/x", "/live/a/b") + vt.Pick(t, "tq", "", "", "?key=1", "?a=b=c", "?a&k=%20x&fwd=1", "?key=a%26b%3Dc")
		bad := t.OneIn(4, "bad")
		q := "?fwd=" + url.QueryEscape(target)
		if t.Bool("plain") && !strings.ContainsAny(target, "&%") {
			q = "?fwd=" + target
		}
		if bad {
			dead := listen()
			dead.Close()
			q = vt.Pick(t, "badq", "", "?fwd=", "?other=1", "?fwd="+url.QueryEscape(filepath.Join(d, "x.flv")), "?fwd="+url.QueryEscape("rtmp://"+dead.Addr().String()+"/a/b"), "?fwd=%3a", "?fwd=http://127.0.0.1:1/x.flv", "?fwd=rtmp:", "?fwd="+url.QueryEscape(filepath.Join(d, "x.mp4")))
		}
		if t.OneIn(6, "more") && strings.Contains(q, "=") {
			q += "&z=1"
		}
		nc, err := net.Dial("tcp", f.Addr)
		if err != nil {
			t.Fatalf("forwardrtmp: %v %s", err, f.Dead())
		}
		defer nc.Close()
		nc.SetDeadline(time.Now().Add(wait))
		if bad {
			play := t.OneIn(4, "play")
			c, err := gen.DialRTMP(nc, "rtmp://"+f.Addr+"/app/x"+q, !play)
			for n := 0; err == nil; n++ {
				nc.SetDeadline(time.Now().Add(wait))
				if play {
					_, err = c.ReadPacket()
				} else {
					err = c.WritePacket(av.Packet{Type: av.AAC, Data: make([]byte, 1000)})
				}
			}
			if e, ok := err.(net.Error); ok && e.Timeout() {
				t.Fatalf("publisher with %q is not disconnected", q)
			}
			if x := f.Dead(); x != "" {
				t.Fatalf("publisher with %q: %s", q, x)
			}
			if l, _ := os.ReadDir(d); len(l) > 0 {
				t.Fatalf("publisher with %q creates a file", q)
			}
			t.Nontrivial("bad", q, play)
			return
		}
		var sink gen.Sink
		srv, serr, path := serve(l, nil, &sink, false)
		c, err := gen.DialRTMP(nc, "rtmp://"+f.Addr+"/app/x"+q, true)
		if err != nil {
			t.Fatalf("publish with %q: %v %s", q, err, f.Dead())
		}
		for i, p := range pkts {
			nc.SetDeadline(time.Now().Add(wait))
			if err := c.WritePacket(p.P); err != nil {
				t.Fatalf("publish with %q: packet %d: %v %s", q, i, err, f.Dead())
			}
		}
		nc.Close()
		if s := srv.Ended(2 * wait); s != "" {
			t.Fatalf("target: %s", s)
		}
		if *serr != nil {
			t.Fatalf("target: %v: %s", *serr, f.Out.String())
		}
		if !strings.HasSuffix(target, *path) || *path == "" {
			t.Fatalf("forwarded to %q instead of %q", *path, target)
		}
		sameAll(t, pkts, sink.Pkts, fmt.Sprintf("forward (%v)", sink.Err))
		if x := f.Dead(); x != "" {
			t.Fatalf("forward: %s", x)
		}
		t.Nontrivial(gen.PktKey(pkts))
		t.Sample("forward %s: %s", q, gen.ShowPkts(pkts))
	})
}

// slow lets the sender get ahead, by what a connection takes.
type slow struct{ av.PacketReader }

func (s slow) ReadPacket() (av.Packet, error) {
	time.Sleep(2 * time.Millisecond)
	return s.PacketReader.ReadPacket()
}

// benchrtmp plays the file to everyone.
func TestBench(t *testing.T) {
	vt.Check(t, 40, 800, func(t *vt.T) {
		d := dir(t)
		defer os.RemoveAll(d)
		b, want, _ := source(t, rtmpOpts)
		long := t.OneIn(5, "long") // more than what fits into the buffers of a connection
		if long {
			for i := 0; i < 100; i++ {
				want = append(want, gen.Pkt{P: av.Packet{Type: av.AAC, Data: vt.Fill(100000, uint64(i))}})
			}
			b, _, _ = file(t, want)
			t.Label("long file for benchmark clients")
		}
		src := put(d, "in.flv", b)
		s := gen.StartServer("benchrtmp", src)
		defer s.Kill()
		n := t.Int(1, 4, "players")
		late := -1
		if t.OneIn(5, "late") { // when the first one has got everything
			n, late = max(n, 2), t.Int(1, max(n, 2)-1, "latefrom")
		}
		sinks := make([]gen.Sink, n)
		var ds []*gen.Done
		for i := range sinks {
			if i == late {
				if x := ds[0].Ended(2 * wait); x != "" {
					t.Fatalf("player 0: %s", x)
				}
				time.Sleep(time.Duration(t.Int(0, 1500, "later")) * time.Millisecond)
			}
			nc, err := net.Dial("tcp", s.Addr)
			if err != nil {
				t.Fatalf("benchrtmp: %v %s", err, s.Dead())
			}
			defer nc.Close()
			nc.SetDeadline(time.Now().Add(wait))
			k := &sinks[i]
			ds = append(ds, gen.Go(func() {
				c, err := gen.DialRTMP(nc, "rtmp://"+s.Addr+"/app/x", false)
				if err != nil {
					k.Err = err
					return
				}
				if long {
					k.ReadAll(slow{c})
				} else {
					k.ReadAll(c)
				}
			}))
		}
		for i := range sinks {
			if x := ds[i].Ended(2 * wait); x != "" {
				t.Fatalf("player %d: %s", i, x)
			}
			sameAll(t, want, sinks[i].Pkts, fmt.Sprintf("player %d (%v)", i, sinks[i].Err))
		}
		t.Nontrivial(b)
	})
}

// --re takes the time of the stream.
func TestRate(t *testing.T) {
	vt.Check(t, 24, 200, func(t *vt.T) {
		d := dir(t)
		defer os.RemoveAll(d)
		b, want, _ := source(t, gen.PktOpts{MaxTimeMs: 250})
		first, last := time.Duration(-1), time.Duration(0)
		for _, w := range want {
			if first < 0 {
				first = w.P.Time
			}
			last = max(last, w.P.Time-first)
		}
		src, dst := put(d, "in.flv", b), filepath.Join(d, "out.flv")
		e := succeed(t, "conv", "--re", src, dst)
		same(t, dst, want, "conv --re")
		if e.took < last {
			t.Fatalf("conv --re takes %v for a stream of %v", e.took, last)
		}
		t.Nontrivial(b)
	})
}
