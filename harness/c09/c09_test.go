package c09

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"testing"
	"time"

	"github.com/nareix/joy5/av"
	"github.com/nareix/joy5/format/flv/flvio"
	"github.com/nareix/joy5/format/rtmp"

	"joyverif/gen"
	"joyverif/ref"
	"joyverif/vt"
)

func TestMain(m *testing.M) { vt.Main(m) }

const wait = 60 * time.Second

// size draws a payload length around multiples of a chunk size.
func size(t *vt.T, chunk int) int {
	if t.OneIn(3, "anysize") {
		return gen.Size(t, chunk > 1000, "sz")
	}
	n := chunk*t.Int(0, 3, "mult") + t.Int(-20, 20, "near")
	if n < 0 {
		n = -n
	}
	return n
}

func isMedia(m ref.Msg) bool { return m.Type == 8 || m.Type == 9 || m.Type == 15 || m.Type == 18 }

// A complete session writes to a reference peer.
func TestSession(t *testing.T) {
	vt.Check(t, 4000, 60000, func(t *vt.T) {
		ps := gen.Packets(t, gen.PktOpts{MaxPkts: 10}, "p")
		for i := range ps {
			if ps[i].Meta == nil && t.OneIn(3, "resize") {
				ps[i].P.Data = t.Payload(size(t, 65536), "d")
			}
		}
		publish := t.Bool("publish")
		sampleAccess := t.Bool("sa")
		// the chunk sizes the peer sets are for what it writes itself
		peerSize := 0
		if t.Bool("peerset") {
			peerSize = vt.Pick(t, "peersize", 1, 64, 127, 200, 4096, 65535, 65537, 70000, 100000, 1<<20, 1<<24)
		}
		a, b := vt.NewPipe(t.Frags("af"), t.Frags("bf"))
		var got []ref.Msg
		var derr, werr, perr error
		write := func(w av.PacketWriter) {
			for _, p := range ps {
				if werr = w.WritePacket(p.P); werr != nil {
					return
				}
			}
		}
		var p *ref.Peer
		var d *gen.Done
		setSize := func() error {
			if peerSize == 0 {
				return nil
			}
			err := p.Send(ref.Msg{CSID: 2, Type: 1, Data: binary.BigEndian.AppendUint32(nil, uint32(peerSize))})
			p.Enc.Size = peerSize
			return err
		}
		late := t.Bool("late") // before the session, or in it
		drain := func() {
			for {
				if _, derr = p.Next(); derr != nil {
					break
				}
			}
			got = p.Got
		}
		if publish {
			p = ref.NewPeer(b)
			d = gen.Go(func() {
				defer b.Close()
				if _, _, perr = p.ServerHandshake(make([]byte, 1536), false); perr != nil {
					return
				}
				if !late {
					if perr = setSize(); perr != nil {
						return
					}
				}
				if _, _, _, _, perr = p.ServerSession(); perr != nil {
					return
				}
				if late {
					if perr = setSize(); perr != nil {
						return
					}
				}
				if perr = p.Cmd(5, 1, "onStatus", 0.0, nil, ref.Status("status", "NetStream.Publish.Start")); perr != nil {
					return
				}
				drain()
			})
			c, err := gen.DialRTMP(a, "rtmp://host/app/stream", true)
			if err == nil {
				write(c)
			}
			a.Close()
			if err != nil {
				t.Fatalf("connect: %v", err)
			}
		} else {
			p = ref.NewPeer(a)
			d = gen.ServeRTMP(b, func(c *rtmp.Conn, nc net.Conn) {
				c.SendSampleAccess = sampleAccess
				write(c)
				nc.Close()
			})
			if _, _, perr = p.ClientHandshake(make([]byte, 1536), false); perr == nil {
				if perr = setSize(); perr != nil {
					t.Fatalf("set chunk size: %v", perr)
				}
				if perr = p.ClientSession("app", "rtmp://host/app", "stream", false); perr == nil {
					drain()
				}
			}
			a.Close()
		}
		if s := d.Ended(wait); s != "" {
			t.Fatalf("%s", s)
		}
		if perr != nil {
			t.Fatalf("session with a reference peer: %v", perr)
		}
		if werr != nil {
			t.Fatalf("write: %v", werr)
		}
		if derr != io.EOF {
			t.Fatalf("strict decoder: %v; %s", derr, gen.ShowPkts(ps))
		}
		checkMedia(t, got, ps, publish, sampleAccess)
		chunks := false
		for _, p := range ps {
			if len(p.P.Data) > 65000 {
				chunks = true
			}
		}
		t.LabelIf(chunks, "message around or above the announced chunk size")
		t.LabelIf(peerSize > 0, "peer set its chunk size")
		t.LabelIf(publish, "client writes")
		t.LabelIf(!publish, "server writes")
		if len(ps) > 1 {
			t.Nontrivial(publish, gen.PktKey(ps))
		}
		t.Sample("publish=%v %s", publish, gen.ShowPkts(ps))
	})
}

func checkMedia(t *vt.T, got []ref.Msg, ps []gen.Pkt, publish, sa bool) {
	i := 0
	for _, m := range got {
		if !isMedia(m) {
			if m.Type == 20 {
				if _, err := ref.ParseAMF0All(m.Data); err != nil {
					t.Fatalf("command %v does not decode: %v", m, err)
				}
			}
			continue
		}
		if sa && m.Type == 18 {
			if v, err := ref.ParseAMF0All(m.Data); err == nil && len(v) > 0 && v[0] == "|RtmpSampleAccess" {
				continue
			}
		}
		if i >= len(ps) {
			t.Fatalf("media message %v beyond the %d packets written", m, len(ps))
		}
		if m.Stream != 1 {
			t.Fatalf("media message %v not on the created message stream", m)
		}
		tag := ref.FLVTag{Type: m.Type, Time: m.Time, Body: m.Data}
		if s := gen.TagMatches(ps[i], tag, publish); s != "" {
			t.Fatalf("message %d: %s; %s", i, s, gen.ShowPkts(ps))
		}
		i++
	}
	if i != len(ps) {
		t.Fatalf("%d packets written, %d media messages: %s", len(ps), i, gen.ShowPkts(ps))
	}
}

type rw struct {
	bytes.Buffer
}

func (*rw) Flush() error { return nil }

// Tags and events written on a bare connection, at the default chunk size.
func TestBareConn(t *testing.T) {
	vt.Check(t, 8000, 150000, func(t *vt.T) {
		var w rw
		c := rtmp.NewConn(&w)
		n := t.Int(1, 8, "n")
		type exp struct {
			m    ref.Msg
			desc string
		}
		var want []exp
		key := ""
		multi := false
		for i := 0; i < n; i++ {
			if t.OneIn(6, "event") {
				typ := vt.Pick(t, "evt", byte(3), 4, 5, 6, 2)
				d := t.Payload(vt.Pick(t, "evl", 0, 4, 5, 6, 10, 127, 128, 129, 300), "evd")
				keep := append([]byte{}, d...)
				if err := c.WriteEvent(typ, d); err != nil {
					t.Fatalf("event: %v", err)
				}
				want = append(want, exp{ref.Msg{Type: typ, Data: keep}, fmt.Sprintf("event %d len %d", typ, len(d))})
				key += fmt.Sprint("e", typ, len(d))
				continue
			}
			tag := flvio.Tag{Time: gen.Ms32(t, "ts"), Data: t.Payload(size(t, 128), "d")}
			var hdr []byte
			switch t.Int(0, 4, "kind") {
			case 0:
				tag.Type = flvio.TAG_VIDEO
				tag.FrameType = byte(t.Int(1, 2, "ft"))
				tag.VideoFormat = flvio.VIDEO_H264
				tag.AVCPacketType = byte(t.Int(0, 1, "pt"))
				tag.CTime = int32(gen.CTimeMs(t, "ct"))
				ct := uint32(tag.CTime)
				hdr = []byte{tag.FrameType<<4 | 7, tag.AVCPacketType, byte(ct >> 16), byte(ct >> 8), byte(ct)}
			case 1:
				tag.Type = flvio.TAG_AUDIO
				tag.SoundFormat = flvio.SOUND_AAC
				tag.SoundRate, tag.SoundSize, tag.SoundType = 3, 1, 1
				tag.AACPacketType = byte(t.Int(0, 1, "pt"))
				hdr = []byte{0xaf, tag.AACPacketType}
			case 2:
				tag.Type = flvio.TAG_AUDIO
				tag.SoundFormat = flvio.SOUND_MP3
				tag.SoundRate, tag.SoundSize, tag.SoundType = byte(t.Int(0, 3, "sr")), byte(t.Int(0, 1, "ss")), byte(t.Int(0, 1, "st"))
				hdr = []byte{2<<4 | tag.SoundRate<<2 | tag.SoundSize<<1 | tag.SoundType}
			case 3:
				tag.Type = vt.Pick(t, "amf", byte(15), 18)
			default:
				tag.Type = vt.Pick(t, "other", byte(7), 10, 16, 19, 22, 255)
			}
			if err := c.WriteTag(tag); err != nil {
				t.Fatalf("tag: %v", err)
			}
			body := append(append([]byte{}, hdr...), tag.Data...)
			multi = multi || len(body) > 128
			want = append(want, exp{ref.Msg{Type: tag.Type, Time: tag.Time, Data: body}, fmt.Sprintf("tag %d time %d len %d", tag.Type, tag.Time, len(body))})
			key += fmt.Sprintf("t%d,%d,%d;", tag.Type, tag.Time, len(body))
		}
		d := ref.NewChunkDec(&w)
		for i, x := range want {
			m, err := d.Next()
			if err != nil {
				t.Fatalf("message %d (%s): strict decoder: %v", i, x.desc, err)
			}
			if m.Type != x.m.Type || m.Time != x.m.Time || !bytes.Equal(m.Data, x.m.Data) {
				t.Fatalf("message %d (%s): decoded %v, payload equal %v", i, x.desc, m, bytes.Equal(m.Data, x.m.Data))
			}
		}
		if m, err := d.Next(); err != io.EOF {
			t.Fatalf("after all messages: %v %v", m, err)
		}
		t.LabelIf(multi, "multi-chunk")
		if multi {
			t.Nontrivial(key)
		}
		t.Sample("%s", key)
	})
}

// An announced chunk size is written as a legal control message.
func TestAnnounce(t *testing.T) {
	vt.Check(t, 1000, 10000, func(t *vt.T) {
		c := rtmp.NewConn(&rw{})
		sz := vt.Pick(t, "k", t.Int(1, 1<<16, "sz"), 1, 128, 65536, 1<<24, 0x7fffffff)
		var out []byte
		if err := c.WriteSetChunkSize(sz, func(b []byte) error { out = append(out, b...); return nil }); err != nil {
			t.Fatal(err)
		}
		m, err := ref.NewChunkDec(bytes.NewReader(out)).Next()
		if err != nil || m.Type != 1 || binary.BigEndian.Uint32(m.Data) != uint32(sz) {
			t.Fatalf("announcing %d: %v %v", sz, m, err)
		}
		t.Nontrivial(sz)
	})
}

var huge = make([]byte, 1<<25)

// What the 24-bit message length cannot tell is refused, and the stream of
// chunks goes on as if it had not been written.
func TestSizeLimit(t *testing.T) {
	vt.Check(t, 16, 150, func(t *vt.T) {
		video := t.Bool("video")
		head, typ := 2, av.AAC
		if video {
			head, typ = 5, av.H264
		}
		n := 0xffffff - head + t.Int(-2, 3, "near")
		if t.OneIn(3, "far") {
			n = vt.Pick(t, "size", 1<<24, 1<<24+1, 1<<24+100, 1<<25)
		}
		data := huge[:n]
		for i := 0; i < 8; i++ {
			data[t.Int(0, n-1, "pos")] = byte(t.Int(0, 255, "byte"))
		}
		fits := n+head <= 0xffffff
		first := t.Bool("first")
		small := av.Packet{Type: av.AAC, Data: []byte{1, 2, 3}}
		a, b := vt.NewPipe(nil, nil)
		p := ref.NewPeer(b)
		var perr, derr error
		d := gen.Go(func() {
			defer b.Close()
			if _, _, perr = p.ServerHandshake(make([]byte, 1536), false); perr != nil {
				return
			}
			if _, _, _, _, perr = p.ServerSession(); perr != nil {
				return
			}
			if perr = p.Cmd(5, 1, "onStatus", 0.0, nil, ref.Status("status", "NetStream.Publish.Start")); perr != nil {
				return
			}
			for derr == nil {
				_, derr = p.Next()
			}
		})
		c, err := gen.DialRTMP(a, "rtmp://host/app/stream", true)
		if err != nil {
			t.Fatalf("connect: %v", err)
		}
		var want []av.Packet
		if first {
			if err := c.WritePacket(small); err != nil {
				t.Fatalf("first: %v", err)
			}
			want = append(want, small)
		}
		err = c.WritePacket(av.Packet{Type: typ, Data: data})
		if fits != (err == nil) {
			t.Fatalf("payload of %d bytes: error %v", n, err)
		}
		if fits {
			want = append(want, av.Packet{Type: typ, Data: data})
		}
		if err := c.WritePacket(small); err != nil {
			t.Fatalf("last: %v", err)
		}
		want = append(want, small)
		a.Close()
		if s := d.Ended(wait); s != "" {
			t.Fatalf("%s", s)
		}
		if perr != nil {
			t.Fatalf("session with a reference peer: %v", perr)
		}
		if derr != io.EOF {
			t.Fatalf("payload of %d bytes: strict decoder: %v", n, derr)
		}
		i := 0
		for _, m := range p.Got {
			if m.Type != 8 && m.Type != 9 {
				continue
			}
			if i >= len(want) {
				t.Fatalf("payload of %d bytes: more than %d media messages", n, len(want))
			}
			h := 2
			if want[i].Type == av.H264 {
				h = 5
			}
			if len(m.Data) < h || !bytes.Equal(m.Data[h:], want[i].Data) {
				t.Fatalf("payload of %d bytes: media message %d of %d bytes differs", n, i, len(m.Data))
			}
			i++
		}
		if i != len(want) {
			t.Fatalf("payload of %d bytes: %d media messages of %d", n, i, len(want))
		}
		t.LabelIf(fits, "just fits")
		t.LabelIf(!fits, "too large")
		t.Nontrivial(n, video, first)
	})
}
