package c08

import (
	"bytes"
	"encoding/binary"
	"io"
	"net"
	"testing"
	"time"

	"github.com/nareix/joy5/format/flv/flvio"
	"github.com/nareix/joy5/format/rtmp"

	"joyverif/gen"
	"joyverif/ref"
	"joyverif/vt"
)

func TestMain(m *testing.M) { vt.Main(m) }

const wait = 60 * time.Second

func isEOF(err error) bool { return err == io.EOF || err == io.ErrUnexpectedEOF }

// table knows which packet a media message stands for: its type and bytes
// determine it, except for the time.
type table map[string]*gen.Pkt

func (tb table) put(typ byte, body []byte, p *gen.Pkt) { tb[string(typ)+string(body)] = p }

func (tb table) get(tag ref.FLVTag) *gen.Pkt {
	p := tb[string(tag.Type)+string(tag.Body)]
	if p == nil {
		return nil
	}
	c := *p
	c.P.Time = time.Duration(tag.Time) * time.Millisecond
	return &c
}

// draw draws one media tag that a message (or aggregate part) can carry.
func (tb table) draw(t *vt.T, big bool) (ref.FLVTag, *gen.Pkt) {
	tag, pkt := gen.RefTag(t, big, "tag")
	for tag.Type <= 6 || tag.Type == 20 || tag.Type == 17 || tag.Type == 22 {
		tag.Type += 100 // a type the protocol has no meaning for
	}
	tb.put(tag.Type, tag.Body, pkt)
	return tag, pkt
}

// drawMsgs draws the media messages, with times that let the short header
// forms occur.
func (tb table) drawMsgs(t *vt.T, nmax int) (msgs []ref.Msg, agg bool) {
	ncs := vt.Pick(t, "ncs", 1, 2, 2, 3, 3, 5, 12)
	seen := map[uint32]bool{}
	var ids []uint32
	for len(ids) < ncs {
		id := vt.Pick(t, "csid", uint32(3), 4, 5, 6, 7, 8, 10, 40, 62, 63, 64, 65, 66, 100, 128, 300, 318, 319, 320, 321, 383, 575, 576, 1000, 8255, 65598, 65599)
		if !seen[id] {
			seen[id] = true
			ids = append(ids, id)
		}
	}
	last := map[uint32]ref.Msg{}
	lastp := map[uint32]*gen.Pkt{}
	lastd := map[uint32]uint32{}
	n := t.Int(1, nmax, "n")
	for i := 0; i < n; i++ {
		id := ids[t.Int(0, len(ids)-1, "on")]
		p, has := last[id]
		m := ref.Msg{CSID: id, Stream: 1}
		var pkt *gen.Pkt
		switch {
		case t.OneIn(8, "agg"):
			m.Type = 22
			m.Time = gen.Ms32(t, "aggts")
			m.Data = tb.drawAgg(t)
			agg = true
		case has && p.Type != 22 && t.OneIn(3, "same"):
			// same type and length as the previous message on this stream
			m.Type, m.Time = p.Type, gen.Ms32(t, "ts")
			m.Data = append([]byte{}, p.Data...)
			if pkt = lastp[id]; pkt != nil && pkt.Meta == nil {
				c := *pkt
				k := len(m.Data) - len(c.P.Data)
				copy(m.Data[k:], vt.Fill(len(m.Data)-k, t.U64("again")))
				c.P.Data = m.Data[k:]
				pkt = &c
			}
			tb.put(m.Type, m.Data, pkt)
		default:
			var tag ref.FLVTag
			tag, pkt = tb.draw(t, t.OneIn(6, "big"))
			m.Type, m.Time, m.Data = tag.Type, tag.Time, tag.Body
		}
		if has {
			switch t.Int(0, 5, "dt") {
			case 0, 1:
				m.Time = p.Time + lastd[id]
			case 2:
				m.Time = p.Time + uint32(t.Int(0, 200, "d"))
			case 3:
				m.Time = p.Time + vt.Pick(t, "dx", uint32(0), 0xfffffe, 0xffffff, 0x1000000, 0x80000000, 0xfffffff0)
			}
			lastd[id] = m.Time - p.Time
			if t.OneIn(4, "otherstream") {
				m.Stream = uint32(t.Int(0, 3, "stream"))
			} else {
				m.Stream = p.Stream
			}
		}
		msgs = append(msgs, m)
		last[id], lastp[id] = m, pkt
	}
	return
}

// drawAgg draws the body of an aggregate message.
func (tb table) drawAgg(t *vt.T) (b []byte) {
	n := t.Int(1, 5, "aggn")
	var first uint32
	for i := 0; i < n; i++ {
		tag, _ := tb.draw(t, t.OneIn(10, "aggbig"))
		tag.Stream = uint32(t.Int(0, 1, "aggstream"))
		if i == 0 {
			first = tag.Time
		} else if t.Bool("aggmono") {
			tag.Time = first + uint32(t.Int(0, 1000, "aggdt"))
		}
		b = ref.AppendFLVTag(b, tag)
	}
	return
}

// between draws messages that do not carry media.
func between(t *vt.T, noSmall bool) *ref.Msg {
	m := &ref.Msg{CSID: 2}
	switch t.Int(0, 6, "ctl") {
	case 0, 1:
		m.Type = 1
		sz := vt.Pick(t, "csize", 1, 2, 3, 64, 127, 128, 129, 200, 4096, 5000, 65536, 1<<24, 0x7fffffff)
		if noSmall && sz < 64 {
			sz += 60
		}
		m.Data = binary.BigEndian.AppendUint32(nil, uint32(sz))
	case 2:
		m.Type = 3
		m.Data = binary.BigEndian.AppendUint32(nil, t.U32("ackn"))
	case 3:
		m.Type = 5
		m.Data = binary.BigEndian.AppendUint32(nil, vt.Pick(t, "was", uint32(0), 1, 100, 5000, 2500000, 0xffffffff))
	case 4:
		m.Type = 6
		m.Data = append(binary.BigEndian.AppendUint32(nil, t.U32("bw")), 2)
	case 5:
		m.Type = 4
		ev := vt.Pick(t, "ev", uint16(0), 1, 2, 3, 4, 6, 7, 31, 32)
		m.Data = binary.BigEndian.AppendUint16(nil, ev)
		m.Data = binary.BigEndian.AppendUint32(m.Data, t.U32("evd"))
		if ev == 3 {
			m.Data = binary.BigEndian.AppendUint32(m.Data, 100)
		}
	default:
		m.CSID = 3
		m.Type = 20
		m.Data = ref.AMF0Msg(vt.Pick(t, "cmd", "onFCPublish", "onBWDone", "ping"), 0.0, nil)
	}
	m.Time = uint32(t.Int(0, 3, "ctltime")) * 1000
	if m.CSID == 2 {
		m.Time = 0
	}
	return m
}

func TestChunking(t *testing.T) {
	vt.Check(t, 4000, 60000, func(t *vt.T) {
		tb := table{}
		msgs, agg := tb.drawMsgs(t, 10)
		raw := t.Bool("raw")
		frags := t.Frags("frag")
		publish := t.Bool("publish")
		total := 0
		for _, m := range msgs {
			total += len(m.Data)
		}
		var plan gen.ChunkPlan
		// the peer sends everything and is gone before any of it is read:
		// what is sent to it then (acknowledgements, ping responses) fails
		gone := t.OneIn(3, "gone")
		gate := make(chan bool)
		feed := func(p *ref.Peer, nc *vt.Conn) error {
			live := t.Bool("live")
			if gone {
				defer close(gate)
				if publish {
					if _, _, err := p.WaitCmd("onStatus"); err != nil {
						return err
					}
				}
				nc.RefuseAfterClose()
				defer nc.Close()
			}
			plan = gen.Interleave(t, p.Enc, msgs, func() *ref.Msg {
				m := between(t, total > 4000)
				if m.CSID == 3 && p.Enc.Busy(3) {
					return nil
				}
				return m
			}, func() {
				if live {
					nc.Write(p.Enc.Take())
				}
			})
			nc.Write(p.Enc.Take())
			return nil
		}
		var tags []flvio.Tag
		sink := &gen.Sink{}
		read := func(c *rtmp.Conn) {
			if gone {
				if sink.Err = c.Prepare(rtmp.StageCommandDone, rtmp.PrepareReading); sink.Err != nil {
					return
				}
				select {
				case <-gate:
				case <-time.After(wait):
				}
			}
			if !raw {
				sink.ReadAll(c)
				return
			}
			c.BypassMsgtypeid = nil
			for i := 0; i < 256; i++ {
				switch i {
				case 1, 2, 3, 4, 5, 6, 17, 20, 22:
				default:
					c.BypassMsgtypeid = append(c.BypassMsgtypeid, uint8(i))
				}
			}
			if sink.Err = c.Prepare(rtmp.StageCommandDone, rtmp.PrepareReading); sink.Err != nil {
				return
			}
			for {
				tag, err := c.ReadTag()
				if err != nil {
					sink.Err = err
					return
				}
				tags = append(tags, tag)
			}
		}
		var d *gen.Done
		var err error
		if publish {
			d, err = gen.RefPublisher(t, frags, func(c *rtmp.Conn, nc net.Conn) { read(c) }, feed)
		} else {
			d, err = gen.RefPlayed(t, frags, read, feed)
		}
		if s := d.Ended(wait); s != "" {
			t.Fatalf("%s", s)
		}
		if d.Err != nil || err != nil {
			t.Fatalf("session: %v %v", d.Err, err)
		}
		if !isEOF(sink.Err) {
			t.Fatalf("reading ended with %v; stream: %s", sink.Err, plan.Desc)
		}
		var ws []ref.FLVTag
		for _, m := range plan.Order {
			ws = append(ws, expect(m)...)
		}
		if raw {
			if len(tags) != len(ws) {
				t.Fatalf("%d tags delivered, want %d; stream: %s", len(tags), len(ws), plan.Desc)
			}
			for i, w := range ws {
				g := tags[i]
				if g.Type != w.Type || g.Time != w.Time || !bytes.Equal(g.Data, w.Body) {
					t.Fatalf("tag %d: type %d time %d body %d bytes (equal %v), want type %d time %d body %d; stream: %s", i,
						g.Type, g.Time, len(g.Data), bytes.Equal(g.Data, w.Body), w.Type, w.Time, len(w.Body), plan.Desc)
				}
			}
		} else {
			var ps []gen.Pkt
			for _, w := range ws {
				if p := tb.get(w); p != nil {
					ps = append(ps, *p)
				}
			}
			if len(sink.Pkts) != len(ps) {
				t.Fatalf("%d packets delivered, want %d; stream: %s", len(sink.Pkts), len(ps), plan.Desc)
			}
			for i := range ps {
				if s := gen.SamePkt(ps[i], sink.Pkts[i]); s != "" {
					t.Fatalf("packet %d: %s; stream: %s", i, s, plan.Desc)
				}
			}
		}
		for s := range plan.Stats {
			t.Label(s)
		}
		t.LabelIf(agg, "aggregate")
		t.LabelIf(gone, "peer gone before its messages are read")
		t.LabelIf(publish, "server reads")
		t.LabelIf(!publish, "client reads")
		if len(msgs) > 1 && (plan.Stats["multi-chunk message"] || agg || plan.Stats["message starts with type 3"]) {
			t.Nontrivial(publish, raw, plan.Desc)
		}
		t.Sample("%s", plan.Desc)
	})
}

// expect gives the tags a message stands for.
func expect(m ref.Msg) (ws []ref.FLVTag) {
	if m.Type != 22 {
		return []ref.FLVTag{{Type: m.Type, Time: m.Time, Body: m.Data}}
	}
	b := m.Data
	first := uint32(0)
	for i := 0; len(b) >= 15; i++ {
		n := int(b[1])<<16 | int(b[2])<<8 | int(b[3])
		tm := uint32(b[4])<<16 | uint32(b[5])<<8 | uint32(b[6]) | uint32(b[7])<<24
		if i == 0 {
			first = tm
		}
		ws = append(ws, ref.FLVTag{Type: b[0], Time: m.Time + tm - first, Body: b[11 : 11+n]})
		b = b[11+n+4:]
	}
	return
}
