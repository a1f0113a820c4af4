package c07

import (
	"encoding/binary"
	"io"
	"net"
	"sync"
	"testing"
	"time"

	"github.com/nareix/joy5/av"
	"github.com/nareix/joy5/format/rtmp"

	"joyverif/gen"
	"joyverif/vt"
)

func TestMain(m *testing.M) { vt.Main(m) }

const wait = 60 * time.Second

func isEOF(err error) bool { return err == io.EOF || err == io.ErrUnexpectedEOF }

// session establishes client and server; it gives the writing and the reading
// side and the writer's end of the pipe.
func run(t *vt.T, publish bool, ps []gen.Pkt, step func(i int) bool) {
	a, b := vt.NewPipe(t.Frags("cfrag"), t.Frags("sfrag"))
	sink := &gen.Sink{}
	var werr error
	var bad string
	// without steps: the writer is gone before the reader begins, and what
	// the reader sends from then on fails, as it does on a TCP connection
	gone := step == nil && t.Bool("gone")
	window := uint32(0)
	pings := map[int]bool{}
	if step == nil {
		step = func(int) bool { return false }
		if t.Bool("setwindow") {
			window = vt.Pick(t, "window", uint32(1), 100, 1024, 5000, 100000)
		}
		for i := range ps {
			if t.OneIn(6, "ping") {
				pings[i] = true
			}
		}
	}
	connected, gate := make(chan bool), make(chan bool)
	var once sync.Once
	ready := func() { once.Do(func() { close(connected) }) }
	await := func(c chan bool) {
		select {
		case <-c:
		case <-time.After(wait):
		}
	}
	write := func(w *rtmp.Conn, nc *vt.Conn) {
		defer close(gate)
		defer nc.Close()
		if gone {
			if werr = w.Prepare(rtmp.StageCommandDone, rtmp.PrepareWriting); werr != nil {
				return
			}
			await(connected)
			nc.RefuseAfterClose()
		}
		if window > 0 {
			if werr = w.WriteEvent(5, binary.BigEndian.AppendUint32(nil, window)); werr != nil {
				return
			}
		}
		for i, p := range ps {
			if pings[i] {
				if werr = w.WriteEvent(4, []byte{0, 6, 1, 2, 3, byte(i)}); werr != nil {
					return
				}
			}
			if werr = w.WritePacket(p.P); werr != nil {
				return
			}
			if step(i) {
				if !nc.PeerIdle(wait) {
					bad = "the receiver did not consume what was sent"
					return
				}
				if sink.N() != i+1 {
					bad = "after packet " + itoa(i) + " was written and everything sent was consumed, the receiver has " + itoa(sink.N()) + " packets"
					return
				}
			}
		}
	}
	read := func(c *rtmp.Conn) {
		if gone {
			defer ready()
			if sink.Err = c.Prepare(rtmp.StageCommandDone, rtmp.PrepareReading); sink.Err != nil {
				return
			}
			ready()
			await(gate)
		}
		sink.ReadAll(c)
	}
	var d *gen.Done
	if publish {
		d = gen.ServeRTMP(b, func(c *rtmp.Conn, nc net.Conn) {
			if !c.Publishing {
				bad = "server does not see a publisher"
			}
			read(c)
			b.Close()
		})
		c, err := gen.DialRTMP(a, "rtmp://host/app/stream", true)
		_ = c
		if err != nil {
			a.Close()
			d.Ended(wait)
			t.Fatalf("connect: %v", err)
		}
		write(c, a)
		a.Close()
	} else {
		d = gen.ServeRTMP(b, func(c *rtmp.Conn, nc net.Conn) {
			if c.Publishing {
				bad = "server does not see a player"
			}
			write(c, b)
			b.Close()
		})
		var cerr error
		cd := gen.Go(func() {
			var c *rtmp.Conn
			if c, cerr = gen.DialRTMP(a, "rtmp://host/app/stream", false); cerr == nil {
				read(c)
			}
			ready()
			a.Close()
		})
		if s := cd.Ended(wait); s != "" {
			t.Fatalf("client: %s", s)
		}
		if cerr != nil && len(ps) > 0 {
			t.Fatalf("connect: %v", cerr)
		}
		if cerr != nil {
			sink.Err = io.EOF
		}
	}
	if s := d.Ended(wait); s != "" {
		t.Fatalf("server: %s", s)
	}
	if bad != "" {
		t.Fatalf("%s; packets: %s", bad, gen.ShowPkts(ps))
	}
	if werr != nil {
		t.Fatalf("write: %v; packets: %s", werr, gen.ShowPkts(ps))
	}
	if !isEOF(sink.Err) {
		t.Fatalf("after the sender closed the receiver got error %v", sink.Err)
	}
	if len(sink.Pkts) != len(ps) {
		t.Fatalf("%d packets written, %d received: %s", len(ps), len(sink.Pkts), gen.ShowPkts(ps))
	}
	for i := range ps {
		if s := gen.SamePkt(ps[i], sink.Pkts[i]); s != "" {
			t.Fatalf("packet %d: %s; packets: %s", i, s, gen.ShowPkts(ps))
		}
	}
	t.LabelIf(gone, "writer gone before the reader begins")
	t.LabelIf(window > 0, "acknowledgements asked for")
	t.LabelIf(len(pings) > 0, "pings")
	t.LabelIf(publish, "publishing client")
	t.LabelIf(!publish, "playing client")
	types := map[int]bool{}
	for _, p := range ps {
		types[p.P.Type] = true
		if len(p.P.Data) > 65526 {
			t.Label("packet longer than a chunk")
		}
		if p.P.Time >= 0xffffff*time.Millisecond {
			t.Label("extended timestamp")
		}
	}
	if len(ps) > 1 && len(types) > 1 {
		t.Nontrivial(publish, gen.PktKey(ps))
	}
	t.Sample("publish=%v %s", publish, gen.ShowPkts(ps))
}

func itoa(i int) string {
	if i < 10 {
		return string(rune('0' + i))
	}
	return itoa(i/10) + itoa(i%10)
}

// Everything written arrives, with the stream closed right after the writes.
func TestTransfer(t *testing.T) {
	vt.Check(t, 2400, 40000, func(t *vt.T) {
		ps := gen.Packets(t, gen.PktOpts{Big: true, MaxPkts: 14}, "p")
		run(t, t.Bool("publish"), ps, nil)
	})
}

// Each packet arrives without a later one pushing it out.
func TestPrompt(t *testing.T) {
	vt.Check(t, 1200, 20000, func(t *vt.T) {
		ps := gen.Packets(t, gen.PktOpts{Big: t.OneIn(3, "big"), MaxPkts: 10}, "p")
		every := t.Int(1, 3, "every")
		run(t, t.Bool("publish"), ps, func(i int) bool { return i%every == 0 })
	})
}

// Packets close to the size limit of a message.
func TestHuge(t *testing.T) {
	vt.Check(t, 12, 150, func(t *vt.T) {
		var ps []gen.Pkt
		for i, n := 0, t.Int(1, 3, "n"); i < n; i++ {
			sz := t.Int(1<<20, 4<<20-16, "sz")
			p := gen.Pkt{P: av.Packet{Type: av.H264, Time: time.Duration(gen.Ms32(t, "ts")) * time.Millisecond, Data: t.Payload(sz, "d")}}
			if t.Bool("aac") {
				p.P.Type = av.AAC
			}
			ps = append(ps, p)
		}
		run(t, t.Bool("publish"), ps, nil)
	})
}
