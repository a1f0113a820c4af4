package gen

import (
	"fmt"
	"net"
	"strings"

	"github.com/nareix/joy5/format/rtmp"

	"joyverif/ref"
	"joyverif/vt"
)

// RefPublisher lets a reference client publish to a library server: feed runs
// after the publish command was sent and gives the bytes to send; then the
// connection is closed. It returns the problem of the reference side.
func RefPublisher(t *vt.T, frags []int, handle func(c *rtmp.Conn, nc net.Conn), feed func(p *ref.Peer, nc *vt.Conn) error) (d *Done, err error) {
	a, b := vt.NewPipe(nil, frags)
	d = ServeRTMP(b, func(c *rtmp.Conn, nc net.Conn) {
		handle(c, nc)
		nc.Close()
	})
	p := ref.NewPeer(a)
	defer a.Close()
	if _, _, err = p.ClientHandshake(make([]byte, 1536), false); err != nil {
		return d, fmt.Errorf("handshake: %v", err)
	}
	if err = p.ClientSession("app", "rtmp://host/app", "stream", true); err != nil {
		return d, fmt.Errorf("session: %v", err)
	}
	err = feed(p, a)
	return
}

// RefPlayed lets a library client play from a reference server; feed runs
// after the play command was accepted. handle gets the connected client.
func RefPlayed(t *vt.T, frags []int, handle func(c *rtmp.Conn), feed func(p *ref.Peer, nc *vt.Conn) error) (d *Done, err error) {
	a, b := vt.NewPipe(frags, nil)
	d = &Done{C: make(chan struct{})}
	go d.run(func() {
		var c *rtmp.Conn
		if c, d.Err = DialRTMP(a, "rtmp://host/app/stream", false); d.Err == nil {
			handle(c)
		}
		a.Close()
	})
	p := ref.NewPeer(b)
	err = func() (err error) {
		defer b.Close()
		if _, _, err = p.ServerHandshake(make([]byte, 1536), false); err != nil {
			return fmt.Errorf("handshake: %v", err)
		}
		if _, _, _, _, err = p.ServerSession(); err != nil {
			return fmt.Errorf("session: %v", err)
		}
		if err = p.Cmd(5, 1, "onStatus", 0.0, nil, Status1("NetStream.Play.Start")); err != nil {
			return
		}
		return feed(p, b)
	}()
	return
}

func Status1(code string) *ref.Obj { return ref.Status("status", code) }

// ChunkPlan encodes messages as a drawn legal chunk stream.
type ChunkPlan struct {
	Order []ref.Msg // in order of completion
	Stats map[string]bool
	Desc  string
}

// Interleave draws a legal chunking of the messages; messages on the same
// chunk stream keep their order. between may insert other messages on chunk
// stream 2.
func Interleave(t *vt.T, enc *ref.ChunkEnc, msgs []ref.Msg, between func() *ref.Msg, flush func()) (out ChunkPlan) {
	out.Stats = map[string]bool{}
	var desc strings.Builder
	var ids []uint32
	q := map[uint32][]ref.Msg{}
	for _, m := range msgs {
		if q[m.CSID] == nil {
			ids = append(ids, m.CSID)
		}
		q[m.CSID] = append(q[m.CSID], m)
	}
	cur := map[uint32]ref.Msg{}
	left := len(msgs)
	active := 0
	burst := 0
	var id uint32
	for left > 0 || active > 0 {
		if between != nil && t.OneIn(8, "between") {
			if m := between(); m != nil {
				if active > 0 {
					out.Stats["control message inside a message"] = true
				}
				fs := enc.Formats(*m)
				f := fs[t.Int(0, len(fs)-1, "cfmt")]
				done := enc.Start(*m, f, false)
				for !done {
					done = enc.Cont(m.CSID, false)
				}
				if m.Type == 1 {
					enc.Size = int(m.Data[0])<<24 | int(m.Data[1])<<16 | int(m.Data[2])<<8 | int(m.Data[3])
					out.Stats["chunk size changed"] = true
				}
				fmt.Fprintf(&desc, "ctl%d ", m.Type)
			}
		}
		if burst <= 0 || (!enc.Busy(id) && len(q[id]) == 0) {
			var can []uint32
			for _, i := range ids {
				if enc.Busy(i) || len(q[i]) > 0 {
					can = append(can, i)
				}
			}
			id = can[t.Int(0, len(can)-1, "csid")]
			burst = vt.Pick(t, "burst", 1, 1, 2, 4, 1000)
		}
		if between != nil && active > 0 && t.OneIn(25, "abort") {
			i := id
			if !enc.Busy(i) || t.OneIn(3, "abortany") {
				i = ids[t.Int(0, len(ids)-1, "abortid")]
			}
			busy := enc.Busy(i)
			enc.Abort(i)
			fmt.Fprintf(&desc, "abort%d ", i)
			if busy {
				out.Stats["message aborted"] = true
				active--
				burst = 0
				continue
			}
		}
		burst--
		long := id >= 64 && id <= 319 && t.OneIn(4, "long")
		var done bool
		if enc.Busy(id) {
			if active > 1 {
				out.Stats["interleaved messages"] = true
			}
			done = enc.Cont(id, long)
		} else {
			m := q[id][0]
			q[id] = q[id][1:]
			fs := enc.Formats(m)
			f := fs[len(fs)-1]
			if t.OneIn(3, "fmtany") {
				f = fs[t.Int(0, len(fs)-1, "fmt")]
			}
			cur[id] = m
			active++
			left--
			out.Stats[fmt.Sprintf("message starts with type %d", f)] = true
			fmt.Fprintf(&desc, "%v/f%d ", m, f)
			done = enc.Start(m, f, long)
			if !done {
				out.Stats["multi-chunk message"] = true
			}
		}
		switch {
		case id > 319 || long:
			out.Stats["3-byte basic header"] = true
		case id >= 64:
			out.Stats["2-byte basic header"] = true
		}
		if done {
			out.Order = append(out.Order, cur[id])
			active--
		}
		if flush != nil {
			flush()
		}
	}
	out.Desc = desc.String()
	return
}
