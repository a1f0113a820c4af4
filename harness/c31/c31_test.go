package c31

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"runtime/debug"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/nareix/joy5/av"
	"github.com/nareix/joy5/format/rtmp"

	"joyverif/gen"
	"joyverif/ref"
	"joyverif/vt"
)

func TestMain(m *testing.M) { vt.Main(m) }

// limit is what a client may take at most to give up.
const limit = time.Minute

// slow is a peer's end of a connection that takes its time to write: before
// the i-th piece it pauses, and after cut bytes it falls silent for ever.
type slow struct {
	*vt.Conn
	pauses []time.Duration // cyclic
	size   int             // of the pieces
	cut    int             // <0: never
	mu     sync.Mutex
	i      int
	n      int
	silent chan struct{}
	done   chan struct{}
	last   time.Time // of the last byte
}

func newSlow(c *vt.Conn, pauses []time.Duration, size, cut int) *slow {
	return &slow{Conn: c, pauses: pauses, size: size, cut: cut, silent: make(chan struct{}), done: make(chan struct{})}
}

var errSilent = errors.New("the peer is silent")

func (s *slow) Write(b []byte) (n int, err error) {
	for len(b) > 0 {
		k := min(len(b), s.size)
		if s.cut >= 0 {
			k = min(k, s.cut-s.n)
		}
		if k == 0 {
			s.mu.Lock()
			select {
			case <-s.silent:
			default:
				close(s.silent)
			}
			s.mu.Unlock()
			<-s.done
			return n, errSilent
		}
		time.Sleep(s.pauses[s.i%len(s.pauses)])
		s.i++
		if _, err = s.Conn.Write(b[:k]); err != nil {
			return
		}
		s.last = time.Now()
		s.n += k
		n += k
		b = b[k:]
	}
	return
}

func drawPauses(t *vt.T, limit time.Duration) (p []time.Duration) {
	n := t.Int(1, 4, "npauses")
	for i := 0; i < n; i++ {
		p = append(p, time.Duration(t.Int(0, 1000, "pause"))*limit/time.Duration(vt.Pick(t, "div", 1000, 10000, 100000)))
	}
	return
}

// bubble runs fn under a virtual clock; what it leaves running ends with it.
func bubble(tt *testing.T, fn func()) (bad string) {
	synctest.Test(tt, func(*testing.T) {
		ok := false
		defer func() {
			if !ok {
				bad = fmt.Sprintf("panic: %v\n%s", recover(), debug.Stack())
			}
		}()
		fn()
		ok = true
	})
	return
}

func pkt(i int) av.Packet {
	return av.Packet{Type: av.AAC, Data: []byte{byte(i), byte(i >> 8), 1, 2, 3}, Time: time.Duration(i) * time.Second}
}

func gaps(t *vt.T) (g []time.Duration) {
	n := t.Int(1, 5, "packets")
	for i := 0; i < n; i++ {
		g = append(g, time.Duration(t.Int(0, 1000, "gap"))*vt.Pick(t, "unit", time.Millisecond, 100*time.Millisecond, time.Minute, time.Hour))
	}
	return
}

func total(g []time.Duration) (s time.Duration) {
	for _, x := range g {
		s += x
	}
	return
}

// A server with a slow or silent peer.
func TestServer(tt *testing.T) {
	vt.Check(tt, 400, 4000, func(t *vt.T) {
		s := rtmp.NewServer()
		timeout := s.HandshakeTimeout
		if !t.OneIn(4, "default") {
			timeout = time.Duration(t.Int(1, 1000, "timeout")) * vt.Pick(t, "tunit", time.Millisecond, 20*time.Millisecond, time.Second, time.Minute)
			s.HandshakeTimeout = timeout
		}
		pub := t.Bool("pub")
		pauses := drawPauses(t, timeout)
		size := vt.Pick(t, "size", 1, 100, 1000, 10000)
		cut := -1
		if t.OneIn(3, "cut") {
			cut = t.Int(0, 1536*2+100, "at")
		}
		gs := gaps(t)
		var took, ended time.Duration // for the requests, for the server to end
		var lastAt time.Duration
		handled, returned := int32(0), false
		var perr, herr error
		var hsFailed, connected int
		var got []av.Packet
		bad := bubble(tt, func() {
			a, b := vt.NewPipe(nil, nil)
			start := time.Now()
			sl := newSlow(a, pauses, size, cut)
			s.LogEvent = func(c *rtmp.Conn, nc net.Conn, e int) {
				switch e {
				case rtmp.EventHandshakeFailed:
					hsFailed++
				case rtmp.EventConnConnected:
					connected++
				}
			}
			s.HandleConn = func(c *rtmp.Conn, nc net.Conn) {
				took = time.Since(start)
				atomic.AddInt32(&handled, 1)
				defer nc.Close()
				if pub {
					for range gs {
						var p av.Packet
						if p, herr = c.ReadPacket(); herr != nil {
							return
						}
						got = append(got, p)
					}
				} else {
					for i, g := range gs {
						time.Sleep(g)
						if herr = c.WritePacket(pkt(i)); herr != nil {
							return
						}
					}
					io.Copy(io.Discard, nc) // until the peer has enough
				}
			}
			d := gen.Go(func() {
				s.HandleNetConn(b)
				ended = time.Since(start)
				returned = true
				b.Close()
			})
			p := ref.NewPeer(sl)
			peer := gen.Go(func() {
				defer a.Close()
				perr = func() (err error) {
					if _, _, err = p.ClientHandshake(make([]byte, 1536), false); err != nil {
						return
					}
					if err = p.ClientSession("app", "rtmp://host/app", "stream", pub); err != nil {
						return
					}
					if pub {
						if _, _, err = p.WaitCmd("onStatus"); err != nil {
							return
						}
						sl.pauses, sl.cut = []time.Duration{0}, -1
						for i, g := range gs {
							time.Sleep(g)
							x := pkt(i)
							if err = p.Send(ref.Msg{CSID: 4, Type: 8, Stream: 1, Time: uint32(x.Time.Milliseconds()), Data: append([]byte{0xaf, 1}, x.Data...)}); err != nil {
								return
							}
						}
					} else {
						for len(got) < len(gs) {
							var m ref.Msg
							if m, err = p.Next(); err != nil {
								return
							}
							if m.Type == 8 && len(m.Data) > 2 {
								got = append(got, av.Packet{Type: av.AAC, Data: m.Data[2:], Time: time.Duration(m.Time) * time.Millisecond})
							}
						}
					}
					return
				}()
			})
			select {
			case <-d.C:
			case <-time.After(timeout + total(gs) + 100*time.Hour):
			}
			lastAt = sl.last.Sub(start)
			close(sl.done)
			a.Close()
			b.Close()
			<-d.C
			<-peer.C
			if d.Panic != "" {
				panic(d.Panic)
			}
			if peer.Panic != "" {
				panic(peer.Panic)
			}
		})
		desc := fmt.Sprintf("timeout %v pauses %v size %d cut %d gaps %v: handled %d after %v, ended after %v, peer's last byte at %v, %v, server's media: %v", timeout, pauses, size, cut, gs, handled, took, ended, lastAt, perr, herr)
		if bad != "" {
			t.Fatalf("%s: %s", desc, bad)
		}
		if !returned || connected != 1 {
			t.Fatalf("%s: the server never ended (connected %d)", desc, connected)
		}
		if handled == 0 {
			if hsFailed != 1 {
				t.Fatalf("%s: %d failures reported", desc, hsFailed)
			}
			if ended > timeout {
				t.Fatalf("%s: given up too late", desc)
			}
			if ended < timeout {
				t.Fatalf("%s: given up too early", desc)
			}
			t.LabelIf(cut >= 0, "silent")
			t.LabelIf(cut < 0, "too slow")
		} else {
			if took > timeout {
				t.Fatalf("%s: accepted after the timeout", desc)
			}
			if hsFailed != 0 {
				t.Fatalf("%s: failure reported", desc)
			}
			if perr != nil || herr != nil || len(got) != len(gs) {
				t.Fatalf("%s: %d packets", desc, len(got))
			}
			for i := range got {
				if w := pkt(i); string(w.Data) != string(got[i].Data) || w.Time != got[i].Time {
					t.Fatalf("%s: packet %d is %v", desc, i, got[i])
				}
			}
			t.Label("session")
			t.LabelIf(total(gs) > time.Minute, "long session")
		}
		t.Nontrivial(fmt.Sprint(timeout, pauses, size, cut, gs, pub))
		t.Sample("%s", desc)
	})
}

// A client with a slow or silent server.
func TestClient(tt *testing.T) {
	vt.Check(tt, 400, 4000, func(t *vt.T) {
		pub := t.Bool("pub")
		pauses := drawPauses(t, vt.Pick(t, "slowness", time.Second, 10*time.Second, time.Minute))
		size := vt.Pick(t, "size", 1, 100, 1000, 10000)
		cut := -1
		if t.OneIn(3, "cut") {
			cut = t.Int(0, 1536*2+100, "at")
		}
		gs := gaps(t)
		noDial := t.OneIn(8, "nodial")
		var took, lastAt time.Duration
		var cerr, perr, merr error
		accepted := false
		var got []av.Packet
		bad := bubble(tt, func() {
			a, b := vt.NewPipe(nil, nil)
			start := time.Now()
			sl := newSlow(b, pauses, size, cut)
			peer := gen.Go(func() {
				defer b.Close()
				p := ref.NewPeer(sl)
				perr = func() (err error) {
					if _, _, err = p.ServerHandshake(make([]byte, 1536), false); err != nil {
						return
					}
					if _, _, _, _, err = p.ServerSession(); err != nil {
						return
					}
					if err = p.Cmd(5, 1, "onStatus", 0.0, nil, ref.Status("status", "NetStream.Start")); err != nil {
						return
					}
					accepted = true
					lastAt = time.Since(start)
					sl.pauses, sl.cut = []time.Duration{0}, -1
					if !pub {
						for i, g := range gs {
							time.Sleep(g)
							x := pkt(i)
							if err = p.Send(ref.Msg{CSID: 4, Type: 8, Stream: 1, Time: uint32(x.Time.Milliseconds()), Data: append([]byte{0xaf, 1}, x.Data...)}); err != nil {
								return
							}
						}
					} else {
						for len(got) < len(gs) {
							var m ref.Msg
							if m, err = p.Next(); err != nil {
								return
							}
							if m.Type == 8 && len(m.Data) > 2 {
								got = append(got, av.Packet{Type: av.AAC, Data: m.Data[2:], Time: time.Duration(m.Time) * time.Millisecond})
							}
						}
					}
					return
				}()
			})
			d := gen.Go(func() {
				fl := rtmp.PrepareReading
				if pub {
					fl = rtmp.PrepareWriting
				}
				cl := rtmp.NewClient()
				cl.NewDialFunc = func() func(ctx context.Context, network, address string) (net.Conn, error) {
					return func(ctx context.Context, network, address string) (net.Conn, error) {
						if noDial {
							select {
							case <-ctx.Done():
								return nil, ctx.Err()
							case <-sl.done:
								return nil, errSilent
							}
						}
						return a, nil
					}
				}
				var c *rtmp.Conn
				if c, _, cerr = cl.Dial("rtmp://host/app/stream", fl); cerr != nil {
					took = time.Since(start)
					return
				}
				took = time.Since(start)
				if pub {
					for i, g := range gs {
						time.Sleep(g)
						if merr = c.WritePacket(pkt(i)); merr != nil {
							return
						}
					}
				} else {
					for range gs {
						var p av.Packet
						if p, merr = c.ReadPacket(); merr != nil {
							return
						}
						got = append(got, p)
					}
				}
			})
			select {
			case <-d.C:
			case <-time.After(total(gs) + 100*time.Hour):
				took = 99 * time.Hour
				cerr = errors.New("never")
			}
			select {
			case <-peer.C:
			case <-time.After(time.Second):
			}
			close(sl.done)
			a.Close()
			b.Close()
			<-d.C
			<-peer.C
			if d.Panic != "" {
				panic(d.Panic)
			}
			if peer.Panic != "" {
				panic(peer.Panic)
			}
			time.Sleep(time.Minute) // for what the dialling left behind
		})
		desc := fmt.Sprintf("publish %v pauses %v size %d cut %d dial %v gaps %v: connecting took %v: %v, accepted %v at %v, %v; client's media: %v", pub, pauses, size, cut, !noDial, gs, took, cerr, accepted, lastAt, perr, merr)
		if bad != "" {
			t.Fatalf("%s: %s", desc, bad)
		}
		if cerr != nil {
			if took > limit {
				t.Fatalf("%s: given up too late", desc)
			}
			if accepted && lastAt < 5*time.Second {
				t.Fatalf("%s: given up too early", desc)
			}
			t.LabelIf(cut >= 0, "silent")
			t.LabelIf(noDial, "no connection")
			t.LabelIf(cut < 0 && !noDial, "too slow")
		} else {
			if !accepted || took > limit {
				t.Fatalf("%s", desc)
			}
			if perr != nil || merr != nil || len(got) != len(gs) {
				t.Fatalf("%s: %d packets", desc, len(got))
			}
			for i := range got {
				if w := pkt(i); string(w.Data) != string(got[i].Data) || w.Time != got[i].Time {
					t.Fatalf("%s: packet %d is %v", desc, i, got[i])
				}
			}
			t.Label("session")
			t.LabelIf(total(gs) > time.Minute, "long session")
		}
		t.Nontrivial(fmt.Sprint(pauses, size, cut, gs, pub, noDial))
		t.Sample("%s", desc)
	})
}
