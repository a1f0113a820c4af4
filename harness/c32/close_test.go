package c32

import (
	"fmt"
	"net"
	"net/url"
	"runtime/debug"
	"testing"
	"testing/synctest"
	"time"

	"github.com/nareix/joy5/av"
	"github.com/nareix/joy5/format/rtmp"

	"joyverif/gen"
	"joyverif/ref"
	"joyverif/vt"
)

// A writing endpoint learns that its peer has gone, when it has and not
// before, and nothing is left running.
func TestCloseNotify(tt *testing.T) {
	vt.Check(tt, 1500, 30000, func(t *vt.T) {
		server := t.Bool("server")
		type step struct {
			kind  int
			pause time.Duration
			data  []byte
			much  int
		}
		var steps []step
		for n := t.Int(0, 6, "steps"); n > 0; n-- {
			steps = append(steps, step{t.Int(0, 3, "kind"), vt.Pick(t, "pause", 0, time.Millisecond, time.Second, 20*time.Second, time.Hour), t.RawBytes(60, "junk"), vt.Pick(t, "much", 0, 0, 0, 5000, 1<<16, 200_000, 3<<20)})
		}
		how := t.Int(0, 2, "how")
		listen := t.OneIn(3, "listen") // someone already waits
		ignore := t.OneIn(4, "ignore") // nobody ever looks
		desc := fmt.Sprintf("server %v steps %v end %d waiting %v ignored %v", server, steps, how, listen, ignore)
		bad := ""
		fail := func(f string, a ...interface{}) {
			if bad == "" {
				bad = fmt.Sprintf(f, a...)
			}
		}
		synctest.Test(tt, func(*testing.T) {
			ok := false
			defer func() {
				if !ok {
					bad = fmt.Sprintf("panic: %v\n%s", recover(), debug.Stack())
				}
			}()
			a, b := vt.NewPipe(nil, nil) // b is the library's
			peer := make(chan *ref.Peer, 1)
			pd := gen.Go(func() {
				p := ref.NewPeer(a)
				var err error
				if server {
					if _, _, err = p.ClientHandshake(make([]byte, 1536), false); err == nil {
						err = p.ClientSession("app", "rtmp://host/app", "stream", false)
					}
				} else {
					if _, _, err = p.ServerHandshake(make([]byte, 1536), false); err == nil {
						if _, _, _, _, err = p.ServerSession(); err == nil {
							err = p.Cmd(5, 1, "onStatus", 0.0, nil, ref.Status("status", "NetStream.Publish.Start"))
						}
					}
				}
				if err != nil {
					fail("set-up: %v", err)
				}
				peer <- p
			})
			conn := make(chan *rtmp.Conn, 1)
			done := make(chan struct{})
			ld := gen.Go(func() {
				if server {
					s := rtmp.NewServer()
					s.HandleConn = func(c *rtmp.Conn, nc net.Conn) {
						conn <- c
						<-done
						nc.Close()
					}
					s.HandleNetConn(b)
				} else {
					u, _ := url.Parse("rtmp://host/app/stream")
					c, err := rtmp.NewClient().FromNetConn(b, u, rtmp.PrepareWriting)
					if err != nil {
						fail("set-up: %v", err)
						a.Close()
						b.Close()
						conn <- nil
						return
					}
					conn <- c
					<-done
					b.Close()
				}
			})
			p := <-peer
			c := <-conn
			if bad == "" {
				noticed := make(chan bool, 1)
				if listen {
					go func() { noticed <- <-c.CloseNotify() }()
				}
				early := func() bool {
					synctest.Wait()
					select {
					case <-noticed:
						return true
					default:
					}
					if listen || ignore {
						return false
					}
					select {
					case <-c.CloseNotify():
						return true
					default:
						return false
					}
				}
				for i, s := range steps {
					time.Sleep(s.pause)
					switch s.kind {
					case 0:
						if err := c.WritePacket(av.Packet{Type: av.AAC, Data: []byte{1, 2, byte(i)}, Time: time.Duration(i) * time.Second}); err != nil {
							fail("step %d: writing: %v", i, err)
						}
					case 1:
						p.Send(ref.Msg{CSID: 2, Type: 3, Data: []byte{0, 0, 0, byte(i)}})
					case 2:
						a.Write(s.data)
						a.Write(make([]byte, s.much))
					case 3:
						p.Send(ref.Msg{CSID: 8, Type: 20, Stream: 1, Data: ref.AMF0Msg("receiveAudio", 0.0, nil, true)})
					}
					if early() {
						fail("step %d: told that the peer has gone", i)
					}
				}
				if early() {
					fail("told that the peer has gone")
				}
				switch how {
				case 0:
					a.Close()
				case 1:
					a.CloseWrite()
				case 2: // (the last bytes come with the end)
					a.Write([]byte{1, 2, 3})
					a.Close()
				}
				synctest.Wait()
				if !ignore {
					got := false
					if listen {
						select {
						case got = <-noticed:
						default:
						}
					} else {
						select {
						case got = <-c.CloseNotify():
						default:
						}
					}
					if !got {
						fail("not told that the peer has gone")
					}
				}
			}
			close(done)
			a.Close()
			<-ld.C
			<-pd.C
			// (a goroutine of the library that never ends makes synctest fail)
			if bad == "" && ld.Panic+pd.Panic != "" {
				bad = ld.Panic + pd.Panic
			}
			if listen && bad != "" {
				b.Close()
			}
			ok = true
		})
		if bad != "" {
			t.Fatalf("%s: %s", desc, bad)
		}
		t.Nontrivial(desc)
		t.Sample("%s", desc)
	})
}
