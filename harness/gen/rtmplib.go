package gen

import (
	"fmt"
	"net"
	"net/url"
	"runtime/debug"
	"sync/atomic"
	"time"

	"github.com/nareix/joy5/av"
	"github.com/nareix/joy5/format/rtmp"

	"joyverif/ref"
	"joyverif/vt"
)

// Done is closed when a goroutine of the case ended; Panic holds its panic.
type Done struct {
	C       chan struct{}
	Panic   string
	Handled int32 // the handler was entered
	Err     error // what the goroutine met, once it ended
}

// Ended waits for the end; it reports "" or what went wrong.
func (d *Done) Ended(wait time.Duration) string {
	select {
	case <-d.C:
	case <-time.After(wait):
		buf := make([]byte, 1<<16)
		return "still running: " + string(buf[:stack(buf)])
	}
	if d.Panic != "" {
		return "panic: " + d.Panic
	}
	return ""
}

// Go runs fn in a goroutine whose panics are kept.
func Go(fn func()) *Done {
	d := &Done{C: make(chan struct{})}
	go d.run(fn)
	return d
}

func (d *Done) run(fn func()) {
	defer close(d.C)
	ok := false
	defer func() {
		if !ok {
			d.Panic = fmt.Sprintf("%v\n%s", recover(), debug.Stack())
		}
	}()
	fn()
	ok = true
}

// ServeRTMP runs one library server session on nc.
func ServeRTMP(nc net.Conn, handle func(c *rtmp.Conn, nc net.Conn)) *Done {
	d := &Done{C: make(chan struct{})}
	s := rtmp.NewServer()
	s.HandleConn = func(c *rtmp.Conn, nc net.Conn) {
		atomic.AddInt32(&d.Handled, 1)
		handle(c, nc)
	}
	go d.run(func() { s.HandleNetConn(nc) })
	return d
}

func DialRTMP(nc net.Conn, u string, publish bool) (*rtmp.Conn, error) {
	pu, err := url.Parse(u)
	if err != nil {
		vt.Infra("url %q: %v", u, err)
	}
	fl := rtmp.PrepareReading
	if publish {
		fl = rtmp.PrepareWriting
	}
	return rtmp.NewClient().FromNetConn(nc, pu, fl)
}

// Sink collects packets read in another goroutine.
type Sink struct {
	Pkts []av.Packet
	Err  error
	n    int32
}

func (s *Sink) N() int { return int(atomic.LoadInt32(&s.n)) }

func (s *Sink) ReadAll(r av.PacketReader) {
	for {
		p, err := r.ReadPacket()
		if err != nil {
			s.Err = err
			return
		}
		s.Pkts = append(s.Pkts, p)
		atomic.AddInt32(&s.n, 1)
	}
}

// C1 draws the 1536 bytes of a C1 or S1: plain, or signed in a layout.
func C1(t *vt.T, server bool, l string) (p []byte, signed bool, layout int) {
	p = vt.Fill(1536, t.U64(l+"seed"))
	switch t.Int(0, 4, l+"fill") {
	case 0:
		for i := 8; i < 1536; i++ {
			p[i] = 0
		}
	case 1:
		for i := range p {
			p[i] = 0xff
		}
	case 2: // offset bytes at chosen values
		for _, at := range []int{8, 772} {
			for i := 0; i < 4; i++ {
				p[at+i] = vt.Pick(t, l+"off", byte(0), 1, 127, 181, 182, 183, 255)
			}
		}
	}
	copy(p[:4], []byte{t.Byte(l + "t0"), t.Byte(l + "t1"), 0, 9})
	if !t.Bool(l + "zero") {
		copy(p[4:8], []byte{9, 0, 124, 2})
	} else {
		copy(p[4:8], []byte{0, 0, 0, 0})
	}
	layout = -1
	if t.Bool(l + "signed") {
		layout = t.Int(0, 1, l+"layout")
		ref.Sign1(p, server, layout)
		signed = true
	}
	return
}
