package gen

import (
	"errors"
	"fmt"
	"net"
	"sync"
	"time"

	"joyverif/ref"
	"joyverif/vt"
)

// RTSPCase runs one client against one server over loopback TCP. It reports
// what went wrong in the client (a panic, a hang) and in the server.
func RTSPCase(maxAlloc uint64, server func(c *ref.RTSPConn) error, client func(addr string)) (bad string, serr error) {
	lo, err := ref.NewLoopback()
	for i := 0; err != nil; i++ {
		if i == 20 {
			vt.Infra("listen on loopback: %v", err)
		}
		time.Sleep(100 * time.Millisecond)
		lo, err = ref.NewLoopback()
	}
	var mu sync.Mutex
	var nc net.Conn
	over := false
	d := Go(func() {
		c, err := lo.Accept(5 * time.Minute)
		if err != nil {
			return
		}
		mu.Lock()
		nc = c
		gone := over
		mu.Unlock()
		if gone {
			ref.CloseHard(c)
			return
		}
		defer ref.CloseWrite(c)
		serr = server(ref.NewRTSPConn(c))
	})
	bad = vt.Guard(maxAlloc, 60*time.Second, 150*time.Second, func() { client(lo.Addr) })
	lo.L.Close()
	mu.Lock()
	over = true
	if nc != nil {
		ref.CloseHard(nc)
	}
	mu.Unlock()
	select {
	case <-d.C:
	case <-time.After(60 * time.Second):
		vt.Infra("the server of the case does not end")
	}
	if d.Panic != "" {
		vt.Infra("the server of the case: %s", d.Panic)
	}
	return
}

// SendPlan writes b in pieces ending at the cuts, some of them followed by a
// short pause, so that they are delivered one by one.
func SendPlan(c net.Conn, b []byte, cuts []int, pause []bool) error {
	p := 0
	for i, e := range append(append([]int{}, cuts...), len(b)) {
		if e = min(e, len(b)); e <= p {
			continue
		}
		if _, err := c.Write(b[p:e]); err != nil {
			return err
		}
		p = e
		if i < len(pause) && pause[i] {
			time.Sleep(300 * time.Microsecond)
		}
	}
	return nil
}

// Deliveries draws a plan for SendPlan.
func Deliveries(t *vt.T, n int, borders []int, l string) (cuts []int, pause []bool) {
	if n == 0 || t.Bool(l+"whole") {
		return
	}
	k := t.Int(1, 12, l+"k")
	m := map[int]bool{}
	for i := 0; i < k; i++ {
		if len(borders) > 0 && t.Bool(l+"near") {
			m[borders[t.Int(0, len(borders)-1, l+"b")]+t.Int(-4, 16, l+"d")] = true
		} else {
			m[t.Int(0, n, l+"at")] = true
		}
	}
	for i := 0; i <= n; i++ {
		if m[i] {
			cuts = append(cuts, i)
			pause = append(pause, t.OneIn(3, l+"pause"))
		}
	}
	return
}

// RTSPURI is the address of the server of a case.
func RTSPURI(addr, path string) string { return fmt.Sprintf("rtsp://%s%s", addr, path) }

// ServeRTSP answers the requests of a session, and plays.
func ServeRTSP(c *ref.RTSPConn, x *RTSPSession, cuts []int, pause []bool) error {
	for {
		r, err := c.Next()
		if err != nil {
			var bad ref.ErrBadRequest
			if errors.As(err, &bad) {
				return err
			}
			return nil
		}
		cseq, _ := r.Get("CSeq")
		ok := func(h [][2]string, body string) error {
			_, err := c.C.Write([]byte(ref.RTSPResponse(200, "OK", cseq, h, body, false)))
			return err
		}
		switch r.Method {
		case "DESCRIBE":
			err = ok([][2]string{{"Content-Type", "application/sdp"}}, x.SDP)
		case "SETUP":
			tr, _ := r.Get("Transport")
			err = ok([][2]string{{"Session", "12345678;timeout=60"}, {"Transport", tr}}, "")
		case "PLAY":
			resp := ref.RTSPResponse(200, "OK", cseq, [][2]string{{"Session", "12345678"}}, "", false)
			at := 0
			if x.PlayAt > 0 {
				at = x.Borders[x.PlayAt-1]
			}
			b := append([]byte{}, x.Wire[:at]...)
			b = append(b, resp...)
			b = append(b, x.Wire[at:]...)
			if err = SendPlan(c.C, b, cuts, pause); err == nil {
				if x.Gone != nil {
					if ref.Arrived(c.C, time.Second) {
						c.C.Close()
						x.Gone <- true
						return nil
					}
					x.Gone <- false
				}
				err = ref.CloseWrite(c.C)
			}
		default:
			err = ok(nil, "")
		}
		if err != nil {
			return nil
		}
	}
}
