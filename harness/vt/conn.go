package vt

import (
	"errors"
	"io"
	"net"
	"sync"
	"syscall"
	"time"
)

// Pipe is an in-memory, buffered, full-duplex connection. Writes never block;
// reads return at most the next fragment size of the reader's plan, so the
// delivery sizes are generated. It never touches the clock unless a read
// deadline passes while the reader is blocked.
type half struct {
	mu      sync.Mutex
	cond    *sync.Cond
	buf     []byte
	closed  bool // the writer ended it
	rclosed bool // the reader closed its end: data written is dropped
	refuse  int  // 1: once the reader closed, the first write succeeds, 2: no further one does
	err     error
	frags   []int
	fi      int
	total   int64
	limit   int64 // bytes accepted before writes fail; <0: no limit
	reads   int64
	waiting bool
	dl      time.Time
	wdl     time.Time // of the writer
}

func newHalf() *half {
	h := &half{limit: -1}
	h.cond = sync.NewCond(&h.mu)
	return h
}

type Conn struct {
	r, w *half
	name string
	once sync.Once
}

// ErrInjected is what an injected write fault returns.
var ErrInjected = errors.New("injected I/O fault")

// NewPipe gives two connected ends. aFrags are the sizes in which reads on a
// are delivered (cyclic; empty: everything available), bFrags likewise.
func NewPipe(aFrags, bFrags []int) (a, b *Conn) {
	x, y := newHalf(), newHalf()
	x.frags, y.frags = aFrags, bFrags
	return &Conn{r: x, w: y, name: "a"}, &Conn{r: y, w: x, name: "b"}
}

type timeoutErr struct{}

func (timeoutErr) Error() string   { return "i/o timeout" }
func (timeoutErr) Timeout() bool   { return true }
func (timeoutErr) Temporary() bool { return true }

func (c *Conn) Read(p []byte) (int, error) {
	h := c.r
	h.mu.Lock()
	defer h.mu.Unlock()
	h.reads++
	if len(p) == 0 {
		return 0, nil
	}
	for len(h.buf) == 0 {
		if h.rclosed {
			return 0, io.ErrClosedPipe
		}
		if h.closed {
			if h.err != nil {
				return 0, h.err
			}
			return 0, io.EOF
		}
		if !h.dl.IsZero() && !time.Now().Before(h.dl) {
			return 0, timeoutErr{}
		}
		h.waiting = true
		h.cond.Broadcast()
		h.cond.Wait()
		h.waiting = false
	}
	n := len(p)
	if len(h.frags) > 0 {
		f := h.frags[h.fi%len(h.frags)]
		h.fi++
		if f < 1 {
			f = 1
		}
		if n > f {
			n = f
		}
	}
	if n > len(h.buf) {
		n = len(h.buf)
	}
	copy(p, h.buf[:n])
	h.buf = h.buf[n:]
	h.cond.Broadcast()
	return n, nil
}

func (c *Conn) Write(p []byte) (int, error) {
	h := c.w
	h.mu.Lock()
	defer h.mu.Unlock()
	if h.closed {
		return 0, io.ErrClosedPipe
	}
	if !h.wdl.IsZero() && !time.Now().Before(h.wdl) {
		return 0, timeoutErr{}
	}
	if h.rclosed {
		if h.refuse == 2 {
			return 0, &net.OpError{Op: "write", Net: "mem", Err: syscall.EPIPE}
		} else if h.refuse == 1 {
			h.refuse = 2
		}
		h.total += int64(len(p))
		return len(p), nil
	}
	if h.limit >= 0 && h.total+int64(len(p)) > h.limit {
		n := int(h.limit - h.total)
		h.buf = append(h.buf, p[:n]...)
		h.total += int64(n)
		h.cond.Broadcast()
		return n, ErrInjected
	}
	h.buf = append(h.buf, p...)
	h.total += int64(len(p))
	h.cond.Broadcast()
	return len(p), nil
}

func (h *half) close(err error) {
	h.mu.Lock()
	h.closed = true
	if h.err == nil {
		h.err = err
	}
	h.cond.Broadcast()
	h.mu.Unlock()
}

// Close ends both directions; the peer still reads what was written, and what
// it writes from now on is dropped.
func (c *Conn) Close() error {
	c.w.close(nil)
	c.r.mu.Lock()
	c.r.rclosed = true
	c.r.buf = nil
	c.r.cond.Broadcast()
	c.r.mu.Unlock()
	return nil
}

// RefuseAfterClose makes what the peer writes fail after c was closed, from
// the second write on, as a TCP connection does. What the peer has not yet
// read stays readable.
func (c *Conn) RefuseAfterClose() {
	c.r.mu.Lock()
	c.r.refuse = 1
	c.r.mu.Unlock()
}

// CloseWrite ends only the direction towards the peer.
func (c *Conn) CloseWrite() { c.w.close(nil) }

// Idle waits until everything written to the peer of c has been consumed and
// the peer's reader is blocked waiting for more (or the pipe is closed).
// It reports false if that did not happen within d.
func (c *Conn) PeerIdle(d time.Duration) bool {
	h := c.w
	end := time.Now().Add(d)
	tm := time.AfterFunc(d, func() { h.mu.Lock(); h.cond.Broadcast(); h.mu.Unlock() })
	defer tm.Stop()
	h.mu.Lock()
	defer h.mu.Unlock()
	for {
		if h.closed || h.rclosed {
			return true
		}
		if len(h.buf) == 0 && h.waiting {
			return true
		}
		if !time.Now().Before(end) {
			return false
		}
		h.cond.Wait()
	}
}

// Reads is the number of Read calls made on c.
func (c *Conn) Reads() int64 { c.r.mu.Lock(); defer c.r.mu.Unlock(); return c.r.reads }

// Written is the number of bytes written to c so far.
func (c *Conn) Written() int64 { c.w.mu.Lock(); defer c.w.mu.Unlock(); return c.w.total }

// LimitWrite makes writes on c fail once n more bytes were accepted.
func (c *Conn) LimitWrite(n int64) {
	c.w.mu.Lock()
	c.w.limit = c.w.total + n
	c.w.mu.Unlock()
}

// Pending is the number of bytes written by the peer and not yet read.
func (c *Conn) Pending() int { c.r.mu.Lock(); defer c.r.mu.Unlock(); return len(c.r.buf) }

type addr string

func (a addr) Network() string { return "mem" }
func (a addr) String() string  { return string(a) }

func (c *Conn) LocalAddr() net.Addr  { return addr(c.name) }
func (c *Conn) RemoteAddr() net.Addr { return addr("peer-of-" + c.name) }

// Deadlines end reads that wait, and writes fail after them.
func (c *Conn) SetDeadline(t time.Time) error {
	c.SetWriteDeadline(t)
	return c.SetReadDeadline(t)
}
func (c *Conn) SetReadDeadline(t time.Time) error {
	h := c.r
	h.mu.Lock()
	h.dl = t
	h.mu.Unlock()
	if !t.IsZero() {
		d := time.Until(t)
		time.AfterFunc(d, func() { h.mu.Lock(); h.cond.Broadcast(); h.mu.Unlock() })
	}
	return nil
}
func (c *Conn) SetWriteDeadline(t time.Time) error {
	c.w.mu.Lock()
	c.w.wdl = t
	c.w.mu.Unlock()
	return nil
}

// FragReader hands out b in the given sizes (cyclic).
type FragReader struct {
	B     []byte
	Frags []int
	i     int
	Reads int
	// EOFWithData returns io.EOF together with the last bytes.
	EOFWithData bool
	Err         error
}

func (r *FragReader) Read(p []byte) (int, error) {
	r.Reads++
	if len(r.B) == 0 {
		if r.Err != nil {
			return 0, r.Err
		}
		return 0, io.EOF
	}
	n := len(p)
	if n == 0 {
		return 0, nil
	}
	if len(r.Frags) > 0 {
		f := r.Frags[r.i%len(r.Frags)]
		r.i++
		if f < 1 {
			f = 1
		}
		if n > f {
			n = f
		}
	}
	if n > len(r.B) {
		n = len(r.B)
	}
	copy(p, r.B[:n])
	r.B = r.B[n:]
	if len(r.B) == 0 && r.EOFWithData && r.Err == nil {
		return n, io.EOF
	}
	return n, nil
}

// Frags draws a fragmentation plan.
func (t *T) Frags(l string) []int {
	switch t.Int(0, 3, l+"kind") {
	case 0:
		return nil
	case 1:
		return []int{1}
	case 2:
		n := t.Int(1, 6, l+"n")
		f := make([]int, n)
		for i := range f {
			f[i] = t.Int(1, 40, l)
		}
		return f
	default:
		n := t.Int(1, 4, l+"n")
		f := make([]int, n)
		for i := range f {
			f[i] = Pick(t, l, 1, 2, 3, 11, 127, 128, 129, 1000, 1460, 4095, 4096, 4097, 65536)
		}
		return f
	}
}

// PeerWaiting reports whether the peer is blocked reading with nothing to read.
func (c *Conn) PeerWaiting() bool {
	c.w.mu.Lock()
	defer c.w.mu.Unlock()
	return !c.w.closed && !c.w.rclosed && len(c.w.buf) == 0 && c.w.waiting
}
