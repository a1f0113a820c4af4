package ref

import (
	"bufio"
	"crypto/md5"
	"encoding/base64"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"net"
	"strconv"
	"strings"
	"time"
)

// RTSPRequest is a request as it came over the wire.
type RTSPRequest struct {
	Method, URI, Version string
	Header               [][2]string
	Body                 []byte
	Raw                  string
}

// Get is the value of the only header of that name; n counts them.
func (r *RTSPRequest) Get(name string) (v string, n int) {
	for _, h := range r.Header {
		if strings.EqualFold(h[0], name) {
			v = h[1]
			n++
		}
	}
	return
}

// RTSPConn is the server side of an RTSP connection.
type RTSPConn struct {
	C  net.Conn
	br *bufio.Reader
}

func NewRTSPConn(c net.Conn) *RTSPConn { return &RTSPConn{C: c, br: bufio.NewReader(c)} }

// ErrBadRequest is the type of errors about what the client sent.
type ErrBadRequest string

func (e ErrBadRequest) Error() string { return string(e) }

// Next reads one request, strictly.
func (c *RTSPConn) Next() (r *RTSPRequest, err error) {
	r = &RTSPRequest{}
	line := func() (s string, err error) {
		b, err := c.br.ReadString('\n')
		r.Raw += b
		if err != nil {
			if err == io.EOF && b != "" {
				err = io.ErrUnexpectedEOF
			}
			return
		}
		if !strings.HasSuffix(b, "\r\n") {
			return "", ErrBadRequest(fmt.Sprintf("line %q does not end in CR LF", b))
		}
		return b[:len(b)-2], nil
	}
	s, err := line()
	if err != nil {
		return nil, err
	}
	f := strings.Split(s, " ")
	if len(f) != 3 || f[2] != "RTSP/1.0" || f[0] == "" || f[1] == "" {
		return nil, ErrBadRequest(fmt.Sprintf("request line %q", s))
	}
	r.Method, r.URI, r.Version = f[0], f[1], f[2]
	for {
		if s, err = line(); err != nil {
			return nil, err
		}
		if s == "" {
			break
		}
		i := strings.IndexByte(s, ':')
		if i <= 0 || strings.ContainsAny(s[:i], " \t") {
			return nil, ErrBadRequest(fmt.Sprintf("header line %q", s))
		}
		r.Header = append(r.Header, [2]string{s[:i], strings.Trim(s[i+1:], " \t")})
	}
	if v, n := r.Get("Content-Length"); n == 1 {
		l, err := strconv.Atoi(v)
		if err != nil || l < 0 || l > 1<<20 {
			return nil, ErrBadRequest("content length " + v)
		}
		r.Body = make([]byte, l)
		if _, err = io.ReadFull(c.br, r.Body); err != nil {
			return nil, err
		}
	}
	return
}

// RTSPResponse formats a response.
func RTSPResponse(code int, reason, cseq string, headers [][2]string, body string, lengthLast bool) string {
	s := fmt.Sprintf("RTSP/1.0 %d %s\r\n", code, reason)
	if cseq != "" {
		s += "CSeq: " + cseq + "\r\n"
	}
	if body != "" && !lengthLast {
		s += fmt.Sprintf("Content-Length: %d\r\n", len(body))
	}
	for _, h := range headers {
		s += h[0] + ": " + h[1] + "\r\n"
	}
	if body != "" && lengthLast {
		s += fmt.Sprintf("content-length: %d\r\n", len(body))
	}
	return s + "\r\n" + body
}

func md5hex(s string) string { h := md5.Sum([]byte(s)); return hex.EncodeToString(h[:]) }

// RTSPAuth is a server's demand for credentials.
type RTSPAuth struct {
	Digest              bool
	Realm, Nonce        string
	Opaque              string
	User, Pass          string
	WrongUserOrPassword bool // the client has other ones
}

// Verify checks the Authorization of a request (RFC 2617, RFC 2069).
func (a *RTSPAuth) Verify(r *RTSPRequest) error {
	v, n := r.Get("Authorization")
	if n != 1 {
		return fmt.Errorf("%d Authorization headers", n)
	}
	if !a.Digest {
		want := "Basic " + base64.StdEncoding.EncodeToString([]byte(a.User+":"+a.Pass))
		if v != want {
			return fmt.Errorf("Authorization %q, want %q", v, want)
		}
		return nil
	}
	if !strings.HasPrefix(v, "Digest ") {
		return fmt.Errorf("Authorization %q is no digest", v)
	}
	p := map[string]string{}
	rest := v[7:]
	for rest != "" {
		rest = strings.TrimLeft(rest, ", ")
		i := strings.IndexByte(rest, '=')
		if i < 0 {
			return fmt.Errorf("Authorization %q: rest %q", v, rest)
		}
		k := rest[:i]
		rest = rest[i+1:]
		if strings.HasPrefix(rest, `"`) {
			j := strings.IndexByte(rest[1:], '"')
			if j < 0 {
				return fmt.Errorf("Authorization %q: open quote", v)
			}
			p[k] = rest[1 : 1+j]
			rest = rest[j+2:]
		} else {
			j := strings.IndexByte(rest, ',')
			if j < 0 {
				j = len(rest)
			}
			p[k] = strings.TrimSpace(rest[:j])
			rest = rest[j:]
		}
	}
	if p["username"] != a.User || p["realm"] != a.Realm || p["nonce"] != a.Nonce {
		return fmt.Errorf("Authorization %q: username, realm or nonce, want %q %q %q", v, a.User, a.Realm, a.Nonce)
	}
	if p["uri"] != r.URI {
		return fmt.Errorf("Authorization %q: uri, want %q", v, r.URI)
	}
	if a.Opaque != "" && p["opaque"] != a.Opaque {
		return fmt.Errorf("Authorization %q: opaque, want %q", v, a.Opaque)
	}
	if al, ok := p["algorithm"]; ok && al != "MD5" {
		return fmt.Errorf("Authorization %q: algorithm", v)
	}
	ha1 := md5hex(a.User + ":" + a.Realm + ":" + a.Pass)
	ha2 := md5hex(r.Method + ":" + r.URI)
	want := md5hex(ha1 + ":" + a.Nonce + ":" + ha2)
	if q := p["qop"]; q != "" {
		want = md5hex(ha1 + ":" + a.Nonce + ":" + p["nc"] + ":" + p["cnonce"] + ":" + q + ":" + ha2)
	}
	if p["response"] != want {
		return fmt.Errorf("Authorization %q: response, want %s", v, want)
	}
	return nil
}

// Loopback is a listening socket of the process for its cases.
type Loopback struct {
	L    net.Listener
	Addr string
}

func NewLoopback() (*Loopback, error) {
	l, err := net.Listen("tcp", LocalIP()+":0")
	if err != nil {
		return nil, err
	}
	return &Loopback{L: l, Addr: l.Addr().String()}, nil
}

// Accept takes the next connection; one nobody makes is an error.
func (l *Loopback) Accept(wait time.Duration) (net.Conn, error) {
	l.L.(*net.TCPListener).SetDeadline(time.Now().Add(wait))
	return l.L.Accept()
}

// CloseHard ends a connection whose peer is done, leaving nothing behind.
func CloseHard(c net.Conn) {
	if t, ok := c.(*net.TCPConn); ok {
		t.SetLinger(0)
	}
	c.Close()
}

// CloseWrite ends the sending direction.
func CloseWrite(c net.Conn) error {
	if t, ok := c.(*net.TCPConn); ok {
		return t.CloseWrite()
	}
	return errors.New("no TCP connection")
}
