package c29

import (
	"bytes"
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"errors"
	"fmt"
	"io"
	"math/big"
	"net"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/nareix/joy5/av"
	"github.com/nareix/joy5/format"
	"github.com/nareix/joy5/format/rtmp"

	"joyverif/gen"
	"joyverif/ref"
	"joyverif/vt"
)

func TestMain(m *testing.M) { vt.Main(m) }

const wait = 40 * time.Second // nothing that happens takes this long

var scratch string

// dir is a new directory of the case, and the working directory. All that a
// URL of the case can name lies in it.
func dir(t *vt.T) string {
	if scratch == "" {
		var err error
		if scratch, err = os.MkdirTemp(os.Getenv("VT_SCRATCH"), "c29"); err != nil {
			vt.Infra("%v", err)
		}
	}
	d, err := os.MkdirTemp(scratch, "case")
	if err != nil {
		vt.Infra("%v", err)
	}
	if err := os.Chdir(d); err != nil {
		vt.Infra("%v", err)
	}
	return d
}

func done(d string) {
	os.Chdir(scratch)
	os.RemoveAll(d)
}

type entry struct {
	mode os.FileMode
	data string
	mod  time.Time
}

func snapshot(d string) map[string]entry {
	m := map[string]entry{}
	filepath.Walk(d, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		e := entry{mode: fi.Mode()}
		if fi.Mode().IsRegular() {
			b, _ := os.ReadFile(p)
			e.data, e.mod = string(b), fi.ModTime()
		}
		r, _ := filepath.Rel(d, p)
		m[r] = e
		return nil
	})
	return m
}

// changes tells how two states of a directory differ, except for one file.
func changes(a, b map[string]entry, but string) string {
	var names []string
	for n := range a {
		names = append(names, n)
	}
	for n := range b {
		if _, ok := a[n]; !ok {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	for _, n := range names {
		x, ok1 := a[n]
		y, ok2 := b[n]
		switch {
		case n == but:
		case !ok2:
			return fmt.Sprintf("%q is gone", n)
		case !ok1:
			return fmt.Sprintf("%q has been created", n)
		case x.data != y.data:
			return fmt.Sprintf("%q has changed from %d to %d bytes", n, len(x.data), len(y.data))
		case !x.mod.Equal(y.mod):
			return fmt.Sprintf("%q has been touched", n)
		}
	}
	return ""
}

func openFiles() map[string]bool {
	m := map[string]bool{}
	l, _ := os.ReadDir("/proc/self/fd")
	for _, e := range l {
		if s, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && strings.HasPrefix(s, "/") && !strings.HasPrefix(s, "/proc/") {
			m[e.Name()+" "+s] = true
		}
	}
	return m
}

func leaked(a map[string]bool) string {
	for f := range openFiles() {
		if !a[f] {
			return f
		}
	}
	return ""
}

func name(t *vt.T, l string) string {
	s := ""
	for n := t.Int(1, 6, l+"n"); n > 0; n-- {
		s += vt.Pick(t, l, "a", "B", "7", "-", "_", " ", "%", "?", "#", "é", ".", "+", "&", "=", "~", "%41", "mp4", "flv", "日")
	}
	return s
}

type where struct {
	url  string
	path string // relative to the directory of the case
}

// place draws a URL of a file: with an absolute or relative path or scheme
// file, escaped as URLs are.
func place(t *vt.T, d, ext string) (w where) {
	var parts []string
	for n := t.Int(0, 2, "depth"); n > 0; n-- {
		parts = append(parts, name(t, "dir"))
	}
	parts = append(parts, name(t, "file")+ext)
	for i, p := range parts {
		if strings.Trim(p, ".") == "" {
			parts[i] = "x" + p
		}
	}
	w.path = filepath.Join(parts...)
	if t.OneIn(4, "dots") {
		parts = append([]string{"."}, parts...)
	}
	p := strings.Join(parts, "/")
	u := url.URL{Path: p}
	switch t.Int(0, 2, "form") {
	case 0:
		u.Path = d + "/" + p
	case 1:
		u.Scheme, u.Path = "file", d+"/"+p
	}
	if t.OneIn(6, "query") {
		u.RawQuery = vt.Pick(t, "q", "a=b", "x.mp4", "/y.flv")
	}
	if t.OneIn(6, "fragment") {
		u.Fragment = vt.Pick(t, "f", "a", "x.mp4", ".flv")
	}
	w.url = u.String()
	return
}

func (w where) prepare(t *vt.T, d string) (mk, old bool) {
	mk = !strings.Contains(w.path, "/") || !t.OneIn(5, "nodir")
	if mk {
		os.MkdirAll(filepath.Dir(filepath.Join(d, w.path)), 0755)
	}
	if mk && t.Bool("exists") {
		old = true
		n := t.Int(0, 3000, "oldlen")
		os.WriteFile(filepath.Join(d, w.path), vt.Fill(n, t.U64("old")), 0644)
		tm := time.Now().Add(-time.Hour)
		os.Chtimes(filepath.Join(d, w.path), tm, tm)
	}
	// bystanders
	os.WriteFile(filepath.Join(d, "other.flv"), []byte("other"), 0644)
	if mk && t.Bool("near") {
		for _, x := range []string{".flv", ".mp4", ".tmp", "~"} {
			if p := w.path + x; p != w.path {
				os.WriteFile(filepath.Join(d, p), []byte("near"+x), 0644)
			}
		}
	}
	return
}

func opener() *format.URLOpener { return &format.URLOpener{} }

// read reads a media to its end.
func read(t *vt.T, r av.PacketReader, want []gen.Pkt, what string) {
	for i, w := range want {
		g, err := r.ReadPacket()
		if err != nil {
			t.Fatalf("%s: packet %d of %d: %v", what, i, len(want), err)
		}
		if s := gen.SamePkt(w, g); s != "" {
			t.Fatalf("%s: packet %d: %s", what, i, s)
		}
	}
	if g, err := r.ReadPacket(); err != io.EOF {
		t.Fatalf("%s: after the last packet: %v, error %v", what, g, err)
	}
}

func TestFLVFile(t *testing.T) {
	vt.Check(t, 3000, 60000, func(t *vt.T) {
		d := dir(t)
		defer done(d)
		w := place(t, d, ".flv")
		mk, old := w.prepare(t, d)
		before, fds := snapshot(d), openFiles()
		pkts := gen.Packets(t, gen.PktOpts{}, "p")
		fw, err := opener().Create(w.url, nil)
		if !mk {
			if err == nil {
				fw.Close()
				t.Fatalf("created %q in a directory that does not exist", w.url)
			}
			if s := changes(before, snapshot(d), ""); s != "" {
				t.Fatalf("create %q fails (%v), and %s", w.url, err, s)
			}
			t.Nontrivial(w.url)
			return
		}
		if err != nil {
			t.Fatalf("create %q: %v", w.url, err)
		}
		for i, p := range pkts {
			if err := fw.WritePacket(p.P); err != nil {
				t.Fatalf("%q: packet %d: %v", w.url, i, err)
			}
		}
		if err := fw.Close(); err != nil {
			t.Fatalf("close %q: %v", w.url, err)
		}
		if s := leaked(fds); s != "" {
			t.Fatalf("%s is open after closing %q", s, w.url)
		}
		if s := changes(before, snapshot(d), w.path); s != "" {
			t.Fatalf("create %q (path %q): %s", w.url, w.path, s)
		}
		b, err := os.ReadFile(filepath.Join(d, w.path))
		if err != nil {
			t.Fatalf("create %q: %v", w.url, err)
		}
		if len(pkts) > 0 {
			if f, err := ref.ParseFLV(b); err != nil || len(f.Tags) != len(pkts) {
				t.Fatalf("%q is no FLV file of %d tags: %d, %v", w.url, len(pkts), len(f.Tags), err)
			}
			r, err := opener().Open(w.url)
			if err != nil {
				t.Fatalf("open %q: %v", w.url, err)
			}
			n := len(pkts)
			if t.OneIn(4, "part") {
				n = t.Int(0, n, "until")
			}
			if n == len(pkts) {
				read(t, r, pkts, w.url)
			} else {
				for ; n > 0; n-- {
					r.ReadPacket()
				}
			}
			if err := r.Close(); err != nil {
				t.Fatalf("close %q: %v", w.url, err)
			}
			if s := leaked(fds); s != "" {
				t.Fatalf("%s is open after closing %q", s, w.url)
			}
			if b2, _ := os.ReadFile(filepath.Join(d, w.path)); !bytes.Equal(b, b2) {
				t.Fatalf("reading %q changes it", w.url)
			}
		}
		t.LabelIf(old, "replaces a file")
		t.Nontrivial(w.url, gen.PktKey(pkts))
		t.Sample("%s: %s", w.url, gen.ShowPkts(pkts))
	})
}

func TestMP4File(t *testing.T) {
	vt.Check(t, 1500, 30000, func(t *vt.T) {
		d := dir(t)
		defer done(d)
		w := place(t, d, ".mp4")
		mk, old := w.prepare(t, d)
		before, fds := snapshot(d), openFiles()
		fw, err := opener().Create(w.url, nil)
		if !mk {
			if err == nil {
				fw.Close()
				t.Fatalf("created %q in a directory that does not exist", w.url)
			}
			if s := changes(before, snapshot(d), ""); s != "" {
				t.Fatalf("create %q fails (%v), and %s", w.url, err, s)
			}
			return
		}
		if err != nil {
			t.Fatalf("create %q: %v", w.url, err)
		}
		vcfg, _, _ := gen.AVCConfig(t, "v")
		acfg := gen.AACConfig(t, "a")
		put := func(p av.Packet) {
			if err := fw.WritePacket(p); err != nil {
				t.Fatalf("%q: %v", w.url, err)
			}
		}
		var want [2][][]byte
		v, a := t.Bool("video"), t.Bool("audio")
		if v {
			put(av.Packet{Type: av.H264DecoderConfig, Data: vcfg})
		}
		if a {
			put(av.Packet{Type: av.AACDecoderConfig, Data: acfg})
		}
		now := time.Duration(0)
		for n := t.Int(0, 10, "n"); n > 0 && (v || a); n-- {
			p := av.Packet{Type: av.H264, Time: now, Data: t.Payload(t.Int(1, 100, "len"), "data")}
			k := 0
			if !v || a && t.Bool("which") {
				p.Type = av.AAC
				k = 1
			} else {
				p.IsKeyFrame = len(want[0]) == 0 || t.Bool("key")
			}
			put(p)
			want[k] = append(want[k], p.Data)
			now += time.Duration(t.Int(0, 50, "dt")) * time.Millisecond
		}
		cerr := fw.Close()
		if s := leaked(fds); s != "" {
			t.Fatalf("%s is open after closing %q (error %v)", s, w.url, cerr)
		}
		if s := changes(before, snapshot(d), w.path); s != "" {
			t.Fatalf("create %q (path %q): %s", w.url, w.path, s)
		}
		if cerr != nil {
			t.Fatalf("close %q: %v", w.url, cerr)
		}
		b, err := os.ReadFile(filepath.Join(d, w.path))
		if err != nil {
			t.Fatalf("create %q: %v", w.url, err)
		}
		trs, err := ref.ParseMP4(b)
		if err != nil {
			t.Fatalf("%q is no MP4 file: %v", w.url, err)
		}
		var got [2][][]byte
		for _, tr := range trs {
			k := 0
			if tr.Kind == "mp4a" {
				k = 1
			}
			for _, s := range tr.Samples {
				got[k] = append(got[k], s.Data)
			}
		}
		for k := range want {
			if len(want[k]) != len(got[k]) {
				t.Fatalf("%q: %d samples, want %d", w.url, len(got[k]), len(want[k]))
			}
			for i := range want[k] {
				if !bytes.Equal(want[k][i], got[k][i]) {
					t.Fatalf("%q: sample %d differs", w.url, i)
				}
			}
		}
		t.LabelIf(old, "replaces a file")
		if len(want[0])+len(want[1]) > 0 {
			t.Nontrivial(w.url, fmt.Sprint(want))
		}
	})
}

// A file on a full disk: what could not be written is reported by the time it
// is closed, and it is closed.
func TestFull(t *testing.T) {
	vt.Check(t, 300, 6000, func(t *vt.T) {
		d := dir(t)
		defer done(d)
		name := vt.Pick(t, "name", "a.mp4", "a.flv")
		if err := os.Symlink("/dev/full", filepath.Join(d, name)); err != nil {
			vt.Infra("%v", err)
		}
		fds := openFiles()
		fw, err := opener().Create("file://"+filepath.Join(d, name), nil)
		n, sent := t.Int(0, 6, "n"), 0
		if err == nil {
			cfg := gen.AACConfig(t, "a")
			if name == "a.mp4" || t.Bool("config") {
				if err = fw.WritePacket(av.Packet{Type: av.AACDecoderConfig, Data: cfg}); err == nil {
					sent++
				}
			}
			for i := 0; i < n && err == nil; i++ {
				if err = fw.WritePacket(av.Packet{Type: av.AAC, Time: time.Duration(i) * time.Millisecond, Data: t.Payload(t.Int(1, 9000, "len"), "data")}); err == nil {
					sent++
				}
			}
			cerr := fw.Close()
			if err == nil {
				err = cerr
			}
		}
		if err == nil && (sent > 0 || name == "a.mp4") {
			t.Fatalf("%d packets have been written to %s on a full disk without an error", sent, name)
		}
		if s := leaked(fds); s != "" {
			t.Fatalf("%s is open after closing %s on a full disk", s, name)
		}
		t.Nontrivial(name, n, sent)
	})
}

type streamer struct {
	s   []interface{}
	err error
}

func (s streamer) Streams() ([]interface{}, error) { return s.s, s.err }

// Everything that is not supported fails, and leaves all files alone.
func TestUnsupported(t *testing.T) {
	vt.Check(t, 4000, 80000, func(t *vt.T) {
		d := dir(t)
		defer done(d)
		ext := vt.Pick(t, "ext", "", ".", ".mkv", ".ts", ".flv.bak", ".mp3", ".flv~", ".flvx", ".m4v", ".mp4.part", ".264", ".txt", "flv", "mp4", ".fl", ".flv.", ".mp4 ", ".flv/", ".x/flv")
		create := t.Bool("create")
		kind := t.Int(0, 3, "kind")
		var w where
		var st av.Streamer
		switch kind {
		case 0: // extension
			w = place(t, d, ext)
			if e := filepath.Ext(w.path); e == ".flv" || e == ".mp4" && create {
				w.path += "q"
				w.url = w.path
				if strings.ContainsAny(w.url, "%?#:") {
					w = where{url: d + "/x.q", path: "x.q"}
				}
			}
		case 1: // scheme
			ext = vt.Pick(t, "goodext", ".flv", ".mp4", ".flv", ".mkv")
			w.path = "f" + ext
			sch := vt.Pick(t, "scheme", "ftp", "rtp", "rtmpx", "rtm", "srt", "hls", "udp", "flv", "mp4", "x-file", "files", "rtmpt")
			if create {
				sch = vt.Pick(t, "scheme2", sch, "http", "https", "rtsp", "rtsp")
			}
			w.url = sch + "://" + vt.Pick(t, "host", "", "host", "127.0.0.1:1", "localhost") + d + "/" + w.path
		case 2: // streams
			create = true
			w = place(t, d, ".mp4")
			st = streamer{s: []interface{}{vt.Pick[interface{}](t, "codec", "x", 7, nil, struct{}{})}}
			if t.Bool("streamserr") {
				st = streamer{err: errors.New("no streams")}
			}
		case 3: // a missing file
			create = false
			w = place(t, d, ".flv")
		}
		w.prepare(t, d)
		if kind == 3 {
			os.Remove(filepath.Join(d, w.path))
		}
		if t.OneIn(6, "noparse") {
			w.url = vt.Pick(t, "bad", ":", "://x.flv", "%zz.flv", "http://[::1/x.flv", "a\x7fb.flv", "rtmp://h:x/y", "1a:b.flv")
		}
		before, fds := snapshot(d), openFiles()
		var err error
		what := "open"
		if create {
			what = "create"
			var fw *format.Writer
			if fw, err = opener().Create(w.url, st); err == nil {
				fw.Close()
			}
		} else {
			var fr *format.Reader
			if fr, err = opener().Open(w.url); err == nil {
				fr.Close()
			}
		}
		if err == nil {
			t.Fatalf("%s %q does not fail", what, w.url)
		}
		if s := changes(before, snapshot(d), ""); s != "" {
			t.Fatalf("%s %q fails (%v), and %s", what, w.url, err, s)
		}
		if s := leaked(fds); s != "" {
			t.Fatalf("%s %q fails (%v), and %s is open", what, w.url, err, s)
		}
		t.Nontrivial(w.url, what)
		t.Sample("%s %q: %v", what, w.url, err)
	})
}

var certOnce sync.Once
var cert tls.Certificate

func listen(secure bool) (net.Listener, string) {
	var l net.Listener
	var err error
	for i := 0; i < 50; i++ {
		if l, err = net.Listen("tcp", ref.LocalIP()+":0"); err == nil {
			break
		}
		time.Sleep(100 * time.Millisecond)
	}
	if err != nil {
		vt.Infra("listen: %v", err)
	}
	a := l.Addr().String()
	if secure {
		certOnce.Do(func() {
			k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
			if err != nil {
				vt.Infra("%v", err)
			}
			tm := &x509.Certificate{SerialNumber: big.NewInt(1), NotAfter: time.Now().Add(time.Hour * 1000)}
			der, err := x509.CreateCertificate(rand.Reader, tm, tm, &k.PublicKey, k)
			if err != nil {
				vt.Infra("%v", err)
			}
			cert = tls.Certificate{Certificate: [][]byte{der}, PrivateKey: k}
		})
		l = tls.NewListener(l, &tls.Config{Certificates: []tls.Certificate{cert}})
	}
	return l, a
}

func rtmpPath(t *vt.T) string {
	s := "/" + vt.Pick(t, "app", "live", "a", "app1")
	for n := t.Int(1, 2, "segs"); n > 0; n-- {
		s += "/" + vt.Pick(t, "seg", "s", "stream", "x-y", "1", "x.flv", "y.mp4")
	}
	if t.OneIn(3, "query") {
		s += vt.Pick(t, "q", "?a=b", "?token=1&x=2")
	}
	return s
}

// Against a server of the library: publishing and playing.
func TestRTMP(t *testing.T) {
	vt.Check(t, 700, 15000, func(t *vt.T) {
		d := dir(t)
		defer done(d)
		os.WriteFile("x.flv", []byte("x"), 0644)
		before := snapshot(d)
		secure := t.OneIn(3, "secure")
		l, addr := listen(secure)
		defer l.Close()
		publish := t.Bool("publish")
		p := rtmpPath(t)
		u := "rtmp://" + addr + p
		if secure {
			u = "rtmps://" + addr + p
		}
		pkts := gen.Packets(t, gen.PktOpts{Mono: true}, "p")
		for len(pkts) == 0 {
			pkts = gen.Packets(t, gen.PktOpts{Mono: true}, "p")
		}
		early := t.OneIn(4, "early")

		var sink gen.Sink
		var gotPath, werr string
		var pub bool
		closed := make(chan struct{})
		srv := gen.Go(func() {
			defer close(closed)
			nc, err := l.Accept()
			if err != nil {
				return
			}
			defer nc.Close()
			s := rtmp.NewServer()
			s.HandleConn = func(c *rtmp.Conn, nc net.Conn) {
				nc.SetDeadline(time.Now().Add(wait))
				gotPath, pub = c.URL.RequestURI(), c.Publishing
				if c.Publishing {
					sink.ReadAll(c)
					return
				}
				for _, p := range pkts {
					if err := c.WritePacket(p.P); err != nil {
						werr = err.Error()
						return
					}
				}
				if !early {
					return
				}
				select { // the client closes
				case <-c.CloseNotify():
				case <-time.After(wait):
					werr = "the connection is not closed"
				}
			}
			s.HandleNetConn(nc)
		})
		o := opener()
		dialed := 0
		if t.Bool("dialfunc") {
			o.NewDialFunc = func() func(ctx context.Context, network, address string) (net.Conn, error) {
				return func(ctx context.Context, network, address string) (net.Conn, error) {
					dialed++
					return (&net.Dialer{}).DialContext(ctx, network, address)
				}
			}
		} else {
			dialed = 1
		}
		if publish {
			w, err := o.Create(u, nil)
			if err != nil {
				t.Fatalf("create %q: %v", u, err)
			}
			for i, p := range pkts {
				if err := w.WritePacket(p.P); err != nil {
					t.Fatalf("%q: packet %d: %v", u, i, err)
				}
			}
			if err := w.Close(); err != nil {
				t.Fatalf("close %q: %v", u, err)
			}
		} else {
			r, err := o.Open(u)
			if err != nil {
				t.Fatalf("open %q: %v", u, err)
			}
			for i, p := range pkts {
				g, err := r.ReadPacket()
				if err != nil {
					t.Fatalf("%q: packet %d: %v", u, i, err)
				}
				if s := gen.SamePkt(p, g); s != "" {
					t.Fatalf("%q: packet %d: %s", u, i, s)
				}
			}
			if !early {
				if g, err := r.ReadPacket(); err == nil {
					t.Fatalf("%q: after the last packet: %v", u, g)
				}
			}
			if err := r.Close(); err != nil {
				t.Fatalf("close %q: %v", u, err)
			}
		}
		if s := srv.Ended(2 * wait); s != "" {
			t.Fatalf("%q: server: %s", u, s)
		}
		if werr != "" {
			t.Fatalf("%q: server: %s", u, werr)
		}
		if gotPath != p || pub != publish {
			t.Fatalf("%q: the server sees %q, publishing %v", u, gotPath, pub)
		}
		if dialed == 0 {
			t.Fatalf("%q: the dial function of the opener is not used", u)
		}
		if publish {
			if e, ok := sink.Err.(net.Error); ok && e.Timeout() {
				t.Fatalf("%q: the connection is not closed", u)
			}
			if len(sink.Pkts) != len(pkts) {
				t.Fatalf("%q: %d packets, %d arrived (%v)", u, len(pkts), len(sink.Pkts), sink.Err)
			}
			for i := range pkts {
				if s := gen.SamePkt(pkts[i], sink.Pkts[i]); s != "" {
					t.Fatalf("%q: packet %d: %s", u, i, s)
				}
			}
		}
		if s := changes(before, snapshot(d), ""); s != "" {
			t.Fatalf("%q: %s", u, s)
		}
		t.LabelIf(secure, "TLS")
		t.LabelIf(publish, "publishing")
		t.Nontrivial(u[strings.Index(u, addr)+len(addr):], publish, secure, gen.PktKey(pkts))
		t.Sample("publish %v %s: %s", publish, u, gen.ShowPkts(pkts))
	})
}

// @rtmp waits for a publisher.
func TestRTMPServer(t *testing.T) {
	vt.Check(t, 300, 6000, func(t *vt.T) {
		l, addr := listen(false)
		l.Close()
		busy := false                // elsewhere only
		if t.OneIn(3, "elsewhere") { // the port is in use on another address
			_, port, _ := net.SplitHostPort(addr)
			if o, err := net.Listen("tcp", fmt.Sprintf("127.%d.%d.9:%s", t.Int(1, 9, "o1"), t.Int(1, 200, "o2"), port)); err == nil {
				defer o.Close()
				if l, err := net.Listen("tcp", addr); err == nil {
					l.Close()
					busy = true
				}
			}
		}
		p := rtmpPath(t)
		pkts := gen.Packets(t, gen.PktOpts{Mono: true}, "p")
		for len(pkts) == 0 {
			pkts = gen.Packets(t, gen.PktOpts{Mono: true}, "p")
		}
		noise := t.Int(0, 2, "noise")
		part := t.OneIn(4, "part")
		var perr error
		var stop int32
		pubDone := gen.Go(func() {
			var w *format.Writer
			for end := time.Now().Add(wait); atomic.LoadInt32(&stop) == 0; time.Sleep(2 * time.Millisecond) {
				for ; noise > 0; noise-- { // others, that say nothing of interest
					nc, err := net.Dial("tcp", addr)
					if err != nil {
						break
					}
					nc.Write([]byte("GET / HTTP/1.0\r\n\r\n"))
					nc.Close()
				}
				w, perr = opener().Create("rtmp://"+addr+p, nil)
				if perr == nil || time.Now().After(end) {
					break
				}
			}
			if perr != nil || w == nil {
				return
			}
			defer w.Close()
			for _, p := range pkts {
				if perr = w.WritePacket(p.P); perr != nil {
					return
				}
			}
			if part { // until the other side closes
				w.NetConn.SetDeadline(time.Now().Add(wait))
				for perr == nil {
					perr = w.WritePacket(av.Packet{Type: av.AAC, Data: make([]byte, 1000), Time: time.Second})
				}
				if e, ok := perr.(net.Error); !ok || !e.Timeout() {
					perr = nil
				}
			}
		})
		var r *format.Reader
		var err error
		od := gen.Go(func() { r, err = opener().Open("@rtmp://" + addr + "/") })
		if s := od.Ended(2 * wait); s != "" {
			t.Fatalf("open @rtmp://%s: %s", addr, s)
		}
		if err != nil {
			atomic.StoreInt32(&stop, 1)
			pubDone.Ended(2 * wait)
			if strings.Contains(err.Error(), "in use") {
				if busy {
					for i := 0; i < 3; i++ {
						if l, lerr := net.Listen("tcp", addr); lerr == nil {
							l.Close()
							t.Fatalf("open @rtmp://%s: %v, though only another address uses the port", addr, err)
						}
						time.Sleep(10 * time.Millisecond)
					}
				}
				return // the port has been taken meanwhile
			}
			t.Fatalf("open @rtmp://%s: %v", addr, err)
		}
		r.NetConn.SetDeadline(time.Now().Add(wait))
		for i, p := range pkts {
			g, err := r.ReadPacket()
			if err != nil {
				t.Fatalf("@%s: packet %d: %v", addr, i, err)
			}
			if s := gen.SamePkt(p, g); s != "" {
				t.Fatalf("@%s: packet %d: %s", addr, i, s)
			}
		}
		if !part {
			if g, err := r.ReadPacket(); err == nil {
				t.Fatalf("@%s: after the last packet: %v", addr, g)
			}
		}
		if err := r.Close(); err != nil {
			t.Fatalf("close @%s: %v", addr, err)
		}
		if s := pubDone.Ended(2 * wait); s != "" {
			t.Fatalf("@%s: publisher: %s", addr, s)
		}
		if perr != nil {
			t.Fatalf("@%s: publisher: %v", addr, perr)
		}
		for end := time.Now().Add(wait); ; time.Sleep(2 * time.Millisecond) {
			nc, err := net.Dial("tcp", addr)
			if err != nil {
				break
			}
			nc.Close()
			if time.Now().After(end) {
				t.Fatalf("@%s: still listening after it has been closed", addr)
			}
		}
		t.Nontrivial(p, gen.PktKey(pkts))
	})
}

// FLV over HTTP.
func TestHTTP(t *testing.T) {
	vt.Check(t, 600, 12000, func(t *vt.T) {
		pkts := gen.Packets(t, gen.PktOpts{}, "p")
		for len(pkts) == 0 {
			pkts = gen.Packets(t, gen.PktOpts{}, "p")
		}
		var buf bytes.Buffer
		if err := gen.MuxFLV(&buf, pkts, true, true, false, true); err != nil {
			t.Fatalf("%v", err)
		}
		code := 200
		if t.OneIn(3, "fails") {
			code = vt.Pick(t, "code", 404, 403, 500, 503, 401, 410)
		}
		endless := t.OneIn(3, "endless")
		redirect := t.OneIn(6, "redirect")
		ext := ".flv"
		if t.OneIn(6, "badext") {
			ext = vt.Pick(t, "ext", ".mp4", "", ".m3u8", ".ts")
		}
		l, addr := listen(false)
		gone := make(chan bool, 1)
		asked := ""
		var mu sync.Mutex
		srv := &http.Server{Handler: http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			mu.Lock()
			asked = r.URL.RequestURI()
			mu.Unlock()
			if redirect && !strings.HasPrefix(r.URL.Path, "/moved") {
				http.Redirect(w, r, "/moved"+r.URL.RequestURI(), 302)
				return
			}
			w.WriteHeader(code)
			w.Write(buf.Bytes())
			if endless {
				w.(http.Flusher).Flush()
				select {
				case <-r.Context().Done():
					gone <- true
				case <-time.After(wait):
					gone <- false
				}
			}
		})}
		go srv.Serve(l)
		defer srv.Close()
		p := "/live/" + vt.Pick(t, "name", "a", "b.c", "x%20y") + ext + vt.Pick(t, "q", "", "?a=b.mp4", "?a/b.mp4?c")
		frag := vt.Pick(t, "frag", "", "", "", "#t=1.5", "#/x.mp4")
		u := "http://" + addr + p + frag
		r, err := opener().Open(u)
		if ext != ".flv" || code != 200 {
			if err == nil {
				r.Close()
				t.Fatalf("open %q of status %d does not fail", u, code)
			}
		} else {
			if err != nil {
				t.Fatalf("open %q: %v", u, err)
			}
			if endless {
				for i, p := range pkts {
					g, err := r.ReadPacket()
					if err != nil {
						t.Fatalf("%q: packet %d: %v", u, i, err)
					}
					if s := gen.SamePkt(p, g); s != "" {
						t.Fatalf("%q: packet %d: %s", u, i, s)
					}
				}
			} else {
				read(t, r, pkts, u)
			}
			if err := r.Close(); err != nil {
				t.Fatalf("close %q: %v", u, err)
			}
			if redirect {
				p = "/moved" + p
			}
			mu.Lock()
			if asked != p {
				t.Fatalf("%q: the server is asked for %q", u, asked)
			}
			mu.Unlock()
		}
		if endless && ext == ".flv" && !<-gone {
			t.Fatalf("%q: the connection is not released by closing (status %d)", u, code)
		}
		t.LabelIf(code != 200, "refused")
		t.LabelIf(endless, "endless")
		t.Nontrivial(u[strings.Index(u, addr)+len(addr):], code, endless, redirect, gen.PktKey(pkts))
	})
}

// RTSP.
func TestRTSP(t *testing.T) {
	vt.Check(t, 300, 6000, func(t *vt.T) {
		x := gen.DrawRTSP(t, gen.RTSPOpts{})
		fails := t.OneIn(4, "fails")
		code := vt.Pick(t, "code", 404, 500, 453)
		closed := false
		over := make(chan struct{})
		n := 0
		var fail string
		bad, serr := gen.RTSPCase(0, func(c *ref.RTSPConn) error {
			defer close(over)
			for {
				r, err := c.Next()
				if err != nil {
					var b ref.ErrBadRequest
					if errors.As(err, &b) {
						return err
					}
					closed = err == io.EOF || strings.Contains(err.Error(), "reset")
					return nil
				}
				cseq, _ := r.Get("CSeq")
				var h [][2]string
				body, st := "", 200
				switch r.Method {
				case "DESCRIBE":
					h, body = [][2]string{{"Content-Type", "application/sdp"}}, x.SDP
					if fails {
						h, body, st = nil, "", code
					}
				case "SETUP":
					tr, _ := r.Get("Transport")
					h = [][2]string{{"Session", "12345678"}, {"Transport", tr}}
				}
				if _, err := c.C.Write([]byte(ref.RTSPResponse(st, "Some", cseq, h, body, false))); err != nil {
					return nil
				}
				if r.Method == "PLAY" {
					if _, err := c.C.Write(x.Wire); err != nil {
						return nil
					}
				}
				c.C.SetDeadline(time.Now().Add(wait))
			}
		}, func(addr string) {
			r, err := opener().Open(gen.RTSPURI(addr, "/live.flv"))
			if err != nil {
				if !fails {
					fail = "open: " + err.Error()
					return
				}
				select {
				case <-over:
				case <-time.After(wait):
				}
				return
			}
			want := 0
			for _, s := range x.Streams {
				for _, u := range s.Want {
					if !u.Change {
						want++
					}
				}
			}
			for n < want {
				p, err := r.ReadPacket()
				if err != nil {
					if !fails {
						fail = fmt.Sprintf("packet %d of %d: %v", n, want, err)
					} else {
						fails = false
						n = -1
					}
					break
				}
				if p.Type == av.H264 || p.Type == av.AAC {
					n++
				}
			}
			if fails && want > 0 && n >= 0 {
				fail = "the description is refused, and there are packets"
			}
			r.Close()
			select { // the server sees it
			case <-over:
			case <-time.After(wait):
			}
		})
		if bad != "" {
			t.Fatalf("%s\n%s", bad, x.Show())
		}
		if serr != nil {
			t.Fatalf("server: %v\n%s", serr, x.Show())
		}
		if fail != "" {
			t.Fatalf("%s\n%s", fail, x.Show())
		}
		if !closed {
			t.Fatalf("the connection is not closed\n%s", x.Show())
		}
		t.Nontrivial(x.Wire, code, fails)
	})
}
