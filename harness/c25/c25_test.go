package c25

import (
	"bufio"
	"errors"
	"fmt"
	"net"
	"net/url"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/nareix/joy5/av"
	"github.com/nareix/joy5/format/rtsp"

	"joyverif/gen"
	"joyverif/ref"
	"joyverif/vt"
)

func TestMain(m *testing.M) { vt.Main(m) }

type media struct {
	video   bool
	other   bool   // neither H.264 nor AAC
	control string // the attribute, "" for none
	pt      int
}

type step struct {
	method  string
	uri     string
	media   int // of SETUP
	session bool
}

type plan struct {
	path, user, pass string
	hasUser          bool
	hasPass          bool
	headers          []string
	baseKind         int // 0 none, 1 Content-Base, 2 Content-Location
	basePath         string
	medias           []media
	setup            []int // nil: all
	explicit         bool  // the caller makes every step
	streams          bool  // the caller asks for the streams first
	describe         bool  // DESCRIBE too, otherwise the setup sees to it
	options          bool
	optionsSet       bool // OPTIONS between SETUP and PLAY
	keepalive        bool
	rare             bool // keepalives an hour apart
	teardown         bool
	session          string
	sessionHdr       string

	auth      *ref.RTSPAuth
	authFrom  int    // first request challenged
	challenge string // value, with the nonce filled in
	nonces    []string
	renewAt   int // request at which another nonce is demanded

	refuseAt int // index of the request (of those in steps) refused, -1 none
	code     int

	lf      bool
	hdrCase int
	lenLast bool
	frag    bool
	packets int // per media set up
}

func hdr(p *plan, s string) string {
	switch p.hdrCase {
	case 1:
		return strings.ToLower(s)
	case 2:
		return strings.ToUpper(s)
	}
	return s
}

// token text without quotes and backslashes
func text(t *vt.T, l string, min int, extra ...string) string {
	n := t.Int(min, 12, l+"n")
	s := ""
	for i := 0; i < n; i++ {
		s += vt.Pick(t, l, append([]string{"a", "B", "7", "z", "-", "_", ".", "x", "0"}, extra...)...)
	}
	return s
}

func draw(t *vt.T) *plan {
	p := &plan{refuseAt: -1, renewAt: -1}
	p.path = vt.Pick(t, "path", "/live", "", "/", "/a/b/c", "/live/", "/cam?channel=1&subtype=0", "/a%20b/%E4", "/x?u=rtsp://y/z", "/live;p=1")
	if t.OneIn(3, "hdrs") {
		p.headers = []string{"User-Agent: some thing/1.0", "X-Other: 1"}[:t.Int(1, 2, "nhdr")]
	}
	p.baseKind = t.Int(0, 2, "base")
	p.basePath = vt.Pick(t, "basepath", "/live", "/live/", "/", "/other/base/", "/x/y?z=1")
	n := t.Int(1, 3, "medias")
	hasVideo, hasAudio := false, false
	for i := 0; i < n; i++ {
		m := media{video: t.Bool("video"), pt: t.Int(96, 127, "pt")}
		if m.video && hasVideo || !m.video && hasAudio {
			m.video = !m.video
		}
		if m.video && hasVideo || !m.video && hasAudio {
			break
		}
		hasVideo, hasAudio = hasVideo || m.video, hasAudio || !m.video
		m.control = vt.Pick(t, "control", "trackID="+fmt.Sprint(i), "track"+fmt.Sprint(i), "a/b"+fmt.Sprint(i), "*", "", "ABS", "streamid="+fmt.Sprint(i)+"?x=y")
		if t.OneIn(6, "othercodec") {
			p.medias = append(p.medias, media{other: true, pt: t.Int(96, 127, "opt"), control: "other" + fmt.Sprint(i)})
		}
		p.medias = append(p.medias, m)
	}
	p.explicit = t.Bool("explicit")
	p.streams = t.OneIn(3, "streams")
	p.describe = t.Bool("describe")
	if t.OneIn(3, "subset") && len(p.medias) > 1 {
		p.setup = []int{t.Int(0, 1, "only")}
		if t.OneIn(3, "reverse") {
			p.setup = []int{1, 0}
		}
	}
	p.options = t.OneIn(3, "options")
	p.optionsSet = (p.explicit || p.setup != nil) && t.OneIn(4, "optionsSet")
	p.keepalive = t.OneIn(4, "keepalive")
	p.rare = !p.keepalive && t.OneIn(4, "rare")
	p.teardown = t.Bool("teardown")
	p.session = text(t, "sess", 1, "$", "=", "+")
	p.sessionHdr = p.session + vt.Pick(t, "sesstail", "", ";timeout=60", "; timeout=60", " ;timeout=60", " ")
	p.lf = t.OneIn(8, "lf")
	p.hdrCase = t.Int(0, 2, "case")
	p.lenLast = t.Bool("lenlast")
	p.frag = t.OneIn(6, "frag")
	p.packets = t.Int(0, 4, "packets")
	return p
}

func (p *plan) drawAuth(t *vt.T) {
	p.hasUser = !t.OneIn(8, "nouser")
	p.user = text(t, "user", 1, "@", "/", "%", " ", "é", "&")
	p.hasPass = !t.OneIn(8, "nopass")
	if p.hasPass {
		p.pass = text(t, "pass", 0, "@", "/", "%", " ", "é", ":", `"`, `\`, "?", "#")
	}
	a := &ref.RTSPAuth{Digest: t.OneIn(3, "basic") == false, User: p.user, Pass: p.pass}
	a.Realm = text(t, "realm", 0, " ", ",", "=", ";", ":", "nonce=", "realm=", "Digest ", "é", ", opaque=")
	p.nonces = []string{text(t, "nonce", 1, "=", "+", "/", ":", ",", " "), text(t, "nonce2", 1, "=", "+", "/")}
	if a.Digest && t.OneIn(3, "opaque") {
		a.Opaque = text(t, "opq", 1, "=", ",", " ")
	}
	if t.OneIn(5, "wrong") {
		a.WrongUserOrPassword = true
		a.Pass += "x"
	}
	p.auth = a
	p.authFrom = t.Int(0, 2, "authfrom")
	var ps []string
	ps = append(ps, "realm="+`"`+a.Realm+`"`)
	if a.Digest {
		ps = append(ps, "nonce="+`"NONCE"`)
		if a.Opaque != "" {
			ps = append(ps, `opaque="`+a.Opaque+`"`)
		}
		if t.Bool("stale") {
			ps = append(ps, vt.Pick(t, "st", `stale="FALSE"`, "stale=false", `stale="TRUE"`))
		}
		if t.Bool("alg") {
			ps = append(ps, vt.Pick(t, "algv", `algorithm="MD5"`, "algorithm=MD5"))
		}
	}
	for i := len(ps) - 1; i > 0; i-- {
		j := t.Int(0, i, "psh")
		ps[i], ps[j] = ps[j], ps[i]
	}
	p.challenge = map[bool]string{true: "Digest ", false: "Basic "}[a.Digest] + strings.Join(ps, vt.Pick(t, "psep", ", ", ","))
	if a.Digest && !a.WrongUserOrPassword && t.OneIn(3, "renew") {
		p.renewAt = p.authFrom + t.Int(1, 2, "renewat")
	}
}

func (p *plan) uri(addr string) string { return "rtsp://" + addr + p.path }

func (p *plan) base(addr string) string {
	if p.baseKind == 0 {
		return p.uri(addr)
	}
	return "rtsp://" + addr + p.basePath
}

// steps are the requests a client has to make, in order.
func (p *plan) steps(addr string) (s []step) {
	if p.options {
		s = append(s, step{method: "OPTIONS", uri: p.uri(addr)})
	}
	s = append(s, step{method: "DESCRIBE", uri: p.uri(addr)})
	first := true
	for _, i := range p.idx() {
		m := p.medias[i]
		u := ""
		b := p.base(addr)
		switch {
		case m.control == "" || m.control == "*":
			u = b
		case m.control == "ABS":
			u = fmt.Sprintf("rtsp://%s/abs/%d", addr, i)
		case strings.HasSuffix(b, "/"):
			u = b + m.control
		default:
			u = b + "/" + m.control
		}
		s = append(s, step{method: "SETUP", uri: u, media: i, session: !first})
		first = false
	}
	if p.optionsSet {
		s = append(s, step{method: "OPTIONS", uri: p.uri(addr), session: true})
	}
	return append(s, step{method: "PLAY", uri: p.uri(addr), session: true})
}

func (p *plan) idx() (s []int) {
	if p.setup != nil {
		return p.setup
	}
	for i := range p.medias {
		s = append(s, i)
	}
	return
}

const spropSets = "Z0IAH5WoFAFuQA==,aM48gA=="

func (p *plan) sdp(addr string) string {
	s := "v=0\r\no=- 1 1 IN IP4 127.0.0.1\r\ns=x\r\nt=0 0\r\na=control:*\r\n"
	for i, m := range p.medias {
		if m.other {
			s += fmt.Sprintf("m=audio 0 RTP/AVP %d\r\na=rtpmap:%d OPUS/48000/2\r\n", m.pt, m.pt)
		} else if m.video {
			s += fmt.Sprintf("m=video 0 RTP/AVP %d\r\na=rtpmap:%d H264/90000\r\na=fmtp:%d packetization-mode=1;sprop-parameter-sets=%s\r\n", m.pt, m.pt, m.pt, spropSets)
		} else {
			s += fmt.Sprintf("m=audio 0 RTP/AVP %d\r\na=rtpmap:%d MPEG4-GENERIC/8000/2\r\na=fmtp:%d sizelength=13;indexlength=3;indexdeltalength=3;config=1588\r\n", m.pt, m.pt, m.pt)
		}
		switch m.control {
		case "":
		case "ABS":
			s += fmt.Sprintf("a=control:rtsp://%s/abs/%d\r\n", addr, i)
		default:
			s += "a=control:" + m.control + "\r\n"
		}
	}
	return s
}

// what the media of a stream look like
func unit(video bool, i, k int) []byte {
	if video {
		return []byte{0x65, byte(i), byte(k), 0x80}
	}
	return []byte{byte(i), 0x11, byte(k)}
}

type log struct {
	reqs       []*ref.RTSPRequest
	played     bool
	challenged int
	verified   int
	refused    bool
	keepalives int
	down       chan struct{}
}

func (p *plan) serve(c *ref.RTSPConn, addr string, lg *log) error {
	steps := p.steps(addr)
	at := 0       // next step expected
	seq := 0      // requests answered other than with a challenge
	lastCSeq := 0 // of the requests so far
	nonce := 0
	refusals := 0
	renewed := false
	chans := map[int]int{}
	for {
		r, err := c.Next()
		if err != nil {
			var bad ref.ErrBadRequest
			if errors.As(err, &bad) {
				return err
			}
			return nil
		}
		lg.reqs = append(lg.reqs, r)
		cs, n := r.Get("CSeq")
		v, err := strconv.Atoi(cs)
		if n != 1 || err != nil {
			return fmt.Errorf("%s: CSeq %q (%d of them)", r.Method, cs, n)
		}
		if v <= lastCSeq && len(lg.reqs) > 1 {
			return fmt.Errorf("%s: CSeq %d after %d", r.Method, v, lastCSeq)
		}
		lastCSeq = v
		for _, h := range p.headers {
			f := strings.SplitN(h, ": ", 2)
			if v, n := r.Get(f[0]); n != 1 || v != f[1] {
				return fmt.Errorf("%s: header %s is %q (%d of them)", r.Method, f[0], v, n)
			}
		}
		resp := func(code int, h [][2]string, body string) error {
			for i := range h {
				h[i][0] = hdr(p, h[i][0])
			}
			s := ref.RTSPResponse(code, reason(code), cs, h, body, p.lenLast)
			if p.hdrCase == 1 {
				s = strings.Replace(s, "CSeq:", "cseq:", 1)
			}
			if p.lf {
				i := strings.Index(s, "\r\n\r\n")
				s = strings.ReplaceAll(s[:i+4], "\r\n", "\n") + s[i+4:]
			}
			var cuts []int
			var pause []bool
			if p.frag {
				cuts = []int{1, len(s) / 3, len(s) - len(body) - 1, len(s) - 1}
				pause = []bool{true, true, true, true}
			}
			return gen.SendPlan(c.C, []byte(s), cuts, pause)
		}

		after := at >= len(steps)
		if !after {
			w := steps[at]
			if r.Method != w.method {
				return fmt.Errorf("request %d is %s, want %s", len(lg.reqs), r.Method, w.method)
			}
			if r.URI != w.uri {
				return fmt.Errorf("%s for %q, want %q", r.Method, r.URI, w.uri)
			}
			if w.session {
				if s, n := r.Get("Session"); n != 1 || s != p.session {
					return fmt.Errorf("%s: Session %q (%d of them), want %q", r.Method, s, n, p.session)
				}
			} else if s, n := r.Get("Session"); n != 0 && (r.Method == "DESCRIBE" || r.Method == "SETUP") {
				return fmt.Errorf("%s: Session %q before any", r.Method, s)
			}
		} else {
			switch r.Method {
			case "OPTIONS", "TEARDOWN":
				if r.URI != p.uri(addr) {
					return fmt.Errorf("%s for %q, want %q", r.Method, r.URI, p.uri(addr))
				}
				if s, n := r.Get("Session"); n != 1 || s != p.session {
					return fmt.Errorf("%s: Session %q (%d of them), want %q", r.Method, s, n, p.session)
				}
			default:
				return fmt.Errorf("%s after PLAY", r.Method)
			}
		}
		if len(lg.reqs) > 60 {
			return fmt.Errorf("more than 60 requests")
		}

		if p.auth != nil && seq >= p.authFrom {
			if p.renewAt >= 0 && seq >= p.renewAt && !renewed && r.Method != "PLAY" && r.Method != "TEARDOWN" && !after {
				nonce, renewed = 1, true
			}
			p.auth.Nonce = p.nonces[nonce]
			if err := p.auth.Verify(r); err != nil {
				// one request without (or with the old nonce) is asked again
				if lg.challenged > nonce || r.Method == "PLAY" || after {
					if !p.auth.WrongUserOrPassword {
						return fmt.Errorf("%s: %v", r.Method, err)
					}
				}
				if lg.challenged > 5 {
					return fmt.Errorf("%s: asks again and again: %v", r.Method, err)
				}
				lg.challenged++
				h := [][2]string{{"WWW-Authenticate", strings.ReplaceAll(p.challenge, "NONCE", p.auth.Nonce)}}
				if err := resp(401, h, ""); err != nil {
					return nil
				}
				continue
			}
			lg.verified++
		}
		if p.refuseAt == at && !after {
			lg.refused = true
			body := ""
			if p.lenLast {
				body = "v=0\r\nm=video 0 RTP/AVP 96\r\n"
			}
			if err := resp(p.code, [][2]string{{"Location", "rtsp://127.0.0.1:1/"}}, body); err != nil {
				return nil
			}
			if refusals++; p.code != 401 || refusals == 2 { // may try once more
				at++
			}
			continue
		}
		seq++
		at++
		if lg.refused {
			return fmt.Errorf("%s after a refusal", r.Method)
		}
		switch r.Method {
		case "OPTIONS":
			if after {
				lg.keepalives++
			}
			err = resp(200, [][2]string{{"Public", "DESCRIBE, SETUP, PLAY"}}, "")
		case "DESCRIBE":
			if v, n := r.Get("Accept"); n != 1 || !strings.Contains(v, "application/sdp") {
				return fmt.Errorf("DESCRIBE: Accept %q", v)
			}
			h := [][2]string{{"Content-Type", "application/sdp"}}
			switch p.baseKind {
			case 1:
				h = append(h, [2]string{"Content-Base", p.base(addr)}, [2]string{"Content-Location", "rtsp://" + addr + "/wrong/"})
			case 2:
				h = append(h, [2]string{"Content-Location", p.base(addr)})
			}
			err = resp(200, h, p.sdp(addr))
		case "SETUP":
			tr, n := r.Get("Transport")
			ch := -1
			f := strings.Split(tr, ";")
			if n != 1 || f[0] != "RTP/AVP/TCP" {
				return fmt.Errorf("SETUP: Transport %q", tr)
			}
			for _, s := range f[1:] {
				var a, b int
				if c, _ := fmt.Sscanf(s, "interleaved=%d-%d", &a, &b); c == 2 {
					if b != a+1 || a%2 != 0 || a < 0 || a > 254 {
						return fmt.Errorf("SETUP: Transport %q", tr)
					}
					ch = a
				}
			}
			if ch < 0 {
				return fmt.Errorf("SETUP: Transport %q has no channels", tr)
			}
			for m, o := range chans {
				if o == ch {
					return fmt.Errorf("SETUP: media %d and %d both on channel %d", m, steps[at-1].media, ch)
				}
			}
			chans[steps[at-1].media] = ch
			err = resp(200, [][2]string{{"Session", p.sessionHdr}, {"Transport", tr}}, "")
		case "PLAY":
			lg.played = true
			if err = resp(200, [][2]string{{"Session", p.session}, {"RTP-Info", "url=x;seq=1"}}, ""); err != nil {
				return nil
			}
			var out []byte
			for k := 0; k < p.packets; k++ {
				for _, i := range p.idx() {
					m := p.medias[i]
					if m.other {
						continue
					}
					pl := unit(m.video, i, k)
					if !m.video {
						pl = ref.AACPayload(13, 3, []int{len(pl)}, pl)
					}
					out = append(out, ref.Block(chans[i], ref.RTP(ref.RTPOpt{PT: m.pt, Seq: uint16(k), TS: uint32(k) * 3000, Ext: -1}, pl))...)
				}
			}
			_, err = c.C.Write(out)
		case "TEARDOWN":
			once(lg.down)
			err = resp(200, nil, "")
		}
		if err != nil {
			return nil
		}
	}
}

func reason(code int) string {
	if code == 200 {
		return "OK"
	}
	return "Not The Thing You Want"
}

func (p *plan) String() string {
	s := fmt.Sprintf("path %q base %d %q setup %v explicit %v streams %v options %v keepalive %v/%v session %q packets %d", p.path, p.baseKind, p.basePath, p.setup, p.explicit, p.streams, p.options, p.keepalive, p.rare, p.sessionHdr, p.packets)
	for _, m := range p.medias {
		s += fmt.Sprintf(" media{video %v other %v control %q}", m.video, m.other, m.control)
	}
	if p.auth != nil {
		s += fmt.Sprintf(" auth %q from %d renewed at %d user %q (%v) password %q (%v) wrong %v", p.challenge, p.authFrom, p.renewAt, p.user, p.hasUser, p.pass, p.hasPass, p.auth.WrongUserOrPassword)
	}
	if p.refuseAt >= 0 {
		s += fmt.Sprintf(" refused at %d with %d", p.refuseAt, p.code)
	}
	return s
}

func run(t *vt.T, p *plan) {
	lg := &log{down: make(chan struct{})}
	var stage, wrong string
	var err error
	var got []av.Packet
	want := 0
	for _, i := range p.idx() {
		if !p.medias[i].other {
			want += p.packets
		}
	}
	addrCh := make(chan string, 1)
	bad, serr := gen.RTSPCase(0, func(c *ref.RTSPConn) error { return p.serve(c, <-addrCh, lg) }, func(addr string) {
		addrCh <- addr
		u := "rtsp://"
		if p.hasUser {
			if p.hasPass {
				u += url.UserPassword(p.user, p.pass).String() + "@"
			} else {
				u += url.User(p.user).String() + "@"
			}
		}
		u += addr + p.path
		var cli *rtsp.Client
		stage = "dial"
		if cli, err = rtsp.Dial(u); err != nil {
			return
		}
		defer cli.Close()
		cli.Headers = p.headers
		if p.keepalive {
			cli.RtpKeepAliveTimeout = time.Nanosecond
		}
		if p.rare {
			cli.RtpKeepAliveTimeout = time.Hour
		}
		if p.options {
			stage = "OPTIONS"
			if err = cli.Options(); err != nil {
				return
			}
		}
		if p.explicit && p.describe {
			stage = "DESCRIBE"
			if err = cli.Describe(); err != nil {
				return
			}
		}
		if p.streams {
			stage = "streams"
			var streams []interface{}
			if streams, err = cli.Streams(); err != nil {
				return
			}
			if len(streams) != len(p.medias) {
				wrong = fmt.Sprintf("%d streams of %d media and no error", len(streams), len(p.medias))
				return
			}
		}
		if p.explicit || p.setup != nil {
			stage = "SETUP"
			if p.setup != nil {
				err = cli.Setup(p.setup)
			} else {
				err = cli.SetupAll()
			}
			if err != nil {
				return
			}
		}
		if p.optionsSet {
			stage = "OPTIONS of the session"
			if err = cli.Options(); err != nil {
				return
			}
		}
		if p.explicit {
			stage = "PLAY"
			if err = cli.Play(); err != nil {
				return
			}
		}
		stage = "read"
		n := want
		if p.refuseAt >= 0 || p.auth != nil && (p.auth.WrongUserOrPassword || !p.hasUser) {
			n = 1 // has to fail
		}
		for i := 0; i < n; i++ {
			var pkt av.Packet
			if pkt, err = cli.ReadPacket(); err != nil {
				return
			}
			got = append(got, pkt)
		}
		if n == 0 && !p.explicit {
			return // nothing made it play
		}
		stage = "end"
		if p.teardown {
			if err = cli.Teardown(); err != nil {
				return
			}
			select {
			case <-lg.down:
			case <-time.After(60 * time.Second):
				err = errors.New("TEARDOWN did not come")
			}
		}
	})
	if bad != "" {
		t.Fatalf("%s\n%v", bad, p)
	}
	if wrong != "" {
		t.Fatalf("%s\n%v", wrong, p)
	}
	if serr != nil {
		t.Fatalf("%v\n%v\nclient: %s %v\n%s", serr, p, stage, err, last(lg))
	}
	mustFail := p.refuseAt >= 0 || p.auth != nil && (p.auth.WrongUserOrPassword || !p.hasUser)
	if mustFail {
		if err == nil {
			t.Fatalf("no error\n%v\n%s", p, last(lg))
		}
		if stage == "end" {
			t.Fatalf("fails only at the end: %v\n%v", err, p)
		}
		return
	}
	if err != nil {
		t.Fatalf("%s: %v\n%v\n%s", stage, err, p, last(lg))
	}
	if len(got) != want {
		t.Fatalf("%d packets, want %d\n%v", len(got), want, p)
	}
	k := map[int]int{}
	for n, g := range got {
		ok := false
		for _, i := range p.idx() {
			m := p.medias[i]
			if m.other {
				continue
			}
			w := unit(m.video, i, k[i])
			typ := av.AAC
			if m.video {
				typ = av.H264
				w = append([]byte{0, 0, 0, 4}, w...)
			}
			if g.Type == typ && string(g.Data) == string(w) {
				ok = true
				k[i]++
				break
			}
		}
		if !ok {
			t.Fatalf("packet %d: type %d %x\n%v", n, g.Type, g.Data, p)
		}
	}
	if !p.keepalive && lg.keepalives > 0 {
		t.Fatalf("%d keepalives\n%v", lg.keepalives, p)
	}
	if p.keepalive && p.teardown && want >= 5 && lg.keepalives == 0 {
		t.Fatalf("no keepalive\n%v", p)
	}
}

func last(lg *log) string {
	if len(lg.reqs) == 0 {
		return "no request"
	}
	return "last request:\n" + lg.reqs[len(lg.reqs)-1].Raw
}

func TestSession(t *testing.T) {
	vt.Check(t, 2500, 50000, func(t *vt.T) {
		p := draw(t)
		if t.OneIn(3, "user") {
			p.hasUser, p.user = true, text(t, "user", 1, "@")
		}
		t.Save([]byte(p.String()))
		run(t, p)
		t.Nontrivial(p.String())
		t.Sample("%v", p)
	})
}

func TestAuthentication(t *testing.T) {
	vt.Check(t, 3000, 60000, func(t *vt.T) {
		p := draw(t)
		p.drawAuth(t)
		if n := len(p.steps("")) - 2; p.authFrom > n { // PLAY is not asked again
			p.authFrom = n
		}
		t.Save([]byte(p.String()))
		run(t, p)
		t.Nontrivial(p.String())
		t.Sample("%v", p)
		t.LabelIf(p.auth.Digest, "Digest")
		t.LabelIf(!p.auth.Digest, "Basic")
		t.LabelIf(p.auth.WrongUserOrPassword, "wrong credentials")
		t.LabelIf(!p.hasUser, "no credentials")
		t.LabelIf(p.renewAt >= 0, "nonce renewed")
	})
}

func TestRefusal(t *testing.T) {
	vt.Check(t, 1500, 30000, func(t *vt.T) {
		p := draw(t)
		p.refuseAt = t.Int(0, len(p.steps(""))-1, "refuseat")
		p.code = vt.Pick(t, "code", 400, 401, 403, 404, 405, 406, 415, 451, 453, 454, 455, 457, 459, 461, 500, 501, 503, 505, 551, 301, 302, 305)
		if t.Bool("auth") {
			p.drawAuth(t)
			p.hasUser = true
			p.auth.WrongUserOrPassword = false
			p.auth.Pass = p.pass
			p.authFrom = 0
		}
		t.Save([]byte(p.String()))
		run(t, p)
		t.Nontrivial(p.String())
		t.Sample("%v", p)
		t.Label(fmt.Sprintf("refused: %s", p.steps("")[p.refuseAt].method))
	})
}

// With a timeout, a server that stops answering is an error.
func TestSilence(t *testing.T) {
	vt.Check(t, 60, 600, func(t *vt.T) {
		at := t.Int(0, 3, "at")
		partial := t.Int(0, 60, "partial")
		x := ""
		methods := []string{"DESCRIBE", "SETUP", "PLAY", "after PLAY"}
		var err error
		bad, serr := gen.RTSPCase(0, func(c *ref.RTSPConn) error {
			for i := 0; ; i++ {
				r, err := c.Next()
				if err != nil {
					return nil
				}
				cs, _ := r.Get("CSeq")
				h, body := [][2]string{{"Session", "1"}}, ""
				if r.Method == "DESCRIBE" {
					body = "v=0\r\nm=video 0 RTP/AVP 96\r\na=rtpmap:96 H264/90000\r\na=control:x\r\n"
				}
				s := ref.RTSPResponse(200, "OK", cs, h, body, false)
				if i == at {
					if partial >= len(s) {
						partial = len(s) - 1
					}
					s = s[:partial]
					x = r.Method
				}
				if _, err := c.C.Write([]byte(s)); err != nil {
					return nil
				}
			}
		}, func(addr string) {
			var cli *rtsp.Client
			if cli, err = rtsp.DialTimeout(gen.RTSPURI(addr, "/x"), time.Minute); err != nil {
				return
			}
			defer cli.Close()
			cli.RtspTimeout = 40 * time.Millisecond
			_, err = cli.ReadPacket()
		})
		if bad != "" || serr != nil {
			t.Fatalf("silent at %s (%s) after %d bytes: %s %v", methods[at], x, partial, bad, serr)
		}
		if err == nil {
			t.Fatalf("silent at %s (%s) after %d bytes: no error", methods[at], x, partial)
		}
		t.Nontrivial(fmt.Sprint(at, partial))
	})
}

// A timeout that is taken back no longer ends the session: it may have been
// meant for setting up only.
func TestTimeoutTakenBack(t *testing.T) {
	vt.Check(t, 1, 10, func(t *vt.T) {
		// cases wait, hence many at a time
		n := 24
		out := make(chan string, n)
		for i := 0; i < n; i++ {
			when := t.Int(0, 2, "when")
			pkts := t.Int(1, 4, "pkts")
			pause := time.Duration(t.Int(1300, 2000, "pause")) * time.Millisecond
			go func() { out <- takenBack(when, pkts, pause) }()
		}
		for i := 0; i < n; i++ {
			if s := <-out; s != "" {
				t.Fatalf("%s", s)
			}
		}
		t.Nontrivial(n, t.Int(0, 1<<30, "key"))
		t.Sample("%d sessions", n)
	})
}

func takenBack(when, pkts int, pause time.Duration) string {
	const timeout = 1200 * time.Millisecond
	var err error
	got, slow := 0, false
	bad, serr := gen.RTSPCase(0, func(c *ref.RTSPConn) error {
		for {
			r, err := c.Next()
			if err != nil {
				return nil
			}
			cs, _ := r.Get("CSeq")
			h, body := [][2]string{{"Session", "1"}}, ""
			if r.Method == "DESCRIBE" {
				body = "v=0\r\nm=video 0 RTP/AVP 96\r\na=rtpmap:96 H264/90000\r\na=control:x\r\n"
			}
			if _, err := c.C.Write([]byte(ref.RTSPResponse(200, "OK", cs, h, body, false))); err != nil {
				return nil
			}
			if r.Method == "PLAY" {
				break
			}
		}
		for i := 0; i <= pkts; i++ {
			rtp := []byte{0x80, 0x80 | 96, 0, byte(i), 0, 0, byte(i), 0, 1, 2, 3, 4, 0x41, 1, 2, byte(i)}
			time.Sleep(pause / time.Duration(1+i*i))
			if _, err := c.C.Write(append([]byte{'$', 0, 0, byte(len(rtp))}, rtp...)); err != nil {
				return nil
			}
		}
		c.Next() // until the client leaves
		return nil
	}, func(addr string) {
		var cli *rtsp.Client
		if cli, err = rtsp.DialTimeout(gen.RTSPURI(addr, "/x"), time.Minute); err != nil {
			return
		}
		defer cli.Close()
		begin := time.Now()
		cli.RtspTimeout = timeout
		if when >= 1 {
			_, err = cli.Streams()
		}
		if when >= 2 && err == nil {
			err = cli.SetupAll()
		}
		if when == 0 {
			err = cli.Options()
		}
		cli.RtspTimeout = 0
		if time.Since(begin) > timeout/2 { // the machine is busy: nothing can be told
			slow = true
			return
		}
		for err == nil && got < pkts {
			if _, err = cli.ReadPacket(); err == nil {
				got++
			}
		}
	})
	if slow {
		return ""
	}
	if bad != "" || serr != nil || err != nil {
		return fmt.Sprintf("RtspTimeout %v set and taken back (%d), a pause of %v: %s %v %v after %d packets", timeout, when, pause, bad, serr, err, got)
	}
	return ""
}

// TestKeepalivePace: no more keepalives than one per interval, whatever the
// pauses between the reads, and one when the interval has passed.
func TestKeepalivePace(t *testing.T) {
	vt.Check(t, 2, 20, func(t *vt.T) {
		// cases wait, hence many at a time
		n := 16
		out := make(chan string, n)
		for i := 0; i < n; i++ {
			iv := time.Duration(t.Int(5, 60, "interval")) * time.Millisecond
			var bursts []burst
			for k := t.Int(2, 4, "bursts"); k > 0; k-- {
				bursts = append(bursts, burst{t.Int(1, 60, "reads"), t.Int(0, 8, "pause")})
			}
			go func() { out <- pace(iv, bursts) }()
		}
		for i := 0; i < n; i++ {
			if s := <-out; s != "" {
				t.Fatalf("%s", s)
			}
		}
		t.Nontrivial(n, t.Int(0, 1<<30, "key"))
		t.Sample("%d sessions", n)
	})
}

type burst struct{ reads, pause int }

func pace(iv time.Duration, bursts []burst) string {
	total := 0
	for _, b := range bursts {
		total += b.reads
	}
	var marks []int // keepalives before each marked request
	down := make(chan struct{})
	var err error
	type span struct{ took, pause time.Duration }
	var spans []span
	got := 0
	bad, serr := gen.RTSPCase(0, func(c *ref.RTSPConn) error {
		keepalives, played := 0, false
		for {
			r, err := c.Next()
			if err != nil {
				return nil
			}
			if _, n := r.Get("X-Mark"); n > 0 {
				marks = append(marks, keepalives)
			} else if r.Method == "OPTIONS" {
				if !played {
					return fmt.Errorf("a keepalive before PLAY")
				}
				keepalives++
			}
			cs, _ := r.Get("CSeq")
			h, body := [][2]string{{"Session", "1"}}, ""
			if r.Method == "DESCRIBE" {
				body = "v=0\r\nm=video 0 RTP/AVP 96\r\na=rtpmap:96 H264/90000\r\na=control:x\r\n"
			}
			reply := []byte(ref.RTSPResponse(200, "OK", cs, h, body, false))
			if r.Method == "PLAY" {
				played = true
				for i := 0; i < total; i++ {
					rtp := []byte{0x80, 0x80 | 96, 0, byte(i), 0, 0, byte(i), 0, 1, 2, 3, 4, 0x41, 1, 2, byte(i)}
					reply = append(append(reply, '$', 0, 0, byte(len(rtp))), rtp...)
				}
			}
			if _, err := c.C.Write(reply); err != nil {
				return nil
			}
			if r.Method == "TEARDOWN" {
				once(down)
			}
		}
	}, func(addr string) {
		var cli *rtsp.Client
		if cli, err = rtsp.DialTimeout(gen.RTSPURI(addr, "/x"), time.Minute); err != nil {
			return
		}
		defer cli.Close()
		if _, err = cli.Streams(); err != nil {
			return
		}
		if err = cli.SetupAll(); err != nil {
			return
		}
		if err = cli.Play(); err != nil {
			return
		}
		cli.RtpKeepAliveTimeout = iv
		for _, b := range bursts {
			pause := time.Duration(b.pause) * iv
			time.Sleep(pause)
			begin := time.Now()
			for i := 0; i < b.reads; i++ {
				if _, err = cli.ReadPacket(); err != nil {
					return
				}
				got++
			}
			took := time.Since(begin)
			if err = cli.WriteRequest(rtsp.Request{Method: "OPTIONS", Uri: gen.RTSPURI(addr, "/x"), Header: []string{"X-Mark: 1"}}); err != nil {
				return
			}
			spans = append(spans, span{took, pause})
		}
		if err = cli.Teardown(); err != nil {
			return
		}
		select {
		case <-down:
		case <-time.After(60 * time.Second):
			err = errors.New("TEARDOWN did not come")
		}
	})
	desc := fmt.Sprintf("keepalives every %v, %v", iv, bursts)
	if bad != "" || serr != nil || err != nil || got != total {
		return fmt.Sprintf("%s: %s %v %v after %d of %d packets", desc, bad, serr, err, got, total)
	}
	if len(marks) != len(bursts) {
		return fmt.Sprintf("%s: %d marked requests of %d", desc, len(marks), len(bursts))
	}
	before := 0
	for i, s := range spans {
		n := marks[i] - before
		before = marks[i]
		if most := 1 + int(s.took/iv); n > most {
			return fmt.Sprintf("%s: %d keepalives within %v (reads %d)", desc, n, s.took, i)
		}
		if i > 0 && s.pause > iv && n == 0 {
			return fmt.Sprintf("%s: no keepalive in reads %d after a pause of %v", desc, i, s.pause)
		}
	}
	return ""
}

// once closes c, on the first call for it.
func once(c chan struct{}) {
	select {
	case <-c:
	default:
		close(c)
	}
}

// The address dialled is the URL's host with its port or 554. The listeners are
// on loopback addresses of their own.
func TestDialAddress(t *testing.T) {
	vt.Check(t, 60, 600, func(t *vt.T) {
		ip := fmt.Sprintf("127.%d.%d.%d", t.Int(1, 254, "a"), t.Int(0, 255, "b"), t.Int(1, 254, "c"))
		port := vt.Pick(t, "port", "", ":", "own")
		if t.OneIn(4, "v6") {
			ip = "[::1]"
		}
		addr := ip + ":0"
		if port != "own" {
			addr = ip + ":554"
		}
		l, err := net.Listen("tcp", addr)
		if err != nil {
			t.Label("not allowed to listen")
			return
		}
		defer l.Close()
		l.(*net.TCPListener).SetDeadline(time.Now().Add(20 * time.Second))
		if port == "own" {
			port = fmt.Sprintf(":%d", l.Addr().(*net.TCPAddr).Port)
		}
		user := vt.Pick(t, "user", "", "u@", "u:p@")
		uri := "rtsp://" + user + ip + port + "/x"
		done := make(chan string, 1)
		gen.Go(func() {
			nc, err := l.Accept()
			if err != nil {
				done <- err.Error()
				return
			}
			defer nc.Close()
			line, err := bufio.NewReader(nc).ReadString('\n')
			if err != nil {
				done <- err.Error()
				return
			}
			f := strings.Fields(line)
			if len(f) < 2 {
				done <- "request " + line
				return
			}
			u, err := url.Parse(f[1])
			p := "554"
			if err == nil && u.Port() != "" {
				p = u.Port()
			}
			if err != nil || net.JoinHostPort(u.Hostname(), p) != l.Addr().String() || u.User != nil {
				done <- "request URL " + f[1]
				return
			}
			done <- ""
		})
		c, err := rtsp.DialTimeout(uri, 20*time.Second)
		if err != nil {
			t.Fatalf("dial %s, with a server at %s: %v", uri, l.Addr(), err)
		}
		c.Options()
		c.Close()
		if s := <-done; s != "" {
			t.Fatalf("dial %s, with a server at %s: %s", uri, l.Addr(), s)
		}
		t.Nontrivial(uri)
	})
}
