package c27

import (
	"encoding/binary"
	"fmt"
	"net"
	"net/url"
	"os"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/nareix/joy5/av"
	"github.com/nareix/joy5/format/rtmp"

	"joyverif/gen"
	"joyverif/ref"
	"joyverif/vt"
)

func TestMain(m *testing.M) { vt.Main(m) }

var (
	relayMu sync.Mutex
	relay   *gen.Proc
)

func theRelay() *gen.Proc {
	relayMu.Lock()
	defer relayMu.Unlock()
	if relay == nil || relay.Dead() != "" {
		relay = gen.StartServer("pubsubrtmp")
	}
	return relay
}

var caseNo int64

const wait = 40 * time.Second // nothing that happens takes this long

// sent is a media packet, with the configuration in force.
type sent struct {
	gen.Pkt
	meta, vcfg, acfg *gen.Pkt
}

type pub struct {
	stream int
	no     int // in order of connecting, per stream
	conn   *rtmp.Conn
	nc     net.Conn
	media  []sent
	meta   *gen.Pkt
	vcfg   *gen.Pkt
	acfg   *gen.Pkt
	lead   *gen.Pkt // the video configuration at the last keyframe
	key    int      // index of the last keyframe, -1
	now    time.Duration
	gone   bool
	hasV   bool
	nv     bool
}

type sub struct {
	stream int
	nc     net.Conn
	joined bool
	mu     sync.Mutex
	cond   *sync.Cond
	got    []av.Packet
	lastID uint64
	err    error
	left   bool
	hold   chan struct{}
	// lockstep expectations: where it starts and ends in each publisher
	want map[*pub][2]int
	lax  map[*pub]bool
	name string
}

type world struct {
	t       *vt.T
	r       *gen.Proc
	id      int64
	streams []string
	pubs    [][]*pub // per stream, in order of connecting
	subs    []*sub
	log     []string
	metas   [][]gen.Pkt
	cfgs    []map[string]bool // per stream: type and data of configurations published
}

func (w *world) fatalf(f string, a ...interface{}) {
	w.t.Helper()
	d := ""
	if x := w.r.Dead(); x != "" {
		d = "\n" + x
	}
	w.t.Fatalf("%s\nhistory:\n%s%s", fmt.Sprintf(f, a...), strings.Join(w.log, "\n"), d)
}

func (w *world) logf(f string, a ...interface{}) { w.log = append(w.log, fmt.Sprintf(f, a...)) }

func dial(r *gen.Proc, path string) (c *rtmp.Conn, nc net.Conn, err error) {
	nc, err = net.DialTimeout("tcp", r.Addr, wait)
	if err != nil {
		return
	}
	nc.SetDeadline(time.Now().Add(wait))
	u, _ := url.Parse("rtmp://" + r.Addr + path + query())
	if c, err = rtmp.NewClient().FromNetConn(nc, u, rtmp.PrepareWriting); err != nil {
		nc.Close()
	}
	return
}

var queries int64

// query is a part of the URL that is no part of the name of the stream.
func query() string {
	n := atomic.AddInt64(&queries, 1)
	if n%3 != 0 {
		return ""
	}
	return fmt.Sprintf("?token=%d", n)
}

func newWorld(t *vt.T, nstreams int) *world {
	w := &world{t: t, r: theRelay(), id: atomic.AddInt64(&caseNo, 1)}
	like := t.Int(0, 3, "alike")
	for i := 0; i < nstreams; i++ {
		s := fmt.Sprintf("%d-%d", os.Getpid(), w.id)
		switch like { // the names have something in common
		case 0:
			s = "/live/" + s + strings.Repeat("x", i)
		case 1:
			s = fmt.Sprintf("/live%d/%s", i, s)
		case 2:
			s = "/" + s + strings.Repeat("/x", i+1)
		case 3:
			s = "/live" + strings.Repeat("/x", i) + "/" + s
		}
		w.streams = append(w.streams, s)
		w.pubs = append(w.pubs, nil)
		w.metas = append(w.metas, nil)
		w.cfgs = append(w.cfgs, map[string]bool{})
	}
	return w
}

func (w *world) close() {
	for _, ps := range w.pubs {
		for _, p := range ps {
			p.nc.Close()
		}
	}
	for _, s := range w.subs {
		s.release()
		s.nc.Close()
	}
}

func (s *sub) release() {
	if s.hold != nil {
		close(s.hold)
		s.hold = nil
	}
}

func (w *world) publish(stream int) *pub {
	c, nc, err := dial(w.r, w.streams[stream])
	if err != nil {
		w.fatalf("publisher of stream %d: %v", stream, err)
	}
	p := &pub{stream: stream, no: len(w.pubs[stream]), conn: c, nc: nc, key: -1}
	w.pubs[stream] = append(w.pubs[stream], p)
	w.logf("publisher %d.%d connected", stream, p.no)
	return p
}

// join starts a subscriber. The relay answers it only when there is something
// to send, so that what follows the connection is left to the goroutine.
func (w *world) join(stream int, rcvbuf int, hold chan struct{}) *sub {
	nc, err := net.DialTimeout("tcp", w.r.Addr, wait)
	if err != nil {
		w.fatalf("subscriber of stream %d: %v", stream, err)
	}
	if rcvbuf > 0 {
		nc.(*net.TCPConn).SetReadBuffer(rcvbuf)
	}
	s := &sub{stream: stream, nc: nc, want: map[*pub][2]int{}, lax: map[*pub]bool{}, name: fmt.Sprintf("%d of stream %d", len(w.subs), stream)}
	s.cond = sync.NewCond(&s.mu)
	w.subs = append(w.subs, s)
	w.logf("subscriber %s joined", s.name)
	s.hold = hold
	go s.run(w.r, w.streams[stream], hold)
	return s
}

func (s *sub) run(r *gen.Proc, path string, hold chan struct{}) {
	u, _ := url.Parse("rtmp://" + r.Addr + path + query())
	c, err := rtmp.NewClient().FromNetConn(s.nc, u, rtmp.PrepareReading)
	s.mu.Lock()
	s.joined, s.err = err == nil, err
	s.cond.Broadcast()
	s.mu.Unlock()
	if err != nil {
		return
	}
	if hold != nil {
		<-hold
	}
	for {
		pkt, err := c.ReadPacket()
		s.mu.Lock()
		if err != nil {
			s.err = err
			s.cond.Broadcast()
			s.mu.Unlock()
			return
		}
		s.got = append(s.got, pkt)
		if id, ok := idOf(pkt); ok {
			s.lastID = id
		}
		s.cond.Broadcast()
		s.mu.Unlock()
	}
}

func idOf(pkt av.Packet) (uint64, bool) {
	if pkt.Type != av.H264 && pkt.Type != av.AAC || len(pkt.Data) < 8 {
		return 0, false
	}
	return binary.BigEndian.Uint64(pkt.Data), true
}

// until waits until the subscriber has received the packet.
func (w *world) until(s *sub, id uint64) {
	tm := time.AfterFunc(wait, func() { s.mu.Lock(); s.cond.Broadcast(); s.mu.Unlock() })
	defer tm.Stop()
	end := time.Now().Add(wait)
	s.mu.Lock()
	for s.lastID != id && s.err == nil && time.Now().Before(end) {
		s.cond.Wait()
	}
	ok, err, n := s.lastID == id, s.err, len(s.got)
	last := s.lastID
	s.mu.Unlock()
	if !ok {
		w.fatalf("subscriber %s has not received packet %x (%d packets so far, the last one is %x, error %v)", s.name, id, n, last, err)
	}
}

// draw makes the next packet of a publisher.
func (p *pub) draw(w *world, t *vt.T, big int) gen.Pkt {
	var k gen.Pkt
	p.now += time.Duration(t.Int(0, 60, "dt")) * time.Millisecond
	kind := t.Int(0, 11, "kind")
	if p.nv && kind < 6 {
		kind = 6 // no video
	}
	switch {
	case kind == 11:
		k.P.Type = av.Metadata
		k.Meta = []interface{}{&ref.Obj{KVs: []ref.KV{{K: "n", V: float64(t.Int(0, 3, "metan"))}, {K: "name", V: "onMetaData?"}, {K: "p", V: float64(p.no)}}, ECMA: t.Bool("ecma")}}
		for _, v := range k.Meta {
			k.P.Data = ref.AMF0(k.P.Data, v)
		}
		return k
	case kind == 10:
		k.P.Type = av.AACDecoderConfig
		k.P.Data = []byte{0x12, byte(t.Int(0, 2, "acfg"))}
		return k
	case kind == 9 && !p.nv:
		k.P.Type = av.H264DecoderConfig
		k.P.Data = []byte{1, 2, 3, byte(t.Int(0, 2, "vcfg")), byte(p.no)}
		return k
	case kind <= 5:
		k.P.Type = av.H264
		k.P.IsKeyFrame = !p.hasV || t.OneIn(3, "key")
		k.P.CTime = time.Duration(t.Int(0, 80, "ct")) * time.Millisecond
	default:
		k.P.Type = av.AAC
	}
	k.P.Time = p.now
	n := t.Int(0, 60, "size")
	if big > 0 {
		n = big
	} else if t.OneIn(12, "bigger") {
		n = t.Int(100, 9000, "bigsize")
	}
	k.P.Data = append(make([]byte, 8), vt.Fill(n, t.U64("fill"))...)
	binary.BigEndian.PutUint64(k.P.Data, uint64(w.id)<<32|uint64(p.stream)<<28|uint64(p.no)<<20|uint64(len(p.media)+1))
	return k
}

// account notes that a packet is published.
func (p *pub) account(w *world, k gen.Pkt) {
	c := k
	switch k.P.Type {
	case av.Metadata:
		p.meta = &c
		w.metas[p.stream] = append(w.metas[p.stream], c)
	case av.H264DecoderConfig:
		p.vcfg = &c
		w.cfgs[p.stream][fmt.Sprint(k.P.Type, k.P.Data)] = true
	case av.AACDecoderConfig:
		p.acfg = &c
		w.cfgs[p.stream][fmt.Sprint(k.P.Type, k.P.Data)] = true
	default:
		if k.P.IsKeyFrame {
			p.hasV = true
			p.key = len(p.media)
			p.lead = p.vcfg
		}
		p.media = append(p.media, sent{k, p.meta, p.lead, p.acfg})
	}
}

func (w *world) write(p *pub, k gen.Pkt) error {
	p.nc.SetDeadline(time.Now().Add(wait))
	return p.conn.WritePacket(k.P)
}

func media(k gen.Pkt) bool { return k.P.Type == av.H264 || k.P.Type == av.AAC }

func sameMeta(x gen.Pkt, g av.Packet) bool {
	return gen.SamePkt(gen.Pkt{P: av.Packet{Type: av.Metadata, Time: g.Time}, Meta: x.Meta}, g) == ""
}

// check is what holds for every subscriber in whatever schedule.
func (w *world) check(s *sub) (segs map[*pub][2]int) {
	s.mu.Lock()
	got := s.got
	s.mu.Unlock()
	segs = map[*pub][2]int{}
	var meta, vcfg, acfg *av.Packet
	var cur *pub
	last := -1
	for n, g := range got {
		g := g
		switch g.Type {
		case av.Metadata:
			meta = &g
			known := false
			for _, x := range w.metas[s.stream] {
				known = known || sameMeta(x, g)
			}
			if !known {
				w.fatalf("subscriber %s, packet %d: metadata %x that nobody published", s.name, n, g.Data)
			}
			continue
		case av.H264DecoderConfig, av.AACDecoderConfig:
			if !w.cfgs[s.stream][fmt.Sprint(g.Type, g.Data)] {
				w.fatalf("subscriber %s, packet %d: %v %x that nobody published", s.name, n, g, g.Data)
			}
			if g.Type == av.H264DecoderConfig {
				vcfg = &g
			} else {
				acfg = &g
			}
			continue
		case av.H264, av.AAC:
		default:
			w.fatalf("subscriber %s, packet %d: %v", s.name, n, g)
		}
		id, ok := idOf(g)
		if !ok || int64(id>>32) != w.id || int(id>>28&15) >= len(w.pubs) {
			w.fatalf("subscriber %s, packet %d: %v is not of this history: %s", s.name, n, g, gen.Hex(g.Data))
		}
		if st := int(id >> 28 & 15); st != s.stream {
			w.fatalf("subscriber %s, packet %d is of stream %d", s.name, n, st)
		}
		no, i := int(id>>20&255), int(id&0xfffff)-1
		if no >= len(w.pubs[s.stream]) || i < 0 || i >= len(w.pubs[s.stream][no].media) {
			w.fatalf("subscriber %s, packet %d: %v is not of this history", s.name, n, g)
		}
		p := w.pubs[s.stream][no]
		x := p.media[i]
		if d := gen.SamePkt(x.Pkt, g); d != "" {
			w.fatalf("subscriber %s, packet %d of publisher %d: %s", s.name, i, no, d)
		}
		if p != cur {
			if cur != nil && no < cur.no {
				w.fatalf("subscriber %s: packet %d of publisher %d after the media of publisher %d", s.name, i, no, cur.no)
			}
			cur, last = p, -1
			if i != 0 && !x.P.IsKeyFrame {
				w.fatalf("subscriber %s starts with packet %d of publisher %d, no keyframe", s.name, i, no)
			}
			segs[p] = [2]int{i, i}
		} else if i <= last {
			w.fatalf("subscriber %s: packet %d of publisher %d after packet %d", s.name, i, no, last)
		} else if i != last+1 && !x.P.IsKeyFrame {
			w.fatalf("subscriber %s: packet %d of publisher %d, no keyframe, after packet %d", s.name, i, no, last)
		}
		if i != last+1 && last >= 0 {
			segs[p] = [2]int{-1, i} // with a gap
		}
		segs[p] = [2]int{segs[p][0], i}
		last = i

		if x.meta != nil {
			if meta == nil || !sameMeta(*x.meta, *meta) {
				w.fatalf("subscriber %s: packet %d of publisher %d without the metadata %v in force; it has %v", s.name, i, no, gen.Show(ref.Arr(x.meta.Meta)), meta)
			}
		}
		if g.Type == av.H264 && x.vcfg != nil && (vcfg == nil || string(vcfg.Data) != string(x.vcfg.P.Data)) {
			w.fatalf("subscriber %s: packet %d of publisher %d without the video configuration %x in force; it has %v", s.name, i, no, x.vcfg.P.Data, vcfg)
		}
		if g.Type == av.AAC && x.acfg != nil && (acfg == nil || string(acfg.Data) != string(x.acfg.P.Data)) {
			w.fatalf("subscriber %s: packet %d of publisher %d without the audio configuration %x in force; it has %v", s.name, i, no, x.acfg.P.Data, acfg)
		}
	}
	return
}

func (w *world) cur(stream int) *pub {
	if n := len(w.pubs[stream]); n > 0 {
		return w.pubs[stream][n-1]
	}
	return nil
}

// send1 publishes one packet, and sees it through to all subscribers.
func (w *world) send1(p *pub, k gen.Pkt) {
	p.account(w, k)
	w.logf("publisher %d.%d sends %v key=%v (%d)", p.stream, p.no, av.PacketTypeString[k.P.Type], k.P.IsKeyFrame, len(p.media)-1)
	if err := w.write(p, k); err != nil {
		w.fatalf("publisher %d.%d: %v", p.stream, p.no, err)
	}
	if !media(k) {
		return
	}
	id, _ := idOf(k.P)
	for _, s := range w.subs {
		if s.stream == p.stream && !s.left {
			w.until(s, id)
			if x, ok := s.want[p]; ok {
				s.want[p] = [2]int{x[0], len(p.media) - 1}
			} else {
				s.want[p] = [2]int{len(p.media) - 1, len(p.media) - 1}
			}
		}
	}
}

// Every packet is seen through before the next step: then what each
// subscriber gets is determined.
func TestLockstep(t *testing.T) {
	vt.Check(t, 800, 12000, func(t *vt.T) {
		w := newWorld(t, t.Int(1, 2, "streams"))
		defer w.close()
		takeovers, joins, packets, replaced := 0, 0, 0, 0
		for st := range w.streams { // a witness that is there from the start
			w.join(st, 0, nil)
		}
		for n := t.Int(3, 30, "ops"); n > 0; n-- {
			st := t.Int(0, len(w.streams)-1, "stream")
			p := w.cur(st)
			op := t.Int(0, 17, "op")
			if p == nil || p.gone {
				if op == 1 { // a subscriber without a publisher
					s := w.join(st, 0, nil)
					if p != nil {
						s.lax[p] = true
					}
					continue
				}
				op = 0
			}
			switch {
			case op == 0 || op == 17: // another publisher
				p = w.publish(st)
				p.nv = t.OneIn(5, "novideo")
				takeovers++
				for !func() bool {
					k := p.draw(w, t, 0)
					w.send1(p, k)
					return media(k)
				}() {
				}
			case op == 1 || op == 2: // a subscriber
				s := w.join(st, 0, nil)
				joins++
				if len(p.media) > 0 {
					at := max(p.key, 0)
					s.want[p] = [2]int{at, len(p.media) - 1}
					id, _ := idOf(p.media[len(p.media)-1].P)
					w.until(s, id)
				}
			case op == 3: // a subscriber leaves, not the witness
				for i := len(w.streams); i < len(w.subs); i++ {
					if s := w.subs[i]; s.stream == st && !s.left && t.Bool("leave") {
						s.left = true
						s.nc.Close()
						w.logf("subscriber %s left", s.name)
						break
					}
				}
			case op == 4:
				p.gone = true
				p.nc.Close()
				w.logf("publisher %d.%d left", st, p.no)
			case op == 5 || op == 6: // one that has been replaced leaves, or goes on
				for _, q := range w.pubs[st] {
					if q == p || q.gone || !t.Bool("this") {
						continue
					}
					if op == 6 {
						q.nc.SetDeadline(time.Now().Add(wait))
						for i := t.Int(1, 3, "more"); i > 0; i-- {
							q.conn.WritePacket(av.Packet{Type: av.AAC, Data: []byte("of a replaced publisher")})
						}
						w.logf("publisher %d.%d goes on", st, q.no)
					}
					if op == 5 || t.Bool("and leaves") {
						q.gone = true
						q.nc.Close()
						w.logf("publisher %d.%d left", st, q.no)
					}
					replaced++
				}
				time.Sleep(time.Duration(t.Int(0, 3, "ms")) * time.Millisecond)
				w.send1(p, p.draw(w, t, 0))
			default:
				for c := t.Int(1, 6, "burst"); c > 0; c-- {
					w.send1(p, p.draw(w, t, 0))
					packets++
				}
			}
		}
		for _, s := range w.subs {
			segs := w.check(s)
			for p, x := range s.want {
				if y, ok := segs[p]; !ok || y != x {
					w.fatalf("subscriber %s got packets %v of publisher %d, want %v", s.name, y, p.no, x)
				}
			}
			for p, y := range segs {
				if _, ok := s.want[p]; !ok && !s.lax[p] {
					w.fatalf("subscriber %s got packets %v of publisher %d, want none", s.name, y, p.no)
				}
			}
		}
		if x := w.r.Dead(); x != "" {
			w.fatalf("%s", x)
		}
		if packets >= 2 && joins >= 1 {
			t.Nontrivial(strings.Join(w.log, "\n"))
			t.Sample("%s", strings.Join(w.log, "; "))
		}
		t.LabelIf(takeovers > 1, "several publishers")
		t.LabelIf(replaced > 0, "a replaced publisher leaves or goes on")
		t.LabelIf(len(w.streams) > 1, "two streams")
	})
}

// open is the number of files the relay has open.
func openFiles(w *world) int {
	l, err := os.ReadDir(fmt.Sprintf("/proc/%d/fd", w.r.Cmd.Process.Pid))
	if err != nil {
		w.fatalf("relay: %v", err)
	}
	return len(l)
}

// Those who leave or are replaced are released, and a stream that everyone
// has left starts afresh.
func TestReleased(t *testing.T) {
	vt.Check(t, 150, 3000, func(t *vt.T) {
		w := newWorld(t, 1)
		defer w.close()
		idle := func(what string, n int) {
			var f int
			for end := time.Now().Add(wait); time.Now().Before(end); time.Sleep(2 * time.Millisecond) {
				if f = openFiles(w); f <= n {
					return
				}
			}
			w.fatalf("%s, and the relay has %d files open, %d before", what, f, n)
		}
		// what previous cases have left behind goes away
		base := openFiles(w)
		for i := 0; i < 100 && base > baseline; i++ {
			time.Sleep(20 * time.Millisecond)
			base = openFiles(w)
		}
		if baseline > base {
			baseline = base
		}
		base = max(base, baseline)
		npubs, nsubs := t.Int(1, 3, "pubs"), t.Int(0, 3, "subs")
		w.join(0, 0, nil)
		for i := 0; i < npubs; i++ {
			p := w.publish(0)
			for n := t.Int(1, 8, "n"); n > 0; n-- {
				w.send1(p, p.draw(w, t, 0))
			}
			for ; nsubs > 0 && t.Bool("sub"); nsubs-- {
				s := w.join(0, 0, nil)
				if len(p.media) > 0 {
					id, _ := idOf(p.media[len(p.media)-1].P)
					w.until(s, id)
				}
			}
			if t.OneIn(3, "leaves") {
				p.nc.Close()
				p.gone = true
			} else if i+1 < npubs && t.Bool("goes on") {
				p.gone = true
			}
		}
		// a publisher that has been replaced is sent away when it goes on
		for _, p := range w.pubs[0][:npubs-1] {
			if p.gone && t.Bool("again") {
				var err error
				p.nc.SetDeadline(time.Now().Add(wait))
				for err == nil {
					k := av.Packet{Type: av.AAC, Data: make([]byte, 9000)}
					err = p.conn.WritePacket(k)
				}
				if ne, ok := err.(net.Error); ok && ne.Timeout() {
					w.fatalf("publisher %d has been replaced, goes on sending, and is not disconnected", p.no)
				}
			}
		}
		w.close()
		idle("everyone has left", base)
		for _, s := range w.subs {
			s.left = true
		}
		// the name again
		time.Sleep(time.Duration(t.Int(0, 3, "ms")) * time.Millisecond)
		old := len(w.pubs[0])
		s := w.join(0, 0, nil)
		if t.Bool("late publisher") {
			time.Sleep(3 * time.Millisecond)
		}
		p := w.publish(0)
		k := p.draw(w, t, 0)
		for !media(k) {
			w.send1(p, k)
			k = p.draw(w, t, 0)
		}
		w.send1(p, k)
		for q := range w.check(s) {
			if q.no < old {
				w.fatalf("subscriber %s got media of publisher %d, that had left, and so had everyone else", s.name, q.no)
			}
		}
		t.Nontrivial(strings.Join(w.log, "\n"))
	})
}

var baseline = 1 << 30

// Publishers and subscribers run on their own.
func TestFree(t *testing.T) {
	vt.Check(t, 800, 12000, func(t *vt.T) {
		w := newWorld(t, t.Int(1, 3, "streams"))
		defer w.close()
		type plan struct {
			p     *pub
			pkts  []gen.Pkt
			pause []int
		}
		type act struct {
			kind   int // 0 publisher, 1 subscriber, 2 subscriber leaves, 3 pause
			stream int
			n      int
			plan   plan
		}
		var acts []act
		nos := make([]int, len(w.streams))
		for n := t.Int(2, 10, "acts"); n > 0; n-- {
			a := act{kind: t.Int(0, 3, "act"), stream: t.Int(0, len(w.streams)-1, "stream"), n: t.Int(0, 9, "n")}
			if a.kind == 0 {
				a.plan = w.drawPlan(t, a.stream, nos[a.stream])
				nos[a.stream]++
			}
			acts = append(acts, a)
		}
		for st := range w.streams { // at least one of each at the end
			acts = append(acts, act{kind: 1, stream: st}, act{kind: 0, stream: st, plan: w.drawPlan(t, st, nos[st])})
		}
		var wg sync.WaitGroup
		finals := map[*pub]error{}
		var mu sync.Mutex
		for _, a := range acts {
			switch a.kind {
			case 0:
				c, nc, err := dial(w.r, w.streams[a.stream])
				if err != nil {
					w.fatalf("publisher: %v", err)
				}
				p := a.plan.p
				p.conn, p.nc = c, nc
				w.pubs[a.stream] = append(w.pubs[a.stream], p)
				w.logf("publisher %d.%d connected, to send %d packets", a.stream, p.no, len(a.plan.pkts))
				wg.Add(1)
				go func(pl plan) {
					defer wg.Done()
					for i, k := range pl.pkts {
						if pl.pause[i] > 0 {
							time.Sleep(time.Duration(pl.pause[i]) * 50 * time.Microsecond)
						}
						if err := w.write(p, k); err != nil {
							mu.Lock()
							finals[p] = err
							mu.Unlock()
							return
						}
					}
				}(a.plan)
			case 1:
				w.join(a.stream, 0, nil)
			case 2:
				if len(w.subs) > 0 {
					s := w.subs[a.n%len(w.subs)]
					s.left = true
					s.nc.Close()
					w.logf("subscriber %s left", s.name)
				}
			case 3:
				time.Sleep(time.Duration(a.n) * 100 * time.Microsecond)
			}
		}
		wg.Wait()
		for st := range w.streams {
			p := w.cur(st)
			if err := finals[p]; err != nil {
				w.fatalf("publisher %d.%d: %v", st, p.no, err)
			}
			if len(p.media) == 0 {
				continue
			}
			id, _ := idOf(p.media[len(p.media)-1].P)
			for _, s := range w.subs {
				if s.stream == st && !s.left {
					w.until(s, id)
				}
			}
		}
		n := 0
		for _, s := range w.subs {
			w.check(s)
			n += len(s.got)
		}
		if x := w.r.Dead(); x != "" {
			w.fatalf("%s", x)
		}
		if n >= 2 {
			t.Nontrivial(strings.Join(w.log, "\n"), n)
			t.Sample("%s: %d packets delivered", strings.Join(w.log, "; "), n)
		}
	})
}

func (w *world) drawPlan(t *vt.T, stream, no int) (pl struct {
	p     *pub
	pkts  []gen.Pkt
	pause []int
}) {
	p := &pub{stream: stream, no: no, key: -1, nv: t.OneIn(6, "novideo")}
	for n := t.Int(0, 40, "npkts"); n > 0; n-- {
		k := p.draw(w, t, 0)
		p.account(w, k)
		pl.pkts = append(pl.pkts, k)
		ps := 0
		if t.OneIn(6, "pause") {
			ps = t.Int(1, 20, "pauselen")
		}
		pl.pause = append(pl.pause, ps)
	}
	pl.p = p
	return
}

// A subscriber that does not read disturbs nobody, and goes on later.
func TestStalled(t *testing.T) {
	vt.Check(t, 8, 100, func(t *vt.T) {
		w := newWorld(t, 1)
		defer w.close()
		w.join(0, 0, nil)
		p := w.publish(0)
		hold := make(chan struct{})
		size := t.Int(40000, 120000, "size")
		n := (16 << 20) / size
		at, rare := t.Int(0, n/2, "join"), t.Bool("rare keyframes")
		var s *sub
		for i := 0; i < n; i++ {
			if i == at {
				s = w.join(0, 128<<10, hold)
				s.left = true // does not follow
				if t.Bool("starts") {
					time.Sleep(50 * time.Millisecond)
				}
			}
			k := p.draw(w, t, size)
			if rare && p.hasV && k.P.IsKeyFrame && !t.OneIn(8, "rarely") {
				k.P.IsKeyFrame = false
			}
			p.account(w, k)
			if err := w.write(p, k); err != nil {
				w.fatalf("publisher: %v", err)
			}
			if media(k) {
				id, _ := idOf(k.P)
				w.until(w.subs[0], id)
			}
		}
		s.release()
		id, _ := idOf(p.media[len(p.media)-1].P)
		w.until(s, id)
		segs := w.check(w.subs[0])
		if segs[p] != [2]int{0, len(p.media) - 1} {
			w.fatalf("subscriber that keeps up got packets %v of %d", segs[p], len(p.media))
		}
		w.check(s)
		t.LabelIf(len(s.got) < len(p.media), "fell behind")
		t.Nontrivial(fmt.Sprint(size, len(p.media)))
	})
}
