package ref

import (
	"bufio"
	"bytes"
	"crypto/hmac"
	"crypto/sha256"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
)

// Msg is one RTMP message.
type Msg struct {
	CSID   uint32
	Type   byte
	Stream uint32
	Time   uint32
	Data   []byte
}

func (m Msg) String() string {
	return fmt.Sprintf("{csid %d type %d stream %d time %d len %d}", m.CSID, m.Type, m.Stream, m.Time, len(m.Data))
}

// ---- chunk encoder ----

// ChunkEnc writes messages as chunks the way the caller chooses. Its output
// is appended to B.
type ChunkEnc struct {
	B    []byte
	Size int
	cs   map[uint32]*encCS
}

type encCS struct {
	started  bool
	prev     Msg // last message started on this chunk stream
	delta    uint32
	hasDelta bool // a delta is registered (types 1 and 2 so far)
	ext      bool
	extv     uint32
	left     []byte
	busy     bool
}

func NewChunkEnc() *ChunkEnc { return &ChunkEnc{Size: 128, cs: map[uint32]*encCS{}} }

func (e *ChunkEnc) st(csid uint32) *encCS {
	s := e.cs[csid]
	if s == nil {
		s = &encCS{}
		e.cs[csid] = s
	}
	return s
}

// Formats lists the header types with which m may start on its chunk stream.
func (e *ChunkEnc) Formats(m Msg) []byte {
	f := []byte{0}
	s := e.st(m.CSID)
	if !s.started {
		return f
	}
	if m.Stream != s.prev.Stream {
		return f
	}
	f = append(f, 1)
	if m.Type != s.prev.Type || len(m.Data) != len(s.prev.Data) {
		return f
	}
	f = append(f, 2)
	d := m.Time - s.prev.Time
	if s.hasDelta && d == s.delta {
		f = append(f, 3)
	}
	// directly after a type 0 header a type 3 message is only used where every
	// reading of the specification gives the same time
	if !s.hasDelta && s.prev.Time == 0 && d == 0 {
		f = append(f, 3)
	}
	return f
}

func basic(b []byte, fmtp byte, csid uint32, long bool) []byte {
	switch {
	case csid >= 2 && csid <= 63:
		return append(b, fmtp<<6|byte(csid))
	case csid >= 64 && csid <= 319 && !long:
		return append(b, fmtp<<6, byte(csid-64))
	default:
		v := csid - 64
		return append(b, fmtp<<6|1, byte(v), byte(v>>8))
	}
}

// Busy reports whether a message is only partly written on the chunk stream.
func (e *ChunkEnc) Busy(csid uint32) bool { return e.st(csid).busy }

// Start writes the header and first chunk of m; it reports whether the
// message is complete.
func (e *ChunkEnc) Start(m Msg, f byte, long bool) bool {
	s := e.st(m.CSID)
	if s.busy {
		panic("ChunkEnc: chunk stream busy")
	}
	e.B = basic(e.B, f, m.CSID, long)
	d := m.Time - s.prev.Time
	v := d
	if f == 0 {
		v = m.Time
	}
	if f < 3 {
		s.ext = v >= 0xffffff
		s.extv = v
		if s.ext {
			e.B = u24(e.B, 0xffffff)
		} else {
			e.B = u24(e.B, v)
		}
	}
	if f < 2 {
		e.B = u24(e.B, uint32(len(m.Data)))
		e.B = append(e.B, m.Type)
	}
	if f == 0 {
		e.B = binary.LittleEndian.AppendUint32(e.B, m.Stream)
		s.hasDelta = false
	} else if f < 3 {
		s.hasDelta = true
		s.delta = d
	}
	if s.ext {
		e.B = u32(e.B, s.extv)
	}
	s.started = true
	s.prev = m
	s.left = m.Data
	s.busy = true
	return e.body(s)
}

func (e *ChunkEnc) body(s *encCS) bool {
	n := len(s.left)
	if n > e.Size {
		n = e.Size
	}
	e.B = append(e.B, s.left[:n]...)
	s.left = s.left[n:]
	if len(s.left) == 0 {
		s.busy = false
		return true
	}
	return false
}

// Cont writes the next chunk of the message under way on csid.
func (e *ChunkEnc) Cont(csid uint32, long bool) bool {
	s := e.st(csid)
	if !s.busy {
		panic("ChunkEnc: nothing to continue")
	}
	e.B = basic(e.B, 3, csid, long)
	if s.ext {
		e.B = u32(e.B, s.extv)
	}
	return e.body(s)
}

// Whole writes m completely with a type 0 header.
func (e *ChunkEnc) Whole(m Msg) {
	if e.Start(m, 0, false) {
		return
	}
	for !e.Cont(m.CSID, false) {
	}
}

// Abort writes the message that says the rest of the message under way on csid
// will not come. The next message there has a full header: what a shorter one
// would refer to is not specified.
func (e *ChunkEnc) Abort(csid uint32) {
	e.Whole(Msg{CSID: 2, Type: 2, Data: u32(nil, csid)})
	if s := e.st(csid); s.busy {
		*s = encCS{}
	}
}

// Take returns what was encoded since the last call.
func (e *ChunkEnc) Take() []byte { b := e.B; e.B = nil; return b }

// ---- strict chunk decoder ----

type ChunkDec struct {
	R    *bufio.Reader
	Size int
	N    int64 // bytes consumed
	cs   map[uint32]*decCS
}

type decCS struct {
	m     Msg
	delta uint32
	hasD  bool
	ext   bool
	extv  uint32
	want  int
	busy  bool
}

func NewChunkDec(r io.Reader) *ChunkDec {
	return &ChunkDec{R: bufio.NewReaderSize(r, 8192), Size: 128, cs: map[uint32]*decCS{}}
}

var ErrCut = errors.New("chunk stream cut in the middle")

// Illegal is a chunk stream that breaks the specification.
type Illegal string

func (e Illegal) Error() string { return "illegal chunk stream: " + string(e) }

func (d *ChunkDec) rd(n int) ([]byte, error) {
	b := make([]byte, n)
	k, err := io.ReadFull(d.R, b)
	d.N += int64(k)
	if err == io.EOF || err == io.ErrUnexpectedEOF {
		err = ErrCut
	}
	return b, err
}

// Next returns the next complete message. io.EOF: the stream ended between
// messages with none under way.
func (d *ChunkDec) Next() (m Msg, err error) {
	for {
		c, e := d.R.ReadByte()
		if e != nil {
			if e == io.EOF {
				for _, s := range d.cs {
					if s.busy {
						return m, ErrCut
					}
				}
			}
			return m, e
		}
		d.N++
		f := c >> 6
		csid := uint32(c & 0x3f)
		var b []byte
		switch csid {
		case 0:
			if b, err = d.rd(1); err != nil {
				return
			}
			csid = uint32(b[0]) + 64
		case 1:
			if b, err = d.rd(2); err != nil {
				return
			}
			csid = uint32(b[0]) + uint32(b[1])<<8 + 64
		}
		s := d.cs[csid]
		if s == nil {
			if f != 0 {
				return m, Illegal(fmt.Sprintf("type %d header first on chunk stream %d", f, csid))
			}
			s = &decCS{}
			d.cs[csid] = s
		}
		if s.busy && f != 3 {
			return m, Illegal(fmt.Sprintf("type %d header inside a message on chunk stream %d", f, csid))
		}
		if f < 3 {
			n := []int{11, 7, 3}[f]
			if b, err = d.rd(n); err != nil {
				return
			}
			ts := uint32(b[0])<<16 | uint32(b[1])<<8 | uint32(b[2])
			if f < 2 {
				s.want = int(b[3])<<16 | int(b[4])<<8 | int(b[5])
				s.m.Type = b[6]
			}
			if f == 0 {
				s.m.Stream = binary.LittleEndian.Uint32(b[7:])
			}
			s.ext = ts == 0xffffff
			if s.ext {
				if b, err = d.rd(4); err != nil {
					return
				}
				ts = binary.BigEndian.Uint32(b)
				if ts < 0xffffff {
					return m, Illegal(fmt.Sprintf("extended timestamp %#x below 0xffffff", ts))
				}
			}
			s.extv = ts
			if f == 0 {
				s.m.Time = ts
				s.hasD = false
			} else {
				s.m.Time += ts
				s.delta, s.hasD = ts, true
			}
		} else {
			if s.ext {
				if b, err = d.rd(4); err != nil {
					return
				}
				if v := binary.BigEndian.Uint32(b); v != s.extv {
					return m, Illegal(fmt.Sprintf("type 3 header with extended timestamp %#x, want %#x", v, s.extv))
				}
			}
			if !s.busy && s.hasD {
				s.m.Time += s.delta
			}
		}
		if !s.busy {
			s.m.Data = nil
			s.m.CSID = csid
			s.busy = true
		}
		n := s.want - len(s.m.Data)
		if n > d.Size {
			n = d.Size
		}
		if b, err = d.rd(n); err != nil {
			return
		}
		s.m.Data = append(s.m.Data, b...)
		if len(s.m.Data) < s.want {
			continue
		}
		s.busy = false
		m = s.m
		if m.Data == nil {
			m.Data = []byte{}
		}
		if m.Type <= 6 {
			if m.CSID != 2 || m.Stream != 0 {
				return m, Illegal(fmt.Sprintf("control message %v not on chunk stream 2, message stream 0", m))
			}
		}
		if m.Type == 1 {
			if len(m.Data) != 4 {
				return m, Illegal("set chunk size of wrong length")
			}
			v := binary.BigEndian.Uint32(m.Data)
			if v == 0 || v > 0x7fffffff {
				return m, Illegal(fmt.Sprintf("set chunk size %#x", v))
			}
			d.Size = int(v)
		}
		return m, nil
	}
}

// ---- handshake ----

var rtmpKeyTail = []byte{
	0xF0, 0xEE, 0xC2, 0x4A, 0x80, 0x68, 0xBE, 0xE8, 0x2E, 0x00, 0xD0, 0xD1, 0x02, 0x9E, 0x7E, 0x57,
	0x6E, 0xEC, 0x5D, 0x2D, 0x29, 0x80, 0x6F, 0xAB, 0x93, 0xB8, 0xE6, 0x36, 0xCF, 0xEB, 0x31, 0xAE}

const (
	fpName  = "Genuine Adobe Flash Player 001"
	fmsName = "Genuine Adobe Flash Media Server 001"
)

// Keys of the digest handshake.
func FPKey() []byte  { return append([]byte(fpName), rtmpKeyTail...) }
func FMSKey() []byte { return append([]byte(fmsName), rtmpKeyTail...) }

func hm(key []byte, parts ...[]byte) []byte {
	h := hmac.New(sha256.New, key)
	for _, p := range parts {
		h.Write(p)
	}
	return h.Sum(nil)
}

// DigestAt is the digest offset in a 1536-byte packet for layout 0 (offset
// bytes at 8) or 1 (offset bytes at 772).
func DigestAt(p []byte, layout int) int {
	base := 8
	if layout == 1 {
		base = 772
	}
	s := int(p[base]) + int(p[base+1]) + int(p[base+2]) + int(p[base+3])
	return s%728 + base + 4
}

// Sign1 places the digest of a C1 or S1.
func Sign1(p []byte, server bool, layout int) (digest []byte) {
	key := []byte(fpName)
	if server {
		key = []byte(fmsName)
	}
	at := DigestAt(p, layout)
	d := hm(key, p[:at], p[at+32:])
	copy(p[at:], d)
	return d
}

// Verify1 finds a valid digest in a C1 or S1 (nil if there is none).
func Verify1(p []byte, server bool) []byte {
	key := []byte(fpName)
	if server {
		key = []byte(fmsName)
	}
	for l := 0; l < 2; l++ {
		at := DigestAt(p, l)
		if d := hm(key, p[:at], p[at+32:]); bytes.Equal(d, p[at:at+32]) {
			return d
		}
	}
	return nil
}

// Verify2 checks the digest of an S2 (server) or C2 that answers a packet
// with the given digest.
func Verify2(p []byte, server bool, peerDigest []byte) bool {
	key := FPKey()
	if server {
		key = FMSKey()
	}
	k := hm(key, peerDigest)
	return bytes.Equal(hm(k, p[:1504]), p[1504:])
}

// Make2 signs an S2 or C2 filled with arbitrary bytes.
func Make2(p []byte, server bool, peerDigest []byte) {
	key := FPKey()
	if server {
		key = FMSKey()
	}
	k := hm(key, peerDigest)
	copy(p[1504:], hm(k, p[:1504]))
}

// ---- a scripted peer ----

type Peer struct {
	C   net.Conn
	Enc *ChunkEnc
	Dec *ChunkDec
	// Got are the messages read so far.
	Got []Msg
}

func NewPeer(c net.Conn) *Peer { return &Peer{C: c, Enc: NewChunkEnc()} }

// ClientHandshake runs the client side with the given C1; S1 and S2 are
// returned.
func (p *Peer) ClientHandshake(c1 []byte, signed bool) (s1, s2 []byte, err error) {
	if _, err = p.C.Write(append([]byte{3}, c1...)); err != nil {
		return
	}
	b := make([]byte, 1+1536*2)
	if _, err = io.ReadFull(p.C, b); err != nil {
		return
	}
	if b[0] != 3 {
		return nil, nil, fmt.Errorf("S0 version %d", b[0])
	}
	s1, s2 = b[1:1537], b[1537:]
	c2 := append([]byte{}, s1...)
	if d := Verify1(s1, true); signed && d != nil {
		for i := range c2 {
			c2[i] = byte(i * 7)
		}
		Make2(c2, false, d)
	}
	if _, err = p.C.Write(c2); err != nil {
		return
	}
	p.Dec = NewChunkDec(p.C)
	return
}

// ServerHandshake runs the server side with the given S1.
func (p *Peer) ServerHandshake(s1 []byte, signed bool) (c1, c2 []byte, err error) {
	b := make([]byte, 1537)
	if _, err = io.ReadFull(p.C, b); err != nil {
		return
	}
	if b[0] != 3 {
		return nil, nil, fmt.Errorf("C0 version %d", b[0])
	}
	c1 = b[1:]
	s2 := append([]byte{}, c1...)
	if d := Verify1(c1, false); signed && d != nil {
		for i := range s2 {
			s2[i] = byte(i * 11)
		}
		Make2(s2, true, d)
	}
	if _, err = p.C.Write(append(append([]byte{3}, s1...), s2...)); err != nil {
		return
	}
	c2 = make([]byte, 1536)
	if _, err = io.ReadFull(p.C, c2); err != nil {
		return
	}
	p.Dec = NewChunkDec(p.C)
	return
}

// Send writes one message in the plainest form.
func (p *Peer) Send(m Msg) error {
	p.Enc.Whole(m)
	_, err := p.C.Write(p.Enc.Take())
	return err
}

// Cmd sends an AMF0 command.
func (p *Peer) Cmd(csid, stream uint32, vals ...interface{}) error {
	return p.Send(Msg{CSID: csid, Type: 20, Stream: stream, Data: AMF0Msg(vals...)})
}

func AMF0Msg(vals ...interface{}) (b []byte) {
	for _, v := range vals {
		b = AMF0(b, v)
	}
	return b
}

// Next reads one message and keeps it.
func (p *Peer) Next() (Msg, error) {
	m, err := p.Dec.Next()
	if err == nil {
		p.Got = append(p.Got, m)
	}
	return m, err
}

// WaitCmd reads until a command whose name is one of names.
func (p *Peer) WaitCmd(names ...string) (vals []interface{}, m Msg, err error) {
	for {
		if m, err = p.Next(); err != nil {
			return
		}
		if m.Type != 20 {
			continue
		}
		if vals, err = ParseAMF0All(m.Data); err != nil {
			return
		}
		if len(vals) == 0 {
			return nil, m, fmt.Errorf("empty command")
		}
		n, _ := vals[0].(string)
		for _, w := range names {
			if n == w {
				return
			}
		}
	}
}

// Field is a member of a decoded object.
func Field(v interface{}, k string) interface{} {
	o, ok := v.(*Obj)
	if !ok {
		return nil
	}
	for _, kv := range o.KVs {
		if kv.K == k {
			return kv.V
		}
	}
	return nil
}

// ClientSession connects and publishes or plays; it returns after sending the
// publish or play command.
func (p *Peer) ClientSession(app, tcurl, stream string, publish bool) (err error) {
	if err = p.Cmd(3, 0, "connect", 1.0, &Obj{KVs: []KV{{"app", app}, {"tcUrl", tcurl}}}); err != nil {
		return
	}
	if _, _, err = p.WaitCmd("_result"); err != nil {
		return
	}
	if err = p.Cmd(3, 0, "createStream", 2.0, nil); err != nil {
		return
	}
	if _, _, err = p.WaitCmd("_result"); err != nil {
		return
	}
	if publish {
		return p.Cmd(4, 1, "publish", 3.0, nil, stream, "live")
	}
	return p.Cmd(4, 1, "play", 3.0, nil, stream)
}

// Status builds an onStatus information object.
func Status(level, code string) *Obj {
	return &Obj{KVs: []KV{{"level", level}, {"code", code}, {"description", "text"}}}
}

// ServerSession accepts a client up to its publish or play command.
func (p *Peer) ServerSession() (app, tcurl, stream string, publish bool, err error) {
	var v []interface{}
	if v, _, err = p.WaitCmd("connect"); err != nil {
		return
	}
	if len(v) < 3 {
		err = fmt.Errorf("connect with %d values", len(v))
		return
	}
	app, _ = Field(v[2], "app").(string)
	tcurl, _ = Field(v[2], "tcUrl").(string)
	if err = p.Cmd(3, 0, "_result", v[1], &Obj{KVs: []KV{{"fmsVer", "X"}}}, Status("status", "NetConnection.Connect.Success")); err != nil {
		return
	}
	if v, _, err = p.WaitCmd("createStream"); err != nil {
		return
	}
	if err = p.Cmd(3, 0, "_result", v[1], nil, 1.0); err != nil {
		return
	}
	if v, _, err = p.WaitCmd("publish", "play"); err != nil {
		return
	}
	publish = v[0] == "publish"
	if len(v) < 4 {
		err = fmt.Errorf("%v with %d values", v[0], len(v))
		return
	}
	stream, _ = v[3].(string)
	return
}
