package gen

import (
	"bytes"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"strings"

	"joyverif/ref"
	"joyverif/vt"
)

// RTSPUnit is a packet a client has to deliver, or a change of parameter sets.
type RTSPUnit struct {
	Data   []byte
	Key    bool
	TS     int64 // in clock ticks, not wrapped
	Change bool
	SPS    []byte
	PPS    []byte
	Note   string
}

type rtpPacket struct {
	b     []byte
	lost  bool
	units []RTSPUnit // delivered by it,
	needs []int      // if these packets were, too
}

// RTSPStream is one stream of a session.
type RTSPStream struct {
	Video    bool
	PT       int
	Clock    int
	Control  string
	SPS, PPS []byte // the first ones, in force from the description on if InSDP
	SPSID    int
	PPSID    int
	InSDP    bool
	Config   []byte // AAC
	SizeLen  int
	IndexLen int
	sdp      []string
	pkts     []rtpPacket
	Want     []RTSPUnit
	Lost     int
	TSWrap   bool
	SeqWrap  bool
	AnnexB   int
}

// RTSPSession is the media of a session and how it goes over the wire.
type RTSPSession struct {
	Gone    chan bool // if set, the server closes when its data has arrived, and tells
	Streams []*RTSPStream
	SDP     string
	Wire    []byte
	Borders []int // ends of messages in Wire
	PlayAt  int   // index into Borders: the response to PLAY comes before that message
	Foreign int
}

// RTSPOpts are what a session may have.
type RTSPOpts struct {
	Loss   bool
	Change bool
	Long   bool
	Big    bool
}

func splitSizes(t *vt.T, total, parts int, l string) (sizes []int) {
	// parts-1 sizes, each part at least one byte
	left := total
	for i := 0; i < parts-1; i++ {
		max := left - (parts - 1 - i)
		n := 1
		if max > 1 {
			n = t.Int(1, max, l)
		}
		sizes = append(sizes, n)
		left -= n
	}
	return
}

type rtpState struct {
	seq  uint16
	ssrc uint32
	base uint32
	t    *vt.T
	s    *RTSPStream
	// of gaps in long streams, seconds
	least int
}

func (st *rtpState) emit(ts int64, payload []byte, units []RTSPUnit, needs []int) {
	t := st.t
	o := ref.RTPOpt{PT: st.s.PT, Seq: st.seq, TS: st.base + uint32(ts), SSRC: st.ssrc, Marker: t.Bool("marker"), Ext: -1}
	if t.OneIn(6, "hdr") {
		o.CSRC = t.Int(0, 15, "csrc")
		if t.Bool("hasext") {
			o.Ext = vt.Pick(t, "ext", 0, 1, 2, 17, 17, 255, 256, 300)
		}
		if t.Bool("haspad") {
			o.Pad = vt.Pick(t, "pad", 1, 2, 4, 200, 255)
		}
	}
	if int64(st.base)+ts > 1<<32 {
		st.s.TSWrap = true
	}
	if st.seq == 65535 {
		st.s.SeqWrap = true
	}
	st.seq++
	st.s.pkts = append(st.s.pkts, rtpPacket{b: ref.RTP(o, payload), units: units, needs: needs})
}

const maxRTPPayload = 65535 - 12 - 60 - 4 - 300*4 - 255

// plainUnit tells whether a unit can stand between start codes.
func plainUnit(n []byte) bool {
	return n[len(n)-1] != 0 && !bytes.Contains(n, []byte{0, 0, 0}) && !bytes.Contains(n, []byte{0, 0, 1})
}

// likeAVCC tells whether bytes with start codes are units with lengths, too.
func likeAVCC(b []byte) bool {
	for len(b) >= 4 {
		n := int64(b[0])<<24 | int64(b[1])<<16 | int64(b[2])<<8 | int64(b[3])
		if n > int64(len(b)-4) {
			return false
		}
		b = b[4+n:]
	}
	return len(b) == 0
}

func (st *rtpState) h264(ts int64, nals [][]byte) {
	t := st.t
	unit := func(n []byte) []RTSPUnit {
		typ := n[0] & 0x1f
		if typ < 1 || typ > 5 {
			return nil
		}
		d := append([]byte{byte(len(n) >> 24), byte(len(n) >> 16), byte(len(n) >> 8), byte(len(n))}, n...)
		return []RTSPUnit{{Data: d, Key: typ == 5, TS: ts}}
	}
	for len(nals) > 0 {
		n := nals[0]
		kind := vt.Pick(t, "pkt", 0, 0, 0, 1, 1, 1, 2, 2, 2, 3)
		if len(n) > maxRTPPayload {
			kind = 1
		}
		if len(n) < 3 && kind == 1 {
			kind = 0
		}
		switch kind {
		case 0:
			st.emit(ts, n, unit(n), nil)
			nals = nals[1:]
		case 1:
			parts := t.Int(2, min(6, len(n)-1), "fu")
			var sizes []int
			if min := (len(n) + maxRTPPayload - 3) / (maxRTPPayload - 2); len(n) > 60000 || parts < min {
				for left := len(n) - 1; left > 50000; {
					k := t.Int(20000, 50000, "fubig")
					sizes = append(sizes, k)
					left -= k
				}
			} else {
				sizes = splitSizes(t, len(n)-1, parts, "fus")
			}
			f := ref.FUA(n, sizes)
			first := len(st.s.pkts)
			for i, p := range f {
				if i < len(f)-1 {
					st.emit(ts, p, nil, nil)
					continue
				}
				var needs []int
				for k := first; k < first+i; k++ {
					needs = append(needs, k)
				}
				st.emit(ts, p, unit(n), needs)
			}
			nals = nals[1:]
		case 2:
			k := t.Int(1, len(nals), "stap")
			size := 1
			var units []RTSPUnit
			var group [][]byte
			for i := 0; i < k && size+2+len(nals[i]) <= maxRTPPayload; i++ {
				size += 2 + len(nals[i])
				group = append(group, nals[i])
				units = append(units, unit(nals[i])...)
			}
			if len(group) == 0 {
				continue
			}
			st.emit(ts, ref.STAPA(group), units, nil)
			nals = nals[len(group):]
		case 3: // with start codes, as some cameras send them
			k := t.Int(1, len(nals), "annexb")
			var body []byte
			var units []RTSPUnit
			n := 0
			for ; n < k && len(body)+4+len(nals[n]) <= maxRTPPayload && plainUnit(nals[n]); n++ {
				if n == 0 || t.Bool("longcode") {
					body = append(body, 0)
				}
				body = append(append(body, 0, 0, 1), nals[n]...)
				units = append(units, unit(nals[n])...)
			}
			if n == 0 || likeAVCC(body) {
				continue
			}
			st.s.AnnexB++
			st.emit(ts, body, units, nil)
			nals = nals[n:]
		}
	}
}

func (st *rtpState) gap(o RTSPOpts) int64 {
	t := st.t
	c := int64(st.s.Clock)
	if o.Long {
		return int64(t.Int(st.least, 1790, "gaps")) * c
	}
	switch t.Int(0, 4, "gapk") {
	case 0:
		return 0
	case 1:
		return int64(t.Int(1, 10, "gapt"))
	case 2:
		return c / 25
	case 3:
		return int64(t.Int(0, int(c), "gapc"))
	default:
		return int64(t.Int(1, 20, "gaps")) * c
	}
}

func drawNAL(t *vt.T, o RTSPOpts) []byte {
	max := 2000
	if o.Big && t.OneIn(8, "bignal") {
		max = 150000
	}
	n := NALU(t, max, "nal")
	if max > 2000 && t.Bool("really") {
		n = append(n[:1:1], vt.Fill(t.Int(60000, 150000, "bign"), t.U64("bigs"))...)
	}
	n[0] = n[0]&0x60 | byte(vt.Pick(t, "ntype", 1, 1, 1, 5, 5, 2, 3, 4))
	return n
}

func drawVideo(t *vt.T, o RTSPOpts) *RTSPStream {
	s := &RTSPStream{Video: true, PT: t.Int(96, 127, "vpt"), Clock: vt.Pick(t, "vclk", 90000, 90000, 90000, 1000, 8000, 48000)}
	sps := SPS(t, "sps")
	s.SPSID, s.PPSID = sps.ID, t.Int(0, 255, "ppsid")
	s.SPS = sps.NAL()
	s.PPS = ref.PPSNAL(0x68, s.PPSID, s.SPSID, []byte{1, 0, 1})
	s.InSDP = !t.OneIn(4, "inband")
	s.sdp = append(s.sdp, fmt.Sprintf("a=rtpmap:%d H264/%d", s.PT, s.Clock))
	f := fmt.Sprintf("a=fmtp:%d packetization-mode=1", s.PT)
	if s.InSDP {
		sets := []string{base64.StdEncoding.EncodeToString(s.SPS), base64.StdEncoding.EncodeToString(s.PPS)}
		if t.OneIn(4, "swap") {
			sets[0], sets[1] = sets[1], sets[0]
		}
		f += ";sprop-parameter-sets=" + strings.Join(sets, ",")
	}
	s.sdp = append(s.sdp, f)

	st := &rtpState{seq: uint16(vt.Pick(t, "seq", 0, 1, 65530, 65535, t.Int(0, 65535, "seqv"))), ssrc: t.U32("ssrc"),
		base: vt.Pick(t, "tsbase", 0, 1, 1<<31-3000, 1<<31, 1<<32-1, 1<<32-9000, t.U32("tsv")), t: t, s: s}
	ts := int64(0)
	n := t.Int(0, 7, "vaus")
	if o.Long {
		n = t.Int(3, 40, "vausl")
		if t.OneIn(6, "vdays") {
			n, st.least = t.Int(60, 200, "vausd"), 1700
		}
	}
	for i := 0; i < n; i++ {
		if i > 0 {
			ts += st.gap(o)
		}
		if o.Change && i > 0 && t.OneIn(3, "change") {
			ns := SPS(t, "nsps")
			ns.ID = s.SPSID
			nsps := ns.NAL()
			npps := ref.PPSNAL(0x68, s.PPSID, s.SPSID, []byte{0, byte(i & 1), byte(i >> 1 & 1), byte(i >> 2 & 1), 1, 1})
			cs, cp := s.SPS, s.PPS
			for _, p := range s.pkts {
				for _, u := range p.units {
					if u.Change {
						cs, cp = u.SPS, u.PPS
					}
				}
			}
			if string(cs) != string(nsps) && string(cp) != string(npps) {
				sets := [][]byte{nsps, npps}
				if t.OneIn(4, "chswap") {
					sets[0], sets[1] = npps, nsps
				}
				first := len(s.pkts)
				st.h264(ts, sets)
				last := &s.pkts[len(s.pkts)-1]
				last.units = append(last.units, RTSPUnit{Change: true, SPS: nsps, PPS: npps, TS: ts})
				_ = first
				// reported with the next RTP packet of the stream
				st.h264(ts, [][]byte{drawNAL(t, o)})
				continue
			}
		}
		var nals [][]byte
		if t.OneIn(3, "aud") {
			nals = append(nals, []byte{9, 0x10})
		}
		if !s.InSDP && i == 0 || t.OneIn(4, "repeat") {
			cs, cp := s.SPS, s.PPS
			for _, p := range s.pkts {
				for _, u := range p.units {
					if u.Change {
						cs, cp = u.SPS, u.PPS
					}
				}
			}
			nals = append(nals, cs, cp)
		}
		if t.OneIn(4, "sei") {
			x := NALU(t, 100, "sei")
			x[0] = 6
			nals = append(nals, x)
		}
		for k, c := 0, t.Int(1, 4, "slices"); k < c; k++ {
			nals = append(nals, drawNAL(t, o))
		}
		if t.OneIn(6, "tail") {
			nals = append(nals, vt.Pick(t, "tailn", []byte{10}, []byte{11}, []byte{12, 0xff, 0xff, 0x80}))
		}
		st.h264(ts, nals)
	}
	return s
}

func drawAudio(t *vt.T, o RTSPOpts) *RTSPStream {
	s := &RTSPStream{PT: t.Int(96, 127, "apt"), Clock: vt.Pick(t, "aclk", 8000, 16000, 44100, 48000, 90000, 96000)}
	s.Config = AACConfig(t, "aac")
	s.SizeLen, s.IndexLen = 13, 3
	switch t.Int(0, 4, "szk") {
	case 0:
		s.SizeLen, s.IndexLen = 6, 2
	case 1:
		s.SizeLen, s.IndexLen = t.Int(4, 16, "szl"), t.Int(0, 8, "ixl")
	}
	s.sdp = append(s.sdp, fmt.Sprintf("a=rtpmap:%d %s/%d/%d", s.PT, vt.Pick(t, "aenc", "MPEG4-GENERIC", "mpeg4-generic"), s.Clock, t.Int(1, 6, "ach")))
	f := fmt.Sprintf("a=fmtp:%d streamtype=5; profile-level-id=1; mode=AAC-hbr; config=%s", s.PT, hex.EncodeToString(s.Config))
	if s.SizeLen != 13 || s.IndexLen != 3 || !t.OneIn(3, "default") {
		f += fmt.Sprintf("; sizelength=%d; indexlength=%d; indexdeltalength=%d", s.SizeLen, s.IndexLen, s.IndexLen)
	}
	s.sdp = append(s.sdp, f)
	st := &rtpState{seq: uint16(vt.Pick(t, "aseq", 0, 1, 65530, 65535, t.Int(0, 65535, "aseqv"))), ssrc: t.U32("assrc"),
		base: vt.Pick(t, "atsbase", 0, 1, 1<<31-3000, 1<<31, 1<<32-1, 1<<32-9000, t.U32("atsv")), t: t, s: s}
	ts := int64(0)
	n := t.Int(0, 7, "aaus")
	if o.Long {
		n = t.Int(3, 40, "aausl")
		if t.OneIn(6, "adays") {
			n, st.least = t.Int(60, 200, "aausd"), 1700
		}
	}
	max := min(1<<uint(s.SizeLen)-1, maxRTPPayload-200)
	for i := 0; i < n; i++ {
		size := func() int {
			if t.OneIn(6, "amax") {
				return t.Int(max/2+1, max, "abig")
			}
			return t.Int(1, min(max, 400), "asz")
		}
		if t.OneIn(3, "frag") { // one access unit in several packets
			d := t.Payload(size(), "au")
			if len(d) >= 2 {
				parts := t.Int(2, min(5, len(d)), "parts")
				sizes := splitSizes(t, len(d), parts, "afs")
				rest := d
				first := len(s.pkts)
				for k := 0; k < parts; k++ {
					c := len(rest)
					if k < len(sizes) {
						c = sizes[k]
					}
					pl := ref.AACPayload(s.SizeLen, s.IndexLen, []int{len(d)}, rest[:c])
					rest = rest[c:]
					if k < parts-1 {
						st.emit(ts, pl, nil, nil)
						continue
					}
					var needs []int
					for x := first; x < first+k; x++ {
						needs = append(needs, x)
					}
					st.emit(ts, pl, []RTSPUnit{{Data: d, TS: ts}}, needs)
				}
				ts += 1024 + st.gap(o)
				continue
			}
		}
		var sizes []int
		var data [][]byte
		var units []RTSPUnit
		k := vt.Pick(t, "aun", 1, 1, 2, 3, 7)
		total := 0
		for x := 0; x < k; x++ {
			z := size()
			if total+z > maxRTPPayload-200 && x > 0 {
				break
			}
			total += z
			d := t.Payload(z, "au")
			sizes = append(sizes, z)
			data = append(data, d)
			units = append(units, RTSPUnit{Data: d, TS: ts + int64(x)*1024})
		}
		if total > maxRTPPayload-200 {
			continue
		}
		st.emit(ts, ref.AACPayload(s.SizeLen, s.IndexLen, sizes, data...), units, nil)
		ts += int64(len(sizes))*1024 + st.gap(o)
	}
	return s
}

// DrawRTSP draws the media of a session.
func DrawRTSP(t *vt.T, o RTSPOpts) *RTSPSession {
	x := &RTSPSession{}
	switch t.Int(0, 3, "which") {
	case 0:
		x.Streams = []*RTSPStream{drawVideo(t, o)}
	case 1:
		x.Streams = []*RTSPStream{drawAudio(t, o)}
	case 2:
		x.Streams = []*RTSPStream{drawVideo(t, o), drawAudio(t, o)}
	case 3:
		x.Streams = []*RTSPStream{drawAudio(t, o), drawVideo(t, o)}
	}
	lines := []string{"v=0", "o=- 1 1 IN IP4 127.0.0.1", "s=x", "t=0 0"}
	for i, s := range x.Streams {
		if t.OneIn(4, "othermedia") {
			lines = append(lines, "m=application 0 RTP/AVP 107", "a=rtpmap:107 vnd.onvif.metadata/90000", "a=control:meta")
		}
		s.Control = fmt.Sprintf("track%d", i)
		lines = append(lines, fmt.Sprintf("m=%s 0 RTP/AVP %d", map[bool]string{true: "video", false: "audio"}[s.Video], s.PT))
		lines = append(lines, s.sdp...)
		lines = append(lines, "a=control:"+s.Control)
		if o.Loss {
			for k := range s.pkts {
				change := false
				for _, u := range s.pkts[k].units {
					change = change || u.Change
				}
				if !change && t.OneIn(5, "lost") {
					s.pkts[k].lost = true
					s.Lost++
				}
			}
		}
		for _, p := range s.pkts {
			ok := !p.lost
			for _, n := range p.needs {
				ok = ok && !s.pkts[n].lost
			}
			if ok {
				s.Want = append(s.Want, p.units...)
			}
		}
	}
	x.SDP = strings.Join(lines, "\r\n") + "\r\n"

	// the streams' packets with other messages between them
	next := make([]int, len(x.Streams))
	add := func(b []byte) { x.Wire = append(x.Wire, b...); x.Borders = append(x.Borders, len(x.Wire)) }
	for {
		var live []int
		for i, s := range x.Streams {
			for next[i] < len(s.pkts) && s.pkts[next[i]].lost {
				next[i]++
			}
			if next[i] < len(s.pkts) {
				live = append(live, i)
			}
		}
		if t.OneIn(4, "foreign") {
			x.Foreign++
			add(x.foreign(t))
		}
		if len(live) == 0 {
			break
		}
		i := live[0]
		if len(live) > 1 {
			i = live[t.Int(0, len(live)-1, "who")]
		}
		add(ref.Block(2*i, x.Streams[i].pkts[next[i]].b))
		next[i]++
	}
	x.PlayAt = 0
	if t.OneIn(3, "lateplay") {
		x.PlayAt = t.Int(0, len(x.Borders), "playat")
	}
	return x
}

func (x *RTSPSession) foreign(t *vt.T) []byte {
	n := len(x.Streams)
	data := func() []byte {
		b := t.RawBytes(40, "fdata")
		switch t.Int(0, 3, "fk") {
		case 0:
			b = append(b, "RTSP/1.0 200 OK\r\n\r\n"...)
		case 1:
			b = append([]byte{'$', 0, 0, 16, 0x80, byte(x.Streams[0].PT)}, b...)
		case 2:
			b = append([]byte{0x80, byte(x.Streams[0].PT), 0, 0, 0, 0, 0, 0}, b...)
		}
		return b
	}
	switch t.Int(0, 4, "fkind") {
	case 0: // RTCP
		return ref.Block(2*t.Int(0, n-1, "fch")+1, data())
	case 1: // a channel nobody asked for
		return ref.Block(t.Int(2*n, 255, "fch"), data())
	case 2: // another payload type
		i := t.Int(0, n-1, "fch")
		pt := (x.Streams[i].PT + t.Int(1, 127, "fpt")) % 128
		return ref.Block(2*i, ref.RTP(ref.RTPOpt{PT: pt, TS: t.U32("fts"), Ext: -1}, data()))
	case 3: // nothing to speak of
		return ref.Block(2*t.Int(0, n-1, "fch"), t.RawBytes(7, "fshort"))
	default: // a response to something else
		body := ""
		if t.Bool("fbody") {
			body = string(data())
		}
		return []byte(ref.RTSPResponse(vt.Pick(t, "fcode", 200, 404, 454), "X", fmt.Sprint(t.Int(1000, 2000, "fcseq")), [][2]string{{"Public", "OPTIONS, $5"}}, body, t.Bool("flen")))
	}
}

// Show tells about a session in short.
func (x *RTSPSession) Show() string {
	var b strings.Builder
	for _, s := range x.Streams {
		fmt.Fprintf(&b, "[%s pt %d clock %d, %d RTP packets (%d lost), %d units:", map[bool]string{true: "H264", false: "AAC"}[s.Video], s.PT, s.Clock, len(s.pkts), s.Lost, len(s.Want))
		for i, u := range s.Want {
			if i == 12 {
				b.WriteString(" ...")
				break
			}
			if u.Change {
				b.WriteString(" change")
			} else {
				fmt.Fprintf(&b, " %d@%d", len(u.Data), u.TS)
			}
		}
		b.WriteString("] ")
	}
	fmt.Fprintf(&b, "%d other messages, PLAY response at %d of %d", x.Foreign, x.PlayAt, len(x.Borders))
	return b.String()
}

// Packets is the number of RTP packets of the streams.
func (x *RTSPSession) Packets() (n int) {
	for _, s := range x.Streams {
		n += len(s.pkts)
	}
	return
}
