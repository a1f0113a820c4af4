package ref

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/big"
	"time"
)

// An independent writer and reader of ISO base media files (ISO/IEC 14496-12,
// -14 and -15), as far as the checks need them.

func be16(v int) []byte { return []byte{byte(v >> 8), byte(v)} }
func be32(v int64) []byte {
	b := make([]byte, 4)
	binary.BigEndian.PutUint32(b, uint32(v))
	return b
}
func be64(v uint64) []byte {
	b := make([]byte, 8)
	binary.BigEndian.PutUint64(b, v)
	return b
}

// Box makes a box with a 32-bit size.
func Box(tag string, parts ...[]byte) []byte {
	body := bytes.Join(parts, nil)
	return append(append(be32(int64(len(body)+8)), tag...), body...)
}

// Box64 makes a box with a 64-bit size.
func Box64(tag string, parts ...[]byte) []byte {
	body := bytes.Join(parts, nil)
	return append(append(append(be32(1), tag...), be64(uint64(len(body)+16))...), body...)
}

// FullBox makes a box with version and flags.
func FullBox(tag string, version byte, flags int, parts ...[]byte) []byte {
	return Box(tag, append([][]byte{{version, byte(flags >> 16), byte(flags >> 8), byte(flags)}}, parts...)...)
}

// MP4Sample is one sample of a track.
type MP4Sample struct {
	Data []byte
	Dur  uint32 // ticks to the next sample
	Cts  int64  // composition offset, ticks
	Sync bool
	// read back
	DTS int64
	Off int64
}

// MP4Track is a track to write, or one read.
type MP4Track struct {
	Kind      string // "avc1", "mp4a" or another sample entry type
	ID        int
	TimeScale int64
	Config    []byte // avcC record or AudioSpecificConfig
	W, H      int
	Channels  int
	Bits      int    // of a sample, as the sample entry says
	Rate      uint32 // of samples, 16.16, as the sample entry says
	Samples   []MP4Sample
	NoSync    bool // without sync table
	HasCtts   bool

	movieDur int64 // of the track in the time scale of the movie
	dur      int64 // of the media in the time scale of the media
}

// Time is the time of tick ts, rounded down.
func (tr *MP4Track) Time(ts int64) time.Duration {
	v := new(big.Int).Mul(big.NewInt(ts), big.NewInt(1000000000))
	v.Div(v, big.NewInt(tr.TimeScale))
	return time.Duration(v.Int64())
}

// DescLen codes a descriptor length in n bytes.
func DescLen(l, n int) (b []byte) {
	for i := n - 1; i >= 0; i-- {
		c := byte(l>>(7*uint(i))) & 0x7f
		if i > 0 {
			c |= 0x80
		}
		b = append(b, c)
	}
	return
}

// Desc makes an MPEG-4 descriptor whose length takes n bytes, more if needed.
func Desc(tag byte, n int, parts ...[]byte) []byte {
	body := bytes.Join(parts, nil)
	for len(body)>>(7*uint(n)) != 0 {
		n++
	}
	return append(append([]byte{tag}, DescLen(len(body), n)...), body...)
}

// ESDSOpt varies the legal forms of an elementary stream descriptor.
type ESDSOpt struct {
	LenBytes  int
	ESID      int
	DependsOn bool
	URL       []byte
	OCR       bool
	NoSL      bool
	Extra     []byte // descriptors after the decoder configuration
	ExtraDec  []byte // descriptors after the decoder specific information
}

// ESDS makes the box.
func ESDS(config []byte, o ESDSOpt) []byte {
	n := o.LenBytes
	if n == 0 {
		n = 1
	}
	var es [][]byte
	flags := byte(0)
	es = append(es, be16(o.ESID))
	var opt [][]byte
	if o.DependsOn {
		flags |= 0x80
		opt = append(opt, be16(7))
	}
	if o.URL != nil {
		flags |= 0x40
		opt = append(opt, []byte{byte(len(o.URL))}, o.URL)
	}
	if o.OCR {
		flags |= 0x20
		opt = append(opt, be16(9))
	}
	es = append(es, []byte{flags})
	es = append(es, opt...)
	es = append(es, Desc(4, n, []byte{0x40, 0x15, 0, 0x18, 0}, be32(128000), be32(96000), Desc(5, n, config), o.ExtraDec))
	if !o.NoSL {
		es = append(es, Desc(6, n, []byte{2}))
	}
	es = append(es, o.Extra)
	return FullBox("esds", 0, 0, Desc(3, n, es...))
}

// ParseESDS reads the box body after version and flags, strictly.
func ParseESDS(b []byte) (esid int, config []byte, err error) {
	type d struct {
		tag  byte
		body []byte
	}
	split := func(b []byte) (out []d, err error) {
		for len(b) > 0 {
			if len(b) < 2 {
				return nil, fmt.Errorf("descriptor header cut")
			}
			tag, l, n := b[0], 0, 1
			for {
				if n > 4 || n >= len(b) {
					return nil, fmt.Errorf("descriptor length")
				}
				c := b[n]
				n++
				l = l<<7 | int(c&0x7f)
				if c&0x80 == 0 {
					break
				}
			}
			if n+l > len(b) {
				return nil, fmt.Errorf("descriptor %d of %d bytes in %d", tag, l, len(b)-n)
			}
			out = append(out, d{tag, b[n : n+l]})
			b = b[n+l:]
		}
		return
	}
	top, err := split(b)
	if err != nil {
		return
	}
	if len(top) != 1 || top[0].tag != 3 {
		return 0, nil, fmt.Errorf("%d top descriptors", len(top))
	}
	es := top[0].body
	if len(es) < 3 || es[2] != 0 {
		return 0, nil, fmt.Errorf("ES descriptor %x", es)
	}
	esid = int(es[0])<<8 | int(es[1])
	in, err := split(es[3:])
	if err != nil {
		return
	}
	if len(in) < 1 || in[0].tag != 4 {
		return 0, nil, fmt.Errorf("no decoder configuration first")
	}
	sl := 0
	for _, x := range in[1:] {
		if x.tag == 6 {
			sl++
			if len(x.body) != 1 || x.body[0] != 2 { // reserved for MP4 files
				return 0, nil, fmt.Errorf("SL descriptor %x", x.body)
			}
		}
	}
	if sl != 1 {
		return 0, nil, fmt.Errorf("%d SL descriptors", sl)
	}
	dc := in[0].body
	if len(dc) < 13 {
		return 0, nil, fmt.Errorf("decoder configuration of %d bytes", len(dc))
	}
	if dc[0] != 0x40 || dc[1]>>2 != 5 || dc[1]&1 != 1 {
		return 0, nil, fmt.Errorf("object type %x stream type %x", dc[0], dc[1])
	}
	sp, err := split(dc[13:])
	if err != nil {
		return
	}
	if len(sp) != 1 || sp[0].tag != 5 {
		return 0, nil, fmt.Errorf("%d descriptors in the decoder configuration", len(sp))
	}
	config = sp[0].body
	return
}

// RawBox is a box found in bytes.
type RawBox struct {
	Tag  string
	Off  int // of the box
	Body []byte
	Len  int
}

// SplitBoxes walks the boxes of b, which must tile it.
func SplitBoxes(b []byte) (out []RawBox, err error) {
	for off := 0; off < len(b); {
		if len(b)-off < 8 {
			return nil, fmt.Errorf("%d stray bytes", len(b)-off)
		}
		size, hdr := uint64(binary.BigEndian.Uint32(b[off:])), 8
		if size == 1 {
			if len(b)-off < 16 {
				return nil, fmt.Errorf("64-bit size cut")
			}
			size, hdr = binary.BigEndian.Uint64(b[off+8:]), 16
		}
		if size < uint64(hdr) || size > uint64(len(b)-off) {
			return nil, fmt.Errorf("box %q of %d bytes in %d", b[off+4:off+8], size, len(b)-off)
		}
		out = append(out, RawBox{string(b[off+4 : off+8]), off, b[off+hdr : off+int(size)], int(size)})
		off += int(size)
	}
	return
}

func children(b []byte, skip int) (m map[string][]RawBox, err error) {
	if len(b) < skip {
		return nil, fmt.Errorf("box of %d bytes, %d needed", len(b), skip)
	}
	list, err := SplitBoxes(b[skip:])
	if err != nil {
		return nil, err
	}
	m = map[string][]RawBox{}
	for _, x := range list {
		m[x.Tag] = append(m[x.Tag], x)
	}
	return
}

type rd struct {
	b   []byte
	err error
}

func (r *rd) u(n int) (v uint64) {
	if len(r.b) < n {
		r.err = fmt.Errorf("box cut")
		return 0
	}
	for _, c := range r.b[:n] {
		v = v<<8 | uint64(c)
	}
	r.b = r.b[n:]
	return
}

func (r *rd) skip(n int) { r.u2(n) }
func (r *rd) u2(n int) []byte {
	if len(r.b) < n {
		r.err = fmt.Errorf("box cut")
		return nil
	}
	x := r.b[:n]
	r.b = r.b[n:]
	return x
}

// table reads a counted table that must fill its box.
func table(b []byte, cols int) (ver byte, rows [][]uint32, err error) {
	if len(b) < 8 {
		return 0, nil, fmt.Errorf("table of %d bytes", len(b))
	}
	n := int(binary.BigEndian.Uint32(b[4:]))
	if len(b) != 8+4*cols*n {
		return 0, nil, fmt.Errorf("table of %d rows in %d bytes", n, len(b))
	}
	ver = b[0]
	for p := 8; p < len(b); p += 4 * cols {
		row := make([]uint32, cols)
		for c := range row {
			row[c] = binary.BigEndian.Uint32(b[p+4*c:])
		}
		rows = append(rows, row)
	}
	return
}

// ParseMP4 reads a progressive file strictly; anything off the standard is an error.
func ParseMP4(file []byte) (tracks []*MP4Track, err error) {
	top, err := SplitBoxes(file)
	if err != nil {
		return nil, err
	}
	var moov []byte
	type span struct{ a, b int64 }
	var mdats []span
	for _, x := range top {
		switch x.Tag {
		case "moov":
			if moov != nil {
				return nil, fmt.Errorf("two moov")
			}
			moov = x.Body
		case "mdat":
			mdats = append(mdats, span{int64(x.Off + x.Len - len(x.Body)), int64(x.Off + x.Len)})
		}
	}
	if moov == nil {
		return nil, fmt.Errorf("no moov")
	}
	m, err := children(moov, 0)
	if err != nil {
		return nil, fmt.Errorf("moov: %v", err)
	}
	one := func(m map[string][]RawBox, tag string) []byte {
		if len(m[tag]) != 1 {
			if err == nil {
				err = fmt.Errorf("%d boxes %q", len(m[tag]), tag)
			}
			return nil
		}
		return m[tag][0].Body
	}
	mvhd := one(m, "mvhd")
	if err != nil {
		return nil, err
	}
	if len(mvhd) != 100 || mvhd[0] != 0 {
		return nil, fmt.Errorf("mvhd of %d bytes", len(mvhd))
	}
	scale, movieDur, maxDur := int64(binary.BigEndian.Uint32(mvhd[12:])), int64(binary.BigEndian.Uint32(mvhd[16:])), int64(0)
	if scale == 0 {
		return nil, fmt.Errorf("movie time scale 0")
	}
	if r, v := binary.BigEndian.Uint32(mvhd[20:]), binary.BigEndian.Uint16(mvhd[24:]); r != 0x10000 || v != 0x100 || !identity(mvhd[36:72]) {
		return nil, fmt.Errorf("movie of rate %x, volume %x and matrix %x", r, v, mvhd[36:72])
	}
	next := int(binary.BigEndian.Uint32(mvhd[96:]))
	ids := map[int]bool{}
	for i, x := range m["trak"] {
		tr, e := parseTrak(x.Body)
		if e != nil {
			return nil, fmt.Errorf("track %d: %v", i, e)
		}
		if tr.ID == 0 || ids[tr.ID] || tr.ID >= next {
			return nil, fmt.Errorf("track id %d, next %d", tr.ID, next)
		}
		ids[tr.ID] = true
		if !durIs(tr.movieDur, tr.dur, scale, tr.TimeScale) {
			return nil, fmt.Errorf("track duration %d/%d, samples end at %d/%d", tr.movieDur, scale, tr.dur, tr.TimeScale)
		}
		if tr.movieDur > maxDur {
			maxDur = tr.movieDur
		}
		for k := range tr.Samples {
			s := &tr.Samples[k]
			ok := false
			for _, sp := range mdats {
				if s.Off >= sp.a && s.Off+int64(len(s.Data)) <= sp.b {
					ok = true
				}
			}
			if !ok {
				return nil, fmt.Errorf("track %d sample %d at %d of %d bytes is outside the media data", i, k, s.Off, len(s.Data))
			}
			s.Data = file[s.Off : s.Off+int64(len(s.Data))]
		}
		tracks = append(tracks, tr)
	}
	if movieDur != maxDur {
		return nil, fmt.Errorf("movie duration %d, the longest track has %d", movieDur, maxDur)
	}
	return
}

// identity tells whether m is the matrix that changes nothing.
func identity(m []byte) bool {
	for i, want := range [9]uint32{0: 0x10000, 4: 0x10000, 8: 0x40000000} {
		if binary.BigEndian.Uint32(m[4*i:]) != want {
			return false
		}
	}
	return true
}

// durIs tells whether d of a header's 32 bits is dur in another time scale, to
// the tick, or says that it does not fit.
func durIs(d, dur, scale, durScale int64) bool {
	want := new(big.Int).Mul(big.NewInt(dur), big.NewInt(scale))
	want.Div(want, big.NewInt(durScale))
	if want.Cmp(big.NewInt(0xffffffff)) >= 0 {
		return d == 0xffffffff || new(big.Int).Sub(want, big.NewInt(d)).Cmp(big.NewInt(1)) <= 0
	}
	k := d - want.Int64()
	return k >= -1 && k <= 1
}

func parseTrak(b []byte) (tr *MP4Track, err error) {
	tr = &MP4Track{}
	one := func(m map[string][]RawBox, tag string) []byte {
		if err != nil {
			return nil
		}
		if len(m[tag]) != 1 {
			err = fmt.Errorf("%d boxes %q", len(m[tag]), tag)
			return nil
		}
		return m[tag][0].Body
	}
	kids := func(b []byte, skip int) map[string][]RawBox {
		if err != nil {
			return nil
		}
		var m map[string][]RawBox
		m, err = children(b, skip)
		return m
	}
	m := kids(b, 0)
	tkhd := one(m, "tkhd")
	mdia := kids(one(m, "mdia"), 0)
	mdhd, hdlr := one(mdia, "mdhd"), one(mdia, "hdlr")
	minf := kids(one(mdia, "minf"), 0)
	dinf := kids(one(minf, "dinf"), 0)
	dref := one(dinf, "dref")
	stbl := kids(one(minf, "stbl"), 0)
	stsd, stts, stsc := one(stbl, "stsd"), one(stbl, "stts"), one(stbl, "stsc")
	stsz, stco := one(stbl, "stsz"), one(stbl, "stco")
	if err != nil {
		return nil, err
	}
	if len(tkhd) != 84 || tkhd[0] != 0 {
		return nil, fmt.Errorf("tkhd of %d bytes", len(tkhd))
	}
	if tkhd[3]&1 == 0 {
		return nil, fmt.Errorf("track is not enabled")
	}
	if !identity(tkhd[40:76]) {
		return nil, fmt.Errorf("track matrix %x", tkhd[40:76])
	}
	tr.ID = int(binary.BigEndian.Uint32(tkhd[12:]))
	tr.movieDur = int64(binary.BigEndian.Uint32(tkhd[20:]))
	if len(mdhd) != 24 || mdhd[0] != 0 {
		return nil, fmt.Errorf("mdhd of %d bytes", len(mdhd))
	}
	tr.TimeScale = int64(binary.BigEndian.Uint32(mdhd[12:]))
	duration := int64(binary.BigEndian.Uint32(mdhd[16:]))
	if tr.TimeScale == 0 {
		return nil, fmt.Errorf("time scale 0")
	}
	if len(dref) < 8 {
		return nil, fmt.Errorf("dref of %d bytes", len(dref))
	}
	refs, e := SplitBoxes(dref[8:])
	if e != nil || len(refs) != int(binary.BigEndian.Uint32(dref[4:])) || len(refs) == 0 {
		return nil, fmt.Errorf("dref: %v, %d entries", e, len(refs))
	}
	if r := refs[0]; r.Tag != "url " || !bytes.Equal(r.Body, []byte{0, 0, 0, 1}) { // in the same file
		return nil, fmt.Errorf("data reference %q %x", r.Tag, r.Body)
	}
	if len(hdlr) < 25 {
		return nil, fmt.Errorf("hdlr of %d bytes", len(hdlr))
	}
	handler := string(hdlr[8:12])
	if !bytes.Equal(hdlr[:8], make([]byte, 8)) || !bytes.Equal(hdlr[12:24], make([]byte, 12)) || bytes.IndexByte(hdlr[24:], 0) != len(hdlr)-25 {
		return nil, fmt.Errorf("hdlr % x", hdlr)
	}

	if len(stsd) < 8 {
		return nil, fmt.Errorf("stsd of %d bytes", len(stsd))
	}
	descs, e := SplitBoxes(stsd[8:])
	if e != nil || len(descs) != 1 || binary.BigEndian.Uint32(stsd[4:]) != 1 {
		return nil, fmt.Errorf("stsd: %v, %d entries", e, len(descs))
	}
	d := descs[0]
	tr.Kind = d.Tag
	switch d.Tag {
	case "avc1":
		if handler != "vide" || len(minf["vmhd"]) != 1 || len(minf["vmhd"][0].Body) != 12 {
			return nil, fmt.Errorf("handler %q for avc1, %d vmhd", handler, len(minf["vmhd"]))
		}
		k := kids(d.Body, 78)
		conf := one(k, "avcC")
		if err != nil {
			return nil, fmt.Errorf("avc1: %v", err)
		}
		if i := int(d.Body[6])<<8 | int(d.Body[7]); i != 1 {
			return nil, fmt.Errorf("data reference %d", i)
		}
		tr.W = int(binary.BigEndian.Uint16(d.Body[24:]))
		tr.H = int(binary.BigEndian.Uint16(d.Body[26:]))
		if w, h := int(binary.BigEndian.Uint16(tkhd[76:])), int(binary.BigEndian.Uint16(tkhd[80:])); w != tr.W || h != tr.H {
			return nil, fmt.Errorf("track size %dx%d, picture size %dx%d", w, h, tr.W, tr.H)
		}
		tr.Config = conf
	case "mp4a":
		if v := binary.BigEndian.Uint16(tkhd[36:]); v != 0x100 {
			return nil, fmt.Errorf("track volume %x", v)
		}
		if i := int(d.Body[6])<<8 | int(d.Body[7]); i != 1 {
			return nil, fmt.Errorf("data reference %d", i)
		}
		if handler != "soun" || len(minf["smhd"]) != 1 || len(minf["smhd"][0].Body) != 8 {
			return nil, fmt.Errorf("handler %q for mp4a, %d smhd", handler, len(minf["smhd"]))
		}
		k := kids(d.Body, 28)
		es := one(k, "esds")
		if err != nil {
			return nil, fmt.Errorf("mp4a: %v", err)
		}
		tr.Channels = int(binary.BigEndian.Uint16(d.Body[16:]))
		tr.Bits = int(binary.BigEndian.Uint16(d.Body[18:]))
		tr.Rate = binary.BigEndian.Uint32(d.Body[24:])
		if len(es) < 4 {
			return nil, fmt.Errorf("esds of %d bytes", len(es))
		}
		if _, tr.Config, err = ParseESDS(es[4:]); err != nil {
			return nil, fmt.Errorf("esds: %v", err)
		}
	}

	// sizes
	r := &rd{b: stsz}
	r.skip(4)
	fixed, count := int(r.u(4)), int(r.u(4))
	if r.err != nil {
		return nil, r.err
	}
	sizes := make([]int, 0, 1024)
	if fixed != 0 {
		if len(r.b) != 0 {
			return nil, fmt.Errorf("stsz: %d bytes after a constant size", len(r.b))
		}
		for i := 0; i < count; i++ {
			sizes = append(sizes, fixed)
		}
	} else {
		if len(r.b) != 4*count {
			return nil, fmt.Errorf("stsz: %d samples in %d bytes", count, len(r.b))
		}
		for i := 0; i < count; i++ {
			sizes = append(sizes, int(r.u(4)))
		}
	}
	tr.Samples = make([]MP4Sample, count)
	// chunks
	_, chunks, e := table(stco, 1)
	if e != nil {
		return nil, fmt.Errorf("stco: %v", e)
	}
	_, groups, e := table(stsc, 3)
	if e != nil {
		return nil, fmt.Errorf("stsc: %v", e)
	}
	n, g := 0, -1
	for c := range chunks {
		if g+1 < len(groups) && int(groups[g+1][0]) == c+1 {
			g++
		}
		if g < 0 || groups[g][2] != 1 {
			return nil, fmt.Errorf("stsc: chunk %d group %d", c, g)
		}
		off := int64(chunks[c][0])
		for i := 0; i < int(groups[g][1]); i++ {
			if n >= count {
				return nil, fmt.Errorf("more samples in chunks than %d", count)
			}
			tr.Samples[n].Off = off
			tr.Samples[n].Data = make([]byte, sizes[n])
			off += int64(sizes[n])
			n++
		}
	}
	if n != count {
		return nil, fmt.Errorf("%d samples in chunks, %d sizes", n, count)
	}
	// times
	_, rows, e := table(stts, 2)
	if e != nil {
		return nil, fmt.Errorf("stts: %v", e)
	}
	n = 0
	dts := int64(0)
	for _, row := range rows {
		for i := 0; i < int(row[0]); i++ {
			if n >= count {
				return nil, fmt.Errorf("stts has more than %d samples", count)
			}
			tr.Samples[n].DTS = dts
			tr.Samples[n].Dur = row[1]
			dts += int64(row[1])
			n++
		}
	}
	if n != count {
		return nil, fmt.Errorf("stts has %d samples of %d", n, count)
	}
	tr.dur = dts
	if dts > 0xffffffff {
		dts = 0xffffffff // "cannot be determined"
	}
	if duration != dts {
		return nil, fmt.Errorf("media duration %d, samples end at %d", duration, dts)
	}
	// composition offsets
	if x := stbl["ctts"]; len(x) > 0 {
		tr.HasCtts = true
		ver, rows, e := table(x[0].Body, 2)
		if e != nil || len(x) > 1 {
			return nil, fmt.Errorf("ctts: %v", e)
		}
		n = 0
		for _, row := range rows {
			for i := 0; i < int(row[0]); i++ {
				if n >= count {
					return nil, fmt.Errorf("ctts has more than %d samples", count)
				}
				tr.Samples[n].Cts = int64(row[1])
				if ver == 1 {
					tr.Samples[n].Cts = int64(int32(row[1]))
				}
				n++
			}
		}
		if n != count {
			return nil, fmt.Errorf("ctts has %d samples of %d", n, count)
		}
	}
	// sync samples
	if x := stbl["stss"]; len(x) > 0 {
		_, rows, e := table(x[0].Body, 1)
		if e != nil || len(x) > 1 {
			return nil, fmt.Errorf("stss: %v", e)
		}
		last := uint32(0)
		for _, row := range rows {
			if row[0] <= last || int(row[0]) > count {
				return nil, fmt.Errorf("stss entry %d after %d of %d", row[0], last, count)
			}
			last = row[0]
			tr.Samples[last-1].Sync = true
		}
	} else {
		tr.NoSync = true
		for i := range tr.Samples {
			tr.Samples[i].Sync = true
		}
	}
	return
}
