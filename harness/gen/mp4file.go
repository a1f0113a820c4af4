package gen

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"math/big"
	"time"

	"joyverif/ref"
	"joyverif/vt"
)

// SegFile is a file of segments, with zeros in between.
type SegFile struct {
	segs  []seg
	size  int64
	pos   int64
	Frags []int // sizes of the reads, cyclic
	nread int
	Read_ int64 // bytes read
}

type seg struct {
	off int64
	b   []byte
}

func (f *SegFile) Add(b []byte) (off int64) {
	off = f.size
	if n := len(f.segs); n > 0 && f.segs[n-1].off+int64(len(f.segs[n-1].b)) == off {
		f.segs[n-1].b = append(f.segs[n-1].b, b...)
	} else {
		f.segs = append(f.segs, seg{off, append([]byte(nil), b...)})
	}
	f.size += int64(len(b))
	return
}

func (f *SegFile) Hole(n int64) { f.size += n }
func (f *SegFile) Size() int64  { return f.size }

// Patch overwrites bytes written before.
func (f *SegFile) Patch(off int64, b []byte) {
	for i := range f.segs {
		s := &f.segs[i]
		if off >= s.off && off+int64(len(b)) <= s.off+int64(len(s.b)) {
			copy(s.b[off-s.off:], b)
			return
		}
	}
	panic("patch outside")
}

// Bytes is the content of a file without holes.
func (f *SegFile) Bytes() []byte {
	if len(f.segs) == 0 && f.size == 0 {
		return nil
	}
	if len(f.segs) != 1 || int64(len(f.segs[0].b)) != f.size {
		panic("holes")
	}
	return f.segs[0].b
}

// Flat tells whether the file has no holes.
func (f *SegFile) Flat() bool {
	return f.size == 0 || len(f.segs) == 1 && int64(len(f.segs[0].b)) == f.size
}

func (f *SegFile) Read(p []byte) (int, error) {
	if f.pos >= f.size {
		return 0, io.EOF
	}
	if len(p) == 0 {
		return 0, nil
	}
	n := len(p)
	if len(f.Frags) > 0 {
		if k := f.Frags[f.nread%len(f.Frags)]; k > 0 && k < n {
			n = k
		}
		f.nread++
	}
	if int64(n) > f.size-f.pos {
		n = int(f.size - f.pos)
	}
	p = p[:n]
	for i := range p {
		p[i] = 0
	}
	for _, s := range f.segs {
		a, b := s.off, s.off+int64(len(s.b))
		if a < f.pos {
			a = f.pos
		}
		if b > f.pos+int64(n) {
			b = f.pos + int64(n)
		}
		if a < b {
			copy(p[a-f.pos:], s.b[a-s.off:b-s.off])
		}
	}
	f.pos += int64(n)
	f.Read_ += int64(n)
	return n, nil
}

func (f *SegFile) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case 1:
		off += f.pos
	case 2:
		off += f.size
	}
	if off < 0 {
		return 0, fmt.Errorf("seek to %d", off)
	}
	f.pos = off
	return off, nil
}

// MP4File is a file and what is in it.
type MP4File struct {
	File   *SegFile
	Tracks []*ref.MP4Track // the ones a player of H.264 and AAC shows, in file order
	NAll   int             // all tracks
	Labels []string
	Moov   int64 // offset of the index
	// MoovOpen: the index reaches to the end of the file, which hides a cut
	MoovOpen bool
}

func runs(t *vt.T, vals []uint32, l string) (rows [][]uint32) {
	merge := vt.Pick(t, l+"merge", 0, 0, 1, 2)
	for i, v := range vals {
		if n := len(rows); n > 0 && rows[n-1][1] == v && (merge == 0 || merge == 1 && i%7 != 3) {
			rows[n-1][0]++
			continue
		}
		if merge != 0 && t.OneIn(12, l+"zero") {
			rows = append(rows, []uint32{0, v + 1}) // a run of no samples
		}
		rows = append(rows, []uint32{1, v})
	}
	if merge != 0 && t.OneIn(4, l+"zeroend") {
		rows = append(rows, []uint32{0, 5})
	}
	return
}

func tbl(rows [][]uint32) []byte {
	b := make([]byte, 4)
	binary.BigEndian.PutUint32(b, uint32(len(rows)))
	for _, r := range rows {
		for _, v := range r {
			b = binary.BigEndian.AppendUint32(b, v)
		}
	}
	return b
}

func ub32(v uint32) []byte { return binary.BigEndian.AppendUint32(nil, v) }
func ub16(v int) []byte    { return []byte{byte(v >> 8), byte(v)} }

func junk(t *vt.T, l string) []byte {
	return ref.Box(vt.Pick(t, l, "free", "skip", "udta", "uuid", "wide", "name", "tref"), t.Payload(t.Int(0, 40, l+"n"), l))
}

// shuffle puts boxes in any order, with unknown ones in between.
func shuffle(t *vt.T, l string, boxes ...[]byte) []byte {
	var out [][]byte
	for _, b := range boxes {
		if b != nil {
			out = append(out, b)
		}
	}
	if t.OneIn(2, l+"plain") {
		return bytes.Join(out, nil)
	}
	for i, n := 0, vt.Pick(t, l+"junk", 0, 0, 1, 2); i < n; i++ {
		out = append(out, junk(t, fmt.Sprint(l, "j", i)))
	}
	for k := len(out) - 1; k > 0; k-- {
		j := t.Int(0, k, l+"perm")
		out[k], out[j] = out[j], out[k]
	}
	return bytes.Join(out, nil)
}

// maxSpan keeps times in the range of a Duration.
const maxSpan = 200 * 365 * 24 * 3600

type layTrack struct {
	*ref.MP4Track
	constSize int // -1: per sample
	perChunk  []int
	offs      []int64
	entry     []byte
	stts      [][]uint32
	ctts      [][]uint32
	cttsVer   byte
	other     bool
	hurt      bool // the tables are made inconsistent
}

// damage makes a table say something else than the others.
func (tr *layTrack) damage(t *vt.T, rows [][]uint32, l string) [][]uint32 {
	if !tr.hurt || !t.OneIn(3, l+"hurt") {
		return rows
	}
	rows = append([][]uint32(nil), rows...)
	for i := range rows {
		rows[i] = append([]uint32(nil), rows[i]...)
	}
	n := len(rows)
	if n == 0 {
		return rows
	}
	k := t.Int(0, n-1, l+"row")
	if t.OneIn(2, l+"last") {
		k = n - 1
	}
	switch t.Int(0, 6, l+"hurthow") {
	case 0:
		rows = rows[:k]
	case 1:
		rows = append(rows[:k:k], rows[k+1:]...)
	case 2:
		rows = append(rows, append([]uint32(nil), rows[k]...))
	case 3: // fewer or more than there are
		rows[k][0] += vt.Pick(t, l+"by", uint32(1), 0xffffffff, 2, 1000, 0xfffffffe)
	case 4:
		c := len(rows[k]) - 1
		if c > 0 {
			c = t.Int(0, c, l+"col")
		}
		rows[k][c] = vt.Pick(t, l+"to", uint32(0), 1, 2, 3, uint32(len(tr.Samples)), uint32(len(tr.Samples)+1), 0x7fffffff, 0x80000000, 0xffffffff, t.U32(l+"tor"))
	case 5:
		rows = nil
	case 6:
		j := t.Int(0, n-1, l+"swap")
		rows[j], rows[k] = rows[k], rows[j]
	}
	return rows
}

func drawMP4Track(t *vt.T, kind string, id, max int, l string) *layTrack {
	tr := &layTrack{MP4Track: &ref.MP4Track{Kind: kind, ID: id}, constSize: -1}
	tr.TimeScale = vt.Pick(t, l+"scale", int64(1000), 1000, 90000, 48000, 44100, 600, 30000, 1, 1000000000, 1<<31-1, t.I64(1, 1<<31-1, l+"scaler"), t.I64(1, 100000, l+"scales"))
	n := vt.Pick(t, l+"n", 0, 1, 2, max, max/2, t.Int(0, max, l+"nr"), t.Int(0, max, l+"ns"), t.Int(0, max, l+"nt"))
	switch kind {
	case "avc1":
		tr.Config, tr.W, tr.H = AVCConfig(t, l)
		pre := ub16(0)
		pre = append(append(pre, make([]byte, 4)...), ub16(1)...)
		pre = append(pre, make([]byte, 16)...)
		pre = append(append(pre, ub16(tr.W)...), ub16(tr.H)...)
		pre = append(append(pre, 0, 0x48, 0, 0, 0, 0x48, 0, 0, 0, 0, 0, 0), ub16(1)...)
		pre = append(append(pre, t.Payload(32, l+"comp")...), 0, 24, 0xff, 0xff)
		var ext [][]byte
		if t.OneIn(2, l+"ext") {
			ext = append(ext, ref.Box("pasp", ub32(1), ub32(1)), ref.Box("btrt", make([]byte, 12)))
		}
		tr.entry = ref.Box("avc1", pre, shuffle(t, l+"avc1", append(ext, ref.Box("avcC", tr.Config))...))
	case "mp4a":
		tr.Config = AACConfig(t, l)
		tr.Channels = t.Int(1, 8, l+"chn")
		pre := append(make([]byte, 6), ub16(1)...)
		pre = append(pre, make([]byte, 8)...)
		pre = append(append(pre, ub16(tr.Channels)...), 0, 16, 0, 0, 0, 0)
		pre = append(pre, ub32(uint32(t.Int(1, 65535, l+"hz"))<<16)...)
		o := ref.ESDSOpt{LenBytes: t.Int(1, 4, l+"len"), ESID: t.Int(0, 65535, l+"es"), DependsOn: t.OneIn(5, l+"dep"), OCR: t.OneIn(5, l+"ocr"), NoSL: t.OneIn(4, l+"nosl")}
		if t.OneIn(5, l+"url") {
			o.URL = t.Payload(t.Int(0, 20, l+"urln"), l+"u")
		}
		tr.entry = ref.Box("mp4a", pre, shuffle(t, l+"mp4a", ref.ESDS(tr.Config, o)))
	default:
		tr.other = true
		tr.entry = ref.Box(kind, make([]byte, 6), ub16(1), t.Payload(t.Int(0, 40, l+"en"), l+"e"))
	}

	// times
	limit := new(big.Int).Mul(big.NewInt(maxSpan), big.NewInt(tr.TimeScale))
	limit.Div(limit, big.NewInt(int64(max+1)))
	cap32 := int64(1<<32 - 1)
	if limit.IsInt64() && limit.Int64() < cap32 {
		cap32 = limit.Int64()
	}
	clamp := func(v int64) uint32 {
		if v > cap32 {
			v = cap32
		}
		return uint32(v)
	}
	base := clamp(vt.Pick(t, l+"dur", int64(1), 1024, 3003, 40, 33, tr.TimeScale/25+1, 1<<31+1, 1<<32-1, t.I64(0, 1<<32-1, l+"durr")))
	mode := t.Int(0, 3, l+"durmode")
	var durs, ctss []uint32
	tr.HasCtts = t.Bool(l + "ctts")
	if tr.HasCtts && t.Bool(l+"cttsv1") {
		tr.cttsVer = 1
	}
	if t.OneIn(3, l+"const") {
		tr.constSize = vt.Pick(t, l+"csize", 1, 2, 7, t.Int(1, 2000, l+"cs"))
	}
	syncMode := t.Int(0, 4, l+"sync")
	tr.NoSync = syncMode == 0 || kind == "mp4a" && syncMode < 4
	var cts uint32
	dts := int64(0)
	for i := 0; i < n; i++ {
		s := ref.MP4Sample{DTS: dts}
		switch mode {
		case 0:
			s.Dur = base
		case 1:
			s.Dur = clamp(int64(base) + int64(t.Int(0, 1, l+"j")))
		case 2:
			s.Dur = vt.Pick(t, l+"d", 0, base, base, 1)
		default:
			s.Dur = clamp(vt.Pick(t, l+"dd", 0, 1, int64(base), int64(base), t.I64(0, 1<<32-1, l+"ddr"), t.I64(0, tr.TimeScale*3, l+"dds")))
		}
		dts += int64(s.Dur)
		if tr.HasCtts {
			if i == 0 || t.OneIn(3, l+"cch") {
				cts = vt.Pick(t, l+"c", 0, base, 2*(base&0xffffff), t.U32(l+"cr"))
				if tr.cttsVer == 1 && t.Bool(l+"neg") {
					cts = -(cts & 0x7fffffff)
				}
			}
			s.Cts = int64(cts)
			if tr.cttsVer == 1 {
				s.Cts = int64(int32(cts))
			}
		}
		size := tr.constSize
		if size < 0 {
			size = vt.Pick(t, l+"size", 0, 1, 5, 30, 30, t.Int(0, 300, l+"sz"), t.Int(0, 5000, l+"szb"))
		}
		s.Data = vt.Fill(size, uint64(id)<<32+uint64(i)+1)
		s.Sync = kind != "mp4a" && tr.NoSync
		switch syncMode {
		case 1:
			s.Sync = s.Sync || !tr.NoSync && t.Bool(l+"key")
		case 2:
			s.Sync = s.Sync || !tr.NoSync && i%5 == 0
		case 3:
			s.Sync = s.Sync || !tr.NoSync && t.OneIn(8, l+"key8")
		case 4: // an empty table, or only the first
			s.Sync = s.Sync || !tr.NoSync && i == 0 && kind != "mp4a"
		}
		tr.Samples = append(tr.Samples, s)
		durs = append(durs, s.Dur)
		ctss = append(ctss, cts)
	}
	tr.stts = runs(t, durs, l+"stts")
	if tr.HasCtts {
		tr.ctts = runs(t, ctss, l+"ctts")
	}
	spc := vt.Pick(t, l+"spc", 1, 1, 2, 5, 100, 0)
	for left := n; left > 0; {
		k := spc
		if spc == 0 {
			k = t.Int(1, 4, l+"spcn")
		}
		if k > left {
			k = left
		}
		tr.perChunk = append(tr.perChunk, k)
		left -= k
	}
	tr.offs = make([]int64, len(tr.perChunk))
	return tr
}

func (tr *layTrack) box(t *vt.T, l string) []byte {
	stts := ref.FullBox("stts", 0, 0, tbl(tr.damage(t, tr.stts, l+"dstts")))
	var ctts, stss []byte
	if tr.HasCtts {
		ctts = ref.FullBox("ctts", tr.cttsVer, 0, tbl(tr.damage(t, tr.ctts, l+"dctts")))
	}
	if !tr.NoSync {
		var rows [][]uint32
		for i, s := range tr.Samples {
			if s.Sync {
				rows = append(rows, []uint32{uint32(i + 1)})
			}
		}
		stss = ref.FullBox("stss", 0, 0, tbl(tr.damage(t, rows, l+"dstss")))
	}
	var stsc [][]uint32
	split := t.OneIn(3, l+"stscsplit")
	for c, k := range tr.perChunk {
		if n := len(stsc); n > 0 && stsc[n-1][1] == uint32(k) && !split {
			continue
		}
		stsc = append(stsc, []uint32{uint32(c + 1), uint32(k), 1})
	}
	var offs [][]uint32
	for _, o := range tr.offs {
		offs = append(offs, []uint32{uint32(o)})
	}
	offs = tr.damage(t, offs, l+"dstco")
	stsc = tr.damage(t, stsc, l+"dstsc")
	var sizes []byte
	if tr.constSize >= 0 {
		sizes = append(ub32(uint32(tr.constSize)), ub32(uint32(len(tr.Samples)))...)
		if tr.hurt && t.OneIn(3, l+"dstsz") {
			sizes = append(ub32(uint32(tr.constSize)), ub32(vt.Pick(t, l+"dstszn", uint32(0), uint32(len(tr.Samples)+1), uint32(len(tr.Samples)+100), 0x7fffffff, 0xffffffff))...)
		}
	} else {
		var rows [][]uint32
		for _, s := range tr.Samples {
			rows = append(rows, []uint32{uint32(len(s.Data))})
		}
		sizes = append(ub32(0), tbl(tr.damage(t, rows, l+"dstsz"))...)
	}
	stbl := ref.Box("stbl", shuffle(t, l+"stbl",
		ref.FullBox("stsd", 0, 0, ub32(1), tr.entry), stts, ctts, stss,
		ref.FullBox("stsc", 0, 0, tbl(stsc)), ref.FullBox("stsz", 0, 0, sizes), ref.FullBox("stco", 0, 0, tbl(offs))))
	var mh []byte
	handler := "text"
	switch tr.Kind {
	case "avc1":
		handler = "vide"
		mh = ref.FullBox("vmhd", 0, 1, make([]byte, 8))
	case "mp4a":
		handler = "soun"
		mh = ref.FullBox("smhd", 0, 0, make([]byte, 4))
	default:
		mh = ref.FullBox("nmhd", 0, 0)
	}
	dinf := ref.Box("dinf", ref.FullBox("dref", 0, 0, ub32(1), ref.FullBox("url ", 0, 1)))
	minf := ref.Box("minf", shuffle(t, l+"minf", mh, dinf, stbl))
	total := int64(0)
	for _, s := range tr.Samples {
		total += int64(s.Dur)
	}
	mdhd := ref.FullBox("mdhd", 0, 0, ub32(t.U32(l+"ct")), ub32(t.U32(l+"mt")), ub32(uint32(tr.TimeScale)), ub32(uint32(total)), ub16(0x55c4), ub16(0))
	hdlr := ref.FullBox("hdlr", 0, 0, make([]byte, 4), []byte(handler), make([]byte, 12), t.Payload(t.Int(0, 30, l+"nm"), l+"name"), []byte{0})
	mdia := ref.Box("mdia", shuffle(t, l+"mdia", mdhd, hdlr, minf))
	m := []byte{0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0x40, 0, 0, 0}
	tkhd := ref.FullBox("tkhd", 0, 7, ub32(0), ub32(0), ub32(uint32(tr.ID)), ub32(0), ub32(uint32(total)), make([]byte, 8), ub16(0), ub16(0), ub16(256), ub16(0), m,
		ub32(uint32(tr.W)<<16), ub32(uint32(tr.H)<<16))
	return ref.Box("trak", shuffle(t, l+"trak", tkhd, mdia))
}

// DrawMP4 draws a standard progressive file. flat ones have no holes.
func DrawMP4(t *vt.T, max int, flat bool) *MP4File { return drawMP4(t, max, flat, false, oneEach) }

// DrawMP4Any draws one that may have several tracks of a kind.
func DrawMP4Any(t *vt.T, max int) *MP4File {
	if t.OneIn(5, "severalofakind") {
		return drawMP4(t, max, false, false, []string{"vv", "aa", "vva", "vav", "avv", "aav", "vov", "vvv"})
	}
	return drawMP4(t, max, false, false, oneEach)
}

var oneEach = []string{"v", "a", "va", "va", "av", "vo", "oa", "ovoa", "", "o"}

// DrawBadMP4 draws a file whose sample tables contradict each other.
func DrawBadMP4(t *vt.T, max int) *MP4File { return drawMP4(t, max, true, true, oneEach) }

func drawMP4(t *vt.T, max int, flat, hurt bool, layouts []string) *MP4File {
	f := &MP4File{File: &SegFile{}}
	var all []*layTrack
	kinds := vt.Pick(t, "kinds", layouts...)
	for i, k := range kinds {
		kind := map[rune]string{'v': "avc1", 'a': "mp4a", 'o': vt.Pick(t, fmt.Sprint("okind", i), "tx3g", "tmcd", "mp4v", "enca", "hvc1", "stpp")}[k]
		tr := drawMP4Track(t, kind, t.Int(1, 1000, fmt.Sprint("id", i))*8+i, max, fmt.Sprint("t", i))
		tr.hurt = hurt
		all = append(all, tr)
		if !tr.other {
			f.Tracks = append(f.Tracks, tr.MP4Track)
		}
	}
	f.NAll = len(all)

	// the chunks in the order of the media data
	type chunk struct{ tr, i int }
	var chunks []chunk
	next := make([]int, len(all))
	for {
		var open []int
		for i, tr := range all {
			if next[i] < len(tr.perChunk) {
				open = append(open, i)
			}
		}
		if len(open) == 0 {
			break
		}
		k := open[0]
		if len(open) > 1 {
			k = open[t.Int(0, len(open)-1, "weave")]
		}
		chunks = append(chunks, chunk{k, next[k]})
		next[k]++
	}
	if t.OneIn(4, "shufflechunks") {
		for k := len(chunks) - 1; k > 0; k-- {
			j := t.Int(0, k, "chperm")
			chunks[k], chunks[j] = chunks[j], chunks[k]
		}
	}
	gap := t.OneIn(3, "gaps")
	first := map[chunk]int{} // sample of each chunk
	for i, tr := range all {
		n := 0
		for c, k := range tr.perChunk {
			first[chunk{i, c}] = n
			n += k
		}
	}
	media := func(part []chunk, hdr int64) (body []byte) {
		for _, c := range part {
			if gap && t.Bool("gap") {
				body = append(body, t.Payload(t.Int(1, 20, "gapn"), "gapb")...)
			}
			tr := all[c.tr]
			tr.offs[c.i] = f.File.Size() + hdr + int64(len(body))
			for s := 0; s < tr.perChunk[c.i]; s++ {
				body = append(body, tr.Samples[first[c]+s].Data...)
			}
		}
		return
	}
	moovSize := int64(-1)
	var drawMoov func() []byte
	{
		// the index is drawn once; chunk offsets are patched in afterwards
		var cached []byte
		drawMoov = func() []byte {
			if cached == nil {
				maxID := 0
				var kids [][]byte
				for i, tr := range all {
					kids = append(kids, tr.box(t, fmt.Sprint("b", i)))
					if tr.ID > maxID {
						maxID = tr.ID
					}
				}
				mvhd := ref.FullBox("mvhd", 0, 0, ub32(0), ub32(0), ub32(uint32(t.Int(1, 90000, "mscale"))), ub32(t.U32("mdur")), ub32(0x10000), ub16(256), make([]byte, 10),
					[]byte{0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0x40, 0, 0, 0}, make([]byte, 24), ub32(uint32(maxID+1)))
				// tracks keep their order
				body := mvhd
				if t.OneIn(3, "mvhdlast") {
					body = nil
				}
				for i, k := range kids {
					if t.OneIn(4, "mjunk") {
						body = append(body, junk(t, fmt.Sprint("mj", i))...)
					}
					body = append(body, k...)
				}
				if len(body) == 0 || string(body[4:8]) != "mvhd" {
					body = append(body, mvhd...)
				}
				cached = ref.Box("moov", body)
				if t.OneIn(6, "moov64") {
					cached = ref.Box64("moov", body)
				}
				moovSize = int64(len(cached))
			}
			return cached
		}
	}
	patch := func(moovOff int64) { // offsets are filled in by walking to the tables
		k := 0
		var walk func(b []byte, off int64)
		walk = func(b []byte, off int64) {
			for p := 0; p+8 <= len(b); {
				size, hdr := int64(binary.BigEndian.Uint32(b[p:])), int64(8)
				if size == 1 {
					size, hdr = int64(binary.BigEndian.Uint64(b[p+8:])), 16
				}
				body := b[p+int(hdr) : p+int(size)]
				switch string(b[p+4 : p+8]) {
				case "moov", "trak", "mdia", "minf", "stbl":
					walk(body, off+int64(p)+hdr)
				case "stco":
					var rows [][]uint32
					for _, o := range all[k].offs {
						rows = append(rows, []uint32{uint32(o)})
					}
					if n := (len(body) - 8) / 4; n < len(rows) { // damaged
						rows = rows[:n]
					}
					f.File.Patch(off+int64(p)+hdr+8, tbl(rows)[4:])
					k++
				}
				p += int(size)
			}
		}
		walk(append([]byte(nil), drawMoov()...), moovOff)
		if k != len(all) {
			panic("stco")
		}
	}

	parts := t.Int(1, 3, "mdats")
	if len(chunks) == 0 && t.Bool("nomdat") {
		parts = 0
	}
	cut := make([]int, parts+1)
	for i := 1; i < parts; i++ {
		cut[i] = t.Int(cut[i-1], len(chunks), "cut")
	}
	if parts > 0 {
		cut[parts] = len(chunks)
	}
	moovAt := t.Int(0, parts, "moovat")
	if t.Bool("ftyp") {
		f.File.Add(ref.Box("ftyp", []byte("isom"), ub32(512), []byte("isomavc1")))
	}
	moovOff := int64(-1)
	for i := 0; i <= parts; i++ {
		if i == moovAt {
			if t.OneIn(4, "topjunk") {
				f.File.Add(junk(t, "tj"))
			}
			b := drawMoov()
			if i == parts && b[3] != 1 && t.OneIn(8, "openmoov") {
				b = append([]byte{0, 0, 0, 0}, b[4:]...)
				f.MoovOpen = true
			}
			moovOff = f.File.Add(b)
		}
		if i == parts {
			break
		}
		if !flat && t.OneIn(8, "hole") {
			// unused space, to have offsets of 31 and 32 bits
			size := vt.Pick(t, "holesize", int64(1)<<31-100, 1<<31+1000, 1<<32-1<<21, t.I64(16, 1<<32-1<<21, "holer"))
			if f.File.Size()+size < 1<<32-1<<20 {
				f.File.Add(append(append(ub32(1), "free"...), binary.BigEndian.AppendUint64(nil, uint64(size))...))
				f.File.Hole(size - 16)
				f.Labels = append(f.Labels, "far offsets")
			}
		}
		part := chunks[cut[i]:cut[i+1]]
		if !flat && i == parts-1 && len(part) > 0 && t.OneIn(8, "astride") {
			// the last chunk starts below 4 GB and may end above
			gap = false
			before, n := 0, 0
			for _, c := range part {
				before, n = before+n, 0
				for k := 0; k < all[c.tr].perChunk[c.i]; k++ {
					n += len(all[c.tr].Samples[first[c]+k].Data)
				}
			}
			size := int64(1)<<32 - 1 - t.I64(0, int64(n), "astrideby") - 16 - int64(before) - f.File.Size()
			if size >= 16 {
				f.File.Add(append(append(ub32(1), "free"...), binary.BigEndian.AppendUint64(nil, uint64(size))...))
				f.File.Hole(size - 16)
				f.Labels = append(f.Labels, "chunk across 4 GB")
			}
		}
		last := i == parts-1 && moovAt != parts
		switch {
		case t.OneIn(4, "mdat64"):
			f.File.Add(ref.Box64("mdat", media(part, 16)))
			f.Labels = append(f.Labels, "64-bit size")
		case last && t.OneIn(3, "openmdat"):
			b := ref.Box("mdat", media(part, 8))
			copy(b, []byte{0, 0, 0, 0})
			f.File.Add(b)
			f.Labels = append(f.Labels, "open box")
		default:
			f.File.Add(ref.Box("mdat", media(part, 8)))
		}
	}
	_ = moovSize
	patch(moovOff)
	f.Moov = moovOff
	return f
}

// SampleTime is the time of a sample.
func SampleTime(tr *ref.MP4Track, i int) time.Duration { return tr.Time(tr.Samples[i].DTS) }
