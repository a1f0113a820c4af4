package c15

import (
	"bytes"
	"fmt"
	"sort"
	"testing"
	"time"

	"github.com/nareix/joy5/codec/h264"

	"joyverif/gen"
	"joyverif/ref"
	"joyverif/vt"
)

func TestMain(m *testing.M) { vt.Main(m) }

type set struct {
	sps  bool
	id   int
	b    []byte
	w, h int
}

func drawSPS(t *vt.T, id int, l string) set {
	s := gen.SPS(t, l)
	s.ID = id
	w, h := s.Size()
	b := s.NAL()
	if t.OneIn(60, l+"long") {
		b = append(b, t.Payload(t.Int(1, 65535-len(b), l+"ln"), l+"lp")...)
	}
	return set{true, id, b, w, h}
}

func drawPPS(t *vt.T, id int, l string) set {
	var tail []byte
	for i, n := 0, t.Int(0, 60, l+"n"); i < n; i++ {
		tail = append(tail, t.Byte(l+"b")&1)
	}
	b := ref.PPSNAL(vt.Pick(t, l+"h", byte(0x68), 0x28, 0x08), id, t.Int(0, 31, l+"s"), tail)
	return set{false, id, b, 0, 0}
}

// drawSets draws parameter sets with distinct ids per kind.
func drawSets(t *vt.T, l string) []set {
	var out []set
	ns := vt.Pick(t, l+"ns", 1, 1, 1, 1, 2, 3, t.Int(0, 6, l+"nsa"))
	np := vt.Pick(t, l+"np", 1, 1, 1, 2, 3, t.Int(0, 8, l+"npa"))
	if t.OneIn(200, l+"max") {
		ns = 31
		np = 255
	}
	first := t.Int(0, 31, l+"sid")
	step := vt.Pick(t, l+"sst", 1, 3, 5, 31)
	for i := 0; i < ns; i++ {
		out = append(out, drawSPS(t, (first+i*step)%32, fmt.Sprintf("%ss%d", l, i)))
	}
	first = t.Int(0, 255, l+"pid")
	step = vt.Pick(t, l+"pst", 1, 3, 7, 255)
	for i := 0; i < np; i++ {
		out = append(out, drawPPS(t, (first+i*step)%256, fmt.Sprintf("%sp%d", l, i)))
	}
	return out
}

func perm(t *vt.T, in []set, l string) []set {
	out := append([]set(nil), in...)
	seed := t.U64(l)
	for i := len(out) - 1; i > 0; i-- {
		seed = seed*6364136223846793005 + 1442695040888963407
		j := int(seed>>33) % (i + 1)
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func build(in []set) *h264.Codec {
	c := h264.NewCodec()
	for _, s := range in {
		b := append([]byte(nil), s.b...)
		c.AddSPSPPS(b)
		for i := range b { // the codec must not keep the caller's buffer
			b[i] = 0xee
		}
	}
	return c
}

func record(in []set) []byte {
	s := append([]set(nil), in...)
	sort.SliceStable(s, func(i, j int) bool { return s[i].id < s[j].id })
	var sps, pps [][]byte
	for _, x := range s {
		if x.sps {
			sps = append(sps, x.b)
		} else {
			pps = append(pps, x.b)
		}
	}
	return ref.AVCC(sps, pps)
}

func holds(c *h264.Codec, in []set) string {
	ns, np := 0, 0
	for _, s := range in {
		m := c.PPS
		if s.sps {
			m = c.SPS
			ns++
		} else {
			np++
		}
		if b, ok := m[s.id]; !ok || !bytes.Equal(b, s.b) {
			return fmt.Sprintf("set %v %d is %x, want %x", s.sps, s.id, b, s.b)
		}
	}
	if len(c.SPS) != ns || len(c.PPS) != np {
		return fmt.Sprintf("%d SPS and %d PPS, want %d and %d", len(c.SPS), len(c.PPS), ns, np)
	}
	return ""
}

// dims gives the picture sizes of the sequence sets.
func dims(in []set) (one bool, w, h int, all map[[2]int]bool) {
	all = map[[2]int]bool{}
	for _, s := range in {
		if s.sps {
			all[[2]int{s.w, s.h}] = true
			w, h = s.w, s.h
		}
	}
	return len(all) == 1, w, h, all
}

func TestRecord(t *testing.T) {
	vt.Check(t, 4000, 80000, func(t *vt.T) {
		in := drawSets(t, "a")
		c := build(perm(t, in, "o1"))
		if bad := holds(c, in); bad != "" {
			t.Fatalf("after adding: %s", bad)
		}
		one, w, h, all := dims(in)
		if one && (c.W != w || c.H != h) || len(all) > 0 && !all[[2]int{c.W, c.H}] {
			t.Fatalf("picture size %dx%d, want %dx%d", c.W, c.H, w, h)
		}
		c.ToConfig()
		want := record(in)
		if !bytes.Equal(c.ConfigBytes, want) {
			t.Save(c.ConfigBytes)
			t.Fatalf("record %x\nwant   %x", c.ConfigBytes, want)
		}
		if c.Len() != len(want) {
			t.Fatalf("Len()=%d, record has %d bytes", c.Len(), len(want))
		}
		o := build(perm(t, in, "o2"))
		o.ToConfig()
		if !bytes.Equal(o.ConfigBytes, want) {
			t.Fatalf("another adding order gives record %x\nwant %x", o.ConfigBytes, want)
		}
		if !c.Equal(*o) || !o.Equal(*c) {
			t.Fatalf("codecs with the same sets added in another order are not equal")
		}
		src := append([]byte(nil), want...)
		p, err := h264.FromDecoderConfig(src)
		if err != nil {
			t.Save(want)
			t.Fatalf("record %x refused: %v", want, err)
		}
		if bad := holds(p, in); bad != "" {
			t.Fatalf("parsed record: %s", bad)
		}
		if one && (p.W != w || p.H != h) || len(all) > 0 && !all[[2]int{p.W, p.H}] {
			t.Fatalf("parsed record: picture size %dx%d, want %dx%d", p.W, p.H, w, h)
		}
		if !bytes.Equal(p.ConfigBytes, want) {
			t.Fatalf("parsed record keeps record %x, want %x", p.ConfigBytes, want)
		}
		if !c.Equal(*p) || !p.Equal(*c) {
			t.Fatalf("parsed codec is not equal to the original")
		}
		p.ToConfig()
		if !bytes.Equal(p.ConfigBytes, want) {
			t.Fatalf("parsed and built again: %x, want %x", p.ConfigBytes, want)
		}
		// longer records (profile extensions) parse the same
		if ext := append(append([]byte(nil), want...), t.RawBytes(12, "ext")...); len(ext) > len(want) {
			q, err := h264.FromDecoderConfig(ext)
			if err != nil || !q.Equal(*c) {
				t.Fatalf("record with %d more bytes: %v", len(ext)-len(want), err)
			}
		}
		// every cut, or 64 of them
		cut := func(i int) {
			if _, err := h264.FromDecoderConfig(want[:i:i]); err == nil {
				t.Save(want[:i])
				t.Fatalf("record cut at byte %d of %d accepted", i, len(want))
			}
		}
		if len(want) <= 200 {
			for i := range want {
				cut(i)
			}
		} else {
			for i := 0; i < 64; i++ {
				cut(t.Int(0, len(want)-1, "cut"))
			}
		}
		ver := append([]byte(nil), want...)
		for ver[0] == 1 {
			ver[0] = t.Byte("ver")
		}
		if _, err := h264.FromDecoderConfig(ver); err == nil {
			t.Fatalf("record of version %d accepted", ver[0])
		}
		t.LabelIf(len(c.SPS) > 1, "several SPS")
		t.LabelIf(len(c.PPS) > 1, "several PPS")
		t.Nontrivial("record", want)
		t.Sample("%d SPS, %d PPS, record of %d bytes", len(c.SPS), len(c.PPS), len(want))
	})
}

func key(in []set) map[string]bool {
	k := map[string]bool{}
	for _, s := range in {
		k[fmt.Sprintf("%v/%d/%x", s.sps, s.id, s.b)] = true
	}
	return k
}

// replay of additions, as a model: a later set replaces an earlier one of the same kind and id
func model(in []set) []set {
	var out []set
	for _, s := range in {
		done := false
		for i := range out {
			if out[i].sps == s.sps && out[i].id == s.id {
				out[i] = s
				done = true
			}
		}
		if !done {
			out = append(out, s)
		}
	}
	return out
}

func TestEqualCopy(t *testing.T) {
	vt.Check(t, 5000, 100000, func(t *vt.T) {
		in := drawSets(t, "a")
		if len(in) > 30 {
			in = in[:30]
		}
		other := append([]set(nil), in...)
		switch t.Int(0, 6, "change") {
		case 0: // the same
		case 1: // one bit of one set
			if len(other) > 0 {
				i := t.Int(0, len(other)-1, "which")
				b := append([]byte(nil), other[i].b...)
				b = append(b, 0x80)
				other[i].b = b
			}
		case 2: // one set missing
			if len(other) > 0 {
				i := t.Int(0, len(other)-1, "which")
				other = append(other[:i:i], other[i+1:]...)
			}
		case 3: // one more
			other = append(other, drawPPS(t, t.Int(0, 255, "newid"), "np"))
		case 4: // the same bytes divided differently
			a := drawPPS(t, 3, "x")
			b := drawPPS(t, 4, "y")
			in = append(in, a, b)
			ab := a
			ab.b = append(append([]byte(nil), a.b...), b.b...)
			other = append(other, ab)
		case 5: // a picture set in the sequence set's tail
			a := drawSPS(t, 7, "x")
			b := drawPPS(t, 0, "y")
			in = []set{a, b}
			ab := a
			ab.b = append(append([]byte(nil), a.b...), b.b...)
			other = []set{ab}
		default: // a set replaced by another of the same id
			if len(in) > 0 {
				i := t.Int(0, len(in)-1, "which")
				if in[i].sps {
					other = append(other, drawSPS(t, in[i].id, "rs"))
				} else {
					other = append(other, drawPPS(t, in[i].id, "rp"))
				}
			}
		}
		in, other = model(in), model(other)
		a := build(perm(t, in, "oa"))
		b := build(perm(t, other, "ob"))
		ka, kb := key(in), key(other)
		want := len(ka) == len(kb)
		for k := range ka {
			if !kb[k] {
				want = false
			}
		}
		if t.Bool("junk") { // units that are no parameter sets change nothing
			a.AddSPSPPS([]byte{0x65, 1, 2, 3})
			a.AddSPSPPS([]byte{0x67})
			a.AddSPSPPS(nil)
		}
		if t.Bool("cfg") {
			a.ToConfig()
		}
		if a.Equal(*b) != want || b.Equal(*a) != want {
			t.Fatalf("Equal gives %v and %v, the sets are equal: %v\n a %v\n b %v", a.Equal(*b), b.Equal(*a), want, ka, kb)
		}
		// copying
		c := h264.FromOld(*a)
		if bad := holds(c, in); bad != "" {
			t.Fatalf("copy: %s", bad)
		}
		if !c.Equal(*a) || c.W != a.W || c.H != a.H {
			t.Fatalf("copy differs: %dx%d, original %dx%d", c.W, c.H, a.W, a.H)
		}
		c.ToConfig()
		before := append([]byte(nil), c.ConfigBytes...)
		// change the original in every way there is
		for _, s := range other {
			a.AddSPSPPS(append([]byte(nil), s.b...))
		}
		for _, m := range []map[int][]byte{a.SPS, a.PPS} {
			for id, s := range m {
				for i := range s {
					s[i] ^= 0x55
				}
				if t.Bool("del") {
					delete(m, id)
				}
			}
		}
		if bad := holds(c, in); bad != "" {
			t.Fatalf("copy after the original changed: %s", bad)
		}
		c.ToConfig()
		if !bytes.Equal(before, c.ConfigBytes) || !bytes.Equal(before, record(in)) {
			t.Fatalf("copy's record changed with the original")
		}
		// and the other way round
		d := h264.FromOld(*b)
		d.AddSPSPPS(drawPPS(t, 200, "dp").b)
		for _, s := range d.SPS {
			s[0] ^= 0xff
		}
		if bad := holds(b, other); bad != "" {
			t.Fatalf("original after the copy changed: %s", bad)
		}
		t.LabelIf(want, "equal")
		t.LabelIf(!want, "different")
		if len(in)+len(other) > 2 {
			t.Nontrivial("equal", fmt.Sprint(len(ka), len(kb)), record(in), record(other))
		}
	})
}

func TestHostile(t *testing.T) {
	vt.Check(t, 5000, 100000, func(t *vt.T) {
		var b []byte
		switch t.Int(0, 3, "kind") {
		case 0:
			b = t.RawBytes(300, "raw")
		case 1:
			b = append([]byte{1, 100, 0, 30, 0xff, t.Byte("n")}, t.RawBytes(200, "raw")...)
		default:
			in := drawSets(t, "a")
			if len(in) > 20 {
				in = in[:20]
			}
			b = record(in)
			for i, n := 0, t.Int(1, 8, "flips"); i < n && len(b) > 0; i++ {
				b[t.Int(0, len(b)-1, "at")] = t.Byte("v")
			}
			b = b[:t.Int(0, len(b), "cut")]
		}
		var c *h264.Codec
		var err error
		bad := vt.Guard(uint64(1<<20+60*len(b)), 5*time.Second, 0, func() {
			c, err = h264.FromDecoderConfig(b)
			if err == nil {
				c.ToConfig()
				h264.FromOld(*c)
			}
		})
		if bad != "" {
			t.Save(b)
			t.Fatalf("parsing a record of %d bytes: %s", len(b), bad)
		}
		if err == nil {
			// what is announced must be there
			n := 0
			for _, m := range []map[int][]byte{c.SPS, c.PPS} {
				for _, s := range m {
					n += 2 + len(s)
				}
			}
			if b[0] != 1 || n+7 > len(b) {
				t.Save(b)
				t.Fatalf("record of %d bytes yields %d bytes of sets", len(b), n)
			}
			t.Label("accepted")
		}
		if len(b) > 6 {
			t.Nontrivial("hostile", b)
		}
	})
}
