package c03

import (
	"bytes"
	"errors"
	"io"
	"testing"
	"time"

	"github.com/nareix/joy5/av"
	"github.com/nareix/joy5/format/flv"

	"joyverif/gen"
	"joyverif/ref"
	"joyverif/vt"
)

func TestMain(m *testing.M) { vt.Main(m) }

func drawFile(t *vt.T, n int) (b []byte, ends []int, want []gen.Pkt, upto []int) {
	var tags []ref.FLVTag
	for i := 0; i < n; i++ {
		tag, w := gen.RefTag(t, false, "t")
		tags = append(tags, tag)
		if w != nil {
			want = append(want, *w)
		}
		upto = append(upto, len(want))
	}
	off := 9
	if t.OneIn(6, "off") {
		off = 9 + t.Int(1, 60, "offlen")
	}
	b, ends = ref.BuildFLV(5, off, tags)
	return
}

// hdrLen is where the first tag starts.
func hdrLen(b []byte) int { return int(b[7])<<8 + int(b[8]) + 4 }

func isEOF(err error) bool { return err == io.EOF || err == io.ErrUnexpectedEOF }

// Every truncation point of a generated file.
func TestTruncation(t *testing.T) {
	vt.Check(t, 600, 6000, func(t *vt.T) {
		b, ends, want, upto := drawFile(t, t.Int(1, 6, "n"))
		frags := t.Frags("frag")
		fault := t.Bool("fault")
		for _, cut := range gen.Cuts(t, len(b), ends, 900, "cut") {
			whole, bodies := 0, 0
			inside := false // the cut is within the header or body of a tag
			for i, e := range ends {
				start := hdrLen(b)
				if i > 0 {
					start = ends[i-1]
				}
				inside = inside || start < cut && cut < e-4
				if e <= cut {
					whole = upto[i]
				}
				if e-4 <= cut {
					bodies = upto[i]
				}
			}
			fr := &vt.FragReader{B: b[:cut], Frags: frags}
			if fault {
				fr.Err = vt.ErrInjected
			}
			got, err := gen.ReadAll(flv.NewDemuxer(fr), len(want)+1)
			if fault {
				if err != vt.ErrInjected {
					t.Fatalf("reader failed at %d of %d: got error %v, want the reader's", cut, len(b), err)
				}
			} else if !isEOF(err) {
				t.Fatalf("cut at %d of %d: error %v, want an end-of-file condition", cut, len(b), err)
			} else if inside && err == io.EOF {
				t.Fatalf("cut at %d of %d, within a tag: reported as a regular end of the file", cut, len(b))
			}
			if len(got) != whole && len(got) != bodies {
				t.Fatalf("cut at %d of %d: %d packets, want %d", cut, len(b), len(got), whole)
			}
			for i := range got {
				if s := gen.SamePkt(want[i], got[i]); s != "" {
					t.Fatalf("cut at %d of %d: packet %d: %s", cut, len(b), i, s)
				}
			}
		}
		t.LabelIf(fault, "reader error")
		t.LabelIf(!fault, "end of file")
		if len(want) > 1 {
			t.Nontrivial(b, fault)
			t.Sample("file of %d bytes, %d packets, cut everywhere: %s", len(b), len(want), gen.ShowPkts(want))
		}
	})
}

type failWriter struct {
	buf   bytes.Buffer
	limit int // bytes before failing; <0: by call
	calls int
	once  bool // the fault passes
	hit   bool
	after int // bytes written before it
}

func (w *failWriter) Write(p []byte) (int, error) {
	if w.limit >= 0 {
		if w.buf.Len()+len(p) > w.limit {
			n := w.limit - w.buf.Len()
			w.buf.Write(p[:n])
			return n, vt.ErrInjected
		}
	} else {
		if w.calls == 0 && (!w.once || !w.hit) {
			w.hit = true
			w.after = w.buf.Len()
			return 0, vt.ErrInjected
		}
		if w.hit {
			return w.buf.Write(p)
		}
		w.calls--
	}
	return w.buf.Write(p)
}

// A fault at the k-th byte or k-th call of the destination.
func TestWriteFaults(t *testing.T) {
	vt.Check(t, 800, 8000, func(t *vt.T) {
		ps := gen.Packets(t, gen.PktOpts{MaxPkts: 6}, "p")
		hdr := t.Bool("hdr")
		var full bytes.Buffer
		if err := gen.MuxFLV(&full, ps, true, true, false, hdr); err != nil {
			t.Fatalf("mux: %v", err)
		}
		// number of bytes after the header and each packet
		var marks []int
		{
			var b bytes.Buffer
			m := flv.NewMuxer(gen.SW{Writer: &b})
			m.HasVideo, m.HasAudio = true, true
			if hdr {
				m.WriteFileHeader()
				marks = append(marks, b.Len())
			}
			for _, p := range ps {
				m.WritePacket(p.P)
				marks = append(marks, b.Len())
			}
		}
		if full.Len() == 0 {
			return
		}
		try := func(w *failWriter, exactLimit int) {
			m := flv.NewMuxer(gen.SW{Writer: w})
			m.HasVideo, m.HasAudio = true, true
			step := 0
			var err error
			if hdr {
				err = m.WriteFileHeader()
				step = 1
			}
			for i := 0; err == nil && i < len(ps); i++ {
				err = m.WritePacket(ps[i].P)
				step++
			}
			if err == nil {
				t.Fatalf("the destination failed (limit %d, calls %d, once %v), but no call reported it", w.limit, w.calls, w.once)
			}
			if !errors.Is(err, vt.ErrInjected) {
				t.Fatalf("error %v, want the writer's", err)
			}
			if w.once {
				w.buf.Truncate(w.after)
				w.calls = 0
			}
			if !bytes.HasPrefix(full.Bytes(), w.buf.Bytes()) {
				t.Fatalf("bytes before the fault are no prefix of the fault-free output")
			}
			if exactLimit >= 0 {
				if w.buf.Len() != exactLimit {
					t.Fatalf("fault after %d bytes, but %d were written", exactLimit, w.buf.Len())
				}
				// the call that hit the fault is the one covering that byte
				need := 0
				for need < len(marks) && marks[need] <= exactLimit {
					need++
				}
				if step != need+1 {
					t.Fatalf("fault at byte %d surfaced in call %d, want %d", exactLimit, step, need+1)
				}
			}
		}
		for _, k := range gen.Cuts(t, full.Len()-1, marks, 400, "k") {
			try(&failWriter{limit: k}, k)
		}
		nc := 1
		for {
			w := &failWriter{limit: -1, calls: nc}
			nc++
			if err := gen.MuxFLV(w, ps, true, true, false, hdr); err == nil {
				break
			}
			try(&failWriter{limit: -1, calls: nc - 1}, -1)
			try(&failWriter{limit: -1, calls: nc - 1, once: true}, -1)
		}
		t.Nontrivial(gen.PktKey(ps), hdr)
	})
}

// Arbitrary and mutated bytes: packets or an error, in bounded space.
func TestHostileBytes(t *testing.T) {
	vt.Check(t, 12000, 250000, func(t *vt.T) {
		var b []byte
		switch t.Int(0, 7, "kind") {
		case 0:
			b = t.RawBytes(300, "raw")
		case 1:
			b = append([]byte("FLV\x01\x05\x00\x00\x00\x09\x00\x00\x00\x00"), t.RawBytes(300, "raw")...)
		case 2: // valid header, tags with arbitrary bodies of known types
			var tags []ref.FLVTag
			for i, n := 0, t.Int(1, 4, "n"); i < n; i++ {
				tags = append(tags, ref.FLVTag{Type: vt.Pick(t, "tt", byte(8), 9, 15, 18), Time: t.U32("ts"), Body: t.RawBytes(40, "body")})
			}
			b, _ = ref.BuildFLV(5, 9, tags)
		default:
			f, _, _, _ := drawFile(t, t.Int(1, 5, "n"))
			b = gen.Mutate(t, f, "m")
		}
		t.Save(b)
		fr := &vt.FragReader{B: b}
		var got []av.Packet
		var err error
		bad := vt.Guard(96<<20+uint64(len(b))*2000, 20*time.Second, 90*time.Second, func() {
			got, err = gen.ReadAll(flv.NewDemuxer(fr), len(b)+1)
		})
		if bad != "" {
			t.Fatalf("%s\non %s", bad, gen.Hex(b))
		}
		if err == nil {
			t.Fatalf("more packets than bytes from %s", gen.Hex(b))
		}
		if fr.Reads > len(b)+50 {
			t.Fatalf("%d reads for %d bytes", fr.Reads, len(b))
		}
		total := 0
		for _, p := range got {
			if p.Type != av.Metadata {
				total += len(p.Data)
			}
		}
		if total > len(b) {
			t.Fatalf("%d payload bytes out of a file of %d", total, len(b))
		}
		t.LabelIf(len(got) > 0, "hostile input with packets")
		if len(b) > 13 {
			t.Nontrivial(b)
		}
	})
}
