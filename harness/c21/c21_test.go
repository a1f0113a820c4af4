package c21

import (
	"bytes"
	"fmt"
	"io"
	"testing"
	"time"

	"github.com/nareix/joy5/av"
	"github.com/nareix/joy5/codec/aac"
	"github.com/nareix/joy5/codec/h264"
	"github.com/nareix/joy5/format/mp4"

	"joyverif/gen"
	"joyverif/ref"
	"joyverif/vt"
)

func TestMain(m *testing.M) { vt.Main(m) }

func typeOf(tr *ref.MP4Track) int {
	if tr.Kind == "avc1" {
		return av.H264
	}
	return av.AAC
}

func near(a, b time.Duration) bool { return a-b >= -2 && a-b <= 2 }

// differs compares a packet with sample i of a track.
func differs(tr *ref.MP4Track, i int, p av.Packet) string {
	s := &tr.Samples[i]
	switch {
	case !bytes.Equal(p.Data, s.Data):
		return fmt.Sprintf("%d bytes differ from the %d of the sample", len(p.Data), len(s.Data))
	case !near(p.Time, tr.Time(s.DTS)):
		return fmt.Sprintf("time %v, sample at %v (%d/%d)", p.Time, tr.Time(s.DTS), s.DTS, tr.TimeScale)
	case !near(p.CTime, tr.Time(s.Cts)):
		return fmt.Sprintf("composition offset %v, sample has %v (%d/%d)", p.CTime, tr.Time(s.Cts), s.Cts, tr.TimeScale)
	case p.IsKeyFrame != (s.Sync && (tr.Kind == "avc1" || !tr.NoSync)):
		return fmt.Sprintf("keyframe %v, sample %v", p.IsKeyFrame, s.Sync)
	}
	return ""
}

// at is the sample that comes next of each track of a kind, in file order.
type at [3]int

type player struct {
	t    *vt.T
	f    *gen.MP4File
	d    *mp4.Demuxer
	next map[int]map[at]bool // per type: the samples that may come next
	last time.Duration
	hist string
}

// tracks gives the tracks whose packets are of a type, which do not tell them apart.
func (p *player) tracks(typ int) (list []*ref.MP4Track) {
	for _, tr := range p.f.Tracks {
		if typeOf(tr) == typ {
			list = append(list, tr)
		}
	}
	return
}

func (p *player) fail(format string, a ...interface{}) {
	p.t.Fatalf("%s\nafter %s", fmt.Sprintf(format, a...), p.hist)
}

// read takes n packets, all if n < 0.
func (p *player) read(n int) {
	for k := 0; n < 0 || k < n; k++ {
		pkt, err := p.d.ReadPacket()
		if err == io.EOF {
			for typ, set := range p.next {
				var end at
				for i, tr := range p.tracks(typ) {
					end[i] = len(tr.Samples)
				}
				if !set[end] {
					p.fail("end of file, type %d should go on with one of %v of %v samples", typ, set, end)
				}
			}
			for i := 0; i < 2; i++ {
				if pkt, err := p.d.ReadPacket(); err != io.EOF {
					p.fail("after the end of file: %v, %v", pkt, err)
				}
			}
			p.hist += " end"
			return
		}
		if err != nil {
			p.fail("read: %v", err)
		}
		trs := p.tracks(pkt.Type)
		if len(trs) == 0 {
			p.fail("packet of type %d", pkt.Type)
		}
		if pkt.Time < p.last {
			p.fail("packet at %v after one at %v", pkt.Time, p.last)
		}
		p.last = pkt.Time
		was := p.next[pkt.Type]
		now := map[at]bool{}
		why := ""
		for pos := range was {
			for j, tr := range trs {
				i := pos[j]
				if i >= len(tr.Samples) {
					why += " (or the end)"
					continue
				}
				if d := differs(tr, i, pkt); d == "" {
					pos := pos
					pos[j]++
					now[pos] = true
				} else if len(why) < 3000 {
					why += fmt.Sprintf(" sample %d: %s;", i, d)
				}
			}
		}
		if len(now) == 0 {
			p.fail("%s packet %d: %s", trs[0].Kind, k, why)
		}
		p.next[pkt.Type] = now
		if len(p.hist) < 2000 {
			p.hist += fmt.Sprintf(" %s@%v", trs[0].Kind, pkt.Time)
		}
	}
}

// cover gives the samples that cover tm: the last one that starts at or
// before it, and others that start at the same time.
func cover(tr *ref.MP4Track, tm time.Duration) (set []int) {
	c := 0
	for i := range tr.Samples {
		if gen.SampleTime(tr, i) <= tm {
			c = i
		}
	}
	for i := range tr.Samples {
		if near(gen.SampleTime(tr, i), gen.SampleTime(tr, c)) {
			set = append(set, i)
		}
	}
	return
}

func (p *player) seek(tm time.Duration) {
	p.hist += fmt.Sprintf(" seek %v:", tm)
	if err := p.d.SeekToTime(tm); err != nil {
		p.fail("seek: %v", err)
	}
	p.last = -1 << 62
	p.next = map[int]map[at]bool{}
	resume := map[time.Duration]bool{}
	var sets []map[int]bool
	for _, v := range p.tracks(av.H264) {
		set := map[int]bool{}
		if len(v.Samples) == 0 {
			set[0] = true
		}
		for _, c := range cover(v, tm) {
			k := c
			for k >= 0 && !v.Samples[k].Sync {
				k--
			}
			if k < 0 {
				// no keyframe to start from: anywhere before the target
				for k := 0; k <= c; k++ {
					set[k] = true
					resume[gen.SampleTime(v, k)] = true
				}
			} else {
				set[k] = true
				resume[gen.SampleTime(v, k)] = true
			}
		}
		sets = append(sets, set)
	}
	p.may(av.H264, sets)
	if len(resume) == 0 {
		resume[tm] = true
	}
	sets = nil
	for _, a := range p.tracks(av.AAC) {
		set := map[int]bool{}
		if len(a.Samples) == 0 {
			set[0] = true
		}
		for tm := range resume {
			for _, c := range cover(a, tm) {
				k := c
				if !a.NoSync {
					// audio with a sync table may start at a sync sample too
					for k >= 0 && !a.Samples[k].Sync {
						k--
					}
					if k < 0 {
						for k := 0; k <= c; k++ {
							set[k] = true
						}
						continue
					}
				}
				set[k] = true
			}
		}
		sets = append(sets, set)
	}
	p.may(av.AAC, sets)
}

// may says what may come next of each track of a kind.
func (p *player) may(typ int, sets []map[int]bool) {
	if len(sets) == 0 {
		return
	}
	all := map[at]bool{{}: true}
	for j, set := range sets {
		more := map[at]bool{}
		for pos := range all {
			for i := range set {
				pos[j] = i
				more[pos] = true
			}
		}
		all = more
	}
	p.next[typ] = all
}

func (p *player) start() {
	p.next = map[int]map[at]bool{}
	for _, tr := range p.f.Tracks {
		p.next[typeOf(tr)] = map[at]bool{{}: true}
	}
	p.last = -1 << 62
}

func (p *player) streams() {
	streams, err := p.d.Streams()
	if err != nil {
		p.fail("streams: %v", err)
	}
	if len(streams) != len(p.f.Tracks) {
		p.fail("%d streams of %d", len(streams), len(p.f.Tracks))
	}
	for i, s := range streams {
		tr := p.f.Tracks[i]
		switch c := s.(type) {
		case *h264.Codec:
			if tr.Kind != "avc1" || !bytes.Equal(c.ConfigBytes, tr.Config) {
				p.fail("stream %d: H.264 %x; in the file %s %x", i, c.ConfigBytes, tr.Kind, tr.Config)
			}
		case *aac.Codec:
			if tr.Kind != "mp4a" || !bytes.Equal(c.ConfigBytes, tr.Config) {
				p.fail("stream %d: AAC %x; in the file %s %x", i, c.ConfigBytes, tr.Kind, tr.Config)
			}
		default:
			p.fail("stream %d: %T", i, s)
		}
	}
	p.hist += " streams"
}

func (p *player) target() time.Duration {
	t := p.t
	if len(p.f.Tracks) > 0 && !t.OneIn(6, "anywhere") {
		tr := p.f.Tracks[t.Int(0, len(p.f.Tracks)-1, "which")]
		if n := len(tr.Samples); n > 0 {
			i := t.Int(0, n-1, "at")
			tm := gen.SampleTime(tr, i)
			if t.Bool("inside") {
				d := tr.Time(int64(tr.Samples[i].Dur))
				tm += vt.Pick(t, "off", d/2, d-1, d, d+1, -1, 1)
			}
			return tm
		}
	}
	return vt.Pick(t, "far", 0, -1, -time.Second, 1, time.Second, 100*365*24*time.Hour, -100*365*24*time.Hour, 1<<63-1, -1<<63,
		time.Duration(t.I64(0, int64(time.Hour), "tmh")), time.Duration(t.I64(0, int64(100*365*24*time.Hour), "tm")))
}

func describe(f *gen.MP4File) (s string, n int) {
	for _, tr := range f.Tracks {
		s += fmt.Sprintf("%s*%d ", tr.Kind, len(tr.Samples))
		n += len(tr.Samples)
	}
	return
}

// TestRead plays files of other writers from begin to end.
func TestRead(t *testing.T) {
	vt.Check(t, 600, 60000, func(t *vt.T) {
		f := gen.DrawMP4Any(t, vt.Pick(t, "max", 4, 20, 20, 60))
		f.File.Frags = t.Frags("frags")
		if f.File.Flat() {
			t.Save(f.File.Bytes())
		}
		s, n := describe(f)
		p := &player{t: t, f: f, d: mp4.NewDemuxer(f.File), hist: s}
		p.start()
		if t.Bool("streams") {
			p.streams()
		}
		if t.Bool("streamsbetween") {
			p.read(t.Int(0, 5, "first"))
			p.streams()
		}
		p.read(-1)
		for _, l := range f.Labels {
			t.Label(l)
		}
		t.LabelIf(len(f.Tracks) == 2, "two streams")
		t.LabelIf(len(p.tracks(av.H264)) > 1, "several video streams")
		t.LabelIf(len(p.tracks(av.AAC)) > 1, "several audio streams")
		t.LabelIf(f.NAll > len(f.Tracks), "other tracks")
		if n > 1 {
			t.Nontrivial(s, f.File.Size(), f.NAll)
		}
		t.Sample("%sin %d bytes, %d tracks", s, f.File.Size(), f.NAll)
	})
}

// TestSeek mixes seeks and reads.
func TestSeek(t *testing.T) {
	vt.Check(t, 900, 90000, func(t *vt.T) {
		f := gen.DrawMP4Any(t, vt.Pick(t, "max", 4, 20, 20, 40))
		if f.File.Flat() {
			t.Save(f.File.Bytes())
		}
		s, n := describe(f)
		p := &player{t: t, f: f, d: mp4.NewDemuxer(f.File), hist: s}
		p.start()
		seeks := 0
		for i, ops := 0, t.Int(1, 8, "ops"); i < ops; i++ {
			switch t.Int(0, 5, "op") {
			case 0:
				p.read(-1)
			case 1:
				p.read(t.Int(1, 8, "n"))
			case 2:
				p.streams()
			default:
				p.seek(p.target())
				seeks++
				if t.Bool("look") {
					p.read(t.Int(1, 4, "nn"))
				}
			}
		}
		p.read(-1)
		t.LabelIf(seeks > 1, "several seeks")
		t.LabelIf(len(f.Tracks) == 2, "two streams")
		t.LabelIf(len(p.tracks(av.H264)) > 1, "several video streams")
		t.LabelIf(len(p.tracks(av.AAC)) > 1, "several audio streams")
		if n > 1 && seeks > 0 {
			t.Nontrivial(s, f.File.Size(), p.hist)
		}
		t.Sample("%d seeks: %s", seeks, p.hist)
	})
}

// TestLong plays long tables: many samples, runs and chunks.
func TestLong(t *testing.T) {
	vt.Check(t, 12, 800, func(t *vt.T) {
		f := gen.DrawMP4Any(t, 1500)
		s, n := describe(f)
		p := &player{t: t, f: f, d: mp4.NewDemuxer(f.File), hist: s}
		p.start()
		p.read(-1)
		for i := 0; i < 3; i++ {
			p.seek(p.target())
			p.read(t.Int(0, 200, "n"))
		}
		p.read(-1)
		if n > 100 {
			t.Nontrivial(s, f.File.Size())
		}
		t.Sample("%s%d bytes", s, f.File.Size())
	})
}
