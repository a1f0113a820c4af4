package c23

import (
	"bytes"
	"fmt"
	"testing"
	"time"

	"github.com/nareix/joy5/av"
	"github.com/nareix/joy5/codec/aac"
	"github.com/nareix/joy5/codec/h264"
	"github.com/nareix/joy5/format/rtsp"

	"joyverif/gen"
	"joyverif/ref"
	"joyverif/vt"
)

func TestMain(m *testing.M) { vt.Main(m) }

func codecs(x *gen.RTSPSession, ss []interface{}, sps, pps []byte) string {
	if len(ss) != len(x.Streams) {
		return fmt.Sprintf("%d streams, want %d", len(ss), len(x.Streams))
	}
	for i, s := range x.Streams {
		if s.Video {
			c, ok := ss[i].(*h264.Codec)
			if !ok {
				return fmt.Sprintf("stream %d is %T", i, ss[i])
			}
			if sps == nil {
				continue
			}
			if len(c.SPS) != 1 || len(c.PPS) != 1 || !bytes.Equal(c.SPS[s.SPSID], sps) || !bytes.Equal(c.PPS[s.PPSID], pps) {
				return fmt.Sprintf("stream %d has parameter sets %x %x, want %x %x", i, c.SPS, c.PPS, sps, pps)
			}
			if w := ref.AVCC([][]byte{sps}, [][]byte{pps}); !bytes.Equal(c.ConfigBytes, w) {
				return fmt.Sprintf("stream %d has configuration %x, want %x", i, c.ConfigBytes, w)
			}
		} else {
			c, ok := ss[i].(*aac.Codec)
			if !ok {
				return fmt.Sprintf("stream %d is %T", i, ss[i])
			}
			if !bytes.Equal(c.ConfigBytes, s.Config) {
				return fmt.Sprintf("stream %d has configuration %x, want %x", i, c.ConfigBytes, s.Config)
			}
		}
	}
	return ""
}

func run(t *vt.T, o gen.RTSPOpts) *gen.RTSPSession {
	x := gen.DrawRTSP(t, o)
	// the server has sent everything and is gone before any of it is read,
	// and keepalives are asked for
	if !o.Loss && !o.Change && len(x.Wire) < 30000 && t.OneIn(6, "gone") {
		x.Gone = make(chan bool, 1)
	}
	cuts, pause := gen.Deliveries(t, len(x.Wire)+60, x.Borders, "net")
	t.Save(x.Wire)
	var video *gen.RTSPStream
	for _, s := range x.Streams {
		if s.Video {
			video = s
		}
	}

	var got [2][]gen.RTSPUnit // video, audio
	var times [2][]time.Duration
	var fail string
	var end error
	bad, serr := gen.RTSPCase(0, func(c *ref.RTSPConn) error { return gen.ServeRTSP(c, x, cuts, pause) }, func(addr string) {
		cli, err := rtsp.Dial(gen.RTSPURI(addr, "/live"))
		if err != nil {
			fail = "dial: " + err.Error()
			return
		}
		defer func() { cli.Close() }()
		ss, err := cli.Streams()
		if err != nil {
			fail = "streams: " + err.Error()
			return
		}
		var sps, pps []byte
		if video != nil && video.InSDP {
			sps, pps = video.SPS, video.PPS
		}
		if fail = codecs(x, ss, sps, pps); fail != "" {
			return
		}
		if x.Gone != nil {
			err := cli.SetupAll()
			if err == nil {
				err = cli.Play()
			}
			if err != nil {
				fail = "play: " + err.Error()
				return
			}
			select {
			case gone := <-x.Gone:
				if gone {
					cli.RtpKeepAliveTimeout = time.Nanosecond
					t.Label("server gone before its packets are read")
				}
			case <-time.After(10 * time.Second):
			}
		}
		for n := 0; n < 100000; n++ {
			pkt, err := cli.ReadPacket()
			if err == rtsp.ErrCodecChange {
				if cli, err = cli.HandleCodecChange(); err != nil {
					fail = "codec change: " + err.Error()
					return
				}
				ss, _ := cli.Streams()
				// the parameter sets in force are those of the next expected change
				k := 0
				for _, u := range got[0] {
					if u.Change {
						k++
					}
				}
				if video != nil {
					for _, u := range video.Want {
						if u.Change {
							if k == 0 {
								if fail = codecs(x, ss, u.SPS, u.PPS); fail != "" {
									fail = "after a codec change: " + fail
									return
								}
							}
							k--
						}
					}
				}
				got[0] = append(got[0], gen.RTSPUnit{Change: true})
				times[0] = append(times[0], 0)
				continue
			}
			if err != nil {
				end = err
				return
			}
			w := 0
			switch pkt.Type {
			case av.H264:
			case av.AAC:
				w = 1
			default:
				fail = fmt.Sprintf("packet of type %d", pkt.Type)
				return
			}
			got[w] = append(got[w], gen.RTSPUnit{Data: append([]byte{}, pkt.Data...), Key: pkt.IsKeyFrame})
			times[w] = append(times[w], pkt.Time)
		}
	})
	if bad != "" {
		t.Fatalf("%s\nsession %s", bad, x.Show())
	}
	if serr != nil {
		t.Fatalf("%v\nsession %s", serr, x.Show())
	}
	if fail != "" {
		t.Fatalf("%s\nsession %s", fail, x.Show())
	}
	for _, s := range x.Streams {
		w := 1
		if s.Video {
			w = 0
		}
		want := s.Want
		if len(want) > 0 && want[len(want)-1].Change { // nothing follows that would tell
			want = want[:len(want)-1]
		}
		start := int64(-1)
		for i, u := range want {
			if i >= len(got[w]) {
				t.Fatalf("stream %s: %d packets, want %d; the end was %v\nsession %s", name(s), len(got[w]), len(want), end, x.Show())
			}
			g := got[w][i]
			if g.Change != u.Change {
				t.Fatalf("stream %s, packet %d: codec change %v, want %v\nsession %s", name(s), i, g.Change, u.Change, x.Show())
			}
			if u.Change {
				continue
			}
			if !bytes.Equal(g.Data, u.Data) {
				t.Fatalf("stream %s, packet %d: %d bytes %s, want %d bytes %s\nsession %s", name(s), i, len(g.Data), gen.Hex(g.Data), len(u.Data), gen.Hex(u.Data), x.Show())
			}
			if g.Key != u.Key {
				t.Fatalf("stream %s, packet %d: keyframe %v, want %v", name(s), i, g.Key, u.Key)
			}
			if start < 0 {
				start = u.TS
			}
			d := u.TS - start
			c := int64(s.Clock)
			wt := time.Duration(d/c)*time.Second + time.Duration(d%c)*time.Second/time.Duration(c)
			if df := times[w][i] - wt; df < -time.Microsecond || df > time.Microsecond {
				t.Fatalf("stream %s, packet %d: time %v, want %v\nsession %s", name(s), i, times[w][i], wt, x.Show())
			}
		}
		if len(got[w]) > len(want) {
			t.Fatalf("stream %s: %d packets, want %d\nsession %s", name(s), len(got[w]), len(want), x.Show())
		}
		t.LabelIf(s.TSWrap, "RTP timestamp wraps")
		t.LabelIf(s.AnnexB > 0, "several units with start codes")
		t.LabelIf(s.SeqWrap, "sequence number wraps")
		t.LabelIf(s.Lost > 0, "packets lost")
	}
	for _, s := range x.Streams {
		if len(s.Want) >= 2 {
			t.Nontrivial(x.Wire)
			t.Sample("%s", x.Show())
			break
		}
	}
	t.LabelIf(len(x.Streams) == 2, "two streams")
	t.LabelIf(x.Foreign > 0, "other messages between")
	t.LabelIf(len(cuts) > 0, "several deliveries")
	return x
}

func name(s *gen.RTSPStream) string {
	if s.Video {
		return "H264"
	}
	return "AAC"
}

func TestDelivery(t *testing.T) {
	vt.Check(t, 3000, 60000, func(t *vt.T) { run(t, gen.RTSPOpts{Big: true}) })
}

func TestLoss(t *testing.T) {
	vt.Check(t, 2500, 50000, func(t *vt.T) { run(t, gen.RTSPOpts{Loss: true}) })
}

func TestChange(t *testing.T) {
	vt.Check(t, 1500, 30000, func(t *vt.T) { run(t, gen.RTSPOpts{Change: true}) })
}

func TestLong(t *testing.T) {
	vt.Check(t, 800, 15000, func(t *vt.T) { run(t, gen.RTSPOpts{Long: true}) })
}
