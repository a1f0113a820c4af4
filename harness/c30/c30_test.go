package c30

import (
	"fmt"
	"reflect"
	"runtime/debug"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"github.com/nareix/joy5/av"
	"github.com/nareix/joy5/av/pktop"

	"joyverif/vt"
)

func TestMain(m *testing.M) { vt.Main(m) }

type call struct {
	pause time.Duration // before the call
	in    []av.Packet
}

type result struct {
	at, released time.Duration // since the limiter was made
	out          []av.Packet
	in           []av.Packet // afterwards
}

// virtual runs the calls on a limiter under a clock that only advances when
// everything sleeps.
func virtual(tt *testing.T, calls []call) (res []result, bad string) {
	synctest.Test(tt, func(*testing.T) {
		ok := false
		defer func() {
			if !ok {
				bad = fmt.Sprintf("panic: %v\n%s", recover(), debug.Stack())
			}
		}()
		l := pktop.NewNativeRateLimiter()
		start := time.Now()
		for _, c := range calls {
			time.Sleep(c.pause)
			in := append([]av.Packet(nil), c.in...)
			if c.in != nil && in == nil {
				in = []av.Packet{}
			}
			var r result
			r.at = time.Since(start)
			r.out = l.Do(in)
			r.released = time.Since(start)
			r.in = in
			res = append(res, r)
		}
		ok = true
	})
	return
}

// judge tells what is wrong with the releases ("" if nothing).
func judge(calls []call, res []result) string {
	var top, topAt time.Duration // the latest timestamp so far, and when it was released
	for i, r := range res {
		in := calls[i].in
		if len(r.out) != len(in) {
			return fmt.Sprintf("call %d: %d packets in, %d out", i, len(in), len(r.out))
		}
		now := r.at // the packets of a batch count one after the other
		for j := range in {
			if !reflect.DeepEqual(in[j], r.out[j]) {
				return fmt.Sprintf("call %d: packet %d in %#v, out %#v", i, j, in[j], r.out[j])
			}
			if x := in[j].Time; x > top {
				now = max(now, topAt+x-top)
				top, topAt = x, now
			}
		}
		switch {
		case r.released < now:
			return fmt.Sprintf("call %d, made at %v: released %v after the start, %v too early", i, r.at, r.released, now-r.released)
		case r.released > now:
			return fmt.Sprintf("call %d, made at %v: released %v after the start, %v late", i, r.at, r.released, r.released-now)
		}
	}
	return ""
}

func show(calls []call) string {
	var b strings.Builder
	for i, c := range calls {
		if i > 0 {
			b.WriteString("; ")
		}
		fmt.Fprintf(&b, "+%v [", c.pause)
		for j, p := range c.in {
			if j > 0 {
				b.WriteString(" ")
			}
			fmt.Fprint(&b, p.Time)
		}
		b.WriteString("]")
	}
	return b.String()
}

func drawDur(t *vt.T, l string) time.Duration {
	switch t.Int(0, 9, l+"kind") {
	case 0:
		return 0
	case 1:
		return time.Duration(t.Int(0, 3, l+"ns"))
	case 2:
		return time.Duration(t.I64(0, int64(24*time.Hour), l+"day"))
	case 3:
		return time.Duration(t.I64(0, int64(3*365*24*time.Hour), l+"years"))
	case 4, 5:
		return time.Duration(t.Int(0, 5, l+"s")) * time.Second
	default:
		return time.Duration(t.Int(0, 200, l+"ms")) * time.Millisecond
	}
}

func drawCalls(t *vt.T) (calls []call, back, late bool) {
	now := time.Duration(0)
	if t.OneIn(4, "first") {
		now = drawDur(t, "start")
		if t.Bool("neg") {
			now = -now
		}
	}
	first := true
	var top time.Duration
	for n := t.Int(1, 12, "calls"); n > 0; n-- {
		var c call
		if t.OneIn(2, "delay") {
			c.pause = drawDur(t, "pause")
			late = late || c.pause > 0
		}
		for k := t.Int(0, 5, "batch"); k > 0; k-- {
			var p av.Packet
			if !first {
				switch t.Int(0, 7, "step") {
				case 0, 1:
					now -= drawDur(t, "dt")
				case 2: // near the latest one
					now = top + time.Duration(t.Int(-2, 2, "near"))
				default:
					now += drawDur(t, "dt")
				}
			}
			first = false
			p.Time = now
			if now < top {
				back = true
			}
			top = max(top, now)
			p.Type = t.Int(1, 6, "type")
			p.IsKeyFrame = t.Bool("key")
			p.CTime = time.Duration(t.Int(-5, 5, "ctime"))
			p.Data = t.RawBytes(4, "data")
			if t.OneIn(4, "hdrs") {
				p.ASeqHdr, p.VSeqHdr, p.Metadata = t.RawBytes(3, "a"), t.RawBytes(3, "v"), t.RawBytes(3, "m")
			}
			c.in = append(c.in, p)
		}
		if c.in == nil && t.Bool("empty") {
			c.in = []av.Packet{}
		}
		calls = append(calls, c)
	}
	return
}

// Under a virtual clock, every release is exactly determined.
func TestPace(tt *testing.T) {
	vt.Check(tt, 40000, 2000000, func(t *vt.T) {
		calls, back, late := drawCalls(t)
		res, bad := virtual(tt, calls)
		if bad == "" {
			bad = judge(calls, res)
		}
		if bad != "" {
			t.Fatalf("%s\ncalls: %s", bad, show(calls))
		}
		n := 0
		for _, c := range calls {
			n += len(c.in)
		}
		if n >= 2 {
			t.Nontrivial(show(calls))
			t.Sample("%s", show(calls))
		}
		t.LabelIf(back, "backward")
		t.LabelIf(late, "delays between calls")
	})
}

// The same stream in other batches, with packets that come on time, is paced
// the same: the moment the last packet of a timestamp is out does not depend on
// how the packets are grouped.
func TestGrouping(tt *testing.T) {
	vt.Check(tt, 4000, 200000, func(t *vt.T) {
		calls, _, _ := drawCalls(t)
		var all []av.Packet
		for i := range calls {
			calls[i].pause = 0
			all = append(all, calls[i].in...)
		}
		one, b1 := virtual(tt, []call{{in: all}})
		many, b2 := virtual(tt, calls)
		if b1+b2 != "" {
			t.Fatalf("%s%s", b1, b2)
		}
		if a, b := one[0].released, many[len(many)-1].released; a != b {
			t.Fatalf("in one batch released after %v, in several after %v: %s", a, b, show(calls))
		}
		if len(all) > 1 && len(calls) > 1 {
			t.Nontrivial(show(calls))
		}
	})
}

// With the real clock: never early. A release is called early only when it is
// so in each of several runs.
func TestRealClock(tt *testing.T) {
	vt.Check(tt, 40, 1000, func(t *vt.T) {
		var calls []call
		now := time.Duration(0)
		for n := t.Int(1, 5, "calls"); n > 0; n-- {
			now += time.Duration(t.Int(-3, 12, "dt")) * time.Millisecond
			c := call{in: []av.Packet{{Type: av.AAC, Time: now}}}
			if t.OneIn(3, "delay") {
				c.pause = time.Duration(t.Int(0, 10, "pause")) * time.Millisecond
			}
			calls = append(calls, c)
		}
		bad := ""
		for try := 0; try < 8; try++ {
			bad = ""
			l := pktop.NewNativeRateLimiter()
			topAt := time.Now() // not before it has been made
			var top time.Duration
			for i, c := range calls {
				time.Sleep(c.pause)
				l.Do(c.in)
				at := time.Now()
				if p := c.in[0].Time; p > top {
					// the limiter took its time before we took ours: a margin
					if d := at.Sub(topAt); d+time.Millisecond < p-top {
						bad = fmt.Sprintf("call %d: packet %v released %v after packet %v", i, p, d, top)
					}
					top, topAt = p, at
				}
			}
			if bad == "" {
				break
			}
		}
		if bad != "" {
			t.Fatalf("%s\ncalls: %s", bad, show(calls))
		}
		t.Nontrivial(show(calls))
	})
}
