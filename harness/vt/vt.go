// Package vt is the shared driver of the property checks: it runs rapid
// properties, counts what was generated, and writes the counts for the runner.
package vt

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strconv"
	"sync"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

type counters struct {
	Evaluations int            `json:"evaluations"`
	Keys        []uint64       `json:"keys"`
	Labels      map[string]int `json:"labels"`
	Samples     []string       `json:"samples"`
	Tests       map[string]int `json:"tests"`
	Known       map[string]int `json:"known"`
	Notes       []string       `json:"notes"`
}

var (
	mu    sync.Mutex
	cnt   = counters{Labels: map[string]int{}, Tests: map[string]int{}, Known: map[string]int{}}
	keys  = map[uint64]struct{}{}
	perT  = map[string]int{}
	curFd *os.File
)

// Thorough reports whether the thorough tier runs.
func Thorough() bool { return os.Getenv("VT_TIER") == "thorough" }

// Scale multiplies all case counts (for quick local experiments).
func scale() float64 {
	if s := os.Getenv("VT_SCALE"); s != "" {
		f, err := strconv.ParseFloat(s, 64)
		if err == nil {
			return f
		}
	}
	return 1
}

// Main is called from TestMain of every check package.
func Main(m *testing.M) {
	debug.SetMaxStack(256 << 20)
	if p := os.Getenv("VT_CASEFILE"); p != "" {
		curFd, _ = os.OpenFile(p, os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0644)
	}
	code := m.Run()
	Flush()
	os.Exit(code)
}

// Flush writes the counters collected so far.
func Flush() {
	p := os.Getenv("VT_OUT")
	if p == "" {
		return
	}
	mu.Lock()
	defer mu.Unlock()
	cnt.Keys = cnt.Keys[:0]
	for k := range keys {
		cnt.Keys = append(cnt.Keys, k)
	}
	sort.Slice(cnt.Keys, func(i, j int) bool { return cnt.Keys[i] < cnt.Keys[j] })
	b, _ := json.Marshal(&cnt)
	os.WriteFile(p, b, 0644)
}

// Infra ends the process because the harness itself (not the code under test)
// could not do its work: never a violation.
func Infra(format string, a ...interface{}) {
	fmt.Printf("INFRA: "+format+"\n", a...)
	os.Exit(3)
}

// T is one generated case.
type T struct {
	*rapid.T
	name string
}

// Check runs the property over quick (or thorough) many generated cases.
func Check(t *testing.T, quick, thorough int, f func(t *T)) {
	t.Helper()
	n := quick
	if Thorough() {
		n = thorough
	}
	sh := 1
	if s, _ := strconv.Atoi(os.Getenv("VT_SHARDS")); s > 1 {
		sh = s
	}
	n = int(float64(n) * scale() / float64(sh))
	if n < 1 {
		n = 1
	}
	flag.Set("rapid.checks", strconv.Itoa(n))
	name := t.Name()
	rapid.Check(t, func(rt *rapid.T) {
		mu.Lock()
		cnt.Evaluations++
		cnt.Tests[name]++
		mu.Unlock()
		f(&T{T: rt, name: name})
	})
}

// Nontrivial marks the case as non-trivial; parts identify it.
func (t *T) Nontrivial(parts ...interface{}) {
	h := fnv.New64a()
	h.Write([]byte(t.name))
	for _, p := range parts {
		switch v := p.(type) {
		case []byte:
			fmt.Fprintf(h, "|%d:", len(v))
			h.Write(v)
		case string:
			fmt.Fprintf(h, "|%d:", len(v))
			h.Write([]byte(v))
		default:
			fmt.Fprintf(h, "|%v", v)
		}
	}
	k := h.Sum64()
	mu.Lock()
	keys[k] = struct{}{}
	mu.Unlock()
}

// Label counts a class of cases.
func (t *T) Label(s string) {
	mu.Lock()
	cnt.Labels[s]++
	mu.Unlock()
}

func (t *T) LabelIf(c bool, s string) {
	if c {
		t.Label(s)
	}
}

// Known counts an occurrence of a listed known finding that was excluded.
func (t *T) Known(s string) {
	mu.Lock()
	cnt.Known[s]++
	mu.Unlock()
}

// Sample records the case in the evidence (the first few per test).
func (t *T) Sample(format string, a ...interface{}) {
	mu.Lock()
	defer mu.Unlock()
	if perT[t.name] >= 2 {
		return
	}
	perT[t.name]++
	s := fmt.Sprintf(format, a...)
	if len(s) > 600 {
		s = s[:600] + "..."
	}
	cnt.Samples = append(cnt.Samples, t.name+": "+s)
}

// Save stores the input of the current case, so that it survives the death of
// the process.
func (t *T) Save(b []byte) { save(t.name, b) }

func save(name string, b []byte) {
	if curFd == nil {
		return
	}
	if len(b) > 1<<20 {
		b = b[:1<<20]
	}
	hdr := fmt.Sprintf("%s %d\n", name, len(b))
	curFd.Truncate(0)
	curFd.WriteAt(append([]byte(hdr), b...), 0)
}

// ---- draw helpers ----

func (t *T) Int(lo, hi int, l string) int { return rapid.IntRange(lo, hi).Draw(t.T, l) }
func (t *T) I64(lo, hi int64, l string) int64 {
	return rapid.Int64Range(lo, hi).Draw(t.T, l)
}
func (t *T) U64(l string) uint64 { return rapid.Uint64().Draw(t.T, l) }
func (t *T) U32(l string) uint32 { return rapid.Uint32().Draw(t.T, l) }
func (t *T) Byte(l string) byte  { return rapid.Byte().Draw(t.T, l) }
func (t *T) Bool(l string) bool  { return rapid.Bool().Draw(t.T, l) }

// OneIn is true about once in n.
func (t *T) OneIn(n int, l string) bool {
	return rapid.SampledFrom(oneIn(n)).Draw(t.T, l)
}

var oneInCache sync.Map

func oneIn(n int) []bool {
	if v, ok := oneInCache.Load(n); ok {
		return v.([]bool)
	}
	s := make([]bool, n)
	s[n-1] = true
	oneInCache.Store(n, s)
	return s
}

// Pick draws one of the given values.
func Pick[V any](t *T, l string, vs ...V) V { return rapid.SampledFrom(vs).Draw(t.T, l) }

// Fill expands a drawn seed into n bytes (a pure function of the seed).
func Fill(n int, seed uint64) []byte {
	b := make([]byte, n)
	x := seed*0x9E3779B97F4A7C15 + 0x1234567
	for i := 0; i < n; i++ {
		if i&7 == 0 {
			x ^= x << 13
			x ^= x >> 7
			x ^= x << 17
		}
		b[i] = byte(x >> (8 * uint(i&7)))
	}
	return b
}

// Payload draws n bytes; short ones byte by byte, longer ones from a seed.
func (t *T) Payload(n int, l string) []byte {
	if n == 0 {
		return []byte{}
	}
	if n <= 24 {
		b := make([]byte, n)
		for i := range b {
			b[i] = t.Byte(l)
		}
		return b
	}
	return Fill(n, t.U64(l+"seed"))
}

// RawBytes draws arbitrary bytes of up to max.
func (t *T) RawBytes(max int, l string) []byte {
	return t.Payload(t.Int(0, max, l+"len"), l)
}

// ---- resource guards ----

var allocSample = []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}
var allocMu sync.Mutex

// Allocated is the number of heap bytes allocated so far by the process.
func Allocated() uint64 {
	allocMu.Lock()
	defer allocMu.Unlock()
	metrics.Read(allocSample)
	return allocSample[0].Value.Uint64()
}

// CPU is the processor time used so far by the process.
func CPU() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

// Guard runs fn in its own goroutine under limits: it must return, not panic,
// not burn more than the CPU budget, not block for ever, and not allocate more
// than maxAlloc bytes in all. It returns "" or what went wrong.
//
// A case is reported as a hang when it used its whole CPU budget without
// returning, or when nothing at all happened for the idle budget.
func Guard(maxAlloc uint64, cpu, idle time.Duration, fn func()) (bad string) {
	type res struct {
		p  interface{}
		st string
	}
	ch := make(chan res, 1)
	a0 := Allocated()
	c0 := CPU()
	t0 := time.Now()
	go func() {
		ok := false
		defer func() {
			if !ok {
				p := recover()
				ch <- res{p, string(debug.Stack())}
			}
		}()
		fn()
		ok = true
		ch <- res{}
	}()
	tick := time.NewTimer(200 * time.Millisecond)
	defer tick.Stop()
	for {
		select {
		case r := <-ch:
			if r.p != nil {
				return fmt.Sprintf("panic: %v\n%s", r.p, r.st)
			}
			if maxAlloc > 0 {
				if d := Allocated() - a0; d > maxAlloc {
					return fmt.Sprintf("allocated %d bytes, more than %d", d, maxAlloc)
				}
			}
			return ""
		case <-tick.C:
			if maxAlloc > 0 {
				if d := Allocated() - a0; d > maxAlloc {
					return dieHung(fmt.Sprintf("allocated %d bytes, more than %d, and still running", d, maxAlloc))
				}
			}
			used := CPU() - c0
			el := time.Since(t0)
			if used > cpu && el > cpu/4 {
				return dieHung(fmt.Sprintf("still running after %v of processor time", used.Round(time.Second)))
			}
			if el > idle {
				return dieHung(fmt.Sprintf("still running after %v", el.Round(time.Second)))
			}
			tick.Reset(200 * time.Millisecond)
		}
	}
}

// Stuck is set once a guarded call never returned: the process then carries a
// runaway goroutine.
var Stuck bool

// A runaway goroutine cannot be stopped, and shrinking would start more of
// them; end the process with a failure the runner recognises.
func dieHung(what string) string {
	buf := make([]byte, 1<<16)
	buf = buf[:runtime.Stack(buf, true)]
	fmt.Printf("HUNG: %s\n%s\n", what, buf)
	Flush()
	os.Exit(4)
	return what
}
