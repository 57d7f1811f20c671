// Package props holds the executable properties of ml-essentials. Every
// property is a rapid check over generated inputs, judged by an oracle that
// lives in this package and shares no code with the library.
package props

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"runtime/metrics"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- settings

func envFloat(name string, def float64) float64 {
	if s := os.Getenv(name); s != "" {
		if v, err := strconv.ParseFloat(s, 64); err == nil {
			return v
		}
	}
	return def
}

var (
	statsDir = os.Getenv("VERIF_STATS") // where the counts of this run go
	scale    = envFloat("VERIF_SCALE", 1)
	// The process stops generating when its time is over, each of its tests
	// having an equal share: a slow machine explores less, but gives an answer.
	budget    = time.Duration(envFloat("VERIF_BUDGET", 0) * float64(time.Second))
	testsLeft = int(envFloat("VERIF_TESTS", 1))
	started   = time.Now()
	// sizeCap bounds the generated inputs: the runner lowers it to minimise a
	// crash or a hang, which rapid cannot shrink since the process dies.
	sizeCap = int(envFloat("VERIF_SIZE", 9))
)

func thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// ---------------------------------------------------------------- one case

// Case is one generated input (or history) and what is known about it.
type Case struct {
	*rapid.T
	desc       strings.Builder
	nontrivial bool
	labels     map[string]bool
}

// D adds to the description of the case: it must determine the case.
func (c *Case) D(format string, args ...interface{}) {
	fmt.Fprintf(&c.desc, format, args...)
	c.desc.WriteByte('\n')
}

// NT marks the case as non-trivial by the property's rule.
func (c *Case) NT(cond bool) {
	if cond {
		c.nontrivial = true
	}
}

// L counts the case under a label.
func (c *Case) L(format string, args ...interface{}) {
	if c.labels == nil {
		c.labels = map[string]bool{}
	}
	c.labels[fmt.Sprintf(format, args...)] = true
}

// Bad reports that the property does not hold on this case.
func (c *Case) Bad(format string, args ...interface{}) {
	c.T.Helper()
	c.T.Fatalf("PROPERTY BROKEN: %s", fmt.Sprintf(format, args...))
}

type propStats struct {
	Test        string         `json:"test"`
	Rule        string         `json:"rule"`
	Evaluations int            `json:"evaluations"`
	Nontrivial  int            `json:"nontrivial"`
	Labels      map[string]int `json:"labels"`
	Samples     []string       `json:"samples"`
	Failed      bool           `json:"failed"`
	Failure     string         `json:"failure,omitempty"`
	FailedCase  string         `json:"failed_case,omitempty"`
	hashes      map[uint64]bool
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + " …(cut)"
	}
	return s
}

// Prop checks one aspect of a property on `base` generated cases (times the
// tier's scale). rule says what makes a case non-trivial.
func Prop(t *testing.T, rule string, base int, f func(c *Case)) {
	st := &propStats{Test: t.Name(), Rule: rule, Labels: map[string]int{}, hashes: map[uint64]bool{}}
	n := int(float64(base)*scale + 0.5)
	if n < 1 {
		n = 1
	}
	if err := flag.Set("rapid.checks", strconv.Itoa(n)); err != nil {
		t.Fatal(err)
	}
	t.Cleanup(func() { st.write(t) })
	lastIncomplete := ""
	var end time.Time
	if budget > 0 {
		left := time.Until(started.Add(budget))
		if testsLeft > 1 {
			left /= time.Duration(testsLeft)
			testsLeft--
		}
		end = time.Now().Add(left)
	}
	rapid.Check(t, func(rt *rapid.T) {
		if budget > 0 && !st.Failed && st.Evaluations > 0 && time.Now().After(end) {
			st.Labels["not generated: time is over"]++
			return
		}
		c := &Case{T: rt}
		done := false
		defer func() {
			watch.end()
			if !done {
				st.Failed = true
				lastIncomplete = c.desc.String()
				st.FailedCase = clip(lastIncomplete, 20000)
				return
			}
			if st.Failed {
				return // rapid is shrinking: not part of the exploration
			}
			st.Evaluations++
			for l := range c.labels {
				st.Labels[l]++
			}
			if c.nontrivial {
				st.Nontrivial++
				h := fnv.New64a()
				io.WriteString(h, t.Name())
				io.WriteString(h, c.desc.String())
				sum := h.Sum64()
				if !st.hashes[sum] {
					st.hashes[sum] = true
					// keep a few samples, spread over the run
					k := len(st.hashes)
					if k == 1 || k == 10 || k == 100 || k == 1000 {
						st.Samples = append(st.Samples, clip(c.desc.String(), 1500))
					}
				}
			}
		}()
		watch.begin(t.Name(), c)
		// the library draws from the global source (shuffles, hashing of ids)
		rand.Seed(int64(rapid.Uint32().Draw(rt, "globalRand")))
		f(c)
		done = true
	})
}

func (st *propStats) write(t *testing.T) {
	if st.Failed && !t.Failed() {
		// only discarded (invalid) draws ended early
		st.Failed = false
		st.FailedCase = ""
	}
	if statsDir == "" {
		if testing.Verbose() {
			fmt.Printf("%s: %d evaluations, %d non-trivial, %d distinct, %v\n", st.Test, st.Evaluations, st.Nontrivial, len(st.hashes), st.Labels)
		}
		return
	}
	name := strings.ReplaceAll(t.Name(), "/", "_")
	b, err := json.MarshalIndent(st, "", " ")
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(filepath.Join(statsDir, name+".json"), b, 0o644); err != nil {
		panic(err)
	}
	hs := make([]byte, 0, 8*len(st.hashes))
	for h := range st.hashes {
		hs = binary.LittleEndian.AppendUint64(hs, h)
	}
	if err := os.WriteFile(filepath.Join(statsDir, name+".hashes"), hs, 0o644); err != nil {
		panic(err)
	}
}

// ---------------------------------------------------------------- watchdog

// The library runs work in goroutines of its own. A panic there ends the
// process (the runner sees it); a worker that never reports leaves the caller
// blocked for ever. The watchdog decides the latter from the goroutine states
// and never from elapsed time alone.
type watchdog struct {
	mu    sync.Mutex
	test  string
	c     *Case
	since time.Time
	cpu   time.Duration
	seq   int64
}

var watch watchdog

func cpuTime() time.Duration {
	var ru syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &ru) != nil {
		return 0
	}
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

func (w *watchdog) begin(test string, c *Case) {
	w.mu.Lock()
	w.test, w.c, w.since = test, c, time.Now()
	w.cpu = -1
	w.mu.Unlock()
	atomic.AddInt64(&w.seq, 1)
}

func (w *watchdog) end() {
	w.mu.Lock()
	w.c = nil
	w.mu.Unlock()
	atomic.AddInt64(&w.seq, 1)
}

// Risky saves the description of the case before the library is called in a
// way that might end the process.
func (c *Case) Risky() {
	if statsDir == "" {
		return
	}
	os.WriteFile(filepath.Join(statsDir, "current_case.txt"), []byte(watch.test+"\n"+c.desc.String()), 0o644)
}

type gState struct {
	state string
	lib   bool
	text  string
}

func goroutines() []gState {
	buf := make([]byte, 1<<20)
	for {
		n := runtime.Stack(buf, true)
		if n < len(buf) {
			buf = buf[:n]
			break
		}
		buf = make([]byte, 2*len(buf))
	}
	var out []gState
	for _, g := range strings.Split(string(buf), "\n\n") {
		i, j := strings.IndexByte(g, '['), strings.IndexByte(g, ']')
		if !strings.HasPrefix(g, "goroutine ") || i < 0 || j < i {
			continue
		}
		st := g[i+1 : j]
		if k := strings.IndexByte(st, ','); k >= 0 {
			st = st[:k]
		}
		body := g
		if k := strings.Index(g, "created by "); k >= 0 {
			body = g[:k]
		}
		lib := strings.Contains(body, "rom1mouret/ml-essentials/")
		out = append(out, gState{state: st, lib: lib, text: g})
	}
	return out
}

func blockedState(s string) bool {
	for _, p := range []string{"chan receive", "chan send", "semacquire", "sync.", "select"} {
		if strings.HasPrefix(s, p) {
			return true
		}
	}
	return false
}

// stuck tells whether library code is on some stack and all of it is blocked on
// channels or locks: nothing in this process can wake it up again.
func stuck() (bool, string) {
	var sb strings.Builder
	libs := 0
	for _, g := range goroutines() {
		if !g.lib {
			continue
		}
		libs++
		if !blockedState(g.state) {
			return false, ""
		}
		sb.WriteString(g.text + "\n\n")
	}
	return libs > 0, sb.String()
}

func libRunning() bool {
	for _, g := range goroutines() {
		if g.lib && !blockedState(g.state) {
			return true
		}
	}
	return false
}

func (w *watchdog) abort(kind string, c *Case, detail string) {
	if statsDir != "" {
		os.WriteFile(filepath.Join(statsDir, "abort.txt"),
			[]byte(kind+"\n"+w.test+"\n"+c.desc.String()+"\n"+detail), 0o644)
	}
	fmt.Fprintf(os.Stderr, "VERIF-ABORT %s in %s\ncase:\n%s\n%s\n", kind, w.test, c.desc.String(), detail)
	os.Exit(97)
}

const cpuLimit = 60 * time.Second

func (w *watchdog) run() {
	sample := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	for {
		time.Sleep(100 * time.Millisecond)
		w.mu.Lock()
		c, since := w.c, w.since
		if c != nil && w.cpu < 0 {
			w.cpu = cpuTime()
		}
		cpu0 := w.cpu
		w.mu.Unlock()
		if c == nil {
			continue
		}
		metrics.Read(sample)
		if sample[0].Value.Uint64() > 6<<30 && libRunning() {
			// it may be garbage, of the previous cases too
			seq := atomic.LoadInt64(&w.seq)
			runtime.GC()
			metrics.Read(sample)
			if sample[0].Value.Uint64() > 6<<30 && atomic.LoadInt64(&w.seq) == seq && libRunning() {
				w.abort("RUNAWAY-MEMORY", c, "")
			}
		}
		if time.Since(since) < 4*time.Second {
			continue
		}
		seq := atomic.LoadInt64(&w.seq)
		if ok, _ := stuck(); ok {
			time.Sleep(500 * time.Millisecond)
			ok1, _ := stuck()
			time.Sleep(500 * time.Millisecond)
			ok2, text := stuck()
			if ok1 && ok2 && atomic.LoadInt64(&w.seq) == seq {
				w.abort("DEADLOCK", c, text)
			}
		}
		if cpuTime()-cpu0 > cpuLimit && libRunning() && atomic.LoadInt64(&w.seq) == seq {
			w.abort("NO-TERMINATION (60 s of CPU time on one case)", c, "")
		}
	}
}

func TestMain(m *testing.M) {
	log.SetOutput(io.Discard)
	flag.Parse()
	go watch.run()
	os.Exit(m.Run())
}

// ---------------------------------------------------------------- helpers

// panics runs f and returns what it panicked with, if anything.
func panics(f func()) (r interface{}) {
	defer func() { r = recover() }()
	f()
	return nil
}

func sortedKeys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func sortedCopy(s []string) []string {
	out := append([]string(nil), s...)
	sort.Strings(out)
	return out
}

func pick[V any](c *Case, name string, vs ...V) V {
	return rapid.SampledFrom(vs).Draw(c.T, name)
}

func (c *Case) Int(name string, lo, hi int) int { return rapid.IntRange(lo, hi).Draw(c.T, name) }
func (c *Case) Bool(name string) bool           { return rapid.Bool().Draw(c.T, name) }

// Chance is true about one time in n; it shrinks to false.
func (c *Case) Chance(name string, n int) bool { return rapid.IntRange(0, n-1).Draw(c.T, name) == n-1 }
