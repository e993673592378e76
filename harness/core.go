//go:build go1.22

// Command zzverif is the runtime-monitoring harness of /verif. It is compiled into the module under
// test through a build overlay (see ../check.py): it drives the real packages and judges what they do.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// splitmix is a small, fast, well-distributed source; every case has its own.
type splitmix uint64

func (s *splitmix) Uint64() uint64 {
	*s += 0x9e3779b97f4a7c15
	z := uint64(*s)
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
func (s *splitmix) Int63() int64    { return int64(s.Uint64() >> 1) }
func (s *splitmix) Seed(seed int64) { *s = splitmix(seed) }

func hash64(parts ...string) uint64 {
	h := fnv.New64a()
	for _, p := range parts {
		h.Write([]byte(p))
		h.Write([]byte{0xff})
	}
	return h.Sum64()
}

// Check is the machinery for one property.
type Check struct {
	ID       string
	Quick    int // number of cases
	Thorough int
	Workers  int    // 0: one per CPU
	Rule     string // how cases are made and what makes one non-trivial
	Run      func(c *Case)
	Min      map[string]int // counters that must reach a minimum for the run to count
}

// Case is one generated situation.
type Case struct {
	*rand.Rand
	Idx   int
	Tier  string
	ck    *Check
	st    *stats
	label atomic.Value // string: what the case is doing
}

type violation struct {
	Property string         `json:"property"`
	Kind     string         `json:"kind"`
	Case     int            `json:"case"`
	Seed     uint64         `json:"seed"`
	Tier     string         `json:"tier"`
	Detail   map[string]any `json:"detail"`
}

type stats struct {
	mu         sync.Mutex
	evals      int64
	nontrivial map[uint64]struct{}
	counters   map[string]int64
	samples    []any
	violations []violation
	known      []violation
}

type abortCase struct{}

// Count adds to a named counter of things observed.
func (c *Case) Count(name string, n int) {
	c.st.mu.Lock()
	c.st.counters[name] += int64(n)
	c.st.mu.Unlock()
}

// Eval records one evaluation of the oracle; key identifies the evaluated situation.
func (c *Case) Eval(nontrivial bool, key ...string) {
	var h uint64
	if nontrivial {
		h = hash64(key...)
	}
	c.st.mu.Lock()
	c.st.evals++
	if nontrivial && len(c.st.nontrivial) < 8_000_000 {
		c.st.nontrivial[h] = struct{}{}
	}
	c.st.mu.Unlock()
}

// Sample keeps a few cases written out.
func (c *Case) Sample(v any) {
	c.st.mu.Lock()
	if len(c.st.samples) < 6 && c.Idx%7 == 3 {
		c.st.samples = append(c.st.samples, v)
	}
	c.st.mu.Unlock()
}

// Fail reports a violation and ends the case.
func (c *Case) Fail(kind string, detail map[string]any) {
	c.report(kind, detail)
	panic(abortCase{})
}

func (c *Case) report(kind string, detail map[string]any) {
	c.st.mu.Lock()
	defer c.st.mu.Unlock()
	c.st.violations = append(c.st.violations, violation{c.ck.ID, kind, c.Idx, gSeed, c.Tier, detail})
}

// Known reports a deviation that may be listed in known_findings.txt; check.py decides.
func (c *Case) Known(key string, detail map[string]any) {
	c.st.mu.Lock()
	defer c.st.mu.Unlock()
	c.st.known = append(c.st.known, violation{c.ck.ID, key, c.Idx, gSeed, c.Tier, detail})
}

// Do names the operation in progress, for the watchdog's report.
func (c *Case) Do(what string) { c.label.Store(what) }

var (
	gSeed    uint64
	gTier    string
	gDataDir string
	// gMinScale scales the minimum counts when only some of the cases run
	gMinScale = 1.0
	checks    = map[string]*Check{}
)

func register(ck *Check) { checks[ck.ID] = ck }

func cpuTime() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

type slot struct {
	mu    sync.Mutex
	c     *Case
	start time.Time
	cpu   time.Duration
}

func main() {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	seed := flag.Uint64("seed", 1, "seed")
	out := flag.String("out", "", "result file")
	only := flag.Int("only", -1, "run this case only")
	limit := flag.Int("cases", 0, "override the number of cases")
	data := flag.String("data", "", "data directory")
	from := flag.Int("from", 0, "first case")
	step := flag.Int("step", 1, "run every step-th case")
	share := flag.Float64("share", 1, "run this share of the cases")
	aux := flag.String("aux", "", "auxiliary mode of a check (subprocesses)")
	flag.Parse()
	gSeed, gTier, gDataDir = *seed, *tier, *data
	log.SetOutput(io.Discard)
	debug.SetGCPercent(400)
	if *aux != "" {
		auxMain(*aux, flag.Args())
		return
	}
	ck := checks[*prop]
	if ck == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(2)
	}
	n := ck.Quick
	if *tier == "thorough" {
		n = ck.Thorough
	}
	if *limit > 0 {
		n = *limit
	}
	if *share < 1 {
		n = int(float64(n)**share) + 1
		gMinScale = *share
	}
	st := &stats{nontrivial: map[uint64]struct{}{}, counters: map[string]int64{}}
	t0 := time.Now()
	workers := ck.Workers
	if *step > 1 {
		workers = 1
	}
	if workers == 0 {
		workers = runtime.NumCPU()
	}
	var idxs []int
	if *only >= 0 {
		idxs = []int{*only}
	} else {
		for i := *from; i < n; i += *step {
			idxs = append(idxs, i)
		}
	}
	var next int64 = -1
	var stop atomic.Bool
	slots := make([]*slot, workers)
	var wg sync.WaitGroup
	hung := make(chan *violation, 1)
	for w := range slots {
		slots[w] = &slot{}
		wg.Add(1)
		go func(s *slot) {
			defer wg.Done()
			for !stop.Load() {
				i := int(atomic.AddInt64(&next, 1))
				if i >= len(idxs) {
					return
				}
				runCase(ck, idxs[i], st, s)
				st.mu.Lock()
				if len(st.violations) >= 5 {
					stop.Store(true)
				}
				st.mu.Unlock()
			}
		}(slots[w])
	}
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	go watchdog(slots, ck, hung, done)
	inconclusive := ""
	select {
	case <-done:
	case v := <-hung:
		if v.Kind == "inconclusive" {
			inconclusive = fmt.Sprint(v.Detail["why"])
		} else {
			st.mu.Lock()
			st.violations = append(st.violations, *v)
			st.mu.Unlock()
		}
	}
	st.mu.Lock()
	defer st.mu.Unlock()
	sort.Slice(st.violations, func(i, j int) bool { return st.violations[i].Case < st.violations[j].Case })
	if *only < 0 && *limit == 0 && len(st.violations) == 0 && inconclusive == "" {
		for k, min := range ck.Min {
			if float64(st.counters[k]) < float64(min)*gMinScale*0.8/float64(*step) {
				inconclusive = fmt.Sprintf("observed only %d of %q, need about %d", st.counters[k], k, min)
			}
		}
	}
	hashes := []uint64{}
	if *step > 1 { // the parent merges the shards
		for h := range st.nontrivial {
			hashes = append(hashes, h)
		}
	}
	res := map[string]any{
		"property": ck.ID, "rule": ck.Rule, "evaluations": st.evals, "distinct_nontrivial": len(st.nontrivial),
		"hashes":   hashes,
		"counters": st.counters, "samples": st.samples, "violations": st.violations, "known": st.known, "cases": len(idxs),
		"wall_s": time.Since(t0).Seconds(), "cpu_s": cpuTime().Seconds(), "inconclusive": inconclusive,
	}
	b, err := json.MarshalIndent(res, "", " ")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	if *out == "" {
		delete(res, "hashes")
		os.Stdout.Write(b)
		fmt.Println()
	} else if err := os.WriteFile(*out, b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	switch {
	case len(st.violations) > 0:
		os.Exit(1)
	case inconclusive != "":
		os.Exit(3)
	}
}

func newRand(idx int, prop string) *rand.Rand {
	s := splitmix(hash64(fmt.Sprint(gSeed, " ", idx), prop))
	return rand.New(&s)
}

func runCase(ck *Check, idx int, st *stats, s *slot) {
	c := &Case{Rand: newRand(idx, ck.ID), Idx: idx, Tier: gTier, ck: ck, st: st}
	s.mu.Lock()
	s.c, s.start, s.cpu = c, time.Now(), cpuTime()
	s.mu.Unlock()
	defer func() {
		s.mu.Lock()
		s.c = nil
		s.mu.Unlock()
		if e := recover(); e != nil {
			if _, ok := e.(abortCase); ok {
				return
			}
			what, _ := c.label.Load().(string)
			c.report("panic", map[string]any{"panic": fmt.Sprint(e), "doing": clip(what, 4000), "stack": clip(string(debug.Stack()), 4000)})
		}
	}()
	ck.Run(c)
}

// memoryLimit is far above what any check needs for its inputs of at most some tens of kilobytes.
const memoryLimit = 8 << 30

const hangAfter = 90 * time.Second // of wall-clock time; cases take milliseconds

// watchdog looks for cases that do not end. Wall-clock time alone decides nothing: a case is reported only if
// the process burnt CPU time all along (a loop) or if all workers are blocked for good on a lock of the code under test.
func watchdog(slots []*slot, ck *Check, hung chan *violation, done chan struct{}) {
	for {
		select {
		case <-done:
			return
		case <-time.After(500 * time.Millisecond):
		}
		var ms runtime.MemStats
		if runtime.ReadMemStats(&ms); ms.HeapInuse > memoryLimit {
			var doing []string
			idx := -1
			for _, s := range slots {
				s.mu.Lock()
				if s.c != nil {
					what, _ := s.c.label.Load().(string)
					doing = append(doing, fmt.Sprintf("case %d for %v: %s", s.c.Idx, time.Since(s.start), clip(what, 3000)))
					idx = s.c.Idx
				}
				s.mu.Unlock()
			}
			hung <- &violation{ck.ID, "unbounded memory", idx, gSeed, gTier, map[string]any{"heap": ms.HeapInuse, "doing": doing, "stacks": clip(allStacks(), 6000)}}
			return
		}
		for _, s := range slots {
			s.mu.Lock()
			c, wall, cpu := s.c, time.Since(s.start), cpuTime()-s.cpu
			s.mu.Unlock()
			if c == nil || wall < hangAfter {
				if c == nil || wall < 20*time.Second || !deadlocked() {
					continue
				}
				// blocked on a lock, with nobody to release it
				ok := true
				for i := 0; i < 5 && ok; i++ {
					time.Sleep(500 * time.Millisecond)
					s.mu.Lock()
					ok = s.c == c
					s.mu.Unlock()
					ok = ok && deadlocked()
				}
				if !ok {
					continue
				}
				what, _ := c.label.Load().(string)
				hung <- &violation{ck.ID, "deadlock", c.Idx, gSeed, gTier, map[string]any{"doing": clip(what, 4000), "stacks": clip(allStacks(), 6000)}}
				return
			}
			what, _ := c.label.Load().(string)
			if cpu > hangAfter*8/10 {
				hung <- &violation{ck.ID, "does not terminate", c.Idx, gSeed, gTier, map[string]any{"doing": clip(what, 4000), "cpu": cpu.String(), "stacks": clip(allStacks(), 6000)}}
			} else if wall > 5*time.Minute {
				hung <- &violation{ck.ID, "inconclusive", c.Idx, gSeed, gTier, map[string]any{"why": "case " + fmt.Sprint(c.Idx) + " did not finish: " + what}}
			} else {
				continue
			}
			return
		}
	}
}

func allStacks() string {
	buf := make([]byte, 1<<20)
	return string(buf[:runtime.Stack(buf, true)])
}

// deadlocked reports whether some goroutine is blocked on a lock inside the code under test while
// no goroutine at all is able to run inside that code.
func deadlocked() bool {
	blocked := false
	for _, g := range strings.Split(allStacks(), "\n\n") {
		if !strings.Contains(g, "github.com/tylantz/go-tailwind-merge.") && !strings.Contains(g, "github.com/tylantz/go-tailwind-merge/internal/cascadia.") {
			if strings.Contains(g, "main.(*Case)") && !strings.Contains(strings.SplitN(g, "\n", 2)[0], "sync.") && !strings.Contains(strings.SplitN(g, "\n", 2)[0], "semacquire") {
				return false // a worker busy in the harness
			}
			continue
		}
		head := strings.SplitN(g, "\n", 2)[0]
		if strings.Contains(head, "sync.") || strings.Contains(head, "semacquire") || strings.Contains(head, "chan ") || strings.Contains(head, "select (no cases)") {
			blocked = true
		} else {
			return false
		}
	}
	return blocked
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + fmt.Sprintf("... (%d bytes)", len(s))
	}
	return s
}

// pick returns one of the values.
func pick[T any](r *rand.Rand, v ...T) T { return v[r.Intn(len(v))] }

func chance(r *rand.Rand, p float64) bool { return r.Float64() < p }

func sorted(m map[string]bool) []string {
	out := make([]string, 0, len(m))
	for k, v := range m {
		if v {
			out = append(out, k)
		}
	}
	sort.Strings(out)
	return out
}
