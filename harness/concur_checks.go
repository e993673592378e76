//go:build go1.22

package main

import (
	"errors"
	"fmt"
	"io"
	"math/rand"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	merge "github.com/tylantz/go-tailwind-merge"
	porcupine "github.com/tylantz/go-tailwind-merge/internal/zzporcupine"
)

// Histories are recorded at the client boundary. Each goroutine writes to a slice of its own and takes its
// times from the monotonic clock, so that recording adds no synchronisation that could hide a data race.

var clock0 = time.Now()

func now() int64 { return int64(time.Since(clock0)) }

// event is one completed operation of a history.
type event struct {
	Proc      int
	Op        string
	Arg       string
	Out       string
	OK        bool
	Call, Ret int64
}

func (e event) String() string {
	return fmt.Sprintf("%9d-%9d p%d %s(%s) = %s %v", e.Call, e.Ret, e.Proc, e.Op, clip(e.Arg, 60), clip(e.Out, 200), e.OK)
}

func describe(h []event) []string {
	h = append([]event(nil), h...)
	sort.Slice(h, func(i, j int) bool { return h[i].Call < h[j].Call })
	var out []string
	for i, e := range h {
		if i == 300 {
			return append(out, "...")
		}
		out = append(out, e.String())
	}
	return out
}

// interleaving identifies the order of the calls and returns of a history.
func interleaving(h []event) string {
	type pt struct {
		t    int64
		what string
	}
	var pts []pt
	for _, e := range h {
		pts = append(pts, pt{e.Call, fmt.Sprint("c", e.Proc, e.Op)}, pt{e.Ret, fmt.Sprint("r", e.Proc)})
	}
	sort.SliceStable(pts, func(i, j int) bool { return pts[i].t < pts[j].t })
	var b strings.Builder
	for _, p := range pts {
		b.WriteString(p.what)
	}
	return b.String()
}

func overlaps(h []event) int {
	n := 0
	for i := range h {
		for j := i + 1; j < len(h); j++ {
			if h[i].Proc != h[j].Proc && h[i].Call <= h[j].Ret && h[j].Call <= h[i].Ret {
				n++
			}
		}
	}
	return n
}

// gather runs one function per process at the same time and returns what they recorded. A panic of one of
// them is returned as the error.
func gather(n int, r *rand.Rand, run func(p int, r *rand.Rand, rec func(op, arg string, f func() (string, bool)))) ([]event, error) {
	recs := make([][]event, n)
	panics := make([]any, n)
	seeds := make([]splitmix, n)
	for i := range seeds {
		seeds[i] = splitmix(r.Uint64())
	}
	var ready, done sync.WaitGroup
	start := make(chan struct{})
	for p := 0; p < n; p++ {
		ready.Add(1)
		done.Add(1)
		go func(p int) {
			defer done.Done()
			defer func() {
				if e := recover(); e != nil {
					panics[p] = fmt.Sprintf("%v\n%s", e, stack())
				}
			}()
			rr := rand.New(&seeds[p])
			ready.Done()
			<-start
			run(p, rr, func(op, arg string, f func() (string, bool)) {
				e := event{Proc: p, Op: op, Arg: arg, Call: now()}
				e.Out, e.OK = f()
				e.Ret = now()
				recs[p] = append(recs[p], e)
			})
		}(p)
	}
	ready.Wait()
	close(start)
	done.Wait()
	var all []event
	for p := range recs {
		if panics[p] != nil {
			return nil, fmt.Errorf("%v", panics[p])
		}
		all = append(all, recs[p]...)
	}
	return all, nil
}

func stack() string {
	buf := make([]byte, 8192)
	return string(buf[:runtime.Stack(buf, false)])
}

// dawdle yields for a random while.
func dawdle(r *rand.Rand) {
	switch r.Intn(8) {
	case 0, 1:
		runtime.Gosched()
	case 2:
		for i := r.Intn(300); i > 0; i-- {
			r.Uint64()
		}
	case 3:
		if r.Intn(4) == 0 {
			time.Sleep(time.Duration(r.Intn(60)) * time.Microsecond)
		}
	}
}

func operations(h []event) []porcupine.Operation {
	ops := make([]porcupine.Operation, len(h))
	for i, e := range h {
		ops[i] = porcupine.Operation{ClientId: e.Proc, Input: e, Output: e, Call: e.Call, Return: e.Ret}
	}
	return ops
}

// ---- C13: the bundled cache ----

const trackedKeys = 4

type cacheState [trackedKeys]string

const absent = "\x00absent"

var noEntries = func() (s cacheState) {
	for i := range s {
		s[i] = absent
	}
	return
}()

func cacheModel(keys []string, init cacheState) porcupine.Model {
	idx := map[string]int{}
	for i, k := range keys {
		idx[k] = i
	}
	return porcupine.Model{
		Init: func() any { return init },
		Step: func(state, in, out any) (bool, any) {
			s, e := state.(cacheState), in.(event)
			switch e.Op {
			case "Set":
				s[idx[e.Arg]] = e.Out
				return true, s
			case "Clear":
				return true, noEntries
			}
			v := s[idx[e.Arg]]
			if v == absent {
				return !e.OK && e.Out == "", s
			}
			return e.OK && e.Out == v, s
		},
		Equal: func(a, b any) bool { return a == b },
	}
}

func init() {
	register(&Check{ID: "C13", Quick: 260, Thorough: 6000, Workers: 3,
		Rule: "race-detector build. Small histories: 2-6 goroutines do Get, Set (unique values) and Clear on up to four keys of one bundled cache (with up to 3000 further entries, keys up to 100 KB and near-identical keys); each is checked for linearizability against a plain map with porcupine. Long histories: thousands of operations over many keys, with necessary conditions checked in linear time (a value read was set to that key before, and neither overwritten nor cleared for certain; a miss needs a clear). Non-trivial: a history in which operations of different goroutines overlapped.",
		Min:  map[string]int{"linearizability histories decided": 5000, "overlapping pairs": 20000, "reads in long histories": 20000},
		Run:  runC13})
}

func oddKeys(r *rand.Rand) []string {
	switch r.Intn(5) {
	case 0:
		return []string{"a", "a ", " a", "A"}
	case 1:
		long := strings.Repeat("px-4 text-sm ", 1+r.Intn(8000))
		return []string{long + "a", long + "b", "a" + long, long}
	case 2:
		return []string{"", "\x00", "a\x00", "\xff"}
	case 3:
		pre := strings.Repeat("x", pick(r, 15, 16, 31, 63, 64, 127, 128, 255, 256, 1023, 1024))
		return []string{pre + "1", pre + "2", pre + "1 ", pre}
	}
	return []string{"p-1 p-2", "p-2 p-1", "p-1 p-3", "p-1"}
}

func runC13(c *Case) {
	if c.Idx%8 == 5 {
		c13long(c)
		return
	}
	if c.Idx%40 == 6 {
		c13huge(c)
		return
	}
	for h := 0; h < 30; h++ {
		keys := oddKeys(c.Rand)[:1+c.Intn(trackedKeys)]
		cache := merge.NewCache()
		pad := pick(c.Rand, 0, 0, 0, 10, 200, 1000)
		if h == 3 {
			pad = 3000
		}
		for i := 0; i < pad; i++ {
			cache.Set(fmt.Sprint("pad ", i), "x")
		}
		init := noEntries
		if c.Intn(2) == 0 {
			for i, k := range keys {
				if c.Intn(3) > 0 {
					init[i] = pick(c.Rand, fmt.Sprint("init", i), fmt.Sprint("init", i), "")
					cache.Set(k, init[i])
				}
			}
		}
		procs := 2 + c.Intn(5)
		nops := 2 + c.Intn(6)
		clears := pick(c.Rand, 0.05, 0.15, 0.4)
		reads := pick(c.Rand, 0.3, 0.5, 0.8)
		c.Do(fmt.Sprintf("cache history with %d goroutines", procs))
		hist, err := gather(procs, c.Rand, func(p int, r *rand.Rand, rec func(string, string, func() (string, bool))) {
			for i := 0; i < nops; i++ {
				k := keys[r.Intn(len(keys))]
				switch x := r.Float64(); {
				case x < clears:
					rec("Clear", "", func() (string, bool) { cache.Clear(); return "", true })
				case x < clears+(1-clears)*reads:
					rec("Get", k, func() (string, bool) { return cache.Get(k) })
				default:
					v := fmt.Sprintf("%d.%d", p, i)
					switch r.Intn(16) {
					case 0:
						v = ""
					case 1:
						v = k
					case 2:
						v = strings.Repeat("p-1 ", 1+r.Intn(500)) + v
					}
					rec("Set", k, func() (string, bool) { cache.Set(k, v); return v, true })
				}
				if r.Intn(3) == 0 {
					dawdle(r)
				}
			}
		})
		if err != nil {
			c.Fail("panic in a cache operation", map[string]any{"panic": clip(err.Error(), 4000)})
		}
		for _, k := range keys { // quiescent reads
			e := event{Proc: procs, Op: "Get", Arg: k, Call: now()}
			e.Out, e.OK = cache.Get(k)
			e.Ret = now()
			hist = append(hist, e)
		}
		for _, e := range hist {
			if e.Op == "Get" && !e.OK && e.Out != "" {
				c.Fail("a miss returned a value", map[string]any{"event": e.String()})
			}
		}
		n := overlaps(hist)
		c.Eval(n > 0, interleaving(hist))
		c.Count("overlapping pairs", n)
		c.Count("cache operations", len(hist))
		switch porcupine.CheckOperationsTimeout(cacheModel(keys, init), operations(hist), 30*time.Second) {
		case porcupine.Illegal:
			c.Fail("history is not linearizable", map[string]any{"history": describe(hist), "initial": fmt.Sprintf("%q", init[:]), "other entries": pad})
		case porcupine.Ok:
			c.Count("linearizability histories decided", 1)
		default:
			c.Count("linearizability histories given up", 1)
		}
		if h == 0 {
			c.Sample(map[string]any{"history": describe(hist), "other entries": pad})
		}
	}
}

// c13huge fills a cache with very much: several goroutines, each with keys of its own, and nothing is cleared.
// So every Get has one possible result.
func c13huge(c *Case) {
	cache := merge.NewCache()
	procs := 1 + c.Intn(6)
	n := pick(c.Rand, 20000, 70000, 140000)
	size := 0
	switch c.Idx / 40 % 3 {
	case 1:
		n, size = 300, 100000
	case 2:
		n = 300000
	}
	again := pick(c.Rand, 1, 2, 5)
	if n*again > 400000 {
		again = 1
	}
	rounds := 1 + c.Intn(2)
	big := strings.Repeat("v", size)
	key := func(p, i int) string { return fmt.Sprint(p, ".", i) }
	c.Do(fmt.Sprintf("%d goroutines put %d entries into a cache", procs, n))
	for round := 0; round < rounds; round++ {
		var wg sync.WaitGroup
		bad := make([]string, procs)
		for p := 0; p < procs; p++ {
			wg.Add(1)
			go func(p int) {
				defer wg.Done()
				check := func(i int, want string) {
					if got, ok := cache.Get(key(p, i)); (!ok || got != want) && bad[p] == "" {
						bad[p] = fmt.Sprintf("entry %d of %d: %.40q %v, want %.40q", i, n, got, ok, want)
					}
				}
				val := func(i, k int) string { return fmt.Sprint(round, k, i, big) }
				for i := 0; i < n/procs; i++ {
					for k := 0; k < again; k++ {
						cache.Set(key(p, i), val(i, k))
					}
					if i%97 == 0 {
						check(i/2, val(i/2, again-1))
					}
				}
				for i := 0; i < n/procs; i++ {
					check(i, val(i, again-1))
				}
				if p == 0 { // read one entry very often
					want, reads := val(1, again-1), 150000
					if size > 0 {
						reads = 5000
					}
					for k := 0; k < reads; k++ {
						check(1, want)
					}
				}
			}(p)
		}
		wg.Wait()
		for _, b := range bad {
			if b != "" {
				c.Fail("an entry is not what was last set", map[string]any{"entry": b, "goroutines": procs, "sets per entry": again, "round": round})
			}
		}
		c.Count("entries in huge caches", n)
		c.Count("cache operations", 2*n)
		if round == 0 && rounds == 2 {
			cache.Clear()
			for i := 0; i < n/procs; i += 7 {
				if got, ok := cache.Get(key(0, i)); ok || got != "" {
					c.Fail("an entry is there after Clear", map[string]any{"entry": i, "of": n})
				}
			}
		}
	}
	c.Eval(true, fmt.Sprint(procs, n, again, size))
}

func c13long(c *Case) {
	cache := merge.NewCache()
	nkeys := pick(c.Rand, 3, 50, 500, 12000)
	pre := strings.Repeat("k", pick(c.Rand, 0, 10, 2000))
	key := func(i int) string { return fmt.Sprint(pre, i, " ", i*7) }
	procs := 3 + c.Intn(5)
	ops := 400
	if nkeys > 10000 {
		ops = 4000
	}
	clears := pick(c.Rand, 0, 0.002, 0.02)
	c.Do("long cache history")
	hist, err := gather(procs, c.Rand, func(p int, r *rand.Rand, rec func(string, string, func() (string, bool))) {
		for i := 0; i < ops; i++ {
			k := key(r.Intn(nkeys))
			if nkeys > 10000 && r.Intn(2) == 0 {
				k = key((i*procs + p) % nkeys)
			}
			switch x := r.Float64(); {
			case x < clears:
				rec("Clear", "", func() (string, bool) { cache.Clear(); return "", true })
			case x < 0.5:
				rec("Get", k, func() (string, bool) { return cache.Get(k) })
			default:
				v := fmt.Sprintf("%d.%d=%s", p, i, k[max(0, len(k)-12):])
				rec("Set", k, func() (string, bool) { cache.Set(k, v); return v, true })
			}
		}
	})
	if err != nil {
		c.Fail("panic in a cache operation", map[string]any{"panic": clip(err.Error(), 4000)})
	}
	for i := 0; i < nkeys; i++ { // quiescent reads of everything
		e := event{Proc: procs, Op: "Get", Arg: key(i), Call: now()}
		e.Out, e.OK = cache.Get(e.Arg)
		e.Ret = now()
		hist = append(hist, e)
	}
	sets := map[string][]event{}
	byVal := map[string]event{}
	var clr []event
	for _, e := range hist {
		switch e.Op {
		case "Set":
			sets[e.Arg] = append(sets[e.Arg], e)
			byVal[e.Out] = e
		case "Clear":
			clr = append(clr, e)
		}
	}
	reads := 0
	for _, e := range hist {
		if e.Op != "Get" {
			continue
		}
		reads++
		bad := func(kind string, others ...event) {
			var o []string
			for _, x := range others {
				o = append(o, x.String())
			}
			c.Fail(kind, map[string]any{"read": e.String(), "others": o, "keys": nkeys, "key length": len(e.Arg)})
		}
		if !e.OK {
			if e.Out != "" {
				bad("a miss returned a value")
			}
			// some set completed before the read began and no clear could have come in between?
			for _, s := range sets[e.Arg] {
				if s.Ret >= e.Call {
					continue
				}
				cleared := false
				for _, x := range clr {
					if x.Ret >= s.Call && x.Call <= e.Ret {
						cleared = true
						break
					}
				}
				if !cleared {
					bad("a value that was set and not cleared is missing", s)
				}
			}
			continue
		}
		s, ok := byVal[e.Out]
		if !ok || s.Arg != e.Arg || s.Call > e.Ret {
			bad("read a value that was not set for this key", s)
		}
		for _, o := range sets[e.Arg] {
			if o.Call > s.Ret && o.Ret < e.Call {
				bad("read a value that was overwritten before", s, o)
			}
		}
		for _, o := range clr {
			if o.Call > s.Ret && o.Ret < e.Call {
				bad("read a value that was cleared before", s, o)
			}
		}
	}
	c.Eval(true, fmt.Sprint("long ", c.Idx, nkeys, len(hist)))
	c.Count("reads in long histories", reads)
	c.Count("cache operations", len(hist))
}

// ---- C12: concurrent merging and loading ----

// The state of a merger is a pair of versions: each of two groups of classes is governed by the stylesheet
// last added for it. A merge of a group's list spells the version out: for every bit of a code word there are
// two classes that conflict if and only if the bit is set. The code word holds the version and its complement,
// so the rules of a half-added stylesheet spell out no version at all.

const versionBits = 12

func codeBit(v, i int) bool {
	if i < versionBits {
		return v>>i&1 == 1
	}
	return v>>(i-versionBits)&1 == 0
}

func versionSheet(r *rand.Rand, group string, v, filler int) string {
	var rules []string
	for i := 0; i < 2*versionBits; i++ {
		prop := fmt.Sprintf("x-%s%d", group, i)
		other := prop
		if !codeBit(v, i) {
			other = "y" + prop
		}
		rules = append(rules, fmt.Sprintf(".%sa%d { %s: %d }", group, i, prop, v), fmt.Sprintf(".%sb%d { %s: %d }", group, i, other, v))
	}
	for i := 0; i < filler; i++ {
		rules = append(rules, fmt.Sprintf(".f%s%d:hover { color: red; margin: %dpx }", group, i, v))
	}
	r.Shuffle(len(rules), func(i, j int) { rules[i], rules[j] = rules[j], rules[i] })
	return strings.Join(rules, "\n")
}

func versionList(group string) []string {
	var l []string
	for i := 0; i < 2*versionBits; i++ {
		l = append(l, fmt.Sprint(group, "a", i))
	}
	for i := 0; i < 2*versionBits; i++ {
		l = append(l, fmt.Sprint(group, "b", i))
	}
	return l
}

// decodeVersion returns the version, or -1 if the output spells out none.
func decodeVersion(out map[string]bool, group string) int {
	v := 0
	for i := 0; i < 2*versionBits; i++ {
		if !out[fmt.Sprint(group, "b", i)] {
			return -1
		}
		set := !out[fmt.Sprint(group, "a", i)] // removed: the two conflict
		if i < versionBits {
			if set {
				v |= 1 << i
			}
		} else if set != (v>>(i-versionBits)&1 == 0) {
			return -1
		}
	}
	return v
}

// slowCache is a correct cache with delays.
type slowCache struct {
	mu   sync.Mutex
	m    map[string]string
	r    *rand.Rand
	hits int
	lose bool
}

func (s *slowCache) pause() {
	s.mu.Lock()
	n := s.r.Intn(12)
	s.mu.Unlock()
	switch {
	case n < 3:
		runtime.Gosched()
	case n == 3:
		time.Sleep(20 * time.Microsecond)
	case n == 4:
		time.Sleep(100 * time.Microsecond)
	}
}
func (s *slowCache) Get(k string) (string, bool) {
	s.pause()
	s.mu.Lock()
	v, ok := s.m[k]
	if ok {
		s.hits++
	}
	s.mu.Unlock()
	s.pause()
	return v, ok
}
func (s *slowCache) Set(k, v string) {
	s.pause()
	s.mu.Lock()
	if !s.lose || s.r.Intn(3) > 0 {
		s.m[k] = v
	}
	s.mu.Unlock()
	s.pause()
}
func (s *slowCache) Clear() {
	s.pause()
	s.mu.Lock()
	s.m = map[string]string{}
	s.mu.Unlock()
	s.pause()
}

// delayCache is the bundled cache with delays around its operations (without any synchronisation of its own).
type delayCache struct {
	*merge.SimpleCache
}

func (d delayCache) pause() {
	switch now() % 7 {
	case 0, 1:
		runtime.Gosched()
	case 2:
		time.Sleep(30 * time.Microsecond)
	}
}
func (d delayCache) Get(k string) (string, bool) {
	d.pause()
	v, ok := d.SimpleCache.Get(k)
	d.pause()
	return v, ok
}
func (d delayCache) Set(k, v string) { d.pause(); d.SimpleCache.Set(k, v); d.pause() }
func (d delayCache) Clear()          { d.pause(); d.SimpleCache.Clear(); d.pause() }

type slowReader struct {
	s   string
	r   *rand.Rand
	err error
}

func (s *slowReader) Read(p []byte) (int, error) {
	if s.s == "" {
		if s.err != nil {
			return 0, s.err
		}
		return 0, io.EOF
	}
	n := min(len(s.s), min(len(p), 200+s.r.Intn(800)))
	copy(p, s.s[:n])
	s.s = s.s[n:]
	dawdle(s.r)
	return n, nil
}

type versions [2]int

func mergerModel(init versions) porcupine.Model {
	return porcupine.Model{
		Init: func() any { return init },
		Step: func(state, in, out any) (bool, any) {
			s, e := state.(versions), in.(c12event)
			if e.write {
				if e.OK {
					s[e.group] = e.v
				}
				return true, s
			}
			return (e.saw[0] == 0 || e.saw[0] == s[0]) && (e.saw[1] == 0 || e.saw[1] == s[1]), s
		},
		Equal: func(a, b any) bool { return a == b },
	}
}

type c12event struct {
	event
	write    bool
	group, v int
	saw      versions // versions spelled out (0: not asked for)
}

func init() {
	register(&Check{ID: "C12", Quick: 160, Thorough: 4000, Workers: 2,
		Rule: "race-detector build. Goroutines merge and add stylesheets on one merger (no cache, the bundled cache, caches with delays); additions that fail (bad tail, failing reader), inline additions and additions for other classes are mixed in. Merges of version-identifying lists reveal which complete stylesheet was in force (half-added ones spell out none); every history must be linearizable as a pair of registers (porcupine). Random stylesheets too: lists merged from several goroutines, from the first merge on, while the same stylesheet is loaded again, against the results of a sequential merger. Non-trivial: a history in which merges and additions overlapped.",
		Min:  map[string]int{"histories decided": 500, "overlapping pairs": 20000, "merges": 20000, "failed additions": 200, "merges with a known result": 5000},
		Run:  runC12})
}

var spareMergers = make(chan *merge.Merger, 8)

// c12varied merges lists over a random stylesheet from several goroutines at once, beginning with the first merge of
// the merger, while others load the same stylesheet again, which changes nothing: every result is known beforehand.
func c12varied(c *Case) {
	p := baseProfile()
	p.NA, p.Props, p.Shorthands, p.Circ = 3+c.Intn(12), 2+c.Intn(10), c.Float64(), 1+c.Intn(4)
	p.Cond, p.Pseudo, p.Tmpl, p.List, p.Custom, p.Use, p.Imp, p.Big = 0.2, 0.2, 0.2, 0.1, 0.15, 0.2, 0.15, false
	g := newGen(c.Rand, p)
	s := g.sheet()
	css := s.css()
	var ref *merge.Merger
	select {
	case ref = <-spareMergers:
	default:
	}
	if ref != nil {
		clear(ref.Rules())
	}
	if ref == nil || len(ref.Rules()) > 0 {
		ref = merge.NewMerger(nil, true) // which is slow in a race-detector build
	}
	defer func() {
		select {
		case spareMergers <- ref:
		default:
		}
	}()
	c.add(ref, css)
	lists := someLists(g, 4+c.Intn(20))
	want := make([]string, len(lists))
	for i, l := range lists {
		want[i] = c.merge(ref, l)
	}
	var cache merge.Cache
	kind := pick(c.Rand, "none", "none", "bundled", "bundled with delays")
	switch kind {
	case "bundled":
		cache = merge.NewCache()
	case "bundled with delays":
		cache = delayCache{merge.NewCache()}
	}
	m := merge.NewMerger(cache, true)
	c.add(m, css)
	procs, loaders := 2+c.Intn(6), c.Intn(3)
	if len(css) > 100000 {
		loaders = min(loaders, 1)
	}
	perm := c.Perm(len(lists))
	hist, err := gather(procs+loaders, c.Rand, func(p int, r *rand.Rand, rec func(string, string, func() (string, bool))) {
		if p >= procs {
			for k := 1 + r.Intn(3); k > 0; k-- {
				dawdle(r)
				rec("AddRules", "", func() (string, bool) {
					err := m.AddRules(strings.NewReader(css), false)
					return fmt.Sprint(err), err == nil
				})
			}
			return
		}
		for k := range perm {
			i := perm[k]
			if r.Intn(2) == 0 {
				i = r.Intn(len(lists))
			}
			if r.Intn(6) == 0 {
				dawdle(r)
			}
			rec("Merge", fmt.Sprint(i), func() (string, bool) { return m.Merge(lists[i]), true })
		}
	})
	if err != nil {
		c.Fail("panic", map[string]any{"panic": clip(err.Error(), 4000), "css": css})
	}
	for _, e := range hist {
		if !e.OK {
			c.Fail("a stylesheet is rejected when it is loaded again", map[string]any{"css": css, "error": e.Out})
		}
		if e.Op == "Merge" {
			i, _ := strconv.Atoi(e.Arg)
			if e.Out != want[i] {
				c.Fail("a concurrent merge gives another result than a sequential one", map[string]any{"css": css, "list": lists[i], "got": e.Out, "want": want[i], "cache": kind})
			}
		}
	}
	n := overlaps(hist)
	c.Eval(n > 0, interleaving(hist))
	c.Count("merges with a known result", len(hist))
	c.Count("overlapping pairs of merges and additions (varied)", n)
}

func runC12(c *Case) {
	for k := 0; k < 1+c.Idx%2; k++ {
		c12varied(c)
	}
	keep := c.Intn(2) == 0
	var cache merge.Cache
	seed := splitmix(c.Uint64())
	kind := pick(c.Rand, "none", "bundled", "bundled", "bundled with delays", "bundled with delays", "mutex map with delays", "forgetful map with delays")
	var slow *slowCache
	switch kind {
	case "bundled":
		cache = merge.NewCache()
	case "bundled with delays":
		cache = delayCache{merge.NewCache()}
	case "mutex map with delays", "forgetful map with delays":
		slow = &slowCache{m: map[string]string{}, r: rand.New(&seed), lose: strings.HasPrefix(kind, "f")}
		cache = slow
	}
	m := merge.NewMerger(cache, keep)
	groups := []string{"g", "h"}
	lists := [][]string{versionList("g"), versionList("h")}
	both := append(append([]string(nil), lists[0]...), lists[1]...)
	cur := versions{1, 1}
	for g := range groups {
		if err := m.AddRules(strings.NewReader(versionSheet(c.Rand, groups[g], 1, 0)), false); err != nil {
			c.Fail("well-formed stylesheet rejected", map[string]any{"error": err.Error()})
		}
	}
	next := 2
	rounds := 8
	for round := 0; round < rounds; round++ {
		writers, readers := 1+c.Intn(3), 1+c.Intn(5)
		nw, nr := 1+c.Intn(4), 3+c.Intn(8)
		filler := pick(c.Rand, 0, 0, 50, 400, pick(c.Rand, 50, 400, 3000))
		// unknown classes vary the input string: some lists are new to the cache, others are repeated
		variants := pick(c.Rand, 1, 3, 40)
		type sheet struct {
			group, v int
			css      string
			err      error
			inline   bool
			slow     bool
			nothing  bool
		}
		plan := make([][]sheet, writers)
		for w := range plan {
			for i := 0; i < nw; i++ {
				s := sheet{group: c.Intn(2), v: next, slow: c.Intn(2) == 0}
				next++
				s.css = versionSheet(c.Rand, groups[s.group], s.v, filler)
				switch c.Intn(9) {
				case 0:
					s.css += pick(c.Rand, ".x { color }", "@layer q{.y{color:red}", ".x{c olor:red}")
				case 1:
					s.err = errors.New("reader fails")
				case 2:
					s.inline = true
				case 3:
					s.css, s.nothing = ".unrelated { color: red } .f1 { top: 0 }", true
				}
				plan[w] = append(plan[w], s)
			}
		}
		ev := make([][]c12event, writers+readers)
		c.Do(fmt.Sprintf("%d writers, %d readers, cache: %s", writers, readers, kind))
		_, err := gather(writers+readers, c.Rand, func(p int, r *rand.Rand, rec func(string, string, func() (string, bool))) {
			if p < writers {
				for _, s := range plan[p] {
					dawdle(r)
					var rd io.Reader = strings.NewReader(s.css)
					if s.slow || s.err != nil {
						rd = &slowReader{s.css, r, s.err}
					}
					e := c12event{write: true, group: s.group, v: s.v}
					e.Proc, e.Op, e.Arg = p, "AddRules", fmt.Sprintf("version %d of %s, inline %v, nothing %v", s.v, groups[s.group], s.inline, s.nothing)
					e.Call = now()
					err := m.AddRules(rd, s.inline)
					e.Ret = now()
					e.OK = err == nil && !s.inline && !s.nothing
					e.Out = fmt.Sprint(err)
					ev[p] = append(ev[p], e)
				}
				return
			}
			for i := 0; i < nr; i++ {
				if r.Intn(3) == 0 {
					dawdle(r)
				}
				g := r.Intn(3)
				l := both
				if g < 2 {
					l = lists[g]
				}
				in := strings.Join(l, " ") + fmt.Sprintf(" u%d", r.Intn(variants))
				e := c12event{}
				e.Proc, e.Op, e.Arg = p, "Merge", fmt.Sprint("list ", g)
				e.Call = now()
				out := m.Merge(in)
				e.Ret = now()
				e.Out = out
				ev[p] = append(ev[p], e)
			}
		})
		if err != nil {
			c.Fail("panic", map[string]any{"panic": clip(err.Error(), 4000), "cache": kind})
		}
		// quiescent merges, one per list and variant
		var h []c12event
		for g := 0; g < 3; g++ {
			for v := 0; v < min(variants, 6); v++ {
				l := both
				if g < 2 {
					l = lists[g]
				}
				e := c12event{}
				e.Proc, e.Op, e.Arg = writers+readers, "Merge", fmt.Sprint("list ", g)
				e.Call = now()
				e.Out = m.Merge(strings.Join(l, " ") + fmt.Sprintf(" u%d", v))
				e.Ret = now()
				h = append(h, e)
			}
		}
		for _, x := range ev {
			h = append(h, x...)
		}
		var plain []event
		for i := range h {
			e := &h[i]
			if e.write {
				if e.Out != "<nil>" {
					c.Count("failed additions", 1)
				}
				e.event.OK = e.OK
				plain = append(plain, e.event)
				continue
			}
			c.Count("merges", 1)
			out := set(fields(e.Out))
			for g := range groups {
				if e.Arg == fmt.Sprint("list ", g) || e.Arg == "list 2" {
					e.saw[g] = decodeVersion(out, groups[g])
					if e.saw[g] < 0 {
						c.Fail("a merge mixes the rules of several stylesheets", map[string]any{"group": groups[g], "output": e.Out, "cache": kind})
					}
				}
			}
			full := e.Out
			e.Out = fmt.Sprint("versions ", e.saw)
			plain = append(plain, e.event)
			e.Out = full
		}
		n := overlaps(plain)
		c.Count("overlapping pairs", n)
		c.Eval(n > 0, interleaving(plain))
		ops := make([]porcupine.Operation, len(h))
		for i, e := range h {
			ops[i] = porcupine.Operation{ClientId: e.Proc, Input: e, Output: nil, Call: e.Call, Return: e.Ret}
		}
		switch porcupine.CheckOperationsTimeout(mergerModel(cur), ops, 30*time.Second) {
		case porcupine.Illegal:
			c.Fail("history is not linearizable: a merge saw rules that were not in force", map[string]any{"cache": kind, "initial versions": cur, "history": describe(plain)})
		case porcupine.Ok:
			c.Count("histories decided", 1)
		default:
			c.Count("histories given up", 1)
		}
		if round == 0 {
			c.Sample(map[string]any{"cache": kind, "history": describe(plain)})
		}
		out := set(fields(m.Merge(strings.Join(both, " "))))
		for g := range groups {
			cur[g] = decodeVersion(out, groups[g])
			if cur[g] < 0 {
				c.Fail("a merge mixes the rules of several stylesheets", map[string]any{"output": strings.Join(sorted(out), " ")})
			}
		}
		c.Count("cache: "+kind, 1)
	}
	if slow != nil {
		c.Count("cache hits (where counted)", slow.hits)
	}
}
