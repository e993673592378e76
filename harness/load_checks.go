//go:build go1.22

package main

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"reflect"
	"sort"
	"strings"
	"testing/iotest"

	merge "github.com/tylantz/go-tailwind-merge"
	"github.com/tylantz/go-tailwind-merge/internal/cascadia"
)

// snapshot describes everything the rule table shows.
func snapshot(m *merge.Merger) string {
	rules := m.Rules()
	names := make([]string, 0, len(rules))
	for k := range rules {
		names = append(names, k)
	}
	sort.Strings(names)
	var b strings.Builder
	for _, k := range names {
		r := rules[k]
		fmt.Fprintf(&b, "%q: %q %q %q\n", k, r.GetSelector(), r.GetCondition(), r.Declarations)
	}
	return b.String()
}

func mergeAll(c *Case, m *merge.Merger, lists []string) string {
	var b strings.Builder
	for _, l := range lists {
		b.WriteString(c.merge(m, l))
		b.WriteByte('\n')
	}
	return b.String()
}

func someLists(g *Gen, n int) []string {
	out := make([]string, n)
	for i := range out {
		out[i] = strings.Join(g.list(), " ")
	}
	return out
}

// ---- C15: failed additions ----

type errAfter struct {
	s        string
	n        int // bytes per read
	err      error
	withData bool // deliver the error together with the last bytes
}

func (e *errAfter) Read(p []byte) (int, error) {
	if e.s == "" {
		return 0, e.err
	}
	n := min(e.n, min(len(p), len(e.s)))
	copy(p, e.s[:n])
	e.s = e.s[n:]
	if e.s == "" && e.withData {
		return n, e.err
	}
	return n, nil
}

var badTails = []string{".x{color}", ".x{color:red", "@layer q{.y{color:red}", "}", ".x{:red}", ".x{color:red}}", "@media print{.x{color:red}", ".x", "{}}", ".x{c olor:red}", "a:unknown-thing{color:red", "@layer q{@media", ".x{;:;}", ".x{color:red;1:2}", ".x{}}}", "@layer q{}}", "@media print{.x{color:red;}}}"}

// unparsable text, wherever it stands between rules
var hopeless = []string{".x{color}", "}", ".x{:red}", ".x{color:red}}", ".x{c olor:red}", ".x{color red}", ".x{(}", ".x{color:red;1:2}", "{}}", "@layer q{}}"}

var skippedRules = []string{"a:unknown-thing{color:red}", ".s1:nth-foo(2){color:red}", ".s2::unknown-element{color:red}", "&.s3{color:red}", ".s4:host-context(.q){top:0}", "a:unknown-thing{}", ".s5 >{color:red}", "> .s6{color:red}",
	".s7:unknown(a{b}){color:red;--x:{}}", "@layer q{.s8{color:red}}", "@container (width>1px){.s9{color:red}@media print{.s9{top:0}}}", "@font-face{font-family:q;src:url(a)}", "@keyframes z{0%{top:0}100%{top:1px}}", "@import url(x.css);", "/* .s10{color:red} */",
	".s11:unknown-thing{--x:red;color:\"}\";width:url(a)}", "@layer q;", "@layer{.s12:unknown-thing{color:red}}", "a:unknown-thing,.s13{color:red}", ".s14,a:unknown-thing{color:red}", "@property --q{syntax:\"*\";inherits:false}", "@page{size:a4;@top-left{content:\"x\"}}",
	".s15:unknown-thing{color:red;;width:0;}", "@supports (x:y){.s16:unknown-thing{color:red}}", ".s17::before::after{color:red}", "[a~]{color:red}"}

func init() {
	register(&Check{ID: "C15", Quick: 400, Thorough: 8000,
		Rule: "a loaded merger gets additions that fail: readers that fail after every prefix of a stylesheet (with and without data, various errors), stylesheets cut off or damaged at random places, known unparsable tails; after every failed addition all merges, the rule table and later additions have to be as without it. Additions of well-formed stylesheets with rules that have to be skipped in between must take in every other rule. Non-trivial: an addition that fails after at least one complete rule, or a skipped rule with rules behind it.",
		Min:  map[string]int{"failed additions": 3000, "reader failures": 1500, "parse failures": 300, "rules behind a skipped rule": 2000},
		Run:  runC15})
}

func runC15(c *Case) {
	p := baseProfile()
	p.NA, p.Props, p.Circ = 3+c.Intn(5), 1+c.Intn(3), 1
	g := newGen(c.Rand, p)
	base := g.sheet()
	var cache merge.Cache
	if c.Intn(2) == 0 {
		cache = merge.NewCache()
	}
	m := merge.NewMerger(cache, true)
	c.add(m, base.css())
	lists := someLists(g, 12)
	before, snap := mergeAll(c, m, lists), snapshot(m)
	failed := 0
	check := func(what, css string) {
		failed++
		c.Count("failed additions", 1)
		if s := snapshot(m); s != snap {
			c.Fail("a failed addition changes the rule table", map[string]any{"addition": what, "css": css, "before": snap, "after": s})
		}
		if a := mergeAll(c, m, lists); a != before {
			c.Fail("a failed addition changes merges", map[string]any{"addition": what, "css": css, "lists": lists, "before": before, "after": a})
		}
	}
	next := g.sheet()  // overrules the same classes
	if c.Idx%10 == 3 { // a large stylesheet
		for k := 0; k < 40; k++ {
			next.Rules = append(next.Rules, g.sheet().Rules...)
		}
	}
	css := next.css()
	errsList := []error{errReader, io.ErrUnexpectedEOF, errors.New("EOF"), fmt.Errorf("wrapped: %w", errReader), io.ErrClosedPipe, io.ErrNoProgress, fmt.Errorf("read: %w", io.EOF), io.ErrShortBuffer, iotest.ErrTimeout}
	for k := 0; k < 8; k++ {
		cut := c.Intn(len(css) + 1)
		if k == 0 {
			cut = len(css)
		}
		if k == 1 {
			cut = strings.LastIndex(css, "}") + 1
		}
		e := pick(c.Rand, errsList...)
		rd := &errAfter{css[:cut], 1 + c.Intn(pick(c.Rand, 3, 40, 5000)), e, c.Intn(2) == 0}
		inline := c.Intn(6) == 0
		c.Do("AddRules with failing reader " + css[:cut])
		if err := m.AddRules(rd, inline); err == nil {
			c.Fail("a reader error is not reported", map[string]any{"css": css[:cut], "error": e.Error(), "with data": rd.withData, "inline": inline})
		}
		c.Count("reader failures", 1)
		c.Eval(strings.Contains(css[:cut], "}"), css[:cut])
		check("reader fails after "+fmt.Sprint(cut)+" bytes", css[:cut])
	}
	for k := 0; k < 2; k++ {
		half := next.Rules[:c.Intn(len(next.Rules)+1)]
		bad := (&Lay{}).render(half) + pick(c.Rand, hopeless...) + (&Lay{}).render(next.Rules[len(half):])
		c.Do("AddRules " + bad)
		if err := m.AddRules(strings.NewReader(bad), false); err == nil {
			c.Fail("text that cannot be parsed is accepted", map[string]any{"css": bad})
		}
		c.Count("unparsable text", 1)
		check("unparsable text", bad)
	}
	for k := 0; k < 10; k++ {
		bad := css
		switch c.Intn(4) {
		case 0:
			bad = css[:c.Intn(len(css))]
		case 1:
			tail := pick(c.Rand, badTails...)
			bad += tail
			// complete rules in front of it make no difference to whether text can be parsed
			alone, behind := merge.NewMerger(nil, true).AddRules(strings.NewReader(tail), false), merge.NewMerger(nil, true).AddRules(strings.NewReader(bad), false)
			if (alone == nil) != (behind == nil) {
				c.Fail("text that cannot be parsed is accepted behind complete rules", map[string]any{"css": css, "tail": tail, "error of the tail alone": fmt.Sprint(alone), "error of all": fmt.Sprint(behind)})
			}
			c.Count("tails compared", 1)
		case 2:
			i := c.Intn(len(css))
			bad = css[:i] + pick(c.Rand, "}", "{", "color", "@", "\"", "(", ";", ":", "\\", "]", "/*", "<!--") + css[i:]
		case 3:
			i := c.Intn(len(css))
			bad = css[:i] + css[min(len(css), i+1+c.Intn(3)):]
		}
		c.Do("AddRules " + bad)
		probe := merge.NewMerger(nil, true)
		perr := probe.AddRules(strings.NewReader(bad), false)
		if perr == nil {
			continue // accepted: it would change the rules, rightly
		}
		if err := m.AddRules(strings.NewReader(bad), false); err == nil {
			c.Fail("the same stylesheet fails on one merger and not on another", map[string]any{"css": bad})
		}
		if len(probe.Rules()) != 0 {
			c.Fail("a failed addition changes the rule table", map[string]any{"css": bad, "after": snapshot(probe)})
		}
		c.Count("parse failures", 1)
		c.Eval(strings.Contains(bad, "}"), bad)
		check("cannot be parsed: "+perr.Error(), bad)
	}
	// as if the calls had not been made: later additions behave the same
	fresh := merge.NewMerger(nil, true)
	c.add(fresh, base.css())
	third := g.sheet().css()
	c.add(fresh, third)
	c.add(m, third)
	if a, b := mergeAll(c, fresh, lists), mergeAll(c, m, lists); a != b {
		c.Fail("after failed additions, a further addition has another effect", map[string]any{"base": base.css(), "then": third, "lists": lists, "without failures": a, "with": b})
	}
	if a, b := snapshot(fresh), snapshot(m); a != b {
		c.Fail("after failed additions, a further addition has another effect", map[string]any{"base": base.css(), "then": third, "without failures": a, "with": b})
	}
	// success takes in everything
	if c.Intn(2) == 0 { // many rules in shared, nested blocks
		g.P.Cond = 0.7
		g.Conds = nil
		for _, i := range sortedPerm(c.Rand, len(condPool), 2) {
			g.Conds = append(g.Conds, condPool[i])
		}
		next = g.sheet()
		sort.SliceStable(next.Rules, func(i, j int) bool { return condKey(next.Rules[i].Conds) < condKey(next.Rules[j].Conds) })
	}
	var rs []Rule
	behind := 0
	skipped := false
	for _, r := range next.Rules {
		if c.Intn(3) == 0 {
			rs = append(rs, Rule{Conds: r.Conds, Raw: pick(c.Rand, skippedRules...)})
			skipped = true
		}
		if skipped && r.Raw == "" {
			behind++
		}
		rs = append(rs, r)
	}
	lay := &Lay{r: c.Rand}
	if c.Intn(4) == 0 {
		lay.r = nil
	}
	full := lay.render(rs)
	m2 := c.load(full, true)
	md := newModel()
	md.add(rs)
	for cl := range md.gov {
		if _, ok := m2.Rules()[cl]; !ok {
			c.Fail("a successful addition did not take in a rule", map[string]any{"css": full, "class": cl})
		}
	}
	for cl := range m2.Rules() {
		if md.gov[cl] == nil {
			c.Fail("a rule that has to be skipped was taken in", map[string]any{"css": full, "class": cl})
		}
	}
	c.lists(g, 10, func(l []string) { c.judge(full, md, m2, l, everything) })
	c.Count("rules behind a skipped rule", behind)
	c.Eval(behind > 0, full)
	c.Sample(map[string]any{"css with skipped rules": clip(full, 1500), "failed additions in this case": failed})
}

// ---- C16: layout ----

func init() {
	register(&Check{ID: "C16", Quick: 700, Thorough: 20000,
		Rule: "a stylesheet in canonical layout and four rewritings of it (comments, whitespace, line endings, minified, last semicolons, letter case of properties and at-keywords, shared or separate at-rule blocks, skipped at-rules in between), read through readers with pieces of 1 byte to everything; all merges have to agree. Non-trivial: a list from which a class is removed.",
		Run: func(c *Case) {
			p := baseProfile()
			p.NA, p.Props, p.Circ = 3+c.Intn(8), 1+c.Intn(4), 1+c.Intn(3)
			p.Cond, p.Custom, p.Use, p.Imp = 0.3, 0.2, 0.25, 0.15
			p.Pseudo, p.Tmpl, p.List = 0.15, 0.2, 0.15
			p.Junk = 0
			g := newGen(c.Rand, p)
			s := g.sheet()
			css := s.css()
			ref := c.load(css, true)
			lists := someLists(g, 25)
			want := make([]string, len(lists))
			for i, l := range lists {
				want[i] = c.merge(ref, l)
			}
			for v := 0; v < 5; v++ {
				rs := s.Rules
				if v > 1 {
					rs = nil
					for _, r := range s.Rules {
						if c.Intn(5) == 0 {
							j := Rule{Raw: g.junkText()}
							if absorbable(j.Raw) && c.Intn(2) == 0 {
								j.Conds = r.Conds
							}
							rs = append(rs, j)
						}
						rs = append(rs, r)
					}
				}
				lay := &Lay{r: c.Rand}
				if v == 4 {
					lay.r = nil
				}
				text := lay.render(rs)
				switch v {
				case 3:
					eol := pick(c.Rand, "\r\n", "\r\n", "\n", "\n\n")
					if eol == "\n\n" && strings.Contains(text, "\\\n") { // a line continued in a string
						eol = "\r\n"
					}
					text = strings.ReplaceAll(strings.ReplaceAll(text, "\r\n", "\n"), "\n", eol)
				case 4:
					text = minify(text)
				}
				m := merge.NewMerger(nil, true)
				rd, how := oddReader(c.Rand, text)
				c.Do("AddRules (" + how + ") " + text)
				if err := m.AddRules(rd, false); err != nil {
					c.Fail("a rewritten stylesheet is rejected", map[string]any{"canonical": css, "rewritten": text, "reader": how, "error": err.Error()})
				}
				for i, l := range lists {
					if got := c.merge(m, l); got != want[i] {
						c.Fail("the layout of a stylesheet changes a merge", map[string]any{"canonical": css, "rewritten": text, "reader": how, "list": l, "canonical result": want[i], "rewritten result": got})
					}
					c.Eval(len(set(fields(l))) > len(fields(want[i])), text, l)
				}
				c.Count("rewritings compared", 1)
				c.Count("reader: "+how, 1)
				if v == 2 {
					c.Sample(map[string]any{"canonical": clip(css, 800), "rewritten": clip(text, 800)})
				}
			}
		}})
}

// minify removes what the canonical layout puts in for legibility.
func minify(s string) string {
	var b strings.Builder
	for _, l := range strings.Split(s, "\n") {
		l = strings.Replace(l, " { ", "{", 1)
		if strings.HasSuffix(l, ";}") && !strings.HasSuffix(l, ": ;}") {
			l = l[:len(l)-2] + "}"
		}
		b.WriteString(l)
		if strings.HasSuffix(l, "\\") { // the line ends in the middle of a string
			b.WriteByte('\n')
		}
	}
	return b.String()
}

type oddRead struct {
	s    string
	next func() int
	eof  bool // return io.EOF together with the last data
}

func (o *oddRead) Read(p []byte) (int, error) {
	if o.s == "" {
		return 0, io.EOF
	}
	n := min(o.next(), min(len(p), len(o.s)))
	copy(p, o.s[:n])
	o.s = o.s[n:]
	if o.s == "" && o.eof {
		return n, io.EOF
	}
	return n, nil
}

func oddReader(r *rand.Rand, s string) (io.Reader, string) {
	switch r.Intn(8) {
	case 0:
		return iotest.OneByteReader(strings.NewReader(s)), "one byte"
	case 1:
		return iotest.DataErrReader(strings.NewReader(s)), "EOF with data"
	case 2:
		return iotest.HalfReader(strings.NewReader(s)), "half"
	case 3:
		return bytes.NewBufferString(s), "bytes.Buffer"
	case 4:
		return bytes.NewReader([]byte(s)), "bytes.Reader"
	case 5:
		zero := 0
		return &oddRead{s, func() int { // some reads return nothing, but never many in a row
			if zero < 3 && r.Intn(3) == 0 {
				zero++
				return 0
			}
			zero = 0
			return 1 + r.Intn(20)
		}, r.Intn(2) == 0}, "random pieces and empty reads"
	case 6:
		k := pick(r, 2, 3, 7, 511, 512, 513, 4095, 4096)
		return &oddRead{s, func() int { return k }, r.Intn(2) == 0}, "fixed pieces"
	default:
		return strings.NewReader(s), "strings.Reader"
	}
}

// ---- C18: isolation ----

// canaryReader hands out data and keeps the destination in view.
type ownedReader struct {
	data []byte
	i    int
}

func (o *ownedReader) Read(p []byte) (int, error) {
	if o.i >= len(o.data) {
		return 0, io.EOF
	}
	n := copy(p, o.data[o.i:])
	o.i += n
	return n, nil
}

// Bytes tempts code that looks for a shortcut to the memory behind a reader.
func (o *ownedReader) Bytes() []byte { return o.data[o.i:] }

func init() {
	register(&Check{ID: "C18", Quick: 350, Thorough: 8000,
		Rule: "bystander mergers with their own stylesheets are compared before and after other mergers load, fail, merge, and have their exposed tables altered (also at the same time on other goroutines, under the race detector); stylesheets are read from buffers with red zones and spare capacity, which are checked for writes and overwritten afterwards; the rule table is compared around merges. Non-trivial: a bystander result in which a class was removed.",
		Min:  map[string]int{"red-zone bytes checked": 100000, "bystander merges compared": 10000},
		Run:  runC18})
}

func runC18(c *Case) {
	p := baseProfile()
	p.NA, p.Props, p.Circ = 3+c.Intn(5), 1+c.Intn(3), 1
	p.Custom, p.Use = 0.2, 0.2
	g := newGen(c.Rand, p)
	// the sheet is loaded from memory with red zones
	sheet := g.sheet()
	css := sheet.css()
	switch c.Intn(4) {
	case 0:
		css = strings.TrimRight(css, "\n ")
	case 1:
		css = (&Lay{r: c.Rand}).render(sheet.Rules)
	}
	const zone = 64
	mem := bytes.Repeat([]byte{0xA5}, zone+len(css)+zone)
	copy(mem[zone:], css)
	orig := append([]byte(nil), mem...)
	spare := pick(c.Rand, 0, 1, zone)
	buf := mem[zone : zone+len(css) : zone+len(css)+spare]
	verify := func(when string) {
		if !bytes.Equal(mem, orig) {
			i := 0
			for mem[i] == orig[i] {
				i++
			}
			c.Fail("the caller's memory was written to", map[string]any{"when": when, "css": css, "offset from the start of the data": i - zone, "spare capacity": spare})
		}
		c.Count("red-zone bytes checked", len(mem))
	}
	var rd io.Reader
	how := c.Intn(4)
	switch how {
	case 0:
		rd = bytes.NewBuffer(buf)
	case 1:
		rd = bytes.NewReader(buf)
	case 2:
		rd = &ownedReader{data: buf}
	case 3:
		rd = io.MultiReader(bytes.NewReader(buf[:len(buf)/2]), bytes.NewBuffer(buf[len(buf)/2:]))
	}
	owner := merge.NewMerger(nil, true)
	ref := c.load(css, true)
	c.Do("AddRules " + css)
	if err := owner.AddRules(rd, false); err != nil {
		c.Fail("well-formed stylesheet rejected", map[string]any{"css": css, "error": err.Error()})
	}
	verify("after AddRules")
	lists := someLists(g, 15)
	want := mergeAll(c, ref, lists)
	table := snapshot(ref)
	for i := range mem { // the caller reuses its memory
		mem[i] = "}.x{color:red}\"\\"[i%16]
	}
	copy(orig, mem)
	same := func(m *merge.Merger, when string) {
		if got := mergeAll(c, m, lists); got != want {
			c.Fail("merges changed", map[string]any{"when": when, "css": css, "lists": lists, "before": want, "after": got})
		}
		if got := snapshot(m); got != table {
			c.Fail("the rule table changed", map[string]any{"when": when, "css": css, "before": table, "after": got})
		}
		removed := 0
		for i, o := range strings.Split(strings.TrimRight(want, "\n"), "\n") {
			if i < len(lists) && len(fields(o)) < len(set(fields(lists[i]))) {
				removed++
			}
			c.Eval(removed > 0, css, fmt.Sprint(i))
		}
		c.Count("bystander merges compared", len(lists))
	}
	same(owner, "after the caller overwrote the memory it had read from")
	verify("after merges")
	same(ref, "after merges on this merger")

	// a reader that is used again delivers another stylesheet
	other := g.sheet().css()
	onto := merge.NewMerger(nil, true)
	once := c.load(other, true)
	var reused io.Reader
	{
		first := merge.NewMerger(nil, true)
		load := func(m *merge.Merger, what string) {
			c.Do("AddRules " + what)
			if err := m.AddRules(reused, false); err != nil {
				c.Fail("well-formed stylesheet rejected", map[string]any{"css": what, "error": err.Error()})
			}
		}
		switch c.Intn(4) {
		case 0:
			x := strings.NewReader(css)
			reused = x
			load(first, css)
			x.Reset(other)
		case 1:
			x := bytes.NewReader([]byte(css))
			reused = x
			load(first, css)
			x.Reset([]byte(other))
		case 2:
			x := bytes.NewBufferString(css)
			reused = x
			load(first, css)
			x.Reset()
			x.WriteString(other)
		case 3:
			x := bufio.NewReader(strings.NewReader(css))
			reused = x
			load(first, css)
			x.Reset(strings.NewReader(other))
		}
		load(onto, other)
		if a, b := snapshot(onto), snapshot(once); a != b {
			c.Fail("a reader that is used again loads something else", map[string]any{"first": css, "then": other, "should be": b, "is": a})
		}
		if a, b := snapshot(first), table; a != b {
			c.Fail("the rule table changed", map[string]any{"when": "after the reader was used again", "css": css, "before": b, "after": a})
		}
		c.Count("readers used again", 1)
	}

	// others do all sorts of things
	mischief := func(r *rand.Rand, gg *Gen) {
		cache := merge.NewCache()
		o := merge.NewMerger(cache, r.Intn(2) == 0)
		o.AddRules(strings.NewReader(css), false)
		for k := 0; k < 6; k++ {
			o.AddRules(strings.NewReader(gg.sheet().css()), r.Intn(5) == 0)
			o.AddRules(strings.NewReader(gg.sheet().css()+pick(r, badTails...)), false)
			o.AddRules(&failingReader{css, errReader}, false)
			for _, l := range someLists(gg, 10) {
				o.Merge(l)
			}
		}
		for k, v := range o.Rules() {
			for i := range v.Declarations {
				v.Declarations[i].Property = "mischief"
				v.Declarations[i].Value = "var(--mischief)"
			}
			if r.Intn(2) == 0 {
				delete(o.Rules(), k)
			} else {
				o.Rules()[k] = cascadia.CssRule{Selector: v.Selector}
			}
		}
		cache.Clear()
	}
	if c.Idx%2 == 0 {
		mischief(c.Rand, g)
		same(owner, "after other mergers were used")
	} else {
		done := make(chan any, 3)
		for w := 0; w < 3; w++ {
			seed := splitmix(c.Uint64())
			r := rand.New(&seed)
			g2 := *g
			g2.Rand, g2.made = r, nil
			go func() {
				defer func() { done <- recover() }()
				mischief(r, &g2)
			}()
		}
		for k := 0; k < 5; k++ {
			same(owner, "while other mergers are used")
		}
		for w := 0; w < 3; w++ {
			if e := <-done; e != nil {
				c.Fail("panic in a merger used next to others", map[string]any{"panic": fmt.Sprint(e)})
			}
		}
		c.Count("cases with mergers on other goroutines", 1)
	}
	same(ref, "after other mergers were used")
	again := c.load(css, true)
	same(again, "on a merger made after others were used")
	if !reflect.DeepEqual(keysOf(again.Rules()), keysOf(ref.Rules())) {
		c.Fail("the rule table of a new merger differs", map[string]any{"css": css})
	}
	c.Sample(map[string]any{"css": clip(css, 800), "reader": how, "spare capacity": spare})
}

func keysOf(m map[string]cascadia.CssRule) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// ---- C19: the rule table ----

func init() {
	register(&Check{ID: "C19", Quick: 3000, Thorough: 50000,
		Rule: "generated stylesheets in varied layouts, with skipped rules and at-rules; the rule table is compared with the stylesheet model: class names, selector, and the token sequence of every declaration. Values are compared by an own CSS tokenizer, ignoring only whitespace and comments between tokens. Non-trivial: a table with at least three entries.",
		Min:  map[string]int{"declarations compared": 20000},
		Run: func(c *Case) {
			p := baseProfile()
			p.NA = 2 + c.Intn(8)
			p.Imp, p.Custom, p.Use, p.ImpCustom = 0.2, 0.3, 0.2, 0.15
			p.Multi, p.Tmpl, p.List = 0.2, 0.2, 0.15
			g := newGen(c.Rand, p)
			s := g.sheet()
			var rs []Rule
			for _, r := range s.Rules {
				if c.Intn(6) == 0 {
					rs = append(rs, Rule{Conds: r.Conds, Raw: pick(c.Rand, skippedRules...)})
				}
				for i := range r.Decls {
					if c.Intn(6) == 0 {
						r.Decls[i].Atom = append(r.Decls[i].Atom, pick(c.Rand, trickyAtoms...))
					}
				}
				rs = append(rs, r)
			}
			lay := &Lay{}
			if c.Intn(3) > 0 {
				lay.r = c.Rand
				lay.escapes = pick(c.Rand, 0, 0, 0.1)
			}
			css := lay.render(rs)
			m := c.load(css, true)
			md := newModel()
			md.add(rs)
			rules := m.Rules()
			bad := func(kind, class string, kv ...any) {
				d := map[string]any{"css": css, "class": class}
				for i := 0; i+1 < len(kv); i += 2 {
					d[kv[i].(string)] = kv[i+1]
				}
				c.Fail(kind, d)
			}
			for cl, gv := range md.gov {
				r, ok := rules[cl]
				if !ok {
					bad("class missing from the rule table", cl)
				}
				if len(r.Declarations) != len(gv.decls) {
					bad("number of declarations", cl, "got", r.Declarations, "want", len(gv.decls))
				}
				for i, d := range gv.decls {
					got := r.Declarations[i]
					if got.Property != d.written() && got.Property != d.Prop {
						bad("property name", cl, "got", got.Property, "want", d.written())
					}
					wantText := strings.Join(d.Atom, " ")
					if d.Imp {
						wantText += " !important"
					}
					a, b := cssTokens(got.Value), cssTokens(wantText)
					if d.Imp && len(a) > 0 && strings.EqualFold(a[len(a)-1], "important") {
						a[len(a)-1] = "important"
					}
					if !reflect.DeepEqual(a, b) && !(len(a) == 0 && len(b) == 0) {
						bad("value", cl, "property", d.Prop, "got", got.Value, "written", wantText, "tokens got", fmt.Sprintf("%q", a), "tokens written", fmt.Sprintf("%q", b))
					}
					c.Count("declarations compared", 1)
				}
				if cl != "" && c.Intn(8) == 0 { // the printed rule reads back as the same
					text := r.ToCssFormat()
					c.Do("reading " + text)
					again, ok := c.load(text, c.Intn(2) == 0).Rules()[cl]
					same := ok && again.GetSelector() == r.GetSelector() && len(again.Declarations) == len(r.Declarations)
					for i := 0; same && i < len(r.Declarations); i++ {
						a, b := again.Declarations[i], r.Declarations[i]
						same = a.Property == b.Property && reflect.DeepEqual(cssTokens(a.Value), cssTokens(b.Value))
					}
					if !same {
						bad("printed rule reads back differently", cl, "printed", text, "again", again.ToCssFormat(), "declarations", r.Declarations)
					}
					c.Count("printed rules", 1)
				}
				okSel := false
				var wants []string
				for _, mem := range gv.rule.Members {
					if !contains(mem.classes(), cl) {
						continue
					}
					sel, err := cascadia.ParseWithPseudoElement((&Lay{}).member(mem))
					if err != nil {
						continue
					}
					wants = append(wants, sel.String())
					okSel = okSel || sel.String() == r.GetSelector()
				}
				if !okSel && len(wants) > 0 {
					bad("selector", cl, "got", r.GetSelector(), "want one of", wants)
				}
			}
			for cl := range rules {
				if md.gov[cl] == nil {
					bad("class in the rule table that no loaded rule mentions", cl)
				}
			}
			c.Eval(len(md.gov) >= 3, css)
			c.Sample(map[string]any{"css": clip(css, 1200), "classes": len(rules)})
		}})
}

var trickyAtoms = []string{"\"a  b\"", "'x /* y */ z'", "url(  \"a  b\"  )", "\"\\A x\"", "\"\\\"\"", "\\31 a", "a\\ b", "calc(1px + 2px)", "calc( 1px  -  -2px )", "1e-3", "+.5", "-.5e+3", "#FfF", "RED", "Var(--Q)", "rgb(1 2 3 / 50%)", "1px/2px", "( 1px )", "[ a b ]", "\"\\201C\\201D\"", "url(data:image/svg+xml;base64,AAA=)", "url(a\\)b)", "U+0025-00FF", "1.0px", "00", "\"é\"", "\"\\\\\"", "url(\"data:image/svg+xml,%3csvg xmlns='http://x'%3e\")", "progid", "1X", "--Foo", "\"'\"", "translate( -50% , -50% )", "a , b", "fn()", "é"}

// cssTokens splits a value into tokens, without whitespace and comments. Blanks inside url() next to the parentheses
// have no meaning either.
func cssTokens(s string) []string {
	var out []string
	rs := strings.NewReplacer("\r\n", "\n", "\r", "\n", "\f", "\n").Replace(s)
	isName := func(c byte) bool {
		return c >= 0x80 || c == '_' || c == '-' || '0' <= c && c <= '9' || 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z'
	}
	name := func(i int) int { // end of the name that starts at i
		for i < len(rs) {
			if rs[i] == '\\' && i+1 < len(rs) && rs[i+1] != '\n' {
				i++
				if isHex(rune(rs[i])) {
					k := 0
					for i < len(rs) && k < 6 && isHex(rune(rs[i])) {
						i, k = i+1, k+1
					}
					if i < len(rs) && strings.ContainsRune(" \t\n\f\r", rune(rs[i])) {
						i++
					}
				} else {
					i++
				}
			} else if isName(rs[i]) {
				i++
			} else {
				break
			}
		}
		return i
	}
	digit := func(i int) bool { return i < len(rs) && '0' <= rs[i] && rs[i] <= '9' }
	for i := 0; i < len(rs); {
		ch := rs[i]
		switch {
		case strings.ContainsRune(" \t\n\f\r", rune(ch)):
			i++
		case strings.HasPrefix(rs[i:], "/*"):
			e := strings.Index(rs[i+2:], "*/")
			if e < 0 {
				i = len(rs)
			} else {
				i += e + 4
			}
		case ch == '"' || ch == '\'':
			j := i + 1
			for j < len(rs) && rs[j] != ch {
				if rs[j] == '\\' {
					j++
				}
				j++
			}
			j = min(j+1, len(rs))
			out = append(out, rs[i:j])
			i = j
		case digit(i) || ch == '.' && digit(i+1) || (ch == '+' || ch == '-') && (digit(i+1) || i+1 < len(rs) && rs[i+1] == '.' && digit(i+2)):
			j := i + 1
			for digit(j) {
				j++
			}
			if j < len(rs) && rs[j] == '.' && digit(j+1) && ch != '.' {
				j++
				for digit(j) {
					j++
				}
			}
			if j < len(rs) && (rs[j] == 'e' || rs[j] == 'E') && (digit(j+1) || j+1 < len(rs) && (rs[j+1] == '+' || rs[j+1] == '-') && digit(j+2)) {
				j += 2
				for digit(j) {
					j++
				}
			}
			if j < len(rs) && rs[j] == '%' {
				j++
			} else {
				j = name(j)
			}
			out = append(out, rs[i:j])
			i = j
		case isName(ch) || ch == '\\' || ch == '#' || ch == '@':
			j := name(i + 1)
			if ch == '\\' || isName(ch) {
				j = name(i)
			}
			if j == i {
				j++
			}
			if j < len(rs) && rs[j] == '(' {
				j++
				if strings.EqualFold(rs[i:j], "url(") {
					k := j
					for k < len(rs) && strings.ContainsRune(" \t\n\f\r", rune(rs[k])) {
						k++
					}
					if k < len(rs) && rs[k] != '"' && rs[k] != '\'' {
						e := k
						for e < len(rs) && rs[e] != ')' {
							if rs[e] == '\\' {
								e++
							}
							e++
						}
						e = min(e, len(rs))
						out = append(out, "url("+strings.TrimSpace(rs[k:e])+")")
						i = min(e+1, len(rs))
						continue
					}
				}
			}
			out = append(out, rs[i:j])
			i = j
		default:
			out = append(out, rs[i:i+1])
			i++
		}
	}
	return out
}
