//go:build go1.22

package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"strings"

	merge "github.com/tylantz/go-tailwind-merge"
)

// ---- C14: hostile bytes ----

// current records what is about to run, for crashes that cannot be recovered from (stack overflow, out of memory).
func (c *Case) current(v map[string]any) {
	path := os.Getenv("VERIF_CURRENT")
	if path == "" {
		return
	}
	v["case"] = c.Idx
	b, _ := json.Marshal(v)
	os.WriteFile(path, b, 0o644)
}

var cssBits = []string{"{", "}", "(", ")", "[", "]", ";", ":", "::", ",", ".", "#", "@", "!", "\"", "'", "\\", "/*", "*/", "<!--", "-->", "*", "+", ">", "~", "|", "||", "=", "~=", "^=", "$=", "*=", "&", "%", "/", "-", "--", "_", "u+", " ", "\n", "\t", "\r\n", "\f", "\x00", "\xff", "\xc3", "\u00e9", "\U0001F600",
	".a", ".b", "a", "#id", "--x", "var(--x)", "var(", "url(", "url(a", "url(\"", "calc(", "color", "color:red", "color:red;", "margin:0!important;", "--x:{}", "--x:", "--x:;", "!important", "! important", "red", "1px", "-1.5e3", "1e", ".5", "0", "#fff",
	"@media", "@media print{", "@media (width>1px){", "@supports (a:b){", "@layer", "@layer q{", "@import", "@import url(x);", "@charset \"x\";", "@font-face{", "@keyframes k{", "@", "@-", "@\\", "@media{", "@media print;", "@page:first{", "@property --x{", "@container", "@namespace",
	":hover", ":not(", ":is(", ":where(", ":has(", ":nth-child(", "2n+1)", "odd)", "-n+)", ":lang(", ":contains(", ":matches(", ":matchesOwn(", "::before", "::before{", ":nth-of-type(", ":root", "[a", "[a=", "[a=b]", "[a=\"b\" i]", "[a#=", ".a{color:red}", ".a{", "a b", "a>b", "a{", "{}", ".a\\", "\\41", "\\000041 ", "\\110000", "\\0"}

var openers = []string{"(", "[", "{", "a(", ":not(", ":is(", ":where(", ":has(", ".a:not(.b", ":is(.a,", "@media print{", "@media{", "@supports (", "@layer q{", "@layer{", ".a{", "--x:{", "--x:(", "url(", "var(--x,", "calc(", "[a=", "/*", "\"", "\\", ".a{color:var(", ".a:is(.b):not(", ":nth-child(", "((", "@media (", "@x{@y(", "{(", "@", ".a>", ".a,", ".a ", "::", ":", "a|", "!", ".a{--x:[", "@media print{.a:not(", ".a:hover{--y:{", "a:unknown(", "&{", "@layer q{.a{"}
var closers = map[byte]string{'(': ")", '[': "]", '{': "}"}

// hostile makes an input of at most max bytes.
func hostile(r *rand.Rand, g *Gen, max int) (string, string) {
	clipTo := func(s string) string {
		if len(s) > max {
			return s[:max]
		}
		return s
	}
	sheet := func() string {
		s := g.sheet()
		if r.Intn(2) == 0 {
			return (&Lay{r: r}).render(s.Rules)
		}
		return s.css()
	}
	switch r.Intn(10) {
	case 0: // random bytes
		b := make([]byte, r.Intn(400))
		for i := range b {
			b[i] = byte(r.Intn(256))
		}
		return string(b), "random bytes"
	case 1, 2: // token soup
		var b strings.Builder
		for n := r.Intn(60); n >= 0; n-- {
			b.WriteString(pick(r, cssBits...))
		}
		return b.String(), "token soup"
	case 3: // deep nesting, sometimes balanced
		o := pick(r, openers...)
		if r.Intn(4) == 0 {
			o += pick(r, openers...)
		}
		n := pick(r, 3, 40, 300, 1200, 3000, max/len(o))
		if n*len(o) > max {
			n = max / len(o)
		}
		s := pick(r, "", ".a{color:red}", ".a", ".a{--x:", "@media print{", "a:is(") + strings.Repeat(o, n) + pick(r, "", "b", ".b", "color:red")
		if r.Intn(2) == 0 {
			var rev []byte
			for i := len(o) - 1; i >= 0; i-- {
				rev = append(rev, closers[o[i]]...)
			}
			k := n
			if r.Intn(3) == 0 {
				k = r.Intn(n + 2)
			}
			if len(s)+k*len(rev) < 2*max {
				s += strings.Repeat(string(rev), k)
			}
		}
		return s + pick(r, "", "{color:red}", ".z{color:red}", "}"), "deep nesting"
	case 4: // long runs
		unit := pick(r, "a", ".a", ".a.b", "a,", ".a,", ".a>", "a ", "a+", "#", "\\", "\\0 ", "-", "1", "[a]", ":hover", "::before", ";", ":", "x:y;", "--x:y;", "a{}", ".a{}", "}", "@media print{}", "@x;", "/**/", "/*", "*/", "\"\"", "''", "<!--", "\n", " ", "\x00", "\xf0", "é", ":not(a)", "var(--x)", "!important", "url()", "(", ")")
		pre := pick(r, "", ".", ".a{", ".a{x:", ".a{--x:", "@media ", "@media print{.a{color:", "@layer ", ".a[b=\"", "#")
		n := pick(r, 10, 500, max/len(unit))
		return clipTo(pre + strings.Repeat(unit, n) + pick(r, "", "}", "{color:red}", "\"]{a:b}", ";}")), "long run"
	case 5: // every kind of cut
		s := sheet()
		return s[:r.Intn(len(s)+1)], "cut off"
	case 6: // splice of two
		a, b := sheet(), sheet()
		return a[:r.Intn(len(a)+1)] + b[r.Intn(len(b)+1):], "splice"
	default: // mutations
		b := []byte(sheet())
		for n := 1 + r.Intn(8); n > 0 && len(b) > 2; n-- {
			i := r.Intn(len(b))
			switch r.Intn(7) {
			case 0:
				b = append(b[:i], b[i+1:]...)
			case 1:
				b[i] = byte(r.Intn(256))
			case 2, 3:
				b = append(b[:i:i], append([]byte(pick(r, cssBits...)), b[i:]...)...)
			case 4:
				j := i + r.Intn(min(20, len(b)-i))
				b = append(b[:i:i], b[j:]...)
			case 5:
				j := i + r.Intn(min(60, len(b)-i))
				b = append(b[:j:j], append(append([]byte(nil), b[i:j]...), b[j:]...)...)
			case 6: // swap or drop one bracket
				if k := bytes.IndexAny(b[i:], "{}()[]\"';:"); k >= 0 {
					b[i+k] = "{}()[]\"';:,"[r.Intn(11)]
				}
			}
		}
		return clipTo(string(b)), "mutated"
	}
}

// huge inputs: unbounded recursion shows only in megabytes, because stacks grow to a gigabyte.
// hugeValue makes a stylesheet with one value, name or condition of several hundred kilobytes.
func hugeValue(r *rand.Rand) string {
	n := 200_000 + r.Intn(300_000)
	u := pick(r, "a", "-", "\\\\", "\\a ", "é", "1", "a ", "var ", "var", "var(", "var(--x)", "var(--", "var(--x),", "--x", "#", "@", "#a", "a#", "\"\"", "''", "\"\\\"\"", "/**/", "/* ", "!", "! ", "! important ", "!important", "url(a)", "url()", "url(", "(", "()", "[]", " ", "\t", ",", "*/", "\\\"", "\\'", "\x00", "\x80", "U+1", "1e", ".", "+", "f(", "f()")
	if r.Intn(3) == 0 {
		u += pick(r, "a", "-", " ", "\"\"", "var(--x)", "!", ",", "\\61")
	}
	run := strings.Repeat(u, n/len(u))
	rest := ";top:0} .b{top:1} "
	switch r.Intn(10) {
	case 0:
		return ".a{--x:" + run + rest
	case 1:
		return ".a{--x:1;border:\"" + strings.NewReplacer("\"", "'", "\x00", "").Replace(run) + "\"" + rest
	case 2:
		return "@media " + run + "{.a{top:0}} .b{top:1}"
	case 3:
		return ".a[x=\"" + strings.NewReplacer("\"", "'", "\x00", "", "\\", "").Replace(run) + "\"]{color:red}.a{top:0}.b{top:1}"
	case 4:
		return ".a{--" + strings.Map(func(c rune) rune {
			if c < 0x80 && !strings.ContainsRune("abcdefuvrl-1", c) {
				return -1
			}
			return c
		}, run) + "x:1" + rest
	default:
		return ".a{" + pick(r, "color", "border", "--y", "x", "all") + ":" + run + pick(r, "", "!important", ")", "\"", "'") + rest
	}
}

func huge(r *rand.Rand) (string, string) {
	n := 1_000_000 + r.Intn(5_000_000)
	o := pick(r, ":not(", ":is(", ":where(", ":has(", ".a:not(.b", ":is(.a,", "@media print{", "@supports (a:b){", "@layer q{", "(", "[", "{", ".a>", ".a ", ".a,", ".a+", ".a", ".a{x:y}", ".a:hover,", "--x:{", ".a{color:var(", ".a{--x:[", "@media (", "a(", ":nth-child(2n of ", "calc(", ".a:not(.b) ", "a|", "*|")
	n /= len(o)
	s := pick(r, "", "", ".a{color:red}", ".a{color:") + strings.Repeat(o, n) + pick(r, "", ".b")
	if strings.ContainsAny(o, "([{") && r.Intn(3) > 0 {
		var rev []byte
		for i := len(o) - 1; i >= 0; i-- {
			rev = append(rev, closers[o[i]]...)
		}
		if strings.Count(o, "(") == strings.Count(o, ")") && strings.Count(o, "{") == strings.Count(o, "}") {
			rev = nil
		}
		s += strings.Repeat(string(rev), n)
	}
	return s + pick(r, "", "{color:red}", "}"), "huge"
}

func hostileList(r *rand.Rand, g *Gen, input string) string {
	words := strings.FieldsFunc(input, func(c rune) bool { return strings.ContainsRune(" \n\t\r\f{}.,;:>+~()[]#\"'", c) })
	var b strings.Builder
	switch r.Intn(6) {
	case 0:
		n := r.Intn(200)
		for i := 0; i < n; i++ {
			b.WriteByte(byte(r.Intn(256)))
		}
	case 1:
		b.WriteString(strings.Repeat(pick(r, " ", "a ", "a", "\t", "\x00 ", "é "), r.Intn(20000)))
	case 2:
		for i := 0; i < 2000; i++ {
			fmt.Fprintf(&b, "%s%d ", pick(r, "a", "p-", ""), r.Intn(3000))
		}
	default:
		for n := r.Intn(40); n > 0; n-- {
			if len(words) > 0 && r.Intn(2) == 0 {
				b.WriteString(words[r.Intn(len(words))])
			} else {
				b.WriteString(pick(r, append(append([]string(nil), g.A...), "a", "b", "z", "s1", "\xff", "!", ".a")...))
			}
			b.WriteString(pick(r, " ", " ", " ", "  ", "\n", "\t"))
		}
	}
	return b.String()
}

func init() {
	register(&Check{ID: "C14", Quick: 2400, Thorough: 60000,
		Rule: "hostile stylesheets (random bytes, token soup, deep nesting up to 64 KB, long runs, cut-off, spliced and mutated well-formed sheets; inline or not) are added to mergers and hostile strings merged; after each input, a probe stylesheet must be accepted and a merge of its classes must have the right result. Crashes, panics, hangs (CPU time) and unbounded memory are violations. Runs in eight processes, one input at a time. Non-trivial: an input that was accepted with at least one rule, or rejected after at least 20 bytes. A few inputs have megabytes, to exhaust the stack.",
		Min:  map[string]int{"accepted": 1000, "rejected": 1000, "hostile merges": 20000, "kind: deep nesting": 500},
		Run:  runC14})
}

func runC14(c *Case) {
	p := baseProfile()
	p.NA = 3 + c.Intn(5)
	p.Custom, p.Use, p.Circ = 0.2, 0.2, 1
	p.Junk = 0.3
	g := newGen(c.Rand, p)
	var cache merge.Cache
	if c.Idx%3 == 0 {
		cache = merge.NewCache()
	}
	m := merge.NewMerger(cache, c.Idx%2 == 0)
	max := 1500
	if c.Idx%10 == 0 {
		max = 20000
	}
	if c.Idx%50 == 7 {
		max = 64 << 10
		c.Count("cases with inputs up to 64 KB", 1)
	}
	n := 24
	if max > 1500 {
		n = 8
	}
	if c.Idx%60 == 33 {
		n = 4
	}
	if c.Idx%20 == 13 {
		in := hugeValue(c.Rand)
		m := merge.NewMerger(nil, true)
		c.Do(fmt.Sprintf("AddRules of a huge value: %q", clip(in, 300)))
		err := m.AddRules(strings.NewReader(in), false)
		c.Do(fmt.Sprintf("Merge after AddRules of a huge value: %q", clip(in, 300)))
		m.Merge("b a c")
		for _, r := range m.Rules() {
			_, _, _ = r.GetSelector(), r.GetCondition(), r.ToCssFormat()
		}
		c.Count(fmt.Sprint("huge values, accepted: ", err == nil), 1)
	}
	for k := 0; k < n; k++ {
		in, kind := hostile(c.Rand, g, max)
		if c.Idx%60 == 33 && k == 1 {
			in, kind = huge(c.Rand)
		}
		inline := c.Intn(6) == 0
		if kind == "huge" {
			c.current(map[string]any{"input": clip(in, 300), "kind": kind, "inline": inline})
		} else {
			c.current(map[string]any{"input": in, "kind": kind, "inline": inline})
		}
		c.Do(fmt.Sprintf("AddRules (%s, inline %v) of %q", kind, inline, clip(in, 3000)))
		before := len(m.Rules())
		err := m.AddRules(strings.NewReader(in), inline)
		if err == nil {
			c.Count("accepted", 1)
		} else {
			c.Count("rejected", 1)
		}
		c.Count("kind: "+kind, 1)
		c.Eval(err == nil && len(m.Rules()) > before || err != nil && len(in) >= 20, in)
		if k == 3 {
			c.Sample(map[string]any{"kind": kind, "input": fmt.Sprintf("%q", clip(in, 300)), "error": fmt.Sprint(err)})
		}
		for j := 0; j < 2; j++ {
			l := hostileList(c.Rand, g, in)
			if j == 0 && c.Intn(2) == 0 {
				l = "a b " + l // many of the hostile sheets have a rule for one of the two
			}
			c.current(map[string]any{"input": clip(in, 20000), "kind": kind, "inline": inline, "list": clip(l, 20000)})
			c.Do(fmt.Sprintf("Merge(%q) after AddRules (%s, inline %v) of %q", clip(l, 1500), kind, inline, clip(in, 2000)))
			m.Merge(l)
			c.Count("hostile merges", 1)
		}
		for name, r := range m.Rules() { // what the rule table shows can be printed
			_ = name
			_, _, _ = r.GetSelector(), r.GetCondition(), r.ToCssFormat()
		}
		probe := fmt.Sprintf(".zzprobe-%d-a { color: red } .zzprobe-%d-b { color: blue } @media print { .zzprobe-%d-c { color: blue } }", k, k, k)
		c.Do(fmt.Sprintf("AddRules of the probe after AddRules (%s, inline %v) of %q", kind, inline, clip(in, 3000)))
		if err := m.AddRules(strings.NewReader(probe), false); err != nil {
			c.Fail("a good stylesheet is rejected after a hostile one", map[string]any{"hostile": in, "inline": inline, "error": err.Error()})
		}
		list := fmt.Sprintf("zzprobe-%d-a zzprobe-%d-c zzprobe-%d-b zzunknown", k, k, k)
		want := fmt.Sprintf("zzprobe-%d-c zzprobe-%d-b zzunknown", k, k)
		got := m.Merge(list)
		if c.Idx%2 == 1 {
			if a, b := set(fields(got)), set(fields(want)); len(a) == 3 && len(b) == 3 {
				same := true
				for x := range a {
					same = same && b[x]
				}
				if same {
					got = want
				}
			}
		}
		if got != want {
			c.Fail("a good stylesheet works differently after a hostile one", map[string]any{"hostile": in, "inline": inline, "list": list, "want": want, "got": got})
		}
	}
}
