//go:build go1.22

package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"reflect"
	"regexp"
	"strings"

	"github.com/tylantz/go-tailwind-merge/internal/cascadia"
	"golang.org/x/net/html"
	"golang.org/x/net/html/atom"
)

func renderDoc(n *html.Node) string {
	var b bytes.Buffer
	if err := html.Render(&b, n); err != nil {
		return "unrenderable: " + err.Error()
	}
	return clip(b.String(), 6000)
}

// allNodes lists the nodes below n in document order, without recursion.
func allNodes(n *html.Node) []*html.Node {
	var out []*html.Node
	for c := n.FirstChild; c != nil; {
		out = append(out, c)
		if c.FirstChild != nil {
			c = c.FirstChild
			continue
		}
		for c != n && c.NextSibling == nil {
			c = c.Parent
		}
		if c == n {
			break
		}
		c = c.NextSibling
	}
	return out
}

func nodeText(n *html.Node) string {
	if n == nil {
		return "nothing"
	}
	s := fmt.Sprintf("type %d %q", n.Type, n.Data)
	for _, a := range n.Attr {
		s += fmt.Sprintf(" %s=%q", a.Key, a.Val)
	}
	return s
}

// oneDoc makes a document, sometimes one that went through the HTML parser, and a selector generator for it.
func oneDoc(r *rand.Rand, hostile bool) (*html.Node, *selGen) {
	d := newDocGen(r, hostile)
	doc := d.document()
	if !hostile && r.Intn(4) == 0 {
		var b bytes.Buffer
		if html.Render(&b, doc) == nil {
			if p, err := html.Parse(&b); err == nil {
				doc = p
			}
		}
	}
	g := &selGen{docGen: d, els: view(doc), enabled: !d.links, never: true, ext: r.Intn(3) == 0}
	return doc, g
}

func specOf(v [3]int) cascadia.Specificity { return cascadia.Specificity{v[0], v[1], v[2]} }

// compareMatches checks every node of the document against the oracle.
func compareMatches(c *Case, doc *html.Node, els []*el, grp []*complexSel, m cascadia.Matcher, detail func() map[string]any) int {
	want := map[*html.Node]bool{}
	for _, e := range els {
		for _, x := range grp {
			if x.match(e, nil) {
				want[e.node] = true
				break
			}
		}
	}
	for _, n := range append([]*html.Node{doc}, allNodes(doc)...) {
		if got := m.Match(n); got != want[n] {
			d := detail()
			d["node"], d["matches"], d["should match"], d["document"] = nodeText(n), got, want[n], renderDoc(doc)
			c.Fail("wrong match", d)
		}
	}
	return len(want)
}

func init() {
	register(&Check{
		ID: "C20", Quick: 120000, Thorough: 1500000,
		Rule: "A random HTML tree (built directly or through the HTML parser) and 8 random selector lists in random layout, mostly made to fit some element; every node's Match, and QueryAll, against an independent matcher. Non-trivial: some but not all elements match.",
		Min:  map[string]int{"selectors that match some elements": 60000, "matching elements": 100000},
		Run: func(c *Case) {
			r := c.Rand
			if c.Idx == 0 {
				knownWhitespaceValues(c)
			}
			hostile := r.Intn(4) == 0
			doc, g := oneDoc(r, hostile)
			found := map[string]bool{}
			all := map[string]bool{}
			matched, some := 0, 0
			for k := 0; k < 8; k++ {
				grp := g.group(2)
				text := selString(r, grp, pick(r, 0, 0.02, 0.1, 0.5))
				c.Do("selector " + text)
				sel, err := cascadia.ParseGroup(text)
				if err != nil {
					c.Fail("selector rejected", map[string]any{"selector": text, "error": err.Error()})
				}
				detail := func() map[string]any {
					return map[string]any{"selector": text, "plain": selString(r, grp, 0)}
				}
				n := compareMatches(c, doc, g.els, grp, sel, detail)
				if n2 := len(cascadia.QueryAll(doc, sel)); n2 != n {
					d := detail()
					d["QueryAll found"], d["should be"], d["document"] = n2, n, renderDoc(doc)
					c.Fail("wrong number of matches", d)
				}
				if len(grp) == 1 {
					one, err := cascadia.Parse(text)
					if err != nil {
						c.Fail("selector rejected", map[string]any{"selector": text, "error": err.Error()})
					}
					compareMatches(c, doc, g.els, grp, one, detail)
				}
				c.Eval(n > 0 && n < len(g.els), text, fmt.Sprint(c.Idx))
				features(grp, all)
				if n > 0 && n < len(g.els) {
					some++
					features(grp, found)
				}
				matched += n
				c.Sample(map[string]any{"selector": text, "elements": len(g.els), "matching": n})
			}
			c.Count("elements", len(g.els))
			c.Count("matching elements", matched)
			c.Count("selectors that match some elements", some)
			for f := range found {
				c.Count("matched with "+f, 1)
			}
			for f := range all {
				c.Count("selectors with "+f, 1)
			}
		},
	})

	register(&Check{
		ID: "C21", Quick: 100000, Thorough: 800000,
		Rule: "Random accepted selectors with hostile names, values and arguments (and, for one case in eight, random edits of them): the printed text must be accepted, print the same, keep specificity and pseudo-element, and match the same nodes, on documents made of the same names and values, as the original and as the independent matcher says. Non-trivial: the selector matches something or contains an escape.",
		Min:  map[string]int{"round trips": 60000, "reparsed selectors that match": 20000},
		Run: func(c *Case) {
			r := c.Rand
			doc, g := oneDoc(r, r.Intn(5) > 0)
			g.ext = true
			g.pes = true
			for k := 0; k < 6; k++ {
				g.dynamic = r.Intn(3) == 0
				grp := g.group(2)
				text := selString(r, grp, pick(r, 0, 0.05, 0.3, 0.7))
				if c.Idx%8 == 7 {
					text, grp = edit(r, text), nil
				}
				roundTrip(c, text, grp, doc, g)
			}
		},
	})

	register(&Check{
		ID: "C22", Quick: 100000, Thorough: 2000000,
		Rule: "Random selectors (nested lists, pseudo-elements, many parts) with the specificity counted over their parts by the harness; the printed form too; and random triples of specificities for the laws of Less and Add. Non-trivial: nested list or more than one component.",
		Min:  map[string]int{"selectors": 80000, "selectors with lists": 15000, "pairs compared": 100000},
		Run: func(c *Case) {
			r := c.Rand
			d := newDocGen(r, r.Intn(5) == 0)
			g := &selGen{docGen: d, enabled: true, ext: r.Intn(3) == 0, dynamic: r.Intn(3) == 0}
			var specs []cascadia.Specificity
			for k := 0; k < 3; k++ {
				grp := g.group(4)
				if k == 2 && r.Intn(4) == 0 { // many parts
					x := grp[0]
					n := pick(r, 10, 100, 300)
					for i := 0; i < n; i++ {
						y := g.complex(nil, 1)
						x.combs = append(append(x.combs, ' '), y.combs...)
						x.parts = append(x.parts, y.parts...)
					}
					if r.Intn(2) == 0 {
						p := &x.parts[r.Intn(len(x.parts))]
						for i := 0; i < n; i++ {
							p.simples = append(p.simples, simple{kind: pick(r, "class", "id"), name: pick(r, d.classes...)})
						}
					}
				}
				for _, x := range grp {
					if r.Intn(4) == 0 {
						x.parts[len(x.parts)-1].pe = pick(r, append(vendorPEs, standardPEs...)...)
					}
				}
				text := selString(r, grp, pick(r, 0, 0.1))
				c.Do("specificity of " + text)
				sels, err := cascadia.ParseGroupWithPseudoElements(text)
				if err != nil || len(sels) != len(grp) {
					c.Fail("selector rejected", map[string]any{"selector": text, "error": fmt.Sprint(err), "members": len(sels)})
				}
				for i, x := range grp {
					want := specOf(x.spec())
					got := sels[i].Specificity()
					if got != want {
						c.Fail("wrong specificity", map[string]any{"list": text, "selector": clip(selString(r, grp[i:i+1], 0), 4000), "got": got, "want": want})
					}
					if got != sels[i].Specificity() {
						c.Fail("specificity changes", map[string]any{"selector": text})
					}
					one, err := cascadia.ParseWithPseudoElement(selString(r, grp[i:i+1], 0))
					if err != nil || one.Specificity() != want {
						c.Fail("wrong specificity", map[string]any{"selector": selString(r, grp[i:i+1], 0), "error": fmt.Sprint(err), "want": want})
					}
					specs = append(specs, got)
					m := map[string]bool{}
					features(grp[i:i+1], m)
					list := m[":is"] || m[":not"] || m[":has"] || m[":where"]
					c.Count("selectors", 1)
					if list {
						c.Count("selectors with lists", 1)
					}
					if x.parts[len(x.parts)-1].pe != "" {
						c.Count("selectors with pseudo-elements", 1)
					}
					c.Eval(list || want[0]+want[1]+want[2] > 1, text, fmt.Sprint(i))
				}
				c.Sample(map[string]any{"selector": clip(text, 300), "specificity": sels[0].Specificity()})
			}
			num := func() int { return pick(r, 0, 0, 1, 1, 2, 3, r.Intn(20), 255, 256, 257, 65535, 65536, r.Intn(1<<30)) }
			for k := 0; k < 4; k++ {
				specs = append(specs, cascadia.Specificity{num(), num(), num()})
			}
			cmp := func(a, b cascadia.Specificity) int {
				for i := 0; i < 3; i++ {
					if a[i] != b[i] {
						if a[i] < b[i] {
							return -1
						}
						return 1
					}
				}
				return 0
			}
			for k := 0; k < 12; k++ {
				a, b := pick(r, specs...), pick(r, specs...)
				a0, b0 := a, b
				if a.Less(b) != (cmp(a, b) < 0) || b.Less(a) != (cmp(a, b) > 0) {
					c.Fail("wrong order", map[string]any{"a": a, "b": b, "a<b": a.Less(b), "b<a": b.Less(a)})
				}
				sum := a.Add(b)
				if sum != (cascadia.Specificity{a[0] + b[0], a[1] + b[1], a[2] + b[2]}) || a != a0 || b != b0 {
					c.Fail("wrong sum", map[string]any{"a": a0, "b": b0, "sum": sum})
				}
				c.Count("pairs compared", 1)
				if a != b {
					c.Count("distinct pairs compared", 1)
				}
			}
		},
	})

	register(&Check{
		ID: "C23", Quick: 24000, Thorough: 1500000,
		Rule: "Grammatical selectors must be accepted by the four entry points exactly as their pseudo-elements and number of members allow; structural corruptions of them and texts of a list of invalid forms must be rejected by all four; any other string must return. Non-trivial: each text judged.",
		Min:  map[string]int{"accepted": 60000, "corruptions rejected": 60000, "pseudo-elements refused": 5000, "arbitrary strings": 40000},
		Run:  runC23,
	})

	register(&Check{
		ID: "C24", Quick: 80000, Thorough: 600000,
		Rule: "Random trees, start nodes and selector lists or arbitrary matchers: QueryAll, Query, Filter and list Match against an independent, non-recursive walk, with a snapshot of the tree compared afterwards; some trees are very deep or wide. Non-trivial: more than one node is found.",
		Min:  map[string]int{"searches": 60000, "nodes found": 150000, "searches below inner nodes": 20000, "searches without result": 5000},
		Run:  runC24,
	})
}

// knownWhitespaceValues watches the one deviation that the existing tests fix in place (see known_findings.txt).
func knownWhitespaceValues(c *Case) {
	for _, op := range []string{"^=", "$=", "*="} {
		n := &html.Node{Type: html.ElementNode, Data: "p", Attr: []html.Attribute{{Key: "title", Val: " "}}}
		text := "[title" + op + `" "]`
		sel, err := cascadia.Parse(text)
		if err != nil {
			c.Fail("selector rejected", map[string]any{"selector": text, "error": err.Error()})
		}
		if !sel.Match(n) {
			c.Known("white-space-only attribute value: "+text+` does not match <p title=" ">`, map[string]any{"selector": text, "document": `<p title=" ">`, "matches": false, "should match": true})
		}
	}
}

// edit makes a random small change to a text.
func edit(r *rand.Rand, s string) string {
	for k := 1 + r.Intn(3); k > 0; k-- {
		if s == "" {
			return pick(r, cssBits...)
		}
		i := r.Intn(len(s) + 1)
		switch r.Intn(4) {
		case 0:
			s = s[:i] + pick(r, cssBits...) + s[i:]
		case 1:
			j := i + r.Intn(4)
			if j > len(s) {
				j = len(s)
			}
			s = s[:i] + s[j:]
		case 2:
			j := r.Intn(len(s) + 1)
			if i > j {
				i, j = j, i
			}
			s = s[:i] + s[i:j] + s[i:]
		default:
			s = s[:i] + string(genRune(r)) + s[i:]
		}
	}
	if len(s) > 4000 {
		s = s[:4000]
	}
	return s
}

func roundTrip(c *Case, text string, grp []*complexSel, doc *html.Node, g *selGen) {
	r := c.Rand
	if grp == nil && strings.Contains(text, "/*") && (strings.Contains(text, "#=") || strings.Contains(strings.ToLower(text), "matches")) {
		return // a regular expression that starts with the start of a comment is left open
	}
	c.Do("round trip of " + text)
	sels, err := cascadia.ParseGroupWithPseudoElements(text)
	if err != nil {
		if grp != nil {
			c.Fail("selector rejected", map[string]any{"selector": text, "error": err.Error()})
		}
		return
	}
	printed := sels.String()
	again, err := cascadia.ParseGroupWithPseudoElements(printed)
	detail := func(more ...any) map[string]any {
		d := map[string]any{"selector": text, "printed": printed}
		for i := 0; i+1 < len(more); i += 2 {
			d[fmt.Sprint(more[i])] = more[i+1]
		}
		return d
	}
	if err != nil {
		c.Fail("printed selector rejected", detail("error", err.Error()))
	}
	if len(again) != len(sels) {
		c.Fail("another number of members", detail("members", len(sels), "after", len(again)))
	}
	if p := again.String(); p != printed {
		c.Fail("prints differently", detail("again", p))
	}
	different := !reflect.DeepEqual(sels, again)
	matched := 0
	for i, s := range sels {
		p := s.String()
		one, err := cascadia.ParseWithPseudoElement(p)
		if err != nil {
			c.Fail("printed selector rejected", detail("member", p, "error", err.Error()))
		}
		for _, a := range []cascadia.Sel{again[i], one} {
			if a.Specificity() != s.Specificity() || a.PseudoElement() != s.PseudoElement() || a.String() != p {
				c.Fail("another selector", detail("member", p, "after", a.String(), "specificity", s.Specificity(), "specificity after", a.Specificity(),
					"pseudo-element", s.PseudoElement(), "pseudo-element after", a.PseudoElement()))
			}
		}
		if want := ""; grp != nil {
			if want = grp[i].parts[len(grp[i].parts)-1].pe; s.PseudoElement() != want && !contains(vendorPEs, want) {
				c.Fail("wrong pseudo-element", detail("got", s.PseudoElement(), "member", p))
			}
		}
		if ga, gb := shape(s), shape(again[i]); ga != gb {
			c.Fail("another structure", detail("structure", ga, "after", gb))
		}
	}
	docs := []*html.Node{doc}
	if different {
		// structurally different: look harder for a document that tells the two apart
		for k := 0; k < 40; k++ {
			d := *g.docGen
			d.left = 30
			docs = append(docs, d.document())
		}
		c.Count("reparsed selectors of another internal structure", 1)
	}
	checkable := grp != nil && !usesDynamic(grp)
	for _, d := range docs {
		for i, s := range sels {
			for _, n := range allNodes(d) {
				was, is := s.Match(n), again[i].Match(n)
				if was != is {
					c.Fail("matches other elements", detail("member", s.String(), "node", nodeText(n), "matched", was, "matches", is))
				}
				if is {
					matched++
				}
			}
			if checkable {
				compareMatches(c, d, view(d), grp[i:i+1], again[i], func() map[string]any { return detail("member", s.String()) })
			}
		}
	}
	if grp == nil {
		c.Count("edited texts accepted", 1)
	}
	c.Count("round trips", 1)
	if matched > 0 {
		c.Count("reparsed selectors that match", 1)
	}
	if strings.Contains(printed, "\\") {
		c.Count("printed texts with escapes", 1)
	}
	c.Eval(matched > 0 || strings.Contains(printed, "\\"), text)
	_ = r
	c.Sample(map[string]any{"selector": text, "printed": printed})
}

func usesDynamic(g []*complexSel) bool {
	for _, x := range g {
		if contains(vendorPEs, x.parts[len(x.parts)-1].pe) {
			return true
		}
	}
	m := map[string]bool{}
	features(g, m)
	for _, p := range dynamicPseudo {
		if m[":"+p] {
			return true
		}
	}
	return false
}

// shape describes a selector through its exported accessors.
func shape(s cascadia.Sel) string {
	switch t := s.(type) {
	case cascadia.CombinedSelector:
		return "(" + shape(t.First()) + " then " + shape(t.Second()) + ")"
	case cascadia.CompoundSelector:
		return "[" + shapes(t.Selectors()) + "|" + t.PseudoElement() + "]"
	case cascadia.IsPseudoClassSelector:
		return "is{" + shapes(t.Selectors()) + "}"
	case cascadia.WherePseudoClassSelector:
		return "where{" + shapes(t.Selectors()) + "}"
	case cascadia.ClassSelector:
		return fmt.Sprintf("class%q", t.Class)
	}
	return fmt.Sprintf("%T", s)
}

func shapes(l []cascadia.Sel) string {
	var out []string
	for _, s := range l {
		out = append(out, shape(s))
	}
	return strings.Join(out, "&")
}

// ---- C23 ----

type entry struct {
	name  string
	pe    bool
	group bool
	f     func(string) (bool, error) // whether there is a result
}

var entries = []entry{
	{"Parse", false, false, func(s string) (bool, error) { x, err := cascadia.Parse(s); return x != nil, err }},
	{"ParseWithPseudoElement", true, false, func(s string) (bool, error) { x, err := cascadia.ParseWithPseudoElement(s); return x != nil, err }},
	{"ParseGroup", false, true, func(s string) (bool, error) { x, err := cascadia.ParseGroup(s); return len(x) > 0, err }},
	{"ParseGroupWithPseudoElements", true, true, func(s string) (bool, error) {
		x, err := cascadia.ParseGroupWithPseudoElements(s)
		return len(x) > 0, err
	}},
}

var badTexts = []string{"", " ", "\t\n", "/* c */", ",", "a,", ",a", "a,,b", "a, ,b", ">", "a >", "a ~ ", "+", "a > > b", "a + + b", "a ~ > b", "a >, b", "> a", "+ a", "~ a, b",
	".", "#", "a.", "a#", "..a", ".#a", "##a", "a:", "a::", ":", "::", ":::before", "[", "[a", "[a=", "[a=b", "[a=\"b", "[a=\"b\"", "[a=]", "[]", "[ ]", "[=b]", "[a b]", "[a=b c]", "[a=b i i]",
	"[a@=b]", "[a==b]", "[a=b]]", "]", ")", "(", "{", "}", "a)", "a(b)", "(a)", "a{", "a}", "a;b", "a!b", "a@b", "a$b", "a%b", "a&b", "a=b", "a?b", "a^b", "a/b", "a\"b", "a'b'", "\"a\"", "a|", "**", "a*", "* *|",
	".1a", ".-1", "1", "1a", "-1", ".5", "a.1", "-", "a -", ". a", "# a", "a. b", ": hover", "a: hover", ":: before", "a::before:hover.x::after", "::before::after", "::beforex", "::hover", "::not(a)", "::nth-child(1)",
	":not", ":not()", ":not( )", ":not(", ":not(a", ":not(a,)", ":not(,a)", ":not(a b", ":has()", ":is", ":where", ":where(", ":is(a))", ":not a", ":nth-child", ":nth-child()", ":nth-child( )", ":nth-child(a)", ":nth-child(2n+)", ":nth-child(2n-)",
	":nth-child(+ 2n)", ":nth-child(- n)", ":nth-child(2 n)", ":nth-child(n 1)", ":nth-child(2n 1)", ":nth-child(2n+1", ":nth-child(2n + + 1)", ":nth-child(2n+-1)", ":nth-child(--1)", ":nth-child(+)", ":nth-child(-)", ":nth-child(1 2)", ":nth-child(1,2)",
	":nth-child(1.5)", ":nth-child(odd even)", ":nth-child(oddx)", ":nth-child(2m)", ":nth-of-type(n+x)", ":nth-last-child(\"1\")", ":lang", ":lang()", ":lang(", ":lang(en", ":lang(en fr)", ":lang(1)", ":unknown", ":unknown(a)", ":first-child()", ":hover()", ":empty(a)",
	":contains", ":contains(", ":contains()", ":contains(a b)", ":contains(\"a)", ":contains('a' 'b')", ":matches(", ":matches(()", ":matches([)", ":matches(*)", "[a#=(]", "[a#=*]", "a\\\nb", ".a\\\n", "\\", "[a='b\nc']", "a ! b", "a || b", "a >> b", "a >>> b", "a /deep/ b", "<a>", "a <!-- b",
	"@media", "@a", "&", "& a", "a &", ".a{}", ".a/*", "a /* b", "*/ a", ":not(a{)", ":is(a;b)", ":not(a>)", ":not(>a)", ":is(>a)", ":has(a >)", ":not(a,,b)", ":not(::before:hover)", ".a)b", "a,b)", "a]", ".a[b]c", ".a*", "[a]*", "#a*", ":hover*", "[a]b", ":not(a)b", ".a:not(b)c"}

func judge(c *Case, text string, want func(e entry) (accept bool), why string) {
	c.Do("parse " + text)
	for _, e := range entries {
		ok, err := e.f(text)
		if ok && err != nil || !ok && err == nil {
			c.Fail("neither result nor error, or both", map[string]any{"text": text, "entry": e.name, "error": fmt.Sprint(err), "result": ok})
		}
		if want == nil {
			continue
		}
		if acc := want(e); acc != ok {
			k := "rejected although grammatical"
			if !acc {
				k = "accepted although " + why
			}
			c.Fail(k, map[string]any{"text": text, "entry": e.name, "error": fmt.Sprint(err)})
		}
	}
}

// byGrammar judges a text by the independent recogniser of the grammar.
func byGrammar(c *Case, text string) {
	c.Do("parse " + text)
	all := [3]bool{}
	for _, e := range entries {
		ok, err := e.f(text)
		if ok != (err == nil) {
			c.Fail("neither result nor error, or both", map[string]any{"text": text, "entry": e.name, "error": fmt.Sprint(err), "result": ok})
		}
		v := recognise(text, e.pe, e.group)
		all[v] = true
		if v != open && ok != (v == valid) {
			k := "rejected although grammatical"
			if ok {
				k = "accepted although no grammar allows it"
			}
			c.Fail(k, map[string]any{"text": text, "entry": e.name, "error": fmt.Sprint(err)})
		}
	}
	for v, n := range []string{"edited texts without a grammar", "edited texts with a grammar", "edited texts left open"} {
		if all[v] {
			c.Count(n, 1)
		}
	}
	c.Eval(all[invalid] || all[valid], text)
}

func hasPE(g []*complexSel) bool {
	for _, c := range g {
		for _, p := range c.parts {
			if p.pe != "" {
				return true
			}
			for _, s := range p.simples {
				if hasPE(s.list) {
					return true
				}
			}
		}
	}
	return false
}

func never(entry) bool { return false }

func runC23(c *Case) {
	r := c.Rand
	d := newDocGen(r, r.Intn(2) == 0)
	g := &selGen{docGen: d, enabled: true, ext: r.Intn(2) == 0, dynamic: true, pes: r.Intn(2) == 0}
	for k := 0; k < 4; k++ {
		grp := g.group(3)
		if r.Intn(20) == 0 { // deeply nested
			x := grp[0]
			for n := pick(r, 5, 30, 100); n > 0; n-- {
				x = &complexSel{parts: []compound{{simples: []simple{{kind: "list", name: pick(r, "is", "not", "where", "has"), list: []*complexSel{x}}}}}}
			}
			grp[0] = x
		}
		if r.Intn(20) == 0 { // long
			for n := pick(r, 20, 200, 1000); n > 0; n-- {
				grp[0].parts = append([]compound{{simples: []simple{{kind: "class", name: pick(r, d.classes...)}}}}, grp[0].parts...)
				grp[0].combs = append([]byte{pick(r, byte(' '), '>', '+', '~')}, grp[0].combs...)
			}
		}
		text := selString(r, grp, pick(r, 0, 0.1, 0.4))
		pe := hasPE(grp)
		nested := false // inside an argument, pseudo-elements are not specified
		for _, x := range grp {
			for _, p := range x.parts {
				for _, s := range p.simples {
					nested = nested || hasPE(s.list)
				}
			}
			for _, p := range x.parts[:len(x.parts)-1] {
				nested = nested || p.pe != ""
			}
		}
		if nested {
			judge(c, text, nil, "")
		} else {
			judge(c, text, func(e entry) bool { return (e.pe || !pe) && (e.group || len(grp) == 1) }, "it has a pseudo-element or several members that this entry point does not take")
			c.Count("accepted", 1)
			if pe {
				c.Count("pseudo-elements refused", 1)
			}
			c.Eval(true, text)
		}
		if len(text) > 3000 {
			continue
		}
		for j := 0; j < 2; j++ {
			bad, how := corrupt(r, g)
			judge(c, bad, never, how)
			c.Count("corruptions rejected", 1)
			c.Count("corruption: "+how, 1)
			c.Eval(true, bad)
			c.Sample(map[string]any{"text": clip(bad, 300), "corruption": how})
		}
		for j := 0; j < 4; j++ {
			t := editSelector(r, text)
			switch {
			case j == 2:
				t = edit(r, text)
			case j == 3:
				t = hostileText(r)
			}
			byGrammar(c, t)
		}
		byGrammar(c, text)
		c.Count("arbitrary strings", 4)
	}
	bad := pick(r, badTexts...)
	judge(c, bad, never, "invalid")
	good := selString(r, g.group(1), 0.05)
	if !strings.ContainsAny(bad, "'\"\\*/") && !hasPERe.MatchString(good) { // still invalid after a comma
		t := good + "," + bad
		judge(c, t, never, "a member is invalid")
		c.Count("corruption: invalid member", 1)
	}
	c.Count("corruptions rejected", 2)
	if c.Idx == 1 {
		for _, b := range badTexts {
			judge(c, b, never, "invalid")
		}
	}
}

var hasPERe = regexp.MustCompile(`(?i):(:|before|after|first-l)`)

func hostileText(r *rand.Rand) string {
	var b strings.Builder
	for n := r.Intn(20); n >= 0; n-- {
		switch r.Intn(4) {
		case 0:
			b.WriteByte(byte(r.Intn(256)))
		case 1:
			b.WriteRune(genRune(r))
		default:
			b.WriteString(pick(r, cssBits...))
		}
	}
	return b.String()
}

// corrupt makes a text that no selector grammar allows, by breaking a grammatical one in a known way.
func corrupt(r *rand.Rand, g *selGen) (string, string) {
	grp := g.group(2)
	vary := pick(r, 0, 0.1)
	one := func(c *complexSel) string { return selString(r, []*complexSel{c}, vary) }
	var parts []string
	for _, c := range grp {
		parts = append(parts, one(c))
	}
	i := r.Intn(len(parts))
	ws := func() string { return pick(r, "", " ", "\n", " \t", "/**/", " /*x*/ ") }
	join := func() string { return strings.Join(parts, pick(r, ",", ", ", " ,\n")) }
	comb := func() string { return pick(r, ">", "+", "~") }
	simple1 := func() string {
		return one(&complexSel{parts: []compound{{simples: []simple{{kind: "class", name: pick(r, g.classes...)}}}}})
	}
	switch r.Intn(16) {
	case 14:
		pe := pick(r, "::before", "::after", ":before", ":after", "::first-line", ":first-letter", "::placeholder", "::selection", "::backdrop")
		if r.Intn(2) == 0 {
			return simple1() + pe + pick(r, pe, pe, "::"+strings.Trim(pe, ":"), "::before", ":after", "::BEFORE", "::first-line"), "two pseudo-elements"
		}
		return strings.TrimRight(simple1(), " \t\r\n\f") + pe + pick(r, ".a", "#a", "[title]", "[a=b]", "p", "*"), "simple selector after a pseudo-element"
	case 15:
		return simple1() + pick(r, "", " ") + pick(r, "/*", "/*/", "/* x", "/* *\\/", "/* * /", "/**/ /*", "/*x*//*") + pick(r, "", " ", " .a", ".b > c", " p, b"), "unclosed comment"
	case 0:
		parts[i] = parts[i] + ws() + comb() + ws()
		return join(), "dangling combinator at the end"
	case 1:
		parts[i] = ws() + comb() + ws() + parts[i]
		return join(), "dangling combinator at the start"
	case 2:
		parts[i] = simple1() + ws() + comb() + ws() + comb() + ws() + simple1()
		return join(), "doubled combinator"
	case 3:
		parts = append(parts[:i:i], append([]string{ws()}, parts[i:]...)...)
		return join(), "empty list member"
	case 4:
		return join() + ws() + "," + ws(), "trailing comma"
	case 5:
		name := pick(r, ":not(", ":is(", ":where(", ":has(", ":NOT(")
		return simple1() + name + join() + ws(), "unclosed parenthesis"
	case 6:
		return join() + pick(r, ")", "]", "}", " )", " ]") + pick(r, "", simple1()), "unopened bracket"
	case 7:
		q := pick(r, "\"", "'")
		return join() + "[title=" + q + pick(r, "", "a", "a b", "x]", "\\"+q) + pick(r, "", "]"), "unclosed quotes"
	case 8:
		t := "[" + pick(r, "title", "a", "data-x") + pick(r, "", "=a", "=\"a\"", "~=b", "*='q' i")
		return join() + t, "unclosed attribute brackets"
	case 9:
		n := pick(r, "2n+", "2n-", "+ 2n", "- 2n", "2 n", "n 1", "2n 1", "", "x", "2x", "1 1", "+-1", "--2", "2n++1", "2n+-1", "oddly", "even 1", "1,2", "2n+a", "\"1\"", "1.5", "n+1n", "n n", "+", "-", "2n + 1 + 1", "*")
		return ":" + pick(r, "nth-child", "nth-last-child", "nth-of-type", "nth-last-of-type") + "(" + n + ")" + pick(r, "", simple1()), "bad an+b"
	case 10:
		return simple1() + pick(r, "{", "}", ";", "!", "@", "$", "%", "&", "=", "?", "^", "`", "|x|", "<") + pick(r, "", "a", simple1()), "trailing garbage"
	case 11:
		name := pick(r, ":not(", ":is(", ":where(", ":has(")
		return name + ws() + pick(r, "", simple1()+",", ","+simple1(), simple1()+",,"+simple1(), simple1()+comb(), comb()+comb()+simple1()) + ws() + ")", "broken argument"
	case 12:
		return join() + pick(r, ".", "#", ":", "::", ".#x", ":.x", "..x", "##x", ".(", ". x", "# x", ": not(a)") + ws(), "empty name"
	default:
		t := pick(r, "[title", "[a", "[data-x") + pick(r, " b]", "@=b]", "!b]", "=]", "=b c]", "=b i i]", "=b c i]", "=\"a\"\"b\"]", "=\"a\"x]", "==b]", "~b]", "~=]", "^]", "=b=c]", "|]", "=,]", "=b,c]", "=#x]", "=1]", "=(b)]", ".x]", ":x]", "[b]]")
		return join() + t, "bad attribute selector"
	}
}

// ---- C24 ----

type matchFunc func(*html.Node) bool

func (f matchFunc) Match(n *html.Node) bool { return f(n) }

type nodeShot struct {
	n, parent, first, last, prev, next *html.Node
	typ                                html.NodeType
	data, ns                           string
	attrs                              string
}

func treeShot(top *html.Node) []nodeShot {
	var out []nodeShot
	for _, n := range append([]*html.Node{top}, allNodes(top)...) {
		out = append(out, nodeShot{n, n.Parent, n.FirstChild, n.LastChild, n.PrevSibling, n.NextSibling, n.Type, n.Data, n.Namespace, fmt.Sprint(n.DataAtom, n.Attr)})
	}
	return out
}

func runC24(c *Case) {
	r := c.Rand
	doc, g := oneDoc(r, r.Intn(6) == 0)
	if r.Intn(5) == 0 { // the search looks into all elements, whatever they are called
		for _, e := range g.els {
			if n := e.node; n.Namespace == "" && r.Intn(3) == 0 {
				n.Data = pick(r, "template", "noscript", "script", "style", "head", "iframe", "svg", "x-slot", "title")
				n.DataAtom = atom.Lookup([]byte(n.Data))
			}
		}
	}
	top := doc
	big := c.Idx%600 == 5
	if big { // very deep or very wide
		top = &html.Node{Type: html.ElementNode, Data: "div"}
		cur := top
		n := pick(r, 2000, 20000, 100000)
		deep := r.Intn(2) == 0
		for i := 0; i < n; i++ {
			x := &html.Node{Type: html.ElementNode, Data: pick(r, "p", "b"), Attr: []html.Attribute{{Key: "id", Val: fmt.Sprint(i)}}}
			cur.AppendChild(x)
			if deep {
				cur = x
			}
		}
	} else if r.Intn(4) == 0 { // a detached subtree
		e := pick(r, g.els...).node
		if e.Parent != nil {
			e.Parent.RemoveChild(e)
		}
		top = e
	}
	nodes := append([]*html.Node{top}, allNodes(top)...)
	before := treeShot(top)
	for k := 0; k < 6; k++ {
		var m cascadia.Matcher
		var what string
		var members []cascadia.Sel
		switch {
		case big && k > 0:
			return
		case big || r.Intn(4) == 0:
			mod, rest := 1+r.Intn(7), r.Intn(3)
			pos := map[*html.Node]int{}
			for i, n := range nodes {
				pos[n] = i
			}
			if r.Intn(8) == 0 {
				mod, rest = len(nodes)+1, len(nodes)-1 // the last node only
			}
			m = matchFunc(func(n *html.Node) bool { return pos[n]%mod == rest })
			what = fmt.Sprintf("nodes %d mod %d", rest, mod)
		default:
			g.pes = r.Intn(4) == 0
			grp := g.group(1)
			what = selString(r, grp, 0.05)
			sel, err := cascadia.ParseGroupWithPseudoElements(what)
			if err != nil {
				c.Fail("selector rejected", map[string]any{"selector": what, "error": err.Error()})
			}
			m, members = sel, sel
		}
		start := top
		if r.Intn(2) == 0 && !big {
			for try := 0; try < 5; try++ {
				if start = pick(r, nodes...); start.FirstChild != nil && start.FirstChild.NextSibling != nil {
					break
				}
			}
			c.Count("searches below inner nodes", 1)
		}
		c.Do("query " + what)
		below := allNodes(start)
		var want []*html.Node
		for _, n := range below {
			ok := false
			if members != nil {
				for _, s := range members {
					ok = ok || s.Match(n)
				}
				if got := m.Match(n); got != ok {
					c.Fail("a list is not the union of its members", map[string]any{"selector": what, "node": nodeText(n), "list matches": got})
				}
			} else {
				ok = m.Match(n)
			}
			if ok {
				want = append(want, n)
			}
		}
		fail := func(kind string, got any) {
			var w []string
			for _, n := range want {
				w = append(w, nodeText(n))
			}
			c.Fail(kind, map[string]any{"selector": what, "start": nodeText(start), "got": got, "want": clip(strings.Join(w, "; "), 3000), "document": renderDoc(top)})
		}
		got := cascadia.QueryAll(start, m)
		if len(got) != len(want) {
			fail("wrong number of results", len(got))
		}
		for i := range got {
			if got[i] != want[i] {
				fail("wrong result or order", fmt.Sprintf("result %d is %s", i, nodeText(got[i])))
			}
		}
		var first *html.Node
		if len(want) > 0 {
			first = want[0]
		} else {
			c.Count("searches without result", 1)
		}
		if one := cascadia.Query(start, m); one != first {
			fail("Query does not return the first match", nodeText(one))
		}
		some := append([]*html.Node{}, below...)
		r.Shuffle(len(some), func(i, j int) { some[i], some[j] = some[j], some[i] })
		if len(some) > 3 {
			some = append(some[:len(some)/2], some[0])
		}
		var wantF []*html.Node
		for _, n := range some {
			if m.Match(n) {
				wantF = append(wantF, n)
			}
		}
		kept := append([]*html.Node{}, some...)
		gotF := cascadia.Filter(some, m)
		if fmt.Sprint(gotF) != fmt.Sprint(wantF) {
			fail("Filter keeps other nodes", fmt.Sprintf("%d nodes instead of %d", len(gotF), len(wantF)))
		}
		if fmt.Sprint(kept) != fmt.Sprint(some) {
			fail("Filter changes its argument", len(some))
		}
		// a result belongs to its caller
		for i := range got {
			got[i] = nil
		}
		got = append(got, nil, nil)
		if again := cascadia.QueryAll(start, m); len(again) != len(want) {
			fail("a second search finds something else", len(again))
		}
		_ = got
		c.Count("searches", 1)
		c.Count("nodes found", len(want))
		c.Eval(len(want) > 1, what, fmt.Sprint(c.Idx, k))
		c.Sample(map[string]any{"selector": what, "nodes": len(below), "found": len(want)})
	}
	after := treeShot(top)
	if !reflect.DeepEqual(before, after) {
		c.Fail("a search changed the tree", map[string]any{"document": renderDoc(top)})
	}
}
