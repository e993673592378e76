//go:build go1.22

package main

import (
	"fmt"
	"math/rand"
	"strings"

	"github.com/tylantz/go-tailwind-merge/internal/cascadia"
	"golang.org/x/net/html"
	"golang.org/x/net/html/atom"
)

// ---- C27: compiled selectors keep no memory of what they were used for ----

func init() {
	register(&Check{
		ID: "C27", Quick: 16000, Thorough: 300000,
		Rule: "Two random documents and 6 to 10 selectors that are parsed once and used through a random history of matches, searches, prints and further parses, interleaved with edits of the documents (attributes, texts, names, moved, removed, inserted and swapped nodes); after every edit each answer must be the one the model gives for the tree as it is now. At the end several goroutines use the same selectors at once.",
		Min:  map[string]int{"edits": 60000, "answers after an edit": 1000000, "changed answers": 25000, "probes": 100000, "concurrent answers": 150000},
		Run:  runC27,
	})
}

type liveDoc struct {
	doc   *html.Node
	g     *selGen
	spare []*html.Node // removed subtrees
}

type liveSel struct {
	text, printed string
	grp           []*complexSel
	of            int // made to fit this document
	m             cascadia.Matcher
	list          cascadia.SelectorGroup
	spec          string
}

func (s *liveSel) show() (printed, spec string) {
	var p, q []string
	for _, x := range s.list {
		p = append(p, x.String())
		q = append(q, fmt.Sprint(x.Specificity(), x.PseudoElement()))
	}
	return strings.Join(p, ", "), strings.Join(q, " ")
}

func holds(n, x *html.Node) bool { // x is n or above n
	for ; n != nil; n = n.Parent {
		if n == x {
			return true
		}
	}
	return false
}

// change edits a document in place and says how.
func (l *liveDoc) change(r *rand.Rand) string {
	els := view(l.doc)
	var html0 []*html.Node // inner HTML elements
	var all []*html.Node
	for _, e := range els {
		all = append(all, e.node)
		if e.node.Parent != nil && e.node.Parent.Type == html.ElementNode && e.node.Namespace == "" {
			html0 = append(html0, e.node)
		}
	}
	if len(all) == 0 {
		return ""
	}
	n := pick(r, all...)
	put := func(x *html.Node) bool { // below some HTML element, anywhere among its children
		for try := 0; try < 6; try++ {
			p := pick(r, all...)
			if p.Namespace != "" || holds(p, x) {
				continue
			}
			if x.Parent != nil {
				x.Parent.RemoveChild(x)
			}
			var before *html.Node
			k := 0
			for c := p.FirstChild; c != nil; c = c.NextSibling {
				if k++; r.Intn(k+1) == 0 {
					before = c
				}
			}
			p.InsertBefore(x, before)
			return true
		}
		return false
	}
	switch k := r.Intn(12); {
	case k < 3: // all attributes
		n.Attr = nil
		l.g.attrs(n)
		return "new attributes"
	case k == 3 && len(n.Attr) > 0: // in place
		i := r.Intn(len(n.Attr))
		a := &n.Attr[i]
		switch a.Key {
		case "class":
			a.Val = pick(r, l.g.classes...)
		case "id":
			a.Val = pick(r, l.g.ids...)
		case "lang":
			a.Val = pick(r, l.g.langs...)
		case "data-x", "title", "href2", "name", "data-y":
			if v := pick(r, l.g.vals...); v == "" || strings.TrimSpace(v) != "" {
				a.Val = v
			}
		default:
			n.Attr = append(n.Attr[:i:i], n.Attr[i+1:]...)
			return "attribute removed"
		}
		return "attribute value changed"
	case k < 6: // text
		for _, x := range allNodes(n) {
			if x.Type == html.TextNode {
				x.Data = pick(r, "", " ", "a", "foo", "foo bar", "Foo", "\n\t", "b")
				return "text changed"
			}
		}
		n.AppendChild(&html.Node{Type: pick(r, html.TextNode, html.TextNode, html.CommentNode), Data: pick(r, "", " ", "a", "foo")})
		return "text added"
	case k == 6 && len(html0) > 0: // removed
		x := pick(r, html0...)
		x.Parent.RemoveChild(x)
		l.spare = append(l.spare, x)
		return "element removed"
	case k == 7 && len(l.spare) > 0: // put back somewhere
		x := pick(r, l.spare...)
		if x.Parent == nil && put(x) {
			return "element put back"
		}
	case k == 8 && len(html0) > 0: // moved
		if put(pick(r, html0...)) {
			return "element moved"
		}
	case k == 9 && len(html0) > 0: // swapped with the next sibling
		x := pick(r, html0...)
		if y := x.NextSibling; y != nil {
			p := x.Parent
			p.RemoveChild(y)
			p.InsertBefore(y, x)
			return "siblings swapped"
		}
	case k == 10 && len(html0) > 0: // renamed
		x := pick(r, html0...)
		t := pick(r, blockTags...)
		if len(l.g.tags) > 0 && r.Intn(3) > 0 {
			t = pick(r, l.g.tags...)
		}
		x.Data, x.DataAtom = t, atom.Lookup([]byte(t))
		return "element renamed"
	default:
		x := l.g.elem(pick(r, blockTags...))
		if r.Intn(2) == 0 {
			x.AppendChild(&html.Node{Type: html.TextNode, Data: pick(r, "a", "foo", " ")})
		}
		if put(x) {
			return "element added"
		}
	}
	n.Attr = nil
	return "attributes removed"
}

func copyGroup(g []*complexSel) []*complexSel {
	var out []*complexSel
	for _, x := range g {
		y := &complexSel{combs: append([]byte{}, x.combs...)}
		for _, p := range x.parts {
			q := compound{star: p.star, pe: p.pe}
			for _, s := range p.simples {
				s.list = copyGroup(s.list)
				q.simples = append(q.simples, s)
			}
			y.parts = append(y.parts, q)
		}
		out = append(out, y)
	}
	return out
}

// altered changes one detail of a copy of a selector list, so that the texts are almost the same.
func altered(r *rand.Rand, g []*complexSel, d *docGen) []*complexSel {
	g = copyGroup(g)
	x := pick(r, g...)
	if len(x.combs) > 0 && r.Intn(3) == 0 {
		x.combs[r.Intn(len(x.combs))] = pick(r, []byte(" >+~")...)
		return g
	}
	if len(g) > 1 && r.Intn(4) == 0 {
		return g[:len(g)-1]
	}
	p := &x.parts[r.Intn(len(x.parts))]
	if len(p.simples) == 0 {
		return g
	}
	s := &p.simples[r.Intn(len(p.simples))]
	switch s.kind {
	case "class":
		s.name = pick(r, swapCase(r, s.name), pick(r, d.classes...))
	case "id":
		s.name = pick(r, swapCase(r, s.name), pick(r, d.ids...))
	case "attr":
		switch s.op {
		case "=", "^=", "$=", "*=", "~=", "|=":
			switch r.Intn(3) {
			case 0:
				s.insens = !s.insens
			case 1:
				s.op = pick(r, "=", "^=", "$=", "*=", "~=", "|=")
			default:
				s.val = swapCase(r, s.val)
			}
		}
	case "nth":
		s.plain = false
		switch r.Intn(4) {
		case 0:
			s.last = !s.last
		case 1:
			s.ofType = !s.ofType
		case 2:
			s.a += pick(r, -1, 1)
		default:
			s.b += pick(r, -1, 1)
		}
	case "list":
		switch s.name {
		case "is":
			s.name = pick(r, "where", "not")
		case "where":
			s.name = pick(r, "is", "not")
		case "not":
			s.name = "is"
		}
		if r.Intn(2) == 0 {
			s.list = altered(r, s.list, d)
		}
	}
	return g
}

func wanted(els []*el, grp []*complexSel) map[*html.Node]bool {
	want := map[*html.Node]bool{}
	for _, e := range els {
		for _, x := range grp {
			if x.match(e, nil) {
				want[e.node] = true
				break
			}
		}
	}
	return want
}

func runC27(c *Case) {
	r := c.Rand
	docs := make([]*liveDoc, 2)
	for i := range docs {
		doc, g := oneDoc(r, r.Intn(5) == 0)
		docs[i] = &liveDoc{doc: doc, g: g}
	}
	if docs[0].g.links || docs[1].g.links { // whether a link is enabled is left open
		docs[0].g.enabled, docs[1].g.enabled = false, false
	}
	var sels []*liveSel
	add := func(i int) {
		g := docs[i].g
		s := &liveSel{grp: g.group(2), of: i}
		if len(sels) > 0 && r.Intn(4) == 0 {
			s.grp = altered(r, pick(r, sels...).grp, g.docGen)
			c.Count("altered selectors", 1)
		}
		s.text = selString(r, s.grp, pick(r, 0, 0, 0.1))
		list, err := cascadia.ParseGroup(s.text)
		if err != nil {
			c.Fail("selector rejected", map[string]any{"selector": s.text, "error": err.Error()})
		}
		s.list, s.m = list, list
		if len(s.grp) == 1 && r.Intn(2) == 0 {
			one, err := cascadia.Parse(s.text)
			if err != nil {
				c.Fail("selector rejected", map[string]any{"selector": s.text, "error": err.Error()})
			}
			s.m = one
		}
		s.printed, s.spec = s.show()
		sels = append(sels, s)
	}
	for k := 3 + r.Intn(3); k > 0; k-- {
		add(0)
		add(1)
	}
	var history []string
	note := func(f string, a ...any) {
		history = append(history, fmt.Sprintf(f, a...))
	}
	last := make([]map[string]map[*html.Node]bool, 2) // answers per document and selector
	for i := range last {
		last[i] = map[string]map[*html.Node]bool{}
	}
	detail := func(s *liveSel, l *liveDoc) map[string]any {
		h := history
		if len(h) > 40 {
			h = h[len(h)-40:]
		}
		return map[string]any{"selector": s.text, "history": h, "document": renderDoc(l.doc)}
	}
	ask := func(s *liveSel, i int) {
		l := docs[i]
		els := l.g.els
		want := wanted(els, s.grp)
		c.Do(fmt.Sprintf("matching %s after %s", clip(s.text, 200), strings.Join(history[max(0, len(history)-8):], ", ")))
		check := func(nodes []*html.Node) {
			for _, n := range nodes {
				if got := s.m.Match(n); got != want[n] {
					d := detail(s, l)
					d["node"], d["matches"], d["should match"] = nodeText(n), got, want[n]
					c.Fail("an answer depends on the past", d)
				}
			}
		}
		nodes := append([]*html.Node{l.doc}, allNodes(l.doc)...)
		switch r.Intn(4) {
		case 0:
			check(nodes)
		case 1: // another order
			r.Shuffle(len(nodes), func(a, b int) { nodes[a], nodes[b] = nodes[b], nodes[a] })
			check(nodes)
		case 2:
			got := cascadia.QueryAll(l.doc, s.m)
			ok := len(got) == len(want)
			for _, n := range got {
				ok = ok && want[n]
			}
			if !ok {
				d := detail(s, l)
				d["found"], d["should be"] = len(got), len(want)
				c.Fail("a search depends on the past", d)
			}
		case 3:
			if one := cascadia.Query(l.doc, s.m); (one != nil) != (len(want) > 0) || one != nil && !want[one] {
				d := detail(s, l)
				d["found"] = nodeText(one)
				c.Fail("a search depends on the past", d)
			}
			check(nodes[:1+r.Intn(len(nodes))])
		}
		if old, ok := last[i][s.text]; ok {
			diff := 0
			for _, n := range nodes {
				if old[n] != want[n] {
					diff++
				}
			}
			c.Count("changed answers", diff)
			c.Count("answers after an edit", len(nodes))
		}
		last[i][s.text] = want
		if len(l.spare) > 0 && r.Intn(4) == 0 { // a removed subtree is a tree of its own
			x := pick(r, l.spare...)
			if x.Parent == nil {
				w := wanted(view(x), s.grp)
				for _, n := range append([]*html.Node{x}, allNodes(x)...) {
					if got := s.m.Match(n); got != w[n] {
						d := detail(s, &liveDoc{doc: x})
						d["node"], d["matches"], d["should match"] = nodeText(n), got, w[n]
						c.Fail("an answer depends on the past", d)
					}
				}
				c.Count("answers in removed subtrees", len(w))
			}
		}
		printed, spec := s.show()
		if printed != s.printed || spec != s.spec {
			d := detail(s, l)
			d["printed"], d["was"], d["specificities"], d["were"] = printed, s.printed, spec, s.spec
			c.Fail("a selector changed", d)
		}
		c.Eval(len(want) > 0 && len(want) < len(els), s.text, fmt.Sprint(c.Idx, len(history)))
	}
	round := func(share int) {
		for _, k := range r.Perm(len(sels) * 2) {
			s, i := sels[k/2], k%2
			if r.Intn(share) > 0 {
				continue
			}
			note("%d asks document %d", k/2, i)
			ask(s, i)
		}
	}
	// one answer, an edit close by, and an answer close by
	probe := func() {
		i := r.Intn(2)
		l, s := docs[i], pick(r, sels...)
		var n *html.Node
		for try := 0; try < 4 && len(l.g.els) > 0; try++ {
			if n = pick(r, l.g.els...).node; n.Parent != nil && n.Parent.Type == html.ElementNode && n.Parent.Namespace == "" && (n.NextSibling != nil || n.PrevSibling != nil) {
				break
			}
			n = nil
		}
		if n == nil {
			return
		}
		var family []*html.Node
		kin := func() {
			family = family[:0]
			for c := n.Parent.FirstChild; c != nil; c = c.NextSibling {
				if c.Type == html.ElementNode && len(family) < 60 {
					family = append(family, c)
				}
			}
		}
		check := func(n *html.Node, want map[*html.Node]bool) {
			if got := s.m.Match(n); got != want[n] {
				d := detail(s, l)
				d["node"], d["matches"], d["should match"] = nodeText(n), got, want[n]
				c.Fail("an answer depends on the past", d)
			}
		}
		kin()
		want := wanted(l.g.els, s.grp)
		for k := r.Intn(3); k > 0; k-- {
			check(pick(r, family...), want)
		}
		check(n, want)
		p := n.Parent
		x := pick(r, family...)
		switch k := r.Intn(6); {
		case k == 0 && x != n && x.Namespace == "":
			p.RemoveChild(x)
			l.spare = append(l.spare, x)
			note("document %d: element removed beside", i)
		case k == 1 && x != n && x.Namespace == "" && n.Namespace == "":
			p.RemoveChild(x)
			p.InsertBefore(x, n)
			note("document %d: element moved before", i)
		case k == 2:
			p.Attr = nil
			l.g.attrs(p)
			note("document %d: new attributes above", i)
		case k == 3:
			x.Attr = nil
			l.g.attrs(x)
			note("document %d: new attributes beside", i)
		case k == 4:
			t := &html.Node{Type: html.TextNode, Data: pick(r, "a", "foo", " ")}
			if x.FirstChild != nil && x.FirstChild.Type == html.TextNode {
				x.FirstChild.Data = t.Data
			} else {
				x.InsertBefore(t, x.FirstChild)
			}
			note("document %d: text changed beside", i)
		default:
			t := pick(r, l.g.tags...)
			if n.Namespace == "" && r.Intn(2) == 0 {
				t = n.Data
			}
			p.InsertBefore(l.g.elem(t), x)
			note("document %d: element added beside", i)
		}
		l.g.els = view(l.doc)
		want2 := wanted(l.g.els, s.grp)
		kin()
		ask := []*html.Node{n}
		if r.Intn(2) == 0 {
			ask[0] = pick(r, family...)
		}
		ask = append(ask, pick(r, family...), p)
		changed := 0
		for _, x := range ask {
			check(x, want2)
			if want[x] != want2[x] {
				changed++
			}
		}
		c.Count("probes", 1)
		c.Count("changed answers of probes", changed)
	}
	round(1)
	steps := 3 + r.Intn(6)
	if r.Intn(40) == 0 {
		steps = 40
	}
	for k := 0; k < steps; k++ {
		i := r.Intn(2)
		for j := 1 + r.Intn(3); j > 0; j-- {
			what := docs[i].change(r)
			note("document %d: %s", i, what)
			c.Count(what, 1)
			c.Count("edits", 1)
		}
		docs[i].g.els = view(docs[i].doc)
		for j := r.Intn(8); j > 0; j-- {
			probe()
		}
		if r.Intn(4) == 0 {
			if len(docs[i].g.els) > 0 {
				add(i)
				note("parsed %s", sels[len(sels)-1].text)
			}
		}
		if r.Intn(5) == 0 { // texts of all kinds pass through the parser in between
			cascadia.ParseGroupWithPseudoElements(hostileText(r))
		}
		round(pick(r, 1, 2, 4))
	}
	// at once
	type goal struct {
		s    *liveSel
		i    int
		want map[*html.Node]bool
	}
	var goals []goal
	for _, s := range sels {
		for i := range docs {
			goals = append(goals, goal{s, i, wanted(docs[i].g.els, s.grp)})
		}
	}
	nodes := [][]*html.Node{append([]*html.Node{docs[0].doc}, allNodes(docs[0].doc)...), append([]*html.Node{docs[1].doc}, allNodes(docs[1].doc)...)}
	c.Do("concurrent matching")
	evs, err := gather(3, r, func(p int, r *rand.Rand, rec func(op, arg string, f func() (string, bool))) {
		for _, k := range r.Perm(len(goals)) {
			g := goals[k]
			if r.Intn(2) == 0 {
				continue
			}
			rec("match", g.s.text, func() (string, bool) {
				ns := nodes[g.i]
				at := r.Intn(len(ns))
				for j := range ns {
					n := ns[(at+j)%len(ns)]
					if got := g.s.m.Match(n); got != g.want[n] {
						return fmt.Sprintf("%s: %v", nodeText(n), got), false
					}
				}
				printed, spec := g.s.show()
				if printed != g.s.printed || spec != g.s.spec {
					return "prints " + printed + " " + spec, false
				}
				if g.i == 0 && r.Intn(4) == 0 {
					if list, err := cascadia.ParseGroup(g.s.text); err != nil || list.Match(ns[at]) != g.want[ns[at]] {
						return "parses differently: " + fmt.Sprint(err), false
					}
				}
				return "", true
			})
		}
	})
	if err != nil {
		c.Fail("panic", map[string]any{"panic": err.Error()})
	}
	for _, e := range evs {
		if !e.OK {
			c.Fail("a concurrent answer is wrong", map[string]any{"selector": e.Arg, "answer": e.Out, "documents": renderDoc(docs[0].doc) + "\n" + renderDoc(docs[1].doc)})
		}
		c.Count("concurrent answers", 1)
	}
	c.Count("overlapping answers", overlaps(evs))
	c.Sample(map[string]any{"selectors": len(sels), "history": history[max(0, len(history)-12):]})
}
