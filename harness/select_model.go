//go:build go1.22

package main

import (
	"fmt"
	"math/rand"
	"regexp"
	"strings"

	"golang.org/x/net/html"
	"golang.org/x/net/html/atom"
)

// ---- documents ----

// el is the oracle's own view of an element.
type el struct {
	node   *html.Node
	tag    string
	ns     string            // empty for HTML
	attrs  map[string]string // those in no namespace
	xlang  *string           // xml:lang
	xlink  bool              // has xlink:href
	parent *el               // nil for the top element
	sibs   []*el
	pos    int // index in sibs
	kids   []*el
	text   string // of the element and its descendants
	own    string // of its text children
	blank  bool   // nothing but comments and document white space
	root   bool   // child of the document
	inDoc  bool   // has a parent node
}

// view builds the oracle's tree of everything below top (or top itself if it is an element), in document order.
func view(top *html.Node) []*el {
	var all []*el
	var walk func(n *html.Node, parent *el) *el
	children := func(n *html.Node, parent *el) []*el {
		var kids []*el
		for c := n.FirstChild; c != nil; c = c.NextSibling {
			if c.Type == html.ElementNode {
				kids = append(kids, walk(c, parent))
			}
		}
		for i, k := range kids {
			k.sibs, k.pos = kids, i
		}
		return kids
	}
	walk = func(n *html.Node, parent *el) *el {
		e := &el{node: n, tag: n.Data, ns: n.Namespace, attrs: map[string]string{}, parent: parent, blank: true, inDoc: n.Parent != nil}
		e.root = n.Parent != nil && n.Parent.Type == html.DocumentNode
		for _, a := range n.Attr {
			switch {
			case a.Namespace == "xml" && a.Key == "lang":
				v := a.Val
				e.xlang = &v
			case a.Namespace == "xlink" && a.Key == "href":
				e.xlink = true
			}
			if a.Namespace != "" {
				continue
			}
			if _, ok := e.attrs[a.Key]; !ok {
				e.attrs[a.Key] = a.Val
			}
		}
		all = append(all, e)
		e.kids = children(n, e)
		i := 0
		for c := n.FirstChild; c != nil; c = c.NextSibling {
			switch c.Type {
			case html.ElementNode:
				e.text += e.kids[i].text
				i++
				e.blank = false
			case html.TextNode:
				e.text += c.Data
				e.own += c.Data
				for _, b := range c.Data {
					if b != ' ' && b != '\t' && b != '\n' && b != '\r' && b != '\f' {
						e.blank = false
					}
				}
			}
		}
		return e
	}
	if top.Type == html.ElementNode {
		e := walk(top, nil)
		e.sibs = []*el{e}
	} else {
		children(top, nil)
	}
	return all
}

var blockTags = []string{"div", "p", "span", "section", "ul", "li", "em", "b", "h1", "article", "fieldset", "form", "label", "nav", "x-a", "x-b", "my-el"}

// rareTags are elements that an implementation might treat in a special way, although CSS does not.
var rareTags = []string{"script", "style", "title", "head", "body", "table", "tbody", "tr", "td", "iframe", "noscript", "details", "summary", "dialog", "video", "canvas", "object", "slot", "main", "dl", "dt", "dd", "code", "pre", "q", "output", "meter", "progress", "datalist", "map", "picture", "audio", "noframes", "plaintext", "xmp", "marquee", "center", "font", "search", "hgroup", "blockquote", "address", "u", "i", "s"}
var leafTags = []string{"input", "button", "textarea", "br", "img"}

type docGen struct {
	r         *rand.Rand
	left      int
	foreignOK bool // SVG and MathML
	links     bool // a and area elements; then no selector uses :enabled
	classes   []string
	ids       []string
	vals      []string
	keys      []string // names of attributes with free values
	langs     []string
	tags      []string
}

func newDocGen(r *rand.Rand, hostile bool) *docGen {
	d := &docGen{r: r, left: 4 + r.Intn(40), links: r.Intn(3) == 0, foreignOK: r.Intn(3) == 0}
	d.classes = []string{"a", "b", "c", "btn", "A", "card"}
	d.ids = []string{"x", "y", "main", "X"}
	d.vals = []string{"", "a", "ab", "abc", "A", "a-b", "a b", "b a", "foo", "Foo", "foo-bar", "foobar baz", "1", "é", "É", "a-", "-a", "en", "K", "k", "\u212a"}
	d.keys = []string{"data-x", "title", "href2", "name", "data-y"}
	d.langs = []string{"en", "en-us", "fr", "EN", "en-GB", "", "e", "eng", "de-at", "at", "fr-us", "zh-hant-tw", "hant", "-en", "en-", "x-en"}
	if r.Intn(4) == 0 {
		d.tags = append(d.tags, pick(r, rareTags...))
	}
	for i := 0; i < 2; i++ { // few different tags, so that types repeat among siblings
		d.tags = append(d.tags, pick(r, blockTags...), pick(r, blockTags...))
	}
	if r.Intn(4) == 0 { // elements unknown to HTML
		d.tags = []string{"x-a", "x-b", "my-el", pick(r, "div", "x-a", "p")}
	}
	if d.foreignOK {
		d.tags = append(d.tags, "g")
		d.keys = append(d.keys, "viewBox", "refX")
	}
	if hostile {
		d.classes, d.ids, d.vals = nil, nil, nil
		for i := 0; i < 5; i++ {
			d.classes = append(d.classes, genName(r))
			d.ids = append(d.ids, genName(r))
			d.vals = append(d.vals, genValue(r))
		}
		for _, v := range append([]string{}, d.vals...) {
			d.vals = append(d.vals, mutate(r, v))
		}
		d.keys = []string{"data-x", "@click", "x.y", "data-é", ":is", "1x", "-a", "x]", "data-\"q\""}
	}
	return d
}

// genValue returns an attribute value; one that is not only white space, see DESIGN.md.
func genValue(r *rand.Rand) string {
	for {
		var b strings.Builder
		for k := r.Intn(4); k >= 0; k-- {
			switch r.Intn(6) {
			case 0:
				b.WriteString(pick(r, " ", "\n", "\t", "\r", "\f", "\"", "'", "\\", "\\\\", "\\\"", "\\a ", "\\61", "]", ")", "i", " i", "/*", "*/", "-", "\x01", "\x7f", ",", "=", "\u00a0", "\u0301"))
			default:
				b.WriteString(genName(r))
			}
		}
		if s := b.String(); strings.TrimSpace(s) != "" {
			return s
		}
	}
}

// mutate returns a value like v but usually different.
func mutate(r *rand.Rand, v string) string {
	rs := []rune(v)
	i := r.Intn(len(rs) + 1)
	out := v
	switch r.Intn(8) {
	case 0:
		out = v + pick(r, "a", "-", " ", "-x", " x", "\\")
	case 1:
		out = pick(r, "a", "-", " ", "x ") + v
	case 2:
		out = strings.ToUpper(v)
	case 3:
		out = strings.ToLower(v)
	case 4:
		out = string(rs[:i])
	case 5:
		out = string(rs[i:])
	case 6:
		out = string(rs[:i]) + " " + string(rs[i:])
	default:
		out = string(rs[:i]) + string(genRune(r)) + string(rs[i:])
	}
	if strings.TrimSpace(out) == "" {
		return "x"
	}
	return out
}

func (d *docGen) attrs(n *html.Node) {
	r := d.r
	set := func(k, v string) {
		for _, a := range n.Attr {
			if strings.EqualFold(a.Key, k) {
				return
			}
		}
		if v != "" && strings.TrimSpace(v) == "" {
			v += "x" // see the known finding about such values
		}
		n.Attr = append(n.Attr, html.Attribute{Key: k, Val: v})
	}
	if r.Intn(10) < 7 {
		var cs []string
		for k := r.Intn(3); k >= 0; k-- {
			cs = append(cs, pick(r, d.classes...))
		}
		sep := pick(r, " ", " ", "  ", "\t", "\n", "\r", "\f", " \n ")
		v := strings.Join(cs, sep)
		if r.Intn(5) == 0 {
			v = sep + v + sep
		}
		set("class", v)
	}
	if r.Intn(4) == 0 {
		set("id", pick(r, d.ids...))
	}
	for k := r.Intn(3); k > 0; k-- {
		set(pick(r, d.keys...), pick(r, d.vals...))
	}
	if r.Intn(8) == 0 {
		set("lang", pick(r, d.langs...))
	}
	if n.Namespace != "" {
		if r.Intn(3) == 0 {
			set(pick(r, "viewBox", "gradientTransform", "viewbox", "fill", "refX"), pick(r, d.vals...))
		}
		if r.Intn(3) == 0 {
			ns := func(space, k, v string) {
				n.Attr = append(n.Attr, html.Attribute{Namespace: space, Key: k, Val: v})
			}
			switch r.Intn(4) {
			case 0:
				ns("xml", "lang", pick(r, d.langs...))
			case 1:
				ns("xlink", pick(r, "title", "type"), pick(r, d.vals...))
			default:
				ns("xlink", "href", pick(r, "", "#", "/x"))
			}
		}
	}
	switch n.Data {
	case "a", "area":
		if r.Intn(3) > 0 {
			set("href", pick(r, "", "#", "/x"))
		}
	case "input":
		if r.Intn(6) > 0 {
			set("type", pick(r, "checkbox", "radio", "text", "submit", "hidden", "CheckBox"))
		}
		if r.Intn(2) == 0 {
			set("checked", pick(r, "", "checked", "false"))
		}
	case "select":
		set("multiple", "")
	case "option":
		if r.Intn(2) == 0 {
			set("selected", "")
		}
	}
	p := 12
	switch n.Data {
	case "input", "button", "select", "textarea", "optgroup", "option":
		p = 3
	case "fieldset":
		p = 2
	}
	if r.Intn(p) == 0 {
		set("disabled", pick(r, "", "disabled", "false"))
	}
	r.Shuffle(len(n.Attr), func(i, j int) { n.Attr[i], n.Attr[j] = n.Attr[j], n.Attr[i] })
}

func (d *docGen) elem(tag string) *html.Node {
	n := &html.Node{Type: html.ElementNode, Data: tag, DataAtom: atom.Lookup([]byte(tag))}
	d.attrs(n)
	return n
}

var foreignTags = map[string][]string{"svg": {"g", "g", "path", "use", "linearGradient", "foreignObject", "textPath", "input", "fieldset", "legend", "option", "button", "clippath", "a"},
	"math": {"mi", "mrow", "mo", "annotation-xml", "input"}}

// foreign fills an svg or math element.
func (d *docGen) foreign(n *html.Node, depth int) {
	r := d.r
	for k := r.Intn(5); k > 0 && d.left > 0; k-- {
		d.filler(n)
		d.left--
		tag := pick(r, foreignTags[n.Namespace]...)
		if tag == "a" && !d.links {
			tag = "g"
		}
		if r.Intn(12) == 0 { // an HTML element among them
			c := d.elem(pick(r, "div", "g", "input", "a-b"))
			n.AppendChild(c)
			continue
		}
		c := &html.Node{Type: html.ElementNode, Data: tag, Namespace: n.Namespace, DataAtom: atom.Lookup([]byte(strings.ToLower(tag)))}
		d.attrs(c)
		n.AppendChild(c)
		if depth > 5 {
			continue
		}
		if tag == "foreignObject" || tag == "annotation-xml" {
			d.fill(c, depth+1)
		} else {
			d.foreign(c, depth+1)
		}
	}
	d.filler(n)
}

func (d *docGen) filler(n *html.Node) {
	r := d.r
	switch r.Intn(7) {
	case 0:
		n.AppendChild(&html.Node{Type: html.CommentNode, Data: pick(r, "", "a", " c ")})
	case 1, 2:
		n.AppendChild(&html.Node{Type: html.TextNode, Data: pick(r, " ", "\n  ", "x", "Hello", "lo wor", "a b", "\u00a0", "1", "")})
	}
}

func (d *docGen) fill(n *html.Node, depth int) {
	r := d.r
	for k := r.Intn(5); k > 0 && d.left > 0; k-- {
		d.filler(n)
		d.left--
		var c *html.Node
		switch q := r.Intn(20); {
		case n.Data == "fieldset" && q < 6:
			c = d.elem("legend")
		case q < 2:
			c = d.elem("fieldset")
		case q < 5:
			c = d.elem(pick(r, leafTags...))
			n.AppendChild(c)
			continue
		case q == 5 && d.links:
			c = d.elem(pick(r, "a", "area"))
		case q == 7 && d.foreignOK:
			tag := pick(r, "svg", "svg", "svg", "math")
			c = &html.Node{Type: html.ElementNode, Data: tag, Namespace: tag, DataAtom: atom.Lookup([]byte(tag))}
			d.attrs(c)
			n.AppendChild(c)
			d.foreign(c, depth+1)
			continue
		case q == 6:
			c = d.elem("select")
			n.AppendChild(c)
			for j := r.Intn(3); j > 0; j-- {
				o := d.elem("option")
				if r.Intn(2) == 0 {
					g := d.elem("optgroup")
					c.AppendChild(g)
					g.AppendChild(o)
					if r.Intn(2) == 0 {
						g.AppendChild(d.elem("option"))
					}
				} else {
					c.AppendChild(o)
				}
				if r.Intn(2) == 0 {
					o.AppendChild(&html.Node{Type: html.TextNode, Data: "opt"})
				}
			}
			continue
		default:
			c = d.elem(pick(r, d.tags...))
		}
		n.AppendChild(c)
		if depth < 9 {
			d.fill(c, depth+1)
		}
	}
	d.filler(n)
}

// document returns a document node.
func (d *docGen) document() *html.Node {
	r := d.r
	doc := &html.Node{Type: html.DocumentNode}
	if r.Intn(3) > 0 {
		doc.AppendChild(&html.Node{Type: html.DoctypeNode, Data: "html"})
	}
	if r.Intn(4) == 0 {
		doc.AppendChild(&html.Node{Type: html.CommentNode, Data: "c"})
	}
	h := d.elem("html")
	if r.Intn(12) == 0 { // a tree that no HTML parser makes
		h = d.elem(pick(r, "my-app", "div", "svg", "p", "x", "section"))
	}
	doc.AppendChild(h)
	h.AppendChild(d.elem("head"))
	d.filler(h)
	body := d.elem("body")
	h.AppendChild(body)
	top := body
	switch r.Intn(24) {
	case 0: // very deep
		k := pick(r, 12, 20, 30, 30, 40, 60)
		for ; k > 0; k-- {
			d.filler(top)
			n := d.elem(pick(r, "div", "fieldset", pick(r, d.tags...), pick(r, d.tags...)))
			if r.Intn(3) > 0 {
				n.Attr = nil
			}
			top.AppendChild(n)
			top = n
			if d.left > 4 && r.Intn(8) == 0 {
				d.fill(n, 8)
			}
		}
		d.left = max(d.left, 5)
	case 1: // very many siblings
		for k := pick(r, 20, 40, 80, 150); k > 0; k-- {
			n := d.elem(pick(r, d.tags...))
			if r.Intn(3) > 0 {
				n.Attr = nil
			}
			body.AppendChild(n)
			if r.Intn(8) == 0 {
				d.filler(body)
			}
		}
	}
	for i := 0; i < 3 && d.left > 0; i++ {
		d.fill(top, 0)
	}
	if r.Intn(4) == 0 {
		doc.AppendChild(&html.Node{Type: html.CommentNode, Data: "end"})
	}
	return doc
}

// ---- selectors ----

type simple struct {
	kind         string // tag, class, id, attr, nth, pseudo, list, lang, contains, regex
	name         string
	op, val      string
	insens       bool
	a, b         int
	last, ofType bool
	plain        bool // nth: spelled :first-child and so on
	list         []*complexSel
	re           *regexp.Regexp
}

type compound struct {
	star    string // "*", "*|*" or nothing
	simples []simple
	pe      string
}

type complexSel struct {
	parts []compound
	combs []byte // combs[i] stands between parts[i] and parts[i+1]
}

func fold(s string, insens bool) string {
	if !insens {
		return s
	}
	b := []byte(s)
	for i, c := range b {
		if 'A' <= c && c <= 'Z' {
			b[i] = c + 32
		}
	}
	return string(b)
}

func words(s string) []string {
	return strings.FieldsFunc(s, func(c rune) bool { return c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\f' })
}

func nthOK(a, b, idx int) bool {
	for k := 0; k <= 100000; k++ {
		v := a*k + b
		if v == idx {
			return true
		}
		if a == 0 || a > 0 && v > idx || a < 0 && v < idx {
			return false
		}
	}
	return false
}

func (s *simple) match(e *el) bool {
	switch s.kind {
	case "tag":
		return e.tag == e.nameIn(s.name)
	case "class":
		for _, w := range words(e.attrs["class"]) {
			if w == s.name {
				return true
			}
		}
		return false
	case "id":
		v, ok := e.attrs["id"]
		return ok && v == s.name
	case "attr":
		v, ok := e.attrs[e.nameIn(s.name)]
		v, want := fold(v, s.insens), fold(s.val, s.insens)
		switch s.op {
		case "":
			return ok
		case "=":
			return ok && v == want
		case "!=":
			return !ok || v != want
		case "~=":
			if want == "" {
				return false
			}
			for _, w := range words(v) {
				if w == want {
					return true
				}
			}
			return false
		case "|=":
			return ok && (v == want || strings.HasPrefix(v, want+"-"))
		case "^=":
			return ok && want != "" && strings.HasPrefix(v, want)
		case "$=":
			return ok && want != "" && strings.HasSuffix(v, want)
		case "*=":
			return ok && want != "" && strings.Contains(v, want)
		case "#=":
			return ok && s.re.MatchString(e.attrs[e.nameIn(s.name)])
		}
	case "nth":
		if !e.inDoc {
			return false
		}
		idx := 1
		if s.last {
			for _, x := range e.sibs[e.pos+1:] {
				if !s.ofType || x.sameType(e) {
					idx++
				}
			}
		} else {
			for _, x := range e.sibs[:e.pos] {
				if !s.ofType || x.sameType(e) {
					idx++
				}
			}
		}
		return nthOK(s.a, s.b, idx)
	case "list":
		any := false
		for _, c := range s.list {
			switch s.name {
			case "has":
				any = any || anyBelow(e, func(d *el) bool { return c.match(d, e) })
			case "haschild":
				for _, k := range e.kids {
					any = any || c.match(k, nil)
				}
			default:
				any = any || c.match(e, nil)
			}
		}
		return any != (s.name == "not")
	case "lang":
		for x := e; x != nil; x = x.parent {
			v, ok := x.attrs["lang"]
			if x.xlang != nil {
				v, ok = *x.xlang, true
			}
			if ok {
				v, want := fold(v, true), fold(s.val, true)
				return v == want || strings.HasPrefix(v, want+"-")
			}
		}
		return false
	case "contains":
		t := e.text
		if s.name == "containsown" {
			t = e.own
		}
		return strings.Contains(strings.ToLower(t), strings.ToLower(s.val))
	case "regex":
		t := e.text
		if s.name == "matchesown" {
			t = e.own
		}
		return s.re.MatchString(t)
	case "pseudo":
		return s.pseudo(e)
	}
	panic("unknown kind " + s.kind)
}

// nameIn is what a name in a selector stands for at e: HTML names are lower case, others case-sensitive.
func (e *el) nameIn(name string) string {
	if e.ns == "" {
		return fold(name, true)
	}
	return name
}

func (e *el) sameType(x *el) bool { return e.tag == x.tag && e.ns == x.ns }

// is tells whether e is an HTML element of that name.
func (e *el) is(tag string) bool { return e.ns == "" && e.tag == tag }

func anyBelow(e *el, f func(*el) bool) bool {
	for _, k := range e.kids {
		if f(k) || anyBelow(k, f) {
			return true
		}
	}
	return false
}

func (s *simple) pseudo(e *el) bool {
	has := func(e *el, k string) bool { _, ok := e.attrs[k]; return ok }
	disabled := func() bool {
		switch e.tag {
		case "optgroup":
			return has(e, "disabled")
		case "option":
			return has(e, "disabled") || e.parent != nil && e.parent.is("optgroup") && has(e.parent, "disabled")
		}
		if has(e, "disabled") {
			return true
		}
		// a descendant of a disabled fieldset that is not inside its first legend child
		child := e
		for f := e.parent; f != nil; child, f = f, f.parent {
			if !f.is("fieldset") || !has(f, "disabled") {
				continue
			}
			var firstLegend *el
			for _, k := range f.kids {
				if k.is("legend") {
					firstLegend = k
					break
				}
			}
			if child != firstLegend {
				return true
			}
		}
		return false
	}
	control := false
	switch e.tag {
	case "button", "input", "select", "textarea", "fieldset", "optgroup", "option":
		control = e.ns == ""
	}
	switch s.name {
	case "only-child":
		return e.inDoc && len(e.sibs) == 1
	case "only-of-type":
		n := 0
		for _, x := range e.sibs {
			if x.sameType(e) {
				n++
			}
		}
		return e.inDoc && n == 1
	case "empty":
		return e.blank
	case "root":
		return e.root
	case "link":
		return (e.is("a") || e.is("area") || e.ns == "svg" && e.tag == "a") && has(e, "href") || e.ns == "svg" && e.tag == "a" && e.xlink
	case "hover", "active", "focus", "visited", "target":
		return false
	case "enabled":
		return control && !disabled()
	case "disabled":
		return control && disabled()
	case "checked":
		t := fold(e.attrs["type"], true)
		return e.is("input") && (t == "checkbox" || t == "radio") && has(e, "checked") || e.is("option") && has(e, "selected")
	case "input":
		return e.is("input") || e.is("select") || e.is("textarea") || e.is("button")
	}
	panic("no oracle for :" + s.name)
}

func (c *compound) match(e *el) bool {
	for i := range c.simples {
		if !c.simples[i].match(e) {
			return false
		}
	}
	return true
}

// match decides whether e matches; inside :has(), every part must be a descendant of scope.
func (c *complexSel) match(e *el, scope *el) bool { return c.matchAt(len(c.parts)-1, e, scope) }

func (c *complexSel) matchAt(i int, e *el, scope *el) bool {
	if scope != nil {
		in := false
		for p := e.parent; p != nil; p = p.parent {
			in = in || p == scope
		}
		if !in {
			return false
		}
	}
	if !c.parts[i].match(e) {
		return false
	}
	if i == 0 {
		return true
	}
	switch c.combs[i-1] {
	case ' ':
		for p := e.parent; p != nil; p = p.parent {
			if c.matchAt(i-1, p, scope) {
				return true
			}
		}
	case '>':
		return e.parent != nil && c.matchAt(i-1, e.parent, scope)
	case '+':
		return e.pos > 0 && c.matchAt(i-1, e.sibs[e.pos-1], scope)
	case '~':
		for _, x := range e.sibs[:e.pos] {
			if c.matchAt(i-1, x, scope) {
				return true
			}
		}
	}
	return false
}

func (c *complexSel) spec() (out [3]int) {
	for _, p := range c.parts {
		if p.pe != "" {
			out[2]++
		}
		for _, s := range p.simples {
			switch s.kind {
			case "id":
				out[0]++
			case "tag":
				out[2]++
			case "list":
				if s.name == "where" {
					continue
				}
				var max [3]int
				for _, x := range s.list {
					if v := x.spec(); v[0] > max[0] || v[0] == max[0] && (v[1] > max[1] || v[1] == max[1] && v[2] > max[2]) {
						max = v
					}
				}
				for i := range out {
					out[i] += max[i]
				}
			default:
				out[1]++
			}
		}
	}
	return out
}

// ---- rendering ----

// selText writes selectors with free layout.
type selText struct {
	r    *rand.Rand
	vary float64
	b    strings.Builder
}

func (t *selText) ws(must bool) {
	if t.vary == 0 {
		if must {
			t.b.WriteByte(' ')
		}
		return
	}
	n := 0
	if must {
		n = 1
		t.b.WriteString(pick(t.r, " ", "\t", "\n", "\r\n", "\f", "\r"))
	}
	for t.r.Intn(4) == 0 && n < 4 {
		t.b.WriteString(pick(t.r, " ", "  ", "\t", "\n", "\r\n", "\f", "/* c */", "/**/", "/*.x,)]*/", "/***/", "/*/*/", "/*/ */", "/* * / **/", "/*\\*/", "/*\n\"*/"))
		n++
	}
}

func (t *selText) caseOf(s string) string {
	if t.vary == 0 {
		return s
	}
	b := []byte(s)
	for i, c := range b {
		if 'a' <= c && c <= 'z' && t.r.Intn(3) == 0 {
			b[i] = c - 32
		}
	}
	return string(b)
}

func (t *selText) ident(s string) { t.b.WriteString(cssIdent(t.r, s, t.vary)) }

func (t *selText) keyword(s string) {
	s = t.caseOf(s)
	if t.vary > 0 && t.r.Intn(30) == 0 {
		t.ident(s)
		return
	}
	t.b.WriteString(s)
}

func (t *selText) str(s string) {
	q := byte('"')
	if t.r.Intn(2) == 0 {
		q = '\''
	}
	t.b.WriteByte(q)
	rs := []rune(s)
	for i, c := range rs {
		if t.vary > 0 && t.r.Intn(25) == 0 {
			t.b.WriteString("\\" + pick(t.r, "\n", "\r\n", "\f", "\r"))
			if strings.HasSuffix(t.b.String(), "\\\r") && c == '\n' { // would become one line end
				t.b.WriteString("\\a ")
				continue
			}
		}
		switch {
		case c == '\n' || c == '\r' || c == '\f' || t.vary > 0 && t.r.Float64() < t.vary/3:
			h := fmt.Sprintf("%x", c)
			if t.vary > 0 {
				h = strings.Repeat("0", t.r.Intn(7-len(h))) + h
			}
			t.b.WriteString("\\" + t.caseOf(h))
			next := i+1 < len(rs) && (isHex(rs[i+1]) || strings.ContainsRune(" \t\n\r\f", rs[i+1]))
			if next || t.r.Intn(2) == 0 {
				t.b.WriteString(pick(t.r, " ", "\t", "\n", "\r\n"))
			}
		case c == rune(q) || c == '\\':
			t.b.WriteString("\\" + string(c))
		default:
			t.b.WriteRune(c)
		}
	}
	t.b.WriteByte(q)
}

func (t *selText) nth(a, b int) {
	r := t.r
	if t.vary > 0 {
		if a == 2 && b == 1 && r.Intn(2) == 0 {
			t.b.WriteString(t.caseOf("odd"))
			return
		}
		if a == 2 && b == 0 && r.Intn(2) == 0 {
			t.b.WriteString(t.caseOf("even"))
			return
		}
	}
	if a == 0 && (t.vary == 0 || r.Intn(3) > 0) {
		s := fmt.Sprint(b)
		if b >= 0 && t.vary > 0 {
			s = pick(r, "", "", "+") + pick(r, "", "", "0", "00") + s
		}
		t.b.WriteString(s)
		return
	}
	switch {
	case a == 1 && r.Intn(2) == 0:
		t.b.WriteString(pick(r, "n", "+n", t.caseOf("n")))
	case a == -1 && r.Intn(2) == 0:
		t.b.WriteString("-" + t.caseOf("n"))
	default:
		s := fmt.Sprint(a)
		if a >= 0 && t.vary > 0 {
			s = pick(r, "", "", "+") + pick(r, "", "", "0") + s
		}
		t.b.WriteString(s + t.caseOf("n"))
	}
	if b == 0 && r.Intn(2) == 0 {
		return
	}
	t.ws(false)
	if b < 0 {
		t.b.WriteByte('-')
		b = -b
	} else {
		t.b.WriteByte('+')
	}
	t.ws(false)
	t.b.WriteString(pick(r, "", "", "0"))
	t.b.WriteString(fmt.Sprint(b))
}

func (t *selText) simple(s *simple) {
	b := &t.b
	switch s.kind {
	case "tag":
		t.ident(s.name)
	case "class":
		b.WriteByte('.')
		t.ident(s.name)
	case "id":
		b.WriteByte('#')
		t.ident(s.name)
	case "attr":
		b.WriteByte('[')
		t.ws(false)
		t.ident(s.name)
		t.ws(false)
		b.WriteString(s.op)
		if s.op == "" {
			b.WriteByte(']')
			return
		}
		t.ws(false)
		switch {
		case s.op == "#=":
			b.WriteString(s.val)
		case s.val != "" && t.r.Intn(2) == 0:
			t.ident(s.val)
			t.ws(s.insens)
		default:
			t.str(s.val)
			t.ws(false)
		}
		if s.insens {
			b.WriteString(t.caseOf("i"))
			t.ws(false)
		}
		b.WriteByte(']')
	case "nth":
		b.WriteByte(':')
		side, typ := "", "child"
		if s.ofType {
			typ = "of-type"
		}
		if s.plain {
			side = "first-"
			if s.last {
				side = "last-"
			}
			t.keyword(side + typ)
			return
		}
		if s.last {
			side = "last-"
		}
		t.keyword("nth-" + side + typ)
		b.WriteByte('(')
		t.ws(false)
		t.nth(s.a, s.b)
		t.ws(false)
		b.WriteByte(')')
	case "pseudo":
		b.WriteByte(':')
		t.keyword(s.name)
	case "list":
		b.WriteByte(':')
		t.keyword(s.name)
		b.WriteByte('(')
		t.ws(false)
		t.group(s.list)
		t.ws(false)
		b.WriteByte(')')
	case "lang":
		b.WriteByte(':')
		t.keyword(s.name)
		b.WriteByte('(')
		t.ws(false)
		t.ident(t.caseOf(s.val))
		t.ws(false)
		b.WriteByte(')')
	case "contains":
		b.WriteByte(':')
		t.keyword(s.name)
		b.WriteByte('(')
		t.ws(false)
		t.str(s.val)
		t.ws(false)
		b.WriteByte(')')
	case "regex":
		b.WriteByte(':')
		t.keyword(s.name)
		b.WriteString("(" + s.val + ")")
	}
}

func (t *selText) complex(c *complexSel) {
	for i := range c.parts {
		if i > 0 {
			if comb := c.combs[i-1]; comb == ' ' {
				t.ws(true)
			} else {
				if t.vary == 0 {
					t.b.WriteByte(' ')
				}
				t.ws(false)
				t.b.WriteByte(comb)
				if t.vary == 0 {
					t.b.WriteByte(' ')
				}
				t.ws(false)
			}
		}
		p := &c.parts[i]
		t.b.WriteString(p.star)
		for j := range p.simples {
			t.simple(&p.simples[j])
		}
		if p.pe != "" {
			colon := "::"
			switch p.pe {
			case "before", "after", "first-line", "first-letter":
				colon = pick(t.r, ":", "::")
			}
			t.b.WriteString(colon)
			t.keyword(p.pe)
		}
	}
}

func (t *selText) group(g []*complexSel) {
	for i, c := range g {
		if i > 0 {
			t.ws(false)
			t.b.WriteByte(',')
			if t.vary == 0 {
				t.b.WriteByte(' ')
			}
			t.ws(false)
		}
		t.complex(c)
	}
}

func selString(r *rand.Rand, g []*complexSel, vary float64) string {
	t := &selText{r: r, vary: vary}
	t.ws(false)
	t.group(g)
	t.ws(false)
	return t.b.String()
}

// ---- generation ----

type selGen struct {
	*docGen
	els     []*el
	ext     bool // extensions to CSS
	dynamic bool // pseudo-classes that no static document can match
	enabled bool // :enabled allowed
	never   bool // pseudo-classes of user interaction, which match nothing in a document nobody is looking at
	pes     bool
	kinds   map[string]int
}

var standardPEs = []string{"before", "after", "first-line", "first-letter", "marker", "placeholder", "selection", "backdrop", "cue", "grammar-error", "spelling-error"}
var dynamicPseudo = []string{"hover", "active", "focus", "visited", "target", "read-only", "focus-within", "focus-visible", "fullscreen", "modal", "picture-in-picture", "autofill", "popover-open", "host",
	"moz-placeholder", "-moz-focusring", "-moz-placeholder", "-moz-ui-invalid", "-moz-read-only"}

// vendorPEs are pseudo-elements too, though PseudoElement() doesn't tell about them
var vendorPEs = []string{"-moz-placeholder", "-webkit-outer-spin-button", "-webkit-search-decoration", "-webkit-file-upload-button", "-webkit-scrollbar", "-webkit-scrollbar-button", "-webkit-scrollbar-thumb", "-webkit-scrollbar-track"}
var staticPseudo = []string{"only-child", "only-of-type", "empty", "root", "link", "disabled", "checked"}
var regexArgs = []string{`a`, `^$`, `[a-z]+`, `(a|b)`, `\d`, `^a.*b$`, `é`, `[^\s]`, `l{2}`, `a,b`, `"`, `.`, `(?i)HELLO`, `((x))`, `\\`, `'`, `x*`}

func (g *selGen) nth(s *simple, e *el) {
	r := g.r
	s.kind = "nth"
	s.last, s.ofType = r.Intn(2) == 0, r.Intn(2) == 0
	if r.Intn(4) == 0 {
		s.plain, s.a, s.b = true, 0, 1
		return
	}
	idx := 1 + r.Intn(4)
	if e != nil {
		idx = e.pos + 1
		if s.last {
			idx = len(e.sibs) - e.pos
		}
	}
	switch r.Intn(6) {
	case 0:
		s.a, s.b = 0, idx
	case 1:
		s.a, s.b = 2, r.Intn(2)
	case 2:
		s.a, s.b = -1-r.Intn(2), idx+r.Intn(3)
	case 3:
		s.a = 1 + r.Intn(3)
		s.b = idx - s.a*r.Intn(4)
	case 4:
		s.a, s.b = 1, -r.Intn(4)
	default:
		s.a, s.b = r.Intn(9)-4, r.Intn(13)-6
		if r.Intn(8) == 0 {
			s.b *= 1000
			s.a *= 333
		}
	}
}

// simple returns a simple selector; if e is not nil, mostly one that e matches.
func (g *selGen) simple(e *el, depth int) simple {
	r := g.r
	var s simple
	if e != nil && r.Intn(6) == 0 {
		e = nil
	}
	switch n := r.Intn(30); {
	case n < 7:
		s.kind, s.name = "class", pick(r, g.classes...)
		if e != nil {
			if w := words(e.attrs["class"]); len(w) > 0 {
				s.name = pick(r, w...)
			}
		}
	case n < 9:
		s.kind, s.name = "id", pick(r, g.ids...)
		if e != nil && e.attrs["id"] != "" {
			s.name = e.attrs["id"]
		}
	case n < 15:
		g.attr(&s, e)
		s.name = g.anyCase(s.name)
	case n < 18:
		g.nth(&s, e)
	case n < 21:
		s.kind = "pseudo"
		s.name = pick(r, staticPseudo...)
		if g.enabled && r.Intn(3) == 0 {
			s.name = "enabled"
		}
		if g.never && r.Intn(6) == 0 {
			s.name = pick(r, dynamicPseudo[:5]...)
		}
		if g.dynamic && r.Intn(2) == 0 {
			s.name = pick(r, dynamicPseudo...)
		}
	case n < 22:
		s.kind, s.name, s.val = "lang", "lang", pick(r, "en", "en", "en-us", "fr", "EN", "de", "e", "en-gb", "us", "at", "hant", "tw", "zh-hant", "x")
	case n < 24 && g.ext:
		switch r.Intn(4) {
		case 0, 1:
			s.kind, s.name, s.val = "contains", pick(r, "contains", "containsown"), pick(r, "", "x", "HELLO", "lo", "o w", "x\u00a0", "\"", "'")
		case 2:
			s.kind, s.name, s.val = "regex", pick(r, "matches", "matchesown"), pick(r, regexArgs...)
			s.re = regexp.MustCompile(s.val)
		default:
			s.kind, s.name = "pseudo", "input"
		}
	case depth > 0:
		s.kind = "list"
		s.name = pick(r, "is", "where", "not", "has", "is", "not", "has")
		if g.ext && r.Intn(8) == 0 {
			s.name = "haschild"
		}
		k := r.Intn(3)
		if r.Intn(8) == 0 {
			k += r.Intn(6)
		}
		for ; k >= 0; k-- {
			x := e
			switch s.name {
			case "has", "haschild":
				if e != nil && len(e.kids) > 0 {
					x = pick(r, e.kids...)
					for s.name == "has" && len(x.kids) > 0 && r.Intn(2) == 0 {
						x = pick(r, x.kids...)
					}
				}
			case "not":
				x = nil
				if len(g.els) > 0 {
					x = pick(r, g.els...)
				}
			}
			s.list = append(s.list, g.complex(x, depth-1))
		}
	default:
		s.kind, s.name = "class", pick(r, g.classes...)
	}
	return s
}

func (g *selGen) attr(s *simple, e *el) {
	r := g.r
	s.kind = "attr"
	s.name = pick(r, g.keys...)
	s.val = pick(r, g.vals...)
	if r.Intn(8) == 0 {
		s.name, s.val = "class", pick(r, g.classes...)
	}
	if r.Intn(12) == 0 {
		s.name = pick(r, "href", "disabled", "lang", "type", "checked", "id")
		return // names whose values may be compared without regard to case in HTML: only their presence is tested
	}
	if e != nil {
		for _, k := range append([]string{"class"}, g.keys...) {
			if v, ok := e.attrs[k]; ok && r.Intn(2) == 0 {
				s.name, s.val = k, v
			}
		}
	}
	s.op = pick(r, "", "=", "~=", "|=", "^=", "$=", "*=", "=")
	if g.ext && r.Intn(8) == 0 {
		s.op = "!="
	}
	if g.ext && r.Intn(14) == 0 {
		s.op, s.val = "#=", pick(r, regexArgs...)
		s.re = regexp.MustCompile(s.val)
		return
	}
	if s.op == "" {
		s.val = ""
		return
	}
	rs := []rune(s.val)
	if len(rs) > 0 {
		i, j := r.Intn(len(rs)+1), r.Intn(len(rs)+1)
		if i > j {
			i, j = j, i
		}
		w := words(s.val)
		switch s.op {
		case "~=":
			if len(w) > 0 {
				s.val = pick(r, w...)
			}
		case "|=":
			if k := strings.IndexByte(s.val, '-'); k >= 0 {
				s.val = s.val[:k]
			}
		case "^=":
			s.val = string(rs[:j])
		case "$=":
			s.val = string(rs[i:])
		case "*=":
			s.val = string(rs[i:j])
		}
	}
	if r.Intn(5) == 0 {
		s.val = mutate(r, s.val)
	}
	if r.Intn(3) == 0 {
		s.insens = true
		if r.Intn(2) == 0 {
			s.val = swapCase(r, s.val)
		}
	}
}

// anyCase varies the case of a name now and then.
func (g *selGen) anyCase(s string) string {
	switch g.r.Intn(8) {
	case 0:
		return swapCase(g.r, s)
	case 1:
		return fold(s, true)
	}
	return s
}

func swapCase(r *rand.Rand, s string) string {
	b := []byte(s)
	for i, c := range b {
		if r.Intn(2) == 0 && ('a' <= c && c <= 'z' || 'A' <= c && c <= 'Z') {
			b[i] = c ^ 32
		}
	}
	return string(b)
}

func (g *selGen) compound(e *el, depth int) compound {
	r := g.r
	var c compound
	switch r.Intn(10) {
	case 0:
		c.star = pick(r, "*", "*|*")
	case 1, 2, 3:
		t := simple{kind: "tag", name: pick(r, g.tags...)}
		if e != nil && r.Intn(5) > 0 {
			t.name = e.tag
		}
		t.name = g.anyCase(t.name)
		c.simples = append(c.simples, t)
	}
	n := r.Intn(3)
	if len(c.simples) == 0 && c.star == "" {
		n++
	}
	for ; n > 0; n-- {
		c.simples = append(c.simples, g.simple(e, depth))
	}
	return c
}

// complex returns a selector; if e is not nil, mostly one that e matches.
func (g *selGen) complex(e *el, depth int) *complexSel {
	r := g.r
	c := &complexSel{}
	n := 1
	for n < 4 && r.Intn(5) < 2 {
		n++
	}
	parts := []compound{g.compound(e, depth)}
	var combs []byte
	for i := 1; i < n; i++ {
		comb := pick(r, byte(' '), '>', '+', '~')
		var x *el
		if e != nil {
			for try := 0; try < 4 && x == nil; try++ {
				comb = pick(r, byte(' '), '>', '+', '~')
				switch {
				case comb == '>' && e.parent != nil:
					x = e.parent
				case comb == ' ' && e.parent != nil:
					for x = e.parent; x.parent != nil && r.Intn(2) == 0; x = x.parent {
					}
				case comb == '+' && e.pos > 0:
					x = e.sibs[e.pos-1]
				case comb == '~' && e.pos > 0:
					x = e.sibs[r.Intn(e.pos)]
				}
			}
		}
		parts = append(parts, g.compound(x, depth))
		combs = append(combs, comb)
		e = x
	}
	for i := len(parts) - 1; i >= 0; i-- {
		c.parts = append(c.parts, parts[i])
	}
	for i := len(combs) - 1; i >= 0; i-- {
		c.combs = append(c.combs, combs[i])
	}
	return c
}

func (g *selGen) group(depth int) []*complexSel {
	r := g.r
	n := 1
	for n < 5 && r.Intn(4) == 0 {
		n++
	}
	if r.Intn(60) == 0 {
		n += r.Intn(12)
	}
	var out []*complexSel
	for i := 0; i < n; i++ {
		var e *el
		if len(g.els) > 0 && r.Intn(8) > 0 {
			e = pick(r, g.els...)
		}
		c := g.complex(e, depth)
		if g.pes && r.Intn(4) == 0 {
			p := &c.parts[len(c.parts)-1]
			p.pe = pick(r, standardPEs...)
			if r.Intn(3) == 0 {
				p.pe = pick(r, vendorPEs...)
			}
			if r.Intn(5) == 0 {
				p.star, p.simples = "", nil
			}
		}
		out = append(out, c)
	}
	return out
}

func features(g []*complexSel, m map[string]bool) {
	for _, c := range g {
		for _, b := range c.combs {
			m[fmt.Sprintf("combinator %q", b)] = true
		}
		for _, p := range c.parts {
			if p.star != "" {
				m[p.star] = true
			}
			for _, s := range p.simples {
				switch s.kind {
				case "attr":
					k := "[" + s.op + "]"
					if s.insens {
						k = "[" + s.op + " i]"
					}
					m[k] = true
				case "nth":
					k := ":nth-"
					if s.last {
						k += "last-"
					}
					if s.ofType {
						k += "of-type"
					} else {
						k += "child"
					}
					m[k] = true
				case "pseudo", "list", "contains", "regex", "lang":
					m[":"+s.name] = true
					features(s.list, m)
				default:
					m[s.kind] = true
				}
			}
		}
	}
}
