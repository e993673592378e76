//go:build go1.22

package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
)

// ---- the reviewed table of shorthands (data/expansion.json) ----

type expansionTable map[string][]string // property -> individual properties

var (
	expOnce sync.Once
	exp     expansionTable
	expAll  []string // all properties, sorted
	expSh   []string // the shorthands among them
)

func expansion() expansionTable {
	expOnce.Do(func() {
		b, err := os.ReadFile(filepath.Join(gDataDir, "expansion.json"))
		if err != nil {
			panic(err)
		}
		if err := json.Unmarshal(b, &exp); err != nil {
			panic(err)
		}
		for k, v := range exp {
			expAll = append(expAll, k)
			if len(v) != 1 || v[0] != k {
				expSh = append(expSh, k)
			}
		}
		sort.Strings(expAll)
		sort.Strings(expSh)
	})
	return exp
}

// individual returns the individual properties a declaration of prop sets.
func individual(prop string) []string {
	if v, ok := expansion()[prop]; ok {
		return v
	}
	return []string{prop}
}

// ---- model of a stylesheet ----

type Decl struct {
	Prop string
	Name string   // how the name of a custom property is written; "" means plainly
	Atom []string // value atoms, separated by whitespace (or nothing for an empty custom value)
	Imp  bool
	Uses []string // custom properties the value references
}

func (d Decl) custom() bool { return strings.HasPrefix(d.Prop, "--") }

// Member is one selector of a selector list.
type Member struct {
	Tmpl    string // "" for a class with pseudo-classes; otherwise a template with %0 and %1
	Class   [2]string
	Pseudos []string
	PE      string
}

type Cond struct {
	Kind string // media or supports
	Text string
}

type Rule struct {
	Conds   []Cond
	Members []Member
	Decls   []Decl
	Raw     string // if not empty: text without any effect, in place of a rule
}

type Sheet struct{ Rules []Rule }

func (m Member) classes() []string {
	if m.Tmpl == "" {
		return []string{m.Class[0]}
	}
	out := []string{m.Class[0]}
	if strings.Contains(m.Tmpl, "%1") {
		out = append(out, m.Class[1])
	}
	return out
}

// key returns the circumstance of the class in this selector.
func (m Member) key(class string) string {
	if m.Tmpl == "" {
		ps := append([]string(nil), m.Pseudos...)
		sort.Strings(ps)
		return "S" + strings.Join(ps, "") + "|" + m.PE
	}
	tmpl := m.Tmpl
	if class == m.Class[1] { // the order in a compound has no meaning
		tmpl = strings.ReplaceAll(tmpl, "%0%1", "%1%0")
	}
	s := "T" + tmpl
	for i, c := range m.classes() {
		ph := fmt.Sprint("%", i)
		if c == class {
			s = strings.ReplaceAll(s, ph, "\x01")
		} else {
			s = strings.ReplaceAll(s, ph, "\x02"+c+"\x02")
		}
	}
	return s
}

func condKey(cs []Cond) string {
	var b strings.Builder
	for _, c := range cs {
		b.WriteString(c.Kind + " " + c.Text + "{")
	}
	return b.String()
}

// ---- rendering ----

// Lay decides about the text layout. A nil *rand.Rand is the canonical layout.
type Lay struct {
	r       *rand.Rand
	escapes float64 // probability of needless escapes
}

var comments = []string{"/**/", "/* x */", "/* .a { color: red } */", "/*;*/", "/*}*/", "/* \" */", "/* ' */", "/*! keep */", "/***/", "/* @media */"}

func (l *Lay) ws() string { // optional whitespace
	if l.r == nil {
		return ""
	}
	switch l.r.Intn(10) {
	case 0, 1, 2, 3, 4:
		return ""
	case 5, 6:
		return " "
	case 7:
		return pick(l.r, "\n", "\r\n", "\t", "\n\n  ", "\f")
	case 8:
		return pick(l.r, comments...)
	default:
		return " " + pick(l.r, comments...) + pick(l.r, "", "\n", "\r\n")
	}
}

func (l *Lay) pad() string { // optional whitespace, with fewer comments
	if l.r == nil || l.r.Intn(2) == 0 {
		return ""
	}
	if l.r.Intn(10) == 0 {
		return pick(l.r, "", " ") + pick(l.r, comments...) + pick(l.r, "", " ", "\n")
	}
	return pick(l.r, " ", "  ", "\n", "\r\n", "\t", "\n\t")
}

func (l *Lay) sp() string { // required whitespace
	if l.r == nil {
		return " "
	}
	if l.r.Intn(15) == 0 {
		return " " + pick(l.r, comments...) + pick(l.r, "", " ", "\n")
	}
	return pick(l.r, " ", " ", " ", "  ", "\n", "\r\n", "\t", "\n    ")
}

func (l *Lay) sep() string { // between words where a comment alone will do
	if l.r != nil && l.r.Intn(8) == 0 {
		return pick(l.r, comments...)
	}
	return l.sp()
}

func (l *Lay) cas(s string) string {
	if l.r == nil || l.r.Intn(3) > 0 {
		return s
	}
	switch l.r.Intn(3) {
	case 0:
		return strings.ToUpper(s)
	case 1:
		return strings.ToUpper(s[:1]) + s[1:]
	default:
		b := []byte(s)
		for i := range b {
			if l.r.Intn(2) == 0 {
				b[i] = strings.ToUpper(string(b[i]))[0]
			}
		}
		return string(b)
	}
}

func (l *Lay) ident(s string) string { return cssIdent(l.rr(), s, l.escapes) }

func (l *Lay) rr() *rand.Rand {
	if l.r == nil {
		s := splitmix(7)
		return rand.New(&s)
	}
	return l.r
}

func (l *Lay) member(m Member) string {
	if m.Tmpl == "" {
		s := "." + l.ident(m.Class[0]) + strings.Join(m.Pseudos, "")
		if m.PE != "" {
			c := "::"
			if l.r != nil && l.r.Intn(3) == 0 && (m.PE == "before" || m.PE == "after" || m.PE == "first-line" || m.PE == "first-letter") {
				c = ":"
			}
			s += c + m.PE
		}
		return s
	}
	var b strings.Builder
	parts := strings.Split(l.airy(m.Tmpl), " ")
	for i, p := range parts {
		if p == ">" || p == "+" || p == "~" {
			if l.r == nil {
				b.WriteString(" " + p + " ")
			} else {
				b.WriteString(l.pad() + p + l.pad())
			}
			continue
		}
		if i > 0 && !strings.Contains(">+~", parts[i-1]) {
			b.WriteString(l.sp())
		}
		for k, c := range m.classes() {
			p = strings.ReplaceAll(p, fmt.Sprint("%", k), "."+strings.ReplaceAll(l.ident(c), "%", "\xff"))
		}
		b.WriteString(strings.ReplaceAll(p, "\xff", "%"))
	}
	return b.String()
}

// airy puts comments between the parts of compound selectors and whitespace into attribute selectors.
func (l *Lay) airy(t string) string {
	if l.r == nil || l.r.Intn(3) > 0 {
		return t
	}
	var b strings.Builder
	var quote byte
	depth := 0
	for i := 0; i < len(t); i++ {
		c := t[i]
		switch {
		case quote != 0:
			if c == quote {
				quote = 0
			}
		case c == '"' || c == '\'':
			quote = c
		case c == '[':
			depth++
			if l.r.Intn(6) == 0 && i > 0 && t[i-1] != ' ' && t[i-1] != '(' {
				b.WriteString("/*x*/")
			}
			b.WriteString("[" + pick(l.r, "", "\t", "\n", "/**/"))
			continue
		case c == ']':
			depth--
			b.WriteString(pick(l.r, "", "\t", "\n", "/**/"))
		case depth > 0 && c == '=' && !strings.ContainsRune("^$*~|", rune(t[i-1])):
			b.WriteString(pick(l.r, "", "\t", "/**/") + "=" + pick(l.r, "", "\n", "/**/"))
			continue
		case depth == 0 && l.r.Intn(8) == 0 && i > 0 && (c == ':' && t[i-1] != ':' || c == '#' || c == '%') && t[i-1] != ' ' && t[i-1] != '(' && t[i-1] != ',':
			b.WriteString("/*x*/")
		}
		b.WriteByte(c)
	}
	return b.String()
}

func (l *Lay) selector(ms []Member) string {
	var b strings.Builder
	for i, m := range ms {
		if i > 0 {
			b.WriteString(l.pad() + "," + l.ws())
		}
		b.WriteString(l.member(m))
	}
	return b.String()
}

func (l *Lay) decl(d Decl) string {
	var b strings.Builder
	if d.custom() {
		b.WriteString(d.written())
	} else {
		b.WriteString(l.cas(d.Prop))
	}
	b.WriteString(l.pad() + ":")
	if !d.custom() || len(d.Atom) > 0 {
		b.WriteString(l.ws())
	} else if l.r == nil || !d.Imp {
		b.WriteString(" ")
	}
	for i, a := range d.Atom {
		if i > 0 {
			b.WriteString(l.sp())
		}
		b.WriteString(a)
	}
	if d.Imp {
		if l.r == nil {
			b.WriteString(" !important")
		} else {
			b.WriteString(l.pad() + "!" + l.pad() + l.cas("important"))
		}
	}
	return b.String()
}

// written returns the name of the property as the stylesheet spells it.
func (d Decl) written() string {
	if d.Name != "" {
		return d.Name
	}
	return d.Prop
}

// spellVar writes the name of a custom property, at times with escapes that it does not need.
func (g *Gen) spellVar(name, where string) string {
	vary := 0.0
	if g.P.EscVars && g.Intn(5) == 0 {
		vary = g.Float64() * 0.4
	}
	return "--" + cssIdentWith(g.Rand, name[2:], vary, " ", where)
}

func (l *Lay) decls(ds []Decl) string {
	var b strings.Builder
	b.WriteString(l.ws())
	for i, d := range ds {
		b.WriteString(l.decl(d))
		if i < len(ds)-1 || l.r == nil || l.r.Intn(2) == 0 {
			b.WriteString(l.pad() + ";")
			if l.r != nil && l.r.Intn(12) == 0 {
				b.WriteString(";")
			}
		}
		b.WriteString(l.ws())
	}
	return b.String()
}

func (l *Lay) prelude(c Cond) string {
	if l.r == nil {
		return "@" + c.Kind + " " + c.Text
	}
	var b strings.Builder
	b.WriteString("@" + l.cas(c.Kind))
	if c.Text[0] != '(' || l.r.Intn(4) > 0 {
		b.WriteString(l.sep())
	}
	b.WriteString(l.pad())
	for i := 0; i < len(c.Text); i++ {
		ch := c.Text[i]
		switch {
		case ch == ':' && strings.Count(c.Text[:i], "(") > strings.Count(c.Text[:i], ")"):
			b.WriteString(l.pad() + ":" + l.pad())
		case (ch == '>' || ch == '<') && i+1 < len(c.Text) && c.Text[i+1] == '=':
			b.WriteString(l.pad() + string(ch) + "=" + l.pad())
			i++
		case ch == ' ':
			b.WriteString(l.sep())
		case ch == '(':
			b.WriteString("(" + l.pad())
		case ch == ')':
			b.WriteString(l.pad() + ")")
		case ch == ',':
			b.WriteString(l.pad() + "," + l.pad())
		default:
			b.WriteByte(ch)
		}
	}
	b.WriteString(l.pad())
	return b.String()
}

func (l *Lay) rule(r Rule) string {
	if r.Raw != "" {
		return r.Raw
	}
	s := l.selector(r.Members)
	if l.r == nil {
		return s + " { " + l.decls(r.Decls) + "}\n"
	}
	return s + l.ws() + "{" + l.decls(r.Decls) + "}" + l.ws()
}

// render writes the rules, sharing at-rule blocks between neighbours in the varied layout.
func (l *Lay) render(rs []Rule) string { return l.renderFrom(rs, 0) }

func (l *Lay) renderFrom(rs []Rule, depth int) string {
	var b strings.Builder
	if depth == 0 && l.r != nil && l.r.Intn(12) == 0 {
		b.WriteString("\ufeff")
	}
	if depth == 0 && l.r != nil && l.r.Intn(4) == 0 {
		b.WriteString("@charset \"utf-8\";")
	}
	b.WriteString(l.ws())
	for i := 0; i < len(rs); {
		r := rs[i]
		if r.Raw != "" || len(r.Conds) <= depth {
			b.WriteString(l.rule(r))
			if l.r == nil && depth == 0 {
				b.WriteByte('\n')
			}
			i++
			continue
		}
		j := i + 1
		for l.r != nil && j < len(rs) && l.r.Intn(4) > 0 && (absorbable(rs[j].Raw) || samePrefix(r.Conds, rs[j].Conds, depth+1)) {
			j++
		}
		inner := l.renderFrom(rs[i:j], depth+1)
		b.WriteString(l.prelude(r.Conds[depth]) + "{" + inner + "}" + l.ws())
		if l.r == nil {
			b.WriteByte('\n')
		}
		i = j
	}
	return b.String()
}

// absorbable reports whether text without effect may also stand inside an at-rule block.
func absorbable(raw string) bool {
	for _, p := range []string{"/*", "@keyframes", "@font-face", "@page", "@layer", "@container", "@scope", "@starting-style"} {
		if strings.HasPrefix(raw, p) {
			return true
		}
	}
	return false
}

func samePrefix(a, b []Cond, n int) bool {
	if len(a) < n || len(b) < n {
		return false
	}
	for i := 0; i < n; i++ {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (s *Sheet) css() string { return (&Lay{}).render(s.Rules) }

// ---- generation ----

var pseudoPool = []string{":hover", ":focus", ":active", ":visited", ":disabled", ":checked", ":first-child", ":last-child", ":only-child", ":empty",
	":nth-child(2n+1)", ":nth-child(3n+0)", ":nth-last-child(2n+2)", ":nth-of-type(2n+0)", ":focus-within", ":focus-visible", ":not(.zz)", ":has(img)", ":lang(en)", ":target", ":read-only", ":enabled", ":link", ":root", ":first-of-type", ":autofill",
	":not(.Zz)", ":not(#zz)", ":not(zz)", ":not([zz])", ":not(:hover)", ":not(:focus)", ":nth-child(2n+2)", ":nth-child(-2n+1)", ":nth-child(12n+1)", ":nth-last-child(2n+1)", ":nth-of-type(2n+1)", ":has(a)", ":has(img a)", ":lang(fr)",
	":not([zz=\"A\"])", ":not([zz=\"a\"])", ":not([zz=\"a\" i])",
	":-moz-placeholder", ":-moz-focusring", ":fullscreen", ":modal", ":popover-open", ":picture-in-picture", ":host", ":-moz-ui-invalid"}
var pePool = []string{"before", "after", "placeholder", "first-line", "first-letter", "marker", "selection", "backdrop", "cue", "spelling-error", "-webkit-scrollbar", "-webkit-scrollbar-thumb", "-webkit-file-upload-button", "-moz-placeholder"}

// templates of selectors around a class; no two of them describe the same surroundings.
var tmplPool = []string{"%1 %0", "%1 > %0", "%1 + %0", "%1 ~ %0", "%1:hover %0", "%1:focus ~ %0", "%0%1", "%0%1:hover", "div%0", "p%0:hover", "%0[data-x]",
	"%0[data-x=\"ab\"]", "%0 > * + *", "%0 *", "%0 > :not([hidden]) ~ :not([hidden])", "ul > %0", "%0 p::before", "%1 %0:hover", "%1 %0::before", "%1 %0:focus::after",
	"%0:is([dir=\"rtl\"] *)", ":where(%0) a", ":where(%0 > p)", ":is(%1,#id9) %0", "%0:where(%1 *)", "#id1 %0", "%0#id1", "html > body %0", "%1 > div > %0", "%0 ~ p", "%0 img",
	"%0:is(%1)", "[dir=\"ltr\"] %0", "a:hover > %0", "%0 > a:hover", "svg%0", "%1:not(.zz) %0", "%0 > li:nth-child(2n+1)", ":is(h1,h2) > %0", "%0 + %1",
	":is(%1,%0) p", ":where(%1,%0) > p", "div:is(a,%1,%0)", ":is(:where(p,%0),a) b", ":where(%0,%1):hover", "%0:not(.Open)", "%0:not(.open) p", "%0:not(.Open) p", "%0[data-x=\"AB\"]", "%0[data-x=\"ab\" i]", "%0[data-x=abi]", "%0[data-w=ab i]", "%0[data-x^=\"ab\"]", "%0[data-x~=\"ab\"]", "%0[data-y=\"ab\"]",
	"#ID1 %0", "%0#ID1", "%1 > div %0", "%1 div > %0", "%0 a", "%0 > a", "%0 + a", "%0 a b", "%0 > a b", "%0 a > b", "%0 :is(a) b", "section%0", "[data-z=\"x\"] %0", "[data-z=\"X\"] %0"}
var condPool = []Cond{{"media", "(min-width:640px)"}, {"media", "(min-width:768px)"}, {"media", "print"}, {"media", "screen and (max-width:100px)"}, {"media", "(prefers-color-scheme:dark)"},
	{"media", "(hover:hover) and (pointer:fine)"}, {"media", "not all and (min-width:640px)"}, {"media", "(width>=40rem)"}, {"media", "(400px<=width<=700px)"}, {"media", "(grid:0)"}, {"media", "screen,print"},
	{"supports", "(display:grid)"}, {"supports", "not (display:grid)"}, {"supports", "(color:red) or (color:blue)"}, {"supports", "(grid:0)"}, {"supports", "(--a:green)"}, {"supports", "(backdrop-filter:blur(1px))"},
	{"media", "(min-width:64px)"}, {"media", "(min-width:640.5px)"}, {"media", "(max-width:640px)"}, {"media", "(width<=40rem)"}, {"media", "(400px<=width<=701px)"}, {"media", "not print"}, {"media", "screen"}, {"supports", "(--A:green)"}, {"supports", "(--a:Green)"}, {"supports", "selector(.a)"}, {"supports", "selector(.A)"}, {"supports", "(font-family:\"A.b\")"}, {"supports", "(font-family:\"a.b\")"}, {"supports", "(display:grid) and (color:red)"}}

var varPool = []string{"--a", "--b", "--A", "--ab", "--a-b", "--tw-x", "--tw-x-y", "--a1", "--é", "--_", "--x1", "--Tw-x", "--tw-ring-offset-shadow"}

var plainAtoms = []string{"red", "0", "1px", "auto", "#fff", "#0000", "none", "inherit", "-1px", ".5em", "+1", "50%", "1e3px", "rgb(1 2 3/0.5)", "rgb(0,0,0)", "calc(100% - 1rem)", "calc((1px + 2px)*3)",
	"url(a.png)", "url(\"x;y{}\")", "url('a b')", "\"str\"", "'a b'", "'!important'", "\"var(--a)\"", "'/* no */'", "\"a\\\"b\"", "\"\\201C\"", "a,b", "translate(1px,2px)", "-webkit-box", "U+26", "1fr", "minmax(0,1fr)", "[full]", "a/b", "important", "\"}\"", "';'", "repeat(2,minmax(0,1fr))", "cubic-bezier(0.4,0,.2,1)", "var", "--x", "foo-var(--a)", "xvar(--b)", "-var(--a)", "_var(--ab)", "évar(--a)", "\\,var(--a)", "var2(--a)", "#var(--a)", "@var(--ab)", "1var(--a)", "env(--b)", "'\\'var(--a)'", "\"\\\\\"", "[var]", "\"\\\nvar(--a)\"", "a\\!important", "a\\\\", "a\\\\\\!important"}

// randomAtom returns one token, or a function with some, that no list above contains.
func randomAtom(r *rand.Rand) string {
	chars := func(n int, set string) string {
		b := make([]byte, n)
		for i := range b {
			b[i] = set[r.Intn(len(set))]
		}
		return string(b)
	}
	const letters, hexes, digits = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ", "0123456789abcdefABCDEF", "0123456789"
	word := func() string {
		s := pick(r, "", "", "-", "_", "--") + chars(1+r.Intn(9), letters+"-_"+letters) + chars(r.Intn(3), digits)
		if strings.Trim(s, "-") == "" {
			return "x"
		}
		return s
	}
	number := func() string {
		s := pick(r, "", "", "-", "+") + pick(r, chars(1+r.Intn(6), digits), chars(r.Intn(3), digits)+"."+chars(1+r.Intn(4), digits))
		if r.Intn(8) == 0 {
			s += pick(r, "e", "E") + pick(r, "", "-", "+") + chars(1+r.Intn(2), digits)
		}
		return s
	}
	switch r.Intn(12) {
	case 0, 1:
		return "#" + chars(pick(r, 1, 2, 4, 6, 1+r.Intn(14)), hexes) + pick(r, chars(2, hexes), "ff", "00", "80", "FF")
	case 2:
		return "#" + chars(1+r.Intn(12), letters+digits+"-_")
	case 3, 4:
		return number() + pick(r, "", "%", "px", "PX", "rem", "s", "ms", "deg", "fr", "Q", "x", "dvh", "cqw", "dppx", word())
	case 5:
		return word()
	case 6:
		q := pick(r, "\"", "'")
		return q + chars(r.Intn(20), letters+" ;:{}()[],.!@#/*-+"+digits) + pick(r, "", "\\"+q, "\\\\", "\\A ", "\\\n", "é") + q
	case 7:
		return "url(" + chars(1+r.Intn(20), letters+digits+"/.:?&=#%;,+-_@!*~{}") + ")"
	case 8:
		return word() + "(" + randomAtom(r) + pick(r, "", ",", " ", "/", ", ") + pick(r, plainAtoms[:16]...) + ")"
	case 9:
		return pick(r, "U+", "u+") + pick(r, chars(1+r.Intn(5), digits+"ABCDEF"), chars(2, digits)+"-"+chars(2, "89AF"), chars(2, digits)+"??")
	case 10:
		return number() + pick(r, ",", "/", "*", ", ") + number()
	default:
		return cssIdent(r, word()+string(genRune(r)), 0.1) + "z"
	}
}

// longCond returns a condition of many parts, and one that differs from it in one place.
func longCond(r *rand.Rand) (a, b Cond) {
	n := 3 + r.Intn(pick(r, 3, 6, 12, 40))
	part := func(supports bool) string {
		if supports {
			return pick(r, "(display:grid)", "(color:red)", "(--a:green)", "not (grid:0)", "(top:", "(top:", "(top:")
		}
		return pick(r, "(hover:hover)", "(pointer:fine)", "(min-width:", "(max-width:", "(min-height:", "(width>=")
	}
	kind := pick(r, "media", "media", "supports")
	parts := make([]string, n)
	for i := range parts {
		parts[i] = part(kind == "supports")
		if strings.HasSuffix(parts[i], ":") || strings.HasSuffix(parts[i], "=") {
			parts[i] += fmt.Sprint(i*10+r.Intn(10), "px)")
		}
		if kind == "supports" && strings.HasPrefix(parts[i], "not") {
			parts[i] = "(" + parts[i] + ")"
		}
	}
	sep := pick(r, " and ", " and ", ",", " or ")
	if kind == "supports" && sep == "," {
		sep = " or "
	}
	a = Cond{kind, strings.Join(parts, sep)}
	i := r.Intn(n)
	if r.Intn(2) == 0 {
		i = n - 1
	}
	parts[i] = "(z-index:1)"
	return a, Cond{kind, strings.Join(parts, sep)}
}

type Gen struct {
	*rand.Rand
	A, D, U []string // class pools: main, context, unknown to every sheet
	Props   []string
	Vars    []string
	Conds   []Cond
	Pseudos []string
	PEs     []string
	Tmpls   []string
	P       Profile
	huge    int      // very long values so far
	bulk    string   // what there is very much of
	chain   []Rule   // classes that define a custom property with the next one each
	made    []Member // class with pseudo-classes or a pseudo-element, as generated so far
}

// Profile sets the probabilities of features.
type Profile struct {
	NA, ND, NU             int
	Props                  int
	Shorthands             float64
	Cond, Pseudo, PE, Tmpl float64
	List, Multi            float64
	Imp, Custom, Use       float64
	Empty                  float64
	Junk                   float64
	SimpleNames            bool
	DeclMax                int
	NoDup                  bool
	Circ                   int // size of the pools of circumstances
	ImpCustom              float64
	Big                    bool // at times very long lists, values, names or selectors
	EscVars                bool // custom properties with odd names, spelled in different ways
}

func newGen(r *rand.Rand, p Profile) *Gen {
	g := &Gen{Rand: r, P: p}
	taken := map[string]bool{"zz": true}
	g.A = genNames(r, p.NA, taken, p.SimpleNames)
	g.D = genNames(r, max(p.ND, 2), taken, p.SimpleNames)
	g.U = genNames(r, max(p.NU, 3), taken, p.SimpleNames)
	expansion()
	seen := map[string]bool{}
	addP := func(s string) {
		if !seen[s] {
			seen[s] = true
			g.Props = append(g.Props, s)
		}
	}
	for len(g.Props) < p.Props {
		if r.Intn(20) == 0 { // names like those of another property, for themselves another property
			x := pick(r, pick(r, expAll...), pick(r, expSh...), "hyphens", "appearance", "user-select", "margin", "text-size-adjust")
			addP(x)
			addP(pick(r, "-webkit-", "-moz-", "-ms-", "-o-", "x-", "*", "_") + x)
			if rest := strings.TrimPrefix(x, "-webkit-"); rest != x {
				addP(rest)
			}
			continue
		}
		if chance(r, p.Shorthands) {
			sh := pick(r, expSh...)
			if r.Intn(2) == 0 {
				sh = pick(r, "border", "margin", "padding", "border-top", "border-width", "border-color", "background", "font", "flex", "inset", "grid-area", "border-block", "overflow", "border-radius", "transition", "gap", "place-content", "border-inline-end", "grid")
			}
			addP(sh)
			for k := r.Intn(3); k > 0; k-- {
				in := individual(sh)
				addP(pick(r, in...))
			}
			if r.Intn(2) == 0 { // a property overlapping with it
				in := individual(sh)
				x := pick(r, in...)
				for t := 0; t < 20; t++ {
					o := pick(r, expSh...)
					if contains(individual(o), x) {
						addP(o)
						break
					}
				}
			}
		} else {
			addP(pick(r, "color", "width", "height", "display", "opacity", "stroke", "fill", "-x-foo", "position", "margin-top", "border-top-width", "border-color", "z-index", "aspect-ratio", "font-size", "text-wrap", "-webkit-font-smoothing", "colour", pick(r, expAll...)))
		}
	}
	if p.Big && r.Intn(25) == 0 {
		g.bulk = pick(r, "value", "value", "decls", "list", "list", "name", "members", "conds", "pseudos", "rules", "refs")
	}
	if g.bulk == "name" {
		for i := range g.A {
			if r.Intn(2) == 0 {
				g.A[i] += strings.Repeat(pick(r, "x", "-", "é", "ab", "1"), pick(r, 60, 255, 256, 1000, 5000)) + fmt.Sprint(i)
			}
		}
	}
	sub := func(pool []string, n int) []string {
		var out []string
		for _, i := range r.Perm(len(pool))[:min(n, len(pool))] {
			out = append(out, pool[i])
		}
		return out
	}
	n := p.Circ
	if n == 0 {
		n = 2 + r.Intn(3)
	}
	if g.bulk == "conds" || g.bulk == "pseudos" {
		n = 12
	}
	g.Vars = sub(varPool, 2+r.Intn(4))
	if g.bulk == "refs" {
		for i := 0; i < 100; i++ {
			g.Vars = append(g.Vars, fmt.Sprint("--v", i))
		}
	}
	defer g.oddVars()
	g.Pseudos = sub(pseudoPool, n)
	g.PEs = sub(pePool, 2)
	g.Tmpls = sub(tmplPool, n)
	for i := range g.Tmpls {
		switch r.Intn(8) {
		case 0, 1:
			g.Tmpls[i] = composed(r)
		case 2:
			g.Tmpls[i] = suffixed(r, g.Tmpls[i])
		case 3:
			if i > 0 {
				g.Tmpls[i] = nearTmpl(r, g.Tmpls[i-1])
			}
		}
	}
	for _, i := range r.Perm(len(condPool))[:min(n, len(condPool))] {
		g.Conds = append(g.Conds, condPool[i])
	}
	if r.Intn(8) == 0 {
		a, b := longCond(r)
		g.Conds = append(g.Conds, a, b)
	}
	if g.bulk == "decls" && r.Intn(2) == 0 {
		for i := 0; i < 300; i++ {
			g.Props = append(g.Props, fmt.Sprint("-x-", i))
		}
	}
	if g.bulk == "decls" {
		g.makeMany(pick(r, 20, 50, 100, 130, 260, 520, 1030))
	}
	if g.bulk == "refs" && p.Use > 0 && p.Custom > 0 {
		g.makeChain(pick(r, 5, 20, 60, 150, 400))
	}
	sort.Slice(g.Conds, func(i, j int) bool { return g.Conds[i].Kind+g.Conds[i].Text < g.Conds[j].Kind+g.Conds[j].Text })
	return g
}

// makeMany makes two classes with very many properties; one of them sets some that the other does not.
func (g *Gen) makeMany(n int) {
	var a, b []Decl
	k := g.Intn(n)
	if g.Intn(2) == 0 {
		k = n - 1
	}
	for i := 0; i < n; i++ {
		d := Decl{Prop: fmt.Sprint("-x-many-", i), Atom: []string{"1"}}
		a = append(a, d)
		if i != k {
			b = append(b, d)
		}
	}
	if g.Intn(3) == 0 {
		g.Shuffle(len(a), func(i, j int) { a[i], a[j] = a[j], a[i] })
	}
	if g.Intn(2) == 0 {
		a, b = b, a
	}
	g.chain = append(g.chain, Rule{Members: []Member{{Class: [2]string{"many-0", ""}}}, Decls: a}, Rule{Members: []Member{{Class: [2]string{"many-1", ""}}}, Decls: b})
}

// makeChain makes a chain of custom properties that use each other; sometimes a part of it, or the use at its front, is missing.
func (g *Gen) makeChain(n int) {
	dir := g.Intn(3)
	for i := 0; i < n; i++ {
		d := Decl{Prop: fmt.Sprint("--chain", i), Atom: []string{fmt.Sprintf("var(--chain%d)", i+1)}, Uses: []string{fmt.Sprint("--chain", i+1)}}
		g.chain = append(g.chain, Rule{Members: []Member{{Class: [2]string{fmt.Sprint("chain-", i), ""}}}, Decls: []Decl{d}})
	}
	if g.Intn(4) > 0 {
		g.chain = append(g.chain, Rule{Members: []Member{{Class: [2]string{"chain-use", ""}}}, Decls: []Decl{{Prop: "-x-chain", Atom: []string{"var(--chain0)"}, Uses: []string{"--chain0"}}}})
	}
	if g.Intn(3) == 0 {
		k := g.Intn(len(g.chain))
		g.chain = append(g.chain[:k:k], g.chain[k+1:]...)
	}
	switch dir {
	case 0:
		g.Shuffle(len(g.chain), func(i, j int) { g.chain[i], g.chain[j] = g.chain[j], g.chain[i] })
	case 1:
		for i, j := 0, len(g.chain)-1; i < j; i, j = i+1, j-1 {
			g.chain[i], g.chain[j] = g.chain[j], g.chain[i]
		}
	}
}

// oddVars adds custom properties whose names contain what a circumstance is written with, or characters that need an escape.
func (g *Gen) oddVars() {
	if !g.P.EscVars || g.Intn(3) > 0 {
		return
	}
	base := g.Vars[0]
	add := func(s string) {
		if !contains(g.Vars, s) {
			g.Vars = append(g.Vars, s)
		}
	}
	for k := 1 + g.Intn(2); k > 0; k-- {
		switch g.Intn(9) {
		case 0, 1:
			add(base + pick(g.Rand, g.Pseudos...))
		case 2:
			add(base + "::" + pick(g.Rand, g.PEs...))
		case 3, 4:
			cd := pick(g.Rand, g.Conds...)
			add(base + pick(g.Rand, "", "@", " ") + cd.Kind + pick(g.Rand, "", " ") + cd.Text)
		case 5:
			add(base + pick(g.Rand, " ", "") + pick(g.Rand, g.Tmpls...))
		case 6:
			add(base + pick(g.Rand, ":", "\\", ")", "(", ",", "!important", "!", ";", "{", "}", "'", "\"", "/*", "*/", " a", ".5", "@", "\ufffd", "\u00a0", "\x7f"))
		case 7:
			add("--" + genName(g.Rand))
		case 8:
			add("--" + nearName(g.Rand, base[2:]))
		}
	}
}

func contains(s []string, x string) bool {
	for _, v := range s {
		if v == x {
			return true
		}
	}
	return false
}

func (g *Gen) conds() []Cond {
	if !chance(g.Rand, g.P.Cond) {
		return nil
	}
	var out []Cond
	n := 1
	for n < 3 && g.Intn(3) == 0 {
		n++
	}
	if g.bulk == "conds" {
		n = 1 + g.Intn(len(g.Conds))
	}
	for _, c := range g.Conds { // always in the same order
		if len(out) < n && g.Intn(len(g.Conds)) < n {
			out = append(out, c)
		}
	}
	if out == nil {
		out = []Cond{pick(g.Rand, g.Conds...)}
	}
	return out
}

func (g *Gen) member(class string) Member {
	m := Member{Class: [2]string{class, pick(g.Rand, g.D...)}}
	if len(g.Tmpls) > 0 && chance(g.Rand, g.P.Tmpl) {
		m.Tmpl = pick(g.Rand, g.Tmpls...)
		if strings.Contains(m.Tmpl, "(%1,%0)") || strings.Contains(m.Tmpl, "(%0,%1)") || strings.Contains(m.Tmpl, "(a,%1,%0)") { // the order of the arguments has no meaning: keep the roles apart
			for !contains(g.A, m.Class[0]) {
				m.Class[0] = pick(g.Rand, g.A...)
			}
		}
		return m
	}
	if len(g.made) > 0 && (g.P.Pseudo > 0 || g.P.PE > 0) && g.Intn(3) == 0 { // an earlier circumstance again, perhaps in another order
		x := pick(g.Rand, g.made...)
		m.PE, m.Pseudos = x.PE, append([]string(nil), x.Pseudos...)
		g.Shuffle(len(m.Pseudos), func(i, j int) { m.Pseudos[i], m.Pseudos[j] = m.Pseudos[j], m.Pseudos[i] })
		return m
	}
	if chance(g.Rand, g.P.Pseudo) {
		n := 1
		for n < len(g.Pseudos) && n < 4 && g.Intn(2) == 0 {
			n++
		}
		if g.bulk == "pseudos" {
			n = 1 + g.Intn(len(g.Pseudos))
		}
		for _, i := range g.Perm(len(g.Pseudos))[:n] {
			m.Pseudos = append(m.Pseudos, g.Pseudos[i])
		}
	}
	if chance(g.Rand, g.P.PE) {
		m.PE = pick(g.Rand, g.PEs...)
	}
	if len(m.Pseudos) > 0 || m.PE != "" {
		g.made = append(g.made, m)
	}
	return m
}

// suffixed appends a pseudo-class and a pseudo-element to a template at random.
func suffixed(r *rand.Rand, t string) string {
	if strings.Contains(t, "::") {
		return t
	}
	if r.Intn(6) == 0 {
		if p := pick(r, pseudoPool...); !strings.Contains(t, p) {
			t += p
		}
	}
	if r.Intn(5) == 0 {
		t += "::" + pick(r, pePool...)
	}
	return t
}

// tmplCompound makes a compound selector around mark, with its parts in a fixed order.
func tmplCompound(r *rand.Rand, mark string) string {
	s := pick(r, "", "", "", "a", "p", "div", "svg", "x-y") + mark
	if r.Intn(8) == 0 {
		s += pick(r, "#id1", "#ID1", "#id2")
	}
	if r.Intn(6) == 0 {
		s += pick(r, "[data-x]", "[data-y]", "[data-x=\"1\"]", "[data-x=\"2\"]", "[data-x^=\"1\"]", "[hidden]", "[dir=\"rtl\"]")
	}
	if r.Intn(4) == 0 {
		s += pick(r, ":hover", ":focus", ":first-child", ":last-child", ":not(.zz)", ":not([hidden])", ":nth-child(2n+1)", ":empty", ":disabled", ":is(p)", ":where(p)", ":is(a)")
	}
	if s == "" {
		return "*"
	}
	return s
}

// composed makes a template of two to four compound selectors.
func composed(r *rand.Rand) string {
	n, at := 2+r.Intn(3), 0
	at = r.Intn(n)
	other := -1
	if r.Intn(2) == 0 {
		other = r.Intn(n)
	}
	var parts []string
	for i := 0; i < n; i++ {
		mark := ""
		if i == at {
			mark = "%0"
		}
		if i == other {
			mark += "%1"
		}
		parts = append(parts, tmplCompound(r, mark))
		if i < n-1 {
			if c := pick(r, "", "", ">", "+", "~"); c != "" {
				parts = append(parts, c)
			}
		}
	}
	return suffixed(r, strings.Join(parts, " "))
}

// nearTmpl changes one detail of a template.
func nearTmpl(r *rand.Rand, t string) string {
	if i := strings.Index(t, "::"); i >= 0 {
		return t[:i] + pick(r, "", "::"+pick(r, pePool...))
	}
	if i := strings.IndexAny(t, "(["); i >= 0 && strings.Contains(t[i:], " ") || r.Intn(3) == 0 {
		return t + "::" + pick(r, pePool...)
	}
	parts := strings.Split(t, " ")
	i := r.Intn(len(parts))
	switch p := parts[i]; {
	case strings.Contains(">+~", p):
		parts[i] = pick(r, ">", "+", "~", "")
	case strings.Contains(p, "%"):
		if i+1 < len(parts) && !strings.Contains(">+~", parts[i+1]) {
			parts[i] += pick(r, " >", " +", " ~")
		} else {
			parts[i] = p + pick(r, " a", " > a", " *", " p", "")
		}
	default:
		parts[i] = tmplCompound(r, "")
	}
	return strings.Join(strings.Fields(strings.Join(parts, " ")), " ")
}

func (g *Gen) value(custom bool) (atoms, uses []string) {
	n := 1
	for n < 4 && g.Intn(3) == 0 {
		n++
	}
	if g.P.Use > 0.15 && g.Intn(25) == 0 { // long values
		n += g.Intn(30)
	}
	if custom && g.Intn(6) == 0 {
		return nil, nil
	}
	if g.bulk == "value" && g.Intn(3) == 0 {
		size := pick(g.Rand, 60, 120, 250, 500, 1000, 4000, pick(g.Rand, 4000, 20000, 20000, 70000))
		if size > 1000 {
			if g.huge++; g.huge > 1 {
				size = 250
			}
		}
		switch g.Intn(4) {
		case 0:
			atoms = append(atoms, "url(data:image/png;base64,"+strings.Repeat("iVBORw0K", size/8)+"==)")
		case 1:
			atoms = append(atoms, "\""+strings.Repeat(pick(g.Rand, "x", "é", " ", "; ", "var(--a) "), size/8)+"\"")
		case 2:
			for i := 0; i < min(size/8, 3000); i++ {
				atoms = append(atoms, pick(g.Rand, plainAtoms...))
			}
		default:
			atoms = append(atoms, "url(\"data:image/svg+xml;utf8,<svg xmlns='x'>"+strings.Repeat("<path d='M0 0'/>", size/16)+"</svg>\")")
		}
	}
	if g.bulk == "refs" && g.Intn(4) == 0 {
		for k := g.Intn(80); k > 0; k-- {
			v := pick(g.Rand, g.Vars...)
			uses = append(uses, v)
			atoms = append(atoms, "var("+g.spellVar(v, "ref")+")")
		}
	}
	for i := 0; i < n; i++ {
		if chance(g.Rand, g.P.Use) {
			v := pick(g.Rand, g.Vars...)
			uses = append(uses, v)
			ref := g.spellVar(v, "ref")
			vf := "var"
			if g.Intn(8) == 0 {
				vf = pick(g.Rand, "VAR", "Var")
			}
			a := ""
			switch g.Intn(10) {
			case 0, 1, 2:
				a = vf + "(" + ref + ")"
			case 8: // no space around it
				l := pick(g.Rand, "\"(\"", "'x'", "url(a)", ")", "(", ",", "/", "[", "#fff,", "1px*", "\\\"", "'\\''", "\"\\\\\"", "foo(", "'var('", "\"'\"", "'\"'")
				r := pick(g.Rand, "\")\"", "'x'", "", "", ",1px", "/2", "\"'\"")
				switch l {
				case "(", "foo(":
					r = ")"
				case "[":
					r = "]"
				case ")":
					l = "f()"
				case "\\\"": // an escaped quote opens no string
					l, r = "a\\\" ", " b\\\""
				}
				a = l + vf + "(" + ref + ")" + r
			case 9:
				w := pick(g.Rand, g.Vars...)
				uses = append(uses, w)
				a = vf + "(" + ref + ")" + pick(g.Rand, "", ",", "'s'", "/", "\"a\"") + "var(" + g.spellVar(w, "ref") + ")"
			case 3:
				a = vf + "(" + ref + ",1px)"
			case 4:
				w := pick(g.Rand, g.Vars...)
				uses = append(uses, w)
				a = vf + "(" + ref + ",var(" + g.spellVar(w, "ref") + "))"
			case 5:
				a = "rgb(0 0 0/" + vf + "(" + ref + "))"
			case 6:
				a = "calc(" + vf + "( " + ref + " )*2)"
			case 7:
				w := pick(g.Rand, g.Vars...)
				uses = append(uses, w)
				a = "foo(var(" + g.spellVar(w, "ref") + ")," + vf + "(" + ref + "))"
			}
			atoms = append(atoms, a)
			continue
		}
		if g.P.Use > 0 && g.Intn(10) == 0 { // what only looks like a use
			ref := g.spellVar(pick(g.Rand, g.Vars...), "ref")
			a := pick(g.Rand, "#", "@", "x", "-", "--", "_", "1", "1px-", "é", "\\,", "env", "v") + pick(g.Rand, "var(", "Var(") + ref + ")"
			if g.Intn(3) == 0 {
				f := strings.Split(pick(g.Rand, "var (|)", "vars(|)", "var2(|)", "va(|)", "r(|)", "var-(|)", "(|)", "[|]", "\"var(|)\"", "'var(|)'"), "|")
				a = f[0] + ref + f[1]
			}
			atoms = append(atoms, a)
			continue
		}
		if g.Intn(4) == 0 {
			atoms = append(atoms, randomAtom(g.Rand))
			continue
		}
		atoms = append(atoms, pick(g.Rand, plainAtoms...))
	}
	return atoms, uses
}

func (g *Gen) decl() Decl {
	var d Decl
	if chance(g.Rand, g.P.Custom) {
		d.Prop = pick(g.Rand, g.Vars...)
		d.Name = g.spellVar(d.Prop, "def")
		d.Atom, d.Uses = g.value(true)
		d.Imp = chance(g.Rand, g.P.ImpCustom)
		return d
	}
	d.Prop = pick(g.Rand, g.Props...)
	d.Atom, d.Uses = g.value(false)
	d.Imp = chance(g.Rand, g.P.Imp)
	return d
}

func (g *Gen) decls() []Decl {
	if chance(g.Rand, g.P.Empty) {
		return nil
	}
	n := 1 + g.Intn(max(g.P.DeclMax, 1))
	if g.P.Big && g.Intn(30) == 0 {
		n += g.Intn(16)
	}
	if g.bulk == "decls" && g.Intn(3) == 0 {
		n = pick(g.Rand, 10, 20, 40, 100, 300)
	}
	out := make([]Decl, n)
	for i := range out {
		out[i] = g.decl()
	}
	return out
}

var junk = []string{
	"@charset \"utf-8\";", "@import url(\"x.css\");", "@import \"y.css\" screen;", "@layer base,utilities;", "@namespace url(http://x);",
	"@keyframes spin{from{color:red}to{color:blue}}", "@keyframes k{0%,50%{opacity:0}100%{opacity:var(--a)}}", "@font-face{font-family:x;src:url(x.woff)}", "@page{margin:1cm}", "@page :first{margin:1cm}",
	"@property --zz{syntax:\"*\";inherits:false}", "@counter-style c{system:cyclic;symbols:a b;suffix:\" \"}",
	"/* comment */", "<!-- -->", "@-webkit-keyframes z{from{top:0}}", "@font-feature-values F{@styleset{a:1}}",
}

func (g *Gen) rule(class string) Rule {
	r := Rule{Conds: g.conds(), Decls: g.decls(), Members: []Member{g.member(class)}}
	if list := chance(g.Rand, g.P.List); list || g.bulk == "members" && g.P.List > 0 {
		k := 1 + g.Intn(3)
		if g.bulk == "members" {
			k = g.Intn(pick(g.Rand, 2, 10, 60))
		}
		for ; k > 0; k-- {
			c := class
			if chance(g.Rand, 0.6) {
				c = pick(g.Rand, g.A...)
			}
			r.Members = append(r.Members, g.member(c))
		}
		g.Shuffle(len(r.Members), func(i, j int) { r.Members[i], r.Members[j] = r.Members[j], r.Members[i] })
	}
	return r
}

// sheet generates a stylesheet: usually one rule per class, sometimes more.
func (g *Gen) sheet() *Sheet {
	s := &Sheet{}
	if g.bulk == "rules" && g.P.Multi > 0 {
		for k := pick(g.Rand, 100, 300, 1000); k > 0; k-- {
			s.Rules = append(s.Rules, g.rule(pick(g.Rand, g.A...)))
		}
	}
	s.Rules = append(s.Rules, g.chain...)
	for _, i := range g.Perm(len(g.A)) {
		s.Rules = append(s.Rules, g.rule(g.A[i]))
		for chance(g.Rand, g.P.Multi) {
			s.Rules = append(s.Rules, g.rule(pick(g.Rand, g.A...)))
		}
		if g.P.Tmpl > 0 && g.Intn(4) == 0 {
			s.Rules = append(s.Rules, g.rule(pick(g.Rand, g.D...)))
			r := &s.Rules[len(s.Rules)-1]
			for i := range r.Members { // a class never occurs twice in one selector
				if r.Members[i].Tmpl != "" && r.Members[i].Class[0] == r.Members[i].Class[1] {
					r.Members[i].Class[0] = pick(g.Rand, g.A...)
				}
			}
		}
		if chance(g.Rand, g.P.Junk) {
			s.Rules = append(s.Rules, Rule{Raw: g.junkText()})
		}
	}
	return s
}

// junkText returns text that has no effect on merging.
func (g *Gen) junkText() string {
	switch g.Intn(4) {
	case 0: // rules in at-rules that are skipped
		return pick(g.Rand, "@layer x", "@container (width>1px)", "@layer", "@-moz-document url()", "@layer a", "@scope (.x)", "@starting-style") + g.skipped(0)
	default:
		return pick(g.Rand, junk...)
	}
}

// skipped returns a block of rules and at-rules.
func (g *Gen) skipped(depth int) string {
	var b strings.Builder
	b.WriteString("{")
	for k := 1 + g.Intn(4); k > 0; k-- {
		switch n := g.Intn(6); {
		case n < 2 && depth < 4:
			b.WriteString(pick(g.Rand, "@media print", "@supports (x:y)", "@layer y", "@container (width>2px)", "@media (min-width:1px)", "@keyframes q") + g.skipped(depth+1))
		case n == 2:
			b.WriteString(pick(g.Rand, "@layer z;", "p{top:0}", "a:unknown-thing{color:red}", "/* } */", "@import \"x\";", "@font-face{font-family:q}", "p{}", "p{--a:{}}"))
		default:
			b.WriteString("." + cssIdent(g.Rand, pick(g.Rand, g.A...), 0) + "{color:red;--a:1}")
		}
	}
	return b.String() + "}"
}

// arrange puts some lists into a special order.
func (g *Gen) arrange(l []string) {
	switch g.Intn(16) {
	case 0:
		sort.Strings(l)
	case 1:
		sort.Sort(sort.Reverse(sort.StringSlice(l)))
	case 2:
		sort.Slice(l, func(i, j int) bool { return len(l[i]) < len(l[j]) })
	}
}

// list generates a class list over the pools.
func (g *Gen) list() []string {
	n := 2 + g.Intn(5)
	switch g.Intn(12) {
	case 0:
		n = 1 + g.Intn(2)
	case 1, 2:
		n = 5 + g.Intn(20)
	case 3:
		if g.Intn(8) == 0 {
			n = 60 + g.Intn(200)
		}
	}
	if g.bulk == "list" && g.Intn(3) == 0 {
		n = pick(g.Rand, 30, 60, 120, 260, 520, 1100, 2100)
		out := make([]string, n)
		for i := range out {
			switch {
			case g.Intn(20) == 0:
				out[i] = pick(g.Rand, g.A...)
			case i > 0 && g.Intn(20) == 0:
				out[i] = out[g.Intn(i)]
			case g.Intn(20) == 0:
				out[i] = pick(g.Rand, g.U...)
			default:
				out[i] = fmt.Sprint("no-such-class-", i)
			}
		}
		g.arrange(out)
		return out
	}
	if len(g.chain) > 0 && g.Intn(3) == 0 {
		var out []string
		for _, r := range g.chain {
			out = append(out, r.Members[0].Class[0])
		}
		switch g.Intn(3) {
		case 0:
			sort.Strings(out)
		case 1:
			g.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
		}
		return append(out, g.A[:g.Intn(len(g.A))]...)
	}
	out := make([]string, n)
	for i := range out {
		switch {
		case g.P.ND > 0 && g.Intn(8) == 0:
			out[i] = pick(g.Rand, g.D...)
		case g.P.NU > 0 && g.Intn(10) == 0:
			out[i] = pick(g.Rand, g.U...)
		case i > 0 && g.Intn(15) == 0:
			out[i] = out[g.Intn(i)]
		default:
			out[i] = pick(g.Rand, g.A...)
		}
	}
	g.arrange(out)
	return out
}
