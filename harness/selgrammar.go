package main

// An independent recogniser of the supported selector grammar, written from the Selectors and
// CSS Syntax specifications and the documented extensions, to judge arbitrary texts.

import (
	"math/rand"
	"regexp"
	"strings"
)

type verdict int

const (
	invalid verdict = iota
	valid
	open // not specified, or valid CSS outside the supported grammar
)

// grammar reads a selector list. fail and leave unwind.
type grammar struct {
	s     string
	i     int
	pe    bool // pseudo-elements are taken
	inArg int
	last  string // name of the last pseudo-element
}

type verdictPanic verdict

func (g *grammar) fail()  { panic(verdictPanic(invalid)) }
func (g *grammar) leave() { panic(verdictPanic(open)) }

// recognise tells whether an entry point has to accept the text.
func recognise(s string, pe, group bool) (v verdict) {
	if strings.Contains(s, "\x00") {
		return open
	}
	defer func() {
		if x := recover(); x != nil {
			p, ok := x.(verdictPanic)
			if !ok {
				panic(x)
			}
			v = verdict(p)
		}
	}()
	g := &grammar{s: s, pe: pe}
	g.list(group)
	if g.i < len(s) {
		if s[g.i] == '|' {
			g.leave()
		}
		g.fail()
	}
	return valid
}

func (g *grammar) at(t string) bool { return strings.HasPrefix(g.s[g.i:], t) }
func (g *grammar) eof() bool        { return g.i >= len(g.s) }
func (g *grammar) in(set string) bool {
	return g.i < len(g.s) && strings.IndexByte(set, g.s[g.i]) >= 0
}

func (g *grammar) ws() bool {
	from := g.i
	for {
		switch {
		case g.in(" \t\r\n\f"):
			g.i++
		case g.at("/*"):
			end := strings.Index(g.s[g.i+2:], "*/")
			if end < 0 {
				g.fail()
			}
			g.i += 2 + end + 2
		default:
			return g.i > from
		}
	}
}

func letter(c byte) bool {
	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' || c >= 0x80
}
func digit(c byte) bool { return c >= '0' && c <= '9' }

// escape reads an escape and returns what it stands for (only used to compare with ASCII names).
func (g *grammar) escape() string {
	g.i++
	if g.eof() || g.in("\n\r\f") {
		g.fail()
	}
	hex := g.s[g.i:g.i]
	for len(hex) < 6 && g.i < len(g.s) && strings.IndexByte("0123456789abcdefABCDEF", g.s[g.i]) >= 0 {
		g.i++
		hex = g.s[g.i-len(hex)-1 : g.i]
	}
	if hex != "" {
		if g.at("\r\n") {
			g.i += 2
		} else if g.in(" \t\r\n\f") {
			g.i++
		}
		n := 0
		for _, c := range strings.ToLower(hex) {
			n = n*16 + strings.IndexRune("0123456789abcdef", c)
		}
		return string(rune(n))
	}
	c := g.s[g.i]
	g.i++
	return string(rune(c))
}

// name reads name characters and returns them.
func (g *grammar) name() string {
	out := ""
	for !g.eof() {
		switch c := g.s[g.i]; {
		case letter(c) || digit(c) || c == '-':
			out += string(rune(c))
			g.i++
		case c == '\\':
			out += g.escape()
		default:
			return out
		}
	}
	return out
}

func (g *grammar) startsIdent() bool {
	t := g.s[g.i:]
	if strings.HasPrefix(t, "--") {
		return true
	}
	t = strings.TrimPrefix(t, "-")
	return t != "" && (letter(t[0]) || t[0] == '\\')
}

func (g *grammar) ident() string {
	if !g.startsIdent() {
		g.fail()
	}
	return g.name()
}

func (g *grammar) str() {
	q := g.s[g.i]
	g.i++
	for {
		switch {
		case g.eof() || g.in("\n\r\f"):
			g.fail()
		case g.s[g.i] == q:
			g.i++
			return
		case g.at("\\\r\n"):
			g.i += 3
		case g.at("\\\n") || g.at("\\\r") || g.at("\\\f"):
			g.i += 2
		case g.s[g.i] == '\\':
			g.escape()
		default:
			g.i++
		}
	}
}

// regex reads up to the bracket that closes what encloses the expression.
func (g *grammar) regex() {
	from, depth := g.i, 0
	for ; ; g.i++ {
		if g.eof() {
			if strings.ContainsAny(g.s[from:], "\\[") {
				g.leave()
			}
			g.fail()
		}
		if g.in("\\[") {
			g.leave() // where the expression ends
		}
		if g.in("(") {
			depth++
		}
		if g.in(")]") {
			if depth--; depth < 0 {
				break
			}
		}
	}
	if _, err := regexp.Compile(g.s[from:g.i]); err != nil {
		g.fail()
	}
}

func (g *grammar) digits() {
	n := 0
	for ; !g.eof() && digit(g.s[g.i]); n++ {
		g.i++
	}
	if n == 0 {
		g.fail()
	}
	if n > 9 {
		g.leave()
	}
}

func (g *grammar) nth() {
	if g.at("\\") {
		g.leave()
	}
	if g.in("oOeE") {
		n := strings.ToLower(g.name())
		if n != "odd" && n != "even" {
			g.fail()
		}
		return
	}
	if g.in("+-") {
		g.i++
	}
	if !g.eof() && digit(g.s[g.i]) {
		g.digits()
		if !g.in("nN\\") {
			return
		}
	}
	if g.at("\\") {
		g.leave()
	}
	if !g.in("nN") {
		g.fail()
	}
	g.i++
	end := g.i
	g.ws()
	if !g.in("+-") {
		g.i = end
		return
	}
	g.i++
	g.ws()
	g.digits()
}

func (g *grammar) close() {
	g.ws()
	if !g.in(")") {
		g.fail()
	}
	g.i++
}

func (g *grammar) attr() {
	g.i++
	g.ws()
	if g.in("*|") {
		g.leave() // namespaces
	}
	g.ident()
	if g.in("|") && !g.at("|=") {
		g.leave()
	}
	g.ws()
	if g.in("]") {
		g.i++
		return
	}
	op := ""
	for _, o := range []string{"=", "~=", "|=", "^=", "$=", "*=", "!=", "#="} {
		if g.at(o) {
			op = o
		}
	}
	if op == "" {
		g.fail()
	}
	g.i += len(op)
	if op == "#=" && strings.Contains(g.s[g.i:], "/*") {
		g.leave() // whether that is a comment
	}
	g.ws()
	switch {
	case op == "#=":
		g.regex()
		if !g.in("]") {
			g.fail()
		}
		g.i++
		return
	case g.in("\"'"):
		g.str()
	default:
		g.ident()
	}
	g.ws()
	if g.in("sS\\") {
		g.leave()
	}
	if g.in("iI") {
		g.i++
		if !g.eof() && (letter(g.s[g.i]) || digit(g.s[g.i]) || g.in("-\\")) {
			g.fail()
		}
		g.ws()
	}
	if !g.in("]") {
		g.fail()
	}
	g.i++
}

var grammarElements = strings.Fields("after before first-letter first-line backdrop cue grammar-error marker placeholder selection spelling-error")
var vendorClasses = []string{"-moz-focusring", "-moz-placeholder", "-moz-ui-invalid", "-moz-read-only"}
var grammarPlain = strings.Fields("first-child last-child first-of-type last-of-type only-child only-of-type input empty root link enabled disabled checked visited hover active focus target popover-open read-only" +
	" focus-within focus-visible fullscreen modal picture-in-picture autofill host")

// pseudo reads a pseudo-class (false) or pseudo-element (true).
func (g *grammar) pseudo() bool {
	g.i++
	double := g.in(":")
	if double {
		g.i++
	}
	name := lowerASCII(g.ident())
	if contains(grammarElements, name) && (double || contains(grammarElements[:4], name)) {
		if !g.pe {
			g.fail()
		}
		if g.inArg > 0 {
			g.leave()
		}
		g.last = name
		return true
	}
	if strings.HasPrefix(name, "-") || name == "moz-placeholder" {
		switch {
		case !double && contains(vendorClasses, name):
			return false
		case double && contains(vendorPEs, name):
			if !g.pe {
				g.fail()
			}
			if g.inArg > 0 {
				g.leave()
			}
			g.last = name
			return true
		case contains(vendorPEs, name) || contains(vendorClasses, name) || name == "moz-placeholder":
			g.leave()
		}
		g.fail()
	}
	if double {
		if contains(grammarPlain, name) && strings.HasPrefix(name, "focus-") {
			g.leave()
		}
		g.fail()
	}
	if contains(grammarElements, name) {
		g.leave() // one colon
	}
	if contains(grammarPlain, name) {
		return false
	}
	switch name {
	case "not", "is", "where", "has", "haschild", "contains", "containsown", "matches", "matchesown", "lang",
		"nth-child", "nth-last-child", "nth-of-type", "nth-last-of-type":
	default:
		g.fail()
	}
	if !g.in("(") {
		g.fail()
	}
	g.i++
	if strings.HasPrefix(name, "matches") && strings.Contains(g.s[g.i:], "/*") {
		g.leave() // whether that is a comment
	}
	g.ws()
	switch {
	case name == "lang":
		if g.in("\"'*") {
			g.leave()
		}
		g.ident()
		g.ws()
		if g.in(",") {
			g.leave()
		}
	case strings.HasPrefix(name, "contains"):
		if g.in("\"'") {
			g.str()
		} else {
			g.ident()
		}
	case strings.HasPrefix(name, "matches"):
		g.regex()
	case strings.HasPrefix(name, "nth"):
		g.nth()
		if g.ws() && g.in("oO\\") {
			g.leave() // "of"
		}
	default:
		if strings.HasPrefix(name, "has") && g.in("+~>") {
			g.leave() // relative
		}
		if g.inArg++; g.inArg > 900 {
			g.leave()
		}
		g.list(true)
		g.inArg--
	}
	g.close()
	return false
}

func (g *grammar) compound() (element bool) {
	from := g.i
	switch {
	case g.at("*|*"):
		g.i += 3
	case g.at("*"):
		g.i++
	case g.at("|"):
		g.leave()
	case !g.eof() && !g.in(".#[:"):
		g.ident()
	}
	if g.in("|") {
		g.leave()
	}
	for {
		switch {
		case element && g.in(".#[:") && strings.HasPrefix(g.last, "-"):
			g.leave()
		case element && g.in(".#["):
			g.fail()
		case g.in("."):
			g.i++
			g.ident()
		case g.in("#"):
			g.i++
			ident := g.startsIdent()
			if g.name() == "" {
				g.fail()
			}
			if !ident {
				g.leave()
			}
		case g.in("["):
			g.attr()
		case g.in(":"):
			is := g.pseudo()
			if element {
				if !is || g.last == "marker" || strings.HasPrefix(g.last, "-") {
					g.leave() // ::before:hover, ::before::marker
				}
				g.fail()
			}
			element = is
		default:
			if g.i == from {
				g.fail()
			}
			return element
		}
	}
}

func (g *grammar) complex() {
	g.ws()
	for n := 0; ; n++ {
		if n > 4900 {
			g.leave()
		}
		element := g.compound()
		sp := g.ws()
		if g.eof() || g.in(",)") {
			return
		}
		if g.in("|") {
			g.leave()
		}
		if g.in(">+~") {
			g.i++
			g.ws()
		} else if !sp {
			g.fail()
		}
		if element {
			// more after a pseudo-element: only certain if that is broken
			g.compound()
			g.leave()
		}
	}
}

func (g *grammar) list(many bool) {
	for {
		g.complex()
		if !g.in(",") || !many {
			return
		}
		g.i++
	}
}

func lowerASCII(s string) string {
	b := []byte(s)
	for i, c := range b {
		if c >= 'A' && c <= 'Z' {
			b[i] = c + 'a' - 'A'
		}
	}
	return string(b)
}

var selBits = []string{".", "#", "*", ":", "::", ",", " ", "  ", ">", "+", "~", "(", ")", "[", "]", "=", "~=", "|=", "^=", "$=", "*=", "!=", "#=", "\"", "'", "\\", "/*", "*/", "/**/", "/*/", "/*/*/", "/***/", "/*x", "-", "--", "_", "i", " i", "n", "2n", "odd", "even", "+1", "- 1", "0", "7",
	":before", "::before", "::after", ":AFTER", "::first-line", "::marker", "::selection", ":hover", ":focus-visible", ":not(", ":is(", ":where(", ":has(", ":haschild(", ":nth-child(", ":nth-last-of-type(", ":lang(", ":contains(", ":containsOwn(\"", ":matches(", ":matchesOwn(", ":empty", ":root",
	"a", "p", "b\\41 ", "\\31 ", "\\", "*|*", "[a]", "[a=b]", "[a='b' i]", ".x", "#y", "\n", "\r\n", "\t", "\f", "\u00e9", "\u212a", "\u0130", "\xff", "&", "|", "/", "%", "<", "{", "}", ";", "!", "@", "$", "^", "`", "?", "\v", "\x7f", "\u00a0", "\u2003", "\ufeff"}

// editSelector makes a few changes to a selector, at the places where tokens meet.
func editSelector(r *rand.Rand, s string) string {
	for k := pick(r, 1, 1, 1, 2, 3); k > 0; k-- {
		i := r.Intn(len(s) + 1)
		if cuts := selCut.FindAllStringIndex(s, -1); len(cuts) > 0 && r.Intn(3) > 0 {
			i = cuts[r.Intn(len(cuts))][r.Intn(2)]
		}
		j := i + r.Intn(4)
		if j > len(s) {
			j = len(s)
		}
		switch r.Intn(8) {
		case 0, 1, 2:
			s = s[:i] + pick(r, selBits...) + s[i:]
		case 3:
			s = s[:i] + s[j:]
		case 4:
			s = s[:i] + pick(r, selBits...) + s[j:]
		case 5:
			s = s[:i] + s[i:j] + s[i:j] + s[j:]
		case 6:
			s = s[:i] // cut off
		default: // swap two neighbours
			if j < len(s) {
				s = s[:i] + s[i+1:j+1] + s[i:i+1] + s[j+1:]
			}
		}
	}
	return s
}

var selCut = regexp.MustCompile(`[^\w\s]|\s+|\b\w`)
