//go:build go1.22

package main

import (
	"fmt"
	"math/rand"
	"strings"
	"unicode"
	"unicode/utf8"
)

var plainWords = []string{"a", "b", "c", "btn", "card", "p-4", "px-2", "text-red", "bg", "m", "flex", "grid", "col", "row", "x", "y", "z", "is-open", "Foo", "fooBar", "_u", "h1", "w-full", "mt"}
var twWords = []string{"md:hover:bg-red-500/50", "w-[calc(100%-1rem)]", "-mt-1", "space-x-0.5", "before:content-['x']", "group-hover/name:p-1", "bg-[url('/a.png')]",
	"[&>*]:p-1", "[mask-type:luminance]", "hover:!p-1", "!p-1", "lg:w-1/2", "text-[#fff]", "grid-cols-[1fr,2fr]", "data-[state=open]:p-0", "top-[-1px]", "w-1.5", "@md:p-1", "*:p-1", "p-[1.5em]", "tracking-[.2em]", "supports-[display:grid]:flex", "max-w-[80ch]", "[--x:1px]"}
var oddNames = []string{"\ufffd\ufffd", "x\ufffd\ufffd\ufffd", "\ufffd\ufffda", "1", "2xl", "123", ".5", "-", "--", "--x", "-1", "-a", "é", "日本", "😀", "a😀b", "\\", "a\\b", "\\31", "a\"b", "a'b", "a#b", "a;b", "a{b", "a}b", "a/*b", "<!--", "-->", "a,b", "a~b", "a+b", "a>b", "a)b", "a(b", "$x", "%", "&amp;", "=", "|", "^", "`", "?", "\x01", "a\x7fb", "\u00a0", "\u2028", "\ufeffz", "0", "f00", "é9", "ABC", "abc", "\u0085", "\ufffd", "a\ufffdb"}

// genName returns a class name: any string without ASCII whitespace and NUL can be one.
func genName(r *rand.Rand) string {
	switch n := r.Intn(20); {
	case n < 8:
		s := pick(r, plainWords...)
		if r.Intn(2) == 0 {
			s += fmt.Sprint("-", r.Intn(30))
		}
		return s
	case n < 13:
		return pick(r, twWords...)
	case n < 15:
		return pick(r, twWords...) + pick(r, plainWords...)
	case n < 17:
		return pick(r, oddNames...)
	case n == 17:
		return genUtility(r)
	default:
		var b strings.Builder
		for k := 1 + r.Intn(8); k > 0; k-- {
			b.WriteRune(genRune(r))
			if r.Intn(30) == 0 {
				b.WriteString(strings.Repeat("\ufffd", 1+r.Intn(3)))
			}
		}
		return b.String()
	}
}

// genUtility composes a name the way Tailwind does; parts may repeat.
func genUtility(r *rand.Rand) string {
	var b strings.Builder
	vs := []string{"hover", "focus", "sm", "md", "dark", "before", "group-hover", "[&>p]", "data-[x=y]", "aria-[a]", "!", "-"}
	for k := r.Intn(4); k > 0; k-- {
		v := pick(r, vs...)
		if r.Intn(3) == 0 {
			vs = []string{v} // again and again
		}
		b.WriteString(v + ":")
	}
	b.WriteString(pick(r, "", "", "", "!", "-", "!-", ".", "@") + pick(r, "w", "p", "text", "bg", "m-x", "x", "inset", "w-w", "p-p"))
	for k := r.Intn(3); k > 0; k-- {
		b.WriteString("-" + pick(r, "1", "1/2", "0.5", "[1px]", "[calc(1px+2px)]", "red-500", "red-500/50", "[--x]", "[url(a)]", "[a:b]", "auto", "x", "x", "(--y)"))
	}
	b.WriteString(pick(r, "", "", "", "!", "/x", "%", "-", ":", "::", "/"))
	return b.String()
}

func genRune(r *rand.Rand) rune {
	for {
		var c rune
		switch r.Intn(8) {
		case 0, 1:
			c = rune('a' + r.Intn(26))
		case 2:
			c = rune('0' + r.Intn(10))
		case 3, 4:
			c = rune(0x21 + r.Intn(0x5e))
		case 5:
			c = rune(1 + r.Intn(0x7f))
		case 6:
			c = rune(0x80 + r.Intn(0x3000))
		default:
			c = rune(0x10000 + r.Intn(0x1000))
		}
		if c == ' ' || c == '\t' || c == '\n' || c == '\f' || c == '\r' || c == 0 || !utf8.ValidRune(c) {
			continue
		}
		return c
	}
}

// genNames returns n different names that are not in taken, and adds them to it.
func genNames(r *rand.Rand, n int, taken map[string]bool, simple bool) []string {
	out := make([]string, 0, n)
	for len(out) < n {
		s := genName(r)
		if simple {
			s = pick(r, plainWords...)
			if len(taken) > 10 || r.Intn(2) == 0 {
				s += fmt.Sprint("-", r.Intn(5*n+30))
			}
		}
		if !simple && len(out) > 0 && r.Intn(7) == 0 { // a name that is almost the same as another
			s = nearName(r, pick(r, out...))
		}
		if taken[s] {
			s += fmt.Sprint(r.Intn(1000))
		}
		if taken[s] {
			continue
		}
		taken[s] = true
		out = append(out, s)
	}
	return out
}

func nearName(r *rand.Rand, s string) string {
	rs := []rune(s)
	i := r.Intn(len(rs))
	switch r.Intn(7) {
	case 0:
		return s + pick(r, "!", "-", "1", "a", ".", "*", "\\", ":", "\u00a0", "é", "@", "/")
	case 1:
		return pick(r, "!", "-", ".", "a", "*", "\u00a0", "_", "@") + s
	case 2:
		if t := strings.ToUpper(s); t != s {
			return t
		}
		return strings.ToLower(s)
	case 3:
		rs[i] = unicode.SimpleFold(rs[i])
	case 4:
		if len(rs) > 1 {
			return string(rs[:len(rs)-1])
		}
	case 5:
		if len(rs) > 1 {
			return string(rs[1:])
		}
	default:
		rs[i] = pick(r, 'a', 'b', '-', '_', ':', '1')
	}
	return string(rs)
}

func isHex(c rune) bool {
	return '0' <= c && c <= '9' || 'a' <= c && c <= 'f' || 'A' <= c && c <= 'F'
}

// cssIdent writes an identifier. With vary > 0, characters are escaped at random even where that is not needed.
func cssIdent(r *rand.Rand, name string, vary float64) string {
	return cssIdentWith(r, name, vary, "", "")
}

// cssIdentWith does that for an identifier, or for what follows -- in the name of a custom property that is defined ("def") or referred to ("ref").
// (The CSS lexer in use does not take --1 and ---a for names in a definition, see DESIGN.md.)
// ends are the characters that may end a hexadecimal escape, "" for all of them.
func cssIdentWith(r *rand.Rand, name string, vary float64, ends, before string) string {
	var b strings.Builder
	rs := []rune(name)
	pair := false // the next U+FFFD is the second half of a surrogate pair
	for i, c := range rs {
		ok := c >= 0x80 || 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z' || c == '_' || c == '-' || '0' <= c && c <= '9'
		if ok && '0' <= c && c <= '9' && before != "ref" && (i == 0 || i == 1 && rs[0] == '-') {
			ok = false
		}
		if c == '-' && i == 0 && before != "ref" && (len(rs) == 1 || before == "def") {
			ok = false
		}
		if c == 0xfffd && vary > 0 && r.Intn(4) == 0 { // an escaped NUL is U+FFFD, too
			b.WriteString("\\\x00")
			continue
		}
		if ok && (vary == 0 || r.Float64() >= vary) && !(vary > 0 && c == 0xfffd && r.Intn(3) > 0) {
			b.WriteRune(c)
			continue
		}
		canChar := !(c == 0xfffd && vary > 0) && !isHex(c) && c != '\n' && c != '\r' && c != '\f'
		control := c < ' ' || c == 0x7f
		if canChar && !(control && vary == 0) && (vary == 0 || r.Intn(3) > 0) {
			b.WriteByte('\\')
			b.WriteRune(c)
			continue
		}
		h := fmt.Sprintf("%x", c)
		if c == 0xfffd && r.Intn(2) == 0 { // what no escape can stand for becomes U+FFFD
			h = pick(r, "0", "00", "d800", "dfff", "dc00", "110000", "ffffff", "d83d", "D83D", "dbff")
			if pair {
				h = pick(r, "de00", "dc00", "DFFF")
			}
			pair = len(h) == 4 && h != "dfff"
		}
		if vary > 0 {
			if r.Intn(2) == 0 {
				h = strings.ToUpper(h)
			}
			if pad := 6 - len(h); pad > 0 {
				h = strings.Repeat("0", r.Intn(pad+1)) + h
			}
		}
		b.WriteString("\\" + h)
		last := i == len(rs)-1
		term := last || len(h) < 6 && isHex(rs[i+1])
		if term || vary > 0 && r.Intn(2) == 0 {
			t := " "
			if vary > 0 {
				t = pick(r, " ", " ", " ", "\t", "\n", "\f", "\r\n")
				if ends != "" {
					t = pick(r, strings.Split(ends, "")...)
				}
			}
			b.WriteString(t)
		}
	}
	return b.String()
}

// similar returns names that look like name but are different ones.
func similar(r *rand.Rand, name string, css string) []string {
	var out []string
	add := func(s string) {
		if s != name && s != "" && !strings.ContainsAny(s, " \t\n\f\r\x00") {
			out = append(out, s)
		}
	}
	rs := []rune(name)
	add(name + "a")
	add(name + "\\")
	add("a" + name)
	add("." + name)
	add("\\" + name)
	add(css)
	add("." + css)
	add(strings.ToUpper(name))
	add(strings.ToLower(name))
	add(string(rs[1:]))
	add(string(rs[:len(rs)-1]))
	i := r.Intn(len(rs))
	add(string(rs[:i]) + string(genRune(r)) + string(rs[i+1:]))
	add(string(rs[:i]) + "\\" + string(rs[i:]))
	add(strings.ReplaceAll(name, "\\", ""))
	add(strings.ReplaceAll(name, ":", "\\:"))
	add(strings.ReplaceAll(name, "/", "\\/"))
	add(name + ":hover")
	add(name + "::before")
	add(name + "\u0301")
	add(name + name)
	return out
}
