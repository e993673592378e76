//go:build go1.22

package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"unicode/utf8"

	merge "github.com/tylantz/go-tailwind-merge"
)

var everything = aspect{keepKinds: []string{"last", "important", "var", "unknown", "empty"}, gone: true,
	nontrivial: func(v *Verdict, l []string) bool { return len(v.gone) > 0 }}

// ---- C04: circumstances ----

type circ struct {
	conds []Cond
	m     Member
}

func (x circ) key(class string) string { return condKey(x.conds) + "\x03" + x.m.key(class) }

func genCirc(r *rand.Rand, d [2]string, conds []Cond) circ {
	var x circ
	x.m.Class[1] = d[r.Intn(2)]
	for _, i := range sortedPerm(r, len(conds), pick(r, 0, 0, 0, 1, 1, 2, 3, 3+r.Intn(4))) {
		x.conds = append(x.conds, conds[i])
	}
	if r.Intn(3) == 0 {
		x.m.Tmpl = pick(r, composed(r), suffixed(r, pick(r, tmplPool...)))
		return x
	}
	for _, i := range r.Perm(len(pseudoPool))[:pick(r, 0, 1, 1, 2, 3, 4)] {
		x.m.Pseudos = append(x.m.Pseudos, pseudoPool[i])
	}
	if r.Intn(3) == 0 {
		x.m.PE = pick(r, pePool...)
	}
	return x
}

func sortedPerm(r *rand.Rand, n, k int) []int {
	p := r.Perm(n)[:k]
	sort.Ints(p)
	return p
}

// neighbour changes one detail of a circumstance, or only the way it is written.
func neighbour(r *rand.Rand, x circ, d [2]string, conds []Cond) circ {
	y := circ{m: x.m}
	y.conds = append(y.conds, x.conds...)
	y.m.Pseudos = append([]string(nil), x.m.Pseudos...)
	switch r.Intn(8) {
	case 0: // same, pseudo-classes in another order
		r.Shuffle(len(y.m.Pseudos), func(i, j int) { y.m.Pseudos[i], y.m.Pseudos[j] = y.m.Pseudos[j], y.m.Pseudos[i] })
	case 1:
		if len(y.conds) > 0 {
			i := r.Intn(len(y.conds))
			y.conds = append(y.conds[:i:i], y.conds[i+1:]...)
		}
	case 2:
		m := map[Cond]bool{}
		for _, c := range y.conds {
			m[c] = true
		}
		m[pick(r, conds...)] = true
		y.conds = nil
		for _, c := range conds {
			if m[c] {
				y.conds = append(y.conds, c)
			}
		}
	case 3:
		if len(y.m.Pseudos) > 0 && y.m.Tmpl == "" {
			i := r.Intn(len(y.m.Pseudos))
			y.m.Pseudos = append(y.m.Pseudos[:i:i], y.m.Pseudos[i+1:]...)
		}
	case 4:
		if p := pick(r, pseudoPool...); y.m.Tmpl == "" && !contains(y.m.Pseudos, p) {
			y.m.Pseudos = append(y.m.Pseudos, p)
		}
	case 5:
		if y.m.Tmpl == "" {
			y.m.PE = pick(r, append(pePool, "", "")...)
		} else {
			y.m.Tmpl = pick(r, suffixed(r, pick(r, tmplPool...)), nearTmpl(r, y.m.Tmpl), nearTmpl(r, y.m.Tmpl), nearTmpl(r, y.m.Tmpl))
		}
	case 6:
		y.m.Class[1] = d[r.Intn(2)]
	}
	return y
}

func init() {
	register(&Check{ID: "C04", Quick: 400, Thorough: 8000,
		Rule: "50 circumstances per case (at-rule chains, pseudo-class sets, pseudo-elements, surrounding selectors), many of them one detail apart or the same written differently, one class each; all ordered pairs are merged and compared with equality of the circumstances. Even cases also run the reference model on stylesheets that group rules in shared and nested at-rule blocks. Non-trivial: a pair of equal circumstances, or of circumstances one detail apart.",
		Min:  map[string]int{"pairs in the same circumstance": 20000, "pairs in different circumstances": 300000},
		Run:  runC04})
}

func runC04(c *Case) {
	taken := map[string]bool{"zz": true}
	names := genNames(c.Rand, 50, taken, c.Intn(2) == 0)
	dd := genNames(c.Rand, 2, taken, true)
	d := [2]string{dd[0], dd[1]}
	conds := append([]Cond(nil), condPool...)
	for i := 0; i < 3; i++ {
		x, y := longCond(c.Rand)
		conds = append(conds, x, y)
	}
	cs := make([]circ, len(names))
	near := map[[2]int]bool{}
	for i := range cs {
		if i > 0 && c.Intn(4) > 0 {
			j := c.Intn(i)
			cs[i] = neighbour(c.Rand, cs[j], d, conds)
			near[[2]int{i, j}], near[[2]int{j, i}] = true, true
		} else {
			cs[i] = genCirc(c.Rand, d, conds)
		}
	}
	var rules []Rule
	for i, x := range cs {
		x.m.Class[0] = names[i]
		cs[i] = x
		r := Rule{Conds: x.conds, Members: []Member{x.m}, Decls: []Decl{{Prop: "color", Atom: []string{"red"}}}}
		if c.Intn(3) == 0 {
			r.Decls = append(r.Decls, Decl{Prop: "width", Atom: []string{"0"}}, Decl{Prop: "width", Atom: []string{"0"}})[:1]
		}
		rules = append(rules, r)
	}
	if c.Intn(2) == 0 { // put rules with common conditions next to each other, so that they share blocks
		sort.SliceStable(rules, func(i, j int) bool { return condKey(rules[i].Conds) < condKey(rules[j].Conds) })
	}
	for k := c.Intn(6); k > 0; k-- { // rules that are skipped, and unconditional ones, in between
		at := c.Intn(len(rules))
		j := Rule{Conds: rules[at].Conds, Raw: "a:unknown-thing{color:red}"}
		if c.Intn(2) == 0 {
			j = Rule{Conds: rules[at].Conds, Raw: "@layer q{." + cssIdent(c.Rand, pick(c.Rand, names...), 0) + "{color:red}}"}
		}
		rules = append(rules[:at:at], append([]Rule{j}, rules[at:]...)...)
	}
	lay := &Lay{}
	if c.Idx%2 == 1 {
		lay.r = c.Rand
	}
	css := lay.render(rules)
	m := c.load(css, false)
	for i := range cs {
		for j := range cs {
			if i == j {
				continue
			}
			out := set(fields(c.merge(m, names[i]+" "+names[j])))
			same := cs[i].key(names[i]) == cs[j].key(names[j])
			if out[names[i]] == same || !out[names[j]] {
				c.Fail("circumstances compared wrongly", map[string]any{"css": clip(css, 6000), "first": names[i], "second": names[j], "output": sorted(out), "same circumstance": same,
					"first rule": (&Lay{}).render([]Rule{{Conds: cs[i].conds, Members: []Member{cs[i].m}}}), "second rule": (&Lay{}).render([]Rule{{Conds: cs[j].conds, Members: []Member{cs[j].m}}})})
			}
			nt := same || near[[2]int{i, j}]
			c.Eval(nt, cs[i].key(names[i]), cs[j].key(names[j]))
			if same {
				c.Count("pairs in the same circumstance", 1)
			} else {
				c.Count("pairs in different circumstances", 1)
			}
		}
	}
	c.lookAlikeVars(cs, names)
	if c.Idx%2 == 0 {
		p := baseProfile()
		p.Cond, p.Pseudo, p.PE, p.Tmpl, p.List, p.Circ = 0.5, 0.4, 0.2, 0.25, 0.15, 1+c.Intn(3)
		p.Props, p.Imp, p.Custom, p.NA = 1+c.Intn(2), 0, 0, 4+c.Intn(8)
		g := newGen(c.Rand, p)
		s := g.sheet()
		css := (&Lay{r: c.Rand}).render(s.Rules)
		mg := c.load(css, true)
		md := newModel()
		md.add(s.Rules)
		c.lists(g, 20, func(l []string) { c.judge(css, md, mg, l, everything) })
	}
}

// lookAlikeVars sets a custom property in a circumstance, and others without one whose names are that name with a description of the circumstance.
func (c *Case) lookAlikeVars(cs []circ, names []string) {
	var rules []Rule
	type pair struct{ inside, outside, name string }
	var pairs []pair
	plain := func(class string, ds ...Decl) Rule {
		return Rule{Members: []Member{{Class: [2]string{class, "d"}}}, Decls: ds}
	}
	rules = append(rules, plain("zuser", Decl{Prop: "color", Atom: []string{"var(--v)"}, Uses: []string{"--v"}}))
	for k := 0; k < 12; k++ {
		i := c.Intn(len(cs))
		x := cs[i]
		conds := []string{}
		for _, cd := range x.conds {
			conds = append(conds, pick(c.Rand, "@", "")+cd.Kind+pick(c.Rand, " ", " ", "")+cd.Text)
		}
		name := "--v" + pick(c.Rand, "", "", " ", "|", ":", "@") + strings.Join(conds, pick(c.Rand, "{", " ", ",", ""))
		ps := append([]string(nil), x.m.Pseudos...)
		sort.Strings(ps)
		pe := x.m.PE
		if pe != "" {
			pe = "::" + pe
		}
		switch {
		case x.m.Tmpl != "":
			name += pick(c.Rand, " ", "") + strings.ReplaceAll(strings.ReplaceAll(x.m.Tmpl, "%0", "."), "%1", "."+x.m.Class[1])
		case len(ps) > 0:
			name += pick(c.Rand, " .", " ", "", ".") + strings.Join(ps, "") + pe
		default:
			name += pe
		}
		if name == "--v" {
			continue
		}
		in, out := fmt.Sprint("zin", k), fmt.Sprint("zout", k)
		x.m.Class[0] = in
		spelled := "--" + cssIdentWith(c.Rand, name[2:], 0, " ", "def")
		rules = append(rules, Rule{Conds: x.conds, Members: []Member{x.m}, Decls: []Decl{{Prop: "--v", Atom: []string{"1"}}}})
		rules = append(rules, plain(out, Decl{Prop: name, Name: spelled, Atom: []string{"2"}}, Decl{Prop: "width", Atom: []string{"0"}}, Decl{Prop: "height", Atom: []string{"var(" + spelled + ")"}, Uses: []string{name}}))
		pairs = append(pairs, pair{in, out, name})
	}
	css := (&Lay{}).render(rules)
	m := c.load(css, false)
	for _, p := range pairs {
		got := set(fields(c.merge(m, p.inside+" "+p.outside+" zuser")))
		if !got[p.inside] {
			c.Fail("a custom property in a circumstance was taken for another one", map[string]any{"css": clip(css, 6000), "class": p.inside, "other": p.outside, "the other's custom property": p.name, "output": sorted(got)})
		}
		c.Count("look-alike custom properties", 1)
	}
}

// ---- C07: selection ----

func randList(r *rand.Rand, classes []string) string {
	var b strings.Builder
	seps := []string{" ", " ", " ", "  ", "\t", "\n", "\r\n", "\f", " \n ", "\r"}
	if r.Intn(3) == 0 {
		b.WriteString(pick(r, seps...))
	}
	for i, c := range classes {
		if i > 0 {
			b.WriteString(pick(r, seps...))
		}
		b.WriteString(c)
	}
	if r.Intn(3) == 0 {
		b.WriteString(pick(r, seps...))
	}
	return b.String()
}

// names that only non-ASCII whitespace or control characters keep in one piece
var gluedNames = []string{"a\u00a0b", "\u3000", "x\vy", "\u2003z", "q\u0085", "\x1c", "a\x00b", "\xff", "\xc3", "p\u200bq", "\u1680", "\ufeff"}

func init() {
	register(&Check{ID: "C07", Quick: 3000, Thorough: 40000,
		Rule: "generated stylesheets and class lists with all kinds of ASCII and other whitespace, repeated classes, unknown names (also invalid UTF-8), rules without declarations, and inputs of fewer than two classes; the output is judged against the input directly. Non-trivial: at least two classes of which one is unknown, has an empty rule, is repeated or is removed.",
		Run: func(c *Case) {
			p := baseProfile()
			p.Empty = 0.25
			p.NA = 3 + c.Intn(8)
			g := newGen(c.Rand, p)
			s := g.sheet()
			css := (&Lay{}).render(s.Rules)
			keepSort := c.Intn(2) == 0
			var cache merge.Cache
			if c.Intn(3) == 0 {
				cache = merge.NewCache()
			}
			mg := merge.NewMerger(cache, keepSort)
			if c.Intn(10) > 0 {
				c.add(mg, css)
			} else {
				s = &Sheet{}
			}
			md := newModel()
			md.add(s.Rules)
			for k := 0; k < 40; k++ {
				l := g.list()
				for i := range l {
					switch c.Intn(12) {
					case 0:
						l[i] = pick(c.Rand, gluedNames...)
					case 1:
						l[i] = genName(c.Rand)
					case 2:
						l[i] = similar(c.Rand, l[i], l[i])[0]
					}
				}
				if k%8 == 0 {
					l = l[:c.Intn(2)]
				}
				if k%13 == 5 {
					l = []string{l[0], l[0]}
				}
				in := randList(c.Rand, l)
				if len(l) == 0 {
					in = pick(c.Rand, "", " ", "\n", "  \t")
				}
				out := c.merge(mg, in)
				bad := func(kind, class string) {
					c.Fail(kind, map[string]any{"css": css, "list": fmt.Sprintf("%q", in), "output": fmt.Sprintf("%q", out), "class": fmt.Sprintf("%q", class)})
				}
				toks := fields(in)
				if len(toks) < 2 {
					if out != in {
						bad("input with fewer than two classes changed", "")
					}
					c.Eval(false)
					c.Count("inputs with fewer than two classes", 1)
					continue
				}
				inSet, seen := set(toks), map[string]bool{}
				var outToks []string
				if out != "" {
					outToks = strings.Split(out, " ")
				}
				for _, t := range outToks {
					if t == "" || strings.ContainsAny(t, "\t\n\f\r") {
						bad("output not separated by single spaces", t)
					}
					if !inSet[t] {
						bad("class invented", t)
					}
					if seen[t] {
						bad("duplicate class", t)
					}
					seen[t] = true
				}
				special := len(outToks) < len(toks)
				for _, t := range toks {
					gv := md.gov[t]
					if (gv == nil || len(gv.decls) == 0) && !seen[t] {
						bad("unknown or empty class lost", t)
					}
					if gv == nil || len(gv.decls) == 0 {
						special = true
						c.Count("unknown or empty classes", 1)
					}
				}
				c.Eval(special, css, in)
				if special {
					c.Sample(map[string]any{"list": fmt.Sprintf("%q", in), "output": fmt.Sprintf("%q", out)})
				}
			}
		}})
}

// ---- C08: determinism and order ----

func c08Outputs(seed uint64, idx int) []string {
	s := splitmix(seed ^ uint64(idx)*0x9e3779b97f4a7c15)
	r := rand.New(&s)
	p := baseProfile()
	p.NA = 4 + r.Intn(16)
	p.Custom, p.Use, p.Imp = 0.2, 0.2, 0.15
	p.Props = 6
	g := newGen(r, p)
	sh := g.sheet()
	css := (&Lay{}).render(sh.Rules)
	ms := []*merge.Merger{merge.NewMerger(nil, false), merge.NewMerger(nil, true)}
	var out []string
	for _, m := range ms {
		if err := m.AddRules(strings.NewReader(css), false); err != nil {
			out = append(out, "error "+err.Error())
		}
	}
	for k := 0; k < 25; k++ {
		l := randList(r, g.list())
		for _, m := range ms {
			out = append(out, m.Merge(l))
		}
	}
	return out
}

func init() {
	register(&Check{ID: "C08", Quick: 500, Thorough: 30000,
		Rule: "each list is merged repeatedly, on several instances (rules added in one piece or several, order keeping on and off), and a sample of cases again in other processes; all outputs have to agree, as strings, and with the order of last occurrences. Non-trivial: the output has at least three classes or repeated input classes.",
		Min:  map[string]int{"outputs compared across processes": 1000},
		Run: func(c *Case) {
			if c.Idx%125 == 0 {
				exe, _ := os.Executable()
				seed := c.Uint64()
				var ref string
				for p := 0; p < 3; p++ {
					cmd := exec.Command(exe, "-aux", "c08", "-data", gDataDir, fmt.Sprint(seed), fmt.Sprint(c.Idx))
					cmd.Env = append(os.Environ(), fmt.Sprintf("GOMAXPROCS=%d", 1+p*3))
					b, err := cmd.CombinedOutput()
					if err != nil {
						c.Fail("crash in a process that merges", map[string]any{"error": err.Error(), "output": clip(string(b), 4000)})
					}
					if p == 0 {
						ref = string(b)
						var own bytes.Buffer
						for k := 0; k < 30; k++ {
							for _, o := range c08Outputs(seed+uint64(k), c.Idx) {
								fmt.Fprintf(&own, "%q\n", o)
								c.Count("outputs compared across processes", 1)
							}
						}
						if own.String() != ref {
							c.Fail("outputs differ between processes", map[string]any{"first": firstDiff(own.String(), ref)})
						}
					} else if string(b) != ref {
						c.Fail("outputs differ between processes", map[string]any{"first": firstDiff(string(b), ref)})
					}
				}
				return
			}
			p := baseProfile()
			p.NA = 4 + c.Intn(16)
			p.Custom, p.Use, p.Imp, p.Props = 0.2, 0.2, 0.15, 6
			g := newGen(c.Rand, p)
			s := g.sheet()
			css := (&Lay{}).render(s.Rules)
			ordered := []*merge.Merger{c.load(css, true), c.load(css, true)}
			loose := []*merge.Merger{c.load(css, false), c.load(css, false)}
			c.lists(g, 25, func(l []string) {
				in := randList(c.Rand, l)
				toks := fields(in)
				if len(toks) < 2 {
					return
				}
				bad := func(kind string, a, b string) {
					c.Fail(kind, map[string]any{"css": css, "list": in, "one": a, "other": b})
				}
				ro, rl := c.merge(ordered[0], in), c.merge(loose[0], in)
				for k := 0; k < 6; k++ {
					if o := c.merge(ordered[k%2], in); o != ro {
						bad("two calls return different strings", ro, o)
					}
					if o := c.merge(loose[k%2], in); o != rl {
						bad("two calls return different strings", rl, o)
					}
				}
				last := map[string]int{}
				for i, t := range toks {
					last[t] = i
				}
				ot := fields(ro)
				for i := 1; i < len(ot); i++ {
					if last[ot[i-1]] >= last[ot[i]] {
						bad("classes not in the order of their last occurrences", ro, "")
					}
				}
				if fmt.Sprint(sorted(set(ot))) != fmt.Sprint(sorted(set(fields(rl)))) {
					bad("order keeping changes the set of classes", ro, rl)
				}
				nt := len(ot) >= 3 || len(last) < len(toks)
				c.Eval(nt, css, in)
				if nt {
					c.Sample(map[string]any{"list": in, "ordered": ro, "unordered": rl})
				}
			})
		}})
}

func firstDiff(a, b string) []string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; i < len(x) && i < len(y); i++ {
		if x[i] != y[i] {
			return []string{x[i], y[i]}
		}
	}
	return []string{fmt.Sprint(len(x)), fmt.Sprint(len(y))}
}

// ---- C09: idempotence and composition ----

func init() {
	register(&Check{ID: "C09", Quick: 2000, Thorough: 40000,
		Rule: "generated stylesheets (half of them without custom properties) and lists; Merge(Merge(a)) is compared with Merge(a) and, without custom properties, Merge(Merge(a) b) with Merge(a b), order keeping on. Non-trivial: merging the front part removes a class.",
		Run: func(c *Case) {
			p := baseProfile()
			p.NA = 3 + c.Intn(10)
			p.Props = 1 + c.Intn(5)
			p.Imp = pick(c.Rand, 0, 0.1, 0.4)
			custom := c.Intn(2) == 0
			if custom {
				p.Custom, p.Use, p.ImpCustom = 0.4, 0.4, 0.1
			} else {
				p.Custom = 0
			}
			g := newGen(c.Rand, p)
			s := g.sheet()
			css := (&Lay{}).render(s.Rules)
			m := c.load(css, true)
			c.lists(g, 30, func(l []string) {
				a := strings.Join(l, " ")
				ma := c.merge(m, a)
				if again := c.merge(m, ma); again != ma {
					c.Fail("merging an output again changes it", map[string]any{"css": css, "list": a, "once": ma, "twice": again})
				}
				nt := len(fields(ma)) < len(set(l))
				c.Eval(nt, css, a)
				if custom {
					return
				}
				b := strings.Join(g.list(), " ")
				x, y := c.merge(m, ma+" "+b), c.merge(m, a+" "+b)
				if x != y {
					c.Fail("merging a front part first changes the result", map[string]any{"css": css, "a": a, "b": b, "Merge(a)": ma, "Merge(Merge(a) b)": x, "Merge(a b)": y})
				}
				c.Eval(nt, css, a, b)
				if nt {
					c.Sample(map[string]any{"a": a, "b": b, "Merge(a)": ma, "Merge(a b)": y})
				}
			})
		}})
}

// ---- C10: the governing rule ----

func shareClass(a, b Rule) bool {
	if a.Raw != "" || b.Raw != "" {
		return false
	}
	m := map[string]bool{}
	for _, x := range a.Members {
		for _, c := range x.classes() {
			m[c] = true
		}
	}
	for _, x := range b.Members {
		for _, c := range x.classes() {
			if m[c] {
				return true
			}
		}
	}
	return false
}

// reorder permutes rules, keeping the order of rules that mention a common class.
func reorder(r *rand.Rand, rs []Rule) []Rule {
	out := append([]Rule(nil), rs...)
	for k := 0; k < 6*len(out); k++ {
		i := r.Intn(len(out))
		for i+1 < len(out) && !shareClass(out[i], out[i+1]) && r.Intn(4) > 0 {
			out[i], out[i+1] = out[i+1], out[i]
			i++
		}
	}
	return out
}

func init() {
	register(&Check{ID: "C10", Quick: 450, Thorough: 25000,
		Rule: "stylesheets in which many classes are mentioned by several rules (plain, in lists, in compounds, as context, inside :is/:where, :not and :has); the same rules are loaded in one piece, split over several additions, with rules of different classes permuted, twice, and with the overruled rules left out; all mergers have to agree with each other and with the reference model. Non-trivial: some class of the list is mentioned by two rules and some class is removed.",
		Run: func(c *Case) {
			p := baseProfile()
			p.NA = 3 + c.Intn(8)
			p.Multi = 0.55
			p.Tmpl, p.List = 0.25, 0.2
			p.Props, p.Circ = 1+c.Intn(4), 1+c.Intn(2)
			g := newGen(c.Rand, p)
			g.Tmpls = append(g.Tmpls, pick(c.Rand, tmplPool...), composed(c.Rand))
			s := g.sheet()
			for i := range s.Rules { // mentions that do not count
				if s.Rules[i].Raw == "" && c.Intn(10) == 0 {
					cl := "." + cssIdent(c.Rand, pick(c.Rand, g.A...), 0)
					s.Rules[i].Members = append(s.Rules[i].Members, Member{Tmpl: pick(c.Rand, "%1:not("+strings.ReplaceAll(cl, "%", "\xff")+") %0", "%0:has("+cl+")"), Class: [2]string{pick(c.Rand, g.A...), pick(c.Rand, g.D...)}})
					if strings.ContainsAny(cl, "% ") { // the template language uses these
						s.Rules[i].Members = s.Rules[i].Members[:len(s.Rules[i].Members)-1]
					}
				}
			}
			css := (&Lay{}).render(s.Rules)
			md := newModel()
			md.add(s.Rules)
			names := []string{"one piece"}
			ms := []*merge.Merger{c.load(css, true)}
			variant := func(name string, pieces ...[]Rule) {
				m := merge.NewMerger(nil, true)
				for _, p := range pieces {
					if len(p) > 0 {
						c.add(m, (&Lay{}).render(p))
					}
				}
				ms, names = append(ms, m), append(names, name)
			}
			var pieces [][]Rule
			for rest := s.Rules; len(rest) > 0; {
				k := 1 + c.Intn(len(rest))
				pieces = append(pieces, rest[:k])
				rest = rest[k:]
			}
			variant("split", pieces...)
			perm := reorder(c.Rand, s.Rules)
			variant("permuted", perm)
			variant("permuted and split", perm[:len(perm)/2], perm[len(perm)/2:])
			variant("twice", s.Rules, s.Rules)
			var needed []Rule
			for i := range s.Rules {
				for _, gv := range md.gov {
					if gv.rule == &s.Rules[i] {
						needed = append(needed, s.Rules[i])
						break
					}
				}
			}
			variant("without overruled rules", needed)
			// other definitions first
			other := newGen(c.Rand, p)
			other.A, other.D = g.A, g.D
			variantSheet := other.sheet()
			md2 := newModel()
			md2.add(variantSheet.Rules)
			covered := true
			for cl := range md2.gov {
				covered = covered && md.gov[cl] != nil
			}
			if covered {
				variant("after other definitions", variantSheet.Rules, s.Rules)
			}
			count := map[string]int{}
			for _, r := range s.Rules {
				seen := map[string]bool{}
				for _, m := range r.Members {
					for _, cl := range m.classes() {
						if !seen[cl] {
							seen[cl] = true
							count[cl]++
						}
					}
				}
			}
			c.lists(g, 20, func(l []string) {
				in := strings.Join(l, " ")
				if len(l) < 2 {
					return
				}
				ref := c.merge(ms[0], in)
				for i, m := range ms[1:] {
					if o := c.merge(m, in); o != ref {
						c.Fail("loading the same rules differently changes a merge", map[string]any{"css": css, "list": in, "one piece": ref, names[i+1]: o})
					}
				}
				twice := false
				for _, cl := range l {
					twice = twice || count[cl] > 1
				}
				a := everything
				a.nontrivial = func(v *Verdict, l []string) bool { return twice && len(v.gone) > 0 }
				c.judge(css, md, ms[0], l, a)
				c.Count("variants compared", len(ms)-1)
			})
		}})
}

// ---- C11: caches ----

type mapCache struct{ m map[string]string }

func (k *mapCache) Get(key string) (string, bool) { v, ok := k.m[key]; return v, ok }
func (k *mapCache) Set(key, v string)             { k.m[key] = v }
func (k *mapCache) Clear()                        { k.m = map[string]string{} }

// lossyCache forgets at random, which a cache may do, and returns junk along with a miss.
type lossyCache struct {
	m map[string]string
	r *rand.Rand
}

func (k *lossyCache) Get(key string) (string, bool) {
	if k.r.Intn(4) == 0 {
		delete(k.m, key)
	}
	v, ok := k.m[key]
	if !ok {
		return "not-a-result", false
	}
	return v, ok
}
func (k *lossyCache) Set(key, v string) {
	if k.r.Intn(4) > 0 {
		k.m[key] = v
	}
	if len(k.m) > 8 {
		for x := range k.m {
			delete(k.m, x)
			break
		}
	}
}
func (k *lossyCache) Clear() {
	for x := range k.m {
		delete(k.m, x)
	}
}

type noCache struct{}

func (noCache) Get(string) (string, bool) { return "", false }
func (noCache) Set(string, string)        {}
func (noCache) Clear()                    {}

// countCache wraps a cache and counts.
type countCache struct {
	merge.Cache
	hits, sets, clears int
}

func (k *countCache) Get(key string) (string, bool) {
	v, ok := k.Cache.Get(key)
	if ok {
		k.hits++
	}
	return v, ok
}
func (k *countCache) Set(key, v string) { k.sets++; k.Cache.Set(key, v) }
func (k *countCache) Clear()            { k.clears++; k.Cache.Clear() }

type failingReader struct {
	s   string
	err error
}

func (f *failingReader) Read(p []byte) (int, error) {
	if f.s == "" {
		return 0, f.err
	}
	n := copy(p, f.s)
	f.s = f.s[n:]
	return n, nil
}

var errReader = errors.New("reader failed")

func init() {
	register(&Check{ID: "C11", Quick: 260, Thorough: 12000,
		Rule: "histories of merges (fresh, repeated and look-alike lists; some histories with over 6000 distinct lists or lists of over 64 KB) and stylesheet additions (overruling, adding, failing) replayed on mergers with the bundled cache, a map, a forgetful cache, a cache that never hits and none; all return values have to be equal. Non-trivial: a merge answered by a cache.",
		Min:  map[string]int{"cache hits": 12000, "merges after a change of rules": 5000, "histories with over 6000 lists": 1},
		Run:  runC11})
}

func runC11(c *Case) {
	p := baseProfile()
	p.NA = 3 + c.Intn(10)
	p.NU = 6
	p.Props = 1 + c.Intn(3)
	p.Circ = 1
	g := newGen(c.Rand, p)
	keep := c.Intn(2) == 0
	cs := []*countCache{{Cache: merge.NewCache()}, {Cache: &mapCache{map[string]string{}}}, {Cache: &lossyCache{map[string]string{}, c.Rand}}, {Cache: noCache{}}}
	ref := merge.NewMerger(nil, keep)
	ms := []*merge.Merger{merge.NewMerger(merge.NewCache(), keep)} // one without any wrapper
	names := []string{"bundled", "bundled (wrapped)", "map", "forgetful", "never hits"}
	for _, k := range cs {
		ms = append(ms, merge.NewMerger(k, keep))
	}
	var used []string
	steps := 60
	big := c.Idx%200 == 7
	if big {
		steps = 6500
		c.Count("histories with over 6000 lists", 1)
	}
	changed := map[string]bool{}
	var hist []string
	note := func(s string) {
		if len(hist) < 400 {
			hist = append(hist, clip(s, 800))
		}
	}
	addAll := func(css string, ferr error) {
		errs := map[bool]int{}
		for _, m := range append([]*merge.Merger{ref}, ms...) {
			var rd io.Reader = strings.NewReader(css)
			if ferr != nil {
				rd = &failingReader{css, ferr}
			}
			c.Do("AddRules " + css)
			errs[m.AddRules(rd, false) == nil]++
		}
		if len(errs) != 1 {
			c.Fail("an addition succeeds or fails depending on the cache", map[string]any{"css": css, "history": hist})
		}
		for k := range changed {
			delete(changed, k)
		}
		for _, u := range used {
			changed[u] = true
		}
	}
	check := func(in string) {
		want := c.merge(ref, in)
		before := 0
		for _, k := range cs {
			before += k.hits
		}
		for i, m := range ms {
			if got := c.merge(m, in); got != want {
				c.Fail("cache changes a merge", map[string]any{"cache": names[i], "list": clip(in, 3000), "without cache": clip(want, 3000), "with cache": clip(got, 3000), "history": hist})
			}
		}
		hits := -before
		for _, k := range cs {
			hits += k.hits
		}
		c.Eval(hits > 0, fmt.Sprint(c.Idx), in, want)
		c.Count("cache hits", hits)
		if changed[in] {
			delete(changed, in)
			c.Count("merges after a change of rules", 1)
		}
	}
	addAll(g.sheet().css(), nil)
	for k := 0; k < steps; k++ {
		switch n := c.Intn(20); {
		case n == 0 && (!big || c.Intn(100) == 0), n == 19 && !big && c.Intn(2) == 0:
			gg := *g
			if c.Intn(3) == 0 { // classes that nothing has been known about so far
				gg.A = []string{pick(c.Rand, g.U...), pick(c.Rand, g.U...)}
				if gg.A[0] == gg.A[1] {
					gg.A = gg.A[:1]
				}
				gg.P.Tmpl, gg.P.Empty = 0, 0
			}
			s := gg.sheet()
			if c.Intn(2) == 0 && len(s.Rules) > 1 {
				s.Rules = s.Rules[:1+c.Intn(2)]
			}
			css := s.css()
			var about string
			if l := append([]string(nil), used...); len(l) > 0 && c.Intn(2) == 0 { // a tiny change that concerns a list merged before
				about = pick(c.Rand, l...)
				if f := fields(about); len(f) > 0 {
					r := g.rule(pick(c.Rand, f...))
					r.Members = r.Members[:1]
					if utf8.ValidString(r.Members[0].Class[0]) {
						switch c.Intn(5) {
						case 0, 1:
							r.Decls = nil
						case 2:
							r.Decls = r.Decls[:min(1, len(r.Decls))]
						case 3:
							r.Decls = []Decl{{Prop: pick(c.Rand, g.Vars...), Atom: []string{"1"}}}
						}
						if len(r.Decls) > 0 && r.Decls[0].custom() && r.Decls[0].Name == "" {
							r.Decls[0].Name = g.spellVar(r.Decls[0].Prop, "def")
						}
						css = (&Lay{}).render([]Rule{r})
						c.Count("tiny additions", 1)
					}
				}
			}
			note("add " + css)
			addAll(css, nil)
			if about != "" {
				note("merge " + about)
				check(about)
			}
		case n == 1 && (!big || c.Intn(100) == 0):
			css := g.sheet().css()
			switch c.Intn(3) {
			case 0:
				note("add (reader fails) " + css)
				addAll(css[:c.Intn(len(css))], errReader)
			case 1:
				css += ".x { color }"
				note("add (bad) " + css)
				addAll(css, nil)
			default:
				css += "@layer x { .y { color: red; }"
				note("add (cut off) " + css)
				addAll(css, nil)
			}
		case n < 9 && len(used) > 0 && !big:
			in := pick(c.Rand, used...)
			note("merge " + in)
			check(in)
		case n < 12 && len(used) > 0: // look-alikes of a used list
			in := pick(c.Rand, used...)
			l := fields(in)
			if len(l) == 0 {
				continue
			}
			switch c.Intn(8) {
			case 0:
				in = strings.Join(l, "  ")
			case 1:
				in = " " + in
			case 2:
				in += " "
			case 3:
				c.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
				in = strings.Join(l, " ")
			case 4:
				l[len(l)-1] = pick(c.Rand, g.A...)
				in = strings.Join(l, " ")
			case 5:
				l[0] = pick(c.Rand, g.A...)
				in = strings.Join(l, " ")
			case 6:
				i := c.Intn(len(l))
				l[i] = strings.ToUpper(l[i])
				in = strings.Join(l, " ")
			case 7:
				in = strings.Join(l[:1], "") + strings.Join(append(l[1:], "q"), " ")
			}
			used = append(used, in)
			note("merge " + in)
			check(in)
		default:
			l := g.list()
			if big {
				l = append(l, pick(c.Rand, g.U...)+fmt.Sprint(k))
			}
			in := strings.Join(l, " ")
			if !big && c.Intn(60) == 0 { // a very long list; another that differs in its middle only
				long := strings.Repeat(strings.Join(l, " ")+" x"+strings.Repeat("y", 1000)+" ", 70)
				check(long + pick(c.Rand, g.A...))
				h := len(long) / 2
				for long[h] != ' ' {
					h++
				}
				in = long[:h] + " " + pick(c.Rand, g.A...) + long[h:] + pick(c.Rand, g.A...)
				check(in)
				check(in)
				c.Count("lists over 64 KB", 3)
				continue
			}
			used = append(used, in)
			note("merge " + in)
			check(in)
			if c.Intn(3) == 0 {
				check(in)
			}
		}
	}
	if big { // everything once more, now from the caches
		for _, in := range used {
			check(in)
		}
	}
	if len(used) > 2 {
		c.Sample(map[string]any{"history (start)": hist[:min(6, len(hist))]})
	}
}

// ---- C26: rendering ----

func init() {
	register(&Check{ID: "C26", Quick: 2000, Thorough: 30000,
		Rule: "stylesheets whose classes, per circumstance, set equal or disjoint sets of individual properties, each rule wholly !important or not; for several orders of the rules the CSS cascade (importance, then stylesheet order) is simulated on the merged classes and compared with last-in-the-list. Non-trivial: some property of the list has several setters.",
		Run: func(c *Case) {
			p := baseProfile()
			p.NA, p.Custom, p.Use, p.Junk, p.List, p.Multi, p.Tmpl = 4+c.Intn(10), 0, 0.2, 0, 0, 0, 0.1
			p.Circ = 1 + c.Intn(3)
			g := newGen(c.Rand, p)
			// bundles of declarations that are equal or disjoint in the properties they set
			type bundle [][]string // alternative spellings
			bundles := []bundle{{{"color"}}, {{"margin-top"}}, {{"margin"}, {"margin-top", "margin-bottom", "margin-left", "margin-right"}, {"margin-left", "margin"}}, {{"border-top"}, {"border-top-width", "border-top-style", "border-top-color"}},
				{{"border-bottom"}, {"border-bottom-color", "border-bottom"}}, {{"padding"}}, {{"gap"}, {"row-gap", "column-gap"}}, {{"stroke"}}, {{"overflow-x"}}, {{"overflow-y"}}, {{"flex"}, {"flex-grow", "flex-shrink", "flex-basis"}}, {{"inset"}, {"top", "left", "right", "bottom"}}, {{"display", "width"}, {"width", "display"}}}
			mt := c.Intn(2)
			bundles = append(bundles[:1+mt], bundles[2+mt:]...) // either margin-top or margin
			for i := 0; i < 10; i++ {                           // shorthands of all kinds
				sh := pick(c.Rand, expSh...)
				in := append([]string{}, individual(sh)...)
				clash := false
				for _, b := range bundles {
					for _, alt := range b {
						for _, pr := range alt {
							for _, ip := range individual(pr) {
								clash = clash || contains(in, ip)
							}
						}
					}
				}
				if !clash {
					bundles = append(bundles, bundle{{sh}, in})
				}
			}
			c.Shuffle(len(bundles), func(i, j int) { bundles[i], bundles[j] = bundles[j], bundles[i] })
			filler := make([]int, len(bundles)) // further properties that go with those of a bundle
			if c.Intn(3) == 0 {
				for i := range filler {
					filler[i] = pick(c.Rand, 0, 1, 4, 10, 30, 70)
				}
			}
			impRate := pick(c.Rand, 10, 5, 2)
			var rules []Rule
			for _, cl := range g.A {
				imp := c.Intn(impRate) == 0
				r := Rule{Conds: g.conds(), Members: []Member{g.member(cl)}}
				b := c.Intn(min(len(bundles), 1+c.Idx%6))
				prs := append([]string{}, pick(c.Rand, bundles[b]...)...)
				for i := 0; i < filler[b]; i++ {
					prs = append(prs, fmt.Sprintf("-x-%d-%d", b, i))
				}
				if filler[b] > 0 {
					c.Shuffle(len(prs), func(i, j int) { prs[i], prs[j] = prs[j], prs[i] })
				}
				for _, pr := range prs {
					a, u := g.value(false)
					r.Decls = append(r.Decls, Decl{Prop: pr, Atom: a, Uses: u, Imp: imp})
				}
				rules = append(rules, r)
			}
			for o := 0; o < 4; o++ {
				c.Shuffle(len(rules), func(i, j int) { rules[i], rules[j] = rules[j], rules[i] })
				// context classes are governed by whichever rule is last: keep them out of the lists
				lay := &Lay{}
				if o == 1 {
					lay.r = c.Rand
				}
				css := lay.render(rules)
				m := c.load(css, true)
				pos := map[string]int{}
				for i, r := range rules {
					pos[r.Members[0].Class[0]] = i
				}
				for k := 0; k < 12; k++ {
					var l []string
					n := 2 + c.Intn(7)
					if c.Intn(10) == 0 {
						n += c.Intn(60)
					}
					for ; n > 0; n-- {
						l = append(l, pick(c.Rand, g.A...))
					}
					g.arrange(l)
					in := strings.Join(l, " ")
					out := fields(c.merge(m, in))
					type win struct {
						class string
						imp   bool
						n     int
					}
					last := map[string]int{}
					for i, cl := range l {
						last[cl] = i
					}
					apply := func(classes []string, better func(a, b string) bool) map[slotKey]win {
						res := map[slotKey]win{}
						for _, cl := range classes {
							i, ok := pos[cl]
							if !ok {
								continue
							}
							for _, d := range rules[i].Decls {
								for _, ip := range individual(d.Prop) {
									sk := slotKey{ip, condKey(rules[i].Conds) + "\x03" + rules[i].Members[0].key(cl)}
									w, ok := res[sk]
									if !ok || d.Imp && !w.imp || d.Imp == w.imp && better(cl, w.class) {
										res[sk] = win{cl, d.Imp, w.n + 1}
									} else {
										w.n++
										res[sk] = w
									}
								}
							}
						}
						return res
					}
					want := apply(l, func(a, b string) bool { return last[a] >= last[b] })
					got := apply(out, func(a, b string) bool { return pos[a] >= pos[b] })
					nt := false
					for sk, w := range want {
						nt = nt || w.n > 1
						if got[sk].class != w.class {
							c.Fail("merged classes render differently", map[string]any{"css": css, "list": in, "output": out, "property": sk.prop, "circumstance": sk.key, "value should come from": w.class, "comes from": got[sk].class})
						}
					}
					c.Eval(nt, css, in)
					c.Count("property values compared", len(want))
					if nt {
						c.Sample(map[string]any{"css": clip(css, 1200), "list": in, "output": out})
					}
				}
			}
		}})
}

// ---- C17: names and escapes ----

func init() {
	register(&Check{ID: "C17", Quick: 3000, Thorough: 60000,
		Rule: "class names (words, Tailwind-like, odd and random Unicode) written with minimal, random backslash and random hexadecimal escapes; the class has to be recognised under its decoded name, and 20 look-alike names must not be. Non-trivial: the name needs or gets an escape.",
		Run: func(c *Case) {
			const n = 12
			taken := map[string]bool{"zz": true, "last": true}
			names := genNames(c.Rand, n, taken, false)
			var b strings.Builder
			written := make([]string, n)
			for i, nm := range names {
				written[i] = cssIdent(c.Rand, nm, pick(c.Rand, 0, 0, 0.2, 0.6, 1))
				tail := pick(c.Rand, "", "", " ", "\n", "/**/")
				if strings.HasSuffix(written[i], "\n") || tail == "" {
					tail = " "
				}
				switch c.Intn(6) {
				case 0: // in a compound or a complex selector
					fmt.Fprintf(&b, "p%s.%s%s{color:red}", pick(c.Rand, "", " ", ">"), written[i], tail)
				case 1:
					fmt.Fprintf(&b, ".%s:hover,.%s%s{color:red}", written[i], written[i], tail)
				case 2:
					fmt.Fprintf(&b, "@media print{.%s%s{color:red}}", written[i], tail)
				default:
					fmt.Fprintf(&b, ".%s%s{color:red}", written[i], tail)
				}
			}
			css := b.String()
			m := c.load(css, true)
			rules := m.Rules()
			for i, nm := range names {
				if _, ok := rules[nm]; !ok {
					c.Fail("class not recognised", map[string]any{"css": css, "name": fmt.Sprintf("%q", nm), "written": fmt.Sprintf("%q", written[i])})
				}
				over := cssIdent(c.Rand, nm, pick(c.Rand, 0, 0.5))
				m2css := fmt.Sprintf(".%s {color:red} .last {color:blue}", written[i])
				if i%3 == 0 {
					m2css = fmt.Sprintf(".%s {width:0} .last {color:blue} .%s {color:red}", over, written[i])
				}
				c.add(m, m2css)
				if out := c.merge(m, nm+" last"); out != "last" {
					c.Fail("class not recognised", map[string]any{"css": m2css, "name": fmt.Sprintf("%q", nm), "list": nm + " last", "output": out})
				}
				c.Eval(written[i] != nm, written[i])
				for _, s := range similar(c.Rand, nm, written[i]) {
					if contains(names, s) || s == "last" || len(fields(s)) != 1 {
						continue
					}
					if _, ok := m.Rules()[s]; ok {
						c.Fail("another name is treated as the class", map[string]any{"css": css, "class": fmt.Sprintf("%q", nm), "written": fmt.Sprintf("%q", written[i]), "also recognised": fmt.Sprintf("%q", s)})
					}
					if out := c.merge(m, s+" last"); out != s+" last" {
						c.Fail("another name is treated as the class", map[string]any{"css": css, "class": fmt.Sprintf("%q", nm), "written": fmt.Sprintf("%q", written[i]), "list": fmt.Sprintf("%q", s+" last"), "output": fmt.Sprintf("%q", out)})
					}
					c.Count("look-alikes told apart", 1)
				}
				c.Sample(map[string]any{"name": nm, "written": written[i]})
			}
			if len(m.Rules()) != n+1 {
				c.Fail("number of recognised classes", map[string]any{"css": css, "names": names, "recognised": len(m.Rules())})
			}
		}})
}

func auxMain(mode string, args []string) {
	switch mode {
	case "c08":
		var seed uint64
		var idx int
		fmt.Sscan(args[0], &seed)
		fmt.Sscan(args[1], &idx)
		for k := 0; k < 30; k++ {
			for _, o := range c08Outputs(seed+uint64(k), idx) {
				fmt.Printf("%q\n", o)
			}
		}
	}
	_ = filepath.Join
}
