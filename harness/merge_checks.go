//go:build go1.22

package main

import (
	"fmt"
	"sort"
	"strings"

	merge "github.com/tylantz/go-tailwind-merge"
)

// load makes a merger with the stylesheet; a failure to load a well-formed sheet is reported.
func (c *Case) load(css string, keepSort bool) *merge.Merger {
	m := merge.NewMerger(nil, keepSort)
	c.add(m, css)
	return m
}

func (c *Case) add(m *merge.Merger, css string) {
	c.Do("AddRules " + css)
	if err := m.AddRules(strings.NewReader(css), false); err != nil {
		c.Fail("well-formed stylesheet rejected", map[string]any{"css": css, "error": err.Error()})
	}
}

func (c *Case) merge(m *merge.Merger, list string) string {
	c.Do("Merge " + list)
	return m.Merge(list)
}

func isSpace(c rune) bool {
	return c == ' ' || c == '\t' || c == '\n' || c == '\f' || c == '\r'
}

func fields(s string) []string { return strings.FieldsFunc(s, isSpace) }

func set(s []string) map[string]bool {
	m := map[string]bool{}
	for _, x := range s {
		m[x] = true
	}
	return m
}

// which parts of the model's verdict a property is about
type aspect struct {
	keepKinds  []string // reasons for survival that are checked
	gone       bool     // check that overridden classes are absent
	nontrivial func(v *Verdict, list []string) bool
	goneIf     func(m *Model, class string) bool
}

func (c *Case) judge(css string, md *Model, mg *merge.Merger, list []string, a aspect) {
	v := md.eval(list)
	in := strings.Join(list, " ")
	if len(fields(in)) < 2 {
		return
	}
	out := set(fields(c.merge(mg, in)))
	for cl, ws := range v.keep {
		if out[cl] {
			continue
		}
		for _, w := range ws {
			if contains(a.keepKinds, w.kind) {
				c.Fail("class lost", map[string]any{"css": css, "list": in, "output": sorted(out), "class": cl, "why it has to stay": w.kind + " " + w.slot})
			}
		}
	}
	if a.gone {
		for cl := range v.gone {
			if out[cl] && (a.goneIf == nil || a.goneIf(md, cl)) {
				c.Fail("overridden class kept", map[string]any{"css": css, "list": in, "output": sorted(out), "class": cl})
			}
		}
	}
	nt := a.nontrivial(v, list)
	c.Eval(nt, css, in)
	c.Count("classes that must stay", len(v.keep))
	c.Count("classes that must go", len(v.gone))
	c.Count("important winners over later setters", v.impWins)
	c.Count("custom properties in use", v.vars)
	if nt {
		c.Sample(map[string]any{"css": clip(css, 1500), "list": clip(in, 500), "output": sorted(out)})
	}
}

func (c *Case) lists(g *Gen, n int, f func(list []string)) {
	for i := 0; i < n; i++ {
		f(g.list())
	}
}

// contested: some individual property is set by two classes, and some class has to go.
func contested(v *Verdict, list []string) bool {
	if len(v.gone) == 0 {
		return false
	}
	for _, n := range v.setters {
		if n > 1 {
			return true
		}
	}
	return false
}

func baseProfile() Profile {
	return Profile{NA: 8, ND: 2, NU: 3, Props: 5, Shorthands: 0.4, Cond: 0.15, Pseudo: 0.15, PE: 0.05, Tmpl: 0.12, List: 0.08, Multi: 0.1,
		Imp: 0.08, Custom: 0.1, Use: 0.1, Empty: 0.03, Junk: 0.1, DeclMax: 3, EscVars: true, Big: true}
}

func modelCheck(id string, quick, thorough int, rule string, profile func(c *Case) Profile, a aspect, nlists int) {
	register(&Check{ID: id, Quick: quick, Thorough: thorough, Rule: rule, Run: func(c *Case) {
		p := profile(c)
		g := newGen(c.Rand, p)
		s := g.sheet()
		lay := &Lay{}
		if c.Intn(4) == 0 {
			lay.r = c.Rand
		}
		css := lay.render(s.Rules)
		mg := c.load(css, c.Intn(3) > 0)
		md := newModel()
		md.add(s.Rules)
		c.lists(g, nlists, func(l []string) { c.judge(css, md, mg, l, a) })
		if c.Idx%3 == 0 { // all ordered pairs of two of the classes and a triple repeated
			x, y := pick(c.Rand, g.A...), pick(c.Rand, g.A...)
			for _, l := range [][]string{{x, y}, {y, x}, {x, y, x}, {x, x, y}, {y, x, y, x}} {
				c.judge(css, md, mg, l, a)
			}
		}
	}})
}

func init() {
	modelCheck("C01", 3000, 60000,
		"a generated stylesheet (shorthands, circumstances, lists, multi-class selectors, repeated names) and class lists; the reference model names the last setter of every individual property. Non-trivial: two classes of the list set the same individual property in the same circumstance and some class has to go.",
		func(c *Case) Profile {
			p := baseProfile()
			p.NA = 2 + c.Intn(14)
			p.Props = 2 + c.Intn(8)
			p.DeclMax = 1 + c.Intn(6)
			p.SimpleNames = c.Intn(2) == 0
			switch c.Intn(6) {
			case 0:
				p.Tmpl, p.List, p.ND = 0.7, 0.3, 3
				p.Circ = 1
			case 1:
				p.NA, p.Props, p.DeclMax = 40+c.Intn(160), 12, 2
				p.Cond, p.Pseudo, p.Tmpl = 0, 0, 0
			case 2:
				p.Multi = 0.6
			}
			return p
		}, aspect{keepKinds: []string{"last"}, nontrivial: contested}, 40)

	modelCheck("C02", 3000, 60000,
		"as for C01, with dense overlaps; the reference model says which classes have no reason left to stay. Non-trivial: at least one class of the list has to go.",
		func(c *Case) Profile {
			p := baseProfile()
			p.NA = 2 + c.Intn(10)
			p.Props = 1 + c.Intn(4)
			p.DeclMax = 1 + c.Intn(3)
			p.Imp, p.Custom, p.Use = 0.03, 0.05, 0.05
			switch c.Intn(5) {
			case 0:
				p.Tmpl, p.Circ = 0.8, 1
			case 1:
				p.Cond, p.Circ = 0.8, 1
			case 2:
				p.Imp, p.Custom, p.Use = 0.3, 0.3, 0.2
			case 3:
				p.List, p.Circ = 0.5, 1
			}
			return p
		}, aspect{gone: true, nontrivial: func(v *Verdict, l []string) bool { return len(v.gone) > 0 }}, 40)

	modelCheck("C05", 3000, 60000,
		"stylesheets in which a third of the declarations are !important (spelled in many ways; also strings and words that only look like it). Non-trivial: a class wins a property as !important although a later class sets it.",
		func(c *Case) Profile {
			p := baseProfile()
			p.NA = 2 + c.Intn(8)
			p.Props = 1 + c.Intn(5)
			p.DeclMax = 1 + c.Intn(4)
			p.Imp = 0.15 + c.Float64()*0.5
			p.ImpCustom = 0.2
			p.Cond, p.Pseudo, p.Tmpl, p.Circ = 0.1, 0.1, 0.05, 1+c.Intn(2)
			p.Use, p.Custom = 0.1, 0.1
			return p
		}, aspect{keepKinds: []string{"important"}, gone: true, goneIf: setsImportant, nontrivial: func(v *Verdict, l []string) bool { return v.impWins > 0 }}, 40)

	modelCheck("C06", 3000, 60000,
		"stylesheets full of custom properties: definitions, references, references through other custom properties, fallbacks, differing circumstances of definition and use, look-alike names and strings. Non-trivial: some class of the list sets a custom property that is in use, or sets custom properties only and has to go.",
		func(c *Case) Profile {
			p := baseProfile()
			p.NA = 3 + c.Intn(9)
			p.Props = 1 + c.Intn(5)
			p.DeclMax = 1 + c.Intn(5)
			p.Custom = 0.3 + c.Float64()*0.5
			p.Use = 0.2 + c.Float64()*0.6
			p.Shorthands = 0.2
			p.Imp, p.ImpCustom = 0.1, 0.05
			p.Cond, p.Pseudo, p.Tmpl, p.Circ = 0.1, 0.15, 0.05, 1+c.Intn(3)
			return p
		}, aspect{keepKinds: []string{"var"}, gone: true, goneIf: setsCustom, nontrivial: func(v *Verdict, l []string) bool { return v.vars > 0 || len(v.gone) > 0 }}, 40)
}

func setsImportant(m *Model, class string) bool {
	for _, d := range m.gov[class].decls {
		if d.Imp {
			return true
		}
	}
	return false
}

func setsCustom(m *Model, class string) bool {
	for _, d := range m.gov[class].decls {
		if d.custom() {
			return true
		}
	}
	return false
}

// ---- C03: all pairs of properties ----

func init() {
	register(&Check{ID: "C03", Quick: 240, Thorough: 2400,
		Rule: "every property of the reviewed table (plus unknown ones and custom properties) gets a class; for ordered pairs (p,q) of them the first class has to stay in 'p q' exactly if the expansion of p is not covered by that of q; also triples, where two properties together cover a third. Every case covers one slice of all pairs; all slices together are all pairs. Non-trivial: the expansions of p and q overlap and p is not q.",
		Min:  map[string]int{"ordered pairs": 250000},
		Run:  runC03})
}

func runC03(c *Case) {
	expansion()
	names := append([]string(nil), expAll...)
	names = append(names, "stroke", "fill", "stroke-width", "colour", "-x-border", "borders", "border-", "bordertop", "--border", "--margin", "margin-topp", "-webkit-border-top", "x", "padding-start", "-webkit-margin")
	const slices = 240
	var css strings.Builder
	cl := func(i int) string { return fmt.Sprint("k", i) }
	for i, n := range names {
		fmt.Fprintf(&css, ".%s { %s: %s; }\n", cl(i), n, pick(c.Rand, "1px", "inherit", "red", "0"))
	}
	text := css.String()
	if c.Idx%2 == 1 {
		text = strings.ReplaceAll(text, "\n", "")
	}
	m := c.load(text, true)
	sets := make([]map[string]bool, len(names))
	for i, n := range names {
		sets[i] = set(individual(n))
	}
	custom := func(i int) bool { return strings.HasPrefix(names[i], "--") }
	for i := c.Idx % slices; i < len(names); i += slices {
		for j := range names {
			if i == j {
				continue
			}
			out := set(fields(c.merge(m, cl(i)+" "+cl(j))))
			covered, overlap := true, false
			for p := range sets[i] {
				if sets[j][p] {
					overlap = true
				} else {
					covered = false
				}
			}
			wantI := !covered && !custom(i) // a custom property that nobody uses goes
			wantJ := !custom(j)
			if out[cl(i)] != wantI || out[cl(j)] != wantJ {
				c.Fail("wrong conflict between two properties", map[string]any{"first": names[i], "second": names[j], "first kept": out[cl(i)], "should be": wantI, "second kept": out[cl(j)],
					"expansion of first": individual(names[i]), "expansion of second": individual(names[j])})
			}
			c.Count("ordered pairs", 1)
			c.Eval(overlap, names[i], names[j])
			if overlap {
				c.Sample(map[string]any{"first": names[i], "second": names[j], "first kept": out[cl(i)]})
			}
		}
	}
	// several properties against one
	for k := 0; k < 300; k++ {
		sh := pick(c.Rand, expSh...)
		in := individual(sh)
		var parts []string
		for _, p := range in {
			if c.Intn(12) > 0 {
				parts = append(parts, p)
			}
		}
		for t := 0; t < 3; t++ { // replace some longhands by shorthands of the table that cover them
			o := pick(c.Rand, expSh...)
			if o != sh && contains(in, individual(o)[0]) {
				parts = append(parts, o)
			}
		}
		c.Shuffle(len(parts), func(i, j int) { parts[i], parts[j] = parts[j], parts[i] })
		all := append([]string{sh}, parts...)
		if c.Intn(4) == 0 {
			all = append(parts, sh)
		}
		lastSet := map[string]string{}
		var l []string
		for _, p := range all {
			i := sort.SearchStrings(expAll, p)
			l = append(l, cl(i))
			for _, x := range individual(p) {
				lastSet[x] = cl(i)
			}
		}
		want := map[string]bool{}
		for _, x := range lastSet {
			want[x] = true
		}
		if len(l) < 2 {
			continue
		}
		out := set(fields(c.merge(m, strings.Join(l, " "))))
		if fmt.Sprint(sorted(want)) != fmt.Sprint(sorted(out)) {
			c.Fail("wrong conflict between a shorthand and a group of properties", map[string]any{"properties": all, "classes": l, "want": sorted(want), "got": sorted(out)})
		}
		c.Eval(true, strings.Join(all, " "))
	}
}
