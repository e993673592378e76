//go:build go1.22

package main

import (
	"sort"
	"strings"
)

// Reference model of the merge: which classes of a list have to survive, and which must not.

type governed struct {
	keys  []string // circumstances
	decls []Decl
	rule  *Rule
}

type Model struct{ gov map[string]*governed }

func newModel() *Model { return &Model{gov: map[string]*governed{}} }

// add loads rules; the last rule that mentions a class governs it.
func (m *Model) add(rs []Rule) {
	for i := range rs {
		r := &rs[i]
		if r.Raw != "" {
			continue
		}
		seen := map[string]*governed{}
		for _, mem := range r.Members {
			for _, c := range mem.classes() {
				g := seen[c]
				if g == nil {
					g = &governed{decls: r.Decls, rule: r}
					seen[c] = g
				}
				k := condKey(r.Conds) + "\x03" + mem.key(c)
				if !contains(g.keys, k) {
					g.keys = append(g.keys, k)
				}
			}
		}
		for c, g := range seen {
			m.gov[c] = g
		}
	}
}

type slotKey struct{ prop, key string }

type why struct{ kind, slot string }

// Verdict says for each class why it has to survive; a class that is in neither map may or may not survive.
type Verdict struct {
	keep    map[string][]why
	gone    map[string]bool
	impWins int // important winners with a later ordinary setter
	vars    int // used custom properties that are set
	setters map[slotKey]int
}

type setter struct {
	class string
	decls []Decl // its declarations for the property, in order
}

func (m *Model) eval(list []string) *Verdict {
	v := &Verdict{keep: map[string][]why{}, gone: map[string]bool{}, setters: map[slotKey]int{}}
	last := map[string]int{}
	for i, c := range list {
		last[c] = i
	}
	order := make([]string, 0, len(last))
	for c := range last {
		order = append(order, c)
	}
	sort.Slice(order, func(i, j int) bool { return last[order[i]] < last[order[j]] })

	normal := map[slotKey]setter{} // last setter, ordinary or important
	imp := map[slotKey]setter{}    // last important setter
	keep := func(c, kind, slot string) { v.keep[c] = append(v.keep[c], why{kind, slot}) }
	for _, c := range order {
		g := m.gov[c]
		if g == nil {
			keep(c, "unknown", "")
			continue
		}
		if len(g.decls) == 0 {
			keep(c, "empty", "")
			continue
		}
		mine := map[slotKey]*setter{}
		mineImp := map[slotKey]*setter{}
		put := func(mm map[slotKey]*setter, k slotKey, d Decl) {
			if mm[k] == nil {
				mm[k] = &setter{class: c}
			}
			mm[k].decls = append(mm[k].decls, d)
		}
		for _, d := range g.decls {
			for _, p := range individual(d.Prop) {
				for _, k := range g.keys {
					sk := slotKey{p, k}
					put(mine, sk, d)
					if d.Imp {
						put(mineImp, sk, d)
					}
				}
			}
		}
		for k, s := range mine {
			normal[k] = *s
			v.setters[k]++
		}
		for k, s := range mineImp {
			imp[k] = *s
		}
	}
	// custom properties in use: certainly (sure) and possibly (maybe)
	sure, maybe := map[string]bool{}, map[string]bool{}
	mark := func(s setter) { // an earlier declaration is the fallback for a later one that a browser doesn't understand
		for _, d := range s.decls {
			for _, u := range d.Uses {
				sure[u], maybe[u] = true, true
			}
		}
	}
	for _, mm := range []map[slotKey]setter{normal, imp} {
		for k, s := range mm {
			if !strings.HasPrefix(k.prop, "--") {
				mark(s)
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for _, mm := range []map[slotKey]setter{normal, imp} {
			for k, s := range mm {
				if !strings.HasPrefix(k.prop, "--") {
					continue
				}
				if sure[k.prop] {
					for _, u := range s.decls[len(s.decls)-1].Uses {
						if !sure[u] {
							sure[u], changed = true, true
						}
					}
				}
				if maybe[k.prop] {
					for _, d := range s.decls {
						for _, u := range d.Uses {
							if !maybe[u] {
								maybe[u], changed = true, true
							}
						}
					}
				}
			}
		}
	}
	open := map[string]bool{}
	for k, s := range normal {
		switch {
		case !strings.HasPrefix(k.prop, "--"):
			keep(s.class, "last", k.prop+" @ "+k.key)
		case sure[k.prop]:
			keep(s.class, "var", k.prop+" @ "+k.key)
			v.vars++
		case maybe[k.prop]:
			open[s.class] = true
		}
	}
	for k, s := range imp {
		if strings.HasPrefix(k.prop, "--") && !sure[k.prop] {
			open[s.class] = true // C05 keeps it, C06 has no use for it
			if !strings.HasPrefix(k.prop, "--") {
				continue
			}
		} else {
			keep(s.class, "important", k.prop+" @ "+k.key)
		}
		if normal[k].class != s.class {
			v.impWins++
		}
	}
	for _, c := range order {
		if v.keep[c] == nil && !open[c] {
			v.gone[c] = true
		}
	}
	return v
}
