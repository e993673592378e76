//go:build go1.22

package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"sync"

	"github.com/tylantz/go-tailwind-merge/internal/props"
)

// tableEntry is what the data file says about one property.
type tableEntry struct {
	computed []string
	status   string
	also     []string
}

// dataFile reads the property data independently of the package, token by token.
func dataFile() (map[string]tableEntry, int, error) {
	root := os.Getenv("VERIF_REPO")
	if root == "" {
		root = "/repo"
	}
	f, err := os.Open(filepath.Join(root, "internal/props/gen/properties.json"))
	if err != nil {
		return nil, 0, err
	}
	defer f.Close()
	dec := json.NewDecoder(f)
	if t, err := dec.Token(); err != nil || t != json.Delim('{') {
		return nil, 0, fmt.Errorf("the data file is not an object: %v %v", t, err)
	}
	out := map[string]tableEntry{}
	n := 0
	for dec.More() {
		t, err := dec.Token()
		if err != nil {
			return nil, 0, err
		}
		name := t.(string)
		var raw map[string]json.RawMessage
		if err := dec.Decode(&raw); err != nil {
			return nil, 0, err
		}
		var e tableEntry
		if len(raw["computed"]) > 0 && raw["computed"][0] == '[' {
			if err := json.Unmarshal(raw["computed"], &e.computed); err != nil {
				return nil, 0, err
			}
		} else {
			e.computed = []string{name}
		}
		if len(raw["status"]) > 0 {
			if err := json.Unmarshal(raw["status"], &e.status); err != nil {
				return nil, 0, err
			}
		}
		if len(raw["alsoAppliesTo"]) > 0 {
			if err := json.Unmarshal(raw["alsoAppliesTo"], &e.also); err != nil {
				return nil, 0, err
			}
		}
		out[name] = e
		n++
	}
	return out, n, nil
}

func compareTable(c *Case, when string, got map[string]props.Property, want map[string]tableEntry) {
	if len(got) != len(want) {
		c.Fail("another number of properties", map[string]any{"when": when, "got": len(got), "want": len(want)})
	}
	for name, w := range want {
		p, ok := got[name]
		if !ok {
			c.Fail("missing property", map[string]any{"when": when, "name": name})
		}
		also := []string{}
		for _, a := range p.AlsoAppliesTo() {
			also = append(also, string(a))
		}
		wantAlso := append([]string{}, w.also...)
		if p.Name() != name || string(p.Status()) != w.status || !reflect.DeepEqual(also, wantAlso) || !reflect.DeepEqual(append([]string{}, p.ComputedProps()...), append([]string{}, w.computed...)) {
			c.Fail("wrong property", map[string]any{"when": when, "key": name, "name": p.Name(), "individual": p.ComputedProps(), "want individual": w.computed,
				"status": p.Status(), "want status": w.status, "also": also, "want also": wantAlso})
		}
		c.Eval(len(w.computed) > 1 || len(w.also) > 0, name)
	}
	c.Count("properties compared", len(want))
}

func load(c *Case) map[string]props.Property {
	m, err := props.GetProperties()
	if err != nil {
		c.Fail("loading fails", map[string]any{"error": err.Error()})
	}
	c.Count("loads", 1)
	return m
}

// vandalise changes what can be reached from a table.
func vandalise(c *Case, m map[string]props.Property) {
	r := c.Rand
	names := make([]string, 0, len(m))
	for k := range m {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		p := m[k]
		l, a := p.ComputedProps(), p.AlsoAppliesTo()
		switch r.Intn(6) {
		case 0:
			delete(m, k)
		case 1:
			m[k] = props.Property{}
		case 2:
			m[pick(r, names...)] = p
		case 3:
			_ = append(l[:0], "vandal", "x")
			if len(a) > 0 {
				a[0] = "::x"
			}
		default:
			for i := range l {
				l[i] = "vandal"
			}
			_ = append(l, "more")
			for i := range a {
				a[i] = "::vandal"
			}
			_ = append(a, "more")
		}
	}
	m["vandal"] = props.Property{}
	c.Count("tables vandalised", 1)
}

func init() {
	register(&Check{
		ID: "C25", Quick: 60, Thorough: 2500, Workers: 2,
		Rule: "Every entry of the data file (read independently) against the loaded table; in each case several tables are loaded, one after another and from several goroutines, some are changed in every way their accessors allow, and the others must keep saying what the data file says. Non-trivial: properties with several individual properties or an applies-also list.",
		Min:  map[string]int{"properties compared": 100000, "tables vandalised": 60, "concurrent loads": 200},
		Run: func(c *Case) {
			r := c.Rand
			want, n, err := dataFile()
			if err != nil || n != len(want) || n == 0 {
				c.Fail("unreadable data file", map[string]any{"error": fmt.Sprint(err), "entries": n, "names": len(want)})
			}
			first := load(c)
			compareTable(c, "first load", first, want)
			second := load(c)
			if !reflect.DeepEqual(first, second) {
				c.Fail("two loads differ", nil)
			}
			vandalise(c, second)
			compareTable(c, "after another table was changed", first, want)
			third := load(c)
			compareTable(c, "load after a change", third, want)
			k := 2 + r.Intn(6)
			tables := make([]map[string]props.Property, k)
			var wg sync.WaitGroup
			errs := make([]error, k)
			for i := range tables {
				wg.Add(1)
				go func(i int) {
					defer wg.Done()
					tables[i], errs[i] = props.GetProperties()
				}(i)
			}
			wg.Wait()
			for i, t := range tables {
				if errs[i] != nil {
					c.Fail("loading fails", map[string]any{"error": errs[i].Error()})
				}
				compareTable(c, "concurrent load", t, want)
				vandalise(c, t)
			}
			c.Count("concurrent loads", k)
			compareTable(c, "after concurrent loads were changed", first, want)
			compareTable(c, "after concurrent loads were changed", third, want)
			compareTable(c, "last load", load(c), want)
			padding := first["padding"]
			c.Sample(map[string]any{"entries": n, "loads": k + 4, "padding": padding.ComputedProps(), "names": len(first)})
		},
	})
}
