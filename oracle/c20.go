package main

import (
	"fmt"

	"github.com/netascode/xmldot"
)

type step20 struct {
	name  string
	index int // -1: none
}

// select20 gives the elements a count counts: those of the first place that has any. one reports that every
// step without an index selected a single element.
func select20(nodes []*node, steps []step20, fold bool) (out []*node, one bool) {
	s := steps[0]
	var m []*node
	for _, n := range nodes {
		if nameRule(s.name, n.name, fold) {
			m = append(m, n)
		}
	}
	if len(steps) == 1 {
		return m, true
	}
	if s.index >= 0 {
		if s.index >= len(m) {
			return nil, true
		}
		return select20(m[s.index].kids(), steps[1:], fold)
	}
	one = len(m) <= 1
	for _, n := range m {
		r, o := select20(n.kids(), steps[1:], fold)
		one = one && o
		if len(r) > 0 {
			return r, one
		}
	}
	return nil, one
}

func init() {
	props["C20"] = property{
		"documents and fragments with runs of up to 1000 repeated elements between comments, CDATA and other elements, read by paths of up to 5 steps that end in a name, counted and indexed; non-trivial: distinct (document, path) pairs",
		func(c *ctx) {
			d := c.doc()
			names := []string{"a", "b", "item", "A", "Item", "ns:a", "x:item"}
			if c.Intn(2) == 0 { // repeated elements at one place
				if all := d.all(); c.Intn(3) > 0 {
					n := pick(c, all)
					n.self = false
					n.items = c.run20(n, names)
				} else {
					for _, x := range c.run20(nil, names) {
						if x, ok := x.(*node); ok {
							d.roots, d.lead = append(d.roots, x), append(d.lead, pick(c, []string{"", "\n", "<!-- <a/> -->"}))
						}
					}
				}
				d.render(c)
			}
			fold := c.Intn(3) == 0
			var steps []step20
			kids := d.roots
			for k := 1 + c.Intn(5); k > 0; k-- {
				s := step20{pick(c, names), -1}
				if len(kids) > 0 && c.Intn(8) > 0 {
					x := pick(c, kids)
					s.name = x.name
					if c.Intn(2) == 0 {
						s.name = local(s.name)
					}
					kids = x.kids()
				}
				if k > 1 && c.Intn(3) == 0 {
					s.index = c.Intn(4)
					if c.Intn(2) == 0 {
						s.index = 0
					}
				}
				steps = append(steps, s)
				if len(kids) == 0 && c.Intn(4) > 0 {
					break
				}
			}
			steps[len(steps)-1].index = -1
			p := ""
			for _, s := range steps {
				if p != "" {
					p += "."
				}
				p += s.name
				if s.index >= 0 {
					p += fmt.Sprint(".", s.index)
				}
			}
			c.try("doc=%q path=%q fold=%v", d.text, p, fold)
			want, one := select20(d.roots, steps, fold)
			if len(want) > 1000 {
				return
			}
			texts := make([]string, len(want))
			for i, n := range want {
				texts[i] = d.text[n.open:n.close]
			}
			get := func(path string) xmldot.Result {
				if fold {
					return xmldot.GetWithOptions(d.text, path, &xmldot.Options{CaseSensitive: false})
				}
				r := xmldot.Get(d.text, path)
				if b := xmldot.GetBytes([]byte(d.text), path); b.Type != r.Type || b.Raw != r.Raw {
					c.failf("Get and GetBytes differ at %s", path)
				}
				if o := xmldot.GetWithOptions(d.text, path, &xmldot.Options{CaseSensitive: true, Indent: " "}); o.Type != r.Type || o.Raw != r.Raw {
					c.failf("Get and GetWithOptions differ at %s", path)
				}
				return r
			}
			c20(c, get, p, texts, one)
		}}
}

func (c *ctx) run20(parent *node, names []string) (items []any) {
	k := 1 + c.Intn(12)
	if c.Intn(30) == 0 {
		k = pick(c, []int{99, 100, 101, 255, 256, 257, 500, 999, 1000})
	}
	name := pick(c, names)
	for i := 0; i < k; i++ {
		n := &node{name: name, parent: parent, items: []any{fmt.Sprint("t", i)}}
		switch c.Intn(12) {
		case 0:
			n.self, n.items = true, nil
		case 1:
			n.items = nil
		case 2:
			if k < 50 {
				n.items = append(n.items, &node{name: name, parent: n, items: []any{fmt.Sprint("in", i)}})
			}
		case 3:
			n.attrs = []attr{{"x", pick(c, []string{"1", ">", "/>", "a"})}}
		}
		items = append(items, n)
		for k < 50 && c.Intn(3) == 0 {
			switch c.Intn(3) {
			case 0:
				items = append(items, pick(c, miscPool))
			case 1:
				items = append(items, pick(c, textPool))
			default:
				items = append(items, &node{name: pick(c, names), parent: parent, items: []any{fmt.Sprint("o", i)}})
			}
		}
	}
	return
}

func c20(c *ctx, get func(string) xmldot.Result, p string, texts []string, one bool) {
	n := len(texts)
	cnt := get(p + ".#")
	if cnt.Int() != int64(n) || cnt.Exists() && (cnt.Type != xmldot.Number || cnt.String() != fmt.Sprint(n)) {
		c.failf("%d elements match, but the count is %s", n, cnt.String())
	}
	at := func(i int) {
		r := get(fmt.Sprint(p, ".", i))
		if i < n {
			if !r.Exists() || r.Type != xmldot.Element {
				c.failf("%d elements match, but index %d gives type %v", n, i, r.Type)
			}
			if r.Raw != texts[i] {
				c.failf("index %d gives content %q; the element's content is %q", i, r.Raw, texts[i])
			}
		} else if one && r.Exists() {
			c.failf("%d elements match, but index %d exists: %q", n, i, r.Raw)
		}
	}
	if n <= 15 {
		for i := 0; i < n; i++ {
			at(i)
		}
	} else {
		at(0)
		at(n - 1)
		for k := 0; k < 6; k++ {
			at(c.Intn(n))
		}
	}
	for _, i := range []int{n, n + 1, n + c.Intn(20), 2 * n, 10 * n, 1000, 1 << 31, n + 1<<32} {
		if i >= n {
			at(i)
		}
	}
}
