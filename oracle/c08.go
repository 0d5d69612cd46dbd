package main

import (
	"fmt"
	"strings"

	"github.com/netascode/xmldot"
)

var flushes int

func flushPaths() {
	for k := 0; k < 260; k++ {
		flushes++
		xmldot.Get("<a/>", fmt.Sprintf("a.f%d", flushes))
	}
}

func init() {
	props["C08"] = property{
		"histories of up to eight calls on generated documents with many attributes, whose paths are spelling variants of each other, run with an emptied path cache, again with the paths cached, in another order, and after emptying the cache again; non-trivial: distinct histories",
		func(c *ctx) {
			type call struct {
				what string
				run  func() string
			}
			var calls []call
			show := func(s string, err error) string { return fmt.Sprintf("%q %v", s, err) }
			d := c.doc()
			if c.Intn(3) == 0 { // attributes that differ in letter case, and many of them
				n := pick(c, d.all())
				n.attrs = nil
				for _, a := range []string{"id", "ID", "Id", "iD", "b", "a", "z:id", "Z", "k1", "k2", "k3"} {
					if c.Intn(3) > 0 {
						n.attrs = append(n.attrs, attr{a, fmt.Sprint(c.Intn(9))})
					}
				}
				d.render(c)
			}
			base := c.editPath(d)
			c.shallow = len(d.text) > 400
			ci := &xmldot.Options{CaseSensitive: false}
			for k := 1 + c.Intn(8); k > 0; k-- {
				p := base
				switch c.Intn(8) {
				case 0:
					p = strings.ToUpper(p)
				case 1:
					p += pick(c, []string{" ", ".", "|@first", "|@reverse", ".#", ".0", ".1", ".%", ".*", ".@id", ".@ID", "\\"})
				case 2:
					p = pick(c, []string{" ", "."}) + p
				case 3:
					p = c.editPath(d)
				case 4:
					p = c.path()
				}
				v := c.str()
				txt := d.text
				var f func() string
				switch c.Intn(7) {
				case 0, 1:
					f = func() string { return fmt.Sprintf("%#v", xmldot.Get(txt, p)) }
				case 2:
					f = func() string { return fmt.Sprintf("%#v", xmldot.GetWithOptions(txt, p, ci)) }
				case 3:
					f = func() string { return show(xmldot.Set(txt, p, v)) }
				case 4:
					f = func() string { return show(xmldot.SetWithOptions(txt, p, v, ci)) }
				case 5:
					f = func() string { return show(xmldot.Delete(txt, p)) }
				case 6:
					f = func() string {
						s, err := xmldot.DeleteBytesWithOptions([]byte(txt), p, ci)
						return show(string(s), err)
					}
				}
				calls = append(calls, call{fmt.Sprintf("%q(%q)", p, v), f})
			}
			var list []string
			for _, x := range calls {
				list = append(list, x.what)
			}
			c.try("document %q, calls %s", d.text, strings.Join(list, ", "))
			first := make([]string, len(calls))
			check := func(when string, order []int) {
				for _, i := range order {
					r := calls[i].run()
					if first[i] == "" {
						first[i] = r
					} else if r != first[i] {
						c.failf("call %s %s gives %s, not %s", calls[i].what, when, r, first[i])
					}
				}
			}
			var up []int
			for i := range calls {
				up = append(up, i)
			}
			flushPaths()
			check("", up)
			check("repeated", up)
			check("in another order", c.Perm(len(calls)))
			flushPaths()
			check("with an emptied cache, in another order", c.Perm(len(calls)))
		},
	}
}
