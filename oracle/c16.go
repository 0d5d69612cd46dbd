package main

import (
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/netascode/xmldot"
)

var builtinMods = []string{"reverse", "sort", "first", "last", "flatten", "pretty", "ugly"}

func dup(r xmldot.Result) xmldot.Result {
	l := r.Results
	r.Results = nil
	if l != nil {
		r.Results = []xmldot.Result{}
	}
	for _, x := range l {
		r.Results = append(r.Results, dup(x))
	}
	return r
}

func numRef(r xmldot.Result) (float64, bool) {
	switch r.Type {
	case xmldot.Number:
		return r.Num, true
	case xmldot.String, xmldot.Element, xmldot.Attribute:
		f, err := strconv.ParseFloat(r.Str, 64)
		return f, err == nil
	}
	return 0, false
}

// modRef checks one built-in modifier's result against its definition.
func modRef(name string, r, got xmldot.Result) string {
	same := func(want xmldot.Result) string {
		if !reflect.DeepEqual(got, want) {
			return fmt.Sprintf("gives %#v, not %#v", got, want)
		}
		return ""
	}
	list := func(want []xmldot.Result) string {
		if got.Type != xmldot.Array || len(got.Results) != len(want) || len(want) > 0 && !reflect.DeepEqual(got.Results, want) {
			return fmt.Sprintf("gives %#v, not the items %#v", got, want)
		}
		return ""
	}
	n := len(r.Results)
	switch name {
	case "pretty", "ugly":
		got.Raw = r.Raw
		return same(r)
	}
	if r.Type != xmldot.Array {
		return same(r)
	}
	switch name {
	case "reverse":
		if n == 0 {
			return same(r)
		}
		var l []xmldot.Result
		for i := n - 1; i >= 0; i-- {
			l = append(l, r.Results[i])
		}
		return list(l)
	case "first", "last":
		if n == 0 {
			return same(r)
		}
		if name == "first" {
			return same(r.Results[0])
		}
		return same(r.Results[n-1])
	case "flatten":
		var l []xmldot.Result
		for _, x := range r.Results {
			if x.Type == xmldot.Array {
				l = append(l, x.Results...)
			} else {
				l = append(l, x)
			}
		}
		if len(l) == 0 {
			return same(xmldot.Result{})
		}
		return list(l)
	case "sort":
		if n <= 1 {
			return same(r)
		}
		if got.Type != xmldot.Array || len(got.Results) != n {
			return fmt.Sprintf("gives %#v for %d items", got, n)
		}
		key := func(l []xmldot.Result) (ks []string) {
			for _, x := range l {
				ks = append(ks, fmt.Sprintf("%#v", x))
			}
			sort.Strings(ks)
			return
		}
		if !reflect.DeepEqual(key(got.Results), key(r.Results)) {
			return fmt.Sprintf("gives %#v, not the same items", got)
		}
		numeric := true
		for _, x := range r.Results {
			f, ok := numRef(x)
			if f != f {
				return "" // not a number has no place in the order
			}
			numeric = numeric && ok
		}
		for i := 1; i < n; i++ {
			a, b := got.Results[i-1], got.Results[i]
			fa, _ := numRef(a)
			fb, _ := numRef(b)
			if numeric && fb < fa || !numeric && stringRef(b) < stringRef(a) {
				return fmt.Sprintf("gives %#v: item %d is out of order", got, i)
			}
		}
	}
	return ""
}

func init() {
	props["C16"] = property{
		"results of every kind, nested up to three deep, through every built-in modifier; chains of one to four known and unknown modifiers on paths into generated documents; registration histories of up to eight steps; non-trivial: distinct cases",
		func(c *ctx) {
			switch c.Intn(4) {
			case 0, 1:
				r := c.anyResult(3)
				if c.Intn(2) == 0 { // a list of items of one kind
					r = xmldot.Result{Type: xmldot.Array}
					kind := c.Intn(3)
					for k := c.Intn(16); k > 0; k-- {
						x := xmldot.Result{Type: pick(c, []xmldot.Type{xmldot.String, xmldot.Element, xmldot.Attribute, xmldot.Number})}
						switch {
						case x.Type == xmldot.Number:
							x.Num = float64(c.Intn(50)-20) / 2
							x.Str = pick(c, []string{"", "x", fmt.Sprint(x.Num)})
						case kind == 0:
							x.Str = strings.Repeat(" ", c.Intn(20)/19) + pick(c, []string{"", "0", "00", "+", "-", "1e", ".", "0x"}) + strconv.Itoa(c.Intn(200))
						case kind == 1:
							x.Str = strconv.Itoa(c.Intn(2000)-500) + pick(c, []string{"", ".5", ".0", "e1"})
						default:
							x.Str = pick(c, []string{"a", "B", "b", "", "aa", "é", "Z", "10", "9"})
						}
						x.Index = k
						x.Raw = "<v>" + x.Str + "</v>"
						r.Results = append(r.Results, x)
					}
				}
				if c.Intn(3) == 0 {
					r.Raw = pick(c, []string{"<a> <b>x</b> </a>", "<a><b/></a>", "<a", "<a b='1'>\n <c/></a>", "plain", "<x:a xmlns:x='u'><x:b/></x:a>"})
					r.Index = c.Intn(3)
				}
				name := pick(c, builtinMods)
				c.try("@%s of %#v", name, r)
				m := xmldot.GetModifier(name)
				if m == nil {
					c.failf("no built-in modifier %s", name)
				}
				in, all := dup(r), copyResult(r)
				got := m.Apply(r)
				if !reflect.DeepEqual(all, copyResult(r)) {
					c.failf("the input became %#v", r)
				}
				if e := modRef(name, in, got); e != "" {
					c.failf("%s", e)
				}
			case 2:
				d := c.doc()
				n := pick(c, d.all())
				path, ok := pathTo(c, d, n)
				if !ok {
					return
				}
				// modifiers of an index or count on a document's roots and after ** are skipped: a known finding
				if f := strings.Split(path, "."); len(f) > 1 && (f[1] == "#" || f[1] >= "0" && f[1] < ":") {
					return
				}
				path += pick(c, []string{"", "", ".*", ".%", ".*.%", ".@id"})
				var names []string
				chain := ""
				for k := 1 + c.Intn(4); k > 0; k-- {
					m := pick(c, append([]string{"nosuch", "Reverse", "firsts"}, append(builtinMods, builtinMods...)...))
					names = append(names, m)
					chain += pick(c, []string{"|@", "|@", "| @"}) + m
				}
				c.try("Get(%q, %q) with %s", d.text, path, chain)
				want := xmldot.Get(d.text, path)
				for _, m := range names {
					mod := xmldot.GetModifier(m)
					if mod == nil {
						want = xmldot.Result{}
						break
					}
					want = mod.Apply(want)
				}
				got := xmldot.Get(d.text, path+chain)
				if !got.Exists() && !want.Exists() {
					return
				}
				if !reflect.DeepEqual(got, want) {
					c.failf("gives %#v, not %#v", got, want)
				}
			case 3:
				// names unique to this round: the registry is shared by all rounds
				have := map[string]bool{}
				for _, b := range builtinMods {
					have[b] = true
				}
				own := []string{fmt.Sprintf("v%da", c.i), fmt.Sprintf("v%db", c.i), fmt.Sprintf("v%d", c.i)}
				var log []string
				for k := 1 + c.Intn(8); k > 0; k-- {
					n := pick(c, append(append([]string{}, own...), builtinMods...))
					if c.Intn(2) == 0 {
						log = append(log, "register "+n)
						c.try("%s", strings.Join(log, ", "))
						err := xmldot.RegisterModifier(n, xmldot.NewModifierFunc(n, func(xmldot.Result) xmldot.Result {
							return xmldot.Result{Type: xmldot.String, Str: "custom"}
						}))
						if (err == nil) != !have[n] {
							c.failf("registering %s: %v", n, err)
						}
						have[n] = true
					} else {
						log = append(log, "unregister "+n)
						c.try("%s", strings.Join(log, ", "))
						b := !strings.HasPrefix(n, "v")
						if err := xmldot.UnregisterModifier(n); b != (err != nil) {
							c.failf("unregistering %s: %v", n, err)
						}
						have[n] = b
					}
					for _, x := range append(append([]string{}, own...), builtinMods...) {
						m := xmldot.GetModifier(x)
						if (m != nil) != have[x] {
							c.failf("GetModifier(%s) gives %v", x, m)
						}
						if m != nil {
							r := m.Apply(xmldot.Result{Type: xmldot.Number, Num: 1})
							if (r.Str == "custom") != strings.HasPrefix(x, "v") {
								c.failf("modifier %s gives %#v", x, r)
							}
						}
					}
				}
				for _, n := range own {
					_ = xmldot.UnregisterModifier(n)
				}
			}
		},
	}
}
