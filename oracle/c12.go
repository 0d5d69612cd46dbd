package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"

	"github.com/netascode/xmldot"
)

// parseRef parses a filter by its definition.
func parseRef(e string) (path, op, val string, ok bool) {
	if len(e) > 256 || strings.ContainsRune(e, 0) {
		return
	}
	e = strings.TrimSpace(e)
	if e == "" {
		return
	}
	if !strings.ContainsAny(e, "=!<>%") {
		return e, "", "", true
	}
	at := -1
	for i := 0; i+1 < len(e) && at < 0; i++ {
		switch e[i : i+2] {
		case "==", "!=", "<=", ">=", "!%":
			at, op = i, e[i:i+2]
		}
	}
	if at < 0 {
		at = strings.IndexAny(e, "<>%")
		if at < 0 {
			return
		}
		op = e[at : at+1]
	}
	left := e[:at]
	path, val = strings.TrimSpace(left), strings.TrimSpace(e[at+len(op):])
	if path == "" || val == "" || strings.ContainsAny(left, "\x00\n\r\t") || strings.ContainsAny(path, "=!<>%") {
		return
	}
	if n := len(val); n >= 2 && (val[0] == '\'' || val[0] == '"') && val[n-1] == val[0] {
		val = val[1 : n-1]
	}
	return path, op, val, !strings.ContainsAny(val, "\x00\n\r\t")
}

func finite(s string) (float64, bool) {
	f, err := strconv.ParseFloat(s, 64)
	if err != nil || math.IsInf(f, 0) || math.IsNaN(f) || strings.ContainsAny(s, "xXpP_") {
		return 0, false
	}
	return f, true
}

func passRef(op string, ex bool, a, v string) bool {
	switch op {
	case "":
		return ex
	case "==":
		return ex && a == v
	case "!=":
		return ex && a != v
	case "%", "!%":
		if !ex {
			return false
		}
		m := patRef([]rune(a), []rune(v))
		return m == (op == "%")
	}
	x, ok1 := finite(a)
	y, ok2 := finite(v)
	if !ex || !ok1 || !ok2 {
		return false
	}
	switch op {
	case "<":
		return x < y
	case ">":
		return x > y
	case "<=":
		return x <= y
	}
	return x >= y
}

var filterVals = []string{"5", "5.0", "05", "-5", "+5", "1e1", "10", "9", "1e", "1e999", "-1e999", ".5", "5.", ".", "-", "0x10", "Inf", "NaN", "abc", "ab", "a b", "a=b", "a'b", "'", "it's", "a*", "*", "5 ", "1-2", "1.2.3", "é", "1_0", "--5", "0", "-0", "1e-3", "e5", "a==b", "a%b", "1e5x", "infinity", "9007199254740993"}

func init() {
	props["C12"] = property{
		"documents with up to 8 candidates whose attributes and children hold numbers, near-numbers and texts, filtered by expressions with every operator, quoting and spacing; non-trivial: distinct (document, expression) pairs",
		func(c *ctx) {
			type cand struct {
				at, el *string
			}
			esc := strings.NewReplacer("&", "&amp;", "<", "&lt;", ">", "&gt;", "\"", "&quot;")
			var cs []cand
			var b strings.Builder
			b.WriteString("<r>")
			pool := filterVals
			if c.Intn(2) == 0 {
				pool = filterVals[:12]
			}
			if c.Intn(3) == 0 { // numerals and what is nearly one
				pool = nil
				for k := 0; k < 6; k++ {
					v := pick(c, []string{"", "", "-", "+"})
					for j := 1 + c.Intn(4); j > 0; j-- {
						v += pick(c, []string{"0", "1", "2", "9", "5", ".", "."})
					}
					if c.Intn(3) == 0 {
						v += pick(c, []string{"e", "E"}) + pick(c, []string{"", "-", "+"}) + pick(c, []string{"", "0", "1", "02"})
					}
					pool = append(pool, v)
				}
			}
			for k := 1 + c.Intn(8); k > 0; k-- {
				var x cand
				b.WriteString("<i")
				if c.Intn(3) == 0 {
					b.WriteString(" n=\"1\"")
				}
				if c.Intn(5) > 0 {
					v := pick(c, pool)
					x.at = &v
					b.WriteString(" k=\"" + esc.Replace(v) + "\"")
				}
				b.WriteString(">")
				if c.Intn(5) > 0 {
					v := strings.TrimSpace(pick(c, pool))
					if c.Intn(10) == 0 {
						v = ""
					}
					x.el = &v
					b.WriteString("<v>" + esc.Replace(v) + "</v>")
				}
				fmt.Fprintf(&b, "<w>%d</w></i>", len(cs))
				cs = append(cs, x)
			}
			b.WriteString("</r>")
			attr := c.Intn(2) == 0
			p := "v"
			if attr {
				p = "@k"
			}
			op := pick(c, []string{"==", "!=", "<", ">", "<=", ">=", "%", "!%", ""})
			e := p
			sp := func() string { return pick(c, []string{"", "", "", " ", "  "}) }
			if op != "" {
				v := pick(c, pool)
				switch c.Intn(6) {
				case 0, 1:
					v = "'" + v + "'"
				case 2:
					v = "\"" + v + "\""
				case 3:
					v = pick(c, []string{"'", "\"", "''", "'5", "5\"", "'5\"", "\"'5'\"", "", "\n", "'\t'", "=5", "=", "5>3", "<5", "%5"})
				}
				e = sp() + p + sp() + op + sp() + v + sp()
			} else {
				e = sp() + p + sp()
			}
			if c.Intn(12) == 0 {
				e = pick(c, []string{"=", "v=5", "v!5", "==5", "v==", "v<", "<5", "v =5", "v\t==5", "v\x00", "v!", " ", "v<=", "v%", "@k!5", "v" + strings.Repeat(" ", 248+c.Intn(5)) + "!=555"})
			}
			path, o, val, ok := parseRef(e)
			if ok && path != "v" && path != "@k" {
				return
			}
			q := strings.NewReplacer("\\", "\\\\", ".", "\\.").Replace(e)
			full := "r.i.#(" + q + ")#"
			c.try("doc=%q path=%q", b.String(), full)
			got := ""
			r := xmldot.Get(b.String(), full+".w")
			if r.IsArray() {
				for _, x := range r.Results {
					got += x.String() + ","
				}
			} else if r.Exists() {
				got = r.String() + ","
			}
			want := ""
			for i, x := range cs {
				f := x.el
				if path == "@k" {
					f = x.at
				}
				s := ""
				if f != nil {
					s = *f
				}
				if ok && passRef(o, f != nil, s, val) {
					want += fmt.Sprint(i, ",")
				}
			}
			if got != want {
				c.failf("the filter is path %q operator %q value %q (well-formed: %v); elements %s pass, not %s", path, o, val, ok, got, want)
			}
			first := ""
			if i := strings.IndexByte(want, ','); i >= 0 {
				first = want[:i]
			}
			if f := xmldot.Get(b.String(), "r.i.#("+q+").w"); f.String() != first {
				c.failf("the first match is %q, not %q", f.String(), first)
			}
		},
	}
}
