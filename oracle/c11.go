package main

import (
	"strings"

	"github.com/netascode/xmldot"
)

// patRef decides by the definition, on the pattern as written.
func patRef(s, p []rune) bool {
	memo := map[[2]int]int{}
	var m func(i, j int) bool
	m = func(i, j int) (r bool) {
		if v, ok := memo[[2]int{i, j}]; ok {
			return v == 1
		}
		defer func() {
			if r {
				memo[[2]int{i, j}] = 1
			} else {
				memo[[2]int{i, j}] = 0
			}
		}()
		switch {
		case j == len(p):
			return i == len(s)
		case p[j] == '\\' && j+1 < len(p):
			return i < len(s) && s[i] == p[j+1] && m(i+1, j+2)
		case p[j] == '*':
			return m(i, j+1) || i < len(s) && m(i+1, j)
		default:
			return i < len(s) && (p[j] == '?' || p[j] == s[i]) && m(i+1, j+1)
		}
	}
	return m(0, 0)
}

func symbols(p []rune) (n int) {
	for i := 0; i < len(p); i++ {
		if p[i] == '\\' && i+1 < len(p) {
			i++
		}
		n++
	}
	return
}

func init() {
	props["C11"] = property{
		"texts and patterns with stars, question marks, backslashes and multi-byte characters through the % and !% filters; non-trivial: distinct (text, pattern) pairs",
		func(c *ctx) {
			var t, p strings.Builder
			for k := 1 + c.Intn(12); k > 0; k-- {
				t.WriteString(pick(c, []string{"a", "b", "a", "*", "?", "\\", "é", "世"}))
			}
			for k := 1 + c.Intn(8); k > 0; k-- {
				p.WriteString(pick(c, []string{"a", "b", "*", "*", "?", "\\", "\\*", "\\?", "\\\\", "\\a", "é", "世"}))
			}
			ts, ps := t.String(), p.String()
			if c.Intn(4) == 0 { // near the work limit
				n := 1 + c.Intn(120)
				m := 10000 / n
				if m > 4000 {
					m = 4000
				}
				ts = strings.Repeat(pick(c, []string{"a", "é"}), m-1+c.Intn(3))
				ps = strings.Repeat("a", c.Intn(n)) + strings.Repeat(pick(c, []string{"*", "?", "a"}), n)
				if r := []rune(ps); len(r) > n {
					ps = string(r[len(r)-n:])
				}
				if c.Intn(3) == 0 && n > 1 {
					ps = ps[:n-1] + "\\" + pick(c, []string{"a", "*", "?"})
				}
			}
			if ts == "" {
				ts = "a"
			}
			if strings.HasSuffix(ps, "\\") && len(ps) > 200 {
				ps = ps[:len(ps)-1]
			}
			c.try("text=%q pattern=%q", ts, ps)
			c11(c, ts, ps)
		}}
}

func c11(c *ctx, ts, ps string) {
	if len(ps) > 200 {
		return
	}
	d := "<r><a><v>" + ts + "</v></a></r>"
	want := patRef([]rune(ts), []rune(ps))
	stop := strings.ContainsAny(ps, "*?\\") && len([]rune(ts))*symbols([]rune(ps)) > 10000
	ps = strings.ReplaceAll(ps, `\`, `\\`) // the path syntax has backslash escapes of its own
	yes := xmldot.Get(d, `r.a.#(v%"`+ps+`").v`).Exists()
	no := xmldot.Get(d, `r.a.#(v!%"`+ps+`").v`).Exists()
	if stop {
		if yes || no {
			c.failf("over the work limit, but %% selects: %v, !%% selects: %v", yes, no)
		}
		return
	}
	if yes != want || no == want {
		c.failf("derivable: %v, but %% selects: %v, !%% selects: %v", want, yes, no)
	}
}
