package main

import (
	"fmt"
	"os"
	"strconv"
	"strings"
)

// ---- expressions of the contract language ----

type Expr struct {
	Op   string // ident int str bool nil call sel index slice un bin cond forall exists old atloop let
	Name string
	Int  string
	Args []*Expr
	Vars []Param
	Trig [][]*Expr
	Pos  string
}

type Param struct{ Name, Type string }

func (e *Expr) String() string {
	switch e.Op {
	case "ident":
		return e.Name
	case "int":
		return e.Int
	case "str":
		return strconv.Quote(e.Name)
	case "bool", "nil":
		return e.Name
	case "call":
		var a []string
		for _, x := range e.Args {
			a = append(a, x.String())
		}
		return e.Name + "(" + strings.Join(a, ", ") + ")"
	case "sel":
		return e.Args[0].String() + "." + e.Name
	case "index":
		return e.Args[0].String() + "[" + e.Args[1].String() + "]"
	case "slice":
		lo, hi := "", ""
		if e.Args[1] != nil {
			lo = e.Args[1].String()
		}
		if e.Args[2] != nil {
			hi = e.Args[2].String()
		}
		return e.Args[0].String() + "[" + lo + ":" + hi + "]"
	case "un":
		return e.Name + e.Args[0].String()
	case "bin":
		return "(" + e.Args[0].String() + " " + e.Name + " " + e.Args[1].String() + ")"
	case "cond":
		return "(" + e.Args[0].String() + " ? " + e.Args[1].String() + " : " + e.Args[2].String() + ")"
	case "forall", "exists":
		var v []string
		for _, p := range e.Vars {
			v = append(v, p.Name+" "+p.Type)
		}
		return "(" + e.Op + " " + strings.Join(v, ", ") + " :: " + e.Args[0].String() + ")"
	case "let":
		return "(let " + e.Name + " := " + e.Args[0].String() + " in " + e.Args[1].String() + ")"
	}
	return e.Op
}

type lexer struct {
	toks []tok
	i    int
	src  string
	pos  string
}
type tok struct{ k, s string } // k: id int str chr op eof

func lex(s, pos string) *lexer {
	l := &lexer{src: s, pos: pos}
	i := 0
	ops := []string{"<==>", "==>", "::", ":=", "&&", "||", "==", "!=", "<=", ">=", "<", ">", "+", "-", "*", "/", "%", "!", "(", ")", "[", "]", "{", "}", ",", ".", ":", "?", "|", "@"}
	for i < len(s) {
		c := s[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n':
			i++
		case c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z':
			j := i
			for j < len(s) && (s[j] == '_' || s[j] == '$' || s[j] >= 'a' && s[j] <= 'z' || s[j] >= 'A' && s[j] <= 'Z' || s[j] >= '0' && s[j] <= '9') {
				j++
			}
			l.toks = append(l.toks, tok{"id", s[i:j]})
			i = j
		case c >= '0' && c <= '9':
			j := i
			for j < len(s) && s[j] >= '0' && s[j] <= '9' {
				j++
			}
			l.toks = append(l.toks, tok{"int", s[i:j]})
			i = j
		case c == '"':
			j := i + 1
			for j < len(s) && s[j] != '"' {
				if s[j] == '\\' {
					j++
				}
				j++
			}
			u, err := strconv.Unquote(s[i : j+1])
			if err != nil {
				panic(fmt.Sprintf("%s: bad string %s", pos, s[i:j+1]))
			}
			l.toks = append(l.toks, tok{"str", u})
			i = j + 1
		case c == '\'':
			j := i + 1
			for j < len(s) && s[j] != '\'' {
				if s[j] == '\\' {
					j++
				}
				j++
			}
			r, _, _, err := strconv.UnquoteChar(s[i+1:j], '\'')
			if err != nil {
				panic(fmt.Sprintf("%s: bad char %s", pos, s[i:j+1]))
			}
			l.toks = append(l.toks, tok{"int", strconv.Itoa(int(r))})
			i = j + 1
		default:
			found := false
			for _, o := range ops {
				if strings.HasPrefix(s[i:], o) {
					l.toks = append(l.toks, tok{"op", o})
					i += len(o)
					found = true
					break
				}
			}
			if !found {
				panic(fmt.Sprintf("%s: bad character %q in %q", pos, c, s))
			}
		}
	}
	l.toks = append(l.toks, tok{"eof", ""})
	return l
}

func (l *lexer) peek() tok { return l.toks[l.i] }
func (l *lexer) next() tok { t := l.toks[l.i]; l.i++; return t }
func (l *lexer) is(s string) bool {
	return l.peek().k == "op" && l.peek().s == s
}
func (l *lexer) isID(s string) bool {
	return l.peek().k == "id" && l.peek().s == s
}
func (l *lexer) want(s string) {
	t := l.next()
	if t.s != s || t.k == "str" {
		panic(fmt.Sprintf("%s: expected %q, got %q in %s", l.pos, s, t.s, l.src))
	}
}

var binPrec = map[string]int{"<==>": 1, "==>": 2, "||": 4, "&&": 5, "==": 6, "!=": 6, "<": 6, "<=": 6, ">": 6, ">=": 6, "+": 7, "-": 7, "*": 8, "/": 8, "%": 8}

func (l *lexer) expr() *Expr { return l.condExpr() }

func (l *lexer) condExpr() *Expr {
	c := l.binExpr(1)
	if l.is("?") {
		l.next()
		a := l.condExpr()
		l.want(":")
		b := l.condExpr()
		return &Expr{Op: "cond", Args: []*Expr{c, a, b}, Pos: l.pos}
	}
	return c
}

func (l *lexer) binExpr(min int) *Expr {
	left := l.unary()
	for {
		t := l.peek()
		p, ok := binPrec[t.s]
		if t.k != "op" || !ok || p < min {
			return left
		}
		l.next()
		var right *Expr
		if t.s == "==>" { // right associative
			right = l.binExpr(p)
		} else {
			right = l.binExpr(p + 1)
		}
		left = &Expr{Op: "bin", Name: t.s, Args: []*Expr{left, right}, Pos: l.pos}
	}
}

func (l *lexer) unary() *Expr {
	if l.is("!") || l.is("-") || l.is("*") {
		o := l.next().s
		return &Expr{Op: "un", Name: o, Args: []*Expr{l.unary()}, Pos: l.pos}
	}
	return l.postfix(l.primary())
}

func (l *lexer) typeName() string {
	s := ""
	for {
		t := l.peek()
		if t.k == "op" && (t.s == "*" || t.s == "[" || t.s == "]" || t.s == ".") {
			l.next()
			s += t.s
			continue
		}
		if t.k == "id" {
			l.next()
			s += t.s
			if l.is(".") || l.is("[") {
				continue
			}
			if strings.HasSuffix(s, "map") {
				continue
			}
			if l.is("]") && strings.Count(s, "[") > strings.Count(s, "]") {
				continue
			}
			if strings.HasPrefix(s, "map[") && strings.HasSuffix(s, "]") {
				continue
			}
			return s
		}
		return s
	}
}

func (l *lexer) params(end string) []Param {
	var ps []Param
	for !l.is(end) && l.peek().k != "eof" {
		n := l.next()
		if n.k != "id" {
			panic(fmt.Sprintf("%s: expected parameter name, got %q in %s", l.pos, n.s, l.src))
		}
		ps = append(ps, Param{n.s, l.typeName()})
		if l.is(",") {
			l.next()
		}
	}
	// "a, b int" style: propagate types leftwards
	for i := len(ps) - 2; i >= 0; i-- {
		if ps[i].Type == "" {
			ps[i].Type = ps[i+1].Type
		}
	}
	return ps
}

func (l *lexer) primary() *Expr {
	t := l.next()
	switch t.k {
	case "int":
		return &Expr{Op: "int", Int: t.s, Pos: l.pos}
	case "str":
		return &Expr{Op: "str", Name: t.s, Pos: l.pos}
	case "op":
		if t.s == "(" {
			e := l.expr()
			l.want(")")
			return e
		}
		if t.s == "@" { // @name: program variable with a reserved name
			return &Expr{Op: "ident", Name: l.next().s, Pos: l.pos}
		}
	case "id":
		switch t.s {
		case "true", "false":
			return &Expr{Op: "bool", Name: t.s, Pos: l.pos}
		case "nil":
			return &Expr{Op: "nil", Name: "nil", Pos: l.pos}
		case "forall", "exists":
			e := &Expr{Op: t.s, Pos: l.pos}
			e.Vars = l.params("::")
			l.want("::")
			for l.is("{") {
				l.next()
				var tr []*Expr
				for !l.is("}") {
					tr = append(tr, l.expr())
					if l.is(",") {
						l.next()
					}
				}
				l.want("}")
				e.Trig = append(e.Trig, tr)
			}
			e.Args = []*Expr{l.expr()}
			return e
		case "let":
			n := l.next().s
			l.want(":=")
			v := l.binExpr(1)
			l.want("in")
			return &Expr{Op: "let", Name: n, Args: []*Expr{v, l.expr()}, Pos: l.pos}
		}
		if l.is("(") {
			l.next()
			e := &Expr{Op: "call", Name: t.s, Pos: l.pos}
			if t.s == "old" || t.s == "atloop" {
				e.Op = t.s
			}
			for !l.is(")") {
				e.Args = append(e.Args, l.expr())
				if l.is(",") {
					l.next()
				}
			}
			l.want(")")
			return e
		}
		return &Expr{Op: "ident", Name: t.s, Pos: l.pos}
	}
	panic(fmt.Sprintf("%s: unexpected %q in %s", l.pos, t.s, l.src))
}

func (l *lexer) postfix(e *Expr) *Expr {
	for {
		switch {
		case l.is("."):
			l.next()
			n := l.next()
			e = &Expr{Op: "sel", Name: n.s, Args: []*Expr{e}, Pos: l.pos}
		case l.is("["):
			l.next()
			var lo, hi *Expr
			if l.is(":") {
				l.next()
				if !l.is("]") {
					hi = l.expr()
				}
				l.want("]")
				e = &Expr{Op: "slice", Args: []*Expr{e, nil, hi}, Pos: l.pos}
				continue
			}
			lo = l.binExpr(1)
			if l.is(":") {
				l.next()
				if !l.is("]") {
					hi = l.expr()
				}
				l.want("]")
				e = &Expr{Op: "slice", Args: []*Expr{e, lo, hi}, Pos: l.pos}
				continue
			}
			l.want("]")
			e = &Expr{Op: "index", Args: []*Expr{e, lo}, Pos: l.pos}
		default:
			return e
		}
	}
}

func parseExpr(s, pos string) *Expr {
	l := lex(s, pos)
	e := l.expr()
	if l.peek().k != "eof" {
		panic(fmt.Sprintf("%s: trailing %q in %s", pos, l.peek().s, s))
	}
	return e
}

// ---- contracts ----

type Clause struct {
	Bind [][2]string // invariant for x T, ...
	Tags []string
	E    *Expr
	Text string
	Pos  string
	Name string // optional label

	NoIter bool // invariant noiter ...: only for loops without an iteration count
	Folded bool // invariant folded ...: definitions are not unfolded where it is assumed
}

type Contract struct {
	Func      string
	Extern    bool
	Params    []Param // extern only: names for parameters
	Requires  []Clause
	Ensures   []Clause
	Modifies  []Clause
	Invs      []Clause
	Decreases []Clause // recursion measure: lexicographic list in one clause per tag
	Variants  []Clause // loop variants
	Ghosts    []Param
	GhostArgs map[string]map[string]*Expr // callee -> ghost -> expr
	Trusted   string                      // reason, if the body is not verified
	Pure      bool
	Uses      []Clause // lemma instances assumed at loop heads / exits
	Inline    bool
	NoTerm    string
	LoopTerm  string
	Lock      string
	Invoke    bool
	File      string
	Unroll    int
	Rank      int
}

type SpecFunc struct {
	Name   string
	Params []Param
	Ret    string
	Body   *Expr // nil: uninterpreted
	Rec    bool
	Macro  bool
	Tags   []string
	Pos    string
	Trig   [][]*Expr
}

type Axiom struct {
	Name    string
	Vars    []Param
	Trig    [][]*Expr
	E       *Expr
	Tags    []string
	Pos     string
	Trusted string
	Lemma   bool
	Induct  *Expr // measure for lemmas proved by induction
	Req     *Expr
	Uses    []string
	Hints   []*Expr
	NoIH    bool
	Cases   []*Expr
	Manual  bool
	Auto    bool // tried, and dropped when not provable
	Dead    bool
}

type SpecFile struct {
	Funcs     map[string]*SpecFunc
	Order     []string
	Axioms    []*Axiom
	Contracts map[string]*Contract
	TypeInvs  []TypeInv
	Guards    map[string]string // global -> mutex
	MonInvs   map[string][]Clause
	SMT       []string
	Props     map[string]*PropCfg
	Consts    map[string]bool // globals never written after init
	Ghosts    []Param
	ScanSpecs []string // functions the extracted replacer tables are compared with
	ScanTags  []string
	Assume    map[string][]string // unchecked assumptions to declare, by property
}

type PropCfg struct {
	ID    string
	Uses  []string // further tags whose clauses are assumed and proved
	Funcs []string // further functions to verify
	Kinds []string // automatic obligation kinds that belong to the property

	Bounded []string // parts out of the verifier's reach, exercised by the executable oracle
}

type TypeInv struct {
	Type, Var string
	E         *Expr
	Variant   bool
	Pos       string
	Tags      []string
}

func newSpec() *SpecFile {
	return &SpecFile{Funcs: map[string]*SpecFunc{}, Contracts: map[string]*Contract{}, Guards: map[string]string{}, MonInvs: map[string][]Clause{}, Props: map[string]*PropCfg{}, Consts: map[string]bool{}, Assume: map[string][]string{}}
}

var clauseKw = map[string]bool{"requires": true, "ensures": true, "modifies": true, "invariant": true, "decreases": true, "variant": true, "ghost": true, "ghostarg": true, "trusted": true, "pure": true, "use": true, "inline": true, "noterm": true, "loopterm": true, "rank": true}
var topKw = map[string]bool{"contract": true, "extern": true, "spec": true, "rec": true, "macro": true, "axiom": true, "lemma": true, "typeinv": true, "typevariant": true, "guard": true, "moninv": true, "smt": true, "prop": true, "const": true, "uninterp": true, "assume": true, "bounded": true, "scanspec": true}

func splitTags(s string) ([]string, string) {
	s = strings.TrimSpace(s)
	if strings.HasPrefix(s, "[") {
		i := strings.Index(s, "]")
		var tags []string
		ok := true
		for _, t := range strings.FieldsFunc(s[1:i], func(r rune) bool { return r == ',' || r == ' ' }) {
			tags = append(tags, t)
			if !(t[0] >= 'A' && t[0] <= 'Z') {
				ok = false
			}
		}
		if ok {
			return tags, strings.TrimSpace(s[i+1:])
		}
	}
	return nil, s
}

func (sf *SpecFile) load(file string) {
	b, err := os.ReadFile(file)
	if err != nil {
		panic(err)
	}
	sf.loadText(file, string(b))
}

func (sf *SpecFile) loadText(file, text string) {
	type line struct {
		s string
		n int
	}
	var lines []line
	for i, raw := range strings.Split(text, "\n") {
		s := raw
		if j := strings.Index(s, "//"); j >= 0 && !strings.Contains(s[:j], "\"") {
			s = s[:j]
		}
		s = strings.TrimRight(s, " \t")
		if strings.TrimSpace(s) == "" {
			continue
		}
		first := strings.Fields(s)[0]
		indented := s[0] == ' ' || s[0] == '\t'
		if !indented && topKw[first] || indented && clauseKw[first] {
			lines = append(lines, line{strings.TrimSpace(s), i + 1})
		} else if len(lines) > 0 {
			lines[len(lines)-1].s += " " + strings.TrimSpace(s)
		} else {
			panic(fmt.Sprintf("%s:%d: stray line %q", file, i+1, s))
		}
	}
	var cur *Contract
	for _, ln := range lines {
		pos := fmt.Sprintf("%s:%d", file[strings.LastIndex(file, "/")+1:], ln.n)
		i := strings.IndexAny(ln.s, " \t")
		kw, rest := ln.s, ""
		if i >= 0 {
			kw, rest = ln.s[:i], strings.TrimSpace(ln.s[i:])
		}
		if topKw[kw] {
			cur = nil
		}
		switch kw {
		case "contract", "extern":
			c := &Contract{Func: rest, Extern: kw == "extern", GhostArgs: map[string]map[string]*Expr{}, File: pos}
			if prev := sf.Contracts[rest]; prev != nil {
				c = prev
			}
			sf.Contracts[rest] = c
			cur = c
		case "spec", "rec", "macro", "uninterp":
			tags, r := splitTags(rest)
			l := lex(r, pos)
			f := &SpecFunc{Name: l.next().s, Rec: kw == "rec", Macro: kw == "macro", Tags: tags, Pos: pos}
			l.want("(")
			f.Params = l.params(")")
			l.want(")")
			f.Ret = l.typeName()
			if kw != "uninterp" {
				l.want("==")
				f.Body = l.expr()
				if l.peek().k != "eof" {
					panic(pos + ": trailing tokens in definition of " + f.Name + ": " + l.peek().s)
				}
			}
			if sf.Funcs[f.Name] != nil {
				panic(pos + ": duplicate spec function " + f.Name)
			}
			sf.Funcs[f.Name] = f
			sf.Order = append(sf.Order, f.Name)
		case "axiom", "lemma":
			tags, r := splitTags(rest)
			a := &Axiom{Tags: tags, Pos: pos, Lemma: kw == "lemma"}
			l := lex(r, pos)
			a.Name = l.next().s
			l.want("(")
			a.Vars = l.params(")")
			l.want(")")
			for l.is("{") {
				l.next()
				var tr []*Expr
				for !l.is("}") {
					tr = append(tr, l.expr())
					if l.is(",") {
						l.next()
					}
				}
				l.want("}")
				a.Trig = append(a.Trig, tr)
			}
			for {
				if l.isID("induct") {
					l.next()
					l.want("(")
					a.Induct = l.expr()
					l.want(")")
				} else if l.isID("manual") {
					l.next()
					a.Manual = true
				} else if l.isID("uses") {
					l.next()
					l.want("(")
					for !l.is(")") {
						a.Uses = append(a.Uses, l.next().s)
						if l.is(",") {
							l.next()
						}
					}
					l.want(")")
				} else if l.isID("hint") {
					l.next()
					l.want("(")
					a.Hints = append(a.Hints, l.expr())
					l.want(")")
				} else if l.isID("case") {
					l.next()
					l.want("(")
					a.Cases = append(a.Cases, l.expr())
					l.want(")")
				} else {
					break
				}
			}
			l.want(":")
			a.E = l.expr()
			if l.peek().k != "eof" {
				panic(pos + ": trailing tokens in " + a.Name + ": " + l.peek().s)
			}
			sf.Axioms = append(sf.Axioms, a)
		case "typeinv", "typevariant":
			tags, r := splitTags(rest)
			l := lex(r, pos)
			v := l.next().s
			t := l.typeName()
			l.want(":")
			sf.TypeInvs = append(sf.TypeInvs, TypeInv{Type: t, Var: v, E: l.expr(), Variant: kw == "typevariant", Pos: pos, Tags: tags})
		case "guard":
			f := strings.Fields(rest)
			sf.Guards[f[0]] = f[1]
		case "const":
			sf.Consts[rest] = true
		case "moninv":
			f := strings.Fields(rest)
			r := strings.TrimSpace(strings.TrimPrefix(rest, f[0]))
			tags, r := splitTags(r)
			sf.MonInvs[f[0]] = append(sf.MonInvs[f[0]], Clause{Tags: tags, E: parseExpr(r, pos), Text: r, Pos: pos})
		case "scanspec":
			tags, r := splitTags(rest)
			for _, f := range strings.Fields(r) {
				sf.ScanSpecs = append(sf.ScanSpecs, f)
			}
			sf.ScanTags = tags
		case "smt":
			sf.SMT = append(sf.SMT, rest)
		case "assume":
			f := strings.SplitN(rest, " ", 2)
			sf.Assume[f[0]] = append(sf.Assume[f[0]], strings.TrimSpace(f[1]))
		case "bounded":
			f := strings.SplitN(rest, " ", 2)
			sf.Props[f[0]].Bounded = append(sf.Props[f[0]].Bounded, strings.TrimSpace(f[1]))
		case "prop":
			f := strings.Fields(rest)
			pc := sf.Props[f[0]]
			if pc == nil {
				pc = &PropCfg{ID: f[0]}
				sf.Props[f[0]] = pc
			}
			for _, x := range f[1:] {
				switch {
				case strings.HasPrefix(x, "uses="):
					pc.Uses = append(pc.Uses, strings.Split(x[5:], ",")...)
				case strings.HasPrefix(x, "kinds="):
					pc.Kinds = append(pc.Kinds, strings.Split(x[6:], ",")...)
				case strings.HasPrefix(x, "funcs="):
					pc.Funcs = append(pc.Funcs, strings.Split(x[6:], ";")...)
				}
			}
		default:
			if cur == nil {
				panic(pos + ": clause outside contract: " + ln.s)
			}
			tags, r := splitTags(rest)
			cl := Clause{Tags: tags, Text: r, Pos: pos}
			if kw == "invariant" && strings.HasPrefix(r, "folded ") {
				r, cl.Folded = strings.TrimSpace(r[7:]), true
			}
			if kw == "invariant" && strings.HasPrefix(r, "noiter ") {
				r, cl.NoIter = strings.TrimSpace(r[7:]), true
			}
			if kw == "invariant" && strings.HasPrefix(r, "for ") {
				// invariant for x T, y U :: expr - tried for all variables of these types
				i := strings.Index(r, "::")
				for _, part := range splitTop(r[4:i]) {
					f := strings.SplitN(strings.TrimSpace(part), " ", 2)
					cl.Bind = append(cl.Bind, [2]string{f[0], strings.TrimSpace(f[1])})
				}
				r = strings.TrimSpace(r[i+2:])
			}
			switch kw {
			case "requires", "ensures", "invariant", "variant", "use":
				cl.E = parseExpr(r, pos)
			case "modifies":
				for _, part := range splitTop(r) {
					cur.Modifies = append(cur.Modifies, Clause{Tags: tags, E: parseExpr(part, pos), Text: part, Pos: pos})
				}
			case "decreases":
				cl.E = &Expr{Op: "tuple"}
				for _, part := range splitTop(r) {
					cl.E.Args = append(cl.E.Args, parseExpr(part, pos))
				}
				cur.Decreases = append(cur.Decreases, cl)
			case "ghost":
				l := lex(r, pos)
				cur.Ghosts = append(cur.Ghosts, l.params("#")...)
			case "ghostarg":
				// ghostarg callee name := expr
				f := strings.Fields(r)
				k := strings.Index(r, ":=")
				if cur.GhostArgs[f[0]] == nil {
					cur.GhostArgs[f[0]] = map[string]*Expr{}
				}
				cur.GhostArgs[f[0]][f[1]] = parseExpr(r[k+2:], pos)
			case "trusted":
				cur.Trusted = r
			case "loopterm":
				cur.LoopTerm = r
			case "noterm":
				cur.NoTerm = r
			case "pure":
				cur.Pure = true
			case "inline":
				cur.Inline = true
			case "rank":
				cur.Rank, _ = strconv.Atoi(r)
			}
			switch kw {
			case "requires":
				cur.Requires = append(cur.Requires, cl)
			case "ensures":
				cur.Ensures = append(cur.Ensures, cl)
			case "invariant":
				cur.Invs = append(cur.Invs, cl)
			case "variant":
				cur.Variants = append(cur.Variants, cl)
			case "use":
				cur.Uses = append(cur.Uses, cl)
			}
		}
	}
}

func splitTop(s string) []string {
	var out []string
	d, st := 0, 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
		case ',':
			if d == 0 {
				out = append(out, strings.TrimSpace(s[st:i]))
				st = i + 1
			}
		}
	}
	return append(out, strings.TrimSpace(s[st:]))
}
