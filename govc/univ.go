package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

// Universe: sorts, datatypes, sequence theories and spec functions used by one verification.

type SeqT struct{ Elem types.Type }

func (t *SeqT) Underlying() types.Type { return t }
func (t *SeqT) String() string         { return "Seq[" + t.Elem.String() + "]" }

type SetT struct{ Elem types.Type }

func (t *SetT) Underlying() types.Type { return t }
func (t *SetT) String() string         { return "Set[" + t.Elem.String() + "]" }

type ArrT struct{ Elem types.Type } // mathematical array Int -> Elem

func (t *ArrT) Underlying() types.Type { return t }
func (t *ArrT) String() string         { return "Arr[" + t.Elem.String() + "]" }

type UnT struct{ Name string } // uninterpreted sort

func (t *UnT) Underlying() types.Type { return t }
func (t *UnT) String() string         { return t.Name }

var (
	tInt    = types.Typ[types.Int]
	tBool   = types.Typ[types.Bool]
	tStr    = types.Typ[types.String]
	tByte   = types.Typ[types.Uint8]
	tErr    = types.Universe.Lookup("error").Type()
	tAny    = types.NewInterfaceType(nil, nil)
	tF64    = types.Typ[types.Float64]
	tByteSl = types.NewSlice(types.Typ[types.Uint8])
)

type Univ struct {
	P        *Program
	S        *SpecFile
	tags     map[string]bool
	structs  []string // declaration order
	structTx map[string]string
	seqs     []string // element sorts of declared Seq theories
	seqSet   map[string]bool
	views    map[string]bool
	lits     map[string]string
	litOrder []string
	boxes    map[string]string // type key -> tag id
	boxOrder []types.Type
	unsorts  map[string]bool
	used     map[string]bool // spec functions in use
	misc     []string        // further declarations
	miscSet  map[string]bool
	hide     map[string]bool
	only     map[string]bool // lemma proofs: which lemmas may be assumed
	upto     int
	nq       int
	onlyLem  bool
}

func newUniv(P *Program, S *SpecFile, tags map[string]bool) *Univ {
	return &Univ{P: P, S: S, tags: tags, structTx: map[string]string{}, seqSet: map[string]bool{}, views: map[string]bool{}, lits: map[string]string{}, boxes: map[string]string{}, unsorts: map[string]bool{}, used: map[string]bool{}, miscSet: map[string]bool{}, upto: 1 << 30}
}

func (u *Univ) decl(s string) {
	if !u.miscSet[s] {
		u.miscSet[s] = true
		u.misc = append(u.misc, s)
	}
}

func sanitize(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '.' || c == '$':
			b.WriteByte(c)
		case c == '*':
			b.WriteString("p!")
		case c == '[':
			b.WriteString("s!")
		case c == ']':
		default:
			b.WriteByte('_')
		}
	}
	return b.String()
}

// two spellings of one type name one component
var tkeyNorm = strings.NewReplacer("interface__", "any", "uint8", "byte", "int32", "rune")

func tkey(t types.Type) string {
	return tkeyNorm.Replace(tkey0(t))
}

func tkey0(t types.Type) string {
	return sanitize(types.TypeString(t, func(p *types.Package) string {
		if p.Path() == modPath {
			return ""
		}
		return p.Name()
	}))
}

type unsupported struct{ msg string }

func unsup(f string, a ...any) { panic(unsupported{fmt.Sprintf(f, a...)}) }

func (u *Univ) sortOf(t types.Type) string {
	switch t := t.(type) {
	case *SeqT:
		return u.seq(t.Elem)
	case *SetT:
		return "(Array " + u.sortOf(t.Elem) + " Bool)"
	case *ArrT:
		return "(Array Int " + u.sortOf(t.Elem) + ")"
	case *UnT:
		if !u.unsorts[t.Name] {
			u.unsorts[t.Name] = true
		}
		return t.Name
	}
	switch x := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case x.Info()&types.IsInteger != 0:
			return "Int"
		case x.Info()&types.IsBoolean != 0:
			return "Bool"
		case x.Info()&types.IsString != 0:
			return "Str"
		case x.Info()&types.IsFloat != 0:
			return "Flt"
		case x.Kind() == types.UnsafePointer:
			return "Int"
		case x.Kind() == types.UntypedNil:
			return "Int"
		}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return "Int"
	case *types.Slice:
		return "Slice"
	case *types.Interface:
		return "Iface"
	case *types.Struct:
		return u.structSort(t)
	case *types.Array:
		return "(Array Int " + u.sortOf(x.Elem()) + ")"
	}
	unsup("type %s", t)
	return ""
}

func (u *Univ) structSort(t types.Type) string {
	name := "T_" + tkey(t)
	if _, ok := u.structTx[name]; ok {
		return name
	}
	st := t.Underlying().(*types.Struct)
	u.structTx[name] = ""
	var fs []string
	for i := 0; i < st.NumFields() && !opaqueStruct(t); i++ {
		fs = append(fs, fmt.Sprintf("(%s %s)", fieldSel(t, i), u.sortOf(st.Field(i).Type())))
	}
	u.structTx[name] = fmt.Sprintf("(declare-datatypes ((%s 0)) (((mk_%s %s))))", name, name, strings.Join(fs, " "))
	if len(fs) == 0 {
		u.structTx[name] = fmt.Sprintf("(declare-datatypes ((%s 0)) (((mk_%s))))", name, name)
	}
	u.structs = append(u.structs, name)
	return name
}

func fieldSel(t types.Type, i int) string {
	st := t.Underlying().(*types.Struct)
	return fmt.Sprintf("T_%s.%s", tkey(t), st.Field(i).Name())
}

func (u *Univ) mkStruct(t types.Type, fields []string) string {
	s := u.structSort(t)
	if len(fields) == 0 {
		return "mk_" + s
	}
	return "(mk_" + s + " " + strings.Join(fields, " ") + ")"
}

// seq declares the sequence theory for an element type and returns its sort.
func (u *Univ) seq(elem types.Type) string {
	if b, ok := elem.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
		return "Str"
	}
	s := u.sortOf(elem)
	k := sanitize(strings.Trim(s, "()"))
	if !u.seqSet[k] {
		u.seqSet[k] = true
		u.seqs = append(u.seqs, k+"\x00"+s)
	}
	return "Seq_" + k
}

// seqPfx is the prefix of the operations on the sequences of elem.
func (u *Univ) seqPfx(elem types.Type) string {
	q := u.seq(elem)
	if q == "Str" {
		return "s"
	}
	return q + "."
}

func (u *Univ) zero(t types.Type) string {
	switch t := t.(type) {
	case *SeqT:
		p := u.seqPfx(t.Elem)
		return p + "empty"
	case *SetT:
		return "((as const " + u.sortOf(t) + ") false)"
	}
	switch x := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case x.Info()&types.IsInteger != 0:
			return "0"
		case x.Info()&types.IsBoolean != 0:
			return "false"
		case x.Info()&types.IsString != 0:
			return "sempty"
		case x.Info()&types.IsFloat != 0:
			return "fzero"
		}
		return "0"
	case *types.Slice:
		return "nilslice"
	case *types.Interface:
		return "nilI"
	case *types.Struct:
		var fs []string
		for i := 0; i < x.NumFields() && !opaqueStruct(t); i++ {
			fs = append(fs, u.zero(x.Field(i).Type()))
		}
		return u.mkStruct(t, fs)
	case *types.Array:
		return "((as const " + u.sortOf(t) + ") " + u.zero(x.Elem()) + ")"
	}
	return "0"
}

func (u *Univ) lit(s string) string {
	if s == "" {
		return "sempty"
	}
	if n, ok := u.lits[s]; ok {
		return n
	}
	n := fmt.Sprintf("lit%d", len(u.lits))
	u.lits[s] = n
	u.litOrder = append(u.litOrder, s)
	return n
}

// box returns the names of the boxing function, the unboxing function and the tag for a dynamic type.
func (u *Univ) box(t types.Type) (box, unbox, tag string) {
	k := tkey(t)
	if _, ok := u.boxes[k]; !ok {
		u.sortOf(t)
		u.boxes[k] = fmt.Sprint(len(u.boxes) + 1)
		u.boxOrder = append(u.boxOrder, t)
	}
	return "box_" + k, "unbox_" + k, u.boxes[k]
}

const strPrelude = `(declare-sort Str 0)
(declare-sort Flt 0)
(declare-sort Iface 0)
(declare-datatypes ((Slice 0)) (((mkslice (sref Int) (soff Int) (slen_ Int) (scap Int)))))
(define-fun nilslice () Slice (mkslice 0 0 0 0))
(declare-const fzero Flt)
(declare-const nilI Iface)
(declare-fun itag (Iface) Int)
(assert (= (itag nilI) 0))
(assert (forall ((x Iface)) (! (=> (= (itag x) 0) (= x nilI)) :pattern ((itag x)))))
`

// seqTheory gives the axioms of finite sequences over an element sort.
func seqTheory(q, p, e string) string {
	r := strings.NewReplacer("Q!", q, "P!", p, "E!", e)
	bool2 := ""
	if e == "Bool" { // solvers are weak on congruence over truth values
		bool2 = r.Replace("(assert (forall ((c Bool)) (! (= (P!unit c) (ite c (P!unit true) (P!unit false))) :pattern ((P!unit c)))))\n")
	}
	return r.Replace(`(declare-fun P!len (Q!) Int)
(declare-fun P!at (Q! Int) E!)
(declare-fun P!sub (Q! Int Int) Q!)
(declare-fun P!cat (Q! Q!) Q!)
(declare-fun P!unit (E!) Q!)
(declare-const P!empty Q!)
(declare-fun P!eq (Q! Q!) Bool)
(declare-fun P!vw ((Array Int E!) Int Int) Q!)
(assert (forall ((s Q!)) (! (<= 0 (P!len s)) :pattern ((P!len s)))))
(assert (= (P!len P!empty) 0))
(assert (forall ((s Q!)) (! (=> (= (P!len s) 0) (= s P!empty)) :pattern ((P!len s)))))
(assert (forall ((s Q!) (a Int) (b Int)) (! (=> (and (<= 0 a) (<= a b) (<= b (P!len s))) (= (P!len (P!sub s a b)) (- b a))) :pattern ((P!sub s a b)))))
(assert (forall ((s Q!) (a Int) (b Int) (i Int)) (! (=> (and (<= 0 a) (<= a b) (<= b (P!len s)) (<= 0 i) (< i (- b a))) (= (P!at (P!sub s a b) i) (P!at s (+ a i)))) :pattern ((P!at (P!sub s a b) i)))))
(assert (forall ((s Q!) (a Int) (b Int)) (! (=> (and (= a 0) (= b (P!len s))) (= (P!sub s a b) s)) :pattern ((P!sub s a b)))))
(assert (forall ((s Q!) (a Int) (b Int)) (! (=> (and (= a b) (<= 0 a) (<= b (P!len s))) (= (P!sub s a b) P!empty)) :pattern ((P!sub s a b)))))
(assert (forall ((s Q!) (a Int) (b Int) (x Int) (y Int)) (! (=> (and (<= 0 a) (<= a b) (<= b (P!len s)) (<= 0 x) (<= x y) (<= y (- b a))) (= (P!sub (P!sub s a b) x y) (P!sub s (+ a x) (+ a y)))) :pattern ((P!sub (P!sub s a b) x y)))))
(assert (forall ((s Q!) (t Q!)) (! (= (P!len (P!cat s t)) (+ (P!len s) (P!len t))) :pattern ((P!cat s t)))))
(assert (forall ((s Q!) (t Q!) (i Int)) (! (=> (and (<= 0 i) (< i (P!len s))) (= (P!at (P!cat s t) i) (P!at s i))) :pattern ((P!at (P!cat s t) i)))))
(assert (forall ((s Q!) (t Q!) (i Int)) (! (=> (and (<= (P!len s) i) (< i (+ (P!len s) (P!len t)))) (= (P!at (P!cat s t) i) (P!at t (- i (P!len s))))) :pattern ((P!at (P!cat s t) i)))))
(assert (forall ((s Q!)) (! (= (P!cat s P!empty) s) :pattern ((P!cat s P!empty)))))
(assert (forall ((s Q!)) (! (= (P!cat P!empty s) s) :pattern ((P!cat P!empty s)))))
(assert (forall ((a Q!) (b Q!) (c Q!)) (! (= (P!cat a (P!cat b c)) (P!cat (P!cat a b) c)) :pattern ((P!cat a (P!cat b c))))))
(assert (forall ((s Q!) (a Int) (b Int) (c Int)) (! (=> (and (<= 0 a) (<= a b) (<= b c) (<= c (P!len s))) (= (P!cat (P!sub s a b) (P!sub s b c)) (P!sub s a c))) :pattern ((P!cat (P!sub s a b) (P!sub s b c))))))
(assert (forall ((s Q!) (a Int) (b Int)) (! (=> (and (<= 0 a) (<= a b) (< b (P!len s))) (= (P!cat (P!sub s a b) (P!unit (P!at s b))) (P!sub s a (+ b 1)))) :pattern ((P!cat (P!sub s a b) (P!unit (P!at s b)))))))
(assert (forall ((s Q!) (t Q!) (x Int) (y Int)) (! (=> (and (<= 0 x) (<= x y) (<= y (P!len s))) (= (P!sub (P!cat s t) x y) (P!sub s x y))) :pattern ((P!sub (P!cat s t) x y)))))
(assert (forall ((s Q!) (t Q!) (x Int) (y Int)) (! (=> (and (<= (P!len s) x) (<= x y) (<= y (+ (P!len s) (P!len t)))) (= (P!sub (P!cat s t) x y) (P!sub t (- x (P!len s)) (- y (P!len s))))) :pattern ((P!sub (P!cat s t) x y)))))
(assert (forall ((c E!)) (! (and (= (P!len (P!unit c)) 1) (= (P!at (P!unit c) 0) c)) :pattern ((P!unit c)))))
(assert (forall ((s Q!) (t Q!)) (! (= (P!eq s t) (= s t)) :pattern ((P!eq s t)))))
(assert (forall ((s Q!) (t Q!)) (! (or (P!eq s t) (not (= (P!len s) (P!len t))) (exists ((i Int)) (and (<= 0 i) (< i (P!len s)) (not (= (P!at s i) (P!at t i)))))) :pattern ((P!eq s t)))))
(assert (forall ((a (Array Int E!)) (o Int) (n Int)) (! (=> (<= 0 n) (= (P!len (P!vw a o n)) n)) :pattern ((P!vw a o n)))))
(assert (forall ((a (Array Int E!)) (o Int) (n Int) (i Int)) (! (=> (and (<= 0 i) (< i n)) (= (P!at (P!vw a o n) i) (select a (+ o i)))) :pattern ((P!at (P!vw a o n) i)))))
(assert (forall ((a (Array Int E!)) (o Int) (n Int) (x Int) (y Int)) (! (=> (and (<= 0 x) (<= x y) (<= y n)) (= (P!sub (P!vw a o n) x y) (P!vw a (+ o x) (- y x)))) :pattern ((P!sub (P!vw a o n) x y)))))
`) + bool2
}

// prelude renders everything declared so far.
func (u *Univ) prelude() string {
	// spec functions and axioms may pull in further symbols: render them first
	body := u.renderSpecs()
	var b strings.Builder
	b.WriteString(strPrelude)
	for n := range u.unsorts {
		fmt.Fprintf(&b, "(declare-sort %s 0)\n", n)
	}
	b.WriteString(seqTheory("Str", "s", "Int"))
	b.WriteString("(declare-fun slt (Str Str) Bool)\n")
	for _, n := range u.structs {
		b.WriteString(u.structTx[n] + "\n")
	}
	for _, q := range u.seqs {
		i := strings.Index(q, "\x00")
		fmt.Fprintf(&b, "(declare-sort Seq_%s 0)\n", q[:i])
		b.WriteString(seqTheory("Seq_"+q[:i], "Seq_"+q[:i]+".", q[i+1:]))
	}
	for _, s := range u.litOrder {
		n := u.lits[s]
		fmt.Fprintf(&b, "(declare-const %s Str)(assert (= (slen %s) %d))", n, n, len(s))
		for i := 0; i < len(s); i++ {
			fmt.Fprintf(&b, "(assert (= (sat %s %d) %d))", n, i, s[i])
		}
		b.WriteString("\n")
	}
	for _, t := range u.boxOrder {
		bx, ub, tag := u.box(t)
		s := u.sortOf(t)
		fmt.Fprintf(&b, "(declare-fun %s (%s) Iface)(declare-fun %s (Iface) %s)", bx, s, ub, s)
		fmt.Fprintf(&b, "(assert (forall ((v %s)) (! (and (= (itag (%s v)) %s) (= (%s (%s v)) v)) :pattern ((%s v)))))\n", s, bx, tag, ub, bx, bx)
		fmt.Fprintf(&b, "(assert (forall ((x Iface)) (! (=> (= (itag x) %s) (= (%s (%s x)) x)) :pattern ((%s x)))))\n", tag, bx, ub, ub)
	}
	for _, m := range u.misc {
		b.WriteString(m + "\n")
	}
	b.WriteString(body)
	return b.String()
}

func (u *Univ) tagOn(tags []string) bool {
	if len(tags) == 0 {
		return true
	}
	for _, t := range tags {
		if u.tags[t] {
			return true
		}
	}
	return false
}

// renderSpecs emits the used spec functions and the relevant axioms and lemmas.
func (u *Univ) renderSpecs() string {
	done := map[string]bool{}
	doneAx := map[*Axiom]bool{}
	var axs []string
	bodies := map[string][3]string{}
	for {
		progress := false
		for _, n := range u.S.Order {
			if u.used[n] && !done[n] {
				done[n] = true
				progress = true
				d, df, ax := u.renderFunc(u.S.Funcs[n])
				bodies[n] = [3]string{d, df, ax}
			}
		}
		for i, a := range u.S.Axioms {
			if doneAx[a] || a.Dead || !u.tagOn(a.Tags) || i >= u.upto && a.Lemma || a.Manual && !u.only[a.Name] {
				continue
			}
			if u.onlyLem && a.Lemma && !u.only[a.Name] {
				continue
			}
			if !u.relevant(a) {
				continue
			}
			doneAx[a] = true
			progress = true
			axs = append(axs, u.renderAxiom(a))
		}
		if !progress {
			break
		}
	}
	var b strings.Builder
	// declarations first (definitions of non recursive functions in order)
	for k := 0; k < 3; k++ {
		for _, n := range u.S.Order {
			b.WriteString(bodies[n][k])
		}
	}
	for _, a := range axs {
		b.WriteString(a)
	}
	return b.String()
}

func exprFuncs(e *Expr, m map[string]bool) {
	if e == nil {
		return
	}
	if e.Op == "call" {
		m[e.Name] = true
	}
	for _, a := range e.Args {
		exprFuncs(a, m)
	}
	for _, t := range e.Trig {
		for _, x := range t {
			exprFuncs(x, m)
		}
	}
}

func (u *Univ) relevant(a *Axiom) bool {
	m := map[string]bool{}
	if len(a.Trig) > 0 {
		for _, t := range a.Trig {
			for _, x := range t {
				exprFuncs(x, m)
			}
		}
	} else {
		exprFuncs(a.E, m)
	}
	any := false
	for f := range m {
		sf := u.S.Funcs[f]
		if sf == nil || sf.Macro {
			continue
		}
		any = true
		if !u.used[f] {
			return false
		}
	}
	return any
}

func (u *Univ) specType(s string) types.Type {
	s = strings.TrimSpace(s)
	switch s {
	case "rune":
		return types.Typ[types.Int32]
	case "int":
		return tInt
	case "byte":
		return tByte
	case "bool":
		return tBool
	case "string", "Str":
		return tStr
	case "error":
		return tErr
	case "any", "Iface":
		return tAny
	case "float64":
		return tF64
	case "Doc":
		return &UnT{"Doc"}
	}
	if strings.HasPrefix(s, "Seq[") {
		return &SeqT{u.specType(s[4 : len(s)-1])}
	}
	if strings.HasPrefix(s, "Set[") {
		return &SetT{u.specType(s[4 : len(s)-1])}
	}
	if strings.HasPrefix(s, "Arr[") {
		return &ArrT{u.specType(s[4 : len(s)-1])}
	}
	if strings.HasPrefix(s, "Sort[") {
		return &UnT{s[5 : len(s)-1]}
	}
	if strings.HasPrefix(s, "*") {
		return types.NewPointer(u.specType(s[1:]))
	}
	if strings.HasPrefix(s, "[]") {
		return types.NewSlice(u.specType(s[2:]))
	}
	if strings.HasPrefix(s, "map[") {
		i := strings.Index(s, "]")
		return types.NewMap(u.specType(s[4:i]), u.specType(s[i+1:]))
	}
	if o := u.P.Pkgs[modPath].Pkg.Scope().Lookup(s); o != nil {
		if tn, ok := o.(*types.TypeName); ok {
			return tn.Type()
		}
	}
	if i := strings.Index(s, "."); i > 0 {
		for _, p := range u.P.Prog.AllPackages() {
			if p.Pkg.Name() == s[:i] {
				if o := p.Pkg.Scope().Lookup(s[i+1:]); o != nil {
					if tn, ok := o.(*types.TypeName); ok {
						return tn.Type()
					}
				}
			}
		}
	}
	panic(fmt.Sprintf("spec type %q", s))
}

func (u *Univ) renderFunc(f *SpecFunc) (decl, def, ax string) {
	if f.Macro {
		return
	}
	ret := u.specType(f.Ret)
	var ps, names, sorts []string
	ev := &Eval{u: u, vars: map[string]Val{}}
	for _, p := range f.Params {
		t := u.specType(p.Type)
		s := u.sortOf(t)
		n := p.Name + "!"
		ps = append(ps, fmt.Sprintf("(%s %s)", n, s))
		names = append(names, n)
		sorts = append(sorts, s)
		ev.vars[p.Name] = Val{T: t, S: n}
	}
	rs := u.sortOf(ret)
	if f.Body == nil {
		return fmt.Sprintf("(declare-fun %s (%s) %s)\n", f.Name, strings.Join(sorts, " "), rs), "", ""
	}
	if !f.Rec {
		b := ev.eval(f.Body)
		return "", fmt.Sprintf("(define-fun %s (%s) %s %s)\n", f.Name, strings.Join(ps, " "), rs, b.S), ""
	}
	// recursive: unfold once per term (limited twin)
	ev.limited = f.Name
	b := ev.eval(f.Body)
	app := fmt.Sprintf("(%s %s)", f.Name, strings.Join(names, " "))
	lim := fmt.Sprintf("(%s$l %s)", f.Name, strings.Join(names, " "))
	decl = fmt.Sprintf("(declare-fun %s (%s) %s)\n(declare-fun %s$l (%s) %s)\n", f.Name, strings.Join(sorts, " "), rs, f.Name, strings.Join(sorts, " "), rs)
	ax = fmt.Sprintf("(assert (forall (%s) (! (= %s %s) :pattern (%s))))\n", strings.Join(ps, " "), app, lim, app) +
		fmt.Sprintf("(assert (forall (%s) (! (= %s %s) :pattern (%s))))\n", strings.Join(ps, " "), app, b.S, app)
	return decl, "", ax
}

func (u *Univ) renderAxiom(a *Axiom) string {
	return "(assert " + u.axiomTerm(a) + ")\n"
}

func (u *Univ) axiomTerm(a *Axiom) string {
	ev := &Eval{u: u, vars: map[string]Val{}, limAll: a.Lemma}
	var ps []string
	for _, p := range a.Vars {
		t := u.specType(p.Type)
		ps = append(ps, fmt.Sprintf("(%s %s)", p.Name+"!", u.sortOf(t)))
		ev.vars[p.Name] = Val{T: t, S: p.Name + "!"}
	}
	b := ev.eval(a.E)
	if len(ps) == 0 {
		return b.S
	}
	pat := ""
	for _, t := range a.Trig {
		var xs []string
		for _, x := range t {
			xs = append(xs, ev.eval(x).S)
		}
		pat += " :pattern (" + strings.Join(xs, " ") + ")"
	}
	if pat == "" {
		return fmt.Sprintf("(forall (%s) %s)", strings.Join(ps, " "), b.S)
	}
	return fmt.Sprintf("(forall (%s) (! %s%s))", strings.Join(ps, " "), b.S, pat)
}

func sortedKeys[V any](m map[string]V) []string {
	var k []string
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return k
}
