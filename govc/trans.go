package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Obl struct {
	Name  string
	Kind  string
	Fn    string
	Pos   string
	Text  string
	Reach string
	Cond  string
	Cand  *Cand // invariant candidate this obligation is about
	Var   *VarCand
	Prove bool // belongs to the property under check (otherwise only assumed)
	// result
	Res  string
	By   string
	Time float64
	Out  string
	// byte strings a candidate counterexample suggests
	Model []string
}

type Cand struct {
	Lit  string
	Name string
	User bool
	Bind bool // instance of an invariant with bound variables
	Dead bool
	Why  string
}

// VarCand is one candidate variant of one loop.
type VarCand struct {
	Loop string
	Text string
	Bad  bool
}

type Item struct {
	Text string
	Obl  *Obl
}

type Target struct {
	Comp, Ref string
	Text      string
	Any       bool   // whole component
	Cond      string // "" or the condition under which there is anything to write
}

type VC struct {
	guardOf     map[string]string // map term -> the guarded global it was read from
	emptySB     map[string]string // version of the builder texts in which a builder was just reset
	P           *Program
	S           *SpecFile
	u           *Univ
	cfg         *Run
	fn          *ssa.Function
	name        string
	con         *Contract
	items       []Item
	n           int
	sorts       map[string]string // component -> sort
	keyed       map[string]bool   // component indexed by reference
	cands       []*Cand
	vars        map[string][]*VarCand
	entry       State
	look0       func(string) (Val, bool)
	alloc0      string
	mods        []Target
	scc         map[*ssa.Function]bool
	meas        []string
	kindN       map[string]int
	trust       map[string]bool // trusted / assumed facts used
	used        map[string]bool // contracts used at call sites
	invoked     map[string]bool
	nocheck     bool
	exits       []string
	headers     []string
	inlined     map[string]bool
	droppedUses []string
}

type edge struct {
	reach string
	st    State
	from  *ssa.BasicBlock
}

type ret struct {
	reach string
	st    State
	vals  []Val
}

type Loop struct {
	h        *ssa.BasicBlock
	body     map[*ssa.BasicBlock]bool
	back     []*ssa.BasicBlock
	allocPre string
	targets  map[string][]string
	unk      map[string]bool // fresh memory may be written as well
	frameA   map[string]*Cand
	frameB   map[string]*Cand
	pre      State
	preReach string
	fx       *Fx
	phiPre   map[*ssa.Phi]Val
	phiH     map[*ssa.Phi]Val
	stH      State
	cands    []*candInst
	vcs      []*varInst
	id       string
}

type candInst struct {
	c    *Cand
	eval func(phi map[*ssa.Phi]Val, st State) string
}
type varInst struct {
	vc   *VarCand
	eval func(phi map[*ssa.Phi]Val, st State) string
	h    string
}

type Fx struct {
	v      *VC
	fn     *ssa.Function
	up     *Fx
	upBlk  *ssa.BasicBlock
	vals   map[ssa.Value]Val
	in     map[*ssa.BasicBlock][]edge
	st     State
	reach  string
	cur    *ssa.BasicBlock
	rets   []ret
	loops  map[*ssa.BasicBlock]*Loop
	inLoop map[*ssa.BasicBlock][]*Loop
	defers []*deferred
	depth  int
	prom   map[*ssa.Alloc]ssa.Value
	id     int
	locals map[*ssa.Alloc]string
	dbg    map[string][]dbgRef
	con    *Contract
	args   map[string]Val
}

type deferred struct {
	call  *ssa.CallCommon
	blk   *ssa.BasicBlock
	instr *ssa.Defer
}

type dbgRef struct {
	blk  *ssa.BasicBlock
	idx  int
	v    ssa.Value
	addr bool
}

func (v *VC) fresh(hint, sort string) string {
	v.n++
	n := fmt.Sprintf("%s!%d", sanitize(hint), v.n)
	v.items = append(v.items, Item{Text: fmt.Sprintf("(declare-const %s %s)", n, sort)})
	return n
}

func (v *VC) assert(s string) {
	if s == "true" {
		return
	}
	v.items = append(v.items, Item{Text: "(assert " + s + ")"})
}

func (v *VC) assume(reach, c string) {
	if c == "true" || c == "" {
		return
	}
	if reach == "true" {
		v.assert(c)
		return
	}
	v.assert("(=> " + reach + " " + c + ")")
}

func (v *VC) name2(hint, sort, term string) string {
	if !strings.HasPrefix(term, "(") {
		return term
	}
	n := v.fresh(hint, sort)
	v.assert("(= " + n + " " + term + ")")
	return n
}

func (v *VC) comp(name, sort string, keyed bool) string {
	if keyed {
		sort2 := "(Array Int " + sort + ")"
		if name == "Pub" {
			sort2 = "(Array Int Bool)"
		}
		sort = sort2
	}
	if _, ok := v.sorts[name]; !ok {
		v.sorts[name] = sort
		v.keyed[name] = keyed
		v.items = append(v.items, Item{Text: fmt.Sprintf("(declare-const %s@0 %s)", name, sort)})
		if name == "Pub" {
			// memory this call allocates is published only by this call
			v.items = append(v.items, Item{Text: fmt.Sprintf("(assert (forall ((r Int)) (! (=> (>= r %s) (not (select Pub@0 r))) :pattern ((select Pub@0 r)))))", v.alloc0)})
		}
	}
	return name
}

func (fx *Fx) get(st State, comp string) string {
	if t, ok := st[comp]; ok {
		return t
	}
	return comp + "@0"
}

func (fx *Fx) sel(st State, comp, ref string) string {
	return "(select " + fx.get(st, comp) + " " + ref + ")"
}

func (v *VC) oblige(kind, text, reach, cond string, pos token.Pos, prove bool) *Obl {
	v.kindN[kind]++
	o := &Obl{Name: fmt.Sprintf("%s/%s#%d", v.name, kind, v.kindN[kind]), Kind: kind, Fn: v.name, Text: text, Reach: reach, Cond: cond, Prove: prove}
	if pos.IsValid() {
		p := v.P.Fset.Position(pos)
		o.Pos = fmt.Sprintf("%s:%d", p.Filename[strings.LastIndex(p.Filename, "/")+1:], p.Line)
	}
	v.items = append(v.items, Item{Obl: o})
	return o
}

func (fx *Fx) safe(kind, text, cond string, pos token.Pos) {
	if cond == "true" {
		return
	}
	fx.v.oblige(kind, text, fx.reach, cond, pos, fx.v.cfg.kind(kind))
}

// ---- addresses ----

func (fx *Fx) fieldComp(t types.Type, i int) string {
	st := t.Underlying().(*types.Struct)
	f := st.Field(i)
	return fx.v.comp("F_"+tkey(t)+"_"+f.Name(), fx.v.u.sortOf(f.Type()), true)
}

func (fx *Fx) elemComp(t types.Type) string {
	return fx.v.comp("E_"+tkey(t), "(Array Int "+fx.v.u.sortOf(t)+")", true)
}

func (fx *Fx) cellComp(t types.Type) string {
	return fx.v.comp("C_"+tkey(t), fx.v.u.sortOf(t), true)
}

func (fx *Fx) mapComps(m *types.Map) (dom, val, ln string) {
	k := tkey(m.Key()) + "_" + tkey(m.Elem())
	ks := fx.v.u.sortOf(m.Key())
	dom = fx.v.comp("MD_"+k, "(Array "+ks+" Bool)", true)
	val = fx.v.comp("MV_"+k, "(Array "+ks+" "+fx.v.u.sortOf(m.Elem())+")", true)
	ln = fx.v.comp("ML_"+k, "Int", true)
	return
}

func opaqueStruct(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	p := n.Obj().Pkg().Path()
	if strings.HasPrefix(p, modPath) {
		return false
	}
	if st, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			if !st.Field(i).Exported() {
				return true
			}
		}
		return st.NumFields() == 0
	}
	return true
}

// sizeOf: number of references a value of type t occupies (nested structs have their own address).
func sizeOf(t types.Type) int {
	if st, ok := t.Underlying().(*types.Struct); ok && !opaqueStruct(t) {
		n := 1
		for i := 0; i < st.NumFields(); i++ {
			if _, ok := st.Field(i).Type().Underlying().(*types.Struct); ok {
				n += sizeOf(st.Field(i).Type())
			}
		}
		return n
	}
	return 1
}

func nestedOff(t types.Type, f int) int {
	st := t.Underlying().(*types.Struct)
	n := 1
	for i := 0; i < f; i++ {
		if _, ok := st.Field(i).Type().Underlying().(*types.Struct); ok {
			n += sizeOf(st.Field(i).Type())
		}
	}
	return n
}

// fieldAddr of a pointer value to struct type t.
func (fx *Fx) fieldAddr(p Val, t types.Type, i int) Val {
	st := t.Underlying().(*types.Struct)
	ft := st.Field(i).Type()
	if p.LV != nil && p.LV.K != lvStruct {
		lv := *p.LV
		lv.Path = append(append([]int{}, lv.Path...), i)
		lv.PT = append(append([]types.Type{}, lv.PT...), t)
		return Val{T: types.NewPointer(ft), LV: &lv}
	}
	if _, ok := ft.Underlying().(*types.Struct); ok {
		return Val{T: types.NewPointer(ft), S: fmt.Sprintf("(+ %s %d)", p.S, nestedOff(t, i))}
	}
	return Val{T: types.NewPointer(ft), LV: &LV{K: lvField, Comp: fx.fieldComp(t, i), Ref: p.S, T: ft}}
}

// derefLV is the location a pointer value designates.
func (fx *Fx) derefLV(p Val, t types.Type) *LV {
	if p.LV != nil {
		return p.LV
	}
	if _, ok := t.Underlying().(*types.Struct); ok {
		return &LV{K: lvStruct, Ref: p.S, T: t}
	}
	if a, ok := t.Underlying().(*types.Array); ok {
		return &LV{K: lvField, Comp: fx.elemComp(a.Elem()), Ref: p.S, T: t}
	}
	return &LV{K: lvCell, Comp: fx.cellComp(t), Ref: p.S, T: t}
}

func (fx *Fx) globalLV(g *ssa.Global) *LV {
	t := g.Type().(*types.Pointer).Elem()
	return &LV{K: lvGlobal, Comp: fx.v.comp("G_"+g.Name()+"_", fx.v.u.sortOf(t), false), T: t, Idx: g.Name()}
}

func (fx *Fx) loadRoot(lv *LV, st State) string {
	switch lv.K {
	case lvLocal:
		return fx.get(st, lv.Comp)
	case lvGlobal:
		if fx.v.S.Consts[lv.Idx] {
			return fx.v.u.constGlobal(lv.Idx, lv.T).S
		}
		return fx.get(st, lv.Comp)
	case lvField, lvCell:
		return fx.sel(st, lv.Comp, lv.Ref)
	case lvElem:
		return "(select " + fx.sel(st, lv.Comp, lv.Ref) + " " + lv.Idx + ")"
	case lvStruct:
		stt := lv.T.Underlying().(*types.Struct)
		if opaqueStruct(lv.T) {
			unsup("copy of %s", lv.T)
		}
		var fs []string
		for i := 0; i < stt.NumFields(); i++ {
			fa := fx.fieldAddr(Val{S: lv.Ref}, lv.T, i)
			fs = append(fs, fx.loadRoot(fx.derefLV(fa, stt.Field(i).Type()), st))
		}
		return fx.v.u.mkStruct(lv.T, fs)
	}
	panic("lv")
}

func (fx *Fx) loadLV(lv *LV, st State) Val {
	s := fx.loadRoot(lv, st)
	t := lv.T
	for k, f := range lv.Path {
		s = "(" + fieldSel(lv.PT[k], f) + " " + s + ")"
		t = lv.PT[k].Underlying().(*types.Struct).Field(f).Type()
	}
	return Val{T: t, S: s}
}

func (fx *Fx) updPath(root string, lv *LV, k int, val string) string {
	if k == len(lv.Path) {
		return val
	}
	t := lv.PT[k]
	fx.v.u.structSort(t)
	st := t.Underlying().(*types.Struct)
	var fs []string
	for i := 0; i < st.NumFields(); i++ {
		s := "(" + fieldSel(t, i) + " " + root + ")"
		if i == lv.Path[k] {
			s = fx.updPath(s, lv, k+1, val)
		}
		fs = append(fs, s)
	}
	return fx.v.u.mkStruct(t, fs)
}

// frame emits the obligations for a write to comp at ref.
// frameIf is frame under a condition.
func (fx *Fx) frameIf(cond, comp, ref string, pos token.Pos, what string) {
	if cond == "" {
		fx.frame(comp, ref, pos, what)
		return
	}
	saved := fx.reach
	rw := fx.v.fresh("R", "Bool")
	fx.v.assert(fmt.Sprintf("(= %s (and %s %s))", rw, fx.reach, cond))
	fx.reach = rw
	fx.frame(comp, ref, pos, what)
	fx.reach = saved
}

func (fx *Fx) frame(comp, ref string, pos token.Pos, what string) {
	v := fx.v
	if !v.keyed[comp] {
		// globals: must be listed
		ok := "false"
		for _, m := range v.mods {
			if m.Comp == comp {
				ok = "true"
			}
		}
		if strings.HasPrefix(comp, "G_") && ok == "false" {
			v.oblige("frame", "write to "+what, fx.reach, "false", pos, v.cfg.kind("frame"))
		}
		return
	}
	alts := []string{fmt.Sprintf("(>= %s %s)", ref, v.alloc0)}
	same := false
	for _, m := range v.mods {
		if m.Comp == comp {
			if m.Any || m.Ref == ref {
				same = true
			}
			alts = append(alts, fmt.Sprintf("(= %s %s)", ref, m.Ref))
		}
	}
	if !same {
		v.oblige("frame", "write to "+what+" outside the frame", fx.reach, "(or "+strings.Join(alts, " ")+")", pos, v.cfg.kind("frame"))
	}
	if v.S.pubComp(comp) {
		pc := v.comp("Pub", "Bool", true)
		v.oblige("pub", "write to published memory "+what, fx.reach, "(not "+fx.sel(fx.st, pc, ref)+")", pos, v.cfg.kind("pub"))
	}
	for _, l := range fx.activeLoops() {
		if l.targets == nil {
			continue
		}
		hit := false
		alts := []string{"false"}
		if l.unk[comp] {
			alts = append(alts, fmt.Sprintf("(>= %s %s)", ref, l.allocPre))
		}
		for _, r := range l.targets[comp] {
			if r == ref || r == "*" {
				hit = true
			}
			alts = append(alts, fmt.Sprintf("(= %s %s)", ref, r))
		}
		if !hit {
			o := v.oblige("loopframe", "write to "+what+" inside loop", fx.reach, "(or "+strings.Join(alts, " ")+")", pos, true)
			o.Cand = l.frameA[comp]
		}
		if c := l.frameB[comp]; c != nil {
			alts := []string{fmt.Sprintf("(>= %s %s)", ref, v.alloc0)}
			for _, m := range v.mods {
				if m.Comp == comp {
					alts = append(alts, fmt.Sprintf("(= %s %s)", ref, m.Ref))
				}
			}
			o := v.oblige("loopframe", "write to "+what+" inside loop", fx.reach, "(or "+strings.Join(alts, " ")+")", pos, true)
			o.Cand = c
		}
	}
}

func (sf *SpecFile) pubComp(comp string) bool {
	return comp == "E_PathSegment"
}

func (fx *Fx) activeLoops() []*Loop {
	var ls []*Loop
	f, b := fx, fx.cur
	for f != nil {
		ls = append(ls, f.inLoop[b]...)
		b = f.upBlk
		f = f.up
	}
	return ls
}

func (fx *Fx) storeLV(lv *LV, val Val, pos token.Pos) {
	v := fx.v
	switch lv.K {
	case lvLocal:
		s := val.S
		if len(lv.Path) > 0 {
			s = fx.updPath(fx.get(fx.st, lv.Comp), lv, 0, val.S)
		}
		fx.st[lv.Comp] = v.name2(lv.Comp, v.sorts[lv.Comp], s)
	case lvGlobal:
		if v.S.Consts[lv.Idx] && fx.fn.Name() != "init" {
			v.oblige("frame", "write to constant global "+lv.Idx, fx.reach, "false", pos, v.cfg.kind("frame"))
			return
		}
		fx.guardAccess(lv.Idx, pos, true)
		if v.S.Guards[lv.Idx] == "" {
			fx.frame(lv.Comp, "", pos, lv.Idx)
		}
		s := val.S
		if len(lv.Path) > 0 {
			s = fx.updPath(fx.get(fx.st, lv.Comp), lv, 0, val.S)
		}
		fx.st[lv.Comp] = v.name2(lv.Comp, v.sorts[lv.Comp], s)
	case lvField, lvCell:
		fx.frame(lv.Comp, lv.Ref, pos, lv.Comp)
		s := val.S
		if len(lv.Path) > 0 {
			s = fx.updPath(fx.sel(fx.st, lv.Comp, lv.Ref), lv, 0, val.S)
		}
		fx.setAt(lv.Comp, lv.Ref, s)
	case lvElem:
		fx.frame(lv.Comp, lv.Ref, pos, lv.Comp)
		arr := fx.sel(fx.st, lv.Comp, lv.Ref)
		s := val.S
		if len(lv.Path) > 0 {
			s = fx.updPath("(select "+arr+" "+lv.Idx+")", lv, 0, val.S)
		}
		fx.setAt(lv.Comp, lv.Ref, fmt.Sprintf("(store %s %s %s)", arr, lv.Idx, s))
	case lvStruct:
		st := lv.T.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			fa := fx.fieldAddr(Val{S: lv.Ref}, lv.T, i)
			fx.storeLV(fx.derefLV(fa, st.Field(i).Type()), Val{T: st.Field(i).Type(), S: "(" + fieldSel(lv.T, i) + " " + val.S + ")"}, pos)
		}
	}
}

func (fx *Fx) setAt(comp, ref, s string) {
	v := fx.v
	fx.st[comp] = v.name2(comp, v.sorts[comp], fmt.Sprintf("(store %s %s %s)", fx.get(fx.st, comp), ref, s))
}

// wf: facts every well-typed value satisfies.
func (fx *Fx) wf(t types.Type, s string, alloc string) string {
	switch t.(type) {
	case *SeqT, *SetT, *UnT, *ArrT:
		return "true"
	}
	switch x := t.Underlying().(type) {
	case *types.Basic:
		switch x.Kind() {
		case types.Uint8:
			return fmt.Sprintf("(and (<= 0 %s) (<= %s 255))", s, s)
		case types.Uint, types.Uint16, types.Uint32, types.Uint64, types.Uintptr:
			return fmt.Sprintf("(<= 0 %s)", s)
		}
	case *types.Pointer, *types.Map:
		return fmt.Sprintf("(and (<= 0 %s) (< %s %s))", s, s, alloc)
	case *types.Slice:
		return fmt.Sprintf("(and (< (sref %s) %s) (<= 0 (soff %s)) (<= 0 (slen_ %s)) (<= (slen_ %s) (scap %s)) (=> (= (sref %s) 0) (= %s nilslice)))", s, alloc, s, s, s, s, s, s)
	case *types.Struct:
		if opaqueStruct(t) {
			return "true"
		}
		var cs []string
		for i := 0; i < x.NumFields(); i++ {
			c := fx.wf(x.Field(i).Type(), "("+fieldSel(t, i)+" "+s+")", alloc)
			if c != "true" {
				cs = append(cs, c)
			}
		}
		if len(cs) > 0 {
			fx.v.u.sortOf(t)
			return "(and " + strings.Join(cs, " ") + ")"
		}
	}
	return "true"
}

func (fx *Fx) havoc(hint string, t types.Type) Val {
	n := fx.v.fresh(hint, fx.v.u.sortOf(t))
	fx.v.assume(fx.reach, fx.wf(t, n, fx.st["alloc"]))
	return Val{T: t, S: n}
}

// newRef allocates n references.
func (fx *Fx) newRef(n int) string {
	r := fx.st["alloc"]
	a := fx.v.fresh("alloc", "Int")
	fx.v.assert(fmt.Sprintf("(= %s (+ %s %d))", a, r, n))
	fx.st["alloc"] = a
	return r
}

func (fx *Fx) initZero(t types.Type, ref string) {
	v := fx.v
	switch x := t.Underlying().(type) {
	case *types.Struct:
		if opaqueStruct(t) {
			if tkey(t) == "strings.Builder" {
				v.assume(fx.reach, "(= "+fx.sel(fx.st, v.comp("SB", "Str", true), ref)+" sempty)")
			}
			return
		}
		for i := 0; i < x.NumFields(); i++ {
			ft := x.Field(i).Type()
			if _, ok := ft.Underlying().(*types.Struct); ok {
				fx.initZero(ft, fmt.Sprintf("(+ %s %d)", ref, nestedOff(t, i)))
				continue
			}
			v.assume(fx.reach, fmt.Sprintf("(= %s %s)", fx.sel(fx.st, fx.fieldComp(t, i), ref), v.u.zero(ft)))
		}
	case *types.Array:
		v.assume(fx.reach, fmt.Sprintf("(= %s ((as const %s) %s))", fx.sel(fx.st, fx.elemComp(x.Elem()), ref), "(Array Int "+v.u.sortOf(x.Elem())+")", v.u.zero(x.Elem())))
	default:
		v.assume(fx.reach, fmt.Sprintf("(= %s %s)", fx.sel(fx.st, fx.cellComp(t), ref), v.u.zero(t)))
	}
}

// ---- control flow ----

func localAlloc(a *ssa.Alloc) bool {
	t := a.Type().(*types.Pointer).Elem()
	if _, ok := t.Underlying().(*types.Array); ok {
		return false
	}
	if opaqueStruct(t) {
		return false
	}
	return onlyAddrUses(a, map[ssa.Value]bool{})
}

func onlyAddrUses(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	if v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.Store:
			if r.Val == v {
				return false
			}
		case *ssa.UnOp:
			if r.Op != token.MUL {
				return false
			}
		case *ssa.FieldAddr:
			if _, ok := r.Type().(*types.Pointer).Elem().Underlying().(*types.Array); ok {
				return false
			}
			if opaqueStruct(r.Type().(*types.Pointer).Elem()) {
				return false
			}
			if !onlyAddrUses(r, seen) {
				return false
			}
		case *ssa.DebugRef:
		case *ssa.MakeClosure:
			f := r.Fn.(*ssa.Function)
			for i, b := range r.Bindings {
				if b == v && !onlyAddrUses(f.FreeVars[i], seen) {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

// promoted finds allocs stored exactly once (a spilled parameter or single assignment), before any load.
func promoted(fn *ssa.Function) map[*ssa.Alloc]ssa.Value {
	m := map[*ssa.Alloc]ssa.Value{}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			a, ok := in.(*ssa.Alloc)
			if !ok || !localAlloc(a) {
				continue
			}
			var st *ssa.Store
			n := 0
			bad := false
			var walk func(v ssa.Value, inner bool)
			walk = func(v ssa.Value, inner bool) {
				for _, r := range *v.Referrers() {
					switch r := r.(type) {
					case *ssa.Store:
						n++
						st = r
						if inner {
							bad = true
						}
					case *ssa.FieldAddr:
						bad = true
					case *ssa.MakeClosure:
						f := r.Fn.(*ssa.Function)
						for i, bnd := range r.Bindings {
							if bnd == v {
								walk(f.FreeVars[i], true)
							}
						}
					}
				}
			}
			walk(a, false)
			if bad || n != 1 || st.Block() != fn.Blocks[0] || a.Block() != fn.Blocks[0] {
				continue
			}
			if _, isP := st.Val.(*ssa.Parameter); !isP {
				continue
			}
			m[a] = st.Val
		}
	}
	return m
}

func newFx(v *VC, fn *ssa.Function, up *Fx) *Fx {
	fx := &Fx{v: v, fn: fn, up: up, vals: map[ssa.Value]Val{}, in: map[*ssa.BasicBlock][]edge{}, loops: map[*ssa.BasicBlock]*Loop{}, inLoop: map[*ssa.BasicBlock][]*Loop{}, locals: map[*ssa.Alloc]string{}, args: map[string]Val{}}
	v.n++
	fx.id = v.n
	if up != nil {
		fx.depth = up.depth + 1
		fx.upBlk = up.cur
	}
	fx.prom = promoted(fn)
	fx.findLoops()
	fx.dbg = map[string][]dbgRef{}
	for _, b := range fn.Blocks {
		for i, in := range b.Instrs {
			if d, ok := in.(*ssa.DebugRef); ok {
				if o := d.Object(); o != nil {
					if _, isVar := o.(*types.Var); isVar {
						fx.dbg[o.Name()] = append(fx.dbg[o.Name()], dbgRef{b, i, d.X, d.IsAddr})
					}
				}
			}
		}
	}
	return fx
}

func (fx *Fx) findLoops() {
	for _, b := range fx.fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := fx.loops[s]
				if l == nil {
					l = &Loop{h: s, body: map[*ssa.BasicBlock]bool{s: true}, fx: fx}
					fx.loops[s] = l
				}
				l.back = append(l.back, b)
				var stack []*ssa.BasicBlock
				if !l.body[b] {
					l.body[b] = true
					stack = append(stack, b)
				}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					for _, p := range x.Preds {
						if !l.body[p] {
							l.body[p] = true
							stack = append(stack, p)
						}
					}
				}
			}
		}
	}
	var ls []*Loop
	for _, l := range fx.loops {
		ls = append(ls, l)
	}
	sort.Slice(ls, func(i, j int) bool { return ls[i].h.Index < ls[j].h.Index })
	for i, l := range ls {
		l.id = fmt.Sprintf("%s.loop%d", fx.v.P.Names[fx.fn], i+1)
		for b := range l.body {
			fx.inLoop[b] = append(fx.inLoop[b], l)
		}
	}
}

func rpo(fn *ssa.Function) []*ssa.BasicBlock {
	seen := map[*ssa.BasicBlock]bool{}
	var out []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		if seen[b] {
			return
		}
		seen[b] = true
		for _, s := range b.Succs {
			dfs(s)
		}
		out = append(out, b)
	}
	dfs(fn.Blocks[0])
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func (fx *Fx) run(reach string, st State) {
	blocks := rpo(fx.fn)
	fx.in[fx.fn.Blocks[0]] = []edge{{reach: reach, st: st}}
	for _, b := range blocks {
		es := fx.in[b]
		if len(es) == 0 {
			continue
		}
		fx.cur = b
		fx.enter(b, es)
		fx.block(b)
	}
}

func (fx *Fx) mergeReach(es []edge) string {
	if len(es) == 1 {
		return es[0].reach
	}
	var rs []string
	for _, e := range es {
		rs = append(rs, e.reach)
	}
	r := fx.v.fresh("R", "Bool")
	fx.v.assert(fmt.Sprintf("(= %s (or %s))", r, strings.Join(rs, " ")))
	return r
}

func (fx *Fx) mergeState(es []edge) State {
	if len(es) == 1 {
		return es[0].st.clone()
	}
	keys := map[string]bool{}
	for _, e := range es {
		for k := range e.st {
			keys[k] = true
		}
	}
	st := State{}
	for _, k := range sortedKeys(keys) {
		t0 := fx.get(es[0].st, k)
		same := true
		for _, e := range es[1:] {
			if fx.get(e.st, k) != t0 {
				same = false
			}
		}
		if same {
			st[k] = t0
			continue
		}
		srt := fx.v.sorts[k]
		if k == "alloc" {
			srt = "Int"
		}
		n := fx.v.fresh(k, srt)
		for _, e := range es {
			val := fx.get(e.st, k)
			if strings.HasPrefix(k, "L!") {
				if _, ok := e.st[k]; !ok {
					continue
				}
			}
			fx.v.assert(fmt.Sprintf("(=> %s (= %s %s))", e.reach, n, val))
		}
		st[k] = n
	}
	return st
}

// mergeVals merges one value per edge.
func (fx *Fx) mergeVals(hint string, t types.Type, es []edge, vals []Val) Val {
	same := true
	for _, x := range vals[1:] {
		if x.S != vals[0].S || x.LV != vals[0].LV || x.Clo != vals[0].Clo {
			same = false
		}
	}
	if same {
		return vals[0]
	}
	for _, x := range vals {
		if x.S == "" {
			unsup("merge of address values in %s", fx.fn.Name())
		}
	}
	n := fx.v.fresh(hint, fx.v.u.sortOf(t))
	for i, e := range es {
		fx.v.assert(fmt.Sprintf("(=> %s (= %s %s))", e.reach, n, vals[i].S))
	}
	return Val{T: t, S: n}
}

func phis(b *ssa.BasicBlock) []*ssa.Phi {
	var ps []*ssa.Phi
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		ps = append(ps, p)
	}
	return ps
}

func (fx *Fx) phiFrom(p *ssa.Phi, from *ssa.BasicBlock) Val {
	for i, pr := range p.Block().Preds {
		if pr == from {
			return fx.val(p.Edges[i])
		}
	}
	panic("phi edge")
}

func (fx *Fx) enter(b *ssa.BasicBlock, es []edge) {
	fx.reach = fx.mergeReach(es)
	fx.st = fx.mergeState(es)
	ph := phis(b)
	vals := map[*ssa.Phi]Val{}
	for _, p := range ph {
		var vs []Val
		for _, e := range es {
			vs = append(vs, fx.phiFrom(p, e.from))
		}
		hint := p.Comment
		if hint == "" {
			hint = p.Name()
		}
		vals[p] = fx.mergeVals(hint, p.Type(), es, vs)
	}
	l := fx.loops[b]
	if l == nil {
		for p, v := range vals {
			fx.vals[p] = v
		}
		return
	}
	fx.loopHead(l, vals)
}

func (fx *Fx) edgeTo(to *ssa.BasicBlock, reach string) {
	if l := fx.loops[to]; l != nil && to.Dominates(fx.cur) {
		fx.backEdge(l, reach)
		return
	}
	fx.in[to] = append(fx.in[to], edge{reach: reach, st: fx.st, from: fx.cur})
}

func (fx *Fx) block(b *ssa.BasicBlock) {
	for _, in := range b.Instrs {
		switch in := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.Jump:
			fx.edgeTo(b.Succs[0], fx.reach)
			return
		case *ssa.If:
			c := fx.val(in.Cond).S
			if b.Succs[0] == b.Succs[1] {
				fx.edgeTo(b.Succs[0], fx.reach)
				return
			}
			t := fx.v.fresh("R", "Bool")
			fx.v.assert(fmt.Sprintf("(= %s (and %s %s))", t, fx.reach, c))
			f := fx.v.fresh("R", "Bool")
			fx.v.assert(fmt.Sprintf("(= %s (and %s (not %s)))", f, fx.reach, c))
			st := fx.st
			fx.st = st.clone()
			fx.edgeTo(b.Succs[0], t)
			fx.st = st.clone()
			fx.edgeTo(b.Succs[1], f)
			return
		case *ssa.Return:
			var vs []Val
			for _, r := range in.Results {
				vs = append(vs, fx.val(r))
			}
			fx.rets = append(fx.rets, ret{fx.reach, fx.st, vs})
			return
		case *ssa.Panic:
			fx.safe("panic", "explicit panic", "false", in.Pos())
			return
		default:
			fx.instr(in)
		}
	}
}
