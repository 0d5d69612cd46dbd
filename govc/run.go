package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Run is one property check: which clauses and which automatic obligations it proves.
type Run struct {
	ID    string
	Tags  map[string]bool // clauses in force
	Own   map[string]bool // tags proved by this run
	Kinds map[string]bool
	Base  bool // untagged clauses are proved here
}

func (r *Run) kind(k string) bool { return r.Kinds[k] }

func (r *Run) clause(tags []string) bool {
	if len(tags) == 0 {
		return r.Base
	}
	for _, t := range tags {
		if r.Own[t] {
			return true
		}
	}
	return false
}

func newRun(S *SpecFile, id string) *Run {
	r := &Run{ID: id, Tags: map[string]bool{id: true}, Own: map[string]bool{id: true}, Kinds: map[string]bool{}}
	pc := S.Props[id]
	if pc == nil {
		return r
	}
	for _, t := range pc.Uses {
		if strings.HasPrefix(t, "=") { // proved elsewhere, assumed here
			r.Tags[t[1:]] = true
			continue
		}
		r.Tags[t] = true
		r.Own[t] = true
	}
	for _, k := range pc.Kinds {
		if k == "base" {
			r.Base = true
			continue
		}
		r.Kinds[k] = true
	}
	return r
}

type FuncResult struct {
	Name    string
	Err     string // translation failure
	Obls    []*Obl
	Dropped []string
	Trust   []string
	Used    []string
	Inlined []string
	Vacuous string
	Time    float64
	Queries int
	v       *VC
}

func newVC(P *Program, S *SpecFile, run *Run, name string) *VC {
	f := P.Funcs[name]
	v := &VC{guardOf: map[string]string{}, P: P, S: S, u: newUniv(P, S, run.Tags), cfg: run, fn: f, name: name, con: S.Contracts[name], sorts: map[string]string{}, keyed: map[string]bool{},
		vars: map[string][]*VarCand{}, kindN: map[string]int{}, trust: map[string]bool{}, used: map[string]bool{}, inlined: map[string]bool{}, entry: State{}}
	v.scc = P.sccOf(f)
	return v
}

// translate builds the verification conditions of one function.
func (v *VC) translate() (err error) {
	defer func() {
		if x := recover(); x != nil {
			switch x := x.(type) {
			case unsupported:
				err = fmt.Errorf("unsupported: %s", x.msg)
			case unresolved:
				err = fmt.Errorf("contract mentions unknown name %s", x.name)
			case string:
				err = fmt.Errorf("contract: %s", x)
			default:
				err = fmt.Errorf("internal: %v at %s", x, panicSite())
			}
		}
	}()
	fx := newFx(v, v.fn, nil)
	fx.reach = "true"
	v.alloc0 = v.fresh("alloc", "Int")
	v.assert("(>= " + v.alloc0 + " 1)")
	fx.st = State{"alloc": v.alloc0}
	v.entry["alloc"] = v.alloc0
	for i, p := range v.fn.Params {
		n := p.Name()
		if n == "" || n == "_" {
			n = fmt.Sprintf("arg%d", i)
		}
		x := fx.havoc("p_"+n, p.Type())
		fx.vals[p] = x
		fx.args[n] = x
	}
	for i, n := range paramNames(v.fn, v.con) {
		fx.args[n] = fx.vals[v.fn.Params[i]]
	}
	for _, fv := range v.fn.FreeVars {
		x := fx.havoc("fv_"+fv.Name(), fv.Type())
		v.assume("true", "(not (= "+x.S+" 0))")
		fx.vals[fv] = x
	}
	if v.con != nil {
		for _, g := range v.con.Ghosts {
			t := v.u.specType(g.Type)
			v.items = append(v.items, Item{Text: fmt.Sprintf("(declare-const ghost_%s %s)", g.Name, v.u.sortOf(t))})
		}
	}
	v.look0 = func(n string) (Val, bool) {
		if x, ok := fx.args[n]; ok {
			return x, true
		}
		if x, ok := v.ghosts()[n]; ok {
			return x, true
		}
		for _, fv := range v.fn.FreeVars {
			if fv.Name() == n {
				pt := fv.Type().Underlying().(*types.Pointer)
				return Val{T: pt.Elem(), LV: fx.derefLV(fx.vals[fv], pt.Elem())}, true
			}
		}
		return Val{}, false
	}
	ev := &Eval{u: v.u, fx: fx, st: v.entry, old: v.entry, look: v.look0, oldLook: v.look0, vars: map[string]Val{}}
	if v.con != nil {
		for _, r := range v.con.Requires {
			if v.u.tagOn(r.Tags) {
				v.assert(ev.eval(r.E).S)
			}
		}
		for _, m := range v.con.Modifies {
			if v.u.tagOn(m.Tags) {
				v.mods = append(v.mods, fx.targets(ev, m.E)...)
			}
		}
		if d := v.measure(v.con); d != nil {
			for _, e := range d.E.Args {
				m := v.name2("measure", "Int", ev.eval(e).S)
				v.meas = append(v.meas, m)
				if v.cfg.kind("rec") {
					v.oblige("rec", "measure "+e.String()+" is non-negative", "true", "(<= 0 "+m+")", v.fn.Pos(), true)
				}
			}
		}
	}
	fx.run("true", fx.st.clone())
	for _, r := range fx.rets {
		v.exits = append(v.exits, r.reach)
		fx.st = r.st
		fx.reach = r.reach
		for _, m := range v.P.mutexes {
			if _, ok := v.sorts["Lock_"+m]; ok {
				fx.safe("lock", m+" released on return", fmt.Sprintf("(= %s %s)", fx.get(r.st, "Lock_"+m), fx.lockTerm(m, v.entry)), v.fn.Pos())
			}
		}
		for i, rv := range r.vals {
			if sl, ok := v.fn.Signature.Results().At(i).Type().Underlying().(*types.Slice); ok && v.S.pubComp("E_"+tkey(sl.Elem())) {
				pc := v.comp("Pub", "Bool", true)
				v.oblige("pub", "the result is not published memory", r.reach, fmt.Sprintf("(or (= (scap %s) 0) (not %s))", rv.S, fx.sel(r.st, pc, "(sref "+rv.S+")")), v.fn.Pos(), v.cfg.kind("pub"))
			}
		}
		if v.con == nil {
			continue
		}
		ee := &Eval{u: v.u, fx: fx, st: r.st, old: v.entry, look: v.look0, oldLook: v.look0, vars: fx.resultVars(v.fn.Signature, r.vals)}
		for _, c := range v.con.Uses {
			if v.u.tagOn(c.Tags) {
				if s, ok := try(func() string { return ee.eval(c.E).S }); ok {
					v.assume(r.reach, s)
				}
			}
		}
		for _, c := range v.con.Ensures {
			if !v.u.tagOn(c.Tags) {
				continue
			}
			v.oblige("post", c.Text, r.reach, ee.eval(c.E).S, v.fn.Pos(), v.cfg.clause(c.Tags))
		}
	}
	return nil
}

// roots lists the functions a property run verifies.
func roots(P *Program, S *SpecFile, run *Run) []string {
	set := map[string]bool{}
	pc := S.Props[run.ID]
	all := run.Base
	if pc != nil {
		for _, f := range pc.Funcs {
			if f == "*" {
				all = true
				continue
			}
			set[f] = true
		}
	}
	for n, c := range S.Contracts {
		if P.Funcs[n] == nil || c.Inline || c.Trusted != "" || c.Extern {
			continue
		}
		if all {
			set[n] = true
			continue
		}
		for _, cl := range c.Ensures {
			if run.clause(cl.Tags) {
				set[n] = true
			}
		}
	}
	if all {
		for n, f := range P.Funcs {
			if f.Parent() != nil || f.Blocks == nil || f.Name() == "init" {
				continue
			}
			c := S.Contracts[n]
			if c != nil && (c.Inline || c.Trusted != "") {
				continue
			}
			if c == nil && !exportedFn(f) {
				continue
			}
			set[n] = true
		}
	} else {
		// callers must establish the preconditions tagged with the property
		tagged := map[string]bool{}
		for n, c := range S.Contracts {
			for _, cl := range c.Requires {
				if run.clause(cl.Tags) {
					tagged[n] = true
				}
			}
		}
		if len(tagged) > 0 {
			for n, f := range P.Funcs {
				for g := range P.callees[f] {
					if tagged[P.Names[g]] {
						set[n] = true
					}
				}
			}
		}
	}
	var out []string
	for n := range set {
		c := S.Contracts[n]
		if P.Funcs[n] == nil || P.Funcs[n].Blocks == nil || c != nil && (c.Inline || c.Trusted != "") {
			continue
		}
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}

func exportedFn(f *ssa.Function) bool {
	n := f.Name()
	return n[0] >= 'A' && n[0] <= 'Z'
}

func loadSpecs(dir string) (S *SpecFile, err error) {
	defer func() {
		if x := recover(); x != nil {
			err = fmt.Errorf("%v", x)
		}
	}()
	S = newSpec()
	fs, _ := filepath.Glob(filepath.Join(dir, "*.vc"))
	sort.Strings(fs)
	for _, f := range fs {
		S.load(f)
	}
	return S, nil
}

func verifyFunc(P *Program, S *SpecFile, run *Run, name string, opt *SolveOpt) *FuncResult {
	t0 := time.Now()
	v := newVC(P, S, run, name)
	fr := &FuncResult{Name: name, v: v}
	if err := v.translate(); err != nil {
		fr.Err = err.Error()
		return fr
	}
	v.solve(fr, opt)
	fr.Trust = sortedKeys(v.trust)
	fr.Used = sortedKeys(v.used)
	fr.Inlined = sortedKeys(v.inlined)
	fr.Time = time.Since(t0).Seconds()
	return fr
}

func verifyAll(P *Program, S *SpecFile, run *Run, names []string, opt *SolveOpt) []*FuncResult {
	out := make([]*FuncResult, len(names))
	sem := make(chan bool, opt.Par)
	var wg sync.WaitGroup
	// longest first
	order := make([]int, len(names))
	for i := range order {
		order[i] = i
	}
	size := func(n string) int {
		k := 0
		for _, b := range P.Funcs[n].Blocks {
			k += len(b.Instrs)
		}
		return k
	}
	sort.SliceStable(order, func(a, b int) bool { return size(names[order[a]]) > size(names[order[b]]) })
	for _, i := range order {
		wg.Add(1)
		sem <- true
		go func(i int) {
			defer wg.Done()
			defer func() { <-sem }()
			out[i] = verifyFunc(P, S, run, names[i], opt)
			if opt.Verbose {
				fmt.Fprintln(os.Stderr, summary(out[i]))
			}
		}(i)
	}
	wg.Wait()
	return out
}

func summary(r *FuncResult) string {
	if r.Err != "" {
		return fmt.Sprintf("%-40s ERROR %s", r.Name, r.Err)
	}
	ok, bad := 0, 0
	for _, o := range r.Obls {
		if o.Res == "valid" {
			ok++
		} else {
			bad++
		}
	}
	return fmt.Sprintf("%-40s %3d valid %3d failed  %.1fs q=%d%s", r.Name, ok, bad, r.Time, r.Queries, map[bool]string{true: " VACUOUS " + r.Vacuous}[r.Vacuous != ""])
}

// panicSite names the place of an internal failure.
func panicSite() string {
	var pcs [32]uintptr
	fs := runtime.CallersFrames(pcs[:runtime.Callers(3, pcs[:])])
	for {
		f, more := fs.Next()
		if strings.HasPrefix(f.Function, "main.") && !strings.Contains(f.Function, "panicSite") && !strings.Contains(f.Function, ".func") {
			return fmt.Sprintf("%s:%d", filepath.Base(f.File), f.Line)
		}
		if !more {
			return "?"
		}
	}
}
