package main

import (
	"crypto/sha256"
	"fmt"
	"path/filepath"
	"strings"
	"sync"
	"time"
)

// verifyLemmas proves the lemmas a property owns, each from the definitions and the lemmas before it.
func verifyLemmas(P *Program, S *SpecFile, run *Run, opt *SolveOpt) []*FuncResult {
	var out []*FuncResult
	var wg sync.WaitGroup
	sem := make(chan bool, opt.Par)
	tryAuto(P, S, run)
	for i, a := range S.Axioms {
		if a.Dead || !a.Lemma || !run.clause(a.Tags) {
			continue
		}
		fr := &FuncResult{Name: "lemma " + a.Name}
		out = append(out, fr)
		wg.Add(1)
		sem <- true
		go func(i int, a *Axiom) {
			defer wg.Done()
			defer func() { <-sem }()
			t0 := time.Now()
			defer func() {
				if x := recover(); x != nil {
					fr.Err = fmt.Sprint(x)
				}
				fr.Time = time.Since(t0).Seconds()
			}()
			for k, sc := range lemmaScripts(P, S, run, i, a) {
				o := &Obl{Name: fmt.Sprintf("lemma %s/case#%d", a.Name, k+1), Kind: "lemma", Fn: fr.Name, Text: a.E.String(), Pos: filepath.Base(a.Pos), Prove: true}
				t1 := time.Now()
				by, res := runBackends(sc, opt.RetryS)
				o.Time = time.Since(t1).Seconds()
				fr.Queries++
				if by != "" {
					o.Res, o.By = "valid", by
				} else {
					o.Res, o.Out = "unknown", res
				}
				fr.Obls = append(fr.Obls, o)
			}
		}(i, a)
	}
	wg.Wait()
	return out
}

// tryAuto proves the generated lemmas; one that has no proof is dropped, which is not a failure.
func tryAuto(P *Program, S *SpecFile, run *Run) {
	for i, a := range S.Axioms {
		if !a.Auto {
			continue
		}
		a.Dead = true
		if !run.clause(a.Tags) {
			continue
		}
		ok := true
		func() {
			defer func() {
				if recover() != nil {
					ok = false
				}
			}()
			for _, sc := range lemmaScripts(P, S, run, i, a) {
				by, _ := runBackends(sc, 4)
				ok = ok && by != ""
			}
		}()
		a.Dead = !ok
	}
}

func lemmaScripts(P *Program, S *SpecFile, run *Run, idx int, a *Axiom) []string {
	u := newUniv(P, S, run.Tags)
	u.upto = idx
	if len(a.Uses) > 0 {
		u.onlyLem = true
	}
	u.only = map[string]bool{}
	for _, x := range a.Uses {
		u.only[x] = true
	}
	ev := &Eval{u: u, vars: map[string]Val{}}
	var decl strings.Builder
	for _, p := range a.Vars {
		t := u.specType(p.Type)
		n := "c_" + p.Name
		fmt.Fprintf(&decl, "(declare-const %s %s)\n", n, u.sortOf(t))
		ev.vars[p.Name] = Val{T: t, S: n}
	}
	var body strings.Builder
	if a.Induct != nil {
		iv := &Eval{u: u, vars: map[string]Val{}, limAll: true}
		var ps []string
		for _, p := range a.Vars {
			t := u.specType(p.Type)
			ps = append(ps, fmt.Sprintf("(%s! %s)", p.Name, u.sortOf(t)))
			iv.vars[p.Name] = Val{T: t, S: p.Name + "!"}
		}
		m, mi := ev.eval(a.Induct).S, iv.eval(a.Induct).S
		pat := ""
		for _, t := range a.Trig {
			var xs []string
			for _, x := range t {
				xs = append(xs, iv.eval(x).S)
			}
			pat += " :pattern (" + strings.Join(xs, " ") + ")"
		}
		fmt.Fprintf(&body, "(assert (forall (%s) (! (=> (and (<= 0 %s) (< %s %s)) %s)%s)))\n", strings.Join(ps, " "), mi, mi, m, iv.eval(a.E).S, pat)
	}
	for k, h := range a.Hints {
		v := ev.eval(h)
		fmt.Fprintf(&body, "(declare-fun hint!%d (%s) Bool)(assert (hint!%d %s))\n", k, u.sortOf(v.T), k, v.S)
	}
	goal := ev.eval(a.E).S
	var conds []string
	for _, c := range a.Cases {
		conds = append(conds, ev.eval(c).S)
	}
	pre := u.prelude()
	var out []string
	mk := func(extra string) {
		out = append(out, pre+decl.String()+body.String()+extra+"(assert (not "+goal+"))\n(check-sat)\n")
	}
	if len(conds) == 0 {
		mk("")
	} else {
		var no []string
		for _, c := range conds {
			mk(strings.Join(no, "") + "(assert " + c + ")\n")
			no = append(no, "(assert (not "+c+"))\n")
		}
		mk(strings.Join(no, ""))
	}
	return out
}

// sourceHashes names the text that was verified.
func (P *Program) sourceHashes() map[string]string {
	m := map[string]string{}
	for f, b := range P.Src {
		h := sha256.Sum256(b)
		m[f] = fmt.Sprintf("%x", h[:8])
	}
	return m
}
