package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"strings"
)

func main() {
	repo := flag.String("repo", "/repo", "repository")
	specs := flag.String("specs", "/verif/specs", "contracts")
	root := flag.String("root", "/verif", "framework directory")
	prop := flag.String("prop", "C01", "property")
	fn := flag.String("fn", "", "only these functions (;-separated)")
	dump := flag.String("dump", "", "directory for solver scripts")
	tmo := flag.Int("t", 5000, "query timeout ms")
	retry := flag.Int("retry", 20, "retry seconds")
	noretry := flag.Bool("noretry", false, "")
	verbose := flag.Bool("v", false, "")
	par := flag.Int("par", 8, "")
	flag.Parse()
	if flag.Arg(0) == "check" {
		os.Exit(check(*root, *repo, flag.Arg(1), *par))
	}
	if flag.Arg(0) == "replay" {
		os.Exit(replay(*root, *repo, flag.Arg(1)))
	}
	P, err := loadProgram(*repo, *specs)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	P.analyse()
	switch flag.Arg(0) {
	case "ssa":
		P.Funcs[flag.Arg(1)].WriteTo(os.Stdout)
		for _, a := range P.Funcs[flag.Arg(1)].AnonFuncs {
			a.WriteTo(os.Stdout)
		}
		return
	case "names":
		b, _ := json.MarshalIndent(P.table, "", " ")
		fmt.Println(string(b))
		return
	case "list":
		for _, n := range P.funcNames() {
			fmt.Println(n)
		}
		return
	}
	S, err := loadSpecs(*specs)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	S.addReplacers(P)
	run := newRun(S, *prop)
	names := roots(P, S, run)
	if *fn != "" {
		names = strings.Split(*fn, ";")
	}
	opt := &SolveOpt{Par: *par, TmoMS: *tmo, RetryS: *retry, NoRetry: *noretry, Dump: *dump, Verbose: true}
	var rs []*FuncResult
	if *fn != "" && !strings.HasPrefix(*fn, "lemma") {
		tryAuto(P, S, run)
	}
	if *fn == "" || strings.HasPrefix(*fn, "lemma") {
		rs = verifyLemmas(P, S, run, opt)
		for _, r := range rs {
			fmt.Println(summary(r))
		}
		if strings.HasPrefix(*fn, "lemma") {
			names = nil
		}
	}
	rs = append(rs, verifyAll(P, S, run, names, opt)...)
	for _, r := range rs {
		for _, d := range r.Dropped {
			fmt.Println(r.Name, "dropped invariant:", d)
		}
		for _, o := range r.Obls {
			if o.Res != "valid" {
				fmt.Printf("FAIL %s %s [%s] %s (%s %s)\n", o.Name, o.Pos, o.Kind, o.Text, o.Res, o.Out)
			} else if *verbose {
				fmt.Printf("ok   %s %s [%s] %s (%s %.2fs)\n", o.Name, o.Pos, o.Kind, o.Text, o.By, o.Time)
			}
		}
	}
}
