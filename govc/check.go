package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// check decides one property on the current source and reports as the MANIFEST interface asks.

type oracleOut struct {
	Runs     int         `json:"runs"`
	Distinct int         `json:"distinct"`
	Rule     string      `json:"rule"`
	Samples  []string    `json:"samples"`
	Fail     *oracleFail `json:"fail"`
}

type oracleFail struct {
	Key    string          `json:"key"`
	What   string          `json:"what"`
	Input  json.RawMessage `json:"input"`
	Replay string          `json:"replay"`
}

type finding struct{ Prop, Key, Text string }

func knownFindings(file string) []finding {
	var fs []finding
	b, _ := os.ReadFile(file)
	for _, l := range strings.Split(string(b), "\n") {
		// finding: property=C15 key=<key> <what fails>
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		p := strings.SplitN(strings.TrimPrefix(l, "finding: "), " ", 3)
		if len(p) == 3 {
			fs = append(fs, finding{strings.TrimPrefix(p[0], "property="), strings.TrimPrefix(p[1], "key="), p[2]})
		}
	}
	return fs
}

func check(root, repo, prop string, par int) int {
	t0 := time.Now()
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	fail := func(err error) int {
		fmt.Println("ERROR", err)
		return 2
	}
	P, err := loadProgram(repo, filepath.Join(root, "specs"))
	if err != nil {
		return fail(err)
	}
	P.analyse()
	S, err := loadSpecs(filepath.Join(root, "specs"))
	if err != nil {
		return fail(err)
	}
	pc := S.Props[prop]
	if pc == nil {
		return fail(fmt.Errorf("no property %s in the specifications", prop))
	}
	S.addReplacers(P)
	run := newRun(S, prop)
	names := roots(P, S, run)
	opt := &SolveOpt{Par: par, TmoMS: 5000, RetryS: 20, Seed: seed, Deadline: t0.Add(330 * time.Second)}
	if tier == "thorough" {
		opt.TmoMS, opt.RetryS, opt.Deadline = 20000, 90, t0.Add(3000*time.Second)
	}
	var rs []*FuncResult
	rs = append(rs, verifyLemmas(P, S, run, opt)...)
	rs = append(rs, verifyAll(P, S, run, names, opt)...)

	type bad struct {
		Obligation string `json:"obligation"`
		Where      string `json:"where"`
		Kind       string `json:"kind"`
		Text       string `json:"text"`
		Verifier   string `json:"verifier"`
	}
	var bads []bad
	total, good := 0, 0
	by := map[string]int{}
	kinds := map[string]int{}
	trust := map[string]bool{}
	assumed := map[string]bool{}
	inl := map[string]bool{}
	var under []string
	var seeds []string
	for _, r := range rs {
		if r.Err != "" {
			total++
			bads = append(bads, bad{r.Name + "/translation", r.Name, "translation", "the function is within the verifier's reach", r.Err})
			continue
		}
		if r.Vacuous != "" {
			total++
			bads = append(bads, bad{r.Name + "/vacuity", r.Name, "vacuity", "the assumptions of the proof are satisfiable", r.Vacuous})
		}
		under = append(under, r.Name)
		for _, o := range r.Obls {
			total++
			kinds[o.Kind]++
			if o.Res == "valid" {
				good++
				by[o.By]++
				continue
			}
			bads = append(bads, bad{o.Name, o.Pos, o.Kind, o.Text, strings.TrimSpace(o.Res + " " + o.Out)})
			seeds = append(seeds, o.Model...)
		}
		for _, t := range r.Trust {
			trust[t] = true
		}
		for _, u := range r.Used {
			if c := S.Contracts[u]; c != nil {
				switch {
				case c.Trusted != "":
					trust["contract of "+u+": "+c.Trusted] = true
				case c.Extern:
					trust["library contract of "+u] = true
				default:
					assumed[u] = true
				}
			}
		}
		for _, u := range r.Inlined {
			inl[u] = true
		}
	}
	sort.Slice(bads, func(i, j int) bool { return bads[i].Obligation < bads[j].Obligation })

	cov := map[string]any{
		"obligations":              total,
		"discharged":               good,
		"checker_cmd":              "bin/check.sh " + prop,
		"trusted_base":             trustedBase(trust),
		"functions_under_contract": under,
		"inlined_functions":        sortedKeys(inl),
		"back_ends":                by,
		"obligation_kinds":         kinds,
		"solver_queries":           queryCount,
		"solver_seconds":           float64(solverTime) / 1e6,
		"source_files":             P.sourceHashes(),
	}
	assumptions := []string{}
	for _, a := range S.Assume[prop] {
		assumptions = append(assumptions, a)
	}
	for _, a := range S.Assume["*"] {
		assumptions = append(assumptions, a)
	}
	if prop != "C01" {
		assumptions = append(assumptions, "absence of run-time panics and the untagged (base) contract clauses are proved by the check of C01 on the same source and assumed here")
	}
	for _, t := range run.assumedTags() {
		if S.Props[t] != nil {
			assumptions = append(assumptions, "contract clauses tagged "+t+" are proved by the check of "+t+" on the same source and assumed here")
		} else {
			assumptions = append(assumptions, "contract clauses tagged "+t+" are assumed: they give names to what a function computes from its arguments (determinism), and no check proves them")
		}
	}
	violations := 0
	status := 0
	rdir := filepath.Join(root, "evidence", "replay")
	os.MkdirAll(rdir, 0o755)
	known := knownFindings(filepath.Join(root, "known-findings.txt"))
	if len(P.Renamed) > 0 {
		cov["names_mapped_back"] = P.Renamed
	}
	ev := map[string]any{"property": prop, "tier": tier, "seed": seed, "level": "proof", "coverage": cov, "assumptions": assumptions}
	var oo *oracleOut
	budget := 0
	if len(bads) > 0 {
		budget = 60
		if tier == "thorough" {
			budget = 300
		}
	} else if len(pc.Bounded) > 0 {
		budget = 20
		if tier == "thorough" {
			budget = 300
		}
	}
	hasKnown := false
	for _, k := range known {
		hasKnown = hasKnown || k.Prop == prop
	}
	if budget == 0 && hasKnown {
		budget = 1
	}
	if budget > 0 {
		oo, err = runOracle(root, repo, prop, seed, budget, known, seeds)
		if err != nil {
			fmt.Println("oracle:", err)
			if len(bads) == 0 {
				return 2
			}
		}
	}
	for _, k := range known {
		if k.Prop == prop {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.Text)
		}
	}
	if oo != nil && len(pc.Bounded) > 0 {
		cov["bounded"] = map[string]any{"parts": pc.Bounded, "label": "bounded, not proved", "evaluations": oo.Runs, "distinct_nontrivial": oo.Distinct, "rule": oo.Rule, "samples": oo.Samples}
	}
	if len(bads) > 0 || oo != nil && oo.Fail != nil {
		violations = 1
		status = 1
		rep := map[string]any{"property": prop, "failed_obligations": bads, "seeds": seeds}
		line := fmt.Sprintf("VIOLATION property=%s replay=", prop)
		file := filepath.Join(rdir, prop+".json")
		line += file
		if oo != nil && oo.Fail != nil {
			rep["failing_input"] = oo.Fail
			rep["how_to_replay"] = fmt.Sprintf("cd /verif && bin/replay.sh %s", file)
		} else {
			line += " no-failing-input-found"
			rep["failing_input"] = nil
		}
		b, _ := json.MarshalIndent(rep, "", " ")
		os.WriteFile(file, b, 0o644)
		for i, x := range bads {
			if i == 12 {
				fmt.Printf("... and %d more\n", len(bads)-12)
				break
			}
			fmt.Printf("failed obligation %s at %s: %s (%s)\n", x.Obligation, x.Where, x.Text, x.Verifier)
		}
		if oo != nil && oo.Fail != nil {
			fmt.Printf("failing input: %s\n", oo.Fail.What)
		}
		fmt.Println(line)
	}
	ev["violations"] = violations
	ev["wall_s"] = time.Since(t0).Seconds()
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(root, "evidence", prop+".json"), b, 0o644); err != nil {
		return fail(err)
	}
	fmt.Printf("%s: %d of %d obligations discharged over %d functions in %.1fs\n", prop, good, total, len(under), time.Since(t0).Seconds())
	return status
}

func (r *Run) assumedTags() []string {
	var ts []string
	for t := range r.Tags {
		if !r.Own[t] {
			ts = append(ts, t)
		}
	}
	sort.Strings(ts)
	return ts
}

func trustedBase(t map[string]bool) []string {
	out := []string{
		"govc: translation of go/ssa to verification conditions (memory model, loop and call rules)",
		"golang.org/x/tools/go/ssa and go/types (vendored), the Go compiler",
		"z3 4.8.12, z3-new, cvc5: an unsat answer of any of them is believed",
		"int and int64 are treated as mathematical integers",
	}
	return append(out, sortedKeys(t)...)
}

func buildOracle(root, repo, prop string) (tmp, bin string, err error) {
	tmp, err = os.MkdirTemp("", "verif-oracle-")
	if err != nil {
		return "", "", err
	}
	mod, err := os.ReadFile(filepath.Join(root, "oracle", "go.mod"))
	if err != nil {
		return tmp, "", err
	}
	mf := filepath.Join(tmp, "go.mod")
	os.WriteFile(mf, []byte(strings.Replace(string(mod), "=> /repo", "=> "+repo, 1)), 0o644)
	bin = filepath.Join(tmp, "oracle")
	build := func(flags ...string) error {
		b := exec.Command("go", append(append([]string{"build"}, flags...), "-modfile", mf, "-o", bin, ".")...)
		b.Dir = filepath.Join(root, "oracle")
		b.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off")
		if out, err := b.CombinedOutput(); err != nil {
			return fmt.Errorf("building the oracle: %v\n%s", err, out)
		}
		return nil
	}
	if prop == "C09" && build("-race") == nil {
		return tmp, bin, nil
	}
	return tmp, bin, build()
}

// runOracle builds the executable oracle against the current source and lets it look for a failing input.
func runOracle(root, repo, prop string, seed, budget int, known []finding, seeds []string) (*oracleOut, error) {
	tmp, bin, err := buildOracle(root, repo, prop)
	if tmp != "" {
		defer os.RemoveAll(tmp)
	}
	if err != nil {
		return nil, err
	}
	sf := filepath.Join(tmp, "seeds.json")
	sj, _ := json.Marshal(seeds)
	os.WriteFile(sf, sj, 0o644)
	var ks []string
	for _, k := range known {
		if k.Prop == prop {
			ks = append(ks, k.Key)
		}
	}
	kf := filepath.Join(tmp, "known.json")
	kj, _ := json.Marshal(ks)
	os.WriteFile(kf, kj, 0o644)
	// several searches side by side, each with its own stream of choices
	const par = 6
	res := make([]*oracleOut, par)
	errs := make([]error, par)
	var wg sync.WaitGroup
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(budget+90)*time.Second)
	defer cancel()
	for j := 0; j < par; j++ {
		wg.Add(1)
		go func(j int) {
			defer wg.Done()
			res[j], errs[j] = oneOracle(ctx, bin, tmp, prop, seed*par+j, budget, sf, kf)
			if res[j] != nil && res[j].Fail != nil {
				cancel()
			}
		}(j)
	}
	wg.Wait()
	sum := &oracleOut{}
	var lastErr error
	n := 0
	for j := range res {
		if res[j] == nil {
			lastErr = errs[j]
			continue
		}
		n++
		sum.Runs += res[j].Runs
		sum.Distinct += res[j].Distinct
		sum.Rule = res[j].Rule
		if len(sum.Samples) < 3 {
			sum.Samples = append(sum.Samples, res[j].Samples...)
		}
		if sum.Fail == nil {
			sum.Fail = res[j].Fail
		}
	}
	if sum.Fail == nil && lastErr != nil {
		return nil, lastErr
	}
	return sum, nil
}

func oneOracle(ctx context.Context, bin, tmp, prop string, seed, budget int, sf, kf string) (*oracleOut, error) {
	st := filepath.Join(tmp, fmt.Sprintf("status%d", seed))
	c := exec.CommandContext(ctx, bin, "-prop", prop, "-seed", fmt.Sprint(seed), "-budget", fmt.Sprint(budget), "-seeds", sf, "-known", kf, "-status", st)
	c.Dir = tmp
	c.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66")
	var eb bytes.Buffer
	c.Stderr = &eb
	out, err := c.Output()
	if err != nil {
		if ctx.Err() == nil && (strings.Contains(eb.String(), "fatal error:") || strings.Contains(eb.String(), "DATA RACE")) {
			// the run-time system stopped the program: stack overflow, concurrent map access, ...
			what := eb.String()
			if len(what) > 3000 {
				what = what[:3000]
			}
			d, _ := os.ReadFile(st)
			in, _ := json.Marshal(string(d) + "\n" + what)
			first := "data race"
			if i := strings.Index(what, "fatal error:"); i >= 0 {
				first = what[i:]
			}
			if i := strings.IndexByte(first, '\n'); i >= 0 {
				first = first[:i]
			}
			o := &oracleOut{Runs: 1, Distinct: 1}
			o.Fail = &oracleFail{Key: first, What: first + " on " + string(d), Input: in, Replay: fmt.Sprintf("oracle -prop %s -seed %d", prop, seed)}
			return o, nil
		}
		msg := eb.String()
		if len(msg) > 500 {
			msg = msg[:500]
		}
		return nil, fmt.Errorf("oracle: %v %s", err, msg)
	}
	var oo oracleOut
	if err := json.Unmarshal(out, &oo); err != nil {
		return nil, fmt.Errorf("oracle output: %v", err)
	}
	return &oo, nil
}

// replay runs the failing case recorded in a replay file on the current source.
func replay(root, repo, file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var r struct {
		Property string
		Seeds    []string
		Fail     *oracleFail                                          `json:"failing_input"`
		Bad      []struct{ Obligation, Where, Text, Verifier string } `json:"failed_obligations"`
	}
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Println(err)
		return 2
	}
	for _, o := range r.Bad {
		fmt.Printf("failed obligation %s at %s: %s (%s)\n", o.Obligation, o.Where, o.Text, o.Verifier)
	}
	if r.Fail == nil {
		fmt.Println("no failing input was found; run bin/check.sh", r.Property)
		return 1
	}
	tmp, bin, err := buildOracle(root, repo, r.Property)
	if tmp != "" {
		defer os.RemoveAll(tmp)
	}
	if err != nil {
		fmt.Println(err)
		return 2
	}
	sf := filepath.Join(tmp, "seeds.json")
	sj, _ := json.Marshal(r.Seeds)
	os.WriteFile(sf, sj, 0o644)
	c := exec.Command(bin, append(strings.Fields(r.Fail.Replay)[1:], "-seeds", sf)...)
	c.Stdout, c.Stderr = os.Stdout, os.Stderr
	c.Run()
	return 0
}
