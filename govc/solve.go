package main

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type SolveOpt struct {
	Par     int
	TmoMS   int // per query, incremental
	RetryS  int // per back end, standalone
	Verbose bool
	Dump    string
	Seed    int
	NoRetry bool
	// no further retries after this moment
	Deadline time.Time
}

func (o *SolveOpt) late() bool { return !o.Deadline.IsZero() && time.Now().After(o.Deadline) }

var solverTime int64 // microseconds over all back ends
var queryCount int64

const z3opts = `(set-option :auto_config false)
(set-option :smt.mbqi false)
(set-option :smt.relevancy 0)
(set-option :smt.case_split 3)
(set-option :smt.qi.eager_threshold 100)
(set-option :smt.delay_units true)
(set-option :smt.arith.solver 2)
`

type session struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	log *os.File
}

func newSession(tmo, seed int, dump string) (*session, error) {
	s := &session{cmd: exec.Command("z3", "-in", "-smt2", "-memory:3000")}
	var err error
	s.in, err = s.cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	o, err := s.cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	s.out = bufio.NewReaderSize(o, 1<<16)
	if err := s.cmd.Start(); err != nil {
		return nil, err
	}
	if dump != "" {
		s.log, _ = os.Create(dump)
	}
	s.send(z3opts)
	s.send(fmt.Sprintf("(set-option :timeout %d)\n(set-option :smt.random_seed %d)\n", tmo, seed))
	return s, nil
}

func (s *session) send(t string) {
	io.WriteString(s.in, t)
	if s.log != nil {
		io.WriteString(s.log, t)
	}
}

func (s *session) close() {
	s.in.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
	if s.log != nil {
		s.log.Close()
	}
}

func (s *session) answer() (string, error) {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		l = strings.TrimSpace(l)
		switch l {
		case "sat", "unsat", "unknown", "timeout":
			return l, nil
		}
		if strings.HasPrefix(l, "(error") {
			return "", fmt.Errorf("%s", l)
		}
	}
}

func (s *session) check(extra string) (string, error) {
	t0 := time.Now()
	s.send("(push)\n" + extra + "(check-sat)\n(pop)\n")
	r, err := s.answer()
	atomic.AddInt64(&solverTime, time.Since(t0).Microseconds())
	atomic.AddInt64(&queryCount, 1)
	return r, err
}

func neg(o *Obl) string {
	return fmt.Sprintf("(assert %s)(assert (not %s))\n", o.Reach, o.Cond)
}

func (v *VC) litText() string {
	var b strings.Builder
	for _, c := range v.cands {
		fmt.Fprintf(&b, "(declare-const %s Bool)(assert %s)\n", c.Lit, map[bool]string{true: "(not " + c.Lit + ")", false: c.Lit}[c.Dead])
	}
	return b.String()
}

// pass walks the items; decide says whether an obligation is to be checked, done receives the answer.
func (v *VC) pass(fr *FuncResult, opt *SolveOpt, pre string, decide func(*Obl) bool, done func(*Obl, string)) error {
	dump := ""
	if opt.Dump != "" {
		dump = filepath.Join(opt.Dump, sanitize(v.name)+".smt2")
	}
	s, err := newSession(opt.TmoMS, opt.Seed, dump)
	if err != nil {
		return err
	}
	defer func() { s.close() }()
	// what the session assumes so far: a time limit that strikes between two queries spoils the session, so it is set up anew
	var hist strings.Builder
	assume := func(t string) {
		hist.WriteString(t)
		s.send(t)
	}
	check := func(q string) (string, error) {
		for try := 0; ; try++ {
			r, err := s.check(q)
			if err == nil || !strings.Contains(err.Error(), "canceled") {
				return r, err
			}
			n, err := newSession(opt.TmoMS, opt.Seed, "")
			if err != nil {
				return "", err
			}
			s.close()
			s = n
			s.send(hist.String())
			if try == 2 {
				return "unknown", nil
			}
		}
	}
	assume(pre)
	assume(v.litText())
	for _, it := range v.items {
		if it.Obl == nil {
			assume(it.Text + "\n")
			continue
		}
		o := it.Obl
		if o.Cand != nil && o.Cand.Dead {
			continue
		}
		if decide(o) {
			t0 := time.Now()
			r, err := check(neg(o))
			fr.Queries++
			if err != nil {
				return fmt.Errorf("%s: %v", o.Name, err)
			}
			o.Time = time.Since(t0).Seconds()
			if o.Time > 0.3 && os.Getenv("GOVC_DROPS") == "2" {
				fmt.Fprintf(os.Stderr, "slow %.1f %s %s %s\n", o.Time, r, o.Name, o.Text)
			}
			done(o, r)
		}
		if o.Cand == nil && o.Var == nil {
			assume(fmt.Sprintf("(assert (=> %s %s))\n", o.Reach, o.Cond))
		}
	}
	// vacuity
	if fr.Vacuous == "?" {
		fr.Vacuous = ""
		reach := v.exits
		if len(reach) == 0 {
			reach = v.headers
		}
		if len(reach) > 0 {
			alive := false
			for i, e := range reach {
				if i > 6 {
					break
				}
				s.send("(set-option :timeout 500)\n")
				r, err := check("(assert " + e + ")\n")
				if err != nil {
					return err
				}
				if r != "unsat" {
					alive = true
					break
				}
			}
			if !alive {
				fr.Vacuous = "no exit of " + v.name + " is reachable under its assumptions"
			}
		}
	}
	return nil
}

func (v *VC) solve(fr *FuncResult, opt *SolveOpt) {
	pre := v.u.prelude()
	fail := func(err error) { fr.Err = "solver: " + err.Error() }
	// Houdini over loop invariant candidates
	tot := 0
	second, tries := false, 0
	var retry []*Obl
	var err error
	obls0 := len(fr.Obls)
again:
	for round := 0; len(v.cands) > 0; round++ {
		if round == 60 {
			fail(fmt.Errorf("loop invariants do not settle"))
			return
		}
		dropped := 0
		o2 := *opt
		if o2.TmoMS > 4000 {
			o2.TmoMS = 4000
		}
		err := v.pass(fr, &o2, pre, func(o *Obl) bool { return o.Cand != nil && !o.Cand.Dead && o.Cand.Why == "" }, func(o *Obl, r string) {
			if r == "unsat" {
				return
			}
			if (o.Cand.User || o.Cand.Bind && second && tries < 8) && !opt.NoRetry && !opt.late() {
				if !o.Cand.User {
					tries++
				}
				if by, _ := v.standalone(o, pre, opt); by != "" {
					return
				}
			}
			o.Cand.Why = o.Name + " (" + r + ")"
			dropped++
		})
		if err != nil {
			fail(err)
			return
		}
		for _, c := range v.cands {
			if c.Why != "" && !c.Dead {
				c.Dead = true
			}
		}
		tot += dropped
		if dropped == 0 {
			break
		}
	}
	for _, c := range v.cands {
		if c.Dead && (c.User || os.Getenv("GOVC_DROPS") != "") {
			fr.Dropped = append(fr.Dropped, c.Name+" ["+c.Why+"]")
		}
	}
	// variants already shown to work for a loop
	retry = nil
	fr.Vacuous = "?"
	err = v.pass(fr, opt, pre, func(o *Obl) bool {
		if o.Cand != nil {
			return false
		}
		if o.Var != nil {
			return !o.Var.Bad
		}
		return o.Prove
	}, func(o *Obl, r string) {
		if o.Var != nil {
			if r != "unsat" {
				o.Var.Bad = true
				o.Out = r
			}
			o.Res = map[bool]string{true: "valid", false: r}[r == "unsat"]
			o.By = "z3"
			return
		}
		if r == "unsat" {
			o.Res, o.By = "valid", "z3"
		} else {
			o.Res = r
			retry = append(retry, o)
		}
		fr.Obls = append(fr.Obls, o)
	})
	if err != nil {
		fail(err)
		return
	}
	if len(retry) > 0 && !second && !opt.late() {
		// candidates may have been lost to wrong ones assumed along with them: give those that held initially a second chance
		second = true
		n := 0
		for _, c := range v.cands {
			if c.Dead && strings.Contains(c.Why, "/inv-step") {
				c.Dead, c.Why = false, ""
				n++
			}
		}
		if n > 0 {
			fr.Obls = fr.Obls[:obls0]
			fr.Dropped = nil
			for _, cs := range v.vars {
				for _, c := range cs {
					c.Bad = false
				}
			}
			goto again
		}
	}
	for i, o := range retry {
		if opt.NoRetry || opt.late() || i >= 12 {
			break
		}
		if by, out := v.standalone(o, pre, opt); by != "" {
			o.Res, o.By = "valid", by
		} else {
			o.Out = out
		}
	}
	// loop invariants that survived count as discharged obligations
	for _, it := range v.items {
		if o := it.Obl; o != nil && o.Cand != nil && !o.Cand.Dead {
			o.Res, o.By = "valid", "z3"
			fr.Obls = append(fr.Obls, o)
		}
	}
	// termination: one obligation per loop
	for _, k := range sortedKeys(v.vars) {
		var best *VarCand
		for _, c := range v.vars[k] {
			if !c.Bad && best == nil {
				best = c
			}
		}
		o := &Obl{Name: fmt.Sprintf("%s/term#%s", v.name, k[:strings.Index(k, "@")]), Kind: "term", Fn: v.name, Text: "loop terminates", Prove: true}
		if best == nil && !opt.NoRetry && !opt.late() {
			// retry the candidates with the other back ends
			for _, c := range v.vars[k] {
				ok := true
				by := ""
				n := 0
				for _, it := range v.items {
					if x := it.Obl; x != nil && x.Var == c {
						n++
						b, _ := v.standalone(x, pre, &SolveOpt{RetryS: 5})
						if b == "" {
							ok = false
							break
						}
						by = b
					}
				}
				if ok && n > 0 {
					best = c
					o.By = by
					break
				}
			}
		}
		if best != nil {
			o.Res = "valid"
			if o.By == "" {
				o.By = "z3"
			}
			o.Text = "loop terminates, variant " + best.Text
		} else {
			o.Res = "unknown"
			var ts []string
			for _, c := range v.vars[k] {
				ts = append(ts, c.Text)
			}
			o.Text = "loop terminates: no candidate variant works (tried " + strings.Join(ts, "; ") + ")"
		}
		fr.Obls = append(fr.Obls, o)
	}
}

var (
	guardRE = regexp.MustCompile(`^\(assert \(=> (R!\d+) `)
	defRE   = regexp.MustCompile(`^\(assert \(= ([A-Za-z_][\w.@$]*!\d+) `)
	symRE   = regexp.MustCompile(`[A-Za-z_][\w.@$]*!\d+`)
)

// script renders one obligation as a standalone problem. Only facts of blocks from which the target can be reached
// are kept, and only the definitions these mention; leaving facts out can lose a proof but not make one.
func (v *VC) script(target *Obl, pre string) string {
	var lines []string
	for _, it := range v.items {
		if it.Obl == nil {
			lines = append(lines, it.Text)
			continue
		}
		o := it.Obl
		if o == target {
			break
		}
		if o.Cand == nil && o.Var == nil {
			lines = append(lines, fmt.Sprintf("(assert (=> %s %s))", o.Reach, o.Cond))
		}
	}
	goal := neg(target)
	on := map[string]bool{target.Reach: true}
	for i := len(lines) - 1; i >= 0; i-- {
		if d := defRE.FindStringSubmatch(lines[i]); d != nil && on[d[1]] {
			for _, m := range symRE.FindAllString(lines[i], -1) {
				if strings.HasPrefix(m, "R!") {
					on[m] = true
				}
			}
		}
	}
	need := map[string]bool{}
	use := func(t string) {
		for _, n := range symRE.FindAllString(t, -1) {
			need[n] = true
		}
	}
	use(goal)
	keep := make([]bool, len(lines))
	for i := len(lines) - 1; i >= 0; i-- {
		l := lines[i]
		if g := guardRE.FindStringSubmatch(l); g != nil {
			if on[g[1]] {
				keep[i] = true
				use(l)
			}
			continue
		}
		if d := defRE.FindStringSubmatch(l); d != nil {
			n := d[1]
			if need[n] || on[n] {
				keep[i] = true
				use(l)
			}
			continue
		}
		keep[i] = true
		if !strings.HasPrefix(l, "(declare-") {
			use(l)
		}
	}
	var b strings.Builder
	b.WriteString(pre)
	b.WriteString(v.litText())
	for i, l := range lines {
		if keep[i] {
			b.WriteString(l + "\n")
		}
	}
	b.WriteString(goal)
	b.WriteString("(check-sat)\n")
	return b.String()
}

var retrySem = make(chan bool, 8)

// standalone tries the other back ends on one obligation.
func (v *VC) standalone(o *Obl, pre string, opt *SolveOpt) (by, out string) {
	sc := v.script(o, pre)
	if opt.Dump != "" {
		os.WriteFile(filepath.Join(opt.Dump, sanitize(o.Name)+".smt2"), []byte(sc), 0o644)
	}
	return runBackends(sc, opt.RetryS)
}

type backend struct {
	name string
	args []string
	opts string
}

var backends = []backend{
	{"z3", []string{"z3", "-in", "-smt2", "-memory:4000"}, z3opts},
	{"z3", []string{"z3", "-in", "-smt2", "-memory:4000"}, strings.Replace(z3opts, "relevancy 0", "relevancy 2", 1)},
	{"z3-new", []string{"z3-new", "-in", "-smt2", "-memory:4000"}, "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n"},
	{"cvc5", []string{"cvc5", "--lang=smt2", "-q"}, "(set-logic ALL)\n"},
}

var constArr = regexp.MustCompile(`\(\(as const \(Array (\w+) (\w+)\)\) ([a-z]\w*|\([^()]*\))\)`)

// noConstArr names constant arrays over non-literal values, which cvc5 does not read.
func noConstArr(sc string) string {
	seen := map[string]bool{}
	var b strings.Builder
	for _, l := range strings.SplitAfter(sc, "\n") {
		l2 := constArr.ReplaceAllStringFunc(l, func(m string) string {
			g := constArr.FindStringSubmatch(m)
			if g[3] == "true" || g[3] == "false" {
				return m
			}
			n := "carr!" + g[1] + g[2] + sanitize(g[3])
			if !seen[n] {
				seen[n] = true
				fmt.Fprintf(&b, "(declare-const %s (Array %s %s))(assert (forall ((i %s)) (! (= (select %s i) %s) :pattern ((select %s i)))))\n", n, g[1], g[2], g[1], n, g[3], n)
			}
			return n
		})
		b.WriteString(l2)
	}
	return b.String()
}

func runBackends(sc string, secs int) (string, string) {
	if secs <= 0 {
		secs = 20
	}
	retrySem <- true
	defer func() { <-retrySem }()
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(secs)*time.Second)
	defer cancel()
	type ans struct{ by, out string }
	ch := make(chan ans, len(backends))
	var wg sync.WaitGroup
	for _, b := range backends {
		wg.Add(1)
		go func(b backend) {
			defer wg.Done()
			cmd := exec.CommandContext(ctx, b.args[0], b.args[1:]...)
			text := b.opts + sc
			if b.name == "cvc5" {
				text = b.opts + noConstArr(sc)
			}
			cmd.Stdin = strings.NewReader(text)
			var ob bytes.Buffer
			cmd.Stdout = &ob
			t0 := time.Now()
			cmd.Run()
			atomic.AddInt64(&solverTime, time.Since(t0).Microseconds())
			atomic.AddInt64(&queryCount, 1)
			ch <- ans{b.name, strings.TrimSpace(ob.String())}
		}(b)
	}
	go func() { wg.Wait(); close(ch) }()
	var outs []string
	for a := range ch {
		first := a.out
		if i := strings.IndexByte(first, '\n'); i >= 0 {
			first = first[:i]
		}
		if first == "unsat" {
			cancel()
			return a.by, ""
		}
		if first == "" {
			first = "timeout"
		}
		outs = append(outs, a.by+": "+first)
	}
	return "", strings.Join(outs, "; ")
}
