// Command oracle looks for an input on which the real code breaks a property.
//
// It exercises the exported API only. It is run when a proof obligation failed, to turn the failure into a
// concrete replay, and for the parts of a property that are labelled bounded.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"sync"
	"time"
)

type failure struct {
	Key    string `json:"key"`
	What   string `json:"what"`
	Input  any    `json:"input"`
	Replay string `json:"replay"`
}

type output struct {
	Runs     int      `json:"runs"`
	Distinct int      `json:"distinct"`
	Rule     string   `json:"rule"`
	Samples  []string `json:"samples"`
	Fail     *failure `json:"fail"`
}

// ctx is handed to a property: it draws inputs from it and reports what it tried.
type ctx struct {
	*rand.Rand
	i       int      // number of this round
	seeds   []string // byte strings suggested by the verifier
	desc    string   // description of the current case
	mu      sync.Mutex
	status  *os.File
	shallow bool // no recursive wildcards
	fold    bool // names are compared without letter case
}

// try notes the call about to be made, for the report.
func (c *ctx) try(f string, a ...any) {
	c.mu.Lock()
	c.desc = fmt.Sprintf(f, a...)
	if c.status != nil {
		d := c.desc
		if len(d) > 4000 {
			d = d[:4000]
		}
		c.status.Truncate(0)
		c.status.WriteAt([]byte(d), 0)
	}
	c.mu.Unlock()
}

type bad struct{ what string }

// failf ends the round with a violation.
func (c *ctx) failf(f string, a ...any) {
	panic(bad{fmt.Sprintf(f, a...)})
}

type property struct {
	rule string
	run  func(c *ctx)
}

var props = map[string]property{}

func main() {
	prop := flag.String("prop", "", "property")
	seed := flag.Int64("seed", 1, "seed")
	budget := flag.Float64("budget", 20, "seconds")
	seedsFile := flag.String("seeds", "", "suggested byte strings")
	knownFile := flag.String("known", "", "keys of known findings")
	statusFile := flag.String("status", "", "file that holds the case being tried")
	one := flag.Int("round", -1, "replay this round only")
	flag.Parse()
	p, ok := props[*prop]
	out := output{Rule: p.rule}
	if !ok {
		out.Rule = "no executable oracle for " + *prop
		emit(&out)
		return
	}
	var seeds []string
	load(*seedsFile, &seeds)
	var known []string
	load(*knownFile, &known)
	isKnown := map[string]bool{}
	for _, k := range known {
		isKnown[k] = true
	}
	var st *os.File
	if *statusFile != "" {
		st, _ = os.Create(*statusFile)
	}
	end := time.Now().Add(time.Duration(*budget * float64(time.Second)))
	distinct := map[string]bool{}
	from, step := 0, 1
	if *one >= 0 {
		from = *one
	}
	for i := from; time.Now().Before(end) || i < 50; i += step {
		c := &ctx{Rand: rand.New(rand.NewSource(*seed*1000003 + int64(i))), i: i, seeds: seeds, status: st}
		f := round(p, c)
		out.Runs++
		if len(distinct) < 1<<20 {
			distinct[c.desc] = true
		}
		if len(out.Samples) < 3 && i%17 == 3 {
			out.Samples = append(out.Samples, clip(c.desc))
		}
		if f != nil && !isKnown[f.Key] {
			f.Replay = fmt.Sprintf("oracle -prop %s -seed %d -round %d", *prop, *seed, i)
			out.Fail = f
			break
		}
		if *one >= 0 {
			break
		}
	}
	out.Distinct = len(distinct)
	emit(&out)
}

func clip(s string) string {
	if len(s) > 400 {
		return s[:400] + "..."
	}
	return s
}

func load(file string, v any) {
	if file == "" {
		return
	}
	b, _ := os.ReadFile(file)
	json.Unmarshal(b, v)
}

func emit(o *output) {
	b, _ := json.Marshal(o)
	os.Stdout.Write(append(b, '\n'))
}

func round(p property, c *ctx) *failure {
	done := make(chan *failure, 1)
	go func() {
		var f *failure
		defer func() {
			if x := recover(); x != nil {
				if b, ok := x.(bad); ok {
					f = &failure{Key: c.desc, What: clip(c.desc) + ": " + b.what, Input: c.desc}
				} else {
					f = &failure{Key: c.desc, What: fmt.Sprintf("%s: panic: %v", clip(c.desc), x), Input: c.desc + "\n" + string(debug.Stack())}
				}
			}
			done <- f
		}()
		p.run(c)
	}()
	limit := time.After(60 * time.Second)
	tick := time.NewTicker(500 * time.Millisecond)
	defer tick.Stop()
	for {
		why := ""
		select {
		case f := <-done:
			return f
		case <-limit:
			why = "no answer within 60 s"
		case <-tick.C:
			var m runtime.MemStats
			runtime.ReadMemStats(&m)
			if m.HeapAlloc > 2<<30 {
				why = "no answer while memory grows past 2 GiB"
			}
		}
		if why != "" {
			c.mu.Lock()
			defer c.mu.Unlock()
			return &failure{Key: c.desc, What: clip(c.desc) + ": " + why, Input: c.desc}
		}
	}
}
