package main

import (
	"fmt"
	"math/rand"
	"sync"

	"github.com/netascode/xmldot"
)

func init() {
	props["C09"] = property{
		"8 goroutines query, edit, register and unregister with shared and new paths under the race detector; answers are compared with those of a single goroutine",
		func(c *ctx) {
			type job struct {
				d, p string
				v    any
			}
			var js []job
			var shared []string
			for k := 0; k < 4; k++ {
				shared = append(shared, c.path())
			}
			for k := 0; k < 6; k++ {
				d := c.doc()
				c.shallow = len(d.text) > 400
				p := c.path()
				switch c.Intn(4) {
				case 0:
					p = pick(c, shared)
				case 1:
					p = fmt.Sprintf("%s.q%d", p, c.Intn(1000))
				case 2:
					p = pick(c, []string{"a.-1", "a.b.0", "item.1.@id", "a.*|@sort", "**.b|@reverse", "a|@custom"})
				}
				js = append(js, job{d.text, p, c.value()})
			}
			c.try("jobs=%q", js)
			run := func(j job) [4]string {
				r := xmldot.Get(j.d, j.p)
				o := xmldot.DefaultOptions()
				o.CaseSensitive = false
				r2 := xmldot.GetWithOptions(j.d, j.p, o)
				s, e := xmldot.Set(j.d, j.p, j.v)
				s2, e2 := xmldot.Delete(j.d, j.p)
				xmldot.SetWithOptions(j.d, j.p, j.v, o)
				r.Map()
				r.Get(j.p)
				xmldot.Valid(j.d)
				return [4]string{fmt.Sprint(r), fmt.Sprint(r2), fmt.Sprint(s, e), fmt.Sprint(s2, e2)}
			}
			// sequential answers from a program state in which "custom" is not registered
			want := make([][4]string, len(js))
			for i, j := range js {
				want[i] = run(j)
			}
			seed := c.Int63()
			var wg sync.WaitGroup
			errs := make(chan string, 64)
			for g := 0; g < 8; g++ {
				wg.Add(1)
				go func(g int) {
					defer wg.Done()
					r := rand.New(rand.NewSource(seed + int64(g)))
					for k := 0; k < 12; k++ {
						switch r.Intn(5) {
						case 0:
							n := fmt.Sprintf("m%d", r.Intn(3))
							xmldot.RegisterModifier(n, xmldot.NewModifierFunc(n, func(x xmldot.Result) xmldot.Result { return x }))
						case 1:
							xmldot.UnregisterModifier(pick2(r, []string{"m0", "m1", "m2", "sort", "nosuch"}))
						case 2:
							xmldot.GetModifier(pick2(r, []string{"m0", "m1", "sort", ""}))
							xmldot.Get("<a>1</a>", fmt.Sprintf("a|@m%d", r.Intn(3)))
						default:
							i := r.Intn(len(js))
							if got := run(js[i]); got != want[i] {
								select {
								case errs <- fmt.Sprintf("concurrent run of %q gave %q, alone %q", js[i], got, want[i]):
								default:
								}
							}
							xmldot.Get(js[i].d, fmt.Sprintf("%s.z%d", js[i].p, r.Intn(100000)))
						}
					}
				}(g)
			}
			wg.Wait()
			select {
			case e := <-errs:
				c.failf("%s", e)
			default:
			}
		}}
}

func pick2[T any](r *rand.Rand, xs []T) T { return xs[r.Intn(len(xs))] }
