// Package conc runs mixes of library calls alone, again, in another order and
// at the same time: no call may tell what else runs or ran in the process.
package conc

import (
	"encoding/binary"
	"fmt"
	"sync"
	"testing"

	"pgregory.net/rapid"

	"vharness/vh"
)

func TestMain(m *testing.M) { vh.Main(m) }

// job is one call with its input; run returns a way to write down what the call returned.
type job struct {
	name string
	run  func() func() string
}

// src gives the bytes of an input.
type src struct {
	seed uint64
	at   int
}

func (s *src) bytes(n int) []byte {
	s.at++
	return vh.Expand(s.seed*1000+uint64(s.at), n)
}
func (s *src) u64() uint64     { return binary.LittleEndian.Uint64(s.bytes(8)) }
func (s *src) below(n int) int { return int(s.u64() % uint64(n)) }

// safely keeps a panic as a result: what is refused alone is refused together.
func safely(f func() func() string) (r func() string) {
	defer func() {
		if e := recover(); e != nil {
			text := fmt.Sprintf("panic: %v", e)
			r = func() string { return text }
		}
	}()
	return f()
}

// mix runs the jobs alone, again in another order, and together, and compares the results.
func mix(t vh.TB, jobs []job, order []int, workers int, cold bool) {
	n := len(jobs)
	var names []string
	for _, j := range jobs {
		names = append(names, j.name)
	}
	one, again, all := make([]func() string, n), make([]func() string, n), make([][]func() string, workers)
	want := make([]string, n)
	vh.Quietly(func() {
		sequence := func() {
			// alone
			for i, j := range jobs {
				one[i] = safely(j.run)
				want[i] = one[i]()
			}
			// again, in another order
			for _, i := range order {
				again[i] = safely(jobs[i].run)
			}
		}
		together := func() {
			// at the same time, each goroutine all of them from another start
			var wg, ready sync.WaitGroup
			start := make(chan struct{})
			for w := 0; w < workers; w++ {
				all[w] = make([]func() string, n)
				wg.Add(1)
				ready.Add(1)
				go func() {
					defer wg.Done()
					ready.Done()
					<-start
					for k := range jobs {
						i := order[(k+w*n/workers)%n]
						all[w][i] = safely(jobs[i].run)
					}
				}()
			}
			ready.Wait()
			close(start)
			wg.Wait()
		}
		if cold {
			together()
			sequence()
		} else {
			sequence()
			together()
		}
	})
	// only now look at all the results: no later call may have changed an earlier one's
	for r, rs := range append([][]func() string{one, again}, all...) {
		for i, f := range rs {
			if got := f(); got != want[i] {
				how := []string{"first, looked at later", "in another order"}
				what := "together with the others"
				if r < len(how) {
					what = how[r]
				}
				t.Fatalf("valid %s, run %s, gives %.300s, alone %.300s; the calls: %v", jobs[i].name, what, got, want[i], names)
			}
		}
	}
}

// Every kind of call is made for the first time in the process by several
// goroutines: what is set up at first use is set up once.
func TestC45_firstUse(t *testing.T) {
	vh.Sweep(t, len(kinds), func(t *testing.T, c *vh.Case, i int) {
		k := kinds[i]
		var jobs []job
		for s := uint64(0); s < 2; s++ {
			jobs = append(jobs, job{k.name, k.make(&src{seed: s})})
		}
		c.Nontrivial("first use", k.name)
		c.Label("first use")
		mix(t, jobs, []int{0, 1}, 4, true)
	})
}

func TestC45_together(t *testing.T) {
	vh.Check(t, 240, 4200, func(rt *rapid.T, c *vh.Case) {
		n := rapid.IntRange(2, 10).Draw(rt, "jobs")
		slowOnes := 0
		var jobs []job
		var names []string
		var inputs []int
		// few inputs, and often many jobs of one kind: that is where state would be shared
		few := rapid.Bool().Draw(rt, "one kind")
		kind := vh.Even(0, len(kinds)-1).Draw(rt, "kind")
		for i := 0; i < n; i++ {
			if !few && i > 0 {
				kind = vh.Even(0, len(kinds)-1).Draw(rt, "kind")
			}
			k := kinds[kind]
			if slow[k.name] {
				if slowOnes++; slowOnes > 1+boolInt(few) {
					continue
				}
			}
			seed := vh.Even(0, 1<<20).Draw(rt, "input")
			j := job{k.name, k.make(&src{seed: uint64(seed)})}
			jobs = append(jobs, j)
			inputs = append(inputs, seed)
			names = append(names, j.name)
			c.Label("%s", j.name)
		}
		n = len(jobs)
		workers := vh.OneOf([]int{2, 4, 8}).Draw(rt, "goroutines")
		if slowOnes > 0 {
			workers = 2
		}
		order := rapid.Permutation(seq(n)).Draw(rt, "order")
		c.Nontrivial(names, inputs, order, workers)
		c.Sample("%d goroutines: %v", workers, names)

		mix(rt, jobs, order, workers, rapid.Bool().Draw(rt, "together first"))
	})
}

func boolInt(b bool) int {
	if b {
		return 1
	}
	return 0
}

func seq(n int) (s []int) {
	for i := 0; i < n; i++ {
		s = append(s, i)
	}
	return
}
