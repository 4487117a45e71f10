// Package vh runs generated checks: it shards rapid properties and sweeps over
// processes, keeps every random choice a function of VERIF_SEED, and records
// what was actually generated.
package vh

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"sort"
	"strconv"
	"sync"
	"testing"

	"github.com/rs/zerolog"
	"pgregory.net/rapid"

	"github.com/consensys/gnark/logger"
)

var (
	shard    = envInt("VH_SHARD", 0)
	shards   = envInt("VH_SHARDS", 1)
	seed     = envInt("VERIF_SEED", 1)
	thorough = os.Getenv("VERIF_TIER") == "thorough"
	only     = os.Getenv("VH_INDEX") // replay of one sweep index
)

func envInt(k string, d int) int {
	if v, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return v
	}
	return d
}

// Thorough tells the tier.
func Thorough() bool { return thorough }

// Seed is VERIF_SEED.
func Seed() uint64 { return uint64(seed) }

// Pick is q in the quick tier and th in the thorough one.
func Pick(q, th int) int {
	if thorough {
		return th
	}
	return q
}

// Stat is what one test generated in one process.
type Stat struct {
	Test        string            `json:"test"`
	Evaluations int               `json:"evaluations"`
	Hashes      []uint64          `json:"hashes"`
	Labels      map[string]int    `json:"labels,omitempty"`
	Samples     []json.RawMessage `json:"samples,omitempty"`
	Known       []string          `json:"known,omitempty"`
	Failed      bool              `json:"failed"`
	Exhaustive  bool              `json:"exhaustive,omitempty"`
	seen        map[uint64]bool
}

var (
	mu    sync.Mutex
	stats = map[string]*Stat{}
)

func statOf(name string) *Stat {
	mu.Lock()
	defer mu.Unlock()
	s := stats[name]
	if s == nil {
		s = &Stat{Test: name, Labels: map[string]int{}, seen: map[uint64]bool{}}
		stats[name] = s
	}
	return s
}

// Case records one generated case.
type Case struct {
	st *Stat
	t  testing.TB
}

// Nontrivial marks the case as non-trivial; parts identify it for counting distinct ones.
func (c *Case) Nontrivial(parts ...any) {
	h := fnv.New64a()
	fmt.Fprint(h, parts...)
	k := h.Sum64()
	mu.Lock()
	defer mu.Unlock()
	if !c.st.seen[k] {
		c.st.seen[k] = true
		c.st.Hashes = append(c.st.Hashes, k)
	}
}

// Label counts the case under a class.
func (c *Case) Label(format string, a ...any) {
	mu.Lock()
	defer mu.Unlock()
	c.st.Labels[fmt.Sprintf(format, a...)]++
}

// Sample keeps the first few cases, written out.
func (c *Case) Sample(format string, a ...any) {
	mu.Lock()
	defer mu.Unlock()
	if len(c.st.Samples) < 3 {
		s := fmt.Sprintf(format, a...)
		if len(s) > 600 {
			s = s[:600] + "..."
		}
		b, _ := json.Marshal(c.st.Test + ": " + s)
		c.st.Samples = append(c.st.Samples, b)
	}
}

// Known reports that a listed known finding still reproduces.
func (c *Case) Known(what string) {
	mu.Lock()
	defer mu.Unlock()
	for _, k := range c.st.Known {
		if k == what {
			return
		}
	}
	c.st.Known = append(c.st.Known, what)
}

func share(n int) int {
	k := n / shards
	if shard < n%shards {
		k++
	}
	return k
}

// Check runs a rapid property: quick or thorough cases in total over all shards.
func Check(t *testing.T, quick, thor int, f func(t *rapid.T, c *Case)) {
	t.Helper()
	n := share(Pick(quick, thor))
	if n == 0 && flag.Lookup("rapid.failfile").Value.String() == "" {
		return
	}
	if n == 0 {
		n = 1
	}
	st := statOf(t.Name())
	must(flag.Set("rapid.checks", strconv.Itoa(n)))
	must(flag.Set("rapid.seed", strconv.Itoa(1+(shard+64*(seed&0xffffff))*10000019)))
	shrink := "15s"
	if s := os.Getenv("VH_SHRINK"); s != "" {
		shrink = s
	}
	must(flag.Set("rapid.shrinktime", shrink))
	defer func() { st.Failed = st.Failed || t.Failed() }()
	rapid.Check(t, func(rt *rapid.T) {
		c := &Case{st: st, t: t}
		defer func() {
			if !rt.Failed() {
				mu.Lock()
				st.Evaluations++
				mu.Unlock()
			}
			ended()
		}()
		began(t.Name())
		f(rt, c)
	})
}

// Sweep evaluates f on every index below n (split over the shards): a complete
// enumeration. f panics or calls t.Fatalf to report a violation.
func Sweep(t *testing.T, n int, f func(t *testing.T, c *Case, i int)) {
	t.Helper()
	st := statOf(t.Name())
	st.Exhaustive = true
	cur := -1
	defer func() {
		if r := recover(); r != nil {
			t.Errorf("panic at sweep index %d: %v", cur, r)
		}
		if t.Failed() {
			st.Failed = true
			t.Logf("VH_INDEX=%d", cur)
		}
	}()
	if only != "" {
		cur, _ = strconv.Atoi(only)
		f(t, &Case{st: st, t: t}, cur)
		return
	}
	for i := shard; i < n; i += shards {
		cur = i
		began(t.Name())
		f(t, &Case{st: st, t: t}, i)
		ended()
		st.Evaluations++
		if t.Failed() {
			return
		}
	}
}

// Shard0 is true in exactly one process.
func Shard0() bool { return shard == 0 }

// MyShard tells whether index i of a fixed list belongs to this process.
func MyShard(i int) bool { return i%shards == shard }

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// Main is every check package's TestMain.
func Main(m *testing.M) {
	zerolog.SetGlobalLevel(zerolog.Disabled)
	logger.SetOutput(io.Discard)
	logger.Disable()
	go watch()
	rc := m.Run()
	fmt.Printf("VH_PEAK %ds %dMB\n", peakSec.Load(), peakMem.Load()>>20)
	if p := os.Getenv("VH_STATS"); p != "" {
		var l []*Stat
		for _, s := range stats {
			l = append(l, s)
		}
		sort.Slice(l, func(i, j int) bool { return l[i].Test < l[j].Test })
		b, err := json.Marshal(map[string]any{"rc": rc, "stats": l})
		must(err)
		must(os.WriteFile(p, b, 0o644))
	}
	os.Exit(rc)
}
