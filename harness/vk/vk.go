// Package vk is the kit shared by all property checks: it runs rapid sub-checks with
// deterministic seeds derived from VERIF_SEED, counts cases, watches for hangs and
// writes a shard report that cmd/vrun merges into the evidence file.
package vk

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Sub is one sub-check of a property. Quick and Thorough are total case counts
// (divided among the shards).
type Sub struct {
	Name     string
	Quick    int
	Thorough int
	Fn       func(t *rapid.T, c *Case)
	// Once, when set, is a non-generated check run on shard 0 only (e.g. seeded statistics).
	Once func(t *testing.T, c *Case)
}

type SubReport struct {
	Evaluations int
	Nontrivial  int
	Distinct    []uint64
	Classes     map[string]int
	Samples     []string
	Failed      bool
	FailLog     string
}

type Report struct {
	Property string
	Rule     string
	Subs     map[string]*SubReport
	Hang     string
	Findings map[string]string
	Done     bool
}

type Case struct {
	sr  *SubReport
	set map[uint64]struct{}
	rep *Report
	sub string
	// NT/Sample calls are buffered per case
	reuse int
}

const maxDistinct = 400000

// NT records that the current case is non-trivial; sig identifies it for distinctness.
func (c *Case) NT(sig ...any) {
	c.sr.Nontrivial++
	h := fnv.New64a()
	fmt.Fprint(h, c.sub)
	for _, s := range sig {
		fmt.Fprintf(h, "|%v", s)
	}
	if len(c.set) < maxDistinct {
		c.set[h.Sum64()] = struct{}{}
	}
}

// Class counts a label.
func (c *Case) Class(label string) { c.sr.Classes[label]++ }

// Sample keeps a few written-out cases.
func (c *Case) Sample(format string, args ...any) {
	n := c.sr.Evaluations
	if len(c.sr.Samples) < 4 || (len(c.sr.Samples) < 8 && n%97 == 0) {
		s := fmt.Sprintf(format, args...)
		if len(s) > 400 {
			s = s[:400] + "..."
		}
		c.sr.Samples = append(c.sr.Samples, s)
	}
}

// WantSample is true while samples are still collected (to avoid formatting cost).
func (c *Case) WantSample() bool { return len(c.sr.Samples) < 4 }

func Tier() string {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return "thorough"
	}
	return "quick"
}

func envInt(k string, d int) int {
	if v, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return v
	}
	return d
}

func Seed() int64 {
	if v, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		return v
	}
	return 1
}

// Mix is splitmix64.
func Mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

// PRNG is a tiny deterministic generator used to expand a drawn seed.
type PRNG struct{ s uint64 }

func NewPRNG(seed uint64) *PRNG { return &PRNG{Mix(seed ^ 0x5bd1e995)} }
func (p *PRNG) U64() uint64     { p.s += 0x9e3779b97f4a7c15; return Mix(p.s) }
func (p *PRNG) Intn(n int) int {
	if n <= 0 {
		return 0
	}
	return int(p.U64() % uint64(n))
}
func (p *PRNG) F64() float64 { return float64(p.U64()>>11) / (1 << 53) }

func hashStr(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

// SubSeed derives the deterministic seed for a sub-check.
func SubSeed(id, sub string, shard int) uint64 {
	x := Mix(uint64(Seed())) ^ hashStr(id+"/"+sub)
	x = Mix(x + uint64(shard)*0x1000193)
	x &= 1<<62 - 1
	if x == 0 {
		x = 1
	}
	return x
}

var caseStart atomic.Int64 // unix nano of the running case, 0 when idle
var caseName atomic.Value

// quickScale multiplies the quick case counts of the cheap checks, so that each quick run takes several seconds.
var quickScale = map[string]float64{
	"T03": 4, "T04": 3, "T05": 2, "U03": 3, "U04": 3, "K01": 2, "K03": 5, "K04": 3, "R02": 4, "D01": 2, "D03": 2,
	"F02": 3, "F03": 2, "B01": 3, "B02": 5, "S01": 3, "S02": 6, "S03": 8, "V01": 5, "V02": 5, "V03": 8,
	"H01": 3, "H02": 6, "H03": 6, "H04": 3, "P03": 2, "C02": 1.5, "E01": 3, "A01": 4, "A02": 6, "A03": 5,
}

// Property runs all sub-checks of a property.
func Property(t *testing.T, id, rule string, subs ...Sub) {
	shard, nsh := envInt("VK_SHARD", 0), envInt("VK_NSHARDS", 1)
	out := os.Getenv("VK_OUT")
	only := os.Getenv("VK_SUB")
	replay := os.Getenv("VK_REPLAY")
	scale := 1.0
	if v, err := strconv.ParseFloat(os.Getenv("VK_SCALE"), 64); err == nil {
		scale = v
	}
	if f := quickScale[id]; f > 0 && Tier() == "quick" {
		scale *= f
	}
	rep := &Report{Property: id, Rule: rule, Subs: map[string]*SubReport{}, Findings: map[string]string{}}
	var mu sync.Mutex
	sets := map[string]map[uint64]struct{}{}
	flush := func() {
		if out == "" {
			return
		}
		mu.Lock()
		defer mu.Unlock()
		for n, s := range sets {
			ds := make([]uint64, 0, len(s))
			for h := range s {
				ds = append(ds, h)
			}
			sort.Slice(ds, func(i, j int) bool { return ds[i] < ds[j] })
			rep.Subs[n].Distinct = ds
		}
		b, _ := json.Marshal(rep)
		_ = os.WriteFile(out+".tmp", b, 0o644)
		_ = os.Rename(out+".tmp", out)
	}
	hang := time.Duration(envInt("VK_HANG", 240)) * time.Second
	stop := make(chan struct{})
	defer close(stop)
	go func() {
		tk := time.NewTicker(2 * time.Second)
		defer tk.Stop()
		for {
			select {
			case <-stop:
				return
			case <-tk.C:
				s := caseStart.Load()
				if s != 0 && time.Since(time.Unix(0, s)) > hang {
					nm, _ := caseName.Load().(string)
					msg := fmt.Sprintf("case of %s still running after %v", nm, hang)
					if out != "" {
						r := &Report{Property: id, Rule: rule, Subs: map[string]*SubReport{}, Hang: msg}
						b, _ := json.Marshal(r)
						_ = os.WriteFile(out, b, 0o644)
					}
					fmt.Fprintln(os.Stderr, "HANG:", msg)
					os.Exit(7)
				}
			}
		}
	}()
	for _, s := range subs {
		if only != "" && s.Name != only {
			continue
		}
		s := s
		sr := &SubReport{Classes: map[string]int{}}
		rep.Subs[s.Name] = sr
		set := map[uint64]struct{}{}
		sets[s.Name] = set
		c := &Case{sr: sr, set: set, rep: rep, sub: s.Name}
		nm := id + "/" + s.Name
		if s.Once != nil {
			if shard != int(hashStr(nm)%uint64(nsh)) {
				continue
			}
			ok := t.Run(s.Name, func(t *testing.T) {
				caseName.Store(nm)
				caseStart.Store(time.Now().UnixNano())
				defer caseStart.Store(0)
				sr.Evaluations++
				rand.Seed(int64(SubSeed(id, s.Name, 0))) //nolint
				func() {
					defer func() {
						if p := recover(); p != nil {
							t.Errorf("panic: %v\n%s", p, debug.Stack())
						}
					}()
					s.Once(t, c)
				}()
			})
			if !ok {
				sr.Failed = true
			}
			continue
		}
		n := s.Quick
		if Tier() == "thorough" {
			n = s.Thorough
		}
		n = int(float64(n)*scale) / nsh
		if n < 1 {
			n = 1
		}
		_ = flag.Set("rapid.checks", strconv.Itoa(n))
		_ = flag.Set("rapid.seed", strconv.FormatUint(SubSeed(id, s.Name, shard), 10))
		_ = flag.Set("rapid.shrinktime", strconv.Itoa(envInt("VK_SHRINK", 15))+"s")
		if replay != "" {
			_ = flag.Set("rapid.failfile", replay)
			_ = flag.Set("rapid.checks", "1")
		}
		ok := t.Run(s.Name, func(t *testing.T) {
			rapid.Check(t, func(rt *rapid.T) {
				caseName.Store(nm)
				caseStart.Store(time.Now().UnixNano())
				defer caseStart.Store(0)
				sr.Evaluations++
				// the library's global math/rand source is reseeded from a drawn value so that
				// randomized sketches replay exactly
				rand.Seed(int64(rapid.Uint32().Draw(rt, "libseed"))) //nolint
				s.Fn(rt, c)
			})
		})
		if !ok {
			sr.Failed = true
		}
		flush()
	}
	rep.Done = true
	flush()
}

// Current-input file for workers that may be killed by a fatal runtime error.
func SaveCurrent(b []byte) {
	if p := os.Getenv("VK_CURRENT"); p != "" {
		_ = os.WriteFile(p, b, 0o644)
	}
}

// RepoDir is the tree under test.
func RepoDir() string {
	if d := os.Getenv("VK_REPO"); d != "" {
		return d
	}
	return "/repo"
}

// Golden lists files of serialization_test_data/<lang>_generated_files with a prefix.
func Golden(lang, prefix string) []string {
	m, _ := filepath.Glob(filepath.Join(RepoDir(), "serialization_test_data", lang+"_generated_files", prefix+"*"))
	var r []string
	for _, f := range m {
		if strings.HasSuffix(f, ".sk") {
			r = append(r, f)
		}
	}
	sort.Strings(r)
	return r
}

// Catch runs f and returns the panic value, if any.
func Catch(f func()) (p any) {
	defer func() { p = recover() }()
	f()
	return nil
}

// Int draws an integer of [lo,hi] nearly uniformly (rapid's own ranges favour small values); shrinks to lo.
func Int(t *rapid.T, label string, lo, hi int) int {
	x := rapid.Uint32().Draw(t, label)
	return lo + int((Mix(uint64(x))-Mix(0))%uint64(hi-lo+1))
}

// Size draws a size of [lo,hi]: half of the time favouring small values, otherwise uniform.
func Size(t *rapid.T, label string, lo, hi int) int {
	if Int(t, label+".u", 0, 1) == 0 {
		return rapid.IntRange(lo, hi).Draw(t, label)
	}
	return Int(t, label, lo, hi)
}

// Pick draws one of the values uniformly.
func Pick[V any](t *rapid.T, label string, vs ...V) V { return vs[Int(t, label, 0, len(vs)-1)] }

// Chance is true in about num of den cases; shrinks to false.
func Chance(t *rapid.T, label string, num, den int) bool { return Int(t, label, 0, den-1) >= den-num }
