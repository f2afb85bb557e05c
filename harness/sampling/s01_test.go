package sampling_test

import (
	"fmt"
	"testing"

	"github.com/apache/datasketches-go/sampling"
	"pgregory.net/rapid"

	"verif/vk"
)

func s01[T comparable](k *kind[T]) func(t *rapid.T, c *vk.Case) {
	return func(t *rapid.T, c *vk.Case) {
		next := 0
		pool := []*rs[T]{newRS(t, k, 2, 20, 3000)}
		hist := fmt.Sprintf("%s k=%d rf=%d", k.name, pool[0].k, pool[0].rf)
		sampled, forks, resets := false, 0, 0
		steps := vk.Int(t, "steps", 1, 10)
		for st := 0; st < steps; st++ {
			i := vk.Int(t, "i", 0, len(pool)-1)
			x := pool[i]
			switch vk.Int(t, "op", 0, 7) {
			case 0, 1, 2, 3:
				m := runLen(t, x.k)
				hist += fmt.Sprintf(" #%d+%d", i, m)
				if err := x.feed(k, &next, m); err != nil {
					t.Fatalf("%s: %v", hist, err)
				}
				sampled = sampled || x.n > int64(x.k)
			case 4:
				if len(pool) < 3 {
					hist += fmt.Sprintf(" copy#%d", i)
					y := &rs[T]{s: x.s.Copy(), k: x.k, rf: x.rf, hist: append([]int{}, x.hist...), n: x.n, may: map[int]bool{}}
					for id := range x.may {
						y.may[id] = true
					}
					if a, b := rState(x.s), rState(y.s); a != b {
						t.Fatalf("%s: copy differs:\n%s\n%s", hist, a, b)
					}
					pool = append(pool, y)
					forks++
				}
			case 5:
				if vk.Chance(t, "rst", 1, 2) {
					hist += fmt.Sprintf(" reset#%d", i)
					x.s.Reset()
					x.hist, x.n, x.may = nil, 0, map[int]bool{}
					resets++
				}
			case 6:
				hist += fmt.Sprintf(" trip#%d", i)
				b, err := x.s.ToSlice(k.serde)
				if err != nil {
					t.Fatalf("%s: %v", hist, err)
				}
				if x.s, err = sampling.NewReservoirItemsSketchFromSlice[T](b, k.serde); err != nil {
					t.Fatalf("%s: decode: %v", hist, err)
				}
			default:
				md, r := vk.Int(t, "mod", 1, 5), vk.Int(t, "rem", 0, 4)
				if err := x.subset(k, func(id int) bool { return id%md <= r && md > 1 }); err != nil {
					t.Fatalf("%s: %v", hist, err)
				}
			}
			for j, y := range pool {
				if err := y.check(k); err != nil {
					t.Fatalf("%s: sketch %d: %v", hist, j, err)
				}
			}
		}
		if sampled {
			c.NT(hist)
			c.Class("sampling")
			if forks > 0 {
				c.Class("sampling with copies")
			}
			if resets > 0 {
				c.Class("with resets")
			}
			if c.WantSample() {
				c.Sample("%s", hist)
			}
		}
	}
}

// s01Stat repeats one stream many times and compares inclusion frequencies with k/n.
func s01Stat(t *rapid.T, c *vk.Case) {
	k := vk.Int(t, "k", 2, 24)
	n := k + 1 + vk.Int(t, "extra", 0, 5*k+10)
	rf := vk.Pick(t, "rf", rfs...)
	mode := vk.Int(t, "mode", 0, 3) // 0 plain, 1 reset first, 2 through a copy, 3 through an image at some point
	cut := vk.Int(t, "cut", 0, n)
	trials := 4000
	if vk.Tier() == "thorough" {
		trials = 30000
	}
	desc := fmt.Sprintf("k=%d n=%d rf=%d mode=%d cut=%d", k, n, rf, mode, cut)
	inc := make([]int, n)
	p := float64(k) / float64(n)
	firstK := &mean{name: "count of the first k items", want: p * float64(k), maxValue: float64(k)}
	pos := &mean{name: "sum of positions", want: float64(k) * float64(n-1) / 2, maxValue: float64(k * n)}
	last := &mean{name: "inclusion of the last item", want: p, maxValue: 1}
	adj := &mean{name: "adjacent pairs", want: float64(k) * float64(k-1) / float64(n), maxValue: float64(k)}
	est := &mean{name: "subset sum estimate (first half)", want: float64(n / 2), maxValue: float64(n)}
	in := make([]bool, n)
	cover := 0
	for tr := 0; tr < trials; tr++ {
		s, err := sampling.NewReservoirItemsSketch[int64](k, sampling.WithReservoirItemsSketchResizeFactor(rf))
		if err != nil {
			t.Fatal(err)
		}
		if mode == 1 {
			for i := 0; i < cut; i++ {
				s.Update(int64(-1))
			}
			s.Reset()
		}
		for i := 0; i < n; i++ {
			if i == cut && mode == 2 {
				o := s
				s = o.Copy()
				o.Update(int64(-5)) // the original goes its own way
			}
			if i == cut && mode == 3 {
				b, err := s.ToSlice(kLong.serde)
				if err != nil {
					t.Fatal(err)
				}
				if s, err = sampling.NewReservoirItemsSketchFromSlice[int64](b, kLong.serde); err != nil {
					t.Fatal(err)
				}
			}
			if err := s.Update(int64(i)); err != nil {
				t.Fatal(err)
			}
		}
		clear(in)
		sp, fk := 0, 0
		for _, v := range s.Samples() {
			if v < 0 || int(v) >= n || in[v] {
				t.Fatalf("%s: sample %d is foreign or repeated", desc, v)
			}
			in[v] = true
			inc[v]++
			sp += int(v)
			if int(v) < k {
				fk++
			}
		}
		pairs := 0
		for i := 1; i < n; i++ {
			if in[i] && in[i-1] {
				pairs++
			}
		}
		l := 0.0
		if in[n-1] {
			l = 1
		}
		firstK.add(float64(fk))
		pos.add(float64(sp))
		last.add(l)
		adj.add(float64(pairs))
		r, err := s.EstimateSubsetSum(func(v int64) bool { return int(v) < n/2 })
		if err != nil {
			t.Fatalf("%s: EstimateSubsetSum: %v", desc, err)
		}
		est.add(r.Estimate)
		if r.LowerBound <= float64(n/2)+1e-9 && float64(n/2) <= r.UpperBound+1e-9 {
			cover++
		}
	}
	for i, x := range inc {
		if d := kl(x, trials, p); d > klLimit {
			t.Fatalf("%s: item %d kept in %d of %d trials, expected probability %.4f", desc, i, x, trials, p)
		}
	}
	for _, m := range []*mean{firstK, pos, last, adj, est} {
		if err := m.err(); err != nil {
			t.Fatalf("%s: %v", desc, err)
		}
	}
	if float64(cover) < 0.85*float64(trials) {
		t.Fatalf("%s: the subset-sum bounds hold the truth in only %d of %d trials", desc, cover, trials)
	}
	c.NT(desc)
	c.Class(fmt.Sprintf("mode %d", mode))
	if c.WantSample() {
		c.Sample("%s: first-k mean %.4f (want %.4f), coverage %.3f over %d trials", desc, firstK.want+firstK.sum/float64(firstK.n), firstK.want, float64(cover)/float64(trials), trials)
	}
}

func s01Config(t *rapid.T, c *vk.Case) {
	k := vk.Int(t, "k", -3, 6)
	s, err := sampling.NewReservoirItemsSketch[*int](k)
	if (err == nil) != (k >= 2) {
		t.Fatalf("k=%d: error %v", k, err)
	}
	if err != nil {
		return
	}
	vals := make([]int, 40)
	n := 0
	for i := range vals {
		if vk.Chance(t, "nil", 1, 3) {
			before := rState(s)
			if err := s.Update(nil); err != nil || rState(s) != before {
				t.Fatalf("k=%d: a nil item must be ignored (err %v)", k, err)
			}
			continue
		}
		if err := s.Update(&vals[i]); err != nil {
			t.Fatal(err)
		}
		n++
		if s.N() != int64(n) || s.NumSamples() != min(n, k) {
			t.Fatalf("k=%d after %d items: N=%d samples=%d", k, n, s.N(), s.NumSamples())
		}
	}
	c.NT(k, n)
}

func TestS01(t *testing.T) {
	vk.Property(t, "S01", "the stream is longer than k in at least one sketch (statistics: always; configuration: k accepted)",
		vk.Sub{Name: "model-long", Quick: 1500, Thorough: 30000, Fn: s01(kLong)},
		vk.Sub{Name: "model-string", Quick: 700, Thorough: 12000, Fn: s01(kString)},
		vk.Sub{Name: "model-double", Quick: 400, Thorough: 8000, Fn: s01(kDouble)},
		vk.Sub{Name: "inclusion", Quick: 120, Thorough: 500, Fn: s01Stat},
		vk.Sub{Name: "config", Quick: 100, Thorough: 1000, Fn: s01Config},
	)
}
