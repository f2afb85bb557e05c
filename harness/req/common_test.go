package req_test

import (
	"fmt"
	"math"
	"slices"
	"sort"

	"github.com/apache/datasketches-go/req"
	"pgregory.net/rapid"

	"verif/vk"
)

type sk struct {
	s     *req.Sketch
	k     int
	minK  int
	hra   bool
	items []float32 // the multiset presented, NaN excluded
	exact bool
}

func newSk(k int, hra bool) (*sk, error) {
	s, err := req.NewSketch(req.WithK(k), req.WithHighRankAccuracyMode(hra))
	if err != nil {
		return nil, err
	}
	return &sk{s: s, k: k, minK: k, hra: hra}, nil
}

func (x *sk) update(v float32) error {
	if err := x.s.Update(v); err != nil {
		return err
	}
	if v == v {
		x.items = append(x.items, v)
	}
	return nil
}

func (x *sk) merge(o *sk) error {
	if err := x.s.Merge(o.s); err != nil {
		return err
	}
	x.items = append(x.items, o.items...)
	if len(o.items) > 0 {
		x.minK = min(x.minK, o.minK)
	}
	return nil
}

func (x *sk) reset() {
	x.s.Reset()
	x.items = nil
	x.minK = x.k
}

type pair struct {
	q float32
	w int64
}

func pairs(s *req.Sketch) []pair {
	var r []pair
	for _, it := range s.All() {
		r = append(r, pair{it.Quantile, it.Weight})
	}
	sort.Slice(r, func(i, j int) bool {
		if r[i].q != r[j].q {
			return r[i].q < r[j].q
		}
		return r[i].w < r[j].w
	})
	return r
}

func state(s *req.Sketch) string {
	mn, e1 := s.MinItem()
	mx, e2 := s.MaxItem()
	return fmt.Sprint(s.N(), s.K(), s.NumRetained(), s.IsEstimationMode(), s.IsEmpty(), s.IsHighRankAccuracyMode(), mn, e1, mx, e2, pairs(s))
}

func (x *sk) check() error {
	s := x.s
	n := len(x.items)
	if s.N() != int64(n) || s.IsEmpty() != (n == 0) || s.K() != x.k || s.IsHighRankAccuracyMode() != x.hra {
		return fmt.Errorf("N=%d IsEmpty=%v K=%d HRA=%v, model n=%d k=%d hra=%v", s.N(), s.IsEmpty(), s.K(), s.IsHighRankAccuracyMode(), n, x.k, x.hra)
	}
	mn, e1 := s.MinItem()
	mx, e2 := s.MaxItem()
	ps := pairs(s)
	if n == 0 {
		if e1 == nil || e2 == nil || len(ps) != 0 || s.NumRetained() != 0 {
			return fmt.Errorf("empty sketch: min err %v, max err %v, retained %d", e1, e2, s.NumRetained())
		}
		return nil
	}
	all := slices.Clone(x.items)
	slices.Sort(all)
	if e1 != nil || e2 != nil || mn != all[0] || mx != all[n-1] {
		return fmt.Errorf("min,max=%v,%v (%v,%v) want %v,%v", mn, mx, e1, e2, all[0], all[n-1])
	}
	if len(ps) != s.NumRetained() {
		return fmt.Errorf("All yields %d items, NumRetained=%d", len(ps), s.NumRetained())
	}
	cnt := map[float32]int{}
	for _, v := range x.items {
		cnt[v]++
	}
	var sum int64
	for _, p := range ps {
		sum += p.w
		if p.w <= 0 || p.w&(p.w-1) != 0 {
			return fmt.Errorf("weight %d", p.w)
		}
		if cnt[p.q]--; cnt[p.q] < 0 {
			return fmt.Errorf("item %v retained more often than presented", p.q)
		}
	}
	if sum != int64(n) {
		return fmt.Errorf("weights sum to %d, N=%d", sum, n)
	}
	// the accurate end is exact: the 3*min(k) extreme items are retained with weight one
	m := min(3*x.minK, n)
	// the guarantee's edge: a rank with exactly that many items beyond it is exact, too
	var at []int
	for i := 0; i < m; i++ {
		at = append(at, i)
		if i > 8 {
			i += m / 12
		}
	}
	for i := m - 3; i <= m && i < n; i++ {
		if i >= 0 {
			at = append(at, i)
		}
	}
	for _, i := range at {
		want := all[i]
		if x.hra {
			want = all[n-1-i]
		}
		var w int64
		for _, p := range ps {
			if x.hra && p.q > want || !x.hra && p.q < want {
				w += p.w
			}
		}
		var tw int64
		for _, v := range all {
			if x.hra && v > want || !x.hra && v < want {
				tw++
			}
		}
		if w != tw {
			return fmt.Errorf("%d-th item from the accurate end (%v): %d items beyond it by weight, really %d", i, want, w, tw)
		}
	}
	if !s.IsEstimationMode() && len(ps) != n {
		return fmt.Errorf("not in estimation mode but retains %d of %d", len(ps), n)
	}
	if n < 6*x.minK && s.IsEstimationMode() {
		return fmt.Errorf("estimation mode with n=%d k=%d", n, x.minK)
	}
	if lim := 24 * float64(x.k) * (2 + math.Log2(float64(n)/float64(x.minK)+1)); float64(len(ps)) > lim {
		return fmt.Errorf("retains %d items for n=%d k=%d", len(ps), n, x.k)
	}
	return nil
}

func conv(v int64) float32 {
	switch v {
	case 7:
		return float32(math.Inf(1))
	case 11:
		return float32(math.Inf(-1))
	case 13:
		return math.SmallestNonzeroFloat32
	case 17:
		return math.MaxFloat32
	}
	return float32(v)/4 - 100
}

func stream(t *rapid.T, maxN int) ([]float32, string) {
	n := vk.Size(t, "n", 0, maxN)
	seed := rapid.Uint32().Draw(t, "sseed")
	dom := vk.Pick(t, "dom", 3, 40, 1000, 1<<20)
	ord := vk.Pick(t, "ord", "random", "asc", "desc", "zigzag")
	nan := vk.Chance(t, "nan", 1, 6)
	p := vk.NewPRNG(uint64(seed))
	r := make([]float32, n)
	for i := range r {
		r[i] = conv(int64(p.Intn(dom)))
	}
	switch ord {
	case "asc":
		slices.Sort(r)
	case "desc":
		slices.Sort(r)
		slices.Reverse(r)
	case "zigzag":
		slices.Sort(r)
		z := make([]float32, 0, n)
		for i, j := 0, n-1; i <= j; i, j = i+1, j-1 {
			z = append(z, r[i])
			if i != j {
				z = append(z, r[j])
			}
		}
		r = z
	}
	if nan {
		for i := 0; i < n; i += 7 {
			r[i] = float32(math.NaN())
		}
	}
	return r, fmt.Sprintf("%d %s of %d nan=%v", n, ord, dom, nan)
}

func drawK(t *rapid.T) int { return vk.Pick(t, "k", 4, 4, 6, 8, 10, 12, 14, 20, 50) }

func build(t *rapid.T, hra bool, maxN int) (*sk, string) {
	k := drawK(t)
	x, err := newSk(k, hra)
	if err != nil {
		t.Fatalf("new: %v", err)
	}
	d := fmt.Sprintf("k=%d hra=%v", k, hra)
	for i, n := 0, vk.Int(t, "steps", 0, 3); i < n; i++ {
		switch vk.Int(t, "step", 0, 7) {
		default:
			vs, ds := stream(t, maxN)
			d += " upd(" + ds + ")"
			for _, v := range vs {
				if err := x.update(v); err != nil {
					t.Fatalf("%s: update: %v", d, err)
				}
			}
		case 4, 5:
			y, _ := newSk(drawK(t), hra)
			vs, ds := stream(t, maxN)
			for _, v := range vs {
				if err := y.update(v); err != nil {
					t.Fatalf("%s: update: %v", d, err)
				}
			}
			d += fmt.Sprintf(" merge(k=%d %s)", y.k, ds)
			if err := x.merge(y); err != nil {
				t.Fatalf("%s: %v", d, err)
			}
		case 6:
			if vk.Chance(t, "reset", 1, 4) {
				x.reset()
				d += " reset"
			}
		}
	}
	return x, d
}
