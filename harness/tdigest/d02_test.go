package tdigest_test

import (
	"fmt"
	"math"
	"os"
	"sort"
	"testing"

	"github.com/apache/datasketches-go/tdigest"
	"pgregory.net/rapid"

	"verif/vk"
)

// build makes a digest by a drawn recipe.
func build(t *rapid.T, maxN int) (*sk, string) {
	var x *sk
	desc := ""
	mk := func() (*sk, string) {
		if vk.Chance(t, "foreign", 1, 6) {
			kind, k, b, cs, mn, mx := foreign(t, nil)
			d, err := decode(b, false)
			if err != nil {
				t.Fatalf("decode reference-format image (type %d): %v", kind, err)
			}
			return adopt(d, k, cs, mn, mx), fmt.Sprintf("compat%d k=%d %v %v..%v", kind, k, cs, mn, mx)
		}
		k := drawK(t)
		y, err := newSk(k)
		if err != nil {
			t.Fatalf("k=%d: %v", k, err)
		}
		vs, ds := stream(t, maxN)
		for _, v := range vs {
			if err := y.update(v); err != nil {
				t.Fatalf("update %v: %v", v, err)
			}
		}
		return y, fmt.Sprintf("k=%d %s", k, ds)
	}
	x, desc = mk()
	for i, n := 0, vk.Pick(t, "nmerge", 0, 0, 1, 2); i < n; i++ {
		y, ds := mk()
		if err := x.merge(y); err != nil {
			t.Fatalf("merge: %v", err)
		}
		desc += " <- " + ds
	}
	return x, desc
}

func drawValue(t *rapid.T, w wire) float64 {
	i := vk.Int(t, "ci", 0, len(w.cs)-1)
	switch vk.Int(t, "vk", 0, 6) {
	case 0:
		return vk.Pick(t, "ve", w.min, w.max, math.Nextafter(w.min, math.Inf(-1)), math.Nextafter(w.max, math.Inf(1)), math.Inf(1), math.Inf(-1), math.Nextafter(w.min, math.Inf(1)), math.Nextafter(w.max, math.Inf(-1)))
	case 1:
		return w.cs[i].m
	case 2:
		return w.min + (w.cs[0].m-w.min)*float64(vk.Int(t, "u", 0, 16))/16
	case 3:
		l := w.cs[len(w.cs)-1].m
		return l + (w.max-l)*float64(vk.Int(t, "u", 0, 16))/16
	default:
		j := min(i+1, len(w.cs)-1)
		return w.cs[i].m + (w.cs[j].m-w.cs[i].m)*float64(vk.Int(t, "u", 0, 64))/64
	}
}

func drawR(t *rapid.T, w wire, n uint64) float64 {
	N := float64(n)
	switch vk.Int(t, "rk", 0, 6) {
	case 0:
		return vk.Pick(t, "re", 0.0, 1, 0.5, 5e-324, math.Nextafter(1, 0), math.Copysign(0, -1))
	case 1:
		return math.Min(1, float64(vk.Int(t, "u", 0, 8))/4/N)
	case 2:
		return math.Max(0, 1-float64(vk.Int(t, "u", 0, 8))/4/N)
	case 3: // inside the last centroid
		return math.Max(0, 1-float64(w.cs[len(w.cs)-1].w)/2/N*float64(vk.Int(t, "u", 0, 20))/16)
	case 4:
		return math.Min(1, float64(w.cs[0].w)/2/N*float64(vk.Int(t, "u", 0, 20))/16)
	default:
		i := vk.Int(t, "ci", 0, len(w.cs)-1)
		cum := 0.0
		for _, c := range w.cs[:i] {
			cum += float64(c.w)
		}
		return math.Min(1, (cum+float64(w.cs[i].w)*float64(vk.Int(t, "u", 0, 16))/16)/N)
	}
}

func d02(t *rapid.T, c *vk.Case) {
	x, desc := build(t, 5000)
	d := x.d
	b, err := img(d, true)
	if err != nil {
		t.Fatalf("%s: %v", desc, err)
	}
	tw, err := tdigest.DecodeDouble(b)
	if err != nil {
		t.Fatalf("%s: decode own image: %v", desc, err)
	}
	w, err := wireOf(tw)
	if err != nil {
		t.Fatalf("%s: %v", desc, err)
	}
	for i := range w.cs {
		if i > 0 && w.cs[i].m < w.cs[i-1].m {
			return // rounding of nearly equal means; the interpolation is not defined
		}
	}
	n := x.n
	type pt struct{ a, r float64 }
	var ranks, quants []pt
	for q, nq := 0, vk.Int(t, "nq", 3, 20); q < nq; q++ {
		switch vk.Int(t, "qop", 0, 7) {
		case 0, 1, 2:
			v := drawValue(t, w)
			r, err := d.Rank(v)
			if math.IsInf(v, 0) && err != nil {
				continue // rejecting infinities is fine too
			}
			want := refRank(w, n, v)
			if err != nil || !(math.Abs(r-want) <= 1e-9) || r < 0 || r > 1 {
				t.Fatalf("%s: rank(%v)=%v,%v want %v (n=%d min=%v max=%v)", desc, v, r, err, want, n, w.min, w.max)
			}
			ranks = append(ranks, pt{v, r})
		case 3, 4, 5:
			r := drawR(t, w, n)
			v, err := d.Quantile(r)
			if err != nil {
				t.Fatalf("%s: quantile(%v): %v", desc, r, err)
			}
			if err := quantileOK(w, n, r, v); err != nil {
				t.Fatalf("%s: %v", desc, err)
			}
			if u := 1e-14 * x.maxabs; !(v >= x.min-u && v <= x.max+u) {
				t.Fatalf("%s: quantile(%v)=%v outside [%v,%v]", desc, r, v, x.min, x.max)
			}
			quants = append(quants, pt{r, v})
		case 6:
			var sp []float64
			for i, m := 0, vk.Int(t, "nsp", 1, 6); i < m; i++ {
				if v := drawValue(t, w); !math.IsInf(v, 0) {
					sp = append(sp, v)
				}
			}
			sort.Float64s(sp)
			u := sp[:0]
			for i, v := range sp {
				if i == 0 || v != u[len(u)-1] {
					u = append(u, v)
				}
			}
			sp = u
			if len(sp) == 0 {
				continue
			}
			cdf, err := d.CDF(sp)
			if err != nil || len(cdf) != len(sp)+1 || cdf[len(sp)] != 1 {
				t.Fatalf("%s: CDF(%v)=%v,%v", desc, sp, cdf, err)
			}
			pmf, err := d.PMF(sp)
			if err != nil || len(pmf) != len(cdf) {
				t.Fatalf("%s: PMF(%v)=%v,%v", desc, sp, pmf, err)
			}
			sum := 0.0
			for i := range cdf {
				if i < len(sp) {
					if r, err := d.Rank(sp[i]); err != nil || r != cdf[i] {
						t.Fatalf("%s: CDF(%v)[%d]=%v, rank %v,%v", desc, sp, i, cdf[i], r, err)
					}
				}
				sum += pmf[i]
				if math.Abs(sum-cdf[i]) > 1e-9 || pmf[i] < -1e-9 {
					t.Fatalf("%s: PMF(%v)=%v does not sum to CDF %v", desc, sp, pmf, cdf)
				}
			}
		case 7:
			before := state(d)
			for _, r := range []float64{-1e-9, 1 + 1e-9, math.NaN(), math.Inf(1), math.Inf(-1)} {
				if v, err := d.Quantile(r); err == nil {
					t.Fatalf("%s: quantile(%v)=%v accepted", desc, r, v)
				}
			}
			if v, err := d.Rank(math.NaN()); err == nil {
				t.Fatalf("%s: rank(NaN)=%v accepted", desc, v)
			}
			for _, sp := range [][]float64{{1, 1}, {2, 1}, {math.NaN()}, {0, math.NaN()}} {
				if v, err := d.CDF(sp); err == nil {
					t.Fatalf("%s: CDF(%v)=%v accepted", desc, sp, v)
				}
				if v, err := d.PMF(sp); err == nil {
					t.Fatalf("%s: PMF(%v)=%v accepted", desc, sp, v)
				}
			}
			if state(d) != before && len(ranks)+len(quants) > 0 {
				t.Fatalf("%s: rejected query changed the digest", desc)
			}
		}
	}
	mono := func(name string, ps []pt, tol float64) {
		sort.Slice(ps, func(i, j int) bool { return ps[i].a < ps[j].a })
		for i := 1; i < len(ps); i++ {
			if ps[i].r < ps[i-1].r-tol {
				t.Fatalf("%s: %s(%v)=%v above %s(%v)=%v", desc, name, ps[i-1].a, ps[i-1].r, name, ps[i].a, ps[i].r)
			}
		}
	}
	mono("rank", ranks, 1e-12)
	mono("quantile", quants, 1e-12*(x.max/2-x.min/2)+1e-14*x.maxabs)
	if err := x.check(); err != nil {
		t.Fatalf("%s: after queries: %v", desc, err)
	}
	if len(w.cs) >= 2 && len(w.cs) < int(n) {
		c.NT(desc)
	}
	if c.WantSample() {
		c.Sample("%s", desc)
	}
}

// every value its own centroid: order statistics are exact
func d02exact(t *rapid.T, c *vk.Case) {
	k := drawK(t)
	n := vk.Int(t, "n", 1, int(k)/2)
	x, err := newSk(k)
	if err != nil {
		t.Fatal(err)
	}
	span := vk.Pick(t, "span", 3, 20, 1<<30)
	p := vk.NewPRNG(uint64(vk.Int(t, "s", 0, 1<<20)))
	var all []float64
	for i := 0; i < n; i++ {
		v := float64(p.Intn(span)) / 4
		if err := x.update(v); err != nil {
			t.Fatal(err)
		}
		all = append(all, v)
		if p.Intn(8) == 0 {
			if _, err := x.d.Quantile(0.5); err != nil {
				t.Fatal(err)
			}
		}
	}
	sort.Float64s(all)
	desc := fmt.Sprintf("k=%d %v", k, all)
	for i, v := range all {
		l, u := sort.SearchFloat64s(all, v), sort.Search(n, func(i int) bool { return all[i] > v })
		want := float64(l+u) / 2 / float64(n)
		if r, err := x.d.Rank(v); err != nil || math.Abs(r-want) > 1e-12 {
			t.Fatalf("%s: rank(%v)=%v,%v want %v", desc, v, r, err, want)
		}
		if q, err := x.d.Quantile((float64(i) + 0.5) / float64(n)); err != nil || q != v {
			t.Fatalf("%s: quantile((%d+0.5)/n)=%v,%v want %v", desc, i, q, err, v)
		}
	}
	c.NT(desc)
}

func d02empty(t *rapid.T, c *vk.Case) {
	k := uint16(vk.Int(t, "k", 0, 70))
	x, err := newSk(k)
	if k < 10 {
		if err == nil {
			t.Fatalf("k=%d accepted", k)
		}
		c.NT(k)
		return
	}
	if err != nil {
		t.Fatalf("k=%d: %v", k, err)
	}
	d := x.d
	for i := 0; i < 2; i++ {
		_, e1 := d.Rank(0)
		_, e2 := d.Quantile(0.5)
		_, e3 := d.CDF([]float64{1})
		_, e4 := d.PMF([]float64{1})
		_, e5 := d.MinValue()
		_, e6 := d.MaxValue()
		for j, e := range []error{e1, e2, e3, e4, e5, e6} {
			if e == nil {
				t.Fatalf("empty digest k=%d: query %d gives no error", k, j)
			}
		}
		if err := x.check(); err != nil {
			t.Fatalf("empty k=%d: %v", k, err)
		}
		if i == 0 {
			b, _ := img(d, false)
			if d, err = tdigest.DecodeDouble(b); err != nil {
				t.Fatal(err)
			}
		}
	}
	c.NT(k)
}

// d02acc compares ranks and quantiles of smooth data with the exact distribution.
func d02acc(t *rapid.T, c *vk.Case) {
	k := vk.Pick(t, "k", uint16(10), 20, 50, 100, 200)
	n := vk.Int(t, "n", 1000, 40000)
	kind := vk.Pick(t, "dist", "uniform", "normal", "exp", "pareto")
	ord := vk.Pick(t, "order", "random", "asc", "desc", "zigzag")
	parts := vk.Pick(t, "parts", 1, 1, 2, 5, 16)
	tree := vk.Pick(t, "tree", "left", "balanced")
	split := vk.Pick(t, "split", "contiguous", "round-robin")
	seed := vk.Int(t, "seed", 0, 1<<20)
	p := vk.NewPRNG(uint64(seed))
	vals := make([]float64, n)
	for i := range vals {
		switch kind {
		case "uniform":
			vals[i] = p.F64()
		case "normal":
			vals[i] = math.Sqrt(-2*math.Log(1-p.F64())) * math.Cos(2*math.Pi*p.F64())
		case "exp":
			vals[i] = -math.Log(1 - p.F64())
		case "pareto":
			vals[i] = math.Pow(1-p.F64(), -0.5)
		}
	}
	arrange(vals, ord, p)
	sks := make([]*sk, parts)
	for i := range sks {
		var err error
		if sks[i], err = newSk(k); err != nil {
			t.Fatal(err)
		}
	}
	for i, v := range vals {
		j := i % parts
		if split == "contiguous" {
			j = i * parts / n
		}
		if err := sks[j].update(v); err != nil {
			t.Fatal(err)
		}
		if p.Intn(500) == 0 {
			_, _ = sks[j].d.Quantile(0.5)
		}
	}
	if tree == "left" {
		for i := 1; i < parts; i++ {
			if err := sks[0].merge(sks[i]); err != nil {
				t.Fatal(err)
			}
		}
	} else {
		for s := 1; s < parts; s *= 2 {
			for i := 0; i+s < parts; i += 2 * s {
				if err := sks[i].merge(sks[i+s]); err != nil {
					t.Fatal(err)
				}
			}
		}
	}
	x := sks[0]
	sort.Float64s(vals)
	N := float64(n)
	z := 4*math.Log(N/(2*float64(k))) + 24
	desc := fmt.Sprintf("k=%d n=%d %s/%s/s%d parts=%d %s %s", k, n, kind, ord, seed, parts, tree, split)
	lim := func(q float64) float64 { // weight a centroid may have at rank q
		return math.Max(1, N*q*(1-q)*z/(2*float64(k)))
	}
	worst, worstQ := 0.0, 0.0
	for i := 0; i <= 60; i++ {
		q := float64(i) / 60
		switch {
		case i < 10:
			q = math.Pow(10, -float64(10-i)/2)
		case i > 50:
			q = 1 - math.Pow(10, -float64(i-50)/2)
		}
		j := min(int(q*N), n-1)
		v := vals[j]
		r, err := x.d.Rank(v)
		if err != nil {
			t.Fatalf("%s: %v", desc, err)
		}
		tr := (float64(j) + 0.5) / N
		e := math.Abs(r-tr) * N / lim(tr)
		worst = math.Max(worst, e)
		if e > 2 {
			t.Fatalf("%s: rank(%v)=%v, true %v: off by %.1f values where a centroid may hold %.1f", desc, v, r, tr, e*lim(tr), lim(tr))
		}
		qv, err := x.d.Quantile(q)
		if err != nil {
			t.Fatalf("%s: %v", desc, err)
		}
		at := float64(sort.SearchFloat64s(vals, qv))
		eq := math.Max(0, math.Abs(at-q*N)-1) / lim(q)
		worstQ = math.Max(worstQ, eq)
		if eq > 2 {
			t.Fatalf("%s: quantile(%v)=%v has true rank %v: off by %.1f values where a centroid may hold %.1f", desc, q, qv, at/N, eq*lim(q), lim(q))
		}
	}
	if os.Getenv("VK_D02DUMP") != "" {
		fmt.Printf("STAT %.3f %.3f %s\n", worst, worstQ, desc)
	}
	c.NT(desc)
	if c.WantSample() {
		c.Sample("%s: worst rank error %.2f centroid weights", desc, worst)
	}
}

func TestD02(t *testing.T) {
	vk.Property(t, "D02", "the digest holds at least two centroids and at least one of several values (or is the stated exact/empty/accuracy case)",
		vk.Sub{Name: "interpolation", Quick: 20000, Thorough: 400000, Fn: d02},
		vk.Sub{Name: "exact", Quick: 10000, Thorough: 100000, Fn: d02exact},
		vk.Sub{Name: "empty", Quick: 200, Thorough: 400, Fn: d02empty},
		vk.Sub{Name: "accuracy", Quick: 3000, Thorough: 40000, Fn: d02acc},
	)
}
