package sampling_test

import (
	"fmt"
	"math"

	"github.com/apache/datasketches-go/sampling"
	"pgregory.net/rapid"

	"verif/vk"
)

const maxSeen = 1<<48 - 1 // what the documented image layout can hold

// s02Giant merges reservoirs that stand for up to 2^48 items each.
func s02Giant(t *rapid.T, c *vk.Case) {
	k := kLong
	x := newRU[int64](t, vk.Int(t, "maxK", 2, 40))
	hist := fmt.Sprintf("maxK=%d", x.maxK)
	next := 0
	refused, merged := 0, 0
	for st, n := 0, vk.Int(t, "steps", 1, 8); st < n; st++ {
		kk := vk.Int(t, "k", 2, 60)
		var n int64
		switch vk.Int(t, "size", 0, 5) {
		case 0:
			n = int64(vk.Int(t, "n", 1, 2*kk))
		case 1:
			n = maxSeen - int64(vk.Int(t, "d", -2, 3))
		case 2:
			n = maxSeen - x.n + int64(vk.Int(t, "d", -2, 2))
		default:
			n = int64(1)<<vk.Int(t, "lg", 8, 47) + int64(vk.Int(t, "d", -1, 1))
		}
		if n < 1 {
			continue
		}
		items := make([]int64, min(n, int64(kk)))
		for i := range items {
			items[i] = k.item(next)
			next++
		}
		form := vk.Pick(t, "form", "raw", "sketch", "trip")
		hist += fmt.Sprintf(" %s(k=%d,n=%d)", form, kk, n)
		var before string
		if r, _ := x.u.Result(); r != nil {
			before = rState(r)
		}
		err := error(nil)
		if form == "raw" {
			err = x.u.UpdateFromRaw(n, kk, items)
		} else {
			var v *sampling.ReservoirItemsUnion[int64]
			if v, err = sampling.NewReservoirItemsUnion[int64](kk); err != nil {
				t.Fatal(err)
			}
			var s *sampling.ReservoirItemsSketch[int64]
			if err = v.UpdateFromRaw(n, kk, items); err == nil {
				if s, err = v.Result(); err != nil {
					t.Fatalf("%s: %v", hist, err)
				}
				if form == "trip" {
					b, e := s.ToSlice(k.serde)
					if e != nil {
						t.Fatalf("%s: %v", hist, e)
					}
					if s, e = sampling.NewReservoirItemsSketchFromSlice[int64](b, k.serde); e != nil {
						t.Fatalf("%s: decode: %v", hist, e)
					}
				}
				if s.N() != n {
					t.Fatalf("%s: n=%d", hist, s.N())
				}
				err = x.u.UpdateSketch(s)
			}
		}
		if (err != nil) != (n > maxSeen-x.n) {
			t.Fatalf("%s: error %v with %d items before", hist, err, x.n)
		}
		if err != nil {
			refused++
			after := ""
			if r, _ := x.u.Result(); r != nil {
				after = rState(r)
			}
			if after != before {
				t.Fatalf("%s: refused merge changed the union:\nwas %s\nnow %s", hist, before, after)
			}
			continue
		}
		merged++
		x.offer(k, items, kk, n)
		if _, err := x.check(k); err != nil {
			t.Fatalf("%s: %v", hist, err)
		}
	}
	if merged > 0 {
		b, err := x.u.ToSlice(k.serde)
		if err != nil {
			t.Fatalf("%s: %v", hist, err)
		}
		u, err := sampling.NewReservoirItemsUnionFromSlice[int64](b, k.serde)
		if err != nil {
			t.Fatalf("%s: decode: %v", hist, err)
		}
		x.u = u
		if _, err := x.check(k); err != nil {
			t.Fatalf("%s: after a round trip: %v", hist, err)
		}
		r, err := x.u.Result()
		if err != nil {
			t.Fatal(err)
		}
		sum, err := r.EstimateSubsetSum(func(int64) bool { return true })
		if err != nil || math.Abs(sum.Estimate-float64(x.n)) > 1e-6*float64(x.n) || sum.LowerBound > sum.Estimate || sum.UpperBound < sum.Estimate {
			t.Fatalf("%s: subset sum of everything %+v, %v", hist, sum, err)
		}
		err = r.Update(k.item(next))
		if (err != nil) != (r.N() == maxSeen && x.n == maxSeen) {
			t.Fatalf("%s: update of the result with n=%d: %v, now n=%d", hist, x.n, err, r.N())
		}
		c.NT(hist)
	}
	if refused > 0 {
		c.Class("more than 2^48-1 items refused")
	}
	if c.WantSample() {
		c.Sample("%s", hist)
	}
}

// s02GiantStat: which input the survivors come from when the inputs stand for billions of items.
func s02GiantStat(t *rapid.T, c *vk.Case) {
	maxK := vk.Int(t, "maxK", 2, 20)
	m := vk.Int(t, "inputs", 2, 4)
	ks := make([]int, m)
	ns := make([]int64, m)
	var N int64
	desc := fmt.Sprintf("maxK=%d", maxK)
	lg := vk.Int(t, "lg", 10, 42)
	for i := range ks {
		ks[i] = vk.Int(t, "k", 2, 25)
		ns[i] = int64(1)<<lg*int64(vk.Int(t, "mul", 1, 9)) + int64(vk.Int(t, "d", 0, 9))
		N += ns[i]
		desc += fmt.Sprintf(" raw(k=%d,n=%d)", ks[i], ns[i])
	}
	trials := 3000
	if vk.Tier() == "thorough" {
		trials = 20000
	}
	var means []*mean
	inc := make([]map[int64]int, m)
	K := -1
	for tr := 0; tr < trials; tr++ {
		u, err := sampling.NewReservoirItemsUnion[int64](maxK)
		if err != nil {
			t.Fatal(err)
		}
		for i, kk := range ks {
			items := make([]int64, kk)
			for j := range items {
				items[j] = int64(i*100 + j)
			}
			if err := u.UpdateFromRaw(ns[i], kk, items); err != nil {
				t.Fatalf("%s: %v", desc, err)
			}
		}
		r, err := u.Result()
		if err != nil {
			t.Fatal(err)
		}
		if K < 0 {
			K = r.K()
			for i := range ks {
				means = append(means, &mean{name: fmt.Sprintf("survivors of input %d", i), want: float64(K) * float64(ns[i]) / float64(N), maxValue: float64(K)})
				inc[i] = map[int64]int{}
			}
		}
		if r.K() != K || r.N() != N || r.NumSamples() != K {
			t.Fatalf("%s: K=%d N=%d samples=%d, other trials K=%d, inputs %d", desc, r.K(), r.N(), r.NumSamples(), K, N)
		}
		cnt := make([]int, m)
		for _, v := range r.Samples() {
			cnt[v/100]++
			inc[v/100][v%100]++
		}
		for i := range ks {
			means[i].add(float64(cnt[i]))
		}
	}
	for i, me := range means {
		if err := me.err(); err != nil {
			t.Fatalf("%s: result k=%d: %v", desc, K, err)
		}
		p := float64(K) * float64(ns[i]) / float64(N) / float64(ks[i])
		for j := 0; j < ks[i] && p <= 1; j++ {
			if d := kl(inc[i][int64(j)], trials, p); d > klLimit {
				t.Fatalf("%s: sample %d of input %d survived in %d of %d trials, expected probability %.4f", desc, j, i, inc[i][int64(j)], trials, p)
			}
		}
	}
	c.NT(desc)
	if c.WantSample() {
		c.Sample("%s -> K=%d, %d trials", desc, K, trials)
	}
}
