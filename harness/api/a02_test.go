package api

import (
	"errors"
	"fmt"
	"math"
	"slices"
	"testing"

	cq "github.com/apache/datasketches-go/common/quantiles"
	"pgregory.net/rapid"

	"verif/qref"
	"verif/vk"
)

// a02: the numeric view built from weighted items against sums over those items.
func a02[T cq.Number](name string, val func(*rapid.T, string) T, next func(T) T) func(*rapid.T, *vk.Case) {
	return func(t *rapid.T, c *vk.Case) {
		n := vk.Pick(t, "n", 1, 2, 3, vk.Int(t, "nn", 4, 40), vk.Int(t, "nb", 41, 300))
		seen := map[T]bool{}
		var q []T
		for i := 0; i < n; i++ {
			v := val(t, fmt.Sprintf("v%d", i))
			if v != v {
				continue
			}
			if vk.Chance(t, fmt.Sprintf("dup%d", i), 1, 6) && len(q) > 0 {
				v = q[vk.Int(t, fmt.Sprintf("dupof%d", i), 0, len(q)-1)]
			}
			seen[v] = true
			q = append(q, v)
		}
		if len(q) == 0 {
			return
		}
		slices.Sort(q)
		n = len(q)
		maxW := vk.Pick(t, "maxw", 1, 4, 1<<10, 1<<40)
		w := make([]int64, n)
		cum := make([]int64, n)
		var N int64
		for i := range w {
			w[i] = int64(1) << vk.Int(t, fmt.Sprintf("w%d", i), 0, lg(maxW))
			if i == 0 || i == n-1 {
				w[i] *= 2 // room for an extreme that is not retained
			}
			N += w[i]
			cum[i] = N
		}
		lo, hi := q[0], q[n-1]
		rq, rw := slices.Clone(q), slices.Clone(w)
		if vk.Chance(t, "lostmin", 1, 3) {
			if x := val(t, "min"); x < lo {
				lo = x
				rq = append([]T{x}, rq...)
				rw = append([]int64{1}, rw...)
				rw[1]--
			}
		}
		if vk.Chance(t, "lostmax", 1, 3) {
			if x := val(t, "max"); x > hi {
				hi = x
				rq = append(rq, x)
				rw = append(rw, 1)
				rw[len(rw)-2]--
			}
		}
		desc := fmt.Sprintf("%s q=%v w=%v min=%v max=%v", name, q, w, lo, hi)
		if len(desc) > 600 {
			desc = desc[:600] + "..."
		}
		kq, kc := slices.Clone(q), slices.Clone(cum)
		view := cq.NewNumericSortedView[T](q, cum, N, hi, lo)
		r := qref.New(rq, rw, func(a, b T) bool { return a < b })
		if r.N != N {
			t.Fatalf("harness: %d %d", r.N, N)
		}
		check := func() {
			if view.N() != N || view.NumRetained() != len(rq) || view.IsEmpty() {
				t.Fatalf("%s: N %d, %d retained, empty %v", desc, view.N(), view.NumRetained(), view.IsEmpty())
			}
			if a, b := view.Quantiles(), view.CumulativeWeights(); !slices.Equal(a, r.Q) || !slices.Equal(b, r.Cum) {
				t.Fatalf("%s: view %v %v\nwant %v %v", desc, a, b, r.Q, r.Cum)
			}
			if a, err := view.MinItem(); err != nil || a != lo {
				t.Fatalf("%s: min %v %v", desc, a, err)
			}
			if a, err := view.MaxItem(); err != nil || a != hi {
				t.Fatalf("%s: max %v %v", desc, a, err)
			}
		}
		check()
		points := []T{lo, hi, rq[len(rq)/2]}
		for i := 0; i < 12; i++ {
			v := rq[vk.Int(t, fmt.Sprintf("at%d", i), 0, len(rq)-1)]
			switch vk.Int(t, fmt.Sprintf("pk%d", i), 0, 2) {
			case 0:
				v = next(v)
			case 1:
				v = val(t, fmt.Sprintf("pv%d", i))
			}
			if v == v {
				points = append(points, v)
			}
		}
		for _, inc := range []bool{true, false} {
			for _, x := range points {
				if got, err := view.Rank(x, inc); err != nil || got != r.Rank(x, inc) {
					t.Fatalf("%s: rank of %v (inclusive %v) is %v %v, want %v", desc, x, inc, got, err, r.Rank(x, inc))
				}
			}
			for i := 0; i < 8; i++ {
				rank := vk.Pick(t, fmt.Sprintf("rk%v%d", inc, i), 0, 1, 0.5, rapid.Float64Range(0, 1).Draw(t, fmt.Sprintf("rf%v%d", inc, i)),
					float64(r.Cum[vk.Int(t, fmt.Sprintf("rc%v%d", inc, i), 0, len(r.Cum)-1)])/float64(N))
				got, err := view.Quantile(rank, inc)
				if err != nil || !r.QuantileOK(rank, inc, got) {
					t.Fatalf("%s: quantile of %v (inclusive %v) is %v %v, N=%d", desc, rank, inc, got, err, N)
				}
			}
			sp := slices.Clone(points)
			slices.Sort(sp)
			sp = slices.Compact(sp)
			cdf, err := view.CDF(sp, inc)
			if err != nil || !slices.Equal(cdf, r.CDF(sp, inc)) {
				t.Fatalf("%s: CDF at %v (inclusive %v) is %v %v, want %v", desc, sp, inc, cdf, err, r.CDF(sp, inc))
			}
			pmf, err := view.PMF(sp, inc)
			want := r.PMF(sp, inc)
			if err != nil || len(pmf) != len(want) {
				t.Fatalf("%s: PMF at %v: %v %v", desc, sp, pmf, err)
			}
			for i := range pmf {
				if math.Abs(pmf[i]-want[i]) > 4e-16 {
					t.Fatalf("%s: PMF at %v (inclusive %v) is %v, want %v", desc, sp, inc, pmf, want)
				}
			}
			if len(sp) > 1 {
				for _, bad := range [][]T{{sp[0], sp[0]}, {sp[1], sp[0]}, append(slices.Clone(sp), sp[0])} {
					if _, err := view.CDF(bad, inc); err == nil {
						t.Fatalf("%s: CDF accepted split points %v", desc, bad)
					}
					if _, err := view.PMF(bad, inc); err == nil {
						t.Fatalf("%s: PMF accepted split points %v", desc, bad)
					}
				}
			}
			for _, bad := range []float64{-1e-9, 1 + 1e-9, math.Inf(1), math.Inf(-1), math.NaN()} {
				if v, err := view.Quantile(bad, inc); err == nil {
					t.Fatalf("%s: quantile of rank %v is %v", desc, bad, v)
				}
			}
		}
		// the iterator walks the same items
		it := view.Iterator()
		if _, err := it.Quantile(); !errors.Is(err, cq.ErrIndexOutOfValidRange) {
			t.Fatalf("%s: quantile before the first item: %v", desc, err)
		}
		var prev int64
		i := 0
		for ; it.Next(); i++ {
			v, e1 := it.Quantile()
			nr, e2 := it.NaturalRank()
			ni, e3 := it.NaturalRankWithCriterion(true)
			nx, e4 := it.NaturalRankWithCriterion(false)
			rr, e5 := it.NormalizedRank()
			ri, e6 := it.NormalizedRankWithCriterion(true)
			rx, e7 := it.NormalizedRankWithCriterion(false)
			wt, e8 := it.Weight()
			if err := errors.Join(e1, e2, e3, e4, e5, e6, e7, e8); err != nil {
				t.Fatalf("%s: item %d: %v", desc, i, err)
			}
			if i >= len(r.Q) || v != r.Q[i] || nr != r.Cum[i] || ni != nr || nx != prev || wt != nr-prev || it.N() != N ||
				rr != float64(nr)/float64(N) || ri != rr || rx != float64(prev)/float64(N) {
				t.Fatalf("%s: item %d: %v rank %d/%d/%d %v/%v/%v weight %d N %d; previous rank %d", desc, i, v, nr, ni, nx, rr, ri, rx, wt, it.N(), prev)
			}
			prev = nr
		}
		if i != len(r.Q) {
			t.Fatalf("%s: iterator gave %d of %d items", desc, i, len(r.Q))
		}
		if _, err := it.NormalizedRankWithCriterion(false); err == nil {
			t.Fatalf("%s: rank past the last item", desc)
		}
		if _, err := it.Weight(); err == nil {
			t.Fatalf("%s: weight past the last item", desc)
		}
		// accessors hand out copies, and no query changes the view or its source
		a, b := view.Quantiles(), view.CumulativeWeights()
		for i := range a {
			a[i], b[i] = 0, 0
		}
		check()
		if !slices.Equal(q, kq) || !slices.Equal(cum, kc) {
			t.Fatalf("%s: the source slices were changed", desc)
		}
		if len(rq) > 2 && len(seen) > 1 {
			c.NT(desc)
			c.Class(fmt.Sprintf("%s lostmin=%v lostmax=%v", name, lo < q[0], hi > q[n-1]))
		}
		if c.WantSample() {
			c.Sample("%.300s", desc)
		}
	}
}

func lg(n int) int {
	k := 0
	for 1<<k < n {
		k++
	}
	return k
}

func drawInt(t *rapid.T, l string) int64 {
	switch vk.Int(t, l+"k", 0, 4) {
	case 0:
		return int64(vk.Int(t, l, -3, 3))
	case 1:
		return math.MaxInt64 - int64(vk.Int(t, l, 0, 4)) // neighbours that one float64 stands for
	case 2:
		return 1<<53 + int64(vk.Int(t, l, -2, 9))
	case 3:
		return math.MinInt64 + int64(vk.Int(t, l, 0, 4))
	}
	return rapid.Int64().Draw(t, l)
}

func drawFloat(t *rapid.T, l string) float64 {
	switch vk.Int(t, l+"k", 0, 3) {
	case 0:
		return float64(vk.Int(t, l, -3, 3))
	case 1:
		return vk.Pick(t, l, math.Inf(1), math.Inf(-1), math.MaxFloat64, -math.MaxFloat64, 5e-324, -5e-324, math.Copysign(0, -1), 0)
	}
	return rapid.Float64().Draw(t, l)
}

func TestA02(t *testing.T) {
	f64 := a02("float64", drawFloat, func(x float64) float64 { return math.Nextafter(x, math.Inf(1)) })
	f32 := a02("float32", func(t *rapid.T, l string) float32 { return float32(drawFloat(t, l)) }, func(x float32) float32 { return math.Nextafter32(x, float32(math.Inf(-1))) })
	i64 := a02("int64", drawInt, func(x int64) int64 {
		if x == math.MaxInt64 {
			return x
		}
		return x + 1
	})
	vk.Property(t, "A02", "a view with at least three items and two different values",
		vk.Sub{Name: "float64", Quick: 3000, Thorough: 60000, Fn: f64},
		vk.Sub{Name: "float32", Quick: 3000, Thorough: 60000, Fn: f32},
		vk.Sub{Name: "int64", Quick: 3000, Thorough: 60000, Fn: i64},
	)
}
