package req_test

import (
	"fmt"
	"math"
	"slices"
	"testing"

	"github.com/apache/datasketches-go/req"
	"pgregory.net/rapid"

	"verif/qref"
	"verif/vk"
)

func less(a, b float32) bool { return a < b }

// view is the retained pairs with the exact extremes pulled in when they are not retained.
func view(s *req.Sketch) *qref.View[float32] {
	var q []float32
	var w []int64
	for _, p := range pairs(s) {
		q = append(q, p.q)
		w = append(w, p.w)
	}
	v := qref.New(q, w, less)
	mn, _ := s.MinItem()
	mx, _ := s.MaxItem()
	last := v.Q[len(v.Q)-1]
	if v.Q[0] != mn {
		v.Q = append([]float32{mn}, v.Q...)
		v.Cum = append([]int64{1}, v.Cum...)
	}
	if last != mx {
		v.Cum[len(v.Cum)-1] = v.N - 1
		v.Q = append(v.Q, mx)
		v.Cum = append(v.Cum, v.N)
	}
	return v
}

func eqF(a, b []float64, tol float64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !(math.Abs(a[i]-b[i]) <= tol) {
			return false
		}
	}
	return true
}

func drawRank(t *rapid.T, n int64) float64 {
	switch vk.Int(t, "rk", 0, 4) {
	case 0:
		return vk.Pick(t, "re", 0.0, 1.0, 0.5, 5e-324, math.Nextafter(1, 0))
	case 1:
		return float64(vk.Int(t, "u", 0, 1<<30)) / (1 << 30)
	default:
		j := float64(vk.Int(t, "j", 0, int(n)))
		return math.Min(1, math.Max(0, (j+vk.Pick(t, "off", 0, 0, 0.3, -0.3))/float64(n)))
	}
}

func refBounds(k int, est bool, r float64, nsd int, hra bool, n int64) (lb, ub float64) {
	base := float64(3 * k)
	thr := base / float64(n)
	if !est || float64(n) <= base || hra && r >= 1-thr || !hra && r <= thr {
		return r, r
	}
	rel := math.Sqrt(0.0512/3) / float64(k) * r
	if hra {
		rel = math.Sqrt(0.0512/3) / float64(k) * (1 - r)
	}
	fix := 0.084 / float64(k)
	d := math.Min(rel, fix) * float64(nsd)
	return r - d, r + d
}

func query(t *rapid.T, s *req.Sketch, v *qref.View[float32]) (string, error) {
	inc := vk.Chance(t, "inc", 1, 2)
	var so []req.SearchCriteriaOptionFunc
	if !inc {
		so = append(so, req.WithExclusiveSearch())
	}
	pick := func(l string) float32 {
		var x float32
		if vk.Chance(t, l+".in", 2, 3) {
			x = v.Q[vk.Int(t, l, 0, len(v.Q)-1)]
		} else {
			x = conv(int64(vk.Int(t, l, 0, 1<<20)))
		}
		return x
	}
	finite := func(l string) float32 {
		x := pick(l)
		if math.IsInf(float64(x), 0) {
			x = 1
		}
		return x
	}
	splits := func() []float32 {
		var sp []float32
		for i, n := 0, vk.Int(t, "nsp", 1, 6); i < n; i++ {
			sp = append(sp, pick("sp"))
		}
		slices.Sort(sp)
		return slices.Compact(sp)
	}
	switch vk.Int(t, "qop", 0, 9) {
	case 0:
		x := finite("x")
		d := fmt.Sprintf("rank(%v,%v)", x, inc)
		r, err := s.Rank(x, so...)
		if err != nil || r != v.Rank(x, inc) {
			return d, fmt.Errorf("%v,%v want %v", r, err, v.Rank(x, inc))
		}
		return d, nil
	case 1:
		r := drawRank(t, v.N)
		d := fmt.Sprintf("quantile(%v,%v)", r, inc)
		q, err := s.Quantile(r, so...)
		if err != nil || !v.QuantileOK(r, inc, q) {
			return d, fmt.Errorf("%v,%v want %v", q, err, v.At(qref.Nat(r, v.N, inc)[0], inc))
		}
		return d, nil
	case 2:
		sp := splits()
		d := fmt.Sprintf("cdf(%v,%v)", sp, inc)
		r, err := s.CDF(sp, inc)
		if err != nil || !eqF(r, v.CDF(sp, inc), 0) {
			return d, fmt.Errorf("%v,%v want %v", r, err, v.CDF(sp, inc))
		}
		return d, nil
	case 3:
		sp := splits()
		d := fmt.Sprintf("pmf(%v,%v)", sp, inc)
		r, err := s.PMF(sp, so...)
		if err != nil || !eqF(r, v.PMF(sp, inc), 1e-13) {
			return d, fmt.Errorf("%v,%v want %v", r, err, v.PMF(sp, inc))
		}
		return d, nil
	case 4:
		xs := []float32{finite("x0"), finite("x1")}
		d := fmt.Sprintf("ranks(%v,%v)", xs, inc)
		r, err := s.Ranks(xs, so...)
		if err != nil || !eqF(r, []float64{v.Rank(xs[0], inc), v.Rank(xs[1], inc)}, 0) {
			return d, fmt.Errorf("%v,%v", r, err)
		}
		return d, nil
	case 5:
		rs := []float64{drawRank(t, v.N), drawRank(t, v.N)}
		d := fmt.Sprintf("quantiles(%v,%v)", rs, inc)
		q, err := s.Quantiles(rs, so...)
		if err != nil || len(q) != 2 || !v.QuantileOK(rs[0], inc, q[0]) || !v.QuantileOK(rs[1], inc, q[1]) {
			return d, fmt.Errorf("%v,%v", q, err)
		}
		return d, nil
	case 6, 7:
		r := drawRank(t, v.N)
		d := fmt.Sprintf("bounds(%v)", r)
		q, err := s.Quantile(r)
		if err != nil {
			return d, err
		}
		pl, pu, pql, pqu := r, r, q, q
		for nsd := 1; nsd <= 3; nsd++ {
			l, e1 := s.RankLowerBound(r, req.WithNumStdDev(nsd))
			u, e2 := s.RankUpperBound(r, req.WithNumStdDev(nsd))
			if e1 != nil || e2 != nil || l > pl || u < pu {
				return d, fmt.Errorf("rank bounds at %d deviations %v..%v (%v,%v) not outside %v..%v", nsd, l, u, e1, e2, pl, pu)
			}
			wl, wu := refBounds(s.K(), s.IsEstimationMode(), r, nsd, s.IsHighRankAccuracyMode(), s.N())
			if math.Abs(l-wl) > 1e-12 || math.Abs(u-wu) > 1e-12 {
				return d, fmt.Errorf("rank bounds at %d deviations %v..%v want %v..%v", nsd, l, u, wl, wu)
			}
			ql, e1 := s.QuantileLowerBound(r, req.WithNumStdDev(nsd))
			qu, e2 := s.QuantileUpperBound(r, req.WithNumStdDev(nsd))
			if e1 != nil || e2 != nil || ql > pql || qu < pqu {
				return d, fmt.Errorf("quantile bounds at %d deviations %v..%v (%v,%v) not outside %v..%v", nsd, ql, qu, e1, e2, pql, pqu)
			}
			if !v.QuantileOK(math.Max(0, l), true, ql) || !v.QuantileOK(math.Min(1, u), true, qu) {
				return d, fmt.Errorf("quantile bounds %v..%v are not the quantiles of the rank bounds %v..%v", ql, qu, l, u)
			}
			pl, pu, pql, pqu = l, u, ql, qu
		}
		dl, _ := s.RankLowerBound(r)
		l2, _ := s.RankLowerBound(r, req.WithNumStdDev(2))
		if dl != l2 {
			return d, fmt.Errorf("default lower bound %v is not the two-deviation one %v", dl, l2)
		}
		return d, nil
	case 8:
		sv, err := s.SortedView()
		if err != nil {
			return "view", err
		}
		if sv.N() != v.N || sv.NumRetained() != len(v.Q) || !slices.Equal(sv.Quantiles(), v.Q) {
			return "view", fmt.Errorf("view of %d items %v want %v", sv.N(), sv.Quantiles(), v.Q)
		}
		mn, _ := sv.MinItem()
		mx, _ := sv.MaxItem()
		if mn != v.Q[0] || mx != v.Q[len(v.Q)-1] {
			return "view", fmt.Errorf("view extremes %v,%v", mn, mx)
		}
		cw := sv.CumulativeWeights()
		i := 0
		for it := sv.Iterator(); it.Next(); i++ {
			q, e1 := it.Quantile()
			nr, e2 := it.NaturalRank()
			ne, e3 := it.NaturalRankWithCriterion(false)
			w, e4 := it.Weight()
			prev := int64(0)
			if i > 0 {
				prev = cw[i-1]
			}
			if e1 != nil || e2 != nil || e3 != nil || e4 != nil || q != v.Q[i] || nr != cw[i] || ne != prev || w != cw[i]-prev || w < 0 {
				return "view", fmt.Errorf("iterator at %d: %v %v %v %v (%v %v %v %v)", i, q, nr, ne, w, e1, e2, e3, e4)
			}
			if (i+1 == len(v.Q) || v.Q[i+1] != v.Q[i]) && cw[i] != v.Cum[i] {
				return "view", fmt.Errorf("cumulative weight %d at %v want %d", cw[i], v.Q[i], v.Cum[i])
			}
		}
		if i != len(v.Q) {
			return "view", fmt.Errorf("iterator stopped after %d of %d", i, len(v.Q))
		}
		return "view", nil
	default:
		bad := vk.Pick(t, "bad", -1e-9, 1.0000001, -1, 2, math.Inf(1), math.Inf(-1), math.NaN())
		if _, err := s.Quantile(bad, so...); err == nil {
			return "bad", fmt.Errorf("quantile of rank %v accepted", bad)
		}
		if _, err := s.Quantiles([]float64{0.5, bad}, so...); err == nil {
			return "bad", fmt.Errorf("quantiles of rank %v accepted", bad)
		}
		for _, x := range []float64{math.NaN(), math.Inf(1), math.Inf(-1)} {
			if _, err := s.Rank(float32(x), so...); err == nil {
				return "bad", fmt.Errorf("rank of %v accepted", x)
			}
		}
		sp := splits()
		wrong := append(slices.Clone(sp), vk.Pick(t, "w", sp[0], sp[len(sp)-1], float32(math.NaN())))
		if _, err := s.CDF(wrong, inc); err == nil {
			return "bad", fmt.Errorf("split points %v accepted by CDF", wrong)
		}
		if _, err := s.PMF(wrong, so...); err == nil {
			return "bad", fmt.Errorf("split points %v accepted by PMF", wrong)
		}
		return "bad", nil
	}
}

func r02(t *rapid.T, c *vk.Case) {
	hra := vk.Chance(t, "hra", 1, 2)
	x, hist := build(t, hra, 1500)
	s := x.s
	nt := false
	for round := 0; round < 3; round++ {
		if s.IsEmpty() {
			_, e1 := s.Rank(1)
			_, e2 := s.Quantile(0.5)
			_, e3 := s.CDF([]float32{1}, true)
			_, e4 := s.PMF([]float32{1})
			_, e5 := s.Ranks([]float32{1})
			_, e6 := s.Quantiles([]float64{0.5})
			_, e7 := s.SortedView()
			_, e8 := s.QuantileLowerBound(0.5)
			_, e9 := s.QuantileUpperBound(0.5)
			for i, e := range []error{e1, e2, e3, e4, e5, e6, e7, e8, e9} {
				if e == nil {
					t.Fatalf("%s: query %d of an empty sketch gave no error", hist, i+1)
				}
			}
		} else {
			st := state(s)
			v := view(s)
			nt = nt || s.IsEstimationMode()
			for i, n := 0, vk.Int(t, "nq", 1, 10); i < n; i++ {
				qd, err := query(t, s, v)
				hist += " " + qd
				if err != nil {
					t.Fatalf("%s: %v", hist, err)
				}
			}
			if st2 := state(s); st2 != st {
				t.Fatalf("%s: queries changed the sketch:\n%s\n%s", hist, st, st2)
			}
		}
		switch vk.Int(t, "chg", 0, 4) {
		case 4:
			// long streams: merging the sketch with itself doubles it
			for n := vk.Int(t, "dbl", 1, 16); n > 0 && s.N() < 1<<28; n-- {
				if err := s.Merge(s); err != nil {
					t.Fatalf("%s: merge: %v", hist, err)
				}
			}
			hist += fmt.Sprintf(" double(N=%d)", s.N())
		case 0, 1:
			vs, ds := stream(t, 60)
			for _, w := range vs {
				if err := x.update(w); err != nil {
					t.Fatalf("%s: %v", hist, err)
				}
			}
			hist += " upd(" + ds + ")"
		case 2:
			y, ds := build(t, hra, 300)
			if err := x.merge(y); err != nil {
				t.Fatalf("%s: merge: %v", hist, err)
			}
			hist += " merge[" + ds + "]"
		case 3:
			x.reset()
			hist += " reset"
		}
	}
	if nt {
		c.NT(hist)
	}
	if c.WantSample() {
		c.Sample("%s", hist)
	}
}

func TestR02(t *testing.T) {
	vk.Property(t, "R02", "a sketch in estimation mode was queried",
		vk.Sub{Name: "queries", Quick: 12000, Thorough: 120000, Fn: r02},
		vk.Sub{Name: "rse", Quick: 2000, Thorough: 10000, Fn: func(t *rapid.T, c *vk.Case) {
			k := 2 * vk.Int(t, "k", 2, 512)
			n := int64(vk.Int(t, "n", 1, 1<<24))
			r := float64(vk.Int(t, "r", 0, 1<<20)) / (1 << 20)
			hra := vk.Chance(t, "hra", 1, 2)
			_, u := refBounds(k, true, r, 1, hra, n)
			if g := req.ComputeRSE(k, r, hra, n); math.Abs(g-(u-r)) > 1e-12 {
				t.Fatalf("ComputeRSE(%d,%v,%v,%d)=%v want %v", k, r, hra, n, g, u-r)
			}
			c.NT(k, n, r, hra)
		}},
	)
}
