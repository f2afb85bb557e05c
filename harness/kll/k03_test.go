package kll_test

import (
	"fmt"
	"math"
	"slices"
	"testing"

	"github.com/apache/datasketches-go/kll"
	"pgregory.net/rapid"

	"verif/qref"
	"verif/vk"
)

func eqF(a, b []float64, tol float64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if math.IsNaN(a[i]) || math.Abs(a[i]-b[i]) > tol {
			return false
		}
	}
	return true
}

// drawRank draws a rank, often on or just off an item boundary.
func drawRank(t *rapid.T, n int64) float64 {
	switch vk.Int(t, "rk", 0, 5) {
	case 0:
		return vk.Pick(t, "re", 0.0, 1.0, 0.5, math.Copysign(0, -1), 5e-324, math.Nextafter(1, 0))
	case 1:
		return float64(vk.Int(t, "u", 0, 1<<30)) / (1 << 30)
	default:
		j := float64(vk.Int(t, "j", 0, int(n)))
		r := (j + vk.Pick(t, "off", 0, 0, 0.3, -0.3)) / float64(n)
		return math.Min(1, math.Max(0, r))
	}
}

// query runs one drawn query and compares it with the oracle.
func query[C comparable](t *rapid.T, s *kll.ItemsSketch[C], v *qref.View[C], k kind[C]) (string, error) {
	inc := vk.Chance(t, "inc", 1, 2)
	pick := func(l string) C {
		if vk.Chance(t, l+".in", 2, 3) {
			return v.Q[vk.Int(t, l, 0, len(v.Q)-1)]
		}
		return k.conv(int64(vk.Int(t, l, 0, 1<<20)))
	}
	splits := func() []C {
		var sp []C
		for i, n := 0, vk.Int(t, "nsp", 1, 6); i < n; i++ {
			sp = append(sp, pick("sp"))
		}
		return slices.CompactFunc(sorted(sp, k.less), func(a, b C) bool { return !k.less(a, b) && !k.less(b, a) })
	}
	switch op := vk.Int(t, "qop", 0, 8); op {
	case 0:
		x := pick("x")
		d := fmt.Sprintf("rank(%v,%v)", x, inc)
		r, err := s.GetRank(x, inc)
		if err != nil || r != v.Rank(x, inc) {
			return d, fmt.Errorf("%v,%v want %v", r, err, v.Rank(x, inc))
		}
		return d, nil
	case 1:
		r := drawRank(t, v.N)
		d := fmt.Sprintf("quantile(%v,%v)", r, inc)
		q, err := s.GetQuantile(r, inc)
		if err != nil || !v.QuantileOK(r, inc, q) {
			return d, fmt.Errorf("%v,%v want %v (N=%d)", q, err, v.At(qref.Nat(r, v.N, inc)[0], inc), v.N)
		}
		return d, nil
	case 2:
		sp := splits()
		d := fmt.Sprintf("cdf(%v,%v)", sp, inc)
		r, err := s.GetCDF(sp, inc)
		if err != nil || !eqF(r, v.CDF(sp, inc), 0) {
			return d, fmt.Errorf("%v,%v want %v", r, err, v.CDF(sp, inc))
		}
		return d, nil
	case 3:
		sp := splits()
		d := fmt.Sprintf("pmf(%v,%v)", sp, inc)
		r, err := s.GetPMF(sp, inc)
		if err != nil || !eqF(r, v.PMF(sp, inc), 1e-13) {
			return d, fmt.Errorf("%v,%v want %v", r, err, v.PMF(sp, inc))
		}
		sum := 0.0
		for _, x := range r {
			sum += x
		}
		if math.Abs(sum-1) > 1e-12 {
			return d, fmt.Errorf("PMF sums to %v", sum)
		}
		return d, nil
	case 4:
		xs := []C{pick("x0"), pick("x1"), pick("x2")}
		d := fmt.Sprintf("ranks(%v,%v)", xs, inc)
		r, err := s.GetRanks(xs, inc)
		if err != nil || !eqF(r, []float64{v.Rank(xs[0], inc), v.Rank(xs[1], inc), v.Rank(xs[2], inc)}, 0) {
			return d, fmt.Errorf("%v,%v", r, err)
		}
		return d, nil
	case 5:
		rs := []float64{drawRank(t, v.N), drawRank(t, v.N)}
		d := fmt.Sprintf("quantiles(%v,%v)", rs, inc)
		q, err := s.GetQuantiles(rs, inc)
		if err != nil || len(q) != 2 || !v.QuantileOK(rs[0], inc, q[0]) || !v.QuantileOK(rs[1], inc, q[1]) {
			return d, fmt.Errorf("%v,%v", q, err)
		}
		return d, nil
	case 6:
		n := vk.Int(t, "parts", 1, 9)
		d := fmt.Sprintf("partitions(%d,%v)", n, inc)
		pb, err := s.GetPartitionBoundaries(n, inc)
		if err != nil {
			return d, err
		}
		b := pb.GetBoundaries()
		mn, _ := s.GetMinItem()
		mx, _ := s.GetMaxItem()
		if len(b) != n+1 || !v.Same(b[0], mn) || !v.Same(b[n], mx) {
			return d, fmt.Errorf("boundaries %v, want %d from %v to %v", b, n+1, mn, mx)
		}
		for i := 1; i < n; i++ {
			if k.less(b[i], b[i-1]) {
				return d, fmt.Errorf("boundaries out of order: %v", b)
			}
			// interior boundaries are the quantiles of the evenly spaced ranks; the ends of the
			// distribution are pulled to the exact minimum and maximum
			ok := false
			last := len(v.Q) - 1
			for _, nat := range qref.Nat(float64(i)/float64(n), v.N, inc) {
				w := v.At(nat, inc)
				if v.Same(w, b[i]) || (v.Same(w, v.Q[0]) && (v.Same(b[i], mn) || last > 0 && v.Same(b[i], v.Q[1]))) || (v.Same(w, v.Q[last]) && v.Same(b[i], mx)) {
					ok = true
				}
			}
			if !ok {
				return d, fmt.Errorf("boundary %d of %v is not the quantile of rank %d/%d: %v", i, b, i, n, v.At(qref.Nat(float64(i)/float64(n), v.N, inc)[0], inc))
			}
		}
		return d, nil
	case 7:
		sv, err := s.GetSortedView()
		if err != nil {
			return "view", err
		}
		i := 0
		var prev int64
		for it := sv.Iterator(); it.Next(); i++ {
			if i >= len(v.Q) {
				return "view", fmt.Errorf("view longer than %d", len(v.Q))
			}
			// equal items may come in any order, so only order and total are compared item by item
			if !v.Same(it.GetQuantile(), v.Q[i]) {
				return "view", fmt.Errorf("view item %d = %v want %v", i, it.GetQuantile(), v.Q[i])
			}
			if it.GetNaturalRank(true) != prev+it.GetWeight() || it.GetNaturalRank(false) != prev {
				return "view", fmt.Errorf("natural rank %d/%d after %d with weight %d", it.GetNaturalRank(true), it.GetNaturalRank(false), prev, it.GetWeight())
			}
			prev += it.GetWeight()
			if i+1 == len(v.Q) || !v.Same(v.Q[i+1], v.Q[i]) {
				if prev != v.Cum[i] {
					return "view", fmt.Errorf("cumulative weight at %d = %d want %d", i, prev, v.Cum[i])
				}
			}
		}
		if i != len(v.Q) || sv.GetNumRetained() != i {
			return "view", fmt.Errorf("view has %d items want %d", i, len(v.Q))
		}
		return "view", nil
	default:
		// invalid arguments
		bad := vk.Pick(t, "bad", -1e-9, 1.0000001, -1, 2, math.Inf(1), math.Inf(-1), math.NaN())
		if _, err := s.GetQuantile(bad, inc); err == nil {
			return "bad", fmt.Errorf("quantile of rank %v accepted", bad)
		}
		if _, err := s.GetQuantiles([]float64{0.5, bad}, inc); err == nil {
			return "bad", fmt.Errorf("quantiles of rank %v accepted", bad)
		}
		sp := splits()
		wrong := append(slices.Clone(sp), sp[vk.Int(t, "dup", 0, len(sp)-1)])
		if _, err := s.GetCDF(wrong, inc); err == nil {
			return "bad", fmt.Errorf("split points %v accepted by CDF", wrong)
		}
		if _, err := s.GetPMF(wrong, inc); err == nil {
			return "bad", fmt.Errorf("split points %v accepted by PMF", wrong)
		}
		if _, err := s.GetPartitionBoundaries(vk.Pick(t, "np", 0, -1, -5), inc); err == nil {
			return "bad", fmt.Errorf("partitions of non-positive count accepted")
		}
		return "bad", nil
	}
}

func emptyErrs[C comparable](s *kll.ItemsSketch[C], x C) error {
	for _, inc := range []bool{true, false} {
		_, e1 := s.GetRank(x, inc)
		_, e2 := s.GetQuantile(0.5, inc)
		_, e3 := s.GetCDF([]C{x}, inc)
		_, e4 := s.GetPMF([]C{x}, inc)
		_, e5 := s.GetRanks([]C{x}, inc)
		_, e6 := s.GetQuantiles([]float64{0.5}, inc)
		_, e7 := s.GetPartitionBoundaries(2, inc)
		_, e8 := s.GetSortedView()
		for i, e := range []error{e1, e2, e3, e4, e5, e6, e7, e8} {
			if e == nil {
				return fmt.Errorf("query %d of an empty sketch gave no error", i)
			}
		}
	}
	return nil
}

func k03[C comparable](k kind[C]) func(t *rapid.T, c *vk.Case) {
	return func(t *rapid.T, c *vk.Case) {
		x, d := build(t, k, 1200)
		s := x.s
		hist := d
		nt := false
		for round := 0; round < 3; round++ {
			if s.IsEmpty() {
				if err := emptyErrs(s, k.conv(5)); err != nil {
					t.Fatalf("%s: %v", hist, err)
				}
			} else {
				st := state(s)
				v := view(s, k.less)
				nt = nt || s.IsEstimationMode()
				for i, n := 0, vk.Int(t, "nq", 1, 10); i < n; i++ {
					qd, err := query(t, s, v, k)
					hist += " " + qd
					if err != nil {
						t.Fatalf("%s: %v", hist, err)
					}
				}
				if st2 := state(s); st2 != st {
					t.Fatalf("%s: queries changed the sketch:\n%s\n%s", hist, st, st2)
				}
				// monotone ranks
				a, b := k.conv(int64(vk.Int(t, "a", 0, 1000))), k.conv(int64(vk.Int(t, "b", 0, 1000)))
				if k.less(b, a) {
					a, b = b, a
				}
				for _, inc := range []bool{true, false} {
					ra, _ := s.GetRank(a, inc)
					rb, _ := s.GetRank(b, inc)
					if ra > rb {
						t.Fatalf("%s: rank(%v)=%v > rank(%v)=%v", hist, a, ra, b, rb)
					}
				}
			}
			// change the sketch; answers must follow
			switch vk.Int(t, "chg", 0, 4) {
			case 4:
				// long streams: merging the sketch with itself doubles it
				for n := vk.Int(t, "dbl", 1, 16); n > 0 && s.GetN() < 1<<28; n-- {
					s.Merge(s)
				}
				hist += fmt.Sprintf(" double(N=%d)", s.GetN())
			case 0, 1:
				vs, ds := stream(t, 60)
				for _, w := range vs {
					x.update(k.conv(w))
				}
				hist += " upd(" + ds + ")"
			case 2:
				y, ds := build(t, k, 300)
				x.merge(y)
				hist += " merge[" + ds + "]"
			case 3:
				x.reset()
				hist += " reset"
			}
		}
		if nt {
			c.NT(hist)
		}
		c.Class(k.name)
		if c.WantSample() {
			c.Sample("%s", hist)
		}
	}
}

func TestK03(t *testing.T) {
	vk.Property(t, "K03", "a sketch in estimation mode was queried",
		vk.Sub{Name: "float64", Quick: 6000, Thorough: 60000, Fn: k03(kF64)},
		vk.Sub{Name: "int64", Quick: 3000, Thorough: 30000, Fn: k03(kI64)},
		vk.Sub{Name: "float32", Quick: 2000, Thorough: 20000, Fn: k03(kF32)},
		vk.Sub{Name: "reverse", Quick: 2000, Thorough: 20000, Fn: k03(kF64r)},
		vk.Sub{Name: "string", Quick: 3000, Thorough: 30000, Fn: k03(kStr)},
		vk.Sub{Name: "caseless", Quick: 3000, Thorough: 30000, Fn: k03(kCase)},
	)
}
