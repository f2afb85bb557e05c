package kll_test

import (
	"bytes"
	"fmt"
	"slices"
	"testing"

	"github.com/apache/datasketches-go/kll"
	"pgregory.net/rapid"

	"verif/vk"
)

func k01[C comparable](k kind[C]) func(t *rapid.T, c *vk.Case) {
	return func(t *rapid.T, c *vk.Case) {
		var pool []*sk[C]
		hist := k.name
		for i := 0; i < 3; i++ {
			kk := drawK(t)
			m := uint8(vk.Pick(t, "m", 8, 8, 8, 2, 4))
			x, err := newSk(k, kk, m)
			if err != nil {
				t.Fatalf("new k=%d: %v", kk, err)
			}
			pool = append(pool, x)
			hist += fmt.Sprintf(" #%d(k=%d,m=%d)", i, kk, m)
		}
		steps := vk.Int(t, "steps", 3, 14)
		merges, estMerges := 0, 0
		for st := 0; st < steps; st++ {
			i := vk.Int(t, "i", 0, 2)
			x := pool[i]
			switch vk.Int(t, "op", 0, 11) {
			case 0, 1:
				vs, ds := stream(t, 1500)
				hist += fmt.Sprintf(" #%d+%s", i, ds)
				for _, v := range vs {
					x.update(k.conv(v))
				}
			case 2, 3:
				vs, ds := stream(t, 60)
				hist += fmt.Sprintf(" #%d+%s", i, ds)
				for _, v := range vs {
					x.update(k.conv(v))
					if err := x.check(k); err != nil {
						t.Fatalf("%s: %v", hist, err)
					}
				}
			case 4, 5, 6, 7:
				j := (i + vk.Int(t, "j", 0, 4)) % 3 // now and then with itself
				if len(x.m.items)+len(pool[j].m.items) > 60000 {
					continue
				}
				hist += fmt.Sprintf(" #%d<-#%d", i, j)
				before := state(pool[j].s)
				bi, err := img(pool[j].s)
				if err != nil {
					t.Fatalf("%s: serialize source: %v", hist, err)
				}
				merges++
				if pool[j].s.IsEstimationMode() && x.s.IsEstimationMode() {
					estMerges++
				}
				x.merge(pool[j])
				if i == j {
					break
				}
				if after := state(pool[j].s); after != before {
					t.Fatalf("%s: merge changed its source:\n%s\n%s", hist, before, after)
				}
				if bj, err := img(pool[j].s); err != nil || !bytes.Equal(bi, bj) {
					t.Fatalf("%s: merge changed the image of its source (%v)", hist, err)
				}
			case 8:
				if vk.Chance(t, "reset", 1, 2) {
					x.reset()
					hist += fmt.Sprintf(" reset#%d", i)
				}
			case 9:
				b, err := img(x.s)
				if err != nil {
					t.Fatalf("%s: %v", hist, err)
				}
				s2, err := kll.NewKllItemsSketchFromSlice[C](b, k.less, k.serde)
				if err != nil {
					t.Fatalf("%s: decode #%d: %v", hist, i, err)
				}
				x.s = s2
				hist += fmt.Sprintf(" rt#%d", i)
			case 10, 11: // warm caches
				if !x.s.IsEmpty() {
					if _, err := x.s.GetRank(x.m.items[0], true); err != nil {
						t.Fatalf("%s: rank: %v", hist, err)
					}
					hist += fmt.Sprintf(" q#%d", i)
				}
			}
			for j, y := range pool {
				if err := y.check(k); err != nil {
					t.Fatalf("%s: sketch #%d: %v", hist, j, err)
				}
			}
			// exact answers while nothing was compacted
			for j, y := range pool {
				if n := len(y.m.items); n > 0 && y.m.exact && n <= int(y.m.k) {
					all := sorted(y.m.items, k.less)
					if err := exactAnswers(y.s, all, k, vk.Int(t, "q", 0, n-1)); err != nil {
						t.Fatalf("%s: exact sketch #%d: %v", hist, j, err)
					}
				}
			}
		}
		if merges > 0 && estMerges > 0 {
			c.NT(hist)
		}
		c.Class(k.name)
		if c.WantSample() {
			c.Sample("%s", hist)
		}
	}
}

func exactAnswers[C comparable](s *kll.ItemsSketch[C], all []C, k kind[C], qi int) error {
	n := len(all)
	x := all[qi]
	lo := slices.IndexFunc(all, func(v C) bool { return !k.less(v, x) })
	hi := slices.IndexFunc(all, func(v C) bool { return k.less(x, v) })
	if hi < 0 {
		hi = n
	}
	for inc, want := range map[bool]int{true: hi, false: lo} {
		r, err := s.GetRank(x, inc)
		if err != nil || r != float64(want)/float64(n) {
			return fmt.Errorf("rank(%v,%v)=%v,%v want %d/%d", x, inc, r, err, want, n)
		}
		cdf, err := s.GetCDF([]C{x}, inc)
		if err != nil || len(cdf) != 2 || cdf[0] != float64(want)/float64(n) || cdf[1] != 1 {
			return fmt.Errorf("cdf(%v,%v)=%v,%v", x, inc, cdf, err)
		}
	}
	q, err := s.GetQuantile(float64(qi+1)/float64(n), true)
	if err != nil || q != x {
		return fmt.Errorf("quantile(%d/%d,incl)=%v,%v want %v", qi+1, n, q, err, x)
	}
	q, err = s.GetQuantile(float64(qi)/float64(n), false)
	if err != nil || q != x {
		return fmt.Errorf("quantile(%d/%d,excl)=%v,%v want %v", qi, n, q, err, x)
	}
	return nil
}

func TestK01(t *testing.T) {
	vk.Property(t, "K01", "the history merges two sketches that are both in estimation mode",
		vk.Sub{Name: "float64", Quick: 3000, Thorough: 40000, Fn: k01(kF64)},
		vk.Sub{Name: "int64", Quick: 2000, Thorough: 20000, Fn: k01(kI64)},
		vk.Sub{Name: "float32rev", Quick: 1000, Thorough: 10000, Fn: k01(kF64r)},
		vk.Sub{Name: "float32", Quick: 1000, Thorough: 10000, Fn: k01(kF32)},
		vk.Sub{Name: "string", Quick: 1500, Thorough: 15000, Fn: k01(kStr)},
		vk.Sub{Name: "giant", Quick: 1500, Thorough: 20000, Fn: giant(kI64, 62)},
		vk.Sub{Name: "giant-string", Quick: 400, Thorough: 5000, Fn: giant(kStr, 62)},
		vk.Sub{Name: "largek", Quick: 60, Thorough: 600, Fn: func(t *rapid.T, c *vk.Case) {
			kk := uint16(vk.Pick(t, "k", 32767, 32768, 40000, 65535, 5000))
			x, _ := newSk(kI64, kk, 8)
			y, _ := newSk(kI64, uint16(vk.Pick(t, "k2", 8, 200, 40000)), 8)
			n := vk.Int(t, "n", int(kk)-2, int(kk)*3)
			p := vk.NewPRNG(uint64(n))
			for i := 0; i < n; i++ {
				x.update(int64(p.U64() >> 20))
			}
			if err := x.check(kI64); err != nil {
				t.Fatalf("k=%d n=%d: %v", kk, n, err)
			}
			for i := 0; i < 3000; i++ {
				y.update(int64(p.U64() >> 20))
			}
			x.merge(y)
			if err := x.check(kI64); err != nil {
				t.Fatalf("k=%d n=%d merged: %v", kk, n, err)
			}
			y.merge(x)
			if err := y.check(kI64); err != nil {
				t.Fatalf("small k merged with k=%d n=%d: %v", kk, n, err)
			}
			c.NT(kk, n)
		}},
	)
}
