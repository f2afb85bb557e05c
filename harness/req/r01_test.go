package req_test

import (
	"fmt"
	"math"
	"os"
	"slices"
	"testing"

	"github.com/apache/datasketches-go/req"
	"pgregory.net/rapid"

	"verif/vk"
)

func r01(t *rapid.T, c *vk.Case) {
	var pool []*sk
	hist := ""
	hra := vk.Chance(t, "hra", 1, 2)
	for i := 0; i < 3; i++ {
		h := hra
		if vk.Chance(t, "flip", 1, 8) {
			h = !h
		}
		x, err := newSk(drawK(t), h)
		if err != nil {
			t.Fatalf("new: %v", err)
		}
		pool = append(pool, x)
		if vk.Chance(t, "init", 2, 3) {
			vs, ds := stream(t, 2500)
			hist += fmt.Sprintf(" #%d+%s", i, ds)
			for _, v := range vs {
				if err := x.update(v); err != nil {
					t.Fatalf("%s: update(%v): %v", hist, v, err)
				}
			}
		}
		hist += fmt.Sprintf(" #%d(k=%d,hra=%v)", i, x.k, x.hra)
	}
	nt := false
	for st, n := 0, vk.Int(t, "steps", 2, 10); st < n; st++ {
		i := vk.Int(t, "i", 0, 2)
		x := pool[i]
		switch vk.Int(t, "op", 0, 9) {
		case 0, 1, 2:
			vs, ds := stream(t, 2500)
			hist += fmt.Sprintf(" #%d+%s", i, ds)
			for _, v := range vs {
				if err := x.update(v); err != nil {
					t.Fatalf("%s: update(%v): %v", hist, v, err)
				}
			}
		case 3:
			vs, ds := stream(t, 40)
			hist += fmt.Sprintf(" #%d+%s", i, ds)
			for _, v := range vs {
				if err := x.update(v); err != nil {
					t.Fatalf("%s: update(%v): %v", hist, v, err)
				}
				if err := x.check(); err != nil {
					t.Fatalf("%s: %v", hist, err)
				}
			}
		case 4, 5, 6:
			j := (i + vk.Int(t, "j", 0, 4)) % 3 // now and then with itself
			if len(x.items)+len(pool[j].items) > 30000 {
				continue
			}
			hist += fmt.Sprintf(" #%d<-#%d", i, j)
			before, bt := state(pool[j].s), state(x.s)
			if pool[j].hra != x.hra && len(pool[j].items) > 0 {
				if err := x.s.Merge(pool[j].s); err == nil {
					t.Fatalf("%s: merge of different accuracy modes accepted", hist)
				}
				if state(x.s) != bt {
					t.Fatalf("%s: refused merge changed its target", hist)
				}
				continue
			}
			nt = nt || pool[j].s.IsEstimationMode() && x.s.IsEstimationMode()
			if err := x.merge(pool[j]); err != nil {
				t.Fatalf("%s: %v", hist, err)
			}
			if a := state(pool[j].s); i != j && a != before {
				t.Fatalf("%s: merge changed its source\n%s\n%s", hist, before, a)
			}
		case 7:
			if vk.Chance(t, "reset", 1, 2) {
				hist += fmt.Sprintf(" reset#%d", i)
				x.reset()
			}
		case 8, 9:
			if !x.s.IsEmpty() {
				hist += fmt.Sprintf(" q#%d", i)
				if _, err := x.s.Rank(3); err != nil {
					t.Fatalf("%s: %v", hist, err)
				}
			}
		}
		for j, y := range pool {
			if err := y.check(); err != nil {
				t.Fatalf("%s: sketch #%d: %v", hist, j, err)
			}
		}
	}
	if nt {
		c.NT(hist)
	}
	if c.WantSample() {
		c.Sample("%s", hist)
	}
}

// r01err: the distribution of rank errors against the published standard deviations.
func r01err(t *rapid.T, c *vk.Case) {
	k := vk.Pick(t, "k", 4, 6, 8, 12, 20, 30, 50)
	hra := vk.Chance(t, "hra", 1, 2)
	n := k * vk.Int(t, "mult", 20, 400)
	ord := vk.Pick(t, "ord", "asc", "desc", "random", "zigzag")
	parts := vk.Pick(t, "parts", 1, 1, 2, 5, 16)
	const trials = 100
	vals := make([]float32, n)
	for i := range vals {
		vals[i] = float32(i)
	}
	p := vk.NewPRNG(uint64(vk.Int(t, "pseed", 0, 1<<20)))
	switch ord {
	case "desc":
		slices.Reverse(vals)
	case "random":
		for i := n - 1; i > 0; i-- {
			j := p.Intn(i + 1)
			vals[i], vals[j] = vals[j], vals[i]
		}
	case "zigzag":
		for i := range vals {
			if i%2 == 0 {
				vals[i] = float32(i / 2)
			} else {
				vals[i] = float32(n - 1 - i/2)
			}
		}
	}
	desc := fmt.Sprintf("k=%d hra=%v n=%d %s parts=%d", k, hra, n, ord, parts)
	ranks := []float64{0.02, 0.2, 0.5, 0.8, 0.98}
	sum := make([]float64, len(ranks))
	sq := make([]float64, len(ranks))
	out3 := make([]int, len(ranks))
	std := make([]float64, len(ranks))
	for tr := 0; tr < trials; tr++ {
		ss := make([]*req.Sketch, parts)
		for i := range ss {
			ss[i], _ = req.NewSketch(req.WithK(k), req.WithHighRankAccuracyMode(hra))
		}
		for i, v := range vals {
			if err := ss[i*parts/n].Update(v); err != nil {
				t.Fatalf("%s: %v", desc, err)
			}
		}
		for i := 1; i < parts; i++ {
			if err := ss[0].Merge(ss[i]); err != nil {
				t.Fatalf("%s: %v", desc, err)
			}
		}
		s := ss[0]
		for i, r := range ranks {
			v := float32(math.Floor(r * float64(n)))
			truth := (float64(v) + 1) / float64(n)
			// from the retained items themselves: Rank also pulls in the exact extremes
			var w int64
			for _, it := range s.All() {
				if it.Quantile <= v {
					w += it.Weight
				}
			}
			got := float64(w) / float64(n)
			ub, _ := s.RankUpperBound(truth, req.WithNumStdDev(1))
			std[i] = ub - truth
			u3, _ := s.RankUpperBound(truth, req.WithNumStdDev(3))
			l3, _ := s.RankLowerBound(truth, req.WithNumStdDev(3))
			if got > u3+1e-12 || got < l3-1e-12 {
				out3[i]++
			}
			e := got - truth
			sum[i] += e
			sq[i] += e * e
		}
	}
	for i, r := range ranks {
		rms := math.Sqrt(sq[i] / trials)
		mean := sum[i] / trials
		if os.Getenv("VK_DUMP") != "" {
			fmt.Printf("STAT %s r=%v rms/std=%.3f z=%.2f out3=%d\n", desc, r, rms/std[i], math.Abs(mean)*math.Sqrt(trials)/math.Max(rms, 1e-9), out3[i])
		}
		if std[i] == 0 {
			if rms > 1e-9 {
				t.Fatalf("%s: rank %v is claimed exact but has rms error %v", desc, r, rms)
			}
			continue
		}
		// The published deviations were fitted to streams; near the exact end they are below one item.
		lim := 2.2*std[i] + 2/float64(n)
		if parts > 1 {
			lim = 3.5*std[i] + 2.5/float64(n)
		}
		if os.Getenv("VK_DUMP") != "" {
			fmt.Printf("LIM %.3f %s r=%v\n", rms/lim, desc, r)
		}
		if rms > lim {
			t.Fatalf("%s: at rank %v rms error %v vs published standard deviation %v (limit %v); %d of %d beyond three", desc, r, rms, std[i], lim, out3[i], trials)
		}
		if z := math.Abs(mean) * math.Sqrt(trials) / math.Max(rms, math.Max(std[i]/4, 0.5/float64(n))); z > 9 {
			t.Fatalf("%s: rank %v is biased: mean error %v rms %v (z=%.1f)", desc, r, mean, rms, z)
		}
	}
	c.NT(desc)
	if c.WantSample() {
		c.Sample("%s", desc)
	}
}

// r01deep: long randomly ordered streams, where the sections of every compactor have to have grown for the
// relative error to hold near the accurate end.
func r01deep(t *rapid.T, c *vk.Case) {
	k := vk.Pick(t, "k", 8, 10, 12, 16, 20, 32, 50)
	hra := vk.Chance(t, "hra", 1, 2)
	n := 1 << vk.Int(t, "lgn", 15, 17)
	parts := vk.Pick(t, "parts", 1, 1, 1, 4, 9)
	p := vk.NewPRNG(uint64(vk.Int(t, "pseed", 0, 1<<20)))
	const trials = 48
	desc := fmt.Sprintf("k=%d hra=%v n=%d parts=%d", k, hra, n, parts)
	dist := []float64{0.03, 0.05, 0.1, 0.3}
	sq := make([]float64, len(dist))
	std := make([]float64, len(dist))
	for tr := 0; tr < trials; tr++ {
		vals := make([]float32, n)
		for i := range vals {
			j := p.Intn(i + 1)
			vals[i] = vals[j]
			vals[j] = float32(i)
		}
		var s *req.Sketch
		for i := 0; i < parts; i++ {
			x, _ := req.NewSketch(req.WithK(k), req.WithHighRankAccuracyMode(hra))
			for _, v := range vals[i*n/parts : (i+1)*n/parts] {
				if err := x.Update(v); err != nil {
					t.Fatalf("%s: %v", desc, err)
				}
			}
			if s == nil {
				s = x
			} else if err := s.Merge(x); err != nil {
				t.Fatalf("%s: %v", desc, err)
			}
		}
		for i, d := range dist {
			if hra {
				d = 1 - d
			}
			v := float32(math.Floor(d * float64(n)))
			truth := (float64(v) + 1) / float64(n)
			var w int64
			for _, it := range s.All() {
				if it.Quantile <= v {
					w += it.Weight
				}
			}
			ub, _ := s.RankUpperBound(truth, req.WithNumStdDev(1))
			std[i] = ub - truth
			e := float64(w)/float64(n) - truth
			sq[i] += e * e
		}
	}
	for i := range dist {
		rms := math.Sqrt(sq[i] / trials)
		if os.Getenv("VK_DUMP") != "" {
			fmt.Printf("DEEP %s d=%v rms/std=%.3f\n", desc, dist[i], rms/std[i])
		}
		lim := 1.7
		if parts > 1 {
			lim = 1.35 // merging leaves more sections than a single stream of the same length
		}
		if rms > lim*std[i]+0.5/float64(n) {
			t.Fatalf("%s: at distance %v from the accurate end the rms error over %d streams is %v, published standard deviation %v", desc, dist[i], trials, rms, std[i])
		}
	}
	c.NT(desc)
	if c.WantSample() {
		c.Sample("%s", desc)
	}
}

func TestR01(t *testing.T) {
	vk.Property(t, "R01", "the history merges two sketches that are both in estimation mode, or an error-distribution case of 100 independently randomized sketches",
		vk.Sub{Name: "history", Quick: 4000, Thorough: 40000, Fn: r01},
		vk.Sub{Name: "error", Quick: 320, Thorough: 4000, Fn: r01err},
		vk.Sub{Name: "deep", Quick: 48, Thorough: 600, Fn: r01deep},
		vk.Sub{Name: "giant", Quick: 800, Thorough: 10000, Fn: r01giant},
		vk.Sub{Name: "config", Quick: 300, Thorough: 3000, Fn: func(t *rapid.T, c *vk.Case) {
			k := vk.Pick(t, "kk", vk.Int(t, "k", -4, 1200), 0, 2, 3, 4, 5, 1023, 1024, 1025, 1026)
			s, err := req.NewSketch(req.WithK(k))
			ok := k >= 4 && k <= 1024 && k%2 == 0
			if (err == nil) != ok {
				t.Fatalf("k=%d: err=%v", k, err)
			}
			if ok && (s.K() != k || !s.IsHighRankAccuracyMode() || !s.IsEmpty()) {
				t.Fatalf("k=%d: K=%d", k, s.K())
			}
			c.NT(k)
		}},
	)
}
