package req_test

import (
	"fmt"
	"math"
	"os"
	"slices"

	"github.com/apache/datasketches-go/req"
	"pgregory.net/rapid"

	"verif/vk"
)

// r01giant merges two sketches into each other in turn: streams of up to 2^62 items whose true content
// is known, ca times the first stream and cb times the second.
func r01giant(t *rapid.T, c *vk.Case) {
	hra := vk.Chance(t, "hra", 1, 2)
	ks := [2]int{drawK(t), drawK(t)}
	var pool [2]*sk
	cnt := [2]map[float32]uint64{{}, {}}
	var n0 [2]uint64
	hist := fmt.Sprintf("hra=%v", hra)
	var all []float32
	for i := range pool {
		x, err := newSk(ks[i], hra)
		if err != nil {
			t.Fatal(err)
		}
		vs, ds := stream(t, 1500)
		vs = append(vs, conv(int64(vk.Int(t, "one", 0, 1000))))
		for _, v := range vs {
			if err := x.s.Update(v); err != nil {
				t.Fatal(err)
			}
			if v == v {
				cnt[i][v]++
				n0[i]++
				all = append(all, v)
			}
		}
		pool[i] = x
		hist += fmt.Sprintf(" #%d(k=%d %s)", i, ks[i], ds)
	}
	slices.Sort(all)
	all = slices.Compact(all)
	type mass struct{ ca, cb uint64 }
	ms := [2]mass{{1, 0}, {0, 1}}
	size := func(i int) uint64 { return ms[i].ca*n0[0] + ms[i].cb*n0[1] }
	limit := uint64(1) << vk.Int(t, "log", 16, 62)
	steps, i := 0, 0
	for size(0)+size(1) < limit {
		if err := pool[i].s.Merge(pool[1-i].s); err != nil {
			t.Fatalf("%s: merge %d: %v", hist, steps, err)
		}
		ms[i].ca += ms[1-i].ca
		ms[i].cb += ms[1-i].cb
		steps++
		switch vk.Int(t, "then", 0, 9) {
		case 0:
			if _, err := pool[i].s.Rank(3); err != nil {
				t.Fatal(err)
			}
		case 1:
			continue
		}
		i = 1 - i
	}
	for i, x := range pool {
		s := x.s
		N := size(i)
		what := fmt.Sprintf("%s, %d merges, sketch %d: n=%d", hist, steps, i, N)
		if s.N() != int64(N) || s.K() != ks[i] {
			t.Fatalf("%s: N=%d K=%d", what, s.N(), s.K())
		}
		var sum uint64
		ps := pairs(s)
		for _, p := range ps {
			if p.w <= 0 || p.w&(p.w-1) != 0 {
				t.Fatalf("%s: weight %d", what, p.w)
			}
			sum += uint64(p.w)
			if cnt[0][p.q]*ms[i].ca+cnt[1][p.q]*ms[i].cb == 0 {
				t.Fatalf("%s: retains %v, never presented", what, p.q)
			}
		}
		if sum != N || len(ps) != s.NumRetained() {
			t.Fatalf("%s: weights of the %d items (%d retained) add to %d", what, len(ps), s.NumRetained(), sum)
		}
		if lim := 24 * float64(max(ks[0], ks[1])) * (2 + math.Log2(float64(N)/float64(min(ks[0], ks[1]))+1)); float64(len(ps)) > lim {
			t.Fatalf("%s: retains %d items", what, len(ps))
		}
		mn, e1 := s.MinItem()
		mx, e2 := s.MaxItem()
		var cum uint64
		var worst float64
		first := true
		var last float32
		for _, y := range all {
			f := cnt[0][y]*ms[i].ca + cnt[1][y]*ms[i].cb
			if f == 0 {
				continue
			}
			if first && mn != y {
				t.Fatalf("%s: min %v, want %v", what, mn, y)
			}
			first = false
			last = y
			cum += f
			if math.IsInf(float64(y), 0) || len(all) > 400 && vk.Mix(cum)%uint64(len(all)/100) != 0 {
				continue
			}
			r, err := s.Rank(y)
			if err != nil {
				t.Fatalf("%s: rank: %v", what, err)
			}
			e := math.Abs(r - float64(cum)/float64(N))
			worst = max(worst, e/req.ComputeRSE(min(ks[0], ks[1]), 0.5, hra, int64(N)))
		}
		if mx != last || e1 != nil || e2 != nil {
			t.Fatalf("%s: max %v, want %v (%v %v)", what, mx, last, e1, e2)
		}
		if os.Getenv("VK_DUMP") != "" {
			fmt.Printf("STAT %.3f steps=%d k=%v n0=%v log=%.1f\n", worst, steps, ks, n0, math.Log2(float64(N)))
		}
		// Copies merged into each other share their errors: these add up rather than average out.
		if worst > 45 {
			t.Fatalf("%s: rank error is %.1f times the published standard deviation", what, worst)
		}
		v := view(s)
		for j := 0; j < 6 && N < 1<<52; j++ { // beyond, ranks are not exact in float64
			qd, err := query(t, s, v)
			if err != nil {
				t.Fatalf("%s: %s: %v", what, qd, err)
			}
		}
	}
	c.NT(hist, limit, ms)
	c.Class(fmt.Sprintf("2^%d0s items", int(math.Log2(float64(size(0)+size(1))))/10))
	if c.WantSample() {
		c.Sample("%s, %d merges to %d and %d items", hist, steps, size(0), size(1))
	}
}
