package tdigest_test

import (
	"fmt"
	"math"
	"os"
	"sort"

	"pgregory.net/rapid"

	"verif/vk"
)

// d01giant merges two digests into each other in turn: up to 2^62 values whose content is known, ca
// times the first stream and cb times the second.
func d01giant(t *rapid.T, c *vk.Case) {
	var pool [2]*sk
	hist := ""
	var vals [2][]float64
	for i := range pool {
		x, err := newSk(drawK(t))
		if err != nil {
			t.Fatal(err)
		}
		vs, ds := stream(t, 1500)
		vs = append(vs, float64(vk.Int(t, "one", -50, 50)))
		for _, v := range vs {
			if err := x.update(v); err != nil {
				t.Fatal(err)
			}
		}
		vals[i] = x.vals
		x.vals = nil
		pool[i] = x
		hist += fmt.Sprintf(" #%d(k=%d %s)", i, x.k, ds)
	}
	type mass struct{ ca, cb uint64 }
	ms := [2]mass{{1, 0}, {0, 1}}
	limit := uint64(1) << vk.Int(t, "log", 16, 62)
	steps, i := 0, 0
	for pool[0].n+pool[1].n < limit {
		if err := pool[i].merge(pool[1-i]); err != nil {
			t.Fatalf("%s: merge %d: %v", hist, steps, err)
		}
		ms[i].ca += ms[1-i].ca
		ms[i].cb += ms[1-i].cb
		steps++
		switch vk.Int(t, "then", 0, 9) {
		case 0:
			wb, se, sd := vk.Chance(t, "wb", 1, 2), vk.Chance(t, "se", 1, 2), vk.Chance(t, "sd", 1, 2)
			b, err := encode(pool[i].d, wb, se)
			if err != nil {
				t.Fatalf("%s: encode: %v", hist, err)
			}
			d, err := decode(b, sd)
			if err != nil {
				t.Fatalf("%s: decode after %d merges: %v", hist, steps, err)
			}
			pool[i].d = d
		case 1:
			continue
		}
		i = 1 - i
	}
	for i, x := range pool {
		what := fmt.Sprintf("%s, %d merges, digest %d: n=%d", hist, steps, i, x.n)
		if err := x.check(); err != nil {
			t.Fatalf("%s: %v", what, err)
		}
		type vw struct {
			v float64
			w uint64
		}
		var all []vw
		for j, m := range []uint64{ms[i].ca, ms[i].cb} {
			if m > 0 {
				for _, v := range vals[j] {
					all = append(all, vw{v, m})
				}
			}
		}
		sort.Slice(all, func(a, b int) bool { return all[a].v < all[b].v })
		N := float64(x.n)
		k := float64(min(pool[0].k, pool[1].k))
		var cum, worst float64
		for j := 0; j < len(all); {
			e, m := j, 0.0
			for ; e < len(all) && all[e].v == all[j].v; e++ {
				m += float64(all[e].w)
			}
			r, err := x.d.Rank(all[j].v)
			if err != nil {
				t.Fatalf("%s: %v", what, err)
			}
			// anywhere within the value's own mass is right
			lo, hi := cum/N, (cum+m)/N
			d := math.Max(0, math.Max(lo-r, r-hi))
			worst = math.Max(worst, d/((4*math.Log(N/(2*k))+24)/(8*k)))
			cum += m
			j = e
		}
		if os.Getenv("VK_DUMP") != "" {
			fmt.Printf("STAT %.3f steps=%d k=%d/%d n0=%d %d log=%.1f\n", worst, steps, pool[0].k, pool[1].k, len(vals[0]), len(vals[1]), math.Log2(N))
		}
		// in units of the largest weight a centroid may have; copies of a digest share their errors
		if worst > 12 {
			t.Fatalf("%s: a rank is off by %.1f times the largest centroid", what, worst)
		}
		wd, err := wireOf(x.d)
		if err != nil {
			t.Fatalf("%s: %v", what, err)
		}
		for j := 0; j < 6; j++ {
			r := drawR(t, wd, x.n)
			q, err := x.d.Quantile(r)
			if err != nil {
				t.Fatalf("%s: %v", what, err)
			}
			if err := quantileOK(wd, x.n, r, q); err != nil {
				t.Fatalf("%s: %v", what, err)
			}
			v := drawValue(t, wd)
			got, err := x.d.Rank(v)
			if want := refRank(wd, x.n, v); err != nil || math.Abs(got-want) > 1e-9 {
				t.Fatalf("%s: rank(%v)=%v,%v want %v", what, v, got, err, want)
			}
		}
	}
	c.NT(hist, limit, ms)
	c.Class(fmt.Sprintf("2^%d0s values", int(math.Log2(float64(pool[0].n+pool[1].n)))/10))
	if c.WantSample() {
		c.Sample("%s, %d merges to %d and %d values", hist, steps, pool[0].n, pool[1].n)
	}
}
