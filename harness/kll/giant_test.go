package kll_test

import (
	"fmt"
	"math"
	"os"
	"slices"

	"github.com/apache/datasketches-go/kll"
	"pgregory.net/rapid"

	"verif/vk"
)

// Merging two sketches into each other in turn makes streams of up to 2^62 items out of two small
// ones. The true content is ca times the first stream and cb times the second.
type mass struct{ ca, cb uint64 }

func giant[C comparable](k kind[C], maxLog int) func(t *rapid.T, c *vk.Case) {
	return func(t *rapid.T, c *vk.Case) {
		ks := [2]uint16{drawK(t), drawK(t)}
		m := uint8(vk.Pick(t, "m", 8, 8, 8, 2, 4))
		var pool [2]*sk[C]
		cnt := [2]map[C]uint64{{}, {}}
		var n0 [2]uint64
		hist := k.name
		var all []C
		for i := range pool {
			x, err := newSk(k, ks[i], m)
			if err != nil {
				t.Fatal(err)
			}
			vs, ds := stream(t, 1500)
			vs = append(vs, int64(vk.Int(t, "one", 0, 1000)))
			for _, v := range vs {
				y := k.conv(v)
				x.s.Update(y)
				cnt[i][y]++
				all = append(all, y)
			}
			n0[i] = uint64(len(vs))
			pool[i] = x
			hist += fmt.Sprintf(" #%d(k=%d m=%d %s)", i, ks[i], m, ds)
		}
		all = sorted(all, k.less)
		all = slices.Compact(all)
		ms := [2]mass{{1, 0}, {0, 1}}
		size := func(i int) uint64 { return ms[i].ca*n0[0] + ms[i].cb*n0[1] }
		limit := uint64(1) << vk.Int(t, "log", 16, maxLog)
		steps := 0
		i := 0
		for size(0)+size(1) < limit {
			x, o := pool[i], pool[1-i]
			x.s.Merge(o.s)
			ms[i].ca += ms[1-i].ca
			ms[i].cb += ms[1-i].cb
			steps++
			switch vk.Int(t, "then", 0, 9) {
			case 0:
				b, err := img(x.s)
				if err != nil {
					t.Fatalf("%s, %d merges: %v", hist, steps, err)
				}
				s2, err := kll.NewKllItemsSketchFromSlice[C](b, k.less, k.serde)
				if err != nil {
					t.Fatalf("%s, %d merges: decode: %v", hist, steps, err)
				}
				if state(s2) != state(x.s) {
					t.Fatalf("%s, %d merges: round trip changed the sketch\n%s\n%s", hist, steps, state(x.s), state(s2))
				}
				x.s = s2
			case 1: // nothing in between
				continue
			}
			i = 1 - i
			if steps > 200 {
				break
			}
		}
		for i, x := range pool {
			s := x.s
			N := size(i)
			what := fmt.Sprintf("%s, %d merges, sketch %d: n=%d", hist, steps, i, N)
			if s.GetN() != N {
				t.Fatalf("%s: N=%d", what, s.GetN())
			}
			q, w := pairs(s)
			var sum uint64
			for j := range q {
				if w[j] <= 0 || w[j]&(w[j]-1) != 0 {
					t.Fatalf("%s: weight %d", what, w[j])
				}
				sum += uint64(w[j])
				if cnt[0][q[j]]*ms[i].ca+cnt[1][q[j]]*ms[i].cb == 0 {
					t.Fatalf("%s: retains %v, never presented", what, q[j])
				}
			}
			if sum != N || len(q) != int(s.GetNumRetained()) {
				t.Fatalf("%s: weights of the %d items (%d retained) add to %d", what, len(q), s.GetNumRetained(), sum)
			}
			if lim := 3*int(max(ks[0], ks[1])) + (int(m)+1)*(2+int(math.Log2(float64(N)))) + 2; len(q) > lim {
				t.Fatalf("%s: %d items retained, limit %d", what, len(q), lim)
			}
			mn, e1 := s.GetMinItem()
			mx, e2 := s.GetMaxItem()
			var cum uint64
			var worst float64
			first := true
			var last C
			v := view(s, k.less)
			eps := 2.296 / math.Pow(float64(min(ks[0], ks[1])), 0.9723)
			for _, y := range all {
				f := cnt[0][y]*ms[i].ca + cnt[1][y]*ms[i].cb
				if f == 0 {
					continue
				}
				if first && mn != y {
					t.Fatalf("%s: min %v, want %v", what, mn, y)
				}
				first = false
				last = y
				cum += f
				if len(all) > 400 && vk.Mix(cum)%uint64(len(all)/100) != 0 {
					continue
				}
				r, err := s.GetRank(y, true)
				if err != nil {
					t.Fatalf("%s: rank: %v", what, err)
				}
				e := math.Abs(r - float64(cum)/float64(N))
				worst = max(worst, e/eps)
			}
			if mx != last || e1 != nil || e2 != nil {
				t.Fatalf("%s: max %v, want %v (%v %v)", what, mx, last, e1, e2)
			}
			if os.Getenv("VK_DUMP") != "" {
				fmt.Printf("STAT %.3f steps=%d k=%v n0=%v log=%.1f\n", worst, steps, ks, n0, math.Log2(float64(N)))
			}
			if worst > 2.5 {
				t.Fatalf("%s: rank error is %.2f times the published bound", what, worst)
			}
			for j := 0; j < 6 && N < 1<<52; j++ { // beyond, ranks are not exact in float64
				qd, err := query(t, s, v, k)
				if err != nil {
					t.Fatalf("%s: %s: %v", what, qd, err)
				}
			}
		}
		c.NT(hist, limit, ms)
		c.Class(fmt.Sprintf("2^%d0s items", int(math.Log2(float64(size(0)+size(1))))/10))
		c.Sample("%s, %d merges to %d and %d items", hist, steps, size(0), size(1))
	}
}
