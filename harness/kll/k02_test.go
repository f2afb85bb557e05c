package kll_test

import (
	"fmt"
	"math"
	"os"
	"slices"
	"testing"

	"github.com/apache/datasketches-go/kll"
	"pgregory.net/rapid"

	"verif/qref"
	"verif/vk"
)

// A case fixes k, a stream and a merge tree and feeds them to many sketches that differ only in the
// library's random choices, then looks at the distribution of rank errors.
func k02(ks ...int) func(t *rapid.T, c *vk.Case) {
	return func(t *rapid.T, c *vk.Case) { k02run(t, c, vk.Pick(t, "k", ks...)) }
}

func k02run(t *rapid.T, c *vk.Case, kk int) {
	trials := 300
	if kk > 400 {
		trials = 12
	}
	mult := vk.Int(t, "mult", 3, 40)
	if kk > 400 {
		mult = 3
	}
	n := kk*mult + vk.Int(t, "extra", 0, kk)
	ord := vk.Pick(t, "ord", "asc", "desc", "random", "zigzag", "organ")
	parts := 1
	k2 := kk
	tree := "stream"
	if vk.Chance(t, "merged", 2, 3) {
		parts = vk.Int(t, "parts", 2, 8)
		tree = vk.Pick(t, "tree", "left", "balanced", "right")
		if vk.Chance(t, "mixk", 1, 3) {
			k2 = min(kk*2, 65535)
		}
	}
	split := vk.Pick(t, "split", "contiguous", "round-robin")
	vals := make([]int64, n)
	for i := range vals {
		vals[i] = int64(i)
	}
	p := vk.NewPRNG(uint64(vk.Int(t, "pseed", 0, 1<<20)))
	switch ord {
	case "desc":
		slices.Reverse(vals)
	case "random":
		for i := n - 1; i > 0; i-- {
			j := p.Intn(i + 1)
			vals[i], vals[j] = vals[j], vals[i]
		}
	case "zigzag":
		for i := range vals {
			if i%2 == 0 {
				vals[i] = int64(i / 2)
			} else {
				vals[i] = int64(n - 1 - i/2)
			}
		}
	case "organ":
		vals = vals[:0]
		for v := 0; v < n; v += 2 {
			vals = append(vals, int64(v))
		}
		for v := n/2*2 - 1; v > 0; v -= 2 {
			vals = append(vals, int64(v))
		}
	}
	chunk := make([][]int64, parts)
	for i, v := range vals {
		j := i % parts
		if split == "contiguous" {
			j = i * parts / n
		}
		chunk[j] = append(chunk[j], v)
	}
	desc := fmt.Sprintf("k=%d/%d n=%d %s %s parts=%d %s trials=%d", kk, k2, n, ord, tree, parts, split, trials)
	qs := []int64{int64(n / 10), int64(n / 2), int64(n - n/4), int64(n - n/50 - 1)}
	errs := make([][]float64, len(qs))
	var pm []float64
	eps := 2.296 / math.Pow(float64(min(kk, k2)), 0.9723)
	epsP := 2.446 / math.Pow(float64(min(kk, k2)), 0.9433)
	for tr := 0; tr < trials; tr++ {
		sk := make([]*kll.ItemsSketch[int64], parts)
		for i := range sk {
			q := kk
			if i%2 == 1 {
				q = k2
			}
			s, err := kll.NewKllItemsSketch[int64](uint16(q), 8, kI64.less, kI64.serde)
			if err != nil {
				t.Fatalf("%s: %v", desc, err)
			}
			for _, v := range chunk[i] {
				s.Update(v)
			}
			sk[i] = s
		}
		switch tree {
		case "left":
			for i := 1; i < parts; i++ {
				sk[0].Merge(sk[i])
			}
		case "right":
			for i := parts - 1; i > 0; i-- {
				sk[i-1].Merge(sk[i])
			}
		case "balanced":
			for w := 1; w < parts; w *= 2 {
				for i := 0; i+w < parts; i += 2 * w {
					sk[i].Merge(sk[i+w])
				}
			}
		}
		s := sk[0]
		if s.GetN() != uint64(n) {
			t.Fatalf("%s: N=%d", desc, s.GetN())
		}
		// space: geometric capacities
		if lim := 3*max(kk, k2) + 9*(2+int(math.Log2(float64(n)))) + 2; int(s.GetNumRetained()) > lim {
			t.Fatalf("%s: %d items retained, limit %d", desc, s.GetNumRetained(), lim)
		}
		var v *qref.View[int64] = view(s, kI64.less)
		var prev float64
		for i, q := range qs {
			r := v.Rank(q, true)
			e := r - float64(q+1)/float64(n)
			errs[i] = append(errs[i], e)
			if i == 2 {
				pm = append(pm, (r-prev)-float64(qs[2]-qs[1])/float64(n))
			}
			prev = r
		}
	}
	stat := func(name string, e []float64, eps float64) {
		var sum, sq float64
		over := 0
		for _, x := range e {
			sum += x
			sq += x * x
			if math.Abs(x) > eps {
				over++
			}
		}
		T := float64(len(e))
		rms := math.Sqrt(sq / T)
		mean := sum / T
		sd := math.Max(rms, eps/50)
		z := math.Abs(mean) * math.Sqrt(T) / sd
		if os.Getenv("VK_K02DUMP") != "" {
			fmt.Printf("STAT %s %s rms/eps=%.3f z=%.2f over=%d/%d\n", name, desc, rms/eps, z, over, len(e))
		}
		// A correct sketch exceeds eps with probability <= 1% per query.
		if float64(over) > maxOver(len(e)) {
			t.Fatalf("%s: %s error exceeded the published %.5f in %d of %d sketches (rms/eps %.3f)", desc, name, eps, over, len(e), rms/eps)
		}
		// Published eps is a 99% bound; an rms error of 0.45 eps would break it more than twice as often.
		lim := 0.45
		if len(e) < 100 {
			lim = 0.85
		}
		if rms > lim*eps {
			t.Fatalf("%s: %s rms error %.5f is %.2f of the published 99%% bound %.5f", desc, name, rms, rms/eps, eps)
		}
		if z > 7.5 {
			t.Fatalf("%s: %s estimate is biased: mean error %.6f, rms %.6f over %d sketches (z=%.1f)", desc, name, mean, rms, len(e), z)
		}
	}
	for i := range qs {
		stat(fmt.Sprintf("rank(%d/%d)", qs[i], n), errs[i], eps)
	}
	stat("mass", pm, epsP)
	c.NT(desc)
	c.Class(tree)
	if c.WantSample() {
		c.Sample("%s", desc)
	}
}

// maxOver: smallest x with P(Binomial(n, 1%) > x) < 1e-11.
func maxOver(n int) float64 {
	p := math.Pow(0.99, float64(n))
	cum := p
	for x := 0; x < n; x++ {
		if 1-cum < 1e-11 {
			return float64(x)
		}
		p *= float64(n-x) / float64(x+1) * 0.01 / 0.99
		cum += p
	}
	return float64(n)
}

func TestK02(t *testing.T) {
	vk.Property(t, "K02", "every case is a compacting sketch (n >= 3k) under a drawn order and merge tree; a case is 12 or 300 independently randomized sketches",
		vk.Sub{Name: "error", Quick: 400, Thorough: 4000, Fn: k02(8, 12, 20, 50, 100, 200, 400)},
		// published error = formula at the smallest k of the estimating parts, over histories of merges
		vk.Sub{Name: "published", Quick: 1500, Thorough: 15000, Fn: k01(kI64)},
		vk.Sub{Name: "largek", Quick: 64, Thorough: 400, Fn: k02(4000, 20000, 32767, 32768, 40000, 65535)},
	)
}
