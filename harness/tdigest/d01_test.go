package tdigest_test

import (
	"fmt"
	"math"
	"testing"

	"pgregory.net/rapid"

	"verif/vk"
)

func d01(t *rapid.T, c *vk.Case) {
	hist := ""
	var pool []*sk
	for i := 0; i < 3; i++ {
		if vk.Chance(t, "foreign", 1, 5) {
			kind, k, b, cs, mn, mx := foreign(t, nil)
			d, err := decode(b, vk.Chance(t, "st", 1, 2))
			if err != nil {
				t.Fatalf("reference-format image (type %d, k=%d, %v): %v", kind, k, cs, err)
			}
			pool = append(pool, adopt(d, k, cs, mn, mx))
			hist += fmt.Sprintf(" #%d(compat%d k=%d %v %v..%v)", i, kind, k, cs, mn, mx)
			continue
		}
		k := drawK(t)
		x, err := newSk(k)
		if err != nil {
			t.Fatalf("k=%d: %v", k, err)
		}
		pool = append(pool, x)
		hist += fmt.Sprintf(" #%d(k=%d)", i, k)
	}
	merges, compressed := 0, 0
	steps := vk.Int(t, "steps", 2, 12)
	for st := 0; st < steps; st++ {
		i := vk.Int(t, "i", 0, 2)
		x := pool[i]
		switch op := vk.Int(t, "op", 0, 9); op {
		case 0, 1, 2:
			vs, ds := stream(t, 4000)
			hist += fmt.Sprintf(" #%d+%s", i, ds)
			for _, v := range vs {
				if err := x.update(v); err != nil {
					t.Fatalf("%s: update %v: %v", hist, v, err)
				}
			}
		case 3:
			before := state(x.d)
			for _, v := range []float64{math.NaN(), math.Inf(1), math.Inf(-1)} {
				if err := x.d.Update(v); err == nil {
					t.Fatalf("%s: update(%v) accepted", hist, v)
				}
			}
			if after := state(x.d); after != before {
				t.Fatalf("%s: rejected update changed the digest", hist)
			}
		case 4, 5, 6:
			j := (i + vk.Int(t, "j", 0, 4)) % 3 // now and then with itself
			o := pool[j]
			if x.n+o.n > 60000 {
				continue
			}
			hist += fmt.Sprintf(" #%d<-#%d", i, j)
			src := state(o.d)
			if o.n == 0 {
				before := state(x.d)
				_ = x.d.Merge(o.d)
				if state(x.d) != before || state(o.d) != src {
					t.Fatalf("%s: merging an empty digest changed an operand", hist)
				}
				continue
			}
			if err := x.merge(o); err != nil {
				t.Fatalf("%s: %v", hist, err)
			}
			if i != j && state(o.d) != src {
				t.Fatalf("%s: merge changed its source", hist)
			}
			if x.n > o.n && i != j {
				merges++
			}
		case 7, 8: // queries compress lazily
			if x.n == 0 {
				continue
			}
			hist += fmt.Sprintf(" q#%d", i)
			if _, err := x.d.Rank(x.min); err != nil {
				t.Fatalf("%s: %v", hist, err)
			}
			if _, err := x.d.Quantile(0.3); err != nil {
				t.Fatalf("%s: %v", hist, err)
			}
		case 9:
			wb, se, sd := vk.Chance(t, "wb", 1, 2), vk.Chance(t, "se", 1, 2), vk.Chance(t, "sd", 1, 2)
			hist += fmt.Sprintf(" rt#%d(%v,%v,%v)", i, wb, se, sd)
			b, err := encode(x.d, wb, se)
			if err != nil {
				t.Fatalf("%s: encode: %v", hist, err)
			}
			d, err := decode(b, sd)
			if err != nil {
				t.Fatalf("%s: decode: %v", hist, err)
			}
			x.d = d
		}
		for j, y := range pool {
			if err := y.check(); err != nil {
				t.Fatalf("%s: digest #%d: %v", hist, j, err)
			}
			if y.n > uint64(4*y.k) {
				compressed++
			}
		}
	}
	if merges > 0 && compressed > 0 {
		c.NT(hist)
	}
	if c.WantSample() {
		c.Sample("%s", hist)
	}
}

func TestD01(t *testing.T) {
	vk.Property(t, "D01", "the history merges non-empty digests, one of them large enough to hold clustered centroids",
		vk.Sub{Name: "history", Quick: 20000, Thorough: 400000, Fn: d01},
		vk.Sub{Name: "giant", Quick: 3000, Thorough: 50000, Fn: d01giant},
	)
}
