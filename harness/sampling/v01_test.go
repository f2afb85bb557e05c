package sampling_test

import (
	"fmt"
	"math"
	"testing"

	"github.com/apache/datasketches-go/sampling"
	"pgregory.net/rapid"

	"verif/vk"
)

func vTrip[T comparable](k *kind[T], s *sampling.VarOptItemsSketch[T]) (*sampling.VarOptItemsSketch[T], []byte, error) {
	b, err := vEncode(k, s)
	if err != nil {
		return nil, nil, err
	}
	y, err := sampling.DecodeVarOptItemsSketch[T](b, k.serde)
	return y, b, err
}

func v01[T comparable](k *kind[T]) func(t *rapid.T, c *vk.Case) {
	return func(t *rapid.T, c *vk.Case) {
		next := 0
		x := newVS[T](t, 1, 20, 1500)
		hist := fmt.Sprintf("%s k=%d rf=%d", k.name, x.k, x.rf)
		est, heavy, resets := false, false, 0
		steps := vk.Int(t, "steps", 1, 9)
		for st := 0; st < steps; st++ {
			switch vk.Int(t, "op", 0, 8) {
			case 0, 1, 2, 3, 4:
				m := runLen(t, x.k)
				d, w := weightGen(t)
				hist += fmt.Sprintf(" +%d:%s", m, d)
				if err := x.feed(k, &next, m, w); err != nil {
					t.Fatalf("%s: %v", hist, err)
				}
			case 5: // invalid weights have no effect
				before := vState(x.s)
				w := vk.Pick(t, "bad", 0.0, -1, math.NaN(), math.Inf(1), math.Inf(-1), -1e-300, math.Copysign(0, -1))
				if err := x.s.Update(k.item(next), w); err == nil {
					t.Fatalf("%s: weight %v accepted", hist, w)
				}
				if vState(x.s) != before {
					t.Fatalf("%s: rejected weight %v changed the sketch", hist, w)
				}
			case 6:
				if vk.Chance(t, "rst", 1, 2) {
					hist += " reset"
					x.s.Reset()
					x.hist, x.n, x.may = nil, 0, map[int]bool{}
					resets++
				}
			case 7:
				hist += " trip"
				before := vState(x.s)
				y, _, err := vTrip(k, x.s)
				if err != nil {
					t.Fatalf("%s: %v", hist, err)
				}
				if got := vState(y); got != before {
					t.Fatalf("%s: decoded %s, was %s", hist, got, before)
				}
				x.s = y
			default:
				md, r := vk.Int(t, "mod", 1, 5), vk.Int(t, "rem", -1, 4)
				if err := vSubset(x.s, func(it T) bool { return k.id(it)%md <= r }); err != nil {
					t.Fatalf("%s: %v", hist, err)
				}
			}
			if err := x.check(k); err != nil {
				t.Fatalf("%s: %v", hist, err)
			}
			est = est || x.s.R() > 0
			heavy = heavy || x.s.R() > 0 && x.s.H() > 0
		}
		if est {
			c.NT(hist)
			c.Class("estimation")
			if heavy {
				c.Class("with heavy items")
			}
			if resets > 0 {
				c.Class("with resets")
			}
			if c.WantSample() {
				c.Sample("%s", hist)
			}
		}
	}
}

// v01Stat repeats one weighted stream and compares inclusion with min(1, w/tau).
func v01Stat(t *rapid.T, c *vk.Case) {
	k := vk.Int(t, "k", 1, 16)
	n := k + vk.Int(t, "extra", 1, 4*k+12)
	d, w := weightGen(t)
	trip := vk.Int(t, "trip", -n, n)
	trials := 3000
	if vk.Tier() == "thorough" {
		trials = 25000
	}
	desc := fmt.Sprintf("k=%d n=%d %s trip=%d", k, n, d, trip)
	ws := make([]float64, n)
	total := 0.0
	for i := range ws {
		ws[i] = w(i)
		total += ws[i]
	}
	tau := refTau(ws, k)
	inc := make([]int, n)
	half, truth := n/2, 0.0
	for _, x := range ws[:half] {
		truth += x / total
	}
	est := &mean{name: "estimated share of the first half", want: truth, maxValue: 1}
	third := &mean{name: "estimated share of every third item", maxValue: 1}
	for i := 0; i < n; i += 3 {
		third.want += ws[i] / total
	}
	cover := 0
	for tr := 0; tr < trials; tr++ {
		s, err := sampling.NewVarOptItemsSketch[int64](uint(k))
		if err != nil {
			t.Fatal(err)
		}
		for i := range ws {
			if i == trip {
				b, err := vEncode(kLong, s)
				if err != nil {
					t.Fatalf("%s: %v", desc, err)
				}
				if s, err = sampling.DecodeVarOptItemsSketch[int64](b, kLong.serde); err != nil {
					t.Fatalf("%s: %v", desc, err)
				}
			}
			if err := s.Update(int64(i), ws[i]); err != nil {
				t.Fatalf("%s: %v", desc, err)
			}
		}
		th := 0.0
		for e := range s.All() {
			inc[e.Item]++
			if e.Item%3 == 0 {
				th += e.Weight / total
			}
		}
		third.add(th)
		r, err := s.EstimateSubsetSum(func(v int64) bool { return int(v) < half })
		if err != nil {
			t.Fatalf("%s: EstimateSubsetSum: %v", desc, err)
		}
		est.add(r.Estimate / total)
		if r.LowerBound <= truth*total*(1+1e-9) && truth*total <= r.UpperBound*(1+1e-9) {
			cover++
		}
	}
	for i, x := range inc {
		p := math.Min(1, ws[i]/tau)
		if p > 1-1e-9 {
			p = 1 - 1e-9
		}
		if dv := kl(x, trials, p); dv > klLimit {
			t.Fatalf("%s: item %d of weight %.6g (threshold %.6g) kept in %d of %d trials, expected probability %.4f", desc, i, ws[i], tau, x, trials, p)
		}
	}
	for _, m := range []*mean{est, third} {
		if err := m.err(); err != nil {
			t.Fatalf("%s: %v", desc, err)
		}
	}
	c.NT(desc)
	if tau < ws[0] {
		c.Class("heavy first item")
	}
	if c.WantSample() {
		c.Sample("%s: share %.5f (want %.5f), bounds hold in %.3f of %d trials", desc, est.want+est.sum/float64(est.n), est.want, float64(cover)/float64(trials), trials)
	}
}

func TestV01(t *testing.T) {
	vk.Property(t, "V01", "the stream is longer than k",
		vk.Sub{Name: "model-long", Quick: 3000, Thorough: 50000, Fn: v01(kLong)},
		vk.Sub{Name: "model-string", Quick: 1000, Thorough: 15000, Fn: v01(kString)},
		vk.Sub{Name: "inclusion", Quick: 150, Thorough: 600, Fn: v01Stat},
	)
}
