package theta_test

import (
	"fmt"
	"math"
	"testing"

	"github.com/apache/datasketches-go/theta"
	"pgregory.net/rapid"

	"verif/ref"
	"verif/tgen"
	"verif/vk"
)

// boundsRelations checks what holds for every sketch.
func boundsRelations(s theta.Sketch) error {
	est := s.Estimate()
	n := float64(s.NumRetained())
	plb, pub := math.Inf(1), math.Inf(-1)
	for sd := uint8(1); sd <= 3; sd++ {
		lb, e1 := s.LowerBound(sd)
		ub, e2 := s.UpperBound(sd)
		if e1 != nil || e2 != nil {
			return fmt.Errorf("bounds(%d): %v %v", sd, e1, e2)
		}
		if !(lb <= est && est <= ub) {
			return fmt.Errorf("bounds(%d): %v <= %v <= %v violated (theta %v, n %v)", sd, lb, est, ub, s.Theta(), n)
		}
		if lb < n {
			return fmt.Errorf("lower bound %v below the retained count %v", lb, n)
		}
		if !s.IsEstimationMode() && (lb != n || ub != n || est != n) {
			return fmt.Errorf("exact sketch with n=%v reports %v %v %v", n, lb, est, ub)
		}
		if lb > plb || ub < pub {
			return fmt.Errorf("bounds narrow from %d to %d std devs: lb %v->%v ub %v->%v (theta %v, n %v)", sd-1, sd, plb, lb, pub, ub, s.Theta(), n)
		}
		plb, pub = lb, ub
	}
	if s.IsEstimationMode() {
		for _, sd := range []uint8{0, 4, 5, 255} {
			if _, err := s.LowerBound(sd); err == nil {
				return fmt.Errorf("LowerBound(%d) accepted", sd)
			}
			if _, err := s.UpperBound(sd); err == nil {
				return fmt.Errorf("UpperBound(%d) accepted", sd)
			}
		}
	}
	return nil
}

// synth makes a sketch with n hashes and the given theta.
func synth(t interface{ Fatalf(string, ...any) }, n int, th uint64) *theta.CompactSketch {
	v := ref.KMV{Theta: th, SeedH: ref.SeedHash16(9001)}
	for i := 0; i < n; i++ {
		v.H = append(v.H, uint64(i+1))
	}
	v.Empty = n == 0 && th == ref.MaxTheta
	s, err := theta.Decode(ref.EncodeThetaV3(v, v.H, true), 9001)
	if err != nil {
		t.Fatalf("decode: %v", err)
	}
	return s
}

func TestT04(t *testing.T) {
	vk.Property(t, "T04", "the sketch is in estimation mode",
		vk.Sub{Name: "tails", Quick: 60000, Thorough: 1500000, Fn: func(t *rapid.T, c *vk.Case) {
			// the bounds are those binomial parameters for which the observed count is a k-sigma event
			n := vk.Size(t, "n", 0, 400)
			if vk.Int(t, "big", 0, 9) == 0 {
				n = vk.Int(t, "nb", 0, 6000)
			}
			e := float64(vk.Int(t, "exp", 0, 7000)) / 1000
			th := math.Pow(10, -e)
			if vk.Int(t, "near1", 0, 3) == 0 {
				th = 1 - math.Pow(10, -float64(vk.Int(t, "exp1", 2, 8000))/1000)
			}
			T := uint64(th * float64(ref.MaxTheta))
			T = min(T, ref.MaxTheta)
			if T < uint64(n)+1 || T == 0 {
				T = uint64(n) + 1
			}
			s := synth(t, n, T)
			if err := boundsRelations(s); err != nil {
				t.Fatalf("%v", err)
			}
			th = s.Theta()
			if !s.IsEstimationMode() {
				return
			}
			for sd := uint8(1); sd <= 3; sd++ {
				d := ref.NormTail(float64(sd))
				lb, _ := s.LowerBound(sd)
				ub, _ := s.UpperBound(sd)
				hi, lo, hiU, loU := 1.2, 0.0, 1.2, 0.0
				if sd == 3 {
					hi, hiU = 1.6, 3.6
				}
				switch {
				case th <= 1e-3 && n <= 120:
					lo, hi, loU, hiU = 0.93, 1.04, 0.95, 1.04
				case th <= 1e-3:
					if sd == 1 {
						lo, hi, loU, hiU = 0.97, 1.03, 0.97, 1.03
					} else if sd == 2 {
						lo, hi, loU, hiU = 0.95, 1.14, 0.87, 1.03
					} else {
						lo, hi, loU, hiU = 0.9, 1.55, 0.64, 1.06
					}
				case th <= 0.1:
					lo, loU, hiU = 0.5, 0.6, 1.2
				case th <= 0.5:
					lo, loU, hiU = 0.25, 0.5, 1.25
				case th <= 0.7:
					loU = 0.2
				}
				if lb > float64(n) {
					r := ref.BinomGE(lb, th, float64(n)) / d
					// the exact regime returns whole numbers: allow one unit of conservatism
					if rl := ref.BinomGE(lb+1, th, float64(n)) / d; !(rl >= lo && r <= hi) {
						t.Fatalf("LowerBound(%d)=%v for n=%d theta=%v: tail probability is %.4f of nominal, allowed [%v,%v]", sd, lb, n, th, r, lo, hi)
					}
				} else if th <= 0.5 && n > 15 {
					t.Fatalf("LowerBound(%d)=%v for n=%d theta=%v is the trivial bound", sd, lb, n, th)
				}
				r := ref.BinomLE(ub, th, float64(n)) / d
				ru := ref.BinomLE(max(ub-1, float64(n)), th, float64(n)) / d
				if !(ru >= loU && r <= hiU) {
					t.Fatalf("UpperBound(%d)=%v for n=%d theta=%v: tail probability is %.4f of nominal, allowed [%v,%v]", sd, ub, n, th, r, loU, hiU)
				}
				if ub > float64(n)/th+20+float64(sd+2)*math.Sqrt(float64(n)+10)/th {
					t.Fatalf("UpperBound(%d)=%v for n=%d theta=%v is useless", sd, ub, n, th)
				}
			}
			c.NT(n, T)
			if c.WantSample() {
				c.Sample("n=%d theta=%g", n, th)
			}
		}},
		vk.Sub{Name: "forms", Quick: 6000, Thorough: 100000, Fn: func(t *rapid.T, c *vk.Case) {
			u := tgen.DrawUniverse(t, "u")
			spec := tgen.DrawOp(t, "o", 4000, 11)
			spec.Kind = 0
			o := spec.Build(t, u, 9001)
			img, _ := o.Upd.Compact(true).MarshalBinary()
			w, err := theta.WrapCompactSketch(img, 9001)
			if err != nil {
				t.Fatal(err)
			}
			d, err := theta.Decode(img, 9001)
			if err != nil {
				t.Fatal(err)
			}
			for i, s := range []theta.Sketch{o.Upd, o.Upd.Compact(true), o.Upd.Compact(false), w, d} {
				if err := boundsRelations(s); err != nil {
					t.Fatalf("form %d of %s: %v", i, o.Desc, err)
				}
				if s.Estimate() != o.Upd.Estimate() {
					t.Fatalf("form %d: estimate %v, want %v", i, s.Estimate(), o.Upd.Estimate())
				}
				for sd := uint8(1); sd <= 3; sd++ {
					l1, _ := s.LowerBound(sd)
					l2, _ := o.Upd.LowerBound(sd)
					u1, _ := s.UpperBound(sd)
					u2, _ := o.Upd.UpperBound(sd)
					if l1 != l2 || u1 != u2 {
						t.Fatalf("form %d: bounds differ", i)
					}
				}
			}
			if o.Upd.IsEstimationMode() {
				c.NT(u, o.Desc)
			}
			c.Sample("%s est=%v", o.Desc, o.Upd.Estimate())
		}},
		vk.Sub{Name: "coverage", Once: func(t *testing.T, c *vk.Case) {
			// how often the truth falls outside the k-sigma interval, over many independent data sets
			trials := 6000
			if vk.Tier() == "thorough" {
				trials = 40000
			}
			base := uint64(vk.SubSeed("T04", "coverage", 0))
			for _, cfg := range []struct {
				lgk uint8
				p   float32
				n   int
			}{{5, 1, 300}, {7, 1, 1000}, {9, 1, 3000}, {7, 0.3, 200}, {5, 0.05, 400}} {
				out := [4]int{}
				var sum, sum2 float64
				for i := 0; i < trials; i++ {
					s, err := theta.NewQuickSelectUpdateSketch(theta.WithUpdateSketchLgK(cfg.lgk), theta.WithUpdateSketchP(cfg.p))
					if err != nil {
						t.Fatal(err)
					}
					for j := 0; j < cfg.n; j++ {
						base += 0x9e3779b97f4a7c15
						_ = s.UpdateUint64(base)
					}
					e := s.Estimate()/float64(cfg.n) - 1
					sum += e
					sum2 += e * e
					for sd := uint8(1); sd <= 3; sd++ {
						lb, _ := s.LowerBound(sd)
						ub, _ := s.UpperBound(sd)
						if float64(cfg.n) < lb || float64(cfg.n) > ub {
							out[sd]++
						}
					}
				}
				nf := float64(trials)
				mean, sdv := sum/nf, math.Sqrt(sum2/nf)
				// unbiasedness of the estimator
				if math.Abs(mean) > 7*sdv/math.Sqrt(nf)+1e-9 {
					t.Errorf("lgk=%d p=%v n=%d: estimates biased: mean relative error %.5f, spread %.5f over %d trials", cfg.lgk, cfg.p, cfg.n, mean, sdv, trials)
				}
				rse := 1/math.Sqrt(float64(int(1)<<cfg.lgk)-1) + math.Sqrt((1-float64(cfg.p))/(float64(cfg.p)*float64(cfg.n)))
				if sdv > 1.25*rse {
					t.Errorf("lgk=%d p=%v: relative standard error %.4f, theory %.4f", cfg.lgk, cfg.p, sdv, rse)
				}
				for sd := 1; sd <= 3; sd++ {
					q := 2 * ref.NormTail(float64(sd)) * 1.15
					lim := q*nf + 7*math.Sqrt(q*nf) + 7
					if float64(out[sd]) > lim {
						t.Errorf("lgk=%d p=%v n=%d: truth outside the %d-sigma bounds in %d of %d trials (limit %.0f)", cfg.lgk, cfg.p, cfg.n, sd, out[sd], trials, lim)
					}
				}
				c.NT(cfg)
				c.Sample("%+v trials=%d outside(1,2,3 sigma)=%d,%d,%d mean=%.5f rse=%.5f", cfg, trials, out[1], out[2], out[3], mean, sdv)
			}
		}},
	)
}
