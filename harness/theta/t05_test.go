package theta_test

import (
	"fmt"
	"math"
	"slices"
	"testing"

	"github.com/apache/datasketches-go/theta"
	"pgregory.net/rapid"

	"verif/ref"
	"verif/tgen"
	"verif/vk"
)

func TestT05(t *testing.T) {
	vk.Property(t, "T05", "both sketches are non-empty, distinct and overlap",
		vk.Sub{Name: "pairs", Quick: 20000, Thorough: 400000, Fn: func(t *rapid.T, c *vk.Case) {
			seed := drawSeed(t)
			u := tgen.DrawUniverse(t, "u")
			a := drawOpnd(t, "a", u, seed, 2500, 10)
			b := drawOpnd(t, "b", u, seed, 2500, 10)
			switch vk.Int(t, "same", 0, 7) {
			case 0: // the same content in another form
				img, err := theta.NewCompactSketch(a.S, rapid.Bool().Draw(t, "o")).MarshalBinary()
				if err != nil {
					t.Fatal(err)
				}
				w, err := theta.WrapCompactSketch(img, seed)
				if err != nil {
					t.Fatal(err)
				}
				b = opnd{tgen.Operand{S: w, V: a.V, Desc: "copy of a"}, tgen.Snap(w)}
			case 1:
				b = a
			}
			what := fmt.Sprintf("Jaccard(%s, %s)", a.Desc, b.Desc)
			j, err := theta.Jaccard(a.S, b.S, seed)
			if err != nil {
				t.Fatalf("%s: %v", what, err)
			}
			a.unchanged(t, "Jaccard")
			b.unchanged(t, "Jaccard")
			jr, err := theta.Jaccard(b.S, a.S, seed)
			if err != nil || jr != j {
				t.Fatalf("%s: not symmetric: %v vs %v (%v)", what, j, jr, err)
			}
			if !(0 <= j.LowerBound && j.LowerBound <= j.Estimate && j.Estimate <= j.UpperBound && j.UpperBound <= 1) {
				t.Fatalf("%s: not ordered: %+v", what, j)
			}
			eq, err := theta.IsExactlyEqual(a.S, b.S, seed)
			if err != nil {
				t.Fatal(err)
			}
			same := a.V.Empty && b.V.Empty || a.V.Empty == b.V.Empty && a.V.Theta == b.V.Theta && slices.Equal(a.V.H, b.V.H)
			if eq != same {
				t.Fatalf("%s: IsExactlyEqual=%v, want %v", what, eq, same)
			}
			th := min(a.V.Theta, b.V.Theta)
			U := below(unionSets(a.V.H, b.V.H), th)
			I := below(interSets(a.V.H, b.V.H), th)
			switch {
			case same:
				if j != (theta.JaccardSimilarityResult{LowerBound: 1, Estimate: 1, UpperBound: 1}) {
					t.Fatalf("%s: identical but %+v", what, j)
				}
			case a.V.Empty || b.V.Empty:
				if j != (theta.JaccardSimilarityResult{}) {
					t.Fatalf("%s: one empty but %+v", what, j)
				}
			case len(U) == 0:
				if j.LowerBound != 0 || j.UpperBound != 1 {
					t.Fatalf("%s: nothing known but %+v", what, j)
				}
			default:
				want := float64(len(I)) / float64(len(U))
				if math.Abs(j.Estimate-want) > 1e-12 {
					t.Fatalf("%s: estimate %v, want %d/%d", what, j.Estimate, len(I), len(U))
				}
				if th == ref.MaxTheta {
					if j.LowerBound != j.Estimate || j.UpperBound != j.Estimate {
						t.Fatalf("%s: both exact but %+v", what, j)
					}
				} else {
					f := float64(th) / float64(ref.MaxTheta)
					kap := 2 * math.Sqrt(1-f)
					if f > 0.5 {
						kap += 0.02 * (f - 0.5)
					}
					if f < 0.999 {
						d := ref.NormTail(kap)
						n, k := float64(len(U)), float64(len(I))
						if k > 0 {
							r := ref.BinomGE(n, j.LowerBound, k) / d
							if r < 0.85 || r > 1.15 {
								t.Fatalf("%s: lower bound %v for %v of %v sampled at %v: tail ratio %.4f", what, j.LowerBound, k, n, f, r)
							}
						} else if j.LowerBound != 0 {
							t.Fatalf("%s: disjoint with lower bound %v", what, j.LowerBound)
						}
						if k < n {
							r := ref.BinomLE(n, j.UpperBound, k) / d
							if r < 0.85 || r > 1.15 {
								t.Fatalf("%s: upper bound %v for %v of %v sampled at %v: tail ratio %.4f", what, j.UpperBound, k, n, f, r)
							}
						} else if j.UpperBound != 1 {
							t.Fatalf("%s: all common with upper bound %v", what, j.UpperBound)
						}
					}
				}
				if len(I) > 0 {
					c.NT(seed, u, a.Desc, b.Desc)
				}
			}
			for _, thr := range []float64{0, 1, j.LowerBound, j.UpperBound, j.Estimate, float64(vk.Int(t, "thr", 0, 100)) / 100} {
				s, e1 := theta.IsSimilar(a.S, b.S, thr, seed)
				d, e2 := theta.IsDissimilar(a.S, b.S, thr, seed)
				if e1 != nil || e2 != nil || s != (j.LowerBound >= thr) || d != (j.UpperBound <= thr) {
					t.Fatalf("%s: threshold %v: similar=%v dissimilar=%v for %+v", what, thr, s, d, j)
				}
			}
			if !a.V.Empty {
				if _, err := theta.Jaccard(a.S, foreign(t, seed), seed); err == nil {
					t.Fatalf("Jaccard accepted a foreign seed")
				}
			}
			if c.WantSample() {
				c.Sample("%s = %+v", what, j)
			}
		}},
	)
}
