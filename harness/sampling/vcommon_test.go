package sampling_test

import (
	"fmt"
	"math"
	"slices"

	"github.com/apache/datasketches-go/sampling"
	"pgregory.net/rapid"

	"verif/vk"
)

const relTol = 1e-9

func closeTo(a, b float64) bool { return math.Abs(a-b) <= relTol*math.Max(math.Abs(a), math.Abs(b)) }

// weightGen draws a weight pattern: a function from the item's index in its run.
func weightGen(t *rapid.T) (string, func(i int) float64) {
	base := rapid.Float64Range(0.01, 3).Draw(t, "base")
	seed := uint64(rapid.Uint32().Draw(t, "wseed"))
	scale := 1.0
	if vk.Chance(t, "scaled", 1, 3) {
		scale = vk.Pick(t, "scale", 1e-150, 1e-12, 1e12, 1e150)
	}
	rnd := func(i int) float64 { return vk.NewPRNG(seed + uint64(i)*0x9e37).F64() }
	m := vk.Int(t, "wmode", 0, 7)
	f := [...]func(i int) float64{
		func(i int) float64 { return base },
		func(i int) float64 { return base * float64(1+int(rnd(i)*3)) },
		func(i int) float64 { return math.Exp(6 * (rnd(i) - 0.5)) },
		func(i int) float64 { return 1 / math.Pow(1-rnd(i)*0.999, 1.5) },
		func(i int) float64 { return base * float64(1+i) },
		func(i int) float64 { return base / float64(1+i) },
		func(i int) float64 {
			if rnd(i) < 0.1 {
				return base * 1000
			}
			return base
		},
		func(i int) float64 { return math.Ldexp(1, int(rnd(i)*20)) },
	}[m]
	name := [...]string{"equal", "few", "exp", "pareto", "rising", "falling", "spikes", "pow2"}[m]
	return fmt.Sprintf("%s(%.3g)*%g", name, base, scale), func(i int) float64 { return scale * f(i) }
}

type wItem struct {
	id int
	w  float64
}

// vs is a VarOpt sketch with its stream.
type vs[T comparable] struct {
	s    *sampling.VarOptItemsSketch[T]
	k    int
	rf   sampling.ResizeFactor
	hist []wItem
	n    int64
	may  map[int]bool // ids below the threshold that may still be held
}

func newVS[T comparable](t *rapid.T, lo, small, large int) *vs[T] {
	x := &vs[T]{k: drawK(t, lo, small, large), rf: sampling.ResizeX8, may: map[int]bool{}}
	var err error
	if vk.Chance(t, "drf", 1, 3) {
		x.s, err = sampling.NewVarOptItemsSketch[T](uint(x.k))
	} else {
		x.rf = vk.Pick(t, "rf", rfs...)
		x.s, err = sampling.NewVarOptItemsSketch[T](uint(x.k), sampling.WithResizeFactor(x.rf))
	}
	if err != nil {
		t.Fatalf("k=%d: %v", x.k, err)
	}
	return x
}

func (x *vs[T]) feed(k *kind[T], next *int, m int, w func(int) float64) error {
	for i := 0; i < m; i++ {
		id := *next
		*next++
		wt := w(i)
		if err := x.s.Update(k.item(id), wt); err != nil {
			return fmt.Errorf("Update #%d weight %g: %v", x.n, wt, err)
		}
		x.hist = append(x.hist, wItem{id, wt})
		x.may[id] = true
		x.n++
	}
	return nil
}

// refTau is the VarOpt threshold of a weight set: the tau with
// sum(min(1, w/tau)) = k. It is a function of the weights alone.
func refTau(ws []float64, k int) float64 {
	s := slices.Clone(ws)
	slices.Sort(s)
	slices.Reverse(s)
	suffix := make([]float64, len(s)+1)
	for i := len(s) - 1; i >= 0; i-- {
		suffix[i] = suffix[i+1] + s[i]
	}
	for h := 0; h < k; h++ {
		if tau := suffix[h] / float64(k-h); s[h] <= tau*(1+1e-12) {
			return tau
		}
	}
	panic("no threshold")
}

func samplesOf[T any](s *sampling.VarOptItemsSketch[T]) []sampling.Sample[T] {
	var out []sampling.Sample[T]
	for x := range s.All() {
		out = append(out, x)
	}
	return out
}

func vState[T any](s *sampling.VarOptItemsSketch[T]) string {
	return fmt.Sprintf("k=%d n=%d h=%d r=%d %v", s.K(), s.N(), s.H(), s.R(), samplesOf(s))
}

func (x *vs[T]) total() float64 {
	sum := 0.0
	for _, i := range x.hist {
		sum += i.w
	}
	return sum
}

// check verifies everything about the sketch that the stream determines.
func (x *vs[T]) check(k *kind[T]) error {
	s := x.s
	if s.K() != x.k || s.N() != x.n || s.IsEmpty() != (x.n == 0) {
		return fmt.Errorf("K()=%d N()=%d IsEmpty()=%v, want k=%d n=%d", s.K(), s.N(), s.IsEmpty(), x.k, x.n)
	}
	sm := samplesOf(s)
	want := int(min(x.n, int64(x.k)))
	if len(sm) != want || s.NumSamples() != want || s.H()+s.R() != want {
		return fmt.Errorf("n=%d k=%d: %d samples, NumSamples()=%d, H=%d R=%d, want %d", x.n, x.k, len(sm), s.NumSamples(), s.H(), s.R(), want)
	}
	own := make(map[int]float64, len(x.hist))
	for _, i := range x.hist {
		own[i.id] = i.w
	}
	got := make(map[int]float64, len(sm))
	sum := 0.0
	for _, e := range sm {
		id := k.id(e.Item)
		if _, ok := own[id]; !ok || k.item(id) != e.Item {
			return fmt.Errorf("sample %v is not in the stream", e.Item)
		}
		if _, dup := got[id]; dup {
			return fmt.Errorf("%v sampled twice", e.Item)
		}
		got[id] = e.Weight
		sum += e.Weight
	}
	if x.n <= int64(x.k) {
		if s.R() != 0 {
			return fmt.Errorf("n=%d<=k=%d but R()=%d", x.n, x.k, s.R())
		}
		for id, w := range own {
			if g, ok := got[id]; !ok || g != w {
				return fmt.Errorf("n=%d<=k=%d: item %v of weight %v held with weight %v (%v)", x.n, x.k, k.item(id), w, g, ok)
			}
		}
		return nil
	}
	if s.R() == 0 {
		return fmt.Errorf("n=%d>k=%d but R()=0", x.n, x.k)
	}
	if total := x.total(); !closeTo(sum, total) {
		return fmt.Errorf("n=%d k=%d: sample weights sum to %v, stream to %v", x.n, x.k, sum, total)
	}
	ws := make([]float64, len(x.hist))
	for i, e := range x.hist {
		ws[i] = e.w
	}
	tau := refTau(ws, x.k)
	heavy, may := 0, map[int]bool{}
	for id, w := range own {
		g, in := got[id]
		switch {
		case w > tau*(1+1e-8):
			heavy++
			if !in || g != w {
				return fmt.Errorf("n=%d k=%d threshold %v: heavy item of weight %v held %v with weight %v", x.n, x.k, tau, w, in, g)
			}
		case in:
			if math.Abs(g-tau) > 1e-8*tau {
				return fmt.Errorf("n=%d k=%d threshold %v: light item of weight %v reported with weight %v", x.n, x.k, tau, w, g)
			}
			if !x.may[id] {
				return fmt.Errorf("item %v returned after it had been dropped", k.item(id))
			}
		}
		if in {
			may[id] = true
		}
	}
	if s.H() < heavy {
		return fmt.Errorf("H()=%d, %d items exceed the threshold %v", s.H(), heavy, tau)
	}
	for i, e := range sm[s.H():] { // the light ones all carry one weight
		if e.Weight != sm[s.H()].Weight {
			return fmt.Errorf("light samples %d and 0 carry weights %v and %v", i, e.Weight, sm[s.H()].Weight)
		}
	}
	x.may = may
	return nil
}

// subset checks EstimateSubsetSum against the reported samples.
func vSubset[T comparable](s *sampling.VarOptItemsSketch[T], pred func(T) bool) error {
	r, err := s.EstimateSubsetSum(pred)
	if err != nil {
		return fmt.Errorf("EstimateSubsetSum: %v", err)
	}
	est, total, heavy := 0.0, 0.0, 0.0
	for i, e := range samplesOf(s) {
		total += e.Weight
		if pred(e.Item) {
			est += e.Weight
			if i < s.H() {
				heavy += e.Weight
			}
		}
	}
	tol := relTol * total
	if math.Abs(r.Estimate-est) > tol || math.Abs(r.TotalSketchWeight-total) > tol {
		return fmt.Errorf("%+v, samples give estimate %v of %v", r, est, total)
	}
	if s.R() == 0 && (math.Abs(r.LowerBound-est) > tol || math.Abs(r.UpperBound-est) > tol) {
		return fmt.Errorf("exact sketch but %+v", r)
	}
	if !(r.LowerBound >= heavy-tol && r.LowerBound <= r.Estimate+tol && r.Estimate <= r.UpperBound+tol && r.UpperBound <= total+tol) {
		return fmt.Errorf("bounds do not bracket: %+v, heavy part %v, total %v", r, heavy, total)
	}
	return nil
}
