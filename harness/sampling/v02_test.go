package sampling_test

import (
	"bytes"
	"fmt"
	"math"
	"testing"

	"github.com/apache/datasketches-go/sampling"
	"pgregory.net/rapid"

	"verif/vk"
)

func vuEncode[T comparable](k *kind[T], u *sampling.VarOptItemsUnion[T]) ([]byte, error) {
	var b bytes.Buffer
	e := sampling.NewVarOptItemsUnionEncoder[T](&b, k.serde)
	err := e.Encode(u)
	return b.Bytes(), err
}

// vu is a VarOpt union with what its result must satisfy.
type vu[T comparable] struct {
	u      *sampling.VarOptItemsUnion[T]
	maxK   int
	n      int64
	total  float64
	tau    float64 // largest threshold of an input
	counts map[int]int
	exactW map[int][]float64 // weights under which inputs held the item exactly
	offers int               // samples offered
}

func newVU[T comparable](t *rapid.T, maxK int) *vu[T] {
	u, err := sampling.NewVarOptItemsUnion[T](uint(maxK))
	if err != nil {
		t.Fatalf("maxK=%d: %v", maxK, err)
	}
	return &vu[T]{u: u, maxK: maxK, counts: map[int]int{}, exactW: map[int][]float64{}}
}

func (x *vu[T]) clear() {
	*x = vu[T]{u: x.u, maxK: x.maxK, counts: map[int]int{}, exactW: map[int][]float64{}}
}

func (x *vu[T]) offer(k *kind[T], s *sampling.VarOptItemsSketch[T]) {
	for i, e := range samplesOf(s) {
		id := k.id(e.Item)
		x.counts[id]++
		x.offers++
		x.total += e.Weight
		if i < s.H() {
			x.exactW[id] = append(x.exactW[id], e.Weight)
		} else {
			x.tau = math.Max(x.tau, e.Weight)
		}
	}
	x.n += s.N()
}

func (x *vu[T]) offerReservoir(k *kind[T], s *sampling.ReservoirItemsSketch[T]) {
	for _, it := range s.Samples() {
		id := k.id(it)
		x.counts[id]++
		x.offers++
		if s.N() <= int64(s.K()) {
			x.exactW[id] = append(x.exactW[id], 1)
		}
	}
	if s.N() > int64(s.K()) {
		x.tau = math.Max(x.tau, float64(s.N())/float64(s.K()))
	}
	x.total += float64(s.N())
	x.n += s.N()
}

func (x *vu[T]) result(k *kind[T]) (*sampling.VarOptItemsSketch[T], error) {
	r, err := x.u.Result()
	if err != nil {
		return nil, fmt.Errorf("Result: %v", err)
	}
	return r, x.checkResult(k, r)
}

func (x *vu[T]) checkResult(k *kind[T], r *sampling.VarOptItemsSketch[T]) error {
	if r.N() != x.n || r.K() > x.maxK || r.IsEmpty() != (x.n == 0) {
		return fmt.Errorf("result N()=%d K()=%d, inputs saw %d, maximum k %d", r.N(), r.K(), x.n, x.maxK)
	}
	sm := samplesOf(r)
	if len(sm) != r.NumSamples() || len(sm) != r.H()+r.R() || len(sm) > r.K() {
		return fmt.Errorf("%d samples, NumSamples()=%d H=%d R=%d K=%d", len(sm), r.NumSamples(), r.H(), r.R(), r.K())
	}
	if r.R() > 0 && len(sm) != r.K() {
		return fmt.Errorf("estimation mode with %d samples of k=%d", len(sm), r.K())
	}
	sum := 0.0
	got := map[int]int{}
	tau := 0.0
	if r.R() > 0 {
		tau = sm[len(sm)-1].Weight
	}
	for i, e := range sm {
		id := k.id(e.Item)
		got[id]++
		if k.item(id) != e.Item || got[id] > x.counts[id] {
			return fmt.Errorf("result holds %v %d times, offered %d times", e.Item, got[id], x.counts[id])
		}
		sum += e.Weight
		if i < r.H() {
			if e.Weight < tau*(1-1e-9) {
				return fmt.Errorf("exact item of weight %v below the threshold %v", e.Weight, tau)
			}
			ok := false
			for _, w := range x.exactW[id] {
				ok = ok || w == e.Weight
			}
			if !ok {
				return fmt.Errorf("item %v reported exactly with weight %v, inputs held it exactly with %v", e.Item, e.Weight, x.exactW[id])
			}
		} else if e.Weight != tau {
			return fmt.Errorf("light samples carry weights %v and %v", tau, e.Weight)
		}
	}
	if !closeTo(sum, x.total) && x.n > 0 {
		return fmt.Errorf("sample weights sum to %v, inputs to %v", sum, x.total)
	}
	if x.tau > 0 {
		if r.R() == 0 {
			return fmt.Errorf("result claims to be exact although an input was sampled")
		}
		if tau < x.tau*(1-1e-8) {
			return fmt.Errorf("result threshold %v below an input's %v", tau, x.tau)
		}
	} else if x.offers <= x.maxK {
		if r.R() != 0 || len(sm) != x.offers {
			return fmt.Errorf("%d exact items fit into k=%d but the result has H=%d R=%d", x.offers, x.maxK, r.H(), r.R())
		}
	} else if len(sm) != x.maxK {
		return fmt.Errorf("%d exact items into k=%d gave %d samples", x.offers, x.maxK, len(sm))
	}
	for id, ws := range x.exactW { // what is heavier than the threshold stays
		for _, w := range ws {
			if w > tau*(1+1e-8) && got[id] == 0 {
				return fmt.Errorf("item %v of exact weight %v lost, threshold %v", k.item(id), w, tau)
			}
		}
	}
	return vSubset(r, func(it T) bool { return k.id(it)%2 == 0 })
}

func v02[T comparable](k *kind[T]) func(t *rapid.T, c *vk.Case) {
	return func(t *rapid.T, c *vk.Case) {
		next := 0
		large := 24
		if vk.Chance(t, "lg", 1, 8) {
			large = 400
		}
		x := newVU[T](t, vk.Int(t, "maxK", 1, large))
		hist := fmt.Sprintf("%s maxK=%d", k.name, x.maxK)
		var vin []*sampling.VarOptItemsSketch[T]
		var vwant []string
		var rin []*sampling.ReservoirItemsSketch[T]
		var rwant []string
		sd, sw := weightGen(t)
		estIn := 0
		steps := vk.Int(t, "steps", 1, 8)
		for st := 0; st < steps; st++ {
			switch vk.Int(t, "op", 0, 9) {
			case 0, 1, 2, 3, 4:
				var s *sampling.VarOptItemsSketch[T]
				if len(vin) > 0 && vk.Chance(t, "again", 1, 3) {
					s = vin[vk.Int(t, "which", 0, len(vin)-1)]
					hist += fmt.Sprintf(" <-again(k=%d,n=%d)", s.K(), s.N())
				} else {
					y := newVS[T](t, 1, large, 2*large)
					d, w := sd, sw
					if vk.Chance(t, "own", 1, 2) {
						d, w = weightGen(t)
					}
					if err := y.feed(k, &next, runLen(t, y.k), w); err != nil {
						t.Fatalf("%s: %v", hist, err)
					}
					s = y.s
					hist += fmt.Sprintf(" <-(k=%d,n=%d,%s)", s.K(), s.N(), d)
				}
				vin, vwant = append(vin, s), append(vwant, vState(s))
				if err := x.u.Update(s); err != nil {
					t.Fatalf("%s: Update: %v", hist, err)
				}
				x.offer(k, s)
				if s.R() > 0 {
					estIn++
				}
			case 5:
				y := newRS(t, k, 2, large, 2*large)
				if err := y.feed(k, &next, runLen(t, y.k)); err != nil {
					t.Fatal(err)
				}
				if vk.Chance(t, "giant", 1, 3) { // a reservoir that stands for a very long stream
					ru, err := sampling.NewReservoirItemsUnion[T](y.k)
					if err != nil {
						t.Fatal(err)
					}
					items := make([]T, y.k)
					for i := range items {
						items[i] = k.item(next)
						next++
					}
					if err := ru.UpdateFromRaw(int64(1)<<vk.Int(t, "lgn", 10, 47)+int64(vk.Int(t, "d", -9, 9)), y.k, items); err != nil {
						t.Fatal(err)
					}
					if y.s, err = ru.Result(); err != nil {
						t.Fatal(err)
					}
					y.n = y.s.N()
				}
				hist += fmt.Sprintf(" <-reservoir(k=%d,n=%d)", y.k, y.n)
				rin, rwant = append(rin, y.s), append(rwant, rState(y.s))
				if err := x.u.UpdateReservoirItemsSketch(y.s); err != nil {
					t.Fatalf("%s: %v", hist, err)
				}
				x.offerReservoir(k, y.s)
				if y.n > int64(y.k) {
					estIn++
				}
			case 6:
				hist += " trip"
				b, err := vuEncode(k, x.u)
				if err != nil {
					t.Fatalf("%s: encode: %v", hist, err)
				}
				if x.u, err = sampling.DecodeVarOptItemsUnion[T](b, k.serde); err != nil {
					t.Fatalf("%s: decode: %v", hist, err)
				}
			case 7:
				if vk.Chance(t, "rst", 1, 3) {
					hist += " reset"
					x.u.Reset()
					x.clear()
				} else if err := x.u.Update(nil); err != nil {
					t.Fatalf("%s: nil: %v", hist, err)
				}
			default: // the result serves as a sketch of its own
				r, err := x.result(k)
				if err != nil {
					t.Fatalf("%s: %v", hist, err)
				}
				hist += fmt.Sprintf(" use-result(k=%d,h=%d,r=%d)", r.K(), r.H(), r.R())
				sum := 0.0
				for _, e := range samplesOf(r) {
					sum += e.Weight
				}
				_, w := weightGen(t)
				if sum > 0 && !vk.Chance(t, "abs", 1, 3) {
					f := sum / float64(max(1, r.NumSamples()))
					g := w
					w0 := g(0)
					w = func(i int) float64 { return g(i) / w0 * f }
				}
				m := vk.Int(t, "m", 0, 2*r.K())
				n0 := r.N()
				for i := 0; i < m; i++ {
					if err := r.Update(k.item(next+i), w(i)); err != nil {
						t.Fatalf("%s: updating the result: %v", hist, err)
					}
					sum += w(i)
				}
				got := 0.0
				for _, e := range samplesOf(r) {
					got += e.Weight
				}
				if r.N() != n0+int64(m) || (sum > 0 && !closeTo(got, sum)) {
					t.Fatalf("%s: after %d more items the result has n=%d (was %d), weight %v, want %v", hist, m, r.N(), n0, got, sum)
				}
				before := vState(r)
				y, b, err := vTrip(k, r)
				if err != nil {
					t.Fatalf("%s: serializing the result: %v", hist, err)
				}
				if got := vState(y); got != before {
					t.Fatalf("%s: decoded result %s, was %s", hist, got, before)
				}
				if sz := r.SerializedSizeBytes(k.serde); sz != len(b) {
					t.Fatalf("%s: result's SerializedSizeBytes=%d, wrote %d", hist, sz, len(b))
				}
			}
			if _, err := x.result(k); err != nil {
				t.Fatalf("%s: %v", hist, err)
			}
			for i, s := range vin {
				if got := vState(s); got != vwant[i] {
					t.Fatalf("%s: input %d changed:\nwas %s\nnow %s", hist, i, vwant[i], got)
				}
			}
			for i, s := range rin {
				if got := rState(s); got != rwant[i] {
					t.Fatalf("%s: reservoir %d changed:\nwas %s\nnow %s", hist, i, rwant[i], got)
				}
			}
		}
		if len(vin)+len(rin) > 0 && x.n > 0 {
			c.NT(hist)
			c.Class(fmt.Sprintf("%d estimating inputs", min(estIn, 3)))
			if c.WantSample() {
				c.Sample("%s", hist)
			}
		}
	}
}

// v02Stat repeats one union history; subset sums must be unbiased.
func v02Stat(t *rapid.T, c *vk.Case) {
	type input struct {
		res  bool
		k, n int
		w    func(int) float64
	}
	maxK := vk.Int(t, "maxK", 2, 16)
	desc := fmt.Sprintf("maxK=%d", maxK)
	var ins []input
	var ws []float64
	base := rapid.Float64Range(0.1, 3).Draw(t, "base")
	for i, m := 0, vk.Int(t, "inputs", 1, 4); i < m; i++ {
		in := input{res: vk.Chance(t, "res", 1, 4), k: vk.Int(t, "k", 2, 18)}
		in.n = vk.Int(t, "n", 1, 4*in.k)
		d := "equal"
		switch vk.Int(t, "w", 0, 3) {
		case 0:
			in.w = func(int) float64 { return base }
		case 1:
			d = "mod"
			in.w = func(i int) float64 { return base * float64(1+i%5) }
		case 2:
			d = "rising"
			in.w = func(i int) float64 { return base * float64(1+i) / 4 }
		default:
			d = "spikes"
			in.w = func(i int) float64 {
				if i%7 == 3 {
					return base * 30
				}
				return base
			}
		}
		if in.res {
			d = "reservoir"
			in.w = func(int) float64 { return 1 }
		}
		for j := 0; j < in.n; j++ {
			ws = append(ws, in.w(j))
		}
		ins = append(ins, in)
		desc += fmt.Sprintf(" (k=%d,n=%d,%s)", in.k, in.n, d)
	}
	trip := vk.Int(t, "trip", -1, len(ins))
	more := vk.Int(t, "more", 0, 2) * vk.Int(t, "moren", 0, 20) // items added to the result
	for j := 0; j < more; j++ {
		ws = append(ws, base*float64(1+j%3))
	}
	desc += fmt.Sprintf(" trip=%d more=%d", trip, more)
	total := 0.0
	for _, w := range ws {
		total += w
	}
	trials := 3000
	if vk.Tier() == "thorough" {
		trials = 20000
	}
	N := len(ws)
	var ms []*mean
	var preds []func(i int) bool
	addPred := func(name string, p func(i int) bool) {
		m := &mean{name: name, maxValue: 1}
		for i, w := range ws {
			if p(i) {
				m.want += w / total
			}
		}
		ms, preds = append(ms, m), append(preds, p)
	}
	off := 0
	for i, in := range ins {
		lo, hi := off, off+in.n
		mid := lo + in.n/2
		addPred(fmt.Sprintf("share of input %d", i), func(i int) bool { return i >= lo && i < hi })
		addPred(fmt.Sprintf("share of input %d's first half", i), func(i int) bool { return i >= lo && i < mid })
		off = hi
	}
	addPred("share of every third", func(i int) bool { return i%3 == 0 })
	for i := 0; i < N; i++ {
		if i%max(1, N/12) == 0 {
			addPred(fmt.Sprintf("share of item %d", i), func(j int) bool { return j == i })
		}
	}
	must := func(err error) {
		if err != nil {
			t.Fatalf("%s: %v", desc, err)
		}
	}
	share := make([]float64, N)
	for tr := 0; tr < trials; tr++ {
		u, err := sampling.NewVarOptItemsUnion[int64](uint(maxK))
		must(err)
		id := 0
		for i, in := range ins {
			if i == trip {
				b, err := vuEncode(kLong, u)
				must(err)
				u, err = sampling.DecodeVarOptItemsUnion[int64](b, kLong.serde)
				must(err)
			}
			if in.res {
				s, err := sampling.NewReservoirItemsSketch[int64](in.k)
				must(err)
				for j := 0; j < in.n; j++ {
					must(s.Update(int64(id)))
					id++
				}
				must(u.UpdateReservoirItemsSketch(s))
				continue
			}
			s, err := sampling.NewVarOptItemsSketch[int64](uint(in.k))
			must(err)
			for j := 0; j < in.n; j++ {
				must(s.Update(int64(id), in.w(j)))
				id++
			}
			must(u.Update(s))
		}
		r, err := u.Result()
		must(err)
		for ; id < N; id++ {
			must(r.Update(int64(id), ws[id]))
		}
		clear(share)
		for e := range r.All() {
			share[e.Item] += e.Weight / total
		}
		for i, p := range preds {
			sum := 0.0
			for j, v := range share {
				if v > 0 && p(j) {
					sum += v
				}
			}
			ms[i].add(sum)
		}
	}
	for _, m := range ms {
		if err := m.err(); err != nil {
			t.Fatalf("%s: %v", desc, err)
		}
	}
	if N > maxK {
		c.NT(desc)
		c.Class(fmt.Sprintf("%d inputs", len(ins)))
		if c.WantSample() {
			c.Sample("%s, %d trials", desc, trials)
		}
	}
}

func TestV02(t *testing.T) {
	vk.Property(t, "V02", "at least one non-empty input (statistics: more items than the union can hold)",
		vk.Sub{Name: "model-long", Quick: 3500, Thorough: 60000, Fn: v02(kLong)},
		vk.Sub{Name: "model-string", Quick: 1200, Thorough: 15000, Fn: v02(kString)},
		vk.Sub{Name: "unbiased", Quick: 160, Thorough: 500, Fn: v02Stat},
	)
}
