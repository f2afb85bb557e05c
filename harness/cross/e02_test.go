package cross_test

import (
	"bytes"
	"fmt"
	"math"
	"slices"
	"strings"
	"sync"
	"testing"

	"github.com/apache/datasketches-go/common/quantiles"
	"github.com/apache/datasketches-go/cpc"
	"github.com/apache/datasketches-go/theta"
	"github.com/apache/datasketches-go/tuple"
	"pgregory.net/rapid"

	"verif/vk"
)

// E02: objects that are not shared, or that cannot change, used from several goroutines at once. The test binary is
// built with the race detector where that is available (see harness/cmd/vrun), so that a shared scratch area is found
// even when the goroutines happen not to collide.

// together runs every f in a goroutine of its own, all released at once, and returns their results.
func together(fs []func() string) []string {
	out := make([]string, len(fs))
	start := make(chan struct{})
	var wg sync.WaitGroup
	for i, f := range fs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					out[i] = fmt.Sprint("panic: ", e)
				}
			}()
			<-start
			out[i] = f()
		}()
	}
	close(start)
	wg.Wait()
	return out
}

// drawsAtRandom: the answers depend on the library's global random source, which concurrent use interleaves.
func drawsAtRandom(name string) bool {
	for _, s := range []string{"kll", "req", "reservoir", "varopt"} {
		if strings.Contains(name, s) {
			return true
		}
	}
	return false
}

func eWorkers(t *rapid.T, c *vk.Case) {
	n := vk.Int(t, "workers", 2, 4)
	same := vk.Chance(t, "same", 1, 2)
	first := vk.Int(t, "family", 0, len(families)-1)
	var fs []func() string
	var names []string
	var exact []bool
	total := 0
	for i := 0; i < n; i++ {
		f := first
		if !same && i > 0 {
			f = vk.Int(t, fmt.Sprintf("family%d", i), 0, len(families)-1)
		}
		fam := families[f]
		fresh, cfg := fam.mk(t, vk.NewPRNG(u64(t, fmt.Sprintf("cfg%d", i))))
		hist := u64(t, fmt.Sprintf("hist%d", i))
		steps := vk.Int(t, fmt.Sprintf("steps%d", i), 1, 6)
		total += steps
		names = append(names, fmt.Sprintf("%s %s (%d steps, %d)", fam.name, cfg, steps, hist))
		random := drawsAtRandom(fam.name)
		exact = append(exact, !random)
		c.Class(fam.name)
		fs = append(fs, func() string {
			o, p := fresh(), vk.NewPRNG(hist)
			var b strings.Builder
			for s := 0; s < steps; s++ {
				if o.step != nil {
					o.step(p)
				}
				if len(o.reads) > 0 && p.Intn(2) == 0 {
					o.reads[p.Intn(len(o.reads))].f(p)
				}
				if len(o.derive) > 0 && p.Intn(2) == 0 {
					d := o.derive[p.Intn(len(o.derive))].f(p)
					if d != nil {
						if v := d.show(); !random {
							b.WriteString(v)
						}
					}
				}
			}
			v := o.show()
			if random || o.random {
				return "done"
			}
			return b.String() + v
		})
	}
	vk.SaveCurrent([]byte("workers: " + strings.Join(names, "\n")))
	// together first: tables that are filled on first use must not have been filled by the sequential run
	got := together(fs)
	want := make([]string, n)
	for i, f := range fs {
		want[i] = f()
	}
	for i := range fs {
		if got[i] != want[i] {
			t.Fatalf("worker %d answers differently next to the others %s\nworkers:\n%s", i, differ(want[i], got[i]), strings.Join(names, "\n"))
		}
	}
	if slices.Contains(exact, true) {
		c.NT(strings.Join(names, ";"))
	}
	if c.WantSample() {
		c.Sample("%s", strings.Join(names, " | "))
	}
}

type eSum struct{ v int64 }

func (s *eSum) Reset()               { s.v = 0 }
func (s *eSum) Clone() tuple.Summary { x := *s; return &x }
func (s *eSum) Update(v int64)       { s.v += v }

type eSumPolicy struct{}

func (eSumPolicy) Apply(in, inc *eSum) { in.v += inc.v }

type anPol struct{}

func (anPol) Apply(in, inc *tuple.ArrayOfNumbersSummary[float64]) { in.Update(inc.Values()) }

// eReaders: one immutable object, read and used as an operand by several goroutines at once.
func eReaders(t *rapid.T, c *vk.Case) {
	kind := vk.Pick(t, "kind", "theta compact", "theta wrapped", "tuple compact", "array-of-numbers compact", "cpc wrapper", "numeric sorted view")
	seed := u64(t, "items")
	n := vk.Size(t, "n", 0, 1500)
	lgK := uint8(vk.Int(t, "lgk", 5, 9))
	ordered := vk.Chance(t, "ordered", 1, 2)
	item := func(i int) int64 { return int64(vk.Mix(seed + uint64(i))) }
	var read func(p *vk.PRNG) string // a drawn use of the object
	switch kind {
	case "theta compact", "theta wrapped":
		u, err := theta.NewQuickSelectUpdateSketch(theta.WithUpdateSketchLgK(lgK))
		ok(t, err)
		o, err := theta.NewQuickSelectUpdateSketch(theta.WithUpdateSketchLgK(lgK))
		ok(t, err)
		for i := 0; i < n; i++ {
			_ = u.UpdateInt64(item(i))
			_ = o.UpdateInt64(item(i + n/2))
		}
		k, other := u.Compact(ordered), o.Compact(!ordered)
		var s theta.Sketch = k
		if kind == "theta wrapped" {
			var w bytes.Buffer
			e := theta.NewEncoder(&w, vk.Chance(t, "compressed", 1, 2))
			ok(t, e.Encode(k))
			x, err := theta.WrapCompactSketch(w.Bytes(), theta.DefaultSeed)
			ok(t, err)
			s = x
		}
		read = func(p *vk.PRNG) string {
			switch p.Intn(6) {
			case 0:
				return thetaShow(s)
			case 1:
				un, _ := theta.NewUnion(theta.WithUnionLgK(lgK))
				e1, e2 := un.Update(s), un.Update(other)
				r, e3 := un.Result(p.Intn(2) == 0)
				return fmt.Sprint(e1, e2, e3) + thetaShow(r)
			case 2:
				in := theta.NewIntersection()
				e1, e2 := in.Update(s), in.Update(other)
				r, e3 := in.Result(p.Intn(2) == 0)
				return fmt.Sprint(e1, e2, e3) + thetaShow(r)
			case 3:
				r, err := theta.ANotB(s, other, theta.DefaultSeed, p.Intn(2) == 0)
				return fmt.Sprint(err) + thetaShow(r)
			case 4:
				r, err := theta.Jaccard(s, other, theta.DefaultSeed)
				return fmt.Sprint(r, err)
			}
			b, err := k.MarshalBinary()
			return fmt.Sprintf("%x %v", b, err)
		}
	case "tuple compact":
		u, err := tuple.NewUpdateSketch[*eSum, int64](func() *eSum { return &eSum{} }, tuple.WithUpdateSketchLgK(lgK))
		ok(t, err)
		for i := 0; i < n; i++ {
			_ = u.UpdateInt64(item(i), int64(i))
		}
		s, err := u.Compact(ordered)
		ok(t, err)
		show := func(s *tuple.CompactSketch[*eSum]) string {
			return tupleShow[*eSum](s, func(x *eSum) string { return fmt.Sprint(x.v) })
		}
		read = func(p *vk.PRNG) string {
			switch p.Intn(5) {
			case 0:
				return show(s)
			case 1:
				un, err := tuple.NewUnion[*eSum](eSumPolicy{}, tuple.WithUnionLgK(lgK))
				if err != nil {
					return err.Error()
				}
				e1, e2 := un.Update(s), un.Update(s)
				r, e3 := un.Result(p.Intn(2) == 0)
				if e3 != nil {
					return e3.Error()
				}
				return fmt.Sprint(e1, e2) + show(r)
			case 2:
				in := tuple.NewIntersection[*eSum](eSumPolicy{})
				e1, e2 := in.Update(s), in.Update(s)
				r, e3 := in.Result(p.Intn(2) == 0)
				if e3 != nil {
					return e3.Error()
				}
				return fmt.Sprint(e1, e2) + show(r)
			case 3:
				r, err := s.Filter(func(x *eSum) bool { return x.v&1 == 0 })
				if err != nil {
					return err.Error()
				}
				return show(r)
			}
			un, err := tuple.NewCompactSketch[*eSum](s, p.Intn(2) == 0)
			if err != nil {
				return err.Error()
			}
			return show(un)
		}
	case "array-of-numbers compact":
		u, err := tuple.NewArrayOfNumbersUpdateSketch[float64](2, tuple.WithUpdateSketchLgK(lgK))
		ok(t, err)
		for i := 0; i < n; i++ {
			_ = u.UpdateInt64(item(i), []float64{1, float64(i)})
		}
		s, err := u.Compact(ordered)
		ok(t, err)
		show := func(s *tuple.ArrayOfNumbersCompactSketch[float64]) string {
			var b strings.Builder
			fmt.Fprintln(&b, s.Theta64(), s.NumRetained(), s.Estimate(), s.IsOrdered())
			for h, v := range s.All() {
				fmt.Fprintln(&b, h, v.Values())
			}
			return b.String()
		}
		read = func(p *vk.PRNG) string {
			switch p.Intn(4) {
			case 0:
				return show(s)
			case 1:
				var w bytes.Buffer
				e := tuple.NewArrayOfNumbersSketchEncoder[float64](&w)
				err := e.Encode(s)
				return fmt.Sprintf("%x %v", w.Bytes(), err)
			case 2:
				un, err := tuple.NewArrayOfNumbersSketchUnion[float64](anPol{}, 2, tuple.WithUnionLgK(lgK))
				if err != nil {
					return err.Error()
				}
				e1, e2 := un.Update(s), un.Update(s)
				r, err := un.Result(p.Intn(2) == 0)
				if err != nil {
					return err.Error()
				}
				return fmt.Sprint(e1, e2) + show(r)
			}
			in := tuple.NewArrayOfNumbersSketchIntersection[float64](anPol{}, 2)
			e1, e2 := in.Update(s), in.Update(s)
			r, err := in.Result(p.Intn(2) == 0)
			if err != nil {
				return err.Error()
			}
			return fmt.Sprint(e1, e2) + show(r)
		}
	case "cpc wrapper":
		u, err := cpc.NewCpcSketch(int(lgK), 9001)
		ok(t, err)
		for i := 0; i < n*4; i++ {
			ok(t, u.UpdateInt64(item(i)))
		}
		b, err := u.ToCompactSlice()
		ok(t, err)
		w, err := cpc.NewCpcWrapperFromBytes(b)
		ok(t, err)
		read = func(p *vk.PRNG) string {
			if p.Intn(3) == 0 {
				x, err := cpc.NewCpcSketchFromSlice(b, 9001)
				if err != nil {
					return err.Error()
				}
				y, err := x.ToCompactSlice()
				return fmt.Sprintf("%x %v", y, err)
			}
			return fmt.Sprint(w.GetLgK(), w.GetEstimate(), w.GetLowerBound(1), w.GetUpperBound(2), w.GetLowerBound(3))
		}
	default:
		m := n + 1
		q, cum := make([]float64, m), make([]int64, m)
		for i := range q {
			q[i], cum[i] = math.Floor(float64(i)/2), int64(i+1)
		}
		v := quantiles.NewNumericSortedView(q, cum, int64(m), q[m-1], q[0])
		read = func(p *vk.PRNG) string {
			x, r, inc := float64(p.Intn(m+2))-1, p.F64(), p.Intn(2) == 0
			a, e1 := v.Rank(x, inc)
			b, e2 := v.Quantile(r, inc)
			d, e3 := v.CDF([]float64{x, x + 3}, inc)
			return fmt.Sprint(a, e1, b, e2, d, e3, v.Quantiles()[0], v.CumulativeWeights()[m-1])
		}
	}
	workers := vk.Int(t, "readers", 2, 4)
	uses := vk.Int(t, "uses", 1, 6)
	var fs []func() string
	for i := 0; i < workers; i++ {
		h := u64(t, fmt.Sprintf("use%d", i))
		fs = append(fs, func() string {
			p := vk.NewPRNG(h)
			var b strings.Builder
			for j := 0; j < uses; j++ {
				b.WriteString(read(p))
			}
			return b.String()
		})
	}
	vk.SaveCurrent(fmt.Appendf(nil, "readers: %s of %d items, lgK %d, seed %d, %d readers", kind, n, lgK, seed, workers))
	// together first: a lazily filled cache must not have been filled by the sequential run
	got := together(fs)
	for i, f := range fs {
		if want := f(); got[i] != want {
			t.Fatalf("%s of %d items: reader %d saw something else next to the others %s", kind, n, i, differ(want, got[i]))
		}
	}
	c.Class(kind)
	if n > 0 {
		c.NT(kind, n, lgK, seed)
	}
	c.Sample("%s of %d items, %d readers, %d uses each", kind, n, workers, uses)
}

func TestE02(t *testing.T) {
	vk.Property(t, "E02", "non-trivial: at least one worker whose answers are determined, or a non-empty immutable object with several readers",
		vk.Sub{Name: "workers", Quick: 3000, Thorough: 60000, Fn: eWorkers},
		vk.Sub{Name: "readers", Quick: 3000, Thorough: 60000, Fn: eReaders})
}
