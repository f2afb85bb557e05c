package cross_test

import (
	"bytes"
	"fmt"
	"math"
	"slices"
	"strings"

	"github.com/apache/datasketches-go/common"
	"github.com/apache/datasketches-go/kll"
	"github.com/apache/datasketches-go/req"
	"github.com/apache/datasketches-go/tdigest"
	"pgregory.net/rapid"

	"verif/vk"
)

// kind is an item type.
type kind[T comparable] struct {
	name  string
	less  common.CompareFn[T]
	serde common.ItemSketchSerde[T]
	item  func(i int) T
}

var kDouble = &kind[float64]{"float64", common.ItemSketchDoubleComparator(false), common.ItemSketchDoubleSerDe{}, func(i int) float64 { return float64(i) }}
var kString = &kind[string]{"string", common.ItemSketchStringComparator(false), common.ItemSketchStringSerDe{}, func(i int) string { return fmt.Sprintf("%06d", i) }}

type kllS[T comparable] = kll.ItemsSketch[T]

func kllStep[T comparable](k *kind[T], s *kllS[T], p *vk.PRNG, max int) {
	dense, lo := p.Intn(2) == 0, p.Intn(3000)
	for i, n := 0, burst(p, max); i < n; i++ {
		v := p.Intn(3000)
		if dense {
			v = lo + i
		}
		s.Update(k.item(v))
	}
}

func newKll[T comparable](k *kind[T], size uint16) *kllS[T] {
	s, err := kll.NewKllItemsSketch[T](size, 8, k.less, k.serde)
	mustNil(err)
	return s
}

func kllArg[T comparable](k *kind[T], p *vk.PRNG) *kllS[T] {
	s := newKll(k, pick(p, uint16(8), 10, 20, 33))
	for i, n := 0, p.Intn(4); i < n; i++ {
		kllStep(k, s, p, 400)
	}
	return s
}

func kllView[T comparable](k *kind[T], v *kll.ItemsSketchSortedView[T]) string {
	var b strings.Builder
	for it := v.Iterator(); it.Next(); {
		fmt.Fprintln(&b, it.GetQuantile(), it.GetWeight(), it.GetNaturalRank(true), it.GetNormalizedRank(false))
	}
	for i := 0; i <= 4; i++ {
		q, e1 := v.GetQuantile(float64(i)/4, true)
		r, e2 := v.GetRank(k.item(700*i), false)
		fmt.Fprintln(&b, q, r, e1, e2)
	}
	fmt.Fprintln(&b, v.GetNumRetained())
	return b.String()
}

func kllShow[T comparable](k *kind[T], s *kllS[T]) string {
	var b strings.Builder
	fmt.Fprintln(&b, s.GetK(), s.GetN(), s.GetNumRetained(), s.IsEmpty(), s.IsEstimationMode(), s.GetNormalizedRankError(true))
	var es []string
	for it := s.GetIterator(); it.Next(); {
		es = append(es, fmt.Sprint(it.GetQuantile(), " ", it.GetWeight()))
	}
	slices.Sort(es)
	fmt.Fprintln(&b, es)
	if s.IsEmpty() {
		return b.String()
	}
	mn, e1 := s.GetMinItem()
	mx, e2 := s.GetMaxItem()
	fmt.Fprintln(&b, mn, mx, e1, e2)
	for i := 0; i <= 4; i++ {
		for _, incl := range []bool{false, true} {
			q, e1 := s.GetQuantile(float64(i)/4, incl)
			r, e2 := s.GetRank(k.item(700*i), incl)
			fmt.Fprintln(&b, q, r, e1, e2)
		}
	}
	pm, e3 := s.GetPMF([]T{k.item(500), k.item(1500)}, true)
	cd, e4 := s.GetCDF([]T{k.item(500), k.item(1500)}, false)
	pb, e5 := s.GetPartitionBoundaries(3, true)
	fmt.Fprintln(&b, pm, cd, e3, e4, e5)
	if pb != nil {
		fmt.Fprintln(&b, pb.GetBoundaries())
	}
	d, e6 := kll.NewKllItemsSketchFromSlice[T](must2(s.ToSlice()), k.less, k.serde)
	if e6 != nil || d.GetN() != s.GetN() {
		fmt.Fprintln(&b, "image unreadable", e6)
	}
	return b.String()
}

func must2[T any](v T, err error) T {
	mustNil(err)
	return v
}

// over writes v over every element.
func over[T any](s []T, v T) func() {
	return func() {
		for i := range s {
			s[i] = v
		}
	}
}

func kllObj[T comparable](k *kind[T], s *kllS[T]) *object {
	full := func() bool { return !s.IsEmpty() }
	return &object{name: "kll", show: func() string { return kllShow(k, s) },
		step:  func(p *vk.PRNG) { kllStep(k, s, p, 600) },
		reset: s.Reset,
		reads: []op{
			{"show", func(p *vk.PRNG) { kllShow(k, s) }},
			{"quantile", func(p *vk.PRNG) { s.GetQuantile(p.F64(), p.Intn(2) == 0) }},
			{"rank", func(p *vk.PRNG) { s.GetRank(k.item(p.Intn(3000)), p.Intn(2) == 0) }},
			{"many", func(p *vk.PRNG) {
				s.GetQuantiles([]float64{0.1, 0.9}, true)
				s.GetRanks([]T{k.item(4), k.item(3)}, true)
				s.GetPartitionBoundaries(1+p.Intn(5), true)
			}},
			{"image", func(p *vk.PRNG) { s.ToSlice(); s.GetSerializedSizeBytes() }},
			{"iterate", func(p *vk.PRNG) {
				for it := s.GetIterator(); it.Next(); {
				}
			}},
			{"sorted view", func(p *vk.PRNG) { s.GetSortedView() }},
			{"merge into another", func(p *vk.PRNG) { kllArg(k, p).Merge(s) }}},
		derive: []deriv{
			{"decoded", func(p *vk.PRNG) *object {
				b := must2(s.ToSlice())
				o := kllObj(k, must2(kll.NewKllItemsSketchFromSlice[T](b, k.less, k.serde)))
				flip(b)()
				return o
			}},
			{"merged from", func(p *vk.PRNG) *object {
				d := kllArg(k, p)
				d.Merge(s)
				return kllObj(k, d)
			}},
			{"sorted view of", func(p *vk.PRNG) *object {
				if !full() {
					return nil
				}
				v := must2(s.GetSortedView())
				return &object{name: "kll sorted view", show: func() string { return kllView(k, v) },
					reads: []op{{"show", func(p *vk.PRNG) { kllView(k, v) }}}}
			}},
			{"boundaries of", func(p *vk.PRNG) *object {
				if !full() {
					return nil
				}
				v := must2(s.GetPartitionBoundaries(1+p.Intn(6), true))
				show := func() string { return fmt.Sprint(v.GetBoundaries()) }
				return &object{name: "kll partition boundaries", show: show, reads: []op{{"show", func(p *vk.PRNG) { show() }}}}
			}}},
		absorb: []deriv{{"merge", func(p *vk.PRNG) *object {
			a := kllArg(k, p)
			o := kllObj(k, a)
			b := o.show()
			s.Merge(a)
			if s := o.show(); s != b {
				panic("merge changed its argument " + differ(b, s))
			}
			return o
		}}},
		buffers: []buf{
			{"image", func(p *vk.PRNG) (*object, func()) { return nil, flip(must2(s.ToSlice())) }},
			{"decode", func(p *vk.PRNG) (*object, func()) {
				b := must2(s.ToSlice())
				return kllObj(k, must2(kll.NewKllItemsSketchFromSlice[T](b, k.less, k.serde))), flip(b)
			}},
			{"items array", func(p *vk.PRNG) (*object, func()) { return nil, over(s.GetTotalItemsArray(), k.item(999)) }},
			{"queries", func(p *vk.PRNG) (*object, func()) {
				if !full() {
					return nil, func() {}
				}
				a, b := []T{k.item(100), k.item(2000)}, []float64{0.2, 0.7}
				q := must2(s.GetQuantiles(b, true))
				r := must2(s.GetRanks(a, true))
				c := must2(s.GetCDF(a, true))
				m := must2(s.GetPMF(a, true))
				return nil, func() {
					over(a, k.item(1))()
					over(b, 0.9)()
					over(q, k.item(1))()
					over(r, 5)()
					over(c, 5)()
					over(m, 5)()
				}
			}}},
		fails: []fail{
			{"rank out of range", func(p *vk.PRNG) error {
				_, e1 := s.GetQuantile(pick(p, -0.1, 1.1, math.Inf(1)), true)
				_, e2 := s.GetQuantiles([]float64{0.5, pick(p, -0.1, 1.1)}, true)
				return both(e1, e2)
			}},
			{"query of an empty sketch", func(p *vk.PRNG) error {
				if full() {
					return errSkip
				}
				_, e1 := s.GetMinItem()
				_, e2 := s.GetRank(k.item(1), true)
				_, e3 := s.GetQuantile(0.5, true)
				_, e4 := s.GetPMF([]T{k.item(1)}, true)
				_, e5 := s.GetCDF([]T{k.item(1)}, true)
				_, e6 := s.GetSortedView()
				_, e7 := s.GetPartitionBoundaries(2, true)
				return both(e1, e2, e3, e4, e5, e6, e7)
			}},
			{"split points out of order", func(p *vk.PRNG) error {
				if !full() {
					return errSkip
				}
				_, e1 := s.GetPMF([]T{k.item(5), k.item(4)}, true)
				_, e2 := s.GetCDF([]T{k.item(5), k.item(5)}, true)
				return both(e1, e2)
			}},
			{"decoding a cut image", func(p *vk.PRNG) error {
				b := must2(s.ToSlice())
				_, err := kll.NewKllItemsSketchFromSlice[T](b[:p.Intn(8)], k.less, k.serde)
				return err
			}}},
	}
}

// ---------------------------------------------------------------- req

func newReq(k int, hra bool) *req.Sketch {
	return must2(req.NewSketch(req.WithK(k), req.WithHighRankAccuracyMode(hra)))
}

func reqStep(s *req.Sketch, p *vk.PRNG, max int) {
	dense, lo := p.Intn(2) == 0, p.Intn(3000)
	for i, n := 0, burst(p, max); i < n; i++ {
		v := p.Intn(3000)
		if dense {
			v = lo + i
		}
		mustNil(s.Update(float32(v)))
	}
}

func reqArg(p *vk.PRNG, hra bool) *req.Sketch {
	s := newReq(pick(p, 4, 6, 12, 20), hra)
	for i, n := 0, p.Intn(4); i < n; i++ {
		reqStep(s, p, 300)
	}
	return s
}

func reqShow(s *req.Sketch) string {
	var b strings.Builder
	fmt.Fprintln(&b, s.K(), s.N(), s.NumRetained(), s.IsEmpty(), s.IsEstimationMode(), s.IsHighRankAccuracyMode())
	var es []string
	for _, it := range s.All() {
		es = append(es, fmt.Sprint(it))
	}
	slices.Sort(es)
	fmt.Fprintln(&b, es)
	if s.IsEmpty() {
		return b.String()
	}
	mn, e1 := s.MinItem()
	mx, e2 := s.MaxItem()
	fmt.Fprintln(&b, mn, mx, e1, e2)
	for i := 0; i <= 4; i++ {
		q, e1 := s.Quantile(float64(i) / 4)
		r, e2 := s.Rank(float32(700 * i))
		r2, e3 := s.Rank(float32(700*i), req.WithExclusiveSearch())
		l, e4 := s.RankLowerBound(float64(i) / 4)
		u, e5 := s.RankUpperBound(float64(i) / 4)
		fmt.Fprintln(&b, q, r, r2, l, u, e1, e2, e3, e4, e5)
	}
	pm, e3 := s.PMF([]float32{500, 1500})
	cd, e4 := s.CDF([]float32{500, 1500}, true)
	fmt.Fprintln(&b, pm, cd, e3, e4)
	return b.String()
}

func reqLoose(s *req.Sketch) string {
	if !s.IsEstimationMode() {
		return reqShow(s)
	}
	mn, _ := s.MinItem()
	mx, _ := s.MaxItem()
	return fmt.Sprint(s.K(), s.N(), s.IsHighRankAccuracyMode(), mn, mx)
}

func reqObj(s *req.Sketch) *object {
	hra := s.IsHighRankAccuracyMode()
	full := func() bool { return !s.IsEmpty() }
	return &object{name: "req", show: func() string { return reqShow(s) }, loose: func() string { return reqLoose(s) }, random: true,
		step:  func(p *vk.PRNG) { reqStep(s, p, 400) },
		reset: s.Reset,
		reads: []op{
			{"show", func(p *vk.PRNG) { reqShow(s) }},
			{"quantile", func(p *vk.PRNG) { s.Quantile(p.F64()) }},
			{"rank", func(p *vk.PRNG) { s.Rank(float32(p.Intn(3000))) }},
			{"NaN, which is ignored", func(p *vk.PRNG) { mustNil(s.Update(float32(math.NaN()))) }},
			{"bounds", func(p *vk.PRNG) { s.QuantileLowerBound(p.F64()); s.QuantileUpperBound(p.F64()) }},
			{"many", func(p *vk.PRNG) { s.Quantiles([]float64{0.9, 0.1}); s.Ranks([]float32{9, 3}) }},
			{"text", func(p *vk.PRNG) { _ = s.String(); s.CompactorDetailString(true) }},
			{"sorted view", func(p *vk.PRNG) { s.SortedView() }},
			{"merge into another", func(p *vk.PRNG) { mustNil(reqArg(p, hra).Merge(s)) }}},
		derive: []deriv{
			{"merged from", func(p *vk.PRNG) *object {
				d := reqArg(p, hra)
				mustNil(d.Merge(s))
				return reqObj(d)
			}},
			{"sorted view of", func(p *vk.PRNG) *object {
				if !full() {
					return nil
				}
				v := must2(s.SortedView())
				show := func() string {
					var b strings.Builder
					for i := 0; i <= 8; i++ {
						q, e1 := v.Quantile(float64(i)/8, true)
						r, e2 := v.Rank(float32(350*i), true)
						fmt.Fprintln(&b, q, r, e1, e2)
					}
					for it := v.Iterator(); it.Next(); {
						fmt.Fprintln(&b, must2(it.Quantile()), must2(it.Weight()))
					}
					return b.String()
				}
				return &object{name: "req sorted view", show: show, reads: []op{{"show", func(p *vk.PRNG) { show() }}}}
			}},
			{"all of", func(p *vk.PRNG) *object {
				v := s.All()
				show := func() string { return fmt.Sprint(v) }
				return &object{name: "req items", show: show, reads: []op{{"show", func(p *vk.PRNG) { show() }}}}
			}}},
		absorb: []deriv{{"merge", func(p *vk.PRNG) *object {
			a := reqArg(p, hra)
			o := reqObj(a)
			b := o.show()
			mustNil(s.Merge(a))
			if s := o.show(); s != b {
				panic("merge changed its argument " + differ(b, s))
			}
			return o
		}}},
		buffers: []buf{
			{"items", func(p *vk.PRNG) (*object, func()) { return nil, over(s.All(), req.Item{}) }},
			{"queries", func(p *vk.PRNG) (*object, func()) {
				if !full() {
					return nil, func() {}
				}
				a, b := []float32{100, 2000}, []float64{0.2, 0.7}
				q := must2(s.Quantiles(b))
				r := must2(s.Ranks(a))
				c := must2(s.CDF(a, true))
				m := must2(s.PMF(a))
				return nil, func() {
					over(a, 1)()
					over(b, 0.9)()
					over(q, 1)()
					over(r, 5)()
					over(c, 5)()
					over(m, 5)()
				}
			}}},
		fails: []fail{
			{"rank out of range", func(p *vk.PRNG) error {
				_, e1 := s.Quantile(pick(p, -0.1, 1.1))
				return e1
			}},
			{"split points out of order", func(p *vk.PRNG) error {
				_, e1 := s.PMF([]float32{5, 4})
				_, e2 := s.CDF([]float32{5, float32(math.NaN())}, true)
				return both(e1, e2)
			}},
			{"merge of the other mode", func(p *vk.PRNG) error {
				a := reqArg(p, !hra)
				if a.IsEmpty() {
					return errSkip
				}
				return refused(reqObj(a), func() error { return s.Merge(a) })
			}},
			{"query of an empty sketch", func(p *vk.PRNG) error {
				if full() {
					return errSkip
				}
				_, e1 := s.MinItem()
				_, e2 := s.Rank(1)
				_, e3 := s.Quantile(0.5)
				_, e4 := s.PMF([]float32{1})
				return both(e1, e2, e3, e4)
			}}},
	}
}

// ---------------------------------------------------------------- t-digest

func newTd(k uint16) *tdigest.Double { return must2(tdigest.NewDouble(k)) }

func tdStep(s *tdigest.Double, p *vk.PRNG, max int) {
	dense, lo := p.Intn(2) == 0, p.Intn(3000)
	for i, n := 0, burst(p, max); i < n; i++ {
		v := p.Intn(3000)
		if dense {
			v = lo + i
		}
		mustNil(s.Update(float64(v)))
	}
}

func tdArg(p *vk.PRNG) *tdigest.Double {
	s := newTd(pick(p, uint16(10), 20, 100))
	tdStep(s, p, 900)
	return s
}

func tdShow(s *tdigest.Double) string {
	if s.IsEmpty() {
		return fmt.Sprint(s.K(), s.TotalWeight(), "empty")
	}
	var b strings.Builder
	for i := 0; i <= 6; i++ {
		q, e1 := s.Quantile(float64(i) / 6)
		r, e2 := s.Rank(float64(500 * i))
		fmt.Fprintln(&b, q, r, e1, e2)
	}
	pm, e3 := s.PMF([]float64{500, 1500})
	cd, e4 := s.CDF([]float64{500, 1500})
	x, e5 := tdigest.EncodeDouble(s, false)
	fmt.Fprintln(&b, pm, cd, e3, e4, tdLoose(s), e5)
	fmt.Fprintf(&b, "%x", x)
	return b.String()
}

func tdLoose(s *tdigest.Double) string {
	mn, _ := s.MinValue()
	mx, _ := s.MaxValue()
	return fmt.Sprint(s.K(), s.TotalWeight(), s.IsEmpty(), mn, mx)
}

func tdObj(s *tdigest.Double) *object {
	full := func() bool { return !s.IsEmpty() }
	return &object{name: "t-digest", show: func() string { return tdShow(s) }, loose: func() string { return tdLoose(s) },
		step: func(p *vk.PRNG) { tdStep(s, p, 900) },
		reads: []op{
			{"show", func(p *vk.PRNG) { tdShow(s) }},
			{"quantile", func(p *vk.PRNG) { s.Quantile(p.F64()) }},
			{"rank", func(p *vk.PRNG) { s.Rank(float64(p.Intn(3000))) }},
			{"text", func(p *vk.PRNG) { _ = s.String(true) }},
			{"size", func(p *vk.PRNG) { s.SerializedSizeBytes(p.Intn(2) == 0) }},
			{"image", func(p *vk.PRNG) { tdigest.EncodeDouble(s, p.Intn(2) == 0) }},
			{"merge into another", func(p *vk.PRNG) {
				if full() {
					mustNil(tdArg(p).Merge(s))
				}
			}}},
		derive: []deriv{
			{"decoded", func(p *vk.PRNG) *object {
				b := must2(tdigest.EncodeDouble(s, p.Intn(2) == 0))
				o := tdObj(must2(tdigest.DecodeDouble(b)))
				flip(b)()
				return o
			}},
			{"merged from", func(p *vk.PRNG) *object {
				if !full() {
					return nil
				}
				d := tdArg(p)
				mustNil(d.Merge(s))
				return tdObj(d)
			}}},
		absorb: []deriv{{"merge", func(p *vk.PRNG) *object {
			a := tdArg(p)
			o := tdObj(a)
			var b string
			if p.Intn(2) == 0 { // half the time uncompressed
				b = o.show()
			}
			l := o.loose()
			mustNil(s.Merge(a))
			if s := o.loose(); s != l {
				panic("merge changed its argument " + differ(l, s))
			}
			if s := o.show(); b != "" && s != b {
				panic("merge changed its argument " + differ(b, s))
			}
			return o
		}}},
		buffers: []buf{
			{"image", func(p *vk.PRNG) (*object, func()) {
				return nil, flip(must2(tdigest.EncodeDouble(s, p.Intn(2) == 0)))
			}},
			{"decode", func(p *vk.PRNG) (*object, func()) {
				b := must2(tdigest.EncodeDouble(s, p.Intn(2) == 0))
				return tdObj(must2(tdigest.DecodeDouble(b))), flip(b)
			}},
			{"queries", func(p *vk.PRNG) (*object, func()) {
				if !full() {
					return nil, func() {}
				}
				a := []float64{100, 2000}
				c := must2(s.CDF(a))
				m := must2(s.PMF(a))
				return nil, func() {
					over(a, 1)()
					over(c, 5)()
					over(m, 5)()
				}
			}}},
		fails: []fail{
			{"update with NaN or an infinity", func(p *vk.PRNG) error {
				return s.Update(pick(p, math.NaN(), math.Inf(1), math.Inf(-1)))
			}},
			{"rank out of range", func(p *vk.PRNG) error {
				_, e1 := s.Quantile(pick(p, -0.1, 1.1, math.NaN()))
				return e1
			}},
			{"rank of NaN", func(p *vk.PRNG) error {
				_, e1 := s.Rank(math.NaN())
				return e1
			}},
			{"split points out of order", func(p *vk.PRNG) error {
				_, e1 := s.PMF([]float64{5, 4})
				_, e2 := s.CDF([]float64{5, math.NaN()})
				return both(e1, e2)
			}},
			{"merge of an empty one", func(p *vk.PRNG) error { return s.Merge(newTd(20)) }},
			{"a failing writer", func(p *vk.PRNG) error {
				e := tdigest.NewDoubleEncoder(failWriter{}, p.Intn(2) == 0)
				return e.Encode(s)
			}},
			{"decoding a cut image", func(p *vk.PRNG) error {
				b := must2(tdigest.EncodeDouble(s, p.Intn(2) == 0))
				d := tdigest.NewDoubleDecoder()
				_, err := d.Decode(bytes.NewReader(b[:p.Intn(8)]))
				return err
			}},
			{"query of an empty sketch", func(p *vk.PRNG) error {
				if full() {
					return errSkip
				}
				_, e1 := s.MinValue()
				_, e2 := s.Rank(1)
				_, e3 := s.Quantile(0.5)
				_, e4 := s.PMF([]float64{1})
				return both(e1, e2, e3, e4)
			}}},
	}
}

var quantileFamilies = []family{
	{"kll float64", func(t *rapid.T, p *vk.PRNG) (func() *object, string) {
		k := pick(p, uint16(8), 10, 20, 50)
		return func() *object { return kllObj(kDouble, newKll(kDouble, k)) }, fmt.Sprint(k)
	}},
	{"kll string", func(t *rapid.T, p *vk.PRNG) (func() *object, string) {
		k := pick(p, uint16(8), 10, 20, 50)
		return func() *object { return kllObj(kString, newKll(kString, k)) }, fmt.Sprint(k)
	}},
	{"req", func(t *rapid.T, p *vk.PRNG) (func() *object, string) {
		k, hra := pick(p, 4, 6, 12, 50), p.Intn(2) == 0
		return func() *object { return reqObj(newReq(k, hra)) }, fmt.Sprint(k, hra)
	}},
	{"t-digest", func(t *rapid.T, p *vk.PRNG) (func() *object, string) {
		k := pick(p, uint16(10), 20, 100)
		return func() *object { return tdObj(newTd(k)) }, fmt.Sprint(k)
	}},
}
