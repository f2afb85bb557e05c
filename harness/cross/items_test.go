package cross_test

import (
	"bytes"
	"fmt"
	"io"
	"math"
	"slices"
	"strings"

	"github.com/apache/datasketches-go/common"
	"github.com/apache/datasketches-go/count"
	"github.com/apache/datasketches-go/filters"
	"github.com/apache/datasketches-go/frequencies"
	"github.com/apache/datasketches-go/sampling"
	"pgregory.net/rapid"

	"verif/vk"
)

func weight(p *vk.PRNG) int64 {
	switch p.Intn(4) {
	case 0:
		return int64(1 + p.Intn(100))
	case 1:
		return int64(1 + p.Intn(3))
	}
	return 1
}

// ---------------------------------------------------------------- frequencies

func longsStep(s *frequencies.LongsSketch, p *vk.PRNG, max int) {
	rng := pick(p, 10, 200, 5000)
	for i, n := 0, burst(p, max); i < n; i++ {
		mustNil(s.UpdateMany(int64(p.Intn(rng)), weight(p)))
	}
}

func longsArg(p *vk.PRNG) *frequencies.LongsSketch {
	s := must2(frequencies.NewLongsSketch(3+p.Intn(6), 3))
	for i, n := 0, p.Intn(4); i < n; i++ {
		longsStep(s, p, 400)
	}
	return s
}

func longsLoose(s *frequencies.LongsSketch) string {
	var b strings.Builder
	fmt.Fprintln(&b, s.GetMaximumMapCapacity(), s.GetNumActiveItems(), s.GetMaximumError(), s.GetStreamLength(), s.IsEmpty())
	for _, et := range []int{0, 1} {
		e := frequencies.ErrorTypeEnum.NoFalsePositives
		if et == 1 {
			e = frequencies.ErrorTypeEnum.NoFalseNegatives
		}
		rows, err := s.GetFrequentItems(e)
		var rs []string
		for _, r := range rows {
			rs = append(rs, fmt.Sprint(r.GetItem(), " ", r.GetEstimate(), " ", r.GetLowerBound(), " ", r.GetUpperBound()))
		}
		slices.Sort(rs)
		fmt.Fprintln(&b, rs, err)
	}
	for i := int64(0); i < 30; i++ {
		e, e1 := s.GetEstimate(i)
		l, e2 := s.GetLowerBound(i)
		u, e3 := s.GetUpperBound(i)
		fmt.Fprintln(&b, e, l, u, e1, e2, e3)
	}
	return b.String()
}

func longsShow(s *frequencies.LongsSketch) string {
	t, err := s.ToString()
	return longsLoose(s) + fmt.Sprintf("%x %s %v %d %d", s.ToSlice(), t, err, s.GetCurrentMapCapacity(), s.GetStorageBytes())
}

func longsObj(s *frequencies.LongsSketch) *object {
	return &object{name: "frequent longs", show: func() string { return longsShow(s) }, loose: func() string { return longsLoose(s) },
		step:  func(p *vk.PRNG) { longsStep(s, p, 700) },
		reset: s.Reset,
		reads: []op{
			{"show", func(p *vk.PRNG) { longsShow(s) }},
			{"estimate", func(p *vk.PRNG) { s.GetEstimate(int64(p.Intn(300))); s.GetUpperBound(int64(p.Intn(300))) }},
			{"frequent items", func(p *vk.PRNG) {
				s.GetFrequentItemsWithThreshold(int64(p.Intn(50)), frequencies.ErrorTypeEnum.NoFalseNegatives)
			}},
			{"image", func(p *vk.PRNG) { s.ToSlice() }},
			{"text", func(p *vk.PRNG) { s.ToString(); _ = s.String() }},
			{"weight zero", func(p *vk.PRNG) { mustNil(s.UpdateMany(int64(p.Intn(99)), 0)) }},
			{"merge of an empty one", func(p *vk.PRNG) { must2(s.Merge(must2(frequencies.NewLongsSketch(8, 3)))) }},
			{"merge into another", func(p *vk.PRNG) { must2(longsArg(p).Merge(s)) }}},
		derive: []deriv{
			{"decoded", func(p *vk.PRNG) *object {
				b := s.ToSlice()
				o := longsObj(must2(frequencies.NewLongsSketchFromSlice(b)))
				flip(b)()
				return o
			}},
			{"read back", func(p *vk.PRNG) *object {
				return longsObj(must2(frequencies.NewLongsSketchFromString(must2(s.ToString()))))
			}},
			{"merged from", func(p *vk.PRNG) *object {
				d := longsArg(p)
				must2(d.Merge(s))
				return longsObj(d)
			}}},
		absorb: []deriv{{"merge", func(p *vk.PRNG) *object {
			a := longsArg(p)
			o := longsObj(a)
			b := o.show()
			must2(s.Merge(a))
			if s := o.show(); s != b {
				panic("merge changed its argument " + differ(b, s))
			}
			return o
		}}},
		buffers: []buf{
			{"image", func(p *vk.PRNG) (*object, func()) { return nil, flip(s.ToSlice()) }},
			{"decode", func(p *vk.PRNG) (*object, func()) {
				b := s.ToSlice()
				return longsObj(must2(frequencies.NewLongsSketchFromSlice(b))), flip(b)
			}},
			{"rows", func(p *vk.PRNG) (*object, func()) {
				r := must2(s.GetFrequentItems(frequencies.ErrorTypeEnum.NoFalseNegatives))
				return nil, over(r, nil)
			}}},
		fails: []fail{
			{"negative weight", func(p *vk.PRNG) error {
				return s.UpdateMany(int64(p.Intn(50)), pick(p, int64(-1), -100, math.MinInt64))
			}},
			{"decoding a cut image", func(p *vk.PRNG) error {
				b := s.ToSlice()
				_, err := frequencies.NewLongsSketchFromSlice(b[:p.Intn(8)])
				return err
			}}},
	}
}

type freqS = frequencies.ItemsSketch[string]

func freqStep(s *freqS, p *vk.PRNG, max int) {
	rng := pick(p, 10, 200, 5000)
	for i, n := 0, burst(p, max); i < n; i++ {
		mustNil(s.UpdateMany(fmt.Sprint(p.Intn(rng)), weight(p)))
	}
}

func newFreq(lg int) *freqS {
	return must2(frequencies.NewFrequencyItemsSketch[string](lg, 3, common.ItemSketchStringHasher{}, common.ItemSketchStringSerDe{}))
}

func freqArg(p *vk.PRNG) *freqS {
	s := newFreq(3 + p.Intn(6))
	for i, n := 0, p.Intn(4); i < n; i++ {
		freqStep(s, p, 400)
	}
	return s
}

func freqLoose(s *freqS) string {
	var b strings.Builder
	fmt.Fprintln(&b, s.GetMaximumMapCapacity(), s.GetNumActiveItems(), s.GetMaximumError(), s.GetStreamLength(), s.IsEmpty())
	rows, err := s.GetFrequentItems(frequencies.ErrorTypeEnum.NoFalseNegatives)
	rows2, err2 := s.GetFrequentItems(frequencies.ErrorTypeEnum.NoFalsePositives)
	var rs []string
	for i, r := range append(rows, rows2...) {
		rs = append(rs, fmt.Sprint(i < len(rows), " ", r.GetItem(), " ", r.GetEstimate(), " ", r.GetLowerBound(), " ", r.GetUpperBound()))
	}
	slices.Sort(rs)
	fmt.Fprintln(&b, rs, err, err2)
	for i := 0; i < 30; i++ {
		k := fmt.Sprint(i)
		e, e1 := s.GetEstimate(k)
		l, e2 := s.GetLowerBound(k)
		u, e3 := s.GetUpperBound(k)
		fmt.Fprintln(&b, e, l, u, e1, e2, e3)
	}
	return b.String()
}

func freqShow(s *freqS) string {
	x, err := s.ToSlice()
	return freqLoose(s) + fmt.Sprintf("%x %v %d", x, err, s.GetCurrentMapCapacity())
}

func freqObj(s *freqS) *object {
	dec := func(b []byte) *object {
		return freqObj(must2(frequencies.NewFrequencyItemsSketchFromSlice[string](b, common.ItemSketchStringHasher{}, common.ItemSketchStringSerDe{})))
	}
	return &object{name: "frequent items", show: func() string { return freqShow(s) }, loose: func() string { return freqLoose(s) },
		step:  func(p *vk.PRNG) { freqStep(s, p, 700) },
		reset: func() { mustNil(s.Reset()) },
		reads: []op{
			{"show", func(p *vk.PRNG) { freqShow(s) }},
			{"estimate", func(p *vk.PRNG) { s.GetEstimate("7"); s.GetUpperBound("100") }},
			{"frequent items", func(p *vk.PRNG) {
				s.GetFrequentItemsWithThreshold(int64(p.Intn(50)), frequencies.ErrorTypeEnum.NoFalsePositives)
			}},
			{"image", func(p *vk.PRNG) { s.ToSlice() }},
			{"text", func(p *vk.PRNG) { s.ToString(); _ = s.String() }},
			{"weight zero", func(p *vk.PRNG) { mustNil(s.UpdateMany("zero", 0)) }},
			{"merge of an empty one", func(p *vk.PRNG) { must2(s.Merge(newFreq(8))) }},
			{"merge into another", func(p *vk.PRNG) { must2(freqArg(p).Merge(s)) }}},
		derive: []deriv{
			{"decoded", func(p *vk.PRNG) *object {
				b := must2(s.ToSlice())
				o := dec(b)
				flip(b)()
				return o
			}},
			{"merged from", func(p *vk.PRNG) *object {
				d := freqArg(p)
				must2(d.Merge(s))
				return freqObj(d)
			}}},
		absorb: []deriv{{"merge", func(p *vk.PRNG) *object {
			a := freqArg(p)
			o := freqObj(a)
			b := o.show()
			must2(s.Merge(a))
			if s := o.show(); s != b {
				panic("merge changed its argument " + differ(b, s))
			}
			return o
		}}},
		buffers: []buf{
			{"image", func(p *vk.PRNG) (*object, func()) { return nil, flip(must2(s.ToSlice())) }},
			{"decode", func(p *vk.PRNG) (*object, func()) {
				b := must2(s.ToSlice())
				return dec(b), flip(b)
			}},
			{"rows", func(p *vk.PRNG) (*object, func()) {
				r := must2(s.GetFrequentItems(frequencies.ErrorTypeEnum.NoFalseNegatives))
				return nil, over(r, nil)
			}}},
		fails: []fail{
			{"negative weight", func(p *vk.PRNG) error { return s.UpdateMany("a", pick(p, int64(-1), -100, math.MinInt64)) }},
			{"decoding a cut image", func(p *vk.PRNG) error {
				b := must2(s.ToSlice())
				_, err := frequencies.NewFrequencyItemsSketchFromSlice[string](b[:p.Intn(8)], common.ItemSketchStringHasher{}, common.ItemSketchStringSerDe{})
				return err
			}}},
	}
}

// ---------------------------------------------------------------- count-min

func cmStep(s *count.CountMinSketch, p *vk.PRNG, max int) {
	for i, n := 0, burst(p, max); i < n; i++ {
		k, w := p.Intn(60), weight(p)
		switch p.Intn(3) {
		case 0:
			mustNil(s.Update([]byte(fmt.Sprint(k)), w))
		case 1:
			mustNil(s.UpdateString(fmt.Sprint(k), w))
		default:
			mustNil(s.UpdateUint64(uint64(k), w))
		}
	}
}

func cmShow(s *count.CountMinSketch) string {
	var b strings.Builder
	fmt.Fprintln(&b, s.GetNumBuckets(), s.GetNumHashes(), s.GetTotalWeight(), s.GetSeed(), s.GetRelativeError())
	for i := 0; i < 64; i++ {
		k := fmt.Sprint(i)
		fmt.Fprintln(&b, s.GetEstimate([]byte(k)), s.GetEstimateString(k), s.GetUpperBound([]byte(k)), s.GetLowerBound([]byte(k)),
			s.GetEstimateUint64(uint64(i)), s.GetUpperBoundUint64(uint64(i)), s.GetLowerBoundUint64(uint64(i)))
	}
	fmt.Fprintf(&b, "%x", cmImage(s))
	return b.String()
}

func cmImage(s *count.CountMinSketch) []byte {
	var w bytes.Buffer
	mustNil(s.Serialize(&w))
	return w.Bytes()
}

type cmCfg struct {
	h    int8
	b    int32
	seed int64
}

func (c cmCfg) new() *count.CountMinSketch { return must2(count.NewCountMinSketch(c.h, c.b, c.seed)) }

func cmObj(s *count.CountMinSketch, c cmCfg) *object {
	arg := func(p *vk.PRNG) *count.CountMinSketch {
		a := c.new()
		cmStep(a, p, 100)
		return a
	}
	return &object{name: "count-min", show: func() string { return cmShow(s) },
		step: func(p *vk.PRNG) { cmStep(s, p, 200) },
		reads: []op{
			{"show", func(p *vk.PRNG) { cmShow(s) }},
			{"estimate", func(p *vk.PRNG) { s.GetEstimateString("5"); s.GetUpperBoundUint64(7) }},
			{"image", func(p *vk.PRNG) { cmImage(s) }},
			{"decode through it", func(p *vk.PRNG) { must2(s.Deserialize(cmImage(arg(p)), c.seed)) }},
			{"merge into another", func(p *vk.PRNG) { mustNil(arg(p).Merge(s)) }}},
		derive: []deriv{
			{"decoded", func(p *vk.PRNG) *object {
				b := cmImage(s)
				o := cmObj(must2(s.Deserialize(b, c.seed)), c)
				flip(b)()
				return o
			}},
			{"merged from", func(p *vk.PRNG) *object {
				a := arg(p)
				mustNil(a.Merge(s))
				return cmObj(a, c)
			}}},
		absorb: []deriv{{"merge", func(p *vk.PRNG) *object {
			a := arg(p)
			o := cmObj(a, c)
			b := o.show()
			mustNil(s.Merge(a))
			if s := o.show(); s != b {
				panic("merge changed its argument " + differ(b, s))
			}
			return o
		}}},
		buffers: []buf{
			{"decode", func(p *vk.PRNG) (*object, func()) {
				b := cmImage(s)
				return cmObj(must2(s.Deserialize(b, c.seed)), c), flip(b)
			}},
			{"update with bytes", func(p *vk.PRNG) (*object, func()) {
				b := []byte("key")
				mustNil(s.Update(b, 3))
				return nil, flip(b)
			}}},
		fails: []fail{
			{"merge with itself", func(p *vk.PRNG) error { return s.Merge(s) }},
			{"merge of another shape", func(p *vk.PRNG) error {
				d := c
				switch p.Intn(3) {
				case 0:
					d.h++
				case 1:
					d.b++
				default:
					d.seed++
				}
				a := d.new()
				cmStep(a, p, 50)
				return refused(cmObj(a, d), func() error { return s.Merge(a) })
			}},
			{"a failing writer", func(p *vk.PRNG) error { return s.Serialize(failWriter{}) }},
			{"decoding for another seed", func(p *vk.PRNG) error {
				_, err := s.Deserialize(cmImage(s), c.seed+1)
				return err
			}},
			{"decoding a cut image", func(p *vk.PRNG) error {
				b := cmImage(s)
				_, err := s.Deserialize(b[:p.Intn(min(len(b), 16))], c.seed)
				return err
			}}},
	}
}

// ---------------------------------------------------------------- bloom

type bloomCfg struct {
	bits   uint64
	hashes uint16
	seed   uint64
}

func (c bloomCfg) new() filters.BloomFilter {
	return must2(filters.NewBloomFilterBySize(c.bits, c.hashes, filters.WithSeed(c.seed)))
}

func bloomStep(s filters.BloomFilter, p *vk.PRNG, max int) {
	for i, n := 0, burst(p, max); i < n; i++ {
		k := p.Intn(200)
		switch p.Intn(9) {
		case 0:
			mustNil(s.UpdateString(fmt.Sprint(k)))
		case 1:
			mustNil(s.UpdateSlice([]byte(fmt.Sprint(k))))
		case 2:
			mustNil(s.UpdateFloat64(float64(k)))
		case 3:
			s.QueryAndUpdateInt64(int64(k))
		case 4:
			s.QueryAndUpdateString(fmt.Sprint(k))
		case 5:
			mustNil(s.UpdateInt64Array([]int64{int64(k), 1}))
		default:
			mustNil(s.UpdateUInt64(uint64(k)))
		}
	}
	if p.Intn(12) == 0 {
		mustNil(s.Invert())
	}
}

func bloomShow(s filters.BloomFilter) string {
	var b strings.Builder
	fmt.Fprintln(&b, s.Capacity(), s.NumHashes(), s.Seed(), s.IsEmpty())
	x, err := s.ToCompactSlice()
	fmt.Fprintf(&b, "%x %v %d", x, err, s.BitsUsed())
	for i := 0; i < 40; i++ {
		k := fmt.Sprint(i)
		fmt.Fprint(&b, s.QueryUInt64(uint64(i)), s.QueryInt64(int64(-i)), s.QueryString(k), s.QuerySlice([]byte(k)), s.QueryFloat64(float64(i)), s.QueryInt64Array([]int64{int64(i), 1}))
	}
	return b.String()
}

func bloomObj(s filters.BloomFilter, c bloomCfg) *object {
	arg := func(p *vk.PRNG) filters.BloomFilter {
		a := c.new()
		bloomStep(a, p, 60)
		return a
	}
	combine := func(p *vk.PRNG, dst, src filters.BloomFilter) error {
		if p.Intn(2) == 0 {
			return dst.Union(src)
		}
		return dst.Intersect(src)
	}
	return &object{name: "bloom", show: func() string { return bloomShow(s) },
		step:  func(p *vk.PRNG) { bloomStep(s, p, 150) },
		reset: func() { mustNil(s.Reset()) },
		reads: []op{
			{"show", func(p *vk.PRNG) { bloomShow(s) }},
			{"bits used", func(p *vk.PRNG) { s.BitsUsed() }},
			{"query", func(p *vk.PRNG) { s.QueryUInt64(uint64(p.Intn(300))); s.QueryFloat64Array([]float64{1, 2}) }},
			{"image", func(p *vk.PRNG) { s.ToCompactSlice() }},
			{"empty updates", func(p *vk.PRNG) {
				mustNil(s.UpdateString(""))
				mustNil(s.UpdateInt64Array(nil))
				s.QueryString("")
				s.QueryAndUpdateString("")
			}},
			{"compatible", func(p *vk.PRNG) { s.IsCompatible(arg(p)) }},
			{"combined into another", func(p *vk.PRNG) { mustNil(combine(p, arg(p), s)) }}},
		derive: []deriv{
			{"decoded", func(p *vk.PRNG) *object {
				b := must2(s.ToCompactSlice())
				o := bloomObj(must2(filters.NewBloomFilterFromSlice(b)), c)
				flip(b)()
				return o
			}},
			{"combined from", func(p *vk.PRNG) *object {
				a := arg(p)
				mustNil(combine(p, a, s))
				return bloomObj(a, c)
			}}},
		absorb: []deriv{{"combine", func(p *vk.PRNG) *object {
			a := arg(p)
			o := bloomObj(a, c)
			b := o.show()
			mustNil(combine(p, s, a))
			if s := o.show(); s != b {
				panic("the argument changed " + differ(b, s))
			}
			return o
		}}},
		buffers: []buf{
			{"image", func(p *vk.PRNG) (*object, func()) { return nil, flip(must2(s.ToCompactSlice())) }},
			{"decode", func(p *vk.PRNG) (*object, func()) {
				b := must2(s.ToCompactSlice())
				return bloomObj(must2(filters.NewBloomFilterFromSlice(b)), c), flip(b)
			}},
			{"update with arrays", func(p *vk.PRNG) (*object, func()) {
				a, f, b := []int64{1, 2}, []float64{1, 2}, []byte("xyz")
				mustNil(s.UpdateInt64Array(a))
				mustNil(s.UpdateFloat64Array(f))
				mustNil(s.UpdateSlice(b))
				return nil, func() { over(a, 9)(); over(f, 9)(); flip(b)() }
			}}},
		fails: []fail{
			{"combine with an incompatible filter", func(p *vk.PRNG) error {
				d := c
				switch p.Intn(3) {
				case 0:
					d.bits += 64
				case 1:
					d.hashes++
				default:
					d.seed++
				}
				a := d.new()
				bloomStep(a, p, 60)
				return refused(bloomObj(a, d), func() error { return combine(p, s, a) })
			}},
			{"decoding a cut image", func(p *vk.PRNG) error {
				b := must2(s.ToCompactSlice())
				_, err := filters.NewBloomFilterFromSlice(b[:p.Intn(len(b))])
				return err
			}}},
	}
}

// ---------------------------------------------------------------- sampling

type resS = sampling.ReservoirItemsSketch[int64]

var longSerde = common.ItemSketchLongSerDe{}

func newRes(k int, rf sampling.ResizeFactor) *resS {
	return must2(sampling.NewReservoirItemsSketch[int64](k, sampling.WithReservoirItemsSketchResizeFactor(rf)))
}

func resStep(s interface{ Update(int64) error }, p *vk.PRNG, max int) {
	for i, n := 0, burst(p, max); i < n; i++ {
		mustNil(s.Update(int64(p.U64() >> 40)))
	}
}

func resArg(p *vk.PRNG) *resS {
	s := newRes(2+p.Intn(40), rf(p))
	resStep(s, p, 200)
	return s
}

func rf(p *vk.PRNG) sampling.ResizeFactor {
	return pick(p, sampling.ResizeX1, sampling.ResizeX2, sampling.ResizeX4, sampling.ResizeX8)
}

func resShow(s *resS) string {
	e, err := s.EstimateSubsetSum(func(x int64) bool { return x%2 == 0 })
	b, err2 := s.ToSlice(longSerde)
	if s.N() == 0 {
		b = nil
	}
	return fmt.Sprint(s.K(), s.N(), s.NumSamples(), s.Samples(), e, err, err2, s.String()) + fmt.Sprintf("%x", b)
}

func resObj(s *resS) *object {
	dec := func(b []byte) *object {
		return resObj(must2(sampling.NewReservoirItemsSketchFromSlice[int64](b, longSerde)))
	}
	return &object{name: "reservoir", show: func() string { return resShow(s) },
		step:  func(p *vk.PRNG) { resStep(s, p, 300) },
		reset: s.Reset,
		reads: []op{
			{"show", func(p *vk.PRNG) { resShow(s) }},
			{"samples", func(p *vk.PRNG) { s.Samples() }},
			{"subset sum", func(p *vk.PRNG) { s.EstimateSubsetSum(func(x int64) bool { return x%3 == 0 }) }},
			{"image", func(p *vk.PRNG) { s.ToSlice(longSerde) }},
			{"copy", func(p *vk.PRNG) { s.Copy() }},
			{"union", func(p *vk.PRNG) {
				u := must2(sampling.NewReservoirItemsUnion[int64](2 + p.Intn(40)))
				mustNil(u.UpdateSketch(resArg(p)))
				mustNil(u.UpdateSketch(s))
				mustNil(u.UpdateSketch(resArg(p)))
			}},
			{"varopt union", func(p *vk.PRNG) {
				u := must2(sampling.NewVarOptItemsUnion[int64](uint(2 + p.Intn(40))))
				mustNil(u.UpdateReservoirItemsSketch(s))
			}}},
		derive: []deriv{
			{"copy", func(p *vk.PRNG) *object { return resObj(s.Copy()) }},
			{"decoded", func(p *vk.PRNG) *object {
				b := must2(s.ToSlice(longSerde))
				o := dec(b)
				flip(b)()
				return o
			}},
			{"union of", func(p *vk.PRNG) *object {
				u := must2(sampling.NewReservoirItemsUnion[int64](2 + p.Intn(40)))
				mustNil(u.UpdateSketch(s))
				return resUnionObj(u)
			}},
			{"union result of", func(p *vk.PRNG) *object {
				u := must2(sampling.NewReservoirItemsUnion[int64](2 + p.Intn(40)))
				mustNil(u.UpdateSketch(s))
				r := must2(u.Result())
				if r == nil {
					return nil
				}
				return resObj(r)
			}}},
		buffers: []buf{
			{"image", func(p *vk.PRNG) (*object, func()) { return nil, flip(must2(s.ToSlice(longSerde))) }},
			{"decode", func(p *vk.PRNG) (*object, func()) {
				b := must2(s.ToSlice(longSerde))
				return dec(b), flip(b)
			}},
			{"samples", func(p *vk.PRNG) (*object, func()) { return nil, over(s.Samples(), -1) }}},
		fails: []fail{
			{"decoding a cut image", func(p *vk.PRNG) error {
				b := must2(s.ToSlice(longSerde))
				_, err := sampling.NewReservoirItemsSketchFromSlice[int64](b[:p.Intn(8)], longSerde)
				return err
			}},
			{"a failing serializer", func(p *vk.PRNG) error {
				if s.N() == 0 {
					return errSkip
				}
				_, err := s.ToSlice(failSerde{})
				if err == nil {
					return errSkip // the item type's serializer cannot report errors here
				}
				return err
			}}},
	}
}

// failSerde serializes to nothing.
type failSerde struct{ common.ItemSketchLongSerDe }

func (failSerde) SerializeManyToSlice([]int64) []byte { return nil }

// rawShape is a stream length and a sample size that l raw items can stand for.
func rawShape(p *vk.PRNG, l int) (int64, int) {
	if l < 2 || p.Intn(2) == 0 {
		return int64(l), max(2, l) + p.Intn(5)
	}
	return int64(l + p.Intn(20)), l
}

func resUnionObj(u *sampling.ReservoirItemsUnion[int64]) *object {
	show := func() string {
		r := must2(u.Result())
		if r == nil || r.N() == 0 { // an unused union has no result, a reset one an empty result
			return fmt.Sprint("none ", u.MaxK())
		}
		b, err := u.ToSlice(longSerde)
		return resShow(r) + fmt.Sprint(u.MaxK(), u.String()) + fmt.Sprintf("%x %v", b, err)
	}
	// The resize factor of the result is the first input's for a new union only.
	loose := func() string {
		r := must2(u.Result())
		if r == nil || r.N() == 0 {
			return show()
		}
		b := must2(u.ToSlice(longSerde))
		for _, i := range []int{0, 8} { // the union and the sample in it
			b[i] &= 0x3f
		}
		return fmt.Sprint(r.K(), r.N(), r.NumSamples(), r.Samples()) + fmt.Sprintf("%x", b)
	}
	return &object{name: "reservoir union", show: show, loose: loose,
		step: func(p *vk.PRNG) {
			switch p.Intn(4) {
			case 0:
				resStep(u, p, 200)
			case 1:
				it := make([]int64, 1+p.Intn(9))
				for i := range it {
					it[i] = int64(p.Intn(99))
				}
				n, k := rawShape(p, len(it))
				mustNil(u.UpdateFromRaw(n, k, it))
			default:
				mustNil(u.UpdateSketch(resArg(p)))
			}
		},
		reset: u.Reset,
		reads: []op{
			{"show", func(p *vk.PRNG) { show() }},
			{"result", func(p *vk.PRNG) { must2(u.Result()) }},
			{"image", func(p *vk.PRNG) { u.ToSlice(longSerde) }},
			{"text", func(p *vk.PRNG) { _ = u.String() }}},
		derive: []deriv{
			{"result of", func(p *vk.PRNG) *object {
				r := must2(u.Result())
				if r == nil {
					return nil
				}
				return resObj(r)
			}},
			{"decoded", func(p *vk.PRNG) *object {
				if must2(u.Result()) == nil {
					return nil
				}
				b := must2(u.ToSlice(longSerde))
				o := resUnionObj(must2(sampling.NewReservoirItemsUnionFromSlice[int64](b, longSerde)))
				flip(b)()
				return o
			}}},
		absorb: []deriv{{"update with", func(p *vk.PRNG) *object {
			a := resArg(p)
			o := resObj(a)
			b := o.show()
			mustNil(u.UpdateSketch(a))
			if s := o.show(); s != b {
				panic("union update changed its argument " + differ(b, s))
			}
			return o
		}}},
		buffers: []buf{{"update with raw items", func(p *vk.PRNG) (*object, func()) {
			it := make([]int64, 1+p.Intn(9))
			n, k := rawShape(p, len(it))
			mustNil(u.UpdateFromRaw(n, k, it))
			return nil, over(it, -7)
		}}},
		fails: []fail{
			{"invalid raw items", func(p *vk.PRNG) error {
				it := []int64{1, 2, 3}
				e1 := u.UpdateFromRaw(10, pick(p, 1, 2), it) // k below 2 or below the number of items
				return e1
			}},
			{"too few raw items", func(p *vk.PRNG) error { return u.UpdateFromRaw(10, 5, []int64{1, 2, 3}) }}},
	}
}

type voS = sampling.VarOptItemsSketch[int64]

func newVo(k uint, rf sampling.ResizeFactor) *voS {
	return must2(sampling.NewVarOptItemsSketch[int64](k, sampling.WithResizeFactor(rf)))
}

func voStep(s *voS, p *vk.PRNG, max int) {
	heavy := p.Intn(3)
	for i, n := 0, burst(p, max); i < n; i++ {
		w := 1.0
		if heavy > 0 {
			w = math.Ldexp(1+p.F64(), p.Intn(6*heavy))
		}
		mustNil(s.Update(int64(p.U64()>>40), w))
	}
}

func voArg(p *vk.PRNG) *voS {
	s := newVo(uint(1+p.Intn(40)), rf(p))
	voStep(s, p, 150)
	return s
}

func voImage(s *voS) []byte {
	var w bytes.Buffer
	e := sampling.NewVarOptItemsSketchEncoder[int64](&w, longSerde)
	mustNil(e.Encode(s))
	return w.Bytes()
}

func voShow(s *voS) string {
	var b strings.Builder
	e, err := s.EstimateSubsetSum(func(x int64) bool { return x%2 == 0 })
	fmt.Fprintln(&b, s.K(), s.N(), s.NumSamples(), s.IsEmpty(), s.H(), s.R(), e, err, s.String())
	for x := range s.All() {
		fmt.Fprintln(&b, x)
	}
	fmt.Fprintf(&b, "%d %x", s.SerializedSizeBytes(longSerde), voImage(s))
	return b.String()
}

func voObj(s *voS) *object {
	union := func(p *vk.PRNG) *sampling.VarOptItemsUnion[int64] {
		u := must2(sampling.NewVarOptItemsUnion[int64](uint(2 + p.Intn(40))))
		if p.Intn(2) == 0 {
			mustNil(u.Update(voArg(p)))
		}
		mustNil(u.Update(s))
		return u
	}
	return &object{name: "varopt", show: func() string { return voShow(s) },
		step:  func(p *vk.PRNG) { voStep(s, p, 250) },
		reset: s.Reset,
		reads: []op{
			{"show", func(p *vk.PRNG) { voShow(s) }},
			{"some samples", func(p *vk.PRNG) {
				for range s.All() {
					break
				}
			}},
			{"subset sum", func(p *vk.PRNG) { s.EstimateSubsetSum(func(x int64) bool { return x%3 == 0 }) }},
			{"image", func(p *vk.PRNG) { voImage(s) }},
			{"union", func(p *vk.PRNG) { mustNil(union(p).Update(voArg(p))) }}},
		derive: []deriv{
			{"decoded", func(p *vk.PRNG) *object {
				b := voImage(s)
				o := voObj(must2(sampling.DecodeVarOptItemsSketch[int64](b, longSerde)))
				flip(b)()
				return o
			}},
			{"union of", func(p *vk.PRNG) *object { return voUnionObj(union(p)) }},
			{"union result of", func(p *vk.PRNG) *object { return voObj(must2(union(p).Result())) }}},
		buffers: []buf{
			{"decode", func(p *vk.PRNG) (*object, func()) {
				b := voImage(s)
				return voObj(must2(sampling.DecodeVarOptItemsSketch[int64](b, longSerde))), flip(b)
			}}},
		fails: []fail{
			{"invalid weight", func(p *vk.PRNG) error {
				return s.Update(int64(p.Intn(99)), pick(p, -1, math.NaN(), math.Inf(1), math.Inf(-1), -math.SmallestNonzeroFloat64))
			}},
			{"a failing writer", func(p *vk.PRNG) error {
				e := sampling.NewVarOptItemsSketchEncoder[int64](failWriter{}, longSerde)
				return e.Encode(s)
			}},
			{"decoding a cut image", func(p *vk.PRNG) error {
				_, err := sampling.DecodeVarOptItemsSketch[int64](voImage(s)[:p.Intn(8)], longSerde)
				return err
			}}},
	}
}

func voUnionObj(u *sampling.VarOptItemsUnion[int64]) *object {
	image := func(w io.Writer) error {
		e := sampling.NewVarOptItemsUnionEncoder[int64](w, longSerde)
		return e.Encode(u)
	}
	enc := func() []byte {
		var w bytes.Buffer
		mustNil(image(&w))
		return w.Bytes()
	}
	// a result may draw at random: fix the draw
	res := func() *voS {
		seedLib(77)
		return must2(u.Result())
	}
	show := func() string { return voShow(res()) + u.String() + fmt.Sprintf("%x", enc()) }
	return &object{name: "varopt union", show: show,
		step: func(p *vk.PRNG) {
			if p.Intn(3) == 0 {
				mustNil(u.UpdateReservoirItemsSketch(resArg(p)))
				return
			}
			mustNil(u.Update(voArg(p)))
		},
		reset: u.Reset,
		reads: []op{
			{"show", func(p *vk.PRNG) { show() }},
			{"result", func(p *vk.PRNG) { must2(u.Result()) }},
			{"image", func(p *vk.PRNG) { enc() }},
			{"text", func(p *vk.PRNG) { _ = u.String() }}},
		derive: []deriv{
			{"result of", func(p *vk.PRNG) *object { return voObj(must2(u.Result())) }},
			{"decoded", func(p *vk.PRNG) *object {
				b := enc()
				o := voUnionObj(must2(sampling.DecodeVarOptItemsUnion[int64](b, longSerde)))
				flip(b)()
				return o
			}}},
		absorb: []deriv{{"update with", func(p *vk.PRNG) *object {
			a := voArg(p)
			o := voObj(a)
			b := o.show()
			mustNil(u.Update(a))
			if s := o.show(); s != b {
				panic("union update changed its argument " + differ(b, s))
			}
			return o
		}}, {"update with a reservoir", func(p *vk.PRNG) *object {
			a := resArg(p)
			o := resObj(a)
			b := o.show()
			mustNil(u.UpdateReservoirItemsSketch(a))
			if s := o.show(); s != b {
				panic("union update changed its argument " + differ(b, s))
			}
			return o
		}}},
		fails: []fail{
			{"a failing writer", func(p *vk.PRNG) error { return image(failWriter{}) }},
			{"decoding a cut image", func(p *vk.PRNG) error {
				_, err := sampling.DecodeVarOptItemsUnion[int64](enc()[:p.Intn(8)], longSerde)
				return err
			}}},
	}
}

var itemFamilies = []family{
	{"frequent longs", func(t *rapid.T, p *vk.PRNG) (func() *object, string) {
		lg := 3 + p.Intn(6)
		return func() *object { return longsObj(must2(frequencies.NewLongsSketch(lg, 3))) }, fmt.Sprint(lg)
	}},
	{"frequent items", func(t *rapid.T, p *vk.PRNG) (func() *object, string) {
		lg := 3 + p.Intn(6)
		return func() *object { return freqObj(newFreq(lg)) }, fmt.Sprint(lg)
	}},
	{"count-min", func(t *rapid.T, p *vk.PRNG) (func() *object, string) {
		c := cmCfg{int8(1 + p.Intn(4)), int32(3 + p.Intn(20)), pick(p, int64(9001), 1, 77)}
		return func() *object { return cmObj(c.new(), c) }, fmt.Sprint(c)
	}},
	{"bloom", func(t *rapid.T, p *vk.PRNG) (func() *object, string) {
		c := bloomCfg{uint64(1 + p.Intn(2000)), uint16(1 + p.Intn(5)), pick(p, uint64(9001), 1, math.MaxUint64)}
		return func() *object { return bloomObj(c.new(), c) }, fmt.Sprint(c)
	}},
	{"reservoir", func(t *rapid.T, p *vk.PRNG) (func() *object, string) {
		k, r := 2+p.Intn(40), rf(p)
		return func() *object { return resObj(newRes(k, r)) }, fmt.Sprint(k, r)
	}},
	{"reservoir union", func(t *rapid.T, p *vk.PRNG) (func() *object, string) {
		k := 2 + p.Intn(40)
		return func() *object { return resUnionObj(must2(sampling.NewReservoirItemsUnion[int64](k))) }, fmt.Sprint(k)
	}},
	{"varopt", func(t *rapid.T, p *vk.PRNG) (func() *object, string) {
		k, r := uint(1+p.Intn(40)), rf(p)
		return func() *object { return voObj(newVo(k, r)) }, fmt.Sprint(k, r)
	}},
	{"varopt union", func(t *rapid.T, p *vk.PRNG) (func() *object, string) {
		k := uint(2 + p.Intn(40))
		return func() *object { return voUnionObj(must2(sampling.NewVarOptItemsUnion[int64](k))) }, fmt.Sprint(k)
	}},
}
