package decoders_test

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"math"
	"testing"

	"github.com/apache/datasketches-go/common"
	"github.com/apache/datasketches-go/count"
	"github.com/apache/datasketches-go/filters"
	"github.com/apache/datasketches-go/frequencies"
	"github.com/apache/datasketches-go/kll"
	"github.com/apache/datasketches-go/sampling"
	"github.com/apache/datasketches-go/tdigest"

	"verif/vk"
)

// kind is an item type with its serializer.
type kind[T comparable] struct {
	name  string
	serde common.ItemSketchSerde[T]
	cmp   common.CompareFn[T]
	hash  common.ItemSketchHasher[T]
	item  func(g *gen) T
}

var kLong = &kind[int64]{"int64", common.ItemSketchLongSerDe{}, common.ItemSketchLongComparator(false), common.ItemSketchLongHasher{}, func(g *gen) int64 { return int64(g.p.U64() >> uint(g.p.Intn(60))) }}
var kDouble = &kind[float64]{"float64", common.ItemSketchDoubleSerDe{}, common.ItemSketchDoubleComparator(false), common.ItemSketchDoubleHasher{}, func(g *gen) float64 { return g.p.F64() * 100 }}
var kString = &kind[string]{"string", common.ItemSketchStringSerDe{}, common.ItemSketchStringComparator(false), common.ItemSketchStringHasher{}, func(g *gen) string {
	return fmt.Sprintf("%x", g.p.U64()>>uint(g.p.Intn(64)))
}}

func (g *gen) must(err error) {
	if err != nil {
		g.t.Fatalf("building an image: %v", err)
	}
}

// ---------------------------------------------------------------- kll

func kllTarget[T comparable](k *kind[T]) *target {
	return &target{name: "kll[" + k.name + "]",
		make: func(g *gen) []byte {
			s, err := kll.NewKllItemsSketch[T](uint16(g.pick(8, 8, 9, 20, 200, 65535)), 8, k.cmp, k.serde)
			g.must(err)
			for i, n := 0, g.n(600); i < n; i++ {
				s.Update(k.item(g))
			}
			b, err := s.ToSlice()
			g.must(err)
			return b
		},
		decode: func(b []byte) (any, error) { return kll.NewKllItemsSketchFromSlice[T](b, k.cmp, k.serde) },
		use: func(o any, x *sink) {
			s := o.(*kll.ItemsSketch[T])
			g := &gen{p: vk.NewPRNG(7)}
			q := func() {
				x.getters(s)
				a, b := k.item(g), k.item(g)
				if !k.cmp(a, b) {
					a, b = b, a
				}
				for _, incl := range []bool{false, true} {
					r, err := s.GetRank(a, incl)
					x.add(r, err)
					for _, rk := range []float64{0, 0.3, 1} {
						v, err := s.GetQuantile(rk, incl)
						x.add(v, err)
					}
					if k.cmp(a, b) {
						p, err := s.GetPMF([]T{a, b}, incl)
						x.add(p, err)
						p, err = s.GetCDF([]T{a, b}, incl)
						x.add(p, err)
					}
					pb, err := s.GetPartitionBoundaries(3, incl)
					x.add(pb, err)
				}
				x.add(s.GetNormalizedRankError(true))
				for it, i := s.GetIterator(), 0; it.Next() && i < 1<<20; i++ {
					x.add(it.GetQuantile(), it.GetWeight())
				}
			}
			q()
			for i := 0; i < 30; i++ {
				s.Update(k.item(g))
			}
			q()
			d, err := kll.NewKllItemsSketch[T](10, 8, k.cmp, k.serde)
			if err == nil {
				for i := 0; i < 30; i++ {
					d.Update(k.item(g))
				}
				d.Merge(s)
				b, err := d.ToSlice()
				x.add(b, err)
				s.Merge(d)
				b, err = s.ToSlice()
				x.add(b, err)
			}
		},
		sum: func(o any) string {
			s := o.(*kll.ItemsSketch[T])
			mn, _ := s.GetMinItem()
			mx, _ := s.GetMaxItem()
			var es []string
			for it := s.GetIterator(); it.Next(); {
				es = append(es, fmt.Sprint(it.GetQuantile(), it.GetWeight()))
			}
			if s.IsEmpty() {
				return fmt.Sprint(s.GetK(), "empty")
			}
			return fmt.Sprint(s.GetK(), s.GetN(), s.GetNumRetained(), mn, mx, es)
		}}
}

// ---------------------------------------------------------------- t-digest

func tdImage(g *gen) []byte {
	s, err := tdigest.NewDouble(uint16(g.pick(10, 10, 20, 100, 200, 65535)))
	g.must(err)
	for i, n := 0, g.n(1500); i < n; i++ {
		g.must(s.Update(g.p.F64() * 1000))
	}
	b, err := tdigest.EncodeDouble(s, g.p.Intn(2) == 0)
	g.must(err)
	if g.p.Intn(5) == 0 { // the two formats of the reference implementation
		return tdRef(g)
	}
	return b
}

func tdRef(g *gen) []byte {
	be := binary.BigEndian
	n := g.p.Intn(30)
	f64 := func(b []byte, v float64) []byte { return be.AppendUint64(b, bitsOf(v)) }
	f32 := func(b []byte, v float64) []byte { return be.AppendUint32(b, bits32(v)) }
	var b []byte
	if g.p.Intn(2) == 0 {
		b = be.AppendUint32(b, 1)
		b = f64(f64(f64(b, 1), float64(n+1)), float64(g.pick(10, 100)))
		b = be.AppendUint32(b, uint32(n+1))
		for i := 0; i <= n; i++ {
			b = f64(b, 1)
		}
		for i := 0; i <= n; i++ {
			b = f64(b, float64(i+1))
		}
		return b
	}
	b = be.AppendUint32(b, 2)
	b = f64(f64(b, 1), float64(n+1))
	b = f32(b, float64(g.pick(10, 100)))
	b = be.AppendUint16(be.AppendUint16(b, 210), 1050)
	b = be.AppendUint16(b, uint16(n+1))
	for i := 0; i <= n; i++ {
		b = f32(f32(b, 1), float64(i+1))
	}
	return b
}

func tdTarget(name string, dec func(b []byte) (any, error), stream func(r io.Reader) (any, error)) *target {
	return &target{name: name, make: tdImage, decode: dec, stream: stream,
		use: func(o any, x *sink) {
			s := o.(*tdigest.Double)
			q := func() {
				x.getters(s)
				for _, v := range []float64{-1, 0, 0.01, 0.5, 0.999, 1, 500, 1e300} {
					r, err := s.Rank(v)
					x.add(r, err)
					r, err = s.Quantile(v)
					x.add(r, err)
				}
				p, err := s.PMF([]float64{0, 10, 20})
				x.add(p, err)
				p, err = s.CDF([]float64{0, 10, 20})
				x.add(p, err)
				x.add(s.String(true), s.String(false))
				for _, wb := range []bool{true, false} {
					x.add(s.SerializedSizeBytes(wb))
					b, err := tdigest.EncodeDouble(s, wb)
					x.add(b, err)
				}
			}
			q()
			for i := 0; i < 100; i++ {
				x.add(s.Update(float64(i)))
			}
			q()
			d, err := tdigest.NewDouble(20)
			if err == nil {
				x.add(d.Update(5))
				x.add(d.Merge(s))
				b, err := tdigest.EncodeDouble(d, true)
				x.add(b, err)
				x.add(s.Merge(d))
				b, err = tdigest.EncodeDouble(s, false)
				x.add(b, err)
			}
		},
		sum: func(o any) string {
			s := o.(*tdigest.Double)
			b, err := tdigest.EncodeDouble(s, true)
			return fmt.Sprintf("%d %d %x %v", s.K(), s.TotalWeight(), b, err)
		}}
}

var tdDecode = tdTarget("tdigest.DecodeDouble", func(b []byte) (any, error) { return tdigest.DecodeDouble(b) }, nil)
var tdStream = tdTarget("tdigest.DoubleDecoder", func(b []byte) (any, error) {
	d := tdigest.NewDoubleDecoder()
	return d.Decode(bytes.NewReader(b))
}, func(r io.Reader) (any, error) {
	d := tdigest.NewDoubleDecoder()
	return d.Decode(r)
})

// ---------------------------------------------------------------- frequencies

func freqTarget[T comparable](k *kind[T]) *target {
	return &target{name: "frequencies.ItemsSketch[" + k.name + "]",
		make: func(g *gen) []byte {
			lg := g.pick(3, 3, 4, 6, 10, 26)
			s, err := frequencies.NewFrequencyItemsSketch[T](lg, min(lg, g.pick(3, 4)), k.hash, k.serde)
			g.must(err)
			n := g.n(300)
			for i := 0; i < n; i++ {
				g.must(s.UpdateMany(k.item(g), int64(1+g.p.Intn(50))))
			}
			b, err := s.ToSlice()
			g.must(err)
			return b
		},
		decode: func(b []byte) (any, error) {
			return frequencies.NewFrequencyItemsSketchFromSlice[T](b, k.hash, k.serde)
		},
		use: func(o any, x *sink) {
			s := o.(*frequencies.ItemsSketch[T])
			g := &gen{p: vk.NewPRNG(7)}
			q := func() {
				x.getters(s)
				it := k.item(g)
				e, err := s.GetEstimate(it)
				l, e2 := s.GetLowerBound(it)
				u, e3 := s.GetUpperBound(it)
				x.add(e, err, l, e2, u, e3)
				for _, et := range []bool{true, false} {
					rows, err := s.GetFrequentItemsWithThreshold(3, errTypes(et))
					x.add(rows, err)
					rows, err = s.GetFrequentItems(errTypes(et))
					x.add(err)
					for _, r := range rows {
						x.add(r.GetItem(), r.GetEstimate(), r.GetLowerBound(), r.GetUpperBound())
					}
				}
			}
			q()
			for i := 0; i < 40; i++ {
				x.add(s.UpdateMany(k.item(g), 3))
			}
			q()
			d, err := frequencies.NewFrequencyItemsSketch[T](4, 3, k.hash, k.serde)
			if err == nil {
				_, err := d.Merge(s)
				x.add(err)
				b, err := d.ToSlice()
				x.add(b, err)
			}
		},
		sum: func(o any) string {
			s := o.(*frequencies.ItemsSketch[T])
			rows, _ := s.GetFrequentItemsWithThreshold(0, errTypes(true))
			es := map[T]int64{}
			for _, r := range rows {
				es[r.GetItem()] = r.GetLowerBound()
			}
			return fmt.Sprint(s.GetMaximumMapCapacity(), s.GetStreamLength(), s.GetMaximumError(), es)
		}}
}

func longsUse(o any, x *sink) {
	s := o.(*frequencies.LongsSketch)
	g := &gen{p: vk.NewPRNG(7)}
	q := func() {
		x.getters(s)
		it := int64(g.p.U64())
		e, err := s.GetEstimate(it)
		l, e2 := s.GetLowerBound(it)
		u, e3 := s.GetUpperBound(it)
		x.add(e, err, l, e2, u, e3)
		for _, et := range []bool{true, false} {
			rows, err := s.GetFrequentItemsWithThreshold(3, errTypes(et))
			x.add(rows, err)
			rows, err = s.GetFrequentItems(errTypes(et))
			x.add(err)
			for _, r := range rows {
				x.add(r.GetItem(), r.GetEstimate(), r.GetLowerBound(), r.GetUpperBound())
			}
		}
	}
	q()
	for i := 0; i < 40; i++ {
		x.add(s.UpdateMany(int64(g.p.U64()), 3))
	}
	q()
	d, err := frequencies.NewLongsSketch(4, 3)
	if err == nil {
		_, err := d.Merge(s)
		x.add(err, d.ToSlice())
	}
}

func longsSum(o any) string {
	s := o.(*frequencies.LongsSketch)
	rows, _ := s.GetFrequentItemsWithThreshold(0, errTypes(true))
	es := map[int64]int64{}
	for _, r := range rows {
		es[r.GetItem()] = r.GetLowerBound()
	}
	return fmt.Sprint(s.GetMaximumMapCapacity(), s.GetStreamLength(), s.GetMaximumError(), es)
}

func longsSketch(g *gen) *frequencies.LongsSketch {
	lg := g.pick(3, 3, 4, 6, 10, 26)
	s, err := frequencies.NewLongsSketch(lg, min(lg, g.pick(3, 4)))
	g.must(err)
	for i, n := 0, g.n(300); i < n; i++ {
		g.must(s.UpdateMany(int64(g.p.U64()>>uint(g.p.Intn(60))), int64(1+g.p.Intn(50))))
	}
	return s
}

var longs = &target{name: "frequencies.NewLongsSketchFromSlice", make: func(g *gen) []byte { return longsSketch(g).ToSlice() },
	decode: func(b []byte) (any, error) { return frequencies.NewLongsSketchFromSlice(b) }, use: longsUse, sum: longsSum}

// the text form ends with a separator, so a prefix is not detectable in general
var longsText = &target{name: "frequencies.NewLongsSketchFromString",
	make: func(g *gen) []byte {
		s, err := longsSketch(g).ToString()
		g.must(err)
		return []byte(s)
	},
	decode: func(b []byte) (any, error) { return frequencies.NewLongsSketchFromString(string(b)) }, use: longsUse, sum: longsSum}

// ---------------------------------------------------------------- count-min

func cmDecode(b []byte) (any, error) {
	c, err := count.NewCountMinSketch(1, 3, 9001)
	if err != nil {
		panic(err)
	}
	return c.Deserialize(b, 9001)
}

var countMin = &target{name: "count.Deserialize",
	make: func(g *gen) []byte {
		s, err := count.NewCountMinSketch(int8(g.pick(1, 2, 5, 127)), int32(g.pick(3, 4, 8, 50)), 9001)
		g.must(err)
		for i, n := 0, g.n(30); i < n; i++ {
			g.must(s.UpdateUint64(g.p.U64(), int64(1+g.p.Intn(9))))
		}
		var w bytes.Buffer
		g.must(s.Serialize(&w))
		return w.Bytes()
	},
	decode: cmDecode,
	use: func(o any, x *sink) {
		s := o.(*count.CountMinSketch)
		x.getters(s)
		for i := uint64(0); i < 5; i++ {
			x.add(s.GetEstimateUint64(i), s.GetLowerBoundUint64(i), s.GetUpperBoundUint64(i), s.GetEstimateString("a"), s.GetEstimate([]byte{1}))
			x.add(s.UpdateUint64(i, 2))
		}
		var w bytes.Buffer
		x.add(s.Serialize(&w), w.Bytes())
		x.add(s.Merge(s))
	},
	sum: func(o any) string {
		s := o.(*count.CountMinSketch)
		var w bytes.Buffer
		_ = s.Serialize(&w)
		return fmt.Sprintf("%x", w.Bytes())
	},
	// an empty image legitimately declares its capacity
	extra: func(b []byte) int64 {
		if len(b) >= 16 && b[3]&1 != 0 {
			return 32 * int64(b[12]&127) * int64(binary.LittleEndian.Uint32(b[8:]))
		}
		return 0
	},
	valid: func(b []byte) bool { // ... of any size, which this machine cannot always hold
		return len(b) < 16 || b[3]&1 == 0 || int64(b[12]&127)*int64(binary.LittleEndian.Uint32(b[8:])) <= 1<<22
	}}

// ---------------------------------------------------------------- bloom

var bloom = &target{name: "filters.NewBloomFilterFromSlice",
	make: func(g *gen) []byte {
		s, err := filters.NewBloomFilterBySize(uint64(1+g.p.Intn(2000)), uint16(1+g.p.Intn(12)), filters.WithSeed(g.p.U64()))
		g.must(err)
		for i, n := 0, g.n(60); i < n; i++ {
			g.must(s.UpdateUInt64(g.p.U64()))
		}
		b, err := s.ToCompactSlice()
		g.must(err)
		return b
	},
	decode: func(b []byte) (any, error) { return filters.NewBloomFilterFromSlice(b) },
	use: func(o any, x *sink) {
		s := o.(filters.BloomFilter)
		x.getters(s)
		for i := uint64(0); i < 3; i++ {
			x.add(s.QueryUInt64(i), s.QueryString("x"), s.QueryAndUpdateUInt64(i), s.UpdateUInt64(i+100))
		}
		b, err := s.ToCompactSlice()
		x.add(b, err)
		if o, err := filters.NewBloomFilterFromSlice(b); err == nil {
			x.add(s.Union(o), s.Intersect(o), s.IsCompatible(o))
		}
		x.add(s.Invert())
		x.getters(s)
		x.add(s.Reset())
	},
	sum: func(o any) string {
		s := o.(filters.BloomFilter)
		b, _ := s.ToCompactSlice()
		return fmt.Sprintf("%x", b)
	},
	extra: func(b []byte) int64 {
		if len(b) >= 24 && b[3]&4 != 0 {
			return 16 * int64(binary.LittleEndian.Uint32(b[16:]))
		}
		return 0
	},
	valid: func(b []byte) bool {
		return len(b) < 24 || b[3]&4 == 0 || binary.LittleEndian.Uint32(b[16:]) <= 1<<21
	}}

// ---------------------------------------------------------------- sampling

func reservoirOf[T comparable](g *gen, k *kind[T]) *sampling.ReservoirItemsSketch[T] {
	s, err := sampling.NewReservoirItemsSketch[T](g.pick(2, 3, 10, 100, 1<<20, 1<<31-1))
	g.must(err)
	for i, n := 0, g.n(200); i < n; i++ {
		g.must(s.Update(k.item(g)))
	}
	return s
}

func useReservoir[T comparable](s *sampling.ReservoirItemsSketch[T], k *kind[T], x *sink) {
	g := &gen{p: vk.NewPRNG(7)}
	q := func() {
		x.getters(s)
		r, err := s.EstimateSubsetSum(func(T) bool { return g.p.Intn(2) == 0 })
		x.add(r, err)
		b, err := s.ToSlice(k.serde)
		x.add(b, err)
	}
	q()
	for i := 0; i < 20; i++ {
		x.add(s.Update(k.item(g)))
	}
	q()
	u, err := sampling.NewReservoirItemsUnion[T](10)
	if err == nil {
		x.add(u.UpdateSketch(s))
		r, err := u.Result()
		x.add(r, err)
	}
}

func reservoirTarget[T comparable](k *kind[T]) *target {
	return &target{name: "sampling.Reservoir[" + k.name + "]",
		make: func(g *gen) []byte {
			b, err := reservoirOf(g, k).ToSlice(k.serde)
			g.must(err)
			return b
		},
		decode: func(b []byte) (any, error) { return sampling.NewReservoirItemsSketchFromSlice[T](b, k.serde) },
		use:    func(o any, x *sink) { useReservoir(o.(*sampling.ReservoirItemsSketch[T]), k, x) },
		sum: func(o any) string {
			s := o.(*sampling.ReservoirItemsSketch[T])
			return fmt.Sprint(s.K(), s.N(), s.NumSamples(), s.Samples())
		}}
}

func reservoirUnionTarget[T comparable](k *kind[T]) *target {
	return &target{name: "sampling.ReservoirUnion[" + k.name + "]",
		make: func(g *gen) []byte {
			u, err := sampling.NewReservoirItemsUnion[T](g.pick(2, 10, 100, 1<<20))
			g.must(err)
			for i, n := 0, g.p.Intn(3); i < n; i++ {
				g.must(u.UpdateSketch(reservoirOf(g, k)))
			}
			b, err := u.ToSlice(k.serde)
			g.must(err)
			return b
		},
		decode: func(b []byte) (any, error) { return sampling.NewReservoirItemsUnionFromSlice[T](b, k.serde) },
		use: func(o any, x *sink) {
			u := o.(*sampling.ReservoirItemsUnion[T])
			g := &gen{p: vk.NewPRNG(7)}
			x.getters(u)
			r, err := u.Result()
			x.add(r, err)
			if err == nil && r != nil {
				useReservoir(r, k, x)
			}
			for i := 0; i < 20; i++ {
				x.add(u.Update(k.item(g)))
			}
			x.add(u.UpdateFromRaw(1000, 5, []T{k.item(g), k.item(g), k.item(g), k.item(g), k.item(g)}))
			b, err := u.ToSlice(k.serde)
			x.add(b, err)
			r, err = u.Result()
			x.add(r, err)
		},
		sum: func(o any) string {
			u := o.(*sampling.ReservoirItemsUnion[T])
			r, err := u.Result()
			if err != nil || r == nil {
				return fmt.Sprint(u.MaxK(), r == nil)
			}
			return fmt.Sprint(u.MaxK(), r.K(), r.N(), r.Samples())
		}}
}

func varoptOf[T comparable](g *gen, k *kind[T]) *sampling.VarOptItemsSketch[T] {
	s, err := sampling.NewVarOptItemsSketch[T](uint(g.pick(1, 2, 3, 10, 100, 1<<20)))
	g.must(err)
	for i, n := 0, g.n(200); i < n; i++ {
		g.must(s.Update(k.item(g), 0.1+g.p.F64()*float64(g.pick(1, 1, 1000))))
	}
	return s
}

func varoptBytes[T comparable](s *sampling.VarOptItemsSketch[T], k *kind[T]) ([]byte, error) {
	var w bytes.Buffer
	e := sampling.NewVarOptItemsSketchEncoder[T](&w, k.serde)
	err := e.Encode(s)
	return w.Bytes(), err
}

func useVaropt[T comparable](s *sampling.VarOptItemsSketch[T], k *kind[T], x *sink) {
	g := &gen{p: vk.NewPRNG(7)}
	q := func() {
		x.getters(s)
		for it := range s.All() {
			x.add(it.Item, it.Weight)
		}
		r, err := s.EstimateSubsetSum(func(T) bool { return g.p.Intn(2) == 0 })
		x.add(r, err, s.SerializedSizeBytes(k.serde))
		b, err := varoptBytes(s, k)
		x.add(b, err)
	}
	q()
	for i := 0; i < 20; i++ {
		x.add(s.Update(k.item(g), 1+float64(i%3)*100))
	}
	q()
	u, err := sampling.NewVarOptItemsUnion[T](10)
	if err == nil {
		x.add(u.Update(s))
		r, err := u.Result()
		x.add(r, err)
	}
}

func varoptTarget[T comparable](k *kind[T]) *target {
	return &target{name: "sampling.VarOpt[" + k.name + "]",
		make: func(g *gen) []byte {
			b, err := varoptBytes(varoptOf(g, k), k)
			g.must(err)
			return b
		},
		decode: func(b []byte) (any, error) { return sampling.DecodeVarOptItemsSketch[T](b, k.serde) },
		use:    func(o any, x *sink) { useVaropt(o.(*sampling.VarOptItemsSketch[T]), k, x) },
		sum:    func(o any) string { return varoptSum(o.(*sampling.VarOptItemsSketch[T])) }}
}

func varoptSum[T comparable](s *sampling.VarOptItemsSketch[T]) string {
	var es []string
	for it := range s.All() {
		es = append(es, fmt.Sprint(it.Item, it.Weight))
	}
	return fmt.Sprint(s.K(), s.N(), s.H(), s.R(), es)
}

func varoptUnionTarget[T comparable](k *kind[T]) *target {
	enc := func(u *sampling.VarOptItemsUnion[T]) ([]byte, error) {
		var w bytes.Buffer
		e := sampling.NewVarOptItemsUnionEncoder[T](&w, k.serde)
		err := e.Encode(u)
		return w.Bytes(), err
	}
	return &target{name: "sampling.VarOptUnion[" + k.name + "]",
		make: func(g *gen) []byte {
			u, err := sampling.NewVarOptItemsUnion[T](uint(g.pick(1, 2, 10, 100)))
			g.must(err)
			for i, n := 0, g.p.Intn(4); i < n; i++ {
				g.must(u.Update(varoptOf(g, k)))
			}
			b, err := enc(u)
			g.must(err)
			return b
		},
		decode: func(b []byte) (any, error) { return sampling.DecodeVarOptItemsUnion[T](b, k.serde) },
		use: func(o any, x *sink) {
			u := o.(*sampling.VarOptItemsUnion[T])
			x.getters(u)
			r, err := u.Result()
			x.add(r, err)
			if err == nil && r != nil {
				useVaropt(r, k, x)
			}
			g := &gen{p: vk.NewPRNG(7)}
			s, err := sampling.NewVarOptItemsSketch[T](5)
			if err == nil {
				for i := 0; i < 9; i++ {
					x.add(s.Update(k.item(g), 1+float64(i)))
				}
				x.add(u.Update(s))
			}
			b, err := enc(u)
			x.add(b, err)
			r, err = u.Result()
			x.add(r, err)
		},
		sum: func(o any) string {
			b, err := enc(o.(*sampling.VarOptItemsUnion[T]))
			return fmt.Sprintf("%x %v", b, err)
		}}
}

var x02 = []*target{kllTarget(kLong), kllTarget(kDouble), kllTarget(kString), tdDecode, tdStream, freqTarget(kLong), freqTarget(kString), longs, longsText,
	countMin, bloom, reservoirTarget(kLong), reservoirTarget(kString), reservoirUnionTarget(kLong), reservoirUnionTarget(kString),
	varoptTarget(kLong), varoptTarget(kString), varoptUnionTarget(kLong), varoptUnionTarget(kString)}

var x02prefix = func() (r []*target) {
	for _, t := range x02 {
		if t != longsText {
			r = append(r, t)
		}
	}
	return
}()

func TestX02(t *testing.T) {
	vk.Property(t, "X02", "the bytes differ from every valid image that was written (fuzz, noise) or are a valid image that is attacked exhaustively (sweep, prefix)",
		vk.Sub{Name: "fuzz", Quick: 160000, Thorough: 3000000, Fn: fuzz(x02)},
		vk.Sub{Name: "sweep", Quick: 600, Thorough: 12000, Fn: sweep(x02)},
		vk.Sub{Name: "prefix", Quick: 1500, Thorough: 30000, Fn: prefix(x02prefix)},
		vk.Sub{Name: "noise", Quick: 40000, Thorough: 1000000, Fn: noise(x02)})
}

func choose[E any](a, b E) func(bool) E {
	return func(x bool) E {
		if x {
			return a
		}
		return b
	}
}

var errTypes = choose(frequencies.ErrorTypeEnum.NoFalseNegatives, frequencies.ErrorTypeEnum.NoFalsePositives)

func bitsOf(v float64) uint64 { return math.Float64bits(v) }
func bits32(v float64) uint32 { return math.Float32bits(float32(v)) }
