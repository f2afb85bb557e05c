package cross_test

import (
	"fmt"
	"math"
	"math/bits"

	"github.com/apache/datasketches-go/common"
	"github.com/apache/datasketches-go/count"
	"github.com/apache/datasketches-go/cpc"
	"github.com/apache/datasketches-go/filters"
	"github.com/apache/datasketches-go/frequencies"
	"github.com/apache/datasketches-go/hll"
	"github.com/apache/datasketches-go/kll"
	"github.com/apache/datasketches-go/req"
	"github.com/apache/datasketches-go/sampling"
	"github.com/apache/datasketches-go/tdigest"
	"github.com/apache/datasketches-go/theta"
	"github.com/apache/datasketches-go/tuple"
	"pgregory.net/rapid"

	"verif/vk"
)

// made is what one constructor call came to.
type made struct {
	args  string
	legal bool // the arguments lie in the documented range
	err   error
	got   string // the configuration the new object reports
	want  string // the configuration asked for
	use   func() // the first steps of its life
}

type ctor struct {
	name string
	f    func(t *rapid.T, p *vk.PRNG) made
}

// near draws an integer at, next to or far from the ends of [lo, hi], or inside it.
func near(p *vk.PRNG, lo, hi, min, max int64) int64 {
	v := int64(0)
	switch p.Intn(8) {
	case 0:
		v = lo
	case 1:
		v = hi
	case 2:
		v = lo - 1
	case 3:
		v = hi + 1
	case 4:
		v = lo - 1 - int64(p.Intn(1000))
	case 5:
		v = hi + 1 + int64(p.Intn(1000))
	case 6:
		v = pick(p, min, max, 0, -1)
	default:
		v = lo + int64(p.U64()%uint64(hi-lo+1))
	}
	if v < min {
		return min
	}
	if v > max {
		return max
	}
	return v
}

func in(v, lo, hi int64) bool { return lo <= v && v <= hi }

func prob(p *vk.PRNG) (float32, bool) {
	switch p.Intn(10) {
	case 0:
		return 0, false
	case 1:
		return -math.SmallestNonzeroFloat32, false
	case 2:
		return math.Nextafter32(1, 2), false
	case 3:
		return pick(p, float32(math.Inf(1)), float32(math.Inf(-1)), -1, 2), false
	case 4:
		return float32(math.NaN()), false
	case 5:
		return math.SmallestNonzeroFloat32, true
	case 6:
		return math.Nextafter32(1, 0), true
	case 7:
		return float32(p.F64()*0.999) + 1e-6, true
	}
	return 1, true
}

// lgKP draws the options common to theta and tuple; a large table is never allocated at once.
func lgKP(p *vk.PRNG) (lg uint8, pr float32, rf theta.ResizeFactor, seed uint64, legal bool) {
	lg = uint8(near(p, 5, 26, 0, 255))
	pr, legal = prob(p)
	legal = legal && in(int64(lg), 5, 26)
	rf = pick(p, theta.ResizeX2, theta.ResizeX4, theta.ResizeX8)
	if lg < 16 {
		rf = pick(p, rf, theta.ResizeX1)
	}
	return lg, pr, rf, pick(p, uint64(9001), 1, 123456789), legal
}

var ctors = []ctor{
	{"theta sketch", func(t *rapid.T, p *vk.PRNG) made {
		lg, pr, rf, seed, legal := lgKP(p)
		s, err := theta.NewQuickSelectUpdateSketch(theta.WithUpdateSketchLgK(lg), theta.WithUpdateSketchP(pr), theta.WithUpdateSketchResizeFactor(rf), theta.WithUpdateSketchSeed(seed))
		m := made{args: fmt.Sprint(lg, " ", pr, " ", rf, " ", seed), legal: legal, err: err}
		if err == nil {
			m.got, m.want = fmt.Sprint(s.LgK(), s.ResizeFactor(), s.IsEmpty(), s.NumRetained()), fmt.Sprint(lg, rf, true, 0)
			m.use = func() {
				for i := 0; i < 100; i++ {
					s.UpdateInt64(int64(i))
				}
				s.Compact(true)
			}
		}
		return m
	}},
	{"theta union", func(t *rapid.T, p *vk.PRNG) made {
		lg, pr, rf, seed, legal := lgKP(p)
		u, err := theta.NewUnion(theta.WithUnionLgK(lg), theta.WithUnionSketchP(pr), theta.WithUnionResizeFactor(rf), theta.WithUnionSeed(seed))
		m := made{args: fmt.Sprint(lg, " ", pr, " ", rf, " ", seed), legal: legal, err: err}
		if err == nil {
			m.use = func() { must2(u.Result(true)) }
		}
		return m
	}},
	{"tuple sketch", func(t *rapid.T, p *vk.PRNG) made {
		lg, pr, rf, seed, legal := lgKP(p)
		s, err := tuple.NewUpdateSketch[*tr, int64](newTr, tuple.WithUpdateSketchLgK(lg), tuple.WithUpdateSketchP(pr), tuple.WithUpdateSketchResizeFactor(rf), tuple.WithUpdateSketchSeed(seed))
		m := made{args: fmt.Sprint(lg, " ", pr, " ", rf, " ", seed), legal: legal, err: err}
		if err == nil {
			m.got, m.want = fmt.Sprint(s.LgK(), s.ResizeFactor(), s.IsEmpty(), s.NumRetained()), fmt.Sprint(lg, rf, true, 0)
			m.use = func() {
				for i := 0; i < 100; i++ {
					s.UpdateInt64(int64(i), 1)
				}
				must2(s.Compact(true))
			}
		}
		return m
	}},
	{"tuple union", func(t *rapid.T, p *vk.PRNG) made {
		lg, pr, rf, seed, legal := lgKP(p)
		u, err := tuple.NewUnion[*tr](trPolicy{}, tuple.WithUnionLgK(lg), tuple.WithUnionSketchP(pr), tuple.WithUnionResizeFactor(rf), tuple.WithUnionSeed(seed))
		m := made{args: fmt.Sprint(lg, " ", pr, " ", rf, " ", seed), legal: legal, err: err}
		if err == nil {
			m.use = func() { must2(u.Result(true)) }
		}
		return m
	}},
	{"array-of-numbers sketch", func(t *rapid.T, p *vk.PRNG) made {
		lg, pr, rf, seed, legal := lgKP(p)
		n := uint8(1 + p.Intn(5))
		s, err := tuple.NewArrayOfNumbersUpdateSketch[int64](n, tuple.WithUpdateSketchLgK(lg), tuple.WithUpdateSketchP(pr), tuple.WithUpdateSketchResizeFactor(rf), tuple.WithUpdateSketchSeed(seed))
		m := made{args: fmt.Sprint(n, " ", lg, " ", pr, " ", rf, " ", seed), legal: legal, err: err}
		if err == nil {
			m.got, m.want = fmt.Sprint(s.LgK(), s.ResizeFactor(), s.IsEmpty(), s.NumRetained(), s.NumValuesInSummary()), fmt.Sprint(lg, rf, true, 0, n)
			m.use = func() {
				for i := 0; i < 100; i++ {
					s.UpdateInt64(int64(i), make([]int64, n))
				}
				must2(s.Compact(true))
			}
		}
		return m
	}},
	{"array-of-numbers union", func(t *rapid.T, p *vk.PRNG) made {
		lg, pr, rf, seed, legal := lgKP(p)
		n := uint8(1 + p.Intn(5))
		u, err := tuple.NewArrayOfNumbersSketchUnion[int64](aonPolicy{}, n, tuple.WithUnionLgK(lg), tuple.WithUnionSketchP(pr), tuple.WithUnionResizeFactor(rf), tuple.WithUnionSeed(seed))
		m := made{args: fmt.Sprint(n, " ", lg, " ", pr, " ", rf, " ", seed), legal: legal, err: err}
		if err == nil {
			m.use = func() { must2(u.Result(true)) }
		}
		return m
	}},
	{"hll sketch", func(t *rapid.T, p *vk.PRNG) made {
		lg := int(near(p, 4, 21, math.MinInt32, math.MaxInt32))
		ty := pick(p, hll.TgtHllTypeHll4, hll.TgtHllTypeHll6, hll.TgtHllTypeHll8)
		s, err := hll.NewHllSketch(lg, ty)
		m := made{args: fmt.Sprint(lg, ty), legal: in(int64(lg), 4, 21), err: err}
		if err == nil {
			m.got, m.want = fmt.Sprint(s.GetLgConfigK(), s.GetTgtHllType(), s.IsEmpty()), fmt.Sprint(lg, ty, true)
			m.use = func() {
				for i := 0; i < 60; i++ {
					mustNil(s.UpdateInt64(int64(i)))
				}
				must2(s.ToCompactSlice())
			}
		}
		return m
	}},
	{"hll union", func(t *rapid.T, p *vk.PRNG) made {
		lg := int(near(p, 4, 21, math.MinInt32, math.MaxInt32))
		u, err := hll.NewUnion(lg)
		m := made{args: fmt.Sprint(lg), legal: in(int64(lg), 4, 21), err: err}
		if err == nil {
			m.got, m.want = fmt.Sprint(u.IsEmpty()), "true"
			m.use = func() {
				mustNil(u.UpdateInt64(7))
				must2(u.GetResult(hll.TgtHllTypeHll4))
			}
		}
		return m
	}},
	{"cpc sketch", func(t *rapid.T, p *vk.PRNG) made {
		lg := int(near(p, 4, 26, math.MinInt32, math.MaxInt32))
		s, err := cpc.NewCpcSketch(lg, 9001)
		m := made{args: fmt.Sprint(lg), legal: in(int64(lg), 4, 26), err: err}
		if err == nil {
			m.use = func() {
				for i := 0; i < 30; i++ {
					mustNil(s.UpdateInt64(int64(i)))
				}
				must2(s.ToCompactSlice())
			}
		}
		return m
	}},
	{"cpc union", func(t *rapid.T, p *vk.PRNG) made {
		lg := int(near(p, 4, 26, math.MinInt32, math.MaxInt32))
		u, err := cpc.NewCpcUnionSketch(lg, 9001)
		m := made{args: fmt.Sprint(lg), legal: in(int64(lg), 4, 26), err: err}
		if err == nil {
			m.use = func() { must2(u.GetResult()) }
		}
		return m
	}},
	{"kll sketch", func(t *rapid.T, p *vk.PRNG) made {
		k := uint16(near(p, 8, 65535, 0, 65535))
		cmp := common.ItemSketchLongComparator(false)
		nilCmp := p.Intn(10) == 0
		if nilCmp {
			cmp = nil
		}
		s, err := kll.NewKllItemsSketch[int64](k, 8, cmp, common.ItemSketchLongSerDe{})
		m := made{args: fmt.Sprint(k, nilCmp), legal: k >= 8 && !nilCmp, err: err}
		if err == nil {
			m.got, m.want = fmt.Sprint(s.GetK(), s.IsEmpty(), s.GetN()), fmt.Sprint(k, true, 0)
			m.use = func() {
				for i := 0; i < 100; i++ {
					s.Update(int64(i))
				}
				must2(s.GetQuantile(0.5, true))
			}
		}
		return m
	}},
	{"req sketch", func(t *rapid.T, p *vk.PRNG) made {
		k := int(near(p, 4, 1024, math.MinInt32, math.MaxInt32))
		h := p.Intn(2) == 0
		s, err := req.NewSketch(req.WithK(k), req.WithHighRankAccuracyMode(h))
		m := made{args: fmt.Sprint(k, h), legal: k%2 == 0 && in(int64(k), 4, 1024), err: err}
		if err == nil {
			m.got, m.want = fmt.Sprint(s.K(), s.IsHighRankAccuracyMode(), s.IsEmpty()), fmt.Sprint(k, h, true)
			m.use = func() {
				for i := 0; i < 100; i++ {
					mustNil(s.Update(float32(i)))
				}
				must2(s.Quantile(0.5))
			}
		}
		return m
	}},
	{"t-digest", func(t *rapid.T, p *vk.PRNG) made {
		k := uint16(near(p, 10, 65535, 0, 65535))
		s, err := tdigest.NewDouble(k)
		m := made{args: fmt.Sprint(k), legal: k >= 10, err: err}
		if err == nil {
			m.got, m.want = fmt.Sprint(s.K(), s.IsEmpty()), fmt.Sprint(k, true)
			m.use = func() {
				for i := 0; i < 100; i++ {
					mustNil(s.Update(float64(i)))
				}
				must2(s.Quantile(0.5))
			}
		}
		return m
	}},
	{"frequent longs by map size", func(t *rapid.T, p *vk.PRNG) made {
		n := mapSize(p)
		s, err := frequencies.NewLongsSketchWithMaxMapSize(n)
		m := made{args: fmt.Sprint(n), legal: n > 0 && bits.OnesCount(uint(n)) == 1, err: err}
		if err == nil {
			m.got, m.want = fmt.Sprint(s.GetMaximumMapCapacity(), s.IsEmpty()), fmt.Sprint(max(n, 8)*3/4, true)
			m.use = func() {
				for i := int64(0); i < 100; i++ {
					mustNil(s.Update(i))
				}
			}
		}
		return m
	}},
	{"frequent items by map size", func(t *rapid.T, p *vk.PRNG) made {
		n := mapSize(p)
		s, err := frequencies.NewFrequencyItemsSketchWithMaxMapSize[string](n, common.ItemSketchStringHasher{}, common.ItemSketchStringSerDe{})
		m := made{args: fmt.Sprint(n), legal: n > 0 && bits.OnesCount(uint(n)) == 1, err: err}
		if err == nil {
			m.got, m.want = fmt.Sprint(s.GetMaximumMapCapacity(), s.IsEmpty()), fmt.Sprint(max(n, 8)*3/4, true)
			m.use = func() {
				for i := 0; i < 100; i++ {
					mustNil(s.Update(fmt.Sprint(i)))
				}
			}
		}
		return m
	}},
	{"count-min", func(t *rapid.T, p *vk.PRNG) made {
		h := int8(near(p, 1, 127, -128, 127))
		b := int32(near(p, 3, 100, math.MinInt32, math.MaxInt32))
		if p.Intn(4) == 0 && h > 0 { // around the limit of 2^30 counters, without ever allocating that many
			b = int32(min(math.MaxInt32, int64(1<<30)/int64(h)+1+int64(p.Intn(3))))
		}
		s, err := count.NewCountMinSketch(h, b, 9001)
		m := made{args: fmt.Sprint(h, " ", b), legal: h >= 1 && b >= 3 && int64(h)*int64(b) < 1<<30, err: err}
		if err == nil {
			m.got, m.want = fmt.Sprint(s.GetNumHashes(), s.GetNumBuckets(), s.GetSeed(), s.GetTotalWeight()), fmt.Sprint(h, b, 9001, 0)
			m.use = func() { mustNil(s.UpdateUint64(1, 5)) }
		}
		return m
	}},
	{"count-min suggestions", func(t *rapid.T, p *vk.PRNG) made {
		if p.Intn(2) == 0 {
			e := pick(p, 0, -0.1, math.NaN(), math.Inf(-1), -math.SmallestNonzeroFloat64, 0.01, 1, p.F64()+1e-6, 2.5)
			_, err := count.SuggestNumBuckets(e)
			return made{args: fmt.Sprint("buckets ", e), legal: e > 0, err: err}
		}
		c := pick(p, -0.1, 1.1, math.NaN(), math.Inf(1), math.Nextafter(1, 2), -math.SmallestNonzeroFloat64, 0, 1, 0.99, p.F64())
		_, err := count.SuggestNumHashes(c)
		return made{args: fmt.Sprint("hashes ", c), legal: c >= 0 && c <= 1, err: err}
	}},
	{"bloom by size", func(t *rapid.T, p *vk.PRNG) made {
		const top = (math.MaxInt32 - 4) * 64
		b := uint64(1 + p.Intn(5000))
		switch p.Intn(5) {
		case 0:
			b = 0
		case 1:
			b = pick(p, uint64(top+1), top+64, math.MaxUint64, 1<<63)
		}
		h := uint16(near(p, 1, 65535, 0, 65535))
		s, err := filters.NewBloomFilterBySize(b, h, filters.WithSeed(3))
		m := made{args: fmt.Sprint(b, " ", h), legal: b > 0 && b <= top && h > 0, err: err}
		if err == nil {
			m.got, m.want = fmt.Sprint(s.Capacity(), s.NumHashes(), s.Seed(), s.IsEmpty()), fmt.Sprint((b+63)/64*64, h, 3, true)
			m.use = func() { mustNil(s.UpdateInt64(1)) }
		}
		return m
	}},
	{"bloom by accuracy", func(t *rapid.T, p *vk.PRNG) made {
		n := uint64(1 + p.Intn(2000))
		switch p.Intn(6) {
		case 0:
			n = 0
		case 1:
			n = pick(p, uint64(1)<<62, math.MaxUint64, 1<<50)
		}
		f := pick(p, p.F64()*0.9+0.01, 0.01, 1e-9, 0, 1, -0.5, 1.5, math.NaN(), math.Inf(1), math.Inf(-1), math.Nextafter(1, 0))
		legal := n > 0 && n < 1<<40 && f > 0 && f < 1
		if n >= 1<<40 && f > 0.99 && f < 1 {
			n = 5
			legal = true
		}
		s, err := filters.NewBloomFilterByAccuracy(n, f, filters.WithSeed(3))
		m := made{args: fmt.Sprint(n, " ", f), legal: legal, err: err}
		if err == nil {
			m.use = func() { mustNil(s.UpdateInt64(1)) }
		}
		return m
	}},
	{"reservoir", func(t *rapid.T, p *vk.PRNG) made {
		k := int(near(p, 2, math.MaxInt32-1, math.MinInt32, math.MaxInt32-1))
		s, err := sampling.NewReservoirItemsSketch[int64](k, sampling.WithReservoirItemsSketchResizeFactor(growing(p)))
		m := made{args: fmt.Sprint(k), legal: k >= 2, err: err}
		if err == nil {
			m.got, m.want = fmt.Sprint(s.K(), s.N()), fmt.Sprint(k, 0)
			m.use = func() {
				for i := int64(0); i < 100; i++ {
					mustNil(s.Update(i))
				}
				must2(s.ToSlice(longSerde))
			}
		}
		return m
	}},
	{"reservoir union", func(t *rapid.T, p *vk.PRNG) made {
		k := int(near(p, 2, math.MaxInt32-1, math.MinInt32, math.MaxInt32-1))
		u, err := sampling.NewReservoirItemsUnion[int64](k)
		m := made{args: fmt.Sprint(k), legal: k >= 2, err: err}
		if err == nil {
			m.got, m.want = fmt.Sprint(u.MaxK()), fmt.Sprint(k)
			m.use = func() {
				for i := int64(0); i < 100; i++ {
					mustNil(u.Update(i))
				}
				must2(u.Result())
			}
		}
		return m
	}},
	{"varopt", func(t *rapid.T, p *vk.PRNG) made {
		k := voK(p)
		s, err := sampling.NewVarOptItemsSketch[int64](k, sampling.WithResizeFactor(growing(p)))
		m := made{args: fmt.Sprint(k), legal: k >= 1 && k <= math.MaxInt32-1, err: err}
		if err == nil {
			m.got, m.want = fmt.Sprint(s.K(), s.N()), fmt.Sprint(k, 0)
			m.use = func() {
				for i := int64(0); i < 100; i++ {
					mustNil(s.Update(i, 1))
				}
				voImage(s)
			}
		}
		return m
	}},
	{"varopt union", func(t *rapid.T, p *vk.PRNG) made {
		k := voK(p)
		u, err := sampling.NewVarOptItemsUnion[int64](k)
		m := made{args: fmt.Sprint(k), legal: k >= 1 && k <= math.MaxInt32-1, err: err}
		if err == nil {
			m.use = func() { must2(u.Result()) }
		}
		return m
	}},
}

// growing is a resize factor that starts with a small array.
func growing(p *vk.PRNG) sampling.ResizeFactor {
	return pick(p, sampling.ResizeX2, sampling.ResizeX4, sampling.ResizeX8)
}

func voK(p *vk.PRNG) uint {
	if p.Intn(6) == 0 {
		return pick(p, uint(math.MaxUint64), 1<<63, 1<<32, 1<<32+5)
	}
	return uint(near(p, 1, math.MaxInt32-1, 0, math.MaxUint32))
}

func mapSize(p *vk.PRNG) int {
	switch p.Intn(4) {
	case 0:
		return 1 << p.Intn(20)
	case 1:
		return 1<<p.Intn(20) + 1
	case 2:
		return pick(p, 0, -1, -8, math.MinInt64, math.MaxInt64)
	}
	return p.Intn(5000)
}

// eConstruct: a constructor accepts exactly the documented parameters, and the object has those.
func eConstruct(t *rapid.T, c *vk.Case) {
	k := ctors[vk.Int(t, "constructor", 0, len(ctors)-1)]
	s := u64(t, "s")
	m := k.f(t, vk.NewPRNG(s))
	if m.legal && m.err != nil {
		t.Fatalf("%s refused %s: %v", k.name, m.args, m.err)
	}
	if !m.legal && m.err == nil {
		t.Fatalf("%s accepted %s, which is outside the documented range", k.name, m.args)
	}
	if m.got != m.want {
		t.Fatalf("%s made from %s reports %s, want %s", k.name, m.args, m.got, m.want)
	}
	if m.use != nil {
		m.use()
	}
	c.Class("constructor " + map[bool]string{true: "accepts", false: "refuses"}[m.legal])
	c.NT(k.name, m.args)
	if c.WantSample() {
		c.Sample("%s %s legal=%v", k.name, m.args, m.legal)
	}
}
