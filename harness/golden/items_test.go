package golden_test

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"slices"
	"strconv"
	"strings"

	"pgregory.net/rapid"

	"github.com/apache/datasketches-go/common"
	"github.com/apache/datasketches-go/filters"
	"github.com/apache/datasketches-go/frequencies"
	"github.com/apache/datasketches-go/sampling"

	"verif/vk"
)

// ---------------------------------------------------------------- frequent items

type fq[T comparable] struct {
	n               func() int64
	maxErr          func() int64
	lb, est, ub     func(T) (int64, error)
	update          func(T, int64) error
	merge           func(o *fq[T]) error
	rows            func(nfn bool) (map[T][3]int64, error)
	recode          func() (*fq[T], []byte, error)
	active, maxCapa func() int
	raw             any
}

func longsFq(s *frequencies.LongsSketch) *fq[int64] {
	return &fq[int64]{n: s.GetStreamLength, maxErr: s.GetMaximumError, lb: s.GetLowerBound, est: s.GetEstimate, ub: s.GetUpperBound, update: s.UpdateMany,
		active: s.GetNumActiveItems, maxCapa: s.GetMaximumMapCapacity, raw: s,
		merge: func(o *fq[int64]) error { _, err := s.Merge(o.raw.(*frequencies.LongsSketch)); return err },
		rows: func(nfn bool) (map[int64][3]int64, error) {
			e := frequencies.ErrorTypeEnum.NoFalsePositives
			if nfn {
				e = frequencies.ErrorTypeEnum.NoFalseNegatives
			}
			rs, err := s.GetFrequentItems(e)
			m := map[int64][3]int64{}
			for _, r := range rs {
				m[r.GetItem()] = [3]int64{r.GetLowerBound(), r.GetEstimate(), r.GetUpperBound()}
			}
			return m, err
		},
		recode: func() (*fq[int64], []byte, error) {
			b := s.ToSlice()
			r, err := frequencies.NewLongsSketchFromSlice(b)
			if err != nil {
				return nil, b, err
			}
			return longsFq(r), b, nil
		}}
}

func itemsFq[T comparable](s *frequencies.ItemsSketch[T], h common.ItemSketchHasher[T], d common.ItemSketchSerde[T]) *fq[T] {
	return &fq[T]{n: s.GetStreamLength, maxErr: s.GetMaximumError, lb: s.GetLowerBound, est: s.GetEstimate, ub: s.GetUpperBound, update: s.UpdateMany,
		active: s.GetNumActiveItems, maxCapa: s.GetMaximumMapCapacity, raw: s,
		merge: func(o *fq[T]) error { _, err := s.Merge(o.raw.(*frequencies.ItemsSketch[T])); return err },
		rows: func(nfn bool) (map[T][3]int64, error) {
			e := frequencies.ErrorTypeEnum.NoFalsePositives
			if nfn {
				e = frequencies.ErrorTypeEnum.NoFalseNegatives
			}
			rs, err := s.GetFrequentItems(e)
			m := map[T][3]int64{}
			for _, r := range rs {
				m[r.GetItem()] = [3]int64{r.GetLowerBound(), r.GetEstimate(), r.GetUpperBound()}
			}
			return m, err
		},
		recode: func() (*fq[T], []byte, error) {
			b, err := s.ToSlice()
			if err != nil {
				return nil, b, err
			}
			r, err := frequencies.NewFrequencyItemsSketchFromSlice[T](b, h, d)
			if err != nil {
				return nil, b, err
			}
			return itemsFq(r, h, d), b, nil
		}}
}

func gFreq(t *rapid.T, c *vk.Case) {
	f := pickImg(t, c, `frequent_(?:(?:long|string)_n(\d+)|string_utf8|string_ascii)`)
	if strings.HasPrefix(f.name, "frequent_long") {
		s, err := frequencies.NewLongsSketchFromSlice(f.data)
		must(t, f, err)
		o, err := frequencies.NewLongsSketch(vk.Int(t, "lgMax", 3, 8), 3)
		must(t, f, err)
		freqRun(t, c, f, longsFq(s), longsFq(o), func(i int) int64 { return int64(i) })
		return
	}
	s, err := frequencies.NewFrequencyItemsSketchFromSlice[string](f.data, common.ItemSketchStringHasher{}, common.ItemSketchStringSerDe{})
	must(t, f, err)
	o, err := frequencies.NewFrequencyItemsSketch[string](vk.Int(t, "lgMax", 3, 8), 3, common.ItemSketchStringHasher{}, common.ItemSketchStringSerDe{})
	must(t, f, err)
	freqRun(t, c, f, itemsFq(s, common.ItemSketchStringHasher{}, common.ItemSketchStringSerDe{}), itemsFq(o, common.ItemSketchStringHasher{}, common.ItemSketchStringSerDe{}), strconv.Itoa)
}

func freqRun[T comparable](t *rapid.T, c *vk.Case, f *img, s, o *fq[T], item func(int) T) {
	truth := map[T]int64{}
	n := int64(0)
	if f.m[1] != "" {
		for i := 1; i <= f.n; i++ {
			truth[item(i)]++
			n++
		}
	} else {
		words := []string{"абвгд", "еёжзи", "йклмн", "опрст", "уфхцч", "шщъыь", "эюя"}
		if f.name == "frequent_string_ascii" {
			words = nil
			for _, l := range "abcd" {
				words = append(words, strings.Repeat(string(l), 29))
			}
		}
		for i, w := range words {
			truth[any(w).(T)] = int64(i + 1)
			n += int64(i + 1)
		}
	}
	verify := func(s *fq[T], what string, truth map[T]int64, n int64, sample int) {
		if s.n() != n {
			t.Fatalf("%s%s: stream length %d, expected %d", f, what, s.n(), n)
		}
		e := s.maxErr()
		if e < 0 || e > 0 && len(truth) <= s.maxCapa() && len(what) == 0 {
			t.Fatalf("%s%s: maximum error %d with %d distinct items, capacity %d", f, what, e, len(truth), s.maxCapa())
		}
		check := func(x T, w int64) {
			lb, e1 := s.lb(x)
			es, e2 := s.est(x)
			ub, e3 := s.ub(x)
			if e1 != nil || e2 != nil || e3 != nil || lb > w || ub < w || ub-lb > e || es > ub || es < lb && lb > 0 {
				t.Fatalf("%s%s: item %v occurred %d times: bounds %d %d %d, maximum error %d", f, what, x, w, lb, es, ub, e)
			}
		}
		step := max(1, len(truth)/sample)
		i := 0
		for x, w := range truth {
			if i++; i%step == 0 {
				check(x, w)
			}
		}
		check(item(-77), 0)
		for _, nfn := range []bool{true, false} {
			rs, err := s.rows(nfn)
			must(t, f, err)
			for x, r := range rs {
				if w := truth[x]; r[0] > w || r[2] < w || !nfn && w < e {
					t.Fatalf("%s%s: reports %v with bounds %v, it occurred %d times (maximum error %d)", f, what, x, r, w, e)
				}
			}
			if nfn {
				for x, w := range truth {
					if _, ok := rs[x]; !ok && w > e {
						t.Fatalf("%s%s: %v occurred %d times but is not reported (maximum error %d)", f, what, x, w, e)
					}
				}
			}
		}
	}
	verify(s, "", truth, n, 3000)
	r, b, err := s.recode()
	must(t, f, err)
	verify(r, " re-encoded", truth, n, 500)
	if len(b) != len(f.data) || r.active() != s.active() || r.maxErr() != s.maxErr() {
		t.Fatalf("%s: re-encoded to %d bytes, %d items, maximum error %d; had %d bytes, %d items, maximum error %d", f, len(b), r.active(), r.maxErr(), len(f.data), s.active(), s.maxErr())
	}
	both := map[T]int64{}
	for x, w := range truth {
		both[x] = w
	}
	sp := drawSpan(t, "other", f.n, 500)
	sp.lo = max(0, sp.lo)
	w := int64(vk.Int(t, "w", 1, 30))
	op := vk.Int(t, "op", 0, 2)
	sp.each(func(i int) {
		wi := 1 + int64(i)%w
		both[item(i)] += wi
		n += wi
		if op == 0 {
			must(t, f, s.update(item(i), wi))
		} else {
			must(t, f, o.update(item(i), wi))
		}
	})
	switch op {
	case 1:
		must(t, f, s.merge(o))
	case 2:
		must(t, f, o.merge(s))
		s = o
	}
	verify(s, fmt.Sprintf(" with %s op %d", sp, op), both, n, 3000)
	c.NT(f.String(), sp, w, op)
	c.Sample("%s with %s op %d", f, sp, op)
}

// ---------------------------------------------------------------- bloom

var bloomNative memo[[]byte]

func gBloom(t *rapid.T, c *vk.Case) {
	f := pickImg(t, c, `bf_(?:(string|double|long_array|double_array|byte_array)_)?n(\d+)_h(\d)`)
	kind := f.m[1]
	n, _ := strconv.Atoi(f.m[2])
	h, _ := strconv.Atoi(f.m[3])
	if n > 10000 && vk.Int(t, "big", 0, 9) > 0 { // the large ones take a while
		f = images(t, `bf_()n(10000)_h(3)`)[0]
		kind, n, h = "", 10000, 3
	}
	d, err := filters.NewBloomFilterFromSlice(f.data)
	must(t, f, err)
	nat, err := filters.NewBloomFilterBySize(uint64(max(n, 1000)), uint16(h), filters.WithSeed(d.Seed()))
	must(t, f, err)
	put := func(b filters.BloomFilter, i int) error {
		switch kind {
		case "string":
			return b.UpdateString(strconv.Itoa(i))
		case "double":
			return b.UpdateFloat64(float64(i))
		case "long_array":
			return b.UpdateInt64Array([]int64{int64(i), int64(i)})
		case "double_array":
			return b.UpdateFloat64Array([]float64{float64(i), float64(i)})
		case "byte_array":
			x := byte(i % 256)
			return b.UpdateSlice([]byte{x, x, x, x})
		}
		return b.UpdateInt64(int64(i))
	}
	show := func(b filters.BloomFilter) string {
		x, err := b.ToCompactSlice()
		must(t, f, err)
		return fmt.Sprint(b.IsEmpty(), b.BitsUsed(), b.Capacity(), b.NumHashes(), b.Seed(), " ") + string(x)
	}
	natImage := bloomNative.get(f.String(), func() []byte {
		for i := 0; i < n/10; i++ {
			must(t, f, put(nat, i))
		}
		if kind == "" && n > 0 {
			must(t, f, nat.UpdateFloat64(math.NaN()))
		}
		x, err := nat.ToCompactSlice()
		must(t, f, err)
		return x
	})
	nat, err = filters.NewBloomFilterFromSlice(natImage)
	must(t, f, err)
	same(t, f, "content", show(d), show(nat))
	x, err := d.ToCompactSlice()
	must(t, f, err)
	if len(x) > 32 && len(f.data) > 32 && binary.LittleEndian.Uint64(f.data[24:]) == math.MaxUint64 { // Java may leave the number of bits to the reader
		clear(x[24:32])
		x = append(append(x[:24:24], f.data[24:32]...), x[32:]...)
	}
	if string(x) != string(f.data) {
		t.Fatalf("%s: re-encoded to %x...", f, x[:min(40, len(x))])
	}
	sp := drawSpan(t, "other", n/10, 1000)
	o, err := filters.NewBloomFilterBySize(uint64(max(n, 1000)), uint16(h), filters.WithSeed(d.Seed()))
	must(t, f, err)
	sp.each(func(i int) { must(t, f, put(o, i)) })
	op := vk.Int(t, "op", 0, 3)
	ops := func(b filters.BloomFilter) string {
		switch op {
		case 0:
			must(t, f, b.Union(o))
		case 1:
			must(t, f, b.Intersect(o))
		case 2:
			must(t, f, b.Invert())
		default:
			sp.each(func(i int) { must(t, f, put(b, i)) })
		}
		return show(b)
	}
	if !d.IsCompatible(o) {
		t.Fatalf("%s: not compatible with a filter of the same parameters", f)
	}
	same(t, f, "content after a set operation", ops(d), ops(nat))
	c.NT(f.String(), sp, op)
	c.Sample("%s with %s op %d", f, sp, op)
}

// ---------------------------------------------------------------- reservoir

func gReservoir(t *rapid.T, c *vk.Case) {
	f := pickImg(t, c, `reservoir_(longs|items_long|items_double|items_string|longs_union|items_union_long|items_union_double|items_union_string)_(empty|exact|sampling)(?:_n(\d+))?_(?:k|maxk)(\d+)`)
	switch {
	case strings.HasSuffix(f.m[1], "double"):
		resRun(t, c, f, common.ItemSketchDoubleSerDe{}, func(i int) float64 { return float64(i) }, func(v float64) int { return int(v) })
	case strings.HasSuffix(f.m[1], "string"):
		resRun(t, c, f, common.ItemSketchStringSerDe{}, func(i int) string { return "item" + strconv.Itoa(i) }, func(s string) int {
			i, err := strconv.Atoi(strings.TrimPrefix(s, "item"))
			if err != nil {
				return -1
			}
			return i
		})
	default:
		resRun(t, c, f, common.ItemSketchLongSerDe{}, func(i int) int64 { return int64(i) }, func(v int64) int { return int(v) })
	}
}

func resRun[T comparable](t *rapid.T, c *vk.Case, f *img, serde common.ItemSketchSerde[T], item func(int) T, num func(T) int) {
	n, _ := strconv.Atoi(f.m[3])
	k, _ := strconv.Atoi(f.m[4])
	union := strings.Contains(f.m[1], "union")
	const extra = 1000000 // items added here
	verify := func(s *sampling.ReservoirItemsSketch[T], what string, k, kmin, n, more int, total int64) {
		if s.K() > k || s.K() < kmin || s.N() != total {
			t.Fatalf("%s%s: k=%d n=%d, expected %d..%d and %d", f, what, s.K(), s.N(), kmin, k, total)
		}
		xs := s.Samples()
		if len(xs) != s.NumSamples() || int64(len(xs)) != min(total, int64(s.K())) {
			t.Fatalf("%s%s: %d (%d) samples, k=%d n=%d", f, what, len(xs), s.NumSamples(), s.K(), total)
		}
		seen := map[int]bool{}
		for _, x := range xs {
			i := num(x)
			if x != item(i) || seen[i] || i < 0 || i >= n && i < extra || i >= extra+more {
				t.Fatalf("%s%s: sample %v twice=%v, the stream had %d and %d items", f, what, x, seen[i], n, more)
			}
			seen[i] = true
		}
		b, err := s.ToSlice(serde)
		must(t, f, err)
		r, err := sampling.NewReservoirItemsSketchFromSlice[T](b, serde)
		must(t, f, err)
		if !slices.Equal(r.Samples(), xs) || r.N() != s.N() || r.K() != s.K() {
			t.Fatalf("%s%s: re-decoded k=%d n=%d %v, had k=%d n=%d %v", f, what, r.K(), r.N(), r.Samples(), s.K(), s.N(), xs)
		}
	}
	more := vk.Size(t, "more", 0, 400)
	k2 := vk.Int(t, "k", 2, 200)
	o, err := sampling.NewReservoirItemsSketch[T](k2)
	must(t, f, err)
	for i := 0; i < more; i++ {
		must(t, f, o.Update(item(extra+i)))
	}
	var s *sampling.ReservoirItemsSketch[T]
	span := n
	if union {
		u, err := sampling.NewReservoirItemsUnionFromSlice[T](f.data, serde)
		must(t, f, err)
		if u.MaxK() != k {
			t.Fatalf("%s: maxK=%d", f, u.MaxK())
		}
		s, err = u.Result()
		must(t, f, err)
		if n == 0 {
			if s != nil && s.N() != 0 {
				t.Fatalf("%s: result has n=%d", f, s.N())
			}
		} else {
			if f.lang == "java" && f.m[2] == "sampling" {
				span = 2 * n // these hold the even numbers
			}
			verify(s, "", k, k, span, 0, int64(n))
			if n <= k {
				b, err := u.ToSlice(serde)
				must(t, f, err)
				same(t, f, "re-encoding", fmt.Sprintf("%x", b), fmt.Sprintf("%x", f.data))
			}
		}
		must(t, f, u.UpdateSketch(o))
		r, err := u.Result()
		must(t, f, err)
		if n+more > 0 {
			verify(r, fmt.Sprintf(" united with %d of k=%d", more, k2), k, min(k, k2), span, more, int64(n+more))
		}
		c.NT(f.String(), more, k2)
		return
	}
	s, err = sampling.NewReservoirItemsSketchFromSlice[T](f.data, serde)
	must(t, f, err)
	b, err := s.ToSlice(serde)
	must(t, f, err)
	same(t, f, "re-encoding", fmt.Sprintf("%x", b), fmt.Sprintf("%x", f.data))
	verify(s, "", k, k, n, 0, int64(n))
	if n <= k && n > 0 {
		if xs := s.Samples(); func() bool {
			for i, x := range xs {
				if x != item(i) {
					return true
				}
			}
			return false
		}() {
			t.Fatalf("%s: samples %v are not the stream", f, xs)
		}
	}
	maxK := vk.Int(t, "maxK", 2, 200)
	u, err := sampling.NewReservoirItemsUnion[T](maxK)
	must(t, f, err)
	must(t, f, u.UpdateSketch(o))
	must(t, f, u.UpdateSketch(s))
	if n+more > 0 {
		r, err := u.Result()
		must(t, f, err)
		verify(r, fmt.Sprintf(" united with %d of k=%d at maxK %d", more, k2, maxK), maxK, min(maxK, k, k2), n, more, int64(n+more))
	}
	for i := 0; i < more; i++ {
		must(t, f, s.Update(item(extra+i)))
	}
	verify(s, fmt.Sprintf(" updated with %d", more), k, k, n, more, int64(n+more))
	c.NT(f.String(), more, k2, maxK)
	c.Sample("%s with %d more, k=%d maxK=%d", f, more, k2, maxK)
}

// ---------------------------------------------------------------- varopt

func gVaropt(t *rapid.T, c *vk.Case) {
	all := slices.Concat(images(t, `varopt_sketch_long_n(\d+)`), images(t, `varopt_sketch_long_sampling`), images(t, `varopt_sketch_string_exact`), images(t, `varopt_union_double_sampling`))
	f := all[vk.Int(t, "image", 0, len(all)-1)]
	c.Class(f.lang)
	switch {
	case strings.HasPrefix(f.name, "varopt_sketch_long_n"):
		varRun(t, c, f, common.ItemSketchLongSerDe{}, 32, f.n, float64(f.n), func(x int64) float64 {
			if x >= 1 && x <= int64(f.n) {
				return 1
			}
			return -1
		}, func(i int) int64 { return -int64(i) - 10 })
	case f.name == "varopt_sketch_long_sampling":
		varRun(t, c, f, common.ItemSketchLongSerDe{}, 1024, 2003, 332000, func(x int64) float64 {
			switch {
			case x >= 0 && x < 2000:
				return 1
			case x >= -3 && x <= -1:
				return 90000 + 10000*float64(-x)
			}
			return -1
		}, func(i int) int64 { return -int64(i) - 10 })
	case f.name == "varopt_sketch_string_exact":
		sum := 0.0
		for i := 1; i <= 200; i++ {
			sum += 1000 / float64(i)
		}
		varRun(t, c, f, common.ItemSketchStringSerDe{}, 1024, 200, sum, func(x string) float64 {
			if i, err := strconv.Atoi(x); err == nil && i >= 1 && i <= 200 {
				return 1000 / float64(i)
			}
			return -1
		}, func(i int) string { return fmt.Sprint("new", i) })
	default:
		if f.lang == "go" { // holds the second input only
			varRun(t, c, f, common.ItemSketchDoubleSerDe{}, 16, 64, 64, func(x float64) float64 {
				if x >= 0 && x <= 64 && x == math.Floor(x) {
					return 1
				}
				return -1
			}, func(i int) float64 { return -10 - float64(i) })
			return
		}
		varUnion(t, c, f)
	}
}

func near(a, b float64) bool { return math.Abs(a-b) <= 1e-9*(1+math.Abs(b)) }

// varVerify: weightOf gives the weight an item was offered with, or a negative number for foreign items.
func varVerify[T comparable](t *rapid.T, f *img, what string, s *sampling.VarOptItemsSketch[T], k, n int, total float64, weightOf func(T) float64) {
	if s.N() != int64(n) || s.NumSamples() > s.K() || s.K() > k || s.NumSamples() != min(n, s.K()) && s.K() == k && len(what) == 0 || s.IsEmpty() != (n == 0) {
		t.Fatalf("%s%s: k=%d n=%d samples=%d empty=%v, expected k=%d n=%d", f, what, s.K(), s.N(), s.NumSamples(), s.IsEmpty(), k, n)
	}
	sum, cnt := 0.0, 0
	seen := map[T]bool{}
	tau := 0.0
	for x := range s.All() {
		w := weightOf(x.Item)
		if w < 0 || seen[x.Item] || x.Weight < w*(1-1e-9) {
			t.Fatalf("%s%s: sample %v with weight %v, offered with %v (twice=%v)", f, what, x.Item, x.Weight, w, seen[x.Item])
		}
		if !near(x.Weight, w) {
			if tau != 0 && !near(tau, x.Weight) {
				t.Fatalf("%s%s: adjusted weights %v and %v", f, what, tau, x.Weight)
			}
			tau = x.Weight
		}
		seen[x.Item] = true
		sum += x.Weight
		cnt++
	}
	e, err := s.EstimateSubsetSum(func(T) bool { return true })
	must(t, f, err)
	if cnt != s.NumSamples() || !near(sum, total) || !near(e.Estimate, total) || !near(e.TotalSketchWeight, total) {
		t.Fatalf("%s%s: %d samples (%d), total weight %v, estimate %v of %v, expected %v", f, what, cnt, s.NumSamples(), sum, e.Estimate, e.TotalSketchWeight, total)
	}
}

func varEnc[T comparable](t *rapid.T, f *img, s *sampling.VarOptItemsSketch[T], serde common.ItemSketchSerde[T]) string {
	var w bytes.Buffer
	e := sampling.NewVarOptItemsSketchEncoder[T](&w, serde)
	must(t, f, e.Encode(s))
	return fmt.Sprintf("%x", w.Bytes())
}

func varRun[T comparable](t *rapid.T, c *vk.Case, f *img, serde common.ItemSketchSerde[T], k, n int, total float64, weightOf func(T) float64, fresh func(int) T) {
	s, err := sampling.DecodeVarOptItemsSketch[T](f.data, serde)
	must(t, f, err)
	if s.K() != k {
		t.Fatalf("%s: k=%d", f, s.K())
	}
	varVerify(t, f, "", s, k, n, total, weightOf)
	if n > 0 {
		got, want := varEnc(t, f, s, serde), fmt.Sprintf("%x", f.data)
		same(t, f, "re-encoding", got[2:], want[2:]) // the resize factor is a local matter
	}
	more := vk.Size(t, "more", 0, 300)
	pw := vk.Int(t, "pw", 0, 3)
	w := func(i int) float64 { return math.Pow(1+float64(i*7919%97), float64(pw)) }
	k2 := vk.Int(t, "k", 1, 200)
	o, err := sampling.NewVarOptItemsSketch[T](uint(k2))
	must(t, f, err)
	new := map[T]float64{}
	sum := 0.0
	for i := 0; i < more; i++ {
		new[fresh(i)] = w(i)
		sum += w(i)
		must(t, f, o.Update(fresh(i), w(i)))
	}
	both := func(x T) float64 {
		if w, ok := new[x]; ok {
			return w
		}
		return weightOf(x)
	}
	maxK := vk.Int(t, "maxK", 1, 200)
	u, err := sampling.NewVarOptItemsUnion[T](uint(maxK))
	must(t, f, err)
	must(t, f, u.Update(s))
	must(t, f, u.Update(o))
	r, err := u.Result()
	must(t, f, err)
	varVerify(t, f, fmt.Sprintf(" united with %d of k=%d at maxK %d", more, k2, maxK), r, maxK, n+more, total+sum, both)
	for i := 0; i < more; i++ {
		must(t, f, s.Update(fresh(i), w(i)))
	}
	varVerify(t, f, fmt.Sprintf(" updated with %d", more), s, k, n+more, total+sum, both)
	c.NT(f.String(), more, pw, k2, maxK)
	c.Sample("%s with %d more, k=%d maxK=%d", f, more, k2, maxK)
}

func varUnion(t *rapid.T, c *vk.Case, f *img) {
	u, err := sampling.DecodeVarOptItemsUnion[float64](f.data, common.ItemSketchDoubleSerDe{})
	must(t, f, err)
	r, err := u.Result()
	must(t, f, err)
	verify := func(what string, r *sampling.VarOptItemsSketch[float64], n int, sum float64, more int) {
		if r.N() != int64(n) || r.NumSamples() > r.K() {
			t.Fatalf("%s%s: n=%d k=%d samples=%d, expected n=%d", f, what, r.N(), r.K(), r.NumSamples(), n)
		}
		tot, heavy := 0.0, 0.0
		for x := range r.All() {
			tot += x.Weight
			if x.Item < 0 {
				heavy = x.Weight
			}
			if x.Item > 1100 || x.Item > 64 && x.Item < 1000 || x.Item >= float64(1000+more) {
				t.Fatalf("%s%s: sample %v", f, what, x.Item)
			}
		}
		if !near(tot, sum) || !near(heavy, 1024) {
			t.Fatalf("%s%s: total weight %v heavy %v, expected %v and 1024", f, what, tot, heavy, sum)
		}
	}
	verify("", r, 97, 1120, 0)
	var w bytes.Buffer
	e := sampling.NewVarOptItemsUnionEncoder[float64](&w, common.ItemSketchDoubleSerDe{})
	must(t, f, e.Encode(u))
	same(t, f, "re-encoding", fmt.Sprintf("%x", w.Bytes()), fmt.Sprintf("%x", f.data))
	more := vk.Int(t, "more", 0, 100)
	o, err := sampling.NewVarOptItemsSketch[float64](uint(vk.Int(t, "k", 1, 200)))
	must(t, f, err)
	for i := 0; i < more; i++ {
		must(t, f, o.Update(1000+float64(i), 1))
	}
	must(t, f, u.Update(o))
	r, err = u.Result()
	must(t, f, err)
	verify(fmt.Sprintf(" with %d more", more), r, 97+more, 1120+float64(more), more)
	c.NT(f.String(), more)
}
