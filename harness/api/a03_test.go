package api

import (
	"bytes"
	"fmt"
	"iter"
	"math"
	"math/rand"
	"reflect"
	"slices"
	"testing"

	"github.com/apache/datasketches-go/common"
	"github.com/apache/datasketches-go/cpc"
	"github.com/apache/datasketches-go/filters"
	"github.com/apache/datasketches-go/frequencies"
	"github.com/apache/datasketches-go/hll"
	"github.com/apache/datasketches-go/kll"
	"github.com/apache/datasketches-go/sampling"
	"github.com/apache/datasketches-go/theta"
	"github.com/apache/datasketches-go/tuple"
	"pgregory.net/rapid"

	"verif/ref"
	"verif/tgen"
	"verif/vk"
)

func must[T any](x T, err error) func(*rapid.T, string) T {
	return func(t *rapid.T, what string) T {
		if err != nil {
			t.Fatalf("%s: %v", what, err)
		}
		return x
	}
}

// a03Defaults: each "with default" form against the general form with the documented parameters, over the same stream.
func a03Defaults(t *rapid.T, c *vk.Case) {
	n := vk.Size(t, "n", 0, 3000)
	stream := rapid.Uint64().Draw(t, "stream")
	other := vk.Size(t, "other", 0, 500)
	lgK := vk.Int(t, "lgk", 4, 12)
	item := func(i int) int64 { return int64(vk.Mix(stream + uint64(i))) }
	img := func(b []byte, err error) []byte { return must(b, err)(t, "image") }

	// cpc
	a := must(cpc.NewCpcSketchWithDefault(lgK))(t, "cpc")
	b := must(cpc.NewCpcSketch(lgK, 9001))(t, "cpc")
	for i := 0; i < n; i++ {
		if a.UpdateInt64(item(i)) != nil || b.UpdateInt64(item(i)) != nil {
			t.Fatalf("cpc update")
		}
	}
	ia, ib := img(a.ToCompactSlice()), img(b.ToCompactSlice())
	if !bytes.Equal(ia, ib) {
		t.Fatalf("NewCpcSketchWithDefault(%d) is not NewCpcSketch(%d, 9001): images %x / %x", lgK, lgK, ia, ib)
	}
	back := must(cpc.NewCpcSketchFromSliceWithDefault(ib))(t, "cpc from slice")
	if x := img(back.ToCompactSlice()); !bytes.Equal(x, ib) || back.GetEstimate() != b.GetEstimate() {
		t.Fatalf("NewCpcSketchFromSliceWithDefault: image %x, want %x", x, ib)
	}
	foreign := must(cpc.NewCpcSketch(lgK, 9002))(t, "cpc")
	foreign.UpdateInt64(1)
	if _, err := cpc.NewCpcSketchFromSliceWithDefault(img(foreign.ToCompactSlice())); err == nil {
		t.Fatalf("NewCpcSketchFromSliceWithDefault accepts a sketch of seed 9002")
	}
	ud := must(cpc.NewCpcUnionSketchWithDefault(lgK))(t, "cpc union")
	ug := must(cpc.NewCpcUnionSketch(lgK, 9001))(t, "cpc union")
	if err := ud.Update(a); err != nil {
		t.Fatalf("default cpc union refuses a default sketch: %v", err)
	}
	ug.Update(b)
	ra, rb := must(ud.GetResult())(t, "result"), must(ug.GetResult())(t, "result")
	if x, y := img(ra.ToCompactSlice()), img(rb.ToCompactSlice()); !bytes.Equal(x, y) {
		t.Fatalf("NewCpcUnionSketchWithDefault result %x, want %x", x, y)
	}

	// hll
	ha := must(hll.NewHllSketchWithDefault())(t, "hll")
	hb := must(hll.NewHllSketch(12, hll.TgtHllTypeHll4))(t, "hll")
	hu := must(hll.NewUnionWithDefault())(t, "hll union")
	hv := must(hll.NewUnion(12))(t, "hll union")
	for i := 0; i < n; i++ {
		ha.UpdateInt64(item(i))
		hb.UpdateInt64(item(i))
	}
	if x, y := img(ha.ToCompactSlice()), img(hb.ToCompactSlice()); !bytes.Equal(x, y) {
		t.Fatalf("NewHllSketchWithDefault image %x, NewHllSketch(12, HLL4) %x", x, y)
	}
	hu.UpdateSketch(ha)
	hv.UpdateSketch(hb)
	for i := 0; i < other; i++ {
		hu.UpdateInt64(item(-1 - i))
		hv.UpdateInt64(item(-1 - i))
	}
	if x, y := img(hu.ToCompactSlice()), img(hv.ToCompactSlice()); !bytes.Equal(x, y) {
		t.Fatalf("NewUnionWithDefault image differs from NewUnion(12)")
	}

	// kll: k = 200, and the same compactions under the same randomness
	ks := must(kll.NewKllItemsSketchWithDefault[int64](common.ItemSketchLongComparator(false), common.ItemSketchLongSerDe{}))(t, "kll")
	kg := must(kll.NewKllItemsSketch[int64](200, 8, common.ItemSketchLongComparator(false), common.ItemSketchLongSerDe{}))(t, "kll")
	for _, s := range []*kll.ItemsSketch[int64]{ks, kg} {
		rand.Seed(int64(stream >> 1))
		for i := 0; i < n; i++ {
			s.Update(item(i))
		}
	}
	if x, y := img(ks.ToSlice()), img(kg.ToSlice()); !bytes.Equal(x, y) || ks.GetK() != 200 {
		t.Fatalf("default kll: k %d, %d bytes; explicit (200, 8): %d bytes", ks.GetK(), len(x), len(y))
	}

	// bloom
	if vk.Chance(t, "bloom", 1, 4) {
		f := must(filters.NewBloomFilterWithDefault())(t, "bloom")
		g := must(filters.NewBloomFilterByAccuracy(10000, 0.01))(t, "bloom")
		if f.Capacity() != g.Capacity() || f.NumHashes() != g.NumHashes() {
			t.Fatalf("default filter %d bits %d hashes, ByAccuracy(10000, .01) %d %d", f.Capacity(), f.NumHashes(), g.Capacity(), g.NumHashes())
		}
		for i := 0; i < n; i++ {
			f.UpdateInt64(item(i))
		}
		for i := 0; i < n; i++ {
			if !f.QueryInt64(item(i)) {
				t.Fatalf("default filter forgot item %d", i)
			}
		}
	}
	// theta, tuple: 12, X8, p 1, seed 9001
	ta := must(theta.NewQuickSelectUpdateSketch())(t, "theta")
	tb := must(theta.NewQuickSelectUpdateSketch(theta.WithUpdateSketchLgK(12), theta.WithUpdateSketchResizeFactor(theta.ResizeX8),
		theta.WithUpdateSketchP(1), theta.WithUpdateSketchSeed(9001)))(t, "theta")
	ua := must(theta.NewUnion())(t, "union")
	ub := must(theta.NewUnion(theta.WithUnionLgK(12), theta.WithUnionSeed(9001), theta.WithUnionSketchP(1)))(t, "union")
	reps := 1
	if vk.Chance(t, "est", 1, 8) {
		reps = 5
	}
	for i := 0; i < n*reps; i++ {
		ta.UpdateInt64(item(i))
		tb.UpdateInt64(item(i))
	}
	if ta.LgK() != 12 || !tgen.Snap(ta.Compact(true)).Equal(tgen.Snap(tb.Compact(true))) {
		t.Fatalf("default theta sketch %v, explicit %v", tgen.Snap(ta), tgen.Snap(tb))
	}
	if err := ua.Update(ta); err != nil {
		t.Fatalf("default union: %v", err)
	}
	ub.Update(tb)
	if x, y := must(ua.OrderedResult())(t, "r"), must(ub.Result(true))(t, "r"); !tgen.Snap(x).Equal(tgen.Snap(y)) {
		t.Fatalf("default theta union %v, explicit %v", tgen.Snap(x), tgen.Snap(y))
	}
	if n > 0 {
		c.NT("defaults", n, lgK, stream)
	}
}

// recPolicy counts the matches it is told about.
type recPolicy struct {
	calls map[uint64]int
	bad   error
}

func (p *recPolicy) Apply(in *uint64, inc uint64) {
	if *in != inc {
		p.bad = fmt.Errorf("Apply(internal %d, incoming %d)", *in, inc)
	}
	p.calls[inc]++
}

type sum struct{ v, n int64 }

func (s *sum) Reset()               { *s = sum{} }
func (s *sum) Clone() tuple.Summary { x := *s; return &x }
func (s *sum) Update(v int64)       { s.v += v; s.n++ }

type sumPolicy struct{ id int }

func (p *sumPolicy) Apply(in, inc *sum) { in.v += inc.v; in.n += inc.n }

type anPolicy struct{ id int }

func (p *anPolicy) Apply(in, inc *tuple.ArrayOfNumbersSummary[float64]) { in.Update(inc.Values()) }

func tupleSnap[S any](it iter.Seq2[uint64, S], show func(S) string) []string {
	var r []string
	for h, s := range it {
		r = append(r, fmt.Sprintf("%d:%s", h, show(s)))
	}
	return r
}

func showSum(s *sum) string { return fmt.Sprint(s.v, s.n) }
func showAN(s *tuple.ArrayOfNumbersSummary[float64]) string {
	return fmt.Sprint(s.Values())
}

// a03SetOps: ordered results, policies and identical arguments of the theta and tuple set operations.
func a03SetOps(t *rapid.T, c *vk.Case) {
	u := tgen.DrawUniverse(t, "u")
	seed := vk.Pick[uint64](t, "seed", 9001, 9001, 123, math.MaxUint64)
	if ref.SeedHash16(seed) == 0 {
		return
	}
	k := vk.Int(t, "ops", 1, 4)
	rp := &recPolicy{calls: map[uint64]int{}}
	is := theta.NewIntersection(theta.WithIntersectionSeed(seed), theta.WithIntersectionPolicy(rp))
	plain := theta.NewIntersection(theta.WithIntersectionSeed(seed))
	un := must(theta.NewUnion(theta.WithUnionSeed(seed), theta.WithUnionLgK(uint8(vk.Int(t, "ulgk", 5, 9)))))(t, "union")
	if is.Policy() != theta.Policy(rp) {
		t.Fatalf("Intersection.Policy() is not the given policy")
	}
	if un.Policy() == nil || plain.Policy() == nil {
		t.Fatalf("nil default policy")
	}
	matched := 0
	for i := 0; i < k; i++ {
		op := tgen.DrawOp(t, fmt.Sprintf("op%d", i), 400, 8)
		if i > 0 {
			op.From %= 60
		}
		s := op.Build(t, u, seed).S
		valid := is.HasResult()
		prev := 0
		if valid {
			prev = int(must(is.Result(false))(t, "result").NumRetained())
		}
		rp.calls = map[uint64]int{}
		if err := is.Update(s); err != nil {
			t.Fatalf("update: %v", err)
		}
		if err := plain.Update(s); err != nil {
			t.Fatalf("update: %v", err)
		}
		if err := un.Update(s); err != nil {
			t.Fatalf("union update: %v", err)
		}
		if rp.bad != nil {
			t.Fatalf("%v", rp.bad)
		}
		r := must(is.OrderedResult())(t, "result")
		if x, y := tgen.Snap(r), tgen.Snap(must(is.Result(true))(t, "result")); !x.Equal(y) || !x.Ordered && x.N > 0 {
			t.Fatalf("OrderedResult %v, Result(true) %v", x, y)
		}
		if x, y := tgen.Snap(r), tgen.Snap(must(plain.OrderedResult())(t, "result")); !x.Equal(y) {
			t.Fatalf("a policy that changes nothing changed the result: %v, %v", x, y)
		}
		want := map[uint64]int{}
		if valid && prev > 0 {
			for h := range r.All() {
				want[h]++
			}
		}
		if !reflect.DeepEqual(rp.calls, want) {
			t.Fatalf("step %d: policy told of %v, matched entries %v", i, rp.calls, want)
		}
		matched += len(want)
		x, y := must(un.OrderedResult())(t, "union"), must(un.Result(true))(t, "union")
		if a, b := tgen.Snap(x), tgen.Snap(y); !a.Equal(b) || a.N > 0 && !a.Ordered {
			t.Fatalf("union OrderedResult %v, Result(true) %v", a, b)
		}
		// an object compared with itself
		if j, err := theta.Jaccard(s, s, seed); err != nil || j.LowerBound != 1 || j.Estimate != 1 || j.UpperBound != 1 {
			t.Fatalf("theta Jaccard(s, s) %+v, %v", j, err)
		}
	}

	// tuple and array-of-numbers forms
	lgk := uint8(vk.Int(t, "tlgk", 5, 7))
	sp, ap := &sumPolicy{1}, &anPolicy{1}
	tu := must(tuple.NewUnion[*sum](sp, tuple.WithUnionLgK(lgk), tuple.WithUnionSeed(seed)))(t, "tuple union")
	ti := tuple.NewIntersection[*sum](sp, tuple.WithIntersectionSeed(seed))
	au := must(tuple.NewArrayOfNumbersSketchUnion[float64](ap, 2, tuple.WithUnionLgK(lgk), tuple.WithUnionSeed(seed)))(t, "aon union")
	ai := tuple.NewArrayOfNumbersSketchIntersection[float64](ap, 2, tuple.WithIntersectionSeed(seed))
	if tu.Policy() != tuple.Policy[*sum](sp) || ti.Policy() != tuple.Policy[*sum](sp) {
		t.Fatalf("tuple Policy() is not the given policy")
	}
	if au.Policy() != tuple.Policy[*tuple.ArrayOfNumbersSummary[float64]](ap) || ai.Policy() != tuple.Policy[*tuple.ArrayOfNumbersSummary[float64]](ap) {
		t.Fatalf("array-of-numbers Policy() is not the given policy")
	}
	for i := 0; i < vk.Int(t, "tops", 1, 3); i++ {
		s := must(tuple.NewUpdateSketch[*sum, int64](func() *sum { return &sum{} }, tuple.WithUpdateSketchLgK(lgk), tuple.WithUpdateSketchSeed(seed)))(t, "tuple")
		a := must(tuple.NewArrayOfNumbersUpdateSketch[float64](2, tuple.WithUpdateSketchLgK(lgk), tuple.WithUpdateSketchSeed(seed)))(t, "aon")
		from, n := vk.Size(t, fmt.Sprintf("f%d", i), 0, 40), vk.Size(t, fmt.Sprintf("n%d", i), 0, 300)
		for j := from; j < from+n; j++ {
			s.UpdateInt64(int64(j), int64(j))
			a.UpdateInt64(int64(j), []float64{float64(j), 1})
		}
		for _, e := range []error{tu.Update(s), ti.Update(s), au.Update(a), ai.Update(a)} {
			if e != nil {
				t.Fatalf("%v", e)
			}
		}
		if j, err := tuple.Jaccard[*sum](s, s, sp, seed); err != nil || j.LowerBound != 1 || j.Estimate != 1 || j.UpperBound != 1 {
			t.Fatalf("tuple Jaccard(s, s) %+v, %v", j, err)
		}
		if eq, err := tuple.IsExactlyEqual[*sum](s, s, sp, seed); err != nil || !eq {
			t.Fatalf("tuple IsExactlyEqual(s, s) %v, %v", eq, err)
		}
		cmp := func(what string, x, y []string, ordered bool, n uint32) {
			t.Helper()
			if !slices.Equal(x, y) || !ordered && n > 1 {
				t.Fatalf("%s OrderedResult %v (ordered %v), Result(true) %v", what, x, ordered, y)
			}
		}
		x1, x2 := must(tu.OrderedResult())(t, "r"), must(tu.Result(true))(t, "r")
		cmp("tuple union", tupleSnap(x1.All(), showSum), tupleSnap(x2.All(), showSum), x1.IsOrdered(), x1.NumRetained())
		y1, y2 := must(ti.OrderedResult())(t, "r"), must(ti.Result(true))(t, "r")
		cmp("tuple intersection", tupleSnap(y1.All(), showSum), tupleSnap(y2.All(), showSum), y1.IsOrdered(), y1.NumRetained())
		z1, z2 := must(au.OrderedResult())(t, "r"), must(au.Result(true))(t, "r")
		cmp("aon union", tupleSnap(z1.All(), showAN), tupleSnap(z2.All(), showAN), z1.IsOrdered(), z1.NumRetained())
		w1, w2 := must(ai.OrderedResult())(t, "r"), must(ai.Result(true))(t, "r")
		cmp("aon intersection", tupleSnap(w1.All(), showAN), tupleSnap(w2.All(), showAN), w1.IsOrdered(), w1.NumRetained())
	}
	if matched > 0 {
		c.NT("setops", matched, k, lgk)
		c.Sample("policy told of %d matches over %d updates", matched, k)
	}
}

type ptrHasher struct{}

func (h ptrHasher) Hash(p *int64) uint64 { return vk.Mix(uint64(*p)) }

// a03Nils: nil items are ignored: the history without them ends in the same sketch.
func a03Nils(t *rapid.T, c *vk.Case) {
	n := vk.Size(t, "n", 0, 600)
	stream := rapid.Uint64().Draw(t, "stream")
	rate := vk.Int(t, "rate", 2, 6)
	distinct := vk.Pick(t, "distinct", 3, 40, 100000)
	pool := map[int64]*int64{}
	var items []*int64
	nils := 0
	for i := 0; i < n; i++ {
		x := vk.Mix(stream + uint64(i))
		if x%uint64(rate) == 0 {
			items = append(items, nil)
			nils++
			continue
		}
		v := int64(x >> 8 % uint64(distinct))
		if pool[v] == nil {
			w := v
			pool[v] = &w
		}
		items = append(items, pool[v])
	}
	run := func(f func(p *int64), withNil bool) {
		rand.Seed(int64(stream >> 1))
		for _, p := range items {
			if p != nil || withNil {
				f(p)
			}
		}
	}
	show := func(ps []*int64) []int64 {
		var r []int64
		for _, p := range ps {
			if p == nil {
				t.Fatalf("a nil item is retained")
			}
			r = append(r, *p)
		}
		return r
	}
	less := func(a, b *int64) bool { return *a < *b }
	k := vk.Int(t, "k", 8, 60)
	var kr [2][]int64
	var kn [2]uint64
	for w := range kr {
		s := must(kll.NewKllItemsSketch[*int64](uint16(k), 8, less, nil))(t, "kll")
		run(func(p *int64) { s.Update(p) }, w == 1)
		kn[w] = s.GetN()
		if !s.IsEmpty() {
			lo, e1 := s.GetMinItem()
			hi, e2 := s.GetMaxItem()
			if e1 != nil || e2 != nil {
				t.Fatalf("kll min/max: %v %v", e1, e2)
			}
			kr[w] = []int64{*lo, *hi}
			for it := s.GetIterator(); it.Next(); {
				kr[w] = append(kr[w], *it.GetQuantile(), it.GetWeight())
			}
		}
	}
	if kn[0] != kn[1] || !slices.Equal(kr[0], kr[1]) {
		t.Fatalf("kll: n %d without nil items, %d with; contents %v / %v", kn[0], kn[1], kr[0], kr[1])
	}
	var fr [2]string
	lgMap := vk.Int(t, "lgmap", 3, 6)
	for w := range fr {
		s := must(frequencies.NewFrequencyItemsSketchWithMaxMapSize[*int64](1<<lgMap, ptrHasher{}, nil))(t, "freq")
		run(func(p *int64) {
			if err := s.Update(p); err != nil {
				t.Fatalf("freq update: %v", err)
			}
		}, w == 1)
		rows := must(s.GetFrequentItems(frequencies.ErrorTypeEnum.NoFalseNegatives))(t, "rows")
		fr[w] = fmt.Sprint(s.GetStreamLength(), s.GetMaximumError(), s.GetNumActiveItems())
		for _, r := range rows {
			if r.GetItem() == nil {
				t.Fatalf("a nil item is reported as frequent")
			}
			fr[w] += fmt.Sprint(" ", *r.GetItem(), r.GetEstimate())
		}
	}
	if fr[0] != fr[1] {
		t.Fatalf("frequent items without nil items %s, with %s", fr[0], fr[1])
	}
	var rr, ru [2]string
	for w := range rr {
		s := must(sampling.NewReservoirItemsSketch[*int64](k))(t, "reservoir")
		run(func(p *int64) {
			if err := s.Update(p); err != nil {
				t.Fatalf("reservoir update: %v", err)
			}
		}, w == 1)
		rr[w] = fmt.Sprint(s.N(), show(s.Samples()))
		u := must(sampling.NewReservoirItemsUnion[*int64](k))(t, "union")
		run(func(p *int64) {
			if err := u.Update(p); err != nil {
				t.Fatalf("union update: %v", err)
			}
		}, w == 1)
		if r, err := u.Result(); err != nil {
			t.Fatalf("union result: %v", err)
		} else if r != nil {
			ru[w] = fmt.Sprint(r.N(), show(r.Samples()))
		}
	}
	if rr[0] != rr[1] {
		t.Fatalf("reservoir without nil items %s, with %s", rr[0], rr[1])
	}
	if ru[0] != ru[1] {
		t.Fatalf("reservoir union without nil items %s, with %s", ru[0], ru[1])
	}
	if nils > 0 && nils < n {
		c.NT("nil", n, nils, k)
	}
}

// stop consumes at most m elements and returns them.
func stop[T any](it iter.Seq[T], m int) []T {
	r := []T{}
	if m == 0 {
		for range it {
			return r
		}
		return r
	}
	for x := range it {
		r = append(r, x)
		if len(r) == m {
			break
		}
	}
	return r
}

func pairs[S any](it iter.Seq2[uint64, S], show func(S) string) iter.Seq[string] {
	return func(y func(string) bool) {
		for h, s := range it {
			if !y(fmt.Sprintf("%d:%s", h, show(s))) {
				return
			}
		}
	}
}

func checkStop[T comparable](t *rapid.T, what string, m int, mk func() iter.Seq[T]) int {
	t.Helper()
	full := stop(mk(), -1)
	part := stop(mk(), m)
	again := stop(mk(), -1)
	if !slices.Equal(part, full[:min(m, len(full))]) {
		t.Fatalf("%s: stopping after %d gives %v, the full iteration is %v", what, m, part, full)
	}
	if !slices.Equal(full, again) {
		t.Fatalf("%s: a stopped iteration changed the next one: %v, was %v", what, again, full)
	}
	// one iterator value, consumed twice
	it := mk()
	if a, b := stop(it, m), stop(it, -1); !slices.Equal(a, part) || !slices.Equal(b, full) {
		t.Fatalf("%s: reusing the iterator after stopping gives %v", what, b)
	}
	// two iterations at once
	nxt, done := iter.Pull(mk())
	defer done()
	for i, x := range full {
		y, ok := nxt()
		if !ok || y != x {
			t.Fatalf("%s: pulled element %d is %v, want %v", what, i, y, x)
		}
		if i == m {
			stop(mk(), m)
			break
		}
	}
	return len(full)
}

// a03Stops: iterators stopped early deliver a prefix and leave everything as it was.
func a03Stops(t *rapid.T, c *vk.Case) {
	u := tgen.DrawUniverse(t, "u")
	op := tgen.DrawOp(t, "op", 300, 7)
	m := vk.Size(t, "m", 0, 80)
	o := op.Build(t, u, 9001)
	before := tgen.Snap(o.S)
	longest := checkStop(t, "theta "+o.Desc, m, o.S.All)
	if !tgen.Snap(o.S).Equal(before) {
		t.Fatalf("a stopped iteration changed the theta sketch")
	}
	lgk := uint8(vk.Int(t, "lgk", 5, 7))
	n := vk.Size(t, "n", 0, 300)
	s := must(tuple.NewUpdateSketch[*sum, int64](func() *sum { return &sum{} }, tuple.WithUpdateSketchLgK(lgk)))(t, "tuple")
	a := must(tuple.NewArrayOfNumbersUpdateSketch[float64](2, tuple.WithUpdateSketchLgK(lgk)))(t, "aon")
	v := must(sampling.NewVarOptItemsSketch[int64](uint(vk.Int(t, "k", 1, 40))))(t, "varopt")
	for i := 0; i < n; i++ {
		s.UpdateInt64(int64(i), int64(i))
		a.UpdateInt64(int64(i), []float64{float64(i), 1})
		w := 1.0
		if vk.Mix(uint64(i))%5 == 0 {
			w = 1e4
		}
		if err := v.Update(int64(i), w); err != nil {
			t.Fatalf("varopt update: %v", err)
		}
	}
	cs := must(s.Compact(vk.Chance(t, "ord", 1, 2)))(t, "compact")
	ca := must(tuple.NewArrayOfNumbersCompactSketch[float64](a, vk.Chance(t, "orda", 1, 2)))(t, "compact")
	checkStop(t, "tuple update", m, func() iter.Seq[string] { return pairs(s.All(), showSum) })
	checkStop(t, "tuple compact", m, func() iter.Seq[string] { return pairs(cs.All(), showSum) })
	checkStop(t, "aon update", m, func() iter.Seq[string] { return pairs(a.All(), showAN) })
	checkStop(t, "aon compact", m, func() iter.Seq[string] { return pairs(ca.All(), showAN) })
	l := checkStop(t, "varopt", m, v.All)
	if l != v.NumSamples() {
		t.Fatalf("varopt iterates %d of %d samples", l, v.NumSamples())
	}
	if m > 0 && longest > m && l > m {
		c.NT("stops", m, longest, l, o.Desc)
	}
}

// a03Published: published parameters and number helpers.
func a03Published(t *rapid.T, c *vk.Case) {
	size := vk.Pick(t, "size", 1<<vk.Int(t, "lg", 0, 30), vk.Int(t, "any", -5, 1<<20))
	w := int64(vk.Size(t, "w", 0, 1<<40))
	pow := size > 0 && size&(size-1) == 0
	eps := 3.5 / float64(size)
	for i, f := range []func(int) (float64, error){frequencies.GetEpsilonLongsSketch, frequencies.GetEpsilonFrequencyItemsSketch} {
		if e, err := f(size); (err == nil) != pow || pow && e != eps {
			t.Fatalf("epsilon form %d of %d: %v, %v", i, size, e, err)
		}
	}
	for i, f := range []func(int, int64) (float64, error){frequencies.GetAprioriErrorLongsSketch, frequencies.GetAprioriErrorFrequencyItemsSketch} {
		if e, err := f(size, w); (err == nil) != pow || pow && math.Abs(e-eps*float64(w)) > 1e-12*e {
			t.Fatalf("a priori error form %d of %d, %d: %v, %v", i, size, w, e, err)
		}
	}
	// ceiling power of two, up to 2^30
	x := vk.Pick(t, "x", vk.Int(t, "xa", -10, 1<<31), 1<<vk.Int(t, "xl", 0, 30)+vk.Int(t, "xd", -1, 1))
	want := 1
	for want < x && want < 1<<30 {
		want *= 2
	}
	if g := common.CeilingPowerOf2(x); g != want {
		t.Fatalf("CeilingPowerOf2(%d) = %d, want %d", x, g, want)
	}
	// geometric series: strictly increasing points, each on the lattice base^(i/ppb)
	ppb := vk.Int(t, "ppb", 1, 32)
	base := vk.Pick(t, "base", 2.0, 10.0, 1.5, math.E)
	round := vk.Chance(t, "round", 1, 2)
	cur := vk.Pick(t, "cur", 0, 1, float64(vk.Size(t, "cn", 1, 1<<40)), math.Pow(base, float64(vk.Int(t, "ci", 0, 200))/float64(ppb)))
	if cur > 1e12 {
		cur = 1e12
	}
	at := max(cur, 1)
	next := common.PowerSeriesNextDouble(ppb, cur, round, base)
	if !(next > at) {
		t.Fatalf("PowerSeriesNextDouble(%d, %v, %v, %v) = %v", ppb, cur, round, base, next)
	}
	i := math.Round(math.Log(next) / math.Log(base) * float64(ppb))
	if round {
		ok := false
		for d := -float64(ppb) - 2; d <= float64(ppb)+2; d++ {
			ok = ok || math.Round(math.Pow(base, (i+d)/float64(ppb))) == next
		}
		if next != math.Floor(next) || !ok {
			t.Fatalf("PowerSeriesNextDouble(%d, %v, rounded, %v) = %v is not a rounded series point", ppb, cur, base, next)
		}
	} else if p := math.Pow(base, i/float64(ppb)); math.Abs(p-next) > 1e-9*next {
		t.Fatalf("PowerSeriesNextDouble(%d, %v, exact, %v) = %v is not a series point (nearest %v)", ppb, cur, base, next, p)
	}
	if step := math.Pow(base, 1.5/float64(ppb)); next > at*step*(1+1e-9)+1 {
		t.Fatalf("PowerSeriesNextDouble(%d, %v, %v, %v) = %v skips a series point", ppb, cur, round, base, next)
	}
	// the published coupon matrix
	lgK := vk.Int(t, "lgk", 4, 9)
	seed := vk.Pick[uint64](t, "seed", 9001, 77, math.MaxUint64)
	n := vk.Size(t, "n", 0, 2000)
	bm := cpc.NewBitMatrixWithSeed(lgK, seed)
	if vk.Chance(t, "used", 1, 3) {
		bm.Update(5)
		bm.Reset()
	}
	model := make([]uint64, 1<<lgK)
	sk := must(cpc.NewCpcSketch(lgK, seed))(t, "cpc")
	un := must(cpc.NewCpcUnionSketch(lgK, seed))(t, "cpc union")
	for i := 0; i < n; i++ {
		v := int64(vk.Mix(uint64(n) + uint64(i)))
		bm.Update(v)
		sk.UpdateInt64(v)
		h0, h1 := ref.Murmur128(ref.LE64(uint64(v)), seed)
		col := 0
		for col < 63 && h1>>(63-col)&1 == 0 {
			col++
		}
		model[h0&(1<<lgK-1)] |= 1 << col
	}
	if err := un.Update(sk); err != nil {
		t.Fatalf("cpc union: %v", err)
	}
	got := bm.GetMatrix()
	if !slices.Equal(got, model) {
		t.Fatalf("BitMatrix differs from the coupons of its items")
	}
	cnt := cpc.CountCoupons(model)
	if bm.GetNumCoupons() != cnt {
		t.Fatalf("BitMatrix counts %d coupons of %d", bm.GetNumCoupons(), cnt)
	}
	if m := must(un.GetBitMatrix())(t, "matrix"); !slices.Equal(m, model) {
		t.Fatalf("union's matrix differs from the coupons of its items")
	}
	// random seeds
	s1, s2 := must(filters.GenerateRandomSeed())(t, "seed"), must(filters.GenerateRandomSeed())(t, "seed")
	if s1 == s2 {
		t.Fatalf("two random seeds are both %d", s1)
	}
	c.NT("published", size, x, ppb, cur, round, lgK, n)
}

func TestA03(t *testing.T) {
	vk.Property(t, "A03", "defaults: a non-empty stream; setops: at least one policy call; nils: both nil and non-nil items; stops: iteration stopped strictly inside; published: every case",
		vk.Sub{Name: "defaults", Quick: 400, Thorough: 4000, Fn: a03Defaults},
		vk.Sub{Name: "setops", Quick: 2500, Thorough: 20000, Fn: a03SetOps},
		vk.Sub{Name: "nils", Quick: 1500, Thorough: 12000, Fn: a03Nils},
		vk.Sub{Name: "stops", Quick: 2500, Thorough: 20000, Fn: a03Stops},
		vk.Sub{Name: "published", Quick: 1500, Thorough: 25000, Fn: a03Published},
	)
}
