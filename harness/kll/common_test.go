package kll_test

import (
	"fmt"
	"math"
	"slices"
	"sort"
	"strings"

	"github.com/apache/datasketches-go/common"
	"github.com/apache/datasketches-go/kll"
	"pgregory.net/rapid"

	"verif/qref"
	"verif/vk"
)

// kind is an item type under test; conv maps an integer to an item (not necessarily monotone).
type kind[C comparable] struct {
	name  string
	less  func(a, b C) bool
	serde common.ItemSketchSerde[C]
	conv  func(v int64) C
}

var kF64 = kind[float64]{"float64", common.ItemSketchDoubleComparator(false), common.ItemSketchDoubleSerDe{}, convF64}
var kF64r = kind[float64]{"float64-reverse", common.ItemSketchDoubleComparator(true), common.ItemSketchDoubleSerDe{}, convF64}
var kF32 = kind[float32]{"float32", common.ItemSketchFloatComparator(false), common.ItemSketchFloatSerDe{}, func(v int64) float32 {
	switch v {
	case 7:
		return float32(math.Inf(1))
	case 11:
		return float32(math.Inf(-1))
	}
	return float32(v) / 4
}}
var kI64 = kind[int64]{"int64", common.ItemSketchLongComparator(false), common.ItemSketchLongSerDe{}, func(v int64) int64 {
	switch v {
	case 7:
		return math.MaxInt64
	case 11:
		return math.MinInt64
	}
	return v - 100
}}
var kStr = kind[string]{"string", common.ItemSketchStringComparator(false), common.ItemSketchStringSerDe{}, convStr}
var kStrR = kind[string]{"string-reverse", common.ItemSketchStringComparator(true), common.ItemSketchStringSerDe{}, convStr}

// kCase orders strings without regard to case: different items may be equivalent.
var kCase = kind[string]{"string-caseless", func(a, b string) bool { return strings.ToLower(a) < strings.ToLower(b) }, common.ItemSketchStringSerDe{}, func(v int64) string {
	s := convStr(v / 4)
	switch v % 4 {
	case 0:
		return strings.ToUpper(s)
	case 1:
		return strings.ToLower(s)
	}
	return s
}}

func convF64(v int64) float64 {
	switch v {
	case 7:
		return math.Inf(1)
	case 11:
		return math.Inf(-1)
	case 13:
		return 5e-324
	}
	return float64(v)/8 - 40
}

func convStr(v int64) string {
	switch v % 16 {
	case 0:
		return strings.Repeat("é", int(v%7)) + fmt.Sprint(v/16)
	case 1:
		if v < 64 {
			return ""
		}
		return fmt.Sprintf("\x00\xff%d", v)
	case 2:
		return fmt.Sprintf("long-%060d", v)
	}
	return fmt.Sprint(v)
}

type model[C comparable] struct {
	k, minK uint16
	m       uint8
	items   []C // the multiset presented
	exact   bool
}

type sk[C comparable] struct {
	s *kll.ItemsSketch[C]
	m model[C]
}

func newSk[C comparable](k kind[C], kk uint16, m uint8) (*sk[C], error) {
	s, err := kll.NewKllItemsSketch[C](kk, m, k.less, k.serde)
	if err != nil {
		return nil, err
	}
	return &sk[C]{s, model[C]{k: kk, minK: kk, m: m, exact: true}}, nil
}

func (x *sk[C]) update(v C) {
	x.s.Update(v)
	x.m.items = append(x.m.items, v)
}

func (x *sk[C]) merge(o *sk[C]) {
	est := o.s.IsEstimationMode()
	x.s.Merge(o.s)
	x.m.items = append(x.m.items, o.m.items...)
	if !o.m.exact || len(o.m.items) > int(o.m.k) {
		x.m.exact = false
	}
	if est && len(o.m.items) > 0 {
		x.m.minK = min(x.m.minK, o.m.minK)
	}
}

func (x *sk[C]) reset() {
	x.s.Reset()
	x.m = model[C]{k: x.m.k, minK: x.m.k, m: x.m.m, exact: true}
}

func pairs[C comparable](s *kll.ItemsSketch[C]) (q []C, w []int64) {
	for it := s.GetIterator(); it.Next(); {
		q = append(q, it.GetQuantile())
		w = append(w, it.GetWeight())
	}
	return
}

func view[C comparable](s *kll.ItemsSketch[C], less func(a, b C) bool) *qref.View[C] {
	q, w := pairs(s)
	return qref.New(q, w, less)
}

// check compares everything conserved with the model.
func (x *sk[C]) check(k kind[C]) error {
	s, m := x.s, &x.m
	n := len(m.items)
	if s.GetN() != uint64(n) {
		return fmt.Errorf("N=%d, %d items presented", s.GetN(), n)
	}
	if s.GetK() != m.k {
		return fmt.Errorf("K=%d want %d", s.GetK(), m.k)
	}
	if s.IsEmpty() != (n == 0) {
		return fmt.Errorf("IsEmpty=%v with n=%d", s.IsEmpty(), n)
	}
	mn, e1 := s.GetMinItem()
	mx, e2 := s.GetMaxItem()
	q, w := pairs(s)
	if n == 0 {
		if e1 == nil || e2 == nil {
			return fmt.Errorf("min/max of an empty sketch must be errors")
		}
		if len(q) != 0 || s.GetNumRetained() != 0 {
			return fmt.Errorf("empty sketch retains %d/%d items", len(q), s.GetNumRetained())
		}
		return nil
	}
	if e1 != nil || e2 != nil {
		return fmt.Errorf("min/max: %v %v", e1, e2)
	}
	wmn, wmx := m.items[0], m.items[0]
	cnt := map[C]int{}
	for _, v := range m.items {
		if k.less(v, wmn) {
			wmn = v
		}
		if k.less(wmx, v) {
			wmx = v
		}
		cnt[v]++
	}
	if mn != wmn || mx != wmx {
		return fmt.Errorf("min,max = %v,%v want %v,%v", mn, mx, wmn, wmx)
	}
	if len(q) != int(s.GetNumRetained()) {
		return fmt.Errorf("iterator yields %d items, NumRetained=%d", len(q), s.GetNumRetained())
	}
	var sum int64
	got := map[C]int{}
	for i, v := range q {
		if w[i] <= 0 || w[i]&(w[i]-1) != 0 {
			return fmt.Errorf("weight %d is not a power of two", w[i])
		}
		sum += w[i]
		got[v]++
		if got[v] > cnt[v] {
			return fmt.Errorf("item %v retained %d times but presented %d times", v, got[v], cnt[v])
		}
	}
	if sum != int64(n) {
		return fmt.Errorf("weights sum to %d, N=%d", sum, n)
	}
	exact := m.exact && n <= int(m.k)
	if exact {
		if s.IsEstimationMode() {
			return fmt.Errorf("estimation mode with n=%d k=%d", n, m.k)
		}
		if len(q) != n {
			return fmt.Errorf("exact sketch retains %d of %d items", len(q), n)
		}
	}
	if !s.IsEstimationMode() && len(q) != n {
		return fmt.Errorf("not in estimation mode but retains %d of %d", len(q), n)
	}
	// space: geometric level capacities sum below 3k, plus m (and an odd leftover) per level
	levels := 2 + int(math.Log2(float64(n)))
	if lim := 3*int(m.k) + (int(m.m)+1)*levels + 2; len(q) > lim {
		return fmt.Errorf("retains %d items, more than %d for k=%d n=%d", len(q), lim, m.k, n)
	}
	for _, p := range []bool{false, true} {
		want := 2.296 / math.Pow(float64(m.minK), 0.9723)
		if p {
			want = 2.446 / math.Pow(float64(m.minK), 0.9433)
		}
		if e := s.GetNormalizedRankError(p); math.Abs(e-want) > 1e-12 {
			return fmt.Errorf("normalized rank error %v want %v (min k %d)", e, want, m.minK)
		}
	}
	return nil
}

// state is a comparable dump of everything observable without queries.
func state[C comparable](s *kll.ItemsSketch[C]) string {
	q, w := pairs(s)
	mn, e1 := s.GetMinItem()
	mx, e2 := s.GetMaxItem()
	return fmt.Sprint(s.GetN(), s.GetK(), s.GetNumRetained(), s.IsEstimationMode(), s.GetNormalizedRankError(false), mn, e1, mx, e2, len(q), q, w)
}

func img[C comparable](s *kll.ItemsSketch[C]) ([]byte, error) {
	b, err := s.ToSlice()
	if err != nil {
		return nil, err
	}
	sz, err := s.GetSerializedSizeBytes()
	if err != nil {
		return nil, err
	}
	if sz != len(b) {
		return nil, fmt.Errorf("image has %d bytes, GetSerializedSizeBytes says %d", len(b), sz)
	}
	return b, nil
}

// stream draws a compact description of a batch and expands it.
func stream(t *rapid.T, maxN int) ([]int64, string) {
	n := vk.Size(t, "n", 0, maxN)
	seed := rapid.Uint32().Draw(t, "sseed")
	dom := vk.Pick(t, "dom", 3, 40, 1000, 1<<20)
	ord := vk.Pick(t, "ord", "random", "asc", "desc", "zigzag", "blocks")
	p := vk.NewPRNG(uint64(seed))
	r := make([]int64, n)
	for i := range r {
		r[i] = int64(p.Intn(dom))
	}
	switch ord {
	case "asc":
		slices.Sort(r)
	case "desc":
		slices.Sort(r)
		slices.Reverse(r)
	case "zigzag":
		slices.Sort(r)
		z := make([]int64, 0, n)
		for i, j := 0, n-1; i <= j; i, j = i+1, j-1 {
			z = append(z, r[i])
			if i != j {
				z = append(z, r[j])
			}
		}
		r = z
	case "blocks":
		for i := 0; i < n; i += 50 {
			slices.Sort(r[i:min(i+50, n)])
		}
	}
	return r, fmt.Sprintf("%d %s of %d", n, ord, dom)
}

func drawK(t *rapid.T) uint16 {
	return uint16(vk.Pick(t, "k", 8, 8, 9, 10, 12, 16, 20, 33, 50, 200))
}

// build makes a sketch by a drawn history of updates, merges, resets and round-trips.
func build[C comparable](t *rapid.T, k kind[C], maxN int) (*sk[C], string) {
	kk := drawK(t)
	m := uint8(vk.Pick(t, "m", 8, 8, 8, 2, 4, 6))
	x, err := newSk(k, kk, m)
	if err != nil {
		t.Fatalf("new: %v", err)
	}
	d := fmt.Sprintf("%s k=%d m=%d", k.name, kk, m)
	for i, n := 0, vk.Int(t, "steps", 0, 4); i < n; i++ {
		switch vk.Int(t, "step", 0, 9) {
		default:
			vs, ds := stream(t, maxN)
			d += " upd(" + ds + ")"
			for _, v := range vs {
				x.update(k.conv(v))
			}
		case 5, 6:
			vs, ds := stream(t, 3)
			d += " upd(" + ds + ")"
			for _, v := range vs {
				x.update(k.conv(v))
			}
		case 7, 8:
			k2 := drawK(t)
			y, _ := newSk(k, k2, m)
			vs, ds := stream(t, maxN)
			for _, v := range vs {
				y.update(k.conv(v))
			}
			x.merge(y)
			d += fmt.Sprintf(" merge(k=%d %s)", k2, ds)
		case 9:
			if vk.Chance(t, "reset", 1, 3) {
				x.reset()
				d += " reset"
			}
		}
	}
	return x, d
}

func sorted[C comparable](v []C, less func(a, b C) bool) []C {
	c := slices.Clone(v)
	sort.SliceStable(c, func(i, j int) bool { return less(c[i], c[j]) })
	return c
}
