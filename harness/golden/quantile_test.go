package golden_test

import (
	"cmp"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"slices"
	"strconv"
	"strings"

	"pgregory.net/rapid"

	"github.com/apache/datasketches-go/common"
	"github.com/apache/datasketches-go/kll"
	"github.com/apache/datasketches-go/tdigest"

	"verif/vk"
)

// ---------------------------------------------------------------- kll

func gKll(t *rapid.T, c *vk.Case) {
	f := pickImg(t, c, `kll_(?:double|float|long|string)_n(\d+)`)
	switch strings.Split(f.name, "_")[1] {
	case "double":
		kllRun(t, c, f, common.ItemSketchDoubleComparator(false), common.ItemSketchDoubleSerDe{}, func(i int) float64 { return float64(i) }, func(v float64) int { return int(v) })
	case "float":
		kllRun(t, c, f, common.ItemSketchFloatComparator(false), common.ItemSketchFloatSerDe{}, func(i int) float32 { return float32(i) }, func(v float32) int { return int(v) })
	case "long":
		kllRun(t, c, f, common.ItemSketchLongComparator(false), common.ItemSketchLongSerDe{}, func(i int) int64 { return int64(i) }, func(v int64) int { return int(v) })
	default:
		num := func(s string) int { i, _ := strconv.Atoi(strings.TrimSpace(s)); return i }
		item := strconv.Itoa
		less := func(a, b string) bool { return num(a) < num(b) }
		if f.lang != "cpp" { // fixed width, compared as text
			w := len(strconv.Itoa(f.n))
			item = func(i int) string { return fmt.Sprintf("%*d", w, i) }
			less = common.ItemSketchStringComparator(false)
		}
		kllRun(t, c, f, less, common.ItemSketchStringSerDe{}, item, num)
	}
}

// multiset of the integers 1..n and some spans
type ints struct{ parts []span }

func (m ints) count(le int) (r int) {
	for _, p := range m.parts {
		r += min(max(le-p.lo+1, 0), p.n)
	}
	return
}

func (m ints) total() int { return m.count(math.MaxInt32) }

func (m ints) minmax() (lo, hi int) {
	lo, hi = math.MaxInt, math.MinInt
	for _, p := range m.parts {
		if p.n > 0 {
			lo, hi = min(lo, p.lo), max(hi, p.lo+p.n-1)
		}
	}
	return
}

func (m ints) has(i int) bool {
	for _, p := range m.parts {
		if i >= p.lo && i < p.lo+p.n {
			return true
		}
	}
	return false
}

// kllVerify checks a sketch against the stream it summarises.
func kllVerify[C comparable](t *rapid.T, f *img, what string, s *kll.ItemsSketch[C], m ints, k int, item func(int) C, num func(C) int) {
	n := m.total()
	if int(s.GetN()) != n || s.IsEmpty() != (n == 0) {
		t.Fatalf("%s%s: N=%d empty=%v after %d items", f, what, s.GetN(), s.IsEmpty(), n)
	}
	if n == 0 {
		return
	}
	lo, hi := m.minmax()
	mn, err := s.GetMinItem()
	must(t, f, err)
	mx, err := s.GetMaxItem()
	must(t, f, err)
	if mn != item(lo) || mx != item(hi) {
		t.Fatalf("%s%s: minimum %v maximum %v, expected %d and %d", f, what, mn, mx, lo, hi)
	}
	type iw struct {
		i int
		w int64
	}
	var es []iw
	sum := int64(0)
	for it := s.GetIterator(); it.Next(); {
		q := it.GetQuantile()
		i := num(q)
		if q != item(i) || !m.has(i) {
			t.Fatalf("%s%s: retains %v, which was never offered", f, what, q)
		}
		es = append(es, iw{i, it.GetWeight()})
		sum += it.GetWeight()
	}
	if sum != int64(n) || len(es) != int(s.GetNumRetained()) {
		t.Fatalf("%s%s: weights add up to %d over %d items of %d, stream length %d", f, what, sum, len(es), s.GetNumRetained(), n)
	}
	slices.SortFunc(es, func(a, b iw) int { return cmp.Compare(a.i, b.i) })
	eps := 6*kllEps(k) + 1e-9
	acc := int64(0)
	for j, e := range es {
		acc += e.w
		if j+1 < len(es) && es[j+1].i == e.i {
			continue
		}
		got, err := s.GetRank(item(e.i), true)
		must(t, f, err)
		if math.Abs(got-float64(acc)/float64(n)) > 1e-9 {
			t.Fatalf("%s%s: rank of %d is %v, the retained weights say %d/%d", f, what, e.i, got, acc, n)
		}
		if d := math.Abs(float64(acc-int64(m.count(e.i)))) / float64(n); d > eps {
			t.Fatalf("%s%s: rank of %d is off by %v (k=%d)", f, what, e.i, d, k)
		}
	}
	if n < k && len(es) != n {
		t.Fatalf("%s%s: %d of %d items retained at k=%d", f, what, len(es), n, k)
	}
}

func kllEps(k int) float64 { return 2.296 / math.Pow(float64(k), 0.9723) }

func kllRun[C comparable](t *rapid.T, c *vk.Case, f *img, less common.CompareFn[C], serde common.ItemSketchSerde[C], item func(int) C, num func(C) int) {
	d, err := kll.NewKllItemsSketchFromSlice[C](f.data, less, serde)
	must(t, f, err)
	if d.GetK() != 200 {
		t.Fatalf("%s: k=%d", f, d.GetK())
	}
	m := ints{[]span{{1, f.n}}}
	kllVerify(t, f, "", d, m, 200, item, num)
	show := func(s *kll.ItemsSketch[C]) string {
		b, err := s.ToSlice()
		must(t, f, err)
		return fmt.Sprintf("%x", b)
	}
	if f.n != 1 { // a single item has two layouts
		same(t, f, "re-encoding", show(d), fmt.Sprintf("%x", f.data))
	} else if e, err := kll.NewKllItemsSketchFromSlice[C]([]byte(unhex(show(d))), less, serde); err != nil || e.GetN() != 1 {
		t.Fatalf("%s: re-encoding does not decode (%v)", f, err)
	}
	if f.n < 200 { // nothing was discarded: the natively built sketch is the same
		s, err := kll.NewKllItemsSketch[C](200, 8, less, serde)
		must(t, f, err)
		for i := 1; i <= f.n; i++ {
			s.Update(item(i))
		}
		same(t, f, "image", show(d), show(s))
	}
	sp := drawSpan(t, "other", f.n, 5000)
	sp.lo = max(sp.lo, 0) // the text forms are for naturals
	if w := len(strconv.Itoa(f.n)); len(strconv.Itoa(sp.lo+sp.n)) > w {
		if _, isStr := any(item(1)).(string); isStr && f.lang != "cpp" {
			sp.lo = 0
			sp.n = min(sp.n, int(math.Pow10(w))-1)
		}
	}
	k2 := vk.Int(t, "k", 8, 600)
	o, err := kll.NewKllItemsSketch[C](uint16(k2), 8, less, serde)
	must(t, f, err)
	sp.each(func(i int) { o.Update(item(i)) })
	both := ints{append(m.parts, sp)}
	switch vk.Int(t, "op", 0, 2) {
	case 0:
		sp.each(func(i int) { d.Update(item(i)) })
		kllVerify(t, f, " updated with "+sp.String(), d, both, 200, item, num)
	case 1:
		d.Merge(o)
		kllVerify(t, f, fmt.Sprintf(" after merging %s k=%d", sp, k2), d, both, min(200, k2), item, num)
	case 2:
		o.Merge(d)
		kllVerify(t, f, fmt.Sprintf(" merged into %s k=%d", sp, k2), o, both, min(200, k2), item, num)
	}
	c.NT(f.String(), sp, k2)
	c.Sample("%s with %s k=%d", f, sp, k2)
}

func unhex(s string) string {
	b := make([]byte, len(s)/2)
	for i := range b {
		v, _ := strconv.ParseUint(s[2*i:2*i+2], 16, 8)
		b[i] = byte(v)
	}
	return string(b)
}

// ---------------------------------------------------------------- t-digest

var tdRefs []*img

func tdVerify(t *rapid.T, f *img, what string, d *tdigest.Double, m ints, k int) {
	n := m.total()
	if int(d.TotalWeight()) != n || d.IsEmpty() != (n == 0) {
		t.Fatalf("%s%s: weight %d after %d values", f, what, d.TotalWeight(), n)
	}
	if n == 0 {
		return
	}
	lo, hi := m.minmax()
	mn, e1 := d.MinValue()
	mx, e2 := d.MaxValue()
	if e1 != nil || e2 != nil || mn != float64(lo) || mx != float64(hi) {
		t.Fatalf("%s%s: minimum %v maximum %v, expected %d and %d", f, what, mn, mx, lo, hi)
	}
	prev := 0.0
	for j := 0; j <= 60; j++ {
		v := lo + (hi-lo)*j/60
		r, err := d.Rank(float64(v))
		must(t, f, err)
		want := (float64(m.count(v-1)) + float64(m.count(v))) / 2 / float64(n)
		tol := 6*want*(1-want)/float64(k) + 2.5/float64(n) + 0.002
		if len(m.parts) > 1 { // a centroid may straddle the gap between the parts
			tol += want * (1 - want) * (4*math.Log(max(1, float64(n)/float64(k))) + 24) / float64(k)
		}
		if math.Abs(r-want) > tol || r < prev-1e-9 {
			t.Fatalf("%s%s: rank of %d is %v, exactly %v (tolerance %v, previous rank %v)", f, what, v, r, want, tol, prev)
		}
		prev = r
	}
	if q, err := d.Quantile(0); err != nil || q != mn {
		t.Fatalf("%s%s: quantile(0)=%v (%v), minimum %v", f, what, q, err, mn)
	}
	if q, err := d.Quantile(1); err != nil || q != mx {
		t.Fatalf("%s%s: quantile(1)=%v (%v), maximum %v", f, what, q, err, mx)
	}
}

func gTdigest(t *rapid.T, c *vk.Case) {
	if tdRefs == nil {
		for _, n := range []string{"double", "float"} {
			name := "tdigest_ref_k100_n10000_" + n
			b, err := os.ReadFile(filepath.Join(vk.RepoDir(), "tdigest", name+".sk"))
			if err != nil {
				t.Fatalf("%v", err)
			}
			tdRefs = append(tdRefs, &img{lang: "reference", name: name, n: 10000, data: b})
		}
	}
	all := slices.Concat(images(t, `tdigest_double(?:_buf)?_n(\d+)`), tdRefs)
	f := all[vk.Int(t, "image", 0, len(all)-1)]
	c.Class(f.lang)
	d, err := tdigest.DecodeDouble(f.data)
	must(t, f, err)
	first := 1
	if f.lang == "reference" {
		first = 0
	}
	m := ints{[]span{{first, f.n}}}
	if d.K() != 100 {
		t.Fatalf("%s: k=%d", f, d.K())
	}
	same := func(what, got, want string) { same(t, f, what, got, want) }
	enc := func(s *tdigest.Double, buf bool) string {
		b, err := tdigest.EncodeDouble(s, buf)
		must(t, f, err)
		return fmt.Sprintf("%x", b)
	}
	if f.lang != "reference" && f.n != 1 && vk.Chance(t, "recode", 1, 2) {
		same("re-encoding", enc(d, strings.Contains(f.name, "_buf")), fmt.Sprintf("%x", f.data))
	}
	tdVerify(t, f, "", d, m, 100)
	sp := drawSpan(t, "other", f.n, 5000)
	k2 := vk.Int(t, "k", 10, 300)
	o, err := tdigest.NewDouble(uint16(k2))
	must(t, f, err)
	sp.each(func(i int) { must(t, f, o.Update(float64(i))) })
	both := ints{append(m.parts, sp)}
	if vk.Chance(t, "inner", 1, 3) { // read it once more before going on
		tdVerify(t, f, " read again", d, m, 100)
	}
	switch vk.Int(t, "op", 0, 2) {
	case 0:
		sp.each(func(i int) { must(t, f, d.Update(float64(i))) })
		tdVerify(t, f, " updated with "+sp.String(), d, both, 100)
	case 1:
		if sp.n > 0 { // merging an empty t-digest is refused
			must(t, f, d.Merge(o))
		}
		tdVerify(t, f, fmt.Sprintf(" after merging %s k=%d", sp, k2), d, both, min(100, k2))
	case 2:
		if f.n > 0 {
			must(t, f, o.Merge(d))
		}
		tdVerify(t, f, fmt.Sprintf(" merged into %s k=%d", sp, k2), o, both, min(100, k2))
	}
	c.NT(f.String(), sp, k2)
	c.Sample("%s with %s k=%d", f, sp, k2)
}
