package sampling_test

import (
	"encoding/binary"
	"fmt"
	"math"
	"slices"
	"strings"

	"github.com/apache/datasketches-go/common"
	"github.com/apache/datasketches-go/sampling"
	"pgregory.net/rapid"

	"verif/vk"
)

// kind is an item type: ids map to distinct items.
type kind[T comparable] struct {
	name  string
	item  func(id int) T
	id    func(it T) int
	serde common.ItemSketchSerde[T]
	size  func(it T) int
	// dec reads n items at off in the documented item layout
	dec func(b []byte, off, n int) ([]T, int, error)
}

var kLong = &kind[int64]{
	name: "long", item: func(id int) int64 { return int64(id)*0x1_0000_0001 - 7 },
	id:    func(it int64) int { return int((it + 7) / 0x1_0000_0001) },
	serde: common.ItemSketchLongSerDe{}, size: func(int64) int { return 8 },
	dec: func(b []byte, off, n int) ([]int64, int, error) {
		if n > (len(b)-off)/8 {
			return nil, 0, fmt.Errorf("short")
		}
		out := make([]int64, n)
		for i := range out {
			out[i] = int64(binary.LittleEndian.Uint64(b[off+8*i:]))
		}
		return out, off + 8*n, nil
	},
}

var kDouble = &kind[float64]{
	name: "double", item: func(id int) float64 { return -1.5 * float64(id) },
	id:    func(it float64) int { return int(math.Round(it / -1.5)) },
	serde: common.ItemSketchDoubleSerDe{}, size: func(float64) int { return 8 },
	dec: func(b []byte, off, n int) ([]float64, int, error) {
		if n > (len(b)-off)/8 {
			return nil, 0, fmt.Errorf("short")
		}
		out := make([]float64, n)
		for i := range out {
			out[i] = math.Float64frombits(binary.LittleEndian.Uint64(b[off+8*i:]))
		}
		return out, off + 8*n, nil
	},
}

var kString = &kind[string]{
	name: "string", item: strOf, id: idOfStr,
	serde: common.ItemSketchStringSerDe{}, size: func(s string) int { return 4 + len(s) },
	dec: func(b []byte, off, n int) ([]string, int, error) {
		out := make([]string, 0, min(n, len(b)))
		for i := 0; i < n; i++ {
			if len(b)-off < 4 {
				return nil, 0, fmt.Errorf("short")
			}
			l := int(binary.LittleEndian.Uint32(b[off:]))
			off += 4
			if l > len(b)-off {
				return nil, 0, fmt.Errorf("short")
			}
			out = append(out, string(b[off:off+l]))
			off += l
		}
		return out, off, nil
	},
}

// strOf: id 0 is the empty string; others have varying lengths and some non-ASCII text.
func strOf(id int) string {
	if id == 0 {
		return ""
	}
	return fmt.Sprintf("%d", id) + strings.Repeat("ü", id%4) + strings.Repeat("z", id%11/10*300)
}

func idOfStr(s string) int {
	n := 0
	for _, r := range s {
		if r < '0' || r > '9' {
			break
		}
		n = n*10 + int(r-'0')
	}
	return n
}

var rfs = []sampling.ResizeFactor{sampling.ResizeX1, sampling.ResizeX2, sampling.ResizeX4, sampling.ResizeX8}

// ids draws how many new items to feed: small, around k, or well beyond.
func runLen(t *rapid.T, k int) int {
	switch vk.Int(t, "len", 0, 4) {
	case 0:
		return vk.Int(t, "n", 0, 3)
	case 1:
		return max(0, k+vk.Int(t, "d", -2, 2))
	case 2:
		return vk.Int(t, "n", 0, 2*k)
	default:
		return vk.Int(t, "n", 0, 10*k+10)
	}
}

func drawK(t *rapid.T, lo, small, large int) int {
	if vk.Chance(t, "kl", 1, 8) {
		return vk.Int(t, "K", lo, large)
	}
	return vk.Int(t, "k", lo, small)
}

// rs is a reservoir sketch with what it must know.
type rs[T comparable] struct {
	s    *sampling.ReservoirItemsSketch[T]
	k    int
	rf   sampling.ResizeFactor
	hist []int // ids in stream order (each id occurs once per stream)
	n    int64
	may  map[int]bool // ids that may be in the sample
}

func newRS[T comparable](t *rapid.T, k *kind[T], lo, small, large int) *rs[T] {
	x := &rs[T]{k: drawK(t, lo, small, large), rf: sampling.ResizeX8, may: map[int]bool{}}
	var err error
	if vk.Chance(t, "drf", 1, 3) {
		x.s, err = sampling.NewReservoirItemsSketch[T](x.k)
	} else {
		x.rf = vk.Pick(t, "rf", rfs...)
		x.s, err = sampling.NewReservoirItemsSketch[T](x.k, sampling.WithReservoirItemsSketchResizeFactor(x.rf))
	}
	if err != nil {
		t.Fatalf("k=%d: %v", x.k, err)
	}
	return x
}

func (x *rs[T]) feed(k *kind[T], next *int, m int) error {
	for i := 0; i < m; i++ {
		id := *next
		*next++
		if err := x.s.Update(k.item(id)); err != nil {
			return fmt.Errorf("Update #%d: %v", x.n, err)
		}
		x.hist = append(x.hist, id)
		x.may[id] = true
		x.n++
	}
	return nil
}

// check verifies the deterministic part of the reservoir's contract and narrows
// what later samples may hold to the present sample.
func (x *rs[T]) check(k *kind[T]) error {
	s := x.s
	if s.K() != x.k {
		return fmt.Errorf("K()=%d, configured %d", s.K(), x.k)
	}
	if s.N() != x.n {
		return fmt.Errorf("N()=%d, stream had %d", s.N(), x.n)
	}
	want := int(min(x.n, int64(x.k)))
	sm := s.Samples()
	if s.NumSamples() != want || len(sm) != want {
		return fmt.Errorf("n=%d k=%d: NumSamples()=%d, len(Samples())=%d, want %d", x.n, x.k, s.NumSamples(), len(sm), want)
	}
	got := map[int]bool{}
	for i, it := range sm {
		id := k.id(it)
		if k.item(id) != it || !x.may[id] {
			return fmt.Errorf("sample %d = %v is not an item it could hold", i, it)
		}
		if got[id] {
			return fmt.Errorf("item %v sampled twice", it)
		}
		got[id] = true
		if x.n <= int64(x.k) && x.hist[i] != id {
			return fmt.Errorf("n=%d<=k=%d but sample %d is %v, stream had %v", x.n, x.k, i, it, k.item(x.hist[i]))
		}
	}
	if x.n > int64(x.k) {
		x.may = got
	}
	if len(sm) > 0 { // the returned slice is the caller's
		var zero T
		keep := slices.Clone(sm)
		for i := range sm {
			sm[i] = zero
		}
		if !slices.Equal(s.Samples(), keep) {
			return fmt.Errorf("changing the slice returned by Samples() changed the sketch")
		}
	}
	return nil
}

// subset checks EstimateSubsetSum against the sketch's own samples.
func (x *rs[T]) subset(k *kind[T], pred func(id int) bool) error {
	r, err := x.s.EstimateSubsetSum(func(it T) bool { return pred(k.id(it)) })
	if err != nil {
		return fmt.Errorf("EstimateSubsetSum: %v", err)
	}
	c := 0
	for _, it := range x.s.Samples() {
		if pred(k.id(it)) {
			c++
		}
	}
	if x.n <= int64(x.k) {
		truth := 0.0
		for _, id := range x.hist {
			if pred(id) {
				truth++
			}
		}
		if r.LowerBound != truth || r.Estimate != truth || r.UpperBound != truth || r.TotalSketchWeight != float64(x.n) {
			return fmt.Errorf("exact mode: %+v, true count %v of n=%d", r, truth, x.n)
		}
		return nil
	}
	est := float64(x.n) * float64(c) / float64(x.k)
	if math.Abs(r.Estimate-est) > 1e-9*float64(x.n) || r.TotalSketchWeight != float64(x.n) {
		return fmt.Errorf("%+v, want estimate %v of total %d", r, est, x.n)
	}
	tol := 1e-9 * float64(x.n)
	if !(r.LowerBound >= -tol && r.LowerBound <= r.Estimate+tol && r.Estimate <= r.UpperBound+tol && r.UpperBound <= float64(x.n)+tol) {
		return fmt.Errorf("bounds do not bracket: %+v n=%d", r, x.n)
	}
	return nil
}

func rState[T any](s *sampling.ReservoirItemsSketch[T]) string {
	return fmt.Sprintf("k=%d n=%d %v", s.K(), s.N(), s.Samples())
}

// kl is the Chernoff exponent: P(observing x or more extreme of T at probability p) <= exp(-kl).
func kl(x, T int, p float64) float64 {
	q := float64(x) / float64(T)
	d := 0.0
	if q > 0 {
		if p <= 0 {
			return math.Inf(1)
		}
		d += q * math.Log(q/p)
	}
	if q < 1 {
		if p >= 1 {
			return math.Inf(1)
		}
		d += (1 - q) * math.Log((1-q)/(1-p))
	}
	return d * float64(T)
}

const klLimit = 32 // e^-32 ~ 1e-14

// mean accumulates a per-trial statistic of known expectation.
type mean struct {
	name     string
	want     float64
	sum, sq  float64
	n        int
	maxValue float64 // largest |deviation| possible, for the Bernstein correction
}

func (m *mean) add(x float64) { d := x - m.want; m.sum += d; m.sq += d * d; m.n++ }

// err reports a mean that deviates by more than 7.5 standard errors plus a Bernstein term.
func (m *mean) err() error {
	n := float64(m.n)
	dev := math.Abs(m.sum / n)
	sd := math.Sqrt(m.sq/n) + 1e-12*(1+math.Abs(m.want))
	lim := 7.5*sd/math.Sqrt(n) + 20*m.maxValue/n
	if dev > lim {
		return fmt.Errorf("%s: mean over %d trials is %.6g, expected %.6g (deviation %.3g, limit %.3g)", m.name, m.n, m.want+m.sum/n, m.want, m.sum/n, lim)
	}
	return nil
}
