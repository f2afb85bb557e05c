package freq_test

import (
	"encoding/binary"
	"fmt"
	"math"
	"sort"
	"strconv"

	"github.com/apache/datasketches-go/common"
	fq "github.com/apache/datasketches-go/frequencies"
	"pgregory.net/rapid"

	"verif/ref"
	"verif/vk"
)

type row[C comparable] struct {
	item        C
	est, lb, ub int64
}

// api is what the Longs and Items sketches have in common.
type api[C comparable] interface {
	upd(x C, w int64, plain bool) error
	est(x C) (int64, error)
	lb(x C) (int64, error)
	ub(x C) (int64, error)
	// rows: nfn selects no-false-negatives; thr nil means the default threshold
	rows(nfn bool, thr *int64) ([]row[C], error)
	merge(o api[C]) error
	reset() error
	bytes() ([]byte, error)
	fromBytes(b []byte) (api[C], error)
	str() (string, error)
	fromString(s string) (api[C], bool, error)
	n() int64
	maxErr() int64
	active() int
	curCap() int
	maxCap() int
	empty() bool
}

type longs struct{ s *fq.LongsSketch }

func (l *longs) upd(x int64, w int64, plain bool) error {
	if plain && w == 1 {
		return l.s.Update(x)
	}
	return l.s.UpdateMany(x, w)
}
func (l *longs) est(x int64) (int64, error) { return l.s.GetEstimate(x) }
func (l *longs) lb(x int64) (int64, error)  { return l.s.GetLowerBound(x) }
func (l *longs) ub(x int64) (int64, error)  { return l.s.GetUpperBound(x) }
func (l *longs) rows(nfn bool, thr *int64) ([]row[int64], error) {
	et := fq.ErrorTypeEnum.NoFalsePositives
	if nfn {
		et = fq.ErrorTypeEnum.NoFalseNegatives
	}
	var rs []*fq.Row
	var err error
	if thr == nil {
		rs, err = l.s.GetFrequentItems(et)
	} else {
		rs, err = l.s.GetFrequentItemsWithThreshold(*thr, et)
	}
	var out []row[int64]
	for _, r := range rs {
		out = append(out, row[int64]{r.GetItem(), r.GetEstimate(), r.GetLowerBound(), r.GetUpperBound()})
	}
	return out, err
}
func (l *longs) merge(o api[int64]) error {
	r, err := l.s.Merge(o.(*longs).s)
	if err == nil && r != l.s {
		return fmt.Errorf("Merge returned another sketch")
	}
	return err
}
func (l *longs) reset() error { l.s.Reset(); return nil }
func (l *longs) bytes() ([]byte, error) {
	b := l.s.ToSlice()
	if n := l.s.GetStorageBytes(); n != len(b) {
		return nil, fmt.Errorf("GetStorageBytes()=%d, image has %d", n, len(b))
	}
	return b, nil
}
func (l *longs) fromBytes(b []byte) (api[int64], error) {
	s, err := fq.NewLongsSketchFromSlice(b)
	return &longs{s}, err
}
func (l *longs) str() (string, error) { return l.s.ToString() }
func (l *longs) fromString(x string) (api[int64], bool, error) {
	s, err := fq.NewLongsSketchFromString(x)
	return &longs{s}, true, err
}
func (l *longs) n() int64      { return l.s.GetStreamLength() }
func (l *longs) maxErr() int64 { return l.s.GetMaximumError() }
func (l *longs) active() int   { return l.s.GetNumActiveItems() }
func (l *longs) curCap() int   { return l.s.GetCurrentMapCapacity() }
func (l *longs) maxCap() int   { return l.s.GetMaximumMapCapacity() }
func (l *longs) empty() bool   { return l.s.IsEmpty() }

type items[C comparable] struct {
	s *fq.ItemsSketch[C]
	h common.ItemSketchHasher[C]
	d common.ItemSketchSerde[C]
}

func (l *items[C]) upd(x C, w int64, plain bool) error {
	if plain && w == 1 {
		return l.s.Update(x)
	}
	return l.s.UpdateMany(x, w)
}
func (l *items[C]) est(x C) (int64, error) { return l.s.GetEstimate(x) }
func (l *items[C]) lb(x C) (int64, error)  { return l.s.GetLowerBound(x) }
func (l *items[C]) ub(x C) (int64, error)  { return l.s.GetUpperBound(x) }
func (l *items[C]) rows(nfn bool, thr *int64) ([]row[C], error) {
	et := fq.ErrorTypeEnum.NoFalsePositives
	if nfn {
		et = fq.ErrorTypeEnum.NoFalseNegatives
	}
	var rs []*fq.RowItem[C]
	var err error
	if thr == nil {
		rs, err = l.s.GetFrequentItems(et)
	} else {
		rs, err = l.s.GetFrequentItemsWithThreshold(*thr, et)
	}
	var out []row[C]
	for _, r := range rs {
		out = append(out, row[C]{r.GetItem(), r.GetEstimate(), r.GetLowerBound(), r.GetUpperBound()})
	}
	return out, err
}
func (l *items[C]) merge(o api[C]) error {
	r, err := l.s.Merge(o.(*items[C]).s)
	if err == nil && r != l.s {
		return fmt.Errorf("Merge returned another sketch")
	}
	return err
}
func (l *items[C]) reset() error           { return l.s.Reset() }
func (l *items[C]) bytes() ([]byte, error) { return l.s.ToSlice() }
func (l *items[C]) fromBytes(b []byte) (api[C], error) {
	s, err := fq.NewFrequencyItemsSketchFromSlice[C](b, l.h, l.d)
	return &items[C]{s, l.h, l.d}, err
}
func (l *items[C]) str() (string, error) { return l.s.ToString() }
func (l *items[C]) fromString(string) (api[C], bool, error) {
	return nil, false, nil
}
func (l *items[C]) n() int64      { return l.s.GetStreamLength() }
func (l *items[C]) maxErr() int64 { return l.s.GetMaximumError() }
func (l *items[C]) active() int   { return l.s.GetNumActiveItems() }
func (l *items[C]) curCap() int   { return l.s.GetCurrentMapCapacity() }
func (l *items[C]) maxCap() int   { return l.s.GetMaximumMapCapacity() }
func (l *items[C]) empty() bool   { return l.s.IsEmpty() }

// kind describes one sketch/item type: construction and item generation.
type kind[C comparable] struct {
	name  string
	mk    func(lgMax, lgCur int, viaSize bool) (api[C], error)
	item  func(u uint64) C // injective on the low 62 bits
	hash  func(x C) uint64
	parse func(b []byte, n int) []C // reference item decoder
	enc   func(xs []C) []byte
}

func fmix(k uint64) uint64 {
	k ^= k >> 33
	k *= 0xff51afd7ed558ccd
	k ^= k >> 33
	k *= 0xc4ceb9fe1a85ec53
	return k ^ k>>33
}

func m64(b []byte) uint64 { h, _ := ref.Murmur128(b, 9001); return h }

func mkItems[C comparable](h common.ItemSketchHasher[C], d common.ItemSketchSerde[C]) func(int, int, bool) (api[C], error) {
	return func(lgMax, lgCur int, viaSize bool) (api[C], error) {
		var s *fq.ItemsSketch[C]
		var err error
		if viaSize {
			s, err = fq.NewFrequencyItemsSketchWithMaxMapSize[C](1<<lgMax, h, d)
		} else {
			s, err = fq.NewFrequencyItemsSketch[C](lgMax, lgCur, h, d)
		}
		return &items[C]{s, h, d}, err
	}
}

func parse64[C any](f func(uint64) C) func(b []byte, n int) []C {
	return func(b []byte, n int) []C {
		if len(b) != 8*n {
			return nil
		}
		r := make([]C, n)
		for i := range r {
			r[i] = f(binary.LittleEndian.Uint64(b[8*i:]))
		}
		return r
	}
}

func enc64[C any](f func(C) uint64) func([]C) []byte {
	return func(xs []C) []byte {
		var b []byte
		for _, x := range xs {
			b = binary.LittleEndian.AppendUint64(b, f(x))
		}
		return b
	}
}

var kLongs = kind[int64]{
	name: "longs",
	mk: func(lgMax, lgCur int, viaSize bool) (api[int64], error) {
		var s *fq.LongsSketch
		var err error
		if viaSize {
			s, err = fq.NewLongsSketchWithMaxMapSize(1 << lgMax)
		} else {
			s, err = fq.NewLongsSketch(lgMax, lgCur)
		}
		return &longs{s}, err
	},
	item:  func(u uint64) int64 { return int64(u) },
	hash:  func(x int64) uint64 { return fmix(uint64(x)) },
	parse: parse64(func(u uint64) int64 { return int64(u) }),
	enc:   enc64(func(x int64) uint64 { return uint64(x) }),
}

var kItemsLong = kind[int64]{
	name: "items[int64]", mk: mkItems[int64](common.ItemSketchLongHasher{}, common.ItemSketchLongSerDe{}),
	item:  func(u uint64) int64 { return int64(u) },
	hash:  func(x int64) uint64 { return m64(binary.LittleEndian.AppendUint64(nil, uint64(x))) },
	parse: kLongs.parse, enc: kLongs.enc,
}

// weakHasher is a legal but poor user-supplied hasher: nearly everything collides.
type weakHasher struct{}

func (weakHasher) Hash(x int64) uint64 { return uint64(x) % 5 * 0x1234567 }

var kItemsWeak = kind[int64]{
	name: "items[int64] with a weak hasher", mk: mkItems[int64](weakHasher{}, common.ItemSketchLongSerDe{}),
	item:  func(u uint64) int64 { return int64(u) },
	hash:  weakHasher{}.Hash,
	parse: kLongs.parse, enc: kLongs.enc,
}

var kItemsDouble = kind[float64]{
	name: "items[float64]", mk: mkItems[float64](common.ItemSketchDoubleHasher{}, common.ItemSketchDoubleSerDe{}),
	item: func(u uint64) float64 {
		f := math.Float64frombits(u)
		if u%7 == 3 {
			return math.Copysign(0, float64(int64(u%2))-0.5) // both zeros: one item
		}
		if f != f {
			return float64(int64(u)%1000000007) + 0.5
		}
		return f
	},
	hash: func(x float64) uint64 {
		if x == 0 {
			x = 0
		}
		return m64(binary.LittleEndian.AppendUint64(nil, math.Float64bits(x)))
	},
	parse: parse64(math.Float64frombits), enc: enc64(math.Float64bits),
}

var kItemsString = kind[string]{
	name: "items[string]", mk: mkItems[string](common.ItemSketchStringHasher{}, common.ItemSketchStringSerDe{}),
	item: func(u uint64) string {
		if u == 0 {
			return ""
		}
		s := strconv.FormatUint(u, 36)
		if u%5 == 0 {
			s = "длинный-ключ,\x00," + s
		}
		return s
	},
	hash: func(x string) uint64 { return m64([]byte(x)) },
	parse: func(b []byte, n int) []string {
		r := make([]string, 0, n)
		for i := 0; i < n; i++ {
			if len(b) < 4 {
				return nil
			}
			l := int(binary.LittleEndian.Uint32(b))
			if len(b) < 4+l {
				return nil
			}
			r = append(r, string(b[4:4+l]))
			b = b[4+l:]
		}
		if len(b) != 0 {
			return nil
		}
		return r
	},
	enc: func(xs []string) []byte {
		var b []byte
		for _, x := range xs {
			b = append(binary.LittleEndian.AppendUint32(b, uint32(len(x))), x...)
		}
		return b
	},
}

// sk is a sketch with its exact history.
type sk[C comparable] struct {
	a        api[C]
	k        *kind[C]
	lgMax    int
	truth    map[C]int64
	n        int64
	limit    int  // smallest purge sample limit of all contributors
	fits     bool // every contributor was exact and the distinct items always fit
	purgeAny bool
}

func capOf(lg int) int { return 3 << lg >> 2 }

func newSk[C comparable](t *rapid.T, k *kind[C], lo, hi int) *sk[C] {
	lg := vk.Int(t, "lgMax", lo, hi)
	x := &sk[C]{k: k, truth: map[C]int64{}, fits: true}
	lgCur := vk.Int(t, "lgCur", 0, max(lg, 3))
	via := vk.Chance(t, "viaSize", 1, 3)
	a, err := k.mk(lg, lgCur, via)
	if err != nil {
		t.Fatalf("%s lgMax=%d lgCur=%d: %v", k.name, lg, lgCur, err)
	}
	lg = max(lg, 3)
	x.a, x.lgMax, x.limit = a, lg, min(1024, capOf(lg))
	return x
}

func (x *sk[C]) upd(it C, w int64, plain bool) error {
	if err := x.a.upd(it, w, plain); err != nil {
		return err
	}
	if w == 0 {
		return nil
	}
	x.truth[it] += w
	x.n += w
	if len(x.truth) > capOf(x.lgMax) {
		x.fits = false
	}
	return nil
}

func (x *sk[C]) merge(o *sk[C]) error {
	if err := x.a.merge(o.a); err != nil {
		return err
	}
	for i, w := range o.truth {
		x.truth[i] += w
	}
	x.n += o.n
	x.limit = min(x.limit, o.limit)
	x.fits = x.fits && o.fits && len(x.truth) <= capOf(x.lgMax)
	return nil
}

func (x *sk[C]) reset() error {
	if err := x.a.reset(); err != nil {
		return err
	}
	x.truth, x.n, x.limit, x.fits = map[C]int64{}, 0, min(1024, capOf(x.lgMax)), true
	return nil
}

func (x *sk[C]) clone() *sk[C] {
	y := *x
	y.truth = map[C]int64{}
	for i, w := range x.truth {
		y.truth[i] = w
	}
	return &y
}

// check asserts every F01 guarantee against the exact counts.
func (x *sk[C]) check(t *rapid.T, hist string, pr *vk.PRNG) {
	a := x.a
	me := a.maxErr()
	if a.n() != x.n {
		t.Fatalf("%s: stream length %d, want %d", hist, a.n(), x.n)
	}
	if me < 0 {
		t.Fatalf("%s: maximum error %d", hist, me)
	}
	if a.empty() != (x.n == 0) {
		t.Fatalf("%s: empty=%v with stream length %d", hist, a.empty(), x.n)
	}
	if a.maxCap() != capOf(x.lgMax) {
		t.Fatalf("%s: maximum map capacity %d, want %d", hist, a.maxCap(), capOf(x.lgMax))
	}
	if a.active() > a.curCap() || a.curCap() > a.maxCap() || a.active() > len(x.truth) {
		t.Fatalf("%s: active=%d, current capacity %d, maximum %d, distinct %d", hist, a.active(), a.curCap(), a.maxCap(), len(x.truth))
	}
	one := func(it C, tr int64) (lb int64) {
		lb, e1 := a.lb(it)
		ub, e2 := a.ub(it)
		est, e3 := a.est(it)
		if e1 != nil || e2 != nil || e3 != nil {
			t.Fatalf("%s: item %v: %v %v %v", hist, it, e1, e2, e3)
		}
		if lb < 0 || lb > tr || ub < tr || ub-lb > me {
			t.Fatalf("%s: item %v true weight %d but bounds [%d,%d], max error %d (n=%d)", hist, it, tr, lb, ub, me, x.n)
		}
		if lb > 0 && (est < lb || est > ub) || est < 0 || est > ub {
			t.Fatalf("%s: item %v estimate %d outside [%d,%d]", hist, it, est, lb, ub)
		}
		return lb
	}
	var sum int64
	act := 0
	for it, tr := range x.truth {
		lb := one(it, tr)
		sum += lb
		if lb > 0 {
			act++
		}
	}
	if act != a.active() {
		t.Fatalf("%s: %d active items reported, %d items have a counter", hist, a.active(), act)
	}
	for i := 0; i < 12; i++ {
		it := x.k.item(pr.U64() >> 2)
		if _, ok := x.truth[it]; !ok {
			one(it, 0)
		}
	}
	if x.fits && me != 0 {
		t.Fatalf("%s: maximum error %d although all %d distinct items fit", hist, me, len(x.truth))
	}
	// every decrement by v removes v from at least need counters
	need := int64(x.limit - x.limit/2)
	if sum > x.n || me > (x.n-sum)/need {
		t.Fatalf("%s: maximum error %d, but stream length %d minus counters %d allows at most %d (lgMax=%d)", hist, me, x.n, sum, (x.n-sum)/need, x.lgMax)
	}
}

// stream draws a compact description of a weighted stream and expands it.
func stream[C comparable](t *rapid.T, k *kind[C], lgMax, maxN int, f func(it C, w int64) error) (string, error) {
	n := vk.Size(t, "n", 0, maxN)
	dom := vk.Size(t, "dom", 1, max(2, min(n*2, 6*capOf(lgMax))))
	seed := rapid.Uint32().Draw(t, "seed")
	km := vk.Int(t, "keys", 0, 4)
	dist := vk.Int(t, "dist", 0, 4)
	wm := vk.Int(t, "weights", 0, 5)
	desc := fmt.Sprintf("stream(n=%d dom=%d seed=%d keys=%d dist=%d w=%d)", n, dom, seed, km, dist, wm)
	pr := vk.NewPRNG(uint64(seed))
	keys := make([]C, dom)
	kp := vk.NewPRNG(uint64(seed % 4)) // few key universes, so that streams overlap
	win := uint64(1 + kp.Intn(4))
	for i := range keys {
		switch km {
		case 0:
			keys[i] = k.item(uint64(i))
		case 1:
			keys[i] = k.item(uint64(int64(-1 - i)))
		case 2:
			keys[i] = k.item(kp.U64())
		default: // home slots clustered at the end (and start) of the table
			for tries := 0; ; tries++ {
				it := k.item(kp.U64())
				mask := uint64(1)<<lgMax - 1
				if (k.hash(it)+win)&mask < 2*win+uint64(tries/64) {
					keys[i] = it
					break
				}
			}
			if i > 200 || lgMax > 10 && i > 30 { // keep runs bounded
				keys[i] = k.item(kp.U64())
			}
		}
	}
	weight := func(i int) int64 {
		switch wm {
		case 0, 1:
			return 1
		case 2:
			return int64(pr.Intn(4))
		case 3:
			return int64(1 + pr.Intn(1000))
		case 4:
			return 1 << pr.Intn(40)
		}
		return int64(i%7) + 1
	}
	for i := 0; i < n; i++ {
		var ix int
		switch dist {
		case 0:
			ix = pr.Intn(dom)
		case 1:
			ix = i % dom
		case 2: // zipf-like
			ix = int(math.Pow(float64(dom), pr.F64())) - 1
		case 3: // a few heavy items over all-distinct noise
			if pr.Intn(2) == 0 {
				ix = pr.Intn(min(dom, 3))
			} else {
				ix = i % dom
			}
		case 4: // bursts
			ix = (i / 5) % dom
		}
		if err := f(keys[ix], weight(i)); err != nil {
			return desc, fmt.Errorf("update %v: %w", keys[ix], err)
		}
	}
	return desc, nil
}

// image is the reference reading of a serialized sketch.
type image[C comparable] struct {
	empty        bool
	lgMax, lgCur int
	n, off       int64
	cnt          map[C]int64
	order        []C
}

func readImage[C comparable](k *kind[C], b []byte) (*image[C], error) {
	if len(b) < 8 {
		return nil, fmt.Errorf("%d bytes", len(b))
	}
	pl := int(b[0] & 0x3f)
	if b[1] != 1 || b[2] != 10 {
		return nil, fmt.Errorf("serial version %d family %d", b[1], b[2])
	}
	r := &image[C]{lgMax: int(b[3]), lgCur: int(b[4]), cnt: map[C]int64{}}
	r.empty = b[5]&5 != 0
	if r.empty {
		if pl != 1 || len(b) != 8 {
			return nil, fmt.Errorf("empty image with %d preamble longs and %d bytes", pl, len(b))
		}
		return r, nil
	}
	if pl != 4 || len(b) < 32 {
		return nil, fmt.Errorf("%d preamble longs and %d bytes", pl, len(b))
	}
	m := int(binary.LittleEndian.Uint32(b[8:]))
	r.n = int64(binary.LittleEndian.Uint64(b[16:]))
	r.off = int64(binary.LittleEndian.Uint64(b[24:]))
	if len(b) < 32+8*m {
		return nil, fmt.Errorf("%d items in %d bytes", m, len(b))
	}
	its := k.parse(b[32+8*m:], m)
	if len(its) != m {
		return nil, fmt.Errorf("items section does not hold %d items", m)
	}
	for i, it := range its {
		c := int64(binary.LittleEndian.Uint64(b[32+8*i:]))
		if _, dup := r.cnt[it]; dup || c <= 0 {
			return nil, fmt.Errorf("item %v count %d (duplicate %v)", it, c, dup)
		}
		r.cnt[it] = c
	}
	r.order = its
	return r, nil
}

func writeImage[C comparable](k *kind[C], r *image[C]) []byte {
	if r.empty {
		return []byte{1, 1, 10, byte(r.lgMax), byte(r.lgCur), 5, 0, 0}
	}
	b := []byte{4, 1, 10, byte(r.lgMax), byte(r.lgCur), 0, 0, 0}
	b = binary.LittleEndian.AppendUint64(b, uint64(len(r.order)))
	b = binary.LittleEndian.AppendUint64(b, uint64(r.n))
	b = binary.LittleEndian.AppendUint64(b, uint64(r.off))
	for _, it := range r.order {
		b = binary.LittleEndian.AppendUint64(b, uint64(r.cnt[it]))
	}
	return append(b, k.enc(r.order)...)
}

// state is everything observable about a sketch over the given items.
func state[C comparable](a api[C], truth map[C]int64) string {
	var ls []string
	for it := range truth {
		l, _ := a.lb(it)
		u, _ := a.ub(it)
		ls = append(ls, fmt.Sprintf("%v:%d:%d", it, l, u))
	}
	sort.Strings(ls)
	return fmt.Sprintf("n=%d err=%d act=%d cur=%d max=%d empty=%v %v", a.n(), a.maxErr(), a.active(), a.curCap(), a.maxCap(), a.empty(), ls)
}
