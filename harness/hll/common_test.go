package hll_test

import (
	"encoding/binary"
	"fmt"
	"math"
	"math/bits"
	"slices"

	"github.com/apache/datasketches-go/hll"
	"pgregory.net/rapid"

	"verif/ref"
	"verif/vk"
)

const seed = 9001

var types = []hll.TgtHllType{hll.TgtHllTypeHll4, hll.TgtHllTypeHll6, hll.TgtHllTypeHll8}

func typeName(t hll.TgtHllType) string { return [...]string{"HLL4", "HLL6", "HLL8"}[int(t)] }

const (
	mList = 0
	mSet  = 1
	mHLL  = 2
)

// ---------------------------------------------------------------- inputs

// couponOf is the documented coupon of an input: 26 address bits and a 6-bit value.
func couponOf(b []byte) uint32 {
	lo, hi := ref.Murmur128(b, seed)
	return uint32(min(bits.LeadingZeros64(hi), 62)+1)<<26 | uint32(lo&(1<<26-1))
}

type in struct {
	kind int // 0 uint64, 1 int64, 2 slice, 3 string
	u    uint64
	b    []byte
}

type updater interface {
	UpdateUInt64(uint64) error
	UpdateInt64(int64) error
	UpdateSlice([]byte) error
	UpdateString(string) error
}

func (x in) apply(s updater) error {
	switch x.kind {
	case 0:
		return s.UpdateUInt64(x.u)
	case 1:
		return s.UpdateInt64(int64(x.u))
	case 2:
		return s.UpdateSlice(x.b)
	}
	return s.UpdateString(string(x.b))
}

func (x in) coupon() (uint32, bool) {
	if x.kind < 2 {
		return couponOf(ref.LE64(x.u)), true
	}
	if len(x.b) == 0 {
		return 0, false
	}
	return couponOf(x.b), true
}

// withCoupon returns an input with the given coupon (inverting the hash).
func withCoupon(cp uint32, p *vk.PRNG) in {
	v := int(cp >> 26)
	hi := p.U64()
	switch {
	case v == 63:
		hi &= 3
		if p.Intn(2) == 0 {
			hi = hi & 1
		}
	default:
		hi = hi>>(v-1) | 1<<(64-v)
	}
	lo := p.U64()&^(1<<26-1) | uint64(cp&(1<<26-1))
	return in{kind: 2 + p.Intn(2), b: ref.Preimage16(lo, hi, seed)}
}

// stream is a compact description of an input stream.
type stream struct {
	Kind string
	N    int
	Seed uint64
	A, B int
}

func (s stream) String() string {
	return fmt.Sprintf("%s(n=%d,a=%d,b=%d,seed=%d)", s.Kind, s.N, s.A, s.B, s.Seed)
}

func drawStream(t *rapid.T, maxN int) stream {
	s := stream{
		Kind: vk.Pick(t, "kind", "ints", "ints", "mixed", "uniform", "skew", "fill", "rise", "dups", "high", "floor"),
		Seed: uint64(vk.Int(t, "seed", 0, 1<<24)),
		A:    vk.Int(t, "a", 0, 62),
		B:    vk.Int(t, "b", 0, 40),
	}
	switch vk.Int(t, "size", 0, 5) {
	case 0:
		s.N = vk.Int(t, "n", 0, 12)
	case 5:
		s.N = vk.Int(t, "n", 8, 100)
	case 1, 2:
		s.N = vk.Int(t, "n", 0, min(maxN, 400))
	default:
		s.N = vk.Int(t, "n", 0, maxN)
	}
	return s
}

// expand calls f for each input of the stream. lgK shapes the crafted kinds.
func (s stream) expand(lgK int, f func(in)) {
	p := vk.NewPRNG(s.Seed)
	k := 1 << lgK
	slot := func() uint32 { return uint32(p.U64() & (1<<26 - 1)) }
	geom := func() int {
		v := bits.LeadingZeros64(p.U64()|1) + 1
		return v
	}
	var pool []uint32
	for i := 0; i < s.N; i++ {
		switch s.Kind {
		case "ints":
			f(in{kind: int(s.Seed & 1), u: s.Seed<<20 + uint64(i)})
		case "mixed":
			r := p.U64()
			n := 0
			switch r >> 60 {
			case 0, 1, 2, 3:
				f(in{kind: 0, u: r % 5000})
				continue
			case 4, 5, 6:
				f(in{kind: 1, u: -(r % 3000)})
				continue
			case 7:
				n = 0
			default:
				n = int(r>>50) % 40
			}
			b := make([]byte, n)
			for j := range b {
				b[j] = byte(p.U64() % 3)
			}
			f(in{kind: 2 + int(r>>55&1), b: b})
		case "uniform": // any value equally likely
			f(withCoupon(uint32(1+p.Intn(63))<<26|slot(), p))
		case "skew": // a floor under the usual distribution: curMin rises far
			f(withCoupon(uint32(min(63, geom()+s.A/2))<<26|slot(), p))
		case "fill": // slots in order, values near a moving level, some far above
			v := 1 + (i/k)*(1+s.B%3)
			if p.Intn(1+s.A%7) == 0 {
				v += 10 + p.Intn(8)
			}
			f(withCoupon(uint32(min(63, v))<<26|uint32((i%k)|p.Intn(1<<(26-lgK))<<lgK), p))
		case "rise": // few slots, rising values
			sl := uint32(p.Intn(1 + s.B%5))
			f(withCoupon(uint32(min(63, 1+i*63/max(1, s.N)))<<26|sl, p))
		case "dups":
			if len(pool) == 0 || p.Intn(4) == 0 && len(pool) < 60 {
				pool = append(pool, uint32(min(63, geom()))<<26|slot())
			}
			f(withCoupon(pool[p.Intn(len(pool))], p))
		case "high": // many HLL4 exceptions while some slots stay empty
			f(withCoupon(uint32(15+p.Intn(40))<<26|uint32(p.Intn(max(1, k-1-s.B%3)))|uint32(p.Intn(1<<(26-lgK)))<<lgK, p))
		case "floor": // all slots at one value, then exceptions around the 15 boundary
			v := 1 + s.A%30
			if i >= k {
				v = min(63, v+13+p.Intn(4))
			}
			f(withCoupon(uint32(v)<<26|uint32(i%k), p))
		}
	}
}

// ---------------------------------------------------------------- model

// model is what the inputs determine: the distinct coupons while few, then the
// largest value seen per slot.
type model struct {
	lgK    int
	mode   int
	set    map[uint32]struct{} // coupon modes
	slots  []uint8             // HLL mode
	nz     int                 // non-zero slots
	x0, x1 float64             // sum of 2^-value, split at 32 so that both sums are exact
	hip    float64             // historic inverse probability estimate, valid in input order
}

func newModel(lgK int) *model { return &model{lgK: lgK, set: map[uint32]struct{}{}} }

func (m *model) clone() *model {
	c := *m
	c.slots = slices.Clone(m.slots)
	c.set = map[uint32]struct{}{}
	for k := range m.set {
		c.set[k] = struct{}{}
	}
	return &c
}

func (m *model) toHLL() {
	m.mode = mHLL
	m.slots = make([]uint8, 1<<m.lgK)
	m.x0, m.x1, m.nz = float64(int(1)<<m.lgK), 0, 0
	h := couponEstimate(len(m.set))
	for cp := range m.set {
		m.offer(cp)
	}
	m.hip = h
	m.set = nil
}

func (m *model) offer(cp uint32) {
	if m.mode != mHLL {
		if _, ok := m.set[cp]; ok {
			return
		}
		m.set[cp] = struct{}{}
		n := len(m.set)
		switch {
		case m.mode == mList && n >= 8 && m.lgK < 8:
			m.toHLL()
		case m.mode == mList && n >= 8:
			m.mode = mSet
		case m.mode == mSet && 4*n > 3<<(m.lgK-3):
			m.toHLL()
		}
		return
	}
	i := int(cp) & (1<<m.lgK - 1)
	old, v := m.slots[i], uint8(cp>>26)
	if v <= old {
		return
	}
	m.hip += float64(int(1)<<m.lgK) / (m.x0 + m.x1)
	if old < 32 {
		m.x0 -= math.Ldexp(1, -int(old))
	} else {
		m.x1 -= math.Ldexp(1, -int(old))
	}
	if v < 32 {
		m.x0 += math.Ldexp(1, -int(v))
	} else {
		m.x1 += math.Ldexp(1, -int(v))
	}
	if old == 0 {
		m.nz++
	}
	m.slots[i] = v
}

func (m *model) feed(x in) {
	if cp, ok := x.coupon(); ok {
		m.offer(cp)
	}
}

// estimate is the model's in-order estimate.
func (m *model) estimate() float64 {
	if m.mode != mHLL {
		return couponEstimate(len(m.set))
	}
	return m.hip
}

func (m *model) composite() float64 {
	if m.mode != mHLL {
		return couponEstimate(len(m.set))
	}
	return compositeEstimate(m.lgK, m.x0+m.x1, 1<<m.lgK-m.nz)
}

func (m *model) bounds(est float64, ooo bool, sd int) (lb, ub float64) {
	if m.mode != mHLL {
		n := float64(len(m.set))
		e := cubic(refCouponX, refCouponY, n)
		rse := 0.409 / (1 << 13)
		return max(n, e/(1+float64(sd)*rse)), max(n, e/(1-float64(sd)*rse))
	}
	return max(est/(1+refRelErr(false, ooo, m.lgK, sd)), float64(m.nz)), est / (1 - refRelErr(true, ooo, m.lgK, sd))
}

// ---------------------------------------------------------------- reference estimators

func lagrange4(x, y []float64, at float64) float64 {
	s := 0.0
	for i := 0; i < 4; i++ {
		t := y[i]
		for j := 0; j < 4; j++ {
			if j != i {
				t *= (at - x[j]) / (x[i] - x[j])
			}
		}
		s += t
	}
	return s
}

func cubic(x, y []float64, at float64) float64 {
	n := len(x)
	if at >= x[n-1] {
		return y[n-1]
	}
	i := 0
	for i+1 < n-1 && x[i+1] <= at {
		i++
	}
	o := i - 1
	if i == 0 {
		o = 0
	} else if i == n-2 {
		o = n - 4
	}
	return lagrange4(x[o:o+4], y[o:o+4], at)
}

func couponEstimate(n int) float64 {
	return max(float64(n), cubic(refCouponX, refCouponY, float64(n)))
}

func harmonic(n int) float64 {
	if n < 200 {
		s := 0.0
		for i := n; i >= 1; i-- {
			s += 1 / float64(i)
		}
		return s
	}
	x := float64(n)
	return math.Log(x) + 0.57721566490153286060651209 + 1/(2*x) - 1/(12*x*x) + 1/(120*x*x*x*x)
}

func compositeEstimate(lgK int, sum float64, zeros int) float64 {
	k := float64(int(1) << lgK)
	cf := 0.7213 / (1 + 1.079/k)
	switch lgK {
	case 4:
		cf = 0.673
	case 5:
		cf = 0.697
	case 6:
		cf = 0.709
	}
	raw := cf * k * k / sum
	xs, stride := refXArrs[lgK-4], refYStrides[lgK-4]
	n := len(xs)
	if raw < xs[0] {
		return 0
	}
	if raw > xs[n-1] {
		return raw * stride * float64(n-1) / xs[n-1]
	}
	ys := make([]float64, n)
	for i := range ys {
		ys[i] = stride * float64(i)
	}
	adj := cubic(xs, ys, raw)
	if adj > 3*k {
		return adj
	}
	var lin float64
	if zeros == 0 {
		lin = k * math.Log(2*k)
	} else {
		lin = k * (harmonic(int(k)) - harmonic(zeros))
	}
	cross := 0.64
	if lgK == 4 {
		cross = 0.718
	} else if lgK == 5 {
		cross = 0.672
	}
	if (adj+lin)/2 > cross*k {
		return adj
	}
	return lin
}

func refRelErr(upper, ooo bool, lgK, sd int) float64 {
	if lgK > 12 {
		f := math.Sqrt(math.Ln2)
		if ooo {
			f = math.Sqrt(3*math.Ln2 - 1)
		}
		return float64(sd) * f / math.Sqrt(float64(int(1)<<lgK))
	}
	i := 3*(lgK-4) + sd - 1
	switch {
	case !ooo && !upper:
		return math.Abs(refHipLB[i])
	case !ooo:
		return math.Abs(refHipUB[i])
	case !upper:
		return math.Abs(refNonHipLB[i])
	}
	return math.Abs(refNonHipUB[i])
}

func near(a, b float64) bool { return math.Abs(a-b) <= 1e-9*max(1, math.Abs(a), math.Abs(b)) }

// ---------------------------------------------------------------- images

type image struct {
	lgK, typ, mode int
	empty, compact bool
	ooo, rebuild   bool
	coupons        []uint32
	slots          []uint8
	hip, kxq       float64
	curMin, atMin  int
	aux            int
}

// parse reads a sketch image by the documented layout, strictly.
func parse(b []byte) (*image, error) {
	if len(b) < 8 {
		return nil, fmt.Errorf("short image")
	}
	u32 := func(o int) int { return int(binary.LittleEndian.Uint32(b[o:])) }
	f64 := func(o int) float64 { return math.Float64frombits(binary.LittleEndian.Uint64(b[o:])) }
	m := &image{lgK: int(b[3]), mode: int(b[7] & 3), typ: int(b[7] >> 2 & 3)}
	m.empty, m.compact, m.ooo, m.rebuild = b[5]&4 != 0, b[5]&8 != 0, b[5]&16 != 0, b[5]&32 != 0
	if b[1] != 1 || b[2] != 7 {
		return nil, fmt.Errorf("serVer %d family %d", b[1], b[2])
	}
	if want := []byte{2, 3, 10, 0}[m.mode]; b[0] != want {
		return nil, fmt.Errorf("preamble ints %d in mode %d", b[0], m.mode)
	}
	if m.mode != mHLL {
		off, cnt, lg := 8, int(b[6]), int(b[4])
		if m.mode == mSet {
			off, cnt = 12, u32(8)
		}
		n := cnt
		if !m.compact {
			n = 1 << lg
		}
		if len(b) != off+4*n {
			return nil, fmt.Errorf("%d bytes for %d coupons (compact=%v lgArr=%d)", len(b), cnt, m.compact, lg)
		}
		seen := map[uint32]bool{}
		for i := 0; i < n; i++ {
			cp := uint32(u32(off + 4*i))
			if cp == 0 {
				continue
			}
			if cp>>26 == 0 || seen[cp] {
				return nil, fmt.Errorf("coupon %#x repeated or without value", cp)
			}
			seen[cp] = true
			m.coupons = append(m.coupons, cp)
		}
		if len(m.coupons) != cnt || m.empty != (cnt == 0) {
			return nil, fmt.Errorf("count %d (empty=%v) but %d coupons", cnt, m.empty, len(m.coupons))
		}
		return m, nil
	}
	if len(b) < 40 {
		return nil, fmt.Errorf("short HLL image")
	}
	m.hip, m.kxq, m.curMin, m.atMin, m.aux = f64(8), f64(16)+f64(24), int(b[6]), u32(32), u32(36)
	k := 1 << m.lgK
	m.slots = make([]uint8, k)
	size := 40
	switch m.typ {
	case 0:
		size += k / 2
		if len(b) < size {
			return nil, fmt.Errorf("short HLL4 image")
		}
		ex := map[int]bool{}
		for i := range m.slots {
			v := b[40+i/2] >> (4 * (i & 1)) & 15
			if v == 15 {
				ex[i] = true
			}
			m.slots[i] = v + uint8(m.curMin)
		}
		n := m.aux
		if !m.compact {
			if m.aux > 0 {
				n = 1 << b[4]
			} else {
				n = (len(b) - size) / 4
			}
		}
		if len(b) != size+4*n {
			return nil, fmt.Errorf("HLL4: %d bytes, want %d (aux=%d compact=%v lgArr=%d)", len(b), size+4*n, m.aux, m.compact, b[4])
		}
		got := 0
		for j := 0; j < n; j++ {
			pr := u32(size + 4*j)
			if pr == 0 {
				continue
			}
			got++
			i, v := pr&(1<<26-1)&(k-1), pr>>26
			if !ex[i] || v < m.curMin+15 {
				return nil, fmt.Errorf("HLL4: exception slot %d value %d with curMin %d, marked=%v", i, v, m.curMin, ex[i])
			}
			delete(ex, i)
			m.slots[i] = uint8(v)
		}
		if got != m.aux || len(ex) != 0 {
			return nil, fmt.Errorf("HLL4: %d exceptions stored, count %d, %d slots unexplained", got, m.aux, len(ex))
		}
	case 1:
		size += k*3/4 + 1
		if len(b) != size {
			return nil, fmt.Errorf("HLL6: %d bytes, want %d", len(b), size)
		}
		for i := range m.slots {
			bit := 6 * i
			w := uint16(b[40+bit/8]) | uint16(b[41+bit/8])<<8
			m.slots[i] = uint8(w >> (bit % 8) & 63)
		}
	case 2:
		if len(b) != size+k {
			return nil, fmt.Errorf("HLL8: %d bytes, want %d", len(b), size+k)
		}
		copy(m.slots, b[40:])
	default:
		return nil, fmt.Errorf("type %d", m.typ)
	}
	// derived fields
	lo, atLo, zeros, sum := uint8(64), 0, 0, kxqOf(m.slots)
	for _, v := range m.slots {
		if v < lo {
			lo, atLo = v, 0
		}
		if v == lo {
			atLo++
		}
		if v == 0 {
			zeros++
		}
	}
	if m.rebuild {
		return m, nil
	}
	if !near(sum, m.kxq) {
		return nil, fmt.Errorf("kxq %v, slots sum to %v", m.kxq, sum)
	}
	if m.typ == 0 && (m.curMin != int(lo) || m.atMin != atLo) {
		return nil, fmt.Errorf("curMin %d x%d, slots say %d x%d", m.curMin, m.atMin, lo, atLo)
	}
	if m.typ != 0 && !(m.curMin == 0 && m.atMin == zeros || m.curMin > 0 && m.curMin <= int(lo)) { // a positive minimum only says that no slot is empty
		return nil, fmt.Errorf("curMin %d x%d, slots say %d x%d", m.curMin, m.atMin, lo, atLo)
	}
	return m, nil
}

func kxqOf(slots []uint8) float64 {
	var a, b float64
	for _, v := range slots {
		if v < 32 {
			a += math.Ldexp(1, -int(v))
		} else {
			b += math.Ldexp(1, -int(v))
		}
	}
	return a + b
}

// slicer is any object with images.
type slicer interface {
	ToCompactSlice() ([]byte, error)
	ToUpdatableSlice() ([]byte, error)
}

// content reads back both images of s and checks that they agree.
func content(s slicer) (*image, error) {
	var im [2]*image
	for i, f := range []func() ([]byte, error){s.ToCompactSlice, s.ToUpdatableSlice} {
		name := []string{"compact", "updatable"}[i]
		b, err := f()
		if err != nil {
			return nil, fmt.Errorf("%s image: %v", name, err)
		}
		if im[i], err = parse(b); err != nil {
			return nil, fmt.Errorf("%s image: %v", name, err)
		}
		slices.Sort(im[i].coupons)
	}
	a, b := im[0], im[1]
	if a.lgK != b.lgK || a.typ != b.typ || a.mode != b.mode || a.ooo != b.ooo || a.hip != b.hip || a.aux != b.aux ||
		!slices.Equal(a.coupons, b.coupons) || !slices.Equal(a.slots, b.slots) {
		return nil, fmt.Errorf("compact and updatable images differ: %s vs %s", a.brief(), b.brief())
	}
	return a, nil
}

func (m *image) brief() string {
	return fmt.Sprintf("{lgK=%d %s mode=%d coupons=%d curMin=%d x%d aux=%d ooo=%v hip=%v}", m.lgK,
		typeName(hll.TgtHllType(m.typ)), m.mode, len(m.coupons), m.curMin, m.atMin, m.aux, m.ooo, m.hip)
}

// matches compares an image's content with the model.
func (m *image) matches(w *model) error {
	if m.lgK != w.lgK {
		return fmt.Errorf("lgK %d, want %d", m.lgK, w.lgK)
	}
	if m.mode != w.mode {
		return fmt.Errorf("mode %d, want %d (coupons %d)", m.mode, w.mode, len(w.set))
	}
	if w.mode != mHLL {
		if len(m.coupons) != len(w.set) {
			return fmt.Errorf("%d coupons, want %d", len(m.coupons), len(w.set))
		}
		for _, cp := range m.coupons {
			if _, ok := w.set[cp]; !ok {
				return fmt.Errorf("holds coupon %#x, which no input produced", cp)
			}
		}
		return nil
	}
	for i, v := range m.slots {
		if v != w.slots[i] {
			return fmt.Errorf("slot %d holds %d, want %d", i, v, w.slots[i])
		}
	}
	return nil
}

type estimator interface {
	GetEstimate() (float64, error)
	GetCompositeEstimate() (float64, error)
	GetLowerBound(int) (float64, error)
	GetUpperBound(int) (float64, error)
	IsEmpty() bool
	GetLgConfigK() int
}

// answers are all numeric answers of an object.
func answers(s estimator) ([]float64, error) {
	var out []float64
	add := func(v float64, err error) error { out = append(out, v); return err }
	if err := add(s.GetEstimate()); err != nil {
		return nil, err
	}
	if err := add(s.GetCompositeEstimate()); err != nil {
		return nil, err
	}
	for sd := 1; sd <= 3; sd++ {
		if err := add(s.GetLowerBound(sd)); err != nil {
			return nil, err
		}
		if err := add(s.GetUpperBound(sd)); err != nil {
			return nil, err
		}
	}
	return out, nil
}

func sameAnswers(a, b []float64) bool {
	for i := range a {
		if !near(a[i], b[i]) {
			return false
		}
	}
	return len(a) == len(b)
}
