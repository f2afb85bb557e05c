package bloom_test

import (
	"encoding/binary"
	"fmt"
	"math"
	"math/bits"

	"github.com/apache/datasketches-go/filters"
	"pgregory.net/rapid"

	"verif/ref"
	"verif/vk"
)

// val is one value of a type the filter accepts, with the bytes it must hash as.
type val struct {
	kind int
	u    uint64
	s    string
	ai   []int64
	af   []float64
	raw  []byte
	noop bool
}

const (
	kU64 = iota
	kI64
	kStr
	kSlice
	kF64
	kAI
	kAF
	nKinds
)

func le(us ...uint64) (b []byte) {
	for _, u := range us {
		b = binary.LittleEndian.AppendUint64(b, u)
	}
	return
}

// mkVal expands (kind, code) into a value; few codes so that values recur across types.
func mkVal(kind int, code uint64) val {
	v := val{kind: kind}
	sp := []uint64{0, 1, math.MaxUint64, 1 << 63, math.Float64bits(1), math.Float64bits(math.Copysign(0, -1)), math.Float64bits(math.NaN()),
		0x7ff8000000000001, 0xfff8000000000000, 0x7ff0000000000001, math.Float64bits(math.Inf(1)), math.Float64bits(math.Inf(-1)), 42, 0x3132333435363738}
	if code < uint64(len(sp)) {
		v.u = sp[code]
	} else {
		v.u = code
		if code%3 == 0 {
			v.u = vk.Mix(code)
		}
	}
	switch kind {
	case kU64, kI64:
		v.raw = le(v.u)
	case kF64:
		f := math.Float64frombits(v.u)
		switch {
		case f == 0:
			v.raw = le(0)
		case f != f:
			v.raw = le(0x7ff8000000000000)
		default:
			v.raw = le(v.u)
		}
	case kStr, kSlice:
		switch code % 5 {
		case 0:
			v.s = ""
		case 1:
			v.s = string(le(v.u))
		case 2:
			v.s = fmt.Sprintf("ключ-%d", v.u)
		case 3: // lengths around the 4-, 8- and 32-byte blocks of XXHash64
			b := make([]byte, v.u%80)
			for i := range b {
				b[i] = byte(vk.Mix(v.u + uint64(i)))
			}
			v.s = string(b)
		default:
			v.s = fmt.Sprint(v.u)
		}
		v.raw = []byte(v.s)
		v.noop = kind == kStr && v.s == ""
	case kAI, kAF:
		n := int(code % 7)
		var us []uint64
		for i := 0; i < n; i++ {
			u := v.u + uint64(i)*0x10001
			us = append(us, u)
			v.ai = append(v.ai, int64(u))
			v.af = append(v.af, math.Float64frombits(u))
		}
		v.raw = le(us...)
		v.noop = n == 0
	}
	return v
}

func (v val) String() string {
	return fmt.Sprintf("kind %d % x", v.kind, v.raw)
}

func update(f filters.BloomFilter, v val) error {
	switch v.kind {
	case kU64:
		return f.UpdateUInt64(v.u)
	case kI64:
		return f.UpdateInt64(int64(v.u))
	case kStr:
		return f.UpdateString(v.s)
	case kSlice:
		return f.UpdateSlice([]byte(v.s))
	case kF64:
		return f.UpdateFloat64(math.Float64frombits(v.u))
	case kAI:
		return f.UpdateInt64Array(v.ai)
	}
	return f.UpdateFloat64Array(v.af)
}

func query(f filters.BloomFilter, v val) bool {
	switch v.kind {
	case kU64:
		return f.QueryUInt64(v.u)
	case kI64:
		return f.QueryInt64(int64(v.u))
	case kStr:
		return f.QueryString(v.s)
	case kSlice:
		return f.QuerySlice([]byte(v.s))
	case kF64:
		return f.QueryFloat64(math.Float64frombits(v.u))
	case kAI:
		return f.QueryInt64Array(v.ai)
	}
	return f.QueryFloat64Array(v.af)
}

func queryUpdate(f filters.BloomFilter, v val) bool {
	switch v.kind {
	case kU64:
		return f.QueryAndUpdateUInt64(v.u)
	case kI64:
		return f.QueryAndUpdateInt64(int64(v.u))
	case kStr:
		return f.QueryAndUpdateString(v.s)
	case kSlice:
		return f.QueryAndUpdateSlice([]byte(v.s))
	case kF64:
		return f.QueryAndUpdateFloat64(math.Float64frombits(v.u))
	case kAI:
		return f.QueryAndUpdateInt64Array(v.ai)
	}
	return f.QueryAndUpdateFloat64Array(v.af)
}

// bf is a filter with an exact model of its bits.
type bf struct {
	f     filters.BloomFilter
	bits  []uint64
	n     uint64 // number of bits if not modelled in bits
	h     int
	seed  uint64
	vals  []val
	exact bool // every value of vals must still be reported present
}

func newBf(t *rapid.T) *bf {
	x := &bf{h: vk.Pick(t, "h", 1, 2, 3, 4, 5, 7, 10, 16, 100, 300), seed: 9001, exact: true}
	nb := vk.Pick(t, "nb", 1, 63, 64, 65, 128, 200, 512, 1000, 5000, 40000)
	var opt []filters.BloomFilterOption
	if vk.Chance(t, "ws", 1, 2) {
		x.seed = vk.Pick[uint64](t, "seedp", 0, 1, 123, math.MaxUint64)
		opt = append(opt, filters.WithSeed(x.seed))
	}
	f, err := filters.NewBloomFilterBySize(uint64(nb), uint16(x.h), opt...)
	if err != nil {
		t.Fatalf("NewBloomFilterBySize(%d,%d): %v", nb, x.h, err)
	}
	x.f = f
	x.bits = make([]uint64, (nb+63)/64)
	return x
}

func (x *bf) desc() string { return fmt.Sprintf("(bits=%d h=%d seed=%d)", 64*len(x.bits), x.h, x.seed) }

func (x *bf) clone() *bf {
	y := *x
	y.bits = append([]uint64(nil), x.bits...)
	y.vals = append([]val(nil), x.vals...)
	return &y
}

func (x *bf) idx(v val, f func(i uint64)) {
	h0 := ref.XXH64(v.raw, x.seed)
	h1 := ref.XXH64(v.raw, h0)
	for i := 1; i <= x.h; i++ {
		f(((h0 + uint64(i)*h1) >> 1) % max(x.n, uint64(64*len(x.bits))))
	}
}

func (x *bf) has(v val) bool {
	if v.noop {
		return false
	}
	r := true
	x.idx(v, func(i uint64) { r = r && x.bits[i/64]>>(i%64)&1 == 1 })
	return r
}

func (x *bf) put(v val) {
	if v.noop {
		return
	}
	x.idx(v, func(i uint64) { x.bits[i/64] |= 1 << (i % 64) })
	x.vals = append(x.vals, v)
}

func (x *bf) count() (n int) {
	for _, w := range x.bits {
		n += bits.OnesCount64(w)
	}
	return
}

// image is the documented layout of the modelled bits.
func (x *bf) image() []byte {
	n := x.count()
	b := []byte{4, 1, 21, 0, byte(x.h), byte(x.h >> 8), 0, 0}
	if n == 0 {
		b[0], b[3] = 3, 4
	}
	b = append(b, le(x.seed, uint64(len(x.bits)))...)
	if n == 0 {
		return b
	}
	b = append(b, le(uint64(n))...)
	return append(b, le(x.bits...)...)
}

func (x *bf) check(t *rapid.T, hist string) {
	n := x.count()
	f := x.f
	if f.Capacity() != uint64(64*len(x.bits)) || int(f.NumHashes()) != x.h || f.Seed() != x.seed {
		t.Fatalf("%s: capacity %d hashes %d seed %d, want %s", hist, f.Capacity(), f.NumHashes(), f.Seed(), x.desc())
	}
	if f.BitsUsed() != uint64(n) || f.IsEmpty() != (n == 0) {
		t.Fatalf("%s: %d bits used (empty=%v), want %d", hist, f.BitsUsed(), f.IsEmpty(), n)
	}
	b, err := f.ToCompactSlice()
	if err != nil {
		t.Fatalf("%s: %v", hist, err)
	}
	if w := x.image(); string(b) != string(w) {
		t.Fatalf("%s: image\n% x\nwant\n% x", hist, b[:min(len(b), 120)], w[:min(len(w), 120)])
	}
	if x.exact {
		for _, v := range x.vals {
			if !query(f, v) {
				t.Fatalf("%s: false negative for %v", hist, v)
			}
		}
	}
	if f.BitsUsed() != uint64(n) {
		t.Fatalf("%s: queries changed the filter", hist)
	}
}

func (x *bf) fill(t *rapid.T) (string, error) {
	n, seed, dom := vk.Size(t, "n", 0, 60), rapid.Uint32().Draw(t, "fseed"), vk.Pick(t, "dom", 5, 15, 40, 1000)
	pr := vk.NewPRNG(uint64(seed))
	for i := 0; i < n; i++ {
		v := mkVal(pr.Intn(nKinds), uint64(pr.Intn(dom)))
		want := x.has(v)
		if got := query(x.f, v); got != want {
			return "", fmt.Errorf("query(%v) = %v, want %v", v, got, want)
		}
		switch pr.Intn(3) {
		case 0:
			if got := queryUpdate(x.f, v); got != want {
				return "", fmt.Errorf("query-and-update(%v) = %v, want %v", v, got, want)
			}
			x.put(v)
		case 1:
			if err := update(x.f, v); err != nil {
				return "", err
			}
			x.put(v)
		}
	}
	return fmt.Sprintf("fill(n=%d dom=%d seed=%d)", n, dom, seed), nil
}
