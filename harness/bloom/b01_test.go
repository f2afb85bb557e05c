package bloom_test

import (
	"fmt"
	"math"
	"math/bits"
	"testing"

	"github.com/apache/datasketches-go/filters"
	"pgregory.net/rapid"

	"verif/vk"
)

func b01(t *rapid.T, c *vk.Case) {
	x := newBf(t)
	hist := x.desc()
	for st := vk.Int(t, "steps", 1, 6); st > 0; st-- {
		switch vk.Int(t, "op", 0, 7) {
		case 0:
			hist += " reset"
			if err := x.f.Reset(); err != nil {
				t.Fatalf("%s: %v", hist, err)
			}
			clear(x.bits)
			x.vals = nil
		case 1:
			hist += " trip"
			b, err := x.f.ToCompactSlice()
			if err != nil {
				t.Fatalf("%s: %v", hist, err)
			}
			if x.f, err = filters.NewBloomFilterFromSlice(b); err != nil {
				t.Fatalf("%s: %v", hist, err)
			}
		default:
			d, err := x.fill(t)
			hist += " " + d
			if err != nil {
				t.Fatalf("%s: %v", hist, err)
			}
		}
		x.check(t, hist)
	}
	if len(x.vals) > 0 {
		c.NT(hist)
	}
	if n := x.count(); n == 64*len(x.bits) {
		c.Class("saturated")
	} else if n > 0 {
		c.Class("partly filled")
	}
	c.Sample("%s: %d bits set of %d", hist, x.count(), 64*len(x.bits))
}

// b01accuracy: filters sized by accuracy keep the promised false positive probability.
func b01accuracy(t *rapid.T, c *vk.Case) {
	n := 200 + vk.Int(t, "n", 0, 3000)
	p := math.Pow(10, -4*float64(vk.Int(t, "p", 1, 1000))/1000)
	if vk.Chance(t, "half", 1, 8) {
		p = 0.45 + 0.5*float64(vk.Int(t, "ph", 0, 99))/100
	}
	if vk.Chance(t, "tiny", 1, 8) {
		p = math.Pow(10, -vk.Pick(t, "exp", 5.0, 7, 9.5, 12, 16, 20, 50, 77, 300))
	}
	seed := uint64(rapid.Uint32().Draw(t, "seed"))
	f, err := filters.NewBloomFilterByAccuracy(uint64(n), p, filters.WithSeed(seed))
	if err != nil {
		t.Fatalf("ByAccuracy(%d,%v): %v", n, p, err)
	}
	m, k := float64(f.Capacity()), float64(f.NumHashes())
	ideal := -float64(n) * math.Log(p) / (math.Ln2 * math.Ln2)
	if m < ideal*(1-1e-12) || m > ideal*(1+1e-12)+65 || f.Capacity()%64 != 0 || f.Seed() != seed {
		t.Fatalf("ByAccuracy(%d,%v): capacity %v, the requested probability needs %v bits", n, p, m, ideal)
	}
	th := math.Pow(1-math.Exp(-k*float64(n)/m), k)
	if th > 1.13*p {
		t.Fatalf("ByAccuracy(%d,%v): %v bits and %v hashes give a false positive probability of %v", n, p, m, k, th)
	}
	base := uint64(rapid.Uint32().Draw(t, "base")) << 20
	for i := 0; i < n; i++ {
		if err := f.UpdateUInt64(base + uint64(i)); err != nil {
			t.Fatal(err)
		}
	}
	for i := 0; i < n; i++ {
		if !f.QueryUInt64(base + uint64(i)) {
			t.Fatalf("false negative for %d", base+uint64(i))
		}
	}
	T := 20000
	fp := 0
	for i := 0; i < T; i++ {
		if f.QueryUInt64(base + uint64(n+1+i)) {
			fp++
		}
	}
	exp := th * 1.3 * float64(T)
	if float64(fp) > exp+8*math.Sqrt(exp)+12 {
		t.Fatalf("ByAccuracy(%d,%v) seed=%d: %d false positives among %d absent values, %v expected (theory %v)", n, p, seed, fp, T, th*float64(T), th)
	}
	// sizing helpers
	if nb := filters.SuggestNumFilterBits(uint64(n), p); float64(nb) < ideal*(1-1e-12) || float64(nb) > ideal*(1+1e-12)+1.001 {
		t.Fatalf("SuggestNumFilterBits(%d,%v)=%d, want %v", n, p, nb, ideal)
	}
	if h := filters.SuggestNumHashes(p); math.Pow(0.5, float64(h)) > p*(1+1e-9) || h > 1 && math.Pow(0.5, float64(h-1)) < p*(1-1e-9) {
		t.Fatalf("SuggestNumHashes(%v)=%d", p, h)
	}
	if h := filters.SuggestNumHashesFromSize(uint64(n), uint64(m)); float64(h) < m/float64(n)*math.Ln2-1e-9 || float64(h) > m/float64(n)*math.Ln2+1+1e-9 {
		t.Fatalf("SuggestNumHashesFromSize(%d,%v)=%d", n, m, h)
	}
	c.NT(n, p, seed)
	c.Sample("n=%d p=%.5f: %v bits %v hashes, %d/%d false positives (theory %.1f)", n, p, m, k, fp, T, th*float64(T))
}

func b01params(t *rapid.T, c *vk.Case) {
	nb, h := uint64(vk.Pick(t, "nb", 0, 1, 64, 1<<40-1, 1<<62)), uint16(vk.Pick(t, "h", 0, 1, 3, 65535))
	if nb >= 1<<38 || nb == 0 || h == 0 {
		if _, err := filters.NewBloomFilterBySize(nb, h); err == nil {
			t.Fatalf("NewBloomFilterBySize(%d,%d) accepted", nb, h)
		}
	} else {
		f, err := filters.NewBloomFilterBySize(nb, h)
		if err != nil {
			t.Fatalf("NewBloomFilterBySize(%d,%d): %v", nb, h, err)
		}
		v := mkVal(vk.Int(t, "k", 0, nKinds-1), uint64(vk.Int(t, "c", 1, 30)))
		if f.IsEmpty() && !v.noop {
			if queryUpdate(f, v) || !query(f, v) {
				t.Fatalf("%v in a fresh filter of %d bits, %d hashes", v, nb, h)
			}
		}
		c.NT(nb, h, v)
	}
	for _, p := range []float64{0, 1, -1, 2} {
		if _, err := filters.NewBloomFilterByAccuracy(10, p); err == nil {
			t.Fatalf("false positive probability %v accepted", p)
		}
	}
	if _, err := filters.NewBloomFilterByAccuracy(0, 0.1); err == nil {
		t.Fatalf("zero items accepted")
	}
	c.Sample("bits=%d hashes=%d", nb, h)
	_ = fmt.Sprint
}

// b01giant: filters of more than 2^32 bits; few of them are set, so the model is a set of positions.
func b01giant(t *rapid.T, c *vk.Case) {
	nb := uint64(1)<<vk.Int(t, "lg", 31, 32) + 64*uint64(vk.Int(t, "more", 0, 1<<22))
	h := vk.Int(t, "h", 1, 8)
	seed := rapid.Uint64().Draw(t, "seed")
	f, err := filters.NewBloomFilterBySize(nb, uint16(h), filters.WithSeed(seed))
	if err != nil {
		t.Fatalf("NewBloomFilterBySize(%d,%d): %v", nb, h, err)
	}
	desc := fmt.Sprintf("bits=%d h=%d seed=%d", nb, h, seed)
	if f.Capacity() != nb {
		t.Fatalf("%s: capacity %d", desc, f.Capacity())
	}
	set := map[uint64]bool{}
	high := 0
	pr := vk.NewPRNG(uint64(rapid.Uint32().Draw(t, "fill")))
	probe := func(v val) bool {
		x := &bf{h: h, seed: seed, n: nb}
		r := !v.noop
		x.idx(v, func(i uint64) { r = r && set[i] })
		return r
	}
	put := func(v val) {
		if v.noop {
			return
		}
		x := &bf{h: h, seed: seed, n: nb}
		x.idx(v, func(i uint64) {
			set[i] = true
			if i >= 1<<31 {
				high++
			}
		})
	}
	dom := vk.Pick(t, "dom", 50, 100000)
	for i := 0; i < 3000; i++ {
		v := mkVal(pr.Intn(nKinds), uint64(pr.Intn(dom)))
		want := probe(v)
		// a query after an update counts all bits anew, so these come later
		switch pr.Intn(3) {
		case 0:
			if got := queryUpdate(f, v); got != want {
				t.Fatalf("%s: query-and-update(%v) = %v, want %v", desc, v, got, want)
			}
			put(v)
		case 1:
			if err := update(f, v); err != nil {
				t.Fatal(err)
			}
			put(v)
		}
	}
	for i := 0; i < 3000; i++ {
		v := mkVal(pr.Intn(nKinds), uint64(pr.Intn(dom)))
		if got, want := query(f, v), probe(v); got != want {
			t.Fatalf("%s: query(%v) = %v, want %v", desc, v, got, want)
		}
	}
	if f.BitsUsed() != uint64(len(set)) {
		t.Fatalf("%s: %d bits used, want %d", desc, f.BitsUsed(), len(set))
	}
	c.NT(desc)
	c.Class(fmt.Sprintf("positions beyond 2^31: %v", high > 0))
	if nb < 1<<32 && vk.Chance(t, "image", 1, 3) {
		b, err := f.ToCompactSlice()
		if err != nil || uint64(len(b)) != 32+nb/8 {
			t.Fatalf("%s: image of %d bytes, %v", desc, len(b), err)
		}
		n := 0
		for i, x := range b[32:] {
			for x != 0 {
				j := bits.TrailingZeros8(x)
				if !set[uint64(i)*8+uint64(j)] {
					t.Fatalf("%s: bit %d of the image is set", desc, i*8+j)
				}
				n++
				x &= x - 1
			}
		}
		if n != len(set) {
			t.Fatalf("%s: %d bits set in the image, want %d", desc, n, len(set))
		}
		g, err := filters.NewBloomFilterFromSlice(b)
		if err != nil || g.BitsUsed() != uint64(n) || g.Capacity() != nb {
			t.Fatalf("%s: decoded: %v", desc, err)
		}
	}
	c.Sample("%s: %d bits set", desc, len(set))
}

func TestB01(t *testing.T) {
	vk.Property(t, "B01", "a case is non-trivial if values were inserted (accuracy cases always)",
		vk.Sub{Name: "bits", Quick: 60000, Thorough: 1500000, Fn: b01},
		vk.Sub{Name: "accuracy", Quick: 2400, Thorough: 60000, Fn: b01accuracy},
		vk.Sub{Name: "giant", Quick: 8, Thorough: 64, Fn: b01giant},
		vk.Sub{Name: "params", Quick: 800, Thorough: 4000, Fn: b01params},
	)
}
