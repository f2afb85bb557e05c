package bloom_test

import (
	"bytes"
	"testing"

	"github.com/apache/datasketches-go/filters"
	"pgregory.net/rapid"

	"verif/vk"
)

func b02(t *rapid.T, c *vk.Case) {
	a := newBf(t)
	o := newBf(t)
	if vk.Chance(t, "compatible", 4, 5) {
		o = &bf{h: a.h, seed: a.seed, bits: make([]uint64, len(a.bits)), exact: true}
		var err error
		if o.f, err = filters.NewBloomFilterBySize(uint64(64*len(a.bits)-vk.Int(t, "less", 0, 63)), uint16(a.h), filters.WithSeed(a.seed)); err != nil {
			t.Fatal(err)
		}
	}
	pool := []*bf{a, o}
	hist := a.desc() + o.desc()
	ops, rejected := 0, 0
	for st := vk.Int(t, "steps", 2, 8); st > 0; st-- {
		i := vk.Int(t, "i", 0, 1)
		x := pool[i]
		who := string("ab"[i])
		switch op := vk.Int(t, "op", 0, 7); op {
		case 0, 1, 2:
			d, err := x.fill(t)
			hist += " " + who + "." + d
			if err != nil {
				t.Fatalf("%s: %v", hist, err)
			}
		case 3, 4:
			j := 1 - i
			if vk.Chance(t, "self", 1, 8) {
				j = i
			}
			y := pool[j]
			ok := x.h == y.h && x.seed == y.seed && len(x.bits) == len(y.bits)
			if x.f.IsCompatible(y.f) != ok {
				t.Fatalf("%s: IsCompatible(%s,%s)=%v", hist, x.desc(), y.desc(), !ok)
			}
			var err error
			if op == 3 {
				hist += " " + who + ".union"
				err = x.f.Union(y.f)
			} else {
				hist += " " + who + ".intersect"
				err = x.f.Intersect(y.f)
			}
			if (err == nil) != ok {
				t.Fatalf("%s: err=%v", hist, err)
			}
			if ok {
				ops++
				for w := range x.bits {
					if op == 3 {
						x.bits[w] |= y.bits[w]
					} else {
						x.bits[w] &= y.bits[w]
					}
				}
				if op == 3 {
					x.vals = append(x.vals, y.vals...)
					x.exact = x.exact && y.exact
				} else if i != j {
					x.exact = false
				}
			} else {
				rejected++
			}
			y.check(t, hist+" (operand)")
		case 5:
			hist += " " + who + ".invert"
			if err := x.f.Invert(); err != nil {
				t.Fatalf("%s: %v", hist, err)
			}
			for w := range x.bits {
				x.bits[w] = ^x.bits[w]
			}
			x.exact = false
			ops++
		case 6:
			hist += " " + who + ".trip"
			b, err := x.f.ToCompactSlice()
			if err != nil {
				t.Fatalf("%s: %v", hist, err)
			}
			in := bytes.Clone(b)
			// a dirty count in the image means: recount
			if b[0] == 4 && vk.Chance(t, "dirty", 1, 3) {
				copy(in[24:32], bytes.Repeat([]byte{0xff}, 8))
			}
			f, err := filters.NewBloomFilterFromSlice(in)
			if err != nil {
				t.Fatalf("%s: %v", hist, err)
			}
			for i := range in {
				in[i] = 0xa5
			}
			old := x.f
			x.f = f
			x.check(t, hist)
			// the copy is independent of the original
			_ = old.Invert()
			for _, bad := range [][]byte{b[:len(b)-1], b[:vk.Int(t, "cut", 0, len(b)-1)], append(bytes.Clone(b), 0)} {
				if _, err := filters.NewBloomFilterFromSlice(bad); err == nil {
					t.Fatalf("%s: image of %d bytes accepted at %d bytes", hist, len(b), len(bad))
				}
			}
			h := bytes.Clone(b)
			h[vk.Int(t, "hdr", 0, 2)] ^= byte(vk.Int(t, "flip", 1, 255))
			if _, err := filters.NewBloomFilterFromSlice(h); err == nil {
				t.Fatalf("%s: bad header % x accepted", hist, h[:3])
			}
		case 7:
			if vk.Chance(t, "rst", 1, 3) {
				hist += " " + who + ".reset"
				_ = x.f.Reset()
				clear(x.bits)
				x.vals, x.exact = nil, true
			}
		}
		pool[0].check(t, hist)
		pool[1].check(t, hist)
	}
	if ops > 0 && a.count()+o.count() > 0 {
		c.NT(hist)
	}
	if rejected > 0 {
		c.Class("incompatible operands")
	}
	c.Sample("%s", hist)
}

type foreign struct{ filters.BloomFilter }

func b02foreign(t *rapid.T, c *vk.Case) {
	a := newBf(t)
	if _, err := a.fill(t); err != nil {
		t.Fatal(err)
	}
	if a.f.Union(foreign{a.f}) == nil || a.f.Intersect(foreign{a.f}) == nil {
		t.Fatalf("%s: a foreign implementation was accepted", a.desc())
	}
	a.check(t, a.desc())
	c.NT(a.desc(), len(a.vals))
}

func TestB02(t *testing.T) {
	vk.Property(t, "B02", "a case is non-trivial if a union, intersection or inversion was applied and some bit is set",
		vk.Sub{Name: "ops", Quick: 60000, Thorough: 1500000, Fn: b02},
		vk.Sub{Name: "foreign", Quick: 400, Thorough: 4000, Fn: b02foreign},
	)
}
