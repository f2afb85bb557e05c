package cpc_test

import (
	"bytes"
	"fmt"
	"math"
	"testing"

	"github.com/apache/datasketches-go/cpc"
	"pgregory.net/rapid"

	"verif/ref"
	"verif/vk"
)

// p03roundTrip: a sketch, its image, the sketch read back, and the wrapper agree.
func p03roundTrip(maxN, hiLgK int) func(t *rapid.T, c *vk.Case) {
	return func(t *rapid.T, c *vk.Case) {
		seed := drawSeed(t)
		lo := 4
		if maxN > 10000 {
			lo = 8
		}
		x := drawSource(t, seed, lo, hiLgK, maxN, 1)
		im, err := parse(x.img)
		if err != nil {
			t.Fatalf("%s: %v", x.desc, err)
		}
		if err := x.m.matches(im.rows); err != nil {
			t.Fatalf("%s: image: %v", x.desc, err)
		}
		in0 := bytes.Clone(x.img)
		s2, err := cpc.NewCpcSketchFromSlice(x.img, seed)
		if err != nil {
			t.Fatalf("%s: decode: %v", x.desc, err)
		}
		if _, b, err := verify(s2, x.m, x.merged); err != nil || !bytes.Equal(b, x.img) {
			t.Fatalf("%s: decoded sketch: %v (image equal %v)", x.desc, err, bytes.Equal(b, x.img))
		}
		if a, b := answers(x.s), answers(s2); a != b {
			t.Fatalf("%s: decoded sketch answers %v, want %v", x.desc, b, a)
		}
		w, err := cpc.NewCpcWrapperFromBytes(x.img)
		if err != nil {
			t.Fatalf("%s: wrapper: %v", x.desc, err)
		}
		if a, b := answers(x.s), answers(w); a != b || w.GetLgK() != x.s.GetLgK() || w.GetFamily() != 16 {
			t.Fatalf("%s: wrapper answers %v lgK %d, want %v lgK %d", x.desc, b, w.GetLgK(), a, x.s.GetLgK())
		}
		if seed == 9001 {
			if _, err := cpc.NewCpcSketchFromSliceWithDefault(x.img); err != nil {
				t.Fatalf("%s: decode with the default seed: %v", x.desc, err)
			}
		}
		// a foreign writer's image of the same content
		own := encode(im)
		s3, err := cpc.NewCpcSketchFromSlice(own, seed)
		if err != nil {
			t.Fatalf("%s: independently written image: %v", x.desc, err)
		}
		if _, b, err := verify(s3, x.m, x.merged); err != nil || !bytes.Equal(b, x.img) {
			t.Fatalf("%s: independently written image: %v (image equal %v)", x.desc, err, bytes.Equal(b, x.img))
		}
		// wrong seed and damaged headers
		bad := vk.Pick(t, "badseed", uint64(0), 1, 9001, 12345, 1<<63)
		if h := ref.SeedHash16(bad); h != ref.SeedHash16(seed) {
			if _, err := cpc.NewCpcSketchFromSlice(x.img, bad); err == nil {
				t.Fatalf("%s: decoding with seed %d: no error", x.desc, bad)
			}
		}
		for _, d := range []struct {
			at int
			v  byte
		}{{0, x.img[0] + 1}, {0, 0}, {1, 0}, {1, 2}, {2, 15}, {2, 0}, {3, 3}, {3, 27}, {3, 255}, {5, x.img[5] &^ 2}, {4, 64}} {
			b := bytes.Clone(x.img)
			b[d.at] = d.v
			if _, err := cpc.NewCpcSketchFromSlice(b, seed); err == nil {
				t.Fatalf("%s: byte %d set to %d: no error", x.desc, d.at, d.v)
			}
			if _, err := cpc.NewCpcWrapperFromBytes(b); err == nil {
				t.Fatalf("%s: byte %d set to %d: no error from the wrapper", x.desc, d.at, d.v)
			}
		}
		if n := len(x.img) - 1 - vk.Int(t, "cut", 0, len(x.img)-1); n >= 0 {
			var err error
			if p := vk.Catch(func() { _, err = cpc.NewCpcSketchFromSlice(x.img[:n], seed) }); p != nil || err == nil {
				t.Fatalf("%s: image cut to %d of %d bytes: %v, %v", x.desc, n, len(x.img), err, p)
			}
		}
		if !bytes.Equal(in0, x.img) {
			t.Fatalf("%s: decoding changed the bytes", x.desc)
		}
		// both go on alike
		for i := range x.img {
			x.img[i] ^= 0xa5
		}
		st := drawStream(t, x.m.lgK, maxN)
		st.expand(x.m.lgK, seed, func(i in) {
			if x.m.full() {
				return
			}
			x.m.feed(i)
			e1, e2 := i.apply(x.s), i.apply(s2)
			if e1 != nil || e2 != nil {
				t.Fatalf("%s: update: %v, %v", x.desc, e1, e2)
			}
		})
		b1, err1 := x.s.ToCompactSlice()
		b2, err2 := s2.ToCompactSlice()
		if err1 != nil || err2 != nil || !bytes.Equal(b1, b2) || answers(x.s) != answers(s2) {
			t.Fatalf("%s then %s: original and decoded sketch diverge (%v, %v)", x.desc, st, err1, err2)
		}
		if _, _, err := verify(s2, x.m, x.merged); err != nil {
			t.Fatalf("%s then %s: %v", x.desc, st, err)
		}
		f := flavor(im.lgK, im.n)
		c.Class(fmt.Sprintf("%s merged=%v", flavorName(f), x.merged))
		if f == fPinned || f == fSliding {
			c.Class(fmt.Sprintf("table %02d", phase(im.lgK, im.n)))
		}
		if f > fEmpty {
			c.NT(x.desc)
		}
		if c.WantSample() {
			c.Sample("%s: %d coupons, %d bytes", x.desc, im.n, len(in0))
		}
	}
}

// p03content: images made from drawn content, which no stream need produce soon.
func p03content(t *rapid.T, c *vk.Case) {
	lgK := vk.Int(t, "lgK", 4, 12)
	k := 1 << lgK
	seed := drawSeed(t)
	p := vk.NewPRNG(uint64(vk.Int(t, "content", 0, 1<<30)))
	m := newModel(lgK, seed)
	var n int
	switch vk.Int(t, "fill", 0, 3) {
	case 0:
		n = vk.Int(t, "n", 0, k)
	case 1:
		n = k + vk.Int(t, "n", 0, 4*k)
	default:
		n = vk.Int(t, "n", 0, 58*k)
	}
	noise := vk.Pick(t, "noise", 0, 1, 10, 300) // of 1000 coupons are anywhere
	if noise == 300 {
		n = min(n, 10*k)
	}
	for tries := 0; m.n < n && tries < 3*n+100; tries++ {
		if p.Intn(1000) < noise {
			m.offer(p.Intn(k), p.Intn(64))
		} else { // the expected shape: columns before the level are full
			m.offer(tries%k, min(63, tries/k+p.Intn(3)*p.Intn(2)))
		}
	}
	if m.full() {
		return
	}
	off := offset(lgK, m.n)
	im := &image{lgK: lgK, n: m.n, seedHash: ref.SeedHash16(seed), merged: vk.Chance(t, "merged", 1, 2), kxp: m.kxp(), hip: m.hip, rows: m.rows}
	for full := true; full && im.fiCol < off; {
		for _, w := range m.rows {
			full = full && w>>im.fiCol&1 == 1
		}
		if full {
			im.fiCol++
		}
	}
	if flavor(lgK, m.n) < fSliding {
		im.fiCol = 0
	}
	b := encode(im)
	s, err := cpc.NewCpcSketchFromSlice(b, seed)
	if err != nil {
		t.Fatalf("lgK=%d, %d coupons: %v", lgK, m.n, err)
	}
	g, b2, err := content(s)
	if err != nil || !bytes.Equal(b, b2) {
		t.Fatalf("lgK=%d, %d coupons: written again: %v (equal %v)", lgK, m.n, err, bytes.Equal(b, b2))
	}
	if err := m.matches(g.rows); err != nil {
		t.Fatalf("lgK=%d: %v", lgK, err)
	}
	rows, err := matrixOf(s, seed)
	if err != nil {
		t.Fatalf("lgK=%d: %v", lgK, err)
	}
	if err := m.matches(rows); err != nil {
		t.Fatalf("lgK=%d: union: %v", lgK, err)
	}
	w, err := cpc.NewCpcWrapperFromBytes(b)
	if err != nil || answers(w) != answers(s) {
		t.Fatalf("lgK=%d: wrapper %v", lgK, err)
	}
	if !im.merged && (s.GetEstimate() != m.hip || math.IsNaN(m.hip)) {
		t.Fatalf("lgK=%d: estimate %v, image says %v", lgK, s.GetEstimate(), m.hip)
	}
	f := flavor(lgK, m.n)
	c.Class(fmt.Sprintf("%s merged=%v", flavorName(f), im.merged))
	if f == fPinned || f == fSliding {
		c.Class(fmt.Sprintf("table %02d", phase(lgK, m.n)))
	}
	if f >= fHybrid {
		c.NT(lgK, m.n, noise)
	}
	if c.WantSample() {
		c.Sample("lgK=%d, %d coupons, noise %d/1000, window offset %d, %d bytes", lgK, m.n, noise, off, len(b))
	}
}

func TestP03(t *testing.T) {
	vk.Property(t, "P03", "round trip of a non-empty sketch; content: hybrid or later",
		vk.Sub{Name: "roundtrip", Quick: 40000, Thorough: 1000000, Fn: p03roundTrip(800, 9)},
		vk.Sub{Name: "long", Quick: 600, Thorough: 15000, Fn: p03roundTrip(50000, 15)},
		vk.Sub{Name: "content", Quick: 6000, Thorough: 150000, Fn: p03content})
}
