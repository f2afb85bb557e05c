package cpc_test

import (
	"bytes"
	"fmt"
	"testing"

	"github.com/apache/datasketches-go/cpc"
	"pgregory.net/rapid"

	"verif/vk"
)

func p01history(maxN, bigLgK int) func(t *rapid.T, c *vk.Case) {
	return func(t *rapid.T, c *vk.Case) {
		lgK, seed := drawLgK(t, bigLgK), drawSeed(t)
		if maxN > 10000 {
			lgK = vk.Int(t, "biglgK", 8, bigLgK)
		}
		m := newModel(lgK, seed)
		s := mustSketch(t, lgK, seed)
		var all []in
		desc := fmt.Sprintf("lgK=%d seed=%d", lgK, seed)
		keep := vk.Chance(t, "permute", 1, 3)
		step := vk.Int(t, "look", 0, 4) == 4 && lgK < 7
		seen := [5]bool{}
		phases := vk.Int(t, "phases", 1, 4)
		for ph := 0; ph < phases; ph++ {
			st := drawStream(t, lgK, maxN)
			desc += " " + st.String()
			i := 0
			st.expand(lgK, seed, func(x in) {
				if m.full() {
					return
				}
				m.feed(x)
				if err := x.apply(s); err != nil {
					t.Fatalf("%s: update #%d: %v", desc, i, err)
				}
				seen[flavor(lgK, m.n)] = true
				if keep {
					all = append(all, x)
				}
				i++
				if step && i < 300 {
					if _, _, err := verify(s, m, false); err != nil {
						t.Fatalf("%s after #%d: %v", desc, i, err)
					}
				}
			})
			im, b, err := verify(s, m, false)
			if err != nil {
				t.Fatalf("%s: %v", desc, err)
			}
			if vk.Chance(t, "copy", 1, 3) {
				p01copy(t, s, m, b, desc)
			}
			_ = im
		}
		if keep { // the content does not depend on order or repetition
			p := vk.NewPRNG(uint64(vk.Int(t, "perm", 0, 1<<20)))
			s2 := mustSketch(t, lgK, seed)
			order := make([]int, len(all))
			for i := range order {
				order[i] = i
			}
			for i := range order {
				j := i + p.Intn(len(order)-i)
				order[i], order[j] = order[j], order[i]
			}
			m2 := newModel(lgK, seed)
			for _, j := range order {
				for n := 1 + p.Intn(2); n > 0; n-- {
					m2.feed(all[j])
					if err := all[j].apply(s2); err != nil {
						t.Fatalf("%s permuted: %v", desc, err)
					}
				}
			}
			if _, _, err := verify(s2, m2, false); err != nil {
				t.Fatalf("%s permuted: %v", desc, err)
			}
			if err := m.matches(m2.rows); err != nil {
				t.Fatalf("model: %v", err)
			}
		}
		for f, ok := range seen {
			if ok {
				c.Class(flavorName(f))
			}
		}
		c.Class(fmt.Sprintf("offset %02d", offset(lgK, m.n)/4*4))
		if flavor(lgK, m.n) >= fHybrid {
			c.NT(desc)
		}
		if c.WantSample() {
			c.Sample("%s: %d coupons, %s, window offset %d", desc, m.n, flavorName(flavor(lgK, m.n)), offset(lgK, m.n))
		}
	}
}

// p01copy checks that a copy is equal and independent.
func p01copy(t *rapid.T, s *cpc.CpcSketch, m *model, b []byte, desc string) {
	cp, err := s.Copy()
	if err != nil {
		t.Fatalf("%s: Copy: %v", desc, err)
	}
	cb, err := cp.ToCompactSlice()
	if err != nil || !bytes.Equal(cb, b) {
		t.Fatalf("%s: the copy's image differs (%v)", desc, err)
	}
	if answers(cp) != answers(s) {
		t.Fatalf("%s: the copy answers %v, the sketch %v", desc, answers(cp), answers(s))
	}
	st := drawStream(t, m.lgK, 200)
	m2 := m.clone()
	st.expand(m.lgK, m.seed, func(x in) {
		if m2.full() {
			return
		}
		m2.feed(x)
		if err := x.apply(cp); err != nil {
			t.Fatalf("%s: updating the copy: %v", desc, err)
		}
	})
	if _, _, err := verify(cp, m2, false); err != nil {
		t.Fatalf("%s: copy updated with %s: %v", desc, st, err)
	}
	if b2, err := s.ToCompactSlice(); err != nil || !bytes.Equal(b, b2) {
		t.Fatalf("%s: updating the copy changed the sketch (%v)", desc, err)
	}
}

// the largest sketches, while sparse
func p01large(t *rapid.T, c *vk.Case) {
	lgK := vk.Int(t, "lgK", 17, 26)
	n := vk.Int(t, "n", 0, 3000)
	sd := uint64(vk.Int(t, "sd", 0, 1<<30))
	p := vk.NewPRNG(sd)
	s := mustSketch(t, lgK, 9001)
	type rc struct{ r, c int }
	want := map[rc]bool{}
	for i := 0; i < n; i++ {
		row := p.Intn(1 << lgK)
		if p.Intn(8) == 0 {
			row = 1<<lgK - 1 - p.Intn(2)
		}
		col := p.Intn(63)
		x := withCoupon(row, col, lgK, 9001, p)
		want[rc{row, col}] = true
		if err := x.apply(s); err != nil {
			t.Fatalf("lgK=%d: update: %v", lgK, err)
		}
	}
	b, err := s.ToCompactSlice()
	if err != nil {
		t.Fatalf("ToCompactSlice: %v", err)
	}
	if n > 0 {
		if len(b) < 32 || b[0] != 8 || int(b[8])|int(b[9])<<8 != len(want) {
			t.Fatalf("lgK=%d: %d coupons, header % x", lgK, len(want), b[:min(16, len(b))])
		}
		pairs, err := readPairs(b[32:], lgK, len(want))
		if err != nil {
			t.Fatalf("lgK=%d: %v", lgK, err)
		}
		for _, q := range pairs {
			if !want[rc{q >> 6, q & 63}] {
				t.Fatalf("lgK=%d: unexpected coupon (%d,%d)", lgK, q>>6, q&63)
			}
			delete(want, rc{q >> 6, q & 63})
		}
		if len(want) != 0 {
			t.Fatalf("lgK=%d: %d coupons missing", lgK, len(want))
		}
	}
	s2, err := cpc.NewCpcSketchFromSlice(b, 9001)
	if err != nil {
		t.Fatalf("lgK=%d: decode: %v", lgK, err)
	}
	if b2, err := s2.ToCompactSlice(); err != nil || !bytes.Equal(b, b2) {
		t.Fatalf("lgK=%d: image not stable (%v)", lgK, err)
	}
	if n > 100 {
		c.NT(lgK, n, sd)
	}
	if c.WantSample() {
		c.Sample("lgK=%d, %d coupons", lgK, n)
	}
}

func TestP01(t *testing.T) {
	vk.Property(t, "P01", "reached the windowed phases (hybrid, pinned or sliding); for large lgK: over 100 sparse coupons",
		vk.Sub{Name: "history", Quick: 30000, Thorough: 500000, Fn: p01history(2000, 11)},
		vk.Sub{Name: "long", Quick: 500, Thorough: 12000, Fn: p01history(120000, 16)},
		vk.Sub{Name: "large", Quick: 800, Thorough: 10000, Fn: p01large})
}
