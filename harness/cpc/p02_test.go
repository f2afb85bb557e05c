package cpc_test

import (
	"bytes"
	"fmt"
	"math"
	"testing"

	"github.com/apache/datasketches-go/cpc"
	"pgregory.net/rapid"

	"verif/vk"
)

type source struct {
	s      *cpc.CpcSketch
	m      *model
	merged bool
	img    []byte
	desc   string
}

// drawSource builds a sketch: updated, decoded, copied, or itself a union result.
func drawSource(t *rapid.T, seed uint64, loLgK, hiLgK, maxN, depth int) *source {
	lgK := vk.Int(t, "srcLgK", loLgK, hiLgK)
	how := vk.Pick(t, "how", "updated", "updated", "updated", "decoded", "copied", "result")
	x := &source{desc: fmt.Sprintf("%s lgK=%d", how, lgK)}
	if how == "result" && depth > 0 {
		u, err := cpc.NewCpcUnionSketch(lgK, seed)
		if err != nil {
			t.Fatalf("NewCpcUnionSketch: %v", err)
		}
		um := newModel(lgK, seed)
		for i := vk.Int(t, "parts", 0, 2); i > 0; i-- {
			y := drawSource(t, seed, loLgK, hiLgK, maxN, depth-1)
			if !um.union(y.m, false) {
				continue
			}
			if err := u.Update(y.s); err != nil {
				t.Fatalf("union of %s: %v", y.desc, err)
			}
			um.union(y.m, true)
			x.desc += " {" + y.desc + "}"
		}
		if x.s, err = u.GetResult(); err != nil {
			t.Fatalf("%s: GetResult: %v", x.desc, err)
		}
		x.m, x.merged = um, true
	} else {
		x.s, x.m = mustSketch(t, lgK, seed), newModel(lgK, seed)
	}
	if !x.merged || vk.Chance(t, "more", 1, 4) {
		st := drawStream(t, x.m.lgK, maxN)
		x.desc += " " + st.String()
		st.expand(x.m.lgK, seed, func(i in) {
			if x.m.full() {
				return
			}
			x.m.feed(i)
			if err := i.apply(x.s); err != nil {
				t.Fatalf("%s: update: %v", x.desc, err)
			}
		})
	}
	var err error
	if x.img, err = x.s.ToCompactSlice(); err != nil {
		t.Fatalf("%s: ToCompactSlice: %v", x.desc, err)
	}
	switch how {
	case "decoded":
		if x.s, err = cpc.NewCpcSketchFromSlice(x.img, seed); err != nil {
			t.Fatalf("%s: decode: %v", x.desc, err)
		}
	case "copied":
		if x.s, err = x.s.Copy(); err != nil {
			t.Fatalf("%s: Copy: %v", x.desc, err)
		}
	}
	return x
}

// union ors o into m, at the smaller lgK. It reports whether the result is within
// what a sketch can hold, and changes nothing otherwise or unless commit is set.
func (m *model) union(o *model, commit bool) bool {
	if o.n == 0 {
		return true
	}
	r := newModel(min(m.lgK, o.lgK), m.seed)
	if m.n == 0 { // an empty union still has its own lgK
		r.fold(o.rows)
	} else {
		r.fold(m.rows)
		r.fold(o.rows)
	}
	if r.full() {
		return false
	}
	if commit {
		*m = *r
	}
	return true
}

func p02check(u *cpc.CpcUnion, m *model) ([]byte, *cpc.CpcSketch, error) {
	r, err := u.GetResult()
	if err != nil {
		return nil, nil, fmt.Errorf("GetResult: %w", err)
	}
	_, b, err := verify(r, m, true)
	if err != nil {
		return nil, nil, fmt.Errorf("result: %w", err)
	}
	rows, err := u.GetBitMatrix()
	if err != nil {
		return nil, nil, fmt.Errorf("GetBitMatrix: %w", err)
	}
	if err := m.matches(rows); err != nil {
		return nil, nil, fmt.Errorf("GetBitMatrix: %w", err)
	}
	if e, w := r.GetEstimate(), iconExact(m.lgK, m.n); math.Abs(e-w) > w*max(3e-6, 1/(60*math.Ldexp(1, m.lgK))) {
		return nil, nil, fmt.Errorf("estimate %v for %d coupons, want %v", e, m.n, w)
	}
	return b, r, nil
}

func p02history(maxN, hiLgK int) func(t *rapid.T, c *vk.Case) {
	return func(t *rapid.T, c *vk.Case) {
		seed := drawSeed(t)
		lgK := vk.Int(t, "lgK", 4, hiLgK)
		base := vk.Int(t, "base", 4, hiLgK)
		u, err := cpc.NewCpcUnionSketch(lgK, seed)
		if err != nil {
			t.Fatalf("NewCpcUnionSketch: %v", err)
		}
		m := newModel(lgK, seed)
		desc := fmt.Sprintf("lgK=%d seed=%d", lgK, seed)
		var srcs []*source
		mixed, deep := false, false
		for i := vk.Int(t, "sources", 1, 5); i > 0; i-- {
			x := drawSource(t, seed, base, min(hiLgK, base+vk.Pick(t, "spread", 0, 1, 3)), maxN, 1)
			if !m.union(x.m, false) {
				continue
			}
			if vk.Chance(t, "badseed", 1, 6) {
				y := mustSketch(t, vk.Int(t, "badLgK", 4, hiLgK), seed+1)
				y.UpdateInt64(7)
				if err := u.Update(y); err == nil {
					t.Fatalf("%s: a sketch with another seed was accepted", desc)
				}
			}
			before := m.lgK
			desc += " <" + x.desc + ">"
			if err := u.Update(x.s); err != nil {
				t.Fatalf("%s: Update: %v", desc, err)
			}
			m.union(x.m, true)
			mixed = mixed || x.m.n > 0 && x.m.lgK != before
			deep = deep || flavor(m.lgK, m.n) >= fHybrid
			srcs = append(srcs, x)
			if b, err := x.s.ToCompactSlice(); err != nil || !bytes.Equal(b, x.img) {
				t.Fatalf("%s: the union changed its source (%v)", desc, err)
			}
			c.Class(flavorName(flavor(x.m.lgK, x.m.n)) + " into " + flavorName(flavor(m.lgK, m.n)))
			if !vk.Chance(t, "look", 1, 2) {
				continue
			}
			b, r, err := p02check(&u, m)
			if err != nil {
				t.Fatalf("%s: %v", desc, err)
			}
			if vk.Chance(t, "disturb", 1, 2) { // results and sources are independent of the union
				for v := int64(0); v < 40 && !m.full() && !x.m.full(); v++ {
					if err := r.UpdateInt64(v); err != nil {
						t.Fatalf("%s: updating the result: %v", desc, err)
					}
					if err := x.s.UpdateInt64(-v); err != nil {
						t.Fatalf("%s: updating the source: %v", desc, err)
					}
				}
				x.s = nil
				b2, _, err := p02check(&u, m)
				if err != nil || !bytes.Equal(b, b2) {
					t.Fatalf("%s: the union changed with a result or source (%v)", desc, err)
				}
			}
		}
		b, r, err := p02check(&u, m)
		if err != nil {
			t.Fatalf("%s: %v", desc, err)
		}
		// another order of the same sources
		u2, _ := cpc.NewCpcUnionSketch(lgK, seed)
		for i := range srcs {
			j := i + vk.Int(t, "order", 0, len(srcs)-1-i)
			srcs[i], srcs[j] = srcs[j], srcs[i]
			s, err := cpc.NewCpcSketchFromSlice(srcs[i].img, seed)
			if err != nil {
				t.Fatalf("%s: decode: %v", desc, err)
			}
			if err := u2.Update(s); err != nil {
				t.Fatalf("%s: Update: %v", desc, err)
			}
		}
		_, r2, err := p02check(&u2, m)
		if err != nil {
			t.Fatalf("%s in another order: %v", desc, err)
		}
		if answers(r) != answers(r2) {
			t.Fatalf("%s: in another order %v, first %v", desc, answers(r2), answers(r))
		}
		// the result goes on as a sketch
		if vk.Chance(t, "continue", 1, 3) {
			st := drawStream(t, m.lgK, maxN)
			m3 := m.clone()
			st.expand(m3.lgK, seed, func(i in) {
				if m3.full() {
					return
				}
				m3.feed(i)
				if err := i.apply(r); err != nil {
					t.Fatalf("%s: updating the result: %v", desc, err)
				}
			})
			if _, _, err := verify(r, m3, true); err != nil {
				t.Fatalf("%s: result updated with %s: %v", desc, st, err)
			}
		}
		_ = b
		if len(srcs) > 1 && deep {
			c.NT(desc)
		}
		if mixed {
			c.Class("lgK changed")
		}
		if c.WantSample() {
			c.Sample("%s: %d coupons at lgK %d", desc, m.n, m.lgK)
		}
	}
}

func TestP02(t *testing.T) {
	vk.Property(t, "P02", "two or more sources, the union having left the sparse phase",
		vk.Sub{Name: "history", Quick: 40000, Thorough: 1000000, Fn: p02history(600, 9)},
		vk.Sub{Name: "long", Quick: 500, Thorough: 15000, Fn: p02history(40000, 14)})
}
