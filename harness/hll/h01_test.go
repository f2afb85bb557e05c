package hll_test

import (
	"fmt"
	"testing"

	"github.com/apache/datasketches-go/hll"
	"pgregory.net/rapid"

	"verif/vk"
)

func drawLgK(t *rapid.T, big int) int {
	switch vk.Int(t, "lgkind", 0, 9) {
	case 0:
		return vk.Int(t, "lgK", 4, big)
	case 1, 2, 3:
		return vk.Int(t, "lgK", 4, 7)
	default:
		return vk.Int(t, "lgK", 4, 11)
	}
}

func mustSketch(t *rapid.T, lgK int, typ hll.TgtHllType) hll.HllSketch {
	s, err := hll.NewHllSketch(lgK, typ)
	if err != nil {
		t.Fatalf("NewHllSketch(%d,%s): %v", lgK, typeName(typ), err)
	}
	return s
}

// verify checks a sketch fed in input order against the model.
func verify(s hll.HllSketch, m *model, typ hll.TgtHllType, ooo bool) error {
	im, err := content(s)
	if err != nil {
		return err
	}
	if err := im.matches(m); err != nil {
		return err
	}
	if im.typ != int(typ) || s.GetTgtHllType() != typ || s.GetLgConfigK() != m.lgK || int(s.GetCurMode()) != m.mode {
		return fmt.Errorf("type %d/%d lgK %d mode %d", im.typ, s.GetTgtHllType(), s.GetLgConfigK(), s.GetCurMode())
	}
	if s.IsEmpty() != (m.mode == mList && len(m.set) == 0) {
		return fmt.Errorf("IsEmpty()=%v", s.IsEmpty())
	}
	if im.ooo != ooo {
		return fmt.Errorf("out-of-order flag %v, want %v", im.ooo, ooo)
	}
	b, err := s.ToUpdatableSlice()
	if err != nil || len(b) != s.GetUpdatableSerializationBytes() {
		return fmt.Errorf("GetUpdatableSerializationBytes()=%d, image has %d (%v)", s.GetUpdatableSerializationBytes(), len(b), err)
	}
	return verifyEstimates(s, m, ooo)
}

func verifyEstimates(s estimator, m *model, ooo bool) error {
	got, err := answers(s)
	if err != nil {
		return err
	}
	want := m.estimate()
	if ooo {
		want = m.composite()
	}
	if !near(got[0], want) {
		return fmt.Errorf("estimate %v, want %v (mode %d ooo=%v)", got[0], want, m.mode, ooo)
	}
	if !near(got[1], m.composite()) {
		return fmt.Errorf("composite estimate %v, want %v (mode %d)", got[1], m.composite(), m.mode)
	}
	for sd := 1; sd <= 3; sd++ {
		lb, ub := m.bounds(want, ooo, sd)
		if !near(got[2*sd], lb) || !near(got[2*sd+1], ub) {
			return fmt.Errorf("bounds(%d) [%v,%v], want [%v,%v] (estimate %v)", sd, got[2*sd], got[2*sd+1], lb, ub, want)
		}
	}
	return nil
}

func h01history(maxN, bigLgK int) func(t *rapid.T, c *vk.Case) {
	return func(t *rapid.T, c *vk.Case) {
		lgK := drawLgK(t, bigLgK)
		if maxN > 10000 && vk.Chance(t, "big", 1, 2) {
			lgK = vk.Int(t, "biglgK", 11, bigLgK)
		}
		m := newModel(lgK)
		var sk [3]hll.HllSketch
		for i, ty := range types {
			sk[i] = mustSketch(t, lgK, ty)
		}
		desc := fmt.Sprintf("lgK=%d", lgK)
		phases := vk.Int(t, "phases", 1, 4)
		var aux int
		for ph := 0; ph < phases; ph++ {
			if ph > 0 && vk.Chance(t, "reset", 1, 8) {
				desc += " reset"
				m = newModel(lgK)
				for i := range sk {
					if err := sk[i].Reset(); err != nil {
						t.Fatalf("Reset: %v", err)
					}
				}
			}
			st := drawStream(t, maxN)
			desc += " " + st.String()
			n := 0
			stop := vk.Int(t, "look", 0, 3)
			st.expand(lgK, func(x in) {
				m.feed(x)
				for i := range sk {
					if err := x.apply(sk[i]); err != nil {
						t.Fatalf("%s %s: update #%d: %v", typeName(types[i]), desc, n, err)
					}
				}
				n++
				if stop == 3 && n < 200 && lgK < 9 {
					for i := range sk {
						if err := verify(sk[i], m, types[i], false); err != nil {
							t.Fatalf("%s %s after #%d: %v", typeName(types[i]), desc, n, err)
						}
					}
				}
			})
			for i := range sk {
				if err := verify(sk[i], m, types[i], false); err != nil {
					t.Fatalf("%s %s: %v", typeName(types[i]), desc, err)
				}
			}
			// conversions and copies, from every type to every type
			from := vk.Int(t, "from", 0, 2)
			for to := range types {
				cp, err := sk[from].CopyAs(types[to])
				if err != nil {
					t.Fatalf("%s: %s to %s: %v", desc, typeName(types[from]), typeName(types[to]), err)
				}
				if err := verify(cp, m, types[to], false); err != nil {
					t.Fatalf("%s: %s copied as %s: %v", desc, typeName(types[from]), typeName(types[to]), err)
				}
				if to == from {
					if cp, err = sk[from].Copy(); err != nil {
						t.Fatalf("%s: Copy: %v", desc, err)
					}
				}
				// a copy lives on by itself
				m2 := m.clone()
				ex := stream{Kind: vk.Pick(t, "ek", "ints", "skew", "floor", "high"), N: vk.Int(t, "en", 1, min(maxN, 300)), Seed: uint64(vk.Int(t, "es", 0, 999)), A: 9, B: 5}
				ex.expand(lgK, func(x in) {
					m2.feed(x)
					if err := x.apply(cp); err != nil {
						t.Fatalf("%s: update of a copy: %v", desc, err)
					}
				})
				if err := verify(cp, m2, types[to], false); err != nil {
					t.Fatalf("%s: %s copied as %s then %s: %v", desc, typeName(types[from]), typeName(types[to]), ex, err)
				}
				if err := verify(sk[from], m, types[from], false); err != nil {
					t.Fatalf("%s: original after updates of its copy: %v", desc, err)
				}
			}
		}
		if m.mode == mHLL {
			if im, err := content(sk[0]); err == nil {
				aux = im.aux
				c.Class(fmt.Sprintf("curMin>0=%v aux>0=%v", im.curMin > 0, aux > 0))
			}
			c.NT(desc)
		}
		c.Class(fmt.Sprintf("mode=%d", m.mode))
		if c.WantSample() {
			c.Sample("%s -> mode %d aux %d est %.1f", desc, m.mode, aux, m.estimate())
		}
	}
}

// any order and repetition of the same inputs gives the same content
func h01order(t *rapid.T, c *vk.Case) {
	lgK := drawLgK(t, 14)
	st := drawStream(t, 3000)
	var ins []in
	st.expand(lgK, func(x in) { ins = append(ins, x) })
	ty := vk.Pick(t, "type", types...)
	a := mustSketch(t, lgK, ty)
	m := newModel(lgK)
	for _, x := range ins {
		m.feed(x)
		if err := x.apply(a); err != nil {
			t.Fatalf("update: %v", err)
		}
	}
	b := mustSketch(t, lgK, vk.Pick(t, "type2", types...))
	p := vk.NewPRNG(uint64(vk.Int(t, "perm", 0, 1<<20)))
	mode := vk.Pick(t, "order", "reverse", "shuffle", "repeat")
	ord := append([]in(nil), ins...)
	switch mode {
	case "reverse":
		for i, j := 0, len(ord)-1; i < j; i, j = i+1, j-1 {
			ord[i], ord[j] = ord[j], ord[i]
		}
	default:
		for i := len(ord) - 1; i > 0; i-- {
			j := p.Intn(i + 1)
			ord[i], ord[j] = ord[j], ord[i]
		}
	}
	if mode == "repeat" {
		ord = append(ord, ins...)
	}
	for _, x := range ord {
		if err := x.apply(b); err != nil {
			t.Fatalf("update: %v", err)
		}
	}
	desc := fmt.Sprintf("lgK=%d %s %s", lgK, st, mode)
	ib, err := content(b)
	if err == nil {
		err = ib.matches(m)
	}
	if err != nil {
		t.Fatalf("%s: %v", desc, err)
	}
	ca, e1 := a.GetCompositeEstimate()
	cb, e2 := b.GetCompositeEstimate()
	if e1 != nil || e2 != nil || !near(ca, cb) || !near(ca, m.composite()) {
		t.Fatalf("%s: composite estimates %v and %v (%v %v), want %v", desc, ca, cb, e1, e2, m.composite())
	}
	if m.mode == mHLL {
		c.NT(desc)
	}
	c.Class(mode)
	if c.WantSample() {
		c.Sample("%s composite %.2f", desc, ca)
	}
}

func TestH01(t *testing.T) {
	vk.Property(t, "H01", "the sketch reached HLL mode (beyond the coupon list and set)",
		vk.Sub{Name: "history", Quick: 8000, Thorough: 200000, Fn: h01history(4000, 13)},
		vk.Sub{Name: "large", Quick: 80, Thorough: 3000, Fn: h01history(60000, 21)},
		vk.Sub{Name: "order", Quick: 4000, Thorough: 100000, Fn: h01order},
	)
}
