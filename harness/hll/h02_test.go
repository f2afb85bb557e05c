package hll_test

import (
	"bytes"
	"fmt"
	"math"
	"testing"

	"github.com/apache/datasketches-go/hll"
	"pgregory.net/rapid"

	"verif/vk"
)

func fold(slots []uint8, lgK int) []uint8 {
	out := make([]uint8, 1<<lgK)
	for i, v := range slots {
		if j := i & (1<<lgK - 1); v > out[j] {
			out[j] = v
		}
	}
	return out
}

func (m *model) setSlots(lgK int, slots []uint8) {
	m.lgK, m.mode, m.slots, m.set = lgK, mHLL, slots, nil
	m.x0, m.x1, m.nz = 0, 0, 0
	for _, v := range slots {
		if v < 32 {
			m.x0 += math.Ldexp(1, -int(v))
		} else {
			m.x1 += math.Ldexp(1, -int(v))
		}
		if v != 0 {
			m.nz++
		}
	}
}

// src is a sketch with what it must hold.
type src struct {
	s     hll.HllSketch
	m     *model
	ooo   bool
	hipOK bool
	img   []byte
	desc  string
}

// umodel is what a union must hold.
type umodel struct {
	lgMax int
	m     *model
	ooo   bool
	hipOK bool // the model's hip is the union's
}

func newUModel(lgMax int) *umodel { return &umodel{lgMax: lgMax, m: newModel(lgMax), hipOK: true} }

func (u *umodel) merge(x *src) {
	s := x.m
	if s.mode != mHLL {
		if len(s.set) == 0 {
			return
		}
		was := u.m.mode
		for cp := range s.set {
			u.m.offer(cp)
		}
		if u.m.mode == mHLL || was == mHLL {
			u.hipOK = false // the order of the coupons is not specified
		}
		return
	}
	if u.m.mode != mHLL {
		old := u.m.set
		l := min(s.lgK, u.lgMax)
		u.m = &model{}
		u.m.setSlots(l, fold(s.slots, l))
		u.m.hip, u.hipOK, u.ooo = s.hip, x.hipOK, x.ooo
		for cp := range old {
			u.m.offer(cp)
			u.hipOK = false
		}
		return
	}
	l := min(s.lgK, u.m.lgK)
	a, b := fold(u.m.slots, l), fold(s.slots, l)
	for i := range a {
		a[i] = max(a[i], b[i])
	}
	u.m.setSlots(l, a)
	u.ooo = true
}

func verifyAnswers(s estimator, m *model, ooo, hipOK bool) error {
	if m.mode != mHLL {
		return verifyEstimates(s, m, false)
	}
	if ooo || hipOK {
		return verifyEstimates(s, m, ooo)
	}
	a, err := answers(s)
	if err != nil {
		return err
	}
	if !near(a[1], m.composite()) {
		return fmt.Errorf("composite estimate %v, want %v", a[1], m.composite())
	}
	for sd := 1; sd <= 3; sd++ {
		lb, ub := m.bounds(a[0], false, sd)
		if !near(a[2*sd], lb) || !near(a[2*sd+1], ub) {
			return fmt.Errorf("bounds(%d) [%v,%v] of estimate %v, want [%v,%v]", sd, a[2*sd], a[2*sd+1], a[0], lb, ub)
		}
	}
	return nil
}

func (u *umodel) verify(un hll.Union, t *rapid.T) error {
	// the union's own answers first: they must not depend on GetResult having been called
	if un.IsEmpty() != (u.m.mode != mHLL && len(u.m.set) == 0) || un.GetLgConfigK() != u.m.lgK || int(un.GetCurMode()) != u.m.mode {
		return fmt.Errorf("union: empty=%v lgK=%d mode=%d, want lgK=%d mode=%d", un.IsEmpty(), un.GetLgConfigK(), un.GetCurMode(), u.m.lgK, u.m.mode)
	}
	if err := verifyAnswers(un, u.m, u.ooo, u.hipOK); err != nil {
		return fmt.Errorf("union: %v", err)
	}
	mine, err := answers(un)
	if err != nil {
		return err
	}
	im, err := content(un)
	if err == nil {
		err = im.matches(u.m)
	}
	if err != nil {
		return fmt.Errorf("union image: %v", err)
	}
	ub, err := un.ToUpdatableSlice()
	if err != nil || len(ub) != un.GetUpdatableSerializationBytes() {
		return fmt.Errorf("union: GetUpdatableSerializationBytes()=%d, image %d (%v)", un.GetUpdatableSerializationBytes(), len(ub), err)
	}
	for _, ty := range types {
		r, err := un.GetResult(ty)
		if err != nil {
			return fmt.Errorf("GetResult(%s): %v", typeName(ty), err)
		}
		im, err := content(r)
		if err == nil {
			err = im.matches(u.m)
		}
		if err == nil && im.typ != int(ty) {
			err = fmt.Errorf("type %d", im.typ)
		}
		if err != nil {
			return fmt.Errorf("result %s: %v", typeName(ty), err)
		}
		a, err := answers(r)
		if err != nil {
			return err
		}
		if !sameAnswers(a, mine) {
			return fmt.Errorf("result %s answers %v, union answers %v", typeName(ty), a, mine)
		}
	}
	return nil
}

func drawSrc(t *rapid.T, i int, maxN, lo, hi int) *src {
	lgK := vk.Int(t, "slgK", lo, hi)
	ty := vk.Pick(t, "stype", types...)
	s, err := hll.NewHllSketch(lgK, ty)
	if err != nil {
		t.Fatalf("NewHllSketch: %v", err)
	}
	m := newModel(lgK)
	st := drawStream(t, maxN)
	st.expand(lgK, func(x in) {
		m.feed(x)
		if err := x.apply(s); err != nil {
			t.Fatalf("update: %v", err)
		}
	})
	x := &src{s: s, m: m, hipOK: true, desc: fmt.Sprintf("s%d[%s lgK=%d %s mode=%d]", i, typeName(ty), lgK, st, m.mode)}
	if vk.Chance(t, "decoded", 1, 4) {
		var b []byte
		if vk.Chance(t, "compact", 1, 2) {
			b, err = s.ToCompactSlice()
		} else {
			b, err = s.ToUpdatableSlice()
		}
		if err == nil {
			x.s, err = hll.NewHllSketchFromSlice(b, vk.Chance(t, "rebuild", 1, 2))
		}
		if err != nil {
			t.Fatalf("%s: round trip: %v", x.desc, err)
		}
		x.desc += "decoded"
	}
	x.img, _ = x.s.ToUpdatableSlice()
	return x
}

func h02history(maxN, lo, hi int) func(t *rapid.T, c *vk.Case) {
	return func(t *rapid.T, c *vk.Case) {
		lgMax := vk.Int(t, "lgMax", lo, hi)
		if vk.Chance(t, "lgBig", 1, 3) {
			lgMax = hi
		}
		un, err := hll.NewUnion(lgMax)
		if err != nil {
			t.Fatalf("NewUnion: %v", err)
		}
		u := newUModel(lgMax)
		desc := fmt.Sprintf("union(%d)", lgMax)
		var srcs []*src
		hllMerges, mixed := 0, false
		ops := vk.Int(t, "ops", 1, 9)
		for op := 0; op < ops; op++ {
			switch k := vk.Pick(t, "op", "merge", "merge", "merge", "merge", "direct", "again", "result", "reset", "roundtrip", "nil"); k {
			case "merge", "again":
				var x *src
				if k == "again" && len(srcs) > 0 {
					x = srcs[vk.Int(t, "which", 0, len(srcs)-1)]
				} else {
					x = drawSrc(t, len(srcs), maxN, lo, hi)
					srcs = append(srcs, x)
				}
				desc += " +" + x.desc
				before := u.m.mode
				if err := un.UpdateSketch(x.s); err != nil {
					t.Fatalf("%s: UpdateSketch: %v", desc, err)
				}
				if x.m.mode == mHLL {
					hllMerges++
					if x.m.lgK != u.m.lgK {
						mixed = true
					}
					c.Class(fmt.Sprintf("hll source into mode %d, lgK %+d", before, sign(x.m.lgK-u.m.lgK)))
				}
				u.merge(x)
			case "direct":
				st := drawStream(t, maxN)
				desc += " direct " + st.String()
				if u.m.mode == mHLL && u.ooo {
					u.hipOK = false
				}
				st.expand(u.m.lgK, func(x in) {
					u.m.feed(x)
					if err := x.apply(un); err != nil {
						t.Fatalf("%s: update: %v", desc, err)
					}
				})
			case "result":
				ty := vk.Pick(t, "rtype", types...)
				r, err := un.GetResult(ty)
				if err != nil {
					t.Fatalf("%s: GetResult: %v", desc, err)
				}
				x := &src{s: r, m: u.m.clone(), ooo: u.ooo, hipOK: u.hipOK, desc: "r" + fmt.Sprint(len(srcs))}
				x.img, _ = r.ToUpdatableSlice()
				srcs = append(srcs, x)
				desc += " result " + typeName(ty)
				if vk.Chance(t, "scribble", 1, 3) { // a result lives on by itself
					r2, err := un.GetResult(ty)
					if err != nil {
						t.Fatalf("%s: GetResult: %v", desc, err)
					}
					for i := uint64(0); i < 50; i++ {
						if err := r2.UpdateUInt64(i); err != nil {
							t.Fatalf("%s: update of a result: %v", desc, err)
						}
					}
				}
			case "reset":
				desc += " reset"
				if err := un.Reset(); err != nil {
					t.Fatalf("%s: %v", desc, err)
				}
				u = newUModel(lgMax)
			case "roundtrip":
				desc += " roundtrip"
				var b []byte
				if vk.Chance(t, "ucompact", 1, 2) {
					b, err = un.ToCompactSlice()
				} else {
					b, err = un.ToUpdatableSlice()
				}
				if err != nil {
					t.Fatalf("%s: %v", desc, err)
				}
				if un, err = hll.NewUnionFromSlice(b); err != nil {
					t.Fatalf("%s: NewUnionFromSlice: %v", desc, err)
				}
				lgMax = u.m.lgK
				u.lgMax = lgMax
				for i := range b {
					b[i] = 0xff
				}
			case "nil":
				if err := un.UpdateSketch(nil); err != nil {
					t.Fatalf("%s: UpdateSketch(nil): %v", desc, err)
				}
			}
			if vk.Chance(t, "check", 1, 2) || op == ops-1 {
				if err := u.verify(un, t); err != nil {
					t.Fatalf("%s: %v", desc, err)
				}
			}
		}
		for _, x := range srcs {
			b, err := x.s.ToUpdatableSlice()
			if err != nil || !bytes.Equal(b, x.img) {
				t.Fatalf("%s: source %s changed (%v)", desc, x.desc, err)
			}
			im, err := content(x.s)
			if err == nil {
				err = im.matches(x.m)
			}
			if err == nil {
				err = verifyAnswers(x.s, x.m, x.ooo, x.hipOK)
			}
			if err != nil {
				t.Fatalf("%s: source %s: %v", desc, x.desc, err)
			}
		}
		if hllMerges >= 2 || mixed {
			c.NT(desc)
		}
		if c.WantSample() {
			c.Sample("%s -> lgK %d mode %d ooo %v composite %.1f", desc, u.m.lgK, u.m.mode, u.ooo, u.m.composite())
		}
	}
}

func sign(d int) int {
	switch {
	case d < 0:
		return -1
	case d > 0:
		return 1
	}
	return 0
}

// any order of merging, and merging through intermediate unions, gives the same content
func h02order(t *rapid.T, c *vk.Case) {
	lgMax := vk.Int(t, "lgMax", 4, 12)
	n := vk.Int(t, "sketches", 2, 6)
	var srcs []*src
	desc := fmt.Sprintf("union(%d)", lgMax)
	for i := 0; i < n; i++ {
		x := drawSrc(t, i, 1500, 4, 12)
		srcs = append(srcs, x)
		desc += " " + x.desc
	}
	u := newUModel(lgMax)
	for _, x := range srcs {
		u.merge(x)
	}
	fresh := func() hll.Union {
		un, err := hll.NewUnion(lgMax)
		if err != nil {
			t.Fatalf("NewUnion: %v", err)
		}
		return un
	}
	add := func(un hll.Union, s hll.HllSketch) {
		if err := un.UpdateSketch(s); err != nil {
			t.Fatalf("%s: UpdateSketch: %v", desc, err)
		}
	}
	perm := rapid.Permutation(rangeTo(n)).Draw(t, "perm")
	// permuted, some of them twice
	a := fresh()
	for _, i := range perm {
		add(a, srcs[i].s)
	}
	if vk.Chance(t, "twice", 1, 2) {
		for _, i := range perm[:1+n/2] {
			add(a, srcs[i].s)
		}
	}
	// grouped: two intermediate unions
	cut := vk.Int(t, "cut", 1, n-1)
	b := fresh()
	for _, part := range [][]int{perm[:cut], perm[cut:]} {
		m := fresh()
		for _, i := range part {
			add(m, srcs[i].s)
		}
		r, err := m.GetResult(vk.Pick(t, "rt", types...))
		if err != nil {
			t.Fatalf("%s: GetResult: %v", desc, err)
		}
		add(b, r)
	}
	for i, un := range []hll.Union{a, b} {
		im, err := content(un)
		if err == nil {
			err = im.matches(u.m)
		}
		if err != nil {
			t.Fatalf("%s: %s (perm %v cut %d): %v", desc, []string{"permuted", "grouped"}[i], perm, cut, err)
		}
		e, err := un.GetCompositeEstimate()
		if err != nil || !near(e, u.m.composite()) {
			t.Fatalf("%s: composite %v (%v), want %v", desc, e, err, u.m.composite())
		}
	}
	if u.m.mode == mHLL {
		c.NT(desc)
	}
	if c.WantSample() {
		c.Sample("%s perm %v cut %d", desc, perm, cut)
	}
}

func rangeTo(n int) []int {
	s := make([]int, n)
	for i := range s {
		s[i] = i
	}
	return s
}

func TestH02(t *testing.T) {
	vk.Property(t, "H02", "the union took two or more HLL-mode sketches or one of a different lgK",
		vk.Sub{Name: "history", Quick: 12000, Thorough: 300000, Fn: h02history(1500, 4, 11)},
		vk.Sub{Name: "large", Quick: 100, Thorough: 4000, Fn: h02history(30000, 8, 20)},
		vk.Sub{Name: "order", Quick: 2500, Thorough: 80000, Fn: h02order},
	)
}
