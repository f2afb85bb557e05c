package tuple_test

import (
	"fmt"
	"slices"
	"testing"

	"github.com/apache/datasketches-go/theta"
	"github.com/apache/datasketches-go/tuple"
	"pgregory.net/rapid"

	"verif/ref"
	"verif/tgen"
	"verif/vk"
)

// uModel is the abstract union: entries arriving in operand order are merged into the trace.
type uModel struct {
	k     int
	theta uint64
	h     []uint64
	m     map[uint64][]int64
	empty bool
	seedH uint16
}

func newUModel(lgk uint8, p float32, seed uint64) *uModel {
	return &uModel{k: 1 << lgk, theta: ref.StartTheta(p), empty: true, seedH: ref.SeedHash16(seed), m: map[uint64][]int64{}}
}

func (m *uModel) update(v Val) {
	if v.Empty {
		return
	}
	m.empty = false
	m.theta = min(m.theta, v.Theta)
	for _, h := range v.H {
		if old, ok := m.m[h]; ok {
			m.m[h] = merge(old, v.M[h])
		} else {
			m.m[h] = slices.Clone(v.M[h])
			m.h = append(m.h, h)
		}
	}
	slices.Sort(m.h)
	m.h = slices.Clone(below(m.h, m.theta))
}

func (m *uModel) value() Val {
	v := Val{ref.KMV{Theta: m.theta, H: slices.Clone(m.h), Empty: m.empty, SeedH: m.seedH}, m.m}
	if len(v.H) > m.k {
		v.Theta = v.H[m.k]
		v.H = v.H[:m.k]
	}
	return v.restrict()
}

func iModel(v Val, started bool, o Val) Val {
	switch {
	case !started:
		return Val{ref.KMV{Theta: o.Theta, H: slices.Clone(o.H), Empty: o.Empty, SeedH: o.SeedH}, o.M}.restrict()
	case v.Empty || o.Empty:
		return Val{ref.KMV{Theta: ref.MaxTheta, Empty: true, SeedH: o.SeedH}, nil}
	}
	r := Val{ref.KMV{Theta: min(v.Theta, o.Theta), SeedH: o.SeedH}, map[uint64][]int64{}}
	for _, h := range below(v.H, r.Theta) {
		if x, ok := o.M[h]; ok {
			r.H = append(r.H, h)
			r.M[h] = merge(v.M[h], x)
		}
	}
	r.Empty = len(r.H) == 0 && r.Theta == ref.MaxTheta
	return r
}

func checkRes(t *rapid.T, what string, s *tuple.CompactSketch[*Tr], v Val) {
	if v.Empty && s.IsEmpty() {
		if s.NumRetained() != 0 {
			t.Fatalf("%s: empty with entries", what)
		}
		for range s.All() {
			t.Fatalf("%s: empty iterates", what)
		}
		return
	}
	if err := check(s, v); err != nil {
		t.Fatalf("%s: %v", what, err)
	}
}

// keeper holds results handed out earlier, some of which the user goes on to modify.
type keeper struct {
	s       []*tuple.CompactSketch[*Tr]
	sn      []Snap
	scrib   bool
	operand []opnd
}

func (k *keeper) add(t *rapid.T, s *tuple.CompactSketch[*Tr]) {
	if vk.Chance(t, "scribble", 1, 3) {
		k.scrib = true
		for _, x := range s.All() {
			if vk.Chance(t, "scribreset", 1, 4) {
				x.Reset()
			}
			x.Update(-999)
			if len(x.v) > 0 {
				x.v[0] = -998
			}
		}
	}
	k.s = append(k.s, s)
	k.sn = append(k.sn, snap(s))
}

func (k *keeper) verify(t *rapid.T, what string) {
	for i, s := range k.s {
		if sn := snap(s); !sn.Equal(k.sn[i]) {
			t.Fatalf("%s: an earlier result changed: %v %v -> %v %v", what, k.sn[i], k.sn[i].S, sn, sn.S)
		}
	}
	for _, o := range k.operand {
		o.unchanged(t, what)
	}
}

func TestU02(t *testing.T) {
	vk.Property(t, "U02", "at least two non-empty operands share some hashes, so that summaries are merged",
		vk.Sub{Name: "union", Quick: 9000, Thorough: 200000, Fn: func(t *rapid.T, c *vk.Case) {
			seed := drawSeed(t)
			u := tgen.DrawUniverse(t, "u")
			lgk := uint8(vk.Int(t, "ulgk", 5, 9))
			p := vk.Pick(t, "up", tgen.Ps...)
			opts := []tuple.UnionOptionFunc{tuple.WithUnionLgK(lgk), tuple.WithUnionSketchP(p), tuple.WithUnionSeed(seed), tuple.WithUnionResizeFactor(theta.ResizeFactor(vk.Int(t, "urf", 0, 3)))}
			var un *tuple.Union[*Tr]
			var err error
			if vk.Chance(t, "fn", 1, 2) {
				un, err = tuple.NewUnionWithSummaryMergeFunc[*Tr](trMerge, opts...)
			} else {
				un, err = tuple.NewUnion[*Tr](trPolicy{}, opts...)
			}
			if err != nil {
				t.Fatal(err)
			}
			m := newUModel(lgk, p, seed)
			hist := ""
			kp := &keeper{}
			merged := false
			n := vk.Int(t, "nops", 1, 6)
			for i := 0; i < n; i++ {
				switch x := vk.Int(t, "op", 0, 12); {
				case x == 0:
					un.Reset()
					m = newUModel(lgk, p, seed)
					hist += " reset"
				case x == 1:
					if err := un.Update(foreign(t, seed)); err == nil {
						t.Fatalf("union accepted a sketch with another seed")
					}
					hist += " foreign"
				case x == 2 && len(kp.operand) > 0: // same operand again
					o := kp.operand[vk.Int(t, "again", 0, len(kp.operand)-1)]
					if err := un.Update(o.S); err != nil {
						t.Fatal(err)
					}
					m.update(o.V)
					hist += " again"
				default:
					o := drawOpnd(t, fmt.Sprint("o", i), u, seed, 1500, 9, int64(i+1)*100000)
					if err := un.Update(o.S); err != nil {
						t.Fatalf("union update with %s: %v", o.desc, err)
					}
					kp.operand = append(kp.operand, o)
					for _, h := range o.V.H {
						if _, ok := m.m[h]; ok {
							merged = true
							break
						}
					}
					m.update(o.V)
					hist += " " + o.desc
				}
				kp.verify(t, "union update"+hist)
				if vk.Chance(t, "res", 1, 2) || i == n-1 {
					ord := rapid.Bool().Draw(t, "ordered")
					r, err := un.Result(ord)
					if err != nil {
						t.Fatal(err)
					}
					checkRes(t, "union result after"+hist, r, m.value())
					if ord && !r.IsOrdered() {
						t.Fatalf("ordered result not ordered")
					}
					kp.add(t, r)
					r2, err := un.OrderedResult()
					if err != nil {
						t.Fatal(err)
					}
					checkRes(t, "second union result after"+hist, r2, m.value())
				}
			}
			kp.verify(t, "union history"+hist)
			if merged {
				c.NT(seed, u, lgk, p, hist)
			}
			if len(m.h) > m.k {
				c.Class("capped by k")
			}
			if kp.scrib {
				c.Class("a result was modified")
			}
			if c.WantSample() {
				c.Sample("lgk=%d p=%v style=%d:%s", lgk, p, u.Style, hist)
			}
		}},
		vk.Sub{Name: "intersection", Quick: 9000, Thorough: 200000, Fn: func(t *rapid.T, c *vk.Case) {
			seed := drawSeed(t)
			u := tgen.DrawUniverse(t, "u")
			var is *tuple.Intersection[*Tr]
			if vk.Chance(t, "fn", 1, 2) {
				is = tuple.NewIntersectionWithSummaryMergeFunc[*Tr](trMerge, tuple.WithIntersectionSeed(seed))
			} else {
				is = tuple.NewIntersection[*Tr](trPolicy{}, tuple.WithIntersectionSeed(seed))
			}
			if _, err := is.Result(true); err == nil || is.HasResult() {
				t.Fatalf("fresh intersection gives a result")
			}
			var v Val
			started := false
			hist := ""
			kp := &keeper{}
			n := vk.Int(t, "nops", 1, 5)
			merged := 0
			for i := 0; i < n; i++ {
				if vk.Int(t, "op", 0, 14) == 14 {
					if err := is.Update(foreign(t, seed)); err == nil && !(started && v.Empty) {
						t.Fatalf("intersection accepted a sketch with another seed")
					}
					hist += " foreign"
				} else {
					o := drawOpnd(t, fmt.Sprint("o", i), u, seed, 1500, 9, int64(i+1)*100000)
					if o.V.Empty && vk.Int(t, "near", 0, 2) > 0 {
						o = drawOpnd(t, fmt.Sprint("p", i), u, seed, 1500, 9, int64(i+1)*100000)
					}
					if err := is.Update(o.S); err != nil {
						t.Fatalf("intersection update with %s after%s: %v", o.desc, hist, err)
					}
					kp.operand = append(kp.operand, o)
					hist += " " + o.desc
					v = iModel(v, started, o.V)
					if started && len(v.H) > 0 {
						merged++
					}
					started = true
				}
				kp.verify(t, "intersection update"+hist)
				if !started {
					if is.HasResult() {
						t.Fatalf("rejected operand left a result")
					}
					continue
				}
				if vk.Chance(t, "res", 1, 2) || i == n-1 {
					ord := rapid.Bool().Draw(t, "ordered")
					r, err := is.Result(ord)
					if err != nil {
						t.Fatal(err)
					}
					if r.IsEmpty() != v.Empty {
						t.Fatalf("intersection empty=%v, want %v after%s", r.IsEmpty(), v.Empty, hist)
					}
					checkRes(t, "intersection result after"+hist, r, v)
					if ord && !r.IsOrdered() {
						t.Fatalf("not ordered")
					}
					kp.add(t, r)
					r2, err := is.OrderedResult()
					if err != nil {
						t.Fatal(err)
					}
					checkRes(t, "second intersection result after"+hist, r2, v)
				}
			}
			kp.verify(t, "intersection history"+hist)
			if merged > 0 {
				c.NT(seed, u, hist)
			}
			if c.WantSample() {
				c.Sample("style=%d:%s -> %d", u.Style, hist, len(v.H))
			}
		}},
		vk.Sub{Name: "anotb", Quick: 9000, Thorough: 200000, Fn: func(t *rapid.T, c *vk.Case) {
			seed := drawSeed(t)
			u := tgen.DrawUniverse(t, "u")
			a := drawOpnd(t, "a", u, seed, 2000, 9, 100000)
			kp := &keeper{operand: []opnd{a}}
			ord := rapid.Bool().Draw(t, "ordered")
			var bv ref.KMV
			var desc string
			var r *tuple.CompactSketch[*Tr]
			var err error
			useTheta := vk.Chance(t, "theta", 1, 2)
			if useTheta {
				b := tgen.DrawOp(t, "b", 2000, 9).Build(t, u, seed)
				bs := tgen.Snap(b.S)
				bv, desc = b.V, b.Desc
				r, err = tuple.TupleANotThetaB[*Tr](a.S, b.S, seed, ord)
				if !tgen.Snap(b.S).Equal(bs) {
					t.Fatalf("TupleANotThetaB changed B")
				}
			} else {
				b := drawOpnd(t, "b", u, seed, 2000, 9, 200000)
				kp.operand = append(kp.operand, b)
				bv, desc = b.V.KMV, b.desc
				r, err = tuple.ANotB[*Tr](a.S, b.S, seed, ord)
			}
			what := fmt.Sprintf("ANotB(%s, %s, ordered=%v theta=%v)", a.desc, desc, ord, useTheta)
			if err != nil {
				t.Fatalf("%s: %v", what, err)
			}
			v := a.V
			if !a.V.Empty && !(len(a.V.H) > 0 && bv.Empty) {
				v = Val{ref.KMV{Theta: min(a.V.Theta, bv.Theta), SeedH: ref.SeedHash16(seed)}, a.V.M}
				for _, h := range below(a.V.H, v.Theta) {
					if _, ok := slices.BinarySearch(bv.H, h); !ok {
						v.H = append(v.H, h)
					}
				}
				v.Empty = len(v.H) == 0 && v.Theta == ref.MaxTheta
			}
			v = v.restrict()
			if r.IsEmpty() != v.Empty {
				t.Fatalf("%s: empty=%v want %v", what, r.IsEmpty(), v.Empty)
			}
			checkRes(t, what, r, v)
			if ord && !r.IsOrdered() {
				t.Fatalf("%s: not ordered", what)
			}
			kp.add(t, r)
			kp.verify(t, what)
			if !a.V.Empty && !bv.Empty {
				if _, err := tuple.ANotB[*Tr](a.S, foreign(t, seed), seed, ord); err == nil && len(a.V.H) > 0 {
					t.Fatalf("ANotB accepted B with another seed")
				}
				if _, err := tuple.ANotB[*Tr](a.S, a.S, otherSeed(seed), ord); err == nil {
					t.Fatalf("ANotB ignores its seed")
				}
				if len(v.H) > 0 && len(v.H) < len(a.V.H) {
					c.NT(seed, u, a.desc, desc, ord)
				}
			}
			c.Sample("style=%d %s -> %d", u.Style, what, len(v.H))
		}},
		vk.Sub{Name: "jaccard", Quick: 6000, Thorough: 120000, Fn: func(t *rapid.T, c *vk.Case) {
			seed := drawSeed(t)
			u := tgen.DrawUniverse(t, "u")
			a := drawOpnd(t, "a", u, seed, 1500, 9, 100000)
			b := drawOpnd(t, "b", u, seed, 1500, 9, 200000)
			if vk.Chance(t, "same", 1, 8) {
				cs, err := tuple.NewCompactSketch[*Tr](a.S, rapid.Bool().Draw(t, "co"))
				if err != nil {
					t.Fatal(err)
				}
				b = opnd{cs, a.V, "copy of a", snap(cs)}
			}
			// the same key sets as theta sketches
			th := func(v ref.KMV) theta.Sketch {
				s, err := theta.Decode(ref.EncodeThetaV3(v, v.H, true), seed)
				if err != nil {
					t.Fatal(err)
				}
				return s
			}
			ta, tb := th(a.V.KMV), th(b.V.KMV)
			j, err := tuple.Jaccard[*Tr](a.S, b.S, trPolicy{}, seed)
			if err != nil {
				t.Fatal(err)
			}
			tj, err := theta.Jaccard(ta, tb, seed)
			if err != nil {
				t.Fatal(err)
			}
			if j.LowerBound != tj.LowerBound || j.Estimate != tj.Estimate || j.UpperBound != tj.UpperBound {
				t.Fatalf("Jaccard(%s, %s) = %+v, theta sketches of the same keys %+v", a.desc, b.desc, j, tj)
			}
			eq, err := tuple.IsExactlyEqual[*Tr](a.S, b.S, trPolicy{}, seed)
			teq, _ := theta.IsExactlyEqual(ta, tb, seed)
			if err != nil || eq != teq {
				t.Fatalf("IsExactlyEqual %v, theta %v (%v)", eq, teq, err)
			}
			thr := float64(vk.Int(t, "thr", 0, 100)) / 100
			s, e1 := tuple.IsSimilar[*Tr](a.S, b.S, trPolicy{}, thr, seed)
			d, e2 := tuple.IsDissimilar[*Tr](a.S, b.S, trPolicy{}, thr, seed)
			if e1 != nil || e2 != nil || s != (j.LowerBound >= thr) || d != (j.UpperBound <= thr) {
				t.Fatalf("threshold %v: similar=%v dissimilar=%v for %+v", thr, s, d, j)
			}
			a.unchanged(t, "Jaccard")
			b.unchanged(t, "Jaccard")
			if j.Estimate > 0 && j.Estimate < 1 {
				c.NT(seed, u, a.desc, b.desc)
			}
			c.Sample("%s %s = %+v", a.desc, b.desc, j)
		}},
	)
}
