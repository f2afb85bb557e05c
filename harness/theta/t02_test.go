package theta_test

import (
	"fmt"
	"slices"
	"testing"

	"github.com/apache/datasketches-go/theta"
	"pgregory.net/rapid"

	"verif/ref"
	"verif/tgen"
	"verif/vk"
)

// below returns the part of ascending h below th.
func below(h []uint64, th uint64) []uint64 {
	i, _ := slices.BinarySearch(h, th)
	return h[:i]
}

func unionSets(a, b []uint64) []uint64 {
	r := append(slices.Clone(a), b...)
	slices.Sort(r)
	return slices.Compact(r)
}

func interSets(a, b []uint64) []uint64 {
	var r []uint64
	for _, x := range a {
		if _, ok := slices.BinarySearch(b, x); ok {
			r = append(r, x)
		}
	}
	return r
}

func diffSets(a, b []uint64) []uint64 {
	var r []uint64
	for _, x := range a {
		if _, ok := slices.BinarySearch(b, x); !ok {
			r = append(r, x)
		}
	}
	return r
}

// unionModel is the order-independent value of a union.
type unionModel struct {
	k     int
	p     float32
	theta uint64
	h     []uint64
	empty bool
	seedH uint16
}

func newUnionModel(lgk uint8, p float32, seed uint64) *unionModel {
	return &unionModel{k: 1 << lgk, p: p, theta: ref.StartTheta(p), empty: true, seedH: ref.SeedHash16(seed)}
}

func (m *unionModel) update(v ref.KMV) {
	if v.Empty {
		return
	}
	m.empty = false
	m.theta = min(m.theta, v.Theta)
	m.h = below(unionSets(m.h, v.H), m.theta)
}

func (m *unionModel) value() ref.KMV {
	v := ref.KMV{Theta: m.theta, H: m.h, Empty: m.empty, SeedH: m.seedH}
	if len(v.H) > m.k {
		v.Theta = v.H[m.k]
		v.H = v.H[:m.k]
	}
	return v
}

func checkResult(t *rapid.T, what string, s *theta.CompactSketch, v ref.KMV) {
	if v.Empty && s.IsEmpty() {
		// an empty union reports no theta of interest
		if s.NumRetained() != 0 {
			t.Fatalf("%s: empty sketch with %d entries", what, s.NumRetained())
		}
		for h := range s.All() {
			t.Fatalf("%s: empty sketch iterates %d", what, h)
		}
		return
	}
	if err := tgen.Check(s, v); err != nil {
		t.Fatalf("%s: %v", what, err)
	}
}

type opnd struct {
	tgen.Operand
	before tgen.Snapshot
}

func drawOpnd(t *rapid.T, label string, u tgen.Universe, seed uint64, maxN, maxLgK int) opnd {
	o := tgen.DrawOp(t, label, maxN, maxLgK).Build(t, u, seed)
	if err := tgen.Check(o.S, o.V); err != nil {
		t.Fatalf("operand %s: %v", o.Desc, err)
	}
	return opnd{o, tgen.Snap(o.S)}
}

func (o opnd) unchanged(t *rapid.T, what string) {
	if s := tgen.Snap(o.S); !s.Equal(o.before) {
		t.Fatalf("%s changed its operand %s: %v -> %v", what, o.Desc, o.before, s)
	}
}

// interModel folds one more operand into the intersection's abstract value.
func interModel(v ref.KMV, started bool, o ref.KMV) ref.KMV {
	switch {
	case !started:
		v = o
		v.H = slices.Clone(o.H)
	case v.Empty || o.Empty:
		v = ref.KMV{Theta: ref.MaxTheta, Empty: true, SeedH: o.SeedH}
	default:
		th := min(v.Theta, o.Theta)
		v = ref.KMV{Theta: th, H: below(interSets(v.H, o.H), th), SeedH: o.SeedH}
		v.Empty = len(v.H) == 0 && th == ref.MaxTheta
	}
	return v
}

func drawSeed(t *rapid.T) uint64 {
	seed := rapid.OneOf(rapid.Just(uint64(9001)), rapid.Uint64()).Draw(t, "seed")
	if ref.SeedHash16(seed) == 0 {
		seed = 9001
	}
	return seed
}

// foreign builds a non-empty sketch with another seed.
func foreign(t *rapid.T, seed uint64) theta.Sketch {
	o := seed + 1
	for ref.SeedHash16(o) == 0 || ref.SeedHash16(o) == ref.SeedHash16(seed) {
		o++
	}
	p := float32(1)
	if vk.Chance(t, "foreignNone", 1, 3) { // not empty, but retains nothing
		p = 1e-9
	}
	s, _ := theta.NewQuickSelectUpdateSketch(theta.WithUpdateSketchSeed(o), theta.WithUpdateSketchP(p))
	_ = s.UpdateInt64(1)
	if rapid.Bool().Draw(t, "foreignCompact") {
		return s.Compact(true)
	}
	return s
}

func TestT02(t *testing.T) {
	vk.Property(t, "T02", "at least two operands share some but not all hashes or have different theta, and none of the participating operands is empty",
		vk.Sub{Name: "union", Quick: 12000, Thorough: 250000, Fn: func(t *rapid.T, c *vk.Case) {
			seed := drawSeed(t)
			u := tgen.DrawUniverse(t, "u")
			lgk := uint8(vk.Int(t, "ulgk", 5, 10))
			p := vk.Pick(t, "up", tgen.Ps...)
			un, err := theta.NewUnion(theta.WithUnionLgK(lgk), theta.WithUnionSketchP(p), theta.WithUnionSeed(seed), theta.WithUnionResizeFactor(theta.ResizeFactor(vk.Int(t, "urf", 0, 3))))
			if err != nil {
				t.Fatal(err)
			}
			m := newUnionModel(lgk, p, seed)
			n := vk.Int(t, "nops", 1, 6)
			hist := ""
			thetas := map[uint64]bool{}
			var ops []opnd
			var results []*theta.CompactSketch
			var resSnaps []tgen.Snapshot
			for i := 0; i < n; i++ {
				switch x := vk.Int(t, "op", 0, 11); {
				case x == 0:
					un.Reset()
					m = newUnionModel(lgk, p, seed)
					hist += " reset"
				case x == 1:
					if err := un.Update(foreign(t, seed)); err == nil {
						t.Fatalf("union accepted a sketch with another seed")
					}
					hist += " foreign"
				default:
					o := drawOpnd(t, "o", u, seed, 3000, 10)
					if err := un.Update(o.S); err != nil {
						t.Fatalf("union update with %s: %v", o.Desc, err)
					}
					o.unchanged(t, "union update")
					ops = append(ops, o)
					m.update(o.V)
					hist += " " + o.Desc
					if !o.V.Empty {
						thetas[o.V.Theta] = true
					}
				}
				if vk.Int(t, "res", 0, 2) == 0 || i == n-1 {
					ord := rapid.Bool().Draw(t, "ordered")
					r, err := un.Result(ord)
					if err != nil {
						t.Fatalf("union result: %v", err)
					}
					checkResult(t, "union result after"+hist, r, m.value())
					if ord && !r.IsOrdered() {
						t.Fatalf("ordered union result not ordered")
					}
					r2, err := un.OrderedResult()
					if err != nil {
						t.Fatal(err)
					}
					checkResult(t, "second union result after"+hist, r2, m.value())
					results = append(results, r)
					resSnaps = append(resSnaps, tgen.Snap(r))
				}
			}
			for i, r := range results {
				if s := tgen.Snap(r); !s.Equal(resSnaps[i]) {
					t.Fatalf("earlier union result changed: %v -> %v", resSnaps[i], s)
				}
			}
			for _, o := range ops {
				o.unchanged(t, "union history")
			}
			if len(thetas) > 1 || len(ops) > 1 && len(m.h) > 0 {
				c.NT(seed, u, lgk, p, hist)
			}
			if len(m.h) > m.k {
				c.Class("capped by k")
			}
			if c.WantSample() {
				c.Sample("lgk=%d p=%v style=%d:%s -> %d", lgk, p, u.Style, hist, len(m.value().H))
			}
			// operand order does not matter
			un2, _ := theta.NewUnion(theta.WithUnionLgK(lgk), theta.WithUnionSketchP(p), theta.WithUnionSeed(seed))
			m2 := newUnionModel(lgk, p, seed)
			for i := len(ops) - 1; i >= 0; i-- {
				if err := un2.Update(ops[i].S); err != nil {
					t.Fatal(err)
				}
				m2.update(ops[i].V)
			}
			r, err := un2.Result(true)
			if err != nil {
				t.Fatal(err)
			}
			checkResult(t, "reversed union", r, m2.value())
		}},
		vk.Sub{Name: "intersection", Quick: 14000, Thorough: 250000, Fn: func(t *rapid.T, c *vk.Case) {
			seed := drawSeed(t)
			u := tgen.DrawUniverse(t, "u")
			is := theta.NewIntersection(theta.WithIntersectionSeed(seed))
			if is.HasResult() {
				t.Fatalf("fresh intersection has a result")
			}
			if _, err := is.Result(true); err == nil {
				t.Fatalf("fresh intersection gives a result")
			}
			n := vk.Int(t, "nops", 1, 5)
			var v ref.KMV
			started := false
			hist := ""
			var ops []opnd
			var results []*theta.CompactSketch
			var resSnaps []tgen.Snapshot
			thetas := map[uint64]bool{}
			for i := 0; i < n; i++ {
				if vk.Int(t, "op", 0, 14) == 14 {
					err := is.Update(foreign(t, seed))
					if err == nil && !(started && v.Empty) {
						t.Fatalf("intersection accepted a sketch with another seed")
					}
					hist += " foreign"
					if !started {
						if is.HasResult() {
							t.Fatalf("rejected operand left a result")
						}
						continue
					}
				} else {
					o := drawOpnd(t, "o", u, seed, 2500, 10)
					if vk.Int(t, "near", 0, 2) > 0 && o.V.Empty { // fewer empties
						o = drawOpnd(t, "o2", u, seed, 2500, 10)
					}
					if err := is.Update(o.S); err != nil {
						t.Fatalf("intersection update with %s after%s: %v", o.Desc, hist, err)
					}
					o.unchanged(t, "intersection update")
					ops = append(ops, o)
					hist += " " + o.Desc
					thetas[o.V.Theta] = true
					v = interModel(v, started, o.V)
					started = true
				}
				if !is.HasResult() {
					t.Fatalf("no result after an update")
				}
				if vk.Int(t, "res", 0, 2) == 0 || i == n-1 {
					ord := rapid.Bool().Draw(t, "ordered")
					r, err := is.Result(ord)
					if err != nil {
						t.Fatalf("intersection result: %v", err)
					}
					if r.IsEmpty() != v.Empty {
						t.Fatalf("intersection empty=%v, want %v after%s", r.IsEmpty(), v.Empty, hist)
					}
					if v.Empty && r.Theta64() != ref.MaxTheta {
						t.Fatalf("empty intersection has theta %d", r.Theta64())
					}
					checkResult(t, "intersection result after"+hist, r, v)
					if ord && !r.IsOrdered() {
						t.Fatalf("ordered intersection result not ordered")
					}
					r2, err := is.OrderedResult()
					if err != nil {
						t.Fatal(err)
					}
					checkResult(t, "second intersection result", r2, v)
					results = append(results, r)
					resSnaps = append(resSnaps, tgen.Snap(r))
				}
			}
			for i, r := range results {
				if s := tgen.Snap(r); !s.Equal(resSnaps[i]) {
					t.Fatalf("earlier intersection result changed")
				}
			}
			if started && !v.Empty && len(ops) > 1 {
				c.NT(seed, u, hist)
				if len(thetas) > 1 {
					c.Class("different theta")
				}
				if len(v.H) > 0 {
					c.Class("non-empty overlap")
				}
			}
			if c.WantSample() {
				c.Sample("style=%d:%s -> %d", u.Style, hist, len(v.H))
			}
			if len(ops) > 1 && started {
				is2 := theta.NewIntersection(theta.WithIntersectionSeed(seed))
				for i := len(ops) - 1; i >= 0; i-- {
					if err := is2.Update(ops[i].S); err != nil {
						t.Fatalf("reversed intersection: %v", err)
					}
				}
				r, err := is2.Result(true)
				if err != nil {
					t.Fatal(err)
				}
				var rv ref.KMV
				for i := len(ops) - 1; i >= 0; i-- {
					rv = interModel(rv, i < len(ops)-1, ops[i].V)
				}
				// theta may differ only when one order reaches an exactly empty intersection
				if !slices.Equal(rv.H, v.H) || (rv.Theta != v.Theta && !rv.Empty && !v.Empty) {
					t.Fatalf("harness: intersection model depends on order")
				}
				checkResult(t, "reversed intersection after"+hist, r, rv)
				if r.IsEmpty() != rv.Empty {
					t.Fatalf("reversed intersection empty=%v", r.IsEmpty())
				}
			}
		}},
		vk.Sub{Name: "anotb", Quick: 12000, Thorough: 250000, Fn: func(t *rapid.T, c *vk.Case) {
			seed := drawSeed(t)
			u := tgen.DrawUniverse(t, "u")
			a := drawOpnd(t, "a", u, seed, 2500, 10)
			b := drawOpnd(t, "b", u, seed, 2500, 10)
			ord := rapid.Bool().Draw(t, "ordered")
			r, err := theta.ANotB(a.S, b.S, seed, ord)
			if err != nil {
				t.Fatalf("ANotB(%s, %s): %v", a.Desc, b.Desc, err)
			}
			a.unchanged(t, "ANotB")
			b.unchanged(t, "ANotB")
			v := a.V
			if !a.V.Empty && !(len(a.V.H) > 0 && b.V.Empty) {
				th := min(a.V.Theta, b.V.Theta)
				v = ref.KMV{Theta: th, H: below(diffSets(a.V.H, b.V.H), th), SeedH: ref.SeedHash16(seed)}
				v.Empty = len(v.H) == 0 && th == ref.MaxTheta
			}
			what := fmt.Sprintf("ANotB(%s, %s, ordered=%v)", a.Desc, b.Desc, ord)
			if r.IsEmpty() != v.Empty {
				t.Fatalf("%s: empty=%v want %v", what, r.IsEmpty(), v.Empty)
			}
			checkResult(t, what, r, v)
			if ord && !r.IsOrdered() {
				t.Fatalf("%s: not ordered", what)
			}
			if !a.V.Empty && !b.V.Empty {
				f := foreign(t, seed)
				if _, err := theta.ANotB(a.S, f, seed, ord); err == nil {
					t.Fatalf("ANotB accepted B with another seed")
				}
				if _, err := theta.ANotB(f, b.S, seed, ord); err == nil {
					t.Fatalf("ANotB accepted A with another seed")
				}
				if len(v.H) < len(a.V.H) && len(v.H) > 0 {
					c.NT(seed, u, a.Desc, b.Desc)
				}
			}
			if c.WantSample() {
				c.Sample("style=%d %s minus %s -> %d", u.Style, a.Desc, b.Desc, len(v.H))
			}
		}},
		vk.Sub{Name: "algebra", Quick: 3000, Thorough: 60000, Fn: func(t *rapid.T, c *vk.Case) {
			// composite expressions: (A u B) n C, (A u B) \ C, operations on results of operations
			seed := uint64(9001)
			u := tgen.DrawUniverse(t, "u")
			type val struct {
				s theta.Sketch
				v ref.KMV
			}
			var pool []val
			for i := 0; i < 3; i++ {
				o := drawOpnd(t, "o", u, seed, 1500, 9)
				pool = append(pool, val{o.S, o.V})
			}
			hist := ""
			for i := vk.Int(t, "nops", 1, 5); i > 0; i-- {
				ia, ib := vk.Int(t, "ia", 0, len(pool)-1), vk.Int(t, "ib", 0, len(pool)-1)
				a, b := pool[ia], pool[ib]
				if a.v.Empty || b.v.Empty {
					continue
				}
				ord := rapid.Bool().Draw(t, "ord")
				var r *theta.CompactSketch
				var err error
				var v ref.KMV
				switch vk.Int(t, "expr", 0, 2) {
				case 0:
					lgk := uint8(vk.Int(t, "lgk", 5, 10))
					un, _ := theta.NewUnion(theta.WithUnionLgK(lgk))
					m := newUnionModel(lgk, 1, seed)
					if err := un.Update(a.s); err != nil {
						t.Fatal(err)
					}
					if err := un.Update(b.s); err != nil {
						t.Fatal(err)
					}
					m.update(a.v)
					m.update(b.v)
					r, err = un.Result(ord)
					v = m.value()
					hist += fmt.Sprintf(" %d|%d", ia, ib)
				case 1:
					is := theta.NewIntersection()
					if err := is.Update(a.s); err != nil {
						t.Fatal(err)
					}
					if err := is.Update(b.s); err != nil {
						t.Fatal(err)
					}
					th := min(a.v.Theta, b.v.Theta)
					v = ref.KMV{Theta: th, H: below(interSets(a.v.H, b.v.H), th)}
					v.Empty = len(v.H) == 0 && th == ref.MaxTheta
					r, err = is.Result(ord)
					hist += fmt.Sprintf(" %d&%d", ia, ib)
				case 2:
					th := min(a.v.Theta, b.v.Theta)
					v = ref.KMV{Theta: th, H: below(diffSets(a.v.H, b.v.H), th)}
					v.Empty = len(v.H) == 0 && th == ref.MaxTheta
					r, err = theta.ANotB(a.s, b.s, seed, ord)
					hist += fmt.Sprintf(" %d-%d", ia, ib)
				}
				if err != nil {
					t.Fatalf("%s: %v", hist, err)
				}
				v.SeedH = ref.SeedHash16(seed)
				checkResult(t, hist, r, v)
				pool = append(pool, val{r, v})
			}
			if len(pool) > 4 {
				c.NT(u, hist, len(pool[3].v.H), pool[3].v.Theta)
			}
			c.Sample("style=%d sizes %d,%d,%d:%s", u.Style, len(pool[0].v.H), len(pool[1].v.H), len(pool[2].v.H), hist)
		}},
	)
}
