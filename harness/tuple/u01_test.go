package tuple_test

import (
	"fmt"
	"slices"
	"testing"

	"github.com/apache/datasketches-go/theta"
	"github.com/apache/datasketches-go/tuple"
	"pgregory.net/rapid"

	"verif/ref"
	"verif/tgen"
	"verif/vk"
)

// VTr is a value-typed summary updated through an update function.
type VTr struct{ v string }

func (VTr) Reset()                 {}
func (s VTr) Clone() tuple.Summary { return s }
func (VTr) Update(int64)           {}

func TestU01(t *testing.T) {
	vk.Property(t, "U01", "the table was rebuilt or resized, and some key received more than one value",
		vk.Sub{Name: "history", Quick: 9000, Thorough: 200000, Fn: func(t *rapid.T, c *vk.Case) { history(t, c, false) }},
		vk.Sub{Name: "updatefunc", Quick: 5000, Thorough: 100000, Fn: func(t *rapid.T, c *vk.Case) { history(t, c, true) }},
		vk.Sub{Name: "config", Quick: 400, Thorough: 4000, Fn: func(t *rapid.T, c *vk.Case) {
			lgk := rapid.Uint8Range(0, 60).Draw(t, "lgk")
			if lgk > 18 && lgk <= 26 {
				lgk += 8
			}
			p := rapid.Float32Range(-1, 2).Draw(t, "p")
			_, err := tuple.NewUpdateSketch[*Tr, int64](newTr, tuple.WithUpdateSketchLgK(lgk), tuple.WithUpdateSketchP(p))
			_, err2 := tuple.NewArrayOfNumbersUpdateSketch[float64](2, tuple.WithUpdateSketchLgK(lgk), tuple.WithUpdateSketchP(p))
			_, err3 := tuple.NewUnion[*Tr](trPolicy{}, tuple.WithUnionLgK(lgk), tuple.WithUnionSketchP(p))
			valid := lgk >= theta.MinLgK && lgk <= theta.MaxLgK && p > 0 && p <= 1
			if (err == nil) != valid || (err2 == nil) != valid || (err3 == nil) != valid {
				t.Fatalf("lgK=%d p=%v: err=%v %v %v", lgk, p, err, err2, err3)
			}
			c.NT(lgk, p)
		}},
	)
}

func history(t *rapid.T, c *vk.Case, fn bool) {
	seed := drawSeed(t)
	lgk := uint8(vk.Int(t, "lgk", 5, 10))
	p := vk.Pick(t, "p", tgen.Ps...)
	rf := vk.Int(t, "rf", 0, 3)
	opts := []tuple.UpdateSketchOptionFunc{tuple.WithUpdateSketchLgK(lgk), tuple.WithUpdateSketchP(p),
		tuple.WithUpdateSketchResizeFactor(theta.ResizeFactor(rf)), tuple.WithUpdateSketchSeed(seed)}
	var us *tuple.UpdateSketch[*Tr, int64]
	var err error
	if fn {
		us, err = tuple.NewUpdateSketchWithSummaryUpdateFunc[*Tr, int64](newTr, func(s *Tr, x int64) *Tr { return &Tr{append(slices.Clone(s.v), x)} }, opts...)
	} else {
		us, err = tuple.NewUpdateSketch[*Tr, int64](newTr, opts...)
	}
	if err != nil {
		t.Fatal(err)
	}
	m := ref.NewThetaModel(lgk, p, seed)
	vals := map[uint64][]int64{}
	m.OnDrop = func(h uint64) { delete(vals, h) }
	u := tgen.DrawUniverse(t, "u")
	hist := ""
	multi, rebuilt := false, false
	next := int64(0)
	offer := func(h uint64) int64 {
		next++
		m.Offer(h)
		if _, ok := m.Set[h]; ok {
			vals[h] = append(vals[h], next)
			multi = multi || len(vals[h]) > 1
		}
		return next
	}
	k := 1 << lgk
	var kept []*tuple.CompactSketch[*Tr]
	var keptSnap []Snap
	verify := func() {
		v := Val{ref.KMV{Theta: m.Theta64(), H: m.Sorted(), Empty: m.Empty, SeedH: ref.SeedHash16(seed)}, vals}
		if err := check(us, v); err != nil {
			t.Fatalf("after%s: %v", hist, err)
		}
		for _, ord := range []bool{true, false} {
			cs, err := us.Compact(ord)
			if err != nil {
				t.Fatal(err)
			}
			if err := check(cs, v); err != nil {
				t.Fatalf("Compact(%v) after%s: %v", ord, hist, err)
			}
			if ord && !cs.IsOrdered() {
				t.Fatalf("Compact(true) is not ordered")
			}
			kept, keptSnap = append(kept, cs), append(keptSnap, snap(cs))
			c2, err := tuple.NewCompactSketch[*Tr](cs, vk.Chance(t, "ord2", 1, 2))
			if err != nil {
				t.Fatal(err)
			}
			if err := check(c2, v); err != nil {
				t.Fatalf("compact of compact: %v", err)
			}
		}
		// filter
		mod := int64(vk.Int(t, "mod", 1, 4))
		pred := func(s *Tr) bool { return s.v[len(s.v)-1]%mod == 0 }
		var src interface {
			Filter(func(*Tr) bool) (*tuple.CompactSketch[*Tr], error)
		} = us
		if vk.Chance(t, "filterCompact", 1, 2) {
			src = kept[len(kept)-1-vk.Int(t, "which", 0, 1)]
		}
		f, err := src.Filter(pred)
		if err != nil {
			t.Fatal(err)
		}
		fv := v
		fv.H = nil
		for _, h := range v.H {
			if vals[h][len(vals[h])-1]%mod == 0 {
				fv.H = append(fv.H, h)
			}
		}
		fv = fv.restrict()
		fv.Empty = len(fv.H) == 0 && (m.Empty || m.Theta == ref.MaxTheta)
		if err := check(f, fv); err != nil {
			t.Fatalf("Filter(%%%d) after%s: %v", mod, hist, err)
		}
		// bounds follow the theta bounds on the same numbers
		n := us.NumRetained()
		for sd := uint8(1); sd <= 3; sd++ {
			lb, e1 := us.LowerBound(sd)
			ub, e2 := us.UpperBound(sd)
			if e1 != nil || e2 != nil || lb > us.Estimate() || ub < us.Estimate() || lb < float64(n) {
				t.Fatalf("bounds %v %v around %v (%v %v)", lb, ub, us.Estimate(), e1, e2)
			}
			sub := uint32(vk.Int(t, "subset", 0, int(n)+2))
			slb, e1 := us.LowerBoundFromSubset(sd, sub)
			sub2, e2 := us.UpperBoundFromSubset(sd, sub)
			est := float64(min(sub, n)) / us.Theta()
			if e1 != nil || e2 != nil || slb > est || sub2 < est || (sub >= n && (slb != lb || sub2 != ub)) || (!us.IsEstimationMode() && (slb != est || sub2 != est)) {
				t.Fatalf("subset bounds %v %v around %v (subset %d of %d) (%v %v)", slb, sub2, est, sub, n, e1, e2)
			}
		}
	}
	nops := vk.Int(t, "nops", 1, 8)
	for o := 0; o < nops; o++ {
		switch op := vk.Int(t, "op", 0, 11); {
		case op <= 5:
			n := vk.Size(t, "n", 1, 3*k)
			from := vk.Size(t, "from", 0, 2*k)
			dup := vk.Int(t, "dup", 2, 9)
			hs := tgen.OpSpec{From: from, N: n, Stride: 1, Order: vk.Int(t, "order", 0, 2)}.Hashes(u)
			hist += fmt.Sprintf(" range(%d,+%d)", from, n)
			for i, h := range hs {
				_ = us.UpdateBytes(tgen.Bytes(h, seed), offer(h))
				if i%dup == 1 {
					_ = us.UpdateBytes(tgen.Bytes(hs[i/2], seed), offer(hs[i/2]))
				}
			}
		case op <= 8:
			for i := vk.Int(t, "nk", 1, 12); i > 0; i-- {
				key := tgen.DrawKey(t, seed)
				hist += " " + key.Desc
				if !key.OK {
					if err := tgen.ApplyKey[int64](key, us, 1); err == nil {
						t.Fatalf("%s accepted", key.Desc)
					}
					continue
				}
				_, had := m.Set[key.Hash]
				err := tgen.ApplyKey[int64](key, us, offer(key.Hash))
				if _, has := m.Set[key.Hash]; has && err != nil {
					t.Fatalf("update %s (already present: %v): %v", key.Desc, had, err)
				}
			}
		case op == 9:
			us.Trim()
			m.Trim()
			hist += " trim"
		case op == 10:
			for d := -1; d <= 1; d++ {
				if h := m.Theta + uint64(d); h <= ref.MaxTheta {
					_ = us.UpdateBytes(tgen.Bytes(h, seed), offer(h))
				}
			}
			hist += " boundary"
		default:
			us.Reset()
			m.Reset()
			clear(vals)
			hist += " reset"
		}
		rebuilt = rebuilt || m.Rebuilds > 0 || len(m.Set) > 16
		if vk.Chance(t, "verify", 1, 2) || o == nops-1 {
			verify()
		}
	}
	for i, cs := range kept {
		if !snap(cs).Equal(keptSnap[i]) {
			t.Fatalf("a compact sketch changed when its source was updated further:%s", hist)
		}
	}
	if rebuilt && multi {
		c.NT(lgk, p, rf, seed, hist)
	}
	if m.Rebuilds > 0 {
		c.Class("rebuilt")
	}
	if c.WantSample() {
		c.Sample("lgk=%d p=%v rf=%d:%s -> %d entries", lgk, p, rf, hist, len(vals))
	}
}
