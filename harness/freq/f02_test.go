package freq_test

import (
	"fmt"
	"testing"

	"pgregory.net/rapid"

	"verif/vk"
)

// build makes one sketch from streams and merges.
func build[C comparable](t *rapid.T, k *kind[C]) (*sk[C], string) {
	hi := 6
	if vk.Chance(t, "large", 1, 6) {
		hi = 10
	}
	x := newSk(t, k, 1, hi)
	hist := fmt.Sprintf("%s lgMax=%d", k.name, x.lgMax)
	for i := vk.Int(t, "parts", 1, 4); i > 0; i-- {
		y := x
		if vk.Chance(t, "viaMerge", 1, 3) {
			y = newSk(t, k, 1, hi)
		}
		d, err := stream(t, k, y.lgMax, 5*capOf(y.lgMax), func(it C, w int64) error { return y.upd(it, w, false) })
		if err != nil {
			t.Fatalf("%s: %s: %v", hist, d, err)
		}
		if y != x {
			d = fmt.Sprintf("merge(lgMax=%d %s)", y.lgMax, d)
			if err := x.merge(y); err != nil {
				t.Fatalf("%s: %s: %v", hist, d, err)
			}
		}
		hist += " " + d
	}
	return x, hist
}

func f02[C comparable](k *kind[C]) func(t *rapid.T, c *vk.Case) {
	return func(t *rapid.T, c *vk.Case) {
		x, hist := build(t, k)
		a := x.a
		me := a.maxErr()
		var cnts []int64
		for _, w := range x.truth {
			cnts = append(cnts, w)
		}
		var mx int64
		for _, w := range cnts {
			mx = max(mx, w)
		}
		before := state(a, x.truth)
		nt := false
		thrs := []*int64{nil}
		add := func(v int64) { thrs = append(thrs, &v) }
		add(0)
		add(-5)
		add(me)
		add(me + 1)
		add(mx)
		add(mx + 1)
		add(int64(vk.Int(t, "thr", 0, 1<<30)) % (mx + 2))
		add(x.n / int64(vk.Int(t, "frac", 2, 100)))
		for _, thr := range thrs {
			eff, desc := me, "default"
			if thr != nil {
				eff, desc = max(me, *thr), fmt.Sprint(*thr)
			}
			for _, nfn := range []bool{false, true} {
				rs, err := a.rows(nfn, thr)
				if err != nil {
					t.Fatalf("%s: %v", hist, err)
				}
				ctx := func() string {
					return fmt.Sprintf("%s: threshold %s (max error %d), noFalseNegatives=%v", hist, desc, me, nfn)
				}
				seen := map[C]bool{}
				for i, r := range rs {
					if seen[r.item] {
						t.Fatalf("%s: item %v returned twice", ctx(), r.item)
					}
					seen[r.item] = true
					e, _ := a.est(r.item)
					l, _ := a.lb(r.item)
					u, _ := a.ub(r.item)
					if e != r.est || l != r.lb || u != r.ub {
						t.Fatalf("%s: row %+v but the sketch answers est=%d lb=%d ub=%d", ctx(), r, e, l, u)
					}
					if i > 0 && rs[i-1].est < r.est {
						t.Fatalf("%s: rows not in descending order of estimate", ctx())
					}
					tr, ok := x.truth[r.item]
					if !ok {
						t.Fatalf("%s: item %v was never seen", ctx(), r.item)
					}
					if !nfn && (tr < eff || r.lb < eff) {
						t.Fatalf("%s: false positive %v with true weight %d", ctx(), r.item, tr)
					}
					if nfn && r.ub < eff {
						t.Fatalf("%s: item %v with upper bound %d", ctx(), r.item, r.ub)
					}
				}
				for it, tr := range x.truth {
					l, _ := a.lb(it)
					u, _ := a.ub(it)
					if nfn && tr > eff && !seen[it] {
						t.Fatalf("%s: false negative %v with true weight %d", ctx(), it, tr)
					}
					if (nfn && l > 0 && u > eff || !nfn && l > eff) && !seen[it] {
						t.Fatalf("%s: item %v with bounds [%d,%d] missing", ctx(), it, l, u)
					}
				}
				if len(rs) > 0 && len(rs) < len(x.truth) {
					nt = true
				}
			}
		}
		if state(a, x.truth) != before {
			t.Fatalf("%s: queries changed the sketch", hist)
		}
		if nt {
			c.NT(hist)
		}
		if me > 0 {
			c.Class("purged")
		}
		c.Sample("%s max error %d of %d", hist, me, x.n)
	}
}

func TestF02(t *testing.T) {
	vk.Property(t, "F02", "a case is non-trivial if some query returned some but not all of the items seen",
		vk.Sub{Name: "longs", Quick: 2400 * 6, Thorough: 50000 * 10, Fn: f02(&kLongs)},
		vk.Sub{Name: "items-long", Quick: 800 * 6, Thorough: 16000 * 10, Fn: f02(&kItemsLong)},
		vk.Sub{Name: "items-weak", Quick: 2000, Thorough: 20000, Fn: f02(&kItemsWeak)},
		vk.Sub{Name: "items-double", Quick: 400 * 6, Thorough: 8000 * 10, Fn: f02(&kItemsDouble)},
		vk.Sub{Name: "items-string", Quick: 800 * 6, Thorough: 16000 * 10, Fn: f02(&kItemsString)},
	)
}
