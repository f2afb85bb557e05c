package freq_test

import (
	"fmt"
	"testing"

	"pgregory.net/rapid"

	"verif/vk"
)

func f01[C comparable](k *kind[C]) func(t *rapid.T, c *vk.Case) { return f01of(k, 1, 6) }

func f01of[C comparable](k *kind[C], lo, hi int) func(t *rapid.T, c *vk.Case) {
	return func(t *rapid.T, c *vk.Case) {
		hi := hi
		if vk.Chance(t, "large", 1, 6) {
			hi = max(hi, 11)
		}
		pool := []*sk[C]{newSk(t, k, lo, hi), newSk(t, k, lo, hi), newSk(t, k, lo, hi)}
		hist := fmt.Sprintf("%s lgMax=%d,%d,%d", k.name, pool[0].lgMax, pool[1].lgMax, pool[2].lgMax)
		merges, purged, trips := 0, 0, 0
		pr := vk.NewPRNG(uint64(rapid.Uint32().Draw(t, "probe")))
		steps := vk.Int(t, "steps", 2, 12)
		for st := 0; st < steps; st++ {
			i := vk.Int(t, "i", 0, 2)
			x := pool[i]
			switch op := vk.Int(t, "op", 0, 10); op {
			case 0, 1, 2, 3:
				plain := vk.Chance(t, "plain", 1, 2)
				mx := 6 * capOf(x.lgMax)
				d, err := stream(t, k, x.lgMax, mx, func(it C, w int64) error { return x.upd(it, w, plain) })
				hist += fmt.Sprintf(" #%d+%s", i, d)
				if err != nil {
					t.Fatalf("%s: %v", hist, err)
				}
			case 4: // a single heavy or negative update
				it := k.item(uint64(vk.Int(t, "it", 0, 20)))
				if vk.Chance(t, "neg", 1, 3) {
					before := state(x.a, x.truth)
					if err := x.a.upd(it, -1-int64(vk.Int(t, "w", 0, 5)), false); err == nil {
						t.Fatalf("%s: negative weight accepted", hist)
					}
					if state(x.a, x.truth) != before {
						t.Fatalf("%s: rejected update changed the sketch", hist)
					}
					continue
				}
				w := int64(vk.Int(t, "w", 0, 1<<30)) << vk.Int(t, "sh", 0, 20)
				hist += fmt.Sprintf(" #%d+(%v,%d)", i, it, w)
				if err := x.upd(it, w, false); err != nil {
					t.Fatalf("%s: %v", hist, err)
				}
			case 5, 6, 7:
				j := (i + vk.Int(t, "j", 0, 4)) % 3 // now and then with itself
				o := pool[j]
				hist += fmt.Sprintf(" #%d<-#%d", i, j)
				before := state(o.a, o.truth)
				if err := x.merge(o); err != nil {
					t.Fatalf("%s: %v", hist, err)
				}
				if after := state(o.a, o.truth); i != j && after != before {
					t.Fatalf("%s: merge changed its source:\n%s\n%s", hist, before, after)
				}
				if o.n > 0 {
					merges++
				}
			case 8:
				if vk.Chance(t, "rst", 1, 2) {
					hist += fmt.Sprintf(" reset#%d", i)
					if err := x.reset(); err != nil {
						t.Fatalf("%s: %v", hist, err)
					}
				}
			default:
				hist += fmt.Sprintf(" trip#%d", i)
				b, err := x.a.bytes()
				if err != nil {
					t.Fatalf("%s: %v", hist, err)
				}
				if x.a, err = x.a.fromBytes(b); err != nil {
					t.Fatalf("%s: decode: %v", hist, err)
				}
				trips++
			}
			x.check(t, hist, pr)
			if x.a.maxErr() > 0 {
				purged++
			}
		}
		if purged > 0 || merges > 0 {
			c.NT(hist)
		}
		if purged > 0 {
			c.Class("purged")
		}
		if merges > 0 {
			c.Class("merged")
		}
		if trips > 0 {
			c.Class("round-trip inside")
		}
		c.Sample("%s", hist)
	}
}

func TestF01(t *testing.T) {
	vk.Property(t, "F01", "a case is non-trivial if a purge (positive maximum error) or a merge of a non-empty sketch happened",
		vk.Sub{Name: "longs", Quick: 3000 * 6, Thorough: 60000 * 10, Fn: f01(&kLongs)},
		vk.Sub{Name: "longs-large", Quick: 24, Thorough: 240, Fn: f01of(&kLongs, 11, 15)},
		vk.Sub{Name: "items-large", Quick: 16, Thorough: 120, Fn: f01of(&kItemsString, 11, 14)},
		vk.Sub{Name: "items-long", Quick: 1200 * 6, Thorough: 24000 * 10, Fn: f01(&kItemsLong)},
		vk.Sub{Name: "items-weak", Quick: 4000, Thorough: 40000, Fn: f01(&kItemsWeak)},
		vk.Sub{Name: "items-double", Quick: 600 * 6, Thorough: 12000 * 10, Fn: f01(&kItemsDouble)},
		vk.Sub{Name: "items-string", Quick: 1200 * 6, Thorough: 24000 * 10, Fn: f01(&kItemsString)},
	)
}
