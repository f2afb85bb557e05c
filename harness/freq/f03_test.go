package freq_test

import (
	"bytes"
	"fmt"
	"maps"
	"runtime"
	"syscall"
	"testing"

	"pgregory.net/rapid"

	"verif/vk"
)

func f03[C comparable](k *kind[C]) func(t *rapid.T, c *vk.Case) {
	return func(t *rapid.T, c *vk.Case) {
		x, hist := build(t, k)
		if vk.Chance(t, "rst", 1, 15) {
			_ = x.reset()
			hist += " reset"
		}
		pr := vk.NewPRNG(uint64(rapid.Uint32().Draw(t, "probe")))
		x.check(t, hist, pr)
		before := state(x.a, x.truth)
		b, err := x.a.bytes()
		if err != nil {
			t.Fatalf("%s: %v", hist, err)
		}
		im, err := readImage(k, b)
		if err != nil {
			t.Fatalf("%s: image: %v (% x)", hist, err, b[:min(len(b), 40)])
		}
		if im.empty != x.a.empty() || im.lgMax != x.lgMax || capOf(im.lgCur) != x.a.curCap() && !im.empty ||
			!im.empty && (im.n != x.a.n() || im.off != x.a.maxErr() || len(im.cnt) != x.a.active()) {
			t.Fatalf("%s: image %+v does not match %s", hist, im, before)
		}
		for it, cn := range im.cnt {
			if lb, _ := x.a.lb(it); lb != cn {
				t.Fatalf("%s: image counter of %v is %d, lower bound %d", hist, it, cn, lb)
			}
		}
		ds := map[string]api[C]{}
		if ds["bytes"], err = x.a.fromBytes(b); err != nil {
			t.Fatalf("%s: decode: %v", hist, err)
		}
		// an image with the items in another order, and trailing bytes of a larger buffer
		im2 := *im
		im2.order = append([]C(nil), im.order...)
		for i := len(im2.order) - 1; i > 0; i-- {
			j := pr.Intn(i + 1)
			im2.order[i], im2.order[j] = im2.order[j], im2.order[i]
		}
		if ds["reordered image"], err = x.a.fromBytes(writeImage(k, &im2)); err != nil {
			t.Fatalf("%s: decode of a reordered image: %v", hist, err)
		}
		s, err := x.a.str()
		if err != nil {
			t.Fatalf("%s: %v", hist, err)
		}
		if d, ok, err := x.a.fromString(s); ok {
			if err != nil {
				t.Fatalf("%s: from string %.300q: %v", hist, s, err)
			}
			ds["string"] = d
		}
		if after := state(x.a, x.truth); after != before {
			t.Fatalf("%s: serializing changed the sketch", hist)
		}
		if b2, _ := x.a.bytes(); !bytes.Equal(b, b2) {
			t.Fatalf("%s: serializing twice gives different bytes", hist)
		}
		want := before
		for nm, d := range ds {
			if d.empty() && nm != "string" {
				// an empty image restarts at the smallest map
				if d.maxCap() != x.a.maxCap() || !d.empty() || d.n() != 0 || d.maxErr() != 0 || d.active() != 0 {
					t.Fatalf("%s: decoded empty sketch from %s: %s", hist, nm, state(d, x.truth))
				}
			} else if got := state(d, x.truth); got != want {
				t.Fatalf("%s: from %s:\n%s\nwant\n%s", hist, nm, got, want)
			}
			b2, err := d.bytes()
			if err != nil {
				t.Fatalf("%s: %v", hist, err)
			}
			im3, err := readImage(k, b2)
			if err != nil || im3.empty != im.empty || im3.lgMax != im.lgMax || !im.empty && im3.lgCur != im.lgCur || im3.n != im.n || im3.off != im.off || !maps.Equal(im3.cnt, im.cnt) {
				t.Fatalf("%s: from %s: encodes to %+v, want %+v (%v)", hist, nm, im3, im, err)
			}
		}
		// decoded sketches keep their guarantees under further use
		more := vk.Chance(t, "more", 2, 3)
		if more {
			for _, nm := range []string{"bytes", "reordered image", "string"} {
				d := ds[nm]
				if d == nil {
					continue
				}
				y := x.clone()
				y.a = d
				ds2, err := stream(t, k, y.lgMax, 3*capOf(y.lgMax), func(it C, w int64) error { return y.upd(it, w, false) })
				h := hist + " [from " + nm + "] " + ds2
				if err != nil {
					t.Fatalf("%s: %v", h, err)
				}
				y.check(t, h, pr)
				z := newSk(t, k, 1, 6)
				if err := z.merge(y); err != nil {
					t.Fatalf("%s: merge: %v", h, err)
				}
				z.check(t, h+fmt.Sprintf(" merged into lgMax=%d", z.lgMax), pr)
				if err := y.merge(x); err != nil {
					t.Fatalf("%s: merge: %v", h, err)
				}
				y.check(t, h+" merged with the original", pr)
			}
			c.Class("continued")
		}
		if !im.empty {
			c.NT(hist)
		}
		if x.a.maxErr() > 0 {
			c.Class("purged")
		}
		if x.n > 0 && x.a.active() == 0 {
			c.Class("no active items but a positive stream length")
		}
		c.Sample("%s -> %d bytes", hist, len(b))
	}
}

// f03Large round-trips sketches with more counters than fit in 16 bits.
func f03Large[C comparable](k *kind[C]) func(t *rapid.T, c *vk.Case) {
	return func(t *rapid.T, c *vk.Case) {
		lg := vk.Int(t, "lgMax", 17, 18)
		n := vk.Int(t, "n", 1<<16-1, capOf(lg)*5/4)
		p := vk.NewPRNG(rapid.Uint64().Draw(t, "seed"))
		a, err := k.mk(lg, 3+p.Intn(lg-2), p.Intn(2) == 0)
		if err != nil {
			t.Fatal(err)
		}
		x := &sk[C]{k: k, truth: map[C]int64{}, fits: true, a: a, lgMax: lg, limit: 1024}
		base := p.U64()
		for i := 0; i < n; i++ {
			if err := x.upd(k.item(base+uint64(i)), 1+int64(p.Intn(1<<20))<<p.Intn(30), false); err != nil {
				t.Fatal(err)
			}
		}
		hist := fmt.Sprintf("%s lgMax=%d %d items, %d active, maximum error %d", k.name, lg, n, a.active(), a.maxErr())
		runtime.LockOSThread()
		t0 := cpu()
		b, err := a.bytes()
		spent := cpu() - t0
		if err != nil {
			t.Fatalf("%s: %v", hist, err)
		}
		if spent > 5 { // linear work takes a hundredth of a second
			t.Fatalf("%s: serializing took %.1f seconds", hist, spent)
		}
		im, err := readImage(k, b)
		if err != nil || im.empty || im.lgMax != lg || im.n != a.n() || im.n != x.n || im.off != a.maxErr() || len(im.cnt) != a.active() {
			t.Fatalf("%s: image %v", hist, err)
		}
		for it, cn := range im.cnt {
			if w := x.truth[it]; cn > w || w > cn+im.off {
				t.Fatalf("%s: image counter of %v is %d, offset %d, true weight %d", hist, it, cn, im.off, w)
			}
		}
		ds := map[string]api[C]{}
		t0 = cpu()
		if ds["bytes"], err = a.fromBytes(b); err != nil {
			t.Fatalf("%s: decode: %v", hist, err)
		}
		if spent = cpu() - t0; spent > 5 {
			t.Fatalf("%s: decoding took %.1f seconds", hist, spent)
		}
		runtime.UnlockOSThread()
		s, err := a.str()
		if err != nil {
			t.Fatalf("%s: %v", hist, err)
		}
		if d, ok, err := a.fromString(s); ok {
			if err != nil {
				t.Fatalf("%s: from string: %v", hist, err)
			}
			ds["string"] = d
		}
		for nm, d := range ds {
			if d.n() != a.n() || d.maxErr() != a.maxErr() || d.active() != a.active() {
				t.Fatalf("%s: from %s: n=%d maximum error %d active %d", hist, nm, d.n(), d.maxErr(), d.active())
			}
			for it, cn := range im.cnt {
				if lb, err := d.lb(it); err != nil || lb != cn {
					t.Fatalf("%s: from %s: lower bound of %v is %d (%v), want %d", hist, nm, it, lb, err, cn)
				}
			}
		}
		if a.active() > 1<<16 {
			c.NT(hist)
			c.Class("more than 65536 counters")
		}
		c.Sample("%s -> %d bytes", hist, len(b))
	}
}

func cpu() float64 {
	var ru syscall.Rusage
	if syscall.Getrusage(1 /* RUSAGE_THREAD */, &ru) != nil {
		return 0
	}
	return float64(ru.Utime.Sec) + float64(ru.Utime.Usec)/1e6 + float64(ru.Stime.Sec) + float64(ru.Stime.Usec)/1e6
}

func TestF03(t *testing.T) {
	vk.Property(t, "F03", "a case is non-trivial if the sketch was not empty when serialized",
		vk.Sub{Name: "longs", Quick: 2400 * 6, Thorough: 50000 * 10, Fn: f03(&kLongs)},
		vk.Sub{Name: "items-long", Quick: 800 * 6, Thorough: 16000 * 10, Fn: f03(&kItemsLong)},
		vk.Sub{Name: "longs-large", Quick: 4, Thorough: 40, Fn: f03Large(&kLongs)},
		vk.Sub{Name: "items-large", Quick: 3, Thorough: 20, Fn: f03Large(&kItemsString)},
		vk.Sub{Name: "items-weak", Quick: 2000, Thorough: 20000, Fn: f03(&kItemsWeak)},
		vk.Sub{Name: "items-double", Quick: 500 * 6, Thorough: 10000 * 10, Fn: f03(&kItemsDouble)},
		vk.Sub{Name: "items-string", Quick: 1000 * 6, Thorough: 20000 * 10, Fn: f03(&kItemsString)},
	)
}
