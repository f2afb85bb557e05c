package tdigest_test

import (
	"bytes"
	"fmt"
	"math"
	"slices"
	"testing"

	"pgregory.net/rapid"

	"verif/vk"
)

func bothDecode(b []byte) (string, error) {
	d1, e1 := decode(b, false)
	d2, e2 := decode(b, true)
	if (e1 == nil) != (e2 == nil) {
		return "", fmt.Errorf("slice decoder: %v, stream decoder: %v", e1, e2)
	}
	if e1 != nil {
		return "error", nil
	}
	if state(d1) != state(d2) {
		return "", fmt.Errorf("slice and stream decoders differ:\n%s\n%s", state(d1), state(d2))
	}
	return state(d1), nil
}

func d03(t *rapid.T, c *vk.Case) {
	var x *sk
	var desc string
	if vk.Chance(t, "empty", 1, 12) {
		k := drawK(t)
		x, _ = newSk(k)
		desc = fmt.Sprintf("k=%d empty", k)
	} else {
		x, desc = build(t, 3000)
	}
	d := x.d
	if x.n > 0 && vk.Chance(t, "query", 1, 2) {
		_, _ = d.Quantile(0.5)
		desc += " queried"
	}
	wb := vk.Chance(t, "withBuffer", 2, 3)
	desc += fmt.Sprintf(" withBuffer=%v", wb)
	before := state(d)
	size := d.SerializedSizeBytes(wb)
	b, err := encode(d, wb, false)
	if err != nil {
		t.Fatalf("%s: %v", desc, err)
	}
	b2, err := encode(d, wb, true)
	if err != nil || !bytes.Equal(b, b2) {
		t.Fatalf("%s: stream encoder %v % x, slice encoder % x", desc, err, b2, b)
	}
	if len(b) != size || d.SerializedSizeBytes(wb) != size {
		t.Fatalf("%s: %d bytes, reported size %d", desc, len(b), size)
	}
	if wb && state(d) != before {
		t.Fatalf("%s: encoding changed the digest", desc)
	}
	w, err := parse(b)
	if err != nil {
		t.Fatalf("%s: %v", desc, err)
	}
	if !bytes.Equal(unparse(w), b) {
		t.Fatalf("%s: image differs from the documented layout", desc)
	}
	if !wb && len(w.buf) != 0 && x.n != 1 {
		t.Fatalf("%s: %d buffered values in an image without buffer", desc, len(w.buf))
	}
	if err := x.check(); err != nil {
		t.Fatalf("%s: %v", desc, err)
	}
	st, err := bothDecode(b)
	if err != nil || st == "error" {
		t.Fatalf("%s: decode: %s %v", desc, st, err)
	}
	d2, _ := decode(b, vk.Chance(t, "sd", 1, 2))
	y := &sk{}
	*y = *x
	y.vals = append([]float64(nil), x.vals...)
	y.d = d2
	if err := y.check(); err != nil {
		t.Fatalf("%s: decoded: %v", desc, err)
	}
	if b3, err := encode(d2, true, false); err != nil || !bytes.Equal(b3, b) {
		// a single value may be held as a centroid or in the buffer; its image is the same
		t.Fatalf("%s: re-encoding differs (%v)", desc, err)
	}
	n0 := x.n
	if x.n > 0 {
		for i := 0; i < 6; i++ {
			r := drawR(t, wire{cs: []cent{{0, x.n}}}, x.n)
			q1, e1 := d.Quantile(r)
			q2, e2 := d2.Quantile(r)
			if e1 != nil || e2 != nil || q1 != q2 {
				t.Fatalf("%s: quantile(%v)=%v,%v decoded %v,%v", desc, r, q1, e1, q2, e2)
			}
			r1, e1 := d.Rank(q1)
			r2, e2 := d2.Rank(q1)
			if e1 != nil || e2 != nil || r1 != r2 {
				t.Fatalf("%s: rank(%v)=%v,%v decoded %v,%v", desc, q1, r1, e1, r2, e2)
			}
		}
	}
	// both go on alike
	for i, n := 0, vk.Int(t, "more", 0, 3); i < n; i++ {
		if vk.Chance(t, "merge", 1, 3) {
			o, ds := build(t, 500)
			desc += " merge " + ds
			if e1, e2 := x.merge(o), y.merge(o); e1 != nil || e2 != nil {
				t.Fatalf("%s: %v %v", desc, e1, e2)
			}
		} else {
			vs, ds := stream(t, 2500)
			desc += " + " + ds
			for _, v := range vs {
				if e1, e2 := x.update(v), y.update(v); e1 != nil || e2 != nil {
					t.Fatalf("%s: %v %v", desc, e1, e2)
				}
			}
		}
		if err := y.check(); err != nil {
			t.Fatalf("%s: decoded: %v", desc, err)
		}
		s1, e1 := encode(d, false, false)
		s2, e2 := encode(d2, false, false)
		if e1 != nil || e2 != nil || (n0 != 1 && !bytes.Equal(s1, s2)) {
			t.Fatalf("%s: the decoded digest goes on differently", desc)
		}
	}
	// truncations and wrong headers
	cut := vk.Int(t, "cut", 0, len(b)-1)
	if st, err := bothDecode(b[:cut]); err != nil || st != "error" {
		t.Fatalf("%s: image cut to %d of %d bytes: %s %v", desc, cut, len(b), st, err)
	}
	for _, m := range []int{0, 1, 2} {
		bad := bytes.Clone(b)
		bad[m] ^= byte(1 << vk.Int(t, "bit", 0, 7))
		if st, err := bothDecode(bad); err != nil || st != "error" {
			t.Fatalf("%s: header byte %d changed from %d to %d: %s %v", desc, m, b[m], bad[m], st, err)
		}
	}
	if len(w.cs) > 1 {
		c.NT(desc)
	}
	if c.WantSample() {
		c.Sample("%s", desc)
	}
}

// images written by the reference codec, in the native and the two legacy formats
func d03ref(t *rapid.T, c *vk.Case) {
	kind, k, b, cs, mn, mx := foreign(t, nil)
	desc := fmt.Sprintf("type %d k=%d %v %v..%v", kind, k, cs, mn, mx)
	if st, err := bothDecode(b); err != nil || st == "error" {
		t.Fatalf("%s: %s %v", desc, st, err)
	}
	d, err := decode(b, vk.Chance(t, "st", 1, 2))
	if err != nil {
		t.Fatalf("%s: %v", desc, err)
	}
	x := adopt(d, k, cs, mn, mx)
	if err := x.check(); err != nil {
		t.Fatalf("%s: %v", desc, err)
	}
	// the same content in the native format, with some values left in the buffer
	nw := wire{pre: 2, k: k, min: mn, max: mx, cs: cs, flags: 4 * byte(vk.Int(t, "rev", 0, 1))}
	for i, n := 0, vk.Int(t, "nbuf", 0, 5); i < n; i++ {
		v := mn + (mx-mn)*float64(vk.Int(t, "bv", 0, 8))/8
		nw.buf = append(nw.buf, v)
	}
	if len(nw.buf) == 0 && len(cs) == 1 && cs[0].w == 1 {
		nw.flags |= 2
		nw.pre = 1
	}
	nb := unparse(nw)
	desc += fmt.Sprintf(" +buffer %v", nw.buf)
	if st, err := bothDecode(nb); err != nil || st == "error" {
		t.Fatalf("%s: native: %s %v", desc, st, err)
	}
	d2, err := decode(nb, vk.Chance(t, "st", 1, 2))
	if err != nil {
		t.Fatalf("%s: native: %v", desc, err)
	}
	y := adopt(d2, k, cs, mn, mx)
	for _, v := range nw.buf {
		y.n++
		y.sum += v
	}
	if err := y.check(); err != nil {
		t.Fatalf("%s: native: %v", desc, err)
	}
	if len(nw.buf) == 0 {
		for i := 0; i < 5; i++ {
			v := drawValue(t, wire{cs: cs, min: mn, max: mx})
			if math.IsInf(v, 0) {
				continue
			}
			r1, e1 := d.Rank(v)
			r2, e2 := d2.Rank(v)
			if e1 != nil || e2 != nil || r1 != r2 || math.Abs(r1-refRank(wire{cs: cs, min: mn, max: mx}, x.n, v)) > 1e-12 {
				t.Fatalf("%s: rank(%v)=%v,%v / %v,%v", desc, v, r1, e1, r2, e2)
			}
		}
	}
	for cut := 0; cut < len(b); cut++ {
		if st, err := bothDecode(b[:cut]); err != nil || st != "error" {
			t.Fatalf("%s: image cut to %d of %d bytes: %s %v", desc, cut, len(b), st, err)
		}
	}
	// a value that no digest can hold, in any one field
	nan := vk.Pick(t, "nan", math.NaN(), math.Float64frombits(0xfff8000000000001), math.Float64frombits(0x7ff0000000000001))
	bad := vk.Pick(t, "bad", nan, math.Inf(1), math.Inf(-1))
	mutate := func(what string, img []byte) {
		if st, err := bothDecode(img); err != nil || st != "error" {
			t.Fatalf("%s: accepted with %s: %s %v", desc, what, st, err)
		}
	}
	at := vk.Int(t, "badat", 0, len(cs)-1)
	ncs := slices.Clone(cs)
	ncs[at].m = bad
	mutate(fmt.Sprintf("mean %d = %v", at, bad), compat(kind, k, mn, mx, ncs))
	if nw.flags&2 != 0 {
		sw := nw
		sw.min = bad
		mutate(fmt.Sprintf("single value %v", bad), unparse(sw))
	} else {
		sw := nw
		sw.cs = ncs
		mutate(fmt.Sprintf("mean %d = %v", at, bad), unparse(sw))
		sw = nw
		sw.min = nan
		mutate("min NaN", unparse(sw))
		sw = nw
		sw.max = nan
		mutate("max NaN", unparse(sw))
		sw = nw
		sw.cs = slices.Clone(cs)
		sw.cs[at].w = 0
		mutate(fmt.Sprintf("weight %d = 0", at), unparse(sw))
		if len(nw.buf) > 0 {
			sw = nw
			sw.buf = slices.Clone(nw.buf)
			i := vk.Int(t, "badbuf", 0, len(nw.buf)-1)
			sw.buf[i] = bad
			mutate(fmt.Sprintf("buffered %d = %v", i, bad), unparse(sw))
		}
	}
	mutate("min NaN", compat(kind, k, nan, mx, cs))
	mutate("max NaN", compat(kind, k, mn, nan, cs))
	ncs = slices.Clone(cs)
	ncs[at].w = 0
	mutate(fmt.Sprintf("weight %d = 0", at), compat(kind, k, mn, mx, ncs))
	c.NT(desc)
	if c.WantSample() {
		c.Sample("%s", desc)
	}
}

func TestD03(t *testing.T) {
	vk.Property(t, "D03", "the image holds at least two centroids, or comes from the reference encoder",
		vk.Sub{Name: "roundtrip", Quick: 20000, Thorough: 400000, Fn: d03},
		vk.Sub{Name: "formats", Quick: 15000, Thorough: 200000, Fn: d03ref},
	)
}
