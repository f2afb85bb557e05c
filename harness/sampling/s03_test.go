package sampling_test

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"slices"
	"testing"

	"github.com/apache/datasketches-go/sampling"
	"pgregory.net/rapid"

	"verif/vk"
)

const (
	famReservoir      = 11
	famReservoirUnion = 12
	famVarOpt         = 13
	famVarOptUnion    = 14
)

// decodeReservoir reads the documented reservoir layout.
func decodeReservoir[T comparable](k *kind[T], b []byte) (kk int, n int64, rf int, items []T, err error) {
	if len(b) < 8 {
		return 0, 0, 0, nil, fmt.Errorf("%d bytes", len(b))
	}
	rf = int(b[0] >> 6)
	pre := int(b[0] & 0x3f)
	if b[1] != 2 || b[2] != famReservoir {
		return 0, 0, 0, nil, fmt.Errorf("version %d family %d", b[1], b[2])
	}
	kk = int(binary.LittleEndian.Uint32(b[4:]))
	if b[3]&4 != 0 {
		if pre != 1 || len(b) != 8 {
			return 0, 0, 0, nil, fmt.Errorf("empty image with %d preamble longs, %d bytes", pre, len(b))
		}
		return kk, 0, rf, nil, nil
	}
	if pre != 2 || len(b) < 16 || b[3] != 0 {
		return 0, 0, 0, nil, fmt.Errorf("preamble longs %d flags %d, %d bytes", pre, b[3], len(b))
	}
	n = int64(binary.LittleEndian.Uint64(b[8:]))
	items, end, err := k.dec(b, 16, int(min(n, int64(kk))))
	if err == nil && end != len(b) {
		err = fmt.Errorf("%d trailing bytes", len(b)-end)
	}
	return kk, n, rf, items, err
}

func encodeReservoir[T comparable](k *kind[T], kk int, n int64, rf int, items []T) []byte {
	b := make([]byte, 8, 16)
	b[0], b[1], b[2] = byte(rf<<6|1), 2, famReservoir
	binary.LittleEndian.PutUint32(b[4:], uint32(kk))
	if n == 0 {
		b[3] = 4
		return b
	}
	b[0]++
	b = binary.LittleEndian.AppendUint64(b, uint64(n))
	return append(b, k.serde.SerializeManyToSlice(items)...)
}

func s03[T comparable](k *kind[T]) func(t *rapid.T, c *vk.Case) {
	return func(t *rapid.T, c *vk.Case) {
		next := 0
		x := newRS(t, k, 2, 30, 2000)
		if err := x.feed(k, &next, runLen(t, x.k)); err != nil {
			t.Fatal(err)
		}
		desc := fmt.Sprintf("%s k=%d rf=%d n=%d", k.name, x.k, x.rf, x.n)
		before := rState(x.s)
		b, err := x.s.ToSlice(k.serde)
		if err != nil {
			t.Fatalf("%s: %v", desc, err)
		}
		kk, n, rf, items, err := decodeReservoir(k, b)
		if err != nil || kk != x.k || n != x.n || rf != int(x.rf) || !slices.Equal(items, x.s.Samples()) {
			t.Fatalf("%s: image reads as k=%d n=%d rf=%d items=%v (%v)", desc, kk, n, rf, items, err)
		}
		if want := encodeReservoir(k, x.k, x.n, int(x.rf), x.s.Samples()); !bytes.Equal(want, b) {
			t.Fatalf("%s: image differs from the documented layout\n got %x\nwant %x", desc, b, want)
		}
		img := slices.Clone(b)
		y, err := sampling.NewReservoirItemsSketchFromSlice[T](img, k.serde)
		if err != nil {
			t.Fatalf("%s: decode: %v", desc, err)
		}
		for i := range img {
			img[i] ^= 0xff
		}
		if got := rState(y); got != before {
			t.Fatalf("%s: decoded %s, was %s", desc, got, before)
		}
		if b2, err := y.ToSlice(k.serde); err != nil || !bytes.Equal(b, b2) {
			t.Fatalf("%s: encoding again: %v\n%x\n%x", desc, err, b, b2)
		}
		// keeps sampling
		d := &rs[T]{s: y, k: x.k, rf: x.rf, n: x.n, may: map[int]bool{}, hist: slices.Clone(x.hist)}
		for _, it := range y.Samples() {
			d.may[k.id(it)] = true
		}
		for j := 0; j < 3; j++ {
			if err := d.feed(k, &next, vk.Int(t, "more", 0, 2*x.k)); err != nil {
				t.Fatalf("%s: decoded sketch: %v", desc, err)
			}
			if err := d.check(k); err != nil {
				t.Fatalf("%s: decoded sketch: %v", desc, err)
			}
		}
		if got := rState(x.s); got != before {
			t.Fatalf("%s: serialization or the decoded sketch changed the original", desc)
		}
		// every cut is an error (items of variable width included), and so are foreign headers
		var cut int
		if vk.Chance(t, "short", 1, 2) {
			cut = vk.Int(t, "cut", 0, min(len(b)-1, 20))
		} else {
			cut = vk.Int(t, "cut", 0, len(b)-1)
		}
		if _, err := sampling.NewReservoirItemsSketchFromSlice[T](b[:cut:cut], k.serde); err == nil {
			t.Fatalf("%s: %d of %d bytes decoded without error", desc, cut, len(b))
		}
		bad := slices.Clone(b)
		which := vk.Int(t, "bad", 0, 2)
		v := byte(vk.Int(t, "val", 0, 255))
		switch {
		case which == 0 && v != 1 && v != 2:
			bad[1] = v
		case which == 1 && v != famReservoir:
			bad[2] = v
		case which == 2 && v&0x3f != 1 && v&0x3f != 2:
			bad[0] = v
		default:
			bad = nil
		}
		if bad != nil {
			if _, err := sampling.NewReservoirItemsSketchFromSlice[T](bad, k.serde); err == nil {
				t.Fatalf("%s: header %x accepted", desc, bad[:4])
			}
		}
		// version 1 images hold k as a 16-bit encoded size: powers of two are exact
		if lg := vk.Int(t, "lgk", 1, 20); x.n > 0 && x.n < int64(1)<<lg && x.n <= int64(x.k) {
			v1 := slices.Clone(b)
			v1[1] = 1
			binary.LittleEndian.PutUint32(v1[4:], uint32(lg<<11))
			z, err := sampling.NewReservoirItemsSketchFromSlice[T](v1, k.serde)
			if err != nil || z.K() != 1<<lg || z.N() != x.n || !slices.Equal(z.Samples(), x.s.Samples()) {
				t.Fatalf("%s: version 1 image with k=2^%d: %v", desc, lg, err)
			}
			c.Class("version 1")
		}
		if x.n > 0 {
			c.NT(desc)
			if x.n > int64(x.k) {
				c.Class("sampling")
			} else {
				c.Class("exact")
			}
			if c.WantSample() {
				c.Sample("%s -> %d bytes", desc, len(b))
			}
		}
	}
}

func s03Union[T comparable](k *kind[T]) func(t *rapid.T, c *vk.Case) {
	return func(t *rapid.T, c *vk.Case) {
		next := 0
		x := newRU[T](t, drawK(t, 2, 30, 3000))
		desc := fmt.Sprintf("%s maxK=%d", k.name, x.maxK)
		for i, m := 0, vk.Int(t, "inputs", 0, 4); i < m; i++ {
			y := newRS(t, k, 2, 40, 800)
			if err := y.feed(k, &next, runLen(t, y.k)); err != nil {
				t.Fatal(err)
			}
			desc += fmt.Sprintf(" <-(k=%d,n=%d)", y.k, y.n)
			if err := x.u.UpdateSketch(y.s); err != nil {
				t.Fatalf("%s: %v", desc, err)
			}
			x.offer(k, y.s.Samples(), y.k, y.n)
		}
		r, err := x.check(k)
		if err != nil {
			t.Fatalf("%s: %v", desc, err)
		}
		b, err := x.u.ToSlice(k.serde)
		if err != nil {
			t.Fatalf("%s: ToSlice: %v", desc, err)
		}
		if len(b) < 8 || b[0]&0x3f != 1 || b[1] != 2 || b[2] != famReservoirUnion || int(binary.LittleEndian.Uint32(b[4:])) != x.maxK {
			t.Fatalf("%s: union header %x", desc, b[:min(8, len(b))])
		}
		if x.n == 0 {
			if len(b) != 8 || b[3]&4 == 0 {
				t.Fatalf("%s: empty union image %x", desc, b)
			}
		} else {
			kk, n, _, items, err := decodeReservoir(k, b[8:])
			if err != nil || b[3]&4 != 0 || kk != r.K() || n != r.N() || !slices.Equal(items, r.Samples()) {
				t.Fatalf("%s: union image reads as k=%d n=%d items=%v (%v), result %s", desc, kk, n, items, err, rState(r))
			}
		}
		img := slices.Clone(b)
		u2, err := sampling.NewReservoirItemsUnionFromSlice[T](img, k.serde)
		if err != nil {
			t.Fatalf("%s: decode: %v", desc, err)
		}
		for i := range img {
			img[i] ^= 0xff
		}
		old := x.u
		x.u = u2
		r2, err := x.check(k)
		if err != nil {
			t.Fatalf("%s: decoded union: %v", desc, err)
		}
		if r != nil && x.n > 0 && rState(r) != rState(r2) {
			t.Fatalf("%s: decoded union's result %s, was %s", desc, rState(r2), rState(r))
		}
		if b2, err := u2.ToSlice(k.serde); err != nil || !bytes.Equal(b2[:8], b[:8]) || (x.n > 0 && !bytes.Equal(b2[9:], b[9:])) {
			t.Fatalf("%s: encoding again: %v\n%x\n%x", desc, err, b, b2)
		}
		for i := 0; i < 2; i++ {
			y := newRS(t, k, 2, 40, 100)
			if err := y.feed(k, &next, runLen(t, y.k)); err != nil {
				t.Fatal(err)
			}
			if err := u2.UpdateSketch(y.s); err != nil {
				t.Fatalf("%s: decoded union: %v", desc, err)
			}
			x.offer(k, y.s.Samples(), y.k, y.n)
			if _, err := x.check(k); err != nil {
				t.Fatalf("%s: decoded union + (k=%d,n=%d): %v", desc, y.k, y.n, err)
			}
		}
		if r3, _ := old.Result(); r != nil && rState(r3) != rState(r) {
			t.Fatalf("%s: the original union changed", desc)
		}
		cut := vk.Int(t, "cut", 0, len(b)-1)
		if _, err := sampling.NewReservoirItemsUnionFromSlice[T](b[:cut:cut], k.serde); err == nil {
			t.Fatalf("%s: %d of %d bytes decoded without error", desc, cut, len(b))
		}
		bad := slices.Clone(b)
		p := vk.Int(t, "bad", 0, 2)
		bad[p] ^= byte(1 << vk.Int(t, "bit", 2, 5))
		if _, err := sampling.NewReservoirItemsUnionFromSlice[T](bad, k.serde); err == nil {
			t.Fatalf("%s: header %x accepted", desc, bad[:4])
		}
		if x.n > 0 {
			c.NT(desc)
			if c.WantSample() {
				c.Sample("%s -> %d bytes", desc, len(b))
			}
		}
	}
}

func TestS03(t *testing.T) {
	vk.Property(t, "S03", "the serialized sketch or union is not empty",
		vk.Sub{Name: "sketch-long", Quick: 2000, Thorough: 30000, Fn: s03(kLong)},
		vk.Sub{Name: "sketch-double", Quick: 800, Thorough: 10000, Fn: s03(kDouble)},
		vk.Sub{Name: "sketch-string", Quick: 1500, Thorough: 20000, Fn: s03(kString)},
		vk.Sub{Name: "union-long", Quick: 1500, Thorough: 20000, Fn: s03Union(kLong)},
		vk.Sub{Name: "union-string", Quick: 1000, Thorough: 12000, Fn: s03Union(kString)},
		vk.Sub{Name: "images-long", Quick: 2500, Thorough: 40000, Fn: s03Images(kLong)},
		vk.Sub{Name: "images-string", Quick: 1000, Thorough: 15000, Fn: s03Images(kString)},
	)
}
