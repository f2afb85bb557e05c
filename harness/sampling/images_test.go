package sampling_test

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"slices"

	"github.com/apache/datasketches-go/sampling"
	"pgregory.net/rapid"

	"verif/vk"
)

// hugeN draws a stream length beyond k, up to most, evenly over its number of bits.
func hugeN(t *rapid.T, k int, most int64) int64 {
	lo := int64(k) + 1
	if vk.Chance(t, "edge", 1, 6) {
		return max(lo, vk.Pick(t, "n", most, most-1, 1<<32, 1<<32-1, 1<<31, 1<<31+1, 1<<16+int64(k)))
	}
	bits := vk.Int(t, "bits", 1, 62)
	n := rapid.Int64Range(0, math.MaxInt64).Draw(t, "n") >> (63 - bits)
	return min(max(n, lo), most)
}

// s03Images reads images of sketches that no test could grow: very long streams, every k.
func s03Images[T comparable](k *kind[T]) func(t *rapid.T, c *vk.Case) {
	const most = 1<<48 - 1
	return func(t *rapid.T, c *vk.Case) {
		kk := vk.Size(t, "k", 2, 40)
		n := hugeN(t, kk, most)
		if vk.Chance(t, "exact", 1, 4) {
			kk = 2 + int(rapid.Uint32().Draw(t, "bigk")>>vk.Int(t, "shift", 1, 30))
			n = int64(vk.Int(t, "small", 0, min(kk, 40)))
		}
		rf := vk.Int(t, "rf", 0, 3)
		items := make([]T, min(n, int64(kk)))
		for i := range items {
			items[i] = k.item(i + 1)
		}
		b := encodeReservoir(k, kk, n, rf, items)
		desc := fmt.Sprintf("%s image k=%d n=%d rf=%d", k.name, kk, n, rf)
		s, err := sampling.NewReservoirItemsSketchFromSlice[T](slices.Clone(b), k.serde)
		if err != nil {
			t.Fatalf("%s: %v", desc, err)
		}
		if s.K() != kk || s.N() != n || !slices.Equal(s.Samples(), items) {
			t.Fatalf("%s reads as %s", desc, rState(s))
		}
		if b2, err := s.ToSlice(k.serde); err != nil || !bytes.Equal(b, b2) {
			t.Fatalf("%s written again (%v)\n%x\n%x", desc, err, b, b2)
		}
		all, err := s.EstimateSubsetSum(func(T) bool { return true })
		if err != nil || n > 0 && math.Abs(all.Estimate-float64(n)) > 1e-9*float64(n) || math.Abs(all.TotalSketchWeight-float64(n)) > 1e-9*float64(n) {
			t.Fatalf("%s: the whole stream weighs %+v (%v)", desc, all, err)
		}
		// the same sketch inside a union
		maxK := kk + vk.Int(t, "wider", 0, 3)
		if kk > 1000 {
			maxK = kk
		}
		ub := append([]byte{1, 2, famReservoirUnion, 0, 0, 0, 0, 0}, b...)
		binary.LittleEndian.PutUint32(ub[4:], uint32(maxK))
		if n > 0 {
			u, err := sampling.NewReservoirItemsUnionFromSlice[T](slices.Clone(ub), k.serde)
			if err != nil {
				t.Fatalf("%s in a union: %v", desc, err)
			}
			r, err := u.Result()
			if err != nil || r == nil || r.N() != n || !slices.Equal(r.Samples(), items) || n > int64(kk) && r.K() != kk {
				t.Fatalf("%s in a union of %d: %v (%v)", desc, maxK, r, err)
			}
			ub2, err := u.ToSlice(k.serde)
			if err != nil || len(ub2) < 16 || int(binary.LittleEndian.Uint32(ub2[4:])) != maxK {
				t.Fatalf("%s in a union of %d written again: %v %x", desc, maxK, err, ub2)
			}
			if k2, n2, _, i2, err := decodeReservoir(k, ub2[8:]); err != nil || n2 != n || k2 != r.K() || !slices.Equal(i2, items) {
				t.Fatalf("%s in a union of %d reads again as k=%d n=%d (%v)", desc, maxK, k2, n2, err)
			}
		}
		if n == most {
			if err := s.Update(k.item(999)); err == nil {
				t.Fatalf("%s: an item beyond the limit was accepted", desc)
			}
			if s.N() != n || !slices.Equal(s.Samples(), items) {
				t.Fatalf("%s: the refused item changed the sketch", desc)
			}
		} else {
			if err := s.Update(k.item(999)); err != nil || s.N() != n+1 || s.NumSamples() != int(min(n+1, int64(kk))) {
				t.Fatalf("%s + 1: %s (%v)", desc, rState(s), err)
			}
		}
		if n > 0 {
			c.NT(desc)
		}
		c.Class("images")
		c.Sample("%s", desc)
	}
}

// v03Images reads images of VarOpt sketches with extreme weights and very long streams.
func v03Images[T comparable](k *kind[T]) func(t *rapid.T, c *vk.Case) {
	return func(t *rapid.T, c *vk.Case) {
		le := binary.LittleEndian
		h := vk.Int(t, "h", 0, 20)
		r := vk.Int(t, "r", 0, 20)
		gadget := vk.Chance(t, "gadget", 1, 3)
		if h+r == 0 {
			h = 1
		}
		p := vk.NewPRNG(rapid.Uint64().Draw(t, "seed"))
		lo, hi := -1074, 900
		if vk.Chance(t, "moderate", 1, 2) {
			lo, hi = -20, 40
		}
		weight := func() float64 { return math.Ldexp(1+p.F64(), lo+p.Intn(hi-lo)) }
		ws := make([]float64, h)
		for i := range ws {
			if ws[i] = weight(); ws[i] == 0 {
				ws[i] = math.SmallestNonzeroFloat64
			}
		}
		slices.Sort(ws) // a sorted array is a heap
		kk, n, wr := h+r, int64(h), 0.0
		pre := byte(3)
		if r > 0 {
			pre = 4
			n = hugeN(t, kk, 1<<62)
			// the threshold is at most the smallest kept weight
			tau := weight()
			if h > 0 {
				tau = min(tau, ws[0])
			}
			if wr = tau * float64(r) * 0.99; wr == 0 {
				wr = math.SmallestNonzeroFloat64
			}
		} else {
			kk = h + int(rapid.Uint32().Draw(t, "bigk")>>vk.Int(t, "shift", 12, 31))
		}
		rf := vk.Int(t, "rf", 0, 3)
		items := make([]T, h+r)
		for i := range items {
			items[i] = k.item(i + 1)
		}
		b := make([]byte, 24)
		b[0], b[1], b[2] = byte(rf<<6)|pre, 2, famVarOpt
		le.PutUint32(b[4:], uint32(kk))
		le.PutUint64(b[8:], uint64(n))
		le.PutUint32(b[16:], uint32(h))
		le.PutUint32(b[20:], uint32(r))
		if r > 0 {
			b = le.AppendUint64(b, math.Float64bits(wr))
		}
		for _, w := range ws {
			b = le.AppendUint64(b, math.Float64bits(w))
		}
		if gadget {
			b[3] |= 128
			for i := 0; i < h; i += 8 {
				b = append(b, byte(p.U64())&byte(1<<min(8, h-i)-1))
			}
		}
		b = append(b, k.serde.SerializeManyToSlice(items)...)
		desc := fmt.Sprintf("%s image k=%d n=%d h=%d r=%d rf=%d gadget=%v weights 2^%d..2^%d", k.name, kk, n, h, r, rf, gadget, lo, hi)
		s, err := sampling.DecodeVarOptItemsSketch[T](slices.Clone(b), k.serde)
		if err != nil {
			t.Fatalf("%s: %v", desc, err)
		}
		if s.K() != kk || s.N() != n || s.H() != h || s.R() != r {
			t.Fatalf("%s reads as %s", desc, vState(s))
		}
		for i, e := range samplesOf(s) {
			if e.Item != items[i] || i < h && e.Weight != ws[i] || i >= h && !closeTo(e.Weight, wr/float64(r)) {
				t.Fatalf("%s: sample %d is %v", desc, i, e)
			}
		}
		if b2, err := vEncode(k, s); err != nil || !bytes.Equal(b, b2) {
			t.Fatalf("%s written again (%v)\n%x\n%x", desc, err, b, b2)
		}
		if sz := s.SerializedSizeBytes(k.serde); sz != len(b) {
			t.Fatalf("%s: SerializedSizeBytes %d, image %d bytes", desc, sz, len(b))
		}
		if gadget {
			// a union image around it, with any outer threshold
			un := n + int64(p.Intn(1<<30))
			numer, denom := 0.0, int64(0)
			if p.Intn(3) > 0 {
				numer, denom = weight(), int64(p.U64()>>(1+p.Intn(62)))
			}
			ub := make([]byte, 32)
			ub[0], ub[1], ub[2] = 4, 2, famVarOptUnion
			maxK := kk + p.Intn(4)
			le.PutUint32(ub[4:], uint32(maxK))
			le.PutUint64(ub[8:], uint64(un))
			le.PutUint64(ub[16:], math.Float64bits(numer))
			le.PutUint64(ub[24:], uint64(denom))
			ub = append(ub, b...)
			u, err := sampling.DecodeVarOptItemsUnion[T](slices.Clone(ub), k.serde)
			if err != nil {
				t.Fatalf("%s in a union: %v", desc, err)
			}
			if b2, err := vuEncode(k, u); err != nil || !bytes.Equal(ub, b2) {
				t.Fatalf("%s: union image written again (%v)\n%x\n%x", desc, err, ub, b2)
			}
		}
		c.NT(desc)
		c.Class("images")
		c.Sample("%s", desc)
	}
}
