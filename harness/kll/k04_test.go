package kll_test

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"slices"
	"testing"

	"github.com/apache/datasketches-go/kll"
	"pgregory.net/rapid"

	"verif/vk"
)

// refImage is what the published compact layout says for the observable state.
func refImage[C comparable](s *kll.ItemsSketch[C], q []C, m uint8, enc func(C) []byte, levels []uint32, minK uint16) []byte {
	b := []byte{2, 1, 15, 0, 0, 0, m, 0}
	binary.LittleEndian.PutUint16(b[4:], s.GetK())
	switch s.GetN() {
	case 0:
		b[3] = 1
		return b
	case 1:
		b[1] = 2
		b[3] = 4
		return append(b, enc(q[0])...)
	}
	b[0] = 5
	b = binary.LittleEndian.AppendUint64(b, s.GetN())
	b = binary.LittleEndian.AppendUint16(b, minK)
	b = append(b, byte(len(levels)), 0)
	for _, l := range levels {
		b = binary.LittleEndian.AppendUint32(b, l)
	}
	mn, _ := s.GetMinItem()
	mx, _ := s.GetMaxItem()
	b = append(b, enc(mn)...)
	b = append(b, enc(mx)...)
	for _, x := range q {
		b = append(b, enc(x)...)
	}
	return b
}

// refLevels derives the level boundaries from the weights and the published capacities.
func refLevels(w []int64, k uint16, m uint8, numLevels int) []uint32 {
	total := uint32(0)
	for l := 0; l < numLevels; l++ {
		d := numLevels - l - 1
		c := uint64(k)
		p := uint64(1)
		for i := 0; i < d; i++ {
			p *= 3
		}
		c = (((2 * c) << d / p) + 1) / 2
		total += max(uint32(m), uint32(c))
	}
	lv := make([]uint32, numLevels+1)
	lv[numLevels] = total
	for l := numLevels - 1; l >= 0; l-- {
		n := uint32(0)
		for _, x := range w {
			if x == 1<<l {
				n++
			}
		}
		lv[l] = lv[l+1] - n
	}
	return lv[:numLevels]
}

func k04[C comparable](k kind[C], enc func(C) []byte) func(t *rapid.T, c *vk.Case) {
	return func(t *rapid.T, c *vk.Case) {
		x, d := build(t, k, vk.Pick(t, "max", 10, 400, 4000))
		s := x.s
		if err := x.check(k); err != nil {
			t.Fatalf("%s: %v", d, err)
		}
		if !s.IsEmpty() && vk.Chance(t, "queried", 1, 2) {
			if _, err := s.GetSortedView(); err != nil {
				t.Fatalf("%s: view: %v", d, err)
			}
			d += " queried"
		}
		st := state(s)
		b, err := img(s)
		if err != nil {
			t.Fatalf("%s: serialize: %v", d, err)
		}
		if state(s) != st {
			t.Fatalf("%s: serializing changed the sketch", d)
		}
		var levels []uint32
		q, w := pairs(s)
		zero := 0
		for zero < len(w) && w[zero] == 1 {
			zero++
		}
		if s.GetN() > 1 {
			levels = refLevels(w, s.GetK(), x.m.m, int(b[18]))
			if b[3]&2 != 0 && !slices.IsSortedFunc(q[:zero], cmpOf(k)) {
				t.Fatalf("%s: the image says level zero is sorted: %v", d, q[:zero])
			}
		}
		want := refImage(s, q, x.m.m, enc, levels, x.m.minK)
		got := slices.Clone(b)
		got[3] &^= 2 // whether level zero is sorted is the writer's choice
		if len(got) > 7 {
			got[7] = 0
		}
		if !bytes.Equal(got, want) {
			t.Fatalf("%s: image\n%x\nwant\n%x", d, got, want)
		}
		// decode from a buffer with spare capacity and trailing garbage in the backing array
		pad := vk.Int(t, "pad", 0, 20)
		buf := append(slices.Clone(b), bytes.Repeat([]byte{0xAA}, pad)...)[:len(b):len(b)]
		s2, err := kll.NewKllItemsSketchFromSlice[C](buf, k.less, k.serde)
		if err != nil {
			t.Fatalf("%s: decode: %v\n%x", d, err, b)
		}
		for i := range buf { // the sketch must not refer to the buffer
			buf[i] = 0x55
		}
		if st2 := state(s2); st2 != st {
			t.Fatalf("%s: decoded sketch differs:\n%s\n%s", d, st, st2)
		}
		b2, err := img(s2)
		if err != nil || !bytes.Equal(b, b2) {
			t.Fatalf("%s: re-serialized image differs (%v)\n%x\n%x", d, err, b, b2)
		}
		if !s.IsEmpty() {
			v := view(s, k.less)
			for i := 0; i < 3; i++ {
				qd, err := query(t, s2, v, k)
				if err != nil {
					t.Fatalf("%s: decoded %s: %v", d, qd, err)
				}
			}
		} else if err := emptyErrs(s2, k.conv(3)); err != nil {
			t.Fatalf("%s: decoded: %v", d, err)
		}
		// carry on with the decoded sketch: as a target of updates, as an operand and as a target of merges
		asked := func(x *sk[C], what string) {
			t.Helper()
			v := view(x.s, k.less)
			for i := 0; i < 3 && !x.s.IsEmpty(); i++ {
				if qd, err := query(t, x.s, v, k); err != nil {
					t.Fatalf("%s: decoded %s: %s: %v", d, what, qd, err)
				}
			}
		}
		if s.GetN() > 1 && vk.Chance(t, "sorted0", 1, 2) {
			// the same sketch as a writer that sorts level zero would have stored it
			slices.SortStableFunc(q[:zero], cmpOf(k))
			fb := refImage(s, q, x.m.m, enc, levels, x.m.minK)
			fb[3] |= 2
			if s2, err = kll.NewKllItemsSketchFromSlice[C](fb, k.less, k.serde); err != nil {
				t.Fatalf("%s: image with sorted level zero: %v", d, err)
			}
			d += " level 0 sorted"
			asked(&sk[C]{s2, x.m}, "")
			if b2, err := img(s2); err != nil || !bytes.Equal(b2, fb) {
				t.Fatalf("%s: re-serialized image differs (%v)\n%x\n%x", d, err, b2, fb)
			}
		}
		y := &sk[C]{s2, x.m}
		y.m.items = slices.Clone(x.m.items)
		vs, ds := stream(t, vk.Pick(t, "mx", 0, 400))
		for _, w := range vs {
			y.update(k.conv(w))
		}
		if err := y.check(k); err != nil {
			t.Fatalf("%s: decoded then updated with %s: %v", d, ds, err)
		}
		asked(y, "and updated")
		z, dz := build(t, k, 500)
		z2, _ := build(t, k, 100)
		z.merge(y)
		if err := z.check(k); err != nil {
			t.Fatalf("%s: decoded+%s merged into %s: %v", d, ds, dz, err)
		}
		asked(z, "merged into "+dz)
		y.merge(z2)
		if err := y.check(k); err != nil {
			t.Fatalf("%s: decoded+%s as merge target: %v", d, ds, err)
		}
		asked(y, "as merge target")
		if st3 := state(s); st3 != st {
			t.Fatalf("%s: operations on the decoded sketch changed the original", d)
		}
		if b3, err := img(y.s); err != nil {
			t.Fatalf("%s: serialize again: %v", d, err)
		} else if s3, err := kll.NewKllItemsSketchFromSlice[C](b3, k.less, k.serde); err != nil || state(s3) != state(y.s) {
			t.Fatalf("%s: second round trip differs (%v)", d, err)
		}
		if s.GetN() > 1 && s.IsEstimationMode() {
			c.NT(d)
		}
		switch {
		case s.GetN() == 0:
			c.Class("empty")
		case s.GetN() == 1:
			c.Class("single")
		case !s.IsEstimationMode():
			c.Class("exact")
		default:
			c.Class("estimation")
		}
		if c.WantSample() {
			c.Sample("%s, %d bytes", d, len(b))
		}
	}
}

func cmpOf[C comparable](k kind[C]) func(a, b C) int {
	return func(a, b C) int {
		if k.less(a, b) {
			return -1
		} else if k.less(b, a) {
			return 1
		}
		return 0
	}
}

func encStr(s string) []byte {
	return append(binary.LittleEndian.AppendUint32(nil, uint32(len(s))), s...)
}

func encAny[C comparable](x C) []byte {
	var w bytes.Buffer
	_ = binary.Write(&w, binary.LittleEndian, x)
	return w.Bytes()
}

func TestK04(t *testing.T) {
	vk.Property(t, "K04", "the sketch is in estimation mode when serialized",
		vk.Sub{Name: "float64", Quick: 4000, Thorough: 40000, Fn: k04(kF64, encAny[float64])},
		vk.Sub{Name: "float32", Quick: 2000, Thorough: 20000, Fn: k04(kF32, encAny[float32])},
		vk.Sub{Name: "int64", Quick: 2000, Thorough: 20000, Fn: k04(kI64, encAny[int64])},
		vk.Sub{Name: "string", Quick: 4000, Thorough: 40000, Fn: k04(kStr, encStr)},
		vk.Sub{Name: "string-reverse", Quick: 1000, Thorough: 10000, Fn: k04(kStrR, encStr)},
		vk.Sub{Name: "strings-short", Quick: 3000, Thorough: 30000, Fn: func(t *rapid.T, c *vk.Case) {
			// tiny sketches dominated by empty and odd strings
			k := kStr
			k.conv = func(v int64) string { return []string{"", "a", "\x00", "é", "", "zz"}[v%6] }
			n := vk.Int(t, "n", 1, 4)
			x, _ := newSk(k, 8, 8)
			d := ""
			for i := 0; i < n; i++ {
				v := k.conv(int64(vk.Int(t, "v", 0, 5)))
				x.update(v)
				d += fmt.Sprintf(" %q", v)
			}
			b, err := img(x.s)
			if err != nil {
				t.Fatalf("%s: %v", d, err)
			}
			s2, err := kll.NewKllItemsSketchFromSlice[string](b, k.less, k.serde)
			if err != nil {
				t.Fatalf("%s: decode %x: %v", d, b, err)
			}
			y := &sk[string]{s2, x.m}
			if err := y.check(k); err != nil {
				t.Fatalf("%s: %v", d, err)
			}
			c.NT(d)
		}},
	)
}
