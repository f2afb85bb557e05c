package hll_test

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"testing"

	"github.com/apache/datasketches-go/hll"
	"pgregory.net/rapid"

	"verif/vk"
)

// h03trip: any sketch, through both forms, then further updates and merges.
func h03trip(maxN, bigLgK int) func(t *rapid.T, c *vk.Case) {
	return func(t *rapid.T, c *vk.Case) {
		lgK := drawLgK(t, bigLgK)
		ty := vk.Pick(t, "type", types...)
		s := mustSketch(t, lgK, ty)
		m := newModel(lgK)
		st := drawStream(t, maxN)
		desc := fmt.Sprintf("%s lgK=%d %s", typeName(ty), lgK, st)
		st.expand(lgK, func(x in) {
			m.feed(x)
			if err := x.apply(s); err != nil {
				t.Fatalf("%s: update: %v", desc, err)
			}
		})
		ooo := false
		if m.mode == mHLL && vk.Chance(t, "merged", 1, 3) { // an out-of-order sketch
			un, err := hll.NewUnion(lgK)
			for i := 0; i < 2 && err == nil; i++ {
				err = un.UpdateSketch(s)
			}
			if err == nil {
				s, err = un.GetResult(ty)
			}
			if err != nil {
				t.Fatalf("%s: union with itself: %v", desc, err)
			}
			ooo = true
			desc += " merged"
		}
		if err := verify(s, m, ty, ooo); err != nil {
			t.Fatalf("%s: %v", desc, err)
		}
		want, err := answers(s)
		if err != nil {
			t.Fatalf("%s: %v", desc, err)
		}
		cur, mm := s, m
		hops := vk.Int(t, "hops", 1, 3)
		for h := 0; h < hops; h++ {
			compact := vk.Chance(t, "compact", 1, 2)
			img := cur.ToUpdatableSlice
			if compact {
				img = cur.ToCompactSlice
			}
			b, err := img()
			if err != nil {
				t.Fatalf("%s: image: %v", desc, err)
			}
			b2, _ := img()
			if !bytes.Equal(b, b2) {
				t.Fatalf("%s: two images of the same sketch differ", desc)
			}
			keep := bytes.Clone(b)
			if vk.Chance(t, "tail", 1, 4) {
				b = append(b, make([]byte, 20)...)
			}
			d, err := hll.NewHllSketchFromSlice(b, vk.Chance(t, "rebuild", 1, 2))
			if err != nil {
				t.Fatalf("%s: decode (compact=%v): %v", desc, compact, err)
			}
			junk := vk.Pick(t, "junk", byte(0), 0xff, 0x3f)
			for i := range b {
				b[i] = junk
			}
			if err := verify(d, mm, ty, ooo); err != nil {
				t.Fatalf("%s: decoded (compact=%v): %v", desc, compact, err)
			}
			got, err := answers(d)
			if err != nil || !sameAnswers(got, want) {
				t.Fatalf("%s: decoded (compact=%v) answers %v (%v), original %v", desc, compact, got, err, want)
			}
			again := d.ToUpdatableSlice
			if compact {
				again = d.ToCompactSlice
			}
			b3, err := again()
			if err != nil {
				t.Fatalf("%s: %v", desc, err)
			}
			if len(b3) != len(keep) {
				t.Fatalf("%s: re-encoding (compact=%v) has %d bytes, was %d", desc, compact, len(b3), len(keep))
			}
			// further updates
			m2 := mm.clone()
			ex := drawStream(t, 200)
			ex.expand(lgK, func(x in) {
				m2.feed(x)
				if err := x.apply(d); err != nil {
					t.Fatalf("%s: decoded (compact=%v), then %s: %v", desc, compact, ex, err)
				}
			})
			if err := verify(d, m2, ty, ooo); err != nil {
				t.Fatalf("%s: decoded (compact=%v), then %s: %v", desc, compact, ex, err)
			}
			cur, mm = d, m2
			if want, err = answers(cur); err != nil {
				t.Fatalf("%s: %v", desc, err)
			}
			desc += fmt.Sprintf(" trip(compact=%v) %s", compact, ex)
		}
		if err := verify(s, m, ty, ooo); err != nil {
			t.Fatalf("%s: original after round trips: %v", desc, err)
		}
		if m.mode == mHLL {
			c.NT(desc)
		}
		c.Class(fmt.Sprintf("%s mode=%d ooo=%v", typeName(ty), m.mode, ooo))
		if c.WantSample() {
			c.Sample("%s", desc)
		}
	}
}

// encode writes a model as an image by the documented layout, as another
// implementation might: coupons and exceptions in any order.
func encode(m *model, typ int, compact, ooo, rebuild bool, p *vk.PRNG) []byte {
	lgArr := 3
	shuffle := func(v []uint32) {
		for i := len(v) - 1; i > 0; i-- {
			j := p.Intn(i + 1)
			v[i], v[j] = v[j], v[i]
		}
	}
	place := func(v []uint32, lg int) []uint32 { // open addressing by the documented stride
		t := make([]uint32, 1<<lg)
		for _, x := range v {
			i := int(x) & (1<<lg - 1)
			for t[i] != 0 {
				i = (i + (int(x&(1<<26-1))>>lg | 1)) & (1<<lg - 1)
			}
			t[i] = x
		}
		return t
	}
	flags := byte(0)
	if compact {
		flags |= 8
	}
	hdr := func(n int) []byte {
		b := make([]byte, n)
		b[1], b[2], b[3], b[4], b[7] = 1, 7, byte(m.lgK), byte(lgArr), byte(m.mode|typ<<2)
		b[5] = flags
		return b
	}
	put := func(b []byte, off int, v []uint32) {
		for i, x := range v {
			binary.LittleEndian.PutUint32(b[off+4*i:], x)
		}
	}
	if m.mode != mHLL {
		var v []uint32
		for cp := range m.set {
			v = append(v, cp)
		}
		// map order is random: sort by value first for determinism
		for i := 1; i < len(v); i++ {
			for j := i; j > 0 && v[j-1] > v[j]; j-- {
				v[j-1], v[j] = v[j], v[j-1]
			}
		}
		shuffle(v)
		off, n := 8, len(v)
		if n == 0 {
			flags |= 4
		}
		if m.mode == mSet {
			off = 12
			for lgArr = 5; 4*n > 3<<lgArr; lgArr++ {
			}
			if !compact && lgArr < m.lgK-3 && p.Intn(3) == 0 {
				lgArr++ // a roomier table than needed
			}
			if !compact {
				v = place(v, lgArr)
			}
		} else if !compact {
			v = append(v, make([]uint32, 8-n)...)
		}
		b := hdr(off + 4*len(v))
		b[0] = byte(2 + m.mode)
		if m.mode == mSet {
			binary.LittleEndian.PutUint32(b[8:], uint32(n))
		} else {
			b[6] = byte(n)
		}
		put(b, off, v)
		return b
	}
	k := 1 << m.lgK
	lo, atLo, zeros := uint8(64), 0, k-m.nz
	for _, v := range m.slots {
		if v < lo {
			lo, atLo = v, 0
		}
		if v == lo {
			atLo++
		}
	}
	if ooo {
		flags |= 16
	}
	if rebuild {
		flags |= 32
	}
	var data []byte
	var ex []uint32
	curMin, at := 0, zeros
	lgArr = 0
	switch typ {
	case 0:
		curMin, at = int(lo), atLo
		data = make([]byte, k/2)
		for i, v := range m.slots {
			d := v - lo
			if d >= 15 {
				d = 15
				ex = append(ex, uint32(v)<<26|uint32(i))
			}
			data[i/2] |= d << (4 * (i & 1))
		}
	case 1:
		data = make([]byte, k*3/4+1)
		for i, v := range m.slots {
			data[i*6/8] |= v << (i * 6 % 8)
			data[i*6/8+1] |= byte(uint16(v) << (i * 6 % 8) >> 8)
		}
	case 2:
		data = bytes.Clone(m.slots)
	}
	n := len(ex)
	if n > 0 {
		for lgArr = 2; 4*n > 3<<lgArr; lgArr++ {
		}
		if p.Intn(3) == 0 && lgArr+1 < m.lgK {
			lgArr++
		}
		shuffle(ex)
		if !compact {
			t := make([]uint32, 1<<lgArr)
			for _, x := range ex {
				sl := int(x & (1<<26 - 1))
				i := sl & (1<<lgArr - 1)
				for t[i] != 0 {
					i = (i + (sl>>lgArr | 1)) & (1<<lgArr - 1)
				}
				t[i] = x
			}
			ex = t
		}
	}
	b := hdr(40 + len(data) + 4*len(ex))
	b[0], b[6] = 10, byte(curMin)
	f := func(off int, v float64) { binary.LittleEndian.PutUint64(b[off:], math.Float64bits(v)) }
	hip := m.hip
	if ooo {
		hip = 0
	}
	x0, x1 := m.x0, m.x1
	if rebuild {
		x0, x1, at = float64(k), 0, k // stale on purpose
		b[6] = 0
	}
	f(8, hip)
	f(16, x0)
	f(24, x1)
	binary.LittleEndian.PutUint32(b[32:], uint32(at))
	binary.LittleEndian.PutUint32(b[36:], uint32(n))
	copy(b[40:], data)
	put(b, 40+len(data), ex)
	return b
}

// h03foreign: images written by an independent encoder.
func h03foreign(t *rapid.T, c *vk.Case) {
	lgK := drawLgK(t, 14)
	ti := vk.Int(t, "type", 0, 2)
	m := newModel(lgK)
	st := drawStream(t, 3000)
	st.expand(lgK, func(x in) { m.feed(x) })
	ooo := m.mode == mHLL && vk.Chance(t, "ooo", 1, 3)
	rebuild := ooo && ti == 2 && vk.Chance(t, "stale", 1, 2)
	compact := vk.Chance(t, "compact", 1, 2)
	desc := fmt.Sprintf("%s lgK=%d %s compact=%v ooo=%v rebuild=%v", typeName(types[ti]), lgK, st, compact, ooo, rebuild)
	b := encode(m, ti, compact, ooo, rebuild, vk.NewPRNG(st.Seed+7))
	if !rebuild {
		if im, err := parse(b); err != nil || im.matches(m) != nil {
			t.Fatalf("harness: %s: %v", desc, err)
		}
	}
	// as a sketch
	d, err := hll.NewHllSketchFromSlice(b, true)
	if err != nil {
		t.Fatalf("%s: decode: %v", desc, err)
	}
	if err := verify(d, m, types[ti], ooo); err != nil {
		t.Fatalf("%s: %v", desc, err)
	}
	m2 := m.clone()
	ex := drawStream(t, 500)
	ex.expand(lgK, func(x in) {
		m2.feed(x)
		if err := x.apply(d); err != nil {
			t.Fatalf("%s: then %s: %v", desc, ex, err)
		}
	})
	if err := verify(d, m2, types[ti], ooo); err != nil {
		t.Fatalf("%s: then %s: %v", desc, ex, err)
	}
	// as a union, and merged into one
	u := newUModel(lgK)
	u.merge(&src{m: m, ooo: ooo, hipOK: true})
	un, err := hll.NewUnionFromSlice(b)
	if err != nil {
		t.Fatalf("%s: NewUnionFromSlice: %v", desc, err)
	}
	if err := u.verify(un, t); err != nil {
		t.Fatalf("%s: as a union: %v", desc, err)
	}
	o := drawSrc(t, 0, 600, 4, 12)
	if err := un.UpdateSketch(o.s); err != nil {
		t.Fatalf("%s: merge: %v", desc, err)
	}
	u.merge(o)
	if err := u.verify(un, t); err != nil {
		t.Fatalf("%s: union with %s: %v", desc, o.desc, err)
	}
	if vk.Chance(t, "lazy", 1, 2) { // decoded without rebuilding, merged second
		un2, _ := hll.NewUnion(o.m.lgK)
		u2 := newUModel(o.m.lgK)
		for _, x := range []*src{o, {m: m, ooo: ooo, hipOK: true}} {
			s := x.s
			if s == nil {
				if s, err = hll.NewHllSketchFromSlice(b, false); err != nil {
					t.Fatalf("%s: decode: %v", desc, err)
				}
			}
			if err := un2.UpdateSketch(s); err != nil {
				t.Fatalf("%s: merge: %v", desc, err)
			}
			u2.merge(x)
		}
		if err := u2.verify(un2, t); err != nil {
			t.Fatalf("%s into union of %s: %v", desc, o.desc, err)
		}
	}
	if m.mode == mHLL {
		c.NT(desc)
	}
	c.Class(fmt.Sprintf("%s mode=%d compact=%v", typeName(types[ti]), m.mode, compact))
	if c.WantSample() {
		c.Sample("%s (%d bytes)", desc, len(b))
	}
}

func TestH03(t *testing.T) {
	vk.Property(t, "H03", "the sketch was in HLL mode when serialized",
		vk.Sub{Name: "trip", Quick: 8000, Thorough: 250000, Fn: h03trip(2500, 13)},
		vk.Sub{Name: "large", Quick: 60, Thorough: 2500, Fn: h03trip(40000, 21)},
		vk.Sub{Name: "foreign", Quick: 5000, Thorough: 150000, Fn: h03foreign},
	)
}
