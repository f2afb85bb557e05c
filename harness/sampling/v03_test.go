package sampling_test

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"slices"
	"testing"

	"github.com/apache/datasketches-go/sampling"
	"pgregory.net/rapid"

	"verif/vk"
)

func vEncode[T comparable](k *kind[T], s *sampling.VarOptItemsSketch[T]) ([]byte, error) {
	var b bytes.Buffer
	e := sampling.NewVarOptItemsSketchEncoder[T](&b, k.serde)
	err := e.Encode(s)
	return b.Bytes(), err
}

type vImage[T any] struct {
	k, rf, h, r int
	n           int64
	wr          float64
	gadget      bool
	marks       []bool
	ws          []float64
	hi, ri      []T
}

// decodeVarOpt reads the documented VarOpt layout.
func decodeVarOpt[T comparable](k *kind[T], b []byte) (m vImage[T], err error) {
	if len(b) < 8 {
		return m, fmt.Errorf("%d bytes", len(b))
	}
	le := binary.LittleEndian
	pre := int(b[0] & 0x3f)
	m.rf, m.k, m.gadget = int(b[0]>>6), int(le.Uint32(b[4:])), b[3]&128 != 0
	if b[1] != 2 || b[2] != famVarOpt {
		return m, fmt.Errorf("version %d family %d", b[1], b[2])
	}
	if b[3]&4 != 0 {
		if pre != 1 || len(b) != 8 {
			return m, fmt.Errorf("empty image with %d preamble longs and %d bytes", pre, len(b))
		}
		return m, nil
	}
	if pre != 3 && pre != 4 || len(b) < 8*pre {
		return m, fmt.Errorf("%d preamble longs, %d bytes", pre, len(b))
	}
	m.n, m.h, m.r = int64(le.Uint64(b[8:])), int(le.Uint32(b[16:])), int(le.Uint32(b[20:]))
	if (pre == 4) != (m.r > 0) {
		return m, fmt.Errorf("%d preamble longs but r=%d", pre, m.r)
	}
	if pre == 4 {
		m.wr = math.Float64frombits(le.Uint64(b[24:]))
	}
	off := 8 * pre
	if len(b) < off+8*m.h {
		return m, fmt.Errorf("short weights")
	}
	for i := 0; i < m.h; i++ {
		m.ws = append(m.ws, math.Float64frombits(le.Uint64(b[off:])))
		off += 8
	}
	if m.gadget {
		for i := 0; i < m.h; i++ {
			m.marks = append(m.marks, b[off+i/8]>>(i%8)&1 == 1)
		}
		off += (m.h + 7) / 8
	}
	if m.hi, off, err = k.dec(b, off, m.h); err != nil {
		return m, err
	}
	if m.ri, off, err = k.dec(b, off, m.r); err == nil && off != len(b) {
		err = fmt.Errorf("%d trailing bytes", len(b)-off)
	}
	return m, err
}

func vImageMatches[T comparable](k *kind[T], b []byte, s *sampling.VarOptItemsSketch[T], rf int) error {
	m, err := decodeVarOpt(k, b)
	if err != nil {
		return err
	}
	if m.k != s.K() || m.n != s.N() || m.h != s.H() || m.r != s.R() || m.rf != rf || m.gadget {
		return fmt.Errorf("image k=%d n=%d h=%d r=%d rf=%d gadget=%v", m.k, m.n, m.h, m.r, m.rf, m.gadget)
	}
	sm := samplesOf(s)
	for i, e := range sm {
		if i < m.h && (e.Item != m.hi[i] || e.Weight != m.ws[i]) || i >= m.h && (e.Item != m.ri[i-m.h] || !closeTo(e.Weight*float64(m.r), m.wr)) {
			return fmt.Errorf("sample %d is %v, image differs (%+v)", i, e, m)
		}
	}
	return nil
}

func v03[T comparable](k *kind[T]) func(t *rapid.T, c *vk.Case) {
	return func(t *rapid.T, c *vk.Case) {
		next := 0
		x := newVS[T](t, 1, 24, 1200)
		desc := fmt.Sprintf("%s k=%d rf=%d", k.name, x.k, x.rf)
		for i, m := 0, vk.Int(t, "runs", 0, 3); i < m; i++ {
			d, w := weightGen(t)
			n := runLen(t, x.k)
			desc += fmt.Sprintf(" +%d:%s", n, d)
			if err := x.feed(k, &next, n, w); err != nil {
				t.Fatalf("%s: %v", desc, err)
			}
		}
		before := vState(x.s)
		b, err := vEncode(k, x.s)
		if err != nil {
			t.Fatalf("%s: encode: %v", desc, err)
		}
		if sz := x.s.SerializedSizeBytes(k.serde); sz != len(b) {
			t.Fatalf("%s: SerializedSizeBytes=%d, wrote %d", desc, sz, len(b))
		}
		if err := vImageMatches(k, b, x.s, int(x.rf)); err != nil {
			t.Fatalf("%s: %v", desc, err)
		}
		img := slices.Clone(b)
		y, err := sampling.DecodeVarOptItemsSketch[T](img, k.serde)
		if err != nil {
			t.Fatalf("%s: decode: %v", desc, err)
		}
		for i := range img {
			img[i] ^= 0xff
		}
		if got := vState(y); got != before {
			t.Fatalf("%s: decoded %s, was %s", desc, got, before)
		}
		if b2, err := vEncode(k, y); err != nil || !bytes.Equal(b, b2) {
			t.Fatalf("%s: encoding again: %v\n%x\n%x", desc, err, b, b2)
		}
		d := &vs[T]{s: y, k: x.k, n: x.n, hist: slices.Clone(x.hist), may: map[int]bool{}}
		for _, e := range samplesOf(y) {
			d.may[k.id(e.Item)] = true
		}
		for i := 0; i < 2; i++ {
			wd, w := weightGen(t)
			n := vk.Int(t, "more", 0, 2*x.k)
			if err := d.feed(k, &next, n, w); err != nil {
				t.Fatalf("%s: decoded sketch +%d:%s: %v", desc, n, wd, err)
			}
			if err := d.check(k); err != nil {
				t.Fatalf("%s: decoded sketch +%d:%s: %v", desc, n, wd, err)
			}
		}
		if vState(x.s) != before {
			t.Fatalf("%s: serialization or the decoded sketch changed the original", desc)
		}
		cut := vk.Int(t, "cut", 0, len(b)-1)
		if _, err := sampling.DecodeVarOptItemsSketch[T](b[:cut:cut], k.serde); err == nil {
			t.Fatalf("%s: %d of %d bytes decoded without error", desc, cut, len(b))
		}
		le := binary.LittleEndian
		bad := slices.Clone(b)
		var what string
		switch vk.Int(t, "bad", 0, 8) {
		case 0:
			what = "family"
			bad[2] ^= byte(1 << vk.Int(t, "bit", 0, 7))
		case 1:
			what = "version"
			bad[1] ^= byte(1 << vk.Int(t, "bit", 0, 7))
		case 2:
			what = "preamble"
			bad[0] ^= byte(1 << vk.Int(t, "bit", 0, 5))
		case 3:
			what = "k=0"
			le.PutUint32(bad[4:], 0)
		case 4:
			if x.n > 0 {
				what = "h+1"
				le.PutUint32(bad[16:], uint32(x.s.H()+1))
			}
		case 5:
			if x.n > 0 {
				what = "r+1"
				le.PutUint32(bad[20:], uint32(x.s.R()+1))
			}
		case 6:
			if x.s.R() > 0 {
				what = "n=k"
				le.PutUint64(bad[8:], uint64(x.k))
			}
		case 7:
			if x.s.R() > 0 {
				what = "R weight"
				le.PutUint64(bad[24:], math.Float64bits(vk.Pick(t, "wr", 0.0, -1, math.NaN())))
			}
		case 8:
			if x.s.H() > 0 {
				what = "H weight"
				le.PutUint64(bad[8*int(b[0]&0x3f):], math.Float64bits(vk.Pick(t, "wh", 0.0, -1)))
			}
		}
		if what != "" {
			if _, err := sampling.DecodeVarOptItemsSketch[T](bad, k.serde); err == nil {
				t.Fatalf("%s: image with a wrong %s accepted: %x", desc, what, bad[:min(32, len(bad))])
			}
			c.Class("bad " + what)
		}
		if x.n > 0 {
			c.NT(desc)
			if x.s.R() > 0 {
				c.Class("estimation")
			} else {
				c.Class("exact")
			}
			if c.WantSample() {
				c.Sample("%s -> %d bytes", desc, len(b))
			}
		}
	}
}

func v03Union[T comparable](k *kind[T]) func(t *rapid.T, c *vk.Case) {
	return func(t *rapid.T, c *vk.Case) {
		next := 0
		x := newVU[T](t, drawK(t, 1, 24, 600))
		desc := fmt.Sprintf("%s maxK=%d", k.name, x.maxK)
		sd, sw := weightGen(t)
		push := func(u *vu[T]) {
			if vk.Chance(t, "res", 1, 5) {
				y := newRS(t, k, 2, 24, 200)
				if err := y.feed(k, &next, runLen(t, y.k)); err != nil {
					t.Fatal(err)
				}
				desc += fmt.Sprintf(" <-reservoir(k=%d,n=%d)", y.k, y.n)
				if err := u.u.UpdateReservoirItemsSketch(y.s); err != nil {
					t.Fatalf("%s: %v", desc, err)
				}
				u.offerReservoir(k, y.s)
				return
			}
			y := newVS[T](t, 1, 24, 300)
			if err := y.feed(k, &next, runLen(t, y.k), sw); err != nil {
				t.Fatalf("%s: %v", desc, err)
			}
			desc += fmt.Sprintf(" <-(k=%d,n=%d,%s)", y.k, y.n, sd)
			if err := u.u.Update(y.s); err != nil {
				t.Fatalf("%s: %v", desc, err)
			}
			u.offer(k, y.s)
		}
		for i, m := 0, vk.Int(t, "inputs", 0, 4); i < m; i++ {
			push(x)
		}
		b, err := vuEncode(k, x.u)
		if err != nil {
			t.Fatalf("%s: encode: %v", desc, err)
		}
		le := binary.LittleEndian
		if len(b) < 8 || b[1] != 2 || b[2] != famVarOptUnion || int(le.Uint32(b[4:])) != x.maxK || (b[3]&4 != 0) != (x.n == 0) {
			t.Fatalf("%s: union header %x", desc, b[:min(8, len(b))])
		}
		marked := 0
		if x.n == 0 {
			if len(b) != 8 || b[0] != 1 {
				t.Fatalf("%s: empty union image %x", desc, b)
			}
		} else {
			if b[0] != 4 || len(b) < 40 || int64(le.Uint64(b[8:])) != x.n {
				t.Fatalf("%s: union preamble %x, n=%d", desc, b[:min(40, len(b))], x.n)
			}
			numer, denom := math.Float64frombits(le.Uint64(b[16:])), int64(le.Uint64(b[24:]))
			if (denom == 0) != (x.tau == 0) || denom > 0 && math.Abs(numer/float64(denom)-x.tau) > 1e-8*x.tau {
				t.Fatalf("%s: image holds outer threshold %v/%d, largest input threshold %v", desc, numer, denom, x.tau)
			}
			m, err := decodeVarOpt(k, b[32:])
			if err != nil || !m.gadget || m.k != x.maxK || m.h+m.r != min(m.k, x.offers) {
				t.Fatalf("%s: gadget image %+v of %d offered samples (%v)", desc, m, x.offers, err)
			}
			for _, v := range m.marks {
				if v {
					marked++
				}
			}
		}
		img := slices.Clone(b)
		u2, err := sampling.DecodeVarOptItemsUnion[T](img, k.serde)
		if err != nil {
			t.Fatalf("%s: decode: %v", desc, err)
		}
		for i := range img {
			img[i] ^= 0xff
		}
		if b2, err := vuEncode(k, u2); err != nil || !bytes.Equal(b, b2) {
			t.Fatalf("%s: encoding again: %v\n%x\n%x", desc, err, b, b2)
		}
		old := x.u
		x.u = u2
		if _, err := x.result(k); err != nil {
			t.Fatalf("%s: decoded union: %v", desc, err)
		}
		for i := 0; i < 2; i++ {
			push(x)
			if _, err := x.result(k); err != nil {
				t.Fatalf("%s: decoded union updated: %v", desc, err)
			}
		}
		if b2, err := vuEncode(k, old); err != nil || !bytes.Equal(b, b2) {
			t.Fatalf("%s: Result, serialization or the decoded union changed the original (%v)", desc, err)
		}
		cut := vk.Int(t, "cut", 0, len(b)-1)
		if _, err := sampling.DecodeVarOptItemsUnion[T](b[:cut:cut], k.serde); err == nil {
			t.Fatalf("%s: %d of %d bytes decoded without error", desc, cut, len(b))
		}
		bad := slices.Clone(b)
		bad[vk.Int(t, "byte", 1, 2)] ^= byte(1 << vk.Int(t, "bit", 0, 7))
		if _, err := sampling.DecodeVarOptItemsUnion[T](bad, k.serde); err == nil {
			t.Fatalf("%s: header %x accepted", desc, bad[:4])
		}
		if x.n > 0 {
			c.NT(desc)
			if marked > 0 {
				c.Class("marked items")
			}
			if c.WantSample() {
				c.Sample("%s -> %d bytes", desc, len(b))
			}
		}
	}
}

func TestV03(t *testing.T) {
	vk.Property(t, "V03", "the serialized sketch or union is not empty",
		vk.Sub{Name: "sketch-long", Quick: 2500, Thorough: 40000, Fn: v03(kLong)},
		vk.Sub{Name: "sketch-double", Quick: 800, Thorough: 10000, Fn: v03(kDouble)},
		vk.Sub{Name: "sketch-string", Quick: 1500, Thorough: 20000, Fn: v03(kString)},
		vk.Sub{Name: "union-long", Quick: 2000, Thorough: 30000, Fn: v03Union(kLong)},
		vk.Sub{Name: "union-string", Quick: 1000, Thorough: 15000, Fn: v03Union(kString)},
		vk.Sub{Name: "images-long", Quick: 2500, Thorough: 40000, Fn: v03Images(kLong)},
		vk.Sub{Name: "images-string", Quick: 1000, Thorough: 15000, Fn: v03Images(kString)},
	)
}
