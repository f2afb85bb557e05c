package golden_test

import (
	"encoding/binary"
	"fmt"
	"math"
	"slices"

	"pgregory.net/rapid"

	"github.com/apache/datasketches-go/cpc"
	"github.com/apache/datasketches-go/hll"

	"verif/vk"
)

// ---------------------------------------------------------------- hll

var hllNative memo[hll.HllSketch]

func hllShow(t *rapid.T, f *img, s hll.HllSketch) string { return hllShow2(t, f, s, true) }

// hllShow2 describes everything observable, with or without the estimates that depend on the order of insertion.
func hllShow2(t *rapid.T, f *img, s hll.HllSketch, hip bool) string {
	if b, err := s.ToCompactSlice(); !hip && b[0]&0x3f == 10 {
		must(t, f, err)
		comp, err := s.GetCompositeEstimate()
		must(t, f, err)
		b[5] |= 8
		clear(b[8:16])
		return fmt.Sprint(comp, canonical(b))
	}
	est, err := s.GetEstimate()
	must(t, f, err)
	comp, err := s.GetCompositeEstimate()
	must(t, f, err)
	r := fmt.Sprint(s.IsEmpty(), s.GetLgConfigK(), s.GetTgtHllType(), est, comp, " ")
	for k := 1; k <= 3; k++ {
		lo, err := s.GetLowerBound(k)
		must(t, f, err)
		hi, err := s.GetUpperBound(k)
		must(t, f, err)
		r += fmt.Sprint(lo, hi, " ")
	}
	b, err := s.ToCompactSlice()
	must(t, f, err)
	return r + canonical(b)
}

// canonical sorts the parts of an image whose order depends on the order of insertion.
func canonical(b []byte) string {
	at := 4 * int(b[0]&0x3f)
	if at == 40 {
		at = len(b)
		if b[7]>>2 == 0 { // HLL4: the exceptions
			at = 40 + 1<<b[3]/2
		}
	}
	var w []uint32
	for i := at; i+4 <= len(b); i += 4 {
		w = append(w, binary.LittleEndian.Uint32(b[i:]))
	}
	slices.Sort(w)
	return fmt.Sprintf("%x %x", b[:at], w)
}

func gHll(t *rapid.T, c *vk.Case) {
	f := pickImg(t, c, `hll(?:4|6|8)_n(\d+)`)
	ty := map[byte]hll.TgtHllType{'4': hll.TgtHllTypeHll4, '6': hll.TgtHllTypeHll6, '8': hll.TgtHllTypeHll8}[f.name[3]]
	nat := hllNative.get(fmt.Sprint(ty, f.n), func() hll.HllSketch {
		s, err := hll.NewHllSketch(12, ty)
		must(t, f, err)
		for i := 0; i < f.n; i++ {
			must(t, f, s.UpdateUInt64(uint64(i)))
		}
		return s
	})
	rebuild := vk.Chance(t, "rebuild", 1, 2)
	d, err := hll.NewHllSketchFromSlice(f.data, rebuild)
	must(t, f, err)
	want := hllShow(t, f, nat)
	same(t, f, "content", hllShow(t, f, d), want)
	nc, err := nat.Copy()
	must(t, f, err)

	sp := drawSpan(t, "other", f.n, 30000)
	lg := vk.Int(t, "lgMaxK", 7, 16)
	olg := vk.Int(t, "lgK", 7, 14)
	oty := vk.Pick(t, "type", hll.TgtHllTypeHll4, hll.TgtHllTypeHll6, hll.TgtHllTypeHll8)
	o, err := hll.NewHllSketch(olg, oty)
	must(t, f, err)
	sp.each(func(i int) { must(t, f, o.UpdateUInt64(uint64(i))) })
	ops := func(x hll.HllSketch) string {
		hllShow := func(t *rapid.T, f *img, s hll.HllSketch) string { return hllShow2(t, f, s, f.n > 300) }
		u, err := hll.NewUnion(lg)
		must(t, f, err)
		must(t, f, u.UpdateSketch(o))
		must(t, f, u.UpdateSketch(x))
		ur, err := u.GetResult(oty)
		must(t, f, err)
		r := hllShow(t, f, ur)
		y, err := x.CopyAs(oty)
		must(t, f, err)
		r += "\n" + hllShow(t, f, y)
		sp.each(func(i int) { must(t, f, x.UpdateUInt64(uint64(i))) })
		return r + "\n" + hllShow(t, f, x)
	}
	same(t, f, "answers after unions and updates", ops(d), ops(nc))
	if f.n > 0 || sp.n > 0 {
		c.NT(f.String(), rebuild, sp, lg, olg, oty)
	}
	c.Sample("%s rebuild=%v then %s, union lgMaxK %d with lgK %d type %v", f, rebuild, sp, lg, olg, oty)
}

// ---------------------------------------------------------------- cpc

var cpcNative memo[*cpc.CpcSketch]

func cpcShow(t *rapid.T, f *img, s *cpc.CpcSketch) string {
	r := fmt.Sprint(s.GetEstimate(), " ")
	for k := 1; k <= 3; k++ {
		r += fmt.Sprint(s.GetLowerBound(k), s.GetUpperBound(k), " ")
	}
	b, err := s.ToCompactSlice()
	must(t, f, err)
	return r + fmt.Sprintf("%x", b)
}

func gCpc(t *rapid.T, c *vk.Case) {
	f := pickImg(t, c, `cpc_(?:n(\d+)|negative_one)`)
	const seed = 9001
	d, err := cpc.NewCpcSketchFromSlice(f.data, seed)
	must(t, f, err)
	sp := drawSpan(t, "other", f.n, 30000)
	lg := vk.Int(t, "unionLgK", 4, 14)
	olg := vk.Int(t, "lgK", 4, 13)
	o, err := cpc.NewCpcSketch(olg, seed)
	must(t, f, err)
	sp.each(func(i int) { must(t, f, o.UpdateInt64(int64(i))) })
	if f.n > 2000000 { // the stream is too long to replay: estimates only
		est := d.GetEstimate()
		if re := est/float64(f.n) - 1; math.Abs(re) > 5*0.693/math.Sqrt(2048) {
			t.Fatalf("%s: estimate %v", f, est)
		}
		u, err := cpc.NewCpcUnionSketch(lg, seed)
		must(t, f, err)
		must(t, f, u.Update(o))
		must(t, f, u.Update(d))
		r, err := u.GetResult()
		must(t, f, err)
		if sp.lo >= 0 {
			k := math.Exp2(float64(min(lg, 11, max(olg, 0))))
			if sp.n == 0 {
				k = math.Exp2(float64(min(lg, 11)))
			}
			if re := r.GetEstimate()/float64(max(f.n, sp.lo+sp.n)) - 1; math.Abs(re) > 7*0.84/math.Sqrt(k) && re < 0 || re > 9*0.84/math.Sqrt(k) {
				t.Fatalf("%s united with %s (lgK %d) in a union of lgK %d: estimate %v", f, sp, olg, lg, r.GetEstimate())
			}
		}
		c.NT(f.String(), sp, lg, olg)
		return
	}
	first := 0
	if f.lang == "cpp" { // these files hold 1..n
		first = 1
	}
	nat := cpcNative.get(f.String(), func() *cpc.CpcSketch {
		s, err := cpc.NewCpcSketch(11, seed)
		must(t, f, err)
		if f.m[1] == "" {
			must(t, f, s.UpdateInt64(-1))
		}
		for i := 0; i < f.n; i++ {
			must(t, f, s.UpdateUint64(uint64(i+first)))
		}
		return s
	})
	same(t, f, "content", cpcShow(t, f, d), cpcShow(t, f, nat))
	b, err := d.ToCompactSlice()
	must(t, f, err)
	same(t, f, "re-encoding", fmt.Sprintf("%x", b), fmt.Sprintf("%x", f.data))
	w, err := cpc.NewCpcWrapperFromBytes(f.data)
	must(t, f, err)
	if w.GetEstimate() != d.GetEstimate() || w.GetLowerBound(2) != d.GetLowerBound(2) || w.GetUpperBound(2) != d.GetUpperBound(2) {
		t.Fatalf("%s: wrapper answers %v [%v,%v], decoded sketch %v [%v,%v]", f, w.GetEstimate(), w.GetLowerBound(2), w.GetUpperBound(2), d.GetEstimate(), d.GetLowerBound(2), d.GetUpperBound(2))
	}
	nc, err := nat.Copy()
	must(t, f, err)
	ops := func(x *cpc.CpcSketch) string {
		u, err := cpc.NewCpcUnionSketch(lg, seed)
		must(t, f, err)
		must(t, f, u.Update(o))
		must(t, f, u.Update(x))
		ur, err := u.GetResult()
		must(t, f, err)
		r := cpcShow(t, f, ur)
		sp.each(func(i int) { must(t, f, x.UpdateInt64(int64(i))) })
		return r + "\n" + cpcShow(t, f, x)
	}
	same(t, f, "answers after unions and updates", ops(d), ops(nc))
	c.NT(f.String(), sp, lg, olg)
	c.Sample("%s then %s, union lgK %d with lgK %d", f, sp, lg, olg)
}
