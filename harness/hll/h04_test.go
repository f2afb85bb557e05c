package hll_test

import (
	"fmt"
	"math"
	"math/bits"
	"os"
	"testing"

	"github.com/apache/datasketches-go/hll"
	"pgregory.net/rapid"

	"verif/ref"
	"verif/vk"
)

// ordered checks lower <= estimate <= upper, widening bounds and the floor.
func ordered(s estimator, floor float64) error {
	a, err := answers(s)
	if err != nil {
		return err
	}
	est, lb, ub := a[0], [3]float64{a[2], a[4], a[6]}, [3]float64{a[3], a[5], a[7]}
	eps := 1e-9 * max(1, est)
	for i := 0; i < 3; i++ {
		// hash values chosen to be improbable can put the merged estimate below the floor
		if !(lb[i] <= max(est, floor)+eps && est <= ub[i]+eps) {
			return fmt.Errorf("bounds(%d) [%v,%v] do not hold the estimate %v", i+1, lb[i], ub[i], est)
		}
		if i > 0 && !(lb[i] <= lb[i-1]+eps && ub[i] >= ub[i-1]-eps) {
			return fmt.Errorf("bounds(%d) [%v,%v] narrower than bounds(%d) [%v,%v]", i+1, lb[i], ub[i], i, lb[i-1], ub[i-1])
		}
		if lb[i] < floor {
			return fmt.Errorf("lower bound(%d) %v below the %v slots or coupons in use", i+1, lb[i], floor)
		}
	}
	for _, sd := range []int{0, 4, -1} {
		if _, err := s.GetLowerBound(sd); err == nil {
			return fmt.Errorf("GetLowerBound(%d): no error", sd)
		}
		if _, err := s.GetUpperBound(sd); err == nil {
			return fmt.Errorf("GetUpperBound(%d): no error", sd)
		}
	}
	return nil
}

func (m *model) floor() float64 {
	if m.mode == mHLL {
		return float64(m.nz)
	}
	return float64(len(m.set))
}

// deviations checks that the bounds of a sketch in HLL mode lie the published
// number of standard errors from its estimate, up to the skew small k brings.
func deviations(s estimator, lgK int, ooo bool, floor float64) error {
	rse := math.Sqrt(math.Ln2) / math.Sqrt(math.Ldexp(1, lgK))
	if ooo {
		rse = math.Sqrt(3*math.Ln2-1) / math.Sqrt(math.Ldexp(1, lgK))
	}
	a, err := answers(s)
	if err != nil || a[0] <= 0 {
		return err
	}
	for i := 0; i < 3; i++ {
		sd := float64(i+1) * rse
		tol := 0.013 + 0.17*math.Pow(2, float64(4-lgK)/2)
		if lb := a[2+2*i]; lb > floor*(1+1e-9) && math.Abs(math.Log(a[0]/lb)/sd-1) > tol {
			return fmt.Errorf("lgK=%d ooo=%v: lower bound(%d) %v lies %.3f standard errors below the estimate %v", lgK, ooo, i+1, lb, math.Log(a[0]/lb)/rse, a[0])
		}
		if ub := a[3+2*i]; math.Abs(math.Log(ub/a[0])/sd-1) > tol {
			return fmt.Errorf("lgK=%d ooo=%v: upper bound(%d) %v lies %.3f standard errors above the estimate %v", lgK, ooo, i+1, ub, math.Log(ub/a[0])/rse, a[0])
		}
	}
	return nil
}

// any content at all: order of bounds
func h04bounds(t *rapid.T, c *vk.Case) {
	lgK := drawLgK(t, 16)
	m := newModel(lgK)
	s := mustSketch(t, lgK, vk.Pick(t, "type", types...))
	st := drawStream(t, 4000)
	desc := fmt.Sprintf("lgK=%d %s", lgK, st)
	every := vk.Pick(t, "every", 1, 7, 97, 1<<30)
	i := 0
	st.expand(lgK, func(x in) {
		m.feed(x)
		if err := x.apply(s); err != nil {
			t.Fatalf("%s: %v", desc, err)
		}
		if i++; i%every == 0 && i/every < 300 {
			if err := ordered(s, m.floor()); err != nil {
				t.Fatalf("%s after %d: %v", desc, i, err)
			}
		}
	})
	if err := ordered(s, m.floor()); err != nil {
		t.Fatalf("%s: %v", desc, err)
	}
	un, _ := hll.NewUnion(vk.Int(t, "lgMax", 4, 12))
	u := newUModel(un.GetLgConfigK())
	o := drawSrc(t, 0, 1000, 4, 12)
	for _, x := range []*src{{s: s, m: m}, o} {
		if err := un.UpdateSketch(x.s); err != nil {
			t.Fatalf("%s: union: %v", desc, err)
		}
		u.merge(x)
	}
	if err := ordered(un, u.m.floor()); err != nil {
		t.Fatalf("%s union with %s: %v", desc, o.desc, err)
	}
	if m.mode == mHLL {
		c.NT(desc)
	}
	if c.WantSample() {
		c.Sample("%s", desc)
	}
}

// while coupons are kept whole the estimate is nearly exact
func h04small(t *rapid.T, c *vk.Case) {
	lgK := vk.Int(t, "lgK", 4, 21)
	lim := 7
	if lgK >= 8 {
		lim = 3 << (lgK - 5)
	}
	n := vk.Int(t, "n", 0, min(lim, 60000))
	base := uint64(vk.Int(t, "base", 0, 1<<40))
	s := mustSketch(t, lgK, vk.Pick(t, "type", types...))
	for i := 0; i < n; i++ {
		if err := s.UpdateUInt64(base + uint64(i)); err != nil {
			t.Fatalf("update: %v", err)
		}
	}
	e, err := s.GetEstimate()
	x := float64(n)
	lam := x * x / math.Ldexp(1, 28)
	if err != nil || math.Abs(e-x) > 0.001+1e-4*x*x/1e6+8*math.Sqrt(lam)+b2f(lam > 1e-7)*2 {
		t.Fatalf("lgK=%d base=%d: %d distinct values estimated as %v (%v)", lgK, base, n, e, err)
	}
	if n > 20 {
		c.NT(lgK, n, base)
	}
	if c.WantSample() {
		c.Sample("lgK=%d n=%d estimate %v", lgK, n, e)
	}
}

func b2f(b bool) float64 {
	if b {
		return 1
	}
	return 0
}

type errStat struct {
	n          int
	sum, sumSq float64
	in         [3]int
}

func (e *errStat) add(s estimator, truth float64) error {
	a, err := answers(s)
	if err != nil {
		return err
	}
	d := a[0]/truth - 1
	e.n++
	e.sum += d
	e.sumSq += d * d
	for i := 0; i < 3; i++ {
		if a[2+2*i] <= truth && truth <= a[3+2*i] {
			e.in[i]++
		}
	}
	return nil
}

// judge compares with the published relative standard error.
func (e *errStat) judge(rse float64) error {
	n := float64(e.n)
	mean, rms := e.sum/n, math.Sqrt(e.sumSq/n)
	if math.Abs(mean) > 7.5*rse/math.Sqrt(n)+0.03*rse+0.06*rse*rse {
		return fmt.Errorf("mean relative error %.4f over %d trials, standard error %.4f", mean, e.n, rse)
	}
	if rms > rse*(1.12+6.5/math.Sqrt(2*n)+0.6*rse) {
		return fmt.Errorf("rms relative error %.4f over %d trials, standard error %.4f", rms, e.n, rse)
	}
	for i, p := range []float64{.6827, .9545, .9973} {
		q := p - 0.03*(1-p) - 0.01
		if ref.BinomLE(n, q, float64(e.in[i])) < 1e-11 {
			return fmt.Errorf("the %d-deviation bounds held the true count %d times in %d", i+1, e.in[i], e.n)
		}
	}
	return nil
}

var debugStat = os.Getenv("VK_DEBUG") != ""

// in-order and merged sketches fed real streams
func h04stream(t *rapid.T, c *vk.Case) {
	lgK := vk.Int(t, "lgK", 4, 12)
	k := float64(int(1) << lgK)
	n := max(1, int(k*math.Pow(2, float64(vk.Int(t, "lgn16", -48, 96))/16)))
	trials := 250
	n = min(n, 20000)
	ty := vk.Pick(t, "type", types...)
	base := uint64(vk.Int(t, "seed", 0, 1<<30))
	split := vk.Int(t, "split", 0, 100)
	lg2 := lgK + vk.Int(t, "lg2", 0, 1)
	var hip, mrg, comp errStat
	ooo := 0
	for tr := 0; tr < trials; tr++ {
		p := vk.NewPRNG(base<<10 + uint64(tr))
		s := mustSketch(t, lgK, ty)
		a := mustSketch(t, lgK, ty)
		b := mustSketch(t, lg2, ty)
		for i := 0; i < n; i++ {
			v := p.U64()
			if err := s.UpdateUInt64(v); err != nil {
				t.Fatalf("update: %v", err)
			}
			w := a
			if i*100 < split*n {
				w = b
			}
			w.UpdateUInt64(v)
			if i%5 == 0 { // an overlap
				b.UpdateUInt64(v)
			}
		}
		un, _ := hll.NewUnion(lgK)
		if err := un.UpdateSketch(a); err != nil {
			t.Fatalf("union: %v", err)
		}
		if err := un.UpdateSketch(b); err != nil {
			t.Fatalf("union: %v", err)
		}
		if err := hip.add(s, float64(n)); err != nil {
			t.Fatalf("%v", err)
		}
		if err := mrg.add(un, float64(n)); err != nil {
			t.Fatalf("%v", err)
		}
		ce, err := s.GetCompositeEstimate()
		if err != nil {
			t.Fatalf("%v", err)
		}
		d := ce/float64(n) - 1
		comp.n++
		comp.sum += d
		comp.sumSq += d * d
		comp.in = [3]int{comp.n, comp.n, comp.n}
		if im, err := content(un); err == nil && im.ooo {
			ooo++
		}
	}
	desc := fmt.Sprintf("%s lgK=%d/%d n=%d split=%d%%", typeName(ty), lgK, lg2, n, split)
	rh, rc := math.Sqrt(math.Ln2)/math.Sqrt(k), math.Sqrt(3*math.Ln2-1)/math.Sqrt(k)
	if debugStat {
		fmt.Printf("STAT lgK=%d n/k=%.3f hip mean %.3f rms %.3f cov %v | comp mean %.3f rms %.3f | merged mean %.3f rms %.3f cov %v\n", lgK, float64(n)/k,
			hip.sum/250/rh, math.Sqrt(hip.sumSq/250)/rh, hip.in, comp.sum/250/rc, math.Sqrt(comp.sumSq/250)/rc, mrg.sum/250/rc, math.Sqrt(mrg.sumSq/250)/rc, mrg.in)
	}
	if err := hip.judge(rh); err != nil {
		t.Fatalf("%s in order: %v", desc, err)
	}
	if err := mrg.judge(rc); err != nil {
		t.Fatalf("%s merged: %v", desc, err)
	}
	if err := comp.judge(rc); err != nil {
		t.Fatalf("%s composite: %v", desc, err)
	}
	c.NT(desc, base)
	c.Class(fmt.Sprintf("lgK=%d", lgK))
	if c.WantSample() {
		c.Sample("%s: in-order rms/rse %.2f, merged %.2f (out of order in %d of %d)", desc, math.Sqrt(hip.sumSq/float64(hip.n))/rh, math.Sqrt(mrg.sumSq/float64(mrg.n))/rc, ooo, trials)
	}
}

// the composite estimator at any cardinality, on register arrays drawn from
// their exact distribution
func h04huge(t *rapid.T, c *vk.Case) {
	lgK := vk.Int(t, "lgK", 4, 14)
	k := 1 << lgK
	lgn := float64(lgK) + float64(vk.Int(t, "lgn16", -16, 16*34))/16
	n := math.Pow(2, lgn)
	trials := 300
	if lgK > 10 {
		trials = 80
	}
	base := uint64(vk.Int(t, "seed", 0, 1<<30))
	ti := vk.Int(t, "type", 0, 2)
	var st errStat
	for tr := 0; tr < trials; tr++ {
		p := vk.NewPRNG(base<<10 + uint64(tr))
		sl := make([]uint8, k)
		if lgn < float64(lgK)+4 {
			for j := 0; j < int(n); j++ {
				i := p.Intn(k)
				sl[i] = max(sl[i], uint8(1+bits.LeadingZeros64(p.U64()|2)))
			}
		}
		for i := range sl {
			if lgn < float64(lgK)+4 {
				break
			}
			// P(max <= v) = exp(-n/k 2^-v)
			u := p.F64()
			if u == 0 {
				u = 0.5
			}
			x := -math.Log(u) // exceeds (n/k) 2^-v exactly when v is reachable
			v := math.Ceil(math.Log2(n / float64(k) / x))
			sl[i] = uint8(min(63, max(0, v)))
		}
		m := newModel(lgK)
		m.setSlots(lgK, sl)
		s, err := hll.NewHllSketchFromSlice(encode(m, ti, tr%2 == 0, true, false, p), true)
		if err != nil {
			t.Fatalf("decode: %v", err)
		}
		if lgn < float64(lgK)+4 {
			n = math.Floor(n)
		}
		if err := st.add(s, n); err != nil {
			t.Fatalf("%v", err)
		}
	}
	desc := fmt.Sprintf("%s lgK=%d n=%.4g", typeName(types[ti]), lgK, n)
	rc := math.Sqrt(3*math.Ln2-1) / math.Sqrt(float64(k))
	if debugStat {
		fmt.Printf("STAT huge lgK=%d lgn/k=%.2f mean %.3f rms %.3f cov %v\n", lgK, lgn-float64(lgK), st.sum/float64(trials)/rc, math.Sqrt(st.sumSq/float64(trials))/rc, st.in)
	}
	if err := st.judge(rc + 1/math.Sqrt(n)); err != nil {
		t.Fatalf("%s: %v", desc, err)
	}
	c.NT(desc, base)
	if c.WantSample() {
		c.Sample("%s rms/rse %.2f", desc, math.Sqrt(st.sumSq/float64(st.n))/rc)
	}
}

// A sketch whose slots repeat those of another one twice stands for twice the count.
func h04double(t *rapid.T, c *vk.Case) {
	lgK := vk.Int(t, "lgK", 4, 14)
	if vk.Chance(t, "large", 1, 25) {
		lgK = vk.Int(t, "lgKlarge", 15, 20)
	}
	k := 1 << lgK
	x := math.Pow(2, float64(vk.Int(t, "lgx32", -4*32, 10*32))/32)
	if vk.Chance(t, "huge", 1, 10) {
		x *= math.Ldexp(1, vk.Int(t, "lghuge", 1, 36))
	}
	seed := uint64(vk.Int(t, "seed", 0, 1<<30))
	p := vk.NewPRNG(seed)
	sl := make([]uint8, k)
	for i := range sl {
		u := p.F64()
		if u == 0 {
			u = 0.5
		}
		sl[i] = uint8(min(63, max(0, math.Ceil(math.Log2(-x/math.Log(u))))))
	}
	ti := vk.Int(t, "type", 0, 2)
	desc := fmt.Sprintf("%s lgK=%d n/k=%.4g seed=%d", typeName(types[ti]), lgK, x, seed)
	var e [2]float64
	for j, s := range [][]uint8{sl, append(append(make([]uint8, 0, 2*k), sl...), sl...)} {
		m := newModel(lgK + j)
		m.setSlots(lgK+j, s)
		for _, ooo := range []bool{false, true} {
			sk, err := hll.NewHllSketchFromSlice(encode(m, ti, seed&1 == 0, ooo, false, p), true)
			if err != nil {
				t.Fatalf("decode: %v", err)
			}
			if e[j], err = sk.GetCompositeEstimate(); err != nil {
				t.Fatalf("%s: %v", desc, err)
			}
			if err := deviations(sk, lgK+j, ooo, float64(m.nz)); err != nil && (ooo || m.hip > 0) {
				t.Fatalf("%s: %v", desc, err)
			}
		}
	}
	tol := 0.65/float64(k) + 2e-5                    // the published tables carry rounding
	if r := e[0] / float64(k); r > 0.25 && r < 1.3 { // where two estimators meet
		tol = 2.1 / math.Sqrt(float64(k))
	} else {
		c.NT(desc)
	}
	if !(math.Abs(e[1]-2*e[0]) <= tol*2*e[0]+1e-9) {
		t.Fatalf("%s: estimate %v, with every slot repeated %v (ratio %.6f, tolerance %.2g)", desc, e[0], e[1], e[1]/e[0], tol)
	}
	c.Class(fmt.Sprintf("lgK=%d", lgK))
	if c.WantSample() {
		c.Sample("%s: %v, repeated %v", desc, e[0], e[1])
	}
}

// many trials at small k: bias, spread and the mass beyond each bound
func h04deep(t *rapid.T, c *vk.Case) {
	lgK := vk.Int(t, "lgK", 4, 9)
	k := float64(int(1) << lgK)
	x := math.Pow(2, float64(vk.Int(t, "lgx16", -16, 74))/16)
	n := max(8, int(k*x))
	if lgK >= 8 {
		n = max(n, int(k)*3/16)
	}
	x = float64(n) / k
	T := min(20000, 6000000/n)
	base := uint64(vk.Int(t, "seed", 0, 1<<30))
	ti := vk.Int(t, "type", 0, 2)
	fn := float64(n)
	var hip, comp errStat
	var tail [2][6]int
	for tr := 0; tr < T; tr++ {
		p := vk.NewPRNG(base<<16 + uint64(tr))
		s := mustSketch(t, lgK, types[ti])
		for i := 0; i < n; i++ {
			if err := s.UpdateUInt64(p.U64()); err != nil {
				t.Fatalf("update: %v", err)
			}
		}
		a, err := answers(s)
		if err != nil {
			t.Fatalf("%v", err)
		}
		ce, err := s.GetCompositeEstimate()
		if err != nil {
			t.Fatalf("%v", err)
		}
		d, dc := a[0]/fn-1, ce/fn-1
		hip.sum, hip.sumSq = hip.sum+d, hip.sumSq+d*d
		comp.sum, comp.sumSq = comp.sum+dc, comp.sumSq+dc*dc
		for i := 0; i < 3; i++ {
			if a[2+2*i] > fn {
				tail[0][i]++
			}
			if a[3+2*i] < fn {
				tail[1][i]++
			}
		}
	}
	fT := float64(T)
	desc := fmt.Sprintf("%s lgK=%d n=%d (%d trials, seed %d)", typeName(types[ti]), lgK, n, T, base)
	rh, rc := math.Sqrt(math.Ln2)/math.Sqrt(k), math.Sqrt(3*math.Ln2-1)/math.Sqrt(k)
	lc := math.Sqrt(math.Exp(x)-x-1) / x / math.Sqrt(k) // linear counting
	for _, e := range []struct {
		what       string
		st         errStat
		rse, limit float64
	}{
		{"in order", hip, rh, rh * min(1.03, 0.80+0.075*math.Log2(max(1, x)))},
		{"composite", comp, rc, min(lc, 1.03*rc)},
	} {
		mean, rms := e.st.sum/fT, math.Sqrt(e.st.sumSq/fT)
		if debugStat {
			fmt.Printf("STAT deep %s x=%.2f %s bias %.3f rse rms/limit %.3f tails %v\n", desc, x, e.what, mean/e.rse, rms/e.limit, tail)
		}
		if math.Abs(mean) > 0.05*e.rse+7.5*e.limit/math.Sqrt(fT) {
			t.Fatalf("%s %s: bias %.4f, standard error %.4f", desc, e.what, mean, e.rse)
		}
		if rms > e.limit*(1.07+5.5/math.Sqrt(2*fT)) {
			t.Fatalf("%s %s: rms error %.4f, expected at most %.4f (standard error %.4f)", desc, e.what, rms, e.limit, e.rse)
		}
	}
	for side, name := range []string{"above", "below"} {
		for i, q := range []struct{ lo, hi float64 }{{0.128, 0.175}, {0.0125, 0.029}, {0.0002, 0.003}} {
			got := float64(tail[side][i])
			if ref.BinomLE(fT, 1-q.hi, fT-got) < 1e-11 || x >= 12 && ref.BinomLE(fT, q.lo, got) < 1e-11 {
				t.Fatalf("%s: the %d-deviation bound lies %s the true count in %.4f of the trials", desc, i+1, name, got/fT)
			}
		}
	}
	c.NT(desc)
	c.Class(fmt.Sprintf("lgK=%d", lgK))
	if c.WantSample() {
		c.Sample("%s: in-order rms/rse %.2f, composite %.2f", desc, math.Sqrt(hip.sumSq/fT)/rh, math.Sqrt(comp.sumSq/fT)/rc)
	}
}

func TestH04(t *testing.T) {
	vk.Property(t, "H04", "bounds: the sketch reached HLL mode; statistics: each case is a set of independent trials",
		vk.Sub{Name: "bounds", Quick: 6000, Thorough: 150000, Fn: h04bounds},
		vk.Sub{Name: "small", Quick: 400, Thorough: 15000, Fn: h04small},
		vk.Sub{Name: "stream", Quick: 90, Thorough: 3000, Fn: h04stream},
		vk.Sub{Name: "huge", Quick: 300, Thorough: 10000, Fn: h04huge},
		vk.Sub{Name: "double", Quick: 3000, Thorough: 100000, Fn: h04double},
		vk.Sub{Name: "deep", Quick: 40, Thorough: 2000, Fn: h04deep},
	)
}
