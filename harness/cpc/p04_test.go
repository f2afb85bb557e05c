package cpc_test

import (
	"encoding/binary"
	"fmt"
	"math"
	"os"
	"testing"

	"github.com/apache/datasketches-go/cpc"
	"pgregory.net/rapid"

	"verif/ref"
	"verif/vk"
)

// Published error constants (x 10^4) of each estimator by lgK and number of
// standard deviations: the high side limits the lower bound, the low side the upper.
var (
	iconHigh = [...]int{8031, 8559, 9309, 7084, 7959, 8660, 7141, 7514, 7876, 7458, 7430, 7572, 6892, 7141, 7497, 6889, 7132, 7290,
		7075, 7118, 7185, 7040, 7047, 7085, 6993, 7019, 7053, 6953, 7001, 6983, 6944, 6966, 7004}
	iconLow = [...]int{6037, 5720, 5328, 6411, 6262, 5682, 6724, 6403, 6127, 6665, 6411, 6208, 6959, 6525, 6427, 6892, 6665, 6619,
		6792, 6752, 6690, 6899, 6818, 6708, 6871, 6845, 6812, 6909, 6861, 6828, 6919, 6897, 6842}
	hipHigh = [...]int{5855, 6688, 7391, 5886, 6444, 6923, 5885, 6254, 6594, 5889, 6134, 6326, 5900, 6072, 6203, 5875, 6005, 6089,
		5871, 5980, 6040, 5889, 5941, 6015, 5871, 5926, 5973, 5866, 5901, 5915, 5880, 5914, 5953}
	hipLow = [...]int{5871, 5247, 4826, 5877, 5403, 5070, 5873, 5533, 5304, 5878, 5632, 5464, 5874, 5690, 5564, 5880, 5745, 5619,
		5875, 5784, 5701, 5866, 5789, 5742, 5869, 5827, 5784, 5876, 5860, 5827, 5881, 5853, 5842}
)

func constant(tab []int, lim float64, lgK, kappa int) float64 {
	if lgK <= 14 {
		lim = float64(tab[3*(lgK-4)+kappa-1]) / 10000
	}
	return lim * float64(kappa) / math.Sqrt(math.Ldexp(1, lgK))
}

type estimator interface {
	GetEstimate() float64
	GetLowerBound(int) float64
	GetUpperBound(int) float64
}

// ordered checks the estimate and bounds of a sketch of n coupons.
func ordered(s estimator, lgK, n int, merged bool) error {
	a := answers(s)
	est := a[0]
	if n == 0 {
		if a != [7]float64{} {
			return fmt.Errorf("empty sketch answers %v", a)
		}
		return nil
	}
	eps := 1e-9 * est
	hi, lo, lim := hipHigh[:], hipLow[:], math.Sqrt(math.Ln2/2)
	if merged {
		hi, lo, lim = iconHigh[:], iconLow[:], math.Ln2
	}
	if !(est >= float64(n)-eps) {
		return fmt.Errorf("estimate %v of %d coupons", est, n)
	}
	for i := 1; i <= 3; i++ {
		lb, ub := a[2*i-1], a[2*i]
		if !(lb >= float64(n) && lb <= est+eps && ub >= est-eps) {
			return fmt.Errorf("bounds(%d) [%v,%v], estimate %v, %d coupons", i, lb, ub, est, n)
		}
		if i > 1 && !(lb <= a[2*i-3]+eps && ub >= a[2*i-2]-eps) {
			return fmt.Errorf("bounds(%d) [%v,%v] narrower than bounds(%d) [%v,%v]", i, lb, ub, i-1, a[2*i-3], a[2*i-2])
		}
		if w := max(float64(n), est/(1+constant(hi, lim, lgK, i))); math.Abs(lb-w) > 1e-9*w {
			return fmt.Errorf("lower bound(%d) %v of estimate %v, want %v", i, lb, est, w)
		}
		wl, wh := est/(1-constant(lo, lim, lgK, i)), est/(1-constant(hi, lim, lgK, i))
		if wl > wh {
			wl, wh = wh, wl
		}
		if !(ub >= wl*(1-1e-4) && ub <= wh*(1+1e-4)+1) {
			return fmt.Errorf("upper bound(%d) %v of estimate %v, want %v to %v", i, ub, est, wl, wh)
		}
	}
	return nil
}

func p04bounds(t *rapid.T, c *vk.Case) {
	seed := drawSeed(t)
	x := drawSource(t, seed, 4, vk.Pick(t, "hi", 6, 9, 15), 3000, 1)
	if err := ordered(x.s, x.m.lgK, x.m.n, x.merged); err != nil && x.m.n < 40<<x.m.lgK {
		t.Fatalf("%s: %v", x.desc, err)
	}
	if !x.merged && x.m.n > 0 && x.m.n < 40<<x.m.lgK && vk.Chance(t, "rise", 1, 2) { // estimates only grow
		prev := x.s.GetEstimate()
		st := drawStream(t, x.m.lgK, 300)
		st.expand(x.m.lgK, seed, func(i in) {
			if x.m.full() {
				return
			}
			n := x.m.n
			x.m.feed(i)
			if err := i.apply(x.s); err != nil {
				t.Fatalf("%s: update: %v", x.desc, err)
			}
			e := x.s.GetEstimate()
			if x.m.n == n && e != prev || x.m.n > n && !(e >= prev+1-1e-9*e) {
				t.Fatalf("%s then %s: estimate went from %v to %v with %d new coupons", x.desc, st, prev, e, x.m.n-n)
			}
			prev = e
		})
	}
	if x.m.n > 0 {
		c.NT(x.desc)
	}
	c.Class(flavorName(flavor(x.m.lgK, x.m.n)))
	if c.WantSample() {
		c.Sample("%s: %v", x.desc, answers(x.s))
	}
}

// header is an image of a merged sketch without its streams, from which the
// read-only wrapper needs no more; sketches of any coupon count stay cheap.
func header(lgK, n int) []byte {
	b := []byte{4, 1, 16, byte(lgK), 0, 2 | 16, 0, 0}
	if f := flavor(lgK, n); f < fPinned {
		b[5] = 2 | 8
	}
	binary.LittleEndian.PutUint16(b[6:], ref.SeedHash16(9001))
	b = binary.LittleEndian.AppendUint32(b, uint32(n))
	b = binary.LittleEndian.AppendUint32(b, 1)
	return b
}

func iconTol(lgK int) float64 { return max(3e-6, 1/(60*math.Ldexp(1, lgK))) }

// p04icon: the merged estimate of any coupon count at any lgK, through the wrapper.
func p04icon(t *rapid.T, c *vk.Case) {
	lgK := vk.Int(t, "lgK", 4, 26)
	k := 1 << lgK
	var n int
	switch vk.Int(t, "size", 0, 4) {
	case 0:
		n = vk.Int(t, "n", 0, min(k, 300))
	case 1:
		n = int(5.6*float64(k)) + vk.Int(t, "n", -5, 5) + k/10*vk.Int(t, "thr", 0, 1)
	case 2:
		n = vk.Int(t, "n", 0, k)
	case 3:
		n = vk.Int(t, "n", 0, 59*k)
	default:
		n = vk.Int(t, "n", 0, 6*k)
	}
	run := vk.Int(t, "run", 1, 20)
	prev := 0.0
	for i := 0; i < run; i++ {
		w, err := cpc.NewCpcWrapperFromBytes(header(lgK, n+i))
		if err != nil {
			return // a stricter reader may refuse it
		}
		e := w.GetEstimate()
		if n+i == 0 {
			continue
		}
		if i == 0 {
			want := iconExact(lgK, n)
			if n <= 58*k && math.Abs(e-want) > want*iconTol(lgK) {
				t.Fatalf("lgK=%d, %d coupons estimated %v, want %v", lgK, n, e, want)
			}
		}
		if !(e >= prev*(1-4e-6)) {
			t.Fatalf("lgK=%d: %d coupons estimated %v, %d more %v", lgK, n+i-1, prev, n+i, e)
		}
		if err := ordered(w, lgK, n+i, true); err != nil {
			t.Fatalf("lgK=%d: %v", lgK, err)
		}
		prev = e
	}
	c.NT(lgK, n)
	if c.WantSample() {
		c.Sample("lgK=%d, %d coupons: %v", lgK, n, prev)
	}
}

type errStat struct {
	n          int
	sum, sumSq float64
	in         [3]int
}

func (e *errStat) add(s estimator, truth float64) {
	a := answers(s)
	d := a[0]/truth - 1
	e.n++
	e.sum += d
	e.sumSq += d * d
	for i := 0; i < 3; i++ {
		if a[1+2*i] <= truth && truth <= a[2+2*i] {
			e.in[i]++
		}
	}
}

// judge compares with the published relative standard error.
func (e *errStat) judge(rse float64) error {
	n := float64(e.n)
	mean, rms := e.sum/n, math.Sqrt(e.sumSq/n)
	if math.Abs(mean) > 7.5*rse/math.Sqrt(n)+0.03*rse+0.1*rse*rse {
		return fmt.Errorf("mean relative error %.4f over %d trials, standard error %.4f", mean, e.n, rse)
	}
	if rms > rse*(1.08+6.5/math.Sqrt(2*n)+0.9*rse) {
		return fmt.Errorf("rms relative error %.4f over %d trials, standard error %.4f", rms, e.n, rse)
	}
	for i, p := range []float64{.6827, .9545, .9973} {
		q := p - 0.03*(1-p) - 0.01
		if ref.BinomLE(n, q, float64(e.in[i])) < 1e-11 {
			return fmt.Errorf("the %d-deviation bounds held the true count %d times in %d", i+1, e.in[i], e.n)
		}
	}
	return nil
}

var debugStat = os.Getenv("VK_DEBUG") != ""

func p04stream(t *rapid.T, c *vk.Case) {
	lgK := vk.Int(t, "lgK", 4, 12)
	k := float64(int(1) << lgK)
	n := max(1, int(k*math.Pow(2, float64(vk.Int(t, "lgn16", -48, 112))/16)))
	n = min(n, 25000)
	trials := 250
	base := uint64(vk.Int(t, "seed", 0, 1<<30))
	split := vk.Int(t, "split", 0, 100)
	lg2 := lgK + vk.Int(t, "lg2", 0, 1)
	var hip, mrg errStat
	for tr := 0; tr < trials; tr++ {
		p := vk.NewPRNG(base<<10 + uint64(tr))
		s := mustSketch(t, lgK, 9001)
		a := mustSketch(t, lgK, 9001)
		b := mustSketch(t, lg2, 9001)
		for i := 0; i < n; i++ {
			v := p.U64()
			if err := s.UpdateUint64(v); err != nil {
				t.Fatalf("update: %v", err)
			}
			w := a
			if i*100 < split*n {
				w = b
			}
			w.UpdateUint64(v)
			if i%5 == 0 { // an overlap
				b.UpdateUint64(v)
			}
		}
		un, _ := cpc.NewCpcUnionSketchWithDefault(lgK)
		for _, x := range []*cpc.CpcSketch{a, b} {
			if err := un.Update(x); err != nil {
				t.Fatalf("union: %v", err)
			}
		}
		r, err := un.GetResult()
		if err != nil {
			t.Fatalf("GetResult: %v", err)
		}
		hip.add(s, float64(n))
		mrg.add(r, float64(n))
	}
	desc := fmt.Sprintf("lgK=%d/%d n=%d split=%d%%", lgK, lg2, n, split)
	rh, rm := math.Sqrt(math.Ln2/2)/math.Sqrt(k), math.Ln2/math.Sqrt(k)
	if debugStat {
		fmt.Printf("STAT lgK=%d n/k=%.3f hip mean %.3f rms %.3f cov %v | merged mean %.3f rms %.3f cov %v\n", lgK, float64(n)/k,
			hip.sum/250/rh, math.Sqrt(hip.sumSq/250)/rh, hip.in, mrg.sum/250/rm, math.Sqrt(mrg.sumSq/250)/rm, mrg.in)
	}
	if err := hip.judge(rh); err != nil {
		t.Fatalf("%s in order: %v", desc, err)
	}
	if err := mrg.judge(rm); err != nil {
		t.Fatalf("%s merged: %v", desc, err)
	}
	c.NT(desc, base)
	c.Class(fmt.Sprintf("lgK=%d", lgK))
	if c.WantSample() {
		c.Sample("%s: in-order rms/rse %.2f, merged %.2f", desc, math.Sqrt(hip.sumSq/float64(hip.n))/rh, math.Sqrt(mrg.sumSq/float64(mrg.n))/rm)
	}
}

// the merged estimator at any cardinality, on matrices drawn from their distribution
func p04huge(t *rapid.T, c *vk.Case) {
	lgK := vk.Int(t, "lgK", 4, 12)
	k := 1 << lgK
	lgn := float64(lgK) + float64(vk.Int(t, "lgn16", 16*4, 16*46))/16
	n := math.Pow(2, lgn)
	trials := 300
	if lgK > 8 {
		trials = 80
	}
	base := uint64(vk.Int(t, "seed", 0, 1<<30))
	var q [64]float64
	for j := range q {
		q[j] = -math.Expm1(-n * math.Ldexp(1, -min(j+1, 63)-lgK))
	}
	var st errStat
	for tr := 0; tr < trials; tr++ {
		p := vk.NewPRNG(base<<10 + uint64(tr))
		rows := make([]uint64, k)
		for i := range rows {
			for j, x := range q {
				if x > 1-1e-15 || x > 1e-15 && p.F64() < x {
					rows[i] |= 1 << j
				}
			}
		}
		s, err := cpc.NewCpcSketchFromSlice(encode(&image{lgK: lgK, seedHash: ref.SeedHash16(9001), merged: true, rows: rows}), 9001)
		if err != nil {
			t.Fatalf("decode: %v", err)
		}
		st.add(s, n)
	}
	rm := math.Ln2 / math.Sqrt(float64(k))
	desc := fmt.Sprintf("lgK=%d n=%.4g", lgK, n)
	if debugStat {
		fmt.Printf("STAT huge lgK=%d lgn/k=%.2f mean %.3f rms %.3f cov %v\n", lgK, lgn-float64(lgK), st.sum/float64(trials)/rm, math.Sqrt(st.sumSq/float64(trials))/rm, st.in)
	}
	if err := st.judge(rm); err != nil {
		t.Fatalf("%s: %v", desc, err)
	}
	c.NT(desc, base)
	if c.WantSample() {
		c.Sample("%s rms/rse %.2f", desc, math.Sqrt(st.sumSq/float64(st.n))/rm)
	}
}

func TestP04(t *testing.T) {
	vk.Property(t, "P04", "bounds: a non-empty sketch; statistics: each case is a set of independent trials",
		vk.Sub{Name: "bounds", Quick: 30000, Thorough: 500000, Fn: p04bounds},
		vk.Sub{Name: "icon", Quick: 20000, Thorough: 600000, Fn: p04icon},
		vk.Sub{Name: "stream", Quick: 200, Thorough: 6000, Fn: p04stream},
		vk.Sub{Name: "huge", Quick: 300, Thorough: 10000, Fn: p04huge},
	)
}
