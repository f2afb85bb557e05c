package tdigest_test

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"math"
	"sort"

	"github.com/apache/datasketches-go/tdigest"
	"pgregory.net/rapid"

	"verif/vk"
)

type cent struct {
	m float64
	w uint64
}

// wire is the independent reading of the native image.
type wire struct {
	pre, ver, fam, flags byte
	k                    uint16
	min, max             float64
	cs                   []cent
	buf                  []float64
	size                 int
}

func parse(b []byte) (wire, error) {
	var x wire
	if len(b) < 8 {
		return x, errors.New("short")
	}
	x.pre, x.ver, x.fam, x.k, x.flags, x.size = b[0], b[1], b[2], binary.LittleEndian.Uint16(b[3:]), b[5], len(b)
	if x.ver != 1 || x.fam != 20 || b[6] != 0 || b[7] != 0 {
		return x, fmt.Errorf("header % x", b[:8])
	}
	f := func(o int) float64 { return math.Float64frombits(binary.LittleEndian.Uint64(b[o:])) }
	switch {
	case x.flags&1 != 0:
		if x.pre != 1 || len(b) != 8 {
			return x, fmt.Errorf("empty image of %d bytes, preamble %d", len(b), x.pre)
		}
		return x, nil
	case x.flags&2 != 0:
		if x.pre != 1 || len(b) != 16 {
			return x, fmt.Errorf("single image of %d bytes, preamble %d", len(b), x.pre)
		}
		x.min, x.max = f(8), f(8)
		x.buf = []float64{f(8)}
		return x, nil
	}
	if x.pre != 2 || len(b) < 32 {
		return x, fmt.Errorf("image of %d bytes, preamble %d", len(b), x.pre)
	}
	nc, nb := int(binary.LittleEndian.Uint32(b[8:])), int(binary.LittleEndian.Uint32(b[12:]))
	if len(b) != 32+16*nc+8*nb {
		return x, fmt.Errorf("image of %d bytes for %d centroids and %d buffered", len(b), nc, nb)
	}
	x.min, x.max = f(16), f(24)
	o := 32
	for i := 0; i < nc; i++ {
		x.cs = append(x.cs, cent{f(o), binary.LittleEndian.Uint64(b[o+8:])})
		o += 16
	}
	for i := 0; i < nb; i++ {
		x.buf = append(x.buf, f(o))
		o += 8
	}
	return x, nil
}

// unparse is the reference encoder.
func unparse(x wire) []byte {
	b := []byte{x.pre, 1, 20, byte(x.k), byte(x.k >> 8), x.flags, 0, 0}
	u := func(v uint64) { b = binary.LittleEndian.AppendUint64(b, v) }
	if x.flags&1 != 0 {
		return b
	}
	if x.flags&2 != 0 {
		u(math.Float64bits(x.min))
		return b
	}
	b = binary.LittleEndian.AppendUint32(b, uint32(len(x.cs)))
	b = binary.LittleEndian.AppendUint32(b, uint32(len(x.buf)))
	u(math.Float64bits(x.min))
	u(math.Float64bits(x.max))
	for _, c := range x.cs {
		u(math.Float64bits(c.m))
		u(c.w)
	}
	for _, v := range x.buf {
		u(math.Float64bits(v))
	}
	return b
}

// compat writes the reference implementation's verbose (1) or small (2) format.
func compat(kind uint32, k uint16, mn, mx float64, cs []cent) []byte {
	b := binary.BigEndian.AppendUint32(nil, kind)
	f := func(v float64) { b = binary.BigEndian.AppendUint64(b, math.Float64bits(v)) }
	g := func(v float64) { b = binary.BigEndian.AppendUint32(b, math.Float32bits(float32(v))) }
	f(mn)
	f(mx)
	if kind == 1 {
		f(float64(k))
		b = binary.BigEndian.AppendUint32(b, uint32(len(cs)))
		for _, c := range cs {
			f(float64(c.w))
			f(c.m)
		}
		return b
	}
	g(float64(k))
	b = append(b, 0, 0, 0, 0)
	b = binary.BigEndian.AppendUint16(b, uint16(len(cs)))
	for _, c := range cs {
		g(float64(c.w))
		g(c.m)
	}
	return b
}

func img(d *tdigest.Double, withBuffer bool) ([]byte, error) {
	return tdigest.EncodeDouble(d, withBuffer)
}

// state is everything a user can see, without side effects.
func state(d *tdigest.Double) string {
	b, err := img(d, true)
	mn, e1 := d.MinValue()
	mx, e2 := d.MaxValue()
	return fmt.Sprintf("%d %d %v %v %v %v %v %v %x", d.K(), d.TotalWeight(), d.IsEmpty(), mn, e1, mx, e2, err, b)
}

// sk pairs a digest with the multiset of values presented. Digests that came from a crafted image carry
// approximate content: base weight and sum that no individual values back.
type sk struct {
	d        *tdigest.Double
	k        uint16
	vals     []float64
	n        uint64
	sum      float64
	maxabs   float64
	min, max float64
	adopted  bool // contains foreign centroids
}

func newSk(k uint16) (*sk, error) {
	d, err := tdigest.NewDouble(k)
	if err != nil {
		return nil, err
	}
	return &sk{d: d, k: k, min: math.Inf(1), max: math.Inf(-1)}, nil
}

func (x *sk) update(v float64) error {
	if err := x.d.Update(v); err != nil {
		return err
	}
	x.vals = append(x.vals, v)
	x.n++
	x.sum += v
	x.maxabs = math.Max(x.maxabs, math.Abs(v))
	x.min, x.max = math.Min(x.min, v), math.Max(x.max, v)
	return nil
}

func (x *sk) merge(o *sk) error {
	if err := x.d.Merge(o.d); err != nil {
		return err
	}
	x.vals = append(x.vals, o.vals...)
	x.n += o.n
	x.sum += o.sum
	x.maxabs = math.Max(x.maxabs, o.maxabs)
	x.min, x.max = math.Min(x.min, o.min), math.Max(x.max, o.max)
	x.adopted = x.adopted || o.adopted
	return nil
}

func (x *sk) check() error {
	d := x.d
	mn, e1 := d.MinValue()
	mx, e2 := d.MaxValue()
	if d.K() != x.k || d.TotalWeight() != x.n || d.IsEmpty() != (x.n == 0) {
		return fmt.Errorf("K=%d weight=%d empty=%v, want %d %d", d.K(), d.TotalWeight(), d.IsEmpty(), x.k, x.n)
	}
	if x.n == 0 {
		if e1 == nil || e2 == nil {
			return errors.New("no error for the extremes of an empty digest")
		}
	} else if e1 != nil || e2 != nil || mn != x.min || mx != x.max {
		return fmt.Errorf("min=%v,%v max=%v,%v want %v %v", mn, e1, mx, e2, x.min, x.max)
	}
	b, err := img(d, true)
	if err != nil {
		return err
	}
	w, err := parse(b)
	if err != nil {
		return err
	}
	if w.k != x.k || (w.flags&1 != 0) != (x.n == 0) || (w.flags&2 != 0) != (x.n == 1) {
		return fmt.Errorf("image k=%d flags=%x for n=%d", w.k, w.flags, x.n)
	}
	if x.n == 0 {
		return nil
	}
	if w.min != x.min || w.max != x.max {
		return fmt.Errorf("image min=%v max=%v want %v %v", w.min, w.max, x.min, x.max)
	}
	tot := uint64(len(w.buf))
	var sum float64
	for i, c := range w.cs {
		tot += c.w
		sum += c.m * float64(c.w)
		if c.w == 0 || !(c.m >= x.min && c.m <= x.max) {
			return fmt.Errorf("centroid %d (%v,%d) outside [%v,%v]", i, c.m, c.w, x.min, x.max)
		}
		// sorted, up to the rounding of nearly equal means
		if i > 0 && c.m < w.cs[i-1].m-1e-14*x.maxabs {
			return fmt.Errorf("centroid %d mean %v after %v", i, c.m, w.cs[i-1].m)
		}
	}
	// The outermost values are never averaged with others.
	if l := len(w.cs); l > 0 && !x.adopted && (w.cs[0].w != 1 || w.cs[l-1].w != 1) {
		return fmt.Errorf("outermost centroids (%v,%d) (%v,%d) are not single values", w.cs[0].m, w.cs[0].w, w.cs[l-1].m, w.cs[l-1].w)
	}
	for _, v := range w.buf {
		sum += v
	}
	if tot != x.n {
		return fmt.Errorf("centroid and buffer weights add to %d, want %d", tot, x.n)
	}
	if tol := 1e-10 * float64(x.n) * x.maxabs; tol < 1e297 && math.Abs(sum-x.sum) > tol {
		return fmt.Errorf("weighted sum %v want %v (tolerance %v)", sum, x.sum, tol)
	}
	if lim := 2*int(x.k) + 40; len(w.cs) > lim && !x.adopted {
		return fmt.Errorf("%d centroids at k=%d", len(w.cs), x.k)
	}
	return nil
}

// wireOf compresses the digest and returns its centroids.
func wireOf(d *tdigest.Double) (wire, error) {
	b, err := img(d, false)
	if err != nil {
		return wire{}, err
	}
	w, err := parse(b)
	if err == nil && w.flags&2 != 0 {
		w.cs, w.buf = []cent{{w.min, 1}}, nil
	}
	return w, err
}

// refRank interpolates between the centres of the centroids.
func refRank(w wire, n uint64, v float64) float64 {
	N := float64(n)
	if v < w.min {
		return 0
	}
	if v > w.max {
		return 1
	}
	cs := w.cs
	if n == 1 {
		return 0.5
	}
	ctr := make([]float64, len(cs))
	cum := 0.0
	for i, c := range cs {
		ctr[i] = cum + float64(c.w)/2
		cum += float64(c.w)
	}
	last := len(cs) - 1
	if v < cs[0].m {
		if v == w.min || cs[0].w == 1 {
			return 0.5 / N
		}
		return (1 + (v-w.min)/(cs[0].m-w.min)*(float64(cs[0].w)/2-1)) / N
	}
	if v > cs[last].m {
		if v == w.max || cs[last].w == 1 {
			return 1 - 0.5/N
		}
		return 1 - (1+(w.max-v)/(w.max-cs[last].m)*(float64(cs[last].w)/2-1))/N
	}
	lo := sort.Search(len(cs), func(i int) bool { return cs[i].m >= v })
	hi := sort.Search(len(cs), func(i int) bool { return cs[i].m > v }) - 1
	if lo <= hi { // v is the mean of centroids lo..hi
		return (ctr[lo] + ctr[hi]) / 2 / N
	}
	l, u := hi, lo
	return (ctr[l] + (ctr[u]-ctr[l])*((v-cs[l].m)/(cs[u].m-cs[l].m))) / N
}

// refQuantile: piecewise linear through the centres; a centroid of one value is flat over its unit of weight.
func refQuantile(w wire, n uint64, pos float64) float64 {
	N := float64(n)
	cs := w.cs
	last := len(cs) - 1
	if n == 1 {
		return cs[0].m
	}
	if pos < 1 {
		return w.min
	}
	if pos > N-1 {
		return w.max
	}
	type knot struct{ x, y float64 }
	var ks []knot
	cum := 0.0
	for i, c := range cs {
		h := float64(c.w) / 2
		if i == 0 && c.w > 1 {
			ks = append(ks, knot{1, w.min})
		}
		if c.w == 1 {
			ks = append(ks, knot{cum, c.m}, knot{cum + 1, c.m})
		} else {
			ks = append(ks, knot{cum + h, c.m})
		}
		cum += float64(c.w)
		if i == last && c.w > 1 {
			ks = append(ks, knot{N - 1, w.max})
		}
	}
	i := sort.Search(len(ks), func(i int) bool { return ks[i].x > pos })
	if i == 0 {
		return ks[0].y
	}
	if i == len(ks) {
		return ks[len(ks)-1].y
	}
	a, b := ks[i-1], ks[i]
	return a.y + (b.y-a.y)*((pos-a.x)/(b.x-a.x))
}

func quantileOK(w wire, n uint64, r, got float64) error {
	pos := r * float64(n)
	d := 1e-9 * math.Max(1, pos)
	a, b := refQuantile(w, n, pos-d), refQuantile(w, n, pos+d)
	c := refQuantile(w, n, pos)
	lo, hi := math.Min(a, math.Min(b, c)), math.Max(a, math.Max(b, c))
	tol := 1e-9*(w.max/2-w.min/2) + 1e-14*math.Max(math.Abs(w.min), math.Abs(w.max))
	if !(got >= lo-tol && got <= hi+tol) {
		return fmt.Errorf("quantile(%v)=%v want %v..%v (n=%d, %d centroids)", r, got, lo, hi, n, len(w.cs))
	}
	return nil
}

// stream draws a compact description of a stream and expands it.
func stream(t *rapid.T, maxN int) ([]float64, string) {
	n := vk.Size(t, "n", 1, maxN)
	kind := vk.Pick(t, "dist", "uniform", "ints", "normal", "exp", "const", "two", "clusters", "huge", "tiny", "close")
	ord := vk.Pick(t, "order", "random", "asc", "desc", "zigzag")
	seed := vk.Int(t, "vseed", 0, 1<<20)
	off := vk.Pick(t, "shift", 0.0, 0, 100, -1000)
	p := vk.NewPRNG(uint64(seed))
	gauss := func() float64 { return math.Sqrt(-2*math.Log(1-p.F64())) * math.Cos(2*math.Pi*p.F64()) }
	r := make([]float64, n)
	for i := range r {
		var v float64
		switch kind {
		case "uniform":
			v = p.F64()
		case "ints":
			v = float64(p.Intn(1 + n/3))
		case "normal":
			v = gauss()
		case "exp":
			v = -math.Log(1 - p.F64())
		case "const":
			v = float64(seed % 7)
		case "two":
			v = float64(p.Intn(2))
		case "clusters":
			v = float64(p.Intn(3))*1000 + gauss()
		case "huge":
			v = (p.F64() - 0.5) * 1.7e308
		case "tiny":
			v = (p.F64() - 0.5) * 1e-300
		case "close":
			v = 1 + float64(p.Intn(5))*0x1p-52
		}
		if kind != "huge" && kind != "tiny" && kind != "close" {
			v += off
		}
		r[i] = v
	}
	arrange(r, ord, p)
	return r, fmt.Sprintf("%s/%s/%d/s%d/%v", kind, ord, n, seed, off)
}

func arrange(r []float64, ord string, p *vk.PRNG) {
	n := len(r)
	switch ord {
	case "asc":
		sort.Float64s(r)
	case "desc":
		sort.Float64s(r)
		for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
			r[i], r[j] = r[j], r[i]
		}
	case "zigzag":
		sort.Float64s(r)
		z := make([]float64, 0, n)
		for i, j := 0, n-1; i <= j; i, j = i+1, j-1 {
			z = append(z, r[i])
			if i != j {
				z = append(z, r[j])
			}
		}
		copy(r, z)
	}
}

func drawK(t *rapid.T) uint16 {
	return vk.Pick(t, "k", uint16(10), 11, 20, 29, 30, 31, 50, 100, 200, 500)
}

// foreign draws a digest as the reference implementation would have written it: heavy centroids at the ends.
func foreign(t *rapid.T, c *sk) (kind uint32, k uint16, b []byte, cs []cent, mn, mx float64) {
	kind = uint32(vk.Int(t, "fmt", 1, 2))
	k = drawK(t)
	n := vk.Int(t, "nc", 1, 12)
	x := float64(vk.Int(t, "m0", -100, 100))
	mn = x - float64(vk.Int(t, "dmin", 0, 5))
	for i := 0; i < n; i++ {
		cs = append(cs, cent{x, uint64(vk.Int(t, "w", 1, 40))})
		x += float64(vk.Int(t, "gap", 0, 9)) / 4
	}
	mx = cs[n-1].m + float64(vk.Int(t, "dmax", 0, 5))
	if cs[0].w == 1 {
		mn = cs[0].m
	}
	if cs[n-1].w == 1 {
		mx = cs[n-1].m
	}
	if n == 1 && cs[0].w <= 2 {
		mn, mx = cs[0].m, cs[0].m
	}
	return kind, k, compat(kind, k, mn, mx, cs), cs, mn, mx
}

func adopt(d *tdigest.Double, k uint16, cs []cent, mn, mx float64) *sk {
	x := &sk{d: d, k: k, min: mn, max: mx, adopted: true, maxabs: math.Max(math.Abs(mn), math.Abs(mx))}
	for _, c := range cs {
		x.n += c.w
		x.sum += float64(c.w) * c.m
	}
	return x
}

func decode(b []byte, viaStream bool) (*tdigest.Double, error) {
	if viaStream {
		dec := tdigest.NewDoubleDecoder()
		return dec.Decode(bytes.NewReader(b))
	}
	return tdigest.DecodeDouble(b)
}

func encode(d *tdigest.Double, withBuffer, viaStream bool) ([]byte, error) {
	if viaStream {
		var w bytes.Buffer
		enc := tdigest.NewDoubleEncoder(&w, withBuffer)
		err := enc.Encode(d)
		return w.Bytes(), err
	}
	return tdigest.EncodeDouble(d, withBuffer)
}
