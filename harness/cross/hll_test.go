package cross_test

import (
	"fmt"
	"strings"

	"github.com/apache/datasketches-go/cpc"
	"github.com/apache/datasketches-go/hll"
	"pgregory.net/rapid"

	"verif/vk"
)

type hllUpd interface {
	UpdateUInt64(uint64) error
	UpdateInt64(int64) error
	UpdateSlice([]byte) error
	UpdateString(string) error
}

func hllStep(u hllUpd, p *vk.PRNG, max int) {
	lo, dense := p.U64(), p.Intn(2) == 0
	for i, n := 0, burst(p, max); i < n; i++ {
		k := uint64(p.Intn(3000))
		if dense {
			k = lo + uint64(i)
		}
		switch p.Intn(8) {
		case 0:
			mustNil(u.UpdateString(fmt.Sprint(k)))
		case 1:
			mustNil(u.UpdateSlice([]byte(fmt.Sprint("b", k))))
		case 2:
			mustNil(u.UpdateInt64(int64(k)))
		default:
			mustNil(u.UpdateUInt64(k))
		}
	}
}

func hllShow(s hll.HllSketch) string {
	var b strings.Builder
	e, e1 := s.GetEstimate()
	c, e2 := s.GetCompositeEstimate()
	fmt.Fprintln(&b, s.GetLgConfigK(), s.GetTgtHllType(), s.GetCurMode(), s.IsEmpty(), e, c, e1, e2)
	for k := 1; k <= 3; k++ {
		l, e4 := s.GetLowerBound(k)
		u, e5 := s.GetUpperBound(k)
		fmt.Fprintln(&b, l, u, e4, e5)
	}
	x, e6 := s.ToCompactSlice()
	y, e7 := s.ToUpdatableSlice()
	fmt.Fprintf(&b, "%x %v %x %v", hllImage(x), e6, hllImage(y), e7)
	return b.String()
}

// hllImage blanks what nothing uses in an out-of-order image and depends on when the lazy recount took
// place: the accumulator and, with full registers, the minimum and its count.
func hllImage(b []byte) []byte {
	if len(b) >= 40 && b[7]&3 == 2 && b[5]&16 != 0 {
		for i := 8; i < 16; i++ {
			b[i] = 0
		}
		if b[7]>>2&3 != 0 {
			b[6], b[32], b[33], b[34], b[35] = 0, 0, 0, 0, 0
		}
	}
	return b
}

var hllTypes = []hll.TgtHllType{hll.TgtHllTypeHll4, hll.TgtHllTypeHll6, hll.TgtHllTypeHll8}

func newHll(lgK int, typ hll.TgtHllType) hll.HllSketch {
	s, err := hll.NewHllSketch(lgK, typ)
	mustNil(err)
	return s
}

func hllArg(p *vk.PRNG) hll.HllSketch {
	s := newHll(4+p.Intn(8), pick(p, hllTypes...))
	for i, n := 0, p.Intn(4); i < n; i++ {
		hllStep(s, p, 1500)
	}
	return s
}

func hllObj(s hll.HllSketch) *object {
	got := func(s hll.HllSketch, err error) *object {
		mustNil(err)
		return hllObj(s)
	}
	enc := func(p *vk.PRNG) []byte {
		f := s.ToCompactSlice
		if p.Intn(2) == 0 {
			f = s.ToUpdatableSlice
		}
		b, err := f()
		mustNil(err)
		return b
	}
	return &object{name: "hll sketch", show: func() string { return hllShow(s) },
		step:  func(p *vk.PRNG) { hllStep(s, p, 3000) },
		reset: func() { mustNil(s.Reset()) },
		reads: []op{
			{"show", func(p *vk.PRNG) { hllShow(s) }},
			{"estimate", func(p *vk.PRNG) { s.GetEstimate(); s.GetCompositeEstimate() }},
			{"bounds", func(p *vk.PRNG) { s.GetLowerBound(1 + p.Intn(3)); s.GetUpperBound(1 + p.Intn(3)) }},
			{"compact image", func(p *vk.PRNG) { s.ToCompactSlice() }},
			{"updatable image", func(p *vk.PRNG) { s.ToUpdatableSlice() }},
			{"copy", func(p *vk.PRNG) { s.Copy() }},
			{"copy as", func(p *vk.PRNG) { s.CopyAs(pick(p, hllTypes...)) }},
			{"union", func(p *vk.PRNG) {
				u, err := hll.NewUnion(4 + p.Intn(9))
				mustNil(err)
				mustNil(u.UpdateSketch(hllArg(p)))
				mustNil(u.UpdateSketch(s))
				mustNil(u.UpdateSketch(hllArg(p)))
			}}},
		derive: []deriv{
			{"copy", func(p *vk.PRNG) *object { return got(s.Copy()) }},
			{"copy as", func(p *vk.PRNG) *object { return got(s.CopyAs(pick(p, hllTypes...))) }},
			{"decoded", func(p *vk.PRNG) *object {
				b := enc(p)
				o := got(hll.NewHllSketchFromSlice(b, true))
				flip(b)()
				return o
			}},
			{"union of", func(p *vk.PRNG) *object {
				u, err := hll.NewUnion(4 + p.Intn(9))
				mustNil(err)
				mustNil(u.UpdateSketch(s))
				return hllUnionObj(u)
			}}},
		buffers: []buf{
			{"image", func(p *vk.PRNG) (*object, func()) { return nil, flip(enc(p)) }},
			{"decode", func(p *vk.PRNG) (*object, func()) {
				b := enc(p)
				return got(hll.NewHllSketchFromSlice(b, true)), flip(b)
			}},
			{"update with bytes", func(p *vk.PRNG) (*object, func()) {
				b := []byte(fmt.Sprint(p.Intn(100)))
				mustNil(s.UpdateSlice(b))
				return nil, flip(b)
			}}},
		fails: []fail{
			{"bounds of a bad number of deviations", func(p *vk.PRNG) error {
				n := pick(p, 0, 4, -1)
				_, e1 := s.GetLowerBound(n)
				_, e2 := s.GetUpperBound(n)
				return both(e1, e2)
			}},
			{"copying as an unknown type", func(p *vk.PRNG) error {
				_, err := s.CopyAs(pick(p, hll.TgtHllType(3), -1, 9))
				return err
			}},
			{"decoding a cut image", func(p *vk.PRNG) error {
				b := enc(p)
				_, err := hll.NewHllSketchFromSlice(b[:p.Intn(8)], true)
				return err
			}}},
	}
}

func hllUnionObj(u hll.Union) *object {
	res := func(p *vk.PRNG) hll.HllSketch {
		r, err := u.GetResult(pick(p, hllTypes...))
		mustNil(err)
		return r
	}
	show := func() string {
		var b strings.Builder
		e, e1 := u.GetEstimate()
		c, e2 := u.GetCompositeEstimate()
		fmt.Fprintln(&b, u.GetLgConfigK(), u.GetTgtHllType(), u.GetCurMode(), u.IsEmpty(), e, c, e1, e2)
		for k := 1; k <= 3; k++ {
			l, e4 := u.GetLowerBound(k)
			x, e5 := u.GetUpperBound(k)
			fmt.Fprintln(&b, l, x, e4, e5)
		}
		for _, ty := range hllTypes {
			r, err := u.GetResult(ty)
			mustNil(err)
			b.WriteString(hllShow(r))
		}
		x, err := u.ToCompactSlice()
		fmt.Fprintf(&b, "%x %v", hllImage(x), err)
		return b.String()
	}
	return &object{name: "hll union", show: show,
		step: func(p *vk.PRNG) {
			if p.Intn(3) == 0 {
				hllStep(u, p, 2000)
				return
			}
			mustNil(u.UpdateSketch(hllArg(p)))
		},
		reset: func() { mustNil(u.Reset()) },
		reads: []op{
			{"show", func(p *vk.PRNG) { show() }},
			{"estimate", func(p *vk.PRNG) { u.GetEstimate(); u.GetCompositeEstimate() }},
			{"bounds", func(p *vk.PRNG) { u.GetLowerBound(1 + p.Intn(3)); u.GetUpperBound(1 + p.Intn(3)) }},
			{"compact image", func(p *vk.PRNG) { u.ToCompactSlice() }},
			{"updatable image", func(p *vk.PRNG) { u.ToUpdatableSlice() }},
			{"result", func(p *vk.PRNG) { res(p) }}},
		derive: []deriv{
			{"result of", func(p *vk.PRNG) *object { return hllObj(res(p)) }},
			{"decoded", func(p *vk.PRNG) *object {
				b, err := u.ToCompactSlice()
				mustNil(err)
				d, err := hll.NewUnionFromSlice(b)
				mustNil(err)
				flip(b)()
				return hllUnionObj(d)
			}}},
		absorb: []deriv{{"update with", func(p *vk.PRNG) *object {
			a := hllArg(p)
			o := hllObj(a)
			b := o.show()
			mustNil(u.UpdateSketch(a))
			if s := o.show(); s != b {
				panic("union update changed its argument " + differ(b, s))
			}
			return o
		}}},
		buffers: []buf{{"image", func(p *vk.PRNG) (*object, func()) {
			b, err := u.ToCompactSlice()
			mustNil(err)
			return nil, flip(b)
		}}, {"decode", func(p *vk.PRNG) (*object, func()) {
			b, err := u.ToCompactSlice()
			mustNil(err)
			d, err := hll.NewUnionFromSlice(b)
			mustNil(err)
			return hllUnionObj(d), flip(b)
		}}},
		fails: []fail{
			{"bounds of a bad number of deviations", func(p *vk.PRNG) error {
				n := pick(p, 0, 4, -1)
				_, e1 := u.GetLowerBound(n)
				_, e2 := u.GetUpperBound(n)
				return both(e1, e2)
			}},
			{"result as an unknown type", func(p *vk.PRNG) error {
				_, err := u.GetResult(pick(p, hll.TgtHllType(3), -1, 9))
				return err
			}}},
	}
}

// ---------------------------------------------------------------- cpc

func cpcStep(s *cpc.CpcSketch, p *vk.PRNG, max int) {
	lo, dense := p.U64(), p.Intn(2) == 0
	for i, n := 0, burst(p, max); i < n; i++ {
		k := uint64(p.Intn(3000))
		if dense {
			k = lo + uint64(i)
		}
		switch p.Intn(9) {
		case 0:
			mustNil(s.UpdateString(fmt.Sprint(k)))
		case 1:
			mustNil(s.UpdateByteSlice([]byte(fmt.Sprint("b", k))))
		case 2:
			mustNil(s.UpdateInt64(int64(k)))
		case 3:
			mustNil(s.UpdateFloat64(float64(k)))
		default:
			mustNil(s.UpdateUint64(k))
		}
	}
}

func cpcShow(s *cpc.CpcSketch) string {
	var b strings.Builder
	fmt.Fprintln(&b, s.GetLgK(), s.GetEstimate(), s.String())
	for k := 1; k <= 3; k++ {
		fmt.Fprintln(&b, s.GetLowerBound(k), s.GetUpperBound(k))
	}
	x, err := s.ToCompactSlice()
	fmt.Fprintf(&b, "%x %v", x, err)
	return b.String()
}

func newCpc(lgK int, seed uint64) *cpc.CpcSketch {
	s, err := cpc.NewCpcSketch(lgK, seed)
	mustNil(err)
	return s
}

func cpcArg(p *vk.PRNG, seed uint64) *cpc.CpcSketch {
	s := newCpc(4+p.Intn(6), seed)
	for i, n := 0, p.Intn(4); i < n; i++ {
		cpcStep(s, p, 1500)
	}
	return s
}

func cpcObj(s *cpc.CpcSketch, seed uint64) *object {
	got := func(s *cpc.CpcSketch, err error) *object {
		mustNil(err)
		return cpcObj(s, seed)
	}
	enc := func() []byte {
		b, err := s.ToCompactSlice()
		mustNil(err)
		return b
	}
	uni := func(p *vk.PRNG) *cpc.CpcUnion {
		u, err := cpc.NewCpcUnionSketch(4+p.Intn(6), seed)
		mustNil(err)
		return &u
	}
	return &object{name: "cpc sketch", show: func() string { return cpcShow(s) },
		step: func(p *vk.PRNG) { cpcStep(s, p, 3000) },
		reads: []op{
			{"show", func(p *vk.PRNG) { cpcShow(s) }},
			{"estimate", func(p *vk.PRNG) { s.GetEstimate() }},
			{"bounds", func(p *vk.PRNG) { s.GetLowerBound(1 + p.Intn(3)); s.GetUpperBound(1 + p.Intn(3)) }},
			{"image", func(p *vk.PRNG) { s.ToCompactSlice() }},
			{"copy", func(p *vk.PRNG) { s.Copy() }},
			{"text", func(p *vk.PRNG) { _ = s.String() }},
			{"union", func(p *vk.PRNG) {
				u := uni(p)
				mustNil(u.Update(cpcArg(p, seed)))
				mustNil(u.Update(s))
				mustNil(u.Update(cpcArg(p, seed)))
			}}},
		derive: []deriv{
			{"copy", func(p *vk.PRNG) *object { return got(s.Copy()) }},
			{"decoded", func(p *vk.PRNG) *object {
				b := enc()
				o := got(cpc.NewCpcSketchFromSlice(b, seed))
				flip(b)()
				return o
			}},
			{"union of", func(p *vk.PRNG) *object {
				u := uni(p)
				mustNil(u.Update(s))
				return cpcUnionObj(u, seed)
			}}},
		buffers: []buf{
			{"image", func(p *vk.PRNG) (*object, func()) { return nil, flip(enc()) }},
			{"decode", func(p *vk.PRNG) (*object, func()) {
				b := enc()
				return got(cpc.NewCpcSketchFromSlice(b, seed)), flip(b)
			}},
			{"update with bytes", func(p *vk.PRNG) (*object, func()) {
				b := []byte(fmt.Sprint(p.Intn(100)))
				mustNil(s.UpdateByteSlice(b))
				return nil, flip(b)
			}},
			{"update with numbers", func(p *vk.PRNG) (*object, func()) {
				a, b := []int64{int64(p.Intn(9)), 2}, []int32{1, int32(p.Intn(9))}
				mustNil(s.UpdateInt64Slice(a))
				mustNil(s.UpdateInt32Slice(b))
				return nil, func() { a[0], a[1], b[0], b[1] = -1, -1, -1, -1 }
			}}},
		fails: []fail{
			{"decoding for another seed", func(p *vk.PRNG) error {
				_, err := cpc.NewCpcSketchFromSlice(enc(), otherSeed(p, seed))
				return err
			}},
			{"decoding a cut image", func(p *vk.PRNG) error {
				_, err := cpc.NewCpcSketchFromSlice(enc()[:p.Intn(8)], seed)
				return err
			}},
			{"union with another seed", func(p *vk.PRNG) error {
				u, err := cpc.NewCpcUnionSketch(4+p.Intn(6), otherSeed(p, seed))
				mustNil(err)
				return u.Update(s)
			}}},
	}
}

func cpcUnionObj(u *cpc.CpcUnion, seed uint64) *object {
	res := func() *cpc.CpcSketch {
		r, err := u.GetResult()
		mustNil(err)
		return r
	}
	show := func() string {
		m, err := u.GetBitMatrix()
		return cpcShow(res()) + fmt.Sprint(m, err)
	}
	return &object{name: "cpc union", show: show,
		step: func(p *vk.PRNG) { mustNil(u.Update(cpcArg(p, seed))) },
		reads: []op{
			{"show", func(p *vk.PRNG) { show() }},
			{"result", func(p *vk.PRNG) { u.GetResult() }},
			{"matrix", func(p *vk.PRNG) { u.GetBitMatrix() }}},
		derive: []deriv{{"result of", func(p *vk.PRNG) *object { return cpcObj(res(), seed) }}},
		absorb: []deriv{{"update with", func(p *vk.PRNG) *object {
			a := cpcArg(p, seed)
			o := cpcObj(a, seed)
			b := o.show()
			mustNil(u.Update(a))
			if s := o.show(); s != b {
				panic("union update changed its argument " + differ(b, s))
			}
			return o
		}}},
		buffers: []buf{{"matrix", func(p *vk.PRNG) (*object, func()) {
			m, err := u.GetBitMatrix()
			mustNil(err)
			return nil, func() {
				for i := range m {
					m[i] = ^m[i]
				}
			}
		}}},
		fails: []fail{{"update with another seed", func(p *vk.PRNG) error {
			s := otherSeed(p, seed)
			a := cpcArg(p, s)
			return refused(cpcObj(a, s), func() error { return u.Update(a) })
		}}},
	}
}

var hllFamilies = []family{
	{"hll", func(t *rapid.T, p *vk.PRNG) (func() *object, string) {
		lgK, typ := 4+p.Intn(9), pick(p, hllTypes...)
		return func() *object { return hllObj(newHll(lgK, typ)) }, fmt.Sprint(lgK, typ)
	}},
	{"hll union", func(t *rapid.T, p *vk.PRNG) (func() *object, string) {
		lgK := 4 + p.Intn(9)
		return func() *object {
			u, err := hll.NewUnion(lgK)
			mustNil(err)
			return hllUnionObj(u)
		}, fmt.Sprint(lgK)
	}},
	{"cpc", func(t *rapid.T, p *vk.PRNG) (func() *object, string) {
		lgK, seed := 4+p.Intn(7), thetaSeed(p)
		return func() *object { return cpcObj(newCpc(lgK, seed), seed) }, fmt.Sprint(lgK, seed)
	}},
	{"cpc union", func(t *rapid.T, p *vk.PRNG) (func() *object, string) {
		lgK, seed := 4+p.Intn(7), thetaSeed(p)
		return func() *object {
			u, err := cpc.NewCpcUnionSketch(lgK, seed)
			mustNil(err)
			return cpcUnionObj(&u, seed)
		}, fmt.Sprint(lgK, seed)
	}},
}
