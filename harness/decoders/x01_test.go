package decoders_test

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"slices"
	"testing"

	"github.com/apache/datasketches-go/cpc"
	"github.com/apache/datasketches-go/hll"
	"github.com/apache/datasketches-go/theta"
	"github.com/apache/datasketches-go/tuple"

	"verif/vk"
)

const seed = theta.DefaultSeed

// ---------------------------------------------------------------- theta

func (g *gen) theta() *theta.CompactSketch {
	lgK := uint8(g.pick(5, 5, 6, 8, 12))
	p := []float32{1, 1, 1, 0.5, 0.05}[g.p.Intn(5)]
	s, err := theta.NewQuickSelectUpdateSketch(theta.WithUpdateSketchLgK(lgK), theta.WithUpdateSketchP(p))
	if err != nil {
		g.t.Fatalf("%v", err)
	}
	for i, n := 0, g.n(400); i < n; i++ {
		_ = s.UpdateUint64(g.p.U64())
	}
	return s.Compact(g.p.Intn(3) > 0)
}

func thetaImage(g *gen) []byte {
	s := g.theta()
	var b []byte
	var err error
	switch g.p.Intn(4) {
	case 0, 1: // compressed (version 4) when the sketch is suitable
		var w bytes.Buffer
		e := theta.NewEncoder(&w, true)
		err = e.Encode(s)
		b = w.Bytes()
	case 2:
		b, err = s.MarshalBinary()
	default: // the older layouts
		b = legacyTheta(g, s)
	}
	if err != nil {
		g.t.Fatalf("encode: %v", err)
	}
	return b
}

// legacyTheta writes serial versions 1 and 2.
func legacyTheta(g *gen, s *theta.CompactSketch) []byte {
	var es []uint64
	for h := range s.All() {
		es = append(es, h)
	}
	slices.Sort(es)
	sh, _ := s.SeedHash()
	v2 := g.p.Intn(2) == 0
	b := make([]byte, 24)
	b[0], b[1], b[2], b[3] = 3, 1, 3, byte(g.p.Intn(13))
	if v2 {
		b[1] = 2
		b[5] = 2 | 8 | 16
		binary.LittleEndian.PutUint16(b[6:], sh)
		if s.IsEmpty() && g.p.Intn(2) == 0 {
			b[0] = 1
			b[5] |= 4
			return b[:8]
		}
	}
	binary.LittleEndian.PutUint32(b[8:], uint32(len(es)))
	binary.LittleEndian.PutUint64(b[16:], s.Theta64())
	if v2 && s.Theta64() == theta.MaxTheta && g.p.Intn(2) == 0 {
		b[0] = 2
		b = b[:16]
	}
	for _, h := range es {
		b = binary.LittleEndian.AppendUint64(b, h)
	}
	return b
}

func useTheta(s theta.Sketch, k *sink) {
	k.getters(s)
	for n := uint8(0); n <= 4; n++ {
		lo, e1 := s.LowerBound(n)
		hi, e2 := s.UpperBound(n)
		k.add(lo, e1, hi, e2)
	}
	n := uint32(0)
	for h := range s.All() {
		k.add(h)
		n++
	}
	for range s.All() {
		break
	}
	k.add(s.String(true), s.String(false))
	c := theta.NewCompactSketch(s, true)
	k.add(c.Estimate())
	for _, cmp := range []bool{false, true} {
		var w bytes.Buffer
		e := theta.NewEncoder(&w, cmp)
		err := e.Encode(c)
		k.add(err, w.Bytes(), c.SerializedSizeBytes(cmp))
	}
}

// thetaOps uses a decoded sketch as operand of every set operation.
func thetaOps(s theta.Sketch, k *sink) {
	o, err := theta.NewQuickSelectUpdateSketch(theta.WithUpdateSketchLgK(6))
	if err != nil {
		return
	}
	for i := uint64(0); i < 200; i++ {
		_ = o.UpdateUint64(i)
	}
	u, err := theta.NewUnion(theta.WithUnionLgK(6))
	if err == nil {
		k.add(u.Update(s), u.Update(o), u.Update(s))
		r, err := u.Result(true)
		k.add(r, err)
	}
	x := theta.NewIntersection()
	k.add(x.Update(s), x.Update(o), x.Update(s))
	r, err := x.Result(false)
	k.add(r, err)
	x = theta.NewIntersection()
	k.add(x.Update(o), x.Update(s))
	r, err = x.Result(true)
	k.add(r, err)
	r, err = theta.ANotB(s, o, seed, true)
	k.add(r, err)
	r, err = theta.ANotB(o, s, seed, true)
	k.add(r, err)
	r, err = theta.ANotB(s, s, seed, false)
	k.add(r, err)
	j, err := theta.Jaccard(s, o, seed)
	k.add(j, err)
}

func thetaSum(s theta.Sketch) string {
	lo, _ := s.LowerBound(2)
	hi, _ := s.UpperBound(2)
	var hs []uint64
	for h := range s.All() {
		hs = append(hs, h)
	}
	return fmt.Sprintf("empty=%v ordered=%v est=%v theta=%d n=%d e=%v lo=%v hi=%v %v", s.IsEmpty(), s.IsOrdered(), s.IsEstimationMode(), s.Theta64(), s.NumRetained(), s.Estimate(), lo, hi, hs)
}

var thetaDecode = &target{name: "theta.Decode", make: thetaImage,
	decode: func(b []byte) (any, error) { return theta.Decode(b, seed) },
	use: func(o any, k *sink) {
		s := o.(*theta.CompactSketch)
		useTheta(s, k)
		for _, cmp := range []bool{false, true} {
			var w bytes.Buffer
			e := theta.NewEncoder(&w, cmp)
			k.add(e.Encode(s), w.Bytes(), s.SerializedSizeBytes(cmp))
		}
		thetaOps(s, k)
		b, err := s.MarshalBinary()
		k.add(b, err)
	},
	sum: func(o any) string { return thetaSum(o.(*theta.CompactSketch)) },
	stream: func(r io.Reader) (any, error) {
		d := theta.NewDecoder(seed)
		return d.Decode(r)
	}}

var thetaWrap = &target{name: "theta.WrapCompactSketch", make: thetaImage,
	decode: func(b []byte) (any, error) { return theta.WrapCompactSketch(b, seed) },
	use: func(o any, k *sink) {
		useTheta(o.(*theta.WrappedCompactSketch), k)
		thetaOps(o.(*theta.WrappedCompactSketch), k)
	},
	sum: func(o any) string { return thetaSum(o.(*theta.WrappedCompactSketch)) }}

// ---------------------------------------------------------------- tuple

type i64s struct{ v int64 }

func (s *i64s) Reset()               { s.v = 0 }
func (s *i64s) Clone() tuple.Summary { return &i64s{s.v} }
func (s *i64s) Update(x int64)       { s.v += x }

func writeI64(w io.Writer, s *i64s) error { return binary.Write(w, binary.LittleEndian, s.v) }
func readI64(r io.Reader) (*i64s, error) {
	s := &i64s{}
	err := binary.Read(r, binary.LittleEndian, &s.v)
	return s, err
}

type tupleSketch interface {
	IsEmpty() bool
	IsOrdered() bool
	IsEstimationMode() bool
	Theta64() uint64
	NumRetained() uint32
	Estimate() float64
	LowerBound(uint8) (float64, error)
	UpperBound(uint8) (float64, error)
	LowerBoundFromSubset(uint8, uint32) (float64, error)
	UpperBoundFromSubset(uint8, uint32) (float64, error)
	String(bool) string
}

func useTuple(s tupleSketch, k *sink) {
	k.getters(s)
	for n := uint8(0); n <= 4; n++ {
		lo, e1 := s.LowerBound(n)
		hi, e2 := s.UpperBound(n)
		k.add(lo, e1, hi, e2)
		for _, m := range []uint32{0, 1, s.NumRetained() / 2, s.NumRetained()} {
			lo, e1 := s.LowerBoundFromSubset(n, m)
			hi, e2 := s.UpperBoundFromSubset(n, m)
			k.add(lo, e1, hi, e2)
		}
	}
	k.add(s.String(true), s.String(false))
}

func tupleSum(s tupleSketch, es []string) string {
	return fmt.Sprintf("empty=%v ordered=%v est=%v theta=%d n=%d e=%v %v", s.IsEmpty(), s.IsOrdered(), s.IsEstimationMode(), s.Theta64(), s.NumRetained(), s.Estimate(), es)
}

type keepFirst[S tuple.Summary] struct{}

func (keepFirst[S]) Apply(S, S) {}

// tupleOps uses a decoded sketch as operand of every set operation.
func tupleOps[S tuple.Summary](s, o tuple.Sketch[S], k *sink) {
	u, err := tuple.NewUnion[S](keepFirst[S]{}, tuple.WithUnionLgK(6))
	if err == nil {
		k.add(u.Update(s), u.Update(o), u.Update(s))
		r, err := u.Result(true)
		k.add(r, err)
	}
	for _, ops := range [][]tuple.Sketch[S]{{s, o, s}, {o, s}} {
		x := tuple.NewIntersection[S](keepFirst[S]{})
		for _, y := range ops {
			k.add(x.Update(y))
		}
		r, err := x.Result(true)
		k.add(r, err)
	}
	for _, p := range [][2]tuple.Sketch[S]{{s, o}, {o, s}, {s, s}} {
		r, err := tuple.ANotB[S](p[0], p[1], seed, true)
		k.add(r, err)
	}
}

func tupleTarget[S tuple.UpdatableSummary[V], V any](name string, fresh func() S, val func(g *gen) V, upd func(*tuple.UpdateSketch[S, V], uint64, V) error,
	mk func(lgK uint8, p float32) (*tuple.UpdateSketch[S, V], error), wr tuple.SummaryWriter[S], rd tuple.SummaryReader[S], show func(S) string) *target {
	enc := func(s *tuple.CompactSketch[S]) ([]byte, error) {
		var w bytes.Buffer
		e := tuple.NewEncoder[S](&w, wr)
		err := e.Encode(s)
		return w.Bytes(), err
	}
	return &target{name: name,
		make: func(g *gen) []byte {
			s, err := mk(uint8(g.pick(5, 5, 6, 12)), []float32{1, 1, 0.5, 0.05}[g.p.Intn(4)])
			if err != nil {
				g.t.Fatalf("%v", err)
			}
			for i, n := 0, g.n(150); i < n; i++ {
				_ = upd(s, g.p.U64(), val(g))
			}
			c, err := s.Compact(g.p.Intn(2) == 0)
			if err != nil {
				g.t.Fatalf("%v", err)
			}
			b, err := enc(c)
			if err != nil {
				g.t.Fatalf("%v", err)
			}
			return b
		},
		decode: func(b []byte) (any, error) { return tuple.Decode[S](b, seed, rd) },
		use: func(o any, k *sink) {
			s := o.(*tuple.CompactSketch[S])
			useTuple(s, k)
			for h, v := range s.All() {
				k.add(h, show(v))
			}
			o2, err := mk(6, 1)
			if err == nil {
				for i := uint64(0); i < 200; i++ {
					var v V
					_ = upd(o2, i, v)
				}
				tupleOps[S](s, o2, k)
			}
			f, err := s.Filter(func(S) bool { return true })
			k.add(f, err)
			b, err := enc(s)
			k.add(b, err)
		},
		sum: func(o any) string {
			s := o.(*tuple.CompactSketch[S])
			var es []string
			for h, v := range s.All() {
				es = append(es, fmt.Sprint(h, show(v)))
			}
			return tupleSum(s, es)
		},
		stream: func(r io.Reader) (any, error) {
			d := tuple.NewDecoder[S](seed, rd)
			return d.Decode(r)
		},
	}
}

func aonTarget[V tuple.Number](name string, conv func(x uint64) V) *target {
	enc := func(s *tuple.ArrayOfNumbersCompactSketch[V]) ([]byte, error) {
		var w bytes.Buffer
		e := tuple.NewArrayOfNumbersSketchEncoder[V](&w)
		err := e.Encode(s)
		return w.Bytes(), err
	}
	return &target{name: name,
		make: func(g *gen) []byte {
			nv := g.pick(1, 2, 3, 9)
			s, err := tuple.NewArrayOfNumbersUpdateSketch[V](uint8(nv), tuple.WithUpdateSketchLgK(uint8(g.pick(5, 5, 6, 12))),
				tuple.WithUpdateSketchP([]float32{1, 1, 0.5, 0.05}[g.p.Intn(4)]))
			if err != nil {
				g.t.Fatalf("%v", err)
			}
			for i, n := 0, g.n(150); i < n; i++ {
				v := make([]V, nv)
				for j := range v {
					v[j] = conv(g.p.U64())
				}
				_ = s.UpdateUint64(g.p.U64(), v)
			}
			c, err := s.Compact(g.p.Intn(2) == 0)
			if err != nil {
				g.t.Fatalf("%v", err)
			}
			b, err := enc(c)
			if err != nil {
				g.t.Fatalf("%v", err)
			}
			return b
		},
		decode: func(b []byte) (any, error) { return tuple.DecodeArrayOfNumbersCompactSketch[V](b, seed) },
		use: func(o any, k *sink) {
			s := o.(*tuple.ArrayOfNumbersCompactSketch[V])
			useTuple(s, k)
			for h, v := range s.All() {
				k.add(h, fmt.Sprint(v.Values()))
			}
			b, err := enc(s)
			k.add(b, err)
		},
		sum: func(o any) string {
			s := o.(*tuple.ArrayOfNumbersCompactSketch[V])
			var es []string
			for h, v := range s.All() {
				es = append(es, fmt.Sprint(h, v.Values()))
			}
			return tupleSum(s, es)
		},
		stream: func(r io.Reader) (any, error) {
			d := tuple.NewArrayOfNumbersSketchDecoderDecoder[V](seed)
			return d.Decode(r)
		},
	}
}

func words(g *gen) []string {
	r := []string{}
	for i, n := 0, g.p.Intn(4); i < n; i++ {
		r = append(r, fmt.Sprintf("%x", g.p.U64()>>uint(g.p.Intn(60))))
	}
	return r
}

var tupleInt = tupleTarget("tuple.Decode[int64]", func() *i64s { return &i64s{} }, func(g *gen) int64 { return int64(g.p.U64()) },
	func(s *tuple.UpdateSketch[*i64s, int64], k uint64, v int64) error { return s.UpdateUint64(k, v) },
	func(lgK uint8, p float32) (*tuple.UpdateSketch[*i64s, int64], error) {
		return tuple.NewUpdateSketch[*i64s, int64](func() *i64s { return &i64s{} }, tuple.WithUpdateSketchLgK(lgK), tuple.WithUpdateSketchP(p))
	}, writeI64, readI64, func(s *i64s) string { return fmt.Sprint(s.v) })

var tupleStrings = tupleTarget("tuple.Decode[strings]", tuple.NewArrayOfStringsSummaryFunc, words,
	func(s *tuple.UpdateSketch[*tuple.ArrayOfStringsSummary, []string], k uint64, v []string) error {
		return s.UpdateUint64(k, v)
	},
	func(lgK uint8, p float32) (*tuple.UpdateSketch[*tuple.ArrayOfStringsSummary, []string], error) {
		return tuple.NewUpdateSketch[*tuple.ArrayOfStringsSummary, []string](tuple.NewArrayOfStringsSummaryFunc, tuple.WithUpdateSketchLgK(lgK), tuple.WithUpdateSketchP(p))
	}, tuple.ArrayOfStringsSummaryWriter, tuple.ArrayOfStringsSummaryReader, func(s *tuple.ArrayOfStringsSummary) string {
		var w bytes.Buffer
		_ = tuple.ArrayOfStringsSummaryWriter(&w, s)
		return fmt.Sprintf("%x", w.Bytes())
	})

var tupleInline = func() *target {
	t := *tupleStrings
	t.name = "tuple.Decode[inline strings]"
	t.decode = func(b []byte) (any, error) { return tuple.Decode(b, seed, tuple.ArrayOfStringsInlineSummaryReader) }
	t.use = func(o any, k *sink) {
		s := o.(*tuple.CompactSketch[tuple.ArrayOfStringsInlineSummary])
		useTuple(s, k)
		for h, v := range s.All() {
			k.add(h, v)
		}
		var w bytes.Buffer
		e := tuple.NewEncoder(&w, tuple.ArrayOfStringsInlineSummaryWriter)
		k.add(e.Encode(s), w.Bytes())
	}
	t.sum = func(o any) string {
		s := o.(*tuple.CompactSketch[tuple.ArrayOfStringsInlineSummary])
		var es []string
		for h, v := range s.All() {
			es = append(es, fmt.Sprint(h, v))
		}
		return tupleSum(s, es)
	}
	t.stream = nil
	return &t
}()

// ---------------------------------------------------------------- hll

func (g *gen) hll() hll.HllSketch {
	s, err := hll.NewHllSketch(g.pick(4, 5, 7, 8, 10, 12, 21), hll.TgtHllType(g.p.Intn(3)))
	if err != nil {
		g.t.Fatalf("%v", err)
	}
	n := g.n(2000)
	if s.GetLgConfigK() == 21 {
		n = min(n, 60)
	}
	for i := 0; i < n; i++ {
		_ = s.UpdateUInt64(g.p.U64())
	}
	return s
}

func hllImage(g *gen) []byte {
	s := g.hll()
	f := s.ToCompactSlice
	if g.p.Intn(2) == 0 && s.GetLgConfigK() < 21 {
		f = s.ToUpdatableSlice
	}
	b, err := f()
	if err != nil {
		g.t.Fatalf("%v", err)
	}
	return b
}

type hllAny interface {
	GetCompositeEstimate() (float64, error)
	GetEstimate() (float64, error)
	GetLowerBound(int) (float64, error)
	GetUpperBound(int) (float64, error)
	IsEmpty() bool
	GetLgConfigK() int
	GetTgtHllType() hll.TgtHllType
	ToCompactSlice() ([]byte, error)
	ToUpdatableSlice() ([]byte, error)
}

func useHll(s hllAny, k *sink) {
	k.getters(s)
	for n := 0; n <= 4; n++ {
		lo, e1 := s.GetLowerBound(n)
		hi, e2 := s.GetUpperBound(n)
		k.add(lo, hi, e1, e2)
	}
}

func hllSum(s hllAny) string {
	e, _ := s.GetEstimate()
	b, _ := s.ToCompactSlice()
	return fmt.Sprintf("%d %v %v %v %x", s.GetLgConfigK(), s.GetTgtHllType(), s.IsEmpty(), e, b)
}

func hllTarget(rebuild bool) *target {
	return &target{name: fmt.Sprintf("hll.NewHllSketchFromSlice(%v)", rebuild), make: hllImage,
		decode: func(b []byte) (any, error) { return hll.NewHllSketchFromSlice(b, rebuild) },
		use: func(o any, k *sink) {
			s := o.(hll.HllSketch)
			useHll(s, k)
			for ty := 0; ty < 3; ty++ {
				c, err := s.CopyAs(hll.TgtHllType(ty))
				k.add(c, err)
				if err == nil {
					b, err := c.ToUpdatableSlice()
					k.add(b, err)
				}
			}
			for i := uint64(0); i < 40; i++ {
				k.add(s.UpdateUInt64(i))
			}
			useHll(s, k)
			if s.GetLgConfigK() <= 14 {
				u, err := hll.NewUnion(12)
				if err == nil {
					k.add(u.UpdateSketch(s))
					r, err := u.GetResult(hll.TgtHllTypeHll4)
					k.add(r, err)
				}
			}
		},
		sum: func(o any) string { return hllSum(o.(hll.HllSketch)) }}
}

var hllUnion = &target{name: "hll.NewUnionFromSlice",
	make: func(g *gen) []byte {
		u, err := hll.NewUnion(g.pick(4, 5, 8, 12))
		if err != nil {
			g.t.Fatalf("%v", err)
		}
		for i, n := 0, g.p.Intn(3); i < n; i++ {
			s := g.hll()
			if s.GetLgConfigK() <= 12 {
				_ = u.UpdateSketch(s)
			}
		}
		f := u.ToCompactSlice
		if g.p.Intn(2) == 0 {
			f = u.ToUpdatableSlice
		}
		b, err := f()
		if err != nil {
			g.t.Fatalf("%v", err)
		}
		return b
	},
	decode: func(b []byte) (any, error) { return hll.NewUnionFromSlice(b) },
	use: func(o any, k *sink) {
		u := o.(hll.Union)
		useHll(u, k)
		r, err := u.GetResult(hll.TgtHllTypeHll6)
		k.add(r, err)
		for i := uint64(0); i < 40; i++ {
			k.add(u.UpdateUInt64(i))
		}
		r, err = u.GetResult(hll.TgtHllTypeHll4)
		k.add(r, err)
	},
	sum: func(o any) string { return hllSum(o.(hll.Union)) }}

// ---------------------------------------------------------------- cpc

func cpcImage(g *gen) []byte {
	lgK := g.pick(4, 4, 5, 6, 8, 10, 11, 26)
	s, err := cpc.NewCpcSketch(lgK, seed)
	if err != nil {
		g.t.Fatalf("%v", err)
	}
	n := g.n(3000)
	if lgK <= 6 && g.p.Intn(3) == 0 {
		n *= 10
	}
	if lgK == 26 {
		n = min(n, 50)
	}
	for i := 0; i < n; i++ {
		_ = s.UpdateUint64(g.p.U64())
	}
	if g.p.Intn(3) == 0 && lgK < 26 {
		u, err := cpc.NewCpcUnionSketch(lgK, seed)
		if err != nil {
			g.t.Fatalf("%v", err)
		}
		_ = u.Update(s)
		if s, err = u.GetResult(); err != nil {
			g.t.Fatalf("%v", err)
		}
	}
	b, err := s.ToCompactSlice()
	if err != nil {
		g.t.Fatalf("%v", err)
	}
	return b
}

var cpcDecode = &target{name: "cpc.NewCpcSketchFromSlice", make: cpcImage,
	decode: func(b []byte) (any, error) { return cpc.NewCpcSketchFromSlice(b, seed) },
	use: func(o any, k *sink) {
		s := o.(*cpc.CpcSketch)
		k.getters(s)
		for n := 1; n <= 3; n++ {
			k.add(s.GetLowerBound(n), s.GetUpperBound(n))
		}
		for i := uint64(0); i < 40; i++ {
			k.add(s.UpdateUint64(i))
		}
		b, err := s.ToCompactSlice()
		k.add(b, err)
		if s.GetLgK() <= 16 {
			u, err := cpc.NewCpcUnionSketch(10, seed)
			if err == nil {
				k.add(u.Update(s))
				r, err := u.GetResult()
				k.add(r, err)
			}
		}
	},
	sum: func(o any) string {
		s := o.(*cpc.CpcSketch)
		b, _ := s.ToCompactSlice()
		return fmt.Sprintf("%d %v %v %v %x", s.GetLgK(), s.GetEstimate(), s.GetLowerBound(2), s.GetUpperBound(2), b)
	}}

var cpcWrap = &target{name: "cpc.NewCpcWrapperFromBytes", make: cpcImage,
	decode: func(b []byte) (any, error) {
		_, _ = cpc.CpcSketchToString(b, true) // the text form of an image is an error or a text
		return cpc.NewCpcWrapperFromBytes(b)
	},
	use: func(o any, k *sink) { k.getters(o); cpcWrapSum(o) },
	sum: func(o any) string { return cpcWrapSum(o) }}

func cpcWrapSum(o any) string {
	w := o.(*cpc.CpcWrapper)
	return fmt.Sprint(w.GetLgK(), w.GetEstimate(), w.GetLowerBound(1), w.GetLowerBound(3), w.GetUpperBound(2))
}

var x01 = []*target{thetaDecode, thetaWrap, tupleInt, tupleStrings, tupleInline, aonTarget("tuple.DecodeArrayOfNumbers[float64]", func(x uint64) float64 { return float64(x) }),
	aonTarget("tuple.DecodeArrayOfNumbers[int32]", func(x uint64) int32 { return int32(x) }), hllTarget(false), hllTarget(true), hllUnion, cpcDecode, cpcWrap}

func TestX01(t *testing.T) {
	vk.Property(t, "X01", "the bytes differ from every valid image that was written (fuzz, noise) or are a valid image that is attacked exhaustively (sweep, prefix)",
		vk.Sub{Name: "fuzz", Quick: 240000, Thorough: 6000000, Fn: fuzz(x01)},
		vk.Sub{Name: "sweep", Quick: 600, Thorough: 12000, Fn: sweep(x01)},
		vk.Sub{Name: "prefix", Quick: 1500, Thorough: 30000, Fn: prefix(x01)},
		vk.Sub{Name: "noise", Quick: 30000, Thorough: 1000000, Fn: noise(x01)})
}
