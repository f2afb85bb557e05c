package cross_test

import (
	"bytes"
	"fmt"
	"iter"
	"math"
	"slices"
	"strings"

	"github.com/apache/datasketches-go/theta"
	"pgregory.net/rapid"

	"verif/vk"
)

func thetaShow(s theta.Sketch) string {
	var b strings.Builder
	b.WriteString(s.String(true))
	sh, err := s.SeedHash()
	fmt.Fprintln(&b, s.IsEmpty(), s.IsOrdered(), s.IsEstimationMode(), s.NumRetained(), s.Theta64(), s.Theta(), s.Estimate(), sh, err)
	for sd := uint8(1); sd <= 3; sd++ {
		l, e1 := s.LowerBound(sd)
		u, e2 := s.UpperBound(sd)
		fmt.Fprintln(&b, l, u, e1, e2)
	}
	for h := range s.All() {
		fmt.Fprintln(&b, h)
	}
	return b.String()
}

func thetaLoose(s theta.Sketch) string {
	var h []uint64
	for x := range s.All() {
		h = append(h, x)
	}
	slices.Sort(h)
	l, _ := s.LowerBound(2)
	u, _ := s.UpperBound(2)
	return fmt.Sprint(s.IsEmpty(), s.IsOrdered(), s.NumRetained(), s.Theta64(), s.Estimate(), l, u, h)
}

func thetaReads(get func() theta.Sketch, seed uint64) []op {
	return []op{
		{"show", func(p *vk.PRNG) { thetaShow(get()) }},
		{"part of All", func(p *vk.PRNG) {
			n := p.Intn(4)
			for range get().All() {
				if n--; n < 0 {
					break
				}
			}
		}},
		{"bounds", func(p *vk.PRNG) {
			s := get()
			s.LowerBound(uint8(1 + p.Intn(3)))
			s.UpperBound(uint8(1 + p.Intn(3)))
			s.Estimate()
		}},
		{"compact", func(p *vk.PRNG) { theta.NewCompactSketch(get(), p.Intn(2) == 0) }},
		{"encode", func(p *vk.PRNG) {
			var w bytes.Buffer
			c := theta.NewCompactSketch(get(), true)
			e := theta.NewEncoder(&w, p.Intn(2) == 0)
			_ = e.Encode(c)
			_, _ = c.MarshalBinary()
			c.SerializedSizeBytes(p.Intn(2) == 0)
		}},
		{"a-not-b", func(p *vk.PRNG) {
			o := thetaArg(p, seed)
			_, _ = theta.ANotB(get(), o, seed, p.Intn(2) == 0)
			_, _ = theta.ANotB(o, get(), seed, p.Intn(2) == 0)
		}},
		{"jaccard", func(p *vk.PRNG) {
			o := thetaArg(p, seed)
			_, _ = theta.Jaccard(get(), o, seed)
			_, _ = theta.IsExactlyEqual(o, get(), seed)
			_, _ = theta.IsSimilar(get(), o, 0.9, seed)
			_, _ = theta.IsDissimilar(o, get(), 0.1, seed)
		}},
	}
}

func thetaKey(p *vk.PRNG) int64 {
	if p.Intn(2) == 0 {
		return int64(p.Intn(400))
	}
	return int64(p.U64())
}

// thetaStep returns a key it has used, or 0.
func thetaStep(u *theta.QuickSelectUpdateSketch, p *vk.PRNG) (used int64) {
	lo, dense := thetaKey(p), p.Intn(2) == 0
	for i, n := 0, burst(p, 900); i < n; i++ {
		k := thetaKey(p)
		if dense {
			k = lo + int64(i)
		}
		switch p.Intn(8) {
		case 0:
			_ = u.UpdateString(fmt.Sprint(k))
		case 1:
			_ = u.UpdateFloat64(float64(k))
		case 2:
			_ = u.UpdateInt32(int32(k))
		case 3:
			_ = u.UpdateBytes([]byte(fmt.Sprint("b", k)))
		default:
			_ = u.UpdateInt64(k)
			used = k
		}
	}
	if p.Intn(6) == 0 {
		u.Trim()
	}
	return used
}

func thetaUpdate(p *vk.PRNG, lgK uint8, pr float32, seed uint64) *theta.QuickSelectUpdateSketch {
	s, err := theta.NewQuickSelectUpdateSketch(theta.WithUpdateSketchLgK(lgK), theta.WithUpdateSketchP(pr), theta.WithUpdateSketchSeed(seed),
		theta.WithUpdateSketchResizeFactor(theta.ResizeFactor(p.Intn(4))))
	if err != nil {
		panic(err)
	}
	return s
}

func thetaP(p *vk.PRNG) float32 { return pick(p, float32(1), 1, 1, 0.5, 0.01) }

// thetaArg is a random operand.
func thetaArg(p *vk.PRNG, seed uint64) theta.Sketch {
	u := thetaUpdate(p, uint8(5+p.Intn(4)), thetaP(p), seed)
	for i, n := 0, p.Intn(4); i < n; i++ {
		thetaStep(u, p)
	}
	switch p.Intn(5) {
	case 0:
		return u.Compact(false)
	case 1:
		return u.Compact(true)
	case 2:
		b, _ := u.Compact(true).MarshalBinary()
		w, err := theta.WrapCompactSketch(b, seed)
		if err != nil {
			panic(err)
		}
		return w
	}
	return u
}

func thetaObj(s theta.Sketch, seed uint64) *object {
	if u, ok := s.(*theta.QuickSelectUpdateSketch); ok {
		return thetaUpdateObj(u, seed)
	}
	return thetaCompactObj(s, seed)
}

func otherSeed(p *vk.PRNG, seed uint64) uint64 { return seed + 1 + p.U64()%1000 }

func thetaFails(get func() theta.Sketch, seed uint64) []fail {
	return []fail{
		{"a-not-b with another seed", func(p *vk.PRNG) error {
			o := thetaArg(p, otherSeed(p, seed))
			if get().IsEmpty() || o.IsEmpty() {
				return errSkip
			}
			_, err := theta.ANotB(get(), o, seed, true)
			return err
		}},
		{"jaccard with another seed", func(p *vk.PRNG) error {
			o := thetaArg(p, otherSeed(p, seed))
			if get().IsEmpty() || o.IsEmpty() {
				return errSkip
			}
			_, err := theta.Jaccard(o, get(), seed)
			return err
		}},
		{"bounds of a bad number of deviations", func(p *vk.PRNG) error {
			if !get().IsEstimationMode() {
				return errSkip
			}
			n := pick(p, uint8(0), 4, 255)
			_, e1 := get().LowerBound(n)
			_, e2 := get().UpperBound(n)
			return both(e1, e2)
		}},
		{"union with another seed", func(p *vk.PRNG) error {
			if get().IsEmpty() {
				return errSkip
			}
			u, err := theta.NewUnion(theta.WithUnionSeed(otherSeed(p, seed)))
			if err != nil {
				panic(err)
			}
			return u.Update(get())
		}},
		{"intersection with another seed", func(p *vk.PRNG) error {
			if get().IsEmpty() {
				return errSkip
			}
			return theta.NewIntersection(theta.WithIntersectionSeed(otherSeed(p, seed))).Update(get())
		}},
	}
}

func thetaDerive(get func() theta.Sketch, seed uint64) []deriv {
	return []deriv{
		{"compact", func(p *vk.PRNG) *object {
			return thetaCompactObj(theta.NewCompactSketch(get(), p.Intn(2) == 0), seed)
		}},
		{"decoded", func(p *vk.PRNG) *object {
			var w bytes.Buffer
			e := theta.NewEncoder(&w, p.Intn(2) == 0)
			mustNil(e.Encode(theta.NewCompactSketch(get(), p.Intn(2) == 0)))
			b := w.Bytes()
			c, err := theta.Decode(b, seed)
			if err != nil {
				panic(err)
			}
			flip(b)()
			return thetaCompactObj(c, seed)
		}},
		{"union of", func(p *vk.PRNG) *object {
			o := thetaUnionObj(uint8(5+p.Intn(4)), 1, seed, p)
			mustNil(o.u.Update(get()))
			return o.object
		}},
		{"union result of", func(p *vk.PRNG) *object {
			o := thetaUnionObj(uint8(5+p.Intn(4)), 1, seed, p)
			mustNil(o.u.Update(get()))
			r, err := o.u.Result(p.Intn(2) == 0)
			mustNil(err)
			return thetaCompactObj(r, seed)
		}},
		{"intersection of", func(p *vk.PRNG) *object {
			o, x := thetaInterObj(seed)
			mustNil(x.Update(get()))
			return o
		}},
		{"a-not-b of", func(p *vk.PRNG) *object {
			r, err := theta.ANotB(get(), thetaArg(p, seed), seed, p.Intn(2) == 0)
			mustNil(err)
			return thetaCompactObj(r, seed)
		}},
	}
}

func mustNil(err error) {
	if err != nil {
		panic(err)
	}
}

// both: an error only if each is one.
func both(errs ...error) error {
	for _, e := range errs {
		if e == nil {
			return nil
		}
	}
	return errs[0]
}

func thetaUpdateObj(u *theta.QuickSelectUpdateSketch, seed uint64) *object {
	last := new(int64)
	get := func() theta.Sketch { return u }
	o := &object{name: "theta update sketch", show: func() string { return thetaShow(u) + fmt.Sprint(u.LgK(), u.ResizeFactor()) }, loose: func() string { return thetaLoose(u) + fmt.Sprint(u.LgK(), u.ResizeFactor()) },
		step: func(p *vk.PRNG) { *last = thetaStep(u, p) }, reset: func() { *last = 0; u.Reset() }, reads: thetaReads(get, seed), derive: thetaDerive(get, seed), fails: thetaFails(get, seed)}
	o.buffers = []buf{{"update with bytes", func(p *vk.PRNG) (*object, func()) {
		b := []byte(fmt.Sprint("key", p.Intn(50)))
		_ = u.UpdateBytes(b)
		return nil, flip(b)
	}}, {"marshal", func(p *vk.PRNG) (*object, func()) {
		b, err := u.Compact(true).MarshalBinary()
		mustNil(err)
		return nil, flip(b)
	}}}
	o.fails = append(o.fails, fail{"repeated key", func(p *vk.PRNG) error {
		if u.IsEmpty() || *last == 0 {
			return errSkip
		}
		return u.UpdateInt64(*last)
	}})
	return o
}

func thetaCompactObj(s theta.Sketch, seed uint64) *object {
	get := func() theta.Sketch { return s }
	o := &object{name: "theta compact sketch", show: func() string { return thetaShow(s) }, reads: thetaReads(get, seed), derive: thetaDerive(get, seed), fails: thetaFails(get, seed)}
	if c, ok := s.(*theta.CompactSketch); ok {
		o.buffers = []buf{{"marshal", func(p *vk.PRNG) (*object, func()) {
			b, err := c.MarshalBinary()
			mustNil(err)
			return nil, flip(b)
		}}, {"encode", func(p *vk.PRNG) (*object, func()) {
			var w bytes.Buffer
			e := theta.NewEncoder(&w, p.Intn(2) == 0)
			mustNil(e.Encode(c))
			d, err := theta.Decode(w.Bytes(), seed)
			mustNil(err)
			return thetaCompactObj(d, seed), flip(w.Bytes())
		}}}
		o.fails = append(o.fails, fail{"decoding for another seed", func(p *vk.PRNG) error {
			if c.IsEmpty() {
				return errSkip
			}
			b, err := c.MarshalBinary()
			mustNil(err)
			_, err = theta.Decode(b, otherSeed(p, seed))
			_, err2 := theta.WrapCompactSketch(b, otherSeed(p, seed))
			return both(err, err2)
		}})
	}
	return o
}

type thetaUnion struct {
	*object
	u *theta.Union
}

func thetaUnionObj(lgK uint8, pr float32, seed uint64, p *vk.PRNG) thetaUnion {
	u, err := theta.NewUnion(theta.WithUnionLgK(lgK), theta.WithUnionSketchP(pr), theta.WithUnionSeed(seed), theta.WithUnionResizeFactor(theta.ResizeFactor(p.Intn(4))))
	mustNil(err)
	res := func(ordered bool) *theta.CompactSketch {
		r, err := u.Result(ordered)
		mustNil(err)
		return r
	}
	get := func() theta.Sketch { return res(true) }
	o := &object{name: "theta union",
		step:  func(p *vk.PRNG) { mustNil(u.Update(thetaArg(p, seed))) },
		show:  func() string { return thetaShow(res(true)) + thetaShow(res(false)) },
		loose: func() string { return thetaShow(res(true)) },
		reset: u.Reset,
		reads: append(thetaReads(get, seed), op{"result", func(p *vk.PRNG) { res(p.Intn(2) == 0) }}),
		derive: append(thetaDerive(get, seed), deriv{"result of", func(p *vk.PRNG) *object {
			return thetaCompactObj(res(p.Intn(2) == 0), seed)
		}}),
		absorb: []deriv{{"update with", func(p *vk.PRNG) *object {
			a := thetaArg(p, seed)
			o := thetaObj(a, seed)
			b := o.show()
			mustNil(u.Update(a))
			if s := o.show(); s != b {
				panic("union update changed its argument " + differ(b, s))
			}
			return o
		}}},
		fails: []fail{{"update with another seed", func(p *vk.PRNG) error {
			a := thetaArg(p, otherSeed(p, seed))
			if a.IsEmpty() {
				return errSkip
			}
			return refused(thetaObj(a, seed+1), func() error { return u.Update(a) })
		}}}}
	return thetaUnion{o, u}
}

func thetaInterObj(seed uint64) (*object, *theta.Intersection) {
	x := theta.NewIntersection(theta.WithIntersectionSeed(seed))
	res := func(ordered bool) *theta.CompactSketch {
		r, err := x.Result(ordered)
		mustNil(err)
		return r
	}
	o := &object{name: "theta intersection",
		step: func(p *vk.PRNG) { mustNil(x.Update(thetaBig(p, seed))) },
		show: func() string {
			if !x.HasResult() {
				_, err := x.Result(true)
				return fmt.Sprint("none ", err)
			}
			return thetaShow(res(true)) + thetaShow(res(false))
		},
		reads: []op{{"result", func(p *vk.PRNG) { _, _ = x.Result(p.Intn(2) == 0) }}, {"has result", func(p *vk.PRNG) { x.HasResult() }}},
		derive: []deriv{{"result of", func(p *vk.PRNG) *object {
			if !x.HasResult() {
				return nil
			}
			return thetaCompactObj(res(p.Intn(2) == 0), seed)
		}}},
		absorb: []deriv{{"update with", func(p *vk.PRNG) *object {
			a := thetaBig(p, seed)
			o := thetaObj(a, seed)
			b := o.show()
			mustNil(x.Update(a))
			if s := o.show(); s != b {
				panic("intersection update changed its argument " + differ(b, s))
			}
			return o
		}}},
		fails: []fail{{"update with another seed", func(p *vk.PRNG) error {
			a := thetaArg(p, otherSeed(p, seed))
			if a.IsEmpty() || (x.HasResult() && res(true).IsEmpty()) {
				return errSkip
			}
			return refused(thetaObj(a, seed+1), func() error { return x.Update(a) })
		}}, {"update with a corrupted sketch", func(p *vk.PRNG) error {
			if x.HasResult() && res(true).NumRetained() == 0 {
				return errSkip
			}
			return x.Update(repeating{thetaBig(p, seed)})
		}}, {"result before update", func(p *vk.PRNG) error {
			if x.HasResult() {
				return errSkip
			}
			_, err := x.Result(true)
			return err
		}}}}
	return o, x
}

// repeating yields every hash twice, against its own count.
type repeating struct{ theta.Sketch }

func (r repeating) IsOrdered() bool { return false }
func (r repeating) All() iter.Seq[uint64] {
	return func(y func(uint64) bool) {
		for h := range r.Sketch.All() {
			if !y(h) || !y(h) {
				return
			}
		}
	}
}

// thetaBig overlaps with other such sketches.
func thetaBig(p *vk.PRNG, seed uint64) theta.Sketch {
	u := thetaUpdate(p, uint8(5+p.Intn(5)), 1, seed)
	lo := p.Intn(200)
	for i, n := 0, burst(p, 1500); i < n; i++ {
		_ = u.UpdateInt64(int64(lo + i))
	}
	switch p.Intn(4) {
	case 0:
		return u.Compact(false)
	case 1:
		return u.Compact(true)
	}
	return u
}

func thetaSeed(p *vk.PRNG) uint64 { return pick(p, uint64(9001), 9001, 1, 123456789, math.MaxInt64) }

var thetaFamilies = []family{
	{"theta update", func(t *rapid.T, p *vk.PRNG) (func() *object, string) {
		lgK, pr, seed, s := uint8(5+p.Intn(5)), thetaP(p), thetaSeed(p), p.U64()
		return func() *object { return thetaUpdateObj(thetaUpdate(vk.NewPRNG(s), lgK, pr, seed), seed) }, fmt.Sprint(lgK, pr, seed)
	}},
	{"theta union", func(t *rapid.T, p *vk.PRNG) (func() *object, string) {
		lgK, pr, seed, s := uint8(5+p.Intn(5)), thetaP(p), thetaSeed(p), p.U64()
		return func() *object { return thetaUnionObj(lgK, pr, seed, vk.NewPRNG(s)).object }, fmt.Sprint(lgK, pr, seed)
	}},
	{"theta intersection", func(t *rapid.T, p *vk.PRNG) (func() *object, string) {
		seed := thetaSeed(p)
		return func() *object { o, _ := thetaInterObj(seed); return o }, fmt.Sprint(seed)
	}},
}
