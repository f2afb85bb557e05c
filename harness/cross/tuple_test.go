package cross_test

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"iter"
	"slices"
	"strings"

	"github.com/apache/datasketches-go/theta"
	"github.com/apache/datasketches-go/tuple"
	"pgregory.net/rapid"

	"verif/vk"
)

// tr is a reference-typed summary mutated in place, so that sharing one shows.
type tr struct{ v []int64 }

func (s *tr) Reset()               { s.v[0], s.v[1] = 0, 0 }
func (s *tr) Clone() tuple.Summary { return &tr{slices.Clone(s.v)} }
func (s *tr) Update(x int64)       { s.v[0], s.v[1] = s.v[0]*31+x, s.v[1]+1 }
func newTr() *tr                   { return &tr{make([]int64, 2)} }

type trPolicy struct{}

func (trPolicy) Apply(in, inc *tr) { in.v[0], in.v[1] = in.v[0]*37+inc.v[0], in.v[1]+inc.v[1] }

func writeTr(w io.Writer, s *tr) error { return binary.Write(w, binary.LittleEndian, s.v) }
func readTr(r io.Reader) (*tr, error) {
	s := newTr()
	return s, binary.Read(r, binary.LittleEndian, s.v)
}

// sk is the face shared by generic tuple sketches and array-of-numbers sketches.
type sk[S any] interface {
	IsEmpty() bool
	IsOrdered() bool
	IsEstimationMode() bool
	Estimate() float64
	LowerBound(uint8) (float64, error)
	UpperBound(uint8) (float64, error)
	LowerBoundFromSubset(uint8, uint32) (float64, error)
	UpperBoundFromSubset(uint8, uint32) (float64, error)
	Theta64() uint64
	NumRetained() uint32
	SeedHash() (uint16, error)
	String(bool) string
	All() iter.Seq2[uint64, S]
}

// strip removes the lines of a textual dump that print pointers.
func tupleShow[S any](s sk[S], val func(S) string) string {
	var b strings.Builder
	b.WriteString(s.String(false))
	sh, err := s.SeedHash()
	fmt.Fprintln(&b, s.IsEmpty(), s.IsOrdered(), s.IsEstimationMode(), s.NumRetained(), s.Theta64(), s.Estimate(), sh, err)
	for sd := uint8(1); sd <= 3; sd++ {
		l, e1 := s.LowerBound(sd)
		u, e2 := s.UpperBound(sd)
		l2, e3 := s.LowerBoundFromSubset(sd, s.NumRetained()/2)
		u2, e4 := s.UpperBoundFromSubset(sd, s.NumRetained()/2)
		fmt.Fprintln(&b, l, u, l2, u2, e1, e2, e3, e4)
	}
	for h, x := range s.All() {
		fmt.Fprintln(&b, h, val(x))
	}
	return b.String()
}

func tupleLoose[S any](s sk[S], val func(S) string) string {
	var es []string
	for h, x := range s.All() {
		es = append(es, fmt.Sprintf("%016x %s", h, val(x)))
	}
	slices.Sort(es)
	return fmt.Sprint(s.IsEmpty(), s.IsOrdered(), s.NumRetained(), s.Theta64(), s.Estimate(), es)
}

func trVal(s *tr) string { return fmt.Sprint(s.v) }

type tsk = tuple.Sketch[*tr]

func tupleUpdate(p *vk.PRNG, lgK uint8, pr float32, seed uint64) *tuple.UpdateSketch[*tr, int64] {
	s, err := tuple.NewUpdateSketch[*tr, int64](newTr, tuple.WithUpdateSketchLgK(lgK), tuple.WithUpdateSketchP(pr), tuple.WithUpdateSketchSeed(seed),
		tuple.WithUpdateSketchResizeFactor(theta.ResizeFactor(p.Intn(4))))
	mustNil(err)
	return s
}

func tupleStep(u *tuple.UpdateSketch[*tr, int64], p *vk.PRNG) {
	lo, dense := thetaKey(p), p.Intn(2) == 0
	for i, n := 0, burst(p, 500); i < n; i++ {
		k := thetaKey(p)
		if dense {
			k = lo + int64(i)
		}
		v := int64(p.Intn(9))
		switch p.Intn(8) {
		case 0:
			_ = u.UpdateString(fmt.Sprint(k), v)
		case 1:
			_ = u.UpdateFloat64(float64(k), v)
		case 2:
			_ = u.UpdateInt32(int32(k), v)
		case 3:
			_ = u.UpdateBytes([]byte(fmt.Sprint("b", k)), v)
		default:
			_ = u.UpdateInt64(k, v)
		}
	}
	if p.Intn(6) == 0 {
		u.Trim()
	}
}

func tupleArg(p *vk.PRNG, seed uint64) tsk {
	u := tupleUpdate(p, uint8(5+p.Intn(4)), thetaP(p), seed)
	for i, n := 0, p.Intn(4); i < n; i++ {
		tupleStep(u, p)
	}
	if p.Intn(3) == 0 {
		c, err := u.Compact(p.Intn(2) == 0)
		mustNil(err)
		return c
	}
	return u
}

// tupleBig overlaps with other such sketches.
func tupleBig(p *vk.PRNG, seed uint64) tsk {
	u := tupleUpdate(p, uint8(5+p.Intn(5)), 1, seed)
	lo := p.Intn(100)
	for i, n := 0, burst(p, 800); i < n; i++ {
		_ = u.UpdateInt64(int64(lo+i), int64(p.Intn(7)))
	}
	if p.Intn(2) == 0 {
		c, err := u.Compact(p.Intn(2) == 0)
		mustNil(err)
		return c
	}
	return u
}

func tupleObj(s tsk, seed uint64) *object {
	if u, ok := s.(*tuple.UpdateSketch[*tr, int64]); ok {
		return tupleUpdateObj(u, seed)
	}
	return tupleCompactObj(s, seed)
}

func tupleReads(get func() tsk, seed uint64) []op {
	return []op{
		{"show", func(p *vk.PRNG) { tupleShow[*tr](get(), trVal) }},
		{"part of All", func(p *vk.PRNG) {
			n := p.Intn(4)
			for range get().All() {
				if n--; n < 0 {
					break
				}
			}
		}},
		{"compact", func(p *vk.PRNG) { _, _ = tuple.NewCompactSketch(get(), p.Intn(2) == 0) }},
		{"encode", func(p *vk.PRNG) {
			var w bytes.Buffer
			c, err := tuple.NewCompactSketch(get(), p.Intn(2) == 0)
			mustNil(err)
			e := tuple.NewEncoder(&w, writeTr)
			mustNil(e.Encode(c))
		}},
		{"a-not-b", func(p *vk.PRNG) {
			o := tupleArg(p, seed)
			_, _ = tuple.ANotB(get(), o, seed, p.Intn(2) == 0)
			_, _ = tuple.ANotB(o, get(), seed, p.Intn(2) == 0)
			_, _ = tuple.TupleANotThetaB(get(), thetaArg(p, seed), seed, p.Intn(2) == 0)
		}},
		{"jaccard", func(p *vk.PRNG) {
			o := tupleArg(p, seed)
			_, _ = tuple.Jaccard(get(), o, trPolicy{}, seed)
			_, _ = tuple.IsExactlyEqual(o, get(), trPolicy{}, seed)
			_, _ = tuple.IsSimilar(get(), o, trPolicy{}, 0.9, seed)
			_, _ = tuple.IsDissimilar(o, get(), trPolicy{}, 0.1, seed)
		}},
		{"union", func(p *vk.PRNG) {
			u := newTupleUnion(p, 6, 1, seed)
			mustNil(u.Update(tupleArg(p, seed)))
			mustNil(u.Update(get()))
			mustNil(u.Update(tupleArg(p, seed)))
		}},
		{"intersection", func(p *vk.PRNG) {
			x := tuple.NewIntersection[*tr](trPolicy{}, tuple.WithIntersectionSeed(seed))
			mustNil(x.Update(get()))
			mustNil(x.Update(get()))
			mustNil(x.Update(tupleArg(p, seed)))
		}},
	}
}

func newTupleUnion(p *vk.PRNG, lgK uint8, pr float32, seed uint64) *tuple.Union[*tr] {
	u, err := tuple.NewUnion[*tr](trPolicy{}, tuple.WithUnionLgK(lgK), tuple.WithUnionSketchP(pr), tuple.WithUnionSeed(seed), tuple.WithUnionResizeFactor(theta.ResizeFactor(p.Intn(4))))
	mustNil(err)
	return u
}

func tupleDerive(get func() tsk, seed uint64) []deriv {
	comp := func(c *tuple.CompactSketch[*tr], err error) *object {
		mustNil(err)
		return tupleCompactObj(c, seed)
	}
	ord := func(p *vk.PRNG) bool { return p.Intn(2) == 0 }
	return []deriv{
		{"compact", func(p *vk.PRNG) *object { return comp(tuple.NewCompactSketch(get(), ord(p))) }},
		{"decoded", func(p *vk.PRNG) *object {
			var w bytes.Buffer
			c, err := tuple.NewCompactSketch(get(), ord(p))
			mustNil(err)
			e := tuple.NewEncoder(&w, writeTr)
			mustNil(e.Encode(c))
			d, err := tuple.Decode(w.Bytes(), seed, readTr)
			flip(w.Bytes())()
			return comp(d, err)
		}},
		{"filtered", func(p *vk.PRNG) *object {
			m := int64(1 + p.Intn(3))
			f := func(s *tr) bool { return s.v[0]%m == 0 }
			if u, ok := get().(*tuple.UpdateSketch[*tr, int64]); ok {
				return comp(u.Filter(f))
			}
			c, err := tuple.NewCompactSketch(get(), ord(p))
			mustNil(err)
			return comp(c.Filter(f))
		}},
		{"union of", func(p *vk.PRNG) *object {
			u := newTupleUnion(p, uint8(5+p.Intn(4)), 1, seed)
			mustNil(u.Update(get()))
			return tupleUnionObj(u, seed)
		}},
		{"intersection of", func(p *vk.PRNG) *object {
			x := tuple.NewIntersection[*tr](trPolicy{}, tuple.WithIntersectionSeed(seed))
			mustNil(x.Update(get()))
			return tupleInterObj(x, seed)
		}},
		{"a-not-b of", func(p *vk.PRNG) *object { return comp(tuple.ANotB(get(), tupleArg(p, seed), seed, ord(p))) }},
		{"a-not-theta-b of", func(p *vk.PRNG) *object {
			return comp(tuple.TupleANotThetaB(get(), thetaArg(p, seed), seed, ord(p)))
		}},
		{"from its keys", func(p *vk.PRNG) *object {
			return comp(tuple.NewCompactSketchFromThetaSketch(thetaArg(p, seed), &tr{[]int64{7, 7}}, ord(p)))
		}},
	}
}

func tupleFails(get func() tsk, seed uint64) []fail {
	return []fail{
		{"a-not-b with another seed", func(p *vk.PRNG) error {
			o := tupleArg(p, otherSeed(p, seed))
			if get().IsEmpty() || o.IsEmpty() {
				return errSkip
			}
			_, err := tuple.ANotB(get(), o, seed, true)
			return err
		}},
		{"jaccard with another seed", func(p *vk.PRNG) error {
			o := tupleArg(p, otherSeed(p, seed))
			if get().IsEmpty() || o.IsEmpty() {
				return errSkip
			}
			_, err := tuple.Jaccard(o, get(), trPolicy{}, seed)
			return err
		}},
		{"union with another seed", func(p *vk.PRNG) error {
			if get().IsEmpty() {
				return errSkip
			}
			return newTupleUnion(p, 6, 1, otherSeed(p, seed)).Update(get())
		}},
		{"bounds of a bad number of deviations", func(p *vk.PRNG) error {
			if !get().IsEstimationMode() {
				return errSkip
			}
			n := pick(p, uint8(0), 4, 255)
			_, e1 := get().LowerBound(n)
			_, e2 := get().UpperBound(n)
			return both(e1, e2)
		}},
	}
}

func tupleUpdateObj(u *tuple.UpdateSketch[*tr, int64], seed uint64) *object {
	get := func() tsk { return u }
	cfg := func() string { return fmt.Sprint(u.LgK(), u.ResizeFactor()) }
	return &object{name: "tuple update sketch",
		show:  func() string { return tupleShow[*tr](u, trVal) + cfg() },
		loose: func() string { return tupleLoose[*tr](u, trVal) + cfg() },
		step:  func(p *vk.PRNG) { tupleStep(u, p) }, reset: u.Reset,
		reads: tupleReads(get, seed), derive: tupleDerive(get, seed), fails: tupleFails(get, seed),
		buffers: []buf{{"update with bytes", func(p *vk.PRNG) (*object, func()) {
			b := []byte(fmt.Sprint("key", p.Intn(50)))
			_ = u.UpdateBytes(b, 3)
			return nil, flip(b)
		}}}}
}

// live reaches the summaries a compact sketch handed out and changes them.
func live(s tsk, p *vk.PRNG) {
	for _, x := range s.All() {
		x.v[0] += int64(1 + p.Intn(5))
	}
}

func tupleCompactObj(s tsk, seed uint64) *object {
	get := func() tsk { return s }
	o := &object{name: "tuple compact sketch", show: func() string { return tupleShow[*tr](s, trVal) },
		reads: tupleReads(get, seed), derive: tupleDerive(get, seed), fails: tupleFails(get, seed),
		step: func(p *vk.PRNG) { live(s, p) }}
	if c, ok := s.(*tuple.CompactSketch[*tr]); ok {
		o.buffers = []buf{{"encode", func(p *vk.PRNG) (*object, func()) {
			var w bytes.Buffer
			e := tuple.NewEncoder(&w, writeTr)
			mustNil(e.Encode(c))
			d, err := tuple.Decode(w.Bytes(), seed, readTr)
			mustNil(err)
			return tupleCompactObj(d, seed), flip(w.Bytes())
		}}}
		o.fails = append(o.fails, fail{"a failing writer", func(p *vk.PRNG) error {
			e := tuple.NewEncoder(failWriter{}, writeTr)
			return e.Encode(c)
		}}, fail{"decoding for another seed", func(p *vk.PRNG) error {
			if c.IsEmpty() {
				return errSkip
			}
			var w bytes.Buffer
			e := tuple.NewEncoder(&w, writeTr)
			mustNil(e.Encode(c))
			_, err := tuple.Decode(w.Bytes(), otherSeed(p, seed), readTr)
			return err
		}})
	}
	return o
}

type failWriter struct{}

func (failWriter) Write([]byte) (int, error) { return 0, io.ErrClosedPipe }

func tupleUnionObj(u *tuple.Union[*tr], seed uint64) *object {
	res := func(ordered bool) *tuple.CompactSketch[*tr] {
		r, err := u.Result(ordered)
		mustNil(err)
		return r
	}
	get := func() tsk { return res(true) }
	return &object{name: "tuple union",
		step:  func(p *vk.PRNG) { mustNil(u.Update(tupleArg(p, seed))) },
		show:  func() string { return tupleShow[*tr](res(true), trVal) + tupleShow[*tr](res(false), trVal) },
		loose: func() string { return tupleShow[*tr](res(true), trVal) },
		reset: u.Reset,
		reads: append(tupleReads(get, seed), op{"result", func(p *vk.PRNG) { res(p.Intn(2) == 0) }}),
		derive: append(tupleDerive(get, seed), deriv{"result of", func(p *vk.PRNG) *object {
			return tupleCompactObj(res(p.Intn(2) == 0), seed)
		}}),
		absorb: []deriv{{"update with", func(p *vk.PRNG) *object {
			o := tupleArg(p, seed)
			obj := tupleObj(o, seed)
			b := obj.show()
			mustNil(u.Update(o))
			if s := obj.show(); s != b {
				panic("union update changed its argument " + differ(b, s))
			}
			return obj
		}}},
		fails: []fail{{"update with another seed", func(p *vk.PRNG) error {
			a := tupleArg(p, otherSeed(p, seed))
			if a.IsEmpty() {
				return errSkip
			}
			return refused(tupleObj(a, seed+1), func() error { return u.Update(a) })
		}}}}
}

func tupleInterObj(x *tuple.Intersection[*tr], seed uint64) *object {
	res := func(ordered bool) *tuple.CompactSketch[*tr] {
		r, err := x.Result(ordered)
		mustNil(err)
		return r
	}
	return &object{name: "tuple intersection",
		step: func(p *vk.PRNG) { mustNil(x.Update(tupleBig(p, seed))) },
		show: func() string {
			if !x.HasResult() {
				_, err := x.Result(true)
				return fmt.Sprint("none ", err)
			}
			return tupleShow[*tr](res(true), trVal) + tupleShow[*tr](res(false), trVal)
		},
		reads: []op{{"result", func(p *vk.PRNG) { _, _ = x.Result(p.Intn(2) == 0) }}, {"has result", func(p *vk.PRNG) { x.HasResult() }}},
		derive: []deriv{{"result of", func(p *vk.PRNG) *object {
			if !x.HasResult() {
				return nil
			}
			return tupleCompactObj(res(p.Intn(2) == 0), seed)
		}}},
		absorb: []deriv{{"update with", func(p *vk.PRNG) *object {
			a := tupleBig(p, seed)
			o := tupleObj(a, seed)
			b := o.show()
			mustNil(x.Update(a))
			if s := o.show(); s != b {
				panic("intersection update changed its argument " + differ(b, s))
			}
			return o
		}}},
		fails: []fail{{"update with another seed", func(p *vk.PRNG) error {
			a := tupleArg(p, otherSeed(p, seed))
			if a.IsEmpty() || (x.HasResult() && res(true).IsEmpty()) {
				return errSkip
			}
			return refused(tupleObj(a, seed+1), func() error { return x.Update(a) })
		}}, {"update with a corrupted sketch", func(p *vk.PRNG) error {
			if x.HasResult() && res(true).NumRetained() == 0 {
				return errSkip
			}
			return x.Update(repeatingT{tupleBig(p, seed)})
		}}, {"result before update", func(p *vk.PRNG) error {
			if x.HasResult() {
				return errSkip
			}
			_, err := x.Result(true)
			return err
		}}}}
}

type repeatingT struct{ tsk }

func (r repeatingT) IsOrdered() bool { return false }
func (r repeatingT) All() iter.Seq2[uint64, *tr] {
	return func(y func(uint64, *tr) bool) {
		for h, s := range r.tsk.All() {
			if !y(h, s) || !y(h, s) {
				return
			}
		}
	}
}

// ---------------------------------------------------------------- array of numbers

type aonSketch = tuple.ArrayOfNumbersSketch[int64]
type aonSum = *tuple.ArrayOfNumbersSummary[int64]

func aonVal(s aonSum) string { return fmt.Sprint(s.Values()) }

type aonPolicy struct{}

func (aonPolicy) Apply(in, inc aonSum) {
	v, w := in.Values(), inc.Values()
	for i := range v {
		v[i] = v[i]*3 + w[i]
	}
}

func aonUpdate(p *vk.PRNG, size, lgK uint8, pr float32, seed uint64) *tuple.ArrayOfNumbersUpdateSketch[int64] {
	s, err := tuple.NewArrayOfNumbersUpdateSketch[int64](size, tuple.WithUpdateSketchLgK(lgK), tuple.WithUpdateSketchP(pr), tuple.WithUpdateSketchSeed(seed),
		tuple.WithUpdateSketchResizeFactor(theta.ResizeFactor(p.Intn(4))))
	mustNil(err)
	return s
}

func aonStep(u *tuple.ArrayOfNumbersUpdateSketch[int64], p *vk.PRNG) {
	lo, dense := thetaKey(p), p.Intn(2) == 0
	v := make([]int64, u.NumValuesInSummary())
	for i, n := 0, burst(p, 400); i < n; i++ {
		k := thetaKey(p)
		if dense {
			k = lo + int64(i)
		}
		for j := range v {
			v[j] = int64(p.Intn(9))
		}
		switch p.Intn(6) {
		case 0:
			_ = u.UpdateString(fmt.Sprint(k), v)
		case 1:
			_ = u.UpdateFloat64(float64(k), v)
		default:
			_ = u.UpdateInt64(k, v)
		}
	}
	if p.Intn(6) == 0 {
		u.Trim()
	}
}

func aonArg(p *vk.PRNG, size uint8, seed uint64) aonSketch {
	u := aonUpdate(p, size, uint8(5+p.Intn(4)), thetaP(p), seed)
	for i, n := 0, p.Intn(4); i < n; i++ {
		aonStep(u, p)
	}
	if p.Intn(3) == 0 {
		c, err := u.Compact(p.Intn(2) == 0)
		mustNil(err)
		return c
	}
	return u
}

func aonObj(s aonSketch, size uint8, seed uint64) *object {
	o := &object{name: "array-of-numbers sketch",
		show: func() string { return tupleShow[aonSum](s, aonVal) },
		reads: []op{
			{"show", func(p *vk.PRNG) { tupleShow[aonSum](s, aonVal) }},
			{"a-not-b", func(p *vk.PRNG) {
				a := aonArg(p, size, seed)
				_, _ = tuple.ArrayOfNumbersSketchANotB(s, a, seed, p.Intn(2) == 0)
				_, _ = tuple.ArrayOfNumbersSketchANotB(a, s, seed, p.Intn(2) == 0)
			}},
			{"union", func(p *vk.PRNG) {
				u := newAonUnion(p, size, 6, seed)
				mustNil(u.Update(aonArg(p, size, seed)))
				mustNil(u.Update(s))
				mustNil(u.Update(aonArg(p, size, seed)))
			}}},
		derive: []deriv{
			{"compact", func(p *vk.PRNG) *object {
				c, err := tuple.NewArrayOfNumbersCompactSketch(s, p.Intn(2) == 0)
				mustNil(err)
				return aonObj(c, size, seed)
			}},
			{"decoded", func(p *vk.PRNG) *object {
				c, err := tuple.NewArrayOfNumbersCompactSketch(s, p.Intn(2) == 0)
				mustNil(err)
				var w bytes.Buffer
				e := tuple.NewArrayOfNumbersSketchEncoder[int64](&w)
				mustNil(e.Encode(c))
				d, err := tuple.DecodeArrayOfNumbersCompactSketch[int64](w.Bytes(), seed)
				mustNil(err)
				flip(w.Bytes())()
				return aonObj(d, size, seed)
			}},
			{"union of", func(p *vk.PRNG) *object {
				u := newAonUnion(p, size, uint8(5+p.Intn(4)), seed)
				mustNil(u.Update(s))
				return aonUnionObj(u, size, seed)
			}},
			{"intersection result of", func(p *vk.PRNG) *object {
				x := tuple.NewArrayOfNumbersSketchIntersection[int64](aonPolicy{}, size, tuple.WithIntersectionSeed(seed))
				mustNil(x.Update(s))
				if p.Intn(2) == 0 {
					mustNil(x.Update(s))
				}
				r, err := x.Result(p.Intn(2) == 0)
				mustNil(err)
				return aonObj(r, size, seed)
			}},
			{"a-not-b of", func(p *vk.PRNG) *object {
				r, err := tuple.ArrayOfNumbersSketchANotB(s, aonArg(p, size, seed), seed, p.Intn(2) == 0)
				mustNil(err)
				return aonObj(r, size, seed)
			}}},
		fails: []fail{{"a-not-b with another seed", func(p *vk.PRNG) error {
			a := aonArg(p, size, otherSeed(p, seed))
			if s.IsEmpty() || a.IsEmpty() {
				return errSkip
			}
			_, err := tuple.ArrayOfNumbersSketchANotB(s, a, seed, true)
			return err
		}}},
		// summaries are handed out live: changing them must change no other sketch
		step: func(p *vk.PRNG) {
			for _, x := range s.All() {
				if v := x.Values(); len(v) > 0 {
					v[0] += int64(p.Intn(4))
				}
			}
		}}
	if u, ok := s.(*tuple.ArrayOfNumbersUpdateSketch[int64]); ok {
		cfg := func() string { return fmt.Sprint(u.LgK(), u.ResizeFactor()) }
		o.show = func() string { return tupleShow[aonSum](s, aonVal) + cfg() }
		o.loose = func() string { return tupleLoose[aonSum](s, aonVal) + cfg() }
		o.step = func(p *vk.PRNG) { aonStep(u, p) }
		o.reset = u.Reset
		o.buffers = []buf{{"update with values", func(p *vk.PRNG) (*object, func()) {
			v := make([]int64, size)
			b := []byte(fmt.Sprint("key", p.Intn(50)))
			_ = u.UpdateBytes(b, v)
			return nil, func() {
				flip(b)()
				for i := range v {
					v[i] = 99
				}
			}
		}}}
	}
	return o
}

func newAonUnion(p *vk.PRNG, size, lgK uint8, seed uint64) *tuple.ArrayOfNumbersSketchUnion[int64] {
	u, err := tuple.NewArrayOfNumbersSketchUnion[int64](aonPolicy{}, size, tuple.WithUnionLgK(lgK), tuple.WithUnionSeed(seed), tuple.WithUnionResizeFactor(theta.ResizeFactor(p.Intn(4))))
	mustNil(err)
	return u
}

func aonUnionObj(u *tuple.ArrayOfNumbersSketchUnion[int64], size uint8, seed uint64) *object {
	res := func(ordered bool) *tuple.ArrayOfNumbersCompactSketch[int64] {
		r, err := u.Result(ordered)
		mustNil(err)
		return r
	}
	return &object{name: "array-of-numbers union",
		step:  func(p *vk.PRNG) { mustNil(u.Update(aonArg(p, size, seed))) },
		show:  func() string { return tupleShow[aonSum](res(true), aonVal) + tupleShow[aonSum](res(false), aonVal) },
		loose: func() string { return tupleShow[aonSum](res(true), aonVal) },
		reset: u.Reset,
		reads: []op{{"result", func(p *vk.PRNG) { res(p.Intn(2) == 0) }}},
		derive: []deriv{{"result of", func(p *vk.PRNG) *object {
			return aonObj(res(p.Intn(2) == 0), size, seed)
		}}},
		absorb: []deriv{{"update with", func(p *vk.PRNG) *object {
			a := aonArg(p, size, seed)
			o := aonObj(a, size, seed)
			b := o.show()
			mustNil(u.Update(a))
			if s := o.show(); s != b {
				panic("union update changed its argument " + differ(b, s))
			}
			return o
		}}},
		fails: []fail{{"update with another seed", func(p *vk.PRNG) error {
			a := aonArg(p, size, otherSeed(p, seed))
			if a.IsEmpty() {
				return errSkip
			}
			return refused(aonObj(a, size, seed+1), func() error { return u.Update(a) })
		}}, {"update with another number of values", func(p *vk.PRNG) error {
			return u.Update(aonBig(p, size+1, seed))
		}}}}
}

// aonBig overlaps with other such sketches.
func aonBig(p *vk.PRNG, size uint8, seed uint64) aonSketch {
	u := aonUpdate(p, size, uint8(5+p.Intn(5)), 1, seed)
	lo, v := p.Intn(100), make([]int64, size)
	for i, n := 0, burst(p, 800); i < n; i++ {
		for j := range v {
			v[j] = int64(p.Intn(7))
		}
		_ = u.UpdateInt64(int64(lo+i), v)
	}
	if p.Intn(2) == 0 {
		c, err := u.Compact(p.Intn(2) == 0)
		mustNil(err)
		return c
	}
	return u
}

func aonInterObj(x *tuple.ArrayOfNumbersSketchIntersection[int64], size uint8, seed uint64) *object {
	res := func(ordered bool) *tuple.ArrayOfNumbersCompactSketch[int64] {
		r, err := x.Result(ordered)
		mustNil(err)
		return r
	}
	return &object{name: "array-of-numbers intersection",
		step: func(p *vk.PRNG) { mustNil(x.Update(aonBig(p, size, seed))) },
		show: func() string {
			if !x.HasResult() {
				_, err := x.Result(true)
				return fmt.Sprint("none ", err)
			}
			return tupleShow[aonSum](res(true), aonVal) + tupleShow[aonSum](res(false), aonVal)
		},
		reads: []op{{"result", func(p *vk.PRNG) { _, _ = x.Result(p.Intn(2) == 0) }}, {"has result", func(p *vk.PRNG) { x.HasResult() }}},
		derive: []deriv{{"result of", func(p *vk.PRNG) *object {
			if !x.HasResult() {
				return nil
			}
			return aonObj(res(p.Intn(2) == 0), size, seed)
		}}},
		absorb: []deriv{{"update with", func(p *vk.PRNG) *object {
			a := aonBig(p, size, seed)
			o := aonObj(a, size, seed)
			b := o.show()
			mustNil(x.Update(a))
			if s := o.show(); s != b {
				panic("intersection update changed its argument " + differ(b, s))
			}
			return o
		}}},
		fails: []fail{{"update with another seed", func(p *vk.PRNG) error {
			a := aonArg(p, size, otherSeed(p, seed))
			if a.IsEmpty() || (x.HasResult() && res(true).IsEmpty()) {
				return errSkip
			}
			return refused(aonObj(a, size, seed+1), func() error { return x.Update(a) })
		}}, {"update with another number of values", func(p *vk.PRNG) error {
			if x.HasResult() && res(true).IsEmpty() {
				return errSkip
			}
			return x.Update(aonBig(p, size+1, seed))
		}}, {"update with a corrupted sketch", func(p *vk.PRNG) error {
			if x.HasResult() && res(true).NumRetained() == 0 {
				return errSkip
			}
			return x.Update(repeatingA{aonBig(p, size, seed)})
		}}, {"result before update", func(p *vk.PRNG) error {
			if x.HasResult() {
				return errSkip
			}
			_, err := x.Result(true)
			return err
		}}}}
}

type repeatingA struct{ aonSketch }

func (r repeatingA) IsOrdered() bool { return false }
func (r repeatingA) All() iter.Seq2[uint64, aonSum] {
	return func(y func(uint64, aonSum) bool) {
		for h, s := range r.aonSketch.All() {
			if !y(h, s) || !y(h, s) {
				return
			}
		}
	}
}

// ---------------------------------------------------------------- array of strings

type aosSketch = tuple.UpdateSketch[*tuple.ArrayOfStringsSummary, []string]

func aosObj(u *aosSketch, seed uint64) *object {
	type sum = *tuple.ArrayOfStringsSummary
	val := func(s sum) string {
		var w bytes.Buffer
		mustNil(tuple.ArrayOfStringsSummaryWriter(&w, s))
		return w.String()
	}
	strs := func(p *vk.PRNG) []string {
		v := make([]string, p.Intn(4))
		for i := range v {
			v[i] = fmt.Sprint(p.Intn(5))
		}
		return v
	}
	var mkCompact func(c *tuple.CompactSketch[sum], err error) *object
	mkCompact = func(c *tuple.CompactSketch[sum], err error) *object {
		mustNil(err)
		return &object{name: "array-of-strings compact sketch", show: func() string { return tupleShow[sum](c, val) },
			reads: []op{{"show", func(p *vk.PRNG) { tupleShow[sum](c, val) }}},
			step: func(p *vk.PRNG) {
				for _, s := range c.All() {
					s.Update(strs(p))
				}
			},
			derive: []deriv{{"compact", func(p *vk.PRNG) *object { return mkCompact(tuple.NewCompactSketch[sum](c, p.Intn(2) == 0)) }}},
			buffers: []buf{{"encode", func(p *vk.PRNG) (*object, func()) {
				var w bytes.Buffer
				e := tuple.NewEncoder(&w, tuple.ArrayOfStringsSummaryWriter)
				mustNil(e.Encode(c))
				d, err := tuple.Decode(w.Bytes(), seed, tuple.ArrayOfStringsSummaryReader)
				return mkCompact(d, err), flip(w.Bytes())
			}}}}
	}
	return &object{name: "array-of-strings sketch", show: func() string { return tupleShow[sum](u, val) }, loose: func() string { return tupleLoose[sum](u, val) },
		reset: u.Reset,
		reads: []op{{"show", func(p *vk.PRNG) { tupleShow[sum](u, val) }}, {"compact", func(p *vk.PRNG) { _, _ = u.Compact(p.Intn(2) == 0) }}},
		step: func(p *vk.PRNG) {
			for i, n := 0, burst(p, 300); i < n; i++ {
				_ = u.UpdateInt64(int64(p.Intn(300)), strs(p))
			}
		},
		derive: []deriv{{"compact", func(p *vk.PRNG) *object { return mkCompact(u.Compact(p.Intn(2) == 0)) }},
			{"filtered", func(p *vk.PRNG) *object { return mkCompact(u.Filter(func(s sum) bool { return len(val(s)) > 3 })) }}},
		buffers: []buf{{"update with strings", func(p *vk.PRNG) (*object, func()) {
			v := []string{"a", "b"}
			_ = u.UpdateInt64(int64(p.Intn(20)), v)
			return nil, func() { v[0], v[1] = "x", "y" }
		}}}}
}

var tupleFamilies = []family{
	{"tuple update", func(t *rapid.T, p *vk.PRNG) (func() *object, string) {
		lgK, pr, seed, s := uint8(5+p.Intn(5)), thetaP(p), thetaSeed(p), p.U64()
		return func() *object { return tupleUpdateObj(tupleUpdate(vk.NewPRNG(s), lgK, pr, seed), seed) }, fmt.Sprint(lgK, pr, seed)
	}},
	{"tuple union", func(t *rapid.T, p *vk.PRNG) (func() *object, string) {
		lgK, pr, seed, s := uint8(5+p.Intn(5)), thetaP(p), thetaSeed(p), p.U64()
		return func() *object { return tupleUnionObj(newTupleUnion(vk.NewPRNG(s), lgK, pr, seed), seed) }, fmt.Sprint(lgK, pr, seed)
	}},
	{"tuple intersection", func(t *rapid.T, p *vk.PRNG) (func() *object, string) {
		seed := thetaSeed(p)
		return func() *object {
			return tupleInterObj(tuple.NewIntersection[*tr](trPolicy{}, tuple.WithIntersectionSeed(seed)), seed)
		}, fmt.Sprint(seed)
	}},
	{"array of numbers", func(t *rapid.T, p *vk.PRNG) (func() *object, string) {
		size, lgK, pr, seed, s := uint8(1+p.Intn(4)), uint8(5+p.Intn(5)), thetaP(p), thetaSeed(p), p.U64()
		return func() *object { return aonObj(aonUpdate(vk.NewPRNG(s), size, lgK, pr, seed), size, seed) }, fmt.Sprint(size, lgK, pr, seed)
	}},
	{"array of numbers union", func(t *rapid.T, p *vk.PRNG) (func() *object, string) {
		size, lgK, seed, s := uint8(1+p.Intn(4)), uint8(5+p.Intn(5)), thetaSeed(p), p.U64()
		return func() *object { return aonUnionObj(newAonUnion(vk.NewPRNG(s), size, lgK, seed), size, seed) }, fmt.Sprint(size, lgK, seed)
	}},
	{"array of numbers intersection", func(t *rapid.T, p *vk.PRNG) (func() *object, string) {
		size, seed := uint8(1+p.Intn(4)), thetaSeed(p)
		return func() *object {
			return aonInterObj(tuple.NewArrayOfNumbersSketchIntersection[int64](aonPolicy{}, size, tuple.WithIntersectionSeed(seed)), size, seed)
		}, fmt.Sprint(size, seed)
	}},
	{"array of strings", func(t *rapid.T, p *vk.PRNG) (func() *object, string) {
		lgK, seed := uint8(5+p.Intn(4)), thetaSeed(p)
		return func() *object {
			u, err := tuple.NewUpdateSketch[*tuple.ArrayOfStringsSummary, []string](tuple.NewArrayOfStringsSummaryFunc, tuple.WithUpdateSketchLgK(lgK), tuple.WithUpdateSketchSeed(seed))
			mustNil(err)
			return aosObj(u, seed)
		}, fmt.Sprint(lgK, seed)
	}},
}
