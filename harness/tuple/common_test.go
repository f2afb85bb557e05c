package tuple_test

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"iter"
	"slices"

	"github.com/apache/datasketches-go/theta"
	"github.com/apache/datasketches-go/tuple"
	"pgregory.net/rapid"

	"verif/ref"
	"verif/tgen"
	"verif/vk"
)

// Tr is a reference-typed, order-sensitive summary: the trace of everything applied to it.
type Tr struct{ v []int64 }

func (s *Tr) Reset()               { s.v = s.v[:0] }
func (s *Tr) Clone() tuple.Summary { return &Tr{slices.Clone(s.v)} }
func (s *Tr) Update(x int64)       { s.v = append(s.v, x) }
func newTr() *Tr                   { return &Tr{} }

const sep = int64(-1 << 60)

// trPolicy appends a separator and the incoming trace.
type trPolicy struct{}

func merge(a, b []int64) []int64 { return append(append(slices.Clone(a), sep), b...) }

func (trPolicy) Apply(in, inc *Tr) { in.v = append(append(in.v, sep), inc.v...) }

func trMerge(in, inc *Tr) *Tr { return &Tr{merge(in.v, inc.v)} }

func writeTr(w io.Writer, s *Tr) error {
	b := binary.LittleEndian.AppendUint16(nil, uint16(len(s.v)))
	for _, x := range s.v {
		b = binary.LittleEndian.AppendUint64(b, uint64(x))
	}
	_, err := w.Write(b)
	return err
}

func readTr(r io.Reader) (*Tr, error) {
	var n uint16
	if err := binary.Read(r, binary.LittleEndian, &n); err != nil {
		return nil, err
	}
	b := make([]byte, 8*int(n))
	if _, err := io.ReadFull(r, b); err != nil {
		return nil, err
	}
	s := &Tr{}
	for i := 0; i < int(n); i++ {
		s.v = append(s.v, int64(binary.LittleEndian.Uint64(b[8*i:])))
	}
	return s, nil
}

// Val is the abstract value of a tuple sketch.
type Val struct {
	ref.KMV
	M map[uint64][]int64
}

func (v Val) restrict() Val {
	m := map[uint64][]int64{}
	for _, h := range v.H {
		m[h] = v.M[h]
	}
	v.M = m
	return v
}

type TSketch = tuple.Sketch[*Tr]

// Snap is the observable content of a sketch.
type Snap struct {
	tgen.Snapshot
	S [][]int64
}

func snap(s TSketch) Snap {
	sn := Snap{}
	sn.Theta, sn.Empty, sn.Ordered, sn.Est, sn.N = s.Theta64(), s.IsEmpty(), s.IsOrdered(), s.IsEstimationMode(), s.NumRetained()
	sn.SeedH, _ = s.SeedHash()
	for h, x := range s.All() {
		sn.H = append(sn.H, h)
		sn.S = append(sn.S, slices.Clone(x.v))
	}
	return sn
}

func (a Snap) Equal(b Snap) bool {
	return a.Snapshot.Equal(b.Snapshot) && slices.EqualFunc(a.S, b.S, slices.Equal[[]int64])
}

// asTheta lets the theta checker examine a tuple sketch's keys.
type asTheta struct {
	theta.Sketch
	s TSketch
}

func (a asTheta) Theta64() uint64           { return a.s.Theta64() }
func (a asTheta) Theta() float64            { return a.s.Theta() }
func (a asTheta) IsEmpty() bool             { return a.s.IsEmpty() }
func (a asTheta) IsOrdered() bool           { return a.s.IsOrdered() }
func (a asTheta) IsEstimationMode() bool    { return a.s.IsEstimationMode() }
func (a asTheta) NumRetained() uint32       { return a.s.NumRetained() }
func (a asTheta) Estimate() float64         { return a.s.Estimate() }
func (a asTheta) SeedHash() (uint16, error) { return a.s.SeedHash() }
func (a asTheta) All() iter.Seq[uint64] {
	return func(y func(uint64) bool) {
		for h := range a.s.All() {
			if !y(h) {
				return
			}
		}
	}
}

func check(s TSketch, v Val) error {
	if err := tgen.Check(asTheta{s: s}, v.KMV); err != nil {
		return err
	}
	seen := map[*Tr]bool{}
	for h, x := range s.All() {
		if !slices.Equal(x.v, v.M[h]) {
			return fmt.Errorf("summary of %d is %v, want %v", h, x.v, v.M[h])
		}
		if seen[x] {
			return fmt.Errorf("two entries share one summary")
		}
		seen[x] = true
	}
	return nil
}

type opnd struct {
	S      TSketch
	V      Val
	desc   string
	before Snap
}

func (o opnd) unchanged(t *rapid.T, what string) {
	if s := snap(o.S); !s.Equal(o.before) {
		t.Fatalf("%s changed its operand %s: %v %v -> %v %v", what, o.desc, o.before, o.before.S, s, s.S)
	}
}

// encodeRef writes the documented compact tuple layout.
func encodeRef(v ref.KMV, entries []uint64, ordered bool, payload func(h uint64) []byte) []byte {
	b := ref.EncodeThetaV3(v, nil, ordered)
	est := v.Theta < ref.MaxTheta && !v.Empty
	pre := 2
	if est {
		pre = 3
	} else if v.Empty || len(entries) == 1 {
		pre = 1
	}
	full := make([]byte, 8*pre)
	copy(full, b)
	full[0], full[1], full[2], full[3], full[4] = byte(pre), 3, 9, 1, 0
	full[5] = 1<<3 | 1<<1
	if v.Empty {
		full[5] |= 4
	}
	if ordered {
		full[5] |= 16
	}
	if pre > 1 {
		binary.LittleEndian.PutUint32(full[8:], uint32(len(entries)))
		binary.LittleEndian.PutUint32(full[12:], 0)
	}
	if est {
		binary.LittleEndian.PutUint64(full[16:], v.Theta)
	}
	for _, h := range entries {
		full = binary.LittleEndian.AppendUint64(full, h)
		full = append(full, payload(h)...)
	}
	return full
}

func trBytes(v []int64) []byte {
	var b bytes.Buffer
	_ = writeTr(&b, &Tr{v})
	return b.Bytes()
}

// drawOpnd builds a tuple operand of any form.
func drawOpnd(t *rapid.T, label string, u tgen.Universe, seed uint64, maxN, maxLgK int, tag int64) opnd {
	sp := tgen.DrawOp(t, label, maxN, maxLgK)
	hs := sp.Hashes(u)
	o := opnd{desc: fmt.Sprintf("%s%+v", label, sp)}
	if sp.Kind == 7 {
		slices.Sort(hs)
		hs = slices.Compact(hs)
		v := Val{ref.KMV{Theta: ref.MaxTheta, SeedH: ref.SeedHash16(seed)}, map[uint64][]int64{}}
		if sp.Cut <= 100 && len(hs) > 0 {
			i := len(hs) * sp.Cut / 101
			if hs[i] > 1 {
				v.Theta = hs[i]
				hs = hs[:i]
			}
		} else if len(hs) == 0 && sp.Cut <= 70 {
			v.Theta = u.Hash(sp.From)>>1 + 1
		}
		v.H = hs
		v.Empty = v.Theta == ref.MaxTheta && len(hs) == 0
		for i, h := range hs {
			v.M[h] = []int64{tag, int64(i)}
		}
		ord := sp.Order != 2 || len(hs) <= 1 || v.Empty
		ent := slices.Clone(hs)
		if !ord {
			slices.Reverse(ent)
		}
		img := encodeRef(v.KMV, ent, ord, func(h uint64) []byte { return trBytes(v.M[h]) })
		s, err := tuple.Decode[*Tr](img, seed, readTr)
		if err != nil {
			t.Fatalf("decoding a valid image: %v", err)
		}
		o.S, o.V = s, v
	} else {
		us, err := tuple.NewUpdateSketch[*Tr, int64](newTr, tuple.WithUpdateSketchLgK(sp.LgK), tuple.WithUpdateSketchP(sp.P),
			tuple.WithUpdateSketchResizeFactor(theta.ResizeFactor(sp.RF)), tuple.WithUpdateSketchSeed(seed))
		if err != nil {
			t.Fatal(err)
		}
		m := ref.NewThetaModel(sp.LgK, sp.P, seed)
		vals := map[uint64][]int64{}
		m.OnDrop = func(h uint64) { delete(vals, h) }
		put := func(h uint64, x int64) {
			_ = us.UpdateBytes(tgen.Bytes(h, seed), x)
			m.Offer(h)
			if _, ok := m.Set[h]; ok {
				vals[h] = append(vals[h], x)
			}
		}
		for i, h := range hs {
			put(h, tag+int64(i))
			if i%7 == 3 {
				put(hs[i/2], tag-int64(i)-1)
			}
		}
		if sp.Trim {
			us.Trim()
			m.Trim()
		}
		o.V = Val{ref.KMV{Theta: m.Theta64(), H: m.Sorted(), Empty: m.Empty, SeedH: ref.SeedHash16(seed)}, vals}
		o.S = us
		switch sp.Kind {
		case 1, 2:
			c, err := us.Compact(sp.Kind == 1)
			if err != nil {
				t.Fatal(err)
			}
			o.S = c
		case 3, 4:
			c, err := us.Compact(sp.Order != 1)
			if err != nil {
				t.Fatal(err)
			}
			var b bytes.Buffer
			e := tuple.NewEncoder[*Tr](&b, writeTr)
			if err := e.Encode(c); err != nil {
				t.Fatal(err)
			}
			d, err := tuple.Decode[*Tr](b.Bytes(), seed, readTr)
			if err != nil {
				t.Fatalf("decode of own image: %v", err)
			}
			o.S = d
		case 5: // filtered
			c, err := us.Filter(func(s *Tr) bool { return len(s.v) > 0 && s.v[0]%3 != 0 })
			if err != nil {
				t.Fatal(err)
			}
			var keep []uint64
			for _, h := range o.V.H {
				if o.V.M[h][0]%3 != 0 {
					keep = append(keep, h)
				}
			}
			o.V.H = keep
			o.V = o.V.restrict()
			o.V.Empty = len(keep) == 0 && !(o.V.Theta < ref.MaxTheta && !m.Empty)
			o.S = c
		case 6: // from a theta sketch
			ts, _ := theta.NewQuickSelectUpdateSketch(theta.WithUpdateSketchLgK(sp.LgK), theta.WithUpdateSketchP(sp.P), theta.WithUpdateSketchSeed(seed))
			for i, h := range hs {
				_ = ts.UpdateBytes(tgen.Bytes(h, seed))
				if i%7 == 3 {
					_ = ts.UpdateBytes(tgen.Bytes(hs[i/2], seed))
				}
			}
			if sp.Trim {
				ts.Trim()
			}
			base := &Tr{[]int64{tag}}
			c, err := tuple.NewCompactSketchFromThetaSketch[*Tr](ts, base, sp.Order == 1)
			if err != nil {
				t.Fatal(err)
			}
			base.v[0] = 777
			for _, h := range o.V.H {
				o.V.M[h] = []int64{tag}
			}
			o.S = c
		}
	}
	if err := check(o.S, o.V); err != nil {
		t.Fatalf("operand %s: %v", o.desc, err)
	}
	o.before = snap(o.S)
	return o
}

func drawSeed(t *rapid.T) uint64 {
	seed := rapid.OneOf(rapid.Just(uint64(9001)), rapid.Uint64()).Draw(t, "seed")
	if ref.SeedHash16(seed) == 0 {
		seed = 9001
	}
	return seed
}

func otherSeed(seed uint64) uint64 {
	o := seed + 1
	for ref.SeedHash16(o) == 0 || ref.SeedHash16(o) == ref.SeedHash16(seed) {
		o++
	}
	return o
}

func foreign(t *rapid.T, seed uint64) TSketch {
	p := float32(1)
	if vk.Chance(t, "foreignNone", 1, 3) { // not empty, but retains nothing
		p = 1e-9
	}
	s, _ := tuple.NewUpdateSketch[*Tr, int64](newTr, tuple.WithUpdateSketchSeed(otherSeed(seed)), tuple.WithUpdateSketchP(p))
	_ = s.UpdateInt64(1, 1)
	if rapid.Bool().Draw(t, "foreignCompact") {
		c, _ := s.Compact(true)
		return c
	}
	return s
}

func below(h []uint64, th uint64) []uint64 {
	i, _ := slices.BinarySearch(h, th)
	return h[:i]
}

var _ = vk.Int
