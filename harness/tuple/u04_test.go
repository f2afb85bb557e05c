package tuple_test

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"slices"
	"testing"
	"testing/iotest"

	"github.com/apache/datasketches-go/theta"
	"github.com/apache/datasketches-go/tuple"
	"pgregory.net/rapid"

	"verif/ref"
	"verif/tgen"
	"verif/vk"
)

// aval is the abstract value of an array-of-numbers sketch.
type aval[V tuple.Number] struct {
	ref.KMV
	M map[uint64][]V
}

type asnap[V tuple.Number] struct {
	tgen.Snapshot
	S  [][]V
	NV uint8
}

func snapA[V tuple.Number](s tuple.ArrayOfNumbersSketch[V]) asnap[V] {
	sn := asnap[V]{NV: s.NumValuesInSummary()}
	sn.Theta, sn.Empty, sn.Ordered, sn.Est, sn.N = s.Theta64(), s.IsEmpty(), s.IsOrdered(), s.IsEstimationMode(), s.NumRetained()
	sn.SeedH, _ = s.SeedHash()
	for h, x := range s.All() {
		sn.H = append(sn.H, h)
		sn.S = append(sn.S, slices.Clone(x.Values()))
	}
	return sn
}

func (a asnap[V]) Equal(b asnap[V]) bool {
	return a.NV == b.NV && a.Snapshot.Equal(b.Snapshot) && slices.EqualFunc(a.S, b.S, slices.Equal[[]V])
}

func checkA[V tuple.Number](s tuple.ArrayOfNumbersSketch[V], v aval[V], nv int) error {
	sn := snapA(s)
	if int(sn.NV) != nv {
		return fmt.Errorf("NumValuesInSummary %d, want %d", sn.NV, nv)
	}
	if v.Empty && sn.Empty && sn.N == 0 && len(sn.H) == 0 {
		return nil
	}
	if sn.Theta != v.Theta || sn.Empty != v.Empty || sn.SeedH != v.SeedH || int(sn.N) != len(v.H) || len(sn.H) != len(v.H) || sn.Est != (v.Theta < ref.MaxTheta && !v.Empty) {
		return fmt.Errorf("theta=%d empty=%v n=%d seedhash=%d est=%v, want theta=%d empty=%v n=%d seedhash=%d", sn.Theta, sn.Empty, sn.N, sn.SeedH, sn.Est, v.Theta, v.Empty, len(v.H), v.SeedH)
	}
	if e, w := s.Estimate(), float64(len(v.H))/(float64(v.Theta)/float64(ref.MaxTheta)); e != w {
		return fmt.Errorf("estimate %v, want %v", e, w)
	}
	if sn.Ordered && !slices.IsSorted(sn.H) {
		return fmt.Errorf("claims to be ordered but is not")
	}
	for i, h := range sn.H {
		w, ok := v.M[h]
		if _, in := slices.BinarySearch(v.H, h); !ok || !in {
			return fmt.Errorf("unexpected hash %d", h)
		}
		if !slices.Equal(w, sn.S[i]) {
			return fmt.Errorf("values of %d are %v, want %v", h, sn.S[i], w)
		}
	}
	for sd := uint8(1); sd <= 3; sd++ {
		lb, e1 := s.LowerBound(sd)
		ub, e2 := s.UpperBound(sd)
		if e1 != nil || e2 != nil || lb > s.Estimate() || ub < s.Estimate() || lb < float64(len(v.H)) {
			return fmt.Errorf("bounds %v %v around %v (%v %v)", lb, ub, s.Estimate(), e1, e2)
		}
	}
	return nil
}

// aPolicy is order-sensitive: internal = 2*internal + incoming (exact in every number type used, modulo wrap).
type aPolicy[V tuple.Number] struct{}

func comb[V tuple.Number](a, b []V) []V {
	r := slices.Clone(a)
	for i := range r {
		r[i] = 2*r[i] + b[i]
	}
	return r
}

func (aPolicy[V]) Apply(in, inc *tuple.ArrayOfNumbersSummary[V]) {
	x, y := in.Values(), inc.Values()
	for i := range x {
		x[i] = 2*x[i] + y[i]
	}
}

type aopnd[V tuple.Number] struct {
	S      tuple.ArrayOfNumbersSketch[V]
	V      aval[V]
	nv     int
	desc   string
	before asnap[V]
}

func encodeAoN[V tuple.Number](v aval[V], ent []uint64, ord bool, nv int) []byte {
	b := []byte{1, 1, 9, 3, 0, byte(nv), 0, 0}
	if v.Empty {
		b[4] |= 4
	}
	if len(ent) > 0 {
		b[4] |= 8
	}
	if ord {
		b[4] |= 16
	}
	binary.LittleEndian.PutUint16(b[6:], v.SeedH)
	b = binary.LittleEndian.AppendUint64(b, v.Theta)
	if len(ent) > 0 {
		b = binary.LittleEndian.AppendUint32(b, uint32(len(ent)))
		b = binary.LittleEndian.AppendUint32(b, 0)
		for _, h := range ent {
			b = binary.LittleEndian.AppendUint64(b, h)
		}
		for _, h := range ent {
			for _, x := range v.M[h] {
				b = appendNum(b, x)
			}
		}
	}
	return b
}

func appendNum[V tuple.Number](b []byte, x V) []byte {
	switch y := any(x).(type) {
	case int8:
		return append(b, byte(y))
	case uint16:
		return binary.LittleEndian.AppendUint16(b, y)
	case int64:
		return binary.LittleEndian.AppendUint64(b, uint64(y))
	case float32:
		return binary.LittleEndian.AppendUint32(b, math.Float32bits(y))
	case float64:
		return binary.LittleEndian.AppendUint64(b, math.Float64bits(y))
	}
	panic("type")
}

func num[V tuple.Number](p *vk.PRNG) V { return V(int64(p.Intn(201)) - 100) }

func encA[V tuple.Number](t *rapid.T, s *tuple.ArrayOfNumbersCompactSketch[V]) []byte {
	var b bytes.Buffer
	e := tuple.NewArrayOfNumbersSketchEncoder[V](&b)
	if err := e.Encode(s); err != nil {
		t.Fatalf("encode: %v", err)
	}
	return b.Bytes()
}

func drawA[V tuple.Number](t *rapid.T, c *vk.Case, label string, u tgen.Universe, seed uint64, nv int) aopnd[V] {
	sp := tgen.DrawOp(t, label, 700, 8)
	p := vk.NewPRNG(uint64(rapid.Uint32().Draw(t, label+".vals")))
	hs := sp.Hashes(u)
	o := aopnd[V]{nv: nv, desc: fmt.Sprintf("%s%+v", label, sp)}
	us, err := tuple.NewArrayOfNumbersUpdateSketch[V](uint8(nv), tuple.WithUpdateSketchLgK(sp.LgK), tuple.WithUpdateSketchP(sp.P),
		tuple.WithUpdateSketchResizeFactor(theta.ResizeFactor(sp.RF)), tuple.WithUpdateSketchSeed(seed))
	if err != nil {
		t.Fatal(err)
	}
	m := ref.NewThetaModel(sp.LgK, sp.P, seed)
	vals := map[uint64][]V{}
	m.OnDrop = func(h uint64) { delete(vals, h) }
	scratch := make([]V, nv)
	add := func(h uint64) []V {
		for i := range scratch {
			scratch[i] = num[V](p)
		}
		m.Offer(h)
		if _, ok := m.Set[h]; ok {
			if vals[h] == nil {
				vals[h] = make([]V, nv)
			}
			for i := range scratch {
				vals[h][i] += scratch[i]
			}
		}
		return scratch // reused: the sketch must not retain it
	}
	for i, h := range hs {
		_ = us.UpdateBytes(tgen.Bytes(h, seed), add(h))
		if i%5 == 3 {
			_ = us.UpdateBytes(tgen.Bytes(hs[i/2], seed), add(hs[i/2]))
		}
	}
	for i := vk.Int(t, label+".typed", 0, 4); i > 0; i-- {
		k := tgen.DrawKey(t, seed)
		if k.OK {
			_ = tgen.ApplyKey[[]V](k, us, add(k.Hash))
		}
	}
	if sp.Trim {
		us.Trim()
		m.Trim()
	}
	if vk.Chance(t, label+".reset", 1, 15) {
		us.Reset()
		m.Reset()
		clear(vals)
		for _, h := range hs[:len(hs)/2] {
			_ = us.UpdateBytes(tgen.Bytes(h, seed), add(h))
		}
	}
	o.V = aval[V]{ref.KMV{Theta: m.Theta64(), H: m.Sorted(), Empty: m.Empty, SeedH: ref.SeedHash16(seed)}, vals}
	if err := checkA[V](us, o.V, nv); err != nil {
		t.Fatalf("update sketch %s: %v", o.desc, err)
	}
	o.S = us
	if sp.Kind > 1 {
		ord := sp.Kind%2 == 0
		cs, err := us.Compact(ord)
		if err != nil {
			t.Fatal(err)
		}
		if err := checkA[V](cs, o.V, nv); err != nil {
			t.Fatalf("Compact(%v) of %s: %v", ord, o.desc, err)
		}
		o.S = cs
		if sp.Kind > 3 {
			img := encA(t, cs)
			sn := snapA[V](cs)
			if w := encodeAoN(o.V, sn.H, sn.Ordered, nv); !bytes.Equal(img, w) {
				t.Fatalf("%s: image %x, documented layout %x", o.desc, img, w)
			}
			d, err := tuple.DecodeArrayOfNumbersCompactSketch[V](img, seed)
			if err != nil {
				t.Fatalf("decode: %v", err)
			}
			if !snapA[V](d).Equal(sn) {
				t.Fatalf("%s: round trip changed the sketch", o.desc)
			}
			dd := tuple.NewArrayOfNumbersSketchDecoderDecoder[V](seed)
			d2, err := dd.Decode(iotest.OneByteReader(bytes.NewReader(img)))
			if err != nil || !snapA[V](d2).Equal(sn) {
				t.Fatalf("%s: slow stream decode differs (%v)", o.desc, err)
			}
			cut := vk.Int(t, label+".cut", 0, len(img)-1)
			if _, err := tuple.DecodeArrayOfNumbersCompactSketch[V](img[:cut], seed); err == nil {
				t.Fatalf("image cut to %d of %d bytes accepted", cut, len(img))
			}
			if sn.N > 0 {
				if _, err := tuple.DecodeArrayOfNumbersCompactSketch[V](img, otherSeed(seed)); err == nil {
					t.Fatalf("wrong seed accepted")
				}
			}
			for pos := 1; pos <= 3; pos++ {
				bad := slices.Clone(img)
				bad[pos] ^= byte(vk.Int(t, label+".bad", 1, 255))
				if _, err := tuple.DecodeArrayOfNumbersCompactSketch[V](bad, seed); err == nil {
					t.Fatalf("preamble byte %d=%d accepted", pos, bad[pos])
				}
			}
			o.S = d
		}
	}
	o.before = snapA(o.S)
	return o
}

func aonCase[V tuple.Number](t *rapid.T, c *vk.Case) {
	seed := drawSeed(t)
	u := tgen.DrawUniverse(t, "u")
	nv := vk.Int(t, "nv", 1, 9)
	var ops []aopnd[V]
	n := vk.Int(t, "nops", 1, 4)
	hist := fmt.Sprintf("%T x%d:", *new(V), nv)
	for i := 0; i < n; i++ {
		o := drawA[V](t, c, fmt.Sprint("o", i), u, seed, nv)
		ops = append(ops, o)
		hist += " " + o.desc
	}
	type kept struct {
		s *tuple.ArrayOfNumbersCompactSketch[V]
		b asnap[V]
	}
	var res []kept
	keep := func(s *tuple.ArrayOfNumbersCompactSketch[V]) {
		if vk.Chance(t, "scribble", 1, 3) {
			for _, x := range s.All() {
				x.Values()[0] += 7
			}
		}
		res = append(res, kept{s, snapA[V](s)})
	}
	verify := func(what string) {
		for _, o := range ops {
			if !snapA(o.S).Equal(o.before) {
				t.Fatalf("%s changed its operand: %v -> %v", what, o.before, snapA(o.S))
			}
		}
		for _, r := range res {
			if !snapA[V](r.s).Equal(r.b) {
				t.Fatalf("%s changed an earlier result", what)
			}
		}
	}
	ord := rapid.Bool().Draw(t, "ord")
	// union
	lgk := uint8(vk.Int(t, "ulgk", 5, 8))
	un, err := tuple.NewArrayOfNumbersSketchUnion[V](aPolicy[V]{}, uint8(nv), tuple.WithUnionLgK(lgk), tuple.WithUnionSeed(seed))
	if err != nil {
		t.Fatal(err)
	}
	is := tuple.NewArrayOfNumbersSketchIntersection[V](aPolicy[V]{}, uint8(nv), tuple.WithIntersectionSeed(seed))
	uth, uempty := ref.MaxTheta, true
	um := map[uint64][]V{}
	var iv aval[V]
	merged := false
	for i, o := range ops {
		if err := un.Update(o.S); err != nil {
			t.Fatalf("union update: %v", err)
		}
		if !o.V.Empty {
			uempty = false
			uth = min(uth, o.V.Theta)
			for _, h := range o.V.H {
				if old, ok := um[h]; ok {
					um[h] = comb(old, o.V.M[h])
					merged = true
				} else {
					um[h] = slices.Clone(o.V.M[h])
				}
			}
			for h := range um {
				if h >= uth {
					delete(um, h)
				}
			}
		}
		verify("union update")
		if vk.Chance(t, "ures", 1, 2) || i == len(ops)-1 {
			r, err := un.Result(ord)
			if err != nil {
				t.Fatal(err)
			}
			v := aval[V]{ref.KMV{Theta: uth, Empty: uempty, SeedH: ref.SeedHash16(seed)}, um}
			for h := range um {
				v.H = append(v.H, h)
			}
			slices.Sort(v.H)
			if len(v.H) > 1<<lgk {
				v.Theta = v.H[1<<lgk]
				v.H = v.H[:1<<lgk]
			}
			if err := checkA[V](r, v, nv); err != nil {
				t.Fatalf("union result after %s: %v", hist, err)
			}
			keep(r)
		}
		if err := is.Update(o.S); err != nil {
			t.Fatalf("intersection update: %v", err)
		}
		switch {
		case i == 0:
			iv = o.V
		case iv.Empty || o.V.Empty:
			iv = aval[V]{ref.KMV{Theta: ref.MaxTheta, Empty: true, SeedH: o.V.SeedH}, nil}
		default:
			nvv := aval[V]{ref.KMV{Theta: min(iv.Theta, o.V.Theta), SeedH: o.V.SeedH}, map[uint64][]V{}}
			for _, h := range below(iv.H, nvv.Theta) {
				if x, ok := o.V.M[h]; ok {
					nvv.H = append(nvv.H, h)
					nvv.M[h] = comb(iv.M[h], x)
				}
			}
			nvv.Empty = len(nvv.H) == 0 && nvv.Theta == ref.MaxTheta
			iv = nvv
		}
		verify("intersection update")
		if vk.Chance(t, "ires", 1, 2) || i == len(ops)-1 {
			r, err := is.Result(ord)
			if err != nil {
				t.Fatal(err)
			}
			if err := checkA[V](r, iv, nv); err != nil {
				t.Fatalf("intersection result after %s: %v", hist, err)
			}
			keep(r)
		}
	}
	a, b := ops[0], ops[len(ops)-1]
	r, err := tuple.ArrayOfNumbersSketchANotB[V](a.S, b.S, seed, ord)
	if err != nil {
		t.Fatal(err)
	}
	av := a.V
	if !a.V.Empty && !(len(a.V.H) > 0 && b.V.Empty) {
		av = aval[V]{ref.KMV{Theta: min(a.V.Theta, b.V.Theta), SeedH: a.V.SeedH}, a.V.M}
		for _, h := range below(a.V.H, av.Theta) {
			if _, ok := slices.BinarySearch(b.V.H, h); !ok {
				av.H = append(av.H, h)
			}
		}
		av.Empty = len(av.H) == 0 && av.Theta == ref.MaxTheta
	}
	if err := checkA[V](r, av, nv); err != nil {
		t.Fatalf("ANotB(%s, %s): %v", a.desc, b.desc, err)
	}
	keep(r)
	verify("all operations")
	// results round trip
	for _, k := range res {
		img := encA(t, k.s)
		d, err := tuple.DecodeArrayOfNumbersCompactSketch[V](img, seed)
		if err != nil {
			t.Fatal(err)
		}
		if s := snapA[V](k.s); !snapA[V](d).Equal(s) {
			t.Fatalf("round trip of a result: %v -> %v", s, snapA[V](d))
		}
	}
	// vector length is checked
	w, _ := tuple.NewArrayOfNumbersUpdateSketch[V](uint8(nv+1), tuple.WithUpdateSketchSeed(seed))
	_ = w.UpdateInt64(1, make([]V, nv+1))
	before, _ := un.Result(true)
	if err := un.Update(w); err == nil {
		t.Fatalf("union accepted vectors of another length")
	}
	after, _ := un.Result(true)
	if !snapA[V](before).Equal(snapA[V](after)) {
		t.Fatalf("rejected operand changed the union")
	}
	if err := is.Update(w); err == nil && !iv.Empty {
		t.Fatalf("intersection accepted vectors of another length")
	}
	un.Reset()
	if r, err := un.Result(true); err != nil || !r.IsEmpty() || r.NumRetained() != 0 {
		t.Fatalf("reset union is not empty")
	}
	verify("union reset")
	if merged {
		c.NT(seed, u, hist)
	}
	c.Class(fmt.Sprintf("%T", *new(V)))
	c.Sample("%s", hist)
}

func TestU04(t *testing.T) {
	vk.Property(t, "U04", "at least two operands share keys, so vectors are combined",
		vk.Sub{Name: "float64", Quick: 5000, Thorough: 100000, Fn: aonCase[float64]},
		vk.Sub{Name: "int64", Quick: 3000, Thorough: 60000, Fn: aonCase[int64]},
		vk.Sub{Name: "float32", Quick: 1500, Thorough: 30000, Fn: aonCase[float32]},
		vk.Sub{Name: "int8", Quick: 1500, Thorough: 30000, Fn: aonCase[int8]},
		vk.Sub{Name: "uint16", Quick: 1500, Thorough: 30000, Fn: aonCase[uint16]},
		vk.Sub{Name: "strings", Quick: 3000, Thorough: 60000, Fn: aosCase},
	)
}

// aosValues reads the strings out of a string-array summary through its published writer.
func aosValues(s *tuple.ArrayOfStringsSummary) []string {
	var b bytes.Buffer
	if err := tuple.ArrayOfStringsSummaryWriter(&b, s); err != nil {
		return []string{"error: " + err.Error()}
	}
	return parseStrings(b.Bytes())
}

func parseStrings(p []byte) []string {
	if len(p) < 5 || binary.LittleEndian.Uint32(p) != uint32(len(p)) {
		return []string{"bad length field"}
	}
	r := make([]string, 0, p[4])
	q := p[5:]
	for range p[4] {
		n := binary.LittleEndian.Uint32(q)
		r = append(r, string(q[4:4+n]))
		q = q[4+n:]
	}
	return r
}

// aosPolicy concatenates the arrays, keeping at most 100 strings.
type aosPolicy struct{}

func aosJoin(a, b []string) []string {
	r := append(slices.Clone(a), b...)
	return r[:min(len(r), 100)]
}

func (aosPolicy) Apply(in, inc *tuple.ArrayOfStringsSummary) {
	in.Update(aosJoin(aosValues(in), aosValues(inc)))
}

type aosVal struct {
	ref.KMV
	M map[uint64][]string
}

func aosCase(t *rapid.T, c *vk.Case) {
	seed := drawSeed(t)
	salt := rapid.Uint64().Draw(t, "salt")
	pool := vk.Size(t, "keys", 1, 200)
	keyOf := func(i int) []string {
		k := stringsFor(uint64(i), salt)
		switch i % 7 { // keys that differ only in empty members
		case 5:
			return append(stringsFor(uint64(i-1), salt), "")
		case 6:
			return append([]string{""}, stringsFor(uint64(i-2), salt)...)
		}
		return k
	}
	check := func(what string, s tuple.Sketch[*tuple.ArrayOfStringsSummary], v aosVal) {
		if s.Theta64() != v.Theta || s.IsEmpty() != v.Empty || int(s.NumRetained()) != len(v.H) {
			t.Fatalf("%s: theta %d empty %v n %d, want %d %v %d", what, s.Theta64(), s.IsEmpty(), s.NumRetained(), v.Theta, v.Empty, len(v.H))
		}
		n := 0
		for h, x := range s.All() {
			if _, ok := slices.BinarySearch(v.H, h); !ok {
				t.Fatalf("%s: unexpected key hash %x", what, h)
			}
			if g := aosValues(x); !slices.Equal(g, v.M[h]) {
				t.Fatalf("%s: strings of %x are %q, want %q", what, h, g, v.M[h])
			}
			n++
		}
		if n != len(v.H) {
			t.Fatalf("%s: %d entries, want %d", what, n, len(v.H))
		}
	}
	roundTrip := func(what string, s tuple.Sketch[*tuple.ArrayOfStringsSummary], v aosVal) {
		cs, err := tuple.NewCompactSketch(s, vk.Chance(t, "ordered", 1, 2))
		if err != nil {
			t.Fatal(err)
		}
		var b bytes.Buffer
		e := tuple.NewEncoder[*tuple.ArrayOfStringsSummary](&b, tuple.ArrayOfStringsSummaryWriter)
		if err := e.Encode(cs); err != nil {
			t.Fatal(err)
		}
		d, err := tuple.Decode(b.Bytes(), seed, tuple.ArrayOfStringsSummaryReader)
		if err != nil {
			t.Fatal(err)
		}
		check(what+" decoded", d, v)
		di, err := tuple.Decode(b.Bytes(), seed, tuple.ArrayOfStringsInlineSummaryReader)
		if err != nil {
			t.Fatal(err)
		}
		for h, x := range di.All() {
			var w bytes.Buffer
			if err := tuple.ArrayOfStringsInlineSummaryWriter(&w, x); err != nil || !slices.Equal(parseStrings(w.Bytes()), v.M[h]) {
				t.Fatalf("%s: inline strings of %x are %q (%v), want %q", what, h, w.Bytes(), err, v.M[h])
			}
		}
	}
	type op struct {
		s tuple.Sketch[*tuple.ArrayOfStringsSummary]
		v aosVal
	}
	nops := vk.Int(t, "operands", 1, 3)
	var ops []op
	var hist string
	shared := false
	un, err := tuple.NewUnion[*tuple.ArrayOfStringsSummary](aosPolicy{}, tuple.WithUnionSeed(seed), tuple.WithUnionLgK(8))
	if err != nil {
		t.Fatal(err)
	}
	for o := 0; o < nops; o++ {
		n := vk.Size(t, "n", 0, 300)
		lgk := vk.Int(t, "lgk", 5, 8)
		osalt := rapid.Uint64().Draw(t, "osalt")
		us, err := tuple.NewUpdateSketch[*tuple.ArrayOfStringsSummary, []string](tuple.NewArrayOfStringsSummaryFunc, tuple.WithUpdateSketchLgK(uint8(lgk)), tuple.WithUpdateSketchSeed(seed))
		if err != nil {
			t.Fatal(err)
		}
		m := ref.NewThetaModel(uint8(lgk), 1, seed)
		want := map[uint64][]string{}
		p := vk.NewPRNG(osalt)
		for i := 0; i < n; i++ {
			key := keyOf(p.Intn(pool))
			kept := slices.Clone(key)
			hk := tuple.GenerateHashKeyFromStrings(key)
			if w := ref.XXH64(joinKey(kept), 0x7A3CCA71); hk != w || !slices.Equal(key, kept) {
				t.Fatalf("key hash of %q is %x, want %x", kept, hk, w)
			}
			val := stringsFor(uint64(i), osalt)
			h := tgen.I64Hash(int64(hk), seed)
			m.Offer(h)
			want[h] = slices.Clone(val)
			_ = us.UpdateUint64(hk, val)
			for j := range val { // the caller reuses its slice
				val[j] = "overwritten"
			}
		}
		v := aosVal{ref.KMV{Theta: m.Theta64(), H: m.Sorted(), Empty: m.Empty, SeedH: ref.SeedHash16(seed)}, map[uint64][]string{}}
		for _, h := range v.H {
			v.M[h] = want[h]
		}
		x := op{us, v}
		if vk.Chance(t, "compact", 1, 2) {
			if x.s, err = us.Compact(vk.Chance(t, "compact-ordered", 1, 2)); err != nil {
				t.Fatal(err)
			}
		}
		check("operand", x.s, v)
		roundTrip("operand", x.s, v)
		ops = append(ops, x)
		hist += fmt.Sprintf("lgk%d:%d ", lgk, len(v.H))
	}
	// a union of small operands keeps every key below the smallest theta
	uv := aosVal{ref.KMV{Theta: ref.MaxTheta, Empty: true, SeedH: ref.SeedHash16(seed)}, map[uint64][]string{}}
	for _, o := range ops {
		if err := un.Update(o.s); err != nil {
			t.Fatal(err)
		}
		uv.Empty = uv.Empty && o.v.Empty
		uv.Theta = min(uv.Theta, o.v.Theta)
		for _, h := range o.v.H {
			if old, ok := uv.M[h]; ok {
				shared = true
				uv.M[h] = aosJoin(old, o.v.M[h])
			} else {
				uv.M[h] = o.v.M[h]
			}
		}
	}
	for h := range uv.M {
		if h < uv.Theta {
			uv.H = append(uv.H, h)
		}
	}
	slices.Sort(uv.H)
	if len(uv.H) <= 256 { // no trimming
		r, err := un.Result(vk.Chance(t, "result-ordered", 1, 2))
		if err != nil {
			t.Fatal(err)
		}
		check("union", r, uv)
		roundTrip("union", r, uv)
	}
	// intersection in order
	is := tuple.NewIntersection[*tuple.ArrayOfStringsSummary](aosPolicy{}, tuple.WithIntersectionSeed(seed))
	iv := aosVal{KMV: ref.KMV{Theta: ref.MaxTheta}, M: map[uint64][]string{}}
	for i, o := range ops {
		if err := is.Update(o.s); err != nil {
			t.Fatal(err)
		}
		if i == 0 {
			iv = aosVal{o.v.KMV, o.v.M}
			continue
		}
		if iv.Empty || o.v.Empty {
			iv = aosVal{ref.KMV{Theta: ref.MaxTheta, Empty: true}, nil}
			continue
		}
		th := min(iv.Theta, o.v.Theta)
		nv := aosVal{ref.KMV{Theta: th}, map[uint64][]string{}}
		for _, h := range iv.H {
			if _, ok := slices.BinarySearch(o.v.H, h); ok && h < th {
				nv.H = append(nv.H, h)
				nv.M[h] = aosJoin(iv.M[h], o.v.M[h])
			}
		}
		nv.Empty = th == ref.MaxTheta && len(nv.H) == 0
		iv = nv
	}
	ir, err := is.Result(true)
	if err != nil {
		t.Fatal(err)
	}
	check("intersection", ir, iv)
	for _, o := range ops {
		check("operand afterwards", o.s, o.v)
	}
	if shared {
		c.NT(seed, salt, hist)
	}
	c.Class("strings")
	c.Sample("string keys %s", hist)
}

func joinKey(k []string) []byte {
	var j []byte
	for x, s := range k {
		if x > 0 {
			j = append(j, ',')
		}
		j = append(j, s...)
	}
	return j
}
